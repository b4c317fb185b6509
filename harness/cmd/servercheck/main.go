package main

import "verif/harness/mc"

func main() { mc.Main() }
