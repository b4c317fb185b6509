package main

import "verif/harness/mc"

func main() {
	mc.Also386()
	mc.Main()
}
