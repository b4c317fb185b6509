//go:build go1.21

package main

import "verif/harness/serverdrv"

func main() { serverdrv.Main(serverMain, verifReset) }
