//go:build 386 || arm

package main

const natural64 = 4
