//go:build amd64 || arm64

package main

const natural64 = 8
