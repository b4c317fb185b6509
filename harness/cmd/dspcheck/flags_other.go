//go:build !amd64 && !verifemu

package main

func dispatchConfigs() []dispatchCfg { return []dispatchCfg{defaultCfg} }
