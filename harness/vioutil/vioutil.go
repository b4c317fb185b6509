// Package vioutil stands for io/ioutil together with package vos.
package vioutil

import (
	"io"

	"verif/harness/vos"
)

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }

var Discard = io.Discard
