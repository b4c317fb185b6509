module verif/harness

go 1.24

require github.com/samuel/go-dsp v0.0.0

replace github.com/samuel/go-dsp => /repo
