module github.com/samuel/go-dsp

go 1.17
