// Package vos stands for os in a copy of the code that looks at the processor
// description of an ARM system: the description comes from elsewhere, in reads
// of a chosen size.
package vos

import (
	"io"
	"os"
	"strconv"
)

const cpuinfo = "/proc/cpuinfo"

// File is a file whose reads may be short.
type File struct {
	f *os.File
	n int
}

func (f *File) Read(p []byte) (int, error) {
	if f.n > 0 && len(p) > f.n {
		p = p[:f.n]
	}
	return f.f.Read(p)
}
func (f *File) Close() error                          { return f.f.Close() }
func (f *File) Stat() (os.FileInfo, error)            { return f.f.Stat() }
func (f *File) ReadAt(p []byte, o int64) (int, error) { return f.f.ReadAt(p, o) }

func Open(name string) (*File, error) {
	n := 0
	if name == cpuinfo {
		name = os.Getenv("VERIF_CPUINFO")
		n, _ = strconv.Atoi(os.Getenv("VERIF_CPUINFO_READ"))
	}
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	return &File{f, n}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func Getenv(k string) string            { return os.Getenv(k) }
func LookupEnv(k string) (string, bool) { return os.LookupEnv(k) }
func IsNotExist(err error) bool         { return os.IsNotExist(err) }

var (
	ErrNotExist = os.ErrNotExist
	Stderr      = os.Stderr
)
