// Package mem provides buffers whose surroundings are watched: canary bytes
// around every slice and unmapped pages behind and in front.
package mem

import (
	"bytes"
	"syscall"
	"unsafe"
)

const page = 4096

// Arena is data pages between two inaccessible pages.
type Arena struct {
	all  []byte
	Data []byte // watched bytes
	Gold []byte // what Data must look like
}

// New makes an arena with at least n data bytes.
func New(n int) *Arena {
	np := (n + page - 1) / page
	all, err := syscall.Mmap(-1, 0, (np+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(all[:page], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(all[(np+1)*page:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	a := &Arena{all: all, Data: all[page : (np+1)*page : (np+1)*page]}
	a.Gold = make([]byte, len(a.Data))
	for i := range a.Gold {
		a.Gold[i] = Canary(i)
	}
	copy(a.Data, a.Gold)
	return a
}

// Canary is the fill byte at position i.
func Canary(i int) byte { return byte(i*37+i>>8*11) ^ 0xA5 }

// Free unmaps the arena.
func (a *Arena) Free() { syscall.Munmap(a.all) }

// ReadOnly/ReadWrite change the protection of the data pages.
func (a *Arena) ReadOnly()  { must(syscall.Mprotect(a.Data, syscall.PROT_READ)) }
func (a *Arena) ReadWrite() { must(syscall.Mprotect(a.Data, syscall.PROT_READ|syscall.PROT_WRITE)) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Reset restores canaries everywhere in [lo,hi).
func (a *Arena) Reset(lo, hi int) {
	for i := lo; i < hi; i++ {
		b := Canary(i)
		a.Gold[i] = b
		a.Data[i] = b
	}
}

// Set writes b at off in both data and gold.
func (a *Arena) Set(off int, b []byte) {
	copy(a.Data[off:], b)
	copy(a.Gold[off:], b)
}

// Bad returns the first offset where data differs from gold, or -1.
func (a *Arena) Bad() int {
	if bytes.Equal(a.Data, a.Gold) {
		return -1
	}
	for i := range a.Data {
		if a.Data[i] != a.Gold[i] {
			return i
		}
	}
	return -1
}

// Slice views n elements of T at byte offset off; spare adds capacity.
func Slice[T any](a *Arena, off, n, spare int) []T {
	var z T
	sz := int(unsafe.Sizeof(z))
	if off+n*sz > len(a.Data) || off < 0 {
		panic("mem.Slice out of range")
	}
	p := unsafe.Add(unsafe.Pointer(&a.all[0]), page+off)
	if n+spare == 0 {
		return unsafe.Slice((*T)(p), 0)
	}
	if off+(n+spare)*sz > len(a.Data) {
		spare = 0
	}
	return unsafe.Slice((*T)(p), n+spare)[:n]
}
