//go:build linux && amd64

package mem

import (
	"syscall"
	"unsafe"
)

const memfdCreate = 319

// Tile is the size of the pieces a huge arena is made of.
const Tile = 1 << 22

// Huge is a long piece of address space backed by three tiles: the first, the
// last and one that is repeated in between. Inaccessible pages surround it.
type Huge struct {
	Arena
	First, Mid, Last []byte
}

// NewHuge makes an arena of at least n octets (whole tiles, three at least).
func NewHuge(n int) *Huge {
	k := (n + Tile - 1) / Tile
	if k < 3 {
		k = 3
	}
	all, err := syscall.Mmap(-1, 0, k*Tile+2*page, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	must(err)
	name := []byte("verif\x00")
	fd, _, e := syscall.Syscall(memfdCreate, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		panic(e)
	}
	defer syscall.Close(int(fd))
	must(syscall.Ftruncate(int(fd), 3*Tile))
	start := uintptr(unsafe.Pointer(&all[0])) + page
	for i := 0; i < k; i++ {
		piece := 1
		switch i {
		case 0:
			piece = 0
		case k - 1:
			piece = 2
		}
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, start+uintptr(i*Tile), Tile, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED|syscall.MAP_FIXED, fd, uintptr(piece*Tile))
		if e != 0 {
			syscall.Munmap(all)
			panic(e)
		}
	}
	d := all[page : page+k*Tile : page+k*Tile]
	h := &Huge{First: d[:Tile], Mid: d[Tile : 2*Tile], Last: d[(k-1)*Tile:]}
	h.all, h.Data = all, d
	return h
}
