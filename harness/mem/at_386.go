package mem

import (
	"fmt"
	"syscall"
	"unsafe"
)

const (
	sysMmap2       = 192
	sysMemfdCreate = 356
	noReplace      = 0x100000
	noReserve      = 0x4000
)

func mapAt(addr uintptr, n int, prot, flags, fd, pageOff uintptr) (uintptr, error) {
	a, _, e := syscall.Syscall6(sysMmap2, addr, uintptr(n), prot, flags, fd, pageOff)
	if e != 0 {
		return 0, e
	}
	return a, nil
}

func bytesAt(a uintptr, n int) []byte {
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&a))), n)
}

// NewAt makes an arena whose n data octets (whole pages) start at addr.
func NewAt(addr uintptr, n int) (*Arena, error) {
	p, err := mapAt(addr-page, n+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|noReplace, ^uintptr(0), 0)
	if err != nil {
		return nil, err
	}
	if p != addr-page {
		syscall.Syscall(syscall.SYS_MUNMAP, p, uintptr(n+2*page), 0)
		return nil, fmt.Errorf("mapped at %#x", p)
	}
	all := bytesAt(p, n+2*page)
	must(syscall.Mprotect(all[:page], syscall.PROT_NONE))
	must(syscall.Mprotect(all[page+n:], syscall.PROT_NONE))
	a := &Arena{all: all, Data: all[page : page+n : page+n], Gold: make([]byte, n)}
	a.Reset(0, n)
	return a, nil
}

// Unmap removes what NewAt made.
func (a *Arena) Unmap() {
	syscall.Syscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(&a.all[0])), uintptr(len(a.all)), 0)
}
