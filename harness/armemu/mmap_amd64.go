package armemu

import "syscall"

func mmapAt(addr, size uintptr, flags int) (uintptr, syscall.Errno) {
	a, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, size, syscall.PROT_READ|syscall.PROT_WRITE, uintptr(flags), ^uintptr(0), 0)
	return a, e
}
