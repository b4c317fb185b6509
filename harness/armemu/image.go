// Package armemu executes machine code of the ARM and ARM64 builds of the
// repository: the text of a linked program is mapped at the addresses it was
// linked for and interpreted instruction by instruction. Data addresses are
// those of the process itself (the ARM image runs in a 386 process, the ARM64
// image in an amd64 process), so slices, guard pages and canaries are the real
// ones.
package armemu

import (
	"bytes"
	"debug/elf"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// unsupported ends the process: there is no verdict on code that uses
// instructions outside the modelled set.
func unsupported(what string) {
	fmt.Fprintln(os.Stderr, "emulator: unsupported", what)
	os.Exit(3)
}

type image struct {
	lo, hi  uintptr // mapped addresses
	textLo  uintptr
	textHi  uintptr
	syms    map[string]uintptr
	names   map[uintptr]string // functions
	wide    bool               // ARM64
	decoded []step
}

type step func(c *cpu)

var (
	img     *image
	imgOnce sync.Once
	imgErr  error
)

const dspPrefix = "github.com/samuel/go-dsp/dsp."

// Load maps the image named by VERIF_EMU_ELF. It is done on first use.
func Load() (*image, error) {
	imgOnce.Do(func() { img, imgErr = load(os.Getenv("VERIF_EMU_ELF")) })
	return img, imgErr
}

func load(path string) (*image, error) {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if len(raw) < 64 {
		return nil, fmt.Errorf("%s: no image", path)
	}
	// The link address makes odd program headers; sections are what counts.
	if raw[elf.EI_CLASS] == byte(elf.ELFCLASS64) {
		raw[0x38], raw[0x39] = 0, 0
	} else {
		raw[0x2c], raw[0x2d] = 0, 0
	}
	f, err := elf.NewFile(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	im := &image{syms: map[string]uintptr{}, names: map[uintptr]string{}}
	switch f.Machine {
	case elf.EM_ARM:
	case elf.EM_AARCH64:
		im.wide = true
	default:
		return nil, fmt.Errorf("machine %v", f.Machine)
	}
	if im.wide != (unsafe.Sizeof(uintptr(0)) == 8) {
		return nil, fmt.Errorf("%v image in a %d bit process", f.Machine, 8*unsafe.Sizeof(uintptr(0)))
	}
	im.lo = ^uintptr(0)
	for _, s := range f.Sections {
		if s.Flags&elf.SHF_ALLOC == 0 || s.Size == 0 {
			continue
		}
		if a := uintptr(s.Addr); a < im.lo {
			im.lo = a
		}
		if e := uintptr(s.Addr + s.Size); e > im.hi {
			im.hi = e
		}
	}
	im.lo &^= 0xffff
	im.hi = (im.hi + 0xffff) &^ 0xffff
	const noReplace = 0x100000
	a, e := mmapAt(im.lo, im.hi-im.lo, syscall.MAP_PRIVATE|syscall.MAP_ANON|noReplace)
	if e != 0 || a != im.lo {
		return nil, fmt.Errorf("mapping the image at %#x: %v", im.lo, e)
	}
	for _, s := range f.Sections {
		if s.Flags&elf.SHF_ALLOC == 0 || s.Size == 0 {
			continue
		}
		if s.Name == ".text" {
			im.textLo, im.textHi = uintptr(s.Addr), uintptr(s.Addr+s.Size)
		}
		if s.Type == elf.SHT_NOBITS {
			continue
		}
		b, err := s.Data()
		if err != nil {
			return nil, err
		}
		copy(unsafe.Slice((*byte)(ptr(uintptr(s.Addr))), len(b)), b)
	}
	syms, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	for _, s := range syms {
		if s.Section == elf.SHN_UNDEF || s.Value == 0 {
			continue
		}
		im.syms[s.Name] = uintptr(s.Value)
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			im.names[uintptr(s.Value)] = s.Name
		}
	}
	im.decoded = make([]step, (im.textHi-im.textLo)/4)
	return im, nil
}

//go:nocheckptr
func ptr(a uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&a)) }

// cpu is the state of one processor. The 32-bit one uses r, d and the flags,
// the 64-bit one x, v and the flags.
type cpu struct {
	im         *image
	pc, next   uintptr
	r          [16]uint32
	s          [64]uint32 // S registers; D and Q registers are pairs and quadruples
	fpscr      uint32
	x          [32]uint64 // x[31] is SP
	q          [32][2]uint64
	n, z, c, v bool
	mem        []byte // stack and g
}

const (
	stackSize = 1 << 16
	haltAddr  = 0xfff0
	maxSteps  = 1 << 30
)

var cpus = sync.Pool{New: func() any { return &cpu{mem: newStack()} }}

func newStack() []byte {
	b, err := syscall.Mmap(-1, 0, stackSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	return b
}

// trap is what a call of these functions means.
func trap(name string) bool {
	for _, p := range []string{"runtime.panic", "runtime.goPanic", "runtime.morestack", "runtime.throw", "runtime.sigpanic", "runtime.fatal", "runtime.gcWriteBarrier"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var (
	never bool
	sink  unsafe.Pointer
)

// Call executes the function with its arguments (and results) laid out from
// args on as the stack based calling convention has it.
//
// Everything the arguments point at has to be on the heap, since goroutine
// stacks move.
func Call(name string, args unsafe.Pointer, size uintptr) {
	if never {
		sink = args
	}
	im, err := Load()
	if err != nil {
		panic(err)
	}
	addr, ok := im.syms[dspPrefix+name+".abi0"]
	if !ok {
		addr, ok = im.syms[dspPrefix+name]
	}
	if !ok {
		panic("emulator: the image has no " + name)
	}
	im.call(addr, args, size)
}

func (im *image) call(addr uintptr, args unsafe.Pointer, size uintptr) {
	c := cpus.Get().(*cpu)
	c.im = im
	c.run(addr, args, size)
	cpus.Put(c) // not after a panic: a fresh one then
	runtime.KeepAlive(args)
}

func (c *cpu) run(addr uintptr, args unsafe.Pointer, size uintptr) {
	if size > 1024 {
		panic("emulator: too many arguments")
	}
	base := uintptr(unsafe.Pointer(&c.mem[0]))
	sp := base + stackSize - 2048
	word := unsafe.Sizeof(uintptr(0))
	argp := unsafe.Slice((*byte)(ptr(sp+word)), size)
	src := unsafe.Slice((*byte)(args), size)
	copy(argp, src)
	g := base // zero: no stack check ever fails
	clear(c.mem[:512])
	// What a caller may leave behind.
	for i := range c.s {
		c.s[i] = 0x7fa00000 + uint32(i)
	}
	for i := range c.q {
		c.q[i] = [2]uint64{0x7fa000007fb00000 + uint64(i), 0x7fc00000ffa00000 + uint64(i)}
	}
	c.fpscr = 0
	c.n, c.z, c.c, c.v = true, true, true, true
	for i := range c.r {
		c.r[i] = 0xbad00000 + uint32(i)
	}
	for i := range c.x {
		c.x[i] = 0xbad0bad0bad00000 + uint64(i)
	}
	if c.im.wide {
		c.x[31], c.x[30], c.x[28], c.x[29] = uint64(sp), haltAddr, uint64(g), uint64(sp-8)
	} else {
		c.r[13], c.r[14], c.r[10] = uint32(sp), haltAddr, uint32(g)
	}
	c.pc = addr
	c.loop()
	if c.im.wide {
		if c.x[31] != uint64(sp) {
			panic(fmt.Sprintf("emulator: stack pointer off by %d on return", int64(c.x[31]-uint64(sp))))
		}
		if c.x[28] != uint64(g) {
			panic("emulator: the g register was changed")
		}
	} else {
		if c.r[13] != uint32(sp) {
			panic(fmt.Sprintf("emulator: stack pointer off by %d on return", int32(c.r[13]-uint32(sp))))
		}
		if c.r[10] != uint32(g) {
			panic("emulator: the g register was changed")
		}
		if c.fpscr&(7<<16|3<<20|3<<22) != 0 {
			panic("emulator: vector mode or rounding mode left behind")
		}
	}
	copy(src, argp)
}

func (c *cpu) loop() {
	im, n := c.im, 0
	for c.pc != haltAddr {
		pc := c.pc
		if pc < im.textLo || pc >= im.textHi || pc&3 != 0 {
			panic(fmt.Sprintf("emulator: jump to %#x", pc))
		}
		k := (pc - im.textLo) / 4
		f := im.decoded[k]
		if f == nil {
			if n, ok := im.names[pc]; ok && trap(n) {
				panic("emulator: " + n)
			}
			ins := *(*uint32)(ptr(pc))
			if im.wide {
				f = decode64(ins, uint64(pc))
			} else {
				f = decode32(ins, uint32(pc))
			}
			if f == nil {
				unsupported(fmt.Sprintf("instruction %08x at %#x", ins, pc))
			}
			im.decoded[k] = f
		}
		c.next = pc + 4
		if n++; n > maxSteps {
			panic("emulator: does not end")
		}
		f(c)
		c.pc = c.next
	}
}

// SetFlag sets a boolean package variable of the image, if there is one.
func SetFlag(name string, v bool) bool {
	im, err := Load()
	if err != nil {
		panic(err)
	}
	a, ok := im.syms[dspPrefix+name]
	if ok {
		*(*bool)(ptr(a)) = v
	}
	return ok
}
