package main

import (
	"fmt"
	"os"
	"time"

	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/mc"
	"verif/harness/serverdrv"
)

type (
	S  = serverdrv.Scenario
	C  = serverdrv.Client
	A  = serverdrv.Act
	DC = rtl.Config
)

var (
	devA = DC{Name: "Generic RTL2832U", Gains: []int{-99, -40, 71, 179, 192}, Xtal: 28800000, Step: 1000}
	devB = DC{Name: "Terratec NOXON (rev 3)", Gains: []int{0, 9}, Xtal: 16000000, Step: 1}
	devC = DC{Name: "x", Gains: []int{5}, Xtal: 1, Step: 10}
	devD = DC{Name: "no gains", Xtal: 0}
)

func req(ls ...string) []A {
	var a []A
	for _, l := range ls {
		a = append(a, A{Op: "req", Arg: l})
	}
	return a
}

func act(op string, arg ...any) A {
	x := A{Op: op}
	if len(arg) > 0 {
		x.Arg = fmt.Sprint(arg...)
	}
	return x
}

func cat(parts ...[]A) []A {
	var a []A
	for _, p := range parts {
		a = append(a, p...)
	}
	return a
}

// client connects, does what is given and leaves.
func client(acts ...A) C {
	return C{Acts: cat([]A{act("connect")}, acts, []A{act("close")})}
}

func dest(k int) A { return act("req", fmt.Sprintf("DEST 10.2.0.%d:%d", k+1, 4000+k)) }

var (
	binSync = os.Getenv("VERIF_SRV_SYNC") // scheduling points at operations
	binAll  = os.Getenv("VERIF_SRV_ALL")  // scheduling points at every statement
	binRace = os.Getenv("VERIF_SRV_RACE") // at operations, with the race detector
)

// item is one scenario to explore.
type item struct {
	s     *S
	bin   string
	base  int
	bound int
}

// family explores the items of each case; want drops cases beyond a share of the
// space in the quick tier.
func family(id, name string, n int, limit time.Duration, gen func(i int) []item) *mc.Family {
	return &mc.Family{Name: name, N: n, Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		for _, it := range gen(i) {
			if it.bin == "" {
				return fmt.Errorf("no helper binary")
			}
			if err := explore(c, id, it.bin, it.s, it.base, it.bound, 0, limit); err != nil {
				return err
			}
			if c.OutOfTime() {
				return nil
			}
		}
		return nil
	}}
}

func list(id, name string, limit time.Duration, items []item) *mc.Family {
	return family(id, name, len(items), limit, func(i int) []item { return items[i : i+1] })
}

// words lists all sequences over k symbols of length lo..hi.
func words(k, lo, hi int) [][]int {
	var r [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) >= lo {
			r = append(r, append([]int(nil), p...))
		}
		if len(p) == hi {
			return
		}
		for x := 0; x < k; x++ {
			rec(append(p, x))
		}
	}
	rec(nil)
	return r
}

// bases explores under each default scheduler.
func bases(s *S, bin string, bound int, bs ...int) []item {
	if len(bs) == 0 {
		bs = []int{0, 1, 2}
	}
	var r []item
	for _, b := range bs {
		r = append(r, item{s, bin, b, bound})
	}
	return r
}
