// isocheck decides C29.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"verif/harness/hpool"
	"verif/harness/isodrv"
	"verif/harness/mc"
)

func main() { mc.Main() }

var (
	steps = os.Getenv("VERIF_ISO")
	race  = os.Getenv("VERIF_ISO_RACE")
)

type local struct{ h map[string]*hpool.Helper }

func once(bin string, q *isodrv.Request) (*isodrv.Response, error) {
	h, err := hpool.Start(bin)
	if err != nil {
		return nil, err
	}
	defer h.Stop()
	p := &isodrv.Response{}
	return p, h.Ask(q, p, 120*time.Second)
}

// The users and what each gets alone in a fresh process.
var (
	kinds, names []string
	alone        []isodrv.Hash
	ncalls       []int
	index        []int // in the helper's list
)

func setup() {
	p, err := once(steps, &isodrv.Request{List: true})
	if err != nil {
		panic(err)
	}
	kinds, names = p.Kinds, p.Names
	alone, ncalls = make([]isodrv.Hash, len(names)), make([]int, len(names))
	dead := make([]bool, len(names))
	var wg sync.WaitGroup
	sem := make(chan bool, 16)
	for k := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			p, err := once(steps, &isodrv.Request{Users: []int{k}, Mode: "seq"})
			if err != nil {
				// Not this property's matter; it is left out.
				fmt.Fprintln(os.Stderr, names[k], "alone:", err)
				dead[k] = true
				return
			}
			alone[k], ncalls[k] = p.Got[0], p.Calls[0]
		}()
	}
	wg.Wait()
	var k2, n2 []string
	var a2 []isodrv.Hash
	var c2 []int
	for k := range names {
		if !dead[k] {
			index = append(index, k)
			k2, n2, a2, c2 = append(k2, kinds[k]), append(n2, names[k]), append(a2, alone[k]), append(c2, ncalls[k])
		}
	}
	kinds, names, alone, ncalls = k2, n2, a2, c2
	if len(names) < 2 {
		panic("the programs do not run")
	}
}

func ids(us []int) []int {
	var r []int
	for _, u := range us {
		r = append(r, index[u])
	}
	return r
}

func who(us []int) string {
	var s []string
	for _, u := range us {
		s = append(s, names[u])
	}
	return strings.Join(s, " and ")
}

func died(err error, us []int) error {
	d, ok := err.(*hpool.Died)
	if !ok {
		return fmt.Errorf("helper: %v", err)
	}
	kind := "crash"
	if strings.Contains(d.What, "DATA RACE") {
		kind = "race"
	} else if d.Hang {
		kind = "hang"
	}
	return mc.Vd(kind, map[string]any{"users": who(us), "schedule": d.Schedule}, "%s: %s\nschedule: %.400s\n%s", who(us), kind, fmt.Sprint(d.Schedule), d.What)
}

// history runs the users one after the other in a fresh process.
func history(c *mc.Ctx, us []int) error {
	p, err := once(steps, &isodrv.Request{Users: ids(us), Mode: "seq"})
	if err != nil {
		return died(err, us)
	}
	c.Evals++
	c.Traces++
	c.Nontrivial++
	c.States += int64(len(us))
	c.Transitions += p.Steps
	for k, u := range us {
		if p.Got[k] != alone[u] {
			return mc.V("history", "%s, one after the other: number %d (%s) gets other results than alone", who(us), k+1, names[u])
		}
	}
	return nil
}

// merges: every order of the calls of two users (their creation included).
func merges(c *mc.Ctx, a, b int) error {
	na, nb := ncalls[a]+1, ncalls[b]+1
	lo, _ := c.Local.(*local)
	if lo == nil {
		lo = &local{map[string]*hpool.Helper{}}
		c.Local = lo
	}
	h := lo.h[steps]
	if h == nil {
		var err error
		if h, err = hpool.Start(steps); err != nil {
			return err
		}
		lo.h[steps] = h
	}
	var order []int
	var rec func(x, y int) error
	rec = func(x, y int) error {
		if x == na && y == nb {
			p := &isodrv.Response{}
			if err := h.Ask(&isodrv.Request{Users: ids([]int{a, b}), Mode: "calls", Order: order}, p, 60*time.Second); err != nil {
				h.Stop()
				delete(lo.h, steps)
				return died(err, []int{a, b})
			}
			c.Evals++
			c.Traces++
			c.Nontrivial++
			c.States += int64(len(order))
			c.Transitions += p.Steps
			if p.Got[0] != alone[a] || p.Got[1] != alone[b] {
				h.Stop()
				delete(lo.h, steps)
				w := a
				if p.Got[0] == alone[a] {
					w = b
				}
				return mc.V("calls", "%s with their calls in the order %v: %s gets other results than alone", who([]int{a, b}), order, names[w])
			}
			return nil
		}
		if x < na {
			order = append(order, 0)
			if err := rec(x+1, y); err != nil {
				return err
			}
			order = order[:len(order)-1]
		}
		if y < nb {
			order = append(order, 1)
			if err := rec(x, y+1); err != nil {
				return err
			}
			order = order[:len(order)-1]
		}
		return nil
	}
	return rec(0, 0)
}

// schedules explores goroutines at every statement.
func schedules(c *mc.Ctx, bin string, us []int, base, bound int, limit time.Duration) error {
	lo, _ := c.Local.(*local)
	if lo == nil {
		lo = &local{map[string]*hpool.Helper{}}
		c.Local = lo
	}
	h := lo.h[bin]
	if h == nil {
		var err error
		if h, err = hpool.Start(bin); err != nil {
			return err
		}
		lo.h[bin] = h
	}
	var want []isodrv.Hash
	for _, u := range us {
		want = append(want, alone[u])
	}
	p := &isodrv.Response{}
	q := &isodrv.Request{Users: ids(us), Mode: "steps", Want: want, Base: base, Bound: bound, Millis: int64(limit / time.Millisecond)}
	if err := h.Ask(q, p, limit+60*time.Second); err != nil {
		h.Stop()
		delete(lo.h, bin)
		return died(err, us)
	}
	c.Evals += p.Runs
	c.Traces += p.Runs
	c.Nontrivial += p.Runs
	c.States += p.Steps
	c.Transitions += p.Steps
	c.Add("schedules", p.Runs)
	if c.WantSample() {
		c.Sample("%s, default scheduler %d, up to %d deviations: %d schedules of %d steps in all", who(us), base, bound, p.Runs, p.Steps)
	}
	if p.What != "" {
		h.Stop()
		delete(lo.h, bin)
		return mc.Vd("schedule", map[string]any{"users": who(us), "schedule": p.Schedule, "base": base}, "%s at the same time: %s\nschedule: %.400s", who(us), p.What, fmt.Sprint(p.Schedule))
	}
	if !p.Complete || p.Diverged > 0 {
		c.Add("explorations_cut", 1)
		c.Incomplete()
	}
	return nil
}

func families(t mc.Tier) []*mc.Family {
	setup()
	n := len(names)
	var same, cross [][2]int // of the same kind, and one of each pair of kinds
	first := map[string]int{}
	for k := n - 1; k >= 0; k-- {
		first[kinds[k]] = k
	}
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			if kinds[a] == kinds[b] {
				same = append(same, [2]int{a, b})
			} else if t.Thorough || first[kinds[a]] == a && first[kinds[b]] == b {
				cross = append(cross, [2]int{a, b})
			}
		}
	}
	hist := &mc.Family{Name: "histories", N: n * n, Chunk: 4, Run: func(c *mc.Ctx, i int) error {
		a, b := i%n, i/n
		if t.Thorough || kinds[a] == kinds[b] {
			return history(c, []int{a, b, a})
		}
		return history(c, []int{a, b})
	}}
	calls := &mc.Family{Name: "orders of calls", N: len(same) + len(cross), Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		if i < len(same) {
			return merges(c, same[i][0], same[i][1])
		}
		x := cross[i-len(same)]
		return merges(c, x[0], x[1])
	}}
	lim := 60 * time.Second
	sm := &mc.Family{Name: "same kind, every statement", N: len(same), Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		us := same[i][:]
		heavy := strings.HasPrefix(kinds[us[0]], "AX.25")
		for base := 0; base <= 3; base++ {
			b := 1
			if base == 1 || heavy && base != 0 {
				b = 0
			}
			if t.Thorough && !heavy {
				b++
			}
			if err := schedules(c, steps, us, base, b, lim); err != nil {
				return err
			}
		}
		return nil
	}}
	rc := &mc.Family{Name: "data races", N: len(same) + len(cross), Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		var us []int
		if i < len(same) {
			us = same[i][:]
		} else {
			us = cross[i-len(same)][:]
		}
		for _, base := range []int{3, 0, 1} {
			if err := schedules(c, race, us, base, 0, lim); err != nil {
				return err
			}
		}
		return nil
	}}
	cr := &mc.Family{Name: "different kinds, every statement", N: len(cross), Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		us := cross[i][:]
		heavy := strings.HasPrefix(kinds[us[0]], "AX.25") || strings.HasPrefix(kinds[us[1]], "AX.25")
		for _, base := range []int{3, 0} {
			b := 0
			if t.Thorough && !heavy {
				b = 1
			}
			if err := schedules(c, steps, us, base, b, lim); err != nil {
				return err
			}
		}
		return nil
	}}
	three := &mc.Family{Name: "three users", N: n, Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		a := i
		b, d := (i+1)%n, (i+7)%n
		for _, us := range [][]int{{a, a, a}, {a, b, d}} {
			for _, base := range []int{3, 0} {
				if err := schedules(c, steps, us, base, t.Pick(0, 1), lim); err != nil {
					return err
				}
			}
		}
		return schedules(c, race, []int{a, a, a}, 3, 0, lim)
	}}
	return []*mc.Family{rc, hist, calls, cr, three, sm}
}

func init() {
	mc.Register(&mc.Check{ID: "C29", Level: "model_checking",
		Rule:        "one evaluation is one complete history, order of calls or schedule of the real libraries used by two or three users with their own instances and data; every user's results are compared bit by bit with those in a fresh process on its own. Schedules are at every statement of the Go code: up to the bound of deviations from four default schedulers (one of them alternates at every statement), the package variables being put back into their initial state before each. A state is a scheduling step.",
		Assumptions: []string{"memory is sequentially consistent between statements; data races are looked for by the race detector on the schedules without deviations", "assembly routines are one step", "package sync's locks are replaced by equivalents the scheduler can see"},
		Families:    families})
}
