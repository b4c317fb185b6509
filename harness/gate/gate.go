// Package gate is the controlled scheduler: the code under test calls P() before
// every statement (inserted by cmd/instrument) and before every operation on the
// simulated world; every such goroutine parks there and the controller decides
// which one runs next. Quiescence (every goroutine parked or blocked on a
// channel, mutex, timer) is decided by testing/synctest, so the code under test
// keeps its real channels, selects and timers. The hand-over is hidden from the
// race detector, so in a race build each explored schedule is also checked for
// data races under the code's own synchronisation only.
package gate

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

type task struct {
	goid   uint64
	name   string
	ch     chan struct{}
	parked bool
	where  string
	yield  bool // parked at a yield point: others go first
}

// Ctl is one run of one schedule.
type Ctl struct {
	mu     sync.Mutex
	tasks  []task
	n      int
	abort  bool
	idlers int // goroutines in Idle
	trace  *[4096]string
	ntrace int

	// schedule
	prefix    []int // task chosen at each decision
	choices   []choice
	last      int
	lastYield int
	Base      int  // order of the default choices: 0 ascending, 1 descending, 2 round robin, 3 round robin at every step
	Quiet     bool // no branching: default choices only
	Halt      bool // Loop returns: the process has ended
	Steps     int
	Decisions int
}

// choice is one decision of a run: the enabled goroutines in order (the default
// first) with the preemptions choosing each would cost.
type choice struct {
	alts   []alt
	chosen int // index into alts
	cost   int // preemptions used before this decision
}

type alt struct{ task, cost int }

var cur *Ctl

var goidOff uintptr

func stackID() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseUint(f[1], 10, 64)
	return id
}

//go:norace
//go:nocheckptr
func scan(id uint64, cand map[uintptr]int) {
	g := getg()
	for o := uintptr(0); o < 400; o += 4 {
		if *(*uint64)(unsafe.Pointer(g + o)) == id {
			cand[o]++
		}
	}
}

func init() {
	// Find the offset of the goroutine id in the runtime's structure.
	cand := map[uintptr]int{}
	const rounds = 16
	for i := 0; i < rounds; i++ {
		done := make(chan struct{})
		go func() {
			defer close(done)
			scan(stackID(), cand)
		}()
		<-done
	}
	for o, n := range cand {
		if n == rounds && (goidOff == 0 || o < goidOff) {
			goidOff = o
		}
	}
	if goidOff == 0 {
		panic("goroutine id not found")
	}
}

//go:norace
//go:nocheckptr
func goid() uint64 { return *(*uint64)(unsafe.Pointer(getg() + goidOff)) }

// GoID is the calling goroutine's id.
//
//go:norace
func GoID() uint64 { return goid() }

// P parks the calling goroutine until the controller lets it run.
//
//go:norace
func P() {
	if c := cur; c != nil {
		c.park("", false)
	}
}

// At is P with a description.
//
//go:norace
func At(where string) {
	if c := cur; c != nil {
		c.park(where, false)
	}
}

// Yield parks so that every other enabled goroutine goes first by default.
//
//go:norace
func Yield(where string) {
	if c := cur; c != nil {
		c.park(where, true)
	}
}

// Idle lets time pass: the calling goroutine goes on at least d later, when
// nothing else can happen.
func Idle(d time.Duration) {
	c := cur
	if c == nil {
		return
	}
	c.idle(1)
	time.Sleep(d)
	c.idle(-1)
	At("time has passed")
}

//go:norace
func (c *Ctl) idle(n int) {
	raceOff()
	c.mu.Lock()
	c.idlers += n
	c.mu.Unlock()
	raceOn()
}

// MapOrder chooses the order Keys returns: 0 ascending, n>0 rotated by n/2,
// descending if odd.
var MapOrder int

// Keys lists the keys of a map in the chosen order.
func Keys(m any) []any {
	v := reflect.ValueOf(m)
	var r []any
	for _, k := range v.MapKeys() {
		r = append(r, k.Interface())
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
	if MapOrder&1 == 1 {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	if n := len(r); n > 0 {
		k := MapOrder / 2 % n
		r = append(r[k:len(r):len(r)], r[:k]...)
	}
	return r
}

// Active tells whether a controlled run is in progress.
func Active() bool { return cur != nil }

// Aborting tells whether the run is being torn down.
func Aborting() bool { return cur != nil && cur.abort }

//go:norace
func (c *Ctl) park(where string, yield bool) {
	if c.abort {
		runtime.Goexit()
	}
	id := goid()
	raceOff()
	c.mu.Lock()
	k := -1
	for i := c.n - 1; i >= 0; i-- {
		if c.tasks[i].goid == id {
			k = i
			break
		}
	}
	if k < 0 {
		k = c.n
		c.n++
		if c.tasks == nil {
			c.tasks = make([]task, 0, 16)
		}
		c.tasks = append(c.tasks, task{goid: id, ch: make(chan struct{})})
	}
	t := &c.tasks[k]
	t.parked, t.where, t.yield = true, where, yield
	ch := t.ch
	c.mu.Unlock()
	<-ch
	raceOn()
	if c.abort {
		runtime.Goexit()
	}
}

// Name gives the calling goroutine a name in traces.
//
//go:norace
func Name(s string) {
	c := cur
	if c == nil {
		return
	}
	id := goid()
	raceOff()
	c.mu.Lock()
	for i := 0; i < c.n; i++ {
		if c.tasks[i].goid == id {
			c.tasks[i].name = s
		}
	}
	c.mu.Unlock()
	raceOn()
}

// Log adds to the run's trace.
//
//go:norace
func Log(format string, a ...any) {
	c := cur
	if c == nil || c.trace == nil {
		return
	}
	l := fmt.Sprintf(format, a...)
	raceOff()
	c.mu.Lock()
	if c.ntrace < len(c.trace) {
		c.trace[c.ntrace] = l
		c.ntrace++
	}
	c.mu.Unlock()
	raceOn()
}

// release lets task k run until the next quiescence.
//
//go:norace
func (c *Ctl) release(k int) {
	t := &c.tasks[k]
	if t.yield {
		c.lastYield = k
	}
	t.parked = false
	c.last = k
	c.Steps++
	raceOff()
	t.ch <- struct{}{}
	raceOn()
	synctest.Wait()
}

// Step makes one scheduling decision; false if no goroutine is parked.
//
//go:norace
func (c *Ctl) Step() bool {
	var en, ye []int
	lastOK := false
	for i := 0; i < c.n; i++ {
		if !c.tasks[i].parked {
			continue
		}
		if c.tasks[i].yield {
			ye = append(ye, i)
		} else {
			en = append(en, i)
			lastOK = lastOK || i == c.last
		}
	}
	if len(en)+len(ye) == 0 {
		return false
	}
	// The default goes on with the same goroutine, or, when that one is blocked,
	// with the one the base order says; every other choice costs one deviation.
	var alts []alt
	if lastOK && c.Base != 3 {
		alts = append(alts, alt{c.last, 0})
	}
	for _, set := range [][]int{en, ye} {
		after := c.last
		isYe := len(set) > 0 && set[0] == firstOf(ye)
		if isYe {
			after = c.lastYield
		}
		if c.Base == 1 {
			for i, j := 0, len(set)-1; i < j; i, j = i+1, j-1 {
				set[i], set[j] = set[j], set[i]
			}
		}
		if c.Base >= 2 || isYe {
			// round robin (always among those that yielded)
			k := 0
			for k < len(set) && (c.Base != 1 && set[k] <= after || c.Base == 1 && set[k] >= after && after >= 0) {
				k++
			}
			set = append(append([]int(nil), set[k:]...), set[:k]...)
		}
		for _, x := range set {
			if len(alts) == 0 {
				alts = append(alts, alt{x, 0})
			} else if x != alts[0].task {
				alts = append(alts, alt{x, 1})
			}
		}
	}
	if c.Quiet || len(alts) == 1 {
		c.release(alts[0].task)
		return true
	}
	ch := choice{alts: alts}
	if n := len(c.choices); n > 0 {
		p := &c.choices[n-1]
		ch.cost = p.cost + p.alts[p.chosen].cost
	}
	if k := len(c.choices); k < len(c.prefix) {
		found := false
		for i, a := range alts {
			if a.task == c.prefix[k] {
				ch.chosen, found = i, true
			}
		}
		if !found {
			c.prefix = c.prefix[:k]
			Diverged++
		}
	}
	c.choices = append(c.choices, ch)
	c.Decisions++
	if k := len(c.choices) - 1; 4*k+8 <= len(Current) {
		*(*int32)(unsafe.Pointer(&Current[4*k])) = int32(alts[ch.chosen].task) + 1
		*(*int32)(unsafe.Pointer(&Current[4*k+4])) = 0
	}
	c.release(alts[ch.chosen].task)
	return true
}

// onlyYield tells whether nobody is parked but at yield points.
//
//go:norace
func (c *Ctl) onlyYield() bool {
	for i := 0; i < c.n; i++ {
		if c.tasks[i].parked && !c.tasks[i].yield {
			return false
		}
	}
	return true
}

func firstOf(s []int) int {
	if len(s) == 0 {
		return -1
	}
	return s[0]
}

// Diverged counts decisions that could not be replayed.
var Diverged int

// Current, when set, receives the decisions of the run in progress (4 bytes
// each, one more than the task), so that a crash can be attributed.
var Current []byte

// MaxSteps bounds one run; exceeding it means the system does not settle.
var MaxSteps = 20000

// Loop runs until no goroutine is parked. Timers of the code under test are let
// expire only when nothing else can happen and waiting() says somebody waits.
// It returns false when the system does not settle.
//
//go:norace
func (c *Ctl) Loop(waiting func() bool) bool {
	idle, yields, passed := 0, 0, 0
	pass := func() {
		passed++
		d := 10 * time.Minute
		if passed > 200 {
			d = 10 * time.Hour
		}
		time.Sleep(d)
		synctest.Wait()
		yields = 0
	}
	for {
		if c.idlers > 0 && yields >= 4 && c.onlyYield() {
			pass() // streams go on, but time passes too
			continue
		}
		if c.Step() {
			idle = 0
			yields++
			if c.Halt {
				return true
			}
			if c.Steps > MaxSteps {
				return false
			}
			continue
		}
		if c.idlers > 0 {
			pass()
			continue
		}
		if waiting == nil || !waiting() || idle >= 4 {
			return true
		}
		idle++
		time.Sleep(time.Minute)
		synctest.Wait()
	}
}

// Schedule is the decisions of this run.
func (c *Ctl) Schedule() []int {
	var s []int
	for _, ch := range c.choices {
		s = append(s, ch.alts[ch.chosen].task)
	}
	// the trailing defaults carry no information
	for len(s) > 0 && c.choices[len(s)-1].chosen == 0 {
		s = s[:len(s)-1]
	}
	return s
}

// Trace returns what Log recorded.
func (c *Ctl) Trace() []string {
	if c.trace == nil {
		return nil
	}
	return c.trace[:c.ntrace]
}

// Stop ends the run: every parked goroutine exits at its gate.
//
//go:norace
func (c *Ctl) Stop(wake func()) {
	c.abort = true
	for round := 0; round < 100; round++ {
		any := false
		for i := 0; i < c.n; i++ {
			if c.tasks[i].parked {
				c.tasks[i].parked = false
				raceOff()
				c.tasks[i].ch <- struct{}{}
				raceOn()
				any = true
			}
		}
		if wake != nil {
			wake()
			wake = nil
			any = true
		}
		synctest.Wait()
		if !any && c.Halt {
			// somebody may be waiting for a timer
			time.Sleep(time.Hour)
			synctest.Wait()
			c.Halt, any = false, true
		}
		if !any {
			break
		}
	}
}

// Result of an exploration.
type Result struct {
	Runs, Steps, Decisions int64
	MaxDecisions           int
	Complete               bool
	Diverged               int
	Err                    error
	Schedule               []int
	Trace                  []string
}

// Explore runs body under every schedule with at most bound deviations from the
// default scheduler of the given base (at most
// maxRuns of them, 0 = all). body sets the system up, calls Loop, checks and
// calls Stop; a returned error ends the exploration. fail, if set, is called
// inside the run that failed, before anything is torn down.
func Explore(t *testing.T, base, bound int, maxRuns int64, deadline time.Time, body func(c *Ctl) error, fail func(*Result)) *Result {
	r := &Result{}
	Diverged = 0
	var prefix []int
	for {
		c := &Ctl{prefix: prefix, last: -1, lastYield: -1, Base: base}
		one(t, c, func() error {
			err := body(c)
			if err != nil {
				r.Err, r.Schedule, r.Trace = err, c.Schedule(), c.Trace()
				if fail != nil {
					fail(r)
				}
			}
			return err
		})
		r.Runs++
		r.Steps += int64(c.Steps)
		r.Decisions += int64(c.Decisions)
		if len(c.choices) > r.MaxDecisions {
			r.MaxDecisions = len(c.choices)
		}
		r.Diverged = Diverged
		if r.Err != nil {
			return r
		}
		// The deepest decision with an untried alternative within the bound.
		k := len(c.choices) - 1
		next := -1
		for ; k >= 0; k-- {
			ch := &c.choices[k]
			for j := ch.chosen + 1; j < len(ch.alts); j++ {
				if ch.cost+ch.alts[j].cost <= bound {
					next = j
					break
				}
			}
			if next >= 0 {
				break
			}
		}
		if k < 0 {
			r.Complete = true
			return r
		}
		prefix = prefix[:0:0]
		for i := 0; i < k; i++ {
			prefix = append(prefix, c.choices[i].alts[c.choices[i].chosen].task)
		}
		prefix = append(prefix, c.choices[k].alts[next].task)
		if maxRuns > 0 && r.Runs >= maxRuns || !deadline.IsZero() && r.Runs%64 == 0 && wallAfter(deadline) {
			return r
		}
	}
}

// Replay runs one schedule.
func Replay(t *testing.T, base int, schedule []int, body func(c *Ctl) error, fail func(*Result)) *Result {
	r := &Result{}
	c := &Ctl{prefix: schedule, last: -1, lastYield: -1, Base: base, trace: new([4096]string)}
	one(t, c, func() error {
		err := body(c)
		if err != nil {
			r.Err, r.Schedule, r.Trace = err, c.Schedule(), c.Trace()
			if fail != nil {
				fail(r)
			}
		}
		return err
	})
	r.Runs, r.Steps, r.Decisions = 1, int64(c.Steps), int64(c.Decisions)
	r.Trace = c.Trace()
	return r
}

func wallAfter(d time.Time) bool { return time.Now().After(d) }

func one(t *testing.T, c *Ctl, f func() error) {
	synctest.Test(t, func(*testing.T) {
		cur = c
		defer func() { cur = nil }()
		f()
	})
}
