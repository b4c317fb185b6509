// Package mc is the small bounded-exhaustive exploration engine every check is
// built on. A check is a list of families; a family is a finite, indexed space
// of cases. The engine runs every case on the real code in a supervised child
// process, so that a crash or an endless loop of the code under test is
// attributed to the case that caused it, and writes the evidence file from what
// was actually run.
package mc

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Tier tells the families how deep to go.
type Tier struct {
	Thorough bool
	Seed     int
}

// Pick returns q in the quick tier, t in the thorough one.
func (t Tier) Pick(q, th int) int {
	if t.Thorough {
		return th
	}
	return q
}

// Check is one property's decision procedure.
type Check struct {
	ID          string
	Level       string // "exploration" or "model_checking"
	Rule        string
	Assumptions []string
	Families    func(t Tier) []*Family
	Workers     int // 0 = number of CPUs
}

// Family is an indexed finite space of cases.
type Family struct {
	Name string
	N    int
	Run  func(c *Ctx, i int) error
	// Serial families are run by one worker only.
	Serial bool
	// Setup is run once before the first case (in the child).
	Setup func() error
	// Chunk of cases handed to a worker at a time (default automatic).
	Chunk int
}

// Ctx is per worker; counters are summed at the end.
type Ctx struct {
	Worker      int
	Tier        Tier
	Evals       int64
	Nontrivial  int64
	States      int64
	Transitions int64
	Traces      int64
	Extra       map[string]int64
	samples     []string
	fam         *Family
	distinct    map[uint64]struct{}
	Local       any // family scratch
	deadline    time.Time
	incomplete  bool
}

// Sample records an actual case (a few per family are kept).
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.samples) < 3 && c.fam != nil {
		c.samples = append(c.samples, c.fam.Name+": "+fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) WantSample() bool { return len(c.samples) < 3 }

// Add counts under a free name in the evidence.
func (c *Ctx) Add(name string, n int64) {
	if c.Extra == nil {
		c.Extra = map[string]int64{}
	}
	c.Extra[name] += n
}

// Distinct notes a canonical state/outcome hash; the number of different ones is reported.
func (c *Ctx) Distinct(h uint64) bool {
	if c.distinct == nil {
		c.distinct = map[uint64]struct{}{}
	}
	if _, ok := c.distinct[h]; ok {
		return false
	}
	if len(c.distinct) < 4_000_000 {
		c.distinct[h] = struct{}{}
	}
	return true
}

// OutOfTime is asked by long cases; a case that stops early must call it.
func (c *Ctx) OutOfTime() bool {
	if time.Now().After(c.deadline) {
		c.incomplete = true
		return true
	}
	return false
}

// Known reports a failure that a listed finding explains: nil if the finding is
// listed for this check, so that the exploration goes on, else the violation.
func (c *Ctx) Known(key, format string, a ...any) error {
	if _, ok := knownFindings[key]; !ok {
		return V(key, format, a...)
	}
	c.Add(knownPrefix+key, 1)
	return nil
}

const knownPrefix = "known finding: "

var knownFindings map[string]string

// Incomplete marks the run as not having covered its space.
func (c *Ctx) Incomplete() { c.incomplete = true }

// Viol is a violation with a stable key (matched against known findings).
type Viol struct {
	Key, What string
	Data      any
}

func (v *Viol) Error() string { return v.What }

// V makes a violation.
func V(key, format string, a ...any) error {
	return &Viol{Key: key, What: fmt.Sprintf(format, a...)}
}

// Vd makes a violation with replay data.
func Vd(key string, data any, format string, a ...any) error {
	return &Viol{Key: key, What: fmt.Sprintf(format, a...), Data: data}
}

type violRec struct {
	Property string
	Family   string
	Index    int
	Key      string
	What     string
	Data     any `json:",omitempty"`
	Repro    string
}

type childResult struct {
	Evals, Nontrivial, States, Transitions, Traces int64
	DistinctStates                                 int64
	Extra                                          map[string]int64
	Samples                                        []string
	Families                                       []famResult
	Viols                                          []violRec
	Complete                                       bool
	Done                                           bool
	Err                                            string
}

type famResult struct {
	Name     string
	Cases    int
	Total    int
	Complete bool
	WallS    float64
}

const (
	slotWords = 16
	maxSlots  = 64
)

type slot struct {
	fam, idx, startSec, active uint32
}

func slots(mem []byte) []slot {
	return unsafe.Slice((*slot)(unsafe.Pointer(&mem[0])), maxSlots)
}

var checks = map[string]*Check{}

// Register adds checks to this binary.
func Register(cs ...*Check) {
	for _, c := range cs {
		checks[c.ID] = c
	}
}

// RunCase runs one case turning panics into violations.
func RunCase(f *Family, c *Ctx, i int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = &Viol{Key: "panic:" + f.Name, What: fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
		}
	}()
	return f.Run(c, i)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-dsp") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Main is the entry point of every check binary.
func Main() {
	id := flag.String("check", "", "property id")
	replay := flag.String("replay", "", "replay file")
	outDir := flag.String("out", ".", "verif directory")
	only := flag.String("only", "", "internal: family:index")
	res := flag.String("result", "", "internal: result file")
	slotFile := flag.String("slots", "", "internal: slot file")
	child := flag.Bool("child", false, "internal")
	workers := flag.Int("workers", 0, "workers")
	famFilter := flag.String("family", "", "only this family (substring)")
	flag.Parse()
	ck := checks[*id]
	if ck == nil {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintf(os.Stderr, "unknown check %q; have %v\n", *id, ids)
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := Tier{Thorough: os.Getenv("VERIF_TIER") == "thorough", Seed: seed}
	if *child {
		knownFindings = loadKnown(*id)
		runChild(ck, tier, *only, *res, *slotFile, *workers, *famFilter)
		return
	}
	p := &parent{ck: ck, tier: tier, out: *outDir, seed: seed, famFilter: *famFilter, workers: *workers}
	if *replay != "" {
		os.Exit(p.replay(*replay))
	}
	os.Exit(p.run())
}

func budget(t Tier) time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if t.Thorough {
		return 600 * time.Second
	}
	return 240 * time.Second
}

func runChild(ck *Check, tier Tier, only, resFile, slotFile string, workers int, famFilter string) {
	debug.SetPanicOnFault(true)
	start := time.Now()
	deadline := start.Add(budget(tier))
	f, err := os.OpenFile(slotFile, os.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, maxSlots*slotWords, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sl := slots(mem)
	var res childResult
	res.Extra = map[string]int64{}
	res.Complete = true
	writeRes := func() {
		b, err := json.Marshal(&res)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			os.Exit(2)
		}
		if err := os.WriteFile(resFile, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fams := ck.Families(tier)
	onlyFam, onlyIdx := "", -1
	if only != "" {
		k := strings.LastIndexByte(only, ':')
		onlyFam = only[:k]
		onlyIdx, _ = strconv.Atoi(only[k+1:])
	}
	nw := workers
	if nw == 0 {
		nw = ck.Workers
	}
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > maxSlots {
		nw = maxSlots
	}
	distinct := map[uint64]struct{}{}
	var mu sync.Mutex
	for fi, fam := range fams {
		if onlyFam != "" && fam.Name != onlyFam {
			continue
		}
		if famFilter != "" && !strings.Contains(fam.Name, famFilter) {
			continue
		}
		fstart := time.Now()
		if fam.Setup != nil {
			if err := fam.Setup(); err != nil {
				res.Err = fam.Name + ": setup: " + err.Error()
				res.Done = true
				writeRes()
				return
			}
		}
		var next int64
		var ran int64
		var stop atomic.Bool
		famComplete := true
		chunk := fam.Chunk
		if chunk == 0 {
			chunk = fam.N / (nw * 16)
			if chunk < 1 {
				chunk = 1
			}
			if chunk > 4096 {
				chunk = 4096
			}
		}
		w := nw
		if fam.Serial || onlyIdx >= 0 {
			w = 1
		}
		var wg sync.WaitGroup
		nviol := 0
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				debug.SetPanicOnFault(true)
				c := &Ctx{Worker: k, Tier: tier, fam: fam, deadline: deadline}
				doCase := func(i int) {
					sl[k] = slot{fam: uint32(fi), idx: uint32(i), startSec: uint32(time.Now().Unix()), active: 1}
					err := RunCase(fam, c, i)
					sl[k].active = 0
					atomic.AddInt64(&ran, 1)
					if err == nil {
						return
					}
					// Rerun before believing it.
					repro := 1
					saved := *c
					for r := 0; r < 4; r++ {
						if RunCase(fam, c, i) != nil {
							repro++
						}
					}
					ev, nt := saved.Evals, saved.Nontrivial
					c.Evals, c.Nontrivial = ev, nt
					var v *Viol
					if !errors.As(err, &v) {
						v = &Viol{Key: fam.Name, What: err.Error()}
					}
					mu.Lock()
					res.Viols = append(res.Viols, violRec{Property: ck.ID, Family: fam.Name, Index: i, Key: v.Key, What: v.What, Data: v.Data, Repro: fmt.Sprintf("%d/5", repro)})
					nviol++
					if nviol >= 40 {
						stop.Store(true)
					}
					mu.Unlock()
				}
				if onlyIdx >= 0 {
					doCase(onlyIdx)
				} else {
					for !stop.Load() {
						lo := int(atomic.AddInt64(&next, int64(chunk))) - chunk
						if lo >= fam.N {
							break
						}
						if time.Now().After(deadline) {
							stop.Store(true)
							mu.Lock()
							famComplete = false
							mu.Unlock()
							break
						}
						hi := lo + chunk
						if hi > fam.N {
							hi = fam.N
						}
						for i := lo; i < hi && !stop.Load(); i++ {
							doCase(i)
						}
					}
				}
				mu.Lock()
				res.Evals += c.Evals
				res.Nontrivial += c.Nontrivial
				res.States += c.States
				res.Transitions += c.Transitions
				res.Traces += c.Traces
				for n, v := range c.Extra {
					res.Extra[n] += v
				}
				for h := range c.distinct {
					distinct[h] = struct{}{}
				}
				if k < 2 {
					res.Samples = append(res.Samples, c.samples...)
				}
				if c.incomplete {
					famComplete = false
				}
				mu.Unlock()
			}(k)
		}
		wg.Wait()
		if stop.Load() && int(ran) < fam.N {
			famComplete = false
		}
		if !famComplete {
			res.Complete = false
		}
		res.Families = append(res.Families, famResult{Name: fam.Name, Cases: int(ran), Total: fam.N, Complete: famComplete, WallS: round(time.Since(fstart).Seconds())})
		res.DistinctStates = int64(len(distinct))
		if nviol > 0 {
			break
		}
	}
	res.Done = true
	writeRes()
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

type parent struct {
	ck        *Check
	tier      Tier
	out       string
	seed      int
	famFilter string
	workers   int
	tmp       string
}

type outcome struct {
	res     *childResult
	crashed bool
	hung    bool
	inUse   []slot
	stderr  string
}

// hang threshold for one case; cases normally take far less than a second,
// long ones must be split or poll OutOfTime.
const hangSeconds = 150

func (p *parent) spawn(only string, workers int) outcome {
	slotFile := filepath.Join(p.tmp, fmt.Sprintf("slots%d", time.Now().UnixNano()))
	resFile := slotFile + ".res"
	os.WriteFile(slotFile, make([]byte, maxSlots*slotWords), 0o644)
	defer os.Remove(slotFile)
	defer os.Remove(resFile)
	sf, err := os.OpenFile(slotFile, os.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer sf.Close()
	mem, err := syscall.Mmap(int(sf.Fd()), 0, maxSlots*slotWords, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer syscall.Munmap(mem)
	exe, _ := os.Executable()
	args := []string{"-child", "-check", p.ck.ID, "-result", resFile, "-slots", slotFile}
	if only != "" {
		args = append(args, "-only", only)
	}
	if p.famFilter != "" {
		args = append(args, "-family", p.famFilter)
	}
	if workers > 0 {
		args = append(args, "-workers", strconv.Itoa(workers))
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	errFile, _ := os.Create(filepath.Join(p.tmp, "stderr"))
	cmd.Stderr = errFile
	cmd.Stdout = errFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	var o outcome
	limit := time.Now().Add(budget(p.tier) + hangSeconds*time.Second)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			now := uint32(time.Now().Unix())
			for _, s := range slots(mem)[:maxSlots] {
				if s.active == 1 && now-s.startSec > hangSeconds && now > s.startSec {
					o.hung = true
				}
			}
			if time.Now().After(limit) {
				o.hung = true
			}
			if o.hung {
				for _, s := range slots(mem)[:maxSlots] {
					if s.active == 1 {
						o.inUse = append(o.inUse, s)
					}
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	errFile.Close()
	b, _ := os.ReadFile(errFile.Name())
	if len(b) > 6000 {
		b = append(b[:3000], b[len(b)-3000:]...)
	}
	o.stderr = string(b)
	if o.hung {
		return o
	}
	rb, err := os.ReadFile(resFile)
	var r childResult
	if err == nil && json.Unmarshal(rb, &r) == nil && r.Done && cmd.ProcessState.ExitCode() == 0 {
		o.res = &r
		return o
	}
	o.crashed = true
	for _, s := range slots(mem)[:maxSlots] {
		if s.active == 1 {
			o.inUse = append(o.inUse, s)
		}
	}
	return o
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (p *parent) run() int {
	start := time.Now()
	var err error
	p.tmp, err = os.MkdirTemp("", "mc-"+p.ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(p.tmp)
	known := loadKnown(p.ck.ID)
	fams := p.ck.Families(p.tier)
	o := p.spawn("", p.workers)
	var viols []violRec
	agg := o.res
	if o.crashed || o.hung {
		kind := "crashed"
		if o.hung {
			kind = "did not terminate"
		}
		fmt.Fprintf(os.Stderr, "child %s: %s\n", kind, firstLines(o.stderr, 30))
		found := false
		for _, s := range o.inUse {
			fam := fams[s.fam]
			o2 := p.spawn(fmt.Sprintf("%s:%d", fam.Name, s.idx), 1)
			if (o2.crashed || o2.hung) && len(o2.inUse) > 0 {
				k2 := "crashes the process"
				if o2.hung {
					k2 = "does not terminate"
				}
				viols = append(viols, violRec{Property: p.ck.ID, Family: fam.Name, Index: int(s.idx), Key: "crash:" + fam.Name, What: k2 + ": " + firstLines(o2.stderr, 8), Repro: "2/2"})
				found = true
				break
			} else if o2.res != nil && len(o2.res.Viols) > 0 {
				viols = append(viols, o2.res.Viols...)
				found = true
			}
		}
		if !found {
			o3 := p.spawn("", 1)
			if o3.res != nil && len(o3.res.Viols) > 0 {
				viols = o3.res.Viols
				agg = o3.res
			} else {
				if o3.res != nil {
					agg = o3.res
					o3 = p.spawn("", p.workers)
				}
				if o3.crashed || o3.hung {
					fam, idx := "", 0
					if len(o3.inUse) > 0 {
						fam, idx = fams[o3.inUse[0].fam].Name, int(o3.inUse[0].idx)
					}
					viols = append(viols, violRec{Property: p.ck.ID, Family: fam, Index: idx, Key: "crash", What: "the exploration crashes or hangs the process in every run: " + firstLines(o3.stderr, 8), Repro: "2/2 whole runs"})
				} else if o3.res != nil && len(o3.res.Viols) > 0 {
					viols = o3.res.Viols
				} else {
					fmt.Fprintln(os.Stderr, "child failed once but not again: no verdict")
					return 2
				}
			}
		}
	} else {
		if o.res.Err != "" {
			fmt.Fprintln(os.Stderr, "check error:", o.res.Err)
			return 2
		}
		viols = o.res.Viols
		// Anything that did not reproduce every time is confirmed by a second whole run.
		stable := false
		for _, v := range viols {
			if v.Repro == "5/5" {
				stable = true
			}
		}
		if len(viols) > 0 && !stable {
			o2 := p.spawn("", p.workers)
			if o2.res != nil && o2.res.Err == "" && len(o2.res.Viols) == 0 {
				o2 = p.spawn("", p.workers)
			}
			if o2.res != nil && o2.res.Err == "" && len(o2.res.Viols) == 0 {
				fmt.Fprintf(os.Stderr, "violation seen once and not in two further whole runs: %s\n", viols[0].What)
				return 2
			}
		}
	}
	// Known findings.
	var fresh []violRec
	seenKnown := map[string]bool{}
	if agg != nil {
		for k := range agg.Extra {
			key, ok := strings.CutPrefix(k, knownPrefix)
			if w, listed := known[key]; ok && listed && !seenKnown[key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ck.ID, w)
				seenKnown[key] = true
			}
		}
	}
	for _, v := range viols {
		if w, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ck.ID, w)
				seenKnown[v.Key] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	if agg == nil {
		agg = &childResult{}
	}
	p.writeEvidence(agg, len(fresh), time.Since(start).Seconds())
	if len(fresh) == 0 {
		st := "exhaustive within bounds"
		if !agg.Complete {
			st = "time budget reached, not exhaustive"
		}
		fmt.Printf("PASS property=%s evaluations=%d states=%d transitions=%d (%s) %.1fs\n", p.ck.ID, agg.Evals, agg.States+agg.DistinctStates, agg.Transitions, st, time.Since(start).Seconds())
		return 0
	}
	v := fresh[0]
	for _, x := range fresh {
		if x.Repro == "5/5" {
			v = x
			break
		}
	}
	dir := filepath.Join(p.out, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ck.ID, sanitize(v.Family), v.Index))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	for i, x := range fresh {
		if i >= 5 {
			break
		}
		fmt.Printf("  %s[%d] (%s): %s\n", x.Family, x.Index, x.Repro, x.What)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, path)
	return 1
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func (p *parent) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violRec
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p.tmp, _ = os.MkdirTemp("", "mc-")
	defer os.RemoveAll(p.tmp)
	o := p.spawn(fmt.Sprintf("%s:%d", v.Family, v.Index), 1)
	if o.crashed || o.hung {
		fmt.Printf("reproduced (crash/hang): %s\n", firstLines(o.stderr, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, path)
		return 1
	}
	if len(o.res.Viols) > 0 {
		fmt.Printf("reproduced: %s\n", o.res.Viols[0].What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	path := os.Getenv("VERIF_KNOWN")
	if path == "" {
		path = "/verif/known_findings.json"
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	var kf knownFile
	if err := json.Unmarshal(b, &kf); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, f := range kf.Findings {
		if f.Property == id {
			m[f.Key] = f.What
		}
	}
	return m
}

func (p *parent) writeEvidence(r *childResult, nviol int, wall float64) {
	samples := r.Samples
	if len(samples) > 24 {
		samples = samples[:24]
	}
	if len(samples) == 0 {
		samples = []string{"none recorded (run ended early)"}
	}
	cov := map[string]any{
		"rule":       p.ck.Rule,
		"samples":    samples,
		"exhaustive": r.Complete,
		"families":   r.Families,
	}
	cov["evaluations"] = r.Evals
	if p.ck.Level == "model_checking" {
		cov["states"] = r.States + r.DistinctStates
		cov["transitions"] = r.Transitions
		cov["traces_validated_against_impl"] = r.Traces
	} else {
		cov["distinct_nontrivial"] = r.Nontrivial
		if r.DistinctStates > 0 {
			cov["distinct_outcomes"] = r.DistinctStates
		}
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	tier := "quick"
	if p.tier.Thorough {
		tier = "thorough"
	}
	ev := map[string]any{
		"property": p.ck.ID, "tier": tier, "seed": p.seed, "level": p.ck.Level,
		"coverage": cov, "assumptions": p.ck.Assumptions, "wall_s": round(wall), "violations": nviol,
	}
	dir := filepath.Join(p.out, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, p.ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// Hash is FNV-1a over strings/bytes, for canonical states.
func Hash(parts ...any) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		s := ""
		switch v := p.(type) {
		case string:
			s = v
		case []byte:
			s = string(v)
		default:
			s = fmt.Sprint(v)
		}
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}
