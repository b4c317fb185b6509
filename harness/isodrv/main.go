package isodrv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/gate"
)

// Request to a helper.
type Request struct {
	List     bool   `json:"list,omitempty"`
	Users    []int  `json:"users"`
	Mode     string `json:"mode"`            // "seq", "calls" or "steps"
	Order    []int  `json:"order,omitempty"` // calls: whose call comes next
	Want     []Hash `json:"want"`
	Base     int    `json:"base"`
	Bound    int    `json:"bound"`
	MaxRuns  int64  `json:"maxruns,omitempty"`
	Millis   int64  `json:"millis,omitempty"`
	Schedule []int  `json:"schedule,omitempty"`
	Replay   bool   `json:"replay,omitempty"`
}

// Response of a helper.
type Response struct {
	Kinds    []string `json:"kinds,omitempty"`
	Names    []string `json:"names,omitempty"`
	Got      []Hash   `json:"got,omitempty"`
	Calls    []int    `json:"calls,omitempty"`
	Runs     int64    `json:"runs"`
	Steps    int64    `json:"steps"`
	Complete bool     `json:"complete"`
	Diverged int      `json:"diverged"`
	What     string   `json:"what,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
}

// Main is the main function of a helper; reset puts the packages into their
// initial states.
func Main(reset func()) {
	runtime.GOMAXPROCS(2)
	reset()                               // does what the packages' init functions do
	if os.Getenv("VERIF_CURRENT") != "" { // descriptor 5
		gate.Current, _ = syscall.Mmap(5, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	os.Args = os.Args[:1]
	testing.Init()
	in := bufio.NewReaderSize(os.NewFile(3, "requests"), 1<<20)
	out := os.NewFile(4, "responses")
	serve := func(t *testing.T) {
		for {
			l, err := in.ReadBytes('\n')
			if err != nil {
				os.Exit(0)
			}
			var q Request
			if err := json.Unmarshal(l, &q); err != nil {
				fmt.Fprintln(os.Stderr, "bad request:", err)
				os.Exit(2)
			}
			send := func(p *Response) {
				b, _ := json.Marshal(p)
				out.Write(append(b, '\n'))
			}
			send(handle(t, &q, reset, send))
		}
	}
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "run", F: serve}}, nil, nil)
}

func handle(t *testing.T, q *Request, reset func(), send func(*Response)) *Response {
	p := &Response{Complete: true}
	if q.List {
		for _, x := range Programs {
			p.Kinds, p.Names = append(p.Kinds, x.Kind), append(p.Names, x.Name)
		}
		return p
	}
	n := len(q.Users)
	switch q.Mode {
	case "seq": // one after the other
		for _, u := range q.Users {
			var h Hash
			cs := Programs[u].New()
			for _, c := range cs {
				c(&h)
				p.Steps++
			}
			p.Got, p.Calls = append(p.Got, h), append(p.Calls, len(cs))
		}
		p.Runs = 1
		return p
	case "calls": // in the order given
		hs, cs, at := make([]Hash, n), make([]calls, n), make([]int, n)
		made := make([]bool, n)
		for _, k := range q.Order {
			// The first turn makes the instances.
			if !made[k] {
				cs[k], made[k] = Programs[q.Users[k]].New(), true
				continue
			}
			cs[k][at[k]](&hs[k])
			at[k]++
			p.Steps++
		}
		p.Got, p.Runs = hs, 1
		return p
	}
	// Two or more goroutines, every schedule.
	gate.MaxSteps = 200000
	var bad string
	body := func(c *gate.Ctl) error {
		reset()
		hs, done := make([]Hash, n), make([]bool, n)
		fails := make([]any, n)
		for k := range q.Users {
			go func() {
				defer func() {
					if x := recover(); x != nil {
						fails[k] = x
					}
				}()
				gate.P()
				for _, f := range Programs[q.Users[k]].New() {
					gate.P()
					f(&hs[k])
				}
				done[k] = true
			}()
			synctest.Wait()
		}
		ok := c.Loop(nil)
		for k := range q.Users {
			switch {
			case fails[k] != nil:
				bad = fmt.Sprintf("%s panics: %v", Programs[q.Users[k]].Name, fails[k])
			case !ok || !done[k]:
				bad = fmt.Sprintf("%s does not end", Programs[q.Users[k]].Name)
			case hs[k] != q.Want[k]:
				bad = fmt.Sprintf("%s gets other results than alone", Programs[q.Users[k]].Name)
			}
		}
		c.Stop(nil)
		if bad != "" {
			return fmt.Errorf("%s", bad)
		}
		return nil
	}
	fail := func(r *gate.Result) {
		p.Runs, p.Steps = r.Runs+1, r.Steps
		p.What, p.Schedule = bad, r.Schedule
		send(p)
		os.Exit(0)
	}
	if q.Replay {
		r := gate.Replay(t, q.Base, q.Schedule, body, fail)
		p.Runs, p.Steps = r.Runs, r.Steps
		return p
	}
	var deadline time.Time
	if q.Millis > 0 {
		deadline = time.Now().Add(time.Duration(q.Millis) * time.Millisecond)
	}
	r := gate.Explore(t, q.Base, q.Bound, q.MaxRuns, deadline, body, fail)
	p.Runs, p.Steps, p.Complete, p.Diverged = r.Runs, r.Steps, r.Complete, r.Diverged
	return p
}
