package serverdrv

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verif/harness/gate"
)

// Main is the main function of a helper: requests on fd 3, responses on fd 4, the
// decisions of the run in progress in the file at descriptor 5.
func Main(serverMain, reset func()) {
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	if os.Getenv("VERIF_CURRENT") != "" { // descriptor 5
		gate.Current, _ = syscall.Mmap(5, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	os.Args = os.Args[:1]
	testing.Init()
	flag.Parse()
	in := bufio.NewReaderSize(os.NewFile(3, "requests"), 1<<20)
	out := os.NewFile(4, "responses")
	serve := func(t *testing.T) {
		for {
			l, err := in.ReadBytes('\n')
			if err != nil {
				os.Exit(0)
			}
			var q Request
			if err := json.Unmarshal(l, &q); err != nil {
				fmt.Fprintln(os.Stderr, "bad request:", err)
				os.Exit(2)
			}
			send := func(p *Response) {
				b, _ := json.Marshal(p)
				out.Write(append(b, '\n'))
			}
			send(handle(t, &q, serverMain, reset, send))
		}
	}
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "run", F: serve}}, nil, nil)
}

func handle(t *testing.T, q *Request, serverMain, reset func(), send func(*Response)) *Response {
	resp := &Response{}
	outcomes := map[uint64]struct{}{}
	var pick *violation
	var beat int64
	fill := func(r *gate.Result) {
		resp.Runs, resp.Steps, resp.Decisions = r.Runs, r.Steps, r.Decisions
		resp.MaxDecisions, resp.Complete, resp.Diverged = r.MaxDecisions, r.Complete, r.Diverged
		resp.Outcomes = len(outcomes)
	}
	_ = atomic.LoadInt64(&beat)
	body := func(c *gate.Ctl) error {
		vs, o := execute(c, &q.Scenario, resp, serverMain, reset)
		h := fnv.New64a()
		h.Write([]byte(o))
		outcomes[h.Sum64()] = struct{}{}
		for _, v := range vs {
			if q.Only == "" || v.prop == "" || v.prop == q.Only {
				pick = v
				return v
			}
			resp.Others++
			resp.OtherWhat = v.prop + ": " + v.what
		}
		return nil
	}
	// The violation is sent before the run is torn down, which may not succeed.
	fail := func(r *gate.Result) {
		fill(r)
		resp.Key, resp.What = pick.key, pick.what
		resp.Schedule, resp.Trace = r.Schedule, r.Trace
		resp.Runs++
		send(resp)
		os.Exit(0)
	}
	if q.Replay {
		r := gate.Replay(t, q.Base, q.Schedule, body, fail)
		fill(r)
		resp.Complete = true
		resp.Trace = r.Trace
		return resp
	}
	var deadline time.Time
	if q.Millis > 0 {
		deadline = time.Now().Add(time.Duration(q.Millis) * time.Millisecond)
	}
	r := gate.Explore(t, q.Base, q.Bound, q.MaxRuns, deadline, body, fail)
	fill(r)
	return resp
}
