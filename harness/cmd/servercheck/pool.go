package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif/harness/hpool"
	"verif/harness/mc"
	"verif/harness/serverdrv"
)

// explore runs one scenario under all schedules within the bound.
type local struct{ h map[string]*hpool.Helper }

func explore(c *mc.Ctx, id, bin string, sc *serverdrv.Scenario, base, bound int, maxRuns int64, limit time.Duration) error {
	lo, _ := c.Local.(*local)
	if lo == nil {
		lo = &local{map[string]*hpool.Helper{}}
		c.Local = lo
	}
	h := lo.h[bin]
	if h == nil {
		var err error
		if h, err = hpool.Start(bin); err != nil {
			return fmt.Errorf("helper: %v", err)
		}
		lo.h[bin] = h
	}
	q := &serverdrv.Request{Scenario: *sc, Base: base, Bound: bound, MaxRuns: maxRuns, Millis: int64(limit / time.Millisecond), Only: id}
	r := &serverdrv.Response{}
	err := h.Ask(q, r, limit+45*time.Second)
	if err != nil {
		h.Stop()
		delete(lo.h, bin)
		d, ok := err.(*hpool.Died)
		if !ok {
			return fmt.Errorf("helper: %v", err)
		}
		// A hang that is the machine's fault does not come again.
		if d.Hang {
			if h, err = hpool.Start(bin); err == nil {
				q2 := &serverdrv.Request{Scenario: *sc, Base: base, Schedule: d.Schedule, Replay: true, Only: id}
				err = h.Ask(q2, r, 30*time.Second)
				h.Stop()
				if err == nil {
					c.Incomplete()
					return nil
				}
			}
		}
		kind := "crash"
		what := "the server crashed"
		if strings.Contains(d.What, "DATA RACE") {
			kind, what = "race", "data race in the server"
		} else if d.Hang {
			kind, what = "hang", "the server loops without end"
		}
		return mc.Vd(kind, map[string]any{"scenario": sc, "schedule": d.Schedule}, "%s\nscenario: %s\nschedule: %.400s\n%s", what, describe(sc), fmt.Sprint(d.Schedule), d.What)
	}
	c.Evals += r.Runs
	c.Traces += r.Runs
	c.States += r.Decisions + r.Runs
	c.Transitions += r.Steps
	c.Nontrivial += r.Runs
	c.Add("schedules", r.Runs)
	c.Add("requests_answered", r.Requests)
	c.Add("datagrams_checked", r.Packets)
	c.Add("different_outcomes", int64(r.Outcomes))
	c.Add("violations_of_other_properties", r.Others)
	if c.Extra["most_decisions_in_one_schedule"] < int64(r.MaxDecisions) {
		c.Add("most_decisions_in_one_schedule", int64(r.MaxDecisions)-c.Extra["most_decisions_in_one_schedule"])
	}
	if p := os.Getenv("VERIF_SRV_LOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		defer f.Close()
		fmt.Fprintf(f, "%s base %d bound %d: runs %d maxdec %d complete %v diverged %d outcomes %d others %d %s\n", describe(sc), base, bound, r.Runs, r.MaxDecisions, r.Complete, r.Diverged, r.Outcomes, r.Others, r.OtherWhat)
	}
	if c.WantSample() {
		c.Sample("%s: %d schedules, %d different outcomes", describe(sc), r.Runs, r.Outcomes)
	}
	if r.What != "" {
		h.Stop()
		delete(lo.h, bin)
		// Run it once more for the trace.
		tr := ""
		if h, err := hpool.Start(bin); err == nil {
			p := &serverdrv.Response{}
			if err := h.Ask(&serverdrv.Request{Scenario: *sc, Base: base, Schedule: r.Schedule, Replay: true, Only: id}, p, 30*time.Second); err == nil {
				tr = strings.Join(p.Trace, "\n  ")
			}
			h.Stop()
		}
		return mc.Vd(r.Key, map[string]any{"scenario": sc, "schedule": r.Schedule}, "%s\nscenario: %s\nschedule: %.400s\n  %s", r.What, describe(sc), fmt.Sprint(r.Schedule), tr)
	}
	if !r.Complete || r.Diverged > 0 {
		c.Add("scenarios_cut", 1)
		c.Incomplete()
	}
	return nil
}

func describe(sc *serverdrv.Scenario) string {
	var s []string
	for _, cl := range sc.Clients {
		var t []string
		for _, a := range cl.Acts {
			switch a.Op {
			case "req":
				t = append(t, fmt.Sprintf("%q", a.Arg))
			case "send":
				t = append(t, fmt.Sprintf("send %q", a.Arg))
			case "connect":
			default:
				t = append(t, strings.TrimSpace(a.Op+" "+a.Arg))
			}
		}
		if len(t) > 24 {
			t = append(append(append([]string(nil), t[:12]...), fmt.Sprintf("... %d steps ...", len(t)-20)), t[len(t)-8:]...)
		}
		s = append(s, strings.Join(t, ", "))
	}
	if len(s) > 8 {
		s = append(s[:6], fmt.Sprintf("... %d clients in all", len(s)))
	}
	x := fmt.Sprintf("%d device(s), clients {%s}", len(sc.Devs), strings.Join(s, "} {"))
	if len(sc.Failures) > 0 {
		x += fmt.Sprintf(", failures %v", sc.Failures)
	}
	if len(sc.Sizes) > 0 {
		x += fmt.Sprintf(", buffers %v end %v", short(sc.Sizes), sc.Ends)
	}
	if sc.Extra || sc.InFlight > 0 {
		x += fmt.Sprintf(", extra callbacks %v %d", sc.Extra, sc.InFlight)
	}
	return x
}

func short(s [][]int) string {
	t := fmt.Sprint(s)
	if len(t) > 120 {
		t = t[:120] + "..."
	}
	return t
}
