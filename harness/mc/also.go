package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Also386 adds to every registered check a family that runs its whole
// exploration compiled for 386: other code is used there (the portable versions
// instead of assembly), and other sizes.
func Also386() {
	bin := os.Getenv("VERIF_386")
	if bin == "" {
		return
	}
	for id, ck := range checks {
		fams := ck.Families
		ck.Families = func(t Tier) []*Family {
			return append(fams(t), &Family{Name: "compiled for 386", N: 1, Serial: true, Run: func(c *Ctx, i int) error {
				return Rerun(c, exec.Command(bin, "-check", id), id, "386")
			}})
		}
	}
}

type rerunEvidence struct {
	Coverage struct {
		Evaluations, States, Transitions, Distinct_nontrivial int64
		Exhaustive                                            bool
	}
}

// Rerun runs a check's exploration in another program, and takes over what it
// covered and found.
func Rerun(c *Ctx, cmd *exec.Cmd, id, arch string) error {
	dir, err := os.MkdirTemp("", "rerun")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	cmd.Args = append(cmd.Args, "-out", dir)
	if cmd.Env == nil {
		cmd.Env = os.Environ()
	}
	cmd.Env = append(cmd.Env, "VERIF_386=")
	out, err := cmd.CombinedOutput()
	var e rerunEvidence
	if b, err := os.ReadFile(filepath.Join(dir, "evidence", id+".json")); err == nil {
		json.Unmarshal(b, &e)
	}
	c.Evals += e.Coverage.Evaluations
	c.Nontrivial += e.Coverage.Distinct_nontrivial + e.Coverage.States
	c.Add("evaluations_"+arch, e.Coverage.Evaluations)
	if !e.Coverage.Exhaustive {
		c.Incomplete()
	}
	if err == nil {
		return nil
	}
	s := string(out)
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1 && strings.Contains(s, "VIOLATION property="+id) {
		var l []string
		for _, x := range strings.Split(strings.TrimSpace(s), "\n") {
			if x != "" && !strings.HasPrefix(x, "VIOLATION ") {
				l = append(l, strings.TrimSpace(x))
			}
		}
		s = strings.Join(l, "\n    ")
		if len(s) > 1500 {
			s = s[:1500]
		}
		return V("arch:"+arch+":"+id, "compiled for %s, the exploration of %s fails: %s", arch, id, s)
	}
	c.Incomplete()
	c.Add("reruns_without_verdict", 1)
	fmt.Fprintf(os.Stderr, "%s on %s gave no verdict: %s\n", id, arch, s)
	return nil
}
