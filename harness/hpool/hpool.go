// Package hpool talks to helper processes: the code under test runs in them, so
// that what it does to its process does not end the check.
package hpool

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Helper is one process with the code under test in it; one run at a time.
type Helper struct {
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	outF *os.File
	err  *tail
	cur  *os.File // shared with the process: its schedule
}

// tail keeps the first part of what is written to it.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

func Start(bin string) (*Helper, error) {
	h := &Helper{err: &tail{}}
	rq, rqw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rsr, rs, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp("", "verif-current")
	if err != nil {
		return nil, err
	}
	os.Remove(f.Name())
	f.Truncate(1 << 16)
	h.cur = f
	h.cmd = exec.Command(bin)
	h.cmd.Env = append(os.Environ(), "VERIF_CURRENT=5", "GORACE=halt_on_error=1", "GOTRACEBACK=all")
	h.cmd.ExtraFiles = []*os.File{rq, rs, f}
	h.cmd.Stderr = h.err
	h.cmd.Stdout = h.err
	if err := h.cmd.Start(); err != nil {
		return nil, err
	}
	rq.Close()
	rs.Close()
	h.in, h.out, h.outF = rqw, bufio.NewReaderSize(rsr, 1<<20), rsr
	return h, nil
}

func (h *Helper) Stop() {
	h.cmd.Process.Kill()
	h.in.Close()
	h.outF.Close()
	h.cmd.Wait()
	h.cur.Close()
}

// schedule of the run in progress.
func (h *Helper) schedule() []int {
	b := make([]byte, 1<<16)
	n, _ := h.cur.ReadAt(b, 0)
	b = b[:n]
	var s []int
	for k := 0; k+4 <= len(b); k += 4 {
		x := int(int32(binary.LittleEndian.Uint32(b[k:])))
		if x == 0 {
			break
		}
		s = append(s, x-1)
	}
	return s
}

type Died struct {
	What     string
	Schedule []int
	Hang     bool
}

func (d *Died) Error() string { return d.What }

// Ask sends one request; a helper that dies or hangs is an error.
func (h *Helper) Ask(q, p any, limit time.Duration) error {
	b, _ := json.Marshal(q)
	h.in.Write(append(b, '\n'))
	t := time.AfterFunc(limit, func() { h.cmd.Process.Signal(syscall.SIGQUIT) })
	t2 := time.AfterFunc(limit+5*time.Second, func() { h.cmd.Process.Kill() })
	l, err := h.out.ReadBytes('\n')
	hang := !t.Stop()
	t2.Stop()
	if err != nil {
		h.cmd.Wait()
		return &Died{excerpt(h.err.String()), h.schedule(), hang}
	}
	return json.Unmarshal(l, p)
}

func excerpt(s string) string {
	for _, k := range []string{"WARNING: DATA RACE", "panic:", "fatal error:", "SIGQUIT"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	l := strings.Split(s, "\n")
	if len(l) > 30 {
		l = l[:30]
	}
	return strings.Join(l, "\n")
}
