package main

// Several clients in one process, on a schedule taken from the specification (Conc, Interleave) or freely in parallel.

import (
	"encoding/json"
	"os"
	"os/exec"
	"runtime"
	"sync"
)

type ConcCase struct {
	ID      string      `json:"id"`
	Mode    string      `json:"mode"` // strict | split | free
	Clients []*Scenario `json:"clients"`
	Sched   []int       `json:"sched"` // 1-based client numbers, one per turn
	Repeat  int         `json:"repeat"`
}

// turns lets one client at a time run from one gate to its next one.
type turns struct {
	mu     sync.Mutex
	cond   *sync.Cond
	sched  []int
	pos    int
	holder int // 0: nobody
	done   map[int]bool
	n      int
	last   int
	extra  int // turns taken after the end of the schedule
	unused int
}

func newTurns(n int, sched []int) *turns {
	t := &turns{sched: sched, done: map[int]bool{}, n: n}
	t.cond = sync.NewCond(&t.mu)
	return t
}

// next is the client whose turn it is.
func (t *turns) next() int {
	for t.pos < len(t.sched) && t.done[t.sched[t.pos]] {
		t.pos++
		t.unused++
	}
	if t.pos < len(t.sched) {
		return t.sched[t.pos]
	}
	for k := 1; k <= t.n; k++ {
		if i := (t.last+k-1)%t.n + 1; !t.done[i] {
			return i
		}
	}
	return 0
}

func (t *turns) gate(i int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.holder == i {
		t.holder = 0
		t.cond.Broadcast()
	}
	for t.holder != 0 || t.next() != i {
		t.cond.Wait()
	}
	t.holder = i
	t.last = i
	if t.pos < len(t.sched) {
		t.pos++
	} else {
		t.extra++
	}
}

func (t *turns) finish(i int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.done[i] = true
	if t.holder == i {
		t.holder = 0
	}
	t.cond.Broadcast()
}

func timedOut(ev []M) bool {
	for _, e := range ev {
		if b, ok := e["timeout"].(bool); ok && b {
			return true
		}
	}
	return false
}

func runConc(in, out string) {
	o := newOut(out)
	defer o.close()
	slow := 0
	readLines(in, func(line []byte) {
		var c ConcCase
		if err := json.Unmarshal(line, &c); err != nil {
			fatal("case: %v: %s", err, line)
		}
		if slow > 2 {
			o.line(M{"id": c.ID, "skipped": true, "clients": []M{}, "extra": 0, "unused": 0})
			return
		}
		res := make([]M, len(c.Clients))
		t := newTurns(len(c.Clients), c.Sched)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, sc := range c.Clients {
			wg.Add(1)
			go func(i int, sc *Scenario) {
				defer wg.Done()
				<-start
				r := &Runner{sc: sc, dlgPrefix: sc.Pre, noCap: true}
				switch c.Mode {
				case "strict", "split":
					r.gate = func() { t.gate(i + 1) }
					r.split = c.Mode == "split"
				default:
					r.gate = runtime.Gosched
				}
				ev := r.run()
				t.finish(i + 1)
				res[i] = M{"id": sc.ID, "cfg": sc.Cfg, "events": ev, "missed": r.missed}
			}(i, sc)
		}
		close(start)
		wg.Wait()
		for _, r := range res {
			if timedOut(r["events"].([]M)) {
				slow++
			}
		}
		o.line(M{"id": c.ID, "skipped": false, "clients": res, "extra": t.extra, "unused": t.unused + len(t.sched) - t.pos})
		capReset()
	})
}

// runSolo executes every scenario in a process of its own.
func runSolo(in, out string) {
	o, err := os.Create(out)
	if err != nil {
		fatal("%v", err)
	}
	defer o.Close()
	readLines(in, func(line []byte) {
		if err := os.WriteFile(in+".one", line, 0o600); err != nil {
			fatal("%v", err)
		}
		cmd := exec.Command(os.Args[0], "dialog", in+".one", out+".one")
		cmd.Stderr = errOut
		if err := cmd.Run(); err != nil {
			if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
				os.Exit(x.ExitCode())
			}
			fatal("%v", err)
		}
		b, err := os.ReadFile(out + ".one")
		if err != nil {
			fatal("%v", err)
		}
		o.Write(b)
	})
}
