package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Runs the real command line client (the program named by BANKING) against the HTTP bank.

type cliConf struct {
	User string `json:"user"`
	Blz  string `json:"blz"`
}

type cliCall struct {
	Argv []string          `json:"argv"` // @URL@ stands for the URL of the bank, @FILE@ for the other configuration file
	Env  map[string]string `json:"env"`
	Cfg  Cfg               `json:"cfg"`
	Want json.RawMessage   `json:"want"`
	Days int               `json:"days"`
	Call Call              `json:"call"`
}

type cliItem struct {
	ID    string    `json:"id"`
	Start []cliConf `json:"start"`
	Other cliConf   `json:"other"`
	Calls []cliCall `json:"calls"`
}

func (c cliConf) yaml() []byte {
	return []byte(fmt.Sprintf("userID: %q\nblz: %q\n", c.User, c.Blz))
}

var headings = []string{"BankIDAccountIDUserID", "ProductName", "BookingDateBookingText"}

// rows returns the lines of the table that is printed, without blanks.
func tableRows(out string) []string {
	res := []string{}
	in := false
	for _, l := range strings.Split(out, "\n") {
		l = strings.Map(func(r rune) rune {
			if r == ' ' || r == '\t' {
				return -1
			}
			return r
		}, l)
		if !in {
			for _, h := range headings {
				in = in || strings.HasPrefix(l, h)
			}
			continue
		}
		if l == "" || strings.HasPrefix(l, "Balanceat") || strings.HasPrefix(l, "*earmarked") {
			break
		}
		res = append(res, l)
	}
	return res
}

func runCli(in, out string) {
	o := newOut(out)
	defer o.close()
	bin := os.Getenv("BANKING")
	s := theServer()
	readLines(in, func(line []byte) {
		var it cliItem
		if err := json.Unmarshal(line, &it); err != nil {
			fatal("cli: %v: %s", err, line)
		}
		home, err := os.MkdirTemp(".", "home")
		if err != nil {
			fatal("%v", err)
		}
		home, _ = filepath.Abs(home)
		defer os.RemoveAll(home)
		other := filepath.Join(home, "other.yaml")
		write := func(p string, b []byte) {
			if err := os.WriteFile(p, b, 0o600); err != nil {
				fatal("%v", err)
			}
		}
		write(other, it.Other.yaml())
		for _, c := range it.Start {
			write(filepath.Join(home, ".banking.yaml"), c.yaml())
		}
		traces := []M{}
		for k, c := range it.Calls {
			traces = append(traces, cliRun(fmt.Sprintf("%s.%d", it.ID, k), c, home, other, bin, s))
		}
		o.line(M{"id": it.ID, "traces": traces})
	})
}

func cliRun(id string, c cliCall, home, other, bin string, s *loop) M {
	const path = "/fints/a?b=c&d=%20"
	sc := &Scenario{ID: id, Cfg: c.Cfg}
	r := &Runner{sc: sc, noCap: true, active: true, pin: c.Cfg.Pin}
	r.queues = map[string][]json.RawMessage{"sync": c.Call.Bank.Sync, "init": c.Call.Bank.Init, "biz": c.Call.Bank.Biz, "end": c.Call.Bank.End}
	r.overHTTP(s)
	argv := []string{}
	for _, a := range c.Argv {
		argv = append(argv, strings.NewReplacer("@URL@", "http://"+s.addr+path, "@FILE@", other).Replace(a))
	}
	now := time.Now()
	if c.Call.Op == "tx" || c.Call.Op == "sepatx" {
		c.Call.Args.From = now.AddDate(0, 0, -c.Days).Format("20060102")
	}
	r.emit(M{"ev": "call", "op": c.Call.Op, "args": c.Call.Args, "days": []string{now.AddDate(0, -1, 0).Format("20060102"), now.Format("20060102")}})
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, argv...)
	cmd.Dir = home
	cmd.Env = []string{"HOME=" + home, "TZ=UTC", "PATH=/usr/bin:/bin", "NO_PROXY=*"}
	for k, v := range c.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	confs := map[string][]byte{}
	for _, f := range []string{filepath.Join(home, ".banking.yaml"), other} {
		if b, err := os.ReadFile(f); err == nil {
			confs[f] = b
		}
	}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	timeout := ctx.Err() != nil
	r.mu.Lock()
	r.active = false
	r.mu.Unlock()
	text := stdout.String() + stderr.String()
	panicked := ""
	if i := strings.Index(text, "panic:"); i >= 0 && strings.Contains(text, "goroutine ") {
		panicked = strings.SplitN(text[i:], "\n", 2)[0]
	}
	leak := []string{}
	for _, q := range []string{r.pin, esc(r.pin), string(utf8ToLatin1(r.pin)), base64.StdEncoding.EncodeToString([]byte(r.pin))} {
		if r.pin == "" {
			continue
		}
		if strings.Contains(text, q) && !c.Cfg.Debug {
			leak = append(leak, "output")
		}
		filepath.Walk(home, func(p string, i os.FileInfo, e error) error {
			if e == nil && !i.IsDir() {
				if b, e := os.ReadFile(p); e == nil && bytes.Contains(b, []byte(q)) {
					leak = append(leak, "file "+filepath.Base(p))
				}
			}
			return nil
		})
	}
	res := emptyRes()
	rows := tableRows(stdout.String())
	res["none"] = len(rows) == 0
	same := true
	for f, b := range confs {
		now, err := os.ReadFile(f)
		same = same && err == nil && bytes.Equal(now, b)
	}
	errs := ""
	if err != nil {
		errs = text
	}
	r.emit(M{"ev": "ret", "op": c.Call.Op, "ok": err == nil, "err": errs, "panic": panicked, "timeout": timeout, "res": res, "snap": []M{}, "leak": leak, "errhas": r.errHas(text),
		"where": "", "rows": rows, "same": same, "said": strings.TrimSpace(text) != "", "out": text})
	sc.Cfg.URL = "http://" + s.addr + path
	for _, e := range r.events {
		if u, ok := e["url"].(string); ok {
			e["url"] = strings.Replace(u, s.addr, "bank.example", 1)
		}
		// the name of the product is the library's own affair
		if p, ok := e["prep"].([]M); ok && len(p) == 1 && sc.Cfg.Prod == "" {
			sc.Cfg.Prod, sc.Cfg.ProdV = p[0]["prod"].(string), p[0]["prodv"].(string)
		}
	}
	sc.Cfg.URL = strings.Replace(sc.Cfg.URL, s.addr, "bank.example", 1)
	return M{"id": id, "cfg": sc.Cfg, "want": c.Want, "events": r.events, "argv": c.Argv}
}
