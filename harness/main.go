package main

import (
	"bufio"
	"encoding/json"
	"os"
	"time"
)

func readLines(path string, f func(line []byte)) {
	in, err := os.Open(path)
	if err != nil {
		fatal("%v", err)
	}
	defer in.Close()
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			f(line)
		}
		if err != nil {
			return
		}
	}
}

type outFile struct {
	f *os.File
	w *bufio.Writer
}

func newOut(path string) *outFile {
	f, err := os.Create(path)
	if err != nil {
		fatal("%v", err)
	}
	return &outFile{f, bufio.NewWriterSize(f, 1<<20)}
}

func (o *outFile) line(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	o.w.Write(b)
	o.w.WriteByte('\n')
}

func (o *outFile) close() {
	o.w.Flush()
	o.f.Close()
}

func main() {
	if len(os.Args) < 4 {
		fatal("usage: hv MODE IN OUT")
	}
	if err := captureFDs(); err != nil {
		fatal("capture: %v", err)
	}
	in, out := os.Args[2], os.Args[3]
	switch os.Args[1] {
	case "dialog":
		runDialog(in, out)
	case "conc":
		callTimeout = 20 * time.Second
		runConc(in, out)
	case "solo":
		runSolo(in, out)
	case "bankdir":
		bankDirectory(in, out)
	case "http":
		runHTTP(in, out, false)
	case "httpdebug":
		runHTTP(in, out, true)
	case "cli":
		runCli(in, out)
	case "func":
		runFunc(in, out)
	default:
		fatal("unknown mode %q", os.Args[1])
	}
}

func runDialog(in, out string) {
	o := newOut(out)
	defer o.close()
	readLines(in, func(line []byte) {
		var sc Scenario
		if err := json.Unmarshal(line, &sc); err != nil {
			fatal("scenario: %v: %s", err, line)
		}
		r := &Runner{sc: &sc, dlgPrefix: sc.Pre}
		ev := r.run()
		if r.missed {
			ev = []M{}
		}
		o.line(M{"id": sc.ID, "cfg": sc.Cfg, "events": ev, "missed": r.missed})
		capReset()
	})
}
