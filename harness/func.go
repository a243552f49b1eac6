package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/mitch000001/go-hbci/iban"
)

// text is a byte string written as an array of codes
type text []int

func (t text) String() string {
	b := make([]byte, len(t))
	for i, c := range t {
		b[i] = byte(c)
	}
	return string(b)
}

func codes(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func codesList(l []string) [][]int {
	r := make([][]int, len(l))
	for i, s := range l {
		r[i] = codes(s)
	}
	return r
}

// funcOps are the functions of the library that can be called on their own. Each one fills the record.
var funcOps = map[string]func(in json.RawMessage, out M){
	"from":   ibanFrom,
	"new":    ibanNew,
	"german": ibanGerman,
}

func runFunc(in, out string) {
	o := newOut(out)
	defer o.close()
	readLines(in, func(line []byte) {
		rec := M{}
		if err := json.Unmarshal(line, &rec); err != nil {
			fatal("record: %v: %s", err, line)
		}
		op, _ := rec["op"].(string)
		f := funcOps[op]
		if f == nil {
			fatal("unknown op %q", op)
		}
		watch := time.AfterFunc(30*time.Second, func() { fatal("no answer within 30 s: %s", line) })
		rec["panic"] = protect(func() { f(line, rec) })
		watch.Stop()
		o.line(rec)
		o.w.Flush()
		capReset()
	})
}

// protect runs f and returns what it panicked with, or the empty string
func protect(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%.120v", r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

func ibanFrom(line json.RawMessage, out M) {
	var in struct{ T text }
	json.Unmarshal(line, &in)
	out["ok"], out["val"], out["valid"] = false, []int{}, false
	out["country"], out["proof"], out["bban"], out["print"] = []int{}, []int{}, []int{}, []int{}
	v, err := iban.From(in.T.String())
	out["ok"] = err == nil
	out["valid"] = iban.IsValid(in.T.String())
	if err == nil {
		out["val"] = codes(v.String())
		out["country"], out["proof"], out["bban"] = codes(v.CountryCode()), codes(v.ProofNumber()), codes(v.BBAN())
		out["print"] = codes(iban.Print(v))
		if !v.Valid() {
			out["valid"] = false
		}
	} else {
		// a value that was not parsed must not crash either
		if iban.IBAN(in.T.String()).Valid() {
			out["valid"] = true
		}
	}
}

func ibanNew(line json.RawMessage, out M) {
	var in struct{ C, B text }
	json.Unmarshal(line, &in)
	out["ok"], out["val"] = false, []int{}
	v, err := iban.New(in.C.String(), in.B.String())
	out["ok"] = err == nil
	if err == nil {
		out["val"] = codes(v.String())
	}
}

func ibanGerman(line json.RawMessage, out M) {
	var in struct{ C, B text }
	json.Unmarshal(line, &in)
	out["ok"], out["val"], out["bank"], out["acct"] = false, []int{}, []int{}, []int{}
	v, err := iban.NewGerman(in.C.String(), in.B.String())
	out["ok"] = err == nil
	if err == nil {
		out["val"] = codes(v.String())
		out["bank"], out["acct"] = codes(v.BankID()), codes(v.AccountID())
	}
}
