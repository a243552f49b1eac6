package main

// Runs scenarios (generated from the TLA+ specification) against the real client and
// records what is observable as a trace of events.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
)

type Cfg struct {
	API   string `json:"api"` // client | dialog
	Ver   int    `json:"ver"`
	Bank  string `json:"bank"`
	User  string `json:"user"`
	Pin   string `json:"pin"`
	Prod  string `json:"prod"`
	ProdV string `json:"prodv"`
	URL   string `json:"url"`
	Debug bool   `json:"debug"`
}

type AcctArg struct {
	ID      string `json:"id"`
	Sub     string `json:"sub"`
	Country int    `json:"country"`
	Bank    string `json:"bank"`
	IBAN    string `json:"iban"`
	BIC     string `json:"bic"`
}

type Args struct {
	Acct  AcctArg `json:"acct"`
	All   bool    `json:"all"`
	From  string  `json:"from"` // YYYYMMDD or ""
	To    string  `json:"to"`
	TZ    int     `json:"tz"` // offset in hours of the location the dates are given in
	Max   int     `json:"max"`
	Cont  string  `json:"cont"`
	Pin   string  `json:"pin"`
	SysID string  `json:"sysid"`
	Fn    string  `json:"fn"`
}

type Bank struct {
	Sync []json.RawMessage `json:"sync"`
	Init []json.RawMessage `json:"init"`
	Biz  []json.RawMessage `json:"biz"`
	End  []json.RawMessage `json:"end"`
}

type Call struct {
	Op   string `json:"op"`
	Args Args   `json:"args"`
	Bank Bank   `json:"bank"`
}

type Scenario struct {
	ID    string   `json:"id"`
	Tags  []string `json:"tags"`
	Cfg   Cfg      `json:"cfg"`
	Calls []Call   `json:"calls"`
	Pre   string   `json:"pre"` // prefix of the identifiers the bank assigns
}

type M = map[string]interface{}

// Runner executes one scenario.
type Runner struct {
	sc        *Scenario
	events    []M
	results   []keptRes // what calls have returned so far
	queues    map[string][]json.RawMessage
	curDlg    string
	nDlg      int
	nSys      int
	pin       string
	oldPins   []string
	inCall    []recvInfo
	cl        *client.Client
	dl        *dialog.PinTanDialog
	ver       segment.HBCIVersion
	gate      func() // called before every exchange (schedule control), may be nil
	dead      bool
	noCap     bool
	mu        sync.Mutex
	inflight  int
	xmu       sync.Mutex
	emu       sync.Mutex
	settle    time.Duration
	missed    bool // damage that found nothing to hit
	active    bool
	dlgPrefix string
	split     bool // the reply takes a turn of its own
	viaHTTP   bool // the client uses its default transport
	posts     []M
	made      bool // the client has been made already
	anyVer    bool // answer in the version of the request
}

type recvInfo struct {
	idx int
	r   *Reply
}

func (r *Runner) emit(e M) int {
	r.emu.Lock()
	defer r.emu.Unlock()
	r.events = append(r.events, e)
	return len(r.events) - 1
}

func defaultReply(kind string, r *Runner) Reply {
	ok := []Ack{{Lvl: "msg", Code: 10, Text: "Nachricht entgegengenommen."}}
	switch kind {
	case "sync":
		r.nSys++
		return Reply{K: "ok", Acks: ok, SysID: []string{fmt.Sprintf("%sSYSDEF%d", r.dlgPrefix, r.nSys)}}
	case "biz", "anonbiz":
		return Reply{K: "ok", Acks: ok}
	default:
		return Reply{K: "ok", Acks: ok}
	}
}

func orEmpty(v interface{}) interface{} { return v }

// normalize makes all nil slices empty by a JSON round trip on known types.
func (r *Reply) normalize() {
	if r.Acks == nil {
		r.Acks = []Ack{}
	}
	for i := range r.Acks {
		if r.Acks[i].Params == nil {
			r.Acks[i].Params = []string{}
		}
	}
	if r.Bpd == nil {
		r.Bpd = []Bpd{}
	}
	for i := range r.Bpd {
		if r.Bpd[i].Segs == nil {
			r.Bpd[i].Segs = []SegV{}
		}
		if r.Bpd[i].Pins == nil {
			r.Bpd[i].Pins = []PinReq{}
		}
	}
	if r.Upd == nil {
		r.Upd = []Upd{}
	}
	if r.Accts == nil {
		r.Accts = []Acct{}
	}
	for i := range r.Accts {
		if r.Accts[i].Limit == nil {
			r.Accts[i].Limit = []Limit{}
		}
		if r.Accts[i].Txs == nil {
			r.Accts[i].Txs = []BTx{}
		}
		for j := range r.Accts[i].Txs {
			if r.Accts[i].Txs[j].Limit == nil {
				r.Accts[i].Txs[j].Limit = []Limit{}
			}
		}
	}
	if r.SysID == nil {
		r.SysID = []string{}
	}
	if r.Tans == nil {
		r.Tans = []string{}
	}
	if r.Ann == nil {
		r.Ann = []Ann{}
	}
	if r.Tx == nil {
		r.Tx = []TxSeg{}
	}
	for i := range r.Tx {
		if r.Tx[i].IDs == nil {
			r.Tx[i].IDs = []string{}
		}
	}
	if r.Bals == nil {
		r.Bals = []BalSeg{}
	}
	for i := range r.Bals {
		b := &r.Bals[i]
		if b.Booked.Time == nil {
			b.Booked.Time = []string{}
		}
		if b.Earmark == nil {
			b.Earmark = []BalV{}
		}
		for j := range b.Earmark {
			if b.Earmark[j].Time == nil {
				b.Earmark[j].Time = []string{}
			}
		}
		for _, p := range []*[]Amt{&b.Credit, &b.Avail, &b.Used, &b.Seizable} {
			if *p == nil {
				*p = []Amt{}
			}
		}
		for _, p := range []*[]string{&b.BDate, &b.BTime, &b.Due} {
			if *p == nil {
				*p = []string{}
			}
		}
	}
	if r.Stats == nil {
		r.Stats = []Stat{}
	}
	for i := range r.Stats {
		if r.Stats[i].Params == nil {
			r.Stats[i].Params = []string{}
		}
		if r.Stats[i].Seg == nil {
			r.Stats[i].Seg = []int{}
		}
	}
	if r.Kif == nil {
		r.Kif = []string{}
	}
	if r.Unk == nil {
		r.Unk = []string{}
	}
	if r.Ins == nil {
		r.Ins = []Ins{}
	}
	if r.Dmg == nil {
		r.Dmg = []Dmg{}
	}
}

func (r *Runner) take(kind string) Reply {
	q := r.queues[kind]
	if len(q) == 0 {
		d := defaultReply(kind, r)
		return d
	}
	raw := q[0]
	r.queues[kind] = q[1:]
	var rep Reply
	if err := json.Unmarshal(raw, &rep); err != nil {
		fatal("bad reply descriptor in %s: %v: %s", r.sc.ID, err, raw)
	}
	return rep
}

// exchange is the transport handed to the client.
func (r *Runner) exchange(req *transport.Request) (*transport.Response, error) {
	if r.gate != nil {
		r.gate()
	}
	r.mu.Lock()
	r.inflight++
	overlap := r.inflight > 1
	late := !r.active
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		r.inflight--
		r.mu.Unlock()
	}()
	body, err := io.ReadAll(req.Body)
	if err != nil {
		body = nil
	}
	msg, derr := base64.StdEncoding.DecodeString(string(body))
	sd := projectSend(msg, r.pin, r.oldPins)
	sd["url"] = req.URL
	sd["overlap"] = overlap
	sd["late"] = late
	if overlap {
		time.Sleep(2 * time.Millisecond)
	}
	r.xmu.Lock()
	defer r.xmu.Unlock()
	if derr == nil && base64.StdEncoding.EncodeToString(msg) != string(body) {
		derr = errors.New("not exactly the encoding of a message")
	}
	if derr != nil {
		sd["parse"] = "base64: " + derr.Error()
	}
	kind := sd["kind"].(string)
	if r.dead {
		return nil, errors.New("scenario abandoned")
	}
	r.emit(sd)
	rep := r.take(strings.TrimPrefix(kind, "anon"))
	rep.normalize()
	for i, s := range rep.SysID {
		if r.dlgPrefix != "" && s != "" && !strings.HasPrefix(s, r.dlgPrefix) {
			rep.SysID[i] = r.dlgPrefix + s
		}
	}
	if v, e := strconv.Atoi(sd["hver"].(string)); r.anyVer && e == nil {
		r.sc.Cfg.Ver = v
	}
	opening := kind == "sync" || kind == "init" || kind == "anoninit"
	num := sd["numi"].(int)
	if opening {
		r.nDlg++
		if rep.Dlg == "" {
			rep.Dlg = fmt.Sprintf("%sDLG%d", r.dlgPrefix, r.nDlg)
		}
		if rep.K == "ok" || rep.K == "raw" {
			r.curDlg = rep.Dlg
		}
	} else if rep.Dlg == "" {
		rep.Dlg = r.curDlg
	}
	idx := r.emit(M{"ev": "recv", "kind": kind, "r": rep, "n": len(r.inCall) + 1})
	r.inCall = append(r.inCall, recvInfo{idx: idx, r: &rep})
	reply := rep.build(rep.Dlg, num, r.sc.Cfg.Ver)
	if r.split && r.gate != nil {
		r.gate()
	}
	enc := func(b []byte) *transport.Response {
		return &transport.Response{Body: io.NopCloser(strings.NewReader(base64.StdEncoding.EncodeToString(b))), Request: req}
	}
	switch rep.K {
	case "ok":
		return enc(reply), nil
	case "neterr":
		return nil, errors.New("connection refused")
	case "timeout":
		// what an http.Client with a time limit returns
		return nil, &url.Error{Op: "Post", URL: "https://bank.example/hbci", Err: os.ErrDeadlineExceeded}
	case "reset":
		return nil, &url.Error{Op: "Post", URL: "https://bank.example/hbci", Err: &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}}
	case "eof":
		// the server closed the connection without answering
		return nil, &url.Error{Op: "Post", URL: "https://bank.example/hbci", Err: io.EOF}
	case "cuttmo":
		s := base64.StdEncoding.EncodeToString(reply)
		return &transport.Response{Body: io.NopCloser(io.MultiReader(strings.NewReader(s[:len(s)/8*4]), errReader{os.ErrDeadlineExceeded})), Request: req}, nil
	case "http":
		// an HTTP error page handed through by the transport
		return &transport.Response{Body: io.NopCloser(strings.NewReader("<html><body>502 Bad Gateway</body></html>")), Request: req}, nil
	case "garbage":
		return enc([]byte("this is not HBCI at all")), nil
	case "empty":
		return enc(nil), nil
	case "trunc":
		return enc(reply[:len(reply)*2/3]), nil
	case "cut":
		// the connection breaks in the middle of the body
		s := base64.StdEncoding.EncodeToString(reply)
		return &transport.Response{Body: io.NopCloser(io.MultiReader(strings.NewReader(s[:len(s)/8*4]), errReader{errors.New("connection reset by peer")})), Request: req}, nil
	case "badb64":
		s := base64.StdEncoding.EncodeToString(reply)
		h := len(s) / 8 * 4
		return &transport.Response{Body: io.NopCloser(strings.NewReader(s[:h] + "!!!" + s[h:])), Request: req}, nil
	case "nohead":
		i := bytes.IndexByte(reply, '\'')
		return enc(reply[i+1:]), nil
	case "raw":
		if len(rep.Dmg) > 0 {
			b, hit := rep.buildDamaged(rep.Dlg, num, r.sc.Cfg.Ver)
			if !hit { // nothing to learn from this conversation
				r.missed = true
				return nil, errors.New("nothing to damage")
			}
			return &transport.Response{Body: io.NopCloser(strings.NewReader(b)), Request: req}, nil
		}
		b, err := base64.StdEncoding.DecodeString(rep.Raw)
		if err != nil {
			fatal("raw reply: %v", err)
		}
		return enc(b), nil
	}
	fatal("unknown reply kind %q", rep.K)
	return nil, nil
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

func countPin(msg []byte, pin string) int {
	if pin == "" {
		return 0
	}
	e := []byte(esc(pin))
	n := bytes.Count(msg, e)
	if p := utf8ToLatin1(pin); !bytes.Equal(p, e) {
		// occurrences of the plain PIN that are not part of an escaped one
		n += bytes.Count(msg, p) - n*bytes.Count(e, p)
	}
	return n
}

// trimEls drops trailing empty group elements and data elements, which carry no meaning.
func trimEls(els [][]string) [][]string {
	for i := range els {
		e := els[i]
		for len(e) > 0 && e[len(e)-1] == "" {
			e = e[:len(e)-1]
		}
		els[i] = e
	}
	for len(els) > 0 && len(els[len(els)-1]) == 0 {
		els = els[:len(els)-1]
	}
	return els
}

// projectSend reads a transmitted message with the independent parser.
func projectSend(msg []byte, pin string, old []string) M {
	m := M{"ev": "send", "kind": "unparsable", "parse": "", "size": "", "actual": fmt.Sprintf("%012d", len(msg)), "hver": "", "dlg": "", "num": "0", "numi": -1,
		"tnum": "", "enc": false, "signed": false, "ids": []string{}, "vers": []string{}, "pos": []int{}, "oids": []string{}, "opos": []int{}, "overs": []string{},
		"idn": []M{}, "prep": []M{}, "sig": []M{}, "ench": []M{}, "sigend": []M{}, "sync": []string{}, "endd": []string{}, "tan": [][][]string{}, "biz": []M{},
		"pins": countPin(msg, pin), "pinok": false, "refs": 0, "hlen": 0}
	for _, o := range old {
		if o != pin && !strings.Contains(pin, o) {
			m["pins"] = m["pins"].(int) + countPin(msg, o)
		}
	}
	segs, err := parseMessage(msg)
	if err != nil {
		m["parse"] = err.Error()
		return m
	}
	if len(segs) < 3 {
		m["parse"] = "fewer than three segments"
		return m
	}
	var oids, overs []string
	var opos []int
	refs := 0
	for _, s := range segs {
		oids = append(oids, s.ID)
		overs = append(overs, fmt.Sprintf("%s:%d", s.ID, s.Ver))
		opos = append(opos, s.Pos)
		if s.Ref >= 0 {
			refs++
		}
	}
	m["oids"], m["opos"], m["overs"] = oids, opos, overs
	h := segs[0]
	if h.ID != "HNHBK" {
		m["parse"] = "first segment is " + h.ID
		return m
	}
	m["hlen"] = len(h.Els)
	m["size"], m["hver"], m["dlg"], m["num"] = h.at(0, 0), h.at(1, 0), h.at(2, 0), h.at(3, 0)
	if n, e := strconv.Atoi(h.at(3, 0)); e == nil && strconv.Itoa(n) == h.at(3, 0) {
		m["numi"] = n
	}
	t := segs[len(segs)-1]
	if t.ID != "HNHBS" {
		m["parse"] = "last segment is " + t.ID
		return m
	}
	m["tnum"] = t.at(0, 0)
	inner := segs[1 : len(segs)-1]
	if d := find(segs, "HNVSD"); d != nil {
		m["enc"] = true
		if len(d.Els) != 1 || len(d.Els[0]) != 1 || !d.Els[0][0].Bin {
			m["parse"] = "encrypted data is not one binary element"
			return m
		}
		inner, err = parseMessage(d.Els[0][0].Raw)
		if err != nil {
			m["parse"] = "envelope: " + err.Error()
			return m
		}
		if e := find(segs, "HNVSK"); e != nil {
			x := M{"ver": e.Ver, "prof": "", "profv": "", "fn": "", "sysid": "", "bank": "", "country": "", "user": "", "keytype": "", "cid": ""}
			o := 0
			if e.Ver == 3 {
				x["prof"], x["profv"] = e.at(0, 0), e.at(0, 1)
				o = 1
			}
			x["fn"] = e.at(o, 0)
			x["cid"] = e.at(o+2, 1)
			x["sysid"] = e.at(o+2, 2)
			x["country"], x["bank"], x["user"], x["keytype"] = e.at(o+5, 0), e.at(o+5, 1), e.at(o+5, 2), e.at(o+5, 3)
			m["ench"] = []M{x}
		}
	}
	var ids, vers []string
	var pos []int
	biz := []M{}
	tans := [][][]string{}
	kind := ""
	for _, s := range inner {
		ids = append(ids, s.ID)
		vers = append(vers, fmt.Sprintf("%s:%d", s.ID, s.Ver))
		pos = append(pos, s.Pos)
		if s.Ref >= 0 {
			refs++
		}
		switch s.ID {
		case "HNSHK":
			m["signed"] = true
			x := M{"ver": s.Ver, "prof": "", "profv": "", "fn": "", "ctrl": "", "sysid": "", "bank": "", "country": "", "user": "", "keytype": "", "range": "", "role": ""}
			o := 0
			if s.Ver >= 4 {
				x["prof"], x["profv"] = s.at(0, 0), s.at(0, 1)
				o = 1
			}
			x["fn"], x["ctrl"], x["range"], x["role"] = s.at(o, 0), s.at(o+1, 0), s.at(o+2, 0), s.at(o+3, 0)
			x["sysid"] = s.at(o+4, 2)
			k := len(s.Els) - 1
			x["country"], x["bank"], x["user"], x["keytype"] = s.at(k, 0), s.at(k, 1), s.at(k, 2), s.at(k, 3)
			m["sig"] = []M{x}
		case "HNSHA":
			x := M{"ver": s.Ver, "ctrl": s.at(0, 0), "sig": s.at(1, 0), "pin": s.at(2, 0), "n": len(s.Els)}
			m["sigend"] = []M{x}
			if s.at(2, 0) == pin {
				m["pinok"] = true
			}
			delete(x, "pin")
		case "HKIDN":
			m["idn"] = []M{{"country": s.at(0, 0), "bank": s.at(0, 1), "user": s.at(1, 0), "sysid": s.at(2, 0), "status": s.at(3, 0), "n": len(s.Els)}}
		case "HKVVB":
			kind = "init"
			m["prep"] = []M{{"bpdv": s.at(0, 0), "updv": s.at(1, 0), "lang": s.at(2, 0), "prod": s.at(3, 0), "prodv": s.at(4, 0), "n": len(s.Els)}}
		case "HKSYN":
			m["sync"] = []string{s.at(0, 0)}
		case "HKEND":
			kind = "end"
			m["endd"] = []string{s.at(0, 0)}
		case "HKTAN":
			tans = append(tans, trimEls(s.texts()))
		default:
			biz = append(biz, M{"id": s.ID, "ver": s.Ver, "els": trimEls(s.texts())})
		}
	}
	if len(m["sync"].([]string)) > 0 {
		kind = "sync"
	}
	if kind == "" {
		kind = "biz"
	}
	if !m["enc"].(bool) {
		kind = "anon" + kind
	}
	if ids == nil {
		ids, vers, pos = []string{}, []string{}, []int{}
	}
	m["ids"], m["vers"], m["pos"], m["biz"], m["kind"], m["tan"], m["refs"] = ids, vers, pos, biz, kind, tans, refs
	return m
}

func fdate(s string, tz int) time.Time {
	if s == "" {
		return time.Time{}
	}
	loc := time.UTC
	if tz != 0 {
		loc = time.FixedZone(fmt.Sprintf("Z%d", tz), tz*3600)
	}
	t, err := time.ParseInLocation("20060102", s, loc)
	if err != nil {
		fatal("bad date %q", s)
	}
	if tz > 0 {
		// early in the day, so that converting to UTC changes the calendar day
		t = t.Add(30 * time.Minute)
	} else if tz < 0 {
		t = t.Add(23 * time.Hour)
	}
	return t
}

func famt(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func pLimit(l *domain.AccountLimit) []Limit {
	if l == nil {
		return []Limit{}
	}
	return []Limit{{Kind: l.Kind, Amt: famt(l.Amount.Amount), Cur: l.Amount.Currency, Days: l.Days}}
}

func pAccts(as []domain.AccountInformation) []Acct {
	out := []Acct{}
	for _, a := range as {
		x := Acct{ID: a.AccountConnection.AccountID, Sub: a.AccountConnection.SubAccountCharacteristics, Country: a.AccountConnection.CountryCode,
			Bank: a.AccountConnection.BankID, User: a.UserID, Cur: a.Currency, N1: a.Name1, N2: a.Name2, Prod: a.ProductID, Limit: pLimit(a.Limit), Txs: []BTx{}}
		for _, b := range a.AllowedBusinessTransactions {
			x.Txs = append(x.Txs, BTx{ID: b.ID, Sigs: b.NeededSignatures, Limit: pLimit(b.Limit)})
		}
		out = append(out, x)
	}
	return out
}

func pAmt(a *domain.Amount) []Amt {
	if a == nil {
		return []Amt{}
	}
	return []Amt{pAmt1(*a)}
}

func pAmt1(a domain.Amount) Amt {
	v := a.Amount
	cd := "C"
	if v < 0 {
		cd = "D"
		v = -v
	}
	if v == 0 {
		v = 0
	}
	return Amt{CD: cd, Val: famt(v), Cur: a.Currency}
}

func pDay(t *time.Time) []string {
	if t == nil {
		return []string{}
	}
	return []string{t.Format("20060102")}
}

func pBal(b domain.Balance) BalV {
	x := BalV{Amt: pAmt1(b.Amount), Date: b.TransmissionDate.Format("20060102"), Time: []string{}}
	if b.TransmissionTime != nil {
		x.Time = []string{b.TransmissionTime.Format("150405")}
	}
	return x
}

func pBalP(b *domain.Balance) []BalV {
	if b == nil {
		return []BalV{}
	}
	return []BalV{pBal(*b)}
}

func pNational(b domain.AccountBalance) BalSeg {
	x := BalSeg{Acct: b.Account.AccountID, Sub: b.Account.SubAccountCharacteristics, Country: b.Account.CountryCode, Bank: b.Account.BankID,
		Prod: b.ProductName, Cur: b.Currency, Booked: pBal(b.BookedBalance), Earmark: pBalP(b.EarmarkedBalance), Credit: pAmt(b.CreditLimit),
		Avail: pAmt(b.AvailableAmount), Used: pAmt(b.UsedAmount), BDate: pDay(b.BookingDate), BTime: []string{}, Due: pDay(b.DueDate), Seizable: []Amt{}}
	if b.BookingDate != nil {
		x.BTime = []string{b.BookingDate.Format("150405")}
	}
	return x
}

func pSepa(b domain.SepaAccountBalance) BalSeg {
	x := BalSeg{IBAN: b.Account.IBAN, BIC: b.Account.BIC, Acct: b.Account.AccountID, Sub: b.Account.SubAccountCharacteristics, Country: b.Account.BankID.CountryCode, Bank: b.Account.BankID.ID,
		Prod: b.ProductName, Cur: b.Currency, Booked: pBal(b.BookedBalance), Earmark: pBalP(b.EarmarkedBalance), Credit: pAmt(b.CreditLimit),
		Avail: pAmt(b.AvailableAmount), Used: pAmt(b.UsedAmount), BDate: pDay(b.BookingDate), BTime: []string{}, Due: pDay(b.DueDate), Seizable: pAmt(b.SeizableAfterMonth)}
	if b.BookingDate != nil {
		x.BTime = []string{b.BookingDate.Format("150405")}
	}
	return x
}

func pAcks(as []domain.Acknowledgement) []M {
	out := []M{}
	for _, a := range as {
		out = append(out, pAck(a))
	}
	return out
}

func pAck(a domain.Acknowledgement) M {
	t := "msg"
	if a.Type == domain.SegmentAcknowledgement {
		t = "seg"
	}
	ps := a.Params
	if ps == nil {
		ps = []string{}
	}
	kind := ""
	for k, is := range map[string]bool{"error": a.IsError(), "warning": a.IsWarning(), "success": a.IsSuccess()} {
		if is {
			kind += k
		}
	}
	return M{"lvl": t, "code": a.Code, "kind": kind, "text": a.Text, "params": ps, "ref": a.ReferenceDataElement, "seg": a.ReferencingSegmentNumber,
		"dlg": a.ReferencingMessage.DialogID, "num": a.ReferencingMessage.MessageNumber}
}

func emptyRes() M {
	return M{"accts": []Acct{}, "tx": []string{}, "bals": []BalSeg{}, "stats": []M{}, "sysid": "", "acks": []M{}, "none": false}
}

func (r *Runner) snapshot() []M {
	if r.dl == nil {
		return []M{}
	}
	segs := []SegV{}
	for _, s := range r.dl.SupportedSegments() {
		segs = append(segs, SegV{ID: s.ID, Ver: s.Version})
	}
	pins := []PinReq{}
	for k, v := range r.dl.BankParameterData.PinTanBusinessTransactions {
		pins = append(pins, PinReq{ID: k, Tan: v})
	}
	sort.Slice(pins, func(i, j int) bool { return pins[i].ID < pins[j].ID })
	b := r.dl.BankParameterData
	u := r.dl.UserParameterData
	return []M{{"bpdv": r.dl.BankParameterDataVersion(), "updv": r.dl.UserParameterDataVersion(), "sysid": r.dl.ClientSystemID, "segs": segs, "pins": pins,
		"bank":  M{"ver": b.Version, "bank": b.BankID.ID, "country": b.BankID.CountryCode, "name": b.BankName, "maxtx": b.MaxTransactionsPerMessage, "maxsize": b.MaxMessageSize, "mint": b.MinTimeout, "maxt": b.MaxTimeout},
		"upd":   M{"ver": u.Version, "user": u.UserID, "usage": u.Usage, "name": u.UserName, "ext": u.Additions},
		"accts": pAccts(r.dl.Accounts)}}
}

func (r *Runner) setup() error {
	if r.made {
		return nil
	}
	c := r.sc.Cfg
	r.pin = c.Pin
	v, ok := segment.SupportedHBCIVersions[c.Ver]
	if !ok {
		return fmt.Errorf("version %d", c.Ver)
	}
	r.ver = v
	var tr transport.Transport = transport.Func(r.exchange)
	if r.viaHTTP {
		tr = nil
	}
	if c.API == "client" {
		cl, err := client.New(client.Config{BankID: c.Bank, AccountID: c.User, PIN: c.Pin, URL: c.URL, HBCIVersion: c.Ver, Transport: tr,
			ProductName: c.Prod, ProductVersion: c.ProdV, EnableDebugLogging: c.Debug})
		if err != nil {
			return err
		}
		r.cl = cl
		return nil
	}
	r.dl = dialog.NewPinTanDialog(dialog.Config{BankID: domain.BankID{CountryCode: 280, ID: c.Bank}, HBCIURL: c.URL, UserID: c.User, HBCIVersion: v,
		ProductName: c.Prod, ProductVersion: c.ProdV, Transport: tr})
	r.dl.SetPin(c.Pin)
	return nil
}

func (a AcctArg) national() domain.AccountConnection {
	return domain.AccountConnection{AccountID: a.ID, SubAccountCharacteristics: a.Sub, CountryCode: a.Country, BankID: a.Bank}
}

func (a AcctArg) sepa() domain.InternationalAccountConnection {
	return domain.InternationalAccountConnection{IBAN: a.IBAN, BIC: a.BIC, AccountID: a.ID, SubAccountCharacteristics: a.Sub, BankID: domain.BankID{CountryCode: a.Country, ID: a.Bank}}
}

func (a Args) frame() domain.Timeframe {
	var tf domain.Timeframe
	if a.From != "" {
		tf.StartDate = domain.NewShortDate(fdate(a.From, a.TZ))
	}
	if a.To != "" {
		tf.EndDate = domain.NewShortDate(fdate(a.To, a.TZ))
	}
	return tf
}

// do performs one call; res is the projected result, dump everything printable of it.
func (r *Runner) do(c Call) (res M, dump string, err error) {
	res = emptyRes()
	res["none"] = true
	a := c.Args
	pTx := func(txs []domain.AccountTransaction, e error) {
		err = e
		dump = fmt.Sprintf("%+v", txs)
		if txs == nil {
			return
		}
		res["none"] = false
		out := []string{}
		for _, t := range txs {
			out = append(out, famt(t.Amount.Amount))
		}
		res["tx"] = out
		r.keep("C10", txs)
	}
	pMsg := func(m message.BankMessage, e error) {
		err = e
		if m == nil {
			return
		}
		res["none"] = false
		res["acks"] = pAcks(m.Acknowledgements())
	}
	switch c.Op {
	case "accounts":
		if r.cl != nil {
			var as []domain.AccountInformation
			as, err = r.cl.Accounts()
			dump = fmt.Sprintf("%+v", as)
			if err == nil || as != nil {
				res["none"] = false
			}
			res["accts"] = pAccts(as)
			dump += domain.AccountInfos(as).String()
			r.keep("C06", as)
		} else {
			err = r.dl.SyncUserParameterData()
			res["none"] = err != nil
			res["accts"] = pAccts(r.dl.Accounts)
		}
	case "tx":
		pTx(r.cl.AccountTransactions(a.Acct.national(), a.frame(), a.All, a.Cont))
	case "sepatx":
		pTx(r.cl.SepaAccountTransactions(a.Acct.sepa(), a.frame(), a.All, a.Cont))
	case "bal":
		var bs []domain.AccountBalance
		bs, err = r.cl.AccountBalances(a.Acct.national(), a.All)
		dump = fmt.Sprintf("%+v", bs)
		if bs != nil {
			res["none"] = false
			out := []BalSeg{}
			for _, b := range bs {
				out = append(out, pNational(b))
			}
			res["bals"] = out
			dump += domain.AccountBalances(bs).String()
			r.keep("C23", bs)
		}
	case "sepabal":
		var bs []domain.SepaAccountBalance
		bs, err = r.cl.SepaAccountBalances(a.Acct.sepa(), a.All, a.Cont)
		dump = fmt.Sprintf("%+v", bs)
		if bs != nil {
			res["none"] = false
			out := []BalSeg{}
			for _, b := range bs {
				out = append(out, pSepa(b))
			}
			res["bals"] = out
			r.keep("C23", bs)
		}
	case "status":
		var ss []domain.StatusAcknowledgement
		ss, err = r.cl.Status(fdate(a.From, a.TZ), fdate(a.To, a.TZ), a.Max, a.Cont)
		dump = fmt.Sprintf("%+v", ss)
		if ss != nil {
			res["none"] = false
			out := []M{}
			for _, s := range ss {
				m := pAck(s.Acknowledgement)
				m["at"] = s.TransmittedAt.Format("20060102150405")
				out = append(out, m)
			}
			res["stats"] = out
			r.keep("C24", ss)
		}
	case "acctinfo":
		err = r.cl.AccountInformation(a.Acct.national(), a.All)
		res["none"] = err != nil
	case "commaccess":
		var b []byte
		b, err = (&client.AnonymousClient{Client: r.cl}).CommunicationAccess(domain.BankID{CountryCode: a.Acct.Country, ID: a.Acct.Bank}, domain.BankID{CountryCode: a.Acct.Country, ID: a.Acct.ID}, a.Max)
		dump = string(b)
		res["none"] = b == nil
	case "sync":
		var id string
		id, err = r.dl.SyncClientSystemID()
		dump = id
		res["none"] = id == ""
		res["sysid"] = id
	case "setpin":
		r.oldPins = append(r.oldPins, r.pin)
		r.pin = a.Pin
		r.dl.SetPin(a.Pin)
	case "setsys":
		r.dl.SetClientSystemID(a.SysID)
	case "setfn":
		r.dl.SetSecurityFunction(a.Fn)
	case "syncupd":
		err = r.dl.SyncUserParameterData()
		res["none"] = err != nil
	case "sendkif":
		pMsg(r.dl.SendMessage(message.NewHBCIMessage(r.ver, r.ver.TanProcess4Request(segment.IdentificationID), segment.NewAccountInformationRequestSegmentV1(a.Acct.national(), a.All))))
	case "anonkom":
		pMsg(r.dl.SendAnonymousMessage(message.NewHBCIMessage(r.ver, segment.NewCommunicationAccessRequestSegment(
			domain.BankID{CountryCode: a.Acct.Country, ID: a.Acct.Bank}, domain.BankID{CountryCode: a.Acct.Country, ID: a.Acct.ID}, a.Max, a.Cont))))
	default:
		fatal("unknown op %q", c.Op)
	}
	return
}

var callTimeout = 10 * time.Second

// run executes the scenario and returns its events.
func (r *Runner) run() []M {
	if r.gate != nil {
		r.gate()
	}
	if err := r.setup(); err != nil {
		r.emit(M{"ev": "setup", "err": err.Error()})
		return r.events
	}
	for i, c := range r.sc.Calls {
		if r.missed {
			break
		}
		if r.gate != nil && i > 0 {
			r.gate()
		}
		r.queues = map[string][]json.RawMessage{"sync": c.Bank.Sync, "init": c.Bank.Init, "biz": c.Bank.Biz, "end": c.Bank.End}
		r.inCall = nil
		now := time.Now()
		days := func() []string {
			return []string{now.AddDate(0, -1, 0).Format("20060102"), now.Format("20060102")}
		}
		r.emit(M{"ev": "call", "op": c.Op, "args": c.Args, "days": days()})
		r.mu.Lock()
		r.active = true
		r.mu.Unlock()
		before := capOffset()
		type outT struct {
			res   M
			dump  string
			err   error
			panic string
		}
		ch := make(chan outT, 1)
		go func() {
			var o outT
			defer func() {
				if p := recover(); p != nil {
					o.panic = fmt.Sprintf("%v", p)
					o.dump = firstFrame(debug.Stack())
				}
				ch <- o
			}()
			o.res, o.dump, o.err = r.do(c)
		}()
		var o outT
		timeout := false
		select {
		case o = <-ch:
		case <-time.After(callTimeout):
			timeout = true
			r.dead = true
		}
		r.mu.Lock()
		r.active = false
		r.mu.Unlock()
		if o.res == nil {
			o.res = emptyRes()
			o.res["none"] = true
		}
		leak := []string{}
		errs := ""
		if o.err != nil {
			errs = o.err.Error()
		}
		logged := ""
		if !r.noCap {
			logged = capSince(before)
		}
		for _, p := range append([]string{r.pin}, r.oldPins...) {
			if p == "" {
				continue
			}
			for _, q := range []string{p, esc(p), string(utf8ToLatin1(p)), base64.StdEncoding.EncodeToString([]byte(p))} {
				if strings.Contains(errs, q) {
					leak = append(leak, "error")
				}
				if strings.Contains(o.dump, q) && o.panic == "" {
					leak = append(leak, "result")
				}
				if strings.Contains(logged, q) && !r.sc.Cfg.Debug {
					leak = append(leak, "log")
				}
				if strings.Contains(o.panic, q) {
					leak = append(leak, "panic")
				}
			}
		}
		// for which replies does the error text contain code and text of every error acknowledgement?
		errhas := r.errHas(errs)
		e := M{"ev": "ret", "op": c.Op, "ok": o.err == nil && o.panic == "" && !timeout, "err": errs, "panic": o.panic, "timeout": timeout,
			"res": o.res, "snap": r.safeSnapshot(), "leak": leak, "errhas": errhas, "kept": r.lost()}
		if o.panic != "" {
			e["where"] = o.dump
		} else {
			e["where"] = ""
		}
		r.emit(e)
		if timeout {
			break
		}
	}
	if r.settle > 0 {
		time.Sleep(r.settle)
	}
	r.xmu.Lock()
	defer r.xmu.Unlock()
	return r.events
}

// keptRes is something handed to the caller earlier, and what it looked like then.
type keptRes struct {
	prop string
	val  interface{}
	was  string
}

func deep(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func (r *Runner) keep(prop string, v interface{}) {
	r.results = append(r.results, keptRes{prop, v, deep(v)})
}

// lost names the properties whose earlier results have changed.
func (r *Runner) lost() []string {
	out := []string{}
	if r.dead {
		return out
	}
	for i, k := range r.results {
		if now := deep(k.val); now != k.was {
			out = append(out, k.prop)
			r.results[i].was = now
		}
	}
	return out
}

func (r *Runner) errHas(errs string) []int {
	errhas := []int{}
	for i, ri := range r.inCall {
		all := true
		for _, k := range ri.r.Acks {
			if k.Code >= 9000 && (!strings.Contains(errs, strconv.Itoa(k.Code)) || !strings.Contains(errs, k.Text)) {
				all = false
			}
		}
		if all {
			errhas = append(errhas, i+1)
		}
	}
	return errhas
}

func (r *Runner) safeSnapshot() (m []M) {
	defer func() {
		if p := recover(); p != nil {
			m = []M{}
		}
	}()
	return r.snapshot()
}

func firstFrame(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(l, "\t/repo/") {
			l = strings.TrimPrefix(l, "\t/repo/")
			if i := strings.IndexByte(l, ' '); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return ""
}
