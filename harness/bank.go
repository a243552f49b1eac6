package main

// The scripted fake bank: builds replies from descriptors that come from the TLA+
// specification. Shares no code with the implementation under test.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

type Ack struct {
	Lvl    string   `json:"lvl"` // msg | seg
	Code   int      `json:"code"`
	Text   string   `json:"text"`
	Params []string `json:"params"`
	Ref    string   `json:"ref"`
	Seg    int      `json:"seg"`
}

type SegV struct {
	ID  string `json:"id"`
	Ver int    `json:"ver"`
}

type PinReq struct {
	ID  string `json:"id"`
	Tan bool   `json:"tan"`
}

type Bpd struct {
	Ver     int      `json:"ver"`
	SV      int      `json:"sv"`
	Bank    string   `json:"bank"`
	Country int      `json:"country"`
	Name    string   `json:"name"`
	MaxTx   int      `json:"maxtx"`
	MaxSize int      `json:"maxsize"`
	MinT    int      `json:"mint"`
	MaxT    int      `json:"maxt"`
	Segs    []SegV   `json:"segs"`
	Pins    []PinReq `json:"pins"`
}

type Upd struct {
	Ver   int    `json:"ver"`
	SV    int    `json:"sv"`
	User  string `json:"user"`
	Usage int    `json:"usage"`
	Name  string `json:"name"`
	Ext   string `json:"ext"`
}

type Limit struct {
	Kind string `json:"kind"`
	Amt  string `json:"amt"` // decimal with a comma on the wire, dot here
	Cur  string `json:"cur"`
	Days int    `json:"days"`
}

type BTx struct {
	ID    string  `json:"id"`
	Sigs  int     `json:"sigs"`
	Limit []Limit `json:"limit"`
}

type Acct struct {
	SV      int     `json:"sv"`
	ID      string  `json:"id"`
	Sub     string  `json:"sub"`
	Country int     `json:"country"`
	Bank    string  `json:"bank"`
	User    string  `json:"user"`
	Cur     string  `json:"cur"`
	N1      string  `json:"n1"`
	N2      string  `json:"n2"`
	Prod    string  `json:"prod"`
	Limit   []Limit `json:"limit"`
	Txs     []BTx   `json:"txs"`
}

type Ann struct {
	Subj string `json:"subj"`
	Body string `json:"body"`
}

// Reply is one bank reply.
type Reply struct {
	K     string   `json:"k"`
	Dlg   string   `json:"dlg"`
	Acks  []Ack    `json:"acks"`
	Bpd   []Bpd    `json:"bpd"`
	Upd   []Upd    `json:"upd"`
	Accts []Acct   `json:"accts"`
	SysID []string `json:"sysid"`
	Tans  []string `json:"tans"`
	Ann   []Ann    `json:"ann"`
	Tx    []TxSeg  `json:"tx"`
	Bals  []BalSeg `json:"bals"`
	Stats []Stat   `json:"stats"`
	Kif   []string `json:"kif"`
	Unk   []string `json:"unk"`
	Ins   []Ins    `json:"ins"`
	Perm  int      `json:"perm"`
	Plain bool     `json:"plain"`
	Raw   string   `json:"raw"`
	Dmg   []Dmg    `json:"dmg"`
}

// Ins is a segment put into the reply at a position of the finished list; "#" stands for its number.
type Ins struct {
	At  int    `json:"at"` // 10000 and more: modulo the number of positions
	Seg string `json:"seg"`
}

// TxSeg is one HIKAZ segment: its transactions are given by their identifying amounts.
type TxSeg struct {
	SV  int      `json:"sv"`
	IDs []string `json:"ids"`
}

// Amt is a signed amount.
type Amt struct {
	CD  string `json:"cd"` // C | D
	Val string `json:"val"`
	Cur string `json:"cur"`
}

// BalV is a balance with date and optional time.
type BalV struct {
	Amt
	Date string   `json:"date"`
	Time []string `json:"time"`
}

type BalSeg struct {
	SV       int      `json:"sv"`
	IBAN     string   `json:"iban"`
	BIC      string   `json:"bic"`
	Acct     string   `json:"acct"`
	Sub      string   `json:"sub"`
	Country  int      `json:"country"`
	Bank     string   `json:"bank"`
	Prod     string   `json:"prod"`
	Cur      string   `json:"cur"`
	Booked   BalV     `json:"booked"`
	Earmark  []BalV   `json:"earmark"`
	Credit   []Amt    `json:"credit"`
	Avail    []Amt    `json:"avail"`
	Used     []Amt    `json:"used"`
	BDate    []string `json:"bdate"`
	BTime    []string `json:"btime"`
	Due      []string `json:"due"`
	Seizable []Amt    `json:"seizable"`
}

type Stat struct {
	SV     int      `json:"sv"`
	Dlg    string   `json:"dlg"`
	Num    int      `json:"num"`
	Seg    []int    `json:"seg"`
	Date   string   `json:"date"` // YYYYMMDD
	Time   string   `json:"time"` // HHMMSS
	Code   int      `json:"code"`
	Ref    string   `json:"ref"`
	Text   string   `json:"text"`
	Params []string `json:"params"`
}

func wireAmt(v string) string {
	if !strings.Contains(v, ".") {
		return v + ","
	}
	return strings.Replace(v, ".", ",", 1)
}

func amtWire(a Amt) string { return wireAmt(a.Val) + ":" + esc(a.Cur) }

func balWire(b BalV) string {
	s := b.CD + ":" + wireAmt(b.Val) + ":" + esc(b.Cur) + ":" + b.Date
	if len(b.Time) > 0 {
		s += ":" + b.Time[0]
	}
	return s
}

func limitWire(l Limit) string {
	s := l.Kind + ":" + wireAmt(l.Amt) + ":" + esc(l.Cur)
	if l.Days > 0 || l.Kind == "Z" {
		s += ":" + strconv.Itoa(l.Days)
	}
	return s
}

func ackWire(a Ack) string {
	s := fmt.Sprintf("%04d:%s:%s", a.Code, esc(a.Ref), esc(a.Text))
	for _, p := range a.Params {
		s += ":" + esc(p)
	}
	return s
}

func trimEnd(els []string) string {
	for len(els) > 0 && els[len(els)-1] == "" {
		els = els[:len(els)-1]
	}
	return strings.Join(els, "+")
}

// mt940For builds one minimal statement holding one credit per id.
func mt940For(ids []string) string {
	var b strings.Builder
	b.WriteString("\r\n:20:STARTUMSE\r\n:25:10000000/12345678\r\n:28C:00000/001\r\n:60F:C150101EUR0,00\r\n")
	for _, id := range ids {
		switch id {
		case "!date":
			b.WriteString(":61:1513010101C1,00NMSCNONREF\r\n")
			continue
		case "!amount":
			b.WriteString(":61:1501010101C1x,00NMSCNONREF\r\n")
			continue
		case "!detail":
			b.WriteString(":61:1501010101C1,00NMSCNONREF\r\n:86:x\r\n")
			continue
		case "!acct", "!close", "!garbage", "!rest":
			continue
		}
		fmt.Fprintf(&b, ":61:1501010101C%s,00NMSCNONREF\r\n:86:166?00UEBERWEISUNG?20P%s\r\n", id, id)
	}
	b.WriteString(":62F:C150102EUR0,00\r\n-")
	s := b.String()
	// statements that cannot be read
	for _, id := range ids {
		switch id {
		case "!acct":
			s = strings.Replace(s, ":25:10000000/12345678\r\n", "", 1)
		case "!close":
			s = strings.Replace(s, ":62F:C150102EUR0,00\r\n", "", 1)
		case "!garbage":
			s = "garbage" + s
		case "!rest":
			s = s[:len(s)/2]
		}
	}
	return s
}

type segBuilder struct {
	segs []string // bodies with %d placeholders replaced later: "ID:%POS%:ver...."
}

func (s *segBuilder) add(id string, ver, ref int, body string) {
	h := id + ":\x00:" + strconv.Itoa(ver)
	if ref > 0 {
		h += ":" + strconv.Itoa(ref)
	}
	if body != "" {
		h += "+" + body
	}
	s.segs = append(s.segs, h+"'")
}

// permute reorders n elements deterministically: 0 identity, 1 reversed, else rotated/LCG.
func permute(in []string, p int) []string {
	if p == 0 || len(in) < 2 {
		return in
	}
	out := append([]string(nil), in...)
	if p == 1 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	x := uint32(p)*2654435761 + 12345
	for i := len(out) - 1; i > 0; i-- {
		x = x*1664525 + 1013904223
		j := int(x>>8) % (i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func jn(b bool) string {
	if b {
		return "J"
	}
	return "N"
}

// segments returns the inner segments of the reply in order (positions filled in), starting at pos.
func (r *Reply) segments(pos int) ([]string, int) {
	sb := &segBuilder{}
	msg := []string{}
	bySeg := map[int][]string{}
	var order []int
	for _, a := range r.Acks {
		if a.Lvl == "msg" {
			msg = append(msg, ackWire(a))
		} else {
			if _, ok := bySeg[a.Seg]; !ok {
				order = append(order, a.Seg)
			}
			bySeg[a.Seg] = append(bySeg[a.Seg], ackWire(a))
		}
	}
	if len(msg) > 0 {
		sb.add("HIRMG", 2, 0, strings.Join(msg, "+"))
	}
	for _, sg := range order {
		sb.add("HIRMS", 2, sg, strings.Join(bySeg[sg], "+"))
	}
	nAck := len(sb.segs)
	for _, s := range r.SysID {
		sb.add("HISYN", 4, 5, esc(s))
	}
	for _, b := range r.Bpd {
		els := []string{strconv.Itoa(b.Ver), fmt.Sprintf("%03d", b.Country) + ":" + esc(b.Bank), esc(b.Name), strconv.Itoa(b.MaxTx), "1:2", "201:210:220:300", strconv.Itoa(b.MaxSize)}
		if b.SV == 3 {
			els = append(els, strconv.Itoa(b.MinT), strconv.Itoa(b.MaxT))
		}
		sb.add("HIBPA", b.SV, 4, strings.Join(els, "+"))
		for _, s := range b.Segs {
			sb.add(s.ID, s.Ver, 4, "1+1+0")
		}
		if len(b.Pins) > 0 {
			body := "1+1+0+5:38:6:USERID:CUSTID"
			for _, p := range b.Pins {
				body += ":" + p.ID + ":" + jn(p.Tan)
			}
			sb.add("HIPINS", 1, 4, body)
		}
	}
	if len(r.Tans) > 0 {
		body := "1+1+0+J:N:0"
		for i, fn := range r.Tans {
			body += fmt.Sprintf(":%s:2:TEC%d:HHD:1.4:Verfahren %s:6:1:Text:3:J:2:N:0:0:N:N:00:0:N:1", fn, i, fn)
		}
		sb.add("HITANS", 6, 4, body)
	}
	for _, u := range r.Upd {
		els := []string{esc(u.User), strconv.Itoa(u.Ver), strconv.Itoa(u.Usage)}
		if u.SV >= 3 {
			els = append(els, esc(u.Name), esc(u.Ext))
		}
		sb.add("HIUPA", u.SV, 4, trimEnd(els))
	}
	var accts []string
	for _, a := range r.Accts {
		t := &segBuilder{}
		conn := esc(a.ID) + ":" + esc(a.Sub) + ":" + strconv.Itoa(a.Country) + ":" + esc(a.Bank)
		lim := ""
		if len(a.Limit) > 0 {
			lim = limitWire(a.Limit[0])
		}
		els := []string{conn}
		if a.SV >= 6 {
			els = append(els, "DE00TESTIBAN")
		}
		els = append(els, esc(a.User))
		if a.SV >= 5 {
			els = append(els, "1")
		}
		els = append(els, a.Cur, esc(a.N1), esc(a.N2), esc(a.Prod), lim)
		for _, x := range a.Txs {
			e := x.ID + ":" + strconv.Itoa(x.Sigs)
			if len(x.Limit) > 0 {
				e += ":" + limitWire(x.Limit[0])
			}
			els = append(els, e)
		}
		t.add("HIUPD", a.SV, 4, trimEnd(els))
		accts = append(accts, t.segs...)
	}
	for _, a := range r.Ann {
		sb.add("HIKIM", 2, 0, esc(a.Subj)+"+"+esc(a.Body))
	}
	var data []string
	addData := func(id string, ver, ref int, body string) {
		t := &segBuilder{}
		t.add(id, ver, ref, body)
		data = append(data, t.segs...)
	}
	for _, t := range r.Tx {
		mt := ""
		if len(t.IDs) > 0 {
			mt = mt940For(t.IDs)
		} else {
			mt = "\r\n:20:STARTUMSE\r\n:25:10000000/12345678\r\n:28C:00000/001\r\n:60F:C150101EUR0,00\r\n:62F:C150102EUR0,00\r\n-"
		}
		addData("HIKAZ", t.SV, 3, fmt.Sprintf("@%d@%s", len(mt), mt))
	}
	for _, b := range r.Bals {
		addData("HISAL", b.SV, 3, balBody(b))
	}
	for _, s := range r.Stats {
		els := []string{}
		if s.Dlg != "" {
			els = append(els, esc(s.Dlg)+":"+strconv.Itoa(s.Num))
		} else {
			els = append(els, "")
		}
		if len(s.Seg) > 0 {
			els = append(els, strconv.Itoa(s.Seg[0]))
		} else {
			els = append(els, "")
		}
		els = append(els, s.Date, s.Time, ackWire(Ack{Code: s.Code, Ref: s.Ref, Text: s.Text, Params: s.Params}))
		addData("HIPRO", s.SV, 3, strings.Join(els, "+"))
	}
	for _, k := range r.Kif {
		addData("HIKIF", 4, 3, esc(k))
	}

	// Independent groups may appear in any order: the acknowledgements, the single
	// segments, the (ordered) account list, the (ordered) payload list.
	head := sb.segs[:nAck]
	singles := append([]string(nil), sb.segs[nAck:]...)
	groups := []string{strings.Join(head, "\x01")}
	groups = append(groups, singles...)
	groups = append(groups, strings.Join(accts, "\x01"), strings.Join(data, "\x01"))
	for _, u := range r.Unk {
		groups = append(groups, u+"'")
	}
	if len(r.Unk) > 0 && r.Perm == 0 {
		// spread the unknown segments between the known ones
		n := len(r.Unk)
		known := groups[:len(groups)-n]
		unk := groups[len(groups)-n:]
		var mixed []string
		for i, g := range known {
			if len(unk) > 0 && i%2 == 0 {
				mixed = append(mixed, unk[0])
				unk = unk[1:]
			}
			mixed = append(mixed, g)
		}
		groups = append(mixed, unk...)
	}
	groups = permute(groups, r.Perm)
	var list []string
	for _, g := range groups {
		for _, s := range strings.Split(g, "\x01") {
			if s != "" {
				list = append(list, s)
			}
		}
	}
	for _, x := range r.Ins {
		at := x.At
		if at >= 10000 {
			at = (at - 10000) % (len(list) + 1)
		}
		if at > len(list) {
			at = len(list)
		}
		list = append(list[:at:at], append([]string{strings.Replace(x.Seg, "#", "\x00", 1) + "'"}, list[at:]...)...)
	}
	for k, s := range list {
		if i := strings.IndexByte(s, 0); i >= 0 {
			list[k] = s[:i] + strconv.Itoa(pos) + s[i+1:]
		}
		pos++
	}
	return list, pos
}

func balBody(b BalSeg) string {
	var conn string
	if b.SV >= 7 {
		conn = esc(b.IBAN) + ":" + esc(b.BIC) + ":" + esc(b.Acct) + ":" + esc(b.Sub) + ":" + strconv.Itoa(b.Country) + ":" + esc(b.Bank)
	} else {
		conn = esc(b.Acct) + ":" + esc(b.Sub) + ":" + strconv.Itoa(b.Country) + ":" + esc(b.Bank)
	}
	opt := func(a []Amt) string {
		if len(a) == 0 {
			return ""
		}
		return amtWire(a[0])
	}
	ear := ""
	if len(b.Earmark) > 0 {
		ear = balWire(b.Earmark[0])
	}
	els := []string{conn, esc(b.Prod), esc(b.Cur), balWire(b.Booked), ear, opt(b.Credit), opt(b.Avail), opt(b.Used)}
	return trimEnd(append(els, balTail(b)...))
}

func balTail(b BalSeg) []string {
	o := func(s []string) string {
		if len(s) == 0 {
			return ""
		}
		return s[0]
	}
	r := []string{o(b.BDate), o(b.BTime), o(b.Due)}
	if b.SV >= 8 {
		s := ""
		if len(b.Seizable) > 0 {
			s = amtWire(b.Seizable[0])
		}
		r = append(r, s)
	}
	return r
}

// build returns the raw reply bytes (before base64).
func (r *Reply) build(dlg string, num int, ver int) []byte {
	segs, next := r.segments(2)
	inner := strings.Join(segs, "")
	return frame(inner, next, dlg, num, ver, r.Plain)
}

// frame wraps inner segments (Latin-1 bytes) into a message.
func frame(inner string, next int, dlg string, num, ver int, plain bool) []byte {
	body := ""
	if plain {
		body = inner
	} else {
		body = "HNVSK:998:3+PIN:1+998+1+2::0+1:20150101:120000+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:10000000:bank:V:0:0+0'" +
			fmt.Sprintf("HNVSD:999:1+@%d@%s'", len(inner), inner)
	}
	trail := fmt.Sprintf("HNHBS:%d:1+%d'", next, num)
	head := func(size int) string {
		return fmt.Sprintf("HNHBK:1:3+%012d+%d+%s+%d+%s:%d'", size, ver, esc(dlg), num, esc(dlg), num)
	}
	size := len(head(0)) + len(body) + len(trail)
	return []byte(head(size) + body + trail)
}

func mustJSON(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
