package main

import (
	"bytes"
	"encoding/json"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
)

func init() {
	funcOps["split"] = wireSplit
	funcOps["text"] = wireText
	funcOps["binary"] = wireBinary
}

func (t text) bytes() []byte { return []byte(t.String()) }

// run is how codes from 1000 on are written: that many times x
const run = 1000

// long is t with its runs
func (t text) long() []byte {
	var b []byte
	for _, c := range t {
		if c > run {
			b = append(b, bytes.Repeat([]byte("x"), c-run)...)
		} else {
			b = append(b, byte(c))
		}
	}
	return b
}

// short is b with its runs abbreviated
func short(b []byte) []int {
	r := []int{}
	for i := 0; i < len(b); {
		n := i
		for n < len(b) && b[n] == 'x' {
			n++
		}
		if n-i >= run {
			r = append(r, run+n-i)
			i = n
			continue
		}
		r = append(r, int(b[i]))
		i++
	}
	return r
}

func shorts(l [][]byte) [][]int {
	r := make([][]int, len(l))
	for i, b := range l {
		r[i] = short(b)
	}
	return r
}

// latin1 is the text whose ISO 8859-1 codes are t
func (t text) latin1() string {
	r := make([]rune, len(t))
	for i, c := range t {
		r[i] = rune(c)
	}
	return string(r)
}

func runes(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func codesB(b []byte) []int { return codes(string(b)) }
func codesBB(l [][]byte) [][]int {
	r := make([][]int, len(l))
	for i, b := range l {
		r[i] = codesB(b)
	}
	return r
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "error"
}

func wireSplit(line json.RawMessage, out M) {
	var in struct {
		Msg text
		Ids []text
	}
	json.Unmarshal(line, &in)
	out["err"], out["segs"], out["again"], out["find"], out["els"] = "", [][]int{}, [][]int{}, []M{}, []M{}
	msg := in.Msg.long()
	x := message.NewSegmentExtractor(msg)
	segs, err := x.Extract()
	out["err"] = errStr(err)
	if err != nil {
		return
	}
	out["segs"] = shorts(segs)
	var find []M
	for _, id := range in.Ids {
		find = append(find, M{"first": short(x.FindSegment(id.String())), "all": shorts(x.FindSegments(id.String()))})
	}
	out["find"] = find
	again, err := x.Extract()
	if err == nil {
		out["again"] = shorts(again)
	}
	if l := shorts(x.Segments()); len(l) != len(again) {
		out["again"] = l
	}
	var els []M
	for _, s := range segs {
		parts, err := segment.ExtractElements(s)
		groups := []M{}
		for _, p := range parts {
			g, err := element.ExtractElements(p)
			groups = append(groups, M{"err": errStr(err), "parts": shorts(g)})
		}
		els = append(els, M{"err": errStr(err), "parts": shorts(parts), "groups": groups})
	}
	out["els"] = els
	// the bytes handed over belong to the caller
	if !bytes.Equal(msg, in.Msg.long()) {
		out["segs"] = [][]int{short(msg)}
	}
}

func wireText(line json.RawMessage, out M) {
	var in struct{ V text }
	json.Unmarshal(line, &in)
	v := in.V.latin1()
	an, tx, id := element.NewAlphaNumeric(v, 255), element.NewText(v, 255), element.NewIdentification(v)
	a, e1 := an.MarshalHBCI()
	t, e2 := tx.MarshalHBCI()
	i, e3 := id.MarshalHBCI()
	out["out"], out["outtext"], out["outid"] = codesB(a), codesB(t), codesB(i)
	var ran element.AlphaNumericDataElement
	var rtx element.TextDataElement
	var rid element.IdentificationDataElement
	e4, e5, e6 := ran.UnmarshalHBCI(a), rtx.UnmarshalHBCI(t), rid.UnmarshalHBCI(i)
	out["err"] = ""
	for _, e := range []error{e1, e2, e3, e4, e5, e6} {
		if e != nil {
			out["err"] = errStr(e)
		}
	}
	out["back"], out["backtext"], out["backid"] = runes(ran.Val()), runes(rtx.Val()), runes(rid.Val())
}

func wireBinary(line json.RawMessage, out M) {
	var in struct{ V text }
	json.Unmarshal(line, &in)
	b, err := element.NewBinary(in.V.long(), 200000).MarshalHBCI()
	out["out"], out["err"] = short(b), errStr(err)
	var r element.BinaryDataElement
	if e := r.UnmarshalHBCI(b); e != nil {
		out["err"] = errStr(e)
		out["back"] = []int{}
	} else {
		out["back"] = short(r.Val())
	}
	parts, err := segment.ExtractElements([]byte(string(b) + "+A'"))
	out["errsp"], out["parts"] = errStr(err), shorts(parts)
}
