package main

// Independent FinTS/HBCI wire codec used by the fake bank. It shares no code with
// the implementation under test: it is part of the oracle.

import (
	"fmt"
	"strconv"
	"strings"
)

// GE is one group element.
type GE struct {
	Text string // unescaped, UTF-8
	Bin  bool
	Raw  []byte // binary payload if Bin
}

// DE is one data element (a list of group elements).
type DE []GE

// Seg is one parsed segment; Els excludes the header.
type Seg struct {
	ID       string
	Pos, Ver int
	Ref      int // -1 if none
	Els      []DE
	Off, Len int
}

func latin1ToUTF8(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

func utf8ToLatin1(s string) []byte {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 0xff {
			r = '?'
		}
		b = append(b, byte(r))
	}
	return b
}

// parseMessage is a strict reader: any deviation from the syntax is an error.
func parseMessage(data []byte) ([]Seg, error) {
	var segs []Seg
	i := 0
	for i < len(data) {
		start := i
		var els []DE
		var de DE
		var cur []byte
		var curBin []byte
		isBin := false
		flush := func() {
			if isBin {
				de = append(de, GE{Bin: true, Raw: curBin})
			} else {
				de = append(de, GE{Text: latin1ToUTF8(cur)})
			}
			cur, curBin, isBin = nil, nil, false
		}
		done := false
		for !done {
			if i >= len(data) {
				return segs, fmt.Errorf("segment at %d not terminated", start)
			}
			c := data[i]
			if isBin && c != '+' && c != ':' && c != '\'' {
				return segs, fmt.Errorf("garbage after binary data at %d", i)
			}
			switch c {
			case '?':
				if i+1 >= len(data) {
					return segs, fmt.Errorf("dangling escape at %d", i)
				}
				n := data[i+1]
				if n != '+' && n != ':' && n != '\'' && n != '?' && n != '@' {
					return segs, fmt.Errorf("bad escape %q at %d", n, i)
				}
				cur = append(cur, n)
				i += 2
			case '+':
				flush()
				els = append(els, de)
				de = nil
				i++
			case ':':
				flush()
				i++
			case '\'':
				flush()
				els = append(els, de)
				de = nil
				i++
				done = true
			case '@':
				if len(cur) != 0 {
					return segs, fmt.Errorf("unescaped @ inside text at %d", i)
				}
				j := i + 1
				for j < len(data) && data[j] >= '0' && data[j] <= '9' {
					j++
				}
				if j >= len(data) || data[j] != '@' || j == i+1 {
					return segs, fmt.Errorf("bad binary length at %d", i)
				}
				n, err := strconv.Atoi(string(data[i+1 : j]))
				if err != nil || n < 0 || j+1+n > len(data) {
					return segs, fmt.Errorf("binary length out of range at %d", i)
				}
				curBin = data[j+1 : j+1+n]
				isBin = true
				i = j + 1 + n
			default:
				cur = append(cur, c)
				i++
			}
		}
		h := els[0]
		if len(h) < 3 {
			return segs, fmt.Errorf("segment header too short at %d", start)
		}
		pos, e1 := strconv.Atoi(h[1].Text)
		ver, e2 := strconv.Atoi(h[2].Text)
		if e1 != nil || e2 != nil || h[0].Text == "" {
			return segs, fmt.Errorf("bad segment header at %d", start)
		}
		ref := -1
		if len(h) > 3 {
			ref, _ = strconv.Atoi(h[3].Text)
		}
		segs = append(segs, Seg{ID: h[0].Text, Pos: pos, Ver: ver, Ref: ref, Els: els[1:], Off: start, Len: i - start})
	}
	return segs, nil
}

func (s Seg) at(de, ge int) string {
	if de < len(s.Els) && ge < len(s.Els[de]) {
		g := s.Els[de][ge]
		if g.Bin {
			return "@" + latin1ToUTF8(g.Raw)
		}
		return g.Text
	}
	return ""
}

func (s Seg) texts() [][]string {
	out := make([][]string, len(s.Els))
	for i, de := range s.Els {
		out[i] = make([]string, len(de))
		for j := range de {
			out[i][j] = s.at(i, j)
		}
	}
	return out
}

func find(segs []Seg, id string) *Seg {
	for i := range segs {
		if segs[i].ID == id {
			return &segs[i]
		}
	}
	return nil
}

// esc escapes text for the wire (returns a string of Latin-1 bytes).
func esc(s string) string {
	var b strings.Builder
	for _, c := range utf8ToLatin1(s) {
		switch c {
		case '?', '+', ':', '\'', '@':
			b.WriteByte('?')
		}
		b.WriteByte(c)
	}
	return b.String()
}

func escAll(ss []string) []string {
	r := make([]string, len(ss))
	for i, s := range ss {
		r[i] = esc(s)
	}
	return r
}
