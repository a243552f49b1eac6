package main

// Damage to a reply, as enumerated by the specification (Damage.tla): which unit of the
// reply it hits (a segment, a data element, a group element, a byte), which one, and what
// happens to it.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

type Dmg struct {
	Part string `json:"part"` // inner: the segments inside the envelope | outer: the envelope | body: the transmitted base64 text
	Unit string `json:"unit"` // seg | el | ge | byte
	At   int    `json:"at"`
	Act  string `json:"act"` // del | dup | swap | set | ins | cut | flip
	Arg  string `json:"arg"`
}

// pieces splits s at sep (an unescaped separator outside binary data); every piece keeps its
// text without the separator. It does not complain about anything.
func pieces(s string, sep string) []string {
	var out []string
	start := 0
	fresh := true
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '?' && i+1 < len(s):
			i += 2
			fresh = false
		case c == '@' && fresh:
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j < len(s) && s[j] == '@' && j > i+1 {
				n, err := strconv.Atoi(s[i+1 : j])
				if err == nil && j+1+n <= len(s) {
					i = j + 1 + n
					fresh = false
					continue
				}
			}
			i++
			fresh = false
		case strings.IndexByte(sep, c) >= 0:
			out = append(out, s[start:i])
			start = i + 1
			i++
			fresh = true
		default:
			fresh = c == '+' || c == ':' || c == '\''
			i++
		}
	}
	return append(out, s[start:])
}

// unit is one damageable unit: its position in the text and its end (without the separator)
type unit struct{ a, b int }

func unitsOf(s string, kind string) []unit {
	var us []unit
	if kind == "byte" {
		for i := range []byte(s) {
			us = append(us, unit{i, i + 1})
		}
		return us
	}
	if kind == "grp" { // the elements of the first segment of each kind, without the header
		p, seen := 0, map[string]bool{}
		for _, seg := range pieces(s, "'") {
			els := pieces(seg, "+")
			h := strings.Split(els[0], ":")
			id := h[0]
			if len(h) > 2 {
				id += ":" + h[2]
			}
			q := p
			for i, el := range els {
				if i > 0 && !seen[id] {
					us = append(us, unit{q, q + len(el)})
				}
				q += len(el) + 1
			}
			seen[id] = true
			p += len(seg) + 1
		}
		return us
	}
	sep := map[string]string{"seg": "'", "el": "'+", "ge": "'+:"}[kind]
	p := 0
	ps := pieces(s, sep)
	for i, x := range ps {
		if i == len(ps)-1 && x == "" {
			break
		}
		us = append(us, unit{p, p + len(x)})
		p += len(x) + 1
	}
	return us
}

// damage applies d to s; false: there is no such unit.
func damage(s string, d Dmg) (string, bool) {
	us := unitsOf(s, d.Unit)
	at := d.At
	if at >= 10000 && len(us) > 0 { // some unit, whatever their number
		at = (at - 10000) % len(us)
	}
	if at < 0 || at >= len(us) {
		return s, false
	}
	u := us[at]
	end := u.b // end including the separator
	if d.Unit != "byte" && end < len(s) {
		end++
	}
	switch d.Act {
	case "del":
		return s[:u.a] + s[end:], true
	case "dup":
		return s[:end] + s[u.a:end] + s[end:], true
	case "swap":
		if at+1 >= len(us) {
			return s, false
		}
		v := us[at+1]
		return s[:u.a] + s[v.a:v.b] + s[u.b:v.a] + s[u.a:u.b] + s[v.b:], true
	case "set":
		return s[:u.a] + d.Arg + s[u.b:], true
	case "ins":
		return s[:u.a] + d.Arg + s[u.a:], true
	case "app":
		return s[:u.b] + d.Arg + s[u.b:], true
	case "cut":
		return s[:u.a], true
	case "pop", "half", "rep": // fewer or more parts than the element has
		ps := pieces(s[u.a:u.b], ":")
		if len(ps) < 2 {
			return s, false
		}
		switch d.Act {
		case "pop":
			ps = ps[:len(ps)-1]
		case "half":
			ps = ps[:len(ps)/2]
		default:
			ps = append(ps, ps...)
		}
		return s[:u.a] + strings.Join(ps, ":") + s[u.b:], true
	case "cutkeep": // what follows the unit inside its segment is missing
		e := strings.IndexByte(s[u.b:], '\'')
		if e < 0 {
			return s[:u.b], true
		}
		return s[:u.b] + s[u.b+e:], true
	case "id": // another segment identifier in front of the same content
		if i := strings.IndexByte(s[u.a:u.b], ':'); i > 0 {
			return s[:u.a] + d.Arg + s[u.a+i:], true
		}
		return s, false
	case "ver":
		h := pieces(s[u.a:u.b], "+")
		f := strings.Split(h[0], ":")
		if len(f) < 3 {
			return s, false
		}
		f[2] = d.Arg
		h[0] = strings.Join(f, ":")
		return s[:u.a] + strings.Join(h, "+") + s[u.b:], true
	case "flip":
		n, _ := strconv.Atoi(d.Arg)
		b := []byte(s)
		b[u.a] ^= byte(n)
		return string(b), true
	}
	fatal("unknown damage %+v", d)
	return s, false
}

// buildDamaged builds the reply and applies its damage; the result is what travels (base64).
func (r *Reply) buildDamaged(dlg string, num, ver int) (string, bool) {
	segs, next := r.segments(2)
	inner := strings.Join(segs, "")
	hit := true
	apply := func(s, part string) string {
		for _, d := range r.Dmg {
			if d.Part == part {
				var ok bool
				s, ok = damage(s, d)
				hit = hit && ok
			}
		}
		return s
	}
	inner = apply(inner, "inner")
	msg := string(frame(inner, next, dlg, num, ver, r.Plain))
	out := apply(msg, "outer")
	body := apply(string(b64(out)), "body")
	return body, hit
}

// b64 is a base64 encoder of its own.
func b64(s string) []byte {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var b bytes.Buffer
	for i := 0; i < len(s); i += 3 {
		var x uint32
		n := 0
		for k := 0; k < 3; k++ {
			x <<= 8
			if i+k < len(s) {
				x |= uint32(s[i+k])
				n++
			}
		}
		for k := 0; k < 4; k++ {
			if k <= n {
				b.WriteByte(al[(x>>uint(18-6*k))&63])
			} else {
				b.WriteByte('=')
			}
		}
	}
	return b.Bytes()
}

func (d Dmg) String() string {
	return fmt.Sprintf("%s %s %d %s %q", d.Part, d.Unit, d.At, d.Act, d.Arg)
}
