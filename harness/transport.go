package main

// The layers between the client and the bank's HTTP server.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	hbci "github.com/mitch000001/go-hbci"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	middleware "github.com/mitch000001/go-hbci/transport/middleware"
	"golang.org/x/text/encoding/charmap"
)

func init() { funcOps["wrap"], funcOps["bulk"] = wrap, bulk }

// loop is the HTTP server of this process; handle is the current case's.
type loop struct {
	addr   string
	mu     sync.Mutex
	handle http.HandlerFunc
}

var server *loop

func theServer() *loop {
	if server != nil {
		return server
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal("listen: %v", err)
	}
	server = &loop{addr: l.Addr().String()}
	s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		server.mu.Lock()
		h := server.handle
		server.mu.Unlock()
		h(w, r)
	}), ErrorLog: log.New(io.Discard, "", 0)}
	go s.Serve(l)
	return server
}

func (l *loop) set(h http.HandlerFunc) {
	l.mu.Lock()
	l.handle = h
	l.mu.Unlock()
}

// chunked hands out its bytes k at a time, and an error instead of the rest after limit bytes
type chunked struct {
	b     []byte
	k     int
	limit int
	n     int
}

func (p *chunked) Read(q []byte) (int, error) {
	if p.limit >= 0 && p.n >= p.limit {
		return 0, errors.New("the message cannot be read")
	}
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	m := len(p.b)
	if p.k > 0 && p.k < m {
		m = p.k
	}
	if p.limit >= 0 && m > p.limit-p.n {
		m = p.limit - p.n
	}
	m = copy(q, p.b[:m])
	p.b = p.b[m:]
	p.n += m
	if len(p.b) == 0 && p.k%2 == 1 && p.limit < 0 {
		return m, io.EOF // the end together with the last bytes
	}
	return m, nil
}

// breakOff answers by hand and closes the connection
func breakOff(w http.ResponseWriter, raw string, reset bool) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		fatal("hijack: %v", err)
	}
	if raw != "" {
		io.WriteString(c, raw)
	}
	if t, ok := c.(*net.TCPConn); ok && reset {
		t.SetLinger(0)
	}
	c.Close()
}

func answer(w http.ResponseWriter, fault string, status int, wire []byte, chunk int) {
	switch fault {
	case "close":
		breakOff(w, "", false)
	case "reset":
		breakOff(w, "", true)
	case "cut":
		breakOff(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", len(wire)+8, wire), false)
	case "cutchunk":
		body := ""
		if len(wire) > 0 {
			body = fmt.Sprintf("%x\r\n%s\r\n", len(wire), wire)
		}
		breakOff(w, "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n"+body, false)
	default:
		w.Header().Set("Content-Type", "text/plain")
		w.WriteHeader(status)
		for chunk > 0 && len(wire) > chunk*7 {
			w.Write(wire[:chunk*7])
			wire = wire[chunk*7:]
			w.(http.Flusher).Flush()
		}
		w.Write(wire)
	}
}

type wrapIn struct {
	Chain  string          `json:"chain"`
	Body   json.RawMessage `json:"body"`
	Wire   json.RawMessage `json:"wire"`
	Status int             `json:"status"`
	Fault  string          `json:"fault"`
	RChunk int             `json:"rchunk"`
	Width  int             `json:"width"`
}

func (in *wrapIn) read(raw json.RawMessage) {
	if err := json.Unmarshal(raw, in); err != nil {
		fatal("wrap: %v", err)
	}
}

func wrap(raw json.RawMessage, out M) {
	var in wrapIn
	in.read(raw)
	var body, wire text
	json.Unmarshal(in.Body, &body)
	json.Unmarshal(in.Wire, &wire)
	exchange(in, body.bytes(), wire.bytes(), 0, out, func(b []byte, _ int) interface{} { return codesB(b) })
}

// piece is a group of bytes that is repeated
type piece struct {
	G text `json:"g"`
	N int  `json:"n"`
}

func unpack(raw json.RawMessage) []byte {
	var l []piece
	if err := json.Unmarshal(raw, &l); err != nil {
		fatal("pieces: %v", err)
	}
	var b []byte
	for _, p := range l {
		b = append(b, bytes.Repeat(p.G.bytes(), p.N)...)
	}
	return b
}

func pack(b []byte, width int) interface{} {
	l := []piece{}
	for len(b) > 0 {
		k := width
		if k > len(b) {
			k = len(b)
		}
		g := text(codesB(b[:k]))
		if n := len(l); n > 0 && l[n-1].G.String() == g.String() {
			l[n-1].N++
		} else {
			l = append(l, piece{G: g, N: 1})
		}
		b = b[k:]
	}
	return l
}

// bulk is wrap for long bodies, written as groups of bytes and how often each is repeated
func bulk(raw json.RawMessage, out M) {
	var in wrapIn
	in.read(raw)
	exchange(in, unpack(in.Body), unpack(in.Wire), in.Width, out, pack)
}

func exchange(in wrapIn, body, wire []byte, width int, out M, show func(b []byte, width int) interface{}) {
	s := theServer()
	var mu sync.Mutex
	served := []M{}
	s.set(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		served = append(served, M{"method": r.Method, "path": r.RequestURI, "ctype": r.Header.Get("Content-Type"), "body": show(b, 4)})
		mu.Unlock()
		answer(w, in.Fault, in.Status, wire, in.RChunk)
	})
	key := domain.NewPinKey("geheimPIN7", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "10000000"}, "benutzer1", domain.KeyTypeEncryption))
	crypto := message.NewPinTanCryptoProvider(key, "0")
	logged := log.New(io.Discard, "", 0)
	b64 := middleware.Base64Encoding(base64.StdEncoding)
	utf := middleware.UTF8Encoding(charmap.ISO8859_1)
	var t transport.Transport
	switch in.Chain {
	case "https":
		t = b64(https.New())
	case "client":
		t = b64(https.NewNonDefault(&http.Client{Timeout: 20 * time.Second}))
	case "own":
		t = https.NewBase64()
	case "log":
		t = middleware.Logging(logged, crypto)(b64(https.New()))
	case "lognil":
		t = middleware.Logging(nil, crypto)(b64(https.New()))
	case "utf":
		t = utf(b64(https.New()))
	case "utflog":
		t = middleware.Logging(logged, crypto)(utf(b64(https.New())))
	case "deep":
		t = middleware.Logging(logged, crypto)(utf(middleware.Logging(logged, crypto)(b64(https.New()))))
	default:
		fatal("chain %q", in.Chain)
	}
	limit := -1
	if in.Fault == "reqerr" {
		limit = len(body) / 2
	}
	const path = "/fints/a?b=c&d=%20"
	out["path"], out["err"], out["got"], out["served"] = path, "", show(nil, 0), served
	res, err := t.Do(&transport.Request{URL: "http://" + s.addr + path, Body: io.NopCloser(&chunked{b: body, k: in.RChunk, limit: limit})})
	if err == nil {
		var b []byte
		b, err = io.ReadAll(res.Body)
		res.Body.Close()
		out["got"] = show(b, width)
	}
	if err != nil {
		out["err"] = err.Error()
	}
	mu.Lock()
	out["served"] = served
	mu.Unlock()
}

// ------------------------------------------------------------------ whole conversations over HTTP

// overHTTP lets the client use its default transport; the bank is reached through the HTTP server.
func (r *Runner) overHTTP(s *loop) {
	r.viaHTTP = true
	var mu sync.Mutex
	s.set(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		msg, _ := base64.StdEncoding.DecodeString(string(b))
		mu.Lock()
		r.posts = append(r.posts, M{"method": q.Method, "ctype": q.Header.Get("Content-Type"), "msg": codesB(msg), "body": codesB(b)})
		mu.Unlock()
		res, err := r.exchange(&transport.Request{URL: "http://" + q.Host + q.RequestURI, Body: io.NopCloser(bytes.NewReader(b))})
		if err != nil {
			breakOff(w, "", len(r.posts)%2 == 0)
			return
		}
		wire, rerr := io.ReadAll(res.Body)
		switch {
		case rerr != nil:
			answer(w, []string{"cut", "cutchunk"}[len(r.posts)%2], 200, wire, 0)
		case bytes.HasPrefix(wire, []byte("<html>")):
			answer(w, "", []int{400, 403, 404, 500, 502, 503}[len(r.posts)%6], wire, 0)
		default:
			answer(w, "", 200, wire, len(r.posts)%3)
		}
	})
}

// runHTTP executes every scenario over a custom transport and over HTTP, with the same URL.
func runHTTP(in, out string, debug bool) {
	o := newOut(out)
	defer o.close()
	s := theServer()
	readLines(in, func(line []byte) {
		res := M{}
		for _, via := range []string{"direct", "http"} {
			var sc Scenario
			if err := json.Unmarshal(line, &sc); err != nil {
				fatal("scenario: %v: %s", err, line)
			}
			sc.Cfg.URL = "http://" + s.addr + "/fints/a?b=c&d=%20"
			sc.Cfg.Debug = debug
			hbci.SetDebugMode(debug)
			r := &Runner{sc: &sc, dlgPrefix: sc.Pre}
			if via == "http" {
				r.overHTTP(s)
			}
			ev := r.run()
			for _, e := range ev {
				if u, ok := e["url"].(string); ok {
					e["url"] = strings.Replace(u, s.addr, "bank.example", 1) // the port differs between processes
				}
			}
			posts := r.posts
			if posts == nil {
				posts = []M{}
			}
			res[via] = M{"id": sc.ID, "cfg": sc.Cfg, "events": ev, "missed": r.missed, "posts": posts}
			capReset()
		}
		o.line(res)
	})
}
