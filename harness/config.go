package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/transport"
)

func init() { funcOps["config"] = configOp }

func configOp(raw json.RawMessage, out M) {
	var in struct {
		Bank string `json:"bank"`
		URL  string `json:"url"`
		Ver  int    `json:"ver"`
		User string `json:"user"`
		Prod string `json:"prod"`
		PrdV string `json:"prodv"`
		Op   string `json:"call"`
	}
	if err := json.Unmarshal(raw, &in); err != nil {
		fatal("config: %v", err)
	}
	out["err"], out["sends"], out["found"] = "", []M{}, ""
	sc := &Scenario{ID: "config", Cfg: Cfg{API: "client", Bank: in.Bank, User: in.User, Pin: "geheimPIN7", Prod: in.Prod, ProdV: in.PrdV, URL: in.URL, Ver: in.Ver}}
	r := &Runner{sc: sc, pin: sc.Cfg.Pin, noCap: true, made: true, anyVer: true}
	cl, err := client.New(client.Config{BankID: in.Bank, AccountID: in.User, PIN: sc.Cfg.Pin, URL: in.URL, HBCIVersion: in.Ver, Transport: transport.Func(r.exchange),
		ProductName: in.Prod, ProductVersion: in.PrdV})
	out["found"] = bankinfo.FindByBankID(in.Bank).BankID
	if err != nil {
		out["err"] = "error: " + err.Error()
		return
	}
	r.cl = cl
	acct := AcctArg{ID: "4711", Country: 280, Bank: "10000000"}
	sc.Calls = []Call{{Op: "accounts"}, {Op: in.Op, Args: Args{Acct: acct}}}
	sends := []M{}
	for _, e := range r.run() {
		if e["ev"] == "send" {
			sends = append(sends, M{"url": e["url"], "hver": e["hver"], "idn": e["idn"], "prep": e["prep"], "sig": e["sig"], "ench": e["ench"], "kind": e["kind"]})
		}
		if p, _ := e["panic"].(string); p != "" {
			panic(p)
		}
	}
	out["sends"] = sends
}

// bankDirectory writes the entries of the bank directory: those found in the sources of the package,
// or, should they no longer be there as literals, what the lookup returns for the numbers in the file.
func bankDirectory(in, out string) {
	type entry = map[string]string
	dir := map[string][]entry{}
	n := 0
	files, _ := filepath.Glob("/repo/bankinfo/*.go")
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(x ast.Node) bool {
			c, ok := x.(*ast.CompositeLit)
			if !ok {
				return true
			}
			e := entry{"url": "", "num": "", "name": "", "bic": ""}
			bank := ""
			for _, el := range c.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				k, ok1 := kv.Key.(*ast.Ident)
				v, ok2 := kv.Value.(*ast.BasicLit)
				if !ok1 || !ok2 || v.Kind != token.STRING {
					continue
				}
				s, _ := strconv.Unquote(v.Value)
				switch k.Name {
				case "BankID":
					bank = s
				case "URL":
					e["url"] = s
				case "VersionNumber":
					e["num"] = s
				case "VersionName":
					e["name"] = s
				case "BIC":
					e["bic"] = s
				}
			}
			if bank != "" {
				dir[bank] = append(dir[bank], e)
				n++
			}
			return true
		})
	}
	if n < 100 {
		b, err := os.ReadFile(in)
		if err != nil {
			fatal("%v", err)
		}
		for _, k := range strings.Fields(string(b)) {
			if i := bankinfo.FindByBankID(k); i.BankID == k {
				dir[k] = []entry{{"url": i.URL, "num": i.VersionNumber, "name": i.VersionName, "bic": i.BIC}}
			}
		}
	}
	b, err := json.Marshal(dir)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(out, b, 0o600); err != nil {
		fatal("%v", err)
	}
}
