package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mitch000001/go-hbci/bankinfo"
)

func init() { funcOps["directory"] = directoryOp }

// directoryOp reads a bank directory (text: characters of ISO 8859-1). With HV_TOOL set, the generator is run on it, too.
func directoryOp(line json.RawMessage, out M) {
	var in struct {
		Text   text
		Fields []string
		Tool   bool
	}
	json.Unmarshal(line, &in)
	s := in.Text.latin1()
	out["tool"], out["toolerr"], out["generated"], out["entries"] = in.Tool, "", [][][]int{}, [][][]int{}
	entries := [][][]int{}
	var err error
	if in.Fields[0] == "bankl" {
		var l []bankinfo.BicInfo
		l, err = bankinfo.ParseBicData(strings.NewReader(s))
		for _, b := range l {
			entries = append(entries, runesList([]string{b.BankID, b.BIC}))
		}
	} else {
		var l []bankinfo.BankInfo
		l, err = bankinfo.ParseBankInfos(strings.NewReader(s))
		for _, b := range l {
			entries = append(entries, runesList([]string{b.BankID, b.BIC, b.Institute, b.VersionNumber, b.URL, b.VersionName, b.City, b.LastChanged}))
		}
	}
	out["err"] = errStr(err)
	if err == nil {
		out["entries"] = entries
	}
	if in.Tool {
		g, err := generateDirectory(in.Text.bytes())
		out["toolerr"] = errStr(err)
		if err == nil {
			out["generated"] = g
		}
	}
}

var toolFields = []string{"BankID", "BIC", "Institute", "VersionNumber", "URL", "VersionName", "City", "LastChanged"}

// generateDirectory runs the generator in a directory of its own and reads the source it writes
func generateDirectory(csv []byte) ([][][]int, error) {
	d, err := os.MkdirTemp("", "bankcsv-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(d)
	if err := os.Mkdir(filepath.Join(d, "bankinfo"), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(d, "in.csv"), csv, 0o644); err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(os.Getenv("HV_TOOL"), "in.csv")
	cmd.Dir = d
	if err := cmd.Run(); err != nil {
		return nil, err
	}
	f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(d, "bankinfo", "data.go"), nil, 0)
	if err != nil {
		return nil, err
	}
	res := [][][]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CompositeLit)
		if !ok || c.Type != nil {
			return true
		}
		vals := map[string]string{}
		for _, e := range c.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				if l, ok := kv.Value.(*ast.BasicLit); ok {
					v, _ := strconv.Unquote(l.Value)
					if !utf8.ValidString(v) {
						v = "invalid"
					}
					vals[kv.Key.(*ast.Ident).Name] = v
				}
			}
		}
		var row []string
		for _, f := range toolFields {
			row = append(row, vals[f])
		}
		res = append(res, runesList(row))
		return false
	})
	return res, nil
}
