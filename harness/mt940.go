package main

import (
	"encoding/json"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/swift"
)

func init() {
	funcOps["mt940"] = mtStatements
	funcOps["mt86"] = mtDetails
}

// date is year, month and day of t; a time of day other than midnight shows up in front
func date(t time.Time) []int {
	y, m, d := t.Date()
	r := []int{y, int(m), d}
	if h, mi, s := t.Clock(); h+mi+s+t.Nanosecond() != 0 {
		r = append([]int{h, mi, s, t.Nanosecond()}, r...)
	}
	return r
}

func amount(f float64) []int {
	if f == 0 {
		f = 0
		return codes("0")
	}
	return codes(strconv.FormatFloat(f, 'f', -1, 64))
}

func mtBalance(b domain.Balance) M {
	return M{"amt": amount(b.Amount.Amount), "ccy": codes(b.Amount.Currency), "date": date(b.TransmissionDate)}
}

func mtStatements(line json.RawMessage, out M) {
	var in struct {
		T     text
		Chunk int
	}
	json.Unmarshal(line, &in)
	out["err"], out["es"] = "", []M{}
	data := in.T.bytes()
	if in.Chunk > 0 {
		var pages []*swift.MT940Messages
		for rest := in.T.bytes(); len(rest) > 0; {
			k := in.Chunk
			if k > len(rest) {
				k = len(rest)
			}
			pages = append(pages, swift.NewMT940Messages(rest[:k:k]))
			if len(pages)%3 == 2 {
				pages = append(pages, swift.NewMT940Messages(nil))
			}
			rest = rest[k:]
		}
		data = swift.MergeMT940Messages(pages...).Data
	}
	es, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(data)
	out["err"] = errStr(err)
	if err != nil {
		return
	}
	list := []M{}
	for _, e := range es {
		list = append(list, M{
			"bank": runes(e.Account.BankID), "acct": runes(e.Account.AccountID), "country": e.Account.CountryCode,
			"amt": amount(e.Amount.Amount), "ccy": runes(e.Amount.Currency), "val": date(e.ValutaDate), "book": date(e.BookingDate),
			"before": mtBalance(e.AccountBalanceBefore), "after": mtBalance(e.AccountBalanceAfter),
			"code": e.TransactionID, "text": runes(e.BookingText), "purpose": runes(e.Purpose), "purpose2": runes(e.Purpose2),
			"pbank": runes(e.BankID), "pacct": runes(e.AccountID), "name": runes(e.Name),
		})
	}
	out["es"] = list
	if string(data) != in.T.String() {
		out["err"] = "the data handed over was changed"
	}
}

func mtDetails(line json.RawMessage, out M) {
	var in struct{ T text }
	json.Unmarshal(line, &in)
	var c swift.CustomFieldTag
	err := c.Unmarshal(append([]byte(":86:"), in.T.bytes()...))
	out["err"] = errStr(err)
	lines := func(l []string) [][]int {
		r := [][]int{}
		for _, s := range l {
			r = append(r, runes(s))
		}
		return r
	}
	out["d"] = M{
		"code": c.TransactionID, "text": runes(c.BookingText), "prima": runes(c.PrimanotenNumber), "keyadd": c.MessageKeyAddition,
		"purpose": runes(strings.Join(c.Purpose, " ")), "purpose2": runes(strings.Join(c.Purpose2, " ")), "lines": lines(c.Purpose), "lines2": lines(c.Purpose2),
		"pbank": runes(c.BankID), "pacct": runes(c.AccountID), "name": runes(c.Name),
	}
}
