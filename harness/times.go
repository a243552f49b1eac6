package main

import (
	"encoding/json"
	"net/url"
	"time"

	"github.com/mitch000001/go-hbci/domain"
)

func init() {
	funcOps["date"] = dateOp
	funcOps["undate"] = undateOp
}

func ymd(t time.Time) []int { return []int{t.Year(), int(t.Month()), t.Day()} }

func dateRes(err error, ts ...domain.ShortDate) M {
	r := M{"err": errStr(err), "a": []int{1, 1, 1}, "b": []int{1, 1, 1}}
	if err == nil {
		r["a"] = ymd(ts[0].Time)
		if len(ts) > 1 {
			r["b"] = ymd(ts[1].Time)
		}
	}
	return r
}

func dateOp(line json.RawMessage, out M) {
	var in struct{ A, B []int }
	json.Unmarshal(line, &in)
	var a, b domain.ShortDate
	a = domain.Date(in.A[0], time.Month(in.A[1]), in.A[2], time.UTC)
	b = domain.Date(in.B[0], time.Month(in.B[1]), in.B[2], time.UTC)
	// a date made of a moment of that day
	m := domain.NewShortDate(time.Date(in.A[0], time.Month(in.A[1]), in.A[2], 23, 59, 59, 999, time.FixedZone("somewhere", 7200)))
	out["trunc"] = ymd(m.Time)
	out["clock"] = m.Hour()*3600 + m.Minute()*60 + m.Second() + m.Nanosecond()
	j, err := json.Marshal(&a)
	if err != nil {
		j = []byte(err.Error())
	}
	t, err := a.MarshalText()
	if err != nil {
		t = []byte(err.Error())
	}
	out["json"], out["text"], out["str"] = codesB(j), codesB(t), codes(a.String())
	tf := domain.Timeframe{StartDate: a, EndDate: b}
	q := tf.ToQuery()
	out["from"], out["to"] = codes(q.Get("from")), codes(q.Get("to"))
	f, err := json.Marshal(&tf)
	if err != nil {
		f = []byte(err.Error())
	}
	out["frame"], out["zero"] = codesB(f), tf.IsZero()
	var rj, rt domain.ShortDate
	err = json.Unmarshal(j, &rj)
	out["rjson"] = dateRes(err, rj)
	err = rt.UnmarshalText(t)
	out["rtext"] = dateRes(err, rt)
	parsed, err := url.ParseQuery(q.Encode())
	if err != nil {
		parsed = nil
	}
	rq, err := domain.TimeframeFromQuery(parsed)
	out["rquery"] = dateRes(err, rq.StartDate, rq.EndDate)
	// the receiver is not empty before
	rf := domain.Timeframe{StartDate: domain.Date(2001, 2, 3, time.UTC), EndDate: domain.Date(2002, 3, 4, time.UTC)}
	err = json.Unmarshal(f, &rf)
	out["rframe"] = dateRes(err, rf.StartDate, rf.EndDate)
}

func undateOp(line json.RawMessage, out M) {
	var in struct {
		W    string
		Text text
	}
	json.Unmarshal(line, &in)
	s := in.Text.String()
	switch in.W {
	case "json":
		var d domain.ShortDate
		err := json.Unmarshal([]byte(s), &d)
		out["res"] = dateRes(err, d)
	case "text":
		var d domain.ShortDate
		err := d.UnmarshalText([]byte(s))
		out["res"] = dateRes(err, d)
	case "query":
		tf, err := domain.TimeframeFromQuery(url.Values{"from": {s}, "to": {s}})
		if err != nil {
			// one wrong date is enough
			vs := []url.Values{{"from": {s}, "to": {"20240102"}}, {"from": {"20240102"}, "to": {s}}}
			if s == "" {
				vs = append(vs, url.Values{"from": {"20240102"}}, url.Values{"to": {"20240102"}}, url.Values{}, nil)
			}
			for _, v := range vs {
				if x, e := domain.TimeframeFromQuery(v); e == nil {
					tf, err = x, e
				}
			}
		}
		out["res"] = dateRes(err, tf.StartDate, tf.EndDate)
	case "frame":
		var tf domain.Timeframe
		err := json.Unmarshal([]byte(s), &tf)
		out["res"] = dateRes(err, tf.StartDate, tf.EndDate)
	}
}
