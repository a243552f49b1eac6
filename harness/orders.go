package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
)

func init() { funcOps["orders"] = ordersOp }

type orderAsk struct {
	Op   string `json:"op"`
	Args Args   `json:"args"`
	Pos  int    `json:"pos"`
}

// ordersOp asks one builder for several orders and reads what is written.
func ordersOp(line json.RawMessage, out M) {
	var in struct {
		Segs []struct {
			ID  string `json:"id"`
			Ver int    `json:"ver"`
		} `json:"segs"`
		Asks []orderAsk `json:"asks"`
	}
	if err := json.Unmarshal(line, &in); err != nil {
		fatal("orders: %v", err)
	}
	var vs, given []segment.VersionedSegment
	for _, s := range in.Segs {
		vs = append(vs, segment.VersionedSegment{ID: s.ID, Version: s.Ver})
	}
	given = append(given, vs...)
	day := func(months int) string { return time.Now().AddDate(0, months, 0).Format("20060102") }
	out["d1"], out["d2"] = day(-1), day(0)
	b := segment.NewBuilder(vs)
	outs := []M{}
	for _, a := range in.Asks {
		outs = append(outs, oneOrder(b, a))
	}
	out["d3"], out["d4"] = day(-1), day(0)
	out["outs"] = outs
	out["same"] = reflect.DeepEqual(vs, given)
}

func oneOrder(b segment.Builder, q orderAsk) M {
	r := M{"err": "", "id": "", "ver": 0, "pos": 0, "n": 0, "els": [][]string{}}
	s, err := buildOrder(b, q)
	if err != nil {
		r["err"] = errStr(err)
		return r
	}
	s.SetPosition(func() int { return q.Pos })
	data, err := s.MarshalHBCI()
	if err != nil {
		r["err"] = errStr(err)
		return r
	}
	segs, err := parseMessage(data)
	if err != nil {
		r["err"] = "unreadable: " + err.Error()
		return r
	}
	r["n"] = len(segs)
	if len(segs) > 0 {
		g := segs[0]
		r["id"], r["ver"], r["pos"] = g.ID, g.Ver, g.Pos
		els := trimEls(g.texts())
		if els == nil {
			els = [][]string{}
		}
		r["els"] = els
	}
	return r
}

func buildOrder(b segment.Builder, q orderAsk) (segment.ClientSegment, error) {
	a := q.Args
	bank := domain.BankID{CountryCode: a.Acct.Country, ID: a.Acct.Bank}
	cont := func(s segment.ClientSegment) segment.ClientSegment {
		if a.Cont == "" {
			return s
		}
		switch x := s.(type) {
		case interface{ SetContinuationMark(string) }:
			x.SetContinuationMark(a.Cont)
		case interface{ SetContinuationReference(string) }:
			x.SetContinuationReference(a.Cont)
		}
		return s
	}
	modes := []segment.SyncMode{segment.SyncModeAquireClientID, segment.SyncModeAquireLastProcessedMessageID, segment.SyncModeAquireSignatureID}
	switch q.Op {
	case "tx", "sepatx":
		var s *segment.AccountTransactionRequestSegment
		var err error
		if q.Op == "tx" {
			s, err = b.AccountTransactionRequest(a.Acct.national(), a.All)
		} else {
			s, err = b.SepaAccountTransactionRequest(a.Acct.sepa(), a.All)
		}
		if err != nil {
			return nil, err
		}
		s.SetTransactionRange(a.frame())
		return cont(s), nil
	case "bal":
		s, err := b.AccountBalanceRequest(a.Acct.national(), a.All)
		if err != nil {
			return nil, err
		}
		return cont(s), nil
	case "sepabal":
		s, err := b.SepaAccountBalanceRequest(a.Acct.sepa(), a.All)
		if err != nil {
			return nil, err
		}
		return cont(s), nil
	case "status":
		return b.StatusProtocolRequest(fdate(a.From, a.TZ), fdate(a.To, a.TZ), a.Max, a.Cont)
	case "kif1":
		return cont(segment.NewAccountInformationRequestSegmentV1(a.Acct.national(), a.All)), nil
	case "kif2":
		return cont(segment.NewAccountInformationRequestSegmentV2(a.Acct.national(), a.All)), nil
	case "kif3":
		return cont(segment.NewAccountInformationRequestSegmentV3(a.Acct.sepa(), a.All)), nil
	case "kif4":
		return cont(segment.NewAccountInformationRequestSegmentV4(a.Acct.sepa(), a.All)), nil
	case "kif5":
		return cont(segment.NewAccountInformationRequestSegmentV5(a.Acct.sepa(), a.All)), nil
	case "kif6":
		return cont(segment.NewAccountInformationRequestSegmentV6(a.Acct.sepa(), a.All)), nil
	case "tan4v1":
		return segment.NewTanProcess4RequestSegmentV1(a.Fn), nil
	case "tan4v6":
		return segment.NewTanProcess4RequestSegmentV6(a.Fn), nil
	case "tan2":
		return segment.NewTanRequestProcess2(a.Cont, a.All), nil
	case "idn":
		return segment.NewIdentificationSegment(bank, a.Pin, a.SysID, a.All), nil
	case "vvb2":
		return segment.NewProcessingPreparationSegmentV2(a.Max, a.TZ, domain.German, a.Fn, a.Pin), nil
	case "vvb3":
		return segment.NewProcessingPreparationSegmentV3(a.Max, a.TZ, domain.German, a.Fn, a.Pin), nil
	case "syn2":
		return segment.NewSynchronisationSegmentV2(modes[a.Max%3]), nil
	case "syn3":
		return segment.NewSynchronisationSegmentV3(modes[a.Max%3]), nil
	case "end":
		return segment.NewDialogEndSegment(a.SysID), nil
	case "kom":
		return segment.NewCommunicationAccessRequestSegment(bank, domain.BankID{CountryCode: a.Acct.Country, ID: a.Acct.ID}, a.Max, a.Cont), nil
	}
	return nil, fmt.Errorf("no order %q", q.Op)
}
