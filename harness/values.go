package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
)

func init() {
	funcOps["value"] = valueOp
	funcOps["read"] = readOp
}

// Values are lists of texts; numbers are written in decimal, amounts with a comma.
func vnum(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal("number %q", s)
	}
	return n
}

func vfloat(s string) float64 {
	f, err := strconv.ParseFloat(strings.Replace(s, ",", ".", 1), 64)
	if err != nil {
		fatal("amount %q", s)
	}
	return f
}

func wfloat(f float64) string {
	s := strings.Replace(strconv.FormatFloat(f, 'f', -1, 64), ".", ",", 1)
	if !strings.Contains(s, ",") {
		s += ","
	}
	return s
}

func vdate(s string) time.Time {
	t, err := time.Parse("20060102", s)
	if err != nil {
		fatal("date %q", s)
	}
	return t
}

func vdatetime(d, c string) time.Time {
	t, err := time.Parse("20060102150405", d+c)
	if err != nil {
		fatal("time %q", d+c)
	}
	return t
}

func wdate(t time.Time) string { return t.Format("20060102") }
func wtime(t time.Time) string { return t.Format("150405") }
func wbool(b bool) string {
	if b {
		return "J"
	}
	return "N"
}
func itoa(n int) string { return strconv.Itoa(n) }

func nums(a []string) []int {
	r := make([]int, len(a))
	for i, s := range a {
		r[i] = vnum(s)
	}
	return r
}

type kind struct {
	build func(a []string) element.DataElement
	empty func() element.DataElement
	val   func(e element.DataElement) []string
}

func parties(s string) string { return map[string]string{"1": "MS", "2": "MR"}[s] }
func whens(s string) string   { return map[string]string{"1": "STS", "6": "CRT"}[s] }

func groupNums(g element.DataElementGroup) []string {
	r := []string{}
	for _, e := range g.GroupDataElements() {
		r = append(r, itoa(e.(*element.NumberDataElement).Val()))
	}
	return r
}

func wbalance(b domain.Balance) []string {
	sign := "C"
	if b.Amount.Amount < 0 {
		sign = "D"
	}
	r := []string{sign, wfloat(math.Abs(b.Amount.Amount)), b.Amount.Currency, wdate(b.TransmissionDate)}
	if b.TransmissionTime != nil {
		r = append(r, wtime(*b.TransmissionTime))
	}
	return r
}

func vamount(a []string) domain.Amount {
	f := vfloat(a[1])
	if a[0] == "D" {
		f = -f
	}
	return domain.Amount{Amount: f, Currency: a[2]}
}

func digit(w int) kind {
	return kind{func(a []string) element.DataElement { return element.NewDigit(vnum(a[0]), w) },
		func() element.DataElement { return &element.DigitDataElement{} },
		func(e element.DataElement) []string { return []string{itoa(e.(*element.DigitDataElement).Val())} }}
}

func wjob(b domain.BusinessTransaction, limit bool) []string {
	r := []string{b.ID, itoa(b.NeededSignatures)}
	if b.Limit != nil {
		r = append(r, wlimit(*b.Limit)...)
	} else if limit {
		r = append(r, "no limit")
	}
	return r
}

func wlimit(l domain.AccountLimit) []string {
	return []string{l.Kind, wfloat(l.Amount.Amount), l.Amount.Currency, itoa(l.Days)}
}

var kinds = map[string]kind{
	"number": {func(a []string) element.DataElement { return element.NewNumber(vnum(a[0]), 10) },
		func() element.DataElement { return &element.NumberDataElement{} },
		func(e element.DataElement) []string { return []string{itoa(e.(*element.NumberDataElement).Val())} }},
	"digit1": digit(1), "digit3": digit(3), "digit6": digit(6),
	"float": {func(a []string) element.DataElement { return element.NewFloat(vfloat(a[0]), 15) },
		func() element.DataElement { return &element.FloatDataElement{} },
		func(e element.DataElement) []string { return []string{wfloat(e.(*element.FloatDataElement).Val())} }},
	"value": {func(a []string) element.DataElement { return element.NewValue(vfloat(a[0])) },
		func() element.DataElement { return &element.ValueDataElement{} },
		func(e element.DataElement) []string { return []string{wfloat(e.(*element.ValueDataElement).Val())} }},
	"boolean": {func(a []string) element.DataElement { return element.NewBoolean(a[0] == "J") },
		func() element.DataElement { return &element.BooleanDataElement{} },
		func(e element.DataElement) []string { return []string{wbool(e.(*element.BooleanDataElement).Val())} }},
	"date": {func(a []string) element.DataElement { return element.NewDate(vdate(a[0])) },
		func() element.DataElement { return &element.DateDataElement{} },
		func(e element.DataElement) []string { return []string{wdate(e.(*element.DateDataElement).Val())} }},
	"time": {func(a []string) element.DataElement { return element.NewTime(vdatetime("20240102", a[0])) },
		func() element.DataElement { return &element.TimeDataElement{} },
		func(e element.DataElement) []string { return []string{wtime(e.(*element.TimeDataElement).Val())} }},
	"country": {func(a []string) element.DataElement { return element.NewCountryCode(vnum(a[0])) },
		func() element.DataElement { return &element.CountryCodeDataElement{} },
		func(e element.DataElement) []string { return []string{itoa(e.(*element.CountryCodeDataElement).Val())} }},
	"code": {func(a []string) element.DataElement { return element.NewCode(a[0], 30, []string{"Z", "A", a[0]}) },
		func() element.DataElement { return &element.CodeDataElement{} },
		func(e element.DataElement) []string { return []string{e.(*element.CodeDataElement).Val()} }},
	"currency": {func(a []string) element.DataElement { return element.NewCurrency(a[0]) },
		func() element.DataElement { return &element.CurrencyDataElement{} },
		func(e element.DataElement) []string { return []string{e.(*element.CurrencyDataElement).Val()} }},
	"ident": {func(a []string) element.DataElement { return element.NewIdentification(a[0]) },
		func() element.DataElement { return &element.IdentificationDataElement{} },
		func(e element.DataElement) []string { return []string{e.(*element.IdentificationDataElement).Val()} }},
	"alnum": {func(a []string) element.DataElement { return element.NewAlphaNumeric(a[0], 100) },
		func() element.DataElement { return &element.AlphaNumericDataElement{} },
		func(e element.DataElement) []string { return []string{e.(*element.AlphaNumericDataElement).Val()} }},
	"freetext": {func(a []string) element.DataElement { return element.NewText(a[0], 100) },
		func() element.DataElement { return &element.TextDataElement{} },
		func(e element.DataElement) []string { return []string{e.(*element.TextDataElement).Val()} }},
	"binary": {func(a []string) element.DataElement { return element.NewBinary(latinBytes(a[0]), 100) },
		func() element.DataElement { return &element.BinaryDataElement{} },
		func(e element.DataElement) []string { return []string{fromBytes(e.(*element.BinaryDataElement).Val())} }},
	"amount": {func(a []string) element.DataElement { return element.NewAmount(vfloat(a[0]), a[1]) },
		func() element.DataElement { return &element.AmountDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.AmountDataElement).Val()
			return []string{wfloat(v.Amount), v.Currency}
		}},
	"bank": {func(a []string) element.DataElement {
		return element.NewBankIdentification(domain.BankID{CountryCode: vnum(a[0]), ID: a[1]})
	},
		func() element.DataElement { return &element.BankIdentificationDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.BankIdentificationDataElement).Val()
			return []string{itoa(v.CountryCode), v.ID}
		}},
	"account": {func(a []string) element.DataElement {
		return element.NewAccountConnection(domain.AccountConnection{AccountID: a[0], SubAccountCharacteristics: a[1], CountryCode: vnum(a[2]), BankID: a[3]})
	},
		func() element.DataElement { return &element.AccountConnectionDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.AccountConnectionDataElement).Val()
			return []string{v.AccountID, v.SubAccountCharacteristics, itoa(v.CountryCode), v.BankID}
		}},
	"intaccount": {func(a []string) element.DataElement {
		return element.NewInternationalAccountConnection(domain.InternationalAccountConnection{IBAN: a[0], BIC: a[1], AccountID: a[2], SubAccountCharacteristics: a[3], BankID: domain.BankID{CountryCode: vnum(a[4]), ID: a[5]}})
	},
		func() element.DataElement { return &element.InternationalAccountConnectionDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.InternationalAccountConnectionDataElement).Val()
			return []string{v.IBAN, v.BIC, v.AccountID, v.SubAccountCharacteristics, itoa(v.BankID.CountryCode), v.BankID.ID}
		}},
	"balance": {func(a []string) element.DataElement { return element.NewBalance(vamount(a), vdate(a[3]), false) },
		func() element.DataElement { return &element.BalanceDataElement{} },
		func(e element.DataElement) []string { return wbalance(e.(*element.BalanceDataElement).Balance()) }},
	"balancet": {func(a []string) element.DataElement {
		return element.NewBalance(vamount(a), vdatetime(a[3], a[4]), true)
	},
		func() element.DataElement { return &element.BalanceDataElement{} },
		func(e element.DataElement) []string { return wbalance(e.(*element.BalanceDataElement).Balance()) }},
	"limit": {func(a []string) element.DataElement {
		return element.NewAccountLimit(a[0], vfloat(a[1]), a[2], vnum(a[3]))
	},
		func() element.DataElement { return &element.AccountLimitDataElement{} },
		func(e element.DataElement) []string { return wlimit(e.(*element.AccountLimitDataElement).Val()) }},
	"job": {func(a []string) element.DataElement {
		return element.NewAllowedBusinessTransaction(domain.BusinessTransaction{ID: a[0], NeededSignatures: vnum(a[1])})
	},
		func() element.DataElement { return &element.AllowedBusinessTransactionDataElement{} },
		func(e element.DataElement) []string {
			return wjob(e.(*element.AllowedBusinessTransactionDataElement).Val(), false)
		}},
	"joblimit": {func(a []string) element.DataElement {
		return element.NewAllowedBusinessTransaction(domain.BusinessTransaction{ID: a[0], NeededSignatures: vnum(a[1]),
			Limit: &domain.AccountLimit{Kind: a[2], Amount: domain.Amount{Amount: vfloat(a[3]), Currency: a[4]}, Days: vnum(a[5])}})
	},
		func() element.DataElement { return &element.AllowedBusinessTransactionDataElement{} },
		func(e element.DataElement) []string {
			return wjob(e.(*element.AllowedBusinessTransactionDataElement).Val(), true)
		}},
	"header": {func(a []string) element.DataElement { return element.NewSegmentHeader(a[0], vnum(a[1]), vnum(a[2])) },
		func() element.DataElement { return &element.SegmentHeader{} },
		func(e element.DataElement) []string {
			h := e.(*element.SegmentHeader)
			r := []string{h.ID.Val(), itoa(h.Position.Val()), itoa(h.Version.Val())}
			if n := h.ReferencingSegment(); n != -1 {
				r = append(r, itoa(n))
			}
			return r
		}},
	"refheader": {func(a []string) element.DataElement {
		return element.NewReferencingSegmentHeader(a[0], vnum(a[1]), vnum(a[2]), vnum(a[3]))
	},
		func() element.DataElement { return &element.SegmentHeader{} },
		func(e element.DataElement) []string {
			h := e.(*element.SegmentHeader)
			return []string{h.ID.Val(), itoa(h.Position.Val()), itoa(h.Version.Val()), itoa(h.ReferencingSegment())}
		}},
	"msgref": {func(a []string) element.DataElement { return element.NewReferencingMessage(a[0], vnum(a[1])) },
		func() element.DataElement { return &element.ReferencingMessageDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.ReferencingMessageDataElement).Val()
			return []string{v.DialogID, itoa(v.MessageNumber)}
		}},
	"keyname": {func(a []string) element.DataElement {
		return element.NewKeyName(domain.KeyName{BankID: domain.BankID{CountryCode: vnum(a[0]), ID: a[1]}, UserID: a[2], KeyType: domain.KeyType(a[3]), KeyNumber: vnum(a[4]), KeyVersion: vnum(a[5])})
	},
		func() element.DataElement { return &element.KeyNameDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.KeyNameDataElement).Val()
			return []string{itoa(v.BankID.CountryCode), v.BankID.ID, v.UserID, string(v.KeyType), itoa(v.KeyNumber), itoa(v.KeyVersion)}
		}},
	"cert": {func(a []string) element.DataElement { return element.NewCertificate(vnum(a[0]), latinBytes(a[1])) },
		func() element.DataElement { return &element.CertificateDataElement{} },
		func(e element.DataElement) []string {
			c := e.(*element.CertificateDataElement)
			return []string{itoa(c.CertificateType.Val()), fromBytes(c.Content.Val())}
		}},
	"pintan": {func(a []string) element.DataElement { return element.NewPinTan(a[0], a[1]) },
		func() element.DataElement { return &element.PinTanDataElement{} },
		func(e element.DataElement) []string {
			p := e.(*element.PinTanDataElement)
			return []string{p.PIN.Val(), p.TAN.Val()}
		}},
	"signature": {func(a []string) element.DataElement { return element.NewCustomSignature(a[0], a[1]) },
		func() element.DataElement { return &element.CustomSignatureDataElement{} },
		func(e element.DataElement) []string {
			p := e.(*element.CustomSignatureDataElement)
			return []string{p.PIN.Val(), p.TAN.Val()}
		}},
	"secid": {func(a []string) element.DataElement { return element.NewRDHSecurityIdentification(a[0], a[2]) },
		func() element.DataElement { return &element.SecurityIdentificationDataElement{} },
		func(e element.DataElement) []string {
			s := e.(*element.SecurityIdentificationDataElement)
			return []string{parties(s.SecurityHolder.Val()), fromBytes(s.CID.Val()), s.ClientSystemID.Val()}
		}},
	"secdate": {func(a []string) element.DataElement { return element.NewSecurityDate(a[0], vdatetime(a[1], a[2])) },
		func() element.DataElement { return &element.SecurityDateDataElement{} },
		func(e element.DataElement) []string {
			s := e.(*element.SecurityDateDataElement)
			return []string{whens(s.DateIdentifier.Val()), wdate(s.Date.Val()), wtime(s.Time.Val())}
		}},
	"encalg": {func(a []string) element.DataElement {
		e := element.NewRDHEncryptionAlgorithm(latinBytes(a[3]))
		e.Usage, e.OperationMode, e.Algorithm = element.NewAlphaNumeric(a[0], 3), element.NewAlphaNumeric(a[1], 3), element.NewAlphaNumeric(a[2], 3)
		e.KeyParamID, e.InitializationValueParamID = element.NewAlphaNumeric(a[4], 3), element.NewAlphaNumeric(a[5], 3)
		if a[6] != "" {
			e.InitializationValue = element.NewBinary(latinBytes(a[6]), 512)
		}
		return e
	},
		func() element.DataElement { return &element.EncryptionAlgorithmDataElement{} },
		func(d element.DataElement) []string {
			e := d.(*element.EncryptionAlgorithmDataElement)
			return []string{e.Usage.Val(), e.OperationMode.Val(), e.Algorithm.Val(), fromBytes(e.Key.Val()), e.KeyParamID.Val(), e.InitializationValueParamID.Val(), fromBytes(e.InitializationValue.Val())}
		}},
	"hashalg": {func(a []string) element.DataElement {
		h := element.NewDefaultHashAlgorithm()
		h.Usage, h.Algorithm, h.AlgorithmParamID = element.NewAlphaNumeric(a[0], 3), element.NewAlphaNumeric(a[1], 3), element.NewAlphaNumeric(a[2], 3)
		if a[3] != "" {
			h.AlgorithmParamValue = element.NewBinary(latinBytes(a[3]), 512)
		}
		return h
	},
		func() element.DataElement { return &element.HashAlgorithmDataElement{} },
		func(e element.DataElement) []string {
			h := e.(*element.HashAlgorithmDataElement)
			return []string{h.Usage.Val(), h.Algorithm.Val(), h.AlgorithmParamID.Val(), fromBytes(h.AlgorithmParamValue.Val())}
		}},
	"sigalg": {func(a []string) element.DataElement {
		s := element.NewRDHSignatureAlgorithm()
		s.Usage, s.Algorithm, s.OperationMode = element.NewAlphaNumeric(a[0], 3), element.NewAlphaNumeric(a[1], 3), element.NewAlphaNumeric(a[2], 3)
		return s
	},
		func() element.DataElement { return &element.SignatureAlgorithmDataElement{} },
		func(e element.DataElement) []string {
			s := e.(*element.SignatureAlgorithmDataElement)
			return []string{s.Usage.Val(), s.Algorithm.Val(), s.OperationMode.Val()}
		}},
	"params": {func(a []string) element.DataElement { return element.NewParams(10, 10, a...) },
		func() element.DataElement { return &element.ParamsDataElement{} },
		func(e element.DataElement) []string { return e.(*element.ParamsDataElement).Val() }},
	"ack": {func(a []string) element.DataElement {
		return element.NewAcknowledgement(domain.Acknowledgement{Code: vnum(a[0]), ReferenceDataElement: a[1], Text: a[2], Params: a[3:]})
	},
		func() element.DataElement { return &element.AcknowledgementDataElement{} },
		func(e element.DataElement) []string {
			v := e.(*element.AcknowledgementDataElement).Val()
			return append([]string{itoa(v.Code), v.ReferenceDataElement, v.Text}, v.Params...)
		}},
	"access": {func(a []string) element.DataElement {
		return element.NewCommunicationParameter(domain.CommunicationParameter{Protocol: vnum(a[0]), Address: a[1], AddressAddition: a[2], FilterFunction: a[3], FilterFunctionVersion: vnum(a[4])})
	},
		func() element.DataElement { return &element.CommunicationParameterDataElement{} },
		func(e element.DataElement) []string {
			c := e.(*element.CommunicationParameterDataElement)
			return []string{itoa(c.Protocol.Val()), c.Address.Val(), c.AddressAddition.Val(), c.FilterFunction.Val(), itoa(c.FilterFunctionVersion.Val())}
		}},
	"secmethod": {func(a []string) element.DataElement { return element.NewSupportedSecurityMethod(a[0], nums(a[1:])...) },
		func() element.DataElement { return &element.SupportedSecurityMethodDataElement{} },
		func(e element.DataElement) []string {
			s := e.(*element.SupportedSecurityMethodDataElement)
			r := []string{s.MethodCode.Val()}
			for _, v := range s.Versions.Versions() {
				r = append(r, itoa(v.Val()))
			}
			return r
		}},
	"versions": {func(a []string) element.DataElement { return element.NewSupportedHBCIVersions(nums(a)...) },
		func() element.DataElement { return &element.SupportedHBCIVersionsDataElement{} },
		func(e element.DataElement) []string { return groupNums(e.(*element.SupportedHBCIVersionsDataElement)) }},
	"langs": {func(a []string) element.DataElement { return element.NewSupportedLanguages(nums(a)...) },
		func() element.DataElement { return &element.SupportedLanguagesDataElement{} },
		func(e element.DataElement) []string {
			r := []string{}
			for _, l := range e.(*element.SupportedLanguagesDataElement).Languages() {
				r = append(r, itoa(l.Val()))
			}
			return r
		}},
	"pinjobs": {func(a []string) element.DataElement {
		var l []domain.PinTanBusinessTransaction
		for i := 0; i < len(a); i += 2 {
			l = append(l, domain.PinTanBusinessTransaction{SegmentID: a[i], NeedsTan: a[i+1] == "J"})
		}
		return element.NewPinTanBusinessTransactionParameters(l)
	},
		func() element.DataElement { return &element.PinTanBusinessTransactionParameters{} },
		func(e element.DataElement) []string {
			r := []string{}
			for _, t := range e.(*element.PinTanBusinessTransactionParameters).Val() {
				r = append(r, t.SegmentID, wbool(t.NeedsTan))
			}
			return r
		}},
}

// texts here are strings whose characters are the codes
func latinBytes(s string) []byte {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

func fromBytes(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

func runesList(l []string) [][]int {
	r := make([][]int, len(l))
	for i, s := range l {
		r[i] = runes(s)
	}
	return r
}

func getKind(name string) kind {
	k, ok := kinds[name]
	if !ok {
		fatal("unknown kind %q", name)
	}
	return k
}

func readBack(k kind, b []byte, out M) {
	out["err"], out["back"] = "", [][]int{}
	mine := append([]byte(nil), b...)
	e := k.empty()
	err := e.UnmarshalHBCI(mine)
	out["err"] = errStr(err)
	if err != nil {
		return
	}
	// what was read does not depend on the bytes any more, and they are still the caller's
	if string(mine) != string(b) {
		out["err"] = fmt.Sprintf("the text was changed to %q", mine)
		return
	}
	for i := range mine {
		mine[i] = 'z'
	}
	out["back"] = runesList(k.val(e))
}

func valueOp(line json.RawMessage, out M) {
	var in struct {
		Kind string
		Args []text
	}
	json.Unmarshal(line, &in)
	k := getKind(in.Kind)
	a := make([]string, len(in.Args))
	for i, t := range in.Args {
		a[i] = t.latin1()
	}
	out["out"], out["werr"], out["err"], out["back"] = []int{}, "", "", [][]int{}
	b, err := k.build(a).MarshalHBCI()
	out["werr"] = errStr(err)
	if err != nil {
		return
	}
	out["out"] = codesB(b)
	readBack(k, b, out)
}

func readOp(line json.RawMessage, out M) {
	var in struct {
		Kind string
		Text text
	}
	json.Unmarshal(line, &in)
	out["err"], out["back"] = "", [][]int{}
	readBack(getKind(in.Kind), in.Text.bytes(), out)
}
