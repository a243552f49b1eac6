package PKG

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/mitch000001/go-hbci/transport"
)

// demoBank answers each message with the next reply: inner segments without
// header and trailer; "!" stands for a network failure.
type demoBank struct {
	t       *testing.T
	ver     int
	dlg     string
	replies []string
	sent    []string // message bytes
}

var demoHead = regexp.MustCompile(`^HNHBK:1:3\+(\d+)\+(\d+)\+((?:[^+?']|\?.)*)\+(\d+)'`)

func (b *demoBank) num(i int) int {
	n, _ := strconv.Atoi(demoHead.FindStringSubmatch(b.sent[i])[4])
	return n
}

func (b *demoBank) dialogID(i int) string { return demoHead.FindStringSubmatch(b.sent[i])[3] }

func (b *demoBank) do(req *transport.Request) (*transport.Response, error) {
	body, _ := io.ReadAll(req.Body)
	raw, err := base64.StdEncoding.DecodeString(string(body))
	if err != nil {
		return nil, err
	}
	b.sent = append(b.sent, string(raw))
	reply := "HIRMG:2:2+0010::Nachricht entgegengenommen'"
	if len(b.replies) > 0 {
		reply = b.replies[0]
		b.replies = b.replies[1:]
	}
	if reply == "!" {
		return nil, errors.New("connection refused")
	}
	msg := demoMessage(b.ver, b.dlg, b.num(len(b.sent)-1), reply)
	return &transport.Response{Request: req, Body: io.NopCloser(strings.NewReader(base64.StdEncoding.EncodeToString([]byte(msg))))}, nil
}

func demoMessage(ver int, dlg string, num int, inner string) string {
	body := "HNVSK:998:3+PIN:1+998+1+2::0+1:20150101:120000+2:2:13:@8@00000000:5:1+280:10000000:bank:V:0:0+0'" +
		fmt.Sprintf("HNVSD:999:1+@%d@%s'", len(inner), inner) + fmt.Sprintf("HNHBS:9:1+%d'", num)
	head := func(n int) string { return fmt.Sprintf("HNHBK:1:3+%012d+%d+%s+%d+%s:%d'", n, ver, dlg, num, dlg, num) }
	return head(len(head(0))+len(body)) + body
}

const demoOK = "HIRMG:2:2+0010::Nachricht entgegengenommen'"
const demoBPD = "HIBPA:4:3+3+280:10000000+Testbank+3+1+300+500'HISALS:5:5+1+1+1'HISALS:6:7+1+1+1'HIKAZS:7:5+1+1+1'HIKAZS:8:6+1+1+1'HIKAZS:9:7+1+1+1'HIPROS:10:3+1+1+1'"
const demoSync = demoOK + demoBPD + "HISYN:11:4+SYS1'"
