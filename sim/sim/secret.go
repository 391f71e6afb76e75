package sim

import (
	"encoding/hex"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"regexp"
	"strings"

	"github.com/moov-io/base/log"
)

// Confidential material (C23). It travels in requests and in the views and
// answers that are asked for, and nowhere else: not in the text of a refusal,
// not in the headers of a response, not in what the programs log.

// secrets is what must not be disclosed in a run.
type secrets struct {
	keys, clear []secretText
	logs        fmt.Stringer
	file        *os.File
	out, err    *os.File
}

type secretText struct{ what, text string }

func newSecrets(s *Spec) *secrets {
	if s.P["secret"] != 1 {
		return nil
	}
	x := &secrets{}
	var plain []string // what is no secret, although it may look like one
	for i, d := range s.Devs {
		plain = append(plain, d.KSN)
		if len(d.BDK) >= 16 {
			x.keys = append(x.keys, secretText{fmt.Sprintf("the base key of device %d", i), strings.ToUpper(d.BDK)})
		}
		rd, err := newRef(d)
		if err != nil {
			continue
		}
		plain = append(plain, rd.IKHex())
		tc, ok := rd.TC(), true
		for n := 0; n < 30 && ok; n++ {
			x.keys = append(x.keys, secretText{fmt.Sprintf("a transaction key of device %d", i), strings.ToUpper(hex.EncodeToString(rd.TK(tc)))})
			tc, ok = rd.Next(tc)
		}
	}
	for _, t := range s.Tasks {
		for _, o := range t.Ops {
			plain = append(plain, o.IV, o.Act, o.Fmt, o.Mac)
			if o.Net != nil {
				plain = append(plain, o.Net.Origin)
			}
			if len(o.Pin) >= 8 && digits(o.Pin) {
				x.clear = append(x.clear, secretText{"a PIN", o.Pin})
			}
			if len(o.Pan) >= 12 && digits(o.Pan) {
				x.clear = append(x.clear, secretText{"an account number", o.Pan})
			}
			switch o.K {
			case "mac", "edata", "gm", "en":
				if len(o.Data) >= 10 && variety(o.Data) >= 6 {
					x.clear = append(x.clear, secretText{"clear data", o.Data}, secretText{"clear data", hex.EncodeToString([]byte(o.Data))})
				}
			default:
				plain = append(plain, o.Data)
			}
		}
	}
	all := strings.ToUpper(strings.Join(plain, "\n"))
	keep := func(l []secretText) []secretText {
		k := l[:0]
		for _, t := range l {
			if !strings.Contains(all, strings.ToUpper(t.text)) {
				k = append(k, t)
			}
		}
		return k
	}
	x.keys, x.clear = keep(x.keys), keep(x.clear)
	return x
}

func variety(s string) int {
	m := map[byte]bool{}
	for i := 0; i < len(s); i++ {
		m[s[i]] = true
	}
	return len(m)
}

// found names the secret a text contains.
func (x *secrets) found(text string, clear bool) string {
	up := strings.ToUpper(text)
	for _, t := range x.keys {
		if strings.Contains(up, t.text) {
			return t.what
		}
	}
	if clear {
		for _, t := range x.clear {
			if strings.Contains(text, t.text) || strings.Contains(up, strings.ToUpper(t.text)) {
				return t.what
			}
		}
	}
	return ""
}

// capture catches what the code under test prints and logs.
func (x *secrets) capture() log.Logger {
	b, l := log.NewBufferLogger()
	x.logs = b
	if f, err := os.CreateTemp("", "vsimlog"); err == nil {
		os.Remove(f.Name())
		x.file = f
		x.out, x.err = os.Stdout, os.Stderr
		os.Stdout, os.Stderr = f, f
		stdlog.SetOutput(f)
	}
	return l
}

// captured ends capture and returns what was caught.
func (x *secrets) captured() string {
	t := ""
	if x.logs != nil {
		t = x.logs.String()
	}
	if x.file != nil {
		os.Stdout, os.Stderr = x.out, x.err
		stdlog.SetOutput(os.Stderr)
		x.file.Seek(0, io.SeekStart)
		b, _ := io.ReadAll(x.file)
		x.file.Close()
		x.file = nil
		t += string(b)
	}
	return t
}

// the loggers read the real clock
var stamp = regexp.MustCompile(`\d{4}[-/]\d\d[-/]\d\d[T ][\d:.]+(Z|[-+][\d:]+)?`)

// judgeLog checks what was logged.
func (x *secrets) judgeLog(res *RunResult, logs string) {
	res.Probes["log searched for secrets"]++
	for _, l := range strings.Split(logs, "\n") {
		if what := x.found(l, true); what != "" {
			res.add("C23", "log", fmt.Sprintf("the log contains %s: %.300q", what, stamp.ReplaceAllString(l, "TIME")))
			return
		}
	}
}

// refusal checks the text of a refused operation.
func (x *secrets) refusal(res *RunResult, who, text string) {
	res.Probes["refusal searched for secrets"]++
	if what := x.found(text, true); what != "" {
		res.add("C23", "refusal", fmt.Sprintf("the refusal of %.200s contains %s: %.300q", who, what, text))
	}
}

// response checks a response over REST: what it may contain depends on what
// was asked for.
func (x *secrets) response(res *RunResult, c *capture, kind string, where func() string) {
	res.Probes["response searched for secrets"]++
	two := c.code >= 200 && c.code < 300
	for k, vs := range c.sent {
		for _, v := range vs {
			if what := x.found(v, true); what != "" {
				res.add("C23", "header", fmt.Sprintf("the response header %s contains %s: %s", k, what, where()))
			}
		}
	}
	body := c.body.String()
	switch {
	case !two:
		if what := x.found(body, true); what != "" {
			res.add("C23", "refusal", fmt.Sprintf("the refusal contains %s: %s", what, where()))
		}
	case kind == "create" || kind == "get" || kind == "list" || kind == "ddata" || kind == "dpin":
		// views carry the keys; decryptions carry what was encrypted
	default:
		if what := x.found(body, kind != "mac" && kind != "edata"); what != "" {
			res.add("C23", "answer", fmt.Sprintf("the response contains %s, which nobody asked for: %s", what, where()))
		}
	}
}

func init() { gens["C23"] = genSecret }

// genSecret makes a run of refused and failing operations with secrets that
// can be told from anything else.
func genSecret(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	from := pickOf(r, "C09", "C09", "C07", "C07", "C10", "C10", "C12", "C03", "C17", "C17", "C20", "C16")
	if gens[from] == nil && (from == "C17" || from == "C20" || from == "C16") {
		from = "C10" // a build without the programs
	}
	s := Gen(from, seed)
	for s.Kind == "lib" {
		seed += 1 << 40
		s = Gen(from, seed)
	}
	s.Prop = prop
	if s.P == nil {
		s.P = map[string]int64{}
	}
	s.P["secret"] = 1
	for ti := range s.Tasks {
		for oi := range s.Tasks[ti].Ops {
			o := &s.Tasks[ti].Ops[oi]
			if o.Pin != "" && digits(o.Pin) && len(o.Pin) >= 4 && len(o.Pin) <= 12 && r.P(3, 4) {
				o.Pin = r.digits(r.In(8, 12))
			}
		}
	}
	return s
}
