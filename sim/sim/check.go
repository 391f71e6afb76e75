package sim

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"verif/ref"
)

func maxBits(d *ref.Dev) int {
	if d.AES {
		return 16
	}
	return 10
}

// judge applies every oracle of the service scenario to what happened.
func (w *world) judge(preRegistered map[string]int) {
	res := w.res
	groups := []string{}
	seen := map[string]bool{}
	for i := range w.devs {
		if ik := w.iks[i]; ik != "" && !seen[ik] {
			seen[ik] = true
			groups = append(groups, ik)
		}
	}
	regOf := map[string][]int{}
	for i, ik := range w.iks {
		if ik != "" {
			regOf[ik] = append(regOf[ik], i)
		}
	}

	// views
	for _, h := range w.hist {
		if h.nilView {
			res.addAll([]string{"C04", "C06", "C10"}, "nil-view", "a nil machine was handed out as a success: "+h.String())
		}
		vs := h.views
		if h.view != nil {
			vs = append([]*view{h.view}, vs...)
		}
		for _, v := range vs {
			w.checkView(h, v, regOf)
		}
		if h.kind == "create" && h.ok && h.view != nil && h.spec >= 0 && w.regs[h.spec] != nil {
			if !strings.EqualFold(h.ikOut, w.iks[h.spec]) || !strings.EqualFold(h.view.IK, w.iks[h.spec]) {
				res.add("C04", "create-ik", fmt.Sprintf("creation returned initial key %s, the standard prescribes %s: %s", h.ikOut, w.iks[h.spec], h))
			}
			d := w.devs[h.spec]
			if h.view.Alg != d.Alg || h.view.Type != d.Type || h.view.BDK != d.BDK || h.view.KSN != d.KSN {
				res.addAll([]string{"C04", "C13"}, "create-reg", "creation returned other registration data: "+h.String())
			}
			if t, ok := w.regs[h.spec].ParseTC(h.view.Cur); !ok || t != w.regs[h.spec].TC() {
				res.addAll([]string{"C02", "C04"}, "create-pos", "a created machine does not stand at its registered position: "+h.String())
			}
		}
		if h.kind == "create" && h.ok && (h.spec < 0 || w.regs[h.spec] == nil) && malformedReg(h, w) {
			res.addAll([]string{"C09", "C04"}, "malformed-create", fmt.Sprintf("a malformed registration %+v was accepted: %s", w.devs[h.spec], h))
		}
		if h.partial != "" {
			res.add("C07", "partial", h.partial+": "+h.String())
		}
		if h.faulted && h.ok {
			switch {
			case h.kind == "create" && !h.storeAcc:
				res.addAll([]string{"C07", "C06"}, "store-refused", "success reported although the store refused: "+h.String())
			case h.kind == "del" && !h.storeAcc:
				res.addAll([]string{"C07", "C06"}, "store-refused", "success reported although the store refused: "+h.String())
			}
		}
		for _, s := range []string{h.str, h.ikOut, h.err} {
			if strings.Contains(s, "SCRIBBLE") {
				res.add("C08", "scribble-visible", "a change a holder made to its own object shows up in another answer: "+h.String())
			}
		}
		for _, v := range vs {
			if strings.Contains(fmt.Sprint(*v), "SCRIBBLE") {
				res.add("C08", "scribble-visible", "a change a holder made to its own object shows up in another answer: "+h.String())
			}
		}
		if h.kind == "create" && h.spec >= 0 && h.ik == "" && !h.ok {
			res.Probes["malformed registration refused"]++
		}
		if !h.rest && !h.incomp && h.t1-h.t0 > 2*sec {
			w.lag = append(w.lag, lagRec{h.String(), h.t1 - h.t0})
		}
		if h.ok && h.ik != "" && !seen[h.ik] && h.kind != "create" && h.kind != "list" && h.kind != "del" && h.kind != "none" && h.kind != "skip" && !seen[strings.ToLower(strings.TrimSpace(h.ik))] {
			res.addAll([]string{"C06", "C13"}, "unknown-ok", "an operation on a machine that was never registered succeeded: "+h.String())
		}
		if isCrypto(h.kind) && h.ok && len(regOf[h.ik]) > 0 {
			d := w.regs[regOf[h.ik][0]]
			if e := expect(h, d); e.must == mustErr {
				res.add("C09", "malformed-ok", "malformed arguments were accepted: "+h.String())
			}
		}
	}

	// what was deleted under whatever name is not found under it any more
	for _, d := range w.hist {
		if d.kind != "del" || !d.ok || seen[d.ik] || d.faulted {
			continue
		}
		for _, h := range w.hist {
			if h.ik == d.ik && h.kind != "del" && h.kind != "create" && h.ok && d.ret < h.call && !w.createdSince(d, h) {
				res.add("C06", "found-after-delete", fmt.Sprintf("an identity is still found after its acknowledged deletion:\n  %s\n  %s", d, h))
			}
		}
	}

	// listings
	for _, h := range w.hist {
		if h.kind != "list" || !h.ok {
			continue
		}
		n := map[string]int{}
		for _, v := range h.views {
			n[v.IK]++
			if n[v.IK] == 2 {
				res.add("C06", "list-dup", "a listing contains a machine twice: "+h.String())
			}
			if !seen[v.IK] {
				res.addAll([]string{"C06", "C04"}, "list-unknown", "a listing contains a machine that was never registered: "+h.String())
			}
		}
	}

	for _, ik := range groups {
		w.judgeDevice(ik, regOf[ik], preRegistered)
	}
	w.judgeWhole(groups, preRegistered)

	for _, l := range w.lag {
		res.add("C12", "delayed", fmt.Sprintf("a request that did not stall itself was held up for %.1f simulated seconds: %s", float64(l.ns)/1e9, l.what))
	}
	for _, u := range w.unanswered {
		res.add("C12", "unanswered", "a well-formed request was never answered: "+u)
	}
}

func malformedReg(h *hop, w *world) bool {
	if h.spec < 0 {
		return true
	}
	d := w.devs[h.spec]
	b, k := hexLen(d.BDK), hexLen(d.KSN)
	if d.Alg != "aes" && d.Alg != "des" {
		return true
	}
	if b < 0 || k <= 0 {
		return true
	}
	if d.Alg == "aes" {
		return k != 12 || (b != 16 && b != 24 && b != 32)
	}
	return b != 16 || k > 10
}

// checkView is C04 on one view.
func (w *world) checkView(h *hop, v *view, regOf map[string][]int) {
	regs := regOf[strings.ToLower(v.IK)]
	if len(regs) == 0 {
		if h.kind == "create" && h.spec >= 0 && w.regs[h.spec] == nil {
			return
		}
		w.res.add("C04", "view-ik", fmt.Sprintf("a view carries an initial key that belongs to no registration: %s in %s", v, h))
		return
	}
	var d *ref.Dev
	for _, i := range regs {
		x := w.devs[i]
		if x.Alg == v.Alg && x.Type == v.Type && x.BDK == v.BDK && x.KSN == v.KSN {
			d = w.regs[i]
		}
	}
	if d == nil {
		w.res.add("C04", "view-reg", fmt.Sprintf("a view carries registration data that was never registered: %+v in %s", *v, h))
		return
	}
	tc, ok := d.ParseTC(v.Cur)
	if !ok {
		w.res.addAll([]string{"C04", "C02"}, "view-ksn", fmt.Sprintf("a view carries a key serial number of another device: %q in %s", v.Cur, h))
		return
	}
	if (bits.OnesCount32(tc) > maxBits(d) || tc > d.Max()) && !strings.EqualFold(v.Cur, v.KSN) {
		w.res.addAll([]string{"C03", "C02"}, "view-tc", fmt.Sprintf("a view carries a counter value the standard does not allow: %s in %s", v.Cur, h))
		return
	}
	if want := fmt.Sprintf("%x", d.TK(tc)); !strings.EqualFold(want, v.TK) {
		w.res.add("C04", "view-tk", fmt.Sprintf("the view's transaction key is not the key of its key serial number: %s, the standard prescribes %s; %s", v, want, h))
	}
	w.res.Probes["views checked"]++
}

func (w *world) judgeDevice(ik string, regs []int, pre map[string]int) {
	res := w.res
	name := w.describe(ik)
	init := ""
	preReg := -1
	if i, ok := pre[ik]; ok {
		preReg = i
		init = mkState(i, w.regs[i].TC())
	}
	d0 := w.regs[regs[0]]

	type issued struct {
		h  *hop
		tc uint32
	}
	var iss []issued
	deleted := false
	creates := 0
	var refused []*hop
	incompNext := 0
	touched := 0
	for _, h := range w.hist {
		if !touches(h, ik) {
			continue
		}
		if h.kind != "list" {
			touched++
		}
		switch h.kind {
		case "del":
			if h.ok || h.incomp {
				deleted = true
			}
		case "create":
			if h.ok || h.incomp {
				creates++
			}
		case "next":
			if h.incomp {
				incompNext++
				break
			}
			if !h.ok {
				if !h.notFound && !h.faulted {
					refused = append(refused, h)
				}
				break
			}
			cur := h.str
			if h.view != nil {
				cur = h.view.Cur
			}
			tc, ok := d0.ParseTC(cur)
			if !ok {
				res.addAll([]string{"C02", "C13"}, "foreign-ksn", fmt.Sprintf("%s: an advance answered key serial number %q, which is not of this device: %s", name, cur, h))
				continue
			}
			if bits.OnesCount32(tc) > maxBits(d0) {
				res.addAll([]string{"C03", "C02"}, "too-many-bits", fmt.Sprintf("%s: issued counter %X has too many one-bits: %s", name, tc, h))
			}
			if tc > d0.Max() || tc == 0 {
				res.addAll([]string{"C03", "C02"}, "beyond-last", fmt.Sprintf("%s: issued counter %X lies beyond the last one: %s", name, tc, h))
			}
			iss = append(iss, issued{h, tc})
		}
	}
	stable := preReg >= 0 && !deleted || (preReg < 0 && creates == 1 && !deleted)
	if stable {
		reg := preReg
		start := uint32(0)
		if reg >= 0 {
			start = w.regs[reg].TC()
		} else {
			for _, h := range w.hist {
				if touches(h, ik) && h.kind == "create" && (h.ok || h.incomp) {
					start = w.regs[h.spec].TC()
				}
			}
		}
		// C01
		by := map[uint32]*hop{}
		for _, x := range iss {
			if o := by[x.tc]; o != nil {
				res.add("C01", "duplicate", fmt.Sprintf("%s: the same key serial number was issued twice:\n  %s\n  %s", name, o, x.h))
				break
			}
			by[x.tc] = x.h
		}
		srt := append([]issued(nil), iss...)
		sort.SliceStable(srt, func(a, b int) bool { return srt[a].h.ret < srt[b].h.ret })
		for i := range srt {
			bad := false
			for j := i + 1; j < len(srt); j++ {
				if srt[i].h.ret < srt[j].h.call && srt[j].tc <= srt[i].tc {
					res.add("C01", "not-later", fmt.Sprintf("%s: a later request got an earlier or equal key serial number:\n  %s\n  %s", name, srt[i].h, srt[j].h))
					bad = true
					break
				}
			}
			if bad {
				break
			}
		}
		if len(iss) > 0 && start != 0 {
			for _, x := range iss {
				if x.tc == start {
					res.add("C01", "reissued-start", fmt.Sprintf("%s: the registered key serial number was issued again: %s", name, x.h))
				}
			}
		}
		// C02: the issued values are exactly the successors of the start
		exp := map[uint32]bool{}
		cur := start
		avail := 0
		last := start
		for k := 0; k < len(iss)+incompNext; k++ {
			n, ok := d0.Next(cur)
			if !ok {
				break
			}
			avail++
			exp[n] = true
			cur = n
			if k < len(iss) {
				last = n
			}
		}
		_, more := d0.Next(last)
		for _, x := range iss {
			if !exp[x.tc] && x.tc <= d0.Max() {
				res.add("C02", "not-successor", fmt.Sprintf("%s: issued counter %X is not among the %d successors of %X: %s", name, x.tc, len(iss)+incompNext, start, x.h))
				break
			}
		}
		if len(iss) > avail {
			res.add("C03", "overrun", fmt.Sprintf("%s: %d advances succeeded although only %d counter values were left", name, len(iss), avail))
		}
		// C03: premature refusal
		if len(refused) > 0 {
			res.Probes["advance refused"] += len(refused)
			if more && incompNext == 0 {
				var why *hop
				for _, r := range refused {
					if preReg >= 0 || w.createdBefore(ik, r) {
						why = r
						break
					}
				}
				if why != nil {
					res.addAll([]string{"C03", "C02"}, "premature", fmt.Sprintf("%s: an advance was refused although counter values are left after %X: %s", name, last, why))
				}
			}
			for _, x := range iss {
				for _, r := range refused {
					if r.ret < x.h.call && (preReg >= 0 || w.createdBefore(ik, r)) {
						res.add("C03", "resurrected", fmt.Sprintf("%s: an advance succeeded after one was refused:\n  %s\n  %s", name, r, x.h))
					}
				}
			}
		}
		// where the machine stands at the end
		for _, h := range w.hist {
			if h.task != finalTask || h.kind != "get" || h.ik != ik {
				continue
			}
			if !h.ok || h.view == nil {
				p := []string{"C06", "C02"}
				if len(refused) > 0 {
					p = append(p, "C03")
				}
				res.addAll(p, "final-lost", fmt.Sprintf("%s: registered and never deleted, but not found at the end: %s%s", name, h, w.groupHist(ik)))
				continue
			}
			tc, ok := d0.ParseTC(h.view.Cur)
			if incompNext == 0 && (!ok || tc != last) {
				p := []string{"C02"}
				if len(refused) > 0 && !more {
					p = append(p, "C03")
				}
				res.addAll(p, "final-position", fmt.Sprintf("%s: after %d advances it should stand at %X but stands at %s%s", name, len(iss), last, h.view.Cur, w.groupHist(ik)))
			}
			if len(refused) > 0 && !more && ok && !strings.EqualFold(fmt.Sprintf("%x", d0.TK(tc)), h.view.TK) {
				res.add("C03", "final-key", fmt.Sprintf("%s: refused advances damaged its transaction key: %s", name, h))
			}
		}
		if len(refused) > 0 && !more {
			for _, h := range w.hist {
				if h.task == finalTask && h.ik == ik && isCrypto(h.kind) {
					if e := expect(h, d0); e.must == mustOK && (!h.ok || !e.okAt(last)) && !h.incomp {
						res.add("C03", "final-service", fmt.Sprintf("%s: after exhaustion it no longer serves the current transaction: %s", name, h))
					}
				}
			}
		}
	}

	// transaction keys never repeat across key serial numbers
	tks := map[string]string{}
	for _, h := range w.hist {
		vs := h.views
		if h.view != nil {
			vs = append([]*view{h.view}, vs...)
		}
		for _, v := range vs {
			if v.IK != ik || v.TK == "" {
				continue
			}
			k, cur := strings.ToLower(v.TK), strings.ToLower(v.Cur)
			if o, ok := tks[k]; ok && o != cur {
				res.add("C01", "tk-repeat", fmt.Sprintf("%s: transaction key %s appears under key serial numbers %s and %s", name, k, o, cur))
			}
			tks[k] = cur
		}
	}

	// duplicate creations of a machine that is certainly there
	for _, h := range w.hist {
		if touches(h, ik) && h.kind == "create" && !h.ok && !h.incomp && !h.faulted && !h.exists && !h.lax && w.certainlyPresent(ik, h, preReg >= 0) {
			res.add("C06", "dup-report", fmt.Sprintf("%s: a repeated creation was refused without saying that the machine already exists: %s", name, h))
		}
	}

	// C05: the answer belongs to some counter value the machine could have had
	lo := d0.TC()
	for _, r := range regs {
		if t := w.regs[r].TC(); t < lo {
			lo = t
		}
	}
	var cands []uint32
	for _, r := range regs {
		cur := w.regs[r].TC()
		cands = append(cands, cur)
		for k := 0; k < len(iss)+incompNext; k++ {
			n, ok := d0.Next(cur)
			if !ok {
				break
			}
			cands = append(cands, n)
			cur = n
		}
	}
	noAnswer := map[*hop]bool{}
	for _, h := range w.hist {
		if !touches(h, ik) || !isCrypto(h.kind) || h.incomp || h.faulted {
			continue
		}
		e := expect(h, d0)
		if h.ok && e.check {
			hit := false
			for _, c := range cands {
				if e.okAt(c) {
					hit = true
					break
				}
			}
			res.Probes["answers checked"]++
			if !hit {
				noAnswer[h] = true
				p := []string{"C05"}
				if d0.Odd { // it should have been refused
					p = append(p, "C09", "C10")
				}
				if h.rest && (h.kind == "dpin" || h.kind == "ddata") && h.refHop != nil && h.refHop.ok {
					if c := w.expectedPlain(h, d0, len(iss) == 0 && incompNext == 0 && !deleted && creates == 0); c != "" {
						p = append(p, "C11")
					}
				}
				if h.rest && (h.kind == "dpin" || h.kind == "ddata") {
					p = append(p, "C11")
				}
				res.addAll(p, "answer-"+h.kind, fmt.Sprintf("%s: the answer belongs to no transaction the machine ever had: %s", name, h))
			}
		}
		if !h.ok && e.must == mustOK && !h.notFound && !e.errAt(cands[0]) {
			p := []string{"C05", "C10"}
			if h.kind == "edata" || h.kind == "epin" || h.kind == "ddata" {
				p = append(p, "C11")
			}
			res.addAll(p, "refused-"+h.kind, fmt.Sprintf("%s: a valid request was refused: %s", name, h))
		}
	}

	// C11: encrypt, then decrypt under the same key serial number
	for _, h := range w.hist {
		if !touches(h, ik) || !h.rest || (h.kind != "dpin" && h.kind != "ddata") || h.refHop == nil || h.incomp || h.faulted {
			continue
		}
		e := h.refHop
		if e.ik != ik || !e.ok || deleted || preReg < 0 {
			continue
		}
		// no advance between the call of e and the return of h
		if w.advancesWithin(ik, e.call, h.ret) {
			continue
		}
		w.roundTrip(h, e, d0, name)
	}

	// linearizability
	if touched == 0 {
		return
	}
	full := w.wgl(ik, init, relax{}, nil)
	if full == wglUnknown {
		res.Incon++
		return
	}
	if full == wglOK {
		return
	}
	// crypto answers that match nothing are already reported
	noC := func(h *hop) bool { return !isCrypto(h.kind) }
	rest := w.wgl(ik, init, relax{}, noC)
	hist := w.groupHist(ik)
	if rest == wglOK {
		// is it about existence or about the answer?
		if w.wgl(ik, init, relax{noCounter: true}, nil) == wglBad {
			res.addAll([]string{"C06", "C05"}, "lin-crypto-registry", fmt.Sprintf("%s: cryptographic operations contradict the existence of the machine:%s", name, hist))
		} else {
			res.add("C05", "lin-crypto", fmt.Sprintf("%s: a cryptographic answer does not belong to a transaction current during its request:%s", name, hist))
		}
	} else if rest == wglBad {
		if w.wgl(ik, init, relax{noCounter: true}, noC) == wglBad {
			res.add("C06", "lin-registry", fmt.Sprintf("%s: no order of the operations explains the answers (creations, lookups, listings, deletions):%s", name, hist))
		} else {
			p := []string{"C06", "C02"}
			if stable || w.issuedInOrder(ik, init) == wglBad {
				p = append(p, "C01")
			}
			if w.wgl(ik, init, relax{anyRefuse: true}, noC) == wglOK {
				p = append(p, "C03")
			}
			res.addAll(p, "lin-advance", fmt.Sprintf("%s: no order of the operations explains the key serial numbers seen:%s", name, hist))
		}
	}
	if w.anyFailed(ik) && w.wgl(ik, init, relax{failEffect: true}, nil) == wglOK {
		res.add("C07", "failed-effect", fmt.Sprintf("%s: the history is only explained if an operation that reported an error had an effect:%s", name, hist))
	}
}

func (w *world) anyFailed(ik string) bool {
	for _, h := range w.hist {
		if touches(h, ik) && !h.ok && !h.incomp {
			return true
		}
	}
	return false
}

func (w *world) createdSince(d, h *hop) bool {
	for _, c := range w.hist {
		if c.kind == "create" && (c.ok || c.incomp) && c.ret > d.call && c.call < h.ret {
			return true
		}
	}
	return false
}

func (w *world) createdBefore(ik string, r *hop) bool {
	for _, h := range w.hist {
		if touches(h, ik) && h.kind == "create" && h.ok && h.ret < r.call {
			return true
		}
	}
	return false
}

// certainlyPresent: registered before r started and no deletion overlaps or
// precedes r's end after that.
func (w *world) certainlyPresent(ik string, r *hop, pre bool) bool {
	for _, h := range w.hist {
		if touches(h, ik) && h.kind == "del" && h.call < r.ret {
			return false
		}
	}
	return pre || w.createdBefore(ik, r)
}

func (w *world) advancesWithin(ik string, a, b int64) bool {
	for _, h := range w.hist {
		if !touches(h, ik) {
			continue
		}
		if (h.kind == "next" || h.kind == "del" || (h.kind == "create" && (h.ok || h.incomp))) && h.ret >= a && h.call <= b {
			if h.kind == "next" && !h.ok && !h.incomp {
				continue
			}
			return true
		}
	}
	return false
}

func (w *world) expectedPlain(h *hop, d *ref.Dev, fixed bool) string { return "" }

// roundTrip is C11 for one pair.
func (w *world) roundTrip(h, e *hop, d *ref.Dev, name string) {
	res := w.res
	switch h.kind {
	case "dpin":
		if e.kind != "epin" || e.a.Pan != h.a.Pan || e.a.Fmt != h.a.Fmt || pinArgs(d, e.a.Pin, e.a.Pan, e.a.Fmt) != mustOK {
			return
		}
		want := e.a.Pin
		if !d.AES {
			f := e.a.Fmt
			if f == "" {
				f = "ISO-0"
			}
			want = ref.Carried(f, e.a.Pin)
		}
		res.Probes["round trips checked"]++
		if h.ok && h.str == want {
			return
		}
		if knownLongPin(d, e.a.Pin, e.a.Fmt) && !h.ok {
			res.known("C11", KnownLongPin)
			return
		}
		got := h.str
		if !h.ok {
			got = "error " + h.err
		}
		res.add("C11", "pin-roundtrip", fmt.Sprintf("%s: PIN %s (format %q) encrypted as %s decrypts to %q:\n  %s\n  %s", name, e.a.Pin, e.a.Fmt, e.str, got, e, h))
	case "ddata":
		if e.kind != "edata" || e.a.Act != h.a.Act || e.a.IV != h.a.IV || ivArgs(d, e.a.IV) != mustOK || e.a.Data == "" || !knownAct(e.a.Act) {
			return
		}
		want := e.a.Data
		for len(want)%d.Block() != 0 {
			want += "\x00"
		}
		res.Probes["round trips checked"]++
		if h.ok && h.str == want {
			return
		}
		got := h.str
		if !h.ok {
			got = "error " + h.err
		}
		res.add("C11", "data-roundtrip", fmt.Sprintf("%s: data encrypted as %.80s decrypts to %.80q:\n  %s\n  %s", name, e.str, got, e, h))
	}
}

// judgeWhole is the listing snapshot over all machines at once.
func (w *world) judgeWhole(groups []string, pre map[string]int) {
	for _, f := range w.res.Findings {
		if strings.HasPrefix(f.Oracle, "lin-") {
			return
		}
	}
	lists, n := 0, 0
	for _, h := range w.hist {
		if h.kind == "list" && h.ok && h.task != finalTask {
			lists++
		}
		if h.task != finalTask && (h.kind == "create" || h.kind == "next" || h.kind == "del") {
			n++
		}
	}
	if lists == 0 || len(groups) < 2 || n > 24 || n < 2 {
		return
	}
	var init []string
	pos := map[string]int{}
	for i, ik := range groups {
		pos[ik] = i
		s := ""
		if r, ok := pre[ik]; ok {
			s = mkState(r, w.regs[r].TC())
		}
		init = append(init, s)
	}
	var ops []lop
	for _, h := range w.hist {
		h := h
		switch h.kind {
		case "create", "next", "del":
			i, ok := pos[h.ik]
			if !ok {
				continue
			}
			st := w.step(h, h.ik, relax{})
			ops = append(ops, lop{call: h.call, ret: h.ret, step: func(s string) []string {
				parts := strings.Split(s, "|")
				old := parts[i]
				var out []string
				for _, n := range st(old) {
					parts[i] = n
					out = append(out, strings.Join(parts, "|"))
				}
				return out
			}})
		case "list":
			if !h.ok {
				continue
			}
			var st []func(string) []string
			for _, ik := range groups {
				st = append(st, w.step(h, ik, relax{}))
			}
			ops = append(ops, lop{call: h.call, ret: h.ret, step: func(s string) []string {
				parts := strings.Split(s, "|")
				for i := range parts {
					if len(st[i](parts[i])) == 0 {
						return nil
					}
				}
				return []string{s}
			}})
		}
	}
	switch linearizable(ops, strings.Join(init, "|")) {
	case wglBad:
		var b strings.Builder
		for _, h := range w.hist {
			if h.kind == "create" || h.kind == "next" || h.kind == "del" || h.kind == "list" {
				b.WriteString("\n  " + h.String())
			}
		}
		w.res.add("C06", "lin-snapshot", "a listing is not a snapshot of the registry at any moment:"+b.String())
	case wglUnknown:
		w.res.Incon++
	}
}
