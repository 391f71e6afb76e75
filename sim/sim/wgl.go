package sim

import (
	"sort"
	"strconv"
	"strings"
)

// lop is one operation of a history to linearize.
type lop struct {
	call, ret int64
	// step applies the operation to a state and returns the states that may
	// follow given what was observed (none: impossible here).
	step func(state string) []string
	desc string
}

const wglCap = 60000

type wglRes int

const (
	wglOK wglRes = iota
	wglBad
	wglUnknown
)

// linearizable searches for an order of the operations that respects real
// time and the model (Wing & Gong with memoisation).
func linearizable(ops []lop, init string) wglRes {
	n := len(ops)
	if n == 0 {
		return wglOK
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ops[idx[a]].call < ops[idx[b]].call })
	o := make([]lop, n)
	for i, j := range idx {
		o[i] = ops[j]
	}
	done := make([]bool, n)
	seen := map[string]bool{}
	nodes := 0
	var key strings.Builder
	var rec func(first int, left int, st string) wglRes
	rec = func(first, left int, st string) wglRes {
		if left == 0 {
			return wglOK
		}
		nodes++
		if nodes > wglCap {
			return wglUnknown
		}
		for first < n && done[first] {
			first++
		}
		key.Reset()
		key.WriteString(strconv.Itoa(first))
		key.WriteByte(':')
		last := n - 1
		for last > first && !done[last] {
			last--
		}
		for i := first; i <= last; i++ {
			if done[i] {
				key.WriteByte('1')
			} else {
				key.WriteByte('0')
			}
		}
		key.WriteByte('|')
		key.WriteString(st)
		k := key.String()
		if seen[k] {
			return wglBad
		}
		seen[k] = true
		// earliest return among pending operations bounds the candidates
		minRet := int64(1) << 62
		for i := first; i < n; i++ {
			if o[i].call > minRet {
				break
			}
			if !done[i] && o[i].ret < minRet {
				minRet = o[i].ret
			}
		}
		res := wglBad
		for i := first; i < n && o[i].call <= minRet; i++ {
			if done[i] {
				continue
			}
			for _, ns := range o[i].step(st) {
				done[i] = true
				r := rec(first, left-1, ns)
				done[i] = false
				if r == wglOK {
					return r
				}
				if r == wglUnknown {
					res = wglUnknown
				}
			}
		}
		return res
	}
	return rec(0, n, init)
}
