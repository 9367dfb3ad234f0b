package main

import "fmt"

// linOp is one completed operation on one key.  State 0 is "absent", any other
// state is the value held.
type linOp struct {
	call, ret int
	what      string
	step      func(s int) (int, bool) // next state, and whether the observed result fits
}

// linHist is the history of one key.
type linHist struct{ ops []linOp }

// linearizable searches an order of the operations that is consistent with
// real time and with every observed result (Wing and Gong, with memoization).
func (h *linHist) linearizable(init int) bool {
	n := len(h.ops)
	if n > 62 {
		panic("history too long")
	}
	type key struct {
		done uint64
		s    int
	}
	seen := map[key]bool{}
	var rec func(done uint64, s int) bool
	rec = func(done uint64, s int) bool {
		if done == 1<<n-1 {
			return true
		}
		k := key{done, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int(^uint(0) >> 1) // the earliest return among those pending
		for i, o := range h.ops {
			if done>>i&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range h.ops {
			if done>>i&1 == 1 || o.call > first {
				continue
			}
			if t, ok := o.step(s); ok && rec(done|1<<i, t) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

func (h *linHist) String() string {
	s := ""
	for _, o := range h.ops {
		s += fmt.Sprintf(" [%d-%d %s]", o.call, o.ret, o.what)
	}
	return s
}

// The operations of a map, seen from one key.

func opSet(v int) func(int) (int, bool) { return func(int) (int, bool) { return v, true } }

func opGet(v int) func(int) (int, bool) { return func(s int) (int, bool) { return s, s == v } }

func opHas(b bool) func(int) (int, bool) {
	return func(s int) (int, bool) { return s, (s != 0) == b }
}

func opRemove() func(int) (int, bool) { return func(int) (int, bool) { return 0, true } }

func opPop(v int) func(int) (int, bool) { return func(s int) (int, bool) { return 0, s == v } }

func opSetNX(v int, ok bool) func(int) (int, bool) {
	return func(s int) (int, bool) {
		if s == 0 {
			return v, ok
		}
		return s, !ok
	}
}

// opRemoveIf saw v and removed it or not.
func opRemoveIf(v int, removed bool) func(int) (int, bool) {
	return func(s int) (int, bool) {
		if s != v {
			return s, false
		}
		if removed {
			return 0, true
		}
		return s, true
	}
}
