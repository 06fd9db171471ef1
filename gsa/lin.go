package main

import (
	"go/types"
	"sort"
)

// Lin is a linear form over opaque atoms.
type Lin struct {
	c    int64
	m    map[string]int64
	a    map[string]*Term
	fail bool
}

func linC(c int64) *Lin { return &Lin{c: c, m: map[string]int64{}, a: map[string]*Term{}} }

func (l *Lin) add(o *Lin, f int64) *Lin {
	r := linC(l.c + f*o.c)
	r.fail = l.fail || o.fail
	for k, v := range l.m {
		r.m[k] = v
		r.a[k] = l.a[k]
	}
	for k, v := range o.m {
		r.m[k] += f * v
		r.a[k] = o.a[k]
		if r.m[k] == 0 {
			delete(r.m, k)
			delete(r.a, k)
		}
	}
	return r
}

func (l *Lin) isConst() (int64, bool) { return l.c, len(l.m) == 0 && !l.fail }

func (l *Lin) eq(o *Lin) bool {
	d := l.add(o, -1)
	return !d.fail && d.c == 0 && len(d.m) == 0
}

func bits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	u := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, u
	case types.Int16, types.Uint16:
		return 16, u
	case types.Int32, types.Uint32:
		return 32, u
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64, u
	}
	return 0, u
}

// widening: a conversion that keeps every value (an int is 64 bits wide here)
func widening(from, to types.Type) bool {
	fb, fu := bits(from)
	tb, tu := bits(to)
	if fb == 0 || tb == 0 {
		return false
	}
	if fu == tu {
		return tb >= fb
	}
	return fu && !tu && tb > fb
}

func lin(t *Term) *Lin {
	if t == nil {
		return linC(0)
	}
	if n, ok := t.constInt(); ok {
		return linC(n)
	}
	switch t.K {
	case KBin:
		switch t.Op {
		case "+":
			return lin(t.A[0]).add(lin(t.A[1]), 1)
		case "-":
			return lin(t.A[0]).add(lin(t.A[1]), -1)
		}
	case KConv:
		if t.A[0].T != nil && widening(t.A[0].T, t.T) {
			return lin(t.A[0])
		}
		// int to uint64 and back of a length
		if fb, _ := bits(t.A[0].T); fb == 64 {
			if tb, _ := bits(t.T); tb == 64 {
				return lin(t.A[0])
			}
		}
	case KLen:
		if t.Op == "len" {
			return lenLin(t.A[0])
		}
	}
	l := linC(0)
	l.m[t.Key()] = 1
	l.a[t.Key()] = t
	return l
}

// lenLin is the length of a slice value.
func lenLin(t *Term) *Lin {
	switch t.K {
	case KSlice:
		if a := t.A[0]; a.K == KAlloc && t.A[2].isNilConst() {
			if arr, ok := deref(a.T).Underlying().(*types.Array); ok {
				return linC(arr.Len()).add(lin0(t.A[1]), -1)
			}
		}
		if !t.A[2].isNilConst() {
			return lin(t.A[2]).add(lin0(t.A[1]), -1)
		}
		return lenLin(t.A[0]).add(lin0(t.A[1]), -1)
	case KMake:
		if len(t.A) > 0 {
			return lin(t.A[0])
		}
	case KAppend:
		return lenLin(t.A[0]).add(lenLin(t.A[1]), 1)
	case KConst:
		if s, ok := t.constStr(); ok {
			return linC(int64(len(s)))
		}
		if t.isNilConst() {
			return linC(0)
		}
	case KAlloc:
		if arr, ok := deref(t.T).Underlying().(*types.Array); ok {
			return linC(arr.Len())
		}
	case KConv:
		return lenLin(t.A[0])
	}
	l := linC(0)
	k := "len:" + t.Key()
	l.m[k] = 1
	l.a[k] = &Term{K: KLen, Op: "len", A: []*Term{t}, T: types.Typ[types.Int]}
	return l
}

func lin0(t *Term) *Lin {
	if t == nil || t.isNilConst() {
		return linC(0)
	}
	return lin(t)
}

// DBM is a set of difference constraints x - y <= c ("" is zero): an inequality graph.
type DBM struct {
	e     map[[2]string]int64
	nodes map[string]*Term
}

func newDBM() *DBM { return &DBM{e: map[[2]string]int64{}, nodes: map[string]*Term{"": nil}} }

// le records l <= 0; forms that are not differences are left out.
func (d *DBM) le(l *Lin) {
	x, y, ok := diff(l)
	if !ok {
		return
	}
	d.node(x, l.a[x])
	d.node(y, l.a[y])
	k := [2]string{x, y}
	if v, ok := d.e[k]; !ok || -l.c < v {
		d.e[k] = -l.c
	}
}

// diff: l = x - y + c
func diff(l *Lin) (x, y string, ok bool) {
	if l.fail || len(l.m) > 2 {
		return
	}
	var ks []string
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch l.m[k] {
		case 1:
			if x != "" {
				return "", "", false
			}
			x = k
		case -1:
			if y != "" {
				return "", "", false
			}
			y = k
		default:
			return "", "", false
		}
	}
	return x, y, true
}

func (d *DBM) node(k string, t *Term) {
	if k == "" {
		return
	}
	if _, ok := d.nodes[k]; ok {
		return
	}
	d.nodes[k] = t
	// what the atom's own shape says
	if t == nil {
		return
	}
	if t.K == KLen {
		d.set("", k, 0)
		return
	}
	if b, u := bits(t.T); u {
		d.set("", k, 0)
		if b < 63 && b > 0 {
			d.set(k, "", int64(1)<<uint(b)-1)
		}
	}
	if t.K == KConv && t.A[0].T != nil {
		if _, u := bits(t.T); u {
			// a truncation of a non-negative value never exceeds it
			src := lin(t.A[0])
			if d.proveGE0(src) {
				r := linC(0)
				r.m[k] = 1
				r.a[k] = t
				d.le(r.add(src, -1))
			}
		}
	}
}

func (d *DBM) set(x, y string, c int64) {
	k := [2]string{x, y}
	if v, ok := d.e[k]; !ok || c < v {
		d.e[k] = c
	}
}

// proveGE0 proves l >= 0.
func (d *DBM) proveGE0(l *Lin) bool {
	if c, ok := l.isConst(); ok {
		return c >= 0
	}
	y, x, ok := diff(l) // l = y - x + c >= 0  <=>  x - y <= c
	if !ok {
		return false
	}
	d.node(x, l.a[x])
	d.node(y, l.a[y])
	// shortest path bound of x - y
	dist := map[string]int64{y: 0}
	for i := 0; i <= len(d.nodes); i++ {
		ch := false
		for k, c := range d.e {
			// k[0] - k[1] <= c : from k[1] to k[0]
			if v, ok := dist[k[1]]; ok {
				if w, ok := dist[k[0]]; !ok || v+c < w {
					dist[k[0]] = v + c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	v, ok := dist[x]
	return ok && v <= l.c
}

// assumeEv adds what a path condition says.
func (d *DBM) assumeEv(e *Event) {
	t, v := e.Cond, e.Val
	for t.K == KNot {
		t, v = t.A[0], !v
	}
	if t.K != KBin || len(t.A) != 2 || t.A[0].T == nil || t.A[1].T == nil {
		return
	}
	if b, _ := bits(t.A[0].T); b == 0 {
		return
	}
	a, b := lin(t.A[0]), lin(t.A[1])
	op := t.Op
	if !v {
		op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	// make both sides known first, so that truncations are bounded
	for k, n := range a.a {
		d.node(k, n)
	}
	for k, n := range b.a {
		d.node(k, n)
	}
	switch op {
	case "<":
		d.le(a.add(b, -1).add(linC(1), 1))
	case "<=":
		d.le(a.add(b, -1))
	case ">":
		d.le(b.add(a, -1).add(linC(1), 1))
	case ">=":
		d.le(b.add(a, -1))
	case "==":
		d.le(a.add(b, -1))
		d.le(b.add(a, -1))
	}
}
