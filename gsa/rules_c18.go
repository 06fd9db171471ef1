package main

import (
	"go/types"
	"strings"
)

// C18: the bytes of the raw operations. A path of the reading operation is a little
// computation on byte sequences: what was kept before, what was received on the path, what
// was copied to the caller and what is kept afterwards. The sequences are compared piece
// by piece, so that it does not matter in which order the code cuts and joins them.

// piece is the part [from, to) of a sequence
type piece struct {
	base     string
	t        *Term
	from, to *Lin
}

type rawPath struct {
	c     *Ctx
	o     *Outcome
	cache *types.Var // where the rest of what was received is kept
	buf   *types.Var // the caller's buffer
	d     *DBM       // what the path knows about lengths
	n     map[string]*Lin
	data  map[string]int // data received on the path, in order
	same  map[int]*Term
	none  map[string]bool // later looks at a rest seen to be empty
	empty map[string]int  // rests known to be empty: where it was seen
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, is := t.Underlying().(*types.Slice)
	return is && types.Identical(sl.Elem(), types.Typ[types.Byte])
}

func (r *rawPath) isCache(t *Term) bool {
	v, _ := fieldOf(t)
	return v != nil && v == r.cache
}

// lin is a length in terms of how many bytes were copied
func (r *rawPath) lin(t *Term) *Lin {
	l := lin0(t)
	for changed := true; changed; {
		changed = false
		for k, v := range l.m {
			if by := r.n[k]; by != nil {
				a := linC(0)
				a.m[k], a.a[k] = 1, l.a[k]
				l = l.add(a, -v).add(by, v)
				changed = true
				break
			}
			// nothing is kept
			if x := l.a[k]; x != nil && x.K == KLen {
				if _, is := r.empty[r.baseOf(x.A[0])]; is || r.none[strip(x.A[0]).Key()] {
					a := linC(0)
					a.m[k], a.a[k] = 1, l.a[k]
					l = l.add(a, -v)
					changed = true
					break
				}
			}
			// the data of one packet is the same whenever it is looked at
			if x := l.a[k]; x != nil && x.K == KLen {
				if d := r.dataOf(x.A[0]); d != nil && d.Key() != strip(x.A[0]).Key() {
					a := linC(0)
					a.m[k], a.a[k] = 1, l.a[k]
					l = l.add(a, -v).add(lenLin(d), v)
					changed = true
					break
				}
			}
			// the smaller of two lengths is how much is copied between them
			if x := l.a[k]; x != nil && x.K == KPure && x.Op == "min" && len(x.A) == 2 {
				by := (*Lin)(nil)
				for _, e := range r.o.Events {
					if e.Kind != EvCopy || len(e.Args) < 2 {
						continue
					}
					a, b := lenLin(e.Args[0]), lenLin(e.Args[1])
					if p, q := lin(x.A[0]), lin(x.A[1]); p.eq(a) && q.eq(b) || p.eq(b) && q.eq(a) {
						by = lin(e.Res)
					}
				}
				if by != nil {
					a := linC(0)
					a.m[k], a.a[k] = 1, l.a[k]
					l = l.add(a, -v).add(by, v)
					changed = true
					break
				}
			}
		}
	}
	return l
}

// dataOf: the data of a packet received on the path, as it was looked at first
func (r *rawPath) dataOf(t *Term) *Term {
	t = strip(t)
	v, _ := fieldOf(t)
	if v == nil || v.Name() != "Data" || !isBytes(v.Type()) {
		return nil
	}
	i, ok := r.received(t)
	if !ok {
		return nil
	}
	if r.same[i] == nil {
		r.same[i] = t
	}
	return r.same[i]
}

// copied: how many bytes a copy copies
func (r *rawPath) copied(e *Event) {
	k := e.Res.Key()
	dst, src := lenLin(e.Args[0]), lenLin(e.Args[1])
	switch {
	case r.d.proveGE0(dst.add(src, -1)):
		r.n[k] = src
	case r.d.proveGE0(src.add(dst, -1)):
		r.n[k] = dst
	}
	// whatever it is, it is no more than either
	me := lin(e.Res)
	r.d.le(me.add(dst, -1))
	r.d.le(me.add(src, -1))
	r.d.le(linC(0).add(me, -1))
}

// seq: the bytes of a slice
func (r *rawPath) seq(t *Term) ([]piece, bool) {
	t = strip(t)
	if t == nil {
		return nil, false
	}
	if t.K == KConv && isBytes(t.T) {
		return r.seq(t.A[0])
	}
	if t.isNilConst() {
		return nil, true
	}
	whole := func(base string) []piece {
		return []piece{{base, t, linC(0), r.lin(&Term{K: KLen, Op: "len", A: []*Term{t}, T: types.Typ[types.Int]})}}
	}
	switch t.K {
	case KLoad, KField, KSnap:
		x := t
		if x.K == KSnap {
			x = strip(x.A[0])
		}
		if r.isCache(x) {
			if r.none[t.Key()] {
				return nil, true
			}
			return whole(t.Key()), true
		}
		if d := r.dataOf(x); d != nil {
			t = d
			return whole(t.Key()), true
		}
	case KParam:
		return whole(t.Key()), true
	case KSlice:
		if len(t.A) < 3 {
			return nil, false
		}
		s, ok := r.seq(t.A[0])
		if !ok {
			return nil, false
		}
		var to *Lin
		if !t.A[2].isNilConst() {
			to = r.lin(t.A[2])
		}
		return r.sub(s, r.lin(t.A[1]), to)
	case KAppend:
		var all []piece
		for _, a := range t.A {
			s, ok := r.seq(a)
			if !ok {
				return nil, false
			}
			all = append(all, s...)
		}
		return all, true
	case KMake:
		if t.Op != "slice" || len(t.A) == 0 {
			return nil, false
		}
		if n, is := r.lin(t.A[0]).isConst(); is && n == 0 {
			return nil, true
		}
		for _, e := range r.o.Events {
			if e.Kind == EvCopy && strip(e.Args[0]).Key() == t.Key() && lenLin(t).eq(lenLin(e.Args[1])) {
				return r.seq(e.Args[1])
			}
		}
	case KPure, KCall:
		if (strings.HasSuffix(t.Op, "bytes.Clone") || strings.Contains(t.Op, "slices.Clone")) && len(t.A) == 1 {
			return r.seq(t.A[0])
		}
	case KAlloc:
		// an empty literal
		if n, is := lenLin(t).isConst(); is && n == 0 {
			return nil, true
		}
	}
	return nil, false
}

func (r *rawPath) size(s []piece) *Lin {
	n := linC(0)
	for _, p := range s {
		n = n.add(p.to, 1).add(p.from, -1)
	}
	return n
}

// sub cuts a sequence at positions that fall on its pieces or into one it can tell
func (r *rawPath) sub(s []piece, from, to *Lin) ([]piece, bool) {
	cut := func(s []piece, at *Lin) (a, b []piece, ok bool) {
		left := at
		for i, p := range s {
			if r.eq(left, linC(0)) {
				return s[:i:i], s[i:], true
			}
			n := p.to.add(p.from, -1)
			if r.eq(left, n) {
				return s[: i+1 : i+1], s[i+1:], true
			}
			if i == len(s)-1 || r.d.proveGE0(n.add(left, -1)) {
				m := p.from.add(left, 1)
				a = append(s[:i:i], piece{p.base, p.t, p.from, m})
				b = append([]piece{{p.base, p.t, m, p.to}}, s[i+1:]...)
				return a, b, true
			}
			if !r.d.proveGE0(left.add(n, -1)) {
				return nil, nil, false
			}
			left = left.add(n, -1)
		}
		return s, nil, r.eq(left, linC(0))
	}
	if to != nil {
		a, _, ok := cut(s, to)
		if !ok {
			return nil, false
		}
		s = a
	}
	_, b, ok := cut(s, from)
	return b, ok
}

// tidy leaves out what is empty and joins what adjoins
func (r *rawPath) tidy(s []piece) (t []piece) {
	for _, p := range s {
		if _, is := r.empty[p.base]; is || r.eq(p.from, p.to) {
			continue
		}
		if n := len(t) - 1; n >= 0 && t[n].base == p.base && r.eq(t[n].to, p.from) {
			t[n].to = p.to
			continue
		}
		t = append(t, p)
	}
	return
}

// eq: two lengths are the same for all the path knows
func (r *rawPath) eq(a, b *Lin) bool {
	return a.eq(b) || r.d.proveGE0(a.add(b, -1)) && r.d.proveGE0(b.add(a, -1))
}

func (r *rawPath) show(s []piece) string {
	var b []string
	for _, p := range s {
		b = append(b, r.c.P.Show(p.t))
	}
	return "[" + strings.Join(b, ", ") + "]"
}

func (c *Ctx) newRawPath(o *Outcome, cache, buf *types.Var) *rawPath {
	r := &rawPath{c: c, o: o, cache: cache, buf: buf, d: newDBM(), n: map[string]*Lin{}, data: map[string]int{}, same: map[int]*Term{}, none: map[string]bool{}, empty: map[string]int{}}
	for i, e := range o.Events {
		switch e.Kind {
		case EvAssume:
			r.d.assumeEv(e)
			t, v := norm(e.Cond, e.Val)
			if t == nil || t.K != KBin {
				continue
			}
			if x := nilCmp(t); x != nil {
				if v == (t.Op == "==") && isBytes(x.T) {
					r.empty[r.baseOf(x)] = i
				}
				continue
			}
			var of *Term
			for _, a := range t.A {
				if a = strip(a); a.K == KLen && a.Op == "len" && isBytes(a.A[0].T) {
					of = strip(a.A[0])
				}
			}
			_, c0 := t.A[0].constInt()
			_, c1 := t.A[1].constInt()
			if of != nil && (c0 || c1) && emptyLen(t, v) {
				r.empty[r.baseOf(of)] = i
			}
		case EvRecv:
			if e.Val && e.Gid == 0 && e.Res != nil && chanPktType(e.Recv.T) != "" {
				r.data[strip(e.Res).Key()] = i
			}
		}
	}
	for _, e := range o.Events {
		if e.Kind == EvCopy && e.Gid == 0 {
			r.copied(e)
		}
	}
	return r
}

func (r *rawPath) baseOf(t *Term) string {
	if d := r.dataOf(t); d != nil {
		t = d
	}
	return strip(t).Key()
}

// received: the receive whose packet the data is of
func (r *rawPath) received(t *Term) (int, bool) {
	_, b := fieldOf(t)
	for b != nil {
		b = strip(b)
		if i, ok := r.data[b.Key()]; ok {
			return i, true
		}
		if b.K == KLoad || b.K == KFieldA || b.K == KField || b.K == KSnap {
			b = b.A[0]
			continue
		}
		break
	}
	return 0, false
}

func c18Read(c *Ctx) {
	op, _ := c.rawOps()
	if op == nil {
		c.Undecided("anchor", "Read", "the reading operation is not found")
		return
	}
	// the rest is kept in the field of bytes the operation stores
	var cache *types.Var
	queue := map[string]bool{}
	outs := c.root(op)
	for _, o := range outs {
		for _, e := range o.Events {
			if e.Kind == EvStore && e.Op != "local" {
				if v, _ := fieldOf(e.Recv); v != nil && isBytes(v.Type()) {
					cache = v
				}
			}
			if e.Kind == EvRecv && chanPktType(e.Recv.T) != "" {
				queue[c.P.chanLabel(e.Recv)] = true
			}
		}
	}
	if !c.Check(len(queue) > 0, "queue", op.Name, func() string { return "nothing received is ever read" }) {
		return
	}
	if !c.Check(cache != nil, "rest-kept", op.Name, func() string {
		return "what does not fit into the caller's buffer is kept nowhere"
	}) {
		return
	}
	var buf *types.Var
	if p := op.Fn.Params[len(op.Fn.Params)-1]; p != nil {
		buf, _ = p.Object().(*types.Var)
	}
	for _, o := range outs {
		if o.Kind != "return" || len(o.Rets) != 2 {
			continue
		}
		c.readBytes(op, o, cache, buf, queue)
	}
	c.Min("whole", 1)
	c.Min("count", 1)
	c.Min("rest-first", 1)
	c.Min("eof", 1)
	// nobody else takes anything out of the queue, or touches what is kept
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				switch {
				case e.Kind == EvRecv && queue[c.P.chanLabel(e.Recv)]:
					c.Check(r.Fn == op.Fn, "one-reader", fnName(r.Fn)+"/"+c.P.chanLabel(e.Recv), func() string {
						return "received data is taken out by something else than the reading operation\n" + c.P.ShowTrace(o)
					})
				case e.Kind == EvStore && e.Op != "local":
					if v, _ := fieldOf(e.Recv); v == cache {
						c.Check(r.Fn == op.Fn, "one-reader", fnName(r.Fn)+"/"+v.Name(), func() string {
							return "the kept rest is changed by something else than the reading operation\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
		}
	}
	c.Min("one-reader", 2)
	c.c18Queue(queue)
}

func (c *Ctx) rawOps() (read, write *Root) {
	for _, x := range c.Roots() {
		if x.Kind != "api" || c.P.rel(x.Fn) != "application" || x.Fn.Signature.Recv() == nil {
			continue
		}
		sig := x.Fn.Signature
		if sig.Params().Len() != 1 || !isBytes(sig.Params().At(0).Type()) || sig.Results().Len() != 2 {
			continue
		}
		switch x.Fn.Name() {
		case "Read":
			read = x
		case "Write":
			write = x
		}
	}
	return
}

func isBuf(t *Term, buf *types.Var) bool {
	t = strip(t)
	return t != nil && t.K == KParam && buf != nil && t.Op == buf.Name()
}

func (c *Ctx) readBytes(op *Root, o *Outcome, cache, buf *types.Var, queue map[string]bool) {
	r := c.newRawPath(o, cache, buf)
	show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
	// the exclusive sections, of whatever lock
	secOf := func(i int) int {
		for ; i >= 0; i-- {
			if e := o.Events[i]; e.Kind == EvLock && e.Gid == 0 {
				if strings.HasSuffix(e.Op, "Unlock") {
					return -1
				}
				return i
			}
		}
		return -1
	}
	var given []piece // to the caller
	at := linC(0)
	type kept struct {
		i int
		s []piece
	}
	var keeps []kept
	first := map[string]int{} // where a rest is mentioned first
	note := func(t *Term, i int) {
		if t == nil {
			return
		}
		anyTerm(t, func(x *Term) bool {
			if (x.K == KLoad || x.K == KSnap || x.K == KField) && r.isCache(x) {
				if _, is := first[x.Key()]; !is {
					first[x.Key()] = i
				}
			}
			return false
		})
	}
	// as long as no other read overlaps, a rest seen to be empty still is
	stored := false
	for i, e := range o.Events {
		stored = stored || e.Kind == EvStore && r.isCacheAddr(e.Recv)
		for _, a := range append([]*Term{e.Cond}, e.Args...) {
			if a == nil || stored && e.Kind != EvStore {
				continue
			}
			anyTerm(a, func(x *Term) bool {
				if (x.K == KLoad || x.K == KSnap || x.K == KField) && r.isCache(x) && r.sawEmpty(i) {
					if _, is := r.empty[x.Key()]; !is {
						r.none[x.Key()] = true
					}
				}
				return false
			})
		}
	}
	for i, e := range o.Events {
		note(e.Cond, i)
		for _, a := range e.Args {
			note(a, i)
		}
		switch e.Kind {
		case EvCopy:
			dst := strip(e.Args[0])
			from := linC(0)
			if dst.K == KSlice && isBuf(dst.A[0], buf) {
				from = r.lin(dst.A[1])
				dst = strip(dst.A[0])
			}
			if !isBuf(dst, buf) {
				continue
			}
			s, ok := r.seq(e.Args[1])
			if !ok {
				c.Check(false, "whole", op.Name, show("what is copied to the caller is not what was received: "+c.P.Show(e.Args[1])))
				return
			}
			n := r.lin(e.Res)
			s, ok = r.sub(s, linC(0), n)
			if !ok || !r.eq(from, at) {
				c.Check(false, "whole", op.Name, show("the caller's buffer is not filled from its start without a gap"))
				return
			}
			if len(r.tidy(s)) > 0 {
				at = at.add(n, 1)
			}
			given = append(given, s...)
		case EvIndex, EvPut:
			if len(e.Args) > 0 && isBuf(e.Recv, buf) && e.Kind == EvPut {
				c.Check(false, "whole", op.Name, show("the caller's buffer is written by other means"))
				return
			}
		case EvStore:
			if !r.isCacheAddr(e.Recv) {
				continue
			}
			s, ok := r.seq(e.Args[0])
			if !ok {
				c.Check(false, "whole", op.Name, show("what is kept is not what was received: "+c.P.Show(e.Args[0])))
				return
			}
			keeps = append(keeps, kept{i, s})
		}
	}
	given = r.tidy(given)
	isRest := func(p piece) bool {
		x := strip(p.t)
		if x.K == KSnap {
			x = strip(x.A[0])
		}
		return r.isCache(x)
	}
	var left []piece
	for k, x := range keeps {
		// nothing of what another read left is overwritten
		sec := secOf(x.i)
		ok := anyTerm(o.Events[x.i].Args[0], func(t *Term) bool {
			j, is := first[t.Key()]
			return is && secOf(j) == sec && sec >= 0
		})
		for b, j := range r.empty {
			if _, is := first[b]; is && secOf(j) == sec && sec >= 0 {
				ok = true
			}
		}
		for _, p := range given { // all of it was given to the caller
			if isRest(p) && secOf(first[p.base]) == sec && sec >= 0 {
				ok = true
			}
		}
		if k > 0 && secOf(keeps[k-1].i) == sec && sec >= 0 {
			ok = true // its own
		}
		c.Check(ok, "not-overwritten", op.Name, show("the kept rest is replaced without having been looked at in the same exclusive section"))
		if k == len(keeps)-1 {
			left = r.tidy(x.s)
			continue
		}
	}
	// everything, in order
	all := r.tidy(append(append([]piece{}, given...), left...))
	main := all
	order, last := true, -1
	count := map[string]int{}
	for _, p := range main {
		count[p.base]++
		end := r.lin(&Term{K: KLen, Op: "len", A: []*Term{p.t}, T: types.Typ[types.Int]})
		if !r.eq(p.from, linC(0)) || !r.eq(p.to, end) || count[p.base] > 1 {
			c.Check(false, "whole", op.Name, show("bytes are lost, given twice or out of order: given "+r.show(given)+", kept "+r.show(left)))
			return
		}
		at := -1
		if !isRest(p) {
			at, _ = r.received(p.t)
		}
		order = order && at >= last
		last = at
	}
	c.Check(order, "whole", op.Name, show("bytes are given or kept out of order: given "+r.show(given)+", kept "+r.show(left)))
	for _, i := range r.data {
		found := false
		for _, p := range main {
			if j, ok := r.received(p.t); ok && j == i {
				found = true
			}
		}
		if d := r.same[i]; d != nil {
			_, none := r.empty[d.Key()]
			found = found || none
		}
		c.Check(found, "whole", op.Name, show("received data is neither given to the caller nor kept"))
	}
	c.Check(true, "whole", op.Name, nil)
	// the count is the one of the bytes given
	n := r.lin(o.Rets[0])
	c.Check(r.eq(n, at) || len(given) == 0 && r.eq(n, linC(0)) || r.eq(n, r.size(given)) || r.allEmpty(o.Rets[0]), "count", op.Name, show("the operation returns "+c.P.Show(o.Rets[0])+" for "+r.show(given)))
	// the rest comes first
	waits := -1
	for i, e := range o.Events {
		if e.Kind == EvRecv && queue[c.P.chanLabel(e.Recv)] && waits < 0 {
			waits = i
		}
	}
	if waits >= 0 {
		c.Check(r.sawEmpty(waits), "rest-first", op.Name, show("new data is waited for although the rest of what was received may not be empty"))
	}
	eof := isEOF(o.Rets[1])
	closed := false
	for _, e := range o.Events {
		if e.Kind == EvRecv && !e.Val && e.Gid == 0 && queue[c.P.chanLabel(e.Recv)] {
			closed = true
		}
	}
	if eof || closed {
		c.Check(closed && (r.sawEmpty(len(o.Events))) && len(given) == 0, "eof", op.Name, show("the end is reported although received data may be left"))
		c.Check(eof, "eof", op.Name, show("the end of the data is reported as "+c.P.Show(o.Rets[1])))
	}
	// what is given is taken out in one section
	for i, e := range o.Events {
		if e.Kind != EvCopy || !anyTerm(e.Args[1], func(x *Term) bool { return (x.K == KLoad || x.K == KSnap || x.K == KField) && r.isCache(x) }) {
			continue
		}
		if !isBuf(strip(e.Args[0]), buf) && !(strip(e.Args[0]).K == KSlice && isBuf(strip(e.Args[0]).A[0], buf)) {
			continue
		}
		ok := false
		for _, k := range keeps {
			ok = ok || secOf(k.i) == secOf(i) && secOf(i) >= 0
		}
		c.Check(ok, "one-section", op.Name, show("what is given to the caller is taken out of the kept rest in another section: two reads may get the same bytes"))
	}
}

func (r *rawPath) isCacheAddr(t *Term) bool {
	v, _ := fieldOf(t)
	return v != nil && v == r.cache
}

// sawEmpty: before, the path has seen that no rest is kept
func (r *rawPath) sawEmpty(before int) bool {
	for b, i := range r.empty {
		if i >= before {
			continue
		}
		for _, e := range r.o.Events {
			if e.Kind == EvAssume && anyTerm(e.Cond, func(x *Term) bool { return x.Key() == b && r.restOf(x) }) {
				return true
			}
		}
	}
	return false
}

func (r *rawPath) restOf(x *Term) bool {
	x = strip(x)
	if x.K == KSnap {
		x = strip(x.A[0])
	}
	return r.isCache(x)
}

// allEmpty: the count of a copy of nothing
func (r *rawPath) allEmpty(t *Term) bool {
	t = strip(t)
	if t == nil || t.K != KPure || t.Op != "copy" {
		return false
	}
	s, ok := r.seq(t.A[1])
	return ok && len(r.tidy(s)) == 0
}

// c18Queue: what was received stays in the queue until it is read: it is closed by the
// task that fills it, after the last delivery
func (c *Ctx) c18Queue(queue map[string]bool) {
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			closed := -1
			for i, e := range o.Events {
				if e.Kind == EvClose && queue[c.P.chanLabel(e.Recv)] {
					closed = i
				}
				if e.Kind == EvSend && queue[c.P.chanLabel(e.Recv)] {
					c.Check(closed < 0, "closed-last", fnName(r.Fn), func() string { return "data arrives after the queue was closed\n" + c.P.ShowTrace(o) })
				}
			}
		}
	}
}

// c18Arrives: what the task reading from below gets for the raw operations goes into the queue, once and as it is
func c18Arrives(c *Ctx) {
	op, _ := c.rawOps()
	if op == nil {
		c.Undecided("anchor", "Read", "the reading operation is not found")
		return
	}
	queue := map[string]bool{}
	for _, o := range c.root(op) {
		for _, e := range o.Events {
			if e.Kind == EvRecv && chanPktType(e.Recv.T) != "" {
				queue[c.P.chanLabel(e.Recv)] = true
			}
		}
	}
	cons, _ := c.consumers()
	for lab, m := range cons {
		if !strings.Contains(lab, "get:ReadC") {
			continue
		}
		for _, r := range m {
			for _, o := range c.feed(r, lab, "StreamPacket", RunOpts{}) {
				if o.Kind == "panic" {
					continue
				}
				n, drop := 0, false
				for _, e := range o.Events {
					switch e.Kind {
					case EvSend:
						if queue[c.P.chanLabel(e.Recv)] && len(e.Args) > 0 {
							if isPkt(e.Args[0]) {
								n++
							} else {
								n += 2
							}
						}
					case EvStore:
						if v, _ := fieldOf(e.Recv); v != nil && e.Op != "local" && isBytes(v.Type()) && v.Name() == "Data" {
							c.Check(false, "arrives", fnName(r.Fn), func() string { return "the received bytes are changed\n" + c.P.ShowTrace(o) })
						}
					case EvDefault:
						for _, a := range e.Alts {
							drop = drop || a.Kind == EvSend && queue[c.P.chanLabel(a.Recv)]
						}
					}
				}
				if drop && n == 0 {
					c.Check(false, "not-dropped", "StreamPacket", func() string {
						return "received bytes are dropped when the queue is full\n" + c.P.ShowTrace(o)
					})
					continue
				}
				c.Check(n == 1, "arrives", fnName(r.Fn), func() string { return "received bytes do not go into the queue exactly once\n" + c.P.ShowTrace(o) })
			}
		}
	}
	c.Min("arrives", 1)
}

func c18Write(c *Ctx) {
	_, op := c.rawOps()
	if op == nil {
		c.Undecided("anchor", "Write", "the writing operation is not found")
		return
	}
	var buf *types.Var
	if p := op.Fn.Params[len(op.Fn.Params)-1]; p != nil {
		buf, _ = p.Object().(*types.Var)
	}
	for _, o := range c.root(op) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		if o.Kind == "panic" {
			continue
		}
		r := c.newRawPath(o, nil, buf)
		var sent []*Event
		for i, e := range o.Events {
			pkt := c.appSends(e)
			if pkt == nil {
				continue
			}
			sent = append(sent, e)
			kind := c.pktKind(pkt)
			if !c.Check(kind == "StreamPacket", "bytes-sent", op.Name, show("something else than the bytes is sent: "+kind)) {
				continue
			}
			d := c.heapField(e.Heap, pkt, "Data")
			s, ok := r.ownBytes(d, i)
			c.Check(ok, "own-copy", op.Name, show("what is sent may change with the caller's buffer, or is not its content: "+c.P.Show(d)))
			if ok {
				whole := len(s) == 1 && isBuf(s[0].t, buf) && r.eq(s[0].from, linC(0)) && s[0].to.eq(r.lin(&Term{K: KLen, Op: "len", A: []*Term{s[0].t}, T: types.Typ[types.Int]}))
				c.Check(whole, "bytes-sent", op.Name, show("not all of the bytes are sent"))
			}
		}
		if o.Kind != "return" || len(o.Rets) != 2 {
			continue
		}
		n := r.lin(o.Rets[0])
		full := false
		if op.Fn.Params[len(op.Fn.Params)-1] != nil {
			for _, t := range []*Term{{K: KParam, Op: buf.Name(), T: buf.Type()}} {
				full = r.eq(n, lenLin(t))
			}
			full = full || exact(o.Rets[0], func(x *Term) bool {
				return x.K == KLen && isBuf(x.A[0], buf) || x.K == KPure && x.Op == "copy" && isBuf(x.A[1], buf) && r.fits(x)
			})
		}
		none := false
		for b := range r.empty {
			none = none || anyBuf(o, b, buf)
		}
		if o.Rets[1].isNilConst() {
			c.Check(len(sent) == 1 || none && len(sent) == 0, "sent-once", op.Name, show("success is reported for bytes sent "+times10(len(sent))))
			z, zero := n.isConst()
			c.Check(full || none && zero && z == 0, "length", op.Name, show("success is reported with "+c.P.Show(o.Rets[0])+" bytes"))
			continue
		}
		nonNil := isErrGlobal(o.Rets[1]) || c.errNonNil(o)
		c.Check(nonNil, "sent-once", op.Name, show("it is not decided whether an error is returned"))
		c.Check(len(sent) == 0, "nothing-sent", op.Name, show("an error is reported although the bytes were sent"))
		z, zero := n.isConst()
		c.Check(zero && z == 0, "length", op.Name, show("an error is reported with "+c.P.Show(o.Rets[0])+" bytes"))
	}
	c.Min("sent-once", 1)
	c.Min("own-copy", 1)
	c.Min("bytes-sent", 1)
	c.Min("nothing-sent", 1)
	c.Min("length", 1)
}

func times10(n int) string {
	return []string{"not at all", "once", "twice"}[min(n, 2)]
}

func isErrGlobal(t *Term) bool {
	t = strip(t)
	return t != nil && anyTerm(t, func(x *Term) bool { return x.K == KGlobal })
}

// errNonNil: the path found the returned error not to be nil
func (c *Ctx) errNonNil(o *Outcome) bool {
	ret := o.Rets[len(o.Rets)-1]
	return errIsNonNil(o, ret)
}

func anyBuf(o *Outcome, key string, buf *types.Var) bool {
	for _, e := range o.Events {
		if e.Kind == EvAssume && anyTerm(e.Cond, func(x *Term) bool { return x.Key() == key && isBuf(x, buf) }) {
			return true
		}
	}
	return false
}

// fits: the copy copies all of its source
func (r *rawPath) fits(x *Term) bool {
	return lenLin(x.A[0]).eq(lenLin(x.A[1]))
}

// ownBytes: the bytes of a slice nobody else has, filled before the event
func (r *rawPath) ownBytes(t *Term, before int) ([]piece, bool) {
	t = strip(t)
	if t == nil {
		return nil, false
	}
	switch t.K {
	case KMake:
		for i, e := range r.o.Events {
			if i < before && e.Kind == EvCopy && strip(e.Args[0]).Key() == t.Key() && lenLin(t).eq(lenLin(e.Args[1])) {
				s, ok := r.seq(e.Args[1])
				return r.tidy(s), ok
			}
		}
	case KAppend:
		base := strip(t.A[0])
		own := base.isNilConst() || base.K == KMake || base.K == KAlloc || base.K == KSlice && (strip(base.A[0]).K == KAlloc || strip(base.A[0]).K == KMake)
		if n, is := lenLin(base).isConst(); !own || !is || n != 0 {
			return nil, false
		}
		s, ok := r.seq(t.A[1])
		return r.tidy(s), ok
	case KPure, KCall:
		if (strings.HasSuffix(t.Op, "bytes.Clone") || strings.Contains(t.Op, "slices.Clone")) && len(t.A) == 1 {
			s, ok := r.seq(t.A[0])
			return r.tidy(s), ok
		}
	}
	return nil, false
}

func init() {
	register("C18", "Every path of the raw reading operation is executed and its bytes are followed symbolically: the rest kept before, the data received on the path, the pieces copied to the caller and what is kept afterwards are sequences of pieces whose cuts are linear terms in the number of bytes copied; given and kept together must be the rest followed by the received data, each piece once and in order, and the count returned must be that of what was given. The rest is looked at before new data, the end is reported only with the queue closed and no rest, and a rest is replaced only in the exclusive section in which it was looked at. The task reading from below puts every raw packet into the queue once. Every path of the writing operation sends one packet with a copy of all bytes and returns their length, or sends none and returns an error. Nothing else takes from the queue or changes the rest, and nothing is put into it after it was closed.",
		Rule{"read", "a read gives the next bytes, keeps the others, and counts them", c18Read},
		Rule{"arrival", "received bytes go into the queue of the reading operation, once and unchanged", c18Arrives},
		Rule{"write", "a write sends one copy of all bytes or nothing", c18Write},
		Rule{"layout", "the packets that carry it are decoded as they were encoded", layoutOf("StreamPacket")},
	)
}
