package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decoders: the buffer decoder and the reader decoder of the packet package
func (c *Ctx) decoders() (buf, rd *ssa.Function) {
	return c.P.Func("packet", "Decode"), c.P.Func("packet", "DecodeFromReader")
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// dynOf is the packet type an outcome of a decoder yields.
func dynOf(t *Term) string {
	if t != nil && t.K == KIface {
		return strings.TrimPrefix(shortType(t.T), "*")
	}
	return "header"
}

func (c *Ctx) trace(o *Outcome) func() string { return func() string { return c.P.ShowTrace(o) } }

func (c *Ctx) site(e *Event) string { return fnName(e.In) }

// fnName is a function's name without position, the construct of an obligation
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	root := fn
	n := 0
	for root.Parent() != nil {
		root = root.Parent()
		n++
	}
	s := root.Name()
	if r := root.Signature.Recv(); r != nil {
		s = strings.TrimPrefix(shortType(r.Type()), "*") + "." + s
	}
	if n > 0 {
		s += "$"
	}
	return s
}

func isNilKnown(o *Outcome, t *Term) int { return nilness(o.State, t) }

func errIsNil(o *Outcome, t *Term) bool    { return nilness(o.State, t) == 1 }
func errIsNonNil(o *Outcome, t *Term) bool { return nilness(o.State, t) == 2 }

func c01Bounds(c *Ctx) {
	buf, rd := c.decoders()
	for _, fn := range []*ssa.Function{buf, rd} {
		if fn == nil {
			c.Undecided("bounds", "decoder", "no decoder function")
			continue
		}
		for _, o := range c.Traces(fn, fn.Name(), RunOpts{}) {
			d := newDBM()
			for _, e := range o.Events {
				switch e.Kind {
				case EvAssume:
					d.assumeEv(e)
				case EvIndex:
					ok := true
					what := ""
					ge := func(l *Lin, s string) {
						if !d.proveGE0(l) {
							ok = false
							what += s + " "
						}
					}
					if e.Op == "make" {
						ge(lin(e.Recv), "negative size")
					} else if e.Op == "slice" {
						lo, hi := lin0(e.Args[0]), lenLin(e.Recv)
						if !e.Args[1].isNilConst() {
							hi = lin(e.Args[1])
							ge(lenLin(e.Recv).add(hi, -1), "end beyond the data")
						}
						ge(lo, "negative start")
						ge(hi.add(lo, -1), "start beyond the end")
					} else if strings.HasPrefix(e.Op, "Uint") {
						w := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}[e.Op]
						ge(lenLin(e.Recv).add(linC(w), -1), "fewer bytes than the integer has")
					} else {
						ge(lin(e.Args[0]), "negative index")
						ge(lenLin(e.Recv).add(lin(e.Args[0]), -1).add(linC(1), -1), "index beyond the data")
					}
					e := e
					c.Check(ok, "bounds", fn.Name()+"/"+c.site(e), func() string {
						return fmt.Sprintf("%s at %s: %s%s\n%s", c.P.ShowEvent(e), c.P.Pos(e.Pos), what, "cannot be excluded on this path", c.P.ShowTrace(o))
					})
				case EvSub:
					ok := d.proveGE0(lin(e.Args[0]).add(lin(e.Args[1]), -1))
					e := e
					c.Check(ok, "unsigned-subtraction", fn.Name()+"/"+c.site(e), func() string {
						return fmt.Sprintf("%s can wrap around\n%s", c.P.ShowEvent(e), c.P.ShowTrace(o))
					})
				case EvNil:
					c.Check(false, "nil-dereference", fn.Name()+"/"+c.site(e), c.trace(o))
				}
			}
			c.Check(o.Kind == "return", "no-panic", fn.Name()+"/"+dynOf(lastRet(o)), c.trace(o))
		}
	}
	c.Min("bounds", 8)
}

func lastRet(o *Outcome) *Term {
	if len(o.Rets) > 0 {
		return o.Rets[0]
	}
	return nil
}

// readSize gives the bytes an event takes from the reader when it reports no error.
func readSize(e *Event, reader *Term) (n *Lin, errT *Term, is bool) {
	uses := e.Recv != nil && strip(e.Recv).Key() == reader.Key()
	for _, a := range e.Args {
		if contains(a, reader) {
			uses = true
		}
	}
	if e.Kind != EvCall && e.Kind != EvDyn || !uses {
		return nil, nil, false
	}
	el := func(i int) *Term {
		if e.Res != nil && e.Res.K == KTuple && i < len(e.Res.A) {
			return e.Res.A[i]
		}
		return nil
	}
	if e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "io" {
		switch e.Fn.Name() {
		case "ReadFull":
			return lenLin(e.Args[1]), el(1), true
		case "ReadAtLeast":
			// exact only when it must fill the buffer
			if lenLin(e.Args[1]).eq(lin(e.Args[2])) {
				return lenLin(e.Args[1]), el(1), true
			}
		case "CopyN":
			return lin(e.Args[2]), el(1), true
		}
	}
	return nil, nil, true
}

func c01Reader(c *Ctx) {
	_, rd := c.decoders()
	outs := c.Traces(rd, "DecodeFromReader", RunOpts{})
	if outs == nil {
		return
	}
	reader := (&Exec{P: c.P}).Params(rd)[0]
	okTypes := map[string]bool{}
	for _, o := range outs {
		if o.Kind != "return" || len(o.Rets) != 2 {
			continue
		}
		typ := dynOf(o.Rets[0])
		failed := false
		total := linC(0)
		var hdr *Lin
		for _, e := range o.Events {
			n, et, is := readSize(e, reader)
			if is {
				if n == nil {
					e := e
					c.Check(false, "reader-read", typ, func() string {
						return "a read whose size is not fixed: " + c.P.ShowEvent(e) + "\n" + c.P.ShowTrace(o)
					})
					failed = true
					continue
				}
				// the error of every read must have been looked at
				switch {
				case et != nil && errIsNil(o, et):
				case et != nil && errIsNonNil(o, et):
					failed = true
				case et != nil && sameTerm(o.Rets[1], et):
					// the error of the last step is handed on: success and failure in one path
				default:
					failed = true
				}
				total = total.add(n, 1)
				if hdr == nil {
					hdr = n
				}
			} else if e.Kind == EvCall && e.Res != nil && isErrType(e.Res.T) {
				// any other failing step
				if !errIsNil(o, e.Res) && (errIsNonNil(o, e.Res) || !sameTerm(o.Rets[1], e.Res)) {
					failed = true
				}
			}
		}
		if errIsNil(o, o.Rets[1]) || !errIsNonNil(o, o.Rets[1]) && anyFailing(o, o.Rets[1]) {
			c.Check(!failed, "failure-reported", typ, c.trace(o))
			if failed {
				continue
			}
			okTypes[typ] = true
			c.Check(o.Rets[0].K == KIface, "success-yields-packet", typ, c.trace(o))
			want := linC(14)
			pl := c.headerField(o, o.Rets[0], "PacketLen")
			if pl == nil {
				c.Undecided("consumes-declared-length", typ, "the header of the decoded packet was not found")
				continue
			}
			want = want.add(lin(pl), 1)
			c.Check(total.eq(want), "consumes-declared-length", typ, func() string {
				return "bytes consumed differ from the fixed header plus the declared payload length\n" + c.P.ShowTrace(o)
			})
		} else {
			c.Check(failed || errIsNonNil(o, o.Rets[1]) || anyFailing(o, o.Rets[1]), "failure-reported", typ, c.trace(o))
		}
	}
	c.Min("consumes-declared-length", 18)
}

// anyFailing: the returned error is the (undecided) result of the last step
func anyFailing(o *Outcome, t *Term) bool {
	for _, e := range o.Events {
		if e.Res != nil && (sameTerm(e.Res, t) || e.Res.K == KTuple && len(e.Res.A) > 0 && sameTerm(e.Res.A[len(e.Res.A)-1], t)) {
			return true
		}
	}
	return false
}

func sameTerm(a, b *Term) bool {
	return a != nil && b != nil && strip(a).Key() == strip(b).Key()
}

func isErrType(t types.Type) bool {
	return t != nil && t.String() == "error"
}

// headerField resolves a field of the fixed header embedded in a packet value.
func (c *Ctx) headerField(o *Outcome, pkt *Term, field string) *Term {
	return c.pktField(o.State, pkt, field)
}

// pktField resolves a (promoted) field of a packet value in the current heap.
func (c *Ctx) pktField(st *State, pkt *Term, field string) *Term {
	pkt = strip(pkt)
	if pkt == nil || pkt.T == nil {
		return nil
	}
	obj, index, _ := types.LookupFieldOrMethod(pkt.T, true, c.P.TPkgs["packet"], field)
	v, ok := obj.(*types.Var)
	if !ok {
		return nil
	}
	x := &Exec{P: c.P, ids: 1 << 30}
	cur := pkt
	t := pkt.T
	for i, ix := range index {
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		f := s.Field(ix)
		addr := &Term{K: KFieldA, A: []*Term{cur}, Obj: f, T: types.NewPointer(f.Type())}
		if i == len(index)-1 {
			_ = v
			return x.load(st, addr)
		}
		if _, ptr := f.Type().Underlying().(*types.Pointer); ptr {
			cur = x.load(st, addr)
			if cur.K == KConst {
				return nil
			}
		} else {
			cur = addr
		}
		t = f.Type()
	}
	return nil
}

// stateOf wraps the heap recorded at an event.
func stateOf(e *Event, o *Outcome) *State {
	return &State{heap: &Heap{m: e.Heap.m, shared: true}, facts: o.State.facts, eqc: o.State.eqc, filled: o.State.filled}
}

func c01Buffer(c *Ctx) {
	buf, _ := c.decoders()
	for _, o := range c.Traces(buf, "Decode", RunOpts{}) {
		if o.Kind != "return" || len(o.Rets) != 3 {
			continue
		}
		typ := dynOf(o.Rets[0])
		failed := false
		for _, e := range o.Events {
			if e.Kind == EvCall && e.Res != nil && isErrType(e.Res.T) && !errIsNil(o, e.Res) && !sameTerm(e.Res, o.Rets[2]) {
				failed = true
			}
		}
		if !errIsNil(o, o.Rets[2]) && (errIsNonNil(o, o.Rets[2]) || !anyFailing(o, o.Rets[2])) {
			c.Check(errIsNonNil(o, o.Rets[2]) || anyFailing(o, o.Rets[2]), "buffer-failure-reported", typ, c.trace(o))
			continue
		}
		c.Check(!failed, "buffer-failure-reported", typ, c.trace(o))
		pl := c.headerField(o, o.Rets[0], "PacketLen")
		if pl == nil {
			c.Undecided("reports-declared-length", typ, "the header of the decoded packet was not found")
			continue
		}
		d := newDBM()
		for _, e := range o.Events {
			if e.Kind == EvAssume {
				d.assumeEv(e)
			}
		}
		c.Check(lin(o.Rets[1]).eq(lin(pl)), "reports-declared-length", typ, func() string {
			return "the reported length is not the declared payload length\n" + c.P.ShowTrace(o)
		})
		data := (&Exec{P: c.P}).Params(buf)[0]
		c.Check(d.proveGE0(lenLin(data).add(linC(14), -1).add(lin(pl), -1)), "declared-length-present", typ, func() string {
			return "decoded although fewer bytes than declared are there\n" + c.P.ShowTrace(o)
		})
	}
	c.Min("reports-declared-length", 18)
}

func init() {
	register("C01", "For every path of the two packet decoders (with every per-type decode method looked into), an inequality-graph bounds analysis discharges one obligation per index, slice, integer read, unsigned subtraction and allocation size; nil dereferences and panics are refuted per path; the bytes read from the reader are summed symbolically and compared with 14 + declared length; every failing step must lead to a non-nil error.",
		Rule{"bounds", "every index, slice and integer read on every decode path is within the data, given the path's conditions; no nil dereference, no wrap-around, no negative allocation", c01Bounds},
		Rule{"reader", "a successful decode from a reader consumes exactly 14 + declared length bytes with every read checked", c01Reader},
		Rule{"buffer", "a successful decode from a buffer reports the declared length, and only if it is there", c01Buffer},
	)
}
