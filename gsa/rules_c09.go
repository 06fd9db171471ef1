package main

import (
	"fmt"
	"go/types"
	"strings"
)

// norm removes negations: the condition and the value it has
func norm(t *Term, v bool) (*Term, bool) {
	for t != nil && t.K == KNot {
		t, v = t.A[0], !v
	}
	if t != nil && t.K == KBin && (t.Op == "==" || t.Op == "!=") {
		for i := 0; i < 2; i++ {
			if b, ok := t.A[i].constBool(); ok {
				return norm(t.A[1-i], v == (b == (t.Op == "==")))
			}
		}
	}
	return t, v
}

// isNilOn: what the first n events of a path found out about "x is nil"
func isNilOn(ev []*Event, f func(x *Term) bool) (val, ok bool) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if x := nilCmp(t); x != nil && f(x) {
			return v == (t.Op == "=="), true
		}
	}
	return false, false
}

// boolOn: what a path found out about a boolean
func boolOn(ev []*Event, f func(x *Term) bool) (val, ok bool) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		if t, v := norm(e.Cond, e.Val); t != nil && f(t) {
			return v, true
		}
	}
	return false, false
}

// equalOn: what a path found out about two booleans being equal
func equalOn(ev []*Event, f, g func(x *Term) bool) (val, ok bool) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t != nil && t.K == KBin && (t.Op == "==" || t.Op == "!=") {
			if f(t.A[0]) && g(t.A[1]) || f(t.A[1]) && g(t.A[0]) {
				return v == (t.Op == "=="), true
			}
		}
	}
	return false, false
}

// step: the events that handle the first packet a task takes
func step(o *Outcome) []*Event {
	n := 0
	var run [][]*Term
	for i, e := range o.Events {
		if e.Gid != 0 {
			continue
		}
		if e.Kind == EvRecv && e.Blocking {
			n++
		} else if e.Kind == EvOnce && n > 0 {
			// the end of the task: what it runs once closes queues
			if run == nil {
				run = onces(o)
			}
			fini := !e.Val
			for j := i + 1; j < len(o.Events); j++ {
				in := false
				for _, t := range run[j] {
					in = in || t == e.Recv
				}
				if o.Events[j].Kind == EvClose && in {
					fini = true
				}
			}
			if !e.Val {
				fini = e.Depth == 0
			}
			if fini {
				return o.Events[:i]
			}
		}
		if n == 2 {
			return o.Events[:i]
		}
	}
	return o.Events
}

// appRead is the task that takes the packets of a stream from the layer below
func (c *Ctx) appRead() (*Root, string) {
	cons, _ := c.consumers()
	for lab, m := range cons {
		if strings.Contains(lab, "get:ReadC") {
			for _, r := range m {
				return r, lab
			}
		}
	}
	c.Undecided("anchor", "stream read loop", "no task reads from Dialogue.ReadC")
	return nil, ""
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == pkg || strings.HasSuffix(n.Obj().Pkg().Path(), "/"+pkg))
}

// responses: the answers a path writes
func (c *Ctx) sentKind(ev []*Event, kind string) []*Event {
	var r []*Event
	for _, e := range ev {
		if p := c.sentPkt(e); p != nil && c.pktKind(p) == kind && made(p) {
			r = append(r, e)
		}
	}
	return r
}

// hijackOwner: the structure that remembers a hijacker
func isHijackSig(t types.Type) bool { return namedIs(t, "geminio", "HijackRPC") }

func (c *Ctx) hijackStruct() *types.Named {
	tp := c.P.TPkgs["application"]
	if tp == nil {
		return nil
	}
	for _, n := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if s, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if isHijackSig(s.Field(i).Type()) {
					return tn.Type().(*types.Named)
				}
			}
		}
	}
	return nil
}

// handlerCall: a call of a handler the user registered
type handlerCall struct {
	e      *Event
	i      int
	hijack bool
}

func (c *Ctx) handlerCalls(ev []*Event) []handlerCall {
	var r []handlerCall
	for i, e := range ev {
		if e.Kind != EvDyn || e.Recv == nil {
			continue
		}
		f := strip(e.Recv)
		if f.K == KMapVal && namedIs(f.T, "geminio", "RPC") || f.K == KTupleEl && namedIs(f.T, "geminio", "RPC") {
			r = append(r, handlerCall{e, i, false})
			continue
		}
		if v, _ := fieldOf(f); v != nil && isHijackSig(v.Type()) {
			r = append(r, handlerCall{e, i, true})
		}
	}
	return r
}

// argOf finds the argument that is a structure of the package implementing the named interface
func argImpl(e *Event, iface string) *Term {
	for _, a := range e.Args {
		if a.T != nil && a.K == KIface {
			s := strip(a)
			if s.K == KAlloc && strings.Contains(strings.ToLower(s.Op), strings.ToLower(iface)) {
				return s
			}
		}
	}
	return nil
}

func isFieldRead(t *Term, base *Term, f func(v *types.Var) bool) bool {
	v, b := fieldOf(t)
	return v != nil && sameVal(b, base) && f(v)
}

// accessor: the field a parameterless getter of a structure returns, read from the code
func (c *Ctx) getterField(pkg, typ, name string) *types.Var {
	fn := c.P.Method(pkg, typ, name)
	if fn == nil {
		return nil
	}
	var r *types.Var
	for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
		if len(o.Rets) > 0 {
			if v, b := fieldOf(o.Rets[0]); v != nil && b.K == KParam {
				r = v
			}
		}
	}
	return r
}

// setterField: the field a method with one parameter stores it into
func (c *Ctx) setterField(pkg, typ, name string) *types.Var {
	fn := c.P.Method(pkg, typ, name)
	if fn == nil {
		return nil
	}
	var r *types.Var
	for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
		for _, e := range o.Events {
			if e.Kind == EvStore && len(e.Args) > 0 && e.Args[0].K == KParam {
				if v, _ := fieldOf(e.Recv); v != nil {
					r = v
				}
			}
		}
	}
	return r
}

// objField reads the field of a fresh object from a heap, nil when unknown
func objField(h *Heap, obj *Term, v *types.Var) *Term {
	if h == nil || v == nil || obj == nil {
		return nil
	}
	a := &Term{K: KFieldA, A: []*Term{obj}, Obj: v, T: types.NewPointer(v.Type())}
	if ce, ok := h.m[a.Key()]; ok {
		return ce.val
	}
	return nil
}

// conv: t is x, possibly converted between string and bytes
func conv(t *Term, x *Term) bool {
	for t != nil {
		if sameVal(t, x) {
			return true
		}
		if t.K == KConv || t.K == KIface {
			t = t.A[0]
			continue
		}
		return false
	}
	return false
}

// structImpl: the structure of the application package with the methods of an interface of the root package
func (c *Ctx) implOf(iface string) *types.Named {
	var it *types.Interface
	for _, tp := range c.P.TPkgs {
		if tp.Name() == "geminio" {
			if o, ok := tp.Scope().Lookup(iface).(*types.TypeName); ok {
				it, _ = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	tp := c.P.TPkgs["application"]
	if it == nil || tp == nil {
		return nil
	}
	for _, n := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(tn.Type()), it) {
			nt, _ := tn.Type().(*types.Named)
			return nt
		}
	}
	return nil
}

func allocOf(e *Event, n *types.Named) *Term {
	if n == nil {
		return nil
	}
	for _, a := range e.Args {
		s := strip(a)
		if s != nil && s.K == KAlloc && s.T != nil && types.Identical(deref(s.T), n) {
			return s
		}
	}
	return nil
}

func c09Answer(c *Ctx) {
	r, lab := c.appRead()
	if r == nil {
		return
	}
	pkt := c.P.pktTerm("RequestPacket")
	key := c.pktLoad(pkt, "Data")
	id := c.pktLoad(pkt, "PacketID")
	_ = key
	reqT, rspT := c.implOf("Request"), c.implOf("Response")
	c.Check(reqT != nil && rspT != nil, "anchor", "request and response objects", nil)
	if reqT == nil || rspT == nil {
		return
	}
	hs := c.hijackStruct()
	fromKey := func(t *Term) bool {
		for t != nil && (t.K == KConv || t.K == KIface) {
			t = t.A[0]
		}
		v, _ := fieldOf(t)
		return v != nil && v.Name() == "Key" && rootPkt(t)
	}
	seen := map[string]bool{}
	for _, o := range c.feed(r, lab, "RequestPacket", RunOpts{InlineGo: true}) {
		ev := step(o)
		// the paths differ in what follows: judge each handling once
		var sb strings.Builder
		for _, e := range ev {
			fmt.Fprintf(&sb, "%d|%d|%v|%d;", e.Kind, e.Pos, e.Val, e.Gid)
			if e.Kind == EvAssume {
				sb.WriteString(e.Cond.Key())
			}
		}
		if seen[sb.String()] {
			continue
		}
		seen[sb.String()] = true
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		hc := c.handlerCalls(ev)
		rsp := c.sentKind(ev, "ResponsePacket")
		c.Check(len(rsp) == 1, "one-response", r.Name, show(fmt.Sprintf("%d responses are sent for one request", len(rsp))))
		if len(rsp) != 1 {
			continue
		}
		w := rsp[0]
		p := c.sentPkt(w)
		got := c.heapField(w.Heap, p, "PacketID")
		c.Check(same(got, id), "same-id", r.Name, show("the response carries "+c.P.Show(got)))
		errT := c.heapField(w.Heap, p, "Error")
		if errT == nil {
			errT = c.dataField(w.Heap, p, "Error")
		}
		c.Check(len(hc) <= 1, "one-handler", r.Name, show(fmt.Sprintf("%d handlers are invoked", len(hc))))
		// which handler it has to be
		hijacked, hok := isNilOn(ev, func(x *Term) bool { return x.T != nil && types.Identical(deref(x.T), hs) })
		hijacked = !hijacked
		isMatch := func(x *Term) bool {
			return (x.K == KPure || x.K == KCall) && strings.Contains(x.Op, "Regexp).Match") && len(x.A) == 2 && fromKey(x.A[1])
		}
		isFlag := func(x *Term) bool {
			v, b := fieldOf(x)
			return v != nil && b != nil && b.T != nil && types.Identical(deref(b.T), hs) && types.Identical(v.Type().Underlying(), types.Typ[types.Bool])
		}
		isPat := func(x *Term) bool {
			v, _ := fieldOf(x)
			return v != nil && namedIs(v.Type(), "regexp", "Regexp")
		}
		want := "registered"
		if !hok {
			want = "undecided"
		} else if hijacked {
			nopat, pok := isNilOn(ev, isPat)
			m, mok := boolOn(ev, isMatch)
			f, fok := boolOn(ev, isFlag)
			eq, eok := equalOn(ev, isMatch, isFlag)
			switch {
			case !pok:
				want = "undecided"
			case nopat:
				want = "hijacker"
			case eok:
				if eq {
					want = "hijacker"
				}
			case mok && fok:
				if m == f {
					want = "hijacker"
				}
			default:
				want = "undecided"
			}
		}
		found, gok := boolOn(ev, func(x *Term) bool {
			return x.K == KPure && strings.HasPrefix(x.Op, "mapok") && len(x.A) > 0 && isRPCMapVal(x.A[0])
		})
		if !gok {
			if n, ok := isNilOn(ev, isRPCMapVal); ok {
				found, gok = !n, true
			}
		}
		if want == "registered" {
			switch {
			case !gok:
				want = "undecided"
			case !found:
				want = "nobody"
			}
		}
		is := "nobody"
		if len(hc) == 1 {
			is = "registered"
			if hc[0].hijack {
				is = "hijacker"
			}
		}
		if is == "nobody" && want != "undecided" {
			// what was given as the handler is no function at all
			isFn := func(x *Term) bool {
				v, b := fieldOf(strip(x))
				if v == nil || b == nil || b.T == nil {
					return false
				}
				_, fn := v.Type().Underlying().(*types.Signature)
				return fn && types.Identical(deref(b.T), hs)
			}
			is := isRPCMapVal
			if want == "hijacker" {
				is = isFn
			}
			if n, ok := isNilOn(ev, is); ok && n {
				want = "nobody"
			}
		}
		c.Check(want == is, "precedence", r.Name+"/"+want, show("the request has to be served by: "+want+", it is served by: "+is))
		if len(hc) == 0 {
			c.Check(nonEmptyErr(errT), "unknown-method", r.Name, show("nobody serves the request and the response has the error "+c.P.Show(errT)))
			continue
		}
		h := hc[0]
		// the method looked up is the one requested
		if !h.hijack {
			f := strip(h.e.Recv)
			if f.K == KTupleEl {
				f = f.A[0]
			}
			c.Check(len(f.A) > 1 && fromKey(f.A[1]), "method-of-request", r.Name, show("the handler called is looked up by "+c.P.Show(f)))
		}
		c.Check(h.e.Gid != 0 && h.e.Gid == w.Gid, "not-blocking", r.Name, show("the handler runs in the packet loop"))
		c.Check(indexOf(ev, w) > h.i, "after-handler", r.Name, show("the response is sent before the handler returned"))
		rq, rs := allocOf(h.e, reqT), allocOf(h.e, rspT)
		c.Check(rq != nil && rs != nil, "handler-args", r.Name, show("the handler is not given a request and a response"))
		if rq == nil || rs == nil {
			continue
		}
		app := reqT.Obj().Name()
		for _, g := range []struct {
			m string
			f func(*Term) bool
		}{
			{"ID", func(t *Term) bool { return same(t, id) }},
			{"Data", func(t *Term) bool { return isPktData(t, "Value") }},
			{"Custom", func(t *Term) bool { return isPktData(t, "Custom") }},
			{"Method", func(t *Term) bool { return fromKey(t) }},
			{"Timeout", func(t *Term) bool { return isPktData(t, "Timeout") }},
		} {
			fv := c.getterField("application", app, g.m)
			got := objField(h.e.Heap, rq, fv)
			c.Check(fv != nil && got != nil && g.f(got), "request-as-received", r.Name+"/"+g.m, show("the handler sees "+g.m+" = "+c.P.Show(got)))
		}
		if h.hijack {
			ok := false
			for _, a := range h.e.Args {
				if a.T != nil && a.K != KIface && fromKey(a) {
					ok = true
				}
			}
			c.Check(ok, "hijack-method", r.Name, show("the hijacker is not given the method of the request"))
		}
		// the answer is what the handler set
		rn := rspT.Obj().Name()
		for _, g := range []struct{ set, fld string }{{"SetData", "Value"}, {"SetCustom", "Custom"}, {"SetError", "Error"}} {
			fv := c.setterField("application", rn, g.set)
			got := c.dataField(w.Heap, p, g.fld)
			from := func(t *Term) bool {
				return textOf(t, func(x *Term) bool {
					v, b := fieldOf(x)
					return v == fv && fv != nil && sameVal(b, rs)
				})
			}
			ok := from(got)
			if g.fld == "Error" {
				// set exactly when the handler set one
				isnil, known := isNilOn(ev, func(x *Term) bool { return from(x) })
				ok = known && (isnil && emptyStr(got) || !isnil && from(got))
			}
			c.Check(ok, "answer-of-handler", r.Name+"/"+g.fld, show(fmt.Sprintf("the response carries %s = %s", g.fld, c.P.Show(got))))
		}
		c.Check(fromHandlerOrPkt(c.dataField(w.Heap, p, "Key"), rq, fromKey), "answer-method", r.Name, show("the response names the method "+c.P.Show(c.dataField(w.Heap, p, "Key"))))
	}
	c.Min("one-response", 1)
	c.Min("precedence", 3)
	c.Min("answer-of-handler", 3)
	c.Min("request-as-received", 5)
	c.Min("unknown-method", 1)
}

func fromHandlerOrPkt(t, rq *Term, fromKey func(*Term) bool) bool {
	return t != nil && (fromKey(t) || exact(t, func(x *Term) bool {
		v, b := fieldOf(x)
		return v != nil && sameVal(b, rq)
	}))
}

// exact: t is a value with the given property, possibly converted without loss
func exact(t *Term, is func(*Term) bool) bool {
	for t != nil {
		if t.K != KConv && t.K != KIface {
			return is(t)
		}
		if t.K == KConv && t.T != nil && t.A[0].T != nil {
			a, _ := bits(t.A[0].T)
			b, _ := bits(t.T)
			if a > b && b > 0 {
				return false
			}
		}
		t = t.A[0]
	}
	return false
}

// textOf: t is the text of an error with the given property, or that error itself
func textOf(t *Term, is func(*Term) bool) bool {
	return exact(t, func(x *Term) bool {
		return is(x) || (x.K == KPure || x.K == KCall) && len(x.A) > 0 && (x.Op == "get:Error" || strings.HasSuffix(x.Op, ").Error")) && exact(x.A[0], is)
	})
}

func isRPCMapVal(x *Term) bool {
	x = strip(x)
	for x != nil && x.K == KTupleEl {
		x = x.A[0]
	}
	return x != nil && x.K == KMapVal && x.T != nil && namedIs(x.T, "geminio", "RPC")
}

func isPktData(t *Term, name string) bool {
	v, _ := fieldOf(t)
	return v != nil && v.Name() == name && rootPkt(strip(t))
}

func emptyStr(t *Term) bool {
	if t == nil {
		return true // never stored
	}
	s, ok := t.constStr()
	return ok && s == "" || t.isNilConst()
}

// nonEmptyErr: the text of an error
func nonEmptyErr(t *Term) bool {
	if t == nil {
		return false
	}
	if s, ok := t.constStr(); ok {
		return s != ""
	}
	return anyTerm(t, func(x *Term) bool {
		return x.K == KPure && (strings.HasPrefix(x.Op, "fmt.Errorf") || strings.HasPrefix(x.Op, "errors.New")) || x.K == KLoad && x.A[0].K == KGlobal || x.K == KPure && strings.HasPrefix(x.Op, "fmt.Sprintf")
	})
}

func indexOf(ev []*Event, e *Event) int {
	for i, x := range ev {
		if x == e {
			return i
		}
	}
	return -1
}

// dataField reads a field of the data part of a packet made on the path
func (c *Ctx) dataField(h *Heap, pkt *Term, field string) *Term {
	return c.partField(h, pkt, "Data", field)
}

// partField reads a field of a part of a packet
func (c *Ctx) partField(h *Heap, pkt *Term, part, field string) *Term {
	d := c.heapField(h, pkt, part)
	if d == nil {
		return nil
	}
	d = strip(d)
	if d.T == nil {
		return nil
	}
	st, ok := deref(d.T).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			v := objField(h, d, st.Field(i))
			if v == nil && d.K != KAlloc {
				v = &Term{K: KLoad, A: []*Term{{K: KFieldA, A: []*Term{d}, Obj: st.Field(i), T: types.NewPointer(st.Field(i).Type())}}, T: st.Field(i).Type()}
			}
			return v
		}
	}
	return nil
}

func init() {
	register("C09", "The stream read loop is explored with an arbitrary request packet, including the task it starts for the handler. On every path exactly one response is written with the identifier term of the request; the handler served is compared with a decision table over the conditions the path established (hijacker set, pattern set, pattern matches, match flag, method registered); data, custom data and error of the response must be what the response object holds after the handler ran.",
		Rule{"answer", "one response per request with its identifier, from the right handler, after it returned", c09Answer},
		Rule{"layout", "the packets that carry it are decoded as they were encoded", layoutOf("RequestPacket", "ResponsePacket")},
	)
}

// same compares two values, ignoring when a field was read
func same(a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == nil || b == nil {
		return false
	}
	if a.Key() == b.Key() {
		return true
	}
	if a.K != b.K || a.Op != b.Op || len(a.A) != len(b.A) || len(a.A) == 0 {
		return false
	}
	if a.K == KFieldA || a.K == KField {
		if a.Obj != b.Obj {
			return false
		}
	}
	if a.K != KLoad && a.K != KSnap && a.ID != b.ID {
		return false
	}
	for i := range a.A {
		if !same(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}
