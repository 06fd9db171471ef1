package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: what a timeout, deadline or context given to an operation bounds, locally and
// at the peer, and what bounds the operations of the lower layers that take none.

func ctxParam(fn *ssa.Function) *Term {
	for _, p := range fn.Params {
		if namedIs(p.Type(), "context", "Context") {
			return &Term{K: KParam, Op: p.Name(), T: p.Type()}
		}
	}
	return nil
}

// doneOf: the channel is the one the context closes
func doneOf(ch, ctx *Term) bool {
	t := strip(ch)
	return t != nil && t.K == KPure && t.Op == "get:Done" && len(t.A) > 0 && isParamVal(t.A[0], ctx)
}

// hubOpts: the arguments of the options a waiter is registered with
func hubOpts(g *Event, name string) (r []*Term, known bool) {
	known = false
	for _, a := range g.Args[2:] {
		el, ok := Elems(g.Heap, a)
		known = known || ok
		for _, x := range el {
			x = strip(x)
			if x.K == KCall && strings.HasSuffix(x.Op, "synchub."+name) && len(x.A) > 0 {
				r = append(r, x.A[0])
			}
		}
	}
	return r, known
}

func isMergedTimeout(star bool) func(*Term) bool {
	return func(x *Term) bool {
		x = strip(x)
		if star {
			if x == nil || x.K != KLoad {
				return false
			}
			x = strip(x.A[0])
		}
		v, b := fieldOf(x)
		return v != nil && v.Name() == "Timeout" && b != nil && b.K == KPure && strings.Contains(b.Op, "options.Merge")
	}
}

func c14Ops(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "application" {
			continue
		}
		ctx := ctxParam(r.Fn)
		if ctx == nil {
			continue
		}
		obj := ifaceParam(r.Fn, "Message", "Request")
		takes := false // it is given options with a timeout
		for _, p := range r.Fn.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok {
				takes = takes || fieldNamed(sl.Elem(), "Timeout") != nil
			}
		}
		waits := 0
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			isT := func(x *Term) bool {
				return obj != nil && (isGet(x, "Timeout", obj) || isSetTo(o.Events, obj, "SetTimeout", x))
			}
			var reg *Event
			regI := -1
			for i, e := range o.Events {
				if isRegister(e) && e.Gid == 0 {
					reg, regI = e, i
				}
			}
			// every wait ends with the context
			bound := false
			if reg != nil {
				opts, _ := hubOpts(reg, "WithContext")
				for _, x := range opts {
					bound = bound || isParamVal(x, ctx)
				}
			}
			waited := false
			for _, e := range o.Events {
				if e.Kind != EvRecv || e.Gid != 0 || !e.Blocking && !e.InSelect {
					continue
				}
				waited = true
				ok := doneOf(e.Recv, ctx)
				for _, a := range e.Alts {
					ok = ok || a.Kind == EvRecv && doneOf(a.Recv, ctx)
				}
				ok = ok || bound && waitedOn(o, e) == reg
				waits++
				c.Check(ok, "context-bounds", r.Name, show("the wait "+c.P.ShowEvent(e)+" does not end with the context"))
				if doneOf(e.Recv, ctx) && o.Kind == "return" {
					ret := o.Rets[len(o.Rets)-1]
					c.Check(!ret.isNilConst() && (isCtxErr(ret) || c.streamGone(o.Events) || hasGlobal(ret, "Canceled") || hasGlobal(ret, "DeadlineExceeded")), "context-error", r.Name, show("the context ended and the operation returns "+c.P.Show(ret)))
				}
			}
			if reg != nil && !waited {
				waits++
				c.Check(bound, "context-bounds", r.Name, show("the asynchronous outcome does not come when the context ends"))
			}
			// the timeout
			if obj == nil {
				continue
			}
			sentI := -1
			for i, e := range o.Events {
				p := c.sentPkt(e)
				if p == nil || !made(p) || c.pktKind(p) != "MessagePacket" && c.pktKind(p) != "RequestPacket" {
					continue
				}
				sentI = i
				c.onWire(r, o, i, e, p, ctx, obj)
			}
			if sentI < 0 {
				continue
			}
			if takes {
				set := -1
				for i, e := range o.Events[:sentI] {
					if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "SetTimeout" && e.Recv != nil && isParamVal(e.Recv, obj) {
						c.Check(len(e.Args) > 0 && exact(e.Args[len(e.Args)-1], isMergedTimeout(true)), "option-wins", r.Name, show("the timeout is set to something else: "+c.P.ShowEvent(e)))
						set = i
					}
				}
				isnil, known := isNilOn(o.Events[:sentI], isMergedTimeout(false))
				c.Check(known && (isnil || set >= 0), "option-wins", r.Name, show("a timeout given as option does not become the timeout of the operation"))
				for _, e := range o.Events[:max0(set)] {
					c.Check(e.Kind != EvAssume || !anyTerm(e.Cond, func(x *Term) bool { return isGet(x, "Timeout", obj) }), "option-wins", r.Name, show("the timeout is used before the option is taken"))
				}
			}
			if reg == nil {
				continue
			}
			zero, known := zeroOn(o.Events[:regI], isT)
			opts, elems := hubOpts(reg, "WithTimeout")
			c.Check(elems, "timeout-bounds", r.Name, show("the options of the waiter are not known"))
			has := false
			for _, x := range opts {
				has = has || exact(x, isT)
				c.Check(exact(x, isT), "timeout-bounds", r.Name, show("the waiter has the timeout "+c.P.Show(x)))
			}
			c.Check(known && (zero != has), "timeout-bounds", r.Name, show(fmt.Sprintf("zero timeout: %v, bounded: %v", zero, has)))
		}
	}
	c.Min("context-bounds", 5)
	c.Min("timeout-bounds", 4)
	c.Min("option-wins", 4)
	c.Min("context-error", 1)
	c.Min("deadline-sent", 4)
	c.Min("context-sent", 4)
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

// isNowPlus: the time that many units from now
func isNowPlus(t *Term, d func(*Term) bool) bool {
	return exact(t, func(x *Term) bool {
		if x.K != KCall && x.K != KPure || !strings.HasSuffix(x.Op, "time.Time).Add") && x.Op != "time.Time.Add" || len(x.A) < 2 {
			return false
		}
		now := strip(x.A[0])
		return (now.K == KCall || now.K == KPure) && now.Op == "time.Now" && exact(x.A[1], d)
	})
}

// onWire: the packet tells the peer both bounds
func (c *Ctx) onWire(r *Root, o *Outcome, i int, e *Event, p, ctx, obj *Term) {
	show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
	isT := func(x *Term) bool {
		return isGet(x, "Timeout", obj) || isSetTo(o.Events[:i], obj, "SetTimeout", x)
	}
	zero, known := zeroOn(o.Events[:i], isT)
	dl := c.dataField(e.Heap, p, "Deadline")
	ok := known && (zero && zeroTime(dl) || !zero && isNowPlus(dl, isT))
	c.Check(ok, "deadline-sent", r.Name, show(fmt.Sprintf("zero timeout: %v (known %v), the packet carries the deadline %s", zero, known, c.P.Show(dl))))
	isDl := func(x *Term, k int) bool {
		x = strip(x)
		return x != nil && x.K == KTupleEl && x.ID == k && strings.HasSuffix(x.A[0].Op, "Deadline") && anyTerm(x.A[0], func(y *Term) bool { return isParamVal(y, ctx) })
	}
	has, known := boolOn(o.Events[:i], func(x *Term) bool { return isDl(x, 1) })
	var cd *Term
	if d := strip(c.heapField(e.Heap, p, "Data")); d != nil && d.T != nil {
		if f := fieldNamed(d.T, "Context"); f != nil {
			in := &Term{K: KFieldA, A: []*Term{d}, Obj: f, T: types.NewPointer(f.Type())}
			cd = objField(e.Heap, in, fieldNamed(f.Type(), "Deadline"))
		}
	}
	ok = known && (has && isDl(cd, 0) || !has && zeroTime(cd))
	c.Check(ok, "context-sent", r.Name, show(fmt.Sprintf("the context has a deadline: %v (known %v), the packet carries %s", has, known, c.P.Show(cd))))
}

func zeroTime(t *Term) bool {
	if t == nil {
		return true
	}
	s := strip(t)
	return s.K == KConst
}

// fieldNamed: a field of a structure
func fieldNamed(t types.Type, name string) *types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// c14Handler: the context of a handler ends at the earlier of the two deadlines sent
func c14Handler(c *Ctx) {
	r, lab := c.appRead()
	if r == nil {
		return
	}
	isC := func(x *Term) bool {
		return exact(x, func(y *Term) bool { return pktPath(y) == "Data.Context.Deadline" })
	}
	isD := func(x *Term) bool { return exact(x, func(y *Term) bool { return pktPath(y) == "Data.Deadline" }) }
	n := 0
	cases := map[string]bool{}
	c.handlings(r, lab, "RequestPacket", RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		for _, h := range c.handlerCalls(ev) {
			var ctx *Term
			for _, a := range h.e.Args {
				if a.T != nil && namedIs(a.T, "context", "Context") {
					ctx = a
				}
			}
			if !c.Check(ctx != nil, "handler-deadline", r.Name, show("the handler has no context")) {
				continue
			}
			n++
			var hasD, hasC bool
			for {
				call, k := ctxCall(ctx)
				if call == nil || k != 0 {
					break
				}
				if len(call.A) > 1 && (strings.HasSuffix(call.Op, "WithDeadline") || strings.HasSuffix(call.Op, "WithTimeout")) {
					d := call.A[1]
					if strings.HasSuffix(call.Op, "WithTimeout") {
						if u := strip(d); u.K == KCall && u.Op == "time.Until" && len(u.A) > 0 {
							d = u.A[0]
						}
					}
					switch {
					case isD(d):
						hasD = true
					case isC(d):
						hasC = true
					default:
						c.Check(false, "handler-deadline", r.Name, show("the context of the handler ends at "+c.P.Show(d)))
					}
				}
				ctx = call.A[0]
			}
			zero := func(f func(*Term) bool) (bool, bool) {
				return boolOn(ev[:h.i], func(x *Term) bool {
					return (x.K == KCall || x.K == KPure) && strings.HasSuffix(x.Op, "IsZero") && len(x.A) > 0 && f(x.A[0])
				})
			}
			zD, kD := zero(isD)
			zC, kC := zero(isC)
			before := func(a, b func(*Term) bool) (bool, bool) {
				if v, ok := boolOn(ev[:h.i], func(x *Term) bool {
					return (x.K == KCall || x.K == KPure) && strings.HasSuffix(x.Op, ").Before") && len(x.A) > 1 && a(x.A[0]) && b(x.A[1])
				}); ok {
					return v, true
				}
				return boolOn(ev[:h.i], func(x *Term) bool {
					return (x.K == KCall || x.K == KPure) && strings.HasSuffix(x.Op, ").After") && len(x.A) > 1 && b(x.A[0]) && a(x.A[1])
				})
			}
			cb, ck := before(isC, isD)
			db, dk := before(isD, isC)
			needD, needC := kD && !zD || !kD, kC && !zC || !kC
			if needD && needC { // one suffices when it is known not to be the later
				if hasC && !hasD && (ck && cb || dk && !db) {
					needD = false
				}
				if hasD && !hasC && (dk && db || ck && !cb) {
					needC = false
				}
			}
			say := fmt.Sprintf("deadline of the call: zero %v (known %v), deadline of its context: zero %v (known %v); the context of the handler ends at: call %v, context %v", zD, kD, zC, kC, hasD, hasC)
			c.Check(hasD == (hasD && kD && !zD) && hasC == (hasC && kC && !zC), "no-zero-deadline", r.Name, show(say))
			c.Check((!needD || hasD) && (!needC || hasC), "handler-deadline", r.Name, show(say))
			cases[fmt.Sprint(zD, zC)] = true
		}
	})
	c.Check(n > 0 && len(cases) == 4, "handler-deadline", r.Name+"/cases", func() string { return fmt.Sprint(sortedKeys(cases)) })
}

// c14Lower: connecting, opening and closing are bounded without any option
func c14Lower(c *Ctx) {
	for _, r := range c.Roots() {
		rel := c.P.rel(r.Fn)
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			for _, e := range o.Events {
				if isHubNew(e) {
					timer, ok := false, true
					for _, a := range e.Args {
						el, k := Elems(e.Heap, a)
						ok = ok && k
						for _, x := range el {
							x = strip(x)
							timer = timer || x.K == KCall && strings.HasSuffix(x.Op, "synchub.OptionTimer") && len(x.A) > 0 && !x.A[0].isNilConst()
						}
					}
					c.Check(ok && timer, "hub-has-timer", r.Name, show("the waiters of this hub cannot time out: "+c.P.ShowEvent(e)))
				}
				if !isRegister(e) || rel != "conn" && rel != "multiplexer" {
					continue
				}
				opts, known := hubOpts(e, "WithTimeout")
				ok := known && len(opts) > 0
				for _, x := range opts {
					d, isn := x.constInt()
					ok = ok && isn && d > 0
				}
				c.Check(ok, "bounded", r.Name, show("a waiter that never gives up: "+c.P.ShowEvent(e)))
			}
		}
		if r.Kind != "api" || rel != "conn" && rel != "multiplexer" {
			continue
		}
		outs := c.root(r)
		ends := false
		for _, o := range outs {
			for _, e := range o.Events {
				if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "DismissPacket" {
					ends = true
				}
			}
		}
		if ends { // with the tasks it starts
			outs = c.Traces(r.Fn, r.Name, RunOpts{Key: "bound", Args: r.opts.Args, Free: r.opts.Free, Heap: r.opts.Heap, InlineGo: true})
		}
		for _, o := range outs {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			reg := false
			bye, told := false, -1
			for i, e := range o.Events {
				reg = reg || isRegister(e)
				if p := c.sentPkt(e); p != nil && made(p) && e.Kind == EvSend {
					switch c.pktKind(p) {
					case "DisConnPacket":
						told = i
					case "DismissPacket":
						bye = true
					}
				}
				if e.Kind != EvRecv || !e.Blocking || e.InSelect && len(e.Alts) > 0 {
					continue
				}
				g := waitedFor(o, i)
				if e.Gid == 0 && reg {
					c.Check(g != nil, "bounded-wait", r.Name, show("waits for "+c.P.ShowEvent(e)))
				}
				if g == nil || !bye {
					continue
				}
				// the peer never answers: the stream ends all the same
				bad, known := errAfter(o.Events[i:])
				tmo, tk := boolOn(o.Events[i:], func(x *Term) bool {
					return x.K == KBin && x.Op == "==" && hasGlobal(x, "ErrSyncTimeout") || x.K == KPure && x.Op == "errors.Is" && hasGlobal(x, "ErrSyncTimeout")
				})
				if known && !bad || tk && !tmo {
					continue
				}
				if !known && !tk {
					bad = true
				}
				ended := false
				for _, f := range o.Events[i:] {
					ended = ended || f.Kind == EvClose || f.Kind == EvOnce && !f.Val
				}
				c.Check(ended, "close-gives-up", r.Name, show("the peer does not answer the close in time and the stream is kept"))
			}
			if told < 0 || len(c.Layers()) == 0 {
				continue
			}
			ok := map[string]bool{}
			for _, e := range o.Events {
				if e.Kind == EvCall && e.Meth != nil && strings.HasPrefix(e.Meth.Name(), "Set") && strings.HasSuffix(e.Meth.Name(), "Deadline") && len(e.Args) > 0 && e.Recv != nil && e.Recv.T != nil && namedIs(e.Recv.T, "net", "Conn") {
					if isNowPlus(e.Args[len(e.Args)-1], func(x *Term) bool { n, isn := x.constInt(); return isn && n > 0 }) {
						ok[e.Meth.Name()] = true
					}
				}
			}
			c.Check(ok["SetDeadline"] || ok["SetReadDeadline"] && ok["SetWriteDeadline"], "close-bounded", r.Name, show("the peer is asked to close without any bound on its answer"))
		}
	}
	c.Min("bounded", 4)
	c.Min("bounded-wait", 3)
	c.Min("hub-has-timer", 3)
	c.Min("close-gives-up", 2)
	c.Min("close-bounded", 2)
}

func init() {
	register("C14", "Every path of every operation that takes a context: each wait has the end of that context as alternative, or is for a waiter registered with it; a non-zero timeout (after an option has replaced it) is given to the waiter and sent, and so is the deadline of the context. The context of every handler call is traced to the deadlines of the request it was made with, against the four cases the path established. Every waiter of the lower layers has a constant timeout, opening and closing wait for nothing else, and a close that is not answered ends the stream or the socket.",
		Rule{"ops", "timeouts, deadlines and contexts bound the operations they are given to and are sent", c14Ops},
		Rule{"handler", "the handler's context ends at the earlier deadline", c14Handler},
		Rule{"lower", "connecting, opening and closing are bounded", c14Lower},
	)
}

// pktPath: which field of the packet taken a value is, with the parts it is in
func pktPath(t *Term) string {
	r := ""
	for t != nil {
		s := strip(t)
		if isPkt(s) {
			return strings.TrimPrefix(r, ".")
		}
		v, b := fieldOf(s)
		if v == nil {
			if s != nil && (s.K == KLoad || s.K == KSnap) {
				t = s.A[0]
				continue
			}
			return ""
		}
		if !v.Embedded() {
			r = "." + v.Name() + r
		}
		t = b
	}
	return ""
}

func isHubNew(e *Event) bool {
	return e.Kind == EvCall && strings.HasSuffix(e.Op, "synchub.NewSyncHub")
}

// waitedFor: the registration a receive waits for, which may have been kept in a field
func waitedFor(o *Outcome, i int) *Event {
	e := o.Events[i]
	if g := waitedOn(o, e); g != nil {
		return g
	}
	t := strip(e.Recv)
	if t == nil || t.K != KPure && t.K != KCall || len(t.A) == 0 {
		return nil
	}
	f, _ := fieldOf(t.A[0])
	if f == nil {
		return nil
	}
	for j := i - 1; j >= 0; j-- {
		s := o.Events[j]
		if v, _ := fieldOf(s.Recv); s.Kind == EvStore && v == f && len(s.Args) > 0 {
			for _, g := range o.Events[:j] {
				if isRegister(g) && g.Res != nil && contains(s.Args[0], g.Res) {
					return g
				}
			}
			return nil
		}
	}
	return nil
}

// errAfter: the path found an event to carry an error, or not
func errAfter(ev []*Event) (bad, known bool) {
	isnil, ok := isNilOn(ev, func(x *Term) bool { v, _ := fieldOf(x); return v != nil && v.Name() == "Error" && isErrorRes(x) })
	return ok && !isnil, ok
}
