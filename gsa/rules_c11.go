package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callbackOf: the function a waiter calls with its outcome
func callbackOf(g *Event) *Term {
	for _, a := range g.Args {
		el, ok := Elems(g.Heap, a)
		if !ok {
			continue
		}
		for _, x := range el {
			if x.K != KCall && x.K != KPure || len(x.A) == 0 {
				continue
			}
			if f := strip(x.A[0]); f != nil && (f.K == KClosure || f.K == KFunc) {
				return f
			}
		}
	}
	return nil
}

// resume explores a function value in the state a path had reached.
func (c *Ctx) resume(f *Term, h *Heap, name string) []*Outcome {
	fn, ok := f.Obj.(*ssa.Function)
	if !ok {
		return nil
	}
	o := RunOpts{Heap: h, FirstID: 1 << 24, InlineGo: true}
	if f.K == KClosure {
		o.Free = f.A
		if o.Free == nil {
			o.Free = []*Term{}
		}
	}
	return c.Traces(fn, name, o)
}

func chanParam(r *Root) string {
	for _, p := range r.Fn.Params {
		if ch, ok := p.Type().Underlying().(*types.Chan); ok {
			if _, ok := ch.Elem().Underlying().(*types.Pointer); ok {
				return p.Name()
			}
		}
	}
	return ""
}

func structField(t *Term, f func(v *types.Var) bool) *types.Var {
	if t == nil || t.T == nil {
		return nil
	}
	st, ok := deref(t.T).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f(st.Field(i)) {
			return st.Field(i)
		}
	}
	return nil
}

func named(n string) func(v *types.Var) bool {
	return func(v *types.Var) bool { return v.Name() == n }
}

func c11Async(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" || chanParam(r) == "" || r.Fn.Signature.Results().Len() != 2 {
			continue
		}
		async := false
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if isRegister(e) && callbackOf(e) != nil {
					async = true
				}
			}
		}
		if !async {
			continue
		}
		accepted := 0
		for _, o := range c.root(r) {
			if o.Kind != "return" || len(o.Rets) != 2 {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			var regs []*Event
			queued, direct := 0, 0
			for _, e := range o.Events {
				if isRegister(e) {
					regs = append(regs, e)
				}
				if p := c.sentPkt(e); p != nil {
					queued++
				} else if e.Kind == EvSend {
					direct++
				}
			}
			obj := strip(o.Rets[0])
			c.Check(direct == 0, "delivered-by-outcome-only", r.Name, show("the operation delivers the outcome itself"))
			if !o.Rets[1].isNilConst() {
				c.Check(len(regs) == 0 && queued == 0, "refused-silent", r.Name, show("the operation is refused although its packet is queued or its outcome awaited"))
				continue
			}
			if c.atMostOnce(o) {
				c.Check(len(regs) == 0, "no-outcome-unacknowledged", r.Name, show("nobody acknowledges the message and an outcome is awaited"))
				continue
			}
			c.Check(len(regs) == 1 && callbackOf(regs[0]) != nil && queued == 1, "one-callback", r.Name, show(fmt.Sprintf("%d waiters are registered and %d packets queued for one accepted operation", len(regs), queued)))
			if len(regs) != 1 || callbackOf(regs[0]) == nil {
				continue
			}
			accepted++
			g := regs[0]
			okObj := obj != nil && obj.K == KAlloc
			c.Check(okObj, "returns-operation", r.Name, show("the operation returns "+c.P.Show(o.Rets[0])))
			if !okObj {
				continue
			}
			doneF := structField(obj, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Chan); return ok })
			ch := strip(objField(g.Heap, obj, doneF))
			given := ch != nil && ch.K == KParam && ch.Op == chanParam(r)
			fresh := ch != nil && ch.K == KMake
			if fresh {
				// made for a caller that passed none, with room for the outcome
				isnil, known := isNilOn(o.Events, func(x *Term) bool { x = strip(x); return x.K == KParam && x.Op == chanParam(r) })
				n := int64(0)
				if len(ch.A) > 0 {
					n, _ = ch.A[0].constInt()
				}
				c.Check(known && isnil && n >= 1, "own-channel", r.Name, show(fmt.Sprintf("a channel with room for %d is made although the caller may have passed one, or without room for the outcome", n)))
			}
			c.Check(given || fresh, "channel", r.Name, show("the channel of the operation is "+c.P.Show(ch)))
			errF, rspF := structField(obj, named("Error")), structField(obj, named("Response"))
			c.Check(errF != nil, "error-field", r.Name, nil)
			for _, q := range c.resume(callbackOf(g), g.Heap, r.Name+" outcome") {
				if q.Inner {
					continue
				}
				qs := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(q) } }
				if q.Kind != "return" {
					c.Check(false, "delivers-once", r.Name, qs("the outcome ends in "+q.Kind))
					continue
				}
				var sends []*Event
				for _, e := range q.Events {
					if e.Kind == EvSend {
						sends = append(sends, e)
					}
				}
				c.Check(len(sends) == 1, "delivers-once", r.Name, qs(fmt.Sprintf("the operation is delivered %d times", len(sends))))
				if len(sends) != 1 {
					continue
				}
				s := sends[0]
				c.Check(same(s.Recv, ch) && same(s.Args[0], obj) && (s.Blocking || fresh), "delivers-itself", r.Name, qs("delivered: "+c.P.ShowEvent(s)+", must be the operation on its channel"))
				// filled in before
				isEv := func(x *Term, n string) bool {
					v, b := fieldOf(x)
					return v != nil && v.Name() == n && b != nil && b.K == KParam
				}
				isnil, known := isNilOn(q.Events, func(x *Term) bool { return isEv(x, "Error") })
				eT := objField(s.Heap, obj, errF)
				if known && isnil {
					c.Check(eT == nil || eT.isNilConst() || isEv(eT, "Error"), "success-filled", r.Name, qs("the outcome is a success and the error is "+c.P.Show(eT)))
					if rspF != nil {
						got := objField(s.Heap, obj, rspF)
						wrong, tested := boolOn(q.Events, func(x *Term) bool { return x.K == KIs && anyTerm(x, func(y *Term) bool { return isEv(y, "Ack") }) })
						c.Check(got != nil && exact(got, func(x *Term) bool { return isEv(x, "Ack") }) || tested && !wrong, "response-filled", r.Name, qs("the outcome is a response and the operation has "+c.P.Show(got)))
					}
				} else {
					c.Check(isEv(eT, "Error"), "error-filled", r.Name, qs("the outcome is an error and the operation has the error "+c.P.Show(eT)))
				}
			}
		}
		c.Check(accepted > 0, "accepts", r.Name, func() string { return "no path accepts the operation" })
	}
	c.Min("one-callback", 2)
	c.Min("delivers-once", 2)
	c.Min("delivers-itself", 2)
	c.Min("error-filled", 2)
	c.Min("response-filled", 1)
	c.Min("refused-silent", 2)
}

func init() {
	register("C11", "Every path of the asynchronous operations is enumerated; the outcome callback registered on an accepted path is explored in the state that path had reached at registration. On each of its paths the operation returned to the caller is sent exactly once on the channel passed (or one made with room for it), with its error or response stored before. Refused operations queue nothing and register nothing.",
		Rule{"async", "one delivery per accepted operation, after it is filled in", c11Async},
	)
}
