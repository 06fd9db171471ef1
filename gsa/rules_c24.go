package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ctxDone: the path saw the context it was given end
func ctxDone(e *Event) bool {
	if e.Kind != EvRecv || e.Recv == nil {
		return false
	}
	t := strip(e.Recv)
	return t.K == KPure && t.Op == "get:Done" && len(t.A) > 0 && t.A[0].T != nil && namedIs(t.A[0].T, "context", "Context")
}

func hasGlobal(t *Term, name string) bool {
	return anyTerm(t, func(x *Term) bool { return x.K == KGlobal && strings.HasSuffix(x.Op, name) })
}

// endedBy: what a path found out about the reason the context ended
func endedBy(ev []*Event, name string) (is, known bool) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if !hasGlobal(t, name) {
			continue
		}
		if t.K == KBin && t.Op == "!=" {
			v = !v
		}
		return v, true
	}
	return false, false
}

func isCtxErr(t *Term) bool {
	return anyTerm(t, func(x *Term) bool {
		return (x.K == KPure || x.K == KCall) && (x.Op == "get:Err" || strings.HasSuffix(x.Op, "Context).Err") || strings.HasSuffix(x.Op, "context.Cause"))
	})
}

func (c *Ctx) streamGone(ev []*Event) bool {
	lv := c.lives()
	for _, e := range ev {
		if f, _, v := flagCond(e); f != nil && lv[c.P.Label(f)] != "" && !v {
			return true
		}
	}
	return false
}

func c24Call(c *Ctx) {
	want := ""
	if k, ok := c.P.TPkgs["packet"].Scope().Lookup("RequestCancelTypeCanceled").(*types.Const); ok {
		want = k.Val().ExactString()
	}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			reqI, doneI := -1, -1
			var req *Term
			var id *Term
			for i, e := range o.Events {
				p := c.sentPkt(e)
				if p != nil && made(p) && c.pktKind(p) == "RequestPacket" {
					reqI, req = i, p
					id = c.heapField(e.Heap, p, "PacketID")
				}
				if reqI >= 0 && doneI < 0 && ctxDone(e) {
					doneI = i
				}
			}
			var cancels []*Event
			early := false
			for i, e := range o.Events {
				if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "RequestCancelPacket" {
					cancels = append(cancels, e)
					early = early || doneI < 0 || i < doneI
				}
			}
			if len(cancels) > 0 {
				c.Check(!early && req != nil, "only-when-cancelled", r.Name, show("a cancellation is sent although no context ended after a request was sent"))
			}
			if doneI < 0 || r.Kind != "api" {
				continue
			}
			after := o.Events[doneI:]
			gone := c.streamGone(after)
			timeout, tk := endedBy(after, "DeadlineExceeded")
			canc, ck := endedBy(after, "Canceled")
			if o.Kind == "return" {
				ret := o.Rets[len(o.Rets)-1]
				c.Check(!ret.isNilConst() && (isCtxErr(ret) || gone || hasGlobal(ret, "Canceled") || hasGlobal(ret, "DeadlineExceeded")), "context-error", r.Name, show("the context of the call ended and the call returns "+c.P.Show(ret)))
			}
			if gone || tk && timeout || ck && !canc {
				continue // the peer has the deadline, or cannot be told any more
			}
			c.Check(len(cancels) == 1, "peer-told", r.Name, show(fmt.Sprintf("the context of the call was cancelled and %d cancellations are sent", len(cancels))))
			if len(cancels) != 1 {
				continue
			}
			e := cancels[0]
			p := c.sentPkt(e)
			got := c.heapField(e.Heap, p, "PacketID")
			c.Check(same(got, id), "which-request", r.Name, show("the cancellation names "+c.P.Show(got)+", the request is "+c.P.Show(id)))
			ty := c.heapField(e.Heap, p, "cancelType")
			v := strip(ty).constVal()
			c.Check(v != nil && v.ExactString() == want, "cancel-type", r.Name, show("the cancellation has the type "+c.P.Show(ty)))
		}
	}
	c.Min("peer-told", 1)
	c.Min("which-request", 1)
	c.Min("context-error", 1)
	c.Min("only-when-cancelled", 1)
}

// ctxCall: the call that created a context, from the context or its cancel function
func ctxCall(t *Term) (call *Term, idx int) {
	t = strip(t)
	if t != nil && t.K == KTupleEl && t.A[0].K == KCall && strings.HasPrefix(t.A[0].Op, "context.With") {
		return t.A[0], t.ID
	}
	return nil, 0
}

// cancels: ending the context made by a ends the one made by b, too
func cancels(a, b *Term) bool {
	for b != nil {
		if a.Key() == b.Key() {
			return true
		}
		if len(b.A) == 0 {
			return false
		}
		next, i := ctxCall(b.A[0])
		if i != 0 {
			return false
		}
		b = next
	}
	return false
}

// cancelTable: the table in which the cancel function of a request is remembered
func (c *Ctx) setCancel(ev []*Event) []*Event {
	var r []*Event
	for _, e := range ev {
		if e.Kind == EvMapSet && len(e.Args) > 1 {
			if call, i := ctxCall(e.Args[1]); call != nil && i == 1 {
				r = append(r, e)
			}
		}
	}
	return r
}

// handlings feeds a packet and yields each distinct handling of it once
func (c *Ctx) handlings(r *Root, lab, kind string, o RunOpts, f func(o *Outcome, ev []*Event)) {
	seen := map[string]bool{}
	for _, o := range c.feed(r, lab, kind, o) {
		ev := step(o)
		var sb strings.Builder
		for _, e := range ev {
			fmt.Fprintf(&sb, "%d|%d|%v|%d;", e.Kind, e.Pos, e.Val, e.Gid)
			if e.Kind == EvAssume {
				sb.WriteString(e.Cond.Key())
			}
		}
		if seen[sb.String()] {
			continue
		}
		seen[sb.String()] = true
		f(o, ev)
	}
}

func c24Handler(c *Ctx) {
	r, lab := c.appRead()
	if r == nil {
		return
	}
	table := map[string]bool{}
	id := c.pktLoad(c.P.pktTerm("RequestPacket"), "PacketID")
	c.handlings(r, lab, "RequestPacket", RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		for _, h := range c.handlerCalls(ev) {
			var ctx *Term
			for _, a := range h.e.Args {
				if call, i := ctxCall(a); call != nil && i == 0 {
					ctx = call
				}
			}
			c.Check(ctx != nil, "handler-context", r.Name, show("the handler does not run with a context that can be cancelled"))
			if ctx == nil {
				continue
			}
			set := c.setCancel(ev[:h.i])
			var cur *Event
			for _, e := range set {
				if same(e.Args[0], id) {
					cur = e
				} else {
					c.Check(false, "remembered", r.Name, show("the cancel function is remembered under "+c.P.Show(e.Args[0])))
				}
			}
			okc := false
			if cur != nil {
				call, _ := ctxCall(cur.Args[1])
				okc = cancels(call, ctx) && cur.Gid == 0
				table[c.P.chanLabel(cur.Recv)] = true
			}
			c.Check(okc, "remembered", r.Name, show("when the handler starts, the cancel function of its context is not remembered under the identifier of the request"))
			// not ended before
			for i, e := range ev[:h.i] {
				if e.Kind == EvDyn {
					if call, k := ctxCall(e.Recv); call != nil && k == 1 && cancels(call, ctx) {
						c.Check(false, "not-cancelled-early", r.Name, show("the context is cancelled before the handler runs"))
					}
				}
				if e.Kind == EvMapDel && cur != nil && same(e.Recv, cur.Recv) && i > indexOf(ev, cur) {
					c.Check(false, "not-cancelled-early", r.Name, show("the cancel function is forgotten before the handler runs"))
				}
			}
			c.Check(true, "not-cancelled-early", r.Name, nil)
		}
	})
	cid := c.pktLoad(c.P.pktTerm("RequestCancelPacket"), "PacketID")
	hit := 0
	c.handlings(r, lab, "RequestCancelPacket", RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		n := 0
		looked := false
		for _, e := range ev {
			switch e.Kind {
			case EvMapGet:
				if table[c.P.chanLabel(e.Recv)] {
					looked = true
					c.Check(same(e.Args[0], cid), "lookup", r.Name, show("the cancel function is looked up by "+c.P.Show(e.Args[0])))
				}
			case EvMapDel, EvMapSet:
				if table[c.P.chanLabel(e.Recv)] {
					c.Check(e.Kind == EvMapDel && same(e.Args[0], cid), "only-that-request", r.Name, show("the table of running requests is changed at "+c.P.Show(e.Args[0])))
				}
			case EvMapRange:
				c.Check(!table[c.P.chanLabel(e.Recv)], "only-that-request", r.Name, show("all running requests are visited"))
			case EvDyn:
				f := strip(e.Recv)
				for f.K == KTupleEl {
					f = f.A[0]
				}
				ok := f.K == KMapVal && table[c.P.chanLabel(f.A[0])] && same(f.A[1], cid)
				c.Check(ok, "only-that-request", r.Name, show("on a cancellation "+c.P.ShowEvent(e)))
				if ok {
					n++
				}
			}
		}
		c.Check(looked, "looked-up", r.Name, show("the cancelled request is not looked up"))
		found, known := boolOn(ev, func(x *Term) bool {
			return x.K == KPure && strings.HasPrefix(x.Op, "mapok") && len(x.A) > 0 && strip(x.A[0]).K == KMapVal && table[c.P.chanLabel(strip(x.A[0]).A[0])]
		})
		if !known {
			if isnil, ok := isNilOn(ev, func(x *Term) bool { x = strip(x); return x.K == KMapVal && table[c.P.chanLabel(x.A[0])] }); ok {
				found, known = !isnil, true
			}
		}
		want := 0
		if found {
			want = 1
			hit++
		}
		c.Check(known && n == want, "cancelled-once", r.Name, show(fmt.Sprintf("the request is found: %v, its context is cancelled %d times", found, n)))
		c.Check(goesOn(o), "continues", r.Name, func() string { return "the stream ends on a cancellation\n" + c.P.ShowTrace(o) })
	})
	c.Check(hit > 0, "cancels", r.Name, nil)
	c.Check(len(table) == 1, "one-table", r.Name, func() string { return fmt.Sprint(sortedKeys(table)) })
	c.Min("remembered", 1)
	c.Min("handler-context", 1)
	c.Min("cancelled-once", 1)
	c.Min("lookup", 1)
}

// c24Way: every layer takes the cancellation and hands it on.
func c24Way(c *Ctx) {
	const k = "RequestCancelPacket"
	cons, _ := c.consumers()
	queues := map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == k && e.Kind == EvSend {
					queues[c.P.evLabel(e)] = true
				}
			}
		}
	}
	for q := range queues {
		for _, r := range cons[q] {
			for _, o := range c.feed(r, q, k, RunOpts{}) {
				c.forwarded(o, "accepted", r.Name+"/"+q, c.dgWrite, 1)
			}
		}
	}
	for _, l := range c.Layers() {
		for _, o := range c.feed(l.loop, l.in, k, RunOpts{FSM: l.fsm, State: l.state}) {
			c.forwarded(o, "accepted", l.typ+"/up", c.sendTo(l.up), 1)
		}
		for _, o := range c.feed(l.loop, l.out, k, RunOpts{FSM: l.fsm, State: l.state}) {
			c.forwarded(o, "accepted", l.typ+"/down", c.sendTo(l.downQ), 1)
		}
	}
	// the decoder knows it
	dec := false
	if fn := c.P.Func("packet", "DecodeFromReader"); fn != nil {
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{NoBound: true, Key: "decode"}) {
			if len(o.Rets) == 2 && c.pktKind(o.Rets[0]) == k {
				dec = true
			}
		}
	}
	c.Check(dec, "decoded", k, func() string { return "the decoder never returns a " + k })
	c.Min("accepted", 5)
}

func init() {
	register("C24", "Every path of every calling operation that saw its context end after its request was queued must queue one cancellation with the request's identifier, unless the context's deadline passed or the stream had ended, and return the context's error. The stream read loop is explored with a request (the cancel function of the handler's context must be remembered under the request's identifier before the handler starts) and with a cancellation (exactly the function remembered under its identifier is called). Every loop on the way is explored with a cancellation and must hand it on.",
		Rule{"call", "a cancelled call tells the peer which request", c24Call},
		Rule{"handler", "a cancellation ends exactly that handler's context", c24Handler},
		Rule{"way", "the cancellation passes every layer", c24Way},
		Rule{"layout", "the packets that carry it are decoded as they were encoded", layoutOf("RequestCancelPacket")},
	)
}
