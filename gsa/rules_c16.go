package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// C16: the heartbeat of a connection: sent once per announced interval, answered and
// supervised for twice the interval announced, until the connection ends.

const second = 1000000000

// times splits a duration into its constant part and the other factor
func times(t *Term) (n int64, x *Term, ok bool) {
	for t != nil && (t.K == KConv || t.K == KIface) {
		if t.K == KConv && t.T != nil && t.A[0].T != nil {
			from, _ := bits(t.A[0].T)
			if to, _ := bits(t.T); to > 0 && from > to {
				return 0, nil, false
			}
		}
		t = t.A[0]
	}
	if t == nil {
		return 0, nil, false
	}
	if v, is := t.constInt(); is {
		return v, nil, true
	}
	if t.K == KBin && t.Op == "*" {
		n1, x1, ok1 := times(t.A[0])
		n2, x2, ok2 := times(t.A[1])
		if ok1 && ok2 && (x1 == nil || x2 == nil) {
			if x1 == nil {
				x1 = x2
			}
			return n1 * n2, x1, true
		}
		return 0, nil, false
	}
	if t.K == KBin && t.Op == "+" && len(t.A) > 1 && t.A[0].Key() == t.A[1].Key() {
		n, x, ok := times(t.A[0])
		return 2 * n, x, ok
	}
	if t.K == KBin {
		return 0, nil, false
	}
	return 1, t, true
}

// lasts: the duration is k times the given number of seconds
func lasts(d, of *Term, k int64) bool {
	n, x, ok := times(d)
	m, y, ok2 := times(of)
	if !ok || !ok2 || n != k*second*m {
		return false
	}
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return same(x, y)
}

func isTickAdd(e *Event) bool {
	return e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "Add" && strings.HasSuffix(e.Op, "Timer).Add") && len(e.Args) > 0
}

func isTickT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Tick" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "timer"
}

// tickDur, tickHandler, tickCyclic: what a tick is registered with
func tickDur(e *Event) *Term {
	for _, a := range e.Args {
		if a.T != nil && namedIs(a.T, "time", "Duration") {
			return a
		}
		if _, is := a.constInt(); is {
			return a
		}
	}
	for _, a := range e.Args {
		if _, ok := Elems(e.Heap, a); !ok {
			return a
		}
	}
	return nil
}

func tickOpt(e *Event, name string) (arg *Term, is bool) {
	for _, a := range e.Args {
		el, _ := Elems(e.Heap, a)
		for _, x := range el {
			x = strip(x)
			if x != nil && (x.K == KCall || x.K == KPure) && strings.HasSuffix(x.Op, "timer."+name) {
				if len(x.A) > 0 {
					return x.A[0], true
				}
				return nil, true
			}
		}
	}
	return nil, false
}

// tickKept: the field of the object in which the tick is kept
func tickKept(ev []*Event, res *Term) *types.Var {
	for _, e := range ev {
		if e.Kind != EvStore || len(e.Args) == 0 {
			continue
		}
		v, _ := fieldOf(e.Recv)
		if v != nil && isTickT(v.Type()) && strip(e.Args[0]).Key() == strip(res).Key() {
			return v
		}
	}
	return nil
}

// closesConn: the path starts to close the connection (or finds that this was done or
// that it has ended)
func (c *Ctx) closesConn(o *Outcome) bool {
	for _, e := range o.Events {
		if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "DisConnPacket" {
			return true
		}
		if e.Kind == EvOnce && !e.Val {
			return true
		}
		if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "Close" && e.Recv != nil && e.Recv.T != nil && namedIs(e.Recv.T, "net", "Conn") {
			return true
		}
	}
	return c.streamGone(o.Events)
}

// wireIntervals: the intervals declared by the packet package
func (c *Ctx) wireIntervals() map[int64]bool {
	m := map[int64]bool{}
	for _, p := range c.P.TPkgs {
		sc := p.Scope()
		for _, n := range sc.Names() {
			k, ok := sc.Lookup(n).(*types.Const)
			if ok && namedIs(k.Type(), "packet", "Heartbeat") {
				if v, exact := constant.Int64Val(k.Val()); exact {
					m[v] = true
				}
			}
		}
	}
	return m
}

func c16Client(c *Ctx) {
	n := 0
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "conn" {
			continue
		}
		for _, o := range c.root(r) {
			var hb *Term
			for _, e := range o.Events {
				if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "ConnPacket" {
					hb = c.heapField(e.Heap, p, "Heartbeat")
				}
			}
			if hb == nil || o.Kind != "return" || len(o.Rets) == 0 || !o.Rets[len(o.Rets)-1].isNilConst() {
				continue
			}
			n++
			if v, is := hb.constInt(); is {
				c.Check(c.wireIntervals()[v], "announced-interval", r.Name+"/wire", func() string {
					return fmt.Sprintf("the interval of %d s cannot be announced, the peer supervises another one", v)
				})
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			found := 0
			for _, e := range o.Events {
				if !isTickAdd(e) {
					continue
				}
				h, _ := tickOpt(e, "WithHandler")
				h = strip(h)
				if h == nil || h.K != KClosure && h.K != KFunc {
					continue
				}
				outs := c.resume(h, o.Heap, r.Name)
				sends := false
				for _, x := range outs {
					for _, f := range x.Events {
						if p := c.sentPkt(f); p != nil && made(p) && c.pktKind(p) == "HeartbeatPacket" {
							sends = true
						}
					}
				}
				if !sends {
					continue
				}
				found++
				_, cyc := tickOpt(e, "WithCyclically")
				c.Check(cyc, "each-interval", r.Name, show("the heartbeat is sent once only"))
				d := tickDur(e)
				c.Check(lasts(d, hb, 1), "announced-interval", r.Name, show("the heartbeats are sent every "+c.P.Show(d)+" and the interval announced is "+c.P.Show(hb)+" s"))
				c.Check(tickKept(o.Events, e.Res) != nil, "tick-kept", r.Name, show("the heartbeat cannot be stopped, its tick is not kept"))
				for _, x := range outs {
					m := 0
					for _, f := range x.Events {
						if p := c.sentPkt(f); p != nil && made(p) && f.Kind == EvSend && c.pktKind(p) == "HeartbeatPacket" {
							m++
						}
					}
					showX := func() string { return c.P.ShowTrace(x) }
					if c.streamGone(x.Events) {
						c.Check(m == 0, "heartbeat-sent", r.Name, showX)
					} else {
						c.Check(m == 1 || x.Kind == "block", "heartbeat-sent", r.Name, showX)
					}
				}
			}
			c.Check(found == 1, "each-interval", r.Name, show(fmt.Sprintf("%d timers send heartbeats", found)))
		}
	}
	c.Min("each-interval", 1)
	c.Min("announced-interval", 1)
	c.Min("tick-kept", 1)
	c.Min("heartbeat-sent", 1)
}

// supervision: the tick of a path that closes the connection when it ends
func (c *Ctx) supervision(o *Outcome, ev []*Event, name string) (tick *Event, ok bool) {
	for _, e := range ev {
		if !isTickAdd(e) {
			continue
		}
		h, _ := tickOpt(e, "WithHandler")
		h = strip(h)
		if h == nil || h.K != KClosure && h.K != KFunc {
			continue
		}
		outs := c.resume(h, o.Heap, name)
		all := len(outs) > 0
		some := false
		for _, x := range outs {
			if x.Kind == "return" || x.Kind == "iterate" {
				all = all && c.closesConn(x)
			}
			some = some || c.closesConn(x)
		}
		if some {
			tick, ok = e, all
		}
	}
	return
}

func c16Server(c *Ctx) {
	for _, l := range c.Layers() {
		if l.pkg != "conn" || !c.role(l).answers {
			continue
		}
		var hbField *types.Var
		// the connection is accepted: its supervision starts
		for _, m := range c.moves(l, l.in, "ConnPacket", l.init, false) {
			acked := false
			for _, e := range m.ev {
				p := c.sentPkt(e)
				if p == nil || !made(p) || c.pktKind(p) != "ConnAckPacket" {
					continue
				}
				acked = acked || emptyStr(c.ackError(e.Heap, p))
			}
			if !acked {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(m.o) } }
			tick, all := c.supervision(m.o, m.ev, l.typ)
			if !c.Check(tick != nil, "supervised", l.typ, show("the connection is accepted and nothing watches its heartbeats")) {
				continue
			}
			c.Check(all, "silence-closes", l.typ, show("the supervision ends without closing the connection"))
			_, once := tickOpt(tick, "WithCyclically")
			c.Check(!once, "supervised", l.typ, show("the supervision is cyclic"))
			c.Check(tickKept(m.ev, tick.Res) != nil, "supervised", l.typ, show("the tick is not kept"))
			n, x, ok := times(tickDur(tick))
			f, _ := fieldOf(x)
			c.Check(ok && n == 2*second && f != nil && (pktPath(x) == "Heartbeat" || pktPath(x) == "ConnData.Heartbeat" || f.Name() == "Heartbeat"), "twice-announced", l.typ, show("the supervision lasts "+c.P.Show(tickDur(tick))))
			for _, e := range m.ev {
				if e.Kind != EvStore || e.Op == "local" || len(e.Args) == 0 {
					continue
				}
				if v, _ := fieldOf(e.Recv); v != nil && namedIs(v.Type(), "packet", "Heartbeat") {
					if exact(e.Args[0], func(y *Term) bool {
						return same(y, x) || strings.HasSuffix(pktPath(y), "Heartbeat") && pktPath(y) != ""
					}) {
						hbField = v
					} else {
						c.Check(false, "twice-announced", l.typ, show("the interval remembered is "+c.P.Show(e.Args[0])))
					}
				}
			}
		}
		// a heartbeat
		for _, m := range c.moves(l, l.in, "HeartbeatPacket", l.state, false) {
			if m.ended && !strings.Contains(m.o.Kind, "iterate") && m.o.Kind != "block" && m.o.Kind != "return" {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(m.o) } }
			acks := 0
			for _, e := range m.ev {
				p := c.sentPkt(e)
				if p == nil || !made(p) || e.Kind != EvSend || c.pktKind(p) != "HeartbeatAckPacket" {
					continue
				}
				acks++
				id := c.heapField(e.Heap, p, "PacketID")
				c.Check(exact(id, func(x *Term) bool { return strings.HasSuffix(pktPath(x), "PacketID") }), "answered", l.typ, show("the acknowledgement has the identifier "+c.P.Show(id)))
			}
			c.Check(acks == 1, "answered", l.typ, show(fmt.Sprintf("%d acknowledgements for a heartbeat", acks)))
			tick, all := c.supervision(m.o, m.ev, l.typ)
			if !c.Check(tick != nil, "restarted", l.typ, show("a heartbeat does not restart the supervision")) {
				continue
			}
			c.Check(all, "silence-closes", l.typ, show("the supervision ends without closing the connection"))
			kept := tickKept(m.ev, tick.Res)
			c.Check(kept != nil, "restarted", l.typ, show("the new tick is not kept"))
			stopped := false
			for _, e := range m.ev {
				if e.Kind != EvCall || e.Meth == nil || e.Meth.Name() != "Cancel" || e.Recv == nil {
					continue
				}
				// the tick that the field had before
				if f, _ := fieldOf(e.Recv); f != nil && f == kept && strip(e.Recv).Key() != strip(tick.Res).Key() {
					stopped = true
				}
				c.Check(strip(e.Recv).Key() != strip(tick.Res).Key(), "restarted", l.typ, show("the new supervision is stopped at once"))
			}
			if none, known := isNilOn(m.ev, func(x *Term) bool { f, _ := fieldOf(x); return f != nil && f == kept }); known && none && !stopped {
				stopped = true // there was no supervision to end
			}
			c.Check(stopped, "restarted", l.typ, show("the earlier supervision goes on and closes the connection although a heartbeat came"))
			n, x, ok := times(tickDur(tick))
			f, _ := fieldOf(x)
			c.Check(ok && n == 2*second && f != nil && f == hbField, "twice-announced", l.typ, show("the supervision lasts "+c.P.Show(tickDur(tick))))
			told := 0
			for _, e := range m.ev {
				if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "Heartbeat" && isDelegate(e) {
					told++
				}
			}
			if set, known := dlgtOn(m.ev); set || !known {
				c.Check(told == 1, "delegate-told", l.typ, show(fmt.Sprintf("the delegate is told of a heartbeat %d times", told)))
			}
		}
	}
	c.Min("supervised", 1)
	c.Min("silence-closes", 1)
	c.Min("twice-announced", 1)
	c.Min("answered", 1)
	c.Min("restarted", 1)
	c.Min("delegate-told", 1)
}

// c16Stops: no heartbeat and no supervision after the end, and none of them stopped before
func c16Stops(c *Ctx) {
	isCancel := func(e *Event) *types.Var {
		if e.Kind != EvCall || e.Meth == nil || e.Meth.Name() != "Cancel" || e.Recv == nil || e.Recv.T == nil || !isTickT(e.Recv.T) {
			return nil
		}
		f, _ := fieldOf(e.Recv)
		return f
	}
	for _, l := range c.Layers() {
		if l.pkg != "conn" {
			continue
		}
		ended := 0
		for _, o := range c.root(l.loop) {
			over := false
			for _, e := range o.Events {
				over = over || e.Kind == EvClose && e.Gid == 0 && c.P.chanLabel(e.Recv) == l.out
			}
			if !over || o.Kind != "return" {
				continue
			}
			ended++
			stopped := false
			for _, e := range o.Events {
				if isCancel(e) != nil {
					stopped = true
				}
			}
			if isnil, known := isNilOn(o.Events, func(x *Term) bool { return x.T != nil && isTickT(x.T) }); known && isnil {
				stopped = true
			}
			c.Check(stopped, "stopped-at-end", l.typ, func() string {
				return "the connection has ended and its heartbeat tick goes on\n" + c.P.ShowTrace(o)
			})
		}
		c.Check(ended > 0, "stopped-at-end", l.typ+"/end", func() string { return "the end of the connection is not found" })
	}
	for _, r := range c.Roots() {
		if c.P.rel(r.Fn) != "conn" {
			continue
		}
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				f := isCancel(e)
				if f == nil {
					continue
				}
				again := false
				for _, s := range o.Events {
					if isTickAdd(s) && tickKept(o.Events, s.Res) == f && strip(e.Recv).Key() != strip(s.Res).Key() {
						again = true
					}
				}
				over := c.closesConn(o)
				for _, s := range o.Events {
					if s.Kind == EvClose {
						over = true
					}
				}
				c.Check(again || over, "kept-while-open", r.Name, func() string {
					return "the heartbeat stops although the connection goes on\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	c.Min("stopped-at-end", 2)
	c.Min("kept-while-open", 1)
}

func init() {
	register("C16", "The constructor of the connecting side is executed on every path up to success, and the handler of its heartbeat timer is resumed in the state in which it was registered; the packet loop of the accepting side is executed for every connection request and every heartbeat in the state machine extracted from the code; the handlers of its supervision timers are resumed likewise. Decided: the interval sent is the interval announced and the timer repeats; each heartbeat is answered under its identifier and restarts a supervision of twice the announced interval that closes the connection; and the timers are stopped exactly when the connection ends.",
		Rule{"client", "a connected client sends a heartbeat once per announced interval while it is open", c16Client},
		Rule{"server", "a connected server answers each heartbeat and closes the connection after twice the announced interval without one", c16Server},
		Rule{"stops", "heartbeats and their supervision stop when the connection ends, not earlier", c16Stops},
		Rule{"layout", "the packets that carry it are decoded as they were encoded", layoutOf("ConnPacket", "HeartbeatPacket", "HeartbeatAckPacket")},
	)
}
