package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// registers: a waiter is registered (not a mere callback on a name)
func isHub(e *Event, names ...string) bool {
	if e.Kind != EvCall || e.Fn == nil || e.Fn.Pkg == nil || !strings.HasSuffix(e.Fn.Pkg.Pkg.Path(), "/synchub") || recvName(e.Fn) != "SyncHub" {
		return false
	}
	for _, n := range names {
		if e.Fn.Name() == n {
			return true
		}
	}
	return false
}

func isRegister(e *Event) bool { return isHub(e, "New", "Add") }

// hubKey is the identifier a hub operation names
func hubKey(e *Event) *Term {
	if len(e.Args) > 1 {
		return strip(e.Args[1])
	}
	return nil
}

// heapField reads a field of a packet made on the path from the heap of an event.
func (c *Ctx) heapField(h *Heap, pkt *Term, field string) *Term {
	a := c.pktAddr(pkt, field)
	if a == nil {
		return nil
	}
	// embedded pointers are resolved through the heap
	var fix func(t *Term) *Term
	fix = func(t *Term) *Term {
		if t == nil || h == nil {
			return t
		}
		switch t.K {
		case KLoad:
			b := fix(t.A[0])
			if ce, ok := h.m[b.Key()]; ok {
				return ce.val
			}
			if b == t.A[0] {
				return t
			}
			n := *t
			n.key = ""
			n.A = []*Term{b}
			return &n
		case KFieldA:
			b := fix(t.A[0])
			if b == t.A[0] {
				return t
			}
			n := *t
			n.key = ""
			n.A = []*Term{strip(b)}
			return &n
		}
		return t
	}
	return fix(&Term{K: KLoad, A: []*Term{a}, T: deref(a.T)})
}

// pktKind names the concrete packet type of a term, or is empty
func (c *Ctx) pktKind(t *Term) string {
	s := strip(t)
	if s == nil || s.T == nil {
		return ""
	}
	n, ok := deref(s.T).(*types.Named)
	if !ok || c.P.pktTypes()[n.Obj().Name()] == nil {
		return ""
	}
	return n.Obj().Name()
}

// sentPkt is the packet an event sends to a queue or hands to the layer below
func (c *Ctx) sentPkt(e *Event) *Term {
	if t := c.appSends(e); t != nil {
		return t
	}
	if e.Kind == EvSend && len(e.Args) > 0 && e.Recv != nil && e.Recv.T != nil && chanPktType(e.Recv.T) != "" {
		return e.Args[0]
	}
	if e.Kind == EvCall && callName(e) == "Write" && len(e.Args) > 0 && c.pktKind(e.Args[len(e.Args)-1]) != "" {
		return e.Args[len(e.Args)-1]
	}
	if isEncode(e) {
		return e.Args[0]
	}
	return nil
}

var answered = map[string]bool{"MessagePacket": true, "RequestPacket": true, "RegisterPacket": true, "SessionPacket": true, "DismissPacket": true, "ConnPacket": true}

// made: the packet was created on the path
func made(t *Term) bool {
	s := strip(t)
	return s != nil && (s.K == KAlloc || s.K == KCall || s.K == KTupleEl)
}

// atMostOnce: the path found that the message asks for no acknowledgement
func (c *Ctx) atMostOnce(o *Outcome) bool {
	var want string
	if tp := c.P.TPkgs["options"]; tp != nil {
		if k, ok := tp.Scope().Lookup("CnssAtMostOnce").(*types.Const); ok {
			want = k.Val().ExactString()
		}
	}
	for _, e := range o.Events {
		if e.Kind != EvAssume || e.Cond.K != KBin || e.Cond.Op != "==" && e.Cond.Op != "!=" {
			continue
		}
		for i := 0; i < 2; i++ {
			k := strip(e.Cond.A[i]).constVal()
			x := e.Cond.A[1-i]
			if k != nil && k.ExactString() == want && isCnss(x) && e.Val == (e.Cond.Op == "==") {
				return true
			}
		}
	}
	return false
}

func isCnss(t *Term) bool {
	return anyTerm(t, func(x *Term) bool {
		if x.T == nil {
			return false
		}
		n, ok := x.T.(*types.Named)
		return ok && n.Obj().Name() == "Cnss"
	})
}

func c04Order(c *Ctx) {
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			type reg struct {
				i   int
				key *Term
				e   *Event
			}
			var regs []reg
			for i, e := range o.Events {
				if isRegister(e) {
					regs = append(regs, reg{i, hubKey(e), e})
				}
			}
			for i, e := range o.Events {
				p := c.sentPkt(e)
				if p == nil || !made(p) {
					continue
				}
				k := c.pktKind(p)
				if !answered[k] {
					continue
				}
				id := c.heapField(e.Heap, p, "PacketID")
				cons := r.Name + "/" + k
				var before, after *reg
				for j := range regs {
					if sameVal(regs[j].key, id) && regs[j].e.Gid == e.Gid {
						if regs[j].i < i {
							before = &regs[j]
						} else {
							after = &regs[j]
						}
					}
				}
				c.Check(after == nil, "before-send", cons, func() string {
					return "the waiter is registered after the packet was queued: " + c.P.ShowEvent(after.e) + "\n" + c.P.ShowTrace(o)
				})
				if k == "MessagePacket" && c.atMostOnce(o) {
					c.Check(before == nil && len(regs) == 0, "no-ack-no-waiter", cons, func() string { return "a message nobody acknowledges has a waiter\n" + c.P.ShowTrace(o) })
					continue
				}
				c.Check(before != nil, "registered", cons, func() string {
					return fmt.Sprintf("a %s (identifier %s) is queued and no waiter was registered for that identifier before\n%s", k, c.P.Show(id), c.P.ShowTrace(o))
				})
			}
		}
	}
	c.Min("registered", 8)
	c.Min("before-send", 8)
}

// waitedOn: the registration whose channel an event receives from
func waitedOn(o *Outcome, e *Event) *Event {
	if e.Kind != EvRecv {
		return nil
	}
	for _, g := range o.Events {
		if isRegister(g) && g.Res != nil && contains(e.Recv, g.Res) {
			return g
		}
	}
	return nil
}

// c04Wait: what is waited for is a waiter that the sent packet, or the task that delivers the answer, releases.
func c04Wait(c *Ctx) {
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				g := waitedOn(o, e)
				if g == nil {
					continue
				}
				key := hubKey(g)
				sent, spawned := false, false
				gi := -1
				for j, f := range o.Events[:i] {
					if f == g {
						gi = j
					}
					if gi < 0 || f == g {
						continue
					}
					if p := c.sentPkt(f); p != nil && made(p) && sameVal(c.heapField(f.Heap, p, "PacketID"), key) {
						sent = true
					}
					if f.Kind == EvGo && f.Fn != nil {
						for _, t := range c.taskWith(isDecode) {
							if t.Fn == f.Fn {
								spawned = true
							}
						}
					}
				}
				if isNumeric(key) {
					c.Check(sent, "waits-for-sent", r.Name, func() string {
						return "waits for an answer to " + c.P.Show(key) + " that no packet sent after the registration carries\n" + c.P.ShowTrace(o)
					})
					continue
				}
				if c.hasSub(g) {
					continue // see C25
				}
				// released by name: the task that reads the answer starts afterwards, and the packet loop releases that name
				rel := c.releasedBy(key)
				c.Check(spawned && len(rel) > 0, "reader-after-waiter", r.Name, func() string {
					return fmt.Sprintf("the waiter %s is registered, but the task that reads packets is not started after it, or no packet loop releases that name (%v)\n%s", c.P.Show(key), rel, c.P.ShowTrace(o))
				})
			}
		}
	}
	// the reader of a connection that waits for its first packet is started nowhere else
	c.Min("waits-for-sent", 5)
	c.Min("reader-after-waiter", 1)
}

func (c *Ctx) hasSub(g *Event) bool {
	for _, a := range g.Args {
		if el, ok := Elems(g.Heap, a); ok {
			for _, x := range el {
				if strings.Contains(c.P.Show(x), "WithSub") {
					return true
				}
			}
		}
	}
	return false
}

func isNumeric(t *Term) bool {
	if t == nil || t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// shape renders a term with the object it starts from left out, so that two tasks can be compared.
func shape(p *Prog, t *Term) string {
	t = strip(t)
	if t == nil {
		return ""
	}
	if v, b := fieldOf(t); v != nil && (t.K == KLoad || t.K == KFieldA) {
		if rt := rootObj(b); rt != nil && (rt.K == KParam || rt.K == KAlloc) {
			return typeShape(t)
		}
	}
	if t.K == KParam || t.K == KTupleEl && t.A[0].K == KCall {
		return typeShape(t)
	}
	var s []string
	for _, a := range t.A {
		s = append(s, shape(p, a))
	}
	x := ""
	if t.K == KConst {
		x = t.Key()
	}
	return t.Op + x + "(" + strings.Join(s, ",") + ")"
}

func typeShape(t *Term) string {
	if t.T == nil {
		return "?"
	}
	if t.K == KFieldA {
		return types.TypeString(deref(t.T), nil)
	}
	return types.TypeString(t.T, nil)
}

// releasedBy: the tasks that complete the waiter of that name
func (c *Ctx) releasedBy(key *Term) []string {
	want := shape(c.P, key)
	m := map[string]bool{}
	for _, r := range c.tasks() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if isHub(e, "Ack", "Done", "Error") && shape(c.P, hubKey(e)) == want {
					m[r.Name+"."+e.Fn.Name()] = true
				}
			}
		}
	}
	r := sortedKeys(m)
	sort.Strings(r)
	return r
}

// answerOf: the kind of packet that answers a kind, if there is one
func (c *Ctx) answerOf(kind string) string {
	base := strings.TrimSuffix(kind, "Packet")
	for _, a := range []string{base + "AckPacket", strings.TrimSuffix(base, "Request") + "ResponsePacket"} {
		if a != kind && c.P.pktTypes()[a] != nil && (a != "ResponsePacket" || kind == "RequestPacket") {
			return a
		}
	}
	return ""
}

// c04Answers: whoever answers a packet does so under the identifier of that packet, the waiter is registered under no other
func c04Answers(c *Ctx) {
	judge := func(o *Outcome, ev []*Event, kind, where string) {
		for _, e := range c.sentKind(ev, c.answerOf(kind)) {
			p := c.sentPkt(e)
			id := c.heapField(e.Heap, p, "PacketID")
			c.Check(id != nil && same(id, c.pktLoad(c.P.pktTerm(kind), "PacketID")), "answer-same-id", where, func() string {
				return "a " + kind + " is answered under the identifier " + c.P.Show(id) + "\n" + c.P.ShowTrace(o)
			})
		}
	}
	for _, k := range c.kindsOf() {
		if c.answerOf(k) == "" {
			continue
		}
		for _, l := range c.Layers() {
			for _, s := range sortedKeys(l.fsm.States) {
				tasks := false
				for _, m := range c.moves(l, l.in, k, s, false) {
					judge(m.o, m.ev, k, l.typ+"/"+k)
					for _, e := range m.ev {
						tasks = tasks || e.Kind == EvGo
					}
				}
				if !tasks {
					continue
				}
				for _, m := range c.moves(l, l.in, k, s, true) {
					judge(m.o, m.ev, k, l.typ+"/"+k)
				}
			}
		}
		if r, lab := c.appRead(); r != nil {
			c.handlings(r, lab, k, RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) { judge(o, ev, k, r.Name+"/"+k) })
		}
	}
	c.Min("answer-same-id", 6)
}

func init() {
	register("C04", "On every path of every entry each waiter registration is matched with the packet sent: the registration precedes the queuing of the packet in the same task, its key is the term stored into the packet's identifier, and whatever is waited for is the waiter of a packet sent after it, or of a name the packet loop releases whose reading task is started after the registration.",
		Rule{"order", "packets that are answered are queued after their waiter was registered under their identifier", c04Order},
		Rule{"wait", "every wait is for an answer to a packet sent, or to a packet read by a task started after the registration", c04Wait},
		Rule{"answers", "whoever answers a packet does so under the identifier of that packet", c04Answers},
	)
}
