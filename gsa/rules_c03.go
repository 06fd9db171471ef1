package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tasks lists the background tasks.
func (c *Ctx) tasks() []*Root {
	var r []*Root
	for _, t := range c.Roots() {
		if t.Kind == "task" {
			r = append(r, t)
		}
	}
	return r
}

func (c *Ctx) root(r *Root) []*Outcome { return c.RunRoot(r, RunOpts{Key: "root"}) }

// consumers maps a queue label to the tasks that keep receiving from it; draining a queue that is being closed is no consumption.
func (c *Ctx) consumers() (cons map[string]map[*ssa.Function]*Root, drains map[string]map[*ssa.Function]*Root) {
	if c.cons != nil {
		return c.cons, c.drains
	}
	cons, drains = map[string]map[*ssa.Function]*Root{}, map[string]map[*ssa.Function]*Root{}
	put := func(m map[string]map[*ssa.Function]*Root, l string, r *Root) {
		if m[l] == nil {
			m[l] = map[*ssa.Function]*Root{}
		}
		m[l][r.Fn] = r
	}
	// a drain is a task whose spawner closes the queue afterwards
	closedAfter := map[*ssa.Function]map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				if e.Kind != EvGo || e.Fn == nil {
					continue
				}
				for _, f := range o.Events[i+1:] {
					if f.Kind == EvClose {
						if closedAfter[e.Fn] == nil {
							closedAfter[e.Fn] = map[string]bool{}
						}
						closedAfter[e.Fn][c.P.chanLabel(f.Recv)] = true
					}
				}
			}
		}
	}
	for _, r := range c.tasks() {
		for _, o := range c.root(r) {
			closed := map[string]bool{}
			for _, e := range o.Events {
				if e.Kind == EvClose {
					closed[c.P.chanLabel(e.Recv)] = true
				}
				if e.Kind == EvRecv && e.Blocking {
					l := c.P.chanLabel(e.Recv)
					if closed[l] {
						continue
					}
					if closedAfter[r.Fn][l] {
						put(drains, l, r)
					} else {
						put(cons, l, r)
					}
				}
			}
		}
	}
	// so is a task started by the consumer once it has received the last it handles
	for l, m := range cons {
		for fn := range m {
			n, ok := 0, true
			for s, sr := range m {
				if s == fn {
					continue
				}
				for _, o := range c.root(sr) {
					var started *Event
					for _, e := range o.Events {
						if e.Kind == EvGo && e.Fn == fn {
							started = e
							n++
						}
						if started != nil && e.Kind == EvRecv && e.Gid == 0 && c.P.chanLabel(e.Recv) == l {
							ok = false
						}
					}
					ok = ok && (started == nil || !cutAround(o, started))
				}
			}
			if n > 0 && ok {
				put(drains, l, m[fn])
				delete(m, fn)
			}
		}
	}
	c.cons, c.drains = cons, drains
	return
}

// layer describes one packet layer by what its code does.
type layer struct {
	typ    string // constructed type
	pkg    string
	state  string // established state
	init   string
	fsm    *fsmTable
	loop   *Root
	in     string // queue read from below
	out    string // queue read from above
	up     string // queue to the layer above
	downQ  string // queue to the layer below
	writer *Root  // task that empties downQ
	own    map[string]bool
}

func taskRecvType(r *Root) string {
	var t types.Type
	if len(r.opts.Args) > 0 && r.opts.Args[0].T != nil {
		t = r.opts.Args[0].T
	} else if len(r.Fn.Params) > 0 {
		t = r.Fn.Params[0].Type()
	} else {
		return ""
	}
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// getterLabel: the queue a method hands out
func (c *Ctx) getterLabel(pkg, typ, name string) string {
	fn := c.P.Method(pkg, typ, name)
	if fn == nil {
		return ""
	}
	for _, o := range c.Traces(fn, fnName(fn), RunOpts{Key: "root"}) {
		if len(o.Rets) == 1 {
			return c.P.chanLabel(o.Rets[0])
		}
	}
	return ""
}

// sentBy lists the packet queues a function sends to.
func (c *Ctx) sentBy(outs []*Outcome) map[string]bool {
	r := map[string]bool{}
	for _, o := range outs {
		for _, e := range o.Events {
			if e.Kind == EvSend && e.Recv.T != nil && chanPktType(e.Recv.T) == "Packet" {
				r[c.P.chanLabel(e.Recv)] = true
			}
		}
	}
	return r
}

func one(m map[string]bool) string {
	for k := range m {
		if len(m) == 1 {
			return k
		}
	}
	return ""
}

func (c *Ctx) taskWith(f func(e *Event) bool) []*Root {
	var r []*Root
	for _, t := range c.tasks() {
		hit := false
		for _, o := range c.root(t) {
			for _, e := range o.Events {
				if f(e) {
					hit = true
				}
			}
		}
		if hit {
			r = append(r, t)
		}
	}
	return r
}

func isDecode(e *Event) bool { return e.Kind == EvCall && isCall(e, "DecodeFromReader") }
func isEncode(e *Event) bool { return e.Kind == EvCall && isCall(e, "EncodeToWriter") }

// layers finds the packet layers from what their tasks do.
func (c *Ctx) Layers() []*layer {
	if c.lays != nil {
		return c.lays
	}
	cons, _ := c.consumers()
	inConn, inDg := map[string]bool{}, map[string]bool{}
	for _, t := range c.taskWith(isDecode) {
		for l := range c.sentBy(c.root(t)) {
			inConn[l] = true
		}
	}
	for _, t := range c.tasks() {
		for l, m := range cons {
			if m[t.Fn] != nil && strings.Contains(l, "get:ChannelRead") {
				for q := range c.sentBy(c.root(t)) {
					if q != "fresh" {
						inDg[q] = true
					}
				}
			}
		}
	}
	for typ, t := range c.FSMs() {
		pkg, in, st, own, up := "conn", one(inConn), c.P.constStr("conn", "CONNED"), connLayer, c.getterLabel("conn", typ, "ChannelRead")
		if c.P.Named("conn", typ) == nil {
			pkg, in, st, own, up = "multiplexer", one(inDg), c.P.constStr("multiplexer", "SESSIONED"), sessionLayer, c.getterLabel("multiplexer", typ, "ReadC")
		}
		l := &layer{typ: typ, pkg: pkg, in: in, state: st, own: own, fsm: t, up: up, init: c.P.constStr(pkg, "INIT")}
		w := c.P.Method(pkg, typ, "Write")
		if w != nil {
			l.out = one(c.sentBy(c.Traces(w, fnName(w), RunOpts{Key: "root"})))
		}
		for lab, m := range cons {
			for _, r := range m {
				if lab == l.in && taskRecvType(r) == typ {
					l.loop = r
				}
			}
		}
		// the writer empties a queue the loop fills
		if l.loop != nil {
			fills := c.sentBy(c.root(l.loop))
			for lab, m := range cons {
				if !fills[lab] || lab == l.in || lab == l.out || lab == l.up {
					continue
				}
				for _, r := range m {
					l.writer, l.downQ = r, lab
				}
			}
		}
		ok := l.in != "" && l.out != "" && l.up != "" && l.loop != nil && l.writer != nil && l.state != "" && t.States[l.state]
		c.Check(ok, "layer-found", typ, func() string { return fmt.Sprintf("%+v", *l) })
		if ok {
			c.lays = append(c.lays, l)
		}
	}
	sort.Slice(c.lays, func(i, j int) bool { return c.lays[i].typ < c.lays[j].typ })
	return c.lays
}

// feed explores a task with one packet of a concrete type received from the given queue.
func (c *Ctx) feed(r *Root, label, pkt string, o RunOpts) []*Outcome {
	p := c.P
	pt := p.pktTerm(pkt)
	o.OnRecv = func(ch *Term, t types.Type) []*Term {
		if p.chanLabel(ch) == label && isPacketIface(t) {
			return []*Term{pt}
		}
		return nil
	}
	o.Key = fmt.Sprintf("feed|%s|%s|%s|%s|%v|%v", o.Key, label, pkt, o.State, o.InlineGo, o.OneStep)
	o.Args, o.Free = r.opts.Args, r.opts.Free
	o.Heap = c.pktHeap(pkt, r.opts.Heap)
	var res []*Outcome
	for _, out := range c.Traces(r.Fn, r.Name, o) {
		if out.Inner {
			continue
		}
		// the first thing taken is the packet
		for _, e := range out.Events {
			if e.Kind == EvRecv && e.Blocking && e.Gid == 0 {
				if p.chanLabel(e.Recv) == label && e.Val {
					res = append(res, out)
				}
				break
			}
		}
	}
	return res
}

// touched: the path writes into the packet
func touched(o *Outcome) *Event {
	for _, e := range o.Events {
		if e.Kind == EvStore && rootPkt(e.Recv) {
			return e
		}
	}
	return nil
}

func rootPkt(a *Term) bool {
	for a != nil {
		if isPkt(a) {
			return true
		}
		switch a.K {
		case KFieldA, KElemA, KLoad, KSlice, KSnap:
			a = a.A[0]
		default:
			return false
		}
	}
	return false
}

// aside: the packet is given to a concurrent task
func aside(o *Outcome) *Event {
	for _, e := range o.Events {
		if e.Kind != EvGo {
			continue
		}
		for _, a := range append(append([]*Term{}, e.Args...), e.Recv) {
			if a == nil {
				continue
			}
			if anyTerm(a, func(t *Term) bool {
				if isPkt(t) {
					return true
				}
				if t.K == KAlloc && e.Heap != nil {
					if ce, ok := e.Heap.m[t.Key()]; ok && isPkt(ce.val) {
						return true
					}
				}
				return false
			}) {
				return e
			}
		}
	}
	return nil
}

func chanPktType(t types.Type) string {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	if isPacketIface(ch.Elem()) {
		return "Packet"
	}
	if n, ok := deref(ch.Elem()).(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "Packet") {
		return n.Obj().Name()
	}
	return ""
}

func (c *Ctx) upperTypes(l *layer) []string {
	var r []string
	for n := range c.P.pktTypes() {
		if l.own[n] || l.pkg == "multiplexer" && connLayer[n] {
			continue
		}
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// forwarded checks one path: the packet goes to the sink exactly once, as it is, by the loop itself.
func (c *Ctx) forwarded(o *Outcome, rule, construct string, sink func(*Event) bool, want int) {
	n, other := 0, ""
	for _, e := range o.Events {
		if sink(e) {
			n++
			if e.Gid != 0 {
				other = "a concurrent task hands the packet on, it can overtake or be overtaken"
			}
		}
	}
	if n != want {
		other = fmt.Sprintf("the packet is handed on %d times instead of %d", n, want)
	}
	if want > 0 {
		if e := touched(o); e != nil {
			other = "the packet is changed on the way: " + c.P.ShowEvent(e)
		}
		if e := aside(o); e != nil {
			other = "the packet is given to a concurrent task: " + c.P.ShowEvent(e)
		}
	}
	c.Check(other == "", rule, construct, func() string { return other + "\n" + c.P.ShowTrace(o) })
}

func (c *Ctx) sendTo(label string) func(*Event) bool {
	return func(e *Event) bool {
		return e.Kind == EvSend && c.P.chanLabel(e.Recv) == label && isPkt(e.Args[0])
	}
}

// goesOn: the loop takes another packet, or ends because its object was closed meanwhile (a channel it takes close signals from is gone)
func goesOn(o *Outcome) bool {
	if o.Kind == "iterate" {
		return true
	}
	n := 0
	for _, e := range o.Events {
		if e.Kind == EvRecv && e.Blocking && e.Gid == 0 {
			n++
		}
		if e.Kind == EvAssume {
			if x := nilCmp(e.Cond); x != nil && x.T != nil {
				if _, ok := x.T.Underlying().(*types.Chan); ok && e.Val == (e.Cond.Op == "==") {
					return true
				}
			}
		}
	}
	return n > 1
}

// nilCmp: the operand compared with nil
func nilCmp(t *Term) *Term {
	if t != nil && t.K == KBin && (t.Op == "==" || t.Op == "!=") {
		if t.A[0].isNilConst() {
			return t.A[1]
		}
		if t.A[1].isNilConst() {
			return t.A[0]
		}
	}
	return nil
}

func c03Loops(c *Ctx) {
	for _, l := range c.Layers() {
		for _, t := range c.upperTypes(l) {
			for _, o := range c.feed(l.loop, l.in, t, RunOpts{FSM: l.fsm, State: l.state}) {
				c.forwarded(o, "up", l.typ+"/"+t, c.sendTo(l.up), 1)
				c.Check(goesOn(o), "up-continues", l.typ+"/"+t, c.trace(o))
			}
			for _, o := range c.feed(l.loop, l.out, t, RunOpts{FSM: l.fsm, State: l.state}) {
				c.forwarded(o, "down", l.typ+"/"+t, c.sendTo(l.downQ), 1)
				c.Check(goesOn(o), "down-continues", l.typ+"/"+t, c.trace(o))
			}
		}
		// what belongs to the layer itself is not passed up, and reaches its handling
		for t := range l.own {
			for _, o := range c.feed(l.loop, l.in, t, RunOpts{FSM: l.fsm, State: l.state}) {
				if l.typ == "ServerConn" && (t == "ConnAckPacket" || t == "HeartbeatAckPacket") || l.typ == "ClientConn" && (t == "ConnPacket" || t == "HeartbeatPacket") {
					continue // no peer of this side sends it
				}
				c.forwarded(o, "own-not-up", l.typ+"/"+t, c.sendTo(l.up), 0)
			}
		}
	}
	c.Min("up", 30)
	c.Min("down", 30)
	c.Min("layer-found", 3)
}

// c03Writers: the tasks below the queues hand on every packet exactly once.
func c03Writers(c *Ctx) {
	for _, l := range c.Layers() {
		down := func(e *Event) bool {
			return isEncode(e) && isPkt(e.Args[0])
		}
		if l.pkg == "multiplexer" {
			down = func(e *Event) bool {
				return e.Kind == EvCall && callName(e) == "Write" && callRecv(e) == "Conn" && len(e.Args) == 1 && isPkt(e.Args[0])
			}
		}
		types := c.upperTypes(l)
		for t := range l.own {
			types = append(types, t)
		}
		for _, t := range types {
			for _, o := range c.feed(l.writer, l.downQ, t, RunOpts{}) {
				c.forwarded(o, "write-down", l.typ+"/"+t, down, 1)
				c.Check(goesOn(o), "writer-continues", l.typ+"/"+t, c.trace(o))
			}
		}
	}
	// the decoding task queues every packet it decodes
	for _, r := range c.taskWith(isDecode) {
		for _, o := range c.root(r) {
			i := index(o, isDecode)
			if i < 0 {
				continue
			}
			res := o.Events[i].Res
			if res == nil || res.K != KTuple {
				continue
			}
			n := 0
			for _, e := range o.Events {
				if e.Kind == EvSend && sameVal(e.Args[0], res.A[0]) {
					n++
					if e.Gid != 0 || e.InSelect && !e.Blocking {
						n += 10
					}
				}
			}
			if errIsNonNil(o, res.A[1]) {
				c.Check(n == 0, "decode-error", r.Name, c.trace(o))
			} else {
				c.Check(n == 1 && errIsNil(o, res.A[1]), "decode-forward", r.Name, func() string {
					return "a decoded packet is not queued exactly once\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	c.Min("write-down", 30)
	c.Min("decode-forward", 1)
}

// c03Manager: the manager delivers to the dialogue that the packet names.
func c03Manager(c *Ctx) {
	cons, _ := c.consumers()
	for lab, m := range cons {
		if !strings.Contains(lab, "get:ChannelRead") {
			continue
		}
		for _, r := range m {
			for _, l := range c.Layers() {
				if l.pkg != "multiplexer" {
					continue
				}
				ended := map[string]bool{}
				for _, o := range c.root(l.loop) {
					for _, e := range o.Events {
						if e.Kind == EvClose {
							ended[c.P.chanLabel(e.Recv)] = true
						}
					}
				}
				var ts []string
				for n := range c.P.pktTypes() {
					if !connLayer[n] {
						ts = append(ts, n)
					}
				}
				sort.Strings(ts)
				for _, t := range ts {
					for _, o := range c.feed(r, lab, t, RunOpts{}) {
						found, foundKnown := false, false
						abandoned := 0
						for _, e := range o.Events {
							if e.Kind == EvAssume && e.Cond.K == KPure && e.Cond.Op == "mapok" {
								foundKnown = true
								found = found || e.Val
							}
							lab := c.P.chanLabel(e.Recv)
							if e.Kind == EvRecv && e.InSelect && (ended[lab] || lab == "fresh") {
								for _, a := range e.Alts {
									if c.dgSink(l)(a) {
										abandoned = 1
										if e.Val {
											abandoned = 2 // never: nothing is sent on a channel that is only closed
										}
									}
								}
							}
						}
						if abandoned == 2 {
							continue
						}
						want := 1 - abandoned
						if t == "SessionPacket" {
							// a new stream is made for it, unless making it failed
							made := false
							for _, e := range o.Events {
								if e.Kind == EvLeave && e.Fn.Name() == "NewDialogue" && len(e.Args) == 2 && errIsNil(o, e.Args[1]) {
									made = true
								}
							}
							if !made {
								want = 0
							}
							c.forwarded(o, "deliver", t, c.dgSink(l), want)
							continue
						}
						if !foundKnown {
							c.Undecided("deliver", t, "no lookup of the stream\n"+c.P.ShowTrace(o))
							continue
						}
						if !found {
							want = 0
						}
						c.forwarded(o, "deliver", t, c.dgSink(l), want)
					}
				}
			}
		}
	}
	c.Min("deliver", 10)
}

func (c *Ctx) dgSink(l *layer) func(*Event) bool {
	return func(e *Event) bool {
		if e.Kind != EvSend || !isPkt(e.Args[0]) {
			return false
		}
		lab := c.P.chanLabel(e.Recv)
		return lab == l.in || lab == "fresh"
	}
}

// appQueues: what the application layer sends to the layers below
func (c *Ctx) appSends(e *Event) *Term {
	if e.Kind == EvSend && e.Recv.T != nil && chanPktType(e.Recv.T) == "Packet" {
		return e.Args[0]
	}
	if e.Kind == EvCall && (callName(e) == "Write" || callName(e) == "WriteWait") && callRecv(e) == "Dialogue" && len(e.Args) == 1 {
		return e.Args[0]
	}
	return nil
}

func (c *Ctx) dgWrite(e *Event) bool {
	return e.Kind == EvCall && (callName(e) == "Write" || callName(e) == "WriteWait") && callRecv(e) == "Dialogue" && len(e.Args) == 1 && isPkt(e.Args[0])
}

// c03Stream: every packet the application layer makes is written once, and every kind it makes is handled on arrival.
func c03Stream(c *Ctx) {
	sent := map[string]bool{}
	queued := map[string]map[string]bool{} // queue -> kinds
	for _, r := range c.Roots() {
		if c.P.rel(r.Fn) != "application" {
			continue
		}
		for _, o := range c.root(r) {
			per := map[string]int{}
			for _, e := range o.Events {
				t := c.appSends(e)
				if t == nil {
					continue
				}
				if s := strip(t); s.T != nil && s.K != KRecv && s.K != KParam {
					if n, ok := deref(s.T).(*types.Named); ok && c.P.pktTypes()[n.Obj().Name()] != nil {
						sent[n.Obj().Name()] = true
						if e.Kind == EvSend {
							l := c.P.evLabel(e)
							if queued[l] == nil {
								queued[l] = map[string]bool{}
							}
							queued[l][n.Obj().Name()] = true
						}
						per[s.Key()]++
						c.Check(per[s.Key()] == 1, "sent-once", r.Name+"/"+n.Obj().Name(), c.trace(o))
					}
				}
			}
		}
	}
	cons, _ := c.consumers()
	for q, ts := range queued {
		m := cons[q]
		c.Check(len(m) == 1, "one-consumer", q, func() string { return fmt.Sprint(len(m), " tasks consume the queue") })
		for _, r := range m {
			for t := range ts {
				for _, o := range c.feed(r, q, t, RunOpts{}) {
					c.forwarded(o, "stream-down", t, c.dgWrite, 1)
				}
			}
		}
	}
	for lab, m := range cons {
		if !strings.Contains(lab, "get:ReadC") {
			continue
		}
		for _, r := range m {
			for t := range sent {
				for _, o := range c.feed(r, lab, t, RunOpts{}) {
					// some effect that has to do with the packet
					n := 0
					var drop *Event
					for _, e := range o.Events {
						switch e.Kind {
						case EvSend, EvCall, EvGo, EvMapSet, EvMapDel, EvMapGet:
							for _, a := range append(append([]*Term{}, e.Args...), e.Recv) {
								if a != nil && (anyTerm(a, isPkt) || capturesPkt(e, a)) {
									n++
								}
							}
						case EvDefault:
							for _, a := range e.Alts {
								if a.Kind == EvSend && isPkt(a.Args[0]) {
									drop = e
								}
							}
						}
					}
					c.Check(n > 0 || drop != nil, "handled", t, c.trace(o))
					c.Check(drop == nil, "not-dropped", t, func() string {
						return "the packet is dropped when the queue is full\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	c.Min("handled", 8)
	c.Min("stream-down", 6)
	c.Min("sent-once", 8)
}

// capturesPkt: the term refers to an object that holds the packet or something of it
func capturesPkt(e *Event, a *Term) bool {
	if e.Heap == nil {
		return false
	}
	seen := map[string]bool{}
	var reach func(t *Term) bool
	reach = func(t *Term) bool {
		return anyTerm(t, func(t *Term) bool {
			if isPkt(t) {
				return true
			}
			if t.K != KAlloc || seen[t.Key()] {
				return false
			}
			seen[t.Key()] = true
			for _, ce := range e.Heap.m {
				if rootAddr(ce.addr).Key() == t.Key() && reach(ce.val) {
					return true
				}
			}
			return false
		})
	}
	return reach(a)
}

// c03Single: each queue has one consumer task, started once per object.
func c03Single(c *Ctx) {
	cons, _ := c.consumers()
	isCons := map[*ssa.Function]bool{}
	for lab, m := range cons {
		pk := false
		per := map[string]int{}
		for fn, r := range m {
			for _, o := range c.root(r) {
				for _, e := range o.Events {
					if e.Kind == EvRecv && c.P.chanLabel(e.Recv) == lab && e.Recv.T != nil && chanPktType(e.Recv.T) != "" {
						pk = true
					}
				}
			}
			per[taskRecvType(r)]++
			_ = fn
		}
		if !pk {
			continue
		}
		for fn, r := range m {
			isCons[fn] = true
			if len(m) > 1 {
				// one per constructed type
				c.Check(per[taskRecvType(r)] == 1, "one-loop", lab+"/"+taskRecvType(r), func() string { return "several tasks consume the queue" })
			} else {
				c.Check(true, "one-loop", lab, nil)
			}
		}
	}
	for _, r := range c.taskWith(isDecode) {
		isCons[r.Fn] = true
	}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			n := map[*ssa.Function]int{}
			for _, e := range o.Events {
				if e.Kind == EvGo && isCons[e.Fn] {
					n[e.Fn]++
					c.Check(n[e.Fn] == 1 && !c.inLoop(e), "started-once", r.Name+"/"+fnName(e.Fn), func() string {
						return "the loop is started more than once\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	c.Min("one-loop", 7)
	c.Min("started-once", 7)
}

// inLoop: the event's instruction sits in a loop of its function
func (c *Ctx) inLoop(e *Event) bool {
	for h, body := range c.P.loops(e.In) {
		_ = h
		for b := range body {
			for _, in := range b.Instrs {
				if in.Pos() == e.Pos && e.Pos.IsValid() {
					if _, ok := in.(*ssa.Go); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("C03", "Every packet loop is found from the queues it empties and explored with one packet of every concrete type; each path must hand that very packet to the next queue, writer or dialogue exactly once, by the loop itself and unchanged, in the established state of the layer's state machine (whose table is read from the constructor).",
		Rule{"loops", "connection and dialogue loops forward every upper-layer type exactly once in both directions in the established state, and never pass their own types up", c03Loops},
		Rule{"writers", "the decoding task queues every decoded packet once, the writing tasks encode or pass down every packet once", c03Writers},
		Rule{"manager", "the multiplexer delivers a packet to the stream found for it exactly once unless that stream has ended, and to none if none is found", c03Manager},
		Rule{"stream", "every packet the application layer queues is written once, is sent at most once per operation, and every kind it sends is handled on arrival without being dropped", c03Stream},
		Rule{"single", "every queue is emptied by one task that is started once", c03Single},
	)
}
