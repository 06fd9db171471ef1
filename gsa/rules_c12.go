package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C12: a packet reaches the stream it names and no other; what a stream sends
// names that stream.

// muxReads: the task that spreads packets over the streams, and its queue
func (c *Ctx) muxReads() (*Root, string) {
	cons, _ := c.consumers()
	for lab, m := range cons {
		if !strings.Contains(lab, "get:ChannelRead") {
			continue
		}
		for _, r := range m {
			return r, lab
		}
	}
	return nil, ""
}

// baseOf is the object whose field a channel is
func baseOf(ch *Term) *Term {
	_, b := fieldOf(ch)
	if b == nil {
		if _, b2 := fieldOfAddr(ch); b2 != nil {
			return strip(b2)
		}
		return nil
	}
	return strip(b)
}

// mapValOf: the object is what a table holds, with the key it was looked up with
func mapValOf(t *Term) (m, key *Term) {
	s := strip(t)
	for s != nil && s.K == KTupleEl {
		s = strip(s.A[0])
	}
	if s != nil && s.K == KMapVal {
		return s.A[0], s.A[1]
	}
	return nil, nil
}

// foundOn: what the path found out about the entry being in its table
func foundOn(ev []*Event, mv *Term) bool {
	v, ok := boolOn(ev, func(x *Term) bool {
		return x.K == KPure && x.Op == "mapok" && same(x.A[0], mv)
	})
	if ok {
		return v
	}
	nn, ok := isNilOn(ev, func(x *Term) bool { return same(x, mv) })
	return ok && !nn
}

// noWire: the part of an option or a packet a getter returns
func (c *Ctx) getterName(pkg, typ, name string) string {
	fn := c.P.Method(pkg, typ, name)
	if fn == nil {
		return ""
	}
	r := ""
	for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
		if len(o.Rets) > 0 {
			if v, _ := fieldOf(o.Rets[0]); v != nil {
				r = v.Name()
			}
		}
	}
	return r
}

func (c *Ctx) kindsOf() []string {
	var r []string
	for k := range c.P.pktTypes() {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// appKinds: packets that belong to a stream
func (c *Ctx) streamKinds() []string {
	var r []string
	for _, k := range c.kindsOf() {
		if connLayer[k] || c.P.Method("packet", k, "SessionID") == nil {
			continue
		}
		r = append(r, k)
	}
	return r
}

func c12Route(c *Ctx) {
	r, lab := c.muxReads()
	if r == nil {
		c.Undecided("routes", "multiplexer", "no task spreads the packets of a connection")
		return
	}
	neg := map[string]bool{} // tables looked up by negotiating identifiers
	est := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, kind := range c.streamKinds() {
			pkt := c.P.pktTerm(kind)
			field := "sessionID"
			if kind == "SessionAckPacket" {
				field = "negotiateID"
			}
			want := c.pktLoad(pkt, field)
			n := 0
			c.handlings(r, lab, kind, RunOpts{OneStep: true}, func(o *Outcome, ev []*Event) {
				show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
				for i, e := range ev {
					if e.Kind == EvMapGet && len(e.Args) > 0 && same(e.Args[0], want) {
						if kind == "SessionAckPacket" {
							neg[c.mapLabel(o, indexOf(o.Events, e))] = true
						} else {
							est[c.mapLabel(o, indexOf(o.Events, e))] = true
						}
					}
					if pass == 0 {
						continue
					}
					var to *Term
					if e.Kind == EvSend && len(e.Args) > 0 && isPkt(e.Args[0]) {
						to = baseOf(e.Recv)
					} else if (e.Kind == EvCall || e.Kind == EvDyn) && anyArg(e, isPkt) {
						to = strip(e.Recv)
						if to == nil && len(e.Args) > 0 {
							to = strip(e.Args[0])
						}
					} else {
						continue
					}
					n++
					m, key := mapValOf(to)
					if kind == "SessionPacket" {
						ch := strip(e.Recv)
						c.Check(to != nil && to.K == KAlloc || e.Kind == EvSend && ch != nil && ch.K == KMake, "opens-new", kind, show("the opening request is handed to "+c.P.Show(to)+", not to a new stream"))
						continue
					}
					if !c.Check(m != nil && same(key, want), "to-named", kind, show("the packet is handed to "+c.P.Show(to)+", the stream it names is the one found by "+c.P.Show(want))) {
						continue
					}
					c.Check(foundOn(ev[:i], to), "to-known", kind, show("the packet is handed over, and whether its stream exists was not found out"))
				}
				if pass == 0 || kind != "SessionAckPacket" {
					return
				}
				// the opened stream is known under the agreed identifier before it hears of it
				hand, set := -1, -1
				var dg *Term
				for i, e := range ev {
					if hand < 0 && e.Kind == EvSend && len(e.Args) > 0 && isPkt(e.Args[0]) {
						hand, dg = i, baseOf(e.Recv)
					}
				}
				for i, e := range ev {
					if e.Kind == EvMapSet && len(e.Args) > 1 {
						l := c.mapLabel(o, indexOf(o.Events, e))
						if est[l] && !neg[l] {
							set = i
							c.Check(same(e.Args[0], c.pktLoad(pkt, "sessionID")) && (dg == nil || same(strip(e.Args[1]), dg)), "known-as-agreed", kind,
								show("entered as "+c.P.Show(e.Args[0])+": "+c.P.Show(e.Args[1])))
						}
					}
				}
				bad, known := c.refused(ev)
				if hand >= 0 && !(known && bad) {
					c.Check(set >= 0 && set < hand, "known-before", kind, show("the opened stream cannot be found by its identifier when it is told that it was opened"))
				}
			})
			if pass == 1 {
				c.Check(n > 0, "handed-over", kind, func() string { return "packets of this kind reach no stream at all" })
			}
		}
	}
	c.Check(len(est) > 0, "tables", "established", nil)
	// no other way into a stream: its queue is filled by the spreading task only
	for _, l := range c.Layers() {
		if l.pkg != "multiplexer" {
			continue
		}
		for _, x := range c.Roots() {
			if x == r || x.Kind == "task" && x.Fn == r.Fn {
				continue
			}
			for _, o := range c.root(x) {
				for _, e := range o.Events {
					if e.Kind == EvSend && c.P.chanLabel(e.Recv) == l.in {
						c.Check(false, "only-way-in", x.Name, func() string {
							return "a packet is put into a stream's queue from outside: " + c.P.ShowEvent(e) + "\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
		}
	}
}

func anyArg(e *Event, f func(*Term) bool) bool {
	for _, a := range e.Args {
		if f(a) {
			return true
		}
	}
	return false
}

// c12Own: everything queued by a stream names it
func c12Own(c *Ctx) {
	for _, l := range c.Layers() {
		if l.pkg != "multiplexer" {
			continue
		}
		idf := c.getterField(l.pkg, l.typ, "DialogueID")
		if idf == nil {
			c.Undecided("names-itself", l.typ, "its identifier is not a field")
			return
		}
		check := func(name string, o *Outcome, ev []*Event, pkt *Term) {
			for i, e := range ev {
				if e.Kind != EvSend || c.P.chanLabel(e.Recv) != l.out || len(e.Args) == 0 {
					continue
				}
				show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
				base := baseOf(e.Recv)
				isID := func(t *Term) bool {
					if t == nil {
						return false
					}
					if pkt != nil && same(t, c.pktLoad(pkt, "sessionID")) {
						return true // found by it
					}
					if v, b := fieldOf(t); v == idf && (base == nil || same(b, base)) {
						return true
					}
					if x := objField(e.Heap, base, idf); x != nil && same(x, t) {
						return true
					}
					for j := i; j >= 0; j-- {
						if s := ev[j]; s.Kind == EvStore && len(s.Args) > 0 {
							if v, b := fieldOf(s.Recv); v == idf && (base == nil || same(b, base)) {
								return same(s.Args[0], t)
							}
						}
					}
					return false
				}
				p := e.Args[0]
				kind := c.pktKind(p)
				switch {
				case kind == "SessionPacket":
					// names no stream yet: c12Negotiated
				case kind != "" && made(p):
					id := c.heapField(e.Heap, p, "sessionID")
					c.Check(isID(id), "names-itself", name+"/"+kind, show(kind+" names stream "+c.P.Show(id)))
				case strip(p) == nil || strip(p).K != KParam || strings.HasPrefix(strip(p).Op, "the "):
					// made where it was captured, or passed on as it is
				default:
					var last *Event
					for _, s := range ev[:i] {
						if s.Kind == EvCall && callName(s) == "SetSessionID" && (anyTerm(s.Recv, func(x *Term) bool { return same(x, strip(p)) }) || len(s.Args) > 1 && same(strip(s.Args[0]), strip(p))) {
							last = s
						}
					}
					if last == nil {
						id := c.heapField(e.Heap, p, "sessionID")
						c.Check(id != nil && isID(id), "names-itself", name, show("a packet is queued without the identifier of the stream"))
						continue
					}
					c.Check(isID(last.Args[len(last.Args)-1]), "names-itself", name, show("a packet is queued naming stream "+c.P.Show(last.Args[len(last.Args)-1])))
				}
			}
		}
		for _, r := range c.Roots() {
			if r == l.loop {
				continue
			}
			for _, o := range c.root(r) {
				check(r.Name, o, o.Events, nil)
			}
		}
		for _, kind := range sortedKeys(l.own) {
			for _, lab := range []string{l.in, l.out} {
				c.handlings(l.loop, lab, kind, RunOpts{OneStep: true, InlineGo: true}, func(o *Outcome, ev []*Event) { check(l.typ, o, ev, c.P.pktTerm(kind)) })
			}
		}
	}
	c.Min("names-itself", 3)
}

// c12Negotiated: both sides use the identifier agreed in the opening
func c12Negotiated(c *Ctx) {
	for _, l := range c.Layers() {
		if l.pkg != "multiplexer" {
			continue
		}
		idf := c.getterField(l.pkg, l.typ, "DialogueID")
		nf := c.getterField(l.pkg, l.typ, "NegotiatingID")
		acq := c.getterName("packet", "SessionPacket", "SessionIDAcquire")
		if idf == nil || nf == nil || acq == "" {
			c.Undecided("agreed", l.typ, "identifiers not found")
			return
		}
		pkt := c.P.pktTerm("SessionPacket")
		stored := func(ev []*Event) *Term {
			var t *Term
			for _, s := range ev {
				if s.Kind == EvStore && len(s.Args) > 0 {
					if v, _ := fieldOf(s.Recv); v == idf {
						t = s.Args[0]
					}
				}
			}
			return t
		}
		c.handlings(l.loop, l.in, "SessionPacket", RunOpts{OneStep: true, FSM: l.fsm, State: l.init}, func(o *Outcome, ev []*Event) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			for i, e := range ev {
				p := c.sentPkt(e)
				if p == nil || c.pktKind(p) != "SessionAckPacket" || !made(p) {
					continue
				}
				if !emptyStr(c.ackError(e.Heap, p)) {
					continue
				}
				id := c.heapField(e.Heap, p, "sessionID")
				st := stored(ev[:i])
				c.Check(st != nil && same(st, id), "agreed", "accept", show("the answer names "+c.P.Show(id)+" and the stream uses "+c.P.Show(st)))
				n := c.heapField(e.Heap, p, "negotiateID")
				c.Check(n != nil && same(n, c.pktLoad(pkt, "negotiateID")), "answers-negotiation", "accept", show("the answer is for negotiation "+c.P.Show(n)))
				asks, known := boolOn(ev[:i], func(x *Term) bool {
					v, _ := fieldOf(x)
					return v != nil && v.Name() == acq && isPktPart(x)
				})
				if !c.Check(known, "chosen-by", "accept", show("the identifier is chosen without regard to who has to choose it")) {
					continue
				}
				if asks {
					v, _ := fieldOf(st)
					c.Check(v == nf, "chosen-by", "accept/asked", show("asked to choose, "+c.P.Show(st)+" is chosen"))
				} else {
					c.Check(same(st, c.pktLoad(pkt, "negotiateID")), "chosen-by", "accept/given", show("the peer chose, and "+c.P.Show(st)+" is used"))
				}
			}
		})
		ack := c.P.pktTerm("SessionAckPacket")
		for _, s := range sortedKeys(l.fsm.States) {
			c.handlings(l.loop, l.in, "SessionAckPacket", RunOpts{OneStep: true, FSM: l.fsm, State: s}, func(o *Outcome, ev []*Event) {
				for i, e := range ev {
					if !isHub(e, "Done", "Ack") {
						continue
					}
					st := stored(ev[:i])
					c.Check(st != nil && same(st, c.pktLoad(ack, "sessionID")), "agreed", "open", func() string {
						return "the opener is told of success and the stream uses " + c.P.Show(st) + "\n" + c.P.ShowTrace(o)
					})
				}
			})
		}
		// opening: the table entry, the request and the stream carry the same negotiating identifier
		for _, r := range c.Roots() {
			for _, o := range c.root(r) {
				for i, e := range o.Events {
					if e.Kind != EvMapSet || len(e.Args) < 2 {
						continue
					}
					dg := strip(e.Args[1])
					if dg == nil || dg.K != KAlloc || !namedIs(deref(dg.T), l.pkg, l.typ) {
						continue
					}
					n := objField(e.Heap, dg, nf)
					if n == nil || isUnsetID(n) {
						// the default stream: under its own identifier
						id := objField(e.Heap, dg, idf)
						c.Check(id != nil && same(id, e.Args[0]), "filed-as", r.Name+"/default", func() string {
							return "the stream " + c.P.Show(id) + " is filed as " + c.P.Show(e.Args[0]) + "\n" + c.P.ShowTrace(o)
						})
						continue
					}
					c.Check(same(n, e.Args[0]), "filed-as", r.Name, func() string {
						return "the stream negotiates as " + c.P.Show(n) + " and is filed as " + c.P.Show(e.Args[0]) + "\n" + c.P.ShowTrace(o)
					})
					for j, f := range o.Events {
						p := c.sentPkt(f)
						if p == nil || c.pktKind(p) != "SessionPacket" || !made(p) {
							continue
						}
						x := c.heapField(f.Heap, p, "negotiateID")
						show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
						c.Check(x != nil && same(x, n), "asks-for", r.Name, show("the request negotiates "+c.P.Show(x)+", the stream "+c.P.Show(n)))
						c.Check(i < j, "filed-before-asking", r.Name, show("the request is sent before the stream can be found"))
						// and stays until the answer was waited for
						for k := j; k < len(o.Events); k++ {
							if g := o.Events[k]; g.Kind == EvMapDel && same(g.Args[0], e.Args[0]) {
								w := false
								for _, h := range o.Events[j:k] {
									w = w || h.Kind == EvRecv && h.Blocking
								}
								c.Check(w, "filed-while-asking", r.Name, show("the stream is taken off before the answer came"))
								break
							}
						}
					}
				}
			}
		}
	}
	c.Min("agreed", 2)
	c.Min("chosen-by", 2)
	c.Min("filed-as", 2)
	c.Min("asks-for", 1)
}

func isUnsetID(t *Term) bool {
	n, ok := t.constInt()
	return ok && n == 0
}

// isPktPart: read from the packet that was received
func isPktPart(t *Term) bool {
	for t != nil {
		s := strip(t)
		if isPkt(s) {
			return true
		}
		_, b := fieldOf(s)
		if b == nil {
			_, b = fieldOfAddr(s)
		}
		t = b
	}
	return false
}

// c12Refuse: requests and messages made for another client or stream
func c12Refuse(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "application" {
			continue
		}
		var arg *Term
		for _, p := range r.Fn.Params {
			if namedIs(p.Type(), "geminio", "Request") || namedIs(p.Type(), "geminio", "Message") {
				arg = &Term{K: KParam, Op: p.Name(), T: p.Type()}
			}
		}
		res := r.Fn.Signature.Results()
		if arg == nil || res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) {
			continue
		}
		for _, o := range c.root(r) {
			for _, w := range []struct{ what, get string }{{"client", "ClientID"}, {"stream", "StreamID"}} {
				own := func(x *Term) bool {
					if x.K != KPure || anyTerm(x, func(y *Term) bool { return isParamVal(y, arg) }) {
						return false
					}
					return x.Op == "get:"+w.get || w.what == "stream" && x.Op == "get:DialogueID"
				}
				its := func(x *Term) bool {
					return x.K == KPure && x.Op == "get:"+w.get && len(x.A) > 0 && isParamVal(x.A[0], arg)
				}
				for i, e := range o.Events {
					if p := c.sentPkt(e); p == nil {
						continue
					}
					eq, known := equalOn(o.Events[:i], its, own)
					c.Check(known && eq, "checked-"+w.what, r.Name, func() string {
						return "sent without having found that it was made for this " + w.what + "\n" + c.P.ShowTrace(o)
					})
				}
				if eq, known := equalOn(o.Events, its, own); known && !eq && o.Kind == "return" {
					last := o.Rets[len(o.Rets)-1]
					c.Check(!last.isNilConst(), "refused-"+w.what, r.Name, func() string {
						return "made for another " + w.what + ", and no error is returned\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	c.Min("checked-client", 4)
	c.Min("checked-stream", 4)
	c.Min("refused-client", 4)
	c.Min("refused-stream", 4)
}

// c12Found: looking a stream up by its identifier
func c12Found(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" {
			continue
		}
		res := r.Fn.Signature.Results()
		// a lookup: identifiers in, a stream out
		nums := 0
		for _, p := range r.Fn.Params[min(1, len(r.Fn.Params)):] {
			if isNumericT(p.Type()) {
				nums++
			}
		}
		if r.Fn.Signature.Recv() != nil && nums > 0 && nums == len(r.Fn.Params)-1 && res.Len() > 0 {
			for _, o := range c.root(r) {
				if o.Kind != "return" || len(o.Rets) == 0 {
					continue
				}
				m, key := mapValOf(o.Rets[0])
				if m == nil {
					continue
				}
				ok := strip(key).K == KParam && isNumericT(strip(key).T)
				if eq, known := equalOn(o.Events, func(x *Term) bool { return same(x, key) }, func(x *Term) bool { return x.K == KPure && x.Op == "get:ClientID" }); known && eq {
					ok = false // that's the client
				}
				c.Check(ok && foundOn(o.Events, strip(o.Rets[0])), "lookup", r.Name, func() string {
					return "returned is " + c.P.Show(o.Rets[0]) + "\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	// the streams of an end are filed under the identifier of what they run on
	n := 0
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Kind != EvCall || !strings.HasPrefix(e.Op, "(*sync.Map)") || len(e.Args) < 2 || !isCall(e, "Store", "LoadOrStore") {
					continue
				}
				val := strip(e.Args[len(e.Args)-1])
				key := strip(e.Args[len(e.Args)-2])
				if val == nil || val.K != KAlloc {
					continue
				}
				n++
				var on *Term
				if st, ok := deref(val.T).Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if namedIs(st.Field(i).Type(), "multiplexer", "Dialogue") {
							on = objField(e.Heap, val, st.Field(i))
						}
					}
				}
				c.Check(on != nil && key.K == KPure && strings.HasSuffix(key.Op, "DialogueID") && same(key.A[0], on), "filed-under-own", r.Name, func() string {
					return fmt.Sprintf("a stream on %s is filed as %s\n%s", c.P.Show(on), c.P.Show(key), c.P.ShowTrace(o))
				})
			}
		}
	}
	c.Min("lookup", 1)
	c.Min("filed-under-own", 1)
}

func init() {
	register("C12", "A packet that names a stream is handed to the stream that is looked up by that very identifier, and every packet a stream queues names it.",
		Rule{"route", "each packet kind is handed only to the stream found by the identifier it names", c12Route},
		Rule{"own", "every packet queued by a stream carries the identifier of that stream", c12Own},
		Rule{"negotiated", "both sides use the identifier agreed in the opening", c12Negotiated},
		Rule{"refuse", "requests and messages made for another client or stream are refused before anything is sent", c12Refuse},
		Rule{"found", "streams are filed and found under their identifier", c12Found},
	)
}
