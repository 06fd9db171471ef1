package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

var dataPart = map[string]string{"ConnAckPacket": "ConnData", "SessionAckPacket": "SessionData"}

// told: a notification of the delegate
func told(e *Event, suffix string) bool {
	return isDelegate(e) && strings.HasSuffix(callName(e), suffix)
}

func isOnline(e *Event) bool  { return told(e, "Online") && !told(e, "ReOnline") }
func isOffline(e *Event) bool { return told(e, "Offline") }

// dlgtOn: whether the path found the delegate of a layer to be set, when it looked last
func dlgtOn(ev []*Event) (set, known bool) {
	for i := len(ev) - 1; i >= 0; i-- {
		if ev[i].Kind != EvAssume {
			continue
		}
		isnil, ok := isNilOn(ev[i:i+1], func(x *Term) bool {
			if x.T == nil {
				return false
			}
			n, is := x.T.(*types.Named)
			return is && types.IsInterface(n) && strings.HasSuffix(n.Obj().Name(), "Delegate")
		})
		if ok {
			return !isnil, true
		}
	}
	return false, false
}

// boolStores: the values a path stores to a flag
func boolStores(ev []*Event, f *types.Var) []*Term {
	var r []*Term
	for _, e := range ev {
		if e.Kind != EvStore || len(e.Args) == 0 {
			continue
		}
		if v, _ := fieldOf(e.Recv); v == f {
			r = append(r, e.Args[0])
		}
	}
	return r
}

func sets(ev []*Event, f *types.Var) bool {
	for _, t := range boolStores(ev, f) {
		if b, ok := t.constBool(); ok && b {
			return true
		}
	}
	return false
}

// onlineFlag: the flag of a layer that decides whether its end is reported
func (c *Ctx) onlineFlag(l *layer) *types.Var {
	cand := map[*types.Var]int{}
	n := 0
	for _, o := range c.root(l.loop) {
		off := index(o, isOffline)
		if off < 0 {
			continue
		}
		n++
		seen := map[*types.Var]bool{}
		for _, e := range o.Events[:off] {
			if f, _, v := flagCond(e); f != nil && v {
				seen[f] = true
			}
			if e.Kind == EvStore && len(e.Args) > 0 {
				if f, _ := fieldOf(e.Recv); f != nil {
					if b, ok := e.Args[0].constBool(); ok && b {
						seen[f] = true
					}
				}
			}
		}
		for f := range seen {
			cand[f]++
		}
	}
	var best []*types.Var
	for f, k := range cand {
		if k == n && len(c.storesOf(f)) > 0 {
			best = append(best, f)
		}
	}
	sort.Slice(best, func(i, j int) bool { return best[i].Pos() < best[j].Pos() })
	if len(best) == 0 {
		return nil
	}
	return best[0]
}

// storesOf lists the roots that write a flag of a shared object
func (c *Ctx) storesOf(f *types.Var) []*Root {
	if c.storesMemo == nil {
		c.storesMemo = map[*types.Var][]*Root{}
		for _, r := range c.Roots() {
			seen := map[*types.Var]bool{}
			for _, o := range c.root(r) {
				for _, e := range o.Events {
					if e.Kind == EvStore {
						if v, b := fieldOf(e.Recv); v != nil && !seen[v] && rootObj(b).K != KAlloc {
							seen[v] = true
							c.storesMemo[v] = append(c.storesMemo[v], r)
						}
					}
				}
			}
		}
	}
	return c.storesMemo[f]
}

// c15End: the end of a layer's loop is the only place an end is reported, once, and only of what was online.
func c15End(c *Ctx) {
	flags := map[string]*types.Var{}
	loops := map[*Root]bool{}
	for _, l := range c.Layers() {
		loops[l.loop] = true
	}
	for _, l := range c.Layers() {
		f := c.onlineFlag(l)
		if !c.Check(f != nil, "flag-found", l.typ, func() string {
			return "nothing decides whether the end is reported, or the end is never reported"
		}) {
			continue
		}
		flags[l.typ] = f
		for _, o := range c.root(l.loop) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			var offs []int
			for i, e := range o.Events {
				if isOffline(e) {
					offs = append(offs, i)
				}
			}
			if o.Kind != "return" {
				if o.Inner || o.Kind == "panic" {
					continue
				}
				// what is left in the queues is emptied once they are closed
				for _, e := range o.Events {
					if e.Kind == EvClose && len(offs) > 0 && c.P.chanLabel(e.Recv) == l.out {
						offs = nil
					}
				}
				c.Check(len(offs) == 0, "not-while-running", l.typ, show("the end is reported, and the task goes on"))
				continue
			}
			// what the loop knows about the flag at its end
			on, known := false, false
			for _, e := range o.Events {
				if v, _, b := flagCond(e); v == f {
					on, known = b, true
				}
				if e.Kind == EvStore && len(e.Args) > 0 {
					if v, _ := fieldOf(e.Recv); v == f {
						on, known = e.Args[0].constBool()
					}
				}
			}
			set, sk := dlgtOn(o.Events)
			if sk && !set {
				c.Check(len(offs) == 0, "needs-delegate", l.typ, show("a delegate that is not set is called"))
				continue
			}
			want := 0
			if known && on {
				want = 1
			}
			c.Check(known && len(offs) == want, "offline-iff-online", l.typ, show(fmt.Sprintf("at its end online=%v (known: %v), and the end is reported %d times", on, known, len(offs))))
			for _, i := range offs {
				e := o.Events[i]
				later := false
				for _, x := range o.Events[i+1:] {
					if x.Kind == EvRecv && x.Blocking && x.Gid == 0 && (c.P.chanLabel(x.Recv) == l.in || c.P.chanLabel(x.Recv) == l.out) && x.Val {
						later = true
					}
				}
				c.Check(!later, "after-the-end", l.typ, show("packets are handled after the end was reported"))
				a := e.Args[len(e.Args)-1]
				c.Check(strip(a) != nil && strip(a).K == KParam, "reports-itself", l.typ, show("the end of "+c.P.Show(a)+" is reported"))
			}
		}
		for _, r := range c.storesOf(f) {
			c.Check(r == l.loop || loops[r], "flag-owner", l.typ+"/"+r.Name, func() string {
				return "the flag that decides whether the end is reported is written outside the loop that reports it"
			})
		}
	}
	// nobody else reports ends; the layers in between pass them on
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if isOffline(e) && !loops[r] {
					c.Check(callName(e) == r.Fn.Name(), "only-at-the-end", r.Name, func() string {
						return "an end is reported here\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	// the loop runs once per object
	for _, l := range c.Layers() {
		for _, r := range c.Roots() {
			for _, o := range c.root(r) {
				n := 0
				for _, e := range o.Events {
					if e.Kind == EvGo && e.Fn == l.loop.Fn {
						n++
					}
				}
				if n > 0 {
					ctor := r.Fn.Signature.Recv() == nil && r.Kind == "api"
					objs := 0
					for _, e := range o.Events {
						if e.Kind == EvGo && e.Fn == l.loop.Fn && len(e.Args) > 0 && rootObj(e.Args[0]).K == KAlloc {
							objs++
						}
					}
					c.Check(n == 1 && (ctor || objs == n), "one-loop", l.typ+"/"+r.Name, func() string {
						return "the loop is started again\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	c.Min("offline-iff-online", 3)
	c.Min("one-loop", 3)
}

// ackField: the part of an answer that says why it refuses
func (c *Ctx) ackError(h *Heap, pkt *Term) *Term {
	return c.partField(h, pkt, dataPart[c.pktKind(pkt)], "Error")
}

// c15Flag: the flag is set exactly when the layer got established, or was reported online.
func c15Flag(c *Ctx) {
	for _, l := range c.Layers() {
		f := c.onlineFlag(l)
		if f == nil {
			continue
		}
		var kinds []string
		for k := range l.own {
			if c.P.pktTypes()[k] != nil {
				kinds = append(kinds, k)
			}
		}
		sort.Strings(kinds)
		// the states in which an answer of ours can be on its way
		pend := map[string]bool{}
		for _, k := range kinds {
			for _, o := range c.feed(l.loop, l.in, k, RunOpts{OneStep: true, FSM: l.fsm, State: l.init}) {
				for _, e := range step(o) {
					if p := c.sentPkt(e); p != nil && made(p) && dataPart[c.pktKind(p)] != "" {
						pend[o.State.fsm] = true
					}
				}
			}
		}
		// does the step that reports it online remember it?
		early := false
		type caseT struct{ lab, kind, state string }
		for pass := 0; pass < 2; pass++ {
			for _, lab := range []string{l.in, l.out} {
				for _, k := range append(append([]string{}, kinds...), "MessagePacket") {
					for _, s := range sortedKeys(l.fsm.States) {
						ca := caseT{lab, k, s}
						c.handlings(l.loop, lab, k, RunOpts{OneStep: true, FSM: l.fsm, State: s}, func(o *Outcome, ev []*Event) {
							var on *Event
							for _, e := range ev {
								if isOnline(e) {
									on = e
								}
							}
							isnil, known := false, false
							if on != nil {
								isnil, known = errOn(ev, on.Res)
							}
							set := sets(ev, f)
							if pass == 0 {
								if on != nil && known && isnil && set && o.State.fsm != l.state {
									early = true
								}
								return
							}
							show := func(s string) func() string {
								return func() string { return fmt.Sprintf("%+v: %s\n%s", ca, s, c.P.ShowTrace(o)) }
							}
							refused, rk := c.refused(ev)
							cons := l.typ + "/" + k
							for _, t := range boolStores(ev, f) {
								b, ok := t.constBool()
								c.Check(ok && b, "flag-kept", cons, show("what was online is forgotten"))
							}
							entered := o.State.fsm == l.state && s != l.state
							if set {
								why := ""
								switch {
								case on != nil && known && !isnil:
									why = "the delegate refused it"
								case rk && refused:
									why = "the peer refused it"
								case on != nil && !known:
									why = "the delegate may have refused it"
								case on == nil && !entered && c.agrees(ev) && unset(ev):
									// nobody to tell
								case on == nil && !entered:
									why = "it did not get established"
								}
								c.Check(why == "", "set-only-if-online", cons, show("it counts as online although "+why))
							}
							if on != nil && known && isnil && (lab == l.in || pend[s]) {
								c.Check(set, "online-remembered", cons, show("it was reported online, and its end will not be reported"))
							}
							if entered && !early && !(rk && refused) && !errRet(k, ev) {
								c.Check(set, "established-is-online", cons, show("it got established, and its end will not be reported"))
							}
						})
					}
				}
			}
		}
	}
	c.Min("set-only-if-online", 3)
}

func unset(ev []*Event) bool {
	set, known := dlgtOn(ev)
	return known && !set
}

// agrees: the path answers success
func (c *Ctx) agrees(ev []*Event) bool {
	for _, e := range ev {
		if p := c.sentPkt(e); p != nil && made(p) && dataPart[c.pktKind(p)] != "" && emptyStr(c.ackError(e.Heap, p)) {
			return true
		}
	}
	return false
}

func errRet(kind string, ev []*Event) bool {
	for _, e := range ev {
		if e.Kind == EvAssume && e.Val {
			if t := e.Cond; t.K == KBin && t.Op == "==" {
				for i := 0; i < 2; i++ {
					if v, _ := fieldOf(t.A[i]); v != nil && v.Name() == "RetCode" {
						return true
					}
				}
			}
		}
	}
	return false
}

// c15Ack: a success is only answered after the delegate agreed, a refusal is answered with its reason.
func c15Ack(c *Ctx) {
	for _, l := range c.Layers() {
		// the packets that open, and the answers in the order they pass
		for _, st := range []struct{ lab, kind, ack string }{
			{l.in, "ConnPacket", "ConnAckPacket"}, {l.in, "SessionPacket", "SessionAckPacket"}, {l.out, "SessionAckPacket", "SessionAckPacket"}, {l.out, "ConnAckPacket", "ConnAckPacket"},
		} {
			if !l.own[st.kind] {
				continue
			}
			for _, s := range sortedKeys(l.fsm.States) {
				c.handlings(l.loop, st.lab, st.kind, RunOpts{OneStep: true, FSM: l.fsm, State: s}, func(o *Outcome, ev []*Event) {
					var ons []*Event
					for _, e := range ev {
						if isOnline(e) {
							ons = append(ons, e)
						}
					}
					for i, e := range ev {
						p := c.sentPkt(e)
						if p == nil || c.pktKind(p) != st.ack {
							continue
						}
						cons := l.typ + "/" + st.kind
						show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
						errT := c.ackError(e.Heap, p)
						if isRefusal(errT) {
							// what the path wrote to it last
							for _, x := range ev[:i] {
								if x.Kind == EvStore && len(x.Args) > 0 && same(x.Recv, errT.A[0]) {
									errT = x.Args[0]
								}
							}
						}
						okAck := emptyStr(errT) || !made(p) && isRefusal(errT)
						var before []*Event
						for _, x := range ons {
							if indexOf(ev, x) < i {
								before = append(before, x)
							}
						}
						if len(before) == 0 {
							continue
						}
						x := before[0]
						isnil, known := errOn(ev, x.Res)
						c.Check(len(ons) == 1, "online-once", cons, show(fmt.Sprintf("reported online %d times", len(ons))))
						c.Check(known && isnil == okAck, "refusal-answered", cons, show("the answer does not say what the delegate decided: "+c.P.Show(errT)))
						if known && !isnil {
							c.Check(textOf(errT, func(y *Term) bool { return same(y, x.Res) }), "refusal-reason", cons, show("the answer carries the error "+c.P.Show(errT)))
						}
						a := x.Args[len(x.Args)-1]
						c.Check(strip(a).K == KParam, "online-itself", cons, show(c.P.Show(a)+" is reported online"))
					}
					// an answer of success without asking the delegate
					for i, e := range ev {
						dset, dk := dlgtOn(ev[:i])
						p := c.sentPkt(e)
						if p == nil || c.pktKind(p) != st.ack || st.lab == l.in && l.pkg == "multiplexer" || st.lab == l.out && l.pkg == "conn" {
							continue
						}
						if emptyStr(c.ackError(e.Heap, p)) || !made(p) {
							c.Check(len(ons) > 0 || dk && !dset, "online-before-answer", l.typ+"/"+st.kind, func() string {
								return "success is answered, and the delegate was not told\n" + c.P.ShowTrace(o)
							})
						}
					}
				})
			}
		}
	}
	// nothing else reports something online, apart from those that pass it on
	for _, r := range c.Roots() {
		isLoop := false
		for _, l := range c.Layers() {
			isLoop = isLoop || r == l.loop
		}
		for _, o := range c.root(r) {
			n := 0
			for _, e := range o.Events {
				if isOnline(e) {
					n++
				}
			}
			if n > 0 && !isLoop && c.P.rel(r.Fn) != "client" {
				ctor := r.Fn.Signature.Recv() == nil
				c.Check(n == 1 && (r.Fn.Name() == callName(o.Events[index(o, isOnline)]) || ctor), "online-site", r.Name, func() string {
					return fmt.Sprintf("%d reports\n%s", n, c.P.ShowTrace(o))
				})
			}
		}
	}
	c.Min("refusal-answered", 2)
	c.Min("refusal-reason", 2)
	c.Min("online-before-answer", 2)
}

// isTo: the event hands a value to a function or queue the user gave
func isTo(e *Event, v *Term) bool {
	if e.Kind != EvDyn && e.Kind != EvSend {
		return false
	}
	for _, a := range e.Args {
		if same(a, v) {
			return true
		}
	}
	return false
}

// c15Pass: what lies between a layer and the user's delegate passes each report on once, and makes an accepted stream available once.
func c15Pass(c *Ctx) {
	for _, r := range c.Roots() {
		n := r.Fn.Name()
		if r.Kind != "api" || r.Fn.Signature.Recv() == nil || !(strings.HasSuffix(n, "Online") && !strings.HasSuffix(n, "ReOnline") || strings.HasSuffix(n, "Offline")) || r.Fn.Signature.Params().Len() != 1 {
			continue
		}
		arg := &Term{K: KParam, Op: r.Fn.Params[1].Name(), T: r.Fn.Params[1].Type()}
		keeps := false // keeps streams itself: a table of them
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Kind == EvMapSet || e.Kind == EvMapDel {
					keeps = true
				}
			}
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			calls, wrong := 0, ""
			var call *Event
			to := 0
			for _, e := range o.Events {
				if e.Gid != 0 {
					continue
				}
				if isDelegate(e) && (strings.HasSuffix(callName(e), "Online") || strings.HasSuffix(callName(e), "Offline")) {
					calls++
					call = e
					if callName(e) != n {
						wrong = "reports " + callName(e)
					}
					if !isParamVal(e.Args[len(e.Args)-1], arg) {
						wrong = "reports " + c.P.Show(e.Args[len(e.Args)-1])
					}
				}
				for _, a := range e.Args {
					if (e.Kind == EvDyn || e.Kind == EvSend) && isParamVal(a, arg) {
						to++
					}
				}
			}
			c.Check(wrong == "" && calls <= 1, "passed-on-as-is", r.Name, show(fmt.Sprintf("%d reports %s", calls, wrong)))
			// gave up: the table says it is not known or this end no longer works
			gone := c.streamGone(o.Events)
			unknown := false
			for _, e := range o.Events {
				if e.Kind == EvAssume {
					t, v := norm(e.Cond, e.Val)
					if t != nil && anyTerm(t, func(x *Term) bool { return x.K == KMapVal }) && !v && t.K != KBin {
						unknown = true
					}
				}
			}
			dset, dk := dlgtOn(o.Events)
			off := strings.HasSuffix(n, "Offline")
			switch {
			case gone && !off:
				c.Check(calls == 0 && to == 0, "not-after-close", r.Name, show("a stream of a closed end is reported"))
			case off && unknown && keeps:
				c.Check(calls == 0, "only-known", r.Name, show("the end of a stream that was never online is reported"))
			case dk && dset:
				c.Check(calls == 1, "passed-on", r.Name, show("the report does not reach the delegate"))
			case dk && !dset:
				c.Check(calls == 0, "passed-on", r.Name, show("the report goes to a delegate that is not set"))
			default:
				c.Check(calls == 1, "passed-on", r.Name, show("the report does not reach the delegate"))
			}
			// a refusal of the delegate is not swallowed where nothing else happens
			if call != nil && !keeps && len(o.Rets) == 1 && isErrorRes(o.Rets[0]) {
				isnil, known := errOn(o.Events, call.Res)
				c.Check(same(o.Rets[0], call.Res) || known && isnil && o.Rets[0].isNilConst(), "decision-passed-on", r.Name, show("the delegate decides "+c.P.Show(call.Res)+" and the caller gets "+c.P.Show(o.Rets[0])))
			}
			if keeps && !off && len(o.Rets) == 1 {
				okRet := o.Rets[0].isNilConst()
				if okRet {
					avail := c.availability(o)
					c.Check(to == avail, "acceptable-once", r.Name, show(fmt.Sprintf("the stream is handed to %d acceptors of %d", to, avail)))
				} else {
					c.Check(to == 0, "acceptable-once", r.Name, show("a refused stream is handed to an acceptor"))
				}
				if !gone {
					// known before anybody hears of it
					setI, useI := -1, len(o.Events)
					for i, e := range o.Events {
						if e.Kind == EvMapSet && len(e.Args) > 1 && isParamVal(e.Args[1], arg) && setI < 0 {
							setI = i
						}
						if i < useI && (isOnline(e) || e.Kind == EvDyn || e.Kind == EvSend) {
							useI = i
						}
					}
					c.Check(setI >= 0 && setI < useI, "known-before", r.Name, show("the stream cannot be found when it is reported"))
				}
			}
			if keeps && off && !gone {
				del := false
				for _, e := range o.Events {
					if e.Kind == EvMapDel {
						del = true
					}
					// it is not there
					if e.Kind == EvAssume && missing(norm(e.Cond, e.Val)) != nil {
						del = true
					}
				}
				c.Check(del, "forgotten", r.Name, show("the stream stays in the table after its end"))
			}
		}
	}
	c.Min("passed-on", 4)
	c.Min("acceptable-once", 1)
	c.Min("known-before", 1)
	c.Min("forgotten", 1)
}

// c15Kept: the report of an end looks the stream up in a table; an entry leaves
// that table by this report only, or else the stream is never reported
func c15Kept(c *Ctx) {
	tables := map[string]bool{}
	report := map[string]bool{}
	for _, r := range c.Roots() {
		if r.Kind != "api" || r.Fn.Signature.Recv() == nil || !strings.HasSuffix(r.Fn.Name(), "Offline") || r.Fn.Signature.Params().Len() != 1 {
			continue
		}
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				if e.Kind == EvMapDel {
					tables[c.mapLabel(o, i)] = true
					report[r.Name] = true
				}
			}
		}
	}
	if len(tables) == 0 {
		c.Undecided("kept", "no table of reported streams", "")
	}
	for _, r := range c.Roots() {
		if report[r.Name] {
			continue
		}
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				switch e.Kind {
				case EvMapDel:
					if !tables[c.mapLabel(o, i)] {
						continue
					}
					ok := false
					told := false
					for _, f := range o.Events[:i] {
						told = told || isOffline(f)
						if f.Kind != EvAssume {
							continue
						}
						// the one entry that is never reported is told apart
						t, v := norm(f.Cond, f.Val)
						if t != nil && t.K == KBin && (t.Op == "==" || t.Op == "!=") && v == (t.Op == "==") {
							for k := 0; k < 2; k++ {
								of := anyTerm(t.A[k], func(x *Term) bool { return x.K == KMapVal || x.K == KRange })
								fv, _ := fieldOf(t.A[1-k])
								other := anyTerm(t.A[1-k], func(x *Term) bool { return x.K == KMapVal || x.K == KRange })
								isConst := t.A[1-k].K == KConst && !t.A[1-k].isNilConst()
								if of && !other && (isConst || fv != nil) {
									ok = true
								}
							}
						}
					}
					c.Check(ok || told, "kept-until-reported", r.Name, func() string {
						return "a stream leaves the table in which its end looks it up before it is reported: " + c.P.ShowEvent(e) + "\n" + c.P.ShowTrace(o)
					})
				case EvStore:
					v, b := fieldOf(e.Recv)
					if v == nil || !tables[c.P.chanLabel(e.Recv)] {
						continue
					}
					if r := rootObj(b); r != nil && strip(r).K == KAlloc {
						continue
					}
					c.Check(false, "kept-until-reported", r.Name, func() string {
						return "the table of streams is replaced: " + c.P.ShowEvent(e) + "\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	for l := range tables {
		c.Check(true, "kept-until-reported", l, nil)
	}
	c.Min("kept-until-reported", 1)
}

func isEmptyStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func isParamVal(t, arg *Term) bool {
	for t != nil {
		if t.K == KParam {
			return t.Op == arg.Op
		}
		if t.K == KTupleEl || t.K == KIface || t.K == KConv {
			t = t.A[0]
			continue
		}
		return false
	}
	return false
}

// availability: how many ways to accept a stream the path found to be there
func (c *Ctx) availability(o *Outcome) int {
	for _, e := range o.Events {
		if e.Kind != EvAssume {
			continue
		}
		x := nilCmp(e.Cond)
		if x == nil || x.T == nil {
			continue
		}
		set := e.Val == (e.Cond.Op == "!=")
		switch u := x.T.Underlying().(type) {
		case *types.Signature:
			if set {
				return 1
			}
		case *types.Chan:
			if set && !isEmptyStruct(u.Elem()) {
				return 1
			}
		}
	}
	return 0
}

// c15Accept: a dialogue that was accepted becomes one stream, kept in the table of its end and offered once.
func c15Accept(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" || r.Fn.Pkg == nil || c.P.rel(r.Fn) != "application" {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" {
				continue
			}
			// where the dialogue comes from
			var dg *Term
			for _, e := range o.Events {
				if e.Kind == EvCall && e.Meth != nil && (callName(e) == "AcceptDialogue" || callName(e) == "OpenDialogue") {
					if errIsNil(o, tupleEl(e.Res, 1)) {
						dg = tupleEl(e.Res, 0)
					}
				}
			}
			if r.Fn.Name() == "AcceptDialogue" && len(r.Fn.Params) == 2 {
				dg = &Term{K: KParam, Op: r.Fn.Params[1].Name()}
			}
			if dg == nil {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			// the streams made of it: objects whose tasks are started
			objs := map[string]*Term{}
			for _, e := range o.Events {
				if e.Kind == EvGo && len(e.Args) > 0 {
					if a := strip(e.Args[0]); a.K == KAlloc {
						objs[a.Key()] = a
					}
				}
			}
			c.Check(len(objs) == 1, "one-stream", r.Name, show(fmt.Sprintf("%d streams are made of one dialogue", len(objs))))
			for _, sm := range objs {
				offered := 0
				for _, e := range o.Events {
					if e.Kind == EvDyn {
						for _, a := range e.Args {
							if same(a, sm) {
								offered++
							}
						}
					}
				}
				if r.Fn.Signature.Results().Len() > 0 {
					c.Check(same(o.Rets[0], sm) && offered == 0, "stream-offered", r.Name, show("the stream is not what the caller gets"))
				} else {
					c.Check(offered == c.availability(o), "stream-offered", r.Name, show(fmt.Sprintf("the stream is offered %d times", offered)))
				}
			}
		}
	}
	c.Min("one-stream", 2)
	c.Min("stream-offered", 2)
}

func tupleEl(t *Term, i int) *Term {
	if t == nil {
		return nil
	}
	if t.K == KTuple {
		return t.A[i]
	}
	return &Term{K: KTupleEl, A: []*Term{t}, ID: i}
}

func init() {
	register("C15", "Every layer's loop is fed with every packet of its layer in every state: success is only answered after the delegate was told and did not refuse, a refusal is answered with the delegate's reason, and the flag that decides whether the end is reported is set exactly by steps that were reported online or got established. The paths by which a loop ends report the end once if and only if that flag is set; no other code reports an end, and no other code writes the flag. What lies in between passes each report on once.",
		Rule{"end", "the end is reported once, by the loop that ended, iff it was online", c15End},
		Rule{"flag", "online is remembered exactly when it was reported or established", c15Flag},
		Rule{"answer", "success is answered after the delegate agreed, refusal with its reason", c15Ack},
		Rule{"pass", "reports are passed on once and streams made acceptable once", c15Pass},
		Rule{"kept", "a stream stays in the table its report looks it up in until it is reported", c15Kept},
		Rule{"accept", "an accepted dialogue becomes one stream, offered once", c15Accept},
	)
}
