package main

import (
	"fmt"
	"go/types"
)

// evField: t is the named field of the event received on a path
func evField(t, ev *Term, name string) bool {
	if t == nil {
		return false
	}
	v, b := fieldOf(t)
	return v != nil && v.Name() == name && same(b, ev)
}

func isErrorRes(t *Term) bool { return t != nil && t.T != nil && isErrorT(t.T) }

// nilness of an error on a whole path
func errOn(ev []*Event, x *Term) (isnil, ok bool) {
	return isNilOn(ev, func(y *Term) bool { return same(y, x) })
}

// c10Outcome: what an operation returns is what its answer says.
func c10Outcome(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" {
			continue
		}
		res := r.Fn.Signature.Results()
		for _, o := range c.root(r) {
			if o.Kind != "return" {
				continue
			}
			for i, e := range o.Events {
				if e.Gid != 0 || waitedOn(o, e) == nil {
					continue
				}
				evT := e.Res
				if evT == nil {
					continue
				}
				var errTerm *Term
				isnil, known := isNilOn(o.Events[i:], func(x *Term) bool {
					if evField(x, evT, "Error") {
						errTerm = x
						return true
					}
					return false
				})
				if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) || len(o.Rets) != res.Len() {
					continue
				}
				ret := o.Rets[len(o.Rets)-1]
				if !known {
					c.Check(evField(ret, evT, "Error"), "outcome-known", r.Name, func() string {
						return "the operation ends without looking at the error its answer carries\n" + c.P.ShowTrace(o)
					})
					continue
				}
				if !isnil {
					ok := same(ret, errTerm) || anyTerm(ret, func(x *Term) bool { return same(x, errTerm) })
					c.Check(ok, "error-returned", r.Name, func() string {
						return "the answer reports an error and the operation returns " + c.P.Show(ret) + "\n" + c.P.ShowTrace(o)
					})
					if res.Len() > 1 {
						c.Check(o.Rets[0].isNilConst(), "no-result-with-error", r.Name, func() string {
							return "the answer reports an error and the operation returns " + c.P.Show(o.Rets[0]) + "\n" + c.P.ShowTrace(o)
						})
					}
					continue
				}
				c.Check(true, "success-after-answer", r.Name, nil)
				if res.Len() == 2 && ret.isNilConst() && namedIs(res.At(0).Type(), "geminio", "Response") {
					c.Check(exact(o.Rets[0], func(x *Term) bool { return evField(x, evT, "Ack") }), "result-of-answer", r.Name, func() string {
						return "the operation returns " + c.P.Show(o.Rets[0]) + " and not what its answer carried\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	// success needs an answer: every operation that waits on some path may only succeed on paths that waited
	for _, r := range c.Roots() {
		if r.Kind != "api" {
			continue
		}
		res := r.Fn.Signature.Results()
		if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) {
			continue
		}
		waits := false
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Gid == 0 && waitedOn(o, e) != nil && isNumeric(hubKey(waitedOn(o, e))) {
					waits = true
				}
			}
		}
		// a constructor may have nothing to ask for
		if !waits || r.Fn.Signature.Recv() == nil {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" || len(o.Rets) == 0 || nilness(o.State, o.Rets[len(o.Rets)-1]) != 1 {
				continue
			}
			got := false
			for _, e := range o.Events {
				if waitedOn(o, e) != nil {
					got = true
				}
			}
			c.Check(got || c.atMostOnce(o), "success-needs-answer", r.Name, func() string {
				return "the operation succeeds without an answer\n" + c.P.ShowTrace(o)
			})
		}
	}
	c.Min("error-returned", 6)
	c.Min("success-after-answer", 5)
	c.Min("result-of-answer", 1)
	c.Min("success-needs-answer", 4)
}

// ackLoops: for every kind of answer, the loop that completes its waiter
func (c *Ctx) ackLoops() map[string][2]interface{} {
	m := map[string][2]interface{}{}
	if r, lab := c.appRead(); r != nil {
		for _, k := range []string{"MessageAckPacket", "ResponsePacket", "RegisterAckPacket"} {
			m[k] = [2]interface{}{r, lab}
		}
	}
	return m
}

func c10Acks(c *Ctx) {
	judge := func(o *Outcome, kind, where string, fsmErr bool) {
		ev := step(o)
		pkt := c.P.pktTerm(kind)
		id := c.pktLoad(pkt, "PacketID")
		refused, known := c.refused(ev)
		n := 0
		for _, e := range ev {
			if !isHub(e, "Ack", "Done", "Error", "Cancel") {
				continue
			}
			if k := hubKey(e); isStrT(k) {
				continue
			}
			n++
			c.Check(same(hubKey(e), id), "completes-own-waiter", where, func() string {
				return "the waiter of " + c.P.Show(hubKey(e)) + " is completed\n" + c.P.ShowTrace(o)
			})
			if e.Fn.Name() == "Error" {
				arg := e.Args[len(e.Args)-1]
				ok := c.carriesRefusal(arg) || known && !refused && fsmErr && anyTerm(arg, func(x *Term) bool { return x.K == KCall || x.K == KPure }) || !known && anyTerm(arg, func(x *Term) bool { return x.K == KCall || x.K == KPure })
				c.Check(ok, "error-as-reported", where, func() string { return "the waiter gets the error " + c.P.Show(arg) + "\n" + c.P.ShowTrace(o) })
			} else {
				c.Check(known && !refused && e.Fn.Name() != "Cancel", "success-only-without-error", where, func() string {
					return "the waiter is completed successfully, although the answer may report an error\n" + c.P.ShowTrace(o)
				})
			}
		}
		c.Check(n == 1, "one-completion", where, func() string {
			return fmt.Sprintf("%d waiters are completed for one answer\n%s", n, c.P.ShowTrace(o))
		})
	}
	r, lab := c.appRead()
	if r != nil {
		for _, k := range []string{"MessageAckPacket", "ResponsePacket", "RegisterAckPacket"} {
			for _, o := range c.feed(r, lab, k, RunOpts{}) {
				judge(o, k, k, false)
			}
		}
		// the answer handed to a call is the one received
		rspT := c.implOf("Response")
		for _, o := range c.feed(r, lab, "ResponsePacket", RunOpts{}) {
			for _, e := range step(o) {
				if !isHub(e, "Ack") {
					continue
				}
				a := strip(e.Args[len(e.Args)-1])
				okObj := rspT != nil && a != nil && a.K == KAlloc && types.Identical(deref(a.T), rspT)
				c.Check(okObj, "response-object", "ResponsePacket", func() string { return "the call is handed " + c.P.Show(a) + "\n" + c.P.ShowTrace(o) })
				if !okObj {
					continue
				}
				for m, f := range map[string]string{"Data": "Value", "Custom": "Custom", "Method": "Key"} {
					got := objField(e.Heap, a, c.getterField("application", rspT.Obj().Name(), m))
					c.Check(got != nil && exact(got, func(x *Term) bool { return isPktData(x, f) }), "response-as-received", m, func() string {
						return "the response has " + m + " = " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	// opening a stream and connecting: the state machine has to be where the answer is expected
	for _, l := range c.Layers() {
		kind := "ConnAckPacket"
		if l.pkg == "multiplexer" {
			kind = "SessionAckPacket"
		}
		for s := range l.fsm.States {
			for _, o := range c.feed(l.loop, l.in, kind, RunOpts{FSM: l.fsm, State: s}) {
				if len(touchesHub(step(o))) > 0 {
					judge(o, kind, l.typ+"/"+kind+"/"+s, true)
				}
			}
		}
	}
	c.Min("completes-own-waiter", 4)
	c.Min("success-only-without-error", 4)
	c.Min("error-as-reported", 3)
	c.Min("response-as-received", 3)
}

func touchesHub(ev []*Event) []*Event {
	var r []*Event
	for _, e := range ev {
		if isHub(e, "Ack", "Done", "Error") && !isStrT(hubKey(e)) {
			r = append(r, e)
		}
	}
	return r
}

func isStrT(t *Term) bool {
	if t == nil || t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isRefusal: the field of an answer that says why it was refused
func isRefusal(x *Term) bool {
	v, _ := fieldOf(x)
	return v != nil && v.Name() == "Error" && rootPkt(strip(x)) && isStrT(&Term{T: v.Type()})
}

// refused: whether the path found an error in the answer
func (c *Ctx) refused(ev []*Event) (bad, known bool) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil || t.K != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			x, k := t.A[i], t.A[1-i]
			if s, ok := strip(k).constStr(); ok && s == "" && isRefusal(x) && (t.Op == "==" || t.Op == "!=") {
				return v != (t.Op == "=="), true
			}
			if n, ok := strip(k).constInt(); ok && x.K == KLen && isRefusal(strip(x.A[0])) {
				switch {
				case n == 0 && (t.Op == "==" || t.Op == "!="):
					return v != (t.Op == "=="), true
				case n == 0 && i == 0 && (t.Op == ">" || t.Op == "<="):
					return v == (t.Op == ">"), true
				case n == 0 && i == 1 && (t.Op == "<" || t.Op == ">="):
					return v == (t.Op == "<"), true
				}
			}
		}
	}
	return false, false
}

func (c *Ctx) carriesRefusal(t *Term) bool { return t != nil && anyTerm(t, isRefusal) }

// c10Mark: marking a message done or failed sends one acknowledgement for that message.
func c10Mark(c *Ctx) {
	mt := c.implOf("Message")
	if mt == nil {
		c.Undecided("anchor", "message", "no structure implements geminio.Message")
		return
	}
	for _, name := range []string{"Done", "Error"} {
		fn := c.P.Method("application", mt.Obj().Name(), name)
		if fn == nil {
			c.Undecided("anchor", "message."+name, "not found")
			continue
		}
		idF := c.getterField("application", mt.Obj().Name(), "ID")
		sent := 0
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{Key: "root"}) {
			if o.Kind != "return" || len(o.Rets) != 1 {
				continue
			}
			var acks []*Event
			other := 0
			for _, e := range o.Events {
				if p := c.sentPkt(e); p != nil {
					if c.pktKind(p) == "MessageAckPacket" && made(p) {
						acks = append(acks, e)
					} else {
						other++
					}
				}
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			want := 0
			if o.Rets[0].isNilConst() {
				want = 1
			}
			c.Check(len(acks) == want && other == 0, "one-ack", "message."+name, show(fmt.Sprintf("%d acknowledgements are sent, the operation returns %s", len(acks), c.P.Show(o.Rets[0]))))
			if len(acks) != 1 {
				continue
			}
			sent++
			w := acks[0]
			p := c.sentPkt(w)
			id := c.heapField(w.Heap, p, "PacketID")
			v, b := fieldOf(id)
			c.Check(v != nil && v == idF && b.K == KParam, "ack-of-message", "message."+name, show("the acknowledgement carries the identifier "+c.P.Show(id)))
			errT := c.dataField(w.Heap, p, "Error")
			if name == "Done" {
				c.Check(emptyStr(errT), "ack-error", "message.Done", show("the acknowledgement carries the error "+c.P.Show(errT)))
			} else {
				isP := func(x *Term) bool { return x.K == KParam && isErrorRes(x) }
				isnil, known := isNilOn(o.Events, isP)
				ok := known && (isnil && emptyStr(errT) || !isnil && textOf(errT, isP))
				c.Check(ok, "ack-error", "message.Error", show("the acknowledgement carries the error "+c.P.Show(errT)))
			}
		}
		c.Check(sent > 0, "ack-possible", "message."+name, nil)
	}
	c.Min("one-ack", 2)
	c.Min("ack-of-message", 2)
	c.Min("ack-error", 2)
}

func init() {
	register("C10", "Every path of every operation that waits is related to the event it received: an event with an error must be returned as that error and without result, success must follow an event found to be without error. Every loop that completes waiters is fed with every kind of answer in every state: exactly the waiter of the answer's identifier is completed, successfully only if the answer was found to carry no error, otherwise with its text. Marking messages sends one acknowledgement with the message's identifier and error.",
		Rule{"outcome", "an operation returns what its answer reports", c10Outcome},
		Rule{"acks", "an answer completes exactly the waiter with its identifier, with its error", c10Acks},
		Rule{"mark", "marking a message acknowledges that message", c10Mark},
		Rule{"layout", "the packets that carry it are decoded as they were encoded", layoutOf("MessagePacket", "MessageAckPacket", "ResponsePacket", "RegisterAckPacket", "SessionAckPacket", "ConnAckPacket")},
	)
}
