package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: what the receiver sees is what the sender gave. Each hop is decided: objects
// keep what they are given, packets carry what the objects hold, and the objects
// handed out at the other side hold what the packets carry.

// isGet: a getter of an object
func isGet(t *Term, name string, obj *Term) bool {
	return exact(t, func(x *Term) bool {
		return x.K == KPure && x.Op == "get:"+name && len(x.A) > 0 && isParamVal(x.A[0], obj)
	})
}

// argOfType: the parameter of a method with an interface type of the root package
func ifaceParam(fn *ssa.Function, names ...string) *Term {
	for _, p := range fn.Params {
		for _, n := range names {
			if namedIs(p.Type(), "geminio", n) {
				return &Term{K: KParam, Op: p.Name(), T: p.Type()}
			}
		}
	}
	return nil
}

func zeroVal(t *Term) bool {
	if t == nil || t.isNilConst() {
		return true
	}
	if n, ok := t.constInt(); ok {
		return n == 0
	}
	if s, ok := t.constStr(); ok {
		return s == ""
	}
	return false
}

// zeroOn: the path found a number to be zero, or not
func zeroOn(ev []*Event, f func(x *Term) bool) (zero, known bool) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil || t.K != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			n, ok := t.A[1-i].constInt()
			if !ok || n != 0 || !f(t.A[i]) {
				continue
			}
			switch {
			case t.Op == "==" || t.Op == "!=":
				return v == (t.Op == "=="), true
			case i == 0 && t.Op == ">" || i == 1 && t.Op == "<":
				return !v, true // not positive counts as none
			case i == 0 && t.Op == "<=" || i == 1 && t.Op == ">=":
				return v, true
			}
		}
	}
	return false, false
}

// fromPkt: a field of the data part of a packet received on the path
func fromRecv(t *Term, field string) bool {
	return exact(t, func(x *Term) bool {
		v, b := fieldOf(x)
		return v != nil && v.Name() == field && b != nil && anyTerm(b, func(y *Term) bool { return y.K == KRecv })
	})
}

// isSelfID: the identifier a stream or its connection has here
func isSelfID(t *Term, name string) bool {
	return exact(t, func(x *Term) bool {
		if x.K != KPure || len(x.A) == 0 {
			return false
		}
		return x.Op == "get:"+name && !anyTerm(x.A[0], func(y *Term) bool { return y.K == KRecv || isPkt(y) })
	})
}

func c20Send(c *Ctx) {
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "application" {
			continue
		}
		obj := ifaceParam(r.Fn, "Message", "Request")
		if obj == nil {
			continue
		}
		var method *Term
		for _, p := range r.Fn.Params {
			if isStringT(p.Type()) {
				method = &Term{K: KParam, Op: p.Name(), T: p.Type()}
			}
		}
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				p := c.sentPkt(e)
				if e.Kind != EvSend || p == nil || !made(p) {
					continue
				}
				kind := c.pktKind(p)
				if kind != "MessagePacket" && kind != "RequestPacket" {
					continue
				}
				show := func(f string, got *Term) func() string {
					return func() string { return "the packet carries " + f + " = " + c.P.Show(got) + "\n" + c.P.ShowTrace(o) }
				}
				name := r.Name + "/"
				for _, g := range [][2]string{{"Value", "Data"}, {"Custom", "Custom"}, {"Topic", "Topic"}} {
					if g[0] == "Topic" && kind != "MessagePacket" {
						continue
					}
					got := c.dataField(e.Heap, p, g[0])
					c.Check(got != nil && isGet(got, g[1], obj), "sent-as-given", name+g[1], show(g[0], got))
				}
				if kind == "RequestPacket" {
					got := c.dataField(e.Heap, p, "Key")
					c.Check(got != nil && method != nil && exact(got, func(x *Term) bool { return isParamVal(x, method) }), "sent-as-given", name+"method", show("Key", got))
				}
				id := c.heapField(e.Heap, p, "PacketID")
				c.Check(id != nil && isGet(id, "ID", obj), "sent-as-given", name+"ID", show("PacketID", id))
				tm := c.dataField(e.Heap, p, "Timeout")
				isT := func(x *Term) bool { return isGet(x, "Timeout", obj) }
				zero, known := zeroOn(o.Events[:i], isT)
				ok := tm != nil && (isT(tm) || isSetTo(o.Events[:i], obj, "SetTimeout", tm))
				if known && zero {
					ok = ok || zeroVal(tm)
				}
				c.Check(ok, "sent-as-given", name+"Timeout", show("Timeout", tm))
			}
		}
	}
	c.Min("sent-as-given", 12)
}

// isSetTo: the object was given the value on the path
func isSetTo(ev []*Event, obj *Term, setter string, val *Term) bool {
	ok := false
	for _, e := range ev {
		if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == setter && e.Recv != nil && isParamVal(e.Recv, obj) && len(e.Args) > 0 {
			ok = same(e.Args[len(e.Args)-1], val)
		}
	}
	return ok
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// c20Objects: objects keep what they are given
func c20Objects(c *Ctx) {
	for _, iface := range []string{"Message", "Request", "Response"} {
		impl := c.implOf(iface)
		if impl == nil {
			c.Undecided("objects", iface, "no implementation")
			continue
		}
		it := c.ifaceOf(iface)
		used := map[*types.Var]string{}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sig := m.Type().(*types.Signature)
			switch {
			case sig.Params().Len() == 0 && sig.Results().Len() == 1 && !isErrorOnly(iface, m.Name()):
				gf := c.getterField("application", impl.Obj().Name(), m.Name())
				if !c.Check(gf != nil, "objects", iface+"."+m.Name(), func() string { return "it doesn't return what is kept in one field" }) {
					continue
				}
				if w, ok := used[gf]; ok {
					c.Check(false, "objects", iface+"."+m.Name(), func() string { return "it returns the same as " + w })
				}
				used[gf] = m.Name()
				// nothing but that field
				for _, o := range c.Traces(c.P.Method("application", impl.Obj().Name(), m.Name()), impl.Obj().Name()+"."+m.Name(), RunOpts{}) {
					v, _ := fieldOf(strip(o.Rets[0]))
					c.Check(v == gf, "objects", iface+"."+m.Name(), func() string { return c.P.ShowTrace(o) })
				}
			}
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if !strings.HasPrefix(m.Name(), "Set") {
				continue
			}
			gf := c.getterField("application", impl.Obj().Name(), strings.TrimPrefix(m.Name(), "Set"))
			fn := c.P.Method("application", impl.Obj().Name(), m.Name())
			for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
				n, ok := 0, false
				for _, e := range o.Events {
					if e.Kind == EvStore && e.Op != "local" {
						n++
						v, _ := fieldOf(e.Recv)
						ok = v == gf && gf != nil && len(e.Args) > 0 && strip(e.Args[0]).K == KParam
					}
				}
				c.Check(n == 1 && ok, "objects", iface+"."+m.Name(), func() string { return "it sets something else\n" + c.P.ShowTrace(o) })
			}
		}
	}
	c.Min("objects", 20)
}

func isErrorOnly(iface, m string) bool { return iface == "Message" && (m == "Done" || m == "Error") }

func (c *Ctx) ifaceOf(name string) *types.Interface {
	for _, tp := range c.P.TPkgs {
		if tp.Name() == "geminio" {
			if o, ok := tp.Scope().Lookup(name).(*types.TypeName); ok {
				it, _ := o.Type().Underlying().(*types.Interface)
				return it
			}
		}
	}
	return nil
}

// holds checks the fields of an object handed out
func (c *Ctx) holds(rule, name, iface string, h *Heap, obj *Term, o *Outcome, want map[string]func(*Term) bool) {
	impl := c.implOf(iface)
	if impl == nil {
		return
	}
	ks := []string{}
	for g := range want {
		ks = append(ks, g)
	}
	sort.Strings(ks)
	for _, g := range ks {
		gf := c.getterField("application", impl.Obj().Name(), g)
		got := objField(h, obj, gf)
		c.Check(gf != nil && want[g](got), rule, name+"/"+g, func() string {
			return "the object holds " + g + " = " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
		})
	}
}

func c20Receive(c *Ctx) {
	isRecvID := func(x *Term) bool { return fromRecv(x, "PacketID") }
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "application" {
			continue
		}
		res := r.Fn.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		msg := namedIs(res.At(0).Type(), "geminio", "Message")
		req := namedIs(res.At(0).Type(), "geminio", "Request")
		if !msg && !req {
			continue
		}
		iface := "Request"
		if msg {
			iface = "Message"
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" || o.Rets[0].isNilConst() {
				continue
			}
			obj := strip(o.Rets[0])
			if obj.K != KAlloc {
				c.Check(false, "handed-out", r.Name, func() string { return "it returns " + c.P.Show(obj) })
				continue
			}
			got := false
			for _, e := range o.Events {
				got = got || e.Kind == EvRecv
			}
			self := map[string]func(*Term) bool{
				"ClientID": func(x *Term) bool { return isSelfID(x, "ClientID") },
				"StreamID": func(x *Term) bool { return isSelfID(x, "DialogueID") },
			}
			if got {
				self["Data"] = func(x *Term) bool { return fromRecv(x, "Value") }
				self["Custom"] = func(x *Term) bool { return fromRecv(x, "Custom") }
				self["Topic"] = func(x *Term) bool { return fromRecv(x, "Topic") }
				self["Timeout"] = func(x *Term) bool { return fromRecv(x, "Timeout") }
				self["ID"] = isRecvID
				c.holds("received-as-sent", r.Name, iface, o.Heap, obj, o, self)
				continue
			}
			self["Data"] = func(x *Term) bool { return exact(x, func(y *Term) bool { return y.K == KParam && y.Op != "recv" }) }
			self["ID"] = func(x *Term) bool { return freshID(x) }
			c.holds("made-as-given", r.Name, iface, o.Heap, obj, o, self)
			merge := "MergeNew" + iface + "Options"
			for _, g := range []string{"Custom", "Topic"} {
				if g == "Topic" && !msg {
					continue
				}
				isnil, known := isNilOn(o.Events, func(x *Term) bool { return optLoad(x, merge, g, false) })
				c.holds("made-as-given", r.Name, iface, o.Heap, obj, o, map[string]func(*Term) bool{g: func(x *Term) bool {
					return optLoad(x, merge, g, false) || optLoad(x, merge, g, true) || known && isnil && zeroVal(x)
				}})
				_ = known
			}
		}
	}
	c.Min("received-as-sent", 6)
	c.Min("made-as-given", 8)
	// requests and responses handed out by the read loop
	r, lab := c.appRead()
	if r == nil {
		return
	}
	reqT, rspT := c.implOf("Request"), c.implOf("Response")
	isData := func(f string) func(*Term) bool {
		return func(x *Term) bool { return exact(x, func(y *Term) bool { return isPktData(y, f) }) }
	}
	n := 0
	c.handlings(r, lab, "RequestPacket", RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) {
		for _, h := range c.handlerCalls(ev) {
			rq, rs := allocOf(h.e, reqT), allocOf(h.e, rspT)
			if !c.Check(rq != nil && rs != nil, "handler-sees", r.Name, func() string { return "no request and response\n" + c.P.ShowTrace(o) }) {
				continue
			}
			n++
			id := c.pktLoad(c.P.pktTerm("RequestPacket"), "PacketID")
			self := map[string]func(*Term) bool{
				"ClientID": func(x *Term) bool { return isSelfID(x, "ClientID") },
				"StreamID": func(x *Term) bool { return isSelfID(x, "DialogueID") },
				"ID":       func(x *Term) bool { return same(x, id) },
				"Method":   isData("Key"),
			}
			c.holds("handler-sees", r.Name+" response", "Response", h.e.Heap, rs, o, self)
			self["Data"], self["Custom"], self["Timeout"] = isData("Value"), isData("Custom"), isData("Timeout")
			c.holds("handler-sees", r.Name+" request", "Request", h.e.Heap, rq, o, self)
		}
		// the answer carries what the handler set
		if len(c.handlerCalls(ev)) != 1 {
			return
		}
		rs := allocOf(c.handlerCalls(ev)[0].e, rspT)
		for _, e := range c.sentKind(ev, "ResponsePacket") {
			p := c.sentPkt(e)
			for _, g := range [][2]string{{"SetData", "Value"}, {"SetCustom", "Custom"}} {
				fv := c.setterField("application", rspT.Obj().Name(), g[0])
				got := c.dataField(e.Heap, p, g[1])
				c.Check(fv != nil && exact(got, func(x *Term) bool { v, b := fieldOf(x); return v == fv && sameVal(b, rs) }), "answer-as-set", r.Name+"/"+g[1], func() string {
					return "the response carries " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
				})
			}
			got := c.dataField(e.Heap, p, "Key")
			c.Check(got != nil && fromHandlerOrPkt(got, allocOf(c.handlerCalls(ev)[0].e, reqT), isData("Key")), "answer-as-set", r.Name+"/method", func() string {
				return "the response names " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
			})
		}
	})
	c.Check(n > 0, "handler-sees", r.Name, nil)
	c.Min("answer-as-set", 3)
	n = 0
	c.handlings(r, lab, "ResponsePacket", RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) {
		for _, e := range ev {
			if e.Kind != EvCall {
				continue
			}
			rs := allocOf(e, rspT)
			if rs == nil {
				continue
			}
			n++
			id := c.pktLoad(c.P.pktTerm("ResponsePacket"), "PacketID")
			c.holds("response-as-sent", r.Name, "Response", e.Heap, rs, o, map[string]func(*Term) bool{
				"ClientID": func(x *Term) bool { return isSelfID(x, "ClientID") },
				"StreamID": func(x *Term) bool { return isSelfID(x, "DialogueID") },
				"ID":       func(x *Term) bool { return same(x, id) },
				"Method":   isData("Key"), "Data": isData("Value"), "Custom": isData("Custom"),
			})
		}
	})
	c.Check(n > 0, "response-as-sent", r.Name, nil)
}

// freshID: an identifier drawn for this object
func freshID(t *Term) bool {
	return exact(t, func(x *Term) bool {
		return x.K == KCall && (strings.HasSuffix(x.Op, ").GetID") || strings.Contains(x.Op, "NewPacketID"))
	})
}

// c20Meta: metadata and peer of streams, metadata of connections
func c20Meta(c *Ctx) {
	mux := (*layer)(nil)
	for _, l := range c.Layers() {
		switch {
		case l.pkg == "multiplexer":
			mux = l
		case l.hands().open != "":
			c.connMeta(l)
		}
	}
	if mux == nil {
		c.Undecided("stream-meta", "multiplexer", "no layer")
		return
	}
	mf, pf := c.getterField(mux.pkg, mux.typ, "Meta"), c.getterField(mux.pkg, mux.typ, "Peer")
	if mf == nil || pf == nil {
		c.Undecided("stream-meta", mux.typ, "Meta and Peer don't return a field")
		return
	}
	unroll := func(r *Root, o RunOpts) []*Outcome {
		o.Key, o.Unroll, o.Args, o.Free, o.Heap = "unroll", 12, r.opts.Args, r.opts.Free, r.opts.Heap
		o.UnrollFn = func(fn *ssa.Function) bool { return appliesTo(fn, mux.typ) }
		return c.Traces(r.Fn, r.Name, o)
	}
	// opening: the request carries them
	sent := 0
	for _, r := range c.Roots() {
		if c.P.rel(r.Fn) != "multiplexer" || r.Kind != "api" || r.Fn.Name() != "OpenDialogue" {
			continue
		}
		var meta, peer *Term
		for _, p := range r.Fn.Params {
			if isStringT(p.Type()) {
				peer = &Term{K: KParam, Op: p.Name(), T: p.Type()}
			} else if _, ok := p.Type().Underlying().(*types.Slice); ok {
				meta = &Term{K: KParam, Op: p.Name(), T: p.Type()}
			}
		}
		for _, o := range unroll(r, RunOpts{}) {
			for _, e := range o.Events {
				p := c.sentPkt(e)
				if p == nil || !made(p) || c.pktKind(p) != "SessionPacket" {
					continue
				}
				sent++
				for f, w := range map[string]*Term{"Meta": meta, "Peer": peer} {
					got := c.partField(e.Heap, p, "SessionData", f)
					c.Check(got != nil && w != nil && exact(got, func(x *Term) bool { return isParamVal(x, w) }), "open-carries", r.Name+"/"+f, func() string {
						return "the opening carries " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
					})
				}
			}
			// what the opener sees itself
			if o.Kind == "return" && len(o.Rets) > 0 && !o.Rets[0].isNilConst() {
				dg := strip(o.Rets[0])
				for f, w := range map[*types.Var]*Term{mf: meta, pf: peer} {
					got := objField(o.Heap, dg, f)
					if dg.K == KAlloc && got != nil {
						c.Check(w != nil && exact(got, func(x *Term) bool { return isParamVal(x, w) }), "opener-sees", r.Name+"/"+f.Name(), func() string {
							return "the stream holds " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
		}
	}
	for _, r := range c.Roots() {
		if c.P.rel(r.Fn) == "application" && r.Kind == "api" && r.Fn.Name() == "OpenStream" {
			c.openUse("open-given", r)
		}
	}
	c.Min("open-given", 3)
	c.Check(sent > 0, "open-carries", "any", func() string { return "no opening is sent" })
	c.Min("open-carries", 2)
	// the loop that sends it leaves them alone, the accepting one takes them from the packet
	isPart := func(t *Term, f string) bool {
		return exact(t, func(x *Term) bool {
			v, b := fieldOf(x)
			return v != nil && v.Name() == f && isPktPart(x) && !c.isMade(b)
		})
	}
	for _, kind := range c.kindsOf() {
		for _, lab := range []string{mux.in, mux.out} {
			if !mux.own[kind] && kind != "MessagePacket" {
				continue
			}
			c.handlings(mux.loop, lab, kind, RunOpts{OneStep: true, InlineGo: true}, func(o *Outcome, ev []*Event) {
				for _, e := range ev {
					if e.Kind == EvOnce {
						break
					}
					v, _ := fieldOf(e.Recv)
					if e.Kind != EvStore || v != mf && v != pf {
						continue
					}
					f := "Meta"
					if v == pf {
						f = "Peer"
					}
					c.Check(kind == "SessionPacket" && lab == mux.in && isPart(e.Args[0], f), "accepted-keeps", mux.typ+"/"+f, func() string {
						return "the stream then reports " + c.P.Show(e.Args[0]) + "\n" + c.P.ShowTrace(o)
					})
				}
			})
		}
	}
	// the accepting side
	r, lab := c.muxReads()
	if r == nil {
		c.Undecided("accepted-sees", "multiplexer", "no task spreads the packets of a connection")
		return
	}
	n := 0
	o := RunOpts{OneStep: true, Unroll: 12}
	o.UnrollFn = func(fn *ssa.Function) bool { return appliesTo(fn, mux.typ) }
	c.handlings(r, lab, "SessionPacket", o, func(o *Outcome, ev []*Event) {
		for _, e := range ev {
			if e.Kind != EvMapSet || len(e.Args) < 2 {
				continue
			}
			dg := strip(e.Args[len(e.Args)-1])
			if dg.K != KAlloc || dg.T == nil || !namedIs(dg.T, mux.pkg, mux.typ) {
				continue
			}
			n++
			for f, v := range map[string]*types.Var{"Meta": mf, "Peer": pf} {
				got := objField(e.Heap, dg, v)
				if f == "Meta" && got != nil && !isPart(got, f) && c.metaFromPkt(mux, mf) {
					continue // it is set from the packet before anybody is told
				}
				c.Check(got != nil && isPart(got, f), "accepted-sees", mux.typ+"/"+f, func() string {
					return "the accepted stream reports " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
				})
			}
		}
	})
	c.Check(n > 0, "accepted-sees", "any", func() string { return "no stream is accepted" })
	// the default stream reports what the connection does
	n = 0
	for _, r := range c.Roots() {
		if c.P.rel(r.Fn) != "multiplexer" || r.Fn.Signature.Recv() != nil || r.Kind != "api" {
			continue
		}
		for _, o := range unroll(r, RunOpts{}) {
			for _, e := range o.Events {
				if e.Kind != EvMapSet || len(e.Args) < 2 {
					continue
				}
				dg := strip(e.Args[len(e.Args)-1])
				if dg.K != KAlloc || dg.T == nil || !namedIs(dg.T, mux.pkg, mux.typ) {
					continue
				}
				n++
				got := objField(e.Heap, dg, mf)
				c.Check(got != nil && exact(got, func(x *Term) bool {
					return x.K == KPure && x.Op == "get:Meta" && len(x.A) > 0 && x.A[0].K == KParam
				}), "default-meta", r.Name, func() string { return "the default stream reports " + c.P.Show(got) + "\n" + c.P.ShowTrace(o) })
			}
		}
	}
	c.Check(n > 0, "default-meta", "any", func() string { return "no default stream" })
	// each object above reports what the one below does
	for _, r := range c.Roots() {
		if r.Kind != "api" || r.Fn.Signature.Recv() == nil || r.Fn.Signature.Params().Len() != 0 {
			continue
		}
		rel := c.P.rel(r.Fn)
		name := r.Fn.Name()
		if name != "Meta" && name != "Peer" || rel != "application" && rel != "client" && rel != "server" {
			continue
		}
		for _, o := range c.root(r) {
			got := strip(o.Rets[0])
			ok := got.K == KPure && got.Op == "get:"+name || got.K == KCall && strings.HasSuffix(got.Op, "."+name)
			if rel == "application" { // that of its stream, the connection has its own
				ok = ok && len(got.A) > 0 && got.A[0].T != nil && namedIs(got.A[0].T, mux.pkg, "Dialogue")
			}
			c.Check(ok, "reports", r.Name, func() string { return "it reports " + c.P.Show(got) + "\n" + c.P.ShowTrace(o) })
		}
	}
	c.Min("reports", 2)
}

func (c *Ctx) isMade(t *Term) bool {
	return t != nil && anyTerm(t, func(x *Term) bool { return x.K == KAlloc })
}

// metaFromPkt: whenever a request is accepted the metadata is taken from it, before the answer
func (c *Ctx) metaFromPkt(l *layer, mf *types.Var) bool {
	ok, n := true, 0
	c.handlings(l.loop, l.in, "SessionPacket", RunOpts{OneStep: true, FSM: l.fsm, State: l.init}, func(o *Outcome, ev []*Event) {
		set := false
		for _, e := range ev {
			if v, _ := fieldOf(e.Recv); e.Kind == EvStore && v == mf {
				set = true
			}
			if p := c.sentPkt(e); p != nil && c.pktKind(p) == "SessionAckPacket" {
				n++
				ok = ok && set
			}
		}
	})
	return ok && n > 0
}

// getterDeep: like getterField, the getter may belong to an embedded structure
func (c *Ctx) getterDeep(pkg string, n *types.Named, name string) *types.Var {
	if n == nil {
		return nil
	}
	if fn := c.P.Method(pkg, n.Obj().Name(), name); fn != nil {
		var r *types.Var
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
			if len(o.Rets) > 0 {
				if v, b := fieldOf(strip(o.Rets[0])); v != nil && anyTerm(b, func(x *Term) bool { return x.K == KParam }) {
					r = v
				}
			}
		}
		if r != nil {
			return r
		}
	}
	st, ok := n.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if !st.Field(i).Embedded() {
			continue
		}
		if m, ok := deref(st.Field(i).Type()).(*types.Named); ok && m.Obj().Pkg() == n.Obj().Pkg() {
			if f := c.getterDeep(pkg, m, name); f != nil {
				return f
			}
		}
	}
	return nil
}

// connMeta: metadata of a connection
func (c *Ctx) connMeta(l *layer) {
	mf := c.getterDeep(l.pkg, c.P.Named(l.pkg, l.typ), "Meta")
	if mf == nil {
		c.Undecided("conn-meta", l.typ, "Meta doesn't return a field")
		return
	}
	role := c.role(l)
	if role.asks {
		n := 0
		for _, fn := range c.P.Funcs {
			if c.P.rel(fn) != "conn" || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() == 0 || !namedIs(deref(fn.Signature.Results().At(0).Type()), "conn", l.typ) {
				continue
			}
			for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
				var last, made0 *Term // what an option may have set is not known: the field is read
				for _, e := range o.Events {
					if v, _ := fieldOf(e.Recv); e.Kind == EvStore && v == mf {
						made0 = e.Args[0]
					}
					if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "ConnPacket" {
						last = c.partField(e.Heap, p, "ConnData", "Meta")
						n++
						got := last
						c.Check(got != nil && exact(got, func(x *Term) bool { v, _ := fieldOf(x); return v == mf || made0 != nil && same(x, made0) }), "conn-meta", l.typ+"/sent", func() string {
							return "the request carries the metadata " + c.P.Show(got) + "\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
		}
		c.Check(n > 0, "conn-meta", l.typ+"/sent", func() string { return "no request is sent" })
	}
	if role.answers {
		told := 0
		c.handlings(l.loop, l.in, "ConnPacket", RunOpts{OneStep: true, FSM: l.fsm, State: l.init}, func(o *Outcome, ev []*Event) {
			var st *Term
			for _, e := range ev {
				if v, _ := fieldOf(e.Recv); e.Kind == EvStore && v == mf {
					st = e.Args[0]
				}
				p := c.sentPkt(e)
				if e.Kind == EvCall && isDelegate(e) || p != nil && c.pktKind(p) == "ConnAckPacket" {
					told++
					c.Check(st != nil && exact(st, func(x *Term) bool {
						v, _ := fieldOf(x)
						return v != nil && v.Name() == "Meta" && isPktPart(x)
					}), "conn-meta", l.typ+"/received", func() string {
						return fmt.Sprintf("it reports %s when it is used\n%s", c.P.Show(st), c.P.ShowTrace(o))
					})
					for _, a := range e.Args {
						if sl, ok := a.T.Underlying().(*types.Slice); ok && e.Kind == EvCall && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
							c.Check(exact(a, func(x *Term) bool {
								v, _ := fieldOf(x)
								return v == mf || v != nil && v.Name() == "Meta" && isPktPart(x)
							}), "conn-meta", l.typ+"/told", func() string { return "told " + c.P.Show(a) + "\n" + c.P.ShowTrace(o) })
						}
					}
				}
			}
		})
		c.Check(told > 0, "conn-meta", l.typ+"/received", func() string { return "nobody is told" })
	}
	// nothing else changes it
	for _, kind := range c.kindsOf() {
		for _, lab := range []string{l.in, l.out} {
			if !l.own[kind] && kind != "MessagePacket" || kind == "ConnPacket" && lab == l.in {
				continue
			}
			c.handlings(l.loop, lab, kind, RunOpts{OneStep: true, InlineGo: true}, func(o *Outcome, ev []*Event) {
				for _, e := range ev {
					v, _ := fieldOf(e.Recv)
					c.Check(e.Kind != EvStore || v != mf, "conn-meta", l.typ+"/kept", func() string { return c.P.ShowTrace(o) })
				}
			})
		}
	}
}

func init() {
	register("C20", "Value provenance along every hop: getters and setters of requests, responses and messages; the fields of every packet a call or publish sends; the objects handed to receivers, handlers and callers; the metadata of openings and of the streams and connections made from them.",
		Rule{"objects", "an object returns what it was given", c20Objects},
		Rule{"send", "packets carry the data, custom data, topic, method and timeout of the object sent", c20Send},
		Rule{"receive", "objects handed out hold what the packet carries and the identifiers of this side", c20Receive},
		Rule{"meta", "metadata and peer travel with the opening", c20Meta},
		Rule{"layout", "every field is decoded from where it was encoded", c02Layout},
		Rule{"json", "JSON bodies carry every field under a distinct key", c02JSON},
	)
}
