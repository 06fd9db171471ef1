package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// optionField: the field that the setting made by a function writes
func (c *Ctx) optionField(pkg, fn string) *types.Var {
	f := c.P.Func(pkg, fn)
	if f == nil {
		return nil
	}
	var r *types.Var
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && r == nil {
						if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
							r = s.Field(fa.Field)
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	scan(f)
	return r
}

// mapLabel names the map an event uses
func (c *Ctx) mapLabel(o *Outcome, i int) string {
	e := o.Events[i]
	l := c.P.chanLabel(e.Recv)
	if strip(e.Recv).K != KMake {
		return l
	}
	for j := i; j < len(o.Events); j++ {
		if h := o.Events[j].Heap; h != nil {
			if n := c.P.evLabel(&Event{Recv: e.Recv, Heap: h}); n != "fresh" {
				return n
			}
		}
	}
	for j := i; j >= 0; j-- {
		if h := o.Events[j].Heap; h != nil {
			if n := c.P.evLabel(&Event{Recv: e.Recv, Heap: h}); n != "fresh" {
				return n
			}
		}
	}
	return l
}

func isMapOf(e *Event, f func(types.Type) bool) bool {
	if e.Recv == nil || e.Recv.T == nil {
		return false
	}
	m, ok := e.Recv.T.Underlying().(*types.Map)
	return ok && f(m.Elem())
}

func isRPCType(t types.Type) bool { return namedIs(t, "geminio", "RPC") }

// c25Register: local side
func c25Register(c *Ctx) {
	tables := map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			for i, e := range o.Events {
				p := c.sentPkt(e)
				if p == nil || !made(p) || c.pktKind(p) != "RegisterPacket" {
					continue
				}
				set := -1
				for j, f := range o.Events[:i] {
					if f.Kind == EvMapSet && isMapOf(f, isRPCType) {
						set = j
					}
				}
				c.Check(set >= 0, "callable-before-told", r.Name, show("the peer is told about a method that is not yet in the table of local methods"))
				if set < 0 {
					continue
				}
				s := o.Events[set]
				tables[c.mapLabel(o, set)] = true
				key := s.Args[0]
				named := anyHeap(e.Heap, p, func(t *Term) bool { return conv(t, key) })
				c.Check(named, "names-method", r.Name, show("the registration does not name the method that was stored, "+c.P.Show(key)))
				if r.Fn.Signature.Recv() != nil && c.P.rel(r.Fn) == "application" {
					c.Check(strip(key).K == KParam && strip(s.Args[1]).K == KParam, "stores-handler", r.Name, show("stored: "+c.P.ShowEvent(s)))
				}
				del := -1
				for j, f := range o.Events[i:] {
					if f.Kind == EvMapDel && isMapOf(f, isRPCType) && same(f.Args[0], key) {
						del = i + j
					}
				}
				if o.Kind != "return" || len(o.Rets) == 0 || !isErrorT(o.Rets[len(o.Rets)-1].T) && o.Rets[len(o.Rets)-1].T != nil {
					continue
				}
				// the outcome of this registration
				failed, known := false, false
				for j, f := range o.Events[i:] {
					if g := waitedOn(o, f); g != nil && same(hubKey(g), c.heapField(e.Heap, p, "PacketID")) {
						isnil, ok := isNilOn(o.Events[i+j:], func(x *Term) bool { return evField(x, f.Res, "Error") })
						failed, known = !isnil, ok
						break
					}
					if ctxDone(f) {
						failed, known = true, true
						break
					}
				}
				if known && failed {
					c.Check(del >= 0, "undone-on-failure", r.Name, show("the registration failed and the method stays in the table of local methods"))
				} else {
					c.Check(del < 0, "kept-on-success", r.Name, show("the registration succeeded and the method is removed from the table"))
				}
			}
			// an operation that gives up without telling the peer leaves nothing behind
			if r.Kind == "api" && o.Kind == "return" && len(o.Rets) > 0 && isErrorT(r.Fn.Signature.Results().At(len(o.Rets)-1).Type()) && !o.Rets[len(o.Rets)-1].isNilConst() && r.Fn.Signature.Recv() != nil && c.P.rel(r.Fn) == "application" {
				sent := false
				left := map[string]bool{}
				for _, e := range o.Events {
					if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "RegisterPacket" {
						sent = true
					}
					if e.Kind == EvMapSet && isMapOf(e, isRPCType) {
						left[strip(e.Args[0]).Key()] = true
					}
					if e.Kind == EvMapDel && isMapOf(e, isRPCType) {
						delete(left, strip(e.Args[0]).Key())
					}
				}
				if !sent && len(left) > 0 {
					c.Check(false, "undone-on-failure", r.Name, show("the operation fails and leaves the method in the table of local methods"))
				}
			}
		}
	}
	// the table is the one requests are served from
	if r, lab := c.appRead(); r != nil {
		for _, o := range c.feed(r, lab, "RequestPacket", RunOpts{}) {
			for i, e := range o.Events {
				if e.Kind == EvMapGet && isMapOf(e, isRPCType) {
					l := c.mapLabel(o, i)
					c.Check(tables[l], "served-from-table", r.Name, func() string {
						return fmt.Sprintf("requests are served from %s, methods are stored in %v", l, sortedKeys(tables))
					})
				}
			}
		}
	}
	c.Min("callable-before-told", 1)
	c.Min("undone-on-failure", 1)
	c.Min("kept-on-success", 1)
	c.Min("served-from-table", 1)
	c.Min("names-method", 1)
}

// anyHeap: some value reachable from a fresh object satisfies f
func anyHeap(h *Heap, obj *Term, f func(*Term) bool) bool {
	if h == nil {
		return false
	}
	seen := map[string]bool{}
	var reach func(t *Term) bool
	reach = func(t *Term) bool {
		t = strip(t)
		if t == nil {
			return false
		}
		if f(t) {
			return true
		}
		if t.K != KAlloc || seen[t.Key()] {
			return false
		}
		seen[t.Key()] = true
		for _, ce := range h.m {
			if rootAddr(ce.addr).Key() == t.Key() && reach(ce.val) {
				return true
			}
		}
		return false
	}
	return reach(obj)
}

// pktMethod: the name a received registration carries
func isPktMethod(t *Term) bool {
	return exact(t, func(x *Term) bool {
		v, _ := fieldOf(x)
		return v != nil && strings.EqualFold(v.Name(), "method") && rootPkt(strip(x))
	})
}

type subWait struct {
	key, shape string
}

// c25Remote: peer side
func c25Remote(c *Ctx) (table string, shapes map[string]bool) {
	shapes = map[string]bool{}
	r, lab := c.appRead()
	if r == nil {
		return
	}
	id := c.pktLoad(c.P.pktTerm("RegisterPacket"), "PacketID")
	recorded := 0
	tables := map[string]bool{}
	c.handlings(r, lab, "RegisterPacket", RunOpts{}, func(o *Outcome, ev []*Event) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		acks := c.sentKind(ev, "RegisterAckPacket")
		c.Check(len(acks) == 1, "one-ack", r.Name, show(fmt.Sprintf("%d acknowledgements are sent for one registration", len(acks))))
		failed := false
		for _, w := range acks {
			p := c.sentPkt(w)
			got := c.heapField(w.Heap, p, "PacketID")
			c.Check(same(got, id), "ack-same-id", r.Name, show("the acknowledgement carries "+c.P.Show(got)))
			var errT *Term
			if st := structField(strip(p), func(v *types.Var) bool { return strings.HasSuffix(v.Name(), "Data") }); st != nil {
				d := c.heapField(w.Heap, p, st.Name())
				errT = objField(w.Heap, strip(d), structField(strip(d), named("Error")))
			}
			c.Check(emptyStr(errT), "ack-no-error", r.Name, show("the acknowledgement carries the error "+c.P.Show(errT)))
			if isnil, ok := isNilOn(ev, func(x *Term) bool { return w.Res != nil && same(x, w.Res) }); ok && !isnil {
				failed = true
			}
		}
		set, sub := -1, -1
		for i, e := range ev {
			if e.Kind == EvMapSet && isMapOf(e, func(t types.Type) bool { return !isRPCType(t) }) && isPktMethod(e.Args[0]) {
				set = i
			}
			if isHub(e, "DoneSub") && isPktMethod(e.Args[len(e.Args)-1]) {
				sub = i
				shapes[shape(c.P, hubKey(e))] = true
			}
		}
		if failed {
			return // nobody can be told
		}
		c.Check(set >= 0, "recorded", r.Name, show("a registration is not recorded"))
		c.Check(sub >= 0, "reported", r.Name, show("a registration is not reported to whoever waits for the method"))
		c.Check(sub < 0 || set >= 0 && set < sub, "recorded-before-reported", r.Name, show("the registration is reported before it is recorded"))
		if set >= 0 {
			recorded++
			tables[c.P.chanLabel(ev[set].Recv)] = true
		}
		c.Check(goesOn(o), "continues", r.Name, func() string { return "the stream ends on a registration\n" + c.P.ShowTrace(o) })
	})
	c.Check(len(tables) == 1, "one-table", r.Name, func() string { return fmt.Sprint(sortedKeys(tables)) })
	c.Min("one-ack", 1)
	c.Min("recorded", 1)
	c.Min("reported", 1)
	return one(tables), shapes
}

// c25Wait: waiting for remote methods
func c25Wait(c *Ctx) {
	table, shapes := c25Remote(c)
	want := c.optionField("application", "OptionWaitRemoteRPCs")
	c.Check(want != nil, "anchor", "awaited methods", nil)
	isWant := func(t *Term) bool {
		return anyTerm(t, func(x *Term) bool { v, _ := fieldOf(x); return v != nil && v == want })
	}
	waitsAnywhere := false
	for _, r := range c.Roots() {
		if r.Kind != "api" {
			continue
		}
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			add := -1
			for i, e := range o.Events {
				if isRegister(e) && c.hasSub(e) {
					add = i
				}
			}
			if add < 0 {
				continue
			}
			waitsAnywhere = true
			g := o.Events[add]
			c.Check(shapes[shape(c.P, hubKey(g))], "waits-for-reported", r.Name, show(fmt.Sprintf("the wait is for %s, registrations are reported to %v", c.P.Show(hubKey(g)), sortedKeys(shapes))))
			// all awaited methods
			all := false
			for _, e := range o.Events[:add+1] {
				if e.Kind == EvStore && len(e.Args) > 0 && e.Recv.K == KElemA && isWant(e.Args[0]) {
					v := strip(e.Args[0])
					if v.K == KLoad && v.A[0].K == KElemA {
						c.Check(same(e.Recv.A[1], v.A[0].A[1]), "all-awaited", r.Name, show("an awaited method is stored elsewhere: "+c.P.ShowEvent(e)))
						all = true
					}
				}
				if e.Kind == EvAssume && isWant(e.Cond) {
					all = true // the loop over them is empty on this path
				}
			}
			for _, a := range g.Args {
				if el, ok := Elems(g.Heap, a); ok {
					for _, x := range el {
						all = all || isWant(x)
					}
				}
			}
			c.Check(all, "all-awaited", r.Name, show("the wait does not name the awaited methods"))
			// the check for those already there comes after
			rec := len(o.Events)
			for i, e := range o.Events {
				if waitedOn(o, e) == g {
					rec = i
					break
				}
			}
			looked := false
			for i, e := range o.Events {
				if e.Kind != EvMapGet || !isMapOf(e, func(t types.Type) bool { return !isRPCType(t) }) || c.mapLabel(o, i) != table {
					continue
				}
				c.Check(i > add, "check-after-wait", r.Name, show("methods are checked before the wait is set up: a registration in between is missed"))
				if i < add || i > rec {
					continue
				}
				looked = true
				found, known := boolOn(o.Events[i:], func(x *Term) bool {
					return x.K == KPure && strings.HasPrefix(x.Op, "mapok") && len(x.A) > 0 && strip(x.A[0]).K == KMapVal && same(strip(x.A[0]).A[1], e.Args[0])
				})
				if !known || !found {
					continue
				}
				done := false
				for _, d := range o.Events[i:rec] {
					if isHub(d, "DoneSub") && same(hubKey(d), hubKey(g)) && conv(strip(d.Args[len(d.Args)-1]), strip(e.Args[0])) {
						done = true
					}
				}
				c.Check(done, "already-there", r.Name, show("a method already registered is not counted"))
			}
			if rec < len(o.Events) {
				empty := false
				for _, e := range o.Events[:rec] {
					if e.Kind == EvAssume && !e.Val && isWant(e.Cond) && e.Cond.K == KBin && e.Cond.Op == "<" {
						empty = true
					}
				}
				c.Check(looked || empty, "checks-existing", r.Name, show("methods registered before the wait are not looked for"))
			}
			c.Check(o.Kind != "return" || rec < len(o.Events) || !o.Rets[len(o.Rets)-1].isNilConst(), "waits-for-all", r.Name, show("the operation succeeds without waiting"))
		}
	}
	c.Check(waitsAnywhere, "waits", "awaited methods", nil)
	// success without a wait only when nothing is awaited
	for _, r := range c.Roots() {
		if r.Kind != "api" || r.Fn.Signature.Recv() != nil {
			continue
		}
		uses := false
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				uses = uses || isRegister(e) && c.hasSub(e)
			}
		}
		if !uses {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" || !o.Rets[len(o.Rets)-1].isNilConst() {
				continue
			}
			waited := false
			none := false
			for _, e := range o.Events {
				if g := waitedOn(o, e); g != nil && c.hasSub(g) {
					waited = true
				}
				if e.Kind == EvAssume && isWant(e.Cond) {
					t, v := norm(e.Cond, e.Val)
					if x := nilCmp(t); x != nil && v == (t.Op == "==") {
						none = true
					}
					if t.K == KBin && anyTerm(t, func(x *Term) bool { return x.K == KLen && isWant(x) }) {
						k0, ok0 := t.A[0].constInt()
						k1, ok1 := t.A[1].constInt()
						switch {
						case ok1 && k1 == 0 && (t.Op == "==" && v || t.Op == "!=" && !v || t.Op == ">" && !v || t.Op == "<=" && v):
							none = true
						case ok0 && k0 == 0 && (t.Op == "==" && v || t.Op == "!=" && !v || t.Op == "<" && !v || t.Op == ">=" && v):
							none = true
						}
					}
				}
			}
			unset := true
			for _, e := range o.Events {
				if e.Kind == EvDyn && len(e.Args) > 0 {
					unset = false
				}
			}
			c.Check(waited || none || unset, "waits-for-all", r.Name, func() string {
				return "the operation succeeds without waiting for the awaited methods\n" + c.P.ShowTrace(o)
			})
		}
	}
	c.Min("waits-for-reported", 1)
	c.Min("check-after-wait", 1)
	c.Min("already-there", 1)
	c.Min("all-awaited", 1)
	// the method check of both kinds of call
	chk := c.optionField("application", "OptionWithRemoteRPCCheck")
	c.Check(chk != nil, "anchor", "method check", nil)
	var names []string
	for _, r := range c.Roots() {
		if r.Kind != "api" {
			continue
		}
		for _, o := range c.root(r) {
			q := -1
			for i, e := range o.Events {
				if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "RequestPacket" {
					q = i
				}
			}
			if q < 0 {
				continue
			}
			names = append(names, r.Name)
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			on, known := boolOn(o.Events[:q], func(x *Term) bool { v, _ := fieldOf(x); return v != nil && v == chk })
			// either nobody asked for the check, or the method was found
			found := false
			for i, e := range o.Events[:q] {
				if e.Kind == EvMapGet && c.mapLabel(o, i) == table {
					k := strip(e.Args[0])
					f, ok := boolOn(o.Events[i:q], func(x *Term) bool {
						return x.K == KPure && strings.HasPrefix(x.Op, "mapok") && len(x.A) > 0 && strip(x.A[0]).K == KMapVal && same(strip(x.A[0]).A[1], k)
					})
					if ok && f && k.K == KParam {
						found = true
					}
				}
			}
			c.Check(known && !on || found, "checked-call", r.Name, show("a call is made although the method check may be on and the method was not found registered"))
			c.Check(known || found, "check-consulted", r.Name, show("the method check is not consulted"))
		}
	}
	sort.Strings(names)
	c.Min("checked-call", 2)
}

func init() {
	register("C25", "Every path that queues a registration must have stored the handler under the named method before, and removes it again exactly when the registration fails or its context ends. The stream read loop is explored with a registration: one acknowledgement with its identifier, recorded, then reported under the same name others wait for. Every path that waits for remote methods sets the wait up before it looks for existing ones, and counts those found. Every path that queues a request must have found the method check off or the method registered.",
		Rule{"register", "a method is callable before the peer is told and removed on failure", c25Register},
		Rule{"remote", "registrations are acknowledged, recorded, reported and waited for; the method check holds", c25Wait},
		Rule{"layout", "the packets that carry it are decoded as they were encoded", layoutOf("RegisterPacket", "RegisterAckPacket")},
	)
}
