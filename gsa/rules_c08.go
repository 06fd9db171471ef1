package main

import (
	"fmt"
	"go/types"
	"strings"
)

// onces: the Once objects whose function is running at each event of a path
func onces(o *Outcome) [][]*Term {
	r := make([][]*Term, len(o.Events))
	type act struct {
		e     *Event
		depth int
	}
	var cur []act
	for i, e := range o.Events {
		for len(cur) > 0 {
			a := cur[len(cur)-1]
			if e.Gid == a.e.Gid && (e.Depth <= a.depth && e.Kind != EvLeave && e.Kind != EvOnce || e.Kind == EvLeave && e.Fn == a.e.Fn && e.Depth <= a.depth+1) && e != a.e {
				cur = cur[:len(cur)-1]
				continue
			}
			break
		}
		for _, a := range cur {
			r[i] = append(r[i], a.e.Recv)
		}
		if e.Kind == EvOnce && e.Val {
			cur = append(cur, act{e, e.Depth})
		}
	}
	return r
}

// flagLoad: the bool field (of a shared object) that a condition tests, and the value it is found to have
func flagCond(e *Event) (*types.Var, *Term, bool) {
	if e.Kind != EvAssume {
		return nil, nil, false
	}
	t, v := e.Cond, e.Val
	for t != nil && t.K == KNot {
		t, v = t.A[0], !v
	}
	if t != nil && t.K == KBin && (t.Op == "==" || t.Op == "!=") {
		if b, ok := t.A[1].constBool(); ok {
			t, v = t.A[0], v == (b == (t.Op == "=="))
		} else if b, ok := t.A[0].constBool(); ok {
			t, v = t.A[1], v == (b == (t.Op == "=="))
		}
	}
	f, b := fieldOf(t)
	if f == nil || f.Type() == nil {
		return nil, nil, false
	}
	if bt, ok := f.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		return nil, nil, false
	}
	return f, b, v
}

// live is a flag that says an object still works: cleared under the exclusive lock of the object.
type live struct {
	flag, lock string
}

// lives finds the flags: bool fields to which a path stores false while it holds the object's lock exclusively.
func (c *Ctx) lives() map[string]string {
	if c.livesMemo != nil {
		return c.livesMemo
	}
	m := map[string]string{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.lockWalk(o, func(e *Event, h []hold) {
				if e.Kind != EvStore || len(e.Args) == 0 {
					return
				}
				f, b := fieldOf(e.Recv)
				if f == nil {
					return
				}
				if v, ok := e.Args[0].constBool(); !ok || v {
					return
				}
				for _, x := range h {
					if x.mode == "L" && x.owner == rootObj(b).Key() {
						m[c.P.Label(f)] = x.label
					}
				}
			})
		}
	}
	c.livesMemo = m
	return m
}

// section describes, at an event of a path, the locks held and what is known of the live flags since each was taken.
type section struct {
	h     []hold
	alive map[string]bool // lock key -> flag tested true since the lock was taken
	dead  map[string]bool // lock key -> flag stored false since the lock was taken
	off   map[string]bool // owner -> its flag was stored false earlier on this path
}

func (c *Ctx) sectionWalk(o *Outcome, f func(i int, e *Event, s section)) {
	lv := c.lives()
	alive, deadm, off := map[string]bool{}, map[string]bool{}, map[string]bool{}
	i := -1
	c.lockWalk(o, func(e *Event, h []hold) {
		i++
		f(i, e, section{h, alive, deadm, off})
		switch e.Kind {
		case EvLock:
			k := fmt.Sprint(e.Gid, e.Recv.Key())
			delete(alive, k)
			delete(deadm, k)
		case EvAssume:
			if fl, b, v := flagCond(e); fl != nil && v && lv[c.P.Label(fl)] != "" {
				for _, x := range h {
					if x.label == lv[c.P.Label(fl)] && x.owner == rootObj(b).Key() {
						alive[fmt.Sprint(e.Gid, x.key)] = true
					}
				}
			}
		case EvStore:
			if fl, b := fieldOf(e.Recv); fl != nil && lv[c.P.Label(fl)] != "" {
				if v, ok := e.Args[0].constBool(); ok && !v {
					off[rootObj(b).Key()] = true
					for _, x := range h {
						if x.mode == "L" && x.label == lv[c.P.Label(fl)] && x.owner == rootObj(b).Key() {
							deadm[fmt.Sprint(e.Gid, x.key)] = true
						}
					}
				}
			}
		}
	})
}

func (s section) aliveFor(gid int, owner string) bool {
	for _, x := range s.h {
		if x.owner == owner && s.alive[fmt.Sprint(gid, x.key)] {
			return true
		}
	}
	return false
}

func ownerOf(t *Term) string {
	if _, b := fieldOf(t); b != nil {
		return rootObj(b).Key()
	}
	return ""
}

type closeSite struct {
	r     *Root
	o     *Outcome
	e     *Event
	once  string // once of the same object that guards it
	under string // lock of the object, held exclusively with the flag cleared in that section
	list  bool   // taken off a list under a lock
}

func (c *Ctx) closeSites() map[string][]closeSite {
	m := map[string][]closeSite{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			on := onces(o)
			c.sectionWalk(o, func(i int, e *Event, s section) {
				if e.Kind != EvClose || strip(e.Recv).isNilConst() {
					return
				}
				l := c.P.chanLabel(e.Recv)
				own := ownerOf(e.Recv)
				cs := closeSite{r: r, o: o, e: e}
				for _, t := range on[i] {
					if ownerOf(t) == own && own != "" {
						cs.once = c.P.chanLabel(t)
					}
				}
				for _, x := range s.h {
					if x.owner == own && x.mode == "L" && s.dead[fmt.Sprint(e.Gid, x.key)] {
						cs.under = x.label
					}
				}
				m[l] = append(m[l], cs)
			})
		}
	}
	return m
}

// waiterClose: closing a channel taken from a list of waiters; the path must take the element off the list under the same lock
func (c *Ctx) waiterClose(cs closeSite) (is, ok bool) {
	t := strip(cs.e.Recv)
	var el *Term
	anyTerm(t, func(x *Term) bool {
		if v, b := fieldOf(x); v != nil && v.Name() == "Value" && v.Pkg() != nil && v.Pkg().Path() == "container/list" {
			el = b
			return true
		}
		return false
	})
	if el == nil {
		return false, false
	}
	removed := false
	c.lockWalk(cs.o, func(e *Event, h []hold) {
		if e.Kind == EvCall && e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "container/list" {
			switch e.Fn.Name() {
			case "Remove":
				if len(e.Args) > 1 && strip(e.Args[1]).Key() == strip(el).Key() {
					for _, x := range h {
						removed = removed || x.mode == "L"
					}
				}
			case "Init":
				for _, x := range h {
					removed = removed || x.mode == "L"
				}
			}
		}
	})
	return true, removed
}

func c08CloseOnce(c *Ctx) {
	for l, sites := range c.closeSites() {
		if l == "fresh" {
			// a channel made on this path: at most once on any path
			for _, cs := range sites {
				n := 0
				for _, e := range cs.o.Events {
					if e.Kind == EvClose && e.Recv.Key() == cs.e.Recv.Key() {
						n++
					}
				}
				c.Check(n == 1, "close-once", "fresh/"+cs.r.Name, c.trace(cs.o))
			}
			continue
		}
		single := map[string]string{} // receiver type -> task
		allOnce := ""
		same := true
		for i, cs := range sites {
			if i == 0 {
				allOnce = cs.once
			}
			if cs.once != allOnce {
				allOnce = ""
			}
			t := taskRecvType(cs.r)
			if single[t] != "" && single[t] != cs.r.Name || cs.r.Kind != "task" || cs.e.Gid != 0 {
				same = false
			}
			single[t] = cs.r.Name
		}
		for _, cs := range sites {
			n := 0
			for _, e := range cs.o.Events {
				if e.Kind == EvClose && e.Recv.Key() == cs.e.Recv.Key() {
					n++
				}
			}
			ok, why := true, ""
			if w, off := c.waiterClose(cs); w {
				ok, why = off, "a waiter is closed and stays on the list"
			} else if n > 1 {
				ok, why = false, "the channel is closed twice on one path"
			} else if allOnce != "" {
				// whoever comes first
			} else if cs.under != "" {
				// only while the flag was still set
				found := false
				c.sectionWalk(cs.o, func(i int, e *Event, s section) {
					if e == cs.e && s.aliveFor(e.Gid, ownerOf(e.Recv)) {
						found = true
					}
				})
				ok = found || same && !cutAround(cs.o, cs.e)
				why = "the closed state is set under the lock but not tested before closing, and more than one task closes"
			} else if !same {
				ok, why = false, "several tasks close it and nothing lets only one of them"
			} else if cutAround(cs.o, cs.e) {
				ok, why = false, "the task that closes it goes on and can close it again"
			}
			c.Check(ok, "close-once", l+"/"+cs.r.Name, func() string { return why + "\n" + c.P.ShowTrace(cs.o) })
		}
	}
	c.Min("close-once", 12)
}

// cutAround: the path ends in another iteration of a loop that the event is part of
func cutAround(o *Outcome, e *Event) bool {
	if o.Kind != "iterate" || o.CutBlk == nil {
		return false
	}
	for i := len(o.Events) - 1; i >= 0; i-- {
		f := o.Events[i]
		if f == e {
			return true
		}
		if f.Kind == EvLoop && f.Blk == o.CutBlk && f.Depth == o.CutDepth {
			return false
		}
	}
	return false
}

// c08Sends: nobody sends on a channel that may be closed.
func c08Sends(c *Ctx) {
	sites := map[string][]closeSite{}
	for l, cl := range c.closeSites() {
		by := map[*Root]int{}
		for _, cs := range cl {
			if j, ok := by[cs.r]; ok {
				if cs.under == "" {
					sites[l][j].under = ""
				}
				continue
			}
			by[cs.r] = len(sites[l])
			sites[l] = append(sites[l], cs)
		}
	}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			closed := map[string]bool{}
			c.sectionWalk(o, func(i int, e *Event, s section) {
				if e.Kind == EvClose {
					closed[e.Recv.Key()] = true
					return
				}
				if e.Kind != EvSend {
					return
				}
				l := c.P.chanLabel(e.Recv)
				cl := sites[l]
				if l == "fresh" || len(cl) == 0 {
					return
				}
				cons := l + "/" + r.Name
				c.Check(!closed[e.Recv.Key()], "send-safe", cons, func() string { return "sends after closing\n" + c.P.ShowTrace(o) })
				own := true // all closers are this task
				for _, cs := range cl {
					if cs.r.Fn != r.Fn && taskRecvType(cs.r) == taskRecvType(r) || cs.r.Kind != "task" || r.Kind != "task" || e.Gid != 0 {
						own = false
					}
					if cs.r.Fn != r.Fn && taskRecvType(cs.r) != taskRecvType(r) && !c.sameFamily(cl, r) {
						own = false
					}
				}
				if own {
					return
				}
				alive := s.aliveFor(e.Gid, ownerOf(e.Recv))
				// objects made on this path are not closed by anybody yet, unless their tasks run
				under := true
				for _, cs := range cl {
					if cs.under == "" {
						under = false
					}
				}
				c.Check(alive && under, "send-safe", cons, func() string {
					return fmt.Sprintf("somebody else may have closed the channel: sender holds [%s], saw the object alive since: %v; closers clear the flag and close in one exclusive section: %v\n%s", holdStr(s.h), alive, under, c.P.ShowTrace(o))
				})
			})
		}
	}
	c.Min("send-safe", 12)
}

// sameFamily: among the closers there is this task itself (the others run for other types embedding the same object)
func (c *Ctx) sameFamily(cl []closeSite, r *Root) bool {
	for _, cs := range cl {
		if cs.r.Fn == r.Fn {
			return true
		}
	}
	return false
}

// c08Errors: an operation that finds its object closed says so and sends nothing.
func c08Errors(c *Ctx) {
	lv := c.lives()
	for _, r := range c.Roots() {
		if r.Kind != "api" || strings.HasPrefix(r.Fn.Name(), "Close") {
			continue
		}
		res := r.Fn.Signature.Results()
		if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) {
			continue
		}
		if r.Fn.Signature.Recv() == nil {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" {
				continue
			}
			deadAt := -1
			own := ""
			for i, e := range o.Events {
				if fl, b, v := flagCond(e); fl != nil && !v && lv[c.P.Label(fl)] != "" && e.Gid == 0 {
					deadAt = i
					own = rootObj(b).Key()
				}
			}
			if deadAt < 0 {
				continue
			}
			var sent *Event
			for _, e := range o.Events[deadAt:] {
				if e.Kind == EvSend && ownerOf(e.Recv) == own {
					sent = e
				}
			}
			err := o.Rets[len(o.Rets)-1]
			c.Check(errIsNonNil(o, err) && sent == nil, "closed-error", r.Name, func() string {
				return "the object is found closed and the operation does not fail, or still queues something\n" + c.P.ShowTrace(o)
			})
		}
	}
	// every operation that queues something tests the flag: see send-safe
	c.Min("closed-error", 7)
}

func isErrorT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// c08Released: what is given up when an object ends is not used by others afterwards.
func c08Released(c *Ctx) {
	type nst struct {
		r  *Root
		ok bool // after the live flag was cleared, or while the lock is held exclusively
		lk string
	}
	nils := map[string][]nst{}
	by := map[string]map[*Root]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.sectionWalk(o, func(i int, e *Event, s section) {
				if e.Kind != EvStore || len(e.Args) == 0 || !e.Args[0].isNilConst() {
					return
				}
				f, b := fieldOf(e.Recv)
				if f == nil {
					return
				}
				if rt := rootAddr(b); rt != nil && rt.K == KAlloc {
					return
				}
				own := rootObj(b).Key()
				n := nst{r: r, ok: s.off[own]}
				for _, x := range s.h {
					if x.owner == own && x.mode == "L" {
						n.lk = x.label
					}
				}
				lab := c.P.Label(f)
				if by[lab] == nil {
					by[lab] = map[*Root]bool{}
				}
				by[lab][r] = true
				for _, m := range nils[lab] {
					if m == n {
						return
					}
				}
				nils[lab] = append(nils[lab], n)
			})
		}
	}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.sectionWalk(o, func(i int, e *Event, s section) {
				if e.Kind != EvCall {
					return
				}
				if _, isF := fieldAddr(e.Recv); isF {
					return // a method on the field itself
				}
				f, b := fieldOf(e.Recv)
				if f == nil {
					return
				}
				if rt := rootAddr(b); rt != nil && rt.K == KAlloc {
					return
				}
				own := rootObj(b).Key()
				for _, n := range nils[c.P.Label(f)] {
					if n.r.Fn == r.Fn && e.Gid == 0 && r.Kind == "task" {
						continue // the same task, in its own order
					}
					if taskRecvType(n.r) != taskRecvType(r) && r.Kind == "task" && by[c.P.Label(f)][r] {
						continue
					}
					guarded := n.ok && s.aliveFor(e.Gid, own)
					for _, x := range s.h {
						if n.lk != "" && x.label == n.lk && x.owner == own {
							guarded = true // tested under the lock by c07, used under it
						}
					}
					// the value was found to be there
					if v, known := c.truthNil(o, e.Recv); known && !v {
						guarded = true // an optional part, tested before it is used
					}
					c.Check(guarded, "released-use", c.P.Label(f)+"/"+r.Name, func() string {
						return fmt.Sprintf("%s gives the object up; here it is used holding [%s] without having seen the owner alive in that section: %s\n%s", n.r.Name, holdStr(s.h), c.P.ShowEvent(e), c.P.ShowTrace(o))
					})
				}
			})
		}
	}
	c.Min("released-use", 4)
}

func (c *Ctx) truthNil(o *Outcome, t *Term) (bool, bool) {
	switch nilness(o.State, t) {
	case 1:
		return true, true
	case 2:
		return false, true
	}
	return false, false
}

func fieldAddr(t *Term) (*Term, bool) {
	t = strip(t)
	return t, t != nil && t.K == KFieldA
}

func init() {
	register("C08", "Every close, send and release of every entry's paths is collected with the locks held, the Once that guards it and the live flag tested or cleared in that lock section: channels are closed by one task once (or under one Once), senders other than the closer must have seen the owner alive under the lock whose exclusive holder clears the flag and closes, operations that find their owner closed return an error and queue nothing, and objects given up at the end are not used by others.",
		Rule{"close-once", "every channel of an object is closed at most once", c08CloseOnce},
		Rule{"sends", "no send can meet a closed channel", c08Sends},
		Rule{"errors", "operations that find the object closed fail and queue nothing", c08Errors},
		Rule{"released", "synchronisation hubs, state machines, channels and tables given up at the end are used by their task or under the lock with the owner alive", c08Released},
		Rule{"entries-while-open", "nothing is entered into a table any more after the end of its object has gone through it", c08Entries},
	)
}

// c08Entries: nothing is entered any more into a table that the end of its object has emptied
func c08Entries(c *Ctx) {
	owners := map[string]string{} // table -> lock of the section in which the object ends and goes through it
	ends := map[string]map[*Root]bool{}
	inTasks := true
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.sectionWalk(o, func(i int, e *Event, s section) {
				if e.Kind != EvMapRange {
					return
				}
				for _, x := range s.h {
					if x.mode == "L" && x.owner == ownerOf(e.Recv) && s.dead[fmt.Sprint(e.Gid, x.key)] {
						l := c.P.chanLabel(e.Recv)
						owners[l] = x.label
						if ends[l] == nil {
							ends[l] = map[*Root]bool{}
						}
						ends[l][r] = true
						inTasks = inTasks && r.Kind == "task"
					}
				}
			})
		}
	}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.sectionWalk(o, func(i int, e *Event, s section) {
				if e.Kind != EvMapSet {
					return
				}
				l := c.P.chanLabel(e.Recv)
				if owners[l] == "" || ends[l][r] && inTasks && e.Gid == 0 {
					return
				}
				if _, b := fieldOf(e.Recv); b == nil || rootObj(b).K == KAlloc {
					return // not shared yet
				}
				c.Check(s.aliveFor(e.Gid, ownerOf(e.Recv)), "entered-while-open", l+"/"+r.Name, func() string {
					return fmt.Sprintf("an entry is made and the object may have ended and gone through its entries already: held [%s]\n%s", holdStr(s.h), c.P.ShowTrace(o))
				})
			})
		}
	}
	c.Min("entered-while-open", 2)
}
