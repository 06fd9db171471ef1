package main

import (
	"go/types"
	"strings"
)

// C22: deadlines of the raw operations. The operations that may block, the place where
// they wait to be woken, the field that keeps the deadline and the lock that orders both
// are taken from the code; the rules are about what a path knows at each of them.

type dlKind struct {
	name  string
	op    *Root
	sets  []*Root
	dl    *types.Var // the deadline
	cont  *types.Var // where a waiting operation leaves the channel it is woken by
	lock  string
	inner []*Event
}

func isNow(t *Term) bool {
	t = strip(t)
	return t != nil && (t.K == KCall || t.K == KPure) && t.Op == "time.Now"
}

func timeOp(t *Term, name string) []*Term {
	if t == nil || t.K != KPure && t.K != KCall || len(t.A) == 0 {
		return nil
	}
	if t.Op == "(time.Time)."+name || t.Op == "time."+name {
		return t.A
	}
	return nil
}

// whenOn: what a path found out about a point in time: may it be zero, past, to come
func whenOn(ev []*Event, isT func(*Term) bool) (zero, past, future bool) {
	zero, past, future = true, true, true
	keep := func(z, p, f bool) { zero, past, future = zero && z, past && p, future && f }
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil {
			continue
		}
		if a := timeOp(t, "IsZero"); a != nil && isT(a[0]) {
			keep(v, !v, !v)
			continue
		}
		if a := timeOp(t, "Equal"); len(a) > 1 && (isT(a[0]) && zeroTime(a[1]) || isT(a[1]) && zeroTime(a[0])) {
			keep(v, !v, !v)
			continue
		}
		later := func(v bool) { // t is later than now, which is later than at the last look
			if !v {
				past, future = past || future, false
				return
			}
			keep(false, false, true)
		}
		if a := timeOp(t, "Before"); len(a) > 1 {
			if isNow(a[0]) && isT(a[1]) {
				later(v)
			} else if isT(a[0]) && isNow(a[1]) {
				later(!v)
			}
			continue
		}
		if a := timeOp(t, "After"); len(a) > 1 {
			if isNow(a[0]) && isT(a[1]) {
				later(!v)
			} else if isT(a[0]) && isNow(a[1]) {
				later(v)
			}
			continue
		}
		if t.K != KBin {
			continue
		}
		left := func(x *Term) bool { return isUntil(x, isT) }
		switch n0, c0 := t.A[0].constInt(); {
		case c0 && n0 == 0 && left(t.A[1]):
			switch t.Op {
			case "<":
				later(v)
			case ">=":
				later(!v)
			case "<=", ">":
				later(v == (t.Op == "<="))
			}
		default:
			if n1, c1 := t.A[1].constInt(); c1 && n1 == 0 && left(t.A[0]) {
				switch t.Op {
				case ">", ">=":
					later(v)
				case "<=", "<":
					later(!v)
				}
			}
		}
	}
	return
}

// isUntil: the time left until t
func isUntil(x *Term, isT func(*Term) bool) bool {
	return exact(x, func(x *Term) bool {
		x = strip(x)
		if a := timeOp(x, "Until"); a != nil {
			return isT(a[0])
		}
		a := timeOp(x, "Sub")
		return len(a) > 1 && isT(a[0]) && isNow(a[1])
	})
}

// leaves: the event leaves a channel made on the path in a container of the object
func leavesIn(e *Event) (cont *types.Var, ch *Term) {
	mine := func(t *Term) *Term {
		t = strip(t)
		if t != nil && t.K == KMake && t.T != nil && isChanT(t.T) {
			return t
		}
		return nil
	}
	switch e.Kind {
	case EvCall:
		if e.Fn == nil || e.Fn.Pkg == nil || e.Fn.Pkg.Pkg.Path() != "container/list" || len(e.Args) < 2 {
			return nil, nil
		}
		if n := e.Fn.Name(); !strings.HasPrefix(n, "Push") && !strings.HasPrefix(n, "Insert") {
			return nil, nil
		}
		cont, _ = fieldOf(e.Args[0])
		return cont, mine(e.Args[1])
	case EvMapSet:
		cont, _ = fieldOf(e.Recv)
		for _, a := range e.Args {
			if m := mine(a); m != nil {
				return cont, m
			}
		}
	case EvStore:
		if e.Op == "local" || len(e.Args) == 0 {
			return nil, nil
		}
		t := strip(e.Args[0])
		if t.K != KAppend || len(t.A) < 2 {
			return nil, nil
		}
		cont, _ = fieldOf(e.Recv)
		el, _ := Elems(e.Heap, t.A[1])
		for _, a := range el {
			if m := mine(a); m != nil {
				return cont, m
			}
		}
	}
	return nil, nil
}

// sections numbers the exclusive sections of a lock along a path, 0 is outside
func (c *Ctx) sections(ev []*Event, label string) []int {
	r := make([]int, len(ev))
	n, in := 0, false
	for i, e := range ev {
		if e.Kind == EvLock && c.P.chanLabel(e.Recv) == label {
			switch e.Op {
			case "Lock":
				n++
				in = true
			case "Unlock":
				in = false
			}
		}
		if in {
			r[i] = n
		}
	}
	return r
}

func ofField(f *types.Var) func(*Term) bool {
	return func(t *Term) bool {
		if t = strip(t); t != nil && t.K == KSnap {
			t = t.A[0]
		}
		v, _ := fieldOf(t)
		return v == f && v != nil
	}
}

func mentions(t *Term, f *types.Var) bool {
	return anyTerm(t, func(x *Term) bool {
		return (x.K == KFieldA || x.K == KField) && x.Obj == types.Object(f)
	})
}

func (c *Ctx) dlKinds() (r []*dlKind) {
	read := &dlKind{name: "read"}
	write := &dlKind{name: "write"}
	for _, x := range c.Roots() {
		if x.Kind != "api" || c.P.rel(x.Fn) != "application" || x.Fn.Signature.Recv() == nil {
			continue
		}
		switch x.Fn.Name() {
		case "Read":
			read.op = x
		case "Write":
			write.op = x
		case "SetReadDeadline":
			read.sets = append([]*Root{x}, read.sets...)
		case "SetWriteDeadline":
			write.sets = append([]*Root{x}, write.sets...)
		case "SetDeadline":
			read.sets = append(read.sets, x)
			write.sets = append(write.sets, x)
		}
	}
	for _, k := range []*dlKind{read, write} {
		if k.op == nil || len(k.sets) != 2 {
			c.Undecided("anchor", k.name, "the raw operations are not found")
			continue
		}
		// the deadline is what setting it stores
		t := k.sets[0].Fn.Params[1]
		for _, o := range c.root(k.sets[0]) {
			for _, e := range o.Events {
				if v, _ := fieldOf(e.Recv); e.Kind == EvStore && v != nil && namedIs(v.Type(), "time", "Time") && len(e.Args) > 0 && isParamVal(e.Args[0], &Term{K: KParam, Op: t.Name(), T: t.Type()}) {
					k.dl = v
				}
			}
		}
		for _, o := range c.root(k.op) {
			c.lockWalk(o, func(e *Event, h []hold) {
				if cont, ch := leavesIn(e); cont != nil && ch != nil {
					k.cont = cont
					for _, x := range h {
						if x.mode == "L" {
							k.lock = x.label
						}
					}
				}
			})
		}
		if k.dl == nil {
			c.Check(false, "deadline-kept", k.sets[0].Name, func() string { return "the deadline is not kept" })
			continue
		}
		if k.cont == nil || k.lock == "" {
			c.Check(false, "wakeable", k.op.Name, func() string {
				return "the operation waits nowhere to be woken by its deadline (or without any lock)"
			})
			continue
		}
		r = append(r, k)
	}
	return
}

// c22Ops: an operation that blocks has seen that its deadline has not passed and can be
// woken from then on; what it returns
func c22Ops(c *Ctx) {
	for _, k := range c.dlKinds() {
		for _, o := range c.root(k.op) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			sec := c.sections(o.Events, k.lock)
			left := map[string]int{}
			woken, moved := false, false
			firstReg := len(o.Events)
			for i, e := range o.Events {
				if cont, ch := leavesIn(e); cont == k.cont && ch != nil {
					left[ch.Key()] = i
					if i < firstReg {
						firstReg = i
					}
					from := i
					for from > 0 && sec[from-1] == sec[i] {
						from--
					}
					_, past, _ := whenOn(o.Events[from:i], ofField(k.dl))
					c.Check(sec[i] != 0 && !past, "checked-then-left", k.op.Name, show("the operation starts to wait without having seen, in the same section of "+k.lock+", that the deadline has not passed"))
				}
				if e.Kind != EvSend && e.Kind != EvRecv || e.Gid != 0 {
					continue
				}
				_, own := left[strip(e.Recv).Key()]
				if own {
					woken = true
				} else {
					moved = true
				}
				if !e.Blocking {
					continue
				}
				ok := own
				for _, a := range e.Alts {
					if _, is := left[strip(a.Recv).Key()]; is && a.Kind == EvRecv {
						ok = true
					}
				}
				c.Check(ok, "wakeable", k.op.Name, show("the operation blocks where its deadline does not wake it: "+c.P.ShowEvent(e)))
			}
			if o.Kind != "return" || len(o.Rets) == 0 {
				continue
			}
			zero, _, future := whenOn(o.Events, ofField(k.dl))
			known := !zero && !future
			ret := o.Rets[len(o.Rets)-1]
			isDl := hasGlobal(ret, "ErrDeadlineExceeded")
			if woken || known && !moved {
				c.Check(isDl, "deadline-error", k.op.Name, show("the deadline has passed and the operation returns "+c.P.Show(ret)))
			}
			if isDl {
				c.Check(woken || c.seenPast(o.Events, k), "only-when-passed", k.op.Name, show("the operation fails with the deadline error although the deadline has not passed"))
				c.Check(!moved, "only-when-passed", k.op.Name, show("the operation took effect and fails with the deadline error"))
			}
			if isDl && k.name == "read" && !woken && firstReg == len(o.Events) && !c.seenOpen(o.Events, k) {
				tried, kept := false, false
				for _, e := range o.Events {
					if e.Kind == EvDefault {
						for _, a := range e.Alts {
							tried = tried || a.Kind == EvRecv
						}
					}
					if e.Kind != EvAssume {
						continue
					}
					t, v := norm(e.Cond, e.Val)
					rest := t != nil && anyTerm(t, func(x *Term) bool {
						v, _ := fieldOf(x)
						if v == nil {
							return false
						}
						sl, is := v.Type().Underlying().(*types.Slice)
						return is && types.Identical(sl.Elem(), types.Typ[types.Byte])
					})
					switch {
					case !rest || t.K != KBin:
					case nilCmp(t) != nil:
						kept = kept || v == (t.Op == "==")
					default:
						kept = kept || emptyLen(t, v)
					}
				}
				c.Check(tried, "received-first", k.op.Name, show("a read started after its deadline does not look for data already received"))
				c.Check(kept, "received-first", k.op.Name, show("a read started after its deadline does not look for the rest of the data already read"))
			}
		}
	}
	c.Min("wakeable", 2)
	c.Min("checked-then-left", 2)
	c.Min("deadline-error", 2)
	c.Min("only-when-passed", 2)
	c.Min("received-first", 1)
}

// looks: what each look at the deadline, in a section of its own, showed
func looks(ev []*Event, k *dlKind, f func(zero, past, future bool)) {
	from := 0
	for i, e := range ev {
		if e.Kind == EvLock && strings.HasSuffix(e.Op, "Lock") && !strings.HasSuffix(e.Op, "Unlock") {
			from = i
		}
		if e.Kind == EvAssume && mentions(e.Cond, k.dl) {
			f(whenOn(ev[from:i+1], ofField(k.dl)))
		}
	}
}

// seenPast: a look at the deadline showed that it has passed
func (c *Ctx) seenPast(ev []*Event, k *dlKind) (r bool) {
	looks(ev, k, func(zero, past, future bool) { r = r || past && !zero && !future })
	return
}

// seenOpen: a look at the deadline showed that it has not passed
func (c *Ctx) seenOpen(ev []*Event, k *dlKind) (r bool) {
	looks(ev, k, func(zero, past, future bool) { r = r || !past })
	return
}

// woke: the path woke every waiting operation; at: where it woke one; bad tells what is wrong with how it did
func (c *Ctx) woke(ev []*Event, k *dlKind) (all bool, at []int, bad string) {
	var list *types.Var // the list walked last
	of := func(t *Term) bool {
		return mentions(t, k.cont) || list == k.cont && anyTerm(t, func(x *Term) bool { return x.K == KHavoc })
	}
	cleared := false
	type closed struct {
		ch   *Term
		gone bool
	}
	var ch []*closed
	var open []*Term // found waiting, not woken yet
	for i, e := range ev {
		switch e.Kind {
		case EvClose:
			if !of(e.Recv) {
				continue
			}
			at = append(at, i)
			ch = append(ch, &closed{ch: e.Recv})
			for j, x := range open {
				if contains(e.Recv, x) {
					open = append(open[:j:j], open[j+1:]...)
					break
				}
			}
		case EvStore:
			if e.Op != "local" && ofField(k.cont)(e.Recv) {
				cleared = true
			}
		case EvMapDel:
			if ofField(k.cont)(e.Recv) {
				cleared = true
			}
		case EvMapRange:
			if mentions(e.Recv, k.cont) {
				all = true
			}
		case EvCall:
			if e.Fn == nil || e.Fn.Pkg == nil || e.Fn.Pkg.Pkg.Path() != "container/list" || len(e.Args) == 0 {
				continue
			}
			if f, _ := fieldOf(e.Args[0]); f != nil {
				list = f
			}
			if list != k.cont {
				continue
			}
			switch e.Fn.Name() {
			case "Init":
				cleared = true
			case "Remove":
				for _, x := range ch {
					if len(e.Args) > 1 && contains(x.ch, e.Args[1]) {
						x.gone = true
					}
				}
				// removed before it is woken
				if len(e.Args) > 1 {
					for _, f := range ev[i:] {
						if f.Kind == EvClose && contains(f.Recv, e.Args[1]) {
							ch = append(ch, &closed{ch: f.Recv, gone: true})
						}
					}
				}
			}
		case EvAssume:
			t, v := norm(e.Cond, e.Val)
			if t == nil || !of(t) {
				continue
			}
			if x := nilCmp(t); x != nil {
				all = v == (t.Op == "==")
				if !all {
					open = append(open, x)
				}
			} else if t.K == KBin && anyTerm(t, func(y *Term) bool { return y.K == KLen || strings.HasSuffix(y.Op, ".Len") }) {
				all = emptyLen(t, v)
			}
		}
	}
	if len(open) > 0 {
		bad = "a waiting operation is passed over: " + c.P.Show(open[0])
	}
	for _, x := range ch {
		gone := cleared || x.gone
		for _, y := range ch {
			gone = gone || y.gone && y.ch.Key() == x.ch.Key()
		}
		if !gone {
			bad = "a woken operation stays among the waiting ones and is woken again (a closed channel is closed)"
		}
	}
	return
}

// emptyLen: a comparison with a length says that nothing is left
func emptyLen(t *Term, v bool) bool {
	op := t.Op
	n, is := t.A[1].constInt()
	if !is {
		if n, is = t.A[0].constInt(); !is {
			return true // the index of a loop
		}
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		if op == "" {
			op = t.Op
		}
	}
	switch op {
	case "==":
		return v && n == 0
	case "!=", ">":
		return !v && n == 0
	case ">=":
		return !v && n == 1
	case "<=":
		return v && n == 0
	case "<":
		return v && n == 1
	}
	return false
}

func nilClosed(o *Outcome) bool {
	for _, e := range o.Events {
		if e.Kind == EvClose && e.Recv.isNilConst() {
			return true
		}
	}
	return false
}

// c22Set: setting a deadline
func c22Set(c *Ctx) {
	for _, k := range c.dlKinds() {
		for _, r := range k.sets {
			p := r.Fn.Params[1]
			param := &Term{K: KParam, Op: p.Name(), T: p.Type()}
			isT := func(x *Term) bool { return isParamVal(x, param) }
			name := r.Name + "/" + k.name
			seen := map[*Event]bool{}
			for _, o := range c.root(r) {
				if o.Kind != "return" || nilClosed(o) {
					continue
				}
				show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
				sec := c.sections(o.Events, k.lock)
				var stored *Term
				var in []int
				for i, e := range o.Events {
					if e.Kind == EvStore && ofField(k.dl)(e.Recv) {
						stored = e.Args[0]
						in = append(in, sec[i])
					}
				}
				if !c.Check(stored != nil && isT(stored), "deadline-kept", name, show("the deadline becomes "+c.P.Show(stored))) {
					continue
				}
				all, at, bad := c.woke(o.Events, k)
				some := len(at) > 0
				for _, i := range at {
					in = append(in, sec[i])
				}
				c.Check(bad == "", "wakes-each", name, show(bad))
				// the timer of this deadline: the one whose callback wakes these operations
				n := 0
				for i, e := range o.Events {
					cb := timerCallback(e)
					if cb == nil {
						continue
					}
					outs := c.resume(cb, o.Heap, name)
					mine := false
					for _, x := range outs {
						for _, f := range x.Events {
							mine = mine || mentions(f.Recv, k.cont) || mentions(f.Recv, k.dl) && f.Kind == EvStore
							for _, a := range f.Args {
								mine = mine || mentions(a, k.cont)
							}
						}
					}
					if !mine {
						continue
					}
					n++
					in = append(in, sec[i])
					c.Check(timerUntil(e, isT), "timer", name, show("the timer does not end at the deadline: "+c.P.ShowEvent(e)))
					if isRegister(e) {
						key := hubKey(e)
						c.Check(freshKey(key), "timer-of-its-own", name, show("the timer of one deadline can end a later one, both are known as "+c.P.Show(key)))
					}
					if !seen[e] {
						seen[e] = true
						c.c22Timeout(k, r, name, o, e, outs)
					}
				}
				// at one moment of the section the path knows enough of the time to do what it does
				why, which := "", ""
				for i := 0; i <= len(o.Events); i++ {
					if i < len(o.Events) && o.Events[i].Kind != EvAssume {
						continue
					}
					zero, past, future := whenOn(o.Events[:i], isT)
					switch {
					case past && !all:
						which, why = "past-at-once", "the deadline may already have passed and the waiting operations are not woken"
					case some && (zero || future):
						which, why = "past-at-once", "the waiting operations are woken although the deadline may not have passed"
					case future && n != 1:
						which, why = "timer", "the deadline may be still to come and nothing wakes the operations then"
					case n > 0 && (past || zero):
						which, why = "timer", "a timer is started although the deadline may be zero or have passed"
					default:
						which = ""
					}
					if which == "" {
						break
					}
				}
				c.Check(which != "past-at-once", "past-at-once", name, show(why))
				c.Check(which != "timer", "timer", name, show(why))
				ok := true
				for _, s := range in {
					ok = ok && s != 0 && s == in[0]
				}
				c.Check(ok, "set-at-once", name, show("the deadline, its timer and the waking of the operations are not one section of "+k.lock))
			}
		}
	}
	c.Min("deadline-kept", 4)
	c.Min("past-at-once", 4)
	c.Min("timer", 4)
	c.Min("set-at-once", 4)
	c.Min("timeout-wakes", 4)
	c.Min("stale-timer", 4)
	c.Min("stays-passed", 4)
}

func timerCallback(e *Event) *Term {
	if isRegister(e) {
		return callbackOf(e)
	}
	if e.Kind == EvCall && strings.HasSuffix(e.Op, "time.AfterFunc") && len(e.Args) > 1 {
		if f := strip(e.Args[1]); f.K == KClosure || f.K == KFunc {
			return f
		}
	}
	return nil
}

func timerUntil(e *Event, isT func(*Term) bool) bool {
	if !isRegister(e) {
		return isUntil(e.Args[0], isT)
	}
	opts, known := hubOpts(e, "WithTimeout")
	return known && len(opts) == 1 && isUntil(opts[0], isT)
}

// freshKey: no other registration has this key
func freshKey(k *Term) bool {
	k = strip(k)
	if k == nil {
		return false
	}
	return k.K == KAlloc && !zeroSize(k.T) || k.K == KCall && k.ID != 0 && !strings.HasPrefix(k.Op, "fmt.")
}

// c22Timeout: what the end of the timer does
func (c *Ctx) c22Timeout(k *dlKind, r *Root, name string, set *Outcome, reg *Event, outs []*Outcome) {
	final := func(f *types.Var) *Term {
		var v *Term
		for _, e := range set.Events {
			if e.Kind == EvStore && len(e.Args) > 0 && ofField(f)(e.Recv) {
				v = e.Args[0]
			}
		}
		return v
	}
	for _, o := range outs {
		if o.Kind != "return" || nilClosed(o) {
			continue
		}
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		sec := c.sections(o.Events, k.lock)
		tmo, known := true, true
		if isRegister(reg) {
			tmo, known = boolOn(o.Events, func(x *Term) bool {
				return x.K == KBin && x.Op == "==" && hasGlobal(x, "ErrSyncTimeout") || x.K == KPure && x.Op == "errors.Is" && hasGlobal(x, "ErrSyncTimeout")
			})
			if ne, ok := boolOn(o.Events, func(x *Term) bool { return x.K == KBin && x.Op == "!=" && hasGlobal(x, "ErrSyncTimeout") }); ok && !known {
				tmo, known = !ne, true
			}
		}
		all, woken, bad := c.woke(o.Events, k)
		some := len(woken) > 0
		c.Check(bad == "", "wakes-each", name, show(bad))
		var stored *Term
		at := 0
		ok := true
		touch := func(i int) {
			if !ok {
				return
			}
			if at == 0 {
				at = sec[i]
			}
			ok = ok && sec[i] != 0 && sec[i] == at
		}
		// is it the timer of the current deadline?
		cur, ck := false, false
		for i, e := range o.Events {
			switch {
			case e.Kind == EvStore && ofField(k.dl)(e.Recv):
				stored = e.Args[0]
				touch(i)
			case e.Kind == EvAssume:
				t, v := norm(e.Cond, e.Val)
				var a, b *Term
				eq := v
				if t != nil && t.K == KBin && (t.Op == "==" || t.Op == "!=") {
					a, b = t.A[0], t.A[1]
					eq = v == (t.Op == "==")
				} else if x := timeOp(t, "Equal"); len(x) > 1 {
					a, b = x[0], x[1]
				}
				for j := 0; j < 2 && a != nil; j++ {
					f, _ := fieldOf(a)
					if s := final(f); f != nil && s != nil && same(s, b) {
						cur, ck = eq, true
						touch(i)
					}
					a, b = b, a
				}
			}
		}
		for _, i := range woken {
			touch(i)
		}
		zero, past, future := whenOn(o.Events, ofField(k.dl))
		over := past && !zero && !future
		open := !past
		if some || stored != nil {
			c.Check(tmo && known, "stale-timer", name, show("the deadline ends although its timer did not"))
			c.Check(ck && cur || over, "stale-timer", name, show("the timer of an earlier deadline ends the current one"))
			c.Check(ok, "stale-timer", name, show("whether the timer is still that of the deadline is not decided in one section of "+k.lock))
		}
		if known && !tmo || ck && !cur {
			continue
		}
		again := false
		if open {
			for _, e := range o.Events {
				again = again || timerCallback(e) != nil
			}
		}
		c.Check(all || again, "timeout-wakes", name, show("the deadline passes and the waiting operations are not woken"))
		if all && !over && isRegister(reg) {
			c.Check(stored != nil && isNow(stored), "stays-passed", name, show("the timer may be early: the waiting operations are woken and one that starts now blocks for ever"))
		} else {
			c.Check(true, "stays-passed", name, show(""))
		}
	}
}

func init() {
	register("C22", "The raw operations, the functions that set their deadlines and the callbacks of the deadline timers are executed on every path. The deadline field, the set of waiting operations and the lock are taken from the code. Decided per path: an operation that blocks has registered to be woken in the same exclusive section in which it saw that its deadline has not passed; setting a deadline, waking and starting its timer is one section, wakes everybody for a deadline already past, nobody for one to come or none, and bounds the timer by the very time left; the timer's callback acts only for the current deadline, wakes everybody and leaves the deadline passed; the error is the deadline error exactly then; and a read started after its deadline first takes what was received.",
		Rule{"operations", "a blocking raw operation is woken by its deadline, fails with the deadline error exactly then, and an elapsed read deadline hides no received data", c22Ops},
		Rule{"setting", "setting a deadline replaces the old one, takes effect at once and on the waiting operations, and its timer ends just that deadline", c22Set},
	)
}

// zeroSize: objects of the type may all have the same address
func zeroSize(t types.Type) bool {
	if t == nil {
		return true
	}
	return types.SizesFor("gc", "amd64").Sizeof(deref(t)) == 0
}
