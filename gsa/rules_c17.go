package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: the end that reconnects.

type retryEnd struct {
	typ    *types.Named
	end    *types.Var // the current end
	open   *types.Var // whether the retrying end is open
	closed int64      // its value once it is closed
	roots  map[string]*Root
	end0   *types.Interface
}

// atomicOp: an atomic operation on a field
func atomicOp(e *Event) (op string, f *types.Var, args []*Term) {
	if e.Kind != EvCall || e.Meth != nil {
		return "", nil, nil
	}
	n := e.Op
	i := strings.LastIndex(n, ".")
	if i < 0 || !strings.Contains(n, "atomic.") || len(e.Args) == 0 {
		return "", nil, nil
	}
	op = n[i+1:]
	for _, s := range []string{"Load", "Store", "Swap", "CompareAndSwap", "Add"} {
		if strings.HasPrefix(op, s) {
			v, _ := fieldOf(e.Args[0])
			return s, v, e.Args[1:]
		}
	}
	return "", nil, nil
}

// atomicLoad: the field whose value the term is, loaded atomically
func atomicLoad(t *Term) *types.Var {
	t = strip(t)
	if t == nil || t.K != KCall || len(t.A) == 0 || !strings.Contains(t.Op, "atomic.") {
		return nil
	}
	i := strings.LastIndex(t.Op, ".")
	if !strings.HasPrefix(t.Op[i+1:], "Load") {
		return nil
	}
	v, _ := fieldOf(t.A[0])
	return v
}

// ofEnd: the end to whose part a method is applied
func ofEnd(t *Term) *Term {
	for t != nil {
		t = strip(t)
		if t == nil || len(t.A) == 0 {
			return t
		}
		switch t.K {
		case KLoad, KFieldA, KField, KSnap, KConv, KIface:
			t = t.A[0]
			continue
		}
		return t
	}
	return nil
}

func (c *Ctx) retrying() []*retryEnd {
	var res []*retryEnd
	pkg := c.P.TPkgs["client"]
	root := c.P.TPkgs[""]
	if pkg == nil || root == nil {
		return nil
	}
	obj := root.Scope().Lookup("End")
	if obj == nil {
		return nil
	}
	iface, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, name := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(n) || !types.Implements(types.NewPointer(n), iface) {
			continue
		}
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, pkg, "ConnOffline"); o == nil {
			continue
		}
		re := &retryEnd{typ: n, roots: map[string]*Root{}, end0: iface}
		for _, r := range c.Roots() {
			if recv := r.Fn.Signature.Recv(); recv != nil && r.Kind != "task" && deref(recv.Type()) == types.Type(n) {
				re.roots[r.Fn.Name()] = r
			}
		}
		if cl := re.roots["Close"]; cl != nil {
			for _, o := range c.root(cl) {
				for _, e := range o.Events {
					op, f, args := atomicOp(e)
					if op == "Store" || op == "Swap" || op == "CompareAndSwap" {
						v := args[len(args)-1]
						if k, is := v.constInt(); is && f != nil {
							re.open, re.closed = f, k
						} else if b, is := v.constBool(); is && f != nil {
							re.open, re.closed = f, 0
							if b {
								re.closed = 1
							}
						}
					}
				}
			}
		}
		if call := re.roots["Call"]; call != nil {
			for _, o := range c.root(call) {
				for _, e := range o.Events {
					if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "Call" {
						if f := atomicLoad(ofEnd(e.Recv)); f != nil {
							re.end = f
						}
					}
				}
			}
		}
		res = append(res, re)
	}
	return res
}

// isOpen: what a part of a path knows about the retrying end, when it looked last
func (re *retryEnd) isOpen(o *Outcome, from, to int) (open, known bool) {
	for i := from; i < to && i < len(o.Events); i++ {
		e := o.Events[i]
		op, f, _ := atomicOp(e)
		if op != "Load" || f != re.open {
			continue
		}
		for _, a := range o.Events[i:] {
			if a.Kind != EvAssume {
				continue
			}
			t, v := norm(a.Cond, a.Val)
			if t == nil {
				continue
			}
			if strip(t).Key() == e.Res.Key() {
				open, known = v != (re.closed == 1), true
			}
			if t.K == KBin && (t.Op == "==" || t.Op == "!=") {
				x, k := t.A[0], t.A[1]
				if strip(x).Key() != e.Res.Key() {
					x, k = k, x
				}
				n, is := k.constInt()
				if strip(x).Key() != e.Res.Key() || !is {
					continue
				}
				eq := v == (t.Op == "==")
				if n == re.closed {
					open, known = !eq, true
				} else {
					open, known = eq, true
				}
			}
		}
	}
	return
}

// creates: a new end is made
func (re *retryEnd) creates(e *Event) bool {
	if e.Kind != EvCall || e.Meth != nil || e.Res == nil {
		return false
	}
	r0, r1 := tupleEl(strip(e.Res), 0), tupleEl(strip(e.Res), 1)
	if e.Res.K != KTuple && !isTupleT(e.Res.T) || r0.T == nil || r1.T == nil || !isErrType(r1.T) {
		return false
	}
	if t := r0.T; !types.Implements(t, re.end0) && !types.Implements(types.NewPointer(t), re.end0) {
		return false
	}
	return !strings.Contains(e.Op, "RetryEnd") && strings.Contains(e.Op, "client.")
}

func el(t *Term, i int) func(x *Term) bool {
	want := tupleEl(strip(t), i)
	return func(x *Term) bool {
		x = strip(x)
		return x != nil && want != nil && x.Key() == strip(want).Key()
	}
}

func isTupleT(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	return ok && tp.Len() > 1
}

// resultOf: the i-th result of a call
func resultOf(e *Event, i int) func(x *Term) bool {
	if r := e.Res; r.K != KTuple && !isTupleT(r.T) {
		return func(x *Term) bool { return strip(x).Key() == strip(e.Res).Key() }
	}
	return el(e.Res, i)
}

func isEOF(t *Term) bool { return t != nil && hasGlobal(strip(t), "io.EOF") }

// isEOFOn: whether the path found the error to be EOF
func isEOFOn(ev []*Event, is func(*Term) bool) (val, known bool) {
	if v, ok := equalOn(ev, is, isEOF); ok {
		return v, ok
	}
	return boolOn(ev, func(x *Term) bool {
		return (x.K == KCall || x.K == KPure) && strings.HasSuffix(x.Op, "errors.Is") && len(x.A) == 2 && is(x.A[0]) && isEOF(x.A[1])
	})
}

// attempt: what became of an attempt to reconnect within a part of a path
type attempt struct {
	tried    bool // it was needed and made, or somebody else's was found
	shared   bool // somebody else has reconnected
	made     *Event
	failed   bool // the path knows of a failure
	complete bool
}

func (re *retryEnd) attempted(o *Outcome, from, to int) (a attempt) {
	ev := o.Events[from:to]
	for i, e := range ev {
		if re.creates(e) {
			a.tried, a.made = true, e
			if isnil, ok := isNilOn(ev, resultOf(e, 1)); ok && !isnil {
				a.failed = true
			}
			if open, ok := re.isOpen(o, from+i, to); ok && !open {
				a.failed = true
			}
			for _, f := range ev[i:] {
				if f.Kind == EvCall && f.Meth != nil && (f.Meth.Name() == "Hijack" || f.Meth.Name() == "Register") && el(e.Res, 0)(ofEnd(f.Recv)) {
					if isnil, ok := isNilOn(ev, resultOf(f, 0)); ok && !isnil {
						a.failed = true
					}
				}
			}
		}
	}
	if a.made == nil {
		if open, ok := re.isOpen(o, from, to); ok && !open {
			a.failed = true
		}
		// the current end is not the one that failed
		for i, e := range ev {
			if op, f, _ := atomicOp(e); op != "Load" || f != re.end {
				continue
			}
			eq, ok := equalOn(ev[i:], func(x *Term) bool { return strip(x).Key() == e.Res.Key() }, func(x *Term) bool {
				return atomicLoad(x) == re.end
			})
			if ok && !eq {
				a.tried, a.shared = true, true
			}
		}
	}
	return
}

// operations that need the connection
func (re *retryEnd) retried(m string, sig *types.Signature) bool {
	switch m {
	case "Close", "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		return false
	}
	n := sig.Results().Len()
	return n > 0 && isErrType(sig.Results().At(n-1).Type())
}

var sameOperation = map[string]string{"Accept": "AcceptStream", "Addr": "LocalAddr"}

func c17Operations(c *Ctx) {
	for _, re := range c.retrying() {
		nm := re.typ.Obj().Name()
		if !c.Check(re.end != nil && re.open != nil, "repeated", nm, func() string {
			return "undecided: the current end or the flag of the retrying end is not found"
		}) {
			continue
		}
		for i := 0; i < re.end0.NumMethods(); i++ {
			m := re.end0.Method(i)
			r := re.roots[m.Name()]
			if m.Name() == "Close" {
				continue
			}
			if !c.Check(r != nil, "forwarded", nm+"."+m.Name(), func() string { return "undecided: no such operation" }) {
				continue
			}
			re.operation(c, r, m)
		}
	}
	c.Min("repeated", 8)
	c.Min("forwarded", 15)
	c.Min("unchanged", 8)
	c.Min("closed-eof", 8)
}

func (re *retryEnd) operation(c *Ctx, r *Root, m *types.Func) {
	sig := m.Type().(*types.Signature)
	retried := re.retried(m.Name(), sig)
	nres := sig.Results().Len()
	hasErr := nres > 0 && isErrType(sig.Results().At(nres-1).Type())
	var params []*Term
	for _, o := range c.root(r) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		key := r.Name
		// the calls of the operation of the current end
		var calls []int
		for i, e := range o.Events {
			if e.Kind != EvCall || e.Meth == nil || e.Recv == nil {
				continue
			}
			if n := e.Meth.Name(); n != m.Name() && n != sameOperation[m.Name()] {
				continue
			}
			if atomicLoad(ofEnd(e.Recv)) == re.end {
				calls = append(calls, i)
			}
		}
		// the same arguments
		sameArgs := func(args []*Term) bool {
			if len(args) != sig.Params().Len() {
				return false
			}
			for i, a := range args {
				if !paramIs(a, r.Fn, i+1) {
					return false
				}
			}
			return true
		}
		for _, i := range calls {
			e := o.Events[i]
			c.Check(sameArgs(e.Args), "forwarded", key, show("the arguments are not those of the caller"))
			if open, known := re.isOpen(o, 0, i); retried || hasErr {
				c.Check(known && open, "closed-eof", key, show("the operation is tried although the end may have been closed"))
			}
		}
		// repetition by recursion
		var again *Event
		againAt := -1
		for i, e := range o.Events {
			if e.Kind != EvCall || e.Meth != nil || e.Fn == nil || e.Fn.Signature.Recv() == nil || len(calls) == 0 || i < calls[len(calls)-1] {
				continue
			}
			if deref(e.Fn.Signature.Recv().Type()) != types.Type(re.typ) {
				continue
			}
			if e.Fn == r.Fn {
				again, againAt = e, i
				c.Check(len(e.Args) > 0 && paramIs(e.Args[0], r.Fn, 0) && sameArgs(e.Args[1:]), "repeated", key, show("the operation is repeated with other arguments"))
				continue
			}
			for _, en := range o.Events[:i] {
				if en.Kind == EvEnter && en.Fn == e.Fn {
					again, againAt = e, i
					ok := len(en.Args) == len(e.Args)
					for j := range e.Args {
						ok = ok && same(en.Args[j], e.Args[j])
					}
					c.Check(ok, "repeated", key, show("the operation is repeated with other arguments"))
					break
				}
			}
		}
		_ = params
		if o.Kind != "return" && o.Kind != "iterate" {
			continue
		}
		var errT *Term
		if o.Kind == "return" && hasErr && len(o.Rets) > 0 {
			errT = o.Rets[len(o.Rets)-1]
		}
		if len(calls) == 0 {
			// closed
			if o.Kind != "return" {
				continue
			}
			if hasErr {
				open, known := re.isOpen(o, 0, len(o.Events))
				c.Check(known && !open, "forwarded", key, show("the operation is not tried"))
				c.Check(isEOF(errT), "closed-eof", key, show("a closed end returns "+c.P.Show(errT)))
			} else if nres > 0 {
				open, known := re.isOpen(o, 0, len(o.Events))
				nocur, k2 := isNilOn(o.Events, func(x *Term) bool { return atomicLoad(x) == re.end })
				got := len(o.Rets) == 1 && exact(o.Rets[0], func(x *Term) bool {
					return x.K == KPure && (x.Op == "get:"+m.Name() || x.Op == "get:"+sameOperation[m.Name()]) && len(x.A) == 1 && atomicLoad(ofEnd(x.A[0])) == re.end
				})
				c.Check(got || (known && !open || k2 && nocur) && len(o.Rets) == 1 && zeroTerm(o.Rets[0]), "forwarded", key, show("the operation is not tried"))
			}
			continue
		}
		last := o.Events[calls[len(calls)-1]]
		unchanged := func(e *Event) bool {
			for i, t := range o.Rets {
				i := i
				if !exact(t, func(x *Term) bool { return resultOf(e, i)(x) }) {
					return false
				}
			}
			return true
		}
		if !retried {
			if o.Kind == "return" {
				c.Check(unchanged(last), "unchanged", key, show("the result is not that of the current end"))
			}
			continue
		}
		// every earlier try failed and was followed by a reconnection
		for j, i := range calls {
			e := o.Events[i]
			to := len(o.Events)
			if j+1 < len(calls) {
				to = calls[j+1]
			}
			if againAt > i && againAt < to {
				to = againAt
			}
			lastTry := j+1 == len(calls)
			inner := resultOf(e, nres-1)
			isnil, knownNil := isNilOn(o.Events[i:], inner)
			eof, knownEOF := isEOFOn(o.Events[i:], inner)
			open, knownOpen := re.isOpen(o, i, to)
			at := re.attempted(o, i, to)
			lost := knownEOF && eof && !(knownNil && isnil)
			closedThen := knownOpen && !open
			repeats := !lastTry || again != nil || o.Kind == "iterate"
			if repeats {
				c.Check(lost, "repeated", key, show("the operation is repeated although it didn't fail with EOF"))
				c.Check(at.tried && !at.failed, "repeated", key, show("the operation is repeated without a new connection"))
				continue
			}
			switch {
			case knownNil && isnil || knownEOF && !eof:
				// succeeded, or failed otherwise
				ok := true
				for i, t := range o.Rets {
					i := i
					if i == nres-1 && knownNil && isnil && t.isNilConst() {
						continue
					}
					if i < nres-1 && !(knownNil && isnil) && zeroTerm(t) {
						continue
					}
					ok = ok && exact(t, func(x *Term) bool { return resultOf(e, i)(x) })
				}
				c.Check(ok, "unchanged", key, show("the result is not that of the current end"))
			case lost && closedThen && !at.tried:
				c.Check(isEOF(errT) || inner(errT), "closed-eof", key, show("a closed end returns "+c.P.Show(errT)))
			case lost && at.failed:
				nonnil := isEOF(errT) || errIsNonNil(o, errT)
				c.Check(nonnil, "repeated", key, show("neither a result nor an error"))
				if cl, ok := re.isOpen(o, i, to); ok && !cl {
					c.Check(isEOF(errT), "closed-eof", key, show("a closed end returns "+c.P.Show(errT)))
				}
			case lost:
				c.Check(false, "repeated", key, show("the operation failed with EOF and is not repeated"))
			case !knownEOF && closedThen:
				// closed meanwhile, EOF isn't of interest any more
				ok := isEOF(errT)
				if !ok {
					ok = true
					for i, t := range o.Rets {
						i := i
						ok = ok && (i < nres-1 && zeroTerm(t) && !(knownNil && isnil) || exact(t, func(x *Term) bool { return resultOf(e, i)(x) }))
					}
				}
				c.Check(ok, "unchanged", key, show("the result is not that of the current end"))
			default:
				// the path didn't look at the error
				c.Check(false, "repeated", key, show("the error of the operation is not looked at"))
			}
		}
		if again != nil && o.Kind == "return" {
			c.Check(unchanged(again), "unchanged", key, show("the result is not that of the repetition"))
		}
	}
	if retried {
		c.Check(true, "repeated", r.Name, nil)
	}
}

// paramIs: the term is the i-th parameter (0 is the receiver) of a function
func paramIs(t *Term, fn *ssa.Function, i int) bool {
	t = strip(t)
	if t == nil || t.K != KParam || i >= len(fn.Params) {
		return false
	}
	if i == 0 {
		return t.Op == "recv" || t.Op == fn.Params[0].Name()
	}
	return t.Op == fn.Params[i].Name()
}

func zeroTerm(t *Term) bool {
	t = strip(t)
	if t == nil || t.isNilConst() {
		return true
	}
	n, is := t.constInt()
	return is && n == 0
}

// lockedFrom: where the lock is taken that a part of a path holds at i
func lockedFrom(o *Outcome, i int) (from int, key string) {
	gid := o.Events[i].Gid
	depth := map[string]int{}
	for j := i - 1; j >= 0; j-- {
		e := o.Events[j]
		if e.Kind != EvLock || e.Gid != gid {
			continue
		}
		k := strip(e.Recv).Key()
		if strings.HasSuffix(e.Op, "Unlock") {
			depth[k]++
			continue
		}
		if e.Op == "Lock" {
			if depth[k] == 0 {
				return j, k
			}
		}
		depth[k]--
	}
	return -1, ""
}

// stored: where the new end becomes the current one
func (re *retryEnd) stored(o *Outcome, made *Event, from int) int {
	for i := from; i < len(o.Events); i++ {
		op, f, args := atomicOp(o.Events[i])
		if (op == "Store" || op == "Swap" || op == "CompareAndSwap") && f == re.end && exact(args[len(args)-1], el(made.Res, 0)) {
			return i
		}
	}
	return -1
}

// remembered: the fields that keep what is installed again
type remembered struct {
	hijack, hijackOpts *types.Var
	rpcs               map[string]bool
}

func c17Reconnect(c *Ctx) {
	for _, re := range c.retrying() {
		nm := re.typ.Obj().Name()
		if re.end == nil || re.open == nil {
			c.Check(false, "once", nm, func() string { return "undecided: the current end or the flag of the retrying end is not found" })
			continue
		}
		mem := &remembered{rpcs: map[string]bool{}}
		var names []string
		for n := range re.roots {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for _, o := range c.root(re.roots[n]) {
				re.reconnection(c, re.roots[n].Name, o, mem)
			}
		}
		if r := re.roots["ConnOffline"]; r != nil {
			re.offline(c, r, mem)
		}
		c.Check(re.roots["ConnOffline"] != nil, "without-operation", nm, func() string { return "undecided: no notification of a lost connection" })
		re.memory(c, mem)
		re.closing(c)
	}
	for _, r := range []string{"once", "not-after-close", "old-closed", "current", "hijacker-installed", "methods-installed", "reported-last", "without-operation", "remembered", "close"} {
		c.Min(r, 1)
	}
}

// reconnection: an attempt to reconnect
func (re *retryEnd) reconnection(c *Ctx, key string, o *Outcome, mem *remembered) {
	show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
	for i, e := range o.Events {
		if op, f, args := atomicOp(e); op != "" && op != "Load" && f == re.end {
			ok := false
			for _, m := range o.Events[:i] {
				ok = ok || re.creates(m) && exact(args[len(args)-1], el(m.Res, 0))
			}
			c.Check(ok, "current", key, show("the current end is replaced by something else than a new one"))
		}
		if !re.creates(e) {
			continue
		}
		// one at a time, and only if the current end is still the one that failed
		from, _ := lockedFrom(o, i)
		if !c.Check(from >= 0, "once", key, show("two failures may reconnect at the same time")) {
			continue
		}
		var old *Term
		for j := from; j < i; j++ {
			op, f, _ := atomicOp(o.Events[j])
			if op != "Load" || f != re.end {
				continue
			}
			cur := o.Events[j].Res
			eq, known := equalOn(o.Events[j:i], func(x *Term) bool { return strip(x).Key() == cur.Key() }, func(x *Term) bool {
				if atomicLoad(x) != re.end || strip(x).Key() == cur.Key() {
					return false
				}
				for k := 0; k < from; k++ {
					if r := o.Events[k].Res; r != nil && r.Key() == strip(x).Key() {
						old = strip(x)
						return true
					}
				}
				return false
			})
			if !(known && eq) {
				old = nil
			}
		}
		first := key != "" && !strings.Contains(key, "$") && len(o.Events) > 0 && re.isFirst(o, i)
		c.Check(old != nil || first, "once", key, show("a connection is made although somebody else may have reconnected"))
		if old != nil {
			// what failed is what the operation used
			for _, k := range o.Events[:from] {
				if k.Kind == EvCall && k.Meth != nil && k.Recv != nil {
					if t := ofEnd(k.Recv); atomicLoad(t) == re.end {
						c.Check(t.Key() == old.Key(), "once", key, show("the end compared is not the one that failed"))
					}
				}
			}
			closedOld := false
			for _, k := range o.Events[:i] {
				if k.Kind == EvCall && k.Meth != nil && k.Meth.Name() == "Close" && k.Recv != nil {
					if t := ofEnd(k.Recv); t != nil && atomicLoad(t) == re.end {
						eq := t.Key() == old.Key()
						x, ok := equalOn(o.Events[from:i], func(y *Term) bool { return strip(y).Key() == t.Key() }, func(y *Term) bool { return strip(y).Key() == old.Key() })
						closedOld = closedOld || eq || ok && x
					}
				}
			}
			isOld := func(x *Term) bool {
				if atomicLoad(x) != re.end {
					return false
				}
				eq, ok := equalOn(o.Events[from:i], func(y *Term) bool { return strip(y).Key() == strip(x).Key() }, func(y *Term) bool { return strip(y).Key() == old.Key() })
				return strip(x).Key() == old.Key() || ok && eq
			}
			if isnil, ok := isNilOn(o.Events[from:i], isOld); !ok || !isnil {
				c.Check(closedOld, "old-closed", key, show("the old end is not closed"))
			}
			open, known := re.isOpen(o, from, i)
			c.Check(known && open, "not-after-close", key, show("a connection is made although the end may have been closed"))
		}
		to := len(o.Events)
		for j := i + 1; j < len(o.Events); j++ {
			if re.creates(o.Events[j]) {
				to = j
			}
		}
		isnil, known := isNilOn(o.Events[i:to], resultOf(e, 1))
		if !known {
			c.Check(false, "current", key, show("the new end is used although there may be none"))
			continue
		}
		at := re.stored(o, e, i)
		if !isnil {
			c.Check(at < 0, "current", key, show("a failed attempt replaces the current end"))
			continue
		}
		if !c.Check(at >= 0, "current", key, show("the new end doesn't become the current one")) {
			continue
		}
		if from2, _ := lockedFrom(o, at); old != nil {
			c.Check(from2 == from, "once", key, show("the new end becomes the current one outside of the section"))
		}
		if old == nil {
			continue
		}
		end := at
		for end < to {
			if f, _ := lockedFrom(o, end); f != from {
				break
			}
			end++
		}
		open, known := re.isOpen(o, at, end)
		if !c.Check(known, "not-after-close", key, show("the end may have been closed before the new end became the current one, which nobody closes then")) {
			continue
		}
		if !open {
			n := 0
			for _, f := range o.Events[at:to] {
				if f.Kind == EvCall && f.Meth != nil && f.Meth.Name() == "Close" && el(e.Res, 0)(ofEnd(f.Recv)) {
					n++
				}
			}
			c.Check(n > 0, "not-after-close", key, show("the connection made while the end was closed is kept"))
			continue
		}
		re.installed(c, key, o, i, at, end, mem)
	}
}

// isFirst: the new end is the first one, nobody else can know the retrying end
func (re *retryEnd) isFirst(o *Outcome, i int) bool {
	e := o.Events[i]
	return len(e.Args) > 0 && !anyTerm(e.Args[0], func(t *Term) bool {
		return t.K == KParam && t.Op == "recv" || t.K == KParam && strings.HasPrefix(t.Op, "the ")
	})
}

// installed: what is done with a new end before it is reported
func (re *retryEnd) installed(c *Ctx, key string, o *Outcome, i, at, to int, mem *remembered) {
	show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
	e := o.Events[i]
	isNew := el(e.Res, 0)
	reported := -1
	failed := false
	hijacked := false
	var installs []*Event
	for j := i + 1; j < to; j++ {
		f := o.Events[j]
		if f.Kind != EvCall || f.Meth == nil {
			continue
		}
		switch f.Meth.Name() {
		case "EndReOnline":
			if isDelegate(f) {
				c.Check(reported < 0, "reported-last", key, show("the new end is reported twice"))
				c.Check(len(f.Args) == 1 && exact(f.Args[0], isNew), "reported-last", key, show("another end is reported"))
				reported = j
			}
		case "Hijack":
			if !isNew(ofEnd(f.Recv)) {
				continue
			}
			hijacked = true
			c.Check(reported < 0, "reported-last", key, show("the hijacker is installed after the new end has been reported"))
			if len(f.Args) == 2 {
				v, _ := fieldOf(f.Args[0])
				elems, ok := Elems(f.Heap, f.Args[1])
				var ov *types.Var
				if ok && len(elems) == 1 {
					ov, _ = fieldOf(elems[0])
				} else if !ok {
					ov, _ = fieldOf(f.Args[1])
				}
				c.Check(v != nil && ov != nil, "hijacker-installed", key, show("the hijacker or its options are not the ones remembered"))
				mem.hijack, mem.hijackOpts = v, ov
			}
			isnil, known := isNilOn(o.Events[j:], resultOf(f, 0))
			failed = failed || !(known && isnil)
		case "Register":
			if !isNew(ofEnd(f.Recv)) {
				continue
			}
			installs = append(installs, f)
			c.Check(reported < 0, "reported-last", key, show("a method is registered after the new end has been reported"))
			isnil, known := isNilOn(o.Events[j:], resultOf(f, 0))
			failed = failed || !(known && isnil)
		}
	}
	done := !failed && (o.Kind == "return" || to < len(o.Events))
	if reported >= 0 {
		c.Check(!failed, "reported-last", key, show("the new end is reported although the hijacker or a method could not be installed"))
	}
	if !done {
		return
	}
	// the hijacker
	none, known := isNilOn(o.Events[at:to], func(x *Term) bool {
		v, _ := fieldOf(x)
		return v != nil && namedIs(v.Type(), "geminio", "HijackRPC")
	})
	c.Check(hijacked || known && none, "hijacker-installed", key, show("the hijacker is not installed on the new end"))
	// the methods
	ranged := false
	for j := at; j < to; j++ {
		f := o.Events[j]
		if f.Kind != EvMapRange || !isMapOf(f, isRPCType) {
			continue
		}
		lab := c.P.chanLabel(f.Recv)
		if strip(f.Recv).K != KMake {
			mem.rpcs[lab] = true
			ranged = true
		}
		// nothing is left out
		mine := func(x *Term) bool {
			return anyTerm(x, func(y *Term) bool {
				return y.K == KRange && len(y.A) > 0 && strip(y.A[len(y.A)-1]).Key() == strip(f.Recv).Key() ||
					(y.K == KTupleEl || y.K == KCall || y.K == KPure) && false
			})
		}
		used := false
		for _, g := range installs {
			for _, a := range g.Args {
				used = used || mine(a)
			}
		}
		for _, g := range o.Events[j:to] {
			if g.Kind == EvMapSet {
				for _, a := range g.Args {
					used = used || mine(a)
				}
			}
		}
		looked := false
		for _, g := range o.Events[j:to] {
			if g.Kind == EvAssume && mine(g.Cond) {
				looked = true
			}
		}
		c.Check(used || !looked, "methods-installed", key, show("some methods are left out"))
	}
	c.Check(ranged, "methods-installed", key, show("the methods are not registered again"))
	for _, f := range installs {
		ok := len(f.Args) == 3 && isRangePart(f.Args[1], "key") && (isRangePart(f.Args[2], "value") && sameRange(f.Args[1], f.Args[2]) || isLookedUp(f.Args[2], f.Args[1]))
		c.Check(ok, "methods-installed", key, show("a method is registered under another name or with another function"))
	}
	// reported
	set, known := dlgtOn(o.Events[i:to])
	if known && !set {
		return
	}
	c.Check(reported >= 0, "reported-last", key, show("the new end is not reported"))
}

func rangePart(t *Term) *Term {
	t = strip(t)
	if t != nil && t.K == KRange {
		return t
	}
	return nil
}

func isRangePart(t *Term, part string) bool {
	r := rangePart(t)
	return r != nil && strings.HasPrefix(r.Op, part)
}

// isLookedUp: the value is what the ranged map holds under the key of the iteration
func isLookedUp(v, key *Term) bool {
	v, r := strip(v), rangePart(key)
	if v != nil && v.K == KTupleEl && len(v.A) > 0 {
		v = strip(v.A[0])
	}
	if v == nil || v.K != KMapVal || len(v.A) < 2 || r == nil || len(r.A) == 0 {
		return false
	}
	return strip(v.A[0]).Key() == strip(r.A[len(r.A)-1]).Key() && strip(v.A[1]).Key() == r.Key()
}

func sameRange(a, b *Term) bool {
	x, y := rangePart(a), rangePart(b)
	return x != nil && y != nil && len(x.A) > 0 && len(y.A) > 0 && strip(x.A[len(x.A)-1]).Key() == strip(y.A[len(y.A)-1]).Key()
}

// offline: a lost connection is replaced without an operation
func (re *retryEnd) offline(c *Ctx, r *Root, mem *remembered) {
	for _, o := range c.root(r) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		if o.Kind != "return" {
			continue
		}
		var task *Event
		for _, e := range o.Events {
			if e.Kind == EvGo && e.Fn != nil {
				task = e
			}
		}
		open, known := re.isOpen(o, 0, len(o.Events))
		if known && !open {
			continue
		}
		if !c.Check(task != nil, "without-operation", r.Name, show("a lost connection is not replaced")) {
			continue
		}
		outs := c.Traces(task.Fn, r.Name+"/task", c.taskOpts(task, RunOpts{}))
		some := false
		for _, x := range outs {
			re.reconnection(c, r.Name+"/task", x, mem)
			if x.Kind == "block" || x.Kind == "panic" {
				continue
			}
			showX := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(x) } }
			lastTry := -1
			for i, e := range x.Events {
				if re.creates(e) {
					lastTry = i
				}
			}
			some = some || lastTry >= 0
			if x.Kind == "iterate" {
				continue
			}
			// it ends when the end has been closed, somebody else has reconnected or the connection was replaced
			open, known := re.isOpen(x, 0, len(x.Events))
			at := re.attempted(x, 0, len(x.Events))
			ok := known && !open || at.tried && !at.failed
			if at.failed && known && !open {
				ok = true
			}
			if !ok && lastTry < 0 {
				// the connection that was lost is not the one of the current end
				isEndConn := func(t *Term) bool { f, _ := fieldOf(t); return f != nil && atomicLoad(ofEnd(t)) == re.end }
				eq, k := equalOn(x.Events, isEndConn, func(t *Term) bool { return !isEndConn(t) })
				nocur, k2 := isNilOn(x.Events, func(t *Term) bool { return atomicLoad(t) == re.end })
				ok = k && !eq || k2 && nocur
			}
			c.Check(ok, "without-operation", r.Name, showX("the attempts to replace a lost connection end without success"))
			// a late notification
			if lastTry >= 0 {
				isEndConn := func(t *Term) bool { f, _ := fieldOf(t); return f != nil && atomicLoad(ofEnd(t)) == re.end }
				eq, k := equalOn(x.Events[:lastTry], isEndConn, func(t *Term) bool { return !isEndConn(t) })
				c.Check(k && eq, "once", r.Name+"/late", showX("the notification may concern a connection that has been replaced already"))
			}
		}
		c.Check(some, "without-operation", r.Name, show("a lost connection is not replaced"))
	}
}

// memory: what is installed again is what was installed with success
func (re *retryEnd) memory(c *Ctx, mem *remembered) {
	for _, n := range []string{"Hijack", "Register"} {
		r := re.roots[n]
		if r == nil {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" || len(o.Rets) != 1 {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			var call *Event
			for _, e := range o.Events {
				if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == n && atomicLoad(ofEnd(e.Recv)) == re.end {
					call = e
				}
			}
			if call == nil {
				continue
			}
			isnil, known := isNilOn(o.Events, resultOf(call, 0))
			kept, keptOpts := false, false
			for i, e := range o.Events {
				switch {
				case n == "Hijack" && e.Kind == EvStore && len(e.Args) > 0:
					v, _ := fieldOf(e.Recv)
					if v == nil {
						continue
					}
					if v == mem.hijack {
						kept = paramIs(e.Args[0], r.Fn, 1)
						c.Check(kept, "remembered", r.Name, show("another hijacker is remembered"))
					} else if v == mem.hijackOpts {
						keptOpts = anyTerm(e.Args[0], func(t *Term) bool { return paramIs(t, r.Fn, 2) })
					}
				case n == "Register" && e.Kind == EvMapSet && mem.rpcs[c.mapLabel(o, i)]:
					kept = len(e.Args) == 2 && paramIs(e.Args[0], r.Fn, 2) && paramIs(e.Args[1], r.Fn, 3)
					c.Check(kept, "remembered", r.Name, show("another method is remembered"))
				}
			}
			if known && isnil {
				c.Check(kept, "remembered", r.Name, show("what was installed with success is not remembered"))
				if n == "Hijack" {
					c.Check(keptOpts, "remembered", r.Name, show("the options of the hijacker are not remembered"))
				}
			} else {
				c.Check(!kept, "remembered", r.Name, show("what could not be installed is remembered"))
			}
		}
	}
}

// closing: no reconnection any more, then the current end is closed
func (re *retryEnd) closing(c *Ctx) {
	r := re.roots["Close"]
	if !c.Check(r != nil, "close", re.typ.Obj().Name(), func() string { return "undecided: no such operation" }) {
		return
	}
	for _, o := range c.root(r) {
		if o.Kind != "return" {
			continue
		}
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		again := false
		flag := -1
		ok := false
		var res *Event
		for i, e := range o.Events {
			again = again || e.Kind == EvOnce && !e.Val
			op, f, _ := atomicOp(e)
			if (op == "Store" || op == "Swap" || op == "CompareAndSwap") && f == re.open && flag < 0 {
				flag = i
			}
			if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "Close" && e.Recv != nil && atomicLoad(ofEnd(e.Recv)) == re.end {
				res = e
				for j := flag; j >= 0 && j < i; j++ {
					if o.Events[j].Res != nil && o.Events[j].Res.Key() == ofEnd(e.Recv).Key() {
						ok = true
					}
				}
			}
		}
		if again || flag < 0 && res == nil {
			// closed before
			open, known := re.isOpen(o, 0, len(o.Events))
			c.Check(again || known && !open, "close", r.Name, show("the end is not closed"))
			continue
		}
		c.Check(flag >= 0, "close", r.Name, show("the end is not marked as closed, it reconnects"))
		c.Check(res != nil, "close", r.Name, show("the current connection is not closed"))
		if flag >= 0 && res != nil {
			c.Check(ok, "close", r.Name, show("the end looked at before it was marked as closed may have been replaced, the new one is kept"))
		}
	}
}

func init() {
	register("C17", "Every operation of the retrying end, its notification of a lost connection with the goroutine it starts, and its construction are executed on every path. Each path is judged by what it found out about the error of the underlying operation, about the flag that the end is open and about the current end: repetition exactly after EOF and a successful reconnection, with the arguments of the caller, other results returned as they are; reconnection under one lock, only for the end that failed, not after closing, with the new end made current, closed again if the retrying end was closed meanwhile, and reported after the hijacker and all remembered methods were installed.",
		Rule{"operations", "operations that fail with EOF are repeated on a new connection with the same arguments, other results are returned unchanged", c17Operations},
		Rule{"reconnect", "a lost connection is replaced once, completely and never after the end has been closed", c17Reconnect},
		Rule{"retry-options", "every end is created with the options given", c13Retry},
	)
}
