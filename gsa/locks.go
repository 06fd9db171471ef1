package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hold is a lock held at a point of a path.
type hold struct {
	key, label string
	mode       string // L, R
	try        bool
	addr       *Term
	at         *Event
	gid        int
	owner      string // key of the object the lock belongs to
}

// lockWalk replays the lock operations of a path; f sees every event with the locks its task holds before it.
// It returns the locks still held at the end and complaints about releases.
func (c *Ctx) lockWalk(o *Outcome, f func(e *Event, h []hold)) (held []hold, bad []string) {
	for _, e := range o.Events {
		if f != nil {
			var mine []hold
			for _, h := range held {
				if h.gid == e.Gid {
					mine = append(mine, h)
				}
			}
			f(e, mine)
		}
		if e.Kind != EvLock {
			continue
		}
		key := e.Recv.Key()
		mode, try := "L", false
		switch e.Op {
		case "RLock", "TryRLock", "RUnlock":
			mode = "R"
		}
		if strings.HasPrefix(e.Op, "Try") {
			try = true
			if v, ok := c.truth(o, e.Res); !ok || !v {
				continue
			}
		}
		switch e.Op {
		case "Unlock", "RUnlock":
			found := -1
			for i, h := range held {
				if h.key == key && h.mode == mode {
					found = i
				}
			}
			if found < 0 {
				bad = append(bad, e.Op+" of a lock that is not held that way: "+c.P.ShowEvent(e))
				continue
			}
			held = append(append([]hold{}, held[:found]...), held[found+1:]...)
		default:
			own := ""
			if _, b := fieldOf(e.Recv); b != nil {
				own = rootObj(b).Key()
			}
			held = append(held, hold{key: key, label: c.P.chanLabel(e.Recv), mode: mode, try: try, addr: e.Recv, at: e, gid: e.Gid, owner: own})
		}
	}
	return
}

// truth: what a path assumed about a condition
func (c *Ctx) truth(o *Outcome, t *Term) (val, known bool) {
	if t == nil {
		return false, false
	}
	return NewExec(c.P).evalCond(o.State, t)
}

// rootObj skips embedded structures
func rootObj(t *Term) *Term {
	for t != nil {
		s := strip(t)
		a := s
		if a.K == KLoad {
			a = a.A[0]
		}
		if a.K == KFieldA {
			if v, ok := a.Obj.(*types.Var); ok && v.Embedded() {
				t = a.A[0]
				continue
			}
		}
		return s
	}
	return t
}

// targets are the functions of the module an opaque call may run.
func (c *Ctx) targets(e *Event) []*ssa.Function {
	if e.Fn != nil {
		if e.Fn.Pkg != nil && c.P.inMod[e.Fn.Pkg.Pkg] && len(e.Fn.Blocks) > 0 {
			return []*ssa.Function{e.Fn}
		}
		return nil
	}
	if e.Meth == nil {
		return nil
	}
	sig := e.Meth.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	it, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	// the static type of the receiver may be narrower
	if e.Recv != nil && e.Recv.T != nil {
		if j, ok := e.Recv.T.Underlying().(*types.Interface); ok {
			it = j
		}
	}
	return c.implementers(it, e.Meth)
}

func (c *Ctx) implementers(it *types.Interface, m *types.Func) []*ssa.Function {
	var r []*ssa.Function
	var rels []string
	for rel := range c.P.TPkgs {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sc := c.P.TPkgs[rel].Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || c.P.deadType(nt) {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			pt := types.NewPointer(nt)
			if !types.Implements(pt, it) {
				continue
			}
			fn := c.P.MethodOf(pt, m.Name())
			// what a promoted method really runs
			if fn != nil && fn.Synthetic != "" && fn.Object() != nil {
				if of, ok := fn.Object().(*types.Func); ok {
					if real := c.P.SSA.FuncValue(of); real != nil && len(real.Blocks) > 0 {
						fn = real
					}
				}
			}
			if fn != nil && len(fn.Blocks) > 0 {
				r = append(r, fn)
			}
		}
	}
	return r
}

// isDelegate: a call of an interface the user implements
func isDelegate(e *Event) bool {
	return e.Kind == EvCall && e.Meth != nil && strings.HasSuffix(callRecv(e), "Delegate")
}

var blockingLib = map[string]bool{
	"sync.WaitGroup.Wait": true, "time.Sleep": true, "io.ReadFull": true, "io.Copy": true,
	"packet.DecodeFromReader": true, "packet.EncodeToWriter": true, "net.Dial": true, "net.DialTimeout": true, "tls.Dial": true,
	"net.Conn.Read": true, "net.Conn.Write": true, "net.Listener.Accept": true, "sync.Cond.Wait": true,
}

// waits explains why an event can make its task wait for somebody else, or is empty.
func (c *Ctx) waits(e *Event) string {
	switch e.Kind {
	case EvDyn:
		if t := e.Recv; t != nil && t.T != nil {
			if n, ok := t.T.(*types.Named); ok && n.Obj().Name() == "CancelFunc" {
				return ""
			}
			if t.K == KCall || t.K == KTupleEl {
				if strings.Contains(c.P.Show(t), "context.With") {
					return ""
				}
			}
		}
		return "a callback runs: " + c.P.ShowEvent(e)
	case EvRecv, EvSelBlock:
		if e.Kind == EvSelBlock || e.Blocking {
			return "waits for a channel: " + c.P.ShowEvent(e)
		}
	case EvSend:
		if e.Blocking {
			return "send"
		}
	case EvCall:
		if isDelegate(e) {
			return "a delegate runs: " + c.P.ShowEvent(e)
		}
		n := strings.NewReplacer("(", "", ")", "", "*", "").Replace(e.Op)
		if blockingLib[n] {
			return "waits: " + c.P.ShowEvent(e)
		}
	}
	return ""
}

// lockSum summarises what calling a function does with locks.
type lockSum struct {
	acq  map[string]string // label -> where
	wait map[string]bool   // reasons
}

func (c *Ctx) lockSummary(fn *ssa.Function) *lockSum {
	if c.lsums == nil {
		c.lsums = map[*ssa.Function]*lockSum{}
	}
	if s, ok := c.lsums[fn]; ok {
		return s
	}
	s := &lockSum{acq: map[string]string{}, wait: map[string]bool{}}
	c.lsums[fn] = s
	if !c.P.inScope(fn) {
		return s
	}
	var outs []*Outcome
	for _, r := range c.Roots() {
		if r.Fn == fn {
			outs = c.root(r)
		}
	}
	if outs == nil {
		outs = c.Traces(fn, fnName(fn), RunOpts{Key: "sum"})
	}
	for _, o := range outs {
		c.lockWalk(o, func(e *Event, h []hold) {
			if e.Gid != 0 {
				return
			}
			if e.Kind == EvLock && (e.Op == "Lock" || e.Op == "RLock") {
				s.acq[c.P.chanLabel(e.Recv)] = fnName(fn)
			}
			if w := c.waits(e); w != "" {
				if w == "send" {
					if c.guardedSend(e, h) {
						w = "queues: " + c.P.ShowEvent(e)
					} else {
						w = "sends: " + c.P.ShowEvent(e)
					}
				}
				s.wait[w] = true
			}
			if e.Kind == EvCall {
				for _, t := range c.targetsFrom(fn, e) {
					ts := c.lockSummary(t)
					for l, w := range ts.acq {
						s.acq[l] = w
					}
					for w := range ts.wait {
						s.wait[w] = true
					}
				}
			}
		})
	}
	return s
}

// targetsFrom leaves out that a type wraps itself: what it calls through an interface is something else.
func (c *Ctx) targetsFrom(fn *ssa.Function, e *Event) []*ssa.Function {
	ts := c.targets(e)
	if e.Meth == nil {
		return ts
	}
	self := c.P.recvOf(c.P.rootFn(fn))
	var r []*ssa.Function
	for _, t := range ts {
		if n := c.P.recvOf(t); n != nil && n == self && !(e.Recv != nil && e.Recv.K == KParam && e.Recv.Op == "recv") {
			continue
		}
		r = append(r, t)
	}
	return r
}

// guardedSend: queueing under the shared lock of the queue's owner, whose closer empties the queue before taking the lock.
// In a select one such alternative is enough.
func (c *Ctx) guardedSend(e *Event, h []hold) bool {
	var hs []hold
	for _, x := range h {
		if serialising[x.label] == "" {
			hs = append(hs, x)
		}
	}
	if len(hs) != 1 || hs[0].mode != "R" {
		return false
	}
	alts := []*Event{e}
	if e.InSelect {
		alts = append(alts, e.Alts...)
	}
	for _, a := range alts {
		if a.Kind != EvSend {
			continue
		}
		_, b := fieldOf(a.Recv)
		if b == nil || rootObj(b).Key() != hs[0].owner {
			continue
		}
		k := c.P.chanLabel(a.Recv) + "|" + hs[0].label
		if c.drainedMemo == nil {
			c.drainedMemo = map[string]bool{}
		}
		v, ok := c.drainedMemo[k]
		if !ok {
			v, _ = c.drained(c.P.chanLabel(a.Recv), hs[0].label)
			c.drainedMemo[k] = v
		}
		if v {
			return true
		}
	}
	return false
}
