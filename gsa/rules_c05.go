package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// namedOf is the name of the type of an object.
func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// family lists, for every outermost type an object of type owner is part of, the types around it, itself included.
func (c *Ctx) family(pkg, owner string) [][]string {
	tp := c.P.TPkgs[pkg]
	if tp == nil {
		return nil
	}
	by := map[string][]string{} // type -> types that embed it
	for _, n := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok && c.P.deadType(nt) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Embedded() {
				by[namedOf(f.Type())] = append(by[namedOf(f.Type())], n)
			}
		}
	}
	var res [][]string
	var walk func(t string, chain []string)
	walk = func(t string, chain []string) {
		chain = append(append([]string{}, chain...), t)
		if len(by[t]) == 0 || len(chain) > 5 {
			res = append(res, chain)
			return
		}
		for _, u := range by[t] {
			walk(u, chain)
		}
	}
	walk(owner, nil)
	return res
}

// ending names what an event gives up for good: a channel that is closed or a hub whose waiters are all answered.
func (c *Ctx) ending(e *Event) (label, owner string) {
	var t *Term
	switch {
	case e.Kind == EvClose:
		t = e.Recv
	case e.Kind == EvCall && isCall(e, "Close") && callRecv(e) == "SyncHub" && len(e.Args) > 0:
		t = e.Args[0]
	case netClose(e) && len(e.Args) > 0:
		t = e.Args[0]
	case netClose(e):
		t = e.Recv
	default:
		return "", ""
	}
	f, b := fieldOf(t)
	if f == nil {
		return "", ""
	}
	return c.P.Label(f), namedOf(rootObj(b).T)
}

// onceEnds: what the function of a Once gives up
func (c *Ctx) onceEnds() map[string]map[string]bool {
	if c.onceMemo != nil {
		return c.onceMemo
	}
	once := map[string]map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			has := false
			for _, e := range o.Events {
				has = has || e.Kind == EvOnce && e.Val
			}
			if !has {
				continue
			}
			on := onces(o)
			for i, e := range o.Events {
				if len(on[i]) == 0 {
					continue
				}
				if l, _ := c.ending(e); l != "" {
					for _, t := range on[i] {
						k := c.P.chanLabel(t)
						if once[k] == nil {
							once[k] = map[string]bool{}
						}
						once[k][l] = true
					}
				}
			}
		}
	}
	c.onceMemo = once
	return once
}

// endings: label -> type of the object -> tasks that give it up on every way they end
func (c *Ctx) endings() map[string]map[string]map[*ssa.Function]bool {
	if c.endMemo != nil {
		return c.endMemo
	}
	once := c.onceEnds()
	res := map[string]map[string]map[*ssa.Function]bool{}
	for _, r := range c.tasks() {
		var all map[[2]string]bool
		for _, o := range c.root(r) {
			if o.Kind != "return" || o.Inner {
				continue
			}
			got := map[[2]string]bool{}
			for _, e := range o.Events {
				if e.Gid != 0 {
					continue
				}
				if l, w := c.ending(e); l != "" {
					got[[2]string{l, w}] = true
				}
				if e.Kind == EvOnce && !e.Val {
					_, b := fieldOf(e.Recv)
					for l := range once[c.P.chanLabel(e.Recv)] {
						if b != nil {
							got[[2]string{l, namedOf(rootObj(b).T)}] = true
						}
					}
				}
			}
			if all == nil {
				all = got
				continue
			}
			for k := range all {
				if !got[k] {
					delete(all, k)
				}
			}
		}
		for k := range all {
			if res[k[0]] == nil {
				res[k[0]] = map[string]map[*ssa.Function]bool{}
			}
			if res[k[0]][k[1]] == nil {
				res[k[0]][k[1]] = map[*ssa.Function]bool{}
			}
			res[k[0]][k[1]][r.Fn] = true
		}
	}
	c.endMemo = res
	return res
}

// released: whatever object the label belongs to, one of its tasks (other than not) gives it up on every way it ends
func (c *Ctx) released(label string, not *ssa.Function) bool {
	parts := strings.Split(label, ".")
	if len(parts) != 3 {
		return false
	}
	fam := c.family(parts[0], parts[1])
	if len(fam) == 0 {
		return false
	}
	if c.cascades()[label] {
		return true
	}
	for _, chain := range fam {
		ok := false
		for _, t := range chain {
			for f := range c.endings()[label][t] {
				ok = ok || f != not
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// table is a map of an object's lower objects: whoever ends the object tells each of them by a signal.
type table struct {
	field  *types.Var
	label  string
	elem   string
	task   *Root
	signal string
	why    string // a path that does not tell every element
}

// tables of the objects that have tasks and hold other objects with tasks
func (c *Ctx) tables() []*table {
	if c.tabMade {
		return c.tabMemo
	}
	c.tabMade = true
	// what tasks of a type wait for and somebody else closes
	waited := map[string]map[string]bool{}
	closed := c.closeSites()
	for _, r := range c.tasks() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Kind != EvRecv || !e.Blocking {
					continue
				}
				f, b := fieldOf(e.Recv)
				if f == nil || namedOf(rootObj(b).T) != taskRecvType(r) {
					continue
				}
				l := c.P.Label(f)
				if len(closed[l]) == 0 || len(c.endings()[l]) > 0 {
					continue
				}
				if waited[taskRecvType(r)] == nil {
					waited[taskRecvType(r)] = map[string]bool{}
				}
				waited[taskRecvType(r)][l] = true
			}
		}
	}
	for _, r := range c.tasks() {
		if len(r.Fn.Params) == 0 {
			continue
		}
		st, ok := deref(r.Fn.Params[0].Type()).Underlying().(*types.Struct)
		if !ok || r.Fn.Signature.Recv() == nil {
			continue
		}
		ends := false
		for _, o := range c.root(r) {
			ends = ends || o.Kind == "return"
		}
		for i := 0; i < st.NumFields() && ends; i++ {
			m, ok := st.Field(i).Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			for s := range waited[namedOf(m.Elem())] {
				t := &table{field: st.Field(i), label: c.P.Label(st.Field(i)), elem: namedOf(m.Elem()), task: r, signal: s}
				late := c.toldLater(r, t)
				t.why = c.untold(r, t, late)
				c.tabMemo = append(c.tabMemo, t)
			}
		}
	}
	return c.tabMemo
}

// cascades: signals that the end of a higher object gives to every object in its tables
func (c *Ctx) cascades() map[string]bool {
	m := map[string]bool{}
	for _, t := range c.tables() {
		m[t.signal] = true
	}
	for _, t := range c.tables() {
		if t.why != "" {
			delete(m, t.signal)
		}
	}
	return m
}

// pass is one going through a table
type pass struct {
	seen, told, removes, cut bool
}

// passes: how a path goes through the table, by the place where it starts to
func (c *Ctx) passes(o *Outcome, t *table, late bool) (m map[token.Pos]*pass, order []token.Pos) {
	ofElem := func(x *Term) bool {
		return x != nil && anyTerm(x, func(y *Term) bool {
			return y.K == KRange && len(y.A) > 0 && c.P.isField(y.A[0], t.label)
		})
	}
	m = map[token.Pos]*pass{}
	var cur *pass
	var blk *ssa.BasicBlock
	for _, e := range o.Events {
		if e.Gid != 0 {
			continue
		}
		if e.Kind == EvMapRange {
			cur, blk = nil, nil
			if c.P.isField(e.Recv, t.label) {
				if m[e.Pos] == nil {
					m[e.Pos] = &pass{}
					order = append(order, e.Pos)
				}
				cur = m[e.Pos]
			}
			continue
		}
		if cur == nil {
			continue
		}
		if e.Kind == EvLoop && blk == nil {
			blk = e.Blk
		}
		touches := ofElem(e.Recv) || ofElem(e.Cond)
		for _, a := range e.Args {
			touches = touches || ofElem(a)
		}
		if !touches {
			continue
		}
		cur.seen = true
		if e.Kind == EvStore && len(e.Args) > 0 && exactRange(e.Args[0]) && late {
			cur.told = true // collected to be told afterwards
		}
		if e.Kind == EvMapDel && c.P.isField(e.Recv, t.label) {
			cur.removes = true
		}
		if _, b := fieldOf(e.Recv); b != nil && exactRange(rootObj(b)) {
			if e.Kind == EvClose && c.P.chanLabel(e.Recv) == t.signal || e.Kind == EvOnce && c.onceEnds()[c.P.chanLabel(e.Recv)][t.signal] {
				cur.told = true
			}
		}
	}
	if cur != nil && o.Kind == "iterate" && (o.CutBlk == nil || o.CutBlk == blk) {
		cur.cut = true
	}
	return m, order
}

// untold: a path of the task that ends the object and does not give the signal to every element of the table
func (c *Ctx) untold(r *Root, t *table, late bool) string {
	bad := map[token.Pos]*Outcome{}
	removes := map[token.Pos]bool{}
	absent := map[token.Pos]bool{}
	after := map[token.Pos]map[token.Pos]bool{}
	var all []token.Pos
	var none *Outcome
	var os []map[token.Pos]*pass
	for _, o := range c.root(r) {
		if o.Inner || o.Kind != "return" && o.Kind != "iterate" {
			continue
		}
		m, order := c.passes(o, t, late)
		for i, p := range order {
			if after[p] == nil {
				after[p] = map[token.Pos]bool{}
				all = append(all, p)
			}
			for _, q := range order[:i] {
				after[p][q] = true
			}
			removes[p] = removes[p] || m[p].removes
			if (o.Kind == "return" && m[p].seen || m[p].cut) && !m[p].told && bad[p] == nil {
				bad[p] = o
			}
		}
		if o.Kind == "return" {
			os = append(os, m)
			if len(order) == 0 && none == nil {
				none = o
			}
		}
	}
	for _, m := range os {
		for _, p := range all {
			absent[p] = absent[p] || m[p] == nil
		}
	}
	if none != nil {
		return "the task ends and does not go through " + t.label + "\n" + c.P.ShowTrace(none)
	}
	var why *Outcome
	for _, p := range all {
		ok := bad[p] == nil && !absent[p]
		for q := range after[p] {
			// what leaves the table before is not told by this pass
			if removes[q] && bad[q] != nil {
				ok = false
			}
		}
		if ok {
			return ""
		}
		if bad[p] != nil && why == nil {
			why = bad[p]
		}
	}
	if why == nil {
		return "an element of " + t.label + " is passed over"
	}
	return "an element of " + t.label + " is passed over\n" + c.P.ShowTrace(why)
}

// toldLater: the task tells the elements of a list
func (c *Ctx) toldLater(r *Root, t *table) bool {
	n := 0
	for _, o := range c.root(r) {
		for _, e := range o.Events {
			if e.Gid != 0 || e.Kind != EvClose && e.Kind != EvOnce {
				continue
			}
			if e.Kind == EvClose && c.P.chanLabel(e.Recv) != t.signal || e.Kind == EvOnce && !c.onceEnds()[c.P.chanLabel(e.Recv)][t.signal] {
				continue
			}
			if _, b := fieldOf(e.Recv); b != nil {
				x := strip(rootObj(b))
				if x.K == KLoad && strip(x.A[0]).K == KElemA {
					n++
				}
			}
		}
	}
	return n > 0
}

func exactRange(t *Term) bool {
	t = strip(t)
	if t != nil && t.K == KMapVal && len(t.A) > 1 {
		t = strip(t.A[1]) // looked up by its key
	}
	return t != nil && t.K == KRange
}

// sources names what a wait on a channel depends on.
func (c *Ctx) sources(o *Outcome, t *Term) []string {
	t = strip(t)
	if t == nil {
		return nil
	}
	if f, _ := fieldOf(t); f != nil {
		return []string{c.P.Label(f)}
	}
	if t.K == KPure && strings.HasPrefix(t.Op, "get:") && len(t.A) > 0 {
		name := strings.TrimPrefix(t.Op, "get:")
		if namedOf(t.A[0].T) == "Sync" || isHubCall(t.A[0]) {
			return c.hubs(o, t.A[0])
		}
		return c.handed(t.A[0].T, name)
	}
	if t.K == KMake {
		return c.heldBy(o, t)
	}
	return nil
}

func isHubCall(t *Term) bool {
	t = strip(t)
	return t != nil && t.K == KCall && strings.Contains(t.Op, "SyncHub)")
}

// heldBy: the fields in which a path has put a value
func (c *Ctx) heldBy(o *Outcome, t *Term) []string {
	m := map[string]bool{}
	for _, e := range o.Events {
		if e.Kind == EvStore && len(e.Args) > 0 && sameVal(e.Args[0], t) {
			if f, _ := fieldOf(e.Recv); f != nil {
				m[c.P.Label(f)] = true
			}
		}
	}
	return sortedKeys(m)
}

// hubs: the hub that answers a waiter
func (c *Ctx) hubs(o *Outcome, sync *Term) []string {
	s := strip(sync)
	if isHubCall(s) && len(s.A) > 0 {
		h := strip(s.A[0])
		if f, _ := fieldOf(h); f != nil {
			return []string{c.P.Label(f)}
		}
		return c.heldBy(o, h)
	}
	// the waiter is kept in a field
	m := map[string]bool{}
	if f, _ := fieldOf(s); f != nil {
		for _, r := range c.Roots() {
			for _, o2 := range c.root(r) {
				for _, e := range o2.Events {
					if e.Kind == EvStore && len(e.Args) > 0 && isHubCall(e.Args[0]) {
						if g, _ := fieldOf(e.Recv); g == f {
							for _, l := range c.hubs(o2, e.Args[0]) {
								m[l] = true
							}
						}
					}
				}
			}
		}
	}
	return sortedKeys(m)
}

// handed: the queues that the implementations of a getter hand out
func (c *Ctx) handed(t types.Type, name string) []string {
	m := map[string]bool{}
	for _, pkg := range scopePkgs {
		tp := c.P.TPkgs[pkg]
		if tp == nil {
			continue
		}
		for _, n := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || c.P.deadType(nt) {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			if it, ok := t.Underlying().(*types.Interface); ok {
				if !types.Implements(types.NewPointer(nt), it) {
					continue
				}
			} else if namedOf(t) != n {
				continue
			}
			if fn := c.P.Method(pkg, n, name); fn != nil {
				if l := c.getterLabel(pkg, n, name); l != "" {
					m[l] = true
				}
			}
		}
	}
	return sortedKeys(m)
}

// endedBy: a channel made on the path is closed by a task that the path starts, on every way that task ends, or gets one value from it
func (c *Ctx) endedBy(o *Outcome, t *Term, before *Event) bool {
	for _, e := range o.Events {
		if e == before {
			break
		}
		if e.Kind != EvGo || e.Fn == nil {
			continue
		}
		k := fmt.Sprint(e.Fn, e.Pos, c.P.chanLabel(t))
		if v, ok := c.endByMemo[k]; ok {
			if v {
				return true
			}
			continue
		}
		if c.endByMemo == nil {
			c.endByMemo = map[string]bool{}
		}
		outs := c.Traces(e.Fn, fnName(e.Fn), c.taskOpts(e, RunOpts{}))
		n, all := 0, true
		for _, u := range outs {
			if u.Kind != "return" || u.Inner {
				continue
			}
			n++
			hit := false
			for _, x := range u.Events {
				if (x.Kind == EvClose || x.Kind == EvSend) && (sameVal(x.Recv, t) || c.P.chanLabel(x.Recv) == c.P.chanLabel(t) && c.P.chanLabel(t) != "fresh") {
					hit = true
				}
			}
			all = all && hit
		}
		c.endByMemo[k] = n > 0 && all
		if n > 0 && all {
			return true
		}
	}
	return false
}

// usersOwn: a channel that the module never makes
func (c *Ctx) usersOwn(label string) bool {
	if c.madeMemo == nil {
		c.madeMemo = map[string]bool{}
		for _, r := range c.Roots() {
			for _, o := range c.root(r) {
				for _, e := range o.Events {
					if e.Kind == EvStore && len(e.Args) > 0 {
						if v := strip(e.Args[0]); v != nil && v.K == KMake {
							if f, _ := fieldOf(e.Recv); f != nil {
								c.madeMemo[c.P.Label(f)] = true
							}
						}
					}
				}
			}
		}
	}
	return !c.madeMemo[label]
}

// untilClosed: whoever receives from the queue ends only after it has seen the queue closed, or leaves a task that does
func (c *Ctx) untilClosed(label string) bool {
	cons, drains := c.consumers()
	n := 0
	for _, r := range cons[label] {
		for _, o := range c.root(r) {
			if o.Inner || o.Kind != "return" {
				continue
			}
			n++
			ok := false
			for _, e := range o.Events {
				if e.Kind == EvRecv && e.Gid == 0 && c.P.chanLabel(e.Recv) == label {
					ok = !e.Val
				}
				if e.Kind == EvGo && e.Fn != nil && drains[label][e.Fn] != nil {
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		}
	}
	return n > 0
}

// room: who empties the queue that a path waits to have room in; "" if nobody
func (c *Ctx) room(r *Root, l string) string {
	cons, drains := c.consumers()
	switch {
	case strings.HasPrefix(l, "geminio."):
		return "made with room for the outcome"
	case c.usersOwn(l):
		return "the user gave it and is to read it"
	case cons[l][r.Fn] != nil:
		return "the task's own queue: judged by own-queue"
	case len(drains[l]) > 0 && c.drainedSomehow(l):
		return "emptied by whoever closes it"
	case c.untilClosed(l):
		return "received from until it is closed"
	case r.Kind == "task" && c.awaited(r, l):
		return "awaited by who started the task"
	}
	return ""
}

// ready: one of the cases is known to be possible, or is the case that was judged in the first round of the loop
func (c *Ctx) ready(o *Outcome, e *Event, group []*Event) bool {
	for _, a := range group {
		if a.Kind != EvRecv {
			continue
		}
		h := strip(a.Recv)
		if h != nil && h.K == KHavoc {
			if isnil, known := isNilOn(o.Events, func(x *Term) bool { return sameVal(x, h) }); known && !isnil {
				return true
			}
		}
		if c.filled(o, e, a.Recv) {
			return true
		}
	}
	return false
}

// filled: a path knows, when it comes to the event, that the queue is not empty
func (c *Ctx) filled(o *Outcome, e *Event, q *Term) bool {
	empty, known := false, false
	for _, x := range o.Events {
		if x == e {
			break
		}
		if x.Kind != EvAssume {
			continue
		}
		t, v := norm(x.Cond, x.Val)
		if t == nil || t.K != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			l := strip(t.A[i])
			k, isK := t.A[1-i].constInt()
			if l == nil || l.K != KLen || !same(strip(l.A[0]), strip(q)) || !isK || k != 0 {
				continue
			}
			switch {
			case t.Op == "==":
				empty, known = v, true
			case t.Op == "!=":
				empty, known = !v, true
			case t.Op == ">" && i == 0, t.Op == "<" && i == 1:
				empty, known = !v, true
			case t.Op == "<=" && i == 0, t.Op == ">=" && i == 1:
				empty, known = v, true
			}
		}
	}
	return known && !empty
}

// c05Waits: nothing waits for ever once what it waits on has ended.
func c05Waits(c *Ctx) { c05WaitsOf(c, false) }

// c23Tasks: no task waits for ever
func c23Tasks(c *Ctx) { c05WaitsOf(c, true) }

func c05WaitsOf(c *Ctx, tasks bool) {
	for _, r := range c.Roots() {
		if tasks && r.Kind != "task" {
			continue
		}
		done := map[string]bool{}
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if !e.Blocking || e.Kind != EvRecv && e.Kind != EvSend || e.Gid != 0 {
					continue
				}
				group := append([]*Event{e}, e.Alts...)
				key, fresh := fmt.Sprint(e.Pos, e.Depth), false
				for _, a := range group {
					key += "|" + fmt.Sprint(a.Kind) + c.P.chanLabel(a.Recv)
					fresh = fresh || strip(a.Recv) != nil && (strip(a.Recv).K == KHavoc || strip(a.Recv).K == KMake)
				}
				if !fresh && done[key] {
					continue
				}
				done[key] = true
				ok, sends := false, 0
				var ls []string
				for _, a := range group {
					src := c.sources(o, a.Recv)
					ls = append(ls, c.P.chanLabel(a.Recv)+fmt.Sprint(src))
					if a.Kind == EvSend {
						sends++
						if len(src) == 0 {
							src = []string{c.P.chanLabel(a.Recv)}
						}
						for _, l := range src {
							ok = ok || c.room(r, l) != ""
						}
						continue
					}
					all := len(src) > 0
					for _, l := range src {
						all = all && c.released(l, r.Fn)
					}
					ok = ok || all || c.endedBy(o, a.Recv, e)
				}
				if !ok {
					// closed earlier on the path
					for _, x := range o.Events {
						if x == e {
							break
						}
						ok = ok || x.Kind == EvClose && sameVal(x.Recv, e.Recv)
					}
				}
				ok = ok || c.ready(o, e, group)
				if sends == 0 && len(e.Alts) == 0 && r.Kind == "callback" && c.captured(r, e.Recv) {
					continue // see ready
				}
				if sends > 0 && len(group) == 1 {
					if tasks {
						continue
					}
					for _, l := range append(c.sources(o, e.Recv), c.P.chanLabel(e.Recv))[:1] {
						c.Check(ok, "queue-emptied", c.queueRole(l, e.Recv), func() string {
							return r.Name + " waits for room in a queue that nobody has to empty when its receiver is gone\n" + c.P.ShowTrace(o)
						})
					}
					continue
				}
				sort.Strings(ls[1:])
				c.Check(ok, "released", r.Name+"/"+c.P.chanLabel(e.Recv), func() string {
					return "nothing that ends with the object releases this wait: " + strings.Join(ls, ", ") + "\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	for _, t := range c.tables() {
		c.Check(t.why == "", "told", t.label+"/"+t.signal, func() string { return t.why })
	}
	c.Min("told", 1)
	if tasks {
		c.Min("released", 4)
		return
	}
	// a queue that operations wait on stays the same, so that whoever comes later finds it closed
	waited := map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if f, _ := fieldOf(e.Recv); r.Kind == "api" && e.Kind == EvRecv && e.Blocking && f != nil {
					waited[c.P.Label(f)] = true
				}
			}
		}
	}
	gone := map[string]string{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Kind != EvStore || len(e.Args) == 0 || !e.Args[0].isNilConst() {
					continue
				}
				if f, b := fieldOf(e.Recv); f != nil && waited[c.P.Label(f)] && gone[c.P.Label(f)] == "" && rootObj(b).K != KAlloc {
					gone[c.P.Label(f)] = r.Name + " takes away the queue that operations wait on: who comes later waits for ever\n" + c.P.ShowTrace(o)
				}
			}
		}
	}
	for l := range waited {
		c.Check(gone[l] == "", "kept", l, func() string { return gone[l] })
	}
	c.Min("released", 8)
	c.Min("queue-emptied", 1)
}

// queueRole names a queue by what it is for
func (c *Ctx) queueRole(l string, ch *Term) string {
	for _, y := range c.Layers() {
		switch l {
		case y.up:
			return y.pkg + ": queue to the layer above"
		case y.in:
			return y.pkg + ": queue from below"
		case y.out:
			return y.pkg + ": queue from above"
		case y.downQ:
			return y.pkg + ": queue to the layer below"
		}
	}
	if strings.HasPrefix(l, "application.") || l == "" || l == "fresh" {
		if t := chanPktType(strip(ch).T); t != "" {
			return "application: queue of " + t
		}
	}
	return l
}

// captured: a variable of the function around a callback
func (c *Ctx) captured(r *Root, t *Term) bool {
	return r.Fn.Parent() != nil && len(r.Fn.FreeVars) > 0 && c.P.chanLabel(t) == ""
}

// drainedSomehow: under whatever lock it is closed, its drain was started first
func (c *Ctx) drainedSomehow(l string) bool {
	if v, ok := c.drainMemo[l]; ok {
		return v
	}
	if c.drainMemo == nil {
		c.drainMemo = map[string]bool{}
	}
	locks := map[string]bool{}
	for _, lk := range c.lives() {
		locks[lk] = true
	}
	for lk := range locks {
		if ok, _ := c.drained(l, lk); ok {
			c.drainMemo[l] = true
			return true
		}
	}
	c.drainMemo[l] = false
	return false
}

// awaited: whoever starts the task receives what it sends
func (c *Ctx) awaited(r *Root, l string) bool {
	n := 0
	for _, q := range c.Roots() {
		for _, o := range c.root(q) {
			started, got := 0, 0
			for _, e := range o.Events {
				if e.Kind == EvGo && e.Fn == r.Fn {
					started++
				}
				if e.Kind == EvRecv && e.Blocking && !e.InSelect && started > 0 && c.P.chanLabel(e.Recv) == l {
					got++
				}
			}
			if started > 0 {
				n++
				if got < started {
					return false
				}
			}
		}
	}
	return n > 0
}

// c05Ends: a task whose queue is closed, or whose connection fails, comes to its end.
func c05Ends(c *Ctx) {
	closable := c.closeSites()
	for _, r := range c.tasks() {
		over := map[string]bool{} // queues whose end this task sees
		loop := false
		for _, o := range c.root(r) {
			if o.Inner || o.Kind == "panic" {
				continue
			}
			for _, e := range o.Events {
				if e.Kind == EvRecv && e.Blocking && e.Gid == 0 && !e.Val {
					for _, l := range c.sources(o, e.Recv) {
						others := false
						for _, cs := range closable[l] {
							others = others || cs.r.Fn != r.Fn
						}
						if others {
							over[c.P.chanLabel(e.Recv)] = true
							loop = loop || cutAround(o, e)
						}
					}
				}
				if e.Kind == EvCall && e.Gid == 0 && (isDecode(e) || isEncode(e)) && e.Res != nil {
					er := errOf(e)
					isnil, known := errOn(o.Events, er)
					if !known || isnil {
						continue
					}
					if isDecode(e) {
						c.Check(o.Kind == "return", "ends", r.Name+"/read error", c.trace(o))
						continue
					}
					closed := o.Kind == "return"
					after := false
					for _, x := range o.Events {
						after = after || x == e
						closed = closed || after && netClose(x)
					}
					c.Check(closed, "ends", r.Name+"/write error", c.trace(o))
				}
			}
		}
		if len(over) == 0 {
			continue
		}
		outs := c.root(r)
		if loop {
			outs = c.RunRoot(r, RunOpts{OneStep: true, Unroll: 2, Key: "c05ends"})
		}
		for _, o := range outs {
			if o.Inner || o.Kind == "panic" {
				continue
			}
			var first *Event
			for _, e := range o.Events {
				if e.Kind == EvRecv && e.Blocking && e.Gid == 0 {
					first = e
					break
				}
			}
			if first == nil || first.Val || !over[c.P.chanLabel(first.Recv)] {
				continue
			}
			ok := o.Kind == "return" || o.CutBlk != nil && !cutAround(o, first)
			after := false
			for _, e := range o.Events {
				after = after || e == first
				if after && e.Kind == EvClose {
					if l, _ := c.ending(e); l != "" {
						ok = true // it is ending
					}
				}
			}
			if !ok {
				// what came before is still to be handled
				cons, _ := c.consumers()
				for _, e := range o.Events {
					if e.Kind != EvAssume {
						continue
					}
					t, _ := norm(e.Cond, e.Val)
					if t == nil || t.K != KBin {
						continue
					}
					for _, a := range t.A {
						if l := strip(a); l != nil && l.K == KLen && cons[c.P.chanLabel(l.A[0])][r.Fn] != nil && c.filled(o, nil, l.A[0]) {
							ok = true
						}
					}
				}
			}
			c.Check(ok, "ends", r.Name+"/"+c.P.chanLabel(first.Recv), func() string {
				return "the task goes on after what it depends on has ended\n" + c.P.ShowTrace(o)
			})
		}
	}
	// the task that reads the network is released by the end of the connection
	for _, r := range c.taskWith(isDecode) {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if !isDecode(e) || len(e.Args) == 0 {
					continue
				}
				f, _ := fieldOf(e.Args[0])
				if f == nil {
					c.Undecided("socket", r.Name, "the connection that is read is no field")
					continue
				}
				c.Check(c.released(c.P.Label(f), r.Fn), "socket", r.Name+"/"+c.P.Label(f), func() string {
					return "an end of the connection leaves the socket open\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	c.Min("ends", 3)
	c.Min("socket", 1)
}

func netClose(e *Event) bool {
	return e.Kind == EvCall && isCall(e, "Close") && strings.Contains(e.Op, "net.Conn)")
}

// errOf: the error among the results of a call
func errOf(e *Event) *Term {
	if e.Res == nil {
		return nil
	}
	if e.Res.K == KTuple {
		if l := e.Res.A[len(e.Res.A)-1]; isErrorT(l.T) {
			return l
		}
		return nil
	}
	return e.Res
}

// c05EOF: who waited for something to receive learns that there will be nothing.
func c05EOF(c *Ctx) {
	closable := c.closeSites()
	for _, r := range c.Roots() {
		res := r.Fn.Signature.Results()
		if r.Kind != "api" || res.Len() < 2 || !isErrorT(res.At(res.Len()-1).Type()) {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" || o.Inner || len(o.Rets) != res.Len() {
				continue
			}
			er := o.Rets[len(o.Rets)-1]
			over, got := "", false
			for _, e := range o.Events {
				if e.Gid != 0 {
					continue
				}
				if e.Kind == EvRecv && e.Blocking && !e.Val {
					for _, l := range c.sources(o, e.Recv) {
						if c.released(l, nil) && !isHubCall(strip(e.Recv)) && !strings.HasPrefix(c.P.chanLabel(e.Recv), "Sync.") {
							over = l
						}
					}
					continue
				}
				if over != "" && e.Kind == EvRecv && (e.Val || len(closable[c.P.chanLabel(e.Recv)]) == 0) {
					got = true // what came before the end
				}
				if e.Kind == EvCall && isCall(e, "AcceptDialogue") {
					x := errOf(e)
					if isnil, known := errOn(o.Events, x); !known || !isnil {
						c.Check(same(er, x), "told-end", r.Name, func() string {
							return "the error of the accept is not what is returned\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
			if over != "" && !got {
				c.Check(isEOF(er), "eof", r.Name+"/"+over, func() string {
					return "the end is not reported as EOF\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	c.Min("eof", 3)
	c.Min("told-end", 1)
}

// c05Ready: what callbacks wait for is closed by the function around them, whatever becomes of it.
func c05Ready(c *Ctx) {
	waiting := map[*ssa.Function]*Root{}
	for _, r := range c.Roots() {
		if r.Kind != "callback" || r.Fn.Parent() == nil {
			continue
		}
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Kind == EvRecv && e.Blocking && len(e.Alts) == 0 && c.captured(r, e.Recv) {
					waiting[r.Fn] = r
				}
			}
		}
	}
	for _, q := range c.Roots() {
		for _, o := range c.root(q) {
			if o.Kind != "return" || o.Inner {
				continue
			}
			given, taken := false, (*Event)(nil)
			closed := false
			for _, e := range o.Events {
				for _, a := range e.Args {
					given = given || anyTerm(a, func(x *Term) bool {
						if x.K != KClosure {
							return false
						}
						f, ok := x.Obj.(*ssa.Function)
						return ok && waiting[f] != nil
					})
				}
				if taken == nil && given && e.Kind == EvCall {
					if isnil, known := errOn(o.Events, errOf(e)); errOf(e) != nil && known && isnil {
						taken = e
					}
				}
				if v := strip(e.Recv); taken != nil && e.Kind == EvClose && v != nil && v.K == KMake {
					closed = true
				}
			}
			if taken != nil {
				c.Check(closed, "ready", q.Name, func() string {
					return "who was given a callback that waits for the constructor is there, and the callback is never released\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	if len(waiting) > 0 {
		c.Min("ready", 1)
	}
}

// c05Own: once established, a loop does not wait for room in a queue that only it empties.
func c05Own(c *Ctx) {
	cons, _ := c.consumers()
	for _, l := range c.Layers() {
		states, list := map[string]bool{l.state: true}, []string{l.state}
		for len(list) > 0 {
			st := list[0]
			list = list[1:]
			for k := range l.own {
				for _, lab := range []string{l.in, l.out} {
					for _, m := range c.moves(l, lab, k, st, false) {
						if !m.ended && !states[m.next] {
							states[m.next] = true
							list = append(list, m.next)
						}
						for _, e := range m.o.Events {
							if e.Kind != EvSend || e.Gid != 0 || !e.Blocking || cons[c.P.chanLabel(e.Recv)][l.loop.Fn] == nil {
								continue
							}
							o, st, k := m.o, st, k
							c.Check(len(e.Alts) > 0, "own-queue", l.typ+"/"+st+"/"+k, func() string {
								return "the loop waits for room in the queue that it empties itself\n" + c.P.ShowTrace(o)
							})
						}
					}
				}
				c.Check(true, "own-queue", l.typ+"/"+st+"/"+k, nil)
			}
		}
	}
	c.Min("own-queue", 1)
}

func init() {
	register("C05", "Every blocking receive and send on every path of every operation, task and callback is one obligation: what it waits on must be given up (channel closed, hub closed, socket closed) by a task of the same object on every way that task ends, or by the cascade of the object above it, or be answered by a task the path itself started. Sends must have a receiver that empties the queue until it is closed, or a drain. Every task ends when what it depends on has ended, and an end tells every element of every table. Operations that wait for something to receive report io.EOF.",
		Rule{"waits", "every blocking wait is released by the end of what it depends on; queues are emptied; ends are passed on to every lower object", c05Waits},
		Rule{"ends", "tasks end when their queue is closed or the socket fails, and the end closes the socket", c05Ends},
		Rule{"eof", "a receive that can get nothing more says so", c05EOF},
		Rule{"ready", "callbacks that wait for a constructor are released whatever becomes of it", c05Ready},
		Rule{"own-queue", "an established loop does not wait on its own queue", c05Own},
		Rule{"later", "operations that find the object closed fail and wait for nothing", c08Errors},
		Rule{"entries-while-open", "nothing is entered into a table any more after the end of its object has gone through it", c08Entries},
		Rule{"bounded", "connecting, opening and closing wait for the peer only for a bounded time, and end what the peer does not answer", c14Lower})
}
