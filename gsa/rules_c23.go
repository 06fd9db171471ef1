package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C23: what was acquired is released when its holder has ended or could not be made:
// timers, sockets, contexts, table entries, hubs, clocks and tasks.

func isTimerT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Timer" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "timer"
}

// timerClose: the timer that an event stops
func timerClose(e *Event) *Term {
	if e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "Close" && e.Recv != nil && strings.HasSuffix(e.Op, "Timer).Close") {
		return e.Recv
	}
	return nil
}

func newTimer(t *Term) bool {
	t = strip(t)
	return t != nil && (t.K == KCall || t.K == KPure) && strings.HasSuffix(t.Op, "timer.NewTimer")
}

// sibling: a field of the same struct as l
func (c *Ctx) sibling(t *Term, l string) *types.Var {
	v, _ := fieldOf(strip(t))
	if v == nil || isTimerT(v.Type()) {
		return nil
	}
	m := c.P.Label(v)
	i, j := strings.LastIndex(m, "."), strings.LastIndex(l, ".")
	if i < 0 || j < 0 || m[:i] != l[:j] {
		return nil
	}
	return v
}

// evidence is what a path knows about whose a timer is
type evidence struct {
	mark *types.Var
	flag bool // the marker is a boolean with the value own
	own  bool
	obj  *Term // else the object it is equal to
}

// whose: what the events say about the owner of the timer in the field l
func (c *Ctx) whose(ev []*Event, l string) (r []evidence) {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil {
			continue
		}
		if t.K == KBin && (t.Op == "==" || t.Op == "!=") {
			for i := 0; i < 2; i++ {
				if m := c.sibling(t.A[i], l); m != nil && nilCmp(t) == nil {
					r = append(r, evidence{mark: m, own: v == (t.Op == "=="), obj: strip(t.A[1-i])})
				}
			}
			continue
		}
		if m := c.sibling(t, l); m != nil {
			if b, ok := m.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				r = append(r, evidence{mark: m, flag: true, own: v})
			}
		}
	}
	return r
}

// timerField is a field that holds a timer
type timerField struct {
	label string
	mark  *types.Var
	flag  bool
	mine  bool // the value of a boolean marker for an own timer
}

func (c *Ctx) timerFields() map[string]*timerField {
	m := map[string]*timerField{}
	votes := map[string]map[string]int{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				t := timerClose(e)
				if t == nil {
					continue
				}
				f, _ := fieldOf(strip(t))
				if f == nil {
					continue
				}
				l := c.P.Label(f)
				if m[l] == nil {
					m[l] = &timerField{label: l}
					votes[l] = map[string]int{}
				}
				for _, w := range c.whose(o.Events[:i], l) {
					if !w.flag && !w.own {
						continue
					}
					votes[l][fmt.Sprint(w.mark.Name(), w.own)]++
					if n := votes[l][fmt.Sprint(w.mark.Name(), w.own)]; n > 0 && (m[l].mark == nil || n > votes[l][fmt.Sprint(m[l].mark.Name(), m[l].mine)]) {
						m[l].mark, m[l].flag, m[l].mine = w.mark, w.flag, w.own
					}
				}
			}
		}
	}
	return m
}

// mineOn, givenOn: the path knows that the timer in the field is its own, or was given
func (f *timerField) on(ev []*Event, c *Ctx) (mine, given bool) {
	for _, w := range c.whose(ev, f.label) {
		if w.mark != f.mark {
			continue
		}
		if w.own == f.mine {
			mine = true
		} else {
			given = true
		}
	}
	return
}

// failing: what a constructor's path returns; ok is false when it is unknown
func failing(o *Outcome) (fails, ok bool) {
	if o.Kind != "return" || len(o.Rets) < 2 {
		return false, false
	}
	er := o.Rets[len(o.Rets)-1]
	if !isErrorRes(er) && !er.isNilConst() {
		return false, false
	}
	if er.isNilConst() {
		return false, true
	}
	if isnil, known := errOn(o.Events, er); known {
		return !isnil, true
	}
	x := strip(er)
	if x.K == KGlobal || x.K == KAlloc || x.K == KLoad && x.A[0].K == KGlobal {
		return true, true
	}
	if x.K == KCall || x.K == KPure {
		if strings.HasSuffix(x.Op, "errors.New") || strings.HasSuffix(x.Op, "fmt.Errorf") {
			return true, true
		}
	}
	return false, false
}

func c23Timers(c *Ctx) {
	fields := c.timerFields()
	type made struct{ field, owner string }
	owners := map[made]*Root{}
	isMaker := map[*Root]bool{}
	// where timers come from
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			for i, e := range o.Events {
				if e.Kind != EvStore || len(e.Args) == 0 {
					continue
				}
				v, b := fieldOf(e.Recv)
				if v == nil || !isTimerT(v.Type()) || e.Args[0].isNilConst() {
					continue
				}
				l := c.P.Label(v)
				f := fields[l]
				if f == nil || f.mark == nil {
					if newTimer(e.Args[0]) {
						c.Check(false, "own-closed", l, show("a timer is made and nothing that knows it as its own stops it"))
					}
					continue
				}
				// what is noted about it
				var noted *Term
				for _, s := range o.Events {
					if s.Kind != EvStore || len(s.Args) == 0 {
						continue
					}
					if w, b2 := fieldOf(s.Recv); w == f.mark && same(b, b2) {
						noted = s.Args[0]
					}
				}
				if !newTimer(e.Args[0]) {
					if f.flag {
						var is bool
						set := false
						if noted != nil {
							is, set = noted.constBool()
						}
						c.Check(set && is != f.mine, "given-noted", l+"/"+r.Name, show("a timer is given and not noted as given"))
						continue
					}
					own := false
					if noted != nil && !noted.isNilConst() {
						w, _ := fieldOf(strip(noted))
						own = w != f.mark && strip(noted).K != KParam
					}
					c.Check(!own, "given-noted", l+"/"+r.Name, show("a timer is given and noted as owned"))
					continue
				}
				isMaker[r] = true
				owner := ""
				if f.flag {
					mine, given := f.on(o.Events[:i], c)
					// the marker of a new object is not set
					is := !given && (mine || c.unset(o, e, b, f))
					if noted != nil {
						v, set := noted.constBool()
						is = set && v == f.mine
					}
					c.Check(is, "own-noted", l+"/"+r.Name, show("an own timer is not noted as such"))
					if r.Fn.Signature.Results().Len() > 0 {
						owner = namedOf(r.Fn.Signature.Results().At(0).Type())
					}
				} else {
					x := strip(noted)
					is := x != nil && x.K == KAlloc
					c.Check(is, "own-noted", l+"/"+r.Name, show("an own timer is not noted as such"))
					if is {
						owner = namedOf(x.T)
					}
				}
				if owner != "" {
					owners[made{l, owner}] = r
				}
			}
		}
	}
	// who stops them
	closed := map[made][]*Root{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			for i, e := range o.Events {
				t := timerClose(e)
				if t == nil || newTimer(t) {
					continue
				}
				v, b := fieldOf(strip(t))
				if v == nil {
					c.Check(false, "given-kept", r.Name, show("a timer of unknown origin is stopped: "+c.P.Show(t)))
					continue
				}
				l := c.P.Label(v)
				f := fields[l]
				ok := false
				var obj *Term
				for _, w := range c.whose(o.Events[:i], l) {
					if f != nil && w.mark == f.mark && w.own == f.mine {
						ok, obj = true, w.obj
					}
				}
				own := obj
				c.Check(ok, "given-kept", r.Name+"/"+l, show("a timer is stopped that may have been given"))
				if !ok {
					continue
				}
				if obj == nil {
					obj = rootObj(b)
				}
				key := made{l, namedOf(obj.T)}
				if owners[key] == nil && (own == nil || owners[made{l, c.holder(r)}] != nil && rootIs(obj)) {
					key = made{l, c.holder(r)}
				}
				self := obj.K == KParam || obj.K == KSnap || rootIs(obj)
				if r.Kind == "task" && !self {
					// on behalf of a higher object: by its own stream only
					is := false
					for _, a := range o.Events[:i] {
						if a.Kind != EvAssume {
							continue
						}
						x, v := norm(a.Cond, a.Val)
						if x != nil && x.K == KBin && v == (x.Op == "==") && (x.Op == "==" || x.Op == "!=") {
							for k := 0; k < 2; k++ {
								_, num := x.A[k].constInt()
								is = is || num && anyTerm(x.A[1-k], func(y *Term) bool { return y.K == KPure && y.Op == "get:DialogueID" })
							}
						}
					}
					if c.P.rel(r.Fn) == "application" {
						c.Check(is, "last-closes", r.Name+"/"+l, show("the end of any stream stops the timer of all"))
					} else {
						continue
					}
				}
				if !isMaker[r] {
					dup := false
					for _, x := range closed[key] {
						dup = dup || x == r
					}
					if !dup {
						closed[key] = append(closed[key], r)
					}
				}
			}
		}
	}
	begun := map[*Root]map[*Root]bool{}
	for _, maker := range owners {
		begun[maker] = c.begun(maker)
	}
	for key, maker := range owners {
		cons := key.field + "/" + key.owner
		task, needs := false, false
		for _, t := range c.tasks() {
			needs = needs || c.P.rel(t.Fn) == c.P.rel(maker.Fn) && begun[maker][t] && c.partOf(c.P.rel(maker.Fn), taskRecvType(t), key.owner)
		}
		for _, r := range closed[key] {
			task = task || r.Kind == "task"
		}
		c.Check(len(closed[key]) > 0 && (task || !needs), "own-closed", cons, func() string {
			return "nothing stops the timer made by " + maker.Name
		})
		for _, r := range closed[key] {
			f := fields[key.field]
			if r.Kind == "api" && r.Fn.Name() != "Close" {
				continue
			}
			for _, o := range c.root(r) {
				if o.Kind != "return" || o.Inner {
					continue
				}
				ok := false
				for _, e := range o.Events {
					if t := timerClose(e); t != nil {
						if v, _ := fieldOf(strip(t)); v != nil && c.P.Label(v) == key.field {
							ok = true
						}
					}
					ok = ok || e.Kind == EvOnce && !e.Val
				}
				_, given := f.on(o.Events, c)
				ok = ok || given || c.notLast(o)
				c.Check(ok, "own-closed", cons+"/"+r.Name, func() string {
					return "the end of what made the timer leaves it running\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	// constructors
	closers := map[string]map[string]bool{}
	for key, rs := range closed {
		for _, r := range rs {
			if closers[key.field] == nil {
				closers[key.field] = map[string]bool{}
			}
			if r.Kind == "task" {
				closers[key.field][r.Fn.String()] = true
			}
		}
	}
	for _, r := range c.Roots() {
		if !isMaker[r] {
			continue
		}
		for _, o := range c.root(r) {
			fails, known := failing(o)
			if !known {
				continue
			}
			n := 0
			for _, e := range o.Events {
				if !(e.Kind == EvCall && callName(e) == "NewTimer") || e.Gid != 0 {
					continue
				}
				n++
				l := ""
				for _, s := range o.Events {
					if s.Kind == EvStore && len(s.Args) > 0 && same(s.Args[0], e.Res) {
						if v, _ := fieldOf(s.Recv); v != nil {
							l = c.P.Label(v)
						}
					}
				}
				stopped, handed := false, false
				for _, s := range o.Events {
					if t := timerClose(s); t != nil {
						v, _ := fieldOf(strip(t))
						stopped = stopped || same(t, e.Res) || v != nil && c.P.Label(v) == l
					}
					if s.Kind == EvGo && s.Fn != nil && closers[l][s.Fn.String()] {
						handed = true
					}
				}
				if f := fields[l]; f != nil && !stopped {
					_, other := f.on(o.Events, c)
					stopped = other && fails
				}
				if fails {
					c.Check(stopped || handed, "failed-closed", r.Name+"/"+l, func() string {
						return "construction fails and the timer it made goes on\n" + c.P.ShowTrace(o)
					})
				} else {
					c.Check(!stopped, "usable", r.Name+"/"+l, func() string {
						return "construction succeeds and its timer is stopped\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	c.Min("given-kept", 4)
	c.Min("given-noted", 4)
	c.Min("own-noted", 5)
	c.Min("own-closed", 6)
	c.Min("failed-closed", 3)
	c.Min("usable", 4)
}

// unset: nothing has set the marker of a fresh object, whose zero value says it is its own
func (c *Ctx) unset(o *Outcome, at *Event, b *Term, f *timerField) bool {
	if r := rootObj(b); r == nil || r.K != KAlloc || f.mine {
		return false
	}
	for _, e := range o.Events {
		if e == at {
			break
		}
		// an option may have set it
		if e.Kind == EvDyn && len(e.Args) > 0 {
			return false
		}
		if e.Kind == EvStore {
			if w, _ := fieldOf(e.Recv); w == f.mark {
				return false
			}
		}
	}
	return true
}

// rootIs: the object is the one the entry belongs to
func rootIs(t *Term) bool {
	f, _ := fieldOf(t)
	return f == nil && t.K != KCall && t.K != KPure && t.K != KTupleEl
}

// holder: the type whose entry it is
func (c *Ctx) holder(r *Root) string {
	if len(r.Fn.Params) > 0 && r.Fn.Signature.Recv() != nil {
		return namedOf(r.Fn.Params[0].Type())
	}
	return ""
}

// begun: the tasks an entry starts, or they in turn
func (c *Ctx) begun(r *Root) map[*Root]bool {
	res := map[*Root]bool{}
	todo := []*Root{r}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, o := range c.root(x) {
			for _, e := range o.Events {
				if e.Kind != EvGo || e.Fn == nil {
					continue
				}
				for _, t := range c.tasks() {
					if t.Fn == e.Fn && !res[t] {
						res[t] = true
						todo = append(todo, t)
					}
				}
			}
		}
	}
	return res
}

// partOf: the type is the owner or embedded in it
func (c *Ctx) partOf(pkg, t, owner string) bool {
	if t == owner {
		return true
	}
	pk := c.P.TPkgs[pkg]
	if pk == nil {
		return false
	}
	n := pk.Scope().Lookup(owner)
	if n == nil {
		return false
	}
	st, ok := n.Type().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && namedOf(st.Field(i).Type()) == t {
			return true
		}
	}
	return false
}

// notLast: the stream that ends is not the one that ends its end
func (c *Ctx) notLast(o *Outcome) bool {
	for _, a := range o.Events {
		if a.Kind != EvAssume {
			continue
		}
		x, v := norm(a.Cond, a.Val)
		if x == nil || x.K != KBin || x.Op != "==" && x.Op != "!=" || v == (x.Op == "==") {
			continue
		}
		for k := 0; k < 2; k++ {
			n, num := x.A[k].constInt()
			if num && n == 1 && anyTerm(x.A[1-k], func(y *Term) bool { return y.K == KPure && y.Op == "get:DialogueID" }) {
				return true
			}
		}
	}
	return false
}

func isNetConnT(t types.Type) bool { return t != nil && namedIs(t, "net", "Conn") }

// closesTerm: the event closes the object
func closesTerm(e *Event, t *Term) bool {
	if e.Kind != EvCall || callName(e) != "Close" {
		return false
	}
	if e.Recv != nil && same(e.Recv, t) {
		return true
	}
	return e.Recv == nil && len(e.Args) > 0 && same(e.Args[0], t)
}

// c23Failed: a constructor that fails closes the connection it was given or got, and
// returns nothing but the error
func c23Failed(c *Ctx) {
	takes := map[string]bool{}
	cands := []*Root{}
	for _, r := range c.Roots() {
		sig := r.Fn.Signature
		if r.Kind == "api" && (sig.Recv() != nil || sig.Results().Len() != 2 || !isErrorT(sig.Results().At(1).Type())) {
			continue
		}
		if r.Kind == "callback" {
			continue
		}
		switch c.P.rel(r.Fn) {
		case "conn", "client", "server":
		default:
			continue
		}
		cands = append(cands, r)
		for i := 0; i < sig.Params().Len() && r.Kind == "api"; i++ {
			if isNetConnT(sig.Params().At(i).Type()) {
				takes[r.Fn.String()] = true
			}
		}
	}
	for _, r := range cands {
		for _, o := range c.root(r) {
			if o.Kind != "return" || o.Inner {
				continue
			}
			fails, known := true, true
			if r.Kind == "api" {
				fails, known = failing(o)
			} else {
				fails = false
				for _, e := range o.Events {
					if e.Kind == EvCall && e.Gid == 0 && e.Fn != nil && e.Fn.Pkg != nil && c.P.inMod[e.Fn.Pkg.Pkg] && e.Res != nil && e.Res.K == KTuple && isErrorT(e.Res.A[len(e.Res.A)-1].T) {
						isnil, ok := errOn(o.Events, e.Res.A[len(e.Res.A)-1])
						fails = fails || ok && !isnil
					}
				}
			}
			// acquired: given, dialled, made
			type got struct {
				t    *Term
				what string
				at   int
			}
			var have []got
			if r.Kind == "api" {
				for _, p := range r.Fn.Params {
					if isNetConnT(p.Type()) {
						have = append(have, got{c.param(o, p.Name(), p.Type()), "the connection it was given", -1})
					}
				}
			}
			for i, e := range o.Events {
				if e.Gid != 0 || e.Res == nil || e.Res.K != KTuple || len(e.Res.A) != 2 || !isErrorT(e.Res.A[1].T) {
					continue
				}
				if e.Kind != EvCall && e.Kind != EvDyn {
					continue
				}
				x := e.Res.A[0]
				if x.T == nil {
					continue
				}
				isC := isNetConnT(x.T) || namedIs(x.T, "conn", "Conn") || namedIs(deref(x.T), "conn", "ClientConn") || namedIs(deref(x.T), "conn", "ServerConn")
				if !isC {
					continue
				}
				if isnil, ok := errOn(o.Events, e.Res.A[1]); ok && isnil {
					have = append(have, got{x, "the connection it got from " + callName(e), i})
				}
			}
			if r.Kind == "api" && len(have) == 0 && !takes[r.Fn.String()] {
				continue
			}
			for _, g := range have {
				if g.t == nil {
					continue
				}
				closed, taken := false, false
				for i, e := range o.Events {
					if i < g.at || e.Gid != 0 {
						continue
					}
					closed = closed || closesTerm(e, g.t)
					// given to a constructor, which closes it when it fails
					if e.Kind == EvCall && e.Res != nil && e.Res.K == KTuple && isErrorT(e.Res.A[len(e.Res.A)-1].T) && e.Fn != nil && takes[e.Fn.String()] {
						for _, a := range e.Args {
							if same(a, g.t) {
								isnil, ok := errOn(o.Events, e.Res.A[len(e.Res.A)-1])
								taken = taken || ok && !isnil
								if ok && isnil {
									// what came out of it is closed instead
									for _, f := range o.Events[i:] {
										taken = taken || closesTerm(f, e.Res.A[0])
									}
								}
							}
						}
					}
				}
				if !known {
					continue
				}
				if fails {
					c.Check(closed || taken, "failed-conn-closed", r.Name, func() string {
						return "construction fails and " + g.what + " stays open\n" + c.P.ShowTrace(o)
					})
				} else {
					c.Check(!closed, "made-conn-open", r.Name, func() string {
						return "construction succeeds and " + g.what + " is closed\n" + c.P.ShowTrace(o)
					})
				}
			}
			if r.Kind == "api" && known {
				if fails {
					c.Check(o.Rets[0].isNilConst(), "half-built", r.Name, func() string {
						return "an error and " + c.P.Show(o.Rets[0]) + "\n" + c.P.ShowTrace(o)
					})
				} else {
					c.Check(!o.Rets[0].isNilConst(), "half-built", r.Name, func() string {
						return "neither an error nor an end\n" + c.P.ShowTrace(o)
					})
				}
			}
		}
	}
	c.Min("failed-conn-closed", 5)
	c.Min("half-built", 5)
}

// param: the term of a parameter on a path
func (c *Ctx) param(o *Outcome, name string, t types.Type) *Term {
	var r *Term
	for _, e := range o.Events {
		look := append([]*Term{e.Recv, e.Cond}, e.Args...)
		for _, x := range look {
			if x == nil || r != nil {
				continue
			}
			anyTerm(x, func(y *Term) bool {
				if y.K == KParam && y.T != nil && types.Identical(y.T, t) && c.P.Show(y) == name {
					r = y
				}
				return false
			})
		}
	}
	return r
}

// isHubT: a hub of waiters
func isHubT(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "SyncHub"
}

func isStdCall(e *Event, typ, name string) bool {
	return e.Kind == EvCall && len(e.Args) > 0 && strings.HasSuffix(e.Op, typ+")."+name)
}

// c23Tables: entries leave their tables
func c23Tables(c *Ctx) {
	// hubs, whose closing answers and forgets every waiter
	hubs := map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				if e.Kind != EvStore || len(e.Args) == 0 || e.Args[0].isNilConst() {
					continue
				}
				if f, _ := fieldOf(e.Recv); f != nil && isHubT(f.Type()) {
					hubs[c.P.Label(f)] = true
				}
			}
		}
	}
	for l := range hubs {
		c.Check(c.released(l, nil), "hub-closed", l, func() string {
			return "an end of what holds the waiters does not close them"
		})
	}
	c.Min("hub-closed", 3)
	// what an operation files while it runs
	fresh := map[string]bool{} // tables of objects in the making
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			if o.Inner {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			for i, e := range o.Events {
				if e.Kind != EvMapSet || len(e.Args) < 2 || c.P.rel(r.Fn) != "multiplexer" || r.Fn.Signature.Recv() == nil {
					continue
				}
				x := strip(e.Args[1])
				if x == nil || x.K != KAlloc {
					continue
				}
				fresh[c.mapLabel(o, i)] = true
				if r.Kind != "api" || o.Kind != "return" {
					continue
				}
				gone := false
				for j := i + 1; j < len(o.Events); j++ {
					if g := o.Events[j]; g.Kind == EvMapDel && c.mapLabel(o, j) == c.mapLabel(o, i) && same(g.Args[0], e.Args[0]) {
						gone = true
					}
				}
				c.Check(gone, "opening-forgotten", r.Name, show("a stream stays filed as being opened after the opening"))
			}
		}
	}
	c.Min("opening-forgotten", 1)
	// online: it moves from one table to the other; offline: it leaves
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "multiplexer" || r.Fn.Signature.Recv() == nil || r.Fn.Signature.Params().Len() != 1 {
			continue
		}
		on, off := strings.HasSuffix(r.Fn.Name(), "Online"), strings.HasSuffix(r.Fn.Name(), "Offline")
		if !on && !off {
			continue
		}
		keeps := false
		for _, o := range c.root(r) {
			for _, e := range o.Events {
				keeps = keeps || e.Kind == EvMapSet || e.Kind == EvMapDel
			}
		}
		if !keeps {
			continue
		}
		for _, o := range c.root(r) {
			if o.Kind != "return" || o.Inner || c.streamGone(o.Events) {
				continue
			}
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			ok := false
			for i, e := range o.Events {
				switch e.Kind {
				case EvMapDel:
					key := strip(e.Args[0])
					if key == nil || key.K != KPure && key.K != KLoad || !anyTerm(key, func(y *Term) bool { return y.K == KParam }) {
						continue
					}
					want := "DialogueID"
					if on {
						want = "NegotiatingID"
					}
					ok = ok || fresh[c.mapLabel(o, i)] == on && strings.EqualFold(keyName(key), want)
				case EvAssume:
					// not filed there
					t, v := norm(e.Cond, e.Val)
					ok = ok || missing(t, v) != nil
				}
			}
			c.Check(ok, "moved", r.Name, show("an entry of the stream is left behind"))
		}
	}
	c.Min("moved", 2)
	// streams of an end: filed before they can end, and removed by their end
	filed := map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				if !isStdCall(e, "sync.Map", "Store") {
					continue
				}
				f, _ := fieldOf(e.Args[0])
				if f == nil || len(e.Args) < 3 {
					continue
				}
				filed[c.P.Label(f)] = true
				started := false
				for _, g := range o.Events[:i] {
					started = started || g.Kind == EvGo && len(g.Args) > 0 && same(g.Args[0], e.Args[2])
				}
				c.Check(!started, "filed-first", r.Name, func() string {
					return "the stream is filed when it may already have ended\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	for l := range filed {
		n := 0
		for _, r := range c.tasks() {
			for _, o := range c.root(r) {
				if o.Kind != "return" || o.Inner {
					continue
				}
				gone, ends := false, false
				for _, e := range o.Events {
					ends = ends || e.Kind == EvOnce && e.Val
					if isStdCall(e, "sync.Map", "Delete") {
						if f, _ := fieldOf(e.Args[0]); f != nil && c.P.Label(f) == l {
							k := strip(e.Args[1])
							gone = gone || k != nil && strings.EqualFold(keyName(k), "DialogueID")
						}
					}
				}
				if !ends || c.P.rel(r.Fn) != "application" {
					continue
				}
				n++
				c.Check(gone, "unfiled", l+"/"+r.Name, func() string {
					return "a stream has ended and its end still lists it\n" + c.P.ShowTrace(o)
				})
			}
		}
		c.Check(n > 0, "unfiled", l, func() string { return "the end of a stream is not found" })
	}
	c.Min("filed-first", 4)
	c.Min("unfiled", 1)
	// waiting operations on a list
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			if o.Kind != "return" || o.Inner {
				continue
			}
			for i, e := range o.Events {
				if !isStdCall(e, "list.List", "PushBack") && !isStdCall(e, "list.List", "PushFront") {
					continue
				}
				ok := false
				for _, g := range o.Events[i:] {
					if isStdCall(g, "list.List", "Remove") && len(g.Args) > 1 && same(g.Args[0], e.Args[0]) && same(g.Args[1], e.Res) {
						ok = true
					}
					// who closes it takes it off
					if g.Kind == EvRecv && same(strip(g.Recv), strip(e.Args[1])) {
						ok = true
					}
				}
				c.Check(ok, "waiter-unlisted", r.Name, func() string {
					return "the operation is done and still listed as waiting\n" + c.P.ShowTrace(o)
				})
			}
		}
	}
	c.Min("waiter-unlisted", 2)
}

// mapOK: the element whose presence the term tells
func mapOK(t *Term) *Term {
	if t != nil && t.K == KPure && t.Op == "mapok" && len(t.A) > 0 && t.A[0].K == KMapVal {
		return t.A[0]
	}
	return nil
}

// missing: the entry that the condition finds absent (the values of the tables are never nil)
func missing(t *Term, v bool) *Term {
	if m := mapOK(t); m != nil {
		if v {
			return nil
		}
		return m
	}
	x := nilCmp(t)
	if x == nil || v != (t.Op == "==") {
		return nil
	}
	for x = strip(x); x.K == KTupleEl; x = strip(x.A[0]) {
	}
	if x.K != KMapVal {
		return nil
	}
	return x
}

// keyName: the accessor or field a key was read from
func keyName(t *Term) string {
	if f, _ := fieldOf(t); f != nil {
		return f.Name()
	}
	return strings.TrimPrefix(t.Op, "get:")
}

// c23Contexts: the context of a handler is released once the handler is done
func c23Contexts(c *Ctx) {
	r, lab := c.appRead()
	if r == nil {
		return
	}
	c.handlings(r, lab, "RequestPacket", RunOpts{InlineGo: true}, func(o *Outcome, ev []*Event) {
		show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
		hs := c.handlerCalls(ev)
		last := -1
		for _, h := range hs {
			last = h.i
		}
		for _, e := range ev {
			if e.Kind == EvCall && strings.HasPrefix(e.Op, "context.With") && e.Res != nil && e.Res.K == KTuple {
				made, _ := ctxCall(e.Res.A[0])
				used := false
				for _, h := range hs {
					for _, a := range h.e.Args {
						if call, i := ctxCall(a); call != nil && i == 0 && cancels(made, call) {
							used = true
						}
					}
				}
				released := false
				tab := ""
				for i, g := range ev {
					if g.Kind == EvMapSet && len(g.Args) > 1 {
						if call, k := ctxCall(g.Args[1]); call != nil && k == 1 && cancels(call, made) {
							tab = c.P.chanLabel(g.Recv)
						}
					}
					if used && i <= last {
						continue
					}
					if g.Kind == EvDyn {
						if call, k := ctxCall(g.Recv); call != nil && k == 1 && cancels(call, made) {
							released = true
						}
						f := strip(g.Recv)
						for f.K == KTupleEl {
							f = f.A[0]
						}
						if f.K == KMapVal && tab != "" && c.P.chanLabel(f.A[0]) == tab {
							released = true
						}
					}
					// somebody took it off, and released it
					if g.Kind == EvAssume {
						t, v := norm(g.Cond, g.Val)
						if t = missing(t, v); t != nil && tab != "" && c.P.chanLabel(t.A[0]) == tab {
							released = true
						}
					}
				}
				c.Check(released, "context-released", r.Name, show("the context of the request is never released"))
				// and it is not remembered any longer
				if tab != "" {
					gone := false
					for i, g := range ev {
						if i > last && (g.Kind == EvMapDel && c.P.chanLabel(g.Recv) == tab) {
							gone = true
						}
						if i > last && g.Kind == EvAssume {
							t, v := norm(g.Cond, g.Val)
							t = missing(t, v)
							gone = gone || t != nil && c.P.chanLabel(t.A[0]) == tab
						}
					}
					c.Check(gone, "context-forgotten", r.Name, show("a finished request is kept"))
				}
			}
		}
	})
	c.Min("context-released", 1)
	c.Min("context-forgotten", 1)
}

const c23Expl = "Every entry (public operation, background task, callback) is executed on every path. Decided: a timer made by a constructor is noted as its own and stopped by the end of what made it, one that was given is noted so and never stopped; a constructor that fails stops the timer it made, closes the connection it was given or got, and returns nothing but the error; hubs are closed when their owner ends; entries move between tables and leave them with the stream they stand for, and are filed before the stream can end; the context of a request is released and forgotten once the handler is done, or when no handler is found; the heartbeat tick stops with its connection; every background task ends with its queue or socket."

func init() {
	register("C23", c23Expl, Rule{"timers", "own timers are stopped by the end of what made them, given ones are not", c23Timers},
		Rule{"failed", "a failed construction closes the connection and returns only the error", c23Failed},
		Rule{"tables", "hubs are closed, and entries leave their tables with what they stand for", c23Tables},
		Rule{"contexts", "the context of a handler is released when it is done", c23Contexts},
		Rule{"clocks", "the heartbeat tick stops with its connection", c16Stops},
		Rule{"tasks", "tasks end with their queue or socket, and the end closes the socket", c05Ends},
		Rule{"waiting-tasks", "whatever a task waits for is ended with its object", c23Tasks},
		Rule{"entries-while-open", "nothing is entered into a table any more after the end of its object has gone through it", c08Entries},
		Rule{"entries", "an ended stream leaves its tables", c15Pass})
}
