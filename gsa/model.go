package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scope: packages whose code implements the system; excluded: unfinished code nothing uses
var scopePkgs = []string{"packet", "conn", "multiplexer", "application", "client", "server", "pkg/id", "pkg/sync", "pkg/net"}

func (p *Prog) inScope(fn *ssa.Function) bool {
	r := p.rel(fn)
	ok := false
	for _, s := range scopePkgs {
		if s == r {
			ok = true
		}
	}
	if !ok {
		return false
	}
	return !p.deadType(p.recvOf(p.rootFn(fn)))
}

func (p *Prog) recvOf(fn *ssa.Function) *types.Named {
	if r := fn.Signature.Recv(); r != nil {
		n, _ := deref(r.Type()).(*types.Named)
		return n
	}
	return nil
}

// deadType: an unexported type that only its own methods and one constructor mention, whose constructor nobody calls
func (p *Prog) deadType(n *types.Named) bool {
	return n != nil && p.dead()[n]
}

func (p *Prog) dead() map[*types.Named]bool {
	if p.deadMem != nil {
		return p.deadMem
	}
	p.deadMem = map[*types.Named]bool{}
	// constructors: functions without receiver that allocate the type
	alloc := map[*types.Named]map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if n, ok := deref(a.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && p.inMod[n.Obj().Pkg()] {
						if alloc[n] == nil {
							alloc[n] = map[*ssa.Function]bool{}
						}
						alloc[n][p.rootFn(fn)] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && p.rootFn(fn) != f {
						called[f] = true
					}
				}
			}
		}
	}
	for n, ctors := range alloc {
		if n.Obj().Exported() {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		used := false
		for f := range ctors {
			own := p.recvOf(f) == n
			// an exported constructor whose result type is exported is API
			if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil {
				for i := 0; i < f.Signature.Results().Len(); i++ {
					rn, ok := deref(f.Signature.Results().At(i).Type()).(*types.Named)
					if ok && rn.Obj().Exported() {
						used = true
					}
				}
			}
			if !own && (called[f] || f.Signature.Recv() != nil || f.Object() != nil && !f.Object().Exported()) {
				used = true
			}
		}
		if !used {
			p.deadMem[n] = true
		}
	}
	return p.deadMem
}

// referenced: functions mentioned somewhere, or callable through an interface of the module
func (p *Prog) referenced() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	names := map[string]bool{}
	for _, tp := range p.TPkgs {
		for _, n := range tp.Scope().Names() {
			if tn, ok := tp.Scope().Lookup(n).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						names[it.Method(i).Name()] = true
					}
				}
			}
		}
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && !r[f] {
						r[f] = true
						if f.Synthetic != "" {
							visit(f)
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		visit(fn)
		if names[fn.Name()] {
			r[fn] = true
		}
	}
	return r
}

// Root is an entry of the analysed code: API, task, or callback.
type Root struct {
	Fn    *ssa.Function
	Name  string
	Kind  string // api, task, callback
	Spawn *Event // the go statement of a task
	Site  *ssa.Function
	opts  RunOpts
}

// generalise replaces objects created by the spawner by arbitrary ones.
func (p *Prog) generalise(t *Term, h *Heap) *Term {
	if t == nil {
		return nil
	}
	switch t.K {
	case KAlloc:
		if _, ok := deref(t.T).Underlying().(*types.Struct); ok {
			return &Term{K: KParam, Op: "the " + t.Op, T: t.T}
		}
		return t
	case KMake:
		if h != nil {
			var keys []string
			for k := range h.m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				c := h.m[k]
				if c.addr.K == KFieldA && c.val.Key() == t.Key() {
					return &Term{K: KLoad, A: []*Term{p.generalise(c.addr, nil)}, T: t.T}
				}
			}
		}
		return t
	}
	if len(t.A) == 0 {
		return t
	}
	n := *t
	n.key = ""
	n.A = make([]*Term, len(t.A))
	for i, a := range t.A {
		n.A[i] = p.generalise(a, h)
	}
	return &n
}

// taskOpts are the options that explore the body of a go statement with the values it was given.
func (c *Ctx) taskOpts(e *Event, o RunOpts) RunOpts {
	for _, a := range e.Args {
		o.Args = append(o.Args, c.P.generalise(a, e.Heap))
	}
	if o.Args == nil {
		o.Args = []*Term{}
	}
	if e.Recv != nil && e.Recv.K == KClosure {
		for _, a := range e.Recv.A {
			o.Free = append(o.Free, c.P.generalise(a, e.Heap))
		}
	}
	h := &Heap{m: map[string]cell{}}
	if e.Heap != nil {
		for _, ce := range e.Heap.m {
			if ce.addr.K == KAlloc {
				if _, ok := deref(ce.addr.T).Underlying().(*types.Struct); ok {
					continue
				}
				h.m[ce.addr.Key()] = cell{ce.addr, c.P.generalise(ce.val, e.Heap)}
			}
		}
	}
	o.Heap = h
	return o
}

// Roots lists every entry of the code in scope.
func (c *Ctx) Roots() []*Root {
	if c.roots2 != nil {
		return c.roots2
	}
	seen := map[*ssa.Function]bool{}
	var rs []*Root
	add := func(r *Root) {
		if seen[r.Fn] {
			return
		}
		seen[r.Fn] = true
		rs = append(rs, r)
	}
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || !c.P.inScope(fn) || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || isMerge(fn) {
			continue
		}
		add(&Root{Fn: fn, Name: fnName(fn), Kind: "api"})
	}
	entered := map[*ssa.Function]bool{}
	type pending struct {
		fn *ssa.Function
		e  *Event
	}
	var pend []pending
	scan := func(i int) {
		for ; i < len(rs); i++ {
			r := rs[i]
			o := r.opts
			o.Key = "root"
			for _, out := range c.Traces(r.Fn, r.Name, o) {
				for _, e := range out.Events {
					if e.In != nil {
						entered[e.In] = true
					}
					if e.Kind == EvEnter {
						entered[e.Fn] = true
					}
					if e.Kind == EvGo && e.Fn != nil && c.P.inScope(e.Fn) && len(e.Fn.Blocks) > 0 && !seen[e.Fn] {
						add(&Root{Fn: e.Fn, Name: fnName(e.Fn), Kind: "task", Spawn: e, Site: e.In, opts: c.taskOpts(e, RunOpts{})})
					}
					if e.Heap != nil && (e.Kind == EvCall || e.Kind == EvDyn || e.Kind == EvMapSet || e.Kind == EvSend) {
						for _, a := range e.Args {
							anyTerm(a, func(t *Term) bool {
								if t.K == KClosure {
									fn := t.Obj.(*ssa.Function)
									if c.P.inScope(fn) && fn.Synthetic == "" && len(fn.Blocks) > 0 && !seen[fn] {
										pend = append(pend, pending{fn, &Event{Heap: e.Heap, Recv: t, In: e.In, Fn: fn}})
									}
								}
								return false
							})
						}
					}
				}
			}
			entered[r.Fn] = true
		}
	}
	scan(0)
	for i := 0; i < len(pend); i++ {
		pe := pend[i]
		if entered[pe.fn] || c.fns[pe.fn] || seen[pe.fn] {
			continue
		}
		n := len(rs)
		o := c.taskOpts(pe.e, RunOpts{})
		o.Args = nil
		add(&Root{Fn: pe.fn, Name: fnName(pe.fn), Kind: "callback", Site: pe.e.In, opts: o})
		scan(n)
	}
	for f := range c.fns {
		entered[f] = true
	}
	// what nothing above runs is called back by somebody else
	ref := c.P.referenced()
	for _, fn := range c.P.Funcs {
		if !ref[fn] && fn.Parent() == nil && fn.Object() != nil && !fn.Object().Exported() {
			continue // nobody mentions it
		}
		if !entered[fn] && !seen[fn] && c.P.inScope(fn) && !isMerge(fn) && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") && fn.Synthetic == "" {
			n := len(rs)
			add(&Root{Fn: fn, Name: fnName(fn), Kind: "callback"})
			scan(n)
			for f := range c.fns {
				entered[f] = true
			}
		}
	}
	c.roots2 = rs
	return rs
}

// Run explores a root with more options.
func (c *Ctx) RunRoot(r *Root, o RunOpts) []*Outcome {
	o.Args, o.Free, o.Heap = r.opts.Args, r.opts.Free, r.opts.Heap
	return c.Traces(r.Fn, r.Name, o)
}

// chanLabel names a channel by the field that holds it or the getter that returns it.
func (p *Prog) chanLabel(t *Term) string {
	t = strip(t)
	if t == nil {
		return ""
	}
	if v, _ := fieldOf(t); v != nil {
		return p.Label(v)
	}
	if t.K == KPure && strings.HasPrefix(t.Op, "get:") {
		rt := ""
		if len(t.A) > 0 && t.A[0].T != nil {
			if n, ok := deref(t.A[0].T).(*types.Named); ok {
				rt = n.Obj().Name() + "."
			}
		}
		return rt + t.Op
	}
	if t.K == KMake {
		return "fresh"
	}
	return t.Op
}

// evLabel names the channel of an event; a fresh one is named by the field that holds it
func (p *Prog) evLabel(e *Event) string {
	l := p.chanLabel(e.Recv)
	if l != "fresh" || e.Heap == nil {
		return l
	}
	best := ""
	for _, c := range e.Heap.m {
		if c.addr.K == KFieldA && sameVal(c.val, e.Recv) {
			if n := p.chanLabel(c.addr); best == "" || n < best {
				best = n
			}
		}
	}
	if best == "" {
		return l
	}
	return best
}

// isField: t is a load or the address of the given field (by label)
func (p *Prog) isField(t *Term, label string) bool {
	v, _ := fieldOf(t)
	return v != nil && p.Label(v) == label
}

// pktTypes are the concrete packet structs by name.
func (p *Prog) pktTypes() map[string]types.Type {
	r := map[string]types.Type{}
	tp := p.TPkgs["packet"]
	if tp == nil {
		return r
	}
	it, _ := tp.Scope().Lookup("Packet").Type().Underlying().(*types.Interface)
	for _, n := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if it != nil && types.Implements(pt, it) && strings.HasSuffix(n, "Packet") {
			r[n] = pt
		}
	}
	return r
}

var connLayer = map[string]bool{"ConnPacket": true, "ConnAckPacket": true, "DisConnPacket": true, "DisConnAckPacket": true, "HeartbeatPacket": true, "HeartbeatAckPacket": true}
var sessionLayer = map[string]bool{"SessionPacket": true, "SessionAckPacket": true, "DismissPacket": true, "DismissAckPacket": true}

func (p *Prog) pktTerm(name string) *Term {
	t := p.pktTypes()[name]
	return &Term{K: KIface, T: t, A: []*Term{{K: KParam, Op: "pkt", T: t}}}
}

func isPacketIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Packet" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/packet")
}

// sends of a value
func isPkt(t *Term) bool {
	s := strip(t)
	return s != nil && s.K == KParam && s.Op == "pkt"
}

// assumed looks up what a path assumed about conditions matching f.
func assumed(o *Outcome, f func(*Term) bool) (val, found bool) {
	for _, e := range o.Events {
		if e.Kind == EvAssume && f(e.Cond) {
			return e.Val, true
		}
	}
	return false, false
}

// callName is the method or function name of a call event
func callName(e *Event) string {
	if e.Kind != EvCall {
		return ""
	}
	s := e.Op
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func isCall(e *Event, names ...string) bool {
	n := callName(e)
	if n == "" {
		return false
	}
	for _, x := range names {
		if x == n {
			return true
		}
	}
	return false
}

// recvType of a call: the short name of the type the method belongs to
func callRecv(e *Event) string {
	if e.Kind != EvCall || !strings.HasPrefix(e.Op, "(") {
		return ""
	}
	s := e.Op[1:strings.Index(e.Op, ")")]
	s = strings.TrimPrefix(s, "*")
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func index(o *Outcome, f func(*Event) bool) int {
	for i, e := range o.Events {
		if f(e) {
			return i
		}
	}
	return -1
}

func count(o *Outcome, f func(*Event) bool) int {
	n := 0
	for _, e := range o.Events {
		if f(e) {
			n++
		}
	}
	return n
}

func sortedStrs(m map[string]bool) []string { return sortedKeys(m) }

// constStr reads an exported string constant of a package.
func (p *Prog) constStr(pkg, name string) string {
	if tp := p.TPkgs[pkg]; tp != nil {
		if k, ok := tp.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	return ""
}

// pktAddr is the address of a (promoted) field of a packet.
func (c *Ctx) pktAddr(pkt *Term, field string) *Term {
	pkt = strip(pkt)
	_, index, _ := types.LookupFieldOrMethod(pkt.T, true, c.P.TPkgs["packet"], field)
	cur, t := pkt, pkt.T
	for i, ix := range index {
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		f := s.Field(ix)
		addr := &Term{K: KFieldA, A: []*Term{cur}, Obj: f, T: types.NewPointer(f.Type())}
		if i == len(index)-1 {
			return addr
		}
		cur = addr
		if _, ptr := f.Type().Underlying().(*types.Pointer); ptr {
			cur = &Term{K: KLoad, A: []*Term{addr}, T: f.Type()}
		}
		t = f.Type()
	}
	return nil
}

// pktHeap is a heap in which the packet carries the type number of its structure.
func (c *Ctx) pktHeap(name string, h *Heap) *Heap {
	n := &Heap{m: map[string]cell{}}
	if h != nil {
		n = h.clone()
	}
	k, _ := c.P.TPkgs["packet"].Scope().Lookup("Type" + name).(*types.Const)
	a := c.pktAddr(c.P.pktTerm(name), "Typ")
	if k == nil || a == nil {
		return n
	}
	n.m[a.Key()] = cell{a, constT(k.Val(), k.Type())}
	return n
}

// loadOf is the term of a packet field as the code reads it.
func (c *Ctx) pktLoad(pkt *Term, field string) *Term {
	a := c.pktAddr(pkt, field)
	if a == nil {
		return nil
	}
	return &Term{K: KLoad, A: []*Term{a}, T: deref(a.T)}
}

func sameVal(a, b *Term) bool {
	return a != nil && b != nil && strip(a).Key() == strip(b).Key()
}
