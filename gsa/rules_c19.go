package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: identifiers.

// lowBit: the lowest bit of a number, if it is known
func lowBit(t *Term, base func(*Term) (int, bool)) (int, bool) {
	if t == nil {
		return 0, false
	}
	if base != nil {
		if b, ok := base(t); ok {
			return b, true
		}
	}
	if t.K == KConst {
		if n, ok := constUint(t); ok {
			return int(n & 1), true
		}
		return 0, false
	}
	switch t.K {
	case KConv:
		if !isNumericT(t.T) || !isNumericT(t.A[0].T) {
			return 0, false
		}
		return lowBit(t.A[0], base)
	case KNeg:
		return lowBit(t.A[0], base)
	case KBin:
		a, okA := lowBit(t.A[0], base)
		b, okB := lowBit(t.A[1], base)
		switch t.Op {
		case "+", "-", "^":
			return a ^ b, okA && okB
		case "&":
			if okA && a == 0 || okB && b == 0 {
				return 0, true
			}
			return a & b, okA && okB
		case "*":
			if okA && a == 0 || okB && b == 0 {
				return 0, true
			}
			return a & b, okA && okB
		case "|":
			if okA && a == 1 || okB && b == 1 {
				return 1, true
			}
			return a | b, okA && okB
		case "&^":
			if okA && a == 0 || okB && b == 1 {
				return 0, true
			}
			return a, okA && okB
		case "<<":
			if k, ok := constUint(t.A[1]); ok {
				if k == 0 {
					return a, okA
				}
				return 0, true
			}
		case ">>", "/":
			return 0, false
		case "%":
			if k, ok := constUint(t.A[1]); ok && k%2 == 0 && k > 0 {
				return a, okA
			}
		}
	}
	return 0, false
}

func constUint(t *Term) (uint64, bool) {
	v := t.constVal()
	if v == nil {
		return 0, false
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return 0, false
	}
	if n, ok := constant.Uint64Val(v); ok {
		return n, true
	}
	n, ok := constant.Int64Val(v)
	return uint64(n), ok
}

// lowPart: what makes up the low 32 bits of a number; the rest only has higher ones
func lowPart(t *Term) (low []*Term, high []*Term) {
	if t == nil {
		return nil, nil
	}
	switch {
	case t.K == KConv && isNumericT(t.T) && isNumericT(t.A[0].T):
		to, _ := bits(t.T)
		if to == 64 || to == 0 {
			return lowPart(t.A[0])
		}
	case t.K == KBin && (t.Op == "+" || t.Op == "|" || t.Op == "^"):
		l1, h1 := lowPart(t.A[0])
		l2, h2 := lowPart(t.A[1])
		return append(l1, l2...), append(h1, h2...)
	case t.K == KBin && t.Op == "<<":
		if k, ok := constUint(t.A[1]); ok && k >= 32 {
			return nil, []*Term{t.A[0]}
		}
	case t.K == KBin && t.Op == "*":
		for i := 0; i < 2; i++ {
			if k, ok := constUint(t.A[i]); ok && k != 0 && k%(1<<32) == 0 {
				return nil, []*Term{t.A[1-i]}
			}
		}
	case t.K == KConst:
		if n, ok := constUint(t); ok && n == 0 {
			return nil, nil
		}
	}
	return []*Term{t}, nil
}

// generator: a type that hands out identifiers
type generator struct {
	typ     *types.Named
	mode    *types.Var // which kind of generator it is
	counter *types.Var
	used    *types.Var        // the set of identifiers in use
	modes   map[string]string // kind: its value
	parity  map[string]int    // of what a kind of generator draws
}

func (c *Ctx) generators() []*generator {
	tp := c.P.TPkgs["pkg/id"]
	if tp == nil {
		return nil
	}
	obj, _ := tp.Scope().Lookup("IDFactory").(*types.TypeName)
	mode, _ := tp.Scope().Lookup("Mode").(*types.TypeName)
	if obj == nil || mode == nil {
		return nil
	}
	iface, _ := obj.Type().Underlying().(*types.Interface)
	modes := map[string]string{}
	for _, n := range tp.Scope().Names() {
		if k, ok := tp.Scope().Lookup(n).(*types.Const); ok && types.Identical(k.Type(), mode.Type()) {
			modes[n] = k.Val().ExactString()
		}
	}
	var res []*generator
	for _, n := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || iface == nil || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}
		g := &generator{typ: tn.Type().(*types.Named), modes: modes, parity: map[string]int{}}
		st, _ := g.typ.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i)
			if types.Identical(f.Type(), mode.Type()) {
				g.mode = f
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok && isNumericT(m.Key()) {
				g.used = f
			}
		}
		res = append(res, g)
	}
	return res
}

// inMode: whether a path can be one of a generator of the kind
func inMode(ev []*Event, isMode func(*Term) bool, val string) bool {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil || t.K != KBin || t.Op != "==" && t.Op != "!=" {
			continue
		}
		x, k := t.A[0], t.A[1]
		if !isMode(x) {
			x, k = k, x
		}
		if !isMode(x) || k.constVal() == nil {
			continue
		}
		if (k.constVal().ExactString() == val) != (v == (t.Op == "==")) {
			return false
		}
	}
	return true
}

func c19Generators(c *Ctx) {
	gs := c.generators()
	c.Check(len(gs) > 0, "draws", "pkg/id", func() string { return "undecided: no generator of identifiers is found" })
	for _, g := range gs {
		c.generator(g, true)
	}
	for _, r := range []string{"start", "draws", "distinct", "own-parity", "unused", "reserved", "released"} {
		c.Min(r, 1)
	}
}

// atomicAdd: an atomic addition to a field, the number added and the result
func atomicAdd(e *Event) (f *types.Var, delta *Term) {
	op, f, args := atomicOp(e)
	if op != "Add" || len(args) != 1 {
		return nil, nil
	}
	return f, args[0]
}

func (c *Ctx) generator(g *generator, report bool) {
	check := func(cond bool, rule, key string, f func() string) bool {
		if report {
			return c.Check(cond, rule, key, f)
		}
		return cond
	}
	nm := g.typ.Obj().Name()
	if !check(g.mode != nil && g.used != nil, "draws", nm, func() string { return "undecided: the parts of the generator are not found" }) {
		return
	}
	isRecvMode := func(t *Term) bool {
		v, b := fieldOf(t)
		return v == g.mode && b != nil && b.K == KParam
	}
	// what every method does
	ms := types.NewMethodSet(types.NewPointer(g.typ))
	type meth struct {
		fn   *ssa.Function
		outs []*Outcome
	}
	var all []meth
	for i := 0; i < ms.Len(); i++ {
		fn := c.P.MethodOf(types.NewPointer(g.typ), ms.At(i).Obj().Name())
		if fn == nil || len(fn.Blocks) == 0 || !fn.Object().Exported() {
			continue // the steps of a method are part of it
		}
		all = append(all, meth{fn, c.Traces(fn, fnName(fn), RunOpts{})})
	}
	// the counter
	for _, m := range all {
		for _, o := range m.outs {
			for _, e := range o.Events {
				if f, _ := atomicAdd(e); f != nil && g.counter == nil {
					if v, _ := fieldOf(e.Args[0]); v == f {
						g.counter = f
					}
				}
			}
		}
	}
	if !check(g.counter != nil, "draws", nm, func() string { return "undecided: no counter is found" }) {
		return
	}
	// where it starts
	start := map[string]map[int]bool{}
	tp := c.P.TPkgs["pkg/id"]
	for _, n := range tp.Scope().Names() {
		f, ok := tp.Scope().Lookup(n).(*types.Func)
		if !ok {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Results().Len() == 0 || !types.Identical(deref(sig.Results().At(0).Type()), g.typ) {
			continue
		}
		fn := c.P.Func("pkg/id", n)
		for _, o := range c.Traces(fn, n, RunOpts{}) {
			if o.Kind != "return" || len(o.Rets) == 0 || strip(o.Rets[0]).K != KAlloc {
				continue
			}
			obj := strip(o.Rets[0])
			mv := objField(o.Heap, obj, g.mode)
			isMode := func(t *Term) bool { return mv != nil && strip(t).Key() == strip(mv).Key() }
			for k, val := range g.modes {
				if !inMode(o.Events, isMode, val) || mv != nil && mv.constVal() != nil && mv.constVal().ExactString() != val {
					continue
				}
				cv := objField(o.Heap, obj, g.counter)
				b, ok := 0, true
				if cv != nil {
					b, ok = lowBit(cv, nil)
				}
				if start[k] == nil {
					start[k] = map[int]bool{}
				}
				if ok {
					start[k][b] = true
				} else {
					start[k][0], start[k][1] = true, true
				}
			}
			if mv != nil {
				check(isParamOf(mv, fn) || mv.constVal() != nil, "start", n, func() string { return "the generator is of another kind than asked for" })
			}
		}
	}
	check(len(start) > 0, "start", nm, func() string { return "undecided: no constructor is found" })
	var kinds []string
	for k := range g.modes {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, m := range all {
		res := m.fn.Signature.Results()
		draws := res.Len() > 0 && isNumericT(res.At(0).Type())
		for _, o := range m.outs {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			key := nm + "." + m.fn.Name()
			// nothing else touches the counter
			for _, e := range o.Events {
				if e.Kind == EvStore {
					v, _ := fieldOf(e.Recv)
					check(v != g.counter, "distinct", key, show("the counter is changed otherwise than by an atomic addition"))
				}
				if op, f, _ := atomicOp(e); f == g.counter && op != "" {
					check(op == "Add" && draws || op == "Load", "distinct", key, show("the counter is changed otherwise than by drawing"))
				}
			}
			for _, k := range kinds {
				if inMode(o.Events, isRecvMode, g.modes[k]) {
					c.drawOn(g, check, key+"/"+k, k, m.fn, o, draws, start[k])
				}
			}
		}
	}
}

func isParamOf(t *Term, fn *ssa.Function) bool {
	for i := range fn.Params {
		if paramIs(t, fn, i) {
			return true
		}
	}
	return false
}

// drawOn: a path of a method of a generator of a given kind
func (c *Ctx) drawOn(g *generator, check func(bool, string, string, func() string) bool, key, kind string, fn *ssa.Function, o *Outcome, draws bool, start map[int]bool) {
	show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
	isUsed := func(t *Term) bool { v, _ := fieldOf(strip(t)); return v == g.used }
	isSet := kind == "Unique"
	if !draws {
		for _, e := range o.Events {
			if f, d := atomicAdd(e); f == g.counter {
				b, ok := lowBit(d, nil)
				check(ok && b == 0 || kind != "Even" && kind != "Odd", "own-parity", key, show("the parity of the counter is changed"))
			}
		}
		if fn.Signature.Params().Len() == 1 && isNumericT(fn.Signature.Params().At(0).Type()) && o.Kind == "return" && isSet {
			var set, del *Event
			for _, e := range o.Events {
				if e.Kind == EvMapSet && isUsed(e.Recv) {
					set = e
				}
				if e.Kind == EvMapDel && isUsed(e.Recv) {
					del = e
				}
			}
			switch {
			case strings.HasPrefix(fn.Name(), "Reserve"):
				check(set != nil && exact(set.Args[0], func(x *Term) bool { return paramIs(x, fn, 1) }) && del == nil, "reserved", key, show("the identifier is not reserved"))
			default:
				check(del != nil && exact(del.Args[0], func(x *Term) bool { return paramIs(x, fn, 1) }) && set == nil, "released", key, show("another identifier is released, or none"))
			}
		}
		return
	}
	if o.Kind != "return" || len(o.Rets) == 0 {
		return
	}
	ret := o.Rets[0]
	if len(o.Rets) > 1 && !o.Rets[1].isNilConst() {
		return // an error
	}
	if isSet {
		if n, is := ret.constInt(); is && n == 0 {
			// all of them are in use
			full := false
			for _, e := range o.Events {
				if e.Kind != EvAssume {
					continue
				}
				t, v := norm(e.Cond, e.Val)
				if t == nil || t.K != KBin {
					continue
				}
				for i := 0; i < 2; i++ {
					if k, ok := constUint(t.A[i]); ok && k >= 1<<31 && v == (t.Op == "==") && t.A[1-i].K != KConst {
						full = true
					}
				}
			}
			check(full, "draws", key, show("no identifier is drawn"))
			return
		}
		// unused, and used from then on, within one section
		at := -1
		for i, e := range o.Events {
			if e.Kind == EvMapSet && isUsed(e.Recv) && same(e.Args[0], ret) {
				at = i
			}
		}
		if !check(at >= 0, "unused", key, show("the identifier is not marked as used")) {
			return
		}
		free := false
		for _, e := range o.Events {
			if e.Kind != EvAssume {
				continue
			}
			t, v := norm(e.Cond, e.Val)
			if t != nil && t.K == KPure && t.Op == "mapok" && !v {
				if m := strip(t.A[0]); m.K == KMapVal && isUsed(m.A[0]) && same(m.A[1], ret) {
					free = true
				}
			}
		}
		check(free, "unused", key, show("the identifier may be in use already"))
		from, _ := lockedFrom(o, at)
		got := -1
		for i, e := range o.Events[:at] {
			if e.Kind == EvMapGet && isUsed(e.Recv) && same(e.Args[0], ret) {
				got = i
			}
		}
		f2 := -2
		if got >= 0 {
			f2, _ = lockedFrom(o, got)
		}
		check(from >= 0 && from == f2, "unused", key, show("somebody else may take the identifier meanwhile"))
		for _, e := range o.Events[at:] {
			check(e.Kind != EvMapDel || !isUsed(e.Recv), "unused", key, show("the identifier is not kept as used"))
		}
		return
	}
	low, high := lowPart(ret)
	if !check(len(low) == 1, "distinct", key, show("the identifier is not made of one step of the counter: "+c.P.Show(ret))) {
		return
	}
	x := low[0]
	for x.K == KConv && isNumericT(x.T) {
		x = x.A[0]
	}
	var draw *Event
	at := -1
	for i, e := range o.Events {
		if f, _ := atomicAdd(e); f == g.counter && e.Res != nil && e.Res.Key() == x.Key() {
			draw, at = e, i
		}
	}
	if !check(draw != nil, "distinct", key, show("the identifier is not the result of one atomic step of the counter: "+c.P.Show(ret))) {
		return
	}
	_, d := atomicAdd(draw)
	n, is := constUint(d)
	check(is && n%4 != 0, "distinct", key, show("the counter repeats early"))
	late := false
	for _, h := range high {
		late = late || anyTerm(h, func(t *Term) bool { return t.K == KCall && strings.HasSuffix(t.Op, "time.Now") })
	}
	if kind != "Even" && kind != "Odd" {
		return
	}
	// parity
	extra, onceExtra, first, once := 0, 0, false, -1
	for i, e := range o.Events {
		if e.Kind == EvOnce {
			once = i
			first = e.Val
		}
		if f, d := atomicAdd(e); f == g.counter {
			b, ok := lowBit(d, nil)
			check(ok, "own-parity", key, show("a step of unknown parity"))
			if e == draw {
				continue
			}
			if once >= 0 && first && i > once && i < at {
				onceExtra ^= b
			} else {
				extra ^= b
			}
		}
	}
	b, ok := lowBit(d, nil)
	if !ok {
		return
	}
	check(b == 0 && extra == 0, "own-parity", key, show("drawing changes the parity of the next identifier"))
	check(once < 0 || once < at, "own-parity", key, show("the counter is set up after the identifier is drawn"))
	want := 0
	if kind == "Odd" {
		want = 1
	}
	check(len(start) > 0, "start", key, func() string { return "undecided: no start of the counter is known" })
	if once >= 0 && !first {
		return // whoever was first has set the counter up
	}
	for s := range start {
		p := s ^ onceExtra
		check(p == want, "own-parity", key, show(fmt.Sprintf("the lowest bit of the identifier may be %d", p)))
	}
	g.parity[kind] = want
	check(late || want == 0, "never-default", key, show("the identifier may be that of the default stream"))
}

// mades: the generators made on a path, and what they are made for
type madeGen struct {
	obj  *Term
	kind string // value of the mode
	pkts bool   // for packets
	ev   *Event
	at   int
}

func (c *Ctx) madeOn(g *generator, o *Outcome) []madeGen {
	var res []madeGen
	for i, e := range o.Events {
		if e.Kind != EvStore || len(e.Args) == 0 {
			continue
		}
		v, b := fieldOf(e.Recv)
		if v != g.mode || b == nil || b.K != KAlloc {
			continue
		}
		k := ""
		if cv := e.Args[0].constVal(); cv != nil {
			for n, val := range g.modes {
				if val == cv.ExactString() {
					k = n
				}
			}
		}
		m := madeGen{obj: b, kind: k, ev: e, at: i}
		for _, f := range o.Events[i:] {
			if f.Kind == EvStore && len(f.Args) > 0 && strip(f.Args[0]).Key() == b.Key() {
				if w, wb := fieldOf(f.Recv); w != nil && wb != nil && wb.K == KAlloc && wb.T != nil && strings.Contains(deref(wb.T).String(), "/packet.") {
					m.pkts = true
				}
			}
		}
		res = append(res, m)
	}
	return res
}

// sideOf: on which side of the connection a path is
func (c *Ctx) sideOf(r *Root, o *Outcome, at int) (initiator, known bool) {
	rootPkg := c.P.TPkgs[""]
	ini, _ := rootPkg.Scope().Lookup("InitiatorSide").(*types.Const)
	rec, _ := rootPkg.Scope().Lookup("RecipientSide").(*types.Const)
	if ini == nil || rec == nil {
		return false, false
	}
	isSide := func(t *Term) bool {
		t = strip(t)
		return t != nil && (t.K == KPure && t.Op == "get:Side" || t.K == KCall && strings.HasSuffix(t.Op, ".Side") || isFieldLoad(t, c.sideField()))
	}
	for _, e := range o.Events[:at] {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil || t.K != KBin || t.Op != "==" && t.Op != "!=" {
			continue
		}
		x, k := t.A[0], t.A[1]
		if !isSide(x) {
			x, k = k, x
		}
		if !isSide(x) || k.constVal() == nil {
			continue
		}
		eq := v == (t.Op == "==")
		switch k.constVal().ExactString() {
		case ini.Val().ExactString():
			return eq, true
		case rec.Val().ExactString():
			return !eq, true
		}
	}
	switch c.P.rel(r.Fn) {
	case "client":
		return true, true
	case "server":
		return false, true
	}
	// the side the constructed connection says it is on
	for _, e := range o.Events {
		if e.Kind != EvStore || len(e.Args) == 0 {
			continue
		}
		if v, _ := fieldOf(e.Recv); v != nil && v == c.sideField() {
			if cv := e.Args[0].constVal(); cv != nil {
				return cv.ExactString() == ini.Val().ExactString(), true
			}
		}
	}
	return false, false
}

func isFieldLoad(t *Term, f *types.Var) bool {
	v, _ := fieldOf(t)
	return v != nil && v == f
}

// makesDead: the function constructs something that is never used
func (c *Ctx) makesDead(fn *ssa.Function) bool {
	if rs := fn.Signature.Results(); rs.Len() > 0 {
		if n, ok := types.Unalias(deref(rs.At(0).Type())).(*types.Named); ok {
			return c.P.deadType(n)
		}
	}
	return false
}

// sideField: what the connections answer when asked for their side
func (c *Ctx) sideField() *types.Var {
	for _, l := range c.Layers() {
		if l.pkg == "conn" {
			if f := c.getterField(l.pkg, l.typ, "Side"); f != nil {
				return f
			}
		}
	}
	return c.getterField("conn", "baseConn", "Side")
}

func c19Sides(c *Ctx) {
	gs := c.generators()
	if len(gs) == 0 {
		return
	}
	for _, g := range gs {
		c.generator(g, false)
		// kinds drawn on each side, for packets and for streams
		type use struct {
			key string
			ini bool
			par int
			o   *Outcome
		}
		var uses [2][]use
		for _, r := range c.Roots() {
			if r.Kind != "api" || c.P.rel(r.Fn) == "pkg/id" || c.makesDead(r.Fn) {
				continue
			}
			for _, o := range c.root(r) {
				for _, m := range c.madeOn(g, o) {
					o, m := o, m
					show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
					if !c.Check(m.kind != "", "kinds", r.Name, show("the kind of the generator is not known")) {
						continue
					}
					par, ok := g.parity[m.kind]
					what := "streams"
					if m.pkts {
						what = "packets"
					}
					key := r.Name + "/" + what
					if !c.Check(ok, "opposite", key, show("both sides may draw the same identifiers from a generator in "+m.kind+" mode")) {
						continue
					}
					ini, known := c.sideOf(r, o, m.at)
					if !c.Check(known, "opposite", key, show("the generator doesn't depend on the side")) {
						continue
					}
					i := 0
					if m.pkts {
						i = 1
					}
					uses[i] = append(uses[i], use{key, ini, par, o})
				}
			}
		}
		for i := range uses {
			ref := -1
			for _, u := range uses[i] {
				if u.ini && (ref < 0 || strings.HasPrefix(u.key, "client.")) {
					ref = u.par
				}
			}
			sides := map[bool]bool{}
			for _, u := range uses[i] {
				u := u
				sides[u.ini] = true
				want := ref
				if !u.ini {
					want = 1 - ref
				}
				c.Check(ref < 0 || u.par == want, "opposite", u.key, func() string {
					return "the generator has the parity of the other side\n" + c.P.ShowTrace(u.o)
				})
			}
			c.Check(sides[true] && sides[false], "opposite", fmt.Sprint("both sides/", i), func() string { return "undecided: no generators are made on one of the sides" })
		}
	}
	// the connections know their side
	f := c.sideField()
	if c.Check(f != nil, "side", "conn", func() string { return "undecided: Side doesn't return a field" }) {
		got := map[string]map[string]bool{}
		for _, r := range c.Roots() {
			if c.P.rel(r.Fn) != "conn" || r.Kind != "api" {
				continue
			}
			for _, o := range c.root(r) {
				for _, e := range o.Events {
					if e.Kind != EvStore || len(e.Args) == 0 {
						continue
					}
					if v, b := fieldOf(e.Recv); v == f {
						o := o
						k := e.Args[0].constVal()
						c.Check(k != nil && b != nil && baseTerm(b).K == KAlloc, "side", r.Name, func() string { return "the side is changed\n" + c.P.ShowTrace(o) })
						if k == nil {
							continue
						}
						if got[r.Name] == nil {
							got[r.Name] = map[string]bool{}
						}
						got[r.Name][k.ExactString()] = true
					}
				}
			}
		}
		cl, sv := "", ""
		for n, m := range got {
			c.Check(len(m) == 1, "side", n, func() string { return "the side is not always the same" })
			for k := range m {
				if strings.Contains(n, "Client") {
					cl = k
				}
				if strings.Contains(n, "Server") {
					sv = k
				}
			}
		}
		c.Check(cl != "" && sv != "" && cl != sv, "side", "both", func() string { return "the two sides are not told apart" })
	}
	c.Min("opposite", 4)
	c.Min("kinds", 4)
	c.Min("side", 2)
}

// c19Packets: every packet that asks has an identifier of its own, every answer the one given
func c19Packets(c *Ctx) {
	tp := c.P.TPkgs["packet"]
	obj, _ := tp.Scope().Lookup("PacketFactory").(*types.TypeName)
	if obj == nil {
		c.Undecided("own-id", "packet", "no factory of packets")
		return
	}
	iface := obj.Type().Underlying().(*types.Interface)
	for _, n := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}
		for i := 0; i < iface.NumMethods(); i++ {
			fn := c.P.MethodOf(types.NewPointer(tn.Type()), iface.Method(i).Name())
			if fn == nil {
				continue
			}
			key := n + "." + fn.Name()
			for _, o := range c.Traces(fn, key, RunOpts{}) {
				if o.Kind != "return" || len(o.Rets) == 0 {
					continue
				}
				show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
				drawn := func(t *Term) bool {
					return exact(t, func(x *Term) bool {
						return x.K == KCall && (strings.HasSuffix(x.Op, ").GetID") || strings.HasSuffix(x.Op, ".GetID"))
					})
				}
				if isNumericT(o.Rets[0].T) {
					c.Check(drawn(o.Rets[0]), "own-id", key, show("the identifier is not drawn from the generator"))
					continue
				}
				var id *Term
				for _, e := range o.Events {
					if e.Kind == EvStore && len(e.Args) > 0 {
						if v, _ := fieldOf(e.Recv); v != nil && v.Name() == "PacketID" {
							id = e.Args[0]
						}
					}
				}
				if !c.Check(id != nil, "own-id", key, show("the packet has no identifier")) {
					continue
				}
				// a parameter that is used for nothing else
				var given *Term
				for j := 1; j < len(fn.Params); j++ {
					if !isNumericT(fn.Params[j].Type()) || !isUint64(fn.Params[j].Type()) {
						continue
					}
					elsewhere := false
					for _, e := range o.Events {
						if e.Kind == EvStore && len(e.Args) > 0 && exact(e.Args[0], func(x *Term) bool { return paramIs(x, fn, j) }) {
							if v, _ := fieldOf(e.Recv); v == nil || v.Name() != "PacketID" {
								elsewhere = true
							}
						}
					}
					if !elsewhere {
						given = &Term{K: KParam, Op: fn.Params[j].Name(), T: fn.Params[j].Type()}
					}
				}
				if given != nil {
					c.Check(exact(id, func(x *Term) bool { return x.K == KParam && x.Op == given.Op }), "given-id", key, show("the packet doesn't have the identifier it is given"))
				} else {
					c.Check(drawn(id), "own-id", key, show("the packet doesn't have an identifier of its own: "+c.P.Show(id)))
				}
			}
		}
	}
	c.Min("own-id", 8)
	c.Min("given-id", 6)
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// c19Streams: the identifier of a stream is drawn by one of the sides for this stream
func c19Streams(c *Ctx) {
	var mux *layer
	for _, l := range c.Layers() {
		if l.pkg == "multiplexer" {
			mux = l
		}
	}
	if mux == nil {
		c.Undecided("drawn", "multiplexer", "no layer")
		return
	}
	neg, did := c.getterField(mux.pkg, mux.typ, "NegotiatingID"), c.getterField(mux.pkg, mux.typ, "DialogueID")
	if neg == nil || did == nil {
		c.Undecided("drawn", mux.typ, "the identifiers are not fields")
		return
	}
	drawn := func(t *Term) bool {
		return exact(t, func(x *Term) bool { return x.K == KCall && strings.HasSuffix(x.Op, ").GetID") })
	}
	unroll := func(r *Root, o RunOpts) RunOpts {
		o.Key, o.Unroll, o.Args, o.Free, o.Heap = "unroll", 12, r.opts.Args, r.opts.Free, r.opts.Heap
		o.UnrollFn = func(fn *ssa.Function) bool { return appliesTo(fn, mux.typ) }
		return o
	}
	// every dialogue that is negotiated has a draw of its own
	negotiated := func(r *Root, outs []*Outcome) {
		for _, o := range outs {
			show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
			by := map[string]string{}
			for _, e := range o.Events {
				if e.Kind != EvStore || len(e.Args) == 0 {
					continue
				}
				v, b := fieldOf(e.Recv)
				if v != neg || b == nil {
					continue
				}
				c.Check(drawn(e.Args[0]), "drawn", r.Name, show("the identifier proposed is not drawn for this stream: "+c.P.Show(e.Args[0])))
				k := strip(e.Args[0]).Key()
				c.Check(by[k] == "" || by[k] == b.Key(), "drawn", r.Name, show("two streams share an identifier"))
				by[k] = b.Key()
			}
		}
	}
	for _, r := range c.Roots() {
		if c.P.rel(r.Fn) != "multiplexer" {
			continue
		}
		switch {
		case r.Kind == "api" && (r.Fn.Name() == "OpenDialogue"):
			negotiated(r, c.Traces(r.Fn, r.Name, unroll(r, RunOpts{})))
		}
	}
	if r, lab := c.muxReads(); r != nil {
		negotiated(r, c.feed(r, lab, "SessionPacket", unroll(r, RunOpts{})))
	}
	c.Min("drawn", 2)
	// what they agree on is what one of them has proposed, and both use it
	for _, lab := range []string{mux.in} {
		if r := mux.loop; r != nil {
			for st := range mux.fsm.States {
				for _, o := range c.feed(r, lab, "SessionPacket", RunOpts{FSM: mux.fsm, State: st, OneStep: true}) {
					c.agreed(mux, r, o, "SessionPacket", did, neg)
				}
				for _, o := range c.feed(r, lab, "SessionAckPacket", RunOpts{FSM: mux.fsm, State: st, OneStep: true}) {
					c.agreed(mux, r, o, "SessionAckPacket", did, neg)
				}
			}
		}
	}
	c.Min("agreed", 2)
	c.Min("agreed-sent", 1)
	// the default one is fixed
}

// agreed: what a packet of the negotiation changes
func (c *Ctx) agreed(mux *layer, r *Root, o *Outcome, pkt string, did, neg *types.Var) {
	show := func(s string) func() string { return func() string { return s + "\n" + c.P.ShowTrace(o) } }
	var set *Term
	for _, e := range o.Events {
		if e.Kind == EvStore && len(e.Args) > 0 {
			if v, _ := fieldOf(e.Recv); v == did {
				set = e.Args[0]
				own := exact(set, func(x *Term) bool { w, _ := fieldOf(x); return w == neg })
				theirs := exact(set, func(x *Term) bool { return isPktData(x, "negotiateID") || isPktData(x, "sessionID") })
				c.Check(own || theirs, "agreed", r.Name+"/"+pkt, show("the stream gets an identifier nobody has drawn: "+c.P.Show(set)))
			}
		}
		if p := c.sentPkt(e); p != nil && made(p) && c.pktKind(p) == "SessionAckPacket" {
			got := c.heapField(e.Heap, p, "sessionID")
			c.Check(set != nil && got != nil && same(got, set), "agreed-sent", r.Name+"/"+pkt, show("the identifier confirmed is not the one used: "+c.P.Show(got)))
		}
	}
}

func init() {
	register("C19", "The generator of identifiers is executed on every path for each of its kinds: every identifier is the result of one atomic step of the counter, whose parity is computed from its start, its first use and its steps by an abstract interpretation of the lowest bit; a reusable identifier is found unused and marked within one exclusive section. Every construction of a generator is enumerated and its parity compared with that of the other side; the packets and streams get identifiers drawn for them.",
		Rule{"generators", "identifiers of one generator are distinct, of the parity of their kind, and not reserved or in use", c19Generators},
		Rule{"sides", "the two sides draw from generators of opposite parity", c19Sides},
		Rule{"packets", "packets have an identifier of their own, answers the one they are given", c19Packets},
		Rule{"streams", "streams get identifiers drawn for them", c19Streams},
	)
}
