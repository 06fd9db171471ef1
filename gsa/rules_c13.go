package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "options: merging is interpreted field by field over every pattern of set and unset elements; setters, option constructors and the constructors of ends, connections, multiplexers and streams are explored and the value of every option followed to the layer that implements it",
		Rule{"merge", "each Merge function keeps, for every field, the value of the last element that sets it and skips nil elements", c13Merge},
		Rule{"setter", "each exported setter stores exactly what it was given in the field of its name", c13Setters},
		Rule{"constructor", "each option constructor of a layer stores everything it was given, and what it stores is used", c13Constructors},
		Rule{"plumb", "the constructors of ends hand every option to the layers that implement it", c13Plumb},
		Rule{"retry-options", "a retrying end creates every end with the options it was given", c13Retry},
		Rule{"queues", "buffer sizes size the queues of connections and of every stream", c13Queues},
		Rule{"default", "defaults replace only what was left unset", c13Default},
		Rule{"use", "options of requests, messages, streams and hijacks reach the object they configure", c13Use},
	)
}

type optType struct {
	named *types.Named
	st    *types.Struct
	merge *ssa.Function
	sets  []*ssa.Function
}

func (c *Ctx) optTypes() []*optType {
	var r []*optType
	for _, fn := range c.P.Funcs {
		if !isMerge(fn) || fn.Pkg == nil || !fn.Object().Exported() {
			continue
		}
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		n, ok := pt.Elem().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		t := &optType{named: n, st: st, merge: fn}
		for i := 0; i < n.NumMethods(); i++ {
			m := n.Method(i)
			if m.Exported() && strings.HasPrefix(m.Name(), "Set") {
				if f := c.P.Method(c.P.rel(fn), n.Obj().Name(), m.Name()); f != nil {
					t.sets = append(t.sets, f)
				}
			}
		}
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name() < r[j].name() })
	return r
}

func (t *optType) name() string {
	return shortQ(t.named.Obj().Pkg()) + "." + t.named.Obj().Name()
}

// setFields: the fields the exported setters of t write
func (c *Ctx) setFields(t *optType) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for _, fn := range t.sets {
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
			for _, e := range o.Events {
				if e.Kind == EvStore {
					if v, b := fieldOf(e.Recv); v != nil && b != nil && b.K == KParam {
						r[v] = true
					}
				}
			}
		}
	}
	for i := 0; i < t.st.NumFields(); i++ {
		f := t.st.Field(i)
		if r[f] && !f.Exported() {
			delete(r, f)
		}
	}
	return r
}

const c13Base = 1 << 26

// setVal: a value of the field's type that counts as set, distinct per element
func setVal(v *types.Var, el int) *Term {
	id := c13Base + 1000*el
	for _, ch := range v.Name() {
		id = id*31%999983 + int(ch)
	}
	id = c13Base + el<<22 + id
	switch u := v.Type().Underlying().(type) {
	case *types.Slice:
		return &Term{K: KMake, Op: "slice", A: []*Term{{K: KParam, Op: fmt.Sprintf("len%s%d", v.Name(), el), T: types.Typ[types.Int]}}, T: v.Type(), ID: id}
	case *types.Interface:
		return &Term{K: KIface, A: []*Term{{K: KAlloc, T: types.NewPointer(types.Typ[types.Int]), ID: id}}, T: types.NewPointer(types.Typ[types.Int])}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return boolT(true)
		}
		return &Term{K: KParam, Op: fmt.Sprintf("%s%d", v.Name(), el), T: v.Type()}
	}
	return &Term{K: KAlloc, T: v.Type(), ID: id}
}

func isNumField(v *types.Var) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func c13Merge(c *Ctx) {
	n := 0
	for _, t := range c.optTypes() {
		fields := c.setFields(t)
		// fields only an owner inside the package sets travel with the field named like them
		companion := map[*types.Var]*types.Var{}
		for i := 0; i < t.st.NumFields(); i++ {
			f := t.st.Field(i)
			if !f.Exported() {
				continue
			}
			for g := range fields {
				if f != g && strings.HasPrefix(f.Name(), g.Name()) && f.Name() == g.Name()+"Owner" {
					companion[f] = g
				}
			}
		}
		pt := types.NewPointer(t.named)
		el := []*Term{{K: KAlloc, T: pt, ID: c13Base + 1, Op: "opt1"}, {K: KAlloc, T: pt, ID: c13Base + 2, Op: "opt2"}}
		arr := &Term{K: KAlloc, T: types.NewPointer(types.NewArray(pt, 3)), ID: c13Base + 3, Op: "opts"}
		list := &Term{K: KSlice, A: []*Term{arr, nilT(types.Typ[types.Int]), nilT(types.Typ[types.Int])}, T: types.NewSlice(pt)}
		for i := 0; i < t.st.NumFields(); i++ {
			f := t.st.Field(i)
			if !f.Exported() {
				continue
			}
			n++
			for _, others := range []bool{false, true} {
				for _, mask := range []int{0, 1, 2, 3} {
					for _, nilAt := range []int{0, 1, 2} {
						if others && nilAt != 1 {
							continue
						}
						h := &Heap{m: map[string]cell{}}
						put := func(a, v *Term) { h.m[a.Key()] = cell{addr: a, val: v} }
						set := func(e *Term, k int, v *types.Var) {
							put(&Term{K: KFieldA, A: []*Term{e}, Obj: v, T: types.NewPointer(v.Type())}, setVal(v, k))
						}
						j := 0
						for k := 0; k < 3; k++ {
							a := &Term{K: KElemA, A: []*Term{arr, intT(int64(k))}, T: types.NewPointer(pt)}
							if k == nilAt {
								put(a, nilT(pt))
								continue
							}
							put(a, el[j])
							j++
						}
						for k, e := range el {
							for q := 0; q < t.st.NumFields(); q++ {
								g := t.st.Field(q)
								if g == f && mask&(1<<k) != 0 || g != f && others && g != companion[f] && !isNumField(g) && g.Exported() {
									set(e, k, g)
								}
								if g == companion[f] && mask&(1<<k) != 0 {
									set(e, k, g)
								}
							}
						}
						name := t.name() + "." + f.Name()
						want := -1
						for k := range el {
							if mask&(1<<k) != 0 {
								want = k
							}
						}
						outs := c.Traces(t.merge, fnName(t.merge), RunOpts{Merge: true, Unroll: 6, Args: []*Term{list}, Heap: h, FirstID: c13Base << 1})
						for _, o := range outs {
							show := func() string {
								return fmt.Sprintf("elements setting it: %02b, other fields set: %v\n%s", mask, others, c.P.ShowTrace(o))
							}
							if o.Kind != "return" || len(o.Rets) != 1 {
								c.Check(o.Kind != "panic", "merge", name, show)
								continue
							}
							got := objField(o.Heap, o.Rets[0], f)
							if got == nil {
								got = zero(f.Type())
								if strip(o.Rets[0]).K != KAlloc {
									got = &Term{K: KHavoc}
								}
							}
							if isNumField(f) {
								c.Check(numMerge(o, f, mask, got), "merge", name, show)
								continue
							}
							if want < 0 {
								ok := got.isNilConst()
								if b, isb := got.constBool(); isb {
									ok = !b
								}
								c.Check(ok, "merge", name, show)
								continue
							}
							c.Check(sameVal(got, setVal(f, want)), "merge", name, show)
						}
					}
				}
			}
		}
	}
	c.Min("merge", 20)
	if n == 0 {
		c.Undecided("merge", "options", "no option type")
	}
}

// numMerge: the last positive value wins
func numMerge(o *Outcome, f *types.Var, mask int, got *Term) bool {
	vals := []int64{-1, 0, 1, 64}
	for _, a := range vals {
		for _, b := range vals {
			env := func(t *Term) (constant.Value, bool) {
				if t.K == KParam && t.Op == f.Name()+"0" {
					return constant.MakeInt64(a), true
				}
				if t.K == KParam && t.Op == f.Name()+"1" {
					return constant.MakeInt64(b), true
				}
				return nil, false
			}
			taken := true
			for _, e := range o.Events {
				if e.Kind == EvAssume {
					if v, ok := evalNum(e.Cond, env); ok && v.Kind() == constant.Bool && constant.BoolVal(v) != e.Val {
						taken = false
						break
					}
				}
			}
			if !taken {
				continue
			}
			var want int64
			if mask&1 != 0 && a > 0 {
				want = a
			}
			if mask&2 != 0 && b > 0 {
				want = b
			}
			v, ok := evalNum(got, env)
			if !ok {
				return false
			}
			g, ok := constant.Int64Val(constant.ToInt(v))
			if !ok || want > 0 && g != want || want == 0 && g > 0 {
				return false
			}
		}
	}
	return true
}

// setterFields: the fields an exported setter is for, by parameter
var setterFields = map[string][]string{
	"SetWaitRemoteRPCs":    {"RemoteMethods"},
	"SetRegisterLocalRPCs": {"LocalMethods"},
	"SetRemoteRPCCheck":    {"RemoteMethodCheck"},
	"SetBufferSize":        {"ReadBufferSize", "WriteBufferSize"},
	"SetMatch":             {"Match", "Pattern"},
}

func c13Setters(c *Ctx) {
	for _, t := range c.optTypes() {
		for _, fn := range t.sets {
			want := setterFields[fn.Name()]
			if want == nil {
				want = []string{strings.TrimPrefix(fn.Name(), "Set")}
			}
			name := c.P.rel(fn) + "." + fnName(fn)
			for _, o := range c.Traces(fn, name, RunOpts{}) {
				show := func() string { return c.P.ShowTrace(o) }
				for i, w := range want {
					var fv *types.Var
					for q := 0; q < t.st.NumFields(); q++ {
						if t.st.Field(q).Name() == w {
							fv = t.st.Field(q)
						}
					}
					if fv == nil {
						c.Undecided("setter", name, "no field "+w)
						continue
					}
					var got *Term
					for _, ce := range o.Heap.m {
						if v, b := fieldOfAddr(ce.addr); v == fv && b.K == KParam {
							got = ce.val
						}
					}
					ok := false
					if got != nil {
						if len(fn.Params) == 1 {
							b, isb := got.constBool()
							ok = isb && b
						} else if i+1 < len(fn.Params) {
							p := &Term{K: KParam, Op: fn.Params[i+1].Name(), T: fn.Params[i+1].Type()}
							ok = sameVal(got, p)
							if !ok && strip(got).K == KAlloc {
								if ce, has := o.Heap.m[strip(got).Key()]; has {
									ok = sameVal(ce.val, p)
								}
							}
						}
					}
					c.Check(o.Kind == "return" && ok, "setter", name+" "+w, show)
				}
			}
		}
	}
	c.Min("setter", 20)
}

// layerOption: an exported function of a layer that returns a setting
func (c *Ctx) layerOptions() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Signature.Recv() != nil || fn.Pkg == nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || !strings.HasPrefix(fn.Name(), "Option") {
			continue
		}
		if rel := c.P.rel(fn); rel != "conn" && rel != "multiplexer" && rel != "application" {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 1 {
			continue
		}
		sig, ok := rs.At(0).Type().Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 {
			continue
		}
		if n, ok := deref(sig.Params().At(0).Type()).(*types.Named); ok && c.P.deadType(n) {
			continue
		}
		r = append(r, fn)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// effects of applying a setting: field -> value, per path
func (c *Ctx) settingEffect(cl *Term, h *Heap, name string) []map[*types.Var]*Term {
	var r []map[*types.Var]*Term
	for _, o := range c.resume(cl, h, name) {
		m := map[*types.Var]*Term{}
		for _, e := range o.Events {
			switch {
			case e.Kind == EvStore && len(e.Args) > 0:
				if v, b := fieldOf(e.Recv); v != nil && baseTerm(b).K == KParam {
					m[v] = e.Args[0]
				}
			case e.Kind == EvCall && strings.HasSuffix(callName(e), "SetState"):
				if v, _ := fieldOf(first(e.Args)); v != nil && len(e.Args) > 0 {
					m[v] = e.Args[len(e.Args)-1]
				}
			}
		}
		r = append(r, m)
	}
	return r
}

func baseTerm(t *Term) *Term {
	for t != nil && len(t.A) > 0 && (t.K == KFieldA || t.K == KElemA || t.K == KLoad || t.K == KField || t.K == KSnap) {
		t = t.A[0]
	}
	if t == nil {
		return &Term{K: KHavoc}
	}
	return t
}

// optFields: parameter index -> field, for an option constructor of a layer
func (c *Ctx) optFields(fn *ssa.Function) (map[int]*types.Var, []map[*types.Var]*Term, *Outcome) {
	var all []map[*types.Var]*Term
	r := map[int]*types.Var{}
	var last *Outcome
	for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
		last = o
		if o.Kind != "return" {
			continue
		}
		for _, m := range c.settingEffect(o.Rets[0], o.Heap, fnName(fn)) {
			all = append(all, m)
			for v, val := range m {
				for i, p := range fn.Params {
					if p.Name() == paramName(val, o.Heap) {
						r[i] = v
					}
				}
			}
		}
	}
	return r, all, last
}

func paramName(v *Term, h *Heap) string {
	v = strip(v)
	if v == nil {
		return ""
	}
	if v.K == KParam {
		return v.Op
	}
	if v.K == KLoad && h != nil {
		if ce, has := h.m[v.A[0].Key()]; has {
			return paramName(ce.val, nil)
		}
	}
	return ""
}

func c13Constructors(c *Ctx) {
	read := c.readFields()
	for _, fn := range c.layerOptions() {
		name := c.P.rel(fn) + "." + fn.Name()
		fields, effects, last := c.optFields(fn)
		show := func() string {
			if last == nil {
				return ""
			}
			return c.P.ShowTrace(last)
		}
		seen := map[*types.Var]bool{}
		for i, p := range fn.Params {
			v := fields[i]
			c.Check(v != nil && !seen[v], "constructor", name+" "+p.Name(), show)
			if v == nil {
				continue
			}
			seen[v] = true
			c.Check(read[v], "constructor", name+" "+p.Name()+" used", func() string { return "nothing reads " + v.Name() })
			// stored on every path, unless it is a size that isn't positive
			for _, m := range effects {
				if _, ok := m[v]; !ok && !isNumericT(p.Type()) {
					c.Check(false, "constructor", name+" "+p.Name(), show)
				}
			}
			if isNumericT(p.Type()) && !isUnsigned(p.Type()) {
				c.Check(positiveStored(c, fn, p.Name(), v), "constructor", name+" "+p.Name()+" positive", show)
			}
		}
		if len(fn.Params) == 0 {
			ok := len(effects) > 0
			for _, m := range effects {
				some := false
				for v, val := range m {
					if b, isb := val.constBool(); isb && b || strip(val).K == KMake {
						some = some || read[v]
					}
				}
				ok = ok && some
			}
			c.Check(ok, "constructor", name, show)
		}
	}
	c.Min("constructor", 20)
}

func isNumericT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// positiveStored: whenever the size is positive the setting stores it
func positiveStored(c *Ctx, fn *ssa.Function, param string, v *types.Var) bool {
	ok := true
	for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
		if o.Kind != "return" {
			continue
		}
		for _, q := range c.resume(o.Rets[0], o.Heap, fnName(fn)) {
			for _, x := range []int64{1, 2, 64} {
				env := func(t *Term) (constant.Value, bool) {
					if paramName(t, o.Heap) == param {
						return constant.MakeInt64(x), true
					}
					return nil, false
				}
				if !feasible(q, env) {
					continue
				}
				st := false
				for _, e := range q.Events {
					if e.Kind == EvStore {
						if f, _ := fieldOf(e.Recv); f == v {
							st = paramName(e.Args[0], o.Heap) == param
						}
					}
				}
				ok = ok && st
			}
		}
	}
	return ok
}

func feasible(o *Outcome, env func(*Term) (constant.Value, bool)) bool {
	for _, e := range o.Events {
		if e.Kind == EvAssume {
			if v, ok := evalNum(e.Cond, env); ok && v.Kind() == constant.Bool && constant.BoolVal(v) != e.Val {
				return false
			}
		}
	}
	return true
}

// readFields: fields loaded anywhere outside a setting
func (c *Ctx) readFields() map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.UnOp:
					if fa, ok := i.X.(*ssa.FieldAddr); ok {
						if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
							r[s.Field(fa.Field)] = true
						}
					}
				case *ssa.Field:
					if s, ok := i.X.Type().Underlying().(*types.Struct); ok {
						r[s.Field(i.Field)] = true
					}
				}
			}
		}
	}
	return r
}

// roleFields: which end options an option constructor of a layer is for, by what follows Option and the layer's prefix
var roleFields = []struct {
	role   string
	fields []string
	cond   bool // only when set
}{
	{"PacketFactory", []string{"PacketFactory"}, false},
	{"Timer", []string{"Timer"}, false},
	{"Logger", []string{"Log"}, false},
	{"Delegate", []string{"Delegate"}, false},
	{"Meta", []string{"Meta"}, false},
	{"ClientID", []string{"*ClientID"}, true},
	{"BufferSize", []string{"ReadBufferSize", "WriteBufferSize"}, false},
	{"WaitRemoteRPCs", []string{"RemoteMethods"}, false},
	{"RegisterLocalRPCs", []string{"LocalMethods"}, false},
	{"WithRemoteRPCCheck", []string{"RemoteMethodCheck"}, true},
	{"AcceptStreamFunc", []string{"AcceptStreamFunc"}, true},
	{"ClosedStreamFunc", []string{"ClosedStreamFunc"}, true},
}

// settingArg: the list of settings a constructor call of a layer is given
func (c *Ctx) settingArg(e *Event) (layer string, arg, target *Term, ok bool) {
	if e.Kind != EvCall || e.Fn == nil || e.Fn.Signature.Recv() != nil || !e.Fn.Signature.Variadic() || len(e.Args) == 0 {
		return "", nil, nil, false
	}
	rel := c.P.rel(e.Fn)
	if rel != "conn" && rel != "multiplexer" && rel != "application" {
		return "", nil, nil, false
	}
	ps := e.Fn.Signature.Params()
	sl, isl := ps.At(ps.Len() - 1).Type().(*types.Slice)
	if !isl {
		return "", nil, nil, false
	}
	if _, fn := sl.Elem().Underlying().(*types.Signature); !fn {
		return "", nil, nil, false
	}
	return rel, e.Args[len(e.Args)-1], nil, true
}

func settingType(e *Event) types.Type {
	ps := e.Fn.Signature.Params()
	return ps.At(ps.Len() - 1).Type().(*types.Slice).Elem()
}

// endRoots: exported constructors taking end options
func (c *Ctx) endRoots(retry bool) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.P.Funcs {
		rel := c.P.rel(fn)
		if rel != "client" && rel != "server" || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || !fn.Signature.Variadic() || isMerge(fn) {
			continue
		}
		ps := fn.Signature.Params()
		if !namedIs(deref(ps.At(ps.Len()-1).Type().(*types.Slice).Elem()), rel, "EndOptions") || fn.Signature.Results().Len() != 2 || c.P.dials(fn) == retry {
			continue
		}
		if !namedIs(fn.Signature.Results().At(0).Type(), "geminio", "End") {
			continue
		}
		r = append(r, fn)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func mergedOpts(o *Outcome) *Term {
	var r *Term
	for _, e := range o.Events {
		for _, t := range append([]*Term{e.Recv, e.Cond, e.Res}, e.Args...) {
			anyTerm(t, func(x *Term) bool {
				if x.K == KPure && strings.HasSuffix(x.Op, "MergeEndOptions") {
					r = x
					return true
				}
				return false
			})
			if r != nil {
				return r
			}
		}
	}
	return nil
}

// eoValue: what an end option is at that point
func eoValue(h *Heap, eo *Term, f *types.Var) *Term {
	if v := objField(h, eo, f); v != nil {
		return v
	}
	return &Term{K: KLoad, A: []*Term{{K: KFieldA, A: []*Term{eo}, Obj: f, T: types.NewPointer(f.Type())}}, T: f.Type()}
}

func isEO(t, eo *Term, f *types.Var) bool {
	v, b := fieldOf(t)
	return v == f && b != nil && b.Key() == eo.Key()
}

// capturedVal: what a captured variable holds
func capturedVal(t *Term, h *Heap) *Term {
	t = strip(t)
	for i := 0; t != nil && i < 4; i++ {
		if t.K == KLoad && t.A[0].K == KAlloc {
			if ce, has := h.m[t.A[0].Key()]; has {
				t = strip(ce.val)
				continue
			}
		}
		break
	}
	return t
}

func c13Plumb(c *Ctx) {
	roles := map[string]map[string]map[int]*types.Var{} // setting type -> role -> parameter -> field
	flag := map[string]map[string]map[*types.Var]bool{}
	for _, fn := range c.layerOptions() {
		st := fn.Signature.Results().At(0).Type().String()
		for _, q := range roleFields {
			if !strings.HasSuffix(fn.Name(), q.role) {
				continue
			}
			if roles[st] == nil {
				roles[st], flag[st] = map[string]map[int]*types.Var{}, map[string]map[*types.Var]bool{}
			}
			f, eff, _ := c.optFields(fn)
			roles[st][q.role] = f
			flag[st][q.role] = map[*types.Var]bool{}
			for _, m := range eff {
				for v, val := range m {
					if b, isb := val.constBool(); isb && b && len(fn.Params) == 0 {
						flag[st][q.role][v] = true
					}
				}
			}
			break
		}
	}
	memo := map[string][]map[*types.Var]*Term{}
	for _, fn := range c.endRoots(false) {
		rel := c.P.rel(fn)
		st := c.P.Named(rel, "EndOptions").Underlying().(*types.Struct)
		fld := map[string]*types.Var{}
		for i := 0; i < st.NumFields(); i++ {
			fld[st.Field(i).Name()] = st.Field(i)
		}
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
			eo := mergedOpts(o)
			for i, e := range o.Events {
				layer, arg, _, ok := c.settingArg(e)
				if !ok {
					continue
				}
				name := rel + "." + fn.Name() + " -> " + layer
				show := func() string { return c.P.ShowTrace(o) }
				if eo == nil {
					c.Check(false, "plumb", name, func() string { return "the options are not merged\n" + c.P.ShowTrace(o) })
					continue
				}
				els, ok := Elems(e.Heap, arg)
				if !ok {
					c.Undecided("plumb", name, "the list of settings "+c.P.Show(arg))
					continue
				}
				got := map[*types.Var]*Term{}
				for _, cl := range els {
					cl = strip(cl)
					if cl.K != KClosure && cl.K != KFunc {
						c.Undecided("plumb", name, "setting "+c.P.Show(cl))
						continue
					}
					key := cl.Key()
					for _, b := range cl.A {
						if ce, has := e.Heap.m[b.Key()]; has {
							key += "|" + ce.val.Key()
						}
					}
					eff, ok := memo[key]
					if !ok {
						eff = c.settingEffect(cl, e.Heap, name)
						memo[key] = eff
					}
					for _, m := range eff {
						for v, val := range m {
							got[v] = capturedVal(val, e.Heap)
						}
					}
				}
				sty := settingType(e).String()
				for _, q := range roleFields {
					f := roles[sty][q.role]
					if f == nil {
						continue // the layer has no such option
					}
					for k, en := range q.fields {
						star := strings.HasPrefix(en, "*")
						ev := fld[strings.TrimPrefix(en, "*")]
						if ev == nil {
							continue // no such end option on this side
						}
						cons := name + " " + q.role
						unset := false
						if isnil, ok := isNilOn(o.Events[:i], func(x *Term) bool { return isEO(x, eo, ev) }); ok && isnil {
							unset = objField(e.Heap, eo, ev) == nil
						}
						if b, ok := boolOn(o.Events[:i], func(x *Term) bool { return isEO(x, eo, ev) }); ok && !b {
							unset = true
						}
						if len(flag[sty][q.role]) > 0 {
							set := true
							for v := range flag[sty][q.role] {
								b, ok := constBoolOf(got[v])
								set = set && ok && b
							}
							known, ok := boolOn(o.Events[:i], func(x *Term) bool { return isEO(x, eo, ev) })
							c.Check(ok && known == set, "plumb", cons, show)
							continue
						}
						v := f[k]
						if v == nil {
							c.Undecided("plumb", cons, "the option stores nothing")
							continue
						}
						val, present := got[v]
						if !present {
							c.Check(unset, "plumb", cons, func() string { return "not handed on\n" + c.P.ShowTrace(o) })
							continue
						}
						want := eoValue(e.Heap, eo, ev)
						if star {
							want = &Term{K: KLoad, A: []*Term{want}, T: deref(ev.Type())}
						}
						same := sameVal(val, want) || unset && val.isNilConst()
						c.Check(same, "plumb", cons, func() string {
							return "gets " + c.P.Show(val) + ", not " + c.P.Show(want) + "\n" + c.P.ShowTrace(o)
						})
					}
				}
				// stream callbacks travel through the multiplexer
				if layer == "multiplexer" {
					for _, q := range []struct{ opt, end, meth string }{{"AcceptFunc", "AcceptStreamFunc", "AcceptDialogue"}, {"ClosedFunc", "ClosedStreamFunc", "ClosedDialogue"}} {
						ev := fld[q.end]
						var v *types.Var
						for _, lf := range c.layerOptions() {
							if strings.HasSuffix(lf.Name(), q.opt) && lf.Signature.Results().At(0).Type().String() == sty {
								f, _, _ := c.optFields(lf)
								v = f[0]
							}
						}
						if v == nil {
							c.Undecided("plumb", name+" "+q.opt, "no such option")
							continue
						}
						if ev == nil {
							c.Check(got[v] == nil, "plumb", name+" "+q.opt, show)
							continue
						}
						isnil, known := isNilOn(o.Events[:i], func(x *Term) bool { return isEO(x, eo, ev) })
						if !known {
							c.Undecided("plumb", name+" "+q.opt, "unconditional")
							continue
						}
						if isnil {
							c.Check(got[v] == nil || got[v].isNilConst(), "plumb", name+" "+q.opt, show)
							continue
						}
						ok := false
						if cl := got[v]; cl != nil && cl.K == KClosure {
							for _, q2 := range c.resume(cl, o.Heap, name) {
								for _, e2 := range q2.Events {
									if e2.Kind == EvCall && isCall(e2, q.meth) {
										ok = true
									}
								}
							}
						}
						c.Check(ok, "plumb", name+" "+q.opt, show)
					}
				}
			}
		}
	}
	c.Min("plumb", 40)
}

func constBoolOf(t *Term) (bool, bool) {
	if t == nil {
		return false, false
	}
	return t.constBool()
}

// c13Retry: the options of a retrying end reach every end it creates
func c13Retry(c *Ctx) {
	re := c.P.Named("client", "RetryEnd")
	if re == nil {
		c.Undecided("retry-options", "RetryEnd", "no such type")
		return
	}
	check := func(name string, outs []*Outcome) {
		for _, o := range outs {
			for _, e := range o.Events {
				if e.Kind != EvCall || e.Fn == nil || c.P.rel(e.Fn) != "client" || !c.P.dials(e.Fn) || !e.Fn.Signature.Variadic() {
					continue
				}
				els, ok := Elems(e.Heap, e.Args[len(e.Args)-1])
				good := ok && len(els) == 1
				if good {
					v, b := fieldOf(els[0])
					merged := mergedOpts(o)
					good = merged != nil && els[0].Key() == merged.Key() || v != nil && namedIs(deref(v.Type()), "client", "EndOptions") && b != nil
				}
				c.Check(good, "retry-options", name, func() string { return c.P.ShowTrace(o) })
				// through the dialer it was given
				df := false
				for _, a := range e.Args {
					v, _ := fieldOf(a)
					if v != nil && namedIs(v.Type(), "client", "Dialer") || strip(a).K == KParam && namedIs(strip(a).T, "client", "Dialer") {
						df = true
					}
				}
				c.Check(df, "retry-options", name+" dialer", func() string { return c.P.ShowTrace(o) })
			}
		}
	}
	for _, fn := range c.endRoots(true) {
		outs := c.Traces(fn, fnName(fn), RunOpts{})
		check("client."+fn.Name(), outs)
		// what the end keeps is what it was given
		for _, o := range outs {
			if o.Kind != "return" || !o.Rets[1].isNilConst() {
				continue
			}
			obj := strip(o.Rets[0])
			st, _ := re.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if namedIs(deref(f.Type()), "client", "EndOptions") {
					got, want := objField(o.Heap, obj, f), mergedOpts(o)
					c.Check(got != nil && want != nil && got.Key() == want.Key(), "retry-options", "client."+fn.Name()+" keeps options", func() string { return c.P.ShowTrace(o) })
				}
				if namedIs(f.Type(), "client", "Dialer") {
					got := objField(o.Heap, obj, f)
					c.Check(got != nil && strip(got).K == KParam, "retry-options", "client."+fn.Name()+" keeps dialer", func() string { return c.P.ShowTrace(o) })
				}
			}
		}
	}
	for _, r := range c.Roots() {
		if c.P.recvOf(c.P.rootFn(r.Fn)) == re {
			check(r.Name, c.root(r))
		}
	}
	c.Min("retry-options", 4)
}

// made channels of a field, in a heap
func madeChans(h *Heap, field string, typ string) []*Term {
	var r []*Term
	for _, ce := range h.m {
		v, b := fieldOfAddr(ce.addr)
		if v == nil || v.Name() != field || strip(ce.val).K != KMake || rootAddr(b).K != KAlloc {
			continue
		}
		if n, ok := deref(b.T).(*types.Named); !ok || n.Obj().Name() != typ {
			continue
		}
		r = append(r, strip(ce.val))
	}
	return r
}

func fieldOfAddr(a *Term) (*types.Var, *Term) {
	if a == nil || a.K != KFieldA {
		return nil, nil
	}
	return a.Obj.(*types.Var), a.A[0]
}

func labelParts(l string) (typ, field string) {
	p := strings.Split(l, ".")
	if len(p) < 2 {
		return "", ""
	}
	return p[len(p)-2], p[len(p)-1]
}

func c13Queues(c *Ctx) {
	for _, l := range c.Layers() {
		ut, uf := labelParts(l.up)
		wt, wf := labelParts(l.out)
		if strings.Contains(l.up, "get:") {
			c.Undecided("queues", l.typ, l.up)
			continue
		}
		// the sizes: what the layer's option stores
		var size map[int]*types.Var
		for _, fn := range c.layerOptions() {
			if !strings.HasSuffix(fn.Name(), "BufferSize") || c.P.rel(fn) != l.pkg {
				continue
			}
			sig := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
			if n, ok := deref(sig.Params().At(0).Type()).(*types.Named); ok && ((l.pkg == "conn") == (n.Obj().Name() == l.typ)) {
				size, _, _ = c.optFields(fn)
			}
		}
		if size == nil || size[0] == nil || size[1] == nil {
			c.Undecided("queues", l.typ, "no option for buffer sizes")
			continue
		}
		check := func(name string, own bool, outs []*Outcome) {
			for _, o := range outs {
				if o.Heap == nil {
					continue
				}
				for k, q := range []struct{ t, f string }{{ut, uf}, {wt, wf}} {
					for _, ch := range madeChans(o.Heap, q.f, q.t) {
						v, _ := fieldOf(ch.A[0])
						ok := v == size[k]
						if !ok && own {
							// nothing was set
							ok = true
							for _, e := range o.Events {
								if e.Kind == EvDyn && isSettingOf(e, l.pkg) {
									ok = false
								}
							}
						}
						if !ok {
							// the default, when the size isn't positive
							ok = knownNotPositive(o.Events, size[k])
						}
						c.Check(ok, "queues", name+" "+q.f, func() string {
							return "made with " + c.P.Show(ch.A[0]) + "\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
		}
		if l.pkg == "conn" {
			for _, fn := range c.P.Funcs {
				if c.P.rel(fn) == "conn" && fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Signature.Results().Len() > 0 && namedIs(deref(fn.Signature.Results().At(0).Type()), "conn", l.typ) {
					check(fnName(fn), true, c.Traces(fn, fnName(fn), RunOpts{}))
				}
			}
			continue
		}
		for _, r := range c.Roots() {
			if c.P.rel(r.Fn) != "multiplexer" || appliesTo(r.Fn, l.typ) {
				continue // its callers choose the settings
			}
			makes := false
			for _, o := range c.root(r) {
				if o.Heap != nil && len(madeChans(o.Heap, uf, ut)) > 0 {
					makes = true
				}
			}
			if makes {
				ro := RunOpts{Key: "unroll", Unroll: 12, UnrollFn: func(fn *ssa.Function) bool { return appliesTo(fn, l.typ) }, Args: r.opts.Args, Free: r.opts.Free, Heap: r.opts.Heap}
				check(r.Name, appliesSettings(r.Fn), c.Traces(r.Fn, r.Name, ro))
			}
		}
	}
	c.Min("queues", 8)
}

// appliesSettings: the function takes a list of settings
func appliesSettings(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	if !fn.Signature.Variadic() {
		return false
	}
	_, ok := ps.At(ps.Len() - 1).Type().(*types.Slice).Elem().Underlying().(*types.Signature)
	return ok
}

// appliesTo: the function takes a list of settings for the type
func appliesTo(fn *ssa.Function, typ string) bool {
	if !appliesSettings(fn) {
		return false
	}
	ps := fn.Signature.Params()
	sig := ps.At(ps.Len() - 1).Type().(*types.Slice).Elem().Underlying().(*types.Signature)
	if sig.Params().Len() != 1 {
		return false
	}
	n, ok := deref(sig.Params().At(0).Type()).(*types.Named)
	return ok && n.Obj().Name() == typ
}

// knownNotPositive: the path found the field not to be positive
func knownNotPositive(ev []*Event, f *types.Var) bool {
	seen := false
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		has := false
		pos := false
		for _, x := range []int64{1, 2, 64, 1 << 20} {
			v, ok := evalNum(e.Cond, func(t *Term) (constant.Value, bool) {
				if g, _ := fieldOf(t); g == f {
					has = true
					return constant.MakeInt64(x), true
				}
				return nil, false
			})
			if ok && v.Kind() == constant.Bool && constant.BoolVal(v) == e.Val {
				pos = true
			}
		}
		if has && !pos {
			seen = true
		}
	}
	return seen
}

// flagOf: the path found a flag unset that whatever sets v also sets
func (c *Ctx) flagOf(n *types.Named, v *types.Var, ev []*Event) bool {
	for w := range c.P.settingWrites(n) {
		if w == v || !types.Identical(w.Type(), types.Typ[types.Bool]) {
			continue
		}
		on, known := boolOn(ev, func(x *Term) bool { f, _ := fieldOf(x); return f == w })
		if !known || on {
			continue
		}
		both := true
		for _, fn := range c.layerOptions() {
			if !types.Identical(fn.Signature.Results().At(0).Type(), n) {
				continue
			}
			_, effects, _ := c.optFields(fn)
			for _, m := range effects {
				if m[v] == nil {
					continue
				}
				if b, ok := constBoolOf(m[w]); !ok || !b {
					both = false
				}
			}
		}
		if both {
			return true
		}
	}
	return false
}

func isSettingCall(e *Event, n *types.Named) bool {
	sig, ok := n.Underlying().(*types.Signature)
	if !ok || len(e.Args) == 0 || sig.Params().Len() != 1 {
		return false
	}
	a := e.Args[len(e.Args)-1]
	return len(e.Args) <= 2 && a.T != nil && types.Identical(a.T, sig.Params().At(0).Type())
}

// isSettingOf: a dynamic call with only an object of the package
func isSettingOf(e *Event, pkg string) bool {
	if len(e.Args) != 1 || e.Args[0].T == nil {
		return false
	}
	n, ok := deref(e.Args[0].T).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
}

// c13Default: a default is stored only into what is unset
func c13Default(c *Ctx) {
	roots := append(c.endRoots(false), c.endRoots(true)...)
	for _, fn := range roots {
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
			eo := mergedOpts(o)
			if eo == nil {
				continue
			}
			for i, e := range o.Events {
				if e.Kind != EvStore {
					continue
				}
				v, b := fieldOfAddr(e.Recv)
				if v == nil || b.Key() != eo.Key() || !v.Exported() {
					continue
				}
				name := c.P.rel(fn) + "." + fn.Name() + " " + v.Name()
				if strings.HasSuffix(v.Name(), "Owner") {
					// a timer is ours only when it was unset
					v2 := strings.TrimSuffix(v.Name(), "Owner")
					isnil, ok := isNilOn(o.Events[:i], func(x *Term) bool { f, g := fieldOf(x); return f != nil && f.Name() == v2 && g.Key() == eo.Key() })
					c.Check(ok && isnil, "default", name, func() string { return c.P.ShowTrace(o) })
					continue
				}
				if x := strip(e.Args[0]); x.K == KAlloc && x.T != nil && namedIs(deref(x.T), "client", "RetryEnd") {
					// the retrying end keeps the delegate it wraps
					kept := false
					for _, f := range o.Events[:i] {
						if f.Kind == EvStore && isEO(f.Args[0], eo, v) {
							kept = true
						}
					}
					c.Check(kept, "default", name+" wrapped", func() string { return c.P.ShowTrace(o) })
					continue
				}
				isnil, ok := isNilOn(o.Events[:i], func(x *Term) bool { return isEO(x, eo, v) })
				c.Check(ok && isnil, "default", name, func() string { return c.P.ShowTrace(o) })
			}
		}
	}
	// layers: what a setting may have written is only replaced when found unset
	for _, fn := range c.P.Funcs {
		rel := c.P.rel(fn)
		if rel != "conn" && rel != "multiplexer" && rel != "application" || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || !fn.Signature.Variadic() || isMerge(fn) || !c.P.inScope(fn) {
			continue
		}
		ps := fn.Signature.Params()
		n, ok := ps.At(ps.Len() - 1).Type().(*types.Slice).Elem().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := n.Underlying().(*types.Signature); !ok {
			continue
		}
		writes := c.P.settingWrites(n)
		for _, o := range c.Traces(fn, fnName(fn), RunOpts{}) {
			applied := -1
			for i, e := range o.Events {
				if e.Kind == EvDyn && isSettingCall(e, n) {
					applied = i
				}
				if applied < 0 || e.Kind != EvStore {
					continue
				}
				v, b := fieldOfAddr(e.Recv)
				if v == nil || !writes[v] || baseTerm(rootAddr(b)).K == KParam {
					continue
				}
				isnil, known := isNilOn(o.Events[applied:i], func(x *Term) bool { f, _ := fieldOf(x); return f == v })
				if !known && strings.HasSuffix(v.Name(), "Owner") {
					isnil, known = isNilOn(o.Events[applied:i], func(x *Term) bool {
						f, _ := fieldOf(x)
						return f != nil && f.Name() == strings.TrimSuffix(v.Name(), "Owner")
					})
				}
				if !known && c.flagOf(n, v, o.Events[applied:i]) {
					isnil, known = true, true
				}
				c.Check(known && isnil, "default", fnName(fn)+" "+v.Name(), func() string { return c.P.ShowTrace(o) })
			}
		}
	}
	c.Min("default", 8)
}

// optLoad: t is the field of the merged options
func optLoad(t *Term, merge, field string, star bool) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if star {
		if t.K != KLoad {
			return false
		}
		t = strip(t.A[0])
	}
	v, b := fieldOf(t)
	return v != nil && v.Name() == field && b != nil && b.K == KPure && strings.HasSuffix(b.Op, merge)
}

func c13Use(c *Ctx) {
	// objects: constructor, result interface, getter, option
	stream := c.P.Named("application", "stream")
	_ = stream
	for _, q := range []struct {
		meth, iface, get, merge, field string
		star                           bool
	}{
		{"NewRequest", "Request", "Custom", "MergeNewRequestOptions", "Custom", false},
		{"NewMessage", "Message", "Custom", "MergeNewMessageOptions", "Custom", false},
		{"NewMessage", "Message", "Topic", "MergeNewMessageOptions", "Topic", true},
		{"NewMessage", "Message", "Cnss", "MergeNewMessageOptions", "Cnss", true},
	} {
		impl := c.implOf(q.iface)
		if impl == nil {
			c.Undecided("use", q.meth, "no implementation of "+q.iface)
			continue
		}
		gf := c.getterField("application", impl.Obj().Name(), q.get)
		for _, r := range c.Roots() {
			if r.Kind != "api" || r.Fn.Name() != q.meth || c.P.rel(r.Fn) != "application" {
				continue
			}
			for _, o := range c.root(r) {
				name := r.Name + " " + q.field
				show := func() string { return c.P.ShowTrace(o) }
				if o.Kind != "return" || gf == nil {
					c.Check(false, "use", name, show)
					continue
				}
				got := objField(o.Heap, strip(o.Rets[0]), gf)
				isnil, known := isNilOn(o.Events, func(x *Term) bool { return optLoad(x, q.merge, q.field, false) })
				ok := optLoad(got, q.merge, q.field, q.star)
				if known && isnil {
					ok = ok || got == nil || got.isNilConst()
					if s, iss := constStrOf(got); iss {
						ok = ok || s == ""
					}
					if got != nil {
						if n, isn := got.constInt(); isn {
							ok = ok || n == 0
						}
					}
				}
				c.Check(ok, "use", name, func() string { return "holds " + c.P.Show(got) + "\n" + c.P.ShowTrace(o) })
			}
		}
	}
	// streams: the metadata and peer reach the multiplexer
	for _, r := range c.Roots() {
		if r.Kind != "api" || c.P.rel(r.Fn) != "application" {
			continue
		}
		switch r.Fn.Name() {
		case "OpenStream":
			c.openUse("use", r)
		case "Hijack":
			for _, o := range c.root(r) {
				c.hijackUse(r, o)
			}
		case "Call", "CallAsync":
			c.methodCheckUse(r)
		}
	}
	c.Min("use", 8)
}

// openUse: what opening a stream passes down is what was given
func (c *Ctx) openUse(rule string, r *Root) {
	for _, o := range c.root(r) {
		opened := false
		for i, e := range o.Events {
			if e.Kind != EvCall || !isCall(e, "OpenDialogue") || len(e.Args) < 2 {
				continue
			}
			opened = true
			a := e.Args[len(e.Args)-2:]
			c.Check(optLoad(a[0], "MergeOpenStreamOptions", "Meta", false), rule, r.Name+" Meta", func() string { return c.P.ShowTrace(o) })
			isnil, known := isNilOn(o.Events[:i], func(x *Term) bool { return optLoad(x, "MergeOpenStreamOptions", "Peer", false) })
			ok := known && !isnil && optLoad(a[1], "MergeOpenStreamOptions", "Peer", true)
			if s, iss := constStrOf(a[1]); iss && known && isnil {
				ok = s == ""
			}
			c.Check(ok, rule, r.Name+" Peer", func() string { return c.P.ShowTrace(o) })
		}
		c.Check(opened, rule, r.Name+" opens", func() string { return c.P.ShowTrace(o) })
	}
}

func constStrOf(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return t.constStr()
}

// hijackUse: the pattern compiled is the one given and the sense of the match is the one given
func (c *Ctx) hijackUse(r *Root, o *Outcome) {
	name := r.Name
	show := func() string { return c.P.ShowTrace(o) }
	if o.Kind != "return" || !o.Rets[0].isNilConst() {
		return
	}
	var obj *Term
	for _, e := range o.Events {
		if e.Kind == EvStore && strip(e.Args[0]).K == KAlloc {
			if v, _ := fieldOf(e.Recv); v != nil && hasField(v.Type(), func(t types.Type) bool { return namedIs(t, "regexp", "Regexp") }) {
				obj = strip(e.Args[0])
			}
		}
	}
	if !c.Check(obj != nil, "use", name+" installs", show) {
		return
	}
	st := deref(obj.T).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		got := objField(o.Heap, obj, f)
		switch {
		case namedIs(deref(f.Type()), "regexp", "Regexp"):
			isnil, known := isNilOn(o.Events, func(x *Term) bool { return optLoad(x, "MergeHijackOptions", "Pattern", false) })
			ok := known && isnil && (got == nil || got.isNilConst())
			if known && !isnil && got != nil {
				ok = anyTerm(got, func(x *Term) bool {
					return len(x.A) > 0 && (x.K == KCall || x.K == KPure) && strings.HasSuffix(x.Op, "regexp.Compile") && optLoad(x.A[len(x.A)-1], "MergeHijackOptions", "Pattern", true)
				})
			}
			c.Check(ok, "use", name+" Pattern", show)
		case types.Identical(f.Type(), types.Typ[types.Bool]):
			isnil, known := isNilOn(o.Events, func(x *Term) bool { return optLoad(x, "MergeHijackOptions", "Match", false) })
			ok := false
			if known && isnil {
				b, isb := constBoolOf(got)
				ok = isb && b
			} else if known {
				ok = optLoad(got, "MergeHijackOptions", "Match", true)
			}
			c.Check(ok, "use", name+" Match", show)
		default:
			if _, isf := f.Type().Underlying().(*types.Signature); isf {
				c.Check(got != nil && strip(got).K == KParam, "use", name+" handler", show)
			}
		}
	}
}

func hasField(t types.Type, f func(types.Type) bool) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if f(deref(st.Field(i).Type())) {
			return true
		}
	}
	return false
}

// methodCheckUse: with the check on, only a method the peer registered is called
func (c *Ctx) methodCheckUse(r *Root) {
	flag := c.optionField("application", "OptionWithRemoteRPCCheck")
	if flag == nil {
		c.Undecided("use", r.Name+" check", "no option for the check")
		return
	}
	for _, o := range c.root(r) {
		for i, e := range o.Events {
			p := c.sentPkt(e)
			if p == nil || !made(p) || c.pktKind(p) != "RequestPacket" {
				continue
			}
			on, known := boolOn(o.Events[:i], func(x *Term) bool { v, _ := fieldOf(x); return v == flag })
			if known && !on {
				continue
			}
			found := false
			for j, f := range o.Events[:i] {
				if f.Kind == EvMapGet && len(f.Args) > 0 && strip(f.Args[0]).K == KParam && isStrT(strip(f.Args[0])) {
					if b, ok := boolOn(o.Events[j:i], func(x *Term) bool {
						return x.K == KPure && x.Op == "mapok" && x.A[0].K == KMapVal && sameVal(x.A[0].A[1], f.Args[0]) && sameVal(x.A[0].A[0], f.Recv)
					}); ok && b {
						found = true
					}
				}
			}
			c.Check(known && found, "use", r.Name+" check", func() string { return c.P.ShowTrace(o) })
		}
	}
}
