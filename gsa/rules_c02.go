package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalNum folds a term whose atoms env knows.
func evalNum(t *Term, env func(*Term) (constant.Value, bool)) (constant.Value, bool) {
	if t == nil {
		return nil, false
	}
	if v, ok := env(t); ok {
		return v, true
	}
	switch t.K {
	case KConst:
		v := t.constVal()
		return v, v != nil
	case KIface:
		return evalNum(t.A[0], env)
	case KConv:
		v, ok := evalNum(t.A[0], env)
		if !ok {
			return nil, false
		}
		return convNum(v, t.T)
	case KNot:
		v, ok := evalNum(t.A[0], env)
		if !ok || v.Kind() != constant.Bool {
			return nil, false
		}
		return constant.MakeBool(!constant.BoolVal(v)), true
	case KBin:
		a, ok1 := evalNum(t.A[0], env)
		b, ok2 := evalNum(t.A[1], env)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch t.Op {
		case "==", "!=", "<", "<=", ">", ">=":
			op := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}[t.Op]
			return constant.MakeBool(constant.Compare(a, op, b)), true
		case "<<", ">>":
			n, ok := constant.Int64Val(b)
			if !ok || n < 0 || n > 63 {
				return nil, false
			}
			op := token.SHL
			if t.Op == ">>" {
				op = token.SHR
			}
			return convNum(constant.Shift(a, op, uint(n)), t.T)
		case "+", "-", "*", "&", "|", "^", "&^", "/", "%":
			op := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT, "/": token.QUO, "%": token.REM}[t.Op]
			if (t.Op == "/" || t.Op == "%") && constant.Sign(b) == 0 {
				return nil, false
			}
			if t.Op == "/" && a.Kind() == constant.Int && b.Kind() == constant.Int {
				op = token.QUO_ASSIGN
			}
			return convNum(constant.BinaryOp(a, op, b), t.T)
		}
	case KPure:
		if t.Op == "math.Pow" {
			a, ok1 := evalNum(t.A[0], env)
			b, ok2 := evalNum(t.A[1], env)
			if ok1 && ok2 {
				x, _ := constant.Float64Val(constant.ToFloat(a))
				y, _ := constant.Float64Val(constant.ToFloat(b))
				return constant.MakeFloat64(math.Pow(x, y)), true
			}
		}
		if t.Op == "index" && len(t.A) == 2 {
			// element of a constant string
			if s, ok := t.A[0].constStr(); ok {
				if i, ok := evalNum(t.A[1], env); ok {
					if n, ok := constant.Int64Val(i); ok && n >= 0 && int(n) < len(s) {
						return constant.MakeInt64(int64(s[n])), true
					}
				}
			}
		}
	}
	return nil, false
}

func convNum(v constant.Value, t types.Type) (constant.Value, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v, true
	}
	if b.Info()&types.IsFloat != 0 {
		return constant.ToFloat(v), true
	}
	if b.Info()&types.IsInteger != 0 {
		if v.Kind() == constant.Float {
			f, _ := constant.Float64Val(v)
			v = constant.MakeInt64(int64(f))
		}
		w, u := bits(t)
		if w == 0 || v.Kind() != constant.Int {
			return v, v.Kind() == constant.Int
		}
		mask := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(w)), token.SUB, constant.MakeInt64(1))
		v = constant.BinaryOp(v, token.AND, mask)
		if !u {
			half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(w-1))
			if constant.Compare(v, token.GEQ, half) {
				v = constant.BinaryOp(v, token.SUB, constant.Shift(constant.MakeInt64(1), token.SHL, uint(w)))
			}
		}
		return v, true
	}
	return v, true
}

// narrows: a conversion on the way keeps fewer than w bits
func narrows(t *Term, w int) bool {
	for t != nil && (t.K == KIface || t.K == KConv) {
		if t.K == KConv && t.T != nil {
			if b, _ := bits(t.T); b > 0 && b < w {
				return true
			}
		}
		t = t.A[0]
	}
	return false
}

// wireCell is a run of bytes the encoder sets.
type wireCell struct {
	off   *Lin // absolute, from the start of the packet
	width int  // 0: variable
	n     *Lin // length of a variable run
	val   *Term
}

type wire struct {
	cells []wireCell
	total *Lin
	err   string
}

func sliceRoot(t *Term) (*Term, *Lin) {
	off := linC(0)
	for t.K == KSlice {
		off = off.add(lin0(t.A[1]), 1)
		t = t.A[0]
	}
	return t, off
}

// encoded builds the byte layout of one path of an encoder.
func encoded(c *Ctx, o *Outcome) *wire {
	w := &wire{total: linC(0)}
	var chunks []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.K == KAppend {
			flat(t.A[0])
			flat(t.A[1])
			return
		}
		chunks = append(chunks, t)
	}
	flat(o.Rets[0])
	start := map[string]*Lin{}
	for _, ch := range chunks {
		if els, ok := Elems(o.Heap, ch); ok && ch.K == KSlice && ch.A[0].K == KAlloc {
			// literal bytes appended one by one
			if at, isArr := deref(ch.A[0].T).Underlying().(*types.Array); isArr && start[ch.A[0].Key()] == nil && int(at.Len()) == len(els) && len(els) < 9 && !o.State.filled[ch.A[0].Key()] {
				allSet := true
				for i := range els {
					if _, ok := o.Heap.m[(&Term{K: KElemA, A: []*Term{ch.A[0], intT(int64(i))}}).Key()]; !ok {
						allSet = false
					}
				}
				if allSet {
					for i, v := range els {
						w.cells = append(w.cells, wireCell{off: w.total.add(linC(int64(i)), 1), width: 1, val: v})
					}
					w.total = w.total.add(linC(int64(len(els))), 1)
					continue
				}
			}
		}
		root, off := sliceRoot(ch)
		n := lenLin(ch)
		if root.K != KAlloc && root.K != KMake {
			// bytes appended as they are
			w.cells = append(w.cells, wireCell{off: w.total, n: n, val: ch})
		} else {
			start[root.Key()] = w.total.add(off, -1)
		}
		w.total = w.total.add(n, 1)
	}
	last := map[string]int{}
	put := func(cell wireCell) {
		k := fmt.Sprint(cell.off.c, cell.off.m, cell.width)
		if i, ok := last[k]; ok {
			w.cells[i] = cell
			return
		}
		last[k] = len(w.cells)
		w.cells = append(w.cells, cell)
	}
	for _, e := range o.Events {
		switch e.Kind {
		case EvPut:
			root, off := sliceRoot(e.Args[0])
			st := start[root.Key()]
			if st == nil {
				continue
			}
			wd := map[string]int{"16": 2, "32": 4, "64": 8}[e.Op[len(e.Op)-2:]]
			if !strings.Contains(e.Op, "bigEndian") {
				w.err = "not big endian: " + e.Op
			}
			put(wireCell{off: st.add(off, 1), width: wd, val: e.Args[1]})
		case EvStore:
			if e.Recv.K == KElemA {
				root, off := sliceRoot(e.Recv.A[0])
				if st := start[root.Key()]; st != nil {
					put(wireCell{off: st.add(off, 1).add(lin(e.Recv.A[1]), 1), width: 1, val: e.Args[0]})
				}
			}
		case EvCopy:
			root, off := sliceRoot(e.Args[0])
			if st := start[root.Key()]; st != nil {
				n := lenLin(e.Args[1])
				if !lenLin(e.Args[0]).eq(n) {
					w.err = "a copy into a region of another length"
				}
				put(wireCell{off: st.add(off, 1), n: n, val: e.Args[1]})
			}
		}
	}
	return w
}

// decoded field terms refer to bytes of the packet; dec maps them to absolute offsets.
type decView struct {
	start map[string]*Lin
	pl    *Lin // payload length
	um    map[string]*Term
	// the bytes come from a reader
	reader bool
}

func decViewOf(c *Ctx, o *Outcome, arg *Term, fromReader bool) *decView {
	v := &decView{start: map[string]*Lin{}, um: map[string]*Term{}, reader: fromReader}
	if pl := c.pktField(o.State, o.Rets[0], "PacketLen"); pl != nil {
		v.pl = lin(pl)
	}
	pos := linC(0)
	if !fromReader {
		v.start[arg.Key()] = linC(0)
	}
	for _, e := range o.Events {
		if fromReader {
			if n, _, is := readSize(e, arg); is && n != nil {
				if e.Fn.Name() != "CopyN" {
					root, _ := sliceRoot(e.Args[1])
					v.start[root.Key()] = pos
				}
				pos = pos.add(n, 1)
			}
		}
		if e.Kind == EvCall && e.Op == "json.Unmarshal" {
			v.um[strip(e.Args[1]).Key()] = e.Args[0]
		}
	}
	return v
}

func (v *decView) abs(t *Term) (*Lin, bool) {
	root, off := sliceRoot(t)
	st := v.start[root.Key()]
	if st == nil {
		return nil, false
	}
	return st.add(off, 1), true
}

// end of a slice in absolute terms
func (v *decView) end(t *Term) *Lin {
	a, ok := v.abs(t)
	if !ok {
		return nil
	}
	return a.add(lenLin(t), 1)
}

type leaf struct {
	path []*types.Var
	name string
}

// leaves lists the fields of a packet struct, embedded ones included.
func leaves(t types.Type, pre []*types.Var, out *[]leaf) {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := append(append([]*types.Var{}, pre...), f)
		if f.Embedded() {
			leaves(f.Type(), p, out)
			continue
		}
		n := []string{}
		for _, v := range p {
			n = append(n, v.Name())
		}
		*out = append(*out, leaf{p, strings.Join(n, ".")})
	}
}

func loadPath(st *State, p *Prog, base *Term, path []*types.Var) *Term {
	x := &Exec{P: p, ids: 1 << 30}
	cur := base
	for i, f := range path {
		addr := &Term{K: KFieldA, A: []*Term{cur}, Obj: f, T: types.NewPointer(f.Type())}
		if i == len(path)-1 {
			return x.load(st, addr)
		}
		if _, ptr := f.Type().Underlying().(*types.Pointer); ptr {
			cur = x.load(st, addr)
		} else {
			cur = addr
		}
	}
	return nil
}

func (w *wire) at(off *Lin, width int) *Term {
	for i := len(w.cells) - 1; i >= 0; i-- {
		if w.cells[i].width == width && w.cells[i].off.eq(off) {
			return w.cells[i].val
		}
	}
	return nil
}

func (w *wire) region(off *Lin) *wireCell {
	for i := len(w.cells) - 1; i >= 0; i-- {
		if w.cells[i].width == 0 && w.cells[i].off.eq(off) {
			return &w.cells[i]
		}
	}
	return nil
}

func (w *wire) covered(off *Lin) bool {
	for _, cl := range w.cells {
		if cl.width > 1 {
			for i := 1; i < cl.width; i++ {
				if cl.off.add(linC(int64(i)), 1).eq(off) {
					return true
				}
			}
			if cl.off.eq(off) {
				return true
			}
		}
	}
	return false
}

func c02Layout(c *Ctx) {
	c02LayoutOf(c)
	c.Min("layout", 36)
	c.Min("json-body-kept", 12)
	c.Min("bytes-own-buffer", 2)
	c.Min("json-body-fresh", 12)
	c.Min("declared-length", 18)
}

// layoutOf checks the packets of some types only.
func layoutOf(types ...string) func(*Ctx) {
	return func(c *Ctx) {
		c02LayoutOf(c, types...)
		c.Min("layout", 2*len(types))
		c.Min("declared-length", len(types))
	}
}

func c02LayoutOf(c *Ctx, only ...string) {
	buf, rd := c.decoders()
	if buf == nil || rd == nil {
		c.Undecided("layout", "decoders", "not found")
		return
	}
	for _, fn := range []*ssa.Function{buf, rd} {
		arg := (&Exec{P: c.P}).Params(fn)[0]
		for _, o := range c.Traces(fn, fn.Name(), RunOpts{}) {
			errT := o.Rets[len(o.Rets)-1]
			if o.Kind != "return" || errIsNonNil(o, errT) || o.Rets[0].K != KIface || !errIsNil(o, errT) && !anyFailing(o, errT) {
				continue
			}
			if !errIsNil(o, errT) {
				// an error handed on stands for success only if no failing path hides in it
				if hasFailure(o, errT) {
					continue
				}
			}
			dv := decViewOf(c, o, arg, fn == rd)
			typ := o.Rets[0].T
			name := fn.Name() + "/" + dynOf(o.Rets[0])
			if len(only) > 0 && !slices.Contains(only, dynOf(o.Rets[0])) {
				continue
			}
			enc := c.P.MethodOf(typ, "Encode")
			if enc == nil {
				c.Undecided("layout", name, "no encoder")
				continue
			}
			eouts := c.Traces(enc, name, RunOpts{})
			var lv []leaf
			leaves(typ, nil, &lv)
			n := 0
			for _, eo := range eouts {
				if eo.Kind != "return" || len(eo.Rets) != 2 || errIsNonNil(eo, eo.Rets[1]) {
					continue
				}
				n++
				w := encoded(c, eo)
				c.Check(w.err == "", "layout", name, func() string { return w.err + "\n" + c.P.ShowTrace(eo) })
				recv := (&Exec{P: c.P}).Params(enc)[0]
				if len(enc.Blocks) > 0 && enc.Synthetic != "" {
					recv = (&Exec{P: c.P}).Params(enc)[0]
				}
				c02Path(c, name, o, dv, eo, w, lv, recv)
			}
			if n == 0 {
				c.Undecided("layout", name, "the encoder has no successful path")
			}
		}
	}
}

func hasFailure(o *Outcome, errT *Term) bool {
	for _, e := range o.Events {
		if e.Kind != EvCall || e.Res == nil {
			continue
		}
		r := e.Res
		if r.K == KTuple {
			r = r.A[len(r.A)-1]
		}
		if isErrType(r.T) && !sameTerm(r, errT) && !errIsNil(o, r) {
			return true
		}
	}
	return false
}

func c02Path(c *Ctx, name string, o *Outcome, dv *decView, eo *Outcome, w *wire, lv []leaf, recv *Term) {
	st := eo.State
	ptype := strings.SplitN(name, "/", 2)[1]
	show := func(f leaf, msg string) func() string {
		return func() string {
			return msg + " (field " + f.name + ")\nencoder path:\n" + c.P.ShowTrace(eo) + "decoder path:\n" + c.P.ShowTrace(o)
		}
	}
	// the declared length is what follows the header
	hl := w.at(linC(10), 4)
	rest := w.total.add(linC(14), -1)
	var plLeaf leaf
	for _, f := range lv {
		if strings.HasSuffix(f.name, "PacketLen") {
			plLeaf = f
		}
	}
	okLen := hl != nil && lin(strip(hl)).eq(rest) && !narrows(hl, 32)
	if !okLen && hl != nil && plLeaf.path != nil && sameTerm(hl, loadPath(st, c.P, recv, plLeaf.path)) {
		// no payload: the packet is created with length zero
		if n, ok := rest.isConst(); ok && n == 0 {
			okLen = true
		}
	}
	c.Check(okLen, "declared-length", ptype, show(plLeaf, "the declared payload length is not the length of what is written"))
	byteAtoms := func(t *Term) []*Term {
		var r []*Term
		seen := map[string]bool{}
		anyTerm(t, func(x *Term) bool {
			if x.K == KLoad && !seen[x.Key()] {
				seen[x.Key()] = true
				r = append(r, x)
			}
			return false
		})
		return r
	}
	for _, f := range lv {
		want := loadPath(st, c.P, recv, f.path)
		got := loadPath(o.State, c.P, strip(o.Rets[0]), f.path)
		if want == nil || got == nil {
			c.Undecided("layout", name, "field "+f.name+" not resolved")
			continue
		}
		if f.name == plLeaf.name {
			continue
		}
		// does the encoder carry it?
		carried := false
		for _, cl := range w.cells {
			if contains(cl.val, want) {
				carried = true
			}
		}
		wk, _ := canon(want)
		if _, ok := st.facts[wk]; ok {
			carried = true
		}
		for k := range st.facts {
			if strings.HasPrefix(k, "eq:") && strings.Contains(k, strip(want).Key()) {
				carried = true
			}
		}
		// pointer fields filled from JSON
		if src, ok := dv.um[strip(got).Key()]; ok {
			off, okO := dv.abs(src)
			if !okO {
				c.Check(false, "layout", name, show(f, "the JSON body is not taken from the packet"))
				continue
			}
			cell := w.region(off)
			ok := cell != nil && strip(cell.val).K == KTupleEl && strip(cell.val).A[0].Op == "json.Marshal" && sameTerm(strip(cell.val).A[0].A[0], want)
			// both run to the end of the packet
			ok = ok && cell.off.add(cell.n, 1).eq(w.total) && dv.pl != nil && dv.end(src).eq(dv.pl.add(linC(14), 1))
			c.Check(ok, "layout", name, show(f, "the JSON body is not read back from where it was written"))
			// neither side alters the body itself
			c.Check(!altered(o, strip(got)) && !altered(eo, strip(want)), "json-body-kept", name, show(f, "a field of the body is changed apart from its JSON"))
			// packets don't share a body, and absent keys leave nothing of an earlier one
			c.Check(strip(got).K == KAlloc, "json-body-fresh", name, show(f, "the JSON is not decoded into a structure of its own"))
			continue
		}
		g := strip(got)
		if !carried {
			// the decoder must not make it up from the packet
			reads := anyTerm(g, func(t *Term) bool {
				if t.K != KSlice && t.K != KElemA {
					return false
				}
				_, ok := dv.abs(t.A[0])
				return ok
			})
			c.Check(!reads, "layout", name, show(f, "the decoder reads a field the encoder does not write"))
			continue
		}
		if g.K == KSlice {
			off, okO := dv.abs(g)
			cell := (*wireCell)(nil)
			if okO {
				cell = w.region(off)
			}
			ok := cell != nil && sameTerm(cell.val, want) && cell.off.add(cell.n, 1).eq(w.total) && dv.pl != nil && dv.end(g).eq(dv.pl.add(linC(14), 1))
			c.Check(ok, "layout", name, show(f, "the bytes are not read back from where they were written"))
			if dv.reader {
				root, _ := sliceRoot(g)
				c.Check(root.K == KAlloc || root.K == KMake, "bytes-own-buffer", name, show(f, "the bytes stay in a buffer that the next packet may overwrite"))
			}
			continue
		}
		// replace the bytes the decoder looks at by what the encoder put there
		bad := ""
		resolve := func(t *Term) (*Term, bool) {
			switch {
			case t.K == KPure && strings.Contains(t.Op, ").Uint"):
				if !strings.Contains(t.Op, "bigEndian") {
					bad = "not big endian"
					return nil, false
				}
				wd := map[string]int{"16": 2, "32": 4, "64": 8}[t.Op[len(t.Op)-2:]]
				off, ok := dv.abs(t.A[0])
				if !ok {
					return nil, false
				}
				v := w.at(off, wd)
				if v == nil {
					bad = fmt.Sprintf("no %d-byte integer is written at offset %d", wd, off.c)
					return nil, false
				}
				return v, true
			case t.K == KLoad && t.A[0].K == KElemA:
				off, ok := dv.abs(t.A[0].A[0])
				if !ok {
					return nil, false
				}
				off = off.add(lin(t.A[0].A[1]), 1)
				v := w.at(off, 1)
				if v == nil {
					if w.covered(off) {
						bad = fmt.Sprintf("offset %d lies within a wider field", off.c)
						return nil, false
					}
					// bytes the encoder leaves zero
					return constT(constant.MakeInt64(0), t.T), true
				}
				return v, true
			}
			return nil, false
		}
		if v, ok := resolve(g); ok {
			if sameTerm(v, want) {
				wb, _ := bits(want.T)
				c.Check(!narrows(v, wb) && !narrows(got, wb), "layout", name, show(f, "the value is cut to fewer bits on the way"))
				continue
			}
		}
		// bit fields: every combination of the values the bits can hold
		var cells []*Term
		anyTerm(g, func(t *Term) bool {
			if v, ok := resolve(t); ok {
				cells = append(cells, v)
			}
			return false
		})
		// what the decoder found out about the bytes on its way to this value
		var conds []*Event
		for _, e := range o.Events {
			if e.Kind != EvAssume || e.Cond == nil || e.Cond.T == nil {
				continue
			}
			was := bad
			var cs []*Term
			anyTerm(e.Cond, func(t *Term) bool {
				if t.K == KLoad && t.A[0].K == KElemA {
					if v, ok := resolve(t); ok {
						cs = append(cs, v)
					}
				}
				return false
			})
			bad = was
			if len(cs) > 0 {
				conds = append(conds, e)
				if g.K == KConst {
					cells = append(cells, cs...)
				}
			}
		}
		if bad != "" || len(cells) == 0 {
			if bad == "" {
				bad = "the decoder does not read the field"
			}
			c.Check(false, "layout", name, show(f, bad))
			continue
		}
		var atoms []*Term
		for _, v := range cells {
			atoms = append(atoms, byteAtoms(v)...)
		}
		okAll := true
		why := ""
		n := 1
		for range atoms {
			n *= 8
		}
		if n > 4096 {
			c.Undecided("layout", name, "too many bit fields in one byte")
			continue
		}
		for i := 0; i < n && okAll; i++ {
			asg := map[string]constant.Value{}
			k := i
			for _, a := range atoms {
				asg[a.Key()] = constant.MakeInt64(int64(k % 8))
				k /= 8
			}
			env := func(t *Term) (constant.Value, bool) {
				if v, ok := asg[t.Key()]; ok {
					return v, true
				}
				if v, ok := st.eqc[t.Key()]; ok && v != nil {
					return v, true
				}
				if v, ok := st.facts[t.Key()]; ok && t.T != nil {
					if b, isB := t.T.Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
						return constant.MakeBool(v), true
					}
				}
				return nil, false
			}
			wire := func(t *Term) (constant.Value, bool) {
				if v, ok := resolve(t); ok {
					return evalNum(v, env)
				}
				return nil, false
			}
			// these bytes take the decoder another way
			other := false
			for _, e := range conds {
				if v, ok := evalNum(e.Cond, wire); ok && v.Kind() == constant.Bool && constant.BoolVal(v) != e.Val {
					other = true
				}
			}
			if other {
				continue
			}
			dec, ok := evalNum(g, wire)
			if !ok {
				okAll, why = false, "the bits cannot be evaluated"
				break
			}
			exp, ok := env(strip(want))
			if !ok {
				exp, ok = env(want)
			}
			if !ok {
				// none of the values the encoder distinguishes: one of the other constants of the type
				okAll = otherConst(c, st, want, dec)
				why = "decodes to a value the encoder treats differently: " + dec.String()
				continue
			}
			if dec.Kind() != exp.Kind() {
				dec2, ok2 := convNum(dec, want.T)
				if ok2 {
					dec = dec2
				}
			}
			if dec.Kind() != exp.Kind() || !constant.Compare(dec, token.EQL, exp) {
				okAll, why = false, fmt.Sprintf("%s is decoded as %s", exp, dec)
			}
		}
		c.Check(okAll, "layout", name, show(f, why))
	}
}

// altered: the path stores to the structure body points to.
func altered(o *Outcome, body *Term) bool {
	for _, e := range o.Events {
		if e.Kind != EvStore || e.Recv == nil {
			continue
		}
		for t := e.Recv; t != nil && (t.K == KFieldA || t.K == KElemA || t.K == KSlice); {
			t = strip(t.A[0])
			if sameTerm(t, body) {
				return true
			}
		}
	}
	return false
}

// otherConst: v is a declared constant of the field's type that the path did not rule out.
func otherConst(c *Ctx, st *State, field *Term, v constant.Value) bool {
	nt, ok := field.T.(*types.Named)
	if !ok {
		return false
	}
	sc := nt.Obj().Pkg().Scope()
	declared := false
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), nt) && constant.Compare(k.Val(), token.EQL, v) {
			declared = true
		}
	}
	eq := &Term{K: KBin, Op: "==", A: []*Term{field, constT(v, nt)}, T: types.Typ[types.Bool]}
	k, neg := canon(eq)
	f, known := st.facts[k]
	return declared && !(known && (f != neg) == false)
}

// c02Types: constants, decoders and factory agree on type numbers.
func c02Types(c *Ctx) {
	buf, rd := c.decoders()
	pt := c.P.Named("packet", "Type")
	tp := c.P.TPkgs["packet"]
	if pt == nil || buf == nil || rd == nil {
		c.Undecided("type-table", "packet.Type", "not found")
		return
	}
	consts := map[string]constant.Value{}
	sc := tp.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), pt) {
			consts[n] = k.Val()
		}
	}
	seen := map[string]string{}
	for n, v := range consts {
		if p, dup := seen[v.String()]; dup {
			c.Check(false, "type-distinct", n, func() string { return n + " and " + p + " share the number " + v.String() })
		} else {
			c.Check(true, "type-distinct", n, nil)
		}
		seen[v.String()] = n
	}
	tables := map[string]map[string]string{}
	for _, fn := range []*ssa.Function{buf, rd} {
		tab := map[string]string{}
		for _, o := range c.Traces(fn, fn.Name(), RunOpts{}) {
			errT := o.Rets[len(o.Rets)-1]
			if o.Rets[0].K != KIface || errIsNonNil(o, errT) {
				continue
			}
			ty := c.pktField(o.State, o.Rets[0], "Typ")
			if ty == nil {
				continue
			}
			v := strip(ty).constVal()
			if v == nil {
				v = o.State.eqc[strip(ty).Key()]
			}
			if v == nil {
				c.Undecided("type-table", fn.Name()+"/"+dynOf(o.Rets[0]), "decoded without looking at the type number")
				continue
			}
			if p, ok := tab[v.String()]; ok && p != dynOf(o.Rets[0]) {
				c.Check(false, "type-table", fn.Name()+"/"+p, c.trace(o))
			}
			tab[v.String()] = dynOf(o.Rets[0])
		}
		tables[fn.Name()] = tab
		for n, v := range consts {
			_, ok := tab[v.String()]
			n := n
			c.Check(ok, "type-accepted", fn.Name()+"/"+n, func() string { return fn.Name() + " has no successful path for " + n })
		}
	}
	for n, v := range consts {
		a, b := tables[buf.Name()][v.String()], tables[rd.Name()][v.String()]
		c.Check(a == b, "type-table", n, func() string { return "the decoders yield " + a + " and " + b })
	}
	// the factory stamps the number its structure is decoded under
	pf := c.P.Named("packet", "packetFactory")
	var ms []*ssa.Function
	if itf := c.P.Named("packet", "PacketFactory"); itf != nil && pf != nil {
		it := itf.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			if f := c.P.MethodOf(types.NewPointer(pf), it.Method(i).Name()); f != nil {
				ms = append(ms, f)
			}
		}
	}
	made := map[string]bool{}
	for _, m := range ms {
		r := m.Signature.Results()
		if r.Len() != 1 {
			continue
		}
		if _, ok := r.At(0).Type().(*types.Pointer); !ok {
			continue
		}
		want := strings.TrimPrefix(shortType(r.At(0).Type()), "*")
		for _, o := range c.Traces(m, m.Name(), RunOpts{}) {
			if o.Kind != "return" {
				c.Check(false, "factory-type", m.Name(), c.trace(o))
				continue
			}
			ty := c.pktField(o.State, o.Rets[0], "Typ")
			ok := ty != nil && strip(ty).constVal() != nil && tables[buf.Name()][strip(ty).constVal().String()] == want
			made[want] = made[want] || ok
			c.Check(ok, "factory-type", m.Name(), func() string {
				return "the packet is not created with the type number of its structure\n" + c.P.ShowTrace(o)
			})
			// without a payload the declared length is zero from the start
			pl := c.pktField(o.State, o.Rets[0], "PacketLen")
			n, isC := int64(0), false
			if pl != nil {
				n, isC = strip(pl).constInt()
			}
			c.Check(isC && n == 0, "factory-length", m.Name(), c.trace(o))
		}
	}
	c.Min("factory-type", 20)
	c.Min("type-accepted", 36)
}

// c02JSON: the JSON bodies keep every field under its own key.
func c02JSON(c *Ctx) {
	bodies := map[string]types.Type{}
	for _, fn := range c.P.Funcs {
		if c.P.rel(fn) != "packet" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := cl.Common().StaticCallee()
				if t == nil || t.Pkg == nil || t.Pkg.Pkg.Path() != "encoding/json" {
					continue
				}
				for _, a := range cl.Common().Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						ty := deref(mi.X.Type())
						if _, ok := ty.Underlying().(*types.Struct); ok {
							bodies[shortType(ty)] = ty
						}
					}
				}
			}
		}
	}
	var names []string
	for n := range bodies {
		names = append(names, n)
	}
	sort.Strings(names)
	var visit func(n string, t types.Type)
	visit = func(n string, t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON"} {
			obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m)
			if _, own := obj.(*types.Func); own {
				c.Undecided("json-body", n, "custom JSON methods")
			}
		}
		keys := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			parts := strings.Split(tag, ",")
			key := parts[0]
			if key == "" {
				key = f.Name()
			}
			ok := ast.IsExported(f.Name()) && !(tag == "-")
			c.Check(ok, "json-body", n+"."+f.Name(), func() string { return "the field is not written to or read from the JSON body" })
			lk := strings.ToLower(key)
			p, dup := keys[lk]
			c.Check(!dup, "json-keys", n+"."+f.Name(), func() string { return "the key " + key + " is also used by " + p })
			keys[lk] = f.Name()
			if s, ok := f.Type().(*types.Struct); ok {
				visit(n+"."+f.Name(), s)
			}
		}
	}
	for _, n := range names {
		visit(n, bodies[n])
	}
	c.Min("json-body", 10)
}

func init() {
	register("C02", "The byte layout of every path of every encoder is reconstructed as a table of cells (offset, width, value); the terms the two decoders store into each field are evaluated on that table and must give the field back. Flag bytes are checked for every combination of the values their bits can hold. Type numbers are compared across constants, both decoders and the factory; JSON bodies are checked on their struct types.",
		Rule{"layout", "every field is decoded from the offset, width, byte order and bits it was encoded at; declared length equals written length", c02Layout},
		Rule{"types", "every type number is accepted by both decoders, yields the same structure, and the factory stamps it", c02Types},
		Rule{"json", "JSON bodies carry every field under a distinct key", c02JSON},
	)
}
