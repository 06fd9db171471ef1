package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an abstract value: its provenance. Terms are compared by Key.
type Term struct {
	K   Kind
	Op  string
	T   types.Type
	A   []*Term
	Obj interface{}
	ID  int
	Pos token.Pos
	key string
}

type Kind uint8

const (
	KConst   Kind = iota // Obj constant.Value, nil value for nil / zero aggregates
	KParam               // Op name
	KGlobal              // address of a global
	KFunc                // Obj *ssa.Function
	KClosure             // Obj *ssa.Function, A bindings
	KAlloc               // address of a fresh object
	KFieldA              // A[0] base pointer, Obj *types.Var
	KElemA               // A[0] base (slice or array pointer), A[1] index
	KLoad                // A[0] address
	KCall                // fresh result of an opaque call, Op callee, A args
	KPure                // deterministic function of its arguments
	KTupleEl             // A[0] tuple, ID index
	KBin                 // Op operator
	KNot                 //
	KNeg                 //
	KConv                // conversion changing representation
	KSlice               // A: x, lo, hi
	KMake                // fresh chan, map, slice; Op kind, A: size
	KIface               // A[0] concrete value, T = dynamic type
	KLen                 // A[0]
	KAppend              // A: base, more
	KHavoc               // unknown
	KMapVal              // A: map, key
	KRecv                // fresh value received from A[0]
	KField               // field of a struct value: A[0], Obj *types.Var
	KSnap                // struct value loaded from A[0]
	KRange               // range iterator / key / value
	KIs                  // dynamic type test: A[0], T
	KTuple               // A elements
)

func (t *Term) Key() string {
	if t == nil {
		return "<nil>"
	}
	if t.key != "" {
		return t.key
	}
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.K)))
	b.WriteByte(':')
	switch t.K {
	case KConst:
		if c, ok := t.Obj.(constant.Value); ok && c != nil {
			b.WriteString(c.ExactString())
		} else {
			b.WriteString("nil")
		}
	case KFunc, KClosure:
		b.WriteString(t.Obj.(*ssa.Function).String())
		if t.K == KClosure {
			fmt.Fprintf(&b, "#%d", t.ID)
		}
	case KFieldA, KField:
		v := t.Obj.(*types.Var)
		fmt.Fprintf(&b, "%s@%d", v.Name(), v.Pos())
	default:
		b.WriteString(t.Op)
		if t.ID != 0 {
			fmt.Fprintf(&b, "#%d", t.ID)
		}
		if (t.K == KIface || t.K == KIs) && t.T != nil {
			b.WriteString(t.T.String())
		}
	}
	if len(t.A) > 0 {
		b.WriteByte('(')
		for i, a := range t.A {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.Key())
		}
		b.WriteByte(')')
	}
	t.key = b.String()
	return t.key
}

func constT(c constant.Value, t types.Type) *Term { return &Term{K: KConst, Obj: c, T: t} }
func nilT(t types.Type) *Term                     { return &Term{K: KConst, T: t} }
func boolT(v bool) *Term                          { return constT(constant.MakeBool(v), types.Typ[types.Bool]) }
func intT(v int64) *Term                          { return constT(constant.MakeInt64(v), types.Typ[types.Int]) }

func (t *Term) constVal() constant.Value {
	if t == nil || t.K != KConst {
		return nil
	}
	c, _ := t.Obj.(constant.Value)
	return c
}
func (t *Term) isNilConst() bool { return t != nil && t.K == KConst && t.Obj == nil }
func (t *Term) constBool() (bool, bool) {
	c := t.constVal()
	if c == nil || c.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c), true
}
func (t *Term) constInt() (int64, bool) {
	c := t.constVal()
	if c == nil || c.Kind() != constant.Int {
		return 0, false
	}
	v, ok := constant.Int64Val(c)
	return v, ok
}
func (t *Term) constStr() (string, bool) {
	c := t.constVal()
	if c == nil || c.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c), true
}

// strip removes representation-preserving wrappers.
func strip(t *Term) *Term {
	for t != nil && (t.K == KIface || t.K == KConv) {
		t = t.A[0]
	}
	return t
}

// fieldOf returns the field a load (or an address) denotes and its base pointer.
func fieldOf(t *Term) (*types.Var, *Term) {
	t = strip(t)
	if t == nil {
		return nil, nil
	}
	if t.K == KLoad {
		t = t.A[0]
	}
	if t.K == KFieldA {
		return t.Obj.(*types.Var), t.A[0]
	}
	if t.K == KField {
		return t.Obj.(*types.Var), t.A[0]
	}
	return nil, nil
}

// contains reports whether sub occurs in t.
func contains(t, sub *Term) bool {
	if t == nil {
		return false
	}
	if t.Key() == sub.Key() {
		return true
	}
	for _, a := range t.A {
		if contains(a, sub) {
			return true
		}
	}
	return false
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.A {
		if anyTerm(a, f) {
			return true
		}
	}
	return false
}

// String is a readable rendering for reports.
func (p *Prog) Show(t *Term) string {
	if t == nil {
		return "?"
	}
	args := func() string {
		var s []string
		for _, a := range t.A {
			s = append(s, p.Show(a))
		}
		return strings.Join(s, ", ")
	}
	switch t.K {
	case KConst:
		if c, ok := t.Obj.(constant.Value); ok && c != nil {
			return c.String()
		}
		return "nil"
	case KParam, KHavoc:
		return t.Op
	case KGlobal:
		return "&" + t.Op
	case KFunc, KClosure:
		return t.Obj.(*ssa.Function).Name()
	case KAlloc, KMake:
		return fmt.Sprintf("new#%d(%s)", t.ID, t.Op)
	case KFieldA, KField:
		return p.Show(t.A[0]) + "." + t.Obj.(*types.Var).Name()
	case KLoad:
		if t.A[0].K == KFieldA {
			return p.Show(t.A[0])
		}
		if t.A[0].K == KGlobal {
			return t.A[0].Op
		}
		return "*" + p.Show(t.A[0])
	case KIface, KConv, KSnap:
		return p.Show(t.A[0])
	case KBin:
		return "(" + p.Show(t.A[0]) + " " + t.Op + " " + p.Show(t.A[1]) + ")"
	case KNot:
		return "!" + p.Show(t.A[0])
	case KTupleEl:
		return fmt.Sprintf("%s.%d", p.Show(t.A[0]), t.ID)
	case KIs:
		return fmt.Sprintf("is(%s,%s)", p.Show(t.A[0]), types.TypeString(t.T, func(*types.Package) string { return "" }))
	}
	return fmt.Sprintf("%s[%s](%s)", t.Op, []string{"const", "param", "global", "func", "closure", "alloc", "fielda", "elema", "load", "call", "pure", "tel", "bin", "not", "neg", "conv", "slice", "make", "iface", "len", "append", "havoc", "mapval", "recv", "field", "snap", "range", "is", "tuple"}[t.K], args())
}
