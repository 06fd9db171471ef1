package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fsmTable is the transition table a constructor sets up.
type fsmTable struct {
	Owner  string
	Init   string
	States map[string]bool
	Trans  map[string]map[string]string // event -> from -> to
	Hand   map[string][]*Term           // event|from -> handlers
	Adds   [][3]string
}

func isFSMFn(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/yafsm") && recvName(fn) == "FSM"
}

// FSMs extracts the tables of every constructor, by the type constructed.
func (c *Ctx) FSMs() map[string]*fsmTable {
	if c.fsms != nil {
		return c.fsms
	}
	c.fsms = map[string]*fsmTable{}
	for _, r := range c.Roots() {
		if r.Kind != "api" || r.Fn.Signature.Recv() != nil {
			continue
		}
		for _, o := range c.RunRoot(r, RunOpts{Key: "root"}) {
			if o.Kind != "return" || len(o.Rets) < 2 || !errIsNil(o, o.Rets[len(o.Rets)-1]) {
				continue
			}
			obj := strip(o.Rets[0])
			if obj == nil || obj.T == nil {
				continue
			}
			n, ok := deref(obj.T).(*types.Named)
			if !ok {
				continue
			}
			if !hasFSM(n) {
				continue
			}
			t := &fsmTable{Owner: n.Obj().Name(), States: map[string]bool{}, Trans: map[string]map[string]string{}, Hand: map[string][]*Term{}}
			name := func(a *Term) string {
				// the state object AddState returned
				a = strip(a)
				if a.K == KCall && strings.HasSuffix(a.Op, ".AddState") && len(a.A) == 2 {
					s, _ := a.A[1].constStr()
					return s
				}
				return ""
			}
			for _, e := range o.Events {
				if e.Kind != EvCall || !isFSMFn(e.Fn) {
					continue
				}
				switch e.Fn.Name() {
				case "AddState":
					if s, ok := e.Args[1].constStr(); ok {
						t.States[s] = true
					}
				case "SetState", "Init":
					if s, ok := e.Args[1].constStr(); ok {
						t.Init = s
					}
				case "AddEvent":
					ev, ok := e.Args[1].constStr()
					from, to := name(e.Args[2]), name(e.Args[3])
					if !ok || from == "" || to == "" {
						c.Undecided("fsm", t.Owner, "a transition that is not constant: "+c.P.ShowEvent(e))
						continue
					}
					if t.Trans[ev] == nil {
						t.Trans[ev] = map[string]string{}
					}
					if t.Trans[ev][from] == to {
						continue // a duplicate is dropped
					}
					t.Trans[ev][from] = to
					t.Adds = append(t.Adds, [3]string{ev, from, to})
					hs, _ := Elems(e.Heap, e.Args[4])
					t.Hand[ev+"|"+from] = hs
				}
			}
			if len(t.Adds) > 0 {
				c.fsms[t.Owner] = t
				break
			}
		}
	}
	return c.fsms
}

func (t *fsmTable) events() []string {
	var r []string
	for e := range t.Trans {
		r = append(r, e)
	}
	sort.Strings(r)
	return r
}

// fsmCall interprets a call on the machine when the analysis fixed its state.
func (x *Exec) fsmCall(st *State, f *Frame, instr ssa.CallInstruction, d *deferred, done func(*Term) bool) (bool, bool) {
	fn := d.fn
	et := types.Universe.Lookup("error").Type()
	ev := func(res *Term) bool {
		return x.emit(st, &Event{Kind: EvCall, Op: shortFn(fn), Recv: first(d.args), Args: d.args, Res: res, Fn: fn, Pos: instr.Pos()})
	}
	switch fn.Name() {
	case "InStates":
		el, ok := Elems(st.heap, d.args[1])
		if !ok {
			return false, false
		}
		in := false
		for _, e := range el {
			s, ok := e.constStr()
			if !ok {
				return false, false
			}
			if s == st.fsm {
				in = true
			}
		}
		return true, done(boolT(in))
	case "State":
		return true, done(constT(constant.MakeString(st.fsm), types.Typ[types.String]))
	case "EmitEvent":
		s, ok := d.args[1].constStr()
		if !ok {
			return false, false
		}
		to, ok := "", false
		if !st.fsmClosed {
			to, ok = x.FSM.Trans[s][st.fsm]
		}
		if !ok {
			r := &Term{K: KPure, Op: "errors.New", T: et, ID: x.id()}
			if !ev(r) {
				return true, x.cut(st, "iterate")
			}
			return true, done(r)
		}
		if !ev(nilT(et)) {
			return true, x.cut(st, "iterate")
		}
		hs := x.FSM.Hand[s+"|"+st.fsm]
		st.fsm = to
		res := done(nilT(et))
		for _, h := range hs {
			if h.K != KClosure && h.K != KFunc {
				x.emit(st, &Event{Kind: EvDyn, Recv: h, Pos: instr.Pos()})
				continue
			}
			hf := h.Obj.(*ssa.Function)
			base := first(d.args)
			for base != nil && (base.K == KLoad || base.K == KFieldA) {
				base = base.A[0]
			}
			var bind []*Term
			for _, b := range h.A {
				if b.K == KAlloc && base != nil {
					b = &Term{K: KParam, Op: base.Op, T: b.T, ID: base.ID}
				}
				bind = append(bind, b)
			}
			if len(hf.Blocks) == 0 {
				continue
			}
			g := x.push(st, hf, nil, bind, nil, false)
			g.isDeferC = true
			x.enter(st, hf, nil)
		}
		return true, res
	case "Close":
		st.fsmClosed = true
		return false, false
	case "SetState":
		if s, ok := d.args[1].constStr(); ok {
			st.fsm = s
		}
	}
	return false, false
}

// hasFSM: the type holds a state machine, itself or in an embedded structure
func hasFSM(n types.Type) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if m, ok := deref(f.Type()).(*types.Named); ok {
			if m.Obj().Name() == "FSM" && m.Obj().Pkg() != nil && strings.HasSuffix(m.Obj().Pkg().Path(), "/yafsm") {
				return true
			}
			if f.Embedded() && hasFSM(m) {
				return true
			}
		}
	}
	return false
}
