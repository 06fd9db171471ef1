package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind uint8

const (
	EvLock EvKind = iota // Op: Lock RLock Unlock RUnlock TryLock
	EvSend
	EvRecv // Val: ok
	EvClose
	EvDefault // a select fell through to default
	EvCall    // opaque call, Op = callee
	EvDyn     // call of an unknown function value, Recv = the value
	EvGo
	EvGoEnd
	EvStore // store to memory that is not local
	EvMapSet
	EvMapGet
	EvMapDel
	EvMapRange
	EvAssume
	EvOnce
	EvPut   // binary.BigEndian.Put*
	EvCopy  // builtin copy
	EvIndex // bounds obligation: Recv[Args0] or Recv[Args0:Args1]
	EvSub   // unsigned subtraction Args0-Args1
	EvNil   // dereference of nil
	EvEnter // virtual inlining of Fn
	EvLeave
	EvSelBlock // select{} or select on nil channels only
	EvRet      // return of the root function
	EvLoad     // load of a mutable field (only when traceLoads)
	EvLoop     // a loop is entered
)

var evNames = map[EvKind]string{EvLock: "lock", EvSend: "send", EvRecv: "recv", EvClose: "close", EvDefault: "default", EvCall: "call", EvDyn: "dyncall", EvGo: "go", EvGoEnd: "goend", EvStore: "store", EvMapSet: "mapset", EvMapGet: "mapget", EvMapDel: "mapdel", EvMapRange: "maprange", EvAssume: "assume", EvOnce: "once", EvPut: "put", EvCopy: "copy", EvIndex: "index", EvSub: "sub", EvNil: "nilderef", EvEnter: "enter", EvLeave: "leave", EvSelBlock: "selblock", EvRet: "ret", EvLoad: "load", EvLoop: "loop"}

type Event struct {
	Kind     EvKind
	Op       string
	Recv     *Term
	Args     []*Term
	Res      *Term
	Fn       *ssa.Function // callee / go target
	In       *ssa.Function // function the event is in
	Pos      token.Pos
	Gid      int
	Val      bool
	InSelect bool
	Blocking bool
	Alts     []*Event // other cases of the select
	Cond     *Term
	Heap     *Heap
	Depth    int
	prev     *Event
	n        int
	Facts    map[string]bool
	Blk      *ssa.BasicBlock // header of the loop entered
	Meth     *types.Func     // interface method called
}

type cell struct {
	addr, val *Term
}

type Heap struct {
	m      map[string]cell
	shared bool
}

func (h *Heap) clone() *Heap {
	n := &Heap{m: make(map[string]cell, len(h.m)+4)}
	for k, v := range h.m {
		n.m[k] = v
	}
	return n
}

type deferred struct {
	fn    *ssa.Function
	bind  []*Term
	args  []*Term
	instr ssa.CallInstruction
	call  *ssa.CallCommon
	recv  *Term
}

type Frame struct {
	fn       *ssa.Function
	block    *ssa.BasicBlock
	pc       int
	prev     *ssa.BasicBlock
	env      map[ssa.Value]*Term
	free     []*Term
	defers   []*deferred
	ret      ssa.Value // where the result goes in the caller, nil if none
	isGo     bool
	gid      int // gid of this frame
	visits   map[*ssa.BasicBlock]int
	second   map[*ssa.BasicBlock]bool
	inDefer  bool
	retVals  []*Term
	isDeferC bool
}

type State struct {
	heap      *Heap
	facts     map[string]bool
	eqc       map[string]constant.Value
	shared    bool
	epoch     int
	last      *Event
	frames    []*Frame
	gid       int
	ngid      int
	steps     int
	pbump     int
	fsm       string // state of the machine, when the analysis fixes it
	fsmClosed bool
	recvs     int
	filled    map[string]bool // fresh slices whose contents an opaque operation may have set
}

type Outcome struct {
	Kind     string          // return panic iterate block
	Inner    bool            // ends in an iteration of a loop within another loop: other paths go on from there
	CutBlk   *ssa.BasicBlock // loop header the path arrived at again, if it ends there
	CutDepth int
	Rets     []*Term
	Events   []*Event
	Heap     *Heap
	State    *State
}

type Exec struct {
	OneStep  bool // a path ends where the task waits for the second time
	stepCut  bool
	P        *Prog
	InlineGo bool
	MaxPaths int
	MaxDepth int
	NoInline func(fn *ssa.Function) bool
	// OnRecv lists alternative values for a value received from ch
	OnRecv      func(ch *Term, t types.Type) []*Term
	TraceLoads  bool
	NoBoundary  bool
	InlineMerge bool
	Unroll      int                         // loops whose condition is known are unrolled up to this often
	UnrollFn    func(fn *ssa.Function) bool // where to unroll, nil for everywhere
	InitHeap    *Heap
	FSM         *fsmTable
	FSMState    string
	cutAt       *ssa.BasicBlock
	RunOnce     bool // only explore Once.Do as the first call
	ids         int
	devirt      map[string]types.Type
	loop        map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	work        []*State
	out         []*Outcome
	err         error
	Steps       int
	NPaths      int
	FnSeen      map[*ssa.Function]bool
}

func NewExec(p *Prog) *Exec {
	x := &Exec{P: p, InlineGo: true, MaxPaths: 60000, MaxDepth: 24, FnSeen: map[*ssa.Function]bool{}, devirt: map[string]types.Type{}}
	if n := p.Named("packet", "packetFactory"); n != nil {
		x.devirt[p.Mod+"/packet.PacketFactory"] = types.NewPointer(n)
	}
	if n := p.Named("pkg/id", "IDCounter"); n != nil {
		_ = n // id factories stay opaque
	}
	return x
}

func (x *Exec) id() int { x.ids++; return x.ids }

func (x *Exec) fail(format string, a ...interface{}) {
	if x.err == nil {
		x.err = fmt.Errorf(format, a...)
	}
}

func (x *Exec) Param(name string, t types.Type) *Term { return &Term{K: KParam, Op: name, T: t} }

// Params builds symbolic arguments for fn.
func (x *Exec) Params(fn *ssa.Function) []*Term {
	var r []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		if i == 0 && fn.Signature.Recv() != nil {
			n = "recv"
		}
		r = append(r, x.Param(n, p.Type()))
	}
	return r
}

// Run explores fn from its entry with the given arguments and returns every abstract path.
func (x *Exec) Run(fn *ssa.Function, args []*Term, free []*Term) ([]*Outcome, error) {
	x.out, x.work, x.err = nil, nil, nil
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("no body for %v", fn)
	}
	st := &State{filled: map[string]bool{}, heap: &Heap{m: map[string]cell{}}, facts: map[string]bool{}, eqc: map[string]constant.Value{}}
	st.fsm = x.FSMState
	if x.InitHeap != nil {
		st.heap = x.InitHeap.clone()
	}
	x.push(st, fn, args, free, nil, false)
	x.work = append(x.work, st)
	for len(x.work) > 0 && x.err == nil {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.path(s)
		if len(x.out) > x.MaxPaths {
			x.fail("more than %d paths in %s", x.MaxPaths, fn)
		}
	}
	x.NPaths += len(x.out)
	return x.out, x.err
}

func (x *Exec) push(st *State, fn *ssa.Function, args, free []*Term, ret ssa.Value, isGo bool) *Frame {
	x.FnSeen[fn] = true
	f := &Frame{fn: fn, block: fn.Blocks[0], env: make(map[ssa.Value]*Term, 32), free: free, ret: ret, isGo: isGo, visits: map[*ssa.BasicBlock]int{}, second: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = x.Param(p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			f.env[fv] = free[i]
		} else {
			f.env[fv] = x.Param("free:"+fv.Name(), fv.Type())
		}
	}
	if isGo {
		st.ngid++
		f.gid = st.ngid
		st.gid = f.gid
	} else {
		f.gid = st.gid
	}
	st.frames = append(st.frames, f)
	return f
}

func (st *State) clone() *State {
	n := *st
	st.heap.shared = true
	n.facts = make(map[string]bool, len(st.facts)+2)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.eqc = make(map[string]constant.Value, len(st.eqc))
	for k, v := range st.eqc {
		n.eqc[k] = v
	}
	n.filled = make(map[string]bool, len(st.filled))
	for k := range st.filled {
		n.filled[k] = true
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.second = make(map[*ssa.BasicBlock]bool, len(f.second))
		for k, v := range f.second {
			g.second[k] = v
		}
		n.frames[i] = &g
	}
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) setHeap(addr, val *Term) {
	if st.heap.shared {
		st.heap = st.heap.clone()
	}
	st.heap.m[addr.Key()] = cell{addr, val}
}

// emit appends an event; returns false if the path must be cut (second loop iteration).
func (x *Exec) emit(st *State, e *Event) bool {
	f := st.top()
	if e.Kind != EvAssume && e.Kind != EvEnter && e.Kind != EvLeave && e.Kind != EvIndex && e.Kind != EvSub && e.Kind != EvLoad && e.Kind != EvLoop {
		for _, fr := range st.frames {
			for h := range fr.second {
				if fr != f || fr.block != h {
					return false
				}
			}
		}
	}
	if x.OneStep && e.Kind == EvRecv && e.Blocking && st.gid == 0 {
		if st.recvs > 0 {
			x.stepCut = true
			return false
		}
		st.recvs++
	}
	if e.Kind == EvRecv && st.gid == 0 && e.Recv != nil && e.Recv.K == KPure && e.Recv.Op == "get:Done" && len(e.Recv.A) > 0 {
		st.facts["done:"+e.Recv.A[0].Key()] = true
	}
	e.In = f.fn
	e.Gid = st.gid
	e.Depth = len(st.frames)
	e.prev = st.last
	if st.last != nil {
		e.n = st.last.n + 1
	}
	switch e.Kind {
	case EvCall, EvDyn, EvCopy, EvPut, EvGo:
		for _, a := range e.Args {
			b := strip(a)
			for b != nil && b.K == KSlice {
				b = b.A[0]
			}
			if b == nil {
				continue
			}
			if b.K == KMake {
				st.filled[b.Key()] = true
			}
			if b.K == KAlloc {
				_, isArr := deref(b.T).Underlying().(*types.Array)
				writes := e.Fn != nil && e.Fn.Pkg != nil && (e.Fn.Pkg.Pkg.Path() == "encoding/json" && e.Fn.Name() == "Unmarshal" || e.Fn.Pkg.Pkg.Path() == "io")
				if isArr && a.K == KSlice && (writes || e.Kind != EvCall) || writes {
					st.filled[b.Key()] = true
					if e.Kind == EvCall {
						x.forget(st, b)
					}
				}
			}
		}
	}
	switch e.Kind {
	case EvSend, EvCall, EvMapSet, EvDyn, EvGo, EvRet, EvPut, EvCopy, EvStore, EvIndex:
		st.heap.shared = true
		e.Heap = st.heap
	}
	st.last = e
	return true
}

func (x *Exec) finish(st *State, kind string, rets []*Term) {
	var evs []*Event
	for e := st.last; e != nil; e = e.prev {
		evs = append(evs, e)
	}
	for i, j := 0, len(evs)-1; i < j; i, j = i+1, j-1 {
		evs[i], evs[j] = evs[j], evs[i]
	}
	st.heap.shared = true
	x.out = append(x.out, &Outcome{Kind: kind, Rets: rets, Events: evs, Heap: st.heap, State: st})
}

// cut ends the current path (or the current goroutine body) with kind.
func (x *Exec) cut(st *State, kind string) bool {
	cb, cd := x.cutAt, len(st.frames)
	inner := kind == "iterate" && !x.stepCut && x.cutInner(st)
	if kind == "iterate" && !x.stepCut && cb == nil {
	find:
		for i, fr := range st.frames {
			for h := range fr.second {
				if i != len(st.frames)-1 || fr.block != h {
					cb, cd = h, i+1
					break find
				}
			}
		}
	}
	x.cutAt, x.stepCut = nil, false
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].isGo {
			// the spawned task ends here, its parent goes on
			st.frames = st.frames[:i]
			st.gid = st.top().gid
			ev := &Event{Kind: EvGoEnd, Op: kind, In: st.top().fn, Gid: st.gid, prev: st.last}
			if st.last != nil {
				ev.n = st.last.n + 1
			}
			st.last = ev
			return true
		}
	}
	x.finish(st, kind, nil)
	o := x.out[len(x.out)-1]
	o.Inner, o.CutBlk, o.CutDepth = inner, cb, cd
	return false
}

// cutInner: the iteration that ends the path belongs to a loop inside another loop that is in progress
func (x *Exec) cutInner(st *State) bool {
	idx, h := len(st.frames)-1, x.cutAt
	if h == nil {
	find:
		for i, fr := range st.frames {
			for b := range fr.second {
				if i != len(st.frames)-1 || fr.block != b {
					idx, h = i, b
					break find
				}
			}
		}
	}
	base := 0
	for i := range st.frames {
		if st.frames[i].isGo {
			base = i
		}
	}
	for i := base; i <= idx; i++ {
		fr := st.frames[i]
		for b, body := range x.P.loops(fr.fn) {
			if i < idx && body[fr.block] || i == idx && h != nil && b != h && body[h] {
				return true
			}
		}
	}
	return false
}

func (x *Exec) path(st *State) {
	for x.err == nil {
		st.steps++
		x.Steps++
		if st.steps > 60000 {
			x.fail("path too long in %s", st.frames[0].fn)
			return
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			x.fail("fell off block in %s", f.fn)
			return
		}
		in := f.block.Instrs[f.pc]
		if !x.step(st, f, in) {
			return
		}
	}
}

func (x *Exec) unroll(fn *ssa.Function) int {
	if x.UnrollFn != nil && !x.UnrollFn(fn) {
		return 0
	}
	return x.Unroll
}

// jump moves to block b; returns false when the path ended.
func (x *Exec) jump(st *State, f *Frame, b *ssa.BasicBlock) bool {
	from := f.block
	loops := x.P.loops(f.fn)
	// leaving loops clears their second-iteration mode
	for h := range f.second {
		if !loops[h][b] {
			delete(f.second, h)
			delete(f.visits, h)
		}
	}
	havoc := false
	if body, ok := loops[b]; ok {
		if body[from] && f.visits[b] < x.unroll(f.fn) { // back edge, unrolled
			f.visits[b]++
		} else if body[from] { // back edge
			f.visits[b]++
			if f.visits[b] >= 2+x.unroll(f.fn) || f.second[b] {
				x.cutAt = b
				return x.cut(st, "iterate")
			}
			exits := false
			for _, s := range b.Succs {
				if !body[s] {
					exits = true
				}
			}
			if !exits && !x.condExit(b, body) {
				x.cutAt = b
				return x.cut(st, "iterate")
			}
			f.second[b] = true
			havoc = true
		} else {
			f.visits[b] = 0
			delete(f.second, b)
			x.emit(st, &Event{Kind: EvLoop, Blk: b, Pos: b.Instrs[0].Pos()})
		}
	}
	// evaluate phis simultaneously
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var alts []map[ssa.Value]*Term
	vals := map[ssa.Value]*Term{}
	isHeader := loops[b] != nil
	var varying []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if havoc {
			vals[ph] = x.phiBack(st, f, ph, idx, loops[b])
		} else {
			vals[ph] = x.val(st, f, ph.Edges[idx])
		}
		if isHeader && !havoc && ph.Comment != "rangeindex" {
			for i, e := range ph.Edges {
				if i != idx && e != ph.Edges[idx] && e != ssa.Value(ph) {
					varying = append(varying, ph)
					break
				}
			}
		}
	}
	if len(varying) > 0 && x.unroll(f.fn) == 0 {
		// an arbitrary later iteration
		alt := map[ssa.Value]*Term{}
		for k, v := range vals {
			alt[k] = v
		}
		for _, ph := range varying {
			var inv *Term
			for i, e := range ph.Edges {
				if i == idx || e == ssa.Value(ph) {
					continue
				}
				if invariantIn(e, loops[b]) {
					inv = x.val(st, f, e)
				}
			}
			if inv != nil {
				alt[ph] = inv
			} else {
				alt[ph] = &Term{K: KHavoc, Op: "phi:" + ph.Name() + ":" + ph.Comment, T: ph.Type(), ID: x.id()}
			}
		}
		alts = append(alts, alt)
	}
	for _, alt := range alts {
		c := st.clone()
		g := c.top()
		for k, v := range alt {
			g.env[k] = v
		}
		g.prev = from
		g.block = b
		g.pc = nphis(b)
		x.work = append(x.work, c)
	}
	for k, v := range vals {
		f.env[k] = v
	}
	f.prev = from
	f.block = b
	f.pc = nphis(b)
	return true
}

// condExit: a header whose condition spans several blocks (&&, ||) can still be left without running the body.
func (x *Exec) condExit(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		pure := true
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.Store, *ssa.MapUpdate, *ssa.Call:
				pure = false
			}
		}
		if !pure {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] {
				return true
			}
		}
	}
	return false
}

func (x *Exec) phiBack(st *State, f *Frame, ph *ssa.Phi, idx int, body map[*ssa.BasicBlock]bool) *Term {
	e := ph.Edges[idx]
	if e == ssa.Value(ph) {
		return f.env[ph]
	}
	v := x.val(st, f, e)
	// keep values that do not depend on the iteration count, havoc counters
	if v.K == KBin || v.K == KConst && ph.Comment == "rangeindex" || v.K == KHavoc {
		return &Term{K: KHavoc, Op: "phi:" + ph.Name() + ":" + ph.Comment, T: ph.Type(), ID: x.id()}
	}
	return v
}

func invariantIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		return !body[v.Block()]
	}
	return false
}

func nphis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (x *Exec) val(st *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nilT(v.Type())
		}
		return constT(v.Value, v.Type())
	case *ssa.Function:
		return &Term{K: KFunc, Obj: v, T: v.Type()}
	case *ssa.Global:
		return &Term{K: KGlobal, Op: v.Pkg.Pkg.Name() + "." + v.Name(), Obj: v, T: v.Type()}
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	x.fail("no value for %s in %s", v.Name(), f.fn)
	return &Term{K: KHavoc, Op: "?", ID: x.id(), T: v.Type()}
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constT(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return constT(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return constT(constant.MakeInt64(0), t)
		}
	}
	return nilT(t)
}

func rootAddr(a *Term) *Term {
	for a != nil && (a.K == KFieldA || a.K == KElemA || a.K == KSlice) {
		a = a.A[0]
	}
	return a
}

func (x *Exec) structAt(st *State, addr *Term) *Term {
	if c, ok := st.heap.m[addr.Key()]; ok {
		return c.val
	}
	if addr.K == KFieldA {
		if s := x.structAt(st, addr.A[0]); s != nil {
			return x.fieldOfVal(st, s, addr.Obj.(*types.Var))
		}
	}
	return nil
}

func (x *Exec) fieldOfVal(st *State, s *Term, v *types.Var) *Term {
	if s.K == KSnap {
		return x.load(st, &Term{K: KFieldA, A: []*Term{s.A[0]}, Obj: v, T: types.NewPointer(v.Type())})
	}
	if s.isNilConst() {
		return zero(v.Type())
	}
	return &Term{K: KField, A: []*Term{s}, Obj: v, T: v.Type()}
}

func (x *Exec) load(st *State, addr *Term) *Term {
	if c, ok := st.heap.m[addr.Key()]; ok {
		return c.val
	}
	et := deref(addr.T)
	if addr.K == KFieldA {
		if s := x.structAt(st, addr.A[0]); s != nil {
			return x.fieldOfVal(st, s, addr.Obj.(*types.Var))
		}
	}
	_, isStruct := et.Underlying().(*types.Struct)
	_, isArr := et.Underlying().(*types.Array)
	if r := rootAddr(addr); r != nil && r.K == KAlloc {
		if isStruct || isArr {
			return &Term{K: KSnap, A: []*Term{addr}, T: et}
		}
		// element of a fresh array with unknown index stays unknown
		if addr.K == KElemA {
			if _, ok := addr.A[1].constInt(); !ok {
				return &Term{K: KLoad, A: []*Term{addr}, T: et}
			}
		}
		if st.filled[r.Key()] {
			return &Term{K: KLoad, A: []*Term{addr}, T: et}
		}
		return zero(et)
	}
	if addr.K == KElemA && addr.A[0].K == KMake && !isStruct && !isArr {
		if _, ok := addr.A[1].constInt(); ok && !st.filled[addr.A[0].Key()] {
			return zero(et)
		}
	}
	ep := 0
	if addr.K == KFieldA && x.P.mutable[addr.Obj.(*types.Var)] {
		ep = st.epoch
	}
	if isStruct {
		return &Term{K: KSnap, A: []*Term{addr}, T: et, ID: ep}
	}
	return &Term{K: KLoad, A: []*Term{addr}, T: et, ID: ep}
}

func (x *Exec) store(st *State, addr, val *Term) {
	if val.K == KSnap {
		src := val.A[0].Key()
		type kv struct{ a, v *Term }
		var cp []kv
		for _, c := range st.heap.m {
			if c.addr.K == KFieldA && hasBase(c.addr, src) {
				cp = append(cp, kv{rebase(c.addr, src, addr), c.val})
			}
		}
		// forget what dst held
		if st.heap.shared {
			st.heap = st.heap.clone()
		}
		for k, c := range st.heap.m {
			if c.addr.K == KFieldA && hasBase(c.addr, addr.Key()) {
				delete(st.heap.m, k)
			}
		}
		for _, e := range cp {
			st.setHeap(e.a, e.v)
		}
		if rootAddr(val.A[0]).K != KAlloc {
			st.setHeap(addr, val)
		} else {
			delete(st.heap.m, addr.Key())
		}
		return
	}
	if val.isNilConst() {
		if _, ok := deref(addr.T).Underlying().(*types.Struct); ok {
			if st.heap.shared {
				st.heap = st.heap.clone()
			}
			for k, c := range st.heap.m {
				if c.addr.K == KFieldA && hasBase(c.addr, addr.Key()) {
					delete(st.heap.m, k)
				}
			}
		}
	}
	st.setHeap(addr, val)
}

// applySettings makes the fields of fresh objects unknown that some function of the given type writes.
func (x *Exec) applySettings(st *State, ft types.Type, args []*Term) {
	n, ok := ft.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !x.P.inMod[n.Obj().Pkg()] {
		return
	}
	w := x.P.settingWrites(n)
	if len(w) == 0 {
		return
	}
	seen := map[string]bool{}
	var todo []*Term
	reach := func(t *Term) {
		if t = strip(t); t != nil && t.K == KAlloc && !seen[t.Key()] {
			seen[t.Key()] = true
			todo = append(todo, t)
		}
	}
	for _, a := range args {
		reach(a)
	}
	for i := 0; i < len(todo); i++ {
		a := todo[i]
		for _, c := range st.heap.m {
			if c.addr.K == KFieldA && rootAddr(c.addr).Key() == a.Key() {
				reach(c.val)
			}
		}
		var fields func(base *Term, t types.Type)
		fields = func(base *Term, t types.Type) {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for j := 0; j < s.NumFields(); j++ {
				f := s.Field(j)
				fa := &Term{K: KFieldA, A: []*Term{base}, Obj: f, T: types.NewPointer(f.Type())}
				if w[f] {
					st.setHeap(fa, &Term{K: KLoad, A: []*Term{fa}, T: f.Type(), ID: x.id()})
				} else {
					fields(fa, f.Type())
				}
			}
		}
		fields(a, deref(a.T))
	}
}

// settingWrites: the fields that the functions of a named function type of the module write
func (p *Prog) settingWrites(n *types.Named) map[*types.Var]bool {
	if r, ok := p.setMem[n]; ok {
		return r
	}
	r := map[*types.Var]bool{}
	sig, _ := n.Underlying().(*types.Signature)
	if p.setMem == nil {
		p.setMem = map[*types.Named]map[*types.Var]bool{}
	}
	p.setMem[n] = r
	if sig == nil {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var scan func(fn *ssa.Function, depth int)
	scan = func(fn *ssa.Function, depth int) {
		if seen[fn] || depth > 3 {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
							r[s.Field(fa.Field)] = true
						}
					}
				case ssa.CallInstruction:
					if f := i.Common().StaticCallee(); f != nil && f.Pkg != nil && p.inMod[f.Pkg.Pkg] {
						scan(f, depth+1)
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg.Pkg == n.Obj().Pkg() && types.Identical(fn.Signature, sig) {
			scan(fn, 0)
		}
	}
	return r
}

// forget drops what is known about a fresh object's contents.
func (x *Exec) forget(st *State, root *Term) {
	for k, c := range st.heap.m {
		if (c.addr.K == KFieldA || c.addr.K == KElemA) && rootAddr(c.addr).Key() == root.Key() {
			if st.heap.shared {
				st.heap = st.heap.clone()
			}
			delete(st.heap.m, k)
		}
	}
}

func hasBase(a *Term, base string) bool {
	for a.K == KFieldA {
		a = a.A[0]
		if a.Key() == base {
			return true
		}
	}
	return false
}

func rebase(a *Term, base string, to *Term) *Term {
	if a.Key() == base {
		return to
	}
	return &Term{K: a.K, Obj: a.Obj, T: a.T, A: []*Term{rebase(a.A[0], base, to)}}
}

// bump forgets what is known about shared mutable memory.
func (x *Exec) bump(st *State) {
	st.epoch = x.id()
	for k, c := range st.heap.m {
		if c.addr.K == KFieldA {
			r := rootAddr(c.addr)
			if r.K != KAlloc {
				if st.heap.shared {
					st.heap = st.heap.clone()
				}
				delete(st.heap.m, k)
			}
		}
	}
}

// ---- conditions ----

func nilness(st *State, t *Term) int {
	switch t.K {
	case KConst:
		if t.Obj == nil {
			return 1
		}
		return 2
	case KIface, KAlloc, KFieldA, KElemA, KGlobal, KFunc, KClosure, KMake:
		return 2
	case KConv:
		return nilness(st, t.A[0])
	case KPure:
		if t.Op == "errors.New" || t.Op == "fmt.Errorf" {
			return 2
		}
		// a context that is done has an error
		if t.Op == "get:Err" && len(t.A) > 0 && st != nil && st.facts["done:"+t.A[0].Key()] {
			return 2
		}
	case KSlice:
		if t.A[0].K == KAlloc {
			return 2
		}
	case KLoad:
		if t.A[0].K == KGlobal {
			return 2
		}
	}
	if st != nil {
		if v, ok := st.facts["nil:"+t.Key()]; ok {
			if v {
				return 1
			}
			return 2
		}
	}
	return 0
}

func canon(t *Term) (string, bool) {
	switch t.K {
	case KNot:
		k, n := canon(t.A[0])
		return k, !n
	case KBin:
		a, b := t.A[0], t.A[1]
		switch t.Op {
		case "==", "!=":
			neg := t.Op == "!="
			if a.isNilConst() {
				a, b = b, a
			}
			if b.isNilConst() {
				return "nil:" + a.Key(), neg
			}
			// comparisons with a boolean constant
			if v, ok := b.constBool(); ok {
				k, n := canon(a)
				return k, n != (neg == v)
			}
			if v, ok := a.constBool(); ok {
				k, n := canon(b)
				return k, n != (neg == v)
			}
			ka, kb := strip(a).Key(), strip(b).Key()
			if ka > kb {
				ka, kb = kb, ka
			}
			return "eq:" + ka + "|" + kb, neg
		case "<":
			return "lt:" + a.Key() + "|" + b.Key(), false
		case ">":
			return "lt:" + b.Key() + "|" + a.Key(), false
		case ">=":
			return "lt:" + a.Key() + "|" + b.Key(), true
		case "<=":
			return "lt:" + b.Key() + "|" + a.Key(), true
		}
	}
	return t.Key(), false
}

// countT: a length, or the number of what was copied
func countT(t *Term) bool {
	return t.K == KLen || t.K == KPure && t.Op == "copy"
}

func (x *Exec) evalCond(st *State, t *Term) (bool, bool) {
	if v, ok := t.constBool(); ok {
		return v, true
	}
	if t.K == KNot {
		v, ok := x.evalCond(st, t.A[0])
		return !v, ok
	}
	k, neg := canon(t)
	if v, ok := st.facts[k]; ok {
		return v != neg, true
	}
	if t.K == KBin && (t.Op == "==" || t.Op == "!=") {
		a, b := t.A[0], t.A[1]
		ne := t.Op == "!="
		if a.isNilConst() || b.isNilConst() {
			o := a
			if a.isNilConst() {
				o = b
			}
			switch nilness(st, o) {
			case 1:
				return !ne, true
			case 2:
				return ne, true
			}
			return false, false
		}
		sa, sb := strip(a), strip(b)
		if sa.Key() == sb.Key() && sa.K != KHavoc {
			return !ne, true
		}
		ca, cb := sa.constVal(), sb.constVal()
		if ca == nil {
			ca = st.eqc[sa.Key()]
		}
		if cb == nil {
			cb = st.eqc[sb.Key()]
		}
		if ca != nil && cb != nil && ca.Kind() == cb.Kind() {
			eq := constant.Compare(ca, token.EQL, cb)
			return eq != ne, true
		}
		// distinct fresh objects / globals
		fresh := func(t *Term) bool { return t.K == KAlloc || t.K == KMake }
		// a fresh object is nowhere else unless it was put there
		elsewhere := func(t, f *Term) bool {
			return t.K == KLoad && rootAddr(t.A[0]).K != KAlloc && !st.filled["known:"+f.Key()]
		}
		if fresh(sa) && (fresh(sb) || sb.K == KParam || elsewhere(sb, sa)) || fresh(sb) && (sa.K == KParam || elsewhere(sa, sb)) {
			return ne, true
		}
		if nilness(st, sa) == 1 && nilness(st, sb) == 2 || nilness(st, sa) == 2 && nilness(st, sb) == 1 {
			return ne, true
		}
	}
	// a length and what copy returns are never negative
	if t.K == KBin {
		a, b, op := strip(t.A[0]), strip(t.A[1]), t.Op
		if countT(b) {
			a, b = b, a
			if r, ok := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]; ok {
				op = r
			}
		}
		if n, ok := b.constInt(); ok && countT(a) {
			switch {
			case n < 0 && (op == ">" || op == ">=" || op == "!="), n == 0 && op == ">=":
				return true, true
			case n < 0 && (op == "<" || op == "<=" || op == "=="), n == 0 && op == "<":
				return false, true
			}
		}
	}
	if t.K == KIs {
		if nilness(st, t.A[0]) == 1 {
			return false, true
		}
		if _, isIface := t.T.Underlying().(*types.Interface); !isIface {
			pre := "dyn:" + t.A[0].Key()
			if c, ok := st.eqc[pre]; ok && c != nil {
				return constant.StringVal(c) == t.T.String(), true
			}
		}
	}
	return false, false
}

func (x *Exec) assume(st *State, t *Term, v bool, pos token.Pos) {
	k, neg := canon(t)
	st.facts[k] = v != neg
	for t.K == KNot {
		t = t.A[0]
		v = !v
	}
	if t.K == KBin && (t.Op == "==" && v || t.Op == "!=" && !v) {
		if c := strip(t.A[1]).constVal(); c != nil {
			st.eqc[strip(t.A[0]).Key()] = c
		} else if c := strip(t.A[0]).constVal(); c != nil {
			st.eqc[strip(t.A[1]).Key()] = c
		}
	}
	if t.K == KIs && v {
		st.facts["nil:"+t.A[0].Key()] = false
		if _, isIface := t.T.Underlying().(*types.Interface); !isIface {
			st.eqc["dyn:"+t.A[0].Key()] = constant.MakeString(t.T.String())
		}
	}
	x.emit(st, &Event{Kind: EvAssume, Cond: t, Val: v, Pos: pos})
}

// ---- instructions ----

func (x *Exec) binop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if ca, cb := a.constVal(), b.constVal(); ca != nil && cb != nil && ca.Kind() != constant.Unknown && cb.Kind() != constant.Unknown {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if ca.Kind() == cb.Kind() || (ca.Kind() != constant.String && cb.Kind() != constant.String && ca.Kind() != constant.Bool) {
				return boolT(constant.Compare(ca, op, cb))
			}
		case token.SHL, token.SHR:
			if s, ok := b.constInt(); ok && s >= 0 && s < 64 {
				return constT(constant.Shift(ca, op, uint(s)), t)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if ca.Kind() == cb.Kind() && (ca.Kind() == constant.Int || ca.Kind() == constant.Float && op != token.AND && op != token.OR && op != token.XOR || ca.Kind() == constant.String && op == token.ADD) {
				return constT(constant.BinaryOp(ca, op, cb), t)
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		c := &Term{K: KBin, Op: op.String(), A: []*Term{a, b}, T: t}
		return c
	}
	return &Term{K: KBin, Op: op.String(), A: []*Term{a, b}, T: t}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func sameRepr(a, b types.Type) bool {
	ua, ub := a.Underlying(), b.Underlying()
	if types.Identical(ua, ub) {
		return true
	}
	return false
}

func (x *Exec) convert(st *State, v *Term, to types.Type) *Term {
	if c := v.constVal(); c != nil {
		if bt, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case bt.Info()&types.IsInteger != 0 && c.Kind() == constant.Int:
				return constT(c, to)
			case bt.Info()&types.IsFloat != 0:
				return constT(constant.ToFloat(c), to)
			case bt.Info()&types.IsInteger != 0 && c.Kind() == constant.Float:
				if i := constant.ToInt(c); i.Kind() == constant.Int {
					return constT(i, to)
				}
			case bt.Info()&types.IsString != 0 && c.Kind() == constant.String:
				return constT(c, to)
			}
		}
	}
	if sameRepr(v.T, to) {
		n := *v
		n.T = to
		n.key = ""
		return &n
	}
	if v.K == KConv && v.A[0].T != nil && widening(v.A[0].T, v.T) {
		if sameRepr(v.A[0].T, to) {
			n := *v.A[0]
			n.T = to
			n.key = ""
			return &n
		}
		if widening(v.A[0].T, to) {
			v = v.A[0]
		}
	}
	// []byte(string(x)) and string([]byte(x)) are identities on contents
	return &Term{K: KConv, A: []*Term{v}, T: to, Op: types.TypeString(to.Underlying(), nil)}
}

func (x *Exec) step(st *State, f *Frame, in ssa.Instruction) bool {
	next := func() bool { f.pc++; return true }
	set := func(v ssa.Value, t *Term) bool { f.env[v] = t; f.pc++; return true }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		return set(in, &Term{K: KAlloc, Op: types.TypeString(deref(in.Type()), shortQ), ID: x.id(), T: in.Type(), Pos: in.Pos()})
	case *ssa.FieldAddr:
		b := x.val(st, f, in.X)
		if nilness(st, b) == 1 {
			x.emit(st, &Event{Kind: EvNil, Recv: b, Pos: in.Pos(), Op: fieldVar(in).Name()})
			return x.cut(st, "panic")
		}
		return set(in, &Term{K: KFieldA, A: []*Term{b}, Obj: fieldVar(in), T: in.Type()})
	case *ssa.Field:
		b := x.val(st, f, in.X)
		return set(in, x.fieldOfVal(st, b, in.X.Type().Underlying().(*types.Struct).Field(in.Field)))
	case *ssa.IndexAddr:
		b, i := x.val(st, f, in.X), x.val(st, f, in.Index)
		if !x.emit(st, &Event{Kind: EvIndex, Recv: b, Args: []*Term{i}, Pos: in.Pos()}) {
			return x.cut(st, "iterate")
		}
		return set(in, elemAddr(b, i, in.Type()))
	case *ssa.Index:
		b, i := x.val(st, f, in.X), x.val(st, f, in.Index)
		x.emit(st, &Event{Kind: EvIndex, Recv: b, Args: []*Term{i}, Pos: in.Pos()})
		return set(in, &Term{K: KPure, Op: "index", A: []*Term{b, i}, T: in.Type()})
	case *ssa.UnOp:
		v := x.val(st, f, in.X)
		switch in.Op {
		case token.MUL:
			if nilness(st, v) == 1 {
				x.emit(st, &Event{Kind: EvNil, Recv: v, Pos: in.Pos()})
				return x.cut(st, "panic")
			}
			r := x.load(st, v)
			if x.TraceLoads && v.K == KFieldA {
				if root := rootAddr(v); root.K != KAlloc {
					x.emit(st, &Event{Kind: EvLoad, Recv: v, Res: r, Pos: in.Pos()})
				}
			}
			return set(in, r)
		case token.NOT:
			if b, ok := v.constBool(); ok {
				return set(in, boolT(!b))
			}
			return set(in, &Term{K: KNot, A: []*Term{v}, T: in.Type()})
		case token.SUB, token.XOR:
			return set(in, &Term{K: KNeg, Op: in.Op.String(), A: []*Term{v}, T: in.Type()})
		case token.ARROW:
			return x.recv(st, f, in, v)
		}
	case *ssa.BinOp:
		a, b := x.val(st, f, in.X), x.val(st, f, in.Y)
		if in.Op == token.SUB && isUnsigned(in.Type()) {
			x.emit(st, &Event{Kind: EvSub, Args: []*Term{a, b}, Pos: in.Pos()})
		}
		return set(in, x.binop(st, in.Op, a, b, in.Type()))
	case *ssa.ChangeType:
		v := x.val(st, f, in.X)
		n := *v
		n.T = in.Type()
		n.key = ""
		if v.K == KIface || v.K == KIs {
			return set(in, v)
		}
		return set(in, &n)
	case *ssa.Convert:
		return set(in, x.convert(st, x.val(st, f, in.X), in.Type()))
	case *ssa.MultiConvert:
		return set(in, x.convert(st, x.val(st, f, in.X), in.Type()))
	case *ssa.ChangeInterface:
		return set(in, x.val(st, f, in.X))
	case *ssa.SliceToArrayPointer:
		return set(in, x.val(st, f, in.X))
	case *ssa.MakeInterface:
		return set(in, &Term{K: KIface, A: []*Term{x.val(st, f, in.X)}, T: in.X.Type()})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		c := &Term{K: KClosure, Obj: fn, T: in.Type(), ID: x.id()}
		for _, b := range in.Bindings {
			c.A = append(c.A, x.val(st, f, b))
		}
		return set(in, c)
	case *ssa.MakeChan:
		return set(in, &Term{K: KMake, Op: "chan", ID: x.id(), T: in.Type(), A: []*Term{x.val(st, f, in.Size)}, Pos: in.Pos()})
	case *ssa.MakeMap:
		return set(in, &Term{K: KMake, Op: "map", ID: x.id(), T: in.Type()})
	case *ssa.MakeSlice:
		if n := x.val(st, f, in.Len); n.constVal() == nil {
			x.emit(st, &Event{Kind: EvIndex, Op: "make", Recv: n, Pos: in.Pos()})
		}
		return set(in, &Term{K: KMake, Op: "slice", ID: x.id(), T: in.Type(), A: []*Term{x.val(st, f, in.Len)}})
	case *ssa.Slice:
		s := &Term{K: KSlice, T: in.Type(), A: []*Term{x.val(st, f, in.X), nil, nil}}
		s.A[1], s.A[2] = nilT(nil), nilT(nil)
		if in.Low != nil {
			s.A[1] = x.val(st, f, in.Low)
		}
		if in.High != nil {
			s.A[2] = x.val(st, f, in.High)
		}
		if _, ok := in.X.Type().Underlying().(*types.Pointer); !ok {
			x.emit(st, &Event{Kind: EvIndex, Op: "slice", Recv: s.A[0], Args: []*Term{s.A[1], s.A[2]}, Pos: in.Pos()})
		}
		if b := s.A[0]; b.K == KSlice {
			// slices of slices with known starts are flattened
			lo1, ok1 := sliceLo(b)
			lo2, ok2 := sliceLo(s)
			hi2, ok3 := s.A[2].constInt()
			if ok1 && ok2 && (ok3 || s.A[2].isNilConst() && lo2 == 0 || lo1 == 0) {
				n := &Term{K: KSlice, T: s.T, A: []*Term{b.A[0], intT(lo1 + lo2), s.A[2]}}
				if s.A[2].isNilConst() {
					n.A[2] = b.A[2]
				} else if ok3 {
					n.A[2] = intT(lo1 + hi2)
				}
				if lo1+lo2 == 0 {
					n.A[1] = nilT(nil)
				}
				s = n
				return set(in, s)
			}
		}
		if in.Low == nil && in.High == nil && in.Max == nil {
			if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
				return set(in, s.A[0])
			}
		}
		return set(in, s)
	case *ssa.Store:
		a, v := x.val(st, f, in.Addr), x.val(st, f, in.Val)
		if r := rootAddr(a); r != nil && r.K != KAlloc || a.K == KElemA && rootAddr(a).K != KAlloc {
			if s := strip(v); s != nil && s.K == KAlloc {
				st.filled["known:"+s.Key()] = true
			}
			if !x.emit(st, &Event{Kind: EvStore, Recv: a, Args: []*Term{v}, Pos: in.Pos()}) {
				return x.cut(st, "iterate")
			}
		} else if a.K == KElemA || a.K == KFieldA {
			if !x.emit(st, &Event{Kind: EvStore, Op: "local", Recv: a, Args: []*Term{v}, Pos: in.Pos()}) {
				return x.cut(st, "iterate")
			}
		}
		x.store(st, a, v)
		return next()
	case *ssa.MapUpdate:
		if !x.emit(st, &Event{Kind: EvMapSet, Recv: x.val(st, f, in.Map), Args: []*Term{x.val(st, f, in.Key), x.val(st, f, in.Value)}, Pos: in.Pos()}) {
			return x.cut(st, "iterate")
		}
		return next()
	case *ssa.Lookup:
		m, k := x.val(st, f, in.X), x.val(st, f, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			x.emit(st, &Event{Kind: EvIndex, Recv: m, Args: []*Term{k}, Pos: in.Pos()})
			return set(in, &Term{K: KPure, Op: "index", A: []*Term{m, k}, T: in.Type()})
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v := &Term{K: KMapVal, A: []*Term{m, k}, T: mt.Elem(), ID: st.epoch + 1}
		if !x.emit(st, &Event{Kind: EvMapGet, Recv: m, Args: []*Term{k}, Res: v, Pos: in.Pos()}) {
			return x.cut(st, "iterate")
		}
		if in.CommaOk {
			ok := &Term{K: KPure, Op: "mapok", A: []*Term{v}, T: types.Typ[types.Bool]}
			return set(in, &Term{K: KTuple, A: []*Term{v, ok}})
		}
		return set(in, v)
	case *ssa.Range:
		m := x.val(st, f, in.X)
		if !x.emit(st, &Event{Kind: EvMapRange, Recv: m, Pos: in.Pos()}) {
			return x.cut(st, "iterate")
		}
		return set(in, &Term{K: KRange, Op: "range", A: []*Term{m}, T: in.Type(), ID: x.id()})
	case *ssa.Next:
		it := x.val(st, f, in.Iter)
		n := x.id()
		tup := in.Type().(*types.Tuple)
		mk := func(op string, t types.Type) *Term {
			return &Term{K: KRange, Op: op, A: it.A, T: t, ID: n}
		}
		c := st.clone()
		c.top().env[in] = &Term{K: KTuple, A: []*Term{boolT(false), zero0(tup.At(1).Type()), zero0(tup.At(2).Type())}}
		c.top().pc++
		x.work = append(x.work, c)
		return set(in, &Term{K: KTuple, A: []*Term{boolT(true), mk("key", tup.At(1).Type()), mk("value", tup.At(2).Type())}})
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.Extract:
		t := x.val(st, f, in.Tuple)
		if t.K == KTuple {
			return set(in, t.A[in.Index])
		}
		return set(in, &Term{K: KTupleEl, A: []*Term{t}, ID: in.Index, T: in.Type()})
	case *ssa.Phi:
		return next()
	case *ssa.Jump:
		return x.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := x.val(st, f, in.Cond)
		v, ok := x.evalCond(st, c)
		if !ok {
			o := st.clone()
			x.assume(o, c, false, in.Cond.Pos())
			if x.jump(o, o.top(), o.top().block.Succs[1]) {
				x.work = append(x.work, o)
			}
			x.assume(st, c, true, in.Cond.Pos())
			v = true
		}
		if v {
			return x.jump(st, f, f.block.Succs[0])
		}
		return x.jump(st, f, f.block.Succs[1])
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, x.val(st, f, r))
		}
		return x.ret(st, f, rs)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return next()
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return x.invoke(st, f, d.instr, nil, d, false)
	case *ssa.Defer:
		d := x.prepare(st, f, in.Common(), in)
		f.defers = append(f.defers, d)
		return next()
	case *ssa.Go:
		d := x.prepare(st, f, in.Common(), in)
		ev := &Event{Kind: EvGo, Args: d.args, Recv: d.recv, Fn: d.fn, Pos: in.Pos()}
		if d.recv == nil && d.fn != nil {
			ev.Recv = &Term{K: KClosure, Obj: d.fn, A: d.bind, T: d.fn.Type()}
		}
		if !x.emit(st, ev) {
			return x.cut(st, "iterate")
		}
		f.pc++
		if x.InlineGo && d.fn != nil && len(d.fn.Blocks) > 0 && x.inlinable(st, d.fn) {
			x.push(st, d.fn, d.args, d.bind, nil, true)
		}
		return true
	case *ssa.Call:
		d := x.prepare(st, f, in.Common(), in)
		return x.invoke(st, f, in, in, d, true)
	case *ssa.Send:
		ch, v := x.val(st, f, in.Chan), x.val(st, f, in.X)
		if !x.emit(st, &Event{Kind: EvSend, Recv: ch, Args: []*Term{v}, Pos: in.Pos(), Blocking: true}) {
			return x.cut(st, "iterate")
		}
		x.bump(st)
		return next()
	case *ssa.Select:
		return x.sel(st, f, in)
	case *ssa.Panic:
		return x.cut(st, "panic")
	}
	x.fail("unsupported instruction %T in %s", in, f.fn)
	return false
}

func zero0(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nilT(t)
	}
	return zero(t)
}

func sliceLo(t *Term) (int64, bool) {
	if t.A[1].isNilConst() {
		return 0, true
	}
	return t.A[1].constInt()
}

func shortQ(p *types.Package) string { return p.Name() }

func elemAddr(b, i *Term, t types.Type) *Term {
	// an element of a slice with a known start is an element of what was sliced
	for b.K == KSlice {
		lo, ok := int64(0), true
		if !b.A[1].isNilConst() {
			lo, ok = b.A[1].constInt()
		}
		n, isC := i.constInt()
		if !ok || lo != 0 && !isC {
			break
		}
		if lo != 0 {
			i = intT(n + lo)
		}
		b = b.A[0]
	}
	return &Term{K: KElemA, A: []*Term{b, i}, T: t}
}

func (x *Exec) recvVals(st *State, ch *Term, t types.Type) []*Term {
	if x.OnRecv != nil {
		if a := x.OnRecv(ch, t); a != nil {
			return a
		}
	}
	return []*Term{{K: KRecv, A: []*Term{ch}, T: t, ID: x.id()}}
}

func (x *Exec) recv(st *State, f *Frame, in *ssa.UnOp, ch *Term) bool {
	et := ch.T.Underlying().(*types.Chan).Elem()
	type alt struct {
		v  *Term
		ok bool
	}
	var alts []alt
	for _, v := range x.recvVals(st, ch, et) {
		alts = append(alts, alt{v, true})
	}
	alts = append(alts, alt{zero(et), false})
	for i := len(alts) - 1; i >= 0; i-- {
		a := alts[i]
		if !in.CommaOk && !a.ok && len(alts) > 1 {
			// without the ok both outcomes look alike unless the zero value matters
			if _, isS := et.Underlying().(*types.Struct); isS {
				continue
			}
			if ptr := isPtrLike(et); !ptr {
				continue
			}
			if !a.ok {
				continue
			}
		}
		s := st
		if i > 0 {
			s = st.clone()
		}
		ev := &Event{Kind: EvRecv, Recv: ch, Res: a.v, Val: a.ok, Pos: in.Pos(), Blocking: true}
		if !x.emit(s, ev) {
			if !x.cut(s, "iterate") {
				if i == 0 {
					return false
				}
				continue
			}
			if i > 0 {
				x.work = append(x.work, s)
			}
			continue
		}
		x.bump(s)
		r := a.v
		if in.CommaOk {
			r = &Term{K: KTuple, A: []*Term{a.v, boolT(a.ok)}}
		}
		s.top().env[in] = r
		s.top().pc++
		if i > 0 {
			x.work = append(x.work, s)
		}
	}
	return true
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Slice, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) sel(st *State, f *Frame, in *ssa.Select) bool {
	type cs struct {
		i  int
		v  *Term
		ok bool
		ev *Event
	}
	var cases []cs
	var evs []*Event
	for _, s := range in.States {
		ch := x.val(st, f, s.Chan)
		if s.Dir == types.SendOnly {
			evs = append(evs, &Event{Kind: EvSend, Recv: ch, Args: []*Term{x.val(st, f, s.Send)}, Pos: s.Pos, InSelect: true, Blocking: in.Blocking})
		} else {
			evs = append(evs, &Event{Kind: EvRecv, Recv: ch, Pos: s.Pos, InSelect: true, Blocking: in.Blocking})
		}
	}
	if len(evs) == 1 && in.Blocking {
		evs[0].InSelect = false
	}
	alts := func(i int) []*Event {
		var r []*Event
		for j, e := range evs {
			if j != i {
				r = append(r, e)
			}
		}
		return r
	}
	nrecv := 0
	recvIdx := map[int]int{}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvIdx[i] = nrecv
			nrecv++
		}
	}
	for i, s := range in.States {
		if nilness(st, evs[i].Recv) == 1 {
			continue
		}
		if s.Dir == types.SendOnly {
			e := *evs[i]
			e.Alts = alts(i)
			cases = append(cases, cs{i, nil, false, &e})
			continue
		}
		et := evs[i].Recv.T.Underlying().(*types.Chan).Elem()
		for _, v := range x.recvVals(st, evs[i].Recv, et) {
			e := *evs[i]
			e.Alts = alts(i)
			e.Res, e.Val = v, true
			cases = append(cases, cs{i, v, true, &e})
		}
		e := *evs[i]
		e.Alts = alts(i)
		e.Res, e.Val = zero(et), false
		cases = append(cases, cs{i, zero(et), false, &e})
	}
	if !in.Blocking {
		cases = append(cases, cs{-1, nil, false, &Event{Kind: EvDefault, Alts: alts(-1), Pos: in.Pos()}})
	}
	if len(cases) == 0 {
		x.emit(st, &Event{Kind: EvSelBlock, Pos: in.Pos()})
		return x.cut(st, "block")
	}
	tup := in.Type().(*types.Tuple)
	res := true
	for n := len(cases) - 1; n >= 0; n-- {
		c := cases[n]
		s := st
		if n > 0 {
			s = st.clone()
		}
		if !x.emit(s, c.ev) {
			goon := x.cut(s, "iterate")
			if n > 0 {
				if goon {
					x.work = append(x.work, s)
				}
			} else {
				res = goon
			}
			continue
		}
		x.bump(s)
		t := &Term{K: KTuple, A: []*Term{intT(int64(c.i)), boolT(c.ok)}}
		for j := 2; j < tup.Len(); j++ {
			t.A = append(t.A, zero(tup.At(j).Type()))
		}
		if c.v != nil {
			t.A[2+recvIdx[c.i]] = c.v
		}
		s.top().env[in] = t
		s.top().pc++
		if n > 0 {
			x.work = append(x.work, s)
		}
	}
	return res
}

func (x *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	v := x.val(st, f, in.X)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	give := func(s *State, ok bool) {
		var r *Term
		if toIface {
			r = v
		} else if v.K == KIface {
			r = v.A[0]
		} else {
			n := *v
			n.T = in.AssertedType
			n.key = ""
			r = &n
			if v.K == KParam || v.K == KRecv || v.K == KCall || v.K == KLoad || v.K == KMapVal || v.K == KTupleEl || v.K == KPure || v.K == KRange || v.K == KField {
				r = &n
			}
		}
		if !ok {
			r = zero(in.AssertedType)
		}
		if in.CommaOk {
			r = &Term{K: KTuple, A: []*Term{r, boolT(ok)}}
		}
		s.top().env[in] = r
		s.top().pc++
	}
	if v.K == KIface {
		ok := false
		if toIface {
			ok = types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.T, in.AssertedType)
		}
		if !ok && !in.CommaOk {
			x.emit(st, &Event{Kind: EvNil, Op: "typeassert", Recv: v, Pos: in.Pos()})
			return x.cut(st, "panic")
		}
		give(st, ok)
		return true
	}
	if !in.CommaOk {
		give(st, true)
		return true
	}
	c := &Term{K: KIs, A: []*Term{v}, T: in.AssertedType}
	b, known := x.evalCond(st, c)
	if known {
		give(st, b)
		return true
	}
	o := st.clone()
	x.assume(o, c, false, in.Pos())
	give(o, false)
	x.work = append(x.work, o)
	x.assume(st, c, true, in.Pos())
	give(st, true)
	return true
}

func (x *Exec) ret(st *State, f *Frame, rs []*Term) bool {
	if f.isGo {
		return x.cut(st, "return")
	}
	if len(st.frames) == 1 {
		x.emit(st, &Event{Kind: EvRet, Args: rs})
		x.finish(st, "return", rs)
		return false
	}
	x.emit(st, &Event{Kind: EvLeave, Fn: f.fn, Args: rs})
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	if f.isDeferC {
		return true // RunDefers goes on
	}
	if f.ret != nil {
		switch len(rs) {
		case 0:
		case 1:
			c.env[f.ret] = rs[0]
		default:
			c.env[f.ret] = &Term{K: KTuple, A: rs}
		}
	}
	c.pc++
	return true
}

// ---- calls ----

func (x *Exec) prepare(st *State, f *Frame, c *ssa.CallCommon, instr ssa.CallInstruction) *deferred {
	d := &deferred{call: c, instr: instr}
	for _, a := range c.Args {
		d.args = append(d.args, x.val(st, f, a))
	}
	if c.IsInvoke() {
		recv := x.val(st, f, c.Value)
		d.recv = recv
		if recv.K == KIface {
			if fn := x.P.SSA.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name()); fn != nil {
				d.fn = fn
				d.args = append([]*Term{recv.A[0]}, d.args...)
			}
		} else if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			if ct, ok := x.devirt[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; ok {
				if fn := x.P.SSA.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); fn != nil {
					d.fn = fn
					r := *recv
					r.T = ct
					r.key = ""
					d.args = append([]*Term{&r}, d.args...)
				}
			}
		}
		return d
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		d.fn = v
	case *ssa.Builtin:
	default:
		t := x.val(st, f, c.Value)
		d.recv = t
		if t.K == KFunc {
			d.fn = t.Obj.(*ssa.Function)
		} else if t.K == KClosure {
			d.fn = t.Obj.(*ssa.Function)
			d.bind = t.A
		}
	}
	return d
}

func shortFn(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		return "(" + types.TypeString(fn.Signature.Recv().Type(), shortQ) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (x *Exec) inlinable(st *State, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	// synthetic wrappers of module types have no package of their own
	if fn.Pkg != nil && !x.P.inMod[fn.Pkg.Pkg] {
		return false
	}
	if fn.Pkg == nil && fn.Synthetic == "" {
		return false
	}
	if len(st.frames) >= x.MaxDepth {
		return false
	}
	for _, f := range st.frames {
		if f.fn == fn {
			return false
		}
	}
	if fn.Name() == "String" && fn.Signature.Params().Len() == 0 {
		return false
	}
	if isMerge(fn) && !x.InlineMerge {
		return false
	}
	if !x.NoBoundary && x.boundary(st.frames[0].fn, fn) {
		return false
	}
	if x.NoInline != nil && x.NoInline(fn) {
		return false
	}
	return true
}

// layer packages: calls between them stay opaque, helpers are looked into
var layers = map[string]bool{"conn": true, "multiplexer": true, "application": true, "client": true, "server": true}

func (p *Prog) rel(fn *ssa.Function) string {
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.TrimPrefix(strings.TrimPrefix(fn.Object().Pkg().Path(), p.Mod), "/")
		}
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), p.Mod), "/")
}

// boundary: does a call of fn leave the layer the analysis started in?
func (x *Exec) boundary(root, fn *ssa.Function) bool {
	a, b := x.P.rel(root), x.P.rel(fn)
	if a != b && layers[b] {
		// option constructors only wrap their argument
		r := fn.Signature.Results()
		if r.Len() == 1 {
			if _, ok := r.At(0).Type().Underlying().(*types.Signature); ok {
				return false
			}
		}
		return true
	}
	if a != "packet" && b == "packet" && (strings.HasPrefix(fn.Name(), "Decode") || strings.HasPrefix(fn.Name(), "Encode")) {
		return true // the codec has its own properties
	}
	if a == "client" && b == "client" && strings.Contains(shortName(x.P.rootFn(root)), "Retry") && fn.Signature.Recv() == nil && x.P.dials(fn) {
		return true
	}
	return false
}

func (p *Prog) rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func shortName(fn *ssa.Function) string { return recvName(fn) + "." + fn.Name() }

// dials: fn builds an end on a connection, itself or through its callees
func (p *Prog) dials(fn *ssa.Function) bool {
	if v, ok := p.dialsMem[fn]; ok {
		return v
	}
	p.dialsMem[fn] = false
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil && !strings.Contains(shortName(p.rootFn(t)), "Retry") {
					if p.rel(t) == "conn" && strings.HasPrefix(t.Name(), "New") || p.rel(t) == p.rel(fn) && p.dials(t) {
						r = true
					}
				}
			}
		}
	}
	p.dialsMem[fn] = r
	return r
}

// isMerge: func(...*T) *T, a pure merge of option objects
func isMerge(fn *ssa.Function) bool {
	s := fn.Signature
	if !s.Variadic() || s.Params().Len() != 1 || s.Results().Len() != 1 || s.Recv() != nil {
		return false
	}
	sl, ok := s.Params().At(0).Type().(*types.Slice)
	return ok && types.Identical(sl.Elem(), s.Results().At(0).Type()) && isPtrLike(sl.Elem())
}

var purePkgs = map[string]bool{"fmt": true, "strconv": true, "errors": true, "math": true, "strings": true, "bytes": true, "log": true, "unicode": true, "reflect": true}

func isLogIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasSuffix(n.Obj().Pkg().Path(), "armorigo/log")
}

// getter: an interface method without parameters that only reads
func isGetter(m *types.Func) bool {
	s := m.Type().(*types.Signature)
	if s.Params().Len() != 0 || s.Results().Len() != 1 {
		return false
	}
	switch m.Name() {
	case "Close", "Read", "Write", "Lock", "Unlock", "Done", "Cancel":
		if m.Name() == "Done" {
			_, ch := s.Results().At(0).Type().Underlying().(*types.Chan)
			return ch
		}
		return false
	}
	if strings.HasPrefix(m.Name(), "Get") || strings.HasPrefix(m.Name(), "New") || strings.HasPrefix(m.Name(), "Accept") || strings.HasPrefix(m.Name(), "Open") || strings.HasPrefix(m.Name(), "Closed") || strings.HasPrefix(m.Name(), "List") {
		return false
	}
	return true
}

func (x *Exec) results(op string, sig *types.Signature, args []*Term, pure bool) *Term {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	k, id := KCall, x.id()
	if pure {
		k, id = KPure, 0
	}
	if n == 1 {
		return &Term{K: k, Op: op, A: args, ID: id, T: sig.Results().At(0).Type()}
	}
	c := &Term{K: k, Op: op, A: args, ID: id}
	t := &Term{K: KTuple}
	for i := 0; i < n; i++ {
		t.A = append(t.A, &Term{K: KTupleEl, A: []*Term{c}, ID: i, T: sig.Results().At(i).Type()})
	}
	return t
}

// invoke performs a prepared call. res is the value the result is bound to; advance tells whether pc moves on.
func (x *Exec) invoke(st *State, f *Frame, instr ssa.CallInstruction, res ssa.Value, d *deferred, advance bool) bool {
	c := d.call
	done := func(r *Term) bool {
		if res != nil && r != nil {
			f.env[res] = r
		}
		if advance {
			f.pc++
		}
		return true
	}
	ev := func(e *Event) bool {
		e.Pos = instr.Pos()
		return x.emit(st, e)
	}
	cutIt := func() bool { return x.cut(st, "iterate") }
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, f, instr, b, d, done)
	}
	if c.IsInvoke() && d.fn == nil {
		if nilness(st, d.recv) == 1 {
			ev(&Event{Kind: EvNil, Op: "invoke " + c.Method.Name(), Recv: d.recv})
			return x.cut(st, "panic")
		}
		if isLogIface(c.Value.Type()) {
			return done(x.results("log", c.Signature(), nil, true))
		}
		// the method belongs to the interface that declares it
		rt := c.Value.Type()
		name := "(" + types.TypeString(rt, shortQ) + ")." + c.Method.Name()
		all := append([]*Term{d.recv}, d.args...)
		if isGetter(c.Method) {
			t := x.results(name, c.Signature(), all, true)
			t.Op = "get:" + c.Method.Name()
			if _, isE := t.T.Underlying().(*types.Interface); isE || true {
				// getters of objects with setters may change over time
				t.ID = st.facts2(d.recv)
			}
			return done(t)
		}
		r := x.results(name, c.Signature(), all, false)
		if !ev(&Event{Kind: EvCall, Op: name, Recv: d.recv, Args: d.args, Res: r, Meth: c.Method}) {
			return cutIt()
		}
		if strings.HasPrefix(c.Method.Name(), "Set") {
			st.pbump = x.id()
		}
		return done(r)
	}
	if d.fn == nil {
		r := x.results("dyn", c.Signature(), append([]*Term{d.recv}, d.args...), false)
		if nilness(st, d.recv) == 1 {
			ev(&Event{Kind: EvNil, Op: "call", Recv: d.recv})
			return x.cut(st, "panic")
		}
		if !ev(&Event{Kind: EvDyn, Recv: d.recv, Args: d.args, Res: r}) {
			return cutIt()
		}
		// settings write what the functions of their type in their package write
		x.applySettings(st, c.Value.Type(), d.args)
		// unknown code may write, through its methods, what it is given as an interface
		for _, a := range d.args {
			if s := strip(a); s != nil && s.K == KAlloc && a.K == KIface {
				x.forget(st, s)
				st.filled[s.Key()] = true
			}
		}
		return done(r)
	}
	fn := d.fn
	name := shortFn(fn)
	if fn.Pkg != nil || fn.Synthetic == "" || true {
		switch {
		case fn.Name() == "Do" && recvName(fn) == "Once" && len(d.args) == 2:
			ft := d.args[1]
			var target *ssa.Function
			if ft.K == KFunc || ft.K == KClosure {
				target = ft.Obj.(*ssa.Function)
			}
			if target == nil {
				if !ev(&Event{Kind: EvOnce, Recv: d.args[0], Val: true}) {
					return cutIt()
				}
				ev(&Event{Kind: EvDyn, Recv: ft})
				return done(nil)
			}
			if !x.RunOnce {
				o := st.clone()
				if x.emit(o, &Event{Kind: EvOnce, Recv: d.args[0], Val: false, Pos: instr.Pos()}) {
					if advance {
						o.top().pc++
					}
					x.work = append(x.work, o)
				}
			}
			if !ev(&Event{Kind: EvOnce, Recv: d.args[0], Val: true, Fn: target}) {
				return cutIt()
			}
			if !x.inlinable(st, target) {
				ev(&Event{Kind: EvCall, Op: shortFn(target), Fn: target})
				return done(nil)
			}
			g := x.push(st, target, nil, ft.A, nil, false)
			g.isDeferC = !advance
			x.enter(st, target, nil)
			return true
		case isMutex(fn):
			lr := x.results(name, fn.Signature, d.args, false)
			if !ev(&Event{Kind: EvLock, Op: fn.Name(), Recv: d.args[0], Res: lr}) {
				return cutIt()
			}
			if fn.Name() == "Lock" || fn.Name() == "RLock" {
				x.bump(st)
			}
			return done(lr)
		}
	}
	if x.FSM != nil && isFSMFn(fn) {
		if handled, r := x.fsmCall(st, f, instr, d, done); handled {
			return r
		}
	}
	if x.inlinable(st, fn) {
		g := x.push(st, fn, d.args, d.bind, res, false)
		g.isDeferC = !advance
		x.enter(st, fn, d.args)
		return true
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if strings.HasSuffix(pkg, "armorigo/log") {
		return done(x.results("log", fn.Signature, nil, true))
	}
	// pure externals
	if purePkgs[pkg] || isMerge(fn) || fn.Name() == "String" || pkg == "time" && timePure[fn.Name()] || pkg == "regexp" && fn.Name() != "Compile" || pkg == "os" && fn.Name() == "IsTimeout" {
		args := d.args
		if pkg == "fmt" {
			args = x.flatten(st, args)
		}
		r := x.results(name, fn.Signature, args, true)
		if r != nil && (fn.Name() == "New" && pkg == "errors" || name == "fmt.Errorf") {
			r.ID = x.id()
		}
		return done(r)
	}
	if strings.HasPrefix(fn.Name(), "PutUint") && pkg == "encoding/binary" {
		if !ev(&Event{Kind: EvPut, Op: name, Recv: d.args[1], Args: d.args[1:]}) {
			return cutIt()
		}
		return done(nil)
	}
	if strings.HasPrefix(fn.Name(), "Uint") && pkg == "encoding/binary" {
		if !ev(&Event{Kind: EvIndex, Op: fn.Name(), Recv: d.args[1], Args: []*Term{nilT(nil)}}) {
			return cutIt()
		}
		return done(&Term{K: KPure, Op: name, A: d.args[1:], T: fn.Signature.Results().At(0).Type()})
	}
	r := x.results(name, fn.Signature, d.args, false)
	if !ev(&Event{Kind: EvCall, Op: name, Recv: first(d.args), Args: d.args, Res: r, Fn: fn}) {
		return cutIt()
	}
	if pkg == "container/list" && (fn.Name() == "PushBack" || fn.Name() == "PushFront") {
		st.facts["nil:"+r.Key()] = false // they make the element they return
	}
	return done(r)
}

func (st *State) facts2(t *Term) int { return st.pbump }

func first(a []*Term) *Term {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

var timePure = map[string]bool{"Add": true, "Sub": true, "After": true, "Before": true, "IsZero": true, "Equal": true, "Unix": true, "UnixNano": true, "Seconds": true, "Milliseconds": true, "Until": true, "Since": true}

func recvName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	if n, ok := deref(r.Type()).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func isMutex(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "sync" {
		return false
	}
	n := recvName(fn)
	return n == "Mutex" || n == "RWMutex"
}

func (x *Exec) enter(st *State, fn *ssa.Function, args []*Term) {
	x.emit(st, &Event{Kind: EvEnter, Fn: fn, Args: args})
}

func (x *Exec) flatten(st *State, args []*Term) []*Term {
	var r []*Term
	for _, a := range args {
		if l, ok := x.Elems(st.heap, a); ok {
			r = append(r, l...)
		} else {
			r = append(r, a)
		}
	}
	return r
}

// Elems lists the elements of a slice value built locally.
func (x *Exec) Elems(h *Heap, t *Term) ([]*Term, bool) {
	return Elems(h, t)
}

func Elems(h *Heap, t *Term) ([]*Term, bool) {
	switch t.K {
	case KConst:
		if t.Obj == nil {
			return nil, true
		}
	case KSlice:
		if t.A[0].K == KAlloc && t.A[1].isNilConst() && t.A[2].isNilConst() {
			arr, ok := deref(t.A[0].T).Underlying().(*types.Array)
			if !ok {
				return nil, false
			}
			var r []*Term
			for i := int64(0); i < arr.Len(); i++ {
				a := &Term{K: KElemA, A: []*Term{t.A[0], intT(i)}}
				c, ok := h.m[a.Key()]
				if !ok {
					r = append(r, zero(arr.Elem()))
					continue
				}
				r = append(r, c.val)
			}
			return r, true
		}
		if z, ok := t.A[2].constInt(); ok && z == 0 {
			return nil, true
		}
	case KMake:
		if t.Op == "slice" {
			if n, ok := t.A[0].constInt(); ok && n == 0 {
				return nil, true
			}
		}
	case KAppend:
		a, ok1 := Elems(h, t.A[0])
		b, ok2 := Elems(h, t.A[1])
		if ok1 && ok2 {
			return append(append([]*Term{}, a...), b...), true
		}
	}
	return nil, false
}

func (x *Exec) builtin(st *State, f *Frame, instr ssa.CallInstruction, b *ssa.Builtin, d *deferred, done func(*Term) bool) bool {
	a := d.args
	var rt types.Type
	if v := instr.Value(); v != nil {
		rt = v.Type()
	}
	switch b.Name() {
	case "append":
		if len(a) == 1 {
			return done(a[0])
		}
		if a[0].K == KConst && a[0].Obj == nil {
			// append(nil, xs...) copies
		}
		return done(&Term{K: KAppend, Op: "append", A: a, T: rt})
	case "len", "cap":
		if b.Name() == "len" {
			if s, ok := a[0].constStr(); ok {
				return done(intT(int64(len(s))))
			}
			if a[0].K == KMake && a[0].Op == "slice" {
				return done(x.convert(st, a[0].A[0], rt))
			}
			if a[0].isNilConst() {
				return done(intT(0))
			}
			if el, ok := Elems(st.heap, a[0]); ok {
				return done(intT(int64(len(el))))
			}
		}
		id := 0
		switch a[0].T.Underlying().(type) {
		case *types.Chan, *types.Map:
			id = st.epoch + 1
		}
		return done(&Term{K: KLen, Op: b.Name(), A: a, T: rt, ID: id})
	case "copy":
		n := &Term{K: KPure, Op: "copy", A: a, T: rt, ID: x.id()}
		if !x.emit(st, &Event{Kind: EvCopy, Recv: a[0], Args: a, Res: n, Pos: instr.Pos()}) {
			return x.cut(st, "iterate")
		}
		return done(n)
	case "close":
		if !x.emit(st, &Event{Kind: EvClose, Recv: a[0], Pos: instr.Pos()}) {
			return x.cut(st, "iterate")
		}
		return done(nil)
	case "delete":
		if !x.emit(st, &Event{Kind: EvMapDel, Recv: a[0], Args: a[1:], Pos: instr.Pos()}) {
			return x.cut(st, "iterate")
		}
		return done(nil)
	case "print", "println":
		return done(nil)
	case "panic":
		return x.cut(st, "panic")
	case "ssa:wrapnilchk":
		return done(a[0])
	case "recover":
		return done(nilT(rt))
	case "min", "max":
		return done(&Term{K: KPure, Op: b.Name(), A: a, T: rt})
	}
	x.fail("builtin %s", b.Name())
	return false
}

// ---- rendering ----

func (p *Prog) ShowEvent(e *Event) string {
	var s []string
	for _, a := range e.Args {
		s = append(s, p.Show(a))
	}
	extra := ""
	if e.Gid > 0 {
		extra = fmt.Sprintf(" [task %d]", e.Gid)
	}
	at := p.Pos(e.Pos)
	switch e.Kind {
	case EvAssume:
		return fmt.Sprintf("assume %s = %v%s (%s)", p.Show(e.Cond), e.Val, extra, at)
	case EvRecv:
		return fmt.Sprintf("recv %s ok=%v%s (%s)", p.Show(e.Recv), e.Val, extra, at)
	case EvCall:
		return fmt.Sprintf("call %s(%s)%s (%s)", e.Op, strings.Join(s, ", "), extra, at)
	case EvOnce:
		return fmt.Sprintf("once %s first=%v%s", p.Show(e.Recv), e.Val, extra)
	case EvLoop:
		return ""
	case EvEnter, EvLeave:
		return fmt.Sprintf("%s %s", evNames[e.Kind], e.Fn.Name())
	}
	return fmt.Sprintf("%s %s %s(%s)%s (%s)", evNames[e.Kind], e.Op, p.Show(e.Recv), strings.Join(s, ", "), extra, at)
}

func (p *Prog) ShowTrace(o *Outcome) string {
	var b strings.Builder
	for _, e := range o.Events {
		if e.Kind == EvEnter || e.Kind == EvLeave || e.Kind == EvIndex || e.Kind == EvLoop {
			continue
		}
		b.WriteString("  " + p.ShowEvent(e) + "\n")
	}
	b.WriteString("  => " + o.Kind)
	for _, r := range o.Rets {
		b.WriteString(" " + p.Show(r))
	}
	b.WriteString("\n")
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
