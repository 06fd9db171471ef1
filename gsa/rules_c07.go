package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// access is one read or write of a field of a shared object.
type access struct {
	label string
	write bool
	base  *Term
	e     *Event
	h     []hold
	root  *Root
	o     *Outcome
}

// accesses walks every path of every entry and reports the field accesses with the locks held.
func (c *Ctx) accesses(f func(a *access)) {
	moved := c.reassigned()
	for _, r := range c.Roots() {
		for _, o := range c.RunRoot(r, RunOpts{Key: "loads", Loads: true}) {
			c.lockWalk(o, func(e *Event, h []hold) {
				put := func(t *Term, write bool) {
					v, b := fieldOf(t)
					if v == nil {
						return
					}
					if rt := rootAddr(b); rt != nil && rt.K == KAlloc {
						return
					}
					f(&access{label: c.P.Label(v), write: write, base: rootObj(b), e: e, h: h, root: r, o: o})
				}
				switch e.Kind {
				case EvLoad:
					// of what never changes, the access to the contents matters
					if e.Res != nil && e.Res.T != nil {
						switch t := e.Res.T.Underlying().(type) {
						case *types.Map, *types.Chan:
							return
						case *types.Pointer:
							if n, ok := t.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "container/list" {
								if v, _ := fieldOf(e.Recv); v != nil && !moved[c.P.Label(v)] {
									return
								}
							}
						}
					}
					put(e.Recv, false)
				case EvStore:
					a := e.Recv
					for a != nil && a.K == KElemA {
						a = a.A[0]
					}
					put(a, true)
				case EvMapGet, EvMapRange:
					put(e.Recv, false)
				case EvMapSet, EvMapDel:
					put(e.Recv, true)
				case EvCall:
					if e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "container/list" {
						n := e.Fn.Name()
						put(e.Recv, n != "Front" && n != "Back" && n != "Len" && n != "Next" && n != "Prev")
					}
				}
			})
		}
	}
}

// reassigned lists the fields of lists that are stored to after their object was made
func (c *Ctx) reassigned() map[string]bool {
	r := map[string]bool{}
	for _, root := range c.Roots() {
		for _, o := range c.RunRoot(root, RunOpts{Key: "loads", Loads: true}) {
			for _, e := range o.Events {
				if e.Kind != EvStore {
					continue
				}
				v, b := fieldOf(e.Recv)
				if v == nil {
					continue
				}
				if rt := rootAddr(b); rt == nil || rt.K != KAlloc {
					r[c.P.Label(v)] = true
				}
			}
		}
	}
	return r
}

// guards: field -> lock of the same object
var guards = map[string]string{
	"application.stream.localRPCs":                 "application.stream.rpcMtx",
	"application.stream.remoteRPCs":                "application.stream.rpcMtx",
	"application.stream.rpcCancels":                "application.stream.rpcMtx",
	"application.stream.hijackRPC":                 "application.stream.rpcMtx",
	"application.stream.cache":                     "application.stream.cacheMtx",
	"application.stream.dlRead":                    "application.stream.dlMtx",
	"application.stream.dlWrite":                   "application.stream.dlMtx",
	"application.stream.dlReadSync":                "application.stream.dlMtx",
	"application.stream.dlWriteSync":               "application.stream.dlMtx",
	"application.stream.dlReadChList":              "application.stream.dlMtx",
	"application.stream.dlWriteChList":             "application.stream.dlMtx",
	"application.stream.streamOK":                  "application.stream.mtx",
	"multiplexer.dialogueMgr.mgrOK":                "multiplexer.dialogueMgr.mtx",
	"multiplexer.dialogueMgr.dialogues":            "multiplexer.dialogueMgr.mtx",
	"multiplexer.dialogueMgr.negotiatingDialogues": "multiplexer.dialogueMgr.mtx",
	"multiplexer.dialogue.dialogueOK":              "multiplexer.dialogue.mtx",
	"conn.baseConn.connOK":                         "conn.baseConn.connMtx",
	"client.RetryEnd.rpcs":                         "client.RetryEnd.rpcMtx",
	"client.RetryEnd.hijackRPC":                    "client.RetryEnd.rpcMtx",
	"client.RetryEnd.hijackRPCOpts":                "client.RetryEnd.rpcMtx",
	"id.IDCounter.ids":                             "id.IDCounter.mtx",
}

func c07Guarded(c *Ctx) {
	dump := map[string]map[string]bool{}
	c.accesses(func(a *access) {
		if os.Getenv("GSA_DUMP") != "" {
			k := fmt.Sprint(a.write, " ", holdStr(a.h), " ", c.P.Pos(a.e.Pos))
			if dump[a.label] == nil {
				dump[a.label] = map[string]bool{}
			}
			dump[a.label][k] = true
		}
		g, ok := guards[a.label]
		if !ok {
			return
		}
		held := false
		for _, x := range a.h {
			if x.label == g && x.owner == a.base.Key() && (x.mode == "L" || !a.write) {
				held = true
			}
		}
		kind := "read"
		if a.write {
			kind = "write"
		}
		c.Check(held, "guarded-"+kind, a.label+"/"+a.root.Name, func() string {
			return fmt.Sprintf("%s of %s without %s (held: %s): %s\n%s", kind, a.label, g, holdStr(a.h), c.P.ShowEvent(a.e), c.P.ShowTrace(a.o))
		})
	})
	if len(dump) > 0 {
		var ls []string
		for l := range dump {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			w := false
			for k := range dump[l] {
				w = w || strings.HasPrefix(k, "true")
			}
			if !w {
				continue
			}
			fmt.Println("FIELD", l)
			for _, k := range sortedKeys(dump[l]) {
				fmt.Println("    ", k)
			}
		}
	}
	c.Min("guarded-read", 20)
	c.Min("guarded-write", 12)
}

// atomicTarget names what an atomic operation works on.
func (c *Ctx) atomicTarget(a *Term) string {
	a = strip(a)
	if a == nil {
		return ""
	}
	if a.K == KFieldA {
		return c.P.chanLabel(a)
	}
	if a.K == KLoad {
		if v, _ := fieldOf(a); v != nil {
			return "*" + c.P.Label(v)
		}
	}
	return ""
}

func c07Atomic(c *Ctx) {
	at := map[string]bool{}
	for _, r := range c.Roots() {
		for _, o := range c.RunRoot(r, RunOpts{Key: "loads", Loads: true}) {
			for _, e := range o.Events {
				if e.Kind == EvCall && e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "sync/atomic" && e.Fn.Signature.Recv() == nil && len(e.Args) > 0 {
					if t := c.atomicTarget(e.Args[0]); t != "" {
						at[t] = true
						c.Check(true, "atomic", t+"/"+r.Name, nil)
					}
				}
			}
		}
	}
	for _, r := range c.Roots() {
		for _, o := range c.RunRoot(r, RunOpts{Key: "loads", Loads: true}) {
			c.lockWalk(o, func(e *Event, h []hold) {
				if e.Kind != EvLoad && e.Kind != EvStore {
					return
				}
				t := c.atomicTarget(e.Recv)
				if !at[t] {
					return
				}
				_, b := fieldOf(e.Recv)
				if rt := rootAddr(b); rt != nil && rt.K == KAlloc {
					return
				}
				held := false
				for _, x := range h {
					if b != nil && x.owner == rootObj(b).Key() && x.mode == "L" {
						held = true
					}
				}
				c.Check(held && e.Kind == EvLoad, "atomic-only", t+"/"+r.Name, func() string {
					return "plain access to atomically accessed state: " + c.P.ShowEvent(e) + "\n" + c.P.ShowTrace(o)
				})
			})
		}
	}
	c.Min("atomic", 3)
}

func init() {
	register("C07", "Every path of every entry is replayed with its locks: each access to a guarded field or map of an object that others can reach must hold the lock of that same object (exclusively to write); state accessed through sync/atomic anywhere is accessed so everywhere.",
		Rule{"guarded", "fields and tables of streams, ends, multiplexers, connections, retrying ends and identifier generators under their lock", c07Guarded},
		Rule{"atomic", "no plain access to atomically accessed state, except reads under the exclusive lock of its owner", c07Atomic},
	)
}
