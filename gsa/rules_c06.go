package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func c06Balance(c *Ctx) {
	for _, r := range c.Roots() {
		uses := false
		for _, o := range c.root(r) {
			// locks held when a loop is entered
			type at struct {
				b *ssa.BasicBlock
				d int
			}
			entry := map[at]string{}
			held, bad := c.lockWalk(o, func(e *Event, h []hold) {
				if e.Kind == EvLoop {
					entry[at{e.Blk, e.Depth}] = holdStr(h)
				}
				if e.Kind == EvLock {
					uses = true
					if e.Op == "Lock" || e.Op == "RLock" {
						for _, x := range h {
							c.Check(x.key != e.Recv.Key(), "no-relock", r.Name+"/"+c.P.chanLabel(e.Recv), func() string {
								return "a task takes a lock that it holds already: " + c.P.ShowEvent(e) + "\n" + c.P.ShowTrace(o)
							})
						}
					}
				}
			})
			if !uses {
				continue
			}
			c.Check(len(bad) == 0, "released-once", r.Name, func() string { return strings.Join(bad, "\n") + "\n" + c.P.ShowTrace(o) })
			switch o.Kind {
			case "return", "panic":
				c.Check(len(held) == 0, "released", r.Name, func() string { return "still held at the end: " + holdStr(held) + "\n" + c.P.ShowTrace(o) })
			case "iterate":
				if o.CutBlk != nil {
					if w, ok := entry[at{o.CutBlk, o.CutDepth}]; ok {
						c.Check(w == holdStr(held), "released-in-loop", r.Name, func() string {
							return "an iteration begins holding [" + w + "] and ends holding [" + holdStr(held) + "]\n" + c.P.ShowTrace(o)
						})
					}
				}
			}
		}
	}
	c.Min("released", 25)
	c.Min("no-relock", 0)
}

func holdStr(h []hold) string {
	var s []string
	for _, x := range h {
		s = append(s, x.mode+" "+x.label)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// lockClasses: labels of locks somebody blocks on
func (c *Ctx) blockedOn() map[string]bool {
	r := map[string]bool{}
	for _, t := range c.Roots() {
		for _, o := range c.root(t) {
			for _, e := range o.Events {
				if e.Kind == EvLock && (e.Op == "Lock" || e.Op == "RLock") {
					r[c.P.chanLabel(e.Recv)] = true
				}
			}
		}
	}
	return r
}

func c06Order(c *Ctx) {
	edges := map[string]map[string]string{}
	add := func(a, b, why string) {
		if edges[a] == nil {
			edges[a] = map[string]string{}
		}
		if edges[a][b] == "" {
			edges[a][b] = why
		}
	}
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.lockWalk(o, func(e *Event, h []hold) {
				if len(h) == 0 {
					return
				}
				acq := map[string]string{}
				if e.Kind == EvLock && (e.Op == "Lock" || e.Op == "RLock") {
					acq[c.P.chanLabel(e.Recv)] = c.P.ShowEvent(e)
				}
				if e.Kind == EvCall {
					for _, t := range c.targetsFrom(r.Fn, e) {
						for l, w := range c.lockSummary(t).acq {
							acq[l] = c.P.ShowEvent(e) + " -> " + w
						}
					}
				}
				for l, w := range acq {
					for _, x := range h {
						if x.key == "" || e.Kind == EvLock && x.key == e.Recv.Key() {
							continue
						}
						add(x.label, l, r.Name+": "+w)
					}
				}
			})
		}
	}
	var nodes []string
	for a := range edges {
		nodes = append(nodes, a)
	}
	sort.Strings(nodes)
	for _, a := range nodes {
		for b, why := range edges[a] {
			// a cycle through this edge?
			path := findPath(edges, b, a)
			c.Check(path == nil, "order", a+" < "+b, func() string {
				s := why + "\n"
				for i := 0; i+1 < len(path); i++ {
					s += edges[path[i]][path[i+1]] + "\n"
				}
				return "locks are taken in opposite orders: " + a + " < " + strings.Join(path, " < ") + "\n" + s
			})
		}
	}
	c.Check(true, "order-graph", fmt.Sprint(len(nodes), " locks with successors"), nil)
}

func findPath(g map[string]map[string]string, a, b string) []string {
	prev := map[string]string{a: ""}
	q := []string{a}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == b {
			var p []string
			for y := b; y != ""; y = prev[y] {
				p = append([]string{y}, p...)
			}
			return p
		}
		var ns []string
		for n := range g[x] {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if _, ok := prev[n]; !ok {
				prev[n] = x
				q = append(q, n)
			}
		}
	}
	return nil
}

// the lock that serialises reconnecting is meant to be held while connecting
var serialising = map[string]string{"client.RetryEnd.retry": "single flight of reconnection"}

// drained: whoever closes the channel under the lock first starts a task that empties it
func (c *Ctx) drained(ch, lock string) (ok bool, n int) {
	ok = true
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			for i, e := range o.Events {
				if e.Kind != EvClose || c.P.chanLabel(e.Recv) != ch {
					continue
				}
				n++
				// the lock taken exclusively before the close, the drain started before the lock
				lk, dr := -1, -1
				for j := 0; j < i; j++ {
					f := o.Events[j]
					if f.Kind == EvLock && f.Op == "Lock" && c.P.chanLabel(f.Recv) == lock {
						lk = j
					}
					if f.Kind == EvGo && f.Fn != nil {
						_, drains := c.consumers()
						if drains[ch][f.Fn] != nil && (lk < 0 || dr < 0) {
							dr = j
						}
					}
				}
				if lk < 0 || dr < 0 || dr > lk {
					ok = false
				}
			}
		}
	}
	return ok && n > 0, n
}

func c06Waits(c *Ctx) {
	blocked := c.blockedOn()
	for _, r := range c.Roots() {
		for _, o := range c.root(r) {
			c.lockWalk(o, func(e *Event, h []hold) {
				var hs []hold
				for _, x := range h {
					if serialising[x.label] == "" && blocked[x.label] { // nobody waits for a lock that is only tried
						hs = append(hs, x)
					}
				}
				if len(hs) == 0 {
					return
				}
				switch e.Kind {
				case EvSend, EvRecv, EvSelBlock, EvDyn, EvCall:
				default:
					return
				}
				cons := r.Name + "/" + hs[0].label
				w := c.waits(e)
				if (e.Kind == EvSend || e.Kind == EvRecv && e.InSelect) && w != "" {
					g := c.guardedSend(e, h)
					if e.Kind == EvSend && strip(e.Recv).K != KMake {
						c.Check(g, "send-under-lock", c.P.chanLabel(e.Recv)+"/"+holdStr(hs), func() string {
							return "a full queue is waited for under the lock, and who closes it does not empty it before taking the lock\n" + c.P.ShowTrace(o)
						})
						return
					}
					if g || e.Kind == EvSend {
						return // the wait ends when there is room in the queue; a channel created here is only used by its own path
					}
				}
				if w == "" && e.Kind == EvCall {
					for _, t := range c.targetsFrom(r.Fn, e) {
						for x := range c.lockSummary(t).wait {
							if strings.HasPrefix(x, "queues: ") && len(hs) == 1 && hs[0].mode == "R" {
								continue // the queue of the layer below is emptied or drained whoever holds this lock
							}
							w = c.P.ShowEvent(e) + " -> " + x
						}
					}
				}
				c.Check(w == "", "no-wait", cons, func() string {
					return "while " + holdStr(hs) + " is held " + w + "\n" + c.P.ShowTrace(o)
				})
			})
		}
	}
	c.Min("send-under-lock", 2)
}

func init() {
	register("C06", "The lock operations of every path of every entry are replayed per task: every lock is released exactly once, never re-entered, and iterations of loops are neutral; the acquisition graph over all entries (through interface calls, resolved to their implementations) is acyclic; and nothing that waits or calls the user runs while a lock is held.",
		Rule{"balance", "every path releases what it took, exactly once, and takes no lock twice", c06Balance},
		Rule{"order", "the graph of acquisitions, direct and through calls, has no cycle", c06Order},
		Rule{"waits", "no callback, delegate, channel wait, network operation or wait group under a lock, except queueing under the shared lock whose exclusive holder empties the queue first, and reconnecting under the lock that serialises it", c06Waits},
		Rule{"own-queue", "an established loop does not wait on its own queue", c05Own},
	)
}
