package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C21: the automaton of a layer is extracted from its loop, packet kind by packet
// kind and state by state, and the handshakes are decided on it.

// a move is one way of handling a packet in a state
type move struct {
	next    string
	ended   bool // the loop quits
	failed  bool // something outside failed: the socket, a delegate
	refused bool // an answer that refuses
	o       *Outcome
	ev      []*Event
}

func (m *move) end() string {
	if m.ended {
		return "ended"
	}
	return m.next
}

// moves: all ways of handling a packet
func (c *Ctx) moves(l *layer, lab, kind, state string, inline bool) []*move {
	k := fmt.Sprintf("%s|%s|%s|%s|%v", l.typ, lab, kind, state, inline)
	if m, ok := c.moveMemo[k]; ok {
		return m
	}
	r := []*move{}
	c.handlings(l.loop, lab, kind, RunOpts{OneStep: true, InlineGo: inline, FSM: l.fsm, State: state}, func(o *Outcome, ev []*Event) {
		if o.Kind == "panic" {
			return
		}
		m := &move{next: o.State.fsm, o: o, ev: ev}
		got := false
		for _, e := range o.Events {
			if e.Gid != 0 {
				continue
			}
			switch e.Kind {
			case EvRecv:
				got = got || e.Blocking
			case EvAssume:
				t, v := norm(e.Cond, e.Val)
				if anyTerm(t, func(x *Term) bool { return x.K == KLen && isChanT(x.A[0].T) }) {
					return // how much is left counts only once it is told to quit
				}
				if t == nil || t.K != KBin || t.Op != "==" && t.Op != "!=" {
					continue
				}
				for i := 0; i < 2; i++ {
					if !t.A[i].isNilConst() {
						continue
					}
					x := t.A[1-i]
					isNil := v == (t.Op == "==")
					if !got && isNil && isChanT(x.T) {
						return // told to quit before
					}
					if !isNil && x.T != nil && isErrorT(x.T) && got {
						m.failed = true
					}
				}
			case EvClose:
				if got && c.P.chanLabel(e.Recv) == l.out {
					m.ended = true
				}
			}
		}
		if m.next == "" {
			m.next = state
		}
		bad, known := c.refused(ev)
		m.refused = known && bad || c.codeRefused(ev)
		r = append(r, m)
	})
	if c.moveMemo == nil {
		c.moveMemo = map[string][]*move{}
	}
	c.moveMemo[k] = r
	return r
}

func isChanT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// codeRefused: an answer that is told apart by its return code
func (c *Ctx) codeRefused(ev []*Event) bool {
	for _, e := range ev {
		if e.Kind != EvAssume {
			continue
		}
		t, v := norm(e.Cond, e.Val)
		if t == nil || t.K != KBin || t.Op != "==" && t.Op != "!=" {
			continue
		}
		for i := 0; i < 2; i++ {
			f, _ := fieldOf(t.A[i])
			if f == nil || f.Name() != "RetCode" || !isPktPart(t.A[i]) {
				continue
			}
			if n, ok := t.A[1-i].constInt(); ok {
				if (n != 0) == (v == (t.Op == "==")) {
					return true
				}
			}
		}
	}
	return false
}

// the packets of the handshakes of a layer
type hands struct{ open, openAck, shut, shutAck string }

func (l *layer) hands() hands {
	if l.pkg == "conn" {
		return hands{"ConnPacket", "ConnAckPacket", "DisConnPacket", "DisConnAckPacket"}
	}
	return hands{"SessionPacket", "SessionAckPacket", "DismissPacket", "DismissAckPacket"}
}

// role: what a layer does in an opening
type role struct{ asks, answers bool }

func (c *Ctx) role(l *layer) role {
	open := func(lab string) bool {
		for _, m := range c.moves(l, lab, l.hands().open, l.init, false) {
			if !m.ended && !m.failed && m.next != l.init {
				return true
			}
		}
		return false
	}
	return role{open(l.out), open(l.in)}
}

// ownClose: the layer closes itself
func (c *Ctx) ownClose(e *Event) bool {
	if e.Kind != EvCall || e.Meth == nil || !strings.HasPrefix(e.Meth.Name(), "Close") || e.Recv == nil || e.Recv.T == nil {
		return false
	}
	n, _ := types.Unalias(e.Recv.T).(*types.Named)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Name() == "conn" || n.Obj().Pkg().Name() == "multiplexer")
}

// live: the states from the established one on
func (c *Ctx) live(l *layer) map[string]bool {
	h := l.hands()
	live := map[string]bool{l.state: true}
	todo := []string{l.state}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		for _, k := range []string{h.shut, h.shutAck} {
			for _, lab := range []string{l.in, l.out} {
				for _, m := range c.moves(l, lab, k, s, false) {
					if !m.ended && !m.failed && !live[m.next] {
						live[m.next] = true
						todo = append(todo, m.next)
					}
				}
			}
		}
	}
	return live
}

func setStr(m map[string]bool) string {
	r := sortedKeys(m)
	sort.Strings(r)
	return strings.Join(r, ",")
}

func c21Open(c *Ctx) {
	for _, l := range c.Layers() {
		h := l.hands()
		live := c.live(l)
		// states in which an opening is on its way
		opening, by := map[string]bool{}, map[string]string{}
		opens := 0
		for _, lab := range []string{l.in, l.out} {
			dir := "received"
			if lab == l.out {
				dir = "sent"
			}
			if role := c.role(l); lab == l.in && role.answers || lab == l.out && role.asks {
				for _, s := range sortedKeys(l.fsm.States) {
					for _, m := range c.moves(l, lab, h.open, s, false) {
						cons := l.typ + "/" + h.open + "/" + dir
						show := func(x string) func() string {
							return func() string { return "in state " + s + ": " + x + "\n" + c.P.ShowTrace(m.o) }
						}
						if s == l.init {
							if !m.ended && !m.failed && m.next != s {
								opening[m.next] = true
								by[m.next] = lab
								opens++
							}
							c.Check(m.next != l.state || m.ended, "opened-by-answer", cons, show("established by the request alone"))
							continue
						}
						// refused: no positive answer, nobody told, not passed on
						bad := ""
						for _, e := range m.ev {
							if p := c.sentPkt(e); p != nil {
								if c.pktKind(p) == h.openAck && made(p) && emptyStr(c.ackError(e.Heap, p)) {
									bad = "the request is accepted"
								}
								if isPkt(p) {
									bad = "the request is passed on"
								}
							}
							if isOnline(e) {
								bad = "it is reported online"
							}
						}
						if !m.ended && m.next != s && bad == "" {
							bad = "the state becomes " + m.next
						}
						c.Check(bad == "", "second-opening-refused", cons, show(bad))
					}
				}
			}
		}
		c.Check(opens > 0 && !opening[l.state] && !opening[l.init], "opening-known", l.typ, func() string { return "opening states: " + setStr(opening) })
		// established only by the answer to an opening on its way
		ups := 0
		for _, kind := range c.kindsOf() {
			for _, lab := range []string{l.in, l.out} {
				if !l.own[kind] && kind != "MessagePacket" {
					continue
				}
				for _, s := range sortedKeys(l.fsm.States) {
					for _, m := range c.moves(l, lab, kind, s, false) {
						if m.ended || m.next != l.state || s == l.state {
							continue
						}
						ups++
						c.Check(kind == h.openAck && opening[s], "established-by-handshake", l.typ+"/"+kind, func() string {
							return "from state " + s + " this makes it established\n" + c.P.ShowTrace(m.o)
						})
					}
				}
			}
		}
		c.Check(ups > 0, "established-by-handshake", l.typ, func() string { return "nothing makes it established" })
		// the answer to it establishes, unless it refuses
		for _, s := range sortedKeys(opening) {
			lab := l.in
			if by[s] == l.in {
				lab = l.out
			}
			n := 0
			for _, m := range c.moves(l, lab, h.openAck, s, false) {
				if m.failed || m.refused {
					continue
				}
				n++
				c.Check(!m.ended && m.next == l.state, "answer-establishes", l.typ+"/"+s, func() string {
					return "the opening is answered, not refused, and the state is " + m.end() + "\n" + c.P.ShowTrace(m.o)
				})
			}
			c.Check(n > 0, "answer-establishes", l.typ+"/"+s, func() string { return "the answer is not handled" })
		}
		// data
		for _, kind := range c.kindsOf() {
			if l.own[kind] || strings.HasPrefix(kind, "Heartbeat") {
				continue
			}
			if l.pkg == "multiplexer" && connLayer[kind] {
				continue
			}
			for _, s := range sortedKeys(l.fsm.States) {
				for _, lab := range []string{l.in, l.out} {
					for _, m := range c.moves(l, lab, kind, s, false) {
						show := func(x string) func() string {
							return func() string { return "in state " + s + ": " + x + "\n" + c.P.ShowTrace(m.o) }
						}
						if lab == l.in && !live[s] {
							for _, e := range m.ev {
								if e.Kind == EvSend && c.P.chanLabel(e.Recv) == l.up && len(e.Args) > 0 && isPkt(e.Args[0]) {
									c.Check(false, "data-after-opening", l.typ+"/"+kind, show("data is handed up"))
								}
							}
							c.Check(true, "data-after-opening", l.typ+"/"+kind, nil)
						}
						if live[s] && !m.failed {
							c.Check(!m.ended && m.next == s, "data-keeps-state", l.typ+"/"+kind, show("data changes the state to "+m.end()))
						}
					}
				}
			}
		}
	}
}

func c21Close(c *Ctx) {
	for _, l := range c.Layers() {
		h := l.hands()
		ev := []struct{ lab, kind, what string }{
			{l.out, h.shut, "close sent"}, {l.in, h.shut, "close received"},
			{l.out, h.shutAck, "answer sent"}, {l.in, h.shutAck, "answer received"},
		}
		// every order in which a close by one side or both can pass
		var run func(done [4]bool, states map[string]bool, path []string)
		run = func(done [4]bool, states map[string]bool, path []string) {
			last := 0
			for i := range done {
				if done[i] {
					last++
				}
			}
			for i, e := range ev {
				if done[i] || i == 2 && !done[1] || i == 3 && !done[0] {
					continue
				}
				p := append(append([]string{}, path...), e.what)
				next := map[string]bool{}
				n := 0
				for _, s := range sortedKeys(states) {
					for _, m := range c.moves(l, e.lab, e.kind, s, false) {
						if m.failed {
							continue
						}
						n++
						show := func(x string) func() string {
							return func() string { return strings.Join(p, ", ") + ": " + x + "\n" + c.P.ShowTrace(m.o) }
						}
						if last == 3 {
							c.Check(m.ended, "close-completes", l.typ+"/"+strings.Join(p, ", "), show("both sides have closed and answered, and it goes on in state "+m.next))
						} else {
							c.Check(!m.ended, "close-waits", l.typ+"/"+strings.Join(p, ", "), show("it ends although not both sides have closed and answered"))
							next[m.next] = true
						}
						// what passes is passed on
						if i == 0 || i == 2 {
							out := false
							for _, x := range m.ev {
								q := c.sentPkt(x)
								out = out || q != nil && isPkt(q)
							}
							c.Check(out, "close-passed", l.typ+"/"+e.kind, show("it is not sent"))
						}
					}
				}
				c.Check(n > 0, "close-handled", l.typ+"/"+e.what, func() string { return "not handled in " + setStr(states) })
				d := done
				d[i] = true
				if last < 3 && len(next) > 0 {
					run(d, next, p)
				}
			}
		}
		run([4]bool{}, map[string]bool{l.state: true}, nil)
		// a received close is acknowledged and answered by our own
		for _, s := range sortedKeys(c.live(l)) {
			for _, m := range c.moves(l, l.in, h.shut, s, true) {
				if m.failed || m.ended {
					continue
				}
				show := func(x string) func() string {
					return func() string { return "in state " + s + ": " + x + "\n" + c.P.ShowTrace(m.o) }
				}
				acks, closes, gone := 0, 0, false
				fresh := true
				for i, e := range m.ev {
					if e.Kind == EvOnce && !e.Val {
						fresh = false
					}
					gone = gone || c.streamGone(m.ev[i:i+1])
					if c.ownClose(e) {
						closes++
						fresh = true
						c.Check(acks > 0 || gone, "acked-before-own", l.typ, show("it is closed before the acknowledgement"))
					}
					p := c.sentPkt(e)
					if p == nil || !made(p) {
						continue
					}
					switch c.pktKind(p) {
					case h.shutAck:
						acks++
						id := c.heapField(e.Heap, p, "PacketID")
						c.Check(id != nil && same(id, c.pktLoad(c.P.pktTerm(h.shut), "PacketID")), "close-acked-as-asked", l.typ, show("the acknowledgement is for "+c.P.Show(id)))
						c.Check(emptyStr(c.ackError(e.Heap, p)) || c.ackError(e.Heap, p) == nil, "close-acked-well", l.typ, show("the acknowledgement carries an error"))
					case h.shut:
						closes++
						c.Check(acks > 0 || gone, "acked-before-own", l.typ, show("our own close is sent before the acknowledgement"))
					}
				}
				if gone {
					c.Check(acks <= 1 && closes <= 1, "close-acked", l.typ, show("acknowledged more than once"))
					continue
				}
				c.Check(acks == 1, "close-acked", l.typ, show(fmt.Sprintf("a received close is acknowledged %d times", acks)))
				if fresh {
					c.Check(closes == 1, "close-answered", l.typ, show(fmt.Sprintf("a received close is answered by our own close %d times", closes)))
				}
			}
		}
		c.Min("close-completes", 6)
		c.Min("close-waits", 10)
		c.Min("close-acked", 2)
		c.Min("close-answered", 2)
		// a refused opening is closed by the side that refused
		n := 0
		for _, s := range sortedKeys(l.fsm.States) {
			if !c.role(l).answers {
				break
			}
			for _, m := range c.moves(l, l.out, h.openAck, s, true) {
				if m.ended {
					continue
				}
				// told to the peer, not established
				sent := false
				closes, gone, done := 0, false, false
				for _, e := range m.ev {
					p := c.sentPkt(e)
					if e.Kind == EvSend && p != nil && isPkt(p) {
						sent = true
					}
					if p != nil && made(p) && c.pktKind(p) == h.shut || c.ownClose(e) {
						closes++
					}
					if e.Kind == EvOnce && !e.Val {
						done = true
					}
					gone = gone || c.streamGone([]*Event{e})
				}
				if !sent || m.next == l.state {
					continue
				}
				n++
				c.Check(closes == 1 || gone || done, "refused-is-closed", l.typ, func() string {
					return "in state " + s + " a refusal is sent, and nobody closes\n" + c.P.ShowTrace(m.o)
				})
				// which it can
				for _, x := range c.moves(l, l.out, h.shut, m.next, false) {
					if !x.failed {
						c.Check(!x.ended, "refused-can-close", l.typ, func() string { return "the close after a refusal is not sent\n" + c.P.ShowTrace(x.o) })
					}
				}
			}
		}
		if c.role(l).answers {
			c.Check(n > 0, "refused-is-closed", l.typ, func() string { return "no refusal is ever sent" })
		}
		// the end is within reach from every state
		fini := c.P.constStr(l.pkg, "FINI")
		for _, s := range sortedKeys(l.fsm.States) {
			seen := map[string]bool{s: true}
			for todo := []string{s}; len(todo) > 0; {
				x := todo[0]
				todo = todo[1:]
				for _, tr := range l.fsm.Trans {
					if to, ok := tr[x]; ok && !seen[to] {
						seen[to] = true
						todo = append(todo, to)
					}
				}
			}
			c.Check(seen[fini], "end-reachable", l.typ+"/"+s, func() string { return "the end cannot be reached from here" })
		}
	}
}

// c21Request: closing asks the peer once
func c21Request(c *Ctx) {
	n := 0
	for _, r := range c.Roots() {
		rel := c.P.rel(r.Fn)
		if r.Kind != "api" || r.Fn.Signature.Recv() == nil || !strings.HasPrefix(r.Fn.Name(), "Close") || r.Fn.Signature.Params().Len() != 0 || rel != "conn" && rel != "multiplexer" {
			continue
		}
		for _, o := range c.root(r) {
			asks, once, first, gone := 0, false, false, false
			for _, e := range o.Events {
				if e.Gid != 0 {
					continue
				}
				if e.Kind == EvOnce {
					once, first = true, first || e.Val
				}
				if p := c.sentPkt(e); p != nil && made(p) && (c.pktKind(p) == "DisConnPacket" || c.pktKind(p) == "DismissPacket") {
					asks++
				}
				gone = gone || c.streamGone([]*Event{e})
			}
			isEnd := false // an end of one connection or stream
			for _, l := range c.Layers() {
				isEnd = isEnd || recvName(r.Fn) == l.typ
			}
			if !isEnd || !once && !gone {
				continue
			}
			n++
			switch {
			case once && !first:
				c.Check(asks == 0, "asks-once", r.Name, func() string { return "closing again asks the peer again\n" + c.P.ShowTrace(o) })
			case gone:
			default:
				c.Check(asks == 1, "asks", r.Name, func() string { return fmt.Sprintf("closing asks the peer %d times\n%s", asks, c.P.ShowTrace(o)) })
			}
		}
	}
	c.Check(n > 0, "asks", "any", nil)
	c.Min("asks", 3)
}

func init() {
	register("C21", "The automaton of each layer is extracted from its loop (every packet kind in every state, the tables of the state machine interpreted) and the opening and closing handshakes are decided on it.",
		Rule{"open", "established only by a completed opening; a second opening is refused; data passes only from then on", c21Open},
		Rule{"close", "a close ends it in every order after, and only after, both sides closed and answered", c21Close},
		Rule{"request", "closing asks the peer exactly once", c21Request},
		Rule{"answers", "whoever answers a packet of a handshake does so under the identifier of that packet", c04Answers},
	)
}
