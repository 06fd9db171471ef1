package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func debugMain(args []string) {
	p, err := Load(repoDir())
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if args[0] == "roots" {
		c := &Ctx{P: p, obs: map[string]*Ob{}, mins: map[string]int{}, roots: map[string]int{}, fns: map[*ssa.Function]bool{}, memo: map[string][]*Outcome{}}
		for _, r := range c.Roots() {
			ch := map[string]bool{}
			for _, o := range c.RunRoot(r, RunOpts{Key: "root"}) {
				for _, e := range o.Events {
					if e.Kind == EvRecv {
						ch["<-"+p.chanLabel(e.Recv)] = true
					}
					if e.Kind == EvSend {
						ch[p.chanLabel(e.Recv)+"<-"] = true
					}
					if e.Kind == EvClose {
						ch["close "+p.chanLabel(e.Recv)] = true
					}
				}
			}
			fmt.Println(r.Kind, p.rel(r.Fn), r.Name, sortedKeys(ch))
		}
		for n := range p.dead() {
			fmt.Println("dead", n)
		}
		for _, k := range c.order {
			if c.obs[k].Bad > 0 {
				fmt.Println(k, c.obs[k].Detail)
			}
		}
		return
	}
	if args[0] == "all" {
		for _, fn := range p.Funcs {
			if fn.Parent() != nil {
				continue
			}
			x := NewExec(p)
			x.InlineGo = false
			t := time.Now()
			outs, err := x.Run(fn, x.Params(fn), nil)
			if d := time.Since(t); err != nil || len(outs) > 300 || d > time.Second/3 {
				fmt.Println(fn, len(outs), err, x.Steps, d)
			}
		}
		return
	}
	fn := p.Method(args[0], args[1], args[2])
	if args[1] == "-" {
		fn = p.Func(args[0], args[2])
	}
	x := NewExec(p)
	x.InlineGo = len(args) > 3 && strings.Contains(args[3], "g")
	outs, err := x.Run(fn, x.Params(fn), nil)
	fmt.Println(len(outs), err, x.Steps)
	for _, o := range outs {
		fmt.Println(p.ShowTrace(o))
	}
}

func repoDir() string {
	if d := os.Getenv("GSA_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "check" {
		out := os.Getenv("GSA_OUT")
		if out == "" {
			out = "/verif"
		}
		os.Exit(runCheck(os.Args[2], repoDir(), out))
	}
	if len(os.Args) >= 3 && os.Args[1] == "checks" {
		shared = &Ctx{}
		rc := 0
		for _, id := range os.Args[2:] {
			fmt.Println("==", id)
			if r := runCheck(id, repoDir(), os.Getenv("GSA_OUT")); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	if len(os.Args) >= 3 && os.Args[1] == "trace" {
		debugMain(os.Args[2:])
		return
	}
	fmt.Println("usage: gsa check ID | gsa trace PKG TYPE FUNC")
	os.Exit(2)
}
