package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects the obligations of one property.
type Ctx struct {
	P            *Prog
	Prop         string
	Tier         string
	obs          map[string]*Ob
	order        []string
	mins         map[string]int
	paths        int
	steps        int
	roots        map[string]int
	fns          map[*ssa.Function]bool
	memo         map[string][]*Outcome
	assume       []string
	roots2       []*Root
	cons, drains map[string]map[*ssa.Function]*Root
	lays         []*layer
	fsms         map[string]*fsmTable
	drainedMemo  map[string]bool
	livesMemo    map[string]string
	storesMemo   map[*types.Var][]*Root
	moveMemo     map[string][]*move
	lsums        map[*ssa.Function]*lockSum
	endMemo      map[string]map[string]map[*ssa.Function]bool
	onceMemo     map[string]map[string]bool
	tabMemo      []*table
	tabMade      bool
	madeMemo     map[string]bool
	drainMemo    map[string]bool
	endByMemo    map[string]bool
}

// Ob is one obligation: a rule applied to a construct.
type Ob struct {
	Rule, Construct string
	N               int // paths or sites it was evaluated on
	Bad             int
	Detail          string
}

func (c *Ctx) ob(rule, construct string) *Ob {
	k := rule + "|" + construct
	o := c.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	return o
}

// Check records one evaluation of an obligation.
func (c *Ctx) Check(ok bool, rule, construct string, detail func() string) bool {
	o := c.ob(rule, construct)
	o.N++
	if !ok {
		o.Bad++
		if o.Detail == "" && detail != nil {
			o.Detail = detail()
		}
	}
	return ok
}

// Min demands that a rule matched at least n constructs.
func (c *Ctx) Min(rule string, n int) {
	c.mins[rule] = n
}

func (c *Ctx) Undecided(rule, construct, why string) {
	c.Check(false, rule, construct, func() string { return "undecided: " + why })
}

func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// RunOpts selects how an entry is explored.
type RunOpts struct {
	Key      string
	InlineGo bool
	NoInline func(fn *ssa.Function) bool
	OnRecv   func(ch *Term, t types.Type) []*Term
	Loads    bool
	RunOnce  bool
	Unroll   int
	UnrollFn func(fn *ssa.Function) bool
	Merge    bool
	Free     []*Term
	Args     []*Term
	MaxPaths int
	NoBound  bool
	Devirt   map[string]types.Type
	Heap     *Heap
	FSM      *fsmTable
	State    string
	FirstID  int
	OneStep  bool
}

// Traces explores fn and returns its paths; a failure to decide is a violated obligation.
func (c *Ctx) Traces(fn *ssa.Function, name string, o RunOpts) []*Outcome {
	if fn == nil {
		c.Undecided("anchor", name, "the construct is not in the source")
		return nil
	}
	key := fn.String() + "|" + o.Key
	if o.Key != "" || o.plain() {
		if r, ok := c.memo[key]; ok {
			return r
		}
	}
	x := NewExec(c.P)
	x.InlineGo = o.InlineGo
	x.OneStep = o.OneStep
	x.NoInline = o.NoInline
	x.OnRecv = o.OnRecv
	x.TraceLoads = o.Loads
	x.RunOnce = o.RunOnce
	x.Unroll = o.Unroll
	x.UnrollFn = o.UnrollFn
	x.InlineMerge = o.Merge
	x.NoBoundary = o.NoBound
	for k, v := range o.Devirt {
		x.devirt[k] = v
	}
	x.ids = o.FirstID
	if o.MaxPaths > 0 {
		x.MaxPaths = o.MaxPaths
	}
	args := o.Args
	if args == nil {
		args = x.Params(fn)
	}
	x.InitHeap = o.Heap
	x.FSM, x.FSMState = o.FSM, o.State
	outs, err := x.Run(fn, args, o.Free)
	c.paths += len(outs)
	c.steps += x.Steps
	c.roots[fn.String()] += len(outs)
	for f := range x.FnSeen {
		c.fns[f] = true
	}
	if err != nil {
		c.Undecided("explore", name, err.Error())
		return nil
	}
	if len(outs) == 0 {
		c.Undecided("explore", name, "no path")
	}
	// a loop fed with a packet is rarely looked at again, and many are explored
	if big := strings.HasPrefix(o.Key, "feed|") && len(outs) > 500; !big && (o.Key != "" || o.plain()) {
		c.memo[key] = outs
	}
	return outs
}

func (o RunOpts) plain() bool {
	return o.NoInline == nil && o.OnRecv == nil && o.Free == nil && o.Args == nil && !o.InlineGo && !o.Loads && !o.RunOnce && o.Unroll == 0 && !o.Merge && !o.NoBound && o.Devirt == nil && o.Heap == nil && o.FSM == nil && o.FirstID == 0 && !o.OneStep
}

type PropDef struct {
	ID    string
	Rules []Rule
	Expl  string
}

type Rule struct {
	Name string
	Doc  string
	Run  func(c *Ctx)
}

var props = map[string]*PropDef{}

func register(id, expl string, rules ...Rule) {
	props[id] = &PropDef{ID: id, Expl: expl, Rules: rules}
}

type knownFile struct {
	Findings []struct {
		Property  string `json:"property"`
		Rule      string `json:"rule"`
		Construct string `json:"construct"`
		What      string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

// shared is the last check run by "checks", which judges many properties in one process (for trying
// changes out; the registered commands run one check per process)
var shared *Ctx

// common: explorations every check makes in the same way
func common(key string) bool {
	k := key[strings.LastIndex(key, "|")+1:]
	return k == "" || k == "root" || k == "sum" || k == "loads"
}

func runCheck(id, repo, out string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	for i, a := range os.Args {
		if a == "-tier" && i+1 < len(os.Args) {
			tier = os.Args[i+1]
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	def := props[id]
	if def == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	c := &Ctx{Prop: id, Tier: tier, obs: map[string]*Ob{}, mins: map[string]int{}, roots: map[string]int{}, fns: map[*ssa.Function]bool{}, memo: map[string][]*Outcome{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Undecided("load", "repository", fmt.Sprint(r))
			}
		}()
		if shared != nil && shared.P != nil {
			c.P, c.roots2 = shared.P, shared.roots2
			for k, v := range shared.memo {
				if common(k) {
					c.memo[k] = v
				}
			}
			return
		}
		p, err := Load(repo)
		if err != nil {
			c.Undecided("load", "repository", err.Error())
			return
		}
		c.P = p
	}()
	if shared != nil {
		defer func() {
			keep := &Ctx{P: c.P, roots2: c.roots2, memo: map[string][]*Outcome{}}
			for k, v := range c.memo {
				if common(k) {
					keep.memo[k] = v
				}
			}
			shared = keep
		}()
	}
	var rulesRun []string
	if c.P != nil {
		for _, r := range def.Rules {
			rulesRun = append(rulesRun, r.Name+": "+r.Doc)
			func() {
				defer func() {
					if e := recover(); e != nil {
						c.Undecided(r.Name, "analysis", fmt.Sprint(e, "\n", string(debug.Stack())))
					}
				}()
				r.Run(c)
			}()
		}
	}
	// rules that match nothing would pass forever
	cnt := map[string]int{}
	for _, o := range c.obs {
		cnt[o.Rule]++
	}
	for r, n := range c.mins {
		if cnt[r] < n {
			c.Undecided("coverage", r, fmt.Sprintf("the rule matched %d constructs, at least %d were confirmed by hand", cnt[r], n))
		}
	}
	known := knownFile{}
	if b, err := os.ReadFile(filepath.Join(out, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			c.Undecided("known-findings", "file", err.Error())
		}
	}
	var bad, knownHit []*Ob
	nObs, nPaths, discharged := 0, 0, 0
	var samples []interface{}
	sort.Strings(c.order)
	ruleCnt := map[string]int{}
	for _, k := range c.order {
		o := c.obs[k]
		nObs++
		nPaths += o.N
		ruleCnt[o.Rule]++
		if o.Bad == 0 {
			discharged++
			if len(samples) < 12 || ruleCnt[o.Rule] == 1 {
				samples = append(samples, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "evaluations": o.N})
			}
			continue
		}
		isKnown := false
		for _, f := range known.Findings {
			if f.Property == id && f.Rule == o.Rule && f.Construct == o.Construct {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
			}
		}
		if isKnown {
			knownHit = append(knownHit, o)
		} else {
			bad = append(bad, o)
		}
	}
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	replay := filepath.Join(out, "evidence", id+".violations.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&b, "property %s\nrule %s\nconstruct %s\n(%d of %d evaluations fail)\n%s\n\n", id, o.Rule, o.Construct, o.Bad, o.N, o.Detail)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, o := range bad {
			if i < 20 {
				fmt.Printf("  %s @ %s: %s\n", o.Rule, o.Construct, firstLine(o.Detail))
			}
		}
	}
	nf := 0
	files := 0
	if c.P != nil {
		nf = len(c.P.Funcs)
		files = c.P.NFiles
	}
	var roots []string
	for r, n := range c.roots {
		roots = append(roots, fmt.Sprintf("%s: %d paths", strings.ReplaceAll(r, "github.com/singchia/geminio/", ""), n))
	}
	sort.Strings(roots)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"coverage": map[string]interface{}{
			"explanation": def.Expl, "rules": rulesRun, "obligations": nObs, "discharged": discharged, "evaluations": nPaths,
			"known_findings_seen": len(knownHit), "abstract_paths": c.paths, "instructions_interpreted": c.steps,
			"functions_in_scope": nf, "functions_traversed": len(c.fns), "files": files, "entries": roots, "instances_per_rule": ruleCnt, "samples": samples,
		},
		"assumptions": append([]string{
			"library facts (sync, synchub, yafsm, go-timer, encoding/json, io) are taken from their documentation and source as listed in DESIGN.md",
			"paths of loops are covered by the first and one arbitrary later iteration",
		}, c.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations on %d evaluations, %d discharged, %d known, %d violated; %d entries, %d paths, %d functions, %.1fs\n", id, nObs, nPaths, discharged, len(knownHit), len(bad), len(roots), c.paths, len(c.fns), time.Since(start).Seconds())
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
