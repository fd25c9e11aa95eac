package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "K06",
		Rule: "typestate of the timers on every path of the exported functions of recast that start or stop one (the functions reaching StartTimer or StopTimer are analysed at their call sites, deferred calls run at the returns): a timer is started only while it is stopped, stopped only while it is running, no timer is running at a return, and once a timer was started, memory of the caller (the build context excepted) is changed, directly or in a call, only while one is running. " +
			"On every path of StopTimer on which timers are enabled, the accumulated time of the label alone is changed, by the time passed since the start of the label was recorded; StartTimer then records the current time for the label.",
		Floor: []Floor{{"stages", 10}, {"starts", 10}, {"stops", 10}, {"returns of stages", 20}, {"accumulated times", 1}, {"start times", 1}},
		Assum: []string{"the build context given to a stage has no running timer with a label of that stage"},
		Run:   runK06,
	})
}

func runK06(c *Ctx) {
	start, stop := c.fn("recast", "BuildContext.StartTimer"), c.fn("recast", "BuildContext.StopTimer")
	if start == nil || stop == nil {
		return
	}
	rel := c.relevant(func(g *ssa.Function) bool { return g == start || g == stop })
	var roots []*ssa.Function
	for _, f := range c.exportedFuncs("recast") {
		if rel[f] && f != start && f != stop && len(f.Blocks) > 0 {
			roots = append(roots, f)
		}
	}
	c.Parallel(len(roots), func(i int) { c.timedStage(roots[i], start, stop, rel) })
	c.timerFunc(start, false)
	c.timerFunc(stop, true)
}

func (c *Ctx) timedStage(f, start, stop *ssa.Function, rel map[*ssa.Function]bool) {
	c.Distinct("stages", fname(f))
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return rel[g] }
	label := func(t *Term) string {
		if t.isConst() {
			return fmt.Sprint(t.n)
		}
		return t.String()
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		if callee != start && callee != stop || len(args) != 2 {
			return nil, false
		}
		l := label(args[1])
		key := "timer:" + args[0].String() + ":" + l
		if callee == start {
			c.Distinct("starts", fl.instrPos(in)+l)
			if st.gs[key] != "" {
				fl.Report("restart:"+fname(f)+":"+l, fl.instrPos(in), "%s starts the timer %s while it is running; %s", fname(in.Parent()), c.timerName(args[1]), fl.Path(st))
			}
			st.gs[key] = "running"
			st.gs["began"] = "1"
		} else {
			c.Distinct("stops", fl.instrPos(in)+l)
			if st.gs[key] == "" {
				fl.Report("notstarted:"+fname(f)+":"+l, fl.instrPos(in), "%s stops the timer %s, which is not running; %s", fname(in.Parent()), c.timerName(args[1]), fl.Path(st))
			}
			delete(st.gs, key)
		}
		return []Outcome{{st, nil}}, true
	}
	idle := func(st *State) bool {
		if st.gs["began"] == "" {
			return false
		}
		for k := range st.gs {
			if strings.HasPrefix(k, "timer:") {
				return false
			}
		}
		return true
	}
	// work of the stage is done while one of its timers is running
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if r := root(addr); idle(st) && !isObj(r) && !isContext(deref0(r.typ)) {
			fl.Report("untimed:"+fname(f), fl.instrPos(in), "%s sets %s while none of the timers it started is running; %s", fname(in.Parent()), addr, fl.Path(st))
		}
	}
	cl.After = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
		if callee == nil || !idle(st) || rel[callee] || !fl.inModule(callee) {
			return
		}
		if r := callee.Signature.Recv(); r != nil && isContext(deref0(r.Type())) {
			return
		}
		for _, m := range sorted(fl.modSet(callee)) {
			if !strings.Contains(m, "BuildContext") {
				fl.Report("untimed:"+fname(f), fl.instrPos(in), "%s calls %s, which changes memory (%s), while none of the timers it started is running; %s", fname(in.Parent()), fname(callee), m, fl.Path(st))
				return
			}
		}
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad {
			return
		}
		c.Distinct("returns of stages", fl.instrPos(in))
		var ks []string
		for k := range st.gs {
			if strings.HasPrefix(k, "timer:") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			l := k[strings.LastIndex(k, ":")+1:]
			fl.Report("running:"+fname(f)+":"+l, fl.instrPos(in), "%s returns while the timer %s it started is running; %s", fname(f), c.timerLabel(l), fl.Path(st))
		}
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 4
	fl.Run(f, func(st *State, params []*Term) {})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Println(fname(f), "steps", fl.steps)
	}
}

func isContext(t types.Type) bool { return isNamed(t, "recast", "BuildContext") }

func deref0(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return deref(t)
}

func (c *Ctx) timerName(t *Term) string {
	if t.isConst() {
		return c.timerLabel(fmt.Sprint(t.n))
	}
	return t.String()
}

// timerLabel is the name of the constant of recast for a timer.
func (c *Ctx) timerLabel(n string) string {
	sc := c.ssaPkgs["recast"].Pkg.Scope()
	for _, name := range sc.Names() {
		if k, ok := sc.Lookup(name).(*types.Const); ok && strings.HasPrefix(name, "Timer") && k.Val().ExactString() == n {
			return name
		}
	}
	return n
}

// timerFunc: what StartTimer and StopTimer do to the times of the context.
func (c *Ctx) timerFunc(f *ssa.Function, stops bool) {
	isTime := func(t types.Type) bool { return typeStr(t) == "time.Time" }
	isDur := func(t types.Type) bool { return typeStr(t) == "time.Duration" }
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return true }
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		one := func(t *Term) ([]Outcome, bool) { return []Outcome{{st, []*Term{t}}}, true }
		v, ok := in.(ssa.Value)
		if !ok {
			return nil, false
		}
		switch qname(callee) {
		case "time.Now":
			return one(fl.tt.mk("now", v.Type(), 0, "", nil, nil))
		case "time.Since":
			return one(fl.tt.mk("since", v.Type(), 0, "", nil, nil, args[0]))
		case "(time.Time).Sub":
			if args[0].op == "now" {
				return one(fl.tt.mk("since", v.Type(), 0, "", nil, nil, args[1]))
			}
		}
		return nil, false
	}
	var ctx, label *Term
	var enabled *Term
	ofLabel := func(addr *Term) bool {
		for a := addr; a.op == "ia" || a.op == "fa"; a = a.a[0] {
			if a.op == "ia" {
				return a.a[1] == label && root(a) == ctx
			}
		}
		return false
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if root(addr) != ctx {
			return
		}
		if !ofLabel(addr) {
			fl.Report("other:"+fname(f), fl.instrPos(in), "%s changes %s, which is not a time of the timer it was given; %s", fname(f), addr, fl.Path(st))
			return
		}
		elem := val.typ
		if p, ok := in.(*ssa.Store); ok {
			elem = p.Val.Type()
		}
		switch {
		case stops && isDur(elem):
			c.Count("accumulated times", 1)
			st.gs["done"] += "1"
			old := fl.peek(st, addr)
			ok := false
			var since *Term
			val.any(func(t *Term) bool {
				if t.op == "since" {
					since = t
				}
				return since != nil
			})
			if since != nil {
				from := since.a[0]
				isStart := from.op == "load" && ofLabel(from.a[0])
				if from.op == "struct" {
					isStart = len(from.a) > 0
					for _, x := range from.a {
						isStart = isStart && x.op == "load" && ofLabel(x.a[0])
					}
				}
				d := linOf(val).add(linOf(since), -1).add(linOf(old), -1)
				ok = isStart && fl.stUpperZero(st, d)
			}
			if !ok {
				fl.Report("time:"+fname(f), fl.instrPos(in), "%s sets the accumulated time to %s, which is not what it was, %s, plus the time since the start; %s", fname(f), val, old, fl.Path(st))
			}
		case !stops && isTime(elem):
			c.Count("start times", 1)
			st.gs["done"] += "1"
			if val.op != "now" {
				fl.Report("start:"+fname(f), fl.instrPos(in), "%s records %s, which is not the current time; %s", fname(f), val, fl.Path(st))
			}
		default:
			fl.Report("other:"+fname(f), fl.instrPos(in), "%s changes %s; %s", fname(f), addr, fl.Path(st))
		}
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		on, known := st.facts.cond(enabled)
		if st.facts.bad || known && !on || st.gs["done"] == "1" {
			return
		}
		fl.Report("missing:"+fname(f), fl.instrPos(in), "%s may return without having recorded exactly one time for the timer although timers are enabled; %s", fname(f), fl.Path(st))
	}
	fl := newFlow(c.Prog, cl)
	fl.Run(f, func(st *State, params []*Term) {
		ctx, label = params[0], params[1]
		s := deref(f.Params[0].Type()).Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if isBoolType(s.Field(i).Type()) && strings.Contains(strings.ToLower(s.Field(i).Name()), "timer") {
				enabled = fl.load(st, fl.fieldAddr(ctx, i))
				st.gt["enabled"] = enabled
			}
		}
		if enabled == nil {
			fl.undecided("no field of BuildContext tells whether timers are enabled")
			enabled = fl.tt.konst(1)
		}
	})
	fl.Finish(c, fname(f))
}

func sorted(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
