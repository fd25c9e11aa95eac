package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "Q02",
		Rule:  "on every path of every exported function and method of detour with a Status result, path-sensitive known-bits analysis of the returned value (callees analysed at their call sites) shows at least one of Success, Failure, InProgress set, and Success and Failure not both set. The status kept by a sliced query is analysed for each class of values it can hold between calls (none, succeeded, failed, in progress, with any details), and must be in one of these classes again when a method returns. The flags and details are distinct bits, statuses are combined by bit operations only, and StatusSucceed, StatusFailed, StatusInProgress answer exactly whether their flag is set, StatusDetail whether one of the given details is.",
		Floor: []Floor{{"functions with a status", 14}, {"returned statuses", 60}, {"status predicates", 4}, {"status operations", 10}, {"status bits", 10}},
		Assum: []string{"signed and 32-bit or wider integer arithmetic does not overflow"},
		Run:   runQ02,
	})
}

type statusBits struct{ S, F, P uint64 }

func (p *Prog) statusBits() statusBits {
	return statusBits{uint64(p.constVal("detour", "Success")), uint64(p.constVal("detour", "Failure")), uint64(p.constVal("detour", "InProgress"))}
}

func isStatus(t types.Type) bool {
	_, ptr := t.(*types.Pointer)
	return !ptr && isNamed(t, "detour", "Status")
}

// statusClass: 0 none, S, F, P; -1 when it is not known.
func (sb statusBits) check(f *Facts, t *Term) string {
	b := f.Bits(t)
	all := sb.S | sb.F | sb.P
	some := b.ones&all != 0
	if !some {
		for m := range f.nz[t] {
			if m&^all&^b.zeros == 0 {
				some = true
			}
		}
	}
	if !some {
		return "may have none of the success, failure and in-progress flags"
	}
	if b.zeros&sb.S == 0 && b.zeros&sb.F == 0 {
		return "may have both the success and the failure flag"
	}
	return ""
}

func runQ02(c *Ctx) {
	sb := c.statusBits()
	rel := c.relevant(func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isStatus(rs.At(i).Type()) {
				return true
			}
		}
		for cl := range c.modDirect(f).direct {
			if classContentOf(cl) == "detour.Status" {
				return true
			}
		}
		return false
	})
	c.statusAlgebra(sb)
	type job struct {
		f   *ssa.Function
		idx int
		cs  string
	}
	usesKept := c.relevant(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					st := deref(fa.X.Type())
					if isNamed(st, "detour", "NavMeshQuery") && statusField(deref(fa.Type())) != "" ||
						isNamed(st, "detour", "NavMeshQuery") && isStatus(deref(fa.Type())) {
						return true
					}
				}
			}
		}
		return false
	})
	var jobs []job
	for _, f := range c.srcFuncs {
		if !isLibPkg(relPkg(funcPkg(f))) || !exportedEntry(f) || f.Synthetic != "" {
			continue
		}
		idx := -1
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isStatus(f.Signature.Results().At(i).Type()) {
				idx = i
			}
		}
		if idx < 0 || !strings.Contains(fname(f), only) {
			continue
		}
		c.Count("functions with a status", 1)
		cases := []string{""}
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "detour", "NavMeshQuery") && usesKept[f] {
			cases = []string{"none", "succeeded", "failed", "in progress"}
		}
		for _, cs := range cases {
			jobs = append(jobs, job{f, idx, cs})
		}
	}
	c.Parallel(len(jobs), func(i int) { runQ02Func(c, sb, rel, jobs[i].f, jobs[i].idx, jobs[i].cs) })
}

// statusField is the name of the field of type Status of the structure t.
func statusField(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isStatus(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// sliceStatusAddr is the address of the status kept in the query object.
func sliceStatusAddr(fl *Flow, q *Term) *Term {
	qt := contentType(q)
	if n := statusField(qt); n != "" {
		return fl.fieldPath(q, n)
	}
	st, _ := qt.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if n := statusField(st.Field(i).Type()); n != "" {
			return fl.fieldPath(q, st.Field(i).Name(), n)
		}
	}
	panic("no status kept in the query")
}

// fieldPath is the address of a field of the structure base points to.
func (fl *Flow) fieldPath(base *Term, names ...string) *Term {
	for _, n := range names {
		st, ok := contentType(base).Underlying().(*types.Struct)
		if !ok {
			panic("no structure at " + base.String())
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				base = fl.fieldAddr(base, i)
				found = true
				break
			}
		}
		if !found {
			panic(fmt.Sprintf("no field %s in %s", n, typeStr(contentType(base))))
		}
	}
	return base
}

func runQ02Func(c *Ctx, sb statusBits, rel map[*ssa.Function]bool, f *ssa.Function, idx int, cs string) {
	var stAddr *Term
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool { return rel[g] || c.simpleFn(g) }}
	fl := newFlow(c.Prog, cl)
	fl.K = 6
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if cs == "" || cs == "none" {
			c.Count("returned statuses", 1)
		}
		if msg := sb.check(st.facts, res[idx]); msg != "" {
			fl.Report("status:"+fname(f), fl.instrPos(in), "the status returned by %s %s: %s; sliced query before: %q; %s", fname(f), msg, res[idx], cs, fl.Path(st))
		}
		if stAddr != nil {
			v := fl.peek(st, stAddr)
			if v.isConst() && v.n == 0 {
				return
			}
			// the kept status may be untouched by the path
			if cs == "none" && st.facts.Bits(v).zeros == ^uint64(0) {
				return
			}
			if msg := sb.check(st.facts, v); msg != "" {
				fl.Report("kept-status:"+fname(f), fl.instrPos(in), "the status kept by the sliced query after %s %s: %s; before: %q; %s", fname(f), msg, v, cs, fl.Path(st))
			}
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		if cs == "" {
			return
		}
		stAddr = sliceStatusAddr(fl, ps[0])
		v := fl.tt.mk("sym", contentType(stAddr), 0, "status before", nil, nil)
		all := sb.S | sb.F | sb.P
		switch cs {
		case "none":
			st.mem[stAddr] = fl.tt.konst(0)
			return
		case "succeeded":
			st.facts.assumeBits(v, sb.S, all&^sb.S)
		case "failed":
			st.facts.assumeBits(v, sb.F, all&^sb.F)
		case "in progress":
			st.facts.assumeBits(v, sb.P, all&^sb.P)
		}
		st.mem[stAddr] = v
	})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Printf("%s [%s]: %d steps, %d terms\n", fname(f), cs, fl.steps, len(fl.tt.list))
	}
	c.Sample("%s, sliced query %q: %d functions, %d blocks", fname(f), cs, len(fl.Visited), len(fl.Blocks))
}

// statusAlgebra checks the constants, the operators and the predicates.
func (c *Ctx) statusAlgebra(sb statusBits) {
	var all uint64
	details := uint64(c.constVal("detour", "StatusDetailMask"))
	for i, n := range []string{"Failure", "Success", "InProgress", "WrongMagic", "WrongVersion", "OutOfMemory", "InvalidParam", "BufferTooSmall", "OutOfNodes", "PartialResult"} {
		v := uint64(c.constVal("detour", n))
		c.Count("status bits", 1)
		if v == 0 || v&(v-1) != 0 || v&all != 0 {
			c.Violate("bit:"+n, "", "%s = %#x is not a bit of its own", n, v)
		}
		if (v&details != 0) != (i >= 3) {
			c.Violate("detail:"+n, "", "%s = %#x and the detail mask %#x disagree", n, v, details)
		}
		all |= v
	}
	for _, f := range c.srcFuncs {
		if !isLibPkg(relPkg(funcPkg(f))) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || !isStatus(op.X.Type()) {
					continue
				}
				c.Count("status operations", 1)
				switch op.Op {
				case token.OR, token.AND, token.AND_NOT, token.EQL, token.NEQ:
				default:
					c.Violate("operator:"+fname(f), c.pos(op.Pos()), "%s combines statuses with %s", fname(f), op.Op)
				}
			}
		}
	}
	for _, p := range []struct {
		name string
		bit  uint64
	}{{"StatusFailed", sb.F}, {"StatusSucceed", sb.S}, {"StatusInProgress", sb.P}, {"StatusDetail", 0}} {
		f := c.fn("detour", p.name)
		c.Count("status predicates", 1)
		for _, want := range []bool{false, true} {
			for _, bit := range []uint64{p.bit, 1, 8, 1 << 23} {
				cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool { return true }}
				fl := newFlow(c.Prog, cl)
				cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
					if v, known := fl.cond(st, res[0]); !known || v != want {
						fl.Report("predicate:"+f.Name(), fl.instrPos(in), "%s does not tell whether the flag is set (flag %#x set: %v, result %s)", f.Name(), bit, want, res[0])
					}
				}
				if bit == 0 {
					continue
				}
				fl.Run(f, func(st *State, ps []*Term) {
					if p.bit == 0 {
						st.facts.assumeEq(ps[1], fl.tt.konst(int64(bit)))
					}
					if want {
						st.facts.assumeBits(ps[0], bit, 0)
					} else {
						st.facts.assumeBits(ps[0], 0, bit)
					}
				})
				fl.Finish(c, f.Name())
				if p.bit != 0 {
					break
				}
			}
		}
	}
}
