package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "K03",
		Rule: "on every path of the exported functions of recast that set the regions of spans, every number written to a slice of region numbers, to the identifier of a sweep or to that of a region is known to be below the border mark, or carries the mark because it was added to it, or is read from where only such numbers are written; " +
			"numbers fixed beforehand, those of the borders, carry the mark; no number written, and none of the numbers of regions kept, is a sum that may wrap.",
		Floor: []Floor{{"functions setting regions", 1}, {"region numbers written", 8}, {"identifiers of sweeps", 2}, {"identifiers of regions", 4}},
		Assum: []string{"the slices of 16-bit numbers of these functions hold region numbers"},
		Run:   runK03,
	})
}

func uint16Elem(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint16
}

// regionStore tells what kind of region number is at an address.
func regionStore(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.IndexAddr:
		if uint16Elem(a.X.Type()) {
			return "span"
		}
	case *ssa.FieldAddr:
		t, n := deref(a.X.Type()), fieldName(a)
		switch {
		case isNamed(t, "recast", "sweepSpan") && n == "id":
			return "sweep"
		case isNamed(t, "recast", "sweepSpan") && n == "nei":
			return "nei"
		case isNamed(t, "recast", "Region") && n == "ID":
			return "region"
		case isNamed(t, "recast", "CompactHeightfield") && n == "MaxRegions":
			return "max"
		case isNamed(t, "recast", "CompactSpan") && n == "Reg":
			return "result"
		}
	}
	return ""
}

func runK03(c *Ctx) {
	mark := c.constVal("recast", "borderReg")
	noNei := c.constVal("recast", "RC_NULL_NEI")
	sets := c.relevant(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && relPkg(funcPkg(f)) == "recast" && regionStore(st.Addr) != "" {
					return true
				}
			}
		}
		return false
	})
	final := c.relevant(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && regionStore(st.Addr) == "result" {
					return true
				}
			}
		}
		return false
	})
	for _, f := range c.exportedFuncs("recast") {
		if !final[f] {
			continue
		}
		c.Count("functions setting regions", 1)
		r := &regions{c: c, f: f, mark: mark, noNei: noNei, sets: sets}
		r.run()
	}
}

type regions struct {
	c           *Ctx
	f           *ssa.Function
	mark, noNei int64
	sets        map[*ssa.Function]bool
}

func (r *regions) run() {
	c := r.c
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return r.sets[g] || c.simpleFn(g) }
	below := func(fl *Flow, st *State, v *Term) bool { return st.facts.le(v, fl.tt.konst(r.mark), 1) }
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		kind := regionStore(s.Addr)
		v := unconv(val)
		if kind == "" {
			// numbers of regions kept elsewhere
			if b, ok := s.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint16 && v.op == "wrap" {
				if _, field := s.Addr.(*ssa.FieldAddr); !field {
					fl.Report("wrap:"+fname(in.Parent()), fl.instrPos(in), "%s keeps %s, which may wrap; %s", fname(in.Parent()), v, fl.Path(st))
				}
			}
			return
		}
		if kind == "result" && v.op == "load" && v.a[0].op == "ia" {
			return
		}
		switch kind {
		case "sweep":
			c.Distinct("identifiers of sweeps", fname(in.Parent())+fl.instrPos(in))
		case "region", "max":
			c.Distinct("identifiers of regions", fname(in.Parent())+fl.instrPos(in))
		default:
			c.Distinct("region numbers written", fname(in.Parent())+fl.instrPos(in))
		}
		what := map[string]string{"span": "the region of a span", "sweep": "the identifier of a sweep", "nei": "the neighbour of a sweep", "region": "the identifier of a region",
			"max": "the number of regions", "result": "the region of a span"}[kind]
		bad := func(why string) {
			fl.Report(kind+":"+fname(in.Parent()), fl.instrPos(in), "%s sets %s to %s, which %s; %s", fname(in.Parent()), what, v, why, fl.Path(st))
		}
		if v.any(func(x *Term) bool { return x.op == "wrap" }) {
			bad("may wrap")
			return
		}
		if kind == "span" && v.isConst() && v.n > 0 && v.n < r.mark {
			bad("is a fixed number without the border mark")
			return
		}
		if below(fl, st, v) {
			return
		}
		field := ""
		if v.op == "load" && v.a[0].op == "fa" {
			field = v.a[0].aux
		}
		switch kind {
		case "span", "result":
			if v.op == "or" && v.a[1].isConst() && v.a[1].n&r.mark != 0 || v.isConst() && v.n > r.mark {
				return
			}
			if strings.HasSuffix(field, "recast.sweepSpan.id") || strings.HasSuffix(field, "recast.Region.ID") {
				return
			}
		case "sweep":
			if strings.HasSuffix(field, "recast.sweepSpan.id") || strings.HasSuffix(field, "recast.sweepSpan.nei") && st.facts.isNe(v, fl.tt.konst(r.noNei)) {
				return
			}
		case "nei":
			if v.isConst() && v.n == r.noNei || strings.HasSuffix(field, "recast.sweepSpan.nei") {
				return
			}
		case "region":
			if strings.HasSuffix(field, "recast.Region.ID") || st.facts.le(v, fl.tt.konst(r.mark+1), 0) {
				return // no more than there are regions
			}
		case "max":
			if st.facts.le(v, fl.tt.konst(r.mark), 0) {
				return
			}
		}
		lo, hi := st.facts.Range(v)
		bad(fmt.Sprintf("is between %d and %d and not known to be below the border mark %#x", lo, hi, r.mark))
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 4
	fl.thresholds = append([]int64{}, r.mark-1, r.mark)
	sort.Slice(fl.thresholds, func(i, j int) bool { return fl.thresholds[i] < fl.thresholds[j] })
	fl.Run(r.f, nil)
	fl.Finish(c, fname(r.f))
	if verbose {
		fmt.Println(fname(r.f), "steps", fl.steps)
	}
}
