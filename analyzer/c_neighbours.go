package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "K01",
		Rule: "in every function of recast that reads connections of compact spans (helpers that leave the test to their callers analysed in them), a connection is only added to the index of the first span of a cell when it is known on the path that it exists, for the cell next to that of the span in the direction of the connection; " +
			"every connection that is set is none, or the number of a span in the cell next to that of the span in the direction it is set for, below the mark for none.",
		Floor: []Floor{{"functions reading connections", 9}, {"neighbours looked up", 16}, {"connections set", 2}},
		Assum: []string{"connections do not change once the compact heightfield is built"},
		Run:   runK01,
	})
}

func runK01(c *Ctx) {
	getCon, setCon := c.fn("recast", "GetCon"), c.fn("recast", "SetCon")
	offX, offY := c.fn("recast", "GetDirOffsetX"), c.fn("recast", "GetDirOffsetY")
	none := c.constVal("recast", "notConnected")
	if getCon == nil || setCon == nil || offX == nil || offY == nil {
		return
	}
	var readers []*ssa.Function
	for _, f := range c.srcFuncs {
		if f.Synthetic == "" && (callsFn(f, getCon) || callsFn(f, setCon)) {
			readers = append(readers, f)
		}
	}
	// helpers that leave the test to their callers, and their callers
	inline := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	for round := 0; round < 6; round++ {
		var todo []*ssa.Function
		for _, f := range readers {
			if !done[f] {
				todo = append(todo, f)
			}
		}
		if len(todo) == 0 {
			return
		}
		var mu sync.Mutex
		var next []*ssa.Function
		c.Parallel(len(todo), func(i int) {
			f := todo[i]
			n := &neighbours{c: c, f: f, getCon: getCon, setCon: setCon, offX: offX, offY: offY, none: none, inline: inline}
			open := n.run()
			mu.Lock()
			defer mu.Unlock()
			if open {
				next = append(next, f)
			}
		})
		for _, f := range todo {
			done[f] = true
		}
		for _, f := range next {
			inline[f] = true
			for _, g := range c.srcFuncs {
				if g.Synthetic == "" && callsFn(g, f) {
					delete(done, g)
					known := false
					for _, r := range readers {
						known = known || r == g
					}
					if !known {
						readers = append(readers, g)
					}
				}
			}
		}
	}
	c.Undecided("helpers", "", "helpers reading connections call each other too deeply")
}

type neighbours struct {
	c                          *Ctx
	f                          *ssa.Function
	getCon, setCon, offX, offY *ssa.Function
	none                       int64
	inline                     map[*ssa.Function]bool
	fl                         *Flow
}

// poly is a number as a sum of products.
func (n *neighbours) poly(t *Term) lpoly {
	switch t.op {
	case "const":
		return lint(t.n)
	case "lin":
		r := lint(t.n)
		for i, x := range t.a {
			r = r.add(n.poly(x), t.coef[i])
		}
		return r
	case "mul":
		return n.poly(t.a[0]).mul(n.poly(t.a[1]))
	case "conv":
		return n.poly(t.a[0])
	}
	if t.op == "offx" || t.op == "offy" {
		return latom(t.op + "(" + n.poly(t.a[0]).String() + ")")
	}
	return latom(t.String())
}

// firstOf is the index of the cell t is the index of the first span of.
func firstOf(t *Term) *Term {
	for t.op == "conv" {
		t = t.a[0]
	}
	if t.op == "load" && t.a[0].op == "fa" && strings.HasSuffix(t.a[0].aux, "recast.CompactCell.Index") && t.a[0].a[0].op == "ia" {
		return t.a[0].a[0].a[1]
	}
	return nil
}

func unconv(t *Term) *Term {
	for t.op == "conv" {
		t = t.a[0]
	}
	return t
}

// split takes the connection from an index.
func (n *neighbours) split(t *Term) (con *Term, rest linForm, k int64) {
	l := linOf(unconv(t))
	for _, x := range l.terms() {
		if y := unconv(x); y.op == "con" {
			return y, l.add(linOf(x), -l.m[x]), l.m[x]
		}
	}
	return nil, l, 0
}

// beyond: the cell with the index p is next to q in the direction d.
func (n *neighbours) beyond(st *State, p *Term, span, d *Term) string {
	x, y := "offx("+n.poly(d).String()+")", "offy("+n.poly(d).String()+")"
	full := n.poly(p)
	var w string
	okX := false
	for m, k := range full {
		if k.Cmp(big.NewRat(1, 1)) != 0 {
			continue
		}
		e := unmono(m)
		switch {
		case len(e) == 1 && e[x] == 1:
			okX = true
		case len(e) == 2 && e[y] == 1:
			for a, k := range e {
				if a != y && k == 1 {
					w = a
				}
			}
		}
	}
	if !okX || w == "" {
		return fmt.Sprintf("the cell %s is not the one in the direction %s", full, d)
	}
	q := full.add(latom(x), -1).add(latom(y).mul(latom(w)), -1)
	// the cell of the span the connection is of
	if span.op == "ia" {
		if con, rest, _ := n.split(span.a[1]); con != nil && len(rest.m) == 1 && rest.k == 0 {
			if q0 := firstOf(rest.terms()[0]); q0 != nil {
				if p0 := n.poly(q0); !q.eq(p0) {
					return fmt.Sprintf("the cell %s is not next to the cell %s of the span", full, p0)
				}
				return ""
			}
		}
		for _, first := range n.fl.tt.list {
			if first.op == "load" && firstOf(first) != nil && st.facts.le(first, span.a[1], 0) {
				if p0 := n.poly(firstOf(first)); !q.eq(p0) {
					return fmt.Sprintf("the cell %s is not next to the cell %s of the span", full, p0)
				}
				return ""
			}
		}
	}
	if strings.Contains(q.String(), "off") {
		return fmt.Sprintf("the cell %s is not next to that of the span", full)
	}
	return ""
}

// run reports false uses of connections; those that depend on the callers are left to them.
func (n *neighbours) run() (open bool) {
	c, f := n.c, n.f
	entry := exportedEntry(f) || len(staticCallers(c, f)) == 0
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return n.inline[g] || c.simpleFn(g) }
	given := func(t *Term) bool { // what the connection is of was given to f
		return !t.any(func(x *Term) bool { return x.op == "sym" && strings.Contains(x.aux, "@") })
	}
	fail := func(st *State, in ssa.Instruction, con *Term, what string) {
		if !entry && given(con) {
			n.fl.Report("open", "", "")
			return
		}
		n.fl.Report("neighbour:"+fname(f)+":"+n.fl.instrPos(in), n.fl.instrPos(in), "%s: %s; %s", fname(f), what, n.fl.Path(st))
	}
	use := func(fl *Flow, st *State, in ssa.Instruction, t *Term) {
		if t == nil || t.typ != nil && !isIntType(t.typ) {
			return
		}
		con, rest, k := n.split(t)
		if con == nil {
			return
		}
		cell := (*Term)(nil)
		for _, x := range rest.terms() {
			if p := firstOf(x); p != nil {
				cell = p
			}
		}
		if cell == nil {
			return // not an index
		}
		c.Distinct("neighbours looked up", fname(f)+fl.instrPos(in))
		if !st.facts.isNe(con, fl.tt.konst(n.none)) {
			fail(st, in, con, fmt.Sprintf("the connection in the direction %s is used as the number of a span without being known to exist", con.a[1]))
			return
		}
		if k != 1 || len(rest.m) != 1 || rest.k != 0 || rest.m[rest.terms()[0]] != 1 {
			fail(st, in, con, fmt.Sprintf("%s is not the first span of a cell and the connection in the direction %s", t, con.a[1]))
			return
		}
		if bad := n.beyond(st, cell, con.a[0], con.a[1]); bad != "" {
			fail(st, in, con, bad)
		}
	}
	cl.Index = func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) { use(fl, st, in, idx) }
	cl.Phi = func(fl *Flow, st *State, phi *ssa.Phi, val *Term) { use(fl, st, phi, val) }
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) { use(fl, st, in, val) }
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		for _, r := range res {
			use(fl, st, in, r)
		}
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		v, _ := in.(ssa.Value)
		switch callee {
		case nil:
			return nil, false
		case n.getCon:
			c.Distinct("functions reading connections", fname(f))
			t := fl.tt.mk("con", v.Type(), 0, "", nil, nil, args[0], args[1])
			st.facts.assumeLe(fl.tt.konst(0), t, 0)
			st.facts.assumeLe(t, fl.tt.konst(n.none), 0)
			return []Outcome{{st, []*Term{t}}}, true
		case n.offX, n.offY:
			op := "offx"
			if callee == n.offY {
				op = "offy"
			}
			t := fl.tt.mk(op, v.Type(), 0, "", nil, nil, args[0])
			st.facts.assumeLe(fl.tt.konst(-1), t, 0)
			st.facts.assumeLe(t, fl.tt.konst(1), 0)
			return []Outcome{{st, []*Term{t}}}, true
		case n.setCon:
			n.set(st, in, args)
			return []Outcome{{st, nil}}, true
		}
		for _, a := range args {
			if !cl.Inline(fl, callee) {
				use(fl, st, in, a)
			}
		}
		return nil, false
	}
	fl := newFlow(c.Prog, cl)
	n.fl = fl
	fl.K = 6
	fl.Run(f, nil)
	var found []flowFinding
	for _, x := range fl.found {
		if x.key == "open" {
			open = true
		} else {
			found = append(found, x)
		}
	}
	fl.found = found
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Println(fname(f), "steps", fl.steps, "open", open)
	}
	return open
}

// set checks a connection that is set.
func (n *neighbours) set(st *State, in ssa.CallInstruction, args []*Term) {
	c, fl := n.c, n.fl
	c.Distinct("connections set", fname(n.f)+fl.instrPos(in))
	v := args[2]
	if v.isConst() && v.n == n.none {
		return
	}
	if !st.facts.le(fl.tt.konst(0), v, 0) || !st.facts.le(v, fl.tt.konst(n.none), 1) {
		fl.Report("set:"+fname(n.f)+":range", fl.instrPos(in), "%s may set a connection to %s, which is not between 0 and %d; %s", fname(n.f), v, n.none-1, fl.Path(st))
	}
	l := linOf(unconv(v))
	var cell *Term
	for _, x := range l.terms() {
		if p := firstOf(x); p != nil && l.m[x] == -1 {
			cell = p
		}
	}
	if cell == nil || len(l.m) != 2 || l.k != 0 {
		fl.Report("set:"+fname(n.f)+":number", fl.instrPos(in), "%s sets a connection to %s, which is not the number of a span in its cell; %s", fname(n.f), v, fl.Path(st))
		return
	}
	if bad := n.beyond(st, cell, args[0], args[1]); bad != "" {
		fl.Report("set:"+fname(n.f)+":cell", fl.instrPos(in), "%s sets a connection to a span elsewhere: %s; %s", fname(n.f), bad, fl.Path(st))
	}
}

func staticCallers(c *Ctx, f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, g := range c.srcFuncs {
		if g.Synthetic == "" && callsFn(g, f) {
			r = append(r, g)
		}
	}
	return r
}

func callsFn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}
