package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libFuncs are the functions of the library packages, with a body.
func (p *Prog) libFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.srcFuncs {
		if isLibPkg(relPkg(funcPkg(f))) {
			r = append(r, f)
		}
	}
	return r
}

var terminators = map[string]bool{
	"os.Exit": true, "runtime.Goexit": true, "syscall.Exit": true, "syscall.Kill": true, "syscall.Exec": true,
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"(*os.Process).Kill": true, "(*os.Process).Signal": true,
}

func init() {
	register(&Check{
		ID:    "B01",
		Rule:  "in the functions of detour, recast and sample, no call, deferred call, goroutine or function value resolves (through wrappers and helpers of the module) to a function that ends the process: os.Exit, log.Fatal*, runtime.Goexit, syscall.Exit/Kill/Exec, Process.Kill.",
		Floor: []Floor{{"library functions", 250}, {"call sites", 1500}, {"process exits of the command line tool seen by the matcher", 3}},
		Run:   runB01,
	})
	register(&Check{
		ID:    "B02",
		Rule:  "every explicit panic (panic statement or log.Panic*) reachable in the call graph from an exported function of the libraries is one of the confirmed invariant checks: an undersized serialization buffer (panic guarded by a length comparison of the destination), or a query object with nil parts.",
		Floor: []Floor{{"library functions", 250}, {"explicit panics", 8}},
		Assum: []string{"call graph: class hierarchy analysis; explicit panics inside the standard library and the imported math packages are not considered"},
		Run:   runB02,
	})
}

func runB01(c *Ctx) {
	// Functions of the module that end the process, transitively, but only the
	// direct site is reported: a library function calling a terminating helper of
	// another package (e.g. the command package) is reported at the helper too.
	report := func(f *ssa.Function, callee *ssa.Function, in ssa.Instruction) {
		rel := relPkg(funcPkg(f))
		if isLibPkg(rel) {
			c.Violate(fmt.Sprintf("terminates:%s:%s", fname(f), qname(callee)), c.instrPos(in),
				"%s ends the process: it uses %s", fname(f), qname(callee))
		} else {
			c.Count("process exits of the command line tool seen by the matcher", 1)
		}
	}
	for _, f := range c.srcFuncs {
		lib := isLibPkg(relPkg(funcPkg(f)))
		if lib {
			c.Count("library functions", 1)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if lib {
						c.Count("call sites", 1)
					}
					if cal := call.Common().StaticCallee(); cal != nil {
						if terminators[qname(cal)] {
							report(f, cal, in)
						}
						continue
					}
				}
				// function values
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && terminators[qname(g)] {
						report(f, g, in)
					}
				}
			}
		}
	}
	// A library must not call into a package of the module that exits.
	g := c.callGraph()
	for _, f := range c.libFuncs() {
		n := g.Nodes[f]
		if n == nil {
			continue
		}
		for _, e := range n.Out {
			cal := e.Callee.Func
			if c.inModule(cal) && !isLibPkg(relPkg(funcPkg(cal))) && e.Site != nil && e.Site.Common().StaticCallee() == cal && terminates(c, cal, map[*ssa.Function]bool{}) {
				c.Violate(fmt.Sprintf("terminates:%s:%s", fname(f), fname(cal)), c.instrPos(e.Site), "%s calls %s, which ends the process", fname(f), fname(cal))
			}
		}
	}
}

func terminates(c *Ctx, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if terminators[qname(f)] {
		return true
	}
	if seen[f] || !c.inModule(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if cal := call.Common().StaticCallee(); cal != nil && terminates(c, cal, seen) {
					return true
				}
			}
		}
	}
	return false
}

func isPanicCall(in ssa.Instruction) bool {
	if call, ok := in.(ssa.CallInstruction); ok {
		switch qname(call.Common().StaticCallee()) {
		case "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
			return true
		}
	}
	return false
}

// exportedEntry tells whether users of the library can call f.
func exportedEntry(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil {
		return false
	}
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		return true
	}
	if !f.Object().Exported() {
		return false
	}
	if recv := f.Signature.Recv(); recv != nil {
		n := named(recv.Type())
		if n == nil {
			return true
		}
		// A method of an unexported type is reachable through an interface or
		// an exported function only; the call graph has these.
		return n.Obj().Exported()
	}
	return true
}

func runB02(c *Ctx) {
	g := c.callGraph()
	reach := map[*ssa.Function]*ssa.Function{} // function -> caller it was reached from
	var work []*ssa.Function
	for _, f := range c.libFuncs() {
		c.Count("library functions", 1)
		if exportedEntry(f) {
			reach[f] = nil
			work = append(work, f)
		}
	}
	c.Count("exported entry points", len(work))
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		var next []*ssa.Function
		if n := g.Nodes[f]; n != nil {
			for _, e := range n.Out {
				next = append(next, e.Callee.Func)
			}
		}
		next = append(next, f.AnonFuncs...)
		for _, h := range next {
			if _, ok := reach[h]; ok || !c.inModule(h) || !isLibPkg(relPkg(funcPkg(h))) {
				continue
			}
			reach[h] = f
			work = append(work, h)
		}
	}
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pan, ok := in.(*ssa.Panic)
				if !ok && !isPanicCall(in) {
					continue
				}
				if ok && !pan.Pos().IsValid() {
					continue // generated by the compiler, e.g. a select without cases
				}
				c.Count("explicit panics", 1)
				if why := invariantPanic(in); why != "" {
					c.Sample("%s %s: panic allowed (%s)", c.instrPos(in), fname(f), why)
					continue
				}
				var chain []string
				for h := f; h != nil; h = reach[h] {
					chain = append(chain, fname(h))
				}
				c.Violate("panic:"+fname(f), c.instrPos(in), "%s panics on purpose and users can reach it: %s", fname(f), strings.Join(chain, " <- "))
			}
		}
	}
}

// invariantPanic recognizes the confirmed invariant checks: the panic is reached
// only by a branch that compares the length of a byte slice parameter with a
// size (undersized buffer), or finds nil in a field of the query object.
func invariantPanic(in ssa.Instruction) string {
	b := in.Block()
	for depth := 0; depth < 4; depth++ {
		if len(b.Preds) != 1 {
			return ""
		}
		p := b.Preds[0]
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				return ""
			}
			if isLenOfBytesParam(cmp.X) || isLenOfBytesParam(cmp.Y) {
				return "undersized buffer"
			}
			for _, o := range []ssa.Value{cmp.X, cmp.Y} {
				if queryPart(o) && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
					return "query object without " + o.Type().String()
				}
			}
			return ""
		}
		b = p
	}
	return ""
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

func isLenOfBytesParam(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return false
	}
	pr, ok := call.Call.Args[0].(*ssa.Parameter)
	if !ok {
		return false
	}
	s, ok := pr.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	bt, ok := s.Elem().Underlying().(*types.Basic)
	// internal buffers only: the function must not be callable by users
	return ok && bt.Kind() == types.Uint8 && !exportedEntry(pr.Parent())
}

// queryPart: a pointer field of the query object, or of its sliced query state.
func queryPart(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	for a := u.X; ; {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if isNamed(fa.X.Type(), "detour", "NavMeshQuery") {
			return true
		}
		a = fa.X
	}
}
