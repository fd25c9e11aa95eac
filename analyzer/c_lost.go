package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "B07",
		Rule: "no function of the libraries (1) writes through a slice, map or pointer that is the parameter it was given on some paths and one of its own on others, unless the parameter was tested or the slice is returned; " +
			"(2) stores into a field or an element of a variable that holds a copy, or of an object of its own, none of which is read, passed on or stored afterwards; " +
			"(3) ignores the results of a function that does nothing but compute them.",
		Floor: []Floor{{"functions", 250}, {"stores into variables and new objects", 150}, {"calls of functions that only compute", 150}, {"writes through parameters", 100}},
		Assum: []string{"what is passed to a function, captured or stored is read"},
		Run:   runB07,
	})
}

type lost struct {
	c      *Ctx
	writes map[*ssa.Function]map[int]bool // parameters written through
	pure   map[*ssa.Function]bool
	fs     []*ssa.Function
	blank  map[token.Pos]bool
}

func runB07(c *Ctx) {
	l := newLost(c)
	for _, f := range l.fs {
		c.Count("functions", 1)
		l.params(f)
		l.stores(f)
		l.results(f)
	}
}

func newLost(c *Ctx) *lost {
	l := &lost{c: c, writes: map[*ssa.Function]map[int]bool{}, pure: map[*ssa.Function]bool{}}
	all := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || all[f] || f.Blocks == nil {
			return
		}
		all[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					add(call.Common().StaticCallee())
				}
			}
		}
	}
	var fs []*ssa.Function
	for _, f := range c.srcFuncs {
		if f.Synthetic == "" && f.Blocks != nil {
			fs = append(fs, f)
			add(f)
		}
	}
	// the parameters a function writes through
	for changed := true; changed; {
		changed = false
		for f := range all {
			for i, p := range f.Params {
				if !l.writes[f][i] && refType(p.Type()) && l.written(p, map[ssa.Value]bool{}) != nil {
					if l.writes[f] == nil {
						l.writes[f] = map[int]bool{}
					}
					l.writes[f][i] = true
					changed = true
				}
			}
		}
	}
	// functions that only compute: as long as nothing else is seen
	for f := range all {
		l.pure[f] = f.Signature.Results().Len() > 0 && f.Signature.Recv() == nil || f.Signature.Results().Len() > 0
	}
	for changed := true; changed; {
		changed = false
		for f := range all {
			if l.pure[f] && !l.computes(f) {
				l.pure[f] = false
				changed = true
			}
		}
	}
	l.fs = fs
	// results given to the blank identifier
	l.blank = map[token.Pos]bool{}
	for _, pkg := range c.pkgs {
		for _, file := range pkg.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok {
					return true
				}
				for _, lhs := range as.Lhs {
					if id, ok := lhs.(*ast.Ident); !ok || id.Name != "_" {
						return true
					}
				}
				for _, rhs := range as.Rhs {
					if call, ok := rhs.(*ast.CallExpr); ok {
						l.blank[call.Lparen] = true
					}
				}
				return true
			})
		}
	}
	return l
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	}
	return false
}

// written is an instruction that writes through v, or nil.
func (l *lost) written(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return x
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				return x
			}
		case *ssa.IndexAddr:
			if x.X == v {
				if w := l.written(x, seen); w != nil {
					return w
				}
			}
		case *ssa.FieldAddr:
			if w := l.written(x, seen); w != nil {
				return w
			}
		case *ssa.Slice:
			if x.X == v {
				if w := l.written(x, seen); w != nil {
					return w
				}
			}
		case *ssa.Phi:
			if w := l.written(x, seen); w != nil {
				return w
			}
		case *ssa.ChangeType:
			if w := l.written(x, seen); w != nil {
				return w
			}
		case *ssa.SliceToArrayPointer:
			if w := l.written(x, seen); w != nil {
				return w
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if (b.Name() == "copy" || b.Name() == "clear" || b.Name() == "delete") && len(cc.Args) > 0 && cc.Args[0] == v {
					return r
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				for i, a := range cc.Args {
					if a == v && l.writes[g][i] {
						return r
					}
				}
			}
		}
	}
	return nil
}

// fresh: v is memory of the function itself.
func (l *lost) fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
		return true
	case *ssa.Slice:
		return l.fresh(x.X)
	case *ssa.ChangeType:
		return l.fresh(x.X)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && l.pure[g] && newResult(g, map[*ssa.Function]bool{})
	}
	return false
}

// newResult: g returns new memory.
func newResult(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || g.Signature.Results().Len() != 1 {
		return false
	}
	seen[g] = true
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.Alloc:
			return x.Heap
		case *ssa.Slice:
			return is(x.X)
		case *ssa.ChangeType:
			return is(x.X)
		case *ssa.Call:
			h := x.Call.StaticCallee()
			return h != nil && newResult(h, seen)
		}
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if !is(ret.Results[0]) {
				return false
			}
		}
	}
	return n > 0
}

// params: rule 1.
func (l *lost) params(f *ssa.Function) {
	for _, p := range f.Params {
		if refType(p.Type()) && l.written(p, map[ssa.Value]bool{}) != nil {
			l.c.Count("writes through parameters", 1)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !refType(phi.Type()) {
				continue
			}
			var par *ssa.Parameter
			var own ssa.Value
			var from *ssa.BasicBlock
			for i, e := range phi.Edges {
				switch x := e.(type) {
				case *ssa.Parameter:
					par = x
				default:
					if l.fresh(e) {
						own, from = e, b.Preds[i]
					}
				}
			}
			if par == nil || own == nil || l.tested(par, from) || l.returned(phi, map[ssa.Value]bool{}) {
				continue
			}
			if w := l.written(phi, map[ssa.Value]bool{}); w != nil {
				l.c.Violate("parameter:"+fname(f)+":"+strconv.Itoa(numberOf(par)), l.c.instrPos(w),
					"%s writes here through %s, which is the parameter on some paths, and new memory of the function (%s) on others: the caller does not get what is written then", fname(f), par.Name(), l.c.pos(own.Pos()))
			}
		}
	}
}

// tested: the block is only reached after a test of p or its length.
func (l *lost) tested(p ssa.Value, b *ssa.BasicBlock) bool {
	var about func(v ssa.Value, d int) bool
	about = func(v ssa.Value, d int) bool {
		if v == p {
			return true
		}
		if d > 3 {
			return false
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			return about(x.X, d+1) || about(x.Y, d+1)
		case *ssa.UnOp:
			return x.Op == token.NOT && about(x.X, d+1)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				return about(x.Call.Args[0], d+1)
			}
		case *ssa.Convert:
			return about(x.X, d+1)
		}
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && d != b && about(iff.Cond, 0) {
			return true
		}
	}
	return false
}

// returned: v, or what it becomes, is returned or stored.
func (l *lost) returned(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.Phi:
			if l.returned(x, seen) {
				return true
			}
		case *ssa.Slice:
			if l.returned(x, seen) {
				return true
			}
		case *ssa.ChangeType:
			if l.returned(x, seen) {
				return true
			}
		case *ssa.MakeInterface:
			if l.returned(x, seen) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && l.returned(x, seen) {
				return true
			}
		}
	}
	return false
}

// stores: rule 2.
func (l *lost) stores(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			case *ssa.Call:
				if !refType(x.Type()) || !l.fresh(x) {
					continue
				}
			default:
				continue
			}
			u := &uses{l: l}
			u.of(v, nil, map[ssa.Value]bool{})
			for _, s := range u.stores {
				l.c.Count("stores into variables and new objects", 1)
				if u.escapes || s.path == nil || !l.update(u, s) {
					continue
				}
				read := false
				for _, r := range u.reads {
					if pathsOverlap(r.path, s.path) && mayFollow(s.at, r.at) {
						read = true
						break
					}
				}
				if !read {
					l.c.Violate("store:"+fname(f)+":"+v.Name(), l.c.instrPos(s.at), "what %s stores here, in %s, is never read, passed on or kept: the update is lost", fname(f), describe(v))
				}
			}
		}
	}
}

// update: the store is more than the initialization of a variable.
func (l *lost) update(u *uses, s use) bool {
	if st, ok := s.at.(*ssa.Store); ok {
		if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
			return false // let go
		} else if ok && k.Value.ExactString() == "0" {
			for _, o := range u.stores {
				if o.at != s.at && pathsOverlap(o.path, s.path) && mayFollow(o.at, s.at) {
					return true
				}
			}
			return false
		}
	}
	return true
}

func describe(v ssa.Value) string {
	if a, ok := v.(*ssa.Alloc); ok {
		if a.Comment != "" {
			return "the variable " + a.Comment
		}
	}
	return "an object of its own"
}

type use struct {
	at   ssa.Instruction
	path []int // fields; -1: an element
}

type uses struct {
	l       *lost
	stores  []use
	reads   []use
	escapes bool
}

func (u *uses) of(v ssa.Value, path []int, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				u.escapes = true
			} else {
				u.stores = append(u.stores, use{x, path})
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				u.reads = append(u.reads, use{x, path})
			} else {
				u.escapes = true
			}
		case *ssa.FieldAddr:
			u.of(x, append(append([]int{}, path...), x.Field), seen)
		case *ssa.IndexAddr:
			if x.X == v {
				u.of(x, append(append([]int{}, path...), -1), seen)
			}
		case *ssa.Slice:
			if x.X == v {
				u.of(x, path, seen)
			}
		case *ssa.ChangeType:
			u.of(x, path, seen)
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy":
					if x.Call.Args[0] == v {
						u.stores = append(u.stores, use{x, append(append([]int{}, path...), -1)})
					}
					if x.Call.Args[1] == v {
						u.reads = append(u.reads, use{x, path})
					}
					continue
				case "len", "cap":
					continue
				}
			}
			if g := x.Call.StaticCallee(); g != nil && u.l.pure[g] && refType(v.Type()) {
				u.reads = append(u.reads, use{x, path})
				if !noRefs(g) {
					u.escapes = true
				}
				continue
			}
			u.escapes = true
		default:
			u.escapes = true
		}
	}
}

// noRefs: g returns no reference.
func noRefs(g *ssa.Function) bool {
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if _, ok := rs.At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func pathsOverlap(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mayFollow: b may be executed after a.
func mayFollow(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block())
}

// computes: f does nothing but compute its results.
func (l *lost) computes(f *ssa.Function) bool {
	if len(l.writes[f]) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !l.local(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !l.local(x.Map) {
					return false
				}
			case *ssa.Panic, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append", "min", "max", "real", "imag", "complex":
					case "copy":
						if !l.local(x.Call.Args[0]) {
							return false
						}
					default:
						return false
					}
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil {
					return false
				}
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "math" {
					continue
				}
				if !l.pure[g] {
					// it may write what is local here
					if len(l.writes[g]) == 0 || !l.localEffects(g) {
						return false
					}
					for i := range l.writes[g] {
						if i >= len(x.Call.Args) || !l.local(x.Call.Args[i]) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// localEffects: all g does is write through its parameters.
func (l *lost) localEffects(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !l.local(x.Addr) && !paramRoot(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Panic, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "copy" {
						return false
					}
					continue
				}
				h := x.Call.StaticCallee()
				if h == nil || !l.pure[h] && !(h.Pkg != nil && h.Pkg.Pkg.Path() == "math") {
					return false
				}
			}
		}
	}
	return true
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func paramRoot(v ssa.Value) bool {
	_, ok := addrRoot(v).(*ssa.Parameter)
	return ok
}

// local: v is memory of the function itself.
func (l *lost) local(v ssa.Value) bool {
	switch x := addrRoot(v).(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && newResult(g, map[*ssa.Function]bool{})
	}
	return false
}

// results: rule 3.
func (l *lost) results(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !l.pure[g] {
				continue
			}
			l.c.Count("calls of functions that only compute", 1)
			used := false
			for _, r := range *call.Referrers() {
				if _, ok := r.(*ssa.DebugRef); !ok {
					used = true
				}
			}
			if !used && !l.blank[call.Pos()] {
				l.c.Violate("result:"+fname(f)+":"+fname(g), l.c.instrPos(call), "%s ignores the result of %s, which does nothing else than compute it", fname(f), fname(g))
			}
		}
	}
}

func numberOf(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}
