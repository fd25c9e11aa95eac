package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The effects engine computes, for one root function, which memory it may
// write and what may point where: an inclusion-based, field-sensitive pointer
// analysis in which every call site has its own copy of the callee (calls in a
// cycle are merged), so that a helper is judged by what each caller gives it.

// A object is a piece of memory: an allocation, a global, or memory that
// existed before the call, reached from a parameter (external).
type object struct {
	id     int
	kind   string // alloc, global, ext, box, closure, func
	typ    types.Type
	label  string // for external objects, the access path from the parameter
	root   string // name of the parameter or global an external object is reached from
	parent *object
	via    string
	fn     *ssa.Function
	binds  []pvalue
	pos    token.Pos
	kids   map[string]*object
}

// under tells whether o is, or is reached through, an object of the named type.
func (o *object) under(names map[string]bool) bool {
	for ; o != nil; o = o.parent {
		t := o.typ
		switch u := t.(type) {
		case *types.Slice:
			t = u.Elem()
		case *types.Pointer:
			t = u.Elem()
		}
		if n, ok := t.(*types.Named); ok && names[n.Obj().Name()] {
			return true
		}
	}
	return false
}

// A aloc is an address: a position in an object.
type aloc struct {
	o    *object
	path string
}

func (l aloc) String() string { return l.o.label + l.path }

type ptset map[aloc]bool

// A pvalue maps the pointer-like parts of a value to what they may point to.
type pvalue map[string]ptset

type einst struct {
	f      *ssa.Function
	parent *einst
	site   ssa.Instruction
	vals   map[ssa.Value]pvalue
	kids   map[string]*einst
	ret    []pvalue
	depth  int
}

// An effect is a write to memory.
type effect struct {
	loc  aloc
	at   ssa.Instruction
	in   *einst
	what string
}

type effects struct {
	c        *Ctx
	root     *ssa.Function
	top      *einst
	insts    []*einst
	objs     int
	allocs   map[string]*object
	globals  map[*ssa.Global]*object
	funcs    map[*ssa.Function]*object
	content  map[aloc]ptset
	extTypes map[aloc]types.Type
	writes   map[string]effect
	changed  bool
	unknown  map[string]token.Pos
	calls    int
	leafMemo map[types.Type][]leaf
	params   []*object
}

type leaf struct {
	path string
	typ  types.Type
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (e *effects) leaves(t types.Type) []leaf {
	if l, ok := e.leafMemo[t]; ok {
		return l
	}
	var out []leaf
	var rec func(t types.Type, p string)
	rec = func(t types.Type, p string) {
		if pointerLike(t) {
			out = append(out, leaf{p, t})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), p+"."+u.Field(i).Name())
			}
		case *types.Array:
			rec(u.Elem(), p+"[]")
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type(), fmt.Sprintf("%s#%d", p, i))
			}
		}
	}
	rec(t, "")
	e.leafMemo[t] = out
	return out
}

func (e *effects) newObject(kind string, t types.Type, label string) *object {
	e.objs++
	return &object{id: e.objs, kind: kind, typ: t, label: label, kids: map[string]*object{}}
}

// pointee is where a pointer-like value of type t that refers to object o points.
func pointee(o *object, t types.Type) aloc {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return aloc{o, "[]"}
	}
	return aloc{o, ""}
}

// child is the external object that the pointer-like part of type t at l refers to.
func (e *effects) child(l aloc, t types.Type) aloc {
	key := l.path + "|" + t.String()
	if k := l.o.kids[key]; k != nil {
		return pointee(k, t)
	}
	for a := l.o; a != nil; a = a.parent {
		if a.typ != nil && types.Identical(a.typ, t) && a.kind == "ext" {
			l.o.kids[key] = a
			return pointee(a, t)
		}
	}
	k := e.newObject("ext", t, l.o.label+l.path)
	k.root, k.parent, k.via = l.o.root, l.o, l.path
	if k.root == "" {
		k.root = l.o.label
	}
	l.o.kids[key] = k
	return pointee(k, t)
}

func (e *effects) get(l aloc) ptset { return e.content[l] }

func (e *effects) addTo(s ptset, from ptset) {
	for l := range from {
		if !s[l] {
			s[l] = true
			e.changed = true
		}
	}
}

func (e *effects) addContent(l aloc, from ptset) {
	if len(from) == 0 {
		return
	}
	s := e.content[l]
	if s == nil {
		s = ptset{}
		e.content[l] = s
	}
	e.addTo(s, from)
}

// loadLeaf is what the pointer-like part of type t at l may point to.
func (e *effects) loadLeaf(l aloc, t types.Type) ptset {
	s := e.content[l]
	if l.o.kind == "ext" || l.o.kind == "global" {
		k := e.child(l, t)
		if !s[k] {
			if s == nil {
				s = ptset{}
				e.content[l] = s
			}
			s[k] = true
			e.changed = true
		}
	}
	return s
}

func (e *effects) set(in *einst, v ssa.Value, sub string, from ptset) {
	if len(from) == 0 {
		return
	}
	pv := in.vals[v]
	if pv == nil {
		pv = pvalue{}
		in.vals[v] = pv
	}
	s := pv[sub]
	if s == nil {
		s = ptset{}
		pv[sub] = s
	}
	e.addTo(s, from)
}

func (e *effects) setAll(in *einst, v ssa.Value, from pvalue) {
	for sub, s := range from {
		e.set(in, v, sub, s)
	}
}

func (e *effects) val(in *einst, v ssa.Value) pvalue {
	switch x := v.(type) {
	case *ssa.Global:
		o := e.globals[x]
		if o == nil {
			o = e.newObject("global", x.Type(), x.String())
			o.root = x.String()
			e.globals[x] = o
		}
		return pvalue{"": ptset{aloc{o, ""}: true}}
	case *ssa.Function:
		o := e.funcs[x]
		if o == nil {
			o = e.newObject("func", x.Type(), x.String())
			o.fn = x
			e.funcs[x] = o
		}
		return pvalue{"": ptset{aloc{o, ""}: true}}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	return in.vals[v]
}

func (e *effects) pts(in *einst, v ssa.Value) ptset { return e.val(in, v)[""] }

func (e *effects) alloc(in *einst, at ssa.Instruction, kind string, t types.Type) *object {
	key := fmt.Sprintf("%p/%p/%s/%s", in, at, kind, t)
	o := e.allocs[key]
	if o == nil {
		o = e.newObject(kind, t, fmt.Sprintf("%s in %s", kind, fname(in.f)))
		o.pos = at.Pos()
		e.allocs[key] = o
	}
	return o
}

func (e *effects) write(in *einst, at ssa.Instruction, l aloc, what string) {
	if l.o.kind != "ext" && l.o.kind != "global" {
		return
	}
	key := fmt.Sprintf("%d/%s/%s", l.o.id, l.path, e.c.instrPos(at))
	if _, ok := e.writes[key]; !ok {
		e.writes[key] = effect{l, at, in, what}
	}
}

func newEffects(c *Ctx, root *ssa.Function) *effects {
	e := &effects{c: c, root: root, allocs: map[string]*object{}, globals: map[*ssa.Global]*object{}, funcs: map[*ssa.Function]*object{},
		content: map[aloc]ptset{}, writes: map[string]effect{}, unknown: map[string]token.Pos{}, leafMemo: map[types.Type][]leaf{}}
	e.top = &einst{f: root, vals: map[ssa.Value]pvalue{}, kids: map[string]*einst{}}
	e.insts = append(e.insts, e.top)
	for i, p := range root.Params {
		o := e.newObject("ext", nil, fmt.Sprintf("$%d", i))
		name := p.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		o.label, o.root = name, name
		e.params = append(e.params, o)
		for _, l := range e.leaves(p.Type()) {
			k := e.child(aloc{o, l.path}, l.typ)
			e.set(e.top, p, l.path, ptset{k: true})
		}
	}
	for round := 0; ; round++ {
		e.changed = false
		for i := 0; i < len(e.insts); i++ {
			e.process(e.insts[i])
		}
		if !e.changed {
			break
		}
		if round > 400 || len(e.insts) > 60000 {
			e.unknown["no fixpoint"] = root.Pos()
			break
		}
	}
	return e
}

func subOf(pv pvalue, prefix string) pvalue {
	out := pvalue{}
	for p, s := range pv {
		if strings.HasPrefix(p, prefix) {
			r := p[len(prefix):]
			if r == "" || r[0] == '.' || r[0] == '[' {
				out[r] = s
			}
		}
	}
	return out
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *effects) process(in *einst) {
	for _, b := range in.f.Blocks {
		for _, i := range b.Instrs {
			e.instr(in, i)
		}
	}
}

func effField(t types.Type, i int) string {
	return derefT(t).Underlying().(*types.Struct).Field(i).Name()
}

func (e *effects) instr(in *einst, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Alloc:
		e.set(in, x, "", ptset{aloc{e.alloc(in, x, "alloc", x.Type()), ""}: true})
	case *ssa.MakeSlice:
		e.set(in, x, "", ptset{aloc{e.alloc(in, x, "alloc", x.Type()), "[]"}: true})
	case *ssa.MakeMap:
		e.set(in, x, "", ptset{aloc{e.alloc(in, x, "alloc", x.Type()), ""}: true})
	case *ssa.MakeChan:
		e.set(in, x, "", ptset{aloc{e.alloc(in, x, "alloc", x.Type()), ""}: true})
	case *ssa.MakeInterface:
		o := e.alloc(in, x, "box", x.X.Type())
		for p, s := range e.val(in, x.X) {
			e.addContent(aloc{o, p}, s)
		}
		e.set(in, x, "", ptset{aloc{o, ""}: true})
	case *ssa.MakeClosure:
		o := e.alloc(in, x, "closure", x.Type())
		o.fn = x.Fn.(*ssa.Function)
		for len(o.binds) < len(x.Bindings) {
			o.binds = append(o.binds, pvalue{})
		}
		for k, b := range x.Bindings {
			for p, s := range e.val(in, b) {
				if o.binds[k][p] == nil {
					o.binds[k][p] = ptset{}
				}
				e.addTo(o.binds[k][p], s)
			}
		}
		e.set(in, x, "", ptset{aloc{o, ""}: true})
	case *ssa.FieldAddr:
		n := "." + effField(x.X.Type(), x.Field)
		for l := range e.pts(in, x.X) {
			e.set(in, x, "", ptset{aloc{l.o, l.path + n}: true})
		}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			for l := range e.pts(in, x.X) {
				e.set(in, x, "", ptset{aloc{l.o, l.path + "[]"}: true})
			}
			return
		}
		e.set(in, x, "", e.pts(in, x.X))
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			for l := range e.pts(in, x.X) {
				e.set(in, x, "", ptset{aloc{l.o, l.path + "[]"}: true})
			}
			return
		}
		e.set(in, x, "", e.pts(in, x.X))
	case *ssa.Field:
		e.setAll(in, x, subOf(e.val(in, x.X), "."+effField(x.X.Type(), x.Field)))
	case *ssa.Index:
		e.setAll(in, x, subOf(e.val(in, x.X), "[]"))
	case *ssa.Extract:
		e.setAll(in, x, subOf(e.val(in, x.Tuple), fmt.Sprintf("#%d", x.Index)))
	case *ssa.Phi:
		for _, v := range x.Edges {
			e.setAll(in, x, e.val(in, v))
		}
	case *ssa.ChangeType:
		e.setAll(in, x, e.val(in, x.X))
	case *ssa.ChangeInterface:
		e.setAll(in, x, e.val(in, x.X))
	case *ssa.Convert:
		e.setAll(in, x, e.val(in, x.X))
		if pointerLike(x.Type()) && !pointerLike(x.X.Type()) { // string to bytes
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				e.unknown["pointer made from an integer"] = x.Pos()
			}
			e.set(in, x, "", ptset{pointee(e.alloc(in, x, "alloc", x.Type()), x.Type()): true})
		}
	case *ssa.SliceToArrayPointer:
		for l := range e.pts(in, x.X) {
			e.set(in, x, "", ptset{aloc{l.o, strings.TrimSuffix(l.path, "[]")}: true})
		}
	case *ssa.TypeAssert:
		sub := ""
		if x.CommaOk {
			sub = "#0"
		}
		for l := range e.pts(in, x.X) {
			if types.IsInterface(x.AssertedType) {
				e.set(in, x, sub, ptset{l: true})
				continue
			}
			for p, s := range e.unbox(l, x.AssertedType) {
				e.set(in, x, sub+p, s)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for l := range e.pts(in, x.X) {
				for _, lf := range e.leaves(x.Type()) {
					e.set(in, x, lf.path, e.loadLeaf(aloc{l.o, l.path + lf.path}, lf.typ))
				}
			}
		} else if x.Op == token.ARROW {
			e.unknown["channel"] = x.Pos()
		}
	case *ssa.Store:
		v := e.val(in, x.Val)
		for l := range e.pts(in, x.Addr) {
			e.write(in, x, l, "store")
			for p, s := range v {
				e.addContent(aloc{l.o, l.path + p}, s)
			}
		}
	case *ssa.MapUpdate:
		for l := range e.pts(in, x.Map) {
			e.write(in, x, l, "map update")
			for p, s := range e.val(in, x.Value) {
				e.addContent(aloc{l.o, l.path + "[v]" + p}, s)
			}
			for p, s := range e.val(in, x.Key) {
				e.addContent(aloc{l.o, l.path + "[k]" + p}, s)
			}
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			sub := ""
			if x.CommaOk {
				sub = "#0"
			}
			for l := range e.pts(in, x.X) {
				for _, lf := range e.leaves(m.Elem()) {
					e.set(in, x, sub+lf.path, e.loadLeaf(aloc{l.o, l.path + "[v]" + lf.path}, lf.typ))
				}
			}
		}
	case *ssa.Range:
		e.setAll(in, x, e.val(in, x.X))
	case *ssa.Next:
		if !x.IsString {
			m, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			if ok {
				for l := range e.pts(in, x.Iter) {
					for _, lf := range e.leaves(m.Key()) {
						e.set(in, x, "#1"+lf.path, e.loadLeaf(aloc{l.o, l.path + "[k]" + lf.path}, lf.typ))
					}
					for _, lf := range e.leaves(m.Elem()) {
						e.set(in, x, "#2"+lf.path, e.loadLeaf(aloc{l.o, l.path + "[v]" + lf.path}, lf.typ))
					}
				}
			}
		}
	case *ssa.Call:
		e.call(in, x, &x.Call, x)
	case *ssa.Defer:
		e.call(in, x, &x.Call, nil)
	case *ssa.Go:
		e.call(in, x, &x.Call, nil)
	case *ssa.Return:
		for len(in.ret) < len(x.Results) {
			in.ret = append(in.ret, pvalue{})
		}
		for k, r := range x.Results {
			for p, s := range e.val(in, r) {
				if in.ret[k][p] == nil {
					in.ret[k][p] = ptset{}
				}
				e.addTo(in.ret[k][p], s)
			}
		}
	case *ssa.Send, *ssa.Select:
		e.unknown["channel"] = i.Pos()
	}
}

// unbox is the value of the concrete type t in the interface value l.
func (e *effects) unbox(l aloc, t types.Type) pvalue {
	out := pvalue{}
	switch l.o.kind {
	case "box":
		if types.Identical(l.o.typ, t) {
			for _, lf := range e.leaves(t) {
				if s := e.get(aloc{l.o, lf.path}); len(s) > 0 {
					out[lf.path] = s
				}
			}
		}
	case "ext":
		for _, lf := range e.leaves(t) {
			out[lf.path] = ptset{e.child(aloc{l.o, l.path + lf.path}, lf.typ): true}
		}
	case "alloc": // result of an unknown function
		for _, lf := range e.leaves(t) {
			out[lf.path] = ptset{pointee(l.o, lf.typ): true}
		}
	}
	return out
}

func (e *effects) descend(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	pk := funcPkg(f)
	if pk == nil {
		return true
	}
	return strings.HasPrefix(pk.Path(), "github.com/arl/")
}

func (e *effects) instance(in *einst, at ssa.Instruction, f *ssa.Function) *einst {
	for a := in; a != nil; a = a.parent {
		if a.f == f {
			return a
		}
	}
	key := fmt.Sprintf("%p/%p", at, f)
	k := in.kids[key]
	if k == nil {
		k = &einst{f: f, parent: in, site: at, vals: map[ssa.Value]pvalue{}, kids: map[string]*einst{}, depth: in.depth + 1}
		in.kids[key] = k
		e.insts = append(e.insts, k)
		e.changed = true
	}
	return k
}

func (e *effects) enter(in *einst, at ssa.Instruction, f *ssa.Function, args []pvalue, binds []pvalue, res ssa.Value) {
	if !e.descend(f) {
		e.external(in, at, f, args, res)
		return
	}
	e.calls++
	k := e.instance(in, at, f)
	for i, p := range f.Params {
		if i < len(args) {
			e.setAll(k, p, args[i])
		}
	}
	for i, fv := range f.FreeVars {
		if i < len(binds) {
			e.setAll(k, fv, binds[i])
		}
	}
	if res != nil {
		for i, r := range k.ret {
			pre := ""
			if _, ok := res.Type().(*types.Tuple); ok {
				pre = fmt.Sprintf("#%d", i)
			}
			for p, s := range r {
				e.set(in, res, pre+p, s)
			}
		}
	}
}

// writers tells which arguments a function outside of the analysed code writes.
func writers(f string) (args []int, deep bool) {
	switch f {
	case "encoding/binary.Read":
		return []int{2}, true
	case "io.ReadFull", "io.ReadAtLeast":
		return []int{1}, false
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Float64s", "sort.Strings",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		return []int{0}, false
	}
	i := strings.LastIndex(f, ".")
	n := f[i+1:]
	switch {
	case strings.HasPrefix(n, "PutUint"):
		return []int{0, 1}, false
	case n == "Unmarshal":
		return []int{1}, true
	case n == "Decode" || n == "Read" || n == "ReadAt":
		return []int{1}, true
	case strings.HasPrefix(n, "Scan") || strings.HasPrefix(n, "Fscan") || strings.HasPrefix(n, "Sscan"):
		return []int{0, 1, 2, 3, 4}, true
	}
	return nil, false
}

func (e *effects) external(in *einst, at ssa.Instruction, f *ssa.Function, args []pvalue, res ssa.Value) {
	ws, deep := writers(f.String())
	for _, w := range ws {
		if w < len(args) {
			e.writeArg(in, at, args[w], deep)
		}
	}
	// function arguments are called back
	for _, a := range args {
		for l := range a[""] {
			e.callback(in, at, l, args)
		}
	}
	if res != nil {
		for _, lf := range e.leaves(res.Type()) {
			o := e.alloc(in, at, "alloc", lf.typ)
			s := ptset{pointee(o, lf.typ): true}
			e.set(in, res, lf.path, s)
		}
	}
}

func (e *effects) callback(in *einst, at ssa.Instruction, l aloc, args []pvalue) {
	if l.o.fn != nil && l.path == "" && e.descend(l.o.fn) {
		e.enter(in, at, l.o.fn, nil, l.o.binds, nil)
	}
	// a sort.Interface
	if l.o.kind == "box" {
		for _, m := range []string{"Swap", "Less", "Len", "Push", "Pop"} {
			if g := e.method(l.o.typ, m); g != nil && e.descend(g) {
				e.enter(in, at, g, []pvalue{e.unbox(l, l.o.typ)}, nil, nil)
			}
		}
	}
}

func (e *effects) writeArg(in *einst, at ssa.Instruction, v pvalue, deep bool) {
	for p, s := range v {
		_ = p
		for l := range s {
			if l.o.kind == "box" {
				for _, lf := range e.leaves(l.o.typ) {
					e.writeArg(in, at, pvalue{"": e.get(aloc{l.o, lf.path})}, deep)
				}
				continue
			}
			e.write(in, at, l, "written by the call")
		}
	}
}

func (e *effects) method(t types.Type, name string) *ssa.Function {
	ms := e.c.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.c.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// concrete lists the types of the module that implement an interface.
func (e *effects) concrete(it *types.Interface) []types.Type {
	var out []types.Type
	var names []string
	for n := range e.c.ssaPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sc := e.c.ssaPkgs[n].Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	return out
}

func (e *effects) call(in *einst, at ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) {
	var args []pvalue
	for _, a := range cc.Args {
		args = append(args, e.val(in, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		e.builtin(in, at, b.Name(), cc, args, res)
		return
	}
	if cc.IsInvoke() {
		name := cc.Method.Name()
		done := false
		for l := range e.pts(in, cc.Value) {
			switch l.o.kind {
			case "box":
				if g := e.method(l.o.typ, name); g != nil {
					done = true
					e.enter(in, at, g, append([]pvalue{e.unbox(l, l.o.typ)}, args...), nil, res)
				}
			case "ext", "global":
				it := cc.Value.Type().Underlying().(*types.Interface)
				for _, t := range e.concrete(it) {
					if g := e.method(t, name); g != nil {
						done = true
						e.enter(in, at, g, append([]pvalue{e.unbox(l, t)}, args...), nil, res)
					}
				}
			}
		}
		if !done {
			if name == "Read" || name == "ReadAt" {
				for _, a := range args {
					e.writeArg(in, at, a, false)
				}
			}
			if strings.HasPrefix(name, "PutUint") && len(args) > 0 {
				e.writeArg(in, at, args[0], false)
			}
			if res != nil {
				for _, lf := range e.leaves(res.Type()) {
					e.set(in, res, lf.path, ptset{pointee(e.alloc(in, at, "alloc", lf.typ), lf.typ): true})
				}
			}
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []pvalue
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, e.val(in, b))
			}
		}
		e.enter(in, at, f, args, binds, res)
		return
	}
	for l := range e.pts(in, cc.Value) {
		if l.o.fn != nil {
			e.enter(in, at, l.o.fn, args, l.o.binds, res)
		}
	}
}

func (e *effects) builtin(in *einst, at ssa.Instruction, name string, cc *ssa.CallCommon, args []pvalue, res ssa.Value) {
	elems := func(t types.Type) []leaf {
		if s, ok := t.Underlying().(*types.Slice); ok {
			return e.leaves(s.Elem())
		}
		return nil
	}
	switch name {
	case "append":
		fresh := aloc{e.alloc(in, at, "alloc", cc.Args[0].Type()), "[]"}
		e.set(in, res, "", args[0][""])
		e.set(in, res, "", ptset{fresh: true})
		ls := elems(cc.Args[0].Type())
		reslice := false
		if s, ok := cc.Args[0].(*ssa.Slice); ok && s.High != nil {
			reslice = true
		}
		var dst []aloc
		for l := range args[0][""] {
			dst = append(dst, l)
			for _, lf := range ls {
				e.addContent(aloc{fresh.o, "[]" + lf.path}, e.loadLeaf(aloc{l.o, l.path + lf.path}, lf.typ))
			}
			if reslice {
				e.write(in, at, l, "append to a shortened slice")
			}
		}
		dst = append(dst, fresh)
		if len(args) > 1 {
			for src := range args[1][""] {
				for _, lf := range ls {
					s := e.loadLeaf(aloc{src.o, src.path + lf.path}, lf.typ)
					for _, d := range dst {
						e.addContent(aloc{d.o, d.path + lf.path}, s)
					}
				}
			}
		}
	case "copy":
		for d := range args[0][""] {
			e.write(in, at, d, "copy")
			for src := range args[1][""] {
				for _, lf := range elems(cc.Args[0].Type()) {
					e.addContent(aloc{d.o, d.path + lf.path}, e.loadLeaf(aloc{src.o, src.path + lf.path}, lf.typ))
				}
			}
		}
	case "delete", "clear":
		for d := range args[0][""] {
			e.write(in, at, d, name)
		}
	case "recover", "print", "println", "len", "cap", "panic", "close", "real", "imag", "complex", "min", "max", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" && res != nil {
			e.setAll(in, res, args[0])
		}
	default:
		e.unknown["builtin "+name] = at.Pos()
	}
}

// via renders the chain of calls that leads to an instance.
func (e *effects) via(in *einst) string {
	var s []string
	for a := in; a != nil; a = a.parent {
		s = append([]string{fname(a.f)}, s...)
	}
	if len(s) > 6 {
		s = append(append(s[:2:2], "..."), s[len(s)-3:]...)
	}
	return strings.Join(s, " > ")
}

func (e *effects) sorted() []effect {
	var keys []string
	for k := range e.writes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []effect
	for _, k := range keys {
		out = append(out, e.writes[k])
	}
	return out
}

// exportedFuncs lists the exported functions, and methods of exported or
// returned types, of the packages.
func (c *Ctx) exportedFuncs(pkgs ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	var out []*ssa.Function
	for _, f := range c.srcFuncs {
		if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() || !want[relPkg(funcPkg(f))] {
			continue
		}
		out = append(out, f)
	}
	return out
}

// at is the position of a write, or of the call in the module that leads to it.
func (e *effects) at(w effect) string {
	in, at := w.in, w.at
	for in.parent != nil && !e.c.inModule(in.f) {
		at, in = in.site, in.parent
	}
	return e.c.instrPos(at)
}
