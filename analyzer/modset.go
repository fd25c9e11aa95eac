package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// classContent maps the memory classes seen to the type of their content.
var classContent sync.Map

func classContentOf(c string) string {
	if s, ok := classContent.Load(c); ok {
		return s.(string)
	}
	return ""
}

// contentClasses adds the classes of the memory of type t found at an address of
// class c.
func contentClasses(c string, t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			contentClasses(typeStr(t)+"."+u.Field(i).Name(), u.Field(i).Type(), out)
		}
		if c[0] == '*' {
			return
		}
		return
	case *types.Array:
		contentClasses("[]"+typeStr(u.Elem()), u.Elem(), out)
		return
	}
	classContent.Store(c, typeStr(t))
	out[c] = true
}

// reachClasses adds the classes of all the memory reachable from a value of type t.
func reachClasses(t types.Type, out map[string]bool, depth int) {
	reachT(t, out, map[string]bool{})
}

func reachT(t types.Type, out, seen map[string]bool) {
	k := typeStr(t)
	if seen[k] {
		return
	}
	seen[k] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		contentClasses("*"+typeStr(u.Elem()), u.Elem(), out)
		reachT(u.Elem(), out, seen)
	case *types.Slice:
		contentClasses("[]"+typeStr(u.Elem()), u.Elem(), out)
		reachT(u.Elem(), out, seen)
	case *types.Array:
		reachT(u.Elem(), out, seen)
	case *types.Struct:
		if n := named(t); n != nil && n.Obj().Pkg() != nil && !isModulePath(n.Obj().Pkg().Path()) {
			return // hidden state of other packages
		}
		for i := 0; i < u.NumFields(); i++ {
			reachT(u.Field(i).Type(), out, seen)
		}
	}
}

func isModulePath(p string) bool {
	return p == module || len(p) > len(module) && p[:len(module)+1] == module+"/"
}

// storeClasses are the classes a store instruction writes.
func storeClasses(addr ssa.Value, out map[string]bool) {
	storeClassesOf(addr, out, map[ssa.Value]bool{})
}

func storeClassesOf(addr ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	t := deref(addr.Type())
	switch a := addr.(type) {
	case *ssa.Phi: // one of several places
		if seen[a] {
			return
		}
		seen[a] = true
		for _, e := range a.Edges {
			if k, ok := e.(*ssa.Const); !ok || !k.IsNil() {
				storeClassesOf(e, out, seen)
			}
		}
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		contentClasses(typeStr(st)+"."+st.Underlying().(*types.Struct).Field(a.Field).Name(), t, out)
	case *ssa.IndexAddr:
		contentClasses("[]"+typeStr(t), t, out)
	case *ssa.Alloc:
		if a.Heap {
			contentClasses("*"+typeStr(t), t, out)
		}
	default:
		contentClasses("*"+typeStr(t), t, out)
	}
}

// localRoot: the address is inside a variable of the function that does not
// outlive it.
func localRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.Alloc:
			return !x.Heap
		}
		return false
	}
}

type modInfo struct {
	direct  map[string]bool
	callees []*ssa.Function
	all     map[string]bool
}

// modSet are the memory classes a function, and what it calls, may write to.
func (p *Prog) modSet(f *ssa.Function) map[string]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	m, _ := p.flowMemo["modset"].(map[*ssa.Function]*modInfo)
	if m == nil {
		m = map[*ssa.Function]*modInfo{}
		p.flowMemo["modset"] = m
	}
	if i := m[f]; i != nil && i.all != nil {
		return i.all
	}
	info := func(f *ssa.Function) *modInfo {
		i := m[f]
		if i == nil {
			i = p.modDirect(f)
			m[f] = i
		}
		return i
	}
	all := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		i := info(f)
		for c := range i.direct {
			all[c] = true
		}
		for _, g := range i.callees {
			visit(g)
		}
	}
	visit(f)
	info(f).all = all
	return all
}

func (p *Prog) modDirect(f *ssa.Function) *modInfo {
	i := &modInfo{direct: map[string]bool{}}
	if f.Blocks == nil || p.isStd(f) {
		return i
	}
	if pk := funcPkg(f); pk != nil && purePkgs[pk.Path()] {
		return i
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localRoot(x.Addr) {
					storeClasses(x.Addr, i.direct)
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" {
						if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && !localRoot(c.Args[0]) {
							contentClasses("[]"+typeStr(s.Elem()), s.Elem(), i.direct)
						}
					}
					continue
				}
				for _, g := range p.callees(x) {
					if p.isStd(g) {
						pk := funcPkg(g)
						if pk != nil && purePkgs[pk.Path()] {
							continue
						}
						for _, a := range c.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								reachClasses(mi.X.Type(), i.direct, 0)
							} else {
								reachClasses(a.Type(), i.direct, 0)
							}
						}
						continue
					}
					i.callees = append(i.callees, g)
				}
			}
		}
	}
	return i
}

// simpleFn: a helper without loops that is always analysed at its call sites.
func (p *Prog) simpleFn(f *ssa.Function) bool {
	if !p.inModule(f) || f.Blocks == nil || len(f.Blocks) > 12 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return n <= 90
}

// relevant closes a set of functions under being called: a function is relevant
// if it satisfies direct, or if one it may call does.
func (p *Prog) relevant(direct func(f *ssa.Function) bool) map[*ssa.Function]bool {
	rel := map[*ssa.Function]bool{}
	for _, f := range p.srcFuncs {
		if direct(f) {
			rel[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.srcFuncs {
			if rel[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && !rel[f] {
						for _, g := range p.callees(c) {
							if rel[g] {
								rel[f] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	return rel
}
