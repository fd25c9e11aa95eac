package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func constInt(v constant.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return 0, false
	}
	if i, ok := constant.Int64Val(v); ok {
		return i, true
	}
	if u, ok := constant.Uint64Val(v); ok {
		return int64(u), true
	}
	return 0, false
}

func ssaConstInt(v ssa.Value) (int64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return 0, false
			}
			return constInt(x.Value)
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return 0, false
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// named returns the named type of t or *t, or nil.
func named(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// isNamed tells whether t or *t is the type pkgpath.name; a pkgpath without a
// dot is relative to the module.
func isNamed(t types.Type, pkg, name string) bool {
	n := named(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Name() != name {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == pkg || p == module+"/"+pkg
}

// callees returns the possible callees of an instruction by class hierarchy.
func (p *Prog) callees(in ssa.CallInstruction) []*ssa.Function {
	if f := in.Common().StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var r []*ssa.Function
	if n := p.callGraph().Nodes[in.Parent()]; n != nil {
		for _, e := range n.Out {
			if e.Site == in {
				r = append(r, e.Callee.Func)
			}
		}
	}
	return r
}

// qname is the qualified name of a function: "os.Exit", "(*log.Logger).Fatal".
func qname(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func isLibPkg(rel string) bool {
	return rel == "detour" || rel == "recast" || rel == "sample" || rel == "sample/solomesh" || rel == "sample/tilemesh"
}
