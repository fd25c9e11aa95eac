package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bit-provenance engine tracks where every bit of an integer comes from: a
// bit is a constant, an input bit, or a polynomial over GF(2) of input bits (a
// set of products, combined by exclusive or), or unknown. Values that decide
// branches fork the path, which then carries the decided condition.

const bitLimit = 48 // products per bit, before a bit is given up as unknown

// abit is nil for unknown, or the sorted list of its products; a product is
// the sorted list of its input bits, "" being the constant 1.
type abit struct {
	top bool
	ps  []string
}

var (
	bit0   = abit{}
	bit1   = abit{ps: []string{""}}
	bitTop = abit{top: true}
)

func (b abit) isConst() bool { return !b.top && (len(b.ps) == 0 || len(b.ps) == 1 && b.ps[0] == "") }

func (b abit) String() string {
	if b.top {
		return "?"
	}
	if len(b.ps) == 0 {
		return "0"
	}
	var s []string
	for _, p := range b.ps {
		if p == "" {
			p = "1"
		}
		s = append(s, p)
	}
	return strings.Join(s, "^")
}

func xorBit(a, b abit) abit {
	if a.top || b.top {
		return bitTop
	}
	m := map[string]bool{}
	for _, p := range a.ps {
		m[p] = true
	}
	for _, p := range b.ps {
		if m[p] {
			delete(m, p)
		} else {
			m[p] = true
		}
	}
	return fromProducts(m)
}

func fromProducts(m map[string]bool) abit {
	if len(m) > bitLimit {
		return bitTop
	}
	var r abit
	for p := range m {
		r.ps = append(r.ps, p)
	}
	sort.Strings(r.ps)
	return r
}

func andBit(a, b abit) abit {
	if a.isConst() && len(a.ps) == 0 || b.isConst() && len(b.ps) == 0 {
		return bit0
	}
	if a.top || b.top {
		return bitTop
	}
	if len(a.ps)*len(b.ps) > 4*bitLimit {
		return bitTop
	}
	m := map[string]bool{}
	for _, p := range a.ps {
		for _, q := range b.ps {
			set := map[string]bool{}
			for _, x := range strings.Split(p+"∧"+q, "∧") {
				if x != "" {
					set[x] = true
				}
			}
			var xs []string
			for x := range set {
				xs = append(xs, x)
			}
			sort.Strings(xs)
			pq := strings.Join(xs, "∧")
			if m[pq] {
				delete(m, pq)
			} else {
				m[pq] = true
			}
		}
	}
	return fromProducts(m)
}

func notBit(a abit) abit     { return xorBit(a, bit1) }
func orBit(a, b abit) abit   { return xorBit(xorBit(a, b), andBit(a, b)) }
func sameBit(a, b abit) bool { return !a.top && !b.top && a.String() == b.String() }

// bval is an abstract value.
type bval struct {
	kind   string // int, bool, ptr, tuple, expr, agg
	bits   []abit // int, bool (one bit)
	signed bool
	o      string // ptr: object
	path   string
	t      []bval // tuple
	expr   string // expr: canonical expression
	agg    map[string]bval
}

func (v bval) String() string {
	switch v.kind {
	case "int", "bool":
		if v.expr != "" {
			return v.expr
		}
		if n, ok := v.konst(); ok {
			return fmt.Sprint(n)
		}
		var s []string
		for i := len(v.bits) - 1; i >= 0; i-- {
			s = append(s, v.bits[i].String())
		}
		for len(s) > 1 && s[0] == "0" {
			s = s[1:]
		}
		return "<" + strings.Join(s, " ") + ">"
	case "ptr":
		return "&" + v.o + v.path
	case "tuple":
		var s []string
		for _, x := range v.t {
			s = append(s, x.String())
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return v.expr
}

func (v bval) konst() (int64, bool) {
	if v.kind != "int" && v.kind != "bool" || v.expr != "" {
		return 0, false
	}
	var n uint64
	for i, b := range v.bits {
		if !b.isConst() {
			return 0, false
		}
		if len(b.ps) == 1 {
			n |= 1 << uint(i)
		}
	}
	if v.signed && len(v.bits) > 0 && len(v.bits) < 64 && len(v.bits[len(v.bits)-1].ps) == 1 {
		n |= ^uint64(0) << uint(len(v.bits))
	}
	return int64(n), true
}

func intWidth(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		w = 8
	case types.Int16, types.Uint16:
		w = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		w = 32
	default:
		w = 64
	}
	return w, b.Info()&types.IsUnsigned == 0, true
}

func bInt(n int64, t types.Type) bval {
	w, s, _ := intWidth(t)
	v := bval{kind: "int", signed: s}
	for i := 0; i < w; i++ {
		if uint64(n)>>uint(i)&1 == 1 {
			v.bits = append(v.bits, bit1)
		} else {
			v.bits = append(v.bits, bit0)
		}
	}
	return v
}

func bBool(b bool) bval {
	if b {
		return bval{kind: "bool", bits: []abit{bit1}}
	}
	return bval{kind: "bool", bits: []abit{bit0}}
}

// bInput is an input whose low n bits are named after it; the others are zero.
func bInput(name string, n int, t types.Type) bval {
	w, s, _ := intWidth(t)
	v := bval{kind: "int", signed: s}
	for i := 0; i < w; i++ {
		if i < n {
			v.bits = append(v.bits, abit{ps: []string{fmt.Sprintf("%s#%02d", name, i)}})
		} else {
			v.bits = append(v.bits, bit0)
		}
	}
	return v
}

// ---------------------------------------------------------------- interpreter

type bstate struct {
	mem   map[string]bval // address -> value
	conds map[string]bool // decided conditions
	order []string
}

func (s *bstate) clone() *bstate {
	t := &bstate{mem: map[string]bval{}, conds: map[string]bool{}, order: append([]string{}, s.order...)}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	for k, v := range s.conds {
		t.conds[k] = v
	}
	return t
}

type boutcome struct {
	st  *bstate
	res []bval
}

type bitsim struct {
	c      *Ctx
	steps  int
	allocs int
	// opaque decides which functions are not entered; their result is an
	// expression of their arguments
	opaque func(f *ssa.Function) bool
	lazy   func(addr string, t types.Type) (bval, bool)
}

type bframe struct {
	f    *ssa.Function
	vals map[ssa.Value]bval
}

func newBitsim(c *Ctx) *bitsim { return &bitsim{c: c} }

type bitErr string

func (bs *bitsim) fail(in ssa.Instruction, format string, args ...interface{}) {
	panic(bitErr(fmt.Sprintf(format, args...) + " at " + bs.c.instrPos(in)))
}

// call runs f on abstract arguments; ok is false when it uses a construct that
// is not modelled.
func (bs *bitsim) call(f *ssa.Function, st *bstate, args ...bval) (outs []boutcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(bitErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	if st == nil {
		st = &bstate{mem: map[string]bval{}, conds: map[string]bool{}}
	}
	outs = bs.run(f, args, nil, st.clone(), 0)
	return outs, nil
}

// one is call for a function that is expected to have a single outcome.
func (bs *bitsim) one(f *ssa.Function, st *bstate, args ...bval) (boutcome, error) {
	outs, err := bs.call(f, st, args...)
	if err != nil {
		return boutcome{}, err
	}
	if len(outs) != 1 {
		return boutcome{}, fmt.Errorf("%s has %d outcomes where one is expected", fname(f), len(outs))
	}
	return outs[0], nil
}

func (bs *bitsim) run(f *ssa.Function, args []bval, binds []bval, st *bstate, depth int) []boutcome {
	if depth > 40 || f.Blocks == nil {
		panic(bitErr("cannot enter " + f.String()))
	}
	fr := &bframe{f, map[ssa.Value]bval{}}
	for i, p := range f.Params {
		fr.vals[p] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.vals[p] = binds[i]
	}
	return bs.block(fr, f.Blocks[0], nil, st, depth)
}

func (fr *bframe) clone() *bframe {
	m := make(map[ssa.Value]bval, len(fr.vals))
	for k, v := range fr.vals {
		m[k] = v
	}
	return &bframe{fr.f, m}
}

func (bs *bitsim) block(fr *bframe, b *ssa.BasicBlock, pred *ssa.BasicBlock, st *bstate, depth int) []boutcome {
	return bs.from(fr, b, 0, pred, st, depth)
}

func (bs *bitsim) from(fr *bframe, b *ssa.BasicBlock, start int, pred *ssa.BasicBlock, st *bstate, depth int) []boutcome {
	for {
		if start == 0 {
			var ph []*ssa.Phi
			var pv []bval
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, q := range b.Preds {
					if q == pred {
						ph = append(ph, p)
						pv = append(pv, bs.eval(fr, p.Edges[k]))
						break
					}
				}
			}
			for i, p := range ph {
				fr.vals[p] = pv[i]
			}
		}
		var next *ssa.BasicBlock
	instrs:
		for i := start; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			bs.steps++
			if bs.steps > 4000000 {
				bs.fail(in, "too many steps")
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Return:
				var res []bval
				for _, r := range x.Results {
					res = append(res, bs.eval(fr, r))
				}
				return []boutcome{{st, res}}
			case *ssa.Panic:
				return nil
			case *ssa.Jump:
				next = b.Succs[0]
				break instrs
			case *ssa.If:
				var outs []boutcome
				for _, cs := range bs.decide(st, bs.eval(fr, x.Cond)) {
					k := 1
					if cs.val {
						k = 0
					}
					outs = append(outs, bs.block(fr.clone(), b.Succs[k], b, cs.st, depth)...)
				}
				return outs
			case *ssa.Call:
				outs := bs.doCall(fr, x, st, depth)
				if len(outs) == 1 {
					st = outs[0].st
					bs.setResult(fr, x, outs[0].res)
					continue
				}
				var all []boutcome
				for _, o := range outs {
					g := fr.clone()
					bs.setResult(g, x, o.res)
					all = append(all, bs.from(g, b, i+1, pred, o.st, depth)...)
				}
				return all
			default:
				bs.step(fr, st, in)
			}
		}
		if next == nil {
			return nil
		}
		pred, b, start = b, next, 0
	}
}

func (bs *bitsim) setResult(fr *bframe, x *ssa.Call, res []bval) {
	if len(res) == 1 {
		fr.vals[x] = res[0]
	} else {
		fr.vals[x] = bval{kind: "tuple", t: res}
	}
}

type decided struct {
	val bool
	st  *bstate
}

// decide splits the state on a condition.
func (bs *bitsim) decide(st *bstate, v bval) []decided {
	if n, ok := v.konst(); ok {
		return []decided{{n != 0, st}}
	}
	key, neg := v.cond()
	if d, ok := st.conds[key]; ok {
		return []decided{{d != neg, st}}
	}
	a, b := st, st.clone()
	a.conds[key], b.conds[key] = true, false
	a.order, b.order = append(a.order, key), append(b.order, "!"+key)
	return []decided{{!neg, a}, {neg, b}}
}

// cond names a condition; bools that are expressions carry "!" for negation.
func (v bval) cond() (string, bool) {
	s := v.expr
	if v.kind == "bool" && len(v.bits) == 1 && s == "" {
		b := v.bits[0]
		if !b.top && len(b.ps) > 0 && b.ps[0] == "" {
			return notBit(b).String(), true
		}
		return b.String(), false
	}
	if strings.HasPrefix(s, "!") {
		return s[1:], true
	}
	return s, false
}

func (bs *bitsim) eval(fr *bframe, v ssa.Value) bval {
	switch x := v.(type) {
	case *ssa.Const:
		return bs.konst(x)
	case *ssa.Global:
		return bval{kind: "ptr", o: "G:" + x.String()}
	case *ssa.Function:
		return bval{kind: "expr", expr: "func " + x.String()}
	case *ssa.Builtin:
		return bval{kind: "expr", expr: "builtin " + x.Name()}
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	panic(bitErr("no value for " + v.Name() + " in " + fr.f.String()))
}

func (bs *bitsim) konst(x *ssa.Const) bval {
	t := x.Type()
	if _, _, ok := intWidth(t); ok {
		n, _ := ssaConstInt(x)
		return bInt(n, t)
	}
	if isBoolType(t) {
		return bBool(x.Value != nil && constant.BoolVal(x.Value))
	}
	if x.Value == nil {
		if pointerLike(t) {
			return bval{kind: "ptr", o: "nil"}
		}
		return bs.zero(t)
	}
	return bval{kind: "expr", expr: x.Value.ExactString()}
}

func (bs *bitsim) zero(t types.Type) bval {
	if _, _, ok := intWidth(t); ok {
		return bInt(0, t)
	}
	if isBoolType(t) {
		return bBool(false)
	}
	if pointerLike(t) {
		return bval{kind: "ptr", o: "nil"}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		m := map[string]bval{}
		for i := 0; i < u.NumFields(); i++ {
			bs.put(m, "."+u.Field(i).Name(), bs.zero(u.Field(i).Type()))
		}
		return bval{kind: "agg", agg: m}
	case *types.Array:
		m := map[string]bval{}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			bs.put(m, fmt.Sprintf("[%d]", i), bs.zero(u.Elem()))
		}
		return bval{kind: "agg", agg: m}
	}
	return bval{kind: "expr", expr: "0"}
}

func (bs *bitsim) put(m map[string]bval, path string, v bval) {
	if v.kind == "agg" {
		for p, x := range v.agg {
			m[path+p] = x
		}
		return
	}
	m[path] = v
}

// aggPaths lists the scalar parts of a type.
func aggPaths(t types.Type, p string, out map[string]types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			aggPaths(u.Field(i).Type(), p+"."+u.Field(i).Name(), out)
		}
	case *types.Array:
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			aggPaths(u.Elem(), fmt.Sprintf("%s[%d]", p, i), out)
		}
	default:
		out[p] = t
	}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// load reads memory; memory that was not written yet holds named inputs.
func (bs *bitsim) load(st *bstate, a string, t types.Type) bval {
	if isAgg(t) {
		m := map[string]bval{}
		ps := map[string]types.Type{}
		aggPaths(t, "", ps)
		for p, pt := range ps {
			m[p] = bs.load(st, a+p, pt)
		}
		return bval{kind: "agg", agg: m}
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	var v bval
	if bs.lazy != nil {
		if l, ok := bs.lazy(a, t); ok {
			st.mem[a] = l
			return l
		}
	}
	v = bs.input("*"+a, t)
	st.mem[a] = v
	return v
}

func (bs *bitsim) input(name string, t types.Type) bval {
	if w, _, ok := intWidth(t); ok {
		return bInput(name, w, t)
	}
	if isBoolType(t) {
		return bval{kind: "bool", bits: []abit{{ps: []string{name}}}}
	}
	if pointerLike(t) {
		return bval{kind: "ptr", o: name}
	}
	return bval{kind: "expr", expr: name}
}

func (bs *bitsim) store(st *bstate, a string, v bval) {
	if v.kind == "agg" {
		for p, x := range v.agg {
			st.mem[a+p] = x
		}
		return
	}
	st.mem[a] = v
}

func (bs *bitsim) index(v bval) string {
	if n, ok := v.konst(); ok {
		return fmt.Sprintf("[%d]", n)
	}
	return "[" + v.String() + "]"
}

func (bs *bitsim) step(fr *bframe, st *bstate, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		bs.allocs++
		o := fmt.Sprintf("A%d", bs.allocs)
		bs.store(st, o, bs.zero(derefPtr(x.Type())))
		fr.vals[x] = bval{kind: "ptr", o: o}
	case *ssa.FieldAddr:
		b := bs.eval(fr, x.X)
		fr.vals[x] = bval{kind: "ptr", o: b.o, path: b.path + "." + effField(x.X.Type(), x.Field)}
	case *ssa.IndexAddr:
		b := bs.eval(fr, x.X)
		fr.vals[x] = bval{kind: "ptr", o: b.o, path: b.path + bs.index(bs.eval(fr, x.Index))}
	case *ssa.Slice:
		b := bs.eval(fr, x.X)
		if x.Low != nil {
			if n, ok := bs.eval(fr, x.Low).konst(); !ok || n != 0 {
				bs.fail(in, "slice with an offset")
			}
		}
		fr.vals[x] = b
	case *ssa.Field:
		b := bs.eval(fr, x.X)
		fr.vals[x] = bs.sub(b, "."+effField(x.X.Type(), x.Field), x.Type())
	case *ssa.Index:
		b := bs.eval(fr, x.X)
		fr.vals[x] = bs.sub(b, bs.index(bs.eval(fr, x.Index)), x.Type())
	case *ssa.Extract:
		fr.vals[x] = bs.eval(fr, x.Tuple).t[x.Index]
	case *ssa.UnOp:
		v := bs.eval(fr, x.X)
		switch x.Op {
		case token.MUL:
			fr.vals[x] = bs.load(st, v.o+v.path, x.Type())
		case token.NOT:
			fr.vals[x] = bs.negate(v)
		case token.XOR:
			r := bval{kind: "int", signed: v.signed}
			for _, b := range v.bits {
				r.bits = append(r.bits, notBit(b))
			}
			fr.vals[x] = r
		case token.SUB:
			if v.kind == "expr" {
				fr.vals[x] = bval{kind: "expr", expr: "-(" + v.expr + ")"}
				return
			}
			fr.vals[x] = bs.addBits(bInt(0, x.Type()), v, true)
		default:
			bs.fail(in, "operator %s", x.Op)
		}
	case *ssa.BinOp:
		fr.vals[x] = bs.binop(in, x.Op, bs.eval(fr, x.X), bs.eval(fr, x.Y), x.X.Type(), x.Type())
	case *ssa.Convert:
		fr.vals[x] = bs.convert(bs.eval(fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.vals[x] = bs.eval(fr, x.X)
	case *ssa.Store:
		a := bs.eval(fr, x.Addr)
		bs.store(st, a.o+a.path, bs.eval(fr, x.Val))
	case *ssa.MakeSlice:
		bs.allocs++
		fr.vals[x] = bval{kind: "ptr", o: fmt.Sprintf("A%d", bs.allocs)}
	case *ssa.MakeInterface:
		fr.vals[x] = bs.eval(fr, x.X)
	default:
		bs.fail(in, "construct %T", in)
	}
}

func (bs *bitsim) sub(b bval, p string, t types.Type) bval {
	if b.kind != "agg" {
		panic(bitErr("part of " + b.String()))
	}
	if !isAgg(t) {
		if v, ok := b.agg[p]; ok {
			return v
		}
		panic(bitErr("no part " + p))
	}
	m := map[string]bval{}
	for k, v := range b.agg {
		if strings.HasPrefix(k, p) {
			m[k[len(p):]] = v
		}
	}
	return bval{kind: "agg", agg: m}
}

func (bs *bitsim) convert(v bval, from, to types.Type) bval {
	w, s, ok := intWidth(to)
	if !ok || v.kind != "int" {
		if v.kind == "int" || ok {
			return bs.exprInt(fmt.Sprintf("conv:%s(%s)", types.TypeString(to, nil), v), to)
		}
		return v
	}
	r := bval{kind: "int", signed: s}
	for i := 0; i < w; i++ {
		switch {
		case i < len(v.bits):
			r.bits = append(r.bits, v.bits[i])
		case v.signed:
			r.bits = append(r.bits, v.bits[len(v.bits)-1])
		default:
			r.bits = append(r.bits, bit0)
		}
	}
	return r
}

func (bs *bitsim) exprInt(e string, t types.Type) bval {
	if w, _, ok := intWidth(t); ok {
		return bInput("("+strings.NewReplacer("∧", "·", "^", "+").Replace(e)+")", w, t)
	}
	if isBoolType(t) {
		return bval{kind: "bool", expr: e}
	}
	return bval{kind: "expr", expr: e}
}

func (bs *bitsim) addBits(a, b bval, sub bool) bval {
	r := bval{kind: "int", signed: a.signed}
	carry := bit0
	if sub {
		carry = bit1
	}
	for i := range a.bits {
		y := b.bits[i]
		if sub {
			y = notBit(y)
		}
		x := a.bits[i]
		r.bits = append(r.bits, xorBit(xorBit(x, y), carry))
		carry = xorBit(andBit(x, y), andBit(carry, xorBit(x, y)))
	}
	return r
}

func (bs *bitsim) binop(in ssa.Instruction, op token.Token, a, b bval, opT, t types.Type) bval {
	if a.kind == "int" && b.kind == "int" {
		switch op {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			r := bval{kind: "int", signed: a.signed}
			for i := range a.bits {
				x, y := a.bits[i], b.bits[i]
				switch op {
				case token.AND:
					r.bits = append(r.bits, andBit(x, y))
				case token.OR:
					r.bits = append(r.bits, orBit(x, y))
				case token.XOR:
					r.bits = append(r.bits, xorBit(x, y))
				default:
					r.bits = append(r.bits, andBit(x, notBit(y)))
				}
			}
			return r
		case token.SHL, token.SHR:
			n, ok := b.konst()
			if !ok {
				bs.fail(in, "shift by an unknown amount")
			}
			r := bval{kind: "int", signed: a.signed}
			w := int64(len(a.bits))
			for i := int64(0); i < w; i++ {
				j := i - n
				if op == token.SHR {
					j = i + n
				}
				switch {
				case j >= 0 && j < w:
					r.bits = append(r.bits, a.bits[j])
				case op == token.SHR && a.signed:
					r.bits = append(r.bits, a.bits[w-1])
				default:
					r.bits = append(r.bits, bit0)
				}
			}
			return r
		case token.ADD:
			return bs.addBits(a, b, false)
		case token.SUB:
			return bs.addBits(a, b, true)
		case token.EQL, token.NEQ:
			v := bs.notEqual(a, b)
			if op == token.EQL {
				return bs.negate(v)
			}
			return v
		}
		x, ok1 := a.konst()
		y, ok2 := b.konst()
		if ok1 && ok2 {
			u := !a.signed
			switch op {
			case token.LSS:
				return bBool(x < y && !u || u && uint64(x) < uint64(y))
			case token.LEQ:
				return bBool(x <= y && !u || u && uint64(x) <= uint64(y))
			case token.GTR:
				return bBool(x > y && !u || u && uint64(x) > uint64(y))
			case token.GEQ:
				return bBool(x >= y && !u || u && uint64(x) >= uint64(y))
			case token.MUL:
				return bInt(x*y, t)
			case token.QUO:
				if y != 0 {
					if u {
						return bInt(int64(uint64(x)/uint64(y)), t)
					}
					return bInt(x/y, t)
				}
			case token.REM:
				if y != 0 {
					if u {
						return bInt(int64(uint64(x)%uint64(y)), t)
					}
					return bInt(x%y, t)
				}
			}
		}
		// multiplication, division and remainder by powers of two
		if ok2 && y > 0 && y&(y-1) == 0 {
			sh := int64(0)
			for int64(1)<<uint(sh) < y {
				sh++
			}
			switch {
			case op == token.MUL:
				return bs.binop(in, token.SHL, a, bInt(sh, types.Typ[types.Uint]), opT, t)
			case op == token.QUO && !a.signed:
				return bs.binop(in, token.SHR, a, bInt(sh, types.Typ[types.Uint]), opT, t)
			case op == token.REM && !a.signed:
				return bs.binop(in, token.AND, a, bInt(y-1, opT), opT, t)
			}
		}
		return bs.exprInt(fmt.Sprintf("(%s %s %s)", a, op, b), t)
	}
	if a.kind == "ptr" && b.kind == "ptr" && (op == token.EQL || op == token.NEQ) {
		eq := fmt.Sprintf("(%s == %s)", a, b)
		switch {
		case a.o == b.o && a.path == b.path:
			return bBool(op == token.EQL)
		case (a.o == "nil") != (b.o == "nil") && (strings.HasPrefix(a.o+b.o, "A") || a.path+b.path != ""):
			return bBool(op == token.NEQ)
		}
		if op == token.NEQ {
			eq = "!" + eq
		}
		return bval{kind: "bool", expr: eq}
	}
	x, y := a.String(), b.String()
	if (op == token.MUL || op == token.ADD) && !isStringType(opT) && x > y {
		x, y = y, x
	}
	return bs.exprInt(fmt.Sprintf("(%s %s %s)", x, op, y), t)
}

func (bs *bitsim) doCall(fr *bframe, x *ssa.Call, st *bstate, depth int) []boutcome {
	var args []bval
	for _, a := range x.Call.Args {
		args = append(args, bs.eval(fr, a))
	}
	resT := func(expr string) []bval {
		if tp, ok := x.Type().(*types.Tuple); ok {
			var r []bval
			for i := 0; i < tp.Len(); i++ {
				r = append(r, bs.opaqueResult(fmt.Sprintf("%s#%d", expr, i), tp.At(i).Type()))
			}
			return r
		}
		return []bval{bs.opaqueResult(expr, x.Type())}
	}
	var as []string
	for _, a := range args {
		as = append(as, a.String())
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		return []boutcome{{st, resT(b.Name() + "(" + strings.Join(as, ", ") + ")")}}
	}
	f := x.Call.StaticCallee()
	if f == nil {
		bs.fail(x, "dynamic call")
	}
	if bs.opaque != nil && bs.opaque(f) || f.Blocks == nil || !bs.c.inModule(f) && !strings.Contains(f.String(), "github.com/arl/") {
		if strings.HasSuffix(f.Name(), "Dist") || strings.HasSuffix(f.Name(), "DistSqr") {
			sort.Strings(as)
		}
		return []boutcome{{st, resT(f.Name() + "(" + strings.Join(as, ", ") + ")")}}
	}
	return bs.run(f, args, nil, st, depth+1)
}

func (bs *bitsim) opaqueResult(e string, t types.Type) bval {
	if pointerLike(t) {
		return bval{kind: "ptr", o: e}
	}
	return bs.exprInt(e, t)
}

// notEqual is the condition that two integers differ.
func (bs *bitsim) notEqual(a, b bval) bval {
	var nz []string
	for i := range a.bits {
		d := xorBit(a.bits[i], b.bits[i])
		if d.isConst() {
			if len(d.ps) == 1 {
				return bBool(true)
			}
			continue
		}
		nz = append(nz, d.String())
	}
	if len(nz) == 0 {
		return bBool(false)
	}
	sort.Strings(nz)
	return bval{kind: "bool", expr: "any(" + strings.Join(nz, ", ") + ")"}
}

func (bs *bitsim) negate(v bval) bval {
	if v.expr == "" {
		return bval{kind: "bool", bits: []abit{notBit(v.bits[0])}}
	}
	if strings.HasPrefix(v.expr, "!") {
		v.expr = v.expr[1:]
	} else {
		v.expr = "!" + v.expr
	}
	return v
}
