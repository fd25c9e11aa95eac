package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- conditions

func (fl *Flow) cond(st *State, t *Term) (bool, bool) { return st.facts.cond(t) }

func (fl *Flow) assume(st *State, t *Term, v bool) { st.facts.assume(t, v) }

func (fl *Flow) boolK(b bool) *Term {
	if b {
		return fl.tt.konst(1)
	}
	return fl.tt.konst(0)
}

func (fl *Flow) notb(t *Term) *Term {
	if t.isConst() {
		return fl.boolK(t.n == 0)
	}
	if t.op == "notb" {
		return t.a[0]
	}
	return fl.tt.mk("notb", types.Typ[types.Bool], 0, "", nil, nil, t)
}

func (fl *Flow) le0(l linForm) *Term {
	t := fl.tt.fromLin(l, types.Typ[types.Int])
	if t.isConst() {
		return fl.boolK(t.n <= 0)
	}
	return fl.tt.mk("le0", types.Typ[types.Bool], 0, "", nil, nil, t)
}

func (fl *Flow) eq0(l linForm) *Term {
	if ts := l.terms(); len(ts) > 0 && l.m[ts[0]] < 0 {
		l = linForm{0, nil}.add(l, -1)
	}
	t := fl.tt.fromLin(l, types.Typ[types.Int])
	if t.isConst() {
		return fl.boolK(t.n == 0)
	}
	return fl.tt.mk("eq0", types.Typ[types.Bool], 0, "", nil, nil, t)
}

// compare builds the condition x op y.
func (fl *Flow) compare(op token.Token, typ types.Type, x, y *Term) *Term {
	u := typ.Underlying()
	isF, isS := isFloatType(u), isStringType(u)
	switch op {
	case token.EQL, token.NEQ:
		var c *Term
		switch u.(type) {
		case *types.Struct, *types.Array:
			isS = true
		}
		switch {
		case isBoolType(u):
			if y.isConst() {
				c = x
				if y.n == 0 {
					c = fl.notb(x)
				}
			} else if x.isConst() {
				c = y
				if x.n == 0 {
					c = fl.notb(y)
				}
			} else {
				c = fl.eqs(x, y)
			}
		case isF:
			c = fl.tt.mk("fcmp", types.Typ[types.Bool], 0, "==", nil, nil, order(x, y)...)
		case isS:
			c = fl.eqs(x, y)
		default:
			c = fl.eq0(linOf(x).add(linOf(y), -1))
		}
		if op == token.NEQ {
			c = fl.notb(c)
		}
		return c
	}
	switch op {
	case token.GTR:
		x, y, op = y, x, token.LSS
	case token.GEQ:
		x, y, op = y, x, token.LEQ
	}
	if isF || isS {
		if isF && x.op == "sconst" && y.op == "sconst" {
			a, b := constant.MakeFromLiteral(x.aux, token.FLOAT, 0), constant.MakeFromLiteral(y.aux, token.FLOAT, 0)
			if a.Kind() != constant.Unknown && b.Kind() != constant.Unknown {
				return fl.boolK(constant.Compare(a, op, b))
			}
		}
		return fl.tt.mk("fcmp", types.Typ[types.Bool], 0, op.String(), nil, nil, x, y)
	}
	l := linOf(x).add(linOf(y), -1)
	if op == token.LSS {
		l.k++
	}
	return fl.le0(l)
}

func order(x, y *Term) []*Term {
	if x.id > y.id {
		return []*Term{y, x}
	}
	return []*Term{x, y}
}

func (fl *Flow) eqs(x, y *Term) *Term {
	if x == y {
		return fl.boolK(true)
	}
	if x.op == "sconst" && y.op == "sconst" {
		return fl.boolK(false)
	}
	return fl.tt.mk("eqs", types.Typ[types.Bool], 0, "", nil, nil, order(x, y)...)
}

// ---------------------------------------------------------------- arithmetic

func (fl *Flow) fits(st *State, l linForm, typ types.Type) bool {
	lo, hi := typeRange(typ)
	if hi < inf && st.facts.upper(l) > hi {
		return false
	}
	if lo > -inf && -st.facts.upper(linForm{0, nil}.add(l, -1)) < lo {
		return false
	}
	return true
}

// intResult is the value of an integer operation of type typ whose mathematical
// result is l. Signed results of 32 bits and more, and unsigned ones that are
// not negative, are assumed not to overflow.
func (fl *Flow) intResult(st *State, l linForm, typ types.Type) *Term {
	t := fl.tt.fromLin(l, typ)
	if t.isConst() {
		lo, hi := typeRange(typ)
		if t.n >= lo && t.n <= hi {
			return t
		}
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return fl.tt.konst(int64(uint8(t.n)))
			case types.Uint16:
				return fl.tt.konst(int64(uint16(t.n)))
			case types.Uint32:
				return fl.tt.konst(int64(uint32(t.n)))
			case types.Int8:
				return fl.tt.konst(int64(int8(t.n)))
			case types.Int16:
				return fl.tt.konst(int64(int16(t.n)))
			case types.Int32:
				return fl.tt.konst(int64(int32(t.n)))
			}
		}
		return t
	}
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Uint8, types.Uint16, types.Int8, types.Int16:
		if !fl.fits(st, l, typ) {
			return fl.tt.mk("wrap", typ, 0, b.Name(), nil, nil, t)
		}
	case types.Uint32, types.Uint, types.Uint64, types.Uintptr:
		neg := false
		for _, c := range l.m {
			if c < 0 {
				neg = true
			}
		}
		if (neg || l.k < 0) && st.facts.upper(linForm{0, nil}.add(l, -1)) > 0 {
			return fl.tt.mk("wrap", typ, 0, b.Name(), nil, nil, t)
		}
	}
	return t
}

func (fl *Flow) binop(st *State, op token.Token, typ types.Type, opTyp types.Type, x, y *Term) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return fl.compare(op, opTyp, x, y)
	}
	if !isIntType(typ) {
		return fl.tt.mk("f"+op.String(), typ, 0, "", nil, nil, x, y)
	}
	c := x.isConst() && y.isConst()
	switch op {
	case token.ADD:
		return fl.intResult(st, linOf(x).add(linOf(y), 1), typ)
	case token.SUB:
		return fl.intResult(st, linOf(x).add(linOf(y), -1), typ)
	case token.MUL:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			return fl.intResult(st, linForm{0, nil}.add(linOf(x), y.n), typ)
		}
		return fl.tt.mk("mul", typ, 0, "", nil, nil, order(x, y)...)
	case token.QUO:
		if c && y.n != 0 {
			return fl.tt.konst(x.n / y.n)
		}
		if y.isConst() && y.n == 1 {
			return x
		}
		return fl.tt.mk("div", typ, 0, "", nil, nil, x, y)
	case token.REM:
		if c && y.n != 0 {
			return fl.tt.konst(x.n % y.n)
		}
		return fl.tt.mk("rem", typ, 0, "", nil, nil, x, y)
	case token.AND:
		return fl.and(typ, x, y)
	case token.OR:
		if c {
			return fl.tt.konst(x.n | y.n)
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.n == 0 {
				return x
			}
			if x.op == "or" && x.a[1].isConst() {
				return fl.binop(st, op, typ, opTyp, x.a[0], fl.tt.konst(x.a[1].n|y.n))
			}
			return fl.tt.mk("or", typ, 0, "", nil, nil, x, y)
		}
		if x == y {
			return x
		}
		return fl.tt.mk("or", typ, 0, "", nil, nil, order(x, y)...)
	case token.XOR:
		if c {
			return fl.tt.konst(x.n ^ y.n)
		}
		if x == y {
			return fl.tt.konst(0)
		}
		return fl.tt.mk("xor", typ, 0, "", nil, nil, order(x, y)...)
	case token.AND_NOT:
		return fl.and(typ, x, fl.not(typ, y))
	case token.SHL:
		if c && y.n >= 0 && y.n < 63 {
			return fl.intResult(st, linForm{x.n << uint(y.n), nil}, typ)
		}
		return fl.tt.mk("shl", typ, 0, "", nil, nil, x, y)
	case token.SHR:
		if c && y.n >= 0 && y.n < 64 {
			return fl.tt.konst(x.n >> uint(y.n))
		}
		if y.isConst() && y.n == 0 {
			return x
		}
		return fl.tt.mk("shr", typ, 0, "", nil, nil, x, y)
	}
	return fl.tt.mk("op"+op.String(), typ, 0, "", nil, nil, x, y)
}

func (fl *Flow) and(typ types.Type, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return fl.tt.konst(x.n & y.n)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.isConst() {
		if y.n == 0 {
			return y
		}
		if x.op == "and" && x.a[1].isConst() {
			return fl.and(typ, x.a[0], fl.tt.konst(x.a[1].n&y.n))
		}
		if lo, hi := typeRange(typ); lo == 0 && hi < inf && y.n&hi == hi {
			return x
		}
		return fl.tt.mk("and", typ, 0, "", nil, nil, x, y)
	}
	return fl.tt.mk("and", typ, 0, "", nil, nil, order(x, y)...)
}

func (fl *Flow) not(typ types.Type, x *Term) *Term {
	lo, hi := typeRange(typ)
	if x.isConst() {
		if lo == 0 && hi < inf {
			return fl.tt.konst(^x.n & hi)
		}
		return fl.tt.konst(^x.n)
	}
	if x.op == "not" {
		return x.a[0]
	}
	return fl.tt.mk("not", typ, 0, "", nil, nil, x)
}

func (fl *Flow) convert(st *State, x *Term, from, to types.Type) *Term {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if isIntType(from) && isIntType(to) {
		flo, fhi := typeRange(from)
		tlo, thi := typeRange(to)
		if tlo <= flo && thi >= fhi {
			return x // widening
		}
		if x.isConst() {
			return fl.intResult(st, linForm{x.n, nil}, to)
		}
		if fl.fits(st, linOf(x), to) {
			return x
		}
		if thi >= 1<<31-1 && !(tlo == 0 && st.facts.upper(linOf(x)) < 0) {
			// assumed to be preserved, except what may be negative made unsigned
			if tlo < 0 || flo == 0 {
				return x
			}
			if lo, _ := st.facts.Range(x); lo >= 0 {
				return x
			}
		}
		return fl.tt.mk("conv", to, 0, "", nil, nil, x)
	}
	return fl.tt.mk("conv", to, 0, "", nil, nil, x)
}

// -------------------------------------------------------------------- values

func (fl *Flow) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return fl.tt.mk("sconst", t, 0, "", nil, nil)
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return fl.tt.mk("sconst", types.Typ[types.Float64], 0, "0", nil, nil)
		}
		return fl.tt.konst(0)
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, fl.zero(u.Field(i).Type()))
		}
		return fl.tt.mk("struct", t, 0, typeStr(t), nil, nil, a...)
	case *types.Array:
		return fl.tt.mk("zero", t, 0, "", nil, nil)
	}
	return fl.tt.konst(0)
}

var typeStrs sync.Map

func typeStr(t types.Type) string {
	if s, ok := typeStrs.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, func(p *types.Package) string { return relPkg(p) })
	typeStrs.Store(t, s)
	return s
}

func (fl *Flow) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		return fl.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return fl.boolK(constant.BoolVal(c.Value))
	case constant.Int:
		if isIntType(c.Type()) {
			if n, ok := constInt(c.Value); ok {
				return fl.tt.konst(n)
			}
		}
	case constant.String:
		return fl.tt.mk("sconst", types.Typ[types.String], 0, constant.StringVal(c.Value), nil, nil)
	}
	return fl.tt.mk("sconst", types.Typ[types.Float64], 0, c.Value.ExactString(), nil, nil)
}

func (fl *Flow) eval(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return fl.constant(x)
	case *ssa.Global:
		return fl.tt.mk("global", deref(x.Type()), 0, x.String(), nil, nil)
	case *ssa.Function:
		t := fl.tt.mk("closure", x.Type(), 0, x.String(), nil, nil)
		fl.funcs[t] = x
		return t
	}
	if t := st.env[v]; t != nil {
		return t
	}
	return fl.tt.mk("sym", v.Type(), 0, "?"+v.Name()+"@"+fr.ctx, nil, fl.loops)
}

// fresh is an unknown value made by an instruction.
func (fl *Flow) fresh(st *State, name string, typ types.Type, in ssa.Instruction, i int) *Term {
	return fl.tt.mk("sym", typ, 0, fmt.Sprintf("%s@%s/%s:%d", name, st.ctx, fl.iid(in), i), nil, fl.loops)
}

func (fl *Flow) freshResult(st *State, name string, in ssa.CallInstruction) []*Term {
	sig := in.Common().Signature().Results()
	var r []*Term
	for i := 0; i < sig.Len(); i++ {
		r = append(r, fl.fresh(st, name, sig.At(i).Type(), in, i))
	}
	return r
}

func (fl *Flow) field(v *Term, i int, typ types.Type) *Term {
	if v.op == "struct" && i < len(v.a) {
		return v.a[i]
	}
	return fl.tt.mk("field", typ, int64(i), "", nil, nil, v)
}

func (fl *Flow) elem(v, i *Term, typ types.Type) *Term {
	if v.op == "zero" {
		return fl.zero(typ)
	}
	if v.op == "array" && i.isConst() && i.n >= 0 && int(i.n) < len(v.a) {
		return v.a[i.n]
	}
	return fl.tt.mk("elem", typ, 0, "", nil, nil, v, i)
}

func (fl *Flow) tuple(rs []*Term) *Term {
	return fl.tt.mk("tuple", nil, 0, "", nil, nil, rs...)
}

func (fl *Flow) extract(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" && i < len(t.a) {
		return t.a[i]
	}
	return fl.tt.mk("extract", typ, int64(i), "", nil, nil, t)
}

// -------------------------------------------------------------------- memory

// contentType is the type of what is stored at an address.
func contentType(a *Term) types.Type {
	switch a.op {
	case "fa", "ia", "alloc", "global":
		return a.typ
	}
	if a.typ == nil {
		return types.Typ[types.Invalid]
	}
	return deref(a.typ)
}

func class(a *Term) string {
	switch a.op {
	case "fa":
		return a.aux
	case "ia":
		return "[]" + typeStr(a.typ)
	}
	return "*" + typeStr(contentType(a))
}

func root(t *Term) *Term {
	for {
		switch t.op {
		case "fa", "ia", "slice":
			t = t.a[0]
			continue
		}
		return t
	}
}

func isObj(t *Term) bool { return t.op == "alloc" || t.op == "make" }

// local tells whether t is an object only this analysis can reach.
func (st *State) local(t *Term) bool { return isObj(t) && !st.esc[t] }

func (fl *Flow) fieldAddr(base *Term, i int) *Term {
	ct := contentType(base)
	s, ok := ct.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return fl.tt.mk("fa", types.Typ[types.Invalid], int64(i), "?", nil, nil, base)
	}
	return fl.tt.mk("fa", s.Field(i).Type(), int64(i), typeStr(ct)+"."+s.Field(i).Name(), nil, nil, base)
}

func (fl *Flow) indexAddr(base, idx *Term, elem types.Type) *Term {
	for base.op == "slice" {
		idx = fl.tt.fromLin(linOf(base.a[1]).add(linOf(idx), 1), types.Typ[types.Int])
		base = base.a[0]
	}
	return fl.tt.mk("ia", elem, 0, "", nil, nil, base, idx)
}

func (fl *Flow) entryValue(t *Term) bool { return t.op == "sym" && !strings.Contains(t.aux, "@") }

func (fl *Flow) mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ca, cb := class(a), class(b)
	if ca != cb {
		if ca[0] != '*' && cb[0] != '*' {
			return false
		}
		if typeStr(contentType(a)) != typeStr(contentType(b)) {
			return false
		}
	}
	ra, rb := root(a), root(b)
	if ra != rb {
		if isObj(ra) && isObj(rb) || st.local(ra) || st.local(rb) {
			return false
		}
		if isObj(ra) && fl.entryValue(rb) || isObj(rb) && fl.entryValue(ra) {
			return false
		}
		if ra.op == "global" && rb.op == "global" {
			return false
		}
		if (isObj(ra) && rb.op == "global") || (isObj(rb) && ra.op == "global") {
			return false
		}
	}
	if ca != cb {
		return true
	}
	switch {
	case a.op == "fa" && b.op == "fa":
		return fl.sameObj(st, a.a[0], b.a[0])
	case a.op == "ia" && b.op == "ia":
		if a.a[0] == b.a[0] && st.facts.isNe(a.a[1], b.a[1]) {
			return false
		}
		if arrayAddr(a.a[0]) && arrayAddr(b.a[0]) && typeStr(contentType(a.a[0])) == typeStr(contentType(b.a[0])) {
			// two arrays are the same or do not overlap
			return !st.facts.isNe(a.a[1], b.a[1]) && fl.sameObj(st, a.a[0], b.a[0])
		}
		return true
	case a.op == b.op || a.op != "alloc" && b.op != "alloc":
		return !st.facts.isNe(a, b)
	}
	return true
}

// arrayAddr: t is the address of an array that is a field or an element.
func arrayAddr(t *Term) bool {
	if t.op != "fa" && t.op != "ia" {
		return false
	}
	_, ok := contentType(t).Underlying().(*types.Array)
	return ok
}

// sameObj: two pointers or addresses of structures may be equal.
func (fl *Flow) sameObj(st *State, p, q *Term) bool {
	if p == q {
		return true
	}
	isAddr := func(t *Term) bool { return t.op == "fa" || t.op == "ia" || t.op == "alloc" || t.op == "global" }
	if isAddr(p) && isAddr(q) {
		return fl.mayAlias(st, p, q)
	}
	return !st.facts.isNe(p, q)
}

func (fl *Flow) bump(st *State, c string, name string) {
	old := st.ver[c]
	id := 0
	if old != nil {
		id = old.id
	}
	st.ver[c] = fl.tt.mk("sym", types.Typ[types.Int], 0, fmt.Sprintf("ver:%s<%d@%s", c, id, name), nil, fl.loops)
}

func (fl *Flow) version(st *State, c string) *Term {
	if v := st.ver[c]; v != nil {
		return v
	}
	return fl.tt.konst(0)
}

// peek is the value a load of addr gives.
func (fl *Flow) peek(st *State, addr *Term) *Term {
	if v := st.mem[addr]; v != nil {
		return v
	}
	ct := contentType(addr)
	r := root(addr)
	clean := isObj(r) && !st.dirty[r]
	if clean {
		switch u := ct.Underlying().(type) {
		case *types.Struct:
			clean = false
		case *types.Array:
			clean = u.Len() > 16 && !st.storedIn(addr)
		}
	}
	if clean {
		return fl.zero(ct)
	}
	switch u := ct.Underlying().(type) {
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, fl.peek(st, fl.fieldAddr(addr, i)))
		}
		return fl.tt.mk("struct", ct, 0, typeStr(ct), nil, nil, a...)
	case *types.Array:
		if u.Len() <= 16 {
			var a []*Term
			for i := int64(0); i < u.Len(); i++ {
				a = append(a, fl.peek(st, fl.indexAddr(addr, fl.tt.konst(i), u.Elem())))
			}
			return fl.tt.mk("array", ct, 0, typeStr(ct), nil, nil, a...)
		}
	}
	c := class(addr)
	var ver *Term
	ts := typeStr(ct)
	switch {
	case st.local(r):
		ver = fl.version(st, fmt.Sprintf("a:%d", r.id))
	case c[0] == '*':
		ver = fl.version(st, "any:"+ts)
	default:
		ver = fl.version(st, c)
		if o := st.ver["*"+ts]; o != nil {
			ver = fl.tt.mk("ver", nil, 0, "", nil, nil, ver, o)
		}
	}
	return fl.tt.mk("load", ct, 0, "", nil, nil, addr, ver)
}

// storedIn: something is known of the memory in addr.
func (st *State) storedIn(addr *Term) bool {
	for a := range st.mem {
		for t := a; t.op == "fa" || t.op == "ia"; {
			t = t.a[0]
			if t == addr {
				return true
			}
		}
	}
	return false
}

func (fl *Flow) load(st *State, addr *Term) *Term {
	v := fl.peek(st, addr)
	switch contentType(addr).Underlying().(type) {
	case *types.Struct, *types.Array:
		return v
	}
	st.mem[addr] = v
	return v
}

func hasSymIndex(a *Term) bool {
	for a.op == "fa" || a.op == "ia" {
		if a.op == "ia" && !a.a[1].isConst() {
			return true
		}
		a = a.a[0]
	}
	return false
}

func (fl *Flow) store(st *State, addr, val *Term, in ssa.Instruction) {
	ct := contentType(addr)
	switch u := ct.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fl.store(st, fl.fieldAddr(addr, i), fl.field(val, i, u.Field(i).Type()), in)
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				k := fl.tt.konst(i)
				fl.store(st, fl.indexAddr(addr, k, u.Elem()), fl.elem(val, k, u.Elem()), in)
			}
			return
		}
	}
	r := root(addr)
	local := st.local(r)
	sym := hasSymIndex(addr)
	if !local || sym {
		fl.markEsc(st, val)
	}
	name := st.ctx + "/" + fl.iid(in) + fmt.Sprint(addr.id)
	if places := placesOf(addr, in); places != nil {
		// one of several places of known classes
		for a := range st.mem {
			if c := class(a); a != addr && (places[c] || c[0] == '*') && fl.mayAlias(st, addr, a) {
				delete(st.mem, a)
			}
		}
		for c := range places {
			fl.bump(st, c, name)
		}
		fl.bump(st, "any:"+typeStr(ct), name)
		st.mem[addr] = val
		return
	}
	for a := range st.mem {
		if a != addr && fl.mayAlias(st, addr, a) {
			delete(st.mem, a)
		}
	}
	if local {
		if sym {
			st.dirty[r] = true
			fl.bump(st, fmt.Sprintf("a:%d", r.id), name)
		}
	} else {
		if isObj(r) && sym {
			st.dirty[r] = true
		}
		fl.bump(st, class(addr), name)
		fl.bump(st, "any:"+typeStr(ct), name)
	}
	st.mem[addr] = val
}

// placesOf: the classes of the places a pointer that was chosen among several
// fields and elements may point to, nil if they are not known.
func placesOf(addr *Term, in ssa.Instruction) map[string]bool {
	s, ok := in.(*ssa.Store)
	if !ok || addr.op != "sym" {
		return nil
	}
	if _, ok := s.Addr.(*ssa.Phi); !ok {
		return nil
	}
	out := map[string]bool{}
	storeClasses(s.Addr, out)
	for c := range out {
		if c[0] == '*' {
			return nil
		}
	}
	return out
}

// markEsc: the objects reachable from v may be used by code not analysed.
func (fl *Flow) markEsc(st *State, v *Term) {
	if v == nil {
		return
	}
	v.any(func(t *Term) bool {
		if t.op == "load" {
			return false
		}
		if isObj(t) && !st.esc[t] {
			st.esc[t] = true
			for a, c := range st.mem {
				if root(a) == t {
					fl.markEsc(st, c)
				}
			}
		}
		return false
	})
}

// havoc forgets the memory of some classes, except that of local objects.
func (fl *Flow) havoc(st *State, classes map[string]bool, name string) {
	if len(classes) == 0 {
		return
	}
	star := map[string]bool{}
	for c := range classes {
		if c[0] == '*' {
			star[c[1:]] = true
		}
	}
	hit := func(a *Term) bool {
		c := class(a)
		if classes[c] || star[typeStr(contentType(a))] {
			return true
		}
		if c[0] == '*' {
			// a plain pointer may point to a field or an element
			for k := range classes {
				if k[0] != '*' && classContentOf(k) == c[1:] {
					return true
				}
			}
		}
		return false
	}
	for a := range st.mem {
		if !hit(a) {
			continue
		}
		r := root(a)
		if st.local(r) {
			continue
		}
		delete(st.mem, a)
		if isObj(r) {
			st.dirty[r] = true
		}
	}
	for o := range st.esc {
		if isObj(o) && !st.dirty[o] {
			// conservatively: an escaped object may have been written to
			st.dirty[o] = true
		}
	}
	var cs []string
	for c := range classes {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		fl.bump(st, c, name)
		if c[0] == '*' {
			fl.bump(st, "any:"+c[1:], name)
		} else if t := classContentOf(c); t != "" {
			fl.bump(st, "any:"+t, name)
		}
	}
}

// ---------------------------------------------------------------------- steps

func one(s *State) []*State { return []*State{s} }

func (fl *Flow) step(fr *frame, st *State, in ssa.Instruction) []*State {
	ev := func(v ssa.Value) *Term { return fl.eval(fr, st, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := fl.tt.mk("alloc", deref(x.Type()), 0, x.Comment+"@"+fr.ctx+"/"+fl.iid(x), nil, fl.loops)
		fl.newObj(st, t)
		st.env[x] = t
	case *ssa.MakeSlice:
		n := ev(x.Len)
		st.facts.assumeLe(fl.tt.konst(0), n, 0)
		if st.facts.bad {
			return nil
		}
		t := fl.tt.mk("make", x.Type(), 0, "@"+fr.ctx+"/"+fl.iid(x), nil, fl.loops, n)
		fl.newObj(st, t)
		st.env[x] = t
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		t := fl.fresh(st, "map", v.Type(), in, 0)
		st.facts.assumeNe(t, fl.tt.konst(0))
		st.env[v] = t
	case *ssa.MakeInterface:
		t := ev(x.X)
		st.env[x] = fl.tt.mk("iface", x.X.Type(), 0, typeStr(x.X.Type()), nil, nil, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ev(b))
		}
		t := fl.tt.mk("closure", x.Type(), 0, x.Fn.String(), nil, nil, bs...)
		fl.funcs[t] = x.Fn.(*ssa.Function)
		if !calledOnly(x) {
			for _, b := range bs {
				fl.markEsc(st, b)
			}
		}
		st.env[x] = t
	case *ssa.ChangeInterface:
		st.env[x] = ev(x.X)
	case *ssa.ChangeType:
		st.env[x] = ev(x.X)
	case *ssa.Convert:
		if fl.cl.Convert != nil {
			fl.cl.Convert(fl, st, x, ev(x.X))
		}
		st.env[x] = fl.convert(st, ev(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		st.env[v] = fl.fresh(st, "conv", v.Type(), in, 0)
	case *ssa.FieldAddr:
		b := ev(x.X)
		st.env[x] = fl.fieldAddr(b, x.Field)
	case *ssa.Field:
		st.env[x] = fl.field(ev(x.X), x.Field, x.Type())
	case *ssa.IndexAddr:
		b, i := ev(x.X), ev(x.Index)
		n := fl.lenAt(b, x.X.Type())
		if fl.cl.Index != nil {
			fl.cl.Index(fl, st, x, b, i, n)
		}
		// the access succeeds
		st.facts.assumeLe(i, n, 1)
		if !st.facts.bad {
			st.facts.assumeLe(fl.tt.konst(0), i, 0)
		}
		if st.facts.bad {
			return nil
		}
		st.env[x] = fl.indexAddr(b, i, deref(x.Type()))
	case *ssa.Index:
		b, i := ev(x.X), ev(x.Index)
		if fl.cl.Index != nil {
			fl.cl.Index(fl, st, x, b, i, fl.lenAt(b, x.X.Type()))
		}
		st.env[x] = fl.elem(b, i, x.Type())
	case *ssa.Lookup:
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			st.env[x] = fl.tuple([]*Term{fl.fresh(st, "lookup", tt.At(0).Type(), in, 0), fl.fresh(st, "ok", tt.At(1).Type(), in, 1)})
		} else if isStringType(x.X.Type()) {
			st.env[x] = fl.tt.mk("elem", x.Type(), 0, "", nil, nil, ev(x.X), ev(x.Index))
		} else {
			st.env[x] = fl.fresh(st, "lookup", x.Type(), in, 0)
		}
	case *ssa.Slice:
		b := ev(x.X)
		lo := fl.tt.konst(0)
		if x.Low != nil {
			lo = ev(x.Low)
		}
		var hi *Term
		if x.High != nil {
			hi = ev(x.High)
		}
		if fl.cl.Slice != nil {
			h := hi
			if h == nil {
				h = fl.lenAt(b, x.X.Type())
			}
			fl.cl.Slice(fl, st, x, b, lo, h)
		}
		if isStringType(x.X.Type()) {
			st.env[x] = fl.fresh(st, "substr", x.Type(), in, 0)
			break
		}
		st.env[x] = fl.sliceOf(b, lo, hi, x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		v := ev(x.X)
		if v.op == "iface" && !types.IsInterface(x.AssertedType) {
			ok := types.Identical(v.typ, x.AssertedType)
			if x.CommaOk {
				r := v.a[0]
				if !ok {
					r = fl.zero(x.AssertedType)
				}
				st.env[x] = fl.tuple([]*Term{r, fl.boolK(ok)})
			} else if ok {
				st.env[x] = v.a[0]
			} else {
				return nil
			}
			break
		}
		if x.CommaOk {
			st.env[x] = fl.tuple([]*Term{fl.tt.mk("assert", x.AssertedType, 0, "", nil, nil, v), fl.fresh(st, "ok", types.Typ[types.Bool], in, 1)})
		} else {
			st.env[x] = fl.tt.mk("assert", x.AssertedType, 0, "", nil, nil, v)
		}
	case *ssa.Extract:
		st.env[x] = fl.extract(ev(x.Tuple), x.Index, x.Type())
	case *ssa.UnOp:
		v := ev(x.X)
		switch x.Op {
		case token.MUL:
			if fl.cl.Load != nil {
				if t := fl.cl.Load(fl, st, x, v); t != nil {
					st.env[x] = t
					break
				}
			}
			if st.facts.bad {
				return nil
			}
			st.env[x] = fl.load(st, v)
			if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), module) {
				st.facts.assumeNe(st.env[x], fl.tt.konst(0)) // io.EOF and the like
			}
		case token.NOT:
			st.env[x] = fl.notb(v)
		case token.SUB:
			if isIntType(x.Type()) {
				st.env[x] = fl.intResult(st, linForm{0, nil}.add(linOf(v), -1), x.Type())
			} else {
				st.env[x] = fl.tt.mk("fneg", x.Type(), 0, "", nil, nil, v)
			}
		case token.XOR:
			st.env[x] = fl.not(x.Type(), v)
		default:
			st.env[x] = fl.fresh(st, "recv", x.Type(), in, 0)
		}
	case *ssa.BinOp:
		if fl.cl.BinOp != nil {
			fl.cl.BinOp(fl, st, x, ev(x.X), ev(x.Y))
		}
		t := fl.binop(st, x.Op, x.Type(), x.X.Type(), ev(x.X), ev(x.Y))
		if t.op == "rem" && t.a[0].op != "wrap" && !t.a[1].isConst() && st.facts.le(fl.tt.konst(0), t.a[0], 0) && st.facts.le(fl.tt.konst(0), t.a[1], 0) {
			st.facts.assumeLe(t, t.a[1], 1) // the divisor is not zero
		}
		st.env[x] = t
	case *ssa.Store:
		a, v := ev(x.Addr), ev(x.Val)
		var other *State
		if fl.cl.Split != nil {
			if t := fl.cl.Split(fl, st, x, a); t != nil {
				if _, known := fl.cond(st, t); !known {
					other = st.clone()
					fl.assume(st, t, true)
					fl.assume(other, t, false)
				}
			}
		}
		var r []*State
		for _, s := range []*State{st, other} {
			if s == nil || s.facts.bad {
				continue
			}
			if fl.cl.Store != nil {
				fl.cl.Store(fl, s, x, a, v)
			}
			fl.store(s, a, v, x)
			r = append(r, s)
		}
		if fl.cl.Split != nil {
			return r
		}
	case *ssa.MapUpdate:
		fl.markEsc(st, ev(x.Value))
	case *ssa.Send:
		fl.markEsc(st, ev(x.X))
	case *ssa.Range:
		st.env[x] = fl.fresh(st, "range", types.Typ[types.Int], in, 0)
	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, fl.fresh(st, "next", tt.At(i).Type(), in, i))
		}
		st.env[x] = fl.tuple(rs)
	case *ssa.Select:
		tt := x.Type().(*types.Tuple)
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, fl.fresh(st, "select", tt.At(i).Type(), in, i))
		}
		st.env[x] = fl.tuple(rs)
	case *ssa.Go:
		for _, a := range x.Call.Args {
			fl.markEsc(st, ev(a))
		}
		fl.undecided("go statement in %s", fname(fr.f))
	case *ssa.Defer:
		st.defers = append(st.defers, deferRec{x, fl.callArgs(fr, st, x), fl.calleeTerm(fr, st, x)})
	case *ssa.RunDefers:
		states := one(st)
		ds := st.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range states {
				s.defers = append([]deferRec(nil), ds[:i]...)
				for _, o := range fl.call(fr, s, ds[i].site, ds[i].args, ds[i].fn) {
					next = append(next, o.st)
				}
			}
			states = next
		}
		return states
	case *ssa.Call:
		var r []*State
		for _, o := range fl.call(fr, st, x, fl.callArgs(fr, st, x), fl.calleeTerm(fr, st, x)) {
			if len(o.res) == 1 {
				o.st.env[x] = o.res[0]
			} else {
				o.st.env[x] = fl.tuple(o.res)
			}
			r = append(r, o.st)
		}
		return r
	default:
		fl.undecided("unsupported instruction %T in %s", in, fname(fr.f))
	}
	return one(st)
}

func (fl *Flow) newObj(st *State, t *Term) {
	for a := range st.mem {
		if root(a) == t {
			delete(st.mem, a)
		}
	}
	delete(st.esc, t)
	delete(st.dirty, t)
	delete(st.ver, fmt.Sprintf("a:%d", t.id))
}

func (fl *Flow) lenAt(b *Term, typ types.Type) *Term {
	t := typ.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return fl.tt.konst(a.Len())
	}
	return fl.tt.lenOf(b)
}

func (fl *Flow) sliceOf(b, lo, hi *Term, from, to types.Type) *Term {
	if hi == nil {
		if _, ok := from.Underlying().(*types.Pointer); ok {
			hi = fl.lenAt(b, from) // array
		} else if lo.isConst() && lo.n == 0 {
			return b
		}
	}
	if b.op == "slice" {
		off := linOf(b.a[1])
		if hi == nil {
			hi = fl.tt.lenOf(b)
		}
		lo = fl.tt.fromLin(linOf(lo).add(off, 1), types.Typ[types.Int])
		hi = fl.tt.fromLin(linOf(hi).add(off, 1), types.Typ[types.Int])
		b = b.a[0]
	}
	if hi == nil {
		return fl.tt.mk("slice", to, 0, "", nil, nil, b, lo)
	}
	return fl.tt.mk("slice", to, 0, "", nil, nil, b, lo, hi)
}

// ---------------------------------------------------------------------- calls

func (fl *Flow) callArgs(fr *frame, st *State, in ssa.CallInstruction) []*Term {
	var r []*Term
	c := in.Common()
	if c.IsInvoke() {
		r = append(r, fl.eval(fr, st, c.Value))
	}
	for _, a := range c.Args {
		r = append(r, fl.eval(fr, st, a))
	}
	return r
}

func (fl *Flow) calleeTerm(fr *frame, st *State, in ssa.CallInstruction) *Term {
	c := in.Common()
	if c.IsInvoke() || c.StaticCallee() != nil && len(c.StaticCallee().FreeVars) == 0 {
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return fl.eval(fr, st, c.Value)
}

// purePkgs do not write to the memory of their callers.
var purePkgs = map[string]bool{"fmt": true, "log": true, "errors": true, "strings": true, "math": true, "strconv": true,
	"path/filepath": true, "path": true, "os": true, "math/bits": true, "time": true, "unicode": true,
	"github.com/arl/math32": true, "github.com/arl/assertgo": true}

func (fl *Flow) call(fr *frame, st *State, in ssa.CallInstruction, args []*Term, ft *Term) []Outcome {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fl.builtin(fr, st, in, b, args)
	}
	callee := c.StaticCallee()
	var frees []*Term
	if c.IsInvoke() {
		if args[0].op == "iface" {
			callee = fl.prog.LookupMethod(args[0].typ, c.Method.Pkg(), c.Method.Name())
			if callee != nil {
				args = append([]*Term{args[0].a[0]}, args[1:]...)
			}
		}
	} else if ft != nil {
		if f := fl.funcs[ft]; f != nil {
			callee = f
			frees = ft.a
		}
	}
	if len(frees) > 0 && !(callee.Blocks != nil && fl.canInline(callee)) {
		for _, b := range frees {
			fl.markEsc(st, b)
		}
	}
	var outs []Outcome
	done := false
	if fl.cl.Call != nil {
		outs, done = fl.cl.Call(fl, st, in, callee, args)
	}
	if !done {
		q := qname(callee)
		if terminators[q] {
			if fl.cl.Exit != nil {
				fl.cl.Exit(fl, st, callee, in)
			}
			return nil
		}
		if isPanicCall(in) {
			if fl.cl.Panic != nil {
				fl.cl.Panic(fl, st, in)
			}
			return nil
		}
		if callee != nil && callee.Blocks != nil && fl.canInline(callee) {
			ctx := st.ctx + "/" + fr.f.Name() + "." + fl.iid(in)
			outs = fl.exec(callee, args, frees, st, ctx, false)
		} else {
			fl.opaque(st, in, callee, args)
			name := "call"
			if callee != nil {
				name = callee.Name()
			} else if c.IsInvoke() {
				name = c.Method.Name()
			}
			outs = []Outcome{{st, fl.freshResult(st, name, in)}}
			if q := qname(callee); (q == "fmt.Errorf" || q == "errors.New") && len(outs[0].res) == 1 {
				st.facts.assumeNe(outs[0].res[0], fl.tt.konst(0))
			}
		}
	}
	if fl.cl.After != nil {
		for _, o := range outs {
			var res *Term
			if len(o.res) == 1 {
				res = o.res[0]
			} else {
				res = fl.tuple(o.res)
			}
			fl.cl.After(fl, o.st, in, callee, args, res)
		}
	}
	var r []Outcome
	for _, o := range outs {
		if !o.st.facts.bad {
			r = append(r, o)
		}
	}
	return r
}

func (fl *Flow) canInline(f *ssa.Function) bool {
	if len(fl.stack) > 14 || f.Blocks == nil {
		return false
	}
	for _, g := range fl.stack {
		if g == f {
			return false
		}
	}
	if fl.cl.Inline != nil {
		return fl.cl.Inline(fl, f)
	}
	return fl.inModule(f)
}

func (fl *Flow) opaque(st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) {
	classes := map[string]bool{}
	add := func(f *ssa.Function) {
		for c := range fl.modSet(f) {
			classes[c] = true
		}
	}
	pure := false
	if callee != nil {
		if pk := funcPkg(callee); pk != nil && purePkgs[pk.Path()] {
			pure = true
		} else {
			add(callee)
		}
	} else {
		for _, f := range fl.callees(in) {
			add(f)
		}
	}
	if callee == nil || !pure {
		for _, a := range args {
			fl.markEsc(st, a)
		}
	}
	if callee != nil && !pure && fl.isStd(callee) {
		for _, a := range args {
			t := a.typ
			if t == nil {
				continue
			}
			if isObjAddr(a) {
				t = types.NewPointer(t)
			}
			reachClasses(t, classes, 0)
		}
	}
	fl.havoc(st, classes, st.ctx+"/"+fl.iid(in))
}

func isObjAddr(a *Term) bool {
	return a.op == "fa" || a.op == "ia" || a.op == "alloc" || a.op == "global"
}

func (p *Prog) isStd(f *ssa.Function) bool {
	pk := funcPkg(f)
	return pk != nil && !strings.Contains(strings.SplitN(pk.Path(), "/", 2)[0], ".")
}

func (fl *Flow) builtin(fr *frame, st *State, in ssa.CallInstruction, b *ssa.Builtin, args []*Term) []Outcome {
	res := func(t *Term) []Outcome { return []Outcome{{st, []*Term{t}}} }
	switch b.Name() {
	case "len":
		return res(fl.lenAt(args[0], in.Common().Args[0].Type()))
	case "cap":
		return res(fl.tt.mk("cap", types.Typ[types.Int], 0, "", nil, nil, args[0]))
	case "append":
		if len(args) < 2 {
			return res(args[0])
		}
		fl.markEsc(st, args[1])
		fl.markEsc(st, args[0])
		if s, ok := args[1], true; ok && s.op == "slice" {
			// the appended values
			for a, v := range st.mem {
				if root(a) == root(s) {
					fl.markEsc(st, v)
				}
			}
		}
		t := fl.tt.mk("append", in.Value().Type(), 0, "@"+st.ctx+"/"+fl.iid(in), nil, fl.loops, args[0], args[1])
		if fl.cl.After != nil {
			fl.cl.After(fl, st, in, nil, args, t)
		}
		return res(t)
	case "copy":
		cs := map[string]bool{}
		if s, ok := in.Common().Args[0].Type().Underlying().(*types.Slice); ok {
			contentClasses("[]"+typeStr(s.Elem()), s.Elem(), cs)
			r := root(args[0])
			var elems []*Term
			if n := fl.tt.lenOf(args[0]); fl.cl.CopyElems && n.isConst() && n.n <= 16 {
				k := n.n
				if m := fl.tt.lenOf(args[1]); m.isConst() && m.n < k {
					k = m.n
				}
				for i := int64(0); i < k; i++ {
					elems = append(elems, fl.load(st, fl.indexAddr(args[1], fl.tt.konst(i), s.Elem())))
				}
				for i, e := range elems {
					fl.store(st, fl.indexAddr(args[0], fl.tt.konst(int64(i)), s.Elem()), e, in)
				}
				return res(fl.tt.konst(k))
			}
			if st.local(r) {
				st.dirty[r] = true
				for a := range st.mem {
					if root(a) == r {
						delete(st.mem, a)
					}
				}
				fl.bump(st, fmt.Sprintf("a:%d", r.id), st.ctx+"/"+fl.iid(in))
			} else {
				fl.havoc(st, cs, st.ctx+"/"+fl.iid(in))
			}
		}
		if fl.cl.After != nil {
			fl.cl.After(fl, st, in, nil, args, nil)
		}
		return res(fl.fresh(st, "copied", types.Typ[types.Int], in, 0))
	case "panic":
		if fl.cl.Panic != nil {
			fl.cl.Panic(fl, st, in)
		}
		return nil
	case "min", "max":
		t := fl.fresh(st, b.Name(), in.Value().Type(), in, 0)
		if isIntType(in.Value().Type()) {
			for _, a := range args {
				if b.Name() == "min" {
					st.facts.assumeLe(t, a, 0)
				} else {
					st.facts.assumeLe(a, t, 0)
				}
			}
		}
		return res(t)
	case "recover":
		return res(fl.fresh(st, "recover", in.Value().Type(), in, 0))
	case "ssa:wrapnilchk":
		return res(args[0])
	}
	if v := in.Value(); v != nil && v.Type() != nil {
		if tt, ok := v.Type().(*types.Tuple); !ok || tt.Len() > 0 {
			return []Outcome{{st, fl.freshResult(st, b.Name(), in)}}
		}
	}
	return []Outcome{{st, nil}}
}

// calledOnly: the closure is only called, or deferred, by the function that makes it: what it binds is reached by nothing else.
func calledOnly(x *ssa.MakeClosure) bool {
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.Call:
			if r.Call.Value != x || usedAsArg(&r.Call, x) {
				return false
			}
		case *ssa.Defer:
			if r.Call.Value != x || usedAsArg(&r.Call, x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func usedAsArg(c *ssa.CallCommon, v ssa.Value) bool {
	for _, a := range c.Args {
		if a == v {
			return true
		}
	}
	return false
}
