package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Flow is a path-sensitive abstract interpretation of one function and of the
// functions it calls. The abstract values are terms; a state has facts about
// them, the known memory cells, and the ghost variables of the client.
type Flow struct {
	thresholds []int64 // upper bounds to try when an integer grows in a loop
	*Prog
	tt       *termTable
	cl       *Client
	steps    int
	max      int
	undec    []string
	found    []flowFinding
	stack    []*ssa.Function
	loops    []int // active loop instances
	lids     map[string]int
	iids     map[ssa.Instruction]string
	K        int // disjuncts kept at a block
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	regs     map[*ssa.Function]*region
	funcs    map[*Term]*ssa.Function
	envs     []map[ssa.Value]*Term // of the calling frames
	deadline time.Time
	Visited  map[*ssa.Function]bool // functions analysed, by inlining or as the root
	Blocks   map[*ssa.BasicBlock]bool
}

type flowFinding struct {
	key, pos, msg string
	undecided     bool
}

// Client is the property-specific part of a flow analysis.
type Client struct {
	// Call models a call; ok is false to use the default treatment.
	Call func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) (outs []Outcome, ok bool)
	// After is called with each state in which a call has been executed.
	After func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term)
	// Inline tells whether a callee with a body is analysed at the call site.
	Inline    func(fl *Flow, callee *ssa.Function) bool
	Store     func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term)
	Split     func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term // a case distinction before a store
	Load      func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term
	Index     func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term)
	Slice     func(fl *Flow, st *State, in *ssa.Slice, base, lo, hi *Term)
	Return    func(fl *Flow, st *State, in *ssa.Return, res []*Term) // of the root function
	Panic     func(fl *Flow, st *State, in ssa.Instruction)
	Exit      func(fl *Flow, st *State, callee *ssa.Function, in ssa.Instruction) // process termination
	Back      func(fl *Flow, st *State, header *ssa.BasicBlock)
	Instr     func(fl *Flow, st *State, in ssa.Instruction)
	Branch    func(fl *Flow, st *State)                          // after a condition was assumed
	Phi       func(fl *Flow, st *State, phi *ssa.Phi, val *Term) // a value taken on the way into a block
	BinOp     func(fl *Flow, st *State, in *ssa.BinOp, x, y *Term)
	Convert   func(fl *Flow, st *State, in *ssa.Convert, x *Term)
	CopyElems bool                                            // follow the elements copied to short arrays; the source is taken to be as long as they are
	Cond      func(fl *Flow, st *State, cond *Term, val bool) // after cond was found or assumed to be val
	Key       func(st *State) string
	Unroll    int // loops running at most so many times, a known number, are unrolled
}

// Outcome is a way a call can end.
type Outcome struct {
	st  *State
	res []*Term
}

type deferRec struct {
	site ssa.CallInstruction
	args []*Term
	fn   *Term
}

type traceNode struct {
	prev *traceNode
	pos  token.Pos
	val  bool
}

// State is one abstract state.
type State struct {
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	ver    map[string]*Term
	facts  *Facts
	gs     map[string]string
	gt     map[string]*Term
	esc    map[*Term]bool
	dirty  map[*Term]bool // allocations whose content is no longer known to be zero
	defers []deferRec
	trace  *traceNode
	ctx    string
}

func (s *State) clone() *State {
	t := &State{env: make(map[ssa.Value]*Term, len(s.env)), mem: make(map[*Term]*Term, len(s.mem)), ver: make(map[string]*Term, len(s.ver)),
		facts: s.facts.clone(), gs: make(map[string]string, len(s.gs)), gt: make(map[string]*Term, len(s.gt)),
		esc: make(map[*Term]bool, len(s.esc)), dirty: make(map[*Term]bool, len(s.dirty)), trace: s.trace, ctx: s.ctx}
	for k, v := range s.env {
		t.env[k] = v
	}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	for k, v := range s.ver {
		t.ver[k] = v
	}
	for k, v := range s.gs {
		t.gs[k] = v
	}
	for k, v := range s.gt {
		t.gt[k] = v
	}
	for k := range s.esc {
		t.esc[k] = true
	}
	for k := range s.dirty {
		t.dirty[k] = true
	}
	t.defers = append([]deferRec(nil), s.defers...)
	return t
}

func newFlow(p *Prog, cl *Client) *Flow {
	return &Flow{Prog: p, tt: newTermTable(), cl: cl, max: 6000000, lids: map[string]int{}, iids: map[ssa.Instruction]string{}, K: 16,
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, regs: map[*ssa.Function]*region{},
		funcs: map[*Term]*ssa.Function{}, Visited: map[*ssa.Function]bool{}, Blocks: map[*ssa.BasicBlock]bool{}}
}

func (fl *Flow) newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, ver: map[string]*Term{}, facts: newFacts(fl.tt),
		gs: map[string]string{}, gt: map[string]*Term{}, esc: map[*Term]bool{}, dirty: map[*Term]bool{}}
}

// Report records a finding; those of unstable loop iterations are discarded.
func (fl *Flow) Report(key, pos, format string, args ...interface{}) {
	fl.found = append(fl.found, flowFinding{key, pos, fmt.Sprintf(format, args...), false})
}

func (fl *Flow) undecided(format string, args ...interface{}) {
	fl.undec = append(fl.undec, fmt.Sprintf(format, args...))
}

// Path renders the last decisions of a state.
func (fl *Flow) Path(st *State) string {
	var s []string
	for n := st.trace; n != nil && len(s) < 14; n = n.prev {
		v := "T"
		if !n.val {
			v = "F"
		}
		s = append([]string{fl.pos(n.pos) + "=" + v}, s...)
	}
	return "path: " + strings.Join(s, " ")
}

// Run analyses f. setup initializes the entry state.
func (fl *Flow) Run(f *ssa.Function, setup func(st *State, params []*Term)) {
	st := fl.newState()
	var params []*Term
	for _, p := range f.Params {
		params = append(params, fl.param(st, p))
	}
	if setup != nil {
		setup(st, params)
	}
	var frees []*Term
	for _, v := range f.FreeVars {
		frees = append(frees, fl.tt.mk("sym", v.Type(), 0, "free:"+v.Name(), nil, nil))
	}
	outs := fl.exec(f, params, frees, st, "", true)
	_ = outs
}

func (fl *Flow) param(st *State, p *ssa.Parameter) *Term {
	return fl.tt.mk("sym", p.Type(), 0, p.Name(), nil, nil)
}

// Finish hands the findings to the context.
func (fl *Flow) Finish(c *Ctx, what string) {
	for _, f := range fl.found {
		c.Violate(f.key, f.pos, "%s", f.msg)
	}
	seen := map[string]bool{}
	for _, u := range fl.undec {
		if !seen[u] {
			seen[u] = true
			c.Undecided("flow:"+what, what, "%s", u)
		}
	}
}

// ------------------------------------------------------------------- regions

type region struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock // headers stand for their loops
	sub    map[*ssa.BasicBlock]*region
	bad    bool
}

func buildRegion(header *ssa.BasicBlock, blocks []*ssa.BasicBlock, entry *ssa.BasicBlock) *region {
	r := &region{header: header, blocks: map[*ssa.BasicBlock]bool{}, sub: map[*ssa.BasicBlock]*region{}}
	for _, b := range blocks {
		r.blocks[b] = true
	}
	// Tarjan over the blocks, without the edges to the header
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	var sccs [][]*ssa.BasicBlock
	n := 0
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		n++
		index[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		for _, s := range b.Succs {
			if !r.blocks[s] || s == header {
				continue
			}
			if index[s] == 0 {
				visit(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && index[s] < low[b] {
				low[b] = index[s]
			}
		}
		if low[b] == index[b] {
			var scc []*ssa.BasicBlock
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				scc = append(scc, x)
				if x == b {
					break
				}
			}
			sccs = append(sccs, scc)
		}
	}
	visit(entry)
	for i := len(sccs) - 1; i >= 0; i-- {
		scc := sccs[i]
		self := false
		for _, s := range scc[0].Succs {
			if s == scc[0] && s != header {
				self = true
			}
		}
		if len(scc) == 1 && !self {
			r.order = append(r.order, scc[0])
			continue
		}
		in := map[*ssa.BasicBlock]bool{}
		for _, b := range scc {
			in[b] = true
		}
		var heads []*ssa.BasicBlock
		for _, b := range scc {
			h := b == entry
			for _, p := range b.Preds {
				if !in[p] && index[p] != 0 {
					h = true
				}
			}
			if h {
				heads = append(heads, b)
			}
		}
		if len(heads) != 1 {
			r.bad = true
			continue
		}
		sort.Slice(scc, func(i, j int) bool { return scc[i].Index < scc[j].Index })
		sub := buildRegion(heads[0], scc, heads[0])
		if sub.bad {
			r.bad = true
		}
		r.sub[heads[0]] = sub
		r.order = append(r.order, heads[0])
	}
	return r
}

func (fl *Flow) regionOf(f *ssa.Function) *region {
	if r := fl.regs[f]; r != nil {
		return r
	}
	r := buildRegion(nil, f.Blocks, f.Blocks[0])
	fl.regs[f] = r
	return r
}

// liveness: the values needed at the entry of each block, phis excluded.
func (fl *Flow) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := fl.live[f]; l != nil {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && tracked(phi.Edges[k]) {
							cur[phi.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	// phis of the block itself may be in the set through a loop: harmless
	fl.live[f] = l
	return l
}

// ------------------------------------------------------------------ execution

type frame struct {
	f       *ssa.Function
	ctx     string
	root    bool
	returns []Outcome
	retIn   []*ssa.Return
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
	done    bool // the recover block is not analysed
}

func (fl *Flow) iid(in ssa.Instruction) string {
	if s, ok := fl.iids[in]; ok {
		return s
	}
	b := in.Block()
	for i, o := range b.Instrs {
		fl.iids[o] = fmt.Sprintf("%d.%d", b.Index, i)
	}
	return fl.iids[in]
}

func (fl *Flow) exec(f *ssa.Function, args, frees []*Term, st *State, ctx string, root bool) []Outcome {
	fl.Visited[f] = true
	reg := fl.regionOf(f)
	if reg.bad {
		fl.undecided("irreducible control flow in %s", fname(f))
		return nil
	}
	fr := &frame{f: f, ctx: ctx, root: root, live: fl.liveIn(f)}
	callerEnv, callerDefers, callerCtx := st.env, st.defers, st.ctx
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	st.ctx = ctx
	for i, p := range f.Params {
		st.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		if i < len(frees) {
			st.env[v] = frees[i]
		}
	}
	fl.stack = append(fl.stack, f)
	fl.envs = append(fl.envs, callerEnv)
	exits := fl.runNodes(fr, reg, f.Blocks[0], []*State{st}, nil)
	_ = exits
	fl.stack = fl.stack[:len(fl.stack)-1]
	fl.envs = fl.envs[:len(fl.envs)-1]
	for i := range fr.returns {
		s := fr.returns[i].st
		s.env = make(map[ssa.Value]*Term, len(callerEnv))
		for k, v := range callerEnv {
			s.env[k] = v
		}
		s.defers = append([]deferRec(nil), callerDefers...)
		s.ctx = callerCtx
		if !root {
			fl.gcMem(s, fr.returns[i].res)
		}
	}
	return fl.mergeOutcomes(fr, fr.returns)
}

type edge struct {
	to *ssa.BasicBlock
	st *State
}

// runNodes runs the blocks of a region; the states leaving it are returned by
// target, those going back to its header under the header.
func (fl *Flow) runNodes(fr *frame, reg *region, entry *ssa.BasicBlock, states []*State, _ []*State) map[*ssa.BasicBlock][]*State {
	pending := map[*ssa.BasicBlock][]*State{entry: states}
	out := map[*ssa.BasicBlock][]*State{}
	route := func(to *ssa.BasicBlock, s *State) {
		if to == reg.header || !reg.blocks[to] {
			out[to] = append(out[to], s)
			return
		}
		pending[to] = append(pending[to], s)
	}
	for _, b := range reg.order {
		ss := pending[b]
		if len(ss) == 0 {
			continue
		}
		delete(pending, b)
		if sub := reg.sub[b]; sub != nil {
			for to, es := range fl.runLoop(fr, sub, ss) {
				for _, s := range es {
					route(to, s)
				}
			}
			continue
		}
		if b != reg.header {
			ss = fl.reduce(fr, b, ss)
		}
		for _, s := range ss {
			for _, e := range fl.runBlock(fr, b, s) {
				route(e.to, e.st)
			}
		}
	}
	return out
}

func (fl *Flow) stepBudget() bool {
	fl.steps++
	if fl.steps%64 == 0 && !fl.deadline.IsZero() && fl.steps <= fl.max && time.Now().After(fl.deadline) {
		fl.steps = fl.max + 1
	}
	if fl.steps > fl.max {
		if fl.steps == fl.max+1 {
			fl.undecided("the analysis needs more than %d steps", fl.max)
		}
		return false
	}
	return true
}

func (fl *Flow) runBlock(fr *frame, b *ssa.BasicBlock, st *State) []edge {
	fl.Blocks[b] = true
	states := []*State{st}
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if !fl.stepBudget() {
			return nil
		}
		if i == len(b.Instrs)-1 {
			break
		}
		var next []*State
		for _, s := range states {
			if fl.cl.Instr != nil {
				fl.cl.Instr(fl, s, in)
			}
			next = append(next, fl.step(fr, s, in)...)
		}
		states = next
		if len(states) == 0 {
			return nil
		}
	}
	var edges []edge
	last := b.Instrs[len(b.Instrs)-1]
	for _, s := range states {
		switch x := last.(type) {
		case *ssa.Jump:
			edges = append(edges, fl.takeEdge(fr, b, 0, s))
		case *ssa.If:
			cond := fl.eval(fr, s, x.Cond)
			val, known := fl.cond(s, cond)
			pos := x.Cond.Pos()
			if !pos.IsValid() {
				pos = x.Pos()
			}
			for k := 0; k < 2; k++ {
				if known && val != (k == 0) {
					continue
				}
				t := s
				if !known && k == 0 {
					t = s.clone()
				}
				if !known {
					fl.assume(t, cond, k == 0)
					if t.facts.bad {
						continue
					}
				}
				if fl.cl.Branch != nil {
					fl.cl.Branch(fl, t)
				}
				if fl.cl.Cond != nil {
					what, val := cond, k == 0
					for what.op == "notb" {
						what, val = what.a[0], !val
					}
					fl.cl.Cond(fl, t, what, val)
				}
				t.trace = &traceNode{t.trace, pos, k == 0}
				edges = append(edges, fl.takeEdge(fr, b, k, t))
			}
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, fl.eval(fr, s, r))
			}
			if fr.root && fl.cl.Return != nil {
				fl.cl.Return(fl, s, x, res)
			}
			fr.returns = append(fr.returns, Outcome{s, res})
			fr.retIn = append(fr.retIn, x)
		case *ssa.Panic:
			if fl.cl.Panic != nil {
				fl.cl.Panic(fl, s, x)
			}
		default:
			fl.undecided("unsupported terminator %T in %s", last, fname(fr.f))
		}
	}
	return edges
}

func (fl *Flow) takeEdge(fr *frame, b *ssa.BasicBlock, k int, s *State) edge {
	to := b.Succs[k]
	idx := -1
	occ := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == to {
			occ++
		}
	}
	for i, p := range to.Preds {
		if p == b {
			if occ == 0 {
				idx = i
				break
			}
			occ--
		}
	}
	type pv struct {
		phi *ssa.Phi
		v   *Term
	}
	var pvs []pv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{phi, fl.eval(fr, s, phi.Edges[idx])})
	}
	live := fr.live[to]
	env := make(map[ssa.Value]*Term, len(live)+len(pvs))
	for v, t := range s.env {
		if live[v] {
			env[v] = t
		}
	}
	for _, x := range pvs {
		if fl.cl.Phi != nil {
			fl.cl.Phi(fl, s, x.phi, x.v)
		}
		env[x.phi] = x.v
	}
	s.env = env
	return edge{to, s}
}

// ----------------------------------------------------------------------- loops

type partition struct {
	key    string
	A      *State
	dirty  bool
	inc    map[pair]int
	drop   map[pair]bool
	exits  map[*ssa.BasicBlock][]*State
	rets   []Outcome
	retIn  []*ssa.Return
	found  []flowFinding
	undec  []string
	back   []*State
	visits int
}

func (fl *Flow) loopID(ctx string, h *ssa.BasicBlock) int {
	k := fmt.Sprintf("%s#%s#%d", ctx, h.Parent().String(), h.Index)
	if id, ok := fl.lids[k]; ok {
		return id
	}
	fl.lids[k] = len(fl.lids) + 1
	return fl.lids[k]
}

// loopKey separates the states at a loop header that are never joined.
func (fl *Flow) mergeKey(st *State, b *ssa.BasicBlock) string {
	k := fl.stateKey(st, b)
	var vs []ssa.Value
	for v := range st.env {
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b && !isStatus(v.Type()) {
			continue
		}
		t := v.Type()
		if isBoolType(t) || isStatus(t) || isErrorType(t) {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		k += "|" + fl.nilness(st, st.env[v], v.Type())
	}
	return k
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (fl *Flow) stateKey(st *State, b *ssa.BasicBlock) string {
	var sb strings.Builder
	var ks []string
	for k, v := range st.gs {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ";"))
	if fl.cl.Key != nil {
		sb.WriteString("|" + fl.cl.Key(st))
	}
	if b != nil {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			sb.WriteString("|" + fl.nilness(st, st.env[phi], phi.Type()))
		}
	}
	return sb.String()
}

// nilness: the constant value of booleans, and nil-ness of pointers.
func (fl *Flow) nilness(st *State, t *Term, typ types.Type) string {
	if t == nil {
		return "-"
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if isStatus(typ) {
			b := st.facts.Bits(t)
			return fmt.Sprintf("%x", (b.ones>>28)&15)
		}
		if u.Info()&types.IsBoolean != 0 {
			if v, known := fl.cond(st, t); known {
				return fmt.Sprint(v)
			}
		}
	case *types.Pointer, *types.Interface, *types.Signature:
		if t.isConst() {
			return "nil"
		}
		if st.facts.isNe(t, fl.tt.konst(0)) {
			return "set"
		}
	}
	return "?"
}

func (fl *Flow) runLoop(fr *frame, lp *region, entry []*State) map[*ssa.BasicBlock][]*State {
	if fl.cl.Unroll > 0 {
		if out, ok := fl.unroll(fr, lp, entry); ok {
			return out
		}
	}
	id := fl.loopID(fr.ctx, lp.header)
	prefix := fmt.Sprintf("L%d", id)
	parts := map[string]*partition{}
	var order []string
	fl.loops = append(fl.loops, id)
	defer func() { fl.loops = fl.loops[:len(fl.loops)-1] }()
	add := func(s *State) {
		key := fl.stateKey(s, lp.header)
		p := parts[key]
		if p == nil {
			parts[key] = &partition{key: key, A: s, dirty: true, inc: map[pair]int{}, drop: map[pair]bool{}}
			order = append(order, key)
			return
		}
		if fl.joinInto(p.A, s, prefix, lp.header, p) {
			p.dirty = true
		}
	}
	for _, s := range entry {
		add(s)
	}
	for rounds := 0; ; rounds++ {
		var p *partition
		for _, k := range order {
			if parts[k].dirty {
				p = parts[k]
				break
			}
		}
		if p == nil {
			break
		}
		if rounds > 400 || len(order) > 40 {
			fl.undecided("the loop at %s does not stabilize (%d partitions)", fl.instrPos(lp.header.Instrs[0]), len(order))
			break
		}
		p.dirty = false
		p.visits++
		saveFound, saveUndec, saveRets, saveIn := fl.found, fl.undec, fr.returns, fr.retIn
		fl.found, fl.undec, fr.returns, fr.retIn = nil, nil, nil, nil
		exits := fl.runNodes(fr, lp, lp.header, []*State{p.A.clone()}, nil)
		back := exits[lp.header]
		delete(exits, lp.header)
		for _, s := range back {
			if fl.cl.Back != nil {
				fl.cl.Back(fl, s, lp.header)
			}
		}
		p.found, p.undec, p.rets, p.retIn = fl.found, fl.undec, fr.returns, fr.retIn
		fl.found, fl.undec, fr.returns, fr.retIn = saveFound, saveUndec, saveRets, saveIn
		p.exits = exits
		if debugLoops {
			n := 0
			for _, e := range exits {
				n += len(e)
			}
			fmt.Printf("%*sloop %s %s: part %q visit %d back %d exits %d facts %d mem %d steps %d\n", len(fl.loops), "", fname(fr.f), fl.instrPos(lp.header.Instrs[0]), p.key, p.visits, len(back), n, len(p.A.facts.diff), len(p.A.mem), fl.steps)
		}
		if fl.steps > fl.max {
			fl.undec = append(fl.undec, p.undec...)
			return nil
		}
		for _, s := range back {
			fl.scrub(s, id, prefix, lp.header)
			if s.facts.bad {
				continue
			}
			add(s)
		}
	}
	out := map[*ssa.BasicBlock][]*State{}
	for _, k := range order {
		p := parts[k]
		fl.found = append(fl.found, p.found...)
		fl.undec = append(fl.undec, p.undec...)
		fr.returns = append(fr.returns, p.rets...)
		fr.retIn = append(fr.retIn, p.retIn...)
		var tos []*ssa.BasicBlock
		for to := range p.exits {
			tos = append(tos, to)
		}
		sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
		for _, to := range tos {
			out[to] = append(out[to], p.exits[to]...)
		}
	}
	return out
}

// slot names a place whose value is joined.
type slot struct {
	kind string // env, mem, ver, gt
	v    ssa.Value
	addr *Term
	name string
}

func (fl *Flow) slotName(sl slot) string {
	switch sl.kind {
	case "env":
		return "e:" + sl.v.Name()
	case "mem":
		return fmt.Sprintf("m:%d", sl.addr.id)
	}
	return sl.kind + ":" + sl.name
}

func get(s *State, sl slot) *Term {
	switch sl.kind {
	case "env":
		return s.env[sl.v]
	case "mem":
		return s.mem[sl.addr]
	case "ver":
		return s.ver[sl.name]
	}
	return s.gt[sl.name]
}

func set(s *State, sl slot, t *Term) {
	switch sl.kind {
	case "env":
		s.env[sl.v] = t
	case "mem":
		s.mem[sl.addr] = t
	case "ver":
		s.ver[sl.name] = t
	default:
		s.gt[sl.name] = t
	}
}

func slotsOf(s *State) []slot {
	var r []slot
	for v := range s.env {
		r = append(r, slot{kind: "env", v: v})
	}
	for a := range s.mem {
		r = append(r, slot{kind: "mem", addr: a})
	}
	for c := range s.ver {
		r = append(r, slot{kind: "ver", name: c})
	}
	for n := range s.gt {
		r = append(r, slot{kind: "gt", name: n})
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].kind != r[j].kind {
			return r[i].kind < r[j].kind
		}
		switch r[i].kind {
		case "env":
			if r[i].v.Name() != r[j].v.Name() {
				return r[i].v.Name() < r[j].v.Name()
			}
			return r[i].v.Pos() < r[j].v.Pos()
		case "mem":
			return r[i].addr.id < r[j].addr.id
		}
		return r[i].name < r[j].name
	})
	return r
}

func (fl *Flow) slotSym(prefix string, sl slot, typ types.Type) *Term {
	name := prefix + "/" + fl.slotName(sl)
	if sl.kind == "env" {
		name = sl.v.Name() + "@" + name
		if phi, ok := sl.v.(*ssa.Phi); ok && phi.Comment != "" {
			name = phi.Comment + "@" + name
		}
	} else {
		name = "~@" + name
	}
	return fl.tt.mk("sym", typ, 0, name, nil, fl.loops)
}

// scrub prepares a state going back to the header of loop id: what it knows
// about the terms of this iteration is restated for the values carried over.
func (fl *Flow) scrub(s *State, id int, prefix string, header *ssa.BasicBlock) {
	scoped := func(t *Term) bool { return t.inLoop(id) }
	ren := map[*Term]*Term{} // old scoped value -> temporary (unique values only)
	type mv struct {
		sl       slot
		tau, sig *Term
		old      *Term
	}
	var mvs []mv
	for a := range s.mem {
		if scoped(a) {
			delete(s.mem, a)
		}
	}
	for v, t := range s.env {
		if in, ok := v.(ssa.Instruction); ok && scoped(t) && in.Block() != header && !in.Block().Dominates(header) {
			delete(s.env, v)
		}
	}
	fl.gc(s)
	for _, sl := range slotsOf(s) {
		v := get(s, sl)
		if sl.kind == "env" {
			// values defined in the loop, other than the phis of its header
			if in, ok := sl.v.(ssa.Instruction); ok && in.Block() != header && scoped(v) {
				if !in.Block().Dominates(header) {
					delete(s.env, sl.v)
					continue
				}
			}
		}
		if !scoped(v) {
			continue
		}
		if v.typ != nil && isBoolType(v.typ) {
			if b, known := fl.cond(s, v); known {
				// what is known of a condition stays known
				set(s, sl, fl.boolK(b))
				continue
			}
		}
		tau := fl.tt.mk("sym", v.typ, 0, "tau:"+prefix+fl.slotName(sl), nil, nil)
		mvs = append(mvs, mv{sl, tau, fl.slotSym(prefix, sl, v.typ), v})
	}
	// values that are terms of this iteration are renamed; the others become
	// equal to what they are in terms of the renamed ones
	for _, m := range mvs {
		if m.old.op == "lin" {
			continue
		}
		if _, ok := ren[m.old]; !ok {
			ren[m.old] = m.tau
			if m.old.op != "sym" && m.old.typ != nil && isIntType(m.old.typ) {
				// what follows from its form
				if b := s.facts.Bits(m.old); b.ones|b.zeros != 0 {
					s.facts.mut()
					s.facts.bits[m.old] = b
				}
			}
		}
	}
	s.facts.rename(ren)
	equal := map[*Term]*Term{}
	for _, m := range mvs {
		if v := fl.tt.subst(m.old, ren); v != m.tau {
			s.facts.alias(m.tau, v)
		}
		if m.old.op == "lin" {
			for old, o := range equal {
				if d := linOf(old).add(linOf(m.old), -1); len(d.m) == 0 && d.k == 0 {
					s.facts.pin(o, m.tau)
				}
			}
			equal[m.old] = m.tau
		}
	}
	s.facts.project(scoped)
	sub := map[*Term]*Term{}
	for _, m := range mvs {
		sub[m.tau] = m.sig
		set(s, m.sl, m.sig)
	}
	s.facts.rename(sub)
	for a := range s.esc {
		if scoped(a) {
			delete(s.esc, a)
		}
	}
	for a := range s.dirty {
		if scoped(a) {
			delete(s.dirty, a)
		}
	}
}

// threshold is the next bound to try for an integer whose upper bound grew to c.
func (fl *Flow) threshold(k pair, c int64) (int64, bool) {
	if k.y != nil || k.x == nil || k.x.op == "lin" {
		return 0, false
	}
	for _, t := range fl.thresholds {
		if t >= c {
			return t, true
		}
	}
	return 0, false
}

// constThresholds are the integers around the constants of f.
func constThresholds(f *ssa.Function) []int64 {
	set := map[int64]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				k, ok := (*op).(*ssa.Const)
				if !ok || k.Value == nil || !isIntType(k.Type()) || k.Value.Kind() != constant.Int {
					continue
				}
				if n, ok := constant.Int64Val(k.Value); ok && n > 1 && n < 1<<20 {
					set[n-1], set[n], set[n+1] = true, true, true
				}
			}
		}
	}
	var r []int64
	for n := range set {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// joinInto joins s into a; the result tells whether a has changed.
func (fl *Flow) joinInto(a, s *State, prefix string, header *ssa.BasicBlock, p *partition) bool {
	changed := false
	// environment
	slots := slotsOf(a)
	same := map[*Term][]*Term{} // equal places stay equal
	was := map[*Term]*Term{}    // what a place holds in s
	sums := map[*Term]*Term{}
	var focus, kept []*Term
	for _, sl := range slots {
		va, vs := get(a, sl), get(s, sl)
		if sl.kind == "mem" && vs == nil {
			vs = fl.peek(s, sl.addr)
		}
		if sl.kind == "ver" && vs == nil {
			vs = fl.tt.konst(0)
		}
		if vs == nil {
			switch sl.kind {
			case "env":
				delete(a.env, sl.v)
			case "mem":
				delete(a.mem, sl.addr)
			case "gt":
				delete(a.gt, sl.name)
			}
			changed = true
			continue
		}
		if va == vs {
			if va.typ != nil && va.op == "sym" && isIntType(va.typ) && sl.kind != "ver" {
				kept = append(kept, va)
			}
			continue
		}
		typ := va.typ
		if va.isConst() || typ == nil {
			typ = vs.typ
		}
		if sl.kind == "env" {
			typ = sl.v.Type()
		}
		if sl.kind == "mem" {
			typ = contentType(sl.addr)
		}
		if typ != nil && isBoolType(typ) {
			if x, known := fl.cond(a, va); known {
				if y, known := fl.cond(s, vs); known && x == y {
					k := fl.boolK(x)
					if va != k {
						set(a, sl, k)
						changed = true
					}
					set(s, sl, k)
					continue
				}
			}
		}
		sig := fl.slotSym(prefix, sl, typ)
		fl.markEsc(a, va)
		fl.markEsc(s, vs)
		if typ != nil && isIntType(typ) && sl.kind != "ver" {
			focus = append(focus, sig)
		}
		if va != sig {
			a.facts.alias(sig, va)
			set(a, sl, sig)
			changed = true
		}
		if vs != sig {
			s.facts.alias(sig, vs)
			set(s, sl, sig)
		}
		if sl.kind != "ver" && vs.op == "lin" {
			// equal sums are equal places, whatever they are sums of
			if o := sums[vs]; o != nil && o != sig {
				s.facts.pin(o, sig)
			} else {
				sums[vs] = sig
			}
		}
		if sl.kind != "ver" && va != sig {
			was[sig] = vs
			for _, o := range same[va] {
				if was[o] == vs || s.facts.bound(o, sig) == 0 && s.facts.bound(sig, o) == 0 {
					a.facts.pin(o, sig)
					s.facts.pin(o, sig)
					break
				}
			}
			same[va] = append(same[va], sig)
		}
	}
	for _, sl := range slotsOf(s) {
		if get(a, sl) != nil {
			continue
		}
		vs := get(s, sl)
		switch sl.kind {
		case "ver":
			sig := fl.slotSym(prefix, sl, types.Typ[types.Int])
			a.ver[sl.name] = sig
			changed = true
		case "mem":
			// known in s only
			va := fl.peek(a, sl.addr)
			if va == nil {
				continue
			}
			if va == vs {
				a.mem[sl.addr] = va
				continue
			}
			sig := fl.slotSym(prefix, sl, contentType(sl.addr))
			fl.markEsc(a, va)
			fl.markEsc(s, vs)
			a.facts.alias(sig, va)
			if vs != sig {
				s.facts.alias(sig, vs)
			}
			a.mem[sl.addr] = sig
			changed = true
		}
	}
	for t := range s.esc {
		if !a.esc[t] {
			a.esc[t] = true
			changed = true
		}
	}
	for t := range s.dirty {
		if !a.dirty[t] {
			a.dirty[t] = true
			changed = true
		}
	}
	if len(s.defers) != len(a.defers) {
		fl.undecided("deferred calls differ between the paths joined in %s", fname(header.Parent()))
	}
	nf := a.facts.intersect(s.facts)
	if !a.facts.bad && !s.facts.bad {
		nf.restate(a.facts, s.facts, focus)
		nf.ranges(a.facts, s.facts, kept)
	}
	if p != nil {
		if fl.thresholds != nil {
			for _, sl := range slotsOf(a) {
				t := get(a, sl)
				if t == nil || t != get(s, sl) || t.op != "sym" || t.typ == nil || !isIntType(t.typ) {
					continue
				}
				if c := max64(a.facts.bound(t, nil), s.facts.bound(t, nil)); c < 1<<40 && !a.facts.bad && !s.facts.bad {
					nf.diff[pair{t, nil}] = c
				}
			}
		}
		for k, c := range nf.diff {
			if p.drop[k] {
				delete(nf.diff, k)
				continue
			}
			if c > a.facts.bound(k.x, k.y) {
				p.inc[k]++
				if p.inc[k] > 1 {
					if t, ok := fl.threshold(k, c); ok {
						nf.diff[k] = t
						continue
					}
					p.drop[k] = true
					delete(nf.diff, k)
				}
			}
		}
	}
	if nf.implies(a.facts) && !changed {
		return false
	}
	nf.reduce()
	a.facts = nf
	return true
}

// reduce limits the number of states at a block.
func (fl *Flow) reduce(fr *frame, b *ssa.BasicBlock, ss []*State) []*State {
	if len(ss) <= 1 || len(b.Preds) <= 1 && len(ss) <= fl.K {
		return ss
	}
	for _, s := range ss {
		if len(ss) > 3 {
			s.facts.dropOpaque()
		}
		fl.gc(s)
	}
	var r []*State
	for _, s := range ss {
		dup := false
		for _, t := range r {
			if t.same(s) {
				dup = true
				break
			}
		}
		if !dup {
			r = append(r, s)
		}
	}
	if len(r) <= fl.K {
		return r
	}
	prefix := fmt.Sprintf("M%s#%d", fr.ctx, b.Index)
	groups := map[string]*State{}
	var order []string
	for _, s := range r {
		k := fl.mergeKey(s, b)
		if a := groups[k]; a != nil {
			fl.joinInto(a, s, prefix+k, b, nil)
			continue
		}
		groups[k] = s
		order = append(order, k)
	}
	r = nil
	for _, k := range order {
		r = append(r, groups[k])
	}
	return r
}

func (s *State) same(t *State) bool {
	if len(s.env) != len(t.env) || len(s.mem) != len(t.mem) || len(s.ver) != len(t.ver) || len(s.gs) != len(t.gs) || len(s.gt) != len(t.gt) || len(s.defers) != len(t.defers) {
		return false
	}
	for k, v := range s.gs {
		if t.gs[k] != v {
			return false
		}
	}
	for k, v := range s.env {
		if t.env[k] != v {
			return false
		}
	}
	for k, v := range s.mem {
		if t.mem[k] != v {
			return false
		}
	}
	for k, v := range s.ver {
		if t.ver[k] != v {
			return false
		}
	}
	for k, v := range s.gt {
		if t.gt[k] != v {
			return false
		}
	}
	for k := range s.esc {
		if !t.esc[k] {
			return false
		}
	}
	for k := range t.esc {
		if !s.esc[k] {
			return false
		}
	}
	return s.facts.same(t.facts)
}

// mergeOutcomes limits the number of ways a call returns.
func (fl *Flow) mergeOutcomes(fr *frame, outs []Outcome) []Outcome {
	if fr.root || len(outs) <= 6 {
		return outs
	}
	groups := map[string]*State{}
	var order []string
	sig := fr.f.Signature.Results()
	for _, o := range outs {
		k := fl.stateKey(o.st, nil)
		for i, r := range o.res {
			k += "|" + fl.nilness(o.st, r, sig.At(i).Type())
			o.st.gt[fmt.Sprintf("ret%d", i)] = r
		}
		o.st.facts.dropOpaque()
		if a := groups[k]; a != nil {
			fl.joinInto(a, o.st, "R"+fr.ctx+k, fr.f.Blocks[0], nil)
			continue
		}
		groups[k] = o.st
		order = append(order, k)
	}
	var r []Outcome
	for _, k := range order {
		s := groups[k]
		var res []*Term
		for i := 0; i < sig.Len(); i++ {
			n := fmt.Sprintf("ret%d", i)
			res = append(res, s.gt[n])
			delete(s.gt, n)
		}
		r = append(r, Outcome{s, res})
	}
	return r
}

// gcMem forgets the contents of objects that nothing refers to any more.
func (fl *Flow) gcMem(s *State, res []*Term) {
	seen := map[*Term]bool{}
	live := map[*Term]bool{}
	byObj := map[*Term][]*Term{}
	for a := range s.mem {
		if r := root(a); isObj(r) {
			byObj[r] = append(byObj[r], a)
		}
	}
	if len(byObj) == 0 {
		return
	}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if isObj(t) && !live[t] {
			live[t] = true
			for _, a := range byObj[t] {
				mark(a)
				mark(s.mem[a])
			}
		}
		for _, x := range t.a {
			mark(x)
		}
	}
	for a, t := range s.mem {
		if !isObj(root(a)) {
			mark(a)
			mark(t)
		}
	}
	for _, t := range s.env {
		mark(t)
	}
	for _, t := range s.gt {
		mark(t)
	}
	for _, t := range res {
		mark(t)
	}
	for _, e := range fl.envs {
		for _, t := range e {
			mark(t)
		}
	}
	for _, d := range s.defers {
		for _, t := range d.args {
			mark(t)
		}
		mark(d.fn)
	}
	for o, as := range byObj {
		if !live[o] {
			for _, a := range as {
				delete(s.mem, a)
			}
		}
	}
}

// gc forgets the facts about terms that nothing refers to any more.
func (fl *Flow) gc(s *State) {
	if len(s.facts.diff)+len(s.facts.truth)+len(s.facts.ne) < 12 {
		return
	}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			mark(x)
		}
	}
	for _, t := range s.env {
		mark(t)
	}
	for a, t := range s.mem {
		mark(a)
		mark(t)
	}
	for _, t := range s.gt {
		mark(t)
	}
	for _, t := range s.ver {
		mark(t)
	}
	for _, e := range fl.envs {
		for _, t := range e {
			mark(t)
		}
	}
	for _, d := range s.defers {
		for _, t := range d.args {
			mark(t)
		}
	}
	memo := map[*Term]bool{}
	var keep func(t *Term) bool
	keep = func(t *Term) bool {
		if t == nil || t.op == "const" || t.op == "sconst" || seen[t] {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		switch {
		case t.op == "sym":
			r = fl.entryValue(t)
		case t.op == "global":
			r = true
		case len(t.a) > 0:
			r = true
			for _, x := range t.a {
				if !keep(x) {
					r = false
				}
			}
		}
		memo[t] = r
		return r
	}
	some := false
	chk := func(t *Term) {
		if t != nil && !keep(t) {
			some = true
		}
	}
	for k := range s.facts.diff {
		chk(k.x)
		chk(k.y)
	}
	for k := range s.facts.ne {
		chk(k.x)
		chk(k.y)
	}
	for t := range s.facts.truth {
		chk(t)
	}
	for t := range s.facts.bits {
		chk(t)
	}
	for t := range s.facts.nz {
		chk(t)
	}
	if some {
		s.facts.project(func(t *Term) bool { return !keep(t) })
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
