package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "K07",
		Rule:  "fault propagation: on every path of the exported builders of sample (the functions of the package inlined), each call of a recast stage (a function with the build context and a bool result), of a function with an error result and of a detour function with a Status result (RemoveTile excepted) is followed both as a success and as a failure; a return after a failure must have the constant result false and no navigation mesh, and a return that may report true must have a navigation mesh.",
		Floor: []Floor{{"builders", 2}, {"failing calls", 16}, {"returns", 20}, {"returns after a failure", 16}},
		Run:   runK07,
	})
	register(&Check{
		ID:    "P04",
		Rule:  "fault propagation: on every path of the exported functions of detour, recast and sample with an error result and of the commands, each call that reports an error or a status is followed both as a success and as a failure; a return after a failure must have a non-nil error, and a command must exit with a non-zero status. Created files are tracked: each is closed on every return, and the failure of closing it, deferred or not, counts. Buffered writers keep the errors of their writes until they are flushed, and must be flushed before a return without error; scanners keep theirs until Err is called.",
		Floor: []Floor{{"operations", 9}, {"failing calls", 18}, {"returns after a failure", 18}, {"created files", 2}},
		Assum: []string{"a call through an interface or of a function outside the module that has an error result may fail, except printing on the terminal and in memory buffers, asking whether a file exists, and closing a file that was not created"},
		Run:   runP04,
	})
	register(&Check{
		ID:    "L01",
		Rule:  "on every path of the commands, a file is created or truncated (os.Create, os.OpenFile, os.WriteFile, SaveToFile) only where asking for the status of the file of this very name has failed, or where a character or text derived from the standard input is known to be a yes.",
		Floor: []Floor{{"commands", 3}, {"files created", 2}, {"confirmed", 2}, {"not existing", 2}},
		Run:   runL01,
	})
	register(&Check{
		ID:    "L02",
		Rule:  "on every path of the commands build, config and infos (found by the name they are registered with), a normal return or an exit with status 0 happens only after the work was done: build saved the navigation mesh of a successful build, made for the requested type; config wrote and closed its file; infos decoded its file; or after the standard input was read and no yes was found in it. The failure of a call that reports one is never followed by a normal return, and the exits have a non-zero constant status. The root command's error makes the program exit with a non-zero status.",
		Floor: []Floor{{"commands", 3}, {"work done", 4}, {"error exits", 8}, {"declined", 2}},
		Run:   runL02,
	})
}

// faults is a flow client that lets calls fail.
type faults struct {
	c        *Ctx
	failing  func(callee *ssa.Function, com *ssa.CallCommon) bool // among those with a result that can report a failure
	inline   map[*ssa.Function]bool
	cli      bool
	noSimple bool // do not analyse small functions at their call sites
	sb       statusBits
	create   func(fl *Flow, st *State, in ssa.Instruction, path *Term, what string) // a file is created or truncated
	exit     func(fl *Flow, st *State, in ssa.Instruction, code *Term)
	done     func(fl *Flow, st *State, callee *ssa.Function, args, res []*Term) // a modelled call succeeded
}

// reportsFailure is the kind of failure reported by the results of a signature.
func reportsFailure(sig *types.Signature) (kind string, idx int) {
	rs := sig.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) {
			return "error", i
		}
		if isStatus(rs.At(i).Type()) {
			return "status", i
		}
	}
	if n := rs.Len(); n > 0 && isBoolType(rs.At(n-1).Type()) {
		return "bool", n - 1
	}
	return "", -1
}

// strip removes the interface and conversion wrappers of a term.
func strip(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "conv" || t.op == "convert") && len(t.a) == 1 {
		t = t.a[0]
	}
	return t
}

func isGlobalNamed(t *Term, names ...string) bool {
	return t != nil && t.any(func(x *Term) bool {
		if x.op != "global" {
			return false
		}
		for _, n := range names {
			if strings.HasSuffix(x.aux, n) {
				return true
			}
		}
		return false
	})
}

func tainted(t *Term) bool {
	return t != nil && t.any(func(x *Term) bool { return x.op == "sym" && strings.HasPrefix(x.aux, "stdin:") })
}

func typeName(t types.Type) string {
	if n := named(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// termType is the Go type of a pointer-like term.
func termType(t *Term) string {
	t = strip(t)
	if t == nil || t.typ == nil {
		return ""
	}
	return typeName(t.typ)
}

func calleeName(callee *ssa.Function, com *ssa.CallCommon) string {
	if callee != nil {
		return strings.ReplaceAll(qname(callee), "github.com/arl/go-detour/", "")
	}
	if com.IsInvoke() {
		return typeName(com.Value.Type()) + "." + com.Method.Name()
	}
	return "function value"
}

// exemptCall tells which calls with an error result are not failures of the
// operation.
func exemptCall(name string, callee *ssa.Function, com *ssa.CallCommon, args []*Term) bool {
	switch name {
	case "fmt.Print", "fmt.Println", "fmt.Printf", "os.Stat", "os.Lstat", "fmt.Errorf", "errors.New", "errors.Unwrap", "errors.Join",
		"fmt.Scan", "fmt.Scanln", "fmt.Scanf":
		return true
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		if isGlobalNamed(args[0], "os.Stdout", "os.Stderr") {
			return true
		}
		switch termType(args[0]) {
		case "bytes.Buffer", "strings.Builder":
			return true
		}
	}
	if strings.Contains(name, "bytes.Buffer") || strings.Contains(name, "strings.Builder") || strings.Contains(name, "context.") {
		return true
	}
	for _, a := range args {
		if isGlobalNamed(a, "os.Stdin") || tainted(a) {
			return true
		}
	}
	return false
}

func (fa *faults) note(name string, in ssa.Instruction) {
	fa.c.Distinct("failing calls", name+"@"+fa.c.instrPos(in))
}

func fileKey(t *Term) string { return fmt.Sprintf("file:%d", t.id) }

// call is the Call hook.
func (fa *faults) call(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
	com := site.Common()
	name := calleeName(callee, com)
	kind, idx := reportsFailure(com.Signature())
	stdin := false
	for _, a := range args {
		if isGlobalNamed(a, "os.Stdin") || tainted(a) {
			stdin = true
		}
	}
	opaque := func(s *State) []*Term {
		fl.opaque(s, site, callee, args)
		n := name
		if stdin {
			n = "stdin:" + n
		}
		return fl.freshResult(s, n, site)
	}
	external := callee == nil || !fl.inModule(callee) || callee.Blocks == nil

	// the standard input
	switch name {
	case "fmt.Scan", "fmt.Scanln", "fmt.Scanf":
		stdin = true
	}
	if stdin && external {
		res := opaque(st)
		st.gs["stdin"] = "read"
		for i, a := range args {
			fa.taintPointees(fl, st, a, fmt.Sprintf("stdin:%s/%d@%s", name, i, fl.iid(site)), 0)
		}
		// predicates on the text
		if len(res) == 1 && isBoolType(res[0].typ) {
			for _, a := range args {
				if a.op == "sconst" && yes(a.aux) && !strings.Contains(name, "Not") {
					st2 := st.clone()
					st.facts.assumeEq(res[0], fl.tt.konst(0))
					st2.facts.assumeEq(res[0], fl.tt.konst(1))
					st2.gs["confirmed"] = "yes"
					return []Outcome{{st, res}, {st2, res}}, true
				}
			}
		}
		return []Outcome{{st, res}}, true
	}

	switch name {
	case "os.Stat", "os.Lstat":
		res := opaque(st)
		st2 := st.clone()
		st.facts.assumeEq(res[1], fl.tt.konst(0))
		st.gs["exists"] = "yes"
		st2.facts.assumeNe(res[1], fl.tt.konst(0))
		st2.gs["exists"] = "no"
		st.gt["statpath"], st2.gt["statpath"] = args[0], args[0]
		return []Outcome{{st, res}, {st2, res}}, true
	case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "(*detour.NavMesh).SaveToFile":
		path := args[0]
		if name == "(*detour.NavMesh).SaveToFile" {
			if !fa.cli {
				break
			}
			path = args[1]
		}
		write := true
		if name == "os.OpenFile" {
			if b, ok := com.Args[1].(*ssa.Const); ok && b.Value != nil && b.Value.Kind() == constant.Int {
				n := b.Int64()
				write = n&(1|2|0x40|0x200|0x400) != 0 && n&0x80 == 0 // not O_EXCL
				if n&0x80 != 0 || n&(0x200) == 0 && n&3 == 0 {
					write = false
				}
			}
		}
		if write {
			if fa.create != nil {
				fa.create(fl, st, site, path, name)
			}
		}
		fa.note(name, site)
		st2 := st.clone()
		res := opaque(st)
		opaque(st2)
		ei := len(res) - 1
		st.facts.assumeEq(res[ei], fl.tt.konst(0))
		if len(res) == 2 {
			st.facts.assumeNe(res[0], fl.tt.konst(0))
			if write || name == "os.OpenFile" {
				st.gs[fileKey(res[0])] = "open"
				fa.c.Distinct("created files", fa.c.instrPos(site))
			}
			st2.facts.assumeEq(res[0], fl.tt.konst(0))
		}
		st.gs["wrote"] = "yes"
		if fa.done != nil {
			fa.done(fl, st, callee, args, res)
		}
		st2.facts.assumeNe(res[ei], fl.tt.konst(0))
		st2.gs["failed"] = name
		return []Outcome{{st, res}, {st2, res}}, true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		res := opaque(st)
		st.gs[fileKey(res[0])] = "clean"
		return []Outcome{{st, res}}, true
	case "(*bufio.Scanner).Scan":
		if !stdin {
			res := opaque(st)
			st2, st3 := st.clone(), st.clone()
			st.facts.assumeEq(res[0], fl.tt.konst(1))
			st2.facts.assumeEq(res[0], fl.tt.konst(0))
			st3.facts.assumeEq(res[0], fl.tt.konst(0))
			if st3.gs["failed"] == "" {
				st3.gs["failed"] = name
			}
			st3.gs["scan:"+fileKey(args[0])] = "failed"
			fa.note(name, site)
			return []Outcome{{st, res}, {st2, res}, {st3, res}}, true
		}
	case "(*bufio.Scanner).Err":
		res := opaque(st)
		if st.gs["scan:"+fileKey(args[0])] == "failed" {
			st.facts.assumeNe(res[0], fl.tt.konst(0))
		} else {
			st.facts.assumeEq(res[0], fl.tt.konst(0))
		}
		return []Outcome{{st, res}}, true
	case "(*os.File).Close":
		k := fileKey(strip(args[0]))
		switch st.gs[k] {
		case "":
			return []Outcome{{st, opaque(st)}}, true // not created by this function
		case "closed":
			res := opaque(st) // closing it twice reports an error, nothing is lost
			return []Outcome{{st, res}}, true
		}
		st.gs[k] = "closed"
	}

	// a writer that keeps its errors until it is flushed
	var buf *Term
	for _, a := range args {
		if s := strip(a); s != nil && st.gs[fileKey(s)] != "" && st.gs[fileKey(s)] != "open" && st.gs[fileKey(s)] != "closed" {
			buf = s
		}
	}
	if buf != nil && external {
		k := fileKey(buf)
		res := opaque(st)
		if name == "(*bufio.Writer).Flush" {
			fa.note(name, site)
			st2 := st.clone()
			st2.facts.assumeNe(res[0], fl.tt.konst(0))
			if st2.gs["failed"] == "" {
				st2.gs["failed"] = name
			}
			st2.gs[k] = "clean"
			if st.gs[k] == "sticky" {
				return []Outcome{{st2, res}}, true
			}
			st.facts.assumeEq(res[0], fl.tt.konst(0))
			if st.gs[k] == "dirty" {
				st.gs["content"] = "yes"
			}
			st.gs[k] = "clean"
			return []Outcome{{st, res}, {st2, res}}, true
		}
		if kind == "error" {
			fa.note(name, site)
			st2 := st.clone()
			if st.gs[k] != "sticky" {
				st.gs[k] = "dirty"
				st.facts.assumeEq(res[idx], fl.tt.konst(0))
			}
			st2.gs[k] = "sticky"
			st2.facts.assumeNe(res[idx], fl.tt.konst(0))
			if st.gs[k] == "sticky" {
				return []Outcome{{st2, res}}, true
			}
			return []Outcome{{st, res}, {st2, res}}, true
		}
		return []Outcome{{st, res}}, true
	}

	if kind == "" || exemptCall(name, callee, com, args) || !fa.failing(callee, com) {
		return nil, false
	}
	if kind == "bool" && external {
		return nil, false
	}
	if !external && (fa.inline[callee] && !fa.opaqueRoot(callee) || fa.c.neverFails(callee, 0)) {
		return nil, false
	}
	fa.note(name, site)
	st2 := st.clone()
	res := opaque(st)
	opaque(st2)
	one, zero := fl.tt.konst(1), fl.tt.konst(0)
	switch kind {
	case "error":
		st.facts.assumeEq(res[idx], zero)
		st2.facts.assumeNe(res[idx], zero)
	case "status":
		st.facts.assumeBits(res[idx], fa.sb.S, fa.sb.F|fa.sb.P)
		st2.facts.assumeBits(res[idx], fa.sb.F, fa.sb.S|fa.sb.P)
	case "bool":
		st.facts.assumeEq(res[idx], one)
		st2.facts.assumeEq(res[idx], zero)
	}
	for i, r := range res {
		if _, ok := r.typ.Underlying().(*types.Pointer); ok && i != idx {
			st.facts.assumeNe(r, zero)
		}
	}
	if st2.gs["failed"] == "" {
		st2.gs["failed"] = name
	}
	for _, a := range args {
		if s := strip(a); external && name != "(*os.File).Close" && s != nil && st.gs[fileKey(s)] == "open" {
			st.gs["content"] = "yes"
		}
	}
	if fa.done != nil {
		fa.done(fl, st, callee, args, res)
	}
	return []Outcome{{st, res}, {st2, res}}, true
}

// neverFails tells whether the result of f that could report an error is the
// constant nil.
func (p *Prog) neverFails(f *ssa.Function, depth int) bool {
	kind, idx := reportsFailure(f.Signature)
	if kind != "error" || depth > 4 || f.Blocks == nil || !p.inModule(f) {
		return false
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		switch v := r.Results[idx].(type) {
		case *ssa.Const:
			if v.Value == nil {
				continue
			}
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && p.neverFails(g, depth+1) {
				continue
			}
		case *ssa.Extract:
			if call, ok := v.Tuple.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && p.neverFails(g, depth+1) {
					continue
				}
			}
		}
		return false
	}
	return true
}

// opaqueRoot: an operation of the module that is checked by itself.
func (fa *faults) opaqueRoot(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Parent() == nil
}

// taintPointees marks the content of the memory that args of a call point to
// as read from the standard input.
func (fa *faults) taintPointees(fl *Flow, st *State, a *Term, name string, depth int) {
	a = strip(a)
	if a == nil || depth > 2 {
		return
	}
	switch {
	case a.op == "slice" || a.op == "alloc" || a.op == "make":
		if a.op == "slice" {
			a = a.a[0]
		}
		for addr, v := range st.mem {
			if addr.op == "ia" && root(addr) == root(a) && addr != a {
				fa.taintPointees(fl, st, v, fmt.Sprintf("%s.%d", name, addr.id), depth+1)
			}
		}
		if a.op == "alloc" {
			if _, ok := a.typ.Underlying().(*types.Basic); ok {
				st.mem[a] = fl.tt.mk("sym", a.typ, 0, name, nil, fl.loops)
			}
		}
	case a.op == "global" || a.op == "fa" || a.op == "ia":
		if _, ok := contentType(a).Underlying().(*types.Basic); ok {
			st.mem[a] = fl.tt.mk("sym", contentType(a), 0, name, nil, fl.loops)
		}
	}
}

func yes(s string) bool {
	s = strings.TrimSpace(s)
	return s != "" && (s[0] == 'y' || s[0] == 'Y')
}

// branch notices that a text from the standard input is a yes.
func (fa *faults) branch(fl *Flow, st *State) {
	if st.gs["stdin"] == "" || st.gs["confirmed"] == "yes" {
		return
	}
	for t, v := range st.facts.truth {
		if v && t.op == "eqs" && (t.a[0].op == "sconst" && yes(t.a[0].aux) && tainted(t.a[1]) || t.a[1].op == "sconst" && yes(t.a[1].aux) && tainted(t.a[0])) {
			st.gs["confirmed"] = "yes"
			return
		}
	}
	seen := map[*Term]bool{}
	chk := func(t *Term) {
		if t == nil || seen[t] || t.isConst() || !tainted(t) {
			return
		}
		seen[t] = true
		if t.typ == nil {
			return
		}
		if bt, ok := t.typ.Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			return
		}
		lo, hi := st.facts.Range(t)
		if lo == hi && (lo == 'y' || lo == 'Y') {
			st.gs["confirmed"] = "yes"
		}
	}
	for k := range st.facts.diff {
		chk(k.x)
		chk(k.y)
	}
	for _, t := range st.env {
		chk(t)
	}
}

func (fa *faults) client() *Client {
	return &Client{
		Call:   fa.call,
		Branch: fa.branch,
		Inline: func(fl *Flow, g *ssa.Function) bool {
			if fa.noSimple {
				k, _ := reportsFailure(g.Signature)
				return fa.inline[g] || k != "" && fl.simpleFn(g)
			}
			return fa.inline[g] || fl.simpleFn(g)
		},
		Exit: func(fl *Flow, st *State, callee *ssa.Function, in ssa.Instruction) {
			if fa.exit == nil {
				return
			}
			code := fl.tt.konst(1) // log.Fatal
			if call, ok := in.(ssa.CallInstruction); ok && qname(callee) == "os.Exit" {
				if k, ok := call.Common().Args[0].(*ssa.Const); ok {
					code = fl.constant(k)
				} else if t := st.env[call.Common().Args[0]]; t != nil {
					code = t
				} else {
					code = fl.tt.mk("sym", types.Typ[types.Int], 0, "exit code", nil, nil)
				}
			}
			fa.exit(fl, st, in, code)
		},
	}
}

// openThings are the files and buffers that are not closed or flushed.
func openThings(st *State) (files, bufs int) {
	for k, v := range st.gs {
		if strings.HasPrefix(k, "file:") {
			switch v {
			case "open":
				files++
			case "dirty", "sticky":
				bufs++
			}
		}
	}
	return
}

// ---------------------------------------------------------------------- K07

func runK07(c *Ctx) {
	sb := c.statusBits()
	inSample := func(f *ssa.Function) bool { return strings.HasPrefix(relPkg(funcPkg(f)), "sample") }
	failing := func(f *ssa.Function, com *ssa.CallCommon) bool {
		kind, _ := reportsFailure(com.Signature())
		if f == nil || inSample(f) {
			return false
		}
		if !c.inModule(f) {
			return kind == "error"
		}
		switch kind {
		case "error":
			return true
		case "status":
			return f.Name() != "RemoveTile"
		case "bool":
			for _, p := range f.Params {
				if isNamed(p.Type(), "recast", "BuildContext") {
					return relPkg(funcPkg(f)) == "recast" && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil
				}
			}
		}
		return false
	}
	inline := map[*ssa.Function]bool{}
	for _, f := range c.srcFuncs {
		if inSample(f) {
			inline[f] = true
		}
	}
	var roots []*ssa.Function
	for _, f := range c.srcFuncs {
		if !inSample(f) || !exportedEntry(f) || f.Synthetic != "" {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() >= 1 && isBoolType(rs.At(rs.Len()-1).Type()) {
			for i := 0; i < rs.Len(); i++ {
				if isNamed(rs.At(i).Type(), "detour", "NavMesh") {
					roots = append(roots, f)
				}
			}
		}
	}
	c.Parallel(len(roots), func(i int) {
		f := roots[i]
		c.Count("builders", 1)
		fa := &faults{c: c, failing: failing, inline: inline, sb: sb, noSimple: true}
		cl := fa.client()
		fl := newFlow(c.Prog, cl)
		rs := f.Signature.Results()
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			c.Count("returns", 1)
			ok, known := fl.cond(st, res[len(res)-1])
			failed := st.gs["failed"]
			if failed != "" {
				c.Count("returns after a failure", 1)
				if !known || ok {
					fl.Report("lost:"+fname(f)+":"+failed, fl.instrPos(in), "%s may report success after %s has failed; %s", fname(f), failed, fl.Path(st))
				}
			}
			for i, r := range res[:len(res)-1] {
				if !isNamed(rs.At(i).Type(), "detour", "NavMesh") {
					continue
				}
				if (!known || ok) && !st.facts.isNe(r, fl.tt.konst(0)) && !isObjAddr(r) {
					fl.Report("no-mesh:"+fname(f), fl.instrPos(in), "%s may report success without a navigation mesh (%s); %s", fname(f), r, fl.Path(st))
				}
				if known && !ok && !(r.isConst() && r.n == 0) && !isZero(st, r) {
					fl.Report("mesh:"+fname(f), fl.instrPos(in), "%s returns a navigation mesh (%s) with a failure; %s", fname(f), r, fl.Path(st))
				}
			}
		}
		fl.Run(f, nil)
		fl.Finish(c, fname(f))
		c.Sample("%s: %d functions, %d blocks, %d steps", fname(f), len(fl.Visited), len(fl.Blocks), fl.steps)
	})
}

func isZero(st *State, t *Term) bool {
	lo, hi := st.facts.Range(t)
	return lo == 0 && hi == 0
}

// ---------------------------------------------------------------------- P04

// commands are the functions run by the commands of the command line tool, by
// the name of the command ("" for the functions that run the root command).
func (c *Ctx) commands() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	isCmd := func(t types.Type) bool {
		n := named(t)
		return n != nil && n.Obj().Name() == "Command" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "spf13/cobra")
	}
	for _, f := range c.srcFuncs {
		if !strings.HasPrefix(relPkg(funcPkg(f)), "cmd") {
			continue
		}
		use := map[ssa.Value]string{}
		run := map[ssa.Value]*ssa.Function{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isCmd(fa.X.Type()) {
					continue
				}
				s := deref(fa.X.Type()).Underlying().(*types.Struct)
				switch s.Field(fa.Field).Name() {
				case "Use":
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						use[fa.X] = strings.Fields(constant.StringVal(k.Value) + " ?")[0]
					}
				case "Run", "RunE":
					switch v := st.Val.(type) {
					case *ssa.Function:
						run[fa.X] = v
					case *ssa.MakeClosure:
						run[fa.X] = v.Fn.(*ssa.Function)
					case *ssa.ChangeType:
						if g, ok := v.X.(*ssa.Function); ok {
							run[fa.X] = g
						}
					}
				}
			}
		}
		for v, g := range run {
			r[use[v]] = g
		}
	}
	return r
}

// mainFuncs run the root command: main, and the functions that execute a cobra
// command.
func (c *Ctx) mainFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.srcFuncs {
		if !strings.HasPrefix(relPkg(funcPkg(f)), "cmd") {
			continue
		}
		if f.Name() == "main" && f.Signature.Recv() == nil {
			r = append(r, f)
		}
	}
	return r
}

func isCLI(f *ssa.Function) bool { return strings.HasPrefix(relPkg(funcPkg(f)), "cmd") }

// cliInline: everything of the command packages.
func (c *Ctx) cliInline() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range c.srcFuncs {
		if isCLI(f) {
			m[f] = true
		}
	}
	return m
}

// cliFailing: the calls of a command that can report a failure.
func cliFailing(c *Ctx) func(f *ssa.Function, com *ssa.CallCommon) bool {
	return func(f *ssa.Function, com *ssa.CallCommon) bool {
		kind, _ := reportsFailure(com.Signature())
		if f != nil && isCLI(f) {
			return false
		}
		if kind == "bool" {
			return f != nil && c.inModule(f) && exportedEntry(f) && relPkg(funcPkg(f)) != "recast"
		}
		return true
	}
}

func runP04(c *Ctx) {
	sb := c.statusBits()
	fallible := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					kind, _ := reportsFailure(call.Common().Signature())
					if kind == "error" || kind == "status" {
						return true
					}
				}
			}
		}
		return false
	}
	lib := c.relevant(fallible)
	type job struct {
		f   *ssa.Function
		cli bool
	}
	var jobs []job
	for _, f := range c.srcFuncs {
		if isLibPkg(relPkg(funcPkg(f))) && f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() {
			if k, _ := reportsFailure(f.Signature); k == "error" {
				jobs = append(jobs, job{f, false})
			}
		}
	}
	for _, f := range c.commands() {
		jobs = append(jobs, job{f, true})
	}
	for _, f := range c.mainFuncs() {
		jobs = append(jobs, job{f, true})
	}
	sort.Slice(jobs, func(i, j int) bool { return jobs[i].f.String() < jobs[j].f.String() })
	c.Parallel(len(jobs), func(i int) {
		f := jobs[i].f
		c.Count("operations", 1)
		fa := &faults{c: c, sb: sb, cli: jobs[i].cli}
		if fa.cli {
			fa.inline = c.cliInline()
			fa.failing = cliFailing(c)
		} else {
			fa.inline = lib
			fa.failing = func(g *ssa.Function, com *ssa.CallCommon) bool {
				k, _ := reportsFailure(com.Signature())
				return k != "bool"
			}
		}
		cl := fa.client()
		fl := newFlow(c.Prog, cl)
		_, idx := reportsFailure(f.Signature)
		leaks := func(fl *Flow, st *State, in ssa.Instruction, reported bool) {
			files, bufs := openThings(st)
			if files > 0 {
				fl.Report("open:"+fname(f), fl.instrPos(in), "%s returns without closing a file it created; %s", fname(f), fl.Path(st))
			}
			if bufs > 0 && !reported {
				fl.Report("unflushed:"+fname(f), fl.instrPos(in), "%s returns without error, and without having flushed a buffered writer or reported its errors; %s", fname(f), fl.Path(st))
			}
		}
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			reported := false
			if idx >= 0 && isErrorType(res[idx].typ0(f, idx)) {
				reported = st.facts.isNe(res[idx], fl.tt.konst(0)) || res[idx].op == "iface"
			}
			if failed := st.gs["failed"]; failed != "" {
				c.Count("returns after a failure", 1)
				if !reported {
					fl.Report("lost:"+fname(f)+":"+failed, fl.instrPos(in), "%s may return without error after %s has failed; %s", fname(f), failed, fl.Path(st))
				}
			}
			leaks(fl, st, in, reported)
		}
		fa.exit = func(fl *Flow, st *State, in ssa.Instruction, code *Term) {
			if failed := st.gs["failed"]; failed != "" {
				c.Count("returns after a failure", 1)
				if !st.facts.isNe(code, fl.tt.konst(0)) {
					fl.Report("exit:"+fname(f)+":"+failed, fl.instrPos(in), "%s may exit with status 0 after %s has failed; %s", fname(f), failed, fl.Path(st))
				}
			}
		}
		fl.Run(f, nil)
		fl.Finish(c, fname(f))
		c.Sample("%s: %d functions, %d blocks", fname(f), len(fl.Visited), len(fl.Blocks))
	})
}

// typ0 is the declared type of a result.
func (t *Term) typ0(f *ssa.Function, i int) types.Type { return f.Signature.Results().At(i).Type() }

// ----------------------------------------------------------------- L01, L02

func (c *Ctx) cliFaults() *faults {
	return &faults{c: c, sb: c.statusBits(), cli: true, inline: c.cliInline(), failing: cliFailing(c)}
}

func (c *Ctx) theCommands() (names []string, m map[string]*ssa.Function) {
	m = c.commands()
	for _, n := range []string{"build", "config", "infos"} {
		if m[n] == nil {
			c.Undecided("command:"+n, "", "the function run by the command %s was not found", n)
		}
	}
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

func runL01(c *Ctx) {
	names, m := c.theCommands()
	c.Parallel(len(names), func(i int) {
		f := m[names[i]]
		c.Count("commands", 1)
		fa := c.cliFaults()
		fa.create = func(fl *Flow, st *State, in ssa.Instruction, path *Term, what string) {
			c.Count("files created", 1)
			switch {
			case st.gs["confirmed"] == "yes":
				c.Count("confirmed", 1)
			case st.gs["exists"] == "no" && st.gt["statpath"] == path:
				c.Count("not existing", 1)
			default:
				why := "without having asked whether it exists"
				if st.gs["exists"] == "yes" {
					why = "although it exists, without a confirmation"
				} else if st.gs["exists"] == "no" {
					why = "but the name whose existence was asked is another"
				}
				fl.Report("overwrite:"+names[i]+":"+what, fl.instrPos(in), "the command %s creates its output file %s; %s", names[i], why, fl.Path(st))
			}
		}
		fl := newFlow(c.Prog, fa.client())
		fl.Run(f, nil)
		fl.Finish(c, fname(f))
		c.Sample("%s (%s): %d functions, %d blocks", names[i], fname(f), len(fl.Visited), len(fl.Blocks))
	})
}

// found tells whether the last text looked up in a map was there.
func found(fl *Flow, st *State) bool {
	if ok := st.gt["lookup ok"]; ok != nil {
		v, known := st.facts.cond(ok)
		return known && v
	}
	v := st.gt["lookup"]
	if v == nil {
		return false
	}
	zero := st.facts.tt.konst(0)
	if st.facts.isNe(v, zero) {
		return true
	}
	lo, _ := st.facts.Range(st.facts.tt.lenOf(v))
	return lo > 0
}

func runL02(c *Ctx) {
	names, m := c.theCommands()
	type root struct {
		name string
		f    *ssa.Function
	}
	var roots []root
	for _, n := range names {
		roots = append(roots, root{n, m[n]})
	}
	for _, f := range c.mainFuncs() {
		roots = append(roots, root{"", f})
	}
	c.Parallel(len(roots), func(i int) {
		f, cmd := roots[i].f, roots[i].name
		if cmd != "" {
			c.Count("commands", 1)
		}
		fa := c.cliFaults()
		fa.done = func(fl *Flow, st *State, callee *ssa.Function, args, res []*Term) {
			if callee == nil {
				return
			}
			switch q := calleeName(callee, nil); {
			case callee.Name() == "Build" && strings.HasPrefix(relPkg(funcPkg(callee)), "sample/"):
				st.gs["built"] = relPkg(funcPkg(callee))
				st.gt["mesh"] = res[0]
			case q == "(*detour.NavMesh).SaveToFile" && st.gs["built"] != "":
				if st.gt["mesh"] == args[0] {
					st.gs["saved"] = "yes"
				}
			case q == "detour.Decode":
				st.gs["decoded"] = "yes"
			case q == "os.WriteFile" || q == "io/ioutil.WriteFile":
				st.gs["content"] = "yes"
			}
		}
		worked := func(fl *Flow, st *State) (bool, string) {
			switch cmd {
			case "build":
				if st.gs["saved"] != "yes" {
					return false, "saved the navigation mesh it built"
				}
				want := map[string]string{"sample/solomesh": "solo", "sample/tilemesh": "tile"}[st.gs["built"]]
				return st.gs["type"] == want, "been asked for a navigation mesh of type " + want
			case "config":
				files, bufs := openThings(st)
				if st.gs["wrote"] != "yes" || st.gs["content"] != "yes" || files+bufs > 0 {
					return false, "written and closed the settings file"
				}
				if st.gs["type"] == "" && !found(fl, st) {
					return false, "found out whether it knows the requested type"
				}
			case "infos":
				if st.gs["decoded"] != "yes" {
					return false, "decoded the navigation mesh"
				}
			}
			return true, ""
		}
		ended := func(fl *Flow, st *State, in ssa.Instruction, how string) {
			if failed := st.gs["failed"]; failed != "" {
				fl.Report("failed:"+cmd+":"+failed, fl.instrPos(in), "the command %q %s after %s has failed; %s", cmd, how, failed, fl.Path(st))
				return
			}
			if cmd == "" {
				return
			}
			ok, what := worked(fl, st)
			switch {
			case ok:
				c.Count("work done", 1)
			case st.gs["stdin"] == "read" && st.gs["confirmed"] != "yes":
				c.Count("declined", 1)
			default:
				fl.Report("undone:"+cmd, fl.instrPos(in), "the command %q %s without having %s; %s", cmd, how, what, fl.Path(st))
			}
		}
		cl := fa.client()
		if cmd == "config" {
			cl.Instr = func(fl *Flow, st *State, in ssa.Instruction) {
				// the settings looked up by their type
				x, ok := in.(*ssa.Lookup)
				if !ok {
					return
				}
				m, ok := x.X.Type().Underlying().(*types.Map)
				if !ok || !isStringType(m.Key()) {
					return
				}
				delete(st.gt, "lookup ok")
				st.gt["lookup"] = fl.fresh(st, "lookup", m.Elem(), in, 0)
				if x.CommaOk {
					st.gt["lookup ok"] = fl.fresh(st, "ok", types.Typ[types.Bool], in, 1)
				}
			}
			cl.Key = func(st *State) string { return fmt.Sprint(found(nil, st)) }
		}
		cl.Branch = func(fl *Flow, st *State) {
			fa.branch(fl, st)
			if st.gs["type"] != "" {
				return
			}
			for t, v := range st.facts.truth {
				if v && t.op == "eqs" {
					for _, x := range t.a {
						if x.op == "sconst" && (x.aux == "solo" || x.aux == "tile") {
							st.gs["type"] = x.aux
						}
					}
				}
			}
		}
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			for i, r := range res {
				if isErrorType(r.typ0(f, i)) && (st.facts.isNe(r, fl.tt.konst(0)) || r.op == "iface") {
					c.Count("error exits", 1)
					return
				}
			}
			ended(fl, st, in, "returns normally")
		}
		fa.exit = func(fl *Flow, st *State, in ssa.Instruction, code *Term) {
			if st.facts.isNe(code, fl.tt.konst(0)) {
				c.Count("error exits", 1)
				return
			}
			ended(fl, st, in, "exits with status 0")
		}
		fl := newFlow(c.Prog, cl)
		fl.Run(f, nil)
		fl.Finish(c, fname(f))
		c.Sample("%q (%s): %d functions, %d blocks", cmd, fname(f), len(fl.Visited), len(fl.Blocks))
	})
}
