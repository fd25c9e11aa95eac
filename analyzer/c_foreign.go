package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "P03",
		Rule:  "on every path of Decode, AddTile and InitForSingleTile that ends in success, the magic number and the version of the header read on this path are known to equal the expected constants; where they are known to differ, Decode returns an error and the others a status with the wrong-magic or wrong-version flag. In Decode, every read from the input may fail or end early and is then an error, a read that may return less than was asked for must be shown to have been complete, and no buffer is made with a size that may be negative.",
		Floor: []Floor{{"operations", 3}, {"header fields read", 4}, {"successes", 3}, {"foreign data", 4}, {"reads of the input", 3}, {"sizes checked", 2}},
		Run:   runP03,
	})
}

func runP03(c *Ctx) {
	sb := c.statusBits()
	hdrs := map[string][2]int64{
		"navMeshSetHeader": {c.constVal("detour", "navMeshSetMagic"), c.constVal("detour", "navMeshSetVersion")},
		"MeshHeader":       {c.constVal("detour", "navMeshMagic"), c.constVal("detour", "navMeshVersion")},
	}
	flags := [2]uint64{uint64(c.constVal("detour", "WrongMagic")), uint64(c.constVal("detour", "WrongVersion"))}
	fields := [2]string{"Magic", "Version"}
	// field returns the ghost name of a header field.
	field := func(addr *Term) string {
		if addr.op != "fa" {
			return ""
		}
		n := named(deref(contentType(addr.a[0])))
		if n == nil {
			n = named(contentType(addr.a[0]))
		}
		if n == nil || n.Obj().Pkg() == nil || relPkg(n.Obj().Pkg()) != "detour" {
			return ""
		}
		if _, ok := hdrs[n.Obj().Name()]; !ok {
			return ""
		}
		st := n.Underlying().(*types.Struct)
		for _, f := range fields {
			if st.Field(int(addr.n)).Name() == f {
				return n.Obj().Name() + "." + f
			}
		}
		return ""
	}
	rel := c.relevant(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if n := named(deref(fa.X.Type())); n != nil {
							if _, ok := hdrs[n.Obj().Name()]; ok {
								return true
							}
						}
					}
				}
			}
		}
		return false
	})
	roots := []struct{ name, hdr string }{{"Decode", "navMeshSetHeader"}, {"NavMesh.AddTile", "MeshHeader"}, {"NavMesh.InitForSingleTile", "MeshHeader"}}
	c.Parallel(len(roots), func(i int) {
		f := c.fn("detour", roots[i].name)
		hdr := roots[i].hdr
		c.Count("operations", 1)
		fa := &faults{c: c, sb: sb, inline: rel}
		fa.failing = func(g *ssa.Function, com *ssa.CallCommon) bool {
			k, _ := reportsFailure(com.Signature())
			return k == "error" || k == "status" && g != nil && exportedEntry(g)
		}
		set := func(st *State, name string, v *Term) {
			st.gt[name] = v
			c.Distinct("header fields read", f.Name()+name)
		}
		cl := &Client{}
		cl.Inline = func(fl *Flow, g *ssa.Function) bool { return rel[g] || c.simpleFn(g) }
		cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if n := field(addr); n != "" {
				set(st, n, val)
			}
		}
		cl.Instr = func(fl *Flow, st *State, in ssa.Instruction) {
			if mk, ok := in.(*ssa.MakeSlice); ok && roots[i].name == "Decode" && in.Parent() == f {
				t := st.env[mk.Len]
				if k, ok := mk.Len.(*ssa.Const); ok {
					t = fl.constant(k)
				}
				if t == nil {
					return
				}
				c.Count("sizes checked", 1)
				if lo, _ := st.facts.Range(t); lo < 0 {
					fl.Report("size:"+fname(f), fl.instrPos(in), "%s makes a buffer of a size read from the input, which may be negative (%s); %s", fname(f), t, fl.Path(st))
				}
			}
		}
		cl.Call = func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			com := site.Common()
			name := calleeName(callee, com)
			if roots[i].name != "Decode" {
				// a tile added by another operation that is checked by itself
				return nil, false
			}
			if strings.HasSuffix(name, ".Read") && len(args) == 2 && (com.IsInvoke() || callee != nil && !fl.inModule(callee)) {
				// may read less than was asked for
				c.Count("reads of the input", 1)
				st2 := st.clone()
				fl.opaque(st, site, callee, args)
				fl.opaque(st2, site, callee, args)
				res := fl.freshResult(st, "read", site)
				st.gs["short"] = fl.instrPos(site)
				st.gt["read"] = res[0]
				st.gt["asked"] = fl.lenAt(args[1], args[1].typ)
				st.facts.assumeEq(res[1], fl.tt.konst(0))
				st2.facts.assumeNe(res[1], fl.tt.konst(0))
				if st2.gs["failed"] == "" {
					st2.gs["failed"] = name
				}
				return []Outcome{{st, res}, {st2, res}}, true
			}
			if name == "encoding/binary.Read" || name == "io.ReadFull" || name == "io.ReadAll" || name == "io.ReadAtLeast" {
				c.Count("reads of the input", 1)
			}
			outs, ok := fa.call(fl, st, site, callee, args)
			if name == "encoding/binary.Read" && len(outs) > 0 {
				if p := strip(args[2]); p != nil && isObjAddr(p) {
					if s, ok := contentType(p).Underlying().(*types.Struct); ok {
						for k := 0; k < s.NumFields(); k++ {
							if n := field(fl.fieldAddr(p, k)); n != "" {
								v := fl.tt.mk("sym", s.Field(k).Type(), 0, "read:"+n+"@"+fl.iid(site), nil, fl.loops)
								outs[0].st.mem[fl.fieldAddr(p, k)] = v
								set(outs[0].st, n, v)
							}
						}
					} else if n := field(p); n != "" {
						set(outs[0].st, n, fl.load(outs[0].st, p))
					}
				}
			}
			return outs, ok
		}
		cl.Branch = func(fl *Flow, st *State) {
			if n, a := st.gt["read"], st.gt["asked"]; st.gs["short"] != "" && n != nil && st.facts.le(a, n, 0) {
				delete(st.gs, "short")
			}
		}
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			var succ, fail bool
			var status *Term
			for k, r := range res {
				switch {
				case isErrorType(r.typ0(f, k)):
					fail = st.facts.isNe(r, fl.tt.konst(0)) || r.op == "iface"
					succ = !fail
				case isStatus(r.typ0(f, k)):
					status = r
					b := st.facts.Bits(r)
					fail = b.ones&sb.F != 0
					succ = !fail && b.zeros&sb.S == 0
				}
			}
			if succ {
				c.Count("successes", 1)
				if st.gs["short"] != "" {
					fl.Report("short:"+fname(f), fl.instrPos(in), "%s may succeed although a read of the input returned less than was asked for; %s", fname(f), fl.Path(st))
				}
				if failed := st.gs["failed"]; failed != "" {
					fl.Report("early:"+fname(f)+":"+failed, fl.instrPos(in), "%s may succeed although %s reported an error or the end of the input; %s", fname(f), failed, fl.Path(st))
				}
			}
			for k, fd := range fields {
				v := st.gt[hdr+"."+fd]
				want := hdrs[hdr][k]
				if succ {
					lo, hi := int64(0), int64(-1)
					if v != nil {
						lo, hi = st.facts.Range(v)
					}
					if lo != want || hi != want {
						fl.Report("accepts:"+fname(f)+":"+fd, fl.instrPos(in), "%s may succeed although the %s in the header is not %#x; %s", fname(f), strings.ToLower(fd), want, fl.Path(st))
					}
				}
				if v != nil && st.facts.isNe(v, fl.tt.konst(want)) {
					c.Count("foreign data", 1)
					if !fail {
						fl.Report("foreign:"+fname(f)+":"+fd, fl.instrPos(in), "%s reports no failure although the %s is wrong; %s", fname(f), strings.ToLower(fd), fl.Path(st))
					} else if status != nil && st.facts.Bits(status).ones&flags[k] == 0 {
						fl.Report("flag:"+fname(f)+":"+fd, fl.instrPos(in), "%s does not report the wrong %s; %s", fname(f), strings.ToLower(fd), fl.Path(st))
					}
				}
			}
		}
		fl := newFlow(c.Prog, cl)
		fl.K = 8
		fl.Run(f, nil)
		fl.Finish(c, fname(f))
		c.Sample("%s: %d functions, %d blocks, %d steps", fname(f), len(fl.Visited), len(fl.Blocks), fl.steps)
		if verbose {
			fmt.Println(fname(f), fl.steps)
		}
	})
}
