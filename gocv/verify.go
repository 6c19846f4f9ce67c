package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RootResult is the outcome of verifying one function against its contract.
type RootResult struct {
	fn      string
	spec    *FuncSpec
	obls    []*Obl
	unsup   string
	externs []string
	inlined []string
	called  []string
	loops   int
	dur     time.Duration
	paths   int
}

func sortedBool(m map[string]bool) []string { return sortedKeys(m) }

// verifyDeadline, when set, is the time after which obligations get only a short attempt.
var verifyDeadline time.Time

// VerifyRoot generates and discharges the obligations of one function.
func VerifyRoot(pr *Prog, mod *Module, sp *FuncSpec, timeout time.Duration, want func(o *Obl) bool) (res *RootResult) {
	t0 := time.Now()
	res = &RootResult{fn: sp.name, spec: sp}
	fn := pr.fns[sp.name]
	if fn == nil {
		res.unsup = "function not found in the current source"
		return
	}
	u := NewUnit(pr, mod, fn, sp, nil)
	gen := func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(unsupported); ok {
					res.unsup = x.msg
					return
				}
				if os.Getenv("GOCV_PANIC") != "" {
					panic(r)
				}
				res.unsup = fmt.Sprintf("internal: %v", r)
			}
		}()
		u.generate(res)
	}
	gen()
	res.obls = u.obls
	res.externs = sortedBool(u.externs)
	res.inlined = sortedBool(u.inlined)
	res.called = sortedBool(u.called)
	res.loops = u.loops
	nfail := 0
	for _, o := range u.obls {
		if want != nil && !want(o) {
			continue
		}
		to := timeout
		if nfail > 0 && to > 20*time.Second { // the verdict is clear: do not spend long on the rest
			to = 20 * time.Second
		}
		if nfail > 4 || !verifyDeadline.IsZero() && time.Now().After(verifyDeadline) {
			to = 3 * time.Second
		}
		if !verifyDeadline.IsZero() && time.Now().After(verifyDeadline.Add(60*time.Second)) {
			o.res = &SolveResult{why: "not attempted: time is up"}
			if o.goal.isTrue() || o.pc.isFalse() {
				o.res = &SolveResult{ok: true, how: "syntactic"}
			}
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("GOCV_PANIC") != "" {
						panic(r)
					}
					o.res = &SolveResult{why: fmt.Sprintf("internal: %v", r)}
				}
			}()
			o.res = u.Prove(o, to)
		}()
		if !o.res.ok && !o.expectSat {
			nfail++
		}
	}
	res.dur = time.Since(t0)
	return
}

func (u *Unit) generate(res *RootResult) {
	fn, sp, c := u.root, u.spec, u.c
	if len(sp.params) != len(fn.Params) {
		u.fail("contract names %d parameters, function has %d", len(sp.params), len(fn.Params))
	}
	st := &State{pc: c.True(), heap: map[string]*HNode{}, mem: map[string]*MNode{}, ghost: map[string]*Term{}, regs: map[ssa.Value]Val{}}
	env := map[string]SV{}
	var args []Val
	for i, p := range fn.Params {
		v := u.oldVal(sp.params[i], p.Type())
		args = append(args, v)
		env[sp.params[i]] = SV{V: v, T: p.Type()}
	}
	for g := range u.mod.ghosts {
		_ = g
	}
	open := map[string]bool{}
	for n := range u.mod.reveal[sp.name] {
		open[n] = true
	}
	s := &specCtx{u: u, st: st, old: st, env: env, m: u.mod, open: open}
	for _, r := range sp.requires {
		if s.bindPost(r.expr, st) {
			continue
		}
		u.assume(st, s.boolT(r.expr))
	}
	for _, md := range sp.modifies {
		if a, ok := elemsArg(md.expr); ok {
			u.assume(st, u.own(u.term(s.eval(a).V)))
			continue
		}
		if id, ok := selOf(md.expr); ok {
			base := s.eval(id.X)
			root := derefT(base.T)
			ref := u.term(base.V)
			u.modOK[hkey(root, id.Sel.Name)+fmt.Sprint(ref.id)] = true
			if ft := fieldOf(root, id.Sel.Name); elemTypeOf(ft) != nil {
				u.assume(st, u.own(u.term(u.readObj(st, ref, root, id.Sel.Name, ft))))
			}
		}
	}
	entry := st.clone()
	u.entry = entry
	u.rootArgs = args
	fr := u.runFn(fn, args, nil, st, "")
	names := append([]string{}, sp.results...)
	rs := fn.Signature.Results()
	for len(names) < rs.Len() {
		names = append(names, fmt.Sprintf("r%d", len(names)))
	}
	res.paths = len(fr.rets)
	for ri, r := range fr.rets {
		if r.st.pc.isFalse() {
			continue
		}
		env2 := map[string]SV{}
		for k, v := range env {
			env2[k] = v
		}
		for i := 0; i < rs.Len(); i++ {
			T := rs.At(i).Type()
			v := r.vals[i]
			sv := SV{V: v, T: T}
			if et := elemTypeOf(T); et != nil {
				ct, _ := u.valify(r.st, u.contentOf(r.st, u.term(v), et), 0)
				sv = SV{V: u.reslice(ct, u.term(v), et), T: T}
			} else if t, ok := v.(*Term); ok {
				t2, _ := u.valify(r.st, t, 0)
				sv.V = t2
				u.checkComplete(r.st, t, T, u.retPos(r, fn))
			}
			env2[names[i]] = sv
		}
		n := &specCtx{u: u, st: r.st, old: entry, env: env2, m: u.mod, open: open}
		var hints [][2]*Term
		for _, h := range sp.hints {
			v := n.eval(h.expr)
			et := elemTypeOf(v.T)
			if et == nil {
				continue
			}
			t, _ := u.valify(r.st, n.cont(v), 0)
			for _, x := range u.lens {
				if typeKey(x.et) == typeKey(et) && x.ct.sort == t.sort && x.ct != t {
					hints = append(hints, [2]*Term{x.ct, t})
				}
			}
		}
		for _, en := range sp.ensures {
			label := en.label
			if label == "" {
				label = en.src
				if len(label) > 60 {
					label = label[:60]
				}
			}
			t := n.boolT(en.expr)
			t, _ = u.valify(r.st, t, 0)
			o := &Obl{id: fmt.Sprintf("ensures:%s@ret%d", label, ri), kind: "ensures", pos: u.retPos(r, fn), fn: shortName(sp.name), desc: en.src, goal: t, pc: r.st.pc, nfacts: len(u.facts), hints: hints}
			u.obls = append(u.obls, o)
		}
		// frame: fields of pre-existing objects that the contract does not list keep their values (checked at every store)
	}
	// the contract must not be vacuous: some return is reachable
	u.obls = append(u.obls, u.coverObl(fr))
}

// coverObl checks that the assumptions do not contradict every return.
func (u *Unit) coverObl(fr *Frame) *Obl {
	var pcs []*Term
	for _, r := range fr.rets {
		pcs = append(pcs, r.st.pc)
	}
	return &Obl{id: "reachable", kind: "cover", fn: shortName(u.spec.name), desc: "preconditions do not contradict every return", goal: u.c.Not(u.c.Or(pcs...)), pc: u.c.True(), nfacts: len(u.facts), expectSat: true}
}

// reslice is a list value with known (published) content.
func (u *Unit) reslice(ct, h *Term, et types.Type) *Term {
	if h.op == "int" {
		return h
	}
	if isEmptySeq(ct) {
		// keep identity: an empty list need not be nil
		return h
	}
	return u.slOf(ct, et)
}

func (u *Unit) retPos(r retEdge, fn *ssa.Function) string {
	for i := len(r.blk.Instrs) - 1; i >= 0; i-- {
		if ret, ok := r.blk.Instrs[i].(*ssa.Return); ok {
			return u.pos(ret, fn)
		}
	}
	return ""
}

func (o *Obl) name() string { return strings.ReplaceAll(o.fn+"/"+o.id, " ", "_") }
