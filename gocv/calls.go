package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) call(st *State, cc *ssa.CallCommon, in ssa.Instruction, pos string) Val {
	var fn Val
	if cc.IsInvoke() {
		fn = fr.get(st, cc.Value)
	} else if cc.StaticCallee() == nil {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			fn = b
		} else {
			fn = fr.get(st, cc.Value)
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fn = fr.get(st, mc)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, fr.get(st, a))
	}
	return fr.callVals(st, cc, fn, args, in, pos)
}

func resultVal(vs []Val) Val {
	switch len(vs) {
	case 0:
		return &TupleV{}
	case 1:
		return vs[0]
	}
	return &TupleV{vs}
}

func (fr *Frame) callVals(st *State, cc *ssa.CallCommon, fn Val, args []Val, in ssa.Instruction, pos string) Val {
	u := fr.u
	c := u.c
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.builtin(st, b, cc, args, pos)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, b, cc, args, pos)
	}
	path := fr.path + "/" + pos
	if cc.IsInvoke() {
		recv := u.term(fn)
		return u.invoke(st, cc.Value.Type(), cc.Method, recv, args, pos, path)
	}
	if callee := cc.StaticCallee(); callee != nil {
		var binds []Val
		if cl, ok := fn.(*Closure); ok {
			binds = cl.binds
		}
		return u.callFn(st, callee, args, binds, pos, path)
	}
	switch f := fn.(type) {
	case *Closure:
		return u.callFn(st, f.fn, args, f.binds, pos, path)
	case *BoundFn:
		return u.extern(st, f.name, cc.Signature(), args, pos)
	case *Term:
		u.oblige(st, "nilfunc", pos, c.Neq(f, c.Int(0)), "call of nil function")
		if f.op == "ite" {
			// conditional function value
			a, b := st.clone(), st.clone()
			a.pc = c.And(a.pc, f.args[0])
			b.pc = c.And(b.pc, c.Not(f.args[0]))
			ra := fr.callVals(a, cc, u.fnVal(f.args[1]), args, in, pos)
			rb := fr.callVals(b, cc, u.fnVal(f.args[2]), args, in, pos)
			m, ok := u.mergeVal(f.args[0], ra, rb)
			if !ok {
				u.fail("merge call results")
			}
			ms := u.merge([]edge{{nil, a}, {nil, b}})
			*st = *ms
			return m
		}
		if h := u.mod.fnHandler(u, f); h != nil {
			return h(st, args, pos)
		}
		return u.unknownCall(st, "function value", cc.Signature(), args, pos)
	}
	u.fail("call of %T", fn)
	return nil
}

func (u *Unit) fnVal(t *Term) Val {
	if cl, ok := u.closures[t]; ok {
		return cl
	}
	if t.op == "sym" && strings.HasPrefix(t.name, "fn:") {
		return &BoundFn{strings.TrimPrefix(t.name, "fn:")}
	}
	return t
}

// callFn applies a static callee: contract, pure symbol, trusted external contract, or inlining.
func (u *Unit) callFn(st *State, callee *ssa.Function, args []Val, binds []Val, pos, path string) Val {
	name := fnName(callee)
	if callee.Synthetic != "" && callee.Blocks != nil && strings.Contains(callee.Synthetic, "wrapper") {
		// bound method / promoted wrappers: inline
		return resultVal(u.callBody(callee, args, binds, st, path))
	}
	if eff := u.mod.effectOf(name); eff != nil && callee != u.root {
		return u.effectCall(st, eff, callee.Signature, args, callee.Signature.Recv() != nil, pos)
	}
	if u.mod.purefns[name] {
		u.externs["(function of its arguments) "+name] = true
		var ts []*Term
		for i, a := range args {
			ts = append(ts, u.specArg(st, a, paramType(callee.Signature, i))...)
		}
		return u.pureExtResult(st, name, ts, callee.Signature.Results())
	}
	if p := u.mod.pureFor(u, callee); p != nil && !u.isRootRecursionFree(callee) {
		return u.pureCall(st, callee, p, args, pos)
	}
	if sp := u.mod.funcs[name]; sp != nil && sp.matches(callee) && !sp.inline {
		return u.applyContract(st, callee, sp, args, pos)
	}
	if h := extHandler(name); h != nil && !(callee.Blocks != nil && u.mod.pure["String"] == nil && strings.HasSuffix(name, "/strings.JoinStringers")) {
		u.externs[name] = true
		return h(u, st, callee.Signature, args, pos)
	}
	if callee.Blocks != nil && !u.mod.noInline[name] {
		return resultVal(u.callBody(callee, args, binds, st, path))
	}
	return u.extern(st, name, callee.Signature, args, pos)
}

func (u *Unit) isRootRecursionFree(callee *ssa.Function) bool { return false }

func recvTypeOf(callee *ssa.Function) types.Type {
	if r := callee.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// pureCall applies a pure method or function as an uninterpreted symbol over its arguments.
func (u *Unit) pureCall(st *State, callee *ssa.Function, p *PureSpec, args []Val, pos string) Val {
	c := u.c
	if rt := recvTypeOf(callee); rt != nil {
		if sv, ok := args[0].(*Addr); ok && !(sv.kind == 'f' && sv.path == "") {
			// method on an embedded value: inline
			return resultVal(u.callBody(callee, args, nil, st, pos))
		}
		recv := u.makeIface(args[0], rt).(*Term)
		if isPtr(rt) && !p.nilsafe(typeKey(rt)) {
			u.oblige(st, "nil", pos, c.Neq(c.RefOf(recv), c.Int(0)), "method "+callee.Name()+" called on nil")
		}
		return u.pureApp(st, callee.Name(), recv, args[1:], callee.Signature.Results(), p)
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, u.specArg(st, a, callee.Signature.Params().At(i).Type())...)
	}
	return u.pureResult("f!"+callee.Name(), ts, callee.Signature.Results(), p)
}

func (u *Unit) pureApp(st *State, m string, recv *Term, args []Val, res *types.Tuple, p *PureSpec) Val {
	ts := []*Term{recv}
	for _, a := range args {
		ts = append(ts, u.flatten(a)...)
	}
	return u.pureResult("m!"+m, ts, res, p)
}

func (u *Unit) pureResult(name string, ts []*Term, res *types.Tuple, p *PureSpec) Val {
	c := u.c
	var out []Val
	for i := 0; i < res.Len(); i++ {
		n := name
		if res.Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		T := res.At(i).Type()
		var v Val
		if isStructT(T) {
			v = u.unbox(T, c.UF(n, SInt, ts...))
		} else {
			r := c.UF(n, u.sortOf(T), ts...)
			u.typeFacts(r, T)
			if isIfaceT(T) {
				u.sealedFacts(r, T)
			}
			if p != nil && p.nonnil {
				if r.sort == SIface {
					c.Fact(r, c.Neq(c.TagOf(r), c.Int(0)))
				} else if r.sort == SInt {
					c.Fact(r, c.Gt(r, c.Int(0)))
				}
			}
			v = r
		}
		out = append(out, v)
	}
	return resultVal(out)
}

// specArg flattens an argument for use in a pure application (slices by content).
func (u *Unit) specArg(st *State, v Val, T types.Type) []*Term {
	if sl, ok := T.Underlying().(*types.Slice); ok {
		return []*Term{u.content(st, u.term(v), sl.Elem())}
	}
	return u.flatten(v)
}

func (u *Unit) invoke(st *State, it types.Type, m *types.Func, recv *Term, args []Val, pos, path string) Val {
	c := u.c
	sig := m.Type().(*types.Signature)
	u.oblige(st, "nil", pos, c.Neq(c.TagOf(recv), c.Int(0)), "method "+m.Name()+" called on nil interface")
	ik := typeKey(it)
	if p := u.mod.pure[m.Name()]; p != nil && u.mod.pureIface(it, m.Name()) {
		// a typed nil pointer may reach a method that needs an object
		if _, sealed := u.mod.sealed[ik]; sealed {
			u.oblige(st, "nil", pos, c.Neq(c.RefOf(recv), c.Int(0)), "method "+m.Name()+" called on a nil object")
		}
		return u.pureApp(st, m.Name(), recv, args, sig.Results(), p)
	}
	if eff := u.mod.effectOf("invoke:" + m.Name()); eff != nil {
		return u.effectCall(st, eff, sig, append([]Val{recv}, args...), true, pos)
	}
	if h := extHandler("invoke:" + ik + "." + m.Name()); h != nil {
		u.externs["interface "+ik+"."+m.Name()] = true
		return h(u, st, sig, append([]Val{recv}, args...), pos)
	}
	// concrete receiver?
	if recv.op == "mkiface" && recv.args[0].op == "int" {
		if T := u.typeOfTag(it, recv.args[0]); T != nil {
			if f := u.pr.prog.LookupMethod(T, m.Pkg(), m.Name()); f != nil {
				return u.callFn(st, f, append([]Val{u.unIface(recv, T)}, args...), nil, pos, path)
			}
		}
	}
	if set, ok := u.mod.sealed[ik]; ok {
		return u.dispatch(st, it, set, m, recv, args, pos, path)
	}
	if h := extHandler("invoke:" + m.Name()); h != nil {
		u.externs["interface method "+m.Name()] = true
		return h(u, st, sig, append([]Val{recv}, args...), pos)
	}
	return u.unknownCall(st, ik+"."+m.Name(), sig, append([]Val{recv}, args...), pos)
}

func (u *Unit) typeOfTag(it types.Type, tag *Term) types.Type {
	for _, T := range u.pr.implementors(it) {
		if u.c.Tag(typeKey(T)) == tag {
			return T
		}
	}
	return nil
}

func (u *Unit) dispatch(st *State, it types.Type, set []string, m *types.Func, recv *Term, args []Val, pos, path string) Val {
	c := u.c
	var es []edge
	var vals []Val
	for _, n := range set {
		tag := c.Tag(n)
		T := u.typeOfTag(it, tag)
		if T == nil {
			continue
		}
		s := st.clone()
		s.pc = c.And(s.pc, c.Eq(c.TagOf(recv), tag))
		if s.pc.isFalse() {
			continue
		}
		f := u.pr.prog.LookupMethod(T, m.Pkg(), m.Name())
		v := u.callFn(s, f, append([]Val{u.unIface(recv, T)}, args...), nil, pos, path+"/"+n)
		es = append(es, edge{nil, s})
		vals = append(vals, v)
	}
	if len(es) == 0 {
		u.fail("no dispatch target")
	}
	pcs := make([]*Term, len(es))
	for i := range es {
		pcs[i] = es[i].st.pc
	}
	rel := u.relCond(pcs)
	out := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		mv, ok := u.mergeVal(rel[i], vals[i], out)
		if !ok {
			u.fail("dispatch merge")
		}
		out = mv
	}
	ms := u.merge(es)
	*st = *ms
	return out
}

func (u *Unit) extern(st *State, name string, sig *types.Signature, args []Val, pos string) Val {
	if h := extHandler(name); h != nil {
		u.externs[name] = true
		return h(u, st, sig, args, pos)
	}
	return u.unknownCall(st, name, sig, args, pos)
}

// unknownCall: arbitrary results; objects handed over by pointer may be overwritten.
func (u *Unit) unknownCall(st *State, name string, sig *types.Signature, args []Val, pos string) Val {
	u.externs["(arbitrary result) "+name] = true
	for _, a := range args {
		u.havocArg(st, a, 2)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, u.freshVal("ext", sig.Results().At(i).Type()))
	}
	return resultVal(out)
}

func (u *Unit) havocArg(st *State, a Val, d int) {
	if d == 0 {
		return
	}
	var ref *Term
	switch x := a.(type) {
	case *Term:
		ref = x
		if x.sort == SIface {
			ref = u.c.RefOf(x)
		}
	case *Addr:
		if x.kind == 'f' {
			for _, l := range leaves(x.T, x.path) {
				u.writeObj(st, x.ref, x.root, l.path, l.T, u.freshVal("havoc", l.T), "", true)
			}
		}
		return
	case *Closure:
		// the callee may run it, any number of times
		for _, b := range x.binds {
			if ad, ok := b.(*Addr); ok {
				u.store(st, ad, u.freshVal("havoc", ad.T), ad.T, "")
			} else {
				u.havocArg(st, b, d)
			}
		}
		for _, g := range []string{"out", "io"} {
			t := u.ghostGet(st, g)
			u.ghostSet(st, g, u.c.Fresh("havoc", t.sort))
		}
		return
	default:
		return
	}
	if T, ok := u.allocTyp[ref]; ok {
		for _, l := range leaves(T, "") {
			u.writeObj(st, ref, T, l.path, l.T, u.freshVal("havoc", l.T), "", true)
		}
		return
	}
	if u.isHandle[ref] {
		for _, n := range st.mem {
			if n.kind == 's' && n.h == ref || n.kind == 'e' && n.src == ref {
				cn := u.cont(n, ref)
				if cn.op == "++" || cn.op == "seq.unit" {
					parts := []*Term{cn}
					if cn.op == "++" {
						parts = cn.args
					}
					for _, p := range parts {
						if p.op == "seq.unit" {
							u.havocArg(st, p.args[0], d-1)
						}
					}
				}
			}
		}
	}
}

func (fr *Frame) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos string) Val {
	u := fr.u
	c := u.c
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type()
		v := u.term(args[0])
		switch {
		case isStringT(t):
			return c.Len(v)
		case isSliceT(t):
			et := t.Underlying().(*types.Slice).Elem()
			u.recRead(v, et)
			if len(u.spec.hints) > 0 && fr.fn == u.root {
				ct, _ := u.valify(st, u.contentOf(st, v, et), 0)
				u.lens = append(u.lens, listLen{ct, et})
			}
			return u.slen(v)
		}
		r := u.freshVal("len", types.Typ[types.Int]).(*Term)
		c.Fact(r, c.Ge(r, c.Int(0)))
		return r
	case "cap":
		if isSliceT(cc.Args[0].Type()) {
			return u.scap(u.term(args[0]))
		}
	case "append":
		sl := cc.Args[0].Type().Underlying().(*types.Slice)
		elem := sl.Elem()
		var xs *Term
		if isStringT(cc.Args[1].Type()) {
			xs = c.UF("strBytes", seqOf(SInt), u.term(args[1]))
			c.Fact(xs, c.Eq(c.Len(xs), c.Len(u.term(args[1]))))
		} else {
			xs = u.content(st, u.term(args[1]), elem)
		}
		parts := []*Term{xs}
		if xs.op == "++" {
			parts = xs.args
		}
		for _, p := range parts {
			if p.op == "seq.unit" {
				u.checkElemInv(st, p.args[0], elem, pos)
			}
		}
		return u.appendOp(st, u.term(args[0]), elem, xs, pos)
	case "copy":
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		d := u.term(args[0])
		n := c.Fresh("copied", SInt)
		c.Fact(n, c.And(c.Ge(n, c.Int(0)), c.Le(n, u.slen(d))))
		u.recWrite("m:"+typeKey(elem), d)
		if u.mod.frame {
			u.oblige(st, "frame", pos, u.own(d), "copy only into a slice created here")
		}
		m := u.mget(st, elem)
		old := u.cont(m, d)
		var src *Term
		var sl *Term
		if isStringT(cc.Args[1].Type()) {
			sl = c.Len(u.term(args[1]))
			src = c.UF("strBytes", seqOf(SInt), u.term(args[1]))
		} else {
			src = u.content(st, u.term(args[1]), elem)
			sl = u.slen(u.term(args[1]))
		}
		c.Fact(n, c.Or(c.Eq(n, sl), c.Eq(n, u.slen(d))))
		c.Fact(n, c.Le(n, sl))
		nv := c.UF("copyInto", m.sort, old, src)
		c.Fact(nv, c.Eq(c.Len(nv), c.Len(old)))
		c.Fact(nv, c.Implies(c.Eq(c.Len(old), c.Len(src)), c.Eq(nv, src)))
		st.mem[typeKey(elem)] = &MNode{kind: 's', sort: m.sort, elem: elem, prev: m, h: d, val: c.Ite(c.Eq(c.Len(old), c.Len(src)), src, nv), memo: map[*Term]*Term{}}
		return n
	case "panic":
		u.oblige(st, "panic", pos, c.False(), "explicit panic is unreachable")
		st.pc = c.False()
		return &TupleV{}
	case "ssa:wrapnilchk":
		u.oblige(st, "nil", pos, c.Neq(u.term(args[0]), c.Int(0)), "nil receiver")
		return args[0]
	case "print", "println", "close", "delete", "clear":
		return &TupleV{}
	case "recover":
		return c.NilIface()
	case "min", "max":
		r := u.term(args[0])
		for _, a := range args[1:] {
			t := u.term(a)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return r
	}
	u.fail("builtin %s", b.Name())
	return nil
}

// paramType is the type of argument i of a call, the receiver first.
func paramType(sig *types.Signature, i int) types.Type {
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	return sig.Params().At(i).Type()
}
