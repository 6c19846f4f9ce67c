package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Effects: calls that act on the world (database, files, terminal). Each such call appends one event to the ghost
// sequence "io"; what it returns is an arbitrary function of everything that happened before and of its arguments.
// A query depends on that history too but leaves no event; a function depends on its arguments alone.
// Text written to a writer that is not a buffer of the program is appended to the ghost string "out".

type Effect struct {
	label  string
	kind   string   // effect, query or function
	params []string // receiver first; "_" and "no_x" ignored, "out_x" overwritten by the call, "w_x" receives text, "obj_x" taken as the object behind it, "sql_x" compared up to white space and comments, "va_x" variadic values passed one by one
	sp     *FuncSpec
	noerr  bool
}

var ghostKinds = map[string]Sort{"io": seqOf(SInt), "out": SStr, "wfail": SBool, "answer": SStr}

func (u *Unit) ghostGet(st *State, g string) *Term {
	if t, ok := st.ghost[g]; ok {
		return t
	}
	t := u.ghostInit(g, u.ghostSort(g))
	st.ghost[g] = t
	return t
}

func (u *Unit) ghostSet(st *State, g string, t *Term) {
	u.ghostGet(st, g)
	u.recGhost(g)
	st.ghost[g] = t
}

// objOf is the object a pointer value designates.
func (u *Unit) objOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort == SIface {
			return u.c.RefOf(x)
		}
		return x
	case *Addr:
		if x.kind == 'f' && x.path == "" {
			return x.ref
		}
	}
	u.fail("address %T as an object", v)
	return nil
}

var strT = types.Typ[types.String]
var intT = types.Typ[types.Int]
var anyT = types.NewInterfaceType(nil, nil)

// pseudo fields of library objects
func (u *Unit) gread(st *State, T types.Type, ref *Term, f string, ft types.Type) *Term {
	return u.term(u.readObj(st, ref, T, f, ft))
}
func (u *Unit) gwrite(st *State, T types.Type, ref *Term, f string, ft types.Type, v *Term) {
	u.writeObj(st, ref, T, f, ft, v, "", true)
}

func (m *Module) effectOf(name string) *Effect { return m.effects[name] }

func ctxType(t types.Type) bool { return typeKey(t) == "context.Context" }

func (u *Unit) effectCall(st *State, eff *Effect, sig *types.Signature, args []Val, recv bool, pos string) Val {
	c := u.c
	var ptypes []types.Type
	if recv {
		if sig.Recv() != nil {
			ptypes = append(ptypes, sig.Recv().Type())
		} else {
			ptypes = append(ptypes, anyT)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	u.externs[eff.kind+" "+eff.label] = true
	pname := func(i int) string {
		if i < len(eff.params) {
			return eff.params[i]
		}
		return ""
	}
	if eff.sp != nil && len(eff.sp.requires) > 0 {
		env := map[string]SV{}
		for i, a := range args {
			env[pname(i)] = SV{V: a, T: ptypes[i]}
		}
		s := &specCtx{u: u, st: st, old: u.entry, env: env, m: u.mod, open: map[string]bool{}}
		for _, r := range eff.sp.requires {
			u.oblige(st, "pre", pos, s.boolT(r.expr), eff.label+" requires "+r.src)
		}
	}
	H := u.ghostGet(st, "io")
	var ts, outs, wr []*Term
	for i, a := range args {
		n := pname(i)
		T := ptypes[i]
		switch {
		case n == "_" || strings.HasPrefix(n, "no_") || ctxType(T):
		case strings.HasPrefix(n, "out_"):
			outs = append(outs, u.term(a))
		case strings.HasPrefix(n, "w_"):
			wr = append(wr, u.term(a))
		case strings.HasPrefix(n, "va_"):
			ct := u.content(st, u.term(a), T.Underlying().(*types.Slice).Elem())
			parts := []*Term{ct}
			if ct.op == "++" {
				parts = ct.args
			}
			for _, p := range parts {
				switch {
				case p.op == "seq.empty":
				case p.op == "seq.unit":
					e := p.args[0]
					if e.op == "mkiface" {
						e = e.args[1]
						if bt := u.boxTypes[u.tagName(p.args[0].args[0])]; bt != nil {
							ts = append(ts, u.flatten(u.unIface(p.args[0], bt))...)
							continue
						}
					}
					ts = append(ts, e)
				default:
					ts = append(ts, p)
				}
			}
		case strings.HasPrefix(n, "sql_"):
			ts = append(ts, u.normSQL(u.term(a)))
		case i == 0 && recv, strings.HasPrefix(n, "obj_"):
			ts = append(ts, u.objOf(a))
		default:
			if _, fn := T.Underlying().(*types.Signature); fn {
				continue
			}
			ts = append(ts, u.specArg(st, a, T)...)
		}
	}
	ev := c.UF("ev:"+eff.label, SInt, ts...)
	hts := append([]*Term{H}, ts...)
	switch eff.kind {
	case "effect":
		u.ghostSet(st, "io", c.Concat(H, c.Unit(ev)))
	case "function":
		hts = ts
	}
	for k, o := range outs {
		u.effectOut(st, fmt.Sprintf("%s.%d", eff.label, k), o, hts)
	}
	var out []Val
	var errv *Term
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		T := res.At(i).Type()
		if i == res.Len()-1 && typeKey(T) == "error" {
			errv = c.UF("err:"+eff.label, SIface, hts...)
			u.typeFacts(errv, T)
			out = append(out, errv)
			continue
		}
		n := fmt.Sprintf("res%d:%s", i, eff.label)
		if sl, ok := T.Underlying().(*types.Slice); ok {
			out = append(out, u.newSlice(st, "res", sl.Elem(), c.UF(n, seqOf(u.elemSort(sl.Elem())), hts...)))
			continue
		}
		if isStructT(T) {
			out = append(out, u.unbox(T, c.UF(n, SInt, hts...)))
			continue
		}
		r := c.UF(n, u.sortOf(T), hts...)
		u.typeFacts(r, T)
		out = append(out, r)
	}
	if errv != nil {
		ok := c.Eq(c.TagOf(errv), c.Int(0))
		for i := 0; i < res.Len()-1; i++ {
			if r, is := out[i].(*Term); is && isPtr(res.At(i).Type()) {
				c.Fact(r, c.Implies(ok, c.Gt(r, c.Int(0))))
			} else if is && r.sort == SIface {
				c.Fact(r, c.Implies(ok, c.Neq(c.TagOf(r), c.Int(0))))
			}
		}
	}
	if eff.sp != nil && len(eff.sp.ensures) > 0 {
		env := map[string]SV{}
		for i, a := range args {
			env[pname(i)] = SV{V: a, T: ptypes[i]}
		}
		if errv != nil {
			env["err"] = SV{V: errv, T: types.Universe.Lookup("error").Type()}
		}
		if res.Len() > 0 && len(out) > 0 {
			env["result"] = SV{V: out[0], T: res.At(0).Type()}
		}
		s := &specCtx{u: u, st: st, old: u.entry, env: env, m: u.mod, open: map[string]bool{}}
		for _, r := range eff.sp.ensures {
			u.externs[eff.kind+" "+eff.label+" ensures "+r.src] = true
			u.facts = append(u.facts, pathFact{c.Implies(st.pc, s.boolT(r.expr))})
		}
	}
	for _, w := range wr {
		s := c.UF("text:"+eff.label, SStr, hts...)
		u.emitText(st, w, s)
	}
	return resultVal(out)
}

// effectOut stores what a call fills in behind a pointer handed to it.
func (u *Unit) effectOut(st *State, label string, box *Term, hts []*Term) {
	c := u.c
	T := u.boxedType(box)
	if T == nil {
		u.fail("destination of unknown type")
	}
	ref := u.term(u.unIface(box, T))
	E := derefT(T)
	var fill func(path string, t types.Type)
	fill = func(path string, t types.Type) {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if isPtr(sl.Elem()) {
				u.elemNN[typeKey(sl.Elem())] = true
			}
			h := u.newSlice(st, "rows", sl.Elem(), c.UF("rows:"+label, seqOf(u.elemSort(sl.Elem())), hts...))
			u.writeObj(st, ref, E, path, t, h, "", true)
			return
		}
		col := path
		if t := colTag(E, path); t != "" {
			col = t
		}
		v := c.UF("row:"+label+"."+col, u.sortOf(t), hts...)
		u.typeFacts(v, t)
		u.writeObj(st, ref, E, path, t, v, "", true)
	}
	if _, ok := E.Underlying().(*types.Struct); ok {
		for _, l := range leaves(E, "") {
			fill(l.path, l.T)
		}
		return
	}
	if al, ok := u.cellOf(ref); ok {
		_ = al
	}
	fill("", E)
}

// normSQL removes the differences in white space and comments of the constant parts of a statement (outside quotes).
func (u *Unit) normSQL(t *Term) *Term {
	c := u.c
	if t.op == "ite" {
		return c.Ite(t.args[0], u.normSQL(t.args[1]), u.normSQL(t.args[2]))
	}
	parts := []*Term{t}
	if t.op == "++" {
		parts = t.args
	}
	quote := byte(0)
	space := false // white space seen and not written
	some := false  // something was written
	r := c.Str("")
	for _, a := range parts {
		if a.op != "str" {
			if space && some {
				r = c.Concat(r, c.Str(" "))
			}
			space, some = false, true
			r = c.Concat(r, a)
			continue
		}
		var b strings.Builder
		for k := 0; k < len(a.name); k++ {
			ch := a.name[k]
			if quote == 0 {
				if ch == '-' && strings.HasPrefix(a.name[k:], "--") {
					for k < len(a.name) && a.name[k] != '\n' {
						k++
					}
					space = true
					continue
				}
				if ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' {
					space = true
					continue
				}
			}
			if space && some {
				b.WriteByte(' ')
			}
			space, some = false, true
			b.WriteByte(ch)
			switch {
			case quote == ch:
				quote = 0
			case quote == 0 && (ch == '\'' || ch == '"' || ch == '`'):
				quote = ch
			}
		}
		r = c.Concat(r, c.Str(b.String()))
	}
	return r
}

func (u *Unit) cellOf(ref *Term) (types.Type, bool) { t, ok := u.allocTyp[ref]; return t, ok }

func isBufferTag(n string) bool { return n == "*strings.Builder" || n == "*bytes.Buffer" }

func (u *Unit) tagName(tag *Term) string {
	if tag.op != "int" {
		return ""
	}
	for n, id := range u.c.tags {
		if int64(id) == tag.ival {
			return n
		}
	}
	return ""
}

// emitText appends text to a writer and gives the error of writing.
func (u *Unit) emitText(st *State, w *Term, s *Term) *Term {
	c := u.c
	if w.sort == SIface && w.op == "mkiface" {
		if n := u.tagName(w.args[0]); isBufferTag(n) {
			T := derefT(u.boxTypes[n])
			r := w.args[1]
			u.gwrite(st, T, r, "$s", strT, c.Concat(u.gread(st, T, r, "$s", strT), s))
			return c.NilIface()
		}
	}
	o := u.ghostGet(st, "out")
	ref := w
	if w.sort == SIface {
		ref = c.RefOf(w)
	}
	e := c.UF("err:write", SIface, o, ref, s)
	ok := c.Eq(c.TagOf(e), c.Int(0))
	u.ghostSet(st, "out", c.Ite(ok, c.Concat(o, s), c.UF("partial", SStr, o, ref, s)))
	u.ghostSet(st, "wfail", c.Or(u.ghostGet(st, "wfail"), c.Not(ok)))
	return e
}

func bufferHandlers(T string) {
	type h = func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val
	add := func(m string, f h) {
		extTab[T+"."+m] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
			return f(u, st, derefT(sig.Recv().Type()), u.objOf(args[0]), args[1:])
		}
	}
	app := func(u *Unit, st *State, BT types.Type, r, s *Term) {
		u.gwrite(st, BT, r, "$s", strT, u.c.Concat(u.gread(st, BT, r, "$s", strT), s))
	}
	add("WriteString", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val {
		s := u.term(args[0])
		app(u, st, BT, r, s)
		return &TupleV{[]Val{u.c.Len(s), u.c.NilIface()}}
	})
	add("WriteByte", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val {
		app(u, st, BT, r, u.term(u.convert(st, args[0], types.Typ[types.Byte], strT)))
		return u.c.NilIface()
	})
	add("WriteRune", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val {
		s := u.term(u.convert(st, args[0], types.Typ[types.Rune], strT))
		app(u, st, BT, r, s)
		return &TupleV{[]Val{u.c.Len(s), u.c.NilIface()}}
	})
	add("String", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val {
		return u.gread(st, BT, r, "$s", strT)
	})
	add("Len", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val {
		return u.c.Len(u.gread(st, BT, r, "$s", strT))
	})
	add("Reset", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val {
		u.gwrite(st, BT, r, "$s", strT, u.c.Str(""))
		return &TupleV{}
	})
	add("Grow", func(u *Unit, st *State, BT types.Type, r *Term, args []Val) Val { return &TupleV{} })
}

func init() {
	bufferHandlers("strings.(*Builder)")
	bufferHandlers("bytes.(*Buffer)")

	extTab["strings.NewReader"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		T := derefT(sig.Results().At(0).Type())
		r := u.alloc(st, T, "Reader")
		u.gwrite(st, T, r, "$s", strT, u.term(args[0]))
		return r
	}
	extTab["bufio.NewScanner"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		T := derefT(sig.Results().At(0).Type())
		r := u.alloc(st, T, "Scanner")
		u.gwrite(st, T, r, "$src", anyT, u.term(args[0]))
		u.gwrite(st, T, r, "$i", intT, u.c.Int(0))
		u.gwrite(st, T, r, "$max", intT, u.c.Int(64*1024))
		u.gwrite(st, T, r, "$tok", strT, u.c.Str(""))
		return r
	}
	scanner := func(m string, f func(u *Unit, st *State, T types.Type, r *Term, args []Val) Val) {
		extTab["bufio.(*Scanner)."+m] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
			return f(u, st, derefT(sig.Recv().Type()), u.objOf(args[0]), args[1:])
		}
	}
	scanner("Buffer", func(u *Unit, st *State, T types.Type, r *Term, args []Val) Val {
		u.gwrite(st, T, r, "$max", intT, u.term(args[1]))
		return &TupleV{}
	})
	scanner("Text", func(u *Unit, st *State, T types.Type, r *Term, args []Val) Val {
		return u.gread(st, T, r, "$tok", strT)
	})
	scanner("Scan", func(u *Unit, st *State, T types.Type, r *Term, args []Val) Val {
		c := u.c
		src := u.gread(st, T, r, "$src", anyT)
		if src.op == "mkiface" && u.tagName(src.args[0]) == "*strings.Reader" {
			RT := derefT(u.boxTypes["*strings.Reader"])
			S := u.gread(st, RT, src.args[1], "$s", strT)
			L := u.scanLines(S, u.gread(st, T, r, "$max", intT))
			i := u.gread(st, T, r, "$i", intT)
			// after the last line the token is unspecified
			u.gwrite(st, T, r, "$tok", strT, c.Nth(L, i))
			u.gwrite(st, T, r, "$i", intT, c.Add(i, c.Int(1)))
			return c.Lt(i, c.Len(L))
		}
		H := u.ghostGet(st, "io")
		ref := c.RefOf(src)
		u.ghostSet(st, "io", c.Concat(H, c.Unit(c.UF("ev:scan", SInt, ref))))
		ok := c.UF("res0:scan", SBool, H, ref)
		tok := c.Ite(ok, c.UF("line:scan", SStr, H, ref), c.Str(""))
		u.gwrite(st, T, r, "$tok", strT, tok)
		u.ghostSet(st, "answer", tok)
		return ok
	})
	scanner("Err", func(u *Unit, st *State, T types.Type, r *Term, args []Val) Val {
		e := u.c.Fresh("scanerr", SIface)
		return e
	})

	write := func(u *Unit, st *State, w *Term, s *Term, res *types.Tuple) Val {
		e := u.emitText(st, w, s)
		n := u.c.Fresh("written", SInt)
		u.c.Fact(n, u.c.Implies(u.c.Eq(u.c.TagOf(e), u.c.Int(0)), u.c.Eq(n, u.c.Len(s))))
		return &TupleV{[]Val{n, e}}
	}
	extTab["io.WriteString"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		u.oblige(st, "nil", pos, u.c.Neq(u.c.TagOf(u.term(args[0])), u.c.Int(0)), "write to a nil writer")
		return write(u, st, u.term(args[0]), u.term(args[1]), sig.Results())
	}
	extTab["os.(*File).WriteString"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return write(u, st, u.objOf(args[0]), u.term(args[1]), sig.Results())
	}
	any1 := func(args []Val, u *Unit, st *State, k int) *Term { return u.content(st, u.term(args[k]), anyT) }
	extTab["fmt.Fprintln"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		ct := any1(args, u, st, 1)
		s := u.c.UF("x!fmt.Sprintln", SStr, ct)
		if ct.op == "seq.unit" {
			s = u.c.Concat(u.fmtVal(st, 'v', ct.args[0], pos), u.c.Str("\n"))
		}
		return write(u, st, u.term(args[0]), s, sig.Results())
	}
	extTab["fmt.Fprintf"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return write(u, st, u.term(args[0]), u.sprintf(st, u.term(args[1]), any1(args, u, st, 2), pos), sig.Results())
	}
	extTab["fmt.Fprint"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		ct := any1(args, u, st, 1)
		s := u.c.UF("x!fmt.Sprint", SStr, ct)
		if ct.op == "seq.unit" {
			s = u.fmtVal(st, 'v', ct.args[0], pos)
		}
		return write(u, st, u.term(args[0]), s, sig.Results())
	}

	// retry: the function runs again only after it failed; success is the success of the last run
	extTab["github.com/kunitsucom/util.go/retry.(*Retryer).Do"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		c := u.c
		cl, ok := args[1].(*Closure)
		if !ok {
			u.fail("retry of an unknown function")
		}
		ctx := u.freshVal("ctx", cl.fn.Signature.Params().At(0).Type())
		// one run from an arbitrary history
		H0 := c.Fresh("hist", seqOf(SInt))
		s1 := st.clone()
		u.ghostGet(s1, "io")
		s1.ghost["io"] = H0
		mark := c.stampN
		rec := &recorder{writes: map[string]map[*Term]bool{}, reads: map[*Term]types.Type{}, ghost: map[string]bool{}}
		u.recs = append(u.recs, rec)
		u.mute++
		u.callBody(cl.fn, []Val{ctx}, cl.binds, s1, pos)
		u.mute--
		u.recs = u.recs[:len(u.recs)-1]
		for k, refs := range rec.writes {
			for r := range refs {
				if !(r.stamp > mark) {
					u.fail("retried function changes %s", k)
				}
			}
		}
		h1 := s1.ghost["io"]
		var E *Term
		if h1.op == "++" && h1.args[0] == H0 {
			E = c.Concat(h1.args[1:]...)
		} else if h1 == H0 {
			E = c.Empty(seqOf(SInt))
		}
		if E == nil || mentions(E, H0) {
			u.fail("effects of a retried function depend on its earlier runs: %v", h1)
		}
		c.boundN++
		i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
		H := u.ghostGet(st, "io")
		m := c.UF("retry:failed", SInt, H, E) // failed runs before the last
		c.Fact(m, c.Ge(m, c.Int(0)))
		none := c.UF("retry:none", SBool, H, E) // the context was over before the first run
		a, b := st.clone(), st.clone()
		a.pc = c.And(a.pc, c.Not(none))
		b.pc = c.And(b.pc, none)
		u.ghostSet(a, "io", c.Concat(H, c.FM(m, i, E)))
		r := u.term(u.callBody(cl.fn, []Val{ctx}, cl.binds, a, pos)[0])
		ms := u.merge([]edge{{nil, a}, {nil, b}})
		*st = *ms
		fail := c.MkIface(c.Tag("*fmt.wrapErrors"), c.FreshAlloc("err"))
		return c.Ite(c.And(c.Not(none), c.Eq(c.TagOf(r), c.Int(0))), c.NilIface(), fail)
	}
	for _, n := range []string{"github.com/kunitsucom/util.go/retry.New", "github.com/kunitsucom/util.go/retry.NewConfig", "github.com/kunitsucom/util.go/retry.WithMaxRetries"} {
		extTab[n] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
			r := u.freshVal("retry", sig.Results().At(0).Type())
			if t, ok := r.(*Term); ok && t.sort == SInt {
				u.c.Fact(t, u.c.Gt(t, u.c.Int(0)))
			}
			return r
		}
	}
	extTab["github.com/kunitsucom/util.go/strings.ReadLine"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		f, ok := args[2].(*Term)
		if !ok {
			u.fail("ReadLine with an unknown function")
		}
		return u.c.UF("x!ReadLine", SStr, u.term(args[0]), u.term(args[1]), f)
	}
	extTab["github.com/kunitsucom/util.go/strings.ReadLineFuncRemoveCommentLine"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.c.UF("x!RemoveCommentLine", SInt, u.term(args[0]))
	}
	extTab["github.com/kunitsucom/util.go/errors.Contains"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.errContains(u.term(args[0]), u.term(args[1]))
	}
}

// errContains: the message of an error contains a text. Wrapping keeps the wrapped message.
func (u *Unit) errContains(e, s *Term) *Term {
	c := u.c
	if e.op == "mkiface" {
		if info, ok := u.errWraps[e.args[1]]; ok {
			_ = info
		}
	}
	return c.UF("errContains", SBool, e, s)
}

// scanLines are the lines bufio.Scanner delivers; all of them only if the buffer can hold the whole text.
func (u *Unit) scanLines(S, max *Term) *Term {
	c := u.c
	all := c.UF("textLines", seqOf(SStr), S)
	fits := c.Gt(max, c.Len(S))
	if fits.isTrue() {
		return all
	}
	return c.Ite(fits, all, c.UF("linesUpTo", seqOf(SStr), S, max))
}

// ---- specification access to effects

func (s *specCtx) effectSpec(name string, args []SV) (SV, bool) {
	u := s.u
	c := u.c
	lbl := func() string {
		t := s.scalar(args[0])
		if t.op != "str" {
			s.fail(nil, "%s wants a constant label", name)
		}
		return t.name
	}
	flat := func(as []SV) []*Term {
		var ts []*Term
		for _, a := range as {
			if a.seq || (a.T != nil && elemTypeOf(a.T) != nil) {
				ts = append(ts, s.cont(a))
				continue
			}
			if a.T != nil && isNilT(a.T) {
				ts = append(ts, c.Empty(seqOf(SIface)))
				continue
			}
			ts = append(ts, u.flatten(a.V)...)
		}
		return ts
	}
	ints := types.NewSlice(types.Typ[types.Int])
	switch name {
	case "event": // event(label, args...)
		return SV{V: c.Unit(c.UF("ev:"+lbl(), SInt, flat(args[1:])...)), T: ints, seq: true}, true
	case "failed": // failed(label, H, args...)
		return SV{V: c.Neq(c.TagOf(c.UF("err:"+lbl(), SIface, flat(args[1:])...)), c.Int(0)), T: types.Typ[types.Bool]}, true
	case "errof":
		return SV{V: c.UF("err:"+lbl(), SIface, flat(args[1:])...), T: types.Universe.Lookup("error").Type()}, true
	case "refres": // object returned: refres(label, H, args...)
		r := c.UF("res0:"+lbl(), SInt, flat(args[1:])...)
		return SV{V: r, T: types.Typ[types.Int]}, true
	case "objres": // the object behind an interface result
		return SV{V: c.RefOf(c.UF("res0:"+lbl(), SIface, flat(args[1:])...)), T: types.Typ[types.Int]}, true
	case "strres":
		return SV{V: c.UF("res0:"+lbl(), SStr, flat(args[1:])...), T: strT}, true
	case "boolres":
		return SV{V: c.UF("res0:"+lbl(), SBool, flat(args[1:])...), T: types.Typ[types.Bool]}, true
	case "textof":
		return SV{V: c.UF("text:"+lbl(), SStr, flat(args[1:])...), T: strT}, true
	case "rows": // rows(label, k, H, args...): list of row objects
		k := s.scalar(args[1])
		return SV{V: c.UF(fmt.Sprintf("rows:%s.%d", lbl(), k.ival), seqOf(SInt), flat(args[2:])...), T: ints, seq: true}, true
	case "rowstr": // rowstr(label, k, field, H, args...): string field of the single row
		k := s.scalar(args[1])
		return SV{V: c.UF(fmt.Sprintf("row:%s.%d.%s", lbl(), k.ival, s.scalar(args[2]).name), SStr, flat(args[3:])...), T: strT}, true
	case "colstr", "colref", "colbool": // colstr(row, column)
		srt, T := SStr, types.Type(strT)
		if name == "colref" {
			srt, T = SInt, types.Typ[types.Int]
		}
		if name == "colbool" {
			srt, T = SBool, types.Typ[types.Bool]
		}
		return SV{V: c.UF("H:col:"+s.scalar(args[1]).name, srt, s.scalar(args[0])), T: T}, true
	case "padright": // padright(width, s)
		return SV{V: c.UF("padright", SStr, s.scalar(args[0]), s.scalar(args[1])), T: strT}, true
	case "sql":
		return SV{V: u.normSQL(s.scalar(args[0])), T: strT}, true
	case "deref": // deref(p): the string behind a pointer
		return SV{V: u.hread(u.hget(s.st, hkey(strT, ""), SStr, strT), s.scalar(args[0])), T: strT}, true
	case "removecomments":
		return SV{V: c.UF("x!ReadLine", SStr, s.scalar(args[0]), c.Str("\n"), c.UF("x!RemoveCommentLine", SInt, s.scalar(args[1]))), T: strT}, true
	case "textlines":
		return SV{V: c.UF("textLines", seqOf(SStr), s.scalar(args[0])), T: types.NewSlice(strT), seq: true}, true
	case "split":
		return SV{V: u.splitSeq(s.scalar(args[0]), s.scalar(args[1])), T: types.NewSlice(strT), seq: true}, true
	case "retried": // retried(H, E): failed rounds of a retried function
		return SV{V: c.UF("retry:failed", SInt, s.scalar(args[0]), s.cont(args[1])), T: intT}, true
	case "notrun":
		return SV{V: c.UF("retry:none", SBool, s.scalar(args[0]), s.cont(args[1])), T: types.Typ[types.Bool]}, true
	case "errcontains":
		return SV{V: u.errContains(s.scalar(args[0]), s.scalar(args[1])), T: types.Typ[types.Bool]}, true
	case "bytesres": // the bytes a call returns, as a string
		return SV{V: c.UF("bytesStr", SStr, c.UF("res0:"+lbl(), seqOf(SInt), flat(args[1:])...)), T: strT}, true
	case "bytes": // bytes(s): the bytes of a string
		return SV{V: c.UF("strBytes", seqOf(SInt), s.scalar(args[0])), T: ints, seq: true}, true
	case "within": // within(text, part): part occurs in text
		return SV{V: c.UF("within", SBool, s.scalar(args[0]), s.scalar(args[1])), T: types.Typ[types.Bool]}, true
	}
	return SV{}, false
}

// within: text contains part, decided on the pieces of a concatenation.
func (c *Ctx) within(t, part *Term) *Term {
	if t == part || isEmptyStr(part) {
		return c.True()
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.within(t.args[1], part), c.within(t.args[2], part))
	}
	if t.op == "uf" && t.name == "partial" {
		if c.within(t.args[0], part).isTrue() {
			return c.True()
		}
	}
	if t.op == "++" {
		ps := []*Term{part}
		if part.op == "++" {
			ps = part.args
		}
		for i := 0; i+len(ps) <= len(t.args); i++ {
			ok := true
			for j := range ps {
				if t.args[i+j] != ps[j] {
					ok = false
				}
			}
			if ok {
				return c.True()
			}
		}
		for _, a := range t.args {
			if r := c.within(a, part); r.isTrue() {
				return r
			}
		}
	}
	return c.mk("uf", "within", 0, SBool, t, part)
}

func isEmptyStr(t *Term) bool { return t.op == "str" && t.name == "" }

var effectBuiltins = map[string]bool{"event": true, "failed": true, "errof": true, "refres": true, "objres": true, "strres": true, "boolres": true, "textof": true, "rows": true, "rowstr": true,
	"colstr": true, "colref": true, "colbool": true, "deref": true, "removecomments": true, "textlines": true, "split": true, "retried": true, "notrun": true, "errcontains": true, "within": true, "bytes": true, "bytesres": true, "sql": true, "padright": true}
