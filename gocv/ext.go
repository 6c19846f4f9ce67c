package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// Trusted contracts on dependencies. Every entry used in a run is listed in the evidence.

type extFn func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val

var extTab = map[string]extFn{}

// pure functions of their arguments, otherwise unspecified
var pureExt = map[string]bool{}

func extHandler(name string) extFn {
	if h, ok := extTab[name]; ok {
		return h
	}
	if pureExt[name] {
		return func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
			var ts []*Term
			off := 0
			if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
				ts = append(ts, u.flatten(args[0])...)
				off = 1
			}
			for i := range args[off:] {
				ts = append(ts, u.specArg(st, args[i+off], sig.Params().At(i).Type())...)
			}
			return u.pureExtResult(st, name, ts, sig.Results())
		}
	}
	return nil
}

func (u *Unit) pureExtResult(st *State, name string, ts []*Term, res *types.Tuple) Val {
	c := u.c
	var out []Val
	for i := 0; i < res.Len(); i++ {
		T := res.At(i).Type()
		n := "x!" + name
		if i > 0 {
			n += "#" + string(rune('0'+i))
		}
		if sl, ok := T.Underlying().(*types.Slice); ok {
			content := c.UF(n, seqOf(u.elemSort(sl.Elem())), ts...)
			out = append(out, u.newSlice(st, "res", sl.Elem(), content))
			continue
		}
		if isStructT(T) {
			out = append(out, u.unbox(T, c.UF(n, SInt, ts...)))
			continue
		}
		r := c.UF(n, u.sortOf(T), ts...)
		u.typeFacts(r, T)
		out = append(out, r)
	}
	return resultVal(out)
}

func init() {
	for _, n := range []string{
		"strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.TrimLeft", "strings.TrimRight", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ReplaceAll", "strings.Replace",
		"strings.Index", "strings.EqualFold", "strings.Repeat", "strings.Fields", "strings.SplitN", "strings.Count", "strings.Title",
		"strconv.Itoa", "strconv.Quote", "strconv.Atoi", "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace",
		"reflect.DeepEqual", "path/filepath.Ext", "path/filepath.Base", "path/filepath.Join", "path/filepath.Abs", "path/filepath.Dir",
		"github.com/kunitsucom/util.go/path/filepath.Short", "go/token.IsExported",
		"github.com/kunitsucom/util.go/exp/diff/simplediff.Diff",
		"os.IsNotExist",
	} {
		pureExt[n] = true
	}
	extTab["reflect.DeepEqual"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.deepEq(u.term(args[0]), u.term(args[1]))
	}
	extTab["strings.Split"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		c := u.c
		s, sep := u.term(args[0]), u.term(args[1])
		content := u.splitSeq(s, sep)
		_ = c
		return u.newSlice(st, "split", types.Typ[types.String], content)
	}
	extTab["strings.Join"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.joinList(st, u.term(args[1]), u.content(st, u.term(args[0]), types.Typ[types.String]), types.Typ[types.String])
	}
	js := func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		sl := sig.Params().At(1).Type().Underlying().(*types.Slice)
		content := u.content(st, u.term(args[1]), sl.Elem())
		return u.joinList(st, u.term(args[0]), content, sl.Elem())
	}
	extTab["github.com/kunitsucom/util.go/strings.JoinStringers"] = js
	extTab["reflect.TypeOf"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		c := u.c
		i := u.term(args[0])
		return c.MkIface(c.Ite(c.Eq(c.TagOf(i), c.Int(0)), c.Int(0), c.Tag("*reflect.rtype")), c.TagOf(i))
	}
	errorf := func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		c := u.c
		e := c.MkIface(c.Tag("*fmt.wrapError"), c.FreshAlloc("err"))
		format := u.term(args[0])
		content := u.content(st, u.term(args[1]), types.NewInterfaceType(nil, nil))
		u.errWraps[e.args[1]] = &errInfo{wraps: u.wrapped(format, content)}
		if os.Getenv("GOCV_ERRIS") != "" {
			fmt.Println("ERRORF", format, content, content.op)
		}
		u.formatArgs(st, format, content, pos)
		return e
	}
	extTab["fmt.Errorf"] = errorf
	extTab["var:github.com/kunitsucom/ddlctl/pkg/apperr.Errorf"] = errorf
	extTab["errors.New"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		c := u.c
		e := c.MkIface(c.Tag("*errors.errorString"), c.FreshAlloc("err"))
		u.errWraps[e.args[1]] = &errInfo{}
		return e
	}
	extTab["errors.Is"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.errIs(u.term(args[0]), u.term(args[1]))
	}
	extTab["github.com/kunitsucom/util.go/errors.PanicOrIgnore"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		c := u.c
		e := u.term(args[0])
		ok := c.Eq(c.TagOf(e), c.Int(0))
		content := u.content(st, u.term(args[1]), types.Universe.Lookup("error").Type())
		parts := []*Term{content}
		if content.op == "++" {
			parts = content.args
		}
		for _, p := range parts {
			if p.op == "seq.unit" {
				ok = c.Or(ok, u.errIs(e, p.args[0]))
			}
		}
		u.oblige(st, "panic", pos, ok, "PanicOrIgnore is reached only with an ignored error")
		return &TupleV{}
	}
	extTab["github.com/kunitsucom/util.go/exp/diff/simplediff.(DiffOperations).String"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		T := u.pr.typeNamed("github.com/kunitsucom/util.go/exp/diff/simplediff", "DiffOperations")
		return u.c.UF("x!DiffOperations.String", SStr, u.content(st, u.term(args[0]), elemTypeOf(T)))
	}
	extTab["sort.Slice"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.sortSliceCall(st, args, pos, u.sortSlice)
	}
	extTab["sort.SliceStable"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		return u.sortSliceCall(st, args, pos, u.sortStable)
	}
	extTab["fmt.Sprintf"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		content := u.content(st, u.term(args[1]), types.NewInterfaceType(nil, nil))
		return u.sprintf(st, u.term(args[0]), content, pos)
	}
	extTab["fmt.Sprint"] = func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		content := u.content(st, u.term(args[0]), types.NewInterfaceType(nil, nil))
		return u.c.UF("x!fmt.Sprint", SStr, content)
	}
	void := func(u *Unit, st *State, sig *types.Signature, args []Val, pos string) Val {
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, u.freshVal("r", sig.Results().At(i).Type()))
		}
		return resultVal(out)
	}
	for _, n := range []string{"runtime.Caller", "(*log.Logger).Printf", "(*log.Logger).Print", "(*log.Logger).Println", "log.(*Logger).Printf", "log.(*Logger).Print", "log.(*Logger).Println",
		"invoke:" + modPath + "/pkg/logs.Logger.Printf", "invoke:" + modPath + "/pkg/logs.Logger.Print"} {
		extTab[n] = void
	}
}

func (u *Unit) splitSeq(s, sep *Term) *Term {
	c := u.c
	r := c.UF("split", seqOf(SStr), s, sep)
	if r.op != "uf" {
		return r
	}
	c.Fact(r, c.Implies(c.Neq(sep, c.Str("")), c.Ge(c.Len(r), c.Int(1))))
	return r
}

// wrapped lists the arguments a format wraps with %w.
func (u *Unit) wrapped(format, content *Term) []*Term {
	// only the constant suffix of the format is needed: verbs are matched from the end
	var f string
	exact := false
	switch format.op {
	case "str":
		f = format.name
		exact = true
	case "++":
		last := format.args[len(format.args)-1]
		if last.op == "str" {
			f = last.name
		}
	case "ite":
		return nil
	}
	parts := []*Term{content}
	if content.op == "++" {
		parts = content.args
	}
	var elems []*Term
	for _, p := range parts {
		if p.op != "seq.unit" {
			return nil
		}
		elems = append(elems, p.args[0])
	}
	verbs := verbsOf(f)
	if exact && len(verbs) != len(elems) {
		return nil
	}
	var out []*Term
	for i := 1; i <= len(verbs) && i <= len(elems); i++ {
		if verbs[len(verbs)-i] == 'w' {
			out = append(out, elems[len(elems)-i])
		}
	}
	return out
}

func verbsOf(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

// formatArgs: formatting a value with %s/%v calls its String or Error method; nil pointers inside are handled by fmt's own recovery.
func (u *Unit) formatArgs(st *State, format, content *Term, pos string) {}

func (u *Unit) errIs(e, target *Term) *Term {
	if os.Getenv("GOCV_ERRIS") != "" {
		fmt.Println("ERRIS", e, target)
		if e.op == "mkiface" && u.errWraps[e.args[1]] != nil {
			fmt.Println("   WRAPS", u.errWraps[e.args[1]].wraps)
		}
	}
	c := u.c
	if e.op == "ite" {
		return c.Ite(e.args[0], u.errIs(e.args[1], target), u.errIs(e.args[2], target))
	}
	if e == target {
		return c.True()
	}
	if e.op == "mkiface" {
		ref := e.args[1]
		if ref.op == "int" && ref.ival == 0 {
			return c.False()
		}
		if ref.op == "ite" {
			return c.Ite(ref.args[0], u.errIs(c.MkIface(e.args[0], ref.args[1]), target), u.errIs(c.MkIface(e.args[0], ref.args[2]), target))
		}
		if ref.op == "uf" && strings.HasPrefix(ref.name, "errobj#") {
			r := c.False()
			for _, w := range ref.args {
				r = c.Or(r, u.errIs(w, target))
			}
			return r
		}
		if info, ok := u.errWraps[ref]; ok {
			r := c.False()
			for _, w := range info.wraps {
				r = c.Or(r, u.errIs(w, target))
			}
			return r
		}
	}
	if strings.HasPrefix(e.name, "global:") && strings.HasPrefix(target.name, "global:") {
		return c.False() // distinct sentinel errors
	}
	r := c.UF("errIs", SBool, e, target)
	c.Fact(r, c.Implies(r, c.Neq(c.TagOf(e), c.Int(0))))
	c.Fact(r, c.Implies(c.Eq(e, target), r))
	return r
}

// sprintf expands constant formats made of %s, %d and %q over string/integer arguments.
func (u *Unit) sprintf(st *State, format, content *Term, pos string) *Term {
	c := u.c
	opaque := func() *Term { return c.UF("x!fmt.Sprintf", SStr, format, content) }
	if format.op != "str" {
		// "%-" + strconv.Itoa(n) + "s": padding on the right
		if a := format.args; format.op == "++" && len(a) == 3 && a[0].op == "str" && a[0].name == "%-" && a[1].op == "uf" && a[1].name == "x!strconv.Itoa" && a[2].op == "str" && a[2].name == "s" && content.op == "seq.unit" {
			return c.UF("padright", SStr, a[1].args[0], u.fmtVal(st, 's', content.args[0], pos))
		}
		return opaque()
	}
	parts := []*Term{content}
	if content.op == "++" {
		parts = content.args
	}
	if isEmptySeq(content) {
		parts = nil
	}
	var elems []*Term
	for _, p := range parts {
		if p.op != "seq.unit" {
			return opaque()
		}
		elems = append(elems, p.args[0])
	}
	var out []*Term
	f := format.name
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return opaque()
		}
		switch f[i] {
		case '%':
			lit += "%"
		case '-', '*':
			// %-12s and %-*s: padding on the right
			j := i + 1
			n := 0
			for j < len(f) && f[j] >= '0' && f[j] <= '9' {
				n = n*10 + int(f[j]-'0')
				j++
			}
			width := c.Int(int64(n))
			if f[i] == '-' && j == i+1 && j < len(f) && f[j] == '*' && k < len(elems) && elems[k].op == "mkiface" {
				w := u.unIface(elems[k], types.Typ[types.Int])
				width = u.term(w)
				j++
				k++
			}
			if f[i] != '-' || j >= len(f) || f[j] != 's' || k >= len(elems) {
				return opaque()
			}
			if lit != "" {
				out = append(out, c.Str(lit))
				lit = ""
			}
			out = append(out, c.UF("padright", SStr, width, u.fmtVal(st, 's', elems[k], pos)))
			k++
			i = j
		case 's', 'd', 'q', 'v', 'T':
			if k >= len(elems) {
				return opaque()
			}
			if lit != "" {
				out = append(out, c.Str(lit))
				lit = ""
			}
			out = append(out, u.fmtVal(st, f[i], elems[k], pos))
			k++
		default:
			return opaque()
		}
	}
	if k != len(elems) {
		return opaque()
	}
	if lit != "" {
		out = append(out, c.Str(lit))
	}
	if len(out) == 0 {
		return c.Str("")
	}
	return c.Concat(out...)
}

func (u *Unit) fmtVal(st *State, verb byte, e *Term, pos string) *Term {
	c := u.c
	if e.op == "ite" {
		return c.Ite(e.args[0], u.fmtVal(st, verb, e.args[1], pos), u.fmtVal(st, verb, e.args[2], pos))
	}
	if e.op == "mkiface" && e.args[0].op == "int" {
		tagName := ""
		for n, id := range c.tags {
			if int64(id) == e.args[0].ival {
				tagName = n
			}
		}
		if (verb == 's' || verb == 'v') && e.args[1].op == "uf" && e.args[1].name == "boxStr" {
			if tagName == "string" || u.mod.plainString(tagName) {
				return e.args[1].args[0]
			}
		}
		if (verb == 'd' || verb == 'v') && tagName == "int" {
			return c.UF("x!strconv.Itoa", SStr, u.term(u.unIface(e, types.Typ[types.Int])))
		}
		// a method String of the package under proof writes the text
		if T := u.boxTypes[tagName]; (verb == 's' || verb == 'v') && T != nil && isPtr(T) && u.mod.pure["String"] == nil && u.mod.factor {
			if n, ok := derefT(T).(*types.Named); ok && n.Obj().Pkg() == u.root.Pkg.Pkg {
				ms := types.NewMethodSet(T)
				if m := ms.Lookup(n.Obj().Pkg(), "String"); m != nil && ms.Lookup(nil, "Error") == nil && ms.Lookup(nil, "Format") == nil {
					if sig := m.Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), strT) {
						if f := u.pr.prog.LookupMethod(T, n.Obj().Pkg(), "String"); f != nil {
							if r, ok := u.callFn(st, f, []Val{u.unIface(e, T)}, nil, pos, "").(*Term); ok {
								return r
							}
						}
					}
				}
			}
		}
	}
	return c.UF("fmt%"+string(verb), SStr, e)
}

// sortSlice is the (otherwise unspecified) rearrangement sort.Slice makes; it is determined by the list and the comparison.
func (u *Unit) sortSlice(S, i, j, less *Term) *Term {
	c := u.c
	matrix := c.FM(c.Len(S), i, c.FM(c.Len(S), j, c.Unit(less)))
	r := c.UF("x!sort.Slice", S.sort, S, matrix)
	c.Fact(r, c.Eq(c.Len(r), c.Len(S)))
	return r
}

// sortStable is the rearrangement a stable sort makes. Ordering by "p(left) and not p(right)" puts the elements with p first
// and keeps both groups in order.
func (u *Unit) sortStable(S, i, j, less *Term) *Term {
	c := u.c
	var left, right []*Term
	for _, k := range conjuncts(less) {
		hi, hj := mentions(k, i), mentions(k, j)
		switch {
		case hi && !hj:
			left = append(left, k)
		case hj && !hi:
			right = append(right, k)
		default:
			left = nil
			right = append(right, nil, nil)
		}
	}
	if len(left) > 0 && len(right) == 1 {
		p := c.And(left...)
		if c.Not(c.SubstT(p, map[*Term]*Term{i: j})) == right[0] {
			at := c.Unit(c.Nth(S, i))
			none := c.Empty(S.sort)
			return c.Concat(c.FM(c.Len(S), i, c.Ite(p, at, none)), c.FM(c.Len(S), i, c.Ite(p, none, at)))
		}
	}
	matrix := c.FM(c.Len(S), i, c.FM(c.Len(S), j, c.Unit(less)))
	r := c.UF("x!sort.SliceStable", S.sort, S, matrix)
	c.Fact(r, c.Eq(c.Len(r), c.Len(S)))
	return r
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func (u *Unit) sortSliceCall(st *State, args []Val, pos string, sorted func(S, i, j, less *Term) *Term) Val {
	c := u.c
	box := u.term(args[0])
	cl, ok := args[1].(*Closure)
	if !ok {
		u.fail("sort.Slice with an unknown comparison")
	}
	T := u.boxedType(box)
	et := elemTypeOf(T)
	if et == nil {
		u.fail("sort.Slice of %v", T)
	}
	h := u.term(u.unIface(box, T))
	S := u.content(st, h, et)
	c.boundN += 2
	i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN-1), 0, SInt)
	j := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	s2 := st.clone()
	k := c.Fresh("sort", SInt)
	c.Fact(k, c.And(c.Ge(k, c.Int(0)), c.Lt(k, c.Len(S))))
	l := c.Fresh("sort", SInt)
	c.Fact(l, c.And(c.Ge(l, c.Int(0)), c.Lt(l, c.Len(S))))
	rec := u.callBody(cl.fn, []Val{k, l}, cl.binds, s2, pos)
	if len(rec) != 1 {
		u.fail("comparison result")
	}
	less := c.SubstT(u.term(rec[0]), map[*Term]*Term{k: i, l: j})
	u.recWrite("m:"+typeKey(et), h)
	if u.mod.frame {
		u.oblige(st, "frame", pos, u.own(h), "sort only of a slice created here")
	}
	m := u.mget(st, et)
	u.clobN++
	// contents seen through other handles of the same array are unknown
	st.mem[typeKey(et)] = &MNode{kind: 'e', name: fmt.Sprintf("clob%d", u.clobN), sort: m.sort, elem: et, prev: m, src: h, idx: c.Fresh("sorti", SInt), val: c.Fresh("sortv", u.elemSort(et)), memo: map[*Term]*Term{h: sorted(S, i, j, less)}}
	return &TupleV{}
}

// boxedType is the dynamic type of an interface value of known type.
func (u *Unit) boxedType(box *Term) types.Type {
	if box.op == "mkiface" && box.args[0].op == "int" {
		for n, id := range u.c.tags {
			if int64(id) == box.args[0].ival {
				return u.boxTypes[n]
			}
		}
	}
	return nil
}
