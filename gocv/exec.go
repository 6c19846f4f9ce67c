package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type TupleV struct{ V []Val }
type Addr struct {
	kind byte // 'f' field of object, 'e' slice element, 'g' global
	ref  *Term
	root types.Type // type of the object (or element, or global)
	path string     // dotted field path, "" for the whole
	T    types.Type // type stored at the address
	h    *Term
	idx  *Term
	elem types.Type
	g    *ssa.Global
}
type Closure struct {
	fn    *ssa.Function
	binds []Val
}
type BoundFn struct{ name string } // external function value known by name

type deferred struct {
	cond *Term
	call *ssa.Defer
	fn   Val
	args []Val
}

// State is a symbolic state.
type State struct {
	pc     *Term
	heap   map[string]*HNode
	mem    map[string]*MNode
	ghost  map[string]*Term
	regs   map[ssa.Value]Val
	defers []deferred
	epoch  int
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[string]*HNode, len(s.heap)), mem: make(map[string]*MNode, len(s.mem)), ghost: make(map[string]*Term, len(s.ghost)), regs: make(map[ssa.Value]Val, len(s.regs)), defers: s.defers, epoch: s.epoch}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}

// Obl is one proof obligation.
type Obl struct {
	id, kind, pos, fn, desc string
	goal                    *Term
	pc                      *Term
	nfacts                  int
	cand                    string // candidate invariant this obligation belongs to ("" = hard)
	group                   string // alternatives: at least one of the group must hold
	expectSat               bool
	hints                   [][2]*Term // pairs to be proven equal first
	res                     *SolveResult
}

type listLen struct {
	ct *Term
	et types.Type
}

type pathFact struct {
	t *Term
}

type recorder struct {
	writes map[string]map[*Term]bool // key -> refs/handles written
	reads  map[*Term]types.Type      // slice handles read
	ghost  map[string]bool
	elem   map[string]types.Type
	all    bool
}

// Unit verifies one root function.
type Unit struct {
	c        *Ctx
	pr       *Prog
	mod      *Module
	root     *ssa.Function
	spec     *FuncSpec
	obls     []*Obl
	facts    []pathFact
	lens     []listLen // contents of lists whose length the code asks for
	hintMemo map[string]bool
	mute     int
	recs     []*recorder

	hbase         map[string]*HNode
	mbase         map[string]*MNode
	isHandle      map[*Term]bool
	hpc           map[*Term]*Term // path condition a handle was made under
	grown         map[*Term]*Term // handle made by appending to another
	hlen          map[*Term]*Term
	harr          map[*Term]*Term
	hown          map[*Term]*Term
	hcap          map[*Term]*Term
	clobN         int
	errWraps      map[*Term]*errInfo
	dropped       map[string]bool
	cands         map[string]string
	oblN          map[string]int
	stack         []*ssa.Function
	frames        []*Frame
	externs       map[string]bool // externals used, with modelling note
	inlined       map[string]bool
	called        map[string]bool // contracts used
	unsup         []string
	allocTyp      map[*Term]types.Type
	rigidSt       map[*Term]bool
	entry         *State
	rootArgs      []Val
	unfolded      map[*Term]bool
	rootEnv       map[string]SV
	havocAll      bool
	nondet        []*Term
	steps         int
	valMemo       map[string]*Term
	closN         int
	closures      map[*Term]*Closure
	dead          bool
	loopN         int
	loops         int
	dispatchDepth int
	keyInfo       map[string]keyInf
	genericIdx    map[*Term]string
	ghostLike     map[string]*Term
	elemNN        map[string]bool
	seqElem       map[*Term]types.Type
	modOK         map[string]bool
	boxTypes      map[string]types.Type
}

type keyInf struct {
	root types.Type
	path string
	T    types.Type
}

type errInfo struct {
	wraps  []*Term
	always bool
}

func NewUnit(pr *Prog, mod *Module, fn *ssa.Function, spec *FuncSpec, dropped map[string]bool) *Unit {
	c := NewCtx()
	c.recDefs = mod.recDefs
	c.factor = mod.factor
	return &Unit{c: c, pr: pr, mod: mod, root: fn, spec: spec, hbase: map[string]*HNode{}, mbase: map[string]*MNode{},
		isHandle: map[*Term]bool{}, hpc: map[*Term]*Term{}, grown: map[*Term]*Term{}, hlen: map[*Term]*Term{}, harr: map[*Term]*Term{}, hown: map[*Term]*Term{}, hcap: map[*Term]*Term{},
		errWraps: map[*Term]*errInfo{}, dropped: dropped, cands: map[string]string{}, oblN: map[string]int{}, externs: map[string]bool{},
		inlined: map[string]bool{}, called: map[string]bool{}, allocTyp: map[*Term]types.Type{}, rigidSt: map[*Term]bool{}, valMemo: map[string]*Term{}, closures: map[*Term]*Closure{},
		keyInfo: map[string]keyInf{}, unfolded: map[*Term]bool{}, genericIdx: map[*Term]string{}, ghostLike: map[string]*Term{}, elemNN: map[string]bool{}, seqElem: map[*Term]types.Type{}, modOK: map[string]bool{}, boxTypes: map[string]types.Type{}}
}

type unsupported struct{ msg string }

func (u *Unit) fail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// ---- obligations and assumptions

func (u *Unit) oblige(st *State, kind, pos string, goal *Term, desc string) {
	g := u.c.Implies(st.pc, goal)
	if g.isTrue() || st.pc.isFalse() {
		if u.mute == 0 && goal.isTrue() && !st.pc.isFalse() {
			u.addObl(st, kind, pos, goal, desc)
		}
		return
	}
	if u.mute == 0 {
		u.addObl(st, kind, pos, goal, desc)
	}
	u.assume(st, goal)
}

func (u *Unit) addObl(st *State, kind, pos string, goal *Term, desc string) *Obl {
	base := kind + "@" + pos
	u.oblN[base]++
	o := &Obl{id: fmt.Sprintf("%s#%d", base, u.oblN[base]), kind: kind, pos: pos, fn: shortName(fnName(u.root)), desc: desc, goal: goal, pc: st.pc, nfacts: len(u.facts)}
	u.obls = append(u.obls, o)
	return o
}

// assume adds goal as a fact under the path condition.
func (u *Unit) assume(st *State, goal *Term) {
	g := u.c.Implies(st.pc, goal)
	if g.isTrue() {
		return
	}
	u.facts = append(u.facts, pathFact{g})
}

func (u *Unit) recWrite(key string, ref *Term) {
	for _, r := range u.recs {
		m := r.writes[key]
		if m == nil {
			m = map[*Term]bool{}
			r.writes[key] = m
		}
		if ref != nil {
			m[ref] = true
		}
	}
}
func (u *Unit) recElem(key string, h *Term, elem types.Type) {
	u.recWrite(key, h)
	for _, r := range u.recs {
		if r.elem == nil {
			r.elem = map[string]types.Type{}
		}
		r.elem[key] = elem
	}
}
func (u *Unit) recGhost(name string) {
	for _, r := range u.recs {
		r.ghost[name] = true
	}
}
func (u *Unit) recRead(h *Term, elem types.Type) {
	for _, r := range u.recs {
		r.reads[h] = elem
	}
}

// ---- sorts and types

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
func isIfaceT(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isSliceT(t types.Type) bool  { _, ok := t.Underlying().(*types.Slice); return ok }
func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (u *Unit) sortOf(t types.Type) Sort {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool
		case b.Info()&types.IsString != 0:
			return SStr
		default:
			return SInt
		}
	case *types.Interface:
		return SIface
	}
	return SInt
}
func (u *Unit) elemSort(t types.Type) Sort {
	if isStructT(t) {
		return SInt // boxed
	}
	return u.sortOf(t)
}

type leaf struct {
	path string
	T    types.Type
}

func leaves(t types.Type, prefix string) []leaf {
	if s, ok := t.Underlying().(*types.Struct); ok {
		var out []leaf
		for i := 0; i < s.NumFields(); i++ {
			p := s.Field(i).Name()
			if prefix != "" {
				p = prefix + "." + p
			}
			out = append(out, leaves(s.Field(i).Type(), p)...)
		}
		return out
	}
	return []leaf{{prefix, t}}
}

func (u *Unit) zero(t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &StructV{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, u.zero(s.Field(i).Type()))
		}
		return v
	}
	if tt, ok := t.(*types.Tuple); ok {
		v := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			v.V = append(v.V, u.zero(tt.At(i).Type()))
		}
		return v
	}
	return u.zeroTerm(t)
}
func (u *Unit) zeroTerm(t types.Type) *Term {
	switch u.elemSort(t) {
	case SBool:
		return u.c.False()
	case SStr:
		return u.c.Str("")
	case SIface:
		return u.c.NilIface()
	}
	if isStructT(t) {
		return u.box(u.zero(t))
	}
	return u.c.Int(0)
}

// typeFacts attaches facts every value of the type satisfies.
func (u *Unit) typeFacts(r *Term, t types.Type) {
	if t == nil || r.isLit() {
		return
	}
	c := u.c
	switch b := t.Underlying().(type) {
	case *types.Basic:
		if b.Info()&types.IsUnsigned != 0 {
			f := c.Ge(r, c.Int(0))
			if b.Kind() == types.Uint8 {
				f = c.And(f, c.Le(r, c.Int(255)))
			}
			if r.op == "nth" && r.args[0].sort == SStr {
				// outside the string str.to_code is -1
				f = c.Implies(c.And(c.Ge(r.args[1], c.Int(0)), c.Lt(r.args[1], c.Len(r.args[0]))), f)
			}
			c.Fact(r, f)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		c.Fact(r, c.Ge(r, c.Int(0)))
		if p, ok := b.(*types.Pointer); ok && u.mod.nonnilPtr[typeKey(p.Elem())] {
			_ = p
		}
	}
}

// fieldInv attaches declared type invariants to a field read of a pre-existing object.
func (u *Unit) fieldInv(name string, r, q *Term) {
	c := u.c
	key := strings.TrimPrefix(name, "H:")
	if u.mod.nonnil[key] {
		if r.sort == SIface {
			c.Fact(r, c.Neq(c.TagOf(r), c.Int(0)))
			c.Fact(r, c.Neq(c.RefOf(r), c.Int(0)))
		} else {
			c.Fact(r, c.Gt(r, c.Int(0)))
		}
	}
}

// elemInv returns invariants for an element read from a slice of the given element type.
func (u *Unit) elemInv(st *State, e *Term, elem types.Type) {
	c := u.c
	if e.isLit() {
		return
	}
	if u.mod.elemNonnil[typeKey(elem)] || u.elemNN[typeKey(elem)] {
		if e.sort == SIface {
			u.sealedFacts(e, elem)
			c.Fact(e, c.Neq(c.TagOf(e), c.Int(0)))
			c.Fact(e, c.Gt(c.RefOf(e), c.Int(0)))
		} else if e.sort == SInt {
			c.Fact(e, c.Gt(e, c.Int(0)))
		}
	}
}
func (u *Unit) sealedFacts(e *Term, t types.Type) {
	c := u.c
	if set, ok := u.mod.sealed[typeKey(t)]; ok {
		var alts []*Term
		for _, n := range set {
			alts = append(alts, c.Eq(c.TagOf(e), c.Tag(n)))
		}
		alts = append(alts, c.Eq(c.TagOf(e), c.Int(0)))
		c.Fact(e, c.Or(alts...))
	}
}

func (u *Unit) freshVal(hint string, t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &StructV{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, u.freshVal(hint+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	if tt, ok := t.(*types.Tuple); ok {
		v := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			v.V = append(v.V, u.freshVal(fmt.Sprintf("%s#%d", hint, i), tt.At(i).Type()))
		}
		return v
	}
	r := u.c.Fresh(hint, u.sortOf(t))
	u.typeFacts(r, t)
	if isIfaceT(t) {
		u.sealedFacts(r, t)
	}
	return r
}

// pre-state value (stamp 0)
func (u *Unit) oldVal(name string, t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &StructV{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, u.oldVal(name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	r := u.c.Sym(name, u.sortOf(t))
	u.typeFacts(r, t)
	if isIfaceT(t) {
		u.sealedFacts(r, t)
	}
	return r
}

func (u *Unit) flatten(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *StructV:
		var out []*Term
		for _, f := range x.F {
			out = append(out, u.flatten(f)...)
		}
		return out
	case *TupleV:
		var out []*Term
		for _, f := range x.V {
			out = append(out, u.flatten(f)...)
		}
		return out
	}
	return []*Term{u.term(v)}
}

func (u *Unit) box(v Val) *Term {
	s := v.(*StructV)
	return u.c.UF("box:"+typeKey(s.T), SInt, u.flatten(s)...)
}
func (u *Unit) unbox(t types.Type, b *Term) Val {
	ls := leaves(t, "")
	get := func(i int) *Term {
		var f func(b *Term) *Term
		f = func(b *Term) *Term {
			if b.op == "uf" && b.name == "box:"+typeKey(t) {
				return b.args[i]
			}
			if b.op == "ite" {
				return u.c.Ite(b.args[0], f(b.args[1]), f(b.args[2]))
			}
			r := u.c.UF("unbox:"+typeKey(t)+"."+ls[i].path, u.sortOf(ls[i].T), b)
			u.typeFacts(r, ls[i].T)
			return r
		}
		return f(b)
	}
	i := 0
	var build func(t types.Type) Val
	build = func(t types.Type) Val {
		if s, ok := t.Underlying().(*types.Struct); ok {
			v := &StructV{T: t}
			for k := 0; k < s.NumFields(); k++ {
				v.F = append(v.F, build(s.Field(k).Type()))
			}
			return v
		}
		r := get(i)
		i++
		return r
	}
	return build(t)
}

// term converts a scalar value to a term.
func (u *Unit) term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		return u.box(x)
	case *Addr:
		if x.kind == 'f' && x.path == "" {
			return x.ref
		}
		if x.kind == 'f' {
			r := u.c.UF("&"+typeKey(x.root)+"."+x.path, SInt, x.ref)
			u.c.Fact(r, u.c.Gt(r, u.c.Int(0)))
			return r
		}
		if x.kind == 'g' {
			r := u.c.Sym("&global:"+x.g.RelString(nil)+x.path, SInt)
			u.c.Fact(r, u.c.Gt(r, u.c.Int(0)))
			return r
		}
		r := u.c.UF("&elem."+x.path, SInt, x.h, x.idx)
		u.c.Fact(r, u.c.Gt(r, u.c.Int(0)))
		return r
	case *Closure:
		for t, k := range u.closures {
			if k == x {
				return t
			}
		}
		t := u.c.Fresh("closure", SInt)
		u.c.Fact(t, u.c.Gt(t, u.c.Int(0)))
		u.closures[t] = x
		return t
	case *BoundFn:
		return u.c.Sym("fn:"+x.name, SInt)
	}
	u.fail("not a scalar: %T", v)
	return nil
}

// ---- memory access

func hkey(root types.Type, path string) string {
	if path == "" {
		return typeKey(root) + ".*"
	}
	k := typeKey(root) + "." + path
	if tag := colTag(root, path); tag != "" {
		colTags.Store(k, tag)
	}
	return k
}

func fieldOf(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	for _, p := range strings.Split(path, ".") {
		s := t.Underlying().(*types.Struct)
		ok := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p {
				t = s.Field(i).Type()
				ok = true
				break
			}
		}
		if !ok {
			panic("no field " + path)
		}
	}
	return t
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func (u *Unit) readObj(st *State, ref *Term, root types.Type, path string, T types.Type) Val {
	if s, ok := T.Underlying().(*types.Struct); ok {
		v := &StructV{T: T}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, u.readObj(st, ref, root, join(path, s.Field(i).Name()), s.Field(i).Type()))
		}
		return v
	}
	n := u.hget(st, hkey(root, path), u.sortOf(T), T)
	r := u.readRef(n, ref, root, path)
	if isIfaceT(T) {
		u.sealedFacts(r, T)
	}
	if cl, ok := u.closures[r]; ok {
		return cl
	}
	return r
}

// readRef reads a field, resolving value constructors (published rigid objects) directly.
func (u *Unit) readRef(n *HNode, ref *Term, root types.Type, path string) *Term {
	if ref.op == "ite" {
		return u.c.Ite(ref.args[0], u.readRef(n, ref.args[1], root, path), u.readRef(n, ref.args[2], root, path))
	}
	if ref.op == "uf" && strings.HasPrefix(ref.name, "mk:") && ref.name == "mk:"+typeKey(root) {
		for i, l := range leaves(root, "") {
			if l.path == path {
				return ref.args[i]
			}
		}
	}
	return u.hread(n, ref)
}

// valify replaces references to rigid objects allocated here by value-constructor terms.
func (u *Unit) valify(st *State, t *Term, after int) (*Term, bool) {
	ok := true
	memo := map[*Term]*Term{}
	busy := map[*Term]bool{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, o := memo[t]; o {
			return r
		}
		if t.stamp <= after {
			return t
		}
		if u.c.isAlloc[t] {
			if info := u.errWraps[t]; info != nil {
				var ws []*Term
				for _, w := range info.wraps {
					ws = append(ws, f(w))
				}
				r := u.c.UF(fmt.Sprintf("errobj#%d", len(ws)), SInt, ws...)
				u.c.Fact(r, u.c.Gt(r, u.c.Int(0)))
				memo[t] = r
				return r
			}
			T, has := u.allocTyp[t]
			if !has || !u.mod.isRigid(T) || busy[t] {
				if os.Getenv("GOCV_CF") != "" {
					fmt.Println("VALIFY", t, T, has, has && u.mod.isRigid(T), busy[t])
				}
				ok = ok && has && !busy[t]
				if !has {
					return t
				}
				ok = false
				return t
			}
			busy[t] = true
			var fs []*Term
			for _, l := range leaves(T, "") {
				n := u.hget(st, hkey(T, l.path), u.sortOf(l.T), l.T)
				v := u.hread(n, t)
				if sl, isS := l.T.Underlying().(*types.Slice); isS {
					v = u.slOf(f(u.cont(u.mget(st, sl.Elem()), v)), sl.Elem())
				} else {
					v = f(v)
				}
				fs = append(fs, v)
			}
			busy[t] = false
			r := u.mkVal(T, fs)
			memo[t] = r
			return r
		}
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var collect func(t *Term)
		collect = func(t *Term) {
			if seen[t] || t.stamp <= after {
				return
			}
			seen[t] = true
			if u.c.isAlloc[t] {
				if v := f(t); v != t {
					m[t] = v
				}
				return
			}
			for _, a := range t.args {
				collect(a)
			}
		}
		collect(t)
		r := t
		if len(m) > 0 {
			r = u.c.SubstT(t, m)
		}
		memo[t] = r
		return r
	}
	return f(t), ok
}

func (u *Unit) mkVal(T types.Type, fs []*Term) *Term {
	r := u.c.UF("mk:"+typeKey(T), SInt, fs...)
	u.c.Fact(r, u.c.Gt(r, u.c.Int(0)))
	return r
}

// slOf is a slice handle standing for a known content.
func (u *Unit) slOf(content *Term, elem types.Type) *Term {
	if content.op == "uf" && strings.HasPrefix(content.name, "cont:") {
		// a list of the initial memory stands for itself
		if h := content.args[0]; h.stamp == 0 || (h.op == "uf" && strings.HasPrefix(h.name, "H:") && !u.c.occursAlloc(h, 0)) {
			return h
		}
	}
	if isEmptySeq(content) {
		return u.c.Int(0)
	}
	return u.c.UF("sl:"+typeKey(elem), SInt, content)
}

func (u *Unit) writeObj(st *State, ref *Term, root types.Type, path string, T types.Type, v Val, pos string, init bool) {
	if s, ok := T.Underlying().(*types.Struct); ok {
		sv, ok := v.(*StructV)
		if !ok {
			u.fail("struct store of %T", v)
		}
		for i := 0; i < s.NumFields(); i++ {
			u.writeObj(st, ref, root, join(path, s.Field(i).Name()), s.Field(i).Type(), sv.F[i], pos, init)
		}
		return
	}
	if ref.op == "ite" && !init {
		// conditional target: split
		a, b := st.clone(), st.clone()
		u.writeObj(a, ref.args[1], root, path, T, v, pos, init)
		u.writeObj(b, ref.args[2], root, path, T, v, pos, init)
		k := hkey(root, path)
		st.heap[k] = u.mergeH(ref.args[0], a.heap[k], b.heap[k])
		return
	}
	k := hkey(root, path)
	u.keyInfo[k] = keyInf{root, path, T}
	n := u.hget(st, k, u.sortOf(T), T)
	t := u.term(v)
	if !init {
		u.checkComplete(st, t, T, pos)
		u.recWrite("h:"+k, ref)
		if u.mod.frame && u.mod.isRigid(root) {
			u.oblige(st, "frame", pos, u.c.Bool(u.c.isAlloc[ref] || u.mayModify(ref, root, path)), "stores only into objects created here: "+shortName(k))
		}
	} else {
		u.recWrite("h:"+k, ref)
	}
	st.heap[k] = &HNode{kind: 's', name: n.name, sort: n.sort, typ: T, prev: n, ref: ref, val: t, memo: map[*Term]*Term{}}
}

func (u *Unit) mergeH(cond *Term, a, b *HNode) *HNode {
	if a == b {
		return a
	}
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	return &HNode{kind: 'i', sort: a.sort, typ: a.typ, cond: cond, prev: a, other: b, memo: map[*Term]*Term{}}
}

func structField(v *StructV, path string) Val {
	if path == "" {
		return v
	}
	var cur Val = v
	for _, p := range strings.Split(path, ".") {
		sv := cur.(*StructV)
		s := sv.T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p {
				cur = sv.F[i]
				break
			}
		}
	}
	return cur
}
func structWith(v *StructV, path string, x Val) *StructV {
	if path == "" {
		return x.(*StructV)
	}
	p, rest, _ := strings.Cut(path, ".")
	s := v.T.Underlying().(*types.Struct)
	n := &StructV{T: v.T, F: append([]Val{}, v.F...)}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == p {
			if rest == "" {
				n.F[i] = x
			} else {
				n.F[i] = structWith(v.F[i].(*StructV), rest, x)
			}
		}
	}
	return n
}

func (u *Unit) load(st *State, a Val, T types.Type, pos string) Val {
	c := u.c
	switch x := a.(type) {
	case *Addr:
		switch x.kind {
		case 'f':
			return u.readObj(st, x.ref, x.root, x.path, x.T)
		case 'e':
			e := c.Nth(u.content(st, x.h, x.elem), x.idx)
			if isStructT(x.elem) {
				v := u.unbox(x.elem, e)
				return structField(v.(*StructV), x.path)
			}
			u.typeFacts(e, x.elem)
			u.elemInv(st, e, x.elem)
			return e
		case 'g':
			return u.loadGlobal(st, x)
		}
	case *Term:
		u.oblige(st, "nil", pos, c.Neq(x, c.Int(0)), "nil pointer dereference")
		return u.readObj(st, x, T, "", T)
	}
	u.fail("load through %T at %s", a, pos)
	return nil
}

func (u *Unit) loadGlobal(st *State, x *Addr) Val {
	name := x.g.RelString(nil)
	if strings.HasPrefix(name, "command-line") {
		name = x.g.Name()
	}
	if g, ok := st.ghost["global:"+name]; ok && x.path == "" {
		return g
	}
	if _, ok := x.T.Underlying().(*types.Signature); ok {
		return &BoundFn{name: "var:" + name}
	}
	if v, ok := u.mod.globalInit(u, st, x.g); ok && x.path == "" {
		return v
	}
	v := u.oldVal("global:"+name+join("", x.path), x.T)
	if t, ok := v.(*Term); ok && t.sort == SIface {
		// package-level error values and loggers are non-nil (assumption)
		if types.Implements(x.T, errIface) || typeKey(x.T) == "error" || strings.HasSuffix(typeKey(x.T), "/pkg/logs.Logger") {
			u.c.Fact(t, u.c.Neq(u.c.TagOf(t), u.c.Int(0)))
		}
	}
	return v
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (u *Unit) store(st *State, a Val, v Val, T types.Type, pos string) {
	switch x := a.(type) {
	case *Addr:
		switch x.kind {
		case 'f':
			u.writeObj(st, x.ref, x.root, x.path, x.T, v, pos, false)
			return
		case 'e':
			if isStructT(x.elem) {
				old := u.unbox(x.elem, u.c.Nth(u.content(st, x.h, x.elem), x.idx)).(*StructV)
				v = u.box(structWith(old, x.path, v))
			}
			t := u.term(v)
			u.checkElemInv(st, t, x.elem, pos)
			u.elemStore(st, x.h, x.elem, x.idx, t, pos)
			return
		case 'g':
			name := x.g.RelString(nil)
			if u.mod.frame {
				u.oblige(st, "frame", pos, u.c.False(), "store to package variable "+name)
			}
			if t, ok := v.(*Term); ok && x.path == "" {
				st.ghost["global:"+name] = t
				u.recGhost("global:" + name)
			}
			return
		}
	case *Term:
		u.oblige(st, "nil", pos, u.c.Neq(x, u.c.Int(0)), "nil pointer dereference")
		u.writeObj(st, x, T, "", T, v, pos, false)
		return
	}
	u.fail("store through %T at %s", a, pos)
}

func (u *Unit) checkElemInv(st *State, t *Term, elem types.Type, pos string) {
	c := u.c
	if u.mod.elemNonnil[typeKey(elem)] && u.mod.checkElems {
		var g *Term
		if t.sort == SIface {
			g = c.And(c.Neq(c.TagOf(t), c.Int(0)), c.Neq(c.RefOf(t), c.Int(0)))
		} else {
			g = c.Neq(t, c.Int(0))
		}
		u.oblige(st, "elem", pos, g, "no nil element stored in a list of "+shortName(typeKey(elem)))
		u.checkComplete(st, t, elem, pos)
	}
}

// checkComplete obliges an object that is handed on (put in a list or field, returned, passed to a function under
// contract) to hold every field declared nonnil. Objects of unknown origin were checked where they were handed on.
func (u *Unit) checkComplete(st *State, t *Term, T types.Type, pos string) {
	if !u.mod.checkElems {
		return
	}
	for _, o := range u.incomplete(st, t, T) {
		u.oblige(st, "complete", pos, o.goal, o.desc)
	}
}

type completeGoal struct {
	goal *Term
	desc string
}

func (u *Unit) incomplete(st *State, t *Term, T types.Type) (out []completeGoal) {
	c := u.c
	if t.op == "ite" {
		for i := 1; i < 3; i++ {
			g := t.args[0]
			if i == 2 {
				g = c.Not(g)
			}
			for _, o := range u.incomplete(st, t.args[i], T) {
				out = append(out, completeGoal{c.Or(c.Not(g), o.goal), o.desc})
			}
		}
		return out
	}
	if isIfaceT(T) {
		tag := c.TagOf(t)
		if tag.op != "int" {
			return nil
		}
		ct := u.typeOfTag(T, tag)
		if ct == nil {
			return nil
		}
		return u.incomplete(st, c.RefOf(t), ct)
	}
	p, ok := T.Underlying().(*types.Pointer)
	if !ok || t.op == "int" {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	key := typeKey(p.Elem())
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !u.mod.nonnil[key+"."+f.Name()] {
			continue
		}
		v, ok := u.readObj(st, t, p.Elem(), f.Name(), f.Type()).(*Term)
		if !ok {
			continue
		}
		g := c.Neq(v, c.Int(0))
		if v.sort == SIface {
			g = c.Neq(c.TagOf(v), c.Int(0))
		}
		out = append(out, completeGoal{c.Or(c.Eq(t, c.Int(0)), g), shortName(key) + " is handed on with its " + f.Name()})
	}
	return out
}

// ---- merging

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

func (u *Unit) relCond(pcs []*Term) []*Term {
	// strip common conjuncts
	c := u.c
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, t := range conj(p) {
			cnt[t]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var ks []*Term
		for _, t := range conj(p) {
			if cnt[t] < len(pcs) {
				ks = append(ks, t)
			}
		}
		if os.Getenv("GOCV_NORELAX") == "" {
			ks = u.relaxConj(ks, i, pcs)
		}
		out[i] = c.And(ks...)
	}
	return out
}

// relaxConj drops conjuncts that are not needed to tell path i from the other paths.
func (u *Unit) relaxConj(ks []*Term, i int, pcs []*Term) []*Term {
	if len(pcs) > 8 || len(ks) < 2 || len(ks) > 16 {
		return ks
	}
	c := u.c
	disjoint := func(rest []*Term) bool {
		neg := map[*Term]bool{}
		for _, t := range rest {
			neg[c.Not(t)] = true
		}
		for j, p := range pcs {
			if j == i {
				continue
			}
			ok := false
			for _, t := range conj(p) {
				if neg[t] {
					ok = true
					break
				}
				if t.op == "or" {
					all := true
					for _, a := range t.args {
						all = all && neg[a]
					}
					if all {
						ok = true
						break
					}
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for k := len(ks) - 1; k >= 0 && len(ks) > 1; k-- {
		rest := append(append([]*Term{}, ks[:k]...), ks[k+1:]...)
		if disjoint(rest) {
			ks = rest
		}
	}
	return ks
}

func (u *Unit) mergeVal(cond *Term, a, b Val) (Val, bool) {
	if a == b {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return u.c.Ite(cond, x, y), true
		}
		if y, ok := b.(*Addr); ok {
			return u.mergeVal(cond, a, u.term(y))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			n := &StructV{T: x.T}
			for i := range x.F {
				m, ok := u.mergeVal(cond, x.F[i], y.F[i])
				if !ok {
					return nil, false
				}
				n.F = append(n.F, m)
			}
			return n, true
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.V) == len(y.V) {
			n := &TupleV{}
			for i := range x.V {
				m, ok := u.mergeVal(cond, x.V[i], y.V[i])
				if !ok {
					return nil, false
				}
				n.V = append(n.V, m)
			}
			return n, true
		}
	case *Addr:
		if y, ok := b.(*Addr); ok {
			if x.kind == y.kind && x.path == y.path && x.ref == y.ref && x.h == y.h && x.idx == y.idx && x.g == y.g {
				return a, true
			}
			if x.kind == 'f' && y.kind == 'f' && x.path == y.path && types.Identical(x.root, y.root) {
				n := *x
				n.ref = u.c.Ite(cond, x.ref, y.ref)
				return &n, true
			}
		}
		if y, ok := b.(*Term); ok {
			return u.mergeVal(cond, u.term(x), y)
		}
	case *BoundFn:
		if y, ok := b.(*BoundFn); ok && x.name == y.name {
			return x, true
		}
	}
	return nil, false
}

func (u *Unit) merge(edges []edge) *State {
	if len(edges) == 1 {
		return edges[0].st.clone()
	}
	c := u.c
	pcs := make([]*Term, len(edges))
	for i, e := range edges {
		pcs[i] = e.st.pc
	}
	rel := u.relCond(pcs)
	out := edges[len(edges)-1].st.clone()
	for i := len(edges) - 2; i >= 0; i-- {
		s := edges[i].st
		cond := rel[i]
		if s.epoch > out.epoch {
			out.epoch = s.epoch
		}
		keys := map[string]bool{}
		for k := range s.heap {
			keys[k] = true
		}
		for k := range out.heap {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			a, b := s.heap[k], out.heap[k]
			var ref *HNode
			if a != nil {
				ref = a
			} else {
				ref = b
			}
			if a == nil {
				a = u.hget(s, k, ref.sort, ref.typ)
			}
			if b == nil {
				b = u.hget(out, k, ref.sort, ref.typ)
			}
			out.heap[k] = u.mergeH(cond, a, b)
		}
		mk := map[string]bool{}
		for k := range s.mem {
			mk[k] = true
		}
		for k := range out.mem {
			mk[k] = true
		}
		for _, k := range sortedKeys(mk) {
			a, b := s.mem[k], out.mem[k]
			if a == nil {
				a = u.mget(s, b.elem)
			}
			if b == nil {
				b = u.mget(out, a.elem)
			}
			if a != b {
				out.mem[k] = &MNode{kind: 'i', sort: a.sort, elem: a.elem, cond: cond, prev: a, other: b, memo: map[*Term]*Term{}}
			}
		}
		gk := map[string]bool{}
		for k := range s.ghost {
			gk[k] = true
		}
		for k := range out.ghost {
			gk[k] = true
		}
		for _, k := range sortedKeys(gk) {
			a, aok := s.ghost[k]
			b, bok := out.ghost[k]
			if !aok || !bok {
				if !aok {
					a = u.ghostInit(k, b)
				} else {
					b = u.ghostInit(k, a)
				}
			}
			out.ghost[k] = c.Ite(cond, a, b)
		}
		for k, a := range s.regs {
			b, ok := out.regs[k]
			if !ok {
				out.regs[k] = a
				continue
			}
			m, ok := u.mergeVal(cond, a, b)
			if !ok {
				delete(out.regs, k)
				continue
			}
			out.regs[k] = m
		}
		// defers
		if len(s.defers) != len(out.defers) || (len(s.defers) > 0 && &s.defers[0] != &out.defers[0]) {
			n := 0
			for n < len(s.defers) && n < len(out.defers) && s.defers[n].call == out.defers[n].call {
				n++
			}
			d := append([]deferred{}, s.defers[:n]...)
			for _, x := range s.defers[n:] {
				x.cond = c.And(x.cond, cond)
				d = append(d, x)
			}
			for _, x := range out.defers[n:] {
				x.cond = c.And(x.cond, c.Not(cond))
				d = append(d, x)
			}
			out.defers = d
		}
		pcs2 := c.Or(out.pc, s.pc)
		out.pc = pcs2
	}
	return out
}

func (u *Unit) ghostInit(k string, like *Term) *Term {
	if strings.HasPrefix(k, "global:") {
		return u.c.Sym(k, like.sort)
	}
	return u.c.Sym("ghost0:"+k, like.sort)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- function execution

type Frame struct {
	u     *Unit
	fn    *ssa.Function
	depth int
	binds []Val
	loops map[*ssa.BasicBlock]*loopInfo
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	rets  []retEdge
	path  string
	env   map[ssa.Value]Val
}
type retEdge struct {
	st   *State
	vals []Val
	blk  *ssa.BasicBlock
}
type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	idx    int
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, []*ssa.BasicBlock, map[*ssa.BasicBlock]int) {
	var rpo []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		rpo = append(rpo, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(rpo)-1; i < j; i, j = i+1, j-1 {
		rpo[i], rpo[j] = rpo[j], rpo[i]
	}
	order := map[*ssa.BasicBlock]int{}
	for i, b := range rpo {
		order[b] = i
	}
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			} else if order[s] <= order[b] {
				return nil, nil, nil // irreducible
			}
		}
	}
	n := 0
	for _, b := range rpo {
		if l := loops[b]; l != nil {
			n++
			l.idx = n
			for _, p := range loops {
				if p != l && p.blocks[b] {
					if l.parent == nil || len(p.blocks) < len(l.parent.blocks) {
						l.parent = p
					}
				}
			}
		}
	}
	return loops, rpo, order
}

func (u *Unit) pos(i interface{ Pos() token.Pos }, fn *ssa.Function) string {
	p := u.pr.fset.Position(i.Pos())
	if !p.IsValid() {
		return shortName(fnName(fn))
	}
	f := p.Filename
	if k := strings.Index(f, "/pkg/"); k >= 0 {
		f = f[k+5:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

const maxDepth = 24

// runFn executes fn's body and returns its return edges.
func (u *Unit) runFn(fn *ssa.Function, args []Val, binds []Val, st *State, path string) *Frame {
	if len(u.stack) > maxDepth {
		u.fail("inline depth exceeded at %s", fnName(fn))
	}
	for _, f := range u.stack {
		if f == fn {
			u.fail("recursive call of %s without contract", shortName(fnName(fn)))
		}
	}
	u.steps++
	if u.steps > 200000 {
		u.fail("too many steps")
	}
	u.stack = append(u.stack, fn)
	defer func() { u.stack = u.stack[:len(u.stack)-1] }()
	if fn != u.root {
		u.inlined[shortName(fnName(fn))] = true
	}
	fr := &Frame{u: u, fn: fn, binds: binds, path: path}
	fr.loops, fr.rpo, fr.order = findLoops(fn)
	if fr.rpo == nil {
		u.fail("irreducible control flow in %s", fnName(fn))
	}
	u.frames = append(u.frames, fr)
	defer func() { u.frames = u.frames[:len(u.frames)-1] }()
	ns := st.clone()
	ns.regs = map[ssa.Value]Val{}
	ns.defers = nil
	for i, p := range fn.Params {
		ns.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			ns.regs[f] = binds[i]
		}
	}
	pend := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, ns}}}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		all[b] = true
	}
	fr.runRegion(all, nil, pend, func(to *ssa.BasicBlock, e edge) { u.fail("edge out of function") })
	return fr
}

// callBody inlines fn's body.
func (u *Unit) callBody(fn *ssa.Function, args []Val, binds []Val, st *State, path string) []Val {
	saved := st.regs
	savedDefers := st.defers
	fr := u.runFn(fn, args, binds, st, path)
	if len(fr.rets) == 0 {
		// never returns
		st.pc = u.c.False()
		st.regs = saved
		var out []Val
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			out = append(out, u.zero(res.At(i).Type()))
		}
		return out
	}
	var es []edge
	for _, r := range fr.rets {
		s := r.st
		s.regs = map[ssa.Value]Val{}
		s.defers = nil
		es = append(es, edge{nil, s})
	}
	m := u.merge(es)
	pcs := make([]*Term, len(es))
	for i := range es {
		pcs[i] = es[i].st.pc
	}
	rel := u.relCond(pcs)
	var out []Val
	for k := range fr.rets[0].vals {
		v := fr.rets[len(fr.rets)-1].vals[k]
		for i := len(fr.rets) - 2; i >= 0; i-- {
			mv, ok := u.mergeVal(rel[i], fr.rets[i].vals[k], v)
			if !ok {
				u.fail("cannot merge results of %s", fnName(fn))
			}
			v = mv
		}
		out = append(out, v)
	}
	st.pc, st.heap, st.mem, st.ghost, st.epoch = m.pc, m.heap, m.mem, m.ghost, m.epoch
	st.regs = saved
	st.defers = savedDefers
	return out
}

// runRegion executes the blocks of a region in reverse post order.
// Edges leaving the region (or going back to header) are passed to exit.
func (fr *Frame) runRegion(region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, pend map[*ssa.BasicBlock][]edge, exit func(to *ssa.BasicBlock, e edge)) {
	u := fr.u
	first := true
	push := func(to *ssa.BasicBlock, e edge) {
		if e.st.pc.isFalse() {
			return
		}
		if !region[to] || to == header {
			exit(to, e)
			return
		}
		pend[to] = append(pend[to], e)
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		if !region[b] || done[b] {
			continue
		}
		es := pend[b]
		delete(pend, b)
		if len(es) == 0 {
			continue
		}
		isHdr := fr.loops[b] != nil
		if isHdr && !(b == header && first) {
			l := fr.loops[b]
			for x := range l.blocks {
				done[x] = true
			}
			fr.runLoop(l, es, push)
			continue
		}
		var st *State
		if b == header && first {
			st = es[0].st // phis already set
		} else {
			st = fr.enter(b, es)
		}
		first = false
		fr.runBlock(b, st, push, b == header)
	}
	_ = u
}

// enter merges edges into block b and evaluates its phis.
func (fr *Frame) enter(b *ssa.BasicBlock, es []edge) *State {
	u := fr.u
	pcs := make([]*Term, len(es))
	for i := range es {
		pcs[i] = es[i].st.pc
	}
	rel := u.relCond(pcs)
	phis := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for i := len(es) - 1; i >= 0; i-- {
			x := fr.phiVal(p, b, es[i])
			if i == len(es)-1 {
				v = x
				continue
			}
			m, ok := u.mergeVal(rel[i], x, v)
			if !ok {
				// closures or other unmergeable values
				v = nil
				break
			}
			v = m
		}
		phis[p] = v
	}
	st := u.merge(es)
	for p, v := range phis {
		if v == nil {
			delete(st.regs, p)
		} else {
			st.regs[p] = v
		}
	}
	return st
}

func (fr *Frame) phiVal(p *ssa.Phi, b *ssa.BasicBlock, e edge) Val {
	for i, pr := range b.Preds {
		if pr == e.from {
			return fr.get(e.st, p.Edges[i])
		}
	}
	fr.u.fail("phi without predecessor")
	return nil
}

func (fr *Frame) get(st *State, v ssa.Value) Val {
	u := fr.u
	switch x := v.(type) {
	case *ssa.Const:
		return u.constVal(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return &Addr{kind: 'g', g: x, root: x.Type().(*types.Pointer).Elem(), T: x.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	if r, ok := st.regs[v]; ok {
		return r
	}
	u.fail("value %s of %s undefined here", v.Name(), shortName(fnName(fr.fn)))
	return nil
}

func (u *Unit) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return u.zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return u.c.Bool(constant.BoolVal(x.Value))
	case constant.String:
		return u.c.Str(constant.StringVal(x.Value))
	case constant.Int:
		i, ok := constant.Int64Val(x.Value)
		if ok {
			return u.c.Int(i)
		}
	}
	return u.c.Sym("const:"+x.Value.ExactString(), u.sortOf(t))
}

func (fr *Frame) runBlock(b *ssa.BasicBlock, st *State, push func(*ssa.BasicBlock, edge), _ bool) {
	u := fr.u
	for _, in := range b.Instrs {
		if st.pc.isFalse() {
			return
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cond := u.term(fr.get(st, x.Cond))
			t, f := st, st.clone()
			f.pc = u.c.And(f.pc, u.c.Not(cond))
			t.pc = u.c.And(t.pc, cond)
			push(b.Succs[0], edge{b, t})
			push(b.Succs[1], edge{b, f})
			return
		case *ssa.Jump:
			push(b.Succs[0], edge{b, st})
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, fr.get(st, r))
			}
			fr.rets = append(fr.rets, retEdge{st, vs, b})
			return
		case *ssa.Panic:
			u.oblige(st, "panic", u.pos(x, fr.fn), u.c.False(), "explicit panic is unreachable")
			st.pc = u.c.False()
			return
		default:
			fr.instr(st, in)
		}
	}
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (u *Unit) alloc(st *State, T types.Type, hint string) *Term {
	r := u.c.FreshAlloc("new:" + hint)
	u.allocTyp[r] = T
	for _, l := range leaves(T, "") {
		u.writeObj(st, r, T, l.path, l.T, u.zeroTerm(l.T), "", true)
	}
	if isBufferTag("*" + typeKey(T)) {
		u.gwrite(st, T, r, "$s", strT, u.c.Str(""))
	}
	return r
}

func (fr *Frame) instr(st *State, in ssa.Instruction) {
	u := fr.u
	c := u.c
	u.steps++
	if u.steps > 400000 {
		u.fail("too many steps")
	}
	pos := func() string { return u.pos(in, fr.fn) }
	set := func(v ssa.Value, x Val) { st.regs[v] = x }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		T := derefT(x.Type())
		if a, ok := T.Underlying().(*types.Array); ok {
			n := a.Len()
			if n > 64 {
				u.fail("large array")
			}
			es := make([]*Term, n)
			for i := range es {
				es[i] = c.Unit(u.zeroTerm(a.Elem()))
			}
			content := c.Empty(seqOf(u.elemSort(a.Elem())))
			if n > 0 {
				content = c.Concat(es...)
			}
			h := u.newSlice(st, "arr", a.Elem(), content)
			u.hcap[h] = c.Int(n)
			set(x, h)
			return
		}
		hint := typeKey(T)
		if k := strings.LastIndex(hint, "."); k >= 0 {
			hint = hint[k+1:]
		}
		set(x, u.alloc(st, T, hint))
	case *ssa.FieldAddr:
		base := fr.get(st, x.X)
		root := derefT(x.X.Type())
		sT := root.Underlying().(*types.Struct)
		f := sT.Field(x.Field)
		switch a := base.(type) {
		case *Addr:
			n := *a
			n.path = join(a.path, f.Name())
			n.T = f.Type()
			set(x, &n)
		case *Term:
			u.oblige(st, "nil", pos(), c.Neq(a, c.Int(0)), "nil pointer dereference (field "+f.Name()+")")
			set(x, &Addr{kind: 'f', ref: a, root: root, path: f.Name(), T: f.Type()})
		default:
			u.fail("field of %T", base)
		}
	case *ssa.Field:
		v := fr.get(st, x.X)
		if sv, ok := v.(*StructV); ok {
			set(x, sv.F[x.Field])
			return
		}
		u.fail("field of %T", v)
	case *ssa.IndexAddr:
		base := fr.get(st, x.X)
		idx := u.term(fr.get(st, x.Index))
		var elem types.Type
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			elem = t.Elem()
		case *types.Pointer:
			elem = t.Elem().Underlying().(*types.Array).Elem()
		}
		h := u.term(base)
		u.oblige(st, "index", pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, u.slen(h))), "index in range")
		set(x, &Addr{kind: 'e', h: h, idx: idx, elem: elem, T: elem})
	case *ssa.Index:
		base := u.term(fr.get(st, x.X))
		idx := u.term(fr.get(st, x.Index))
		if isStringT(x.X.Type()) {
			u.oblige(st, "index", pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.Len(base))), "string index in range")
			set(x, u.strAt(base, idx))
			return
		}
		u.fail("index of array value")
	case *ssa.Lookup:
		if isStringT(x.X.Type()) {
			base := u.term(fr.get(st, x.X))
			idx := u.term(fr.get(st, x.Index))
			u.oblige(st, "index", pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.Len(base))), "string index in range")
			set(x, u.strAt(base, idx))
			return
		}
		u.mapLookup(fr, st, x)
	case *ssa.MapUpdate:
		u.mapUpdate(fr, st, x)
	case *ssa.MakeMap:
		r := c.FreshAlloc("map")
		set(x, r)
	case *ssa.MakeSlice:
		elem := x.Type().Underlying().(*types.Slice).Elem()
		n := u.term(fr.get(st, x.Len))
		u.oblige(st, "make", pos(), c.Ge(n, c.Int(0)), "make length is not negative")
		set(x, u.makeSlice(st, elem, n, pos()))
	case *ssa.Slice:
		fr.slice(st, x, pos())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			set(x, u.load(st, fr.get(st, x.X), x.Type(), pos()))
		case token.NOT:
			set(x, c.Not(u.term(fr.get(st, x.X))))
		case token.SUB:
			set(x, c.Sub(c.Int(0), u.term(fr.get(st, x.X))))
		default:
			set(x, u.freshVal("unop", x.Type()))
		}
	case *ssa.BinOp:
		set(x, u.binop(st, x.Op, fr.get(st, x.X), fr.get(st, x.Y), x.X.Type(), x.Type(), pos()))
	case *ssa.Store:
		u.store(st, fr.get(st, x.Addr), fr.get(st, x.Val), x.Val.Type(), pos())
	case *ssa.ChangeType:
		set(x, u.changeType(fr.get(st, x.X), x.Type()))
	case *ssa.ChangeInterface:
		set(x, fr.get(st, x.X))
	case *ssa.Convert:
		set(x, u.convert(st, fr.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		u.fail("multi convert")
	case *ssa.MakeInterface:
		set(x, u.makeIface(fr.get(st, x.X), x.X.Type()))
	case *ssa.TypeAssert:
		fr.typeAssert(st, x, pos())
	case *ssa.Extract:
		t := fr.get(st, x.Tuple)
		if tv, ok := t.(*TupleV); ok {
			set(x, tv.V[x.Index])
			return
		}
		u.fail("extract from %T", t)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, fr.get(st, b))
		}
		set(x, &Closure{fn: x.Fn.(*ssa.Function), binds: bs})
	case *ssa.Call:
		set(x, fr.call(st, &x.Call, x, pos()))
	case *ssa.Defer:
		d := deferred{cond: c.True(), call: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, fr.get(st, a))
		}
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			d.fn = fr.get(st, x.Call.Value)
		} else if _, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			d.fn = fr.get(st, x.Call.Value)
		}
		st.defers = append(append([]deferred{}, st.defers...), d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			if d.cond.isTrue() {
				fr.callVals(st, &d.call.Call, d.fn, d.args, d.call, u.pos(d.call, fr.fn))
				continue
			}
			a, b := st.clone(), st.clone()
			a.pc = c.And(a.pc, d.cond)
			b.pc = c.And(b.pc, c.Not(d.cond))
			if !a.pc.isFalse() {
				fr.callVals(a, &d.call.Call, d.fn, d.args, d.call, u.pos(d.call, fr.fn))
				m := u.merge([]edge{{nil, a}, {nil, b}})
				*st = *m
			}
		}
	case *ssa.Go:
		u.fail("goroutine")
	case *ssa.Send, *ssa.Select:
		u.fail("channel operation")
	case *ssa.MakeChan:
		set(x, u.freshVal("chan", x.Type()))
	case *ssa.Range:
		set(x, fr.get(st, x.X))
	case *ssa.Next:
		// range over map or string: arbitrary element
		tt := x.Type().(*types.Tuple)
		v := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				v.V = append(v.V, c.Int(0))
				continue
			}
			v.V = append(v.V, u.freshVal("next", tt.At(i).Type()))
		}
		set(x, v)
	default:
		u.fail("instruction %T", in)
	}
}

func (u *Unit) strAt(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.ival >= 0 && i.ival < int64(len(s.name)) {
		return u.c.Int(int64(s.name[i.ival]))
	}
	var r *Term
	if u.mod.abstractStr {
		r = u.c.UF("byteAt", SInt, s, i)
	} else {
		r = u.c.Nth(s, i)
	}
	f := u.c.And(u.c.Ge(r, u.c.Int(0)), u.c.Le(r, u.c.Int(255)))
	if !u.mod.abstractStr {
		// outside the string str.to_code is -1
		f = u.c.Implies(u.c.And(u.c.Ge(i, u.c.Int(0)), u.c.Lt(i, u.c.Len(s))), f)
	}
	u.c.Fact(r, f)
	return r
}

func (u *Unit) makeSlice(st *State, elem types.Type, n *Term, pos string) *Term {
	c := u.c
	var content *Term
	if n.op == "int" && n.ival <= 16 {
		content = c.Empty(seqOf(u.elemSort(elem)))
		for i := int64(0); i < n.ival; i++ {
			content = c.Concat(content, c.Unit(u.zeroTerm(elem)))
		}
		if n.ival > 0 {
			u.checkElemInv(st, u.zeroTerm(elem), elem, pos)
		}
	} else {
		c.boundN++
		content = c.FM(n, c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt), c.Unit(u.zeroTerm(elem)))
	}
	return u.newSlice(st, "make", elem, content)
}

func (fr *Frame) slice(st *State, x *ssa.Slice, pos string) {
	u := fr.u
	c := u.c
	base := fr.get(st, x.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return u.term(fr.get(st, v))
	}
	lo, hi := opt(x.Low), opt(x.High)
	if isStringT(x.X.Type()) {
		s := u.term(base)
		if lo == nil {
			lo = c.Int(0)
		}
		if hi == nil {
			hi = c.Len(s)
		}
		u.oblige(st, "slice", pos, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, c.Len(s))), "string slice bounds in range")
		st.regs[x] = u.substr(s, lo, hi)
		return
	}
	var elem types.Type
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		elem = t.Elem()
	case *types.Pointer:
		elem = t.Elem().Underlying().(*types.Array).Elem()
	}
	h := u.term(base)
	if lo == nil && hi == nil && x.Max == nil {
		st.regs[x] = h
		return
	}
	if lo == nil {
		lo = c.Int(0)
	}
	n := u.slen(h)
	if hi == nil {
		hi = n
	}
	u.oblige(st, "slice", pos, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, u.scap(h))), "slice bounds in range")
	pc := u.content(st, h, elem)
	nh := u.newHandle("sub")
	u.harr[nh] = u.arr(h)
	u.hown[nh] = u.own(h)
	u.hlen[nh] = c.Sub(hi, lo)
	u.hcap[nh] = c.Sub(u.scap(h), lo)
	var val *Term
	switch {
	case lo.op == "int" && lo.ival == 0 && hi == n:
		val = pc
	default:
		val = u.subSeq(pc, lo, hi, n)
	}
	k := typeKey(elem)
	m := u.mget(st, elem)
	st.mem[k] = &MNode{kind: 's', sort: m.sort, elem: elem, prev: m, h: nh, val: val, memo: map[*Term]*Term{}}
	st.regs[x] = nh
}

// subSeq is s[lo:hi] as a sequence.
func (u *Unit) subSeq(s, lo, hi, n *Term) *Term {
	c := u.c
	if lo.op == "int" && lo.ival == 0 {
		return u.prefix(s, hi)
	}
	r := c.UF("sub", s.sort, s, lo, hi)
	c.Fact(r, c.Implies(c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, c.Len(s))), c.Eq(c.Len(r), c.Sub(hi, lo))))
	return r
}

// prefix is the first t elements of s.
func (u *Unit) prefix(s, t *Term) *Term {
	c := u.c
	if t.op == "int" && t.ival <= 0 {
		return c.Empty(s.sort)
	}
	if t == c.Len(s) {
		return s
	}
	if s.op == "ite" {
		return c.Ite(s.args[0], u.prefix(s.args[1], t), u.prefix(s.args[2], t))
	}
	if s.sort != SStr {
		// explicit units
		if t.op == "int" && s.op == "++" {
			out := []*Term{}
			ok := true
			for i := int64(0); i < t.ival; i++ {
				if i < int64(len(s.args)) && s.args[i].op == "seq.unit" {
					out = append(out, s.args[i])
				} else {
					ok = false
					break
				}
			}
			if ok {
				return c.Concat(out...)
			}
		}
		if l := c.lin(t); l.k >= 1 && u.nonnegLin(l) {
			p := c.Sub(t, c.Int(1))
			return c.Concat(u.prefix(s, p), c.Unit(u.nthE(s, p)))
		}
	}
	r := c.UF("prefix", s.sort, s, t)
	n := c.Len(s)
	c.Fact(r, c.Implies(c.And(c.Ge(t, c.Int(0)), c.Le(t, n)), c.Eq(c.Len(r), t)))
	c.Fact(r, c.Implies(c.Eq(t, n), c.Eq(r, s)))
	c.Fact(r, c.Implies(c.Eq(t, c.Int(0)), c.Eq(r, c.Empty(s.sort))))
	return r
}

func (u *Unit) nthE(s, i *Term) *Term { return u.c.Nth(s, i) }

// nonnegLin: every variable part is a known non-negative loop counter (or a length) with positive coefficient.
func (u *Unit) nonnegLin(l lin) bool {
	for x, v := range l.m {
		if v == 0 {
			continue
		}
		if v < 0 || !(strings.HasPrefix(x.name, "k!") || x.op == "len") {
			return false
		}
	}
	return true
}

func (u *Unit) substr(s, lo, hi *Term) *Term {
	c := u.c
	if lo.op == "int" && lo.ival == 0 && hi == c.Len(s) {
		return s
	}
	if s.op == "str" && lo.op == "int" && hi.op == "int" && lo.ival >= 0 && lo.ival <= hi.ival && hi.ival <= int64(len(s.name)) {
		return c.Str(s.name[lo.ival:hi.ival])
	}
	r := c.UF("substr", SStr, s, lo, hi)
	c.Fact(r, c.Implies(c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, c.Len(s))), c.Eq(c.Len(r), c.Sub(hi, lo))))
	c.Fact(r, c.Implies(c.Eq(lo, hi), c.Eq(r, c.Str(""))))
	return r
}

func (u *Unit) changeType(v Val, T types.Type) Val {
	if sv, ok := v.(*StructV); ok {
		return &StructV{T: T, F: sv.F}
	}
	return v
}

func (u *Unit) convert(st *State, v Val, from, to types.Type) Val {
	c := u.c
	ft, tt := from.Underlying(), to.Underlying()
	switch {
	case isStringT(from) && isStringT(to):
		return v
	case isStringT(to):
		if b, ok := ft.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			t := u.term(v)
			if t.op == "int" && t.ival >= 0 && t.ival < 128 {
				return c.Str(string(rune(t.ival)))
			}
			r := c.UF("runeStr", SStr, t)
			c.Fact(r, c.Ge(c.Len(r), c.Int(1)))
			if !u.mod.abstractStr {
				c.Fact(r, c.Implies(c.And(c.Ge(t, c.Int(0)), c.Lt(t, c.Int(128))), c.And(c.Eq(c.Len(r), c.Int(1)), c.Eq(c.Nth(r, c.Int(0)), t))))
			} else {
				c.Fact(r, c.Implies(c.And(c.Ge(t, c.Int(0)), c.Lt(t, c.Int(128))), c.And(c.Eq(c.Len(r), c.Int(1)), c.Eq(c.UF("byteAt", SInt, r, c.Int(0)), t))))
			}
			return r
		}
		if sl, ok := ft.(*types.Slice); ok {
			return c.UF("bytesStr", SStr, u.content(st, u.term(v), sl.Elem()))
		}
	case isStringT(from):
		if sl, ok := tt.(*types.Slice); ok {
			content := c.UF("strBytes", seqOf(SInt), u.term(v))
			c.Fact(content, c.Eq(c.Len(content), c.Len(u.term(v))))
			c.Fact(content, c.Eq(c.UF("bytesStr", SStr, content), u.term(v)))
			return u.newSlice(st, "bytes", sl.Elem(), content)
		}
	}
	if fb, ok := ft.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
		if tb, ok := tt.(*types.Basic); ok && tb.Info()&types.IsInteger != 0 {
			return v // machine integers treated as mathematical
		}
	}
	if types.Identical(ft, tt) {
		return v
	}
	return u.freshVal("conv", to)
}

func (u *Unit) makeIface(v Val, T types.Type) Val {
	c := u.c
	if isIfaceT(T) {
		return v
	}
	tag := c.Tag(typeKey(T))
	u.boxTypes[typeKey(T)] = T
	switch x := v.(type) {
	case *StructV:
		return c.MkIface(tag, u.box(x))
	}
	t := u.term(v)
	switch t.sort {
	case SInt:
		return c.MkIface(tag, t)
	case SStr:
		return c.MkIface(tag, c.UF("boxStr", SInt, t))
	case SBool:
		return c.MkIface(tag, c.Ite(t, c.Int(1), c.Int(0)))
	}
	u.fail("makeiface %s", t.sort)
	return nil
}

func (u *Unit) unIface(i *Term, T types.Type) Val {
	c := u.c
	r := c.RefOf(i)
	if isStructT(T) {
		return u.unbox(T, r)
	}
	switch u.sortOf(T) {
	case SInt:
		u.typeFacts(r, T)
		return r
	case SBool:
		return c.Eq(r, c.Int(1))
	case SStr:
		var f func(r *Term) *Term
		f = func(r *Term) *Term {
			if r.op == "uf" && r.name == "boxStr" {
				return r.args[0]
			}
			if r.op == "ite" {
				return c.Ite(r.args[0], f(r.args[1]), f(r.args[2]))
			}
			return c.UF("unboxStr", SStr, r)
		}
		return f(r)
	}
	return r
}

func (fr *Frame) typeAssert(st *State, x *ssa.TypeAssert, pos string) {
	u := fr.u
	c := u.c
	i := u.term(fr.get(st, x.X))
	T := x.AssertedType
	if isIfaceT(T) {
		ok := u.implementsCond(i, T)
		if x.CommaOk {
			st.regs[x] = &TupleV{[]Val{c.Ite(ok, i, c.NilIface()), ok}}
			return
		}
		u.oblige(st, "typeassert", pos, ok, "type assertion holds")
		st.regs[x] = i
		return
	}
	ok := c.Eq(c.TagOf(i), c.Tag(typeKey(T)))
	v := u.unIface(i, T)
	if x.CommaOk {
		z := u.zero(T)
		m, good := u.mergeVal(ok, v, z)
		if !good {
			u.fail("type assert merge")
		}
		st.regs[x] = &TupleV{[]Val{m, ok}}
		return
	}
	u.oblige(st, "typeassert", pos, ok, "type assertion to "+shortName(typeKey(T))+" holds")
	st.regs[x] = v
}

func (u *Unit) implementsCond(i *Term, T types.Type) *Term {
	c := u.c
	if T.Underlying().(*types.Interface).NumMethods() == 0 {
		return c.Neq(c.TagOf(i), c.Int(0))
	}
	return c.And(c.Neq(c.TagOf(i), c.Int(0)), c.UF("implements:"+typeKey(T), SBool, c.TagOf(i)))
}

func (u *Unit) binop(st *State, op token.Token, a, b Val, T, RT types.Type, pos string) Val {
	c := u.c
	switch op {
	case token.EQL, token.NEQ:
		r := u.eqVals(a, b)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, y := u.term(a), u.term(b)
	if x.sort == SStr {
		switch op {
		case token.ADD:
			return c.Concat(x, y)
		case token.LSS:
			return c.UF("strlt", SBool, x, y)
		case token.GTR:
			return c.UF("strlt", SBool, y, x)
		case token.LEQ:
			return c.Not(c.UF("strlt", SBool, y, x))
		case token.GEQ:
			return c.Not(c.UF("strlt", SBool, x, y))
		}
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	isF := false
	if bt, ok := T.Underlying().(*types.Basic); ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		isF = true
	}
	if !isF {
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Gt(x, y)
		case token.GEQ:
			return c.Ge(x, y)
		case token.QUO, token.REM:
			u.oblige(st, "div", pos, c.Neq(y, c.Int(0)), "division by zero")
		}
	}
	if u.sortOf(RT) == SBool {
		return c.UF("op"+op.String(), SBool, x, y)
	}
	return c.UF("op"+op.String(), SInt, x, y)
}

func (u *Unit) eqVals(a, b Val) *Term {
	c := u.c
	if x, ok := a.(*StructV); ok {
		y, ok := b.(*StructV)
		if !ok {
			u.fail("struct comparison")
		}
		r := c.True()
		for i := range x.F {
			r = c.And(r, u.eqVals(x.F[i], y.F[i]))
		}
		return r
	}
	if _, ok := a.(*Closure); ok {
		if t, ok := b.(*Term); ok && t.op == "int" {
			return c.False()
		}
	}
	if _, ok := b.(*Closure); ok {
		return u.eqVals(b, a)
	}
	x, y := u.term(a), u.term(b)
	if x.sort == SIface && y.sort == SIface {
		nx := x == c.NilIface()
		ny := y == c.NilIface()
		if ny {
			return c.Eq(c.TagOf(x), c.Int(0))
		}
		if nx {
			return c.Eq(c.TagOf(y), c.Int(0))
		}
	}
	return c.Eq(x, y)
}

func (u *Unit) mapLookup(fr *Frame, st *State, x *ssa.Lookup) {
	// maps are not modelled: any value
	v := u.freshVal("maplookup", x.Type())
	st.regs[x] = v
}
func (u *Unit) mapUpdate(fr *Frame, st *State, x *ssa.MapUpdate) {
	m := u.term(fr.get(st, x.Map))
	u.oblige(st, "nilmap", u.pos(x, fr.fn), u.c.Neq(m, u.c.Int(0)), "write to nil map")
}
