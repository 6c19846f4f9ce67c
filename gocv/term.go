package main

import (
	"fmt"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "String"
	SIface Sort = "Iface"
)

func seqOf(s Sort) Sort { return Sort("(Seq " + string(s) + ")") }
func isSeq(s Sort) bool { return strings.HasPrefix(string(s), "(Seq ") }
func elemOf(s Sort) Sort {
	return Sort(strings.TrimSuffix(strings.TrimPrefix(string(s), "(Seq "), ")"))
}

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // "sym","int","str","true","false","uf", or a builtin operator
	name  string // symbol/uf name, string literal
	ival  int64
	sort  Sort
	args  []*Term
	stamp int // greatest creation stamp of a symbol occurring in the term
	size  int
}

// Ctx is the term universe of one verification unit.
type Ctx struct {
	recDefs  map[string]bool
	factor   bool
	tab      map[string]*Term
	n        int
	stampN   int
	isAlloc  map[*Term]bool    // symbol denotes a freshly allocated reference
	facts    map[*Term][]*Term // facts valid whenever the term occurs
	symN     map[string]int
	tags     map[string]int
	ufSig    map[string]string
	hmemo    map[*Term]int
	boundN   int
	lifted   map[string]string
	liftMemo map[*Term]*liftRes
	skFacts  map[string]skInfo
	skRules  map[string][]skRule
	hooks    func(t *Term) // called for every new uf term
	gen      func(t *Term) []*Term
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, isAlloc: map[*Term]bool{}, facts: map[*Term][]*Term{}, symN: map[string]int{},
		tags: map[string]int{}, ufSig: map[string]string{}, hmemo: map[*Term]int{}, lifted: map[string]string{}, liftMemo: map[*Term]*liftRes{}, skFacts: map[string]skInfo{}, skRules: map[string][]skRule{}}
}

func (c *Ctx) mk(op, name string, ival int64, s Sort, args ...*Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%s\x00%s\x00%d\x00%s", op, name, ival, s)
	for _, a := range args {
		fmt.Fprintf(&b, "\x00%d", a.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, name: name, ival: ival, sort: s, args: args, size: 1}
	for _, a := range args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	c.tab[k] = t
	return t
}

// Fresh makes a new symbol.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.symN[hint]++
	c.stampN++
	t := c.mk("sym", fmt.Sprintf("%s!%d", hint, c.symN[hint]), 0, s)
	t.stamp = c.stampN
	return t
}

// Sym makes a named symbol with stamp zero (a pre-state value).
func (c *Ctx) Sym(name string, s Sort) *Term { return c.mk("sym", name, 0, s) }

func (c *Ctx) FreshAlloc(hint string) *Term {
	t := c.Fresh(hint, SInt)
	c.isAlloc[t] = true
	c.Fact(t, c.Lt(c.Int(0), t))
	return t
}

func (c *Ctx) Fact(t *Term, f *Term) {
	if f.op == "true" {
		return
	}
	for _, g := range c.facts[t] {
		if g == f {
			return
		}
	}
	c.facts[t] = append(c.facts[t], f)
}

func (c *Ctx) True() *Term  { return c.mk("true", "", 0, SBool) }
func (c *Ctx) False() *Term { return c.mk("false", "", 0, SBool) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (c *Ctx) Int(i int64) *Term  { return c.mk("int", "", i, SInt) }
func (c *Ctx) Str(s string) *Term { return c.mk("str", s, 0, SStr) }

func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isLit() bool {
	return t.op == "true" || t.op == "false" || t.op == "int" || t.op == "str"
}

// UF applies an uninterpreted function.
// initList: a list of the initial memory stands for itself.
func (c *Ctx) initList(name string, args []*Term) *Term {
	if strings.HasPrefix(name, "sl:") && args[0].op == "uf" && strings.HasPrefix(args[0].name, "cont:") {
		if h := args[0].args[0]; h.op == "uf" && strings.HasPrefix(h.name, "H:") && !c.occursAlloc(h, 0) {
			return h
		}
	}
	return nil
}

// charStr: the string of one known ASCII character.
func (c *Ctx) charStr(name string, args []*Term) *Term {
	if !c.norm() || len(args) != 1 {
		return nil
	}
	x := args[0]
	switch {
	case name == "runeStr":
	case name == "bytesStr" && x.op == "seq.unit":
		x = x.args[0]
	default:
		return nil
	}
	if x.op == "int" && x.ival >= 0 && x.ival < 128 {
		return c.Str(string(rune(x.ival)))
	}
	return nil
}

func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	if h := c.initList(name, args); h != nil {
		return h
	}
	if name == "within" {
		c.ufSig[name] = "within"
		return c.within(args[0], args[1])
	}
	if name == "split" {
		if r := c.split(args); r != nil {
			return r
		}
	}
	if r := c.charStr(name, args); r != nil {
		return r
	}
	sig := name + ":"
	for _, a := range args {
		sig += string(a.sort) + ","
	}
	sig += "->" + string(s)
	if old, ok := c.ufSig[name]; ok && old != sig {
		// overload: disambiguate by signature
		name = name + "@" + sig
	} else {
		c.ufSig[name] = sig
	}
	return c.mk("uf", name, 0, s, args...)
}

// split of a constant
func (c *Ctx) split(a []*Term) *Term {
	if a[0].op != "str" || a[1].op != "str" || a[1].name == "" {
		return nil
	}
	r := c.Empty(seqOf(SStr))
	for _, p := range strings.Split(a[0].name, a[1].name) {
		r = c.Concat(r, c.Unit(c.Str(p)))
	}
	return r
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", "", 0, SBool, a)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if t.op == "not" && seen[t.args[0]] {
			return false
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", 0, SBool, out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t.op == "true" {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var items []*Term
		if t.op == "or" {
			items = t.args
		} else {
			items = []*Term{t}
		}
		for _, a := range items {
			if a.isTrue() {
				return c.True()
			}
			if a.isFalse() || seen[a] {
				continue
			}
			if seen[c.Not(a)] {
				return c.True()
			}
			seen[a] = true
			out = append(out, a)
		}
	}
	// w or (not w and B) -> w or B for composite w
	for i, t := range out {
		if t.op != "and" || !c.norm() {
			continue
		}
		var ks []*Term
		for _, a := range t.args {
			if a.op == "not" && (a.args[0].op == "and" || a.args[0].op == "or") && seen[a.args[0]] {
				continue
			}
			ks = append(ks, a)
		}
		if len(ks) < len(t.args) {
			n := append([]*Term{}, out...)
			n[i] = c.And(ks...)
			return c.Or(n...)
		}
	}
	// merge and(A,c) or and(A,!c) -> A ; and absorption
	changed := true
	for changed && len(out) > 1 {
		changed = false
	outer:
		for i := 0; i < len(out); i++ {
			for j := 0; j < len(out); j++ {
				if i == j {
					continue
				}
				if m := c.orMerge(out[i], out[j]); m != nil {
					var n []*Term
					for k := range out {
						if k != i && k != j {
							n = append(n, out[k])
						}
					}
					if m.isTrue() {
						return m
					}
					out = append(n, m)
					changed = true
					break outer
				}
			}
		}
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", 0, SBool, out...)
}

func (c *Ctx) orMerge(x, y *Term) *Term {
	cx, cy := conj(x), conj(y)
	sx := map[*Term]bool{}
	for _, t := range cx {
		sx[t] = true
	}
	// x subset of y => x
	sub := true
	sy := map[*Term]bool{}
	for _, t := range cy {
		sy[t] = true
	}
	for _, t := range cx {
		if !sy[t] {
			sub = false
			break
		}
	}
	if sub {
		return x
	}
	// and(A,l) or and(A,not l, B...) => and(A, or(l, B)) only when B empty
	var onlyX, onlyY, common []*Term
	for _, t := range cx {
		if sy[t] {
			common = append(common, t)
		} else {
			onlyX = append(onlyX, t)
		}
	}
	for _, t := range cy {
		if !sx[t] {
			onlyY = append(onlyY, t)
		}
	}
	if len(onlyX) == 1 && len(onlyY) == 1 && c.Not(onlyX[0]) == onlyY[0] {
		return c.And(common...)
	}
	if len(onlyX) == 1 && len(onlyY) > 1 {
		n := c.Not(onlyX[0])
		for i, t := range onlyY {
			if t == n {
				rest := append(append([]*Term{}, onlyY[:i]...), onlyY[i+1:]...)
				return c.And(append(common, c.Or(onlyX[0], c.And(rest...)))...)
			}
		}
	}
	return nil
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.True()
	}
	if a == b {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", "", 0, SBool, a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s | %s", a.sort, b.sort, a, b))
	}
	if cond.op == "not" {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == "ite" && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c1, x, ite(c2, x, y)) => ite(c1 or c2, x, y)
	if b.op == "ite" && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	if c.factor && (a.sort == SStr || isSeq(a.sort)) {
		A, B := concatParts(a), concatParts(b)
		// characters of literals count one by one, the beginning first
		A, B = append([]*Term{}, A...), append([]*Term{}, B...)
		for p := 0; p < len(A) && p < len(B); p++ {
			x, y := A[p], B[p]
			if x.op == "str" && y.op == "str" && x != y {
				n := 0
				for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
					n++
				}
				split := func(ts []*Term, t *Term) []*Term {
					if n == 0 || n == len(t.name) {
						return ts
					}
					return append(append(append([]*Term{}, ts[:p]...), c.Str(t.name[:n]), c.Str(t.name[n:])), ts[p+1:]...)
				}
				A, B = split(A, x), split(B, y)
			}
			if A[p] != B[p] {
				break
			}
		}
		p, q := 0, 0
		for p < len(A) && p < len(B) && A[p] == B[p] {
			p++
		}
		for q < len(A)-p && q < len(B)-p {
			x, y := A[len(A)-1-q], B[len(B)-1-q]
			if x.op == "str" && y.op == "str" && x != y {
				n := 0
				for n < len(x.name) && n < len(y.name) && x.name[len(x.name)-1-n] == y.name[len(y.name)-1-n] {
					n++
				}
				split := func(ts []*Term, t *Term) []*Term {
					if n == 0 || n == len(t.name) {
						return ts
					}
					i := len(ts) - 1 - q
					return append(append(append([]*Term{}, ts[:i]...), c.Str(t.name[:len(t.name)-n]), c.Str(t.name[len(t.name)-n:])), ts[i+1:]...)
				}
				A, B = split(A, x), split(B, y)
			}
			if A[len(A)-1-q] != B[len(B)-1-q] {
				break
			}
			q++
		}
		if p+q > 0 {
			e := c.Empty(a.sort)
			if a.sort == SStr {
				e = c.Str("")
			}
			join := func(ts []*Term) *Term {
				return c.Concat(append([]*Term{e}, ts...)...)
			}
			return c.Concat(join(A[:p]), c.Ite(cond, join(A[p:len(A)-q]), join(B[p:len(B)-q])), join(A[len(A)-q:]))
		}
	}
	return c.mk("ite", "", 0, a.sort, cond, a, b)
}

func concatParts(t *Term) []*Term {
	if t.op == "++" {
		return t.args
	}
	if t.op == "seq.empty" || t.op == "str" && t.name == "" {
		return nil
	}
	return []*Term{t}
}

// definitely distinct?
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	if c.isAlloc[a] && c.isAlloc[b] {
		return true
	}
	for k := 0; k < 2; k++ {
		if c.isAlloc[a] && (b.stamp < a.stamp || (b.op == "int" && b.ival <= 0)) {
			return true
		}
		a, b = b, a
	}
	if a.sort == SInt {
		// x+k1 vs x+k2
		d := c.Sub(a, b)
		if d.op == "int" && d.ival != 0 {
			return true
		}
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if c.distinct(a, b) {
		return c.False()
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.op == "int" && a.ival == 0 && b.op == "len" && b.args[0].sort == SStr {
		return c.Eq(b.args[0], c.Str(""))
	}
	if b.op == "int" && b.ival == 0 && a.op == "len" && a.args[0].sort == SStr {
		return c.Eq(a.args[0], c.Str(""))
	}
	if a.op == "mkiface" && b.op == "mkiface" {
		return c.And(c.Eq(a.args[0], b.args[0]), c.Eq(a.args[1], b.args[1]))
	}
	if a.op == "ite" && (b.isLit() || c.isAlloc[b] || b.op == "mkiface" || (a.args[1].isLit() && a.args[2].isLit())) {
		l, r := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		return c.Ite(a.args[0], l, r)
	}
	if b.op == "ite" && (a.isLit() || c.isAlloc[a] || a.op == "mkiface") {
		return c.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", 0, SBool, a, b)
}
func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// linear arithmetic normal form
type lin struct {
	m map[*Term]int64
	k int64
}

func (c *Ctx) lin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{nil, t.ival}
	case "+":
		r := lin{map[*Term]int64{}, 0}
		for _, a := range t.args {
			l := c.lin(a)
			r.k += l.k
			for x, v := range l.m {
				r.m[x] += v
			}
		}
		return r
	case "*":
		if t.args[0].op == "int" {
			l := c.lin(t.args[1])
			r := lin{map[*Term]int64{}, l.k * t.args[0].ival}
			for x, v := range l.m {
				r.m[x] = v * t.args[0].ival
			}
			return r
		}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func (c *Ctx) fromLin(l lin) *Term {
	var ks []*Term
	for x, v := range l.m {
		if v != 0 {
			ks = append(ks, x)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, x := range ks {
		v := l.m[x]
		if v == 1 {
			args = append(args, x)
		} else {
			args = append(args, c.mk("*", "", 0, SInt, c.Int(v), x))
		}
	}
	if l.k != 0 || len(args) == 0 {
		args = append(args, c.Int(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "", 0, SInt, args...)
}

func (c *Ctx) Add(a, b *Term) *Term { return c.lincomb(a, 1, b) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.lincomb(a, -1, b) }
func (c *Ctx) lincomb(a *Term, k int64, b *Term) *Term {
	la, lb := c.lin(a), c.lin(b)
	r := lin{map[*Term]int64{}, la.k + k*lb.k}
	for x, v := range la.m {
		r.m[x] += v
	}
	for x, v := range lb.m {
		r.m[x] += k * v
	}
	return c.fromLin(r)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return c.Int(a.ival * b.ival)
	}
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l := c.lin(b)
		r := lin{map[*Term]int64{}, l.k * a.ival}
		for x, v := range l.m {
			r.m[x] = v * a.ival
		}
		return c.fromLin(r)
	}
	return c.mk("*", "", 0, SInt, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	if c.norm() {
		// compare inside a choice with a constant branch
		if a.op == "ite" && b.op == "int" && (a.args[1].op == "int" || a.args[2].op == "int") {
			return c.Or(c.And(a.args[0], c.Le(a.args[1], b)), c.And(c.Not(a.args[0]), c.Le(a.args[2], b)))
		}
		if b.op == "ite" && a.op == "int" && (b.args[1].op == "int" || b.args[2].op == "int") {
			return c.Or(c.And(b.args[0], c.Le(a, b.args[1])), c.And(c.Not(b.args[0]), c.Le(a, b.args[2])))
		}
	}
	d := c.Sub(b, a) // d >= 0
	if d.op == "int" {
		return c.Bool(d.ival >= 0)
	}
	// normalise: sum >= -k
	l := c.lin(d)
	k := l.k
	l.k = 0
	// all coefs negative single -> flip
	x := c.fromLin(l)
	if x.op == "*" && x.args[0].op == "int" && x.args[0].ival == -1 {
		if y := x.args[1]; y.op == "li" && k == -1 && y.args[0] != c.Inf() {
			return c.Not(c.liExists(y))
		}
		if y := x.args[1]; y.op == "len" && y.args[0].sort == SStr && k == 0 {
			return c.Eq(y.args[0], c.Str(""))
		}
		return c.mk("<=", "", 0, SBool, x.args[1], c.Int(k))
	}
	if x.op == "len" && x.args[0].sort == SStr && k == -1 {
		return c.Not(c.Eq(x.args[0], c.Str("")))
	}
	if x.op == "li" && k == 0 && x.args[0] != c.Inf() {
		return c.liExists(x)
	}
	return c.mk(">=", "", 0, SBool, x, c.Int(-k))
}

// liExists: some index satisfies the condition of a last-index term.
func (c *Ctx) liExists(t *Term) *Term {
	c.boundN++
	i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	return c.Lt(c.FI(t.args[0], i, c.open(t, i)), t.args[0])
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// ---- sequences and strings
func (c *Ctx) Empty(s Sort) *Term {
	if s == SStr {
		return c.Str("")
	}
	return c.mk("seq.empty", "", 0, s)
}
func (c *Ctx) Unit(e *Term) *Term { return c.mk("seq.unit", "", 0, seqOf(e.sort), e) }
func isEmptySeq(t *Term) bool {
	return t.op == "seq.empty" || (t.op == "str" && t.name == "")
}
func (c *Ctx) Concat(ts ...*Term) *Term {
	var out []*Term
	var s Sort
	for _, t := range ts {
		s = t.sort
		items := []*Term{t}
		if t.op == "++" {
			items = t.args
		}
		for _, a := range items {
			if isEmptySeq(a) {
				continue
			}
			if a.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = c.Str(out[len(out)-1].name + a.name)
				continue
			}
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return c.Empty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("++", "", 0, s, out...)
}
func (c *Ctx) Len(t *Term) *Term {
	switch t.op {
	case "seq.empty":
		return c.Int(0)
	case "seq.unit":
		return c.Int(1)
	case "str":
		return c.Int(int64(len(t.name)))
	case "++":
		r := c.Int(0)
		for _, a := range t.args {
			r = c.Add(r, c.Len(a))
		}
		return r
	case "ite":
		return c.Ite(t.args[0], c.Len(t.args[1]), c.Len(t.args[2]))
	case "upd":
		return c.Len(t.args[0])
	case "fm":
		// concatenation of singletons has the length of its range
		if b := t.args[1]; b.op == "seq.unit" && t.args[0].op != "int" {
			return t.args[0]
		}
	}
	if t.op == "uf" && len(t.args) == 1 && isSeq(t.sort) && (strings.HasPrefix(t.name, "cont") || strings.HasPrefix(t.name, "clob")) {
		// the content of a list handle has the handle's length
		return c.UF("slen", SInt, t.args[0])
	}
	r := c.mk("len", "", 0, SInt, t)
	c.Fact(r, c.Ge(r, c.Int(0)))
	return r
}
func (c *Ctx) Nth(s, i *Term) *Term {
	switch s.op {
	case "seq.unit":
		if i.op == "int" && i.ival == 0 {
			return s.args[0]
		}
	case "++":
		if i.op == "int" && i.ival >= 0 {
			k := i.ival
			for _, a := range s.args {
				if a.op == "seq.unit" {
					if k == 0 {
						return a.args[0]
					}
					k--
					continue
				}
				break
			}
		}
		// last unit: index == len(rest)
		if s.sort != SStr {
			last := s.args[len(s.args)-1]
			if last.op == "seq.unit" {
				rest := c.Concat(s.args[:len(s.args)-1]...)
				if c.Len(rest) == i {
					return last.args[0]
				}
			}
		}
	case "ite":
		if i.op == "int" {
			return c.Ite(s.args[0], c.Nth(s.args[1], i), c.Nth(s.args[2], i))
		}
	case "upd":
		return c.Ite(c.Eq(s.args[1], i), s.args[2], c.Nth(s.args[0], i))
	}
	es := SInt
	if isSeq(s.sort) {
		es = elemOf(s.sort)
	}
	r := c.mk("nth", "", 0, es, s, i)
	return r
}

// elemAt is element i of s, for an i known to be in range.
func (c *Ctx) elemAt(s, i *Term) *Term {
	if s.op == "fm" && s.args[1].op == "seq.unit" {
		return c.sub1(s.args[1].args[0], c.bv(int(s.ival)), i)
	}
	return c.Nth(s, i)
}

func (c *Ctx) Upd(s, i, v *Term) *Term {
	if i.op == "int" {
		parts := []*Term{s}
		if s.op == "++" {
			parts = s.args
		}
		k := i.ival
		ok := true
		for j, p := range parts {
			if p.op != "seq.unit" {
				ok = false
				break
			}
			if int64(j) == k {
				break
			}
		}
		if ok && k < int64(len(parts)) {
			n := append([]*Term{}, parts...)
			n[k] = c.Unit(v)
			return c.Concat(n...)
		}
	}
	if s.op == "++" && i.op != "int" {
		// the first element of a part that starts at i (i is in range wherever an update is made)
		for j, p := range s.args {
			if j == 0 || p.op != "fm" || p.args[1].op != "seq.unit" {
				continue
			}
			if c.Len(c.Concat(s.args[:j]...)) != i {
				continue
			}
			c.boundN++
			b := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
			tail := c.FM(c.Sub(p.args[0], c.Int(1)), b, c.Unit(c.elemAt(p, c.Add(b, c.Int(1)))))
			n := append(append([]*Term{}, s.args[:j]...), c.Unit(v), tail)
			return c.Concat(append(n, s.args[j+1:]...)...)
		}
	}
	return c.mk("upd", "", 0, s.sort, s, i, v)
}

func (c *Ctx) MkIface(tag, ref *Term) *Term {
	if tag.op == "tagof" && ref.op == "refof" && tag.args[0] == ref.args[0] {
		return tag.args[0]
	}
	if tag.op == "ite" && ref.op == "ite" && tag.args[0] == ref.args[0] {
		return c.Ite(tag.args[0], c.MkIface(tag.args[1], ref.args[1]), c.MkIface(tag.args[2], ref.args[2]))
	}
	return c.mk("mkiface", "", 0, SIface, tag, ref)
}
func (c *Ctx) NilIface() *Term { return c.MkIface(c.Int(0), c.Int(0)) }
func (c *Ctx) TagOf(t *Term) *Term {
	switch t.op {
	case "mkiface":
		return t.args[0]
	case "ite":
		return c.Ite(t.args[0], c.TagOf(t.args[1]), c.TagOf(t.args[2]))
	}
	r := c.mk("tagof", "", 0, SInt, t)
	c.Fact(r, c.Ge(r, c.Int(0)))
	c.Fact(r, c.Implies(c.Eq(r, c.Int(0)), c.Eq(c.RefOf(t), c.Int(0))))
	return r
}
func (c *Ctx) RefOf(t *Term) *Term {
	switch t.op {
	case "mkiface":
		return t.args[1]
	case "ite":
		return c.Ite(t.args[0], c.RefOf(t.args[1]), c.RefOf(t.args[2]))
	}
	return c.mk("refof", "", 0, SInt, t)
}
func (c *Ctx) IsNilIface(t *Term) *Term { return c.Eq(c.TagOf(t), c.Int(0)) }

func (c *Ctx) Tag(name string) *Term {
	id, ok := c.tags[name]
	if !ok {
		id = len(c.tags) + 1
		c.tags[name] = id
	}
	return c.Int(int64(id))
}

// Subst replaces symbols by terms (rebuilding through smart constructors).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term, reb func(t *Term, args []*Term) *Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.Subst(a, m, memo, reb)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		if n := len(args) - 1; binderOp(t.op) && args[n] != t.args[n] {
			r = c.substBinder(t, args, m, memo, reb)
		} else {
			r = reb(t, args)
		}
	}
	memo[t] = r
	return r
}

// substBinder substitutes in the body of a binder term with its bound variable opened first, so that
// no binder of the substituted terms captures it.
func (c *Ctx) substBinder(t *Term, args []*Term, m, memo map[*Term]*Term, reb func(t *Term, args []*Term) *Term) *Term {
	l := int(t.ival)
	n := len(args) - 1
	raw := func(t *Term, args []*Term) *Term { return c.mk(t.op, t.name, t.ival, t.sort, args...) }
	c.boundN++
	i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	om := map[*Term]*Term{c.bv(l): i}
	var acc *Term
	if t.op == "fold" {
		acc = c.mk("sym", fmt.Sprintf("_a%d", c.boundN), 0, t.sort)
		om[c.ac(l, t.sort)] = acc
	}
	body := c.rename(t.args[n], om, map[*Term]*Term{}, raw)
	body = c.Subst(body, m, memo, reb)
	switch t.op {
	case "fm":
		return c.FM(args[0], i, body)
	case "fi":
		return c.FI(args[0], i, body)
	case "li":
		return c.LI(args[0], i, body)
	}
	return c.Fold(args[0], args[1], acc, i, body)
}

// rename replaces atoms by atoms without reducing anything.
func (c *Ctx) rename(t *Term, m, memo map[*Term]*Term, raw func(t *Term, args []*Term) *Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.rename(a, m, memo, raw)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = raw(t, args)
	}
	memo[t] = r
	return r
}

// Rebuild applies the smart constructor of t's operator to new arguments.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Implies(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = c.Add(r, x)
		}
		return r
	case "*":
		return c.Mul(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case ">=":
		return c.Ge(a[0], a[1])
	case "++":
		return c.Concat(a...)
	case "len":
		return c.Len(a[0])
	case "nth":
		return c.Nth(a[0], a[1])
	case "upd":
		return c.Upd(a[0], a[1], a[2])
	case "seq.unit":
		return c.Unit(a[0])
	case "mkiface":
		return c.MkIface(a[0], a[1])
	case "tagof":
		return c.TagOf(a[0])
	case "refof":
		return c.RefOf(a[0])
	case "uf":
		if h := c.initList(t.name, a); h != nil {
			return h
		}
		if t.name == "within" {
			return c.within(a[0], a[1])
		}
		if t.name == "split" {
			if r := c.split(a); r != nil {
				return r
			}
		}
		if r := c.charStr(t.name, a); r != nil {
			return r
		}
		return c.mk("uf", t.name, 0, t.sort, a...)
	case "fm", "fi", "li", "fold":
		return c.reclose(t, a)
	}
	return c.mk(t.op, t.name, t.ival, t.sort, a...)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.op {
	case "sym":
		return t.name
	case "bv", "ac":
		return fmt.Sprintf("%s%d", t.op, t.ival)
	case "int":
		return fmt.Sprint(t.ival)
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "true", "false":
		return t.op
	}
	n := t.op
	if t.op == "uf" {
		n = t.name
	}
	if d == 0 {
		return n + "(..)"
	}
	var a []string
	for _, x := range t.args {
		a = append(a, x.str(d-1))
	}
	return n + "(" + strings.Join(a, ", ") + ")"
}

// ---- SMT printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			b.WriteString(`""`)
		} else if ch == '\\' || ch < 32 || ch > 126 {
			fmt.Fprintf(&b, `\u{%x}`, ch)
		} else {
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}
func smtName(s string) string {
	s = strings.ReplaceAll(s, "|", "!")
	s = strings.ReplaceAll(s, "\\", "!")
	return "|" + s + "|"
}

type smtPrinter struct {
	c     *Ctx
	b     strings.Builder
	names map[*Term]string
	decl  map[string]bool
	refs  map[*Term]int
}

func (p *smtPrinter) head(t *Term) string {
	switch t.op {
	case "uf":
		n := smtName(t.name)
		if !p.decl["f"+n] {
			p.decl["f"+n] = true
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.sort)
		}
		return n
	case "++":
		if t.sort == SStr {
			return "str.++"
		}
		return "seq.++"
	case "len":
		if t.args[0].sort == SStr {
			return "str.len"
		}
		return "seq.len"
	case "nth":
		if t.args[0].sort == SStr {
			return "str.nthcode"
		}
		return "seq.nth"
	case "mkiface":
		return "mkiface"
	case "tagof":
		return "itag"
	case "refof":
		return "iref"
	case "upd":
		n := smtName("upd " + string(t.sort))
		if !p.decl["f"+n] {
			p.decl["f"+n] = true
			fmt.Fprintf(&p.b, "(declare-fun %s (%s Int %s) %s)\n", n, t.sort, elemOf(t.sort), t.sort)
		}
		return n
	}
	return t.op
}

// emit returns the SMT text of t, defining shared subterms first.
func (p *smtPrinter) emit(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var r string
	switch t.op {
	case "sym":
		r = smtName(t.name)
		if !p.decl["s"+r] {
			p.decl["s"+r] = true
			fmt.Fprintf(&p.b, "(declare-const %s %s)\n", r, t.sort)
		}
		p.names[t] = r
		return r
	case "int":
		if t.ival < 0 {
			r = fmt.Sprintf("(- %d)", -t.ival)
		} else {
			r = fmt.Sprint(t.ival)
		}
		p.names[t] = r
		return r
	case "str":
		r = smtStr(t.name)
		p.names[t] = r
		return r
	case "true", "false":
		return t.op
	case "seq.empty":
		return fmt.Sprintf("(as seq.empty %s)", t.sort)
	case "nth":
		if t.args[0].sort == SStr {
			r = fmt.Sprintf("(str.to_code (str.at %s %s))", p.emit(t.args[0]), p.emit(t.args[1]))
		}
	}
	if r == "" {
		var as []string
		args := t.args
		var h string
		if binderOp(t.op) {
			sk, ps := p.c.lift(t)
			n, ok := p.c.lifted[sk]
			if !ok {
				n = fmt.Sprintf("%s#%d", t.op, len(p.c.lifted)+1)
				p.c.lifted[sk] = n
			}
			args = ps
			h = smtName(n)
			if !p.decl["f"+h] {
				p.decl["f"+h] = true
				var ss []string
				for _, a := range ps {
					ss = append(ss, string(a.sort))
				}
				fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", h, strings.Join(ss, " "), t.sort)
			}
		}
		for _, a := range args {
			as = append(as, p.emit(a))
		}
		if h == "" {
			h = p.head(t)
		}
		if len(as) == 0 {
			r = h
		} else {
			r = "(" + h + " " + strings.Join(as, " ") + ")"
		}
	}
	if p.refs[t] > 1 && len(t.args) > 0 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, r)
		p.names[t] = n
		return n
	}
	p.names[t] = r
	return r
}

func (c *Ctx) countRefs(t *Term, refs map[*Term]int) {
	refs[t]++
	if refs[t] > 1 {
		return
	}
	if binderOp(t.op) {
		_, ps := c.lift(t)
		for _, a := range ps {
			c.countRefs(a, refs)
		}
		return
	}
	for _, a := range t.args {
		c.countRefs(a, refs)
	}
}

const smtPrelude = "(declare-datatypes ((Iface 0)) (((mkiface (itag Int) (iref Int)))))\n"

// Query renders: assumptions and not goal.
func (c *Ctx) Query(assume []*Term, goal *Term) string {
	p := &smtPrinter{c: c, names: map[*Term]string{}, decl: map[string]bool{}, refs: map[*Term]int{}}
	all := append([]*Term{}, assume...)
	if goal != nil {
		all = append(all, c.Not(goal))
	}
	for _, t := range all {
		c.countRefs(t, p.refs)
	}
	p.b.WriteString("(set-logic ALL)\n")
	p.b.WriteString(smtPrelude)
	for _, t := range all {
		s := p.emit(t)
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	p.b.WriteString("(check-sat)\n")
	return p.b.String()
}

// diffTerm names the first places two terms differ (diagnostics).
func diffTerm(a, b *Term, depth int) string {
	if a == b {
		return ""
	}
	if a.op != b.op || a.name != b.name || a.ival != b.ival || len(a.args) != len(b.args) || depth == 0 {
		return fmt.Sprintf("{%s[%d] %s <> %s[%d] %s}", a.op, a.ival, a.str(20), b.op, b.ival, b.str(20))
	}
	if a.op == "=" && a.args[0] != b.args[0] && a.args[1] != b.args[1] {
		return "{" + a.str(20) + " <> " + b.str(20) + "}"
	}
	out := a.op + " " + a.name + "/"
	for i := range a.args {
		if d := diffTerm(a.args[i], b.args[i], depth-1); d != "" {
			return out + fmt.Sprint(i) + " " + d
		}
	}
	return out + "same-args different sort or stamp " + fmt.Sprint(a.sort, b.sort, a.stamp, b.stamp)
}

// norm: the stronger normal forms, for specifications with recursive definitions.
func (c *Ctx) norm() bool { return len(c.recDefs) > 0 }

// prune drops redundant parts of a propositional formula over at most 14 atoms.
func (c *Ctx) prune(t *Term) *Term {
	var atoms []*Term
	idx := map[*Term]int{}
	size := 0
	var scan func(t *Term)
	scan = func(t *Term) {
		size++
		switch t.op {
		case "and", "or", "not", "=>":
			for _, a := range t.args {
				scan(a)
			}
		case "true", "false":
		case "ite":
			if t.sort == SBool {
				for _, a := range t.args {
					scan(a)
				}
				return
			}
			fallthrough
		default:
			if _, ok := idx[t]; !ok {
				idx[t] = len(atoms)
				atoms = append(atoms, t)
			}
		}
	}
	scan(t)
	if len(atoms) > 14 || size < 3 || size > 400 {
		return t
	}
	n := 1 << len(atoms)
	// theory: comparisons of the same term with constants
	var eval func(t *Term, memo map[*Term][]bool) []bool
	eval = func(t *Term, memo map[*Term][]bool) []bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := make([]bool, n)
		if k, ok := idx[t]; ok {
			for i := range r {
				r[i] = i>>k&1 == 1
			}
			memo[t] = r
			return r
		}
		var as [][]bool
		for _, a := range t.args {
			as = append(as, eval(a, memo))
		}
		for i := range r {
			switch t.op {
			case "true":
				r[i] = true
			case "and":
				r[i] = true
				for _, a := range as {
					r[i] = r[i] && a[i]
				}
			case "or":
				for _, a := range as {
					r[i] = r[i] || a[i]
				}
			case "not":
				r[i] = !as[0][i]
			case "=>":
				r[i] = !as[0][i] || as[1][i]
			case "ite":
				if as[0][i] {
					r[i] = as[1][i]
				} else {
					r[i] = as[2][i]
				}
			}
		}
		memo[t] = r
		return r
	}
	memo := map[*Term][]bool{}
	valid := make([]bool, n)
	for i := range valid {
		valid[i] = true
		for x, a := range atoms {
			for y, b := range atoms {
				if x != y && valid[i] && !c.together(a, i>>x&1 == 1, b, i>>y&1 == 1) {
					valid[i] = false
				}
			}
		}
	}
	// simplify t where only the assignments in care matter
	var simp func(t *Term, care []bool) *Term
	simp = func(t *Term, care []bool) *Term {
		v := eval(t, memo)
		all, none := true, true
		for i := range v {
			if care[i] {
				all = all && v[i]
				none = none && !v[i]
			}
		}
		if all {
			return c.True()
		}
		if none {
			return c.False()
		}
		switch t.op {
		case "not":
			return c.Not(simp(t.args[0], care))
		case "and", "or":
			args := append([]*Term{}, t.args...)
			sort.SliceStable(args, func(i, j int) bool { return args[i].size > args[j].size })
			for i := range args {
				k := append([]bool{}, care...)
				for j, o := range args {
					if j == i {
						continue
					}
					w := eval(o, memo)
					for x := range k {
						k[x] = k[x] && w[x] == (t.op == "and")
					}
				}
				args[i] = simp(args[i], k)
			}
			if t.op == "and" {
				return c.And(args...)
			}
			return c.Or(args...)
		}
		return t
	}
	return simp(t, valid)
}

// together: whether two comparisons with constants may have these values at the same time.
func (c *Ctx) together(a *Term, va bool, b *Term, vb bool) bool {
	la, ha, xa, ok := c.interval(a, va)
	if !ok {
		return true
	}
	lb, hb, xb, ok := c.interval(b, vb)
	if !ok || xa != xb {
		return true
	}
	if lb > la {
		la = lb
	}
	if hb < ha {
		ha = hb
	}
	return la <= ha
}

func (c *Ctx) interval(a *Term, v bool) (lo, hi int64, x *Term, ok bool) {
	const inf = int64(1) << 60
	switch a.op {
	case ">=", "<=":
		if a.args[1].op != "int" {
			return
		}
		k := a.args[1].ival
		if (a.op == ">=") == v {
			if v {
				return k, inf, a.args[0], true
			}
			return k + 1, inf, a.args[0], true
		}
		if v {
			return -inf, k, a.args[0], true
		}
		return -inf, k - 1, a.args[0], true
	case "=":
		p, q := a.args[0], a.args[1]
		if p.op == "int" {
			p, q = q, p
		}
		if q.op == "int" && p.sort == SInt && v {
			return q.ival, q.ival, p, true
		}
	}
	return
}

// nnf pushes negations to the atoms and orders the parts of conjunctions and disjunctions.
func (c *Ctx) nnf(t *Term, neg bool) *Term {
	switch t.op {
	case "not":
		return c.nnf(t.args[0], !neg)
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, c.nnf(a, neg))
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		if (t.op == "and") != neg {
			return c.And(as...)
		}
		return c.Or(as...)
	}
	if neg {
		return c.Not(t)
	}
	return t
}
