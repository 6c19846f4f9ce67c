package main

import (
	"fmt"
	"strings"
)

// Comprehension terms (binders over an index 0 <= i < n):
//   fm(n, body)         concatenation of body(0) .. body(n-1)       (string or sequence)
//   fi(n, body)         first i < n with body(i), n when there is none
//   li(n, body)         last i < n with body(i), -1 when there is none
//   fold(n, init, body) body(..body(init,0)..,n-1)
// The bound index is bv(L), the bound accumulator ac(L); L is the binder height, so that
// terms equal up to renaming are identical terms.

const infName = "inf"

func (c *Ctx) Inf() *Term { return c.mk("sym", infName, 0, SInt) }

func binderOp(op string) bool { return op == "fm" || op == "fi" || op == "li" || op == "fold" }

func (c *Ctx) height(t *Term) int {
	if h, ok := c.hmemo[t]; ok {
		return h
	}
	h := 0
	for _, a := range t.args {
		if x := c.height(a); x > h {
			h = x
		}
	}
	if binderOp(t.op) {
		if int(t.ival) > h {
			h = int(t.ival)
		}
	}
	c.hmemo[t] = h
	return h
}

// hasBound reports whether t contains any bound variable of level l (0: any free bound variable is not tracked).
func (c *Ctx) occurs(t *Term, x map[*Term]bool) bool {
	if len(x) == 0 {
		return false
	}
	memo := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if x[t] {
			return true
		}
		if len(t.args) == 0 {
			return false
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if f(a) {
				r = true
				break
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}
func (c *Ctx) occurs1(t, x *Term) bool { return c.occurs(t, map[*Term]bool{x: true}) }

func (c *Ctx) bv(l int) *Term           { return c.mk("bv", "", int64(l), SInt) }
func (c *Ctx) ac(l int, s Sort) *Term   { return c.mk("ac", "", int64(l), s) }
func (c *Ctx) sub1(t, x, y *Term) *Term { return c.SubstT(t, map[*Term]*Term{x: y}) }
func (c *Ctx) SubstT(t *Term, m map[*Term]*Term) *Term {
	return c.Subst(t, m, map[*Term]*Term{}, c.Rebuild)
}

// open instantiates the body of a binder term.
func (c *Ctx) open(t, i *Term) *Term { return c.sub1(t.args[len(t.args)-1], c.bv(int(t.ival)), i) }
func (c *Ctx) openFold(t, acc, i *Term) *Term {
	return c.SubstT(t.args[2], map[*Term]*Term{c.bv(int(t.ival)): i, c.ac(int(t.ival), t.sort): acc})
}

func (c *Ctx) reclose(t *Term, a []*Term) *Term {
	l := int(t.ival)
	c.boundN++
	i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	switch t.op {
	case "fm":
		return c.FM(a[0], i, c.sub1(a[1], c.bv(l), i))
	case "fi":
		return c.FI(a[0], i, c.sub1(a[1], c.bv(l), i))
	case "li":
		return c.LI(a[0], i, c.sub1(a[1], c.bv(l), i))
	}
	acc := c.mk("sym", fmt.Sprintf("_a%d", c.boundN), 0, t.sort)
	return c.Fold(a[0], a[1], acc, i, c.SubstT(a[2], map[*Term]*Term{c.bv(l): i, c.ac(l, t.sort): acc}))
}

func (c *Ctx) close(op string, s Sort, args []*Term, acc, i, body *Term) *Term {
	rounds := 0
	for {
		// a provisional level no other binder uses, so that nothing can be captured while terms are rebuilt
		c.boundN++
		big := 1<<20 + c.boundN
		m := map[*Term]*Term{i: c.bv(big)}
		if acc != nil {
			m[acc] = c.ac(big, s)
		}
		b := c.SubstT(body, m)
		l := c.height(b) + 1
		m = map[*Term]*Term{c.bv(big): c.bv(l)}
		if acc != nil {
			m[c.ac(big, s)] = c.ac(l, s)
		}
		r := c.SubstT(b, m)
		if c.height(r)+1 == l {
			return c.mk(op, "", int64(l), s, append(append([]*Term{}, args...), r)...)
		}
		// renaming changed the shape: start again from the reduced form
		c.boundN++
		m = map[*Term]*Term{c.bv(big): i}
		if acc != nil {
			m[c.ac(big, s)] = acc
		}
		body = c.rename(b, m, map[*Term]*Term{}, func(t *Term, args []*Term) *Term { return c.mk(t.op, t.name, t.ival, t.sort, args...) })
		if rounds++; rounds > 5 {
			panic("binder levels do not settle")
		}
	}
}

func (c *Ctx) nonneg(t *Term) bool {
	l := c.lin(t)
	if l.k < 0 {
		return false
	}
	for x, v := range l.m {
		if v == 0 {
			continue
		}
		if v < 0 || !c.nonnegAtom(x) {
			return false
		}
	}
	return true
}
func (c *Ctx) nonnegAtom(x *Term) bool {
	if x.op == "len" || x.op == "fi" || strings.HasPrefix(x.name, "k!") || (x.op == "uf" && x.name == "slen") {
		return true
	}
	if x.op == "ite" {
		return c.nonneg(x.args[1]) && c.nonneg(x.args[2])
	}
	return false
}

// stepable: n = m + j with m known non-negative and j >= 1.
func (c *Ctx) pred(n *Term) *Term {
	p := c.Sub(n, c.Int(1))
	if n.op == "int" {
		if n.ival >= 1 {
			return p
		}
		return nil
	}
	if c.lin(n).k >= 1 && c.nonneg(p) {
		return p
	}
	return nil
}

// FM is the concatenation of body over i = 0..n-1.
func (c *Ctx) FM(n, i, body *Term) *Term {
	if isEmptySeq(body) || (n.op == "int" && n.ival <= 0) {
		return c.Empty(body.sort)
	}
	if n.op == "ite" {
		return c.Ite(n.args[0], c.FM(n.args[1], i, body), c.FM(n.args[2], i, body))
	}
	if n.op != "int" || n.ival <= 64 {
		if p := c.pred(n); p != nil {
			return c.Concat(c.FM(p, i, body), c.sub1(body, i, p))
		}
	}
	// up to the first index satisfying a condition: the body is only met where the condition fails
	if n.op == "fi" {
		phi := c.sub1(n.args[1], c.bv(int(n.ival)), i)
		body = c.Ite(phi, c.Empty(body.sort), body)
		if isEmptySeq(body) {
			return body
		}
	}
	// a separator after every part but the last stands before every part but the first
	if body.op == "++" && body.sort == SStr {
		if last := body.args[len(body.args)-1]; last.op == "ite" && last.args[0] == c.Eq(i, c.Sub(n, c.Int(1))) && last.args[1].op == "str" && last.args[1].name == "" && !c.occurs1(last.args[2], i) {
			body = c.Concat(append([]*Term{c.Ite(c.Eq(i, c.Int(0)), last.args[1], last.args[2])}, body.args[:len(body.args)-1]...)...)
		}
	}
	// fusion: the body reads a constructed sequence only element-wise over its whole length
	if t := c.fusable(n, i, body); t != nil {
		y := c.Sym("_y:"+string(elemOf(t.sort)), elemOf(t.sort))
		b := c.SubstT(body, map[*Term]*Term{c.Nth(t, i): y})
		if !c.occurs1(b, i) {
			return c.mapOver(t, y, b)
		}
	}
	return c.close("fm", body.sort, []*Term{n}, nil, i, body)
}

func (c *Ctx) fusable(n, i, body *Term) *Term {
	var found *Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || found != nil {
			return
		}
		seen[t] = true
		if t.op == "nth" && t.args[1] == i {
			s := t.args[0]
			switch s.op {
			case "fm", "++", "ite", "seq.unit":
				if c.Len(s) == n && !c.occurs1(s, i) {
					found = s
					return
				}
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(body)
	return found
}

// mapOver concatenates body[y := e] for the elements e of t in order.
func (c *Ctx) mapOver(t, y, body *Term) *Term {
	switch t.op {
	case "seq.empty":
		return c.Empty(body.sort)
	case "seq.unit":
		return c.sub1(body, y, t.args[0])
	case "++":
		var out []*Term
		for _, a := range t.args {
			out = append(out, c.mapOver(a, y, body))
		}
		return c.Concat(out...)
	case "ite":
		return c.Ite(t.args[0], c.mapOver(t.args[1], y, body), c.mapOver(t.args[2], y, body))
	case "fm":
		c.boundN++
		j := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
		return c.FM(t.args[0], j, c.mapOver(c.open(t, j), y, body))
	}
	c.boundN++
	j := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	return c.FM(c.Len(t), j, c.sub1(body, y, c.Nth(t, j)))
}

// FI is the first i < n with body, n if none (n may be Inf).
func (c *Ctx) FI(n, i, body *Term) *Term {
	if c.norm() {
		body = c.nnf(c.prune(body), false)
	}
	if body.isFalse() {
		return n
	}
	if body.isTrue() {
		return c.Int(0)
	}
	if n.op == "int" && n.ival <= 0 {
		return c.Int(0)
	}
	if n.op == "ite" {
		return c.Ite(n.args[0], c.FI(n.args[1], i, body), c.FI(n.args[2], i, body))
	}
	if n == c.Inf() && body.op == "or" && c.norm() {
		// a disjunct that holds from some index on is the bound
		for j, a := range body.args {
			m := c.boundOf(a, i)
			if m == nil {
				continue
			}
			var rest []*Term
			for k, b := range body.args {
				if k != j {
					rest = append(rest, c.SubstT(b, map[*Term]*Term{a: c.False()}))
				}
			}
			return c.Ite(c.Ge(m, c.Int(0)), c.FI(m, i, c.Or(rest...)), c.Int(0))
		}
	}
	if n.op == "int" && n.ival <= 32 {
		r := n
		for k := n.ival - 1; k >= 0; k-- {
			r = c.Ite(c.sub1(body, i, c.Int(k)), c.Int(k), r)
		}
		return r
	}
	if p := c.pred(n); p != nil && n.op != "int" {
		f := c.FI(p, i, body)
		return c.Ite(c.Lt(f, p), f, c.Ite(c.sub1(body, i, p), p, n))
	}
	return c.close("fi", SInt, []*Term{n}, nil, i, body)
}

func (c *Ctx) LI(n, i, body *Term) *Term {
	if body.isFalse() {
		return c.Int(-1)
	}
	if body.isTrue() {
		return c.Sub(n, c.Int(1))
	}
	if n.op == "int" && n.ival <= 0 {
		return c.Int(-1)
	}
	if p := c.pred(n); p != nil && (n.op != "int" || n.ival <= 32) {
		return c.Ite(c.sub1(body, i, p), p, c.LI(p, i, body))
	}
	return c.close("li", SInt, []*Term{n}, nil, i, body)
}

func (c *Ctx) Fold(n, init, acc, i, body *Term) *Term {
	if body == acc || (n.op == "int" && n.ival <= 0) {
		return init
	}
	if n.op == "ite" {
		return c.Ite(n.args[0], c.Fold(n.args[1], init, acc, i, body), c.Fold(n.args[2], init, acc, i, body))
	}
	if p := c.pred(n); p != nil && (n.op != "int" || n.ival <= 16) {
		return c.SubstT(body, map[*Term]*Term{i: p, acc: c.Fold(p, init, acc, i, body)})
	}
	// fusion over a constructed sequence
	if t := c.fusable(n, i, body); t != nil {
		y := c.Sym("_y:"+string(elemOf(t.sort)), elemOf(t.sort))
		b := c.SubstT(body, map[*Term]*Term{c.Nth(t, i): y})
		if !c.occurs1(b, i) {
			return c.foldOver(t, init, acc, y, b)
		}
	}
	return c.close("fold", init.sort, []*Term{n, init}, acc, i, body)
}

func (c *Ctx) foldOver(t, init, acc, y, body *Term) *Term {
	switch t.op {
	case "seq.empty":
		return init
	case "seq.unit":
		return c.SubstT(body, map[*Term]*Term{acc: init, y: t.args[0]})
	case "++":
		for _, a := range t.args {
			init = c.foldOver(a, init, acc, y, body)
		}
		return init
	case "ite":
		return c.Ite(t.args[0], c.foldOver(t.args[1], init, acc, y, body), c.foldOver(t.args[2], init, acc, y, body))
	}
	c.boundN++
	j := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	if t.op == "fm" {
		a2 := c.mk("sym", fmt.Sprintf("_a%d", c.boundN), 0, init.sort)
		return c.Fold(t.args[0], init, a2, j, c.foldOver(c.open(t, j), a2, acc, y, body))
	}
	return c.Fold(c.Len(t), init, acc, j, c.sub1(body, y, c.Nth(t, j)))
}

// binderFacts are the ground defining facts of a binder term.
func (c *Ctx) binderFacts(t *Term) []*Term {
	n := t.args[0]
	inf := n == c.Inf()
	switch t.op {
	case "fi":
		out := []*Term{c.Ge(t, c.Int(0))}
		if inf {
			if c.norm() {
				out = append(out, c.thresholds(t)...)
			}
			return append(out, c.open(t, t))
		}
		out = append(out, c.Implies(c.Ge(n, c.Int(0)), c.Le(t, n)))
		out = append(out, c.Implies(c.Lt(t, n), c.open(t, t)))
		return out
	case "li":
		return []*Term{c.Ge(t, c.Int(-1)), c.Implies(c.Ge(n, c.Int(0)), c.Lt(t, n)), c.Implies(c.Ge(t, c.Int(0)), c.open(t, t))}
	case "fm":
		return []*Term{c.Implies(c.Le(n, c.Int(0)), c.Eq(t, c.Empty(t.sort)))}
	case "fold":
		return []*Term{c.Implies(c.Le(n, c.Int(0)), c.Eq(t, t.args[1]))}
	}
	return nil
}

// lift prints a binder term as an uninterpreted function of its free parameters.
func (c *Ctx) lift(t *Term) (string, []*Term) {
	if r, ok := c.liftMemo[t]; ok {
		return r.sk, r.ps
	}
	sk, ps := c.lift1(t)
	c.liftMemo[t] = &liftRes{sk, ps}
	return sk, ps
}

type liftRes struct {
	sk string
	ps []*Term
}

func (c *Ctx) lift1(t *Term) (skeleton string, params []*Term) {
	idx := map[*Term]int{}
	var b strings.Builder
	var f func(t *Term, bound int)
	// a subterm is a parameter when it has no free bound variable
	freeMemo := map[*Term]int{} // greatest free level, 0 none
	var free func(t *Term) int
	free = func(t *Term) int {
		if r, ok := freeMemo[t]; ok {
			return r
		}
		r := 0
		if t.op == "bv" || t.op == "ac" {
			r = int(t.ival)
		}
		for k, a := range t.args {
			x := free(a)
			if binderOp(t.op) && k == len(t.args)-1 && x == int(t.ival) {
				// bound here; a lower level can not be free in a closed subterm of a higher binder unless shadowed
				x = c.freeBelow(a, int(t.ival))
			}
			if x > r {
				r = x
			}
		}
		freeMemo[t] = r
		return r
	}
	f = func(t *Term, _ int) {
		if free(t) == 0 && !t.isLit() {
			k, ok := idx[t]
			if !ok {
				k = len(params)
				idx[t] = k
				params = append(params, t)
			}
			fmt.Fprintf(&b, "$%d", k)
			return
		}
		fmt.Fprintf(&b, "(%s", t.op)
		if t.name != "" {
			fmt.Fprintf(&b, " %q", t.name)
		}
		if t.ival != 0 || t.op == "int" {
			fmt.Fprintf(&b, " %d", t.ival)
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			f(a, 0)
		}
		b.WriteByte(')')
	}
	fmt.Fprintf(&b, "%s:%s:", t.op, t.sort)
	for k, a := range t.args {
		if k < len(t.args)-1 {
			kk := len(params)
			params = append(params, a)
			fmt.Fprintf(&b, "$%d ", kk)
			continue
		}
		f(a, int(t.ival))
	}
	return b.String(), params
}

// freeBelow: the greatest bound level other than l occurring free in t.
func (c *Ctx) freeBelow(t *Term, l int) int {
	r := 0
	var f func(t *Term, bound map[int]bool)
	f = func(t *Term, bound map[int]bool) {
		if (t.op == "bv" || t.op == "ac") && !bound[int(t.ival)] && int(t.ival) > r {
			r = int(t.ival)
		}
		for k, a := range t.args {
			if binderOp(t.op) && k == len(t.args)-1 {
				nb := map[int]bool{int(t.ival): true}
				for x := range bound {
					nb[x] = true
				}
				f(a, nb)
			} else {
				f(a, bound)
			}
		}
	}
	f(t, map[int]bool{l: true})
	return r
}

// thresholds: an unbounded first index is no greater than an index at which the condition holds;
// the candidates are where linear comparisons of the index in the condition change.
func (c *Ctx) thresholds(t *Term) []*Term {
	k := c.Fresh("th", SInt)
	body := c.open(t, k)
	seen := map[*Term]bool{}
	var out []*Term
	var f func(x *Term)
	f = func(x *Term) {
		if seen[x] || len(out) > 4 {
			return
		}
		seen[x] = true
		if x.op == "<=" || x.op == ">=" {
			for _, y := range []*Term{x, c.Not(x)} {
				if m := c.boundOf(y, k); m != nil && !seen[m] {
					seen[m] = true
					out = append(out, c.Implies(c.And(c.Ge(m, c.Int(0)), c.sub1(body, k, m)), c.Le(t, m)))
				}
			}
		}
		if binderOp(x.op) {
			return
		}
		for _, a := range x.args {
			f(a)
		}
	}
	f(body)
	return out
}
