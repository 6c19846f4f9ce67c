package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// SolveResult is the outcome of one obligation.
type SolveResult struct {
	ok      bool
	how     string // "syntactic" or back ends used
	queries int
	dur     time.Duration
	why     string // reason of failure
	query   string // failing query
	model   string
}

type solverStats struct {
	mu      sync.Mutex
	queries map[string]int
	dur     map[string]time.Duration
}

var stats = &solverStats{queries: map[string]int{}, dur: map[string]time.Duration{}}

var solverSem = make(chan struct{}, 8)

type backend struct {
	name string
	args []string
}

var backends = []backend{
	{"z3-new", []string{"-smt2", "-in"}},
	{"cvc5", []string{"--lang=smt2", "--strings-exp"}},
	{"z3", []string{"-smt2", "-in"}},
}

// runSMT runs one query on one back end.
func runSMT(b backend, q string, timeout time.Duration) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, b.args...)
	if strings.HasPrefix(b.name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "-memory:3000")
		if timeout < 500*time.Millisecond {
			args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()))
		}
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	}
	cmd := exec.CommandContext(ctx, b.name, args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := strings.TrimSpace(out.String())
	first, _, _ := strings.Cut(s, "\n")
	stats.mu.Lock()
	stats.queries[b.name]++
	stats.dur[b.name] += time.Since(t0)
	stats.mu.Unlock()
	return strings.TrimSpace(first), s
}

type prover struct {
	rec        []*Term // what is known about recursive definitions
	identified int     // attempts to identify equal terms
	u          *Unit
	queries    int
	how        map[string]bool
	depth      int
	budget     int
	lastQ      string
	lastWhy    string
	memo       map[string]bool
	deadline   time.Time
	trace      bool
}

func (u *Unit) budget() int {
	if u.mod.budget > 0 {
		return u.mod.budget
	}
	return 400
}

// Prove decides one obligation.
func (u *Unit) Prove(o *Obl, timeout time.Duration) *SolveResult {
	t0 := time.Now()
	p := &prover{u: u, how: map[string]bool{}, budget: u.budget(), memo: map[string]bool{}, deadline: t0.Add(timeout)}
	p.trace = os.Getenv("GOCV_TRACE") != "" && strings.Contains(o.id+o.desc, os.Getenv("GOCV_TRACE"))
	c := u.c
	var assume []*Term
	for i := 0; i < o.nfacts && i < len(u.facts); i++ {
		assume = append(assume, u.facts[i].t)
	}
	r := &SolveResult{}
	if o.goal.isTrue() || o.pc.isFalse() {
		r.ok, r.how = true, "syntactic"
		return r
	}
	ok := true
	if pc, feasible := p.settle(conj(o.pc)); feasible {
		goal := o.goal
		if len(u.unfolded) > 0 && c.hasRec(goal) {
			p.recFacts(assume, goal)
			for i, f := range p.rec {
				f = p.simp(f, pc)
				if f.op != "=" {
					continue
				}
				a, b := f.args[0], f.args[1]
				if a.op == "ite" {
					a, b = b, a
				}
				if b.op != "ite" || !c.recApp(a) {
					continue
				}
				if p.lean(pc, c.Not(b.args[0])) || b.args[0].size < 80 && p.leaf(assume, pc, c.Not(b.args[0]), 300*time.Millisecond) {
					p.rec[i] = c.Eq(a, b.args[2])
				} else if p.lean(pc, b.args[0]) || b.args[0].size < 80 && p.leaf(assume, pc, b.args[0], 300*time.Millisecond) {
					p.rec[i] = c.Eq(a, b.args[1])
				}
			}
			p.linkRec()
			pc, feasible = p.addLits(pc)
			if !feasible {
				r.ok, r.how = true, "syntactic"
				return r
			}
		}
		for _, h := range o.hints {
			if !c.boundsLen(pc) {
				continue
			}
			if n, ok := p.hint(assume, pc, h[0], h[1]); ok {
				pc = append(append([]*Term{}, pc...), n...)
				goal = c.SubstT(goal, map[*Term]*Term{h[1]: h[0]})
			}
		}
		goal = p.simp(goal, pc)
		ok = p.prove(assume, pc, goal, 0)
		if !ok && (o.kind == "ensures" || o.kind == "requires") && time.Now().Before(p.deadline) {
			// again with equal lists made identical
			if m := p.unify(assume, pc, goal); len(m) > 0 {
				goal = c.SubstT(goal, m)
				var n []*Term
				for _, l := range pc {
					n = append(n, conj(c.SubstT(l, m))...)
				}
				p.budget, p.memo = u.budget(), map[string]bool{}
				ok = p.prove(assume, n, goal, 0)
			}
		}
	}
	r.ok = ok
	r.queries = p.queries
	r.dur = time.Since(t0)
	var hs []string
	for h := range p.how {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	r.how = strings.Join(hs, "+")
	if r.how == "" {
		r.how = "syntactic"
	}
	if !ok {
		r.why, r.query = p.lastWhy, p.lastQ
	}
	_ = c
	return r
}

// boundsLen: the literals speak about the length of a computed list.
func (c *Ctx) boundsLen(pc []*Term) bool {
	for _, l := range pc {
		switch l.op {
		case "not", "and", "or", "ite":
			if c.boundsLen(l.args) {
				return true
			}
			continue
		}
		if (l.op != ">=" && l.op != "<=" && l.op != "=") || l.args[0].sort != SInt {
			continue
		}
		for a := range c.lin(c.Sub(l.args[0], l.args[1])).m {
			if a.op == "len" {
				return true
			}
		}
	}
	return false
}

// hint proves that a list whose length the code asks for is the list the contract names, without
// using what is known about that length.
func (p *prover) hint(facts, pc []*Term, x, t *Term) ([]*Term, bool) {
	c := p.u.c
	set := map[*Term]bool{}
	for _, b := range topBinders(x) {
		set[b] = true
	}
	var base []*Term
	for _, l := range pc {
		if !c.occurs(l, set) {
			base = append(base, l)
		}
	}
	key := fmt.Sprint("hint", x.id, ",", t.id, ",", c.And(base...).id)
	ok, done := p.u.hintMemo[key]
	if !done {
		q := &prover{u: p.u, how: p.how, budget: 300, memo: map[string]bool{}, deadline: p.deadline, trace: p.trace}
		g := q.simp(c.Eq(x, t), base)
		ok = q.prove(facts, base, g, 0)
		p.queries += q.queries
		if p.u.hintMemo == nil {
			p.u.hintMemo = map[string]bool{}
		}
		p.u.hintMemo[key] = ok
		if os.Getenv("GOCV_UNIFY") != "" {
			fmt.Printf("hint %v used %d: %s WITH %s (%s)\n", ok, 300-q.budget, x.str(4), t.str(4), q.lastWhy)
		}
	}
	if !ok {
		return nil, false
	}
	return conj(c.Eq(c.Len(x), c.Len(t))), true
}

// simp rewrites a term under literal assumptions.
func (p *prover) simp(t *Term, lits []*Term) *Term {
	c := p.u.c
	for round := 0; round < 4; round++ {
		m := map[*Term]*Term{}
		for _, l := range lits {
			if l.op == "not" {
				m[l.args[0]] = c.False()
				if x, n := c.noneBelow(l); x != nil {
					m[x] = n
				}
				continue
			}
			if l.op == "=" {
				a, b := l.args[0], l.args[1]
				if f, x := c.knownTag(l); x != nil {
					m[f] = x
				}
				// orient: replace the newer symbol or the non-literal
				if b.isLit() || isEmptySeq(b) {
					m[a] = b
				} else if a.isLit() || isEmptySeq(a) {
					m[b] = a
				} else if len(c.recDefs) > 0 && (c.recApp(a) || c.recApp(b)) {
					c.orientRec(a, b, m)
				} else if a.op == "sym" && !c.occurs1(b, a) {
					m[a] = b
				} else if b.op == "sym" && !c.occurs1(a, b) {
					m[b] = a
				}
			}
			m[l] = c.True()
		}
		n := c.SubstT(t, m)
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// knownTag: when the tag of x is known, boxing its reference again gives x.
func (c *Ctx) knownTag(l *Term) (*Term, *Term) {
	if l.op != "=" {
		return nil, nil
	}
	a, b := l.args[0], l.args[1]
	if b.op == "int" {
		a, b = b, a
	}
	if a.op != "int" || b.op != "tagof" {
		return nil, nil
	}
	x := b.args[0]
	f := c.MkIface(a, c.RefOf(x))
	if f.op != "mkiface" {
		return nil, nil
	}
	return f, x
}

// noneBelow recognises "no index below n satisfies the condition": fi(n, cond) >= n, hence equal to n.
func (c *Ctx) noneBelow(l *Term) (*Term, *Term) {
	if l.op != "not" || l.args[0].op != ">=" {
		return nil, nil
	}
	a, b := l.args[0].args[0], l.args[0].args[1]
	for x, k := range c.lin(a).m {
		if x.op == "fi" && k == -1 && c.Sub(c.Add(a, x), c.Sub(b, c.Int(1))) == x.args[0] {
			return x, x.args[0]
		}
	}
	return nil, nil
}

// settle rewrites the other literals by what noneBelow literals say.
func (p *prover) settle(pc []*Term) ([]*Term, bool) {
	c := p.u.c
	for again := true; again; {
		again = false
		for i, l := range pc {
			x, n := c.noneBelow(l)
			if x == nil {
				continue
			}
			m := map[*Term]*Term{x: n}
			var out []*Term
			for j, y := range pc {
				if j != i {
					y2 := c.SubstT(y, m)
					if y2.isFalse() {
						return nil, false
					}
					if y2 != y {
						again = true
						if !y2.isTrue() {
							out = append(out, conj(y2)...)
						}
						continue
					}
				}
				out = append(out, y)
			}
			if again {
				pc = out
				break
			}
		}
	}
	return pc, true
}

func (p *prover) addLits(pc []*Term, ls ...*Term) ([]*Term, bool) {
	c := p.u.c
	out := append([]*Term{}, pc...)
	for _, l := range ls {
		l = p.simp(l, pc)
		for _, x := range conj(l) {
			if x.isFalse() {
				return nil, false
			}
			if x.op == "not" && x.args[0].op == "or" {
				for _, y := range x.args[0].args {
					ny := c.Not(y)
					for _, z := range conj(ny) {
						out = append(out, z)
					}
				}
				continue
			}
			out = append(out, x)
		}
	}
	for round := 0; round < 3 && len(p.rec) > 0; round++ {
		n := len(out)
		for _, f := range p.rec {
			for _, x := range conj(p.simp(f, out)) {
				if x.isFalse() {
					return nil, false
				}
				if x.op == "=" && (c.recApp(x.args[0]) && x.args[1].op != "ite" || c.recApp(x.args[1]) && x.args[0].op != "ite") {
					out = append(out, x)
				}
			}
		}
		if len(out) == n {
			break
		}
	}
	return p.settle(out)
}

// recFacts collects what is known about applications of recursive definitions: path facts that
// mention them (loop invariants) and their one-step unfoldings.
func (p *prover) recFacts(facts []*Term, goal *Term) {
	c := p.u.c
	seen := map[*Term]bool{}
	for t := range p.u.unfolded {
		for _, f := range c.facts[t] {
			if f.op == "=" && !seen[f] {
				seen[f] = true
				p.rec = append(p.rec, f)
			}
		}
	}
	for _, f := range facts {
		if f.size < 2000 && !seen[f] && c.hasRec(f) {
			seen[f] = true
			p.rec = append(p.rec, f)
		}
	}
	sort.Slice(p.rec, func(i, j int) bool { return p.rec[i].id < p.rec[j].id })
}

// linkRec carries the known value of an application over to the applications equal to it.
func (p *prover) linkRec() {
	c := p.u.c
	val := map[*Term]*Term{}
	for round := 0; round < 4; round++ {
		for i, f := range p.rec {
			if f.op != "=" {
				continue
			}
			a, b := f.args[0], f.args[1]
			ra, rb := c.recApp(a), c.recApp(b)
			switch {
			case ra && rb && val[a] != nil && a != b:
				p.rec[i] = c.Eq(b, val[a])
			case ra && rb && val[b] != nil && a != b:
				p.rec[i] = c.Eq(a, val[b])
			case ra && !rb && c.hasRec(b) && val[a] != nil:
				p.rec[i] = c.Eq(val[a], b)
			case ra && !rb && !c.hasRec(b):
				val[a] = b
			case rb && !ra && !c.hasRec(a):
				val[b] = a
			}
		}
	}
}

// recApp: an application of a recursive definition.
func (c *Ctx) recApp(t *Term) bool {
	return t.op == "uf" && strings.HasPrefix(t.name, "def:") && c.recDefs[t.name[4:]]
}

func (p *prover) prove(facts, pc []*Term, goal *Term, d int) bool {
	c := p.u.c
	goal = p.simp(goal, pc)
	if p.trace {
		fmt.Printf("%s> goal %s\n", strings.Repeat(" ", d), goal.str(4))
	}
	if goal.isTrue() {
		return true
	}
	if p.budget <= 0 || time.Now().After(p.deadline) {
		p.lastWhy = "budget exhausted"
		return false
	}
	switch goal.op {
	case "and":
		for _, a := range goal.args {
			if !p.prove(facts, pc, a, d) {
				return false
			}
		}
		return true
	case "=>":
		n, ok := p.addLits(pc, goal.args[0])
		if !ok {
			return true
		}
		return p.prove(facts, n, goal.args[1], d)
	case "not":
		if a := goal.args[0]; a.op == "or" {
			for _, x := range a.args {
				if !p.prove(facts, pc, c.Not(x), d) {
					return false
				}
			}
			return true
		} else if a.op == "=>" {
			return p.prove(facts, pc, a.args[0], d) && p.prove(facts, pc, c.Not(a.args[1]), d)
		}
	}
	key := fmt.Sprint(goal.id)
	for _, l := range pc {
		key += fmt.Sprintf(",%d", l.id)
	}
	if r, ok := p.memo[key]; ok {
		return r
	}
	r := p.prove1(facts, pc, goal, d)
	p.memo[key] = r
	return r
}

// direct: an assumption says the goal, on a condition that the path satisfies.
func (p *prover) direct(facts, pc []*Term, goal *Term) bool {
	c := p.u.c
	var key *Term
	seen := map[*Term]bool{}
	var newest func(t *Term)
	newest = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sym" && (key == nil || t.stamp > key.stamp) {
			key = t
		}
		for _, a := range t.args {
			newest(a)
		}
	}
	newest(goal)
	if key == nil {
		return false
	}
	alt := map[*Term]bool{goal: true}
	if goal.op == "or" {
		for _, a := range goal.args {
			alt[a] = true
		}
	}
	var says func(f *Term) bool
	says = func(f *Term) bool {
		switch f.op {
		case "and":
			for _, a := range f.args {
				if says(a) {
					return true
				}
			}
			return false
		case "=>":
			return says(f.args[1]) && p.simp(f.args[0], pc).isTrue()
		}
		if !c.occurs1(f, key) {
			return false
		}
		f = p.simp(f, pc)
		if alt[f] {
			return true
		}
		if f.op == "or" {
			for _, a := range f.args {
				if !alt[a] {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, f := range facts {
		if c.occurs1(f, key) && says(f) {
			return true
		}
	}
	return false
}

func (p *prover) prove1(facts, pc []*Term, goal *Term, d int) bool {
	c := p.u.c
	if c.norm() {
		if g := p.decide(pc, goal); g != goal {
			return p.prove(facts, pc, g, d+1)
		}
	}
	if p.u.mod.cut && p.direct(facts, pc, goal) {
		return true
	}
	structural := goal.op == "=" && (isSeq(goal.args[0].sort) || goal.args[0].sort == SStr || hasBinder(goal))
	if d > 60 {
		return p.leaf(facts, pc, goal, 4*time.Second)
	}
	if !structural && goal.size < 4000 {
		// cheap attempt on the whole goal
		if p.leaf(facts, pc, goal, 1*time.Second) {
			return true
		}
	}
	if goal.op == "=" {
		a, b := goal.args[0], goal.args[1]
		if ok, done := p.eqGoal(facts, pc, a, b, d); done && ok {
			return true
		}
	}
	if goal.op == "or" {
		// prove one alternative assuming the others false: split on the simplest literal
		for i, x := range goal.args {
			var rest []*Term
			for j, y := range goal.args {
				if j != i {
					rest = append(rest, y)
				}
			}
			if x.op == "=" && (isSeq(x.args[0].sort) || hasBinder(x)) {
				continue
			}
			n, ok := p.addLits(pc, c.Not(x))
			if !ok {
				return true
			}
			return p.prove(facts, n, c.Or(rest...), d+1)
		}
	}
	// case split
	if cond := p.splitCond(goal); cond != nil {
		ok := true
		for _, l := range []*Term{cond, c.Not(cond)} {
			n, feasible := p.addLits(pc, l)
			if !feasible {
				continue
			}
			if l.op == "not" || true {
				// skip impossible branches early
				if d%3 == 2 && (c.norm() && p.lean(n, c.False()) || !c.norm() && p.leaf(facts, n, c.False(), 500*time.Millisecond)) {
					continue
				}
			}
			if !p.prove(facts, n, goal, d+1) {
				ok = false
				break
			}
		}
		return ok
	}
	if p.leaf(facts, pc, goal, 5*time.Second) {
		return true
	}
	// disjunctive path condition
	for _, l := range pc {
		if l.op == "or" && len(l.args) <= 6 {
			ok := true
			var rest []*Term
			for _, x := range pc {
				if x != l {
					rest = append(rest, x)
				}
			}
			for _, a := range l.args {
				n, feasible := p.addLits(rest, a)
				if feasible && !p.prove(facts, n, goal, d+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
			return p.identify(facts, pc, goal, d)
		}
	}
	return p.identify(facts, pc, goal, d)
}

func (p *prover) unifyDeep(facts, pc []*Term, goal *Term) map[*Term]*Term {
	if !p.u.mod.deep {
		return nil
	}
	return p.unify(facts, pc, goal)
}

// identify is the last resort: make equal search terms identical and try again.
func (p *prover) identify(facts, pc []*Term, goal *Term, d int) bool {
	c := p.u.c
	if !p.u.mod.deep || p.identified >= 8 || !time.Now().Before(p.deadline) {
		return false
	}
	found := false
	for _, t := range topBinders(append([]*Term{goal}, pc...)...) {
		found = found || (t.op == "fi" || t.op == "li")
	}
	if !found {
		return false
	}
	p.identified++
	m := p.unify(facts, pc, goal)
	if len(m) == 0 {
		return false
	}
	goal = c.SubstT(goal, m)
	var n []*Term
	for _, l := range pc {
		var ok bool
		if n, ok = p.addLits(n, conj(c.SubstT(l, m))...); !ok {
			return true
		}
	}
	return p.prove(facts, n, goal, d+1)
}

// topBinders lists the binder terms of ts that are not below another binder.
func topBinders(ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if binderOp(t.op) {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// unify maps binder terms of the goal and the path condition that are provably equal to one of them.
func (p *prover) unify(facts, pc []*Term, goal *Term) map[*Term]*Term {
	c := p.u.c
	m := map[*Term]*Term{}
	var cand []*Term
	for _, t := range topBinders(append([]*Term{goal}, pc...)...) {
		if t.op == "fm" || t.op == "fold" || p.u.mod.deep && (t.op == "fi" || t.op == "li") && len(topBinders(t.args[len(t.args)-1])) > 0 {
			cand = append(cand, t)
		}
	}
	if len(cand) < 2 || len(cand) > 24 {
		return m
	}
	// conditions on the values themselves only mislead
	set := map[*Term]bool{}
	for _, t := range cand {
		set[t] = true
	}
	var base []*Term
	for _, l := range pc {
		if !c.occurs(l, set) {
			base = append(base, l)
		}
	}
	names := map[*Term]map[string]bool{}
	for _, t := range cand {
		names[t] = ufNames(t)
	}
	for j, g := range cand {
		type sc struct {
			h *Term
			s float64
		}
		var hs []sc
		for _, h := range cand[:j] {
			if h.op == g.op && h.sort == g.sort && h.args[0] == g.args[0] && m[h] == nil {
				if s := similar(names[g], names[h]); s >= 0.6 {
					hs = append(hs, sc{h, s})
				}
			}
		}
		sort.SliceStable(hs, func(i, j int) bool { return hs[i].s > hs[j].s })
		for _, x := range hs {
			q := &prover{u: p.u, how: p.how, budget: 80, memo: map[string]bool{}, deadline: p.deadline, identified: 8, trace: p.trace && os.Getenv("GOCV_UNIFY") != ""}
			ok := q.prove(facts, base, c.Eq(g, x.h), 0)
			p.queries += q.queries
			if os.Getenv("GOCV_UNIFY") != "" {
				fmt.Printf("unify %v used %d: %s WITH %s (%s)\n", ok, 80-q.budget, g.str(3), x.h.str(3), q.lastWhy)
			}
			if ok {
				m[g] = x.h
				break
			}
		}
	}
	return m
}

func ufNames(t *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "uf" || t.op == "sym" || t.op == "str" {
			out[t.name] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return out
}

func similar(a, b map[string]bool) float64 {
	n := 0
	for x := range a {
		if b[x] {
			n++
		}
	}
	if len(a)+len(b)-n == 0 {
		return 1
	}
	return float64(n) / float64(len(a)+len(b)-n)
}

func hasBinder(t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if binderOp(t.op) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// splitCond picks a condition of an ite (outside binders) to case split on.
func (p *prover) splitCond(goal *Term) *Term {
	seen := map[*Term]bool{}
	var best *Term
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || best != nil {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			cond := t.args[0]
			// innermost simple condition first
			f2 := cond
			for f2.op == "and" || f2.op == "or" || f2.op == "not" {
				f2 = f2.args[0]
			}
			if x := p.firstIte(f2); x != nil {
				best = x
			} else {
				best = f2
			}
			return
		}
		for i, a := range t.args {
			if binderOp(t.op) && i == len(t.args)-1 {
				continue
			}
			f(a)
		}
	}
	f(goal)
	if best != nil && best.op == "=>" {
		best = best.args[0]
	}
	return best
}

func (p *prover) firstIte(t *Term) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || best != nil {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			x := t.args[0]
			for x.op == "and" || x.op == "or" || x.op == "not" {
				x = x.args[0]
			}
			if y := p.firstIte(x); y != nil {
				best = y
			} else {
				best = x
			}
			return
		}
		for i, a := range t.args {
			if binderOp(t.op) && i == len(t.args)-1 {
				continue
			}
			f(a)
		}
	}
	f(t)
	return best
}

func parts(t *Term) []*Term {
	if t.op == "++" {
		return t.args
	}
	if isEmptySeq(t) {
		return nil
	}
	return []*Term{t}
}

// eqGoal proves an equality structurally. done=false: not applicable.
func (p *prover) eqGoal(facts, pc []*Term, a, b *Term, d int) (ok, done bool) {
	c := p.u.c
	// congruence over value constructors and interfaces
	if a.op == b.op && a.name == b.name && len(a.args) == len(b.args) {
		switch {
		case a.op == "seq.unit", a.op == "mkiface", a.op == "uf" && (strings.HasPrefix(a.name, "mk:") || c.recApp(a) || strings.HasPrefix(a.name, "sl:") || strings.HasPrefix(a.name, "box")):
			for i := range a.args {
				if !p.prove(facts, pc, c.Eq(a.args[i], b.args[i]), d+1) {
					return false, false
				}
			}
			return true, true
		}
	}
	if c.norm() && a.sort == SStr && !p.u.mod.abstractStr {
		if g := p.u.fewBytes(a, b); g != nil {
			for _, x := range conj(g) {
				if !p.lean(pc, x) && !p.prove(facts, pc, x, d+1) {
					return false, false
				}
			}
			return true, true
		}
	}
	if a.sort == SStr || isSeq(a.sort) {
		pa, pb := parts(a), parts(b)
		if len(pa) > 1 || len(pb) > 1 {
			// strip common prefix and suffix
			i := 0
			for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
				i++
			}
			j := 0
			for i+j < len(pa) && i+j < len(pb) && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
				j++
			}
			if i+j > 0 {
				na, nb := pa[i:len(pa)-j], pb[i:len(pb)-j]
				g := c.Eq(p.cat(a.sort, na), p.cat(a.sort, nb))
				return p.prove(facts, pc, g, d+1), true
			}
			// string literals sharing a prefix or suffix
			if len(pa) > 0 && len(pb) > 0 {
				if x, y := pa[0], pb[0]; x.op == "str" && y.op == "str" {
					n := 0
					for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
						n++
					}
					if n > 0 {
						na := append([]*Term{c.Str(x.name[n:])}, pa[1:]...)
						nb := append([]*Term{c.Str(y.name[n:])}, pb[1:]...)
						return p.prove(facts, pc, c.Eq(p.cat(a.sort, na), p.cat(a.sort, nb)), d+1), true
					}
				}
				if x, y := pa[len(pa)-1], pb[len(pb)-1]; x.op == "str" && y.op == "str" {
					n := 0
					for n < len(x.name) && n < len(y.name) && x.name[len(x.name)-1-n] == y.name[len(y.name)-1-n] {
						n++
					}
					if n > 0 {
						na := append(append([]*Term{}, pa[:len(pa)-1]...), c.Str(x.name[:len(x.name)-n]))
						nb := append(append([]*Term{}, pb[:len(pb)-1]...), c.Str(y.name[:len(y.name)-n]))
						return p.prove(facts, pc, c.Eq(p.cat(a.sort, na), p.cat(a.sort, nb)), d+1), true
					}
				}
			}
			if len(pa) == len(pb) && len(pa) > 1 && !hasTopIte(pa) && !hasTopIte(pb) {
				all := true
				for k := range pa {
					if !p.prove(facts, pc, c.Eq(pa[k], pb[k]), d+1) {
						all = false
						break
					}
				}
				if all {
					return true, true
				}
			}
			if len(pa) > 0 && len(pb) > 0 && len(pa) != len(pb) {
				// units at the front
				if pa[0].op == "seq.unit" && pb[0].op == "seq.unit" {
					if p.prove(facts, pc, c.Eq(pa[0], pb[0]), d+1) {
						return p.prove(facts, pc, c.Eq(p.cat(a.sort, pa[1:]), p.cat(a.sort, pb[1:])), d+1), true
					}
				}
			}
		}
	}
	if a.sort == SInt && (a.op == "+" || b.op == "+") {
		// sums that differ in one binder
		var x, y *Term
		n := 0
		l := c.lin(c.Sub(a, b))
		for t, k := range l.m {
			n++
			if k == 1 && binderOp(t.op) {
				x = t
			} else if k == -1 && binderOp(t.op) {
				y = t
			}
		}
		if n == 2 && x != nil && y != nil && c.Sub(c.Sub(a, b), c.Sub(x, y)) == c.Int(0) {
			return p.prove(facts, pc, c.Eq(x, y), d+1), true
		}
	}
	if binderOp(a.op) && a.op == b.op && a.args[0] == b.args[0] {
		if p.binderEq(facts, pc, a, b, d) {
			return true, true
		}
	}
	if binderOp(a.op) && a.op == b.op && a.args[0] != b.args[0] && a.args[0].op != "ite" && b.args[0].op != "ite" {
		if p.prove(facts, pc, c.Eq(a.args[0], b.args[0]), d+1) {
			b2 := c.reclose(b, append([]*Term{a.args[0]}, b.args[1:]...))
			if b2 == a {
				return true, true
			}
			return p.prove(facts, pc, c.Eq(a, b2), d+1), true
		}
	}
	return false, false
}

func hasTopIte(ts []*Term) bool {
	for _, t := range ts {
		if t.op == "ite" {
			return true
		}
	}
	return false
}

func (p *prover) cat(s Sort, ts []*Term) *Term {
	if len(ts) == 0 {
		return p.u.c.Empty(s)
	}
	return p.u.c.Concat(ts...)
}

// binderEq: extensionality at a fresh index.
func (p *prover) binderEq(facts, pc []*Term, a, b *Term, d int) bool {
	c := p.u.c
	if a.args[0] != b.args[0] {
		return false
	}
	i := c.Fresh("k", SInt)
	lits := []*Term{c.Ge(i, c.Int(0))}
	if a.args[0] != c.Inf() {
		lits = append(lits, c.Lt(i, a.args[0]))
	}
	// what holds below the bound, where the path says so
	for _, l := range pc {
		if x, m := c.noneBelow(l); x != nil && m == a.args[0] {
			lits = append(lits, c.Not(c.open(x, i)))
		}
	}
	n, ok := p.addLits(pc, lits...)
	if !ok {
		return true
	}
	if a.op == "fold" {
		if !p.prove(facts, pc, c.Eq(a.args[1], b.args[1]), d+1) {
			return false
		}
		acc := c.Fresh("acc", a.sort)
		return p.prove(facts, n, c.Eq(c.openFold(a, acc, i), c.openFold(b, acc, i)), d+1)
	}
	x, y := c.open(a, i), c.open(b, i)
	if m := p.unifyDeep(facts, n, c.Eq(x, y)); len(m) > 0 {
		x, y = c.SubstT(x, m), c.SubstT(y, m)
		if x == y {
			return true
		}
	}
	if x.sort == SBool {
		n1, ok1 := p.addLits(n, x)
		n2, ok2 := p.addLits(n, y)
		return (!ok1 || p.prove(facts, n1, y, d+1)) && (!ok2 || p.prove(facts, n2, x, d+1))
	}
	return p.prove(facts, n, c.Eq(x, y), d+1)
}

// fewBytes: a short piece of a string equals a known text when it lies inside the string and its bytes are equal.
func (u *Unit) fewBytes(a, b *Term) *Term {
	c := u.c
	if b.op == "uf" && b.name == "substr" {
		a, b = b, a
	}
	if a.op != "uf" || a.name != "substr" {
		return nil
	}
	lo, hi := a.args[1], a.args[2]
	d := c.Sub(hi, lo)
	if d.op != "int" || d.ival < 1 || d.ival > 3 {
		return nil
	}
	out := []*Term{c.Ge(lo, c.Int(0)), c.Le(hi, c.Len(a.args[0]))}
	switch {
	case b.op == "str" && int64(len(b.name)) == d.ival:
		for k := int64(0); k < d.ival; k++ {
			out = append(out, c.Eq(c.Nth(a.args[0], c.Add(lo, c.Int(k))), c.Int(int64(b.name[k]))))
		}
	case b.op == "uf" && b.name == "bytesStr" && b.args[0].op == "seq.unit" && d.ival == 1:
		out = append(out, c.Eq(c.Nth(a.args[0], lo), b.args[0].args[0]))
	default:
		return nil
	}
	return c.And(out...)
}

// leaf asks the SMT back ends.
func (p *prover) leaf(facts, pc []*Term, goal *Term, timeout time.Duration) bool {
	c := p.u.c
	goal = p.simp(goal, pc)
	if goal.isTrue() {
		return true
	}
	if p.budget <= 0 || time.Now().After(p.deadline) {
		p.lastWhy = "budget exhausted"
		return false
	}
	p.budget--
	all := p.gather(facts, pc, goal)
	q := c.Query(all, goal)
	p.queries++
	t0 := time.Now()
	res, raw := runSMT(backends[0], q, timeout)
	if p.trace {
		fmt.Printf("LEAF %s %.2fs size=%d query=%d %s\n", res, time.Since(t0).Seconds(), goal.size, len(q), goal.str(4))
	}
	if res == "unsat" {
		if p.trace && os.Getenv("GOCV_DEBUGQ") != "" {
			fmt.Println(q)
		}
		p.how[backends[0].name] = true
		return true
	}
	if strings.Contains(raw, "error") {
		p.lastWhy = "solver error: " + raw
		p.lastQ = q
		if os.Getenv("GOCV_DEBUGQ") != "" {
			_ = os.WriteFile("/tmp/gocv-err.smt2", []byte(q), 0o644)
			fmt.Println("SMT error", raw)
		}
		return false
	}
	if p.trace {
	}
	if res != "sat" && timeout >= 4*time.Second {
		for _, b := range backends[1:] {
			r, _ := runSMT(b, q, timeout)
			p.queries++
			if r == "unsat" {
				p.how[b.name] = true
				return true
			}
		}
	}
	p.lastWhy = "back ends answer " + res + " for: " + goal.str(7)
	if goal.op == "=" {
		p.lastWhy += "\n        difference: " + diffTerm(goal.args[0], goal.args[1], 60)
	}
	p.lastQ = q
	if p.trace {
		fmt.Println("LEAF-FAIL", goal.str(6))
		for _, l := range pc {
			fmt.Println("     pc", l.str(7))
		}
	}
	return false
}

// gather collects the assumptions relevant to a query.
func (p *prover) gather(facts, pc []*Term, goal *Term) []*Term {
	u := p.u
	c := u.c
	out := append([]*Term{}, pc...)
	inOut := map[*Term]bool{}
	for _, t := range pc {
		inOut[t] = true
	}
	// cone of influence over path facts
	syms := map[*Term]bool{}
	seen := map[*Term]bool{}
	var nodes []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		nodes = append(nodes, t)
		switch t.op {
		case "sym", "uf", "fi", "li", "fm", "fold", "nth", "len":
			syms[t] = true
		}
		if binderOp(t.op) {
			_, ps := c.lift(t)
			for _, a := range ps {
				visit(a)
			}
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(goal)
	for _, t := range pc {
		visit(t)
	}
	tags := map[*Term]*Term{}
	for _, l := range pc {
		if f, x := c.knownTag(l); x != nil {
			tags[f] = x
		}
	}
	add := func(f *Term) {
		if len(tags) > 0 {
			f = c.SubstT(f, tags)
		}
		if f.isTrue() || inOut[f] {
			return
		}
		inOut[f] = true
		out = append(out, f)
		visit(f)
	}
	done := 0
	factDepth := map[*Term]int{}
	used := make([]bool, len(facts))
	for round := 0; round < 6; round++ {
		// facts attached to terms
		for done < len(nodes) {
			t := nodes[done]
			done++
			if len(out) > 600 {
				break
			}
			dp := factDepth[t]
			if dp > 5 {
				continue
			}
			mark := len(nodes)
			u.nodeFacts(t)
			for _, f := range c.facts[t] {
				add(f)
			}
			if binderOp(t.op) && t.size < 3000 {
				for _, f := range c.binderFacts(t) {
					add(f)
				}
			}
			if t.op == "nth" {
				if t.args[0].op == "fm" && t.args[0].args[1].op == "seq.unit" {
					i := t.args[1]
					add(c.Implies(c.And(c.Ge(i, c.Int(0)), c.Lt(i, t.args[0].args[0])), c.Eq(t, c.open(t.args[0], i).args[0])))
				}
				if et := u.seqElemOf(t.args[0]); et != nil {
					for _, f := range u.elemFacts(t, et) {
						add(f)
					}
				}
			}
			if t.op == "uf" && strings.HasPrefix(t.name, "sk:") {
				if len(t.args) == 1 {
					for _, r := range c.skRules[t.name] {
						add(c.sub1(r.f, r.ksym, t.args[0]))
					}
				}
				if si, ok := c.skFacts[t.name]; ok {
					for _, f := range c.facts[si.sym] {
						good := true
						var chk func(x *Term)
						chk = func(x *Term) {
							if x.op == "sym" && x.stamp > 0 && x != si.sym {
								good = false
							}
							for _, a := range x.args {
								chk(a)
							}
						}
						chk(f)
						if good {
							add(c.sub1(f, si.sym, t))
						}
					}
				}
			}
			for _, x := range nodes[mark:] {
				if _, ok := factDepth[x]; !ok {
					factDepth[x] = dp + 1
				}
			}
		}
		// path facts that mention something relevant
		ch := false
		if len(out) < 600 {
			for i, f := range facts {
				if used[i] {
					continue
				}
				if p.relevant(f, syms) {
					used[i] = true
					ch = true
					add(f)
				}
			}
		}
		// instantiate "no earlier index" for first-index terms
		if round < 3 {
			var fis []*Term
			idx := []*Term{c.Int(0)}
			for _, t := range nodes {
				if (t.op == "fi" || t.op == "li") && t.size < 2000 {
					fis = append(fis, t)
				}
				if t.op == "fi" || t.op == "li" || (t.op == "sym" && strings.HasPrefix(t.name, "k!")) {
					idx = append(idx, t)
				}
			}
			if len(fis)*len(idx) < 120 {
				for _, t := range fis {
					for _, j := range idx {
						if t == j {
							continue
						}
						var f *Term
						if t.op == "fi" {
							f = c.Implies(c.And(c.Ge(j, c.Int(0)), c.Lt(j, t)), c.Not(c.open(t, j)))
						} else {
							f = c.Implies(c.And(c.Lt(t, j), c.Lt(j, t.args[0])), c.Not(c.open(t, j)))
						}
						if !inOut[f] {
							ch = true
							add(f)
						}
					}
				}
			}
		}
		if !ch && done >= len(nodes) {
			break
		}
	}
	return out
}

func (p *prover) relevant(f *Term, syms map[*Term]bool) bool {
	memo := map[*Term]bool{}
	var g func(t *Term) bool
	g = func(t *Term) bool {
		if memo[t] {
			return false
		}
		memo[t] = true
		if syms[t] {
			return true
		}
		for _, a := range t.args {
			if g(a) {
				return true
			}
		}
		return false
	}
	// facts are implications: relevant when the conclusion shares a term
	t := f
	for t.op == "=>" {
		t = t.args[1]
	}
	return g(t)
}

// seqElemOf: Go element type of a sequence term read from memory.
func (u *Unit) seqElemOf(s *Term) types.Type {
	if s.op == "uf" && strings.HasPrefix(s.name, "cont") {
		if k := strings.Index(s.name, ":"); k >= 0 {
			for key, n := range u.mbase {
				if key == s.name {
					return n.elem
				}
			}
		}
	}
	if t, ok := u.seqElem[s]; ok {
		return t
	}
	return nil
}

// elemFacts: invariants of list elements declared by the module.
func (u *Unit) elemFacts(e *Term, elem types.Type) []*Term {
	c := u.c
	var out []*Term
	inR := c.And(c.Ge(e.args[1], c.Int(0)), c.Lt(e.args[1], c.Len(e.args[0])))
	if u.mod.elemNonnil[typeKey(elem)] || u.elemNN[typeKey(elem)] {
		if e.sort == SIface {
			if set, ok := u.mod.sealed[typeKey(elem)]; ok {
				var alts []*Term
				for _, n := range set {
					alts = append(alts, c.Eq(c.TagOf(e), c.Tag(n)))
				}
				out = append(out, c.Implies(inR, c.Or(alts...)))
			}
			out = append(out, c.Implies(inR, c.Gt(c.TagOf(e), c.Int(0))), c.Implies(inR, c.Gt(c.RefOf(e), c.Int(0))))
		} else if e.sort == SInt {
			out = append(out, c.Implies(inR, c.Gt(e, c.Int(0))))
		}
	}
	return out
}

// nodeFacts attaches the facts every term of its shape satisfies (terms made by instantiation have none yet).
func (u *Unit) nodeFacts(t *Term) {
	c := u.c
	switch t.op {
	case "len":
		c.Fact(t, c.Ge(t, c.Int(0)))
		if a := t.args[0]; a.op == "uf" {
			if h, ok := u.hlen[a]; ok {
				c.Fact(t, c.Eq(t, h))
			}
		}
	case "tagof":
		c.Fact(t, c.Ge(t, c.Int(0)))
		c.Fact(t, c.Implies(c.Eq(t, c.Int(0)), c.Eq(c.RefOf(t.args[0]), c.Int(0))))
	case "refof":
		c.Fact(t, c.Ge(t, c.Int(0)))
	case "uf":
		switch {
		case t.name == "slen":
			c.Fact(t, c.Ge(t, c.Int(0)))
			c.Fact(t, c.Implies(c.Eq(t.args[0], c.Int(0)), c.Eq(t, c.Int(0))))
			if h, ok := u.hlen[t.args[0]]; ok && h != t {
				c.Fact(t, c.Eq(t, h))
			}
		case t.name == "scap":
			c.Fact(t, c.Ge(t, u.slen(t.args[0])))
		case strings.HasPrefix(t.name, "H:"):
			key := strings.TrimPrefix(t.name, "H:")
			if n, ok := u.hbase[key]; ok && n.name == t.name {
				u.typeFacts(t, n.typ)
				u.fieldInv(n.name, t, t.args[0])
				if n.typ != nil && isIfaceT(n.typ) {
					u.sealedFacts(t, n.typ)
				}
			}
		case strings.HasPrefix(t.name, "m!"), strings.HasPrefix(t.name, "f!"):
			if p := u.mod.pure[t.name[2:]]; p != nil && p.nonnil {
				if t.sort == SIface {
					c.Fact(t, c.Neq(c.TagOf(t), c.Int(0)))
				} else if t.sort == SInt {
					c.Fact(t, c.Gt(t, c.Int(0)))
				}
			}
		case t.name == "substr" && c.norm() && !u.mod.abstractStr:
			lo, hi := t.args[1], t.args[2]
			if d := c.Sub(hi, lo); d.op == "int" && d.ival >= 1 && d.ival <= 3 {
				var parts []*Term
				for k := int64(0); k < d.ival; k++ {
					parts = append(parts, c.UF("bytesStr", SStr, c.Unit(c.Nth(t.args[0], c.Add(lo, c.Int(k))))))
				}
				c.Fact(t, c.Implies(c.And(c.Ge(lo, c.Int(0)), c.Le(hi, c.Len(t.args[0]))), c.Eq(t, c.Concat(parts...))))
			}
		case t.name == "bytesStr" && c.norm() && !u.mod.abstractStr && t.args[0].op == "seq.unit":
			b := t.args[0].args[0]
			c.Fact(t, c.Eq(c.Len(t), c.Int(1)))
			c.Fact(t, c.Implies(c.And(c.Ge(b, c.Int(0)), c.Le(b, c.Int(255))), c.Eq(c.Nth(t, c.Int(0)), b)))
		case strings.HasPrefix(t.name, "mk:"):
			c.Fact(t, c.Gt(t, c.Int(0)))
		}
	}
}

// orientRec rewrites applications of recursive definitions to what they are known to equal.
func (c *Ctx) orientRec(a, b *Term, m map[*Term]*Term) {
	ra, rb := c.recApp(a), c.recApp(b)
	switch {
	case ra && rb: // towards the older application
		if a.id > b.id {
			a, b = b, a
		}
		if m[b] == nil && !c.occurs1(a, b) {
			m[b] = a
		}
	case ra && !c.occurs1(b, a):
		m[a] = b
	case rb && !c.occurs1(a, b):
		m[b] = a
	}
}

// hasRec reports whether an application of a recursive definition occurs in t.
func (c *Ctx) hasRec(t *Term) bool {
	seen := map[*Term]bool{}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if c.recApp(t) {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if has(a) {
				return true
			}
		}
		return false
	}
	return has(t)
}

// decide resolves the choices of a goal that the path condition alone settles.
func (p *prover) decide(pc []*Term, goal *Term) *Term {
	c := p.u.c
	for round := 0; round < 12; round++ {
		var conds []*Term
		seen := map[*Term]bool{}
		var f func(t *Term)
		f = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "ite" {
				conds = append(conds, t.args[0])
			}
			for i, a := range t.args {
				if binderOp(t.op) && i == len(t.args)-1 {
					continue
				}
				f(a)
			}
		}
		f(goal)
		sort.SliceStable(conds, func(i, j int) bool { return conds[i].size > conds[j].size })
		old := goal
		for i, x := range conds {
			if i >= 6 || x.isTrue() || x.isFalse() {
				break
			}
			if p.lean(pc, c.Not(x)) {
				goal = c.SubstT(goal, map[*Term]*Term{x: c.False()})
				break
			}
			if p.lean(pc, x) {
				goal = c.SubstT(goal, map[*Term]*Term{x: c.True()})
				break
			}
		}
		if goal == old {
			return goal
		}
	}
	return goal
}

// lean asks whether the path condition alone implies the goal.
func (p *prover) lean(pc []*Term, goal *Term) bool {
	c := p.u.c
	key := fmt.Sprint("lean", goal.id)
	rel := map[*Term]bool{}
	var use []*Term
	for _, l := range pc {
		if l.size < 400 && !hasBinder(l) {
			use = append(use, l)
			key += fmt.Sprintf(",%d", l.id)
		}
	}
	_ = rel
	if r, ok := p.memo[key]; ok {
		return r
	}
	r := false
	if !hasBinder(goal) && goal.size < 600 {
		p.queries++
		res, _ := runSMT(backends[0], c.Query(use, goal), 500*time.Millisecond)
		r = res == "unsat"
		if r {
			p.how[backends[0].name] = true
		}
	}
	p.memo[key] = r
	return r
}
