package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are verified by inferring, per location the loop changes, a closed form over the
// iteration index k (the loop invariant), discharging the step k -> k+1, and continuing
// after the loop with the closed forms at the exact exit index K (first index satisfying
// an exit condition). No unrolling and no bound, except loops over literal-length data.

type loc struct {
	kind  byte // 'r' phi leaf, 'h' heap location, 'g' ghost, 'm' elements of a slice that stays the same
	name  string
	phi   *ssa.Phi
	leaf  int
	key   string
	ref   *Term
	root  types.Type
	path  string
	T     types.Type
	elem  types.Type // slice element type, nil for scalars
	mel   types.Type // kind 'm': element type
	entry *Term      // entry scalar or entry content
	h0    *Term      // entry handle
	in    *Term      // symbol for the value (content) at the start of an iteration
	hin   *Term
	out   *Term
	cf    *Term // closed form over ksym, nil if unresolved
	how   string
}

type exitRec struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
	ret  *retEdge
	cond *Term
}

func (x *exitRec) key() string {
	if x.ret != nil {
		return fmt.Sprintf("ret%d", x.from.Index)
	}
	return fmt.Sprintf("%d->%d", x.from.Index, x.to.Index)
}

func (fr *Frame) iterate(l *loopInfo, st *State) (exits []*exitRec, backs []edge) {
	saved := fr.rets
	fr.rets = nil
	pend := map[*ssa.BasicBlock][]edge{l.header: {{nil, st}}}
	fr.runRegion(l.blocks, l.header, pend, func(to *ssa.BasicBlock, e edge) {
		if to == l.header {
			backs = append(backs, e)
			return
		}
		exits = append(exits, &exitRec{from: e.from, to: to, st: e.st, cond: e.st.pc})
	})
	for i := range fr.rets {
		r := fr.rets[i]
		exits = append(exits, &exitRec{from: r.blk, st: r.st, ret: &r, cond: r.st.pc})
	}
	fr.rets = saved
	return
}

func leafTypes(t types.Type) []types.Type {
	var out []types.Type
	for _, l := range leaves(t, "") {
		out = append(out, l.T)
	}
	return out
}

func (u *Unit) unflatten(T types.Type, ts []*Term) Val {
	i := 0
	var build func(t types.Type) Val
	build = func(t types.Type) Val {
		if s, ok := t.Underlying().(*types.Struct); ok {
			v := &StructV{T: t}
			for k := 0; k < s.NumFields(); k++ {
				v.F = append(v.F, build(s.Field(k).Type()))
			}
			return v
		}
		i++
		return ts[i-1]
	}
	return build(T)
}

func (fr *Frame) runLoop(l *loopInfo, es []edge, push func(*ssa.BasicBlock, edge)) {
	u := fr.u
	c := u.c
	u.loops++
	entry := fr.enter(l.header, es)
	if entry.pc.isFalse() {
		return
	}
	pos := u.loopPos(l, fr.fn)
	start := c.stampN
	nf := len(u.facts)
	ksym := c.Sym(fmt.Sprintf("_k%d", u.nextLoopSym()), SInt)

	// phase A: find what the loop changes and how
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	constPhi := map[*ssa.Phi]bool{}
	heapW := map[string]map[*Term]bool{} // key -> refs
	fullKeys := map[string]bool{}
	memW := map[string]map[*Term]bool{}
	ghostW := map[string]bool{}
	elemW := map[string]map[*Term]bool{} // element type key -> slices whose elements are assigned
	elemT := map[string]types.Type{}
	var locs []*loc
	var exits []*exitRec
	var back *State
	u.mute++
	for round := 0; ; round++ {
		if round > 6 {
			u.mute--
			u.fail("loop footprint does not stabilise at %s", pos)
		}
		u.facts = u.facts[:nf]
		locs = append(fr.makeLocs(entry, phis, constPhi, heapW, fullKeys, ghostW), fr.elemLocs(entry, elemW, elemT)...)
		st := fr.genericState(entry, locs, heapW, fullKeys, memW, start)
		st.pc = c.True()
		for _, lc := range locs {
			hint := "in"
			if lc.elem != nil {
				lc.in = c.Fresh(hint, seqOf(u.elemSort(lc.elem)))
			} else {
				lc.in = u.freshIn(lc, hint)
			}
		}
		u.setLocs(fr, st, entry, locs, func(lc *loc) *Term { return lc.in }, phis, constPhi)
		rec := &recorder{writes: map[string]map[*Term]bool{}, reads: map[*Term]types.Type{}, ghost: map[string]bool{}}
		u.recs = append(u.recs, rec)
		mark := c.stampN
		var backs []edge
		exits, backs = fr.iterate(l, st)
		u.recs = u.recs[:len(u.recs)-1]
		changed := false
		if rec.all {
			u.mute--
			u.fail("loop at %s havocs everything", pos)
		}
		inSyms := map[*Term]bool{}
		for _, lc := range locs {
			inSyms[lc.in] = true
			if lc.hin != nil {
				inSyms[lc.hin] = true
			}
		}
		for _, k := range sortedRefKeys(rec.writes) {
			refs := rec.writes[k]
			if strings.HasPrefix(k, "h:") {
				key := k[2:]
				if heapW[key] == nil {
					heapW[key] = map[*Term]bool{}
					changed = true
				}
				for r := range refs {
					if r.stamp > mark && c.isAlloc[r] {
						continue // object of this iteration
					}
					if fullKeys[key] {
						continue
					}
					if r.stamp > start || c.occurs(r, inSyms) {
						fullKeys[key] = true
						changed = true
						continue
					}
					if !heapW[key][r] {
						heapW[key][r] = true
						changed = true
					}
				}
				// possible aliasing between written references
				var rs []*Term
				for r := range heapW[key] {
					rs = append(rs, r)
				}
				for i := range rs {
					for j := range rs {
						if i < j && !c.distinct(rs[i], rs[j]) && !fullKeys[key] {
							fullKeys[key] = true
							changed = true
						}
					}
				}
			}
			if strings.HasPrefix(k, "e:") {
				for r := range refs {
					if r.stamp <= start && (c.isAlloc[r] || u.isHandle[r]) && !elemW[k[2:]][r] {
						if elemW[k[2:]] == nil {
							elemW[k[2:]] = map[*Term]bool{}
							elemT[k[2:]] = rec.elem[k]
						}
						elemW[k[2:]][r] = true
						changed = true
					}
				}
			}
			if strings.HasPrefix(k, "m:") {
				if memW[k[2:]] == nil {
					memW[k[2:]] = map[*Term]bool{}
					changed = true
				}
				for r := range refs {
					// map in-handles back to their entry handles
					for _, lc := range locs {
						if lc.hin == r {
							r = lc.h0
						}
					}
					if r.stamp > start {
						if c.occurs(r, inSyms) {
							// a slice reached through changing data: no old handle is safe
							r = nil
						} else {
							continue
						}
					}
					if !memW[k[2:]][r] {
						memW[k[2:]][r] = true
						changed = true
					}
				}
			}
		}
		for g := range rec.ghost {
			if !ghostW[g] {
				ghostW[g] = true
				changed = true
			}
		}
		if len(backs) > 0 && !changed {
			var bad []*ssa.Phi
			back, bad = fr.backState(l, backs, phis, constPhi, entry)
			for _, p := range bad {
				u.mute--
				u.fail("loop-carried value %s cannot be summarised at %s", p.Comment, pos)
			}
			if len(back.defers) != len(entry.defers) {
				u.mute--
				u.fail("defer inside a loop at %s", pos)
			}
		} else if len(backs) == 0 {
			back = nil
		}
		if !changed {
			break
		}
	}
	if back == nil {
		// the body never comes back: no loop at all
		u.mute--
		u.facts = u.facts[:nf]
		ex, _ := fr.iterate(l, entry.clone())
		fr.leave(ex, push)
		return
	}
	resolved := u.closedForms(fr, locs, back, ksym, start, mapIn(locs))
	cut := u.mod.cut && len(u.spec.invariants) > 0
	if cut {
		// values that follow calls through their contracts are known by the loop invariants only
		for _, lc := range locs {
			if lc.cf != nil && (strings.Contains(lc.how, "skolem") || len(c.skTerms(lc.cf, ksym)) > 0) {
				lc.cf, lc.how = nil, ""
			}
		}
	}
	// exit conditions over ksym
	m := map[*Term]*Term{}
	for _, lc := range locs {
		if lc.cf != nil {
			m[lc.in] = lc.cf
		}
	}
	unres := map[*Term]bool{}
	for _, lc := range locs {
		if lc.cf == nil {
			unres[lc.in] = true
		}
	}
	_ = resolved
	condOK := true
	for _, x := range exits {
		t, _ := u.valify(x.st, x.cond, start)
		x.cond = c.SubstT(u.skolem(t, start, ksym, unres, m), m)
		if c.occurs(x.cond, unres) || cut && len(c.skTerms(x.cond, ksym)) > 0 {
			condOK = false
		}
	}
	// what the body assumes about values it obtains (contract results), as functions of the index
	type rule struct {
		names []string
		f     *Term
	}
	var rules []rule
	if len(c.skFacts) > 0 && !cut {
		for _, pf := range u.facts[nf:] {
			if c.occursAlloc(pf.t, start) || pf.t.size > 3000 {
				continue
			}
			f := c.SubstT(u.skolem(pf.t, start, ksym, unres, m), m)
			if c.occurs(f, unres) {
				continue
			}
			var names []string
			for _, x := range c.skTerms(f, ksym) {
				names = append(names, x)
			}
			if len(names) > 0 {
				rules = append(rules, rule{names, f})
			}
		}
	}
	u.mute--
	u.facts = u.facts[:nf]

	n := c.Inf()
	var hdr *exitRec
	for _, x := range exits {
		if x.from == l.header && x.ret == nil {
			if b := u.boundOf(x.cond, ksym); b != nil {
				n, hdr = b, x
			}
		}
	}
	if hdr != nil && !c.nonneg(n) {
		n = c.Ite(c.Ge(n, c.Int(0)), n, c.Int(0))
	}
	if hdr != nil && n.op == "int" && n.ival <= 40 {
		fr.unroll(l, entry, push, pos)
		return
	}
	var early []*exitRec
	for _, x := range exits {
		if x == hdr {
			continue
		}
		if hdr != nil {
			in := c.Not(hdr.cond)
			var ks []*Term
			for _, t := range conj(x.cond) {
				if t != in {
					ks = append(ks, t)
				}
			}
			x.cond = c.And(ks...)
		}
		if !x.cond.isFalse() {
			early = append(early, x)
		}
	}
	if hdr != nil && len(early) > 0 && u.mod.debug {
		for _, x := range early {
			fmt.Printf("   early exit %s: %s\n", x.key(), x.cond)
		}
	}
	var K *Term
	if condOK {
		var bs []*Term
		for _, x := range early {
			bs = append(bs, x.cond)
		}
		if len(bs) == 0 {
			K = n
			if hdr == nil {
				// endless loop
				K = nil
			}
		} else {
			K = c.FI(n, ksym, c.Or(bs...))
		}
	}
	if K == nil {
		K = c.Fresh("kend", SInt)
		c.Fact(K, c.Ge(K, c.Int(0)))
	}
	if u.mod.debug {
		fmt.Printf("   loop %s %s: n=%s K=%s\n", shortName(fnName(fr.fn)), pos, n, K)
		for _, lc := range locs {
			fmt.Printf("      %s [%s] %v\n", lc.name, lc.how, lc.cf)
			if lc.cf == nil {
				fmt.Printf("          out = %s\n", lc.out)
			}
		}
	}
	user := u.userLoop(locs)
	if user && u.mute == 0 {
		u.checkInvariants(entry, pos, "before the first iteration")
	}
	if hdr == nil && u.mod.termination && u.mute == 0 && !(user && u.spec.decreases != nil) {
		u.terminationObl(entry, early, ksym, pos, condOK)
	}
	for _, r := range rules {
		for _, nm := range r.names {
			c.skRules[nm] = append(c.skRules[nm], skRule{ksym, c.Implies(c.And(c.Ge(ksym, c.Int(0)), c.Lt(ksym, K)), r.f)})
		}
	}
	// phase B: arbitrary iteration
	k := c.Fresh("k", SInt)
	c.Fact(k, c.Ge(k, c.Int(0)))
	c.Fact(k, c.Le(k, K))
	u.genericIdx[k] = pos
	uns := map[*Term]bool{}
	at := func(lc *loc, i *Term) *Term {
		if lc.cf == nil {
			var t *Term
			if lc.elem == nil {
				t = u.freshIn(lc, "un")
			} else {
				t = c.Fresh("un", lc.in.sort)
			}
			uns[t] = true
			return t
		}
		return c.sub1(lc.cf, ksym, i)
	}
	stB := fr.genericState(entry, locs, heapW, fullKeys, memW, start)
	u.setLocs(fr, stB, entry, locs, func(lc *loc) *Term { return at(lc, k) }, phis, constPhi)
	nfB := len(u.facts)
	var before *State
	if user {
		u.assumeInvariants(stB, uns)
		before = stB.clone()
	}
	_, backsB := fr.iterate(l, stB)
	if len(backsB) > 0 {
		bst, _ := fr.backState(l, backsB, phis, constPhi, entry)
		if user && u.mute == 0 {
			u.checkInvariants(bst, pos, "after an iteration")
			if hdr == nil && u.mod.termination && u.spec.decreases != nil {
				m0, m1 := u.measure(before), u.measure(bst)
				u.oblige(bst, "terminates", pos, c.And(c.Ge(m0, c.Int(0)), c.Lt(m1, m0)), "every iteration makes "+u.spec.decreases.src+" smaller")
			}
		}
		for _, lc := range locs {
			h, out := u.locOut(fr, lc, bst)
			if lc.elem != nil && h != nil && u.mod.frame {
				u.oblige(bst, "loop-own", pos, c.Implies(u.own(lc.h0), u.own(h)), "slice "+lc.name+" keeps its own backing array")
			}
			if lc.cf == nil || strings.Contains(lc.how, "skolem") {
				continue
			}
			out, _ = u.valify(bst, out, start)
			u.oblige(bst, "loop-step", pos, c.Eq(out, at(lc, c.Add(k, c.Int(1)))), "loop summary of "+lc.name+" is inductive ("+lc.how+")")
		}
	}
	_ = nfB
	// phase C: the exit iteration
	stC := fr.genericState(entry, locs, heapW, fullKeys, memW, start)
	u.setLocs(fr, stC, entry, locs, func(lc *loc) *Term { return at(lc, K) }, phis, constPhi)
	u.mute++
	if user {
		u.assumeInvariants(stC, uns)
	}
	exC, backC := fr.iterate(l, stC)
	for _, b := range backC {
		u.facts = append(u.facts, pathFact{c.Not(b.st.pc)})
	}
	if u.mod.deep && hdr != nil && condOK && K.op == "fi" && len(exitsAt(exC, hdr)) == 1 {
		// leaving at the header means that no iteration left early: K is n there
		stN := fr.genericState(entry, locs, heapW, fullKeys, memW, start)
		u.setLocs(fr, stN, entry, locs, func(lc *loc) *Term { return at(lc, n) }, phis, constPhi)
		exN, _ := fr.iterate(l, stN)
		if xs := exitsAt(exN, hdr); len(xs) == 1 {
			*exitsAt(exC, hdr)[0] = *xs[0]
		}
	}
	u.mute--
	if condOK {
		u.overridePCs(entry.pc, exC, hdr, early, n, K, ksym)
	}
	fr.leave(exC, push)
}

// exitsAt lists the exits that leave where x does.
func exitsAt(xs []*exitRec, x *exitRec) []*exitRec {
	var out []*exitRec
	for _, y := range xs {
		if y.key() == x.key() {
			out = append(out, y)
		}
	}
	return out
}

func mapIn(locs []*loc) map[*Term]bool {
	m := map[*Term]bool{}
	for _, lc := range locs {
		m[lc.in] = true
	}
	return m
}

func (u *Unit) nextLoopSym() int { u.loopN++; return u.loopN }

func (fr *Frame) leave(ex []*exitRec, push func(*ssa.BasicBlock, edge)) {
	for _, x := range ex {
		if x.st.pc.isFalse() {
			continue
		}
		if x.ret != nil {
			x.ret.st = x.st
			fr.rets = append(fr.rets, *x.ret)
		} else {
			push(x.to, edge{x.from, x.st})
		}
	}
}

// overridePCs gives the exits of the last iteration their exact, mutually exclusive conditions.
func (u *Unit) overridePCs(P0 *Term, exC []*exitRec, hdr *exitRec, early []*exitRec, n, K, ksym *Term) {
	c := u.c
	byKey := map[string]*exitRec{}
	for _, x := range exC {
		if byKey[x.key()] != nil {
			return
		}
		byKey[x.key()] = x
	}
	seen := map[string]bool{}
	for _, x := range early {
		if seen[x.key()] {
			return
		}
		seen[x.key()] = true
	}
	inLoop := c.True()
	if hdr != nil {
		inLoop = c.Lt(K, n)
	}
	if hdr != nil {
		if x := byKey[hdr.key()]; x != nil {
			if len(early) == 0 {
				x.st.pc = P0
			} else {
				x.st.pc = c.And(P0, c.Not(inLoop))
			}
		}
	}
	rest := c.True()
	for i, e := range early {
		x := byKey[e.key()]
		if x == nil {
			continue
		}
		cond := c.sub1(e.cond, ksym, K)
		if i == len(early)-1 {
			x.st.pc = c.And(P0, inLoop, rest)
			// the natural condition is implied
			u.facts = append(u.facts, pathFact{c.Implies(x.st.pc, cond)})
		} else {
			x.st.pc = c.And(P0, inLoop, rest, cond)
			rest = c.And(rest, c.Not(cond))
		}
	}
}

// boundOf recognises k >= n with n independent of k.
func (u *Unit) boundOf(cond, k *Term) *Term { return u.c.boundOf(cond, k) }

func (c *Ctx) boundOf(cond, k *Term) *Term {
	if cond.op == "not" {
		// not (k <= n) : k >= n+1
		a := cond.args[0]
		if a.op == "<=" || a.op == ">=" {
			l := c.lin(c.Sub(a.args[0], a.args[1]))
			co := l.m[k]
			delete(l.m, k)
			r := c.fromLin(l)
			if c.occurs1(r, k) {
				return nil
			}
			if a.op == "<=" && co == 1 { // k + r <= 0 negated: k >= 1 - r
				return c.Sub(c.Int(1), r)
			}
			if a.op == ">=" && co == -1 { // -k + r >= 0 negated: k >= r+1
				return c.Add(r, c.Int(1))
			}
		}
		return nil
	}
	if cond.op == "<=" || cond.op == ">=" {
		l := c.lin(c.Sub(cond.args[0], cond.args[1]))
		co := l.m[k]
		delete(l.m, k)
		r := c.fromLin(l)
		if c.occurs1(r, k) {
			return nil
		}
		if cond.op == ">=" && co == 1 { // k + r >= 0
			return c.Sub(c.Int(0), r)
		}
		if cond.op == "<=" && co == -1 { // -k + r <= 0
			return r
		}
	}
	return nil
}

func (u *Unit) loopPos(l *loopInfo, fn *ssa.Function) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			if _, ok := in.(*ssa.Phi); !ok {
				return u.pos(in, fn)
			}
		}
	}
	best := ""
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				p := u.pos(in, fn)
				if best == "" || len(p) < len(best) || (len(p) == len(best) && p < best) {
					best = p
				}
			}
		}
	}
	return best
}

func (fr *Frame) unroll(l *loopInfo, entry *State, push func(*ssa.BasicBlock, edge), pos string) {
	u := fr.u
	st := entry.clone()
	for i := 0; i < 64; i++ {
		ex, backs := fr.iterate(l, st)
		fr.leave(ex, push)
		var live []edge
		for _, b := range backs {
			if !b.st.pc.isFalse() {
				live = append(live, b)
			}
		}
		if len(live) == 0 {
			return
		}
		st = fr.enter(l.header, live)
	}
	u.fail("loop unrolling did not finish at %s", pos)
}

func sortedRefKeys(m map[string]map[*Term]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (fr *Frame) makeLocs(entry *State, phis []*ssa.Phi, constPhi map[*ssa.Phi]bool, heapW map[string]map[*Term]bool, full map[string]bool, ghostW map[string]bool) []*loc {
	u := fr.u
	var locs []*loc
	for _, p := range phis {
		v, ok := entry.regs[p]
		if !ok {
			constPhi[p] = true
			continue
		}
		switch v.(type) {
		case *Term, *StructV:
		default:
			constPhi[p] = true
			continue
		}
		ts := u.flatten(v)
		for i, T := range leafTypes(p.Type()) {
			lc := &loc{kind: 'r', phi: p, leaf: i, T: T, name: p.Comment}
			if lc.name == "" {
				lc.name = p.Name()
			}
			u.initLoc(lc, entry, ts[i])
			locs = append(locs, lc)
		}
	}
	for _, k := range sortedRefKeys(heapW) {
		if full[k] {
			continue
		}
		var refs []*Term
		for r := range heapW[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			ki := u.keyInfo[k]
			lc := &loc{kind: 'h', key: k, ref: r, root: ki.root, path: ki.path, T: ki.T, name: shortName(k)}
			n := u.hget(entry, k, u.sortOf(ki.T), ki.T)
			u.initLoc(lc, entry, u.readRef(n, r, ki.root, ki.path))
			locs = append(locs, lc)
		}
	}
	for _, g := range sortedKeys(ghostW) {
		lc := &loc{kind: 'g', key: g, name: g}
		t, ok := entry.ghost[g]
		if !ok {
			t = u.ghostInit(g, u.ghostSort(g))
			entry.ghost[g] = t
		}
		lc.entry = t
		locs = append(locs, lc)
	}
	return locs
}

// elemLocs are the contents of the slices whose elements the loop assigns.
func (fr *Frame) elemLocs(entry *State, elemW map[string]map[*Term]bool, elemT map[string]types.Type) []*loc {
	u := fr.u
	var locs []*loc
	for _, k := range sortedRefKeys(elemW) {
		var refs []*Term
		for r := range elemW[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			locs = append(locs, &loc{kind: 'm', ref: r, mel: elemT[k], name: "elements of " + r.name, entry: u.cont(u.mget(entry, elemT[k]), r)})
		}
	}
	return locs
}

// freshIn is an arbitrary value of a location that is no slice.
func (u *Unit) freshIn(lc *loc, hint string) *Term {
	t := u.c.Fresh(hint, lc.entry.sort)
	if lc.kind == 'm' {
		u.c.Fact(t, u.c.Eq(u.c.Len(t), u.slen(lc.ref)))
	} else {
		u.typeFacts(t, lc.T)
	}
	return t
}

func (u *Unit) ghostSort(g string) *Term {
	if t, ok := u.ghostLike[g]; ok {
		return t
	}
	switch ghostKinds[g] {
	case SStr:
		return u.c.Str("")
	case SBool:
		return u.c.False()
	}
	return u.c.Empty(seqOf(SInt))
}

func (u *Unit) initLoc(lc *loc, entry *State, v *Term) {
	if sl, ok := lc.T.Underlying().(*types.Slice); ok {
		lc.elem = sl.Elem()
		lc.h0 = v
		lc.entry = u.cont(u.mget(entry, lc.elem), v)
		return
	}
	lc.entry = v
}

func (fr *Frame) genericState(entry *State, locs []*loc, heapW map[string]map[*Term]bool, full map[string]bool, memW map[string]map[*Term]bool, start int) *State {
	u := fr.u
	c := u.c
	st := entry.clone()
	for _, k := range sortedRefKeys(heapW) {
		ki := u.keyInfo[k]
		base := u.hget(st, k, u.sortOf(ki.T), ki.T)
		u.clobN++
		st.heap[k] = &HNode{kind: 'h', name: fmt.Sprintf("H!%d:%s", u.clobN, k), sort: base.sort, typ: ki.T, prev: base, full: full[k], rigid: u.mod.isRigid(ki.root), stamp: start, memo: map[*Term]*Term{}}
	}
	for _, k := range sortedRefKeys(memW) {
		var base *MNode
		if n, ok := st.mem[k]; ok {
			base = n
		} else {
			continue
		}
		hs := memW[k]
		u.clobN++
		st.mem[k] = &MNode{kind: 'h', name: fmt.Sprintf("cont!%d", u.clobN), sort: base.sort, elem: base.elem, prev: base, stamp: start, memo: map[*Term]*Term{}, safe: func(h *Term) *Term {
			r := c.True()
			for w := range hs {
				if w == nil {
					return c.False()
				}
				if h.stamp == 0 && u.mod.frame {
					r = c.And(r, u.own(w))
				} else {
					r = c.And(r, c.Not(u.aliased(h, w)))
				}
			}
			return r
		}}
	}
	return st
}

// setLocs installs a value for every loop-carried location.
func (u *Unit) setLocs(fr *Frame, st, entry *State, locs []*loc, val func(*loc) *Term, phis []*ssa.Phi, constPhi map[*ssa.Phi]bool) {
	c := u.c
	ph := map[*ssa.Phi][]*Term{}
	for _, lc := range locs {
		v := val(lc)
		put := v
		if lc.elem != nil {
			if lc.cf != nil && v == lc.entry && lc.how == "same" {
				put = lc.h0
			} else {
				h := u.newHandle("lp")
				nb := c.Fresh("samearr", SBool)
				u.harr[h] = c.Ite(nb, u.arr(lc.h0), c.FreshAlloc("arr"))
				u.hown[h] = u.own(lc.h0)
				u.hlen[h] = c.Len(v)
				k := typeKey(lc.elem)
				m := u.mget(st, lc.elem)
				st.mem[k] = &MNode{kind: 's', sort: m.sort, elem: lc.elem, prev: m, h: h, val: v, memo: map[*Term]*Term{}}
				lc.hin = h
				put = h
			}
		}
		switch lc.kind {
		case 'r':
			ph[lc.phi] = append(ph[lc.phi], put)
		case 'h':
			n := st.heap[lc.key]
			st.heap[lc.key] = &HNode{kind: 's', name: n.name, sort: n.sort, typ: lc.T, prev: n, ref: lc.ref, val: put, memo: map[*Term]*Term{}}
		case 'g':
			st.ghost[lc.key] = put
		case 'm':
			k := typeKey(lc.mel)
			m := u.mget(st, lc.mel)
			st.mem[k] = &MNode{kind: 's', sort: m.sort, elem: lc.mel, prev: m, h: lc.ref, val: put, memo: map[*Term]*Term{}}
		}
	}
	for _, p := range phis {
		if constPhi[p] {
			continue
		}
		st.regs[p] = u.unflatten(p.Type(), ph[p])
	}
}

// backState merges the back edges and evaluates the header phis for the next iteration.
func (fr *Frame) backState(l *loopInfo, backs []edge, phis []*ssa.Phi, constPhi map[*ssa.Phi]bool, entry *State) (*State, []*ssa.Phi) {
	st := fr.enter(l.header, backs)
	var bad []*ssa.Phi
	for _, p := range phis {
		v, ok := st.regs[p]
		if constPhi[p] {
			if e, has := entry.regs[p]; has && (!ok || v != e) {
				bad = append(bad, p)
			}
			continue
		}
		if !ok {
			bad = append(bad, p)
		}
	}
	return st, bad
}

func (u *Unit) locOut(fr *Frame, lc *loc, back *State) (h, out *Term) {
	var v *Term
	switch lc.kind {
	case 'r':
		v = u.flatten(back.regs[lc.phi])[lc.leaf]
	case 'h':
		v = u.readRef(u.hget(back, lc.key, u.sortOf(lc.T), lc.T), lc.ref, lc.root, lc.path)
	case 'g':
		return nil, back.ghost[lc.key]
	case 'm':
		return nil, u.cont(u.mget(back, lc.mel), lc.ref)
	}
	if lc.elem != nil {
		return v, u.cont(u.mget(back, lc.elem), v)
	}
	return nil, v
}

// skolem replaces values chosen freshly in an iteration by functions of the index.
func (u *Unit) skolem(t *Term, start int, ksym *Term, keep map[*Term]bool, m map[*Term]*Term) *Term {
	c := u.c
	sub := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || t.stamp <= start {
			return
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.name, "sk:") {
			// chosen in an inner loop: also depends on this iteration
			name := "sk:" + t.name + fmt.Sprint("@", ksym.id)
			if si, ok := c.skFacts[t.name]; ok {
				c.skFacts[name] = si
			}
			for _, a := range t.args {
				f(a)
			}
			sub[t] = c.UF(name, t.sort, append(append([]*Term{}, t.args...), ksym)...)
			return
		}
		if t.op == "sym" {
			if keep[t] {
				return
			}
			if _, ok := m[t]; ok {
				return
			}
			name := "sk:" + t.name
			if _, ok := c.skFacts[name]; !ok {
				c.skFacts[name] = skInfo{t, ksym}
			}
			sub[t] = c.UF(name, t.sort, ksym)
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	if len(sub) == 0 {
		return t
	}
	return c.SubstT(t, sub)
}

type skRule struct {
	ksym *Term
	f    *Term
}

// skTerms lists the names of the functions of ksym in f that stand for values chosen per iteration.
func (c *Ctx) skTerms(f, ksym *Term) []string {
	seen := map[*Term]bool{}
	var out []string
	var g func(t *Term)
	g = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.name, "sk:") && len(t.args) == 1 && t.args[0] == ksym {
			out = append(out, t.name)
		}
		for _, a := range t.args {
			g(a)
		}
	}
	g(f)
	return out
}

func (c *Ctx) occursAlloc(t *Term, start int) bool {
	seen := map[*Term]bool{}
	var g func(t *Term) bool
	g = func(t *Term) bool {
		if seen[t] || t.stamp <= start {
			return false
		}
		seen[t] = true
		if c.isAlloc[t] {
			return true
		}
		for _, a := range t.args {
			if g(a) {
				return true
			}
		}
		return false
	}
	return g(t)
}

type skInfo struct {
	sym  *Term
	ksym *Term
}

func (u *Unit) closedForms(fr *Frame, locs []*loc, back *State, ksym *Term, start int, ins map[*Term]bool) bool {
	c := u.c
	for _, lc := range locs {
		h, out := u.locOut(fr, lc, back)
		lc.out = out
		lc.cf = nil
		if out == lc.in && (lc.elem == nil || h == lc.hin) {
			lc.cf, lc.how = lc.entry, "same"
		}
	}
	m := map[*Term]*Term{}
	unres := map[*Term]bool{}
	for _, lc := range locs {
		if lc.cf != nil {
			m[lc.in] = lc.cf
		} else {
			unres[lc.in] = true
		}
	}
	for again := true; again; {
		again = false
		for _, lc := range locs {
			if lc.cf != nil {
				continue
			}
			o, ok := u.valify(back, lc.out, start)
			if !ok {
				if os.Getenv("GOCV_CF") != "" {
					fmt.Println("CF valify", lc.name, o)
				}
				continue
			}
			if os.Getenv("GOCV_CF") != "" {
				fmt.Println("CF strip", lc.name, c.strip(o, lc.in), c.strip(lc.out, lc.in))
			}
			o2 := c.SubstT(u.skolem(o, start, ksym, unres, m), m)
			sk := ""
			if hasSk(o2) {
				sk = " skolem"
			}
			cf, how := u.closedForm(lc, o2, ksym, unres)
			if cf != nil {
				lc.cf, lc.how = cf, how+sk
				m[lc.in] = cf
				delete(unres, lc.in)
				again = true
			}
		}
	}
	// single-location recurrences
	for again := true; again; {
		again = false
		for _, lc := range locs {
			if lc.cf != nil {
				continue
			}
			o, ok := u.valify(back, lc.out, start)
			if !ok {
				continue
			}
			o = c.SubstT(u.skolem(o, start, ksym, unres, m), m)
			others := map[*Term]bool{}
			for t := range unres {
				if t != lc.in {
					others[t] = true
				}
			}
			if c.occurs(o, others) {
				continue
			}
			c.boundN++
			i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
			lc.cf = c.Fold(ksym, lc.entry, lc.in, i, c.sub1(o, ksym, i))
			lc.how = "fold"
			if hasSk(o) {
				lc.how += " skolem"
			}
			m[lc.in] = lc.cf
			delete(unres, lc.in)
			again = true
		}
	}
	return len(unres) == 0
}

func hasSk(t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.name, "sk:") {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// strip writes out as in ++ E.
func (c *Ctx) strip(out, in *Term) *Term {
	if out == in {
		return c.Empty(out.sort)
	}
	switch out.op {
	case "++":
		e := c.strip(out.args[0], in)
		if e == nil {
			return nil
		}
		return c.Concat(append([]*Term{e}, out.args[1:]...)...)
	case "ite":
		a, b := c.strip(out.args[1], in), c.strip(out.args[2], in)
		if a == nil || b == nil {
			return nil
		}
		return c.Ite(out.args[0], a, b)
	}
	return nil
}

func (u *Unit) closedForm(lc *loc, o, ksym *Term, unres map[*Term]bool) (*Term, string) {
	c := u.c
	in := lc.in
	if o == in {
		return lc.entry, "constant"
	}
	c.boundN++
	i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	if o.sort == SInt && lc.elem == nil {
		d := c.Sub(o, in)
		if d.op == "int" {
			return c.Add(lc.entry, c.Mul(c.Int(d.ival), ksym)), "counter"
		}
	}
	if o.sort == SStr || isSeq(o.sort) {
		if e := c.strip(o, in); e != nil && !c.occurs(e, unres) {
			return c.Concat(lc.entry, c.FM(ksym, i, c.sub1(e, ksym, i))), "accumulated"
		}
	}
	if o.op == "upd" && o.args[0] == in && o.args[1] == ksym && isSeq(o.sort) {
		// element k is written in iteration k: the elements before it are new, the others as before
		e := c.SubstT(o.args[2], map[*Term]*Term{c.Nth(in, ksym): c.elemAt(lc.entry, ksym)})
		if !c.occurs(e, unres) {
			rest := c.elemAt(lc.entry, c.Add(ksym, i))
			return c.Concat(c.FM(ksym, i, c.Unit(c.sub1(e, ksym, i))), c.FM(c.Sub(c.Len(lc.entry), ksym), i, c.Unit(rest))), "element by element"
		}
	}
	if !c.occurs(o, unres) {
		prev := c.Sub(ksym, c.Int(1))
		g := c.sub1(o, ksym, prev)
		if c.sub1(o, ksym, c.Int(-1)) == lc.entry {
			return g, "derived"
		}
		return c.Ite(c.Eq(ksym, c.Int(0)), lc.entry, g), "derived"
	}
	if o.op == "or" && o.sort == SBool {
		var rest []*Term
		for _, a := range o.args {
			if a != in {
				rest = append(rest, a)
			}
		}
		b := c.Or(rest...)
		if !c.occurs(b, unres) {
			return c.Or(lc.entry, c.Lt(c.FI(ksym, i, c.sub1(b, ksym, i)), ksym)), "exists"
		}
	}
	if o.op == "and" && o.sort == SBool {
		var rest []*Term
		for _, a := range o.args {
			if a != in {
				rest = append(rest, a)
			}
		}
		b := c.And(rest...)
		if !c.occurs(b, unres) {
			return c.And(lc.entry, c.Not(c.Lt(c.FI(ksym, i, c.sub1(c.Not(b), ksym, i)), ksym))), "forall"
		}
	}
	if o.op == "ite" {
		cond, a, b := o.args[0], o.args[1], o.args[2]
		if a == in {
			cond, a, b = c.Not(cond), b, a
		}
		if b == in && !c.occurs(cond, unres) && !c.occurs(a, unres) {
			li := c.LI(ksym, i, c.sub1(cond, ksym, i))
			return c.Ite(c.Ge(li, c.Int(0)), c.sub1(a, ksym, li), lc.entry), "last write"
		}
	}
	return nil, ""
}

func (u *Unit) terminationObl(entry *State, early []*exitRec, ksym *Term, pos string, condOK bool) {
	c := u.c
	var bs []*Term
	for _, x := range early {
		bs = append(bs, x.cond)
	}
	B := c.Or(bs...)
	goal := c.False()
	if condOK {
		// candidate bounds: thresholds at which a linear exit test over k becomes true
		seen := map[*Term]bool{}
		var cands []*Term
		var f func(t *Term)
		f = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "<=" || t.op == ">=" {
				l := c.lin(c.Sub(t.args[0], t.args[1]))
				if co := l.m[ksym]; co == 1 || co == -1 {
					delete(l.m, ksym)
					r := c.fromLin(l)
					if !c.occurs1(r, ksym) {
						if co == 1 {
							r = c.Sub(c.Int(0), r)
						}
						for d := int64(-1); d <= 1; d++ {
							cands = append(cands, c.Add(r, c.Int(d)))
						}
					}
				}
			}
			if binderOp(t.op) {
				return
			}
			for _, a := range t.args {
				f(a)
			}
		}
		f(B)
		var alts []*Term
		for _, r := range cands {
			r = c.Ite(c.Ge(r, c.Int(0)), r, c.Int(0))
			alts = append(alts, c.sub1(B, ksym, r))
		}
		goal = c.Or(alts...)
	}
	u.oblige(entry, "terminates", pos, goal, "an exit condition holds at some iteration")
}

// userLoop: the contract's loop invariants apply to the loops that have no closed form.
func (u *Unit) userLoop(locs []*loc) bool {
	if len(u.spec.invariants) == 0 && u.spec.decreases == nil {
		return false
	}
	for _, lc := range locs {
		if lc.cf == nil {
			return true
		}
	}
	return false
}

// rootCtx evaluates specification terms of the verified function in a state inside it.
func (u *Unit) rootCtx(st *State) *specCtx {
	env := map[string]SV{}
	for i, p := range u.root.Params {
		env[u.spec.params[i]] = SV{V: u.rootArgs[i], T: p.Type()}
	}
	open := map[string]bool{}
	for n := range u.mod.reveal[u.spec.name] {
		open[n] = true
	}
	return &specCtx{u: u, st: st, old: u.entry, env: env, m: u.mod, open: open}
}

func (u *Unit) checkInvariants(st *State, pos, when string) {
	s := u.rootCtx(st)
	for _, iv := range u.spec.invariants {
		t, _ := u.valify(st, s.boolT(iv.expr), 0)
		u.oblige(st, "invariant", pos, t, "loop invariant "+when+": "+iv.src)
	}
}

func (u *Unit) assumeInvariants(st *State, uns map[*Term]bool) {
	s := u.rootCtx(st)
	for _, iv := range u.spec.invariants {
		if s.bindPostIf(iv.expr, st, uns) {
			continue
		}
		u.facts = append(u.facts, pathFact{u.c.Implies(st.pc, s.boolT(iv.expr))})
	}
}

func (u *Unit) measure(st *State) *Term {
	s := u.rootCtx(st)
	t, _ := u.valify(st, s.scalar(s.eval(u.spec.decreases.expr)), 0)
	return t
}
