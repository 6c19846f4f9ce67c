package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"
)

// ---- heap: one persistent version tree per (root type, field path) key

type HNode struct {
	kind  byte // 'b' base, 's' store, 'i' ite, 'h' havoc
	name  string
	sort  Sort
	prev  *HNode
	other *HNode
	cond  *Term
	ref   *Term
	val   *Term
	W     []*Term
	full  bool
	rigid bool
	stamp int
	typ   types.Type
	memo  map[*Term]*Term
	made  map[*Term]bool
}

func (u *Unit) hread(n *HNode, q *Term) *Term {
	if r, ok := n.memo[q]; ok {
		return r
	}
	c := u.c
	var r *Term
	if q.op == "ite" {
		r = c.Ite(q.args[0], u.hread(n, q.args[1]), u.hread(n, q.args[2]))
	} else {
		switch n.kind {
		case 'b':
			r = c.UF(n.name, n.sort, q)
			u.typeFacts(r, n.typ)
			u.fieldInv(n.name, r, q)
		case 's':
			eq := c.Eq(q, n.ref)
			if eq.isTrue() {
				r = n.val
			} else {
				r = c.Ite(eq, n.val, u.hread(n.prev, q))
			}
		case 'i':
			if u.c.isAlloc[q] {
				// an object made on one branch is only ever read on that branch
				a, b := n.prev.stored(q), n.other.stored(q)
				if a && !b {
					r = u.hread(n.prev, q)
					break
				}
				if b && !a {
					r = u.hread(n.other, q)
					break
				}
			}
			r = c.Ite(n.cond, u.hread(n.prev, q), u.hread(n.other, q))
		case 'h':
			fresh := func(x *Term) *Term {
				t := c.UF(n.name, n.sort, x)
				u.typeFacts(t, n.typ)
				return t
			}
			if n.full {
				r = fresh(q)
			} else if q.stamp <= n.stamp || n.rigid || n.stamp < 0 {
				r = u.hread(n.prev, q)
			} else {
				r = fresh(q)
			}
			if !n.full {
				for _, w := range n.W {
					eq := c.Eq(q, w)
					r = c.Ite(eq, fresh(w), r)
				}
			}
		}
	}
	n.memo[q] = r
	return r
}

// stored reports whether object q is written in the history of n.
func (n *HNode) stored(q *Term) bool {
	if n == nil {
		return false
	}
	if r, ok := n.made[q]; ok {
		return r
	}
	r := false
	switch n.kind {
	case 's':
		r = n.ref == q || n.ref.op == "ite" || n.prev.stored(q)
	case 'i':
		r = n.prev.stored(q) || n.other.stored(q)
	case 'h':
		r = q.stamp <= n.stamp && n.prev.stored(q)
	default:
		r = false
	}
	if n.made == nil {
		n.made = map[*Term]bool{}
	}
	n.made[q] = r
	return r
}

func (u *Unit) heapBase(key string, s Sort, t types.Type) *HNode {
	if n, ok := u.hbase[key]; ok {
		return n
	}
	name := "H:" + key
	if tag, ok := colTags.Load(key); ok {
		name = "H:col:" + tag.(string)
	}
	n := &HNode{kind: 'b', name: name, sort: s, typ: t, memo: map[*Term]*Term{}}
	u.hbase[key] = n
	return n
}

// colTags: database column of a struct field, by heap key. What a row object holds is named by column, not by field.
var colTags sync.Map

func colTag(root types.Type, path string) string {
	s, ok := root.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == path {
			return strings.Split(reflect.StructTag(s.Tag(i)).Get("db"), ",")[0]
		}
	}
	return ""
}
func (u *Unit) hget(st *State, key string, s Sort, t types.Type) *HNode {
	if n, ok := st.heap[key]; ok {
		return n
	}
	n := u.heapBase(key, s, t)
	if st.epoch > 0 {
		// the heap was havocked as a whole before this key was first touched
		n = &HNode{kind: 'b', name: fmt.Sprintf("H%d:%s", st.epoch, key), sort: s, typ: t, memo: map[*Term]*Term{}}
		if e, ok := u.hbase[n.name]; ok {
			n = e
		} else {
			u.hbase[n.name] = n
		}
	}
	st.heap[key] = n
	return n
}

// ---- slice memory: contents of slice handles

type MNode struct {
	kind  byte // 'b' base, 's' set, 'a' append, 'e' elem store, 'i' ite, 'h' havoc
	name  string
	sort  Sort // sequence sort
	elem  types.Type
	prev  *MNode
	other *MNode
	cond  *Term
	h     *Term // handle set / created
	src   *Term // append source / elem handle
	val   *Term
	idx   *Term
	ip    *Term
	stamp int
	memo  map[*Term]*Term
	made  map[*Term]bool
	safe  func(h *Term) *Term
}

func (u *Unit) cont(n *MNode, h *Term) *Term {
	if r, ok := n.memo[h]; ok {
		return r
	}
	c := u.c
	var r *Term
	switch {
	case h.op == "ite":
		r = c.Ite(h.args[0], u.cont(n, h.args[1]), u.cont(n, h.args[2]))
	case h.op == "int" && h.ival == 0:
		r = c.Empty(n.sort)
	case h.op == "uf" && strings.HasPrefix(h.name, "sl:"):
		r = h.args[0]
	default:
		opaque := func(name string) *Term {
			t := c.UF(name, n.sort, h)
			if _, known := u.hlen[h]; known {
				c.Fact(t, c.Eq(c.Len(t), u.slen(h)))
			}
			return t
		}
		switch n.kind {
		case 'b':
			r = opaque(n.name)
		case 's':
			eq := u.hEq(h, n.h)
			if eq.isTrue() {
				r = n.val
			} else {
				r = c.Ite(eq, n.val, u.cont(n.prev, h))
			}
		case 'a':
			eq := u.hEq(h, n.h)
			if eq.isTrue() {
				r = n.val
				break
			}
			pv := u.cont(n.prev, h)
			if u.prefixOf(h, n.src) {
				r = pv
			} else {
				aff := c.And(n.ip, u.aliased(h, n.src))
				if aff.isFalse() {
					r = pv
				} else {
					r = c.Ite(aff, opaque(n.name), pv)
				}
			}
			r = c.Ite(eq, n.val, r)
		case 'e':
			pv := u.cont(n.prev, h)
			if h == n.src {
				r = c.Upd(pv, n.idx, n.val)
			} else {
				aff := u.aliased(h, n.src)
				if aff.isFalse() {
					r = pv
				} else {
					r = c.Ite(aff, opaque(n.name), pv)
				}
			}
		case 'i':
			switch {
			case u.isHandle[h] && n.prev.created(h) && !n.other.created(h):
				// a list made on one branch is only ever read on that branch
				r = u.cont(n.prev, h)
			case u.isHandle[h] && !n.prev.created(h) && n.other.created(h):
				r = u.cont(n.other, h)
			default:
				r = c.Ite(n.cond, u.cont(n.prev, h), u.cont(n.other, h))
			}
		case 'h':
			if n.prev != nil && h.stamp <= n.stamp && n.safe != nil {
				s := n.safe(h)
				if s.isTrue() {
					r = u.cont(n.prev, h)
				} else {
					r = c.Ite(s, u.cont(n.prev, h), opaque(n.name))
				}
			} else {
				r = opaque(n.name)
			}
		}
	}
	n.memo[h] = r
	return r
}

// created reports whether handle h is introduced in the history of n.
func (n *MNode) created(h *Term) bool {
	if n == nil {
		return false
	}
	if r, ok := n.made[h]; ok {
		return r
	}
	r := false
	switch n.kind {
	case 's', 'a':
		r = n.h == h || n.prev.created(h)
	case 'i':
		r = n.prev.created(h) || n.other.created(h)
	default:
		r = n.prev.created(h)
	}
	if n.made == nil {
		n.made = map[*Term]bool{}
	}
	n.made[h] = r
	return r
}

// prefixOf: src is h grown by appends alone (on every alternative compatible with the branch h was made on),
// so an in-place append to src writes behind the extent of h.
func (u *Unit) prefixOf(h, src *Term) bool {
	if h == src {
		return true
	}
	if src.op == "ite" {
		if pc, ok := u.hpc[h]; ok {
			if entails(pc, src.args[0], true) {
				return u.prefixOf(h, src.args[1])
			}
			if entails(pc, src.args[0], false) {
				return u.prefixOf(h, src.args[2])
			}
		}
		return u.prefixOf(h, src.args[1]) && u.prefixOf(h, src.args[2])
	}
	if p, ok := u.grown[src]; ok {
		return u.prefixOf(h, p)
	}
	return false
}

// entails: pc implies t (or its negation) propositionally.
func entails(pc, t *Term, want bool) bool {
	val := map[*Term]bool{}
	var atom *Term
	// eval returns 1, 0 or -1 (unknown), remembering the first unknown atom
	var eval func(t *Term) int
	eval = func(t *Term) int {
		switch {
		case t.isTrue():
			return 1
		case t.isFalse():
			return 0
		}
		if v, ok := val[t]; ok {
			if v {
				return 1
			}
			return 0
		}
		switch t.op {
		case "not":
			v := eval(t.args[0])
			if v < 0 {
				return v
			}
			return 1 - v
		case "and", "or":
			dom := 0
			if t.op == "or" {
				dom = 1
			}
			unk := false
			for _, a := range t.args {
				switch v := eval(a); {
				case v == dom:
					return dom
				case v < 0:
					unk = true
				}
			}
			if unk {
				return -1
			}
			return 1 - dom
		case "ite":
			c := eval(t.args[0])
			if c == 1 {
				return eval(t.args[1])
			}
			if c == 0 {
				return eval(t.args[2])
			}
			a, b := eval(t.args[1]), eval(t.args[2])
			if a == b && a >= 0 {
				return a
			}
			return -1
		}
		if atom == nil {
			atom = t
		}
		return -1
	}
	budget := 4000
	// search reports whether pc and not(t) has a propositional model (or the budget ran out)
	var search func() bool
	search = func() bool {
		budget--
		if budget < 0 {
			return true
		}
		atom = nil
		p := eval(pc)
		if p == 0 {
			return false
		}
		first := atom
		g := eval(t)
		if g >= 0 && (g == 1) == want {
			return false
		}
		if first == nil {
			first = atom
		}
		if first == nil {
			return true
		}
		for _, v := range []bool{true, false} {
			val[first] = v
			if search() {
				return true
			}
			delete(val, first)
		}
		return false
	}
	return !search()
}

// hEq compares handle identities (fresh handles differ from anything older).
func (u *Unit) hEq(a, b *Term) *Term {
	c := u.c
	if a == b {
		return c.True()
	}
	if u.isHandle[b] && (a.stamp < b.stamp || u.isHandle[a]) {
		return c.False()
	}
	return c.Eq(a, b)
}

// aliased: may a write through s's backing array (at or beyond its own extent, or at an element) be seen through h?
func (u *Unit) aliased(h, s *Term) *Term {
	c := u.c
	if h.stamp == 0 && !(h.op == "int") {
		return c.Not(u.own(s))
	}
	return c.Eq(u.arr(h), u.arr(s))
}

func (u *Unit) attr(name string, m map[*Term]*Term, h *Term, s Sort, nilv *Term) *Term {
	c := u.c
	if h.op == "ite" {
		return c.Ite(h.args[0], u.attr(name, m, h.args[1], s, nilv), u.attr(name, m, h.args[2], s, nilv))
	}
	if h.op == "int" && h.ival == 0 {
		return nilv
	}
	if r, ok := m[h]; ok {
		return r
	}
	r := c.UF(name, s, h)
	return r
}
func (u *Unit) slen(h *Term) *Term {
	c := u.c
	if h.op == "uf" && strings.HasPrefix(h.name, "sl:") {
		return c.Len(h.args[0])
	}
	r := u.attr("slen", u.hlen, h, SInt, c.Int(0))
	if r.op == "uf" && r.name == "slen" {
		c.Fact(r, c.Ge(r, c.Int(0)))
		c.Fact(r, c.Implies(c.Eq(h, c.Int(0)), c.Eq(r, c.Int(0))))
	}
	return r
}
func (u *Unit) arr(h *Term) *Term { return u.attr("arr", u.harr, h, SInt, u.c.Int(0)) }
func (u *Unit) own(h *Term) *Term { return u.attr("own", u.hown, h, SBool, u.c.True()) }
func (u *Unit) scap(h *Term) *Term {
	c := u.c
	r := u.attr("scap", u.hcap, h, SInt, c.Int(0))
	if r.op == "uf" && r.name == "scap" {
		c.Fact(r, c.Ge(r, u.slen(h)))
	}
	return r
}

func (u *Unit) newHandle(hint string) *Term {
	h := u.c.Fresh(hint, SInt)
	u.isHandle[h] = true
	return h
}

func (u *Unit) mget(st *State, elem types.Type) *MNode {
	k := typeKey(elem)
	if n, ok := st.mem[k]; ok {
		return n
	}
	name := "cont:" + k
	if st.epoch > 0 {
		name = fmt.Sprintf("cont%d:%s", st.epoch, k)
	}
	if n, ok := u.mbase[name]; ok {
		st.mem[k] = n
		return n
	}
	n := &MNode{kind: 'b', name: name, sort: seqOf(u.elemSort(elem)), elem: elem, memo: map[*Term]*Term{}}
	u.mbase[name] = n
	st.mem[k] = n
	return n
}

func (u *Unit) content(st *State, h *Term, elem types.Type) *Term {
	u.recRead(h, elem)
	return u.cont(u.mget(st, elem), h)
}

// setContent introduces a fresh handle with the given content.
func (u *Unit) newSlice(st *State, hint string, elem types.Type, content *Term) *Term {
	c := u.c
	h := u.newHandle(hint)
	arr := c.FreshAlloc("arr")
	u.harr[h] = arr
	u.hown[h] = c.True()
	u.hlen[h] = c.Len(content)
	c.Fact(h, c.Neq(h, c.Int(0)))
	k := typeKey(elem)
	n := u.mget(st, elem)
	st.mem[k] = &MNode{kind: 's', sort: n.sort, elem: elem, prev: n, h: h, val: content, memo: map[*Term]*Term{}}
	return h
}

// appendOp models s' = append(s, xs...).
func (u *Unit) appendOp(st *State, s *Term, elem types.Type, xs *Term, pos string) *Term {
	c := u.c
	n := c.Len(xs)
	if n.op == "int" && n.ival == 0 {
		return s
	}
	if s.op == "ite" && u.appendSplit(s) {
		// keep as is
	}
	pc := u.content(st, s, elem)
	sl := u.slen(s)
	h := u.newHandle("app")
	u.hpc[h] = st.pc
	u.grown[h] = s
	ip := c.Fresh("inplace", SBool)
	cp := u.scap(s)
	over := c.Gt(c.Add(sl, n), cp)
	if over.isTrue() {
		ip = c.False()
	} else if s.op == "ite" {
		// nil alternatives never append in place
		c.Fact(ip, c.Implies(ip, c.Not(over)))
	} else {
		c.Fact(ip, c.Implies(ip, c.Not(over)))
	}
	na := c.FreshAlloc("arr")
	u.harr[h] = c.Ite(ip, u.arr(s), na)
	u.hown[h] = c.Or(c.Not(ip), u.own(s))
	u.hlen[h] = c.Add(sl, n)
	c.Fact(h, c.Implies(c.Gt(n, c.Int(0)), c.Neq(h, c.Int(0))))
	c.Fact(h, c.Implies(c.Eq(n, c.Int(0)), c.Eq(c.Eq(h, c.Int(0)), c.Eq(s, c.Int(0)))))
	u.recWrite("m:"+typeKey(elem), s)
	if u.mod.frame {
		u.oblige(st, "frame", pos, c.Or(c.Not(ip), u.own(s)), "append writes only into a backing array of its own")
	}
	k := typeKey(elem)
	m := u.mget(st, elem)
	u.clobN++
	st.mem[k] = &MNode{kind: 'a', name: fmt.Sprintf("clob%d", u.clobN), sort: m.sort, elem: elem, prev: m, h: h, src: s, val: c.Concat(pc, xs), ip: ip, memo: map[*Term]*Term{}}
	return h
}
func (u *Unit) appendSplit(s *Term) bool { return false }

func (u *Unit) elemStore(st *State, h *Term, elem types.Type, idx, v *Term, pos string) {
	u.recWrite("m:"+typeKey(elem), h)
	u.recElem("e:"+typeKey(elem), h, elem)
	if u.mod.frame {
		u.oblige(st, "frame", pos, u.own(h), "element store only into a slice created here")
	}
	k := typeKey(elem)
	m := u.mget(st, elem)
	u.clobN++
	st.mem[k] = &MNode{kind: 'e', name: fmt.Sprintf("clob%d", u.clobN), sort: m.sort, elem: elem, prev: m, src: h, idx: idx, val: v, memo: map[*Term]*Term{}}
}
