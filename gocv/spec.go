package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"
)

// ---- contracts

type Clause struct {
	label string
	src   string
	expr  ast.Expr
	env   map[string]SV
}

type FuncSpec struct {
	name     string // canonical function name
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	modifies []*Clause
	hints    []*Clause
	// for loops without a closed form: what holds before every iteration, and what gets smaller
	invariants []*Clause
	decreases  *Clause
	inline     bool
	trusted    bool // contract used at call sites but body not verified here
	noroot     bool
	bounded    string
	pkg        *types.Package
	file       string
	opaque     bool
}

func (s *FuncSpec) matches(callee *ssa.Function) bool {
	return len(s.params) == 0 || len(s.params) == len(callee.Params)
}

type PureSpec struct {
	name   string
	nonnil bool
	nilOK  map[string]bool
	only   map[string]bool // receiver type keys / function names; empty: any
}

func (p *PureSpec) nilsafe(k string) bool { return p.nilOK[k] }

type DefSpec struct {
	name   string
	params []string
	ptypes []ast.Expr
	rtype  ast.Expr
	body   ast.Expr
	opaque bool
	rec    bool // recursive: applications stay opaque, revealing one unfolds it once
	reveal bool
	pkg    *types.Package
}

// Module is one set of contracts.
type Module struct {
	name        string
	pkgs        []string
	pkg         *types.Package
	frame       bool
	checkElems  bool
	cut         bool
	abstractStr bool
	termination bool
	budget      int  // case splits per obligation
	factor      bool // conditional strings and sequences keep their common parts outside
	deep        bool // also identify equal search terms (first and last index) while proving
	debug       bool
	nonnil      map[string]bool
	nonnilPtr   map[string]bool
	elemNonnil  map[string]bool
	sealed      map[string][]string
	pure        map[string]*PureSpec
	funcs       map[string]*FuncSpec
	order       []string
	noInline    map[string]bool
	rigidT      map[string]bool
	rigidPkg    map[string]bool
	softT       map[string]bool
	defs        map[string]*DefSpec
	strTypes    map[string]bool
	ghosts      map[string]bool
	effects     map[string]*Effect
	purefns     map[string]bool
	recDefs     map[string]bool
	reveal      map[string]map[string]bool // func -> revealed opaque defs
	wfNames     bool
	pr          *Prog
}

func NewModule(name string) *Module {
	return &Module{name: name, nonnil: map[string]bool{}, nonnilPtr: map[string]bool{}, elemNonnil: map[string]bool{}, sealed: map[string][]string{},
		pure: map[string]*PureSpec{}, funcs: map[string]*FuncSpec{}, noInline: map[string]bool{}, rigidT: map[string]bool{}, rigidPkg: map[string]bool{}, softT: map[string]bool{},
		defs: map[string]*DefSpec{}, recDefs: map[string]bool{}, strTypes: map[string]bool{}, reveal: map[string]map[string]bool{}, ghosts: map[string]bool{}, effects: map[string]*Effect{}, purefns: map[string]bool{}}
}

func (m *Module) isRigid(t types.Type) bool {
	k := typeKey(t)
	if m.softT[k] {
		return false
	}
	if m.rigidT[k] {
		return true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return m.rigidPkg[n.Obj().Pkg().Path()]
	}
	return false
}

func (m *Module) plainString(tag string) bool { return m.strTypes[tag] }

func (m *Module) globalInit(u *Unit, st *State, g *ssa.Global) (Val, bool) { return nil, false }

func (m *Module) fnHandler(u *Unit, f *Term) func(st *State, args []Val, pos string) Val { return nil }

func (m *Module) pureFor(u *Unit, callee *ssa.Function) *PureSpec {
	if u.root == callee {
		return nil
	}
	p := m.pure[callee.Name()]
	if p == nil {
		return nil
	}
	if callee.Signature.Recv() == nil {
		if p.only["func"] {
			return p
		}
		return nil
	}
	rt := callee.Signature.Recv().Type()
	d := derefT(rt)
	n, ok := types.Unalias(d).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	in := false
	for _, tp := range m.pkgs {
		if n.Obj().Pkg().Path() == tp {
			in = true
		}
	}
	if !in {
		return nil
	}
	return p
}

func (m *Module) pureIface(it types.Type, name string) bool {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	for _, tp := range m.pkgs {
		if n.Obj().Pkg().Path() == tp {
			return true
		}
	}
	return false
}

// ---- spec files

func LoadSpec(pr *Prog, m *Module, file string, data map[string]string) error {
	raw, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	tm, err := template.New(filepath.Base(file)).Funcs(template.FuncMap{"list": func(s ...string) []string { return s }}).Option("missingkey=error").Parse(string(raw))
	if err != nil {
		return err
	}
	var b bytes.Buffer
	if err := tm.Execute(&b, data); err != nil {
		return err
	}
	return m.parse(pr, b.String(), filepath.Base(file))
}

func (m *Module) parse(pr *Prog, text, file string) error {
	m.pr = pr
	var lines []string
	var nos []int
	for i, l := range strings.Split(text, "\n") {
		if k := strings.Index(l, "#"); k >= 0 && (k == 0 || l[k-1] == ' ' || l[k-1] == '\t') && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if strings.HasPrefix(l, "\t\t") || strings.HasPrefix(l, "    ") {
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: continuation without directive", file, i+1)
			}
			lines[len(lines)-1] += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, strings.TrimSpace(l))
		nos = append(nos, i+1)
	}
	var cur *FuncSpec
	for i, l := range lines {
		bad := func(err error) error { return fmt.Errorf("%s:%d: %v (%s)", file, nos[i], err, l) }
		w, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		names := func() []string {
			var out []string
			for _, x := range strings.Split(rest, ",") {
				if x = strings.TrimSpace(x); x != "" {
					out = append(out, x)
				}
			}
			return out
		}
		typ := func(s string) (types.Type, error) {
			e, err := parser.ParseExpr(s)
			if err != nil {
				return nil, err
			}
			return m.resolveType(e)
		}
		switch w {
		case "pkg":
			p := pr.tpkg[modPath+"/"+rest]
			if p == nil {
				return bad(fmt.Errorf("package not loaded"))
			}
			m.pkg = p
			if !contains(m.pkgs, p.Path()) {
				m.pkgs = append(m.pkgs, p.Path())
			}
		case "frame":
			m.frame = true
		case "cut":
			m.cut = true
		case "checkelems":
			m.checkElems = true
		case "abstractstrings":
			m.abstractStr = true
		case "termination":
			m.termination = true
		case "budget": // case splits per obligation (default 400)
			if n, err := strconv.Atoi(strings.TrimSpace(rest)); err == nil {
				m.budget = n
			}
		case "factor":
			m.factor = true
		case "identify":
			m.deep = true
		case "rigidpkg":
			m.rigidPkg[m.pkg.Path()] = true
		case "soft", "rigid", "elems", "strtype":
			for _, n := range names() {
				t, err := typ(n)
				if err != nil {
					return bad(err)
				}
				switch w {
				case "soft":
					m.softT[typeKey(t)] = true
				case "rigid":
					m.rigidT[typeKey(t)] = true
				case "elems":
					m.elemNonnil[typeKey(t)] = true
				case "strtype":
					m.strTypes[typeKey(t)] = true
				}
			}
		case "sealed":
			n, set, ok := strings.Cut(rest, "=")
			if !ok {
				return bad(fmt.Errorf("want name = types"))
			}
			t, err := typ(strings.TrimSpace(n))
			if err != nil {
				return bad(err)
			}
			var ks []string
			for _, x := range strings.Split(set, ",") {
				x = strings.TrimSpace(x)
				if x == "all" {
					for _, T := range pr.implementors(t) {
						ks = append(ks, typeKey(T))
					}
					continue
				}
				ct, err := typ(x)
				if err != nil {
					return bad(err)
				}
				ks = append(ks, typeKey(ct))
			}
			m.sealed[typeKey(t)] = ks
		case "nonnil":
			for _, n := range names() {
				tn, f, _ := strings.Cut(n, ".")
				t, err := typ(tn)
				if err != nil {
					continue // type absent in this dialect
				}
				m.nonnil[typeKey(t)+"."+f] = true
			}
		case "pure":
			ws := strings.Fields(rest)
			p := &PureSpec{name: ws[0], nilOK: map[string]bool{}, only: map[string]bool{}}
			for _, x := range ws[1:] {
				switch {
				case x == "nonnil":
					p.nonnil = true
				case x == "func":
					p.only["func"] = true
				case strings.HasPrefix(x, "nilsafe="):
					for _, n := range strings.Split(strings.TrimPrefix(x, "nilsafe="), ",") {
						t, err := typ(n)
						if err != nil {
							continue
						}
						p.nilOK[typeKey(t)] = true
					}
				}
			}
			m.pure[ws[0]] = p
		case "noinline":
			for _, n := range names() {
				m.noInline[m.fullName(n)] = true
			}
		case "purefn":
			for _, n := range names() {
				m.purefns[expandName(n)] = true
			}
		case "effect", "query", "function": // effect label(params) = function, ...
			sig, fs, ok := strings.Cut(rest, " = ")
			k := strings.Index(sig, "(")
			if !ok || k < 0 {
				return bad(fmt.Errorf("want effect label(params) = functions"))
			}
			ef := &Effect{label: strings.TrimSpace(sig[:k]), kind: w, sp: &FuncSpec{pkg: m.pkg, file: file}}
			for _, x := range strings.Split(strings.TrimSuffix(strings.TrimSpace(sig[k+1:]), ")"), ",") {
				if x = strings.TrimSpace(x); x != "" {
					ef.params = append(ef.params, x)
				}
			}
			for _, x := range strings.Split(fs, ",") {
				m.effects[expandName(strings.TrimSpace(x))] = ef
			}
			ef.sp.name = ef.label
			cur = ef.sp
		case "ghost":
			for _, n := range names() {
				m.ghosts[n] = true
			}
		case "def", "opaque", "recursive":
			d := &DefSpec{pkg: m.pkg}
			if w != "def" {
				d.opaque = true
				d.rec = w == "recursive"
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "def"))
			}
			sig, body, ok := cutDef(rest)
			if !ok {
				return bad(fmt.Errorf("def needs a body"))
			}
			fe, err := parser.ParseExpr("func" + sig[strings.Index(sig, "("):] + "{}")
			if err != nil {
				return bad(err)
			}
			d.name = strings.TrimSpace(sig[:strings.Index(sig, "(")])
			ft := fe.(*ast.FuncLit).Type
			for _, f := range ft.Params.List {
				for _, n := range f.Names {
					d.params = append(d.params, n.Name)
					d.ptypes = append(d.ptypes, f.Type)
				}
			}
			if ft.Results != nil {
				d.rtype = ft.Results.List[0].Type
			}
			be, err := parser.ParseExpr(body)
			if err != nil {
				return bad(err)
			}
			d.body = be
			m.defs[d.name] = d
			if d.rec {
				m.recDefs[d.name] = true
			}
			cur = nil
		case "func":
			ws := rest
			sp := &FuncSpec{pkg: m.pkg, file: file}
			// name(params) (results) flags
			k := strings.Index(ws, "(")
			if strings.HasPrefix(ws, "(") {
				k = strings.Index(ws, ")")
				k += strings.Index(ws[k:], "(")
				if k < strings.Index(ws, ")") {
					return bad(fmt.Errorf("bad function header"))
				}
			}
			if k < 0 {
				return bad(fmt.Errorf("bad function header"))
			}
			sp.name = m.fullName(strings.TrimSpace(ws[:k]))
			e := strings.Index(ws[k:], ")") + k
			for _, x := range strings.Split(ws[k+1:e], ",") {
				if x = strings.TrimSpace(x); x != "" {
					sp.params = append(sp.params, x)
				}
			}
			tail := strings.TrimSpace(ws[e+1:])
			if strings.HasPrefix(tail, "(") {
				e := strings.Index(tail, ")")
				for _, x := range strings.Split(tail[1:e], ",") {
					if x = strings.TrimSpace(x); x != "" {
						sp.results = append(sp.results, x)
					}
				}
				tail = strings.TrimSpace(tail[e+1:])
			}
			for _, x := range strings.Fields(tail) {
				switch x {
				case "inline":
					sp.inline = true
				case "trusted":
					sp.trusted = true
				case "noroot":
					sp.noroot = true
				}
			}
			m.funcs[sp.name] = sp
			m.order = append(m.order, sp.name)
			cur = sp
		case "requires", "ensures", "modifies", "reveal", "hint", "invariant", "decreases":
			if cur == nil {
				return bad(fmt.Errorf("no function"))
			}
			if w == "reveal" {
				if m.reveal[cur.name] == nil {
					m.reveal[cur.name] = map[string]bool{}
				}
				for _, n := range names() {
					m.reveal[cur.name][n] = true
				}
				continue
			}
			cl := &Clause{src: rest}
			if k := strings.Index(rest, ": "); k > 0 && !strings.ContainsAny(rest[:k], " (\"") {
				cl.label = rest[:k]
				rest = rest[k+2:]
				cl.src = rest
			}
			ex, err := parser.ParseExpr(rest)
			if err != nil {
				return bad(err)
			}
			cl.expr = ex
			switch w {
			case "requires":
				cur.requires = append(cur.requires, cl)
			case "ensures":
				cur.ensures = append(cur.ensures, cl)
			case "modifies":
				cur.modifies = append(cur.modifies, cl)
			case "hint":
				cur.hints = append(cur.hints, cl)
			case "invariant":
				cur.invariants = append(cur.invariants, cl)
			case "decreases":
				cur.decreases = cl
			}
		default:
			return bad(fmt.Errorf("unknown directive"))
		}
	}
	return nil
}

// cutDef splits "name(params) T = body" at the first top-level " = ".
func cutDef(s string) (string, string, bool) {
	d := 0
	for i := 0; i+2 < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && s[i] == ' ' && s[i+1] == '=' && s[i+2] == ' ' {
			return s[:i], s[i+3:], true
		}
	}
	return "", "", false
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (m *Module) fullName(n string) string {
	return m.pkg.Path() + "." + n
}

// expandName: "pkg/x.F" names a function of this module.
func expandName(n string) string {
	if strings.HasPrefix(n, "pkg/") {
		return modPath + "/" + n
	}
	return n
}

func (m *Module) resolveType(e ast.Expr) (types.Type, error) {
	switch x := e.(type) {
	case *ast.Ident:
		if o := m.pkg.Scope().Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		return nil, fmt.Errorf("unknown type %s", x.Name)
	case *ast.ParenExpr:
		return m.resolveType(x.X)
	case *ast.StarExpr:
		t, err := m.resolveType(x.X)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ArrayType:
		t, err := m.resolveType(x.Elt)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := m.importNamed(id.Name); p != nil {
				if tn, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return tn.Type(), nil
				}
			}
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil), nil
	}
	return nil, fmt.Errorf("unsupported type expression %T", e)
}

func (m *Module) importNamed(name string) *types.Package {
	for _, p := range m.pkg.Imports() {
		if p.Name() == name {
			return p
		}
	}
	for _, p := range m.pkg.Imports() {
		if strings.HasSuffix(p.Path(), "/"+name) {
			return p
		}
	}
	for _, t := range m.pr.tpkg {
		if t.Name() == name {
			return t
		}
		for _, p := range t.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	return nil
}

// ---- evaluation of specification expressions

// SV is a specification value; seq values carry the content of a list.
type SV struct {
	V   Val
	T   types.Type
	seq bool
}

type specCtx struct {
	u     *Unit
	st    *State
	old   *State
	env   map[string]SV
	m     *Module
	open  map[string]bool // opaque defs revealed
	depth int
}

func (s *specCtx) fail(e ast.Node, f string, a ...interface{}) {
	panic(unsupported{"spec: " + fmt.Sprintf(f, a...)})
}

func (s *specCtx) with(name string, v SV) *specCtx {
	n := *s
	n.env = map[string]SV{}
	for k, x := range s.env {
		n.env[k] = x
	}
	n.env[name] = v
	return &n
}

func (s *specCtx) boolT(e ast.Expr) *Term {
	t := s.scalar(s.eval(e))
	if t.sort != SBool {
		s.fail(e, "boolean expected: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (s *specCtx) scalar(v SV) *Term {
	if v.seq {
		return v.V.(*Term)
	}
	return s.u.term(v.V)
}

// content of a list value
func (s *specCtx) cont(v SV) *Term {
	if v.seq {
		return v.V.(*Term)
	}
	if sl, ok := v.T.Underlying().(*types.Slice); ok {
		return s.u.contentOf(s.st, s.u.term(v.V), sl.Elem())
	}
	if isStringT(v.T) {
		return s.u.term(v.V)
	}
	s.fail(nil, "list expected, have %v", v.T)
	return nil
}

func elemTypeOf(t types.Type) types.Type {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// coerce converts v for use at type T (concrete to interface, nil, list).
func (s *specCtx) coerce(v SV, T types.Type) Val {
	if v.T == nil {
		return v.V
	}
	if isNilT(v.T) {
		return s.u.zero(T)
	}
	if isIfaceT(T) && !isIfaceT(v.T) {
		return s.u.makeIface(v.V, v.T)
	}
	return v.V
}

func (s *specCtx) eval(e ast.Expr) SV {
	u := s.u
	c := u.c
	switch x := e.(type) {
	case *ast.ParenExpr:
		return s.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, _ := strconv.ParseInt(x.Value, 0, 64)
			return SV{V: c.Int(n), T: types.Typ[types.Int]}
		case token.STRING:
			v, err := strconv.Unquote(x.Value)
			if err != nil {
				s.fail(e, "string %s", x.Value)
			}
			return SV{V: c.Str(v), T: types.Typ[types.String]}
		case token.CHAR:
			v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			if err != nil {
				s.fail(e, "char %s", x.Value)
			}
			return SV{V: c.Int(int64(v)), T: types.Typ[types.Byte]}
		}
	case *ast.Ident:
		if v, ok := s.env[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return SV{V: c.True(), T: types.Typ[types.Bool]}
		case "false":
			return SV{V: c.False(), T: types.Typ[types.Bool]}
		case "nil":
			return SV{V: c.Int(0), T: types.Typ[types.UntypedNil]}
		}
		if o := s.m.pkg.Scope().Lookup(x.Name); o != nil {
			return s.object(e, o)
		}
		if strings.HasPrefix(x.Name, "ghost_") {
			g := strings.TrimPrefix(x.Name, "ghost_")
			t, ok := s.st.ghost[g]
			if !ok {
				t = u.ghostInit(g, u.ghostSort(g))
			}
			switch t.sort {
			case SStr:
				return SV{V: t, T: strT}
			case SBool:
				return SV{V: t, T: types.Typ[types.Bool]}
			}
			return SV{V: t, T: types.NewSlice(types.Typ[types.Int]), seq: true}
		}
		s.fail(e, "unknown name %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, loc := s.env[id.Name]; !loc {
				if p := s.m.importNamed(id.Name); p != nil && s.m.pkg.Scope().Lookup(id.Name) == nil {
					if o := p.Scope().Lookup(x.Sel.Name); o != nil {
						return s.object(e, o)
					}
				}
			}
		}
		return s.field(e, s.eval(x.X), x.Sel.Name)
	case *ast.StarExpr:
		v := s.eval(x.X)
		T := derefT(v.T)
		return SV{V: u.readObj(s.st, u.term(v.V), T, "", T), T: T}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return SV{V: c.Not(s.boolT(x.X)), T: types.Typ[types.Bool]}
		case token.SUB:
			return SV{V: c.Sub(c.Int(0), s.scalar(s.eval(x.X))), T: types.Typ[types.Int]}
		case token.AND:
			cl, ok := x.X.(*ast.CompositeLit)
			if !ok {
				s.fail(e, "& of non-literal")
			}
			T, err := s.m.resolveType(cl.Type)
			if err != nil {
				s.fail(e, "%v", err)
			}
			return SV{V: s.mkStruct(cl, T), T: types.NewPointer(T)}
		}
	case *ast.CompositeLit:
		T, err := s.m.resolveType(x.Type)
		if err != nil {
			s.fail(e, "%v", err)
		}
		if et := elemTypeOf(T); et != nil {
			out := c.Empty(seqOf(u.elemSort(et)))
			for _, el := range x.Elts {
				out = c.Concat(out, c.Unit(u.term(s.coerce(s.eval(el), et))))
			}
			return SV{V: out, T: T, seq: true}
		}
		s.fail(e, "struct value literal")
	case *ast.TypeAssertExpr:
		v := s.eval(x.X)
		T, err := s.m.resolveType(x.Type)
		if err != nil {
			s.fail(e, "%v", err)
		}
		return SV{V: u.unIface(u.term(v.V), T), T: T}
	case *ast.IndexExpr:
		v := s.eval(x.X)
		i := s.scalar(s.eval(x.Index))
		if isStringT(v.T) && !v.seq {
			return SV{V: u.strAt(u.term(v.V), i), T: types.Typ[types.Byte]}
		}
		et := elemTypeOf(v.T)
		r := c.Nth(s.cont(v), i)
		u.typeFacts(r, et)
		u.elemInv(s.st, r, et)
		if isStructT(et) {
			return SV{V: u.unbox(et, r), T: et}
		}
		return SV{V: r, T: et}
	case *ast.SliceExpr:
		v := s.eval(x.X)
		cont := s.cont(v)
		lo, hi := c.Int(0), c.Len(cont)
		if x.Low != nil {
			lo = s.scalar(s.eval(x.Low))
		}
		if x.High != nil {
			hi = s.scalar(s.eval(x.High))
		}
		if isStringT(v.T) {
			return SV{V: u.substr(cont, lo, hi), T: v.T}
		}
		return SV{V: u.subSeq(cont, lo, hi, c.Len(cont)), T: v.T, seq: true}
	case *ast.BinaryExpr:
		return s.binary(x)
	case *ast.CallExpr:
		return s.call(x)
	}
	s.fail(e, "unsupported expression %T %s", e, exprStr(e))
	return SV{}
}

func (u *Unit) contentOf(st *State, h *Term, elem types.Type) *Term {
	return u.cont(u.mget(st, elem), h)
}

func (s *specCtx) object(e ast.Expr, o types.Object) SV {
	u := s.u
	switch k := o.(type) {
	case *types.Const:
		return SV{V: u.constVal(ssa.NewConst(k.Val(), k.Type())), T: k.Type()}
	case *types.Var:
		if p := u.pr.prog.ImportedPackage(k.Pkg().Path()); p != nil {
			if g, ok := p.Members[k.Name()].(*ssa.Global); ok {
				return SV{V: u.loadGlobal(s.st, &Addr{kind: 'g', g: g, T: k.Type()}), T: k.Type()}
			}
		}
	}
	s.fail(e, "unsupported object %v", o)
	return SV{}
}

func (s *specCtx) field(e ast.Expr, v SV, name string) SV {
	u := s.u
	obj, idx, _ := types.LookupFieldOrMethod(v.T, true, s.m.pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		s.fail(e, "no field %s in %v", name, v.T)
	}
	_ = idx
	switch x := v.V.(type) {
	case *StructV:
		return SV{V: structField(x, name), T: f.Type()}
	case *Addr:
		return SV{V: u.load(s.st, &Addr{kind: x.kind, ref: x.ref, root: x.root, path: join(x.path, name), T: f.Type(), h: x.h, idx: x.idx, elem: x.elem, g: x.g}, f.Type(), ""), T: f.Type()}
	}
	root := derefT(v.T)
	r := u.readObj(s.st, u.term(v.V), root, name, f.Type())
	return SV{V: r, T: f.Type()}
}

func (s *specCtx) mkStruct(cl *ast.CompositeLit, T types.Type) *Term {
	u := s.u
	vals := map[string]SV{}
	for _, el := range cl.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			s.fail(cl, "field names needed")
		}
		vals[kv.Key.(*ast.Ident).Name] = s.eval(kv.Value)
	}
	var fs []*Term
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v, ok := vals[f.Name()]
		delete(vals, f.Name())
		if !ok {
			fs = append(fs, u.flatten(u.zero(f.Type()))...)
			continue
		}
		if et := elemTypeOf(f.Type()); et != nil {
			if isNilT(v.T) {
				fs = append(fs, u.c.Int(0))
			} else if v.seq {
				fs = append(fs, u.slOf(v.V.(*Term), et))
			} else {
				t := u.term(v.V)
				fs = append(fs, u.slOf(u.contentOf(s.st, t, et), et))
			}
			continue
		}
		fs = append(fs, u.flatten(s.coerce(v, f.Type()))...)
	}
	for n := range vals {
		s.fail(cl, "no field %s in %v", n, T)
	}
	return u.mkVal(T, fs)
}

func (s *specCtx) binary(x *ast.BinaryExpr) SV {
	u := s.u
	c := u.c
	B := types.Typ[types.Bool]
	switch x.Op {
	case token.LAND:
		return SV{V: c.And(s.boolT(x.X), s.boolT(x.Y)), T: B}
	case token.LOR:
		return SV{V: c.Or(s.boolT(x.X), s.boolT(x.Y)), T: B}
	}
	a, b := s.eval(x.X), s.eval(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := s.equal(x, a, b)
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return SV{V: r, T: B}
	case token.ADD:
		if a.seq || b.seq {
			return SV{V: c.Concat(s.cont(a), s.cont(b)), T: a.T, seq: true}
		}
		if isStringT(a.T) {
			return SV{V: c.Concat(u.term(a.V), u.term(b.V)), T: types.Typ[types.String]}
		}
		return SV{V: c.Add(u.term(a.V), u.term(b.V)), T: a.T}
	case token.SUB:
		return SV{V: c.Sub(u.term(a.V), u.term(b.V)), T: a.T}
	case token.LSS:
		return SV{V: c.Lt(u.term(a.V), u.term(b.V)), T: B}
	case token.LEQ:
		return SV{V: c.Le(u.term(a.V), u.term(b.V)), T: B}
	case token.GTR:
		return SV{V: c.Gt(u.term(a.V), u.term(b.V)), T: B}
	case token.GEQ:
		return SV{V: c.Ge(u.term(a.V), u.term(b.V)), T: B}
	}
	s.fail(x, "operator %s", x.Op)
	return SV{}
}

func (s *specCtx) equal(x ast.Expr, a, b SV) *Term {
	u := s.u
	c := u.c
	if a.T != nil && isNilT(a.T) {
		a, b = b, a
	}
	if b.T != nil && isNilT(b.T) {
		t := s.scalar(a)
		if t.sort == SIface {
			return c.Eq(c.TagOf(t), c.Int(0))
		}
		if a.seq {
			return c.Eq(c.Len(t), c.Int(0))
		}
		return c.Eq(t, c.Int(0))
	}
	if a.seq || b.seq || (elemTypeOf(a.T) != nil && elemTypeOf(b.T) != nil) {
		return c.Eq(s.cont(a), s.cont(b))
	}
	if isIfaceT(a.T) && !isIfaceT(b.T) {
		return u.eqVals(a.V, u.makeIface(b.V, b.T))
	}
	if isIfaceT(b.T) && !isIfaceT(a.T) {
		return u.eqVals(u.makeIface(a.V, a.T), b.V)
	}
	return u.eqVals(a.V, b.V)
}

func (s *specCtx) freshIdx() *Term {
	s.u.c.boundN++
	return s.u.c.mk("sym", fmt.Sprintf("_b%d", s.u.c.boundN), 0, SInt)
}

// bindElem binds name to element i of the list.
func (s *specCtx) bindElem(name string, S *Term, et types.Type, i *Term) *specCtx {
	u := s.u
	e := u.c.Nth(S, i)
	u.typeFacts(e, et)
	u.elemInv(s.st, e, et)
	var v Val = e
	if isStructT(et) {
		v = u.unbox(et, e)
	}
	return s.with(name, SV{V: v, T: et})
}

func identName(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	panic(unsupported{"spec: identifier expected"})
}

func (s *specCtx) call(x *ast.CallExpr) SV {
	u := s.u
	c := u.c
	B := types.Typ[types.Bool]
	if id, ok := x.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "len":
			v := s.eval(x.Args[0])
			if !v.seq && elemTypeOf(v.T) != nil {
				return SV{V: u.slen(u.term(v.V)), T: types.Typ[types.Int]}
			}
			return SV{V: c.Len(s.cont(v)), T: types.Typ[types.Int]}
		case "content":
			v := s.eval(x.Args[0])
			return SV{V: s.cont(v), T: v.T, seq: true}
		case "old":
			n := *s
			n.st = s.old
			v := n.eval(x.Args[0])
			if !v.seq && elemTypeOf(v.T) != nil {
				return SV{V: n.cont(v), T: v.T, seq: true}
			}
			return v
		case "implies":
			a := s.boolT(x.Args[0])
			return SV{V: c.Implies(a, s.boolT(x.Args[1])), T: B}
		case "iff":
			return SV{V: c.Eq(s.boolT(x.Args[0]), s.boolT(x.Args[1])), T: B}
		case "ite":
			cond := s.boolT(x.Args[0])
			a, b := s.eval(x.Args[1]), s.eval(x.Args[2])
			if a.seq || b.seq || (elemTypeOf(a.T) != nil && elemTypeOf(b.T) != nil) {
				return SV{V: c.Ite(cond, s.cont(a), s.cont(b)), T: a.T, seq: true}
			}
			T := a.T
			av, bv := a.V, b.V
			if isNilT(a.T) {
				T = b.T
				av = u.zero(T)
			} else if isNilT(b.T) {
				bv = u.zero(T)
			} else if isIfaceT(a.T) && !isIfaceT(b.T) {
				bv = u.makeIface(b.V, b.T)
			} else if isIfaceT(b.T) && !isIfaceT(a.T) {
				av = u.makeIface(a.V, a.T)
				T = b.T
			}
			m, ok := u.mergeVal(cond, av, bv)
			if !ok {
				s.fail(x, "ite branches")
			}
			return SV{V: m, T: T}
		case "let":
			return s.with(identName(x.Args[0]), s.eval(x.Args[1])).eval(x.Args[2])
		case "cat":
			var out *Term
			var T types.Type
			for _, a := range x.Args {
				v := s.eval(a)
				t := s.cont(v)
				if out == nil {
					out, T = t, v.T
				} else {
					out = c.Concat(out, t)
				}
			}
			return SV{V: out, T: T, seq: isSeq(out.sort)}
		case "flatmap", "mapcat", "filter", "find", "index", "exists", "all", "flatmapi", "indexi", "lastindex":
			v := s.eval(x.Args[0])
			S := s.cont(v)
			et := elemTypeOf(v.T)
			i := s.freshIdx()
			s2 := s
			k := 1
			if strings.HasSuffix(id.Name, "i") {
				s2 = s2.with(identName(x.Args[1]), SV{V: i, T: types.Typ[types.Int]})
				k = 2
			}
			s2 = s2.bindElem(identName(x.Args[k]), S, et, i)
			n := c.Len(S)
			switch id.Name {
			case "flatmap", "flatmapi":
				b := s2.eval(x.Args[k+1])
				bt := s2.cont(b)
				return SV{V: c.FM(n, i, bt), T: b.T, seq: isSeq(bt.sort)}
			case "filter":
				p := s2.boolT(x.Args[k+1])
				return SV{V: c.FM(n, i, c.Ite(p, c.Unit(c.Nth(S, i)), c.Empty(S.sort))), T: v.T, seq: true}
			}
			p := s2.boolT(x.Args[k+1])
			switch id.Name {
			case "index", "indexi":
				return SV{V: c.FI(n, i, p), T: types.Typ[types.Int]}
			case "lastindex":
				return SV{V: c.LI(n, i, p), T: types.Typ[types.Int]}
			case "exists":
				return SV{V: c.Lt(c.FI(n, i, p), n), T: B}
			case "all":
				return SV{V: c.Not(c.Lt(c.FI(n, i, c.Not(p)), n)), T: B}
			case "find":
				fi := c.FI(n, i, p)
				return SV{V: c.Ite(c.Lt(fi, n), c.Nth(S, fi), u.zeroTerm(et)), T: et}
			}
		case "count": // first i < n satisfying: count(i, n, pred)
			i := s.freshIdx()
			n := c.Inf()
			if !(len(x.Args) > 1 && exprStr(x.Args[1]) == "inf") {
				n = s.scalar(s.eval(x.Args[1]))
			}
			p := s.with(identName(x.Args[0]), SV{V: i, T: types.Typ[types.Int]}).boolT(x.Args[2])
			return SV{V: c.FI(n, i, p), T: types.Typ[types.Int]}
		case "repeat": // repeat(i, n, body)
			i := s.freshIdx()
			n := s.scalar(s.eval(x.Args[1]))
			b := s.with(identName(x.Args[0]), SV{V: i, T: types.Typ[types.Int]}).eval(x.Args[2])
			return SV{V: c.FM(n, i, s.cont(b)), T: b.T, seq: b.seq}
		case "fold": // fold(S, acc, x, init, body)
			v := s.eval(x.Args[0])
			S := s.cont(v)
			et := elemTypeOf(v.T)
			init := s.eval(x.Args[3])
			i := s.freshIdx()
			it := s.scalar(init)
			if et2 := elemTypeOf(init.T); et2 != nil {
				it = s.cont(init)
			}
			acc := c.mk("sym", "_acc"+i.name, 0, it.sort)
			s2 := s.bindElem(identName(x.Args[2]), S, et, i).with(identName(x.Args[1]), SV{V: acc, T: init.T, seq: isSeq(it.sort)})
			b := s2.eval(x.Args[4])
			bt := s2.scalar(b)
			if elemTypeOf(b.T) != nil {
				bt = s2.cont(b)
			}
			return SV{V: c.Fold(c.Len(S), it, acc, i, bt), T: init.T, seq: isSeq(it.sort)}
		case "foldn": // foldn(n, i, acc, init, body): acc over i = 0..n-1
			n := s.scalar(s.eval(x.Args[0]))
			init := s.eval(x.Args[3])
			i := s.freshIdx()
			it := s.scalar(init)
			acc := c.mk("sym", "_acc"+i.name, 0, it.sort)
			s2 := s.with(identName(x.Args[1]), SV{V: i, T: types.Typ[types.Int]}).with(identName(x.Args[2]), SV{V: acc, T: init.T})
			return SV{V: c.Fold(n, it, acc, i, s2.scalar(s2.eval(x.Args[4]))), T: init.T}
		case "upd": // upd(S, i, x): S with element i replaced
			v := s.eval(x.Args[0])
			et := elemTypeOf(v.T)
			e := u.term(s.coerce(s.eval(x.Args[2]), et))
			return SV{V: c.Upd(s.cont(v), s.scalar(s.eval(x.Args[1])), e), T: v.T, seq: true}
		case "sortslice": // sortslice(S, a, less): S ordered by sort.Slice with less(a, _)
			v := s.eval(x.Args[0])
			S := s.cont(v)
			et := elemTypeOf(v.T)
			i := s.freshIdx()
			b := s.bindElem(identName(x.Args[1]), S, et, i).boolT(x.Args[2])
			return SV{V: u.sortSlice(S, i, s.freshIdx(), b), T: v.T, seq: true}
		case "clone": // clone(p, Field, value, ...): a copy of *p with some fields replaced
			v := s.eval(x.Args[0])
			T := derefT(v.T)
			set := map[string]Val{}
			for k := 1; k+1 < len(x.Args); k += 2 {
				fn := identName(x.Args[k])
				set[fn] = s.coerce(s.eval(x.Args[k+1]), fieldOf(T, fn))
			}
			var fs []*Term
			st := T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if w, ok := set[f.Name()]; ok {
					fs = append(fs, u.flatten(w)...)
					continue
				}
				w := u.readObj(s.st, u.term(v.V), T, f.Name(), f.Type())
				if et := elemTypeOf(f.Type()); et != nil {
					fs = append(fs, u.slOf(u.contentOf(s.st, u.term(w), et), et))
					continue
				}
				fs = append(fs, u.flatten(w)...)
			}
			return SV{V: u.mkVal(T, fs), T: v.T}
		case "refof": // object inside an interface value
			return SV{V: c.RefOf(u.term(s.eval(x.Args[0]).V)), T: types.Typ[types.Int]}
		case "join": // join(sep, S): S list of strings or of values with a String method
			sep := s.scalar(s.eval(x.Args[0]))
			v := s.eval(x.Args[1])
			return SV{V: u.joinList(s.st, sep, s.cont(v), elemTypeOf(v.T)), T: types.Typ[types.String]}
		case "is":
			v := u.term(s.eval(x.Args[0]).V)
			T, err := s.m.resolveType(x.Args[1])
			if err != nil {
				s.fail(x, "%v", err)
			}
			return SV{V: c.Eq(c.TagOf(v), c.Tag(typeKey(T))), T: B}
		case "sametype":
			a, b := u.term(s.eval(x.Args[0]).V), u.term(s.eval(x.Args[1]).V)
			return SV{V: c.Eq(c.TagOf(a), c.TagOf(b)), T: B}
		case "err_is":
			return SV{V: u.errIs(s.scalar(s.eval(x.Args[0])), s.scalar(s.eval(x.Args[1]))), T: B}
		case "deepequal":
			a, b := s.eval(x.Args[0]), s.eval(x.Args[1])
			ta := u.makeIface(a.V, a.T).(*Term)
			tb := u.makeIface(b.V, b.T).(*Term)
			return SV{V: u.deepEq(ta, tb), T: B}
		case "iface": // iface(x): value boxed in an interface
			a := s.eval(x.Args[0])
			return SV{V: u.makeIface(a.V, a.T), T: types.NewInterfaceType(nil, nil)}
		case "charstr":
			return SV{V: u.convert(s.st, s.scalar(s.eval(x.Args[0])), types.Typ[types.Rune], types.Typ[types.String]), T: types.Typ[types.String]}
		case "defname":
		}
		if d := s.m.defs[id.Name]; d != nil {
			return s.callDef(x, d)
		}
		if effectBuiltins[id.Name] {
			var as []SV
			for _, a := range x.Args {
				as = append(as, s.eval(a))
			}
			if r, ok := s.effectSpec(id.Name, as); ok {
				return r
			}
		}
		// conversion
		if T, err := s.m.resolveType(id); err == nil && len(x.Args) == 1 {
			v := s.eval(x.Args[0])
			if isIfaceT(T) {
				return SV{V: s.coerce(v, T), T: T}
			}
			if elemTypeOf(T) != nil && v.seq {
				return SV{V: v.V, T: T, seq: true}
			}
			return SV{V: u.convert(s.st, v.V, v.T, T), T: T}
		}
		// pure package function
		if o, ok := s.m.pkg.Scope().Lookup(id.Name).(*types.Func); ok {
			return s.callFunc(x, o)
		}
		s.fail(x, "unknown function %s", id.Name)
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, loc := s.env[id.Name]; !loc {
				if p := s.m.importNamed(id.Name); p != nil {
					if o, ok := p.Scope().Lookup(sel.Sel.Name).(*types.Func); ok {
						return s.callFunc(x, o)
					}
				}
			}
		}
		recv := s.eval(sel.X)
		obj, _, _ := types.LookupFieldOrMethod(recv.T, true, s.m.pkg, sel.Sel.Name)
		f, ok := obj.(*types.Func)
		if !ok {
			s.fail(x, "no method %s on %v", sel.Sel.Name, recv.T)
		}
		sig := f.Type().(*types.Signature)
		var args []Val
		for _, a := range x.Args {
			args = append(args, s.eval(a).V)
		}
		if p := s.m.pure[f.Name()]; p != nil && (isIfaceT(recv.T) || u.pureOK(recv.T)) {
			rv := recv.V
			if !isIfaceT(recv.T) {
				rv = u.makeIface(recv.V, recv.T)
			}
			return SV{V: u.pureApp(s.st, f.Name(), rv.(*Term), args, sig.Results(), p), T: sig.Results().At(0).Type()}
		}
		fn := u.pr.prog.FuncValue(f)
		if fn != nil {
			if h := extHandler(fnName(fn)); h != nil {
				u.externs[fnName(fn)] = true
				return SV{V: h(u, s.st, fn.Signature, append([]Val{recv.V}, args...), "spec"), T: sig.Results().At(0).Type()}
			}
		}
		if isIfaceT(recv.T) {
			if h := extHandler("invoke:" + typeKey(recv.T) + "." + f.Name()); h != nil {
				return SV{V: h(u, s.st, sig, append([]Val{recv.V}, args...), "spec"), T: sig.Results().At(0).Type()}
			}
			if h := extHandler("invoke:" + f.Name()); h != nil {
				return SV{V: h(u, s.st, sig, append([]Val{recv.V}, args...), "spec"), T: sig.Results().At(0).Type()}
			}
		}
		s.fail(x, "method %s of %v is not pure", f.Name(), recv.T)
	}
	s.fail(x, "call %s", exprStr(x.Fun))
	return SV{}
}

func (u *Unit) pureOK(t types.Type) bool {
	n, ok := types.Unalias(derefT(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return contains(u.mod.pkgs, n.Obj().Pkg().Path())
}

func (s *specCtx) callFunc(x *ast.CallExpr, o *types.Func) SV {
	u := s.u
	sig := o.Type().(*types.Signature)
	var args []Val
	for i, a := range x.Args {
		v := s.eval(a)
		if i < sig.Params().Len() {
			args = append(args, s.coerce(v, sig.Params().At(i).Type()))
		} else {
			args = append(args, v.V)
		}
	}
	name := o.Pkg().Path() + "." + o.Name()
	if s.m.purefns[name] {
		var ts []*Term
		for i, a := range args {
			if sig.Variadic() && i >= sig.Params().Len()-1 {
				break
			}
			ts = append(ts, u.specArg(s.st, a, sig.Params().At(i).Type())...)
		}
		if sig.Variadic() {
			k := sig.Params().Len() - 1
			elem := sig.Params().At(k).Type().(*types.Slice).Elem()
			rest := u.c.Empty(seqOf(u.elemSort(elem)))
			for i := k; i < len(x.Args); i++ {
				rest = u.c.Concat(rest, u.c.Unit(u.term(s.coerce(s.eval(x.Args[i]), elem))))
			}
			ts = append(ts, rest)
		}
		return SV{V: u.pureExtResult(s.st, name, ts, sig.Results()), T: sig.Results().At(0).Type()}
	}
	if h := extHandler(name); h != nil {
		u.externs[name] = true
		return SV{V: h(u, s.st, sig, args, "spec"), T: sig.Results().At(0).Type()}
	}
	if p := s.m.pure[o.Name()]; p != nil && p.only["func"] {
		var ts []*Term
		for i, a := range x.Args {
			v := s.eval(a)
			if elemTypeOf(v.T) != nil {
				ts = append(ts, s.cont(v))
			} else {
				ts = append(ts, u.flatten(args[i])...)
			}
		}
		return SV{V: u.pureResult("f!"+o.Name(), ts, sig.Results(), p), T: sig.Results().At(0).Type()}
	}
	s.fail(x, "function %s is not available to specifications", name)
	return SV{}
}

func (s *specCtx) callDef(x *ast.CallExpr, d *DefSpec) SV {
	u := s.u
	if len(x.Args) != len(d.params) {
		s.fail(x, "%s wants %d arguments", d.name, len(d.params))
	}
	n := &specCtx{u: u, st: s.st, old: s.old, env: map[string]SV{}, m: s.m, open: s.open, depth: s.depth + 1}
	if n.depth > 60 {
		s.fail(x, "definition recursion")
	}
	var flat []*Term
	for i, a := range x.Args {
		v := s.eval(a)
		T, err := s.m.resolveType(d.ptypes[i])
		if err != nil {
			s.fail(x, "%v", err)
		}
		if elemTypeOf(T) != nil {
			if isNilT(v.T) {
				v = SV{V: u.c.Empty(seqOf(u.elemSort(elemTypeOf(T)))), T: T, seq: true}
			}
			v = SV{V: s.cont(v), T: T, seq: true}
		} else {
			v = SV{V: s.coerce(v, T), T: T}
		}
		n.env[d.params[i]] = v
		flat = append(flat, u.flatten(v.V)...)
	}
	if d.opaque && (d.rec || !s.open[d.name]) {
		RT, err := s.m.resolveType(d.rtype)
		if err != nil {
			s.fail(x, "%v", err)
		}
		if et := elemTypeOf(RT); et != nil {
			return SV{V: u.c.UF("def:"+d.name, seqOf(u.elemSort(et)), flat...), T: RT, seq: true}
		}
		r := u.c.UF("def:"+d.name, u.sortOf(RT), flat...)
		u.typeFacts(r, RT)
		if d.rec && s.open[d.name] && !u.unfolded[r] {
			u.unfolded[r] = true
			n.open = map[string]bool{}
			for k := range s.open {
				n.open[k] = k != d.name && s.open[k]
			}
			u.c.Fact(r, u.c.Eq(r, s.scalar(n.eval(d.body))))
		}
		return SV{V: r, T: RT}
	}
	r := n.eval(d.body)
	if d.rtype != nil {
		RT, err := s.m.resolveType(d.rtype)
		if err != nil {
			s.fail(x, "%v", err)
		}
		if elemTypeOf(RT) != nil {
			return SV{V: n.cont(r), T: RT, seq: true}
		}
		return SV{V: n.coerce(r, RT), T: RT}
	}
	return r
}

// ---- list printing helpers shared by code and specification

func (u *Unit) joinList(st *State, sep, S *Term, et types.Type) *Term {
	c := u.c
	c.boundN++
	i := c.mk("sym", fmt.Sprintf("_b%d", c.boundN), 0, SInt)
	e := c.Nth(S, i)
	var s *Term
	if e.sort == SStr {
		s = e
	} else {
		s = u.stringOf(st, e, et)
	}
	first := c.Ite(c.Eq(i, c.Int(0)), c.Str(""), sep)
	return c.FM(c.Len(S), i, c.Concat(first, s))
}

// stringOf is the String() of an element.
func (u *Unit) stringOf(st *State, e *Term, et types.Type) *Term {
	r := e
	if !isIfaceT(et) {
		r = u.makeIface(e, et).(*Term)
	}
	return u.c.UF("m!String", SStr, r)
}

func (u *Unit) deepEq(a, b *Term) *Term {
	if a == b {
		return u.c.True()
	}
	return u.c.UF("deepEqual", SBool, a, b)
}

// ---- contract application at call sites

func (u *Unit) applyContract(st *State, callee *ssa.Function, sp *FuncSpec, args []Val, pos string) Val {
	c := u.c
	u.called[sp.name] = true
	pre := st.clone()
	s := &specCtx{u: u, st: st, old: pre, env: map[string]SV{}, m: u.mod, open: map[string]bool{}}
	for i, p := range callee.Params {
		s.env[sp.params[i]] = SV{V: args[i], T: p.Type()}
	}
	for _, r := range sp.requires {
		u.oblige(st, "pre", pos, s.boolT(r.expr), shortName(sp.name)+" requires "+r.src)
	}
	for i, p := range callee.Params {
		if t, ok := args[i].(*Term); ok {
			u.checkComplete(st, t, p.Type(), pos)
		}
	}
	if u.mod.termination && u.mute == 0 && u.pr.reaches(callee, u.root) {
		goal := c.False()
		if sp.decreases != nil && u.spec.decreases != nil {
			m0, m1 := u.measure(u.entry), s.scalar(s.eval(sp.decreases.expr))
			goal = c.And(c.Ge(m0, c.Int(0)), c.Lt(m1, m0))
		}
		u.oblige(st, "terminates", pos, goal, "the recursive call has a smaller measure")
	}
	for _, md := range sp.modifies {
		s.havocLoc(md.expr, pos)
	}
	res := callee.Signature.Results()
	out := make([]Val, res.Len())
	bound := make([]bool, res.Len())
	used := map[*Clause]bool{}
	names := sp.results
	for len(names) < res.Len() {
		names = append(names, fmt.Sprintf("r%d", len(names)))
	}
	for i := 0; i < res.Len(); i++ {
		T := res.At(i).Type()
		for _, en := range sp.ensures {
			b, ok := en.expr.(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL {
				continue
			}
			l := b.X
			isContent := false
			if ce, ok := l.(*ast.CallExpr); ok {
				if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "content" {
					l = ce.Args[0]
					isContent = true
				}
			}
			id, ok := l.(*ast.Ident)
			if !ok || id.Name != names[i] {
				continue
			}
			v := s.eval(b.Y)
			if et := elemTypeOf(T); et != nil {
				if !isContent && !v.seq {
					out[i] = v.V
				} else {
					out[i] = u.newSlice(st, "ret", et, s.cont(v))
				}
			} else {
				out[i] = s.coerce(v, T)
			}
			bound[i] = true
			used[en] = true
			break
		}
		if !bound[i] {
			out[i] = u.freshVal("ret:"+callee.Name(), T)
			if et := elemTypeOf(T); et != nil {
				ct := c.Fresh("retc", seqOf(u.elemSort(et)))
				out[i] = u.newSlice(st, "ret", et, ct)
			}
		}
		s.env[names[i]] = SV{V: out[i], T: T}
	}
	for _, en := range sp.ensures {
		if used[en] {
			continue
		}
		if s.bindPost(en.expr, st) {
			continue
		}
		u.assume(st, s.boolT(en.expr))
	}
	return resultVal(out)
}

// bindPost turns "x.f == e" postconditions for modified locations into assignments.
func (s *specCtx) bindPost(e ast.Expr, st *State) bool { return s.bindPostIf(e, st, nil) }

// bindPostIf does so only where the location holds one of the given values.
func (s *specCtx) bindPostIf(e ast.Expr, st *State, only map[*Term]bool) bool {
	b, ok := e.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL {
		return false
	}
	if id, ok := b.X.(*ast.Ident); ok && strings.HasPrefix(id.Name, "ghost_") {
		if only != nil {
			return false
		}
		v := s.eval(b.Y)
		g := strings.TrimPrefix(id.Name, "ghost_")
		t := s.scalar(v)
		if isSeq(s.u.ghostSort(g).sort) {
			t = s.cont(v)
		}
		s.u.ghostSet(st, g, t)
		return true
	}
	sel, ok := b.X.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return false
	}
	base, ok := s.env[id.Name]
	if !ok {
		return false
	}
	u := s.u
	root := derefT(base.T)
	if !isStructT(root) || isStructT(base.T) {
		return false
	}
	ft := fieldOf(root, sel.Sel.Name)
	if only != nil {
		if _, ok := base.V.(*Addr); ok {
			return false
		}
		cur, ok := u.readObj(st, u.term(base.V), root, sel.Sel.Name, ft).(*Term)
		if !ok || !only[cur] {
			return false
		}
	}
	v := s.eval(b.Y)
	var val Val
	if et := elemTypeOf(ft); et != nil {
		h := u.newSlice(st, "post", et, s.cont(v))
		val = h
	} else {
		val = s.coerce(v, ft)
	}
	if a, ok := base.V.(*Addr); ok {
		n := *a
		n.path = join(a.path, sel.Sel.Name)
		n.T = ft
		if n.kind != 'f' {
			return false
		}
		u.writeObj(st, n.ref, n.root, n.path, ft, val, "", true)
		return true
	}
	u.writeObj(st, u.term(base.V), root, sel.Sel.Name, ft, val, "", true)
	return true
}

// elemsArg recognises elems(x), the elements of a list argument.
func elemsArg(e ast.Expr) (ast.Expr, bool) {
	if ce, ok := e.(*ast.CallExpr); ok {
		if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "elems" && len(ce.Args) == 1 {
			return ce.Args[0], true
		}
	}
	return nil, false
}

func (s *specCtx) havocLoc(e ast.Expr, pos string) {
	u := s.u
	if a, ok := elemsArg(e); ok {
		v := s.eval(a)
		et := elemTypeOf(v.T)
		u.elemStore(s.st, u.term(v.V), et, u.c.Fresh("modi", SInt), u.c.Fresh("modv", u.elemSort(et)), pos)
		return
	}
	sel, ok := e.(*ast.SelectorExpr)
	if !ok {
		if id, ok := e.(*ast.Ident); ok && strings.HasPrefix(id.Name, "ghost_") {
			g := strings.TrimPrefix(id.Name, "ghost_")
			u.recGhost(g)
			s.st.ghost[g] = u.c.Fresh("g_"+g, u.ghostSort(g).sort)
			return
		}
		s.fail(e, "modifies %s", exprStr(e))
	}
	base := s.eval(sel.X)
	root := derefT(base.T)
	ft := fieldOf(root, sel.Sel.Name)
	ref := u.term(base.V)
	if u.mod.frame && u.mod.isRigid(root) {
		u.oblige(s.st, "frame", pos, u.c.Bool(u.c.isAlloc[ref] || u.mayModify(ref, root, sel.Sel.Name)), "callee modifies only objects created here")
	}
	if elemTypeOf(ft) != nil && u.mod.frame {
		u.oblige(s.st, "frame", pos, u.own(u.term(u.readObj(s.st, ref, root, sel.Sel.Name, ft))), "list handed over for modification has a backing array of its own")
	}
	var v Val = u.freshVal("mod", ft)
	if et := elemTypeOf(ft); et != nil {
		v = u.newSlice(s.st, "mod", et, u.c.Fresh("modc", seqOf(u.elemSort(et))))
	}
	u.writeObj(s.st, ref, root, sel.Sel.Name, ft, v, pos, true)
}

func (u *Unit) mayModify(ref *Term, root types.Type, path string) bool {
	return u.modOK[hkey(root, path)+fmt.Sprint(ref.id)]
}

func selOf(e ast.Expr) (*ast.SelectorExpr, bool) {
	x, ok := e.(*ast.SelectorExpr)
	return x, ok
}
