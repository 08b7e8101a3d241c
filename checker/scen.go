package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- three-valued facts ----

type tri int

const (
	triF tri = iota
	triT
	triU
)

func (a tri) not() tri {
	switch a {
	case triT:
		return triF
	case triF:
		return triT
	}
	return triU
}
func triAnd(xs ...tri) tri {
	r := triT
	for _, x := range xs {
		if x == triF {
			return triF
		}
		if x == triU {
			r = triU
		}
	}
	return r
}
func triOr(xs ...tri) tri {
	r := triF
	for _, x := range xs {
		if x == triT {
			return triT
		}
		if x == triU {
			r = triU
		}
	}
	return r
}
func triB(b bool) tri {
	if b {
		return triT
	}
	return triF
}
func (a tri) String() string { return []string{"no", "yes", "undetermined"}[a] }

// ---- scenarios ----

// Scen: a schema with known keywords (symbolic values) compiled and applied to a symbolic document.
type Scen struct {
	P               *Program
	in              *Interp
	Name            string
	M, N            *Term
	Mm, Nm          *Term // as maps
	Na              *Term // N as array
	Ns              *Term // N as string
	Nn              *Term // N as number
	Draft           string
	has             map[string]bool
	keys            []string
	opt             map[string]string
	sks             map[string][]*Term
	zeroLen, posLen map[*Term]bool
	types           []string
	over            map[*Term]Val
	itemsAt         *Term

	defs   []func(a *Term) (uint32, bool)
	pre    map[*Term]uint32 // initial facts
	nodeOK []*Term          // well-formed subschema nodes
	marks  []mark

	autoDetect bool
	symLoc     bool // messages come from a symbolic locale
	validate   bool
	maxState   int
	deep       bool
	order      string
	canonSet   bool
	setup      func(sc *Scen)
}

type mark struct {
	t     *Term
	below []*Term // strictly below these
	line  string
}

var tMap = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
var tArr = types.NewSlice(types.NewInterfaceType(nil, nil))

const (
	sMap = "map[string]interface{}"
	sArr = "[]interface{}"
	sNum = "encoding/json.Number"
)

func newScen(P *Program, name, draft string, keys ...string) *Scen {
	in := P.newInterp()
	s := &Scen{P: P, in: in, Name: name, Draft: draft, has: map[string]bool{}, keys: keys, pre: map[*Term]uint32{},
		opt: map[string]string{}, sks: map[string][]*Term{}, zeroLen: map[*Term]bool{}, posLen: map[*Term]bool{}, over: map[*Term]Val{}}
	s.M, s.N = in.sym("M"), in.sym("N")
	s.Mm, s.Nm, s.Na, s.Ns, s.Nn = in.tml("as", sMap, s.M), in.tml("as", sMap, s.N), in.tml("as", sArr, s.N), in.tml("as", "string", s.N), in.tml("as", sNum, s.N)
	for _, k := range keys {
		s.has[k] = true
	}
	s.pre[in.typeAtom(s.M)] = kObject
	in.mapClose[s.Mm] = true
	if s.has[rootKW] {
		s.pre[in.typeAtom(s.M)] = kAll
	}
	for _, k := range keys {
		if k == rootKW {
			continue
		}
		in.mapKeys[s.Mm] = append(in.mapKeys[s.Mm], in.str(k))
	}
	in.defMask = func(a *Term) (uint32, bool) {
		m, ok := uint32(0xffffffff), false
		for _, d := range s.defs {
			if x, o := d(a); o {
				m &= x
				ok = true
			}
		}
		return m, ok
	}
	in.onInvoke = s.invoke
	in.onCall = func(st *State, fn *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
		if fn.Name() == "IsFormat" && fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), "FormatCheckerChain") && len(args) == 3 {
			return vbool(in.askBool(st, in.tm("fmtok", in.toTerm(st, args[1]), in.toTerm(st, args[2])))), true
		}
		return nil, false
	}
	in.recOf = func(fn *ssa.Function) int {
		if P.isRefWalk(fn) {
			return 0
		}
		return -1
	}
	return s
}

// kw: the value of a keyword.
func (s *Scen) kw(k string) *Term           { return s.in.tm("elem", s.Mm, s.in.str(k)) }
func (s *Scen) asArr(n *Term) *Term         { return s.in.tml("as", sArr, n) }
func (s *Scen) asMap(n *Term) *Term         { return s.in.tml("as", sMap, n) }
func (s *Scen) asStr(n *Term) *Term         { return s.in.tml("as", "string", n) }
func (s *Scen) asNum(n *Term) *Term         { return s.in.tml("as", sNum, n) }
func (s *Scen) asBool(n *Term) *Term        { return s.in.tml("as", "bool", n) }
func (s *Scen) rat(n *Term) *Term           { return s.in.tm("rat", s.asNum(n)) }
func (s *Scen) ratok(n *Term) *Term         { return s.in.tm("ratok", s.asNum(n)) }
func (s *Scen) elem(l, i *Term) *Term       { return s.in.tm("elem", l, i) }
func (s *Scen) V(schemaNode, n *Term) *Term { return s.in.tm("V", s.in.tm("compiled", schemaNode), n) }
func (s *Scen) PS(n *Term) *Term            { return s.in.tm("PS", n) }
func (s *Scen) fact(a *Term, m uint32)      { s.pre[a] = m }
func (s *Scen) def(f func(a *Term) (uint32, bool)) {
	s.defs = append(s.defs, f)
}

func (s *Scen) invoke(st *State, recv Val, m *types.Func, args []Val) (Val, bool) {
	r, ok := recv.(*Term)
	if !ok || r.Op != "sym" || m == nil {
		return nil, false
	}
	in := s.in
	if s.symLoc {
		if v, ok := localeInvoke(in, recv, m); ok {
			return v, true
		}
	}
	switch r.Lit {
	case "loaderS":
		switch m.Name() {
		case "LoadJSON":
			return VTuple{[]Val{s.M, VNil{}}}, true
		case "JsonReference":
			return VTuple{[]Val{in.tm("jref", in.str("#")), VNil{}}}, true
		case "LoaderFactory":
			return in.tml("nn", "factory"), true
		}
	case "loaderD":
		switch m.Name() {
		case "LoadJSON":
			return VTuple{[]Val{s.N, VNil{}}}, true
		}
	}
	return nil, false
}

// ---- three-valued queries at a state ----

func (s *Scen) tru(st *State, a *Term) tri {
	m := s.in.maskOf(st, a, bF|bT)
	switch m {
	case bT:
		return triT
	case bF:
		return triF
	}
	return triU
}

func (s *Scen) sub(m, sub uint32) tri {
	if m&sub == 0 {
		return triF
	}
	if m&^sub == 0 {
		return triT
	}
	return triU
}

func (s *Scen) kind(st *State, n *Term, sub uint32) tri { return s.sub(s.in.kindsOf(st, n), sub) }

func (s *Scen) cmp(st *State, a, b *Term, sub uint32) tri {
	in := s.in
	if a == b {
		return triB(sub&cEQ != 0)
	}
	if la, ok := in.lineOfT[a]; ok {
		if lb, ok := in.lineOfT[b]; ok && la == lb {
			ga, gb := in.groupIdx(in.lines[la], a), in.groupIdx(in.lines[la], b)
			return triB(sub&ordBits(ga < gb, ga == gb) != 0)
		}
	}
	at := in.cmpAtomRaw(a, b)
	if at.Args[0] != a {
		sub = flip(sub)
	}
	return s.sub(in.maskOf(st, at, 7), sub)
}

func (s *Scen) eq(st *State, a, b *Term) tri {
	if a == b {
		return triT
	}
	return s.tru(st, s.in.eqAtom(a, b))
}

func (s *Scen) draftIn(ds ...string) bool {
	for _, d := range ds {
		if d == s.Draft {
			return true
		}
	}
	return false
}

// ---- landmark lines ----

// orders: all weak orders of the marks of a line consistent with the constraints, zero first.
func (s *Scen) orders(line string) [][][]*Term {
	zero := s.in.num(0)
	var res [][][]*Term
	var rec func(groups [][]*Term, rest []*Term)
	below := map[*Term][]*Term{}
	var ms []*Term
	seen := map[*Term]bool{}
	for _, m := range s.marks {
		if m.line != line {
			continue
		}
		below[m.t] = append(below[m.t], m.below...)
		if !seen[m.t] {
			seen[m.t] = true
			ms = append(ms, m.t)
		}
	}
	rec = func(groups [][]*Term, rest []*Term) {
		if len(rest) == 0 {
			idx := map[*Term]int{}
			for g, ts := range groups {
				for _, t := range ts {
					idx[t] = g
				}
			}
			for t, bs := range below {
				for _, b := range bs {
					if idx[t] >= idx[b] {
						return
					}
				}
				if s.zeroLen[t] && idx[t] != 0 || s.posLen[t] && idx[t] == 0 {
					return
				}
			}
			var c [][]*Term
			for _, g := range groups {
				c = append(c, append([]*Term(nil), g...))
			}
			res = append(res, c)
			return
		}
		m := rest[0]
		for g := range groups {
			n := make([][]*Term, len(groups))
			copy(n, groups)
			n[g] = append(append([]*Term(nil), n[g]...), m)
			rec(n, rest[1:])
		}
		for g := 0; g < len(groups); g++ { // a new group after g
			var n [][]*Term
			n = append(n, groups[:g+1]...)
			n = append(n, []*Term{m})
			n = append(n, groups[g+1:]...)
			rec(n, rest[1:])
		}
	}
	rec([][]*Term{{zero}}, ms)
	return res
}

// layouts: number of combinations of orders of all lines.
func (s *Scen) layouts() int {
	n := 1
	for _, l := range s.lineNames() {
		n *= len(s.orders(l))
	}
	return n
}

func (s *Scen) lineNames() []string {
	var r []string
	seen := map[string]bool{}
	for _, m := range s.marks {
		if !seen[m.line] {
			seen[m.line] = true
			r = append(r, m.line)
		}
	}
	return r
}

// layout fixes the i-th combination.
func (s *Scen) layout(i int) {
	for _, l := range s.lineNames() {
		os := s.orders(l)
		gs := os[i%len(os)]
		i /= len(os)
		s.in.lines[l] = &Line{gs}
		for _, g := range gs {
			for _, t := range g {
				if t.Op != "const" {
					s.in.lineOfT[t] = l
				}
			}
		}
		var b []string
		for _, g := range gs {
			var x []string
			for _, t := range g {
				x = append(x, t.String())
			}
			b = append(b, strings.Join(x, "="))
		}
		s.order += " " + strings.Join(b, "<")
	}
}

// ---- running ----

type Outcome struct {
	st    *State
	err   Val // compile error or nil
	res   Val // result object
	rerr  Val
	order string
}

func (P *Program) draftConst(name string) int64 {
	c, ok := P.pkg.Members[name].(*ssa.NamedConst)
	if !ok {
		return -1
	}
	v, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
	return v
}

func (s *Scen) fieldIdx(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// newLoader builds the state after NewSchemaLoader with the chosen settings.
func (s *Scen) newLoader() (*State, VPtr, bool) {
	in := s.in
	st := in.newState()
	for k, v := range s.pre {
		st.facts[k] = v
	}
	if len(s.over) > 0 {
		st.over = map[*Term]Val{}
		for k, v := range s.over {
			st.over[k] = v
		}
	}
	f := s.P.fn("NewSchemaLoader")
	if f == nil {
		in.Undec["NewSchemaLoader"] = "missing"
		return nil, VPtr{}, false
	}
	in.enter(st, f, nil, nil)
	ex := in.run(st)
	if len(ex) != 1 {
		in.Undec["NewSchemaLoader"] = "not a single outcome"
		return nil, VPtr{}, false
	}
	st = ex[0]
	p, ok := st.ret.(VPtr)
	if !ok {
		in.Undec["NewSchemaLoader"] = "result"
		return nil, VPtr{}, false
	}
	t := s.P.namedType("SchemaLoader")
	o := *st.heap[p.O]
	v := o.V.(VStruct)
	nf := append([]Val(nil), v.F...)
	if s.Draft != "" {
		nf[s.fieldIdx(t, "Draft")] = vint(s.P.draftConst(s.Draft))
	}
	nf[s.fieldIdx(t, "AutoDetect")] = vbool(s.autoDetect)
	nf[s.fieldIdx(t, "Validate")] = vbool(s.validate)
	o.V = VStruct{nf}
	st.heap[p.O] = &o
	st.note("loader", p)
	delete(st.notes, "ret")
	return st, p, true
}

// compile runs Compile; the exits carry err in their note "cerr".
func (s *Scen) compile() []*State {
	in := s.in
	if s.maxState > 0 {
		in.maxState = s.maxState
	}
	st, p, ok := s.newLoader()
	if !ok {
		return nil
	}
	f := s.P.method("SchemaLoader", "Compile")
	if f == nil {
		in.Undec["Compile"] = "missing"
		return nil
	}
	in.enter(st, f, []Val{p, in.sym("loaderS")}, nil)
	ex := in.run(st)
	return ex
}

func (s *Scen) validateFrom(st0 *State) []*State {
	in := s.in
	st := st0.clone()
	t := st.ret.(VTuple)
	f := s.P.method("Schema", "Validate")
	st.note("schema", t.F[0])
	delete(st.notes, "ret")
	if s.symLoc {
		symLocale(s.P, in, st)
	}
	in.pureFrom = in.nextID
	in.onStore = in.noteImpure
	defer func() { in.onStore = nil }()
	in.enter(st, f, []Val{t.F[0], in.sym("loaderD")}, nil)
	return in.run(st)
}

// noteImpure records a write, during validation, to anything that existed before it: the compiled schema, the
// document, or package state that is not guarded by a lock.
func (in *Interp) noteImpure(st *State, ins ssa.Instruction, addr Val, what string) {
	if len(st.locks) > 0 {
		return // guarded caches and registries
	}
	old := ""
	switch x := addr.(type) {
	case VPtr:
		if x.O <= in.pureFrom {
			old = "an object that existed before validation"
			if o := st.heap[x.O]; o != nil && o.T != nil {
				old = "a " + in.typeStr(o.T) + " that existed before validation"
			}
		}
	case *Term:
		if !freshTerm(x) {
			old = x.String()
		}
	case VElem:
		switch l := x.L.(type) {
		case *Term:
			if !freshTerm(l) {
				old = l.String()
			}
		case *VList:
			if in.oldList(st, ins, l) {
				old = "a list of the compiled schema"
			}
		}
	}
	if old == "" {
		return
	}
	pos := ""
	if ins != nil {
		pos = ins.Parent().Name() + " " + in.pos(ins.Pos())
	}
	in.Impure[what+" to "+old+" in "+pos] = in.describe(st)
}

func freshTerm(t *Term) bool {
	switch t.Op {
	case "mkslice", "nn", "ret":
		return true
	case "fa", "elem", "f", "deref":
		return freshTerm(t.Args[0])
	}
	return false
}

// oldList: the list is held by an object that existed before.
func (in *Interp) oldList(st *State, ins ssa.Instruction, l *VList) bool {
	if s, ok := ins.(*ssa.Store); ok && len(st.frames) > 0 {
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
			switch x := ia.X.(type) {
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.FieldAddr); ok {
					f := st.top()
					if i, ok := f.info.num[a]; ok && f.env[i] != nil {
						if p, ok := f.env[i].(VPtr); ok {
							return p.O <= in.pureFrom
						}
						if t, ok := f.env[i].(*Term); ok {
							return !freshTerm(t)
						}
					}
				}
			}
		}
	}
	found := false
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case *VList:
			if x == l {
				found = true
			}
			for _, w := range x.Items {
				walk(w)
			}
		case VStruct:
			for _, w := range x.F {
				walk(w)
			}
		case VIface:
			walk(x.V)
		}
	}
	for id, o := range st.heap {
		if id <= in.pureFrom {
			if o.V != nil {
				walk(o.V)
			}
			for _, e := range o.Ents {
				walk(e.V)
			}
		}
	}
	return found
}

// ---- reading results ----

// pure evaluates a function on a copy of the state and returns its unique result.
func (s *Scen) pure(st *State, fn *ssa.Function, args ...Val) (Val, bool) {
	in := s.in
	n := st.clone()
	n.frames = nil
	sv, se, ns := in.seen, in.exits, in.nStates
	in.nStates = 0
	defer func() { in.seen, in.exits, in.nStates = sv, se, ns }()
	in.enter(n, fn, args, nil)
	ex := in.run(n)
	if len(ex) != 1 {
		return nil, false
	}
	return ex[0].ret, true
}

type errRec struct {
	tok     *VTok
	code    string
	codeT   Val
	ctx     []*Term
	ctxOK   bool
	value   Val
	details map[string]Val
	detOK   bool
	desc    Val
	fmtT    Val
	typ     string
	raw     Val
	pos     *Term
}

func (s *Scen) ctxPath(st *State, v Val) ([]*Term, bool) {
	var rev []*Term
	for i := 0; i < 20; i++ {
		p, ok := v.(VPtr)
		if !ok {
			if isNilVal(v) {
				break
			}
			return nil, false
		}
		sv, ok := st.heap[p.O].V.(VStruct)
		if !ok {
			return nil, false
		}
		ts := s.P.tCtx.Underlying().(*types.Struct)
		var tail Val = VNil{}
		for k := 0; k < ts.NumFields(); k++ {
			if isBasic(ts.Field(k).Type(), types.IsString) {
				rev = append(rev, s.in.toTerm(st, sv.F[k]))
			}
			if isPtrToNamed(ts.Field(k).Type(), s.P.tCtx) {
				tail = sv.F[k]
			}
		}
		v = tail
	}
	var r []*Term
	for i := len(rev) - 1; i >= 0; i-- {
		r = append(r, rev[i])
	}
	return r, true
}

func pathStr(p []*Term) string {
	var s []string
	for _, t := range p {
		s = append(s, t.String())
	}
	return strings.Join(s, "/")
}

func (s *Scen) errors(st *State, res Val) ([]errRec, bool) {
	p, ok := res.(VPtr)
	if !ok {
		return nil, false
	}
	sv, ok := s.in.getPath(st.heap[p.O].V, splitPath(p.Path), nil).(VStruct)
	if !ok {
		return nil, false
	}
	l, ok := listOf(sv.F[s.P.errField])
	if !ok {
		return nil, false
	}
	var r []errRec
	for _, t := range s.in.setToks(l) {
		r = append(r, s.errRec(st, t.V))
		r[len(r)-1].pos = t.Pos
	}
	return r, true
}

func (s *Scen) errRec(st *State, v Val) errRec {
	r := errRec{raw: v, code: "?"}
	switch x := v.(type) {
	case VTok:
		r.tok = &x
		r.code = "sub"
		r.ctx, r.ctxOK = s.ctxPath(st, x.Ctx)
		return r
	case VIface:
		r.typ = types.TypeString(x.T, func(*types.Package) string { return "" })
		get := func(name string) Val {
			m := s.P.prog.LookupMethod(x.T, s.P.pkg.Pkg, name)
			if m == nil {
				return nil
			}
			v, ok := s.pure(st, m, x.V)
			if !ok {
				return nil
			}
			return v
		}
		r.codeT = get("Type")
		if c, ok := constStr(r.codeT); ok {
			r.code = c
		}
		r.ctx, r.ctxOK = s.ctxPath(st, get("Context"))
		r.value = get("Value")
		r.desc = get("Description")
		r.fmtT = get("DescriptionFormat")
		if d, ok := get("Details").(VPtr); ok {
			o := st.heap[d.O]
			if o.Kind == oMap && o.Any == nil {
				r.details = map[string]Val{}
				r.detOK = true
				for _, e := range o.Ents {
					if k, ok := constStr(e.K); ok {
						r.details[k] = e.V
					} else {
						r.detOK = false
					}
				}
			}
		}
	}
	return r
}

func (r *errRec) String() string {
	if r.tok != nil {
		return fmt.Sprintf("errors of %s on %s", r.tok.S, r.tok.N)
	}
	var ds []string
	for k, v := range r.details {
		ds = append(ds, k+"="+valStr(v))
	}
	sort.Strings(ds)
	return fmt.Sprintf("%s{%s} value=%s at %s", r.code, strings.Join(ds, ","), valStr(r.value), pathStr(r.ctx))
}

func valStr(v Val) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case VC:
		return x.K.ExactString()
	case VIface:
		return valStr(x.V)
	case VNil:
		return "nil"
	case nil:
		return "?"
	}
	return fmt.Sprintf("%T", v)
}
