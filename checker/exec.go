package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Program is the loaded package, shared by all analyses.
type Program struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	fset  *token.FileSet
	dir   string
	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo
	inert map[*ssa.Function]map[int]bool
	mods  map[*ssa.Function]map[string]bool
	files map[string][]byte

	baseHeap   map[int]*Obj
	globals    map[*ssa.Global]int
	globalList []int
	baseNext   int

	tpkg                 *packages.Package
	tResult, tCtx        types.Type
	tSchema, tSub        types.Type
	rootField            int
	errField, scoreField int
	moreInts             bool // the result has several numbers
	fnFormat             *ssa.Function
	fnCtxString          *ssa.Function
	fnList               []*ssa.Function
	cg                   map[*ssa.Function][]*ssa.Function
	recMemo              map[*ssa.Function]bool
	modMemo              map[int]bool
	initOK               bool
	initUndec            map[string]string
	initPanics           map[string]string
	initFacts            map[*Term]uint32
	initTT               *termTab
}

type Line struct{ groups [][]*Term }

// Interp is one abstract interpretation (one scenario).
type Interp struct {
	trackScore bool             // scores of sub-results are compared (for the closest match)
	fixed      map[*Term]*VList // arrays of the input with a given number of elements
	P          *Program
	tt         *termTab
	base       map[int]*Obj
	globalIDs  []int
	roots      []int
	nextID     int
	cbuf       []byte

	lines     map[string]*Line
	lineOfT   map[*Term]string
	mapKeys   map[*Term][]*Term
	mapClose  map[*Term]bool
	mapOpt    map[*Term]bool // keys that may be absent
	rngOf     map[string]*Term
	tstr      map[types.Type]string
	tight     bool // small shapes: lists and maps have the designated elements only
	deadline  time.Time
	defMask   func(a *Term) (uint32, bool)
	onCall    func(st *State, fn *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool)
	onInvoke  func(st *State, recv Val, m *types.Func, args []Val) (Val, bool)
	onStore   func(st *State, ins ssa.Instruction, addr Val, what string)
	onAccess  func(st *State, addr Val, write bool)
	onDyn     func(st *State, cc *ssa.CallCommon)
	onWalk    func(st *State, node *Term, rest []*Term)
	onLock    func(st *State, op, name string)
	walkErr   bool
	noOpaque  bool
	noGrow    bool
	inlineRec func(st *State, fn *ssa.Function, args []Val, n int) bool
	maxRec    int
	recOf     func(fn *ssa.Function) int
	initMode  bool
	pureFrom  int
	maxState  int

	hPos func(VPos) VPos
	hCnt func(VCnt) VCnt
	hImg func(*Img) *Img
	hBag func([]Val) []Val

	seen   map[uint64x2]bool
	exits  []*State
	Panics map[string]string
	// properties that a panic breaks besides C12
	panicProps []string
	compiling  map[string]bool // panics outside Schema.Validate
	compileC13 bool            // and those break C13
	Undec      map[string]string
	Impure     map[string]string
	Known      map[string]string // constructs that are known defects
	nStates    int
	nSteps     int
	fns        map[*ssa.Function]bool
	ext        map[string]int
	curIns     ssa.Instruction
	events     map[string]int
}

func (P *Program) newInterp() *Interp {
	in := &Interp{P: P, tt: P.initTT.clone(), base: P.baseHeap, globalIDs: P.globalList, nextID: P.baseNext + 1000,
		lines: map[string]*Line{}, lineOfT: map[*Term]string{}, mapKeys: map[*Term][]*Term{}, mapClose: map[*Term]bool{}, mapOpt: map[*Term]bool{}, rngOf: map[string]*Term{}, tstr: map[types.Type]string{},
		maxRec: 1, maxState: 60000, seen: map[uint64x2]bool{}, Panics: map[string]string{}, Undec: map[string]string{}, Known: map[string]string{}, Impure: map[string]string{},
		fns: map[*ssa.Function]bool{}, ext: map[string]int{}, events: map[string]int{}}
	return in
}

func (in *Interp) newState() *State {
	st := &State{heap: map[int]*Obj{}, facts: map[*Term]uint32{}}
	for k, v := range in.base {
		st.heap[k] = v
	}
	return st
}

// ---- control: splits, panics, undecided ----

type splitFact struct {
	atom  *Term
	masks []uint32
}
type splitTape struct{ n int }
type undecided struct{ msg string }
type infeasible struct{}

func (in *Interp) undec(f string, a ...interface{}) { panic(undecided{fmt.Sprintf(f, a...)}) }

func (in *Interp) choose(st *State, n int) int {
	if n <= 0 {
		panic(infeasible{})
	}
	if n == 1 {
		return 0
	}
	if st.tpos < len(st.tape) {
		r := st.tape[st.tpos]
		st.tpos++
		return r
	}
	panic(splitTape{n})
}

// chooseTop: a condition on a value the analysis does not track. Scores steer which errors are quoted and may
// have any value; on a path that depends on anything else nothing is reported.
func (in *Interp) chooseTop(st *State, x VTop) bool {
	if !x.score() {
		in.imprecise(st, x.Why)
	} else if in.trackScore {
		st.facts[in.tm("untracked")] = bT
	}
	return in.choose(st, 2) == 0
}

func (x VTop) score() bool { return x.Why == "score" || x.Why == "accumulated" }

func (in *Interp) imprecise(st *State, why string) { st.facts[in.tml("imprecise", why)] = bT }

func (in *Interp) maskOf(st *State, atom *Term, full uint32) uint32 {
	if m, ok := st.facts[atom]; ok {
		return m
	}
	m := full
	if d, ok := in.builtinMask(st, atom); ok {
		m &= d
	}
	if in.defMask != nil {
		if d, ok := in.defMask(atom); ok {
			m &= d
		}
	}
	return m
}

// askSub: does the atom's value lie in sub? Splits the state when both are possible.
func (in *Interp) askSub(st *State, atom *Term, full, sub uint32) bool {
	m := in.maskOf(st, atom, full)
	if m&sub == 0 {
		if m == 0 {
			panic(infeasible{})
		}
		return false
	}
	if m&^sub == 0 {
		return true
	}
	if atom.old {
		return in.choose(st, 2) == 0
	}
	if groundRet(atom) {
		in.imprecise(st, "a library function on known arguments: "+atom.String())
	}
	panic(splitFact{atom, []uint32{m & sub, m &^ sub}})
}

func (in *Interp) assume(st *State, atom *Term, full, sub uint32) {
	m := in.maskOf(st, atom, full) & sub
	if m == 0 {
		panic(infeasible{})
	}
	if !atom.old {
		st.facts[atom] = m
	}
}

const (
	bF = 1
	bT = 2
	// json kinds
	kNil    = 1
	kBool   = 2
	kString = 4
	kNumber = 8
	kArray  = 16
	kObject = 32
	kAll    = 63
	// orderings
	cLT = 1
	cEQ = 2
	cGT = 4
)

var kindNames = []struct {
	m uint32
	s string
}{{kNil, "null"}, {kBool, "boolean"}, {kString, "string"}, {kNumber, "number"}, {kArray, "array"}, {kObject, "object"}}

func (in *Interp) askBool(st *State, atom *Term) bool { return in.askSub(st, atom, bF|bT, bT) }

// concreteJSON: a JSON value all of which is known (its numbers are small).
func concreteJSON(t *Term) bool {
	switch t.Op {
	case "const":
		return true
	case "mk", "map", "ent", "list":
		for _, x := range t.Args {
			if !concreteJSON(x) {
				return false
			}
		}
		return true
	}
	return false
}

// canonJSON: the text of a known JSON value after normalisation.
func canonJSON(t *Term) (string, bool) {
	n := 0
	for t.Op == "strof" || t.Op == "enc" || t.Op == "dec64" {
		if t.Op == "dec64" {
			n++
		}
		t = t.Args[0]
	}
	if n == 0 || t.Op != "mk" || !concreteJSON(t) {
		return "", false
	}
	var w func(t *Term) string
	w = func(t *Term) string {
		if t.Op == "mk" && strings.HasSuffix(t.Lit, "json.Number") {
			if s, ok := termStr(t.Args[0]); ok {
				f, _ := strconv.ParseFloat(s, 64)
				return strconv.FormatFloat(f, 'g', -1, 64)
			}
		}
		if t.Op == "const" {
			return t.String()
		}
		var xs []string
		for _, x := range t.Args {
			xs = append(xs, w(x))
		}
		if t.Op == "map" {
			sort.Strings(xs)
		}
		return t.Op + "(" + strings.Join(xs, ",") + ")"
	}
	return w(t), true
}

// builtinMask: consequences of other facts and of what terms mean.
func (in *Interp) builtinMask(st *State, a *Term) (uint32, bool) {
	switch a.Op {
	case "encfails", "decfails":
		t := a.Args[0]
		for t.Op == "enc" || t.Op == "dec64" {
			t = t.Args[0]
		}
		if t.Op == "mk" && concreteJSON(t) {
			return bF, true
		}
	case "rxok":
		if s, ok := termStr(a.Args[0]); ok {
			if _, err := regexp.Compile(s); err != nil {
				return bF, true
			}
			return bT, true
		}
	case "isnil":
		t := a.Args[0]
		if in.nonNilTerm(t) {
			return bF, true
		}
	case "has":
		M, k := a.Args[0], a.Args[1]
		if in.mapClose[M] {
			if k.Op == "const" {
				for _, q := range in.mapKeys[M] {
					if q == k {
						return bT, true
					}
				}
				return bF, true
			}
		}
		for _, q := range in.mapKeys[M] {
			if q == k && !in.mapOpt[a] {
				return bT, true
			}
		}
	case "PS":
		if in.kindsOf(st, a.Args[0])&(kObject|kBool) == 0 {
			return bF, true
		}
	case "eq":
		if x, ok := canonJSON(a.Args[0]); ok {
			if y, ok := canonJSON(a.Args[1]); ok {
				if x == y {
					return bT, true
				}
				return bF, true
			}
		}
		// a string equal to one constant differs from the others
		x, y := a.Args[0], a.Args[1]
		if in.otherKey(x, y) || in.otherKey(y, x) {
			return bF, true
		}
		if x.Op == "const" {
			x, y = y, x
		}
		if y.Op == "const" {
			for f, m := range st.facts {
				if f.Op == "eq" && f != a && m == bT {
					if (f.Args[0] == x && f.Args[1].Op == "const") || (f.Args[1] == x && f.Args[0].Op == "const") {
						return bF, true
					}
				}
			}
		} else if x != y {
			// two strings known to equal different constants; or the same
			cx, cy := in.knownConst(st, x), in.knownConst(st, y)
			if cx != nil && cy != nil {
				if cx == cy {
					return bT, true
				}
				return bF, true
			}
			if cx != nil {
				m := in.maskOf(st, in.eqAtom(y, cx), bF|bT)
				return m, true
			}
			if cy != nil {
				m := in.maskOf(st, in.eqAtom(x, cy), bF|bT)
				return m, true
			}
		}
	case "cmp":
		x, y := a.Args[0], a.Args[1]
		if m, ok := in.lenCmpMask(st, x, y); ok {
			return m, true
		}
		if m, ok := in.lenCmpMask(st, y, x); ok {
			return flip(m), true
		}
		if m := in.numMask(st, x, y) & in.runeMask(st, x, y) & flip(in.runeMask(st, y, x)); m != cLT|cEQ|cGT {
			return m, true
		}
	case "isint", "isint64", "ratok":
		// a literal strconv reads as an int64 is one
		s := a.Args[0]
		if a.Op != "ratok" {
			if s.Op != "rat" {
				break
			}
			s = s.Args[0]
		}
		if st.facts[in.tm("int64lit", s)] == bT {
			return bT, true
		}
	case "int64lit":
		if in.maskOf(st, in.tm("ratok", a.Args[0]), bF|bT) == bF {
			return bF, true
		}
		if r := in.tm("rat", a.Args[0]); st.facts[in.tm("isint", r)] == bF || st.facts[in.tm("isint64", r)] == bF {
			return bF, true
		}
	}
	return 0, false
}

// runeMask: a text has at most as many characters as bytes, and none just when it is empty.
func (in *Interp) runeMask(st *State, x, y *Term) uint32 {
	all := uint32(cLT | cEQ | cGT)
	if x.Op != "runes" && x.Op != "bytes" {
		return all
	}
	get := func(a, b *Term) uint32 {
		at := in.cmpAtomRaw(a, b)
		m, ok := st.facts[at]
		if !ok {
			return all
		}
		if at.Args[0] != a {
			m = flip(m)
		}
		return m
	}
	s := x.Args[0]
	switch x.Op {
	case "runes":
		if o := get(in.tm("bytes", s), y); o == cLT {
			return cLT
		} else if o&cGT == 0 {
			return cLT | cEQ
		}
	case "bytes":
		if o := get(in.tm("runes", s), y); o == cGT {
			return cGT
		} else if o&cLT == 0 {
			return cEQ | cGT
		}
	}
	if y.cv == nil {
		m, ok := st.facts[in.eqAtom(s, in.str(""))]
		if !ok {
			return all
		}
		if m == bT {
			return get(in.num(0), y)
		} else if m == bF && get(in.num(0), y)&cLT == 0 {
			return cGT
		}
	}
	return all
}

// numMask: what rounding to float64 and comparisons with a common constant tell about the order of x and y.
func (in *Interp) numMask(st *State, x, y *Term) uint32 {
	all := uint32(cLT | cEQ | cGT)
	get := func(a, b *Term) uint32 {
		if a.cv != nil && b.cv != nil {
			return ordBits(constant.Compare(a.cv, token.LSS, b.cv), constant.Compare(a.cv, token.EQL, b.cv))
		}
		at := in.cmpAtomRaw(a, b)
		m, ok := st.facts[at]
		if !ok {
			return all
		}
		if at.Args[0] != a {
			m = flip(m)
		}
		return m
	}
	m := all
	xl, yl := x.Op == "f64", y.Op == "f64"
	switch {
	case xl && yl || xl && y.cv != nil || yl && x.cv != nil:
		// rounding is monotone
		a, b := x, y
		if xl {
			a = x.Args[0]
		}
		if yl {
			b = y.Args[0]
		}
		ex := (!xl || st.facts[in.tm("exact64", a)] == bT) && (!yl || st.facts[in.tm("exact64", b)] == bT)
		switch o := get(a, b); {
		case ex:
			m &= o
		case o&cGT == 0:
			m &= cLT | cEQ
		case o&cLT == 0:
			m &= cEQ | cGT
		}
	case !xl && !yl && x.Op != "float" && y.Op != "float":
		fx, fy := x, y
		if x.cv == nil {
			fx = in.tm("f64", x)
		}
		if y.cv == nil {
			fy = in.tm("f64", y)
		}
		if x.cv == nil || y.cv == nil {
			o := get(fx, fy)
			ex := (x.cv != nil || st.facts[in.tm("exact64", x)] == bT) && (y.cv != nil || st.facts[in.tm("exact64", y)] == bT)
			switch {
			case ex:
				m &= o
			case o&(cEQ|cGT) == 0:
				m &= cLT
			case o&(cLT|cEQ) == 0:
				m &= cGT
			}
		}
	}
	// through a constant
	if x.cv == nil && y.cv == nil {
		for f, fm := range st.facts {
			if f.Op != "cmp" {
				continue
			}
			var c *Term
			switch {
			case f.Args[0] == x && f.Args[1].cv != nil:
				c = f.Args[1]
			case f.Args[1] == x && f.Args[0].cv != nil:
				c = f.Args[0]
				fm = flip(fm)
			default:
				continue
			}
			o := get(y, c)
			switch {
			case fm == cLT && o&cLT == 0, fm&cGT == 0 && o == cGT:
				m &= cLT
			case fm == cGT && o&cGT == 0, fm&cLT == 0 && o == cLT:
				m &= cGT
			case fm == cEQ && o == cEQ:
				m &= cEQ
			}
		}
	}
	return m
}

func (in *Interp) knownConst(st *State, x *Term) *Term {
	if x.Op == "const" {
		return x
	}
	for f, m := range st.facts {
		if f.Op == "eq" && m == bT {
			if f.Args[0] == x && f.Args[1].Op == "const" {
				return f.Args[1]
			}
			if f.Args[1] == x && f.Args[0].Op == "const" {
				return f.Args[0]
			}
		}
	}
	return nil
}

// lenCmpMask: possible orderings of a length term x against constant y.
func (in *Interp) lenCmpMask(st *State, x, y *Term) (uint32, bool) {
	if y.Op != "const" || y.cv == nil || y.cv.Kind() != constant.Int {
		return 0, false
	}
	if x.Op == "cur" || x.Op == "old" || x.Op == "sk" {
		// an index found by a loop
		switch s := constant.Sign(y.cv); {
		case s < 0:
			return cGT, true
		case s == 0:
			return cEQ | cGT, true
		}
		return 0, false
	}
	if x.Op != "len" && x.Op != "runes" && x.Op != "bytes" {
		return 0, false
	}
	c, _ := constant.Int64Val(y.cv)
	if c < 0 {
		return cGT, true
	}
	lo, hi := int64(0), int64(-1) // hi -1: unbounded
	if ln, ok := in.lineOfT[x]; ok {
		g := in.groupIdx(in.lines[ln], x)
		if g > 0 {
			lo = int64(g)
		} else {
			hi = 0
		}
	} else if c != 0 {
		m := in.maskOf(st, in.cmpAtomRaw(x, in.num(0)), cLT|cEQ|cGT)
		if x.id > in.num(0).id {
			m = flip(m)
		}
		if m&cGT == m {
			lo = 1
		} else if m&cEQ == m {
			hi = 0
		}
	}
	if x.Op == "len" && x.Args[0].Op == "as" && in.mapKeys[x.Args[0]] != nil {
		lo = 0
		opt := int64(0)
		for _, q := range in.mapKeys[x.Args[0]] {
			if m := in.maskOf(st, in.tm("has", x.Args[0], q), bF|bT); m == bT {
				lo++
			} else if m&bT != 0 {
				opt++
			}
		}
		if in.mapClose[x.Args[0]] {
			hi = lo + opt
		}
	}
	m := uint32(cLT | cEQ | cGT)
	if lo > c {
		m = cGT
	} else if lo == c {
		m = cEQ | cGT
	}
	if hi >= 0 {
		if hi < c {
			m &= cLT
		} else if hi == c {
			m &= cLT | cEQ
		}
	}
	return m, true
}

func flip(m uint32) uint32 {
	r := m & cEQ
	if m&cLT != 0 {
		r |= cGT
	}
	if m&cGT != 0 {
		r |= cLT
	}
	return r
}

func (in *Interp) cmpAtomRaw(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return in.tm("cmp", a, b)
}

// askCmp: is the ordering of a relative to b in sub?
func (in *Interp) askCmp(st *State, a, b *Term, sub uint32) bool {
	if a == b {
		return sub&cEQ != 0
	}
	if a.cv != nil && b.cv != nil {
		return sub&ordBits(constant.Compare(a.cv, token.LSS, b.cv), constant.Compare(a.cv, token.EQL, b.cv)) != 0
	}
	if b.Op == "bytes" && a.cv != nil {
		a, b, sub = b, a, flip(sub)
	}
	if b.Op == "score" && a.cv != nil {
		a, b, sub = b, a, flip(sub)
	}
	if a.Op == "score" && b.cv != nil && b.cv.Kind() == constant.Int && constant.Compare(b.cv, token.LSS, constant.MakeInt64(-1<<30)) {
		return sub&cGT != 0
	}
	if a.Op == "bytes" && b.cv != nil && b.cv.Kind() == constant.Int {
		// the length of a string against nought
		switch n, _ := constant.Int64Val(b.cv); {
		case n < 0:
			return sub&cGT != 0
		case n == 0:
			if in.askEq(st, a.Args[0], in.str("")) {
				return sub&cEQ != 0
			}
			return sub&cGT != 0
		case n == 1 && (sub&(cEQ|cGT) == 0 || sub&(cEQ|cGT) == cEQ|cGT):
			if in.askEq(st, a.Args[0], in.str("")) {
				return sub&cLT != 0
			}
			return sub&(cEQ|cGT) != 0
		}
	}
	at := in.cmpAtomRaw(a, b)
	if at.Args[0] != a {
		sub = flip(sub)
	}
	return in.askSub(st, at, cLT|cEQ|cGT, sub)
}

func ordBits(lt, eq bool) uint32 {
	if lt {
		return cLT
	}
	if eq {
		return cEQ
	}
	return cGT
}

func (in *Interp) eqAtom(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return in.tm("eq", a, b)
}

func (in *Interp) askEq(st *State, a, b *Term) bool {
	if a == b && !a.old {
		return true
	}
	if a.cv != nil && b.cv != nil {
		return constant.Compare(a.cv, token.EQL, b.cv)
	}
	return in.askBool(st, in.eqAtom(a, b))
}

func (in *Interp) typeAtom(n *Term) *Term { return in.tm("type", n) }

func (in *Interp) kindsOf(st *State, n *Term) uint32 {
	if n.Op == "mk" {
		return kindOfTypeStr(n.Lit)
	}
	return in.maskOf(st, in.typeAtom(n), kAll)
}

func kindOfTypeStr(s string) uint32 {
	switch s {
	case "bool":
		return kBool
	case "string":
		return kString
	case "encoding/json.Number":
		return kNumber
	case "[]interface{}", "[]any":
		return kArray
	case "map[string]interface{}", "map[string]any":
		return kObject
	}
	return 0
}

func (in *Interp) askKind(st *State, n *Term, sub uint32) bool {
	if n.Op == "mk" {
		return kindOfTypeStr(n.Lit)&sub != 0
	}
	return in.askSub(st, in.typeAtom(n), kAll, sub)
}

func (in *Interp) nonNilTerm(t *Term) bool {
	switch t.Op {
	case "as", "err", "const", "compiled", "meta", "regexp", "tpl", "fresh", "nn", "global", "mk", "ref", "jref", "rt":
		return true
	}
	return false
}

// ---- lines and positions ----

func (in *Interp) groupIdx(l *Line, t *Term) int {
	for g, ts := range l.groups {
		for _, x := range ts {
			if x == t {
				return g
			}
		}
	}
	return -1
}

// lineFor returns the line of a length term (static, or dynamic with one landmark).
func (in *Interp) lineFor(st *State, t *Term) (string, bool) {
	if l, ok := in.lineOfT[t]; ok {
		return l, true
	}
	if t.Op == "len" && !t.old && len(t.curs) == 0 {
		return "d" + strconv.Itoa(t.id), true
	}
	if t.Op == "len" {
		return "d" + strconv.Itoa(t.id), true
	}
	return "", false
}

func (in *Interp) lineGroups(st *State, name string) [][]*Term {
	if l, ok := in.lines[name]; ok {
		return l.groups
	}
	id, _ := strconv.Atoi(name[1:])
	var t *Term
	for _, x := range in.tt.tab {
		if x.id == id {
			t = x
			break
		}
	}
	z := in.num(0)
	if in.askCmp(st, t, z, cEQ) {
		return [][]*Term{{z, t}}
	}
	return [][]*Term{{z}, {t}}
}

// posOn: position of an integer value on a line.
func (in *Interp) posOn(st *State, line string, gs [][]*Term, v Val) (int, bool) {
	switch x := v.(type) {
	case VPos:
		if x.Line == line {
			return x.P, true
		}
		if x.P == 0 {
			return 0, true // zero is on every line
		}
	case VC:
		if i, ok := constInt(x); ok {
			if i < 0 {
				return -1, true
			}
			if i == 0 {
				return 0, true
			}
		}
	case *Term:
		for g, ts := range gs {
			for _, t := range ts {
				if t == x {
					return 2 * g, true
				}
			}
		}
	}
	return 0, false
}

func (in *Interp) posTerm(st *State, p VPos) *Term {
	gs := in.lineGroups(st, p.Line)
	if p.P >= 0 && p.P%2 == 0 {
		for _, t := range gs[p.P/2] {
			if t.Op == "sk" {
				return t
			}
		}
		if p.P == 0 {
			return in.tml("cur", "z:"+p.Line)
		}
		return gs[p.P/2][0]
	}
	if strings.HasPrefix(p.Tag, "~") {
		return in.tml("old", p.Tag[1:])
	}
	return in.tml("cur", p.Tag)
}

func succPos(p, ngroups, dir int) []int {
	last := 2*(ngroups-1) + 1
	if dir > 0 {
		switch {
		case p == -1:
			return []int{-1, 0}
		case p == last:
			return []int{last}
		case p%2 == 0:
			if p+2 <= last {
				return []int{p + 1, p + 2}
			}
			return []int{p + 1}
		default:
			return []int{p, p + 1}
		}
	}
	switch {
	case p == -1:
		return []int{-1}
	case p == 0:
		return []int{-1}
	case p%2 == 0:
		return []int{p - 1, p - 2}
	default:
		return []int{p, p - 1}
	}
}

// retire: the loop with this tag moves to its next iteration.
func (in *Interp) retire(st *State, tag, line string) {
	cur, old := in.tml("cur", tag), in.tml("old", tag)
	m := map[*Term]*Term{cur: old}
	drop := map[string]bool{tag: true}
	if line != "" {
		hasSk := false
		if l, ok := in.lines[line]; ok {
			for _, t := range l.groups[0] {
				if t.Op == "sk" {
					hasSk = true
				}
			}
		}
		if !hasSk {
			m[in.tml("cur", "z:"+line)] = old
			drop["z:"+line] = true
		}
	}
	for f := range st.facts {
		for _, c := range f.curs {
			if drop[c] {
				delete(st.facts, f)
				break
			}
		}
	}
	memo := map[*Term]*Term{}
	in.hPos = func(p VPos) VPos {
		if p.Tag == tag {
			p.Tag = "~" + tag
		}
		if p.BTag == tag {
			p.BTag = "~" + tag
		}
		return p
	}
	in.hCnt = func(c VCnt) VCnt {
		if c.Tag == tag && c.Bound == nil {
			switch {
			case c.Pend == 1 && c.Def == 0:
			case c.Pend == 0 && c.Def <= 1:
				c.Def = 1
			case c.Pend == 1 && c.Def == 1:
			default:
				c.Def = 2
			}
			c.Pend = 0
		}
		return c
	}
	in.hBag = func(items []Val) []Val { return in.dedup(st, items) }
	in.hImg = func(i *Img) *Img {
		n := *i
		if n.Tag == tag && n.Bound == nil {
			switch {
			case n.Pend == 1 && n.Def == 0:
			case n.Pend == 0 && n.Def <= 1:
				n.Def = 1
			case n.Pend == 1 && n.Def == 1:
			default:
				n.Def = 2
			}
			n.Pend = 0
		}
		var toks []Tok
		for _, t := range n.Toks {
			dup := false
			for _, u := range toks {
				if u.Pos == t.Pos && in.bisim(st, u.V, t.V, map[[2]int]bool{}) {
					dup = true
					break
				}
			}
			if !dup {
				toks = append(toks, t)
			}
		}
		n.Toks = toks
		return &n
	}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if len(t.curs) == 0 {
			return t
		}
		return in.substM(t, m, memo)
	}
	// two passes: rename first, then remove duplicates among renamed objects
	hb, hi := in.hBag, in.hImg
	in.hBag, in.hImg = nil, nil
	in.mapState(st, f)
	in.hBag, in.hImg = hb, hi
	in.hPos, in.hCnt = nil, nil
	in.mapState(st, func(t *Term) *Term { return t })
	in.hBag, in.hImg = nil, nil
	for id, o := range st.heap {
		if in.base[id] == o || o.Kind != oMap || len(o.Ents) < 2 {
			continue
		}
		var es []Ent
		for _, e := range o.Ents {
			dup := false
			for _, u := range es {
				if u.Pos == e.Pos && in.bisim(st, u.K, e.K, map[[2]int]bool{}) && in.bisim(st, u.V, e.V, map[[2]int]bool{}) {
					dup = true
					break
				}
			}
			if !dup {
				es = append(es, e)
			}
		}
		if len(es) != len(o.Ents) {
			n := *o
			n.Ents = es
			st.heap[id] = &n
		}
	}
}

func (in *Interp) dedup(st *State, items []Val) []Val {
	var r []Val
	for _, v := range items {
		dup := false
		for _, u := range r {
			if in.bisim(st, u, v, map[[2]int]bool{}) {
				dup = true
				break
			}
		}
		if !dup {
			r = append(r, v)
		}
	}
	if len(r) == len(items) {
		return items
	}
	return r
}

// complete: the loop with this tag ran to its end (bound n).
func (in *Interp) complete(st *State, tag string, n *Term, src *Term) {
	in.hCnt = func(c VCnt) VCnt {
		if c.Tag == tag && c.Bound == nil {
			c.Bound = n
		}
		return c
	}
	in.hImg = func(i *Img) *Img {
		if i.Tag == tag && i.Bound == nil {
			m := *i
			m.Bound = n
			m.Src = src
			return &m
		}
		return i
	}
	in.mapState(st, func(t *Term) *Term { return t })
	in.hCnt, in.hImg = nil, nil
}

type active struct {
	tag   string
	pos   *Term
	first bool
}

func (in *Interp) loopTag(fi int, l *loopInfo, fn *ssa.Function) string {
	if l.step != nil {
		return fn.Name() + "." + l.step.Name() + "@" + strconv.Itoa(fi)
	}
	if l.rng != nil {
		return fn.Name() + "." + l.rng.Name() + "@" + strconv.Itoa(fi)
	}
	return ""
}

// iterPos: the name of the element an iteration over a set is at.
func (in *Interp) iterPos(it VIter, tag string) *Term {
	if it.Cur >= 0 {
		if t := in.setToks(it.L)[it.Cur]; in.mustVisit(it.L, t) {
			if t.Pos != nil {
				return t.Pos
			}
			return in.tml("tokpos", tag+"#"+strconv.Itoa(it.Cur))
		}
	}
	return in.tml("cur", tag)
}

// activeLoop: the innermost unbounded loop whose body is being executed.
func (in *Interp) activeLoop(st *State) *active {
	if as := in.activeLoops(st, true); len(as) > 0 {
		return as[0]
	}
	return nil
}

// activeLoopAt: the loop whose current element is named k, or else the innermost one.
func (in *Interp) activeLoopAt(st *State, k *Term) *active {
	as := in.activeLoops(st, false)
	for _, a := range as {
		if a.pos == k {
			return a
		}
	}
	if len(as) > 0 {
		return as[0]
	}
	return nil
}

func (in *Interp) activeLoops(st *State, one bool) []*active {
	var r []*active
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		for _, l := range f.info.inLp[f.blk] {
			if l.step != nil {
				var v Val
				if l.inHd {
					v = f.env[f.info.num[l.step]]
				} else {
					v = f.env[f.info.num[l.phi]]
				}
				switch p := v.(type) {
				case VPos:
					r = append(r, &active{in.loopTag(i, l, f.fn), in.posTerm(st, p), p.P == 0 || p.BP > 0 && p.P == p.BP-1 && p.P%2 == 0})
				case VIter:
					r = append(r, &active{in.loopTag(i, l, f.fn), in.iterPos(p, in.loopTag(i, l, f.fn)), p.First})
				}
			}
			if l.rng != nil {
				if ip, ok := f.env[f.info.num[l.rng.Iter]].(VPtr); ok {
					o := st.heap[ip.O]
					if o.Ghost["mode"] != nil {
						pt, _ := o.Ghost["key"].(*Term)
						r = append(r, &active{o.Tag, pt, o.Ghost["first"] != nil})
					}
				}
			}
			if one && len(r) > 0 {
				return r
			}
		}
	}
	return r
}

// ---- heap ----

func (in *Interp) alloc(st *State, o *Obj) VPtr {
	in.nextID++
	st.heap[in.nextID] = o
	return VPtr{O: in.nextID}
}

func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	return !strings.HasSuffix(n.Obj().Pkg().Path(), "gojsonschema")
}

func (in *Interp) zero(t types.Type) Val {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vbool(false)
		case u.Info()&types.IsString != 0:
			return vstr("")
		case u.Info()&types.IsNumeric != 0:
			return vint(0)
		}
		return VNil{}
	case *types.Struct:
		if opaqueStruct(t) {
			return in.zeroOpaque(t)
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = in.zero(u.Elem())
		}
		return VStruct{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = in.zero(u.At(i).Type())
		}
		return VTuple{f}
	}
	return VNil{}
}

func (in *Interp) zeroOpaque(t types.Type) Val {
	switch t.String() {
	case "math/big.Rat", "math/big.Int":
		return in.num(0)
	}
	return in.tml("zero", t.String())
}

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, s := range strings.Split(p[1:], "/") {
		i, _ := strconv.Atoi(s)
		r = append(r, i)
	}
	return r
}

func (in *Interp) getPath(v Val, path []int, t types.Type) Val {
	for _, i := range path {
		switch x := v.(type) {
		case VStruct:
			if i >= len(x.F) {
				in.undec("path")
			}
			v = x.F[i]
		case *Term:
			v = in.refField(x, i)
		case VTop:
			return x
		default:
			in.undec("field of %T", v)
		}
	}
	return v
}

func (in *Interp) setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case VStruct:
		f := append([]Val(nil), x.F...)
		f[path[0]] = in.setPath(f[path[0]], path[1:], nv)
		return VStruct{f}
	case *Term:
		return in.tml("with", strconv.Itoa(path[0]), x, in.toTerm(nil, nv))
	}
	return VTop{"store into " + fmt.Sprintf("%T", v)}
}

func (in *Interp) load(st *State, p Val, t types.Type) Val {
	if in.onAccess != nil {
		in.onAccess(st, p, false)
	}
	switch x := p.(type) {
	case VPtr:
		o := st.heap[x.O]
		if o == nil {
			in.undec("dangling object")
		}
		if o.V == nil {
			in.undec("load of non-cell")
		}
		return in.getPath(o.V, splitPath(x.Path), o.T)
	case *Term:
		if v, ok := st.over[x]; ok {
			return v
		}
		if x.Op == "fa" {
			return in.tml("f", x.Lit, x.Args[0])
		}
		return in.tm("deref", x)
	case VElem:
		return in.getPath(in.elemAt(st, x.L, x.I), splitPath(x.Path), nil)
	case VUrl:
		u := in.tm("urlof", in.toTerm(st, in.load(st, x.P, nil)))
		if x.F == "" {
			return u
		}
		return in.urlField(u, x.F)
	case VTop:
		return x
	}
	in.undec("load through %T", p)
	return nil
}

func (in *Interp) store(st *State, ins ssa.Instruction, p Val, v Val) {
	if in.onAccess != nil {
		in.onAccess(st, p, true)
	}
	switch x := p.(type) {
	case VPtr:
		o := st.heap[x.O]
		if o == nil {
			in.undec("dangling object")
		}
		n := *o
		path := splitPath(x.Path)
		if len(path) > 0 {
			// numbers accumulated in structures (scores) are not tracked
			if _, isC := v.(VC); isC && ins != nil {
				if s, ok := ins.(*ssa.Store); ok && isIntT(s.Val.Type()) {
					if _, isB := s.Val.(*ssa.BinOp); isB {
						v = VTop{"accumulated"}
					}
				}
			}
		}
		n.V = in.setPath(o.V, path, v)
		st.heap[x.O] = &n
		if in.onStore != nil && !sameVal(n.V, o.V) {
			in.onStore(st, ins, p, "store")
		}
		return
	case *Term:
		if in.onStore != nil {
			in.onStore(st, ins, p, "store")
		}
		no := map[*Term]Val{}
		for k, w := range st.over {
			no[k] = w
		}
		no[x] = v
		st.over = no
		return
	case VElem:
		if in.onStore != nil {
			in.onStore(st, ins, p, "element store")
		}
		if in.storeElem(st, x, v) {
			return
		}
	case VUrl:
		c := in.toTerm(st, in.load(st, x.P, nil))
		in.store(st, nil, x.P, in.tml("withurl", x.F, c, in.toTerm(st, v)))
		return
	}
	in.undec("store through %T", p)
}

// storeElem: element assignment to a list of known elements; every holder of the list sees it.
func (in *Interp) storeElem(st *State, x VElem, v Val) bool {
	l, ok := x.L.(*VList)
	i, ok2 := constInt(x.I)
	if !ok || !ok2 || l.Img != nil || l.Bag || i < 0 || int(i) >= len(l.Items) {
		return false
	}
	it := append([]Val(nil), l.Items...)
	it[i] = in.setPath(it[i], splitPath(x.Path), v)
	n := &VList{Items: it}
	for id, o := range st.heap {
		if o.V != nil {
			if w := swapList(o.V, l, n); !sameVal(w, o.V) {
				c := *o
				c.V = w
				st.heap[id] = &c
			}
		}
		for k, e := range o.Ents {
			if w := swapList(e.V, l, n); !sameVal(w, e.V) {
				c := *st.heap[id]
				c.Ents = append([]Ent(nil), c.Ents...)
				c.Ents[k].V = w
				st.heap[id] = &c
			}
		}
	}
	for _, f := range st.frames {
		for k, w := range f.env {
			if w != nil {
				f.env[k] = swapList(w, l, n)
			}
		}
	}
	return true
}

func swapList(v Val, a, b *VList) Val {
	sub := func(vs []Val) []Val {
		var r []Val
		for i, w := range vs {
			if x := swapList(w, a, b); !sameVal(x, w) {
				if r == nil {
					r = append([]Val(nil), vs...)
				}
				r[i] = x
			}
		}
		if r == nil {
			return vs
		}
		return r
	}
	switch x := v.(type) {
	case *VList:
		if x == a {
			return b
		}
		if it := sub(x.Items); !sameSlice(it, x.Items) {
			n := *x
			n.Items = it
			return &n
		}
	case VStruct:
		if it := sub(x.F); !sameSlice(it, x.F) {
			return VStruct{it}
		}
	case VTuple:
		if it := sub(x.F); !sameSlice(it, x.F) {
			return VTuple{it}
		}
	case VIface:
		if w := swapList(x.V, a, b); !sameVal(w, x.V) {
			return VIface{x.T, w}
		}
	case VElem:
		if l, ok := x.L.(*VList); ok && l == a {
			return VElem{b, x.I, x.Path}
		}
	}
	return v
}

// toTerm: a term standing for the current contents of a value.
func (in *Interp) toTerm(st *State, v Val) *Term { return in.toTermD(st, v, map[int]bool{}) }

func (in *Interp) toTermD(st *State, v Val, seen map[int]bool) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case VC:
		return in.cterm(x.K)
	case VNil:
		return in.tm("nil")
	case VIface:
		if l, ok := x.V.(*VList); ok && l.Orig != nil && l.Orig.Op == "as" {
			return l.Orig.Args[0]
		}
		return in.tml("mk", in.typeStr(x.T), in.toTermD(st, x.V, seen))
	case VPtr:
		if st == nil {
			return in.tm("ptr")
		}
		o := st.heap[x.O]
		if o == nil || seen[x.O] {
			return in.tm("ptr")
		}
		if g, ok := o.Ghost["from"]; ok {
			return in.tm("compiled", in.toTermD(st, g, seen))
		}
		if b, ok := in.base[x.O]; ok && b == o {
			return in.tml("global", strconv.Itoa(x.O)+x.Path)
		}
		seen[x.O] = true
		defer delete(seen, x.O)
		if o.Kind == oMap {
			var as []*Term
			for _, e := range o.Ents {
				as = append(as, in.tm("ent", in.toTermD(st, e.K, seen), in.toTermD(st, e.V, seen)))
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			return in.tm("map", as...)
		}
		return in.tm("ref", in.toTermD(st, in.getPath(o.V, splitPath(x.Path), o.T), seen))
	case VStruct:
		var as []*Term
		for _, f := range x.F {
			as = append(as, in.toTermD(st, f, seen))
		}
		return in.tm("struct", as...)
	case VTuple:
		var as []*Term
		for _, f := range x.F {
			as = append(as, in.toTermD(st, f, seen))
		}
		return in.tm("tuple", as...)
	case *VList:
		if x.Orig != nil {
			return x.Orig
		}
		var as []*Term
		for _, f := range x.Items {
			as = append(as, in.toTermD(st, f, seen))
		}
		op := "list"
		if x.Bag {
			op = "bag"
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		}
		if x.Img != nil {
			op = "img"
			as = nil
			for _, t := range x.Img.Toks {
				as = append(as, in.tm("tok", t.Pos, in.toTermD(st, t.V, seen)))
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		}
		return in.tm(op, as...)
	case VPos:
		if x.BP > 0 {
			return in.tml("op", "-", in.posTerm(st, x), in.posTerm(st, VPos{Line: x.Line, P: x.BP - 1, Tag: x.BTag}))
		}
		return in.posTerm(st, x)
	case VView:
		return in.tm("slice", x.L, in.posTerm(st, x.Lo), in.posTerm(st, x.Hi))
	case VCnt:
		return in.tml("count", strconv.Itoa(x.C))
	case VFn:
		return in.tml("fn", fmt.Sprint(x.Fn))
	case VTok:
		return in.tm("tok", x.S, x.N)
	case VFD:
		return in.tm("fd", x.Atom)
	case VIter:
		return in.tml("cur", x.Tag)
	case VUrl:
		return in.tm("urlptr", in.toTermD(st, x.P, seen))
	case nil:
		return in.tm("undef")
	}
	return in.tm("top")
}

func (in *Interp) mkIface(t types.Type, v Val) Val {
	if x, ok := v.(*Term); ok && x.Op == "as" && x.Lit == in.typeStr(t) {
		return x.Args[0]
	}
	return VIface{t, v}
}

// ---- elements of lists ----

func (in *Interp) elemAt(st *State, l Val, idx Val) Val {
	switch x := l.(type) {
	case *Term:
		switch i := idx.(type) {
		case VPos:
			gs := in.lineGroups(st, i.Line)
			if i.BP > 0 {
				in.undec("index relative to a part of the list")
			}
			if i.P < 0 {
				in.panicHere(st, "index out of range")
			}
			// is the position below the length of x?
			lt := in.tm("len", x)
			if g := in.groupIdx(&Line{gs}, lt); g >= 0 {
				if i.P >= 2*g {
					in.panicHere(st, "index out of range")
				}
			} else {
				in.mustIndex(st, x, in.posTerm(st, i))
			}
			return in.tm("elem", x, in.posTerm(st, i))
		case VC:
			n, _ := constInt(i)
			lt := in.tm("len", x)
			if n < 0 || !in.askCmp(st, lt, in.num(n), cGT) {
				in.panicHere(st, "index out of range")
			}
			if ln, ok := in.lineOfT[lt]; ok && n == 0 {
				return in.tm("elem", x, in.posTerm(st, VPos{Line: ln, P: 0}))
			}
			return in.tm("elem", x, in.num(n))
		}
		it := in.toTerm(st, idx)
		in.mustIndex(st, x, it)
		return in.tm("elem", x, it)
	case VView:
		p, ok := x.Lo, false
		switch i := idx.(type) {
		case VPos:
			if x.Lo.P == 0 && i.BP == 0 && (i.Line == x.Lo.Line || i.P == 0) || i.BP == x.Lo.P+1 && i.BTag == x.Lo.Tag && i.Line == x.Lo.Line {
				p, ok = i, true
				p.Line = x.Lo.Line
			}
		case VC:
			if n, isInt := constInt(i); isInt && n == 0 {
				ok = true
			} else if isInt && n < 0 {
				in.panicHere(st, "index out of range")
			}
		}
		if !ok || p.P == x.Hi.P && p.P%2 != 0 {
			in.undec("index into a part of a list")
		}
		if p.P < x.Lo.P || p.P >= x.Hi.P {
			in.panicHere(st, "index out of range")
		}
		return in.tm("elem", x.L, in.posTerm(st, p))
	case *VList:
		return in.listElem(st, x, idx)
	case VTop:
		return x
	}
	in.undec("index of %T", l)
	return nil
}

func (in *Interp) mustIndex(st *State, l *Term, i *Term) {
	if !in.askBool(st, in.tm("inrange", i, l)) {
		in.panicHere(st, "index out of range")
	}
}

func (in *Interp) listElem(st *State, l *VList, idx Val) Val {
	if l.Img == nil && !l.Bag {
		switch i := idx.(type) {
		case VC:
			n, _ := constInt(i)
			if n < 0 || int(n) >= len(l.Items) {
				in.panicHere(st, "index out of range")
			}
			return l.Items[n]
		case VPos:
			if i.P == 0 && len(l.Items) > 0 {
				return l.Items[0]
			}
		}
		in.undec("symbolic index into a known list")
	}
	if it, ok := idx.(VIter); ok {
		if it.Cur < 0 {
			in.panicHere(st, "index out of range")
		}
		toks := in.setToks(it.L)
		t := toks[it.Cur]
		if t.Pos != nil && t.Pos.Op == "old" {
			// the element is some other one: give it the identity of this iteration
			if m, ok := in.rngOf[t.Pos.Lit]; ok {
				in.rangeOver(it.Tag, m)
			}
			return in.instantiate(st, t.V, t.Pos, in.tml("cur", it.Tag))
		}
		return t.V
	}
	if l.Img != nil && l.Img.Bound != nil && l.Img.Def == 0 && len(l.Items) == 0 {
		if p, ok := idx.(VPos); ok {
			gs := in.lineGroups(st, p.Line)
			g := in.groupIdx(&Line{gs}, l.Img.Bound)
			if g < 0 {
				in.undec("index of another list")
			}
			if p.P < 0 || p.P >= 2*g {
				in.panicHere(st, "index out of range")
			}
			pt := in.posTerm(st, p)
			var rest []Tok
			for _, t := range l.Img.Toks {
				if t.Pos == pt {
					return t.V
				}
				if t.Pos.Op == "old" || t.Pos.Op == "cur" {
					rest = append(rest, t)
				}
			}
			if len(rest) == 0 {
				panic(infeasible{})
			}
			t := rest[in.choose(st, len(rest))]
			return in.instantiate(st, t.V, t.Pos, pt)
		}
		if c, ok := constInt(idx); ok && c == 0 {
			if ln, ok := in.lineFor(st, l.Img.Bound); ok {
				gs := in.lineGroups(st, ln)
				if g := in.groupIdx(&Line{gs}, l.Img.Bound); g <= 0 {
					in.panicHere(st, "index out of range")
				}
				return in.listElem(st, l, VPos{Line: ln, P: 0})
			}
		}
	}
	in.undec("index into an abstract list by %T", idx)
	return nil
}

// instantiate: the generic element named `from` becomes the concrete one named `to`.
func (in *Interp) instantiate(st *State, v Val, from, to *Term) Val {
	if from == to {
		return v
	}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return in.substM(t, map[*Term]*Term{from: to}, memo)
	}
	cl := map[int]int{}
	var conv func(v Val) Val
	conv = func(v Val) Val {
		switch x := v.(type) {
		case VPtr:
			if n, ok := cl[x.O]; ok {
				return VPtr{n, x.Path}
			}
			o := st.heap[x.O]
			if o == nil || in.mapObj(o, f) == o {
				return x
			}
			in.nextID++
			id := in.nextID
			cl[x.O] = id
			n := *in.mapObj(o, f)
			if n.V != nil {
				n.V = conv(n.V)
			}
			st.heap[id] = &n
			return VPtr{id, x.Path}
		case VStruct:
			fs := make([]Val, len(x.F))
			for i := range fs {
				fs[i] = conv(x.F[i])
			}
			return VStruct{fs}
		case VIface:
			return in.mkIface(x.T, conv(x.V))
		case VTuple:
			fs := make([]Val, len(x.F))
			for i := range fs {
				fs[i] = conv(x.F[i])
			}
			return VTuple{fs}
		}
		return in.mapVal(v, f)
	}
	return conv(v)
}

func (in *Interp) setToks(l *VList) []Tok {
	var r []Tok
	for _, v := range l.Items {
		r = append(r, Tok{nil, v})
	}
	if l.Img != nil {
		r = append(r, l.Img.Toks...)
	}
	return r
}

// mustVisit: tokens that stand for exactly one element.
func (in *Interp) mustVisit(l *VList, t Tok) bool {
	if l.Bag {
		return !in.valOld(t.V)
	}
	return t.Pos == nil || (t.Pos.Op != "old" && t.Pos.Op != "cur")
}

func (in *Interp) valOld(v Val) bool {
	found := false
	in.mapVal(v, func(t *Term) *Term {
		if t != nil && t.old {
			found = true
		}
		return t
	})
	return found
}

func (in *Interp) iterNext(st *State, it VIter, first bool) VIter {
	toks := in.setToks(it.L)
	type opt struct{ c int }
	var opts []int
	done := true
	for i, t := range toks {
		vis := strings.Contains(it.Visited, ","+strconv.Itoa(i)+",")
		if in.mustVisit(it.L, t) {
			if !vis {
				done = false
				opts = append(opts, i)
			}
		} else {
			opts = append(opts, i)
		}
	}
	if done {
		opts = append(opts, -1)
	}
	c := opts[in.choose(st, len(opts))]
	n := it
	n.First = first
	n.Cur = c
	if c >= 0 && in.mustVisit(it.L, toks[c]) {
		if n.Visited == "" {
			n.Visited = ","
		}
		n.Visited += strconv.Itoa(c) + ","
		ps := strings.Split(strings.Trim(n.Visited, ","), ",")
		sort.Strings(ps)
		n.Visited = "," + strings.Join(ps, ",") + ","
	}
	return n
}

// ---- running ----

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.P.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (in *Interp) insPos(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.ip < len(f.blk.Instrs) {
			if p := instrPos(f.blk, f.ip); p.IsValid() {
				return f.fn.Name() + " " + in.pos(p)
			}
		}
	}
	return "?"
}

func instrPos(b *ssa.BasicBlock, ip int) token.Pos {
	if p := b.Instrs[ip].Pos(); p.IsValid() {
		return p
	}
	var ops [16]*ssa.Value
	for _, o := range b.Instrs[ip].Operands(ops[:0]) {
		if *o != nil && (*o).Pos().IsValid() {
			if _, ok := (*o).(*ssa.Global); !ok {
				return (*o).Pos()
			}
		}
	}
	for k := ip; k >= 0; k-- {
		if p := b.Instrs[k].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

type panicPath struct{ kind string }

func (in *Interp) panicHere(st *State, kind string) { panic(panicPath{kind}) }

func (in *Interp) describe(st *State) string {
	var ks []*Term
	for k := range st.facts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var r []string
	for _, k := range ks {
		r = append(r, in.factStr(k, st.facts[k]))
	}
	if debugTrail {
		r = append(r, "\n   TRAIL "+strings.Join(st.trail, "\n      "))
	}
	return strings.Join(r, "; ")
}

func (in *Interp) factStr(k *Term, m uint32) string {
	switch k.Op {
	case "type":
		var s []string
		for _, n := range kindNames {
			if m&n.m != 0 {
				s = append(s, n.s)
			}
		}
		return k.Args[0].String() + " is " + strings.Join(s, "|")
	case "cmp":
		s := ""
		if m&cLT != 0 {
			s += "<"
		}
		if m&cGT != 0 {
			s += ">"
		}
		if m&cEQ != 0 {
			s += "="
		}
		return k.Args[0].String() + " " + s + " " + k.Args[1].String()
	}
	s := k.String()
	if m == bF {
		return "not " + s
	}
	if m == bT {
		return s
	}
	return fmt.Sprintf("%s in %b", s, m)
}

// call prepares a state that runs fn(args).
func (in *Interp) enter(st *State, fn *ssa.Function, args []Val, free []Val) {
	if len(fn.Blocks) == 0 {
		in.undec("no body: %s", fn)
	}
	fi := in.infoOf(fn)
	in.fns[fn] = true
	f := &Frame{fn: fn, info: fi, env: make([]Val, fi.n), blk: fn.Blocks[0], args: args}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[fi.num[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.env[fi.num[p]] = free[i]
	}
	if len(st.frames) > 60 {
		in.undec("call depth")
	}
	st.frames = append(st.frames, f)
}

// run explores all abstract states reachable from init.
func (in *Interp) run(init *State) []*State {
	in.exits = nil
	in.seen = map[uint64x2]bool{}
	work := []*State{init}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		in.nStates++
		if in.nStates > in.maxState {
			in.Undec["state limit"] = "more than " + strconv.Itoa(in.maxState) + " abstract states at " + in.insPos(st)
			return in.exits
		}
		if in.nStates%256 == 0 && !in.deadline.IsZero() && time.Now().After(in.deadline) {
			in.Undec["time limit"] = "at " + in.insPos(st)
			return in.exits
		}
		for {
			more, nx := in.step(st)
			if len(nx) > 0 {
				work = append(work, nx...)
			}
			if !more {
				break
			}
		}
	}
	return in.exits
}

// step executes one instruction. Returns whether to continue with st, and states split off.
func (in *Interp) step(st *State) (more bool, out []*State) {
	in.nSteps++
	f := st.top()
	ins := f.blk.Instrs[f.ip]
	in.curIns = ins
	st.tpos = 0
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case splitFact:
			for _, m := range x.masks {
				n := st.clone()
				n.facts[x.atom] = m
				if debugTrail {
					n.trail = append(append([]string(nil), n.trail...), in.insPos(st)+" "+in.factStr(x.atom, m))
				}
				out = append(out, n)
			}
			more = false
		case splitTape:
			for i := 0; i < x.n; i++ {
				n := st.clone()
				n.tape = append(n.tape, i)
				if debugTrail {
					n.trail = append(append([]string(nil), n.trail...), fmt.Sprintf("%s choice %d/%d", in.insPos(st), i, x.n))
				}
				out = append(out, n)
			}
			more = false
		case infeasible:
			more, out = false, nil
		case undecided:
			k := in.insPos(st) + ": " + x.msg
			if _, ok := in.Undec[k]; !ok {
				in.Undec[k] = in.describe(st)
			}
			more, out = false, nil
		case panicPath:
			k := x.kind + " at " + in.insPos(st)
			if _, ok := in.Panics[k]; !ok {
				in.Panics[k] = in.describe(st)
				if !in.validating(st) {
					if in.compiling == nil {
						in.compiling = map[string]bool{}
					}
					in.compiling[k] = true
				}
			}
			more, out = false, nil
		default:
			panic(r)
		}
	}()
	more = in.exec(st, f, ins)
	st.tape = nil
	return more, nil
}

func (in *Interp) val(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return in.zero(x.Type())
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return VC{constant.ToInt(x.Value)}
		}
		return VC{x.Value}
	case *ssa.Function:
		return VFn{Fn: x}
	case *ssa.Builtin:
		return VFn{Fn: x}
	case *ssa.Global:
		if id, ok := in.P.globals[x]; ok {
			return VPtr{O: id}
		}
		return in.tml("nn", "global "+x.String())
	}
	r := f.env[f.info.num[v]]
	if r == nil {
		in.undec("value %s not computed", v.Name())
	}
	return r
}

func (in *Interp) set(f *Frame, v ssa.Value, x Val) { f.env[f.info.num[v]] = x }

// goTo transfers control, evaluating phis, and merges with states already seen.
func (in *Interp) goTo(st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.blk
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	ip := 0
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.val(st, f, p.Edges[pi]))
		ip++
	}
	for i, p := range phis {
		in.set(f, p, vals[i])
	}
	f.blk, f.ip = to, ip
	if len(to.Preds) > 1 {
		st.tape = nil
		k := in.canon(st)
		if in.seen[k] {
			return false
		}
		in.seen[k] = true
	}
	return true
}

func (in *Interp) exec(st *State, f *Frame, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		in.set(f, x, in.alloc(st, &Obj{Kind: oCell, T: t, V: in.zero(t), Site: f.fn.Name() + " " + in.pos(x.Pos())}))
	case *ssa.BinOp:
		in.set(f, x, in.binop(st, f, x))
	case *ssa.UnOp:
		in.set(f, x, in.unop(st, f, x))
	case *ssa.Call:
		return in.doCall(st, f, x, &x.Call, false)
	case *ssa.ChangeInterface:
		in.set(f, x, in.val(st, f, x.X))
	case *ssa.ChangeType:
		v := in.val(st, f, x.X)
		in.set(f, x, v)
	case *ssa.Convert:
		in.set(f, x, in.convert(st, in.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		in.set(f, x, in.convert(st, in.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.Defer:
		fn, args := in.callee(st, f, &x.Call)
		f.defers = append(f.defers, deferred{&x.Call, fn, args})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			// ask before mutating: model calls may split
			return in.runDeferred(st, f, d)
		}
	case *ssa.Extract:
		t := in.val(st, f, x.Tuple)
		switch tv := t.(type) {
		case VTuple:
			in.set(f, x, tv.F[x.Index])
		case *Term:
			in.set(f, x, in.tml("res", strconv.Itoa(x.Index), tv))
		default:
			in.set(f, x, VTop{"extract"})
		}
	case *ssa.Field:
		in.set(f, x, in.getPath(in.val(st, f, x.X), []int{x.Field}, x.X.Type()))
	case *ssa.FieldAddr:
		p := in.val(st, f, x.X)
		in.set(f, x, in.fieldAddr(st, p, x.Field, x.X.Type()))
	case *ssa.Index:
		in.set(f, x, in.indexVal(st, f, x))
	case *ssa.IndexAddr:
		in.set(f, x, in.indexAddr(st, f, x))
	case *ssa.If:
		c := in.truth(st, in.val(st, f, x.Cond))
		if c {
			return in.goTo(st, f, f.blk.Succs[0])
		}
		return in.goTo(st, f, f.blk.Succs[1])
	case *ssa.Jump:
		return in.goTo(st, f, f.blk.Succs[0])
	case *ssa.Lookup:
		in.set(f, x, in.lookup(st, f, x))
	case *ssa.MakeClosure:
		var fr []Val
		for _, b := range x.Bindings {
			fr = append(fr, in.val(st, f, b))
		}
		in.set(f, x, VFn{x.Fn.(*ssa.Function), fr})
	case *ssa.MakeInterface:
		v := in.val(st, f, x.X)
		in.set(f, x, in.mkIface(x.X.Type(), v))
	case *ssa.MakeMap:
		in.set(f, x, in.alloc(st, &Obj{Kind: oMap, T: x.Type(), Site: in.pos(x.Pos())}))
	case *ssa.MakeSlice:
		n, ok := constInt(in.val(st, f, x.Len))
		if ok && n == 0 {
			in.set(f, x, &VList{})
		} else if ok && n < 64 {
			var it []Val
			el := x.Type().Underlying().(*types.Slice).Elem()
			for i := int64(0); i < n; i++ {
				it = append(it, in.zero(el))
			}
			in.set(f, x, &VList{Items: it})
		} else {
			in.set(f, x, in.tml("mkslice", "", in.toTerm(st, in.val(st, f, x.Len))))
		}
	case *ssa.MapUpdate:
		in.mapUpdate(st, x, in.val(st, f, x.Map), in.val(st, f, x.Key), in.val(st, f, x.Value))
	case *ssa.Next:
		in.set(f, x, in.next(st, f, x))
	case *ssa.Range:
		m := in.val(st, f, x.X)
		in.set(f, x, in.alloc(st, &Obj{Kind: oIter, T: x.X.Type(), M: m}))
	case *ssa.Panic:
		in.panicHere(st, "explicit panic")
	case *ssa.Return:
		return in.doReturn(st, f, x)
	case *ssa.Slice:
		in.set(f, x, in.slice(st, f, x))
	case *ssa.Store:
		in.store(st, x, in.nonNil(st, in.val(st, f, x.Addr)), in.val(st, f, x.Val))
	case *ssa.TypeAssert:
		in.set(f, x, in.typeAssert(st, f, x))
	default:
		in.undec("unsupported instruction %T", ins)
	}
	f.ip++
	return true
}

func (in *Interp) doReturn(st *State, f *Frame, x *ssa.Return) bool {
	var r Val
	switch len(x.Results) {
	case 0:
		r = VTuple{}
	case 1:
		r = in.val(st, f, x.Results[0])
	default:
		var vs []Val
		for _, v := range x.Results {
			vs = append(vs, in.val(st, f, v))
		}
		r = VTuple{vs}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.ret = r
		st.note("ret", r)
		st.tape = nil
		k := in.canon(st)
		if !in.seen[k] {
			in.seen[k] = true
			in.exits = append(in.exits, st)
		}
		return false
	}
	c := st.top()
	if f.noRes {
		// deferred call: RunDefers resumes
	} else {
		call := c.blk.Instrs[c.ip]
		if v, ok := call.(ssa.Value); ok {
			in.set(c, v, r)
		}
		c.ip++
	}
	st.tape = nil
	k := in.canon(st)
	if in.seen[k] {
		return false
	}
	in.seen[k] = true
	return true
}

func (in *Interp) truth(st *State, v Val) bool {
	switch x := v.(type) {
	case VC:
		b, ok := constBool(x)
		if ok {
			return b
		}
	case *Term:
		return in.askBool(st, x)
	case VTop:
		return in.chooseTop(st, x)
	}
	in.undec("condition is %T", v)
	return false
}

// nonNil: dereferencing v; a possibly nil pointer is a panic path.
func (in *Interp) nonNil(st *State, v Val) Val {
	switch x := v.(type) {
	case VNil:
		in.panicHere(st, "nil dereference")
	case *Term:
		if x.Op == "fa" || x.Op == "ea" {
			return x
		}
		if in.askBool(st, in.tm("isnil", x)) {
			in.panicHere(st, "nil dereference")
		}
	case VTop:
		in.undec("dereference of an unknown value")
	}
	return v
}

func (in *Interp) fieldAddr(st *State, p Val, field int, t types.Type) Val {
	in.nonNil(st, p)
	switch x := p.(type) {
	case VPtr:
		return VPtr{x.O, x.Path + "/" + strconv.Itoa(field)}
	case *Term:
		return in.tml("fa", fieldName(t, field), x)
	case VElem:
		// field of an element of a list of structs
		if _, ok := in.load(st, x, nil).(VStruct); ok {
			return VElem{x.L, x.I, x.Path + "/" + strconv.Itoa(field)}
		}
		return in.tml("fa", fieldName(t, field), in.toTerm(st, in.load(st, x, nil)))
	case VUrl:
		return VUrl{x.P, fieldName(t, field)}
	}
	in.undec("field address of %T", p)
	return nil
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

func (in *Interp) indexVal(st *State, f *Frame, x *ssa.Index) Val {
	v := in.val(st, f, x.X)
	i := in.val(st, f, x.Index)
	switch a := v.(type) {
	case VStruct:
		if n, ok := constInt(i); ok {
			if n < 0 || int(n) >= len(a.F) {
				in.panicHere(st, "index out of range")
			}
			return a.F[n]
		}
	case VC:
		if s, ok := constStr(a); ok {
			if n, ok := constInt(i); ok {
				if n < 0 || int(n) >= len(s) {
					in.panicHere(st, "index out of range")
				}
				return vint(int64(s[n]))
			}
		}
	case *Term: // byte of a string
		if n, ok := constInt(i); ok {
			if !in.askCmp(st, in.tm("bytes", a), in.num(n), cGT) {
				in.panicHere(st, "index out of range")
			}
		} else {
			in.mustIndex(st, a, in.toTerm(st, i))
		}
		return in.tm("byteat", a, in.toTerm(st, i))
	}
	in.undec("index of %T by %T", v, i)
	return nil
}

func (in *Interp) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Val {
	v := in.val(st, f, x.X)
	i := in.val(st, f, x.Index)
	switch a := v.(type) {
	case VPtr: // pointer to array
		if n, ok := constInt(i); ok {
			return VPtr{a.O, a.Path + "/" + strconv.Itoa(int(n))}
		}
		o := st.heap[a.O]
		if s, ok := in.getPath(o.V, splitPath(a.Path), o.T).(VStruct); ok {
			return VElem{&VList{Items: s.F}, i, ""}
		}
	case VNil:
		in.panicHere(st, "index out of range")
	case *Term, *VList, VView:
		in.elemAt(st, v, i) // bounds obligation
		return VElem{v, i, ""}
	case VTop:
		return VElem{v, i, ""}
	}
	in.undec("element address of %T", v)
	return nil
}

func (in *Interp) slice(st *State, f *Frame, x *ssa.Slice) Val {
	v := in.val(st, f, x.X)
	lo, hi := int64(0), int64(-1)
	okc := true
	if x.Low != nil {
		if n, ok := constInt(in.val(st, f, x.Low)); ok {
			lo = n
		} else {
			okc = false
		}
	}
	if x.High != nil {
		if n, ok := constInt(in.val(st, f, x.High)); ok {
			hi = n
		} else {
			okc = false
		}
	}
	switch a := v.(type) {
	case VPtr: // *array
		o := st.heap[a.O]
		s, ok := in.getPath(o.V, splitPath(a.Path), o.T).(VStruct)
		if ok && okc {
			if hi < 0 {
				hi = int64(len(s.F))
			}
			return &VList{Items: append([]Val(nil), s.F[lo:hi]...)}
		}
	case *VList:
		if okc && !a.Bag && a.Img == nil {
			if hi < 0 {
				hi = int64(len(a.Items))
			}
			if lo > hi || int(hi) > len(a.Items) {
				in.panicHere(st, "slice bounds out of range")
			}
			return &VList{Items: append([]Val(nil), a.Items[lo:hi]...)}
		}
		if okc && lo == 0 && hi < 0 {
			return a
		}
	case VNil:
		if okc && lo == 0 && hi <= 0 {
			return a
		}
		in.panicHere(st, "slice bounds out of range")
	case VC:
		if s, ok := constStr(a); ok && okc {
			if hi < 0 {
				hi = int64(len(s))
			}
			if lo > hi || int(hi) > len(s) {
				in.panicHere(st, "slice bounds out of range")
			}
			return vstr(s[lo:hi])
		}
	case *Term:
		if okc && lo == 0 && hi < 0 {
			return a
		}
		if okc && hi < 0 {
			if l, rest := in.leadStr(a); int(lo) <= len(l) && rest != nil {
				return in.tv(in.cat(in.str(l[lo:]), rest))
			}
		}
		if s, ok := x.X.Type().Underlying().(*types.Slice); ok && !types.Identical(s.Elem(), types.Typ[types.Byte]) {
			return in.viewOf(st, f, x, VView{L: a}, true)
		}
		if okc && hi < 0 && lo > 0 {
			for _, p := range in.prefixes(st, a) {
				if int64(len(p)) == lo {
					return in.tm("strings.TrimPrefix", a, in.str(p))
				}
			}
			for _, p := range in.prefixes(st, a) {
				if int64(len(p)) > lo {
					return in.tm("slice", a, in.num(lo), in.tm("nil"))
				}
			}
		}
		var args []*Term
		args = append(args, a)
		for _, b := range []ssa.Value{x.Low, x.High} {
			if b == nil {
				args = append(args, in.tm("nil"))
			} else {
				args = append(args, in.toTerm(st, in.val(st, f, b)))
			}
		}
		if okc {
			max := lo
			if hi > max {
				max = hi
			}
			if lo < 0 || hi >= 0 && hi < lo || !in.askCmp(st, in.length(st, a, x.X.Type()).(*Term), in.num(max), cEQ|cGT) {
				in.panicHere(st, "slice bounds out of range")
			}
		} else if !in.askBool(st, in.tm("inslice", args...)) {
			in.imprecise(st, "slice bounds")
			in.panicHere(st, "slice bounds out of range")
		}
		return in.tm("slice", args...)
	}
	if w, ok := v.(VView); ok {
		return in.viewOf(st, f, x, w, false)
	}
	in.undec("slice of %T", v)
	return nil
}

// prefixes: the constant strings that s is known to start with.
func (in *Interp) prefixes(st *State, s *Term) []string {
	var r []string
	for t, m := range st.facts {
		if m == bT && t.Op == "str" && t.Lit == "strings.HasPrefix" && t.Args[0] == s {
			if p, ok := termStr(t.Args[1]); ok {
				r = append(r, p)
			}
		}
	}
	return r
}

// viewOf: w[lo:hi] of a symbolic list whose bounds lie on the line of its length.
func (in *Interp) viewOf(st *State, f *Frame, x *ssa.Slice, w VView, whole bool) Val {
	if x.Max != nil {
		in.undec("three-index slice of a symbolic list")
	}
	lt := in.tm("len", w.L)
	ln, ok := in.lineFor(st, lt)
	if !ok {
		in.undec("slice of a list of unknown length")
	}
	gs := in.lineGroups(st, ln)
	if whole {
		w.Lo = VPos{Line: ln}
		w.Hi = VPos{Line: ln, P: 2 * in.groupIdx(&Line{gs}, lt)}
	}
	at := func(v Val, which string) VPos {
		if n, ok := constInt(v); ok && n > 0 && which == "lo" && w.Lo.P == 0 && w.Hi.P%2 == 0 {
			// a constant offset: somewhere after zero and not after the end
			if !in.askCmp(st, gs[w.Hi.P/2][0], in.num(n), cEQ|cGT) {
				in.panicHere(st, "slice bounds out of range")
			}
			p := 1 + in.choose(st, w.Hi.P)
			r := VPos{Line: ln, P: p}
			if p%2 == 1 {
				r.Tag = f.fn.Name() + "." + which + x.Name() + "@" + strconv.Itoa(len(st.frames)-1)
			}
			return r
		}
		if p, ok := v.(VPos); ok {
			if p.BP == 0 && w.Lo.P == 0 && p.Line == ln || p.BP == w.Lo.P+1 && p.BTag == w.Lo.Tag && p.Line == ln {
				p.BP, p.BTag = 0, ""
				return p
			}
		}
		if n, ok := constInt(v); ok && n == 0 {
			return w.Lo
		}
		if w.Lo.P == 0 {
			if p, ok := in.posOn(st, ln, gs, v); ok {
				return VPos{Line: ln, P: p}
			}
		}
		in.undec("slice bounds of a symbolic list")
		return VPos{}
	}
	r := w
	if x.Low != nil {
		r.Lo = at(in.val(st, f, x.Low), "lo")
	}
	if x.High != nil {
		r.Hi = at(in.val(st, f, x.High), "hi")
	}
	amb := func(a, b VPos) bool { return a.P == b.P && a.P%2 != 0 && a.Tag != b.Tag }
	if amb(r.Lo, r.Hi) || amb(r.Lo, w.Lo) || amb(r.Hi, w.Hi) {
		in.undec("slice bounds in the same interval")
	}
	if r.Lo.P < w.Lo.P || r.Lo.P > r.Hi.P || r.Hi.P > 2*in.groupIdx(&Line{gs}, lt) {
		in.panicHere(st, "slice bounds out of range")
	}
	if whole && r.Lo == w.Lo && r.Hi == w.Hi {
		return w.L
	}
	return r
}

func (in *Interp) unop(st *State, f *Frame, x *ssa.UnOp) Val {
	v := in.val(st, f, x.X)
	switch x.Op {
	case token.MUL:
		in.nonNil(st, v)
		return in.load(st, v, x.Type())
	case token.NOT:
		return vbool(!in.truth(st, v))
	case token.SUB:
		if c, ok := v.(VC); ok {
			return VC{constant.UnaryOp(token.SUB, c.K, 0)}
		}
		if t, ok := v.(*Term); ok {
			return in.tm("neg", t)
		}
		return VTop{"neg"}
	}
	in.undec("unary %s", x.Op)
	return nil
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	switch x := v.(type) {
	case VC:
		if tb != nil && fb != nil {
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return x
			}
			if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
				return x
			}
			if tb.Info()&types.IsFloat != 0 {
				return VC{constant.ToFloat(x.K)}
			}
			if tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 {
				if i, ok := constInt(x); ok {
					return vstr(string(rune(i)))
				}
			}
		}
		if s, ok := constStr(x); ok {
			// []byte / []rune of a constant
			return in.tml("bytesof", types.TypeString(to, nil), in.str(s))
		}
	case *Term:
		if tb != nil && fb != nil {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				if sz(tb) < sz(fb) {
					return in.tml("trunc", tb.Name(), x)
				}
				return x
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return x
			}
			return in.tml("conv", tb.Name(), x)
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return in.tml("bytesof", types.TypeString(to, nil), x)
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			if x.Op == "bytesof" {
				return x.Args[0]
			}
			return in.tm("strof", x)
		}
		return x
	case VPos, VCnt:
		if tb != nil && fb != nil && sz(tb) < sz(fb) && tb.Info()&types.IsInteger != 0 {
			if p, ok := v.(VPos); ok && p.P == 0 && p.BP == 0 {
				return v // zero
			}
			return in.tml("trunc", tb.Name(), in.toTerm(st, v))
		}
		return v
	case VTop, VIter, VFD:
		return v
	case *VList, VNil:
		if tb != nil {
			return in.tm("strof", in.toTerm(st, v))
		}
		return v
	}
	return v
}

func sz(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

// ---- binary operators ----

func cmpMask(op token.Token) (uint32, bool) {
	switch op {
	case token.LSS:
		return cLT, true
	case token.LEQ:
		return cLT | cEQ, true
	case token.GTR:
		return cGT, true
	case token.GEQ:
		return cGT | cEQ, true
	case token.EQL:
		return cEQ, true
	case token.NEQ:
		return cLT | cGT, true
	}
	return 0, false
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

func (in *Interp) binop(st *State, f *Frame, x *ssa.BinOp) Val {
	a, b := in.val(st, f, x.X), in.val(st, f, x.Y)
	if m, ok := cmpMask(x.Op); ok {
		if isBasic(x.X.Type(), types.IsNumeric) {
			return vbool(in.cmpNum(st, f, x, a, b, m))
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			r := in.eqVals(st, a, b, x.X.Type())
			return vbool(r == (x.Op == token.EQL))
		}
		// ordered strings
		ta, tb := in.toTerm(st, a), in.toTerm(st, b)
		return vbool(in.askCmp(st, ta, tb, m))
	}
	ca, oka := a.(VC)
	cb, okb := b.(VC)
	if _, ok := a.(VTop); ok {
		return a
	}
	if _, ok := b.(VTop); ok {
		return b
	}
	if x.Op == token.ADD && isBasic(x.Type(), types.IsString) {
		if oka && okb {
			return VC{constant.BinaryOp(ca.K, token.ADD, cb.K)}
		}
		return in.cat(in.toTerm(st, a), in.toTerm(st, b))
	}
	if x.Op == token.ADD {
		if r, ok := in.addBase(st, a, b); ok {
			return r
		}
		if r, ok := in.addBase(st, b, a); ok {
			return r
		}
	}
	if x.Op == token.ADD || x.Op == token.SUB {
		if okb {
			if n, ok := constInt(cb); ok {
				if x.Op == token.SUB {
					n = -n
				}
				if r, ok := in.addConst(st, f, x, a, n); ok {
					return r
				}
			}
		}
		if oka && x.Op == token.ADD {
			if n, ok := constInt(ca); ok {
				if r, ok := in.addConst(st, f, x, b, n); ok {
					return r
				}
			}
		}
	}
	if oka && okb {
		if (x.Op == token.QUO || x.Op == token.REM) && constant.Sign(cb.K) == 0 {
			in.panicHere(st, "division by zero")
		}
		op := x.Op
		if op == token.QUO && isIntT(x.Type()) {
			op = token.QUO_ASSIGN
		}
		if op == token.SHL || op == token.SHR {
			s, _ := constant.Int64Val(cb.K)
			return VC{constant.Shift(ca.K, op, uint(s))}
		}
		return VC{constant.BinaryOp(ca.K, op, cb.K)}
	}
	ta, tb := in.toTerm(st, a), in.toTerm(st, b)
	if depth(ta) > 8 || depth(tb) > 8 {
		return VTop{"arithmetic"}
	}
	if (x.Op == token.QUO || x.Op == token.REM) && isIntT(x.Type()) {
		if in.askCmp(st, tb, in.num(0), cEQ) {
			in.panicHere(st, "division by zero")
		}
	}
	return in.tml("op", x.Op.String(), ta, tb)
}

// addBase: an index relative to a position plus that position.
func (in *Interp) addBase(st *State, a, b Val) (Val, bool) {
	p, ok := a.(VPos)
	if !ok || p.BP == 0 {
		return nil, false
	}
	switch y := b.(type) {
	case *Term:
		gs := in.lineGroups(st, p.Line)
		if g := in.groupIdx(&Line{gs}, y); g < 0 || 2*g != p.BP-1 {
			return nil, false
		}
	case VPos:
		if y.BP != 0 || y.Line != p.Line || y.P != p.BP-1 || y.Tag != p.BTag {
			return nil, false
		}
	default:
		return nil, false
	}
	p.BP, p.BTag = 0, ""
	return p, true
}

func depth(t *Term) int {
	d := 0
	for _, a := range t.Args {
		if e := depth(a); e > d {
			d = e
		}
	}
	return d + 1
}

// addConst: v + n for small constants n.
func (in *Interp) addConst(st *State, f *Frame, x *ssa.BinOp, v Val, n int64) (Val, bool) {
	depthIdx := len(st.frames) - 1
	switch p := v.(type) {
	case VC:
		c, ok := constInt(p)
		if !ok {
			return nil, false
		}
		r := c + n
		// a counter inside an unbounded loop
		isIndex := false
		for _, l := range f.info.inLp[f.blk] {
			if l.step == x {
				isIndex = true
			}
		}
		if !isIndex && n == 1 && c >= 0 && c < 16 {
			if a := in.activeLoop(st); a != nil {
				def := 1
				if a.first && c == 0 {
					def = 0
				}
				if c > 4 {
					c = 4
				}
				cc := int(c) + 1
				if cc > 4 {
					cc = 4
				}
				return VCnt{C: cc, Tag: a.tag, Def: def, Pend: 1}, true
			}
		}
		return vint(r), true
	case VCnt:
		if n == 1 {
			a := in.activeLoop(st)
			q := p
			if q.C < 4 {
				q.C++
			}
			if a == nil || a.tag != q.Tag || q.Bound != nil {
				q.Def = 2
			} else {
				q.Pend++
			}
			return q, true
		}
		return VTop{"counter arithmetic"}, true
	case VPos:
		if n == 0 {
			return p, true
		}
		if n > 3 || n < -3 {
			return VTop{"index arithmetic"}, true
		}
		gs := in.lineGroups(st, p.Line)
		dir, k := 1, int(n)
		if n < 0 {
			dir, k = -1, int(-n)
		}
		set := map[int]bool{p.P: true}
		for i := 0; i < k; i++ {
			ns := map[int]bool{}
			for q := range set {
				for _, s := range succPos(q, len(gs), dir) {
					if in.tight && s > 0 && s%2 == 1 && s < 2*(len(gs)-1) && in.lines[p.Line] != nil {
						continue
					}
					ns[s] = true
				}
			}
			set = ns
		}
		var opts []int
		for q := range set {
			opts = append(opts, q)
		}
		sort.Ints(opts)
		q := opts[in.choose(st, len(opts))]
		tag := f.fn.Name() + "." + x.Name() + "@" + strconv.Itoa(depthIdx)
		isStep := false
		for _, l := range f.info.loops {
			if l.step == x {
				isStep = true
			}
		}
		if isStep {
			in.retire(st, tag, p.Line)
		} else {
			tag = "t" + tag
			in.retire(st, tag, "")
		}
		r := VPos{Line: p.Line, P: q, BP: p.BP, BTag: p.BTag}
		if q < 0 || q%2 == 1 {
			r.Tag = tag
		}
		return r, true
	case VIter:
		if n == 1 {
			r := in.iterNext(st, p, false)
			tag := f.fn.Name() + "." + x.Name() + "@" + strconv.Itoa(depthIdx)
			in.retire(st, tag, "")
			r.Tag = tag
			return r, true
		}
	case *Term:
		// a landmark plus or minus one
		if ln, ok := in.lineFor(st, p); ok && (n == 1 || n == -1) {
			gs := in.lineGroups(st, ln)
			if g := in.groupIdx(&Line{gs}, p); g >= 0 {
				return in.addConst(st, f, x, VPos{Line: ln, P: 2 * g}, n)
			}
		}
	}
	return nil, false
}

func (in *Interp) cmpNum(st *State, f *Frame, x *ssa.BinOp, a, b Val, m uint32) bool {
	ca, oka := a.(VC)
	cb, okb := b.(VC)
	if oka && okb {
		return m&ordBits(constant.Compare(ca.K, token.LSS, cb.K), constant.Compare(ca.K, token.EQL, cb.K)) != 0
	}
	if fd, ok := a.(VFD); ok && okb {
		return in.cmpFD(st, fd, cb, m)
	}
	if fd, ok := b.(VFD); ok && oka {
		return in.cmpFD(st, fd, ca, flip(m))
	}
	// set-like iteration
	if sl, ok := b.(VSetLen); ok {
		return in.cmpIter(st, f, x.X, a, sl, m)
	}
	if sl, ok := a.(VSetLen); ok {
		return in.cmpIter(st, f, x.Y, b, sl, flip(m))
	}
	if c, ok := a.(VCnt); ok {
		return in.cmpCnt(st, c, b, m)
	}
	if c, ok := b.(VCnt); ok {
		return in.cmpCnt(st, c, a, flip(m))
	}
	// positions
	if p, ok := a.(VPos); ok && p.BP > 0 {
		return in.cmpBased(st, f, x, p, a, b, m)
	}
	if p, ok := b.(VPos); ok && p.BP > 0 {
		return in.cmpBased(st, f, x, p, a, b, m)
	}
	line := ""
	if p, ok := a.(VPos); ok {
		line = p.Line
	}
	if p, ok := b.(VPos); ok && (line == "" || in.isZeroPos(a)) {
		line = p.Line
	}
	ta, isTa := a.(*Term)
	tb, isTb := b.(*Term)
	if isTb && (line == "" || in.isZeroPos(a)) {
		if l, ok := in.lineFor(st, tb); ok {
			line = l
		}
	}
	if isTa && (line == "" || in.isZeroPos(b)) {
		if l, ok := in.lineFor(st, ta); ok {
			line = l
		}
	}
	if line != "" {
		gs := in.lineGroups(st, line)
		a2 := in.symbolise(st, f, x.X, a, line, gs)
		b2 := in.symbolise(st, f, x.Y, b, line, gs)
		pa, ok1 := in.posOn(st, line, gs, a2)
		pb, ok2 := in.posOn(st, line, gs, b2)
		if ok1 && ok2 {
			dec := pa != pb || (pa >= 0 && pa%2 == 0)
			if !dec {
				va, o1 := a2.(VPos)
				vb, o2 := b2.(VPos)
				if o1 && o2 && va.Tag == vb.Tag && va.Tag != "" && !strings.HasPrefix(va.Tag, "~") {
					return m&cEQ != 0
				}
				return []bool{m&cLT != 0, m&cEQ != 0, m&cGT != 0}[in.choose(st, 3)]
			}
			r := m&ordBits(pa < pb, pa == pb) != 0
			if pa == pb {
				in.checkComplete(st, f, x.X, a2, pa, gs)
				in.checkComplete(st, f, x.Y, b2, pb, gs)
			}
			if VPosOf(a2) && !sameVal(a, a2) {
				in.set(f, x.X, a2)
			}
			if VPosOf(b2) && !sameVal(b, b2) {
				in.set(f, x.Y, b2)
			}
			return r
		}
		if ok1 || ok2 {
			va, o1 := a2.(VPos)
			vb, o2 := b2.(VPos)
			_, _ = va, vb
			if o1 || o2 {
				return []bool{m&cLT != 0, m&cEQ != 0, m&cGT != 0}[in.choose(st, 3)]
			}
		}
	}
	if t, ok := a.(VTop); ok {
		return in.chooseTop(st, t)
	}
	if t, ok := b.(VTop); ok {
		return in.chooseTop(st, t)
	}
	return in.askCmp(st, in.toTerm(st, a), in.toTerm(st, b), m)
}

// cmpBased: comparison of indices relative to the start of a part of a list.
func (in *Interp) cmpBased(st *State, f *Frame, x *ssa.BinOp, base VPos, a, b Val, m uint32) bool {
	at := func(sv ssa.Value, v Val) VPos {
		switch y := v.(type) {
		case VPos:
			if y.BP == base.BP && y.BTag == base.BTag && y.Line == base.Line {
				return y
			}
			if y.BP == 0 && y.P == 0 {
				return VPos{Line: base.Line, P: base.BP - 1, Tag: base.BTag, BP: base.BP, BTag: base.BTag}
			}
		case VC:
			if n, ok := constInt(y); ok && n == 0 {
				r := VPos{Line: base.Line, P: base.BP - 1, Tag: base.BTag, BP: base.BP, BTag: base.BTag}
				for _, l := range f.info.loops {
					if (l.phi != nil && ssa.Value(l.phi) == sv) || (l.step != nil && ssa.Value(l.step) == sv) {
						in.set(f, sv, r)
					}
				}
				return r
			} else if ok && n < 0 {
				return VPos{Line: base.Line, P: -1}
			}
		}
		in.undec("comparison with an index into a part of a list")
		return VPos{}
	}
	pa, pb := at(x.X, a), at(x.Y, b)
	if pa.P == pb.P && pa.P%2 != 0 {
		if pa.Tag == pb.Tag && !strings.HasPrefix(pa.Tag, "~") {
			return m&cEQ != 0
		}
		return []bool{m&cLT != 0, m&cEQ != 0, m&cGT != 0}[in.choose(st, 3)]
	}
	if pa.P == pb.P {
		gs := in.lineGroups(st, base.Line)
		in.checkComplete(st, f, x.X, pa, pa.P, gs)
		in.checkComplete(st, f, x.Y, pb, pb.P, gs)
	}
	return m&ordBits(pa.P < pb.P, pa.P == pb.P) != 0
}

func VPosOf(v Val) bool { _, ok := v.(VPos); return ok }

func (in *Interp) isZeroPos(v Val) bool {
	switch x := v.(type) {
	case VPos:
		return x.P == 0
	case VC:
		return true
	}
	return false
}

// symbolise: a loop index that is still a constant becomes a position on the line it is compared with.
func (in *Interp) symbolise(st *State, f *Frame, sv ssa.Value, v Val, line string, gs [][]*Term) Val {
	isIdx := false
	for _, l := range f.info.loops {
		if (l.phi != nil && ssa.Value(l.phi) == sv) || (l.step != nil && ssa.Value(l.step) == sv) {
			isIdx = true
		}
	}
	if p, ok := v.(VPos); ok {
		if p.P == 0 && p.Line != line {
			return VPos{Line: line, P: 0}
		}
		return v
	}
	if !isIdx {
		return v
	}
	switch x := v.(type) {
	case VC:
		c, ok := constInt(x)
		if !ok {
			return v
		}
		if c == 0 {
			return VPos{Line: line, P: 0}
		}
		if c > 0 {
			last := 2*(len(gs)-1) + 1
			p := 1 + in.choose(st, last)
			r := VPos{Line: line, P: p}
			if p%2 == 1 {
				r.Tag = f.fn.Name() + ".init" + sv.Name() + "@" + strconv.Itoa(len(st.frames)-1)
			}
			return r
		}
	case *Term:
		for g, ts := range gs {
			for _, t := range ts {
				if t == x {
					return VPos{Line: line, P: 2 * g}
				}
			}
		}
	}
	return v
}

// checkComplete: the index reached a landmark that is a length: loops over it are complete.
func (in *Interp) checkComplete(st *State, f *Frame, sv ssa.Value, v Val, p int, gs [][]*Term) {
	vp, ok := v.(VPos)
	if !ok || p < 0 || p%2 != 0 {
		return
	}
	for i, l := range f.info.loops {
		_ = i
		if (l.phi != nil && ssa.Value(l.phi) == sv) || (l.step != nil && ssa.Value(l.step) == sv) {
			for _, t := range gs[p/2] {
				if t.Op == "len" {
					if vp.BP > 0 {
						t = in.tml("op", "-", t, in.posTerm(st, VPos{Line: vp.Line, P: vp.BP - 1, Tag: vp.BTag}))
					}
					in.complete(st, in.loopTag(len(st.frames)-1, l, f.fn), t, nil)
				}
			}
		}
	}
}

func (in *Interp) cmpFD(st *State, fd VFD, c VC, m uint32) bool {
	var sub, full uint32
	for i, v := range fd.Vals {
		full |= 1 << uint(i)
		if v == nil {
			continue
		}
		if m&ordBits(constant.Compare(v, token.LSS, c.K), constant.Compare(v, token.EQL, c.K)) != 0 {
			sub |= 1 << uint(i)
		}
	}
	return in.askSub(st, fd.Atom, full, sub)
}

func (in *Interp) cmpCnt(st *State, c VCnt, b Val, m uint32) bool {
	if n, ok := constInt(b); ok {
		if c.C < 4 {
			return m&ordBits(int64(c.C) < n, int64(c.C) == n) != 0
		}
		if n < 4 {
			return m&cGT != 0
		}
	}
	if t, ok := b.(*Term); ok && c.Bound == t && t != nil {
		if c.Def == 0 {
			return m&cEQ != 0
		}
		if c.Def == 1 {
			return m&cLT != 0
		}
	}
	return []bool{m&cLT != 0, m&cEQ != 0, m&cGT != 0}[in.choose(st, 3)]
}

func (in *Interp) cmpIter(st *State, f *Frame, sv ssa.Value, a Val, sl VSetLen, m uint32) bool {
	it, ok := a.(VIter)
	if !ok {
		n, okc := constInt(a)
		if _, isC := sv.(*ssa.Const); isC && okc {
			// length compared with a constant: only emptiness is known
			toks := in.setToks(sl.L)
			must := 0
			for _, t := range toks {
				if in.mustVisit(sl.L, t) {
					must++
				}
			}
			var full uint32 = cLT | cEQ | cGT // ordering of n relative to len
			if len(toks) > 0 && must == 0 {
				must = 1
			}
			if n < int64(must) {
				full = cLT
			}
			if full&m == 0 {
				return false
			}
			if full&^m == 0 {
				return true
			}
			return in.choose(st, 2) == 0
		}
		if !okc || n != 0 {
			return in.choose(st, 2) == 0
		}
		it = in.iterNext(st, VIter{L: sl.L}, true)
		it.Tag = in.iterTag(st, f, sv)
		in.set(f, sv, it)
	}
	if it.Cur < 0 {
		return m&cEQ != 0
	}
	return m&cLT != 0
}

func (in *Interp) iterTag(st *State, f *Frame, sv ssa.Value) string {
	for _, l := range f.info.loops {
		if (l.phi != nil && ssa.Value(l.phi) == sv) || (l.step != nil && ssa.Value(l.step) == sv) {
			return in.loopTag(len(st.frames)-1, l, f.fn)
		}
	}
	return f.fn.Name() + "." + sv.Name()
}

func isIfaceT(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func (in *Interp) eqVals(st *State, a, b Val, t types.Type) bool {
	if isNilVal(b) {
		a, b = b, a
	}
	if isNilVal(a) {
		switch y := b.(type) {
		case VNil:
			return true
		case *Term:
			if isIfaceT(t) && isJSONIface(t) {
				return in.askKind(st, y, kNil)
			}
			return in.askBool(st, in.tm("isnil", y))
		case VTop:
			return in.chooseTop(st, y)
		default:
			return false
		}
	}
	switch x := a.(type) {
	case VC:
		switch y := b.(type) {
		case VC:
			return constant.Compare(x.K, token.EQL, y.K)
		case *Term:
			if x.K.Kind() == constant.Bool {
				return in.askBool(st, y) == constant.BoolVal(x.K)
			}
			return in.askEq(st, in.cterm(x.K), y)
		case VFD:
			return in.cmpFD(st, y, x, cEQ)
		}
	case VFD:
		if y, ok := b.(VC); ok {
			return in.cmpFD(st, x, y, cEQ)
		}
	case *Term:
		switch y := b.(type) {
		case VC:
			return in.eqVals(st, b, a, t)
		case *Term:
			return in.askEq(st, x, y)
		case VIface:
			return in.askEq(st, x, in.toTerm(st, y))
		case VPtr:
			return false
		}
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			return x == y
		case *Term:
			return false
		}
	case VIface:
		switch y := b.(type) {
		case VIface:
			if !types.Identical(x.T, y.T) {
				return false
			}
			return in.eqVals(st, x.V, y.V, x.T)
		case *Term:
			return in.askEq(st, in.toTerm(st, x), y)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if !in.eqVals(st, x.F[i], y.F[i], t) {
					return false
				}
			}
			return true
		}
	case VTop:
		return in.chooseTop(st, x)
	}
	if t, ok := b.(VTop); ok {
		return in.chooseTop(st, t)
	}
	in.undec("comparison of %T and %T", a, b)
	return false
}

func isJSONIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// ---- maps ----

func (in *Interp) keyTerm(st *State, k Val) *Term { return in.toTerm(st, k) }

func (in *Interp) lookup(st *State, f *Frame, x *ssa.Lookup) Val {
	m := in.val(st, f, x.X)
	k := in.val(st, f, x.Index)
	var elemT types.Type
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		elemT = mt.Elem()
	} else { // string index
		return in.tm("byteat", in.toTerm(st, m), in.toTerm(st, k))
	}
	v, ok := in.mapGet(st, m, k, elemT)
	if !ok {
		v = in.zero(elemT)
	}
	if x.CommaOk {
		return VTuple{[]Val{v, vbool(ok)}}
	}
	return v
}

func (in *Interp) mapGet(st *State, m, k Val, elemT types.Type) (Val, bool) {
	if in.onAccess != nil {
		in.onAccess(st, m, false)
	}
	switch y := m.(type) {
	case VNil:
		return nil, false
	case *Term:
		kt := in.keyTerm(st, k)
		if kt.Op != "const" && in.mapClose[y] {
			for _, q := range in.mapKeys[y] {
				if in.askEq(st, kt, q) {
					if h := in.tm("has", y, q); in.mapOpt[h] && !in.askBool(st, h) {
						return nil, false
					}
					return in.mapElem(st, y, q), true
				}
			}
			return nil, false
		}
		if kt.Op != "sk" && kt.Op != "cur" {
			// equal to a tracked key?
			for _, q := range in.mapKeys[y] {
				if q != kt && q.Op == "sk" {
					if m := in.maskOf(st, in.eqAtom(q, kt), bF|bT); m == bT {
						kt = q
					}
				}
			}
		}
		if !in.askBool(st, in.tm("has", y, kt)) {
			return nil, false
		}
		return in.mapElem(st, y, kt), true
	case VPtr:
		o := st.heap[y.O]
		kt := in.keyTerm(st, k)
		if o.MImg != nil && o.MImg.Bound != nil && o.MImg.Def == 0 && in.keysAreSource(st, o) {
			if !in.askBool(st, in.tm("has", o.MImg.Src, kt)) {
				return nil, false
			}
			for _, e := range o.Ents {
				if e.Pos == kt {
					return e.V, true
				}
			}
			var rest []Ent
			for _, e := range o.Ents {
				if e.Pos.Op == "old" || e.Pos.Op == "cur" {
					rest = append(rest, e)
				}
			}
			if len(rest) == 0 {
				panic(infeasible{})
			}
			e := rest[in.choose(st, len(rest))]
			return in.instantiate(st, e.V, e.Pos, kt), true
		}
		for i := len(o.Ents) - 1; i >= 0; i-- {
			e := o.Ents[i]
			et := in.keyTerm(st, e.K)
			if et.old {
				if in.maskOf(st, in.eqAtom(et, kt), bF|bT)&bT != 0 && in.choose(st, 2) == 0 {
					if in.maskOf(st, in.eqAtom(et, kt), bF|bT) == bF {
						panic(infeasible{})
					}
					return e.V, true
				}
				continue
			}
			if in.askEq(st, et, kt) {
				return e.V, true
			}
		}
		if o.Any != nil {
			if in.askBool(st, in.tm("has", o.Any, kt)) {
				return in.tm("elem", o.Any, kt), true
			}
		}
		return nil, false
	case VTop:
		in.imprecise(st, "lookup in an unknown map")
		if in.choose(st, 2) == 0 {
			return VTop{"map"}, true
		}
		return nil, false
	}
	in.undec("lookup in %T", m)
	return nil, false
}

func (in *Interp) mapElem(st *State, m, k *Term) Val {
	e := in.tm("elem", m, k)
	if v, ok := st.over[in.tm("mslot", m, k)]; ok {
		return v
	}
	return e
}

func (in *Interp) keysAreSource(st *State, o *Obj) bool {
	for _, e := range o.Ents {
		if e.Pos == nil || in.keyTerm(st, e.K) != e.Pos {
			return false
		}
	}
	return true
}

func (in *Interp) mapUpdate(st *State, ins ssa.Instruction, m, k, v Val) {
	if in.onAccess != nil {
		in.onAccess(st, m, true)
	}
	switch y := m.(type) {
	case VNil:
		in.panicHere(st, "write to nil map")
	case *Term:
		if y.Op != "as" {
			if in.askBool(st, in.tm("isnil", y)) {
				in.panicHere(st, "write to nil map")
			}
		}
		kt := in.keyTerm(st, k)
		if in.onStore != nil {
			in.onStore(st, ins, m, "map update")
		}
		no := map[*Term]Val{}
		for a, b := range st.over {
			no[a] = b
		}
		no[in.tm("mslot", y, kt)] = v
		st.over = no
	case VPtr:
		o := st.heap[y.O]
		n := *o
		kt := in.keyTerm(st, k)
		a := in.activeLoopAt(st, kt)
		n.Ents = nil
		done := false
		var hit []bool
		for _, e := range o.Ents {
			et := in.keyTerm(st, e.K)
			same := false
			if et == kt && !kt.old {
				same = true
			} else if et.cv != nil && kt.cv != nil {
				same = false
			} else if !et.old && !kt.old {
				same = in.askEq(st, et, kt)
			}
			hit = append(hit, same)
		}
		for i, e := range o.Ents {
			if hit[i] {
				if !done {
					n.Ents = append(n.Ents, Ent{e.K, v, e.Pos})
					done = true
				}
				continue
			}
			n.Ents = append(n.Ents, e)
		}
		if !done {
			e := Ent{k, v, nil}
			if a != nil {
				e.Pos = a.pos
				if n.MImg == nil && len(o.Ents) == 0 {
					def := 1
					if a.first {
						def = 0
					}
					n.MImg = &Img{Tag: a.tag, Def: def, Pend: 1}
				} else if n.MImg != nil && n.MImg.Tag == a.tag && n.MImg.Bound == nil {
					mi := *n.MImg
					mi.Pend++
					n.MImg = &mi
				} else if n.MImg != nil {
					mi := *n.MImg
					mi.Def = 2
					n.MImg = &mi
				}
			} else if n.MImg != nil {
				mi := *n.MImg
				mi.Def = 2
				n.MImg = &mi
			}
			n.Ents = append(n.Ents, e)
		}
		if in.onStore != nil {
			in.onStore(st, ins, m, "map update")
		}
		st.heap[y.O] = &n
	default:
		in.undec("update of %T", m)
	}
}

// rangeOver: generic keys named tag are keys of m other than its designated ones.
func (in *Interp) rangeOver(tag string, m *Term) {
	if o, ok := in.rngOf[tag]; ok && o != m {
		m = nil
	}
	in.rngOf[tag] = m
}

// otherKey: x is a generic key of a map in which q is designated.
func (in *Interp) otherKey(x, q *Term) bool {
	if x.Op != "old" && x.Op != "cur" {
		return false
	}
	m := in.rngOf[x.Lit]
	if m == nil {
		return false
	}
	for _, k := range in.mapKeys[m] {
		if k == q {
			return true
		}
	}
	return false
}

// nextRune: a loop over the characters of a text that only counts is summarised by its final counts: the number of
// characters where every pass adds one, and otherwise a number of its own.
func (in *Interp) nextRune(st *State, f *Frame, x *ssa.Next) Val {
	var l *loopInfo
	for _, k := range f.info.loops {
		if k.rng == x {
			l = k
		}
	}
	if l == nil {
		in.undec("range over a string")
	}
	ip := in.val(st, f, x.Iter).(VPtr)
	text := in.toTerm(st, st.heap[ip.O].M)
	derived := map[ssa.Value]bool{x: true}
	for b := range l.body {
		for _, i := range b.Instrs {
			switch y := i.(type) {
			case *ssa.Phi, *ssa.Next, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Extract:
			case *ssa.UnOp:
				if _, ok := y.X.(*ssa.Global); !ok && y.Op == token.MUL {
					in.undec("range over a string")
				}
			case *ssa.Call:
				g := y.Call.StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "unicode" && g.Pkg.Pkg.Path() != "unicode/utf8" {
					in.undec("range over a string")
				}
			default:
				in.undec("range over a string")
			}
			if b != l.head {
				for _, s := range b.Succs {
					if !l.body[s] {
						in.undec("range over a string")
					}
				}
			}
		}
	}
	// what depends on the character
	for ch := true; ch; {
		ch = false
		for b := range l.body {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || derived[v] {
					continue
				}
				if _, isPhi := i.(*ssa.Phi); isPhi {
					continue
				}
				for _, o := range i.Operands(nil) {
					if *o != nil && derived[*o] {
						derived[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	for _, i := range l.head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		init := in.val(st, f, p)
		every, same := true, true
		for k, e := range p.Edges {
			if !l.body[p.Block().Preds[k]] {
				continue
			}
			if e != ssa.Value(p) {
				same = false
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
				every = false
				continue
			}
			if c, ok := bo.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "1" {
				every = false
			}
		}
		if same {
			continue
		}
		n, isC := constInt(init)
		if !isC || !isIntT(p.Type()) {
			in.undec("range over a string")
		}
		if every {
			if n != 0 {
				in.undec("range over a string")
			}
			in.set(f, p, in.tm("runes", text))
			continue
		}
		// counted under a condition on the character
		cond := false
		for b := range l.body {
			if y, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b != l.head && derived[y.Cond] {
				cond = true
			}
		}
		if !cond {
			in.undec("range over a string")
		}
		in.set(f, p, in.tml("counted", f.fn.Name()+"."+p.Name(), text))
	}
	return VTuple{[]Val{vbool(false), vint(0), vint(0)}}
}

func (in *Interp) next(st *State, f *Frame, x *ssa.Next) Val {
	if x.IsString {
		return in.nextRune(st, f, x)
	}
	ip := in.val(st, f, x.Iter).(VPtr)
	o := st.heap[ip.O]
	if in.onAccess != nil {
		in.onAccess(st, o.M, false)
	}
	mt := o.T.Underlying().(*types.Map)
	tag := f.fn.Name() + "." + x.Name() + "@" + strconv.Itoa(len(st.frames)-1)
	end := VTuple{[]Val{vbool(false), in.zero(mt.Key()), in.zero(mt.Elem())}}
	upd := func(vis string, key *Term, symbolic bool) {
		n := *st.heap[ip.O]
		n.Tag = tag
		g := map[string]Val{}
		if symbolic {
			g["mode"] = vbool(true)
		}
		if key != nil {
			g["key"] = key
		}
		if !o.Started {
			g["first"] = vbool(true)
		}
		n.Ghost = g
		n.Started = true
		n.Visited = vis
		st.heap[ip.O] = &n
	}
	addVis := func(k string) string {
		ps := strings.FieldsFunc(o.Visited, func(r rune) bool { return r == ',' })
		ps = append(ps, k)
		sort.Strings(ps)
		return "," + strings.Join(ps, ",") + ","
	}
	visited := func(k string) bool { return strings.Contains(o.Visited, ","+k+",") }
	switch m := o.M.(type) {
	case VNil:
		return end
	case *Term:
		type opt struct {
			k    *Term
			rest bool
			end  bool
		}
		var opts []opt
		done := true
		for _, q := range in.mapKeys[m] {
			if visited(strconv.Itoa(q.id)) {
				continue
			}
			if !in.askBool(st, in.tm("has", m, q)) {
				continue
			}
			done = false
			opts = append(opts, opt{k: q})
		}
		if !in.mapClose[m] && !in.tight {
			opts = append(opts, opt{rest: true})
		}
		if done {
			opts = append(opts, opt{end: true})
		}
		c := opts[in.choose(st, len(opts))]
		symbolic := !in.mapClose[m]
		for _, q := range in.mapKeys[m] {
			if q.Op == "sk" {
				symbolic = true
			}
		}
		if o.Started {
			in.retire(st, tag, "")
		}
		if c.end {
			in.complete(st, tag, in.tm("len", m), m)
			upd(o.Visited, nil, symbolic)
			return end
		}
		if c.rest {
			k := in.tml("cur", tag)
			in.rangeOver(tag, m)
			st.facts[in.tm("has", m, k)] = bT
			for _, q := range in.mapKeys[m] {
				st.facts[in.eqAtom(q, k)] = bF
			}
			upd(o.Visited, k, symbolic)
			return VTuple{[]Val{vbool(true), k, in.mapElem(st, m, k)}}
		}
		upd(addVis(strconv.Itoa(c.k.id)), c.k, symbolic)
		var kv Val = c.k
		if c.k.Op == "const" {
			kv = VC{c.k.cv}
		}
		return VTuple{[]Val{vbool(true), kv, in.mapElem(st, m, c.k)}}
	case VPtr:
		mo := st.heap[m.O]
		exact := mo.MImg != nil && mo.MImg.Bound != nil && mo.MImg.Def == 0
		type opt struct{ i int }
		var opts []int
		done := true
		symbolic := false
		for i, e := range mo.Ents {
			multi := e.Pos != nil && (e.Pos.Op == "old" || e.Pos.Op == "cur")
			if multi {
				symbolic = true
				opts = append(opts, i)
				continue
			}
			if e.Pos != nil && e.Pos.Op == "sk" {
				symbolic = true
			}
			if !visited(strconv.Itoa(i)) {
				done = false
				opts = append(opts, i)
			}
		}
		if mo.Any != nil {
			symbolic = true
			opts = append(opts, -2)
		}
		if done {
			opts = append(opts, -1)
		}
		c := opts[in.choose(st, len(opts))]
		if o.Started {
			in.retire(st, tag, "")
		}
		mo = st.heap[m.O]
		if c == -1 {
			if exact {
				in.complete(st, tag, mo.MImg.Bound, mo.MImg.Src)
			}
			upd(o.Visited, nil, symbolic)
			return end
		}
		cur := in.tml("cur", tag)
		if c == -2 {
			upd(o.Visited, cur, true)
			return VTuple{[]Val{vbool(true), cur, in.tm("elem", mo.Any, cur)}}
		}
		e := mo.Ents[c]
		if e.Pos != nil && (e.Pos.Op == "old" || e.Pos.Op == "cur") {
			upd(o.Visited, cur, symbolic)
			if mo.MImg != nil && mo.MImg.Src != nil {
				in.rangeOver(tag, mo.MImg.Src)
				st.facts[in.tm("has", mo.MImg.Src, cur)] = bT
				for _, q := range in.mapKeys[mo.MImg.Src] {
					st.facts[in.eqAtom(q, cur)] = bF
				}
			}
			kv := in.instantiate(st, VTuple{[]Val{e.K, e.V}}, e.Pos, cur).(VTuple)
			return VTuple{[]Val{vbool(true), kv.F[0], kv.F[1]}}
		}
		upd(addVis(strconv.Itoa(c)), e.Pos, symbolic)
		return VTuple{[]Val{vbool(true), e.K, e.V}}
	}
	in.undec("range over %T", o.M)
	return nil
}

// ---- type assertions ----

func (in *Interp) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) Val {
	v := in.val(st, f, x.X)
	ok, r := in.assertTo(st, v, x.AssertedType)
	if x.CommaOk {
		if !ok {
			r = in.zero(x.AssertedType)
		}
		return VTuple{[]Val{r, vbool(ok)}}
	}
	if !ok {
		in.panicHere(st, "type assertion to "+types.TypeString(x.AssertedType, func(*types.Package) string { return "" }))
	}
	return r
}

func (in *Interp) assertTo(st *State, v Val, T types.Type) (bool, Val) {
	switch x := v.(type) {
	case VNil:
		return false, nil
	case VIface:
		if it, ok := T.Underlying().(*types.Interface); ok {
			if types.Implements(x.T, it) {
				return true, x
			}
			return false, nil
		}
		if types.Identical(x.T, T) {
			return true, x.V
		}
		return false, nil
	case *Term:
		ts := in.typeStr(T)
		if x.Op == "mk" {
			if x.Lit == ts {
				return true, x.Args[0]
			}
			if _, ok := T.Underlying().(*types.Interface); !ok {
				return false, nil
			}
		}
		k := kindOfTypeStr(ts)
		if k != 0 {
			if in.askKind(st, x, k) {
				r := in.asTerm(x, ts)
				if l, ok := in.fixed[r]; ok {
					return true, l
				}
				return true, r
			}
			return false, nil
		}
		if isJSONIface(T) {
			if in.askKind(st, x, kNil) {
				return false, nil
			}
			return true, x
		}
		if x.Op == "elem" || x.Op == "sym" || x.Op == "ptrget" {
			if strings.HasPrefix(x.Op, "sym") && !strings.HasPrefix(x.Lit, "doc") && !isJSONSym(x) {
				break
			}
			return false, nil // JSON values have no other dynamic type
		}
		if in.askBool(st, in.tml("dyn", ts, x)) {
			if _, ok := T.Underlying().(*types.Interface); ok {
				return true, x
			}
			return true, in.asTerm(x, ts)
		}
		return false, nil
	case VTop:
		in.imprecise(st, "type of an unknown value")
		if in.choose(st, 2) == 0 {
			return true, VTop{"assert"}
		}
		return false, nil
	}
	in.undec("type assertion on %T", v)
	return false, nil
}

func isJSONSym(t *Term) bool {
	return t.Op == "sym" && len(t.Lit) > 0 && (t.Lit[0] == 'N' || t.Lit[0] == 'M' || t.Lit[0] == 'K')
}

func (in *Interp) asTerm(x *Term, ts string) *Term {
	if x.Op == "mk" && x.Lit == ts {
		return x.Args[0]
	}
	return in.tml("as", ts, x)
}

// validating: the state is inside Schema.Validate.
func (in *Interp) validating(st *State) bool {
	v := in.P.method("Schema", "Validate")
	for _, f := range st.frames {
		if f.fn == v {
			return true
		}
	}
	return false
}
