package main

// Terms: interned symbolic names for the values the analysed code computes from its inputs.
// A term is a pure function of the inputs; two occurrences of the same computation are the same term.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
)

type Term struct {
	Op     string
	Lit    string
	Args   []*Term
	id     int
	old    bool     // mentions a retired ("some other") element: facts about it are never remembered
	curs   []string // tags of current "other" elements it mentions
	cv     constant.Value
	ground uint8
}

type termTab struct {
	tab map[string]*Term
	n   int
	str map[*Term]string
}

func newTermTab() *termTab { return &termTab{tab: map[string]*Term{}, str: map[*Term]string{}} }

func (tt *termTab) clone() *termTab {
	n := newTermTab()
	if tt != nil {
		for k, v := range tt.tab {
			n.tab[k] = v
		}
		n.n = tt.n
	}
	return n
}

func (tt *termTab) mk(op, lit string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(lit)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{Op: op, Lit: lit, Args: args, id: tt.n}
	if op == "old" {
		t.old = true
	}
	seen := map[string]bool{}
	if op == "cur" {
		seen[lit] = true
	}
	for _, a := range args {
		if a.old {
			t.old = true
		}
		for _, c := range a.curs {
			seen[c] = true
		}
	}
	for c := range seen {
		t.curs = append(t.curs, c)
	}
	sort.Strings(t.curs)
	tt.tab[k] = t
	return t
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case "const":
		return t.Lit
	case "sym", "sk":
		return t.Lit
	case "cur":
		return "other(" + shortTag(t.Lit) + ")"
	case "old":
		return "earlier(" + shortTag(t.Lit) + ")"
	case "elem":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "as", "rat":
		if !longTerms {
			return t.Args[0].String()
		}
	}
	s := t.Op
	if t.Lit != "" {
		s += ":" + t.Lit
	}
	if len(t.Args) > 0 {
		var as []string
		for _, a := range t.Args {
			as = append(as, a.String())
		}
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

func shortTag(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// ---- helpers on the interpreter ----

func (in *Interp) sym(name string) *Term { return in.tt.mk("sym", name) }
func (in *Interp) sk(name string) *Term  { return in.tt.mk("sk", name) }
func (in *Interp) tm(op string, args ...*Term) *Term {
	return in.tt.mk(op, "", args...)
}
func (in *Interp) tml(op, lit string, args ...*Term) *Term {
	return in.tt.mk(op, lit, args...)
}
func (in *Interp) cterm(v constant.Value) *Term {
	t := in.tt.mk("const", v.ExactString())
	t.cv = v
	return t
}
func (in *Interp) str(s string) *Term { return in.cterm(constant.MakeString(s)) }
func (in *Interp) num(n int64) *Term  { return in.cterm(constant.MakeInt64(n)) }

// subst replaces leaf terms.
func (in *Interp) subst(t *Term, m map[*Term]*Term) *Term {
	return in.substM(t, m, map[*Term]*Term{})
}
func (in *Interp) substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var na []*Term
	ch := false
	for _, a := range t.Args {
		b := in.substM(a, m, memo)
		if b != a {
			ch = true
		}
		na = append(na, b)
	}
	r := t
	if ch {
		r = in.tt.mk(t.Op, t.Lit, na...)
		r.cv = t.cv
	}
	memo[t] = r
	return r
}

func mentions(t *Term, what *Term) bool {
	if t == what {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, what) {
			return true
		}
	}
	return false
}

// ---- values ----

type Val interface{}

type VC struct { // constant
	K constant.Value
}
type VNil struct{}
type VPtr struct {
	O    int
	Path string // "/i/j"
}
type VStruct struct{ F []Val }
type VTuple struct{ F []Val }
type VIface struct {
	T types.Type
	V Val
}
type VFn struct {
	Fn   interface{} // *ssa.Function or *ssa.Builtin
	Free []Val
}
type VTop struct{ Why string }

// VPos: an integer known only by its place among the landmarks of a line.
type VPos struct {
	Line string
	P    int // 2g: equal to landmark group g; 2g+1: strictly between g and g+1; -1: negative
	Tag  string
	BP   int // the value is the distance from position BP-1 (and BTag); 0: from zero
	BTag string
}

// VView: the elements of a symbolic list between two positions of its line.
type VView struct {
	L      *Term
	Lo, Hi VPos
}

// VCnt: a counter incremented inside an unbounded loop.
type VCnt struct {
	C     int // exact up to 3; 4 means four or more
	Tag   string
	Def   int   // 0: one increment per iteration so far; 1: fewer; 2: unknown
	Pend  int   // increments in the current iteration
	Bound *Term // length the loop ran to, once it completed
}

// VList: an immutable slice value.
type VList struct {
	Items []Val
	Bag   bool  // unordered collection of tokens of unknown multiplicity
	Img   *Img  // one token per loop iteration (exact when Def==0)
	Orig  *Term // the array of the input it is
}
type Img struct {
	Tag   string
	Toks  []Tok
	Def   int
	Pend  int
	Bound *Term
	Src   *Term // line's length term / source map
}
type Tok struct {
	Pos *Term
	V   Val
}

// VTok: errors contributed by a sub-validation that failed.
type VTok struct {
	S, N *Term
	Ctx  Val
	Spec string
}

// VIter: index into a list iterated as a set.
type VIter struct {
	L       *VList
	Visited string // indices of visited must-tokens
	Cur     int    // token index; -1 end
	Tag     string
	First   bool
}
type VSetLen struct{ L *VList }

// VElem: address of an element of an immutable or symbolic list.
type VElem struct {
	L    Val
	I    Val
	Path string // of a field, if the elements are structs
}

// VUrl: pointer to the url inside a reference cell.
type VUrl struct {
	P VPtr
	F string // field, "" for the url itself
}

// VFD: a value of a finite domain determined by an atom.
type VFD struct {
	Atom *Term
	Vals []constant.Value
}

func vbool(b bool) Val    { return VC{constant.MakeBool(b)} }
func vint(i int64) Val    { return VC{constant.MakeInt64(i)} }
func vstr(s string) Val   { return VC{constant.MakeString(s)} }
func isNilVal(v Val) bool { _, ok := v.(VNil); return ok }

var longTerms = os.Getenv("CHK_LONG") != ""

var debugTrail = os.Getenv("CHK_TRAIL") != ""
