package main

import (
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// Deterministic automata of Go regular expressions under MatchString semantics (unanchored search), built by the
// subset construction over representative runes, to decide inclusion and disjointness of languages.

type rxProg struct {
	p *syntax.Prog
}

func compileRx(s string) (*rxProg, bool) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, false
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, false
	}
	return &rxProg{p}, true
}

type rxState struct {
	acc  bool  // a match was found
	prev rune  // representative of the previous rune's class; -1 at the start
	pcs  []int // sorted
}

func (s rxState) key() string {
	if s.acc {
		return "A"
	}
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(s.prev)))
	for _, p := range s.pcs {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(p))
	}
	return b.String()
}

func (r *rxProg) start() rxState { return rxState{prev: -1, pcs: []int{r.p.Start}} }

// closure of pcs under the empty-width context; reports whether a match is reached.
func (r *rxProg) closure(s rxState, next rune) (map[int]bool, bool) {
	flags := syntax.EmptyOpContext(s.prev, next)
	seen := map[int]bool{}
	match := false
	var rec func(pc int)
	rec = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := &r.p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			rec(int(i.Out))
			rec(int(i.Arg))
		case syntax.InstCapture, syntax.InstNop:
			rec(int(i.Out))
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^flags == 0 {
				rec(int(i.Out))
			}
		case syntax.InstMatch:
			match = true
		}
	}
	for _, pc := range s.pcs {
		rec(pc)
	}
	return seen, match
}

func prevClass(x rune) rune {
	switch {
	case x == '\n':
		return '\n'
	case syntax.IsWordChar(x):
		return 'a'
	}
	return ' '
}

func (r *rxProg) next(s rxState, x rune) rxState {
	if s.acc {
		return s
	}
	cl, m := r.closure(s, x)
	if m {
		return rxState{acc: true}
	}
	out := map[int]bool{r.p.Start: true}
	for pc := range cl {
		i := &r.p.Inst[pc]
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if i.MatchRune(x) {
				out[int(i.Out)] = true
			}
		}
	}
	n := rxState{prev: prevClass(x)}
	for p := range out {
		n.pcs = append(n.pcs, p)
	}
	sort.Ints(n.pcs)
	return n
}

func (r *rxProg) accepts(s rxState) bool {
	if s.acc {
		return true
	}
	_, m := r.closure(s, -1)
	return m
}

// reps: one rune of every class the expressions distinguish.
func reps(ps ...*rxProg) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true}
	for _, r := range []rune{'0', '9' + 1, 'A', 'Z' + 1, '_', '_' + 1, 'a', 'z' + 1} {
		cut[r] = true
	}
	for _, p := range ps {
		for k := range p.p.Inst {
			i := &p.p.Inst[k]
			switch i.Op {
			case syntax.InstRune, syntax.InstRune1:
				rs := i.Rune
				if len(rs) == 1 {
					x := rs[0]
					for y := x; ; {
						cut[y], cut[y+1] = true, true
						y = unicode.SimpleFold(y)
						if y == x {
							break
						}
					}
					continue
				}
				for j := 0; j+1 < len(rs); j += 2 {
					cut[rs[j]] = true
					cut[rs[j+1]+1] = true
				}
			}
		}
	}
	var r []rune
	for x := range cut {
		if x >= 0 && x <= unicode.MaxRune {
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

type rxLit struct {
	src string
	pos bool
}

var rxMemo sync.Map

// rxImplied: given which expressions match a string and which do not, does want match it?
func rxImplied(given []rxLit, want string) (tri, string, bool) {
	var ks []string
	for _, g := range given {
		ks = append(ks, g.src+"\x00"+strconv.FormatBool(g.pos))
	}
	sort.Strings(ks)
	k := strings.Join(ks, "\x01") + "\x02" + want
	type res struct {
		t  tri
		w  string
		ok bool
	}
	if x, ok := rxMemo.Load(k); ok {
		y := x.(res)
		return y.t, y.w, y.ok
	}
	t, w, ok := rxImplied0(given, want)
	rxMemo.Store(k, res{t, w, ok})
	return t, w, ok
}

func rxImplied0(given []rxLit, want string) (tri, string, bool) {
	var ps []*rxProg
	for _, g := range given {
		p, ok := compileRx(g.src)
		if !ok {
			return triU, "", false
		}
		ps = append(ps, p)
	}
	wp, ok := compileRx(want)
	if !ok {
		return triU, "", false
	}
	ps = append(ps, wp)
	rs := reps(ps...)
	if len(rs) > 400 {
		return triU, "", false
	}
	type node struct {
		ss   []rxState
		from *node
		r    rune
	}
	key := func(n *node) string {
		var b []string
		for _, s := range n.ss {
			b = append(b, s.key())
		}
		return strings.Join(b, "|")
	}
	first := &node{}
	for _, p := range ps {
		first.ss = append(first.ss, p.start())
	}
	seen := map[string]bool{key(first): true}
	q := []*node{first}
	var yes, no *node
	for len(q) > 0 && (yes == nil || no == nil) {
		n := q[0]
		q = q[1:]
		hold := true
		for i, g := range given {
			if ps[i].accepts(n.ss[i]) != g.pos {
				hold = false
				break
			}
		}
		if hold {
			if wp.accepts(n.ss[len(n.ss)-1]) {
				if yes == nil {
					yes = n
				}
			} else if no == nil {
				no = n
			}
		}
		for _, x := range rs {
			m := &node{from: n, r: x}
			for i, p := range ps {
				m.ss = append(m.ss, p.next(n.ss[i], x))
			}
			k := key(m)
			if !seen[k] {
				if len(seen) > 200000 {
					return triU, "", false
				}
				seen[k] = true
				q = append(q, m)
			}
		}
	}
	str := func(n *node) string {
		var b []rune
		for ; n != nil && n.from != nil; n = n.from {
			b = append([]rune{n.r}, b...)
		}
		return string(b)
	}
	switch {
	case yes != nil && no != nil:
		return triU, strconv.Quote(str(yes)) + " and " + strconv.Quote(str(no)), true
	case yes != nil:
		return triT, "", true
	case no != nil:
		return triF, "", true
	}
	return triT, "", true // no such string
}
