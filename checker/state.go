package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	oCell = iota
	oMap
	oIter
)

type Ent struct {
	K, V Val
	Pos  *Term
}

// Obj is immutable: an update replaces the object in the heap.
type Obj struct {
	Kind int
	T    types.Type
	V    Val // cell contents
	// maps
	Ents []Ent
	MImg *Img // map filled by a loop over MImg.Src: one entry per key
	Any  *Term
	// iterators
	M       Val
	Visited string
	Tag     string
	Started bool
	Ghost   map[string]Val
	Site    string
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Val
	blk    *ssa.BasicBlock
	ip     int
	defers []deferred
	noRes  bool // result of this call is discarded (deferred call)
	args   []Val
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	frames []*Frame
	heap   map[int]*Obj
	facts  map[*Term]uint32
	over   map[*Term]Val // writes to symbolic locations
	tape   []int         // choices for the instruction being (re)executed
	tpos   int
	locks  []string
	ev     []string // ghost event log (set semantics)
	ret    Val
	notes  map[string]Val // ghost variables
	trail  []string
}

func (st *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)), facts: make(map[*Term]uint32, len(st.facts)), over: st.over, ret: st.ret, trail: st.trail}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	if len(st.over) > 0 {
		n.over = make(map[*Term]Val, len(st.over))
		for k, v := range st.over {
			n.over[k] = v
		}
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := *f
		nf.env = append([]Val(nil), f.env...)
		nf.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &nf
	}
	n.tape = append([]int(nil), st.tape...)
	n.locks = append([]string(nil), st.locks...)
	n.ev = append([]string(nil), st.ev...)
	if st.notes != nil {
		n.notes = map[string]Val{}
		for k, v := range st.notes {
			n.notes[k] = v
		}
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(k string, v Val) {
	if st.notes == nil {
		st.notes = map[string]Val{}
	}
	st.notes[k] = v
}

func (st *State) addEv(e string) {
	for _, x := range st.ev {
		if x == e {
			return
		}
	}
	st.ev = append(st.ev, e)
	sort.Strings(st.ev)
}

// ---- function info: value numbering, liveness, loops ----

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	mu    sync.Mutex
	live  map[[2]int][]int
	liveI []map[int]bool // per block live-in
	loops []*loopInfo
	inLp  map[*ssa.BasicBlock][]*loopInfo // innermost first
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	phi  *ssa.Phi
	step *ssa.BinOp
	rng  *ssa.Next
	inHd bool // step is in the header (range style)
}

func (in *Interp) infoOf(fn *ssa.Function) *fnInfo {
	in.P.mu.Lock()
	defer in.P.mu.Unlock()
	if fi, ok := in.P.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, live: map[[2]int][]int{}, inLp: map[*ssa.BasicBlock][]*loopInfo{}}
	add := func(v ssa.Value) {
		if _, ok := fi.num[v]; !ok {
			fi.num[v] = fi.n
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	fi.liveI = make([]map[int]bool, len(fn.Blocks))
	for i := range fi.liveI {
		fi.liveI[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := fi.liveOut(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				fi.transfer(b.Instrs[k], cur)
			}
			for v := range cur {
				if !fi.liveI[b.Index][v] {
					fi.liveI[b.Index][v] = true
					ch = true
				}
			}
		}
	}
	// loops
	byHead := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					fi.loops = append(fi.loops, l)
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, l := range fi.loops {
		for _, i := range l.head.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if bo, ok := e.(*ssa.BinOp); ok && l.body[bo.Block()] && bo.X == ssa.Value(x) && (bo.Op.String() == "+" || bo.Op.String() == "-") {
						if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && isIntT(c.Type()) {
							if l.isIndexPhi(x, bo) {
								l.phi, l.step = x, bo
								l.inHd = bo.Block() == l.head
							}
						}
					}
				}
			case *ssa.Next:
				l.rng = x
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].body) < len(fi.loops[j].body) })
	for _, b := range fn.Blocks {
		for _, l := range fi.loops {
			if l.body[b] {
				fi.inLp[b] = append(fi.inLp[b], l)
			}
		}
	}
	in.P.infos[fn] = fi
	return fi
}

// isIndexPhi: the phi (or its step) decides the loop's exit by comparison, and every back edge takes the step.
func (l *loopInfo) isIndexPhi(p *ssa.Phi, s *ssa.BinOp) bool {
	for i, e := range p.Edges {
		pred := p.Block().Preds[i]
		if l.body[pred] && e != ssa.Value(s) {
			return false
		}
	}
	cmp := false
	for _, v := range []ssa.Value{p, s} {
		for _, r := range *v.Referrers() {
			if bo, ok := r.(*ssa.BinOp); ok && l.body[bo.Block()] {
				switch bo.Op.String() {
				case "<", ">", "<=", ">=", "!=", "==":
					cmp = true
				}
			}
		}
	}
	return cmp
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (fi *fnInfo) transfer(i ssa.Instruction, cur map[int]bool) {
	if v, ok := i.(ssa.Value); ok {
		delete(cur, fi.num[v])
	}
	if _, ok := i.(*ssa.Phi); ok {
		return
	}
	var ops [16]*ssa.Value
	for _, o := range i.Operands(ops[:0]) {
		if *o != nil {
			if n, ok := fi.num[*o]; ok {
				cur[n] = true
			}
		}
	}
}

func (fi *fnInfo) liveOut(b *ssa.BasicBlock) map[int]bool {
	cur := map[int]bool{}
	for _, s := range b.Succs {
		for v := range fi.liveI[s.Index] {
			cur[v] = true
		}
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for _, i := range s.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				if n, ok := fi.num[p.Edges[pi]]; ok {
					cur[n] = true
				}
			} else {
				break
			}
		}
	}
	return cur
}

// liveAt lists the values live just before instruction ip of b.
func (fi *fnInfo) liveAt(b *ssa.BasicBlock, ip int) []int {
	k := [2]int{b.Index, ip}
	fi.mu.Lock()
	defer fi.mu.Unlock()
	if r, ok := fi.live[k]; ok {
		return r
	}
	cur := fi.liveOut(b)
	for i := len(b.Instrs) - 1; i >= ip; i-- {
		fi.transfer(b.Instrs[i], cur)
	}
	r := make([]int, 0, len(cur))
	for v := range cur {
		r = append(r, v)
	}
	sort.Ints(r)
	fi.live[k] = r
	return r
}

// ---- mapping over values ----

func (in *Interp) mapVal(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case VStruct:
		return VStruct{in.mapVals(x.F, f)}
	case VTuple:
		return VTuple{in.mapVals(x.F, f)}
	case VIface:
		nv := in.mapVal(x.V, f)
		return in.mkIface(x.T, nv)
	case VFn:
		return VFn{x.Fn, in.mapVals(x.Free, f)}
	case *VList:
		return in.mapList(x, f)
	case VTok:
		return VTok{f(x.S), f(x.N), in.mapVal(x.Ctx, f), x.Spec}
	case VElem:
		return VElem{in.mapVal(x.L, f), in.mapVal(x.I, f), x.Path}
	case VIter:
		y := x
		y.L = in.mapList(x.L, f)
		return y
	case VSetLen:
		return VSetLen{in.mapList(x.L, f)}
	case VFD:
		return VFD{f(x.Atom), x.Vals}
	case VPos:
		if in.hPos != nil {
			return in.hPos(x)
		}
		return x
	case VView:
		x.L = f(x.L)
		if in.hPos != nil {
			x.Lo, x.Hi = in.hPos(x.Lo), in.hPos(x.Hi)
		}
		return x
	case VCnt:
		if x.Bound != nil {
			x.Bound = f(x.Bound)
		}
		if in.hCnt != nil {
			return in.hCnt(x)
		}
		return x
	}
	return v
}

func (in *Interp) mapVals(vs []Val, f func(*Term) *Term) []Val {
	ch := false
	r := make([]Val, len(vs))
	for i, v := range vs {
		r[i] = in.mapVal(v, f)
		if !sameVal(r[i], v) {
			ch = true
		}
	}
	if !ch {
		return vs
	}
	return r
}

func (in *Interp) mapList(l *VList, f func(*Term) *Term) *VList {
	if l == nil {
		return nil
	}
	n := &VList{Items: in.mapVals(l.Items, f), Bag: l.Bag, Img: l.Img}
	if l.Img != nil {
		n.Img = in.mapImg(l.Img, f)
	}
	if in.hBag != nil && l.Bag {
		n.Items = in.hBag(n.Items)
	}
	if n.Img == l.Img && sameSlice(n.Items, l.Items) {
		return l
	}
	return n
}

func (in *Interp) mapImg(m *Img, f func(*Term) *Term) *Img {
	if m == nil {
		return nil
	}
	n := *m
	n.Toks = nil
	ch := false
	for _, t := range m.Toks {
		nt := Tok{f(t.Pos), in.mapVal(t.V, f)}
		if nt.Pos != t.Pos || !sameVal(nt.V, t.V) {
			ch = true
		}
		n.Toks = append(n.Toks, nt)
	}
	if n.Bound != nil {
		n.Bound = f(n.Bound)
		ch = ch || n.Bound != m.Bound
	}
	if n.Src != nil {
		n.Src = f(n.Src)
		ch = ch || n.Src != m.Src
	}
	r := &n
	if !ch {
		r = m
	}
	if in.hImg != nil {
		r = in.hImg(r)
	}
	return r
}

func sameSlice(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// sameVal: cheap structural identity (pointers to objects compare by identity).
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case VC:
		y, ok := b.(VC)
		return ok && x.K.Kind() == y.K.Kind() && x.K.ExactString() == y.K.ExactString()
	case VNil:
		_, ok := b.(VNil)
		return ok
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x == y
	case VUrl:
		y, ok := b.(VUrl)
		return ok && x == y
	case VStruct:
		y, ok := b.(VStruct)
		return ok && sameSlice(x.F, y.F)
	case VTuple:
		y, ok := b.(VTuple)
		return ok && sameSlice(x.F, y.F)
	case VIface:
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case VFn:
		y, ok := b.(VFn)
		return ok && x.Fn == y.Fn && sameSlice(x.Free, y.Free)
	case VTop:
		y, ok := b.(VTop)
		return ok && x.score() == y.score()
	case VPos:
		y, ok := b.(VPos)
		return ok && x == y
	case VView:
		y, ok := b.(VView)
		return ok && x == y
	case VCnt:
		y, ok := b.(VCnt)
		return ok && x == y
	case *VList:
		y, ok := b.(*VList)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.Bag != y.Bag || !sameSlice(x.Items, y.Items) || (x.Img == nil) != (y.Img == nil) {
			return false
		}
		return x.Img == nil || sameImg(x.Img, y.Img)
	case VTok:
		y, ok := b.(VTok)
		return ok && x.S == y.S && x.N == y.N && x.Spec == y.Spec && sameVal(x.Ctx, y.Ctx)
	case VIter:
		y, ok := b.(VIter)
		return ok && x.Visited == y.Visited && x.Cur == y.Cur && x.Tag == y.Tag && x.First == y.First && sameVal(x.L, y.L)
	case VSetLen:
		y, ok := b.(VSetLen)
		return ok && sameVal(x.L, y.L)
	case VElem:
		y, ok := b.(VElem)
		return ok && x.Path == y.Path && sameVal(x.L, y.L) && sameVal(x.I, y.I)
	case VFD:
		y, ok := b.(VFD)
		return ok && x.Atom == y.Atom && len(x.Vals) == len(y.Vals)
	}
	return false
}

func sameImg(x, y *Img) bool {
	if x.Tag != y.Tag || x.Def != y.Def || x.Pend != y.Pend || x.Bound != y.Bound || x.Src != y.Src || len(x.Toks) != len(y.Toks) {
		return false
	}
	for i := range x.Toks {
		if x.Toks[i].Pos != y.Toks[i].Pos || !sameVal(x.Toks[i].V, y.Toks[i].V) {
			return false
		}
	}
	return true
}

// mapState applies a term renaming everywhere. Objects of the base heap contain no such terms.
func (in *Interp) mapState(st *State, f func(*Term) *Term) {
	for _, fr := range st.frames {
		fr.env = in.mapVals(fr.env, f)
		fr.args = in.mapVals(fr.args, f)
		for i, d := range fr.defers {
			fr.defers[i] = deferred{d.call, in.mapVal(d.fn, f), in.mapVals(d.args, f)}
		}
	}
	for id, o := range st.heap {
		if in.base[id] == o {
			continue
		}
		if n := in.mapObj(o, f); n != o {
			st.heap[id] = n
		}
	}
	if len(st.over) > 0 {
		no := map[*Term]Val{}
		for k, v := range st.over {
			no[f(k)] = in.mapVal(v, f)
		}
		st.over = no
	}
	for k, v := range st.notes {
		st.notes[k] = in.mapVal(v, f)
	}
}

func (in *Interp) mapObj(o *Obj, f func(*Term) *Term) *Obj {
	n := *o
	ch := false
	if o.V != nil {
		n.V = in.mapVal(o.V, f)
		ch = !sameVal(n.V, o.V)
	}
	if len(o.Ents) > 0 {
		n.Ents = nil
		for _, e := range o.Ents {
			ne := Ent{in.mapVal(e.K, f), in.mapVal(e.V, f), e.Pos}
			if ne.Pos != nil {
				ne.Pos = f(ne.Pos)
			}
			if !sameVal(ne.K, e.K) || !sameVal(ne.V, e.V) || ne.Pos != e.Pos {
				ch = true
			}
			n.Ents = append(n.Ents, ne)
		}
	}
	if o.MImg != nil {
		n.MImg = in.mapImg(o.MImg, f)
		ch = ch || n.MImg != o.MImg
	}
	if o.M != nil {
		n.M = in.mapVal(o.M, f)
		ch = ch || !sameVal(n.M, o.M)
	}
	if o.Ghost != nil {
		g := map[string]Val{}
		for k, v := range o.Ghost {
			g[k] = in.mapVal(v, f)
			if !sameVal(g[k], v) {
				ch = true
			}
		}
		n.Ghost = g
	}
	if !ch {
		return o
	}
	return &n
}

// bisim: two values have the same contents (objects compared structurally).
func (in *Interp) bisim(st *State, a, b Val, as map[[2]int]bool) bool {
	if sameVal(a, b) {
		return true
	}
	switch x := a.(type) {
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || x.Path != y.Path {
			return false
		}
		return in.bisimObj(st, x.O, y.O, as)
	case VStruct:
		y, ok := b.(VStruct)
		return ok && in.bisims(st, x.F, y.F, as)
	case VTuple:
		y, ok := b.(VTuple)
		return ok && in.bisims(st, x.F, y.F, as)
	case VIface:
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && in.bisim(st, x.V, y.V, as)
	case VTok:
		y, ok := b.(VTok)
		return ok && x.S == y.S && x.N == y.N && x.Spec == y.Spec && in.bisim(st, x.Ctx, y.Ctx, as)
	case *VList:
		y, ok := b.(*VList)
		if !ok || x == nil || y == nil || x.Bag != y.Bag || !in.bisims(st, x.Items, y.Items, as) || (x.Img == nil) != (y.Img == nil) {
			return false
		}
		return x.Img == nil || in.bisimImg(st, x.Img, y.Img, as)
	}
	return false
}

func (in *Interp) bisimImg(st *State, x, y *Img, as map[[2]int]bool) bool {
	if x.Tag != y.Tag || x.Def != y.Def || x.Pend != y.Pend || x.Bound != y.Bound || x.Src != y.Src || len(x.Toks) != len(y.Toks) {
		return false
	}
	for i := range x.Toks {
		if x.Toks[i].Pos != y.Toks[i].Pos || !in.bisim(st, x.Toks[i].V, y.Toks[i].V, as) {
			return false
		}
	}
	return true
}

func (in *Interp) bisims(st *State, a, b []Val, as map[[2]int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !in.bisim(st, a[i], b[i], as) {
			return false
		}
	}
	return true
}

func (in *Interp) bisimObj(st *State, a, b int, as map[[2]int]bool) bool {
	if a == b {
		return true
	}
	k := [2]int{a, b}
	if as[k] {
		return true
	}
	x, y := st.heap[a], st.heap[b]
	if x == nil || y == nil || x.Kind != y.Kind || !types.Identical(x.T, y.T) || len(x.Ents) != len(y.Ents) || len(x.Ghost) != len(y.Ghost) || x.Any != y.Any {
		return false
	}
	as[k] = true
	if x.V != nil || y.V != nil {
		if !in.bisim(st, x.V, y.V, as) {
			return false
		}
	}
	for i := range x.Ents {
		if !in.bisim(st, x.Ents[i].K, y.Ents[i].K, as) || !in.bisim(st, x.Ents[i].V, y.Ents[i].V, as) {
			return false
		}
	}
	if (x.MImg == nil) != (y.MImg == nil) || (x.MImg != nil && !in.bisimImg(st, x.MImg, y.MImg, as)) {
		return false
	}
	for g, v := range x.Ghost {
		if !in.bisim(st, v, y.Ghost[g], as) {
			return false
		}
	}
	return true
}

// ---- canonical form ----

type canonizer struct {
	in  *Interp
	st  *State
	ids map[int]int
	q   []int
	b   []byte
}

func (c *canonizer) s(x string) { c.b = append(c.b, x...) }
func (c *canonizer) i(x int)    { c.b = strconv.AppendInt(c.b, int64(x), 10) }

func (c *canonizer) obj(o int) {
	if b, ok := c.in.base[o]; ok && c.st.heap[o] == b {
		c.s("g")
		c.i(o)
		return
	}
	n, ok := c.ids[o]
	if !ok {
		n = len(c.ids)
		c.ids[o] = n
		c.q = append(c.q, o)
	}
	c.s("o")
	c.i(n)
}

func (c *canonizer) val(v Val) {
	switch x := v.(type) {
	case nil:
		c.s("_")
	case *Term:
		if x == nil {
			c.s("t-")
			return
		}
		c.s("t")
		c.i(x.id)
	case VC:
		c.s("c")
		c.b = appendConst(c.b, x.K)
	case VNil:
		c.s("N")
	case VPtr:
		c.s("p")
		c.obj(x.O)
		c.s(x.Path)
	case VUrl:
		c.s("u")
		c.s(x.F)
		c.val(x.P)
	case VStruct:
		c.s("{")
		for _, f := range x.F {
			c.val(f)
			c.s(",")
		}
		c.s("}")
	case VTuple:
		c.s("(")
		for _, f := range x.F {
			c.val(f)
			c.s(",")
		}
		c.s(")")
	case VIface:
		c.s("I<")
		c.s(c.in.typeStr(x.T))
		c.s(">")
		c.val(x.V)
	case VFn:
		c.s("F")
		c.s(fmt.Sprint(x.Fn))
		for _, f := range x.Free {
			c.val(f)
			c.s(",")
		}
	case VTop:
		c.s("T")
		if !x.score() {
			c.s("!")
		}
	case VPos:
		c.s("P" + x.Line + ":" + strconv.Itoa(x.P) + ":" + x.Tag)
		if x.BP > 0 {
			c.s("-" + strconv.Itoa(x.BP) + ":" + x.BTag)
		}
	case VView:
		c.s("W")
		c.i(x.L.id)
		c.val(x.Lo)
		c.val(x.Hi)
	case VCnt:
		c.s("C")
		c.i(x.C)
		c.s(x.Tag)
		c.i(x.Def)
		c.i(x.Pend)
		if x.Bound != nil {
			c.i(x.Bound.id)
		}
	case *VList:
		if x == nil {
			c.s("L-")
			return
		}
		c.s("L[")
		if x.Bag {
			c.s("bag")
			items := append([]Val(nil), x.Items...)
			sort.SliceStable(items, func(i, j int) bool { return c.in.shape(c.st, items[i], 3) < c.in.shape(c.st, items[j], 3) })
			for _, f := range items {
				c.val(f)
				c.s(",")
			}
		} else {
			for _, f := range x.Items {
				c.val(f)
				c.s(",")
			}
		}
		if x.Img != nil {
			c.img(x.Img)
		}
		c.s("]")
	case VTok:
		c.s("K")
		c.i(x.S.id)
		c.s(".")
		c.i(x.N.id)
		c.s(x.Spec)
		c.val(x.Ctx)
	case VIter:
		c.s("R")
		c.s(x.Visited)
		c.s(":")
		c.i(x.Cur)
		c.s(x.Tag)
		if x.First {
			c.s("f")
		}
		c.val(x.L)
	case VSetLen:
		c.s("SL")
		c.val(x.L)
	case VElem:
		c.s("E")
		c.val(x.L)
		c.s("@" + x.Path + "@")
		c.val(x.I)
	case VFD:
		c.s("D")
		c.i(x.Atom.id)
	default:
		c.s(fmt.Sprintf("?%T", v))
	}
}

func (c *canonizer) img(m *Img) {
	c.s("img" + m.Tag)
	c.i(m.Def)
	c.i(m.Pend)
	if m.Bound != nil {
		c.s("b")
		c.i(m.Bound.id)
	}
	if m.Src != nil {
		c.s("s")
		c.i(m.Src.id)
	}
	toks := append([]Tok(nil), m.Toks...)
	sort.SliceStable(toks, func(i, j int) bool {
		if toks[i].Pos != toks[j].Pos {
			return toks[i].Pos.id < toks[j].Pos.id
		}
		return c.in.shape(c.st, toks[i].V, 3) < c.in.shape(c.st, toks[j].V, 3)
	})
	for _, t := range toks {
		c.i(t.Pos.id)
		c.s("=")
		c.val(t.V)
		c.s(";")
	}
}

// shape: bounded-depth content string, used only to order unordered collections.
func (in *Interp) shape(st *State, v Val, d int) string {
	switch x := v.(type) {
	case VPtr:
		o := st.heap[x.O]
		if o == nil {
			return "?"
		}
		if d == 0 {
			return "o:" + types.TypeString(o.T, nil)
		}
		s := "o<" + x.Path + types.TypeString(o.T, nil)
		if o.V != nil {
			s += in.shape(st, o.V, d-1)
		}
		for _, e := range o.Ents {
			s += in.shape(st, e.K, d-1) + "=" + in.shape(st, e.V, d-1)
		}
		var ks []string
		for k := range o.Ghost {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += k + in.shape(st, o.Ghost[k], d-1)
		}
		return s + ">"
	case VStruct:
		var b strings.Builder
		for _, f := range x.F {
			b.WriteString(in.shape(st, f, d))
			b.WriteByte(',')
		}
		return b.String()
	case VIface:
		return "I" + types.TypeString(x.T, nil) + in.shape(st, x.V, d)
	case *VList:
		if x == nil {
			return "L-"
		}
		if d == 0 {
			return "L"
		}
		s := "L["
		for _, f := range x.Items {
			s += in.shape(st, f, d-1) + ","
		}
		if x.Img != nil {
			s += "img"
		}
		return s + "]"
	case VTok:
		return "K" + strconv.Itoa(x.S.id) + "." + strconv.Itoa(x.N.id) + x.Spec + in.shape(st, x.Ctx, d)
	default:
		c := canonizer{in: in, st: st, ids: map[int]int{}}
		c.val(v)
		return string(c.b)
	}
}

func (in *Interp) canon(st *State) uint64x2 {
	c := &canonizer{in: in, st: st, ids: map[int]int{}, b: in.cbuf[:0]}
	for i, f := range st.frames {
		c.s("F" + f.fn.String())
		c.i(f.blk.Index)
		c.s(".")
		c.i(f.ip)
		c.s(":")
		ip := f.ip
		if i < len(st.frames)-1 {
			ip++ // the call's own operands are dead, its result is not yet defined
		}
		for _, n := range f.info.liveAt(f.blk, ip) {
			c.i(n)
			c.s("=")
			c.val(f.env[n])
			c.s(";")
		}
		for _, d := range f.defers {
			c.s("d")
			c.val(d.fn)
			for _, a := range d.args {
				c.val(a)
			}
		}
	}
	for _, g := range in.globalIDs {
		if st.heap[g] != in.base[g] {
			c.s("G")
			c.i(g)
			c.obj(g)
		}
	}
	for _, k := range sortedKeys(st.notes) {
		c.s("n" + k + "=")
		c.val(st.notes[k])
	}
	for _, id := range in.roots {
		c.s("r")
		c.obj(id)
	}
	if len(st.over) > 0 {
		var ks []*Term
		for k := range st.over {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			c.s("w")
			c.i(k.id)
			c.val(st.over[k])
		}
	}
	for len(c.q) > 0 {
		id := c.q[0]
		c.q = c.q[1:]
		o := st.heap[id]
		c.s("\nO")
		if o == nil {
			continue
		}
		c.i(o.Kind)
		c.val(o.V)
		for _, e := range o.Ents {
			c.val(e.K)
			c.s(":")
			c.val(e.V)
			c.s(";")
		}
		if o.MImg != nil {
			c.img(o.MImg)
		}
		if o.Any != nil {
			c.i(o.Any.id)
		}
		if o.M != nil {
			c.val(o.M)
		}
		c.s(o.Visited)
		if o.Started {
			c.s("st")
		}
		for _, k := range sortedKeys(o.Ghost) {
			c.s("g" + k)
			c.val(o.Ghost[k])
		}
	}
	var ks []*Term
	for k := range st.facts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	c.s("\n#")
	for _, k := range ks {
		c.i(k.id)
		c.s(":")
		c.i(int(st.facts[k]))
		c.s(";")
	}
	for _, l := range st.locks {
		c.s("l" + l)
	}
	for _, e := range st.ev {
		c.s("e" + e)
	}
	in.cbuf = c.b
	// collect garbage
	for id := range st.heap {
		if _, ok := c.ids[id]; !ok {
			if _, b := in.base[id]; !b {
				delete(st.heap, id)
			}
		}
	}
	h := fnv.New128a()
	h.Write(c.b)
	var r uint64x2
	copy(r[:], h.Sum(nil))
	return r
}

type uint64x2 [16]byte

func sortedKeys(m map[string]Val) []string {
	if len(m) == 0 {
		return nil
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func constInt(v Val) (int64, bool) {
	if c, ok := v.(VC); ok && c.K.Kind() == constant.Int {
		return constant.Int64Val(c.K)
	}
	return 0, false
}
func constStr(v Val) (string, bool) {
	if c, ok := v.(VC); ok && c.K.Kind() == constant.String {
		return constant.StringVal(c.K), true
	}
	return "", false
}
func constBool(v Val) (bool, bool) {
	if c, ok := v.(VC); ok && c.K.Kind() == constant.Bool {
		return constant.BoolVal(c.K), true
	}
	return false, false
}

func appendConst(b []byte, k constant.Value) []byte {
	switch k.Kind() {
	case constant.String:
		s := constant.StringVal(k)
		b = append(b, 's')
		b = strconv.AppendInt(b, int64(len(s)), 10)
		b = append(b, ':')
		return append(b, s...)
	case constant.Bool:
		if constant.BoolVal(k) {
			return append(b, 'T')
		}
		return append(b, 'F')
	case constant.Int:
		if i, ok := constant.Int64Val(k); ok {
			return strconv.AppendInt(b, i, 10)
		}
	}
	return append(b, k.ExactString()...)
}

func (in *Interp) typeStr(t types.Type) string {
	if s, ok := in.tstr[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	in.tstr[t] = s
	return s
}
