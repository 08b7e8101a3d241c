package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function value and the arguments of a call.
func (in *Interp) callee(st *State, f *Frame, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if cc.IsInvoke() {
		r := in.val(st, f, cc.Value)
		args = append(args, r)
		for _, a := range cc.Args {
			args = append(args, in.val(st, f, a))
		}
		return nil, args
	}
	fn := in.val(st, f, cc.Value)
	for _, a := range cc.Args {
		args = append(args, in.val(st, f, a))
	}
	return fn, args
}

func (in *Interp) doCall(st *State, f *Frame, x *ssa.Call, cc *ssa.CallCommon, deferred bool) bool {
	fn, args := in.callee(st, f, cc)
	r, entered := in.call(st, f, cc, fn, args)
	if entered {
		return true
	}
	in.set(f, x, r)
	f.ip++
	return true
}

func (in *Interp) runDeferred(st *State, f *Frame, d deferred) bool {
	_, entered := in.call(st, f, d.call, d.fn, d.args)
	// the frame may have been re-sliced, not copied: pop on the same frame
	f.defers = f.defers[:len(f.defers)-1]
	if entered {
		st.top().noRes = true
	}
	return true
}

// call performs a call: either a result is available at once, or a new frame was entered.
func (in *Interp) call(st *State, f *Frame, cc *ssa.CallCommon, fn Val, args []Val) (Val, bool) {
	if in.onDyn != nil {
		in.onDyn(st, cc)
	}
	if cc.IsInvoke() {
		return in.invoke(st, cc, args)
	}
	switch g := fn.(type) {
	case VNil:
		in.panicHere(st, "call of a nil function")
	case VFn:
		if b, ok := g.Fn.(*ssa.Builtin); ok {
			return in.builtin(st, f, b.Name(), cc, args), false
		}
		return in.callFn(st, g.Fn.(*ssa.Function), args, g.Free, cc)
	case *Term:
		if in.onInvoke != nil {
			if r, ok := in.onInvoke(st, g, nil, args); ok {
				return r, false
			}
		}
		return in.pureResult(st, "call:"+g.String(), cc.Signature(), args), false
	}
	in.undec("call of %T", fn)
	return nil, false
}

func (in *Interp) invoke(st *State, cc *ssa.CallCommon, args []Val) (Val, bool) {
	switch r := args[0].(type) {
	case VNil:
		in.panicHere(st, "method call on nil interface")
	case VIface:
		m := in.P.prog.LookupMethod(r.T, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			in.undec("no method %s on %s", cc.Method.Name(), r.T)
		}
		na := append([]Val{r.V}, args[1:]...)
		return in.callFn(st, m, na, nil, cc)
	case *Term:
		if in.onInvoke != nil {
			if v, ok := in.onInvoke(st, r, cc.Method, args[1:]); ok {
				return v, false
			}
		}
		if !in.nonNilTerm(r) {
			if in.askBool(st, in.tm("isnil", r)) {
				in.panicHere(st, "method call on nil interface")
			}
		}
		return in.modelInvoke(st, r, cc.Method, args[1:]), false
	}
	if x, ok := args[0].(VTok); ok {
		// an error of a failed sub-validation: what it says is a function of schema and value
		res := cc.Method.Type().(*types.Signature).Results()
		if res.Len() == 1 {
			if isPtrToNamed(res.At(0).Type(), in.P.tCtx) {
				return x.Ctx, false
			}
			return in.tml("tokattr", cc.Method.Name(), x.S, x.N), false
		}
		return VTuple{}, false
	}
	in.undec("method call on %T", args[0])
	return nil, false
}

func (in *Interp) callFn(st *State, fn *ssa.Function, args, free []Val, cc *ssa.CallCommon) (Val, bool) {
	if in.onCall != nil {
		if r, ok := in.onCall(st, fn, args, cc); ok {
			return r, false
		}
	}
	if len(fn.Blocks) == 0 {
		return in.model(st, fn.String(), fn.Signature, args), false
	}
	if !in.noOpaque {
		if r, ok := in.opaque(st, fn, args); ok {
			return r, false
		}
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == fn {
			n++
		}
	}
	max := in.maxRec
	if in.recOf != nil {
		if m := in.recOf(fn); m >= 0 {
			max = m
		}
	}
	if n >= max && !in.initMode && !(in.inlineRec != nil && in.inlineRec(st, fn, args, n)) {
		if r, ok := in.recursion(st, fn, args, n); ok {
			return r, false
		}
		if n > 6 {
			in.undec("unbounded recursion of %s", fn.Name())
		}
	}
	// remember what a schema object was compiled from
	if i := in.P.parseParam(fn); i >= 0 && (n < max || in.inlineRec != nil) {
		if k := in.P.nodeParam(fn); k >= 0 {
			if p, ok := args[i].(VPtr); ok && p.Path == "" {
				o := *st.heap[p.O]
				if _, has := o.Ghost["from"]; !has {
					g := map[string]Val{}
					for a, b := range o.Ghost {
						g[a] = b
					}
					g["from"] = in.toTerm(st, args[k])
					o.Ghost = g
					st.heap[p.O] = &o
				}
			}
		}
	}
	in.enter(st, fn, args, free)
	return nil, true
}

// ---- opaque summaries ----

func (in *Interp) opaque(st *State, fn *ssa.Function, args []Val) (Val, bool) {
	if fn.Pkg != in.P.pkg {
		return nil, false
	}
	sig := fn.Signature
	switch {
	case fn == in.P.fnFormat:
		return in.tm("text", in.toTerm(st, args[0]), in.toTerm(st, args[1])), true
	case fn == in.P.fnCtxString:
		if isNilVal(args[0]) {
			in.panicHere(st, "nil dereference")
		}
		return in.tm("path", in.ctxTerm(st, args[0]), in.toTerm(st, args[1])), true
	}
	_ = sig
	return nil, false
}

// ctxTerm: the path denoted by a context value, as a term path of its components (root first).
func (in *Interp) ctxTerm(st *State, v Val) *Term { return in.toTerm(st, v) }

// ---- recursion ----

func (in *Interp) recursion(st *State, fn *ssa.Function, args []Val, depth int) (Val, bool) {
	P := in.P
	// compile-time recursion: parse(node, *subSchema) error
	if i := P.parseParam(fn); i >= 0 {
		k := P.nodeParam(fn)
		if k >= 0 {
			return in.parseCut(st, fn, args, i, k), true
		}
	}
	if P.isRefWalk(fn) {
		return in.walkCut(st, fn, args), true
	}
	if s, n, ok := P.validateParams(fn); ok {
		return in.validateCut(st, fn, args, s, n), true
	}
	if ss := P.subParams(fn); len(ss) > 1 && P.nodeParam(fn) >= 0 && P.hasResult(fn) && P.recursive(fn) {
		// several schemas are looked into: one schema if they are the same
		for _, i := range ss[1:] {
			if !sameVal(args[i], args[ss[0]]) {
				in.undec("%s is called with two schemas", fn.Name())
			}
		}
		return in.validateCut(st, fn, args, ss[0], P.nodeParam(fn)), true
	}
	if !P.recursive(fn) || fn.Pkg != P.pkg {
		return nil, false
	}
	// schema, node, result and context handed over in a structure
	ts, vs, bundled := in.flatParams(st, fn, args)
	si, ni, nr := -1, -1, 0
	for i, t := range ts {
		switch {
		case isPtrToNamed(t, P.tSub):
			if si >= 0 && !sameVal(vs[si], vs[i]) {
				in.undec("%s is called with two schemas", fn.Name())
			}
			si = i
		case isPtrToNamed(t, P.tResult):
			nr++
		case isNodeT(t):
			if ni >= 0 {
				in.undec("%s is called with two values", fn.Name())
			}
			ni = i
		}
	}
	if si >= 0 && ni >= 0 && bundled && (nr > 0 || P.hasResult(fn)) {
		return in.validateCutT(st, fn, ts, vs, si, ni), true
	}
	if nr > 0 || si >= 0 && ni >= 0 {
		in.undec("recursion of %s is not understood", fn.Name())
	}
	return nil, false
}

// validated: the schema a validation function is called with.
func (in *Interp) validated(st *State, fn *ssa.Function, args []Val) (Val, bool) {
	P := in.P
	if s, _, ok := P.validateParams(fn); ok {
		return args[s], true
	}
	if fn.Pkg != P.pkg || !P.recursive(fn) {
		return nil, false
	}
	ts, vs, _ := in.flatParams(st, fn, args)
	var sch Val
	node, res := false, P.hasResult(fn)
	for i, t := range ts {
		switch {
		case isPtrToNamed(t, P.tSub):
			if sch != nil && !sameVal(sch, vs[i]) {
				return nil, false
			}
			sch = vs[i]
		case isPtrToNamed(t, P.tResult):
			res = true
		case isNodeT(t):
			node = true
		}
	}
	return sch, sch != nil && node && res
}

// flatParams: the parameters with structures of the package replaced by their fields, without inert schemas.
func (in *Interp) flatParams(st *State, fn *ssa.Function, args []Val) ([]types.Type, []Val, bool) {
	P := in.P
	var ts []types.Type
	var vs []Val
	bundled := false
	for i, p := range fn.Params {
		t, v := p.Type(), args[i]
		if isPtrToNamed(t, P.tSub) && P.inert[fn][i] {
			continue
		}
		n, isPtr := t, false
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			n, isPtr = pt.Elem(), true
		}
		nm, _ := types.Unalias(n).(*types.Named)
		if nm != nil && nm.Obj().Pkg() == P.pkg.Pkg && nm != P.tSub && nm != P.tResult && nm != P.tCtx && nm.Obj().Name() != "Schema" {
			if su, ok := nm.Underlying().(*types.Struct); ok {
				if q, ok := v.(VPtr); ok && isPtr && st.heap[q.O] != nil {
					v = in.getPath(st.heap[q.O].V, splitPath(q.Path), nil)
				}
				if sv, ok := v.(VStruct); ok && len(sv.F) == su.NumFields() {
					bundled = true
					for k := 0; k < su.NumFields(); k++ {
						ts, vs = append(ts, su.Field(k).Type()), append(vs, sv.F[k])
					}
					continue
				}
			}
		}
		ts, vs = append(ts, t), append(vs, v)
	}
	return ts, vs, bundled
}

func (in *Interp) schemaTerm(st *State, v Val) *Term {
	if p, ok := v.(VPtr); ok {
		o := st.heap[p.O]
		if g, ok := o.Ghost["from"]; ok {
			return in.tm("compiled", in.toTerm(st, g))
		}
		return in.tml("unparsed", strconv.Itoa(p.O))
	}
	return in.toTerm(st, v)
}

func (in *Interp) nodeTerm(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if x.Op == "as" {
			return x.Args[0]
		}
		return x
	case VIface:
		return in.toTerm(st, x)
	}
	return in.toTerm(st, v)
}

func (in *Interp) validateCut(st *State, fn *ssa.Function, args []Val, si, ni int) Val {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	return in.validateCutT(st, fn, ts, args, si, ni)
}

func (in *Interp) validateCutT(st *State, fn *ssa.Function, ts []types.Type, args []Val, si, ni int) Val {
	P := in.P
	if isNilVal(args[si]) {
		in.panicHere(st, "nil dereference")
	}
	sch := in.schemaTerm(st, args[si])
	if sch.Op != "compiled" && sch.Op != "elem" && sch.Op != "meta" {
		if t, ok := args[si].(*Term); ok {
			if !in.nonNilTerm(t) && in.askBool(st, in.tm("isnil", t)) {
				in.panicHere(st, "nil dereference")
			}
		}
	}
	node := in.nodeTerm(st, args[ni])
	valid := in.askBool(st, in.tm("V", sch, node))
	in.events["validate "+sch.String()+" on "+node.String()]++
	var ctx Val = VNil{}
	for i, t := range ts {
		if isPtrToNamed(t, P.tCtx) {
			ctx = args[i]
		}
	}
	tok := VTok{S: sch, N: node, Ctx: ctx}
	for i, t := range ts {
		if isPtrToNamed(t, P.tResult) {
			rp, ok := args[i].(VPtr)
			if !ok {
				in.undec("result is %T", args[i])
			}
			if !valid {
				fresh := in.freshScore(st, rp)
				in.appendErrors(st, rp, &VList{Items: []Val{tok}})
				if fresh {
					in.setScore(st, rp, in.tm("score", sch, node))
				}
			}
		}
	}
	// results
	res := fn.Signature.Results()
	mk := func(t types.Type) Val {
		if isPtrToNamed(t, P.tResult) {
			rp := in.alloc(st, &Obj{Kind: oCell, T: P.tResult, V: in.zero(P.tResult)})
			if !valid {
				in.appendErrors(st, rp, &VList{Items: []Val{tok}})
				if in.trackScore && P.scoreField >= 0 {
					in.setScore(st, rp, in.tm("score", sch, node))
				}
			}
			return rp
		}
		if isBasic(t, types.IsBoolean) {
			return vbool(valid)
		}
		if isErrorT(t) {
			return VNil{}
		}
		return VTop{"result"}
	}
	switch res.Len() {
	case 0:
		return VTuple{}
	case 1:
		return mk(res.At(0).Type())
	}
	var r []Val
	for i := 0; i < res.Len(); i++ {
		r = append(r, mk(res.At(i).Type()))
	}
	return VTuple{r}
}

func (in *Interp) appendErrors(st *State, rp VPtr, l *VList) {
	o := *st.heap[rp.O]
	path := splitPath(rp.Path)
	rv := in.getPath(o.V, path, nil)
	s, ok := rv.(VStruct)
	if !ok {
		in.undec("result contents %T", rv)
	}
	fi := in.P.errField
	nl := in.appendList(st, s.F[fi], l)
	o.V = in.setPath(o.V, append(append([]int(nil), path...), fi), nl)
	st.heap[rp.O] = &o
	// the score is not tracked
	if in.P.scoreField >= 0 {
		o2 := *st.heap[rp.O]
		o2.V = in.setPath(o2.V, append(append([]int(nil), path...), in.P.scoreField), VTop{"score"})
		st.heap[rp.O] = &o2
	}
}

// freshScore: the score of a result that holds nothing yet is to be followed.
func (in *Interp) freshScore(st *State, rp VPtr) bool {
	if !in.trackScore || in.P.scoreField < 0 {
		return false
	}
	s, ok := in.getPath(st.heap[rp.O].V, splitPath(rp.Path), nil).(VStruct)
	if !ok {
		return false
	}
	c, ok := s.F[in.P.scoreField].(VC)
	return ok && c.K.Kind() == constant.Int && constant.Sign(c.K) == 0
}

func (in *Interp) setScore(st *State, rp VPtr, t *Term) {
	o := *st.heap[rp.O]
	o.V = in.setPath(o.V, append(splitPath(rp.Path), in.P.scoreField), t)
	st.heap[rp.O] = &o
}

func (in *Interp) parseCut(st *State, fn *ssa.Function, args []Val, si, ni int) Val {
	p, ok := args[si].(VPtr)
	if !ok || p.Path != "" {
		in.undec("schema under construction is %T", args[si])
	}
	node := in.nodeTerm(st, args[ni])
	ok = in.askBool(st, in.tm("PS", node))
	in.events["compile "+node.String()]++
	o := *st.heap[p.O]
	s, isS := o.V.(VStruct)
	if !isS {
		in.undec("schema contents %T", o.V)
	}
	from := in.tm("compiled", node)
	nf := append([]Val(nil), s.F...)
	mods := in.P.modSet()
	ts := in.P.tSub.Underlying().(*types.Struct)
	pre := append([]Val(nil), s.F...)
	for i := range nf {
		if mods[i] {
			nf[i] = in.tml("f", ts.Field(i).Name(), from)
		}
	}
	g := map[string]Val{"from": node, "pre": VStruct{pre}}
	o.V = VStruct{nf}
	o.Ghost = g
	st.heap[p.O] = &o
	// the pools may have grown
	for _, a := range args {
		in.growPools(st, a, map[int]bool{}, 3)
	}
	if ok {
		return VNil{}
	}
	return in.tml("err", "compile", node)
}

// growPools: maps of compiled schemas or documents reachable from v may have new entries.
func (in *Interp) growPools(st *State, v Val, seen map[int]bool, d int) {
	p, ok := v.(VPtr)
	if !ok || seen[p.O] || d < 0 || in.noGrow {
		return
	}
	seen[p.O] = true
	o := st.heap[p.O]
	if o == nil {
		return
	}
	if o.Kind == oMap {
		mt := o.T.Underlying().(*types.Map)
		e := mt.Elem()
		if pt, ok := e.(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() == in.P.pkg.Pkg && o.Any == nil {
				n2 := *o
				n2.Any = in.sym("pool of " + n.Obj().Name())
				st.heap[p.O] = &n2
			}
		}
		return
	}
	if n, ok := o.T.(*types.Named); ok && n == in.P.tSub {
		return
	}
	if s, ok := o.V.(VStruct); ok {
		for _, x := range s.F {
			in.growPools(st, x, seen, d-1)
		}
	}
	if q, ok := o.V.(VPtr); ok {
		in.growPools(st, q, seen, d-1)
	}
}

func (in *Interp) walkCut(st *State, fn *ssa.Function, args []Val) Val {
	k := in.P.nodeParam(fn)
	node := in.nodeTerm(st, args[k])
	var rest []*Term
	for i, p := range fn.Params {
		if i == k {
			continue
		}
		if isNamed(p.Type(), "JsonReference") || isPtrNamed(p.Type(), "JsonReference") || isPtrNamed(p.Type(), "Draft") || isNamed(p.Type(), "Draft") {
			rest = append(rest, in.toTerm(st, in.derefAll(st, args[i])))
		}
	}
	if in.onWalk != nil {
		in.onWalk(st, node, rest)
	}
	for _, a := range args {
		in.growPools(st, a, map[int]bool{}, 3)
	}
	res := fn.Signature.Results()
	if res.Len() == 1 && isErrorT(res.At(0).Type()) {
		if in.walkErr && in.askBool(st, in.tm("walkfails", node)) {
			return in.tml("err", "walk", node)
		}
		return VNil{}
	}
	return in.zero(res)
}

// derefAll replaces a pointer to a cell by the cell's contents.
func (in *Interp) derefAll(st *State, v Val) Val {
	if p, ok := v.(VPtr); ok {
		o := st.heap[p.O]
		if o != nil && o.Kind == oCell {
			return in.getPath(o.V, splitPath(p.Path), o.T)
		}
	}
	return v
}

// ---- builtins ----

func (in *Interp) builtin(st *State, f *Frame, name string, cc *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len":
		if in.onAccess != nil {
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				in.onAccess(st, args[0], false)
			}
		}
		return in.length(st, args[0], cc.Args[0].Type())
	case "cap":
		return VTop{"cap"}
	case "append":
		if s, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && s.Info()&types.IsString != 0 {
			return in.tm("cat", in.toTerm(st, args[0]), in.toTerm(st, args[1]))
		}
		return in.appendList(st, args[0], args[1])
	case "delete":
		in.mapDelete(st, args[0], args[1])
		return VTuple{}
	case "copy":
		in.undec("copy")
	case "print", "println":
		return VTuple{}
	case "recover":
		return VNil{}
	case "ssa:wrapnilchk":
		in.nonNil(st, args[0])
		return args[0]
	case "min", "max":
		return in.tm(name, in.toTerm(st, args[0]), in.toTerm(st, args[1]))
	}
	in.undec("builtin %s", name)
	return nil
}

func (in *Interp) length(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case VNil:
		return vint(0)
	case VC:
		if s, ok := constStr(x); ok {
			return vint(int64(len(s)))
		}
	case *VList:
		if x.Img == nil && !x.Bag {
			return vint(int64(len(x.Items)))
		}
		if x.Img != nil && !x.Bag && len(x.Items) == 0 && x.Img.Bound != nil && x.Img.Src == nil && x.Img.Def == 0 {
			return x.Img.Bound
		}
		return VSetLen{x}
	case VStruct:
		return vint(int64(len(x.F)))
	case VView:
		if x.Lo == x.Hi {
			return vint(0)
		}
		h := x.Hi
		if x.Lo.P > 0 {
			h.BP, h.BTag = x.Lo.P+1, x.Lo.Tag
		}
		return h
	case *Term:
		if isBasic(t, types.IsString) {
			return in.tm("bytes", x)
		}
		if x.Op == "bytesof" {
			if strings.Contains(x.Lit, "rune") || strings.Contains(x.Lit, "int32") {
				return in.tm("runes", x.Args[0])
			}
			return in.tm("bytes", x.Args[0])
		}
		if in.mapClose[x] {
			n := 0
			for _, q := range in.mapKeys[x] {
				if h := in.tm("has", x, q); !in.mapOpt[h] || in.askBool(st, h) {
					n++
				}
			}
			return vint(int64(n))
		}
		return in.tm("len", x)
	case VPtr:
		o := st.heap[x.O]
		if o.Kind == oMap {
			if o.MImg != nil && o.MImg.Bound != nil && o.MImg.Def == 0 && in.keysAreSource(st, o) {
				return o.MImg.Bound
			}
			sym := o.Any != nil || o.MImg != nil
			var items []Val
			for _, e := range o.Ents {
				if e.Pos != nil || e.K == nil {
					sym = true
				}
				items = append(items, e.V)
			}
			if !sym {
				return vint(int64(len(o.Ents)))
			}
			return VSetLen{&VList{Bag: true, Items: items}}
		}
		if a, ok := o.V.(VStruct); ok {
			return vint(int64(len(a.F)))
		}
	case VTop:
		return x
	}
	in.undec("len of %T", v)
	return nil
}

func listOf(v Val) (*VList, bool) {
	switch x := v.(type) {
	case VNil:
		return &VList{}, true
	case *VList:
		return x, true
	}
	return nil, false
}

func (l *VList) empty() bool { return !l.Bag && l.Img == nil && len(l.Items) == 0 }

func (in *Interp) appendList(st *State, a, b Val) Val {
	la, ok1 := listOf(a)
	lb, ok2 := listOf(b)
	if ok2 && lb.empty() {
		return a
	}
	if !ok1 || !ok2 {
		if ok1 && la.empty() {
			return b
		}
		return in.tm("appended", in.toTerm(st, a), in.toTerm(st, b))
	}
	act := in.activeLoop(st)
	conc := func(l *VList) bool { return !l.Bag && l.Img == nil }
	if act == nil {
		if la.empty() {
			return lb
		}
		if conc(la) && conc(lb) && len(la.Items)+len(lb.Items) < 64 {
			return &VList{Items: append(append([]Val(nil), la.Items...), lb.Items...)}
		}
		return in.bagOf(st, la, lb)
	}
	if la.empty() && conc(lb) && len(lb.Items) == 1 {
		def := 1
		if act.first {
			def = 0
		}
		return &VList{Img: &Img{Tag: act.tag, Toks: []Tok{{act.pos, lb.Items[0]}}, Def: def, Pend: 1}}
	}
	if !la.Bag && len(la.Items) == 0 && la.Img != nil && la.Img.Tag == act.tag && la.Img.Bound == nil && conc(lb) && len(lb.Items) == 1 {
		n := *la.Img
		n.Toks = append(append([]Tok(nil), n.Toks...), Tok{act.pos, lb.Items[0]})
		n.Pend++
		if n.Pend > 2 {
			n.Pend = 2
		}
		n.Toks = in.dedupToks(st, n.Toks)
		return &VList{Img: &n}
	}
	if la.empty() {
		if conc(lb) {
			return &VList{Bag: true, Items: in.dedup(st, lb.Items)}
		}
		return lb
	}
	return in.bagOf(st, la, lb)
}

func (in *Interp) dedupToks(st *State, ts []Tok) []Tok {
	var r []Tok
	for _, t := range ts {
		dup := false
		for _, u := range r {
			if u.Pos == t.Pos && in.bisim(st, u.V, t.V, map[[2]int]bool{}) {
				dup = true
				break
			}
		}
		if !dup {
			r = append(r, t)
		}
	}
	return r
}

func (in *Interp) bagOf(st *State, ls ...*VList) *VList {
	var items []Val
	for _, l := range ls {
		for _, t := range in.setToks(l) {
			items = append(items, t.V)
		}
	}
	return &VList{Bag: true, Items: in.dedup(st, items)}
}

func (in *Interp) mapDelete(st *State, m, k Val) {
	if in.onAccess != nil {
		in.onAccess(st, m, true)
	}
	switch y := m.(type) {
	case VNil:
		return
	case VPtr:
		o := *st.heap[y.O]
		kt := in.keyTerm(st, k)
		var hit []bool
		for _, e := range o.Ents {
			et := in.keyTerm(st, e.K)
			hit = append(hit, in.askEq(st, et, kt))
		}
		var es []Ent
		for i, e := range o.Ents {
			if !hit[i] {
				es = append(es, e)
			}
		}
		o.Ents = es
		if in.onStore != nil {
			in.onStore(st, in.curIns, m, "map delete")
		}
		st.heap[y.O] = &o
		return
	case *Term:
		if in.onStore != nil {
			in.onStore(st, in.curIns, m, "map delete")
		}
		return
	}
	in.undec("delete from %T", m)
}

// ---- results of unknown pure functions ----

func isErrorT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

func isPtrNamed(t types.Type, name string) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && isNamed(p.Elem(), name)
}

func isPtrToNamed(t types.Type, n types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && n != nil && types.Identical(p.Elem(), n)
}

// pureResult: an uninterpreted function of the argument contents.
func (in *Interp) pureResult(st *State, name string, sig *types.Signature, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, in.toTerm(st, a))
	}
	res := sig.Results()
	base := in.tml("ret", name, ts...)
	fail, canFail := false, false
	for i := 0; i < res.Len(); i++ {
		if isErrorT(res.At(i).Type()) {
			canFail = true
			fail = in.askBool(st, in.tml("fails", name, ts...))
		}
	}
	one := func(i int) Val {
		t := res.At(i).Type()
		if isErrorT(t) {
			if fail {
				return in.tml("err", name, ts...)
			}
			return VNil{}
		}
		if fail {
			if _, ok := t.Underlying().(*types.Slice); ok && strings.HasSuffix(name, ".ReadAll") {
				// what was read before the failure
				return in.tml("nn", name+"#part", ts...)
			}
			return in.zeroRes(t)
		}
		if res.Len() == 1 {
			return base
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			if canFail {
				return in.tml("nn", name+"#"+strconv.Itoa(i), ts...)
			}
		}
		return in.tml("ret", name+"#"+strconv.Itoa(i), ts...)
	}
	switch res.Len() {
	case 0:
		return VTuple{}
	case 1:
		return one(0)
	}
	var r []Val
	for i := 0; i < res.Len(); i++ {
		r = append(r, one(i))
	}
	return VTuple{r}
}

func (in *Interp) zeroRes(t types.Type) Val {
	return in.zero(t)
}

func cint(n int64) constant.Value { return constant.MakeInt64(n) }

var _ = fmt.Sprint
