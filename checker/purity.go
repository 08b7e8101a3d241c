package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purityJobs: accessors of errors, results and contexts do not change what they report.
func purityJobs() []Job {
	return []Job{unitJob("accessors", []string{"C19"}, func(u *Unit) {
		in := u.in
		in.noOpaque = true
		in.pureFrom = in.nextID
		in.onStore = in.noteImpure
		n := 0
		for _, fn := range u.accessors() {
			st := in.newState()
			args := []Val{}
			var recv Val = in.sym("receiver")
			ctx, _ := u.ctxChain(st, vstr("(root)"), 2)
			if rt := fn.Params[0].Type(); isPtrToNamed(rt, u.P.tCtx) {
				recv = ctx
			} else if isPtrNamed(rt, "ResultErrorFields") {
				recv = u.errorObj(st, ctx)
			} else if isNamed(rt, "ResultErrorFields") {
				recv = st.heap[u.errorObj(st, ctx).O].V
			}
			in.pureFrom = in.nextID
			for i, p := range fn.Params {
				if i == 0 && isNamed(p.Type(), "ResultErrorFields") {
					args = append(args, recv)
					continue
				}
				if i == 0 {
					if _, ok := p.Type().Underlying().(*types.Pointer); ok {
						in.defMask = func(a *Term) (uint32, bool) {
							if a.Op == "isnil" && sameVal(a.Args[0], recv) {
								return bF, true
							}
							return 0, false
						}
						args = append(args, recv)
						continue
					}
				}
				args = append(args, in.sym("arg"+p.Name()))
			}
			u.call(st, fn, args...)
			n++
			u.r.oblig(1)
		}
		if n < 8 {
			in.Undec["accessors"] = "fewer than eight accessors found"
		}
	})}
}

// accessors: exported methods of the result types that return something and are not setters.
func (u *Unit) accessors() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, m := range u.P.pkg.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		name := nt.Obj().Name()
		if name != "Result" && name != "JsonContext" && name != "ResultErrorFields" && !strings.HasSuffix(name, "Error") {
			continue
		}
		if types.IsInterface(nt) {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			f := nt.Method(i)
			if !f.Exported() || strings.HasPrefix(f.Name(), "Set") || strings.HasPrefix(f.Name(), "Add") || f.Type().(*types.Signature).Results().Len() == 0 {
				continue
			}
			fn := u.P.prog.FuncValue(f)
			if fn != nil && len(fn.Blocks) > 0 && !seen[fn] {
				seen[fn] = true
				r = append(r, fn)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// ctxChain builds a context of the given path below the root.
func (u *Unit) ctxChain(st *State, root Val, below int) (VPtr, []*Term) {
	in := u.in
	ts := u.P.tCtx.Underlying().(*types.Struct)
	var tail Val = VNil{}
	var path []*Term
	var p VPtr
	for i := 0; i <= below; i++ {
		h := root
		if i > 0 {
			h = in.sym("component" + string(rune('0'+i)))
		}
		path = append(path, in.toTerm(st, h))
		var fs []Val
		for k := 0; k < ts.NumFields(); k++ {
			switch {
			case isBasic(ts.Field(k).Type(), types.IsString):
				fs = append(fs, h)
			case isPtrToNamed(ts.Field(k).Type(), u.P.tCtx):
				fs = append(fs, tail)
			default:
				fs = append(fs, in.zero(ts.Field(k).Type()))
			}
		}
		p = in.alloc(st, &Obj{Kind: oCell, T: u.P.tCtx, V: VStruct{fs}})
		tail = p
	}
	return p, path
}

// renderJobs: a context is rendered root first; the field is the path below the root.
func renderJobs() []Job {
	return []Job{unitJob("context rendering", []string{"C10"}, func(u *Unit) {
		in := u.in
		in.noOpaque = true
		str := u.P.method("JsonContext", "String")
		same := func(what string, ex []*State, want *Term) {
			u.r.oblig(1)
			for _, st := range ex {
				got := in.toTerm(st, st.ret)
				if got == want {
					continue
				}
				if op := unmodelled(got); op != "" {
					in.Undec[what] = "depends on " + op
					continue
				}
				if u.opaque(st, func(string) bool { return false }) != "" {
					in.Undec[what] = "the path depends on an unmodelled operation"
					continue
				}
				u.viol(what+" is "+got.String()+", expected "+want.String(), st)
			}
		}
		join := func(path []*Term, d *Term) *Term {
			var ts []*Term
			for i, p := range path {
				if i > 0 {
					ts = append(ts, d)
				}
				ts = append(ts, p)
			}
			return in.cat(ts...)
		}
		for n := 0; n <= 4; n++ {
			for _, custom := range []bool{false, true} {
				st := in.newState()
				p, path := u.ctxChain(st, in.sym("root"), n)
				d := in.str(".")
				var del Val = VNil{}
				if custom {
					d = in.sym("delimiter")
					del = &VList{Items: []Val{d}}
				}
				same("the rendering of a context with "+string(rune('0'+n))+" components below the root", u.call(st, str, p, del), join(path, d))
			}
			st := in.newState()
			p, path := u.ctxChain(st, vstr("(root)"), n)
			o := u.errorObj(st, p)
			want := path[0]
			if n > 0 {
				want = join(path[1:], in.str("."))
			}
			same("the field of an error with "+string(rune('0'+n))+" components below the root", u.call(st, u.P.method("ResultErrorFields", "Field"), o), want)
		}
		// construction
		st := in.newState()
		tail, path := u.ctxChain(st, in.sym("root"), 1)
		mk := u.P.fn("NewJsonContext")
		for _, e := range u.call(st, mk, in.sym("head"), tail) {
			u.r.oblig(1)
			got, ok := (&Scen{P: u.P, in: in}).ctxPath(e, e.ret)
			if !ok {
				in.Undec["NewJsonContext"] = "result"
				continue
			}
			if pathStr(got) != pathStr(append(path, in.sym("head"))) {
				u.viol("NewJsonContext builds the path "+pathStr(got), e)
			}
		}
	})}
}

// unmodelled: an operation in a term whose meaning is not known to the analysis.
func unmodelled(t *Term) string {
	switch t.Op {
	case "sym", "const", "cat", "old", "cur", "itoa":
	case "ret":
		switch t.Lit {
		case "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Title":
		default:
			return t.Lit
		}
	default:
		return t.Op
	}
	for _, a := range t.Args {
		if x := unmodelled(a); x != "" {
			return x
		}
	}
	return ""
}

// errorObj: an error with the given context and otherwise unknown contents.
func (u *Unit) errorObj(st *State, ctx Val) VPtr {
	t := u.P.namedType("ResultErrorFields")
	ts := t.Underlying().(*types.Struct)
	var fs []Val
	for k := 0; k < ts.NumFields(); k++ {
		if isPtrToNamed(ts.Field(k).Type(), u.P.tCtx) {
			fs = append(fs, ctx)
		} else {
			fs = append(fs, u.in.sym("f"+ts.Field(k).Name()))
		}
	}
	return u.in.alloc(st, &Obj{Kind: oCell, T: t, V: VStruct{fs}})
}
