package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- messages: rendering of templates, the string form of errors, errors added by users ----

// detailsOf: the entries of a map term with constant keys.
func detailsOf(t *Term) (map[string]*Term, bool) {
	for t != nil && t.Op == "mk" {
		t = t.Args[0]
	}
	if t == nil || t.Op != "map" {
		return nil, false
	}
	r := map[string]*Term{}
	for _, e := range t.Args {
		k, ok := termStr(e.Args[0])
		if !ok {
			return nil, false
		}
		r[k] = strip(e.Args[1])
	}
	return r, true
}

const tplT = "(*text/template.Template)."

// tplModel interprets the operations on templates: a template is the text it was parsed from.
// Templates of the shared set are found under the name they were made with.
func (u *Unit) tplModel(st *State, g *ssa.Function, args []Val) (Val, bool) {
	in := u.in
	n := g.String()
	if n == "text/template.New" {
		return in.tm("newtpl", in.tm("alone"), in.toTerm(st, args[0])), true
	}
	if n == "text/template.Must" {
		if isNilVal(args[1]) {
			return args[0], true
		}
		return nil, false
	}
	if !strings.HasPrefix(n, tplT) || len(args) == 0 {
		return nil, false
	}
	if isNilVal(args[0]) && g.Name() != "Lookup" {
		in.panicHere(st, "nil template")
		return nil, false
	}
	t := in.toTerm(st, args[0])
	arg := func(i int) *Term { return in.toTerm(st, args[i]) }
	funcs := func() bool { return st.notes["funcs"] != nil }
	switch g.Name() {
	case "Lookup":
		if t.Op == "newtpl" || t.Op == "tplof" {
			t = in.tm("set")
		}
		if in.askBool(st, in.tm("cached", arg(1))) {
			return in.tm("tplof", arg(1)), true
		}
		return VNil{}, true
	case "New":
		if t.Op == "newtpl" && t.Args[0].Op == "alone" {
			return in.tm("newtpl", t.Args[0], arg(1)), true
		}
		return in.tm("newtpl", in.tm("set"), arg(1)), true
	case "Funcs":
		if arg(1).Op != "nil" {
			st.note("funcs", args[1])
		}
		return args[0], true
	case "Option", "Delims":
		in.undec("template options")
	case "Parse":
		if in.askBool(st, in.tml("fails", "template Parse", arg(1))) {
			return VTuple{[]Val{VNil{}, in.tml("err", "template Parse", arg(1))}}, true
		}
		if !funcs() && in.maskOf(st, in.tm("isnil", in.sym("funcs")), bF|bT) != bT {
			u.viol("a message template is parsed without the functions of ErrorTemplateFuncs", st)
		}
		if t.Op == "newtpl" && t.Args[0].Op == "set" && t.Args[1] != arg(1) {
			u.viol("a message template is kept under the name "+t.Args[1].String()+" but its text is "+arg(1).String(), st)
		}
		if t.Op != "newtpl" {
			u.viol("a template other than a new one is replaced by the text "+arg(1).String(), st)
		}
		return VTuple{[]Val{in.tm("tplof", arg(1)), VNil{}}}, true
	case "Execute":
		if t.Op != "tplof" {
			in.undec("execution of " + t.String())
		}
		w, ok := args[1].(VIface)
		if !ok {
			in.undec("template output")
		}
		p, ok := w.V.(VPtr)
		if !ok {
			in.undec("template output")
		}
		d := arg(2)
		for d.Op == "mk" {
			d = d.Args[0]
		}
		c := in.bufStr(in.toTerm(st, in.load(st, p, nil)))
		if in.askBool(st, in.tml("fails", "template Execute", t, d)) {
			in.store(st, nil, p, in.tm("buf", in.cat(c, in.sym("partial output"))))
			return in.tml("err", "template Execute", t, d), true
		}
		in.store(st, nil, p, in.tm("buf", in.cat(c, in.tm("rendered", t.Args[0], d))))
		return VNil{}, true
	case "Name":
		return nil, false
	}
	in.undec("template operation " + g.Name())
	return nil, false
}

func messageJobs() []Job {
	return []Job{
		unitJob("messages: a template rendered with details", []string{"C09"}, func(u *Unit) {
			in := u.in
			in.onCall = func(st *State, g *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
				return u.tplModel(st, g, args)
			}
			st := in.newState()
			if p, ok := u.globalPtr("ErrorTemplateFuncs"); ok {
				o := *st.heap[p.O]
				o.V = in.sym("funcs")
				st.heap[p.O] = &o
			}
			s, d := in.sym("format"), in.sym("details")
			for _, e := range u.call(st, u.P.fnFormat, s, d) {
				u.r.oblig(1)
				if u.tru(e, in.tml("fails", "template Parse", s)) == triT || u.tru(e, in.tml("fails", "template Execute", in.tm("tplof", s), d)) == triT {
					if got := in.toTerm(e, e.ret); strings.Contains(got.String(), "partial output") || got == in.str("") {
						u.viol("a message whose template fails is "+got.String()+", expected the error", e)
					}
					continue
				}
				got := in.toTerm(e, e.ret)
				if want := in.tm("rendered", s, d); got != want {
					if op := u.opaque(e, func(string) bool { return false }); op != "" {
						in.Undec[u.name] = op
						continue
					}
					u.viol("a message is "+got.String()+", expected "+want.String(), e)
				}
			}
		}),
		unitJob("messages: the string form of an error", []string{"C09"}, func(u *Unit) {
			in := u.in
			in.noOpaque = true
			in.onCall = u.formatCall
			in.onInvoke = u.localeInvoke
			for n := 0; n <= 2; n++ {
				st := in.newState()
				u.symLocale(st)
				ctx, path := u.ctxChain(st, vstr("(root)"), n)
				o := u.errorObj(st, ctx)
				v := in.sym("fvalue")
				st.facts[in.typeAtom(v)] = kAll
				var f Val = st.heap[o.O].V
				fn := u.P.method("ResultErrorFields", "String")
				if fn != nil && len(fn.Params) > 0 {
					if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
						f = o
					}
				}
				for _, e := range u.call(st, fn, f) {
					u.r.oblig(1)
					got := in.toTerm(e, e.ret)
					if got.Op != "text" {
						u.soft("the string form of an error is "+got.String()+", expected its rendered format", e)
						continue
					}
					if got.Args[0] != in.tml("localetext", "ErrorFormat") {
						u.soft("the string form of an error is rendered with the format "+got.Args[0].String(), e)
					}
					d, ok := detailsOf(got.Args[1])
					if !ok {
						in.Undec[u.name] = "details"
						continue
					}
					want := map[string]*Term{"context": u.joined(path), "description": in.sym("fdescription"), "field": u.fieldOf(path)}
					for _, k := range []string{"context", "description", "field"} {
						if d[k] != want[k] {
							x := "missing"
							if d[k] != nil {
								x = d[k].String()
							}
							u.soft(fmt.Sprintf("the %s in the string form of an error is %s, expected %s", k, x, want[k]), e)
						}
					}
					x := d["value"]
					null := u.kind(e, v, kNil)
					switch {
					case x == nil:
						u.soft("the string form of an error has no value", e)
					case null == triT && x != in.str("null"):
						u.soft("the value null is shown as "+x.String(), e)
					case null == triF && !mentions(x, v):
						u.soft("the value of the error is shown as "+x.String(), e)
					case null == triU && !mentions(x, v):
						u.soft("the value of the error is shown as "+x.String(), e)
					case hasOp(x, "f64") || hasOp(x, "wrap64"):
						u.soft("the value of the error is shown rounded: "+x.String(), e)
					case null == triF && e.facts[in.tm("encfails", v)] == bF && x.Op == "ret" && strings.HasPrefix(x.Lit, "fmt.Sprint"):
						u.soft("the value of the error is shown as Go prints it, although it has a JSON text: "+x.String(), e)
					}
				}
			}
		}),
		unitJob("messages: an error added by the user", []string{"C09"}, func(u *Unit) {
			in := u.in
			in.noOpaque = true
			in.onCall = u.formatCall
			in.panicProps = []string{"C09"}
			for _, kind := range []string{"", "has", "nil"} {
				has := kind == "has"
				for _, ctx := range []bool{false, true} {
					st := in.newState()
					var cv Val = VNil{}
					var path []*Term
					if ctx {
						cv, path = u.ctxChain(st, vstr("(root)"), 1)
					}
					o := u.errorObj(st, cv)
					ev := VIface{types.NewPointer(u.P.namedType("ResultErrorFields")), o}
					md := u.named("ErrorDetails")
					ents := []Ent{{vstr("own"), in.sym("own detail"), nil}}
					if has {
						ents = append(ents, Ent{vstr("context"), in.sym("own context"), nil})
					}
					var dp Val = in.alloc(st, &Obj{Kind: oMap, T: md, Ents: ents})
					if kind == "nil" {
						dp = VNil{}
					}
					old := VIface{types.NewPointer(u.P.namedType("ResultErrorFields")), u.errorObj(st, VNil{})}
					rp := in.alloc(st, &Obj{Kind: oCell, T: u.P.tResult, V: in.zero(u.P.tResult)})
					in.appendErrors(st, rp, &VList{Items: []Val{old}})
					st.note("result", rp)
					st.note("error", ev)
					for _, e := range u.call(st, u.P.method("Result", "AddError"), rp, ev, dp) {
						u.r.oblig(1)
						sc := &Scen{P: u.P, in: in}
						es, ok := sc.errors(e, rp)
						if !ok || len(es) != 2 {
							u.soft(fmt.Sprintf("a result with one error has %d after AddError", len(es)), e)
							continue
						}
						if !sameVal(es[1].raw, ev) && !sameVal(es[0].raw, ev) {
							u.soft("AddError does not add the error it is given", e)
						}
						var g errRec
						for _, x := range es {
							if sameVal(x.raw, ev) {
								g = x
							}
						}
						t, ok := g.desc.(*Term)
						if !ok || t.Op != "text" || t.Args[0] != in.sym("fdescriptionFormat") {
							u.soft("the description of an added error is "+valStr(g.desc)+", expected its format rendered with the details", e)
							continue
						}
						d, ok := detailsOf(t.Args[1])
						if !ok {
							in.Undec[u.name] = "details"
							continue
						}
						if kind != "nil" && d["own"] != in.sym("own detail") {
							u.soft("the description of an added error is rendered without the given details", e)
						}
						switch {
						case has && d["context"] != in.sym("own context"):
							u.soft("AddError replaces the context among the details", e)
						case !has && ctx && d["context"] != u.joined(path):
							u.soft("the description of an added error is rendered without its context", e)
						}
					}
				}
			}
		}),
	}
}

// soft: a violation, unless the path or what was found depends on operations without a model.
func (u *Unit) soft(what string, st *State) {
	if op := u.opaque(st, func(n string) bool {
		return strings.HasPrefix(n, "encoding/json.") || strings.HasPrefix(n, "(*encoding/json.") || strings.HasPrefix(n, "fmt.S")
	}); op != "" {
		u.in.Undec[u.name] = "depends on " + op
		return
	}
	u.viol(what, st)
}

func (u *Unit) joined(path []*Term) *Term {
	var ts []*Term
	for i, p := range path {
		if i > 0 {
			ts = append(ts, u.in.str("."))
		}
		ts = append(ts, p)
	}
	return u.in.cat(ts...)
}

func (u *Unit) fieldOf(path []*Term) *Term {
	if len(path) > 1 {
		return u.joined(path[1:])
	}
	return path[0]
}

func (u *Unit) formatCall(st *State, g *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
	if g == u.P.fnFormat {
		return u.in.tm("text", u.in.toTerm(st, args[0]), u.in.toTerm(st, args[1])), true
	}
	return nil, false
}

// symLocale: messages come from a locale of the user's.
func (u *Unit) symLocale(st *State) bool { return symLocale(u.P, u.in, st) }

func symLocale(P *Program, in *Interp, st *State) bool {
	g, ok := P.pkg.Members["Locale"].(*ssa.Global)
	if !ok {
		return false
	}
	o := *st.heap[P.globals[g]]
	o.V = in.sym("locale")
	st.heap[P.globals[g]] = &o
	return true
}

func (u *Unit) localeInvoke(st *State, recv Val, m *types.Func, args []Val) (Val, bool) {
	return localeInvoke(u.in, recv, m)
}

func localeInvoke(in *Interp, recv Val, m *types.Func) (Val, bool) {
	if r, ok := recv.(*Term); ok && r == in.sym("locale") && m != nil {
		return in.tml("localetext", m.Name()), true
	}
	return nil, false
}

// ---- entry points ----

func entryJobs() []Job {
	var js []Job
	p := []string{"C23"}
	type ent struct {
		title string
		fn    func(P *Program) *ssa.Function
		both  bool
	}
	for _, e := range []ent{{"Validate(schema, document)", func(P *Program) *ssa.Function { return P.fn("Validate") }, true}, {"NewSchema(schema)", func(P *Program) *ssa.Function { return P.fn("NewSchema") }, false}} {
		e := e
		for _, v := range []struct {
			title, draft string
			doc          interface{}
			url          string
		}{
			{"no $schema", "Hybrid", jo{"allOf": jl{leaf("s")}}, ""},
			{"$schema of draft 4", "Draft4", jo{"$schema": d4, "allOf": jl{leaf("s")}}, ""},
			{"$schema of draft 7", "Draft7", jo{"$schema": d7, "allOf": jl{leaf("s")}}, ""},
			{"a schema that may not be well formed", "Hybrid", jo{"allOf": jl{leaf("bad")}}, ""},
			{"a reference", "Hybrid", jo{"allOf": jl{leaf("s")}}, "http://h/a.json"},
			{"a reference to a draft 6 schema", "Draft6", jo{"$schema": d6, "allOf": jl{leaf("s")}}, "http://h/a.json"},
			{"a reference with a fragment", "Hybrid", jo{"definitions": jo{"x": jo{"allOf": jl{leaf("s")}}}}, "http://h/a.json#/definitions/x"},
			{"a reference with a fragment, draft 7", "Draft7", jo{"$schema": d7, "definitions": jo{"x": jo{"allOf": jl{leaf("s")}}}}, "http://h/a.json#/definitions/x"},
			{"a schema that refers to another document", "Hybrid", jo{"allOf": jl{jo{"$ref": "http://h/b.json"}}}, ""},
			{"a reference to a schema that refers to another document", "Hybrid", jo{"allOf": jl{jo{"$ref": "b.json"}}}, "http://h/a.json"},
		} {
			v := v
			ps := p
			if strings.Contains(v.title, "refer") {
				ps = []string{"C23", "C15"}
			}
			js = append(js, refJob(e.title+", "+v.title, v.draft, ps, func(c *RefScen) {
				in := c.in
				c.mayFail = true
				st := in.newState()
				for k, x := range c.pre {
					st.facts[k] = x
				}
				name := "s"
				if strings.Contains(v.title, "may not") {
					name = "bad"
				}
				var S Val
				if v.url == "" {
					S = c.lit("root", v.doc)
				} else {
					S = in.sym("loader " + v.url)
					c.docs[strings.SplitN(v.url, "#", 2)[0]] = v.doc
				}
				c.docs["http://h/b.json"] = jo{"allOf": jl{leaf("s")}}
				args := []Val{S}
				if e.both {
					args = append(args, in.sym("loaderD"))
				}
				ex := c.run(st, e.fn(c.P), args...)
				if !e.both {
					var r []*State
					for _, x := range ex {
						t, ok := x.ret.(VTuple)
						if !ok || len(t.F) != 2 {
							continue
						}
						if bad := c.entryFailed(x, name); isErrVal(t.F[1]) != bad {
							c.viol(fmt.Sprintf("compiling returns the error %s although loading or compiling the schema failed: %v", valStr(t.F[1]), bad), x)
							continue
						} else if bad {
							c.r.oblig(1)
							continue
						}
						r = append(r, c.run(x, c.P.method("Schema", "Validate"), t.F[0], in.sym("loaderD"))...)
					}
					ex = r
				}
				c.noLoads(ex, "http://h/a.json", "http://h/a.json#/definitions/x", "http://h/b.json")
				c.leafDraft(ex, name, v.draft)
				for _, x := range ex {
					c.r.oblig(1)
					t, ok := x.ret.(VTuple)
					if !ok || len(t.F) != 2 {
						in.Undec[c.title] = "result"
						continue
					}
					bad := c.entryFailed(x, name)
					if isErrVal(t.F[1]) != bad {
						c.viol(fmt.Sprintf("the error returned is %s although loading or compiling failed: %v", valStr(t.F[1]), bad), x)
						continue
					}
					if bad {
						continue
					}
					es, ok := c.errors(x, t.F[0])
					if !ok {
						if isNilVal(t.F[0]) {
							c.viol("neither a result nor an error is returned", x)
							continue
						}
						in.Undec[c.title] = "result not readable"
						continue
					}
					switch w := c.v(name)(x); {
					case w == triU:
						c.viol("a result is returned without applying the schema", x)
					case (w == triT) != (len(es) == 0):
						c.viol(fmt.Sprintf("%d errors are reported, but the document satisfies the schema: %s", len(es), w), x)
					}
				}
			}))
		}
	}
	return js
}

// entryFailed: something failed on the way: loading either document, the reference of the schema, or compiling it.
func (c *RefScen) entryFailed(x *State, name string) bool {
	in := c.in
	for _, l := range []string{"loader literal root", "loaderD", "loader http://h/a.json", "loader http://h/a.json#/definitions/x", "loader http://h/b.json"} {
		for _, m := range []string{"LoadJSON", "JsonReference"} {
			if c.tru(x, in.tml("fails", m, in.sym(l))) == triT {
				return true
			}
		}
	}
	return c.tru(x, in.tm("PS", c.leafTerm(name))) == triF
}

// hasOp: the term contains an application of op.
func hasOp(t *Term, op string) bool {
	if t.Op == op {
		return true
	}
	for _, a := range t.Args {
		if hasOp(a, op) {
			return true
		}
	}
	return false
}
