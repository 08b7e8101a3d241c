package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- references: schemas whose skeleton (names, identifiers, references) is given and whose leaves are symbolic ----

type jo map[string]interface{}
type jl []interface{}
type leaf string // an arbitrary well-formed schema
type anyv string // an arbitrary JSON value
type strv string // an arbitrary string

// RefScen: documents known to the loader or loadable through the factory, a sequence of calls, and what is expected.
type RefScen struct {
	*Scen
	r     *Report
	title string
	props []string
	docs  map[string]interface{} // loadable documents by URL
	built map[string]Val
	leafs map[string]*Term
	dmax  int
	depth map[*ssa.Function]bool
	loads map[string]bool

	kindOver map[string]uint32
	mayFail  bool // loading may fail
}

func newRefScen(P *Program, r *Report, title, draft string, props ...string) *RefScen {
	s := newScen(P, "", draft)
	c := &RefScen{Scen: s, r: r, title: "references: " + title + " (" + draft + ")", props: props, docs: map[string]interface{}{}, built: map[string]Val{}, leafs: map[string]*Term{}, dmax: 24, depth: map[*ssa.Function]bool{}, loads: map[string]bool{}}
	s.autoDetect = true
	in := s.in
	in.deadline = time.Now().Add(60 * time.Second)
	in.noGrow = true
	in.panicProps = props
	in.onInvoke = c.invokeR
	in.onCall = c.callR
	in.inlineRec = c.inline
	return c
}

var tAnyMap = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
var tAnyArr = types.NewSlice(types.NewInterfaceType(nil, nil))

func (c *RefScen) leafTerm(n string) *Term {
	t := c.in.sym("schema " + n)
	c.leafs[n] = t
	return t
}

// build places a JSON value in the heap of st.
func (c *RefScen) build(st *State, v interface{}) Val {
	in := c.in
	switch x := v.(type) {
	case nil:
		return VNil{}
	case string:
		return VIface{types.Typ[types.String], vstr(x)}
	case bool:
		return VIface{types.Typ[types.Bool], vbool(x)}
	case int:
		if n := in.P.jsonNumber(); n != nil {
			return VIface{n, vstr(strconv.Itoa(x))}
		}
	case leaf:
		t := c.leafTerm(string(x))
		st.facts[in.typeAtom(t)] = kObject
		st.facts[in.tm("PS", t)] = bT
		if x == "bad" {
			st.facts[in.tm("PS", t)] = bT | bF
		}
		return t
	case strv:
		return VIface{types.Typ[types.String], in.sym("string " + string(x))}
	case anyv:
		t := in.sym("value " + string(x))
		st.facts[in.typeAtom(t)] = kAll
		if k, ok := c.kindOver[string(x)]; ok {
			st.facts[in.typeAtom(t)] = k
		}
		return t
	case jl:
		var it []Val
		for _, e := range x {
			it = append(it, c.build(st, e))
		}
		return VIface{tAnyArr, &VList{Items: it}}
	case jo:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var es []Ent
		for _, k := range ks {
			es = append(es, Ent{vstr(k), c.build(st, x[k]), nil})
		}
		return VIface{tAnyMap, in.alloc(st, &Obj{Kind: oMap, T: tAnyMap, Ents: es})}
	}
	panic(fmt.Sprintf("build %T", v))
}

func (P *Program) jsonNumber() types.Type {
	for _, p := range P.pkg.Pkg.Imports() {
		if p.Path() == "encoding/json" {
			if o := p.Scope().Lookup("Number"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (c *RefScen) invokeR(st *State, recv Val, m *types.Func, args []Val) (Val, bool) {
	in := c.in
	r, ok := recv.(*Term)
	if !ok || m == nil {
		return nil, false
	}
	if r.Op == "nn" && strings.HasPrefix(r.Lit, "factory") && m.Name() == "New" {
		u, ok := constStr(args[0])
		if !ok {
			u = in.toTerm(st, args[0]).String()
			st.addEv("new " + u)
		}
		return in.sym("loader " + u), true
	}
	if r.Op == "sym" && strings.HasPrefix(r.Lit, "loader ") {
		n := strings.TrimPrefix(r.Lit, "loader ")
		switch m.Name() {
		case "LoadJSON":
			if c.mayFail && in.askBool(st, in.tml("fails", "LoadJSON", r)) {
				return VTuple{[]Val{c.half(st, r), in.tml("err", "load", r)}}, true
			}
			st.addEv("load " + n)
			b := n
			if i := strings.Index(b, "#"); i >= 0 {
				b = b[:i]
			}
			d, ok := c.docs[b]
			if !ok && c.docs["*"] != nil {
				d, ok = c.docs["*"], true
			}
			if !ok {
				return VTuple{[]Val{VNil{}, in.tml("err", "load", in.str(n))}}, true
			}
			return VTuple{[]Val{c.build(st, d), VNil{}}}, true
		case "JsonReference":
			if c.mayFail && in.askBool(st, in.tml("fails", "JsonReference", r)) {
				return VTuple{[]Val{in.tm("jref", in.str("")), in.tml("err", "reference", r)}}, true
			}
			if strings.HasPrefix(n, "literal") {
				return VTuple{[]Val{in.tm("jref", in.str("#")), VNil{}}}, true
			}
			return VTuple{[]Val{in.tm("jref", in.str(n)), VNil{}}}, true
		case "LoaderFactory":
			return in.tml("nn", "factory"), true
		}
	}
	if r.Op == "sym" && r.Lit == "loaderD" && m.Name() == "LoadJSON" {
		if c.mayFail && in.askBool(st, in.tml("fails", "LoadJSON", r)) {
			return VTuple{[]Val{c.half(st, r), in.tml("err", "load", r)}}, true
		}
		return VTuple{[]Val{c.N, VNil{}}}, true
	}
	return nil, false
}

// half: what a loader returns besides its error is not specified.
func (c *RefScen) half(st *State, r *Term) Val {
	if c.in.askBool(st, c.in.tml("partial", "LoadJSON", r)) {
		return c.in.sym("partial " + r.String())
	}
	return VNil{}
}

func (c *RefScen) callR(st *State, fn *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
	if c.P.isRefWalk(fn) {
		if _, ok := args[c.P.nodeParam(fn)].(*Term); ok {
			return c.in.zero(fn.Signature.Results()), true // nothing to see in a symbolic leaf
		}
	}
	return nil, false
}

// inline: recursion into the given part of a schema is followed, symbolic leaves are summarised.
func (c *RefScen) inline(st *State, fn *ssa.Function, args []Val, n int) bool {
	P := c.P
	known := false
	if i := P.parseParam(fn); i >= 0 && P.nodeParam(fn) >= 0 {
		nt, sym := args[P.nodeParam(fn)].(*Term)
		if sym && nt.Op == "sym" {
			switch nt.Lit { // not the place of a schema
			case "value properties", "value patternProperties", "value dependencies", "value definitions":
				return true
			}
		}
		known = !sym
		if sym {
			if p, ok := args[i].(VPtr); ok {
				st.addEv("compiled " + args[P.nodeParam(fn)].(*Term).String() + " in " + c.draftOf(st, p))
			}
		}
	} else if P.isRefWalk(fn) {
		known = true
	} else if s, ok := c.in.validated(st, fn, args); ok {
		if p, ok := s.(VPtr); ok && st.heap[p.O] != nil {
			_, cut := st.heap[p.O].Ghost["pre"]
			known = !cut
		}
	}
	if known && n > c.dmax {
		panic(tooDeep{fn})
	}
	return known
}

type tooDeep struct{ fn *ssa.Function }

// draftOf: the draft a schema under construction is compiled in.
func (c *RefScen) draftOf(st *State, p VPtr) string {
	ts, ok := c.P.tSub.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	for i := 0; i < 20; i++ {
		sv, ok := st.heap[p.O].V.(VStruct)
		if !ok {
			return "?"
		}
		var parent Val
		for k := 0; k < ts.NumFields(); k++ {
			if isPtrNamed(ts.Field(k).Type(), "Draft") {
				if d, ok := sv.F[k].(VPtr); ok {
					if n, ok := constInt(c.in.load(st, d, nil)); ok {
						for _, x := range allDrafts {
							if c.P.draftConst(x) == n {
								return x
							}
						}
					}
					return "?"
				}
			}
			if ts.Field(k).Name() == "parent" {
				parent = sv.F[k]
			}
		}
		q, ok := parent.(VPtr)
		if !ok {
			return "?"
		}
		p = q
	}
	return "?"
}

func (c *RefScen) viol(what string, st *State) {
	f := ""
	if st != nil {
		f = c.in.describe(st) + " after " + strings.Join(st.ev, "; ")
	}
	c.r.viol(c.props, c.title, what, f)
}

// run explores a call; a recursion that does not end is a violation.
func (c *RefScen) run(st *State, fn *ssa.Function, args ...Val) (ex []*State) {
	if fn == nil {
		c.in.Undec[c.title] = "function missing"
		return nil
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case tooDeep:
				c.viol(x.fn.Name()+" recurses without end on a finite schema", nil)
				ex = nil
			case undecided:
				c.in.Undec[c.title+": "+x.msg] = ""
				ex = nil
			default:
				panic(e)
			}
		}
	}()
	n := st.clone()
	n.frames = nil
	delete(n.notes, "ret")
	c.in.enter(n, fn, args, nil)
	return c.in.run(n)
}

func (c *RefScen) lit(name string, doc interface{}) Val {
	c.docs["literal "+name] = doc
	return c.in.sym("loader literal " + name)
}

// start: a fresh loader.
func (c *RefScen) start() (*State, VPtr, bool) { return c.newLoader() }

func errOf(v Val) Val {
	if t, ok := v.(VTuple); ok && len(t.F) > 0 {
		return t.F[len(t.F)-1]
	}
	return v
}

// add runs AddSchema (url != "") or AddSchemas and requires a single outcome.
func (c *RefScen) add(sts []*State, p VPtr, url, name string, doc interface{}, fail bool) []*State {
	var r []*State
	l := c.lit(name, doc)
	for _, st := range sts {
		var ex []*State
		if url != "" {
			ex = c.run(st, c.P.method("SchemaLoader", "AddSchema"), p, vstr(url), l)
		} else {
			ex = c.run(st, c.P.method("SchemaLoader", "AddSchemas"), p, &VList{Items: []Val{l}})
		}
		for _, e := range ex {
			c.r.oblig(1)
			switch bad := isErrVal(errOf(e.ret)); {
			case bad && !fail:
				c.viol("a schema is refused ("+valStr(errOf(e.ret))+") although its identifier is new", e)
			case !bad && fail:
				c.viol("a second schema with an identifier that is already registered is accepted", e)
			default:
				r = append(r, e)
			}
		}
	}
	return r
}

func (c *RefScen) compileDoc(sts []*State, p VPtr, l Val, fail bool) []*State {
	var r []*State
	for _, st := range sts {
		for _, e := range c.run(st, c.P.method("SchemaLoader", "Compile"), p, l) {
			c.r.oblig(1)
			switch bad := isErrVal(errOf(e.ret)); {
			case bad && !fail:
				c.viol("the schema does not compile: "+valStr(errOf(e.ret)), e)
			case !bad && fail:
				c.viol("the schema compiles although its reference cannot be resolved", e)
			case !bad:
				r = append(r, e)
			}
		}
	}
	return r
}

// verdicts: validate the symbolic document and compare the verdict on every path.
func (c *RefScen) verdicts(sts []*State, want func(e *State) tri, what string) {
	for _, st := range sts {
		t := st.ret.(VTuple)
		for _, e := range c.run(st, c.P.method("Schema", "Validate"), t.F[0], c.in.sym("loaderD")) {
			c.r.oblig(1)
			tu, ok := e.ret.(VTuple)
			if !ok || isErrVal(tu.F[1]) {
				c.viol("validation fails", e)
				continue
			}
			es, ok := c.errors(e, tu.F[0])
			if !ok {
				c.in.Undec[c.title] = "result not readable"
				continue
			}
			w := want(e)
			switch {
			case w == triU:
				c.viol("the verdict is reached without applying "+what, e)
			case (w == triT) != (len(es) == 0):
				var x []string
				for _, r := range es {
					x = append(x, r.String())
				}
				c.viol(fmt.Sprintf("reports [%s], but %s: the document is %s", strings.Join(x, "; "), what, map[tri]string{triT: "valid", triF: "invalid"}[w]), e)
			}
		}
	}
}

// drafts: the draft every leaf must be compiled in.
func (c *RefScen) leafDraft(sts []*State, n, draft string) {
	for _, e := range sts {
		c.r.oblig(1)
		for _, ev := range e.ev {
			pre := "compiled " + c.leafTerm(n).String() + " in "
			if strings.HasPrefix(ev, pre) {
				if d := strings.TrimPrefix(ev, pre); d != "?" && d != draft {
					c.r.viol(append([]string{"C14"}, c.props...), c.title, "the schema "+n+" is compiled in "+d+", expected "+draft, c.in.describe(e))
				}
			}
		}
	}
}

// sees: some object in the heap holds the text.
func (c *RefScen) sees(e *State, text string) bool {
	for _, o := range e.heap {
		if o == nil || o.Kind != oMap {
			continue
		}
		for _, x := range o.Ents {
			v := x.V
			if i, ok := v.(VIface); ok {
				v = i.V
			}
			if s, ok := constStr(v); ok && s == text {
				return true
			}
			if t, ok := v.(*Term); ok && strings.Contains(t.String(), text) {
				return true
			}
		}
	}
	return strings.Contains(c.in.describe(e), text)
}

func (c *RefScen) noLoads(sts []*State, allowed ...string) {
	for _, e := range sts {
		for _, ev := range e.ev {
			if !strings.HasPrefix(ev, "load ") || strings.HasPrefix(ev, "load literal") {
				continue
			}
			ok := false
			for _, a := range allowed {
				if ev == "load "+a {
					ok = true
				}
			}
			if !ok {
				c.viol("an unexpected document is loaded: "+ev, e)
			}
		}
	}
}

func (c *RefScen) v(n string) func(*State) tri {
	return func(e *State) tri { return c.tru(e, c.in.tm("V", c.in.tm("compiled", c.leafTerm(n)), c.N)) }
}

func refJob(title, draft string, props []string, f func(c *RefScen)) Job {
	return Job{"references: " + title + " (" + draft + ")", props, func(P *Program, r *Report) {
		c := newRefScen(P, r, title, draft, props...)
		f(c)
		r.absorbIn(c.in, c.title)
	}}
}

const d4, d6, d7 = "http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-06/schema#", "http://json-schema.org/draft-07/schema#"

func refJobs() []Job {
	var js []Job
	p15 := []string{"C15", "C08"}
	add := func(title, draft string, f func(c *RefScen)) { js = append(js, refJob(title, draft, p15, f)) }
	// the same document naming its draft
	named := func(draft string, doc jo) jo {
		r := jo{"$schema": map[string]string{"Draft4": d4, "Draft7": d7}[draft]}
		for k, v := range doc {
			r[k] = v
		}
		return r
	}
	// a document whose verdict must be that of leaf "s"
	var simple, fails func(title, draft string, doc jo, setup func(c *RefScen))
	simple = func(title, draft string, doc jo, setup func(c *RefScen)) {
		if _, has := doc["$schema"]; !has && draft != "Hybrid" {
			simple(title+", draft named", draft, named(draft, doc), setup)
		}
		add(title, draft, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			if setup != nil {
				setup(c)
			}
			ex := c.compileDoc([]*State{st}, p, c.lit("root", doc), false)
			c.verdicts(ex, c.v("s"), "the schema the reference denotes")
		})
	}
	fails = func(title, draft string, doc jo, setup func(c *RefScen)) {
		if _, has := doc["$schema"]; !has && draft != "Hybrid" {
			fails(title+", draft named", draft, named(draft, doc), setup)
		}
		add(title, draft, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			if setup != nil {
				setup(c)
			}
			c.compileDoc([]*State{st}, p, c.lit("root", doc), true)
		})
	}
	for _, dr := range []string{"Hybrid", "Draft7", "Draft4"} {
		id := "$id"
		if dr == "Draft4" {
			id = "id"
		}
		simple("pointer into definitions", dr, jo{"$ref": "#/definitions/s", "definitions": jo{"s": leaf("s"), "t": leaf("t")}}, nil)
		simple("escaped pointer", dr, jo{"$ref": "#/definitions/a~1b%25", "definitions": jo{"a/b%": leaf("s"), "a": jo{"b%": leaf("t")}}}, nil)
		simple("pointer through an array", dr, jo{"$ref": "#/x/l/1", "x": jo{"l": jl{leaf("t"), leaf("s")}}}, nil)
		simple("siblings of $ref are ignored", dr, jo{"$ref": "#/definitions/s", "definitions": jo{"s": leaf("s")}, "type": anyv("type"), "minimum": anyv("minimum"), "not": leaf("t"), "properties": anyv("properties"), "required": anyv("required")}, nil)
		simple("reference below allOf", dr, jo{"allOf": jl{jo{"$ref": "#/definitions/s"}}, "definitions": jo{"s": leaf("s")}}, nil)
		simple("reference to a reference", dr, jo{"$ref": "#/definitions/a", "definitions": jo{"a": jo{"$ref": "#/definitions/s"}, "s": leaf("s")}}, nil)
		simple("the same reference twice", dr, jo{"allOf": jl{jo{"$ref": "#/definitions/s"}, jo{"$ref": "#/definitions/s"}}, "definitions": jo{"s": leaf("s")}}, nil)
		simple("location-independent identifier", dr, jo{"$ref": "#foo", "definitions": jo{"a": jo{id: "#foo", "allOf": jl{leaf("s")}}, "b": jo{id: "#bar", "allOf": jl{leaf("t")}}}}, nil)
		nested := func(inner interface{}) jo {
			return jo{id: "http://x.example/root.json", "allOf": jl{inner}, "definitions": jo{
				"a": jo{id: "http://x.example/y/b.json", "allOf": jl{leaf("s")}},
				"b": jo{id: "http://x.example/b.json", "allOf": jl{leaf("t")}},
				"c": jo{id: "http://x.example/y/y/b.json", "allOf": jl{leaf("u")}}}}
		}
		simple("innermost identifier is the base", dr, nested(jo{id: "y/", "allOf": jl{jo{"$ref": "b.json"}}}), nil)
		simple("identifier two levels up is the base", dr, nested(jo{id: "y/", "not": jo{"not": jo{"allOf": jl{jo{"$ref": "b.json"}}}}}), nil)
		simple("identifier of an enclosing property schema", dr, nested(jo{id: "y/d.json", "allOf": jl{jo{"allOf": jl{jo{"$ref": "b.json#"}}}}}), nil)
		simple("identifiers of siblings are not the base", dr, jo{id: "http://x.example/root.json", "allOf": jl{jo{id: "y/"}, jo{"$ref": "b.json"}}, "definitions": jo{
			"a": jo{id: "http://x.example/y/b.json", "allOf": jl{leaf("t")}},
			"b": jo{id: "http://x.example/b.json", "allOf": jl{leaf("s")}}}}, nil)
		simple("relative identifiers nest", dr, jo{id: "http://x.example/root.json", "$ref": "z/w/b.json", "definitions": jo{
			"a": jo{id: "z/", "definitions": jo{"q": jo{id: "w/b.json", "allOf": jl{leaf("s")}}}},
			"b": jo{id: "w/b.json", "allOf": jl{leaf("t")}}}}, nil)
		simple("identifier inside properties of a definition", dr, jo{"$ref": "http://x.example/p.json", "definitions": jo{"a": jo{"properties": jo{"k": jo{id: "http://x.example/p.json", "allOf": jl{leaf("s")}}}}}}, nil)
		simple("pointer relative to an identified schema", dr, jo{"$ref": "http://x.example/p.json#/definitions/d", "definitions": jo{"d": leaf("t"), "a": jo{id: "http://x.example/p.json", "definitions": jo{"d": leaf("s")}}}}, nil)
		// names are not keywords
		simple("members named like keywords below properties", dr, jo{id: "http://x.example/root.json", "allOf": jl{jo{"$ref": "b.json"}}, "properties": jo{id: jo{"title": "x"}, "$ref": jo{"title": "y"}}, "definitions": jo{"b": jo{id: "b.json", "allOf": jl{leaf("s")}}}}, nil)
		for _, k := range []string{"properties", "patternProperties", "dependencies"} {
			k := k
			simple("a reference below a "+k+" entry named const", dr, jo{k: jo{"const": jo{"$ref": "#/definitions/t"}, "enum": jo{"$ref": "#/definitions/t"}}, "allOf": jl{leaf("s")}, "definitions": jo{"t": true2(dr)}}, nil)
			simple(k+" entries named like identifiers", dr, jo{id: "http://x.example/root.json", k: jo{"$id": jo{"title": "http://x.example/q/"}, "id": jo{}}, "allOf": jl{leaf("s"), jo{"$ref": "#/definitions/t"}}, "definitions": jo{"t": true2(dr)}}, nil)
		}
		// registered schemas
		add("registered by URL", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			ex := c.add([]*State{st}, p, "http://x.example/b.json", "b", jo{"allOf": jl{leaf("s")}, "definitions": jo{"d": leaf("t")}}, false)
			ex = c.compileDoc(ex, p, c.lit("root", jo{"allOf": jl{jo{"$ref": "http://x.example/b.json"}, jo{"$ref": "http://x.example/b.json#/definitions/d"}}}), false)
			c.noLoads(ex)
			c.verdicts(ex, func(e *State) tri { return triAnd(c.v("s")(e), c.v("t")(e)) }, "both registered schemas")
		})
		add("registered by identifier", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			ex := c.add([]*State{st}, p, "", "b", jo{id: "http://x.example/b.json", "allOf": jl{leaf("s"), jo{"$ref": "c.json"}}}, false)
			ex = c.add(ex, p, "", "c", jo{id: "http://x.example/c.json", "allOf": jl{leaf("t")}}, false)
			ex = c.compileDoc(ex, p, c.lit("root", jo{"$ref": "http://x.example/b.json"}), false)
			c.noLoads(ex)
			c.verdicts(ex, func(e *State) tri { return triAnd(c.v("s")(e), c.v("t")(e)) }, "both registered schemas")
		})
		for _, k := range []string{"url url", "url id", "id url", "id id"} {
			for _, ds := range [][2]string{{"", ""}, {"", d7}, {d7, ""}, {d7, d7}, {d6, d7}} {
				k, ds := k, ds
				if dr == "Draft4" {
					for i := range ds {
						if ds[i] != "" {
							ds[i] = d4
						}
					}
				}
				add("identifier registered twice: "+k+" "+ds[0]+" "+ds[1], dr, func(c *RefScen) {
					st, p, ok := c.start()
					if !ok {
						return
					}
					f := strings.Fields(k)
					u := func(s string) string {
						if s == "url" {
							return "http://x.example/b.json"
						}
						return ""
					}
					doc := func(s, l, schema string) jo {
						d := jo{"allOf": jl{leaf(l)}}
						if s == "id" {
							d[id] = "http://x.example/b.json"
						}
						if schema != "" {
							d["$schema"] = schema
						}
						return d
					}
					ex := c.add([]*State{st}, p, u(f[0]), "a", doc(f[0], "s", ds[0]), false)
					ex = c.add(ex, p, u(f[1]), "b", doc(f[1], "t", ds[1]), true)
					ex = c.compileDoc(ex, p, c.lit("root", jo{"$ref": "http://x.example/b.json"}), false)
					c.verdicts(ex, c.v("s"), "the schema registered first")
				})
			}
		}
		add("a refused schema is not registered", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			ex := c.add([]*State{st}, p, "", "a", jo{id: "http://x.example/b.json", "allOf": jl{leaf("s")}}, false)
			ex = c.add(ex, p, "http://x.example/new.json", "b", jo{id: "http://x.example/b.json", "allOf": jl{leaf("t")}}, true)
			c.compileDoc(ex, p, c.lit("root", jo{"$ref": "http://x.example/new.json"}), true)
			ex = c.compileDoc(ex, p, c.lit("root2", jo{"$ref": "http://x.example/b.json"}), false)
			c.verdicts(ex, c.v("s"), "the schema registered first")
		})
		add("registered by URL and identifier", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			c.docs["http://x.example/q/c.json"] = jo{"allOf": jl{leaf("t")}}
			ex := c.add([]*State{st}, p, "http://x.example/p/b.json", "b", jo{id: "http://x.example/q/b.json", "allOf": jl{leaf("s"), jo{"$ref": "c.json"}}, "definitions": jo{"d": jo{id: "#foo", "allOf": jl{leaf("u")}}}}, false)
			for _, u := range []string{"http://x.example/p/b.json", "http://x.example/q/b.json", "http://x.example/q/b.json#"} {
				e2 := c.compileDoc(ex, p, c.lit("root", jo{"$ref": u}), false)
				c.noLoads(e2, "http://x.example/q/c.json")
				c.verdicts(e2, func(e *State) tri { return triAnd(c.v("s")(e), c.v("t")(e)) }, "the registered schema")
			}
			e2 := c.compileDoc(ex, p, c.lit("root", jo{"$ref": "http://x.example/q/b.json#foo"}), false)
			c.noLoads(e2)
			c.verdicts(e2, c.v("u"), "the location-independent identifier")
		})
		add("registered by a relative identifier", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			ex := c.add([]*State{st}, p, "http://x.example/p/b.json", "b", jo{id: "q/c.json", "allOf": jl{leaf("s")}}, false)
			ex = c.compileDoc(ex, p, c.lit("root", jo{id: "http://x.example/", "$ref": "p/q/c.json"}), false)
			c.noLoads(ex)
			c.verdicts(ex, c.v("s"), "the registered schema")
		})
		// literal values
		for _, k := range []string{"const", "enum"} {
			k := k
			if k == "const" && dr == "Draft4" {
				continue
			}
			lit := func(x jo) interface{} {
				if k == "enum" {
					return jl{3, x, jl{x}}
				}
				return x
			}
			add("references below "+k+" are literal", dr, func(c *RefScen) {
				d := jo{id: "http://x.example/root.json", "not": jo{k: lit(jo{"$ref": "b.json", "a": jo{"$ref": "c.json"}})}}
				ds := []jo{d}
				if dr != "Hybrid" {
					ds = append(ds, named(dr, d))
				}
				for _, d := range ds {
					st, p, ok := c.start()
					if !ok {
						return
					}
					ex := c.compileDoc([]*State{st}, p, c.lit("root", d), false)
					for _, e := range ex {
						c.r.oblig(1)
						if c.sees(e, "http://x.example/b.json") || c.sees(e, "http://x.example/c.json") {
							c.viol("a value below "+k+" has been rewritten", e)
						}
					}
				}
			})
			fails("identifiers below "+k+" register nothing", dr, jo{"allOf": jl{jo{k: lit(jo{id: "http://x.example/b.json"})}, jo{"$ref": "http://x.example/b.json"}}}, nil)
			simple("identifiers below "+k+" do not shadow", dr, jo{"$ref": "http://x.example/b.json", "allOf": jl{jo{k: lit(jo{id: "http://x.example/b.json"})}}, "definitions": jo{"s": jo{id: "http://x.example/b.json", "allOf": jl{leaf("s")}}}}, nil)
		}
		// loaded documents
		add("loaded document", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			c.docs["http://x.example/y/b.json"] = jo{"definitions": jo{"d": jo{"allOf": jl{leaf("s"), jo{"$ref": "c.json"}, jo{"$ref": "#/definitions/e"}}}, "e": leaf("u")}}
			c.docs["http://x.example/y/c.json"] = jo{"allOf": jl{leaf("t")}}
			ex := c.compileDoc([]*State{st}, p, c.lit("root", jo{id: "http://x.example/", "$ref": "y/b.json#/definitions/d"}), false)
			c.noLoads(ex, "http://x.example/y/b.json#/definitions/d", "http://x.example/y/c.json", "http://x.example/y/b.json")
			c.verdicts(ex, func(e *State) tri { return triAnd(c.v("s")(e), c.v("t")(e), c.v("u")(e)) }, "the loaded schemas")
		})
		add("document compiled by URL", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			c.docs["http://x.example/y/b.json"] = jo{"definitions": jo{"e": leaf("u")}, "allOf": jl{leaf("s"), jo{"$ref": "c.json"}, jo{"$ref": "#/definitions/e"}}}
			c.docs["http://x.example/y/c.json"] = jo{"allOf": jl{leaf("t")}}
			ex := c.compileDoc([]*State{st}, p, c.in.sym("loader http://x.example/y/b.json"), false)
			c.verdicts(ex, func(e *State) tri { return triAnd(c.v("s")(e), c.v("t")(e), c.v("u")(e)) }, "the loaded schemas")
		})
		// what cannot be resolved
		fails("pointer to nothing", dr, jo{"$ref": "#/definitions/missing", "definitions": jo{"s": leaf("s")}}, nil)
		fails("pointer below a number", dr, jo{"$ref": "#/minimum/x", "minimum": 3}, nil)
		fails("pointer past the end of an array", dr, jo{"$ref": "#/x/l/2", "x": jo{"l": jl{leaf("t"), leaf("s")}}}, nil)
		fails("relative reference without a base", dr, jo{"$ref": "other.json"}, nil)
		fails("relative reference like a pointer that was resolved", dr, jo{"allOf": jl{jo{"$ref": "http://x.example/b.json"}, jo{"$ref": "http://x.example/b.json#/definitions/s"}, jo{"$ref": "http://x.example/c.json#/definitions/s"}, jo{"not": jo{"$ref": "/definitions/s"}}}}, func(c *RefScen) {
			c.docs["http://x.example/b.json"] = jo{"definitions": jo{"s": leaf("s")}}
			c.docs["http://x.example/c.json"] = jo{"definitions": jo{"s": leaf("t")}}
		})
		fails("document that cannot be loaded", dr, jo{"$ref": "http://x.example/none.json"}, nil)
		fails("target that is not a schema", dr, jo{"$ref": "#/definitions/n/title", "definitions": jo{"n": jo{"title": "text"}}}, nil)
		fails("target that is an array", dr, jo{"$ref": "#/x/l", "x": jo{"l": jl{leaf("s")}}}, nil)
		fails("unresolvable reference below a definition", dr, jo{"definitions": jo{"s": jo{"$ref": "#/nothing"}}}, nil)
		fails("reference that is not a string", dr, jo{"$ref": 3}, nil)
		fails("unresolvable reference in a loaded document", dr, jo{"$ref": "http://x.example/b.json"}, func(c *RefScen) {
			c.docs["http://x.example/b.json"] = jo{"$ref": "#/nothing"}
		})
		add("an arbitrary target", dr, func(c *RefScen) {
			for _, d := range []jo{{"$ref": "#/x/y", "x": jo{"y": anyv("target")}}, {"$ref": "#/x", "x": anyv("target")}, {"$ref": "#/x/1", "x": jl{nil, anyv("target")}}, {"$ref": "http://x.example/b.json"}, {"$ref": "http://x.example/c.json#/x"}} {
				c.docs["http://x.example/b.json"] = anyv("target")
				c.docs["http://x.example/c.json"] = jo{"x": anyv("target")}
				st, p, ok := c.start()
				if !ok {
					return
				}
				t := c.in.sym("value target")
				for _, e := range c.run(st, c.P.method("SchemaLoader", "Compile"), p, c.lit("root", d)) {
					c.r.oblig(1)
					k := c.in.kindsOf(e, t)
					okKinds := uint32(kObject | kBool)
					bad := isErrVal(errOf(e.ret))
					switch ps := c.tru(e, c.in.tm("PS", t)); {
					case !bad && (k&^okKinds != 0 || ps != triT):
						c.viol("the schema compiles although the target need not be a well-formed schema", e)
					case bad && k&^okKinds == 0 && ps != triF && (k == kObject || k == kBool) && !hasSchemaKey(e, c, t):
						c.viol("the schema does not compile although the target is a schema: "+valStr(errOf(e.ret)), e)
					}
				}
			}
		})
		// recursion
		for _, r := range []string{"#", "", "http://x.example/root.json", "root.json#", "#/properties/b"} {
			r := r
			add("recursive reference "+r, dr, func(c *RefScen) {
				st, p, ok := c.start()
				if !ok {
					return
				}
				d := jo{"properties": jo{"a": jo{"$ref": r}, "b": jo{"properties": jo{"a": jo{"$ref": "#"}}, "allOf": jl{leaf("t")}}}, "allOf": jl{leaf("s")}}
				if strings.Contains(r, "root") {
					d[id] = "http://x.example/root.json"
				}
				ex := c.compileDoc([]*State{st}, p, c.lit("root", d), false)
				for _, e := range ex {
					e := e.clone()
					v := c.in.sym("value inner")
					e.facts[c.in.typeAtom(v)] = kAll &^ kObject
					c.docs["literal doc"] = jo{"a": anyv("inner")}
					c.kindOver = map[string]uint32{"inner": kAll &^ kObject}
					l := "s"
					if strings.Contains(r, "/b") {
						l = "t"
					}
					for _, x := range c.run(e, c.P.method("Schema", "Validate"), e.ret.(VTuple).F[0], c.in.sym("loader literal doc")) {
						c.r.oblig(1)
						tu, ok := x.ret.(VTuple)
						if !ok || isErrVal(tu.F[1]) {
							continue
						}
						es, ok := c.errors(x, tu.F[0])
						if !ok {
							c.in.Undec[c.title] = "result not readable"
							continue
						}
						switch in := c.tru(x, c.in.tm("V", c.in.tm("compiled", c.leafTerm(l)), v)); {
						case in == triU:
							c.viol("the member the recursive reference is about is not validated against its target", x)
						case in == triF && len(es) == 0:
							c.viol("a violation of the target of a recursive reference is not reported", x)
						}
					}
				}
			})
		}
		add("recursive schemas compile", dr, func(c *RefScen) {
			st, p, ok := c.start()
			if !ok {
				return
			}
			c.compileDoc([]*State{st}, p, c.lit("root", jo{"properties": jo{"next": jo{"$ref": "#"}}, "items": jo{"$ref": "#/definitions/a"}, "definitions": jo{
				"a": jo{"items": jo{"$ref": "#/definitions/b"}}, "b": jo{"items": jo{"$ref": "#/definitions/a"}}}}), false)
			st, p, _ = c.start()
			c.docs["http://x.example/l.json"] = jo{"properties": jo{"n": jo{"$ref": "l.json"}, "m": jo{"$ref": "m.json"}}}
			c.docs["http://x.example/m.json"] = jo{"properties": jo{"n": jo{"$ref": "l.json#"}}}
			c.compileDoc([]*State{st}, p, c.in.sym("loader http://x.example/l.json"), false)
		})
	}
	js = append(js, refDraftJobs()...)
	return append(js, placeJobs()...)
}

// true2: a schema that accepts everything.
func true2(dr string) interface{} {
	if dr == "Draft4" {
		return jo{}
	}
	return true
}

// refDraftJobs: what a reference denotes is compiled in the draft of its own document.
func refDraftJobs() []Job {
	var js []Job
	p := []string{"C14", "C15"}
	for _, dr := range allDrafts {
		for _, own := range []string{"", d4, d6, d7} {
			dr, own := dr, own
			want := dr
			for d, u := range metaURLs {
				if u != "" && strings.TrimSuffix(u, "#") == strings.TrimSuffix(own, "#") {
					want = d
				}
			}
			doc := func() jo {
				d := jo{"definitions": jo{"d": jo{"allOf": jl{leaf("s")}}, "e": leaf("t")}, "allOf": jl{leaf("u")}}
				if own != "" {
					d["$schema"] = own
				}
				return d
			}
			check := func(c *RefScen, ex []*State, names ...string) {
				for _, n := range names {
					c.leafDraft(ex, n, want)
				}
				c.leafDraft(ex, "v", dr)
			}
			title := "own draft " + own
			js = append(js, refJob("fragment of a loaded document, "+title, dr, p, func(c *RefScen) {
				st, l, ok := c.start()
				if !ok {
					return
				}
				c.docs["http://x.example/b.json"] = doc()
				ex := c.compileDoc([]*State{st}, l, c.lit("root", jo{"allOf": jl{leaf("v"), jo{"$ref": "http://x.example/b.json#/definitions/d"}, jo{"$ref": "http://x.example/b.json#/definitions/e"}, jo{"$ref": "http://x.example/b.json"}}}), false)
				check(c, ex, "s", "t", "u")
			}))
			js = append(js, refJob("fragment of a registered document, "+title, dr, p, func(c *RefScen) {
				st, l, ok := c.start()
				if !ok {
					return
				}
				ex := c.add([]*State{st}, l, "http://x.example/b.json", "b", doc(), false)
				ex = c.compileDoc(ex, l, c.lit("root", jo{"allOf": jl{leaf("v"), jo{"$ref": "http://x.example/b.json#/definitions/d"}, jo{"$ref": "http://x.example/b.json#/definitions/e"}, jo{"$ref": "http://x.example/b.json"}}}), false)
				check(c, ex, "s", "t", "u")
			}))
			// a $schema inside a document says nothing
			for _, in := range []string{d4, d6, d7, strings.TrimSuffix(d4, "#"), strings.TrimSuffix(d6, "#"), strings.TrimSuffix(d7, "#"), "http://x.example/s"} {
				in := in
				if strings.TrimSuffix(in, "#") == strings.TrimSuffix(own, "#") {
					continue
				}
				js = append(js, refJob("$schema "+in+" in a subschema, "+title, dr, p, func(c *RefScen) {
					st, l, ok := c.start()
					if !ok {
						return
					}
					d := jo{"definitions": jo{"d": jo{"$schema": in, "allOf": jl{leaf("s")}}}, "allOf": jl{leaf("u"), jo{"$schema": in, "not": leaf("t")}, jo{"$ref": "#/definitions/d"}}}
					if own != "" {
						d["$schema"] = own
					}
					ex := c.compileDoc([]*State{st}, l, c.lit("root", d), false)
					for _, n := range []string{"s", "t", "u"} {
						c.leafDraft(ex, n, want)
					}
				}))
			}
			// the identifier keyword
			if own != "" || dr == "Hybrid" {
				js = append(js, refJob("identifier keyword, "+title, dr, p, func(c *RefScen) {
					only := func(d jo, load string) {
						st, l, ok := c.start()
						if !ok {
							return
						}
						for _, u := range []string{"p", "q", "p/p", "q/q", "p/q", "q/p"} {
							c.docs["http://x.example/"+u+"/b.json"] = jo{"allOf": jl{leaf("s")}}
						}
						if own != "" {
							d["$schema"] = own
						}
						ex := c.compileDoc([]*State{st}, l, c.lit("root", d), false)
						c.noLoads(ex, load)
						for _, e := range ex {
							c.r.oblig(1)
							if !hasEv(e, "load "+load) {
								c.viol("the reference does not denote "+load, e)
							}
						}
					}
					ref := func() interface{} { return jl{jo{"$ref": "b.json"}} }
					if want != "Hybrid" {
						mine, x := "$id", "q"
						if want == "Draft4" {
							mine, x = "id", "p"
						}
						only(jo{"id": "http://x.example/p/", "$id": "http://x.example/q/", "allOf": ref()}, "http://x.example/"+x+"/b.json")
						only(jo{mine: "http://x.example/" + x + "/", "allOf": jl{jo{"id": "p/", "$id": "q/", "allOf": ref()}}}, "http://x.example/"+x+"/"+x+"/b.json")
						other := map[string]string{"id": "$id", "$id": "id"}[mine]
						only(jo{mine: "http://x.example/" + x + "/", "allOf": jl{jo{other: "n/", "allOf": ref()}}}, "http://x.example/"+x+"/b.json")
					} else {
						only(jo{"id": "http://x.example/p/", "allOf": ref()}, "http://x.example/p/b.json")
						only(jo{"$id": "http://x.example/p/", "allOf": ref()}, "http://x.example/p/b.json")
						only(jo{"$id": "http://x.example/p/", "allOf": jl{jo{"id": "q/", "allOf": ref()}}}, "http://x.example/p/q/b.json")
						only(jo{"id": "http://x.example/p/", "allOf": jl{jo{"$id": "q/", "allOf": ref()}}}, "http://x.example/p/q/b.json")
					}
				}))
			}
			js = append(js, refJob("identified part of another document, "+title, dr, p, func(c *RefScen) {
				for _, reg := range []bool{false, true} {
					st, l, ok := c.start()
					if !ok {
						return
					}
					mk := func() jo {
						d := jo{"definitions": jo{}, "allOf": jl{leaf("u")}}
						for _, k := range []string{"id", "$id"} {
							if (k == "id") != (want == "Draft4") {
								continue
							}
							d[k] = "http://x.example/b.json"
							d["definitions"] = jo{"a": jo{k: "s.json", "not": leaf("s")}, "b": jo{k: "#t", "items": leaf("t")}}
						}
						if own != "" {
							d["$schema"] = own
						}
						return d
					}
					sts := []*State{st}
					root := jo{"allOf": jl{leaf("v"), jo{"$ref": "http://x.example/s.json"}, jo{"$ref": "http://x.example/b.json#t"}}}
					if reg {
						sts = c.add(sts, l, "", "b", mk(), false)
					} else {
						c.docs["http://x.example/b.json"] = mk()
						root["allOf"] = jl{leaf("v"), jo{"$ref": "http://x.example/b.json"}, jo{"$ref": "http://x.example/s.json"}, jo{"$ref": "http://x.example/b.json#t"}}
					}
					check(c, c.compileDoc(sts, l, c.lit("root", root), false), "s", "t", "u")
				}
			}))
			js = append(js, refJob("a document without a draft below it, "+title, dr, p, func(c *RefScen) {
				st, l, ok := c.start()
				if !ok {
					return
				}
				d := doc()
				d["not"] = jo{"$ref": "http://x.example/c.json"}
				c.docs["http://x.example/b.json"] = d
				c.docs["http://x.example/c.json"] = jo{"allOf": jl{leaf("w")}}
				ex := c.compileDoc([]*State{st}, l, c.lit("root", jo{"allOf": jl{leaf("v"), jo{"$ref": "http://x.example/b.json"}}}), false)
				check(c, ex, "s", "t", "u", "w")
			}))
			js = append(js, refJob("subschemas, "+title, dr, p, func(c *RefScen) {
				st, l, ok := c.start()
				if !ok {
					return
				}
				d := doc()
				d["properties"] = jo{"a": jo{"items": jo{"not": leaf("w")}}}
				ex := c.compileDoc([]*State{st}, l, c.lit("root", d), false)
				for _, n := range []string{"s", "t", "u", "w"} {
					c.leafDraft(ex, n, want)
				}
			}))
		}
	}
	return js
}

// valueJobs: identifiers, references and their surroundings with arbitrary values.
func valueJobs() []Job {
	var js []Job
	for _, dr := range allDrafts {
		for _, ks := range [][]string{{"$ref"}, {"id"}, {"$id"}, {"id", "$id"}, {"$id", "$ref"}, {"id", "$ref"}, {"$schema"}, {"$schema", "$id"}, {"$schema", "$ref"}, {"const", "$ref"}, {"properties"}, {"properties", "$ref"}, {"patternProperties"}, {"dependencies"}, {"definitions"}, {"items"}} {
			ks := ks
			js = append(js, refJob("arbitrary values of "+strings.Join(ks, " and "), dr, []string{"C12"}, func(c *RefScen) {
				doc := func() jo {
					d := jo{}
					for _, k := range ks {
						d[k] = anyv(k)
					}
					return d
				}
				c.docs["*"] = jo{"allOf": jl{leaf("s")}}
				for i, d := range []jo{doc(), {"allOf": jl{doc()}}, {"properties": jo{"a": doc(), "$ref": doc()}}, {"$schema": d6, "x": doc(), "$ref": "#/x"}} {
					st, p, ok := c.start()
					if !ok {
						return
					}
					c.r.oblig(1)
					l := c.lit("root"+strconv.Itoa(i), d)
					c.run(st, c.P.method("SchemaLoader", "Compile"), p, l)
					if i < 2 {
						c.run(st, c.P.method("SchemaLoader", "AddSchemas"), p, &VList{Items: []Val{l}})
						c.run(st, c.P.method("SchemaLoader", "AddSchema"), p, vstr("http://x.example/u.json"), l)
					}
				}
			}))
		}
		js = append(js, refJob("an arbitrary value", dr, []string{"C12"}, func(c *RefScen) {
			for _, d := range []interface{}{anyv("root"), jl{anyv("x")}, nil, "text", 3, true} {
				st, p, ok := c.start()
				if !ok {
					return
				}
				c.r.oblig(1)
				l := c.lit("root", d)
				c.run(st, c.P.method("SchemaLoader", "Compile"), p, l)
				c.run(st, c.P.method("SchemaLoader", "AddSchemas"), p, &VList{Items: []Val{l}})
				c.run(st, c.P.method("SchemaLoader", "AddSchema"), p, c.in.sym("url"), l)
				c.docs["*"] = d
				c.run(st, c.P.method("SchemaLoader", "Compile"), p, c.lit("ref", jo{"$ref": "http://x.example/b.json"}))
				c.run(st, c.P.method("SchemaLoader", "Compile"), p, c.lit("ref2", jo{"$ref": "http://x.example/b.json#/a/0"}))
				c.run(st, c.P.method("SchemaLoader", "Compile"), p, c.lit("ref3", jo{"$ref": strv("R")}))
			}
		}))
	}
	return js
}

// place: where a subschema can be.
type place struct {
	name  string
	draft int
	wrap  func(x interface{}) jo
}

func places() []place {
	var ps []place
	val := func(k string, d int, extra jo) {
		ps = append(ps, place{k, d, func(x interface{}) jo {
			r := jo{k: x}
			for a, b := range extra {
				r[a] = b
			}
			return r
		}})
	}
	for _, k := range []string{"items", "not", "additionalProperties"} {
		val(k, 4, nil)
	}
	val("additionalItems", 4, jo{"items": jl{jo{}}})
	val("contains", 6, nil)
	val("propertyNames", 6, nil)
	val("if", 7, jo{"then": jo{}})
	val("then", 7, jo{"if": jo{}})
	val("else", 7, jo{"if": jo{}})
	for _, k := range []string{"allOf", "anyOf", "oneOf", "items"} {
		k := k
		ps = append(ps, place{"second of " + k, 4, func(x interface{}) jo { return jo{k: jl{jo{}, x}} }})
	}
	for _, k := range []string{"properties", "patternProperties", "dependencies", "definitions"} {
		k := k
		for _, n := range []string{"a", "const", "enum", "properties", "definitions", "dependencies", "items", "$ref", "id", "$id"} {
			n := n
			ps = append(ps, place{k + " named " + n, 4, func(x interface{}) jo { return jo{k: jo{n: x, "z": jo{}}} }})
		}
	}
	return ps
}

// placeJobs: wherever a subschema is, references in it resolve against the innermost identifier around it.
func placeJobs() []Job {
	var js []Job
	p15 := []string{"C15"}
	for _, dr := range []string{"Hybrid", "Draft7", "Draft4"} {
		id, n := "$id", 7
		if dr == "Draft4" {
			id, n = "id", 4
		}
		for _, pl := range places() {
			pl := pl
			if pl.draft > n {
				continue
			}
			js = append(js, refJob("base of a reference below "+pl.name, dr, p15, func(c *RefScen) {
				st, p, ok := c.start()
				if !ok {
					return
				}
				c.docs["http://x.example/y/b.json"] = jo{"allOf": jl{leaf("s")}}
				c.docs["http://x.example/b.json"] = jo{"allOf": jl{leaf("t")}}
				doc := pl.wrap(jo{id: "y/", "not": jo{"$ref": "b.json"}})
				doc[id] = "http://x.example/root.json"
				ex := c.compileDoc([]*State{st}, p, c.lit("root", doc), false)
				c.noLoads(ex, "http://x.example/y/b.json")
				for _, e := range ex {
					c.r.oblig(1)
					if !hasEv(e, "load http://x.example/y/b.json") {
						c.viol("the document the reference denotes is not used", e)
					}
				}
				// the identifier of one place is not the base of another
				st, p, _ = c.start()
				doc = pl.wrap(jo{id: "y/", "not": jo{}})
				for k, v := range pl.wrap(jo{id: "http://x.example/q/"}) {
					if _, ok := v.(jo); ok && k != id {
						doc["definitions"] = jo{"u": jo{k: v}}
					}
				}
				doc[id] = "http://x.example/root.json"
				doc["allOf"] = jl{jo{"$ref": "b.json"}}
				ex = c.compileDoc([]*State{st}, p, c.lit("root2", doc), false)
				c.noLoads(ex, "http://x.example/b.json")
			}))
			js = append(js, refJob("arbitrary identifiers and reference below "+pl.name, dr, p15, func(c *RefScen) {
				st, p, ok := c.start()
				if !ok {
					return
				}
				c.docs["*"] = jo{"allOf": jl{leaf("s")}}
				doc := pl.wrap(jo{id: strv("J"), "not": jo{"$ref": strv("R")}})
				doc[id] = "http://x.example/root.json"
				in := c.in
				base := in.tm("jref", in.str("http://x.example/root.json"))
				J, R := in.tm("jref", in.sym("string J")), in.tm("jref", in.sym("string R"))
				own := in.refStr(in.tm("inherit", base, J))
				want := in.refStr(in.tm("inherit", in.tm("inherit", base, J), R)).String()
				seen := false
				defer func() {
					if !seen && len(c.in.Undec) == 0 {
						c.viol("the reference is never looked up", nil)
					}
				}()
				for _, e := range c.run(st, c.P.method("SchemaLoader", "Compile"), p, c.lit("root", doc)) {
					c.r.oblig(1)
					seen = seen || hasEv(e, "new "+want)
					if c.tru(e, in.tm("refok", in.sym("string J"))) == triF || c.tru(e, in.tm("refok", in.sym("string R"))) == triF {
						continue // not references
					}
					bad := false
					for a, m := range e.facts {
						bad = bad || a.Op == "inheritok" && m == bF
						// the same identifier twice in a document
						bad = bad || a.Op == "eq" && m == bT && (a.Args[0] == own || a.Args[1] == own)
					}
					if bad {
						continue
					}
					for _, ev := range e.ev {
						if u := strings.TrimPrefix(ev, "new "); u != ev && u != want {
							c.viol("the reference is looked up as "+u+", expected "+want, e)
						}
					}
				}
			}))
		}
	}
	return js
}

// hasSchemaKey: the path depends on a $schema, id or $ref the target may have.
func hasSchemaKey(e *State, c *RefScen, t *Term) bool {
	for a := range e.facts {
		if s := a.String(); strings.Contains(s, "$schema") || strings.Contains(s, "schema url") {
			return true
		}
	}
	return false
}

func hasEv(e *State, ev string) bool {
	for _, x := range e.ev {
		if x == ev {
			return true
		}
	}
	return false
}
