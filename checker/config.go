package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- the schema loader: settings, meta-schema validation, draft detection ----

// Cfg: one call of the loader's API on symbolic documents.
type Cfg struct {
	*Scen
	r          *Report
	title_     string
	entry      string
	dollar     string // "absent", "any", or a literal value of $schema
	loader     VPtr
	before     *State
	root       *Term
	selfTested bool
}

func (c *Cfg) viol(props []string, what string, st *State) {
	facts := ""
	if st != nil {
		facts = c.in.describe(st)
	}
	c.r.viol(props, c.title_, what, facts)
}

func (c *Cfg) field(st *State, p VPtr, t types.Type, name string) Val {
	i := c.fieldIdx(t, name)
	if i < 0 {
		return nil
	}
	sv, ok := c.in.getPath(st.heap[p.O].V, splitPath(p.Path), nil).(VStruct)
	if !ok {
		return nil
	}
	return sv.F[i]
}

// newCfg: a loader with the given settings about to be given the document M ($schema as chosen).
func newCfg(P *Program, r *Report, entry, draft, dollar string, auto, validate bool) *Cfg {
	s := newScen(P, "", draft)
	s.autoDetect, s.validate = auto, validate
	c := &Cfg{Scen: s, r: r, entry: entry, dollar: dollar}
	c.title_ = fmt.Sprintf("%s loader{Draft: %s, AutoDetect: %v, Validate: %v} $schema %s", entry, draft, auto, validate, dollar)
	in := s.in
	in.deadline = time.Now().Add(60 * time.Second)
	in.walkErr = true
	s.pre[in.typeAtom(s.M)] = kObject | kBool
	s.pre[in.typeAtom(in.sym("T"))] = kObject
	in.mapClose[s.asMap(in.sym("T"))] = true
	in.mapClose[s.Mm] = true
	switch dollar {
	case "absent":
	default:
		in.mapKeys[s.Mm] = []*Term{in.str("$schema")}
		if dollar != "any" {
			s.over[in.tm("mslot", s.Mm, in.str("$schema"))] = VIface{types.Typ[types.String], vstr(dollar)}
		}
	}
	in.onInvoke = c.invokeL
	in.onCall = c.callL
	return c
}

func (c *Cfg) invokeL(st *State, recv Val, m *types.Func, args []Val) (Val, bool) {
	r, ok := recv.(*Term)
	if !ok || m == nil {
		return nil, false
	}
	in := c.in
	if r.Op == "sym" && strings.HasPrefix(r.Lit, "loader") {
		doc := c.M
		if r.Lit == "loaderT" {
			doc = in.sym("T")
		}
		switch m.Name() {
		case "LoadJSON":
			if in.askBool(st, in.tml("fails", "LoadJSON", r)) {
				return VTuple{[]Val{VNil{}, in.tml("err", "load", r)}}, true
			}
			return VTuple{[]Val{doc, VNil{}}}, true
		case "JsonReference":
			return VTuple{[]Val{in.tm("jref", in.str("#")), VNil{}}}, true
		case "LoaderFactory":
			return in.tml("nn", "factory of "+r.Lit), true
		}
	}
	return nil, false
}

func (c *Cfg) callL(st *State, fn *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
	in, P := c.in, c.P
	if fn.Signature.Recv() == nil {
		return nil, false
	}
	switch {
	case fn == P.method("SchemaLoader", "Compile"):
		// a nested compilation: of the meta-schema
		sl, ok := args[0].(VPtr)
		if !ok {
			return nil, false
		}
		t := P.namedType("SchemaLoader")
		if b, isC := constBool(c.field(st, sl, t, "Validate")); !isC || b {
			c.viol([]string{"C16"}, "the meta-schema itself is compiled with validation on: it would be validated against itself without end", st)
		}
		url := in.tm("unknown")
		if i, ok := args[1].(VIface); ok {
			if m := P.prog.LookupMethod(i.T, P.pkg.Pkg, "JsonReference"); m != nil {
				if v, ok := c.pure(st, m, i.V); ok {
					if tu, ok := v.(VTuple); ok {
						if x, ok := tu.F[0].(*Term); ok {
							url = in.refStr(x)
						}
					}
				}
			}
		}
		st.addEv("meta " + url.String())
		// compiling it switches the pool to its loader factory
		if pp, ok := c.field(st, sl, t, "pool").(VPtr); ok {
			if i := c.fieldIdx(P.namedType("schemaPool"), "jsonLoaderFactory"); i >= 0 {
				o := *st.heap[pp.O]
				o.V = in.setPath(o.V, []int{i}, in.tml("nn", "factory of the meta-schema's loader"))
				st.heap[pp.O] = &o
			}
		}
		if !in.askBool(st, in.tm("metacompiles", url)) {
			return VTuple{[]Val{VNil{}, in.tml("err", "metacompile", url)}}, true
		}
		ts := P.namedType("Schema")
		p := in.alloc(st, &Obj{Kind: oCell, T: ts, V: in.zero(ts), Ghost: map[string]Val{"meta": url}})
		return VTuple{[]Val{p, VNil{}}}, true
	case isPtrNamed(fn.Signature.Recv().Type(), "Schema") && fn.Pkg == P.pkg:
		p, ok := args[0].(VPtr)
		if !ok {
			return nil, false
		}
		url, ok := st.heap[p.O].Ghost["meta"]
		if !ok {
			return nil, false
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isPtrToNamed(res.At(0).Type(), P.tResult) || len(args) < 2 {
			return nil, false
		}
		node := in.nodeTerm(st, args[1])
		mt := in.tm("meta", url.(*Term))
		st.addEv("checked " + node.String() + " against " + url.(*Term).String())
		rp := in.alloc(st, &Obj{Kind: oCell, T: P.tResult, V: in.zero(P.tResult)})
		if !in.askBool(st, in.tm("V", mt, node)) {
			in.appendErrors(st, rp, &VList{Items: []Val{VTok{S: mt, N: node, Ctx: VNil{}}}})
		}
		if res.Len() == 2 {
			return VTuple{[]Val{rp, VNil{}}}, true
		}
		return rp, true
	}
	return nil, false
}

// dollarTerm: the $schema of the document as a string.
func (c *Cfg) dollarTerm() *Term { return c.asStr(c.in.tm("elem", c.Mm, c.in.str("$schema"))) }

// url: the meta-schema the document is to be checked against: kind of answer, and the URL.
// "none": nothing to check; "url": known; "error": $schema is not usable; "?": open.
func (c *Cfg) url(st *State) (string, *Term) {
	in := c.in
	def := func() (string, *Term) {
		if c.Draft == "Hybrid" {
			return "none", nil
		}
		return "url", in.str(metaURLs[c.Draft])
	}
	if !c.autoDetect || c.dollar == "absent" {
		if c.autoDetect {
			return def()
		}
		return def()
	}
	switch in.kindsOf(st, c.M) {
	case kBool:
		return def()
	case kObject:
	default:
		return "?", nil
	}
	if c.dollar != "any" {
		u := in.refStr(in.tm("jref", in.str(c.dollar)))
		if s, ok := termStr(u); ok && s == "" {
			return def()
		}
		return "url", u
	}
	k := in.tm("elem", c.Mm, in.str("$schema"))
	switch c.kind(st, k, kString) {
	case triF:
		return "error", nil
	case triU:
		return "?", nil
	}
	s := c.dollarTerm()
	switch c.tru(st, in.tm("refok", s)) {
	case triF:
		return "error", nil
	case triU:
		return "?", nil
	}
	u := in.refStr(in.tm("jref", s))
	switch c.eq(st, u, in.str("")) {
	case triT:
		return def()
	case triU:
		// nobody asked: the empty reference is not told apart
		return "?", u
	}
	return "url", u
}

// draft: the draft the document is to be compiled in.
func (c *Cfg) wantDraft(st *State) string {
	in := c.in
	if !c.autoDetect || c.dollar == "absent" {
		return c.Draft
	}
	switch in.kindsOf(st, c.M) {
	case kBool:
		return c.Draft
	case kObject:
	default:
		return "?"
	}
	var u *Term
	if c.dollar != "any" {
		u = in.refStr(in.tm("jref", in.str(c.dollar)))
	} else {
		u = in.refStr(in.tm("jref", c.dollarTerm()))
	}
	r := c.Draft
	for _, d := range numbered {
		switch c.eqs(st, u, in.str(metaURLs[d])) {
		case triT:
			return d
		case triU:
			r = "?"
		}
	}
	return r
}

func (c *Cfg) eqs(st *State, a, b *Term) tri {
	if a.cv != nil && b.cv != nil {
		return triB(a == b)
	}
	return c.eq(st, a, b)
}

func (c *Cfg) start() (*State, bool) {
	st, p, ok := c.newLoader()
	if !ok {
		return nil, false
	}
	c.loader = p
	// an earlier compilation left its factory
	if pp, ok := c.field(st, p, c.P.namedType("SchemaLoader"), "pool").(VPtr); ok {
		if i := c.fieldIdx(c.P.namedType("schemaPool"), "jsonLoaderFactory"); i >= 0 {
			o := *st.heap[pp.O]
			o.V = c.in.setPath(o.V, []int{i}, c.in.tml("nn", "factory of an earlier loader"))
			st.heap[pp.O] = &o
		}
	}
	c.before = st.clone()
	return st, true
}

func (c *Cfg) run() {
	in, P := c.in, c.P
	st, ok := c.start()
	if !ok {
		return
	}
	var f *ssa.Function
	var args []Val
	switch c.entry {
	case "Compile":
		f, args = P.method("SchemaLoader", "Compile"), []Val{c.loader, in.sym("loaderS")}
	case "AddSchema":
		f, args = P.method("SchemaLoader", "AddSchema"), []Val{c.loader, vstr("http://h.example/s.json"), in.sym("loaderS")}
	case "AddSchemas":
		f, args = P.method("SchemaLoader", "AddSchemas"), []Val{c.loader, &VList{Items: []Val{in.sym("loaderS")}}}
	case "AddSchemas (two)":
		f, args = P.method("SchemaLoader", "AddSchemas"), []Val{c.loader, &VList{Items: []Val{in.sym("loaderT"), in.sym("loaderS")}}}
	}
	if f == nil {
		c.r.undec(c.entry, "missing")
		return
	}
	in.enter(st, f, args, nil)
	for _, x := range in.run(st) {
		c.checkExit(x)
	}
}

func (c *Cfg) has(st *State, pre string) bool {
	for _, e := range st.ev {
		if strings.HasPrefix(e, pre) {
			return true
		}
	}
	return false
}

func (c *Cfg) opaqueAt(st *State) string {
	for a := range st.facts {
		if op := opaqueOpBy(a, func(n string) bool {
			return plainFn(n) || strings.HasPrefix(n, "LoadJSON") || strings.HasPrefix(n, "factory") || n == "pointer"
		}); op != "" {
			return op
		}
	}
	return ""
}

func (c *Cfg) checkExit(x *State) {
	in := c.in
	c.r.oblig(4)
	var err Val = x.ret
	var sch Val
	if t, ok := x.ret.(VTuple); ok && len(t.F) == 2 {
		sch, err = t.F[0], t.F[1]
	}
	isErr := isErrVal(err)
	op := c.opaqueAt(x)
	soft := func(props []string, what string) {
		if op != "" {
			c.r.undec(c.title_+": depends on "+op, what+": "+in.describe(x))
			return
		}
		c.viol(props, what, x)
	}
	// settings
	tl := c.P.namedType("SchemaLoader")
	for _, n := range []string{"AutoDetect", "Validate", "Draft"} {
		a, b := c.field(c.before, c.loader, tl, n), c.field(x, c.loader, tl, n)
		if a == nil || b == nil {
			continue
		}
		if !sameVal(a, b) {
			c.viol([]string{"C16"}, "the loader's "+n+" changed from "+valStr(a)+" to "+valStr(b), x)
		}
	}
	tp := c.P.namedType("schemaPool")
	if pp, ok := c.field(x, c.loader, tl, "pool").(VPtr); ok {
		f := c.field(x, pp, tp, "jsonLoaderFactory")
		if t, ok := f.(*Term); ok {
			switch {
			case strings.HasPrefix(t.Lit, "factory of the meta"):
				c.viol([]string{"C16", "C17"}, "later references are loaded by the meta-schema's loader factory", x)
			case c.entry == "Compile" && strings.HasPrefix(t.Lit, "factory of an earlier"):
				c.viol([]string{"C16", "C17"}, "references are loaded by the factory of an earlier schema's loader", x)
			}
		}
	}
	if p0, ok := c.field(c.before, c.loader, tl, "pool").(VPtr); ok {
		if a, b := c.field(c.before, p0, tp, "autoDetect"), c.field(x, p0, tp, "autoDetect"); a != nil && b != nil && !sameVal(a, b) {
			c.viol([]string{"C16", "C14"}, "the pool no longer follows the loader's AutoDetect setting", x)
		}
	}
	// the load
	for _, l := range []string{"loaderS", "loaderT"} {
		if c.tru(x, in.tml("fails", "LoadJSON", in.sym(l))) == triT && !isErr {
			c.viol([]string{"C17", "C16"}, "a document that could not be loaded is ignored", x)
		}
	}
	if c.tru(x, in.tml("fails", "LoadJSON", in.sym("loaderS"))) != triF {
		return
	}
	// the meta-schema check
	what, url := c.url(x)
	metas := ""
	for _, e := range x.ev {
		if strings.HasPrefix(e, "meta ") || strings.HasPrefix(e, "checked ") {
			metas += e + "; "
		}
	}
	if !c.validate {
		if metas != "" {
			c.viol([]string{"C16"}, "validated against a meta-schema although Validate is off: "+metas, x)
		}
	} else if !isErr {
		switch what {
		case "url":
			if c.tru(x, in.tm("V", in.tm("meta", url), c.M)) != triT {
				soft([]string{"C16"}, "accepted although the document is not known to conform to "+url.String())
			}
		case "?":
			if url != nil {
				// the empty reference is not distinguished from others: then it has to be valid against what it names
				if c.tru(x, in.tm("V", in.tm("meta", url), c.M)) == triT {
					break
				}
			}
			soft([]string{"C16"}, "accepted without knowing which meta-schema applies")
		case "error":
			soft([]string{"C16", "C13"}, "accepted although $schema is not a usable string")
		}
	}
	// accepted when there is no reason not to
	if isErr {
		reason := false
		for a, m := range x.facts {
			switch a.Op {
			case "V":
				reason = reason || m == bF
			case "metacompiles":
				reason = reason || m == bF
			case "fails", "walkfails":
				reason = reason || m == bT
			case "refok", "PS", "inheritok":
				reason = reason || m == bF
			}
		}
		if what == "error" && c.autoDetect {
			reason = true
		}
		if c.kind(x, c.M, kObject|kBool) == triF || c.wantDraft(x) == "Draft4" && c.kind(x, c.M, kObject) == triF {
			reason = true
		}
		if !reason {
			soft([]string{"C16", "C13"}, "rejected for no reason: "+valStr(err))
		}
		// a document that does not conform is rejected with what was wrong
		if what == "url" && c.validate {
			mt := in.tm("meta", url)
			if c.tru(x, in.tm("V", mt, c.M)) == triF {
				if t, ok := err.(*Term); ok && t.Op == "err" && t.Lit == "new" && !mentionsTok(t) {
					soft([]string{"C16"}, "the rejection does not carry the validation errors: "+t.String())
				}
				// and is not registered
				if strings.HasPrefix(c.entry, "AddSchema") && c.entry != "AddSchemas (two)" && c.poolChanged(x) {
					c.viol([]string{"C16"}, "a schema that does not conform is registered all the same", x)
				}
			}
		}
		return
	}
	// registration
	if c.entry == "AddSchema" && !c.poolChanged(x) {
		soft([]string{"C15"}, "AddSchema registers nothing")
	}
	if c.entry == "Compile" {
		c.checkDraft(x, sch, soft)
	}
}

func mentionsTok(t *Term) bool {
	if t.Op == "tokattr" || t.Op == "bag" || t.Op == "tok" {
		return true
	}
	for _, a := range t.Args {
		if mentionsTok(a) {
			return true
		}
	}
	return false
}

// poolChanged: the document pool has other contents than before the call.
func (c *Cfg) poolChanged(x *State) bool {
	tl, tp := c.P.namedType("SchemaLoader"), c.P.namedType("schemaPool")
	pp, ok := c.field(x, c.loader, tl, "pool").(VPtr)
	if !ok {
		return false
	}
	m, ok := c.field(x, pp, tp, "schemaPoolDocuments").(VPtr)
	if !ok {
		return false
	}
	return x.heap[m.O] != c.before.heap[m.O]
}

// checkDraft: the draft the root schema was compiled in.
func (c *Cfg) checkDraft(x *State, sch Val, soft func([]string, string)) {
	p, ok := sch.(VPtr)
	if !ok {
		return
	}
	root, ok := c.field(x, p, c.P.tSchema, "rootSchema").(VPtr)
	if !ok {
		c.r.undec(c.title_+": root schema", valStr(sch))
		return
	}
	d := c.field(x, root, c.P.tSub, "draft")
	if q, ok := d.(VPtr); ok {
		d = c.in.load(x, q, nil)
	}
	got, ok := constInt(d)
	if !ok {
		c.r.undec(c.title_+": draft of the root schema", valStr(d))
		return
	}
	want := c.wantDraft(x)
	c.r.oblig(1)
	if want == "?" {
		soft([]string{"C14"}, "the draft was chosen without consulting $schema")
		return
	}
	if got != c.P.draftConst(want) {
		soft([]string{"C14"}, fmt.Sprintf("compiled in draft %d where %s applies", got, want))
	}
}

var dollars = []string{"absent", "any",
	"http://json-schema.org/draft-04/schema", "http://json-schema.org/draft-04/schema#",
	"http://json-schema.org/draft-06/schema", "http://json-schema.org/draft-06/schema#",
	"http://json-schema.org/draft-07/schema", "http://json-schema.org/draft-07/schema#",
	"http://json-schema.org/schema#", "http://example.com/my-schema"}

func configJobs(only string) []Job {
	var js []Job
	for _, e := range []string{"Compile", "AddSchema", "AddSchemas", "AddSchemas (two)"} {
		for _, d := range allDrafts {
			for _, dl := range dollars {
				for _, auto := range []bool{true, false} {
					for _, val := range []bool{true, false} {
						e, d, dl, auto, val := e, d, dl, auto, val
						if only == "C14" && e != "Compile" {
							continue
						}
						name := fmt.Sprintf("%s %s %s auto=%v validate=%v", e, d, dl, auto, val)
						js = append(js, Job{name, []string{"C16", "C14"}, func(P *Program, r *Report) {
							c := newCfg(P, r, e, d, dl, auto, val)
							c.in.panicProps = []string{"C16"}
							c.run()
							r.absorbIn(c.in, c.title_)
						}})
					}
				}
			}
		}
	}
	return js
}
