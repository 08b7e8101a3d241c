package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Viol: one reported violation.
type Viol struct {
	Props []string
	Scen  string
	What  string
	Facts string
	Key   string // identity of a possible known finding
}

// Report collects what an analysis covered and found.
type Report struct {
	mu     sync.Mutex
	Viols  []Viol
	seen   map[string]bool
	Scens  int
	Exits  int
	States int
	Steps  int
	Oblig  int
	Undec  map[string]string
	Fns    map[string]bool
	Ext    map[string]int
	Covers map[string]int
	Notes  []string

	id       string // property decided; "" for none
	known_   map[string]string
	deadline time.Time
	first    bool // stop at the first violation of any property
	hit      bool
	Skipped  []string
}

// done: nothing more needs to be analysed, because a violation was found or the time is used up.
func (r *Report) done() bool {
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		return true
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.hit
}

func (r *Report) skipped(n string) {
	r.mu.Lock()
	r.Skipped = append(r.Skipped, n)
	r.mu.Unlock()
}

func newReport() *Report {
	return &Report{seen: map[string]bool{}, Undec: map[string]string{}, Fns: map[string]bool{}, Ext: map[string]int{}, Covers: map[string]int{}}
}

func (r *Report) viol(props []string, scen, what, facts string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if i := strings.Index(facts, "imprecise:"); i >= 0 {
		w := facts[i:]
		if j := strings.IndexByte(w, ';'); j >= 0 {
			w = w[:j]
		}
		if _, ok := r.Undec[w]; !ok {
			r.Undec[w] = scen + ": " + what
		}
		return
	}
	k := strings.Join(props, ",") + "|" + what
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	v := Viol{Props: props, Scen: scen, What: what, Facts: facts}
	r.Viols = append(r.Viols, v)
	if r.first || r.id != "" && v.has(r.id) {
		r.hit = true
	}
}

func (r *Report) known(key, scen, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen["known "+key] {
		return
	}
	r.seen["known "+key] = true
	r.Viols = append(r.Viols, Viol{Props: []string{"C06"}, Scen: scen, What: what, Key: key})
}

func (r *Report) undec(what, where string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.Undec[what]; !ok {
		r.Undec[what] = where
	}
}

func (r *Report) cover(k string) {
	r.mu.Lock()
	r.Covers[k]++
	r.mu.Unlock()
}

func (r *Report) oblig(n int) {
	r.mu.Lock()
	r.Oblig += n
	r.mu.Unlock()
}

func (r *Report) absorb(s *Scen) { r.absorbIn(s.in, s.title()) }

func (s *Scen) title() string {
	var ks []string
	for _, k := range s.keys {
		x := k
		if s.opt[k] != "" && s.opt[k] != "any" {
			x += "/" + s.opt[k]
		}
		ks = append(ks, x)
	}
	t := s.Draft + " {" + strings.Join(ks, ", ") + "}"
	if s.Name != "" {
		t = s.Name + " " + t
	}
	return t + s.order
}

// buildScen sets up a scenario for keywords with the given variants.
func buildScen(P *Program, draft string, keys []string, opts map[string]string) *Scen {
	s := newScen(P, "", draft, keys...)
	for _, k := range keys {
		o := opts[k]
		if o == "" {
			o = kws[k].order[0]
		}
		s.opt[k] = o
		kws[k].vars[o](s)
	}
	s.commonDefs()
	return s
}

// commonDefs: other elements and members are well formed; numbers of length kind behave as such.
func (s *Scen) commonDefs() {
	s.def(func(a *Term) (uint32, bool) {
		switch a.Op {
		case "PS", "rxok":
			if isOther(a.Args[0]) {
				return bT, true
			}
		case "type":
			// patterns and names of other members
			if isOther(a.Args[0]) && a.Args[0].Op == "elem" && s.subNode(a.Args[0]) {
				return kObject | kBool, true
			}
		case "cmp":
			// the number of elements or characters is an integer of moderate size
		}
		return 0, false
	})
	if !s.canonSet {
		s.canonDefault(func(v *Term) bool { return !isOther(v) })
	}
}

// subNode: an element that stands for a schema.
func (s *Scen) subNode(t *Term) bool {
	l := t.Args[0]
	for _, k := range []string{"anyOf", "oneOf", "allOf"} {
		if s.has[k] && l == s.list(k) {
			return true
		}
	}
	for _, k := range []string{"properties", "patternProperties"} {
		if s.has[k] && l == s.asMap(s.kw(k)) {
			return true
		}
	}
	return false
}

func (s *Scen) props(k string, extra ...string) []string {
	return append([]string{kws[k].prop}, extra...)
}

// runScen analyses one scenario completely.
func runScen(P *Program, r *Report, mk func() *Scen) {
	n := mk().layouts()
	for i := 0; i < n; i++ {
		s := mk()
		s.layout(i)
		s.check(r)
		r.absorb(s)
	}
}

func isErrVal(v Val) bool { return !isNilVal(v) }

func (s *Scen) check(r *Report) {
	ex := s.compile()
	for _, st := range ex {
		t, ok := st.ret.(VTuple)
		if !ok || len(t.F) != 2 {
			s.in.Undec["Compile result"] = fmt.Sprintf("%T", st.ret)
			continue
		}
		s.checkCompile(r, st, t.F[1])
		if isErrVal(t.F[1]) {
			continue
		}
		for _, vs := range s.validateFrom(st) {
			s.checkValidate(r, vs)
		}
	}
}

func (s *Scen) wfAll(st *State) (tri, []string) {
	w := triT
	var bad []string
	for _, k := range s.keys {
		kw := kws[k]
		if !kw.active(s) {
			continue
		}
		x := kw.wf(s, st)
		if x != triT {
			bad = append(bad, k)
		}
		w = triAnd(w, x)
	}
	return w, bad
}

func (s *Scen) keyProps(ks []string) []string {
	m := map[string]bool{"C13": true}
	for _, k := range ks {
		m[kws[k].prop] = true
		if len(kws[k].drafts) > 0 || strings.HasPrefix(k, "exclusive") {
			m["C14"] = true
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *Scen) checkCompile(r *Report, st *State, err Val) {
	r.oblig(1)
	w, bad := s.wfAll(st)
	failed := isErrVal(err)
	ks := bad
	if len(ks) == 0 {
		ks = s.keys
	}
	switch {
	case w == triU && s.unknown(r, st):
	case !failed && w != triT:
		r.viol(s.keyProps(ks), s.title(), fmt.Sprintf("schema compiles although the value of %s is not established to be well formed (%s)", strings.Join(bad, ", "), w), s.in.describe(st))
	case failed && w != triF:
		r.viol(s.keyProps(ks), s.title(), fmt.Sprintf("compilation fails with %s although the schema is well formed (%s)", valStr(err), w), s.in.describe(st))
	case failed:
		// the error names the keyword
		if t, ok := err.(*Term); ok && !s.namesKW(t, bad) {
			r.viol([]string{"C13"}, s.title(), fmt.Sprintf("the compile error does not name %s: %s", strings.Join(bad, " or "), t), s.in.describe(st))
		}
	}
	if failed {
		r.cover("rejected by Compile")
	} else {
		r.cover("compiled")
	}
}

func (s *Scen) namesKW(t *Term, bad []string) bool {
	if t.Op == "err" && t.Lit != "new" {
		return true // the error of a nested schema or of a library function
	}
	if t.Op == "errtext" {
		return true
	}
	if t.Op == "const" {
		for _, b := range bad {
			for _, n := range kws[b].names {
				if strings.Contains(t.Lit, n) {
					return true
				}
			}
			if (b == "patternProperties" && strings.Contains(t.Lit, "pattern")) || strings.Contains(t.Lit, "schema") {
				return true
			}
		}
		return false
	}
	for _, a := range t.Args {
		if s.namesKW(a, bad) {
			return true
		}
	}
	return false
}

func (s *Scen) expectations(st *State) []Expect {
	var r []Expect
	gate := triT
	if s.has["type"] && s.opt["type"] != "ij" {
		for _, e := range kws["type"].exp(s, st) {
			gate = triAnd(gate, e.when.not())
		}
	}
	for _, k := range s.keys {
		if !kws[k].active(s) {
			continue
		}
		for _, e := range kws[k].exp(s, st) {
			if e.prop == "" {
				e.prop = kws[k].prop
			}
			if k != "type" {
				e.when = triAnd(gate, e.when)
			}
			r = append(r, e)
		}
	}
	for _, e := range s.tooBig(st) {
		e.prop = "C01"
		e.when = triAnd(gate, e.when)
		r = append(r, e)
	}
	return r
}

var genericCodes = map[string]string{
	"required": "C03", "missing_dependency": "C03", "invalid_property_name": "C03", "additional_property_not_allowed": "C04", "unique": "C06", "internal": "C06", "sub": "",
}

func codeProps(code string) []string {
	m := map[string]string{"number_gte": "C01", "number_gt": "C01", "number_lte": "C01", "number_lt": "C01", "multiple_of": "C01",
		"string_gte": "C02", "string_lte": "C02", "pattern": "C02", "required": "C03", "missing_dependency": "C03", "invalid_property_name": "C03",
		"array_min_properties": "C03", "array_max_properties": "C03", "additional_property_not_allowed": "C04", "array_min_items": "C05", "array_max_items": "C05",
		"array_no_additional_items": "C05", "contains": "C05", "const": "C06", "enum": "C06", "unique": "C06", "invalid_type": "C07",
		"number_any_of": "C08", "number_one_of": "C08", "number_all_of": "C08", "number_not": "C08", "condition_then": "C08", "condition_else": "C08", "false": "C08", "format": "C18"}
	if p, ok := m[code]; ok {
		return []string{p}
	}
	return nil
}

func (s *Scen) checkValidate(r *Report, st *State) {
	r.mu.Lock()
	r.Exits++
	r.mu.Unlock()
	t, ok := st.ret.(VTuple)
	if !ok || len(t.F) != 2 || !isNilVal(t.F[1]) {
		r.viol([]string{"C12"}, s.title(), "Validate returns an error although the document loaded", s.in.describe(st))
		return
	}
	errs, ok := s.errors(st, t.F[0])
	if !ok {
		s.in.Undec["errors of the result"] = fmt.Sprintf("%T", t.F[0])
		return
	}
	exps := s.expectations(st)
	r.oblig(len(exps) + len(errs))
	used := make([]bool, len(errs))
	facts := func() string { return s.in.describe(st) + " => " + errStrs(errs) }
	for _, e := range exps {
		if e.when == triF {
			continue
		}
		if e.when == triU {
			for i := range errs {
				if s.matches(st, &e, &errs[i]) {
					used[i] = true
				}
			}
			if e.may || s.unknown(r, st) {
				continue
			}
			r.viol(s.expProps(e), s.title(), fmt.Sprintf("the verdict on %s is reached without establishing whether it applies", e.String()), facts())
			continue
		}
		hit := false
		for i := range errs {
			if s.matches(st, &e, &errs[i]) {
				hit = true
				used[i] = true
				s.compareErr(r, st, &e, &errs[i])
			}
		}
		if !hit && !e.may {
			r.viol(append(s.expProps(e), "C24"), s.title(), fmt.Sprintf("missing error: %s", e.String()), facts())
		}
	}
	for i := range errs {
		if used[i] {
			continue
		}
		e := &errs[i]
		if s.generic(st, e) {
			continue
		}
		ps := codeProps(e.code)
		if ps == nil {
			m := map[string]bool{}
			for _, k := range s.keys {
				m[kws[k].prop] = true
			}
			for p := range m {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			if e.code == "?" {
				ps = append(ps, "C09")
			}
		} else {
			ps = append(ps, s.keyPropsOf()...)
		}
		if s.has["type"] {
			ps = append(ps, "C24")
		}
		r.viol(uniq(append(ps, "C13")), s.title(), "unexpected error: "+e.String(), facts())
	}
	// every error is complete
	for i := range errs {
		s.complete(r, st, &errs[i])
	}
	if len(errs) == 0 {
		r.cover("valid")
	} else {
		r.cover("invalid")
	}
	s.checkValid(r, st, t.F[0], errs)
	s.checkOnce(r, st, exps, errs, facts)
}

// checkOnce: every violation is reported once, and of alternatives that all failed exactly one is quoted, one
// with the highest score.
func (s *Scen) checkOnce(r *Report, st *State, exps []Expect, errs []errRec, facts func() string) {
	for _, e := range exps {
		if e.when != triT || e.loose || e.code == "internal" {
			continue // several keywords may be unable to evaluate the value
		}
		n := 0
		for i := range errs {
			if s.matches(st, &e, &errs[i]) && !s.in.valOld(errs[i].raw) {
				n++
			}
		}
		r.oblig(1)
		if n > 1 {
			r.viol([]string{"C24"}, s.title(), fmt.Sprintf("reported %d times: %s", n, e.String()), facts())
		}
	}
	for _, k := range s.keys {
		if !kws[k].active(s) || s.opt[k] != "three" {
			continue
		}
		var alt []Expect
		var code string
		switch k {
		case "anyOf", "oneOf", "contains":
			for _, e := range kws[k].exp(s, st) {
				if e.code == "sub" {
					alt = append(alt, e)
				} else {
					code = e.code
				}
			}
		default:
			continue
		}
		failed := false
		for i := range errs {
			failed = failed || errs[i].code == code
		}
		if !failed {
			continue
		}
		none, some := triT, triF
		for _, e := range alt {
			v := s.tru(st, s.V(e.subS.Args[0], e.subN))
			none = triAnd(none, v.not())
			some = triOr(some, v)
		}
		var quoted []int
		for j, e := range alt {
			for i := range errs {
				if s.matches(st, &e, &errs[i]) {
					quoted = append(quoted, j)
					break
				}
			}
		}
		r.oblig(1)
		switch {
		case none == triT && len(quoted) != 1:
			r.viol([]string{"C24"}, s.title(), fmt.Sprintf("%s: the errors of %d failing alternatives are reported", k, len(quoted)), facts())
		case some == triT && len(quoted) > 0:
			r.viol([]string{"C24"}, s.title(), k+": errors of an alternative are reported although another one matches", facts())
		case none == triT && s.in.trackScore && st.facts[s.in.tm("untracked")] == 0:
			if j := s.beaten(st, alt, quoted[0]); j >= 0 {
				r.viol([]string{"C24"}, s.title(), fmt.Sprintf("%s: the errors of alternative %d are reported, those of alternative %d may have a higher score", k, quoted[0], j), facts())
			}
		}
	}
}

func (s *Scen) score(e Expect) *Term { return s.in.tm("score", e.subS, e.subN) }

// beaten: an alternative that is not established to have at most the score of the quoted one.
func (s *Scen) beaten(st *State, alt []Expect, q int) int {
	n := len(alt)
	le := make([][]bool, n)
	for i := range le {
		le[i] = make([]bool, n)
		for j := range le[i] {
			le[i][j] = i == j || s.cmp(st, s.score(alt[i]), s.score(alt[j]), cLT|cEQ) == triT
		}
	}
	for k := range le {
		for i := range le {
			for j := range le {
				le[i][j] = le[i][j] || le[i][k] && le[k][j]
			}
		}
	}
	for i := range le {
		if !le[i][q] {
			return i
		}
	}
	return -1
}

// oneSided: the encoding of a value is compared with a rewritten encoding.
func oneSided(a, b *Term) bool {
	enc := func(t *Term) bool { return t.Op == "strof" && len(t.Args) == 1 && t.Args[0].Op == "enc" }
	rew := func(t *Term) bool {
		return t.Op == "ret" && len(t.Args) > 0 && enc(t.Args[0]) && (strings.HasPrefix(t.Lit, "strings.Replace") || strings.HasPrefix(t.Lit, "strings.To"))
	}
	return enc(a) && rew(b) || enc(b) && rew(a)
}

// unknown: the path depends on operations the analysis has no model of, so an open question is not a finding.
func (s *Scen) unknown(r *Report, st *State) bool {
	for a := range st.facts {
		if a.Op == "eq" && oneSided(a.Args[0], a.Args[1]) {
			r.viol([]string{"C06"}, s.title(), "the two sides of a comparison are not normalised in the same way: "+a.String(), s.in.describe(st))
			return true
		}
		if op := opaqueOp(a); op != "" {
			r.undec("verdict depends on "+op, s.title()+": "+s.in.describe(st))
			return true
		}
	}
	return false
}

func opaqueOp(t *Term) string {
	switch t.Op {
	case "imprecise":
		return "imprecise: " + t.Lit
	case "ret", "fails", "dyn":
		if !plainFn(t.Lit) {
			return t.Op + " " + t.Lit
		}
	}
	for _, a := range t.Args {
		if x := opaqueOp(a); x != "" {
			return x
		}
	}
	return ""
}

// plainFn: library functions whose meaning is known to have nothing to do with the verdict (equality and the
// like are modelled, so that what remains is a condition the specification does not have).
func plainFn(n string) bool {
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	if strings.HasPrefix(n, "unicode.") || strings.HasPrefix(n, "math.") {
		return true
	}
	switch n {
	case "strings.EqualFold", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.ContainsAny", "strings.IndexAny",
		"strings.Count", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix",
		"strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseBool", "strings.Title", "strings.LastIndex", "strings.Fields":
		return true
	}
	return false
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range xs {
		if x != "" && !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func (s *Scen) keyPropsOf() []string {
	var r []string
	for _, k := range s.keys {
		if !kws[k].active(s) {
			r = append(r, "C14")
		}
		r = append(r, kws[k].prop)
	}
	return r
}

func (s *Scen) expProps(e Expect) []string {
	ps := []string{e.prop, "C13"}
	for _, k := range s.keys {
		if len(kws[k].drafts) > 0 && kws[k].prop == e.prop || strings.HasPrefix(k, "exclusive") {
			ps = append(ps, "C14")
		}
	}
	return uniq(ps)
}

func (e Expect) String() string {
	if e.code == "sub" {
		return fmt.Sprintf("errors of %s on %s", e.subS, e.subN)
	}
	var d []string
	for k, v := range e.det {
		d = append(d, k+"="+v.String())
	}
	sort.Strings(d)
	return e.code + "{" + strings.Join(d, ",") + "} on " + e.val.String()
}

func errStrs(es []errRec) string {
	var r []string
	for i := range es {
		r = append(r, es[i].String())
	}
	if len(r) == 0 {
		return "valid"
	}
	return strings.Join(r, " + ")
}

// identity of an error among several of the same code.
var idDetail = map[string]string{"required": "property", "missing_dependency": "dependency", "invalid_property_name": "property", "additional_property_not_allowed": "property"}

func (s *Scen) matches(st *State, e *Expect, r *errRec) bool {
	if e.code == "sub" {
		return r.tok != nil && r.tok.S == e.subS && r.tok.N == e.subN
	}
	if r.code != e.code {
		return false
	}
	if d, ok := idDetail[e.code]; ok {
		v := s.detTerm(st, r.details[d])
		if s.otherTerm(v) {
			return false
		}
		if want := e.det[d]; want != nil && v != nil && strip(v) != strip(want) && s.designated(v) {
			return false
		}
	}
	if e.code == "number_gt" || e.code == "number_lt" {
		// two limits of the same kind may both be violated
		for k, want := range e.det {
			v := s.detTerm(st, r.details[k])
			if v != nil && !detMatch(v, want) && s.otherLimit(v, want) {
				return false
			}
		}
	}
	return true
}

func (s *Scen) otherLimit(v, want *Term) bool {
	for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
		if s.has[k] {
			t := s.rat(s.kw(k))
			if t != want && mentions(v, t) {
				return true
			}
		}
	}
	return false
}

// designated: another of the designated names.
func (s *Scen) designated(v *Term) bool {
	v = strip(v)
	return v.Op == "sk" || v.Op == "elem"
}

func (s *Scen) otherTerm(t *Term) bool { return t != nil && isOther(t) }

func (s *Scen) detTerm(st *State, v Val) *Term {
	if v == nil {
		return nil
	}
	if i, ok := v.(VIface); ok {
		return s.in.toTerm(st, i.V)
	}
	return s.in.toTerm(st, v)
}

// strip: a value boxed in or taken out of an interface is the same value.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "as" || t.Op == "mk") {
		t = t.Args[0]
	}
	return t
}

func detMatch(v, want *Term) bool {
	if want == nil {
		return true
	}
	v, want = strip(v), strip(want)
	if v == want {
		return true
	}
	if want.Op == "const" {
		return false
	}
	return mentions(v, want)
}

// compareErr: value, context and details of a matched error.
func (s *Scen) compareErr(r *Report, st *State, e *Expect, g *errRec) {
	if e.ctx != nil {
		if !g.ctxOK || !samePath(g.ctx, e.ctx) {
			r.viol([]string{"C10"}, s.title(), fmt.Sprintf("%s: context is %s, expected %s", e.String(), pathStr(g.ctx), pathStr(e.ctx)), s.in.describe(st))
		}
	}
	if g.tok != nil {
		return
	}
	if e.val != nil {
		v := s.detTerm2(st, g.value)
		if v != e.val {
			r.viol([]string{"C09"}, s.title(), fmt.Sprintf("%s: value is %s, expected %s", e.code, v, e.val), s.in.describe(st))
		}
	}
	if e.loose {
		return
	}
	for k, want := range e.det {
		v, ok := g.details[k]
		if !ok {
			r.viol([]string{"C09"}, s.title(), fmt.Sprintf("%s: detail %q is missing", e.code, k), s.in.describe(st))
			continue
		}
		t := s.detTerm(st, v)
		if !detMatch(t, want) {
			ps := []string{"C09"}
			if e.code == "invalid_type" {
				ps = append(ps, "C07")
			}
			r.viol(ps, s.title(), fmt.Sprintf("%s: detail %q is %s, expected %s", e.code, k, t, want), s.in.describe(st))
		}
	}
}

func (s *Scen) detTerm2(st *State, v Val) *Term {
	switch x := v.(type) {
	case nil:
		return nil
	case VIface:
		t := s.in.toTerm(st, x)
		return t
	}
	return s.in.toTerm(st, v)
}

func samePath(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// generic: an error about elements other than the designated ones.
func (s *Scen) generic(st *State, e *errRec) bool {
	p, ok := genericCodes[e.code]
	if !ok {
		return false
	}
	if e.code == "sub" {
		// the schema of another position or name
		if oS, oN := isOther(e.tok.S), isOther(e.tok.N); oS != oN && e.tok.S.Op == "compiled" {
			S := e.tok.S.Args[0]
			if s.has["items"] && isElem(S, s.asArr(s.kw("items"))) && isElem(e.tok.N, s.Na) {
				return false
			}
			if s.has["properties"] && isElem(S, s.asMap(s.kw("properties"))) && isElem(e.tok.N, s.Nm) {
				return false
			}
		}
		return isOther(e.tok.S) || isOther(e.tok.N)
	}
	fam := false
	for _, k := range s.keys {
		if kws[k].prop == p || (p == "C06" && k == "uniqueItems") {
			fam = true
		}
	}
	if !fam {
		return false
	}
	if e.code == "unique" {
		return s.otherTerm(s.detTerm(st, e.details["i"])) || s.otherTerm(s.detTerm(st, e.details["j"]))
	}
	if e.code == "internal" {
		return s.otherTerm(s.detTerm(st, e.details["error"]))
	}
	return s.otherTerm(s.detTerm(st, e.details[idDetail[e.code]]))
}

func isElem(t, l *Term) bool { return t.Op == "elem" && t.Args[0] == l }

var rxHole = regexp.MustCompile(`\{\{\s*\.([A-Za-z_][A-Za-z0-9_]*)`)

// complete: type code, template, details and description belong together.
func (s *Scen) complete(r *Report, st *State, e *errRec) {
	if e.tok != nil {
		if !e.ctxOK {
			r.viol([]string{"C10"}, s.title(), "sub-validation without a context: "+e.String(), "")
		}
		return
	}
	bad := func(f string, a ...interface{}) {
		r.viol([]string{"C09"}, s.title(), fmt.Sprintf("%s (%s): ", e.code, e.typ)+fmt.Sprintf(f, a...), s.in.describe(st))
	}
	if e.code == "?" || e.code == "" {
		bad("no type code")
	}
	if want, ok := codeOfType[strings.TrimPrefix(e.typ, "*")]; ok && want != e.code {
		bad("type code should be %q", want)
	}
	if !e.detOK {
		bad("details are not a complete map")
		return
	}
	tpl, ok := constStr(e.fmtT)
	ft := s.in.str(tpl)
	if s.symLoc {
		t, isT := e.fmtT.(*Term)
		if !isT || t.Op != "localetext" {
			bad("the message template %s does not come from the locale in force", valStr(e.fmtT))
			return
		}
		ft = t
		if want := localeOf(strings.TrimPrefix(e.typ, "*")); want != t.Lit {
			bad("the message template is the locale's %s, expected %s", t.Lit, want)
		}
		if m := s.P.method("DefaultLocale", t.Lit); m != nil {
			if v, k := s.pure(st, m, s.in.zero(s.P.namedType("DefaultLocale"))); k {
				tpl, ok = constStr(v)
			}
		}
	}
	if !ok || tpl == "" {
		bad("no message template")
		return
	}
	for _, m := range rxHole.FindAllStringSubmatch(tpl, -1) {
		if _, ok := e.details[m[1]]; !ok {
			bad("the message template uses {{.%s}}, which is not among the details", m[1])
		}
	}
	f, ok := e.details["field"]
	if !ok {
		bad("detail \"field\" is missing")
	} else {
		_ = f
	}
	d, ok := e.desc.(*Term)
	if !ok || d.Op != "text" || d.Args[0] != ft {
		bad("the description is not its template rendered with its details: %s", valStr(e.desc))
	} else if at, ok := detailsOf(d.Args[1]); ok {
		for _, m := range rxHole.FindAllStringSubmatch(tpl, -1) {
			if v, ok := e.details[m[1]]; ok && at[m[1]] != strip(s.in.toTerm(st, v)) {
				x := "missing"
				if at[m[1]] != nil {
					x = at[m[1]].String()
				}
				bad("the description is rendered with %s %s, but the detail is %s", m[1], x, valStr(v))
			}
		}
	}
	if !e.ctxOK || len(e.ctx) == 0 {
		bad("no context")
	}
}

// localeOf: the message of the locale for a kind of error.
func localeOf(typ string) string {
	switch typ {
	case "ItemsMustBeUniqueError":
		return "Unique"
	case "StringLengthGTEError":
		return "StringGTE"
	case "StringLengthLTEError":
		return "StringLTE"
	}
	return strings.TrimSuffix(typ, "Error")
}

func (s *Scen) checkValid(r *Report, st *State, res Val, errs []errRec) {
	f := s.P.method("Result", "Valid")
	if f == nil {
		return
	}
	// only the definite cases
	v, ok := s.pure(st, f, res)
	if !ok {
		return
	}
	b, ok := constBool(v)
	if ok && b != (len(errs) == 0) {
		r.viol([]string{"C09", "C08"}, s.title(), fmt.Sprintf("Valid() is %v with errors %s", b, errStrs(errs)), s.in.describe(st))
	}
}

var codeOfType = map[string]string{
	"FalseError": "false", "RequiredError": "required", "InvalidTypeError": "invalid_type", "NumberAnyOfError": "number_any_of", "NumberOneOfError": "number_one_of",
	"NumberAllOfError": "number_all_of", "NumberNotError": "number_not", "MissingDependencyError": "missing_dependency", "InternalError": "internal", "ConstError": "const",
	"EnumError": "enum", "ArrayNoAdditionalItemsError": "array_no_additional_items", "ArrayMinItemsError": "array_min_items", "ArrayMaxItemsError": "array_max_items",
	"ItemsMustBeUniqueError": "unique", "ArrayContainsError": "contains", "ArrayMinPropertiesError": "array_min_properties", "ArrayMaxPropertiesError": "array_max_properties",
	"AdditionalPropertyNotAllowedError": "additional_property_not_allowed", "InvalidPropertyPatternError": "invalid_property_pattern", "InvalidPropertyNameError": "invalid_property_name",
	"StringLengthGTEError": "string_gte", "StringLengthLTEError": "string_lte", "DoesNotMatchPatternError": "pattern", "DoesNotMatchFormatError": "format",
	"MultipleOfError": "multiple_of", "NumberGTEError": "number_gte", "NumberGTError": "number_gt", "NumberLTEError": "number_lte", "NumberLTError": "number_lt",
	"ConditionThenError": "condition_then", "ConditionElseError": "condition_else",
}

func (r *Report) print() {
	fmt.Printf("scenarios %d exits %d states %d steps %d obligations %d covers %v\n", r.Scens, r.Exits, r.States, r.Steps, r.Oblig, r.Covers)
	for k, v := range r.Undec {
		fmt.Println("UNDECIDED", k, "::", v)
	}
	for _, v := range r.Viols {
		fmt.Println("VIOL", v.Props, v.Scen, v.What, "\n      ", v.Facts)
	}
}
