package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// The specification of every keyword: when a value of it is well formed, and which errors a document must get.

type Expect struct {
	code string
	when tri
	may  bool // allowed but not required
	val  *Term
	ctx  []*Term
	det  map[string]*Term
	// errors of a sub-validation
	subS, subN *Term
	loose      bool // details are not determined (other elements are involved)
	prop       string
}

type KW struct {
	name   string
	prop   string // property its verdicts belong to
	names  []string
	drafts []string // empty: all
	wf     func(s *Scen, st *State) tri
	exp    func(s *Scen, st *State) []Expect
	// ways the keyword's value is set up
	vars  map[string]func(s *Scen)
	order []string
	lists []string
}

// rootKW stands for the schema as a whole.
const rootKW = "(schema)"

var kws = map[string]*KW{}
var kwOrder []string

func regKW(k *KW) {
	if len(k.vars) == 0 {
		k.vars = map[string]func(s *Scen){"any": func(s *Scen) {}}
		k.order = []string{"any"}
	}
	if k.names == nil {
		k.names = []string{k.name}
	}
	kws[k.name] = k
	kwOrder = append(kwOrder, k.name)
}

func (k *KW) active(s *Scen) bool { return len(k.drafts) == 0 || s.draftIn(k.drafts...) }

var d6up = []string{"Draft6", "Draft7", "Hybrid"}
var d7up = []string{"Draft7", "Hybrid"}
var allDrafts = []string{"Draft4", "Draft6", "Draft7", "Hybrid"}

// ---- helpers ----

func (s *Scen) root() []*Term { return []*Term{s.in.str("(root)")} }
func (s *Scen) at(cs ...*Term) []*Term {
	return append(s.root(), cs...)
}
func (s *Scen) numWF(st *State, v *Term) tri {
	return triAnd(s.kind(st, v, kNumber), s.tru(st, s.ratok(v)))
}
func (s *Scen) cntWF(st *State, v *Term) tri {
	r := s.rat(v)
	return triAnd(s.kind(st, v, kNumber), s.tru(st, s.ratok(v)), s.tru(st, s.in.tm("isint", r)), s.tru(st, s.in.tm("isint64", r)), s.cmp(st, r, s.in.num(0), cEQ|cGT))
}
func (s *Scen) canon(v *Term) *Term {
	return s.in.tm("enc", s.in.tm("dec64", s.in.tm("enc", v)))
}
func (s *Scen) canonOK(st *State, v *Term) tri {
	in := s.in
	e := in.tm("enc", v)
	return triAnd(s.tru(st, in.tm("encfails", v)).not(), s.tru(st, in.tm("decfails", e)).not(), s.tru(st, in.tm("encfails", in.tm("dec64", e))).not())
}
func (s *Scen) canonEq(a, b *Term) *Term {
	return s.in.eqAtom(s.in.tm("strof", s.canon(a)), s.in.tm("strof", s.canon(b)))
}

// nodeWF: x compiles as a schema.
func (s *Scen) nodeWF(st *State, x *Term) tri {
	if s.kind(st, x, kObject|kBool) == triF {
		return triF
	}
	return s.tru(st, s.PS(x))
}

// isOther: t involves an element other than the designated ones.
func isOther(t *Term) bool {
	if t.old || len(t.curs) > 0 {
		return true
	}
	if t.Op == "elem" && (t.Args[1].Op == "len" || t.Args[1].Op == "const" && t.Args[1].cv != nil && t.Args[1].cv.Kind() == constant.Int) {
		return true
	}
	for _, a := range t.Args {
		if isOther(a) {
			return true
		}
	}
	return false
}

func anyOther(t *Term) bool {
	if isOther(t) {
		return true
	}
	return false
}

func (s *Scen) boolKW(st *State, v *Term) tri { return s.tru(st, s.asBool(v)) }

func (s *Scen) list(key string) *Term { return s.asArr(s.kw(key)) }
func (s *Scen) ln(l *Term) *Term      { return s.in.tm("len", l) }

func (s *Scen) mark(line string, t *Term, below ...*Term) {
	s.marks = append(s.marks, mark{t: t, below: below, line: line})
}

// listWith: the keyword's list has a designated element; returns its index.
func (s *Scen) listWith(key, name string) *Term {
	l := s.list(key)
	k := s.in.sk(name)
	s.mark(key, s.ln(l))
	s.mark(key, k, s.ln(l))
	s.sks[key] = append(s.sks[key], k)
	return k
}
func (s *Scen) listTwo(key string) (*Term, *Term) {
	l := s.list(key)
	i, j := s.in.sk(key+".i"), s.in.sk(key+".j")
	s.mark(key, s.ln(l))
	s.mark(key, j, s.ln(l))
	s.mark(key, i, j)
	s.sks[key] = append(s.sks[key], i, j)
	return i, j
}

// fixedArr: the array has exactly n elements.
func (s *Scen) fixedArr(l *Term, name string, n int) []*Term {
	var ks []*Term
	v := &VList{Orig: l}
	for i := 0; i < n; i++ {
		k := s.in.sk(fmt.Sprintf("%s.%d", name, i))
		ks = append(ks, k)
		v.Items = append(v.Items, s.elem(l, k))
	}
	if s.in.fixed == nil {
		s.in.fixed = map[*Term]*VList{}
	}
	s.in.fixed[l] = v
	return ks
}
func (s *Scen) listFixed(key string, n int) { s.sks[key] = s.fixedArr(s.list(key), key, n) }
func (s *Scen) listEmpty(key string) {
	l := s.list(key)
	s.mark(key, s.ln(l))
	s.zeroLen[s.ln(l)] = true
}
func (s *Scen) listNonEmpty(key string) {
	l := s.list(key)
	s.mark(key, s.ln(l))
	s.posLen[s.ln(l)] = true
}

// docList: the document, as an array, has a designated element.
func (s *Scen) docWith() *Term {
	j := s.in.sk("j")
	s.mark("N", s.ln(s.Na))
	s.mark("N", j, s.ln(s.Na))
	s.docPos(j)
	return j
}

// docFixed: as an array, the document has exactly n elements.
func (s *Scen) docFixed(n int) { s.sks["D"] = s.fixedArr(s.Na, "N", n) }

func (s *Scen) docPos(j *Term) {
	for _, x := range s.sks["N"] {
		if x == j {
			return
		}
	}
	s.sks["N"] = append(s.sks["N"], j)
}

// others: sub-validations against elements other than the designated ones of the keyword's list.
func (s *Scen) othersV(key string, m uint32) {
	l := s.list(key)
	s.def(func(a *Term) (uint32, bool) {
		if a.Op == "V" && a.Args[1] == s.N && a.Args[0].Op == "compiled" {
			e := a.Args[0].Args[0]
			if e.Op == "elem" && e.Args[0] == l && isOther(e.Args[1]) {
				return m, true
			}
		}
		return 0, false
	})
}

func (s *Scen) loose(code string, when tri) Expect {
	return Expect{code: code, when: when, loose: true}
}

func (s *Scen) own(code string, when tri, det map[string]*Term) Expect {
	return Expect{code: code, when: when, val: s.N, ctx: s.root(), det: det}
}
func (s *Scen) subErr(node, n *Term, when tri, ctx []*Term, may bool) Expect {
	return Expect{code: "sub", when: when, may: may, ctx: ctx, subS: s.in.tm("compiled", node), subN: n}
}

// docKinds restricts the document's kind.
func (s *Scen) docKinds(m uint32) { s.fact(s.in.typeAtom(s.N), m) }

// ---- numbers ----

func (s *Scen) exclBool(st *State, key string) tri {
	if !s.has[key] {
		return triF
	}
	if s.draftIn("Draft4") {
		return triT
	}
	if s.draftIn("Hybrid") {
		return s.kind(st, s.kw(key), kBool)
	}
	return triF
}

func numKW(base, excl, incl, strict, detail string, bad uint32) {
	regKW(&KW{name: base, prop: "C01",
		wf: func(s *Scen, st *State) tri { return s.numWF(st, s.kw(base)) },
		exp: func(s *Scen, st *State) []Expect {
			lim := s.rat(s.kw(base))
			isB := s.exclBool(st, excl)
			ex := triF
			if s.has[excl] {
				ex = triAnd(isB, s.boolKW(st, s.kw(excl)))
			}
			num := triAnd(s.kind(st, s.N, kNumber), s.tru(st, s.ratok(s.N)))
			d := map[string]*Term{detail: lim}
			return []Expect{
				s.own(incl, triAnd(num, ex.not(), s.cmp(st, s.rat(s.N), lim, bad)), d),
				s.own(strict, triAnd(num, ex, s.cmp(st, s.rat(s.N), lim, bad|cEQ)), d),
			}
		}})
	regKW(&KW{name: excl, prop: "C01",
		wf: func(s *Scen, st *State) tri {
			v := s.kw(excl)
			switch s.Draft {
			case "Draft4":
				return triAnd(s.kind(st, v, kBool), triB(s.has[base]))
			case "Hybrid":
				return triOr(triAnd(s.kind(st, v, kBool), triB(s.has[base])), s.numWF(st, v))
			}
			return s.numWF(st, v)
		},
		exp: func(s *Scen, st *State) []Expect {
			if s.draftIn("Draft4") {
				return nil
			}
			v := s.kw(excl)
			num := triAnd(s.kind(st, s.N, kNumber), s.tru(st, s.ratok(s.N)))
			isNum := triT
			if s.draftIn("Hybrid") {
				isNum = s.kind(st, v, kNumber)
			}
			return []Expect{s.own(strict, triAnd(num, isNum, s.cmp(st, s.rat(s.N), s.rat(v), bad|cEQ)), map[string]*Term{detail: s.rat(v)})}
		}})
}

// tooBig: a number that cannot be evaluated is an error under any numeric keyword.
func (s *Scen) tooBig(st *State) []Expect {
	for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"} {
		if s.has[k] {
			return []Expect{s.own("internal", triAnd(s.kind(st, s.N, kNumber), s.tru(st, s.ratok(s.N)).not()), map[string]*Term{"error": nil})}
		}
	}
	return nil
}

func countKW(name, prop, code, detail string, bad uint32, kind uint32, size func(s *Scen) *Term, pair string, isMin bool) {
	regKW(&KW{name: name, prop: prop,
		wf: func(s *Scen, st *State) tri {
			w := s.cntWF(st, s.kw(name))
			if pair != "" && isMin && s.has[pair] {
				w = triAnd(w, s.cmp(st, s.rat(s.kw(name)), s.rat(s.kw(pair)), cLT|cEQ))
			}
			return w
		},
		exp: func(s *Scen, st *State) []Expect {
			r := s.rat(s.kw(name))
			return []Expect{s.own(code, triAnd(s.kind(st, s.N, kind), s.cmp(st, size(s), r, bad)), map[string]*Term{detail: r})}
		}})
}

func init() {
	numKW("minimum", "exclusiveMinimum", "number_gte", "number_gt", "min", cLT)
	numKW("maximum", "exclusiveMaximum", "number_lte", "number_lt", "max", cGT)
	regKW(&KW{name: "multipleOf", prop: "C01",
		wf: func(s *Scen, st *State) tri {
			return triAnd(s.numWF(st, s.kw("multipleOf")), s.cmp(st, s.rat(s.kw("multipleOf")), s.in.num(0), cGT))
		},
		exp: func(s *Scen, st *State) []Expect {
			r := s.rat(s.kw("multipleOf"))
			num := triAnd(s.kind(st, s.N, kNumber), s.tru(st, s.ratok(s.N)))
			return []Expect{s.own("multiple_of", triAnd(num, s.tru(st, s.in.tm("isint", s.in.tm("quo", s.rat(s.N), r))).not()), map[string]*Term{"multiple": r})}
		}})
	// strings
	runes := func(s *Scen) *Term { return s.in.tm("runes", s.Ns) }
	countKW("minLength", "C02", "string_gte", "min", cLT, kString, runes, "maxLength", true)
	countKW("maxLength", "C02", "string_lte", "max", cGT, kString, runes, "minLength", false)
	regKW(&KW{name: "pattern", prop: "C02",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("pattern")
			return triAnd(s.kind(st, v, kString), s.tru(st, s.in.tm("rxok", s.asStr(v))))
		},
		exp: func(s *Scen, st *State) []Expect {
			p := s.asStr(s.kw("pattern"))
			return []Expect{s.own("pattern", triAnd(s.kind(st, s.N, kString), s.tru(st, s.in.tm("match", p, s.Ns)).not()), map[string]*Term{"pattern": p})}
		}})
	regKW(&KW{name: "format", prop: "C18",
		wf: func(s *Scen, st *State) tri { return s.kind(st, s.kw("format"), kString) },
		exp: func(s *Scen, st *State) []Expect {
			f := s.asStr(s.kw("format"))
			return []Expect{s.own("format", triAnd(s.eq(st, f, s.in.str("")).not(), s.tru(st, s.in.tm("fmtok", f, s.N)).not()), map[string]*Term{"format": f})}
		}})
	// objects
	members := func(s *Scen) *Term { return s.ln(s.Nm) }
	countKW("minProperties", "C03", "array_min_properties", "min", cLT, kObject, members, "maxProperties", true)
	countKW("maxProperties", "C03", "array_max_properties", "max", cGT, kObject, members, "minProperties", false)
	// arrays
	elems := func(s *Scen) *Term {
		if d := s.sks["D"]; d != nil {
			return s.in.num(int64(len(d)))
		}
		return s.ln(s.Na)
	}
	countKW("minItems", "C05", "array_min_items", "min", cLT, kArray, elems, "", true)
	countKW("maxItems", "C05", "array_max_items", "max", cGT, kArray, elems, "", false)
	for _, n := range []string{"minItems", "maxItems"} {
		kws[n].order = append(kws[n].order, "three")
		kws[n].vars["three"] = func(s *Scen) { s.docFixed(3) }
	}

	regKW(&KW{name: "required", prop: "C03",
		wf: func(s *Scen, st *State) tri {
			w := s.kind(st, s.kw("required"), kArray)
			if w == triF {
				return triF
			}
			l := s.list("required")
			var es []*Term
			for _, k := range s.sks["required"] {
				e := s.elem(l, k)
				es = append(es, e)
				w = triAnd(w, s.kind(st, e, kString))
			}
			for i, a := range es {
				for _, b := range es[:i] {
					w = triAnd(w, s.eq(st, s.asStr(b), s.asStr(a)).not())
				}
			}
			return w
		},
		exp: func(s *Scen, st *State) []Expect {
			l := s.list("required")
			var r []Expect
			for _, k := range s.sks["required"] {
				e := s.asStr(s.elem(l, k))
				r = append(r, s.own("required", triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", s.Nm, e)).not()), map[string]*Term{"property": e}))
			}
			return r
		},
		order: []string{"empty", "k", "ij", "three"},
		vars: map[string]func(s *Scen){
			"three": func(s *Scen) { s.listFixed("required", 3) },
			"empty": func(s *Scen) { s.listEmpty("required") },
			"k": func(s *Scen) {
				s.listWith("required", "k")
				s.othersKind("required", kString)
				s.othersEq("required", bF, func(t *Term) *Term { return s.asStr(t) })
			},
			"ij": func(s *Scen) {
				s.listTwo("required")
				s.othersKind("required", kString)
				s.othersEq("required", bF, func(t *Term) *Term { return s.asStr(t) })
			},
		}})
	regKW(&KW{name: "propertyNames", prop: "C03", drafts: d6up,
		wf: func(s *Scen, st *State) tri {
			return triAnd(s.kind(st, s.kw("propertyNames"), kObject|kBool), s.nodeWF(st, s.kw("propertyNames")))
		},
		exp: func(s *Scen, st *State) []Expect {
			var r []Expect
			for _, q := range s.memberKeys() {
				n := s.in.tml("mk", "string", q)
				bad := triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", s.Nm, q)), s.tru(st, s.V(s.kw("propertyNames"), n)).not())
				r = append(r, s.own("invalid_property_name", bad, map[string]*Term{"property": q}), s.subErr(s.kw("propertyNames"), n, bad, s.root(), false))
			}
			return r
		},
		order: []string{"q", "two"},
		vars:  map[string]func(s *Scen){"q": func(s *Scen) { s.memberKey() }, "two": func(s *Scen) { s.docTwo() }}})
	regKW(&KW{name: "properties", prop: "C04",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("properties")
			w := s.kind(st, v, kObject)
			if w == triF {
				return w
			}
			m := s.asMap(v)
			for _, q := range s.memberKeys() {
				h := s.tru(st, s.in.tm("has", m, q))
				w = triAnd(w, triOr(h.not(), s.nodeWF(st, s.elem(m, q))))
			}
			return w
		},
		exp: func(s *Scen, st *State) []Expect {
			m := s.asMap(s.kw("properties"))
			var r []Expect
			for _, q := range s.memberKeys() {
				bad := triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", m, q)), s.tru(st, s.in.tm("has", s.Nm, q)), s.tru(st, s.V(s.elem(m, q), s.elem(s.Nm, q))).not())
				r = append(r, s.subErr(s.elem(m, q), s.elem(s.Nm, q), bad, s.at(q), false))
			}
			return r
		},
		order: []string{"q", "two"},
		vars: map[string]func(s *Scen){"q": func(s *Scen) { s.keyIn(s.asMap(s.kw("properties"))) },
			"two": func(s *Scen) {
				m := s.asMap(s.kw("properties"))
				s.in.mapClose[m] = true
				for _, q := range s.docTwo() {
					s.in.mapKeys[m] = append(s.in.mapKeys[m], q)
					s.in.mapOpt[s.in.tm("has", m, q)] = true
				}
			}}})
	regKW(&KW{name: "patternProperties", prop: "C04",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("patternProperties")
			w := s.kind(st, v, kObject)
			if w == triF {
				return w
			}
			m := s.asMap(v)
			for _, r := range s.in.mapKeys[m] {
				w = triAnd(w, s.tru(st, s.in.tm("rxok", r)), s.nodeWF(st, s.elem(m, r)))
			}
			return w
		},
		exp: func(s *Scen, st *State) []Expect {
			m := s.asMap(s.kw("patternProperties"))
			var es []Expect
			for _, q := range s.memberKeys() {
				for _, r := range s.in.mapKeys[m] {
					bad := triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", s.Nm, q)), s.tru(st, s.in.tm("match", r, q)), s.tru(st, s.V(s.elem(m, r), s.elem(s.Nm, q))).not())
					es = append(es, s.subErr(s.elem(m, r), s.elem(s.Nm, q), bad, s.at(q), false))
				}
			}
			return es
		},
		order: []string{"empty", "r", "rT", "two"},
		vars: map[string]func(s *Scen){
			// two members, two patterns
			"two": func(s *Scen) {
				s.docTwo()
				m := s.asMap(s.kw("patternProperties"))
				s.in.mapClose[m] = true
				s.in.mapKeys[m] = []*Term{s.in.sk("r"), s.in.sk("r2")}
				s.fact(s.in.eqAtom(s.in.sk("r"), s.in.sk("r2")), bF)
			},
			"empty": func(s *Scen) {
				s.memberKey()
				s.in.mapClose[s.asMap(s.kw("patternProperties"))] = true
			},
			// some pattern r, no other pattern matches
			"r": func(s *Scen) {
				q := s.memberKey()
				m := s.asMap(s.kw("patternProperties"))
				s.in.mapKeys[m] = []*Term{s.in.sk("r")}
				s.def(func(a *Term) (uint32, bool) {
					if a.Op == "match" && a.Args[1] == q && isOther(a.Args[0]) {
						return bF, true
					}
					return 0, false
				})
			},
			// pattern r matches, others may
			"rT": func(s *Scen) {
				q := s.memberKey()
				m := s.asMap(s.kw("patternProperties"))
				r := s.in.sk("r")
				s.in.mapKeys[m] = []*Term{r}
				s.fact(s.in.tm("match", r, q), bT)
			},
		}})
	regKW(&KW{name: "additionalProperties", prop: "C04",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("additionalProperties")
			return triOr(s.kind(st, v, kBool), triAnd(s.kind(st, v, kObject), s.nodeWF(st, v)))
		},
		exp: func(s *Scen, st *State) []Expect {
			v := s.kw("additionalProperties")
			var r []Expect
			for _, q := range s.memberKeys() {
				cov := triF
				if s.has["properties"] {
					cov = triOr(cov, s.tru(st, s.in.tm("has", s.asMap(s.kw("properties")), q)))
				}
				if s.has["patternProperties"] {
					for _, r := range s.in.mapKeys[s.asMap(s.kw("patternProperties"))] {
						cov = triOr(cov, s.tru(st, s.in.tm("match", r, q)))
					}
				}
				unc := triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", s.Nm, q)), cov.not())
				e := s.own("additional_property_not_allowed", triAnd(unc, s.kind(st, v, kBool), s.boolKW(st, v).not()), map[string]*Term{"property": q})
				e.val = s.elem(s.Nm, q)
				r = append(r, e, s.subErr(v, s.elem(s.Nm, q), triAnd(unc, s.kind(st, v, kObject), s.tru(st, s.V(v, s.elem(s.Nm, q))).not()), s.at(q), false))
			}
			return r
		},
		order: []string{"q", "two"},
		vars:  map[string]func(s *Scen){"q": func(s *Scen) { s.memberKey() }, "two": func(s *Scen) { s.docTwo() }}})
	regKW(&KW{name: "dependencies", prop: "C03", names: []string{"dependencies", "dependency"},
		wf: func(s *Scen, st *State) tri {
			v := s.kw("dependencies")
			w := s.kind(st, v, kObject)
			if w == triF {
				return w
			}
			m := s.asMap(v)
			q := s.memberKey()
			e := s.elem(m, q)
			h := s.tru(st, s.in.tm("has", m, q))
			ok := triOr(s.kind(st, e, kArray), triAnd(s.kind(st, e, kObject|kBool), s.nodeWF(st, e)))
			for _, i := range s.sks["dep"] {
				ok = triAnd(ok, triOr(s.kind(st, e, kArray).not(), s.kind(st, s.elem(s.asArr(e), i), kString)))
			}
			return triAnd(w, triOr(h.not(), ok))
		},
		exp: func(s *Scen, st *State) []Expect {
			m := s.asMap(s.kw("dependencies"))
			if s.opt["dependencies"] == "two" {
				var r []Expect
				for n, q := range s.in.mapKeys[m] {
					d := s.sks["dep2"][n]
					on := triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", s.Nm, q)))
					r = append(r, s.own("missing_dependency", triAnd(on, s.tru(st, s.in.tm("has", s.Nm, d)).not()), map[string]*Term{"dependency": d}))
				}
				return r
			}
			q := s.memberKey()
			e := s.elem(m, q)
			on := triAnd(s.kind(st, s.N, kObject), s.tru(st, s.in.tm("has", m, q)), s.tru(st, s.in.tm("has", s.Nm, q)))
			r := []Expect{s.subErr(e, s.N, triAnd(on, s.kind(st, e, kObject|kBool), s.tru(st, s.V(e, s.N)).not()), s.root(), false)}
			for _, i := range s.sks["dep"] {
				d := s.asStr(s.elem(s.asArr(e), i))
				r = append(r, s.own("missing_dependency", triAnd(on, s.kind(st, e, kArray), s.tru(st, s.in.tm("has", s.Nm, d)).not()), map[string]*Term{"dependency": d}))
			}
			return r
		},
		order: []string{"empty", "i", "two", "three"},
		vars: map[string]func(s *Scen){
			// one entry, with three names if it is a list
			"three": func(s *Scen) {
				m := s.asMap(s.kw("dependencies"))
				s.in.mapClose[m] = true
				s.sks["dep"] = s.fixedArr(s.asArr(s.elem(m, s.keyIn(m))), "dep", 3)
			},
			"empty": func(s *Scen) {
				m := s.asMap(s.kw("dependencies"))
				q := s.keyIn(m)
				l := s.asArr(s.elem(m, q))
				s.mark("dep", s.ln(l))
				s.zeroLen[s.ln(l)] = true
				s.depKinds(m, kObject)
			},
			"i": func(s *Scen) { s.depOthers(kObject) },
			// exactly two entries with one name each
			"two": func(s *Scen) {
				m := s.asMap(s.kw("dependencies"))
				s.in.mapClose[m] = true
				for n, q := range []*Term{s.memberKey(), s.in.sk("q2")} {
					s.in.mapKeys[m] = append(s.in.mapKeys[m], q)
					if n == 1 {
						s.in.mapKeys[s.Nm] = append(s.in.mapKeys[s.Nm], q)
						s.in.mapOpt[s.in.tm("has", s.Nm, q)] = true
					}
					l := s.asArr(s.elem(m, q))
					i := s.in.sk(fmt.Sprintf("i%d", n))
					line := fmt.Sprintf("dep%d", n)
					s.mark(line, s.ln(l))
					s.mark(line, i, s.ln(l))
					s.zeroLen[i] = true
					s.sks["dep2"] = append(s.sks["dep2"], s.asStr(s.elem(l, i)))
					s.fact(s.in.typeAtom(s.elem(m, q)), kArray)
					s.fact(s.in.typeAtom(s.elem(l, i)), kString)
				}
				s.fact(s.in.eqAtom(s.in.sk("q"), s.in.sk("q2")), bF)
				s.depKinds(m, kArray)
			},
		}})
	// arrays
	regKW(&KW{name: "items", prop: "C05",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("items")
			arr := s.kind(st, v, kArray)
			for _, k := range s.sks["items"] {
				arr = triAnd(arr, s.kind(st, s.elem(s.asArr(v), k), kObject|kBool), s.nodeWF(st, s.elem(s.asArr(v), k)))
			}
			for _, k := range s.sks["N"] {
				if s.cmp(st, k, s.ln(s.asArr(v)), cLT) != triT {
					continue
				}
				e := s.elem(s.asArr(v), k)
				arr = triAnd(arr, s.kind(st, e, kObject|kBool), s.nodeWF(st, e))
			}
			return triOr(arr, triAnd(s.kind(st, v, kObject|kBool), s.nodeWF(st, v)))
		},
		exp: func(s *Scen, st *State) []Expect {
			v := s.kw("items")
			var r []Expect
			if s.opt["items"] == "three" {
				for j, k := range s.sks["D"] {
					n := s.elem(s.Na, k)
					ctx := s.at(s.in.str(fmt.Sprint(j)))
					r = append(r, s.subErr(v, n, triAnd(s.kind(st, s.N, kArray), s.kind(st, v, kObject|kBool), s.tru(st, s.V(v, n)).not()), ctx, false))
					if j < len(s.sks["items"]) {
						e := s.elem(s.asArr(v), s.sks["items"][j])
						r = append(r, s.subErr(e, n, triAnd(s.kind(st, s.N, kArray), s.kind(st, v, kArray), s.tru(st, s.V(e, n)).not()), ctx, false))
					}
				}
				return r
			}
			for _, j := range s.sks["N"] {
				n := s.elem(s.Na, j)
				ctx := s.at(s.in.tm("itoa", j))
				r = append(r, s.subErr(v, n, triAnd(s.kind(st, s.N, kArray), s.kind(st, v, kObject|kBool), s.tru(st, s.V(v, n)).not()), ctx, false))
				e := s.elem(s.asArr(v), j)
				in := triF
				if _, ok := s.in.lineOfT[j]; ok {
					in = s.cmp(st, j, s.ln(s.asArr(v)), cLT)
				}
				r = append(r, s.subErr(e, n, triAnd(s.kind(st, s.N, kArray), s.kind(st, v, kArray), in, s.tru(st, s.V(e, n)).not()), ctx, false))
			}
			return r
		},
		order: []string{"j", "three"},
		vars: map[string]func(s *Scen){
			"three": func(s *Scen) { s.listFixed("items", 2); s.docFixed(3) },
			// one designated position, possibly covered by the list of schemas
			"j": func(s *Scen) {
				j := s.docWith()
				l := s.asArr(s.kw("items"))
				s.mark("N", s.ln(l))
				s.posLen[s.ln(l)] = true
				s.itemsAt = j
				s.def(func(a *Term) (uint32, bool) {
					if a.Op == "type" && a.Args[0].Op == "elem" && a.Args[0].Args[0] == l && isOther(a.Args[0]) {
						return kObject | kBool, true
					}
					return 0, false
				})
			},
		}})
	regKW(&KW{name: "additionalItems", prop: "C05",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("additionalItems")
			return triOr(s.kind(st, v, kBool), triAnd(s.kind(st, v, kObject), s.nodeWF(st, v)))
		},
		exp: func(s *Scen, st *State) []Expect {
			if !s.has["items"] {
				return nil
			}
			v, it := s.kw("additionalItems"), s.kw("items")
			if s.opt["items"] == "three" {
				lst := triAnd(s.kind(st, s.N, kArray), s.kind(st, it, kArray))
				r := []Expect{s.own("array_no_additional_items", triAnd(lst, s.kind(st, v, kBool), s.boolKW(st, v).not()), nil)}
				n := s.elem(s.Na, s.sks["D"][2])
				return append(r, s.subErr(v, n, triAnd(lst, s.kind(st, v, kObject), s.tru(st, s.V(v, n)).not()), s.at(s.in.str("2")), false))
			}
			l := s.ln(s.asArr(it))
			lst := triAnd(s.kind(st, s.N, kArray), s.kind(st, it, kArray))
			r := []Expect{s.own("array_no_additional_items", triAnd(lst, s.cmp(st, l, s.ln(s.Na), cLT), s.kind(st, v, kBool), s.boolKW(st, v).not()), nil)}
			for _, j := range s.sks["N"] {
				n := s.elem(s.Na, j)
				beyond := s.cmp(st, j, l, cEQ|cGT)
				r = append(r, s.subErr(v, n, triAnd(lst, beyond, s.kind(st, v, kObject), s.tru(st, s.V(v, n)).not()), s.at(s.in.tm("itoa", j)), false))
			}
			return r
		}})
	regKW(&KW{name: "contains", prop: "C05", drafts: d6up,
		wf: func(s *Scen, st *State) tri { return s.nodeWF(st, s.kw("contains")) },
		exp: func(s *Scen, st *State) []Expect {
			v := s.kw("contains")
			bad := s.kind(st, s.N, kArray)
			var r []Expect
			if s.opt["contains"] == "three" {
				for _, k := range s.sks["D"] {
					bad = triAnd(bad, s.tru(st, s.V(v, s.elem(s.Na, k))).not())
				}
				for j, k := range s.sks["D"] {
					r = append(r, s.subErr(v, s.elem(s.Na, k), bad, s.at(s.in.str(fmt.Sprint(j))), true))
				}
				return append(r, s.own("contains", bad, nil))
			}
			for _, k := range s.sks["N"] {
				f := s.tru(st, s.V(v, s.elem(s.Na, k))).not()
				bad = triAnd(bad, f)
			}
			for _, k := range s.sks["N"] {
				r = append(r, s.subErr(v, s.elem(s.Na, k), bad, s.at(s.in.tm("itoa", k)), true))
			}
			return append(r, s.own("contains", bad, nil))
		},
		order: []string{"empty", "k", "kT", "three"},
		vars: map[string]func(s *Scen){
			"three": func(s *Scen) { s.docFixed(3) },
			"empty": func(s *Scen) {
				s.mark("N", s.ln(s.Na))
				s.zeroLen[s.ln(s.Na)] = true
			},
			"k": func(s *Scen) {
				s.docWith()
				s.othersContain(bF)
			},
			"kT": func(s *Scen) {
				k := s.docWith()
				s.fact(s.V(s.kw("contains"), s.elem(s.Na, k)), bT)
			},
		}})
	regKW(&KW{name: "uniqueItems", prop: "C06",
		wf: func(s *Scen, st *State) tri { return s.kind(st, s.kw("uniqueItems"), kBool) },
		exp: func(s *Scen, st *State) []Expect {
			on := triAnd(s.kind(st, s.N, kArray), s.boolKW(st, s.kw("uniqueItems")))
			if s.opt["uniqueItems"] == "three" {
				ok := triT
				for _, k := range s.sks["D"] {
					ok = triAnd(ok, s.canonOK(st, s.elem(s.Na, k)))
				}
				same := triF
				for b, j := range s.sks["D"] {
					for _, i := range s.sks["D"][:b] {
						same = triOr(same, s.tru(st, s.canonEq(s.elem(s.Na, i), s.elem(s.Na, j))))
					}
				}
				r := []Expect{s.loose("unique", triAnd(on, ok, same))}
				return append(r, s.own("internal", triAnd(on, ok.not()), map[string]*Term{"error": nil}))
			}
			sk := s.sks["U"]
			if len(sk) < 2 {
				return nil
			}
			i, j := s.elem(s.Na, sk[0]), s.elem(s.Na, sk[1])
			ok := triAnd(s.canonOK(st, i), s.canonOK(st, j))
			same := s.tru(st, s.canonEq(i, j))
			e := s.own("unique", triAnd(on, ok, same), map[string]*Term{"i": sk[0], "j": sk[1]})
			return []Expect{e, s.own("internal", triAnd(on, ok.not()), map[string]*Term{"error": nil})}
		},
		order: []string{"empty", "ij", "fail", "three"},
		vars: map[string]func(s *Scen){
			"three": func(s *Scen) { s.docFixed(3); s.canonAlways(true) },
			"empty": func(s *Scen) {
				s.mark("N", s.ln(s.Na))
				s.zeroLen[s.ln(s.Na)] = true
			},
			"ij":   func(s *Scen) { s.twoElems(bF); s.canonAlways(true) },
			"fail": func(s *Scen) { s.twoElems(bF); s.canonAlways(false) },
		}})
	regKW(&KW{name: "const", prop: "C06", drafts: d6up,
		wf: func(s *Scen, st *State) tri { return s.canonOK(st, s.kw("const")) },
		exp: func(s *Scen, st *State) []Expect {
			v := s.kw("const")
			ok := s.canonOK(st, s.N)
			return []Expect{
				s.own("const", triAnd(ok, s.tru(st, s.canonEq(v, s.N)).not()), map[string]*Term{"allowed": v}),
				s.own("internal", ok.not(), map[string]*Term{"error": nil}),
			}
		}})
	regKW(&KW{name: "enum", prop: "C06",
		wf: func(s *Scen, st *State) tri {
			w := s.kind(st, s.kw("enum"), kArray)
			if w == triF {
				return w
			}
			l := s.list("enum")
			var es []*Term
			for _, k := range s.sks["enum"] {
				e := s.elem(l, k)
				es = append(es, e)
				w = triAnd(w, s.canonOK(st, e))
			}
			for i, a := range es {
				for _, b := range es[:i] {
					w = triAnd(w, s.tru(st, s.canonEq(b, a)).not())
				}
			}
			return w
		},
		exp: func(s *Scen, st *State) []Expect {
			l := s.list("enum")
			ok := s.canonOK(st, s.N)
			in := triF
			d := map[string]*Term{}
			for _, k := range s.sks["enum"] {
				in = triOr(in, s.tru(st, s.canonEq(s.elem(l, k), s.N)))
				d["allowed"] = s.elem(l, k)
			}
			return []Expect{
				s.own("enum", triAnd(ok, in.not()), d),
				s.own("internal", ok.not(), map[string]*Term{"error": nil}),
			}
		},
		order: []string{"k", "kT", "ij", "three"},
		vars: map[string]func(s *Scen){
			"three": func(s *Scen) { s.listFixed("enum", 3) },
			"k": func(s *Scen) {
				s.listWith("enum", "k")
				s.enumOthers(true)
			},
			"kT": func(s *Scen) {
				k := s.listWith("enum", "k")
				s.enumOthers(false)
				s.fact(s.canonEq(s.elem(s.list("enum"), k), s.N), bT)
			},
			"ij": func(s *Scen) {
				s.listTwo("enum")
				s.enumOthers(true)
			},
		}})
	// combinators
	lists := func(name, code string, verdict func(s *Scen, st *State, vs []tri) tri, merge func(s *Scen) bool, order []string, vars map[string]func(s *Scen)) {
		regKW(&KW{name: name, prop: "C08",
			wf: func(s *Scen, st *State) tri {
				w := s.kind(st, s.kw(name), kArray)
				if w == triF {
					return w
				}
				for _, k := range s.sks[name] {
					w = triAnd(w, s.nodeWF(st, s.elem(s.list(name), k)))
				}
				return w
			},
			exp: func(s *Scen, st *State) []Expect {
				if s.opt[name] == "empty" {
					return nil
				}
				var vs []tri
				for _, k := range s.sks[name] {
					vs = append(vs, s.tru(st, s.V(s.elem(s.list(name), k), s.N)))
				}
				bad := verdict(s, st, vs)
				r := []Expect{s.own(code, bad, nil)}
				for i, k := range s.sks[name] {
					r = append(r, s.subErr(s.elem(s.list(name), k), s.N, triAnd(bad, vs[i].not()), s.root(), !merge(s)))
				}
				return r
			},
			order: order, vars: vars})
	}
	all := func(xs []tri) tri { return triAnd(xs...) }
	lists("anyOf", "number_any_of", func(s *Scen, st *State, vs []tri) tri { return triOr(vs...).not() }, func(*Scen) bool { return false },
		[]string{"empty", "k", "kT", "three"}, map[string]func(s *Scen){
			"three": func(s *Scen) { s.listFixed("anyOf", 3) },
			"empty": func(s *Scen) { s.listEmpty("anyOf") },
			"k":     func(s *Scen) { s.listWith("anyOf", "k"); s.othersV("anyOf", bF) },
			"kT": func(s *Scen) {
				k := s.listWith("anyOf", "k")
				s.fact(s.V(s.elem(s.list("anyOf"), k), s.N), bT)
			},
		})
	lists("oneOf", "number_one_of", func(s *Scen, st *State, vs []tri) tri {
		one := triF
		for i := range vs {
			w := vs[i]
			for j := range vs {
				if j != i {
					w = triAnd(w, vs[j].not())
				}
			}
			one = triOr(one, w)
		}
		return one.not()
	}, func(*Scen) bool { return false },
		[]string{"empty", "k", "ij", "ijT", "three"}, map[string]func(s *Scen){
			"three": func(s *Scen) { s.listFixed("oneOf", 3) },
			"empty": func(s *Scen) { s.listEmpty("oneOf") },
			"k":     func(s *Scen) { s.listWith("oneOf", "k"); s.othersV("oneOf", bF) },
			"ij":    func(s *Scen) { s.listTwo("oneOf"); s.othersV("oneOf", bF) },
			"ijT": func(s *Scen) {
				i, j := s.listTwo("oneOf")
				s.fact(s.V(s.elem(s.list("oneOf"), i), s.N), bT)
				s.fact(s.V(s.elem(s.list("oneOf"), j), s.N), bT)
			},
		})
	lists("allOf", "number_all_of", func(s *Scen, st *State, vs []tri) tri { return all(vs).not() }, func(*Scen) bool { return true },
		[]string{"empty", "k", "kF", "three"}, map[string]func(s *Scen){
			"three": func(s *Scen) { s.listFixed("allOf", 3) },
			"empty": func(s *Scen) { s.listEmpty("allOf") },
			"k":     func(s *Scen) { s.listWith("allOf", "k"); s.othersV("allOf", bT) },
			"kF": func(s *Scen) {
				k := s.listWith("allOf", "k")
				s.fact(s.V(s.elem(s.list("allOf"), k), s.N), bF)
			},
		})
	regKW(&KW{name: "not", prop: "C08",
		wf: func(s *Scen, st *State) tri {
			return triAnd(s.kind(st, s.kw("not"), kObject|kBool), s.nodeWF(st, s.kw("not")))
		},
		exp: func(s *Scen, st *State) []Expect {
			return []Expect{s.own("number_not", s.tru(st, s.V(s.kw("not"), s.N)), nil)}
		}})
	for _, n := range []string{"if", "then", "else"} {
		n := n
		regKW(&KW{name: n, prop: "C08", drafts: d7up,
			wf: func(s *Scen, st *State) tri {
				return triAnd(s.kind(st, s.kw(n), kObject|kBool), s.nodeWF(st, s.kw(n)))
			},
			exp: func(s *Scen, st *State) []Expect {
				if n == "if" || !s.has["if"] {
					return nil
				}
				c := s.tru(st, s.V(s.kw("if"), s.N))
				code := "condition_then"
				if n == "else" {
					c = c.not()
					code = "condition_else"
				}
				bad := triAnd(c, s.tru(st, s.V(s.kw(n), s.N)).not())
				return []Expect{s.own(code, bad, nil), s.subErr(s.kw(n), s.N, bad, s.root(), false)}
			}})
	}
	// annotations and containers
	for _, n := range []string{"title", "description"} {
		n := n
		regKW(&KW{name: n, prop: "C13",
			wf:  func(s *Scen, st *State) tri { return s.kind(st, s.kw(n), kString) },
			exp: func(s *Scen, st *State) []Expect { return nil }})
	}
	regKW(&KW{name: "definitions", prop: "C13",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("definitions")
			w := s.kind(st, v, kObject)
			if w == triF {
				return w
			}
			m := s.asMap(v)
			for _, k := range s.in.mapKeys[m] {
				w = triAnd(w, s.kind(st, s.elem(m, k), kObject|kBool), s.nodeWF(st, s.elem(m, k)))
			}
			return w
		},
		exp:   func(s *Scen, st *State) []Expect { return nil },
		order: []string{"empty", "d"},
		vars: map[string]func(s *Scen){
			"empty": func(s *Scen) { s.in.mapClose[s.asMap(s.kw("definitions"))] = true },
			"d": func(s *Scen) {
				m := s.asMap(s.kw("definitions"))
				s.in.mapKeys[m] = []*Term{s.in.sk("d")}
				s.def(func(a *Term) (uint32, bool) {
					if a.Op == "type" && a.Args[0].Op == "elem" && a.Args[0].Args[0] == m && isOther(a.Args[0]) {
						return kObject | kBool, true
					}
					return 0, false
				})
			},
		}})
	regKW(&KW{name: "type", prop: "C07",
		wf: func(s *Scen, st *State) tri {
			v := s.kw("type")
			if s.types != nil {
				return triT
			}
			known := func(x *Term) tri {
				r := triF
				for _, t := range jsonTypes {
					r = triOr(r, s.eq(st, s.asStr(x), s.in.str(t)))
				}
				return r
			}
			arr := s.kind(st, v, kArray)
			var es []*Term
			for _, k := range s.sks["type"] {
				e := s.elem(s.list("type"), k)
				arr = triAnd(arr, s.kind(st, e, kString), known(e))
				es = append(es, e)
			}
			if len(es) == 2 {
				arr = triAnd(arr, s.eq(st, s.asStr(es[0]), s.asStr(es[1])).not())
			}
			return triOr(triAnd(s.kind(st, v, kString), known(v)), arr)
		},
		exp: func(s *Scen, st *State) []Expect {
			var r []Expect
			v := s.kw("type")
			if s.opt["type"] == "ij" {
				e := s.own("invalid_type", triU, nil)
				e.may = true
				return []Expect{e}
			}
			for _, g := range s.given(st) {
				has := triF
				exp := s.asStr(v)
				if s.types != nil {
					exp = nil
					for _, t := range s.types {
						if t == g.name || (g.name == "integer" && t == "number") {
							has = triT
						}
					}
					if len(s.types) == 0 {
						has = triT
					} else if len(s.types) == 1 {
						exp = s.in.str(s.types[0])
					} else {
						exp = s.in.str("[" + strings.Join(s.types, ",") + "]")
					}
				} else {
					has = s.eq(st, exp, s.in.str(g.name))
					if g.name == "integer" {
						has = triOr(has, s.eq(st, exp, s.in.str("number")))
					}
				}
				e := s.own("invalid_type", triAnd(g.when, has.not()), map[string]*Term{"expected": exp, "given": s.in.str(g.name)})
				r = append(r, e)
			}
			return r
		},
		order: []string{"string", "ij"},
		vars: map[string]func(s *Scen){
			"string": func(s *Scen) { s.fact(s.in.typeAtom(s.kw("type")), kAll&^kArray) },
			"ij": func(s *Scen) {
				s.listTwo("type")
				s.fact(s.in.typeAtom(s.kw("type")), kArray)
				s.othersKind("type", kString)
				s.othersEq("type", bF, func(t *Term) *Term { return s.asStr(t) })
				l := s.list("type")
				s.def(func(a *Term) (uint32, bool) {
					if a.Op != "eq" {
						return 0, false
					}
					x, y := a.Args[0], a.Args[1]
					if x.Op == "const" {
						x, y = y, x
					}
					if x := strip(x); y.Op == "const" && x.Op == "elem" && x.Args[0] == l && isOther(x) {
						if y == s.in.str("null") {
							return bT, true
						}
						return bF, true
					}
					return 0, false
				})
			},
		}})
	// the schema itself: any JSON value without keywords
	regKW(&KW{name: rootKW, prop: "C08", names: []string{"schema"},
		wf: func(s *Scen, st *State) tri {
			return triOr(s.kind(st, s.M, kObject), triAnd(triB(!s.draftIn("Draft4")), s.kind(st, s.M, kBool)))
		},
		exp: func(s *Scen, st *State) []Expect {
			return []Expect{s.own("false", triAnd(s.kind(st, s.M, kBool), s.tru(st, s.asBool(s.M)).not()), nil)}
		}})
	// every set of types
	tk := kws["type"]
	for m := 0; m < 1<<uint(len(jsonTypes)); m++ {
		var ts []string
		for i, t := range jsonTypes {
			if m&(1<<uint(i)) != 0 {
				ts = append(ts, t)
			}
		}
		n := "[" + strings.Join(ts, ",") + "]"
		tk.lists = append(tk.lists, n)
		tk.vars[n] = func(s *Scen) {
			s.types = ts
			if ts == nil {
				s.types = []string{}
			}
			var it []Val
			for _, t := range ts {
				it = append(it, VIface{types.Typ[types.String], vstr(t)})
			}
			s.over[s.in.tm("mslot", s.Mm, s.in.str("type"))] = VIface{tArr, &VList{Items: it}}
		}
	}
}

var jsonTypes = []string{"array", "boolean", "integer", "number", "null", "object", "string"}

type givenT struct {
	name string
	when tri
}

// given: the JSON type of the document.
func (s *Scen) given(st *State) []givenT {
	num := s.kind(st, s.N, kNumber)
	isInt := triAnd(s.tru(st, s.ratok(s.N)), s.tru(st, s.in.tm("isint", s.rat(s.N))))
	return []givenT{
		{"null", s.kind(st, s.N, kNil)}, {"boolean", s.kind(st, s.N, kBool)}, {"string", s.kind(st, s.N, kString)},
		{"array", s.kind(st, s.N, kArray)}, {"object", s.kind(st, s.N, kObject)},
		{"integer", triAnd(num, isInt)}, {"number", triAnd(num, isInt.not())},
	}
}

// memberKey: a designated member name of the document.
func (s *Scen) memberKey() *Term {
	q := s.in.sk("q")
	for _, k := range s.in.mapKeys[s.Nm] {
		if k == q {
			return q
		}
	}
	s.in.mapKeys[s.Nm] = append(s.in.mapKeys[s.Nm], q)
	s.in.mapOpt[s.in.tm("has", s.Nm, q)] = true
	return q
}

// docTwo: as an object, the document has no members but two optional ones.
func (s *Scen) docTwo() []*Term {
	q, q2 := s.memberKey(), s.in.sk("q2")
	if !s.in.mapClose[s.Nm] {
		s.in.mapClose[s.Nm] = true
		s.in.mapKeys[s.Nm] = append(s.in.mapKeys[s.Nm], q2)
		s.in.mapOpt[s.in.tm("has", s.Nm, q2)] = true
		s.fact(s.in.eqAtom(q, q2), bF)
	}
	return []*Term{q, q2}
}

// memberKeys: the designated member names.
func (s *Scen) memberKeys() []*Term {
	if s.in.mapClose[s.Nm] {
		return s.docTwo()
	}
	return []*Term{s.memberKey()}
}

// keyIn: the designated member name, which may also be a key of m.
func (s *Scen) keyIn(m *Term) *Term {
	q := s.memberKey()
	s.in.mapKeys[m] = append(s.in.mapKeys[m], q)
	s.in.mapOpt[s.in.tm("has", m, q)] = true
	return q
}

func (s *Scen) othersKind(key string, m uint32) {
	l := s.list(key)
	s.def(func(a *Term) (uint32, bool) {
		if a.Op == "type" && a.Args[0].Op == "elem" && a.Args[0].Args[0] == l && isOther(a.Args[0].Args[1]) {
			return m, true
		}
		return 0, false
	})
}

// othersEq: elements other than the designated ones differ from every other element.
func (s *Scen) othersEq(key string, m uint32, val func(*Term) *Term) {
	l := s.list(key)
	isEl := func(t *Term) *Term {
		for t.Op == "as" || t.Op == "strof" {
			t = t.Args[0]
		}
		if t.Op == "elem" && t.Args[0] == l {
			return t
		}
		return nil
	}
	s.def(func(a *Term) (uint32, bool) {
		if a.Op == "eq" {
			x, y := isEl(a.Args[0]), isEl(a.Args[1])
			if x != nil && y != nil && (isOther(x) || isOther(y)) {
				return m, true
			}
		}
		return 0, false
	})
}

// canonOf: the value whose normal form t is.
func canonOf(t *Term) *Term {
	for _, op := range []string{"strof", "enc", "dec64", "enc"} {
		if t.Op != op {
			return nil
		}
		t = t.Args[0]
	}
	return t
}

func (s *Scen) canonDefault(free func(v *Term) bool) {
	s.def(func(a *Term) (uint32, bool) {
		switch a.Op {
		case "encfails":
			if a.Args[0].Op == "dec64" {
				return bF, true
			}
			if !free(a.Args[0]) {
				return bF, true
			}
		case "decfails":
			if a.Args[0].Op == "enc" && !free(a.Args[0].Args[0]) {
				return bF, true
			}
		}
		return 0, false
	})
}

func (s *Scen) canonAlways(ok bool) {
	free := func(v *Term) bool { return !isOther(v) }
	if ok {
		free = func(v *Term) bool { return false }
	}
	s.canonDefault(free)
}

func (s *Scen) enumOthers(noMatch bool) {
	l := s.list("enum")
	s.canonDefault(func(v *Term) bool { return !isOther(v) })
	isEl := func(v *Term) bool { return v != nil && v.Op == "elem" && v.Args[0] == l }
	s.def(func(a *Term) (uint32, bool) {
		if a.Op != "eq" {
			return 0, false
		}
		x, y := canonOf(a.Args[0]), canonOf(a.Args[1])
		if isEl(x) && isEl(y) && (isOther(x) || isOther(y)) {
			return bF, true
		}
		if noMatch && ((isEl(x) && isOther(x) && y == s.N) || (isEl(y) && isOther(y) && x == s.N)) {
			return bF, true
		}
		return 0, false
	})
}

// twoElems: two designated elements of the document; the others are like no other when m is bF.
func (s *Scen) twoElems(m uint32) {
	i, j := s.in.sk("j"), s.in.sk("u.j")
	s.docPos(i)
	s.docPos(j)
	s.mark("N", s.ln(s.Na))
	s.mark("N", j, s.ln(s.Na))
	s.mark("N", i, j)
	s.sks["U"] = []*Term{i, j}
	if m == 0 {
		return
	}
	isEl := func(v *Term) bool { return v != nil && v.Op == "elem" && v.Args[0] == s.Na }
	s.def(func(a *Term) (uint32, bool) {
		if a.Op == "eq" {
			x, y := canonOf(a.Args[0]), canonOf(a.Args[1])
			if isEl(x) && isEl(y) && (isOther(x) || isOther(y)) {
				return m, true
			}
		}
		return 0, false
	})
}

func (s *Scen) othersContain(m uint32) {
	c := s.in.tm("compiled", s.kw("contains"))
	s.def(func(a *Term) (uint32, bool) {
		if a.Op == "V" && a.Args[0] == c && isOther(a.Args[1]) {
			return m, true
		}
		return 0, false
	})
}

var _ = fmt.Sprint

// depOthers: a designated entry of dependencies with a designated name; the other entries are of kind k.
func (s *Scen) depOthers(k uint32) {
	m := s.asMap(s.kw("dependencies"))
	q := s.keyIn(m)
	l := s.asArr(s.elem(m, q))
	i := s.in.sk("i")
	s.mark("dep", s.ln(l))
	s.mark("dep", i, s.ln(l))
	s.sks["dep"] = []*Term{i}
	s.depKinds(m, k)
}

func (s *Scen) depKinds(m *Term, k uint32) {
	s.def(func(a *Term) (uint32, bool) {
		if a.Op == "type" && a.Args[0].Op == "elem" && a.Args[0].Args[0].Op == "as" && isOther(a.Args[0]) {
			x := a.Args[0].Args[0].Args[0]
			if x.Op == "elem" && x.Args[0] == m {
				return kString, true
			}
		}
		if a.Op == "type" && a.Args[0].Op == "elem" && a.Args[0].Args[0] == m && isOther(a.Args[0]) {
			return k, true
		}
		return 0, false
	})
}
