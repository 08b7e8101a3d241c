package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"strings"
)

// ---- the grammar of the built-in formats ----

type fmtSpec func(u *Unit, st *State, s *Term) tri

var rxFrac = regexp.MustCompile(`[.,]9+`)

// layoutKey: what a time layout accepts when parsing. Fractional seconds are accepted whether or not the layout has them.
func layoutKey(l string) string { return rxFrac.ReplaceAllString(l, "") }

func timeOK(u *Unit, st *State, s *Term, layout string) tri {
	for a, m := range st.facts {
		if a.Op == "fails" && a.Lit == "time.Parse" && len(a.Args) == 2 && a.Args[1] == s {
			if l, ok := termStr(a.Args[0]); ok && layoutKey(l) == layoutKey(layout) {
				return triB(m == bF)
			}
		}
	}
	return triU
}

func contains(u *Unit, st *State, s *Term, sub string) tri {
	return u.tru(st, u.in.tml("str", "strings.Contains", s, u.in.str(sub)))
}

func failsTri(u *Unit, st *State, fn string, s *Term) tri {
	return u.tru(st, u.in.tml("fails", fn, s))
}

func urlTerm(u *Unit, s *Term) *Term { return u.in.tml("nn", "net/url.Parse#0", s) }

func rxTri(u *Unit, st *State, s *Term, rx string) tri {
	var given []rxLit
	for a, m := range st.facts {
		switch {
		case a.Op == "match" && a.Args[1] == s:
			if r, ok := termStr(a.Args[0]); ok {
				given = append(given, rxLit{r, m == bT})
			}
		case a.Op == "str" && a.Args[0] == s:
			c, ok := termStr(a.Args[1])
			if !ok {
				break
			}
			q := regexp.QuoteMeta(c)
			switch a.Lit {
			case "strings.Contains":
				given = append(given, rxLit{q, m == bT})
			case "strings.HasPrefix":
				given = append(given, rxLit{"^" + q, m == bT})
			case "strings.HasSuffix":
				given = append(given, rxLit{q + "$", m == bT})
			}
		case a.Op == "eq":
			x, y := a.Args[0], a.Args[1]
			if y == s {
				x, y = y, x
			}
			if c, ok := termStr(y); ok && x == s {
				given = append(given, rxLit{`^` + regexp.QuoteMeta(c) + `$`, m == bT})
			}
		}
	}
	if len(given) > 6 {
		return triU
	}
	t, _, ok := rxImplied(given, rx)
	if !ok {
		return triU
	}
	return t
}

// lenBelow: is the number of bytes below n? ascii: characters are bytes.
func lenBelow(u *Unit, st *State, s *Term, n int64, ascii bool) tri {
	lo, hi := int64(0), int64(1<<60)
	for a, m := range st.facts {
		if a.Op != "cmp" {
			continue
		}
		x, y := a.Args[0], a.Args[1]
		if x.Op == "const" {
			x, y = y, x
			m = flip(m)
		}
		if !(x.Op == "bytes" || ascii && x.Op == "runes") || x.Args[0] != s || y.cv == nil {
			continue
		}
		k, ok := constant.Int64Val(constant.ToInt(y.cv))
		if !ok {
			continue
		}
		l, h := int64(0), int64(1<<60)
		switch m {
		case cLT:
			h = k - 1
		case cLT | cEQ:
			h = k
		case cEQ:
			l, h = k, k
		case cGT:
			l = k + 1
		case cGT | cEQ:
			l = k
		}
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	}
	if hi < n {
		return triT
	}
	if lo >= n {
		return triF
	}
	return triU
}

const (
	rxLabel = `([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9])`
	rxHost  = `^` + rxLabel + `(\.` + rxLabel + `)*$`
)

func rxSpec(rx string) fmtSpec {
	return func(u *Unit, st *State, s *Term) tri { return rxTri(u, st, s, rx) }
}

func timeSpec(ls ...string) fmtSpec {
	return func(u *Unit, st *State, s *Term) tri {
		r := triF
		for _, l := range ls {
			r = triOr(r, timeOK(u, st, s, l))
		}
		return r
	}
}

func ipSpec(v6 bool) fmtSpec {
	return func(u *Unit, st *State, s *Term) tri {
		ok := u.tru(st, u.in.tm("isnil", u.in.tml("ret", "net.ParseIP", s))).not()
		c := contains(u, st, s, ":")
		if !v6 {
			c = c.not()
		}
		return triAnd(ok, c)
	}
}

func mailSpec(u *Unit, st *State, s *Term) tri {
	return failsTri(u, st, "net/mail.ParseAddress", s).not()
}

func uriSpec(scheme bool) fmtSpec {
	return func(u *Unit, st *State, s *Term) tri {
		ok := triAnd(failsTri(u, st, "net/url.Parse", s).not(), contains(u, st, s, `\`).not())
		if scheme {
			sc := u.in.tml("f", "Scheme", urlTerm(u, s))
			e := u.tru(st, u.in.eqAtom(sc, u.in.str("")))
			ok = triAnd(ok, e.not())
		}
		return ok
	}
}

var fmtSpecs = map[string]fmtSpec{
	"date":      timeSpec("2006-01-02"),
	"time":      timeSpec("15:04:05", "15:04:05Z07:00"),
	"date-time": timeSpec("15:04:05", "15:04:05Z07:00", "2006-01-02", "2006-01-02T15:04:05Z07:00"),
	"hostname": func(u *Unit, st *State, s *Term) tri {
		m := rxTri(u, st, s, rxHost)
		return triAnd(m, lenBelow(u, st, s, 256, m == triT))
	},
	"email":         mailSpec,
	"idn-email":     mailSpec,
	"ipv4":          ipSpec(false),
	"ipv6":          ipSpec(true),
	"uri":           uriSpec(true),
	"iri":           uriSpec(true),
	"uri-reference": uriSpec(false),
	"iri-reference": uriSpec(false),
	"uri-template": func(u *Unit, st *State, s *Term) tri {
		return triAnd(uriSpec(false)(u, st, s), rxTri(u, st, u.in.tml("f", "Path", urlTerm(u, s)), "^([^{]*({[^}]*})?)*$"))
	},
	"uuid": rxSpec("(?i)^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$"),
	"regex": func(u *Unit, st *State, s *Term) tri {
		if u.tru(st, u.in.eqAtom(s, u.in.str(""))) == triT {
			return triT
		}
		return u.tru(st, u.in.tm("rxok", s))
	},
	"json-pointer":          rxSpec("^(?:/(?:[^~/]|~0|~1)*)*$"),
	"relative-json-pointer": rxSpec("^(?:0|[1-9][0-9]*)(?:#|(?:/(?:[^~/]|~0|~1)*)*)$"),
}

// plainFmt: library functions whose meaning the format specifications account for, or that have none in them.
func plainFmt(n string) bool {
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	switch n {
	case "time.Parse", "net.ParseIP", "(net.IP).To4", "net/mail.ParseAddress", "net/url.Parse", "net/url.ParseRequestURI", "net/mail.ParseAddressList":
		return true
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimPrefix":
		return true
	}
	return strings.HasPrefix(n, "unicode.")
}

func formatJobs() []Job {
	var js []Job
	for n, sp := range fmtSpecs {
		n, sp := n, sp
		js = append(js, unitJob("format "+n, []string{"C18"}, func(u *Unit) { u.builtinFormat(n, sp) }))
	}
	js = append(js, unitJob("format-checker registry", []string{"C18"}, func(u *Unit) { u.registry() }))
	return js
}

// builtinFormat: FormatCheckers.IsFormat(name, input) accepts exactly what the grammar says.
func (u *Unit) builtinFormat(name string, sp fmtSpec) {
	in := u.in
	g, ok := u.globalPtr("FormatCheckers")
	f := u.P.method("FormatCheckerChain", "IsFormat")
	if !ok || f == nil {
		in.Undec[u.name] = "FormatCheckers or IsFormat missing"
		return
	}
	n := in.sym("input")
	s := in.tml("as", "string", n)
	for _, st := range u.call(in.newState(), f, g, vstr(name), n) {
		ts := u.truths(st, st.ret)
		if len(ts) == 0 {
			u.r.undec(u.name+": result", valStr(st.ret))
			continue
		}
		for got, x := range ts {
			u.r.oblig(1)
			want := triOr(u.kind(x, n, kString).not(), sp(u, x, s))
			if want == triB(got) {
				continue
			}
			if op := u.opaque(x, plainFmt); op != "" {
				u.r.undec(u.name+": depends on "+op, in.describe(x))
				continue
			}
			what := "accepts"
			if !got {
				what = "rejects"
			}
			u.viol("the checker of format "+name+" "+what+" an input where the format says "+want.String(), x)
		}
	}
}

// registry: Add, Remove, Has and IsFormat behave as a finite map from names to checkers.
func (u *Unit) registry() {
	in := u.in
	P := u.P
	T := u.named("FormatCheckerChain")
	fa, fr, fh, fi := P.method("FormatCheckerChain", "Add"), P.method("FormatCheckerChain", "Remove"), P.method("FormatCheckerChain", "Has"), P.method("FormatCheckerChain", "IsFormat")
	if T == nil || fa == nil || fr == nil || fh == nil || fi == nil {
		in.Undec[u.name] = "registry missing"
		return
	}
	ts, ok := T.Underlying().(*types.Struct)
	if !ok {
		in.Undec[u.name] = "registry is not a struct"
		return
	}
	mi := -1
	var mt types.Type
	for i := 0; i < ts.NumFields(); i++ {
		if m, ok := ts.Field(i).Type().Underlying().(*types.Map); ok && isBasic(m.Key(), types.IsString) {
			mi, mt = i, ts.Field(i).Type()
		}
	}
	if mi < 0 {
		in.Undec[u.name] = "registry holds no map"
		return
	}
	in.onInvoke = func(st *State, recv Val, m *types.Func, args []Val) (Val, bool) {
		if r, ok := recv.(*Term); ok && r.Op == "nn" && strings.HasPrefix(r.Lit, "checker") && m != nil && m.Name() == "IsFormat" && len(args) == 1 {
			return in.tm("verdict", r, in.toTerm(st, args[0])), true
		}
		return nil, false
	}
	a, q, w := in.sym("a"), in.sym("q"), in.sym("w")
	ca, cn := in.tml("nn", "checkerA"), in.tml("nn", "checkerN")
	inp := in.sym("input")
	base := in.newState()
	m := in.alloc(base, &Obj{Kind: oMap, T: mt, Ents: []Ent{{K: a, V: ca}}})
	z := in.zero(T).(VStruct)
	nf := append([]Val(nil), z.F...)
	nf[mi] = m
	c := in.alloc(base, &Obj{Kind: oCell, T: T, V: VStruct{nf}})
	type step struct {
		name string
		run  func(st *State) []*State
		// expected checker of w afterwards: eq facts decide
		want func(st *State) (tri, *Term) // registered?, checker
	}
	eq := func(st *State, x, y *Term) tri {
		if x == y {
			return triT
		}
		return u.tru(st, in.eqAtom(x, y))
	}
	sel := func(st *State, l []struct {
		n *Term
		c *Term
	}) (tri, *Term) {
		for _, e := range l {
			switch eq(st, w, e.n) {
			case triT:
				if e.c == nil {
					return triF, nil
				}
				return triT, e.c
			case triU:
				return triU, nil
			}
		}
		return triF, nil
	}
	type nc = struct {
		n *Term
		c *Term
	}
	steps := []step{
		{"lookup", func(st *State) []*State { return []*State{st} }, func(st *State) (tri, *Term) { return sel(st, []nc{{a, ca}}) }},
		{"Add", func(st *State) []*State { return u.call(st, fa, c, q, cn) }, func(st *State) (tri, *Term) { return sel(st, []nc{{q, cn}, {a, ca}}) }},
		{"Remove", func(st *State) []*State { return u.call(st, fr, c, q) }, func(st *State) (tri, *Term) { return sel(st, []nc{{q, nil}, {a, ca}}) }},
		{"Add, Remove", func(st *State) []*State {
			var r []*State
			for _, s := range u.call(st, fa, c, q, cn) {
				r = append(r, u.call(s, fr, c, q)...)
			}
			return r
		}, func(st *State) (tri, *Term) { return sel(st, []nc{{q, nil}, {a, ca}}) }},
		{"Remove, Add", func(st *State) []*State {
			var r []*State
			for _, s := range u.call(st, fr, c, q) {
				r = append(r, u.call(s, fa, c, q, cn)...)
			}
			return r
		}, func(st *State) (tri, *Term) { return sel(st, []nc{{q, cn}, {a, ca}}) }},
		{"Add twice", func(st *State) []*State {
			var r []*State
			for _, s := range u.call(st, fa, c, q, ca) {
				r = append(r, u.call(s, fa, c, q, cn)...)
			}
			return r
		}, func(st *State) (tri, *Term) { return sel(st, []nc{{q, cn}, {a, ca}}) }},
	}
	// all ways the three names can coincide
	var starts []*State
	for _, e := range [][3]bool{{true, true, true}, {true, false, false}, {false, true, false}, {false, false, true}, {false, false, false}} {
		st := base.clone()
		for i, p := range [][2]*Term{{a, q}, {a, w}, {q, w}} {
			st.facts[in.eqAtom(p[0], p[1])] = map[bool]uint32{true: bT, false: bF}[e[i]]
		}
		starts = append(starts, st)
	}
	for _, sp := range steps {
		var after []*State
		for _, st := range starts {
			after = append(after, sp.run(st)...)
		}
		for _, st := range after {
			if sp.name != "lookup" && len(sp.name) < 7 {
				if p, ok := st.ret.(VPtr); !ok || p != c {
					u.viol(sp.name+" does not return the registry", st)
				}
			}
			for _, x := range u.call(st, fh, c, w) {
				for got, y := range u.truths(x, x.ret) {
					u.r.oblig(1)
					reg, _ := sp.want(y)
					if reg != triB(got) && !u.undecFor(y, "Has") {
						u.viol("after "+sp.name+", Has reports "+triB(got).String()+" where a registration is "+reg.String(), y)
					}
				}
			}
			for _, x := range u.call(st, fi, c, w, inp) {
				u.r.oblig(1)
				reg, ck := sp.want(x)
				ok := false
				switch reg {
				case triF:
					b, isC := constBool(x.ret)
					ok = isC && b
				case triT:
					want := in.tm("verdict", ck, inp)
					t, isT := x.ret.(*Term)
					ok = isT && t == want
					if b, isC := constBool(x.ret); isC {
						ok = u.tru(x, want) == triB(b)
					}
				}
				if !ok && !u.undecFor(x, "IsFormat") {
					u.viol("after "+sp.name+", IsFormat answers "+valStr(x.ret)+" where the name is registered: "+reg.String(), x)
				}
			}
		}
	}
}

func (u *Unit) undecFor(st *State, what string) bool {
	if op := u.opaque(st, func(n string) bool { return plainFmt(n) || plainFn(n) || strings.HasPrefix(n, "checker") }); op != "" {
		u.r.undec(u.name+": "+what+" depends on "+op, u.in.describe(st))
		return true
	}
	return false
}
