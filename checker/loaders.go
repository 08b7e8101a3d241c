package main

import (
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed meta
var metaFS embed.FS

var metaURLs = map[string]string{
	"Draft4": "http://json-schema.org/draft-04/schema",
	"Draft6": "http://json-schema.org/draft-06/schema",
	"Draft7": "http://json-schema.org/draft-07/schema",
}

var numbered = []string{"Draft4", "Draft6", "Draft7"}

func decodeNum(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}

// officialMeta: which draft's meta-schema is this text?
func officialMeta(s string) string {
	v, err := decodeNum([]byte(s))
	if err != nil {
		return ""
	}
	for _, d := range numbered {
		for _, rev := range []string{"", "b"} {
			b, err := metaFS.ReadFile("meta/draft" + d[5:] + rev + ".json")
			if err != nil {
				continue
			}
			if w, err := decodeNum(b); err == nil && reflect.DeepEqual(v, w) {
				return d
			}
		}
	}
	return ""
}

// ---- sources: files and responses are opened, read and closed ----

// watchIO installs the models of files and HTTP responses; their use is recorded in the state.
func (u *Unit) watchIO() {
	in := u.in
	isClosed := func(st *State, f *Term) bool {
		for _, e := range st.ev {
			if e == "close "+f.String() {
				return true
			}
		}
		return false
	}
	read := func(st *State, v Val) {
		t := in.toTerm(st, v)
		if t.Op == "mk" {
			t = t.Args[0]
		}
		if isClosed(st, t) {
			u.viol("a source is read after it was closed ("+in.insPos(st)+")", st)
		}
	}
	in.onInvoke = func(st *State, recv Val, m *types.Func, args []Val) (Val, bool) {
		r, ok := recv.(*Term)
		if !ok || m == nil {
			return nil, false
		}
		switch {
		case m.Name() == "Open" && r.Op == "nn" && strings.HasPrefix(r.Lit, "fs"):
			name := in.toTerm(st, args[0])
			st.addEv("open " + r.Lit + " " + name.String())
			if in.askBool(st, in.tml("fails", "Open", r, name)) {
				return VTuple{[]Val{VNil{}, in.tml("err", "open", r, name)}}, true
			}
			return VTuple{[]Val{in.tml("nn", "file", r, name), VNil{}}}, true
		case m.Name() == "Close":
			st.addEv("close " + r.String())
			if in.askBool(st, in.tml("fails", "Close", r)) {
				return in.tml("err", "close", r), true
			}
			return VNil{}, true
		case m.Name() == "Read":
			read(st, recv)
		}
		return nil, false
	}
	in.onCall = func(st *State, fn *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
		switch fn.String() {
		case "(*os.File).Close":
			st.addEv("close " + in.toTerm(st, args[0]).String())
			return VNil{}, true
		case "os.Open":
			st.addEv("open os " + in.toTerm(st, args[0]).String())
		case "net/http.Get":
			st.addEv("get " + in.toTerm(st, args[0]).String())
		case "io/ioutil.ReadAll", "io.ReadAll", "(*encoding/json.Decoder).Decode", "io.Copy", "(*bytes.Buffer).ReadFrom":
			for _, a := range args {
				x := a
				if i, ok := a.(VIface); ok {
					x = i.V
				}
				read(st, x)
				if p, ok := x.(VPtr); ok && strings.Contains(fn.String(), "Decoder") {
					// the reader inside a decoder
					c := in.toTerm(st, in.load(st, p, nil))
					for _, e := range st.ev {
						if strings.HasPrefix(e, "close ") && mentionsStr(c, e[6:]) {
							u.viol("a source is decoded after it was closed ("+in.insPos(st)+")", st)
						}
					}
					break
				}
			}
		}
		return nil, false
	}
}

func mentionsStr(t *Term, s string) bool {
	if t.Op == "nn" && strings.Contains(t.Lit, "ReadAll") {
		return false // the contents, not the source
	}
	if t.String() == s {
		return true
	}
	for _, a := range t.Args {
		if mentionsStr(a, s) {
			return true
		}
	}
	return false
}

func plainIO(n string) bool {
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	switch n {
	case "Open", "Close", "file", "os.Open", "net/http.Get", "io/ioutil.ReadAll", "io.ReadAll", "net/url.QueryUnescape", "net/url.PathUnescape", "fsA", "strings.TrimPrefix", "pointer", "reader":
		return true
	}
	return plainFn(n) || strings.HasPrefix(n, "global")
}

// failed: does a fact of the path say that something the loader needs went wrong? status: the HTTP status is 200.
func (u *Unit) failed(st *State) (tri, string) {
	res, what := triF, ""
	got := map[string]bool{}
	for a, m := range st.facts {
		bad := false
		switch a.Op {
		case "fails":
			bad = m == bT && a.Lit != "Close"
		case "decodefails", "decfails", "encfails":
			bad = m == bT
		case "refok":
			bad = m == bF
		case "isnil":
		}
		if bad {
			res, what = triT, u.in.factStr(a, m)
		}
	}
	for _, e := range st.ev {
		if strings.HasPrefix(e, "get ") {
			got[e[4:]] = true
		}
	}
	if res == triT {
		return res, what
	}
	for addr := range got {
		s := triU
		for a, m := range st.facts {
			if a.Op != "cmp" {
				continue
			}
			x, y := a.Args[0], a.Args[1]
			if x.Op == "const" {
				x, y = y, x
			}
			if x.Op == "f" && x.Lit == "StatusCode" && mentionsStr(x, addr) && y.Lit == "200" {
				if m == cEQ {
					s = triF
				} else if m&cEQ == 0 {
					s = triT
				}
			}
		}
		if s == triT {
			return triT, "status other than 200"
		}
		if s == triU {
			// is it known by another bound?
			for a, m := range st.facts {
				if a.Op == "cmp" && (a.Args[0].Lit == "StatusCode" || a.Args[1].Lit == "StatusCode") {
					x := a.Args[1]
					if x.Lit == "StatusCode" {
						x = a.Args[0]
						m = flip(m)
					}
					if x.cv != nil && excludes200(x.Lit, m) {
						return triT, "status other than 200"
					}
				}
			}
			res, what = triU, "status not known to be 200"
		}
	}
	return res, what
}

// excludes200: with the status compared to c as m says, it is not 200.
func excludes200(c string, m uint32) bool {
	var n int
	fmt.Sscan(c, &n)
	switch {
	case n < 200:
		return m&cGT == 0
	case n > 200:
		return m&cLT == 0
	}
	return m&cEQ == 0
}

// sourceClosed: everything opened on the path was closed.
func (u *Unit) sourceClosed(st *State) {
	in := u.in
	need := func(t *Term, what string) {
		for _, e := range st.ev {
			if e == "close "+t.String() {
				return
			}
		}
		u.viol("not closed: "+what, st)
	}
	for a, m := range st.facts {
		if a.Op != "fails" || m != bF {
			continue
		}
		switch a.Lit {
		case "Open":
			need(in.tml("nn", "file", a.Args...), "the opened file")
		case "os.Open":
			need(in.tml("nn", "os.Open#0", a.Args...), "the opened file")
		case "net/http.Get":
			need(in.tml("f", "Body", in.tml("nn", "net/http.Get#0", a.Args...)), "the response body")
		}
	}
}

// exact: v is the exact decoding (numbers as literals) of something; reports what.
func (u *Unit) exact(v Val) (*Term, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "decoded" || t.Args[0].Op != "usenumber" || t.Args[0].Args[0].Op != "decoder" {
		return nil, false
	}
	return t.Args[0].Args[0].Args[0], true
}

// unread strips the readers around contents.
func unread(t *Term) *Term {
	for {
		switch {
		case t.Op == "reader" || t.Op == "strof" || t.Op == "bytesof" || t.Op == "deref" || t.Op == "ref":
			t = t.Args[0]
		case t.Op == "buf":
			t = t.Args[0]
		case (t.Op == "nn" || t.Op == "ret") && strings.HasPrefix(t.Lit, "io") && strings.Contains(t.Lit, "ReadAll"):
			t = t.Args[0]
		case t.Op == "mk":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// loadJSON runs LoadJSON of a loader value and checks that failures surface and that the document is the exact decoding
// of what want accepts (want nil: the document is judged by val).
func (u *Unit) loadJSON(st *State, loader Val, want func(st *State, src *Term) bool, val func(st *State, v Val) bool) []*State {
	in := u.in
	i, ok := loader.(VIface)
	if !ok {
		u.r.undec(u.name, "loader is "+valStr(loader))
		return nil
	}
	m := u.P.prog.LookupMethod(i.T, u.P.pkg.Pkg, "LoadJSON")
	ex := u.call(st, m, i.V)
	for _, x := range ex {
		t, ok := x.ret.(VTuple)
		if !ok || len(t.F) != 2 {
			continue
		}
		u.r.oblig(3)
		op := u.opaque(x, plainIO)
		u.sourceClosed(x)
		bad, why := u.failed(x)
		isErr := isErrVal(t.F[1])
		switch {
		case op != "" && bad == triU:
			u.r.undec(u.name+": depends on "+op, in.describe(x))
		case bad == triT && !isErr:
			u.viol("a failure is swallowed: "+why, x)
		case bad == triF && isErr:
			if op != "" {
				u.r.undec(u.name+": depends on "+op, in.describe(x))
				break
			}
			u.viol("an error is returned although nothing failed", x)
		case bad == triU && !isErr:
			u.viol("a document is returned although the response has a "+why, x)
		}
		if isErr || bad != triF {
			continue
		}
		if val != nil {
			if !val(x, t.F[0]) {
				u.viol("the document is not the source: "+valStr(t.F[0]), x)
			}
			continue
		}
		src, ok := u.exact(t.F[0])
		if !ok {
			if v, isT := t.F[0].(*Term); isT && opaqueOpBy(v, plainIO) != "" {
				u.r.undec(u.name+": document "+v.String(), in.describe(x))
				continue
			}
			u.viol("the document is not decoded with exact number literals: "+valStr(t.F[0]), x)
			continue
		}
		if want != nil && !want(x, unread(src)) {
			u.viol("the document is decoded from "+unread(src).String(), x)
		}
	}
	return ex
}

// make runs a constructor and returns the loader it makes.
func (u *Unit) make(st *State, name string, args ...Val) (*State, Val, bool) {
	f := u.P.fn(name)
	ex := u.call(st, f, args...)
	if len(ex) != 1 {
		u.r.undec(u.name+": "+name, "not a single outcome")
		return nil, nil, false
	}
	return ex[0], ex[0].ret, true
}

func (u *Unit) method(v Val, name string) (*ssa.Function, Val) {
	i, ok := v.(VIface)
	if !ok {
		return nil, nil
	}
	return u.P.prog.LookupMethod(i.T, u.P.pkg.Pkg, name), i.V
}

func loaderJobs() []Job {
	props := []string{"C17"}
	var js []Job
	add := func(n string, f func(u *Unit)) {
		js = append(js, unitJob("loader "+n, props, func(u *Unit) { u.watchIO(); f(u) }))
	}
	isTerm := func(t *Term) func(st *State, x *Term) bool {
		return func(st *State, x *Term) bool { return x == t }
	}
	add("NewStringLoader", func(u *Unit) {
		s := u.in.sym("source")
		if st, l, ok := u.make(u.in.newState(), "NewStringLoader", s); ok {
			u.loadJSON(st, l, isTerm(s), nil)
		}
	})
	add("NewBytesLoader", func(u *Unit) {
		s := u.in.sym("source")
		if st, l, ok := u.make(u.in.newState(), "NewBytesLoader", s); ok {
			u.loadJSON(st, l, isTerm(s), nil)
		}
	})
	add("NewGoLoader", func(u *Unit) {
		s := u.in.sym("source")
		if st, l, ok := u.make(u.in.newState(), "NewGoLoader", s); ok {
			u.loadJSON(st, l, isTerm(u.in.tm("enc", s)), nil)
		}
	})
	add("NewRawLoader", func(u *Unit) {
		s := u.in.sym("source")
		if st, l, ok := u.make(u.in.newState(), "NewRawLoader", s); ok {
			u.loadJSON(st, l, nil, func(st *State, v Val) bool { return v == Val(s) })
		}
	})
	for _, n := range []string{"NewReaderLoader", "NewWriterLoader"} {
		n := n
		add(n, func(u *Unit) { u.streamLoader(n) })
	}
	// references: a symbolic one, and known ones whose path is checked
	for _, src := range []string{"", "file:///dir/s.json", "file:///dir/s.json#/definitions/x", "file:///dir%20x/s.json", "file:///Dir/S.json", "http://h.example/A/S.json", "file:///dir/a+b.json", "file:///dir/a%2Bb%25.json", "http://h.example/a/s.json", "http://h.example/a/s.json#/definitions/x"} {
		src := src
		for _, via := range []string{"NewReferenceLoader", "NewReferenceLoaderFileSystem", "factory", "default factory"} {
			via := via
			n := src
			if n == "" {
				n = "any reference"
			}
			add(via+" "+n, func(u *Unit) { u.refLoader(via, src) })
		}
	}
	return js
}

// streamLoader: the loader decodes what passed through the returned reader or writer.
func (u *Unit) streamLoader(name string) {
	in := u.in
	s := in.tml("nn", "stream")
	f := u.P.fn(name)
	for _, st := range u.call(in.newState(), f, s) {
		t, ok := st.ret.(VTuple)
		if !ok || len(t.F) != 2 {
			continue
		}
		i, ok := t.F[0].(VIface)
		if !ok {
			u.r.undec(u.name, "loader is "+valStr(t.F[0]))
			continue
		}
		// the buffer the loader reads
		p, ok := i.V.(VPtr)
		if !ok {
			continue
		}
		sv, ok := st.heap[p.O].V.(VStruct)
		if !ok {
			continue
		}
		var buf *VPtr
		for _, x := range sv.F {
			if q, ok := x.(VPtr); ok {
				buf = &q
			}
		}
		if buf == nil {
			u.r.undec(u.name, "no buffer in the loader")
			continue
		}
		// what passes through the stream appears in the buffer
		n := st.clone()
		o := *n.heap[buf.O]
		o.V = in.tm("buf", in.sym("passed"))
		n.heap[buf.O] = &o
		u.loadJSON(n, t.F[0], func(st *State, src *Term) bool { return src == in.sym("passed") }, nil)
		// the returned stream feeds that buffer
		w, ok := t.F[1].(*Term)
		if !ok {
			u.r.undec(u.name, "stream is "+valStr(t.F[1]))
			continue
		}
		u.r.oblig(1)
		if !mentions(w, s) {
			u.viol("the returned stream does not use the given one: "+w.String(), st)
		}
		if w.Op == "ret" && (w.Lit == "io.TeeReader" || w.Lit == "io.MultiWriter") && strings.Count(w.String(), "zero:bytes.Buffer")+strings.Count(w.String(), "buf(")+strings.Count(w.String(), "ref(") == 0 {
			u.viol("the returned stream does not feed the loader's buffer: "+w.String(), st)
		}
	}
}

// refLoader: references are opened with the right file system at the right place.
func (u *Unit) refLoader(via, src string) {
	in := u.in
	st := in.newState()
	var s Val = in.sym("source")
	if src != "" {
		s = vstr(src)
	}
	fs := in.tml("nn", "fsA")
	var l Val
	ok := false
	own := false
	switch via {
	case "NewReferenceLoader":
		st, l, ok = u.make(st, via, s)
	case "NewReferenceLoaderFileSystem":
		own = true
		st, l, ok = u.make(st, via, s, fs)
	case "factory":
		own = true
		st, l, ok = u.make(st, "NewReferenceLoaderFileSystem", vstr("file:///first.json"), fs)
		if ok {
			st, l, ok = u.viaFactory(st, l, s)
		}
	case "default factory":
		st, l, ok = u.make(st, "NewStringLoader", vstr("{}"))
		if ok {
			st, l, ok = u.viaFactory(st, l, s)
		}
	}
	if !ok {
		return
	}
	ex := u.loadJSON(st, l, nil, nil)
	for _, x := range ex {
		u.r.oblig(1)
		for _, e := range x.ev {
			f := strings.SplitN(e, " ", 3)
			switch f[0] {
			case "open":
				if own != (f[1] == "fsA") {
					u.viol("opened with the wrong file system: "+e, x)
				}
				if strings.HasPrefix(src, "http:") {
					u.viol("a URL is opened as a file: "+e, x)
				}
				want := map[string]string{"file:///dir/s.json": `"/dir/s.json"`, "file:///dir/s.json#/definitions/x": `"/dir/s.json"`, "file:///dir%20x/s.json": `"/dir x/s.json"`, "file:///Dir/S.json": `"/Dir/S.json"`, "file:///dir/a+b.json": `"/dir/a+b.json"`, "file:///dir/a%2Bb%25.json": `"/dir/a+b%.json"`}[src]
				if want != "" && f[2] != want && strings.HasPrefix(f[2], `"`) {
					u.viol("opens "+f[2]+" instead of "+want, x)
				}
			case "get":
				if strings.HasPrefix(src, "file:") {
					u.viol("a file is fetched by HTTP: "+e, x)
				}
				if strings.HasPrefix(src, "http:") && strings.HasPrefix(f[1], `"`) && f[1] != strconv.Quote(strings.TrimSuffix(src, "#/definitions/x")) {
					u.viol("fetches "+f[1], x)
				}
			}
		}
	}
}

func (u *Unit) viaFactory(st *State, l Val, s Val) (*State, Val, bool) {
	m, r := u.method(l, "LoaderFactory")
	if m == nil {
		return nil, nil, false
	}
	ex := u.call(st, m, r)
	if len(ex) != 1 {
		return nil, nil, false
	}
	m, r = u.method(ex[0].ret, "New")
	if m == nil {
		return nil, nil, false
	}
	ex = u.call(ex[0], m, r, s)
	if len(ex) != 1 {
		return nil, nil, false
	}
	return ex[0], ex[0].ret, true
}

// ---- the meta-schemas and the draft table ----

func tableJobs() []Job {
	props := []string{"C20"}
	var js []Job
	add := func(n string, f func(u *Unit)) {
		js = append(js, unitJob(n, props, func(u *Unit) { u.watchIO(); f(u) }))
	}
	for _, d := range numbered {
		for _, suf := range []string{"", "#"} {
			for _, via := range []string{"NewReferenceLoader", "NewReferenceLoaderFileSystem", "default factory"} {
				d, suf, via := d, suf, via
				add("meta-schema of "+d+" via "+via+" "+metaURLs[d]+suf, func(u *Unit) { u.metaServed(d, suf, via) })
			}
		}
	}
	add("meta-schemas are served for their own URLs only", func(u *Unit) { u.metaOnly() })
	add("draft table", func(u *Unit) { u.draftTable() })
	return js
}

func (u *Unit) refMake(via string, s Val) (*State, Val, bool) {
	in := u.in
	st := in.newState()
	switch via {
	case "NewReferenceLoaderFileSystem":
		return u.make(st, via, s, in.tml("nn", "fsA"))
	case "default factory":
		st, l, ok := u.make(st, "NewStringLoader", vstr("{}"))
		if !ok {
			return nil, nil, false
		}
		return u.viaFactory(st, l, s)
	}
	return u.make(st, via, s)
}

func (u *Unit) metaServed(d, suf, via string) {
	in := u.in
	st, l, ok := u.refMake(via, vstr(metaURLs[d]+suf))
	if !ok {
		return
	}
	m, r := u.method(l, "LoadJSON")
	for _, x := range u.call(st, m, r) {
		u.r.oblig(1)
		for _, e := range x.ev {
			if strings.HasPrefix(e, "get ") || strings.HasPrefix(e, "open ") {
				u.viol("the meta-schema is not served from the embedded copy: "+e, x)
			}
		}
		t, ok := x.ret.(VTuple)
		if !ok || len(t.F) != 2 {
			continue
		}
		if isErrVal(t.F[1]) {
			if f, _ := u.failed(x); f != triT {
				u.viol("loading the meta-schema fails", x)
			}
			continue
		}
		src, ok := u.exact(t.F[0])
		if !ok {
			if v, isT := t.F[0].(*Term); isT && opaqueOpBy(v, plainIO) != "" {
				u.r.undec(u.name+": document "+v.String(), in.describe(x))
				continue
			}
			u.viol("the meta-schema is not decoded with exact number literals: "+valStr(t.F[0]), x)
			continue
		}
		s, ok := termStr(unread(src))
		if !ok {
			u.r.undec(u.name+": text", src.String())
			continue
		}
		if got := officialMeta(s); got != d {
			if got == "" {
				got = "no draft"
			}
			u.viol("the document served for "+metaURLs[d]+" is the official meta-schema of "+got, nil)
		}
	}
}

func (u *Unit) metaOnly() {
	in := u.in
	st, l, ok := u.refMake("NewReferenceLoader", in.sym("source"))
	if !ok {
		return
	}
	m, r := u.method(l, "LoadJSON")
	for _, x := range u.call(st, m, r) {
		u.r.oblig(1)
		t, ok := x.ret.(VTuple)
		if !ok || len(t.F) != 2 || isErrVal(t.F[1]) {
			continue
		}
		src, ok := u.exact(t.F[0])
		if !ok {
			continue
		}
		s, ok := termStr(unread(src))
		if !ok {
			continue
		}
		d := officialMeta(s)
		found := false
		for a, mk := range x.facts {
			if a.Op == "eq" && mk == bT {
				for _, y := range a.Args {
					if c, ok := termStr(y); ok && d != "" && c == metaURLs[d] {
						found = true
					}
				}
			}
		}
		if !found {
			if op := u.opaque(x, plainIO); op != "" {
				u.r.undec(u.name+": depends on "+op, in.describe(x))
				continue
			}
			u.viol("an embedded meta-schema is served for a URL that is not known to be its own", x)
		}
	}
}

// draftTable: the lookup functions of the table agree with each other and know nothing else.
func (u *Unit) draftTable() {
	in := u.in
	g, ok := u.globalPtr("drafts")
	if !ok {
		u.r.undec(u.name, "no table")
		return
	}
	tab := u.P.baseHeap[g.O].V
	get := func(n string) *ssa.Function { return u.P.method("draftConfigs", n) }
	url := in.sym("url")
	check := func(x *State, ok bool, what string) {
		u.r.oblig(1)
		if ok {
			return
		}
		if op := u.opaque(x, plainIO); op != "" {
			u.r.undec(u.name+": depends on "+op, in.describe(x))
			return
		}
		u.viol(what, x)
	}
	// the draft whose URL the path knows the argument to be; "" none; "?" open
	which := func(x *State, arg *Term) string {
		r := ""
		for _, d := range numbered {
			switch u.tru(x, in.eqAtom(arg, in.str(metaURLs[d]))) {
			case triT:
				return d
			case triU:
				r = "?"
			}
		}
		return r
	}
	if f := get("GetMetaSchema"); f != nil {
		for _, x := range u.call(in.newState(), f, tab, url) {
			d := which(x, url)
			s, ok := constStr(x.ret)
			switch d {
			case "":
				check(x, ok && s == "", "a meta-schema is given for an unknown URL")
			case "?":
				check(x, false, "the meta-schema does not depend on the URL alone")
			default:
				check(x, ok && officialMeta(s) == d, "the meta-schema given for "+metaURLs[d]+" is not the official one")
			}
		}
	}
	if f := get("GetDraftVersion"); f != nil {
		for _, x := range u.call(in.newState(), f, tab, url) {
			d := which(x, url)
			got := int64(-1)
			if p, ok := x.ret.(VPtr); ok {
				if n, ok := constInt(in.load(x, p, nil)); ok {
					got = n
				}
			}
			switch d {
			case "":
				check(x, isNilVal(x.ret), "a draft is given for an unknown URL")
			case "?":
				check(x, false, "the draft does not depend on the URL alone")
			default:
				check(x, got == u.P.draftConst(d), "the draft given for "+metaURLs[d]+" is not "+d)
			}
		}
	}
	if f := get("GetSchemaURL"); f != nil {
		for _, d := range allDrafts {
			for _, x := range u.call(in.newState(), f, tab, vint(u.P.draftConst(d))) {
				s, ok := constStr(x.ret)
				check(x, ok && s == metaURLs[d], "the URL given for "+d+" is "+valStr(x.ret))
			}
		}
	}
}
