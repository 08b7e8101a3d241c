package main

import (
	"go/constant"
	"go/types"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

// cat: concatenation of strings in normal form.
func (in *Interp) cat(ts ...*Term) *Term {
	var flat []*Term
	for _, t := range ts {
		if t == nil {
			continue
		}
		if t.Op == "cat" {
			flat = append(flat, t.Args...)
		} else {
			flat = append(flat, t)
		}
	}
	var r []*Term
	for _, t := range flat {
		if t.cv != nil && t.cv.Kind() == constant.String {
			s := constant.StringVal(t.cv)
			if s == "" {
				continue
			}
			if len(r) > 0 && r[len(r)-1].cv != nil && r[len(r)-1].cv.Kind() == constant.String {
				r[len(r)-1] = in.str(constant.StringVal(r[len(r)-1].cv) + s)
				continue
			}
		}
		r = append(r, t)
	}
	if len(r) == 0 {
		return in.str("")
	}
	if len(r) == 1 {
		return r[0]
	}
	return in.tm("cat", r...)
}

// leadStr splits a concatenation into its constant beginning and the rest (nil if there is none).
func (in *Interp) leadStr(t *Term) (string, *Term) {
	if s, ok := termStr(t); ok {
		return s, nil
	}
	if t.Op == "cat" {
		if s, ok := termStr(t.Args[0]); ok {
			return s, in.cat(t.Args[1:]...)
		}
	}
	return "", t
}

func (in *Interp) tv(t *Term) Val {
	if t.cv != nil {
		return VC{t.cv}
	}
	return t
}

func termStr(t *Term) (string, bool) {
	if t != nil && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

// ratOf: the number held by a *big.Rat / *big.Int value.
func (in *Interp) ratOf(st *State, v Val) *Term {
	in.nonNil(st, v)
	switch x := v.(type) {
	case VPtr:
		return in.toTerm(st, in.load(st, x, nil))
	case *Term:
		return in.tm("deref", x)
	}
	in.undec("number held by %T", v)
	return nil
}

func (in *Interp) setRat(st *State, v Val, t *Term) Val {
	in.nonNil(st, v)
	in.store(st, nil, v, t)
	return v
}

// cmpFDof: the three-way comparison of two numbers as a finite-domain value.
func (in *Interp) cmpFDof(a, b *Term) Val {
	if a == b {
		return vint(0)
	}
	if a.cv != nil && b.cv != nil {
		switch ordBits(constant.Compare(a.cv, tokLSS, b.cv), constant.Compare(a.cv, tokEQL, b.cv)) {
		case cLT:
			return vint(-1)
		case cEQ:
			return vint(0)
		}
		return vint(1)
	}
	at := in.cmpAtomRaw(a, b)
	vals := []constant.Value{cint(-1), cint(0), cint(1)}
	if at.Args[0] != a {
		vals = []constant.Value{cint(1), cint(0), cint(-1)}
	}
	return VFD{at, vals}
}

func (in *Interp) model(st *State, name string, sig *types.Signature, args []Val) Val {
	in.ext[name]++
	t := func(i int) *Term { return in.toTerm(st, args[i]) }
	tup := func(vs ...Val) Val { return VTuple{vs} }
	errv := func(what string, ts ...*Term) Val { return in.tml("err", what, ts...) }
	if v := in.fold(name, args); v != nil {
		return v
	}
	switch name {
	// ---- numbers ----
	case "math/big.NewRat":
		a, ok1 := constInt(args[0])
		b, ok2 := constInt(args[1])
		var v *Term
		if ok1 && ok2 && b != 0 {
			v = in.cterm(constant.BinaryOp(cint(a), tokQUO, cint(b)))
		} else {
			v = in.tm("quo", t(0), t(1))
		}
		return in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: v})
	case "math/big.NewInt", "math/big.NewFloat":
		return in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: t(0)})
	case "(*math/big.Rat).SetString":
		s := t(1)
		if c, ok := termStr(s); ok {
			v := constant.MakeFromLiteral(c, tokFLOAT, 0)
			if v.Kind() != constant.Unknown {
				return tup(in.setRat(st, args[0], in.cterm(v)), vbool(true))
			}
		}
		if in.askBool(st, in.tm("ratok", s)) {
			return tup(in.setRat(st, args[0], in.tm("rat", s)), vbool(true))
		}
		return tup(VNil{}, vbool(false))
	case "(*math/big.Rat).SetInt64", "(*math/big.Rat).SetInt", "(*math/big.Rat).Set", "(*math/big.Int).SetInt64", "(*math/big.Int).Set":
		v := args[1]
		if !strings.HasSuffix(name, "SetInt64") {
			return in.setRat(st, args[0], in.ratOf(st, v))
		}
		return in.setRat(st, args[0], t(1))
	case "(*math/big.Rat).Cmp", "(*math/big.Int).Cmp":
		return in.cmpFDof(in.ratOf(st, args[0]), in.ratOf(st, args[1]))
	case "(*math/big.Rat).Sign", "(*math/big.Int).Sign":
		a := in.ratOf(st, args[0])
		if a.Op == "sub" {
			return in.cmpFDof(a.Args[0], a.Args[1])
		}
		return in.cmpFDof(a, in.num(0))
	case "(*math/big.Rat).Sub":
		return in.setRat(st, args[0], in.tm("sub", in.ratOf(st, args[1]), in.ratOf(st, args[2])))
	case "(*math/big.Rat).Quo":
		b := in.ratOf(st, args[2])
		if b == in.num(0) || (b.cv == nil && in.maskOf(st, in.cmpAtomRaw(b, in.num(0)), 7)&cEQ != 0) {
			if b.cv != nil || in.askCmp(st, b, in.num(0), cEQ) {
				in.panicHere(st, "division by zero")
			}
		}
		return in.setRat(st, args[0], in.tm("quo", in.ratOf(st, args[1]), b))
	case "(*math/big.Rat).Inv":
		return in.setRat(st, args[0], in.tm("quo", in.num(1), in.ratOf(st, args[1])))
	case "(*math/big.Rat).Mul":
		a, b := in.ratOf(st, args[1]), in.ratOf(st, args[2])
		if b.Op == "quo" && b.Args[0] == in.num(1) {
			return in.setRat(st, args[0], in.tm("quo", a, b.Args[1]))
		}
		if a.Op == "quo" && a.Args[0] == in.num(1) {
			return in.setRat(st, args[0], in.tm("quo", b, a.Args[1]))
		}
		return in.setRat(st, args[0], in.tm("mul", a, b))
	case "(*math/big.Rat).Add":
		return in.setRat(st, args[0], in.tm("add", in.ratOf(st, args[1]), in.ratOf(st, args[2])))
	case "(*math/big.Rat).Neg":
		return in.setRat(st, args[0], in.tm("neg", in.ratOf(st, args[1])))
	case "(*math/big.Rat).Abs":
		return in.setRat(st, args[0], in.tm("abs", in.ratOf(st, args[1])))
	case "(*math/big.Rat).IsInt":
		a := in.ratOf(st, args[0])
		return vbool(in.askBool(st, in.tm("isint", a)))
	case "(*math/big.Rat).Num":
		a := in.ratOf(st, args[0])
		v := in.tm("num", a)
		if in.maskOf(st, in.tm("isint", a), bF|bT) == bT {
			v = a
		}
		return in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: v})
	case "(*math/big.Rat).Denom":
		return in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: in.tm("denom", in.ratOf(st, args[0]))})
	case "(*math/big.Int).IsInt64":
		return vbool(in.askBool(st, in.tm("isint64", in.ratOf(st, args[0]))))
	case "(*math/big.Int).Int64":
		a := in.ratOf(st, args[0])
		if in.maskOf(st, in.tm("isint64", a), bF|bT) == bT {
			return in.tv(a)
		}
		return in.tm("wrap64", a)
	case "(*math/big.Rat).Float64":
		a := in.ratOf(st, args[0])
		at := in.tm("exact64", a)
		return tup(in.tm("f64", a), VFD{at, []constant.Value{constant.MakeBool(false), constant.MakeBool(true)}})
	case "(*math/big.Rat).SetFloat64":
		return in.setRat(st, args[0], t(1))
	case "(encoding/json.Number).Float64", "strconv.ParseFloat":
		s := t(0)
		if in.askBool(st, in.tm("f64ok", s)) {
			return tup(in.tm("f64", in.tm("rat", s)), VNil{})
		}
		return tup(in.num(0), errv("float64", s))
	case "(encoding/json.Number).Int64":
		s := t(0)
		if in.askBool(st, in.tm("int64lit", s)) {
			return tup(in.tm("rat", s), VNil{})
		}
		return tup(in.num(0), errv("int64", s))
	case "(*math/big.Float).Cmp":
		return in.cmpFDof(in.ratOf(st, args[0]), in.ratOf(st, args[1]))
	case "(*math/big.Float).IsInt":
		return vbool(in.askBool(st, in.tm("isint", in.ratOf(st, args[0]))))
	case "(*math/big.Float).SetFloat64":
		return in.setRat(st, args[0], t(1))
	case "(*math/big.Float).SetRat":
		return in.setRat(st, args[0], in.tm("float", in.ratOf(st, args[1])))
	case "(*math/big.Float).SetString":
		s := t(1)
		if in.askBool(st, in.tm("floatok", s)) {
			return tup(in.setRat(st, args[0], in.tm("float", in.tm("rat", s))), vbool(true))
		}
		return tup(VNil{}, vbool(false))
	case "(encoding/json.Number).String":
		return args[0]
	// ---- strings ----
	case "unicode/utf8.RuneCountInString":
		if s, ok := termStr(t(0)); ok {
			return vint(int64(len([]rune(s))))
		}
		return in.tm("runes", t(0))
	case "unicode/utf8.RuneCount":
		a := t(0)
		if a.Op == "bytesof" {
			return in.tm("runes", a.Args[0])
		}
		return in.tm("runes", in.tm("strof", a))
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
		if a, ok := termStr(t(0)); ok {
			if b, ok := termStr(t(1)); ok {
				switch name {
				case "strings.TrimLeft":
					return vstr(strings.TrimLeft(a, b))
				case "strings.TrimRight":
					return vstr(strings.TrimRight(a, b))
				}
				return vstr(strings.Trim(a, b))
			}
		}
	case "strings.Cut":
		if l, rest := in.leadStr(t(0)); l != "" {
			if b, ok := termStr(t(1)); ok {
				if i := strings.Index(l, b); i >= 0 {
					return tup(vstr(l[:i]), in.tv(in.cat(in.str(l[i+len(b):]), rest)), vbool(true))
				}
			}
		}
	case "strings.SplitN":
		if l, rest := in.leadStr(t(0)); l != "" {
			if n, ok := constInt(args[2]); ok && n == 2 {
				if b, ok := termStr(t(1)); ok && b != "" {
					if i := strings.Index(l, b); i >= 0 {
						return &VList{Items: []Val{vstr(l[:i]), in.tv(in.cat(in.str(l[i+len(b):]), rest))}}
					}
				}
			}
		}
	case "(net.IP).To4":
		// an address without a colon is an IPv4 one; one with a colon may stand for one
		if a := t(0); a.Op == "ret" && a.Lit == "net.ParseIP" {
			if in.askBool(st, in.tm("isnil", a)) {
				return VNil{}
			}
			if in.askBool(st, in.tml("str", "strings.Contains", a.Args[0], in.str(":"))) && in.askBool(st, in.tm("isnil", in.tml("ret", name, a))) {
				return VNil{}
			}
			return in.tml("nn", name, a)
		}
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		if p := t(1); name == "strings.Contains" && p.Op == "rxprefix" && in.maskOf(st, in.tm("rxliteral", p.Args[0]), bF|bT) == bT {
			return in.tm("match", p.Args[0], in.unbytes(t(0)))
		}
		if l, rest := in.leadStr(t(0)); l != "" && rest != nil && name == "strings.HasPrefix" {
			if b, ok := termStr(t(1)); ok {
				if strings.HasPrefix(l, b) {
					return vbool(true)
				}
				if !strings.HasPrefix(b, l) {
					return vbool(false)
				}
			}
		}
		a, ok1 := termStr(t(0))
		b, ok2 := termStr(t(1))
		if ok1 && ok2 {
			switch name {
			case "strings.Contains":
				return vbool(strings.Contains(a, b))
			case "strings.HasPrefix":
				return vbool(strings.HasPrefix(a, b))
			}
			return vbool(strings.HasSuffix(a, b))
		}
		return in.tml("str", name, t(0), t(1))
	case "strings.ContainsRune", "strings.ContainsAny", "strings.IndexByte", "strings.Index", "strings.IndexRune":
		sub := t(1)
		if n, ok := constInt(args[1]); ok {
			sub = in.str(string(rune(n)))
		}
		if s, ok := termStr(sub); ok && (name != "strings.ContainsAny" || len(s) == 1) {
			if strings.HasPrefix(name, "strings.Contains") {
				return in.tml("str", "strings.Contains", t(0), sub)
			}
			if l, rest := in.leadStr(t(0)); rest != nil && strings.Contains(l, s) {
				return vint(int64(strings.Index(l, s)))
			}
			if !in.askBool(st, in.tml("str", "strings.Contains", t(0), sub)) {
				return vint(-1)
			}
			return in.tml("nat", "strings.Index", t(0), sub)
		}
	case "strings.Compare", "bytes.Compare":
		if a, ok := termStr(t(0)); ok {
			if b, ok := termStr(t(1)); ok {
				return vint(int64(strings.Compare(a, b)))
			}
		}
		if in.askBool(st, in.eqAtom(in.unbytes(t(0)), in.unbytes(t(1)))) {
			return vint(0)
		}
		if in.askBool(st, in.tml("str", "less", in.unbytes(t(0)), in.unbytes(t(1)))) {
			return vint(-1)
		}
		return vint(1)
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.TrimSpace":
		a, ok1 := termStr(t(0))
		if ok1 && len(args) > 1 {
			if b, ok := termStr(t(1)); ok {
				if name == "strings.TrimPrefix" {
					return vstr(strings.TrimPrefix(a, b))
				}
				return vstr(strings.TrimSuffix(a, b))
			}
		}
		if len(args) > 1 {
			if m, ok := st.facts[in.tml("str", strings.Replace(name, "Trim", "Has", 1), t(0), t(1))]; ok && m == bF {
				return in.tv(t(0))
			}
		}
		if l, rest := in.leadStr(t(0)); l != "" && rest != nil && name == "strings.TrimPrefix" {
			if b, ok := termStr(t(1)); ok {
				if strings.HasPrefix(l, b) {
					return in.tv(in.cat(in.str(l[len(b):]), rest))
				}
				if !strings.HasPrefix(b, l) {
					return in.tv(t(0))
				}
			}
		}
	case "strings.Join":
		if l, ok := listOf(args[0]); ok && !l.Bag && l.Img == nil {
			var ts []*Term
			for i, v := range l.Items {
				if i > 0 {
					ts = append(ts, t(1))
				}
				ts = append(ts, in.toTerm(st, v))
			}
			return in.tv(in.cat(ts...))
		}
		return in.tm("joined", t(0), t(1))
	case "strconv.Itoa":
		if n, ok := constInt(args[0]); ok {
			return vstr(strconv.FormatInt(n, 10))
		}
		return in.tm("itoa", t(0))
	case "strconv.FormatInt":
		if n, ok := constInt(args[1]); ok && n == 10 {
			if n, ok := constInt(args[0]); ok {
				return vstr(strconv.FormatInt(n, 10))
			}
			return in.tm("itoa", t(0))
		}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf":
		var r *Term
		if name == "fmt.Sprint" {
			r = in.sprint(st, args[0])
		} else {
			r = in.sprintf(st, t(0), args[1])
		}
		if name == "fmt.Errorf" {
			return in.tml("err", "new", r)
		}
		return in.tv(r)
	case "errors.New":
		return in.tml("err", "new", t(0))
	case "log.Printf", "log.Println", "log.Print":
		return VTuple{}
	// ---- regular expressions ----
	case "regexp.Compile", "regexp.MustCompile":
		ok := false
		if s, isC := termStr(t(0)); isC {
			_, err := regexp.Compile(s)
			ok = err == nil
		} else {
			ok = in.askBool(st, in.tm("rxok", t(0)))
		}
		if name == "regexp.MustCompile" {
			if !ok {
				in.panicHere(st, "regexp.MustCompile of an invalid expression")
			}
			return in.tm("regexp", t(0))
		}
		if ok {
			return tup(in.tm("regexp", t(0)), VNil{})
		}
		return tup(VNil{}, errv("regexp", t(0)))
	case "regexp.CompilePOSIX", "regexp.MustCompilePOSIX":
		// a smaller language of expressions; what both accept matches the same strings
		ok := false
		if s, isC := termStr(t(0)); isC {
			_, err := regexp.CompilePOSIX(s)
			ok = err == nil
		} else {
			ok = in.askBool(st, in.tm("rxok", in.tm("posix", t(0))))
		}
		if name == "regexp.MustCompilePOSIX" {
			if !ok {
				in.panicHere(st, "regexp.MustCompilePOSIX of an invalid expression")
			}
			return in.tm("regexp", t(0))
		}
		if ok {
			return tup(in.tm("regexp", t(0)), VNil{})
		}
		return tup(VNil{}, errv("regexp", t(0)))
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		// sorting writes the list in place
		v := args[0]
		if x, ok := v.(VIface); ok {
			v = x.V
		}
		if in.onStore != nil {
			in.onStore(st, in.curIns, v, "sorting in place")
		}
		return nil
	case "regexp.MatchString":
		if in.askBool(st, in.tm("rxok", t(0))) {
			return tup(in.tm("match", t(0), in.unbytes(t(1))), VNil{})
		}
		return tup(vbool(false), errv("regexp", t(0)))
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
		in.nonNil(st, args[0])
		return in.tm("match", in.rxOf(t(0)), in.unbytes(t(1)))
	case "(*regexp.Regexp).LiteralPrefix":
		in.nonNil(st, args[0])
		rx := in.rxOf(t(0))
		return tup(in.tm("rxprefix", rx), vbool(in.askBool(st, in.tm("rxliteral", rx))))
	case "(*regexp.Regexp).FindStringIndex":
		in.nonNil(st, args[0])
		if in.askBool(st, in.tm("match", in.rxOf(t(0)), t(1))) {
			return in.tml("nn", "loc", t(0), t(1))
		}
		return VNil{}
	case "(*regexp.Regexp).String":
		in.nonNil(st, args[0])
		return in.tv(in.rxOf(t(0)))
	// ---- reflection ----
	case "reflect.ValueOf":
		return in.tm("rv", in.nodeTermV(st, args[0]))
	case "reflect.TypeOf":
		n := in.nodeTermV(st, args[0])
		if n.Op == "nil" || n.Op != "mk" && in.askKind(st, n, kNil) {
			return VNil{}
		}
		return in.tm("rt", n)
	case "(reflect.Value).Kind":
		a := t(0)
		if a.Op != "rv" {
			break
		}
		return in.kindVal(st, a.Args[0])
	case "(reflect.Value).IsValid":
		a := t(0)
		if a.Op == "rv" {
			return vbool(!in.askKind(st, a.Args[0], kNil))
		}
	case "(reflect.Value).Interface":
		a := t(0)
		if a.Op == "rv" {
			return a.Args[0]
		}
	case "reflect.DeepEqual":
		return in.tm("deepeq", in.nodeTermV(st, args[0]), in.nodeTermV(st, args[1]))
	// ---- JSON ----
	case "encoding/json.Marshal":
		x := in.nodeTermV(st, args[0])
		if in.askBool(st, in.tm("encfails", x)) {
			return tup(VNil{}, errv("marshal", x))
		}
		return tup(in.tm("enc", x), VNil{})
	case "encoding/json.Unmarshal":
		d := in.unbytesT(t(0))
		if in.askBool(st, in.tm("decfails", d)) {
			return errv("unmarshal", d)
		}
		if d.Op == "enc" {
			in.Known["float64-equality"] = "JSON values are compared after decoding their numbers into float64 (" + in.insPos(st) + ")"
		}
		in.storeDecoded(st, args[1], in.tm("dec64", d))
		return VNil{}
	case "encoding/json.NewDecoder":
		return in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: in.tm("decoder", in.readerTerm(st, args[0]))})
	case "(*encoding/json.Decoder).UseNumber":
		c := in.toTerm(st, in.load(st, args[0], nil))
		in.store(st, nil, args[0], in.tm("usenumber", c))
		return VTuple{}
	case "(*encoding/json.Decoder).Decode":
		c := in.toTerm(st, in.load(st, args[0], nil))
		if c.Op == "decoder" && c.Args[0].Op == "reader" {
			// a decoder without UseNumber over bytes at hand: like Unmarshal
			if d := in.unbytesT(c.Args[0].Args[0]); d.Op == "enc" {
				if in.askBool(st, in.tm("decfails", d)) {
					return errv("unmarshal", d)
				}
				in.Known["float64-equality"] = "JSON values are compared after decoding their numbers into float64 (" + in.insPos(st) + ")"
				in.storeDecoded(st, args[1], in.tm("dec64", d))
				return VNil{}
			}
		}
		if in.askBool(st, in.tm("decodefails", c)) {
			return errv("decode", c)
		}
		in.storeDecoded(st, args[1], in.tm("decoded", c))
		return VNil{}
	// ---- buffers ----
	case "bytes.NewBuffer", "bytes.NewBufferString":
		a := t(0)
		switch {
		case a.Op == "mkslice", a.Op == "nil", a.Op == "list" && len(a.Args) == 0:
			a = in.str("")
		case a.Op == "bytesof":
			a = a.Args[0]
		default:
			if name == "bytes.NewBuffer" {
				a = in.tm("strof", a)
			}
		}
		return in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: in.tm("buf", a)})
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		c := in.toTerm(st, in.load(st, args[0], nil))
		s := t(1)
		if n, ok := constInt(args[1]); ok {
			s = in.str(string(rune(n)))
		}
		if s.Op == "bytesof" {
			s = s.Args[0]
		}
		in.store(st, nil, args[0], in.tm("buf", in.cat(in.bufStr(c), s)))
		if strings.HasSuffix(name, "WriteByte") {
			return VNil{}
		}
		return tup(in.tm("bytes", s), VNil{})
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return in.tv(in.bufStr(in.toTerm(st, in.load(st, args[0], nil))))
	case "(*bytes.Buffer).Bytes":
		return in.tml("bytesof", "[]byte", in.bufStr(in.toTerm(st, in.load(st, args[0], nil))))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return in.tm("bytes", in.bufStr(in.toTerm(st, in.load(st, args[0], nil))))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return VTuple{}
	case "strings.NewReader", "bytes.NewReader":
		a := t(0)
		if a.Op == "bytesof" {
			a = a.Args[0]
		}
		return in.tm("reader", a)
	// ---- references ----
	case "github.com/xeipuuv/gojsonreference.NewJsonReference":
		s := t(0)
		if c, ok := termStr(s); ok {
			if _, err := url.Parse(c); err != nil {
				return tup(in.zeroOpaque(sig.Results().At(0).Type()), errv("reference", s))
			}
			return tup(in.tm("jref", s), VNil{})
		}
		if s.Op == "refstr" && in.baseRef(s.Args[0]) {
			return tup(s.Args[0], VNil{}) // parsing the rendering of a reference gives that reference
		}
		if in.askBool(st, in.tm("refok", s)) {
			return tup(in.tm("jref", s), VNil{})
		}
		return tup(in.zeroOpaque(sig.Results().At(0).Type()), errv("reference", s))
	case "(*github.com/xeipuuv/gojsonreference.JsonReference).String":
		return in.tv(in.refStr(in.refOf(st, args[0])))
	case "(*github.com/xeipuuv/gojsonreference.JsonReference).Inherits":
		p, c := in.refOf(st, args[0]), in.toTerm(st, args[1])
		if pu, ok := in.refURL(p); ok {
			if cu, ok := in.refURL(c); ok {
				b := *pu
				b.Fragment, b.RawFragment = "", ""
				return tup(in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: in.tm("jref", in.str(b.ResolveReference(cu).String()))}), VNil{})
			}
		}
		if in.askBool(st, in.tm("inheritok", p, c)) {
			return tup(in.alloc(st, &Obj{Kind: oCell, T: derefT(sig.Results().At(0).Type()), V: in.tm("inherit", p, c)}), VNil{})
		}
		return tup(VNil{}, errv("inherit", p, c))
	case "(*github.com/xeipuuv/gojsonreference.JsonReference).IsCanonical":
		r := in.refOf(st, args[0])
		if _, ok := in.refURL(r); ok {
			b := func(i int) bool { x, _ := constBool(in.refField(r, i)); return x }
			return vbool(b(5) && b(6) || !b(5) && b(2))
		}
		return in.tm("canonical", r)
	case "(*github.com/xeipuuv/gojsonreference.JsonReference).GetUrl":
		if p, ok := args[0].(VPtr); ok {
			return VUrl{P: p}
		}
	case "(*github.com/xeipuuv/gojsonreference.JsonReference).GetPointer":
		r := in.refOf(st, args[0])
		for r.Op == "withurl" {
			r = r.Args[0]
		}
		return in.tml("nn", "pointer", r)
	case "(*net/url.URL).String":
		if x, ok := args[0].(VUrl); ok && x.F == "" {
			return in.tv(in.refStr(in.toTerm(st, in.load(st, x.P, nil))))
		}
	case "(*github.com/xeipuuv/gojsonpointer.JsonPointer).String":
		if p := t(0); p.Op == "nn" && p.Lit == "pointer" {
			if u, ok := in.refURL(p.Args[0]); ok {
				if !strings.HasPrefix(u.Fragment, "/") {
					return vstr("")
				}
				return vstr(u.Fragment)
			}
		}
	case "(*github.com/xeipuuv/gojsonpointer.JsonPointer).Get":
		d := in.nodeTermV(st, args[1])
		if p := t(0); p.Op == "nn" && p.Lit == "pointer" {
			if u, ok := in.refURL(p.Args[0]); ok && !strings.HasPrefix(u.Fragment, "/") {
				return tup(args[1], in.tm("rk"), VNil{}) // the empty pointer (an invalid one is dropped when parsed)
			} else if ok {
				if v, found, known := in.follow(st, args[1], strings.Split(u.Fragment, "/")[1:]); known {
					if !found {
						return tup(VNil{}, vint(0), errv("pointer", t(0), d))
					}
					return tup(v, in.tm("rk"), VNil{})
				}
			}
		}
		if in.askBool(st, in.tm("ptrfails", t(0), d)) {
			return tup(VNil{}, vint(0), errv("pointer", t(0), d))
		}
		return tup(in.tm("ptrget", d, t(0)), in.tm("rk"), VNil{})
	// ---- templates ----
	case "text/template.New":
		return in.tml("tpl", "", t(0))
	// ---- locks ----
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		in.lockOp(st, name[strings.LastIndex(name, ".")+1:], args[0])
		return VTuple{}
	case "(*sync.Once).Do":
		in.undec("sync.Once")
	case "os.Open":
		return in.pureResult(st, name, sig, args)
	case "time.Parse":
		// fractional seconds are accepted whether or not the layout has them
		if l, ok := termStr(t(0)); ok {
			return in.pureResult(st, name, sig, []Val{vstr(layoutKey(l)), args[1]})
		}
	case "(*net/url.URL).IsAbs":
		in.nonNil(st, args[0])
		return vbool(!in.askBool(st, in.eqAtom(in.tml("f", "Scheme", t(0)), in.str(""))))
	}
	if strings.HasPrefix(name, "(*") && in.effectful(name) {
		if p, ok := args[0].(VPtr); ok {
			c := in.toTerm(st, in.load(st, p, nil))
			ts := []*Term{c}
			for i := range args[1:] {
				ts = append(ts, t(i+1))
			}
			in.store(st, nil, p, in.tml("eff", name, ts...))
		}
	}
	return in.pureResult(st, name, sig, args)
}

// effectful: methods of standard types that may change their receiver (default: they may not be called on tracked cells).
func (in *Interp) effectful(name string) bool {
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*math/big."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (in *Interp) bufStr(c *Term) *Term {
	if c.Op == "buf" {
		return c.Args[0]
	}
	if c.Op == "zero" {
		return in.str("")
	}
	return in.tm("bufstr", c)
}

func (in *Interp) readerTerm(st *State, v Val) *Term {
	if i, ok := v.(VIface); ok {
		if p, ok := i.V.(VPtr); ok {
			return in.tm("reader", in.bufStr(in.toTerm(st, in.load(st, p, nil))))
		}
		return in.toTerm(st, i.V)
	}
	return in.toTerm(st, v)
}

func (in *Interp) unbytes(t *Term) *Term {
	if t.Op == "bytesof" {
		return t.Args[0]
	}
	return t
}

func (in *Interp) unbytesT(t *Term) *Term {
	if t.Op == "bytesof" {
		t = t.Args[0]
	}
	if t.Op == "strof" {
		t = t.Args[0]
	}
	return t
}

func (in *Interp) rxOf(t *Term) *Term {
	if t.Op == "regexp" {
		return t.Args[0]
	}
	return in.tm("rxsrc", t)
}

// nodeTermV: the JSON value (or other dynamic value) held by an interface.
func (in *Interp) nodeTermV(st *State, v Val) *Term {
	switch x := v.(type) {
	case VIface:
		return in.toTerm(st, x)
	}
	return in.toTerm(st, v)
}

func (in *Interp) kindVal(st *State, n *Term) Val {
	if n.Op == "nil" {
		return vint(int64(reflect.Invalid))
	}
	if n.Op == "mk" {
		return vint(int64(kindOfGoType(n.Lit)))
	}
	return VFD{in.typeAtom(n), []constant.Value{cint(int64(reflect.Invalid)), cint(int64(reflect.Bool)), cint(int64(reflect.String)), cint(int64(reflect.String)), cint(int64(reflect.Slice)), cint(int64(reflect.Map))}}
}

func kindOfGoType(s string) reflect.Kind {
	switch {
	case s == "string" || s == "encoding/json.Number":
		return reflect.String
	case s == "bool":
		return reflect.Bool
	case strings.HasPrefix(s, "[]"):
		return reflect.Slice
	case strings.HasPrefix(s, "map["):
		return reflect.Map
	case strings.HasPrefix(s, "*"):
		return reflect.Ptr
	case s == "int":
		return reflect.Int
	case s == "float64":
		return reflect.Float64
	}
	return reflect.Struct
}

func (in *Interp) storeDecoded(st *State, p Val, t *Term) {
	if i, ok := p.(VIface); ok {
		p = i.V
	}
	q, ok := p.(VPtr)
	if !ok {
		in.undec("decoding into %T", p)
	}
	in.store(st, nil, q, t)
}

// ---- references ----

func (in *Interp) refOf(st *State, p Val) *Term {
	in.nonNil(st, p)
	switch x := p.(type) {
	case VPtr:
		return in.toTerm(st, in.load(st, x, nil))
	case *Term:
		return in.tm("deref", x)
	}
	in.undec("reference held by %T", p)
	return nil
}

func (in *Interp) baseRef(t *Term) bool { return true }

// follow evaluates a JSON pointer on a document of known structure.
func (in *Interp) follow(st *State, v Val, toks []string) (r Val, found, known bool) {
	for _, t := range toks {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
		x, ok := v.(VIface)
		if !ok {
			return nil, false, false
		}
		switch y := x.V.(type) {
		case VPtr:
			o := st.heap[y.O]
			if o == nil || o.Kind != oMap || o.Any != nil || o.MImg != nil {
				return nil, false, false
			}
			hit := false
			for _, e := range o.Ents {
				k, ok := constStr(e.K)
				if !ok {
					return nil, false, false
				}
				if k == t {
					v, hit = e.V, true
				}
			}
			if !hit {
				return nil, false, true
			}
		case *VList:
			if y.Bag || y.Img != nil {
				return nil, false, false
			}
			i, err := strconv.Atoi(t)
			if err != nil || i < 0 || i >= len(y.Items) {
				return nil, false, true
			}
			v = y.Items[i]
		default:
			return nil, false, true
		}
	}
	return v, true, true
}

// refURL: the url of a reference whose text is known.
func (in *Interp) refURL(r *Term) (*url.URL, bool) {
	switch r.Op {
	case "jref":
		if s, ok := termStr(r.Args[0]); ok {
			u, err := url.Parse(s)
			return u, err == nil
		}
	case "withurl":
		u, ok := in.refURL(r.Args[0])
		v, ok2 := termStr(r.Args[1])
		if ok && ok2 && r.Lit == "Fragment" {
			c := *u
			c.Fragment, c.RawFragment = v, ""
			return &c, true
		}
	}
	return nil, false
}

// refField: a field of a reference (or of another struct known only as a term).
func (in *Interp) refField(r *Term, i int) Val {
	b := r
	for b.Op == "withurl" { // the flags and the pointer are computed when the reference is parsed
		b = b.Args[0]
	}
	if b.Op == "jref" && i >= 2 {
		if u, ok := in.refURL(b); ok {
			full := u.Scheme != "" && u.Host != ""
			switch i {
			case 2:
				return vbool(full)
			case 3:
				return vbool(!full && u.Path != "")
			case 4:
				return vbool(!full && u.Path == "" && u.RawQuery == "" && u.Fragment != "")
			case 5:
				return vbool(u.Scheme == "file")
			case 6:
				return vbool(strings.HasPrefix(u.Path, "/"))
			}
		}
	}
	if r.Op == "withurl" && i >= 1 {
		r = b
	}
	return in.tml("fld", strconv.Itoa(i), r)
}

func (in *Interp) urlField(u *Term, f string) Val {
	if x, ok := in.refURL(u.Args[0]); ok {
		switch f {
		case "Fragment":
			return vstr(x.Fragment)
		case "Scheme":
			return vstr(x.Scheme)
		case "Host":
			return vstr(x.Host)
		case "Path":
			return vstr(x.Path)
		}
	}
	return in.tml("f", f, u)
}

func (in *Interp) refStr(r *Term) *Term {
	if u, ok := in.refURL(r); ok {
		return in.str(u.String())
	}
	if r.Op == "zero" {
		return in.str("")
	}
	return in.tm("refstr", r)
}

// ---- formatting ----

func (in *Interp) sprint(st *State, v Val) *Term {
	l, ok := listOf(v)
	if !ok || l.Bag || l.Img != nil {
		return in.tm("sprint", in.toTerm(st, v))
	}
	var ts []*Term
	for _, x := range l.Items {
		ts = append(ts, in.fmtArg(st, "v", x))
	}
	return in.cat(ts...)
}

func (in *Interp) fmtArg(st *State, verb string, x Val) *Term {
	if i, ok := x.(VIface); ok {
		if isBasic(i.T, types.IsString) && (verb == "s" || verb == "v") {
			return in.toTerm(st, i.V)
		}
		if isBasic(i.T, types.IsInteger) && (verb == "d" || verb == "v") {
			if n, ok := constInt(i.V); ok {
				return in.str(strconv.FormatInt(n, 10))
			}
			return in.tm("itoa", in.toTerm(st, i.V))
		}
		return in.tml("fmt", verb, in.toTerm(st, i.V))
	}
	return in.tml("fmt", verb, in.toTerm(st, x))
}

func (in *Interp) sprintf(st *State, f *Term, v Val) *Term {
	s, ok := termStr(f)
	l, ok2 := listOf(v)
	if !ok || !ok2 || l.Bag || l.Img != nil {
		return in.tm("sprintf", f, in.toTerm(st, v))
	}
	var ts []*Term
	k := 0
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			ts = append(ts, in.str(s[i:j]))
			i = j
			continue
		}
		if i+1 < len(s) && s[i+1] == '%' {
			ts = append(ts, in.str("%"))
			i += 2
			continue
		}
		j := i + 1
		for j < len(s) && strings.ContainsRune("+-# 0123456789.", rune(s[j])) {
			j++
		}
		if j >= len(s) {
			break
		}
		verb := s[i+1 : j+1]
		if k < len(l.Items) {
			ts = append(ts, in.fmtArg(st, verb, l.Items[k]))
		}
		k++
		i = j + 1
	}
	return in.cat(ts...)
}

// ---- locks ----

func (in *Interp) lockName(st *State, v Val) string {
	in.nonNil(st, v)
	switch x := v.(type) {
	case VPtr:
		return strconv.Itoa(x.O) + x.Path
	case *Term:
		return x.String()
	}
	return "?"
}

func (in *Interp) lockOp(st *State, op string, v Val) {
	n := in.lockName(st, v)
	if in.onLock != nil {
		in.onLock(st, op, n)
	}
	switch op {
	case "Lock", "RLock":
		st.locks = append(st.locks, op[:1]+n)
	default:
		want := "L" + n
		if op == "RUnlock" {
			want = "R" + n
		}
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i] == want {
				st.locks = append(append([]string(nil), st.locks[:i]...), st.locks[i+1:]...)
				return
			}
		}
		in.panicHere(st, "unlock of an unlocked lock")
	}
}

// ---- interface methods on symbolic receivers ----

func (in *Interp) modelInvoke(st *State, r *Term, m *types.Func, args []Val) Val {
	name := "invoke:" + m.Name()
	in.ext[name]++
	sig := m.Type().(*types.Signature)
	if r.Op == "err" && m.Name() == "Error" {
		if r.Lit == "new" {
			return in.tv(r.Args[0])
		}
		return in.tm("errtext", r)
	}
	if r.Op == "rt" {
		switch m.Name() {
		case "Kind":
			if in.askKindN(st, r.Args[0]) {
				in.panicHere(st, "nil dereference")
			}
			return in.kindVal(st, r.Args[0])
		}
	}
	return in.pureResult(st, name, sig, append([]Val{r}, args...))
}

func (in *Interp) askKindN(st *State, n *Term) bool {
	if n.Op == "mk" {
		return false
	}
	return in.askKind(st, n, kNil)
}
