package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	tokLSS   = token.LSS
	tokEQL   = token.EQL
	tokQUO   = token.QUO
	tokFLOAT = token.FLOAT
)

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset, Tests: false, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 || len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("loading %s: %v", dir, pkgs[0].Errors)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkg: sp[0], fset: fset, dir: dir, infos: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]int{}, files: map[string][]byte{}}
	P.tpkg = pkgs[0]
	P.roles()
	P.runInit()
	return P, nil
}

func (P *Program) namedType(n string) types.Type {
	o := P.pkg.Pkg.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	return o.Type()
}

// roles identifies the parts of the program by their signatures, not by their names.
func (P *Program) roles() {
	P.tResult = P.namedType("Result")
	P.tCtx = P.namedType("JsonContext")
	P.tSchema = P.namedType("Schema")
	if P.tSchema != nil {
		s := P.tSchema.Underlying().(*types.Struct)
		best := 0
		for i := 0; i < s.NumFields(); i++ {
			if p, ok := s.Field(i).Type().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() == P.pkg.Pkg {
					if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() > best {
						best = st.NumFields()
						P.tSub = n
						P.rootField = i
					}
				}
			}
		}
	}
	P.errField, P.scoreField = -1, -1
	if P.tResult != nil {
		s := P.tResult.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "ResultError") {
				P.errField = i
			}
			if isIntT(s.Field(i).Type()) {
				if P.scoreField >= 0 {
					P.moreInts = true
				}
				P.scoreField = i
			}
		}
	}
	for _, m := range P.funcs() {
		sig := m.Signature
		if sig.Recv() == nil && sig.Params().Len() == 2 && sig.Results().Len() == 1 &&
			isBasic(sig.Params().At(0).Type(), types.IsString) && isNamed(sig.Params().At(1).Type(), "ErrorDetails") && isBasic(sig.Results().At(0).Type(), types.IsString) {
			if P.fnFormat == nil || m.Name() == "formatErrorDescription" {
				P.fnFormat = m
			}
		}
		if m.Name() == "String" && sig.Recv() != nil && isPtrToNamed(sig.Recv().Type(), P.tCtx) {
			P.fnCtxString = m
		}
	}
	P.computeInert()
}

// funcs lists every function and method with a body declared in the package.
func (P *Program) funcs() []*ssa.Function {
	if P.fnList != nil {
		return P.fnList
	}
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range P.pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			n, ok := x.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(P.prog.FuncValue(n.Method(i)))
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	P.fnList = r
	return r
}

// method finds a method of an exported type.
func (P *Program) method(typ, name string) *ssa.Function {
	for _, f := range P.funcs() {
		if f.Name() == name && f.Signature.Recv() != nil {
			t := f.Signature.Recv().Type()
			if isNamed(t, typ) || isPtrNamed(t, typ) {
				return f
			}
		}
	}
	return nil
}

func (P *Program) fn(name string) *ssa.Function {
	f, _ := P.pkg.Members[name].(*ssa.Function)
	return f
}

// computeInert: parameters that are only ever handed on (never looked into).
func (P *Program) computeInert() {
	P.inert = map[*ssa.Function]map[int]bool{}
	for _, f := range P.funcs() {
		P.inert[f] = map[int]bool{}
		for i, p := range f.Params {
			if isPtrToNamed(p.Type(), P.tSub) {
				P.inert[f][i] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range P.funcs() {
			for i, p := range f.Params {
				if !P.inert[f][i] {
					continue
				}
				ok := P.handedOn(p, map[ssa.Value]bool{})
				if !ok {
					P.inert[f][i] = false
					ch = true
				}
			}
		}
	}
}

// handedOn: the value is only compared, passed to inert parameters, or kept in locals (and captured ones) of which
// the same holds.
func (P *Program) handedOn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
		case *ssa.Phi:
			if !P.handedOn(x, seen) {
				return false
			}
		case *ssa.Store:
			if x.Val == v && !P.cellHandedOn(x.Addr, seen) {
				return false
			}
		case *ssa.MakeClosure:
			// a method value: the wrapper calls the method with it
			g, _ := x.Fn.(*ssa.Function)
			if g == nil {
				return false
			}
			for k, b := range x.Bindings {
				if b == v && !P.handedOn(g.FreeVars[k], seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			c := x.Common()
			g := c.StaticCallee()
			if g == nil || c.Value == v {
				return false
			}
			for k, a := range c.Args {
				if a == v && (P.inert[g] == nil || !P.inert[g][k]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// cellHandedOn: the same for what is read from a local variable's cell.
func (P *Program) cellHandedOn(c ssa.Value, seen map[ssa.Value]bool) bool {
	switch c.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
	default:
		return false
	}
	if seen[c] {
		return true
	}
	seen[c] = true
	for _, r := range *c.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == c {
				return false
			}
		case *ssa.UnOp:
			if !P.handedOn(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			g, _ := x.Fn.(*ssa.Function)
			if g == nil {
				return false
			}
			for k, b := range x.Bindings {
				if b == c && !P.cellHandedOn(g.FreeVars[k], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func isNodeT(t types.Type) bool {
	if isJSONIface(t) {
		if _, ok := types.Unalias(t).(*types.Named); !ok {
			return true
		}
	}
	s := types.TypeString(t, nil)
	return kindOfTypeStr(s)&(kArray|kObject) != 0
}

func (P *Program) nodeParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isNodeT(p.Type()) {
			return i
		}
	}
	return -1
}

func (P *Program) subParam(fn *ssa.Function) int {
	r := -1
	for i, p := range fn.Params {
		if isPtrToNamed(p.Type(), P.tSub) && !P.inert[fn][i] {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// parseParam: index of the schema under construction in a compile function, or -1.
func (P *Program) parseParam(fn *ssa.Function) int {
	if fn.Pkg != P.pkg || P.tSub == nil {
		return -1
	}
	res := fn.Signature.Results()
	hasErr := false
	for i := 0; i < res.Len(); i++ {
		if isErrorT(res.At(i).Type()) {
			hasErr = true
		}
	}
	if !hasErr || P.nodeParam(fn) < 0 {
		return -1
	}
	for _, p := range fn.Params {
		if isPtrToNamed(p.Type(), P.tResult) {
			return -1
		}
	}
	if !P.recursive(fn) {
		return -1
	}
	return P.subParam(fn)
}

func (P *Program) isRefWalk(fn *ssa.Function) bool {
	if fn.Pkg != P.pkg || P.subParamAny(fn) {
		return false
	}
	if P.nodeParam(fn) < 0 || !P.selfRecursive(fn) {
		return false
	}
	for _, p := range fn.Params {
		if isNamed(p.Type(), "JsonReference") || isPtrNamed(p.Type(), "JsonReference") {
			return true
		}
	}
	return false
}

func (P *Program) subParamAny(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isPtrToNamed(p.Type(), P.tSub) {
			return true
		}
	}
	return false
}

// validateParams: schema and node parameter of a validation function.
func (P *Program) validateParams(fn *ssa.Function) (int, int, bool) {
	if fn.Pkg != P.pkg || P.tSub == nil {
		return 0, 0, false
	}
	s, n := P.subParam(fn), P.nodeParam(fn)
	return s, n, s >= 0 && n >= 0 && P.hasResult(fn)
}

// hasResult: the function fills or makes a Result.
func (P *Program) hasResult(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isPtrToNamed(p.Type(), P.tResult) {
			return true
		}
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isPtrToNamed(res.At(i).Type(), P.tResult) {
			return true
		}
	}
	return false
}

// subParams: the schemas a function of the package looks into.
func (P *Program) subParams(fn *ssa.Function) []int {
	var r []int
	if fn.Pkg != P.pkg || P.tSub == nil {
		return nil
	}
	for i, p := range fn.Params {
		if isPtrToNamed(p.Type(), P.tSub) && !P.inert[fn][i] {
			r = append(r, i)
		}
	}
	return r
}

// calls: static call graph inside the package (closures included).
func (P *Program) callees(fn *ssa.Function) []*ssa.Function {
	if P.cg == nil {
		P.cg = map[*ssa.Function][]*ssa.Function{}
		for _, f := range P.funcs() {
			seen := map[*ssa.Function]bool{}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && !seen[g] {
							seen[g] = true
							P.cg[f] = append(P.cg[f], g)
						}
					}
					if mc, ok := i.(*ssa.MakeClosure); ok {
						g := mc.Fn.(*ssa.Function)
						if !seen[g] {
							seen[g] = true
							P.cg[f] = append(P.cg[f], g)
						}
					}
				}
			}
		}
	}
	return P.cg[fn]
}

func (P *Program) reach(fn *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var st []*ssa.Function
	st = append(st, fn)
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for _, g := range P.callees(f) {
			if !r[g] {
				r[g] = true
				st = append(st, g)
			}
		}
	}
	return r
}

func (P *Program) recursive(fn *ssa.Function) bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.recMemo == nil {
		P.recMemo = map[*ssa.Function]bool{}
		for _, f := range P.funcs() {
			P.recMemo[f] = P.reach(f)[f]
		}
	}
	return P.recMemo[fn]
}
func (P *Program) selfRecursive(fn *ssa.Function) bool { return P.recursive(fn) }

// modSet: fields of the schema structure that compilation may write on an existing object.
func (P *Program) modSet() map[int]bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.modMemo != nil {
		return P.modMemo
	}
	r := map[int]bool{}
	for _, f := range P.funcs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !isPtrToNamed(fa.X.Type(), P.tSub) {
					continue
				}
				if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
					// initialisation of a fresh object; stores after a call still count below
					continue
				}
				if P.addrWritten(fa, 0) && !strings.HasPrefix(f.Name(), "SetRootSchemaName") {
					r[fa.Field] = true
				}
			}
		}
	}
	P.modMemo = r
	return r
}

func (P *Program) addrWritten(v ssa.Value, d int) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if P.addrWritten(x, d+1) {
				return true
			}
		case *ssa.Call:
			return true
		case *ssa.MapUpdate:
			return true
		}
	}
	return false
}

// runInit interprets the package initialiser to obtain the initial globals.
func (P *Program) runInit() {
	P.baseHeap = map[int]*Obj{}
	in := P.newInterp()
	in.initMode = true
	in.base = map[int]*Obj{}
	in.nextID = 0
	st := &State{heap: map[int]*Obj{}, facts: map[*Term]uint32{}}
	var gs []*ssa.Global
	for _, m := range P.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		p := in.alloc(st, &Obj{Kind: oCell, T: t, V: in.zero(t), Site: "global " + g.Name()})
		P.globals[g] = p.O
		P.globalList = append(P.globalList, p.O)
	}
	in.globalIDs = P.globalList
	in.enter(st, P.pkg.Func("init"), nil, nil)
	ex := in.run(st)
	P.initUndec = in.Undec
	P.initPanics = in.Panics
	if len(ex) == 1 {
		P.initOK = true
		P.baseHeap = ex[0].heap
		P.initFacts = ex[0].facts
	} else {
		P.baseHeap = st.heap
	}
	P.initTT = in.tt
	P.baseNext = in.nextID
}
