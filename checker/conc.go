package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- which functions touch package state that changes after initialisation ----

type sharing struct {
	P      *Program
	funcs  []*ssa.Function
	params map[*ssa.Parameter]map[*ssa.Global]bool // package variables whose address or contents a parameter may be
	mut    map[*ssa.Global]string                  // written after initialisation, and where
	touch  map[*ssa.Function]map[*ssa.Global]bool
	caller map[*ssa.Function][]ssa.CallInstruction
	taken  map[*ssa.Function]bool
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// refType: a value of this type shares what it refers to.
func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Struct:
		return true
	}
	return false
}

func (s *sharing) roots(v ssa.Value, seen map[ssa.Value]bool, out map[*ssa.Global]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg == s.P.pkg {
			out[x] = true
		}
	case *ssa.Parameter:
		for g := range s.params[x] {
			out[g] = true
		}
	case *ssa.FieldAddr:
		s.roots(x.X, seen, out)
	case *ssa.IndexAddr:
		s.roots(x.X, seen, out)
	case *ssa.Field:
		s.roots(x.X, seen, out)
	case *ssa.UnOp:
		if x.Op == token.MUL && refType(x.Type()) {
			s.roots(x.X, seen, out)
		}
	case *ssa.Slice:
		s.roots(x.X, seen, out)
	case *ssa.ChangeType:
		s.roots(x.X, seen, out)
	case *ssa.ChangeInterface:
		s.roots(x.X, seen, out)
	case *ssa.MakeInterface:
		s.roots(x.X, seen, out)
	case *ssa.TypeAssert:
		s.roots(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.roots(e, seen, out)
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
						s.roots(mc.Bindings[i], seen, out)
					}
				}
			}
		}
	case *ssa.Call:
		// a method that returns its receiver, or a known accessor of shared contents
		if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) > 0 {
			if len(g.Blocks) == 0 && mutatingExt(g) || g.Name() == "Lookup" && strings.Contains(g.String(), "template") {
				s.roots(x.Call.Args[0], seen, out)
			}
		}
	}
}

func mutatingExt(g *ssa.Function) bool {
	n := g.String()
	if strings.HasPrefix(n, "(*text/template.Template).") {
		switch g.Name() {
		case "New", "Parse", "AddParseTree", "Funcs", "Delims", "Option", "ParseFiles", "ParseGlob":
			return true
		}
	}
	for _, p := range []string{"(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*container/list.List).", "(*math/rand.Rand)."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func analyseSharing(P *Program) *sharing {
	s := &sharing{P: P, params: map[*ssa.Parameter]map[*ssa.Global]bool{}, mut: map[*ssa.Global]string{}, touch: map[*ssa.Function]map[*ssa.Global]bool{}, caller: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	for _, f := range P.funcs() {
		if !isInit(f) && len(f.Blocks) > 0 {
			s.funcs = append(s.funcs, f)
		}
	}
	root := func(v ssa.Value) map[*ssa.Global]bool {
		o := map[*ssa.Global]bool{}
		s.roots(v, map[ssa.Value]bool{}, o)
		return o
	}
	each := func(f func(fn *ssa.Function, ins ssa.Instruction)) {
		for _, fn := range s.funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					f(fn, ins)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		each(func(fn *ssa.Function, ins ssa.Instruction) {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := c.Common().StaticCallee()
			if g == nil || len(g.Blocks) == 0 {
				return
			}
			for i, a := range c.Common().Args {
				if i >= len(g.Params) || !refType(a.Type()) {
					continue
				}
				for gl := range root(a) {
					m := s.params[g.Params[i]]
					if m == nil {
						m = map[*ssa.Global]bool{}
						s.params[g.Params[i]] = m
					}
					if !m[gl] {
						m[gl] = true
						ch = true
					}
				}
			}
		})
		// methods of a package variable's type can be applied to it by any user
		for _, fn := range s.funcs {
			r := fn.Signature.Recv()
			if r == nil || len(fn.Params) == 0 {
				continue
			}
			for _, m := range P.pkg.Members {
				gl, ok := m.(*ssa.Global)
				if !ok || gl.Object() == nil || !gl.Object().Exported() {
					continue
				}
				if types.Identical(r.Type(), gl.Type()) || types.Identical(r.Type(), gl.Type().(*types.Pointer).Elem()) {
					pm := s.params[fn.Params[0]]
					if pm == nil {
						pm = map[*ssa.Global]bool{}
						s.params[fn.Params[0]] = pm
					}
					if !pm[gl] {
						pm[gl] = true
						ch = true
					}
				}
			}
		}
	}
	write := func(fn *ssa.Function, ins ssa.Instruction, v ssa.Value) {
		for g := range root(v) {
			if s.mut[g] == "" {
				s.mut[g] = fn.String()
			}
		}
	}
	each(func(fn *ssa.Function, ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Store:
			write(fn, ins, x.Addr)
		case *ssa.MapUpdate:
			write(fn, ins, x.Map)
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
				write(fn, ins, cc.Args[0])
			}
			if g := cc.StaticCallee(); g != nil {
				if len(g.Blocks) == 0 && mutatingExt(g) && len(cc.Args) > 0 {
					write(fn, ins, cc.Args[0])
				}
				s.caller[g] = append(s.caller[g], x)
			}
		}
	})
	each(func(fn *ssa.Function, ins ssa.Instruction) {
		var ops []*ssa.Value
		for _, o := range ins.Operands(ops) {
			if *o == nil {
				continue
			}
			if f, ok := (*o).(*ssa.Function); ok {
				if c, ok := ins.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(f) {
					s.taken[f] = true
				}
			}
		}
		var at ssa.Value
		switch x := ins.(type) {
		case *ssa.Store:
			at = x.Addr
		case *ssa.MapUpdate:
			at = x.Map
		case *ssa.UnOp:
			if x.Op == token.MUL {
				at = x.X
			}
		case *ssa.Lookup:
			at = x.X
		case *ssa.Range:
			at = x.X
		case ssa.CallInstruction:
			if len(x.Common().Args) > 0 {
				at = x.Common().Args[0]
			}
			if g := x.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 {
				at = nil
			}
		}
		if at == nil {
			return
		}
		for g := range root(at) {
			if s.mut[g] != "" {
				if s.touch[fn] == nil {
					s.touch[fn] = map[*ssa.Global]bool{}
				}
				s.touch[fn][g] = true
			}
		}
	})
	return s
}

func isLockCall(c *ssa.CallCommon) (string, bool) {
	g := c.StaticCallee()
	if g == nil || !strings.HasPrefix(g.String(), "(*sync.") {
		return "", false
	}
	switch g.Name() {
	case "Lock", "RLock", "Unlock", "RUnlock":
		return g.Name(), true
	}
	return "", false
}

// heldAt: how many locks are surely held at each call of a function, by counting on every path to it (minimum).
func minHeld(fn *ssa.Function) map[ssa.Instruction]int {
	in := make([]int, len(fn.Blocks))
	for i := range in {
		in[i] = -1
	}
	r := map[ssa.Instruction]int{}
	in[0] = 0
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			n := in[b.Index]
			if n < 0 {
				continue
			}
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if ok {
					if op, ok := isLockCall(c.Common()); ok {
						if strings.HasSuffix(op, "Unlock") {
							if n > 0 {
								n--
							}
						} else {
							n++
						}
					}
				}
				if _, ok := ins.(ssa.CallInstruction); ok {
					r[ins] = n
				}
			}
			for _, t := range b.Succs {
				if in[t.Index] < 0 || n < in[t.Index] {
					in[t.Index] = n
					ch = true
				}
			}
		}
	}
	return r
}

// unlocked: the functions that may be entered without any lock of their callers.
func (s *sharing) unlocked() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	held := map[*ssa.Function]map[ssa.Instruction]int{}
	for _, f := range s.funcs {
		held[f] = minHeld(f)
		if f.Parent() != nil {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if exported || s.taken[f] || len(s.caller[f]) == 0 {
			r[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range s.funcs {
			if r[f] || f.Parent() != nil {
				continue
			}
			for _, c := range s.caller[f] {
				p := c.Parent()
				if p.Parent() != nil {
					continue // called from a closure: analysed with it
				}
				if r[p] && held[p][c] == 0 {
					r[f] = true
					ch = true
				}
			}
		}
	}
	return r
}

// entries: where the analysis of shared accesses starts.
func (s *sharing) entries() []*ssa.Function {
	un := s.unlocked()
	res := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			up(f.Parent())
			return
		}
		if un[f] {
			res[f] = true
			return
		}
		for _, c := range s.caller[f] {
			up(c.Parent())
		}
	}
	for f := range s.touch {
		up(f)
	}
	// and every function that takes a lock
	for _, f := range s.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if _, ok := isLockCall(c.Common()); ok {
						up(f)
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range res {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// ---- accesses along every path of the entries ----

type access struct {
	key   string
	obj   string
	write bool
	locks string
	where string
	facts string
}

func concJobs() []Job {
	return []Job{{"shared state", []string{"C11"}, func(P *Program, r *Report) {
		sh := analyseSharing(P)
		acc := map[string]access{}
		order := map[string]map[string]string{} // held -> acquired -> where
		props := []string{"C11"}
		names := func(st *State) map[int]string {
			m := map[int]string{}
			for g, o := range P.globals {
				m[o] = g.Name()
			}
			return m
		}
		var gl []string
		for g, w := range sh.mut {
			gl = append(gl, fmt.Sprintf("package variable %s changes after initialisation (in %s)", g.Name(), w))
		}
		sort.Strings(gl)
		r.mu.Lock()
		r.Notes = append(r.Notes, gl...)
		r.mu.Unlock()
		for _, fn := range sh.entries() {
			u := newUnit(P, r, "accesses of "+fn.RelString(P.pkg.Pkg), props...)
			in := u.in
			in.deadline = time.Now().Add(20 * time.Second)
			in.maxState = 8000
			in.noOpaque = true
			gnames := names(nil)
			note := func(st *State, key, obj string, write bool) {
				a := access{key: key, obj: obj, write: write, locks: strings.Join(lockSet(st), " "), where: in.insPos(st)}
				k := fmt.Sprint(a.key, a.write, a.locks, a.where)
				if _, ok := acc[k]; !ok {
					a.facts = in.describe(st)
					acc[k] = a
				}
			}
			in.onAccess = func(st *State, v Val, write bool) {
				p, ok := v.(VPtr)
				if !ok || p.O > P.baseNext {
					return
				}
				n, ok := gnames[p.O]
				if !ok {
					n = "an object of package state"
					for o, g := range gnames {
						if b := P.baseHeap[o]; b != nil && b.V != nil && holds(b.V, p.O) {
							n = "the contents of " + g
						}
					}
				}
				note(st, fmt.Sprint(p.O, p.Path), n, write)
			}
			in.onCall = func(st *State, g *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, bool) {
				if strings.HasPrefix(g.String(), "(*text/template.Template).") && len(args) > 0 {
					if strings.HasPrefix(g.Name(), "Execute") {
						if len(st.locks) > 0 {
							u.viol("a message template is executed (template functions are user code) while a lock is held, at "+in.insPos(st), st)
						}
						return nil, false
					}
					if t, ok := args[0].(*Term); ok && P.sharedTpl(t) {
						note(st, "template", "the message templates", mutatingExt(g))
					}
				}
				return nil, false
			}
			in.onDyn = func(st *State, cc *ssa.CallCommon) {
				if len(st.locks) == 0 {
					return
				}
				if cc.IsInvoke() {
					n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
					if !ok || n.Obj().Pkg() != P.pkg.Pkg {
						return
					}
					u.viol(fmt.Sprintf("%s.%s (user code) is called while a lock is held, at %s", n.Obj().Name(), cc.Method.Name(), in.insPos(st)), st)
				}
			}
			in.onLock = func(st *State, op, name string) {
				if strings.HasSuffix(op, "Unlock") {
					return
				}
				for _, h := range st.locks {
					if h[1:] == name && (op == "Lock" || h[0] == 'L') {
						u.viol("a lock is acquired again while it is held, at "+in.insPos(st), st)
						continue
					}
					if h[1:] == name {
						u.viol("a read lock is acquired again while it is held (a waiting writer blocks both), at "+in.insPos(st), st)
						continue
					}
					if order[h[1:]] == nil {
						order[h[1:]] = map[string]string{}
					}
					order[h[1:]][name] = in.insPos(st)
				}
			}
			st := in.newState()
			var args []Val
			for _, p := range fn.Params {
				var v Val = in.sym("arg_" + p.Name())
				for g := range sh.params[p] {
					if types.Identical(p.Type(), g.Type()) {
						v = VPtr{O: P.globals[g]}
					} else if o := st.heap[P.globals[g]]; o != nil && types.Identical(p.Type(), g.Type().(*types.Pointer).Elem()) && o.V != nil {
						v = o.V
					}
				}
				args = append(args, v)
			}
			recv := ""
			if len(args) > 0 {
				if t, ok := args[0].(*Term); ok && fn.Signature.Recv() != nil {
					recv = t.Lit
					in.defMask = func(a *Term) (uint32, bool) {
						if a.Op == "isnil" && a.Args[0].Op == "sym" && a.Args[0].Lit == recv {
							return bF, true
						}
						return 0, false
					}
				}
			}
			for _, e := range u.call(st, fn, args...) {
				r.oblig(1)
				if len(e.locks) > 0 {
					u.viol(fmt.Sprintf("%s returns with a lock held (%s)", fn.Name(), strings.Join(e.locks, ", ")), e)
				}
			}
			in.Panics = map[string]string{} // symbolic receivers: decided by C12
			u.finish()
		}
		// lock discipline
		var as []access
		for _, a := range acc {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool {
			if as[i].where != as[j].where {
				return as[i].where < as[j].where
			}
			return as[i].locks < as[j].locks
		})
		for _, w := range as {
			if !w.write {
				continue
			}
			for _, a := range as {
				if a.key != w.key && !strings.HasPrefix(a.key, w.key+"/") && !strings.HasPrefix(w.key, a.key+"/") {
					continue
				}
				r.oblig(1)
				if !guarded(w.locks, a.locks) {
					r.viol(props, "shared state", fmt.Sprintf("%s is written in %s under locks {%s} and accessed in %s under locks {%s}: no common lock held exclusively by the writer", w.obj, w.where, lockText(w.locks), a.where, lockText(a.locks)), a.facts)
				}
			}
		}
		for a, m := range order {
			for b, w := range m {
				if x, ok := order[b][a]; ok && a < b {
					r.viol(props, "shared state", "two locks are acquired in opposite orders at "+w+" and "+x, "")
				}
			}
		}
		r.mu.Lock()
		r.Notes = append(r.Notes, fmt.Sprintf("%d distinct accesses to package state", len(as)))
		r.mu.Unlock()
	}}}
}

func lockText(s string) string {
	n := strings.Fields(s)
	for i, x := range n {
		if x[0] == 'R' {
			n[i] = "read " + x[1:]
		} else {
			n[i] = "write " + x[1:]
		}
	}
	return strings.Join(n, ", ")
}

func guarded(w, a string) bool {
	for _, x := range strings.Fields(w) {
		if x[0] != 'L' {
			continue
		}
		for _, y := range strings.Fields(a) {
			if x[1:] == y[1:] {
				return true
			}
		}
	}
	return false
}

func lockSet(st *State) []string {
	l := append([]string(nil), st.locks...)
	sort.Strings(l)
	return l
}

func holds(v Val, o int) bool {
	switch x := v.(type) {
	case VPtr:
		return x.O == o
	case VStruct:
		for _, f := range x.F {
			if holds(f, o) {
				return true
			}
		}
	case *VList:
		for _, f := range x.Items {
			if holds(f, o) {
				return true
			}
		}
	case VIface:
		return holds(x.V, o)
	}
	return false
}

// sharedTpl: a template held in package state, or made from one.
func (P *Program) sharedTpl(t *Term) bool {
	for t.Op == "ret" && strings.HasPrefix(t.Lit, "(*text/template.Template).") && len(t.Args) > 0 || t.Op == "nn" && strings.HasPrefix(t.Lit, "(*text/template.Template).") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	if t.Op != "tpl" {
		return false
	}
	s := t.String()
	for _, o := range P.baseHeap {
		if o.V != nil && holdsTerm(o.V, s) {
			return true
		}
	}
	return false
}

func holdsTerm(v Val, s string) bool {
	switch x := v.(type) {
	case *Term:
		return x.String() == s
	case VStruct:
		for _, f := range x.F {
			if holdsTerm(f, s) {
				return true
			}
		}
	case VIface:
		return holdsTerm(x.V, s)
	}
	return false
}
