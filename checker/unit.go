package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit: the analysis of one function (or a short sequence of calls) on symbolic arguments.
type Unit struct {
	P     *Program
	in    *Interp
	r     *Report
	name  string
	props []string
}

func newUnit(P *Program, r *Report, name string, props ...string) *Unit {
	u := &Unit{P: P, in: P.newInterp(), r: r, name: name, props: props}
	u.in.deadline = time.Now().Add(60 * time.Second)
	u.in.panicProps = props
	return u
}

// unitJob wraps a unit analysis as a job of the suite.
func unitJob(name string, props []string, f func(u *Unit)) Job {
	return Job{name, props, func(P *Program, r *Report) {
		u := newUnit(P, r, name, props...)
		f(u)
		u.finish()
	}}
}

func (u *Unit) finish() {
	u.r.absorbIn(u.in, u.name)
}

// call runs fn on a copy of st and returns the states at its exits.
func (u *Unit) call(st *State, fn *ssa.Function, args ...Val) []*State {
	if fn == nil {
		u.in.Undec[u.name] = "function missing"
		return nil
	}
	n := st.clone()
	n.frames = nil
	delete(n.notes, "ret")
	var ex []*State
	func() {
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(undecided); ok {
					u.in.Undec[u.name+": "+x.msg] = ""
					return
				}
				panic(e)
			}
		}()
		u.in.enter(n, fn, args, nil)
		ex = u.in.run(n)
	}()
	return ex
}

// truths: the states in which v is true and false, with the answer.
func (u *Unit) truths(st *State, v Val) map[bool]*State {
	r := map[bool]*State{}
	switch x := v.(type) {
	case VC:
		if b, ok := constBool(x); ok {
			r[b] = st
		}
	case VFD:
		at := x.Atom
		for b, m := range map[bool]uint32{true: fdMask(x, true), false: fdMask(x, false)} {
			if k := u.in.maskOf(st, at, fdFull(x)) & m; k != 0 {
				n := st.clone()
				n.facts[at] = k
				r[b] = n
			}
		}
	case *Term:
		m := u.in.maskOf(st, x, bF|bT)
		for b, k := range map[bool]uint32{true: bT, false: bF} {
			if m&k != 0 {
				n := st.clone()
				n.facts[x] = k
				r[b] = n
			}
		}
	}
	return r
}

func fdFull(x VFD) uint32 { return 1<<uint(len(x.Vals)) - 1 }
func fdMask(x VFD, b bool) uint32 {
	var m uint32
	for i, v := range x.Vals {
		if v.Kind() == constant.Bool && constant.BoolVal(v) == b {
			m |= 1 << uint(i)
		}
	}
	return m
}

func (u *Unit) viol(what string, st *State) {
	facts := ""
	if st != nil {
		facts = u.in.describe(st)
	}
	u.r.viol(u.props, u.name, what, facts)
}

func (u *Unit) tru(st *State, a *Term) tri {
	switch u.in.maskOf(st, a, bF|bT) {
	case bT:
		return triT
	case bF:
		return triF
	}
	return triU
}

func (u *Unit) kind(st *State, n *Term, sub uint32) tri {
	m := u.in.kindsOf(st, n)
	if m&sub == 0 {
		return triF
	}
	if m&^sub == 0 {
		return triT
	}
	return triU
}

// opaque: an operation without a model that the path depends on.
func (u *Unit) opaque(st *State, plain func(string) bool) string {
	for a := range st.facts {
		if op := opaqueOpBy(a, plain); op != "" {
			return op
		}
	}
	return ""
}

func opaqueOpBy(t *Term, plain func(string) bool) string {
	switch t.Op {
	case "ret", "fails", "dyn", "nn":
		if !plain(t.Lit) {
			return t.Op + " " + t.Lit
		}
	}
	for _, a := range t.Args {
		if x := opaqueOpBy(a, plain); x != "" {
			return x
		}
	}
	return ""
}

// globalPtr: the address of a package variable.
func (u *Unit) globalPtr(name string) (VPtr, bool) {
	g, ok := u.P.pkg.Members[name].(*ssa.Global)
	if !ok {
		return VPtr{}, false
	}
	return VPtr{O: u.P.globals[g]}, true
}

func (u *Unit) named(name string) types.Type { return u.P.namedType(name) }

func (r *Report) absorbIn(in *Interp, title string) {
	r.mu.Lock()
	r.Scens++
	r.States += in.nStates
	r.Steps += in.nSteps
	for f := range in.fns {
		r.Fns[f.String()] = true
	}
	for k, v := range in.ext {
		r.Ext[k] += v
	}
	for k, v := range in.Undec {
		if _, ok := r.Undec[k]; !ok {
			r.Undec[k] = title + ": " + v
		}
	}
	r.mu.Unlock()
	for k, v := range in.Known {
		r.known(k, title, v)
	}
	for k, v := range in.Impure {
		r.viol([]string{"C19", "C11"}, title, "validation writes to its inputs: "+k, v)
	}
	for k, v := range in.Panics {
		ps := []string{"C12"}
		for _, p := range in.panicProps {
			if p != "C12" {
				ps = append(ps, p)
			}
		}
		if in.compiling[k] && in.compileC13 {
			ps = append(ps, "C13")
		}
		sort.Strings(ps)
		r.viol(ps, title, "possible panic: "+k, v)
	}
}

var _ = fmt.Sprint
var _ = strings.Join
