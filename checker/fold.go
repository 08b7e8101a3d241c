package main

import (
	"net/url"
	"path"
	"strings"
)

// fold: library functions on strings whose arguments are all constants.
func (in *Interp) fold(name string, args []Val) Val {
	s := make([]string, len(args))
	n := make([]int64, len(args))
	for i, a := range args {
		if x, ok := constStr(a); ok {
			s[i] = x
		} else if t, ok := a.(*Term); ok && t.cv != nil {
			x, ok := termStr(t)
			if !ok {
				return nil
			}
			s[i] = x
		} else if x, ok := constInt(a); ok {
			n[i] = x
		} else {
			return nil
		}
	}
	str2 := map[string]func(a, b string) string{"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight}
	str1 := map[string]func(a string) string{"strings.TrimSpace": strings.TrimSpace, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.Ext": path.Ext, "net/url.PathEscape": url.PathEscape, "net/url.QueryEscape": url.QueryEscape}
	bool2 := map[string]func(a, b string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.EqualFold": strings.EqualFold}
	int2 := map[string]func(a, b string) int{"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexAny": strings.IndexAny, "strings.Count": strings.Count, "strings.Compare": strings.Compare}
	switch len(args) {
	case 1:
		if f := str1[name]; f != nil {
			return vstr(f(s[0]))
		}
		if f := map[string]func(a string) (string, error){"net/url.QueryUnescape": url.QueryUnescape, "net/url.PathUnescape": url.PathUnescape}[name]; f != nil {
			if x, err := f(s[0]); err == nil {
				return VTuple{[]Val{vstr(x), VNil{}}}
			}
		}
	case 2:
		if f := str2[name]; f != nil {
			return vstr(f(s[0], s[1]))
		}
		if f := bool2[name]; f != nil {
			return vbool(f(s[0], s[1]))
		}
		if f := int2[name]; f != nil {
			return vint(int64(f(s[0], s[1])))
		}
		switch name {
		case "strings.IndexByte":
			return vint(int64(strings.IndexByte(s[0], byte(n[1]))))
		case "strings.LastIndexByte":
			return vint(int64(strings.LastIndexByte(s[0], byte(n[1]))))
		case "strings.ContainsRune":
			return vbool(strings.ContainsRune(s[0], rune(n[1])))
		case "strings.Split":
			return strList(strings.Split(s[0], s[1]))
		}
	case 3:
		switch name {
		case "strings.ReplaceAll":
			return vstr(strings.ReplaceAll(s[0], s[1], s[2]))
		case "strings.SplitN":
			return strList(strings.SplitN(s[0], s[1], int(n[2])))
		}
	case 4:
		if name == "strings.Replace" {
			return vstr(strings.Replace(s[0], s[1], s[2], int(n[3])))
		}
	}
	return nil
}

func strList(xs []string) Val {
	l := &VList{}
	for _, x := range xs {
		l.Items = append(l.Items, vstr(x))
	}
	return l
}

// groundRet: an uninterpreted result of library functions on known arguments; what it is was merely not computed.
func groundRet(t *Term) bool {
	if t.ground == 0 {
		t.ground = 1
		if ret, all := groundScan(t); ret && all {
			t.ground = 2
		}
	}
	return t.ground == 2
}

func groundScan(t *Term) (ret, all bool) {
	if t.Op == "const" || t.cv != nil {
		return false, true
	}
	ret = t.Op == "ret" || t.Op == "fails"
	if len(t.Args) == 0 {
		return ret, false
	}
	all = true
	for _, a := range t.Args {
		r, ok := groundScan(a)
		ret = ret || r
		all = all && ok
	}
	return
}
