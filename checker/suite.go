package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Job: one scenario of the suite.
type Job struct {
	Name  string
	Props []string
	Run   func(P *Program, r *Report)
}

func (k *KW) variants() []string { return k.order }

func (k *KW) pairVariants() []string {
	switch k.name {
	case "type":
		return []string{"string"}
	case "dependencies":
		return []string{"empty", "i"}
	case "uniqueItems":
		return []string{"empty", "ij"}
	}
	var r []string
	for _, v := range k.order {
		if v != "three" && v != "two" {
			r = append(r, v)
		}
	}
	return r
}

// kwJob: keywords with variants under a draft.
func kwJob(tight bool, draft string, kv ...string) Job {
	var keys []string
	opts := map[string]string{}
	props := map[string]bool{}
	for _, x := range kv {
		k := x
		if j := strings.Index(x, "/"); j >= 0 {
			k = x[:j]
			opts[k] = x[j+1:]
		}
		keys = append(keys, k)
		props[kws[k].prop] = true
	}
	var ps []string
	for p := range props {
		ps = append(ps, p)
	}
	name := draft + " " + strings.Join(kv, " ")
	if tight {
		name += " (small)"
	}
	return Job{name, ps, func(P *Program, r *Report) {
		runScen(P, r, func() *Scen {
			s := buildScen(P, draft, append([]string(nil), keys...), opts)
			s.in.tight = tight
			s.in.panicProps, s.in.compileC13 = ps, true
			s.in.trackScore = len(keys) == 1 && opts[keys[0]] == "three" && !P.moreInts
			s.in.deadline = time.Now().Add(60 * time.Second)
			return s
		})
	}}
}

func singles(drafts []string) []Job {
	var js []Job
	for _, d := range drafts {
		for _, k := range kwOrder {
			for _, v := range kws[k].variants() {
				js = append(js, kwJob(false, d, k+"/"+v))
			}
		}
	}
	return js
}

func pairs(drafts []string, want func(a, b *KW) bool) []Job {
	var js []Job
	for _, d := range drafts {
		for i, a := range kwOrder {
			for _, b := range kwOrder[i+1:] {
				if a == rootKW || b == rootKW || want != nil && !want(kws[a], kws[b]) {
					continue
				}
				for _, v := range kws[a].pairVariants() {
					for _, w := range kws[b].pairVariants() {
						js = append(js, kwJob(true, d, a+"/"+v, b+"/"+w))
					}
				}
			}
		}
	}
	return js
}

// groups: keywords that are specified together.
func groups(drafts []string) []Job {
	var js []Job
	for _, d := range drafts {
		js = append(js, kwJob(true, d, "properties/q", "patternProperties/r", "additionalProperties/q"))
		js = append(js, kwJob(false, d, "properties/two", "additionalProperties/two"))
		js = append(js, kwJob(false, d, "patternProperties/two", "additionalProperties/two"))
		js = append(js, kwJob(true, d, "properties/q", "patternProperties/rT", "additionalProperties/q"))
		js = append(js, kwJob(true, d, "properties/q", "patternProperties/empty", "additionalProperties/q"))
		js = append(js, kwJob(false, d, "properties/q", "additionalProperties/q"))
		js = append(js, kwJob(true, d, "patternProperties/r", "additionalProperties/q"))
		js = append(js, kwJob(false, d, "items/j", "additionalItems"))
		js = append(js, kwJob(false, d, "items/three", "additionalItems"))
		js = append(js, kwJob(true, d, "if", "then", "else"))
		js = append(js, kwJob(true, d, "minimum", "exclusiveMinimum", "maximum"))
		js = append(js, kwJob(true, d, "minimum", "maximum", "exclusiveMaximum"))
		js = append(js, kwJob(true, d, "exclusiveMinimum", "exclusiveMaximum", "multipleOf"))
		js = append(js, kwJob(true, d, "minLength", "maxLength", "pattern"))
		js = append(js, kwJob(true, d, "required/k", "minProperties", "maxProperties"))
		js = append(js, kwJob(true, d, "properties/q", "required/k", "dependencies/i"))
		js = append(js, kwJob(true, d, "const", "enum/k", "type/string"))
		js = append(js, kwJob(true, d, "anyOf/k", "allOf/k", "not"))
		js = append(js, kwJob(true, d, "oneOf/k", "allOf/k", "not"))
		js = append(js, kwJob(true, d, "minItems", "maxItems", "contains/k"))
	}
	return js
}

// localeJobs: every keyword once with a locale of the user's.
func localeJobs() []Job {
	var js []Job
	add := func(keys []string, opts map[string]string) {
		name := "Draft7"
		for _, k := range keys {
			name += " " + k + "/" + opts[k]
		}
		js = append(js, Job{name + " (locale)", []string{"C09"}, func(P *Program, r *Report) {
			runScen(P, r, func() *Scen {
				s := buildScen(P, "Draft7", append([]string(nil), keys...), opts)
				s.in.tight = true
				s.symLoc = true
				s.in.deadline = time.Now().Add(60 * time.Second)
				return s
			})
		}})
	}
	for _, k := range kwOrder {
		for _, v := range kws[k].variants() {
			add([]string{k}, map[string]string{k: v})
		}
	}
	add([]string{"if", "then", "else"}, nil)
	add([]string{"items", "additionalItems"}, map[string]string{"items": "j"})
	return js
}

func typeLists(drafts []string) []Job {
	var js []Job
	for _, d := range drafts {
		for _, v := range kws["type"].lists {
			js = append(js, kwJob(false, d, "type/"+v))
		}
	}
	return js
}

func (j Job) about(p string) bool {
	for _, x := range j.Props {
		if x == p {
			return true
		}
	}
	return false
}

func runJobs(P *Program, r *Report, js []Job, verbose bool) {
	var wg sync.WaitGroup
	ch := make(chan Job)
	var mu sync.Mutex
	for i := 0; i < runtime.GOMAXPROCS(0); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if r.done() {
					r.skipped(j.Name)
					continue
				}
				t := time.Now()
				func() {
					defer func() {
						if e := recover(); e != nil {
							r.mu.Lock()
							r.Undec["analyser"] = fmt.Sprint(j.Name, ": ", e, " ", string(debug.Stack()))
							r.mu.Unlock()
							if verbose {
								mu.Lock()
								fmt.Println("CRASH", j.Name, e)
								mu.Unlock()
							}
						}
					}()
					j.Run(P, r)
				}()
				if verbose {
					if d := time.Since(t); d > 2*time.Second {
						mu.Lock()
						fmt.Println("slow", j.Name, d)
						mu.Unlock()
					}
				}
			}
		}()
	}
	for _, j := range js {
		ch <- j
	}
	close(ch)
	wg.Wait()
}
