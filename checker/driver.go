package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var started = time.Now()

// Check decides one property.
type Check struct {
	id    string
	jobs  func(tier string) []Job
	extra []func(P *Program, r *Report)
	rule  string
}

var checks = map[string]*Check{}

func familyJobs(id string) func(tier string) []Job {
	return func(tier string) []Job {
		var js []Job
		add := func(xs []Job) {
			for _, j := range xs {
				if j.about(id) {
					js = append(js, j)
				}
			}
		}
		add(singles(allDrafts))
		ds := []string{"Draft7", "Hybrid"}
		if tier == "thorough" {
			ds = allDrafts
		}
		add(groups(allDrafts))
		add(pairs(ds, nil))
		if id == "C07" {
			js = append(js, typeLists(ds)...)
		}
		return js
	}
}

func allJobs(tier string) []Job {
	ds := []string{"Draft7"}
	if tier == "thorough" {
		ds = allDrafts
	}
	js := append(singles(allDrafts), groups(allDrafts)...)
	js = append(js, typeLists(ds)...)
	return append(js, pairs(ds, nil)...)
}

func draftJobs(tier string) []Job {
	spec := func(k *KW) bool {
		return len(k.drafts) > 0 || strings.HasPrefix(k.name, "exclusive") || k.name == rootKW
	}
	var js []Job
	for _, d := range allDrafts {
		for _, k := range kwOrder {
			if !spec(kws[k]) {
				continue
			}
			for _, v := range kws[k].variants() {
				js = append(js, kwJob(false, d, k+"/"+v))
			}
		}
	}
	js = append(js, pairs(allDrafts, func(a, b *KW) bool {
		return spec(a) && spec(b) || spec(a) && tier == "thorough" || spec(b) && tier == "thorough"
	})...)
	for _, d := range allDrafts {
		js = append(js, kwJob(true, d, "minimum", "exclusiveMinimum"), kwJob(true, d, "maximum", "exclusiveMaximum"), kwJob(true, d, "if", "then", "else"))
	}
	return js
}

func regCheck(c *Check) { checks[c.id] = c }

const semRule = "path-sensitive abstract interpretation of Compile and Validate over the SSA form of the current source, for a symbolic schema with the given keywords and a symbolic document; at every exit the set of reported errors is compared with the keyword specification under the facts established on that path"

func init() {
	regCheck(&Check{id: "C08", jobs: func(tier string) []Job {
		var js []Job
		for _, j := range refJobs() {
			if j.about("C08") {
				js = append(js, j)
			}
		}
		return append(js, familyJobs("C08")(tier)...)
	}, rule: semRule + "; $ref on given reference structures with symbolic leaf schemas"})
	regCheck(&Check{id: "C12", jobs: func(tier string) []Job {
		return append(append(entryJobs(), valueJobs()...), append(refJobs(), allJobs(tier)...)...)
	}, rule: semRule + "; every dereference, type assertion, index and map write on a path is an obligation"})
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07"} {
		regCheck(&Check{id: id, jobs: familyJobs(id), rule: semRule})
	}
	regCheck(&Check{id: "C18", jobs: func(tier string) []Job { return append(formatJobs(), familyJobs("C18")(tier)...) }, rule: semRule})
	regCheck(&Check{id: "C13", jobs: allJobs, rule: semRule})
	regCheck(&Check{id: "C09", jobs: func(tier string) []Job { return append(append(messageJobs(), localeJobs()...), allJobs(tier)...) }, rule: semRule + "; rendering of templates, the string form of errors and AddError are interpreted on symbolic formats, details and values, and every error again with a symbolic locale"})
	regCheck(&Check{id: "C23", jobs: func(tier string) []Job { return entryJobs() }, rule: "path-sensitive abstract interpretation of Validate, NewSchema and Schema.Validate on given skeletons with symbolic leaf schemas and loaders that may fail; at every exit the error, the draft and the verdict are compared with those of the schema and the failures on that path"})
	regCheck(&Check{id: "C24", jobs: allJobs, rule: semRule + "; each expected error must occur exactly once, and of three alternatives that all fail exactly one must be quoted, one that the comparisons of the path establish to have the highest score"})
	regCheck(&Check{id: "C10", jobs: func(tier string) []Job { return append(renderJobs(), allJobs(tier)...) }, rule: semRule + "; contexts of up to five components with symbolic names and delimiter are rendered symbolically"})
	regCheck(&Check{id: "C19", jobs: func(tier string) []Job { return append(purityJobs(), allJobs(tier)...) }, rule: "effect analysis along every path of the abstract interpretation of Validate (symbolic schema and document): no store, map update, deletion or element assignment may reach an object that existed when validation began (compiled schema, loader, package state) or the document, except package state written under a lock; the same for every accessor of errors, results and contexts on a symbolic receiver"})
	regCheck(&Check{id: "C11", jobs: func(tier string) []Job {
		return append(append(concJobs(), purityJobs()...), append(singles([]string{"Draft7"}), groups([]string{"Draft7"})...)...)
	}, rule: "lockset analysis: package variables written after initialisation are found by tracing every store, map update and mutating library call to its root; from every function that touches one and can be entered without a lock all paths are interpreted, recording each access with the locks held; every write must share a lock, held exclusively, with every other access; locks are released at every exit, never re-acquired, acquired in one order, and no interface method of the package (user code) or template execution happens under one"})
	regCheck(&Check{id: "C17", jobs: func(string) []Job { return loaderJobs() }, rule: "path-sensitive abstract interpretation of every loader's LoadJSON (and of the loaders its factory makes) on symbolic sources; open/read/close of files and response bodies is a typestate tracked along every path, every failure of a library call is a branch, and at each exit the returned error and the term that was decoded are compared with the specification"})
	regCheck(&Check{id: "C20", jobs: func(string) []Job { return tableJobs() }, rule: "the table of drafts is read off the abstract interpretation of the package initialiser; loading each meta-schema URL is interpreted to its exits (no file or network use may occur on any) and the constant decoded is compared with the official meta-schema; lookups are interpreted on a symbolic URL"})
	regCheck(&Check{id: "C14", jobs: func(tier string) []Job {
		return append(append(configJobs("C14"), refDraftJobs()...), draftJobs(tier)...)
	}, rule: semRule})
	regCheck(&Check{id: "C15", jobs: func(tier string) []Job { return append(refJobs(), entryJobs()...) }, rule: "path-sensitive abstract interpretation of AddSchema, AddSchemas, Compile and Validate on schemas whose identifiers, references and nesting are given and whose leaf subschemas are symbolic; at every exit the verdict must be that of the leaf the reference denotes, or the error the specification requires"})
	regCheck(&Check{id: "C16", jobs: func(string) []Job { return configJobs("") }, rule: "path-sensitive abstract interpretation of Compile, AddSchema and AddSchemas for every combination of settings and for absent, arbitrary and known $schema values; compiling and applying the meta-schema are summarised by their possible outcomes; at every exit (including failing ones) the settings, the pool and the verdict are compared with the specification"})
}

// Finding: a known defect, listed in known-findings.txt as "known: property=<id> key=<key> <text>".
func knownFindings(dir string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			m[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return m
}

func runCheck(P *Program, id string) int {
	c := checks[id]
	if c == nil {
		fmt.Println("no check for", id)
		return 2
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := newReport()
	r.id = id
	r.deadline = started.Add(400 * time.Second)
	if tier == "thorough" {
		r.deadline = started.Add(780 * time.Second)
	}
	var js []Job
	if c.jobs != nil {
		js = c.jobs(tier)
	}
	// the same analysis may be listed twice
	seen := map[string]bool{}
	var us []Job
	for _, j := range js {
		if f := os.Getenv("CHK_ONLY"); f != "" && !strings.Contains(j.Name, f) {
			continue
		}
		if !seen[j.Name] {
			seen[j.Name] = true
			us = append(us, j)
		}
	}
	if !P.initOK {
		for k, v := range P.initUndec {
			r.undec("package initialisation: "+k, v)
		}
	}
	runJobs(P, r, us, false)
	for _, f := range c.extra {
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.undec("analyser", fmt.Sprint(e))
				}
			}()
			f(P, r)
		}()
	}
	var vs []Viol
	known := knownFindings(dir)
	kn := 0
	for _, v := range r.Viols {
		if !v.has(id) {
			continue
		}
		if v.Key != "" {
			if t, ok := known[id+" "+v.Key]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, t)
				kn++
				continue
			}
		}
		vs = append(vs, v)
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Scen < vs[j].Scen })
	replay := filepath.Join(dir, "evidence", "replay", id+".txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	if len(vs) > 0 {
		var b strings.Builder
		for _, v := range vs {
			fmt.Fprintf(&b, "property %s\nscenario %s\nfinding  %s\npath     %s\n\n", id, v.Scen, v.What, v.Facts)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
	} else {
		os.Remove(replay)
	}
	r.evidence(dir, c, tier, seed, us, vs)
	for i, v := range vs {
		if i == 5 {
			fmt.Printf("... %d more in %s\n", len(vs)-5, replay)
			break
		}
		fmt.Printf("%s: %s\n    %s\n", v.Scen, v.What, cut(v.Facts, 600))
	}
	if len(vs) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("%s: %d scenarios, %d obligations, %d undecided, %d not reached, %d known findings, %.1fs\n", id, r.Scens, r.Oblig, len(r.Undec), len(r.Skipped), kn, time.Since(started).Seconds())
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (v Viol) has(id string) bool {
	for _, p := range v.Props {
		if p == id {
			return true
		}
	}
	return false
}

func (r *Report) evidence(dir string, c *Check, tier string, seed int, js []Job, vs []Viol) {
	var fns, ext, und, names []string
	for f := range r.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for f := range r.Ext {
		ext = append(ext, f)
	}
	sort.Strings(ext)
	for k, v := range r.Undec {
		und = append(und, cut(k+" :: "+v, 500))
	}
	sort.Strings(und)
	for i, j := range js {
		if i%(len(js)/12+1) == 0 {
			names = append(names, j.Name)
		}
	}
	cov := map[string]interface{}{
		"explanation":         c.rule,
		"scenario_jobs":       len(js),
		"layouts_analysed":    r.Scens,
		"abstract_states":     r.States,
		"instructions":        r.Steps,
		"validation_exits":    r.Exits,
		"obligations":         r.Oblig,
		"discharged":          r.Oblig - len(und) - len(vs),
		"undecided":           und,
		"not_reached":         r.Skipped,
		"functions_analysed":  fns,
		"library_models_used": ext,
		"outcomes":            r.Covers,
		"samples":             append(names, r.Notes...),
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{
			"library functions behave as their models in checker/models.go (encoding/json, math/big, regexp, reflect, strings, net/url, text/template)",
			"documents and schemas are JSON values as produced by the loaders (nil, bool, json.Number, string, []interface{}, map[string]interface{})",
			"undecided obligations, listed in coverage, are not claimed",
		},
		"wall_s": time.Since(started).Seconds(), "violations": len(vs),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", c.id+".json"), b, 0o644)
}
