package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// one analysis of one entry point for one input type and configuration
type Job struct {
	Entry, Type string
	Nan         int
	Arch        string
	Mode        string // "", "shallow" (dispatch only), "reject" (input must be refused), "partial" (order not decided)
}

func (j Job) String() string {
	s := j.Entry
	if j.Type != "" {
		s += "(" + j.Type + ")"
	}
	switch {
	case j.Nan > 0:
		s += " NaNlarge"
	case j.Nan < 0:
		s += " NaNsmall"
	case strings.Contains(j.Type, "float"):
		s += " NaNignore"
	}
	if j.Mode != "" {
		s += " " + j.Mode
	}
	return s + " " + j.Arch
}

// finding: one construct that breaks a property
type Finding struct {
	Cat, Fn, Pos, Msg, Detail string
}

func (f Finding) key() string { return f.Cat + "|" + f.Fn + "|" + f.Msg }

// structural result
type StructRes struct {
	Bad      []Finding
	OK       int
	Analysed []string
	Rule     string
}

type propCheck struct {
	jobs   func(tier string) []Job
	cats   map[string]bool
	strct  []func(ps map[string]*Prog) *StructRes
	rule   string
	level  string
	assume []string
	// cats whose failures in a shared analysis do not concern this property
}

func cset(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

var (
	intTypes   = []string{"int", "int32", "int64", "uint", "uint32", "uint64", "uintptr"}
	floatTypes = []string{"float32", "float64"}
	otherTypes = []string{"string", "[]byte", "*int", "unsafe.Pointer"}
	badElems   = []string{"bool", "int8", "int16", "uint8", "uint16", "complex64", "complex128", "[4]int", "chan int", "func", "any", "map int", "struct", "[]int", "[]string", "[]struct", "[]int8", "[][]byte"}
	badTypes   = []string{"nil", "bad int", "bad string", "bad *int", "bad [4]int", "bad map int", "bad chan int", "bad func", "bad struct", "bad unsafe.Pointer", "bad uint64", "bad float64"}
	archs      = []string{"amd64", "386"}
)

func queryJobs(arch string) (js []Job) {
	for _, t := range append(append([]string{}, intTypes...), otherTypes...) {
		js = append(js, Job{"IsSortedSlice", "[]" + t, 0, arch, ""})
	}
	for _, t := range floatTypes {
		for _, n := range []int{1, -1, 0} {
			js = append(js, Job{"IsSortedSlice", "[]" + t, n, arch, ""})
		}
	}
	for _, t := range []string{"string", "[]byte", "[]int", "[]struct", "[]*int", "[][]int", "[]string"} {
		js = append(js, Job{"IsSortedLen", "[]" + t, 0, arch, ""})
	}
	js = append(js, Job{"IsSorted", "", 0, arch, ""})
	return
}

func searchJobs(arch string) []Job { return []Job{{"Search", "", 0, arch, ""}} }

func dispatchJobs(arch string) (js []Job) {
	for _, t := range append(append(append([]string{}, intTypes...), otherTypes...), floatTypes...) {
		js = append(js, Job{"SortSlice", "[]" + t, 0, arch, "shallow"}, Job{"SortSlice", "named []" + t, 0, arch, "shallow"},
			Job{"SortSlice", "[]named " + t, 0, arch, "shallow"}, Job{"IsSortedSlice", "[]named " + t, 0, arch, ""})
	}
	for _, t := range []string{"*string", "*struct", "*[]byte"} {
		js = append(js, Job{"SortSlice", "[]" + t, 0, arch, "shallow"}, Job{"IsSortedSlice", "[]" + t, 0, arch, ""})
	}
	js = append(js, Job{"SortSlice", "[][]named byte", 0, arch, "shallow"}, Job{"IsSortedSlice", "[][]named byte", 0, arch, ""})
	for _, t := range []string{"string", "named string", "[]byte", "[]int", "[]struct", "named []int", "[]*int", "[]string", "[][]int", "[]any", "[]float64", "[][4]int", "[]bool"} {
		js = append(js, Job{"SortLen", "[]" + t, 0, arch, "shallow"}, Job{"IsSortedLen", "[]" + t, 0, arch, ""})
	}
	return
}

func rejectJobs(arch string) (js []Job) {
	for _, t := range badElems {
		js = append(js, Job{"SortSlice", "[]" + t, 0, arch, "reject"}, Job{"IsSortedSlice", "[]" + t, 0, arch, "reject"})
		if !strings.HasPrefix(t, "[]") {
			js = append(js, Job{"SortLen", "[]" + t, 0, arch, "reject"}, Job{"IsSortedLen", "[]" + t, 0, arch, "reject"})
		}
	}
	for _, t := range append(append([]string{}, intTypes...), "float32", "float64", "*int", "unsafe.Pointer") {
		js = append(js, Job{"SortLen", "[]" + t, 0, arch, "reject"}, Job{"IsSortedLen", "[]" + t, 0, arch, "reject"})
	}
	for _, t := range badTypes {
		for _, f := range []string{"SortSlice", "IsSortedSlice", "SortLen", "IsSortedLen"} {
			js = append(js, Job{f, t, 0, arch, "reject"})
		}
	}
	return
}

func perArch(f ...func(string) []Job) func(string) []Job {
	return func(string) (js []Job) {
		for _, a := range archs {
			for _, g := range f {
				js = append(js, g(a)...)
			}
		}
		return
	}
}

// full analysis of the sorters: one representative per kernel and view; which type uses
// which kernel through which view is decided by the shallow jobs
func sliceJobs(arch, tier string, ts ...string) (js []Job) {
	for _, t := range ts {
		if strings.HasPrefix(t, "float") {
			for _, n := range []int{1, -1, 0} {
				js = append(js, Job{"SortSlice", "[]" + t, n, arch, ""})
			}
			continue
		}
		js = append(js, Job{"SortSlice", "[]" + t, 0, arch, ""})
	}
	return
}

var kernelTypes = []string{"int32", "int64", "uint32", "uint64", "string", "[]byte"}

func lenJobs(arch string) []Job {
	return []Job{{"SortLen", "[]string", 0, arch, ""}, {"SortLen", "[][]struct", 0, arch, ""}}
}

func shallowOf(arch string, ts ...string) (js []Job) {
	for _, t := range ts {
		js = append(js, Job{"SortSlice", "[]" + t, 0, arch, "shallow"}, Job{"SortSlice", "[]named " + t, 0, arch, "shallow"})
	}
	return
}

func archsOf(tier string) []string {
	if tier == "thorough" {
		return archs
	}
	return archs[:1]
}

func jobsC01(tier string) (js []Job) {
	for _, a := range archsOf(tier) {
		js = append(js, sliceJobs(a, tier, kernelTypes...)...)
		if tier == "thorough" {
			js = append(js, sliceJobs(a, tier, "int", "uint", "uintptr")...)
		}
		js = append(js, shallowOf(a, append(append([]string{}, intTypes...), otherTypes...)...)...)
	}
	return
}

func jobsC02(tier string) (js []Job) {
	for _, a := range archsOf(tier) {
		js = append(js, sliceJobs(a, tier, floatTypes...)...)
		js = append(js, shallowOf(a, floatTypes...)...)
	}
	return
}

func jobsC03(tier string) (js []Job) {
	for _, a := range archsOf(tier) {
		js = append(js, lenJobs(a)...)
		if tier == "thorough" {
			js = append(js, Job{"SortLen", "[][]byte", 0, a, ""}, Job{"SortLen", "[][]string", 0, a, ""})
		}
		for _, t := range []string{"string", "named string", "[]byte", "[]int", "[]struct", "named []int", "[]*int", "[]string", "[][]int", "[]any", "[]float64"} {
			js = append(js, Job{"SortLen", "[]" + t, 0, a, "shallow"})
		}
	}
	return
}

// every sorter
func jobsAll(tier string) (js []Job) {
	for _, a := range archsOf(tier) {
		js = append(js, Job{"Sort", "", 0, a, "partial"})
		js = append(js, sliceJobs(a, tier, kernelTypes...)...)
		if tier == "thorough" {
			js = append(js, sliceJobs(a, tier, floatTypes...)...)
		} else {
			js = append(js, Job{"SortSlice", "[]float32", 1, a, ""}, Job{"SortSlice", "[]float64", -1, a, ""})
		}
		js = append(js, lenJobs(a)...)
	}
	return
}

func jobsAllQ(tier string) []Job {
	js := jobsAll(tier)
	for _, a := range archsOf(tier) {
		js = append(js, queryJobs(a)...)
		js = append(js, searchJobs(a)...)
	}
	return js
}

// 32-bit platforms
func jobsC20(tier string) (js []Job) {
	js = append(js, Job{"Sort", "", 0, "386", "partial"})
	js = append(js, sliceJobs("386", tier, "int", "uint", "int64", "float64", "string")...)
	if tier != "thorough" {
		js = append(js[:4], js[5:]...)
	} else {
		js = append(js, sliceJobs("386", tier, "uintptr", "uint64", "[]byte", "float32")...)
	}
	js = append(js, Job{"SortLen", "[]string", 0, "386", ""})
	js = append(js, dispatchJobs("386")...)
	js = append(js, queryJobs("386")...)
	js = append(js, searchJobs("386")...)
	return
}

var sortFail = "sorted panic bounds termination race protocol undecided dispatch "

var queryFail = "panic bounds termination undecided "

var ruleSort = "abstract interpretation of the sorter with order facts over array ranges: at every return the range is entailed to be sorted, with no reachable panic, race, deadlock or endless loop"

var props = map[string]*propCheck{
	"C01": {jobs: jobsC01, cats: cset(sortFail), level: "proof", rule: ruleSort},
	"C02": {jobs: jobsC02, cats: cset(sortFail), level: "proof", rule: ruleSort},
	"C03": {jobs: jobsC03, cats: cset(sortFail), level: "proof", rule: ruleSort},
	"C05": {jobs: jobsAll, cats: cset("perm race memory undecided"), level: "proof",
		rule: "abstract interpretation of the sorters with a multiset domain: every store is part of an exchange, and at every return the multiset of the range is the one at entry"},
	"C06": {jobs: jobsAllQ, cats: cset("panic bounds memory undecided"), level: "proof",
		rule: "abstract interpretation: every index, slice bound, division, channel close/send and explicit panic reached from an exported function is shown safe in the relational numeric domain"},
	"C07": {jobs: jobsAllQ, cats: cset("termination protocol undecided"), level: "proof",
		rule: "abstract interpretation: every loop has a linear ranking function, every recursive call gets a strictly shorter range, every channel receive has a sender"},
	"C08": {jobs: jobsAll, cats: cset("depth undecided"), level: "proof",
		rule: "abstract interpretation: every synchronous recursive call gets at most half of the caller's range"},
	"C10": {jobs: jobsAll, cats: cset("race undecided"), level: "proof",
		rule: "abstract interpretation with exclusive permissions on element ranges: a go statement hands over its range, a receive of the helper's result returns it, every element access needs permission"},
	"C11": {jobs: jobsAll, cats: cset("protocol termination undecided"), level: "proof",
		rule: "abstract interpretation with tokens: one counter token per running goroutine, one message per helper, completion is signalled exactly once after the last token is returned and received before the sort returns"},
	"C12": {jobs: jobsAll, cats: cset("seq undecided"), level: "proof",
		rule: "abstract interpretation: every go statement and channel creation is reached only with MaxGor > 1 read and a range longer than the recursion limit"},
	"C13": {jobs: jobsAll, cats: cset("quota undecided"), level: "proof",
		rule: "abstract interpretation with tokens: every go statement uses a counter token taken below MaxGor, tokens are returned only by the goroutine that ends"},
	"C20": {jobs: jobsC20, strct: []func(map[string]*Prog) *StructRes{checkAlign}, cats: cset(sortFail + "perm depth quota seq result gc align memory"), level: "proof",
		rule: "the analyses of C01-C08, C10-C14, C16, C17, C19 with the type sizes of a 32-bit platform"},
	"C21": {jobs: jobsAll, cats: cset("sorted race protocol global panic termination undecided"), level: "proof",
		rule: "abstract interpretation in which every read of MaxGor yields an arbitrary, each time new value"},
	"C09": {strct: []func(map[string]*Prog) *StructRes{checkAlloc}, rule: "no instruction reachable from an exported function allocates an amount that depends on its input", level: "other"},
	"C14": {jobs: perArch(queryJobs), cats: cset(queryFail + "result"), level: "proof",
		rule: "abstract interpretation of IsSorted*: at every return, result 0 entails the ordered-range fact over [0,n), result i>0 entails 0<i<n and key(i)<key(i-1) (or a misplaced NaN)"},
	"C15": {jobs: perArch(queryJobs, searchJobs), cats: cset("race seq global protocol quota undecided"), strct: []func(map[string]*Prog) *StructRes{checkReadOnly}, level: "proof",
		rule: "abstract interpretation with read-only permission on the collection: every element store, swapping lesswap call, go statement and channel operation reached from IsSorted*/Search is an alarm"},
	"C16": {jobs: perArch(dispatchJobs, rejectJobs), cats: cset("panic bounds undecided dispatch result reject"), level: "proof",
		rule: "abstract interpretation of the entry points for every kind of Go type: accepted types reach a sorter or checker that views the whole input with the documented width, signedness and order; all others end in a panic before any element access"},
	"C17": {jobs: perArch(searchJobs), cats: cset(queryFail + "result"), level: "proof",
		rule: "abstract interpretation of Search with a monotone predicate: result r entails 0<=r<=n, predicate false on [0,r) and true on [r,n)"},
	"C18": {strct: []func(map[string]*Prog) *StructRes{checkGlobals}, rule: "no instruction reachable from an exported function writes a package variable or memory reached from one", level: "other"},
	"C19": {jobs: perArch(dispatchJobs), cats: cset("dispatch gc undecided"), strct: []func(map[string]*Prog) *StructRes{checkViews}, level: "proof",
		rule: "abstract interpretation of the entry points: every view of the input has the element size and pointer shape of the input's type; unsafe casts between slice types keep element size and pointer words"},
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	for d != "/" {
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
		d = filepath.Dir(d)
	}
	return "/verif"
}

type jobRes struct {
	job     Job
	res     *Result
	bad     []Finding
	okN     int
	stopped bool
	note    string
}

// run one analysis; the engine is not shared between jobs
func runJob(p *Prog, j Job, stopAt time.Time, stop *atomic.Bool) (jr *jobRes) {
	jr = &jobRes{job: j}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("SORTYAI_PANIC") != "" {
				panic(fmt.Sprint(r, string(debug.Stack())))
			}
			jr.bad = append(jr.bad, Finding{"undecided", j.Entry, "-", "analysis failed: " + fmt.Sprint(r), ""})
		}
	}()
	e := newEngine(p)
	e.shallow = j.Mode == "shallow" || j.Mode == "reject" && strings.HasPrefix(j.Entry, "Sort")
	e.noOrd = j.Mode == "partial"
	e.w.noOrd = e.noOrd
	e.dispd = map[string]bool{}
	e.stopAt, e.stop = stopAt, stop
	r := e.runEntry(j.Entry, j.Type, j.Nan)
	jr.res = r
	if r.Undecided == "stopped" {
		jr.stopped = true
		return
	}
	if j.Mode == "partial" {
		// the order Sort() leaves is beyond this analysis: everything else counts
		r.NotSort = nil
		for k := range r.Bad {
			if k.Cat == "sorted" {
				delete(r.Bad, k)
			}
		}
		if r.Undecided != "" && len(r.Bad) == 0 {
			jr.note = "not decided: " + r.Undecided + " at " + r.UndPos
			return
		}
		for k := range r.OK {
			if k.Cat == "sorted" {
				delete(r.OK, k)
			}
		}
	}
	if r.Undecided != "" {
		jr.bad = append(jr.bad, Finding{"undecided", j.Entry, r.UndPos, "cannot be decided: " + r.Undecided, ""})
	}
	for _, k := range r.NotSort {
		jr.bad = append(jr.bad, Finding{"sorted", k, "-", "does not sort its range", ""})
	}
	if j.Mode == "reject" {
		if r.Outs > 0 || len(e.dispd) > 0 {
			jr.bad = append(jr.bad, Finding{"reject", j.Entry, e.posStr(e.pkg.Func(j.Entry).Pos()), "input of type " + j.Type + " is not refused with a panic", ""})
		}
		for k := range r.OK {
			if k.Cat == "race" {
				jr.bad = append(jr.bad, Finding{"reject", k.Fn, k.Pos, "element of an unsupported input is accessed", ""})
			}
		}
		pan := false
		for k, v := range r.Bad {
			if k.Cat == "panic" {
				pan = true
				continue
			}
			jr.bad = append(jr.bad, Finding{k.Cat, k.Fn, k.Pos, k.Msg, v})
		}
		if !pan {
			jr.bad = append(jr.bad, Finding{"reject", j.Entry, e.posStr(e.pkg.Func(j.Entry).Pos()), "no panic found for input of type " + j.Type, ""})
		}
		jr.okN = 1
		return
	}
	if j.Mode == "shallow" && r.Undecided == "" && len(e.dispd) == 0 {
		jr.bad = append(jr.bad, Finding{"dispatch", j.Entry, e.posStr(e.pkg.Func(j.Entry).Pos()), "input of type " + j.Type + " reaches no sorter", ""})
	}
	for k, v := range r.Bad {
		jr.bad = append(jr.bad, Finding{k.Cat, k.Fn, k.Pos, k.Msg, v})
	}
	jr.okN = len(r.OK)
	sort.Slice(jr.bad, func(i, k int) bool { return fmt.Sprint(jr.bad[i]) < fmt.Sprint(jr.bad[k]) })
	return
}

func runCheck(id, dir string) (code int) {
	debug.SetGCPercent(400)
	t0 := time.Now()
	vd := verifDir()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	pc := props[id]
	if pc == nil {
		fmt.Println("no check for", id)
		return 2
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": pc.level}
	cov := map[string]any{}
	ev["coverage"] = cov
	var bad []Finding
	okN := 0
	var samples []string
	known := readKnown(filepath.Join(vd, "known_findings.txt"), id)
	ps := map[string]*Prog{}
	for _, a := range archs {
		p, err := load(dir, a, "")
		if err != nil {
			bad = append(bad, Finding{"load", "-", "-", "cannot load " + dir + " for " + a + ": " + err.Error(), ""})
			continue
		}
		ps[a] = p
	}
	var jobsDone []string
	funcs := map[string]bool{}
	if len(bad) == 0 {
		if pc.jobs != nil {
			js := pc.jobs(tier)
			res := make([]*jobRes, len(js))
			var wg sync.WaitGroup
			var stop atomic.Bool
			stopAt := t0.Add(400 * time.Second)
			if tier == "thorough" {
				stopAt = t0.Add(780 * time.Second)
			}
			sem := make(chan bool, runtime.NumCPU())
			for i := range js {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					res[i] = runJob(ps[js[i].Arch], js[i], stopAt, &stop)
					for _, f := range res[i].bad {
						if _, k := known[f.key()]; pc.cats[f.Cat] && !k {
							stop.Store(true)
						}
					}
				}(i)
			}
			wg.Wait()
			for _, r := range res {
				if r.stopped {
					continue
				}
				if r.note != "" {
					jobsDone = append(jobsDone, r.job.String()+" ("+r.note+")")
					continue
				}
				jobsDone = append(jobsDone, r.job.String())
				for _, f := range r.bad {
					if pc.cats[f.Cat] {
						f.Detail = r.job.String() + " " + f.Detail
						bad = append(bad, f)
					}
				}
				if r.res != nil {
					for k := range r.res.OK {
						funcs[k.Fn] = true
						if pc.cats[k.Cat] {
							if _, b := r.res.Bad[k]; !b {
								okN++
							}
							if len(samples) < 6 && len(r.res.OK) > 2 {
								samples = append(samples, fmt.Sprintf("%s: %s %s %s %s", r.job, k.Cat, k.Fn, k.Pos, k.Msg))
							}
						}
					}
				}
				if r.job.Mode == "reject" && len(r.bad) == 0 {
					okN++
				}
			}
			cov["analyses"] = len(js)
			cov["entry_points_and_types"] = jobsDone
		}
		for _, f := range pc.strct {
			r := f(ps)
			bad = append(bad, r.Bad...)
			okN += r.OK
			for _, a := range r.Analysed {
				funcs[a] = true
			}
			if r.OK == 0 && len(r.Bad) == 0 {
				bad = append(bad, Finding{"coverage", "-", "-", "rule matched nothing: " + r.Rule, ""})
			}
		}
	}
	if okN == 0 && len(bad) == 0 {
		bad = append(bad, Finding{"coverage", "-", "-", "no obligation was generated", ""})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seen := map[string]bool{}
	var report []string
	nviol := 0
	for _, f := range bad {
		if seen[f.key()] {
			continue
		}
		seen[f.key()] = true
		line := fmt.Sprintf("%s %s: [%s] %s", f.Pos, f.Fn, f.Cat, f.Msg)
		if f.Detail != "" {
			line += "\n    in " + f.Detail
		}
		if k, ok := known[f.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		nviol++
		report = append(report, line)
	}
	cov["obligations"] = okN + nviol
	cov["discharged"] = okN
	cov["rule"] = pc.rule
	cov["functions"] = fl
	cov["samples"] = samples
	cov["checker_cmd"] = "sortyai -check " + id
	cov["trusted_base"] = []string{"go/packages and go/ssa (golang.org/x/tools v0.52.0) translate the source faithfully", "the transfer functions, joins and entailment tests of /verif/sortyai are sound", "models of reflect, unsafe, sync/atomic and channel operations in /verif/sortyai"}
	cov["explanation"] = fmt.Sprintf("%s. Analysed %d functions of the current source in %d entry configurations; %d obligations, %d not discharged.", pc.rule, len(fl), len(jobsDone), okN+nviol, nviol)
	cov["exhaustive"] = true
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["violations"] = nviol
	ev["assumptions"] = pc.assume
	if pc.assume == nil {
		ev["assumptions"] = []string{"the caller's functions follow their documented contracts"}
	}
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(vd, "evidence", id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join("evidence", id+".violation.txt")
	if nviol > 0 {
		os.WriteFile(filepath.Join(vd, rp), []byte(strings.Join(report, "\n")+"\n"), 0o644)
		for i, l := range report {
			if i >= 20 {
				fmt.Println("...")
				break
			}
			fmt.Println(l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	os.Remove(filepath.Join(vd, rp))
	fmt.Printf("property %s holds: %d obligations in %d configurations, %d functions, %.1fs\n", id, okN, len(jobsDone), len(fl), time.Since(t0).Seconds())
	return 0
}

// known findings: lines "known: property=<id> key=<cat|fn|msg> <what fails>"; "fixed:" lines suppress nothing
func readKnown(file, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		p := "known: property=" + id + " key="
		if strings.HasPrefix(l, p) {
			l = l[len(p):]
			if i := strings.Index(l, " :: "); i > 0 {
				m[l[:i]] = l[i+4:]
			}
		}
	}
	return m
}

var _ = sha256.New
