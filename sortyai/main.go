package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	sizes types.Sizes
	arch  string
	pk    *packages.Package
	all   []*packages.Package
}

func load(dir, arch, tags string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOARCH="+arch, "GOOS=linux"),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(ps), dir)
	}
	for _, e := range ps[0].Errors {
		return nil, fmt.Errorf("load: %v", e)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, pkg: prog.Package(ps[0].Types), sizes: types.SizesFor("gc", arch), arch: arch, pk: ps[0]}
	p.pkg.Build()
	for _, q := range prog.AllPackages() {
		if strings.HasPrefix(q.Pkg.Path(), "github.com/jfcg/") {
			q.Build()
		}
	}
	return p, nil
}

func newEngine(p *Prog) *Engine {
	e := &Engine{prog: p.prog, fset: p.prog.Fset, pkg: p.pkg, w: newWorld(), is64: p.arch == "amd64", sizes: p.sizes,
		roots: map[RootID]*Root{}, rootAt: map[string]RootID{}, objAt: map[string]int{}, cfgs: map[*ssa.Function]*CFG{},
		obl: newObls(), sums: map[string]*Summary{}, cmpOut: map[ssa.Instruction]*cmpStat{}, memo: map[string]bool{},
		stored: map[*ssa.Global]bool{}, limit: 40000000}
	e.initTypes()
	fns := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == p.pkg {
			fns[fn] = true
		}
	}
	e.scanGlobals(fns)
	return e
}

func (e *Engine) reset() {
	e.w = newWorld()
	e.w.noOrd = e.noOrd
	rf := map[*ssa.Function]bool{}
	e.w.rangeFn = func(f *ssa.Function) bool {
		r, ok := rf[f]
		if !ok {
			r = e.recurs(f)
			rf[f] = r
		}
		return r
	}
	e.roots, e.rootAt, e.objAt = map[RootID]*Root{}, map[string]RootID{}, map[string]int{}
	e.obl = newObls()
	e.sums = map[string]*Summary{}
	e.parts = map[string]*partSum{}
	e.cmpOut = map[ssa.Instruction]*cmpStat{}
	e.queue = nil
	e.cur, e.loops, e.curIn = nil, nil, nil
	e.initTypes()
}

// parse types for entries
func parseType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "named "):
		t := parseType(s[6:])
		return types.NewNamed(types.NewTypeName(0, nil, "named", nil), t.Underlying(), nil)
	case strings.HasPrefix(s, "[4]"):
		return types.NewArray(parseType(s[3:]), 4)
	case strings.HasPrefix(s, "map "):
		return types.NewMap(parseType(s[4:]), parseType(s[4:]))
	case strings.HasPrefix(s, "chan "):
		return types.NewChan(types.SendRecv, parseType(s[5:]))
	case s == "func":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	case s == "any":
		return types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(parseType(s[2:]))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(parseType(s[1:]))
	case s == "unsafe.Pointer":
		return types.Typ[types.UnsafePointer]
	case s == "struct":
		return types.NewStruct(nil, nil)
	}
	o := types.Universe.Lookup(s)
	return o.Type()
}

type Result struct {
	Entry, Type string
	Nan         int
	Bad         map[OblKey]string
	OK          map[OblKey]bool
	Undecided   string
	UndPos      string
	Restarts    int
	Steps       int
	Outs        int
	Sums        []*Summary
	NotSort     []string
	Time        time.Duration
}

func (e *Engine) runEntry(name, typ string, nan int) (res *Result) {
	res = &Result{Entry: name, Type: typ, Nan: nan}
	t0 := time.Now()
	defer func() { res.Time, res.Steps = time.Since(t0), e.steps }()
	fn := e.pkg.Func(name)
	if fn == nil {
		res.Undecided = "no function " + name
		return
	}
	e.memo = map[string]bool{}
	e.tent = map[OblKey]string{}
	e.limit = 120000
	if e.stopAt.IsZero() {
		e.stopAt = t0.Add(500 * time.Second)
	}
	if strings.HasSuffix(name, "Len") {
		e.memo["bylen"] = true
	}
	e.nan = nan
	e.query = !strings.HasPrefix(name, "Sort")
	for try := 0; try < 6; try++ {
		e.reset()
		res.Restarts = try
		again := e.tryEntry(fn, name, typ, res)
		if !again {
			break
		}
	}
	b := e.obl.st[0]
	res.Bad, res.OK = map[OblKey]string{}, map[OblKey]bool{}
	for k := range b.ok {
		res.OK[k] = true
	}
	for k, v := range b.bad {
		res.Bad[k] = v
	}
	if res.Undecided != "" {
		for k, v := range e.tent {
			res.Bad[k] = v
		}
	}
	var ks []string
	for k := range e.sums {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := e.sums[k]
		res.Sums = append(res.Sums, s)
		if s.obl != nil {
			for k := range s.obl.ok {
				res.OK[k] = true
			}
			for k, v := range s.obl.bad {
				res.Bad[k] = v
			}
		}
	}
	for k := range e.memo {
		if strings.HasPrefix(k, "notsort ") {
			res.NotSort = append(res.NotSort, k[8:])
		}
	}
	return
}

func (e *Engine) tryEntry(fn *ssa.Function, name, typ string, res *Result) (again bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				res.Undecided = u.msg
				res.UndPos = e.posStr(u.pos)
				again = false
				return
			}
			if _, ok := r.(linOverflow); ok {
				res.Undecided = "number too large"
				again = false
				return
			}
			panic(r)
		}
	}()
	st := e.baseState()
	env := map[ssa.Value]Val{}
	n := D(e.w.dim())
	st.assume(n.Neg())
	it := e.its["int"]
	var s *Summary
	switch name {
	case "SortSlice", "IsSortedSlice", "SortLen", "IsSortedLen":
		if typ == "nil" {
			env[fn.Params[0]] = VNil{}
			break
		}
		t := parseType(strings.TrimPrefix(typ, "bad "))
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || strings.HasPrefix(typ, "bad ") {
			env[fn.Params[0]] = VAny{M: modelOf(t), Inner: VUnk{"value of type " + typ}}
			break
		}
		r := e.newRoot("input", n, sl.Elem())
		r.Float = isFloat(sl.Elem())
		c := D(e.w.dim())
		st.assume(n.Sub(c))
		st.assume(c.Sub(D(dimM)))
		v := VSlice{r.ID, K(0), n, c, sl.Elem()}
		env[fn.Params[0]] = VAny{M: modelOf(t), Inner: v}
		s = &Summary{fn: fn, root: r, sl: v, lo: K(0), hi: n, n: n, keyName: e.sortKeys(r)[0]}
	case "Sort", "IsSorted":
		r := e.newRoot("collection", n, types.Typ[types.UnsafePointer])
		e.setOracle(r)
		st.assume(n.Sub(D(dimM)))
		env[fn.Params[0]] = VInt{n, it, false}
		env[fn.Params[1]] = VOracle{r.ID, ""}
		s = &Summary{fn: fn, root: r, lo: K(0), hi: n, n: n, keyName: ""}
	case "Search":
		r := e.newRoot("domain", n, types.Typ[types.UnsafePointer])
		r.Pred = true
		st.assume(n.Sub(D(dimM)))
		env[fn.Params[0]] = VInt{n, it, false}
		env[fn.Params[1]] = VPred{r.ID}
		s = &Summary{fn: fn, root: r, lo: K(0), hi: n, n: n}
	}
	sorter := strings.HasPrefix(name, "Sort")
	if s != nil {
		a := st.arr(s.root.ID)
		k := fR
		if sorter {
			k = fW
		}
		if s.root.Float && e.nan == 0 {
			s.num = true
			a.Facts = append(a.Facts, &Fact{K: fNum, Lo: s.lo, Hi: s.hi})
		}
		a.Facts = append(a.Facts, &Fact{K: k, Lo: s.lo, Hi: s.hi})
		if sorter {
			if !e.noOrd {
				a.Facts = append(a.Facts, &Fact{K: fSorted, Lo: s.lo, Hi: s.hi, Key: s.keyName, Holes: []Hole{{s.lo, s.hi, false}}})
			}
			a.Bags = append(a.Bags, &Bag{Lo: s.lo, Hi: s.hi, Root: true, D: map[Sym]int64{}})
		}
	}
	st.frames = []*Frame{{Fn: fn, Env: env}}
	outs := e.runBody(st)
	res.Outs = len(outs)
	for _, o := range outs {
		switch {
		case sorter && s != nil:
			e.checkReturn(o.st, s, "")
		case s != nil:
			e.checkQuery(o.st, o.ret, s, name)
		}
	}
	for len(e.queue) > 0 {
		k := e.queue[0]
		e.queue = e.queue[1:]
		s := e.sums[k]
		s.queued = false
		if e.debug {
			fmt.Printf("== %s pre=%v num=%v\n", s.key, s.pre, s.num)
		}
		e.runSummary(s)
		if s.notSort != "" {
			if e.debug {
				fmt.Println("NOT A SORTER:", s.key, s.notSort)
			}
			if e.noOrd && s.notSort == "sorted" {
				continue
			}
			if e.recursive(s.fn) {
				res.NotSort = append(res.NotSort, s.key)
				return false
			}
			e.memo["notsort "+s.key] = true
			e.tentative(s.obl)
			return true
		}
	}
	return false
}

// a contract does not hold: its function is analysed at its calls instead
func (e *Engine) tentative(b *oblBuf) {
	for k, v := range b.bad {
		e.tent[k] = v
	}
}

func main() {
	dir := flag.String("dir", "/repo", "")
	arch := flag.String("arch", "amd64", "")
	entry := flag.String("entry", "SortSlice", "")
	typ := flag.String("type", "[]uint32", "")
	nan := flag.Int("nan", 0, "")
	debug := flag.Bool("debug", false, "")
	unit := flag.String("unit", "", "")
	noOrd := flag.Bool("noord", false, "")
	umin := flag.Int("min", 0, "")
	umax := flag.Int("max", 1<<40, "")
	usv := flag.Bool("sv", false, "")
	check := flag.String("check", "", "property to check")
	prof := flag.String("prof", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *check != "" {
		os.Exit(runCheck(*check, *dir))
	}
	t0 := time.Now()
	p, err := load(*dir, *arch, "")
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	e := newEngine(p)
	e.debug = *debug
	e.noOrd = *noOrd
	e.w.noOrd = *noOrd
	if s := flag.Arg(0); s != "" {
		e.dumpSSA(s)
		return
	}
	if *unit != "" {
		printRes(e.runUnit(*unit, *nan, *umin, *umax, *usv))
		return
	}
	r := e.runEntry(*entry, *typ, *nan)
	printRes(r)
}

func printRes(r *Result) {
	fmt.Printf("%s %s nan=%d: outs=%d ok=%d bad=%d undecided=%q at %s restarts=%d steps=%d time=%v\n", r.Entry, r.Type, r.Nan, r.Outs, len(r.OK), len(r.Bad), r.Undecided, r.UndPos, r.Restarts, r.Steps, r.Time)
	for _, s := range r.Sums {
		fmt.Printf("  sum %s runs=%d pre=%v\n", s.key, s.runs, s.pre)
	}
	for _, k := range r.NotSort {
		fmt.Println("  not a sorter:", k)
	}
	var l []string
	for k, v := range r.Bad {
		l = append(l, fmt.Sprintf("  BAD %s %s %s %s [%s]", k.Cat, k.Fn, k.Pos, k.Msg, v))
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Println(s)
	}
}
