package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- world: symbols of one analysis ----------

type Sym int32 // an element value or a key derived from one

type dkey struct {
	base Sym
	key  string
}

type World struct {
	noOrd   bool // order of elements is not tracked
	nd      Dim
	ns      Sym
	nroot   RootID
	nid     int
	derived map[dkey]Sym
	dbase   map[Sym]dkey
	keys    map[string]bool
	symInt  map[Sym]VInt // symbols that stand for a known integer
	dimName map[Dim]string
	quot    map[string]Dim // names of quotients
	rangeFn func(*ssa.Function) bool
	orc     map[RootID]bool // lesswap collections
	lens    []Dim           // lengths of lesswap collections: never forgotten
}

const dimM64 Dim = 1

func newWorld() *World {
	return &World{nd: 1, ns: 0, derived: map[dkey]Sym{}, dbase: map[Sym]dkey{}, keys: map[string]bool{},
		symInt: map[Sym]VInt{}, dimName: map[Dim]string{}, quot: map[string]Dim{}, orc: map[RootID]bool{}}
}

func (w *World) dim() Dim { w.nd++; return w.nd }
func (w *World) sym() Sym { w.ns++; return w.ns }
func (w *World) id() int  { w.nid++; return w.nid }

func (w *World) key(s Sym, k string) Sym {
	if k == "" {
		return s
	}
	d := dkey{s, k}
	if t, ok := w.derived[d]; ok {
		return t
	}
	t := w.sym()
	w.derived[d] = t
	w.dbase[t] = d
	w.keys[k] = true
	return t
}

// base element and key name of a symbol
func (w *World) baseOf(s Sym) (Sym, string) {
	if d, ok := w.dbase[s]; ok {
		return d.base, d.key
	}
	return s, ""
}

// ---------- values ----------

type Val interface{}

type itype struct {
	name   string
	lo, hi Lin
	signed bool
	bits   int // 0: int size
}

type VInt struct {
	L   Lin
	T   *itype
	Raw bool // value is L modulo the type's range
}
type VSym struct {
	S Sym
	T types.Type
}
type VBool struct{ C *Cond }
type VSlice struct {
	R             RootID
	Off, Len, Cap Lin
	Elem          types.Type
}
type VElemPtr struct {
	R   RootID
	Pos Lin
	T   types.Type
}
type VPtr struct {
	O    int // object id
	Path string
}
type VGlob struct {
	G    *ssa.Global
	Path string
	Idx  *Lin
}
type VFunc struct {
	Fn    *ssa.Function
	Binds []Val
}
type VOracle struct { // conforming lesswap over virtual collection R
	R   RootID
	Key string
}
type VPred struct{ R RootID } // monotone predicate
type VTuple []Val
type VChan struct{ ID string }
type VNil struct{}
type VType struct{ M *TModel } // reflect.Type
type VRVal struct{ A *VAny }   // reflect.Value
type VAny struct {             // interface holding model
	M     *TModel
	Inner Val
}
type VBit struct { // bit tricks
	Op   string
	X, Y Val
	T    types.Type
}
type VStr struct{ S string }
type VUnk struct{ Why string }
type VStruct struct{ F map[string]Val }
type VBuiltin struct{ Name string }

// ---------- conditions ----------

type CKind uint8

const (
	cTrue CKind = iota
	cFalse
	cUnk
	cLe  // L <= 0
	cEq  // L == 0
	cLT  // A < B (keys)
	cLE  // A <= B
	cSEq // A == B
	cNaN // A is NaN
	cNot
)

type Cond struct {
	K    CKind
	L    Lin
	A, B Sym
	F    bool // symbols are floats
	X    *Cond
}

var condT, condF, condU = &Cond{K: cTrue}, &Cond{K: cFalse}, &Cond{K: cUnk}

func notC(c *Cond) *Cond {
	switch c.K {
	case cTrue:
		return condF
	case cFalse:
		return condT
	case cUnk:
		return c
	case cNot:
		return c.X
	case cLe:
		return &Cond{K: cLe, L: c.L.Neg().AddK(1)}
	}
	return &Cond{K: cNot, X: c}
}

// ---------- array facts ----------

type RootID int32

type FKind uint8

const (
	fCmp    FKind = iota // key(A[i]) Rel S
	fNaN                 // key(A[i]) is NaN
	fNum                 // key(A[i]) is not NaN
	fTrue                // predicate true
	fFalse               // predicate false
	fSorted              // ordered, except inside/with holes
	fW                   // this goroutine may write
	fR                   // this goroutine may read
)

func (k FKind) String() string {
	return [...]string{"cmp", "nan", "num", "true", "false", "sorted", "W", "R"}[k]
}

type Rel uint8

const (
	rLE Rel = iota
	rLT
	rGE
	rGT
)

func (r Rel) String() string { return [...]string{"<=", "<", ">=", ">"}[r] }

type Hole struct {
	Lo, Hi Lin
	Excl   bool // contents unrelated to the rest
}

type Fact struct {
	K      FKind
	Lo, Hi Lin // [Lo, Hi)
	Rel    Rel
	S      Sym
	Key    string
	Holes  []Hole
}

func (f *Fact) String() string {
	s := fmt.Sprintf("%v[%v,%v)", f.K, f.Lo, f.Hi)
	if f.K == fCmp {
		s += fmt.Sprintf(" %s%v s%d", f.Key, f.Rel, f.S)
	} else if f.Key != "" {
		s += " " + f.Key
	}
	for _, h := range f.Holes {
		s += fmt.Sprintf(" hole[%v,%v)", h.Lo, h.Hi)
		if h.Excl {
			s += "x"
		}
	}
	return s
}

type Eq struct {
	Pos Lin
	S   Sym
}

type Cnt struct {
	S   Sym // key symbol
	Key string
	GE  bool // elements >= S, else elements <= S
	C   int64
}

// Bag: the multiset (contents of [Lo,Hi)) - D is what it was when the bag was made
// SubV: a value, or what a key of it is
type SubV struct {
	S   Sym
	Key string
}

type Bag struct {
	Lo, Hi Lin
	Root   bool // made at entry, must be balanced at return
	Broken bool
	D      map[Sym]int64
	Cnts   []Cnt
	Sub    []SubV // values at distinct positions
}

type Arr struct {
	Eq    []Eq
	Facts []*Fact
	Bags  []*Bag
}

// Rank: at least LE of E are <= S, at least GE of E are >= S
type Rank struct {
	E      []Sym
	S      Sym
	LE, GE int
}

type Tag struct {
	R      RootID
	Lo, Hi Lin
}

// root information, immutable
type Root struct {
	ID     RootID
	Name   string
	Len    Lin
	Elem   types.Type
	Oracle bool // virtual collection of a lesswap
	Pred   bool
	Local  bool // array local to the analysed code
	Float  bool // elements may be NaN
	Site   string
}

// Obj: a local or heap cell
type Obj struct {
	T      types.Type
	Cells  map[string]Val
	Shared bool // reachable from another goroutine
	Extern bool // contents given by the caller (sync struct of a summarised function)
	Fresh  bool // allocated in the analysed call
}

type Kid struct { // goroutine started that will send on a channel
	ID     int
	Chan   string
	Outs   []KidOut
	R      RootID
	Lo, Hi Lin
	Pos    string
	Dims   map[Dim]bool
}
type KidOut struct {
	St  *State
	Val Val
}

type CtrState struct { // goroutine counter protocol of one sync object
	Tok     int  // tokens held by this goroutine
	Dec     *Dim // result of the decrement that gave up the last token
	Kids    int  // workers started (0, 1=some)
	Joined  bool
	ChanID  string // channel messages belong to
	Recvd   bool
	Init    int
	Own     []Tag // ranges owned when the counter was created
	Created bool  // created by this call (not inherited)
}

type Frame struct {
	Fn    *ssa.Function
	Env   map[ssa.Value]Val
	Entry *State // state at function entry (for summaries)
}

// Dis: [A,B) and [C,D) do not overlap, whichever comes first
type Dis struct{ A, B, C, D Lin }

func (d Dis) each(f func(Lin)) { f(d.A); f(d.B); f(d.C); f(d.D) }

type State struct {
	renamed map[Sym]Sym // while unifying: old -> new
	w       *World
	poly    *Poly
	ne      []Lin
	dis     []Dis
	ord     map[[2]Sym]bool // closed: a <= b (false) or a < b (true)
	nan     map[Sym]int8    // 1 number, -1 NaN
	frames  []*Frame
	objs    map[int]*Obj
	arrs    map[RootID]*Arr
	ranks   []Rank
	tags    map[Sym][]Tag
	kids    []*Kid
	ctr     map[string]*CtrState // by counter location
	pins    []Lin
	mg      map[Dim]bool // dims holding a value read from MaxGor
	guard   bool         // MaxGor > 1 was seen by this call
	cas     int          // failed compare-and-swap marker
	sent    []string     // messages sent by this goroutine
	sentV   []Val
	lic     int    // end signals sent
	kidOut  *State // state when the message was sent
	msg     int    // which of a helper's possible messages was received, while its receiver runs
	dead    bool
	trace   []string
	way     uint64 // hash of the branches taken
}

func (s *State) clone() *State {
	n := *s
	n.ord = make(map[[2]Sym]bool, len(s.ord))
	for k, v := range s.ord {
		n.ord[k] = v
	}
	n.nan = make(map[Sym]int8, len(s.nan))
	for k, v := range s.nan {
		n.nan[k] = v
	}
	n.tags = make(map[Sym][]Tag, len(s.tags))
	for k, v := range s.tags {
		n.tags[k] = v
	}
	n.objs = make(map[int]*Obj, len(s.objs))
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.arrs = make(map[RootID]*Arr, len(s.arrs))
	for k, v := range s.arrs {
		n.arrs[k] = v.clone()
	}
	n.ctr = make(map[string]*CtrState, len(s.ctr))
	for k, v := range s.ctr {
		c := *v
		n.ctr[k] = &c
	}
	n.mg = make(map[Dim]bool, len(s.mg))
	for k, v := range s.mg {
		n.mg[k] = v
	}
	n.frames = append([]*Frame(nil), s.frames...)
	if l := len(n.frames); l > 0 {
		f := *n.frames[l-1]
		f.Env = make(map[ssa.Value]Val, len(f.Env)+4)
		for k, v := range n.frames[l-1].Env {
			f.Env[k] = v
		}
		n.frames[l-1] = &f
	}
	n.ne = append([]Lin(nil), s.ne...)
	n.dis = append([]Dis(nil), s.dis...)
	n.ranks = append([]Rank(nil), s.ranks...)
	n.kids = append([]*Kid(nil), s.kids...)
	n.pins = append([]Lin(nil), s.pins...)
	return &n
}

func (a *Arr) clone() *Arr {
	n := &Arr{Eq: append([]Eq(nil), a.Eq...), Facts: append([]*Fact(nil), a.Facts...)}
	for _, b := range a.Bags {
		c := *b
		c.D = make(map[Sym]int64, len(b.D))
		for k, v := range b.D {
			c.D[k] = v
		}
		c.Cnts = append([]Cnt(nil), b.Cnts...)
		c.Sub = append([]SubV(nil), b.Sub...)
		n.Bags = append(n.Bags, &c)
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) arr(r RootID) *Arr {
	a := s.arrs[r]
	if a == nil {
		a = &Arr{}
		s.arrs[r] = a
	}
	return a
}

// ---------- numeric ----------

// assume e <= 0; marks state dead when contradictory
func (s *State) assume(e Lin) {
	if s.dead {
		return
	}
	e = normC(e)
	if len(e.T) == 0 {
		if e.K > 0 {
			s.dead = true
		}
		return
	}
	if s.poly.entails(e) {
		return
	}
	if s.poly.entails(e.Neg().AddK(1)) {
		s.dead = true
		return
	}
	s.poly = s.poly.add(e)
	s.checkNE()
	s.checkDis()
}

// settle which of two ranges that do not overlap comes first
func (s *State) checkDis() {
	for i := 0; i < len(s.dis) && !s.dead; i++ {
		d := s.dis[i]
		// one of: B <= C, D <= A, B <= A, D <= C
		var can []Lin
		known := false
		for _, e := range []Lin{d.B.Sub(d.C), d.D.Sub(d.A), d.B.Sub(d.A), d.D.Sub(d.C)} {
			if known = s.poly.entails(e); known {
				break
			}
			if !s.poly.entails(e.Neg().AddK(1)) {
				if can = append(can, e); len(can) > 1 {
					break
				}
			}
		}
		if known || len(can) > 1 {
			continue
		}
		if len(can) == 0 {
			s.dead = true
			return
		}
		s.dis = append(append([]Dis(nil), s.dis[:i]...), s.dis[i+1:]...)
		i--
		s.poly = s.poly.add(can[0])
	}
}
func (s *State) assumeEq(e Lin) {
	s.assume(e)
	s.assume(e.Neg())
}

func (s *State) checkNE() {
	for i := 0; i < len(s.ne); i++ {
		e := s.ne[i]
		if s.poly.entails(e.AddK(1)) || s.poly.entails(e.Neg().AddK(1)) { // decided
			s.ne = append(append([]Lin(nil), s.ne[:i]...), s.ne[i+1:]...)
			i--
			continue
		}
		if s.poly.entails(e) { // e <= 0 so e <= -1
			s.poly = s.poly.add(e.AddK(1))
			s.ne = append(append([]Lin(nil), s.ne[:i]...), s.ne[i+1:]...)
			i = -1
		} else if s.poly.entails(e.Neg()) {
			s.poly = s.poly.add(e.Neg().AddK(1))
			s.ne = append(append([]Lin(nil), s.ne[:i]...), s.ne[i+1:]...)
			i = -1
		}
	}
	for _, e := range s.ne {
		if len(e.T) == 0 && e.K == 0 {
			s.dead = true
		}
	}
}

func (s *State) assumeNE(e Lin) {
	if s.dead {
		return
	}
	if len(e.T) == 0 {
		if e.K == 0 {
			s.dead = true
		}
		return
	}
	if s.poly.entailsEq(e) {
		s.dead = true
		return
	}
	s.ne = append(append([]Lin(nil), s.ne...), e)
	s.checkNE()
}

func (s *State) le(a, b Lin) bool { return s.poly.entails(a.Sub(b)) }         // a <= b
func (s *State) lt(a, b Lin) bool { return s.poly.entails(a.Sub(b).AddK(1)) } // a < b
func (s *State) eq(a, b Lin) bool {
	d := a.Sub(b)
	if len(d.T) == 0 {
		return d.K == 0
	}
	return s.poly.entailsEq(d)
}
func (s *State) neq(a, b Lin) bool {
	d := a.Sub(b)
	if len(d.T) == 0 {
		return d.K != 0
	}
	if s.poly.entails(d.AddK(1)) || s.poly.entails(d.Neg().AddK(1)) {
		return true
	}
	for _, e := range s.ne {
		x := e.Sub(d)
		if len(x.T) == 0 && x.K == 0 {
			return true
		}
		x = e.Add(d)
		if len(x.T) == 0 && x.K == 0 {
			return true
		}
		if s.poly.entailsEq(e.Sub(d)) || s.poly.entailsEq(e.Add(d)) {
			return true
		}
	}
	return false
}

func (s *State) feasible() bool {
	if s.dead {
		return false
	}
	if s.poly.empty() {
		s.dead = true
	}
	return !s.dead
}

// ---------- order of symbols ----------

func (s *State) addOrd(a, b Sym, strict bool) {
	if s.dead {
		return
	}
	if a == b {
		if strict {
			s.dead = true
		}
		return
	}
	if st, ok := s.ord[[2]Sym{a, b}]; ok && (st || !strict) {
		return
	}
	ps := []Sym{a}
	var pst = []bool{false}
	ss := []Sym{b}
	var sst = []bool{false}
	for k, v := range s.ord {
		if k[1] == a {
			ps = append(ps, k[0])
			pst = append(pst, v)
		}
		if k[0] == b {
			ss = append(ss, k[1])
			sst = append(sst, v)
		}
	}
	for i, x := range ps {
		for j, y := range ss {
			st := strict || pst[i] || sst[j]
			if x == y {
				if st {
					s.dead = true
				}
				continue
			}
			if old, ok := s.ord[[2]Sym{x, y}]; !ok || st && !old {
				s.ord[[2]Sym{x, y}] = st
			}
		}
	}
}

func (s *State) ordLE(a, b Sym) bool {
	if a == b {
		return true
	}
	_, ok := s.ord[[2]Sym{a, b}]
	return ok
}
func (s *State) ordLT(a, b Sym) bool { return s.ord[[2]Sym{a, b}] }

func (s *State) setNaN(x Sym, v int8) {
	if o := s.nan[x]; o != 0 && o != v {
		s.dead = true
	}
	s.nan[x] = v
}

// values certainly different?
func (s *State) symDiffer(a, b Sym) bool {
	if a == b {
		return false
	}
	if s.ordLT(a, b) || s.ordLT(b, a) {
		return true
	}
	if s.nan[a]*s.nan[b] < 0 {
		return true
	}
	for k := range s.w.keys {
		x, ok1 := s.w.derived[dkey{a, k}]
		y, ok2 := s.w.derived[dkey{b, k}]
		if ok1 && ok2 && x != y && (s.ordLT(x, y) || s.ordLT(y, x)) {
			return true
		}
	}
	return false
}

// key rel
func (s *State) symRel(x Sym, r Rel, y Sym) bool {
	switch r {
	case rLE:
		return s.ordLE(x, y)
	case rLT:
		return s.ordLT(x, y)
	case rGE:
		return s.ordLE(y, x)
	}
	return s.ordLT(y, x)
}

func (s *State) addRel(x Sym, r Rel, y Sym) {
	switch r {
	case rLE:
		s.addOrd(x, y, false)
	case rLT:
		s.addOrd(x, y, true)
	case rGE:
		s.addOrd(y, x, false)
	case rGT:
		s.addOrd(y, x, true)
	}
}

func relImplies(a, b Rel) bool {
	return a == b || a == rLT && b == rLE || a == rGT && b == rGE
}

func (s *State) String() string {
	var b strings.Builder
	if s.dead {
		return "DEAD"
	}
	fmt.Fprintf(&b, "poly: %v\n", s.poly)
	if len(s.dis) > 0 {
		fmt.Fprintf(&b, "disjoint: %v\n", s.dis)
	}
	if len(s.ne) > 0 {
		fmt.Fprintf(&b, "ne: %v\n", s.ne)
	}
	var o []string
	for k, v := range s.ord {
		op := "<="
		if v {
			op = "<"
		}
		o = append(o, fmt.Sprintf("s%d%ss%d", k[0], op, k[1]))
	}
	sort.Strings(o)
	if len(o) > 0 {
		fmt.Fprintf(&b, "ord: %v\n", o)
	}
	if len(s.nan) > 0 {
		fmt.Fprintf(&b, "nan: %v\n", s.nan)
	}
	var rs []int
	for r := range s.arrs {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for _, r := range rs {
		a := s.arrs[RootID(r)]
		fmt.Fprintf(&b, "arr %d:", r)
		for _, e := range a.Eq {
			fmt.Fprintf(&b, " [%v]=s%d", e.Pos, e.S)
		}
		for _, f := range a.Facts {
			fmt.Fprintf(&b, "\n   %v", f)
		}
		for _, g := range a.Bags {
			fmt.Fprintf(&b, "\n   bag[%v,%v) root=%v broken=%v D=%v cnt=%v sub=%v", g.Lo, g.Hi, g.Root, g.Broken, g.D, g.Cnts, g.Sub)
		}
		b.WriteByte('\n')
	}
	for _, r := range s.ranks {
		fmt.Fprintf(&b, "rank %v\n", r)
	}
	for k, t := range s.tags {
		fmt.Fprintf(&b, "tag s%d %v\n", k, t)
	}
	for k, c := range s.ctr {
		fmt.Fprintf(&b, "ctr %s %+v\n", k, *c)
	}
	if len(s.frames) > 0 {
		f := s.top()
		var e []string
		for k, v := range f.Env {
			e = append(e, fmt.Sprintf("%s=%s", k.Name(), vstr(v)))
		}
		sort.Strings(e)
		fmt.Fprintf(&b, "env %s: %s\n", f.Fn.Name(), strings.Join(e, " "))
	}
	return b.String()
}

func vstr(v Val) string {
	switch x := v.(type) {
	case VInt:
		if x.Raw {
			return x.L.String() + "~"
		}
		return x.L.String()
	case VSym:
		return fmt.Sprintf("s%d", x.S)
	case VSlice:
		return fmt.Sprintf("A%d[%v:+%v:%v]", x.R, x.Off, x.Len, x.Cap)
	case VBool:
		return fmt.Sprintf("cond%d", x.C.K)
	case VElemPtr:
		return fmt.Sprintf("&A%d[%v]", x.R, x.Pos)
	case VTuple:
		s := "("
		for _, y := range x {
			s += vstr(y) + ","
		}
		return s + ")"
	case VFunc:
		return "func " + x.Fn.Name()
	}
	return fmt.Sprintf("%T%v", v, v)
}
