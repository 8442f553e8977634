package main

import (
	"encoding/binary"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is an effect: a storage call, a callback, a screen, a response, a write to shared memory ...
type Ev struct {
	prev *Ev
	name string
	args []*Term
	res  *Term
	pos  token.Pos
	fn   *ssa.Function
	n    int // 1-based position in the history
	sig  int
}

var evSigs = map[string]int{}

type fact struct {
	val bool
	at  int // number of events that had happened when it was learned
}

// LoopRec describes how a summarized loop over a collection was left.
type LoopRec struct {
	id       string
	list     *Term
	letters  []*Letter // kinds of elements met before the current one
	current  []Cond    // what is known about the element at which the loop was left early
	complete bool      // left because the collection was exhausted
	steps    []*Term   // per slot: one update per letter, as a key
}

type Letter struct {
	flags map[string]map[string]bool // how it changes flags
	first map[int]tri
	conds []Cond
	sets  map[int]*Term // slot -> new value over OAcc
	pairs [][2]*Term    // lists whose elements at this position are equal
	key   string
}

type State struct {
	env   map[ssa.Value]*Term
	mem   map[*Term]*Term
	memSh bool
	facts map[*Term]fact
	facSh bool
	ev    *Ev
	recs  []*LoopRec
	loops map[string]*loopState // loops being iterated, by id (current frame and callers)
	occ   map[string]int        // event name+args -> occurrences so far
	occSh bool
	defs  []deferred
	dead  bool
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]fact{}, occ: map[string]int{}, loops: map[string]*loopState{}}
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[ssa.Value]*Term, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	s.memSh, n.memSh = true, true
	s.facSh, n.facSh = true, true
	s.occSh, n.occSh = true, true
	return &n
}

func (s *State) setMem(a, v *Term) {
	if s.memSh {
		m := make(map[*Term]*Term, len(s.mem)+1)
		for k, x := range s.mem {
			m[k] = x
		}
		s.mem, s.memSh = m, false
	}
	s.mem[a] = v
}

func (s *State) delMem(a *Term) {
	if _, ok := s.mem[a]; !ok {
		return
	}
	s.setMem(a, nil)
	delete(s.mem, a)
}

func (s *State) nev() int {
	if s.ev == nil {
		return 0
	}
	return s.ev.n
}

func (s *State) ownFacts() {
	if s.facSh {
		m := make(map[*Term]fact, len(s.facts)+1)
		for k, x := range s.facts {
			m[k] = x
		}
		s.facts, s.facSh = m, false
	}
}

func (s *State) addFact(a *Term, v bool) {
	if _, ok := s.facts[a]; ok {
		return
	}
	s.ownFacts()
	s.facts[a] = fact{v, s.nev()}
}

func (s *State) dropFacts(pred func(*Term) bool) {
	var del []*Term
	for a := range s.facts {
		if pred(a) {
			del = append(del, a)
		}
	}
	if len(del) == 0 {
		return
	}
	s.ownFacts()
	for _, a := range del {
		delete(s.facts, a)
	}
}

func (s *State) emit(name string, pos token.Pos, fn *ssa.Function, res *Term, args ...*Term) {
	e := &Ev{prev: s.ev, name: name, args: args, res: res, pos: pos, fn: fn, n: s.nev() + 1}
	ps := 0
	if s.ev != nil {
		ps = s.ev.sig
	}
	k := strconv.Itoa(ps) + "|" + name + "|" + keys(args)
	id, ok := evSigs[k]
	if !ok {
		id = len(evSigs) + 1
		evSigs[k] = id
	}
	e.sig = id
	s.ev = e
}

func (s *State) occur(k string) int {
	if s.occSh {
		m := make(map[string]int, len(s.occ)+1)
		for a, b := range s.occ {
			m[a] = b
		}
		s.occ, s.occSh = m, false
	}
	s.occ[k]++
	return s.occ[k]
}

func (s *State) events() []*Ev {
	var out []*Ev
	for e := s.ev; e != nil; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- truth of atoms

type tri int

const (
	unk tri = iota
	yes
	no
)

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unk
}

func tb(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (s *State) cond(c Cond) tri {
	r := s.truth(c.atom)
	if !c.pos {
		r = r.not()
	}
	return r
}

func (s *State) truth(a *Term) tri {
	if a == tTrue {
		return yes
	}
	if a == tFalse {
		return no
	}
	if f, ok := s.facts[a]; ok {
		return tb(f.val)
	}
	if el := elemIn(a); el != nil {
		// what no element of the collection satisfies, this one does not
		for b, f := range s.facts {
			if f.val || b.op != OExists || b.args[0] != stripSorted(el.args[0]) || holeLevel(b.args[1]) != 1 {
				continue
			}
			c := termCond(subst(b.args[1], func(y *Term) *Term {
				if y == tHole {
					return el
				}
				return nil
			}))
			if c.atom == a {
				return tb(!c.pos)
			}
			if a.op == OEq && c.atom.op == OEq && a.args[0] == el && c.atom.args[0] == el && a.args[1].op == OConst && c.atom.args[1].op == OConst && !c.pos {
				return no // it equals another constant
			}
		}
	}
	switch a.op {
	case OEq:
		x, c := a.args[0], a.args[1]
		if c.op == ONil {
			return s.isNil(x)
		}
		if c.op == OConst {
			if c.s == "int" {
				lo, hi, okl, okh := s.bounds(x)
				k := c.k
				if okl && k.Cmp(big64(lo)) < 0 || okh && k.Cmp(big64(hi)) > 0 {
					return no
				}
				if okl && okh && lo == hi && k.Cmp(big64(lo)) == 0 {
					return yes
				}
			}
			for b, f := range s.facts {
				if b.op == OEq && f.val && b.args[0] == x && b.args[1].op == OConst && b.args[1] != c {
					return no
				}
				if f.val && c.key == `""` && b.op == OExists && splits(b.args[0], x) && subst(b.args[1], func(y *Term) *Term {
					if y == tHole {
						return c
					}
					return nil
				}) == tFalse {
					return no // the only part of an empty text is empty
				}
				if f.val && c.key == `""` && b.op == OCall && (b.s == "foldeq" || b.s == "strings.HasPrefix") && b.args[0] == x && b.args[1].key != `""` {
					return no
				}
			}
			if d := domain(x); d != nil {
				n := 0
				in := false
				for _, k := range d {
					ka := mkEq(x, mkInt(k)).atom
					if ka == a {
						in = true
						continue
					}
					if f, ok := s.facts[ka]; ok && !f.val {
						n++
					}
				}
				if !in {
					return no
				}
				if n == len(d)-1 {
					return yes
				}
			}
			if c.key == `""` && s.nonEmpty(x) {
				return no
			}
		}
		if l := joinedList(x); l != nil && c.op == OConst {
			if r := s.partsAre(l, x.args[1], c); r != unk {
				return r
			}
		}
		if la, lb := joinedList(x), joinedList(c); la != nil && lb != nil && s.cond(mkEq(mkLen(la), mkLen(lb))) == no {
			return no
		}
		// x == y where both equal constants
		if c.op != OConst && x.op != OConst {
			cx, cy := s.eqConst(x), s.eqConst(c)
			if cx != nil && cy != nil {
				return tb(cx == cy)
			}
			if cx != nil {
				if r := s.truthDirect(mkEq(c, cx)); r == no {
					return no
				}
			}
			if cy != nil {
				if r := s.truthDirect(mkEq(x, cy)); r == no {
					return no
				}
			}
		}
	case OLE:
		lo, hi, okl, okh := s.bounds(a.args[0])
		k := a.k.Int64()
		if okh && hi <= k {
			return yes
		}
		if okl && lo > k {
			return no
		}
	case OLookupOk:
	case OAssertOk:
		if a.args[0].op == OIface {
			return s.assertStatic(a.args[0], a)
		}
		if x := a.args[0]; x.op == OCall && (x.s == "fmt.Errorf" || x.s == "errors.New") && ownNamed(a.ex.(types.Type)) {
			return no
		}
		if !jsonKind(a.args[0], a.ex.(types.Type)) {
			return no
		}
		for b, f := range s.facts {
			if f.val && b.op == OAssertOk && b.args[0] == a.args[0] && b != a {
				ta, tb2 := a.ex.(types.Type), b.ex.(types.Type)
				if !types.IsInterface(ta) && !types.IsInterface(tb2) {
					return no
				}
			}
		}
		if s.isNil(a.args[0]) == yes {
			return no
		}
	case OExists:
		if r := s.existsTruth(a); r != unk {
			return r
		}
	case OCall:
		if a.s == "strings.HasPrefix" || a.s == "strings.HasSuffix" {
			if p, ok := a.args[1].str(); ok {
				if _, hi, _, okh := s.bounds(mkLen(a.args[0])); okh && hi < int64(len(p)) {
					return no
				}
			}
		}
		if a.s == "strings.HasPrefix" {
			if c := s.eqConst(a.args[0]); c != nil && a.args[1].op == OConst {
				p, _ := c.str()
				q, _ := a.args[1].str()
				return tb(len(p) >= len(q) && p[:len(q)] == q)
			}
		}
	}
	return unk
}

// jsonKind: claims and headers of a token parsed by jwt.Parse are decoded by encoding/json without
// UseNumber, so their values have one of six types.
func jsonKind(x *Term, T types.Type) bool {
	if x.op != OLookup || types.IsInterface(T) {
		return true
	}
	m := x.args[0]
	if !(m.op == OCall && m.s == "jwt.claims") && !(m.op == OSel && m.s == "Header" && m.args[0].op == OCall && m.args[0].s == "jwt.token") {
		return true
	}
	switch types.TypeString(types.Unalias(T), nil) {
	case "string", "float64", "bool", "map[string]interface{}", "[]interface{}", "map[string]any", "[]any":
		return true
	}
	return false
}

func (s *State) truthDirect(c Cond) tri {
	if c.atom == tTrue {
		return tb(c.pos)
	}
	if f, ok := s.facts[c.atom]; ok {
		return tb(f.val == c.pos)
	}
	return unk
}

// splits: is l the parts of x?
func splits(l, x *Term) bool {
	return l.op == OCall && l.s == "strings.Split" && l.args[0] == x && l.args[1].key != `""`
}

// joinedList: x is the parts of a text in some order, joined again.
func joinedList(x *Term) *Term {
	if x.op == OCall && x.s == "strings.Join" && x.args[1].op == OConst {
		if l := stripSorted(x.args[0]); l != x.args[0] && l.op == OCall && l.s == "strings.Split" && l.args[1] == x.args[1] {
			return l
		}
	}
	return nil
}

func (s *State) eqConst(x *Term) *Term {
	if x.op == OConst {
		return x
	}
	for b, f := range s.facts {
		if b.op == OEq && f.val && b.args[0] == x && b.args[1].op == OConst {
			return b.args[1]
		}
	}
	return nil
}

func (s *State) nonEmpty(x *Term) bool {
	switch x.op {
	case OConcat:
		for _, a := range x.args {
			if a.op == OConst {
				return true
			}
		}
	case OCall:
		switch x.s {
		case "itoa", "quote":
			return true
		case "base64": // the text of at least one byte
			if len(x.args) < 2 {
				return false
			}
			b := x.args[1]
			if b.op == OSlice && len(b.args) >= 3 {
				lo, ok1 := b.args[1].int()
				hi, ok2 := b.args[2].int()
				return ok1 && ok2 && hi > lo
			}
			return b.op == OCall && (b.s == "sha256" || b.s == "sha384" || b.s == "sha512")
		}
	}
	return false
}

// bounds of an integer term from the facts about it.
func (s *State) bounds(x *Term) (lo, hi int64, okl, okh bool) {
	if n, ok := x.int(); ok {
		return n, n, true, true
	}
	if x.op == OLen {
		lo, okl = 0, true
		if l := x.args[0]; l.op == OCall && l.s == "strings.Split" {
			if sep, ok := l.args[1].str(); ok && sep != "" {
				lo = 1
			}
		}
		if l := x.args[0]; l.op == OConcat {
			for _, a := range l.args {
				if p, ok := a.str(); ok {
					lo += int64(len(p))
				} else if a.op == OCall && a.s == "quote" {
					lo += 2
				}
			}
		}
		is, not := map[*Term]bool{}, map[*Term]bool{} // elements it has, and elements it has others than
		for b, f := range s.facts {
			if f.val && b.op == OExists && b.args[0] == x.args[0] {
				c := termCond(b.args[1])
				if c.atom.op == OEq && c.atom.args[0] == tHole && c.atom.args[1].op == OConst {
					if c.pos {
						is[c.atom.args[1]] = true
					} else {
						not[c.atom.args[1]] = true
					}
				}
			}
			if f.val && b.op == OCall && (b.s == "strings.HasPrefix" || b.s == "strings.HasSuffix" || b.s == "strings.Contains") && b.args[0] == x.args[0] {
				if p, ok := b.args[1].str(); ok && int64(len(p)) > lo {
					lo = int64(len(p))
				}
			}
			if !f.val && b.op == OEq && b.args[0] == x.args[0] && b.args[1].key == `""` && lo < 1 {
				lo = 1
			}
		}
		if n := int64(len(is)); n > 0 {
			if n == 1 {
				for k := range is {
					if not[k] {
						n = 2
					}
				}
			}
			if n > lo {
				lo = n
			}
		}
		if l := x.args[0]; l.op == OCall && l.s == "sorted" {
			a, b, c, d := s.bounds(mkLen(l.args[0]))
			return a, b, c, d
		}
	}
	if x.op == OPos {
		lo, okl = 0, true
	}
	for i, k := range domain(x) {
		if i == 0 || k < lo {
			lo = k
		}
		if i == 0 || k > hi {
			hi = k
		}
		okl, okh = true, true
	}
	var ne []int64
	for b, f := range s.facts {
		switch {
		case b.op == OLE && b.args[0] == x:
			k := b.k.Int64()
			if f.val {
				if !okh || k < hi {
					hi, okh = k, true
				}
			} else if !okl || k+1 > lo {
				lo, okl = k+1, true
			}
		case b.op == OEq && b.args[0] == x && b.args[1].op == OConst && b.args[1].s == "int" && b.args[1].k.IsInt64():
			k := b.args[1].k.Int64()
			if f.val {
				return k, k, true, true
			}
			ne = append(ne, k)
		}
	}
	for ch := true; ch; {
		ch = false
		for _, k := range ne {
			if okl && k == lo {
				lo++
				ch = true
			}
			if okh && k == hi {
				hi--
				ch = true
			}
		}
	}
	if x.op == OSum && !okl && !okh {
		// sum of bounded parts
		var l, h int64 = x.co[len(x.args)], x.co[len(x.args)]
		okl, okh = true, true
		for i, t := range x.args {
			if t == x {
				return 0, 0, false, false
			}
			a, b, oa, ob := s.bounds(t)
			c := x.co[i]
			if c < 0 {
				a, b, oa, ob = b, a, ob, oa
			}
			if oa {
				l += a * c
			} else {
				okl = false
			}
			if ob {
				h += b * c
			} else {
				okh = false
			}
		}
		lo, hi = l, h
	}
	return
}

// ownNamed: T is, or points to, a type of the repository.
func ownNamed(T types.Type) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && ownPath(n.Obj().Pkg().Path()) && !types.IsInterface(T)
}

// domain: values whose possible constants are finite by construction (see DESIGN.md, assumptions).
func domain(x *Term) []int64 {
	if x.typ == nil || x.op != OSel {
		return nil
	}
	n, ok := x.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !ownPath(n.Obj().Pkg().Path()) {
		return nil
	}
	switch n.Obj().Name() {
	case "FlowType":
		// a pending request is never of the direct kind
		l := enumValues(n)
		if k, ok := n.Obj().Pkg().Scope().Lookup("DirectGrant").(*types.Const); ok {
			if d, exact := constant.Int64Val(k.Val()); exact {
				var r []int64
				for _, v := range l {
					if v != d {
						r = append(r, v)
					}
				}
				return r
			}
		}
		return l
	case "ErrorType":
		return enumValues(n)
	}
	return nil
}

var enumCache = map[*types.Named][]int64{}

// enumValues: the constants declared with a type.
func enumValues(n *types.Named) []int64 {
	if l, ok := enumCache[n]; ok {
		return l
	}
	var l []int64
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) {
			if v, exact := constant.Int64Val(k.Val()); exact {
				l = append(l, v)
			}
		}
	}
	enumCache[n] = l
	return l
}

func (s *State) isNil(x *Term) tri {
	if x.op == ONil {
		return yes
	}
	if nonNilOp(x) {
		return no
	}
	if f, ok := s.facts[mkEq(x, tNil).atom]; ok {
		return tb(f.val)
	}
	for b, f := range s.facts {
		if f.val && b.op == OAssertOk && b.args[0] == x {
			return no
		}
	}
	if x.op == OParam {
		if it, ok := x.typ.(*types.Interface); ok && it.Empty() {
			return unk // a key, say
		}
		return no
	}
	if x.op == OSel && trustedSel(x) {
		return no
	}
	if x.op == OLookup {
		switch s.truthDirect(Cond{mkLookupOk(x.args[0], x.args[1]), true}) {
		case yes: // what the operator registers is there
			return no
		case no:
			return yes
		}
	}
	if x.op == OAssert && s.truth(assertOkAtom(x)) == yes && !types.IsInterface(x.typ) {
		return no
	}
	if x.op == OCall && trustedCall(x) {
		return no
	}
	// answers that are an object exactly when there is no error
	if x.op == OExtract && x.s == "0" {
		c := x.args[0]
		e := mkExtract(c, errIndex(c), nil)
		if objIffNoErr(c) {
			switch s.truthNil(e) {
			case yes:
				return no
			case no:
				return yes
			}
		} else if objIfNoErr(c) && s.truthNil(e) == yes {
			return no
		}
	}
	if x.op == OExtract && x.args[0].op == ORes && x.args[0].s == "grant" && x.s == "1" {
		r := mkExtract(x.args[0], 0, nil)
		if f, ok := s.facts[mkEq(r, tNil).atom]; ok {
			return tb(!f.val)
		}
	}
	return unk
}

func (s *State) truthNil(x *Term) tri {
	if f, ok := s.facts[mkEq(x, tNil).atom]; ok {
		return tb(f.val)
	}
	return unk
}

// elemIn is the list element a comparison is about.
func elemIn(a *Term) *Term {
	if a.op != OEq && a.op != OCall || len(a.args) == 0 {
		return nil
	}
	var el *Term
	for _, x := range a.args {
		if x.op == OElem {
			if el != nil {
				return nil
			}
			el = x
		}
	}
	return el
}

// existsTruth: consequences of what is known about the elements of a list.
func (s *State) existsTruth(a *Term) tri {
	list, pred := a.args[0], a.args[1]
	if r := s.existsByRecs(list, pred); r != unk {
		return r
	}
	if list.op == OCall && list.s == "strings.Split" {
		c := s.eqConst(list.args[0])
		if c != nil {
			x, ok1 := c.str()
			sep, ok2 := list.args[1].str()
			if ok1 && ok2 {
				r := no
				for _, part := range strings.Split(x, sep) {
					r = some(r, s.cond(termCond(subst(pred, func(y *Term) *Term {
						if y == tHole {
							return mkStr(part)
						}
						return nil
					}))))
				}
				if r != unk {
					return r
				}
			}
		}
	}
	// no part contains the separator
	if list.op == OCall && list.s == "strings.Split" && list.args[1].key != `""` && pred.op == OEq {
		for i, x := range pred.args {
			if x == tHole && s.truth(mkCall("strings.Contains", types.Typ[types.Bool], pred.args[1-i], list.args[1])) == yes {
				return no
			}
		}
	}
	// an element known to satisfy the predicate
	for b, f := range s.facts {
		_ = f
		if b.op != OExists || b.args[0] != list {
			continue
		}
		// exists(L, ¬p) false: all satisfy p
		np := condTerm(termCond(pred).not())
		if b.args[1] == np && !f.val && s.listNonEmpty(list) {
			return yes
		}
	}
	// a validated prompt that contains none contains nothing else
	if pred.op == OEq && pred.args[0] == tHole && pred.args[1].op == OConst && list.op == OCall && list.s == "strings.Split" && list.args[1].key == `" "` {
		if list.args[0] == specPrompt || s.truth(validPrompt(list.args[0])) == yes {
			c, _ := pred.args[1].str()
			none := mkExists(list, mkEq(tHole, mkStr("none")).atom)
			if c != "none" {
				if f, ok := s.facts[none]; ok && f.val {
					return no
				}
			} else {
				for _, o := range []string{"login", "consent", "select_account"} {
					if f, ok := s.facts[mkExists(list, mkEq(tHole, mkStr(o)).atom)]; ok && f.val {
						return no
					}
				}
			}
		}
	}
	return unk
}

func validPrompt(x *Term) *Term {
	return mkCall("prompt.Validate", types.Typ[types.Bool], x)
}

func (s *State) listNonEmpty(l *Term) bool {
	lo, _, ok, _ := s.bounds(mkLen(l))
	return ok && lo >= 1
}

// ---- keys

type keyer struct{ buf []byte }

func (k *keyer) i(n int) { k.buf = binary.AppendVarint(k.buf, int64(n)) }
func (k *keyer) s(x string) {
	k.i(len(x))
	k.buf = append(k.buf, x...)
}

// key identifies a state up to values that can no longer be observed.
func (s *State) stateKey(live []ssa.Value, roots []*Term) string {
	k := &keyer{buf: make([]byte, 0, 256)}
	rs := append([]*Term{}, roots...)
	for i, v := range live {
		if t := s.env[v]; t != nil {
			k.i(i)
			k.i(t.id)
			rs = append(rs, t)
		}
	}
	k.i(-1)
	for _, d := range s.defs {
		k.i(int(d.call.Pos()))
		k.i(d.fn.id)
		rs = append(rs, d.fn)
		for _, a := range d.args {
			k.i(a.id)
			rs = append(rs, a)
		}
	}
	k.i(-5)
	s.gc(rs)
	type kv struct{ a, b int }
	var l []kv
	for a, v := range s.mem {
		l = append(l, kv{a.id, v.id})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a })
	for _, x := range l {
		k.i(x.a)
		k.i(x.b)
	}
	k.i(-2)
	var fs []kv
	for a, f := range s.facts {
		v := f.at * 2
		if f.val {
			v++
		}
		fs = append(fs, kv{a.id, v})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].a < fs[j].a })
	for _, x := range fs {
		k.i(x.a)
		k.i(x.b)
	}
	k.i(-3)
	if s.ev != nil {
		k.i(s.ev.sig)
	}
	for _, r := range s.recs {
		k.s(r.id)
		k.s(recKey(r))
	}
	k.i(-4)
	ids := make([]string, 0, len(s.loops))
	for id := range s.loops {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		k.s(id)
		k.s(s.loops[id].key())
	}
	return string(k.buf)
}

func recKey(r *LoopRec) string {
	k := r.list.key
	for _, l := range r.letters {
		k += "|" + l.key
	}
	for _, c := range r.current {
		k += "&" + c.String()
	}
	if r.complete {
		k += "!"
	}
	return k
}

// gc drops memory of objects that are unreachable from roots.
func (s *State) gc(roots []*Term) {
	if len(s.mem) == 0 {
		return
	}
	byRoot := map[*Term][]*Term{}
	for a := range s.mem {
		r := rootOf(a)
		byRoot[r] = append(byRoot[r], a)
	}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if as, ok := byRoot[t]; ok {
			for _, a := range as {
				mark(s.mem[a])
				for _, x := range a.args {
					mark(x)
				}
			}
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, t := range roots {
		mark(t)
	}
	for r := range byRoot {
		if r.op != OObj {
			mark(r)
		}
	}
	for r, as := range byRoot {
		if !seen[r] {
			for _, a := range as {
				s.delMem(a)
			}
		}
	}
}

func rootOf(a *Term) *Term {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
	}
	return a
}

// partsAre: are the elements of the list, in some order, those of the constant text?
func (s *State) partsAre(l, sep, c *Term) tri {
	txt, _ := c.str()
	sp, ok := sep.str()
	if !ok || sp == "" {
		return unk
	}
	parts := strings.Split(txt, sp)
	seen := map[string]bool{}
	var is []Cond
	every, once := yes, true
	for _, p := range parts {
		if seen[p] {
			return unk
		}
		seen[p] = true
		q := mkEq(tHole, mkStr(p))
		is = append(is, q)
		switch s.truth(mkExists(l, condTerm(q))) {
		case no:
			return no
		case unk:
			every = unk
		}
		n := mkCount(l, mkStr(p))
		switch s.cond(mkLess(mkInt(1), n, false)) {
		case yes:
			return no
		case unk:
			once = false
		}
	}
	if f, ok := s.facts[mkRepeats(l)]; ok && f.val {
		return no
	}
	n := s.cond(mkEq(mkLen(l), mkInt(int64(len(parts)))))
	if n == no {
		return no
	}
	in := s.everyIn(l, is)
	switch {
	case in == no:
		return no
	case every == yes && (n == yes || once && in == yes):
		return yes
	}
	return unk
}
