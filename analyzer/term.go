package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values: provenance terms. A term says where a value comes from (a request parameter, the
// answer of a storage call, a field of such an answer, a constant, ...). Terms are hash-consed: two
// values with the same provenance are the same *Term, and key is both the identity and the rendering.
type Op uint8

const (
	OConst Op = iota
	ONil
	OParam
	OGlobal // address of a package-level variable
	OFunc
	OClosure
	OObj // address of an object allocated in the analysed code
	OFieldAddr
	OIndexAddr
	OSel    // field of an opaque value (pointer or struct)
	OIdx    // element of an opaque list at a constant or opaque index
	OLookup // m[k] of an opaque map
	OLookupOk
	OCall    // result of a pure external function
	OExtract // component of a tuple-valued term
	OInv     // pure getter on an interface value
	ORes     // answer of an effectful call: storage, callback, unknown external
	OBin
	OSum
	OEq
	OLE
	OConcat
	OIface
	OAssert
	OAssertOk
	OTuple
	OStruct
	OList
	OMap
	OSliceOf // slice of an array object
	OSlice   // x[lo:hi] of an opaque value
	OPos     // iteration counter of a summarized loop
	OElem    // current element of a summarized loop
	OMKey
	OMVal
	OAcc  // value of a loop-carried slot at the head of an iteration
	OFold // value of a loop-carried slot after the loop
	OExists
	OLen
	OIter
	ONot
	OUnk
	OHole
)

type Term struct {
	op   Op
	s    string
	args []*Term
	key  string
	typ  types.Type
	fn   *ssa.Function
	id   int
	k    *big.Int // OLE bound; integer constant
	co   []int64  // OSum coefficients; co[len(args)] is the constant
	ex   any
}

func (t *Term) String() string { return t.key }

var (
	interned = map[string]*Term{}
)

func mk(op Op, key string, s string, typ types.Type, args ...*Term) *Term {
	if t, ok := interned[key]; ok {
		if t.typ == nil && typ != nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{op: op, s: s, args: args, key: key, typ: typ, id: len(interned)}
	interned[key] = t
	return t
}

func keys(ts []*Term) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(t.key)
	}
	return b.String()
}

var (
	tTrue  = mk(OConst, "true", "bool", types.Typ[types.Bool])
	tFalse = mk(OConst, "false", "bool", types.Typ[types.Bool])
	tNil   = mk(ONil, "nil", "", nil)
	tHole  = mk(OHole, "●", "", nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(n int64) *Term { return mkBig(big.NewInt(n)) }
func mkBig(n *big.Int) *Term {
	t := mk(OConst, n.String(), "int", types.Typ[types.Int])
	t.k = n
	return t
}

func mkStr(s string) *Term {
	t := mk(OConst, strconv.Quote(s), "string", types.Typ[types.String])
	t.ex = s
	return t
}

func (t *Term) str() (string, bool) {
	if t.op == OConst && t.s == "string" {
		return t.ex.(string), true
	}
	return "", false
}

func (t *Term) int() (int64, bool) {
	if t.op == OConst && t.s == "int" && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

func (t *Term) isConst() bool { return t.op == OConst }

func mkParam(name string, typ types.Type) *Term { return mk(OParam, name, name, typ) }

// argParam stands for an argument nothing is known about; its name keeps it apart from those of another type or position.
func argParam(i int, typ types.Type) *Term {
	return mkParam("arg"+strconv.Itoa(i)+":"+typeName(typ), typ)
}

func mkTuple(ts ...*Term) *Term { return mk(OTuple, "("+keys(ts)+")", "", nil, ts...) }

func mkUnk(name string, typ types.Type) *Term { return mk(OUnk, "?"+name, name, typ) }

// ---- strings

func mkConcat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OConcat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if s, ok := t.str(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].str(); ok {
					out[n-1] = mkStr(p + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk(OConcat, "cat("+keys(out)+")", "", types.Typ[types.String], out...)
}

// ---- calls

func mkCall(name string, typ types.Type, args ...*Term) *Term {
	return mk(OCall, name+"("+keys(args)+")", name, typ, args...)
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	if t.op == OTuple {
		return t.args[i]
	}
	e := mk(OExtract, t.key+"."+strconv.Itoa(i), strconv.Itoa(i), typ, t)
	return e
}

func mkInv(recv *Term, m string, typ types.Type, args ...*Term) *Term {
	return mk(OInv, recv.key+"."+m+"("+keys(args)+")", m, typ, append([]*Term{recv}, args...)...)
}

// ---- integers

func sumParts(t *Term) (map[*Term]int64, int64, bool) {
	m := map[*Term]int64{}
	if n, ok := t.int(); ok {
		return m, n, true
	}
	if t.op == OConst {
		return nil, 0, false
	}
	if t.op == OSum {
		for i, a := range t.args {
			m[a] = t.co[i]
		}
		return m, t.co[len(t.args)], true
	}
	m[t] = 1
	return m, 0, true
}

func mkSum(m map[*Term]int64, c int64) *Term {
	var ts []*Term
	for t, k := range m {
		if k != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].key < ts[j].key })
	if len(ts) == 0 {
		return mkInt(c)
	}
	if len(ts) == 1 && m[ts[0]] == 1 && c == 0 {
		return ts[0]
	}
	var b strings.Builder
	co := make([]int64, 0, len(ts)+1)
	b.WriteString("[")
	for i, t := range ts {
		k := m[t]
		co = append(co, k)
		switch {
		case k == 1 && i > 0:
			b.WriteString("+")
		case k == 1:
		case k == -1:
			b.WriteString("-")
		default:
			fmt.Fprintf(&b, "%+d*", k)
		}
		b.WriteString(t.key)
	}
	if c != 0 {
		fmt.Fprintf(&b, "%+d", c)
	}
	b.WriteString("]")
	co = append(co, c)
	t := mk(OSum, b.String(), "", types.Typ[types.Int64], ts...)
	t.co = co
	return t
}

func mkAdd(a, b *Term, sign int64) *Term {
	ma, ca, ok1 := sumParts(a)
	mb, cb, ok2 := sumParts(b)
	if !ok1 || !ok2 {
		return mk(OBin, "("+a.key+"+"+b.key+")", "+", a.typ, a, b)
	}
	for t, k := range mb {
		ma[t] += sign * k
	}
	r := mkSum(ma, ca+sign*cb)
	return r
}

func mkLen(t *Term) *Term {
	switch t.op {
	case OConst:
		if s, ok := t.str(); ok {
			return mkInt(int64(len(s)))
		}
	case ONil:
		return mkInt(0)
	case OList:
		return mkInt(int64(len(t.args)))
	case OCall:
		switch t.s {
		case "sorted", "fresh":
			return mkLen(t.args[0])
		case "tail":
			return mkAdd(mkLen(t.args[0]), t.args[1], -1)
		case "sha1":
			return mkInt(20)
		case "sha256":
			return mkInt(32)
		case "sha384":
			return mkInt(48)
		case "sha512":
			return mkInt(64)
		}
	case OMap:
		if len(t.args)%2 == 0 {
			return mkInt(int64(len(t.args) / 2))
		}
	}
	return mk(OLen, "len("+t.key+")", "", types.Typ[types.Int], t)
}

// ---- conditions. A condition is an atom with a polarity.

type Cond struct {
	atom *Term // tTrue for constants
	pos  bool
}

func (c Cond) not() Cond { return Cond{c.atom, !c.pos} }
func (c Cond) String() string {
	if c.pos {
		return c.atom.key
	}
	return "!" + c.atom.key
}

func constCond(b bool) Cond { return Cond{tTrue, b} }

func condTerm(c Cond) *Term {
	if c.atom == tTrue {
		return mkBool(c.pos)
	}
	if c.pos {
		return c.atom
	}
	return mk(ONot, "!"+c.atom.key, "", types.Typ[types.Bool], c.atom)
}

func termCond(t *Term) Cond {
	switch {
	case t == tTrue:
		return constCond(true)
	case t == tFalse:
		return constCond(false)
	case t.op == ONot:
		return termCond(t.args[0]).not()
	}
	return Cond{t, true}
}

// mkLE builds S <= k with S = m (constant moved right), leading coefficient positive.
func mkLE(m map[*Term]int64, k int64) Cond {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return constCond(0 <= k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].key < ts[j].key })
	if m[ts[0]] < 0 {
		n := map[*Term]int64{}
		for _, t := range ts {
			n[t] = -m[t]
		}
		return mkLE(n, -k-1).not()
	}
	var g int64
	for _, t := range ts {
		for a, b := g, abs64(m[t]); ; a, b = b, a%b {
			if b == 0 {
				g = a
				break
			}
		}
	}
	if g > 1 { // g*x <= k
		n := map[*Term]int64{}
		for _, t := range ts {
			n[t] = m[t] / g
		}
		q := k / g
		if k < 0 && k%g != 0 {
			q--
		}
		m, k = n, q
	}
	s := mkSum(m, 0)
	if s.op == OLen { // lengths: len(x) <= 0 is x == ""
		if k < 0 {
			return constCond(false)
		}
		if k == 0 {
			return lenZero(s)
		}
	}
	t := mk(OLE, "("+s.key+"<="+strconv.FormatInt(k, 10)+")", "", types.Typ[types.Bool], s)
	t.k = big.NewInt(k)
	return Cond{t, true}
}

func lenZero(l *Term) Cond {
	x := l.args[0]
	if x.typ != nil {
		if b, ok := x.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return mkEq(x, mkStr(""))
		}
	}
	return Cond{mk(OEq, "("+l.key+"==0)", "", types.Typ[types.Bool], l, mkInt(0)), true}
}

func mkLess(a, b *Term, orEq bool) Cond {
	ma, ca, ok1 := sumParts(a)
	mb, cb, ok2 := sumParts(b)
	if !ok1 || !ok2 {
		return Cond{mk(OBin, "("+a.key+"<"+b.key+")", "<", types.Typ[types.Bool], a, b), true}
	}
	for t, k := range mb {
		ma[t] -= k
	}
	k := cb - ca
	if !orEq {
		k--
	}
	return mkLE(ma, k)
}

func nonNilOp(t *Term) bool {
	switch t.op {
	case OObj, OClosure, OFunc, OIface, OFieldAddr, OIndexAddr, OGlobal, OConst, OList, OSliceOf, OStruct, OConcat, OMap, OElem, OFold:
		return true
	}
	return false
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func zeroSized(T types.Type) bool {
	if T == nil {
		return true
	}
	p, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch u := p.Elem().Underlying().(type) {
	case *types.Struct:
		return u.NumFields() == 0
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

func mkEq(a, b *Term) Cond {
	if a == b {
		return constCond(true)
	}
	if a.op == OConst && b.op == OConst {
		return constCond(false)
	}
	if a.op == OObj && b.op == OObj && !zeroSized(a.typ) {
		return constCond(false) // different allocations
	}
	if a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil && nonNilOp(a) {
		return constCond(false)
	}
	if a == tTrue || a == tFalse {
		a, b = b, a
	}
	if b == tTrue {
		return termCond(a)
	}
	if b == tFalse {
		return termCond(a).not()
	}
	if a.op == OIface && b.op == OIface {
		return mkEq(a.args[0], b.args[0])
	}
	if (a.op == OSum || b.op == OSum || isIntT(a.typ) || isIntT(b.typ)) && (a.op != OConst || a.s == "int") && (b.op != OConst || b.s == "int") {
		ma, ca, ok1 := sumParts(a)
		mb, cb, ok2 := sumParts(b)
		if ok1 && ok2 {
			for t, k := range mb {
				ma[t] -= k
			}
			s := mkSum(ma, 0)
			k := cb - ca
			if _, ok := s.int(); ok {
				return constCond(k == 0)
			}
			// leading coefficient positive
			if s.op == OSum && s.co[0] < 0 {
				n := map[*Term]int64{}
				for t, c := range ma {
					n[t] = -c
				}
				s, k = mkSum(n, 0), -k
			}
			if s.op == OSum && len(s.args) == 1 && s.co[0] == 1 {
				s = s.args[0]
			}
			if s.op == OLen && k == 0 {
				return lenZero(s)
			}
			if s.op == OSum && len(s.args) == 2 && k == 0 && s.co[0] == 1 && s.co[1] == -1 {
				// a position never passes the end of the list it runs over
				for i := range s.args {
					p, l := s.args[i], s.args[1-i]
					if p.op == OPos && l.op == OLen && len(p.args) == 1 && stripSorted(p.args[0]) == l.args[0] {
						return mkLess(p, l, false).not()
					}
				}
				return Cond{mk(OEq, "("+s.args[0].key+"=="+s.args[1].key+")", "", types.Typ[types.Bool], s.args[0], s.args[1]), true}
			}
			c := mkInt(k)
			return Cond{mk(OEq, "("+s.key+"=="+c.key+")", "", types.Typ[types.Bool], s, c), true}
		}
	}
	// x[len(x)-3:] == "abc" is a suffix test, x[:3] == "abc" a prefix test
	for i := 0; i < 2; i++ {
		if s, ok := b.str(); ok && a.op == OSlice && len(a.args) == 3 && isStringT(a.typ) && len(s) > 0 {
			x, lo, hi := a.args[0], a.args[1], a.args[2]
			if hi == mkLen(x) && lo == mkAdd(mkLen(x), mkInt(int64(len(s))), -1) {
				return Cond{mkCall("strings.HasSuffix", types.Typ[types.Bool], x, b), true}
			}
			if lo.key == "0" && hi == mkInt(int64(len(s))) {
				return Cond{mkCall("strings.HasPrefix", types.Typ[types.Bool], x, b), true}
			}
		}
		a, b = b, a
	}
	// strings.ToLower(x) == "const" is a case-insensitive comparison
	if s, ok := b.str(); ok && a.op == OCall && (a.s == "strings.ToLower" && s == strings.ToLower(s) || a.s == "strings.ToUpper" && s == strings.ToUpper(s)) {
		return Cond{mkCall("foldeq", types.Typ[types.Bool], a.args[0], mkStr(strings.ToLower(s))), true}
	}
	if s, ok := a.str(); ok && b.op == OCall && (b.s == "strings.ToLower" && s == strings.ToLower(s)) {
		return Cond{mkCall("foldeq", types.Typ[types.Bool], b.args[0], mkStr(s)), true}
	}
	if a.op == OConst || a.op == ONil || (b.op != OConst && b.op != ONil && b.key < a.key) {
		a, b = b, a
	}
	return Cond{mk(OEq, "("+a.key+"=="+b.key+")", "", types.Typ[types.Bool], a, b), true}
}

// ---- structure helpers

func (t *Term) walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.args {
		a.walk(f)
	}
}

var mentionMemo = map[[2]int]bool{}

func (t *Term) mentions(x *Term) bool {
	if t == x {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	k := [2]int{t.id, x.id}
	if r, ok := mentionMemo[k]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if a.mentions(x) {
			r = true
			break
		}
	}
	mentionMemo[k] = r
	return r
}

func (t *Term) mentionsAny(pred func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if found {
			return false
		}
		if pred(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

// subst rebuilds t with repl applied to subterms.
func subst(t *Term, repl func(*Term) *Term) *Term {
	if r := repl(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst(a, repl)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OEq:
		return condTerm(mkEq(as[0], as[1]))
	case ONot:
		return condTerm(termCond(as[0]).not())
	case OConcat:
		return mkConcat(as...)
	case OCall:
		if len(as) == 2 {
			a, ok1 := as[0].str()
			b, ok2 := as[1].str()
			switch {
			case t.s == "strings.Join" && as[0].op == OList:
				return mkJoin(as[0], as[1])
			case t.s == "strings.Contains" && ok1 && ok2:
				return mkBool(strings.Contains(a, b))
			case t.s == "strings.HasPrefix" && ok1 && ok2:
				return mkBool(strings.HasPrefix(a, b))
			case t.s == "strings.HasSuffix" && ok1 && ok2:
				return mkBool(strings.HasSuffix(a, b))
			}
		}
		return mkCall(t.s, t.typ, as...)
	case OInv:
		return mkInv(as[0], t.s, t.typ, as[1:]...)
	case OExtract:
		i, _ := strconv.Atoi(t.s)
		return mkExtract(as[0], i, t.typ)
	case OSel:
		return mkSel(as[0], t.s, t.typ)
	case OSum:
		m := map[*Term]int64{}
		c := t.co[len(t.args)]
		for i, a := range as {
			pm, pc, ok := sumParts(a)
			if !ok {
				return mkUnk("sum", t.typ)
			}
			for x, k := range pm {
				m[x] += k * t.co[i]
			}
			c += pc * t.co[i]
		}
		return mkSum(m, c)
	case OLE:
		m, c, _ := sumParts(as[0])
		return condTerm(mkLE(m, t.k.Int64()-c))
	case OLen:
		return mkLen(as[0])
	case OList:
		return mkList(t.typ, as...)
	case OExists:
		return mkExists(as[0], as[1])
	case OLookup:
		return mkLookup(as[0], as[1], t.typ)
	case OLookupOk:
		return mkLookupOk(as[0], as[1])
	case OAssert:
		n := mk(OAssert, as[0].key+".("+t.s+")", t.s, t.typ, as[0])
		n.ex = t.ex
		return n
	case OAssertOk:
		return mkAssertOk(as[0], t.ex.(types.Type))
	case OMap:
		if len(as)%2 == 1 {
			return mkMap(as[len(as)-1], as[:len(as)-1], t.typ)
		}
		return mkMap(nil, as, t.typ)
	case OStruct:
		return mkStruct(t.s, t.ex.([]string), t.typ, as)
	case OIdx:
		return mk(OIdx, as[0].key+"["+as[1].key+"]", "", t.typ, as[0], as[1])
	case OSlice:
		return mkSlice(as[0], as[1], as[2], t.typ)
	case OTuple:
		return mkTuple(as...)
	case OIface:
		n := mk(OIface, "iface<"+t.s+">("+as[0].key+")", t.s, t.typ, as[0])
		n.ex = t.ex
		return n
	case OElem:
		return mkElem(t.s, as[0])
	case OPos:
		return mkPos(t.s, as[0])
	}
	// generic: splice keys
	key := t.key
	n := mk(t.op, genericKey(t, as, key), t.s, t.typ, as...)
	if n.fn == nil {
		n.fn, n.k, n.co, n.ex = t.fn, t.k, t.co, t.ex
	}
	return n
}

func genericKey(t *Term, as []*Term, key string) string {
	return fmt.Sprintf("op%d:%s<%s>", t.op, t.s, keys(as))
}

func mkList(typ types.Type, ts ...*Term) *Term {
	return mk(OList, "{"+keys(ts)+"}", "", typ, ts...)
}

// mkExists: some element of list satisfies pred (a boolean term over tHole).
func mkExists(list, pred *Term) *Term {
	return mk(OExists, "exists("+list.key+":"+pred.key+")", "", types.Typ[types.Bool], list, pred)
}

func mkSel(base *Term, f string, typ types.Type) *Term {
	if base.op == OStruct {
		for i, n := range base.ex.([]string) {
			if n == f {
				return base.args[i]
			}
		}
	}
	return mk(OSel, base.key+"."+f, f, typ, base)
}

func mkStruct(name string, names []string, typ types.Type, vals []*Term) *Term {
	var b strings.Builder
	b.WriteString(name + "{")
	for i := range names {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(names[i] + ":" + vals[i].key)
	}
	b.WriteString("}")
	t := mk(OStruct, b.String(), name, typ, vals...)
	t.ex = names
	return t
}

// mkMap: a map value with known entries; base is nil for a map made here, else the opaque map below.
func mkMap(base *Term, kv []*Term, typ types.Type) *Term {
	// entries with constant keys are order independent
	allConst := true
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i].op != OConst {
			allConst = false
		}
	}
	if allConst {
		idx := make([]int, 0, len(kv)/2)
		for i := 0; i+1 < len(kv); i += 2 {
			idx = append(idx, i)
		}
		sort.Slice(idx, func(a, b int) bool { return kv[idx[a]].key < kv[idx[b]].key })
		var n []*Term
		for _, i := range idx {
			n = append(n, kv[i], kv[i+1])
		}
		kv = n
	}
	var b strings.Builder
	b.WriteString("map[")
	for i := 0; i+1 < len(kv); i += 2 {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(kv[i].key + ":" + kv[i+1].key)
	}
	b.WriteString("]")
	args := kv
	if base != nil {
		b.WriteString("+" + base.key)
		args = append(append([]*Term{}, kv...), base)
	}
	return mk(OMap, b.String(), "", typ, args...)
}

func (t *Term) mapParts() (kv []*Term, base *Term) {
	if len(t.args)%2 == 1 {
		return t.args[:len(t.args)-1], t.args[len(t.args)-1]
	}
	return t.args, nil
}

func mapSet(m, k, v *Term) *Term {
	kv, base := m.mapParts()
	n := append([]*Term{}, kv...)
	for i := 0; i+1 < len(n); i += 2 {
		if n[i] == k {
			n[i+1] = v
			return mkMap(base, n, m.typ)
		}
	}
	return mkMap(base, append(n, k, v), m.typ)
}

func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// dividedBy: the exact quotient of a sum all of whose parts are multiples of n.
func dividedBy(t *Term, n int64) *Term {
	m, c, ok := sumParts(t)
	if !ok || n == 0 || c%n != 0 {
		return nil
	}
	d := map[*Term]int64{}
	for x, k := range m {
		if k%n != 0 {
			return nil
		}
		d[x] = k / n
	}
	return mkSum(d, c/n)
}
