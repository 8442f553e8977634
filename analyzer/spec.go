package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules. A rule looks at the paths of a view (all ways an entry point can end, as produced by the
// engine) and states an obligation per path or call site. An obligation that is not met is reported
// for every property the rule belongs to.

type Viol struct {
	Rule  string   `json:"rule"`
	Where string   `json:"where"`
	Func  string   `json:"function"`
	What  string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
	Props []string `json:"properties"`
	Known string   `json:"known,omitempty"` // id of the known finding this is an instance of
}

type Tally struct {
	Obligations, Discharged int
	Rules                   map[string]int
	Views                   map[string]bool
	Viols                   []*Viol
	Samples                 []string
}

type Check struct {
	failed bool
	p      *Program
	only   string // the property asked for; "" is all
	tally  map[string]*Tally
	views  map[string]*View
	memo   map[string]any
	cur    *View
}

func newCheck(p *Program) *Check {
	return &Check{p: p, tally: map[string]*Tally{}, views: map[string]*View{}, memo: map[string]any{}}
}

func (c *Check) t(prop string) *Tally {
	t := c.tally[prop]
	if t == nil {
		t = &Tally{Rules: map[string]int{}, Views: map[string]bool{}}
		c.tally[prop] = t
	}
	return t
}

func split(s string) []string { return strings.Fields(s) }

// ob records one obligation for the properties in props (space separated).
func (c *Check) ob(props, rule string, ok bool, pos token.Pos, fn *ssa.Function, path *Path, f string, a ...any) bool {
	for _, id := range split(props) {
		t := c.t(id)
		t.Obligations++
		t.Rules[rule]++
		if c.cur != nil {
			t.Views[c.cur.name] = true
		}
		if ok {
			t.Discharged++
			if len(t.Samples) < 6 && t.Rules[rule] == 1 {
				s := rule
				if path != nil {
					s += ": " + path.describe()
				}
				t.Samples = append(t.Samples, s)
			}
			continue
		}
		if rule != "hash encoding" {
			c.failed = true
		}
		v := &Viol{Rule: rule, Where: c.p.pos(pos), What: fmt.Sprintf(f, a...), Props: split(props)}
		if fn != nil {
			v.Func = fnName(fn)
		}
		if path != nil {
			v.Trace = path.trace()
			if fn == nil && c.cur != nil && c.cur.fn != nil {
				v.Func = fnName(c.cur.fn)
			}
		}
		dup := false
		for _, o := range t.Viols {
			if o.Rule == v.Rule && o.Where == v.Where && o.What == v.What {
				dup = true
			}
		}
		if !dup {
			t.Viols = append(t.Viols, v)
		}
	}
	return ok
}

// View: an entry point and all its paths.
type View struct {
	name  string
	e     *Engine
	fn    *ssa.Function
	paths []*Path
	undec []string
}

type Path struct {
	v   *View
	o   *Out
	evs []*Ev
}

func (p *Path) st() *State { return p.o.st }

// at is what was known just before event n happened.
func (p *Path) at(n int) *State {
	s := *p.o.st
	s.facts = map[*Term]fact{}
	for a, f := range p.o.st.facts {
		if f.at < n {
			s.facts[a] = f
		}
	}
	return &s
}

func (p *Path) snap(t *Term) *Term { return p.v.e.snapshot(p.o.st, t) }

func (p *Path) describe() string {
	var l []string
	for _, e := range p.evs {
		l = append(l, e.name)
	}
	s := strings.Join(l, " -> ")
	if p.o.panic != "" {
		return s + " -> panic"
	}
	return s + fmt.Sprintf(" [%d facts, ends %s]", len(p.o.st.facts), p.v.e.p.pos(p.o.pos))
}

func (p *Path) trace() []string {
	var l []string
	type fk struct {
		at int
		s  string
	}
	var fs []fk
	for a, f := range p.o.st.facts {
		s := a.key
		if !f.val {
			s = "not " + s
		}
		s = trunc(s, 240)
		fs = append(fs, fk{f.at, s})
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].at != fs[j].at {
			return fs[i].at < fs[j].at
		}
		return fs[i].s < fs[j].s
	})
	fi := 0
	for n := 0; n <= len(p.evs); n++ {
		if n > 0 {
			e := p.evs[n-1]
			s := e.name + "(" + keys(e.args) + ")"
			s = trunc(s, 300)
			l = append(l, fmt.Sprintf("%s: %s", p.v.e.p.pos(e.pos), s))
		}
		for fi < len(fs) && fs[fi].at == n {
			l = append(l, "  when "+fs[fi].s)
			fi++
		}
	}
	if p.o.panic != "" {
		l = append(l, "panic: "+p.o.panic)
	} else {
		l = append(l, fmt.Sprintf("%s: return (%s)", p.v.e.p.pos(p.o.pos), trunc(keys(p.o.ret), 300)))
	}
	if len(l) > 120 {
		l = l[:120]
	}
	return l
}

func trunc(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

// ev returns the events with this name.
func (p *Path) ev(name string) []*Ev {
	var l []*Ev
	for _, e := range p.evs {
		if e.name == name {
			l = append(l, e)
		}
	}
	return l
}

func (p *Path) first(name string) *Ev {
	for _, e := range p.evs {
		if e.name == name {
			return e
		}
	}
	return nil
}

// finish turns the outcomes of a run into a view.
func (c *Check) finish(name string, e *Engine, fn *ssa.Function, outs []*Out) *View {
	v := &View{name: name, e: e, fn: fn}
	seen := map[string]bool{}
	for _, o := range outs {
		dead := false
		for _, t := range e.topics {
			dead = dead || t.settled(o.st) && t.ok(o.st) == no // contradicts what was settled: no run takes this path
		}
		if dead {
			continue
		}
		k := o.st.stateKey(nil, o.ret) + "#" + keys(o.ret) + "#" + o.panic
		if seen[k] {
			continue
		}
		seen[k] = true
		v.paths = append(v.paths, &Path{v: v, o: o, evs: o.st.events()})
	}
	v.undec = sortedKeys(e.undec)
	c.views[name] = v
	return v
}

// sound reports what the engine could not decide in a view: nothing may be hidden behind it.
func (c *Check) sound(v *View, props string) {
	c.cur = v
	c.ob(props, "analysed", v.fn != nil, token.NoPos, nil, nil, "entry point of view %s not found", v.name)
	for _, u := range v.undec {
		c.ob(props, "analysed", false, token.NoPos, v.fn, nil, "undecided: %s", u)
	}
	for _, u := range c.p.initUndec {
		c.ob(props, "analysed", false, token.NoPos, nil, nil, "undecided: %s", u)
	}
	c.ob(props, "analysed", len(v.paths) > 0, token.NoPos, v.fn, nil, "view %s has no paths", v.name)
}

// nopanic: no path of the view crashes.
func (c *Check) nopanic(v *View, props string) {
	c.cur = v
	for _, x := range v.e.panics {
		c.ob(props, "no-crash", false, x.pos, x.fn, nil, "may crash: %s", x.what)
	}
	for _, p := range v.paths {
		c.ob(props, "no-crash", p.o.panic == "", p.o.pos, nil, p, "crashes: %s", p.o.panic)
	}
}

// setup runs set-up code (constructors) and returns the engine and the state after it.
func (c *Check) outer(fn *ssa.Function, args ...*Term) (*Engine, []*Out) {
	e := newEngine(c.p)
	e.outer = true
	s := c.p.baseState()
	for o := range c.p.shared {
		e.shared[o] = true
	}
	if fn == nil {
		e.undec["set-up function not found"] = true
		return e, nil
	}
	outs := e.call(fn, args, nil, s, nil, "new", fn.Pos())
	for _, o := range outs {
		for a := range o.st.mem {
			r := rootOf(a)
			if r.op == OObj {
				e.shared[r] = true
			}
		}
		for _, t := range o.ret {
			t.walk(func(x *Term) bool {
				if x.op == OObj {
					e.shared[x] = true
				}
				return true
			})
		}
		o.st.ev, o.st.env = nil, map[ssa.Value]*Term{}
	}
	e.outer = false
	return e, outs
}

// ---- requirements

// Req is a condition a successful path must have established, and that justifies an error if it fails.
type Req struct {
	id    string
	props string
	ok    func(*State) tri
	codes []string // errors that a failure of this requirement may be answered with
	code  func(*State) []string
}

func (r *Req) answers(s *State) []string {
	if r.code != nil {
		return r.code(s)
	}
	return r.codes
}

func all(ts ...tri) tri {
	r := yes
	for _, t := range ts {
		if t == no {
			return no
		}
		if t == unk {
			r = unk
		}
	}
	return r
}

func some(ts ...tri) tri {
	r := no
	for _, t := range ts {
		if t == yes {
			return yes
		}
		if t == unk {
			r = unk
		}
	}
	return r
}

func (s *State) is(a *Term) tri     { return s.cond(termCond(a)) }
func (s *State) eqs(a, b *Term) tri { return s.cond(mkEq(a, b)) }
func (s *State) given(x *Term) tri  { return s.cond(mkEq(x, mkStr("")).not()) }

// call requirement: storage or callback was asked with exactly these arguments and answered well.
type callReq struct {
	name   string
	args   []*Term
	failed string // error for a "failed" answer
	noObj  bool   // answers with an error only
	boolV  bool
}

func bridgeErrType(err *Term) *Term { return mkSel(err, "‹bridge.ErrorType›", nil) }

const bridgeFailed = 2

func errOf(ev *Ev) *Term {
	if tu, ok := ev.res.typ.(*types.Tuple); ok {
		i := errIndex(ev.res)
		return mkExtract(ev.res, i, tu.At(i).Type())
	}
	return ev.res
}

func objOf(ev *Ev) *Term {
	if tu, ok := ev.res.typ.(*types.Tuple); ok {
		return mkExtract(ev.res, 0, tu.At(0).Type())
	}
	return nil
}

func (c *Check) failedConst() *Term {
	if n, ok := newEngine(c.p).constOf("bridge", "ErrFailed"); ok {
		return mkInt(n)
	}
	return mkInt(bridgeFailed)
}

// storageReq: the call's answer was no error (and an object if it promises one).
func (c *Check) storageReq(id, props string, ev *Ev, obj bool, failed string) *Req {
	fc := c.failedConst()
	return &Req{id: id, props: props,
		ok: func(s *State) tri {
			if ev == nil {
				return unk
			}
			r := s.eqs(errOf(ev), tNil)
			if obj && r != no {
				r = all(r, s.isNil(objOf(ev)).not())
			}
			return r
		},
		code: func(s *State) []string {
			if ev == nil {
				return nil
			}
			switch s.eqs(errOf(ev), tNil) {
			case yes:
				return []string{"server_error"}
			case no:
				switch s.eqs(bridgeErrType(errOf(ev)), fc) {
				case yes:
					return []string{failed}
				case no:
					return []string{"server_error"}
				}
				if failed == "server_error" {
					return []string{failed}
				}
			}
			return nil
		}}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- error codes

func (c *Check) oauthCodes() map[int64]string {
	if m, ok := c.memo["codes"]; ok {
		return m.(map[int64]string)
	}
	m := map[int64]string{}
	for _, n := range oauthNames {
		if v, ok := newEngine(c.p).constOf("oauth_error", n.id); ok {
			m[v] = n.name
		}
	}
	c.memo["codes"] = m
	return m
}

var oauthNames = []struct {
	id, name string
	status   int64
}{
	{"ErrAccessDenied", "access_denied", 403},
	{"ErrInvalidClient", "invalid_client", 400},
	{"ErrInvalidGrant", "invalid_grant", 400},
	{"ErrInvalidRequest", "invalid_request", 400},
	{"ErrInvalidScope", "invalid_scope", 400},
	{"ErrUnauthorizedClient", "unauthorized_client", 400},
	{"ErrUnsupportedGrantType", "unsupported_grant_type", 400},
	{"ErrUnsupportedResponseType", "unsupported_response_type", 400},
	{"ErrServerError", "server_error", 500},
	{"ErrTemporarilyUnavailable", "temporarily_unavailable", 500},
	{"ErrInvalidToken", "invalid_token", 401},
	{"ErrInsufficientScope", "insufficient_scope", 403},
	{"ErrInteractionRequired", "interaction_required", 500},
	{"ErrLoginRequired", "login_required", 500},
	{"ErrAccountSelectionRequired", "account_selection_required", 500},
	{"ErrConsentRequired", "consent_required", 500},
	{"ErrInvalidRequestURI", "invalid_request_uri", 500},
	{"ErrInvalidRequestObject", "invalid_request_object", 500},
	{"ErrRequestNotSupported", "request_not_supported", 500},
	{"ErrRequestURINotSupported", "request_uri_not_supported", 500},
	{"ErrRegistrationNotSupported", "registration_not_supported", 500},
}

// codeOf names the error type of an *OAuthError value on this path.
func (c *Check) codeOf(p *Path, t *Term) string {
	v := p.snap(t)
	ty := mkSel(v, "Type", nil)
	if n, ok := ty.int(); ok {
		return c.oauthCodes()[n]
	}
	return ""
}

// ---- comparison modulo what the path knows

// same: are two values equal on every run of this path?
func (p *Path) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	s := p.o.st
	a2, b2 := p.snap(a), p.snap(b)
	if a2 == b2 {
		return true
	}
	return p.eq(s, a2, b2, 0)
}

func (p *Path) eq(s *State, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 8 {
		return false
	}
	if a.op == OIface {
		return p.eq(s, a.args[0], b, d+1)
	}
	if b.op == OIface {
		return p.eq(s, a, b.args[0], d+1)
	}
	if s.eqs(a, b) == yes {
		return true
	}
	if ca, cb := s.eqConst(a), s.eqConst(b); ca != nil && ca == cb {
		return true
	}
	if (a.op == ONil || b.op == ONil) && s.isNil(a) == yes && s.isNil(b) == yes {
		return true
	}
	// equal classes of two equal terms
	for f, v := range s.facts {
		if v.val && f.op == OEq && f.args[1].op != OConst && f.args[1].op != ONil {
			if f.args[0] == a && f.args[1] == b || f.args[1] == a && f.args[0] == b {
				return true
			}
		}
	}
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != OObj {
		switch a.op {
		case OStruct, OList, OMap, OCall, OInv, OConcat, OTuple, OExtract, OSel:
			if a.op == OStruct && strings.Join(a.ex.([]string), ",") != strings.Join(b.ex.([]string), ",") {
				return false
			}
			for i := range a.args {
				if !p.eq(s, a.args[i], b.args[i], d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ---- specs

type Spec struct {
	name  string
	props string
	run   func(*Check)
}

var specs []Spec

func register(name, props string, run func(*Check)) {
	specs = append(specs, Spec{name, props, run})
}

func (c *Check) runSpecs(only string) {
	c.only = only
	fast := os.Getenv("VERIF_FAST") != "" // stop at the first violation, cheap views first: for mutation runs
	if fast {
		slow := func(s Spec) bool {
			switch s.name {
			case "authorization endpoint", "endpoint settings", "secrets stay out of the log", "requests share no mutable state", "request codec":
				return true
			}
			return false
		}
		sort.SliceStable(specs, func(i, j int) bool { return !slow(specs[i]) && slow(specs[j]) })
	}
	for _, s := range specs {
		if fast && c.failed {
			return
		}
		if only != "" && !contains(split(s.props), only) {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, x, string(debug.Stack()))
					}
					c.cur = nil
					c.ob(s.props, "analysed", false, token.NoPos, nil, nil, "the analysis of %s stopped: %v", s.name, x)
				}
			}()
			s.run(c)
		}()
	}
}
