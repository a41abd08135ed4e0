package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what is decided, in a sentence or two
	Run  func(r *R)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(r *R)) { checks[id] = &Check{id, rule, run} }

// Viol is one broken obligation.
type Viol struct {
	Ob    string // the obligation
	Where string // the construct
	Msg   string
	Trace []string
}

func (v Viol) Key() string { return v.Ob }

// R collects what a check looked at and what it found.
type R struct {
	deepNorm func(string) string
	p        *Program
	id       string
	obs      map[string]bool // obligation -> discharged
	und      []string        // obligations that could not be decided, with the reason
	viols    []Viol
	entries  map[string]bool
	sites    map[string]bool
	funcs    map[string]bool
	states   int
	ans      map[string]*Analysis
	thorough bool
	pats     []string // patterns of the rule being decided
}

// uses notes the patterns of the rule being decided.
func (r *R) uses(ps ...P) {
	r.pats = nil
	for _, p := range ps {
		for _, pt := range p.parse() {
			r.pats = append(r.pats, pt.name+"(")
			r.pats = append(r.pats, pt.args...)
		}
	}
}

var fieldRe = regexp.MustCompile(`\.([A-Za-z_]\w*)(\(|\)\.)?`)
var qualRe = regexp.MustCompile(`\b([A-Za-z_]\w*)\)?\.([A-Za-z_]\w*)`)

// unknown: a field, type or function that the patterns speak of and that the
// tree does not declare. A rule that speaks of such a thing decides nothing.
func (r *R) unknown() string {
	for _, t := range r.pats {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "github.com/", ""), "golang.org/", "")
		for _, m := range fieldRe.FindAllStringSubmatch(t, -1) {
			if m[2] == "" && !r.p.idents()[m[1]] && !r.p.externs()[m[1]] {
				return m[1]
			}
		}
		for _, m := range qualRe.FindAllStringSubmatch(t, -1) {
			if r.p.ownScope()[m[1]] && !r.p.idents()[m[2]] {
				return m[1] + "." + m[2]
			}
		}
	}
	return ""
}

func newR(p *Program, id string) *R {
	return &R{p: p, id: id, obs: map[string]bool{}, entries: map[string]bool{}, sites: map[string]bool{},
		funcs: map[string]bool{}, ans: map[string]*Analysis{}}
}

func (r *R) ok(ob string) {
	if _, had := r.obs[ob]; !had {
		r.obs[ob] = true
	}
}

func (r *R) fail(ob, where, msg string, trace ...string) {
	if n := r.unknown(); n != "" {
		r.undecided(ob, "the tree has no "+n+" any more")
		return
	}
	r.obs[ob] = false
	r.viols = append(r.viols, Viol{ob, where, msg, trace})
}

func (r *R) undecided(ob, why string) {
	r.und = append(r.und, ob+": "+why)
}

func (r *R) site(s State) { r.sites[s.n.Where()] = true }

// An analyses an entry point. Missing entry points make the obligations on them undecided.
func (r *R) An(pkg, fn string, o Opts) *Analysis {
	key := pkg + "." + fn + "|" + strings.Join(o.NoInline, ",") + "|" + o.key
	if a, ok := r.ans[key]; ok {
		if a != nil {
			curAn = a
		}
		return a
	}
	f := r.p.Fn(pkg, fn)
	if f == nil || len(f.Blocks) == 0 {
		r.ans[key] = nil
		r.undecided(pkg+"."+fn, "no such function in the tree")
		return nil
	}
	a := r.p.Analyze(f, o)
	a.Graph()
	r.ans[key] = a
	r.entries[fnName(f)] = true
	for _, n := range a.g.nodes {
		if n.c != nil {
			r.funcs[fnName(n.c.fn)] = true
		}
	}
	return a
}

// Q opens a scenario of an analysis.
func (r *R) Q(a *Analysis, name string, facts ...Fact) *Q {
	curAn = a
	return a.Query(a.NewScen(name, facts...))
}

func (r *R) scn(q *Q) string {
	if q.sc.name == "" {
		return q.a.rootNm
	}
	return q.a.rootNm + " [" + q.sc.name + "]"
}

func (r *R) done(q *Q, ob string) bool {
	r.states += q.nstates
	q.nstates = 0
	if q.giveUp {
		r.undecided(ob, "too many states")
		q.giveUp = false
		return false
	}
	return true
}

// Must: every way through the entry point to its normal end passes p.
func (r *R) Must(q *Q, what string, p ...P) bool {
	r.uses(p...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	path := q.Path([]State{q.start()}, q.must(p...), isExit)
	if !r.done(q, ob) {
		return true
	}
	for _, x := range p {
		for _, s := range q.Find(x) {
			r.site(s)
		}
	}
	if path != nil {
		r.fail(ob, path[len(path)-1].n.Where(), "a path through "+q.a.rootNm+" ends without: "+what+r.near(q, p...), q.Trace(path)...)
		return false
	}
	if !q.ends() {
		found := false
		for _, x := range p {
			for _, s := range q.Find(x) {
				found = found || q.Match(s, x) == mMust
			}
		}
		if !found {
			r.fail(ob, q.a.rootNm, q.a.rootNm+" neither returns nor comes to: "+what+r.near(q, p...))
			return false
		}
	}
	r.ok(ob)
	return true
}

// ends tells whether some path of the query comes back from the function
// (it need not: it may end in a panic, or never).
func (q *Q) ends() bool {
	if q.endsAt == 0 {
		q.endsAt = 1
		for _, s := range q.All() {
			if isExit(s) {
				q.endsAt = 2
				break
			}
		}
	}
	return q.endsAt == 2
}

// Returns: some path of the query comes back.
func (r *R) Returns(q *Q, what string) bool {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	e := q.ends()
	if !r.done(q, ob) {
		return true
	}
	if !e {
		r.fail(ob, q.a.rootNm, what+": "+q.a.rootNm+" does not return")
		return false
	}
	r.ok(ob)
	return true
}

// near tells what effects of the same name there are, to help reading a report.
func (r *R) near(q *Q, ps ...P) string {
	var out []string
	for _, p := range ps {
		for _, pt := range p.parse() {
			for _, s := range q.All() {
				if e := s.n.Eff(); e != nil && glob(pt.name, e.name) {
					out = append(out, clip(q.EffStr(s), 140)+" at "+q.a.p.Where(s.n.ins))
				}
			}
		}
	}
	sort.Strings(out)
	out = uniqStr(out)
	if len(out) > 4 {
		out = out[:4]
	}
	if len(out) == 0 {
		return " (no such effect is reachable)"
	}
	return " (there is: " + strings.Join(out, "; ") + ")"
}

func uniqStr(v []string) []string {
	var out []string
	for i, s := range v {
		if i == 0 || s != v[i-1] {
			out = append(out, s)
		}
	}
	return out
}

// MustEach: Must for each of i in 0..n-1; "{i}" in the pattern is the index.
func (r *R) MustEach(q *Q, what string, n int, p ...P) bool {
	ok := true
	for i := 0; i < n; i++ {
		if !r.Must(q, strings.ReplaceAll(what, "{i}", fmt.Sprint(i)), subst(p, i)...) {
			ok = false
			break
		}
	}
	return ok
}

func subst(p []P, i int) []P {
	var out []P
	for _, x := range p {
		out = append(out, P(strings.ReplaceAll(string(x), "{i}", fmt.Sprint(i))))
	}
	return out
}

// Before: nothing matching y can be reached without x having happened.
func (r *R) Before(q *Q, what string, x, y P) bool {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	path := q.Path([]State{q.start()}, q.must(x), q.may(y))
	if !r.done(q, ob) {
		return true
	}
	for _, s := range q.Find(y) {
		r.site(s)
	}
	if path != nil {
		r.fail(ob, path[len(path)-1].n.Where(), what+": "+clip(q.EffStr(path[len(path)-1]), 200)+" is reached without "+string(x)+r.near(q, x), q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}

func (r *R) BeforeEach(q *Q, what string, n int, x, y P) bool {
	for i := 0; i < n; i++ {
		if !r.Before(q, strings.ReplaceAll(what, "{i}", fmt.Sprint(i)), subst([]P{x}, i)[0], subst([]P{y}, i)[0]) {
			return false
		}
	}
	return true
}

// After: once x has happened, y happens on every way to the normal end.
func (r *R) After(q *Q, what string, x, y P) bool {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	xs := q.Find(x)
	if len(xs) == 0 {
		r.ok(ob)
		return true
	}
	for _, s := range xs {
		r.site(s)
	}
	path := q.Path(xs, q.must(y), isExit)
	if !r.done(q, ob) {
		return true
	}
	if path != nil {
		r.fail(ob, path[0].n.Where(), what+": after "+clip(q.EffStr(path[0]), 200)+" the end is reached without "+string(y), q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}

// NotAfter: once x may have happened, nothing matching y is reachable
// (paths that pass reset are not followed further).
func (r *R) NotAfter(q *Q, what string, x, y P, reset ...P) bool {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	xs := q.Find(x)
	for _, s := range xs {
		r.site(s)
	}
	path := q.Path(xs, q.must(reset...), q.may(y))
	if !r.done(q, ob) {
		return true
	}
	if path != nil {
		r.fail(ob, path[len(path)-1].n.Where(), what+": "+clip(q.EffStr(path[len(path)-1]), 200)+" can come after "+clip(q.EffStr(path[0]), 200), q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}

// Never: nothing matching p is reachable.
func (r *R) Never(q *Q, what string, p ...P) bool {
	r.uses(p...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, x := range p {
		for _, s := range q.Find(x) {
			if !r.done(q, ob) {
				return true
			}
			r.fail(ob, s.n.Where(), what+": "+clip(q.EffStr(s), 300)+" is reachable", s.n.Where())
			return false
		}
	}
	if !r.done(q, ob) {
		return true
	}
	r.ok(ob)
	return true
}

// Only: every reachable effect that may match kind matches one of allowed.
func (r *R) Only(q *Q, what string, kind P, allowed ...P) bool {
	r.uses(append([]P{kind}, allowed...)...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	ok := true
	for _, s := range q.Find(kind) {
		r.site(s)
		if !q.must(allowed...)(s) {
			r.fail(ob, s.n.Where(), what+": "+clip(q.EffStr(s), 400)+" is none of the allowed forms", s.n.Where())
			ok = false
			break
		}
	}
	if !r.done(q, ob) {
		return true
	}
	if ok {
		r.ok(ob)
	}
	return ok
}

// Exists: something matching p is reachable.
func (r *R) Exists(q *Q, what string, p ...P) bool {
	r.uses(p...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, x := range p {
		for _, s := range q.Find(x) {
			r.site(s)
			if q.Match(s, x) == mMust {
				r.done(q, ob)
				r.ok(ob)
				return true
			}
		}
	}
	if !r.done(q, ob) {
		return true
	}
	r.fail(ob, q.a.rootNm, what+": not reachable"+r.near(q, p...))
	return false
}

// PerIter: in the loop around p, each round that could come to p does.
// loops is how many loops out from p the loop in question is (0: innermost).
func (r *R) PerIter(q *Q, what string, out int, ps ...P) bool {
	r.uses(ps...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	var xs []State
	for _, p := range ps {
		for _, s := range q.Find(p) {
			r.site(s)
			xs = append(xs, s)
		}
	}
	if len(xs) == 0 {
		if r.done(q, ob) {
			r.fail(ob, q.a.rootNm, what+": not reachable"+r.near(q, ps...))
		}
		return false
	}
	did := map[*LoopRef]bool{}
	ok := true
	for _, x := range xs {
		ch := x.n.Chain()
		if len(ch) <= out {
			continue
		}
		l := ch[len(ch)-1-out]
		if did[l] {
			continue
		}
		did[l] = true
		isHdr := func(s State) bool { return s.n.hdr == l }
		for _, h := range q.All() {
			if !isHdr(h) {
				continue
			}
			// can this round come to p at all?
			if q.Path([]State{h}, func(s State) bool { return isHdr(s) || !s.n.InLoop(l) }, func(s State) bool { return q.may(ps...)(s) }) == nil {
				continue
			}
			path := q.Path([]State{h}, func(s State) bool { return !s.n.InLoop(l) || q.must(ps...)(s) }, isHdr)
			if path != nil {
				r.fail(ob, x.n.Where(), what+": a round of the loop goes without "+string(ps[0]), q.Trace(path)...)
				ok = false
				break
			}
		}
		if !ok {
			break
		}
	}
	if !r.done(q, ob) {
		return true
	}
	if len(did) == 0 {
		r.fail(ob, xs[0].n.Where(), what+": not done in a loop")
		return false
	}
	if ok {
		r.ok(ob)
	}
	return ok
}

// FullRange: the loop around p (out loops further out) ends only when its own
// condition says so: no way leaves it from inside.
func (r *R) FullRange(q *Q, what string, out int, ps ...P) bool {
	r.uses(ps...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	did := map[*LoopRef]bool{}
	for _, p := range ps {
		for _, s := range q.Find(p) {
			ch := s.n.Chain()
			if len(ch) > out {
				did[ch[len(ch)-1-out]] = true
			}
		}
	}
	for l := range did {
		for _, s := range q.All() {
			if s.n.kind == nodeIf && s.n.c == l.c && s.n.blk == l.l.Header {
				if b := loopBound(s.n); strings.HasPrefix(b, "(len(") || strings.HasPrefix(b, "(a") || strings.HasPrefix(b, "(-") {
					r.fail(ob, s.n.Where(), what+": the loop runs "+b+" times", s.n.Where())
					return false
				}
			}
			if s.n.c != l.c || s.n.blk == nil || !l.l.Blocks[s.n.blk] || s.n.blk == l.l.Header || s.n.c.li.mustPanic[s.n.blk] {
				continue
			}
			for _, t := range q.Next(s) {
				if t.n.c == l.c && t.n.blk != nil && !l.l.Blocks[t.n.blk] && !l.c.li.mustPanic[t.n.blk] || s.n.kind == nodeRet && s.n.c == l.c {
					r.fail(ob, s.n.Where(), what+": the loop can be left early", s.n.Where())
					return false
				}
			}
		}
	}
	if !r.done(q, ob) {
		return true
	}
	if len(did) == 0 {
		r.fail(ob, q.a.rootNm, what+": no such loop")
		return false
	}
	r.ok(ob)
	return true
}

// Const reads an integer constant of the tree.
func (r *R) Const(pkg, name string, def int64) int64 {
	if pk := r.p.Pkgs[pkg]; pk != nil {
		if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(c.Val()); ok {
				return v
			}
		}
	}
	return def
}

// Then: from every x, y comes before the next stop (or the end).
func (r *R) Then(q *Q, what string, x, y, stop P) bool {
	r.uses(x, y, stop)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	xs := q.Find(x)
	for _, s := range xs {
		r.site(s)
	}
	path := q.Path(xs, q.must(y), func(s State) bool { return isExit(s) || q.may(stop)(s) })
	if !r.done(q, ob) {
		return true
	}
	if path != nil {
		r.fail(ob, path[0].n.Where(), what+": after "+clip(q.EffStr(path[0]), 200)+" comes "+clip(q.EffStr(path[len(path)-1]), 100)+" without "+string(y), q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}

// Result: on every way, result idx of the entry point is one of the forms.
func (r *R) Result(q *Q, what string, idx int, forms ...string) bool {
	r.uses(P(strings.Join(forms, " ")))
	curAn = q.a
	ob := r.scn(q) + ": " + what
	n := 0
	for _, s := range q.rootRets() {
		ret := retOf(s.n)
		if ret == nil || idx >= len(ret.Results) {
			continue
		}
		n++
		v := q.a.Eval(q.a.root, ret.Results[idx])
		if q.matchArg(v, s.e, strings.Join(forms, "||")) != mMust {
			var alts []string
			for _, y := range q.sc.Resolve(v, s.e) {
				alts = append(alts, y.String())
			}
			r.fail(ob, s.n.Where(), what+": returns "+clip(strings.Join(alts, " | "), 400)+", expected "+strings.Join(forms, " or "), s.n.Where())
			return false
		}
		r.site(s)
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	}
	r.ok(ob)
	return true
}

func (q *Q) rootRets() []State {
	var out []State
	for _, s := range q.All() {
		if s.n.kind == nodeRet && s.n.c == q.a.root {
			out = append(out, s)
		}
	}
	sortStates(out)
	return out
}

// loopBound: the n of a loop whose header asks "K < n" of its round number.
func loopBound(nd *Node) string {
	c := nd.cond
	neg := false
	for c.k == KOp && c.name == "not" {
		c = c.args[0]
		neg = !neg
	}
	t := c.String()
	if !neg && strings.HasPrefix(t, "<(K,") {
		return t[4 : len(t)-1]
	}
	if neg && strings.HasPrefix(t, "<=(") && strings.HasSuffix(t, ",K)") {
		return t[3 : len(t)-3]
	}
	// K + c against n
	var x, n *Sym
	add := 0
	switch {
	case c.k == KOp && c.name == "<" && !neg: // x < n
		x, n = c.args[0], c.args[1]
	case c.k == KOp && c.name == "<=" && !neg: // x <= n
		x, n, add = c.args[0], c.args[1], 1
	case c.k == KOp && c.name == "<=" && neg: // not n <= x
		x, n = c.args[1], c.args[0]
	case c.k == KOp && c.name == "<" && neg: // not n < x
		x, n, add = c.args[1], c.args[0], 1
	default:
		return ""
	}
	a := curAn
	_, ts := a.linParts(x)
	for k, co := range ts {
		if co == 1 && k.String() == "K" {
			return a.Add(a.Sub(n, a.Sub(x, k)), a.Int(int64(add))).String()
		}
	}
	return ""
}

// Bound: the loops around p (out loops further out) that count their rounds
// run as often as one of the forms says.
func (r *R) Bound(q *Q, what string, out int, p P, forms ...string) bool {
	r.uses(p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, s := range q.Find(p) {
		ch := s.n.Chain()
		if len(ch) <= out {
			continue
		}
		l := ch[len(ch)-1-out]
		for _, n := range q.g.nodes {
			if n.kind != nodeIf || n.c != l.c || n.blk != l.l.Header {
				continue
			}
			if b := loopBound(n); b != "" && !globAlts(strings.Join(forms, "||"), b) {
				if r.done(q, ob) {
					r.fail(ob, n.Where(), what+": the loop runs "+b+" times, expected "+strings.Join(forms, " or "), n.Where())
				}
				return false
			}
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
	return true
}
