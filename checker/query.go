package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is a node of the supergraph together with what is known there.
type State struct {
	n *Node
	e *Env
}

func (s State) key() string { return fmt.Sprintf("%d|%s", s.n.id, s.e.key) }

// Q answers questions about the paths of one entry point in one scenario.
type Q struct {
	endsAt  int // 0: not known, 1: no path comes back, 2: some path does
	a       *Analysis
	g       *Graph
	sc      *Scen
	tracked map[*Sym]bool
	condN   map[*Sym]int
	mm      map[string]mres
	giveUp  bool
	nstates int
	all     map[string]State
	prev    map[string]string
	retphis map[*Ctx][]*Sym
	lim     int
	mach    *Mach
}

func (a *Analysis) Query(sc *Scen) *Q {
	q := &Q{a: a, g: a.Graph(), sc: sc, tracked: map[*Sym]bool{}, condN: map[*Sym]int{}, mm: map[string]mres{}, lim: 150000}
	a.prepTrack()
	q.tracked, q.condN = a.tracked, a.condN
	q.retphis = a.retphis
	return q
}

// prepTrack finds the merges that decide branches.
func (a *Analysis) prepTrack() {
	if a.tracked != nil {
		return
	}
	a.tracked, a.condN, a.retphis = map[*Sym]bool{}, map[*Sym]int{}, map[*Ctx][]*Sym{}
	for _, n := range a.Graph().nodes {
		if n.kind != nodeIf {
			continue
		}
		c := n.cond
		for c.k == KOp && c.name == "not" {
			c = c.args[0]
		}
		a.condN[c]++
		n.cond.Contains(func(s *Sym) bool {
			if s.k == KPhi && s.base == nil && s.val != nil {
				a.tracked[s] = true
				if s.name != "" && s.ctx.parent != nil {
					a.retphis[s.ctx] = append(a.retphis[s.ctx], s)
				}
			}
			if s.k == KOpaque && s.loop != nil && strings.HasPrefix(s.name, "~") {
				a.tracked[s] = true
			}
			return false
		})
	}
	for c, v := range a.retphis {
		a.retphis[c] = uniqSyms(v)
	}
}

func (q *Q) owner(s *Sym) *Ctx {
	if s.k == KPhi && s.name != "" {
		return s.ctx.parent
	}
	return s.ctx
}

const maxTrip = 140

// Next gives the states after s.
func (q *Q) Next(s State) []State {
	n, e := s.n, s.e
	var out []State
	switch n.kind {
	case nodePanic, nodeExit:
		return nil
	case nodeIf:
		v := q.sc.Eval(n.cond, e)
		for i, t := range n.succs {
			if v.isTrue() && i == 1 || v.isFalse() && i == 0 {
				continue
			}
			e2 := e
			if !v.isBool() {
				e2 = q.assume(n, e, i == 0)
				if e2 == nil {
					continue
				}
				// a loop whose exit cannot be decided is not run step by step
				if l := q.exitOf(n); l != nil {
					if _, ok := e2.iter[iterKey(n.c, l)]; ok {
						e2 = e2.clone()
						delete(e2.iter, iterKey(n.c, l))
						for sy := range e2.val {
							if sy.loop == l && sy.ctx == n.c {
								delete(e2.val, sy)
							}
						}
						e2.done()
					}
				}
			}
			out = append(out, q.move(n, t, e2))
		}
		return out
	}
	for _, t := range n.succs {
		out = append(out, q.move(n, t, e))
	}
	return out
}

// exitOf: the innermost loop that a branch leaves on one side.
func (q *Q) exitOf(n *Node) *NatLoop {
	for l := n.c.li.Inner[n.blk]; l != nil; l = l.Parent {
		in := 0
		for _, s := range n.blk.Succs {
			if l.Blocks[s] {
				in++
			}
		}
		if in < len(n.blk.Succs) {
			return l
		}
	}
	return nil
}

func (q *Q) assume(n *Node, e *Env, val bool) *Env {
	c := n.cond
	for c.k == KOp && c.name == "not" {
		c = c.args[0]
		val = !val
	}
	if q.condN[c] < 2 {
		return e
	}
	e2 := e.clone()
	e2.asm[c] = val
	return e2.done()
}

// move goes from n to t and brings what is known up to date.
func (q *Q) move(n, t *Node, e *Env) State {
	if n.kind == nodeRet {
		e2 := e.clone()
		for _, rp := range q.retphis[n.c] {
			for i, r := range returnsOf(n.c) {
				if r == n.ins && i < len(rp.args) {
					x := rp.args[i]
					if y, ok := e.phi[x]; ok {
						x = y
					}
					if w, ok := e.val[x]; ok {
						e2.val[rp] = w
						delete(e2.phi, rp)
					} else {
						e2.phi[rp] = x
						delete(e2.val, rp)
					}
				}
			}
		}
		q.dropCtx(e2, n.c)
		return State{t, e2.done()}
	}
	if t.kind != nodeBlock || n.c != t.c || n.blk == nil {
		return State{t, e}
	}
	c := t.c
	from, to := n.blk, t.blk
	isEdge := false
	for _, s := range from.Succs {
		if s == to {
			isEdge = true
		}
	}
	if !isEdge {
		return State{t, e}
	}
	e2 := e.clone()
	changed := false
	// loops left
	for l := c.li.Inner[from]; l != nil; l = l.Parent {
		if !l.Blocks[to] && !q.a.keepIter {
			k := iterKey(c, l)
			if _, ok := e2.iter[k]; ok {
				// the value may still be asked for after the loop: keep what is known of merges only
				delete(e2.iter, k)
				changed = true
			}
		}
	}
	edge := -1
	for i, p := range to.Preds {
		if p == from {
			edge = i
		}
	}
	l := c.li.ByHeader[to]
	if l != nil {
		k := iterKey(c, l)
		if l.Latch[from] {
			if v, ok := e2.iter[k]; ok {
				if v+1 > q.a.maxTrip {
					delete(e2.iter, k)
				} else {
					e2.iter[k] = v + 1
				}
				changed = true
			}
			// what was found out in the last round does not hold in the next
			for s := range e2.asm {
				if q.inLoop(s, c, l) {
					delete(e2.asm, s)
					changed = true
				}
			}
		} else {
			e2.iter[k] = 0
			changed = true
		}
	}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		s := q.a.Eval(c, p)
		if !q.tracked[s] || edge < 0 {
			continue
		}
		changed = true
		x := q.a.Eval(c, p.Edges[edge])
		if l != nil {
			delete(e2.phi, s)
			delete(e2.val, s)
			if v := q.sc.Eval(x, e); v.isC() || v.isBool() || v.k == vNil || v.k == vNonNil {
				if !(v.isC() && len(e2.iter) == 0) {
					e2.val[s] = v
				} else if v.isC() && e2.iter[iterKey(c, l)] >= 0 {
					e2.val[s] = v
				}
			}
			continue
		}
		if y, ok := e.phi[x]; ok {
			x = y
		}
		if w, ok := e.val[x]; ok {
			e2.val[s] = w
			delete(e2.phi, s)
		} else {
			e2.phi[s] = x
			delete(e2.val, s)
		}
	}
	if !changed {
		return State{t, e}
	}
	return State{t, e2.done()}
}

func (q *Q) inLoop(s *Sym, c *Ctx, l *NatLoop) bool {
	key := fmt.Sprintf("%d/%d/%p", s.id, c.id, l)
	if v, ok := q.a.inLoopM[key]; ok {
		return v
	}
	v := s.Contains(func(x *Sym) bool {
		if x.k == KIter && x.ctx == c && x.loop == l {
			return true
		}
		// anything worked out in the loop, in this activation or in one entered from it
		ins := x.ins
		if ins == nil {
			if i, ok := x.val.(ssa.Instruction); ok {
				ins = i
			}
		}
		if ins == nil || x.ctx == nil {
			return false
		}
		b := ins.Block()
		for y := x.ctx; y != nil; y = y.parent {
			if y == c {
				return l.Blocks[b]
			}
			if y.site != nil {
				b = y.site.Block()
			}
		}
		return false
	})
	if q.a.inLoopM == nil {
		q.a.inLoopM = map[string]bool{}
	}
	q.a.inLoopM[key] = v
	return v
}

func (q *Q) dropCtx(e *Env, c *Ctx) {
	pre := fmt.Sprintf("%d/", c.id)
	for s := range e.asm {
		if s.ctx == c {
			delete(e.asm, s)
		}
	}
	if q.a.keepIter {
		return // it is overwritten when the activation is entered again
	}
	for k := range e.iter {
		if strings.HasPrefix(k, pre) {
			delete(e.iter, k)
		}
	}
	for s := range e.phi {
		if q.owner(s) == c {
			delete(e.phi, s)
		}
	}
	for s := range e.val {
		if q.owner(s) == c {
			delete(e.val, s)
		}
	}
}

// ---- matching effects ----

// P is a pattern for effects: "name(arg, arg...)" with '%' wildcards, and "||"
// between alternatives. A pattern with fewer arguments than the effect ignores
// the rest.
type P string

type mres int

const (
	mNo mres = iota
	mMay
	mMust
)

type pat struct {
	name string
	args []string
	has  bool
}

var patMemo = map[P][]pat{}

func (p P) parse() []pat {
	if r, ok := patMemo[p]; ok {
		return r
	}
	var out []pat
	for _, alt := range strings.Split(string(p), " || ") {
		alt = strings.TrimSpace(alt)
		// the argument list is the last balanced parenthesis group
		if !strings.HasSuffix(alt, ")") {
			out = append(out, pat{name: alt})
			continue
		}
		d := 0
		i := len(alt) - 1
		for ; i >= 0; i-- {
			if alt[i] == ')' {
				d++
			} else if alt[i] == '(' {
				d--
				if d == 0 {
					break
				}
			}
		}
		out = append(out, pat{name: alt[:i], args: splitTop(alt[i+1 : len(alt)-1]), has: true})
	}
	patMemo[p] = out
	return out
}

func splitTop(s string) []string {
	if strings.TrimSpace(s) == "" {
		return nil
	}
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// Match says whether the effect of a state is of the pattern.
func (q *Q) Match(s State, p P) mres {
	ef := s.n.Eff()
	if ef == nil {
		return mNo
	}
	if s.n.blk != nil && s.n.c.li.mustPanic[s.n.blk] {
		return mNo
	}
	key := string(p) + "|" + s.key()
	if r, ok := q.mm[key]; ok {
		return r
	}
	best := mNo
	for _, pt := range p.parse() {
		if !glob(pt.name, ef.name) {
			continue
		}
		r := mMust
		if pt.has {
			for i, ap := range pt.args {
				if i >= len(ef.args) {
					r = mNo
					break
				}
				if ap == "%" || ap == "_" {
					continue
				}
				r = min(r, q.matchForms(q.forms(ef, i, s.e), ap))
				if r == mNo {
					break
				}
			}
		}
		best = max(best, r)
	}
	q.mm[key] = best
	return best
}

func (q *Q) matchArg(x *Sym, e *Env, p string) mres {
	return q.matchForms(q.sc.Resolve(x, e), p)
}

// forms: what argument i of an effect can be. The place a store goes to is
// that place, whatever it holds.
func (q *Q) forms(ef *Eff, i int, e *Env) []*Sym {
	x := ef.args[i]
	if ef.kind == "store" && i == 0 {
		switch x.k {
		case KField, KIndex, KDeref:
			return q.sc.resPlace(x, e)
		}
	}
	return q.sc.Resolve(x, e)
}

func (q *Q) matchForms(ys []*Sym, p string) mres {
	all, any := true, false
	for _, y := range ys {
		if globAlts(p, y.String()) {
			any = true
		} else {
			all = false
		}
	}
	switch {
	case any && all:
		return mMust
	case any:
		return mMay
	}
	return mNo
}

func globAlts(p, s string) bool {
	for _, x := range strings.Split(p, "||") {
		if glob(x, s) {
			return true
		}
	}
	return false
}

// EffStr prints the effect of a state with what is known put in.
func (q *Q) EffStr(s State) string {
	ef := s.n.Eff()
	if ef == nil {
		return ""
	}
	var as []string
	for i := range ef.args {
		var alts []string
		for _, y := range q.forms(ef, i, s.e) {
			alts = append(alts, y.String())
		}
		as = append(as, strings.Join(alts, "|"))
	}
	return ef.name + "(" + strings.Join(as, ", ") + ")"
}

// ---- searching ----

func (q *Q) start() State { return State{q.g.entry, emptyEnv} }

// All states reachable from the entry.
func (q *Q) All() map[string]State {
	if q.all != nil {
		return q.all
	}
	q.all, q.prev = map[string]State{}, map[string]string{}
	var work []State
	st := q.start()
	q.all[st.key()] = st
	work = append(work, st)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range q.Next(s) {
			k := t.key()
			if _, ok := q.all[k]; !ok {
				q.all[k] = t
				q.prev[k] = s.key()
				work = append(work, t)
				if len(q.all) > q.lim {
					q.giveUp = true
					return q.all
				}
			}
		}
	}
	q.nstates += len(q.all)
	return q.all
}

// Path from one of the starts to a goal that passes no state where stop holds
// (the starting states themselves are not tested). nil if there is none.
func (q *Q) Path(starts []State, stop, goal func(State) bool) []State {
	seen, from := map[string]bool{}, map[string]bool{}
	prev := map[string]State{}
	var work []State
	for _, s := range starts {
		if !seen[s.key()] {
			seen[s.key()] = true
			from[s.key()] = true
			work = append(work, s)
		}
	}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, t := range q.Next(s) {
			k := t.key()
			if seen[k] && !from[k] {
				continue
			}
			if goal(t) {
				path := []State{t}
				for x := s; ; {
					path = append([]State{x}, path...)
					y, ok := prev[x.key()]
					if !ok {
						break
					}
					x = y
				}
				return path
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			prev[k] = s
			if stop(t) {
				continue
			}
			work = append(work, t)
			if len(seen) > q.lim {
				q.giveUp = true
				return nil
			}
		}
	}
	q.nstates += len(seen)
	return nil
}

// Find lists the reachable states whose effect may match.
func (q *Q) Find(p P) []State {
	var out []State
	for _, s := range q.All() {
		if q.Match(s, p) != mNo {
			out = append(out, s)
		}
	}
	sortStates(out)
	return out
}

func sortStates(v []State) {
	sort.SliceStable(v, func(i, j int) bool { return less(v[i], v[j]) })
}

func less(x, y State) bool {
	if x.n.id != y.n.id {
		return x.n.id < y.n.id
	}
	return x.e.key < y.e.key
}

func (q *Q) must(ps ...P) func(State) bool {
	return func(s State) bool {
		for _, p := range ps {
			if q.Match(s, p) == mMust {
				return true
			}
		}
		return false
	}
}

func (q *Q) may(ps ...P) func(State) bool {
	return func(s State) bool {
		for _, p := range ps {
			if q.Match(s, p) != mNo {
				return true
			}
		}
		return false
	}
}

func isExit(s State) bool { return s.n.kind == nodeExit }

func never(State) bool { return false }

// Trace prints the interesting points of a path.
func (q *Q) Trace(path []State) []string {
	var out []string
	last := ""
	for _, s := range path {
		var t string
		switch {
		case s.n.kind == nodeIf:
			continue
		case s.n.Eff() != nil:
			ef := s.n.Eff()
			if strings.HasPrefix(ef.name, "=local") || strings.HasPrefix(ef.name, "builtin.len") {
				continue
			}
			t = fmt.Sprintf("%s  at %s", clip(q.EffStr(s), 160), s.n.Where())
		case s.n.kind == nodeRet:
			t = fmt.Sprintf("return from %s  at %s", fnName(s.n.c.fn), q.a.p.Where(s.n.ins))
		case s.n.kind == nodeExit:
			t = "exit of " + q.a.rootNm
		default:
			continue
		}
		if t != last {
			out = append(out, t)
		}
		last = t
	}
	if len(out) > 60 {
		out = append(append(append([]string{}, out[:25]...), fmt.Sprintf("... %d more ...", len(out)-50)), out[len(out)-25:]...)
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
