package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an abstract value: an interval of integers, a boolean, nil, not nil or a string.
type V struct {
	k      vk
	lo, hi int64
	b      bool
	s      string
}

type vk int

const (
	vTop vk = iota
	vInt
	vBool
	vNil
	vNonNil
	vStr
)

func vi(x int64) V        { return V{k: vInt, lo: x, hi: x} }
func vr(l, h int64) V     { return V{k: vInt, lo: l, hi: h} }
func vb(x bool) V         { return V{k: vBool, b: x} }
func (v V) isC() bool     { return v.k == vInt && v.lo == v.hi }
func (v V) isBool() bool  { return v.k == vBool }
func (v V) isTrue() bool  { return v.k == vBool && v.b }
func (v V) isFalse() bool { return v.k == vBool && !v.b }

const inf = int64(math.MaxInt64)

func (v V) String() string {
	switch v.k {
	case vInt:
		if v.lo == v.hi {
			return fmt.Sprint(v.lo)
		}
		return fmt.Sprintf("%d..%d", v.lo, v.hi)
	case vBool:
		return fmt.Sprint(v.b)
	case vNil:
		return "nil"
	case vNonNil:
		return "!nil"
	case vStr:
		return fmt.Sprintf("%q", v.s)
	}
	return "T"
}

func join(x, y V) V {
	if x == y {
		return x
	}
	if x.k == vInt && y.k == vInt {
		return vr(min(x.lo, y.lo), max(x.hi, y.hi))
	}
	return V{}
}

// Fact says what value terms that print like pat have in a scenario.
type Fact struct {
	Pat string
	Val V
}

// Scen is a set of assumptions under which an entry point is looked at.
type Scen struct {
	a                      *Analysis
	name                   string
	facts                  []Fact
	fn                     func(s *Sym) (V, bool)
	memo                   map[string]map[int]V
	reachM                 map[string]map[*ssa.BasicBlock]bool
	edgeM                  map[string]map[[2]*ssa.BasicBlock]bool
	busy                   map[int]int
	level, low, cuts, nest int
	used                   map[string]bool
	left                   int64 // the round in which loops are left, 0 if not known
	slackErr               bool  // external errors may be anything
}

func (a *Analysis) NewScen(name string, facts ...Fact) *Scen {
	return &Scen{a: a, name: name, facts: facts, memo: map[string]map[int]V{}, reachM: map[string]map[*ssa.BasicBlock]bool{},
		edgeM: map[string]map[[2]*ssa.BasicBlock]bool{}, busy: map[int]int{}, low: 1 << 30, used: map[string]bool{}}
}

// Env is what is known at a point of a path: iteration numbers of loops being
// run through with known trip counts, the chosen alternative of merges, and
// the outcome of tests made before.
type Env struct {
	iter map[string]int64 // iterKey -> iteration
	phi  map[*Sym]*Sym    // merge -> chosen alternative
	val  map[*Sym]V       // loop-carried constants
	asm  map[*Sym]bool    // tests
	key  string
}

var emptyEnv = (&Env{}).done()

func (e *Env) clone() *Env {
	n := &Env{iter: map[string]int64{}, phi: map[*Sym]*Sym{}, val: map[*Sym]V{}, asm: map[*Sym]bool{}}
	for k, v := range e.iter {
		n.iter[k] = v
	}
	for k, v := range e.phi {
		n.phi[k] = v
	}
	for k, v := range e.val {
		n.val[k] = v
	}
	for k, v := range e.asm {
		n.asm[k] = v
	}
	return n
}

func (e *Env) done() *Env {
	var p []string
	for k, v := range e.iter {
		p = append(p, fmt.Sprintf("i%s=%d", k, v))
	}
	for k, v := range e.phi {
		p = append(p, fmt.Sprintf("p%d=%d", k.id, v.id))
	}
	for k, v := range e.val {
		p = append(p, fmt.Sprintf("v%d=%s", k.id, v))
	}
	for k, v := range e.asm {
		p = append(p, fmt.Sprintf("a%d=%v", k.id, v))
	}
	sort.Strings(p)
	e.key = strings.Join(p, ";")
	return e
}

// Eval gives the value of s in the scenario, at a point of a path.
func (sc *Scen) Eval(s *Sym, e *Env) V {
	if s == nil {
		return V{}
	}
	if b, ok := e.asm[s]; ok {
		return vb(b)
	}
	m := sc.memo[e.key]
	if m == nil {
		m = map[int]V{}
		sc.memo[e.key] = m
	}
	if v, ok := m[s.id]; ok {
		return v
	}
	if d := sc.busy[s.id]; d > 0 {
		if d < sc.low {
			sc.low = d
		}
		return V{}
	}
	sc.level++
	d := sc.level
	sc.busy[s.id] = d
	v := sc.eval(s, e)
	delete(sc.busy, s.id)
	sc.level--
	if sc.low >= d {
		sc.low = 1 << 30
		m[s.id] = v
	} else if sc.cuts++; sc.cuts > 20000 {
		m[s.id] = v
	}
	return v
}

// A fact about @n:PAT holds in round n of a loop only.
func (sc *Scen) fact(s *Sym, e *Env) (V, bool) {
	if sc.fn != nil {
		if v, ok := sc.fn(s); ok {
			return v, true
		}
	}
	if len(sc.facts) == 0 {
		return V{}, false
	}
	str := s.String()
	for _, f := range sc.facts {
		pat := f.Pat
		if strings.HasPrefix(pat, "@") {
			i := strings.Index(pat, ":")
			n, err := strconv.ParseInt(pat[1:i], 10, 64)
			if err != nil || !inRound(e, n) {
				continue
			}
			pat = pat[i+1:]
		}
		for _, p := range strings.Split(pat, "||") {
			if f, is := strings.CutPrefix(p, "field:"); is {
				// what a place holds after stores that differ by path
				if s.k != KPhi || s.base == nil || !glob(f, s.base.String()) {
					continue
				}
			} else if !glob(p, str) {
				continue
			}
			sc.used[f.Pat] = true
			return f.Val, true
		}
	}
	return V{}, false
}

func inRound(e *Env, n int64) bool {
	for _, v := range e.iter {
		if v == n {
			return true
		}
	}
	return false
}

func isErrT(t types.Type) bool { return t != nil && t.String() == "error" }

func (sc *Scen) eval(s *Sym, e *Env) V {
	a := sc.a
	switch s.k {
	case KConst:
		switch s.cv.Kind() {
		case constant.Int:
			return vi(s.c0)
		case constant.Bool:
			return vb(constant.BoolVal(s.cv))
		case constant.String:
			return V{k: vStr, s: constant.StringVal(s.cv)}
		}
		return V{}
	case KNil:
		return V{k: vNil}
	}
	if s.k == KOp && s.name == "has" && len(s.args) == 2 && s.args[1].k != KConst && len(sc.facts) > 0 {
		// a fact about one key
		if v := sc.Eval(s.args[1], e); v.isC() {
			if v, ok := sc.fact(a.Op("has", s.args[0], a.Int(v.lo)), e); ok {
				return v
			}
		}
	}
	if (s.k == KDeref || s.k == KIndex || s.k == KField || s.k == KLookup || s.k == KOp && strings.Contains(s.name, ".")) && len(sc.facts) > 0 && a.hasIter(s) {
		// a fact about one element
		if y := sc.concr(s, e); y != s {
			if v, ok := sc.fact(y, e); ok {
				return v
			}
		}
	}
	if v, ok := sc.fact(s, e); ok {
		return v
	}
	switch s.k {
	case KAddr, KFunc:
		return V{k: vNonNil}
	case KIter:
		if v, ok := e.iter[iterKey(s.ctx, s.loop)]; ok {
			return vi(v)
		}
		if sc.left > 0 {
			return vi(sc.left)
		}
		return vr(0, inf)
	case KLin:
		lo, hi := s.c0, s.c0
		for i, t := range s.args {
			v := sc.Eval(t, e)
			if v.k != vInt {
				return V{}
			}
			l, h := v.lo, v.hi
			if s.coef[i] < 0 {
				l, h = h, l
			}
			lo, hi = satAdd(lo, satMul(l, s.coef[i]), -1), satAdd(hi, satMul(h, s.coef[i]), 1)
		}
		if lo == -inf && hi == inf {
			return V{}
		}
		return vr(lo, hi)
	case KPhi:
		if x, ok := e.phi[s]; ok && x != s {
			return sc.Eval(x, e)
		}
		if v, ok := e.val[s]; ok {
			return v
		}
		alts := sc.Alts(s, e)
		if len(alts) == 0 {
			return V{}
		}
		v := sc.Eval(alts[0], e)
		for _, x := range alts[1:] {
			v = join(v, sc.Eval(x, e))
		}
		return v
	case KVer:
		if alts := sc.Alts(s, e); len(alts) > 0 && !(len(alts) == 1 && alts[0] == s) {
			v := sc.Eval(alts[0], e)
			for _, x := range alts[1:] {
				v = join(v, sc.Eval(x, e))
			}
			return v
		}
	case KOpaque:
		if v, ok := e.val[s]; ok {
			return v
		}
	case KGlobal:
		if isErrT(s.typ) {
			return V{k: vNonNil}
		}
	case KCall:
		switch s.name {
		case "make", "makemap", "makechan", "errors.New", "fmt.Errorf", "copyslice":
			return V{k: vNonNil}
		}
		if isErrT(s.typ) && !sc.slackErr {
			return V{k: vNil}
		}
	case KOp:
		return sc.evalOp(s, e)
	}
	if s.typ != nil {
		if b, ok := s.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return vr(0, 255)
			case types.Uint16:
				return vr(0, 65535)
			case types.Uint32:
				return vr(0, math.MaxUint32)
			}
		}
	}
	_ = a
	return V{}
}

func satMul(x, c int64) int64 {
	if x == inf || x == -inf {
		if c < 0 {
			return -x
		}
		return x
	}
	return x * c
}

func satAdd(x, y int64, dir int64) int64 {
	if x == inf || x == -inf || y == inf || y == -inf {
		return dir * inf
	}
	return x + y
}

func (sc *Scen) evalOp(s *Sym, e *Env) V {
	switch s.name {
	case "math/bits.LeadingZeros64", "math/bits.TrailingZeros64", "math/bits.Len64", "math/bits.OnesCount64":
		if len(s.args) == 1 {
			if v := sc.Eval(s.args[0], e); v.isC() {
				switch u := uint64(v.lo); s.name[len("math/bits."):] {
				case "LeadingZeros64":
					return vi(int64(bits.LeadingZeros64(u)))
				case "TrailingZeros64":
					return vi(int64(bits.TrailingZeros64(u)))
				case "Len64":
					return vi(int64(bits.Len64(u)))
				case "OnesCount64":
					return vi(int64(bits.OnesCount64(u)))
				}
			}
		}
		return vr(0, 64)
	case "compl":
		if v := sc.Eval(s.args[0], e); v.isC() && s.args[0].typ != nil {
			if b, ok := s.args[0].typ.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int, types.Int64, types.Uint64, types.Uint, types.Int32, types.Int16, types.Int8:
					return vi(^v.lo)
				case types.Uint32:
					return vi(int64(^uint32(v.lo)))
				case types.Uint8:
					return vi(int64(^uint8(v.lo)))
				}
			}
		}
		return V{}
	case "not":
		v := sc.Eval(s.args[0], e)
		if v.isBool() {
			return vb(!v.b)
		}
		return V{}
	case "==":
		if s.args[0] == s.args[1] {
			return vb(true)
		}
		x, y := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e)
		switch {
		case x.k == vInt && y.k == vInt:
			if x.isC() && y.isC() {
				return vb(x.lo == y.lo)
			}
			if x.hi < y.lo || y.hi < x.lo {
				return vb(false)
			}
		case x.k == vBool && y.k == vBool:
			return vb(x.b == y.b)
		case x.k == vStr && y.k == vStr:
			return vb(x.s == y.s)
		case x.k == vNil && y.k == vNil:
			return vb(true)
		case x.k == vNil && y.k == vNonNil, x.k == vNonNil && y.k == vNil:
			return vb(false)
		}
		if isNum(s.args[0], x) && isNum(s.args[1], y) {
			if v, ok := sc.a.Sub(s.args[0], s.args[1]).IntVal(); ok {
				return vb(v == 0)
			}
		}
	case "<", "<=":
		if s.args[0] == s.args[1] {
			return vb(s.name == "<=")
		}
		x, y := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e)
		if x.k == vTop || y.k == vTop {
			// a difference may still be known
			d := sc.Eval(sc.a.Sub(s.args[1], s.args[0]), e)
			if d.k == vInt {
				if s.name == "<" {
					if d.lo > 0 {
						return vb(true)
					}
					if d.hi <= 0 {
						return vb(false)
					}
				} else {
					if d.lo >= 0 {
						return vb(true)
					}
					if d.hi < 0 {
						return vb(false)
					}
				}
			}
			return V{}
		}
		if x.k == vInt && y.k == vInt {
			if s.name == "<" {
				if x.hi < y.lo {
					return vb(true)
				}
				if x.lo >= y.hi {
					return vb(false)
				}
			} else {
				if x.hi <= y.lo {
					return vb(true)
				}
				if x.lo > y.hi {
					return vb(false)
				}
			}
			if d, ok := sc.a.Sub(s.args[0], s.args[1]).IntVal(); ok {
				if s.name == "<" {
					return vb(d < 0)
				}
				return vb(d <= 0)
			}
		}
	case "&&", "||":
	case "quo", "rem", "mul":
		x, y := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e)
		if x.isC() && y.isC() {
			switch s.name {
			case "mul":
				return vi(x.lo * y.lo)
			case "quo":
				if y.lo != 0 {
					return vi(x.lo / y.lo)
				}
			case "rem":
				if y.lo != 0 {
					return vi(x.lo % y.lo)
				}
			}
		}
		if y.isC() && y.lo > 0 && x.k == vInt && x.lo >= 0 {
			switch s.name {
			case "quo":
				h := inf
				if x.hi != inf {
					h = x.hi / y.lo
				}
				return vr(x.lo/y.lo, h)
			case "rem":
				if x.hi < y.lo {
					return x
				}
				return vr(0, y.lo-1)
			}
		}
		if s.name == "mul" && x.k == vInt && y.k == vInt && x.lo >= 0 && y.lo >= 0 {
			return vr(x.lo*y.lo, inf)
		}
	case "and", "or", "xor", "shl", "shr":
		x, y := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e)
		if x.isC() && y.isC() {
			switch s.name {
			case "and":
				return vi(x.lo & y.lo)
			case "or":
				return vi(x.lo | y.lo)
			case "xor":
				return vi(x.lo ^ y.lo)
			case "shl":
				if y.lo >= 0 && y.lo < 62 {
					return vi(x.lo << uint(y.lo))
				}
			case "shr":
				if y.lo >= 0 && y.lo < 64 {
					return vi(x.lo >> uint(y.lo))
				}
			}
		}
	case "min", "max":
		x, y := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e)
		if x.isC() && y.isC() {
			if s.name == "min" {
				return vi(min(x.lo, y.lo))
			}
			return vi(max(x.lo, y.lo))
		}
	case "len", "cap":
		x := sc.Eval(s.args[0], e)
		switch x.k {
		case vNil:
			return vi(0)
		case vStr:
			return vi(int64(len(x.s)))
		}
		return vr(0, inf)
	case "append":
		if len(s.args) > 0 {
			return V{}
		}
	case "geo*":
		i, st, k := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e), sc.Eval(s.args[2], e)
		if i.isC() && st.isC() && k.isC() {
			v := i.lo
			for j := int64(0); j < k.lo && j < 70; j++ {
				v *= st.lo
			}
			return vi(v)
		}
	case "geo/":
		i, st, k := sc.Eval(s.args[0], e), sc.Eval(s.args[1], e), sc.Eval(s.args[2], e)
		if i.isC() && st.isC() && k.isC() && st.lo != 0 {
			v := i.lo
			for j := int64(0); j < k.lo && j < 70; j++ {
				v /= st.lo
			}
			return vi(v)
		}
	case "trunc8":
		x := sc.Eval(s.args[0], e)
		if x.isC() {
			return vi(int64(uint8(x.lo)))
		}
		if x.k == vInt && x.lo >= 0 && x.hi <= 255 {
			return x
		}
		return vr(0, 255)
	case "trunc32":
		x := sc.Eval(s.args[0], e)
		if x.isC() {
			return vi(int64(uint32(x.lo)))
		}
		if x.k == vInt && x.lo >= 0 && x.hi <= math.MaxUint32 {
			return x
		}
	case "LE8", "BE8", "LE4", "BE4", "LE2":
		return V{}
	}
	if strings.HasPrefix(s.name, "#") && isErrT(s.typ) && !sc.slackErr {
		return V{k: vNil}
	}
	return V{}
}

func isNum(s *Sym, v V) bool {
	if v.k == vInt || s.k == KLin {
		return true
	}
	return s.typ != nil && isInteger(s.typ)
}

// ---- which blocks of an activation can be reached ----

// edges gives the feasible control flow edges of activation c.
func (sc *Scen) edges(c *Ctx, e *Env) (map[*ssa.BasicBlock]bool, map[[2]*ssa.BasicBlock]bool) {
	key := fmt.Sprintf("%d|%s", c.id, e.key)
	if m, ok := sc.reachM[key]; ok {
		return m, sc.edgeM[key]
	}
	sc.nest++
	// while it is being worked out everything counts as feasible
	all := map[*ssa.BasicBlock]bool{}
	allE := map[[2]*ssa.BasicBlock]bool{}
	for _, b := range c.fn.Blocks {
		all[b] = true
		for _, s := range b.Succs {
			allE[[2]*ssa.BasicBlock{b, s}] = true
		}
	}
	sc.reachM[key], sc.edgeM[key] = all, allE
	m := map[*ssa.BasicBlock]bool{}
	em := map[[2]*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{c.fn.Blocks[0]}
	m[c.fn.Blocks[0]] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		take := []bool{true, true}
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				v := sc.Eval(sc.a.Eval(c, i.Cond), e)
				if v.isTrue() {
					take[1] = false
				} else if v.isFalse() {
					take[0] = false
				}
			}
		}
		for i, s := range b.Succs {
			if i < 2 && !take[i] {
				continue
			}
			em[[2]*ssa.BasicBlock{b, s}] = true
			if !m[s] {
				m[s] = true
				work = append(work, s)
			}
		}
	}
	if sc.low == 1<<30 && sc.nest == 1 {
		sc.reachM[key], sc.edgeM[key] = m, em
	} else {
		delete(sc.reachM, key)
		delete(sc.edgeM, key)
	}
	sc.nest--
	return m, em
}

// Alts are the values a merge can have in the scenario.
func (sc *Scen) Alts(s *Sym, e *Env) []*Sym {
	if x, ok := e.phi[s]; ok && x != s {
		return []*Sym{x}
	}
	switch {
	case s.k == KPhi && s.base == nil && s.name == "":
		x, ok := s.val.(*ssa.Phi)
		if !ok {
			return s.args
		}
		b := x.Block()
		if sc.a.isHeader(s.ctx, b) {
			return s.args
		}
		live, em := sc.edges(s.ctx, e)
		var out []*Sym
		for i, ed := range x.Edges {
			p := b.Preds[i]
			if s.ctx.li.mustPanic[p] || !live[p] || !em[[2]*ssa.BasicBlock{p, b}] {
				continue
			}
			out = append(out, sc.a.Eval(s.ctx, ed))
		}
		if len(out) == 0 {
			return s.args
		}
		return uniqSyms(out)
	case s.k == KPhi && s.base == nil: // results of a call
		live, _ := sc.edges(s.ctx, e)
		var out []*Sym
		for i, r := range returnsOf(s.ctx) {
			if i < len(s.args) && live[r.Block()] {
				out = append(out, s.args[i])
			}
		}
		if len(out) == 0 {
			return s.args
		}
		return uniqSyms(out)
	case s.k == KPhi || s.k == KVer && s.ins != nil:
		path := s.base
		if s.k == KVer {
			path = s.args[0]
		}
		a := sc.a
		r := a.newReach(s.ctx, s.ins, path)
		cut := false
		r.edge = func(c *Ctx, from, to *ssa.BasicBlock) bool {
			live, em := sc.edges(c, e)
			if !live[from] || !em[[2]*ssa.BasicBlock{from, to}] {
				cut = true
				return false
			}
			return true
		}
		r.live = func(c *Ctx, b *ssa.BasicBlock) bool {
			live, _ := sc.edges(c, e)
			if !live[b] {
				cut = true
			}
			return live[b]
		}
		r.block(s.ctx, s.ins.Block(), indexOf(s.ins.Block(), s.ins))
		if !cut {
			if s.k == KVer {
				return []*Sym{s}
			}
			return s.args
		}
		x := a.finish(r, s.ctx, s.ins, path)
		if x == s {
			return []*Sym{s}
		}
		if x.k == KPhi && x.base != nil {
			return x.args
		}
		return []*Sym{x}
	}
	return []*Sym{s}
}

func uniqSyms(v []*Sym) []*Sym {
	m := map[*Sym]bool{}
	var out []*Sym
	for _, x := range v {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return out
}

func (a *Analysis) isHeader(c *Ctx, b *ssa.BasicBlock) bool { return c.li.ByHeader[b] != nil }

// Resolve gives the forms s can have in the scenario: merges replaced by the
// feasible alternatives, known iteration numbers put in.
func (sc *Scen) Resolve(s *Sym, e *Env) []*Sym {
	memo := map[*Sym][]*Sym{}
	busy := map[*Sym]bool{}
	var rec func(x *Sym, d int) []*Sym
	rec = func(x *Sym, d int) []*Sym {
		if x == nil {
			return []*Sym{nil}
		}
		if r, ok := memo[x]; ok {
			return r
		}
		if busy[x] || d > 40 {
			return []*Sym{x}
		}
		switch x.k {
		case KConst, KNil, KZero, KParam, KGlobal, KLocal, KFunc:
			return []*Sym{x}
		}
		busy[x] = true
		out := sc.res1(x, e, func(y *Sym) []*Sym { return rec(y, d+1) })
		delete(busy, x)
		if len(out) > 24 {
			out = []*Sym{x}
		}
		memo[x] = out
		return out
	}
	return rec(s, 0)
}

func (sc *Scen) res1(x *Sym, e *Env, rec func(*Sym) []*Sym) []*Sym {
	a := sc.a
	if v := sc.Eval(x, e); v.isC() {
		return []*Sym{a.Int(v.lo)}
	} else if v.isBool() {
		return []*Sym{a.Bool(v.b)}
	}
	return sc.res2(x, e, rec)
}

// resPlace: the forms of a place: what is known of its parts put in.
func (sc *Scen) resPlace(x *Sym, e *Env) []*Sym {
	return sc.res2(x, e, func(y *Sym) []*Sym { return sc.Resolve(y, e) })
}

func (sc *Scen) res2(x *Sym, e *Env, rec func(*Sym) []*Sym) []*Sym {
	a := sc.a
	if x.k == KPhi || x.k == KVer {
		alts := sc.Alts(x, e)
		if !(len(alts) == 1 && alts[0] == x) {
			var out []*Sym
			for _, y := range alts {
				out = append(out, rec(y)...)
			}
			return uniqSyms(out)
		}
		if x.k == KPhi {
			return []*Sym{x}
		}
	}
	if len(x.args) == 0 {
		return []*Sym{x}
	}
	// all combinations of the arguments' forms
	combos := [][]*Sym{nil}
	changed := false
	for _, y := range x.args {
		rs := rec(y)
		if len(rs) != 1 || rs[0] != y {
			changed = true
		}
		var next [][]*Sym
		for _, c := range combos {
			for _, r := range rs {
				next = append(next, append(append([]*Sym{}, c...), r))
			}
		}
		combos = next
		if len(combos) > 24 {
			return []*Sym{x}
		}
	}
	if !changed {
		return []*Sym{x}
	}
	var out []*Sym
	for _, c := range combos {
		out = append(out, a.rebuild(x, c))
	}
	return uniqSyms(out)
}

// rebuild makes a term like x over other arguments.
func (a *Analysis) rebuild(x *Sym, args []*Sym) *Sym {
	switch x.k {
	case KField:
		return a.Field(strip(args[0]), x.owner(), x.name, x.typ)
	case KIndex:
		return a.Index(strip(args[0]), args[1], x.typ)
	case KDeref:
		return a.Deref(args[0])
	case KLookup:
		return a.Lookup(args[0], args[1], x.typ)
	case KAddr:
		return a.Addr(args[0])
	case KSlice:
		return a.Slice(strip(args[0]), args[1], args[2])
	case KLin:
		r := a.Int(x.c0)
		for i, t := range args {
			r = a.Add(r, a.Scale(t, x.coef[i]))
		}
		return r
	case KOp:
		switch x.name {
		case "mul":
			return a.Mul(args[0], args[1])
		case "quo":
			return a.Quo(args[0], args[1])
		case "rem":
			return a.Rem(args[0], args[1])
		case "len":
			return a.lenOf(args[0], nil)
		}
		if strings.HasPrefix(x.name, "#") && x.ins != nil {
			r := args[0]
			return a.intern(fmt.Sprintf("ext:%d%s", r.id, x.name), func() *Sym {
				return &Sym{k: KOp, name: x.name, args: args, ctx: x.ctx, ins: x.ins, typ: x.typ}
			})
		}
		s := a.Op(x.name, args...)
		if s.typ == nil {
			s.typ = x.typ
		}
		return s
	case KCall:
		return a.intern(fmt.Sprintf("rcall:%s:%d:%p:%s", x.name, x.ctx.id, x.ins, ids(args)), func() *Sym {
			return &Sym{k: KCall, name: x.name, args: args, ctx: x.ctx, ins: x.ins, val: x.val, typ: x.typ, base: x.base}
		})
	case KVer:
		return a.intern(fmt.Sprintf("rver:%d:%s", x.id, ids(args)), func() *Sym {
			return &Sym{k: KVer, args: args, ctx: x.ctx, typ: x.typ}
		})
	case KComp:
		return a.intern("comp:"+x.name+":"+ids(args), func() *Sym { return &Sym{k: KComp, name: x.name, args: args, typ: x.typ} })
	case KElem:
		return a.intern(fmt.Sprintf("el:%s:%s", x.name, ids(args)), func() *Sym {
			return &Sym{k: KElem, name: x.name, args: args, loop: x.loop, ctx: x.ctx, typ: x.typ}
		})
	}
	return x
}

var _ = token.ADD

// hasIter: the term depends on the round of a loop.
func (a *Analysis) hasIter(s *Sym) bool {
	if s == nil {
		return false
	}
	if s.k == KIter || s.k == KOpaque && s.loop != nil {
		return true
	}
	if v, ok := a.iterMemo[s]; ok {
		return v
	}
	if a.iterMemo == nil {
		a.iterMemo = map[*Sym]bool{}
	}
	a.iterMemo[s] = false
	for _, y := range s.args {
		if a.hasIter(y) {
			a.iterMemo[s] = true
			return true
		}
	}
	return false
}

// concr puts in the numbers of the rounds.
func (sc *Scen) concr(s *Sym, e *Env) *Sym {
	return sc.a.Rewrite(s, func(x *Sym) *Sym {
		if x.k == KIter || x.k == KOpaque && x.loop != nil && x.typ != nil && isInteger(x.typ) {
			if v := sc.Eval(x, e); v.isC() {
				return sc.a.Int(v.lo)
			}
		}
		return nil
	})
}
