package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A forward dataflow analysis that works out what byte slices, strings, arrays
// and variables hold at each state of a query: buffers are lists of segments at
// linear offsets, each segment a piece whose origin is known (bytes of another
// buffer, the encoding of an integer, a digest, zeros). States that are reached
// over several edges keep what all of them agree on.

type seg struct{ lo, hi, p *Sym }

type region struct {
	segs []seg
	init int8 // 0 zeros, 1 as it came, 2 unknown
	n    *Sym // length, nil: unknown
}

type mreg struct {
	c *Ctx
	v ssa.Value
	i int
}

// MS is the dataflow fact at a state.
type MS struct {
	regs   map[mreg]*Sym
	mem    map[*Sym]*Sym
	byt    map[*Sym]*region
	hash   map[*Sym]*Sym
	stored map[*Sym]bool
}

func newMS() *MS {
	return &MS{map[mreg]*Sym{}, map[*Sym]*Sym{}, map[*Sym]*region{}, map[*Sym]*Sym{}, map[*Sym]bool{}}
}

func (m *MS) clone() *MS {
	n := &MS{make(map[mreg]*Sym, len(m.regs)), make(map[*Sym]*Sym, len(m.mem)), make(map[*Sym]*region, len(m.byt)), make(map[*Sym]*Sym, len(m.hash)), make(map[*Sym]bool, len(m.stored))}
	for k, v := range m.regs {
		n.regs[k] = v
	}
	for k, v := range m.mem {
		n.mem[k] = v
	}
	for k, v := range m.byt {
		n.byt[k] = v
	}
	for k, v := range m.hash {
		n.hash[k] = v
	}
	for k := range m.stored {
		n.stored[k] = true
	}
	return n
}

func sameReg(x, y *region) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil || x.init != y.init || x.n != y.n || len(x.segs) != len(y.segs) {
		return false
	}
	m := map[seg]bool{}
	for _, s := range x.segs {
		m[s] = true
	}
	for _, s := range y.segs {
		if !m[s] {
			return false
		}
	}
	return true
}

// Mach runs the analysis over the states of a query.
type Mach struct {
	q     *Q
	a     *Analysis
	in    map[string]*MS
	st    map[string]State
	cur   *MS
	env   *Env
	here  State
	seq   int
	types map[*Sym]types.Type
	join0 State
	got   map[string]*Sym // what a read puts into its buffer, by state
}

func (q *Q) Mach() *Mach {
	if q.mach != nil {
		return q.mach
	}
	m := &Mach{q: q, a: q.a, in: map[string]*MS{}, st: map[string]State{}, types: map[*Sym]types.Type{}}
	q.mach = m
	m.run()
	return m
}

const machSteps = 120000

type edgeIn struct {
	from string
	i    int
	m    *MS
}

func sameMS(x, y *MS) bool {
	if len(x.regs) != len(y.regs) || len(x.mem) != len(y.mem) || len(x.byt) != len(y.byt) || len(x.hash) != len(y.hash) || len(x.stored) != len(y.stored) {
		return false
	}
	for k, v := range x.regs {
		if y.regs[k] != v {
			return false
		}
	}
	for k, v := range x.mem {
		if y.mem[k] != v {
			return false
		}
	}
	for k, v := range x.byt {
		if w := y.byt[k]; w == nil || !sameReg(v, w) {
			return false
		}
	}
	for k, v := range x.hash {
		if y.hash[k] != v {
			return false
		}
	}
	for k := range x.stored {
		if !y.stored[k] {
			return false
		}
	}
	return true
}

func (m *Mach) run() {
	defer func() { m.a.mach = nil }()
	s0 := m.q.start()
	m.in[s0.key()] = newMS()
	m.st[s0.key()] = s0
	work := []State{s0}
	queued := map[string]bool{s0.key(): true}
	visits := map[string]int{}
	ins := map[string][]*edgeIn{} // what comes in over each edge
	steps := 0
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		k := s.key()
		queued[k] = false
		if steps++; steps > machSteps {
			m.q.giveUp = true
			return
		}
		for oi, o := range m.step(s, m.in[k].clone()) {
			ok := o.s.key()
			var ed *edgeIn
			for _, x := range ins[ok] {
				if x.from == k && x.i == oi {
					ed = x
				}
			}
			if ed == nil {
				ed = &edgeIn{from: k, i: oi}
				ins[ok] = append(ins[ok], ed)
			}
			ed.m = o.m
			m.join0 = o.s
			nw := ins[ok][0].m
			for _, x := range ins[ok][1:] {
				nw, _ = m.join(nw, x.m, o.s)
			}
			old := m.in[ok]
			if old != nil {
				if visits[ok]++; visits[ok] > 12 {
					nw, _ = m.join(old, nw, o.s)
				}
				if sameMS(old, nw) {
					continue
				}
			}
			m.in[ok], m.st[ok] = nw, o.s
			if !queued[ok] {
				queued[ok] = true
				work = append(work, o.s)
			}
		}
	}
	m.q.nstates += len(m.in)
}

func (m *Mach) join(x, y *MS, s State) (*MS, bool) {
	ch := false
	out := x.clone()
	for k, v := range x.regs {
		w, ok := y.regs[k]
		if !ok {
			delete(out.regs, k) // not live on the other way
			ch = true
			continue
		}
		if v != w {
			t := m.topAt(fmt.Sprintf("%d/%p/%d", k.c.id, k.v, k.i), k.c, k.v, s)
			if v != t {
				out.regs[k] = t
				ch = true
			}
		}
	}
	for k, v := range x.mem {
		w, ok := y.mem[k]
		if !ok {
			w = m.untouched(y, k)
		}
		if v != w {
			t := m.topMem(k, s)
			if v != t {
				t.typ = k.typ
				out.mem[k] = t
				ch = true
			}
		}
	}
	for k, w := range y.mem {
		if _, ok := x.mem[k]; !ok {
			if m.untouched(x, k) == w {
				continue
			}
			t := m.topMem(k, s)
			t.typ = k.typ
			out.mem[k] = t
			ch = true
		}
	}
	for k, v := range x.byt {
		w := y.byt[k]
		if w == nil {
			if _, fresh := m.fresh(k); fresh {
				continue
			}
			w = m.initRegion(k)
		}
		if !sameReg(v, w) {
			t := m.joinReg(v, w)
			if !sameReg(v, t) {
				out.byt[k] = t
				ch = true
			}
		}
	}
	for k, w := range y.byt {
		if _, ok := x.byt[k]; !ok {
			if _, fresh := m.fresh(k); fresh {
				out.byt[k] = w
				ch = true
				continue
			}
			t := m.joinReg(m.initRegion(k), w)
			out.byt[k] = t
			ch = true
		}
	}
	for k, v := range x.hash {
		if w, ok := y.hash[k]; ok && w != v {
			t := m.topAt(fmt.Sprintf("hash%d", k.id), m.a.root, nil, s)
			if v != t {
				out.hash[k] = t
				ch = true
			}
		}
	}
	for k, w := range y.hash {
		if _, ok := x.hash[k]; !ok {
			out.hash[k] = w
			ch = true
		}
	}
	for k := range y.stored {
		if !out.stored[k] {
			out.stored[k] = true
			ch = true
		}
	}
	return out, ch
}

// joinReg keeps the segments both agree on.
func (m *Mach) joinReg(x, y *region) *region {
	if x.init == 2 && len(x.segs) == 0 {
		return x
	}
	out := &region{init: 2}
	if x.n == y.n {
		out.n = x.n
	}
	in := map[seg]bool{}
	for _, s := range y.segs {
		in[s] = true
	}
	for _, s := range x.segs {
		if in[s] {
			out.segs = append(out.segs, s)
		}
	}
	return out
}

// untouched: the value a variable has on a way that does not assign it.
func (m *Mach) untouched(x *MS, path *Sym) *Sym {
	sv := m.cur
	m.cur = x
	defer func() { m.cur = sv }()
	return m.load(path)
}

func (m *Mach) top(key string, c *Ctx, v ssa.Value) *Sym {
	return m.a.intern("?top:"+key, func() *Sym {
		s := &Sym{k: KOpaque, name: "?top", val: v, ctx: c}
		if v != nil {
			s.typ = v.Type()
		}
		return s
	})
}

// topAt: a value that differs between the ways that meet at s.
func (m *Mach) topAt(key string, c *Ctx, v ssa.Value, s State) *Sym {
	return m.top(key+"@"+s.key(), c, v)
}

func (m *Mach) topMem(path *Sym, s State) *Sym {
	return m.a.intern(fmt.Sprintf("?topmem:%d@%s", path.id, s.key()), func() *Sym {
		return &Sym{k: KVer, args: []*Sym{path}, ctx: m.a.root, typ: path.typ}
	})
}

// Rewrite replaces the parts of a term for which f gives something.
func (a *Analysis) Rewrite(v *Sym, f func(*Sym) *Sym) *Sym {
	memo := map[*Sym]*Sym{}
	var rec func(x *Sym) *Sym
	rec = func(x *Sym) *Sym {
		if x == nil {
			return nil
		}
		if y, ok := memo[x]; ok {
			return y
		}
		memo[x] = x
		if y := f(x); y != nil {
			memo[x] = y
			return y
		}
		ch := false
		args := make([]*Sym, len(x.args))
		for i, y := range x.args {
			args[i] = rec(y)
			if args[i] != y {
				ch = true
			}
		}
		if ch {
			memo[x] = a.rebuild(x, args)
		}
		return memo[x]
	}
	return rec(v)
}

// settle puts what is known without following the states in place of what is
// not known after following them.
func (m *Mach) settle(v *Sym) *Sym {
	return m.a.Rewrite(v, func(x *Sym) *Sym {
		if x.k == KOpaque && x.name == "?top" && x.val != nil {
			if _, ok := x.val.Type().Underlying().(*types.Tuple); ok {
				return nil
			}
			mm := m.a.mach
			m.a.mach = nil
			defer func() { m.a.mach = mm }()
			y := m.a.Eval(x.ctx, x.val)
			if isSliceT(x.val.Type()) || isStr(x.val.Type()) {
				return nil
			}
			return y
		}
		return nil
	})
}

type outS struct {
	s State
	m *MS
}

func (m *Mach) step(s State, ms *MS) []outS {
	a := m.a
	m.cur, m.env, m.here = ms, s.e, s
	a.mach = m
	n := s.n
	switch n.kind {
	case nodeIns, nodeDeferred:
		if n.sub == nil && n.ins != nil {
			m.exec(n.c, n.ins)
		}
	}
	for _, ins := range n.post {
		m.passive(n.c, ins)
	}
	var cond *Sym
	if n.kind == nodeIf {
		cond = a.Eval(n.c, n.ins.(*ssa.If).Cond)
	}
	var rets []*Sym
	if n.kind == nodeRet {
		for _, x := range retOf(n).Results {
			rets = append(rets, a.Eval(n.c, x))
		}
	}
	a.mach = nil
	next := m.q.Next(s)
	var out []outS
	for _, t := range next {
		if cond != nil && len(next) > 1 {
			v := m.q.sc.Eval(cond, s.e)
			if v.isTrue() && t.n != n.succs[0] || v.isFalse() && t.n == n.succs[0] && n.succs[0] != n.succs[1] {
				continue
			}
		}
		c2 := ms.clone()
		if n.kind == nodeRet && n.c.site != nil {
			for k := range c2.regs {
				if k.c == n.c {
					delete(c2.regs, k)
				}
			}
			if v, ok := n.c.site.(ssa.Value); ok {
				for i, r := range rets {
					c2.regs[mreg{n.c.parent, v, i}] = r
				}
			}
		}
		if t.n.kind == nodeBlock && n.c == t.n.c && n.blk != nil && n.kind != nodeEntry {
			m.edge(c2, ms, n, t.n)
		}
		out = append(out, outS{t, c2})
	}
	return out
}

func (m *Mach) edge(dst, src *MS, n, t *Node) {
	edge := -1
	for i, p := range t.blk.Preds {
		if p == n.blk {
			edge = i
		}
	}
	if edge < 0 {
		return
	}
	m.cur = src
	m.a.mach = m
	for _, ins := range t.blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		dst.regs[mreg{t.c, p, 0}] = m.a.Eval(t.c, p.Edges[edge])
	}
	m.a.mach = nil
}

// val is what Eval gives while the analysis runs.
func (m *Mach) val(c *Ctx, v ssa.Value) *Sym {
	if s, ok := m.cur.regs[mreg{c, v, 0}]; ok {
		return s
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return m.a.eval(c, v)
	}
	return m.top(fmt.Sprintf("%d/%p/0", c.id, v), c, v)
}

// round distinguishes what is made in different rounds of a loop.
func (m *Mach) round(c *Ctx, ins ssa.Instruction) string {
	var b strings.Builder
	blk := ins.Block()
	for x := c; x != nil; x = x.parent {
		for l := x.li.Inner[blk]; l != nil; l = l.Parent {
			if v, ok := m.env.iter[iterKey(x, l)]; ok {
				fmt.Fprintf(&b, ".%d", v)
			}
		}
		if x.site != nil {
			blk = x.site.Block()
		}
	}
	return b.String()
}

func (m *Mach) set(c *Ctx, v ssa.Value, s *Sym) { m.cur.regs[mreg{c, v, 0}] = s }

func (m *Mach) passive(c *Ctx, ins ssa.Instruction) {
	a := m.a
	v, ok := ins.(ssa.Value)
	if !ok {
		return
	}
	switch x := ins.(type) {
	case *ssa.Phi:
		return // set on the edge
	case *ssa.Alloc:
		rd := m.round(c, ins)
		s := a.intern(fmt.Sprintf("mloc:%d:%p:%s", c.id, x, rd), func() *Sym {
			nm := x.Comment
			if nm == "" {
				nm = "tmp"
			}
			return &Sym{k: KLocal, name: "$" + strings.ReplaceAll(nm, " ", "_"), ctx: c, val: x, typ: x.Type().(*types.Pointer).Elem()}
		})
		m.killUnder(s)
		delete(m.cur.byt, s)
		delete(m.cur.mem, s)
		m.set(c, v, a.Addr(s))
		return
	case *ssa.MakeSlice:
		l := a.Eval(c, x.Len)
		s := a.intern(fmt.Sprintf("mmk:%d:%p:%s:%d", c.id, x, m.round(c, ins), l.id), func() *Sym {
			return &Sym{k: KCall, name: "make", args: []*Sym{l}, ctx: c, ins: x, val: x, typ: x.Type()}
		})
		m.cur.byt[s] = &region{n: l}
		m.set(c, v, s)
		return
	case *ssa.MakeMap, *ssa.MakeChan:
		s := a.intern(fmt.Sprintf("mmk:%d:%p:%s", c.id, x, m.round(c, ins)), func() *Sym {
			return &Sym{k: KCall, name: "makemap", ctx: c, ins: ins, val: v, typ: v.Type()}
		})
		m.set(c, v, s)
		return
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if s, ok := m.cur.regs[mreg{c, t, x.Index}]; ok {
				m.set(c, v, s)
				return
			}
			m.set(c, v, m.top(fmt.Sprintf("%d/%p/x", c.id, x), c, v))
			return
		case *ssa.Lookup:
			base := a.Eval(c, t)
			if x.Index == 0 {
				m.set(c, v, base)
			} else {
				m.set(c, v, a.Op("has", a.Eval(c, t.X), m.snap(a.Eval(c, t.Index))))
			}
			return
		}
		m.set(c, v, a.extract(c, x))
		return
	case *ssa.Lookup:
		mp, k := a.Eval(c, x.X), m.snap(a.Eval(c, x.Index))
		k = m.mapKey(k)
		t := x.Type()
		if tp, ok := t.(*types.Tuple); ok {
			t = tp.At(0).Type()
		}
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			m.set(c, v, m.elem(mp, k, t))
			return
		}
		m.set(c, v, m.load(a.Lookup(mp, k, t)))
		return
	case *ssa.Convert:
		fromB, toB := isBytes(x.X.Type()), isBytes(x.Type())
		fromS, toS := isStr(x.X.Type()), isStr(x.Type())
		if fromB && toS {
			m.set(c, v, m.snap(a.Eval(c, x.X)))
			return
		}
		if fromS && toB {
			y := a.Eval(c, x.X)
			ps := m.pieces(y)
			m.set(c, v, m.buffer(c, ins, ps, x.Type()))
			return
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			m.set(c, v, m.content(append(m.pieces(a.Eval(c, x.X)), m.pieces(a.Eval(c, x.Y))...)))
			return
		}
		if isStr(x.X.Type()) {
			l, r := m.snap(a.Eval(c, x.X)), m.snap(a.Eval(c, x.Y))
			switch x.Op {
			case token.EQL:
				m.set(c, v, a.Op("==", l, r))
			case token.NEQ:
				m.set(c, v, a.Op("not", a.Op("==", l, r)))
			default:
				m.set(c, v, a.Op(x.Op.String(), l, r))
			}
			return
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil && isSliceT(x.X.Type()) {
			m.set(c, v, a.Eval(c, x.X))
			return
		}
		if isStr(x.X.Type()) {
			ps := m.pieces(a.Eval(c, x.X))
			tot := m.total(ps)
			lo, hi := a.Int(0), tot
			if x.Low != nil {
				lo = a.Eval(c, x.Low)
			}
			if x.High != nil {
				hi = a.Eval(c, x.High)
			}
			m.set(c, v, m.content(m.subPieces(ps, lo, hi)))
			return
		}
	case *ssa.Index:
		m.set(c, v, m.elem(a.Eval(c, x.X), a.Eval(c, x.Index), x.Type()))
		return
	case *ssa.Field:
		y := a.Eval(c, x.X)
		o, nm, t := structField(x.X.Type(), x.Field)
		if y.k == KZero {
			m.set(c, v, m.zero(t))
			return
		}
		m.set(c, v, a.Field(y, o, nm, t))
		return
	case *ssa.Range:
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			path := a.Deref(a.Eval(c, x.X))
			m.types[path] = x.Type()
			m.set(c, v, m.load(path))
			return
		}
	case *ssa.MakeInterface:
		y := a.Eval(c, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Struct); !ok {
			y = m.snapStr(y, x.X.Type())
		}
		m.set(c, v, y)
		return
	}
	m.set(c, v, a.eval(c, v))
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// exec carries out an instruction that has a node of its own.
func (m *Mach) exec(c *Ctx, ins ssa.Instruction) {
	a := m.a
	switch x := ins.(type) {
	case *ssa.Store:
		m.store(strip2(a.Eval(c, x.Addr)), a.Eval(c, x.Val), x.Val.Type())
	case *ssa.MapUpdate:
		m.store(a.Lookup(a.Eval(c, x.Map), m.mapKey(m.snap(a.Eval(c, x.Key))), x.Value.Type()), a.Eval(c, x.Value), x.Value.Type())
	case *ssa.UnOp:
		m.seq++
		m.set(c, x, a.callRes(c, x, "recv", []*Sym{a.Eval(c, x.X)}))
	case *ssa.Call:
		m.call(c, x)
	case *ssa.Defer:
		m.effects(c, x.Common(), ins)
	case *ssa.Go:
		m.effects(c, x.Common(), ins)
	}
}

func (m *Mach) setN(c *Ctx, x *ssa.Call, i int, s *Sym) { m.cur.regs[mreg{c, x, i}] = s }

func (m *Mach) call(c *Ctx, x *ssa.Call) {
	a := m.a
	cc := x.Common()
	var args []*Sym
	if cc.IsInvoke() {
		args = append(args, a.Eval(c, cc.Value))
	}
	for _, y := range cc.Args {
		args = append(args, a.Eval(c, y))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			m.set(c, x, m.lenOf(args[0], cc.Args[0].Type()))
		case "cap":
			m.set(c, x, a.Op("cap", args[0]))
		case "append":
			ps := append([]*Sym{}, m.pieces(args[0])...)
			if len(args) > 1 {
				ps = append(ps, m.pieces(args[1])...)
			}
			m.set(c, x, m.buffer(c, x, ps, x.Type()))
		case "copy":
			m.set(c, x, m.copy(args[0], args[1]))
		case "min", "max":
			m.set(c, x, a.Op(b.Name(), args...))
		case "delete":
			m.cur.stored[a.Lookup(args[0], m.mapKey(m.snap(args[1])), nil)] = true
		case "ssa:wrapnilchk":
			m.set(c, x, args[0])
		default:
			m.set(c, x, a.callRes(c, x, "builtin."+b.Name(), args))
		}
		return
	}
	name := a.callName(c, cc)
	last := args[max(len(args)-1, 0):]
	full := ""
	if f := cc.StaticCallee(); f != nil {
		full = f.String()
	}
	enc := func(kind string, n int64) {
		d := args[len(args)-2]
		base, lo := m.baseOf(d)
		m.write(base, lo, a.Add(lo, a.Int(n)), a.Op(kind, args[len(args)-1]))
	}
	app := func(kind string) {
		ps := append(append([]*Sym{}, m.pieces(args[len(args)-2])...), a.Op(kind, args[len(args)-1]))
		m.set(c, x, m.buffer(c, x, ps, x.Type()))
	}
	dec := func(kind string) {
		n := int64(kind[2] - '0')
		ps := m.subPieces(m.pieces(last[0]), a.Int(0), a.Int(n))
		if len(ps) == 1 && ps[0].k == KOp && ps[0].name == strings.ToLower(kind) {
			m.set(c, x, ps[0].args[0])
			return
		}
		src := m.content(ps)
		if src.k == KConst {
			if v, ok := decConst(kind, src); ok {
				m.set(c, x, a.Int(v))
				return
			}
		}
		m.set(c, x, a.Op(kind, a.normBytes(src, n)))
	}
	switch full {
	case "(encoding/binary.littleEndian).PutUint64":
		enc("le8", 8)
		return
	case "(encoding/binary.littleEndian).PutUint32":
		enc("le4", 4)
		return
	case "(encoding/binary.littleEndian).PutUint16":
		enc("le2", 2)
		return
	case "(encoding/binary.bigEndian).PutUint64":
		enc("be8", 8)
		return
	case "(encoding/binary.bigEndian).PutUint32":
		enc("be4", 4)
		return
	case "(encoding/binary.bigEndian).PutUint16":
		enc("be2", 2)
		return
	case "(encoding/binary.littleEndian).AppendUint64":
		app("le8")
		return
	case "(encoding/binary.littleEndian).AppendUint32":
		app("le4")
		return
	case "(encoding/binary.bigEndian).AppendUint64":
		app("be8")
		return
	case "(encoding/binary.bigEndian).AppendUint32":
		app("be4")
		return
	case "(encoding/binary.littleEndian).Uint64":
		dec("LE8")
		return
	case "(encoding/binary.littleEndian).Uint32":
		dec("LE4")
		return
	case "(encoding/binary.littleEndian).Uint16":
		dec("LE2")
		return
	case "(encoding/binary.bigEndian).Uint64":
		dec("BE8")
		return
	case "(encoding/binary.bigEndian).Uint32":
		dec("BE4")
		return
	}
	// digests
	switch {
	case strings.HasPrefix(name, "github.com/minio/sha256-simd.Sum256"), name == "crypto/sha256.Sum256":
		m.set(c, x, a.Op("sha256", m.snap(args[0])))
		return
	case strings.HasSuffix(name, "sha256-simd.New") || name == "crypto/sha256.New" || strings.HasSuffix(name, ".New32") || strings.HasSuffix(name, ".New64"):
		fam := "sha256"
		if !strings.Contains(name, "sha256") {
			fam = name[strings.LastIndex(name, "/")+1:]
		}
		h := a.intern(fmt.Sprintf("hash:%d:%p:%s", c.id, x, m.round(c, x)), func() *Sym {
			return &Sym{k: KCall, name: fam, args: append([]*Sym{}, m.snaps(cc.Args, args)...), ctx: c, ins: x, val: x, typ: x.Type()}
		})
		m.cur.hash[h] = m.content(nil)
		m.set(c, x, h)
		return
	}
	if len(args) > 0 {
		if cont, ok := m.cur.hash[args[0]]; ok {
			mth := name[strings.LastIndex(name, ".")+1:]
			switch mth {
			case "Write", "WriteString":
				m.cur.hash[args[0]] = m.content(append(append([]*Sym{}, m.pieces(cont)...), m.pieces(args[1])...))
				m.setN(c, x, 0, m.lenOf(args[1], nil))
				m.setN(c, x, 1, a.Nil())
				return
			case "Reset":
				m.cur.hash[args[0]] = m.content(nil)
				return
			case "Sum":
				d := a.Op(args[0].name, append(append([]*Sym{}, args[0].args...), cont)...)
				m.set(c, x, m.buffer(c, x, append(append([]*Sym{}, m.pieces(args[1])...), d), x.Type()))
				return
			case "Sum32", "Sum64":
				m.set(c, x, a.Op(args[0].name+"."+mth, append(append([]*Sym{}, args[0].args...), cont)...))
				return
			}
		}
	}
	m.effects(c, cc, x)
	var snapped []*Sym
	for i, y := range args {
		j := i
		if cc.IsInvoke() {
			j--
		}
		if j >= 0 {
			y = m.snapArg(y, cc.Args[j].Type())
		}
		snapped = append(snapped, y)
	}
	pure := false
	if f := cc.StaticCallee(); f != nil && (a.p.isPure(f) || pureExt[f.String()]) {
		pure = true
	}
	mk := func(i int, t types.Type) *Sym {
		nm := name
		var s *Sym
		if pure {
			s = a.Op(nm, snapped...)
		} else {
			s = a.intern(fmt.Sprintf("xcall:%d:%p:%s:%s", c.id, x, m.round(c, x), ids(snapped)), func() *Sym {
				return &Sym{k: KCall, name: nm, args: snapped, ctx: c, ins: x, val: x, typ: x.Type()}
			})
		}
		if i < 0 {
			return s
		}
		return a.intern(fmt.Sprintf("ext:%d#%d", s.id, i), func() *Sym {
			return &Sym{k: KOp, name: fmt.Sprintf("#%d", i), args: []*Sym{s}, ctx: c, ins: x, typ: t}
		})
	}
	if res := cc.Signature().Results(); res.Len() > 1 {
		for i := 0; i < res.Len(); i++ {
			m.setN(c, x, i, mk(i, res.At(i).Type()))
		}
	} else if res.Len() == 1 {
		m.set(c, x, mk(-1, res.At(0).Type()))
	}
}

func (m *Mach) snaps(vs []ssa.Value, args []*Sym) []*Sym {
	var out []*Sym
	for _, y := range args {
		out = append(out, m.snap(y))
	}
	return out
}

// snapArg is how an argument is shown in the name of a result.
func (m *Mach) snapArg(y *Sym, t types.Type) *Sym {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return m.snap(y)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.snap(y)
		}
	}
	return y
}

func (m *Mach) snapStr(y *Sym, t types.Type) *Sym { return m.snapArg(y, t) }

// fails: in the scenario the call returns an error.
func (m *Mach) fails(c *Ctx, ins ssa.Instruction) bool {
	x, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	var v ssa.Value
	if isErr(x.Type()) {
		v = x
	} else if x.Referrers() != nil {
		for _, u := range *x.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && isErr(e.Type()) {
				v = e
			}
		}
	}
	if v == nil {
		return false
	}
	sv := m.a.mach
	m.a.mach = nil
	e := m.q.sc.Eval(m.a.Eval(c, v), m.env)
	m.a.mach = sv
	return e.k == vNonNil
}

// effects of a call that is not looked into.
func (m *Mach) effects(c *Ctx, cc *ssa.CallCommon, ins ssa.Instruction) {
	a := m.a
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	name := a.callName(c, cc)
	short := name[strings.LastIndex(name, ".")+1:]
	var args []*Sym
	if cc.IsInvoke() {
		args = append(args, a.Eval(c, cc.Value))
	}
	for _, y := range cc.Args {
		args = append(args, a.Eval(c, y))
	}
	writes := strings.HasPrefix(strings.ToLower(short), "read")
	for i, y := range cc.Args {
		j := i
		if cc.IsInvoke() {
			j++
		}
		s := args[j]
		if isBytes(y.Type()) && writes {
			base, lo := m.baseOf(s)
			n := m.lenOf(s, nil)
			var rest []*Sym
			for k, z := range args {
				if k != j {
					rest = append(rest, m.snap(z))
				}
			}
			m.seq++
			got := "got."
			if m.fails(c, ins) {
				got = "got.failed."
			}
			p := a.intern(fmt.Sprintf("rd:%d:%p:%s:%s:%s:%d", c.id, ins, got, m.round(c, ins), ids(rest), n.id), func() *Sym {
				return &Sym{k: KCall, name: got + short, args: rest, ctx: c, ins: ins, base: n}
			})
			m.write(base, lo, a.Add(lo, n), p)
			if m.got == nil {
				m.got = map[string]*Sym{}
			}
			m.got[m.here.key()] = p
			continue
		}
		if s.k == KAddr {
			// a pointer handed over: what it points to may be assigned
			if f := cc.StaticCallee(); f != nil && !inModuleFn(f) && strings.HasPrefix(f.String(), "(*sync.") {
				continue
			}
			root := s.args[0]
			if root.k == KLocal {
				m.killUnder(root)
				m.cur.mem[root] = a.intern(fmt.Sprintf("after:%d:%d:%p", root.id, c.id, ins), func() *Sym {
					return &Sym{k: KOpaque, name: root.name + "'", ctx: c, val: nil, typ: root.typ}
				})
				if _, ok := deptr(y.Type()).Underlying().(*types.Array); ok {
					m.cur.byt[root] = &region{init: 2}
				}
			}
		}
	}
	if f := cc.StaticCallee(); f != nil && f.Blocks != nil && inModuleFn(f) {
		ks := a.storeKeys(f)
		for p := range m.cur.mem {
			if rootOf(p).k != KLocal && intersects(a.pathKeys(p), ks) {
				m.cur.mem[p] = a.intern(fmt.Sprintf("after:%d:%d:%p", p.id, c.id, ins), func() *Sym {
					return &Sym{k: KVer, args: []*Sym{p}, ctx: c, ins: ins, typ: p.typ}
				})
			}
		}
	}
}

func inModuleFn(f *ssa.Function) bool { return f.Pkg != nil && inModule(f.Pkg.Pkg) }

// ---- memory ----

func under(p, at *Sym) bool {
	ptr := at
	if at.k == KDeref {
		ptr = at.args[0]
	}
	for {
		switch p.k {
		case KField, KIndex, KDeref:
			p = p.args[0]
			if p == at || p == ptr {
				return true
			}
		default:
			return false
		}
	}
}

func (m *Mach) killUnder(at *Sym) {
	for p := range m.cur.mem {
		if under(p, at) {
			delete(m.cur.mem, p)
		}
	}
	for p := range m.cur.byt {
		if under(p, at) {
			delete(m.cur.byt, p)
		}
	}
}

func arrOf(t types.Type) *types.Array {
	if t == nil {
		return nil
	}
	ar, _ := t.Underlying().(*types.Array)
	return ar
}

func (m *Mach) store(path, val *Sym, t types.Type) {
	a := m.a
	m.killUnder(path)
	if arrOf(t) != nil {
		if arrOf(arrOf(t).Elem()) != nil && (val.k == KDeref || val.k == KField || val.k == KIndex || val.k == KSlice && val.args[1] == nil && val.args[2] == nil) {
			// an array of arrays, as a whole
			delete(m.cur.byt, path)
			m.cur.mem[path] = strip2(val)
			return
		}
		r := &region{n: a.Int(arrOf(t).Len()), init: 2}
		delete(m.cur.mem, path)
		if val.k == KZero {
			r.init = 0
		} else {
			at := a.Int(0)
			ps := m.pieces(val)
			for _, p := range ps {
				hi := a.Add(at, m.plen(p))
				if len(ps) == 1 {
					hi = r.n // all there is
				}
				r.segs = append(r.segs, seg{at, hi, p})
				at = hi
			}
		}
		m.cur.byt[path] = r
		if path.k == KIndex {
			m.outerStore(path)
		}
		return
	}
	if path.k == KIndex {
		if m.indexable(path.args[0]) {
			m.write(path.args[0], path.args[1], a.Add(path.args[1], a.Int(1)), m.elemPiece(val, path.typ))
			return
		}
	}
	if rootOf(path).k != KLocal || path.k == KLookup {
		for p, v := range m.cur.mem {
			if p == path {
				continue
			}
			switch m.relate(p, path) {
			case relMay, relPartial, relInside:
				if v.k != KVer || v.name != "?" {
					m.cur.mem[p] = a.intern(fmt.Sprintf("mayst:%d:%d", p.id, path.id), func() *Sym {
						return &Sym{k: KVer, name: "?", args: []*Sym{p}, typ: p.typ, ctx: a.root}
					})
				}
			}
		}
		m.cur.stored[path] = true
	}
	m.cur.mem[path] = val
}

func (m *Mach) relate(p, at *Sym) rel {
	if p.k == KLookup && at.k == KLookup {
		if p.args[0] != at.args[0] {
			return relNo
		}
		if p.args[1] == at.args[1] {
			return relMust
		}
		if _, ok := m.a.Sub(p.args[1], at.args[1]).IntVal(); ok {
			return relNo
		}
		if p.args[1].k == KConst && at.args[1].k == KConst {
			return relNo
		}
		return relMay
	}
	if p.k == KLookup || at.k == KLookup {
		return relNo
	}
	return m.a.relate(p, at)
}

func (m *Mach) outerStore(path *Sym) {}

// indexable: buffers whose elements are tracked.
func (m *Mach) indexable(base *Sym) bool {
	if base == nil {
		return false
	}
	if base.typ != nil {
		switch u := base.typ.Underlying().(type) {
		case *types.Array:
			return arrOf(u.Elem()) == nil
		case *types.Slice:
			return arrOf(u.Elem()) == nil
		}
	}
	return base.k == KCall && (base.name == "make" || base.name == "buf")
}

func (m *Mach) elemPiece(v *Sym, t types.Type) *Sym {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return m.bytePiece(v)
		}
	}
	return m.a.Op("e", v)
}

func (m *Mach) bytePiece(v *Sym) *Sym {
	if x, ok := v.IntVal(); ok {
		return m.hex(string([]byte{byte(x)}))
	}
	if v.k == KOp && v.name == "trunc8" {
		v = v.args[0]
	}
	return m.a.Op("b", v)
}

func (m *Mach) hex(raw string) *Sym {
	return m.a.intern("hx:"+raw, func() *Sym {
		nm := fmt.Sprintf("0x%x", raw)
		pr := len(raw) >= 3
		for _, r := range []byte(raw) {
			if r < 32 || r > 126 {
				pr = false
			}
		}
		if pr {
			nm = fmt.Sprintf("%q", raw)
		}
		return &Sym{k: KConst, name: nm, cv: constant.MakeString(raw), coef: []int64{1}}
	})
}

func rawOf(p *Sym) (string, bool) {
	if p.k == KConst && p.cv != nil && p.cv.Kind() == constant.String {
		return constant.StringVal(p.cv), true
	}
	return "", false
}

func decConst(kind string, s *Sym) (int64, bool) {
	r, ok := rawOf(s)
	if !ok {
		return 0, false
	}
	var v uint64
	for i := 0; i < len(r); i++ {
		if kind[0] == 'B' {
			v = v<<8 | uint64(r[i])
		} else {
			v |= uint64(r[i]) << (8 * i)
		}
	}
	return int64(v), true
}

func (m *Mach) zero(t types.Type) *Sym {
	a := m.a
	if t == nil {
		return a.intern("zero:?", func() *Sym { return &Sym{k: KZero, name: "zero"} })
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return a.intern("zero:"+t.String(), func() *Sym { return &Sym{k: KZero, typ: t, name: "zero"} })
	}
	return a.zeroOf(&Sym{k: KOpaque, typ: t})
}

func (m *Mach) typ(p *Sym) types.Type {
	if p.typ != nil {
		return p.typ
	}
	return m.types[p]
}

// load gives the value of an lvalue now.
func (m *Mach) load(path *Sym) *Sym {
	a := m.a
	if ar := arrOf(m.typ(path)); ar != nil {
		if path.k == KIndex && m.cur.byt[path] == nil && m.cur.byt[path.args[0]] != nil {
			// an element of a slice of arrays that was put together
			if ps := m.read(path.args[0], path.args[1], a.Add(path.args[1], a.Int(1))); len(ps) == 1 && ps[0].k == KOp && ps[0].name == "e" {
				return ps[0].args[0]
			}
		}
		if m.cur.byt[path] == nil {
			if v := m.whole(path); v != nil {
				return v
			}
			if v, ok := m.cur.mem[path]; ok && !m.anyUnder(path) {
				return v
			}
		}
		_, ofStruct := ar.Elem().Underlying().(*types.Struct)
		_, ofArray := ar.Elem().Underlying().(*types.Array)
		if (ofStruct || ofArray && m.cur.byt[path] == nil) && ar.Len() <= 64 && m.anyUnder(path) {
			var ps []*Sym
			for i := int64(0); i < ar.Len(); i++ {
				ps = append(ps, a.Op("e", m.load(a.Index(path, a.Int(i), ar.Elem()))))
			}
			return m.content(ps)
		}
		return m.content(m.read(path, a.Int(0), a.Int(ar.Len())))
	}
	if v, ok := m.cur.mem[path]; ok {
		if m.typ(path) != nil {
			if _, ok := m.typ(path).Underlying().(*types.Struct); ok {
				return m.structVal(path, v)
			}
		}
		return v
	}
	if path.k == KIndex && m.indexable(path.args[0]) {
		if m.typ(path) != nil && m.anyUnder(path) {
			if _, ok := m.typ(path).Underlying().(*types.Struct); ok {
				if st := m.structVal(path, nil); st != nil {
					return st
				}
			}
		}
		if m.tracked(path.args[0]) {
			ps := m.read(path.args[0], path.args[1], a.Add(path.args[1], a.Int(1)))
			return m.elemVal(m.content(ps), m.typ(path))
		}
	}
	if v := m.whole(path); v != nil {
		return v
	}
	root := rootOf(path)
	if root.k == KLocal && !viaPtr(path) {
		if st := m.structVal(path, nil); st != nil {
			return st
		}
		return m.zero(m.typ(path))
	}
	for st := range m.cur.stored {
		switch m.relate(path, st) {
		case relMay, relPartial, relInside:
			if m.typ(path) != nil {
				if _, ok := m.typ(path).Underlying().(*types.Struct); ok {
					if sv := m.structVal(path, path); sv != nil {
						return sv
					}
				}
			}
			var ks []string
			for s2 := range m.cur.stored {
				ks = append(ks, fmt.Sprint(s2.id))
			}
			sort.Strings(ks)
			return a.intern(fmt.Sprintf("mver:%d:%s", path.id, strings.Join(ks, ",")), func() *Sym {
				return &Sym{k: KVer, args: []*Sym{path}, ctx: a.root, typ: m.typ(path)}
			})
		}
	}
	if m.typ(path) != nil {
		if _, ok := m.typ(path).Underlying().(*types.Struct); ok {
			if sv := m.structVal(path, path); sv != nil {
				return sv
			}
		}
	}
	return path
}

// anyUnder: a part of path has been assigned on its own.
func (m *Mach) anyUnder(path *Sym) bool {
	for p := range m.cur.mem {
		if p != path && under(p, path) {
			return true
		}
	}
	for p := range m.cur.byt {
		if p != path && under(p, path) {
			return true
		}
	}
	return false
}

// whole: the value as part of something assigned as a whole, nil if it is not.
func (m *Mach) whole(path *Sym) *Sym {
	a := m.a
	for p := path; p.k == KField || p.k == KIndex || p.k == KDeref; {
		p = p.args[0]
		if v, ok := m.cur.mem[p]; ok && !isPtrLike(p.typ) {
			return m.proj(v, path, p)
		}
		if p.k == KIndex && m.indexable(p.args[0]) && m.tracked(p.args[0]) && !isPtrLike(p.typ) {
			v := m.elemVal(m.content(m.read(p.args[0], p.args[1], a.Add(p.args[1], a.Int(1)))), p.typ)
			return m.proj(v, path, p)
		}
		if isPtrLike(p.typ) || p.typ == nil {
			if d := a.Deref(p); d != p {
				if v, ok := m.cur.mem[d]; ok {
					return m.proj(v, path, p)
				}
			}
			if isPtrLike(p.typ) {
				break
			}
		}
	}
	return nil
}

// viaPtr: the path goes through a pointer held in the variable.
func viaPtr(p *Sym) bool {
	for p.k == KField || p.k == KIndex || p.k == KDeref {
		p = p.args[0]
		if isPtrLike(p.typ) {
			return true
		}
	}
	return false
}

// structVal puts a struct together from assignments to its fields.
func (m *Mach) structVal(path, def *Sym) *Sym {
	a := m.a
	if m.typ(path) == nil {
		return def
	}
	st, ok := m.typ(path).Underlying().(*types.Struct)
	if !ok {
		return def
	}
	any := false
	for p := range m.cur.mem {
		if under(p, path) {
			any = true
		}
	}
	for p := range m.cur.byt {
		if under(p, path) {
			any = true
		}
	}
	if !any {
		return def
	}
	o := namedName(m.typ(path))
	var ns []string
	var vs []*Sym
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ns = append(ns, f.Name())
		fp := a.Field(path, o, f.Name(), f.Type())
		if fp.typ == nil {
			fp.typ = f.Type()
		}
		vs = append(vs, m.load(fp))
	}
	nm := strings.Join(ns, ",")
	return a.intern("comp:"+nm+":"+ids(vs), func() *Sym { return &Sym{k: KComp, name: nm, args: vs, typ: m.typ(path)} })
}

func (m *Mach) proj(val, path, at *Sym) *Sym {
	if path == at {
		return val
	}
	b := m.proj(val, path.args[0], at)
	switch path.k {
	case KField:
		if b.k == KZero {
			return m.zero(m.typ(path))
		}
		return m.a.Field(b, path.owner(), path.name, m.typ(path))
	case KIndex:
		return m.elem(b, path.args[1], m.typ(path))
	}
	return b
}

// elem is element i of a value.
func (m *Mach) elem(x, i *Sym, t types.Type) *Sym {
	a := m.a
	if x.k == KZero {
		return m.zero(t)
	}
	ps := m.subPieces(m.pieces(x), i, a.Add(i, a.Int(1)))
	return m.elemVal(m.content(ps), t)
}

func (m *Mach) elemVal(p *Sym, t types.Type) *Sym {
	a := m.a
	switch {
	case p.k == KOp && (p.name == "e" || p.name == "b"):
		return p.args[0]
	case p.k == KOp && p.name == "zeros":
		return m.zero(t)
	case p.k == KConst:
		if r, ok := rawOf(p); ok && len(r) == 1 {
			return a.Int(int64(r[0]))
		}
	case p.k == KSlice:
		lo := p.args[1]
		if lo == nil {
			lo = a.Int(0)
		}
		return a.Index(p.args[0], lo, t)
	}
	s := a.Op("el", p)
	if s.typ == nil {
		s.typ = t
	}
	return s
}

// ---- buffers ----

// baseOf splits a slice into the buffer and the offset it starts at.
func (m *Mach) baseOf(s *Sym) (*Sym, *Sym) {
	if s.k == KSlice {
		lo := s.args[1]
		if lo == nil {
			lo = m.a.Int(0)
		}
		return s.args[0], lo
	}
	return strip(s), m.a.Int(0)
}

func (m *Mach) fresh(base *Sym) (*region, bool) {
	if base.k == KCall && (base.name == "make" || base.name == "buf") {
		return &region{init: 2}, true
	}
	if base.k == KLocal {
		return nil, true
	}
	return nil, false
}

func (m *Mach) tracked(base *Sym) bool {
	if m.cur.byt[base] != nil {
		return true
	}
	return rootOf(base).k == KLocal && !viaPtr(base) && arrOf(m.typ(base)) != nil
}

func (m *Mach) initRegion(base *Sym) *region {
	a := m.a
	r := &region{init: 1}
	if ar := arrOf(m.typ(base)); ar != nil {
		r.n = a.Int(ar.Len())
		// part of a whole that was assigned
		for p := base; p.k == KField || p.k == KIndex || p.k == KDeref; {
			p = p.args[0]
			if v, ok := m.cur.mem[p]; ok && !isPtrLike(p.typ) {
				w := m.proj(v, base, p)
				if w.k == KZero {
					r.init = 0
					return r
				}
				if w.k == KField || w.k == KIndex || w.k == KDeref || w.k == KLookup {
					w = a.Slice(strip(w), nil, nil)
				}
				at := a.Int(0)
				r.init = 2
				for _, pc := range m.pieces(w) {
					hi := a.Add(at, m.plen(pc))
					r.segs = append(r.segs, seg{at, hi, pc})
					at = hi
				}
				return r
			}
			if isPtrLike(p.typ) {
				break
			}
		}
		if rootOf(base).k == KLocal && !viaPtr(base) {
			r.init = 0
		}
		return r
	}
	if base.k == KLocal {
		r.init = 2
	}
	r.n = m.lenOf(base, m.typ(base))
	return r
}

func (m *Mach) regionOf(base *Sym) *region {
	if r := m.cur.byt[base]; r != nil {
		return r
	}
	return m.initRegion(base)
}

func (m *Mach) ge(x, y *Sym) bool {
	d := m.a.Sub(x, y)
	if v, ok := d.IntVal(); ok {
		return v >= 0
	}
	sv := m.a.mach
	m.a.mach = nil
	v := m.q.sc.Eval(d, m.env)
	m.a.mach = sv
	if v.k == vInt && v.lo >= 0 {
		return true
	}
	if d.k == KLin {
		if d.c0 < 0 {
			return false
		}
		for i, t := range d.args {
			if d.coef[i] < 0 || !nonNeg(t) {
				return false
			}
		}
		return true
	}
	return nonNeg(d)
}

func nonNeg(t *Sym) bool {
	switch t.k {
	case KOp:
		switch t.name {
		case "len", "cap", "trunc8", "trunc16", "trunc32", "LE2", "LE4", "BE2", "BE4":
			return true
		case "mul":
			for _, x := range t.args {
				if !nonNeg(x) {
					return false
				}
			}
			return true
		}
	case KIter:
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

func (m *Mach) write(base, lo, hi, p *Sym) {
	a := m.a
	old := m.regionOf(base)
	r := &region{init: old.init, n: old.n}
	for _, s := range old.segs {
		switch {
		case m.ge(lo, s.hi) || m.ge(s.lo, hi):
			r.segs = append(r.segs, s)
		case m.ge(s.lo, lo) && m.ge(hi, s.hi):
		default:
			okL := m.ge(lo, s.lo)
			okR := m.ge(s.hi, hi)
			if !okL && !m.ge(s.lo, lo) || !okR && !m.ge(hi, s.hi) {
				// where it ends up is not known
				m.cur.byt[base] = &region{init: 2, n: old.n}
				return
			}
			if okL && lo != s.lo {
				r.segs = append(r.segs, seg{s.lo, lo, m.sub(s.p, a.Int(0), a.Sub(lo, s.lo))})
			}
			if okR && hi != s.hi {
				r.segs = append(r.segs, seg{hi, s.hi, m.sub(s.p, a.Sub(hi, s.lo), a.Sub(s.hi, s.lo))})
			}
		}
	}
	r.segs = append(r.segs, seg{lo, hi, p})
	m.cur.byt[base] = r
}

// read gives the pieces of a buffer between two offsets; hi nil: to its end.
func (m *Mach) read(base, lo, hi *Sym) []*Sym {
	a := m.a
	r := m.regionOf(base)
	if hi == nil {
		hi = r.n
	}
	if len(r.segs) == 0 && r.init == 1 {
		if r.n != nil && hi == r.n {
			hi = nil
		}
		return []*Sym{a.Slice(base, lo, hi)}
	}
	if hi == nil {
		return []*Sym{m.unknown(base)}
	}
	var out []*Sym
	cur := lo
	for i := 0; i < 600; i++ {
		if cur == hi {
			return m.canon(out)
		}
		var hit *seg
		for j := range r.segs {
			s := &r.segs[j]
			if s.lo == cur && s.hi != cur {
				hit = s
			}
		}
		if hit == nil {
			for j := range r.segs {
				s := &r.segs[j]
				if m.ge(cur, s.lo) && m.ge(a.Sub(s.hi, a.Int(1)), cur) {
					hit = s
				}
			}
		}
		if hit != nil {
			off := a.Sub(cur, hit.lo)
			switch {
			case m.ge(hi, hit.hi):
				out = append(out, m.sub(hit.p, off, a.Sub(hit.hi, hit.lo)))
				cur = hit.hi
			case m.ge(hit.hi, hi):
				out = append(out, m.sub(hit.p, off, a.Sub(hi, hit.lo)))
				cur = hi
			default:
				return []*Sym{m.unknown(base)}
			}
			continue
		}
		// a gap, up to the next segment
		end := hi
		for _, s := range r.segs {
			if m.ge(cur, s.hi) {
				continue
			}
			if !m.ge(s.lo, cur) {
				return []*Sym{m.unknown(base)}
			}
			if m.ge(end, s.lo) {
				end = s.lo
			} else if !m.ge(s.lo, end) {
				return []*Sym{m.unknown(base)}
			}
		}
		if end == cur {
			return []*Sym{m.unknown(base)}
		}
		switch r.init {
		case 0:
			out = append(out, a.Op("zeros", a.Sub(end, cur)))
		case 1:
			e := end
			if e == r.n {
				e = nil
			}
			out = append(out, a.Slice(base, cur, e))
		default:
			out = append(out, a.Op("?", m.a.Sub(end, cur)))
		}
		cur = end
	}
	return []*Sym{m.unknown(base)}
}

func (m *Mach) unknown(base *Sym) *Sym {
	return m.a.intern(fmt.Sprintf("?buf:%d", base.id), func() *Sym {
		return &Sym{k: KOpaque, name: "?bytes", ctx: m.a.root}
	})
}

// plen is the length of a piece.
func (m *Mach) plen(p *Sym) *Sym {
	a := m.a
	switch p.k {
	case KConst:
		if r, ok := rawOf(p); ok {
			return a.Int(int64(len(r)))
		}
	case KSlice:
		return m.lenOf(p, nil)
	case KOp:
		switch p.name {
		case "b", "e":
			return a.Int(1)
		case "zeros", "?":
			return p.args[0]
		case "sub":
			return a.Sub(p.args[2], p.args[1])
		case "sha256":
			return a.Int(32)
		case "cp":
			return p.args[1]
		case "#":
			return m.total(p.args)
		}
		if len(p.name) == 3 && (p.name[:2] == "le" || p.name[:2] == "be") {
			return a.Int(int64(p.name[2] - '0'))
		}
	case KCall:
		if p.base != nil && strings.HasPrefix(p.name, "got.") {
			return p.base
		}
	case KNil:
		return a.Int(0)
	}
	return m.lenOf(p, p.typ)
}

func (m *Mach) total(ps []*Sym) *Sym {
	t := m.a.Int(0)
	for _, p := range ps {
		t = m.a.Add(t, m.plen(p))
	}
	return t
}

// sub is the part of a piece between two offsets.
func (m *Mach) sub(p, lo, hi *Sym) *Sym {
	a := m.a
	if lo.IsInt(0) && hi == m.plen(p) {
		return p
	}
	l, lok := lo.IntVal()
	h, hok := hi.IntVal()
	switch p.k {
	case KConst:
		if r, ok := rawOf(p); ok && lok && hok && l >= 0 && h <= int64(len(r)) && l <= h {
			return m.hex(r[l:h])
		}
	case KSlice:
		return a.Slice(p, lo, hi)
	case KOp:
		switch p.name {
		case "zeros", "?":
			return a.Op(p.name, a.Sub(hi, lo))
		case "sub":
			return m.sub(p.args[0], a.Add(p.args[1], lo), a.Add(p.args[1], hi))
		}
		if len(p.name) == 3 && lok && hok && (p.name[:2] == "le" || p.name[:2] == "be") {
			n := int64(p.name[2] - '0')
			sh := l
			if p.name[0] == 'b' {
				sh = n - h
			}
			v := p.args[0]
			if sh > 0 && sh < 8 {
				v = a.Quo(v, a.Int(1<<(8*uint(sh))))
			}
			if h-l == 1 {
				return m.bytePiece(v)
			}
			return a.Op(fmt.Sprintf("%s%d", p.name[:2], h-l), v)
		}
		if p.name == "#" {
			return m.content(m.subPieces(p.args, lo, hi))
		}
	case KParam, KField, KLookup, KDeref, KVer:
		return a.Slice(p, lo, hi)
	}
	return a.Op("sub", p, lo, hi)
}

func (m *Mach) subPieces(ps []*Sym, lo, hi *Sym) []*Sym {
	a := m.a
	var out []*Sym
	at := a.Int(0)
	for _, p := range ps {
		end := a.Add(at, m.plen(p))
		switch {
		case m.ge(lo, end): // before
		case m.ge(at, hi): // after
			return m.canon(out)
		default:
			l, h := at, end
			if m.ge(lo, at) {
				l = lo
			} else if !m.ge(at, lo) {
				return []*Sym{a.Op("sub", m.content(ps), lo, hi)}
			}
			if m.ge(end, hi) {
				h = hi
			} else if !m.ge(hi, end) {
				if len(ps) == 1 {
					h = hi
				} else {
					return []*Sym{a.Op("sub", m.content(ps), lo, hi)}
				}
			}
			out = append(out, m.sub(p, a.Sub(l, at), a.Sub(h, at)))
		}
		at = end
	}
	return m.canon(out)
}

// canon joins neighbouring pieces.
func (m *Mach) canon(ps []*Sym) []*Sym {
	a := m.a
	var out []*Sym
	for _, p := range ps {
		if p.k == KOp && p.name == "#" {
			out = append(out, p.args...)
			continue
		}
		if m.plen(p).IsInt(0) {
			continue
		}
		out = append(out, p)
	}
	ps, out = out, nil
	for _, p := range ps {
		// constant encodings
		if p.k == KOp && len(p.name) == 3 && (p.name[:2] == "le" || p.name[:2] == "be") {
			if v, ok := p.args[0].IntVal(); ok {
				n := int(p.name[2] - '0')
				bz := make([]byte, n)
				for i := range bz {
					if p.name[0] == 'l' {
						bz[i] = byte(v >> (8 * uint(i)))
					} else {
						bz[n-1-i] = byte(v >> (8 * uint(i)))
					}
				}
				p = m.hex(string(bz))
			}
		}
		if p.k == KOp && p.name == "zeros" {
			if v, ok := p.args[0].IntVal(); ok && v <= 16 {
				p = m.hex(strings.Repeat("\x00", int(v)))
			}
		}
		if r, ok := rawOf(p); ok && (p.coef == nil) {
			p = m.hex(r)
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if x, ok := rawOf(l); ok {
				if y, ok := rawOf(p); ok {
					out[len(out)-1] = m.hex(x + y)
					continue
				}
			}
			if l.k == KSlice && p.k == KSlice && l.args[0] == p.args[0] && l.args[2] != nil {
				plo := p.args[1]
				if plo == nil {
					plo = a.Int(0)
				}
				if l.args[2] == plo {
					out[len(out)-1] = a.Slice(l.args[0], l.args[1], p.args[2])
					continue
				}
			}
			if l.k == KOp && p.k == KOp && (l.name == "zeros" || l.name == "?") && p.name == l.name {
				out[len(out)-1] = a.Op(l.name, a.Add(l.args[0], p.args[0]))
				continue
			}
			if j := m.glue(l, p); j != nil {
				out[len(out)-1] = j
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 && out[0].k == KSlice {
		// all of an array or slice
		s := out[0]
		if s.args[2] != nil && s.args[1] == nil && s.args[2] == m.lenOf(s.args[0], s.args[0].typ) {
			out[0] = a.Slice(s.args[0], nil, nil)
		}
	}
	return out
}

// glue puts single bytes of an integer together again.
func (m *Mach) glue(l, p *Sym) *Sym {
	a := m.a
	val := func(x *Sym) (*Sym, int64, byte) {
		if x.k != KOp {
			return nil, 0, 0
		}
		if x.name == "b" {
			return x.args[0], 1, 0
		}
		if len(x.name) == 3 && (x.name[:2] == "le" || x.name[:2] == "be") {
			return x.args[0], int64(x.name[2] - '0'), x.name[0]
		}
		return nil, 0, 0
	}
	lv, ln, lk := val(l)
	pv, pn, pk := val(p)
	if lv == nil || pv == nil || ln+pn > 8 {
		return nil
	}
	if lk != 'b' && pk != 'b' && ln < 8 && a.Quo(lv, a.Int(1<<(8*uint(ln)))) == pv {
		return a.Op(fmt.Sprintf("le%d", ln+pn), lv)
	}
	if lk != 'l' && pk != 'l' && pn < 8 && a.Quo(pv, a.Int(1<<(8*uint(pn)))) == lv {
		return a.Op(fmt.Sprintf("be%d", ln+pn), pv)
	}
	return nil
}

// pieces of a value that is a slice, a string, an array or contents.
func (m *Mach) pieces(s *Sym) []*Sym {
	a := m.a
	switch s.k {
	case KNil:
		return nil
	case KConst:
		if r, ok := rawOf(s); ok {
			if r == "" {
				return nil
			}
			return []*Sym{m.hex(r)}
		}
	case KOp:
		if s.name == "#" {
			return s.args
		}
		return []*Sym{s}
	case KZero:
		if ar := arrOf(s.typ); ar != nil {
			return m.canon([]*Sym{a.Op("zeros", a.Int(ar.Len()))})
		}
	case KSlice:
		base := s.args[0]
		if es := m.arrayElems(s); es != nil {
			return es
		}
		if m.tracked(base) || m.cur.byt[base] != nil {
			lo := s.args[1]
			if lo == nil {
				lo = a.Int(0)
			}
			return m.read(base, lo, s.args[2])
		}
		return []*Sym{s}
	}
	if m.cur.byt[s] != nil {
		return m.read(s, a.Int(0), nil)
	}
	return []*Sym{s}
}

// arrayElems: the elements of a slice of a local array of arrays.
func (m *Mach) arrayElems(s *Sym) []*Sym {
	a := m.a
	base := s.args[0]
	if base.k != KLocal {
		return nil
	}
	ar := arrOf(m.typ(base))
	if ar == nil || arrOf(ar.Elem()) == nil || m.cur.byt[base] != nil || !m.anyUnder(base) {
		return nil
	}
	lo, hi := int64(0), ar.Len()
	for i, p := range []*int64{&lo, &hi} {
		if x := s.args[i+1]; x != nil {
			v, ok := x.IntVal()
			if !ok {
				return nil
			}
			*p = v
		}
	}
	if hi-lo > 64 || lo < 0 || hi > ar.Len() {
		return nil
	}
	var out []*Sym
	for i := lo; i < hi; i++ {
		out = append(out, a.Op("e", m.load(a.Index(base, a.Int(i), ar.Elem()))))
	}
	return out
}

func (m *Mach) content(ps []*Sym) *Sym {
	ps = m.canon(ps)
	if len(ps) == 1 {
		return ps[0]
	}
	return m.a.Op("#", ps...)
}

// snap is the contents of a slice or string as a value.
func (m *Mach) snap(s *Sym) *Sym {
	switch s.k {
	case KSlice, KNil:
	case KCall:
		if m.cur.byt[s] == nil {
			return s
		}
	default:
		if m.cur.byt[s] == nil {
			if r, ok := rawOf(s); ok && s.coef == nil {
				return m.hex(r)
			}
			return s
		}
	}
	if s.k == KNil {
		return s
	}
	return m.content(m.pieces(s))
}

// buffer makes a new slice with the given contents.
func (m *Mach) buffer(c *Ctx, ins ssa.Instruction, ps []*Sym, t types.Type) *Sym {
	a := m.a
	ps = m.canon(ps)
	n := m.total(ps)
	if len(ps) > 300 {
		ps = []*Sym{a.Op("?", n)}
	}
	b := a.intern(fmt.Sprintf("buf:%d:%p:%s", c.id, ins, ids(ps)), func() *Sym {
		return &Sym{k: KCall, name: "buf", args: ps, ctx: c, ins: ins, typ: t}
	})
	r := &region{n: n}
	at := a.Int(0)
	for _, p := range ps {
		hi := a.Add(at, m.plen(p))
		r.segs = append(r.segs, seg{at, hi, p})
		at = hi
	}
	m.cur.byt[b] = r
	return b
}

func (m *Mach) lenOf(s *Sym, t types.Type) *Sym {
	l := m.lenOf1(s, t)
	if l.k == KOp && l.name == "len" {
		if v := m.q.sc.Eval(l, m.env); v.isC() {
			return m.a.Int(v.lo)
		}
	}
	return l
}

func (m *Mach) lenOf1(s *Sym, t types.Type) *Sym {
	a := m.a
	if t != nil {
		if ar := arrOf(deptr(t)); ar != nil {
			return a.Int(ar.Len())
		}
	}
	switch s.k {
	case KSlice:
		lo := s.args[1]
		if lo == nil {
			lo = a.Int(0)
		}
		hi := s.args[2]
		if hi == nil {
			hi = m.lenOf(s.args[0], s.args[0].typ)
		}
		return a.Sub(hi, lo)
	case KOp:
		switch s.name {
		case "#":
			return m.total(s.args)
		case "b", "e", "zeros", "?", "sub", "sha256":
			return m.plen(s)
		}
		if len(s.name) == 3 && (s.name[:2] == "le" || s.name[:2] == "be") {
			return m.plen(s)
		}
	case KCall:
		if r := m.cur.byt[s]; r != nil && r.n != nil {
			return r.n
		}
		if s.base != nil && strings.HasPrefix(s.name, "got.") {
			return s.base
		}
	case KConst:
		if r, ok := rawOf(s); ok {
			return a.Int(int64(len(r)))
		}
	}
	return a.lenOf(s, t)
}

func (m *Mach) copy(dst, src *Sym) *Sym {
	a := m.a
	base, lo := m.baseOf(dst)
	dn, sn := m.lenOf(dst, nil), m.lenOf(src, nil)
	ps := m.pieces(src)
	switch {
	case m.ge(dn, sn):
		at := lo
		for _, p := range ps {
			hi := a.Add(at, m.plen(p))
			m.write(base, at, hi, p)
			at = hi
		}
		return sn
	case m.ge(sn, dn):
		at := lo
		for _, p := range m.subPieces(ps, a.Int(0), dn) {
			hi := a.Add(at, m.plen(p))
			m.write(base, at, hi, p)
			at = hi
		}
		return dn
	}
	// a fixed place filled from something of unknown length
	if n, ok := dn.IntVal(); ok && n <= 256 && len(ps) == 1 && base.k == KLocal {
		p := ps[0]
		m.write(base, lo, a.Add(lo, dn), a.Op("cp", p, dn))
		return a.Op("min", dn, sn)
	}
	// which one is shorter is not known: both readings agree on the bytes
	// that are written, so the destination is taken to be large enough
	at := lo
	for _, p := range ps {
		hi := a.Add(at, m.plen(p))
		m.write(base, at, hi, p)
		at = hi
	}
	return a.Op("min", dn, sn)
}

// At runs f with the analysis standing at a state, before its effect.
func (m *Mach) At(s State, f func()) bool {
	ms := m.in[s.key()]
	if ms == nil {
		return false
	}
	m.cur, m.env, m.here = ms.clone(), s.e, s
	m.a.mach = m
	defer func() { m.a.mach = nil }()
	f()
	return true
}

// ArgAt is argument i of the effect of a state, as contents.
func (m *Mach) ArgAt(s State, i int) *Sym {
	var out *Sym
	m.At(s, func() {
		c := s.n.c
		var args []ssa.Value
		switch x := s.n.ins.(type) {
		case *ssa.Store:
			if i == 0 {
				out = strip2(m.a.Eval(c, x.Addr))
				return
			}
			out = m.show(m.a.Eval(c, x.Val))
			return
		case *ssa.MapUpdate:
			args = []ssa.Value{x.Map, x.Key, x.Value}
		case *ssa.Send:
			args = []ssa.Value{x.Chan, x.X}
		case ssa.CallInstruction:
			if x.Common().IsInvoke() {
				args = append(args, x.Common().Value)
			}
			args = append(args, x.Common().Args...)
		}
		if i < len(args) {
			out = m.show(m.a.Eval(c, args[i]))
		}
	})
	return out
}

// show gives the contents of what a value refers to.
func (m *Mach) show(v *Sym) *Sym {
	v = m.settle(m.snap(v))
	if v.k == KAddr && v.args[0].k == KLocal {
		p := v.args[0]
		if st := m.structVal(p, nil); st != nil {
			return m.showComp(st)
		}
	}
	if v.k == KComp {
		return m.showComp(v)
	}
	// slices within a list of slices: what they hold
	return m.a.Rewrite(v, func(x *Sym) *Sym {
		if x.k == KOp && x.name == "e" && x.args[0].k == KSlice {
			if b, _ := m.baseOf(x.args[0]); b != nil && b.k == KLocal {
				return m.a.Op("e", m.snap(x.args[0]))
			}
		}
		return nil
	})
}

func (m *Mach) showComp(v *Sym) *Sym {
	var as []*Sym
	for _, x := range v.args {
		as = append(as, m.settle(m.snap(x)))
	}
	return m.a.intern("comp:"+v.name+":"+ids(as), func() *Sym { return &Sym{k: KComp, name: v.name, args: as, typ: v.typ} })
}

// RetAt is result i at a return of the entry point.
func (m *Mach) RetAt(s State, i int) *Sym {
	var out *Sym
	m.At(s, func() {
		if r := retOf(s.n); r != nil && i < len(r.Results) {
			out = m.show(m.a.Eval(s.n.c, r.Results[i]))
		}
	})
	return out
}

// Bytes: whenever an effect of the pattern happens, its argument holds one of
// the forms.
func (r *R) Bytes(q *Q, what string, p P, arg int, forms ...string) bool {
	r.uses(P(strings.Join(forms, " ")), p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	n, unk := 0, ""
	for _, s := range q.Find(p) {
		v := m.ArgAt(s, arg)
		if v == nil {
			continue // not reached
		}
		r.site(s)
		if !globAny(forms, v.String()) {
			if strings.Contains(v.String(), "?top") || strings.Contains(v.String(), "?(") || strings.Contains(v.String(), "?bytes") {
				unk = v.String()
				continue
			}
			r.fail(ob, s.n.Where(), what+": "+clip(v.String(), 600)+", expected "+strings.Join(forms, " or "), s.n.Where())
			return false
		}
		n++
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 && unk != "" {
		r.undecided(ob, "content not known: "+clip(unk, 200))
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": "+string(p)+" is not reachable")
		return false
	}
	r.ok(ob)
	return true
}

// ResultBytes: every result idx of the entry point holds one of the forms.
func (r *R) ResultBytes(q *Q, what string, idx int, forms ...string) bool {
	r.uses(P(strings.Join(forms, " ")))
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	n, unk := 0, ""
	for _, s := range q.rootRets() {
		v := m.RetAt(s, idx)
		if v == nil {
			continue
		}
		r.site(s)
		if !globAny(forms, v.String()) {
			if strings.Contains(v.String(), "?top") || strings.Contains(v.String(), "?(") || strings.Contains(v.String(), "?bytes") {
				unk = v.String()
				continue
			}
			r.fail(ob, s.n.Where(), what+": "+clip(v.String(), 600)+", expected "+strings.Join(forms, " or "), s.n.Where())
			return false
		}
		n++
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 && unk != "" {
		r.undecided(ob, "content not known: "+clip(unk, 200))
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	}
	r.ok(ob)
	return true
}

func globAny(forms []string, s string) bool {
	for _, f := range forms {
		if globAlts(f, s) {
			return true
		}
	}
	return false
}

// mapKey is the key of a map as a number, where what is known makes it one.
func (m *Mach) mapKey(k *Sym) *Sym {
	if k.k == KConst || k.typ != nil && !isInteger(k.typ) {
		return k
	}
	sv := m.a.mach
	m.a.mach = nil
	v := m.q.sc.Eval(k, m.env)
	m.a.mach = sv
	if v.isC() {
		return m.a.Int(v.lo)
	}
	return k
}
