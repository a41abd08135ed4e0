package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one inlined activation of a function: its call chain up to the root.
type Ctx struct {
	an     *Analysis
	id     int
	parent *Ctx
	site   ssa.CallInstruction
	fn     *ssa.Function
	args   []*Sym
	bind   []*Sym
	async  bool // inside the body of a go statement
	depth  int
	li     *LoopInfo
}

// Analysis is one entry point, looked at with the functions it calls inlined.
type Analysis struct {
	p        *Program
	root     *Ctx
	syms     symTab
	ctxs     map[string]*Ctx
	nctx     int
	iterMemo map[*Sym]bool
	maxTrip  int64
	keepIter bool
	memo     map[evKey]*Sym
	busy     map[evKey]int
	level    int
	low      int
	cuts     int
	inline   func(caller *Ctx, callee *ssa.Function) bool
	iface    map[string]*ssa.Function // interface method -> implementation to inline
	stores   map[*ssa.Function]map[string]bool
	g        *Graph
	rootNm   string
	nload    int
	tracked  map[*Sym]bool
	condN    map[*Sym]int
	retphis  map[*Ctx][]*Sym
	inLoopM  map[string]bool
	mach     *Mach
}

type evKey struct {
	c *Ctx
	v ssa.Value
	x int
}

// Opts configure an analysis.
type Opts struct {
	NoInline []string // function names (fnName form, globs) to leave as opaque calls
	Iface    map[string]*ssa.Function
	key      string
	KeepIter bool // how often a loop ran is still known after it
	MaxTrip  int  // loops known to run at most so often are gone through step by step
}

func (p *Program) Analyze(fn *ssa.Function, o Opts) *Analysis {
	a := &Analysis{p: p, syms: symTab{m: map[string]*Sym{}}, ctxs: map[string]*Ctx{}, memo: map[evKey]*Sym{},
		busy: map[evKey]int{}, low: 1 << 30, iface: o.Iface, maxTrip: maxTrip}
	a.keepIter = o.KeepIter
	if o.MaxTrip > 0 {
		a.maxTrip = int64(o.MaxTrip)
	}
	curAn = a
	a.inline = func(c *Ctx, f *ssa.Function) bool {
		if f.Blocks == nil || f.Pkg == nil && f.Parent() == nil && f.Synthetic == "" {
			return false
		}
		nm := fnName(f)
		for _, g := range o.NoInline {
			if glob(g, nm) {
				return false
			}
		}
		pk := f.Pkg
		if pk == nil && f.Synthetic != "" {
			// wrappers, bound methods
			if o := f.Object(); o != nil && o.Pkg() != nil {
				return inModule(o.Pkg())
			}
			return true
		}
		if pk == nil || !inModule(pk.Pkg) {
			return false
		}
		if isMock(f) {
			return false
		}
		for q := c; q != nil; q = q.parent {
			if q.fn == f {
				return false
			}
		}
		return c.depth < 40
	}
	a.root = &Ctx{an: a, fn: fn, li: p.LoopsOf(fn)}
	a.nctx = 1
	a.root.id = 1
	a.rootNm = fnName(fn)
	off := 0
	for i, prm := range fn.Params {
		name := fmt.Sprintf("a%d", i-off)
		if i == 0 && fn.Signature.Recv() != nil {
			name = "recv"
			off = 1
		}
		t := prm.Type()
		s := a.intern("param:"+name, func() *Sym { return &Sym{k: KParam, name: name, typ: t, val: prm} })
		a.root.args = append(a.root.args, s)
	}
	for i, fv := range fn.FreeVars {
		name := "fv." + fv.Name()
		_ = i
		s := a.intern("freevar:"+name, func() *Sym { return &Sym{k: KParam, name: name, typ: fv.Type(), val: fv} })
		a.root.bind = append(a.root.bind, s)
	}
	return a
}

// callee resolves the function a call goes to, when it is to be looked into.
func (a *Analysis) callee(c *Ctx, site ssa.CallInstruction) *ssa.Function {
	cc := site.Common()
	if cc.IsInvoke() {
		if a.iface != nil {
			if f := a.iface[ifaceName(cc)]; f != nil && a.inline(c, f) {
				return f
			}
		}
		return nil
	}
	var f *ssa.Function
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return nil
	case *ssa.Function:
		f = v
	case *ssa.MakeClosure:
		f = v.Fn.(*ssa.Function)
	default:
		s := a.Eval(c, v)
		if s.k == KFunc {
			f = s.fn
		}
	}
	if f == nil || !a.inline(c, f) {
		return nil
	}
	return f
}

// arg is the value of parameter i of an activation.
func (c *Ctx) arg(i int) *Sym {
	if c.site == nil {
		if i < len(c.args) {
			return c.args[i]
		}
		return nil
	}
	cc := c.site.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return c.an.Eval(c.parent, cc.Value)
		}
		i--
	}
	if i < len(cc.Args) {
		return c.an.Eval(c.parent, cc.Args[i])
	}
	return nil
}

// captured is the value bound to free variable i of an activation.
func (c *Ctx) captured(i int) *Sym {
	if c.site == nil {
		if i < len(c.bind) {
			return c.bind[i]
		}
		return nil
	}
	v := c.site.Common().Value
	if mc, ok := v.(*ssa.MakeClosure); ok {
		if i < len(mc.Bindings) {
			return c.an.Eval(c.parent, mc.Bindings[i])
		}
		return nil
	}
	if s := c.an.Eval(c.parent, v); s.k == KFunc && i < len(s.args) {
		return s.args[i]
	}
	return nil
}

func (a *Analysis) sub(c *Ctx, site ssa.CallInstruction) *Ctx {
	key := fmt.Sprintf("%d/%p", c.id, site)
	if s, ok := a.ctxs[key]; ok {
		return s
	}
	low := a.low
	a.low = 1 << 30
	f := a.callee(c, site)
	cut := a.low != 1<<30
	if low < a.low {
		a.low = low
	}
	if o, ok := a.ctxs[key]; ok { // filled in while resolving
		return o
	}
	if f == nil {
		if !cut {
			a.ctxs[key] = nil
		}
		return nil
	}
	a.nctx++
	_, isGo := site.(*ssa.Go)
	s := &Ctx{an: a, id: a.nctx, parent: c, site: site, fn: f,
		async: c.async || isGo, depth: c.depth + 1, li: a.p.LoopsOf(f)}
	a.ctxs[key] = s
	return s
}

func ifaceName(cc *ssa.CallCommon) string {
	t := cc.Value.Type()
	n := namedName(t)
	if n == "" {
		n = t.String()
	}
	return n + "." + cc.Method.Name()
}

// callName names the callee of a call that is not looked into.
func (a *Analysis) callName(c *Ctx, cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return ifaceName(cc)
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.Function:
		return fnName(v)
	}
	s := a.Eval(c, cc.Value)
	if s.k == KFunc {
		return fnName(s.fn)
	}
	return "dyn:" + s.String()
}

func (a *Analysis) Eval(c *Ctx, v ssa.Value) *Sym {
	if a.mach != nil {
		return a.mach.val(c, v)
	}
	key := evKey{c, v, -1}
	if s := a.memo[key]; s != nil {
		return s
	}
	if d, ok := a.busy[key]; ok {
		a.hitCycle(d)
		return a.opaque(c, v)
	}
	d := a.enter(key)
	s := a.eval(c, v)
	if a.leave(key, d) {
		a.memo[key] = s
	}
	return s
}

// Cyclic definitions are cut at a value that is being computed; what was
// computed below the cut on the way is not kept, because it would be different
// (less precise) than when asked for on its own.
func (a *Analysis) hitCycle(d int) {
	if d < a.low {
		a.low = d
	}
}

func (a *Analysis) enter(key evKey) int {
	a.level++
	a.busy[key] = a.level
	return a.level
}

func (a *Analysis) leave(key evKey, d int) bool {
	delete(a.busy, key)
	a.level--
	if a.low < d {
		a.cuts++
		return a.cuts > 3000 // keep anyway when there is too much to redo
	}
	a.low = 1 << 30
	return true
}

func (a *Analysis) opaque(c *Ctx, v ssa.Value) *Sym {
	return a.intern(fmt.Sprintf("?%d:%p", c.id, v), func() *Sym {
		nm := v.Name()
		if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
			nm = p.Comment
		}
		return &Sym{k: KOpaque, name: "?" + nm, ctx: c, val: v, typ: v.Type()}
	})
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func structField(t types.Type, i int) (owner, name string, ft types.Type) {
	n := namedName(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		if n == "" {
			n = namedName(t)
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return n, fmt.Sprintf("#%d", i), nil
	}
	return n, st.Field(i).Name(), st.Field(i).Type()
}

func (a *Analysis) eval(c *Ctx, v ssa.Value) *Sym {
	switch x := v.(type) {
	case *ssa.Const:
		return a.Const(x)
	case *ssa.Parameter:
		for i, prm := range c.fn.Params {
			if prm == x {
				if s := c.arg(i); s != nil {
					return s
				}
			}
		}
		return a.opaque(c, v)
	case *ssa.FreeVar:
		for i, fv := range c.fn.FreeVars {
			if fv == x {
				if s := c.captured(i); s != nil {
					return s
				}
			}
		}
		return a.opaque(c, v)
	case *ssa.Global:
		return a.Addr(a.intern("g:"+x.String(), func() *Sym {
			n := x.Name()
			if x.Pkg != nil {
				n = relPkg(x.Pkg.Pkg) + "." + n
				if !inModule(x.Pkg.Pkg) {
					n = x.Pkg.Pkg.Path() + "." + x.Name()
				}
			}
			return &Sym{k: KGlobal, name: n, typ: x.Type().(*types.Pointer).Elem()}
		}))
	case *ssa.Function:
		return a.funcSym(x, nil)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var b []*Sym
		for _, y := range x.Bindings {
			b = append(b, a.Eval(c, y))
		}
		return a.funcSym(f, b)
	case *ssa.Alloc:
		return a.Addr(a.intern(fmt.Sprintf("loc:%d:%p", c.id, x), func() *Sym {
			nm := x.Comment
			if nm == "" {
				nm = "tmp"
			}
			return &Sym{k: KLocal, name: "$" + strings.ReplaceAll(nm, " ", "_"), ctx: c, val: x, typ: x.Type().(*types.Pointer).Elem()}
		}))
	case *ssa.FieldAddr:
		o, n, t := structField(x.X.Type(), x.Field)
		return a.Addr(a.Field(strip(a.Eval(c, x.X)), o, n, t))
	case *ssa.Field:
		o, n, t := structField(x.X.Type(), x.Field)
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			base := strip(a.Eval(c, u.X))
			return a.load(c, u, a.Field(base, o, n, t))
		}
		return a.Field(a.Eval(c, x.X), o, n, t)
	case *ssa.IndexAddr:
		return a.Addr(a.Index(strip(a.Eval(c, x.X)), a.Eval(c, x.Index), elemType(x.X.Type())))
	case *ssa.Index:
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			return a.load(c, u, a.Index(strip(a.Eval(c, u.X)), a.Eval(c, x.Index), x.Type()))
		}
		return a.Index(a.Eval(c, x.X), a.Eval(c, x.Index), x.Type())
	case *ssa.Lookup:
		s := a.Lookup(a.Eval(c, x.X), a.Eval(c, x.Index), x.Type())
		return s
	case *ssa.Slice:
		base := a.Eval(c, x.X)
		var lo, hi *Sym
		if x.Low != nil {
			lo = a.Eval(c, x.Low)
		}
		if x.High != nil {
			hi = a.Eval(c, x.High)
		}
		base = strip(base)
		if x.Max == nil && lo == nil && hi == nil && isSliceT(x.X.Type()) {
			return base
		}
		if arr, ok := deptr(x.X.Type()).Underlying().(*types.Array); ok && hi != nil && hi.IsInt(arr.Len()) {
			hi = nil
		}
		return a.Slice(base, lo, hi)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := a.Eval(c, x.X)
			return a.load(c, x, a.Deref(p))
		case token.SUB:
			return a.Scale(a.Eval(c, x.X), -1)
		case token.NOT:
			y := a.Eval(c, x.X)
			if y.k == KConst && y.cv.Kind() == constant.Bool {
				return a.Bool(!constant.BoolVal(y.cv))
			}
			return a.Op("not", y)
		case token.XOR:
			y := a.Eval(c, x.X)
			if v, ok := y.IntVal(); ok {
				switch x.Type().Underlying().(*types.Basic).Kind() {
				case types.Uint8:
					return a.Int(int64(^uint8(v)))
				case types.Uint32:
					return a.Int(int64(^uint32(v)))
				}
				return a.Int(^v)
			}
			return a.Op("compl", y)
		case token.ARROW:
			return a.callRes(c, x, "recv", []*Sym{a.Eval(c, x.X)})
		}
	case *ssa.BinOp:
		return a.binop(c, x)
	case *ssa.ChangeType:
		return a.Eval(c, x.X)
	case *ssa.ChangeInterface:
		return a.Eval(c, x.X)
	case *ssa.MakeInterface:
		return a.Eval(c, x.X)
	case *ssa.TypeAssert:
		return a.Eval(c, x.X)
	case *ssa.SliceToArrayPointer:
		return a.Addr(strip(a.Eval(c, x.X)))
	case *ssa.Convert:
		y := a.Eval(c, x.X)
		if isInteger(x.Type()) && isInteger(x.X.Type()) {
			if v, ok := y.IntVal(); ok {
				switch x.Type().Underlying().(*types.Basic).Kind() {
				case types.Uint8:
					return a.Int(int64(uint8(v)))
				case types.Uint32:
					return a.Int(int64(uint32(v)))
				case types.Int32:
					return a.Int(int64(int32(v)))
				}
				return y
			}
			if w := width(x.Type()); w < 64 && width(x.X.Type()) > w {
				return a.Op(fmt.Sprintf("trunc%d", w), y)
			}
			return y
		}
		return y // string <-> []byte keep the content
	case *ssa.Phi:
		return a.phi(c, x)
	case *ssa.Extract:
		return a.extract(c, x)
	case *ssa.Call:
		return a.call(c, x, 0)
	case *ssa.MakeSlice:
		l := a.Eval(c, x.Len)
		return a.intern(fmt.Sprintf("mk:%d:%p", c.id, x), func() *Sym {
			return &Sym{k: KCall, name: "make", args: []*Sym{l}, ctx: c, ins: x, val: x, typ: x.Type()}
		})
	case *ssa.MakeMap, *ssa.MakeChan:
		nm := "makemap"
		if _, ok := x.(*ssa.MakeChan); ok {
			nm = "makechan"
		}
		return a.intern(fmt.Sprintf("mk:%d:%p", c.id, x), func() *Sym {
			return &Sym{k: KCall, name: nm, ctx: c, ins: x.(ssa.Instruction), val: x, typ: x.Type()}
		})
	}
	return a.opaque(c, v)
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func elemType(t types.Type) types.Type {
	switch u := deptr(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (a *Analysis) funcSym(f *ssa.Function, bind []*Sym) *Sym {
	return a.intern(fmt.Sprintf("fn:%p(%s)", f, ids(bind)), func() *Sym { return &Sym{k: KFunc, fn: f, args: bind} })
}

func (a *Analysis) binop(c *Ctx, x *ssa.BinOp) *Sym {
	l, r := a.Eval(c, x.X), a.Eval(c, x.Y)
	isI := isInteger(x.X.Type())
	if !isI {
		switch x.Op {
		case token.EQL:
			return a.Op("==", l, r)
		case token.NEQ:
			return a.Op("not", a.Op("==", l, r))
		case token.ADD:
			return a.Op("concat", l, r)
		}
		return a.Op(x.Op.String(), l, r)
	}
	lv, lok := l.IntVal()
	rv, rok := r.IntVal()
	switch x.Op {
	case token.ADD:
		return a.Add(l, r)
	case token.SUB:
		return a.Sub(l, r)
	case token.MUL:
		return a.Mul(l, r)
	case token.QUO:
		return a.Quo(l, r)
	case token.REM:
		return a.Rem(l, r)
	case token.SHL:
		if rok && rv >= 0 && rv < 62 {
			return a.Mul(l, a.Int(1<<uint(rv)))
		}
		return a.Op("shl", l, r)
	case token.SHR:
		if rok && rv >= 0 && rv < 62 {
			// (x<<k)>>k is x without its upper k bits
			if y, ok := x.X.(*ssa.BinOp); ok && y.Op == token.SHL {
				if k, ok := a.Eval(c, y.Y).IntVal(); ok && k == rv && width(x.X.Type())-int(k) < 62 {
					return a.Rem(a.Eval(c, y.X), a.Int(1<<uint(width(x.X.Type())-int(k))))
				}
			}
			return a.Quo(l, a.Int(1<<uint(rv)))
		}
		return a.Op("shr", l, r)
	case token.AND:
		if lok && rok {
			return a.Int(lv & rv)
		}
		if lok {
			l, r, lv, rv, lok, rok = r, l, rv, lv, rok, lok
		}
		if rok {
			if _, ok := pow2(rv + 1); ok {
				if c, t := a.linParts(l); c <= 0 && allNegative(t) {
					return a.Rem(a.Sub(a.Int(rv+1), a.Rem(a.Scale(l, -1), a.Int(rv+1))), a.Int(rv+1))
				}
				return a.Rem(l, a.Int(rv+1))
			}
		}
		return a.Op("and", l, r)
	case token.AND_NOT:
		if lok && rok {
			return a.Int(lv &^ rv)
		}
		if rok {
			if _, ok := pow2(rv + 1); ok {
				return a.Sub(l, a.Rem(l, a.Int(rv+1)))
			}
		}
		return a.Op("andnot", l, r)
	case token.OR:
		if lok && rok {
			return a.Int(lv | rv)
		}
		return a.Op("or", l, r)
	case token.XOR:
		if lok && rok {
			return a.Int(lv ^ rv)
		}
		return a.Op("xor", l, r)
	case token.EQL:
		if l == r {
			return a.Bool(true)
		}
		if lok && rok {
			return a.Bool(lv == rv)
		}
		return a.Op("==", l, r)
	case token.NEQ:
		if l == r {
			return a.Bool(false)
		}
		if lok && rok {
			return a.Bool(lv != rv)
		}
		return a.Op("not", a.Op("==", l, r))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if lok && rok {
			switch x.Op {
			case token.LSS:
				return a.Bool(lv < rv)
			case token.LEQ:
				return a.Bool(lv <= rv)
			case token.GTR:
				return a.Bool(lv > rv)
			case token.GEQ:
				return a.Bool(lv >= rv)
			}
		}
		switch x.Op {
		case token.LSS:
			return a.Op("<", l, r)
		case token.LEQ:
			return a.Op("<=", l, r)
		case token.GTR:
			return a.Op("<", r, l)
		default:
			return a.Op("<=", r, l)
		}
	}
	return a.Op(x.Op.String(), l, r)
}

// Iter is the 0-based iteration number of loop l of activation c.
func (a *Analysis) Iter(c *Ctx, l *NatLoop) *Sym {
	return a.intern(fmt.Sprintf("iter:%d:%p", c.id, l), func() *Sym {
		return &Sym{k: KIter, name: "K", ctx: c, loop: l}
	})
}

func (a *Analysis) phi(c *Ctx, x *ssa.Phi) *Sym {
	b := x.Block()
	l := c.li.ByHeader[b]
	if l == nil {
		var alts []*Sym
		for i, e := range x.Edges {
			if c.li.mustPanic[b.Preds[i]] {
				continue
			}
			alts = append(alts, a.Eval(c, e))
		}
		return a.merge(c, x, alts)
	}
	// loop header
	var inits, steps []ssa.Value
	for i, e := range x.Edges {
		if l.Latch[b.Preds[i]] {
			steps = append(steps, e)
		} else {
			inits = append(inits, e)
		}
	}
	var initS []*Sym
	for _, e := range inits {
		initS = append(initS, a.Eval(c, e))
	}
	init := a.merge(c, x, initS)
	if isInteger(x.Type()) {
		var st int64
		ok := true
		op := ""
		for i, e := range steps {
			d, o, good := stepOf(e, x)
			if !good {
				ok = false
				break
			}
			if i == 0 {
				st, op = d, o
			} else if st != d || op != o {
				ok = false
			}
		}
		if ok && op == "+" {
			return a.Add(init, a.Scale(a.Iter(c, l), st))
		}
		if ok && op != "" {
			return a.Op("geo"+op, init, a.Int(st), a.Iter(c, l))
		}
	}
	same := true
	for _, e := range steps {
		if e != ssa.Value(x) {
			same = false
		}
	}
	if same {
		return init
	}
	return a.intern(fmt.Sprintf("loopvar:%d:%p", c.id, x), func() *Sym {
		nm := x.Comment
		if nm == "" {
			nm = "v"
		}
		return &Sym{k: KOpaque, name: "~" + nm, ctx: c, val: x, loop: l, typ: x.Type(), args: []*Sym{init}}
	})
}

// stepOf recognises e = x + d, x * d, x / d, x << d, x >> d.
func stepOf(e ssa.Value, x *ssa.Phi) (int64, string, bool) {
	b, ok := e.(*ssa.BinOp)
	if !ok {
		return 0, "", false
	}
	cst := func(v ssa.Value) (int64, bool) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(k.Value)
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			if cv, ok := v.(*ssa.Convert); ok && isInteger(cv.Type()) {
				v = cv.X
				continue
			}
			return v
		}
	}
	if strip(b.X) == ssa.Value(x) {
		if d, ok := cst(b.Y); ok {
			switch b.Op {
			case token.ADD:
				return d, "+", true
			case token.SUB:
				return -d, "+", true
			case token.MUL:
				return d, "*", true
			case token.QUO:
				return d, "/", true
			case token.SHL:
				return 1 << uint(d), "*", true
			case token.SHR:
				return 1 << uint(d), "/", true
			}
		}
	}
	if strip(b.Y) == ssa.Value(x) {
		if d, ok := cst(b.X); ok {
			switch b.Op {
			case token.ADD:
				return d, "+", true
			case token.MUL:
				return d, "*", true
			}
		}
	}
	return 0, "", false
}

func (a *Analysis) merge(c *Ctx, v ssa.Value, alts []*Sym) *Sym {
	if len(alts) == 0 {
		return a.opaque(c, v)
	}
	same := true
	for _, s := range alts {
		if s != alts[0] {
			same = false
		}
	}
	if same {
		return alts[0]
	}
	return a.intern(fmt.Sprintf("phi:%d:%p:%s", c.id, v, ids(alts)), func() *Sym {
		return &Sym{k: KPhi, args: alts, ctx: c, val: v, typ: v.Type()}
	})
}

func (a *Analysis) callRes(c *Ctx, ins ssa.Instruction, name string, args []*Sym) *Sym {
	if name == "math/bits.Len64" {
		return a.lincomb(a.Int(64), 1, a.callRes(c, ins, "math/bits.LeadingZeros64", args), -1)
	}
	return a.intern(fmt.Sprintf("call:%d:%p", c.id, ins), func() *Sym {
		s := &Sym{k: KCall, name: name, args: args, ctx: c, ins: ins}
		if v, ok := ins.(ssa.Value); ok {
			s.val = v
			s.typ = v.Type()
		}
		return s
	})
}

// external functions whose result depends on their arguments only
var pureExt = map[string]bool{
	"bytes.Equal": true, "bytes.Compare": true, "bytes.Index": true, "path/filepath.Join": true, "fmt.Sprintf": true,
	"math/bits.LeadingZeros64": true, "math/bits.TrailingZeros64": true, "math/bits.Len64": true, "math/bits.OnesCount64": true, "strings.Split": true, "runtime.NumCPU": true,
	"(encoding/binary.littleEndian).Uint32": false,
}

func (a *Analysis) call(c *Ctx, x *ssa.Call, idx int) *Sym {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []*Sym
		for _, y := range cc.Args {
			args = append(args, a.Eval(c, y))
		}
		switch b.Name() {
		case "len":
			return a.lenOf(args[0], cc.Args[0].Type())
		case "cap":
			return a.Op("cap", args[0])
		case "append":
			return a.Op("append", args...)
		case "copy":
			return a.callRes(c, x, "copy", args)
		case "min", "max":
			return a.Op(b.Name(), args...)
		}
		return a.callRes(c, x, "builtin."+b.Name(), args)
	}
	if s := a.sub(c, x); s != nil {
		var alts []*Sym
		for _, r := range returnsOf(s) {
			if idx < len(r.Results) {
				alts = append(alts, a.resultOf(s, r, idx))
			}
		}
		if len(alts) == 0 {
			return a.opaque(c, x)
		}
		m := a.merge(c, x, alts)
		if m.k == KPhi {
			return a.intern(fmt.Sprintf("retphi:%d:%p:%d", c.id, x, idx), func() *Sym {
				return &Sym{k: KPhi, args: alts, ctx: s, val: x, name: fmt.Sprint(idx), typ: resType(cc, idx)}
			})
		}
		return m
	}
	return a.extCall(c, x, idx)
}

func resType(cc *ssa.CallCommon, idx int) types.Type {
	r := cc.Signature().Results()
	if idx < r.Len() {
		return r.At(idx).Type()
	}
	return nil
}

func (a *Analysis) extCall(c *Ctx, x *ssa.Call, idx int) *Sym {
	cc := x.Common()
	var args []*Sym
	if cc.IsInvoke() {
		args = append(args, a.Eval(c, cc.Value))
	}
	for _, y := range cc.Args {
		args = append(args, a.Eval(c, y))
	}
	name := a.callName(c, cc)
	if f := cc.StaticCallee(); f != nil {
		if a.p.isPure(f) || pureExt[f.String()] {
			base := a.Op(name, args...)
			if cc.Signature().Results().Len() > 1 {
				return a.Op(fmt.Sprintf("#%d", idx), base)
			}
			return base
		}
		switch f.String() {
		case "(encoding/binary.littleEndian).Uint64":
			return a.dec(c, x, "LE8", args[len(args)-1])
		case "(encoding/binary.littleEndian).Uint32":
			return a.dec(c, x, "LE4", args[len(args)-1])
		case "(encoding/binary.littleEndian).Uint16":
			return a.dec(c, x, "LE2", args[len(args)-1])
		case "(encoding/binary.bigEndian).Uint64":
			return a.dec(c, x, "BE8", args[len(args)-1])
		case "(encoding/binary.bigEndian).Uint32":
			return a.dec(c, x, "BE4", args[len(args)-1])
		}
	}
	r := a.callRes(c, x, name, args)
	if cc.Signature().Results().Len() > 1 {
		return a.intern(fmt.Sprintf("ext:%d#%d", r.id, idx), func() *Sym {
			return &Sym{k: KOp, name: fmt.Sprintf("#%d", idx), args: []*Sym{r}, ctx: c, ins: x, typ: resType(cc, idx)}
		})
	}
	return r
}

// dec is a fixed-width decode of a byte slice.
func (a *Analysis) dec(c *Ctx, x ssa.Instruction, kind string, src *Sym) *Sym {
	return a.Op(kind, a.normBytes(src, int64(kind[2]-'0')))
}

// normBytes drops the upper bound of a slice when exactly n bytes are read.
func (a *Analysis) normBytes(s *Sym, n int64) *Sym {
	if s.k == KSlice && s.args[2] != nil {
		lo := a.Int(0)
		if s.args[1] != nil {
			lo = s.args[1]
		}
		if a.Sub(s.args[2], lo).IsInt(n) {
			return a.Slice(s.args[0], s.args[1], nil)
		}
	}
	return s
}

func (a *Analysis) lenOf(s *Sym, t types.Type) *Sym {
	if t != nil {
		if arr, ok := deptr(t).Underlying().(*types.Array); ok {
			return a.Int(arr.Len())
		}
	}
	if s.k == KSlice && s.args[2] != nil {
		if s.args[1] == nil {
			return s.args[2]
		}
		return a.Sub(s.args[2], s.args[1])
	}
	if s.k == KSlice && s.args[2] == nil {
		base := s.args[0]
		if base.typ != nil {
			if arr, ok := deptr(base.typ).Underlying().(*types.Array); ok {
				if s.args[1] == nil {
					return a.Int(arr.Len())
				}
				return a.Sub(a.Int(arr.Len()), s.args[1])
			}
		}
	}
	if s.k == KCall && s.name == "make" {
		return s.args[0]
	}
	if s.k == KNil {
		return a.Int(0)
	}
	if s.k == KConst && s.cv != nil && s.cv.Kind() == constant.String {
		return a.Int(int64(len(constant.StringVal(s.cv))))
	}
	return a.Op("len", s)
}

// returnsOf lists the ordinary returns of an activation.
func returnsOf(c *Ctx) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range c.fn.Blocks {
		if b == c.fn.Recover || c.li.mustPanic[b] {
			continue
		}
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

func (a *Analysis) resultOf(c *Ctx, r *ssa.Return, idx int) *Sym {
	return a.Eval(c, r.Results[idx])
}

func (a *Analysis) extract(c *Ctx, x *ssa.Extract) *Sym {
	switch t := x.Tuple.(type) {
	case *ssa.Call:
		return a.call(c, t, x.Index)
	case *ssa.Lookup:
		base := a.Eval(c, t)
		if x.Index == 0 {
			return base
		}
		return a.Op("has", base.args[0], base.args[1])
	case *ssa.Next:
		rng := t.Iter.(*ssa.Range)
		over := a.Eval(c, rng.X)
		l := c.li.ByHeader[t.Block()]
		it := a.Int(0)
		if l != nil {
			it = a.Iter(c, l)
		}
		nm := "rangeok"
		if x.Index == 1 {
			nm = "rangekey"
		} else if x.Index == 2 {
			nm = "rangeval"
		}
		if x.Index == 2 && !t.IsString {
			key := a.intern(fmt.Sprintf("el:%s:%d:%d", "rangekey", over.id, it.id), func() *Sym {
				return &Sym{k: KElem, name: "rangekey", args: []*Sym{over, it}, loop: l, ctx: c}
			})
			return a.Lookup(over, key, x.Type())
		}
		return a.intern(fmt.Sprintf("el:%s:%d:%d", nm, over.id, it.id), func() *Sym {
			return &Sym{k: KElem, name: nm, args: []*Sym{over, it}, loop: l, ctx: c, typ: x.Type()}
		})
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			r := a.callRes(c, t, "recv", []*Sym{a.Eval(c, t.X)})
			if x.Index == 0 {
				return r
			}
			return a.Op("recvok", r)
		}
	case *ssa.TypeAssert:
		if x.Index == 0 {
			return a.Eval(c, t.X)
		}
		return a.Op("isa", a.Eval(c, t.X), a.intern("type:"+t.AssertedType.String(), func() *Sym {
			return &Sym{k: KOpaque, name: t.AssertedType.String()}
		}))
	}
	return a.opaque(c, x)
}

// isPure: no effects, and the result depends on the arguments only.
func (p *Program) isPure(f *ssa.Function) bool {
	if v, ok := pureMemo[f]; ok {
		return v
	}
	pureMemo[f] = false // recursion
	ok := f.Blocks != nil && f.Pkg != nil && inModule(f.Pkg.Pkg) && len(f.FreeVars) == 0
	for _, prm := range f.Params {
		switch deptr(prm.Type()).Underlying().(type) {
		case *types.Basic, *types.Slice, *types.Array:
		default:
			ok = false
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if _, isA := x.Addr.(*ssa.Alloc); !isA {
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				ok = false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ok = false
				}
				if _, isG := x.X.(*ssa.Global); isG {
					ok = false
				}
			case *ssa.Call:
				if bi, isB := x.Call.Value.(*ssa.Builtin); isB {
					if bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "ssa:wrapnilchk" {
						ok = false
					}
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !(pureExt[g.String()] || g.Blocks != nil && p.isPure(g)) {
					// allow calls on the way to a panic
					if !p.LoopsOf(f).mustPanic[b] {
						ok = false
					}
				}
			}
		}
	}
	pureMemo[f] = ok
	return ok
}

var pureMemo = map[*ssa.Function]bool{}

// ---- memory ----

// load gives the value of lvalue path as seen by instruction ins of c.
func (a *Analysis) load(c *Ctx, ins ssa.Instruction, path *Sym) *Sym {
	if a.mach != nil {
		return a.mach.load(path)
	}
	key := evKey{c, nil, 0}
	if v, ok := ins.(ssa.Value); ok {
		key.v = v
	}
	key.x = path.id + 1000
	if s := a.memo[key]; s != nil {
		return s
	}
	if d, ok := a.busy[key]; ok {
		a.hitCycle(d)
		return a.ver(c, ins, path, nil)
	}
	d := a.enter(key)
	s := a.load1(c, ins, path)
	if a.leave(key, d) {
		a.memo[key] = s
	}
	return s
}

// ver names the value of path as left by a set of stores.
func (a *Analysis) ver(c *Ctx, ins ssa.Instruction, path *Sym, defs []string) *Sym {
	k := fmt.Sprintf("%d:%p", c.id, ins)
	if len(defs) > 0 {
		sort.Strings(defs)
		k = strings.Join(defs, ";")
	}
	return a.intern(fmt.Sprintf("ver:%d:%s", path.id, k), func() *Sym {
		return &Sym{k: KVer, args: []*Sym{path}, ctx: c, ins: ins, typ: path.typ}
	})
}

type reach struct {
	a     *Analysis
	defs  []string
	iters map[string]bool // loops whose iteration number is part of the path
	cross map[string]bool // those whose back edge has been walked over
	edge  func(c *Ctx, from, to *ssa.BasicBlock) bool
	live  func(c *Ctx, b *ssa.BasicBlock) bool
	path  *Sym
	keys  map[string]bool
	vals  []*Sym
	entry bool
	zero  bool
	may   bool
	seen  map[string]bool
	steps int
	local *Ctx // the activation that owns the storage, for locals
	lcl   *Sym
}

func rootOf(path *Sym) *Sym {
	for {
		switch path.k {
		case KField, KIndex, KDeref, KSlice:
			path = path.args[0]
		default:
			return path
		}
	}
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return t.String()
}

func (a *Analysis) pathKeys(path *Sym) map[string]bool {
	m := map[string]bool{}
	for {
		switch path.k {
		case KField:
			m["F:"+path.owner()+"."+path.name] = true
		case KIndex:
			m["I:"+typeKey(path.typ)] = true
		case KDeref:
			m["D:"] = true
		case KLocal:
			m["D:"] = true
			m["L:"+fmt.Sprintf("%p", path.val)] = true
		case KGlobal:
			m["G:"+path.name] = true
		}
		switch path.k {
		case KField, KIndex, KDeref:
			path = path.args[0]
			continue
		}
		return m
	}
}

// storeKeys over-approximates what a function and everything it calls store to.
func (a *Analysis) storeKeys(f *ssa.Function) map[string]bool {
	if a.stores == nil {
		a.stores = map[*ssa.Function]map[string]bool{}
	}
	if m := a.stores[f]; m != nil {
		return m
	}
	m := map[string]bool{}
	a.stores[f] = m
	addrKey := func(v ssa.Value) {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				o, n, _ := structField(x.X.Type(), x.Field)
				m["F:"+o+"."+n] = true
				return
			case *ssa.IndexAddr:
				m["I:"+typeKey(elemType(x.X.Type()))] = true
				v = x.X
				if _, ok := v.Type().Underlying().(*types.Slice); ok {
					return
				}
				continue
			case *ssa.Alloc:
				m["L:"+fmt.Sprintf("%p", x)] = true
				return
			case *ssa.Slice:
				v = x.X
				continue
			case *ssa.Global:
				m["G:"+relPkg(x.Pkg.Pkg)+"."+x.Name()] = true
				return
			}
			m["D:"] = true
			return
		}
	}
	add := func(g *ssa.Function) {
		for k := range a.storeKeys(g) {
			m[k] = true
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				addrKey(x.Addr)
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" {
						addrKey(cc.Args[0])
						if e := elemType(cc.Args[0].Type()); e != nil {
							m["I:"+typeKey(e)] = true
						}
					}
					continue
				}
				if g := cc.StaticCallee(); g != nil {
					if g.Blocks != nil && (g.Pkg == nil || inModule(g.Pkg.Pkg)) {
						add(g)
					} else if strings.Contains(g.Name(), "Put") || strings.Contains(g.Name(), "Read") {
						for _, y := range cc.Args {
							if isSliceT(y.Type()) {
								addrKey(y)
								m["I:byte"] = true
								m["I:uint8"] = true
							}
						}
					}
				} else if !cc.IsInvoke() {
					m["dyn"] = true
				}
				if g, ok := cc.Value.(*ssa.MakeClosure); ok {
					add(g.Fn.(*ssa.Function))
				}
				for _, y := range cc.Args {
					if mc, ok := y.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		add(g)
	}
	return m
}

func intersects(x, y map[string]bool) bool {
	for k := range x {
		if y[k] {
			return true
		}
	}
	return false
}

func (a *Analysis) load1(c *Ctx, ins ssa.Instruction, path *Sym) *Sym {
	// whole loads of local structs become composites of their fields
	root := rootOf(path)
	if path.k == KLocal {
		if al, ok := path.val.(*ssa.Alloc); ok {
			if st := onlyStore(al); st != nil {
				return a.Eval(path.ctx, st.Val)
			}
		}
	}
	if root.k == KGlobal && path.k == KGlobal {
		return path // package variables are initialised once
	}
	if path.k == KLocal || (root.k == KLocal && (path.k == KField || path.k == KIndex)) {
		if st, ok := deptrU(path.typ).(*types.Struct); ok && path.typ != nil {
			if _, isPtr := path.typ.Underlying().(*types.Pointer); !isPtr && st.NumFields() > 0 && st.NumFields() < 12 && a.hasFieldStores(path) {
				var names []string
				var args []*Sym
				for i := 0; i < st.NumFields(); i++ {
					o := namedName(path.typ)
					names = append(names, st.Field(i).Name())
					args = append(args, a.load(c, ins, a.Field(path, o, st.Field(i).Name(), st.Field(i).Type())))
				}
				nm := strings.Join(names, ",")
				return a.intern("comp:"+nm+":"+ids(args), func() *Sym { return &Sym{k: KComp, name: nm, args: args, typ: path.typ} })
			}
		}
	}
	r := a.newReach(c, ins, path)
	r.block(c, ins.Block(), indexOf(ins.Block(), ins))
	return a.finish(r, c, ins, path)
}

func (a *Analysis) newReach(c *Ctx, ins ssa.Instruction, path *Sym) *reach {
	r := &reach{a: a, path: path, keys: a.pathKeys(path), seen: map[string]bool{}, iters: map[string]bool{}, cross: map[string]bool{}}
	root := rootOf(path)
	if root.k == KLocal {
		r.local = root.ctx
		r.lcl = root
	}
	path.Contains(func(s *Sym) bool {
		if s.k == KIter {
			r.iters[iterKey(s.ctx, s.loop)] = true
		}
		return false
	})
	return r
}

func iterKey(c *Ctx, l *NatLoop) string { return fmt.Sprintf("%d/%p", c.id, l) }

// finish turns what the search found into a value.
func (a *Analysis) finish(r *reach, c *Ctx, ins ssa.Instruction, path *Sym) *Sym {
	if r.steps > 20000 {
		return a.ver(c, ins, path, nil)
	}
	switch {
	case len(r.vals) == 1 && !r.entry && !r.may && !r.zero:
		return r.vals[0]
	case len(r.vals) == 0 && !r.may && r.entry && !r.zero:
		return path
	case len(r.vals) == 0 && !r.may && r.zero && !r.entry:
		return a.zeroOf(path)
	case len(r.vals) == 0 && !r.may && r.zero && r.entry:
		return path
	}
	if !r.may && len(r.vals) > 0 {
		alts := append([]*Sym{}, r.vals...)
		if r.zero {
			alts = append(alts, a.zeroOf(path))
		}
		if r.entry {
			alts = append(alts, path)
		}
		self := false
		for _, x := range alts {
			if x.Contains(func(y *Sym) bool { return y.k == KVer && y.args[0] == path || y.k == KOpaque }) {
				self = true
			}
		}
		uniq := dedup(alts)
		if !self && len(uniq) == 1 {
			return uniq[0]
		}
		if !self && len(uniq) <= 6 && (path.typ == nil || !isPtrLike(path.typ) || r.lcl != nil) {
			return a.intern(fmt.Sprintf("memphi:%d:%d:%p:%s", path.id, c.id, ins, ids(uniq)), func() *Sym {
				return &Sym{k: KPhi, args: uniq, ctx: c, ins: ins, typ: path.typ, base: path}
			})
		}
	}
	if r.entry {
		r.defs = append(r.defs, "entry")
	}
	return a.ver(c, ins, path, r.defs)
}

func allSame(v []*Sym) bool { return len(dedup(v)) == 1 }

func dedup(v []*Sym) []*Sym {
	m := map[*Sym]bool{}
	var out []*Sym
	for _, x := range v {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].id < out[j].id
	})
	return out
}

func deptrU(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (a *Analysis) zeroOf(path *Sym) *Sym {
	if path.typ == nil {
		return a.intern("zero:?", func() *Sym { return &Sym{k: KZero, name: "zero"} })
	}
	switch u := path.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return a.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return a.Bool(false)
		case u.Info()&types.IsString != 0:
			return a.intern(`c:""`, func() *Sym { return &Sym{k: KConst, cv: constant.MakeString(""), name: `""`} })
		}
	case *types.Struct, *types.Array:
		// the storage itself names the value
		return path
	}
	return a.Nil()
}

func (a *Analysis) hasFieldStores(path *Sym) bool {
	root := rootOf(path)
	al, ok := root.val.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if _, ok := r.(*ssa.FieldAddr); ok {
			return true
		}
		if _, ok := r.(*ssa.IndexAddr); ok && path.k != KLocal {
			return true
		}
	}
	return false
}

func indexOf(b *ssa.BasicBlock, ins ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == ins {
			return i
		}
	}
	return len(b.Instrs)
}

// relation of a store address to the path looked for
type rel int

const (
	relNo rel = iota
	relMust
	relInside  // the path lies inside what is stored
	relPartial // what is stored lies inside the path
	relMay
)

func (a *Analysis) relate(path, at *Sym) rel {
	if path == at {
		return relMust
	}
	for p := path; ; {
		if p.k == KField || p.k == KIndex || p.k == KDeref {
			p = p.args[0]
			if p == at {
				// a store to the pointer itself is no store to what it points to,
				// unless the base is a value (struct or array) in place
				if isPtrLike(p.typ) {
					return relNo
				}
				return relInside
			}
			continue
		}
		break
	}
	for p := at; ; {
		if p.k == KField || p.k == KIndex || p.k == KDeref {
			q := p
			p = p.args[0]
			if p == path {
				if isPtrLike(p.typ) {
					return relNo
				}
				_ = q
				return relPartial
			}
			continue
		}
		break
	}
	switch {
	case path.k == KField && at.k == KField:
		if path.name != at.name || path.owner() != at.owner() {
			return a.outer(path, at)
		}
		return a.mayBase(path.args[0], at.args[0])
	case path.k == KIndex && at.k == KIndex:
		if path.args[0] == at.args[0] {
			d := a.Sub(path.args[1], at.args[1])
			if v, ok := d.IntVal(); ok && v != 0 {
				return relNo
			}
			return relMay
		}
		if path.typ != nil && at.typ != nil && !types.Identical(path.typ, at.typ) {
			return a.outer(path, at)
		}
		return a.mayBase(path.args[0], at.args[0])
	case path.k == KLocal || at.k == KLocal:
		return a.outer(path, at)
	case path.k == KDeref && at.k == KDeref:
		if path.typ != nil && at.typ != nil && !types.Identical(path.typ, at.typ) {
			return relNo
		}
		return relMay
	}
	return a.outer(path, at)
}

func isPtrLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// outer: could one be the whole of which the other is a part?
func (a *Analysis) outer(path, at *Sym) rel { return relNo }

func (a *Analysis) mayBase(x, y *Sym) rel {
	if x == y {
		return relMust
	}
	rx, ry := rootOf(x), rootOf(y)
	if rx.k == KLocal && ry.k == KLocal && rx != ry {
		return relNo
	}
	if (rx.k == KLocal) != (ry.k == KLocal) {
		return relNo
	}
	// different fields, or fields of different owners, hold different storage
	if x.k == KField && y.k == KField {
		if x.name != y.name || x.owner() != y.owner() {
			return relNo
		}
	}
	if x.k == KIndex && y.k == KIndex && x.args[0] == y.args[0] {
		if v, ok := a.Sub(x.args[1], y.args[1]).IntVal(); ok && v != 0 {
			return relNo
		}
	}
	if x.k == KCall && y.k == KCall && x.name == "make" && y.name == "make" {
		return relNo
	}
	return relMay
}

func (a *Analysis) project(val, path, at *Sym) *Sym {
	// path = at.suffix ; give val.suffix
	if path == at {
		return val
	}
	b := a.project(val, path.args[0], at)
	switch path.k {
	case KField:
		if b.k == KZero {
			return a.zeroOf(path)
		}
		return a.Field(b, path.owner(), path.name, path.typ)
	case KIndex:
		return a.Index(b, path.args[1], path.typ)
	case KDeref:
		return b
	}
	return b
}

func (r *reach) block(c *Ctx, blk *ssa.BasicBlock, idx int) {
	r.back(c, blk, idx, nil)
}

// back walks backwards from before instruction idx of blk. stop is called when
// the entry of activation c is reached; nil means go on in the caller.
func (r *reach) back(c *Ctx, blk *ssa.BasicBlock, idx int, stop func()) {
	a := r.a
	r.steps++
	if r.steps > 20000 {
		r.may = true
		return
	}
	if c.li.mustPanic[blk] && len(blk.Instrs) == idx {
		return
	}
	for i := idx - 1; i >= 0; i-- {
		ins := blk.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Alloc:
			if r.lcl != nil && r.lcl.ctx == c && r.lcl.val == ssa.Value(x) {
				r.zero = true
				return
			}
		case *ssa.Store:
			k := a.addrKinds(x.Addr)
			if !intersects(k, r.keys) {
				continue
			}
			at := strip2(a.Eval(c, x.Addr))
			rl := a.relate(r.path, at)
			if len(r.cross) > 0 && rl != relNo {
				// an element of another iteration of a loop that runs over elements
				if at.Contains(func(s *Sym) bool { return s.k == KIter && r.cross[iterKey(s.ctx, s.loop)] }) {
					continue
				}
			}
			switch rl {
			case relMust:
				r.vals = append(r.vals, a.Eval(c, x.Val))
			case relInside:
				r.vals = append(r.vals, a.project(a.Eval(c, x.Val), r.path, at))
			case relPartial, relMay:
				r.may = true
			default:
				continue
			}
			r.defs = append(r.defs, fmt.Sprintf("%d:%p", c.id, x))
			return
		case *ssa.Call:
			if r.call(c, x, blk, i, stop) {
				return
			}
		case *ssa.Go:
			if r.call(c, x, blk, i, stop) {
				return
			}
		case *ssa.RunDefers:
			if r.defers(c, blk, defersAt(c, blk), func() { r.back(c, blk, i, stop) }) {
				return
			}
		}
	}
	if blk == c.fn.Blocks[0] {
		if stop != nil {
			stop()
			return
		}
		if c.parent == nil || (r.lcl != nil && r.lcl.ctx == c) {
			r.entry = true
			return
		}
		r.back(c.parent, c.site.Block(), indexOf(c.site.Block(), c.site), nil)
		return
	}
	for _, p := range blk.Preds {
		key := fmt.Sprintf("%d/%p/%v", c.id, p, stop == nil)
		if r.seen[key] || r.edge != nil && !r.edge(c, p, blk) {
			continue
		}
		r.seen[key] = true
		if l := c.li.ByHeader[blk]; l != nil && l.Latch[p] {
			if k := iterKey(c, l); r.iters[k] && !r.cross[k] {
				r.cross[k] = true
				r.back(c, p, len(p.Instrs), stop)
				delete(r.cross, k)
				continue
			}
		}
		r.back(c, p, len(p.Instrs), stop)
	}
}

func strip2(p *Sym) *Sym {
	if p.k == KAddr {
		return p.args[0]
	}
	return p.an().Deref(p)
}

// an finds the analysis a symbol belongs to (set once per process run).
var curAn *Analysis

func (s *Sym) an() *Analysis { return curAn }

func (a *Analysis) addrKinds(v ssa.Value) map[string]bool {
	m := map[string]bool{}
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			o, n, _ := structField(x.X.Type(), x.Field)
			m["F:"+o+"."+n] = true
			return m
		case *ssa.IndexAddr:
			m["I:"+typeKey(elemType(x.X.Type()))] = true
			v = x.X
			if isSliceT(v.Type()) {
				return m
			}
			continue
		case *ssa.Alloc:
			m["L:"+fmt.Sprintf("%p", x)] = true
			m["D:"] = true
			return m
		case *ssa.Global:
			m["G:"+relPkg(x.Pkg.Pkg)+"."+x.Name()] = true
			return m
		}
		m["D:"] = true
		// a store through a captured variable or a parameter may be to any local
		m["*"] = true
		return m
	}
}

// call handles a call met while walking backwards; true means this walk has
// been taken over.
func (r *reach) call(c *Ctx, x ssa.CallInstruction, blk *ssa.BasicBlock, i int, stop func()) bool {
	return r.callThen(c, x, func() { r.back(c, blk, i, stop) })
}

// defersAt gives the deferred calls that may run at the end of blk, in the
// order they were deferred.
func defersAt(c *Ctx, blk *ssa.BasicBlock) (ds []*ssa.Defer) {
	for _, b := range c.li.rpo {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok && (b.Dominates(blk) || reaches(b, blk)) {
				ds = append(ds, d)
			}
		}
	}
	return
}

// defers walks back through the deferred calls, the one that ran last first.
func (r *reach) defers(c *Ctx, blk *ssa.BasicBlock, ds []*ssa.Defer, then func()) bool {
	if len(ds) == 0 {
		return false
	}
	before := func() {
		if !r.defers(c, blk, ds[1:], then) {
			then()
		}
	}
	if !r.callThen(c, ds[0], before) {
		return r.defers(c, blk, ds[1:], then)
	}
	if !ds[0].Block().Dominates(blk) {
		before() // it may not have been deferred
	}
	return true
}

// callThen handles a call met while walking backwards; then goes on before it.
func (r *reach) callThen(c *Ctx, x ssa.CallInstruction, then func()) bool {
	a := r.a
	cc := x.Common()
	if r.lcl != nil && r.lcl.ctx == c {
		// a variable whose address is never taken is out of reach of calls
		if al, ok := r.lcl.val.(*ssa.Alloc); ok && !al.Heap {
			return false
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "copy" {
			dst := a.Eval(c, cc.Args[0])
			if a.touches(dst, r.path) {
				r.may = true
				r.defs = append(r.defs, fmt.Sprintf("%d:%p", c.id, x))
				return true
			}
		}
		return false
	}
	var f *ssa.Function
	if g := cc.StaticCallee(); g != nil {
		f = g
	} else if !cc.IsInvoke() {
		if s := a.Eval(c, cc.Value); s.k == KFunc {
			f = s.fn
		}
	} else if a.iface != nil {
		f = a.iface[ifaceName(cc)]
	}
	if f == nil || f.Blocks == nil || (f.Pkg != nil && !inModule(f.Pkg.Pkg)) || isCgo(f) {
		// external: may write through pointers or slices it is handed
		if !writesArg(cc) && !isCgo(f) {
			return false
		}
		for _, y := range cc.Args {
			switch y.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice:
				s := a.Eval(c, y)
				if a.touches(s, r.path) {
					r.may = true
					r.defs = append(r.defs, fmt.Sprintf("%d:%p", c.id, x))
					return true
				}
			}
		}
		return false
	}
	ks := a.storeKeys(f)
	if !intersects(ks, r.keys) && !ks["dyn"] {
		return false
	}
	sub := a.sub(c, x)
	if sub == nil {
		// not looked into, but may store
		if ks["dyn"] && !intersects(ks, r.keys) {
			return false
		}
		r.may = true
		r.defs = append(r.defs, fmt.Sprintf("%d:%p", c.id, x))
		return true
	}
	// does anything reachable there touch the path?
	done := false
	cont := func() {
		if !done {
			done = true
			then()
		}
	}
	for _, ret := range returnsOf(sub) {
		key := fmt.Sprintf("ret/%d/%p", sub.id, ret)
		if r.seen[key] {
			continue
		}
		r.seen[key] = true
		if r.live != nil && !r.live(sub, ret.Block()) {
			continue
		}
		r.back(sub, ret.Block(), len(ret.Block().Instrs), cont)
	}
	return true
}

// isCgo: the Go stub of a C function, which may write through every pointer it is given.
func isCgo(f *ssa.Function) bool {
	return f != nil && strings.HasPrefix(f.Name(), "_Cfunc_")
}

func writesArg(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Read":
			return true
		}
		return false
	}
	f := cc.StaticCallee()
	if f == nil {
		return true
	}
	switch n := f.Name(); {
	case strings.HasPrefix(n, "Put"), strings.HasPrefix(n, "Read"), n == "Slice", n == "Sort", n == "Fill":
		return true
	case strings.HasPrefix(f.String(), "(*sync."), strings.HasPrefix(f.String(), "sync/atomic.Load"):
		return false
	case strings.HasPrefix(f.String(), "sync/atomic."):
		return true
	}
	return false
}

// touches: may writing through value s change the storage at path?
func (a *Analysis) touches(s, path *Sym) bool {
	at := s
	if s.k == KSlice {
		at = s.args[0]
	}
	at = strip(at)
	for p := path; ; {
		if p == at {
			return true
		}
		if p.k == KField || p.k == KIndex || p.k == KDeref {
			p = p.args[0]
			continue
		}
		break
	}
	for p := at; ; {
		if p == path {
			return !isPtrLike(path.typ) || at == path
		}
		if p.k == KField || p.k == KIndex || p.k == KDeref {
			p = p.args[0]
			continue
		}
		break
	}
	return false
}

var onlyStoreMemo = map[*ssa.Alloc]*ssa.Store{}

// onlyStore is the single assignment to a variable that is otherwise only read
// (by its function or by closures), nil when there is none or more than one.
func onlyStore(al *ssa.Alloc) *ssa.Store {
	if s, ok := onlyStoreMemo[al]; ok {
		return s
	}
	var st *ssa.Store
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		rs := v.Referrers()
		if rs == nil {
			ok = false
			return
		}
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v || st != nil || v != ssa.Value(al) {
					ok = false
					return
				}
				st = x
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						visit(f.FreeVars[i])
					}
				}
			default:
				ok = false
			}
		}
	}
	visit(al)
	if st != nil && ok {
		// not assigned anew in a loop that the variable lives across
		li := st.Block()
		if li != al.Block() {
			ok = false
		}
	}
	if !ok {
		st = nil
	}
	onlyStoreMemo[al] = st
	return st
}

func allNegative(t map[*Sym]int64) bool {
	for _, k := range t {
		if k >= 0 {
			return false
		}
	}
	return len(t) > 0
}

// loopVar: what a variable of a loop begins with and what it goes on with.
func (a *Analysis) loopVar(v *Sym) (inits, steps []*Sym, ok bool) {
	x, is := v.val.(*ssa.Phi)
	if v.k != KOpaque || v.loop == nil || !is || !strings.HasPrefix(v.name, "~") {
		return nil, nil, false
	}
	var flat func(s *Sym, out *[]*Sym, seen map[*Sym]bool)
	flat = func(s *Sym, out *[]*Sym, seen map[*Sym]bool) {
		if seen[s] {
			return
		}
		seen[s] = true
		if s.k == KPhi {
			for _, y := range s.args {
				flat(y, out, seen)
			}
			return
		}
		*out = append(*out, s)
	}
	b := x.Block()
	for i, e := range x.Edges {
		if v.loop.Latch[b.Preds[i]] {
			if !v.ctx.li.mustPanic[b.Preds[i]] {
				flat(a.Eval(v.ctx, e), &steps, map[*Sym]bool{})
			}
		} else {
			flat(a.Eval(v.ctx, e), &inits, map[*Sym]bool{})
		}
	}
	return inits, steps, true
}
