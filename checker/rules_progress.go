package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P29", "loop analysis: for every natural loop, a backward slice of its conditions gives what its end depends on, and on every way round something of that is changed in a direction that leads to the end", p29)
}

// place names the memory place an address stands for, as far as loops care.
func placeKey(v ssa.Value) interface{} {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", deptr(x.X.Type()).String(), x.Field)
	case *ssa.IndexAddr:
		return placeKey(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return placeKey(x.X)
		}
	case *ssa.Slice:
		return placeKey(x.X)
	case *ssa.ChangeType:
		return placeKey(x.X)
	case *ssa.Convert:
		return placeKey(x.X)
	case *ssa.MakeInterface:
		return placeKey(x.X)
	}
	return v
}

// loopDeps is everything the conditions of a loop are computed from.
func (p *Program) loopDeps(l *NatLoop, memo effMemo) map[interface{}]bool {
	deps := map[interface{}]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if v == nil || deps[v] {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		if _, ok := v.(*ssa.Function); ok {
			return
		}
		deps[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				deps[placeKey(x.X)] = true
			}
		case *ssa.FieldAddr:
			deps[placeKey(x)] = true
		}
		if c, ok := v.(*ssa.Call); ok {
			fs, _ := p.loopCallees(c.Common())
			for _, f := range fs {
				for k := range p.effOf(f, memo).reads {
					deps[k] = true
				}
			}
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				add(*op)
			}
		}
	}
	for b := range l.Blocks {
		if n := len(b.Instrs); n > 0 {
			if i, ok := b.Instrs[n-1].(*ssa.If); ok {
				add(i.Cond)
			}
		}
	}
	return deps
}

// movers are the methods outside the module that take from what they are
// called on, so that calling them again gives something else.
var movers = map[string]bool{"Next": true, "Prev": true, "Read": true, "ReadFull": true, "ReadByte": true, "Scan": true, "Seek": true, "SeekToFirst": true, "SeekToLast": true, "Pop": true}

// quietNames are the methods that look at where something stands.
var quietNames = map[string]bool{"Valid": true, "Key": true, "Value": true, "Len": true, "Size": true}

// fnEff: the places a function, with all that it calls, reads and changes.
type fnEff struct {
	reads, writes map[interface{}]bool
	moves         bool // takes from an iterator, a reader or a channel, or calls what is not known
}

type effMemo map[*ssa.Function]*fnEff

// callees of a call inside the module, and whether there can be others that matter.
func (p *Program) loopCallees(c *ssa.CallCommon) (fs []*ssa.Function, mover bool) {
	inMod := func(f *ssa.Function) bool {
		return f.Blocks != nil && !isCgo(f) && (f.Pkg != nil && inModule(f.Pkg.Pkg) || f.Pkg == nil && (f.Parent() != nil || f.Object() != nil && f.Object().Pkg() != nil && inModule(f.Object().Pkg())))
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range p.Funcs {
			if f.Name() == c.Method.Name() && f.Signature.Recv() != nil && it != nil && types.Implements(f.Signature.Recv().Type(), it) {
				fs = append(fs, f)
			}
		}
		return fs, movers[c.Method.Name()]
	}
	if f := c.StaticCallee(); f != nil {
		if inMod(f) {
			return []*ssa.Function{f}, false
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
			return nil, true
		}
		return nil, movers[f.Name()] || isCgo(f)
	}
	return nil, true // a function value
}

func (p *Program) effOf(f *ssa.Function, memo effMemo) *fnEff {
	if e := memo[f]; e != nil {
		return e
	}
	e := &fnEff{reads: map[interface{}]bool{}, writes: map[interface{}]bool{}}
	memo[f] = e
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if waitsFor(ins) {
				e.moves = true
			}
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if k, ok := placeKey(x.X).(string); ok {
						e.reads[k] = true
					}
				}
			case *ssa.Lookup:
				e.reads[placeKey(x.X)] = true
			case *ssa.Store:
				if _, isC := x.Val.(*ssa.Const); isC && quietNames[f.Name()] {
					continue // what it remembers of its end stays as it is
				}
				if k, ok := placeKey(x.Addr).(string); ok && !selfStore(x) {
					e.writes[k] = true
				} else if g, ok := placeKey(x.Addr).(*ssa.Global); ok {
					e.writes[g] = true
				} else if _, ok := placeKey(x.Addr).(*ssa.FreeVar); ok {
					e.moves = true
				}
			case *ssa.MapUpdate:
				e.writes[placeKey(x.Map)] = true
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "copy" || bi.Name() == "delete" || bi.Name() == "clear") && len(c.Args) > 0 {
						if k, ok := placeKey(c.Args[0]).(string); ok {
							e.writes[k] = true
						}
					}
					continue
				}
				fs, mv := p.loopCallees(c)
				e.moves = e.moves || mv
				for _, g := range fs {
					ge := p.effOf(g, memo)
					e.moves = e.moves || ge.moves
					for k := range ge.reads {
						e.reads[k] = true
					}
					for k := range ge.writes {
						e.writes[k] = true
					}
				}
			}
		}
	}
	return e
}

func selfStore(x *ssa.Store) bool {
	u, ok := x.Val.(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == x.Addr
}

// readAhead: a buffer that is read through. It changes nothing of what is read (P06).
func readAhead(k interface{}) bool {
	s, ok := k.(string)
	return ok && strings.Contains(s, ".PreReader.")
}

// blocks: the instruction waits for something from outside the loop.
func waitsFor(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return x.Blocking
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "(*sync.Cond).Wait", "(*sync.WaitGroup).Wait", "time.Sleep":
				return true
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(f.Name(), "Load") {
				return true
			}
		}
	}
	return false
}

// movesOn: the instruction changes something the loop's conditions depend on.
func (p *Program) movesOn(ins ssa.Instruction, deps map[interface{}]bool, memo effMemo) bool {
	if waitsFor(ins) {
		return true
	}
	dep := func(v ssa.Value) bool {
		for {
			if deps[v] || deps[placeKey(v)] {
				if _, ok := v.(*ssa.Const); !ok {
					return true
				}
			}
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.Convert:
				v = x.X
			default:
				return false
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Next, *ssa.Send:
		return true
	case *ssa.Store:
		return !selfStore(x) && deps[placeKey(x.Addr)]
	case *ssa.MapUpdate:
		return dep(x.Map)
	case ssa.CallInstruction:
		c := x.Common()
		if _, ok := ins.(*ssa.Defer); ok {
			return false
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return (b.Name() == "copy" || b.Name() == "delete" || b.Name() == "clear") && dep(c.Args[0])
		}
		fs, mv := p.loopCallees(c)
		for _, f := range fs {
			e := p.effOf(f, memo)
			for k := range e.writes {
				if deps[k] && !readAhead(k) {
					return true
				}
			}
			mv = mv || e.moves
		}
		if !mv {
			// a pointer to a variable of the function itself is handed out
			for _, a := range c.Args {
				if al, ok := placeKey(a).(*ssa.Alloc); ok && deps[ssa.Value(al)] {
					if _, isP := a.Type().Underlying().(*types.Pointer); isP {
						return true
					}
					if _, isS := a.Type().Underlying().(*types.Slice); isS {
						return true
					}
				}
			}
			return false
		}
		if v, ok := ins.(ssa.Value); ok && deps[v] {
			return true
		}
		if c.IsInvoke() && dep(c.Value) {
			return true
		}
		for _, a := range c.Args {
			if dep(a) {
				return true
			}
		}
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			return true
		} else if c.StaticCallee() == nil && !c.IsInvoke() {
			return true // a function that is not known
		}
	}
	return false
}

type phiEnv map[*ssa.Phi]ssa.Value

func (e phiEnv) get(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		p, ok := v.(*ssa.Phi)
		if !ok {
			break
		}
		w, ok := e[p]
		if !ok || w == v {
			break
		}
		v = w
	}
	return v
}

// decided: a condition whose operands are constants on this way.
func (e phiEnv) decided(v ssa.Value) (bool, bool) {
	switch x := e.get(v).(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := e.decided(x.X)
			return !b, ok
		}
	case *ssa.BinOp:
		l, ok1 := e.get(x.X).(*ssa.Const)
		r, ok2 := e.get(x.Y).(*ssa.Const)
		if ok1 && ok2 && l.Value != nil && r.Value != nil {
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				return constant.Compare(l.Value, x.Op, r.Value), true
			}
		}
	}
	return false, false
}

// roundWithout gives a way round the loop on which nothing moves on.
func (p *Program) roundWithout(l *NatLoop, li *LoopInfo, deps map[interface{}]bool, memo effMemo) (way []*ssa.BasicBlock, found, tooMany bool) {
	moves := map[*ssa.BasicBlock]bool{}
	for b := range l.Blocks {
		for _, ins := range b.Instrs {
			if p.movesOn(ins, deps, memo) {
				moves[b] = true
			}
		}
	}
	steps := 0
	var walk func(b *ssa.BasicBlock, env phiEnv, path []*ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock, env phiEnv, path []*ssa.BasicBlock) bool {
		if steps++; steps > 50000 {
			tooMany = true
			return false
		}
		if moves[b] || li.mustPanic[b] {
			return false
		}
		n := 0
		for _, x := range path {
			if x == b {
				n++
			}
		}
		if n > 1 {
			return false
		}
		path = append(append([]*ssa.BasicBlock{}, path...), b)
		for i, s := range b.Succs {
			if !l.Blocks[s] {
				continue
			}
			if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, known := env.decided(f.Cond); known && v != (i == 0) {
					continue
				}
			}
			ne := phiEnv{}
			for k, v := range env {
				ne[k] = v
			}
			pi := -1
			for j, q := range s.Preds {
				if q == b {
					pi = j
				}
			}
			news := map[*ssa.Phi]ssa.Value{}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				v := env.get(ph.Edges[pi])
				news[ph] = v
			}
			if s == l.Header {
				changed := false
				for ph, v := range news {
					if o, ok := v.(*ssa.Phi); ok && o.Block() == s && news[o] == ssa.Value(o) {
						continue // it is as it was, or becomes what stays as it is
					}
					if deps[ssa.Value(ph)] {
						changed = true
					}
				}
				if !changed {
					way, found = append(path, s), true
					return true
				}
				continue
			}
			for k, v := range news {
				ne[k] = v
			}
			if walk(s, ne, path) {
				return true
			}
		}
		return false
	}
	walk(l.Header, phiEnv{}, nil)
	return
}

// stepsOf are the constant steps of a counter of the loop; nil if it is none.
func stepsOf(l *NatLoop, ph *ssa.Phi) (steps []int64) {
	seen := map[ssa.Value]bool{}
	var val func(v ssa.Value, add int64) bool
	val = func(v ssa.Value, add int64) bool {
		if v == ssa.Value(ph) {
			if add != 0 {
				steps = append(steps, add)
			}
			return true
		}
		if seen[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			seen[v] = true
			if !l.Blocks[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !val(e, add) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return false
			}
			n, exact := constant.Int64Val(c.Value)
			if u, isU := constant.Uint64Val(c.Value); !exact && isU {
				n = int64(u)
			}
			switch x.Op {
			case token.ADD:
				return val(x.X, add+n)
			case token.SUB:
				return val(x.X, add-n)
			}
		}
		return false
	}
	for i, pr := range l.Header.Preds {
		if l.Blocks[pr] && !val(ph.Edges[i], 0) {
			return nil
		}
	}
	return steps
}

// canEnd: the exit taken when cond is want can be reached by going round.
func canEnd(l *NatLoop, cond ssa.Value, want bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return canEnd(l, u.X, !want)
	}
	if c, ok := cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value) == want
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	op, x, y := b.Op, b.X, b.Y
	if !want {
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op = neg[op]
	}
	if c, ok := x.(*ssa.Const); ok {
		_ = c
		x, y = y, x
		swap := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		op = swap[op]
	}
	// never true: x < 0 of an unsigned x
	if c, ok := y.(*ssa.Const); ok && c.Value != nil && op == token.LSS && constant.Sign(c.Value) == 0 {
		if t, isB := x.Type().Underlying().(*types.Basic); isB && t.Info()&types.IsUnsigned != 0 {
			return false
		}
	}
	invariant := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		return !ok || !l.Blocks[ins.Block()]
	}
	counter := func(v ssa.Value) (int, bool) {
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if _, isC := bo.Y.(*ssa.Const); isC {
				v = bo.X
			}
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != l.Header {
			return 0, false
		}
		st := stepsOf(l, ph)
		if len(st) == 0 {
			return 0, false
		}
		sg := 0
		for _, s := range st {
			switch {
			case s > 0 && sg >= 0:
				sg = 1
			case s < 0 && sg <= 0:
				sg = -1
			default:
				return 0, false
			}
		}
		return sg, true
	}
	if s, ok := counter(y); ok && invariant(x) {
		if _, ok := counter(x); !ok {
			x, y = y, x
			swap := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
			op = swap[op]
			_ = s
		}
	}
	// a stride: what is halved stays above zero or at it, what is doubled stays above
	if k, c := strideOf(l, x), constOf(y); k != 0 && c != nil {
		switch {
		case k < 0 && op == token.LSS:
			return *c > 0
		case k < 0 && op == token.LEQ:
			return *c >= 0
		case k > 0 && (op == token.LSS || op == token.LEQ):
			return false
		case k < 0 && (op == token.GTR || op == token.GEQ):
			return false
		}
	}
	if s, ok := counter(x); ok && invariant(y) {
		switch op {
		case token.LSS, token.LEQ:
			return s < 0
		case token.GTR, token.GEQ:
			return s > 0
		}
	}
	return true
}

func p29(r *R) {
	memo := effMemo{}
	for _, f := range r.p.Funcs {
		li := r.p.LoopsOf(f)
		if len(li.Loops) == 0 {
			continue
		}
		r.funcs[fnName(f)] = true
		r.entries[fnName(f)] = true
		for _, l := range li.Loops {
			nm := fnName(f)
			at := r.p.loopWhere(l)
			ob := nm + ": loop at " + at
			deps := r.p.loopDeps(l, memo)
			way, found, tooMany := r.p.roundWithout(l, li, deps, memo)
			r.sites[at] = true
			r.states += len(l.Blocks)
			if tooMany {
				r.undecided(ob+" moves on", "too many ways round")
			} else if found {
				r.fail(nm+": every way round the loop moves on", at, "a way round the loop changes nothing its end depends on: "+r.p.wayStr(way))
			} else {
				r.ok(ob + " moves on")
			}
			// an end that going round leads to
			ends, waits := false, false
			for b := range l.Blocks {
				for _, ins := range b.Instrs {
					if waitsFor(ins) {
						waits = true
					}
					if c, ok := ins.(ssa.CallInstruction); ok && !waits {
						if g := c.Common().StaticCallee(); g != nil && mayWait(g, map[*ssa.Function]bool{}) {
							waits = true
						}
					}
				}
				for i, s := range b.Succs {
					if l.Blocks[s] || li.mustPanic[s] {
						continue
					}
					if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if canEnd(l, f.Cond, i == 0) {
							ends = true
						}
					} else {
						ends = true
					}
				}
				if len(b.Instrs) > 0 {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						ends = true
					}
				}
			}
			if !ends && !waits {
				r.fail(nm+": the loop has an end", at, "no way out of the loop is led to by going round it")
			} else {
				r.ok(ob + " has an end")
			}
		}
	}
}

func mayWait(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if waitsFor(ins) {
				return true
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && inModule(g.Pkg.Pkg) && mayWait(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// loopWhere is the first line of a loop.
func (p *Program) loopWhere(l *NatLoop) string {
	best, line := "", 0
	for b := range l.Blocks {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				if n := p.Prog.Fset.Position(ins.Pos()).Line; best == "" || n < line {
					best, line = p.Where(ins), n
				}
			}
		}
	}
	return best
}

// wayStr lists the lines of a way.
func (p *Program) wayStr(way []*ssa.BasicBlock) string {
	var out []string
	for _, b := range way {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				w := p.Where(ins)
				if len(out) == 0 || out[len(out)-1] != w {
					out = append(out, w)
				}
			}
		}
	}
	return strings.Join(out, " -> ")
}

func constOf(v ssa.Value) *int64 {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n, _ := constant.Int64Val(c.Value)
		return &n
	}
	return nil
}

// strideOf: 1 for a value that is multiplied on every way round, -1 for one
// that is divided, starting at a positive constant.
func strideOf(l *NatLoop, v ssa.Value) int {
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != l.Header {
		return 0
	}
	k := 0
	for i, pr := range l.Header.Preds {
		e := ph.Edges[i]
		if !l.Blocks[pr] {
			if c := constOf(e); c == nil || *c <= 0 {
				return 0
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(ph) {
			return 0
		}
		c := constOf(b.Y)
		if c == nil {
			return 0
		}
		d := 0
		switch {
		case b.Op == token.MUL && *c >= 2, b.Op == token.SHL && *c >= 1:
			d = 1
		case b.Op == token.QUO && *c >= 2, b.Op == token.SHR && *c >= 1:
			d = -1
		}
		if d == 0 || k != 0 && k != d {
			return 0
		}
		k = d
	}
	return k
}
