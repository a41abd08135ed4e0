package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind int

const (
	KConst Kind = iota
	KNil
	KZero
	KParam
	KGlobal
	KLocal // the storage of an Alloc
	KField
	KIndex
	KDeref
	KLookup // map element
	KSlice
	KLin
	KOp
	KCall
	KPhi
	KAddr
	KFunc
	KElem // key or value of a range over a map or string
	KIter // 0-based iteration number of a loop
	KVer  // a load whose reaching definition is not unique
	KComp // composite value
	KOpaque
)

// Sym is an interned symbolic value: equal terms are the same pointer.
type Sym struct {
	id    int
	k     Kind
	name  string
	args  []*Sym
	coef  []int64
	c0    int64
	cv    constant.Value
	typ   types.Type
	ctx   *Ctx
	val   ssa.Value
	ins   ssa.Instruction
	fn    *ssa.Function
	loop  *NatLoop
	str   string
	depth int
	base  *Sym // for a merge of stores: the storage loaded from
	iterF int8
}

type symTab struct {
	m    map[string]*Sym
	next int
}

func (a *Analysis) intern(key string, mk func() *Sym) *Sym {
	if s := a.syms.m[key]; s != nil {
		return s
	}
	s := mk()
	a.syms.next++
	s.id = a.syms.next
	for _, x := range s.args {
		if x != nil && x.depth >= s.depth {
			s.depth = x.depth + 1
		}
	}
	a.syms.m[key] = s
	return s
}

func ids(args []*Sym) string {
	var b strings.Builder
	for i, x := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		if x == nil {
			b.WriteByte('_')
		} else {
			fmt.Fprintf(&b, "%d", x.id)
		}
	}
	return b.String()
}

func (a *Analysis) Int(v int64) *Sym {
	return a.intern(fmt.Sprintf("i%d", v), func() *Sym { return &Sym{k: KConst, c0: v, cv: constant.MakeInt64(v), name: fmt.Sprint(v)} })
}

func (a *Analysis) Const(c *ssa.Const) *Sym {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return a.intern("zero:"+c.Type().String(), func() *Sym { return &Sym{k: KZero, typ: c.Type(), name: "zero"} })
		}
		return a.Nil()
	}
	switch c.Value.Kind() {
	case constant.Int:
		if v, ok := constant.Int64Val(c.Value); ok {
			return a.Int(v)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return a.Int(int64(u)) // two's complement
		}
	case constant.Bool:
		return a.Bool(constant.BoolVal(c.Value))
	}
	return a.intern("c:"+c.Value.ExactString(), func() *Sym { return &Sym{k: KConst, cv: c.Value, name: c.Value.ExactString()} })
}

func (a *Analysis) Bool(v bool) *Sym {
	return a.intern(fmt.Sprintf("b%v", v), func() *Sym { return &Sym{k: KConst, cv: constant.MakeBool(v), name: fmt.Sprint(v)} })
}

func (a *Analysis) Nil() *Sym {
	return a.intern("nil", func() *Sym { return &Sym{k: KNil, name: "nil"} })
}

func (a *Analysis) isInt(s *Sym) (int64, bool) {
	if s != nil && s.k == KConst && s.cv != nil && s.cv.Kind() == constant.Int {
		v, ok := constant.Int64Val(s.cv)
		return v, ok
	}
	return 0, false
}

func (s *Sym) IsInt(v int64) bool {
	return s != nil && s.k == KConst && s.cv != nil && s.cv.Kind() == constant.Int && s.c0 == v
}

func (s *Sym) IntVal() (int64, bool) {
	if s != nil && s.k == KConst && s.cv != nil && s.cv.Kind() == constant.Int {
		return s.c0, true
	}
	return 0, false
}

func (a *Analysis) Op(name string, args ...*Sym) *Sym {
	switch name {
	case "mul", "and", "or", "xor", "==":
		args = append([]*Sym{}, args...)
		sort.Slice(args, func(i, j int) bool {
			if args[i].String() != args[j].String() {
				return args[i].String() < args[j].String()
			}
			return args[i].id < args[j].id
		})
	}
	return a.intern("op:"+name+"("+ids(args)+")", func() *Sym { return &Sym{k: KOp, name: name, args: args} })
}

func (a *Analysis) Addr(x *Sym) *Sym {
	if x.k == KDeref {
		return x.args[0]
	}
	return a.intern(fmt.Sprintf("&%d", x.id), func() *Sym { return &Sym{k: KAddr, args: []*Sym{x}} })
}

// strip turns a pointer value into the lvalue it points to, for use as a base.
func strip(p *Sym) *Sym {
	if p.k == KAddr {
		return p.args[0]
	}
	return p
}

func (a *Analysis) Deref(p *Sym) *Sym {
	if p.k == KAddr {
		return p.args[0]
	}
	return a.intern(fmt.Sprintf("*%d", p.id), func() *Sym { return &Sym{k: KDeref, args: []*Sym{p}} })
}

func (a *Analysis) Field(base *Sym, owner, f string, t types.Type) *Sym {
	if base.k == KDeref {
		base = base.args[0]
	}
	if base.k == KComp {
		for i, n := range strings.Split(base.name, ",") {
			if n == f {
				return base.args[i]
			}
		}
	}
	return a.intern(fmt.Sprintf("f:%d.%s", base.id, f), func() *Sym {
		return &Sym{k: KField, name: f, args: []*Sym{base}, typ: t, cv: constant.MakeString(owner)}
	})
}

func (s *Sym) owner() string {
	if s.k == KField && s.cv != nil {
		return constant.StringVal(s.cv)
	}
	return ""
}

func (a *Analysis) Index(base, idx *Sym, t types.Type) *Sym {
	if base.k == KDeref {
		base = base.args[0]
	}
	// index into a slice expression: shift
	if base.k == KSlice && base.args[1] != nil {
		idx = a.Add(idx, base.args[1])
		base = base.args[0]
	} else if base.k == KSlice && base.args[1] == nil {
		base = base.args[0]
	}
	return a.intern(fmt.Sprintf("x:%d[%d]", base.id, idx.id), func() *Sym {
		return &Sym{k: KIndex, args: []*Sym{base, idx}, typ: t}
	})
}

func (a *Analysis) Lookup(m, k *Sym, t types.Type) *Sym {
	return a.intern(fmt.Sprintf("m:%d[%d]", m.id, k.id), func() *Sym {
		return &Sym{k: KLookup, args: []*Sym{m, k}, typ: t}
	})
}

// Slice of base from lo to hi (nil: absent). base is an lvalue or a slice value.
func (a *Analysis) Slice(base, lo, hi *Sym) *Sym {
	if base.k == KDeref {
		base = base.args[0]
	}
	if lo != nil && lo.IsInt(0) {
		lo = nil
	}
	if base.k == KSlice {
		blo := base.args[1]
		if blo != nil {
			if lo == nil {
				lo = blo
			} else {
				lo = a.Add(lo, blo)
			}
			if hi != nil {
				hi = a.Add(hi, blo)
			} else {
				hi = base.args[2]
			}
		} else if hi == nil {
			hi = base.args[2]
		}
		base = base.args[0]
	}
	args := []*Sym{base, lo, hi}
	return a.intern("s:"+ids(args), func() *Sym { return &Sym{k: KSlice, args: args} })
}

// ---- linear arithmetic ----

func (a *Analysis) linParts(s *Sym) (c int64, terms map[*Sym]int64) {
	if v, ok := s.IntVal(); ok {
		return v, nil
	}
	if s.k == KLin {
		terms = map[*Sym]int64{}
		for i, t := range s.args {
			terms[t] = s.coef[i]
		}
		return s.c0, terms
	}
	return 0, map[*Sym]int64{s: 1}
}

// remainders turns x - y*(x/y) into x%y.
func (a *Analysis) remainders(c int64, terms map[*Sym]int64) (int64, map[*Sym]int64) {
	for t, k := range terms {
		if t.k != KOp || k == 0 {
			continue
		}
		var x, y *Sym
		m := int64(0)
		switch t.name {
		case "quo":
			if v, ok := t.args[1].IntVal(); ok && v > 1 && k%v == 0 {
				x, y, m = t.args[0], t.args[1], -k/v
			}
		case "mul":
			for i := 0; i < 2; i++ {
				if q := t.args[i]; q.k == KOp && q.name == "quo" && q.args[1] == t.args[1-i] {
					x, y, m = q.args[0], t.args[1-i], -k
				}
			}
		}
		if x == nil || m == 0 {
			continue
		}
		cx, tx := a.linParts(x)
		fits := len(tx) > 0
		for u, n := range tx {
			if terms[u] != m*n {
				fits = false
			}
		}
		if !fits {
			continue
		}
		out := map[*Sym]int64{}
		for u, n := range terms {
			out[u] = n
		}
		delete(out, t)
		for u := range tx {
			delete(out, u)
		}
		out[a.Rem(x, y)] += m
		return a.remainders(c-m*cx, out)
	}
	return c, terms
}

func (a *Analysis) Lin(c int64, terms map[*Sym]int64) *Sym {
	c, terms = a.remainders(c, terms)
	var ts []*Sym
	for t, k := range terms {
		if k != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return a.Int(c)
	}
	if len(ts) == 1 && c == 0 && terms[ts[0]] == 1 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].String() != ts[j].String() {
			return ts[i].String() < ts[j].String()
		}
		return ts[i].id < ts[j].id
	})
	key := fmt.Sprintf("lin:%d", c)
	coef := make([]int64, len(ts))
	for i, t := range ts {
		coef[i] = terms[t]
		key += fmt.Sprintf("+%d*%d", coef[i], t.id)
	}
	return a.intern(key, func() *Sym { return &Sym{k: KLin, args: ts, coef: coef, c0: c} })
}

func (a *Analysis) Add(x, y *Sym) *Sym { return a.lincomb(x, 1, y, 1) }
func (a *Analysis) Sub(x, y *Sym) *Sym { return a.lincomb(x, 1, y, -1) }

func (a *Analysis) lincomb(x *Sym, kx int64, y *Sym, ky int64) *Sym {
	cx, tx := a.linParts(x)
	cy, ty := a.linParts(y)
	m := map[*Sym]int64{}
	for t, k := range tx {
		m[t] += k * kx
	}
	for t, k := range ty {
		m[t] += k * ky
	}
	return a.Lin(cx*kx+cy*ky, m)
}

func (a *Analysis) Scale(x *Sym, k int64) *Sym { return a.lincomb(x, k, a.Int(0), 0) }

func (a *Analysis) Mul(x, y *Sym) *Sym {
	if v, ok := x.IntVal(); ok {
		return a.Scale(y, v)
	}
	if v, ok := y.IntVal(); ok {
		return a.Scale(x, v)
	}
	// distribute over sums so that (a+1)*b and a*b+b agree
	if x.k == KLin || y.k == KLin {
		cx, tx := a.linParts(x)
		cy, ty := a.linParts(y)
		if tx == nil {
			tx = map[*Sym]int64{}
		}
		if ty == nil {
			ty = map[*Sym]int64{}
		}
		res := a.Int(cx * cy)
		for t, k := range tx {
			res = a.lincomb(res, 1, t, k*cy)
			for u, l := range ty {
				res = a.lincomb(res, 1, a.Op("mul", t, u), k*l)
			}
		}
		for u, l := range ty {
			res = a.lincomb(res, 1, u, l*cx)
		}
		return res
	}
	return a.Op("mul", x, y)
}

func pow2(v int64) (int, bool) {
	if v <= 0 || v&(v-1) != 0 {
		return 0, false
	}
	n := 0
	for v > 1 {
		v >>= 1
		n++
	}
	return n, true
}

func (a *Analysis) Quo(x *Sym, y *Sym) *Sym {
	if u, ok := x.IntVal(); ok {
		if v, ok := y.IntVal(); ok && v != 0 {
			return a.Int(u / v)
		}
	}
	if y.IsInt(1) {
		return x
	}
	if v, ok := y.IntVal(); ok && v > 0 {
		// (x/p)/q == x/(p*q); (k*p*t)/p == k*t when everything is a multiple
		if x.k == KOp && x.name == "quo" {
			if u, ok := x.args[1].IntVal(); ok && u > 0 {
				return a.Quo(x.args[0], a.Int(u*v))
			}
		}
		c, t := a.linParts(x)
		if c%v == 0 && t != nil {
			all := true
			for _, k := range t {
				if k%v != 0 {
					all = false
				}
			}
			if all {
				m := map[*Sym]int64{}
				for s, k := range t {
					m[s] = k / v
				}
				return a.Lin(c/v, m)
			}
		}
	}
	return a.Op("quo", x, y)
}

func (a *Analysis) Rem(x *Sym, y *Sym) *Sym {
	if u, ok := x.IntVal(); ok {
		if v, ok := y.IntVal(); ok && v != 0 {
			return a.Int(u % v)
		}
	}
	if v, ok := y.IntVal(); ok && v > 0 && x.k == KOp && x.name == "rem" {
		if u, ok := x.args[1].IntVal(); ok && u%v == 0 {
			return a.Rem(x.args[0], y)
		}
	}
	return a.Op("rem", x, y)
}

// ---- printing ----

func (s *Sym) String() string {
	if s == nil {
		return "_"
	}
	if s.str != "" {
		return s.str
	}
	s.str = s.render()
	if len(s.str) > 4000 {
		s.str = fmt.Sprintf("big#%d", s.id)
	}
	return s.str
}

func (s *Sym) render() string {
	switch s.k {
	case KConst, KNil, KZero, KParam, KGlobal, KOpaque:
		return s.name
	case KLocal:
		return s.name
	case KField:
		return s.args[0].String() + "." + s.name
	case KIndex:
		return s.args[0].String() + "[" + s.args[1].String() + "]"
	case KLookup:
		return s.args[0].String() + "{" + s.args[1].String() + "}"
	case KDeref:
		return "*" + s.args[0].String()
	case KAddr:
		return "&" + s.args[0].String()
	case KSlice:
		lo, hi := "", ""
		if s.args[1] != nil {
			lo = s.args[1].String()
		}
		if s.args[2] != nil {
			hi = s.args[2].String()
		}
		return s.args[0].String() + "[" + lo + ":" + hi + "]"
	case KLin:
		var b strings.Builder
		for i, t := range s.args {
			c := s.coef[i]
			switch {
			case c == 1 && i == 0:
			case c == 1:
				b.WriteString("+")
			case c == -1:
				b.WriteString("-")
			case c > 0 && i > 0:
				fmt.Fprintf(&b, "+%d*", c)
			default:
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(t.String())
		}
		if s.c0 > 0 {
			fmt.Fprintf(&b, "+%d", s.c0)
		} else if s.c0 < 0 {
			fmt.Fprintf(&b, "%d", s.c0)
		}
		return "(" + b.String() + ")"
	case KOp, KCall:
		var as []string
		for _, x := range s.args {
			as = append(as, x.String())
		}
		if s.name == "#" || s.name == "buf" {
			return "<" + strings.Join(as, " ") + ">"
		}
		return s.name + "(" + strings.Join(as, ",") + ")"
	case KPhi:
		set := map[string]bool{}
		for _, x := range s.args {
			set[x.String()] = true
		}
		var as []string
		for x := range set {
			as = append(as, x)
		}
		sort.Strings(as)
		return "phi{" + strings.Join(as, "|") + "}"
	case KFunc:
		return "func:" + fnName(s.fn)
	case KElem:
		return s.name + "(" + s.args[0].String() + ")"
	case KIter:
		return s.name
	case KVer:
		return s.args[0].String() + "@"
	case KComp:
		var as []string
		ns := strings.Split(s.name, ",")
		for i, x := range s.args {
			as = append(as, ns[i]+":"+x.String())
		}
		return "{" + strings.Join(as, ",") + "}"
	}
	return "?"
}

// Contains reports whether t occurs in s.
func (s *Sym) Contains(pred func(*Sym) bool) bool {
	seen := map[*Sym]bool{}
	var rec func(x *Sym) bool
	rec = func(x *Sym) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, y := range x.args {
			if rec(y) {
				return true
			}
		}
		return false
	}
	return rec(s)
}

// Alts are the possible values of s: the operands when it is a merge.
func (s *Sym) Alts() []*Sym {
	if s.k != KPhi {
		return []*Sym{s}
	}
	var out []*Sym
	seen := map[*Sym]bool{}
	var rec func(x *Sym)
	rec = func(x *Sym) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.k == KPhi {
			for _, y := range x.args {
				rec(y)
			}
			return
		}
		out = append(out, x)
	}
	rec(s)
	return out
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "moeingads")
	return s
}

// glob matches pattern against s; '%' stands for any run of characters.
func glob(pat, s string) bool {
	parts := strings.Split(pat, "%")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}
