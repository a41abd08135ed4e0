package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Deep renders what a value refers to with everything reachable through
// structures, arrays and slices of them.
func (m *Mach) Deep(v *Sym) string {
	v = m.settle(v)
	switch {
	case v.k == KAddr:
		return "&" + m.deepAt(v.args[0], m.typ(v.args[0]))
	case v.k == KComp:
		return m.deepVal(v)
	case v.typ != nil && v.k == KDeref:
		return m.deepAt(v.args[0], v.typ)
	}
	return m.num(m.show(v))
}

func (m *Mach) deepVal(v *Sym) string {
	if v.k != KComp {
		return m.num(m.show(v))
	}
	var out []string
	for i, n := range strings.Split(v.name, ",") {
		if i < len(v.args) {
			out = append(out, n+":"+m.deepVal(v.args[i]))
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (m *Mach) deepAt(p *Sym, t types.Type) string {
	a := m.a
	if t == nil {
		return m.num(m.show(m.load(p)))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x, ok := m.cur.mem[p]; ok && x.k == KComp {
			return m.deepVal(x)
		}
		o := namedName(t)
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fp := a.Field(p, o, f.Name(), f.Type())
			if fp.typ == nil {
				fp.typ = f.Type()
			}
			out = append(out, f.Name()+":"+m.deepAt(fp, f.Type()))
		}
		return "{" + strings.Join(out, ",") + "}"
	case *types.Array:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok && u.Len() <= 200 {
			var out []string
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, m.deepAt(a.Index(p, a.Int(i), u.Elem()), u.Elem()))
			}
			return "[" + strings.Join(out, " ") + "]"
		}
		if p.typ == nil {
			p.typ = t
		}
		return m.num(m.show(m.load(p)))
	case *types.Slice:
		v := m.load(p)
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return m.deepSlice(v, u.Elem())
		}
		return m.num(m.show(v))
	}
	v := m.settle(m.load(p))
	if v.k == KAddr {
		return "&" + m.num(m.show(v))
	}
	return m.num(m.show(v))
}

func (m *Mach) deepSlice(v *Sym, el types.Type) string {
	a := m.a
	n, ok := m.lenOf(v, nil).IntVal()
	if !ok || n > 200 {
		return m.num(m.show(v))
	}
	base, lo := m.baseOf(v)
	if base == nil {
		return m.num(m.show(v))
	}
	var out []string
	for i := int64(0); i < n; i++ {
		out = append(out, m.deepAt(a.Index(base, a.Add(lo, a.Int(i)), el), el))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// num puts in the numbers and truth values the facts settle.
func (m *Mach) num(v *Sym) string {
	return m.a.Rewrite(v, func(x *Sym) *Sym {
		switch x.k {
		case KParam, KOp, KLin, KPhi, KVer:
			switch y := m.q.sc.Eval(x, m.env); {
			case y.isC():
				return m.a.Int(y.lo)
			case y.isTrue():
				return m.a.Bool(true)
			case y.isFalse():
				return m.a.Bool(false)
			}
		}
		return nil
	}).String()
}

// RetDeep is result i at a return, see Deep.
func (m *Mach) RetDeep(s State, i int) (string, bool) {
	out, ok := "", false
	m.At(s, func() {
		if r := retOf(s.n); r != nil && i < len(r.Results) {
			v := m.a.Eval(s.n.c, r.Results[i])
			t := r.Results[i].Type()
			if sl, is := t.Underlying().(*types.Slice); is {
				if _, is := sl.Elem().Underlying().(*types.Struct); is {
					out, ok = m.deepSlice(v, sl.Elem()), true
					return
				}
			}
			out, ok = m.Deep(v), true
		}
	})
	return out, ok
}

// DeepResult: every result idx holds, all the way down, one of the forms.
func (r *R) DeepResult(q *Q, what string, idx int, forms ...string) bool {
	r.uses(P(strings.Join(forms, " ")))
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	n, unk := 0, ""
	for _, s := range q.rootRets() {
		v, ok := m.RetDeep(s, idx)
		if !ok {
			continue
		}
		if r.deepNorm != nil {
			v = r.deepNorm(v)
		}
		r.site(s)
		if !globAny(forms, v) {
			if strings.Contains(v, "?top") || strings.Contains(v, "?(") || strings.Contains(v, "?bytes") {
				unk = v
				continue
			}
			i := 0
			for i < len(v) && i < len(forms[0]) && v[i] == forms[0][i] {
				i++
			}
			if i > 20 {
				i -= 20
			} else {
				i = 0
			}
			j := i
			if j > len(forms[0]) {
				j = len(forms[0])
			}
			r.fail(ob, s.n.Where(), what+": ..."+clip(v[i:], 300)+", expected ..."+clip(forms[0][j:], 300), s.n.Where())
			return false
		}
		n++
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 && unk != "" {
		r.undecided(ob, "content not known: "+clip(unk, 200))
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	}
	r.ok(ob)
	return true
}

// Place is the place a path such as recv.maxSerialNum[3] or recv.nodes[a0]
// stands for, nil if there is no such place (any more).
func (a *Analysis) Place(path string) *Sym {
	i := strings.IndexAny(path, ".[")
	if i < 0 {
		i = len(path)
	}
	root := a.paramNamed(path[:i])
	if root == nil {
		return nil
	}
	p, t := root, root.typ
	rest := path[i:]
	deref := func() {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
	}
	for rest != "" {
		deref()
		if rest[0] == '.' {
			j := strings.IndexAny(rest[1:], ".[")
			if j < 0 {
				j = len(rest) - 1
			}
			name := rest[1 : 1+j]
			rest = rest[1+j:]
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			found := false
			for k := 0; k < st.NumFields(); k++ {
				if f := st.Field(k); f.Name() == name {
					p = a.Field(p, namedName(t), name, f.Type())
					t, found = f.Type(), true
				}
			}
			if !found {
				return nil
			}
			continue
		}
		j := strings.IndexByte(rest, ']')
		if j < 0 {
			return nil
		}
		is := rest[1:j]
		rest = rest[j+1:]
		idx := a.paramNamed(is)
		if idx == nil {
			n, err := strconv.ParseInt(is, 10, 64)
			if err != nil {
				return nil
			}
			idx = a.Int(n)
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			t = u.Elem()
			p = a.Index(p, idx, t)
		case *types.Slice:
			t = u.Elem()
			p = a.Index(p, idx, t)
		case *types.Map:
			t = u.Elem()
			p = a.Lookup(p, idx, t)
		default:
			return nil
		}
	}
	return p
}

func (a *Analysis) paramNamed(name string) *Sym {
	for _, x := range a.root.fn.Params {
		if s := a.Eval(a.root, x); s.String() == name {
			return s
		}
	}
	return nil
}

// Ends: whenever the function returns, the place holds one of the forms.
func (r *R) Ends(q *Q, what, place string, forms ...string) bool {
	r.uses(P(strings.Join(forms, " ")))
	curAn = q.a
	ob := r.scn(q) + ": " + what
	p := q.a.Place(place)
	if p == nil {
		r.undecided(ob, "there is no "+place)
		return true
	}
	m := q.Mach()
	n, unk := 0, ""
	for _, s := range q.rootRets() {
		v := ""
		m.At(s, func() { v = m.num(m.show(m.load(p))) })
		if v == "" {
			continue
		}
		if r.deepNorm != nil {
			v = r.deepNorm(v)
		}
		r.site(s)
		if !globAny(forms, v) {
			if strings.Contains(v, "?top") || strings.Contains(v, "?(") || strings.Contains(v, "?bytes") {
				unk = v
				continue
			}
			r.fail(ob, s.n.Where(), what+": "+place+" is "+clip(v, 300)+", expected "+clip(strings.Join(forms, " or "), 300), s.n.Where())
			return false
		}
		n++
	}
	if !r.done(q, ob) {
		return true
	}
	if unk != "" {
		if path := r.notSet(q, place, forms); path != nil {
			r.fail(ob, path[len(path)-1].n.Where(), what+": it can end without "+place+" being set to "+clip(strings.Join(forms, " or "), 200), q.Trace(path)...)
			return false
		}
		r.undecided(ob, "content not known: "+clip(unk, 200))
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	}
	r.ok(ob)
	return true
}

// notSet: a way to the end on which the place is never given one of the forms,
// nil if there is none or what is stored is not known.
func (r *R) notSet(q *Q, place string, forms []string) []State {
	m := q.Mach()
	norm := func(v string) string {
		if r.deepNorm != nil {
			return r.deepNorm(v)
		}
		return v
	}
	set := map[string]bool{}
	for _, s := range q.Find("=%") {
		p, v := m.ArgAt(s, 0), m.ArgAt(s, 1)
		if p == nil || m.numAt(s, p) != place {
			continue
		}
		if v == nil {
			return nil
		}
		x := norm(m.numAt(s, v))
		if strings.Contains(x, "?") {
			return nil
		}
		if globAny(forms, x) {
			set[s.key()] = true
		}
	}
	if len(set) == 0 || globAny(forms, place) {
		return nil
	}
	return q.Path([]State{q.start()}, func(s State) bool { return set[s.key()] }, func(s State) bool { return s.n.kind == nodeRet && s.n.c == q.a.root })
}

// Does: every way to the end passes an effect that matches with arguments of
// these contents ("" for any).
func (r *R) Does(q *Q, what string, p P, args ...string) bool {
	r.uses(p, P(strings.Join(args, " ")))
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	near := map[string]bool{}
	hit := func(s State) bool {
		if q.Match(s, p) == mNo {
			return false
		}
		all := true
		var got []string
		for i, f := range args {
			if f == "" {
				continue
			}
			v := "?"
			if x := m.ArgAt(s, i); x != nil {
				v = m.numAt(s, x)
			}
			got = append(got, v)
			if !globAlts(f, v) {
				all = false
			}
		}
		if !all {
			near[strings.Join(got, ", ")] = true
		} else {
			r.site(s)
		}
		return all
	}
	path := q.Path([]State{q.start()}, hit, isExit)
	if !r.done(q, ob) {
		return true
	}
	if path != nil {
		var ns []string
		for k := range near {
			ns = append(ns, clip(k, 120))
		}
		sort.Strings(ns)
		if len(ns) > 12 {
			ns = ns[:12]
		}
		for _, k := range ns {
			if strings.Contains(k, "?") {
				r.undecided(ob, "content not known: "+k)
				return true
			}
		}
		r.fail(ob, path[len(path)-1].n.Where(), what+": the end is reached without "+string(p)+"("+strings.Join(args, ", ")+"), there is "+strings.Join(ns, "; "), q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}

func (m *Mach) numAt(s State, x *Sym) string {
	out := ""
	m.At(s, func() { out = m.num(x) })
	return out
}

// DoesOnly: every effect that matches has contents of one of the lists.
func (r *R) DoesOnly(q *Q, what string, p P, allowed ...[]string) bool {
	r.uses(p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	for _, s := range q.Find(p) {
		r.site(s)
		ok := false
		var got []string
		for i := 0; i < 6; i++ {
			x := m.ArgAt(s, i)
			if x == nil {
				break
			}
			got = append(got, m.numAt(s, x))
		}
		for _, al := range allowed {
			all := true
			for i, f := range al {
				if f != "" && (i >= len(got) || !globAlts(f, got[i])) {
					all = false
				}
			}
			ok = ok || all
		}
		if !ok {
			if strings.Contains(strings.Join(got, " "), "?") {
				r.undecided(ob, "content not known: "+clip(strings.Join(got, ", "), 200))
				return true
			}
			if r.done(q, ob) {
				r.fail(ob, s.n.Where(), what+": there is "+clip(strings.Join(got, ", "), 300), s.n.Where())
			}
			return false
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
	return true
}
