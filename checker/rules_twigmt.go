package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	register("P11", "places and contents of the twig file: the sequence of pieces written and the place every node is read from by conditional constant propagation per node number, the content returned as hash terms over what was read", p11)
}

// Sequence: the effects that match kind come in exactly this order, each of
// the forms given, on every way to the end.
func (r *R) Sequence(q *Q, what string, kind P, arg int, want []string) bool {
	m := q.Mach()
	return r.sequence(q, what, kind, want, func(s State) string {
		if x := m.ArgAt(s, arg); x != nil {
			return x.String()
		}
		return "?"
	})
}

// numSequence: Sequence with the numbers the facts settle put in, and with
// what a pointer points to.
func (r *R) numSequence(q *Q, what string, kind P, arg int, want []string) bool {
	m := q.Mach()
	return r.sequence(q, what, kind, want, func(s State) string {
		if v := m.pointee(s, arg); v != "" {
			return v
		}
		return "?"
	})
}

func (r *R) sequence(q *Q, what string, kind P, want []string, content func(State) string) bool {
	r.uses(kind)
	conts := map[string]string{}
	cont := func(s State) string {
		k := s.key()
		v, ok := conts[k]
		if !ok {
			v = content(s)
			conts[k] = v
		}
		return v
	}
	curAn = q.a
	ob := r.scn(q) + ": " + what
	type st struct {
		s State
		i int
	}
	key := func(x st) string { return fmt.Sprintf("%s#%d", x.s.key(), x.i) }
	seen := map[string]bool{}
	work := []st{{q.start(), 0}}
	ends := 0
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range q.Next(x.s) {
			y := st{t, x.i}
			if q.Match(t, kind) != mNo {
				if y.i >= len(want) || !globAlts(want[y.i], cont(t)) {
					if v := cont(t); v == "?" || hasUnknown(v) {
						r.undecided(ob, "content not known: "+clip(v, 200))
						return true
					}
					w := "no more"
					if y.i < len(want) {
						w = want[y.i]
					}
					if r.done(q, ob) {
						r.fail(ob, t.n.Where(), fmt.Sprintf("%s: piece %d is %s, expected %s", what, y.i+1, clip(cont(t), 300), clip(w, 200)), t.n.Where())
					}
					return false
				}
				r.site(t)
				y.i++
			}
			if isExit(t) {
				ends++
				if y.i < len(want) {
					if r.done(q, ob) {
						r.fail(ob, x.s.n.Where(), fmt.Sprintf("%s: it can end after %d of %d pieces", what, y.i, len(want)), x.s.n.Where())
					}
					return false
				}
			}
			k := key(y)
			if seen[k] {
				continue
			}
			seen[k] = true
			if len(seen) > q.lim {
				q.giveUp = true
				work = nil
				break
			}
			work = append(work, y)
		}
	}
	q.nstates += len(seen)
	if !r.done(q, ob) {
		return true
	}
	if ends == 0 {
		r.fail(ob, q.a.rootNm, what+": it never ends")
		return false
	}
	r.ok(ob)
	return true
}

func p11(r *R) {
	const app, rd = "(*datatree.HPFile).Append", "(*datatree.HPFile).ReadAt"
	const size = 12 + (4095-1792)*32
	o := Opts{NoInline: []string{"(*datatree.HPFile).%"}, MaxTrip: 5000, key: "mt"}
	if a := r.An("datatree", "(*TwigMtFile).AppendTwig", o); a != nil {
		q := r.Q(a, "a whole tree", Fact{"len(a0)", vi(4095)}, Fact{"a1", V{k: vInt, lo: 0, hi: 1 << 50}}, Fact{app + "(%)", V{k: vNil}}, Fact{"#1(" + app + "(%))", V{k: vNil}})
		r.Exists(q, "the tree is written", app)
		n := len(q.Find(app))
		if n < 2000 {
			r.undecided("the order of the pieces", fmt.Sprintf("the pieces are not written one by one (%d writes)", n))
		} else {
			want := []string{"<e(%) e(<meow.New32(0,le8(a1))>)>"}
			for id := 1; id < 4096; id++ {
				if id < 256 || id >= 2048 {
					want = append(want, fmt.Sprintf("e(a0[%d][:])", id-1))
				}
			}
			r.Sequence(q, "the header, then the nodes 1 to 255 and 2048 to 4095 in order", app, 1, want)
		}
		errHandled(r, a, app)
		for _, n := range []int64{4094, 4096, 0} {
			r.NoReturn(r.Q(a, "not a whole tree", Fact{"len(a0)", vi(n)}, Fact{"a1", vi(4096)}), "it is refused")
		}
	}
	ok := Fact{rd + "(%)", V{k: vNil}}
	bad := Fact{rd + "(%)", V{k: vNonNil}}
	base := "(" + itoa(size) + "*a0)"
	if a := r.An("datatree", "(*TwigMtFile).GetFirstEntryPos", o); a != nil {
		q := r.Q(a, "it can be read", ok)
		r.Contents(q, "the position of the first entry is at the head of the twig's piece", base, nil, 0, "LE8(F(0,8))")
		cks := "bytes.Equal(%)"
		r.NoReturn(r.Q(a, "the checksum is wrong", ok, Fact{cks, vb(false)}, Fact{"bytes.Compare(%)", vi(1)}), "the position is refused")
		for _, s := range q.Find("bytes.Equal") {
			m := q.Mach()
			x, y := m.ArgAt(s, 0), m.ArgAt(s, 1)
			if x == nil || y == nil {
				continue
			}
			ob := r.scn(q) + ": the checksum is that of the position"
			got := [2]string{m.fileForm(x, base, nil), m.fileForm(y, base, nil)}
			want := [2]string{"F(8,12)", "meow.New32(0,F(0,8))"}
			if got == want || got == [2]string{want[1], want[0]} {
				r.ok(ob)
			} else {
				r.fail(ob, s.n.Where(), "compares "+got[0]+" with "+got[1], s.n.Where())
			}
		}
		r.NoReturn(r.Q(a, "it cannot be read", bad), "no position is told")
	}
	for _, f := range [][2]string{{"Truncate", "(*datatree.HPFile).Truncate(recv.HPFile, a0)"}, {"PruneHead", "(*datatree.HPFile).PruneHead(recv.HPFile, a0)"}, {"Flush", "(*datatree.HPFile).Flush(recv.HPFile)"}, {"StartFlushing", "(*datatree.HPFile).StartFlushing(recv.HPFile)"}, {"WaitForFlushing", "(*datatree.HPFile).WaitForFlushing(recv.HPFile)"}, {"Close", "(*datatree.HPFile).Close(recv.HPFile)"}} {
		if a := r.An("datatree", "(*TwigMtFile)."+f[0], o); a != nil {
			r.Must(r.Q(a, ""), "it is done to the file", P(f[1]))
			if f[0] == "Truncate" || f[0] == "PruneHead" || f[0] == "Close" {
				r.NoReturn(r.Q(a, "it cannot be done", Fact{"(*datatree.HPFile)." + f[0] + "(%)", V{k: vNonNil}}), "it is not taken for done")
			}
		}
	}
	if a := r.An("datatree", "(*TwigMtFile).Size", o); a != nil {
		r.Result(r.Q(a, ""), "the size is that of the file", 0, "(*datatree.HPFile).Size(recv.HPFile)")
	}
	if a := r.An("datatree", "(*TwigMtFile).GetHashNode", o); a != nil {
		var ids []int
		if r.thorough {
			for i := 1; i < 4096; i++ {
				ids = append(ids, i)
			}
		} else {
			ids = []int{1, 2, 3, 4, 7, 8, 100, 127, 128, 254, 255, 256, 257, 300, 510, 511, 512, 513, 514, 515, 700, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1500, 1501, 1502, 1503, 2044, 2045, 2046, 2047, 2048, 2049, 3000, 4094, 4095}
		}
		for _, id := range ids {
			n := Fact{"a1", vi(int64(id))}
			for w, f := range map[string][]Fact{
				"node":                  {n, ok},
				"node (over two files)": {n, {rd + "(%,$%[:],%)", V{k: vNonNil}}, ok},
			} {
				if w != "node" && mtPlace(id) >= 0 {
					continue
				}
				q := r.Q(a, strings.Replace(w, "node", "node "+itoa(int64(id)), 1), f...)
				r.Contents(q, "it is what was written, or made of what was written", base, map[string]int64{"a1": int64(id)}, 0, mtNode(id))
				m := q.Mach()
				for _, s := range q.Find("mapset(a2)") {
					k, v := m.ArgAt(s, 1), m.ArgAt(s, 2)
					if k == nil || v == nil {
						continue
					}
					kn1 := map[string]int64{"a1": int64(id)}
					kn, isC := m.known(k, kn1).IntVal()
					ob := r.scn(q) + ": what is kept for later is the node of that number"
					if !isC || kn < 1 || kn > 4095 {
						r.undecided(ob, "number not known: "+k.String())
						continue
					}
					if t := m.fileForm(v, base, kn1); t != mtNode(int(kn)) {
						r.fail(ob, s.n.Where(), fmt.Sprintf("asked for node %d, node %d is kept as %s, expected %s", id, kn, clip(t, 300), clip(mtNode(int(kn)), 300)), s.n.Where())
					} else {
						r.ok(ob)
					}
				}
			}
			r.NoReturn(r.Q(a, "the file cannot be read", n, bad), "no node is told")
		}
		for _, id := range []int64{0, -1, 4096} {
			r.NoReturn(r.Q(a, "no such node", ok, Fact{"a1", vi(id)}), "it is refused")
		}
	}
}

// Contents: result idx of the entry point, with what was read from a file
// named by its places relative to base.
func (r *R) Contents(q *Q, what, base string, known map[string]int64, idx int, want string) bool {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	n := 0
	for _, s := range q.rootRets() {
		v := m.RetAt(s, idx)
		if v == nil {
			continue
		}
		r.site(s)
		if t := m.fileForm(v, base, known); t != want {
			if strings.Contains(t, "?") {
				r.undecided(ob, "content not known: "+clip(t, 200))
				return true
			}
			r.fail(ob, s.n.Where(), what+": "+clip(t, 500)+", expected "+clip(want, 500), s.n.Where())
			return false
		}
		n++
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	}
	r.ok(ob)
	return true
}

// fileForm renders contents with every piece read from the file named by the
// places, relative to base, that it was read from: F(lo,hi).
func (m *Mach) fileForm(v *Sym, base string, known map[string]int64) string {
	a := m.a
	if len(known) > 0 {
		v = m.known(v, known)
	}
	place := func(g *Sym) (int64, bool) {
		for _, x := range g.args {
			if x.typ != nil && !isInteger(x.typ) {
				continue
			}
			c, ts := a.linParts(x)
			if len(ts) == 0 {
				continue
			}
			d := a.Sub(x, a.Int(c))
			if d.String() == base {
				return c, true
			}
		}
		return 0, false
	}
	f := func(lo, hi int64) *Sym { return a.Op("F", a.Int(lo), a.Int(hi)) }
	w := a.Rewrite(v, func(x *Sym) *Sym {
		g, lo, hi := x, int64(0), int64(-1)
		if x.k == KOp && x.name == "sub" && len(x.args) == 3 {
			l, ok1 := x.args[1].IntVal()
			h, ok2 := x.args[2].IntVal()
			if !ok1 || !ok2 {
				return nil
			}
			g, lo, hi = x.args[0], l, h
		}
		if g.k != KCall || !strings.HasPrefix(g.name, "got.ReadAt") {
			return nil
		}
		if hi < 0 {
			if g.base == nil {
				return nil
			}
			n, ok := g.base.IntVal()
			if !ok {
				return nil
			}
			hi = n
		}
		at, ok := place(g)
		if !ok {
			return nil
		}
		return f(at+lo, at+hi)
	})
	// neighbours are one piece
	t := w.String()
	for {
		u := joinF.ReplaceAllStringFunc(t, func(s string) string {
			n := joinF.FindStringSubmatch(s)
			if n[2] == n[3] {
				return "F(" + n[1] + "," + n[4] + ")"
			}
			return s
		})
		if u == t {
			return t
		}
		t = u
	}
}

var joinF = regexp.MustCompile(`F\((\d+),(\d+)\) F\((\d+),(\d+)\)`)

// mtPlace is where a node lies in a twig's piece of the file, -1 if it is not kept.
func mtPlace(id int) int {
	switch {
	case id >= 1 && id < 256:
		return 12 + (id-1)*32
	case id >= 2048 && id < 4096:
		return 12 + (id-1-1792)*32
	}
	return -1
}

func mtNode(id int) string {
	if p := mtPlace(id); p >= 0 {
		return fmt.Sprintf("F(%d,%d)", p, p+32)
	}
	lv := 0
	for x := id; x < 1024; x *= 2 {
		lv++
	}
	if lv == 0 {
		p := mtPlace(2 * id)
		return fmt.Sprintf("sha256(<0x%02x F(%d,%d)>)", lv, p, p+64)
	}
	return fmt.Sprintf("sha256(<0x%02x %s %s>)", lv, mtNode(2*id), mtNode(2*id+1))
}

// known puts numbers in for parameters.
func (m *Mach) known(v *Sym, known map[string]int64) *Sym {
	return m.a.Rewrite(v, func(x *Sym) *Sym {
		if x.k == KParam {
			if n, ok := known[x.String()]; ok {
				return m.a.Int(n)
			}
		}
		return nil
	})
}
