package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

func init() {
	register("P30", "byte layout of everything saved and of everything loaded, by abstract interpretation of the buffers along the one way of a record; outcomes of failing reads and writes by conditional constant propagation; typestate of the files", p30)
}

func p30(r *R) {
	r.twigRecord()
	r.nodeRecord()
	r.youngRecord()
	r.loadTree(r.saveTree())
}

// line: the states from s on as long as there is one way to go, nil if the way
// forks; stop is the first state not in it.
func (q *Q) line(s State, stop func(State) bool) []State {
	var out []State
	seen := map[string]bool{}
	for {
		if seen[s.key()] {
			return nil
		}
		seen[s.key()] = true
		out = append(out, s)
		ns := q.Next(s)
		if len(ns) == 0 || stop != nil && len(ns) == 1 && stop(ns[0]) {
			return out
		}
		if len(ns) > 1 {
			return nil
		}
		s = ns[0]
	}
}

// written: all that the writes among the states write, in order.
func (q *Q) written(ss []State, p P, arg int) string {
	m := q.Mach()
	var ps []*Sym
	for _, s := range ss {
		if q.Match(s, p) != mNo {
			x := m.ArgAt(s, arg)
			if x == nil {
				return "?"
			}
			ps = append(ps, m.pieces(x)...)
		}
	}
	return flat32(m.num(m.content(m.canon(ps))))
}

// inFile gives, for what is read among the states, its place in the file.
func (q *Q) inFile(ss []State) (func(string) string, func(*Sym) string, int64) {
	m := q.Mach()
	at := map[*Sym]int64{}
	end := int64(0)
	if len(ss) == 1 { // one read, in whatever round
		for _, s := range q.All() {
			if g := m.got[s.key()]; g != nil && s.n == ss[0].n {
				at[g] = 0
			}
		}
	}
	for _, s := range ss {
		if g := m.got[s.key()]; g != nil {
			n, ok := g.base.IntVal()
			if !ok {
				return nil, nil, 0
			}
			at[g] = end
			end += n
		}
	}
	form := func(v *Sym) string {
		w := m.a.Rewrite(v, func(x *Sym) *Sym {
			g, lo, hi := x, int64(0), int64(-1)
			if x.k == KOp && x.name == "sub" && len(x.args) == 3 {
				l, ok1 := x.args[1].IntVal()
				h, ok2 := x.args[2].IntVal()
				if !ok1 || !ok2 {
					return nil
				}
				g, lo, hi = x.args[0], l, h
			}
			o, ok := at[g]
			if !ok {
				return nil
			}
			if hi < 0 {
				hi, _ = g.base.IntVal()
			}
			return m.a.Op("F", m.a.Int(o+lo), m.a.Int(o+hi))
		})
		return joinFs(m.num(w))
	}
	return joinFs, form, end
}

func joinFs(t string) string {
	for {
		u := joinF.ReplaceAllStringFunc(t, func(s string) string {
			n := joinF.FindStringSubmatch(s)
			if n[2] == n[3] {
				return "F(" + n[1] + "," + n[4] + ")"
			}
			return s
		})
		if u == t {
			return t
		}
		t = u
	}
}

const (
	fRead  = P("Reader.Read || io.ReadFull || io.ReadAtLeast")
	fWrite = P("Writer.Write")
)

var (
	readOK  = []Fact{{"#1(Reader.Read(%))", V{k: vNil}}, {"#1(io.ReadFull(%))", V{k: vNil}}}
	readBad = []Fact{{"#1(Reader.Read(%))", V{k: vNonNil}}, {"#1(io.ReadFull(%))", V{k: vNonNil}}}
	writeOK = []Fact{{"#1(Writer.Write(%))", V{k: vNil}}}
	sumOK   = []Fact{{"bytes.Equal(%)", vb(true)}, {"bytes.Compare(%)", vi(0)}}
	sumBad  = []Fact{{"bytes.Equal(%)", vb(false)}, {"bytes.Compare(%)", vi(1)}}
)

func facts(fs ...[]Fact) []Fact {
	var out []Fact
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}

// ErrIs: result i is nil (or is not) whenever the function returns.
func (r *R) ErrIs(q *Q, what string, i int, isNil bool) {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	n := 0
	m := q.Mach()
	for _, s := range q.rootRets() {
		ret := retOf(s.n)
		if ret == nil || i >= len(ret.Results) {
			continue
		}
		n++
		v := q.sc.Eval(q.a.Eval(q.a.root, ret.Results[i]), s.e)
		if x := m.RetAt(s, i); x != nil && v.k != vNil && v.k != vNonNil {
			if v = q.sc.Eval(x, s.e); x.k == KZero {
				v = V{k: vNil}
			}
		}
		if !r.done(q, ob) {
			return
		}
		if v.k != vNil && v.k != vNonNil {
			r.undecided(ob, "the error is not known")
			return
		}
		if (v.k == vNil) != isNil {
			r.fail(ob, s.n.Where(), map[bool]string{true: "an error is told", false: "no error is told"}[isNil], s.n.Where())
			return
		}
	}
	if !r.done(q, ob) {
		return
	}
	if n == 0 && isNil {
		r.fail(ob, q.a.rootNm, what+": it does not return")
		return
	}
	r.ok(ob)
}

// same: what was found is what is expected.
func (r *R) same(q *Q, what, where, got, want string) {
	ob := r.scn(q) + ": " + what
	if !r.done(q, ob) {
		return
	}
	if got == want {
		r.ok(ob)
		return
	}
	if got == "?" || hasUnknown(got) {
		r.undecided(ob, "not known: "+clip(got, 200))
		return
	}
	if ok, did := r.obs[ob]; !did || ok {
		r.fail(ob, where, clip(got, 700)+", expected "+clip(want, 700), where)
	}
}

// checksum: the last 4 bytes of a record are compared with the sum of the rest.
func (r *R) checksum(q *Q, form func(*Sym) string, sum, all string) {
	m := q.Mach()
	ob := r.scn(q) + ": the checksum in the file is compared with that of what was read"
	for _, s := range q.Find(equalP) {
		x, y := m.ArgAt(s, 0), m.ArgAt(s, 1)
		if x == nil || y == nil || !r.done(q, ob) {
			return
		}
		f, g := form(x), form(y)
		f, g = strings.ReplaceAll(f, "<"+all+">", all), strings.ReplaceAll(g, "<"+all+">", all)
		w := "meow.New32(0," + all + ")"
		if f == sum && g == w || g == sum && f == w {
			r.ok(ob)
			r.site(s)
			return
		}
		r.fail(ob, s.n.Where(), clip(f, 300)+" is compared with "+clip(g, 300), s.n.Where())
		return
	}
	if r.done(q, ob) {
		r.fail(ob, q.a.rootNm, "nothing is compared with the checksum")
	}
}

const twigBytes = "le8(a0) le8(recv.FirstEntryPos) recv.activeBits[:] recv.activeBitsMTL1[0][:] recv.activeBitsMTL1[1][:] recv.activeBitsMTL1[2][:] recv.activeBitsMTL1[3][:] recv.activeBitsMTL2[0][:] recv.activeBitsMTL2[1][:] recv.activeBitsMTL3[:] recv.leftRoot[:] recv.twigRoot[:]"
const twigFields = "{activeBits:F(16,272),activeBitsMTL1:<e(F(272,304)) e(F(304,336)) e(F(336,368)) e(F(368,400))>,activeBitsMTL2:<e(F(400,432)) e(F(432,464))>,activeBitsMTL3:F(464,496),leftRoot:F(496,528),twigRoot:F(528,560),FirstEntryPos:LE8(F(8,16))}"

func (r *R) twigRecord() {
	if a := r.An("datatree", "(*Twig).Dump", Opts{key: "ld"}); a != nil {
		q := r.Q(a, "nothing fails", writeOK...)
		ss := q.line(q.start(), nil)
		if ss == nil {
			r.undecided(r.scn(q)+": the record of a twig", "there is more than one way through")
		} else {
			r.same(q, "the record of a twig", a.rootNm, q.written(ss, fWrite, 1), "<"+twigBytes+" meow.New32(0,<"+twigBytes+">)>")
		}
		r.ErrIs(q, "no error is told", 0, true)
		r.writeFails(a)
	}
	if a := r.An("datatree", "LoadTwigFromFile", Opts{key: "ld"}); a != nil {
		q := r.Q(a, "a whole record", facts(readOK, sumOK)...)
		ss := q.line(q.start(), nil)
		if ss == nil {
			r.undecided(r.scn(q)+": the record of a twig", "there is more than one way through")
		} else if _, form, end := q.inFile(ss); form == nil {
			r.undecided(r.scn(q)+": the record of a twig", "what is read is not known")
		} else {
			r.same(q, "a record is as long as it was written", a.rootNm, fmt.Sprint(end), "564")
			m := q.Mach()
			for _, s := range q.rootRets() {
				r.same(q, "the number of the twig", s.n.Where(), form(m.RetAt(s, 0)), "LE8(F(0,8))")
				r.same(q, "every field is read from where it was written", s.n.Where(), form(m.RetAt(s, 1)), twigFields)
			}
			r.checksum(q, form, "F(560,564)", "F(0,560)")
		}
		r.ErrIs(q, "no error is told", 2, true)
		r.ErrIs(r.Q(a, "the checksum is wrong", facts(readOK, sumBad)...), "an error is told", 2, false)
		r.ErrIs(r.Q(a, "it cannot be read", readBad...), "an error is told", 2, false)
		q = r.Q(a, "the file is at its end", facts(readBad, []Fact{{"==(#1(Reader.Read(%)),io.EOF)||==(#1(io.ReadFull(%)),io.EOF)", vb(true)}})...)
		ob := r.scn(q) + ": the end is told"
		for _, s := range q.rootRets() {
			v := q.Mach().RetAt(s, 2)
			if v == nil || !r.done(q, ob) {
				continue
			}
			if t := v.String(); strings.HasPrefix(t, "#1(Reader.Read(") || strings.HasPrefix(t, "#1(io.ReadFull(") || t == "io.EOF" {
				r.ok(ob)
			} else if hasUnknown(t) {
				r.undecided(ob, clip(t, 200))
			} else {
				r.fail(ob, s.n.Where(), "the end of the file is told as "+clip(t, 200), s.n.Where())
			}
			break
		}
		// cut off between two fields: the end of the file, but not of the record
		n := len(r.Q(a, "a whole record", facts(readOK, sumOK)...).Find("Reader.Read"))
		for i := 1; i < n; i++ {
			fs := []Fact{{fmt.Sprintf("@%d:#1(Reader.Read(%%))", i), V{k: vNonNil}}, {"==(#1(Reader.Read(%)),io.EOF)", vb(true)}}
			q := r.Q(a, fmt.Sprintf("the file ends after %d of %d pieces of a record", i, n), facts(fs, readOK, sumOK)...)
			q.sc.left = int64(i)
			ob := r.scn(q) + ": it is not taken for the end of the file"
			for _, s := range q.rootRets() {
				v := q.Mach().RetAt(s, 2)
				if v == nil || !r.done(q, ob) {
					continue
				}
				if t := v.String(); strings.HasPrefix(t, "#1(Reader.Read(") || t == "io.EOF" {
					r.fail(ob, s.n.Where(), "a record cut off is taken for the end of the file", s.n.Where())
				} else {
					r.ok(ob)
				}
				break
			}
		}
	}
}

// writeFails: a write that fails is told.
func (r *R) writeFails(a *Analysis) {
	errHandled(r, a, "Writer.Write")
}

func (r *R) nodeRecord() {
	if a := r.An("datatree", "(*Tree).DumpNodes", Opts{key: "ld"}); a != nil {
		q := r.Q(a, "nothing fails", append(append([]Fact{}, writeOK...), Fact{"==(32,len(%.Value))||==(len(%.Value),32)", vb(true)}, Fact{"len(%.Value)", vi(32)})...)
		ob := r.scn(q) + ": the record of a node"
		fs := q.Find(fWrite)
		if len(fs) == 0 {
			if r.done(q, ob) {
				r.fail(ob, a.rootNm, "nothing is written")
			}
		} else if ch := fs[0].n.Chain(); len(ch) == 0 {
			r.undecided(ob, "not written in a loop")
		} else {
			l := ch[0]
			did := false
			for _, h := range q.All() {
				if h.n.kind != nodeIf || h.n.c != l.c || h.n.blk != l.l.Header {
					continue
				}
				for _, t := range q.Next(h) {
					if !t.n.InLoop(l) {
						continue
					}
					ss := q.line(t, func(x State) bool { return x.n.hdr == l })
					if ss == nil {
						continue
					}
					if w := q.written(ss, fWrite, 1); w != "" && w != "<>" && !did {
						did = true
						k := "le8(rangekey(recv.nodes)) recv.nodes{rangekey(recv.nodes)}[:]"
						r.same(q, "the record of a node", fs[0].n.Where(), w, "<"+k+" meow.New32(0,<"+k+">)>")
					}
				}
			}
			if !did {
				r.undecided(ob, "there is more than one way through a round")
			}
			r.PerIter(q, "every node is written", len(fs[0].n.Chain())-1, fWrite)
		}
		r.ErrIs(q, "no error is told", 0, true)
		r.writeFails(a)
	}
	if a := r.An("datatree", "(*Tree).LoadNodes", Opts{key: "ld"}); a != nil {
		const set = P("mapset(recv.nodes)")
		eof := func(b bool) []Fact {
			return []Fact{{"==(#1(Reader.Read(%)),io.EOF)||==(#1(io.ReadFull(%)),io.EOF)", vb(b)}}
		}
		q := r.Q(a, "a whole record", facts(readOK, sumOK, eof(false))...)
		r.Then(q, "every record read is put in place before the next", fRead, set, fRead)
		r.NoExit(q, "loading goes on to the end")
		var rd []State
		for _, s := range q.All() {
			if q.Mach().got[s.key()] != nil {
				rd = append(rd, s)
			}
		}
		if len(rd) > 0 {
			_, form, end := q.inFile(rd[:1])
			m := q.Mach()
			if form == nil || len(rd) > 1 && rd[0].n != rd[1].n {
				r.undecided(r.scn(q)+": the record of a node", "what is read is not known")
			} else {
				r.same(q, "a record is as long as it was written", a.rootNm, fmt.Sprint(end), "44")
				for _, s := range q.Find(set) {
					r.site(s)
					r.same(q, "the place of a node", s.n.Where(), form(m.ArgAt(s, 1)), "LE8(F(0,8))")
					if v := m.pointeeSym(s, 2); v != nil {
						r.same(q, "the hash of a node", s.n.Where(), form(v), "F(8,40)")
					}
				}
				r.checksum(q, form, "F(40,44)", "F(0,40)")
			}
			r.Own(q, "every node has a hash of its own", set, 2)
		}
		q = r.Q(a, "the checksum is wrong", facts(readOK, sumBad, eof(false))...)
		r.ErrIs(q, "an error is told", 0, false)
		r.Never(q, "nothing is taken from it", set)
		q = r.Q(a, "it cannot be read", facts(readBad, eof(false))...)
		r.ErrIs(q, "an error is told", 0, false)
		r.Never(q, "nothing is taken from it", set)
		q = r.Q(a, "the file is at its end", facts(readBad, eof(true))...)
		r.ErrIs(q, "no error is told", 0, true)
		r.Never(q, "nothing is taken from it", set)
	}
}

func (r *R) youngRecord() {
	const n = 4096
	if a := r.An("datatree", "(*Tree).DumpMtree4YT", Opts{key: "ld", MaxTrip: 5000}); a != nil {
		q := r.Q(a, "nothing fails", writeOK...)
		ob := r.scn(q) + ": the youngest twig's tree"
		ss := q.line(q.start(), nil)
		if ss == nil {
			r.undecided(ob, "there is more than one way through")
		} else {
			m := q.Mach()
			var ps []*Sym
			for _, s := range ss {
				if q.Match(s, fWrite) != mNo {
					if x := m.ArgAt(s, 1); x != nil {
						ps = append(ps, m.pieces(x)...)
						r.site(s)
					}
				}
			}
			r.done(q, ob)
			bad := ""
			for i, p := range ps {
				if want := fmt.Sprintf("recv.mtree4YoungestTwig[%d][:]", i); i < n && p.String() != want {
					bad = fmt.Sprintf("piece %d is %s, expected %s", i, clip(p.String(), 200), want)
					break
				}
			}
			if bad == "" && len(ps) != n+1 {
				bad = fmt.Sprintf("%d pieces are written, expected %d", len(ps), n+1)
			}
			if bad == "" {
				if w := "meow.New32(0," + m.content(m.canon(append([]*Sym{}, ps[:n]...))).String() + ")"; ps[n].String() != w {
					bad = "the checksum is " + clip(ps[n].String(), 200) + ", expected " + clip(w, 200)
				}
			}
			switch {
			case bad == "":
				r.ok(ob)
			case hasUnknown(bad) || len(ps) < 100:
				r.undecided(ob, bad)
			default:
				r.fail(ob, a.rootNm, bad, a.rootNm)
			}
		}
		r.ErrIs(q, "no error is told", 0, true)
		r.writeFails(a)
	}
	if a := r.An("datatree", "(*Tree).LoadMtree4YT", Opts{key: "ld", MaxTrip: 5000}); a != nil {
		q := r.Q(a, "a whole record", facts(readOK, sumOK)...)
		ob := r.scn(q) + ": every node is read from where it was written"
		ss := q.line(q.start(), nil)
		m := q.Mach()
		if ss == nil {
			r.undecided(ob, "there is more than one way through")
		} else if _, form, end := q.inFile(ss); form == nil {
			r.undecided(ob, "what is read is not known")
		} else {
			r.same(q, "the record is as long as it was written", a.rootNm, fmt.Sprint(end), fmt.Sprint(n*32+4))
			bad := ""
			for _, s := range q.rootRets() {
				for i := 0; i < n && bad == ""; i++ {
					p := a.Place(fmt.Sprintf("recv.mtree4YoungestTwig[%d]", i))
					if p == nil {
						bad = "?"
						break
					}
					m.At(s, func() {
						if t := form(m.load(p)); t != fmt.Sprintf("F(%d,%d)", i*32, i*32+32) {
							bad = fmt.Sprintf("node %d is %s, expected F(%d,%d)", i, clip(t, 100), i*32, i*32+32)
						}
					})
				}
			}
			if r.done(q, ob) {
				switch {
				case bad == "":
					r.ok(ob)
				case bad == "?" || hasUnknown(bad):
					r.undecided(ob, bad)
				default:
					r.fail(ob, a.rootNm, bad, a.rootNm)
				}
			}
			// the sum: over the same, in the same order
			ob := r.scn(q) + ": the checksum in the file is compared with that of what was read"
			for _, s := range q.Find(equalP) {
				x, y := m.ArgAt(s, 0), m.ArgAt(s, 1)
				if x == nil || y == nil {
					continue
				}
				if strings.HasPrefix(x.name, "meow.") || strings.Contains(x.String(), "meow.") {
					x, y = y, x
				}
				bad := ""
				if t := form(x); t != fmt.Sprintf("F(%d,%d)", n*32, n*32+4) {
					bad = "what is compared with the checksum is " + clip(t, 100)
				} else if len(y.args) != 2 || !strings.HasPrefix(y.String(), "meow.New32(0,") {
					bad = "the checksum is compared with " + clip(form(y), 100)
				} else {
					at := 0
					for _, p := range m.pieces(y.args[1]) {
						if t := form(p); t != fmt.Sprintf("F(%d,%d)", at, at+32) {
							bad = fmt.Sprintf("the checksum is of %s at %d", clip(t, 100), at)
							break
						}
						at += 32
					}
					if bad == "" && at != n*32 {
						bad = fmt.Sprintf("the checksum is of %d bytes, expected %d", at, n*32)
					}
				}
				if !r.done(q, ob) {
					break
				}
				if bad == "" {
					r.ok(ob)
					r.site(s)
				} else {
					r.fail(ob, s.n.Where(), bad, s.n.Where())
				}
				break
			}
		}
		r.ErrIs(q, "no error is told", 0, true)
		r.ErrIs(r.Q(a, "the checksum is wrong", facts(readOK, sumBad)...), "an error is told", 0, false)
		r.ErrIs(r.Q(a, "it cannot be read", readBad...), "an error is told", 0, false)
	}
}

const fileJoin = "path/filepath.Join(%)"

func (r *R) saveTree() []string {
	a := r.An("datatree", "(*Tree).SaveMemToDisk", Opts{NoInline: []string{"(*datatree.Twig).Dump", "(*datatree.Tree).Dump%", "(*datatree.EntryFile).%", "(*datatree.TwigMtFile).%"}, key: "ld"})
	if a == nil {
		return nil
	}
	const dump = "(*datatree.Twig).Dump"
	q := r.Q(a, "")
	for _, x := range []string{"(*datatree.EntryFile).Flush(recv.entryFile)", "(*datatree.TwigMtFile).Flush(recv.twigMtFile)", "(*datatree.Tree).DumpNodes(recv, %)", "(*datatree.Tree).DumpMtree4YT(recv, %)"} {
		r.Must(q, "it is saved: "+x, P(x))
	}
	r.savesTwigs(q)
	r.Only(q, "a twig is saved under its own number", dump, dump+"(recv.activeTwigs{%}, %, %)")
	ob := r.scn(q) + ": the number saved is that of the twig"
	for _, s := range q.Find(dump) {
		r.site(s)
		k, t := q.EffArg(s, 0), q.EffArg(s, 1)
		if !r.done(q, ob) {
			break
		}
		if k == "recv.activeTwigs{"+t+"}" || k == "#0(recv.activeTwigs{"+t+"})" || strings.HasPrefix(k, "rangeval(") && t == strings.Replace(k, "rangeval(", "rangekey(", 1) {
			r.ok(ob)
		} else {
			r.fail(ob, s.n.Where(), "twig "+clip(k, 150)+" is saved under "+clip(t, 150), s.n.Where())
		}
	}
	errHandled(r, a, dump, "(*datatree.Tree).DumpNodes", "(*datatree.Tree).DumpMtree4YT", "os.OpenFile", "os.Create")
	return r.filesOf(q, []P{dump, "(*datatree.Tree).DumpNodes", "(*datatree.Tree).DumpMtree4YT"}, []int{2, 1, 1})
}

// savesTwigs: all active twigs are collected, and all that was collected is saved.
func (r *R) savesTwigs(q *Q) {
	const dump = "(*datatree.Twig).Dump"
	r.PerIter(q, "every twig of the list is saved", 0, dump)
	r.FullRange(q, "every twig of the list is saved", 0, dump)
	if len(q.Find("builtin.append(%, rangekey(recv.activeTwigs))")) > 0 {
		r.PerIter(q, "every active twig is in the list", 0, "builtin.append(%, rangekey(recv.activeTwigs))")
	}
	r.Bound(q, "the whole list is saved", 0, dump, "len(%)")
}

var fileForm = regexp.MustCompile(`^(?:#0\()?os\.(Open|OpenFile|Create)\((?:path/)?filepath\.Join\(<e\((recv|a2|[^"()]*)(?:\.dirName)?\) e\("([^"]*)"\)>\)(?:,(\d+),\d+)?\)\)?$`)

// filesOf: the names of the files the calls are given, "" where not known.
func (r *R) filesOf(q *Q, ps []P, arg []int) []string {
	m := q.Mach()
	names := make([]string, len(ps))
	for i, p := range ps {
		ob := r.scn(q) + ": the file of " + string(p)
		for _, s := range q.Find(p) {
			x := m.ArgAt(s, arg[i])
			if x == nil || !r.done(q, ob) {
				continue
			}
			r.site(s)
			t := m.num(x)
			n := fileForm.FindStringSubmatch(t)
			if n == nil {
				r.undecided(ob, "opened as "+clip(t, 200))
				break
			}
			names[i] = n[3]
			if n[1] == "OpenFile" {
				var f int
				fmt.Sscan(n[4], &f)
				if f&(os.O_TRUNC|os.O_CREATE) != os.O_TRUNC|os.O_CREATE || f&3 == 0 || f&os.O_APPEND != 0 {
					r.fail(ob, s.n.Where(), "what was in the file before stays, or the file cannot be made or written", s.n.Where())
					break
				}
			}
			r.ok(ob)
			break
		}
	}
	return names
}

// sameFiles: what is loaded is what was saved, each thing from its own file.
func (r *R) sameFiles(saved, loaded []string) {
	for i, x := range saved {
		ob := fmt.Sprintf("file %d is loaded from where it was saved, and is no other", i+1)
		if i >= len(loaded) || x == "" || loaded[i] == "" {
			continue
		}
		if loaded[i] != x {
			r.fail(ob, "datatree.LoadTree", "saved as "+x+", loaded from "+loaded[i])
			continue
		}
		bad := false
		for _, y := range saved[:i] {
			bad = bad || y == x
		}
		if bad {
			r.fail(ob, "(*datatree.Tree).SaveMemToDisk", "two things are saved as "+x)
		} else {
			r.ok(ob)
		}
	}
}

func (r *R) loadTree(saved []string) {
	a := r.An("datatree", "LoadTree", Opts{NoInline: []string{"datatree.New%", "(*datatree.Tree).Load%", "datatree.LoadTwigFromFile", "(*datatree.EntryFile).%", "(*datatree.TwigMtFile).%"}, key: "ld"})
	if a == nil {
		return
	}
	const one, nodes, young = "datatree.LoadTwigFromFile", "(*datatree.Tree).LoadNodes", "(*datatree.Tree).LoadMtree4YT"
	opened := []Fact{{"#1(os.Open(%))", V{k: vNil}}, {"#1(datatree.New%)", V{k: vNil}}, {nodes + "(%)", V{k: vNil}}, {young + "(%)", V{k: vNil}}}
	q := r.Q(a, "every file is whole", append([]Fact{{"#2(" + one + "(%))", V{k: vNil}}, {"==(#2(" + one + "(%)),io.EOF)", vb(false)}}, opened...)...)
	const set = P("mapset(%, #0(" + one + "(%)), %)")
	r.Then(q, "every twig read is put in place before the next", P(one), set, P(one))
	r.Only(q, "a twig is put in its own place", "mapset", set)
	r.Own(q, "every twig has a place of its own", set, 2)
	m := q.Mach()
	for _, s := range q.Find(set) {
		if v := m.pointeeSym(s, 2); v != nil {
			t := m.num(v)
			ob := r.scn(q) + ": what is put in place is the twig that was read"
			if !r.done(q, ob) {
				break
			}
			if strings.HasPrefix(t, "#1("+one+"(") {
				r.ok(ob)
			} else if hasUnknown(t) {
				r.undecided(ob, clip(t, 200))
			} else {
				r.fail(ob, s.n.Where(), clip(t, 200), s.n.Where())
			}
			break
		}
	}
	r.NoExit(q, "loading goes on to the end of the file")
	// the youngest twig
	up := func(b bool) []Fact {
		return append([]Fact{{"<(%.youngestTwigID,#0(" + one + "(%)))||<(phi{%},#0(" + one + "(%)))||<=(phi{%},#0(" + one + "(%)))||<=(%.youngestTwigID,#0(" + one + "(%)))", vb(b)},
			{"<(#0(" + one + "(%)),%.youngestTwigID)||<(#0(" + one + "(%)),phi{%})||<=(#0(" + one + "(%)),phi{%})||<=(#0(" + one + "(%)),%.youngestTwigID)", vb(!b)},
			{"#2(" + one + "(%))", V{k: vNil}}, {"==(#2(" + one + "(%)),io.EOF)", vb(false)}}, opened...)
	}
	const yt = P("=Tree.youngestTwigID(%, #0(" + one + "(%)))")
	r.Then(r.Q(a, "a twig younger than those before", up(true)...), "it is the youngest", P(one), yt, P(one))
	r.Never(r.Q(a, "a twig older than one before", up(false)...), "it is not the youngest", "=Tree.youngestTwigID(%, #0("+one+"(%)))")
	r.Only(q, "nothing else is the youngest twig", "=Tree.youngestTwigID", yt, "=Tree.youngestTwigID(%, 0)")
	// the end
	q = r.Q(a, "there are no more twigs", append([]Fact{{"#2(" + one + "(%))", V{k: vNonNil}}, {"==(#2(" + one + "(%)),io.EOF)", vb(true)}}, opened...)...)
	r.Returns(q, "the tree is loaded")
	r.NoPanic(q, "nothing is wrong", "")
	for _, x := range []P{one, nodes, young, "datatree.NewEntryFile(a0, a1, %)", "datatree.NewTwigMtFile(a0, a1, %)"} {
		r.Must(q, "it is loaded: "+string(x), x)
	}
	for _, f := range []string{"mtree4YTChangeStart", "mtree4YTChangeEnd"} {
		r.Must(q, "no leaf of the youngest twig counts as changed: "+f, P("=Tree."+f+"(%, -1)"))
		r.Only(q, "no leaf of the youngest twig counts as changed: "+f, P("=Tree."+f), P("=Tree."+f+"(%, -1)"))
	}
	r.Must(q, "the tree knows its directory", "=Tree.dirName(%, a2)")
	loaded := r.filesOf(q, []P{one, nodes, young}, []int{0, 1, 1})
	r.sameFiles(saved, loaded)
	q = r.Q(a, "a twig cannot be read", append([]Fact{{"#2(" + one + "(%))", V{k: vNonNil}}, {"==(#2(" + one + "(%)),io.EOF)", vb(false)}}, opened...)...)
	r.NoReturn(q, "the tree is refused")
	r.Never(q, "nothing is taken from it", "mapset")
	errHandled(r, a, nodes, young, "os.Open", "datatree.New%")
}
