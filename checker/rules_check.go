package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register("P34", "every comparison of the self checks, with the exact bytes that go into it, on all paths of all rounds (contents of memory by abstract interpretation); effects of a scan by conditional constant propagation", p34)
}

func p34(r *R) {
	r.scanAll()
	r.chainCheck()
	r.hashCheck()
	r.treesChecked()
}

const (
	itNew   = "IndexTree.ReverseIterator(recv.idxTree, recv.startKey, recv.endKey)"
	itS     = "IndexTree.ReverseIterator(recv.idxTree,recv.startKey,recv.endKey)"
	itKey   = "IteratorUI64.Key(" + itS + ")"
	itVal   = "IteratorUI64.Value(" + itS + ")"
	itValid = "IteratorUI64.Valid(" + itS + ")"
	itNext  = P("IteratorUI64.Next(" + itS + ")")
	entryAt = "DataTree.ReadEntry(recv.datTree[3]," + itVal + ")"
)

// scanFacts: the iterator is at a key of shard 3, or at a guard, or at its end.
func scanFacts(state string) []Fact {
	fs := []Fact{{"len(" + itKey + ")", vi(8)}, {itKey + "[7]||" + itKey + "[7]@", vi(100)}, {"types.GetShardID(" + itKey + ")", vi(3)}}
	atStart := "bytes.Equal(" + itKey + ",recv.startKey)||bytes.Equal(recv.startKey," + itKey + ")"
	cmp := "bytes.Compare(" + itKey + ",recv.startKey)||bytes.Compare(recv.startKey," + itKey + ")"
	switch state {
	case "end":
		fs = append(fs, Fact{itValid, vb(false)})
	case "start":
		fs = append(fs, Fact{itValid, vb(true)}, Fact{atStart, vb(true)}, Fact{cmp, vi(0)})
	case "key":
		fs = append(fs, Fact{itValid, vb(true)}, Fact{atStart, vb(false)}, Fact{cmp, vr(1, 1)})
	}
	return fs
}

// walk: what every scan over the index has to do.
func (r *R) walk(a *Analysis, each P) {
	q := r.Q(a, "", scanFacts("")...)
	r.Must(q, "the scan is over all keys between the guards", itNew)
	r.After(q, "the iterator is closed", itNew, "IteratorUI64.Close("+itS+")")
	r.NotAfter(q, "a closed iterator is not used", "IteratorUI64.Close("+itS+")", itNext+" || IteratorUI64.Key || IteratorUI64.Value || IteratorUI64.Valid")
	r.Only(q, "there is no other scan", "IndexTree.ReverseIterator || IndexTree.Iterator", itNew)
	r.Only(q, "the entry of a key is looked up in its shard", "DataTree.ReadEntry", "DataTree.ReadEntry(recv.datTree[3], "+itVal+")")
	r.Never(q, "a scan changes nothing", "IndexTree.Set || IndexTree.Delete || IndexTree.SetPruneHeight || DataTree.AppendEntry || DataTree.AppendEntryRawBytes || DataTree.DeactiviateEntry || DataTree.EvictTwig || DataTree.PruneTwigs")
	q = r.Q(a, "at a key", scanFacts("key")...)
	r.Must(q, "the scan goes into its loop", each)
	r.Then(q, "a key is dealt with before the next one", itNew, each, itNext)
	r.Then(q, "the next key is dealt with as well", itNext, each, itNext)
	r.Then(q, "the scan moves on", each, itNext, each)
	r.NoExit(q, "the scan goes on as long as there are keys")
	q = r.Q(a, "at the guard below all keys", scanFacts("start")...)
	r.Never(q, "the guard is no key", each)
	q = r.Q(a, "no key is left", scanFacts("end")...)
	r.Never(q, "nothing is dealt with", each)
	r.Returns(q, "the scan ends")
}

// NoExit: in this scenario the function is not left normally.
func (r *R) NoExit(q *Q, what string) { r.NoReturn(q, what) }

func (r *R) scanAll() {
	a := r.An("", "(*MoeingADS).ScanAll", Opts{NoInline: []string{"types.GetShardID"}, key: "scan"})
	if a == nil {
		return
	}
	r.walk(a, P("dyn:a0("+itKey+", "+entryAt+".Value)"))
	r.Only(r.Q(a, "", scanFacts("")...), "a key is handed over with its own value", "dyn:a0", P("dyn:a0("+itKey+", "+entryAt+".Value)"))
}

func (r *R) chainCheck() {
	a := r.An("", "(*MoeingADS).CheckConsistency", Opts{NoInline: []string{"types.GetShardID"}, key: "scan"})
	if a == nil {
		return
	}
	nk := entryAt + ".NextKey"
	cmp := P("bytes.Equal(" + nk + ") || bytes.Equal(%, " + nk + ") || bytes.Compare(" + nk + ") || bytes.Compare(%, " + nk + ")")
	same := func(b bool) []Fact {
		n := int64(0)
		if !b {
			n = 1
		}
		return append(scanFacts("key"), Fact{"bytes.Equal(DataTree.ReadEntry(%).NextKey,%)||bytes.Equal(%,DataTree.ReadEntry(%).NextKey)", vb(b)}, Fact{"bytes.Compare(DataTree.ReadEntry(%).NextKey,%)||bytes.Compare(%,DataTree.ReadEntry(%).NextKey)", vi(n)})
	}
	q := r.Q(a, "", scanFacts("")...)
	if len(q.Find(cmp)) == 0 {
		if r.done(q, "comparisons") {
			r.fail(r.scn(q)+": the next key of each entry is compared", q.a.rootNm, "the next key an entry names is compared with nothing", q.a.rootNm)
		}
		return
	}
	r.walk(a, cmp)
	q = r.Q(a, "an entry names another key", same(false)...)
	r.NotAfter(q, "the scan does not go on", cmp, itNext)
	r.NoReturn(q, "it is not passed")
	q = r.Q(a, "an entry names the key that follows it", same(true)...)
	r.NoPanic(q, "it is passed", "")
	// what it is compared with: the upper guard first, then the key before
	first := r.Q(a, "the first key", append(scanFacts("key"))...)
	for _, s := range first.Find(cmp) {
		for i := 0; i < 2; i++ {
			if q.EffArg(s, i) != nk && !strings.Contains(q.EffArg(s, i), ".NextKey") {
				r.carried(first, s, i)
			}
		}
	}
}

// carried: argument i of s is the upper guard in the first round, and the key
// of the round before afterwards.
func (r *R) carried(q *Q, s State, i int) {
	ob := r.scn(q) + ": an entry's next key is compared with the key met before it, the first with the upper guard"
	r.pats = []string{"recv.endKey", "MoeingADS.endKey"}
	inits, steps, is := q.a.loopVar(s.n.Eff().args[i])
	if r.done(q, ob) && !is && strings.HasPrefix(q.EffArg(s, i), "recv.") {
		r.fail(ob, s.n.Where(), "the next key of every entry is compared with "+q.EffArg(s, i), s.n.Where())
		return
	}
	if !is {
		r.undecided(ob, "compared with "+clip(q.EffArg(s, i), 100))
		return
	}
	if !r.done(q, ob) {
		return
	}
	r.site(s)
	for _, y := range inits {
		if y.String() != "recv.endKey" {
			r.fail(ob, s.n.Where(), "the next key of the first entry is compared with "+clip(y.String(), 200), s.n.Where())
			return
		}
	}
	nexts := q.Find(itNext)
	for _, y := range steps {
		if y.String() != itKey {
			r.fail(ob, s.n.Where(), "the next key of an entry is later compared with "+clip(y.String(), 200), s.n.Where())
			return
		}
		ch := s.n.Chain()
		p := q.Path(nexts, func(t State) bool { return t.n.hdr == ch[len(ch)-1] }, func(t State) bool { return y.ins != nil && t.n.ins == y.ins })
		if p != nil {
			r.fail(ob, s.n.Where(), "the key is only taken after the iterator has moved on", q.Trace(p)...)
			return
		}
	}
	r.ok(ob)
}

// checked: each of the pairs is compared (in every round of the loop it is
// in), equal pairs are passed, and a difference ends the program.
func (r *R) checked(a *Analysis, name string, facts []Fact, stepped bool, pairs [][2]string) {
	r.uses(equalP)
	curAn = a
	if a.arrayCompares() {
		r.undecided(name+": comparisons", "there are comparisons of whole arrays")
		return
	}
	q := r.Q(a, name, append(append([]Fact{}, facts...), Fact{"bytes.Equal(%)", vb(true)}, Fact{"bytes.Compare(%)", vi(0)})...)
	m := q.Mach()
	got := map[string]map[string]bool{}
	var all []string
	for _, s := range q.Find(equalP) {
		x, y := m.ArgAt(s, 0), m.ArgAt(s, 1)
		if x == nil || y == nil {
			continue
		}
		k := [2]string{flat32(m.num(x)), flat32(m.num(y))}
		if k[0] > k[1] {
			k[0], k[1] = k[1], k[0]
		}
		t := k[0] + " = " + k[1]
		if got[t] == nil {
			got[t] = map[string]bool{}
			all = append(all, t)
		}
		got[t][s.key()] = true
	}
	r.Returns(q, "what fits is passed")
	r.NoPanic(q, "what fits is no mistake", "")
	bad := 0
	var way map[string]bool
	if stepped {
		way = q.way()
	}
	for i, w := range pairs {
		if w[0] > w[1] {
			w[0], w[1] = w[1], w[0]
		}
		ob := fmt.Sprintf("%s: comparison %d of %d: %s", r.scn(q), i+1, len(pairs), clip(w[0], 60))
		if !r.done(q, ob) {
			return
		}
		hits := got[w[0]+" = "+w[1]]
		if len(hits) == 0 {
			if hasUnknown(strings.Join(all, " ")) {
				r.undecided(ob, "some of what is compared is not known")
				return
			}
			if bad++; bad < 4 {
				r.fail(ob, q.a.rootNm, clip(w[0], 200)+" is never compared with "+clip(w[1], 300)+"; compared are "+clip(strings.Join(all, "; "), 600))
			}
			continue
		}
		hit := func(s State) bool { return hits[s.key()] }
		var p []State
		if way != nil {
			for k := range hits {
				if way[k] {
					hits = nil
					break
				}
			}
			if hits == nil {
				r.ok(ob)
				continue
			}
		}
		if stepped {
			p = q.Path([]State{q.start()}, hit, func(t State) bool { return t.n.kind == nodeRet && t.n.c == q.a.root })
		} else {
			for _, s := range q.Find(equalP) {
				ch := s.n.Chain()
				if !hit(s) || len(ch) == 0 {
					continue
				}
				l := ch[0]
				var from []State
				for _, h := range q.All() {
					if h.n.hdr == l {
						for _, t := range q.Next(h) {
							if t.n.InLoop(l) {
								from = append(from, t)
							}
						}
					}
				}
				p = q.Path(from, func(t State) bool { return hit(t) || !t.n.InLoop(l) }, func(t State) bool { return t.n.hdr == l })
				r.site(s)
				break
			}
		}
		if p != nil {
			r.fail(ob, p[len(p)-1].n.Where(), "it goes on without comparing "+clip(w[0], 200)+" with "+clip(w[1], 200), q.Trace(p)...)
			continue
		}
		r.ok(ob)
	}
	q = r.Q(a, name+", a difference", append(append([]Fact{}, facts...), Fact{"bytes.Equal(%)", vb(false)}, Fact{"bytes.Compare(%)", vi(1)})...)
	ob := r.scn(q) + ": a difference is not passed"
	for _, s := range q.Find(equalP) {
		ch := s.n.Chain()
		p := q.Path([]State{s}, func(State) bool { return false }, func(t State) bool {
			return t.n.kind == nodeRet && t.n.c == q.a.root || len(ch) > 0 && t.n.hdr == ch[len(ch)-1]
		})
		if !r.done(q, ob) {
			return
		}
		if p != nil {
			r.fail(ob, s.n.Where(), "the check goes on after a difference", q.Trace(p)...)
			return
		}
	}
	r.ok(ob)
}

// way: the states of the one way through, if there is only one.
func (q *Q) way() map[string]bool {
	w := map[string]bool{}
	for s := q.start(); ; {
		if w[s.key()] {
			return nil
		}
		w[s.key()] = true
		ns := q.Next(s)
		if len(ns) == 0 {
			return w
		}
		if len(ns) > 1 {
			return nil
		}
		s = ns[0]
	}
}

var byteNum = regexp.MustCompile(`\bb\((\d+)\)`)

func flat32(s string) string {
	s = byteNum.ReplaceAllStringFunc(s, func(t string) string {
		n, _ := strconv.Atoi(t[2 : len(t)-1])
		return fmt.Sprintf("0x%02x", n)
	})
	return strings.ReplaceAll(s, "}[:32]", "}[:]")
}

func (r *R) hashCheck() {
	o := Opts{key: "selfcheck", MaxTrip: 5}
	a := r.An("datatree", "CheckHashConsistency", o)
	if a == nil {
		return
	}
	const t = "a0.activeTwigs{rangekey(a0.activeTwigs)}"
	var ps [][2]string
	for i := 0; i < 4; i++ {
		hi, lo := fmt.Sprint(64*i+64), fmt.Sprint(64*i)
		if i == 3 {
			hi = ""
		}
		if i == 0 {
			lo = ""
		}
		ps = append(ps, [2]string{fmt.Sprintf("%s.activeBitsMTL1[%d][:]", t, i), fmt.Sprintf("sha256(<0x08 %s.activeBits[%s:%s]>)", t, lo, hi)})
	}
	for i := 0; i < 2; i++ {
		ps = append(ps, [2]string{fmt.Sprintf("%s.activeBitsMTL2[%d][:]", t, i), fmt.Sprintf("sha256(<0x09 %s.activeBitsMTL1[%d][:] %s.activeBitsMTL1[%d][:]>)", t, 2*i, t, 2*i+1)})
	}
	ps = append(ps, [2]string{t + ".activeBitsMTL3[:]", "sha256(<0x0a " + t + ".activeBitsMTL2[0][:] " + t + ".activeBitsMTL2[1][:]>)"},
		[2]string{t + ".twigRoot[:]", "sha256(<0x0b " + t + ".leftRoot[:] " + t + ".activeBitsMTL3[:]>)"})
	noNodes, noTwigs := Fact{"rangeok(a0.nodes)", vb(false)}, Fact{"rangeok(a0.activeTwigs)", vb(false)}
	r.checked(a, "an active twig", []Fact{noNodes}, false, ps)

	// the nodes above the twigs
	for _, c := range []struct{ lv, n int64 }{{13, 0}, {13, 5}, {14, 2}, {17, 3}} {
		key := c.lv<<56 | c.n
		l, rt := 2*c.n, 2*c.n+1
		at := func(n int64) int64 { return (c.lv-1)<<56 | n }
		base := []Fact{noTwigs, {"rangekey(a0.nodes)", vi(key)}}
		self := "a0.nodes{rangekey(a0.nodes)}[:]"
		h := func(x, y string) [][2]string {
			return [][2]string{{self, fmt.Sprintf("sha256(<0x%02x %s %s>)", c.lv-1, x, y)}}
		}
		nd := func(n int64) string { return fmt.Sprintf("a0.nodes{%d}[:]", at(n)) }
		nm := fmt.Sprintf("node %d of level %d", c.n, c.lv)
		if c.lv > 13 {
			r.checked(a, nm, append(base, Fact{"has(a0.nodes,%)", vb(true)}), false, h(nd(l), nd(rt)))
			continue
		}
		tw := func(n int64) string { return fmt.Sprintf("a0.activeTwigs{%d}.twigRoot[:]", n) }
		r.checked(a, nm+" over two active twigs", append(base, Fact{"has(a0.activeTwigs,%)", vb(true)}), false, h(tw(l), tw(rt)))
		r.checked(a, nm+" over an evicted twig and an active one", append(base, Fact{fmt.Sprintf("has(a0.activeTwigs,%d)", l), vb(false)}, Fact{"has(a0.activeTwigs,%)", vb(true)}, Fact{"has(a0.nodes,%)", vb(true)}), false, h(nd(l), tw(rt)))
		r.checked(a, nm+" over the last twig", append(base, Fact{fmt.Sprintf("has(a0.activeTwigs,%d)", rt), vb(false)}, Fact{fmt.Sprintf("has(a0.nodes,%d)", at(rt)), vb(false)}, Fact{"has(a0.activeTwigs,%)", vb(true)}, Fact{"has(a0.nodes,%)", vb(true)}), false, h(tw(l), "datatree.NullTwig.twigRoot[:]"))
	}

	// the tree of the youngest twig
	o.key, o.MaxTrip = "selfcheck-mt", 1100
	if a = r.An("datatree", "CheckHashConsistency", o); a != nil {
		ps = nil
		for i := 1; i < 2048; i++ {
			lv := 0
			for n := i; n < 1024; n *= 2 {
				lv++
			}
			ps = append(ps, [2]string{fmt.Sprintf("a0.mtree4YoungestTwig[%d][:]", i), fmt.Sprintf("sha256(<0x%02x a0.mtree4YoungestTwig[%d][:] a0.mtree4YoungestTwig[%d][:]>)", lv, 2*i, 2*i+1)})
		}
		r.checked(a, "the tree of the youngest twig", []Fact{noNodes, noTwigs}, true, ps)
	}
}

// treesChecked: the check of the database checks the tree of every shard.
func (r *R) treesChecked() {
	a := r.An("", "(*MoeingADS).CheckHashConsistency", Opts{NoInline: []string{"datatree.CheckHashConsistency"}, MaxTrip: 1, key: "selfcheck"})
	if a == nil {
		return
	}
	q := r.Q(a, "every shard has a tree", Fact{"isa(recv.datTree[%],%datatree.Tree)", vb(true)})
	c := P("datatree.CheckHashConsistency(recv.datTree[K]%)")
	r.FullRange(q, "every shard's tree is checked", 0, c)
	r.PerIter(q, "no shard is left out", 0, c)
	r.Only(q, "it is that shard's tree", "datatree.CheckHashConsistency", c, "datatree.CheckHashConsistency(recv.datTree[0]||recv.datTree[1]||recv.datTree[2]||recv.datTree[3]||recv.datTree[4]||recv.datTree[5]||recv.datTree[6]||recv.datTree[7])")
}
