package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register("P07", "change propagation: symbolic marks of every changed leaf and bit, and enumeration of the hash jobs of each level by constant propagation of representative ranges", p07)
}

var treeOpts = Opts{NoInline: []string{"(*datatree.HPFile).%", "(*datatree.Hasher).%", "(*datatree.EntryFile).%", "(*datatree.TwigMtFile).%", "datatree.EntryToBytes", "datatree.SNListToBytes", "datatree.CopyNullTwig", "datatree.syncMTree", "datatree.EntryFromRawBytes", "datatree.ExtractSerialNum"}}

// job is a hash job put to the hasher.
type job struct {
	level, target, a, b string
	s                   State
}

func (q *Q) jobs() []job {
	var out []job
	for _, s := range q.Find("(*datatree.Hasher).Add") {
		if len(s.n.Eff().args) >= 5 {
			out = append(out, job{q.EffArg(s, 1), q.EffArg(s, 2), q.EffArg(s, 3), q.EffArg(s, 4), s})
		}
	}
	return out
}

func p07(r *R) {
	syncMTreeRule(r)
	r07marks(r)
	r07block(r)
}

var jobAt = regexp.MustCompile(`^(.*)\[(\d+)\]\[:\]$`)

// tree11 checks the jobs of a scenario against the ancestors of leaves s to e.
func (r *R) tree11(q *Q, mt string, s, e int) {
	curAn = q.a
	ob := r.scn(q) + ": exactly the right nodes are hashed"
	r.pats = []string{"(*datatree.Hasher).Add(", mt}
	have := map[int]State{}
	bases := map[string]bool{}
	for _, j := range q.jobs() {
		t := jobAt.FindStringSubmatch(j.target)
		if t == nil || mt != "" && t[1] != mt {
			if mt == "" {
				r.undecided(ob, "a job whose target is "+clip(j.target, 100))
				return
			}
			continue
		}
		n, _ := strconv.Atoi(t[2])
		bases[t[1]] = true
		lv := 0
		for m := n; m < 1024; m *= 2 {
			lv++
			if m == 0 {
				break
			}
		}
		r.site(j.s)
		if !r.done(q, ob) {
			return
		}
		if j.level != fmt.Sprint(lv) || j.a != fmt.Sprintf("%s[%d][:]", t[1], 2*n) || j.b != fmt.Sprintf("%s[%d][:]", t[1], 2*n+1) {
			r.fail(ob, j.s.n.Where(), fmt.Sprintf("node %d is hashed from %s and %s at level %s, should be from nodes %d and %d at level %d", n, j.a, j.b, j.level, 2*n, 2*n+1, lv), j.s.n.Where())
			return
		}
		have[n] = j.s
	}
	if !r.done(q, ob) {
		return
	}
	if len(bases) > 1 {
		r.undecided(ob, "jobs on more than one tree")
		return
	}
	for l := 0; l <= 10; l++ {
		for n := (2048 + s) >> (l + 1); n <= (2048+e)>>(l+1); n++ {
			if _, ok := have[n]; !ok {
				r.fail(ob, q.a.rootNm, fmt.Sprintf("leaves %d to %d have changed, and node %d of level %d is not hashed anew", s, e, n, l+1))
				return
			}
		}
	}
	r.ok(ob)
	// every child is hashed, and the hasher run, before its parent is
	lvl := func(l int) P {
		var alts []string
		for n := (2048 + s) >> (l + 1); n <= (2048+e)>>(l+1); n++ {
			for b := range bases {
				alts = append(alts, fmt.Sprintf("(*datatree.Hasher).Add(%%, %d, %s[%d][:])", l, b, n))
			}
		}
		return P(strings.Join(alts, " || "))
	}
	for l := 0; l < 10; l++ {
		r.NotAfter(q, fmt.Sprintf("the hashes of level %d are there before those of level %d are computed", l+1, l+2), lvl(l), lvl(l+1), "(*datatree.Hasher).Run")
		r.NotAfter(q, fmt.Sprintf("level %d is not hashed after level %d", l+1, l+2), lvl(l+1), lvl(l))
	}
	r.After(q, "the last hash is computed", lvl(10), "(*datatree.Hasher).Run")
}

// syncMTreeRule: for representative ranges of changed leaves, the jobs are
// those of all ancestors, level by level.
func syncMTreeRule(r *R) {
	rngs := [][2]int{{0, 0}, {5, 5}, {5, 6}, {6, 7}, {7, 8}, {2047, 2047}, {2046, 2047}, {1023, 1024}, {100, 109}}
	if r.thorough {
		for i := 0; i < 2048; i += 37 {
			rngs = append(rngs, [2]int{i, min(i+i%23, 2047)})
		}
		rngs = append(rngs, [2]int{0, 99}, [2]int{1948, 2047})
	}
	if a := r.An("datatree", "syncMTree", treeOpts); a != nil {
		for _, c := range rngs {
			r.tree11(r.Q(a, fmt.Sprintf("leaves %d to %d changed", c[0], c[1]), Fact{"a1", vi(int64(c[0]))}, Fact{"a2", vi(int64(c[1]))}), "", c[0], c[1])
		}
	}
	o := treeOpts
	o.NoInline = nil
	for _, n := range treeOpts.NoInline {
		if !strings.Contains(n, "syncMTree") {
			o.NoInline = append(o.NoInline, n)
		}
	}
	o.key = "whole"
	if a := r.An("datatree", "(*Tree).EndBlock", o); a != nil {
		for _, c := range rngs[:3] {
			r.tree11(r.Q(a, fmt.Sprintf("leaves %d to %d changed", c[0], c[1]), Fact{"recv.mtree4YTChangeStart", vi(int64(c[0]))}, Fact{"recv.mtree4YTChangeEnd", vi(int64(c[1]))}), "recv.mtree4YoungestTwig", c[0], c[1])
		}
	}
}

// r07block: what EndBlock hashes.
func r07block(r *R) {
	a := r.An("datatree", "(*Tree).EndBlock", treeOpts)
	if a == nil {
		return
	}
	const add, run = "(*datatree.Hasher).Add", "(*datatree.Hasher).Run"
	q := r.Q(a, "leaves have changed", Fact{"recv.mtree4YTChangeStart", vr(0, 2047)})
	youngest(r, q)
	r.Must(q, "the changed leaves are carried up", "datatree.syncMTree(recv.mtree4YoungestTwig%, recv.mtree4YTChangeStart||recv.mtree4YTChangeStart@, recv.mtree4YTChangeEnd||recv.mtree4YTChangeEnd@)")
	r.Only(q, "the changed leaves are those noted", "datatree.syncMTree", "datatree.syncMTree(recv.mtree4YoungestTwig%, recv.mtree4YTChangeStart||recv.mtree4YTChangeStart@, recv.mtree4YTChangeEnd||recv.mtree4YTChangeEnd@)")
	r.Before(q, "the twig's left root is taken over", "builtin.copy(recv.activeTwigs{recv.youngestTwigID}.leftRoot[:], recv.mtree4YoungestTwig[1][:]) || =Twig.leftRoot(recv.activeTwigs{recv.youngestTwigID}.leftRoot, recv.mtree4YoungestTwig[1])", add+"(%, 11)")
	r.NotAfter(q, "the left root is taken over when it is there", "builtin.copy(%.leftRoot[:]) || =Twig.leftRoot(recv.activeTwigs%)", "datatree.syncMTree")
	r.Must(q, "the range of changed leaves is taken back", "=Tree.mtree4YTChangeStart(recv.mtree4YTChangeStart, -1)")

	q = r.Q(a, "no leaf has changed", Fact{"recv.mtree4YTChangeStart", vi(-1)})
	r.Never(q, "no part of the tree is hashed for the range before the first leaf", "datatree.syncMTree")

	q = r.Q(a, "")
	r.PerIter(q, "every touched piece is gone through", 0, "builtin.append(%, rangekey(recv.touchedPosOf512b))")
	r.Never(q, "a right child below the edge is not made up", "builtin.copy(%, datatree.NullTwig%)")
	for p := int64(0); p < 4; p++ {
		q := r.Q(a, fmt.Sprintf("piece %d of a twig is touched", p), Fact{"rem(%,4)", vi(p)})
		w := fmt.Sprintf(add+"(%%, 8, recv.activeTwigs{quo(%%[K],4)}.activeBitsMTL1[%d][:], recv.activeTwigs{quo(%%[K],4)}.activeBits[%d:%d], recv.activeTwigs{quo(%%[K],4)}.activeBits[%d:%s])", p, 64*p, 64*p+32, 64*p+32, map[bool]string{true: "||256", false: fmt.Sprint(64*p + 64)}[p == 3])
		if p == 0 {
			w = strings.Replace(w, "activeBits[0:32]", "activeBits[:32]||%.activeBits[0:32]", 1)
		}
		if p == 3 {
			w = strings.Replace(w, "activeBits[224:||256]", "activeBits[224:]||%.activeBits[224:256]", 1)
		}
		r.PerIter(q, "its bits are hashed", 0, P(w))
		r.FullRange(q, "all touched pieces are hashed", 0, P(w))
		r.Only(q, "the bits are hashed in their order, into their place", add+"(%, 8)", P(w))
	}
	for p := int64(0); p < 2; p++ {
		q := r.Q(a, fmt.Sprintf("half %d of a twig's bits is touched", p), Fact{"rem(%,2)", vi(p)})
		w := P(fmt.Sprintf(add+"(%%, 9, recv.activeTwigs{quo(%%[K],2)}.activeBitsMTL2[%d][:], recv.activeTwigs{quo(%%[K],2)}.activeBitsMTL1[%d][:], recv.activeTwigs{quo(%%[K],2)}.activeBitsMTL1[%d][:])", p, 2*p, 2*p+1))
		r.PerIter(q, "its pieces are hashed", 0, w)
		r.FullRange(q, "all touched halves are hashed", 0, w)
		r.Only(q, "they are hashed in their order, into their place", add+"(%, 9)", w)
	}
	l3 := P(add + "(%, 10, recv.activeTwigs{%[K]}.activeBitsMTL3[:], recv.activeTwigs{%[K]}.activeBitsMTL2[0][:], recv.activeTwigs{%[K]}.activeBitsMTL2[1][:])")
	top := P(add + "(%, 11, recv.activeTwigs{%[K]}.twigRoot[:], recv.activeTwigs{%[K]}.leftRoot[:], recv.activeTwigs{%[K]}.activeBitsMTL3[:])")
	for _, w := range []P{l3, top} {
		r.PerIter(q, "every touched twig is hashed", 0, w)
		r.FullRange(q, "all touched twigs are hashed", 0, w)
	}
	r.Only(q, "the root of a twig's bits is over its two halves", add+"(%, 10)", l3)
	r.Only(q, "the root of a twig is over its entries and its bits", add+"(%, 11)", top)
	for l := 8; l < 11; l++ {
		r.NotAfter(q, fmt.Sprintf("level %d is computed before level %d", l, l+1), P(fmt.Sprintf(add+"(%%, %d)", l)), P(fmt.Sprintf(add+"(%%, %d)", l+1)), run)
		r.NotAfter(q, fmt.Sprintf("level %d comes before level %d", l, l+1), P(fmt.Sprintf(add+"(%%, %d)", l+1)), P(fmt.Sprintf(add+"(%%, %d)", l)))
	}
	r.After(q, "the last roots of twigs are computed", top, run)
	// the lists handed up
	up := r.Q(a, "a parent is not in the list yet", Fact{"==(quo(%[K],2),%[%-1%])", vb(false)}, Fact{"==(%[%-1%],quo(%[K],2))", vb(false)}, Fact{"has(recv.%)", vb(true)})
	for _, l := range []string{add + "(%, 8)", add + "(%, 9)", add + "(%, 11)", add + "(%, trunc8((K+12)))"} {
		r.eachRound(up, "the parents of what is hashed are hashed too ("+l[strings.Index(l, ",")+2:len(l)-1]+")", P(l), "builtin.append(%, quo(%[K],2)) || mapset(%, quo(%[K],2))")
	}
	higher(r, a)
	// what is done with the results
	q = r.Q(a, "")
	r.NotAfter(q, "what was touched is only forgotten when it was hashed", "=Tree.touchedPosOf512b(recv.touchedPosOf512b) || builtin.delete(recv.touchedPosOf512b) || builtin.clear(recv.touchedPosOf512b)", "builtin.append(%, rangekey(recv.touchedPosOf512b))")
	r.Must(q, "what was touched is forgotten", "=Tree.touchedPosOf512b(recv.touchedPosOf512b, makemap%) || builtin.delete(recv.touchedPosOf512b) || builtin.clear(recv.touchedPosOf512b)")
}

// eachRound: in a loop that comes to x, no round does so without y.
func (r *R) eachRound(q *Q, what string, x, y P) {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, s := range q.Find(x) {
		ch := s.n.Chain()
		if len(ch) == 0 {
			continue
		}
		r.site(s)
		l := ch[len(ch)-1]
		isHdr := func(t State) bool { return t.n.hdr == l }
		var hs []State
		for _, h := range q.All() {
			if isHdr(h) {
				hs = append(hs, h)
			}
		}
		p1 := q.Path(hs, func(t State) bool { return !t.n.InLoop(l) || q.must(y)(t) || (isHdr(t) && false) }, func(t State) bool { return t.n == s.n })
		if p1 == nil {
			continue
		}
		p2 := q.Path([]State{s}, func(t State) bool { return !t.n.InLoop(l) || q.must(y)(t) }, isHdr)
		if !r.done(q, ob) {
			return
		}
		if p2 != nil {
			r.fail(ob, s.n.Where(), what+": a round of the loop goes without "+string(y)+r.near(q, y), q.Trace(p2)...)
			return
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
}

var leafAt = regexp.MustCompile(`leaves4YoungestTwig\[(.*)\]\[0\]`)

// youngest: the new leaves of the youngest twig are hashed into their places.
func youngest(r *R, q *Q) {
	ws := q.Find("Hash.Write(%, recv.leaves4YoungestTwig[%][0]||recv.leaves4YoungestTwig[%][0]@)")
	if len(ws) == 0 {
		ob := r.scn(q) + ": the new leaves are hashed"
		r.pats = []string{"recv.leaves4YoungestTwig[0]"}
		if !r.done(q, ob) {
			return
		}
		for _, s := range q.All() {
			if ef := s.n.Eff(); ef != nil && !strings.HasPrefix(ef.name, "=") && !strings.Contains(ef.name, "Write") {
				if t := q.EffStr(s); leafAt.MatchString(t) && !strings.HasPrefix(t, "builtin.len") {
					r.undecided(ob, "no piecewise hash of recv.leaves4YoungestTwig[..][0]")
					return
				}
			}
		}
		r.fail(ob, q.a.rootNm, "no hash is fed with the first part of a new leaf")
		return
	}
	for _, w := range ws {
		m := leafAt.FindStringSubmatch(q.EffArg(w, 1))
		if m == nil {
			r.undecided(r.scn(q)+": the new leaves are hashed", "the index of a leaf is not to be seen")
			return
		}
		ix := m[1]
		q := r.Q(q.a, "a leaf has changed", append(append([]Fact{}, q.sc.facts...), Fact{ix, vr(0, 2047)}, Fact{"recv.leaves4YoungestTwig[" + ix + "][0]", V{k: vNonNil}}, Fact{"recv.leaves4YoungestTwig[" + ix + "][0]@", V{k: vNonNil}}, Fact{"len(recv.leaves4YoungestTwig)", vi(2048)})...)
		w0 := P("Hash.Write(%, recv.leaves4YoungestTwig[" + ix + "][0]||recv.leaves4YoungestTwig[" + ix + "][0]@)")
		w1 := P("Hash.Write(%, recv.leaves4YoungestTwig[" + ix + "][1]||recv.leaves4YoungestTwig[" + ix + "][1]@)")
		cp := P("builtin.copy(recv.mtree4YoungestTwig[(" + ix + "+2048)][:], Hash.Sum%)")
		r.eachRound(q, "the first part of the entry is followed by the second in the hash", w0, w1)
		r.NotAfter(q, "the parts of the entry are hashed in their order", w1, w0, "%.New")
		r.eachRound(q, "the hash of a new leaf goes to its place", w0, cp)
		r.Before(q, "the hash is over both parts of the entry", w1, "Hash.Sum")
		clr := P("=[](recv.leaves4YoungestTwig[" + ix + "][0], nil)")
		r.Only(q, "only the leaf that was hashed is taken off", "=[](recv.leaves4YoungestTwig[%][0])", clr)
		r.eachRound(q, "a leaf is hashed once", w0, clr)
		r.NotAfter(q, "a leaf is taken off after it was hashed", clr, w0, "sync/atomic.AddInt64 || =local(%, (%+%))")
		qn := r.Q(q.a, "a leaf has not changed", append([]Fact{{"recv.leaves4YoungestTwig[" + ix + "][0]||recv.leaves4YoungestTwig[" + ix + "][0]@", V{k: vNil}}}, q.sc.facts...)...)
		r.Never(qn, "its hash is left alone", cp)
		if strings.HasPrefix(ix, "sync/atomic.AddInt64(") && len(w.n.Chain()) > 0 {
			// the workers share the leaves out one by one
			r.Only(q, "no leaf is passed over when the workers share them out", "sync/atomic.AddInt64(%)", "sync/atomic.AddInt64(%, 1)")
			qe := r.Q(q.a, "all leaves are given out", append([]Fact{{ix, vr(2048, 4096)}}, q.sc.facts...)...)
			lw := w.n.Chain()[len(w.n.Chain())-1]
			pe := qe.Path(qe.Find("sync/atomic.AddInt64"), func(s State) bool { return !s.n.InLoop(lw) }, func(s State) bool { return s.n.ins == w.n.ins || s.n.hdr == lw })
			if r.done(qe, "x") && pe != nil {
				r.fail(r.scn(qe)+": a worker stops", pe[0].n.Where(), "the worker goes on with leaf "+ix+" of 2048", qe.Trace(pe)...)
			} else {
				r.ok(r.scn(qe) + ": a worker stops")
			}
			// a worker goes on as long as the leaf it takes is one that changed
			q := r.Q(q.a, "leaf 7 of 7 to 7 has changed", append([]Fact{{"recv.mtree4YTChangeStart||recv.mtree4YTChangeStart@", vi(7)}, {"recv.mtree4YTChangeEnd||recv.mtree4YTChangeEnd@", vi(7)}, {ix, vi(7)}}, q.sc.facts...)...)
			l := w.n.Chain()[len(w.n.Chain())-1]
			p := q.Path(q.Find("sync/atomic.AddInt64"), q.must(w0), func(s State) bool { return !s.n.InLoop(l) })
			r.pats = []string{ix}
			if r.done(q, "x") && p != nil {
				r.fail(r.scn(q)+": a worker does not stop before the changed leaves are done", w.n.Where(), "the worker's loop can be left with a changed leaf not hashed", q.Trace(p)...)
			} else {
				r.ok(r.scn(q) + ": a worker does not stop before the changed leaves are done")
			}
		}
	}
}

var localArg = regexp.MustCompile(`^(\$\w+)(@?)\[:\]$`)

// argIs: the bytes handed over as argument i of x are those of one of forms,
// directly or through a local array.
func (r *R) argIs(q *Q, what string, x P, i int, forms string) {
	r.uses(x, P(x.parse()[0].name+"("+forms+")"))
	curAn = q.a
	ob := r.scn(q) + ": " + what
	xs := q.Find(x)
	if len(xs) == 0 {
		if r.done(q, ob) {
			r.fail(ob, q.a.rootNm, what+": not reachable"+r.near(q, x))
		}
		return
	}
	for _, s := range xs {
		arg := q.EffArg(s, i)
		if m := localArg.FindStringSubmatch(arg); m != nil {
			v := m[1]
			set := P("=local(" + v + ", " + forms + ") || builtin.copy(" + v + "[:], " + strings.ReplaceAll(forms, "||", "[:]||") + "[:])")
			r.Before(q, what, set, x)
			r.Only(q, what+" (nothing else)", P("=local("+v+") || builtin.copy("+v+"[:])"), set, P("=local("+v+", zero)"))
			r.NotAfter(q, what+" (to the end)", set, P("=local("+v+", zero)"), x)
			continue
		}
		fs := ""
		for _, f := range strings.Split(forms, "||") {
			fs += "||" + f + "[:]"
		}
		if !r.done(q, ob) {
			return
		}
		if !globAlts(fs[2:], arg) {
			r.fail(ob, s.n.Where(), what+": it is "+arg, s.n.Where())
			return
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
}

// higher: the nodes above the twigs.
func higher(r *R, a *Analysis) {
	const add, run = "(*datatree.Hasher).Add", "(*datatree.Hasher).Run"
	const lo, hi = "864691128455135232", "936748722493063168"
	const at, below = "(72057594037927936*K+936748722493063168)", "(72057594037927936*K+864691128455135232)"
	job := P(add + "(%, trunc8((K+12)))")
	first, above := Fact{"==((K+13),13)", vb(true)}, Fact{"==((K+13),13)", vb(false)}
	q := r.Q(a, "the level above the twigs", first)
	r.Only(q, "the parent has its place", job, add+"(%, trunc8((K+12)), recv.nodes{or("+at+",%[K])}%[:])")
	r.PerIter(q, "every parent is hashed", 0, job)
	r.FullRange(q, "all parents are hashed", 0, job)
	for i, side := range []string{"left", "right"} {
		ix := []string{"(2*%[K])", "(2*%[K]+1)"}[i]
		q := r.Q(a, "the "+side+" twig is active", first, Fact{"has(recv.activeTwigs," + ix + ")", vb(true)})
		r.argIs(q, "its root is used", job, 3+i, "recv.activeTwigs{"+ix+"}.twigRoot")
		q = r.Q(a, "the "+side+" twig is not active any more", first, Fact{"has(recv.activeTwigs," + ix + ")", vb(false)}, Fact{"has(recv.nodes,or(" + ix + "," + lo + "))", vb(true)})
		r.argIs(q, "the root kept of it is used", job, 3+i, "*recv.nodes{or("+ix+","+lo+")}%||recv.nodes{or("+ix+","+lo+")}%")
		q = r.Q(a, "there is no "+side+" twig", first, Fact{"has(recv.activeTwigs," + ix + ")", vb(false)}, Fact{"has(recv.nodes,or(" + ix + "," + lo + "))", vb(false)})
		if i == 1 {
			r.argIs(q, "the root of the null twig is used", job, 3+i, "datatree.NullTwig.twigRoot")
		}
	}
	q = r.Q(a, "the levels further up", above)
	r.Only(q, "the parent is hashed from its two children", job, add+"(%, trunc8((K+12)), recv.nodes{or("+at+",%[K])}%[:], recv.nodes{or((2*%[K]),"+below+")}%[:], recv.nodes{or((2*%[K]+1),"+below+")}%[:])")
	r.PerIter(q, "every parent is hashed", 0, job)
	r.FullRange(q, "all parents are hashed", 0, job)
	r.Bound(q, "the levels go up to the root", 1, job, "(-math/bits.LeadingZeros64(recv.youngestTwigID)+64)")
	r.ByRound(q, "a level is computed before the one above it", 1, job, run)
	q = r.Q(a, "a parent is not there yet", Fact{"has(recv.nodes,or(" + at + ",%[K]))", vb(false)})
	r.eachBefore(q, "it is made", job, "mapset(recv.nodes, or("+at+",%[K]))")
	q = r.Q(a, "a parent is there already", Fact{"has(recv.nodes,or(" + at + ",%[K]))", vb(true)})
	r.Never(q, "it is not replaced", "mapset(recv.nodes, or("+at+",%[K]))")
	q = r.Q(a, "a right child is missing", above, Fact{"has(recv.nodes,or((2*%[K]+1)," + below + "))", vb(false)})
	r.eachBefore(q, "it is made a null node", job, "mapset(recv.nodes, or((2*%[K]+1),"+below+"))")
	r.eachBefore(q, "a null node has the null hash", "mapset(recv.nodes, or((2*%[K]+1),"+below+"))", "builtin.copy(%[:], datatree.NullNodeInHigherTree[%][:]) || =local(%, datatree.NullNodeInHigherTree[%])")
	q = r.Q(a, "a right child is there", above, Fact{"has(recv.nodes,or((2*%[K]+1)," + below + "))", vb(true)})
	r.Never(q, "it is not replaced", "mapset(recv.nodes, or((2*%[K]+1),"+below+"))")
	q = r.Q(a, "")
	r.Result(q, "the root is a node of the tree", 0, "*recv.nodes{%}%", "recv.nodes{%}%")
	higherEdge(r)
	r.Before(q, "levels are gone through before the twigs are dropped", "=Tree.touchedPosOf512b || builtin.delete(recv.touchedPosOf512b)", "builtin.delete(recv.activeTwigs)")
	r.NotAfter(q, "a twig is dropped when its root is hashed", "builtin.delete(recv.activeTwigs)", add)
}

// higherEdge: the way from the last twigs up to the root, node by node, for
// some numbers of the youngest twig.
func higherEdge(r *R) {
	o := treeOpts
	o.key, o.MaxTrip = "edge", 24
	a := r.An("datatree", "(*Tree).EndBlock", o)
	if a == nil {
		return
	}
	const add = "(*datatree.Hasher).Add"
	for _, y := range []int64{4, 5, 6, 12, 16, 37} {
		nodes := func(l int, n int64) int64 { return int64(l)<<56 | n }
		top := 12
		for 1<<(top-12) <= y {
			top++
		}
		fs := []Fact{{"recv.mtree4YTChangeStart", vi(-1)}, {"recv.youngestTwigID||recv.youngestTwigID@", vi(y)}}
		for i := int64(0); i <= y; i++ {
			fs = append(fs, Fact{fmt.Sprintf("has(recv.activeTwigs,%d)", i), vb(true)})
		}
		fs = append(fs, Fact{"has(recv.activeTwigs,%)", vb(false)}, Fact{fmt.Sprintf("has(recv.nodes,%d)", nodes(12, y+1)), vb(false)})
		for l := 13; l <= top; l++ {
			last := y >> (l - 12)
			fs = append(fs, Fact{fmt.Sprintf("@%d:%%[K]", l-13), vi(last)}, Fact{fmt.Sprintf("has(recv.nodes,%d)", nodes(l, last+1)), vb(false)})
		}
		fs = append(fs, Fact{"has(recv.nodes,%)", vb(true)})
		if y == 6 {
			q := r.Q(a, "twig 6 is the youngest, and twig 4 alone has changed", append([]Fact{{"@0:%[K]", vi(2)}, {fmt.Sprintf("has(recv.nodes,%d)", nodes(13, 3)), vb(false)}}, fs...)...)
			r.NoPanic(q, "no node on the way to the root is taken for a mistake", add+"(%, 12)")
		}
		q := r.Q(a, fmt.Sprintf("twig %d is the youngest, and has changed", y), fs...)
		r.NoPanic(q, "no node on the way to the root is taken for a mistake", add+"(%, 12)")
		for l := 13; l <= top; l++ {
			n := y >> (l - 12)
			j := fmt.Sprintf(add+"(%%, %d, recv.nodes{%d}%%[:]", l-1, nodes(l, n))
			if l > 13 {
				j += fmt.Sprintf(", recv.nodes{%d}%%[:], recv.nodes{%d}%%[:]", nodes(l-1, 2*n), nodes(l-1, 2*n+1))
				if 2*n+1 > y>>(l-13) {
					r.Exists(q, fmt.Sprintf("the missing right child of node %d of level %d is made", n, l), P(fmt.Sprintf("mapset(recv.nodes, %d)", nodes(l-1, 2*n+1))))
				}
			}
			r.Exists(q, fmt.Sprintf("node %d of level %d is hashed", n, l), P(j+")"))
		}
		r.Result(q, "the root is the one node of the highest level", 0, fmt.Sprintf("*recv.nodes{%d}%%", nodes(top, 0)), fmt.Sprintf("recv.nodes{%d}%%", nodes(top, 0)))
	}
}

// NoPanic: no panic is reached (after the loop x is in has been entered).
func (r *R) NoPanic(q *Q, what string, x P) {
	r.uses(x)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	hs := []State{q.start()}
	if x != "" {
		hs = nil
	}
	for i, xs := 0, q.Find(x); x != "" && i < len(xs); i++ {
		if ch := xs[i].n.Chain(); len(ch) > 0 {
			for _, h := range q.All() {
				if h.n.hdr == ch[0] {
					hs = append(hs, h)
				}
			}
		}
	}
	p := q.Path(hs, func(State) bool { return false }, func(t State) bool { return t.n.kind == nodePanic && t.n.ins != nil })
	if !r.done(q, ob) {
		return
	}
	if p != nil {
		r.fail(ob, p[len(p)-1].n.Where(), what+": a panic is reached", q.Trace(p)...)
		return
	}
	r.ok(ob)
}

// ByRound: once x has happened, y does before the loop (out loops further out)
// goes into its next round or ends.
func (r *R) ByRound(q *Q, what string, out int, x, y P) {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, s := range q.Find(x) {
		ch := s.n.Chain()
		if len(ch) <= out {
			continue
		}
		r.site(s)
		l := ch[len(ch)-1-out]
		p := q.Path([]State{s}, q.must(y), func(t State) bool { return t.n.hdr == l || isExit(t) })
		if !r.done(q, ob) {
			return
		}
		if p != nil {
			r.fail(ob, s.n.Where(), what+": the next round is reached without "+string(y)+r.near(q, y), q.Trace(p)...)
			return
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
}

// eachBefore: in every round of the loop around x, y comes before x.
func (r *R) eachBefore(q *Q, what string, x, y P) {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, s := range q.Find(x) {
		ch := s.n.Chain()
		if len(ch) == 0 {
			continue
		}
		r.site(s)
		l := ch[len(ch)-1]
		var hs []State
		for _, h := range q.All() {
			if h.n.hdr == l {
				hs = append(hs, h)
			}
		}
		p := q.Path(hs, q.must(y), func(t State) bool { return t.n == s.n })
		if !r.done(q, ob) {
			return
		}
		if p != nil {
			r.fail(ob, s.n.Where(), what+": a round of the loop comes here without "+string(y)+r.near(q, y), q.Trace(p)...)
			return
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
}

// r07marks: what appending and (de)activating an entry notes down.
func r07marks(r *R) {
	for _, e := range []struct{ fn, sn string }{{"(*Tree).AppendEntry", "a0.SerialNum"}, {"(*Tree).AppendEntryRawBytes", "a1"}} {
		a := r.An("datatree", e.fn, treeOpts)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		pos := "rem(" + e.sn + ",2048)"
		r.Must(q, "the piece of the new entry is touched", P("mapset(recv.touchedPosOf512b, quo("+e.sn+",512))"))
		r.Must(q, "the new entry is kept for its hash", P("=Tree.leaves4YoungestTwig[](recv.leaves4YoungestTwig["+pos+"]) || =[](recv.leaves4YoungestTwig["+pos+"][0])"))
		r.Only(q, "the new entry is kept in its place", "=Tree.leaves4YoungestTwig[](recv.leaves4YoungestTwig[%])", P("=Tree.leaves4YoungestTwig[](recv.leaves4YoungestTwig["+pos+"])"))
		r.Must(q, "the twig of the new entry is the youngest", P("=Tree.youngestTwigID(recv.youngestTwigID, quo("+e.sn+",2048))"))
		for _, c := range []struct {
			n    string
			f    int64
			s, e bool
		}{{"the first change", -1, true, true}, {"a further change", 7, false, true}} {
			q := r.Q(a, c.n+" since the last hashing", Fact{"recv.mtree4YTChangeStart", vi(c.f)}, Fact{"recv.mtree4YTChangeEnd", vi(8)}, Fact{pos, vi(9)})
			st := P("=Tree.mtree4YTChangeStart(recv.mtree4YTChangeStart, 9||" + pos + ")")
			en := P("=Tree.mtree4YTChangeEnd(recv.mtree4YTChangeEnd, 9||" + pos + ")")
			if c.s {
				r.Must(q, "the range of changes starts with it", st)
			} else {
				r.Never(q, "the range of changes keeps its start", "=Tree.mtree4YTChangeStart(recv.mtree4YTChangeStart)")
			}
			r.Must(q, "the range of changes ends with it", en)
			r.Only(q, "the range of changes ends with it only", "=Tree.mtree4YTChangeEnd(recv.mtree4YTChangeEnd)", en)
		}
		q = r.Q(a, "the twig is full", Fact{pos, vi(2047)}, Fact{"recv.mtree4YTChangeStart", vr(0, 2047)})
		sync := P("datatree.syncMTree(recv.mtree4YoungestTwig%)")
		app := P("(*datatree.TwigMtFile).AppendTwig")
		youngest(r, q)
		r.Must(q, "its leaves are carried up", sync)
		r.Before(q, "its tree is hashed before it is written", sync, app)
		r.Before(q, "the last entry is hashed, too", P("=Tree.mtree4YTChangeEnd(recv.mtree4YTChangeEnd, 2047||"+pos+")"), sync)
		r.Before(q, "its tree is hashed before it is given up", sync, "=Tree.mtree4YoungestTwig")
		r.Must(q, "its left root is taken over", P("builtin.copy(recv.activeTwigs{quo("+e.sn+",2048)}.leftRoot[:], recv.mtree4YoungestTwig[1][:]) || =Twig.leftRoot(recv.activeTwigs{quo("+e.sn+",2048)}.leftRoot, recv.mtree4YoungestTwig[1])"))
		r.Must(q, "the new twig is touched", P("mapset(recv.touchedPosOf512b, quo(("+e.sn+"+1),512))"))
	}
	for _, fn := range []string{"(*Tree).ActiviateEntry", "(*Tree).DeactiviateEntry"} {
		a := r.An("datatree", fn, treeOpts)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		r.Must(q, "the piece of the entry is touched", "mapset(recv.touchedPosOf512b, quo(a0,512))")
		r.Must(q, "the bit of the entry is changed", "=Twig.activeBits[](recv.activeTwigs{quo(a0,2048)}.activeBits[quo(rem(a0,2048),8)])")
		r.Only(q, "no other bit is changed", "=Twig.activeBits[]", "=Twig.activeBits[](recv.activeTwigs{quo(a0,2048)}.activeBits[quo(rem(a0,2048),8)])")
	}
}
