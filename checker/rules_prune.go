package main

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	register("P13", "pruning: the twigs chosen, the nodes dropped, the edge nodes kept and the places the files are cut at per number of twigs, and the order of batch and files, by conditional constant propagation over the interprocedural effects", p13)
}

// edgeRound is the number of the first node that is kept at a level.
func edgeRound(level int, end int64) int64 {
	n := end >> uint(level-12)
	if level > 12 {
		n &^= 1
	}
	return n
}

func topLevel(young int64) int {
	n := 0
	for x := young; x > 0; x >>= 1 {
		n++
	}
	return 12 + n
}

func p13(r *R) {
	p13nodes(r)
	p13files(r)
	p13choice(r)
}

func p13nodes(r *R) {
	type c struct{ start, end, young int64 }
	cases := []c{{0, 2, 3}, {0, 5, 9}, {5, 12, 40}, {6, 13, 100}, {8, 16, 16}, {3, 7, 8}}
	if r.thorough {
		for s := int64(0); s < 9; s++ {
			for e := s + 2; e < s+8; e++ {
				for _, y := range []int64{e + 1, 33, 300} {
					cases = append(cases, c{s, e, y})
				}
			}
		}
		cases = append(cases, c{1000, 1030, 1 << 30}, c{1<<20 + 1, 1<<20 + 7, 1 << 40})
	}
	a := r.An("datatree", "(*Tree).ReapNodes", Opts{NoInline: []string{"datatree.EdgeNodesToBytes"}, MaxTrip: 400, key: "reap"})
	if a == nil {
		return
	}
	const enc = "datatree.EdgeNodesToBytes"
	const del = "builtin.delete(recv.nodes)"
	for _, x := range cases {
		top := topLevel(x.young)
		q := r.Q(a, fmt.Sprintf("twigs %d to %d of %d", x.start, x.end, x.young), Fact{"a0", vi(x.start)}, Fact{"a1", vi(x.end)}, Fact{"recv.youngestTwigID", vi(x.young)}, Fact{"has(recv.nodes,%)", vb(true)}, Fact{"has(recv.nodes@,%)", vb(true)})
		// what is dropped
		r.uses(P(del))
		curAn = q.a
		gone := map[int64]bool{}
		bad, unk := "", false
		for _, s := range q.Find(P(del)) {
			r.site(s)
			v := q.sc.Eval(s.n.Eff().args[1], s.e)
			if !v.isC() {
				unk = true
				continue
			}
			gone[v.lo] = true
			if v.lo < 0 {
				continue // no node has such a place
			}
			level, n := int(v.lo>>56), v.lo&(1<<56-1)
			if level < 12 || level > top || n >= edgeRound(level, x.end) {
				bad = fmt.Sprintf("%s: node %d of level %d is dropped", s.n.Where(), n, level)
			}
		}
		ob := r.scn(q) + ": no node that is still needed is dropped"
		if bad != "" && r.done(q, ob) {
			r.fail(ob, q.a.rootNm, "no node from the edge on may be dropped: "+bad)
		} else if unk {
			r.undecided(ob, "which nodes are dropped is not known")
		} else if r.done(q, ob) {
			r.ok(ob)
		}
		ob = r.scn(q) + ": the nodes of the pruned twigs are dropped"
		bad = ""
		for l := 12; l <= top; l++ {
			for n := x.start >> uint(l-12); n < edgeRound(l, x.end); n++ {
				if !gone[int64(l)<<56|n] {
					bad = fmt.Sprintf("node %d of level %d is not", n, l)
				}
			}
		}
		if unk {
			r.undecided(ob, "which nodes are dropped is not known")
		} else if r.done(q, ob) {
			if bad != "" {
				r.fail(ob, q.a.rootNm, "the nodes of the pruned twigs are dropped: "+bad)
			} else {
				r.ok(ob)
			}
		}
		// what is kept
		var forms []string
		for l := 12; l <= top; l++ {
			k := strconv.FormatInt(int64(l)<<56|edgeRound(l, x.end), 10)
			f := fmt.Sprintf("{Pos:%s,Value:recv.nodes{%s}[:]}", k, k)
			forms = append(forms, f+"||"+strings.Replace(f, "}[:]}", "}@[:]}", 1))
		}
		app := P("=[](%[%], &$%)")
		r.numSequence(q, "the node at the edge of each level is kept, in order", app, 1, forms)
		r.Own(q, "every edge node is one of its own", app, 1)
		r.Result(q, "they are given as bytes", 0, enc+"(%)")
		none := r.Q(a, "the edge node is missing", Fact{"a0", vi(x.start)}, Fact{"a1", vi(x.end)}, Fact{"recv.youngestTwigID", vi(x.young)}, Fact{"has(recv.nodes,%)", vb(false)}, Fact{"has(recv.nodes@,%)", vb(false)}, Fact{"recv.nodes{%}", V{k: vNil}}, Fact{"recv.nodes@{%}", V{k: vNil}}, Fact{"recv.nodes{%}@", V{k: vNil}})
		r.NoReturn(none, "it does not go on without an edge node")
	}
}

func p13files(r *R) {
	const cut = "(*datatree.EntryFile).PruneHead"
	const cutMt = "(*datatree.TwigMtFile).PruneHead"
	const first = "(*datatree.TwigMtFile).GetFirstEntryPos"
	size := r.Const("datatree", "TwigMtSize", 12+(4095-1792)*32)
	for _, f := range []string{"PruneTwigs", "PruneFiles"} {
		end := "a1"
		if f == "PruneFiles" {
			end = "a0"
			if r.p.Fn("datatree", "(*Tree).PruneFiles") == nil {
				continue
			}
		}
		a := r.An("datatree", "(*Tree)."+f, Opts{NoInline: []string{"(*datatree.EntryFile).%", "(*datatree.TwigMtFile).%", "(*datatree.Tree).ReapNodes"}, key: "prune"})
		if a == nil {
			return
		}
		q := r.Q(a, "enough twigs", Fact{"a0", vi(3)}, Fact{end, vi(9)})
		r.Must(q, "the entries are cut", P(cut))
		r.Must(q, "the trees are cut", P(cutMt))
		r.NotAfter(q, "where the entries begin is read before it is cut off", P(cutMt), P(first))
		for n := int64(2); n <= 9; n++ {
			q := r.Q(a, fmt.Sprintf("up to twig %d", n), Fact{"a0", vi(map[bool]int64{true: 0, false: n}[f == "PruneTwigs"])}, Fact{end, vi(n)})
			r.Only(q, "the entries are cut before the first entry of the first twig that stays", P(cut), P(fmt.Sprintf("%s(recv.entryFile, %s(recv.twigMtFile,%d)||%s(recv.twigMtFile,%s))", cut, first, n, first, end)))
			r.uses(P(cutMt))
			curAn = q.a
			ob := r.scn(q) + ": the trees that are read again stay"
			keep := ((n - 1) &^ 1) * size
			bad := ""
			for _, s := range q.Find(P(cutMt)) {
				r.site(s)
				v := q.sc.Eval(s.n.Eff().args[1], s.e)
				if v.k != vInt {
					bad = "?"
				} else if v.hi > keep {
					bad = fmt.Sprintf("%s: cut at %s, and recovery reads from %d (twig %d) on", s.n.Where(), v, keep, (n-1)&^1)
					break
				}
			}
			if bad == "?" {
				r.undecided(ob, "where it is cut is not known")
			} else if r.done(q, ob) {
				if bad != "" {
					r.fail(ob, q.a.rootNm, "the trees that recovery reads stay: "+bad)
				} else {
					r.ok(ob)
				}
			}
		}
		if f == "PruneTwigs" {
			r.Result(q, "it gives the edge nodes", 0, "(*datatree.Tree).ReapNodes(recv,%,%)")
			r.Only(q, "the nodes of the same twigs are dropped", "(*datatree.Tree).ReapNodes", "(*datatree.Tree).ReapNodes(recv, a0||3, a1||9)")
			for _, n := range []int64{-1, 0, 1} {
				r.NoReturn(r.Q(a, fmt.Sprintf("%d twigs", n), Fact{"a0", vi(3)}, Fact{"a1", vi(3 + n)}), "too few twigs are refused")
			}
		}
	}
	if a := r.An("datatree", "(*Tree).TwigCanBePruned", Opts{}); a != nil {
		r.Result(r.Q(a, "an active twig", Fact{"has(recv.activeTwigs,a0)", vb(true)}, Fact{"recv.activeTwigs{a0}", V{k: vNonNil}}), "it stays", 0, "false")
		r.Result(r.Q(a, "a twig that is not active", Fact{"has(recv.activeTwigs,a0)", vb(false)}, Fact{"recv.activeTwigs{a0}", V{k: vNil}}), "it can go", 0, "true")
	}
}

func p13choice(r *R) {
	a := r.An("", "(*MoeingADS).PruneBeforeHeight", Opts{key: "prune"})
	if a == nil {
		return
	}
	const hgt, can, last = "MetaDB.GetTwigHeight", "DataTree.TwigCanBePruned", "MetaDB.GetLastPrunedTwig"
	const reap, cut = "DataTree.ReapNodes || DataTree.PruneTwigs", "DataTree.PruneFiles || DataTree.PruneTwigs"
	const open, closeB, commit = "IKVDB.OpenNewBatch", "IKVDB.CloseOldBatch", "MetaDB.Commit"
	const setEdge, delH, setLast, setPH = "MetaDB.SetEdgeNodes", "MetaDB.DeleteTwigHeight", "MetaDB.SetLastPrunedTwig", "IKVDB.SetPruneHeight"
	q := r.Q(a, "")
	// the choice
	ends := func(what string, p P, arg int, form string) string {
		got := ""
		r.uses(p)
		curAn = q.a
		ob := r.scn(q) + ": " + what
		for _, s := range q.Find(p) {
			x := s.n.Eff().args[arg]
			if s.n.Eff().name == "DataTree.PruneFiles" {
				x = s.n.Eff().args[1]
			}
			r.site(s)
			if got == "" {
				got = placeForms(x.String())
			}
			vs := q.stored(x)
			if len(vs) == 0 {
				vs = []string{x.String()}
			}
			for _, v := range vs {
				if !glob(form, v) {
					if strings.Contains(v, "phi{") || strings.Contains(v, "?") || strings.Contains(v, "~") || strings.HasPrefix(v, "$") {
						r.undecided(ob, "not known: "+clip(v, 200))
						return got
					}
					r.fail(ob, s.n.Where(), what+": "+clip(v, 200)+", expected "+form, s.n.Where())
					return got
				}
			}
		}
		if r.done(q, ob) && got != "" {
			r.ok(ob)
		}
		return got
	}
	only := func(what string, p P, form string) {
		var alts []P
		for i := 0; i < shards; i++ {
			alts = append(alts, P(strings.ReplaceAll(form, "{i}", itoa(int64(i)))))
		}
		r.Only(q, what, p, append(alts, P(strings.ReplaceAll(form, "{i}", "K")))...)
	}
	only("the first twig looked at is two after the last pruned one, and then each in turn", P(hgt), "MetaDB.GetTwigHeight(recv.meta, {i}, (K+MetaDB.GetLastPrunedTwig(recv.meta,{i})+2)||(MetaDB.GetLastPrunedTwig(recv.meta,{i})+2))")
	ends("it is looked at in turn", P(hgt), 2, "(K+MetaDB.GetLastPrunedTwig(recv.meta,K)+2)")
	only("the twig whose height is known is the one that must be inactive", P(can), "DataTree.TwigCanBePruned(recv.datTree[{i}], (K+MetaDB.GetLastPrunedTwig(recv.meta,{i})+2)||(MetaDB.GetLastPrunedTwig(recv.meta,{i})+2))")
	for _, x := range []struct {
		name string
		f    []Fact
	}{
		{"a twig that has not begun", []Fact{{hgt + "(%)", vi(-1)}, {"a0", vi(50)}, {can + "(%)", vb(true)}}},
		{"a twig that began at this height", []Fact{{hgt + "(%)", vi(50)}, {"a0", vi(50)}, {can + "(%)", vb(true)}}},
		{"a twig that began above this height", []Fact{{hgt + "(%)", vi(51)}, {"a0", vi(50)}, {can + "(%)", vb(true)}}},
		{"an active twig", []Fact{{hgt + "(%)", vi(5)}, {"a0", vi(50)}, {can + "(%)", vb(false)}}},
	} {
		q := r.Q(a, x.name, x.f...)
		r.NotAfter(q, "the search ends there", P(hgt), P(hgt), P(last))
	}
	for _, h := range []int64{0, 49} {
		q := r.Q(a, fmt.Sprintf("a twig that began at %d", h), Fact{hgt + "(%)", vi(h)}, Fact{"a0", vi(50)}, Fact{can + "(%)", vb(true)})
		r.uses(P(hgt))
		curAn = q.a
		ob := r.scn(q) + ": the search goes on"
		found := false
		for _, s := range q.Find(P(hgt)) {
			if q.Path(q.Next(s), q.may(P(last)), q.may(P(hgt))) != nil {
				found = true
			}
		}
		if r.done(q, ob) {
			if found {
				r.ok(ob)
			} else {
				r.fail(ob, a.rootNm, "a twig that began below the height and is not active ends the search")
			}
		}
	}
	// the twigs that go
	from, to := "(MetaDB.GetLastPrunedTwig(recv.meta,K)+1)", "(K+MetaDB.GetLastPrunedTwig(recv.meta,K)+1)"
	sArg := ends("they begin after the last pruned one", P(reap), 1, from)
	eArg := ends("the twig whose height was looked at last but one is the first that stays", P(reap), 2, to)
	ends("the files are cut before the first twig that stays", "DataTree.PruneFiles", 1, to)
	if sArg == "" || eArg == "" {
		r.undecided("the twigs that go", "no call of ReapNodes or PruneTwigs is found")
		return
	}
	for _, x := range []struct{ start, end int64 }{{5, 5}, {5, 6}, {5, 9}, {0, 7}, {8, 20}} {
		q := r.Q(a, fmt.Sprintf("twigs %d to %d", x.start, x.end), Fact{sArg, vi(x.start)}, Fact{eArg, vi(x.end)})
		if x.end < x.start+2 {
			r.Never(q, "too few are left for later", P(reap), P(cut), P(setEdge), P(setLast), P(delH))
			continue
		}
		all := fmt.Sprintf("DataTree.ReapNodes(recv.datTree[{i}], %d, %d) || DataTree.PruneTwigs(recv.datTree[{i}], %d, %d)", x.start, x.end, x.start, x.end)
		res := "DataTree.ReapNodes(recv.datTree[{i}],%)||DataTree.PruneTwigs(recv.datTree[{i}],%)"
		r.MustEach(q, "shard {i}: their nodes go", shards, P(all))
		r.MustEach(q, "shard {i}: the edge nodes are recorded", shards, P("MetaDB.SetEdgeNodes(recv.meta, {i}, "+res+")"))
		r.MustEach(q, "shard {i}: the last pruned twig is the last of them", shards, P(fmt.Sprintf("MetaDB.SetLastPrunedTwig(recv.meta, {i}, %d)", x.end-1)))
		r.MustEach(q, "shard {i}: their entries and trees go", shards, P(fmt.Sprintf("DataTree.PruneFiles(recv.datTree[{i}], %d) || DataTree.PruneTwigs(recv.datTree[{i}], %d, %d)", x.end, x.start, x.end)))
		var alts []P
		for n := x.start; n < x.end; n++ {
			r.MustEach(q, fmt.Sprintf("shard {i}: the height of twig %d is forgotten", n), shards, P(fmt.Sprintf("MetaDB.DeleteTwigHeight(recv.meta, {i}, %d)", n)))
			alts = append(alts, P(fmt.Sprintf("MetaDB.DeleteTwigHeight(recv.meta, %%, %d)", n)))
		}
		r.Only(q, "no height of a twig that stays is forgotten", P(delH), alts...)
	}
	only("the edge nodes recorded are those of the same shard", P(setEdge), "MetaDB.SetEdgeNodes(recv.meta, {i}, DataTree.ReapNodes(recv.datTree[{i}],%)||DataTree.PruneTwigs(recv.datTree[{i}],%))")
	r.Must(q, "the batch is opened", P(open))
	r.Must(q, "what is recorded of the shards is written", P(commit))
	r.Must(q, "the batch is written", P(closeB))
	r.NotAfter(q, "the batch is opened before anything is recorded", P(setEdge+" || "+delH+" || "+setLast+" || "+commit), P(open))
	r.NotAfter(q, "what is recorded of the shards goes with the batch", P(closeB), P(commit))
	r.NotAfter(q, "nothing is recorded once the batch is written", P(closeB), P(setEdge+" || "+delH))
	r.NotAfter(q, "the last pruned twig is set before the shards are recorded", P(commit), P(setLast))
	r.NotAfter(q, "files are cut only when the batch is written", P(cut), P(closeB))
	r.Must(q, "the index is told of the height", P(setPH+"(recv.kvdb, a0)"))
	r.Only(q, "the index is told of no other height", P(setPH), P(setPH+"(recv.kvdb, a0)"))
}

// stored: what is stored at the place of a local that x is read from.
func (q *Q) stored(x *Sym) []string {
	for x.k == KVer && len(x.args) > 0 {
		x = x.args[0]
	}
	if x.k != KIndex && x.k != KField {
		return nil
	}
	if !strings.HasPrefix(x.String(), "$") {
		return nil
	}
	at := strings.ReplaceAll(x.String(), "@", "")
	var out []string
	for _, s := range q.All() {
		ef := s.n.Eff()
		if ef == nil || !strings.HasPrefix(ef.name, "=") || len(ef.args) != 2 || strings.ReplaceAll(ef.args[0].String(), "@", "") != at {
			continue
		}
		out = append(out, ef.args[1].String())
	}
	return out
}

// placeForms: the ways an element of a local is shown.
func placeForms(s string) string {
	t := strings.ReplaceAll(s, "@", "")
	i := strings.IndexAny(t, "[.")
	if !strings.HasPrefix(t, "$") || i < 0 {
		return s
	}
	l, rest := t[:i], t[i:]
	return l + rest + "||" + l + rest + "@||" + l + "@" + rest + "||" + l + "@" + rest + "@"
}
