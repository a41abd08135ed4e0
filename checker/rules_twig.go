package main

import (
	"strconv"
	"strings"
)

func init() {
	register("P09", "effects of the append that begins and of the one that fills a twig, and of the end of a block on evicted twigs, by conditional constant propagation over the interprocedural graph", p09)
	register("P12", "effects of one compaction per received entry, in order, and the choice of the twig and of the entries in it by conditional constant propagation", p12)
}

// Carry: what is argument arg of p is a variable of the loop around p that
// begins as one of inits and is then, each round, one of steps.
func (r *R) Carry(q *Q, what string, p P, arg int, inits, steps []string) bool {
	r.uses(p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	fs := q.Find(p)
	if len(fs) == 0 {
		if r.done(q, ob) {
			r.fail(ob, q.a.rootNm, what+": "+string(p)+" is not reachable"+r.near(q, p))
		}
		return false
	}
	for _, s := range fs {
		r.site(s)
		ef := s.n.Eff()
		if arg >= len(ef.args) {
			continue
		}
		v := ef.args[arg]
		ini, stp, ok := q.a.loopVar(v)
		if !ok {
			r.undecided(ob, "not a variable of a loop: "+v.String())
			return false
		}
		for i, set := range [][]*Sym{ini, stp} {
			forms := inits
			if i == 1 {
				forms = steps
			}
			for _, x := range set {
				if !globAny(forms, x.String()) {
					if r.done(q, ob) {
						r.fail(ob, s.n.Where(), what+": "+[]string{"begins as ", "goes on as "}[i]+clip(x.String(), 300)+", expected "+strings.Join(forms, " or "), s.n.Where())
					}
					return false
				}
			}
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
	return true
}

// p12: what compaction does with the oldest active twig of a shard.
func p12(r *R) {
	const (
		old  = "MetaDB.GetOldestActiveTwigID(recv.meta,a0)"
		e    = "recv(DataTree.GetActiveEntriesInTwig(recv.datTree[a0]," + old + "))||#0(recv(DataTree.GetActiveEntriesInTwig(recv.datTree[a0]," + old + ")))"
		next = "MetaDB.GetMaxSerialNum(recv.meta,a0)"
		osn  = "datatree.ExtractSerialNum(recv(DataTree.GetActiveEntriesInTwig(recv.datTree[a0]," + old + ")))||datatree.ExtractSerialNum(#0(recv(DataTree.GetActiveEntriesInTwig(recv.datTree[a0]," + old + "))))"
	)
	o := adsOpts
	o.NoInline = append(append([]string{}, adsOpts.NoInline...), "datatree.ExtractSerialNum", "datatree.UpdateSerialNum")
	o.key = "compact"
	a := r.An("", "(*MoeingADS).compactForShard", o)
	if a != nil {
		q := r.Q(a, "", Fact{"DataTree.DeactiviateEntry(%)", vi(1)}, Fact{"==(\"dummy\",%)||==(%,\"dummy\")", vb(false)})
		deact := P("DataTree.DeactiviateEntry(recv.datTree[a0], " + osn + ")")
		upd := P("datatree.UpdateSerialNum(" + e + ", " + next + ")")
		app := P("DataTree.AppendEntryRawBytes(recv.datTree[a0], " + e + ", " + next + ")")
		incr := P("MetaDB.IncrMaxSerialNum(recv.meta, a0)")
		key := "datatree.ExtractKeyFromRawBytes(%recv(DataTree.GetActiveEntriesInTwig(recv.datTree[a0]," + old + "))%)"
		send := P("send(recv.idxTreeJobChan[types.GetIndexChanID(" + key + "[0]%)], {key:" + key + ",pos:DataTree.AppendEntryRawBytes(%)})")
		evict := P("DataTree.EvictTwig(recv.datTree[a0], " + old + ")")
		adv := P("MetaDB.IncrOldestActiveTwigID(recv.meta, a0)")
		for _, x := range []struct {
			p P
			w string
		}{{deact, "every entry's old version is deactivated"}, {upd, "every entry gets the new number"}, {app, "every entry is appended again"}, {incr, "every number is used up"}, {send, "the index is pointed at every entry's new place"}} {
			r.PerIter(q, x.w, 0, x.p)
			r.FullRange(q, x.w+", for all entries of the twig", 0, x.p)
		}
		r.Only(q, "no other entry is deactivated", "DataTree.DeactiviateEntry", deact)
		r.Only(q, "nothing else is appended", "DataTree.AppendEntryRawBytes || DataTree.AppendEntry", app)
		r.Only(q, "nothing else is put to the index", "send", send)
		r.NotAfter(q, "the old number is read before the new one is put in", "datatree.UpdateSerialNum", "datatree.ExtractSerialNum", "recv(%)")
		r.NotAfter(q, "the new number is put in before the entry is written", "DataTree.AppendEntryRawBytes", "datatree.UpdateSerialNum", "recv(%)")
		r.NotAfter(q, "the number is used up once", incr, incr, "recv(%)")
		r.NotAfter(q, "the entry is appended once", app, app, "recv(%)")
		far := r.Q(a, "the oldest twig is far behind", Fact{"MetaDB.GetOldestActiveTwigID(%)", vi(5)}, Fact{"MetaDB.GetYoungestTwigID(%)", vi(1000)}, Fact{"MetaDB.GetMaxSerialNum(%)", vi(2048*1000 + 7)})
		r.Must(far, "the twig is given up", "DataTree.EvictTwig(recv.datTree[a0], 5)")
		r.Must(far, "the next twig becomes the oldest", adv)
		r.Exists(far, "its entries are moved", "DataTree.GetActiveEntriesInTwig(recv.datTree[a0], 5)")
		r.Only(q, "only the compacted twig is given up", "DataTree.EvictTwig", evict)
		r.NotAfter(q, "the twig is given up once", evict, evict)
		r.NotAfter(q, "the oldest twig advances by one", adv, adv)
		r.NotAfter(q, "the twig is given up after all its entries have moved", evict, "DataTree.DeactiviateEntry || DataTree.AppendEntryRawBytes || DataTree.GetActiveEntriesInTwig")
		r.NotAfter(q, "the oldest twig advances after all entries have moved", adv, "DataTree.DeactiviateEntry || DataTree.AppendEntryRawBytes || DataTree.GetActiveEntriesInTwig || MetaDB.GetOldestActiveTwigID")
		for _, y := range []int64{5, 6} {
			q := r.Q(a, "the oldest twig is the youngest, or next to it", Fact{"MetaDB.GetOldestActiveTwigID(%)", vi(5)}, Fact{"MetaDB.GetYoungestTwigID(%)", vi(y)}, Fact{"MetaDB.GetMaxSerialNum(%)", vi(2048*y + 7)})
			r.Never(q, "it is not compacted", "DataTree.EvictTwig || MetaDB.IncrOldestActiveTwigID || DataTree.DeactiviateEntry || DataTree.AppendEntryRawBytes || DataTree.GetActiveEntriesInTwig")
		}
	}
	// the entries of the twig
	so := Opts{NoInline: []string{"(*datatree.EntryFile).ReadEntryRawBytes", "(*datatree.EntryFile).readMagicBytesAndLength", "datatree.getNextPos", "datatree.ExtractSerialNum"}, key: "scan"}
	if a := r.An("datatree", "(*EntryFile).GetActiveEntriesInTwig", so); a != nil {
		const rd = "(*datatree.EntryFile).ReadEntryRawBytes"
		const skip = "(*datatree.EntryFile).readMagicBytesAndLength"
		snd := P("send(%, #0(" + rd + "(recv,~%)))")
		for _, k := range []int64{0, 1, 6, 7, 8, 13, 1023, 2047} {
			q := r.Q(a, "an active entry", Fact{"K", vi(k)}, Fact{"a0.activeBits[quo(K,8)]||a0.activeBits[quo(K,8)]@", vi(1 << uint(k%8))}, Fact{"datatree.ExtractSerialNum(%)", vi(2048*77 + k)})
			r.PerIter(q, "it is handed out", 0, snd)
			r.PerIter(q, "it is read", 0, P(rd+"(recv, ~%)"))
			r.Never(q, "it is not skipped", skip)
			q = r.Q(a, "an inactive entry", Fact{"K", vi(k)}, Fact{"a0.activeBits[quo(K,8)]||a0.activeBits[quo(K,8)]@", vi(255 &^ (1 << uint(k%8)))}, Fact{"datatree.ExtractSerialNum(%)", vi(2048*77 + k)})
			r.Never(q, "it is not handed out", "send")
			r.PerIter(q, "it is stepped over", 0, P(skip+"(recv, ~%) || "+rd+"(recv, ~%)"))
		}
		q := r.Q(a, "")
		r.Only(q, "what is handed out is what was read", "send", snd)
		r.FullRange(q, "all entries of the twig are gone through", 0, snd)
		r.Bound(q, "all entries of the twig are gone through", 0, snd, "2048")
		steps := []string{"#1(" + rd + "(recv,~%))", "datatree.getNextPos(~%,(8*#1(" + skip + "(recv,~%,true))+#0(" + skip + "(recv,~%,true))))", "datatree.getNextPos(~%,(#0(" + skip + "(recv,~%,true))+8*#1(" + skip + "(recv,~%,true))))"}
		r.Carry(q, "the places follow each other from the first entry of the twig", P(rd+"(recv, ~%)"), 1, []string{"a0.FirstEntryPos", "a0.FirstEntryPos@"}, steps)
		r.Carry(q, "the places stepped over follow each other", P(skip+"(recv, ~%)"), 1, []string{"a0.FirstEntryPos", "a0.FirstEntryPos@"}, steps)
		r.After(q, "the end is told", P(rd), "builtin.close")
		r.NotAfter(q, "nothing is handed out after the end", "builtin.close", "send")
		for _, k := range []int64{0, 7, 2047} {
			q := r.Q(a, "a wrong number is found", Fact{"K", vi(k)}, Fact{"datatree.ExtractSerialNum(%)", vi(2048*77 + (k+1)%2048)})
			r.Never(q, "the entry is not handed out", "send")
		}
	}
	if a := r.An("datatree", "(*Tree).GetActiveEntriesInTwig", Opts{NoInline: []string{"(*datatree.EntryFile).%"}}); a != nil {
		q := r.Q(a, "")
		r.Result(q, "the twig's entries are those in the entry file", 0, "(*datatree.EntryFile).GetActiveEntriesInTwig(recv.entryFile,recv.activeTwigs{a0})", "(*datatree.EntryFile).getActiveEntriesInTwig(recv.entryFile,recv.activeTwigs{a0},true)")
	}
	if a := r.An("metadb", "(*MetaDB).IncrOldestActiveTwigID", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "the shard's oldest twig is the next one", "=MetaDB.oldestActiveTwigID[](recv.oldestActiveTwigID[a0], (recv.oldestActiveTwigID[a0]+1)||(recv.oldestActiveTwigID[a0]@+1))")
		r.NotAfter(q, "it advances by one", "=MetaDB.oldestActiveTwigID[]", "=MetaDB.oldestActiveTwigID[]")
	}
	if a := r.An("metadb", "(*MetaDB).GetOldestActiveTwigID", Opts{}); a != nil {
		r.Result(r.Q(a, ""), "the shard's oldest twig is told", 0, "recv.oldestActiveTwigID[a0]")
	}
	if a := r.An("metadb", "(*MetaDB).GetYoungestTwigID", Opts{}); a != nil {
		for _, n := range []int64{0, 1, 2047, 2048, 5*2048 + 11} {
			r.Result(r.Q(a, "the next number", Fact{"recv.maxSerialNum[a0]%", vi(n)}), "the youngest twig is the one the next number falls in", 0, itoa(n/2048))
		}
	}
	// all shards, before the block ends
	if a := r.An("", "(*MoeingADS).EndWrite", adsOpts); a != nil {
		q := r.Q(a, "")
		for i := 0; i < shards; i++ {
			ds := "recv.datTree[" + itoa(int64(i)) + "]"
			r.NotAfter(q, "no twig is given up once the shard's block has ended", P("DataTree.EndBlock("+ds+")"), P("DataTree.EvictTwig("+ds+") || DataTree.GetActiveEntriesInTwig("+ds+")"))
			r.NotAfter(q, "the oldest twig does not advance once the metadata is written", "IKVDB.CloseOldBatch", "MetaDB.IncrOldestActiveTwigID")
			r.NotAfter(q, "the oldest twig does not advance once the metadata is in the batch", "MetaDB.Commit", "MetaDB.IncrOldestActiveTwigID")
		}
	}
	// when it is done
	const kept = "(*moeingads.MoeingADS).numOfKeptEntries"
	ko := adsOpts
	ko.key = "kept"
	ko.NoInline = append([]string{kept}, adsOpts.NoInline...)
	if r.p.Fn("", "(*MoeingADS).numOfKeptEntries") == nil {
		r.undecided("when a shard is compacted", "the number of kept entries is not known")
	} else if a := r.An("", "(*MoeingADS).EndWrite", ko); a != nil {
		thres, ratio := r.Const("", "StartReapThres", 1000000), r.Const("", "KeptEntriesToActiveEntriesRatio", 2)
		const work = P("DataTree.EvictTwig || DataTree.GetActiveEntriesInTwig")
		for _, c := range []struct {
			name         string
			active, kept int64
			do           bool
		}{{"few active entries", thres - 1, 1 << 40, false}, {"many active entries, not many more kept", thres, thres*ratio - 8, false},
			{"many active entries, many more kept", thres, thres*ratio + 8, true}} {
			q := r.Q(a, c.name, Fact{"IndexTree.ActiveCount(%)", vi(c.active)}, Fact{kept + "(%)", vi(c.kept)}, Fact{"MetaDB.GetOldestActiveTwigID(%)", vi(1000)},
				Fact{"MetaDB.GetYoungestTwigID(%)", vi(1 << 40)}, Fact{"MetaDB.GetMaxSerialNum(%)", vi(1 << 52)})
			if !c.do {
				r.Never(q, "no shard is compacted", work)
				continue
			}
			r.MustEach(q, "shard {i} is compacted", shards, "DataTree.GetActiveEntriesInTwig(recv.datTree[{i}], 1000)")
		}
	}
	if a := r.An("", "(*MoeingADS).numOfKeptEntries", Opts{}); a != nil {
		q := r.Q(a, "")
		for i := 0; i < shards; i++ {
			r.Must(q, "all shards are counted", P("MetaDB.GetMaxSerialNum(recv.meta, "+itoa(int64(i))+")"))
			r.Must(q, "all shards are counted", P("MetaDB.GetOldestActiveTwigID(recv.meta, "+itoa(int64(i))+")"))
		}
	}
}

// p09: the life of a twig in memory.
func p09(r *R) {
	const add, run = "(*datatree.Hasher).Add", "(*datatree.Hasher).Run"
	for _, f := range []struct{ fn, sn string }{{"(*Tree).AppendEntry", "a0.SerialNum"}, {"(*Tree).AppendEntryRawBytes", "a1"}} {
		a := r.An("datatree", f.fn, treeOpts)
		if a == nil {
			continue
		}
		tw := "recv.activeTwigs{quo(" + f.sn + ",2048)}"
		first := P("=Twig.FirstEntryPos(" + tw + ".FirstEntryPos, (*datatree.EntryFile).Append(recv.entryFile%))")
		out := P("(*datatree.TwigMtFile).AppendTwig(recv.twigMtFile, recv.mtree4YoungestTwig[1:], " + tw + ".FirstEntryPos||" + tw + ".FirstEntryPos@)")
		fresh := "datatree.CopyNullTwig()"
		neu := P("mapset(recv.activeTwigs, (quo(" + f.sn + ",2048)+1), " + fresh + ")")
		young := P("=Tree.youngestTwigID(recv.youngestTwigID, (quo(" + f.sn + ",2048)+1))")
		reset := P("=Tree.mtree4YoungestTwig(recv.mtree4YoungestTwig, datatree.NullMT4Twig) || builtin.copy(recv.mtree4YoungestTwig[:], datatree.NullMT4Twig[:])")
		at := func(k int64) []Fact {
			return []Fact{{"rem(" + f.sn + ",2048)", vi(k)}, {"rem(" + f.sn + ",8)", vi(k % 8)}, {"recv.mtree4YTChangeStart", vi(k - 1)}, {"recv.mtree4YTChangeEnd", vi(k - 1)}}
		}
		q := r.Q(a, "the first entry of a twig", at(0)...)
		r.Must(q, "the twig notes where it begins", first)
		r.Only(q, "where it begins is where the entry went", "=Twig.FirstEntryPos", first)
		r.Never(q, "no twig is finished", "(*datatree.TwigMtFile).AppendTwig", "mapset(recv.activeTwigs)", "=Tree.mtree4YoungestTwig(")
		for _, k := range []int64{1, 2, 511, 1023, 1024, 2046} {
			q := r.Q(a, "entry "+itoa(k)+" of a twig", at(k)...)
			r.Never(q, "no twig begins or ends", "=Twig.FirstEntryPos", "(*datatree.TwigMtFile).AppendTwig", "mapset(recv.activeTwigs)", "=Tree.mtree4YoungestTwig(")
			r.Must(q, "the twig is the youngest", P("=Tree.youngestTwigID(recv.youngestTwigID, quo("+f.sn+",2048))"))
		}
		q = r.Q(a, "the last entry of a twig", at(2047)...)
		r.Never(q, "the twig still begins where it began", "=Twig.FirstEntryPos")
		r.Must(q, "its tree is written out, with the place of its first entry", out)
		r.NotAfter(q, "it is written out once", "(*datatree.TwigMtFile).AppendTwig", "(*datatree.TwigMtFile).AppendTwig")
		r.Before(q, "its leaves and nodes are there when it is written out", "datatree.syncMTree", "(*datatree.TwigMtFile).AppendTwig")
		r.Must(q, "the next twig is empty", neu)
		r.Only(q, "the next twig is an empty one of its own", "mapset(recv.activeTwigs)", neu)
		r.Must(q, "the next twig is the youngest", young)
		r.NotAfter(q, "the next twig stays the youngest", young, P("=Tree.youngestTwigID(recv.youngestTwigID, quo("+f.sn+",2048))"))
		r.Must(q, "the next twig's tree is empty", reset)
		r.NotAfter(q, "the tree is written out before it is emptied", reset, "(*datatree.TwigMtFile).AppendTwig")
		r.NotAfter(q, "the leaves are hashed before the tree is emptied", reset, "datatree.syncMTree || builtin.copy(recv.mtree4YoungestTwig[(%+2048)][:])")
		r.NotAfter(q, "the full twig's root of entries is taken before the tree is emptied", reset, "builtin.copy(recv.activeTwigs%)")
		r.Never(q, "the twig stays, for its entries are still active", "builtin.delete(recv.activeTwigs)")
	}
	if a := r.An("datatree", "CopyNullTwig", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "an empty twig is a copy of the null twig", "=local($%, datatree.NullTwig) || =%(%, datatree.NullTwig)")
		r.Result(q, "an empty twig is one of its own", 0, "&$%", "$%")
	}
	if a := r.An("datatree", "(*Tree).EvictTwig", treeOpts); a != nil {
		q := r.Q(a, "")
		r.Must(q, "an evicted twig is noted", "builtin.append(recv.twigsToBeDeleted, a0)")
		r.Must(q, "an evicted twig is noted for the end of the block", "=Tree.twigsToBeDeleted(recv.twigsToBeDeleted, append(recv.twigsToBeDeleted,%))")
		r.Never(q, "it stays till then", "builtin.delete", "mapset")
	}
	if a := r.An("datatree", "(*Tree).EndBlock", treeOpts); a != nil {
		q := r.Q(a, "")
		ev := "recv.twigsToBeDeleted[K]"
		keep := P("mapset(recv.nodes, or(864691128455135232," + ev + ")||(" + ev + "+864691128455135232), &recv.activeTwigs{" + ev + "}.twigRoot||&$%)")
		del := P("builtin.delete(recv.activeTwigs, " + ev + ")")
		r.PerIter(q, "the root of every evicted twig is kept", 0, keep)
		r.PerIter(q, "every evicted twig is removed", 0, del)
		r.FullRange(q, "all evicted twigs are removed", 0, del)
		r.FullRange(q, "the roots of all evicted twigs are kept", 0, keep)
		r.Only(q, "no other twig is removed", "builtin.delete(recv.activeTwigs)", del)
		r.InTurn(q, "a twig's root is taken before it is removed", keep, del)
		r.NotAfter(q, "twigs are removed after all hashing", del, P(run+" || "+add))
		r.NotAfter(q, "the roots are taken after all hashing", keep, P(run+" || "+add))
		r.Must(q, "the list of evicted twigs is emptied", "=Tree.twigsToBeDeleted(recv.twigsToBeDeleted, recv.twigsToBeDeleted[:0]||nil||make(0%))")
		r.NotAfter(q, "the list is emptied when they have been removed", "=Tree.twigsToBeDeleted(recv.twigsToBeDeleted, recv.twigsToBeDeleted[:0]||nil||make(0%))", del)
		r.Never(q, "the null nodes are not handed out for change", "mapset(%, %, %datatree.NullTwig%||%datatree.NullMT4Twig%||%datatree.NullNodeInHigherTree%)")
		r.Never(q, "the null nodes are not changed", nulls("=%(X) || builtin.copy(X) || (*datatree.Hasher).Add(%, %, X)"))
		r.Never(q, "no node of the upper tree is dropped", "builtin.delete(recv.nodes)")
	}
	if a := r.An("datatree", "(*Tree).GetActiveBit", treeOpts); a != nil {
		bits := "recv.activeTwigs{quo(a0,2048)}.activeBits[quo(rem(a0,2048),8)]"
		for _, k := range []int64{0, 3, 7} {
			r.Result(r.Q(a, "the bit is set", Fact{"rem(a0,8)", vi(k)}, Fact{bits + "||" + bits + "@", vi(1 << uint(k))}, Fact{"rem(a0,2048)", vi(80 + k)}), "the entry is active", 0, "true")
			r.Result(r.Q(a, "the bit is clear", Fact{"rem(a0,8)", vi(k)}, Fact{bits + "||" + bits + "@", vi(255 &^ (1 << uint(k)))}, Fact{"rem(a0,2048)", vi(80 + k)}), "the entry is not active", 0, "false")
		}
	}
	if a := r.An("datatree", "(*Tree).TwigCanBePruned", treeOpts); a != nil {
		r.Result(r.Q(a, "a twig in memory", Fact{"has(recv.activeTwigs,a0)", vb(true)}), "it may not be pruned", 0, "false", "not(has(recv.activeTwigs,a0))")
		r.Result(r.Q(a, "a twig not in memory", Fact{"has(recv.activeTwigs,a0)", vb(false)}), "it may be pruned", 0, "true", "not(has(recv.activeTwigs,a0))")
	}
	if a := r.An("datatree", "NewEmptyTree", treeOpts); a != nil {
		q := r.Q(a, "")
		r.Must(q, "a new tree has one empty twig", "mapset(%, 0, datatree.CopyNullTwig())")
		r.Must(q, "the tree of the first twig is empty", "=Tree.mtree4YoungestTwig(%, datatree.NullMT4Twig) || builtin.copy(%.mtree4YoungestTwig[:], datatree.NullMT4Twig[:])")
	}
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

// InTurn: in one and the same round of the loops they share, y does not come
// before x; where they share no loop, y comes only after the last x.
func (r *R) InTurn(q *Q, what string, x, y P) bool {
	r.uses(x, y)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	for _, s := range q.Find(y) {
		r.site(s)
		for _, t := range q.Find(x) {
			common := map[*LoopRef]bool{}
			for _, l := range s.n.Chain() {
				if t.n.InLoop(l) {
					common[l] = true
				}
			}
			p := q.Path(q.Next(s), func(u State) bool { return u.n.hdr != nil && common[u.n.hdr] }, func(u State) bool { return u.n == t.n })
			if p != nil && r.done(q, ob) {
				r.fail(ob, t.n.Where(), what+": "+string(x)+" can come after "+string(y), q.Trace(p)...)
				return false
			}
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
	return true
}

// nulls puts the trees and nodes that stand for missing ones in for X.
func nulls(p string) P {
	return P(strings.ReplaceAll(p, "X", "datatree.NullTwig%||datatree.NullMT4Twig%||datatree.NullNodeInHigherTree%"))
}
