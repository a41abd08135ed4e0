package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "effects of every step of the recovery of a shard by conditional constant propagation, one scenario per kind of entry and of pruned prefix, with the content of the list of changed nodes as a term", p05)
	register("P04", "effects of opening an existing database, shard by shard: arguments of the recovery, the comparison of the roots, and the entries the index is rebuilt from", p04)
}

func p05(r *R) {
	o := Opts{NoInline: []string{"datatree.EntryToBytes", "(*datatree.Tree).syncMT4YoungestTwig", "datatree.CopyNullTwig", "datatree.syncMTree"}, key: "rec"}
	const sn = "a1.SerialNum"
	if a := r.An("datatree", "(*Tree).RecoverEntry", o); a != nil {
		for _, k := range []int64{0, 3, 7} {
			at := func(i, n int64) []Fact {
				x := "a2[" + itoa(i) + "]"
				return []Fact{{x, V{k: vInt, lo: n, hi: n}}}
			}
			// the first number is of an old twig, the second of the oldest
			// active, the third of a younger one
			f := []Fact{{"len(a2)", vi(3)}, {"a3", vi(4)}, {sn, vi(9*2048 + 5)}}
			f = append(f, at(0, 4*2048-1)...)
			f = append(f, at(1, 4*2048+1024+8*k+k)...)
			f = append(f, at(2, 9*2048+1616+k)...)
			q := r.Q(a, "numbers in twigs 3, 4 and 9, 4 being the oldest active", f...)
			for _, c := range []struct{ tw, by, bit int64 }{{4, 128 + k, k}, {9, 202, k}} {
				p := fmt.Sprintf("recv.activeTwigs{%d}.activeBits[%d]", c.tw, c.by)
				m := itoa(1 << uint(c.bit))
				r.Must(q, fmt.Sprintf("the bit of the entry in twig %d is cleared", c.tw), P("=Twig.activeBits[]("+p+", and("+itoa(^(int64(1)<<uint(c.bit)))+","+p+"%)||and("+p+"%,"+itoa(^(int64(1)<<uint(c.bit)))+")||and("+itoa(255&^(int64(1)<<uint(c.bit)))+","+p+"%)||and("+p+"%,"+itoa(255&^(int64(1)<<uint(c.bit)))+")||andnot("+p+"%,"+m+")||and(compl("+m+"),"+p+"%)||and("+p+"%,compl("+m+")))"))
			}
			r.Never(q, "twigs before the oldest active one are left alone", "=Twig.activeBits[](recv.activeTwigs{3}.activeBits[%])")
		}
		base := func(n int64, more ...Fact) []Fact {
			return append([]Fact{{sn, V{k: vInt, lo: n, hi: n}}, {"len(a2)", vi(0)}, {"a3", vi(4)}}, more...)
		}
		real := []Fact{{"==(\"dummy\",%)||==(%,\"dummy\")||bytes.Equal(%)", vb(false)}, {"has(recv.activeTwigs,%)", vb(true)}}
		dummy := []Fact{{"==(\"dummy\",%)||==(%,\"dummy\")||bytes.Equal(%)", vb(true)}, {"has(recv.activeTwigs,%)", vb(true)}}
		for _, n := range []int64{5 * 2048, 5*2048 + 1, 5*2048 + 700, 6*2048 - 2, 6*2048 - 1, 1001*2048 - 1} {
			t, k := n/2048, n%2048
			bits := fmt.Sprintf("recv.activeTwigs{%d}.activeBits[%d]", t, k/8)
			q := r.Q(a, fmt.Sprintf("entry %d of a twig", k), base(n, real...)...)
			set := P("=Twig.activeBits[](" + bits + ", or(" + bits + "%," + itoa(1<<uint(k%8)) + ")||or(" + itoa(1<<uint(k%8)) + "," + bits + "%))")
			r.Must(q, "its bit is set", set)
			r.Only(q, "no other bit is changed", "=Twig.activeBits[]", set)
			touch := P("mapset(recv.touchedPosOf512b, " + itoa(n/512) + ")")
			next := P("mapset(recv.touchedPosOf512b, " + itoa((n+1)/512) + ")")
			r.Must(q, "its piece is touched", touch)
			leaf := P(fmt.Sprintf("builtin.copy(recv.mtree4YoungestTwig[%d][:]) || =Tree.mtree4YoungestTwig[](recv.mtree4YoungestTwig[%d]) || builtin.copy(recv.mtree4YoungestTwig[%d])", 2048+k, 2048+k, 2048+k))
			r.Must(q, "its leaf is put into the tree", leaf)
			r.Only(q, "no other leaf is changed", "builtin.copy(recv.mtree4YoungestTwig[%]) || builtin.copy(recv.mtree4YoungestTwig[%][:]) || =Tree.mtree4YoungestTwig[]", leaf)
			r.Bytes(q, "the leaf is the hash of the entry and the numbers that lie in the file with it", leaf, 1, "sha256(datatree.EntryToBytes(*a1,a2))", "sha256(<datatree.EntryToBytes(*a1,a2)>)")
			young := P("=Tree.youngestTwigID(recv.youngestTwigID, " + itoa(t) + ")")
			r.Must(q, "the leaves changed go up to it", P("=Tree.mtree4YTChangeEnd(recv.mtree4YTChangeEnd, "+itoa(k)+")"))
			r.Only(q, "the leaves changed go up to it only", "=Tree.mtree4YTChangeEnd", P("=Tree.mtree4YTChangeEnd(recv.mtree4YTChangeEnd, "+itoa(k)+")"))
			q1 := r.Q(a, fmt.Sprintf("entry %d of a twig, the first since the last hashing", k), base(n, append(real, Fact{"recv.mtree4YTChangeStart", vi(-1)})...)...)
			r.Must(q1, "the leaves changed begin with it", P("=Tree.mtree4YTChangeStart(recv.mtree4YTChangeStart, "+itoa(k)+")"))
			if k > 0 {
				q1 = r.Q(a, fmt.Sprintf("entry %d of a twig, not the first since the last hashing", k), base(n, append(real, Fact{"recv.mtree4YTChangeStart", vi(k - 1)})...)...)
				r.Never(q1, "the leaves changed begin where they did", "=Tree.mtree4YTChangeStart")
			}
			if k == 0 {
				r.Must(q, "the twig begins where the entry lies", P("=Twig.FirstEntryPos(recv.activeTwigs{"+itoa(t)+"}.FirstEntryPos, a0)"))
				r.Only(q, "no other twig is told to begin here", "=Twig.FirstEntryPos", P("=Twig.FirstEntryPos(recv.activeTwigs{"+itoa(t)+"}.FirstEntryPos, a0)"))
			} else {
				r.Never(q, "no twig begins here", "=Twig.FirstEntryPos")
			}
			const sync = "(*datatree.Tree).syncMT4YoungestTwig || datatree.syncMTree"
			if k < 2047 {
				r.Must(q, "the twig is the youngest", young)
				r.Only(q, "the twig is the youngest one", "=Tree.youngestTwigID", young)
				r.Only(q, "no other piece is touched", "mapset(recv.touchedPosOf512b)", touch)
				r.Never(q, "the twig goes on", "mapset(recv.activeTwigs)", "=Tree.mtree4YoungestTwig(", sync)
			} else {
				neu := P("mapset(recv.activeTwigs, " + itoa(t+1) + ", datatree.CopyNullTwig())")
				reset := P("=Tree.mtree4YoungestTwig(recv.mtree4YoungestTwig, datatree.NullMT4Twig) || builtin.copy(recv.mtree4YoungestTwig[:], datatree.NullMT4Twig[:])")
				r.Must(q, "the twig's tree is finished", sync)
				r.NotAfter(q, "the tree is finished with its last leaf in", sync, leaf)
				r.Must(q, "the next twig is empty", neu)
				r.Only(q, "the next twig is an empty one of its own", "mapset(recv.activeTwigs)", neu)
				r.Must(q, "the next twig's tree is empty", reset)
				r.NotAfter(q, "the tree is finished before it is emptied", reset, sync)
				y := P("=Tree.youngestTwigID(recv.youngestTwigID, " + itoa(t+1) + ")")
				r.Must(q, "the next twig is the youngest", y)
				r.NotAfter(q, "the next twig stays the youngest", y, "=Tree.youngestTwigID")
				r.NotAfter(q, "the tree is finished for the twig it belongs to", y, sync)
				r.Must(q, "the first piece of the next twig is touched", next)
				r.Only(q, "no other piece is touched", "mapset(recv.touchedPosOf512b)", touch, next)
			}
			q = r.Q(a, fmt.Sprintf("a dummy entry, entry %d of a twig", k), base(n, dummy...)...)
			r.Never(q, "it does not become active", "=Twig.activeBits[]")
			r.Must(q, "its piece is touched", touch)
			r.Must(q, "its leaf is put into the tree", leaf)
		}
	}
	// the scans
	for _, f := range []struct{ fn, rd, sent, next string }{
		{"(*Tree).ScanEntries", "(*datatree.EntryFile).ReadEntryAndSNList", "{Entry:#0(READ),Pos:~%,DeactivedSNList:#1(READ)}", "#2(READ)"},
		{"(*Tree).ScanEntriesLite", "(*datatree.EntryFile).ReadEntryRawBytes", "{Key:datatree.ExtractKeyFromRawBytes(#0(READ)),Pos:~%,SerialNum:datatree.ExtractSerialNum(#0(READ))}", "#1(READ)"},
	} {
		a := r.An("datatree", f.fn, Opts{NoInline: []string{"(*datatree.EntryFile).%", "(*datatree.TwigMtFile).%", "datatree.ExtractSerialNum", "datatree.ExtractKeyFromRawBytes"}, key: "scans"})
		if a == nil {
			continue
		}
		rd := f.rd + "(recv.entryFile,~%)"
		first := "(*datatree.TwigMtFile).GetFirstEntryPos(recv.twigMtFile,a0)"
		snd := P("send(a1, " + repl(f.sent, "READ", rd) + ")")
		q := r.Q(a, "", Fact{"<(~%,(*datatree.EntryFile).Size(%))", V{}})
		r.PerIter(q, "every entry is handed out as it was read, with its place", 0, snd)
		r.Only(q, "what is handed out was read", "send", snd)
		r.Then(q, "every entry read is handed out before the next one is read", P(f.rd), snd, P(f.rd))
		r.NotAfter(q, "every entry is handed out once", snd, snd, P(f.rd))
		r.Carry(q, "the places follow each other from the first entry of the twig", P(f.rd+"(recv.entryFile, ~%)"), 1, []string{first}, []string{repl(f.next, "READ", rd)})
		r.Must(q, "the end is told", "builtin.close(a1)")
		r.NotAfter(q, "nothing is handed out after the end", "builtin.close", "send")
		q = r.Q(a, "twigs of 1000 bytes each in a file of 5000", Fact{first, vi(3000)}, Fact{"(*datatree.EntryFile).Size(%)", vi(5000)}, Fact{repl(f.next, "READ", rd), vi(4999)})
		r.Must(q, "the entry that begins before the end is read", P(f.rd))
		q = r.Q(a, "no entries after the first place", Fact{first, vi(5000)}, Fact{"(*datatree.EntryFile).Size(%)", vi(5000)})
		r.Never(q, "none is handed out", "send")
	}
	if a := r.An("datatree", "(*Tree).RecoverActiveTwigs", Opts{NoInline: []string{"(*datatree.Tree).%"}}); a != nil {
		q := r.Q(a, "")
		const sync1, sync2 = "(*datatree.Tree).syncMT4YoungestTwig(recv)", "(*datatree.Tree).syncMT4ActiveBits(recv)"
		rec := P("(*datatree.Tree).RecoverEntry(recv, recv(%).Pos||#0(recv(%)).Pos, recv(%).Entry||#0(recv(%)).Entry, recv(%).DeactivedSNList||#0(recv(%)).DeactivedSNList, a0)")
		r.Must(q, "the entries from the oldest active twig on are scanned", "(*datatree.Tree).ScanEntries(recv, a0)")
		r.Beside(q, "the entries are taken while they are handed over", "(*datatree.Tree).ScanEntries", "recv(%)")
		r.PerIter(q, "every entry is put back with its place and its numbers", 0, rec)
		r.FullRange(q, "all entries are put back", 0, rec)
		r.Must(q, "the tree of the youngest twig is hashed", sync1)
		r.Must(q, "the trees of the active bits are hashed", sync2)
		r.NotAfter(q, "the youngest twig is hashed when all entries are back", sync1, "(*datatree.Tree).RecoverEntry")
		r.NotAfter(q, "the active bits are hashed when all entries are back", sync2, "(*datatree.Tree).RecoverEntry")
		r.NotAfter(q, "the twigs' roots are taken when the youngest tree is hashed", sync2, sync1)
		r.After(q, "the touched pieces are forgotten when they have been hashed", sync2, "=Tree.touchedPosOf512b || builtin.delete(recv.touchedPosOf512b) || builtin.clear(recv.touchedPosOf512b)")
		r.NotAfter(q, "the touched pieces are not forgotten before", "=Tree.touchedPosOf512b || builtin.delete(recv.touchedPosOf512b) || builtin.clear(recv.touchedPosOf512b)", sync2)
		r.Result(q, "the parents of the twigs that have been hashed", 0, sync2)
	}
	if a := r.An("datatree", "(*Tree).RecoverUpperNodes", Opts{NoInline: []string{"(*datatree.Tree).syncUpperNodes"}}); a != nil {
		q := r.Q(a, "")
		put := P("mapset(recv.nodes, a0[K].Pos, &$%)")
		r.PerIter(q, "every edge node is put back in its place", 0, put)
		r.FullRange(q, "all edge nodes are put back", 0, put)
		r.Bound(q, "all edge nodes are put back", 0, put, "len(a0)")
		r.numBytes(q, "an edge node has its hash", put, 2, "a0[K].Value", "cp(a0[K].Value,32)", "&a0[K].Value", "a0[K].Value[:]")
		r.Own(q, "the hash of an edge node is its own", put, 2)
		const up = "(*datatree.Tree).syncUpperNodes(recv, a1)"
		r.Must(q, "the nodes above are hashed again", up)
		r.NotAfter(q, "the edge nodes are there by then", up, put)
		r.Result(q, "the root is the one that has been hashed", 0, "(*datatree.Tree).syncUpperNodes(recv,a1)")
	}
	if a := r.An("datatree", "(*Tree).RecoverInactiveTwigRoots", Opts{NoInline: []string{"(*datatree.TwigMtFile).GetHashNode"}}); a != nil {
		for _, x := range [][2]int64{{0, 3}, {4, 5}, {6, 10}, {7, 7}} {
			q := r.Q(a, fmt.Sprintf("inactive twigs %d to %d", x[0], x[1]-1), Fact{"a0", vi(x[0])}, Fact{"a1", vi(x[1])})
			for t := x[0]; t < x[1]; t++ {
				r.Must(q, fmt.Sprintf("twig %d gets its root", t), P(fmt.Sprintf("mapset(recv.nodes, %d)", 12<<56|t)))
			}
			var only []P
			for t := x[0]; t < x[1]; t++ {
				only = append(only, P(fmt.Sprintf("mapset(recv.nodes, %d)", 12<<56|t)))
			}
			if len(only) > 0 {
				r.Only(q, "no other node is put in", "mapset(recv.nodes)", only...)
			} else {
				r.Never(q, "no node is put in", "mapset(recv.nodes)")
			}
		}
		q := r.Q(a, "", Fact{"a0", vi(6)}, Fact{"a1", vi(7)})
		put := P("mapset(recv.nodes, " + itoa(12<<56|6) + ")")
		r.Own(q, "the root of a twig is its own", put, 2)
		r.numBytes(q, "the root is made of the tree of entries in the file and no active bits", put, 2, "sha256(<0x0b (*datatree.TwigMtFile).GetHashNode(recv.twigMtFile,6,1,nil) datatree.NullTwig.activeBitsMTL3[:]>)", "sha256(<0x0b (*datatree.TwigMtFile).GetHashNode(recv.twigMtFile,6,1,nil)[:] datatree.NullTwig.activeBitsMTL3[:]>)")
	}
	// edge nodes as bytes
	if a := r.An("datatree", "EdgeNodesToBytes", Opts{}); a != nil {
		for _, n := range []int64{0, 1, 2, 5} {
			q := r.Q(a, fmt.Sprintf("%d edge nodes", n), Fact{"len(a0)", vi(n)}, Fact{"len(a0[%].Value)", vi(32)})
			want := ""
			for i := int64(0); i < n; i++ {
				want += fmt.Sprintf(" le8(a0[%d].Pos) a0[%d].Value", i, i)
			}
			if n == 0 {
				want = " "
			}
			r.DeepResult(q, "position and hash of each, in order", 0, "<"+want[1:]+">")
		}
		for _, n := range []int64{0, 31, 33} {
			r.NoReturn(r.Q(a, fmt.Sprintf("a hash of %d bytes", n), Fact{"len(a0)", vi(1)}, Fact{"len(a0[%].Value)", vi(n)}), "it is refused")
		}
	}
	if a := r.An("datatree", "BytesToEdgeNodes", Opts{}); a != nil {
		for _, n := range []int64{0, 1, 3} {
			q := r.Q(a, fmt.Sprintf("the bytes of %d edge nodes", n), Fact{"len(a0)", vi(n * 40)})
			for i := int64(0); i < n; i++ {
				p := fmt.Sprintf("=[](%%[%d], &$%%)", i)
				if len(q.Find(P("builtin.append"))) > 0 {
					p = "builtin.append"
				} else {
					r.Must(q, fmt.Sprintf("edge node %d is there", i), P(p))
				}
			}
			if n > 0 {
				node := P("=[](%[%], &$%)")
				var forms []string
				for i := int64(0); i < n; i++ {
					lo := itoa(40 * i)
					if i == 0 {
						lo = ""
					}
					forms = append(forms, fmt.Sprintf("{Pos:LE8(a0[%s:]),Value:a0[%d:%d]}", lo, 40*i+8, 40*i+40))
				}
				r.Bytes(q, "edge nodes are read back from where they were put", node, 1, forms...)
				r.Own(q, "every edge node is one of its own", node, 1)
				r.Own(q, "the hash of every edge node is its own", "=EdgeNode.Value", 1)
			}
		}
		for _, n := range []int64{1, 39, 41, 79} {
			r.NoReturn(r.Q(a, fmt.Sprintf("%d bytes", n), Fact{"len(a0)", vi(n)}), "it is refused")
		}
	}
	r05tree(r)
}

// r05tree: how the steps are put together.
func r05tree(r *R) {
	a := r.An("datatree", "RecoverTree", Opts{NoInline: []string{"(*datatree.Tree).%", "(*datatree.EntryFile).%", "(*datatree.TwigMtFile).%", "datatree.NewEntryFile", "datatree.NewTwigMtFile", "datatree.CopyNullTwig"}})
	if a == nil {
		return
	}
	const act = "(*datatree.Tree).RecoverActiveTwigs"
	const up = "(*datatree.Tree).RecoverUpperNodes"
	const ina = "(*datatree.Tree).RecoverInactiveTwigRoots"
	const trunc = "(*datatree.Tree).TruncateFiles(%, a8[0], a8[1])"
	ok := []Fact{{"#1(datatree.NewEntryFile(%))", V{k: vNil}}, {"#1(datatree.NewTwigMtFile(%))", V{k: vNil}}}
	q := r.Q(a, "", append(ok, Fact{"len(a8)", vi(2)})...)
	r.Must(q, "the files are cut off at the recorded sizes", trunc)
	r.NotAfter(q, "the files are cut off before they are read", P(act+" || "+ina), "(*datatree.Tree).TruncateFiles")
	r.Must(q, "the roots of the inactive twigs are put back", P(ina+"(%, %, a6)"))
	r.Must(q, "the active twigs are put back", P(act+"(%, a6)"))
	r.Must(q, "the nodes above are put back from the edge nodes", P(up+"(%, a4)"))
	r.NotAfter(q, "the nodes above are hashed when the twigs are back", up, P(act+" || "+ina))
	r.Must(q, "the oldest active twig is empty to begin with", "mapset(%, a6, datatree.CopyNullTwig())")
	r.NotAfter(q, "the oldest active twig is there when entries are put back", act, "mapset(%, a6, datatree.CopyNullTwig())")
	r.Must(q, "the tree of the twig is empty to begin with", "=Tree.mtree4YoungestTwig(%, datatree.NullMT4Twig) || builtin.copy(%.mtree4YoungestTwig[:], datatree.NullMT4Twig[:])")
	r.NotAfter(q, "the tree of the twig is not emptied later", act, "=Tree.mtree4YoungestTwig || builtin.copy(%.mtree4YoungestTwig[:])")
	for _, l := range []string{"twigsToBeDeleted", "deactivedSNList"} {
		f := P("=Tree." + l)
		if len(q.Find(f)) > 0 {
			r.numBytes(q, "the list "+l+" is empty to begin with", f, 1, "<>", "", "nil")
		}
	}
	for _, x := range [][2]string{{"NewEntryFile", "entries"}, {"NewTwigMtFile", "twigmt"}} {
		r.Must(q, "the file of the shard is opened in blocks of the given size", P("datatree."+x[0]+"(a0, a1)"))
		var made string
		if b := r.An("datatree", "NewEmptyTree", Opts{NoInline: []string{"(*datatree.%", "datatree.New%File", "datatree.CopyNullTwig"}, key: "paths"}); b != nil {
			qb := r.Q(b, "")
			for _, s := range qb.Find(P("datatree." + x[0])) {
				made = qb.Mach().pointee(s, 2)
			}
		}
		if made == "" || hasUnknown(made) {
			r.undecided("where NewEmptyTree makes the file is not known", made)
		} else {
			r.numBytes(q, "the file of the shard is opened where it was made", P("datatree."+x[0]), 2, made)
		}
		r.NoReturn(r.Q(a, "the file cannot be opened", Fact{"#1(datatree." + x[0] + "(%))", V{k: vNonNil}}), "it stops")
	}
	r.Must(q, "no leaves have changed to begin with", "=Tree.mtree4YTChangeStart(%, -1)")
	r.Result(q, "the root is that of the nodes put back", 1, up+"(%)")
	r.Result(q, "the tree is the one put back", 0, "&$%")
	// which twigs
	type c struct {
		last, old int64 // last pruned, oldest active
		edge      int64 // number of the twig that is an edge node, -1 if there is none
		from      int64 // the first twig whose root is read from the file
		first     int64 // the first parent of the list
		lst       int64 // the first of the list the active twigs give
		fits      bool  // it is the last parent already
	}
	for _, x := range []c{
		{-1, 0, -1, 0, -1, 0, false},
		{-1, 1, -1, 0, 0, 0, true},
		{-1, 4, -1, 0, 0, 2, false},
		{-1, 5, -1, 0, 0, 2, true},
		{2, 9, 3, 2, 1, 4, true},
		{3, 9, 4, 2, 2, 4, true},
		{4, 8, 5, 4, 2, 4, false},
		{5, 9, 6, 4, 3, 4, true},
		{5, 8, 6, 4, 3, 4, false},
	} {
		f := append([]Fact{{"len(a8)", vi(2)}, {"a5", vi(x.last)}, {"a6", vi(x.old)}, {"len(" + act + "(%))", vi(3)}, {act + "(%)[0]", vi(x.lst)}, {act + "(%)[0]@", vi(x.lst)}}, ok...)
		if x.edge < 0 {
			f = append(f, Fact{"len(a4)", vi(0)})
		} else {
			f = append(f, Fact{"len(a4)", vi(2)}, Fact{"a4[0].Pos", vi(12<<56 | x.edge)}, Fact{"a4[1].Pos", vi(13<<56 | 7)})
		}
		q := r.Q(a, fmt.Sprintf("last pruned twig %d, oldest active twig %d, edge at %d", x.last, x.old, x.edge), f...)
		r.Must(q, "roots are put back from the even twig of the last pruned one", P(fmt.Sprintf("%s(%%, %d, a6||%d)", ina, x.from, x.old)))
		want, lastp := "", int64(-1)
		if x.first >= 0 {
			for p := x.first; p <= (x.old-1)/2; p++ {
				want += fmt.Sprintf("e(%d) ", p)
				lastp = p
			}
		}
		l := act + "(%)"
		if x.fits {
			l = act + "(%)[1:]"
		}
		forms := []string{"<" + want + l + ">"}
		if lastp < 0 {
			forms = append(forms, l)
		}
		r.numBytes(q, "the parents of all these twigs are hashed, each once, in order", up, 2, forms...)
	}
}

// numBytes is Bytes with the numbers the facts settle put in.
func (r *R) numBytes(q *Q, what string, p P, arg int, forms ...string) bool {
	r.uses(p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	m := q.Mach()
	n := 0
	for _, s := range q.Find(p) {
		t := m.pointee(s, arg)
		if t == "" {
			continue
		}
		r.site(s)
		if globAny(forms, t) {
			n++
			continue
		}
		if hasUnknown(t) {
			r.undecided(ob, "content not known: "+clip(t, 200))
			return true
		}
		if r.done(q, ob) {
			r.fail(ob, s.n.Where(), what+": "+clip(t, 300)+", expected "+clip(forms[0], 300), s.n.Where())
		}
		return false
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": "+string(p)+" is not reachable"+r.near(q, p))
		return false
	}
	r.ok(ob)
	return true
}

func p04(r *R) {
	o := Opts{NoInline: []string{"datatree.RecoverTree", "datatree.BytesToEdgeNodes", "datatree.NewEmptyTree", "types.GetIndexChanID", "indextree.NewRocksDB", "indextree.NewNVTreeMem", "(*moeingads.MoeingADS).initGuards", "(*moeingads.MoeingADS).runIdxTreeJobs", "(*moeingads.MoeingADS).flushIdxTreeJobs"}, key: "open"}
	a := r.An("", "NewMoeingADS", o)
	if a == nil {
		return
	}
	m := func(f string, i int) string {
		return fmt.Sprintf("MetaDB.%s(%%.meta@,%d)||MetaDB.%s(metadb.NewMetaDB(%%),%d)||MetaDB.%s(%%.meta,%d)", f, i, f, i, f, i)
	}
	const run, flush = "(*moeingads.MoeingADS).runIdxTreeJobs", "(*moeingads.MoeingADS).flushIdxTreeJobs"
	const rt = "datatree.RecoverTree"
	const fresh = "datatree.NewEmptyTree || MetaDB.Init || (*moeingads.MoeingADS).initGuards || MetaDB.IncrMaxSerialNum || DataTree.AppendEntry || IKVDB.OpenNewBatch || IKVDB.CloseOldBatch || IndexTree.Set || MetaDB.Commit"
	for _, hist := range []bool{false, true} {
		name := "an existing database"
		if hist {
			name += " with history"
		}
		f := []Fact{{"os.IsNotExist(%)||errors.Is(%)", vb(false)}, {"a1", vb(hist)}, {"#1(indextree.NewRocksDB(%))", V{k: vNil}}}
		q := r.Q(a, name, f...)
		r.Must(q, "what is recorded is loaded", "MetaDB.ReloadFromKVDB")
		r.Never(q, "nothing is begun anew", fresh)
		r.MustEach(q, "shard {i} is recovered", shards, "=MoeingADS.datTree[](%.datTree[{i}], #0(datatree.RecoverTree(%)))")
		for i := 0; i < shards; i++ {
			r.Must(q, fmt.Sprintf("shard %d is recovered from what is recorded of it", i), P(fmt.Sprintf("%s(%%, %%, a0, %%, %%, %s, %s, %s)", rt, m("GetLastPrunedTwig", i), m("GetOldestActiveTwigID", i), m("GetYoungestTwigID", i))))
			r.Must(q, fmt.Sprintf("shard %d: the recorded edge nodes are decoded", i), P("datatree.BytesToEdgeNodes("+m("GetEdgeNodes", i)+")"))
			r.Must(q, fmt.Sprintf("shard %d: the recorded size of the entry file is used", i), P("=[](%[0], "+m("GetEntryFileSize", i)+")"))
			r.Must(q, fmt.Sprintf("shard %d: the recorded size of the twig file is used", i), P("=[](%[1], "+m("GetTwigMtFileSize", i)+")"))
			r.Must(q, fmt.Sprintf("shard %d: the root is compared with the recorded one", i), P("MetaDB.GetRootHash(%, "+itoa(int64(i))+")"))
		}
		r.NotAfter(q, "what is recorded is loaded before the shards are recovered", rt, "MetaDB.ReloadFromKVDB")
		bad := r.Q(a, name+", a recovered root that differs from the recorded one", append([]Fact{{"==(#1(datatree.RecoverTree(%)),%)||==(%,#1(datatree.RecoverTree(%)))||bytes.Equal(%#1(datatree.RecoverTree(%)%)", vb(false)}}, f...)...)
		if len(bad.rootRets()) > 0 && len(bad.Find("bytes.Equal || reflect.DeepEqual || bytes.Compare")) > 0 {
			r.undecided("roots that differ", "the roots are compared in another way")
		} else {
			r.NoReturn(bad, "it is not opened")
		}
		// the index
		send := "send(%.idxTreeJobChan[types.GetIndexChanID(recv(%).Key[0]%)]%||%.idxTreeJobChan[types.GetIndexChanID(#0(recv(%)).Key[0]%)]%, {key:recv(%).Key,pos:recv(%).Pos}||{key:#0(recv(%)).Key,pos:#0(recv(%)).Pos})"
		r.MustEach(q, "shard {i}: its entries are scanned", shards, P("DataTree.ScanEntriesLite(%.datTree[{i}]%||#0(datatree.RecoverTree(%)))"))
		r.Beside(q, "the entries are taken while they are handed over", "DataTree.ScanEntriesLite", "recv(%)")
		for i := 0; i < shards; i++ {
			r.Must(q, fmt.Sprintf("shard %d: its entries are scanned from the oldest active twig on", i), P(fmt.Sprintf("DataTree.ScanEntriesLite(%%.datTree[%d]%%, %s)", i, m("GetOldestActiveTwigID", i))))
			r.Exists(q, fmt.Sprintf("shard %d: it is asked which of its entries are active", i), P(fmt.Sprintf("DataTree.GetActiveBit(%%.datTree[%d]%%, recv(%%).SerialNum||#0(recv(%%)).SerialNum)", i)))
		}
		r.Only(q, "only the number of the entry is asked for", "DataTree.GetActiveBit", "DataTree.GetActiveBit(%.datTree[%]%, recv(%).SerialNum||#0(recv(%)).SerialNum)")
		on := r.Q(a, name+", active entries", append([]Fact{{"DataTree.GetActiveBit(%)", vb(true)}}, f...)...)
		r.PerIter(on, "every active entry goes into the index, with its place", 0, P(send))
		r.FullRange(on, "all active entries go into the index", 0, P(send))
		r.Only(on, "the index is told of nothing else", "send", P(send))
		off := r.Q(a, name+", inactive entries", append([]Fact{{"DataTree.GetActiveBit(%)", vb(false)}}, f...)...)
		r.Never(off, "none goes into the index", "send")
		r.Must(q, "the index takes up what it is told", run)
		r.Must(q, "the index is waited for", flush)
		r.NotAfter(q, "the index is told while it listens", P("send"), run)
		r.NotAfter(q, "nothing is told once it is waited for", flush, "send")
		r.Must(q, "the index is open for writing", "IndexTree.BeginWrite")
		r.NotAfter(q, "the index is opened before it is told anything", P(run+" || send"), "IndexTree.BeginWrite")
		r.Must(q, "the index is closed for writing", "IndexTree.EndWrite")
		r.NotAfter(q, "the index is closed when all is in", "IndexTree.EndWrite", P("send || "+flush+" || "+run))
		r.NotAfter(q, "the entries are scanned when the shards are back", "DataTree.ScanEntriesLite", rt)
		if hist {
			const onI, offI = "IndexTree.SetDuringInit(%, true)", "IndexTree.SetDuringInit(%, false)"
			r.Must(q, "the index is told that its history is there already", onI)
			r.NotAfter(q, "it is told before it is filled", "IndexTree.BeginWrite || send || "+run, onI)
			r.Must(q, "it is told when that is over", offI)
			r.NotAfter(q, "it is told only when it is filled", offI, "IndexTree.EndWrite || send || "+flush)
			r.Must(q, "the index keeps its history in the database", "indextree.NewNVTreeMem(#0(indextree.NewRocksDB(%)))")
		} else {
			r.Must(q, "the index keeps no history", "indextree.NewNVTreeMem(nil)")
			r.Never(q, "the index is not told otherwise", "indextree.NewNVTreeMem(#0(indextree.NewRocksDB(%)))")
		}
	}
	q := r.Q(a, "a new database", Fact{"os.IsNotExist(%)||errors.Is(%)", vb(true)}, Fact{"#1(indextree.NewRocksDB(%))", V{k: vNil}})
	r.MustEach(q, "shard {i} begins empty", shards, "=MoeingADS.datTree[](%.datTree[{i}], datatree.NewEmptyTree(%))")
	r.Must(q, "what is recorded begins empty", "MetaDB.Init")
	r.Must(q, "the guards are put in", "(*moeingads.MoeingADS).initGuards")
	r.Never(q, "nothing is recovered", rt, "MetaDB.ReloadFromKVDB")
	r.NotAfter(q, "what is recorded begins empty before numbers are given out", "MetaDB.IncrMaxSerialNum || (*moeingads.MoeingADS).initGuards", "MetaDB.Init")
}

func repl(s, old, new string) string { return strings.ReplaceAll(s, old, new) }

func hasUnknown(v string) bool {
	return strings.Contains(v, "?top") || strings.Contains(v, "?(") || strings.Contains(v, "?bytes")
}

// pointee is the content of what argument i of the effect points to.
func (m *Mach) pointee(s State, i int) string {
	v := m.pointeeSym(s, i)
	if v == nil {
		return ""
	}
	return m.num(v)
}

func (m *Mach) pointeeSym(s State, i int) *Sym {
	x := m.ArgAt(s, i)
	if x == nil {
		return nil
	}
	out := x
	m.At(s, func() {
		v := m.settle(x)
		if v.k == KAddr && v.args[0].k == KLocal {
			out = m.show(m.load(v.args[0]))
		}
	})
	return out
}

// Own: what the pointer given as argument arg of p points to is made anew in
// every round of the loop around p.
func (r *R) Own(q *Q, what string, p P, arg int) bool {
	r.uses(p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	fs := q.Find(p)
	for _, s := range fs {
		r.site(s)
		ef := s.n.Eff()
		ch := s.n.Chain()
		if arg >= len(ef.args) || len(ch) == 0 {
			continue
		}
		v := ef.args[arg]
		if v.k == KAddr {
			v = v.args[0]
		} else if v.k != KSlice {
			continue
		}
		l := rootOf(v)
		al, ok := l.val.(*ssa.Alloc)
		if !ok || l.k != KLocal || l.ctx == nil {
			continue
		}
		in := ch[0].l.Blocks[al.Block()]
		if l.ctx != ch[0].c {
			in = false
			for c := l.ctx; c != nil && c.parent != nil; c = c.parent {
				if c.parent == ch[0].c && c.site != nil && ch[0].l.Blocks[c.site.Block()] {
					in = true
				}
			}
		}
		if !in && r.done(q, ob) {
			r.fail(ob, s.n.Where(), what+": all rounds of the loop use the same "+l.String(), s.n.Where())
			return false
		}
	}
	if !r.done(q, ob) {
		return true
	}
	if len(fs) == 0 {
		r.fail(ob, q.a.rootNm, what+": "+string(p)+" is not reachable"+r.near(q, p))
		return false
	}
	r.ok(ob)
	return true
}

// Beside: what hands values over through a channel of limited room runs in a
// goroutine of its own, started before they are taken: otherwise it waits for
// room that nobody makes.
func (r *R) Beside(q *Q, what string, prod, take P) bool {
	r.uses(prod, take)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	takes := q.Find(take)
	for _, s := range q.Find(prod) {
		r.site(s)
		if _, ok := s.n.ins.(*ssa.Go); ok {
			continue
		}
		g := goRoot(s.n.c)
		for _, t := range takes {
			if goRoot(t.n.c) == g {
				if r.done(q, ob) {
					r.fail(ob, s.n.Where(), clip(q.EffStr(s), 100)+" hands over more than the channel has room for, in the goroutine that takes from it ("+t.n.Where()+")")
				}
				return false
			}
		}
	}
	path := q.Path([]State{q.start()}, q.may(prod), func(s State) bool { return q.Match(s, take) == mMust })
	if !r.done(q, ob) {
		return true
	}
	if path != nil {
		r.fail(ob, path[len(path)-1].n.Where(), "what is to be taken is not being handed over yet: "+what, q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}
