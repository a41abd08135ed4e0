package main

import (
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", "effects and results of every operation of the index and of the lookups built on it by conditional constant propagation, one scenario per phase, presence and kind of entry", p19)
}

const (
	bt  = "(*indextree/b/cppbtree.Tree)."
	ben = "(*indextree/b/cppbtree.Enumerator)."
	cfn = "indextree/b/cppbtree._Cfunc_"
)

var idxOpts = Opts{NoInline: []string{"(*%cppbtree.%).%"}, key: "idx"}
var cOpts = Opts{NoInline: []string{"indextree/b/cppbtree._C%"}, key: "cgo"}

func writing(b bool) Fact { return Fact{"recv.isWriting", vb(b)} }

// wrongPhase: the operation refuses, and does nothing, while the tree is (not) being written.
func (r *R) wrongPhase(a *Analysis, when bool, ops ...P) *Q {
	name := "the tree is not being written"
	if when {
		name = "the tree is being written"
	}
	q := r.Q(a, name, writing(when))
	r.NoReturn(q, "refused")
	if len(ops) > 0 {
		r.Never(q, "nothing is done", ops...)
	}
	return q
}

func p19(r *R) {
	get := bt + "Get(recv.bt,BE8(a0))"
	anyBt := P(bt + "% || Batch.%")
	// --- the phases
	if a := r.An("indextree", "(*NVTreeMem).BeginWrite", idxOpts); a != nil {
		q := r.wrongPhase(a, true)
		r.Never(q, "the height is left alone", "=NVTreeMem.currHeight%")
		q = r.Q(a, "no write is going on", writing(false))
		r.Ends(q, "the tree is being written", "recv.isWriting", "true")
		for _, h := range []int64{-1, 0, 1, 1 << 40} {
			q := r.Q(a, "no write is going on, height "+itoa(h), writing(false), Fact{"a0", vi(h)})
			r.Ends(q, "the height is that of the block", "recv.currHeight", "be8(a0)", fmt.Sprintf("0x%016x", uint64(h)), "be8("+itoa(h)+")")
		}
		r.Before(q, "readers are kept out before the write begins", "(*sync.%).Lock(&recv.mtx)", "=NVTreeMem.isWriting(recv.isWriting, true)")
	}
	if a := r.An("indextree", "(*NVTreeMem).EndWrite", idxOpts); a != nil {
		r.wrongPhase(a, false, "(*sync.%).Unlock(&recv.mtx)")
		q := r.Q(a, "a write is going on", writing(true))
		r.Ends(q, "the tree is not being written", "recv.isWriting", "false")
		r.Before(q, "the write is over before readers are let in", "=NVTreeMem.isWriting(recv.isWriting, false)", "(*sync.%).Unlock(&recv.mtx)")
	}
	// --- the latest position of a key
	if a := r.An("indextree", "(*NVTreeMem).Set", idxOpts); a != nil {
		r.wrongPhase(a, false, anyBt)
		for _, c := range []struct {
			n string
			f []Fact
		}{
			{"with a history", []Fact{{"recv.kvdb", V{k: vNonNil}}, {"recv.duringInit", vb(false)}}},
			{"during initialization", []Fact{{"recv.kvdb", V{k: vNonNil}}, {"recv.duringInit", vb(true)}}},
			{"without a history", []Fact{{"recv.kvdb", V{k: vNil}}}},
		} {
			q := r.Q(a, c.n, append(c.f, writing(true))...)
			set := P(bt + "Set(recv.bt, BE8(a0), a1) || " + bt + "PutNewAndGetOld(recv.bt, BE8(a0), a1)")
			r.Must(q, "the key maps to the position", set)
			r.Only(q, "no other key changes", P(bt+"Set || "+bt+"PutNewAndGetOld || "+bt+"Delete"), set)
		}
	}
	if a := r.An("indextree", "(*NVTreeMem).Delete", idxOpts); a != nil {
		r.wrongPhase(a, false, P(bt+"Delete || Batch.%"))
		q := r.Q(a, "the key is not there", writing(true), Fact{"#1(" + get + ")", vb(false)})
		r.NoReturn(q, "refused")
		for _, c := range []struct {
			n string
			f []Fact
		}{
			{"with a history", []Fact{{"recv.kvdb", V{k: vNonNil}}, {"recv.duringInit", vb(false)}}},
			{"during initialization", []Fact{{"recv.kvdb", V{k: vNonNil}}, {"recv.duringInit", vb(true)}}},
			{"without a history", []Fact{{"recv.kvdb", V{k: vNil}}}},
		} {
			q := r.Q(a, c.n, append(c.f, writing(true), Fact{"#1(" + get + ")", vb(true)})...)
			del := P(bt + "Delete(recv.bt, BE8(a0))")
			r.Must(q, "the key maps to nothing", del)
			r.Only(q, "no other key changes", P(bt+"Set || "+bt+"PutNewAndGetOld || "+bt+"Delete"), del)
		}
	}
	if a := r.An("indextree", "(*NVTreeMem).Get", idxOpts); a != nil {
		r.wrongPhase(a, true)
		q := r.Q(a, "the key is not there", writing(false), Fact{"#1(" + get + ")", vb(false)})
		r.Result(q, "it is not found", 1, "#1("+get+")", "false")
		q = r.Q(a, "the key is there", writing(false), Fact{"#1(" + get + ")", vb(true)})
		r.Result(q, "the position is that of the key", 0, "#0("+get+")")
		r.Result(q, "it is found", 1, "#1("+get+")", "true")
		r.Never(q, "reading changes nothing", bt+"Set || "+bt+"PutNewAndGetOld || "+bt+"Delete || Batch.%")
	}
	if a := r.An("indextree", "(*NVTreeMem).ActiveCount", idxOpts); a != nil {
		r.Result(r.Q(a, ""), "the number of keys there are", 0, bt+"Len(recv.bt)")
	}
	// --- the Go side of the tree
	if a := r.An("indextree/b/cppbtree", "(*Tree).Set", cOpts); a != nil {
		r.Must(r.Q(a, "Tree.Set"), "passed on", cfn+"cppbtree_set(recv.ptr, a0, a1) || "+cfn+"cppbtree_put_new_and_get_old(recv.ptr, a0, a1)")
	}
	if a := r.An("indextree/b/cppbtree", "(*Tree).Delete", cOpts); a != nil {
		r.Must(r.Q(a, "Tree.Delete"), "passed on", cfn+"cppbtree_erase(recv.ptr, a0)")
	}
	if a := r.An("indextree/b/cppbtree", "(*Tree).Len", cOpts); a != nil {
		r.Result(r.Q(a, "Tree.Len"), "passed on", 0, cfn+"cppbtree_size(recv.ptr)")
	}
	if a := r.An("indextree/b/cppbtree", "(*Tree).Get", cOpts); a != nil {
		q := r.Q(a, "Tree.Get")
		c := cfn + "cppbtree_get(recv.ptr,a0,&$%)"
		r.Must(q, "asked for the key", P(cfn+"cppbtree_get(recv.ptr, a0)"))
		r.Result(q, "the position is the one found", 0, c)
		r.cOut(q, "it is there if it was found", 1, cfn+"cppbtree_get", 2)
	}
	// --- what is looked up by key
	adsO := adsOpts
	adsO.key = "look"
	adsO.Iface = nil
	pos, ok := "#0(IndexTree.Get(recv.idxTree,a0))", "#1(IndexTree.Get(recv.idxTree,a0))"
	sh := "types.GetShardID(a0)"
	rd := "DataTree.ReadEntry(recv.datTree[" + sh + "]," + pos + ")"
	if a := r.An("", "(*MoeingADS).GetEntry", adsO); a != nil {
		q := r.Q(a, "the key is not there", Fact{ok, vb(false)})
		r.Result(q, "nothing is found", 0, "nil")
		q = r.Q(a, "the key is there", Fact{ok, vb(true)})
		r.Result(q, "the entry at its position in its shard", 0, rd)
	}
	if a := r.An("", "(*MoeingADS).GetEntryAtHeight", adsO); a != nil {
		g := "IndexTree.GetAtHeight(recv.idxTree,a0,a1)"
		q := r.Q(a, "nothing is indexed for the key", Fact{"#1(" + g + ")", vb(false)})
		r.Result(q, "nothing is found", 0, "nil")
		q = r.Q(a, "a position is indexed", Fact{"#1(" + g + ")", vb(true)})
		r.Result(q, "the entry at that position in its shard", 0, "DataTree.ReadEntry(recv.datTree["+sh+"],#0("+g+"))")
	}
	if a := r.An("", "(*MoeingADS).GetProof", adsO); a != nil {
		bit := "DataTree.GetActiveBit(recv.datTree[" + sh + "]," + rd + ".SerialNum%)"
		bz := "DataTree.ReadEntryBytesForProof(recv.datTree[" + sh + "]," + pos + ")"
		q := r.Q(a, "the key is not there", Fact{ok, vb(false)})
		r.Refused(q, "an error is returned", 2)
		q = r.Q(a, "the entry is not active", Fact{ok, vb(true)}, Fact{bit, vb(false)}, Fact{rd, V{k: vNonNil}})
		r.NoReturn(q, "refused")
		q = r.Q(a, "the entry is active", Fact{ok, vb(true)}, Fact{bit, vb(true)}, Fact{rd, V{k: vNonNil}})
		pf := "DataTree.GetProofBytesAndCheck(recv.datTree[" + sh + "]," + rd + ".SerialNum%," + bz + ")"
		r.Result(q, "the bytes are those at its position in its shard", 0, bz)
		r.Result(q, "the proof is of its number and those bytes", 1, "#0("+pf+")")
		r.Result(q, "the error is that of the proof", 2, "#1("+pf+")")
	}
	if a := r.An("", "(*MoeingADS).getPrevEntry", adsO); a != nil {
		it := "IndexTree.ReverseIterator(recv.idxTree,recv.startKey,a0)"
		key := "IteratorUI64.Key(" + it + ")"
		e := "DataTree.ReadEntry(recv.datTree[types.GetShardID(" + key + ")],IteratorUI64.Value(" + it + "))"
		bit := "DataTree.GetActiveBit(recv.datTree[types.GetShardID(" + key + ")]," + e + ".SerialNum%)"
		valid := "IteratorUI64.Valid(" + it + ")"
		q := r.Q(a, "there is no smaller key", Fact{valid, vb(false)})
		r.NoReturn(q, "refused")
		q = r.Q(a, "the entry of the next smaller key is not active", Fact{valid, vb(true)}, Fact{bit, vb(false)})
		r.NoReturn(q, "refused")
		q = r.Q(a, "the entry of the next smaller key is active", Fact{valid, vb(true)}, Fact{bit, vb(true)})
		r.Result(q, "it is the entry at its position in the shard of its own key", 0, e)
		r.Must(q, "the iterator is closed", P("IteratorUI64.Close("+it+")"))
	}
}

// cOut: the result is what the C function wrote through its i-th argument.
func (r *R) cOut(q *Q, what string, idx int, fn string, i int) bool {
	ob := r.scn(q) + ": " + what
	curAn = q.a
	var want []string
	for _, s := range q.Find(P(fn + "(%)")) {
		x := strings.TrimPrefix(q.EffArg(s, i), "&")
		want = append(want, x+"@", x)
	}
	if len(want) == 0 {
		r.undecided(ob, fn+" is not called")
		return true
	}
	return r.Result(q, what, idx, want...)
}

func init() {
	register("P23", "effects, results and number of moves of every iterator operation by conditional constant propagation, one scenario per position relative to the bounds", p23)
	register("P31", "records written and read by the history of the index as byte-sequence terms, and decisions of the pruning filter, one scenario per kind of record", p31)
}

// Times: every way to the end has exactly n effects that match.
func (r *R) Times(q *Q, what string, n int, p P) bool {
	r.uses(p)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	type st struct {
		s State
		n int
	}
	must, may := q.must(p), q.may(p)
	seen := map[string]bool{}
	from := map[string]State{}
	todo := []st{{q.start(), 0}}
	bad, unk := "", false
	var where State
	rets := 0
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		k := x.n
		if may(x.s) {
			r.site(x.s)
			if !must(x.s) {
				unk = true
			}
			k++
		}
		if k > n+1 {
			k = n + 1
		}
		key := x.s.key() + "/" + itoa(int64(k))
		if seen[key] {
			continue
		}
		seen[key] = true
		if x.s.n.kind == nodeRet && x.s.n.c == q.a.root {
			rets++
			if k != n && bad == "" {
				bad, where = what+": done "+itoa(int64(k))+" times, expected "+itoa(int64(n)), x.s
				if k > n {
					bad = what + ": done more than " + itoa(int64(n)) + " times"
				}
			}
			continue
		}
		for _, t := range q.Next(x.s) {
			if _, ok := from[t.key()]; !ok {
				from[t.key()] = x.s
			}
			todo = append(todo, st{t, k})
		}
	}
	if !r.done(q, ob) {
		return true
	}
	switch {
	case bad != "" && unk:
		r.undecided(ob, "some effects are not known")
	case bad != "":
		r.fail(ob, where.n.Where(), bad, where.n.Where())
		return false
	case rets == 0:
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	default:
		r.ok(ob)
	}
	return true
}

func p23(r *R) {
	fwd := func(it string) string { return ben + "Next(" + it + ")" }
	bwd := func(it string) string { return ben + "Prev(" + it + ")" }
	lo, hi := int64(1000), int64(2000)
	for _, c := range []struct {
		typ, op string
		move    func(string) string
		in, out [2]int64
		other   string
	}{
		{"ForwardIterMem", "Iterator", fwd, [2]int64{lo, hi - 1}, [2]int64{hi, 1 << 62}, "Prev"},
		{"BackwardIterMem", "ReverseIterator", bwd, [2]int64{lo, hi - 1}, [2]int64{0, lo - 1}, "Next"},
	} {
		en := "recv.enumerator"
		mv := c.move(en)
		phase := func(b bool) Fact { return Fact{"recv.tree.isWriting", vb(b)} }
		rng := []Fact{{"recv.start", vi(lo)}, {"recv.end", vi(hi)}}
		anyMove := P(ben + "Next || " + ben + "Prev")
		if a := r.An("indextree", "(*"+c.typ+").Next", idxOpts); a != nil {
			f := func(more ...Fact) []Fact { return append(append([]Fact{phase(false)}, rng...), more...) }
			q := r.Q(a, c.typ+", the tree is being written", append(rng, phase(true), Fact{"recv.err", V{k: vNil}})...)
			r.NoReturn(q, "refused")
			q = r.Q(a, c.typ+", already at its end", f(Fact{"recv.err", V{k: vNonNil}})...)
			r.Never(q, "it does not move", anyMove)
			r.Only(q, "it stays there", P("="+c.typ+".err"), P("="+c.typ+".err(recv.err, io.EOF||recv.err||recv.err@)"))
			q = r.Q(a, c.typ+", the next key is in the range", f(Fact{"recv.err", V{k: vNil}}, Fact{"#0(" + mv + ")", V{k: vInt, lo: c.in[0], hi: c.in[1]}}, Fact{"#2(" + mv + ")", V{k: vNil}})...)
			r.Times(q, "it moves once", 1, P(mv))
			r.Never(q, "it moves in its own direction", P(ben+c.other))
			r.Ends(q, "the key is the one found", "recv.key", "#0("+mv+")")
			r.Ends(q, "the value is the one found", "recv.value", "#1("+mv+")")
			r.Ends(q, "it is valid", "recv.err", "#2("+mv+")", "nil")
			q = r.Q(a, c.typ+", the next key is out of the range", f(Fact{"recv.err", V{k: vNil}}, Fact{"#0(" + mv + ")", V{k: vInt, lo: c.out[0], hi: c.out[1]}}, Fact{"#2(" + mv + ")", V{k: vNil}})...)
			r.Ends(q, "it is at its end", "recv.err", "io.EOF")
			for _, k := range [][2]int64{c.in, c.out} {
				q = r.Q(a, c.typ+", there are no more keys ("+itoa(k[0])+")", f(Fact{"recv.err", V{k: vNil}}, Fact{"#0(" + mv + ")", V{k: vInt, lo: k[0], hi: k[1]}}, Fact{"#2(" + mv + ")", V{k: vNonNil}})...)
				r.Ends(q, "it is at its end", "recv.err", "#2("+mv+")", "io.EOF")
			}
		}
		if a := r.An("indextree", "(*"+c.typ+").Valid", idxOpts); a != nil {
			r.Result(r.Q(a, c.typ+", not at its end", Fact{"recv.err", V{k: vNil}}), "it is valid", 0, "true")
			r.Result(r.Q(a, c.typ+", at its end", Fact{"recv.err", V{k: vNonNil}}), "it is not valid", 0, "false")
		}
		if a := r.An("indextree", "(*"+c.typ+").Key", idxOpts); a != nil {
			r.ResultBytes(r.Q(a, c.typ), "the key is that of the iterator, most significant byte first", 0, "be8(recv.key)")
		}
		if a := r.An("indextree", "(*"+c.typ+").Value", idxOpts); a != nil {
			r.Result(r.Q(a, c.typ), "the value is that of the iterator", 0, "recv.value")
		}
		if a := r.An("indextree", "(*"+c.typ+").Domain", idxOpts); a != nil {
			r.ResultBytes(r.Q(a, c.typ), "the domain begins at the start", 0, "be8(recv.start)")
			r.ResultBytes(r.Q(a, c.typ), "the domain ends at the end", 1, "be8(recv.end)")
		}
		if a := r.An("indextree", "(*"+c.typ+").Close", idxOpts); a != nil {
			q := r.Q(a, c.typ+" with an enumerator", Fact{en, V{k: vNonNil}})
			r.Times(q, "its memory is given back once", 1, P(ben+"Close(recv.enumerator)"))
			r.Times(q, "writers are let in", 1, P("(*sync.%).RUnlock(&recv.tree.mtx)"))
			q = r.Q(a, c.typ+" over nothing", Fact{en, V{k: vNil}})
			r.Times(q, "writers are let in", 1, P("(*sync.%).RUnlock(&recv.tree.mtx)"))
		}
		if a := r.An("indextree", "(*NVTreeMem)."+c.op, idxOpts); a != nil {
			from := "BE8(a0)"
			if c.op == "ReverseIterator" {
				from = "BE8(a1)"
			}
			seek := bt + "Seek(recv.bt,%)"
			mv := c.move("#0(" + seek + ")")
			r.NoReturn(r.Q(a, c.op+", the tree is being written", writing(true)), "refused")
			for _, e := range []struct {
				n string
				c int64
				s int64
			}{{"equal", 0, hi}, {"greater", 1, hi + 1}} {
				q := r.Q(a, c.op+", the start is "+e.n, writing(false), Fact{"bytes.Compare(a0,a1)", vi(e.c)}, Fact{"bytes.Compare(a1,a0)", vi(-e.c)}, Fact{"bytes.Equal(a0,a1)||bytes.Equal(a1,a0)", vb(e.c == 0)}, Fact{"BE8(a0)", vi(e.s)}, Fact{"BE8(a1)", vi(hi)})
				r.deepField(q, "it is at its end", "err", "io.EOF")
				r.Times(q, "writers are kept out", 1, "(*sync.%).RLock(&recv.mtx)")
				r.Never(q, "writers are kept out until it is closed", "(*sync.%).RUnlock(&recv.mtx)")
			}
			base := []Fact{writing(false), {"bytes.Compare(a0,a1)", vi(-1)}, {"bytes.Compare(a1,a0)", vi(1)}, {"bytes.Equal(%)", vb(false)}, {"BE8(a0)", vi(lo)}, {"BE8(a1)", vi(hi)}}
			for _, eq := range []bool{false, true} {
				n, name := 1, c.op+", the bound is not a key"
				if eq {
					name = c.op + ", the bound is a key"
					if c.op == "ReverseIterator" {
						n = 2
					}
				}
				f := append(append([]Fact{}, base...), Fact{"#1(" + seek + ")", vb(eq)})
				q := r.Q(a, name+", the first key is in the range", append(f, Fact{"#0(" + mv + ")", V{k: vInt, lo: c.in[0], hi: c.in[1]}}, Fact{"#2(" + mv + ")", V{k: vNil}})...)
				r.Times(q, "it begins at the bound", 1, P(bt+"Seek(recv.bt, "+from+"||"+map[string]string{"BE8(a0)": itoa(lo), "BE8(a1)": itoa(hi)}[from]+")"))
				r.Never(q, "nothing else is looked for", P(bt+"Seek(recv.bt, "+map[string]string{"BE8(a1)": "BE8(a0)||" + itoa(lo), "BE8(a0)": "BE8(a1)||" + itoa(hi)}[from]+")"))
				r.Times(q, "moves to the first key", n, P(mv))
				r.Never(q, "it moves in its own direction", P(ben+c.other))
				r.deepField(q, "its key is the first", "key", "#0("+mv+")")
				r.deepField(q, "its value is that of the first", "value", "#1("+mv+")")
				r.deepField(q, "it is valid", "err", "#2("+mv+")", "nil")
				r.deepField(q, "the start is kept", "start", from[:3]+"(a0%)")
				r.deepField(q, "the end is kept", "end", from[:3]+"(a1%)")
				r.Times(q, "writers are kept out", 1, "(*sync.%).RLock(&recv.mtx)")
				r.Never(q, "writers are kept out until it is closed", "(*sync.%).RUnlock(&recv.mtx)")
				q = r.Q(a, name+", the first key is out of the range", append(f, Fact{"#0(" + mv + ")", V{k: vInt, lo: c.out[0], hi: c.out[1]}}, Fact{"#2(" + mv + ")", V{k: vNil}})...)
				r.deepField(q, "it is at its end", "err", "io.EOF")
				for _, k := range [][2]int64{c.in, c.out} {
					q = r.Q(a, name+", there is no key ("+itoa(k[0])+")", append(f, Fact{"#0(" + mv + ")", V{k: vInt, lo: k[0], hi: k[1]}}, Fact{"#2(" + mv + ")", V{k: vNonNil}})...)
					r.deepField(q, "it is at its end", "err", "#2("+mv+")", "io.EOF")
				}
			}
		}
	}
	r.enumerator()
	r.rocksIter()
}

// deepField: the field of the object returned holds one of the forms.
func (r *R) deepField(q *Q, what, field string, forms ...string) bool {
	var fs []string
	for _, f := range forms {
		f = strings.ReplaceAll(strings.ReplaceAll(f, "BE8(a0)", "BE8(a0%)"), "BE8(a1)", "BE8(a1%)")
		fs = append(fs, "&{"+field+":"+f+"}", "&{"+field+":"+f+",%", "&{%,"+field+":"+f+",%", "&{%,"+field+":"+f+"}")
	}
	return r.DeepResult(q, what, 0, fs...)
}

// enumerator: the Go side of the iterators of the tree.
func (r *R) enumerator() {
	for _, c := range []struct{ fn, c string }{{"Next", "iter_next"}, {"Prev", "iter_prev"}} {
		a := r.An("indextree/b/cppbtree", "(*Enumerator)."+c.fn, cOpts)
		if a == nil {
			continue
		}
		mv := P(cfn + c.c + "(recv.iter)")
		if c.fn == "Next" {
			q := r.Q(a, "Enumerator.Next past the end", Fact{"recv.ending", vb(true)})
			r.Never(q, "it does not move", P(cfn+"iter_%"))
			r.Result(q, "there are no more", 2, "io.EOF")
		}
		for _, larger := range []bool{false, true} {
			for _, valid := range []bool{false, true} {
				n, name := 1, "Enumerator."+c.fn
				if larger {
					name += ", standing at a key greater than the one sought"
					if c.fn == "Prev" {
						n = 2
					}
				}
				v := int64(0)
				if valid {
					name += ", at a key"
					v = 1
				} else {
					name += ", at no key"
				}
				f := []Fact{{"recv.largerThanTarget", vb(larger)}, {"%.is_valid", vi(v)}}
				if c.fn == "Next" {
					f = append(f, Fact{"recv.ending", vb(false)})
				}
				q := r.Q(a, name, f...)
				r.Times(q, "moves as often as it has to", n, mv)
				r.Never(q, "moves in its own direction", P(cfn+map[string]string{"Next": "iter_prev", "Prev": "iter_next"}[c.fn]))
				r.Ends(q, "what follows is relative to where it now is", "recv.largerThanTarget", "false")
				if c.fn == "Prev" {
					r.Ends(q, "it is not past the end any more", "recv.ending", "false")
				}
				if valid {
					r.Result(q, "the key is that found", 0, cfn+c.c+"(recv.iter)%.key")
					r.Result(q, "the position is that found", 1, cfn+c.c+"(recv.iter)%.value")
					r.Result(q, "there is no error", 2, "nil")
				} else {
					r.Result(q, "there are no more", 2, "io.EOF")
				}
			}
		}
	}
	if a := r.An("indextree/b/cppbtree", "(*Tree).Seek", cOpts); a != nil {
		q := r.Q(a, "Tree.Seek")
		seek := cfn + "cppbtree_seek"
		r.Times(q, "asked for the key", 1, P(seek+"(recv.ptr, a0)"))
		r.cOut(q, "whether the key was found", 1, seek, 2)
		for _, s := range q.Find(P(seek + "(%)")) {
			for _, x := range []struct {
				f string
				i int
			}{{"largerThanTarget", 3}, {"ending", 5}} {
				v := strings.TrimPrefix(q.EffArg(s, x.i), "&")
				r.deepField(q, "where it stands is kept: "+x.f, x.f, v+"@", v+"'", v)
			}
		}
		r.deepField(q, "the iterator is kept", "iter", seek+"(recv.ptr,a0,%)")
	}
	if a := r.An("indextree/b/cppbtree", "(*Enumerator).Close", cOpts); a != nil {
		r.Times(r.Q(a, "Enumerator.Close"), "its memory is given back", 1, P(cfn+"iter_delete(recv.iter)"))
	}
}

const gi = "(*github.com/tecbot/gorocksdb.Iterator)."

// rocksIter: the iterators over the records on disk.
func (r *R) rocksIter() {
	o := Opts{NoInline: []string{"indextree.moveSliceToBytes"}, key: "rit"}
	kv := func(src string) string { return "indextree.moveSliceToBytes(" + gi + "Key(" + src + "))" }
	if a := r.An("indextree", "newRocksDBIterator", o); a != nil {
		key := kv("a0")
		cmp := func(n int64) []Fact {
			return []Fact{{"bytes.Compare(a2," + key + ")", vi(n)}, {"bytes.Compare(" + key + ",a2)", vi(-n)}, {"bytes.Equal(%)", vb(n == 0)}}
		}
		rev, fw := Fact{"a3", vb(true)}, Fact{"a3", vb(false)}
		some := []P{P(gi + "Seek"), P(gi + "SeekToFirst"), P(gi + "SeekToLast"), P(gi + "Next"), P(gi + "Prev")}
		only := func(q *Q, what string, ps ...P) {
			for i, p := range ps {
				r.Times(q, what+" ("+itoa(int64(i+1))+")", 1, p)
			}
			for _, s := range some {
				var al []P
				for _, p := range ps {
					if strings.HasPrefix(string(p), string(s)+"(") {
						al = append(al, p)
					}
				}
				if len(al) == 0 {
					r.Never(q, what+", and does not move otherwise", s+"(%)")
				}
			}
		}
		seekEnd := P(gi + "Seek(a0, a2)")
		q := r.Q(a, "backwards without an end", rev, Fact{"a2", V{k: vNil}})
		only(q, "it begins at the last record", P(gi+"SeekToLast(a0)"))
		q = r.Q(a, "backwards, no record at or after the end", rev, Fact{"a2", V{k: vNonNil}}, Fact{gi + "Valid(a0)", vb(false)})
		only(q, "it begins at the last record", seekEnd, P(gi+"SeekToLast(a0)"))
		r.Before(q, "after looking for the end", seekEnd, P(gi+"SeekToLast(a0)"))
		for _, n := range []int64{0, -1} {
			name := map[int64]string{0: "there is a record at the end", -1: "there is a record after the end"}[n]
			q = r.Q(a, "backwards, "+name, append(cmp(n), rev, Fact{"a2", V{k: vNonNil}}, Fact{gi + "Valid(a0)", vb(true)})...)
			only(q, "it begins at the record before the end", seekEnd, P(gi+"Prev(a0)"))
			r.Before(q, "after looking for the end", seekEnd, P(gi+"Prev(a0)"))
		}
		q = r.Q(a, "forwards without a start", fw, Fact{"a1", V{k: vNil}})
		only(q, "it begins at the first record", P(gi+"SeekToFirst(a0)"))
		q = r.Q(a, "forwards with a start", fw, Fact{"a1", V{k: vNonNil}})
		only(q, "it begins at the start", P(gi+"Seek(a0, a1)"))
		for _, b := range []bool{true, false} {
			q = r.Q(a, "the iterator made, backwards: "+map[bool]string{true: "true", false: "false"}[b], Fact{"a3", vb(b)})
			r.deepField(q, "it is over those records", "source", "a0")
			r.deepField(q, "the start is kept", "start", "a1")
			r.deepField(q, "the end is kept", "end", "a2")
			r.deepField(q, "the direction is kept", "isReverse", "a3", map[bool]string{true: "true", false: "false"}[b])
			r.deepField(q, "it may be valid", "isInvalid", "false")
		}
	}
	for _, c := range []struct{ fn, rev string }{{"Iterator", "false"}, {"ReverseIterator", "true"}} {
		if a := r.An("indextree", "(*RocksDB)."+c.fn, Opts{NoInline: []string{"indextree.newRocksDBIterator"}, key: "rit2"}); a != nil {
			r.Result(r.Q(a, c.fn), "it is over the bounds and in the direction asked for", 0, "indextree.newRocksDBIterator((*github.com/tecbot/gorocksdb.DB).NewIterator(recv.db,recv.ro),a0,a1,"+c.rev+")")
		}
	}
	if a := r.An("indextree", "(*rocksDBIterator).Valid", o); a != nil {
		key := kv("recv.source")
		src, e := gi+"Valid(recv.source)", gi+"Err(recv.source)"
		rest := []Fact{{"recv.isInvalid", vb(false)}, {e, V{k: vNil}}, {src, vb(true)}}
		r.Result(r.Q(a, "once invalid", Fact{"recv.isInvalid", vb(true)}), "invalid for ever", 0, "false")
		r.Result(r.Q(a, "an error", Fact{e, V{k: vNonNil}}), "invalid", 0, "false")
		r.Result(r.Q(a, "no record", Fact{e, V{k: vNil}}, Fact{src, vb(false)}), "invalid", 0, "false")
		for _, x := range []struct {
			n   string
			rev bool
			b   string
			nb  bool
			c   int64
			ok  bool
		}{
			{"backwards, before the start", true, "recv.start", false, -1, false},
			{"backwards, at the start", true, "recv.start", false, 0, true},
			{"backwards, after the start", true, "recv.start", false, 1, true},
			{"backwards, no start", true, "recv.start", true, 0, true},
			{"forwards, before the end", false, "recv.end", false, -1, true},
			{"forwards, at the end", false, "recv.end", false, 0, false},
			{"forwards, after the end", false, "recv.end", false, 1, false},
			{"forwards, no end", false, "recv.end", true, 0, true},
		} {
			nb := V{k: vNonNil}
			if x.nb {
				nb = V{k: vNil}
			}
			f := append([]Fact{{"recv.isReverse", vb(x.rev)}, {x.b, nb}, {"bytes.Compare(" + key + "," + x.b + ")", vi(x.c)}, {"bytes.Compare(" + x.b + "," + key + ")", vi(-x.c)}, {"bytes.Equal(" + key + "," + x.b + ")||bytes.Equal(" + x.b + "," + key + ")", vb(x.c == 0)}}, rest...)
			q := r.Q(a, x.n, f...)
			r.Result(q, "valid if in the range", 0, map[bool]string{true: "true", false: "false"}[x.ok])
			if x.ok {
				r.Never(q, "it goes on", P("=rocksDBIterator.isInvalid(recv.isInvalid, true)"))
			}
		}
	}
	po := Opts{NoInline: []string{"indextree.moveSliceToBytes", "(*indextree.rocksDBIterator).Valid"}, key: "rit3"}
	valid := "(*indextree.rocksDBIterator).Valid(%)"
	nextFn := "(*rocksDBIterator).Next"
	if r.p.Fn("indextree", "(rocksDBIterator).Next") != nil {
		nextFn = "(rocksDBIterator).Next"
	}
	if a := r.An("indextree", nextFn, po); a != nil {
		r.NoReturn(r.Q(a, "an invalid iterator", Fact{valid, vb(false)}), "refused")
		for _, rev := range []bool{true, false} {
			d, o := "Next", "Prev"
			if rev {
				d, o = o, d
			}
			q := r.Q(a, "a valid iterator, backwards: "+map[bool]string{true: "true", false: "false"}[rev], Fact{valid, vb(true)}, Fact{"%.isReverse%", vb(rev)})
			r.Times(q, "moves once", 1, P(gi+d+"(%.source%)"))
			r.Never(q, "moves in its own direction", P(gi+o))
		}
	}
	for _, k := range []string{"Key", "Value"} {
		if a := r.An("indextree", "(*rocksDBIterator)."+k, po); a != nil {
			r.NoReturn(r.Q(a, k+" of an invalid iterator", Fact{valid, vb(false)}), "refused")
			r.Result(r.Q(a, k+" of a valid iterator", Fact{valid, vb(true)}), "it is that of the record", 0, "indextree.moveSliceToBytes("+gi+k+"(recv.source))")
		}
	}
	r.sliceCopy()
}

// sliceCopy: what is read from the database is copied before it is freed.
func (r *R) sliceCopy() {
	a := r.An("indextree", "moveSliceToBytes", Opts{key: "mv"})
	if a == nil {
		return
	}
	gs := "(*github.com/tecbot/gorocksdb.Slice)."
	q := r.Q(a, "a record that is not there", Fact{gs + "Exists(a0)", vb(false)})
	r.Result(q, "nothing is found", 0, "nil")
	q = r.Q(a, "a record that is there", Fact{gs + "Exists(a0)", vb(true)})
	r.Times(q, "what is in it is copied", 1, P("builtin.copy(make(%), "+gs+"Data(a0)) || builtin.append(make(%)||$slicelit%||nil, "+gs+"Data(a0)) || bytes.Clone("+gs+"Data(a0))"))
	r.Result(q, "the copy is returned", 0, "make(%)", "append(%)", "bytes.Clone(%)")
	r.Times(q, "its memory is given back once", 1, P(gs+"Free(a0)"))
	r.NotAfter(q, "it is not read once given back", P(gs+"Free(a0)"), P(gs+"Data(a0) || builtin.copy(make(%), "+gs+"Data(a0))"))
}

func p31(r *R) {
	rec := "<0x00 a0 recv.currHeight>"
	_ = rec
	lock, unlock := P("IKVDB.LockBatch(recv.kvdb)"), P("IKVDB.UnlockBatch(recv.kvdb)")
	put := P("Batch.Set(IKVDB.CurrBatch(recv.kvdb))")
	get := bt + "Get(recv.bt,BE8(a0))"
	for _, c := range []struct{ fn, val string }{{"Set", "be8(a1)"}, {"Delete", "<>"}} {
		a := r.An("indextree", "(*NVTreeMem)."+c.fn, idxOpts)
		if a == nil {
			continue
		}
		with := []Fact{writing(true), {"#1(" + get + ")", vb(true)}, {"recv.kvdb", V{k: vNonNil}}}
		q := r.Q(a, c.fn, append(with, Fact{"recv.duringInit", vb(false)})...)
		r.Times(q, "one record is added to the batch", 1, put)
		r.Bytes(q, "its key is 0, the key and the height of the block", put, 1, "<0x00 a0 recv.currHeight[:]>")
		r.Bytes(q, "its value is the position, or empty", put, 2, c.val)
		r.Never(q, "records are not removed", "Batch.Delete")
		r.Before(q, "the batch is locked first", lock, put)
		r.After(q, "the batch is unlocked", put, unlock)
		r.NotAfter(q, "nothing is added once it is unlocked", unlock, put, lock)
		q = r.Q(a, c.fn+" during initialization", append(with, Fact{"recv.duringInit", vb(true)})...)
		r.Never(q, "no record is added", "Batch.%")
		q = r.Q(a, c.fn+" without a history", writing(true), Fact{"#1(" + get + ")", vb(true)}, Fact{"recv.kvdb", V{k: vNil}})
		r.Never(q, "no record is added", "Batch.% || IKVDB.%")
	}
	if a := r.An("indextree", "(*NVTreeMem).SetDuringInit", idxOpts); a != nil {
		r.Ends(r.Q(a, "SetDuringInit"), "as asked", "recv.duringInit", "a0")
	}
	if a := r.An("indextree", "(*NVTreeMem).GetAtHeight", idxOpts); a != nil {
		ph, en := "#0(IKVDB.GetPruneHeight(recv.kvdb))", "#1(IKVDB.GetPruneHeight(recv.kvdb))"
		it := "IKVDB.ReverseIterator(recv.kvdb,%)"
		valid, same := "Iterator.Valid("+it+")", "bytes.Equal(%)"
		val := "Iterator.Value(" + it + ")"
		for _, h := range []int64{0, 99, 100} {
			q := r.Q(a, "height "+itoa(h)+" with everything up to 100 pruned", Fact{en, vb(true)}, Fact{ph, vi(100)}, Fact{"a1", vi(h)})
			r.Result(q, "refused", 1, "false")
		}
		for _, c := range []struct {
			n string
			f []Fact
		}{
			{"height 101 with everything up to 100 pruned", []Fact{{en, vb(true)}, {ph, vi(100)}, {"a1", vi(101)}}},
			{"height 7 with nothing pruned", []Fact{{en, vb(false)}, {ph, vi(0)}, {"a1", vi(7)}}},
			{"height 0 with nothing pruned", []Fact{{en, vb(false)}, {ph, vi(0)}, {"a1", vi(0)}}},
		} {
			f := func(more ...Fact) []Fact { return append(append([]Fact{}, c.f...), more...) }
			q := r.Q(a, c.n+", no record", f(Fact{valid, vb(false)})...)
			r.Result(q, "not found", 1, "false")
			q = r.Q(a, c.n+", the record is of another key", f(Fact{valid, vb(true)}, Fact{same, vb(false)})...)
			r.Result(q, "not found", 1, "false")
			q = r.Q(a, c.n+", the key was deleted", f(Fact{valid, vb(true)}, Fact{same, vb(true)}, Fact{"len(" + val + ")", vi(0)})...)
			r.Result(q, "not found", 1, "false")
			q = r.Q(a, c.n+", the key was there", f(Fact{valid, vb(true)}, Fact{same, vb(true)}, Fact{"len(" + val + ")", vi(8)})...)
			r.Result(q, "found", 1, "true")
			r.Result(q, "the position is that of the record", 0, "BE8("+val+")")
		}
		q := r.Q(a, "what is looked for", Fact{en, vb(false)}, Fact{valid, vb(true)})
		rev := P("IKVDB.ReverseIterator(recv.kvdb)")
		r.Times(q, "the newest record up to the height is looked for", 1, rev)
		r.Bytes(q, "records of later heights are left out", rev, 2, "<0x00 a0 be8((a1+1))>")
		r.Bytes(r.Q(a, "what is looked for, a key of 8 bytes", Fact{en, vb(false)}, Fact{valid, vb(true)}, Fact{"len(a0)", vi(8)}), "records of later heights are left out", rev, 2, "<0x00 a0 be8((a1+1))>")
		r.Bytes(q, "there is no bound on how old it may be", rev, 1, "<>", "nil", "<0x00 a0>", "0x00", "<0x00 a0 0x0000000000000000>")
		r.Exists(q, "the record found is compared with the key", P("bytes.Equal(Iterator.Key("+it+")[1:(len(a0)+1)], a0) || bytes.Equal(a0, Iterator.Key("+it+")[1:(len(a0)+1)]) || bytes.Equal(Iterator.Key("+it+")[1:9], a0)"))
		r.After(q, "the iterator is closed", rev, P("Iterator.Close("+it+")"))
	}
	r.historyInit()
	r.pruneFilter()
}

// historyInit: the latest index is rebuilt from the newest record of every key.
func (r *R) historyInit() {
	a := r.An("indextree", "(*NVTreeMem).Init", idxOpts)
	if a == nil {
		return
	}
	it := "IKVDB.ReverseIterator(recv.kvdb,%)"
	key, val := "Iterator.Key("+it+")", "Iterator.Value("+it+")"
	r.Bytes(r.Q(a, "the records"), "backwards, newest of a key first, without an end", P("IKVDB.ReverseIterator(recv.kvdb)"), 2, "nil")
	base := []Fact{{"len(" + key + ")", vi(17)}, {"len(" + key + "[1:])", vi(16)}, {"a0", V{k: vNil}}}
	f := func(more ...Fact) []Fact { return append(append([]Fact{}, base...), more...) }
	z, nz := Fact{key + "[0]%", vi(0)}, Fact{key + "[0]%", V{k: vInt, lo: 1, hi: 255}}
	set := P(bt + "Set(recv.bt) || " + bt + "PutNewAndGetOld(recv.bt)")
	next := P("Iterator.Next(" + it + ")")
	q := r.Q(a, "records of something else", f(nz)...)
	r.Never(q, "they are left alone", set)
	r.PerIter(q, "every record is looked at", 0, next)
	q = r.Q(a, "records of a key already seen", f(z, Fact{"bytes.Equal(%)", vb(true)}, Fact{"len(" + val + ")", V{k: vInt, lo: 0, hi: 8}})...)
	r.Never(q, "older records are left alone", set)
	r.PerIter(q, "every record is looked at", 0, next)
	q = r.Q(a, "the newest record says deleted", f(z, Fact{"bytes.Equal(%)", vb(false)}, Fact{"len(" + val + ")", vi(0)})...)
	r.Never(q, "the key is not there", set)
	r.PerIter(q, "every record is looked at", 0, next)
	r.remembered(q, "it is remembered as the newest", P("bytes.Equal"))
	q = r.Q(a, "the newest record has a position", f(z, Fact{"bytes.Equal(%)", vb(false)}, Fact{"len(" + val + ")", vi(8)})...)
	r.PerIter(q, "every key is indexed, and every record looked at", 0, set, next)
	r.Bytes(q, "it is indexed at the position of the record", set, 2, "BE8(sub("+val+",0,8))", "BE8("+val+")", "BE8("+val+"[0:8])", "BE8("+val+"[:8])")
	r.Bytes(q, "under the key of the record", set, 1, "BE8("+key+"[1:9])", "BE8("+key+"[1:])", "BE8(sub("+key+",1,9))", "BE8("+key+"[1:(len("+key+")-8)])", "BE8("+key+"[1:]%)")
}

// remembered: the loop variable compared by p is given a new value in every round that the scenario allows.
func (r *R) remembered(q *Q, what string, p P) bool {
	ob := r.scn(q) + what
	var v *Sym
	for _, s := range q.Find(p) {
		for _, x := range s.n.Eff().args {
			if _, _, ok := q.a.loopVar(x); ok && v == nil {
				v = x
			}
		}
	}
	if v == nil {
		return false // kept in some other way
	}
	blk := map[*ssa.BasicBlock]bool{}
	cut := map[[2]*ssa.BasicBlock]bool{}
	live := map[[2]*ssa.BasicBlock]bool{}
	for _, s := range q.All() {
		if s.n.c != v.ctx || s.n.blk == nil {
			continue
		}
		blk[s.n.blk] = true
		if s.n.cond != nil && len(s.n.blk.Succs) == 2 && len(s.n.succs) == 2 {
			e := s.n.blk
			for i, t := range s.n.succs {
				cut[[2]*ssa.BasicBlock{e, e.Succs[i]}] = true
				for _, u := range q.Next(s) {
					if u.n == t {
						live[[2]*ssa.BasicBlock{e, e.Succs[i]}] = true
					}
				}
			}
		}
	}
	hdr := v.val.(*ssa.Phi)
	seen := map[*ssa.Phi]bool{}
	var kept func(x *ssa.Phi, latch bool) bool
	kept = func(x *ssa.Phi, latch bool) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for i, y := range x.Edges {
			pb := x.Block().Preds[i]
			e := [2]*ssa.BasicBlock{pb, x.Block()}
			if latch && !v.loop.Latch[pb] || !blk[pb] || cut[e] && !live[e] {
				continue
			}
			if y == ssa.Value(hdr) {
				return true
			}
			if z, ok := y.(*ssa.Phi); ok && kept(z, false) {
				return true
			}
		}
		return false
	}
	if !kept(hdr, true) {
		r.ok(ob)
		return true
	}
	r.fail(ob, v.ctx.fn.String(), "a round can leave "+v.String()+" as it was")
	return false
}

// pruneFilter: which records may be dropped.
func (r *R) pruneFilter() {
	if a := r.An("indextree", "(*HeightCompactionFilter).Filter", Opts{key: "flt"}); a != nil {
		h := "BE8(a1[(len(a1)-8):%])"
		for _, c := range []struct {
			n string
			f []Fact
		}{
			{"a short record", []Fact{{"len(a1)", V{k: vInt, lo: 0, hi: 7}}, {"recv.pruneEnable", vb(true)}}},
			{"a record of something else", []Fact{{"len(a1)", V{k: vInt, lo: 8, hi: 100}}, {"a1[0]", V{k: vInt, lo: 1, hi: 255}}, {"recv.pruneEnable", vb(true)}}},
			{"pruning not asked for", []Fact{{"len(a1)", vi(17)}, {"a1[0]", vi(0)}, {"recv.pruneEnable", vb(false)}}},
			{"a record made at the pruned height", []Fact{{"len(a1)", vi(17)}, {"a1[0]", vi(0)}, {"recv.pruneEnable", vb(true)}, {h, vi(100)}, {"recv.pruneHeight", vi(100)}}},
			{"a record made after the pruned height", []Fact{{"len(a1)", vi(17)}, {"a1[0]", vi(0)}, {"recv.pruneEnable", vb(true)}, {h, V{k: vInt, lo: 101, hi: 1 << 40}}, {"recv.pruneHeight", vi(100)}}},
		} {
			q := r.Q(a, c.n, c.f...)
			r.Result(q, "it is kept", 0, "false")
			r.Result(q, "its value is not changed", 1, "a2", "nil")
		}
		// a record older than the pruned height may still be the newest of its key
		q := r.Q(a, "a record made before the pruned height", Fact{"len(a1)", vi(17)}, Fact{"a1[0]", vi(0)}, Fact{"recv.pruneEnable", vb(true)}, Fact{h, vi(99)}, Fact{"recv.pruneHeight", vi(100)})
		r.Result(q, "it is kept while it says what a kept height needs", 0, "false")
	}
	if a := r.An("indextree", "(*RocksDB).SetPruneHeight", Opts{key: "flt"}); a != nil {
		q := r.Q(a, "a greater height", Fact{"recv.filter.pruneHeight", vi(50)}, Fact{"a0", V{k: vInt, lo: 51, hi: 1 << 40}})
		r.Ends(q, "it is the pruned height", "recv.filter.pruneHeight", "a0")
		r.Ends(q, "pruning is on", "recv.filter.pruneEnable", "true")
		q = r.Q(a, "a smaller height", Fact{"recv.filter.pruneHeight", vi(50)}, Fact{"a0", V{k: vInt, lo: 0, hi: 49}})
		r.Only(q, "the pruned height does not go down", "=HeightCompactionFilter.pruneHeight", "=HeightCompactionFilter.pruneHeight(recv.filter.pruneHeight, recv.filter.pruneHeight||50)")
		r.Ends(q, "pruning is on", "recv.filter.pruneEnable", "true")
	}
	if a := r.An("indextree", "(*RocksDB).GetPruneHeight", Opts{key: "flt"}); a != nil {
		q := r.Q(a, "")
		r.Result(q, "the pruned height", 0, "recv.filter.pruneHeight")
		r.Result(q, "whether pruning is on", 1, "recv.filter.pruneEnable")
	}
	if a := r.An("indextree", "NewRocksDBWithOptions", Opts{key: "flt"}); a != nil {
		q := r.Q(a, "", Fact{"#1((*github.com/tecbot/gorocksdb.%).%(%)||#1(github.com/tecbot/gorocksdb.OpenDb(%))", V{k: vNil}})
		r.Must(q, "records are filtered", P("(*github.com/tecbot/gorocksdb.Options).SetCompactionFilter"))
		for _, s := range q.Find("(*github.com/tecbot/gorocksdb.Options).SetCompactionFilter(%)") {
			r.deepField(q, "the heights set are those of the filter", "filter", q.EffArg(s, 1), "&"+strings.TrimPrefix(q.EffArg(s, 1), "&"), "%"+strings.TrimPrefix(q.EffArg(s, 1), "&")+"%", "&{%}")
		}
	}
}

func init() {
	register("P22", "the channel every job of the index is sent to, and the place every job is carried out, over all send and call sites; the shard and channel of a key by interval evaluation of every byte", p22)
}

func p22(r *R) {
	nsh, nch := r.Const("types", "ShardCount", 8), r.Const("types", "IndexChanCount", 10)
	if nsh <= 0 || nsh > 256 || nch <= 0 {
		r.undecided("the number of shards", "not known")
		return
	}
	if a := r.An("types", "GetShardID", Opts{key: "sh"}); a != nil {
		for i := int64(0); i < nsh; i++ {
			w := 256 / nsh
			q := r.Q(a, "the last of 8 bytes in part "+itoa(i), Fact{"len(a0)", vi(8)}, Fact{"a0[7]%", V{k: vInt, lo: i * w, hi: i*w + w - 1}})
			r.within(q, "the shard is the part", 0, i, i)
		}
		for _, n := range []V{{k: vInt, lo: 0, hi: 7}, {k: vInt, lo: 9, hi: 1 << 20}} {
			q := r.Q(a, "keys of other lengths", Fact{"len(a0)", n})
			r.within(q, "they are in the first shard", 0, 0, 0)
		}
	}
	if a := r.An("types", "GetIndexChanID", Opts{key: "sh"}); a != nil {
		for lo := int64(0); lo < 256; lo += 16 {
			q := r.Q(a, "bytes from "+itoa(lo)+" on", Fact{"a0", V{k: vInt, lo: lo, hi: lo + 15}})
			r.within(q, "there is such a worker", 0, 0, nch-1)
		}
	}
	for _, fn := range []string{"(*MoeingADS).EndWrite", "NewMoeingADS"} {
		o := adsOpts
		rv := "recv."
		if fn == "NewMoeingADS" {
			o.NoInline = append([]string{"(*moeingads.MoeingADS).initGuards", "(*moeingads.MoeingADS).recoverDataTrees", "indextree.%", "metadb.%", "datatree.NewEmptyTree"}, o.NoInline...)
			o.key = "lite"
			rv = "%."
		}
		a := r.An("", fn, o)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		r.jobSends(q, rv)
		// jobs are carried out by the workers, and by nothing else
		job := "recv(" + rv + "idxTreeJobChan[%]%)"
		r.Only(q, "positions are set by the worker of the queue the job came from", "IndexTree.Set", P("IndexTree.Set(%, "+job+".key, "+job+".pos)"))
		r.Only(q, "keys are removed by the worker of the queue the job came from", "IndexTree.Delete", P("IndexTree.Delete(%, "+job+".key)"))
		// each worker has a queue of its own
		r.ownQueue(q)
	}
	// --- the cache of recent changes is split the same way
	for _, fn := range []string{"Set", "Get"} {
		if a := r.An("indextree", "(*Cache)."+fn, Opts{NoInline: []string{"types.GetIndexChanID"}, key: "rc"}); a != nil {
			q := r.Q(a, "Cache."+fn)
			r.Only(q, "the map is that of the first byte of the key", "types.GetIndexChanID", P("types.GetIndexChanID(trunc8(quo(a0,72057594037927936))||quo(a0,72057594037927936)||BE%(a0)[0]%||be8(a0)[0]%)"))
		}
	}
}

// within: the result always lies between lo and hi.
func (r *R) within(q *Q, what string, idx int, lo, hi int64) bool {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	n := 0
	for _, s := range q.rootRets() {
		ret, ok := s.n.ins.(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		v := q.sc.Eval(q.a.Eval(s.n.c, ret.Results[idx]), s.e)
		n++
		r.site(s)
		if v.k != vInt {
			r.undecided(ob, "value not known")
			return true
		}
		if v.lo < lo || v.hi > hi {
			r.fail(ob, s.n.Where(), what+": "+itoa(v.lo)+" to "+itoa(v.hi)+", expected "+itoa(lo)+" to "+itoa(hi), s.n.Where())
			return false
		}
	}
	if !r.done(q, ob) {
		return true
	}
	if n == 0 {
		r.fail(ob, q.a.rootNm, what+": does not return")
		return false
	}
	r.ok(ob)
	return true
}

// jobSends: every job goes to the queue of the first byte of its own key.
func (r *R) jobSends(q *Q, rv string) {
	curAn = q.a
	ob := r.scn(q) + ": a job goes to the queue of the first byte of its key"
	p := P("send(" + rv + "idxTreeJobChan[%]%)")
	r.uses(p)
	n := 0
	for _, s := range q.Find(p) {
		ch, job := q.EffArg(s, 0), q.EffArg(s, 1)
		if strings.HasPrefix(job, "{key:nil") || strings.HasPrefix(job, "zero") {
			continue
		}
		r.site(s)
		i := strings.Index(job, "key:")
		j := strings.LastIndex(job, ",pos:")
		if i < 0 || j < i {
			r.undecided(ob, "the job is not known: "+clip(job, 200))
			return
		}
		// the last ",pos:" at the depth of the job
		key := depthCut(job[i+4:])
		at := func(x string) string { return strings.ReplaceAll(x, "@", "") }
		want := []string{"idxTreeJobChan[types.GetIndexChanID(" + at(key) + "[0])]"}
		ok := false
		for _, w := range want {
			ok = ok || strings.HasSuffix(at(ch), w)
		}
		n++
		if !ok {
			if !strings.Contains(ch, "GetIndexChanID(") || strings.Contains(ch, "phi{") || strings.Contains(ch, "~") {
				if !strings.Contains(ch, "phi{") && !strings.Contains(ch, "~") {
					r.fail(ob, s.n.Where(), "the job of "+clip(key, 120)+" is sent to "+clip(ch, 200), s.n.Where())
					return
				}
				r.undecided(ob, "the queue is not known: "+clip(ch, 200))
				return
			}
			r.fail(ob, s.n.Where(), "the job of "+clip(key, 120)+" is sent to "+clip(ch, 200), s.n.Where())
			return
		}
	}
	if !r.done(q, ob) {
		return
	}
	if n == 0 {
		r.undecided(ob, "no jobs are sent")
		return
	}
	r.ok(ob)
}

// depthCut: up to the first comma outside brackets.
func depthCut(s string) string {
	d := 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			if d == 0 {
				return s[:i]
			}
			d--
		case ',':
			if d == 0 {
				return s[:i]
			}
		}
	}
	return s
}

// ownQueue: as many workers as queues, each over its own.
func (r *R) ownQueue(q *Q) {
	p := P("recv(%idxTreeJobChan[%]%)")
	curAn = q.a
	ob := r.scn(q) + ": each worker has a queue of its own"
	seen := map[string]string{}
	for _, s := range q.Find(p) {
		ch := q.EffArg(s, 0)
		r.site(s)
		i := strings.Index(ch, "idxTreeJobChan[")
		ix := ch[i+len("idxTreeJobChan["):]
		seen[ix[:strings.Index(ix, "]")]] = s.n.Where()
	}
	if !r.done(q, ob) {
		return
	}
	switch len(seen) {
	case 0:
		r.undecided(ob, "no jobs are taken")
	case 1:
		for ix, at := range seen {
			if _, err := strconv.Atoi(ix); err == nil {
				r.fail(ob, at, "every worker takes its jobs from queue "+ix, at)
				return
			}
		}
		r.ok(ob)
	default:
		r.ok(ob)
	}
}
