package main

import (
	"fmt"
	"strings"
)

func init() {
	register("P24", "effects and results of every operation of the root store by conditional constant propagation, one scenario per state of its cache", p24)
	register("P25", "effects and results of every operation of the trunk store and its cache by conditional constant propagation, one scenario per kind of entry", p25)
}

const adsT = "(*moeingads.MoeingADS)."

func p24(r *R) {
	o := Opts{NoInline: []string{adsT + "%", "types.GetShardID"}, key: "root"}
	sh := "recv.cache[types.GetShardID(a0)]"
	can := func(b bool) []Fact {
		return []Fact{{"recv.isCacheableKey", V{k: vNonNil}}, {"dyn:recv.isCacheableKey(a0)", vb(b)}}
	}
	none := []Fact{{"recv.isCacheableKey", V{k: vNil}}}
	in := func(b bool) Fact { return Fact{"has(" + sh + ",a0)", vb(b)} }
	ent := func(nonnil bool) Fact {
		v := V{k: vNil}
		if nonnil {
			v = V{k: vNonNil}
		}
		return Fact{adsT + "GetEntry%(recv.mads,a0%)", v}
	}
	cachePut, cacheDel := P("mapset(recv.cache[%])"), P("builtin.delete(recv.cache[%])")
	with := func(fs []Fact, more ...Fact) []Fact { return append(append([]Fact{}, fs...), more...) }
	if a := r.An("store", "(*RootStore).Get", o); a != nil {
		val := adsT + "GetEntry(recv.mads,a0).Value"
		q := r.Q(a, "a cached key", with(can(true), in(true))...)
		r.Result(q, "its cached value", 0, sh+"{a0}.value", "e("+sh+"{a0}.value)")
		for _, c := range []struct {
			n string
			f []Fact
		}{
			{"a key that is not in the cache", with(can(true), in(false))},
			{"a key that is never cached", with(can(false))},
			{"no cache", none},
		} {
			q := r.Q(a, c.n+", with an entry", with(c.f, ent(true))...)
			r.DeepResult(q, "the value of its entry", 0, val)
			q = r.Q(a, c.n+", without an entry", with(c.f, ent(false))...)
			r.Result(q, "nothing", 0, "nil")
			r.Never(q, "reading changes nothing", cachePut, cacheDel)
		}
	}
	if a := r.An("store", "(*RootStore).GetAtHeight", o); a != nil {
		q := r.Q(a, "with an entry at the height", ent(true))
		r.Result(q, "the value of the entry at the height", 0, adsT+"GetEntryAtHeight(recv.mads,a0,a1).Value")
		r.Result(r.Q(a, "without an entry at the height", ent(false)), "nothing", 0, "nil")
		r.Never(r.Q(a, ""), "the cache is not asked", P(adsT+"GetEntry(%)"))
	}
	if a := r.An("store", "(*RootStore).Set", o); a != nil {
		set := P(adsT + "Set(recv.mads, a0, a1)")
		own := P("mapset(" + sh + ", a0)")
		for _, c := range []struct {
			n     string
			f     []Fact
			cache bool
		}{
			{"a key that may be cached, the cache is not full", with(can(true), Fact{"len(" + sh + ")", vi(0)}), true},
			{"a key that may be cached, the cache is full", with(can(true), Fact{"len(" + sh + ")", vi(1 << 40)}), true},
			{"a key that is never cached", can(false), false},
			{"no cache", none, false},
		} {
			q := r.Q(a, c.n, c.f...)
			r.Times(q, "it is written to the database", 1, set)
			if !c.cache {
				r.Never(q, "the cache is left alone", cachePut)
				continue
			}
			r.Must(q, "the cache has the new value", own)
			r.Bytes(q, "the cache has the new value at this height", own, 2, "{height:recv.height,value:a1}")
			r.Only(q, "no other key is put into the cache", cachePut, own)
			r.NotAfter(q, "what was put in is not thrown out", own, cacheDel)
			if strings.Contains(c.n, "not full") {
				r.Never(q, "nothing is thrown out", cacheDel)
			} else {
				r.Exists(q, "an older entry is thrown out", cacheDel)
				r.Only(q, "what is thrown out is of the same shard", cacheDel, P("builtin.delete("+sh+")"))
			}
		}
	}
	if a := r.An("store", "(*RootStore).Delete", o); a != nil {
		for _, c := range []struct {
			n string
			f []Fact
		}{{"a key that may be cached", can(true)}, {"no cache", none}} {
			q := r.Q(a, c.n, c.f...)
			r.Times(q, "it is deleted from the database", 1, P(adsT+"Delete(recv.mads, a0)"))
			if c.n != "no cache" {
				r.Must(q, "it is thrown out of the cache", P("builtin.delete("+sh+", a0)"))
			}
			r.Never(q, "nothing is put into the cache", cachePut)
		}
	}
	for _, c := range []struct{ fn, to string }{
		{"PrepareForUpdate", "PrepareForUpdate(recv.mads, a0)"}, {"PrepareForDeletion", "PrepareForDeletion(recv.mads, a0)"},
		{"EndWrite", "EndWrite(recv.mads)"}, {"Close", "Close(recv.mads)"},
	} {
		if a := r.An("store", "(*RootStore)."+c.fn, o); a != nil {
			r.Times(r.Q(a, c.fn), "passed on to the database", 1, P(adsT+c.to))
		}
	}
	if a := r.An("store", "(*RootStore).ActiveCount", o); a != nil {
		r.Result(r.Q(a, ""), "that of the database", 0, adsT+"ActiveCount(recv.mads)")
	}
	if a := r.An("store", "(*RootStore).GetRootHash", o); a != nil {
		r.Result(r.Q(a, ""), "that of the database", 0, adsT+"GetRootHash(recv.mads)")
	}
	if a := r.An("store", "(*RootStore).SetHeight", o); a != nil {
		r.Ends(r.Q(a, ""), "the height is kept", "recv.height", "a0")
	}
	if a := r.An("store", "(*RootStore).BeginWrite", o); a != nil {
		r.NoReturn(r.Q(a, "no height yet", Fact{"recv.height", V{k: vInt, lo: -100, hi: -1}}), "refused")
		for _, h := range []int64{0, 1, 1 << 40} {
			q := r.Q(a, "height "+itoa(h), Fact{"recv.height", vi(h)})
			r.Times(q, "the block has this height", 1, P(adsT+"BeginWrite(recv.mads, recv.height||"+itoa(h)+")"))
		}
	}
	if a := r.An("store", "(*RootStore).Update", o); a != nil {
		q := r.Q(a, "", Fact{"recv.height", vi(7)})
		lock, begin, up, end, unlock := P("(*sync.RWMutex).Lock(&recv.mtx)"), P(adsT+"BeginWrite(recv.mads)"), P("dyn:a0(recv)"), P(adsT+"EndWrite(recv.mads)"), P("(*sync.RWMutex).Unlock(&recv.mtx)")
		for _, p := range []P{lock, begin, up, end, unlock} {
			r.Times(q, string(p)+" once", 1, p)
		}
		r.Before(q, "readers are kept out before the block begins", lock, begin)
		r.Before(q, "the block has begun before it is changed", begin, up)
		r.Before(q, "the changes are made before the block ends", up, end)
		r.Before(q, "the block has ended before readers are let in", end, unlock)
	}
	for _, c := range []struct {
		fn string
		ro string
	}{{"GetTrunkStore", "false"}, {"GetReadOnlyTrunkStore", "true"}} {
		if a := r.An("store", "(*RootStore)."+c.fn, o); a != nil {
			r.DeepResult(r.Q(a, c.fn), "a store over this one, with nothing in it", 0, "&{cache:&{m:makemap(%)},root:recv,isWriting:0,isReadOnly:"+c.ro+"}")
		}
	}
	if a := r.An("store", "NewRootStore", o); a != nil {
		q := r.Q(a, "")
		r.FullRange(q, "every shard has a cache", 0, P("=%[](%, makemap(%))"))
	}
}

// cachedKinds are the kinds of entries of the trunk's cache.
var cachedKinds = []struct {
	name    string
	n       V
	deleted bool
}{{"deleted", vi(0), true}, {"set", V{k: vInt, lo: 1, hi: 1 << 30}, false}}

func p25(r *R) {
	o := Opts{NoInline: []string{"types.GetShardID"}, key: "trunk"}
	wr := func(n int64) Fact { return Fact{"sync/atomic.LoadInt64(&recv.isWriting)", vi(n)} }
	rs := "RootStoreI."
	if a := r.An("store", "(*TrunkStore).Get", o); a != nil {
		r.NoReturn(r.Q(a, "it is being written back", wr(1)), "refused")
		q := r.Q(a, "a key that was not changed", wr(0), Fact{"has(recv.cache.m,a0)", vb(false)})
		r.Result(q, "the value below", 0, rs+"Get(recv.root,a0)")
		q = r.Q(a, "a key that was deleted", wr(0), Fact{"has(recv.cache.m,a0)", vb(true)}, Fact{"len(recv.cache.m{a0})", vi(0)})
		r.Result(q, "nothing", 0, "nil")
		q = r.Q(a, "a key that was set", wr(0), Fact{"has(recv.cache.m,a0)", vb(true)}, Fact{"len(recv.cache.m{a0})", vi(9)})
		r.DeepResult(q, "the value set", 0, "recv.cache.m{a0}", "e(recv.cache.m{a0})", "cp(recv.cache.m{a0},%)")
		r.Never(r.Q(a, ""), "reading changes nothing", P("mapset(%) || builtin.delete(%)"))
	}
	for _, fn := range []string{"PrepareForUpdate", "PrepareForDeletion"} {
		if a := r.An("store", "(*TrunkStore)."+fn, o); a != nil {
			r.NoReturn(r.Q(a, fn+", it is being written back", wr(1)), "refused")
			r.Times(r.Q(a, fn, wr(0)), "passed on", 1, P(rs+fn+"(recv.root, a0)"))
		}
	}
	if a := r.An("store", "(*TrunkStore).Update", o); a != nil {
		r.NoReturn(r.Q(a, "it is being written back", wr(1)), "refused")
		r.Times(r.Q(a, "", wr(0)), "the changes go to the cache", 1, P("dyn:a0(recv.cache)"))
	}
	if a := r.An("store", "(*TrunkStore).GetAtHeight", o); a != nil {
		r.Result(r.Q(a, ""), "passed on", 0, rs+"GetAtHeight(recv.root,a0,a1)")
	}
	for _, fn := range []string{"RLock", "RUnlock"} {
		if a := r.An("store", "(*TrunkStore)."+fn, o); a != nil {
			r.Times(r.Q(a, fn), "passed on", 1, P(rs+fn+"(recv.root)"))
		}
	}
	if a := r.An("store", "(*TrunkStore).ActiveCount", o); a != nil {
		r.Result(r.Q(a, ""), "passed on", 0, rs+"ActiveCount(recv.root)")
	}
	// --- the cache
	if a := r.An("store", "(*CacheStore).Get", o); a != nil {
		for _, c := range []struct {
			n   string
			f   []Fact
			st  string
			res []string
		}{
			{"a key that was not changed", []Fact{{"has(recv.m,a0)", vb(false)}}, "0", nil},
			{"a key that was deleted", []Fact{{"has(recv.m,a0)", vb(true)}, {"len(recv.m{a0})", vi(0)}}, "-1", nil},
			{"a key that was set", []Fact{{"has(recv.m,a0)", vb(true)}, {"len(recv.m{a0})", vi(9)}}, "1", []string{"recv.m{a0}"}},
		} {
			q := r.Q(a, c.n, c.f...)
			r.Result(q, "it says so", 1, c.st)
			if c.res != nil {
				r.DeepResult(q, "the value set", 0, c.res...)
			}
		}
	}
	for _, c := range []struct{ fn, p string }{
		{"Set", "mapset(recv.m, a0, a1)"}, {"Delete", "mapset(recv.m, a0, nil||\"\")"}, {"RealDelete", "builtin.delete(recv.m, a0)"},
	} {
		if a := r.An("store", "(*CacheStore)."+c.fn, o); a != nil {
			q := r.Q(a, c.fn)
			r.Times(q, "the entry says so", 1, P(c.p))
			r.Only(q, "no other entry changes", P("mapset(%) || builtin.delete(%)"), P(c.p))
		}
	}
	for _, fn := range []string{"ScanAllEntries", "ScanAllEntriesInShard"} {
		a := r.An("store", "(*CacheStore)."+fn, o)
		if a == nil {
			continue
		}
		f, key := "dyn:a0", "rangekey(recv.m)"
		sh := []Fact{}
		if fn == "ScanAllEntriesInShard" {
			f = "dyn:a1"
			sh = []Fact{{"types.GetShardID(" + key + ")", vi(3)}, {"a0", vi(3)}}
			for _, other := range []int64{0, 2, 4, 7} {
				q := r.Q(a, "entries of shard "+itoa(other)+", not 3", Fact{"types.GetShardID(" + key + ")", vi(other)}, Fact{"a0", vi(3)})
				r.Never(q, "they are left out", P(f))
			}
		}
		for _, k := range cachedKinds {
			q := r.Q(a, fn+", an entry that was "+k.name, append(sh, Fact{"len(recv.m{" + key + "})", k.n})...)
			p := P(f + "(" + key + ", recv.m{" + key + "}, " + fmt.Sprint(k.deleted) + ")")
			r.PerIter(q, "it is reported as it is", 0, p)
			r.Only(q, "it is reported as nothing else", P(f), p)
			r.FullRange(q, "all entries are gone through", 0, p)
		}
	}
	// --- writing back
	for _, fn := range []string{"(*TrunkStore).WriteBack", "SyncUpdateTo"} {
		a := r.An("store", fn, o)
		if a == nil {
			continue
		}
		root, m := "recv.root", "recv.cache.m"
		var ok []Fact
		if fn == "SyncUpdateTo" {
			root, m = "a1", "a0"
		} else {
			ok = []Fact{{"sync/atomic.AddInt64(&recv.isWriting,1)", vi(1)}, {"sync/atomic.AddInt64(&recv.isWriting,-1)", vi(0)}}
		}
		key := "rangekey(" + m + ")"
		begin, end := P(rs+"BeginWrite("+root+")"), P(rs+"EndWrite("+root+")")
		iface := func(f string) string {
			return rs + f + " || SetDeleter." + strings.ReplaceAll(f, " || ", " || SetDeleter.")
		}
		set, del := P(iface("Set("+root+", "+key+", "+m+"{"+key+"})")), P(iface("Delete("+root+", "+key+")"))
		anyOp := P(iface("Set") + " || " + iface("Delete"))
		nsh := r.Const("types", "ShardCount", 8)
		for _, k := range cachedKinds {
			op := set
			if k.deleted {
				op = del
			}
			for s := int64(0); s < nsh; s++ {
				if s > 0 && s < nsh-1 && !r.thorough {
					continue
				}
				f := append(append([]Fact{}, ok...), Fact{"len(" + m + "{" + key + "})", k.n}, Fact{"types.GetShardID(" + key + ")", vi(s)}, Fact{"has(" + m + ",%)", vb(true)})
				q := r.Q(a, fn+", an entry of shard "+itoa(s)+" that was "+k.name, f...)
				r.Exists(q, "it is written", op)
				r.PerIter(q, "no entry is passed over", 0, op)
				r.Only(q, "it is written as it is", anyOp, op)
			}
		}
		q := r.Q(a, fn, ok...)
		r.Times(q, "there is one block", 1, begin)
		r.Times(q, "which ends", 1, end)
		r.Before(q, "the block has begun before it is changed", begin, anyOp)
		r.NotAfter(q, "nothing is changed when the block has ended", end, anyOp)
		r.Joined(q, "all is written when the block ends", anyOp)
		r.Only(q, "the entries of the cache are written", anyOp, set, del)
		if fn == "SyncUpdateTo" {
			prep := P(rs + "PrepareForUpdate || " + rs + "PrepareForDeletion")
			r.Only(q, "the keys written are prepared", prep, P(rs+"PrepareForUpdate("+root+", "+key+") || "+rs+"PrepareForDeletion("+root+", "+key+")"))
			r.NotAfter(q, "they are prepared before the block begins", begin, prep)
			for _, k := range cachedKinds {
				op := P(rs + "PrepareForUpdate(" + root + ", " + key + ")")
				if k.deleted {
					op = P(rs + "PrepareForDeletion(" + root + ", " + key + ")")
				}
				q := r.Q(a, fn+", an entry that was "+k.name, Fact{"len(" + m + "{" + key + "})", k.n}, Fact{"types.GetShardID(" + key + ")", vi(nsh - 1)}, Fact{"has(" + m + ",%)", vb(true)})
				r.Exists(q, "it is prepared", op)
				r.PerIter(q, "no entry is passed over", 0, op)
				r.Only(q, "it is prepared for what it is", prep, op)
			}
			continue
		}
		lock, unlock := P(rs+"Lock(recv.root)"), P(rs+"Unlock(recv.root)")
		r.Times(q, "readers are kept out", 1, lock)
		r.Times(q, "readers are let in again", 1, unlock)
		r.Before(q, "readers are kept out before the block begins", lock, begin)
		r.Before(q, "the block has ended before readers are let in", end, unlock)
		r.NoReturn(r.Q(a, fn+" while it is being written back", Fact{"sync/atomic.AddInt64(&recv.isWriting,1)", vi(2)}), "refused")
		r.Before(q, "it is marked as being written before the block begins", P("sync/atomic.AddInt64(&recv.isWriting, 1)"), begin)
		r.Times(q, "the mark is taken back", 1, P("sync/atomic.AddInt64(&recv.isWriting, -1)"))
		r.Before(q, "the mark is taken back after the block", end, P("sync/atomic.AddInt64(&recv.isWriting, -1)"))
	}
	if a := r.An("store", "(*TrunkStore).Close", o); a != nil {
		ok := []Fact{{"sync/atomic.AddInt64(&recv.isWriting,1)", vi(1)}, {"sync/atomic.AddInt64(&recv.isWriting,-1)", vi(0)}}
		ro := func(b bool) Fact { return Fact{"recv.isReadOnly", vb(b)} }
		for _, b := range []bool{false, true} {
			r.Returns(r.Q(a, fmt.Sprintf("closed without being written back, read-only: %v", b), Fact{"a0", vb(false)}, ro(b)), "it can be closed")
		}
		r.Returns(r.Q(a, "closed and written back", Fact{"a0", vb(true)}, ro(false)), "it can be closed")
		any := P(rs + "Set || " + rs + "Delete || " + rs + "BeginWrite || " + rs + "EndWrite")
		q := r.Q(a, "nothing is to be written back", Fact{"a0", vb(false)})
		r.Never(q, "nothing is written", any)
		q = r.Q(a, "it is to be written back", append(ok, Fact{"a0", vb(true)}, ro(false))...)
		r.Times(q, "a block is written", 1, P(rs+"EndWrite(recv.root)"))
		q = r.Q(a, "a read-only store is to be written back", append(ok, Fact{"a0", vb(true)}, ro(true))...)
		r.NoReturn(q, "refused")
		r.Never(q, "nothing is written", any)
	}
}
