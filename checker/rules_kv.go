package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P35", "effects, options and results of every operation of the key-value store by conditional constant propagation; typestate of batches, iterators and files over all paths", p35)
}

const (
	gdb = "(*github.com/tecbot/gorocksdb.DB)."
	gwb = "(*github.com/tecbot/gorocksdb.WriteBatch)."
)

// p35: the key-value store does what it is asked, and what was opened is
// closed once.
func p35(r *R) {
	r.kvOps()
	r.kvBatch()
	r.kvOpen()
	r.sliceCopy()
	r.iteratorsClosed()
	r.closing()
}

// lenIs states that a byte slice holds nothing, or something.
func lenIs(a string, n int64) []Fact {
	if n == 0 {
		return []Fact{{"len(" + a + ")", vi(0)}}
	}
	return []Fact{{"len(" + a + ")", vi(n)}, {a, V{k: vNonNil}}}
}

func (r *R) kvOps() {
	o := Opts{NoInline: []string{"indextree.moveSliceToBytes"}, key: "kv"}
	get := gdb + "Get(recv.db,recv.ro,a0)"
	wr := P(gdb + "Put || " + gdb + "Delete || " + gdb + "Write || " + gdb + "Merge || " + gdb + "DeleteCF || " + gdb + "PutCF")
	ok := func(on string, good bool) Fact {
		if good {
			return Fact{on, V{k: vNil}}
		}
		return Fact{on, V{k: vNonNil}}
	}
	val := "indextree.moveSliceToBytes(#0(" + get + "))"
	if a := r.An("indextree", "(*RocksDB).Get", o); a != nil {
		r.NoReturn(r.Q(a, "an empty key", lenIs("a0", 0)...), "refused")
		q := r.Q(a, "the record cannot be read", append(lenIs("a0", 8), ok("#1("+get+")", false))...)
		r.NoReturn(q, "it is not taken for missing")
		q = r.Q(a, "the record is read", append(lenIs("a0", 8), ok("#1("+get+")", true))...)
		r.Result(q, "a copy of what is stored under the key", 0, val)
		r.Never(q, "reading changes nothing", wr)
	}
	if a := r.An("indextree", "(*RocksDB).Has", o); a != nil {
		for _, has := range []bool{true, false} {
			v := V{k: vNil}
			if has {
				v = V{k: vNonNil}
			}
			q := r.Q(a, fmt.Sprintf("the record is there: %v", has), append(lenIs("a0", 8), ok("#1("+get+")", true), Fact{val, v})...)
			r.Result(q, "said so", 0, fmt.Sprint(has))
			r.Never(q, "reading changes nothing", wr)
		}
	}
	for _, c := range []struct {
		fn, op, opt, args string
		val               bool
	}{
		{"Set", "Put", "recv.wo||recv.woSync", "a0, a1", true},
		{"SetSync", "Put", "recv.woSync", "a0, a1", true},
		{"Delete", "Delete", "recv.wo||recv.woSync", "a0", false},
		{"DeleteSync", "Delete", "recv.woSync", "a0", false},
	} {
		a := r.An("indextree", "(*RocksDB)."+c.fn, o)
		if a == nil {
			continue
		}
		call := P(gdb + c.op + "(recv.db, " + c.opt + ", " + c.args + ")")
		in := lenIs("a0", 8)
		if c.val {
			in = append(in, Fact{"a1", V{k: vNonNil}})
		}
		res := gdb + c.op + "(%)"
		q := r.Q(a, c.fn, append(in, ok(res, true))...)
		r.Times(q, "done once, with what was given, as durably as asked", 1, call)
		r.Times(q, "nothing else is done", 1, wr)
		q = r.Q(a, c.fn+" that fails", append(in, ok(res, false))...)
		r.NoReturn(q, "it is not taken for done")
		q = r.Q(a, c.fn+" of an empty key", append(lenIs("a0", 0), Fact{"a1", V{k: vNonNil}}, ok(res, true))...)
		r.NoReturn(q, "refused")
		if c.val {
			q = r.Q(a, c.fn+" of a missing value", append(lenIs("a0", 8), Fact{"a1", V{k: vNil}}, ok(res, true))...)
			r.NoReturn(q, "refused")
			r.Never(q, "nothing is stored", wr)
		}
	}
	if a := r.An("indextree", "(*RocksDB).Close", o); a != nil {
		q := r.Q(a, "closing the store")
		for _, x := range []string{
			"(*github.com/tecbot/gorocksdb.ReadOptions).Destroy(recv.ro)",
			"(*github.com/tecbot/gorocksdb.WriteOptions).Destroy(recv.wo)",
			"(*github.com/tecbot/gorocksdb.WriteOptions).Destroy(recv.woSync)",
			gdb + "Close(recv.db)",
		} {
			r.Times(q, "given back once: "+x[strings.LastIndex(x[:strings.LastIndex(x, "(")], ".")+1:], 1, P(x))
		}
	}
}

func (r *R) kvBatch() {
	o := Opts{key: "kvb"}
	open, closed := Fact{"recv.batch", V{k: vNonNil}}, Fact{"recv.batch", V{k: vNil}}
	gone := P(gwb + "Destroy(recv.batch)")
	forgot := P("=rocksDBBatch.batch(recv.batch, nil)")
	write := P(gdb + "Write")
	change := P(gwb + "Put || " + gwb + "Delete || " + gwb + "Clear || " + gwb + "Merge")
	for _, c := range []struct {
		fn, op, args string
		val          bool
	}{{"Set", "Put", "a0, a1", true}, {"Delete", "Delete", "a0", false}} {
		a := r.An("indextree", "(*rocksDBBatch)."+c.fn, o)
		if a == nil {
			continue
		}
		in := lenIs("a0", 8)
		if c.val {
			in = append(in, Fact{"a1", V{k: vNonNil}})
		}
		q := r.Q(a, c.fn+" in an open batch", append(in, open)...)
		r.Times(q, "noted once, with what was given", 1, P(gwb+c.op+"(recv.batch, "+c.args+")"))
		r.Times(q, "nothing else is noted", 1, change)
		r.Never(q, "nothing is written before the batch is", write)
		r.NoReturn(r.Q(a, c.fn+" in a closed batch", append(in, closed)...), "refused")
		r.NoReturn(r.Q(a, c.fn+" of an empty key", append(lenIs("a0", 0), Fact{"a1", V{k: vNonNil}}, open)...), "refused")
		if c.val {
			r.NoReturn(r.Q(a, c.fn+" of a missing value", append(lenIs("a0", 8), Fact{"a1", V{k: vNil}}, open)...), "refused")
		}
	}
	for _, c := range []struct{ fn, opt string }{{"Write", "recv.db.wo||recv.db.woSync"}, {"WriteSync", "recv.db.woSync"}} {
		a := r.An("indextree", "(*rocksDBBatch)."+c.fn, o)
		if a == nil {
			continue
		}
		w := P(gdb + "Write(recv.db.db, " + c.opt + ", recv.batch)")
		q := r.Q(a, c.fn, open, Fact{gdb + "Write(%)", V{k: vNil}})
		r.Times(q, "the batch is written once, as durably as asked", 1, w)
		r.Times(q, "nothing else is written", 1, write)
		r.Before(q, "it is written before it is given back", w, gone)
		r.Times(q, "its memory is given back once", 1, gone)
		r.Times(q, "it is closed afterwards", 1, forgot)
		r.NotAfter(q, "nothing is noted in it afterwards", w, change)
		r.NoReturn(r.Q(a, c.fn+" that fails", open, Fact{gdb + "Write(%)", V{k: vNonNil}}), "it is not taken for done")
		q = r.Q(a, c.fn+" of a closed batch", closed)
		r.NoReturn(q, "refused")
	}
	if a := r.An("indextree", "(*rocksDBBatch).Close", o); a != nil {
		q := r.Q(a, "closing an open batch", open)
		r.Times(q, "its memory is given back once", 1, gone)
		r.Times(q, "it is closed afterwards", 1, forgot)
		r.NotAfter(q, "it is not closed before its memory is given back", forgot, gone)
		r.Never(q, "nothing is written", write)
		q = r.Q(a, "closing a closed batch", closed)
		r.Never(q, "nothing is given back twice", P(gwb+"Destroy"))
		r.Returns(q, "it is accepted")
	}
	bat := func(q *Q) {
		r.deepField(q, "it writes to this store", "db", "recv")
		r.deepField(q, "it is empty", "batch", "github.com/tecbot/gorocksdb.NewWriteBatch()")
	}
	if a := r.An("indextree", "(*RocksDB).NewBatch", o); a != nil {
		q := r.Q(a, "a new batch")
		bat(q)
		r.Never(q, "the current batch is left alone", "=RocksDB.batch")
	}
	if a := r.An("indextree", "(*RocksDB).OpenNewBatch", o); a != nil {
		q := r.Q(a, "the next batch")
		r.Times(q, "one batch is made", 1, "github.com/tecbot/gorocksdb.NewWriteBatch()")
		r.Times(q, "it becomes the current one", 1, "=RocksDB.batch(recv.batch, &$complit)")
		r.Times(q, "it writes to this store", 1, "=rocksDBBatch.db($complit.db, recv)")
		r.Times(q, "it is empty", 1, "=rocksDBBatch.batch($complit.batch, github.com/tecbot/gorocksdb.NewWriteBatch())")
		r.Never(q, "nothing is written", write)
	}
	if a := r.An("indextree", "(*RocksDB).CurrBatch", o); a != nil {
		r.Result(r.Q(a, ""), "the current batch", 0, "recv.batch", "iface(recv.batch)")
	}
	if a := r.An("indextree", "(*RocksDB).CloseOldBatch", o); a != nil {
		q := r.Q(a, "there is a batch", Fact{"recv.batch", V{k: vNonNil}}, Fact{"recv.batch.batch", V{k: vNonNil}}, Fact{gdb + "Write(%)", V{k: vNil}})
		w := P(gdb + "Write(%, recv.batch.db.woSync||recv.woSync, recv.batch.batch)")
		r.Times(q, "it is written once, durably", 1, w)
		r.Times(q, "its memory is given back once", 1, P(gwb+"Destroy(%)"))
		r.Before(q, "it is written before it is given back", w, P(gwb+"Destroy(%)"))
		r.Times(q, "there is none afterwards", 1, "=RocksDB.batch(recv.batch, nil)")
		q = r.Q(a, "there is no batch", Fact{"recv.batch", V{k: vNil}})
		r.Never(q, "nothing is written", write)
		r.Returns(q, "it is accepted")
	}
	// The lock of the batch.
	for _, c := range []struct{ fn, do, not string }{{"LockBatch", "Lock", "Unlock"}, {"UnlockBatch", "Unlock", "Lock"}} {
		if a := r.An("indextree", "(*RocksDB)."+c.fn, o); a != nil {
			q := r.Q(a, "")
			r.Times(q, "the one lock of the batch", 1, P("(*sync.Mutex)."+c.do+"(&recv.mtx)"))
			r.Never(q, "and nothing else", P("(*sync.Mutex)."+c.not))
		}
	}
}

func (r *R) kvOpen() {
	if a := r.An("indextree", "NewRocksDBWithOptions", Opts{key: "kvo"}); a != nil {
		od := "github.com/tecbot/gorocksdb.OpenDb"
		fail := r.Q(a, "the store cannot be opened", Fact{"#1(" + od + "(%))", V{k: vNonNil}})
		r.Result(fail, "the caller is told why", 1, "#1("+od+"(%))")
		r.Result(fail, "there is no store", 0, "nil")
		q := r.Q(a, "the store is opened", Fact{"#1(" + od + "(%))", V{k: vNil}})
		r.Times(q, "opened once, with the options given", 1, P(od+"(a2)"))
		r.Bytes(q, "in the directory and under the name given", P(od), 1, `path/filepath.Join(<e(a1) e(concat(a0,".db"))>)`, `path/filepath.Join(<e(a1) e(<e(a0) ".db">)>)`, `path/filepath.Join(<e(a1) e(<a0 ".db">)>)`)
		r.Result(q, "no error", 1, "nil")
		r.deepField(q, "the store opened is used", "db", "#0("+od+"(%)")
		r.deepField(q, "reading options are made", "ro", "github.com/tecbot/gorocksdb.NewDefaultReadOptions()")
		r.sameFilter(q)
		r.Times(q, "two sets of writing options are made", 2, "github.com/tecbot/gorocksdb.NewDefaultWriteOptions()")
		r.syncOptions(q)
	}
	if a := r.An("indextree", "NewRocksDB", Opts{NoInline: []string{"indextree.NewRocksDBWithOptions"}, key: "kvn"}); a != nil {
		q := r.Q(a, "opening with the usual options")
		mk := P("indextree.NewRocksDBWithOptions(a0, a1, github.com/tecbot/gorocksdb.NewDefaultOptions())")
		r.Times(q, "the store of that name and directory is opened", 1, mk)
		r.Before(q, "it is created if missing", "(*github.com/tecbot/gorocksdb.Options).SetCreateIfMissing(github.com/tecbot/gorocksdb.NewDefaultOptions(), true)", mk)
		r.Result(q, "it is returned", 0, "#0(indextree.NewRocksDBWithOptions(%))")
		r.Result(q, "so is the error", 1, "#1(indextree.NewRocksDBWithOptions(%))")
	}
	if a := r.An("", "NewMoeingADS", Opts{NoInline: []string{"indextree.NewRocksDB", "metadb.%", "(*metadb.%", "indextree.%", "datatree.%", "(*moeingads.%"}, key: "kvads"}); a != nil {
		q := r.Q(a, "the store cannot be opened", Fact{"#1(indextree.NewRocksDB(%))", V{k: vNonNil}})
		r.Never(q, "the database is not opened without it", "metadb.NewMetaDB || indextree.NewNVTreeMem || datatree.NewEmptyTree || datatree.RecoverTree")
	}
}

// sameFilter: the filter the options have is the one whose height can be set.
func (r *R) sameFilter(q *Q) {
	const ob = "the filter whose height can be set is that of the options"
	curAn = q.a
	r.uses("=RocksDB.filter")
	for _, s := range q.Find("=RocksDB.filter") {
		for _, o := range q.Find("(*github.com/tecbot/gorocksdb.Options).SetCompactionFilter(a2)") {
			if s.n.Eff().args[1] == o.n.Eff().args[1] {
				r.ok(ob)
				return
			}
		}
	}
	r.fail(ob, "indextree.NewRocksDBWithOptions", "SetCompactionFilter is not given the filter kept in the store")
}

// syncOptions: the writing options made durable are the ones kept for durable
// writes, and only those.
func (r *R) syncOptions(q *Q) {
	const ob = "the options for durable writes are durable"
	curAn = q.a
	r.uses("=RocksDB.woSync")
	set := q.Find("(*github.com/tecbot/gorocksdb.WriteOptions).SetSync")
	var on []*Sym
	for _, s := range set {
		if q.EffArg(s, 1) == "true" {
			on = append(on, s.n.Eff().args[0])
		}
	}
	kept := func(f string) (v *Sym, at string) {
		for _, s := range q.Find(P("=RocksDB." + f)) {
			v, at = s.n.Eff().args[1], s.n.Where()
		}
		return
	}
	ws, at := kept("woSync")
	wo, _ := kept("wo")
	if ws == nil || wo == nil {
		r.fail(ob, at, "no writing options are kept")
		return
	}
	for _, s := range on {
		if s == ws {
			r.ok(ob)
			return
		}
	}
	r.fail(ob, at, "SetSync(true) is not called on the options kept in woSync ("+fmt.Sprint(len(on))+" other calls)")
}

// iteratorsClosed: every function that opens an iterator and does not hand it
// on closes it on every way out, and does not use it afterwards.
func (r *R) iteratorsClosed() {
	for _, f := range r.p.Funcs {
		if !opensIterator(f) || strings.Contains(fnName(f), "Mock") || strings.Contains(fnName(f), "fuzz") {
			continue
		}
		a := r.AnFn(f, Opts{NoInline: []string{"%.Iterator", "%.ReverseIterator", "(*moeingads.MoeingADS).%", "datatree.%"}, key: "itc"})
		q := r.Q(a, fnName(f))
		open := P("%.Iterator(%) || %.ReverseIterator(%)")
		names := map[string]bool{}
		for _, st := range q.Find(open) {
			names[q.EffStr(st)] = true
		}
		for c := range names {
			op := P(c)
			v := strings.ReplaceAll(c, ", ", ",")
			cl := P("%.Close(" + v + ")")
			r.After(q, "the iterator opened is closed", op, cl)
			r.NotAfter(q, "it is closed once, and not used afterwards", cl, P("%.Close("+v+") || %.Next("+v+") || %.Valid("+v+") || %.Key("+v+") || %.Value("+v+")"), op)
		}
	}
}

// opensIterator: an iterator is made in the function, and the function does
// not return one.
func opensIterator(f *ssa.Function) bool {
	isIt := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		if !ok {
			return false
		}
		_, ok = n.Underlying().(*types.Interface)
		return ok && strings.HasPrefix(n.Obj().Name(), "Iterator")
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isIt(res.At(i).Type()) {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && isIt(c.Type()) {
				return true
			}
		}
	}
	return false
}

// closing: the parts of a database are closed once each.
func (r *R) closing() {
	if a := r.An("", "(*MoeingADS).Close", Opts{key: "cl"}); a != nil {
		q := r.Q(a, "closing the database")
		r.Times(q, "the index is closed", 1, "IndexTree.Close(recv.idxTree)")
		kv := P("IKVDB.Close(recv.kvdb)")
		r.Times(q, "the key-value store is closed", 1, kv)
		r.NotAfter(q, "nothing is asked of it afterwards", kv, "IKVDB.%")
		for i := int64(0); i < 8; i++ {
			r.Times(q, "the tree of the shard is closed: "+itoa(i), 1, P("DataTree.Close(recv.datTree["+itoa(i)+"])"))
		}
	}
	if a := r.An("datatree", "(*Tree).Close", Opts{NoInline: []string{"(*datatree.EntryFile).Close", "(*datatree.TwigMtFile).Close"}, key: "cl"}); a != nil {
		q := r.Q(a, "closing the tree of a shard")
		r.Times(q, "its entries are closed", 1, "(*datatree.EntryFile).Close(recv.entryFile)")
		r.Times(q, "its twigs are closed", 1, "(*datatree.TwigMtFile).Close(recv.twigMtFile)")
	}
	for _, t := range []string{"EntryFile", "TwigMtFile"} {
		if a := r.An("datatree", "(*"+t+").Close", Opts{NoInline: []string{"(*datatree.HPFile).Close"}, key: "cl"}); a != nil {
			c := "(*datatree.HPFile).Close(recv.HPFile)"
			q := r.Q(a, t+" is closed", Fact{c, V{k: vNil}})
			r.Times(q, "its file is closed once", 1, P(c))
			r.NoReturn(r.Q(a, t+" cannot be closed", Fact{c, V{k: vNonNil}}), "it is not taken for closed")
		}
	}
	if a := r.An("indextree", "(*NVTreeMem).Close", cOpts); a != nil {
		r.Times(r.Q(a, "closing the index"), "its memory is given back once", 1, P(cfn+"cppbtree_delete(recv.bt.ptr)"))
	}
	for _, t := range []string{"ForwardIterMem", "BackwardIterMem"} {
		if a := r.An("indextree", "(*"+t+").Close", cOpts); a != nil {
			q := r.Q(a, t+" with an enumerator", Fact{"recv.enumerator", V{k: vNonNil}})
			r.Times(q, "it is closed once", 1, P(cfn+"iter_delete(recv.enumerator.iter)"))
			r.Returns(r.Q(a, t+" without an enumerator", Fact{"recv.enumerator", V{k: vNil}}), "closing is accepted")
		}
	}
	if a := r.An("indextree", "(*rocksDBIterator).Close", Opts{key: "cl"}); a != nil {
		r.Times(r.Q(a, "closing an iterator of the store"), "its memory is given back once", 1, P(gi+"Close(recv.source)"))
	}
	if a := r.An("store", "(*RootStore).Close", Opts{NoInline: []string{adsT + "%"}, key: "cl"}); a != nil {
		r.Times(r.Q(a, "closing the root store"), "its database is closed once", 1, P(adsT+"Close(recv.mads)"))
	}
}
