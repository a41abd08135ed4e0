package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var adsOpts = Opts{NoInline: []string{"types.GetShardID", "types.GetIndexChanID", "datatree.ExtractKeyFromRawBytes"}, key: "ads"}

const shards = 8

func init() {
	register("P01", "for every shard: flushing starts after the last append and is waited for before the synchronous batch write; every flush path writes the buffer and calls Sync, whose error is not dropped; the lock that a flush holds is taken before the goroutine starts and released after it; rollover flushes the old file first; the batch is written with sync on", p01)
	register("P02", "all index and metadata changes of a block go to the one open batch: it is opened before the first and written after the last of them, used under its lock, and nothing on these paths writes to the store directly", p02)
	register("P14", "conditional constant propagation over the supergraph of EndWrite, one scenario per kind of cached entry; the effects each kind has on data tree and index are compared with the table", p14)
	register("P15", "every appended entry carries the next serial number of the shard it is appended to, and the counter of that shard is advanced exactly once per number handed out", p15)
}

func p01(r *R) {
	// commit of a block
	for _, fn := range []string{"(*MoeingADS).EndWrite", "(*MoeingADS).initGuards"} {
		a := r.An("", fn, adsOpts)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		r.Must(q, "the batch is written", "IKVDB.CloseOldBatch(recv.kvdb)")
		r.MustEach(q, "shard {i}: the block is ended", shards, "DataTree.EndBlock(recv.datTree[{i}])")
		for i := 0; i < shards; i++ {
			end := P(fmt.Sprintf("DataTree.EndBlock(recv.datTree[%d])", i))
			wait := P(fmt.Sprintf("DataTree.WaitForFlushing(recv.datTree[%d])", i))
			r.Before(q, fmt.Sprintf("shard %d: the block is ended before flushing is waited for", i), end, wait)
			r.Before(q, fmt.Sprintf("shard %d: flushing is waited for before the batch is written", i), wait, "IKVDB.CloseOldBatch(%)")
			r.NotAfter(q, fmt.Sprintf("shard %d: nothing is appended once flushing has started", i), end,
				P(fmt.Sprintf("DataTree.AppendEntry(recv.datTree[%d]) || DataTree.AppendEntryRawBytes(recv.datTree[%d]) || DataTree.DeactiviateEntry(recv.datTree[%d])", i, i, i)))
		}
	}
	// the data tree
	to := Opts{NoInline: []string{"(*datatree.HPFile).%", "(*datatree.Hasher).%", "datatree.%"}, key: "flush"}
	if a := r.An("datatree", "(*Tree).EndBlock", to); a != nil {
		q := r.Q(a, "")
		for _, f := range []string{"entryFile", "twigMtFile"} {
			r.Must(q, "flushing of "+f+" is started", P("(*datatree.HPFile).StartFlushing(recv."+f+".HPFile%) || (*datatree.HPFile).Flush(recv."+f+".HPFile%)"))
			r.NotAfter(q, "nothing is appended to "+f+" after its flushing has started", P("(*datatree.HPFile).StartFlushing(recv."+f+".HPFile%)"), P("(*datatree.HPFile).Append(recv."+f+".HPFile%)"))
		}
	}
	if a := r.An("datatree", "(*Tree).WaitForFlushing", to); a != nil {
		q := r.Q(a, "")
		for _, f := range []string{"entryFile", "twigMtFile"} {
			r.Must(q, "flushing of "+f+" is waited for", P("(*datatree.HPFile).WaitForFlushing(recv."+f+".HPFile%) || (*datatree.HPFile).Flush(recv."+f+".HPFile%)"))
		}
	}
	// the files
	flushRules(r)
	// the batch
	if a := r.An("indextree", "(*RocksDB).CloseOldBatch", Opts{}); a != nil {
		q := r.Q(a, "batch open", Fact{"recv.batch%", V{k: vNonNil}})
		r.Must(q, "the batch goes to RocksDB's Write with the synchronous write options", "%.DB).Write(%, %.woSync, recv.batch%)")
		r.Only(q, "nothing is written without sync", "%.DB).Write || %.DB).Put || %.DB).Delete", "%.DB).Write(%, %.woSync, recv.batch%)")
		errHandled(r, a, "(*%gorocksdb.DB).Write")
	}
	if a := r.An("indextree", "NewRocksDBWithOptions", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "the synchronous write options are synchronous", "%.WriteOptions).SetSync(%, true)")
		r.Never(q, "sync is not switched off", "%.WriteOptions).SetSync(%, false) || %.WriteOptions).DisableWAL(%, true)")
	}
}

func flushRules(r *R) {
	cur := "recv.fileMap{recv.largestID}"
	sync := P("(*os.File).Sync(" + cur + ")")
	write := P("(*os.File).Write(" + cur + ", recv.buffer)")
	lock, unlock := P("(*sync.RWMutex).Lock(&recv.mtx)"), P("(*sync.RWMutex).Unlock(&recv.mtx)")
	for _, fn := range []string{"(*HPFile).flush", "(*HPFile).Flush", "(*HPFile).StartFlushing"} {
		a := r.An("datatree", fn, Opts{})
		if a == nil {
			continue
		}
		for _, full := range []bool{true, false} {
			n := vi(0)
			name := "buffer empty"
			if full {
				n, name = vr(1, inf), "buffer not empty"
			}
			q := r.Q(a, name, Fact{"len(recv.buffer)", n})
			r.Must(q, "the file is synced", sync)
			if full {
				r.Must(q, "the buffer is written to the newest file", write)
				r.Before(q, "the buffer is written before the sync", write, "(*os.File).Sync")
				r.Before(q, "the buffer is written before it is emptied", write, "=HPFile.buffer")
				r.NotAfter(q, "nothing is written after the sync", sync, "(*os.File).Write || (*os.File).WriteAt")
				r.Must(q, "the buffer is emptied once written", "=HPFile.buffer(recv.buffer, recv.buffer[:0]) || =HPFile.buffer(recv.buffer, nil) || =HPFile.buffer(recv.buffer, make(0))")
			}
		}
		errHandled(r, a, "(*os.File).Sync", "(*os.File).Write", "(*os.File).Seek")
		if fn != "(*HPFile).flush" {
			q := r.Q(a, "")
			r.Before(q, "the lock is held when flushing", lock, "(*os.File).Sync || (*os.File).Write")
			r.NotAfter(q, "the lock is kept until the flush is done", unlock, "(*os.File).Sync || (*os.File).Write", lock)
			r.Must(q, "the lock is released", unlock)
			// the caller must own the lock before it goes on
			ok := true
			where := ""
			for _, s := range q.Find(lock) {
				if s.n.c.async {
					ok, where = false, s.n.Where()
				}
			}
			ob := r.scn(q) + ": the lock is taken before the caller goes on, not inside the new goroutine"
			if ok {
				r.ok(ob)
			} else {
				r.fail(ob, where, "WaitForFlushing can get the lock before the flush has begun")
			}
		}
	}
	if a := r.An("datatree", "(*HPFile).WaitForFlushing", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "waiting takes the lock that a flush holds", "(*sync.RWMutex).Lock(&recv.mtx) || (*sync.RWMutex).RLock(&recv.mtx)")
		r.Only(q, "no conditional or trying lock", "(*sync.RWMutex).%", "(*sync.RWMutex).Lock(&recv.mtx) || (*sync.RWMutex).RLock(&recv.mtx) || (*sync.RWMutex).Unlock(&recv.mtx) || (*sync.RWMutex).RUnlock(&recv.mtx)")
		r.sync(q, "waiting is done by the caller itself")
	}
	if a := r.An("datatree", "(*HPFile).Append", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Before(q, "the full file is synced before the next one becomes the newest", P("(*os.File).Sync("+cur+"%)"), "=HPFile.largestID")
		r.Before(q, "the full file's buffer is written before the next one becomes the newest", P("(*os.File).Sync("+cur+"%)"), "=HPFile.fileMap[]")
		q = r.Q(a, "rollover with data in the buffer", Fact{"len(recv.buffer%)||len(append(recv.buffer%))", vr(1, inf)})
		r.Before(q, "the full file's buffer is written before it is synced", P("(*os.File).Write("+cur+"%)"), "(*os.File).Sync")
		errHandled(r, a, "(*os.File).Sync", "(*os.File).Write", "os.OpenFile")
	}
}

// sync: nothing of the entry point runs in another goroutine.
func (r *R) sync(q *Q, what string) {
	ob := r.scn(q) + ": " + what
	for _, n := range q.g.nodes {
		if n.c != nil && n.c.async && n.Eff() != nil {
			r.fail(ob, n.Where(), what+": "+clip(n.Eff().String(), 100)+" runs in a goroutine of its own")
			return
		}
	}
	r.ok(ob)
}

// errHandled: the error of the named calls is looked at: compared with nil, or
// handed to the caller.
func errHandled(r *R, a *Analysis, names ...string) {
	curAn = a
	for _, n := range a.g.nodes {
		call, ok := n.ins.(*ssa.Call)
		if !ok || n.kind != nodeIns || n.sub != nil {
			continue
		}
		nm := a.callName(n.c, call.Common())
		hit := false
		for _, x := range names {
			if glob(x, nm) {
				hit = true
			}
		}
		if !hit {
			continue
		}
		ob := a.rootNm + ": the error of " + nm + " in " + fnName(n.c.fn) + " is not dropped"
		r.sites[n.Where()] = true
		if errUsed(call) {
			r.ok(ob)
		} else {
			r.fail(ob, n.Where(), "the error returned by "+nm+" is ignored")
		}
	}
	// and when it fails, the operation does not end as if it had not
	for _, x := range names {
		r.uses(P(x))
		rs := a.root.fn.Signature.Results()
		ei := -1
		if rs.Len() > 0 && isErrT(rs.At(rs.Len()-1).Type()) {
			ei = rs.Len() - 1
		}
		for _, n := range a.g.nodes {
			call, ok := n.ins.(*ssa.Call)
			if !ok || n.kind != nodeIns || n.sub != nil || !glob(x, a.callName(n.c, call.Common())) {
				continue
			}
			q := r.Q(a, x+" fails")
			n := n
			q.sc.fn = func(s *Sym) (V, bool) {
				y := s
				if y.k == KOp && strings.HasPrefix(y.name, "#") && len(y.args) == 1 {
					y = y.args[0]
				}
				if y.k == KCall && y.ins == n.ins && y.ctx == n.c && isErrT(s.typ) {
					return V{k: vNonNil}, true
				}
				return V{}, false
			}
			ob := r.scn(q) + ": a failure is not taken for success (" + n.Where() + ")"
			var xs []State
			for _, s := range q.Find(P(x)) {
				if s.n == n {
					xs = append(xs, s)
				}
			}
			if len(xs) == 0 {
				continue
			}
			path := q.Path(xs, never, func(s State) bool {
				if s.n.kind == nodeRet && s.n.c.async && s.n.c.site != nil {
					if _, isGo := s.n.c.site.(*ssa.Go); isGo {
						return true
					}
				}
				if s.n.kind != nodeRet || s.n.c != a.root {
					return false
				}
				ret := retOf(s.n)
				if ei < 0 || ret == nil || ei >= len(ret.Results) {
					return true
				}
				return q.sc.Eval(a.Eval(a.root, ret.Results[ei]), s.e).k != vNonNil
			})
			if !r.done(q, ob) {
				continue
			}
			if path != nil {
				r.fail(ob, path[0].n.Where(), "after "+x+" failed, the operation ends as if it had not", q.Trace(path)...)
			} else {
				r.ok(ob)
			}
		}
	}
}

func errUsed(call *ssa.Call) bool {
	res := call.Common().Signature().Results()
	var errs []ssa.Value
	if res.Len() == 1 {
		errs = append(errs, call)
	} else {
		for _, u := range *call.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && isErrT(res.At(e.Index).Type()) {
				errs = append(errs, e)
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var used func(v ssa.Value) bool
	used = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.BinOp, *ssa.Return, *ssa.Panic, *ssa.Call, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Send, *ssa.MapUpdate:
				return true
			case *ssa.Phi:
				if used(x) {
					return true
				}
			case *ssa.ChangeInterface:
				if used(x) {
					return true
				}
			case *ssa.Store:
				// a named result or a captured variable that is read somewhere
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, w := range *al.Referrers() {
						if l, ok := w.(*ssa.UnOp); ok && used(l) {
							return true
						}
					}
					continue
				}
				return true
			}
		}
		return false
	}
	for _, e := range errs {
		if used(e) {
			return true
		}
	}
	return false
}

func p02(r *R) {
	metaWrite := "MetaDB.Commit || MetaDB.SetTwigMtFileSize || MetaDB.SetEntryFileSize || MetaDB.IncrMaxSerialNum || MetaDB.SetEdgeNodes || MetaDB.DeleteTwigHeight || MetaDB.Init"
	idx := "IndexTree.Set || IndexTree.Delete"
	if a := r.An("", "(*MoeingADS).BeginWrite", adsOpts); a != nil {
		q := r.Q(a, "")
		r.Must(q, "a batch is opened", "IKVDB.OpenNewBatch(recv.kvdb)")
		r.Must(q, "the index learns the height", "IndexTree.BeginWrite(recv.idxTree, a0)")
		r.Must(q, "the metadata learns the height", "MetaDB.SetCurrHeight(recv.meta, a0)")
		r.Never(q, "the batch is not written at the start of a block", "IKVDB.CloseOldBatch")
		r.Before(q, "the batch is opened before anything is written", "IKVDB.OpenNewBatch", P(metaWrite+" || "+idx))
	}
	if a := r.An("", "(*MoeingADS).EndWrite", adsOpts); a != nil {
		q := r.Q(a, "")
		r.Must(q, "the metadata is put into the batch", "MetaDB.Commit(recv.meta)")
		r.Must(q, "the index write is ended", "IndexTree.EndWrite(recv.idxTree)")
		r.Must(q, "the batch is written", "IKVDB.CloseOldBatch(recv.kvdb)")
		r.Before(q, "the metadata is in the batch when it is written", "MetaDB.Commit(recv.meta)", "IKVDB.CloseOldBatch")
		r.Before(q, "the index write is ended when the batch is written", "IndexTree.EndWrite(recv.idxTree)", "IKVDB.CloseOldBatch")
		r.NotAfter(q, "nothing is put into the batch after it was written", "IKVDB.CloseOldBatch", P(metaWrite+" || "+idx+" || MetaDB.SetRootHash || MetaDB.IncrOldestActiveTwigID || MetaDB.SetLastPrunedTwig || MetaDB.SetCurrHeight || IKVDB.CloseOldBatch"))
		r.NotAfter(q, "the numbers put into the batch by Commit do not change afterwards", "MetaDB.Commit", "MetaDB.IncrMaxSerialNum || MetaDB.SetRootHash || MetaDB.IncrOldestActiveTwigID || MetaDB.SetLastPrunedTwig || MetaDB.SetCurrHeight || DataTree.AppendEntry || DataTree.AppendEntryRawBytes || DataTree.DeactiviateEntry || DataTree.EndBlock")
		r.NotAfter(q, "the index is not written to after its write was ended", "IndexTree.EndWrite", P(idx))
		r.Never(q, "no second batch is opened within a block", "IKVDB.OpenNewBatch")
		for i := 0; i < shards; i++ {
			r.Must(q, fmt.Sprintf("shard %d: the root of the ended block is recorded", i), P(fmt.Sprintf("MetaDB.SetRootHash(recv.meta, %d, DataTree.EndBlock(recv.datTree[%d]))", i, i)))
			r.Must(q, fmt.Sprintf("shard %d: the entry file size is recorded", i), P(fmt.Sprintf("MetaDB.SetEntryFileSize(recv.meta, %d, #0(DataTree.GetFileSizes(recv.datTree[%d])))", i, i)))
			r.Must(q, fmt.Sprintf("shard %d: the twig file size is recorded", i), P(fmt.Sprintf("MetaDB.SetTwigMtFileSize(recv.meta, %d, #1(DataTree.GetFileSizes(recv.datTree[%d])))", i, i)))
			r.NotAfter(q, fmt.Sprintf("shard %d: nothing is appended after the sizes were taken", i), P(fmt.Sprintf("DataTree.GetFileSizes(recv.datTree[%d])", i)), P(fmt.Sprintf("DataTree.AppendEntry(recv.datTree[%d]) || DataTree.AppendEntryRawBytes(recv.datTree[%d])", i, i)))
		}
		r.Before(q, "the roots are recorded before the metadata goes into the batch", "MetaDB.SetRootHash(recv.meta, 7)", "MetaDB.Commit")
	}
	if a := r.An("", "(*MoeingADS).initGuards", adsOpts); a != nil {
		q := r.Q(a, "")
		r.Must(q, "the metadata is put into the batch", "MetaDB.Commit(recv.meta)")
		r.Before(q, "the metadata is in the batch when it is written", "MetaDB.Commit(recv.meta)", "IKVDB.CloseOldBatch")
		r.Before(q, "the index write is ended when the batch is written", "IndexTree.EndWrite(recv.idxTree)", "IKVDB.CloseOldBatch")
		for i := 0; i < shards; i++ {
			r.Before(q, fmt.Sprintf("shard %d: the root is recorded before the metadata goes into the batch", i), P(fmt.Sprintf("MetaDB.SetRootHash(recv.meta, %d, DataTree.EndBlock(recv.datTree[%d]))", i, i)), "MetaDB.Commit")
			r.Before(q, fmt.Sprintf("shard %d: the file sizes are recorded before the metadata goes into the batch", i), P(fmt.Sprintf("MetaDB.SetEntryFileSize(recv.meta, %d, #0(DataTree.GetFileSizes(recv.datTree[%d])))", i, i)), "MetaDB.Commit")
		}
	}
	batchRules(r)
}

// batchRules: how the metadata, the index and the RocksDB wrapper use the batch.
func batchRules(r *R) {
	for _, fn := range []string{"Commit", "SetTwigMtFileSize", "SetEntryFileSize", "SetEdgeNodes", "DeleteTwigHeight", "IncrMaxSerialNum", "Init", "ReloadFromKVDB"} {
		a := r.An("metadb", "(*MetaDB)."+fn, Opts{})
		if a == nil {
			continue
		}
		underBatchLock(r, a)
	}
	for _, fn := range []string{"Set", "Delete"} {
		a := r.An("indextree", "(*NVTreeMem)."+fn, Opts{})
		if a == nil {
			continue
		}
		underBatchLock(r, a)
	}
	if a := r.An("indextree", "(*RocksDB).OpenNewBatch", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "a new batch is installed", "=RocksDB.batch(recv.batch, %)")
		r.Never(q, "opening a batch writes nothing", "%.Write%")
	}
	if a := r.An("indextree", "(*RocksDB).CloseOldBatch", Opts{}); a != nil {
		q := r.Q(a, "batch open", Fact{"recv.batch%", V{k: vNonNil}})
		r.Must(q, "the batch is forgotten once written", "=RocksDB.batch(recv.batch, nil)")
	}
}

func underBatchLock(r *R, a *Analysis) {
	q := r.Q(a, "")
	use := P("Batch.Set || Batch.Delete || IKVDB.CurrBatch")
	r.Before(q, "the batch is used under its lock", "IKVDB.LockBatch(recv.kvdb)", use)
	r.NotAfter(q, "the batch is not used after it was unlocked", "IKVDB.UnlockBatch", use, "IKVDB.LockBatch")
	r.After(q, "the batch is unlocked again", "IKVDB.LockBatch", "IKVDB.UnlockBatch(recv.kvdb)")
	r.Never(q, "nothing is written past the batch", "IKVDB.Set% || IKVDB.Delete% || IKVDB.CloseOldBatch || IKVDB.OpenNewBatch || Batch.Write%")
	r.Only(q, "only the current batch is written to", "Batch.%", "Batch.%(IKVDB.CurrBatch(recv.kvdb))")
}

func p14(r *R) {
	a := r.An("", "(*MoeingADS).EndWrite", adsOpts)
	if a == nil {
		return
	}
	del, ins, none := r.Const("types", "OpDelete", 1), r.Const("types", "OpInsertOrChange", 2), r.Const("types", "OpNone", 0)
	const E = "recv.cachedEntries%[K]"
	opName := map[int64]string{del: "delete", ins: "set", none: "untouched"}
	for _, op := range []int64{none, del, ins} {
		for _, exists := range []bool{true, false} {
			for _, touched := range []bool{true, false} {
				if op == del && touched {
					continue // a deleted entry is nobody's predecessor
				}
				sn := vi(-1)
				if exists {
					sn = vr(0, inf)
				}
				name := fmt.Sprintf("entry %s, stored before %v, successor changed %v", opName[op], exists, touched)
				q := r.Q(a, name,
					Fact{E + ".Operation||" + E + ".Operation@", vi(op)},
					Fact{E + ".EntryPtr.SerialNum||" + E + ".EntryPtr.SerialNum@", sn},
					Fact{E + ".IsTouchedByNext||" + E + ".IsTouchedByNext@", vb(touched)},
					Fact{E + ".IsModified||" + E + ".IsModified@", vb(op != none)},
					Fact{E + ".EntryPtr.Value||" + E + ".EntryPtr.Value@", V{k: vNonNil}},
					Fact{"types.GetShardID(%)", vi(3)},
				)
				const app = P("DataTree.AppendEntry(recv.datTree[3], " + E + ".EntryPtr)")
				const deact = P("DataTree.DeactiviateEntry(recv.datTree[3], " + E + ".EntryPtr.SerialNum)")
				const sendDel = P("send(recv.idxTreeJobChan[%], {key:" + E + ".EntryPtr.Key,pos:-%})")
				const sendPos = P("send(recv.idxTreeJobChan[%], {key:" + E + ".EntryPtr.Key,pos:DataTree.AppendEntry(%)})")
				wantDel := op == del && exists
				wantApp := op == ins || touched && op != del
				r.Only(q, "entries are written to the shard of their key", "DataTree.AppendEntry(%, %.EntryPtr)", app)
				r.Only(q, "entries are deactivated in the shard of their key", "DataTree.DeactiviateEntry(%, %.EntryPtr.SerialNum)", deact)
				if wantDel {
					r.PerIter(q, "a deleted entry is removed from the index", 0, sendDel)
				} else {
					r.Never(q, "no removal from the index", sendDel)
				}
				if wantApp {
					r.PerIter(q, "a new version is appended", 0, app)
					r.PerIter(q, "the index learns the new position", 0, sendPos)
					r.PerIter(q, "the new version carries the height of the block", 0, "=Entry.Height("+E+".EntryPtr.Height, MetaDB.GetCurrHeight(recv.meta))")
					r.PerIter(q, "the new version carries the height of the one before", 0, "=Entry.LastHeight("+E+".EntryPtr.LastHeight, "+E+".EntryPtr.Height)")
					r.Before(q, "the height of the block is set before the append", "=Entry.Height("+E+".EntryPtr.Height, %)", app)
					r.Before(q, "the height of the one before is set before the append", "=Entry.LastHeight("+E+".EntryPtr.LastHeight, %)", app)
				} else {
					r.Never(q, "no new version is appended", app)
					r.Never(q, "the index is not pointed to a new version", sendPos)
				}
				if wantDel || wantApp && exists {
					r.PerIter(q, "the old version is deactivated", 0, deact)
				} else {
					r.Never(q, "nothing is deactivated", deact)
				}
				if wantDel || wantApp {
					r.FullRange(q, "all cached entries are gone through", 0, app, sendDel)
				}
			}
		}
	}
	r.chains(2)
	// what the caller asks for is what is noted
	got := "recv.k2heMap.maps[%]{a0}"
	set := adsOpts
	set.key = "set"
	if a := r.An("", "(*MoeingADS).Set", set); a != nil {
		q := r.Q(a, "a prepared key", Fact{"has(recv.k2heMap.maps[%],a0)", vb(true)}, Fact{got, V{k: vNonNil}})
		r.Must(q, "it is noted as set", P(fmt.Sprintf("=HotEntry.Operation(%s.Operation||#0(%s).Operation, %d)", got, got, ins)))
		r.Must(q, "its new value is noted", P(fmt.Sprintf("=Entry.Value(%s.EntryPtr.Value||#0(%s).EntryPtr.Value, a1||append(%%a1)||cp(a1%%))", got, got)))
		q = r.Q(a, "a key that was not prepared", Fact{"has(recv.k2heMap.maps[%],a0)", vb(false)})
		r.NoReturn(q, "it is refused")
	}
	if a := r.An("", "(*MoeingADS).Delete", set); a != nil {
		q := r.Q(a, "a prepared key", Fact{"has(recv.k2heMap.maps[%],a0)", vb(true)}, Fact{got, V{k: vNonNil}})
		r.Must(q, "it is noted as deleted", P(fmt.Sprintf("=HotEntry.Operation(%s.Operation||#0(%s).Operation, %d)", got, got, del)))
		q = r.Q(a, "a key that was not prepared", Fact{"has(recv.k2heMap.maps[%],a0)", vb(false)}, Fact{got, V{k: vNil}})
		r.Never(q, "nothing is noted", "=HotEntry.Operation || =Entry.%")
		r.Returns(q, "it is of no effect")
	}
}

// loadAt gives the value of field f of what x points to, as seen at node n.
func loadAt(a *Analysis, n *Node, x *Sym, owner, f string) *Sym {
	return a.load(n.c, n.ins, a.Field(strip(x), owner, f, nil))
}

func p15(r *R) {
	for _, fn := range []string{"(*MoeingADS).EndWrite", "(*MoeingADS).initGuards", "NewMoeingADS"} {
		o := adsOpts
		if fn == "NewMoeingADS" {
			o.NoInline = append([]string{"(*moeingads.MoeingADS).%", "indextree.%", "metadb.%", "datatree.NewEmptyTree"}, o.NoInline...)
			o.key = "new"
		}
		a := r.An("", fn, o)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		// which numbers are given to entries
		gets := map[string]bool{}
		for _, s := range q.Find(P("DataTree.AppendEntry || DataTree.AppendEntryRawBytes")) {
			r.site(s)
			ef := s.n.Eff()
			shard := ""
			if rs := q.sc.Resolve(ef.args[0], s.e); len(rs) == 1 {
				t := rs[0].String()
				if i := strings.LastIndex(t, ".datTree["); i >= 0 {
					shard = strings.TrimRight(t[i+len(".datTree["):], "]@")
				}
			}
			ob := r.scn(q) + ": the entry appended at " + fnName(s.n.c.fn) + " carries the next number of its shard"
			var v *Sym
			if ef.name == "DataTree.AppendEntry" {
				v = loadAt(a, s.n, ef.args[1], "types.Entry", "SerialNum")
			} else {
				v = ef.args[2]
			}
			good := true
			forms := q.sc.Resolve(v, s.e)
			for _, x := range forms {
				if !glob("MetaDB.GetMaxSerialNum(%,"+shard+")", x.String()) {
					good = false
				} else {
					gets[fmt.Sprintf("%d:%p", x.ctx.id, x.ins)] = true
				}
			}
			if good && len(forms) > 0 {
				r.ok(ob)
			} else {
				r.fail(ob, s.n.Where(), fmt.Sprintf("appended to shard %s with serial number %s", shard, clip(fmt.Sprint(forms), 300)))
			}
		}
		isGet := func(i int) func(State) bool {
			p := P(fmt.Sprintf("MetaDB.GetMaxSerialNum(%%, %d)", i))
			return func(s State) bool {
				return s.n.Eff() != nil && gets[fmt.Sprintf("%d:%p", s.n.c.id, s.n.ins)] && q.Match(s, p) == mMust
			}
		}
		for i := 0; i < shards; i++ {
			inc := P(fmt.Sprintf("MetaDB.IncrMaxSerialNum(%%, %d)", i))
			get := isGet(i)
			var starts, incs []State
			for _, s := range q.All() {
				if get(s) {
					starts = append(starts, s)
				}
			}
			sortStates(starts)
			incs = q.Find(inc)
			ob := fmt.Sprintf("%s: shard %d: each number is handed out once", r.scn(q), i)
			if p := q.Path(starts, q.must(inc), func(s State) bool { return get(s) || isExit(s) }); p != nil {
				r.fail(ob, p[len(p)-1].n.Where(), "the number taken at "+p[0].n.Where()+" is used and the counter of the shard is not advanced", q.Trace(p)...)
			} else if p := q.Path(incs, func(s State) bool { return get(s) }, q.may(inc)); p != nil {
				r.fail(ob, p[len(p)-1].n.Where(), "the counter is advanced twice for one number", q.Trace(p)...)
			} else {
				r.ok(ob)
			}
			app := P(fmt.Sprintf("DataTree.AppendEntry(%%.datTree[%d]%%) || DataTree.AppendEntryRawBytes(%%.datTree[%d]%%)", i, i))
			ob = fmt.Sprintf("%s: shard %d: an entry is appended for each number", r.scn(q), i)
			if p := q.Path(starts, q.must(app), func(s State) bool { return get(s) || isExit(s) }); p != nil {
				r.fail(ob, p[len(p)-1].n.Where(), "the number taken at "+p[0].n.Where()+" is handed out without an append", q.Trace(p)...)
			} else {
				r.ok(ob)
			}
			r.done(q, ob)
		}
	}
}
