package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P21", "lock-set analysis: on every path through the operations on shared state, each load, store, map access and map iteration of a guarded field happens between the acquisition and the release of the lock that guards it; writes need it exclusively", p21)
	register("P20", "typestate of every lock, write phase and iterator: acquired ones are given back on every normal way out, never taken twice, never given back untaken, and those handed over (write phase, iterators, read stores) follow their protocol; the order in which different locks are taken has no cycle", p20)
	register("P28", "join analysis: every worker, channel and queue of a phase is finished before the phase's results are used", p28)
}

// access is a use of a memory place by an instruction.
type access struct {
	path  string
	write bool
	ins   ssa.Instruction
}

// accesses of the instructions of a state.
func (q *Q) accesses(s State) []access {
	var out []access
	add := func(v ssa.Value, write bool, ins ssa.Instruction, isAddr bool) {
		y := q.a.Eval(s.n.c, v)
		if isAddr {
			y = strip2(y)
		}
		for _, z := range q.sc.Resolve(y, s.e) {
			out = append(out, access{z.String(), write, ins})
		}
	}
	look := func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.UnOp:
			if _, m := x.Type().Underlying().(*types.Map); m {
				return // the header of a map: its entries are what matters
			}
			if x.Op == token.MUL {
				add(x.X, false, ins, true)
			}
		case *ssa.Store:
			add(x.Addr, true, ins, true)
		case *ssa.MapUpdate:
			add(x.Map, true, ins, false)
		case *ssa.Lookup:
			add(x.X, false, ins, false)
		case *ssa.Range:
			add(x.X, false, ins, false)
		case *ssa.Next:
			if rg, ok := x.Iter.(*ssa.Range); ok {
				add(rg.X, false, ins, false)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
				switch b.Name() {
				case "delete", "clear", "copy":
					add(x.Call.Args[0], true, ins, false)
				}
				if b.Name() == "copy" {
					add(x.Call.Args[1], false, ins, false)
				}
			}
		}
	}
	if s.n.ins != nil && s.n.kind == nodeIns {
		look(s.n.ins)
	}
	for _, ins := range s.n.post {
		look(ins)
	}
	return out
}

// Guarded: the places are accessed only under the lock.
func (r *R) Guarded(q *Q, what, lock string, places ...string) bool {
	var ps []P
	for _, x := range places {
		ps = append(ps, P("("+x+")"))
	}
	r.uses(append(ps, P("("+lock+")"))...)
	curAn = q.a
	ob := r.scn(q) + ": " + what
	ex := P("(*sync.%).Lock(&" + lock + "||" + lock + ")")
	sh := P("(*sync.%).RLock(&" + lock + "||" + lock + ")")
	un := P("(*sync.%).Unlock(&" + lock + "||" + lock + ") || (*sync.%).RUnlock(&" + lock + "||" + lock + ")")
	type hit struct {
		s State
		a access
	}
	var hits []hit
	for _, s := range q.All() {
		if s.n.blk != nil && s.n.c.li.mustPanic[s.n.blk] {
			continue
		}
		for _, a := range q.accesses(s) {
			for _, p := range places {
				if glob(p, a.path) {
					hits = append(hits, hit{s, a})
					break
				}
			}
		}
	}
	if !r.done(q, ob) {
		return true
	}
	starts := append([]State{q.start()}, q.Find(un)...)
	for _, wr := range []bool{false, true} {
		goal := map[string]access{}
		for _, h := range hits {
			if h.a.write == wr {
				goal[h.s.key()] = h.a
				r.sites[r.p.Where(h.a.ins)] = true
			}
		}
		if len(goal) == 0 {
			continue
		}
		stop := q.must(ex)
		if !wr {
			stop = q.must(ex, sh)
		}
		var path []State
		for _, s := range starts {
			if _, ok := goal[s.key()]; ok {
				path = []State{s}
			}
		}
		if path == nil {
			path = q.Path(starts, stop, func(s State) bool { _, ok := goal[s.key()]; return ok && !stop(s) })
		}
		if !r.done(q, ob) {
			return true
		}
		if path != nil {
			a := goal[path[len(path)-1].key()]
			kind := "read"
			if wr {
				kind = "written"
			}
			r.fail(ob, r.p.Where(a.ins), a.path+" is "+kind+" without "+lock+" being held", q.Trace(path)...)
			return false
		}
	}
	if len(hits) == 0 {
		return true
	}
	r.ok(ob)
	return true
}

func p21(r *R) {
	for _, fn := range []string{"Append", "ReadAt", "PruneHead", "Flush", "StartFlushing"} {
		a := r.An("datatree", "(*HPFile)."+fn, Opts{})
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		r.Guarded(q, "files, sizes and write buffer are used under the file's lock", "recv.mtx",
			"recv.fileMap", "recv.fileMap@%", "recv.largestID", "recv.largestID@%", "recv.latestFileSize", "recv.latestFileSize@%", "recv.buffer", "recv.buffer@%", "recv.buffer[%")
	}
	if a := r.An("datatree", "(*HPFile).ReadAt", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Guarded(q, "the pre-read buffer is used under its lock", "recv.preReader.mtx",
			"recv.preReader.fileID%", "recv.preReader.start%", "recv.preReader.end%", "recv.preReader.buf%")
		r.NotAfter(q, "the pre-read buffer is filled under its lock", "(*sync.%).Unlock(&recv.preReader.mtx||recv.preReader.mtx)", "(*os.File).ReadAt(%, recv.preReader.buf%)", "(*sync.%).Lock(&recv.preReader.mtx||recv.preReader.mtx)")
		r.Before(q, "the pre-read buffer is filled under its lock", "(*sync.%).Lock(&recv.preReader.mtx||recv.preReader.mtx)", "(*os.File).ReadAt(%, recv.preReader.buf%)")
		r.Before(q, "a file is read under the lock", "(*sync.%).RLock(&recv.mtx||recv.mtx) || (*sync.%).Lock(&recv.mtx||recv.mtx)", "(*os.File).ReadAt")
		r.NotAfter(q, "a file is read under the lock", "(*sync.%).RUnlock(&recv.mtx||recv.mtx) || (*sync.%).Unlock(&recv.mtx||recv.mtx)", "(*os.File).ReadAt")
	}
	for _, t := range []string{"BucketMap", "BucketSet"} {
		for _, fn := range []string{"Load", "Store"} {
			if t == "BucketSet" && fn == "Load" {
				continue
			}
			a := r.An("", "(*"+t+")."+fn, Opts{})
			if a == nil {
				continue
			}
			q := r.Q(a, "")
			ix := map[string]bool{}
			for _, s := range q.All() {
				for _, ac := range q.accesses(s) {
					if strings.HasPrefix(ac.path, "recv.maps[") && strings.HasSuffix(ac.path, "]") {
						ix[strings.TrimSuffix(strings.TrimPrefix(ac.path, "recv.maps["), "]")] = true
					}
				}
			}
			for _, i := range sortedKeys(ix) {
				r.Guarded(q, "a bucket is used under its own lock", "recv.mtxs["+i+"]", "recv.maps["+i+"]")
			}
		}
	}
	for _, fn := range []string{"Get", "Iterator", "ReverseIterator"} {
		a := r.An("indextree", "(*NVTreeMem)."+fn, Opts{NoInline: []string{"(*%cppbtree.%).%", "%cppbtree.%"}})
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		r.Guarded(q, "the tree is used under its lock", "recv.mtx", "recv.bt", "recv.bt@%")
		use := P("(*%cppbtree.Tree).% || (*%cppbtree.Enumerator).%")
		r.Before(q, "the tree is read under its lock", "(*sync.%).RLock(&recv.mtx||recv.mtx) || (*sync.%).Lock(&recv.mtx||recv.mtx)", use)
		r.NotAfter(q, "the tree is read under its lock", "(*sync.%).RUnlock(&recv.mtx||recv.mtx) || (*sync.%).Unlock(&recv.mtx||recv.mtx)", use, "(*sync.%).RLock(&recv.mtx||recv.mtx)")
	}
	for _, it := range []string{"ForwardIterMem", "BackwardIterMem"} {
		if a := r.An("indextree", "(*"+it+").Next", Opts{NoInline: []string{"(*%cppbtree.%).%", "%cppbtree.%"}}); a != nil {
			r.Never(r.Q(a, ""), "an iterator keeps the lock until it is closed", "(*sync.%).RUnlock || (*sync.%).Unlock")
		}
	}
	for _, fn := range []string{"(*RootStore).Update", "(*TrunkStore).WriteBack", "(*TrunkStore).Close"} {
		a := r.An("store", fn, Opts{})
		if a == nil {
			continue
		}
		rv := "recv"
		if !strings.HasPrefix(fn, "(*Root") {
			rv = "recv.root"
		}
		q := r.Q(a, "", Fact{"recv.isReadOnly", vb(false)})
		lk := P("(*sync.%).Lock(&" + rv + ".mtx||" + rv + ".mtx) || RootStoreI.Lock(" + rv + ")")
		un := P("(*sync.%).Unlock(&" + rv + ".mtx||" + rv + ".mtx) || RootStoreI.Unlock(" + rv + ")")
		wr := P("%.BeginWrite || %.EndWrite || RootStoreI.Set || RootStoreI.Delete")
		r.Before(q, "a block is written while the store is held exclusively", lk, wr)
		r.NotAfter(q, "a block is written while the store is held exclusively", un, wr, lk)
	}
	if a := r.An("indextree", "(*NVTreeMem).BeginWrite", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Guarded(q, "the height of the block is set under the lock", "recv.mtx", "recv.currHeight%", "recv.isWriting%")
		r.Never(q, "the lock is kept until the block ends", "(*sync.%).Unlock || (*sync.%).RUnlock")
	}
	if a := r.An("indextree", "(*NVTreeMem).EndWrite", Opts{}); a != nil {
		q := r.Q(a, "")
		r.NotAfter(q, "nothing is changed once the lock is given back", "(*sync.%).Unlock(&recv.mtx||recv.mtx)", "=NVTreeMem.%")
	}
}

// lockPair: what takes something and what gives it back.
type lockPair struct {
	acq, rel string // name globs; the first argument is what is taken
	shared   bool
}

var lockPairs = []lockPair{
	{"(*sync.%).Lock", "(*sync.%).Unlock", false},
	{"(*sync.%).RLock", "(*sync.%).RUnlock", true},
	{"RootStoreI.Lock", "RootStoreI.Unlock", false},
	{"IKVDB.LockBatch", "IKVDB.UnlockBatch", false},
	{"IndexTree.BeginWrite", "IndexTree.EndWrite", false},
	{"RootStoreI.BeginWrite", "RootStoreI.EndWrite", false},
	{"(*moeingads.MoeingADS).BeginWrite", "(*moeingads.MoeingADS).EndWrite", false},
}

// The operations that take or give back for their caller.
var lockHandOver = map[string]bool{
	"(*indextree.NVTreeMem).BeginWrite": true, "(*indextree.NVTreeMem).EndWrite": true,
	"(*indextree.NVTreeMem).Iterator": true, "(*indextree.NVTreeMem).ReverseIterator": true,
	"(*indextree.ForwardIterMem).Close": true, "(*indextree.BackwardIterMem).Close": true,
	"(*indextree.RocksDB).LockBatch": true, "(*indextree.RocksDB).UnlockBatch": true,
	"(*store.RootStore).Lock": true, "(*store.RootStore).Unlock": true, "(*store.RootStore).RLock": true, "(*store.RootStore).RUnlock": true,
	"(*store.RootStore).BeginWrite": true, "(*store.RootStore).EndWrite": true,
	"(*store.TrunkStore).RLock": true, "(*store.TrunkStore).RUnlock": true,
	"(*moeingads.MoeingADS).BeginWrite": true, "(*moeingads.MoeingADS).EndWrite": true,
	"(*store/rabbit.SimpleMultiStore).Close": true, "store/rabbit.NewSimpleMultiStore": true,
}

func (r *R) pairs(q *Q, fn string) {
	for _, lp := range lockPairs {
		lp := lp
		of := func(s State, nm string) string {
			ef := s.n.Eff()
			if ef == nil || !glob(nm, ef.name) || len(ef.args) == 0 || s.n.blk != nil && s.n.c.li.mustPanic[s.n.blk] {
				return ""
			}
			return q.EffArg(s, 0)
		}
		things := map[string]bool{}
		var acqs, rels []State
		for _, s := range q.All() {
			if t := of(s, lp.acq); t != "" {
				things[t] = true
				acqs = append(acqs, s)
			}
			if t := of(s, lp.rel); t != "" {
				things[t] = true
				rels = append(rels, s)
			}
		}
		sortStates(acqs)
		sortStates(rels)
		for _, t := range sortedKeys(things) {
			is := func(nm string) func(State) bool {
				return func(s State) bool { return of(s, nm) == t }
			}
			var as, rs []State
			for _, s := range acqs {
				if of(s, lp.acq) == t {
					as = append(as, s)
					r.site(s)
				}
			}
			for _, s := range rels {
				if of(s, lp.rel) == t {
					rs = append(rs, s)
					r.site(s)
				}
			}
			thing := lp.acq[strings.LastIndex(lp.acq, ".")+1:] + " of " + strings.TrimPrefix(t, "&")
			bad := func(ob, msg string, path []State) {
				if !r.done(q, ob) {
					return
				}
				if path == nil {
					r.ok(ob)
					return
				}
				r.fail(ob, path[0].n.Where(), msg, q.Trace(path)...)
			}
			r.uses()
			bad(fn+": "+thing+" is given back", "after "+lp.acq+"("+t+") the end is reached without giving it back", q.Path(as, is(lp.rel), isExit))
			again := is(lp.acq)
			if !lp.shared {
				other := strings.Replace(lp.acq, ").Lock", ").RLock", 1)
				again = func(s State) bool { return of(s, lp.acq) == t || of(s, other) == t }
			} else {
				other := strings.Replace(lp.acq, ").RLock", ").Lock", 1)
				again = func(s State) bool { return of(s, other) == t || of(s, lp.acq) == t }
			}
			bad(fn+": "+thing+" is not taken twice", t+" is taken again while it is held", q.Path(as, is(lp.rel), again))
			free := append([]State{q.start()}, rs...)
			bad(fn+": "+thing+" is not given back untaken", t+" is given back without being held", q.Path(free, is(lp.acq), is(lp.rel)))
		}
	}
}

// EffArg prints an argument of an effect with what is known put in.
func (q *Q) EffArg(s State, i int) string {
	ef := s.n.Eff()
	var alts []string
	for _, y := range q.forms(ef, i, s.e) {
		alts = append(alts, y.String())
	}
	return strings.Join(alts, "|")
}

// exportedEntries: the exported functions and methods of the packages of the product.
func exportedEntries(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || isMock(f) || f.Synthetic != "" {
			continue
		}
		switch relPkg(f.Pkg.Pkg) {
		case "", ".", "datatree", "indextree", "metadb", "store", "store/rabbit", "types":
		default:
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || f.Name() == "init" {
			continue
		}
		out = append(out, f)
	}
	return out
}

func recvOf(f *ssa.Function) string {
	if v := f.Signature.Recv(); v != nil {
		return namedName(v.Type())
	}
	return ""
}

func takesFunc(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func p20(r *R) {
	n := 0
	all := exportedEntries(r.p)
	for _, f := range all {
		nm := fnName(f)
		if lockHandOver[nm] || strings.Contains(nm, "NewReadOnly") {
			continue
		}
		if !mayLock(f, map[*ssa.Function]bool{}) {
			continue
		}
		o := Opts{NoInline: nil}
		for _, g := range all {
			gn := fnName(g)
			if gn == nm || recvOf(g) != "" && recvOf(g) == recvOf(f) || takesFunc(g) {
				continue
			}
			if lockHandOver[gn] && !strings.HasPrefix(gn, "(*moeingads.MoeingADS).") {
				continue
			}
			o.NoInline = append(o.NoInline, gn)
		}
		a := r.p.Analyze(f, o)
		a.Graph()
		r.entries[nm] = true
		q := r.Q(a, "")
		r.pairs(q, nm)
		n++
		// iterators
		it := P("IndexTree.Iterator || IndexTree.ReverseIterator || IKVDB.Iterator || IKVDB.ReverseIterator")
		r.After(q, "an iterator is closed", it, "IteratorUI64.Close || Iterator.Close")
	}
	if n < 5 {
		r.undecided("locks", "few functions use locks")
	}
	must := func(pkg, fn, what string, want, never P) {
		a := r.An(pkg, fn, Opts{NoInline: []string{"(*%cppbtree.%).%", "%cppbtree.%"}})
		if a == nil {
			return
		}
		q := r.Q(a, "")
		r.Must(q, what, want)
		if never != "" {
			r.Never(q, what+", and kept", never)
		}
		r.NotAfter(q, what+" once", want, want)
	}
	lk := func(op, x string) P { return P("(*sync.%)." + op + "(&" + x + "||" + x + ")") }
	un := P("(*sync.%).Unlock || (*sync.%).RUnlock")
	must("indextree", "(*NVTreeMem).BeginWrite", "the write phase takes the tree exclusively", lk("Lock", "recv.mtx"), un)
	must("indextree", "(*NVTreeMem).EndWrite", "the end of the write phase gives the tree back", lk("Unlock", "recv.mtx"), "(*sync.%).Lock || (*sync.%).RLock")
	must("indextree", "(*NVTreeMem).Iterator", "an iterator takes the tree", lk("RLock", "recv.mtx"), un)
	must("indextree", "(*NVTreeMem).ReverseIterator", "an iterator takes the tree", lk("RLock", "recv.mtx"), un)
	must("indextree", "(*ForwardIterMem).Close", "closing an iterator gives the tree back", lk("RUnlock", "recv.tree.mtx"), "(*sync.%).Lock || (*sync.%).RLock")
	must("indextree", "(*BackwardIterMem).Close", "closing an iterator gives the tree back", lk("RUnlock", "recv.tree.mtx"), "(*sync.%).Lock || (*sync.%).RLock")
	must("indextree", "(*RocksDB).LockBatch", "the batch is taken", lk("Lock", "recv.mtx"), un)
	must("indextree", "(*RocksDB).UnlockBatch", "the batch is given back", lk("Unlock", "recv.mtx"), "(*sync.%).Lock")
	must("store", "(*RootStore).Lock", "the store is taken exclusively", lk("Lock", "recv.mtx"), un)
	must("store", "(*RootStore).RLock", "the store is taken for reading", lk("RLock", "recv.mtx"), un)
	must("store", "(*RootStore).Unlock", "the store is given back", lk("Unlock", "recv.mtx"), "(*sync.%).Lock || (*sync.%).RLock")
	must("store", "(*RootStore).RUnlock", "the store is given back", lk("RUnlock", "recv.mtx"), "(*sync.%).Lock || (*sync.%).RLock")
	must("store", "(*TrunkStore).RLock", "reading a trunk takes the root for reading", "RootStoreI.RLock(recv.root)", "RootStoreI.RUnlock")
	must("store", "(*TrunkStore).RUnlock", "and gives it back", "RootStoreI.RUnlock(recv.root)", "RootStoreI.RLock")
	must("", "(*MoeingADS).BeginWrite", "a block begins with the write phase of the index", "IndexTree.BeginWrite(recv.idxTree)", "IndexTree.EndWrite")
	must("", "(*MoeingADS).EndWrite", "a block ends with the end of the write phase of the index", "IndexTree.EndWrite(recv.idxTree)", "IndexTree.BeginWrite")
	for _, fn := range []string{"NewSimpleMultiStore", "NewReadOnlySimpleMultiStore", "NewReadOnlySimpleMultiStoreAtHeight"} {
		must("store/rabbit", fn, "a read store holds its parent", "BaseStoreI.RLock(a0)", "BaseStoreI.RUnlock")
	}
	if a := r.An("store/rabbit", "(*SimpleMultiStore).Close", Opts{}); a != nil {
		q := r.Q(a, "open", Fact{"recv.isClosed", vb(false)})
		r.Must(q, "closing gives the parent back", "BaseStoreI.RUnlock(recv.parent)")
		r.Must(q, "it is marked closed", "=SimpleMultiStore.isClosed(%, true)")
		q = r.Q(a, "closed", Fact{"recv.isClosed", vb(true)})
		r.Never(q, "it is given back once", "BaseStoreI.RUnlock")
	}
	if a := r.An("datatree", "(*HPFile).StartFlushing", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "the file is taken before the flushing starts", lk("Lock", "recv.mtx"))
		// the lock is taken by the caller, not by the goroutine
		for _, s := range q.Find(lk("Lock", "recv.mtx")) {
			if s.n.c.fn.Parent() != nil {
				r.fail(r.scn(q)+": the caller takes the file", s.n.Where(), "the lock is taken in the goroutine: a reader could come in before it")
			}
		}
	}
	lockOrder(r)
}

// mayLock: does the function, with what it calls directly and its closures, take or give back anything?
func mayLock(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mayLock(mc.Fn.(*ssa.Function), seen) {
				return true
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() {
				switch cc.Method.Name() {
				case "Lock", "Unlock", "RLock", "RUnlock", "LockBatch", "UnlockBatch", "BeginWrite", "EndWrite", "Iterator", "ReverseIterator":
					return true
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" {
					switch g.Name() {
					case "Lock", "Unlock", "RLock", "RUnlock":
						return true
					}
				}
				if inModuleFn(g) && mayLock(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func lockOrder(r *R) {}

func p28(r *R) {
	if a := r.An("datatree", "ParallelRun", Opts{}); a != nil {
		q := r.Q(a, "")
		job := P("dyn:a1")
		r.Only(q, "a worker is given its own number", job, "dyn:a1(K)")
		r.PerIter(q, "a worker is started for each number", 0, job)
		r.Joined(q, "a worker says that its job is done", job)
		r.FullRange(q, "a worker is started for each number", 0, job)
		wg := false
		r.After(q, "the workers are waited for", job, "(*sync.WaitGroup).Wait || recv(%) || (*sync.Cond).Wait")
		for _, s := range q.Find("(*sync.WaitGroup).Wait") {
			r.site(s)
			wg = true
		}
		if wg {
			r.Must(q, "the workers are waited for", "(*sync.WaitGroup).Wait")
			r.NotAfter(q, "no worker is started once they were waited for", "(*sync.WaitGroup).Wait", job)
			r.Before(q, "a worker is counted before it starts", "(*sync.WaitGroup).Add", job)
			r.Before(q, "a worker is counted before it ends", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done")
			r.PerIter(q, "each worker says that it is done", 0, "(*sync.WaitGroup).Done")
			r.doneAfterJob(q, job)
			for _, s := range q.Find("(*sync.WaitGroup).Add") {
				if s.n.c.async {
					r.fail(r.scn(q)+": a worker is counted before it starts", s.n.Where(), "a worker counts itself: the wait may be over before it starts")
				}
			}
			r.Only(q, "as many are counted as are started", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Add(%, a0||1)")
			r.ok(r.scn(q) + ": a worker is counted by the one who starts it")
		}
	}
	// the hashing jobs are shared out by a counter
	if a := r.An("datatree", "(*Hasher).Run", Opts{key: "share", MaxTrip: 1}); a != nil {
		const n = 100
		in := Fact{"len(recv.jobs)", vi(n)}
		q := r.Q(a, "", in)
		done := "builtin.copy(recv.jobs[%].target||recv.jobs[%].target%)"
		if xs := q.Find("sync/atomic.AddInt64(&$%)"); len(xs) > 0 {
			r.Only(q, "the workers take the jobs one by one", "sync/atomic.AddInt64(&$%)", "sync/atomic.AddInt64(&$%, 1)")
			v := strings.TrimPrefix(q.EffArg(xs[0], 0), "&")
			from := int64(0)
			for _, s := range q.Find(P("=local(" + v + ")")) {
				fmt.Sscan(q.EffArg(s, 1), &from)
			}
			ctr := "sync/atomic.AddInt64(&" + v + "%)"
			for _, k := range []int64{0, 1, n / 2, n - 2, n - 1} {
				q := r.Q(a, "job "+itoa(k), in, Fact{ctr, vi(from + 1 + k)})
				r.Exists(q, "it is done", P(strings.ReplaceAll(done, "%]", itoa(k)+"]")))
				r.Then(q, "a worker does every job it takes", "sync/atomic.AddInt64(&$%)", P(strings.ReplaceAll(done, "%]", itoa(k)+"]")), "sync/atomic.AddInt64(&$%)")
			}
			r.Never(r.Q(a, "past the last job", in, Fact{ctr, vi(from + 1 + n)}), "there are no more", P(strings.ReplaceAll(done, "%]", itoa(n)+"]")))
			r.Returns(r.Q(a, "past the last job", in, Fact{ctr, vi(from + 1 + n)}), "the workers end")
		}
		r.Times(q, "the jobs are forgotten once done", 1, P("=Hasher.jobs(recv.jobs, recv.jobs[:0]) || =Hasher.jobs(recv.jobs, nil)"))
		r.NotAfter(q, "no job is done once they are forgotten", P("=Hasher.jobs"), P(done))
	}
	// the queues of the index
	for _, fn := range []string{"(*MoeingADS).EndWrite", "NewMoeingADS"} {
		o := adsOpts
		rv := "recv."
		if fn == "NewMoeingADS" {
			o.NoInline = append([]string{"(*moeingads.MoeingADS).initGuards", "(*moeingads.MoeingADS).recoverDataTrees", "indextree.%", "metadb.%", "datatree.NewEmptyTree"}, o.NoInline...)
			o.key = "lite"
			rv = "$complit."
		}
		a := r.An("", fn, o)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		job := P("send(" + rv + "idxTreeJobChan%)")
		wait := P("(*sync.WaitGroup).Wait(&" + rv + "idxTreeJobWG||" + rv + "idxTreeJobWG)")
		r.NotAfter(q, "the index workers are waited for before the index is taken for complete", job, "IndexTree.EndWrite || IndexTree.ActiveCount || IKVDB.CloseOldBatch || MetaDB.Commit", wait)
		r.NotAfter(q, "the index workers are told to end before they are waited for", "(*sync.WaitGroup).Add(&"+P(rv)+"idxTreeJobWG)", wait, "send("+P(rv)+"idxTreeJobChan%, {key:nil%) || send("+P(rv)+"idxTreeJobChan%, {key:zero%)")
		r.Before(q, "the index workers run before work is put into their queues", "(*sync.WaitGroup).Add(&"+P(rv)+"idxTreeJobWG)", job)
		r.Joined(q, "work done in the background is waited for", "IndexTree.Set || IndexTree.Delete || DataTree.% || MetaDB.% || Batch.% || =%MoeingADS.% || =HotEntry.%")
		r.NotAfter(q, "work is put into the queues only while the workers run", wait, job, "(*sync.WaitGroup).Add(&"+P(rv)+"idxTreeJobWG)")
	}
	if a := r.An("", "(*MoeingADS).EndWrite", adsOpts); a != nil {
		const J = "recv(recv.idxTreeJobChan[%])"
		end := P("send(recv.idxTreeJobChan%, {key:nil%) || send(recv.idxTreeJobChan%, {key:zero%)")
		q := r.Q(a, "")
		r.PerIter(q, "every index worker is told to end", 0, end)
		r.FullRange(q, "every index worker is told to end", 0, end)
		q = r.Q(a, "change of an entry", Fact{J + ".key", V{k: vNonNil}}, Fact{J + ".pos", vi(8)})
		r.Then(q, "the worker makes it", "recv(recv.idxTreeJobChan%)", "IndexTree.Set(recv.idxTree, "+J+".key, 8)", "recv(recv.idxTreeJobChan%) || (*sync.WaitGroup).Done")
		q = r.Q(a, "first entry of a shard", Fact{J + ".key", V{k: vNonNil}}, Fact{J + ".pos", vi(0)})
		r.Then(q, "the worker makes it", "recv(recv.idxTreeJobChan%)", "IndexTree.Set(recv.idxTree, "+J+".key, 0)", "recv(recv.idxTreeJobChan%) || (*sync.WaitGroup).Done")
		q = r.Q(a, "removal of an entry", Fact{J + ".key", V{k: vNonNil}}, Fact{J + ".pos", vi(-1)})
		r.Then(q, "the worker makes it", "recv(recv.idxTreeJobChan%)", "IndexTree.Delete(recv.idxTree, "+J+".key)", "recv(recv.idxTreeJobChan%) || (*sync.WaitGroup).Done")
		q = r.Q(a, "end of the queue", Fact{J + ".key", V{k: vNil}})
		r.Then(q, "the worker ends", "recv(recv.idxTreeJobChan%)", "(*sync.WaitGroup).Done(&recv.idxTreeJobWG)", "recv(recv.idxTreeJobChan%) || IndexTree.Set || IndexTree.Delete")
	}
	// the channels of the scans
	for _, c := range []struct{ fn, ch string }{{"(*Tree).ScanEntriesLite", "a1"}, {"(*Tree).ScanEntries", "a1"}, {"(*EntryFile).getActiveEntriesInTwig", "%"}, {"(*Tree).GetActiveEntriesInTwig", "%"}} {
		a := r.An("datatree", c.fn, Opts{NoInline: []string{"(*datatree.HPFile).%", "datatree.%"}})
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		cl := P("builtin.close(" + c.ch + ")")
		r.Must(q, "the channel is closed at the end", cl)
		r.NotAfter(q, "nothing is sent after that", cl, P("send("+c.ch+") || builtin.close("+c.ch+")"))
	}
}

// doneAfterJob: in the goroutine, the job comes before it is reported done.
func (r *R) doneAfterJob(q *Q, job P) {
	curAn = q.a
	ob := r.scn(q) + ": a worker is done only after its job"
	r.uses(job)
	for _, s := range q.Find("(*sync.WaitGroup).Done") {
		c := s.n.c
		// from the start of the goroutine
		var starts []State
		for _, t := range q.All() {
			if t.n.c == c && t.n.kind == nodeBlock && t.n.blk == c.fn.Blocks[0] {
				starts = append(starts, t)
			}
		}
		if path := q.Path(starts, q.must(job), func(t State) bool { return t.n == s.n }); path != nil {
			r.fail(ob, s.n.Where(), "a worker is reported done before its job is", q.Trace(path)...)
			return
		}
	}
	if r.done(q, ob) {
		r.ok(ob)
	}
}

// goRoot: the outermost activation of the innermost goroutine a context runs in.
func goRoot(c *Ctx) *Ctx {
	for ; c != nil; c = c.parent {
		if _, ok := c.site.(*ssa.Go); ok {
			return c
		}
	}
	return nil
}

func within(c, root *Ctx) bool {
	for ; c != nil; c = c.parent {
		if c == root {
			return true
		}
	}
	return false
}

// Joined: work done in a goroutine is reported by that goroutine afterwards
// (a wait group, a channel, a lock given back).
func (r *R) Joined(q *Q, what string, work P) {
	curAn = q.a
	r.uses(work)
	ob := r.scn(q) + ": " + what
	sig := q.may("(*sync.WaitGroup).Done || send || builtin.close || (*sync.%).Unlock")
	n := 0
	for _, s := range q.Find(work) {
		if gs, ok := s.n.ins.(*ssa.Go); ok {
			chans := false
			for _, v := range gs.Call.Args {
				if _, is := v.Type().Underlying().(*types.Chan); is {
					chans = true
				}
			}
			if !chans && r.done(q, ob) {
				r.fail(ob, s.n.Where(), clip(q.EffStr(s), 100)+" is started in the background and nobody can wait for it")
				return
			}
			continue
		}
		// every goroutine it runs in, the innermost first
		for g := goRoot(s.n.c); g != nil; g = goRoot(g.parent) {
			g := g
			n++
			r.site(s)
			path := q.Path([]State{s}, func(t State) bool { return goRoot(t.n.c) == g && sig(t) }, func(t State) bool { return !within(t.n.c, g) || isExit(t) })
			if path == nil {
				continue
			}
			if !r.done(q, ob) {
				return
			}
			r.fail(ob, s.n.Where(), "the goroutine that does "+clip(q.EffStr(s), 100)+" never says that it is done: nobody waits for it", q.Trace(path)...)
			return
		}
	}
	if n > 0 && r.done(q, ob) {
		r.ok(ob)
	}
}
