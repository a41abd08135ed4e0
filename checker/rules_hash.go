package main

import (
	"fmt"
	"strings"
)

func init() {
	register("P08", "hash scheme: the symbolic content hashed at every place that hashes (level byte, left, right), the jobs queued are carried out before they are dropped, the root of the roots is over the eight shards in order", p08)
}

func p08(r *R) {
	if a := r.An("datatree", "hash2", Opts{}); a != nil {
		r.ResultBytes(r.Q(a, ""), "an inner node is over its level and its two children", 0, "sha256(<b(a0) a1 a2>)")
	}
	if a := r.An("datatree", "hash", Opts{}); a != nil {
		r.ResultBytes(r.Q(a, ""), "a leaf is over its bytes", 0, "sha256(a0)")
	}
	if a := r.An("datatree", "(*hashJob).run", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Bytes(q, "a job hashes its level and its two sources", "builtin.copy", 1, "sha256(<b(recv.level) recv.srcA recv.srcB>)")
		r.Must(q, "the hash goes to the target", "builtin.copy(recv.target)")
	}
	if a := r.An("datatree", "(*Hasher).Add", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Must(q, "the job is queued", "=Hasher.jobs")
		for _, f := range [][2]string{{"level", "a0"}, {"target", "a1"}, {"srcA", "a2"}, {"srcB", "a3"}} {
			r.Must(q, "the job is given its "+f[0], P("=hashJob."+f[0]+"(%, "+f[1]+")"))
		}
	}
	if a := r.An("datatree", "(*Hasher).Run", Opts{NoInline: []string{"(%hashJob).run"}}); a != nil {
		for _, c := range []struct {
			n string
			k int64
		}{{"one job", 1}, {"a few jobs", 8}, {"many jobs", 60}} {
			q := r.Q(a, c.n, Fact{"len(recv.jobs)", vi(c.k)})
			runs := q.Find("(%hashJob).run(%recv.jobs[%])")
			if len(runs) == 0 {
				r.Exists(q, "the jobs are done", "(%hashJob).run")
			}
			for _, s := range runs {
				ix := q.EffArg(s, 0)
				ix = ix[strings.Index(ix, "jobs[")+5:]
				ix = ix[:strings.LastIndex(ix, "]")]
				if strings.HasPrefix(ix, "sync/atomic.AddInt64(&") && len(s.n.Chain()) > 0 {
					ctr := ix[strings.Index(ix, "&")+1 : strings.Index(ix, ",")]
					r.Only(q, "the jobs are counted from the first", P("=local("+ctr+")"), P("=local("+ctr+", -1)"))
					r.uses("(%hashJob).run(%recv.jobs[%])")
					q := r.Q(a, c.n+", the last is taken", Fact{"len(recv.jobs)", vi(c.k)}, Fact{ix, vi(c.k - 1)})
					l := s.n.Chain()[len(s.n.Chain())-1]
					ob := r.scn(q) + ": it is done"
					p := q.Path(q.Find("sync/atomic.AddInt64"), q.must("(%hashJob).run(%recv.jobs[%])"), func(t State) bool { return !t.n.InLoop(l) })
					if r.done(q, ob) && p != nil {
						r.fail(ob, s.n.Where(), "a worker can stop although the job it took is not done", q.Trace(p)...)
					} else {
						r.ok(ob)
					}
				} else if len(s.n.Chain()) > 0 {
					r.FullRange(q, "all jobs are gone through", 0, "(%hashJob).run(%recv.jobs[%])")
				}
			}
			r.NotAfter(q, "jobs are dropped when they are done", "=Hasher.jobs", "(%hashJob).run")
			r.Must(q, "jobs done are dropped", "=Hasher.jobs(recv.jobs, recv.jobs[:0]||nil||make(0)%)")
		}
	}
	if a := r.An("", "(*MoeingADS).GetRootHash", adsOpts); a != nil {
		pair := func(x, y string) string { return "sha256(<" + x + " " + y + ">)" }
		var v []string
		for i := 0; i < shards; i++ {
			v = append(v, "MetaDB.GetRootHash(recv.meta,"+string(rune('0'+i))+")")
		}
		for len(v) > 1 {
			var w []string
			for i := 0; i < len(v); i += 2 {
				w = append(w, pair(v[i], v[i+1]))
			}
			v = w
		}
		r.ResultBytes(r.Q(a, ""), "the root is over the roots of the eight shards, in pairs, in order", 0, v[0])
	}
	if a := r.An("", "(*MoeingADS).EndWrite", adsOpts); a != nil {
		q := r.Q(a, "")
		var all []P
		for i := 0; i < shards; i++ {
			all = append(all, subst([]P{"MetaDB.SetRootHash(recv.meta, {i}, DataTree.EndBlock(recv.datTree[{i}]))"}, i)...)
		}
		r.Only(q, "the root recorded for a shard is what its tree gave at the end of the block", "MetaDB.SetRootHash", all...)
		r.MustEach(q, "the root of shard {i} is recorded", shards, "MetaDB.SetRootHash(recv.meta, {i})")
	}
	if a := r.An("datatree", "init#1", Opts{NoInline: []string{"(*datatree.Hasher).%", "datatree.EntryToBytes", "datatree.hash2", "datatree.hash"}}); a != nil {
		q := r.Q(a, "")
		null := func(l int) string { return fmt.Sprintf("datatree.NullNodeInHigherTree[%d]", l) }
		h := func(l int) string {
			if l == 13 {
				return "datatree.hash2(12,datatree.NullTwig.twigRoot[:],datatree.NullTwig.twigRoot[:])"
			}
			return fmt.Sprintf("datatree.hash2(%d,%s[:],%s[:])", l-1, null(l-1), null(l-1))
		}
		for l := 13; l < 64; l++ {
			// the copies are as many as the table has places
			r.Only(q, fmt.Sprintf("the null node of level %d is over two null nodes of the level below", l), P("builtin.copy("+null(l)+"[:]) || =[]("+null(l)+")"), P("builtin.copy("+null(l)+"[:], "+h(l)+")"))
			r.Must(q, fmt.Sprintf("there is a null node of level %d", l), P("builtin.copy("+null(l)+"[:])"))
		}
		r.Must(q, "the null twig has the root of the null tree", "builtin.copy(datatree.NullTwig.leftRoot[:], datatree.NullMT4Twig[1][:])")
		r.Before(q, "the null twig has its left root before its root is computed", "builtin.copy(datatree.NullTwig.leftRoot[:], datatree.NullMT4Twig[1][:])", "(*datatree.Hasher).Add(%, 11)")
		r.After(q, "the root of the null twig is computed", "(*datatree.Hasher).Add(%, 11)", "(*datatree.Hasher).Run")
	}
	if a := r.An("datatree", "(*Tree).RecoverInactiveTwigRoots", Opts{NoInline: []string{"datatree.hash2", "(*datatree.%File).%"}}); a != nil {
		q := r.Q(a, "")
		r.Only(q, "the root of an inactive twig is over its left root and no bits", "datatree.hash2", "datatree.hash2(11, %, datatree.NullTwig.activeBitsMTL3[:])")
	}
}
