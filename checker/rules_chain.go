package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P16", "the successors stored at the end of a block by conditional constant propagation, for every combination of kinds of neighbouring entries; effects of the preparation by scenario", p16)
}

// hotKind is a kind of cached entry.
type hotKind struct {
	name  string
	op    int64 // 0 none, 1 delete, 2 insert or change
	sn    int64
	value bool
	live  bool // there is such a key after the block
	stood bool // there was such a key before the block
	hint  bool // only the key is known
}

var hotKinds = []hotKind{
	{"untouched", 0, 3, true, true, true, false},
	{"successor hint", 0, -1 << 63, false, true, true, true},
	{"changed", 2, 3, true, true, true, false},
	{"inserted", 2, -1, true, true, false, false},
	{"inserted and deleted", 1, -1, true, false, false, false},
	{"deleted", 1, 3, true, false, true, false},
	{"prepared only", 0, -1, false, false, false, false},
	{"prepared and deleted", 1, -1, false, false, false, false},
}

var hotPlace = regexp.MustCompile(`^recv\.cachedEntries@*\[(\d+)\]\.EntryPtr\.(NextKey|Key)@*$`)

// chain: with the cached entries of these kinds between two keys that stay,
// every key that stays is left with the key that follows it.
func (r *R) chain(a *Analysis, mid []hotKind, tab *commitTab, bad *int) {
	ks := append(append([]hotKind{hotKinds[0]}, mid...), hotKinds[0])
	var names []string
	facts := []Fact{{"len(recv.cachedEntries%)", vi(int64(len(ks)))}}
	for i, k := range ks {
		e := fmt.Sprintf("recv.cachedEntries%%[%d].", i)
		v := V{k: vNil}
		if k.value {
			v = V{k: vNonNil}
		}
		facts = append(facts, Fact{e + "Operation%", vi(k.op)}, Fact{e + "EntryPtr.SerialNum%", vi(k.sn)}, Fact{e + "EntryPtr.Value%", v})
		if i > 0 && i < len(ks)-1 {
			names = append(names, k.name)
		}
	}
	if tab != nil {
		for _, f := range tab.flags {
			facts = append(facts, Fact{"recv.cachedEntries%." + f, vb(false)})
		}
	}
	// the key before one that is inserted or deleted is never a hint
	for i, k := range ks {
		if k.stood && k.live {
			continue
		}
		j := i - 1
		for !ks[j].stood {
			j--
		}
		if ks[j].hint {
			return
		}
	}
	// what is expected
	want, may := map[int]int{}, map[int]int{}
	for i, k := range ks {
		if !k.live {
			continue
		}
		j := i + 1
		for j < len(ks) && !ks[j].live {
			j++
		}
		if j >= len(ks) {
			continue
		}
		changed := !k.stood || !ks[j].stood
		for x := i + 1; x < j; x++ {
			changed = changed || ks[x].stood
		}
		switch {
		case changed && k.hint:
			return // such a key is never a hint
		case changed:
			want[i] = j
		case j > i+1 && !k.hint:
			may[i] = j
		}
	}
	q := r.Q(a, strings.Join(names, ", "), facts...)
	ob := r.scn(q) + ": every key that stays is left with the key that follows it"
	type st struct {
		s State
		m string
	}
	show := func(m map[int]int) string {
		var xs []string
		for i, j := range m {
			xs = append(xs, fmt.Sprintf("%d>%d", i, j))
		}
		sort.Strings(xs)
		return strings.Join(xs, " ")
	}
	read := func(s string) map[int]int {
		m := map[int]int{}
		for _, x := range strings.Fields(s) {
			var i, j int
			if n, _ := fmt.Sscanf(x, "%d>%d", &i, &j); n == 2 {
				m[i] = j
			}
		}
		return m
	}
	marks := func(s string) []string {
		var out []string
		for _, x := range strings.Fields(s) {
			if strings.Contains(x, "+") {
				out = append(out, x)
			}
		}
		return out
	}
	seen := map[string]bool{}
	work := []st{{q.start(), ""}}
	ends := 0
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range q.Next(x.s) {
			y := st{t, x.m}
			if ef := t.n.Eff(); ef != nil && ef.name == "=Entry.NextKey" && !strings.HasPrefix(q.EffArg(t, 0), "$") {
				p, v := hotPlace.FindStringSubmatch(q.EffArg(t, 0)), hotPlace.FindStringSubmatch(q.EffArg(t, 1))
				if p == nil || v == nil || v[2] != "Key" && !q.justRead(t) {
					r.undecided(ob, "not known: "+clip(q.EffStr(t), 200))
					*bad++
					return
				}
				m := read(x.m)
				var i, j int
				fmt.Sscan(p[1], &i)
				fmt.Sscan(v[1], &j)
				if v[2] == "NextKey" {
					// the successor the other entry has just now
					o := j
					if n, ok := m[o]; ok {
						j = n
					} else if !ks[o].stood {
						j = -1 // none
					} else {
						j = o + 1
						for j < len(ks) && !ks[j].stood {
							j++
						}
					}
				}
				m[i] = j
				y.m = strings.TrimSpace(show(m) + " " + strings.Join(marks(x.m), " "))
				r.site(t)
			}
			if ef := t.n.Eff(); ef != nil && tab != nil && strings.HasPrefix(ef.name, "=HotEntry.") && !strings.HasPrefix(q.EffArg(t, 0), "$") {
				if f := strings.TrimPrefix(ef.name, "=HotEntry."); tab.has(f) {
					p := markPlace.FindStringSubmatch(q.EffArg(t, 0))
					v := q.EffArg(t, 1)
					if p == nil || v != "true" && v != "false" {
						r.undecided(ob, "not known: "+clip(q.EffStr(t), 200))
						*bad++
						return
					}
					ms := map[string]bool{}
					for _, k := range marks(x.m) {
						ms[k] = true
					}
					ms[p[1]+"+"+f] = v == "true"
					var xs []string
					for k, on := range ms {
						if on {
							xs = append(xs, k)
						}
					}
					sort.Strings(xs)
					y.m = strings.TrimSpace(show(read(x.m)) + " " + strings.Join(xs, " "))
					r.site(t)
				}
			}
			if t.n.kind == nodeExit && t.n.c == q.a.root {
				ends++
				m := read(y.m)
				if tab != nil {
					if msg := tab.judge(ks, want, may, marks(y.m)); msg != "" {
						if r.done(q, ob) {
							r.fail(ob, q.a.rootNm, msg)
							*bad++
						}
						return
					}
				}
				for i, k := range ks {
					j, set := m[i]
					w, must := want[i]
					o, ok := may[i]
					switch {
					case must && !set:
						if r.done(q, ob) {
							r.fail(ob, q.a.rootNm, fmt.Sprintf("[%s] is left with the successor it had, although %s follows it now", k.name, ks[w].name))
							*bad++
						}
						return
					case k.live && set && !(must && j == w) && !(ok && j == o):
						if r.done(q, ob) {
							to := "nothing"
							if j >= 0 && j < len(ks) {
								to = fmt.Sprintf("entry %d [%s]", j, ks[j].name)
							}
							r.fail(ob, q.a.rootNm, fmt.Sprintf("entry %d [%s] is given %s as its successor", i, k.name, to))
							*bad++
						}
						return
					}
				}
				continue
			}
			k := y.s.key() + "#" + y.m
			if !seen[k] {
				seen[k] = true
				work = append(work, y)
				if len(seen) > 200000 {
					r.undecided(ob, "too many states")
					*bad++
					return
				}
			}
		}
	}
	if !r.done(q, ob) {
		*bad++
		return
	}
	if ends == 0 {
		r.fail(ob, q.a.rootNm, "it does not come to an end")
		*bad++
		return
	}
	r.ok(ob)
}

// justRead: what is stored was read from memory in the same block, with nothing stored there in between.
func (q *Q) justRead(s State) bool {
	st, ok := s.n.ins.(*ssa.Store)
	if !ok {
		return false
	}
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Block() != st.Block() {
		return false
	}
	in := false
	for _, ins := range st.Block().Instrs {
		switch x := ins.(type) {
		case *ssa.UnOp:
			in = in || x == ld
		case *ssa.Store:
			if x == st {
				return in
			}
			if f, ok := x.Addr.(*ssa.FieldAddr); in && ok && types.Identical(f.X.Type(), st.Addr.(*ssa.FieldAddr).X.Type()) && f.Field == st.Addr.(*ssa.FieldAddr).Field {
				return false
			}
		case ssa.CallInstruction:
			if in {
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				f := x.Common().StaticCallee()
				if f == nil {
					return false
				}
				for k := range q.a.storeKeys(f) {
					if strings.Contains(k, "NextKey") {
						return false
					}
				}
			}
		}
	}
	return false
}

var markPlace = regexp.MustCompile(`^recv\.cachedEntries@*\[(\d+)\]\.\w+@*$`)

// commitTab tells what the second half of a commit does with an entry, by its
// kind and its marks.
type commitTab struct {
	flags []string
	eff   map[string]commitEff
}

type commitEff struct{ appMay, appMust, delMay, delMust bool }

func (t *commitTab) has(f string) bool {
	for _, x := range t.flags {
		if x == f {
			return true
		}
	}
	return false
}

func tabKey(op int64, stored bool, marks string) string {
	return fmt.Sprintf("%d %v %s", op, stored, marks)
}

// judge compares what is done with each entry, as it is marked, with what has to be done.
func (t *commitTab) judge(ks []hotKind, want, may map[int]int, marks []string) string {
	for i, k := range ks {
		var ms []string
		for _, f := range t.flags {
			for _, m := range marks {
				if m == fmt.Sprintf("%d+%s", i, f) {
					ms = append(ms, f)
				}
			}
		}
		e, ok := t.eff[tabKey(k.op, k.sn >= 0, strings.Join(ms, ","))]
		if !ok {
			continue
		}
		_, chg := want[i]
		_, opt := may[i]
		app := k.live && (k.op == 2 || chg) // a new version is due
		del := k.op == 1 && k.stood && !k.hint
		as := fmt.Sprintf("entry %d [%s], marked %v,", i, k.name, ms)
		switch {
		case app && !e.appMust:
			return as + " gets no new version"
		case !app && !(opt && k.live) && e.appMay:
			return as + " gets a new version"
		case del && !e.delMust:
			return as + " is not deleted"
		case !del && e.delMay:
			return as + " is deleted"
		}
	}
	return ""
}

// commitTable works out what is done with an entry of each kind and with each
// combination of marks.
func (r *R) commitTable() *commitTab {
	a := r.An("", "(*MoeingADS).EndWrite", adsOpts)
	if a == nil {
		return nil
	}
	t := &commitTab{eff: map[string]commitEff{}}
	if pk := r.p.Pkgs["types"]; pk != nil {
		if o := pk.Pkg.Scope().Lookup("HotEntry"); o != nil {
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						t.flags = append(t.flags, st.Field(i).Name())
					}
				}
			}
		}
	}
	if len(t.flags) == 0 || len(t.flags) > 4 {
		return nil
	}
	const E = "recv.cachedEntries%[K]"
	for _, op := range []int64{0, 1, 2} {
		for _, stored := range []bool{true, false} {
			sn := vr(-inf, -1)
			if stored {
				sn = vr(0, inf)
			}
			for m := 0; m < 1<<len(t.flags); m++ {
				fs := []Fact{{E + ".Operation||" + E + ".Operation@", vi(op)}, {E + ".EntryPtr.SerialNum||" + E + ".EntryPtr.SerialNum@", sn},
					{E + ".EntryPtr.Value||" + E + ".EntryPtr.Value@", V{k: vNonNil}}, {"types.GetShardID(%)", vi(3)}}
				var ms []string
				for i, f := range t.flags {
					fs = append(fs, Fact{E + "." + f + "||" + E + "." + f + "@", vb(m>>i&1 == 1)})
					if m>>i&1 == 1 {
						ms = append(ms, f)
					}
				}
				q := r.Q(a, "marks", fs...)
				var e commitEff
				e.appMay, e.appMust = q.inRound("DataTree.AppendEntry(recv.datTree[3], " + E + ".EntryPtr)")
				e.delMay, e.delMust = q.inRound("send(recv.idxTreeJobChan[%], {key:" + E + ".EntryPtr.Key,pos:-%})")
				if q.giveUp {
					return nil
				}
				t.eff[tabKey(op, stored, strings.Join(ms, ","))] = e
			}
		}
	}
	return t
}

// inRound: whether a round of the loop around p can, and whether it does, come to p.
func (q *Q) inRound(p P) (may, must bool) {
	xs := q.Find(p)
	if len(xs) == 0 {
		return false, false
	}
	for _, x := range xs {
		ch := x.n.Chain()
		if len(ch) == 0 {
			continue
		}
		l := ch[len(ch)-1]
		isHdr := func(s State) bool { return s.n.hdr == l }
		for _, h := range q.All() {
			if !isHdr(h) || q.Path([]State{h}, func(s State) bool { return isHdr(s) || !s.n.InLoop(l) }, q.may(p)) == nil {
				continue
			}
			if q.Path([]State{h}, func(s State) bool { return !s.n.InLoop(l) || q.must(p)(s) }, isHdr) != nil {
				return true, false
			}
		}
	}
	return true, true
}

// chains goes through all sequences of n kinds of entries between two keys.
func (r *R) chains(n int) string {
	o := adsOpts
	o.key = "chain"
	o.KeepIter = true
	o.NoInline = append([]string{"datatree.ParallelRun"}, adsOpts.NoInline...)
	fn := "(*MoeingADS).update"
	if r.p.Fn("", fn) == nil {
		fn = "(*MoeingADS).EndWrite"
	}
	tab := r.commitTable()
	if a := r.An("", fn, o); a != nil {
		bad := 0
		var rec func(mid []hotKind)
		rec = func(mid []hotKind) {
			if bad > 3 {
				return
			}
			if len(mid) == n {
				r.chain(a, mid, tab, &bad)
				return
			}
			for _, k := range hotKinds {
				rec(append(append([]hotKind{}, mid...), k))
			}
		}
		rec(nil)
	}
	return fn
}

func p16(r *R) {
	n := 4
	if r.thorough {
		n = 5
	}
	fn := r.chains(n)
	r.prepared()
	r.collected(fn)
	r.cleared()
}

// prepared: what is kept of a key and its neighbours before the block.
func (r *R) prepared() {
	o := adsOpts
	o.key = "prep"
	it := "IndexTree.ReverseIterator(recv.idxTree,recv.startKey,a0)"
	prev := "DataTree.ReadEntry(recv.datTree[types.GetShardID(IteratorUI64.Key(" + it + "))],IteratorUI64.Value(" + it + "))"
	own := "DataTree.ReadEntry(recv.datTree[types.GetShardID(a0)],#0(IndexTree.Get(recv.idxTree,a0)))"
	there := func(b bool) Fact { return Fact{"#1(IndexTree.Get(recv.idxTree,a0))", vb(b)} }
	hot := "mapset(recv.k2heMap.maps[%]"
	next := "mapset(recv.nkSet.maps[%]"
	fresh := "{Key:a0,Value:nil,NextKey:%,Height:0,LastHeight:0,SerialNum:-1}"
	wrap := func(e string) string { return "{EntryPtr:" + e + ",Operation:0%}" }
	active, valid := Fact{"DataTree.GetActiveBit(%)", vb(true)}, Fact{"IteratorUI64.Valid(" + it + ")", vb(true)}
	for _, c := range []struct {
		fn   string
		here bool
		// keys of the entries kept, their contents, and the successor that is marked
		keys, vals []string
		mark       string
	}{
		{"PrepareForUpdate", true, []string{"a0||" + own + ".Key"}, []string{wrap(own)}, ""},
		{"PrepareForUpdate", false, []string{"a0", prev + ".Key"}, []string{wrap("&$%"), wrap(prev)}, prev + ".NextKey"},
		{"PrepareForDeletion", true, []string{"a0||" + own + ".Key", prev + ".Key"}, []string{wrap(own), wrap(prev)}, own + ".NextKey"},
		{"PrepareForDeletion", false, nil, nil, ""},
	} {
		a := r.An("", "(*MoeingADS)."+c.fn, o)
		if a == nil {
			continue
		}
		name := c.fn + " of a key that is there"
		if !c.here {
			name = c.fn + " of a key that is not there"
		}
		q := r.Q(a, name, there(c.here), active, valid)
		var all []P
		for i, k := range c.keys {
			p := P(hot + ", " + k + ")")
			all = append(all, p)
			r.Times(q, "entry "+itoa(int64(i+1))+" is kept under its key", 1, p)
			r.Bytes(q, "entry "+itoa(int64(i+1))+" is what was last committed", p, 2, c.vals[i])
		}
		if !c.here && len(all) > 0 {
			r.Bytes(q, "a key that is not there has no value and no number", P("=HotEntry.EntryPtr($%)"), 1, fresh, prev)
		}
		if len(all) > 0 {
			r.Only(q, "nothing else is kept", P(hot+")"), all...)
		} else {
			r.Never(q, "nothing is kept", P(hot+")"))
		}
		r.Never(q, "nothing is marked for writing yet", "=HotEntry.%(%, true)")
		if c.mark != "" {
			r.Must(q, "the key that follows is marked", P(next+", "+c.mark+")"))
			r.Only(q, "no other key is marked", P(next+")"), P(next+", "+c.mark+")"))
		} else {
			r.Only(q, "no key is marked", P(next+")"), P(next+", "+own+".NextKey)"))
		}
		if c.fn == "PrepareForDeletion" {
			r.Result(q, "it says whether the key is there", 0, "#1(IndexTree.Get(recv.idxTree,a0))", fmt.Sprint(c.here))
		}
		if c.mark != "" {
			q = r.Q(a, name+", no key before it", there(c.here), active, Fact{"IteratorUI64.Valid(" + it + ")", vb(false)})
			r.NoReturn(q, "refused")
		}
	}
	// --- entries are kept in the order of the first byte of their keys
	type bk struct {
		fn, place string
	}
	n := r.Const("", "BucketCount", 64)
	if n <= 0 || 256%n != 0 {
		r.undecided("the buckets", "their number is not known")
		return
	}
	for b, w := int64(0), 256/n; b < 256; b += w {
		for _, x := range []bk{{"(*BucketMap).Store", "mapset"}, {"(*BucketSet).Store", "mapset"}} {
			a := r.An("", x.fn, Opts{key: "bk"})
			if a == nil {
				continue
			}
			q := r.Q(a, "first byte from "+itoa(b)+" on", Fact{"a0[0]%", V{k: vInt, lo: b, hi: b + w - 1}})
			r.Times(q, "the bucket keeps the order", 1, P("mapset(recv.maps["+itoa(b/w)+"], a0)"))
		}
		if a := r.An("", "(*BucketMap).Load", Opts{key: "bk"}); a != nil {
			q := r.Q(a, "first byte from "+itoa(b)+" on", Fact{"a0[0]%", V{k: vInt, lo: b, hi: b + w - 1}})
			r.DeepResult(q, "it is looked for in the bucket it is put into", 0, "recv.maps["+itoa(b/w)+"]{a0}", "#0(recv.maps["+itoa(b/w)+"]{a0})")
		}
	}
}

// AnFn analyses a function found in the tree.
func (r *R) AnFn(f *ssa.Function, o Opts) *Analysis {
	key := fmt.Sprintf("%p|%s", f, o.key)
	if a, ok := r.ans[key]; ok {
		return a
	}
	a := r.p.Analyze(f, o)
	a.Graph()
	r.ans[key] = a
	r.funcs[fnName(f)] = true
	return a
}

// collected: the entries and hints of all buckets come into one sequence in the order of their keys.
func (r *R) collected(fn string) {
	o := adsOpts
	o.key, o.MaxTrip = "collect", 1
	a := r.An("", fn, o)
	if a == nil {
		return
	}
	hm, ns := "recv.k2heMap.maps[%]", "recv.nkSet.maps[%]"
	tmp := "=MoeingADS.tempEntries64[](recv.tempEntries64[%]%, append(recv.tempEntries64[%]%))"
	q := r.Q(a, "")
	// every entry of a bucket goes to the list of the bucket
	put := P("builtin.append(%, " + hm + "{rangekey(%)}||rangeval(" + hm + "))")
	for _, s := range append(q.Find(put), q.Find(P(tmp))...) {
		ef := s.n.Eff()
		idx := func(x string, name string) string {
			i := strings.Index(x, name+"[")
			if i < 0 {
				return ""
			}
			x = x[i+len(name)+1:]
			d := 1
			for j := range x {
				switch x[j] {
				case '[', '(', '{':
					d++
				case ']', ')', '}':
					d--
				}
				if d == 0 {
					return x[:j]
				}
			}
			return ""
		}
		to := idx(q.EffArg(s, 0), "recv.tempEntries64")
		for i := 1; i < len(ef.args); i++ {
			for _, name := range []string{"recv.k2heMap.maps", "recv.nkSet.maps", "recv.tempEntries64"} {
				if x := idx(q.EffArg(s, i), name); x != "" && to != "" && x != to {
					r.fail("an entry stays in its bucket", s.n.Where(), "what is in bucket "+x+" is put into list "+to, s.n.Where())
				}
			}
		}
	}
	r.Exists(q, "entries are collected", put)
	r.PerIter(q, "every entry is collected", 0, put)
	r.After(q, "what is collected is kept", put, P("=MoeingADS.tempEntries64[]"))
	hint := P("builtin.append(%, &$%)")
	in := "has(" + hm + ",rangekey(" + ns + "))"
	q = r.Q(a, "the successor is an entry itself", Fact{in, vb(true)})
	r.Never(q, "it is not put in twice", hint)
	q = r.Q(a, "the successor is not an entry itself", Fact{in, vb(false)})
	r.PerIter(q, "it is put in", 0, hint)
	q = r.Q(a, "")
	r.Only(q, "a hint has nothing to be done", P("=HotEntry.Operation($complit%)"), P("=HotEntry.Operation($complit%, 0)"))
	r.Never(q, "a hint is not taken for a prepared entry", P("=Entry.SerialNum($complit%, -1)"))
	r.Only(q, "a hint has the key of the successor", P("=Entry.Key($complit%)"), P("=Entry.Key($complit%, rangekey("+ns+"))"), P("=Entry.Key($complit%, \"dummy\")"))
	// all buckets
	n := r.Const("", "BucketCount", 64)
	if xs := q.Find(P("sync/atomic.AddInt64(&$%)")); len(xs) > 0 {
		r.Only(q, "the workers take the buckets one by one", "sync/atomic.AddInt64(&$%)", "sync/atomic.AddInt64(&$%, 1)")
		v := strings.TrimPrefix(q.EffArg(xs[0], 0), "&")
		from := int64(0)
		for _, s := range q.Find(P("=local(" + v + ")")) {
			fmt.Sscan(q.EffArg(s, 1), &from)
		}
		ctr := "sync/atomic.AddInt64(&" + v + "%)"
		for _, b := range []int64{0, 1, n / 2, n - 2, n - 1} {
			q := r.Q(a, "bucket "+itoa(b), Fact{ctr, vi(from + 1 + b)})
			r.Exists(q, "it is collected", P(strings.ReplaceAll(string(put), "%]", itoa(b)+"]")))
		}
		r.Never(r.Q(a, "past the last bucket", Fact{ctr, vi(from + 1 + n)}), "there are no more", put)
	}
	// sorted
	srt := P("sort.Slice(%) || sort.SliceStable(%)")
	sc := P("slices.SortFunc(%) || slices.SortStableFunc(%)")
	found := 0
	for _, p := range []P{srt, sc} {
		for _, s := range q.Find(p) {
			found++
			f := s.n.Eff().args[1]
			if f.k != KFunc || f.fn == nil {
				r.undecided("the order of a bucket", "not known")
				continue
			}
			b := r.AnFn(f.fn, Opts{key: "cmp"})
			one, two := "%[a0].EntryPtr.Key", "%[a1].EntryPtr.Key"
			if p == sc {
				one, two = "a0.EntryPtr.Key", "a1.EntryPtr.Key"
			}
			for _, c := range []int64{-1, 0, 1} {
				q := r.Q(b, "keys that compare as "+itoa(c), Fact{"bytes.Compare(" + one + "," + two + ")", vi(c)}, Fact{"bytes.Compare(" + two + "," + one + ")", vi(-c)})
				if p == sc {
					r.within(q, "entries are in the order of their keys", 0, c, c)
				} else {
					r.Result(q, "entries are in the order of their keys", 0, fmt.Sprint(c < 0))
				}
			}
		}
		if len(q.Find(p)) > 0 {
			r.After(q, "the list of the bucket is sorted when it is complete", put, p)
			r.After(q, "the list of the bucket is sorted when it is complete with the hints", hint, p)
			r.NotAfter(q, "it is sorted before it is used", P("=Entry.NextKey(recv.cachedEntries%)"), p)
		}
	}
	if found == 0 && len(q.Find(P("sort.% || slices.%"))) == 0 {
		r.fail("the entries are sorted", q.a.rootNm, "nothing sorts them")
	}
	// merged
	o.key, o.MaxTrip, o.NoInline = "merge", 0, append([]string{"datatree.ParallelRun"}, adsOpts.NoInline...)
	if a := r.An("", fn, o); a != nil {
		var xs []string
		for i := int64(0); i < n; i++ {
			xs = append(xs, "recv.tempEntries64["+itoa(i)+"]%")
		}
		r.Ends(r.Q(a, ""), "the lists follow each other in the order of the buckets", "recv.cachedEntries", "<"+strings.Join(xs, " ")+">")
	}
}

// cleared: nothing kept for one block is still there in the next.
func (r *R) cleared() {
	a := r.An("", "(*MoeingADS).EndWrite", adsOpts)
	if a == nil {
		return
	}
	q := r.Q(a, "")
	for _, f := range []string{"k2heMap", "nkSet"} {
		if len(q.Find(P("builtin.clear(recv."+f+"%) || builtin.delete(recv."+f+"%)"))) > 0 {
			r.PerIter(q, "nothing kept for the block is there after it", 0, P("builtin.clear(recv."+f+"%) || builtin.delete(recv."+f+"%)"))
			continue
		}
		r.Must(q, "nothing kept for the block is there after it", P("=MoeingADS."+f+"(recv."+f+", &$%)"))
		r.NotAfter(q, "it is used before it is given up", P("=MoeingADS."+f+"(recv."+f+", &$%)"), "=MoeingADS.cachedEntries || DataTree.AppendEntry(%, %.EntryPtr)")
	}
	if len(q.Find("builtin.append(recv.tempEntries64[%][:0]%) || builtin.append(make(0%))")) > 0 {
		return
	}
	clr := P("=MoeingADS.tempEntries64[](recv.tempEntries64[%], recv.tempEntries64[%]%[:0]||nil||make(0%))")
	r.Exists(q, "the lists of the buckets are emptied", clr)
	r.PerIter(q, "the lists of the buckets are emptied", 0, clr)
	r.FullRange(q, "the lists of the buckets are emptied", 0, clr)
	clr1 := P("=MoeingADS.tempEntries64[](recv.tempEntries64[{i}], recv.tempEntries64[%]%[:0]||nil||make(0%))")
	for _, i := range []int{0, 1, int(r.Const("", "BucketCount", 64)) - 1} {
		r.Must(q, "the list of bucket "+fmt.Sprint(i)+" is emptied", subst([]P{clr1}, i)...)
	}
}
