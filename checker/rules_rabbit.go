package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P26", "effects and results of every operation of the transaction store by conditional constant propagation, one scenario per state of its cache", p26)
	register("P27", "slots visited, result and changes of every operation of the hash-chain store by conditional constant propagation, one scenario per state of the chain", p27)
}

const smsT = "(*store/rabbit.SimpleMultiStore)."

// slotForm is the name of the n-th slot of the key a0.
func slotForm(n int) string {
	h := "sha256(a0)"
	for i := 0; i < n; i++ {
		h = "sha256(" + h + ")"
	}
	return "<b(types.LimitRange(el(sub(" + h + ",0,1)))) sub(" + h + ",1,8)>"
}

// slotKinds are the states a slot of a chain can be in.
var slotKinds = []struct {
	name              string
	there, own, empty bool
	pass              int64
}{
	{"a free slot", false, false, false, 0},
	{"the slot of the key", true, true, false, 0},
	{"the slot of the key which others passed", true, true, false, 3},
	{"the emptied slot of the key", true, true, true, 3},
	{"a slot of another key which nothing passed", true, false, false, 0},
	{"a slot of another key which others passed", true, false, false, 2},
	{"an emptied slot of another key which others passed", true, false, true, 2},
	{"a slot of another key which one passed", true, false, false, 1},
	{"an emptied slot of another key which one passed", true, false, true, 1},
	{"the slot of the key which one passed", true, true, false, 1},
}

// lastKinds are the kinds a chain can end in when no more is looked at.
var lastKinds = []int{0, 1, 2, 3, 4, 9}

// either: a field, or the field read again later.
func either(at, f string) string { return at + f + "||" + f + "@" }

// slotFacts: in round n a slot of kind k is come to.
func slotFacts(n, k int) []Fact {
	s, cv := slotKinds[k], smsT+"GetCachedValue(%)"
	at := fmt.Sprintf("@%d:", n)
	t := V{k: vNil}
	if s.there {
		t = V{k: vNonNil}
	}
	return []Fact{
		{at + "bytes.Equal(%.key%,a0)||bytes.Equal(a0,%.key%)", vb(s.own)},
		{either(at, smsT+"%etCachedValue(%).passbyNum"), vi(s.pass)},
		{either(at, smsT+"%etCachedValue(%).isEmpty"), vb(s.empty)},
		{at + cv, t},
	}
}

// slotSet is a slot that is stored, with what its fields hold then.
type slotSet struct {
	slot string
	ptr  *Sym
	now  map[string]string
}

// fieldsAt: what the structure that a pointer points to holds at a state.
func (m *Mach) fieldsAt(s State, ptr *Sym, t types.Type) map[string]string {
	out := map[string]string{}
	u, ok := deptr(t).Underlying().(*types.Struct)
	if !ok || ptr == nil {
		return out
	}
	m.At(s, func() {
		p := m.settle(ptr)
		if p.k == KAddr {
			p = p.args[0]
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fp := m.a.Field(p, namedName(deptr(t)), f.Name(), f.Type())
			if fp.typ == nil {
				fp.typ = f.Type()
			}
			out[f.Name()] = m.deepAt(fp, f.Type())
		}
	})
	return out
}

// slotSets goes along every way from the start to the end and lists the slots
// stored on it. nil if there is no end or too many ways.
func (r *R) slotSets(q *Q) [][]slotSet {
	m := q.Mach()
	kind, change := P(smsT+"SetCachedValue"), P("=CachedValue.%(%)")
	type way struct {
		s    State
		sets []slotSet
		seen map[string]int
	}
	var out [][]slotSet
	work := []way{{q.start(), nil, map[string]int{}}}
	steps := 0
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range q.Next(w.s) {
			if steps++; steps > 200000 {
				return nil
			}
			x := way{t, w.sets, w.seen}
			if q.Match(t, kind) != mNo {
				r.site(t)
				ss := slotSet{slot: "?"}
				if v := m.ArgAt(t, 1); v != nil {
					ss.slot = v.String()
				}
				if call, ok := t.n.ins.(ssa.CallInstruction); ok {
					v := call.Common().Args[2]
					m.At(t, func() { ss.ptr = m.settle(m.a.Eval(t.n.c, v)) })
					ss.now = m.fieldsAt(t, ss.ptr, v.Type())
				}
				x.sets = append(append([]slotSet{}, x.sets...), ss)
			} else if q.Match(t, change) != mNo {
				r.site(t)
			}
			if t.n.kind == nodeRet && t.n.c == q.a.root {
				out = append(out, x.sets)
				continue
			}
			k := t.key()
			if w.seen[k] > 1 {
				continue
			}
			sn := map[string]int{k: 1}
			for y, n := range w.seen {
				sn[y] += n
			}
			x.seen = sn
			work = append(work, x)
		}
	}
	return out
}

// Slots: on every way the slots named, and no others, are stored, and their
// fields hold what is expected. A field that is not named is as it was.
func (r *R) Slots(q *Q, what string, want map[string]map[string]string) {
	curAn = q.a
	r.uses(P(smsT + "SetCachedValue"))
	ob := r.scn(q) + ": " + what
	ways := r.slotSets(q)
	if !r.done(q, ob) {
		return
	}
	if len(ways) == 0 {
		r.fail(ob, q.a.rootNm, what+": it does not return")
		return
	}
	for _, w := range ways {
		got := map[string]bool{}
		for _, ss := range w {
			if ss.slot == "?" || hasUnknown(ss.slot) {
				r.undecided(ob, "slot not known: "+clip(ss.slot, 200))
				return
			}
			fs, ok := want[ss.slot]
			if !ok {
				r.fail(ob, q.a.rootNm, what+": the slot "+clip(ss.slot, 200)+" is changed")
				return
			}
			if got[ss.slot] {
				r.fail(ob, q.a.rootNm, what+": the slot "+clip(ss.slot, 200)+" is changed twice")
				return
			}
			got[ss.slot] = true
			var names []string
			for f := range ss.now {
				names = append(names, f)
			}
			sort.Strings(names)
			for _, f := range names {
				if f == "isDirty" {
					continue
				}
				exp, ok := fs[f]
				if !ok {
					exp = "(%).%etCachedValue(%," + ss.slot + ")." + f + "%"
					if v, ok := fs["old "+f]; ok {
						exp += "||" + v
					}
				}
				if !globAlts(exp, ss.now[f]) {
					if hasUnknown(ss.now[f]) {
						r.undecided(ob, "content not known: "+clip(ss.now[f], 200))
						return
					}
					r.fail(ob, q.a.rootNm, fmt.Sprintf("%s: %s of slot %s is %s, expected %s", what, f, clip(ss.slot, 150), clip(ss.now[f], 150), clip(exp, 150)))
					return
				}
			}
		}
		for s := range want {
			if !got[s] {
				r.fail(ob, q.a.rootNm, what+": the slot "+clip(s, 200)+" is not changed")
				return
			}
		}
	}
	r.ok(ob)
}

// passed are kinds of slots that a chain goes on from, when all is looked at.
func chainFacts(n, last int, kinds []int) ([]Fact, string) {
	var f []Fact
	nm := ""
	for i := 0; i < n; i++ {
		k := kinds[i%len(kinds)]
		f = append(f, slotFacts(i, k)...)
		nm += slotKinds[k].name + ", then "
	}
	f = append(f, slotFacts(n, last)...)
	var by []Fact
	for i := 0; i <= n; i++ {
		k := slotKinds[last]
		if i < n {
			k = slotKinds[kinds[i%len(kinds)]]
		}
		by = append(by, Fact{either("", smsT+"%etCachedValue(%,"+slotForm(i)+").passbyNum"), vi(k.pass)}, Fact{either("", smsT+"%etCachedValue(%,"+slotForm(i)+").isEmpty"), vb(k.empty)})
	}
	// the slots passed by, taken from the last to the first
	for j := 0; j < n; j++ {
		k := slotKinds[kinds[(n-1-j)%len(kinds)]]
		at := fmt.Sprintf("@%d:", j)
		by = append(by, Fact{either(at, smsT+"%etCachedValue(%[(-K+%)]).passbyNum"), vi(k.pass)}, Fact{either(at, smsT+"%etCachedValue(%[(-K+%)]).isEmpty"), vb(k.empty)})
	}
	f = append(by, f...)
	f = append(f, Fact{"len(append(%))||len(%find(%)#1)", vi(int64(n + 1))})
	return f, nm + slotKinds[last].name
}

func p27(r *R) {
	o := Opts{NoInline: []string{smsT + "%", "types.LimitRange"}, key: "rabbit", KeepIter: true}
	depth := 3
	if r.thorough {
		depth = 6
	}
	num := func(n int64) string { return fmt.Sprint(n) }
	if a := r.An("store/rabbit", "(*RabbitStore).Set", o); a != nil {
		for n := 0; n < depth; n++ {
			for k := range slotKinds[:4] {
				for rot := 0; rot < 3; rot++ {
					if n == 0 && rot > 0 {
						continue
					}
					kinds := [][]int{{4, 5, 6}, {5, 6, 4}, {6, 4, 5}}[rot]
					f, nm := chainFacts(n, k, kinds)
					q := r.Q(a, "Set: "+nm, f...)
					want := map[string]map[string]string{}
					own := map[string]string{"key": "a0", "value": "a1", "isEmpty": "false"}
					switch {
					case !slotKinds[k].there:
						own["passbyNum"], own["isDeleted"] = "0", "false"
					default:
						own["old passbyNum"] = num(slotKinds[k].pass)
						own["key"] = "a0||%etCachedValue(%).key%"
						if !slotKinds[k].empty {
							own["isEmpty"] = "false||%.isEmpty%"
						}
					}
					want[slotForm(n)] = own
					if !slotKinds[k].own || slotKinds[k].empty {
						for i := 0; i < n; i++ {
							kd := slotKinds[kinds[i%3]]
							want[slotForm(i)] = map[string]string{"passbyNum": num(kd.pass + 1), "old isEmpty": fmt.Sprint(kd.empty)}
						}
					}
					r.Slots(q, "the slot of the key has the value and the slots passed by count it", want)
				}
			}
		}
	}
	if a := r.An("store/rabbit", "(*RabbitStore).Set", o); a != nil {
		q := r.Q(a, "")
		r.Never(q, "the caller's own bytes are not kept", P("=CachedValue.value(%, a1||a1[%]||a1@||append(a1,%)||append(a1@,%))"), P("=CachedValue.key(%, a0||a0[%]||a0@||append(a0,%)||append(a0@,%))"))
	}
	chains := func(depth int, last int, kinds []int, f func(n int, nm string, facts []Fact, ks []int)) {
		for n := 0; n < depth; n++ {
			for rot := 0; rot < len(kinds); rot++ {
				if n == 0 && rot > 0 {
					continue
				}
				ks := append(append([]int{}, kinds[rot:]...), kinds[:rot]...)
				facts, nm := chainFacts(n, last, ks)
				f(n, nm, facts, ks)
			}
		}
	}
	passed := []int{5, 6, 7, 8}
	if a := r.An("store/rabbit", "(*RabbitStore).Delete", o); a != nil {
		for _, k := range lastKinds {
			chains(depth, k, passed, func(n int, nm string, f []Fact, ks []int) {
				q := r.Q(a, "Delete: "+nm, f...)
				want := map[string]map[string]string{}
				if slotKinds[k].own && !slotKinds[k].empty {
					if slotKinds[k].pass == 0 {
						want[slotForm(n)] = map[string]string{"isDeleted": "true", "isEmpty": "%", "value": "%", "old passbyNum": "0"}
					} else {
						want[slotForm(n)] = map[string]string{"isEmpty": "true", "value": "%", "old isDeleted": "false", "old passbyNum": num(slotKinds[k].pass)}
					}
					for i := 0; i < n; i++ {
						kd := slotKinds[ks[i%len(ks)]]
						w := map[string]string{"passbyNum": num(kd.pass - 1), "old isEmpty": fmt.Sprint(kd.empty)}
						if kd.pass == 1 && kd.empty {
							w["isDeleted"] = "true"
						}
						want[slotForm(i)] = w
					}
				}
				r.Slots(q, "the slot of the key is emptied and the slots passed by no longer count it", want)
			})
		}
	}
	for _, k := range lastKinds {
		kd := slotKinds[k]
		has := kd.own && !kd.empty
		if a := r.An("store/rabbit", "(*RabbitStore).Get", o); a != nil {
			chains(depth, k, passed, func(n int, nm string, f []Fact, ks []int) {
				q := r.Q(a, "Get: "+nm, f...)
				if has {
					r.DeepResult(q, "the value in the slot of the key", 0, smsT+"GetCachedValue(%,"+slotForm(n)+").value")
				} else {
					r.Result(q, "nothing", 0, "nil")
				}
				r.Never(q, "reading changes nothing", P(smsT+"SetCachedValue"), P("=CachedValue.%(%)"))
			})
		}
		if a := r.An("store/rabbit", "(*RabbitStore).Has", o); a != nil {
			chains(depth, k, passed, func(n int, nm string, f []Fact, ks []int) {
				r.DeepResult(r.Q(a, "Has: "+nm, f...), "whether there is a value", 0, fmt.Sprint(has))
			})
		}
		if a := r.An("store/rabbit", "(*RabbitStore).GetShortKeyPath", o); a != nil {
			chains(depth, k, passed, func(n int, nm string, f []Fact, ks []int) {
				q := r.Q(a, "GetShortKeyPath: "+nm, f...)
				want := []string{}
				path := ""
				for i := 0; i <= n; i++ {
					want = append(want, slotForm(i))
					path += " e(" + slotForm(i) + ")"
				}
				r.Sequence(q, "the slots are gone through in order", P(smsT+"GetCachedValue"), 1, want)
				path = path[1:]
				if n > 0 {
					path = "<" + path + ">"
				}
				r.DeepResult(q, "the slots gone through", 0, path)
				r.DeepResult(q, "whether there is a value", 1, fmt.Sprint(has))
			})
		}
	}
	if a := r.An("types", "LimitRange", Opts{key: "limit"}); a != nil {
		for b := int64(0); b < 256; b++ {
			r.within(r.Q(a, "byte "+num(b), Fact{"a0", vi(b)}), "between the guards", 0, 1, 254)
		}
	}
	if a := r.An("store/rabbit", "(*RabbitStore).ActiveCount", o); a != nil {
		r.Result(r.Q(a, ""), "that of the store below", 0, "BaseStoreI.ActiveCount(recv.sms.parent)")
	}
}

func p26(r *R) {
	o := Opts{key: "multi"}
	open := func(b bool) Fact { return Fact{"recv.isClosed", vb(!b)} }
	has := func(b bool) Fact {
		return Fact{"has(recv.cache.m,a0)||has(recv.cache.m,$key)||has(recv.cache.m,%a0%)", vb(b)}
	}
	cvf := func(f string, v V) Fact { return Fact{"recv.cache.m{%}." + f, v} }
	bs := "BaseStoreI."
	get, getAt := P(bs+"Get"), P(bs+"GetAtHeight")
	below := func(hist bool) Fact {
		if hist {
			return Fact{bs + "GetAtHeight(recv.parent,%,recv.height)", V{k: vNonNil}}
		}
		return Fact{bs + "Get(recv.parent,%)", V{k: vNonNil}}
	}
	mod := P("mapset(recv.cache.m)")
	if a := r.An("store/rabbit", "(*SimpleMultiStore).GetCachedValue", o); a != nil {
		r.NoReturn(r.Q(a, "the store is closed", open(false)), "refused")
		q := r.Q(a, "a slot that was deleted", open(true), has(true), cvf("isDeleted", vb(true)))
		r.Result(q, "nothing", 0, "nil")
		r.Never(q, "the store below is not asked", get, getAt)
		q = r.Q(a, "a slot that was read or changed before", open(true), has(true), cvf("isDeleted", vb(false)))
		r.Result(q, "what is kept", 0, "recv.cache.m{%}")
		r.Never(q, "the store below is not asked", get, getAt, mod)
		for _, hist := range []bool{false, true} {
			nm, ask, not, h := "latest", get, getAt, vi(-1)
			if hist {
				nm, ask, not, h = "a past height", getAt, get, vi(77)
			}
			hf := Fact{"recv.height", h}
			q = r.Q(a, "a slot not asked for before, "+nm, open(true), has(false), hf)
			r.Times(q, "the store below is asked", 1, ask)
			r.Never(q, "in the right way", not)
			r.Bytes(q, "for this slot", ask, 1, "a0", "%a0%")
			if hist {
				r.Bytes(q, "at this height", ask, 2, "recv.height", "77")
			}
			nb := below(hist)
			nb.Val = V{k: vNil}
			q = r.Q(a, "a slot that is not below, "+nm, open(true), has(false), hf, nb)
			r.Result(q, "nothing", 0, "nil")
			r.Never(q, "nothing is kept", mod)
			q = r.Q(a, "a slot that is below, "+nm, open(true), has(false), hf, below(hist))
			r.Times(q, "it is kept", 1, mod)
		}
	}
	if a := r.An("store/rabbit", "(*SimpleMultiStore).MustGetCachedValue", o); a != nil {
		r.NoReturn(r.Q(a, "the store is closed", open(false)), "refused")
		r.NoReturn(r.Q(a, "a slot not asked for before", open(true), has(false)), "refused")
		r.NoReturn(r.Q(a, "a slot that was deleted", open(true), has(true), cvf("isDeleted", vb(true))), "refused")
		r.Result(r.Q(a, "a slot that was read before", open(true), has(true), cvf("isDeleted", vb(false))), "what is kept", 0, "recv.cache.m{%}")
	}
	if a := r.An("store/rabbit", "(*SimpleMultiStore).SetCachedValue", o); a != nil {
		r.NoReturn(r.Q(a, "the store is closed", open(false)), "refused")
		up, del := P(bs+"PrepareForUpdate"), P(bs+"PrepareForDeletion")
		for _, ro := range []bool{false, true} {
			for _, gone := range []bool{false, true} {
				nm := "a slot that is kept"
				if gone {
					nm = "a slot that is deleted"
				}
				if ro {
					nm += ", the store is read-only"
				}
				q := r.Q(a, nm, open(true), Fact{"recv.readOnly", vb(ro)}, Fact{"a1.isDeleted%", vb(gone)})
				r.Times(q, "it is put into the cache", 1, P("mapset(recv.cache.m, a0||$key||$key@, a1)"))
				r.Only(q, "nothing else is", mod, P("mapset(recv.cache.m, a0||$key||$key@, a1)"))
				r.Ends(q, "it is marked as changed", "a1.isDirty", "true")
				if ro {
					r.Never(q, "the store below is left alone", up, del)
					continue
				}
				do, not := up, del
				if gone {
					do, not = del, up
				}
				r.Times(q, "the store below is told", 1, do)
				r.Never(q, "what will be done to it", not)
				r.Bytes(q, "the slot it will be done to", do, 1, "a0")
			}
		}
	}
	if a := r.An("store/rabbit", "(*SimpleMultiStore).Close", o); a != nil {
		un := P(bs + "RUnlock(recv.parent)")
		q := r.Q(a, "an open store", open(true))
		r.Times(q, "the lock is given back", 1, un)
		r.Ends(q, "it is closed", "recv.isClosed", "true")
		r.Never(r.Q(a, "a closed store", open(false)), "the lock is not given back twice", un)
	}
	if a := r.An("store/rabbit", "(*SimpleMultiStore).WriteBack", o); a != nil {
		ro := func(b bool) Fact { return Fact{"recv.readOnly", vb(b)} }
		r.NoReturn(r.Q(a, "a read-only store", ro(true)), "refused")
		r.NoReturn(r.Q(a, "an open store", ro(false), open(true)), "refused")
		q := r.Q(a, "a closed store", ro(false), open(false))
		r.Times(q, "the store below is changed at once", 1, P(bs+"Update(recv.parent)"))
		for _, st := range q.Find(P(bs + "Update(recv.parent)")) {
			ef := st.n.Eff()
			if len(ef.args) < 2 || ef.args[1].k != KFunc || ef.args[1].fn == nil {
				r.undecided("the changes made to the store below", "the function that makes them is not known")
				continue
			}
			r.written(r.AnFn(ef.args[1].fn, Opts{key: "wb"}))
		}
	}
	if a := r.An("store/rabbit", "(*CachedValue).ToBytes", o); a != nil {
		head := "le4(recv.passbyNum) le4(trunc32(len(recv.key))) recv.key"
		r.ResultBytes(r.Q(a, "a slot with a value", Fact{"recv.isEmpty", vb(false)}), "the format", 0, "<0x00 "+head+" recv.value>")
		r.ResultBytes(r.Q(a, "a slot without a value", Fact{"recv.isEmpty", vb(true)}), "the format", 0, "<0x01 "+head+">")
	}
	if a := r.An("store/rabbit", "BytesToCachedValue", o); a != nil {
		long := Fact{"len(a0)", V{k: vInt, lo: 1 << 20, hi: 1 << 30}}
		fit := Fact{"LE4(a0[5:])||LE4(a0[5:9])", V{k: vInt, lo: 0, hi: 1000}}
		key := "key:a0[9:(LE4(a0[5:])+9)]"
		q := r.Q(a, "a slot with a value", long, fit, Fact{"a0[0]", vi(0)})
		r.DeepResult(q, "what ToBytes put there", 0, "&{isEmpty:false,passbyNum:LE4(a0[1:]),"+key+",value:a0[(LE4(a0[5:])+9):],isDeleted:false,isDirty:false}")
		q = r.Q(a, "a slot without a value", long, fit, Fact{"a0[0]", vi(1)})
		r.DeepResult(q, "what ToBytes put there", 0, "&{isEmpty:true,passbyNum:LE4(a0[1:]),"+key+",value:%,isDeleted:false,isDirty:false}")
		for _, n := range []int64{9, 13, 14} {
			l := n - 9
			if n == 14 {
				l = 4
			}
			for _, e := range []int64{0, 1} {
				q := r.Q(a, fmt.Sprintf("%d bytes, a key of %d, mark %d", n, l, e), Fact{"len(a0)", vi(n)}, Fact{"LE4(a0[5:])||LE4(a0[5:9])", vi(l)}, Fact{"a0[0]", vi(e)})
				r.DeepResult(q, "a slot is read from them", 0, "&{%}")
			}
		}
		for _, n := range []int64{0, 1, 8} {
			r.Result(r.Q(a, itoa(n)+" bytes", Fact{"len(a0)", vi(n)}), "nothing", 0, "nil")
		}
		for _, n := range []int64{9, 17, 28} {
			r.Result(r.Q(a, itoa(n)+" bytes with a key of 20", Fact{"len(a0)", vi(n)}, Fact{"LE4(a0[5:])||LE4(a0[5:9])", vi(20)}), "nothing", 0, "nil")
		}
	}
	for _, c := range []struct {
		fn, h, ro string
	}{
		{"SimpleMultiStore", "-1", "false"}, {"ReadOnlySimpleMultiStore", "-1", "true"}, {"ReadOnlySimpleMultiStoreAtHeight", "a1", "true"},
		{"RabbitStore", "-1", "false"}, {"ReadOnlyRabbitStore", "-1", "true"}, {"ReadOnlyRabbitStoreAtHeight", "a1", "true"},
	} {
		if a := r.An("store/rabbit", "New"+c.fn, o); a != nil {
			q := r.Q(a, "")
			r.Times(q, "the store below is locked for reading", 1, P(bs+"RLock(a0)"))
			f := "{cache:%{m:makemap(%)},parent:a0,isClosed:false,height:" + c.h + ",readOnly:" + c.ro + "}"
			r.DeepResult(q, "a store with nothing in it", 0, f, "{sms:"+f+"}", "{sms:"+strings.Replace(f, "%{m:makemap(%)}", "&%", 1)+"}")
		}
	}
	if a := r.An("store/rabbit", "(*RabbitStore).WriteBack", o); a != nil {
		r.NoReturn(r.Q(a, "a read-only store", Fact{"recv.sms.readOnly", vb(true)}), "refused")
		r.Times(r.Q(a, "a closed store", Fact{"recv.sms.readOnly", vb(false)}, Fact{"recv.sms.isClosed", vb(true)}), "the changes are written", 1, P(bs+"Update(recv.sms.parent)"))
	}
	if a := r.An("store/rabbit", "(*RabbitStore).Close", o); a != nil {
		q := r.Q(a, "an open store", Fact{"recv.sms.isClosed", vb(false)})
		r.Times(q, "the lock is given back", 1, P(bs+"RUnlock(recv.sms.parent)"))
		r.Never(q, "nothing is written", P(bs+"Update(recv.sms.parent)"))
	}
	if a := r.An("store/rabbit", "(*RabbitStore).CloseAndWriteBack", o); a != nil {
		f := []Fact{{"recv.sms.readOnly", vb(false)}, {"recv.sms.isClosed", vb(false)}}
		up, un := P(bs+"Update(recv.sms.parent)"), P(bs+"RUnlock(recv.sms.parent)")
		q := r.Q(a, "with the changes", append(f, Fact{"a0", vb(true)})...)
		r.Times(q, "the changes are written", 1, up)
		r.Times(q, "the lock is given back", 1, un)
		r.Before(q, "the lock is given back first", un, up)
		q = r.Q(a, "without the changes", append(f, Fact{"a0", vb(false)})...)
		r.Never(q, "nothing is written", up)
		r.Times(q, "the lock is given back", 1, un)
	}
}

// written: what the function given to the store below does to it.
func (r *R) written(a *Analysis) {
	if a == nil {
		return
	}
	set, del := P("SetDeleter.Set(a0)"), P("SetDeleter.Delete(a0)")
	m := "%.cache.m"
	key := "sub(rangekey(" + m + "),0,8)"
	e := m + "{rangekey(" + m + ")}."
	head := "le4(" + e + "passbyNum) le4(trunc32(len(" + e + "key))) " + e + "key"
	f := func(dirty, gone, empty bool) []Fact {
		return []Fact{{e + "isDirty", vb(dirty)}, {e + "isDeleted", vb(gone)}, {e + "isEmpty", vb(empty)}, {"has(" + m + ",%)", vb(true)}}
	}
	for _, empty := range []bool{false, true} {
		nm := "a slot with a value"
		form := "<0x00 " + head + " " + e + "value>"
		if empty {
			nm, form = "a slot without a value", "<0x01 "+head+">"
		}
		r.Never(r.Q(a, nm+" that was only read", f(false, false, empty)...), "it is not written", set, del)
		q := r.Q(a, nm+" that was changed", f(true, false, empty)...)
		r.Never(q, "it is not deleted", del)
		r.PerIter(q, "it is written", 0, set)
		r.FullRange(q, "all slots are gone through", 0, set)
		r.Bytes(q, "under its name", set, 1, key)
		r.Bytes(q, "with its content", set, 2, form)
		q = r.Q(a, nm+" that was deleted", f(true, true, empty)...)
		r.Never(q, "it is not set", set)
		r.PerIter(q, "it is deleted", 0, del)
		r.FullRange(q, "all slots are gone through", 0, del)
		r.Bytes(q, "under its name", del, 1, key)
	}
}
