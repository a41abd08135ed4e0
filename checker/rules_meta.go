package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	register("P03", "what is recorded about the shards: contents of every key and value written and of every field read back, by abstract interpretation over byte-sequence terms, one scenario per shard", p03)
}

const setP, getP = P("Batch.Set"), P("IKVDB.Get")

// writes: key and value of every Batch.Set in the analysed function.
func (r *R) writes(q *Q) [][2]string {
	m := q.Mach()
	var out [][2]string
	seen := map[string]bool{}
	for _, s := range q.Find(setP) {
		k, v := m.ArgAt(s, 1), m.ArgAt(s, 2)
		if k == nil || v == nil {
			continue
		}
		x := [2]string{m.numAt(s, k), m.numAt(s, v)}
		if !seen[x[0]+"="+x[1]] {
			seen[x[0]+"="+x[1]] = true
			out = append(out, x)
		}
	}
	return out
}

var subRe = regexp.MustCompile(`sub\((IKVDB\.Get\(recv\.kvdb,[^()]*(?:\([^()]*(?:\([^()]*\))?[^()]*\)[^()]*)*\)),0,(?:8|32)\)`)

func metaNorm(s string) string {
	s = subRe.ReplaceAllString(s, "$1")
	s = strings.ReplaceAll(s, "[:]", "")
	return regexp.MustCompile(`cp\((.*),32\)`).ReplaceAllString(s, "$1")
}

func p03(r *R) {
	o := Opts{key: "meta"}
	get := func(k string) string { return "IKVDB.Get(recv.kvdb," + k + ")" }
	firsts := map[string]string{} // first byte of the key -> item
	first := func(q *Q, item, key string) {
		ob := "the keys of " + item + " cannot be those of anything else"
		k := strings.TrimPrefix(key, "<")
		if !strings.HasPrefix(k, "0x") || len(k) < 4 {
			r.undecided(ob, "the key "+key+" does not begin with a constant")
			return
		}
		f := k[:4]
		curAn = q.a
		switch old := firsts[f]; {
		case f == "0x00":
			r.fail(ob, q.a.rootNm, "the keys of "+item+" begin with 0, as those of the index do")
		case old != "" && old != item:
			r.fail(ob, q.a.rootNm, "the keys of "+item+" and of "+old+" both begin with "+f)
		default:
			firsts[f] = item
			r.ok(ob)
		}
	}
	nsh := int(r.Const("types", "ShardCount", 8))
	if nsh <= 0 || nsh > 100 {
		r.undecided("the number of shards", "not known")
		return
	}
	// --- committed and reloaded
	type item struct{ name, form string }
	var items []item
	items = append(items, item{"currHeight", "le8(recv.currHeight)"})
	for _, f := range []string{"lastPrunedTwig", "maxSerialNum", "oldestActiveTwigID"} {
		for i := 0; i < nsh; i++ {
			items = append(items, item{fmt.Sprintf("%s[%d]", f, i), fmt.Sprintf("le8(recv.%s[%d])", f, i)})
		}
	}
	for i := 0; i < nsh; i++ {
		items = append(items, item{fmt.Sprintf("rootHash[%d]", i), fmt.Sprintf("recv.rootHash[%d][:]", i)})
	}
	ca, ra := r.An("metadb", "(*MetaDB).Commit", o), r.An("metadb", "(*MetaDB).ReloadFromKVDB", o)
	if ca != nil && ra != nil {
		q := r.Q(ca, "")
		ws := r.writes(q)
		keyOf := map[string]string{}
		keys := map[string]string{}
		for _, it := range items {
			ob := "Commit: " + it.name + " is written"
			curAn = ca
			var ks []string
			for _, w := range ws {
				if w[1] == it.form {
					ks = append(ks, w[0])
				}
			}
			if !r.done(q, ob) {
				continue
			}
			if len(ks) != 1 {
				unk := false
				for _, w := range ws {
					unk = unk || strings.Contains(w[0]+w[1], "?")
				}
				if unk {
					r.undecided(ob, "some contents are not known")
				} else {
					r.fail(ob, ca.rootNm, fmt.Sprintf("%s is written under %d keys %v", it.name, len(ks), ks))
				}
				continue
			}
			r.ok(ob)
			keyOf[it.name] = ks[0]
			ob = "Commit: " + it.name + " has a key of its own"
			if keys[ks[0]] != "" {
				r.fail(ob, ca.rootNm, it.name+" and "+keys[ks[0]]+" are written under the same key "+ks[0])
			} else {
				r.ok(ob)
			}
			keys[ks[0]] = it.name
			r.Does(q, it.name+" is written every time", setP, "", ks[0], it.form)
			first(q, strings.SplitN(it.name, "[", 2)[0], ks[0])
		}
		r.deepNorm = metaNorm
		facts := []Fact{{"IKVDB.Get(%)", V{k: vNonNil}}}
		for _, it := range items {
			n := int64(32)
			if strings.HasPrefix(it.form, "le8") {
				n = 8
			}
			facts = append(facts, Fact{"len(" + get(keyOf[it.name]) + ")", vi(n)})
		}
		full := r.Q(ra, "everything was written", facts...)
		none := r.Q(ra, "a new database", Fact{"IKVDB.Get(%)", V{k: vNil}}, Fact{"len(IKVDB.Get(%))", vi(0)})
		for _, it := range items {
			k, ok := keyOf[it.name]
			if !ok {
				continue
			}
			want := get(k)
			if strings.HasPrefix(it.form, "le8") {
				want = "LE8(" + get(k) + ")"
				r.Ends(none, it.name+" is 0 when it was never written", "recv."+it.name, "0", "-1")
			}
			r.Ends(full, it.name+" is what was last committed", "recv."+it.name, want)
		}
		r.deepNorm = nil
	}
	// --- written and read directly
	for _, d := range []struct{ set, get, arg, missing string }{
		{"SetTwigMtFileSize", "GetTwigMtFileSize", "le8(a1)", "0"},
		{"SetEntryFileSize", "GetEntryFileSize", "le8(a1)", "0"},
		{"SetEdgeNodes", "GetEdgeNodes", "a1", ""},
		{"setTwigHeight", "GetTwigHeight", "le8(a2)", "-1"},
	} {
		ga := r.An("metadb", "(*MetaDB)."+d.get, o)
		set := d.set
		if set == "setTwigHeight" {
			continue
		}
		sa := r.An("metadb", "(*MetaDB)."+set, o)
		if ga == nil || sa == nil {
			continue
		}
		q := r.Q(sa, "")
		r.pairKV(q, ga, set, d.get, d.arg, d.missing, "", first)
	}
	// --- the height at which a twig begins
	if a := r.An("metadb", "(*MetaDB).IncrMaxSerialNum", o); a != nil {
		const mx = "recv.maxSerialNum[a0]"
		for _, n := range []int64{0, 1, 2046, 2047, 2048, 4095, 4096, 2048*700 - 1} {
			q := r.Q(a, fmt.Sprintf("the highest serial number is %d", n), Fact{mx, vi(n)})
			r.Ends(q, "it becomes one more", mx, fmt.Sprint(n+1))
			if (n+1)%2048 == 0 {
				id := (n + 1) / 2048
				r.Does(q, "the twig begins at this height", setP, "", fmt.Sprintf("<%% le8(%d)>||%%", id), "le8(recv.currHeight)")
				ws := r.writes(q)
				if ga := r.An("metadb", "(*MetaDB).GetTwigHeight", o); ga != nil && len(ws) == 1 && n == 2047 {
					r.pairKV(q, ga, "the height of a twig", "GetTwigHeight", "le8(recv.currHeight)", "-1", fmt.Sprintf("le8(%d)", id), first)
					if da := r.An("metadb", "(*MetaDB).DeleteTwigHeight", o); da != nil {
						k := strings.Replace(ws[0][0], fmt.Sprintf("le8(%d)", id), "le8(a1)", 1)
						r.Does(r.Q(da, ""), "the height of that twig is deleted", "Batch.Delete", "", k)
						r.DoesOnly(r.Q(da, ""), "and no other", "Batch.Delete", []string{"", k})
					}
				}
				r.DoesOnly(q, "and nothing else", setP, []string{"", fmt.Sprintf("<%% le8(%d)>||%%", id), "le8(recv.currHeight)"})
			} else {
				r.Never(q, "no twig begins", setP)
			}
		}
		r.Only(r.Q(a, ""), "no other field is touched", "=MetaDB.%", P("=MetaDB.maxSerialNum[]("+mx+", %)"))
		q := r.Q(a, "", Fact{mx, vr(0, 1<<50)})
		r.Ends(q, "one more than before", mx, "("+mx+"+1)")
	}
	if a := r.An("metadb", "(*MetaDB).IncrOldestActiveTwigID", o); a != nil {
		q := r.Q(a, "")
		r.Ends(q, "one more than before", "recv.oldestActiveTwigID[a0]", "(recv.oldestActiveTwigID[a0]+1)")
		r.Only(q, "no other field is touched", "=MetaDB.%", "=MetaDB.oldestActiveTwigID[](recv.oldestActiveTwigID[a0], %)")
	}
	for _, d := range []struct{ fn, place, form string }{
		{"SetCurrHeight", "recv.currHeight", "a0"},
		{"SetLastPrunedTwig", "recv.lastPrunedTwig[a0]", "a1"},
		{"SetRootHash", "recv.rootHash[a0]", "a1[:]||a1"},
	} {
		if a := r.An("metadb", "(*MetaDB)."+d.fn, o); a != nil {
			q := r.Q(a, "")
			r.Ends(q, "it is set", d.place, strings.Split(d.form, "||")...)
			f := strings.SplitN(strings.TrimPrefix(d.place, "recv."), "[", 2)[0]
			r.Only(q, "no other field is touched", "=MetaDB.%", P("=MetaDB."+f+"%("+d.place+", %)"))
		}
	}
	for _, d := range [][2]string{
		{"GetCurrHeight", "recv.currHeight"}, {"GetLastPrunedTwig", "recv.lastPrunedTwig[a0]"}, {"GetMaxSerialNum", "recv.maxSerialNum[a0]"},
		{"GetOldestActiveTwigID", "recv.oldestActiveTwigID[a0]"}, {"GetYoungestTwigID", "quo(recv.maxSerialNum[a0],2048)"}, {"GetRootHash", "recv.rootHash[a0]"},
	} {
		if a := r.An("metadb", "(*MetaDB)."+d[0], o); a != nil {
			r.Result(r.Q(a, ""), "it is the recorded value", 0, d[1])
		}
	}
	// --- a new database
	if a := r.An("metadb", "(*MetaDB).Init", o); a != nil {
		q := r.Q(a, "")
		r.Ends(q, "the height is 0", "recv.currHeight", "0")
		for i := 0; i < nsh; i++ {
			r.Ends(q, "nothing is pruned", fmt.Sprintf("recv.lastPrunedTwig[%d]", i), "-1")
			r.Ends(q, "no entry", fmt.Sprintf("recv.maxSerialNum[%d]", i), "0")
			r.Ends(q, "the first twig", fmt.Sprintf("recv.oldestActiveTwigID[%d]", i), "0")
		}
	}
}

// pairKV: what one function writes under a key, the other reads from the same.
func (r *R) pairKV(q *Q, ga *Analysis, set, get, val, missing, inKey string, first func(*Q, string, string)) {
	curAn = q.a
	ws := r.writes(q)
	ob := r.scn(q) + ": " + set + " writes one key"
	if !r.done(q, ob) {
		return
	}
	if len(ws) != 1 || ws[0][1] != val {
		for _, w := range ws {
			if strings.Contains(w[0]+w[1], "?") {
				r.undecided(ob, "contents not known")
				return
			}
		}
		r.fail(ob, q.a.rootNm, fmt.Sprintf("%s writes %v, expected the value %s under one key", set, ws, val))
		return
	}
	r.ok(ob)
	k := ws[0][0]
	if inKey != "" {
		k = strings.Replace(k, inKey, "le8(a1)", 1)
	}
	r.Does(q, "it is written every time", setP, "", ws[0][0], val)
	ob = set + ": the key has the shard in it"
	if strings.Contains(k, "b(a0)") {
		r.ok(ob)
	} else {
		r.fail(ob, q.a.rootNm, "the key "+k+" is the same for every shard")
	}
	first(q, set, k)
	r.deepNorm = metaNorm
	defer func() { r.deepNorm = nil }()
	want := "IKVDB.Get(recv.kvdb," + k + ")"
	g := r.Q(ga, "it was written", Fact{"IKVDB.Get(%)", V{k: vNonNil}}, Fact{"len(IKVDB.Get(%))", vi(8)})
	if strings.HasPrefix(val, "le8") {
		r.DeepResult(g, "it is what was last written", 0, "LE8("+want+")")
	} else {
		r.DeepResult(g, "it is what was last written", 0, want)
	}
	if missing != "" {
		r.DeepResult(r.Q(ga, "it was never written", Fact{"IKVDB.Get(%)", V{k: vNil}}, Fact{"len(IKVDB.Get(%))", vi(0)}), "it has its first value", 0, missing)
	}
}
