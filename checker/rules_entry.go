package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register("P17", "symbolic effects of activating, deactivating and appending (bit masks, pending list, content handed to the entry file) and, per shard, reachability: no further deactivation with a full list, no end of a block with a list that is not empty", p17)
}

const isDummyFact = "==(%a0.Key%,\"dummy\")||==(\"dummy\",%a0.Key%)||bytes.Equal(a0.Key,%)||bytes.Equal(%,a0.Key)"

func p17(r *R) {
	const pend = "recv.deactivedSNList"
	bit := func(n string) string {
		return "recv.activeTwigs{quo(" + n + ",2048)}.activeBits[quo(rem(" + n + ",2048),8)]"
	}
	if a := r.An("datatree", "(*Tree).DeactiviateEntry", treeOpts); a != nil {
		q := r.Q(a, "")
		b := bit("a0")
		r.Must(q, "the bit of the entry is cleared", P("=Twig.activeBits[]("+b+", and(compl(shl(1,rem(a0,8))),"+b+"))"))
		r.Only(q, "only the bit of the entry is cleared", "=Twig.activeBits[]", P("=Twig.activeBits[]("+b+", and(compl(shl(1,rem(a0,8))),"+b+"))"))
		r.Must(q, "the entry is put on the pending list", "builtin.append("+pend+", a0)")
		r.Before(q, "the entry is put on the pending list", "builtin.append("+pend+", a0)", "=Tree.deactivedSNList")
		r.Must(q, "the pending list is kept", "=Tree.deactivedSNList("+pend+", append(%))")
		r.Result(q, "the length of the pending list is given back", 0, "(len("+pend+")+1)", "len("+pend+"@)", "len("+pend+")", "len(append("+pend+",%))")
	}
	if a := r.An("datatree", "(*Tree).ActiviateEntry", treeOpts); a != nil {
		q := r.Q(a, "")
		b := bit("a0")
		r.Must(q, "the bit of the entry is set", P("=Twig.activeBits[]("+b+", or("+b+",shl(1,rem(a0,8))))"))
		r.Never(q, "activating puts nothing on the pending list", "=Tree.deactivedSNList")
	}
	if a := r.An("datatree", "(*Tree).DeactivedSNListSize", treeOpts); a != nil {
		r.Result(r.Q(a, ""), "the size is that of the pending list", 0, "len("+pend+")")
	}
	for _, e := range []struct{ fn, sn string }{{"(*Tree).AppendEntry", "a0.SerialNum"}, {"(*Tree).AppendEntryRawBytes", "a1"}} {
		a := r.An("datatree", e.fn, treeOpts)
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		clr := P("=Tree.deactivedSNList(" + pend + ", " + pend + "[:0]||nil||make(0%)||" + pend + "@[:0])")
		r.Must(q, "the pending list is emptied", clr)
		r.NotAfter(q, "the pending list stays empty", clr, "=Tree.deactivedSNList(%, append%)")
		content := "<e(datatree.EntryToBytes(*a0," + pend + ")) e(nil)>"
		if e.sn == "a1" {
			content = "<e(a0) e(datatree.SNListToBytes(" + pend + "))>"
			r.Must(q, "the number of serial numbers is put in", "=[](a0[0], trunc8(len("+pend+")))")
			r.Only(q, "the number of serial numbers is that of the list", "=[](a0[0])", "=[](a0[0], trunc8(len("+pend+")))")
			r.NotAfter(q, "the number is put in before the list is emptied", clr, "=[](a0[0])")
			r.NotAfter(q, "the number is put in before the bytes are written", "(*datatree.EntryFile).Append", "=[](a0[0])")
		}
		r.Bytes(q, "the pending list is written with the entry", "(*datatree.EntryFile).Append", 1, content)
		r.Bytes(q, "the pending list is hashed with the entry", "=Tree.leaves4YoungestTwig[]", 1, content)
		r.Result(q, "the place of the entry is given back", 0, "(*datatree.EntryFile).Append(%)")
		bits := []Fact{}
		if e.sn != "a1" {
			bits = []Fact{{"len(a0.Key)", vi(20)}, {isDummyFact, vb(false)}}
		}
		q = r.Q(a, "not a dummy", bits...)
		b := bit(e.sn)
		set := P("=Twig.activeBits[](" + b + ", or(" + b + "||" + b + "@,shl(1,rem(" + e.sn + ",8))))")
		r.Must(q, "the new entry is active", P("=Twig.activeBits[]("+b+", or("+b+",shl(1,rem("+e.sn+",8)))||or("+b+"@,shl(1,rem("+e.sn+",8))))"))
		_ = set
		if e.sn != "a1" {
			q = r.Q(a, "a dummy", Fact{"len(a0.Key)", vi(5)}, Fact{isDummyFact, vb(true)})
			r.Never(q, "a dummy is not active", "=Twig.activeBits[]")
		}
	}
	if a := r.An("", "(*MoeingADS).EndWrite", adsOpts); a != nil {
		r.flushed(a, "(*MoeingADS).EndWrite")
	}
	if a := r.An("", "(*MoeingADS).initGuards", adsOpts); a != nil {
		r.flushed(a, "(*MoeingADS).initGuards")
	}
}

// flushed: the pending lists of the shards stay below 256 and are empty when a block ends.
func (r *R) flushed(a *Analysis, fn string) {
	for i := 0; i < shards; i++ {
		app := P(fmt.Sprintf("DataTree.AppendEntry(%%.datTree[%d]%%) || DataTree.AppendEntryRawBytes(%%.datTree[%d]%%)", i, i))
		dea := P(fmt.Sprintf("DataTree.DeactiviateEntry(%%.datTree[%d]%%)", i))
		end := P(fmt.Sprintf("DataTree.EndBlock(%%.datTree[%d]%%)", i))
		q := r.Q(a, fmt.Sprintf("shard %d: 254 deactivations are pending", i), Fact{"DataTree.DeactiviateEntry(%)", vi(254)}, Fact{"DataTree.DeactivedSNListSize(%)", vi(254)})
		dummy := func(s State) bool { return strings.HasPrefix(q.EffArg(s, 1), "MetaDB.GetMaxSerialNum(") }
		var starts []State
		for _, s := range q.Find(dea) {
			r.site(s)
			if !dummy(s) {
				starts = append(starts, s)
			}
		}
		r.uses(app, dea, end)
		curAn = a
		ob := r.scn(q) + ": one more deactivation waits for them to be written"
		p := q.Path(starts, q.must(app), func(s State) bool { return q.may(dea)(s) && !dummy(s) })
		if r.done(q, ob) {
			if p != nil {
				r.fail(ob, p[0].n.Where(), "a further entry can be deactivated before the list, which is counted in one byte, is written", q.Trace(p)...)
			} else {
				r.ok(ob)
			}
		}
		q = r.Q(a, fmt.Sprintf("shard %d: a deactivation is pending", i), Fact{"DataTree.DeactiviateEntry(%)", vi(1)}, Fact{"DataTree.DeactivedSNListSize(%)", vi(1)})
		r.uses(app, dea, end)
		curAn = a
		ob = r.scn(q) + ": it is written before the block ends"
		starts = starts[:0]
		for _, s := range q.Find(dea) {
			starts = append(starts, s)
		}
		p = q.Path(starts, q.must(app), q.may(end))
		if r.done(q, ob) {
			if p != nil {
				r.fail(ob, p[0].n.Where(), "the block can end with this deactivation not written", q.Trace(p)...)
			} else {
				r.ok(ob)
			}
		}
		// the dummy is written in the shard itself and is not active
		q = r.Q(a, "")
	}
}

func init() {
	register("P10", "symbolic contents: the bytes made of an entry (with and without magic bytes in it), the fields decoded from bytes as functions of the offsets, sizes and positions of the reads, and the padding, compared as byte-sequence terms", p10)
}

var foundRe = regexp.MustCompile(`bytes\.Index\(a0(?:\[(\d*):\])?,a1\)`)
var sumRe = regexp.MustCompile(`\(\d+(?:\+\d+)+\)`)

func p10(r *R) {
	// encoding
	if a := r.An("datatree", "EntryToBytes", Opts{NoInline: []string{"datatree.getAllPos"}}); a != nil {
		lens := []int{0, 1, 2, 5}
		if r.thorough {
			lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 63, 64, 65, 66}
		}
		for _, n := range lens {
			q := r.Q(a, fmt.Sprintf("%d deactivated, no magic bytes", n), Fact{"len(a1)", vi(int64(n))}, Fact{"len(datatree.getAllPos%)", vi(0)})
			sns := ""
			for i := 0; i < n; i++ {
				sns += fmt.Sprintf(" le8(a1[%d])", i)
			}
			r.ResultBytes(q, "the bytes are count, length, empty list of positions, the three strings with their lengths, heights, serial number and list", 0,
				fmt.Sprintf("<0x%02x le3(trunc32((len(a0.Key)+len(a0.NextKey)+len(a0.Value)+40))) 0xffffffff le4(trunc32(len(a0.Key))) a0.Key le4(trunc32(len(a0.Value))) a0.Value le4(trunc32(len(a0.NextKey))) a0.NextKey le8(a0.Height) le8(a0.LastHeight) le8(a0.SerialNum)%s>", n, sns))
		}
		const g = "datatree.getAllPos(<0x18000000 a0.Key 0x10000000 a0.Value 0x08000000 a0.NextKey>,datatree.MagicBytes[:])"
		q := r.Q(a, "magic bytes in key and value", Fact{"len(a1)", vi(1)}, Fact{"len(a0.Key)", vi(24)}, Fact{"len(a0.Value)", vi(16)}, Fact{"len(a0.NextKey)", vi(8)}, Fact{"len(datatree.getAllPos%)", vi(2)},
			Fact{"datatree.getAllPos(%)[0]", vi(8)}, Fact{"datatree.getAllPos(%)[1]", vi(32)})
		r.ResultBytes(q, "their places are listed and they are replaced", 0, "<0x01600000 le4(trunc32(("+g+"[0]+8))) le4(trunc32(("+g+"[1]+8))) 0xffffffff18000000 a0.Key[:("+g+"[0]-4)] 0x0000000000000000 a0.Key[("+g+"[0]+4):24] 0x10000000 a0.Value[:("+g+"[1]-32)] 0x0000000000000000 a0.Value[("+g+"[1]-24):16] 0x08000000 a0.NextKey le8(a0.Height) le8(a0.LastHeight) le8(a0.SerialNum) le8(a1[0])>")
	}
	if a := r.An("datatree", "getAllPos", Opts{MaxTrip: 8}); a != nil {
		q := r.Q(a, "")
		curAn = a
		ob := r.scn(q) + ": the places given back are those where something was found"
		fs := q.Find("bytes.Index(a0%, a1)")
		ok := len(fs) > 0
		for _, s := range q.Find("builtin.append") {
			x, v := "", q.EffArg(s, 1)
			if strings.HasPrefix(v, "(bytes.Index(a0[") && strings.HasSuffix(v, ")") {
				x = v[len("(bytes.Index(a0["):strings.Index(v, ":],a1)")]
			}
			r.site(s)
			if !r.done(q, ob) {
				return
			}
			if strings.Contains(v, "bytes.Index(") && v != "(bytes.Index(a0["+x+":],a1)+"+x+")" && v != "("+x+"+bytes.Index(a0["+x+":],a1))" {
				r.fail(ob, s.n.Where(), "what is found is put down as "+v, s.n.Where())
				ok = true
			} else if !strings.Contains(v, "bytes.Index(") {
				ok = false
			}
		}
		r.Only(q, "the places given back are not changed", "=[]", "=[]($%)")
		if ok && r.done(q, ob) {
			r.ok(ob)
		} else if !ok {
			r.undecided(ob, "no search by bytes.Index whose result is listed")
		}
		for _, c := range []struct {
			at   []int64
			want string
		}{{nil, "nil||[]"}, {[]int64{0}, "0"}, {[]int64{3, 20}, "3 31"}, {[]int64{0, 0, 50}, "0 8 66"}, {[]int64{91}, "91"}} {
			facts := []Fact{{"len(a0)", vi(100)}, {"len(a1)", vi(8)}, {"len(datatree.MagicBytes%)", vi(8)}}
			find := func(from int64) int64 {
				abs := int64(0)
				for _, p := range c.at {
					abs += p
					if abs >= from {
						return abs - from
					}
					abs += 8
				}
				return -1
			}
			for from := int64(0); from <= 100; from++ {
				x := fmt.Sprintf("bytes.Index(a0[%d:],a1)", from)
				if from == 0 {
					x += "||bytes.Index(a0[:],a1)||bytes.Index(a0,a1)"
				}
				facts = append(facts, Fact{x, vi(find(from))})
			}
			facts = append(facts, Fact{"bytes.Index(%)", V{}})
			q := r.Q(a, fmt.Sprintf("found at %v", c.at), facts...)
			r.deepNorm = func(s string) string {
				// what is found at a known place is a known number
				for i := 0; i < 20; i++ {
					t := foundRe.ReplaceAllStringFunc(s, func(x string) string {
						m := foundRe.FindStringSubmatch(x)
						from, _ := strconv.ParseInt(m[1], 10, 64)
						return strconv.FormatInt(find(from), 10)
					})
					t = sumRe.ReplaceAllStringFunc(t, func(x string) string {
						n := int64(0)
						for _, y := range strings.Split(strings.Trim(x, "()"), "+") {
							z, _ := strconv.ParseInt(y, 10, 64)
							n += z
						}
						return strconv.FormatInt(n, 10)
					})
					if t == s {
						break
					}
					s = t
				}
				return strings.NewReplacer("<", "", ">", "", "e(", "", ")", "").Replace(s)
			}
			r.DeepResult(q, "every place is given back, counted from the start", 0, strings.Split(c.want, "||")...)
			r.deepNorm = nil
		}
	}
	if a := r.An("datatree", "SNListToBytes", Opts{}); a != nil {
		for _, n := range []int{0, 1, 3} {
			sns := ""
			for i := 0; i < n; i++ {
				sns += fmt.Sprintf(" le8(a0[%d])", i)
			}
			r.ResultBytes(r.Q(a, fmt.Sprintf("%d deactivated", n), Fact{"len(a0)", vi(int64(n))}), "the numbers follow each other, in order", 0, strings.Replace("<"+sns+">", "< ", "<", 1), strings.TrimPrefix(sns, " "))
		}
	}
	// decoding
	if a := r.An("datatree", "EntryFromBytes", Opts{}); a != nil {
		at := func(sum []string, c int) string {
			if len(sum) == 0 {
				return fmt.Sprint(c)
			}
			return "(" + strings.Join(sum, "+") + fmt.Sprintf("+%d)", c)
		}
		lk := "LE4(a0[:])"
		lv := "LE4(a0[(" + lk + "+4):])"
		ln := "LE4(a0[(" + lv + "+" + lk + "+8):])"
		all := []string{ln, lv, lk}
		i8 := func(c int) string { return "LE8(a0[" + at(all, c) + ":])" }
		for n := 0; n <= 3; n++ {
			q := r.Q(a, fmt.Sprintf("%d deactivated", n), Fact{"a1", vi(int64(n))})
			r.ResultBytes(q, "key, value, next key, heights and serial number come from where they were put", 0,
				"{Key:a0[4:("+lk+"+4)],Value:a0[("+lk+"+8):("+lv+"+"+lk+"+8)],NextKey:a0[("+lv+"+"+lk+"+12):("+ln+"+"+lv+"+"+lk+"+12)],Height:"+i8(12)+",LastHeight:"+i8(20)+",SerialNum:"+i8(28)+"}")
			l := ""
			for i := 0; i < n; i++ {
				l += " e(" + i8(36+8*i) + ")"
			}
			if n > 0 {
				r.ResultBytes(q, "the list comes from behind them", 1, "<"+l[1:]+">", "<"+l[1:]+" zeros(%)>")
			} else {
				r.Result(q, "an empty list is empty", 1, "nil", "make(0)%", "make(a1)")
			}
		}
	}
	if a := r.An("datatree", "ExtractSerialNum", Opts{}); a != nil {
		r.ResultBytes(r.Q(a, ""), "the serial number is at the end of the raw bytes", 0, "LE8(a0[(len(a0)-8):])")
	}
	if a := r.An("datatree", "UpdateSerialNum", Opts{}); a != nil {
		q := r.Q(a, "")
		put := "(encoding/binary.littleEndian).PutUint64(%, a0[(len(a0)-8):]||a0[(len(a0)-8):len(a0)], a1) || builtin.copy(a0[(len(a0)-8):])"
		r.Must(q, "the serial number at the end of the raw bytes is replaced", P(put))
		r.Only(q, "nothing else of the raw bytes is replaced", "(encoding/binary.%).PutUint64 || builtin.copy(a0%)", P(put))
	}
	if a := r.An("datatree", "ExtractKeyFromRawBytes", Opts{NoInline: []string{"datatree.recoverMagicBytes"}}); a != nil {
		q := r.Q(a, "no magic bytes", Fact{"a0[4]||a0[5]||a0[6]||a0[7]", vi(255)}, Fact{"LE4(a0[4:]%)", vi(4294967295)})
		r.ResultBytes(q, "the key is behind the empty list of positions", 0, "a0[12:(LE4(a0[8:])+12)]")
		q = r.Q(a, "magic bytes at 255", Fact{"a0[4]", vi(255)}, Fact{"a0[5]||a0[6]||a0[7]", vi(0)}, Fact{"LE4(a0[4:]%)", vi(255)})
		r.Must(q, "the magic bytes are put back", "datatree.recoverMagicBytes")
		q = r.Q(a, "magic bytes", Fact{"a0[4]", vi(40)}, Fact{"a0[5]||a0[6]||a0[7]", vi(0)}, Fact{"LE4(a0[4:]%)", vi(40)})
		r.Must(q, "the magic bytes are put back", "datatree.recoverMagicBytes")
		r.Only(q, "positions count from behind the length", "datatree.recoverMagicBytes", "datatree.recoverMagicBytes(%append(%, a0[4:]%)||append(%,a0[4:])%||make(%)%)")
		r.Never(q, "the bytes handed in are not changed", "datatree.recoverMagicBytes(a0%)")
		c := "append(%,a0[4:])"
		n := "datatree.recoverMagicBytes(" + c + ")"
		r.Only(q, "the key is behind the list of positions", "builtin.append(%, append%)", P("builtin.append(%, "+c+"[("+n+"+4):(LE4("+c+"["+n+":])+"+n+"+4)]||"+c+"[("+n+"+4):("+n+"+LE4("+c+"["+n+":])+4)])"))
	}
	if a := r.An("datatree", "recoverMagicBytes", Opts{}); a != nil {
		one := []Fact{{"len(a0)", vi(40)}, {"LE4(a0[:]%)", vi(20)}, {"LE4(a0[4:]%)", vi(4294967295)}, {"LE4(a0[:4]%)", vi(20)}, {"LE4(a0[4:8]%)", vi(4294967295)}}
		q := r.Q(a, "one position", one...)
		r.ResultBytes(q, "the payload is behind the position and the end mark", 0, "8")
		r.Bytes(q, "the magic bytes are put back", "builtin.copy", 1, "datatree.MagicBytes[:]")
		r.Bytes(q, "they are put back where they were", "builtin.copy", 0, "a0[(LE4(a0[:])+4):(LE4(a0[:])+12)]", "a0[24:32]", "a0[(LE4(a0[:])+4):]")
		q = r.Q(a, "no position", Fact{"len(a0)", vi(40)}, Fact{"LE4(a0[:]%)", vi(4294967295)})
		r.ResultBytes(q, "the payload is behind the end mark", 0, "4")
		q = r.Q(a, "further positions", Fact{"LE4(a0[(4*K):]%)", vi(20)})
		r.PerIter(q, "magic bytes are put back for each of them", 0, "builtin.copy(a0%, datatree.MagicBytes[:])")
		q = r.Q(a, "")
		r.Only(q, "magic bytes go to the place of the position", "builtin.copy", "builtin.copy(a0[(LE4(a0[(4*K):])+4):(LE4(a0[(4*K):])+12)], datatree.MagicBytes[:])", "builtin.copy(a0[(LE4(a0[(4*K):])+4):], datatree.MagicBytes[:])")
	}
	// files
	if a := r.An("datatree", "(*EntryFile).Append", Opts{NoInline: []string{"(*datatree.HPFile).%"}}); a != nil {
		const pos = "#0((*datatree.HPFile).Append(%))"
		for rem := int64(0); rem < 8; rem++ {
			q := r.Q(a, fmt.Sprintf("length %d modulo 8", rem), Fact{"rem((len(a0[0])+len(a0[1])),8)", vi(rem)}, Fact{"len(a0[0])", vi(80 + rem)}, Fact{"len(a0[1])", vi(16)}, Fact{"(len(a0[0])+len(a0[1]))", vi(96 + rem)}, Fact{"rem(" + pos + ",8)", vi(0)}, Fact{"#1((*datatree.HPFile).Append(%))", V{k: vNil}})
			pad := (8 - rem) % 8
			r.Bytes(q, "magic bytes, entry and list are followed by padding to 8 bytes", "(*datatree.HPFile).Append", 1, fmt.Sprintf("<e(datatree.MagicBytes[:]) e(a0[0]) e(a0[1]) e(make(%d))>", pad), "<e(datatree.MagicBytes[:]) e(a0[0]) e(a0[1]) e(make(phi{(-rem((len(a0[0])+len(a0[1])),8)+8)|0}))>",
				fmt.Sprintf("<e(datatree.MagicBytes[:]) e(a0[0]) e(a0[1]) e(%%[:%d])>", pad))
			if l := q.Find("(*datatree.HPFile).Append"); len(l) > 0 {
				curAn = a
				ob := r.scn(q) + ": the padding has the right length"
				good, seen := true, ""
				for _, s := range q.All() {
					for _, v := range q.padLens(s) {
						seen = v
						good = good && v == fmt.Sprint(pad)
					}
				}
				if seen != "" && r.done(q, ob) {
					if good {
						r.ok(ob)
					} else {
						r.fail(ob, l[0].n.Where(), fmt.Sprintf("%d bytes are needed to get to a multiple of 8, padded are %s", pad, seen))
					}
				}
			}
			r.Result(q, "the position is that of the magic bytes", 0, pos)
		}
	}
	if a := r.An("datatree", "(*EntryFile).readEntry", Opts{NoInline: []string{"(*datatree.HPFile).%", "datatree.recoverMagicBytes"}}); a != nil {
		// 65536+61 bytes, 3 deactivated
		bytes := []Fact{{"$%[8]@||$%[8]", vi(3)}, {"$%[9]@||$%[9]", vi(61)}, {"$%[10]@||$%[10]", vi(0)}, {"$%[11]@||$%[11]", vi(1)}}
		for _, list := range []bool{false, true} {
			n, c := 65609, "0"
			if list {
				n, c = 65633, "3"
			}
			buf := fmt.Sprintf("make(%d)", n)
			fs := append([]Fact{{"a1", vb(list)}}, bytes...)
			nm := "without the list"
			if list {
				nm = "with the list"
			}
			for _, raw := range []bool{false, true} {
				q := r.Q(a, nm+fmt.Sprintf(", raw: %v", raw), append([]Fact{{"a2", vb(raw)}}, fs...)...)
				r.Result(q, "the number of deactivated entries read is given back", 1, c)
				r.Result(q, "the next position is behind entry, list and padding", 2, "(a0+65640)", "(65640+a0)")
				rd := P("(*datatree.HPFile).ReadAt(%, " + buf + ", a0, a3)")
				r.Must(q, "the bytes are read from the position of the entry", rd)
				if raw {
					r.Result(q, "the raw bytes follow the magic bytes", 0, buf+"[8:]", buf+fmt.Sprintf("[8:%d]", n))
					r.Never(q, "raw bytes are given as they are", "datatree.recoverMagicBytes")
					continue
				}
				rec := "datatree.recoverMagicBytes(" + buf + "[12:]%)"
				r.Before(q, "magic bytes are put back when the bytes are there", rd, "datatree.recoverMagicBytes")
				r.Result(q, "what is given back is behind the positions", 0, buf+"[("+rec+"+12):]", buf+"[("+rec+fmt.Sprintf("+12):%d]", n))
			}
		}
		q := r.Q(a, "")
		first := P("(*datatree.HPFile).ReadAt(%, $%[:], a0, a3)")
		r.Must(q, "the head is read from the position of the entry", first)
		r.Must(q, "the magic bytes are looked at", "bytes.Equal(%, datatree.MagicBytes[:]) || bytes.Equal(datatree.MagicBytes[:]) || bytes.Compare")
		q = r.Q(a, "wrong magic bytes", Fact{"bytes.Equal(%)", vb(false)})
		r.Never(q, "nothing is given back", "datatree.recoverMagicBytes")
		r.NoReturn(q, "nothing is given back")
		q = r.Q(a, "a read fails", Fact{"(*datatree.HPFile).ReadAt(%)", V{k: vNonNil}})
		r.NoReturn(q, "nothing is given back")
	}
	for _, c := range []struct {
		fn   string
		args string
	}{
		{"ReadEntryAndSNList", "(%datatree.EntryFile).readEntry(%, a0, true, false, %)"},
		{"ReadEntry", "(%datatree.EntryFile).readEntry(%, a0, %, false, %)"},
		{"ReadEntryRawBytes", "(%datatree.EntryFile).readEntry(%, a0, false, true, %)"},
		{"ReadEntryBytesForProof", "(%datatree.EntryFile).readEntry(%, a0, true, true, %)"},
	} {
		a := r.An("datatree", "(*EntryFile)."+c.fn, Opts{NoInline: []string{"(%datatree.EntryFile).readEntry", "datatree.EntryFromBytes"}})
		if a == nil {
			continue
		}
		q := r.Q(a, "")
		r.Must(q, "the entry at the position is read in the way asked for", P(c.args))
		const rd = "(*datatree.EntryFile).readEntry(%)"
		switch c.fn {
		case "ReadEntryAndSNList":
			r.Must(q, "all that is read is decoded", "datatree.EntryFromBytes(#0("+rd+"), #1("+rd+"))")
			r.Result(q, "the entry is given back", 0, "#0(datatree.EntryFromBytes(%))")
			r.Result(q, "the list is given back", 1, "#1(datatree.EntryFromBytes(%))")
			r.Result(q, "the next position is given back", 2, "#2("+rd+")")
		case "ReadEntry":
			r.Must(q, "what is read is decoded", "datatree.EntryFromBytes(#0("+rd+"), #1("+rd+")||0)")
			r.Result(q, "the entry is given back", 0, "#0(datatree.EntryFromBytes(%))")
		case "ReadEntryRawBytes":
			r.Result(q, "the bytes are given back", 0, "#0("+rd+")")
			r.Result(q, "the next position is given back", 1, "#2("+rd+")")
		default:
			r.Result(q, "the bytes are given back", 0, "#0("+rd+")")
		}
	}
}

// NoReturn: the entry point does not return.
func (r *R) NoReturn(q *Q, what string) {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	rs := q.rootRets()
	if !r.done(q, ob) {
		return
	}
	if len(rs) > 0 {
		r.fail(ob, rs[0].n.Where(), what+": it returns", rs[0].n.Where())
		return
	}
	r.ok(ob)
}

var padArg = regexp.MustCompile(`^(?:make\(|.*\[:)(\d+)[\])]$`)

// padLens: lengths of the zero bytes that are put in a list here.
func (q *Q) padLens(s State) []string {
	ef := s.n.Eff()
	if ef == nil || !strings.HasPrefix(ef.name, "=[]") && ef.name != "builtin.append" {
		return nil
	}
	var out []string
	for i := 1; i < len(ef.args); i++ {
		if m := padArg.FindStringSubmatch(q.EffArg(s, i)); m != nil {
			out = append(out, m[1])
		}
	}
	return out
}
