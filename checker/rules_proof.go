package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P18", "inclusion proofs: the nodes a proof collects, its byte form, and every comparison a verification makes, as hash terms per position of the entry, by conditional constant propagation over the type-checked program", p18)
}

// NilReturn: a return of the analysed function whose result i may be nil.
func (q *Q) nilReturn(i int) func(State) bool {
	return func(s State) bool {
		if s.n.kind != nodeRet || s.n.c != q.a.root {
			return false
		}
		ret := retOf(s.n)
		if ret == nil || i >= len(ret.Results) {
			return true
		}
		return q.sc.Eval(q.a.Eval(q.a.root, ret.Results[i]), s.e).k != vNonNil
	}
}

// Refused: result i (an error) is never nil.
func (r *R) Refused(q *Q, what string, i int) bool {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	path := q.Path([]State{q.start()}, never, q.nilReturn(i))
	if !r.done(q, ob) {
		return true
	}
	if path != nil {
		r.fail(ob, path[len(path)-1].n.Where(), what+": it can end without an error", q.Trace(path)...)
		return false
	}
	r.ok(ob)
	return true
}

// Accepted: result i (an error) can be nil.
func (r *R) Accepted(q *Q, what string, i int) bool {
	curAn = q.a
	ob := r.scn(q) + ": " + what
	path := q.Path([]State{q.start()}, never, q.nilReturn(i))
	if !r.done(q, ob) {
		return true
	}
	if path == nil {
		r.fail(ob, q.a.rootNm, what+": it always ends with an error")
		return false
	}
	r.ok(ob)
	return true
}

// arrayCompares: whole arrays are compared with == somewhere.
func (a *Analysis) arrayCompares() bool {
	seen := map[*ssa.Function]bool{}
	for _, n := range a.g.nodes {
		if n.c == nil || seen[n.c.fn] {
			continue
		}
		seen[n.c.fn] = true
		for _, b := range n.c.fn.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.BinOp); ok && arrOf(x.X.Type()) != nil {
					return true
				}
			}
		}
	}
	return false
}

const equalP = P("bytes.Equal || bytes.Compare")

// Compared: before a nil error is returned, each of the pairs is compared, and
// none of the comparisons can come out false without an error.
func (r *R) Compared(a *Analysis, name string, facts []Fact, pairs [][2]string) {
	r.uses(equalP)
	curAn = a
	yes := []Fact{{"bytes.Equal(%)", vb(true)}, {"bytes.Compare(%)", vi(0)}}
	arr := a.arrayCompares()
	q := r.Q(a, name, append(append([]Fact{}, facts...), yes...)...)
	if !arr {
		r.Accepted(q, "when everything fits there is no error", 0)
	}
	m := q.Mach()
	sites := q.Find(equalP)
	if len(sites) == 0 {
		if r.done(q, r.scn(q)+": comparisons") {
			r.undecided(r.scn(q)+": comparisons", "no use of bytes.Equal is found")
		}
		return
	}
	type cmp struct{ x, y string }
	got := map[string]cmp{}
	for _, s := range sites {
		x, y := m.ArgAt(s, 0), m.ArgAt(s, 1)
		if x == nil || y == nil {
			continue
		}
		got[s.key()] = cmp{m.num(x), m.num(y)}
	}
	for i, w := range pairs {
		hit := func(s State) bool {
			c, ok := got[s.key()]
			return ok && (c.x == w[0] && c.y == w[1] || c.x == w[1] && c.y == w[0])
		}
		ob := fmt.Sprintf("%s: comparison %d of %d is made: %s", r.scn(q), i+1, len(pairs), clip(w[1], 60))
		path := q.Path([]State{q.start()}, hit, q.nilReturn(0))
		if !r.done(q, ob) {
			return
		}
		if path != nil && arr {
			r.undecided(ob, "there are comparisons of whole arrays")
			continue
		}
		if path != nil {
			r.fail(ob, path[len(path)-1].n.Where(), "it ends without an error and without comparing "+clip(w[0], 300)+" with "+clip(w[1], 80), q.Trace(path)...)
			continue
		}
		r.ok(ob)
	}
	for _, s := range sites {
		r.site(s)
		c, known := got[s.key()]
		if arr || !known {
			r.undecided(r.scn(q)+": a difference is an error", "there are comparisons of whole arrays, or of what is not known")
			break
		}
		v, isVal := s.n.ins.(ssa.Value)
		if !isVal {
			continue
		}
		es := q.sc.concr(a.Eval(s.n.c, v), s.e).String()
		no := Fact{es, vb(false)}
		if strings.HasPrefix(es, "bytes.Compare") {
			no.Val = vi(1)
		}
		q2 := r.Q(a, name+", "+clip(c.y, 60)+" differs", append(append([]Fact{}, facts...), append([]Fact{no}, yes...)...)...)
		r.Refused(q2, "it is an error", 0)
	}
}

var diskRe = regexp.MustCompile(`cp\(\(\*datatree\.TwigMtFile\)\.GetHashNode\(recv\.twigMtFile,(-?\d+),(\d+),[^()]*(?:\([^()]*\))?[^()]*\),32\)`)
var cacheRe = regexp.MustCompile(`cp\(makemap\(\)\{(\d+)\},32\)`)

func p18(r *R) {
	p18bytes(r)
	p18check(r)
	p18get(r)
	p18use(r)
}

func nodeList(name string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "recv.%s[%d].PeerHash[:] ", name, i)
	}
	return b.String()
}

func p18bytes(r *R) {
	counts := []int{1, 2, 5}
	if r.thorough {
		counts = nil
		for i := 1; i <= 52; i++ {
			counts = append(counts, i)
		}
	}
	if a := r.An("datatree", "(*ProofPath).ToBytes", Opts{}); a != nil {
		for _, n := range counts {
			q := r.Q(a, fmt.Sprintf("%d upper nodes", n), Fact{"len(recv.UpperPath)", vi(int64(n))})
			r.ResultBytes(q, "the serial number, the leaf, the peers from the leaf up, and the root", 0,
				"<le8(recv.SerialNum) recv.LeftOfTwig[0].SelfHash[:] "+nodeList("LeftOfTwig", 11)+
					"recv.RightOfTwig[0].SelfHash[:] "+nodeList("RightOfTwig", 3)+nodeList("UpperPath", n)+"recv.Root[:]>")
		}
	}
	a := r.An("datatree", "BytesToProofPath", Opts{})
	if a == nil {
		return
	}
	sns := []int64{0, 0x5555, 0x2aaa}
	if r.thorough {
		for i := 0; i < 62; i++ {
			sns = append(sns, 1<<uint(i))
		}
	}
	for _, n := range counts {
		for _, sn := range sns {
			l := 8 + 32*(17+n)
			q := r.Q(a, fmt.Sprintf("%d upper nodes, serial number %d", n, sn), Fact{"len(a0)", vi(int64(l))}, Fact{"LE8(a0[:])||LE8(a0[:8])", vi(sn)})
			at := 8
			next := func() string {
				at += 32
				return fmt.Sprintf("a0[%d:%d]", at-32, at)
			}
			list := func(k, bit int, self bool) string {
				var out []string
				for i := 0; i < k; i++ {
					s := "%"
					if self && i == 0 {
						s = next()
					}
					out = append(out, fmt.Sprintf("{SelfHash:%s,PeerHash:%s,PeerAtLeft:%v}", s, next(), sn>>uint(bit+i)&1 == 1))
				}
				return "[" + strings.Join(out, " ") + "]"
			}
			want := "&{LeftOfTwig:" + list(11, 0, true)
			want += ",RightOfTwig:" + list(3, 8, true)
			want += ",UpperPath:" + list(n, 11, false)
			want += fmt.Sprintf(",SerialNum:%d,Root:%s}", sn, next())
			r.DeepResult(q, "each node is read from its place and each side from the serial number", 0, want)
			if sn == 0 {
				r.Accepted(q, "it is a proof", 1)
			}
		}
	}
	bad := []int64{0, 7, 8, 40, 8 + 32*16, 8 + 32*17, 8 + 32*18 - 1, 8 + 32*18 + 1, 8 + 32*19 + 16, 8 + 32*22 + 31}
	if r.thorough {
		for i := int64(0); i < 8+32*20; i++ {
			if !(i >= 8+32*18 && i%32 == 8) {
				bad = append(bad, i)
			}
		}
	}
	for _, l := range bad {
		r.Refused(r.Q(a, fmt.Sprintf("%d bytes", l), Fact{"len(a0)", vi(l)}), "what cannot be a proof is refused", 1)
	}
}

func p18check(r *R) {
	a := r.An("datatree", "(*ProofPath).Check", Opts{})
	if a == nil {
		return
	}
	counts := []int{1, 3}
	sides := []int64{0, 0x3fffffff, 0x2aaaa}
	if r.thorough {
		counts = []int{1, 2, 3, 4, 7, 20, 51}
		for i := 0; i < 20; i++ {
			sides = append(sides, 1<<uint(i))
		}
	}
	for _, n := range counts {
		for _, side := range sides {
			facts := []Fact{{"len(recv.UpperPath)", vi(int64(n))}}
			bit := 0
			atLeft := map[string]bool{}
			for _, l := range []struct {
				name string
				n    int
			}{{"LeftOfTwig", 11}, {"RightOfTwig", 3}, {"UpperPath", n}} {
				for i := 0; i < l.n; i++ {
					k := fmt.Sprintf("recv.%s[%d]", l.name, i)
					atLeft[k] = side>>uint(bit%40)&1 == 1
					facts = append(facts, Fact{k + ".PeerAtLeft||" + k + ".PeerAtLeft@", vb(atLeft[k])})
					bit++
				}
			}
			up := func(level int, place, self string) string {
				peer := place + ".PeerHash[:]"
				if atLeft[place] {
					self, peer = peer, self
				}
				return fmt.Sprintf("sha256(<0x%02x %s %s>)", level, self, peer)
			}
			// all the way from the leaf and the bits
			left := "recv.LeftOfTwig[0].SelfHash[:]"
			for i := 0; i < 11; i++ {
				left = up(i, fmt.Sprintf("recv.LeftOfTwig[%d]", i), left)
			}
			right := "recv.RightOfTwig[0].SelfHash[:]"
			for i := 0; i < 3; i++ {
				right = up(8+i, fmt.Sprintf("recv.RightOfTwig[%d]", i), right)
			}
			all := "sha256(<0x0b " + left + " " + right + ">)"
			for i := 0; i < n; i++ {
				all = up(12+i, fmt.Sprintf("recv.UpperPath[%d]", i), all)
			}
			nm := fmt.Sprintf("%d upper nodes, sides %x", n, side)
			r.Compared(a, "completing, "+nm, append([]Fact{{"a0", vb(true)}}, facts...), [][2]string{{all, "recv.Root[:]"}})
			// step by step
			var pairs [][2]string
			self := func(name string, i int) string { return fmt.Sprintf("recv.%s[%d].SelfHash[:]", name, i) }
			place := func(name string, i int) string { return fmt.Sprintf("recv.%s[%d]", name, i) }
			for i := 0; i < 10; i++ {
				pairs = append(pairs, [2]string{up(i, place("LeftOfTwig", i), self("LeftOfTwig", i)), self("LeftOfTwig", i+1)})
			}
			for i := 0; i < 2; i++ {
				pairs = append(pairs, [2]string{up(8+i, place("RightOfTwig", i), self("RightOfTwig", i)), self("RightOfTwig", i+1)})
			}
			top := "sha256(<0x0b " + up(10, place("LeftOfTwig", 10), self("LeftOfTwig", 10)) + " " + up(10, place("RightOfTwig", 2), self("RightOfTwig", 2)) + ">)"
			pairs = append(pairs, [2]string{top, self("UpperPath", 0)})
			for i := 0; i < n; i++ {
				to := "recv.Root[:]"
				if i < n-1 {
					to = self("UpperPath", i+1)
				}
				pairs = append(pairs, [2]string{up(12+i, place("UpperPath", i), self("UpperPath", i)), to})
			}
			r.Compared(a, "checking, "+nm, append([]Fact{{"a0", vb(false)}}, facts...), pairs)
		}
	}
}

func p18get(r *R) {
	o := Opts{NoInline: []string{"(*datatree.TwigMtFile).GetHashNode", "(*datatree.%File).%"}}
	a := r.An("datatree", "(*Tree).GetProof", o)
	if a == nil {
		return
	}
	type cas struct {
		sn, young   int64
		self, peer  bool // twigs in memory
		peerNode    bool
		cached      bool
		offset, max int64
	}
	cases := []cas{
		{4173, 5, true, false, false, false, 0, 0},
		{4173, 5, false, true, false, true, 0, 0},
		{0, 0, true, false, false, false, 0, 0},
		{2047, 1, true, true, false, true, 0, 0},
		{2048*5 + 1365, 5, true, true, true, false, 0, 0},
		{2048*6 + 682, 7, false, false, true, false, 0, 0},
		{2048*9 + 1024, 16, false, false, false, true, 0, 0},
	}
	if r.thorough {
		for y := int64(0); y <= 9; y++ {
			for t := int64(0); t <= y; t++ {
				for k := int64(0); k < 2; k++ {
					for _, off := range []int64{0, 255, 256, 511, 512, 1023, 1024, 1791, 2047, (y*977 + t*131 + k*53) % 2048} {
						cases = append(cases, cas{t*2048 + off, y, k == 0 || t == y, (t ^ 1) >= y-2, k == 1, k == 1, 0, 0})
					}
				}
			}
		}
		for _, y := range []int64{1<<20 + 3, 1<<31 + 12345, 1 << 39} {
			cases = append(cases, cas{y/2*2048 + 77, y, false, false, true, false, 0, 0}, cas{(y-1)*2048 + 2001, y, true, true, false, true, 0, 0})
		}
	}
	pos := func(level, n int64) int64 { return level<<56 | n }
	for _, c := range cases {
		id := c.sn / 2048
		facts := []Fact{{"a0", vi(c.sn)}, {"recv.youngestTwigID||recv.youngestTwigID@", vi(c.young)},
			{fmt.Sprintf("has(recv.activeTwigs,%d)", id), vb(c.self)},
			{fmt.Sprintf("has(recv.activeTwigs,%d)", id^1), vb(c.peer)},
			{fmt.Sprintf("has(recv.nodes,%d)", pos(12, id)), vb(true)},
			{fmt.Sprintf("has(recv.nodes,%d)", pos(12, id^1)), vb(c.peerNode)},
			{"has(recv.%)", V{}},
			{"has(%)", vb(c.cached)}}
		q := r.Q(a, fmt.Sprintf("serial number %d, youngest twig %d, in memory %v %v, root kept %v, fetched before %v", c.sn, c.young, c.self, c.peer, c.peerNode, c.cached), facts...)
		n := c.sn % 2048
		node := func(self, peer string, left bool) string {
			return fmt.Sprintf("{SelfHash:%s,PeerHash:%s,PeerAtLeft:%v}", self, peer, left)
		}
		var left, right, upper []string
		for l := uint(0); l <= 10; l++ {
			s, p := (n+2048)>>l, (n+2048)>>l^1
			f := func(i int64) string {
				if id == c.young {
					return fmt.Sprintf("recv.mtree4YoungestTwig[%d][:]", i)
				}
				return fmt.Sprintf("disk(%d,%d)", id, i)
			}
			left = append(left, node(f(s), f(p), s&1 == 1))
		}
		tw := fmt.Sprintf("recv.activeTwigs{%d}", id)
		if !c.self {
			tw = "datatree.NullTwig"
		}
		for l := uint(0); l < 3; l++ {
			s, p := n>>(8+l), n>>(8+l)^1
			f := func(i int64) string {
				switch l {
				case 0:
					if i == 0 {
						return tw + ".activeBits[:32]"
					}
					return fmt.Sprintf("%s.activeBits[%d:%d]", tw, i*32, i*32+32)
				case 1:
					return fmt.Sprintf("%s.activeBitsMTL1[%d][:]", tw, i)
				}
				return fmt.Sprintf("%s.activeBitsMTL2[%d][:]", tw, i)
			}
			right = append(right, node(f(s), f(p), s&1 == 1))
		}
		max := int64(12)
		for y := c.young; y > 0; y >>= 1 {
			max++
		}
		root := func(t int64, mem, kept bool) string {
			switch {
			case mem:
				return fmt.Sprintf("recv.activeTwigs{%d}.twigRoot[:]", t)
			case kept:
				return fmt.Sprintf("recv.nodes{%d}[:]", pos(12, t))
			}
			return "datatree.NullTwig.twigRoot[:]"
		}
		upper = append(upper, node(root(id, c.self, true), root(id^1, c.peer, c.peerNode), id&1 == 1))
		for l := int64(13); l < max; l++ {
			k := id >> uint(l-12)
			upper = append(upper, node(fmt.Sprintf("recv.nodes{%d}[:]", pos(l, k)), fmt.Sprintf("recv.nodes{%d}[:]", pos(l, k^1)), k&1 == 1))
		}
		want := "&{LeftOfTwig:[" + strings.Join(left, " ") + "],RightOfTwig:[" + strings.Join(right, " ") + "],UpperPath:[" + strings.Join(upper, " ") +
			fmt.Sprintf("],SerialNum:%d,Root:recv.nodes{%d}[:]}", c.sn, pos(max, 0))
		r.deepNorm = func(s string) string {
			s = strings.ReplaceAll(diskRe.ReplaceAllString(s, "disk($1,$2)"), "[:]", "")
			if !c.cached {
				return s
			}
			return cacheRe.ReplaceAllString(s, fmt.Sprintf("disk(%d,$1)", id))
		}
		r.DeepResult(q, "the nodes beside the entry's way to the root, and the root", 0, strings.ReplaceAll(want, "[:]", ""))
		r.deepNorm = nil
	}
	for _, c := range []cas{{sn: -2048, young: 0}, {sn: 6 * 2048, young: 5}, {sn: 2048, young: 0}} {
		q := r.Q(a, fmt.Sprintf("serial number %d, youngest twig %d", c.sn, c.young), Fact{"a0", vi(c.sn)}, Fact{"recv.youngestTwigID", vi(c.young)})
		r.Result(q, "there is no proof", 0, "nil")
	}
}

func p18use(r *R) {
	const ck, tb, fb = "(*datatree.ProofPath).Check", "(*datatree.ProofPath).ToBytes", "datatree.BytesToProofPath"
	o := Opts{NoInline: []string{"(*datatree.ProofPath).%", fb}}
	const bz, back = tb + "(a0)", "#0(" + fb + "(" + tb + "(a0)))"
	if a := r.An("datatree", "CheckProof", o); a != nil {
		c1, c2 := ck+"(a0,false)", ck+"("+back+",true)"
		er := "#1(" + fb + "(" + bz + "))"
		ok := []Fact{{c1, V{k: vNil}}, {c2, V{k: vNil}}, {er, V{k: vNil}}}
		q := r.Q(a, "all is well", ok...)
		r.Accepted(q, "it is accepted", 1)
		r.Result(q, "the bytes are those of the proof", 0, bz)
		r.Must(q, "the proof is checked step by step", P(ck+"(a0, false)"))
		r.Must(q, "the bytes, read back, are checked from the leaf up", P(ck+"("+back+", true)"))
		r.Before(q, "the bytes are read back after the steps are checked", P(ck+"(a0, false)"), P(ck+"("+back+", true)"))
		for i, f := range ok {
			bad := append([]Fact{}, ok...)
			bad[i] = Fact{f.Pat, V{k: vNonNil}}
			r.Refused(r.Q(a, f.Pat+" fails", bad...), "it is refused", 1)
		}
	}
	o = Opts{NoInline: []string{"(*datatree.ProofPath).%", fb, "datatree.CheckProof", "(*datatree.Tree).GetProof"}}
	if a := r.An("datatree", "(*Tree).GetProofBytesAndCheck", o); a != nil {
		const gp, cp = "(*datatree.Tree).GetProof(recv,a0)", "datatree.CheckProof"
		same := "==(%SelfHash%Sum256(a1)%)||==(%Sum256(a1)%SelfHash%)||bytes.Equal(%SelfHash%)||bytes.Equal(%Sum256(a1)%)"
		nonNil := Fact{gp, V{k: vNonNil}}
		ok := Fact{"#1(" + cp + "(%))", V{k: vNil}}
		r.Refused(r.Q(a, "no such entry", Fact{gp, V{k: vNil}}), "it is refused", 1)
		r.Refused(r.Q(a, "the entry's bytes do not hash to the leaf", nonNil, ok, Fact{"len(a1)", vi(100)}, Fact{same, vb(false)}, Fact{"bytes.Compare(%)", vi(1)}), "it is refused", 1)
		for _, n := range []int64{0, 100} {
			q := r.Q(a, fmt.Sprintf("the entry's %d bytes are right", n), nonNil, ok, Fact{"len(a1)", vi(n)}, Fact{same, vb(true)}, Fact{"bytes.Compare(%)", vi(0)})
			r.Accepted(q, "it is accepted", 1)
			r.Must(q, "the proof is checked", P(cp+"("+gp+")"))
			r.Result(q, "the bytes are the checked ones", 0, "#0("+cp+"("+gp+"))")
		}
		r.Refused(r.Q(a, "the check fails", nonNil, Fact{"#1(" + cp + "(%))", V{k: vNonNil}}), "it is refused", 1)
	}
}
