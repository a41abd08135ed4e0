package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: adscheck check ID | dump PKG FN [NoInline...]")
		os.Exit(2)
	}
	repo := os.Getenv("ADSCHECK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	t0 := time.Now()
	switch os.Args[1] {
	case "dump":
		dump(repo)
	case "check":
		os.Exit(check(repo, os.Args[2:], t0))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}

func dump(repo string) {
	p, err := Load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f := p.Fn(os.Args[2], os.Args[3])
	if f == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	mt, _ := strconv.Atoi(os.Getenv("MAXTRIP"))
	a := p.Analyze(f, Opts{NoInline: os.Args[4:], MaxTrip: mt})
	for _, e := range a.Graph().Effs() {
		ks := ""
		for range e.n.Chain() {
			ks += "*"
		}
		fmt.Printf("%-3s%s\t\t%s\n", ks, e, e.n.Where())
	}
	if os.Getenv("CONDS") != "" {
		for _, n := range a.g.nodes {
			if n.kind == nodeIf {
				fmt.Printf("if %s\t\t%s\n", n.cond, n.Where())
			}
		}
	}
	var facts []Fact
	for _, f := range strings.Split(os.Getenv("FACTS"), ";") {
		i := strings.LastIndex(f, "=")
		if i < 0 {
			continue
		}
		switch t := f[i+1:]; t {
		case "t", "f":
			facts = append(facts, Fact{f[:i], vb(t == "t")})
		case "nil":
			facts = append(facts, Fact{f[:i], V{k: vNil}})
		case "non":
			facts = append(facts, Fact{f[:i], V{k: vNonNil}})
		default:
			var v, w int64
			fmt.Sscan(t, &v)
			w = v
			if j := strings.Index(t, ".."); j > 0 {
				fmt.Sscan(t[:j], &v)
				fmt.Sscan(t[j+2:], &w)
			}
			facts = append(facts, Fact{f[:i], vr(v, w)})
		}
	}
	if os.Getenv("SCEN") != "" {
		q := a.Query(a.NewScen("", facts...))
		var all []State
		for _, s := range q.All() {
			all = append(all, s)
		}
		sortStates(all)
		for _, s := range all {
			if ef := s.n.Eff(); ef != nil && !strings.HasPrefix(ef.name, "builtin.len") {
				fmt.Println("SC ", q.EffStr(s), "\t", a.p.Where(s.n.ins))
			}
		}
	}
	if os.Getenv("MACH") != "" {
		q := a.Query(a.NewScen("", facts...))
		m := q.Mach()
		fmt.Println("--- contents")
		var all []State
		for _, s := range q.All() {
			all = append(all, s)
		}
		sortStates(all)
		for _, s := range all {
			if m.in[s.key()] == nil {
				continue
			}
			if ef := s.n.Eff(); ef != nil && !strings.HasPrefix(ef.name, "builtin.len") {
				t := ef.name + "("
				for i := range ef.args {
					if v := m.ArgAt(s, i); v != nil {
						t += v.String() + ", "
					}
				}
				fmt.Println(t+")", a.p.Where(s.n.ins))
			}
			if s.n.kind == nodeRet && s.n.c == a.root {
				for i := range retOf(s.n).Results {
					fmt.Println("RET", i, m.RetAt(s, i))
					d, _ := m.RetDeep(s, i)
					fmt.Println("DEEP", i, d)
				}
			}
		}
	}
	fmt.Println(len(a.g.nodes), "nodes")
}

func knownFindings(verif string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID ob=<obligation> :: text
		l = strings.TrimPrefix(l, "finding: ")
		kv := strings.SplitN(l, " :: ", 2)
		if len(kv) == 2 {
			out[strings.TrimSpace(kv[0])] = kv[1]
		}
	}
	return out
}

func check(repo string, ids []string, t0 time.Time) int {
	verif := os.Getenv("ADSCHECK_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	p, err := Load(repo)
	if err != nil {
		fmt.Println("adscheck: cannot load", repo+":", err)
		return 2
	}
	rc := 0
	known := knownFindings(verif)
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Println("adscheck: no check", id)
			return 2
		}
		t1 := time.Now()
		r := newR(p, id)
		r.thorough = os.Getenv("ADSCHECK_TIER") == "thorough"
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("ADSCHECK_DEBUG") != "" {
						panic(e)
					}
					r.undecided("analysis", fmt.Sprint(e))
				}
			}()
			c.Run(r)
		}()
		if report(verif, c, r, known, time.Since(t1)+t1.Sub(t0)) {
			rc = 1
		}
		t0 = time.Now()
	}
	return rc
}

func report(verif string, c *Check, r *R, known map[string]string, wall time.Duration) bool {
	bad := false
	tier := os.Getenv("ADSCHECK_TIER")
	if tier == "" {
		tier = "quick"
	}
	var viols []map[string]any
	sort.SliceStable(r.viols, func(i, j int) bool { return r.viols[i].Ob < r.viols[j].Ob })
	for _, v := range r.viols {
		if txt, ok := known["property="+c.ID+" ob="+v.Ob]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, txt)
			continue
		}
		bad = true
		h := sha256.Sum256([]byte(v.Ob + v.Where + v.Msg))
		dir := filepath.Join(verif, "evidence", "replay")
		_ = os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%x.txt", c.ID, h[:5]))
		txt := fmt.Sprintf("property: %s\nrule: %s\nobligation: %s\nconstruct: %s\n%s\n\npath (statement < called from):\n  %s\n\nre-run: /verif/run.sh %s\n",
			c.ID, c.Rule, v.Ob, v.Where, v.Msg, strings.Join(v.Trace, "\n  "), c.ID)
		_ = os.WriteFile(f, []byte(txt), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, f)
		fmt.Printf("  %s\n  %s\n  at %s\n", v.Ob, v.Msg, v.Where)
		viols = append(viols, map[string]any{"obligation": v.Ob, "construct": v.Where, "message": v.Msg, "replay": f})
	}
	nd := 0
	var obs []string
	for o, ok := range r.obs {
		if ok {
			nd++
		}
		obs = append(obs, o)
	}
	sort.Strings(obs)
	for _, u := range r.und {
		fmt.Printf("note: undecided: %s\n", u)
	}
	cov := map[string]any{
		"explanation": "static analysis of the type-checked source and its SSA form: " + c.Rule,
		"obligations": len(r.obs), "discharged": nd, "undecided": len(r.und),
		"entry_points": sortedKeys(r.entries), "functions_analysed": len(r.funcs), "functions": sortedKeys(r.funcs),
		"constructs_judged": len(r.sites), "abstract_states": r.states,
		"obligation_list": obs, "undecided_list": r.und,
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": 1, "level": "other",
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*1000)) / 1000,
		"assumptions": assumptions,
	}
	ev["violations"] = len(viols)
	if len(viols) > 0 {
		cov["violation_list"] = viols
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("adscheck: cannot write evidence:", err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violations, %.1fs\n", c.ID, len(r.obs), nd, len(r.und), len(viols), wall.Seconds())
	return bad
}

var assumptions = []string{
	"Go's type checker and the SSA form built by golang.org/x/tools represent the program",
	"distinct elements of a slice of pointers point to distinct objects, and calls outside the module write only through the slices and pointers they are handed",
	"the functions of the standard library, RocksDB and the operating system do what they document",
}
