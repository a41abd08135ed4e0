package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// NatLoop is a natural loop of a function (all back edges to one header).
type NatLoop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Latch  map[*ssa.BasicBlock]bool
	Parent *NatLoop
	depth  int
}

type LoopInfo struct {
	fn        *ssa.Function
	Loops     []*NatLoop
	Inner     map[*ssa.BasicBlock]*NatLoop // innermost loop of a block
	ByHeader  map[*ssa.BasicBlock]*NatLoop
	mustPanic map[*ssa.BasicBlock]bool
	rpo       []*ssa.BasicBlock
	rpoNum    map[*ssa.BasicBlock]int
}

func (p *Program) LoopsOf(f *ssa.Function) *LoopInfo {
	if li := p.loops[f]; li != nil {
		return li
	}
	li := &LoopInfo{fn: f, Inner: map[*ssa.BasicBlock]*NatLoop{}, ByHeader: map[*ssa.BasicBlock]*NatLoop{}}
	p.loops[f] = li
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.ByHeader[s]
				if l == nil {
					l = &NatLoop{Fn: f, Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}, Latch: map[*ssa.BasicBlock]bool{}}
					li.ByHeader[s] = l
					li.Loops = append(li.Loops, l)
				}
				l.Latch[b] = true
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.Blocks[x] {
						continue
					}
					l.Blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(li.Loops, func(i, j int) bool { return len(li.Loops[i].Blocks) > len(li.Loops[j].Blocks) })
	for _, l := range li.Loops { // big to small: inner ones overwrite
		for b := range l.Blocks {
			if o := li.Inner[b]; o != nil && b == l.Header {
				l.Parent = o
			}
			li.Inner[b] = l
		}
	}
	for _, l := range li.Loops {
		for q := l.Parent; q != nil; q = q.Parent {
			l.depth++
		}
	}
	// blocks from which every path panics
	li.mustPanic = map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if li.mustPanic[b] {
				continue
			}
			if endsInPanic(b) {
				li.mustPanic[b] = true
				changed = true
				continue
			}
			if len(b.Succs) == 0 {
				continue
			}
			all := true
			for _, s := range b.Succs {
				if !li.mustPanic[s] {
					all = false
				}
			}
			if all {
				li.mustPanic[b] = true
				changed = true
			}
		}
	}
	// reverse post-order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	li.rpoNum = map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpoNum[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	return li
}

func endsInPanic(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				switch f.String() {
				case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
					return true
				}
			}
		}
	}
	return false
}

func (li *LoopInfo) isBack(from, to *ssa.BasicBlock) bool {
	l := li.ByHeader[to]
	return l != nil && l.Latch[from]
}

func (l *NatLoop) Contains(b *ssa.BasicBlock) bool { return l != nil && l.Blocks[b] }
