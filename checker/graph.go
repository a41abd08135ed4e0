package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Node is a point of the supergraph: an instruction of one activation.
type Node struct {
	id    int
	c     *Ctx
	blk   *ssa.BasicBlock
	ins   ssa.Instruction
	kind  nodeKind
	sub   *Ctx // the activation a call enters (nodeCall)
	succs []*Node
	eff   *Eff
	effOK bool
	// for a branch: the condition; succs[0] is taken when it is true
	cond *Sym
	// loops a node belongs to, outermost first, over the whole activation chain
	hdr *LoopRef // this node starts the header block of a loop
	// the instructions without a node of their own that follow
	post []ssa.Instruction
}

type nodeKind int

const (
	nodeIns nodeKind = iota
	nodeEntry
	nodeExit
	nodePanic
	nodeBlock // start of a block
	nodeIf
	nodeRet // ordinary return point of an activation
	nodeDeferred
	nodeAfter // point after a call that was entered
)

type LoopRef struct {
	c *Ctx
	l *NatLoop
}

type Graph struct {
	a      *Analysis
	nodes  []*Node
	entry  *Node
	exit   *Node
	blocks map[string]*Node
	loops  map[string]*LoopRef
	preds  map[*Node][]*Node
}

func (a *Analysis) Graph() *Graph {
	if a.g != nil {
		return a.g
	}
	g := &Graph{a: a, blocks: map[string]*Node{}, loops: map[string]*LoopRef{}}
	a.g = g
	g.entry = g.node(a.root, nil, nil, nodeEntry)
	g.exit = g.node(a.root, nil, nil, nodeExit)
	first := g.activation(a.root, g.exit)
	g.entry.succs = []*Node{first}
	g.preds = map[*Node][]*Node{}
	for _, n := range g.nodes {
		for _, s := range n.succs {
			g.preds[s] = append(g.preds[s], n)
		}
	}
	return g
}

func (g *Graph) node(c *Ctx, b *ssa.BasicBlock, ins ssa.Instruction, k nodeKind) *Node {
	n := &Node{id: len(g.nodes), c: c, blk: b, ins: ins, kind: k}
	g.nodes = append(g.nodes, n)
	return n
}

func (g *Graph) loopRef(c *Ctx, l *NatLoop) *LoopRef {
	k := fmt.Sprintf("%d/%p", c.id, l)
	if r := g.loops[k]; r != nil {
		return r
	}
	r := &LoopRef{c, l}
	g.loops[k] = r
	return r
}

// activation builds the nodes of one activation; control goes to out on return.
func (g *Graph) activation(c *Ctx, out *Node) *Node {
	if len(c.fn.Blocks) == 0 {
		return out
	}
	starts := map[*ssa.BasicBlock]*Node{}
	for _, b := range c.fn.Blocks {
		n := g.node(c, b, nil, nodeBlock)
		if l := c.li.ByHeader[b]; l != nil {
			n.hdr = g.loopRef(c, l)
		}
		starts[b] = n
		g.blocks[fmt.Sprintf("%d/%p", c.id, b)] = n
	}
	var defers []*ssa.Defer
	for _, b := range c.li.rpo {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	for _, b := range c.fn.Blocks {
		cur := starts[b]
		link := func(n *Node) { cur.succs = append(cur.succs, n); cur = n }
		dead := false
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.If:
				n := g.node(c, b, ins, nodeIf)
				n.cond = g.a.Eval(c, x.Cond)
				link(n)
				n.succs = []*Node{starts[b.Succs[0]], starts[b.Succs[1]]}
			case *ssa.Jump:
				cur.succs = append(cur.succs, starts[b.Succs[0]])
			case *ssa.Return:
				n := g.node(c, b, ins, nodeRet)
				link(n)
				n.succs = []*Node{out}
			case *ssa.Panic:
				link(g.node(c, b, ins, nodePanic))
				dead = true
			case *ssa.RunDefers:
				for i := len(defers) - 1; i >= 0; i-- {
					d := defers[i]
					if !d.Block().Dominates(b) {
						// may or may not have been registered
						if !reaches(d.Block(), b) {
							continue
						}
						fork := g.node(c, b, nil, nodeAfter)
						join := g.node(c, b, nil, nodeAfter)
						link(fork)
						fork.succs = append(fork.succs, join)
						g.call(c, d, fork, join, true)
						cur = join
						continue
					}
					after := g.node(c, b, nil, nodeAfter)
					g.call(c, d, cur, after, true)
					cur = after
				}
			case *ssa.Defer:
				// takes effect at the return
			case *ssa.Call, *ssa.Go:
				site := ins.(ssa.CallInstruction)
				if endsCall(g.a, c, site) {
					link(g.node(c, b, ins, nodePanic))
					dead = true
					break
				}
				after := g.node(c, b, ins, nodeAfter)
				g.call(c, site, cur, after, false)
				cur = after
			default:
				switch ins.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
					link(g.node(c, b, ins, nodeIns))
				case *ssa.UnOp:
					if isRecv(ins) {
						link(g.node(c, b, ins, nodeIns))
					} else {
						cur.post = append(cur.post, ins)
					}
				case *ssa.Select:
					link(g.node(c, b, ins, nodeIns))
				default:
					cur.post = append(cur.post, ins)
				}
			}
			if dead {
				break
			}
		}
	}
	return starts[c.fn.Blocks[0]]
}

func isRecv(ins ssa.Instruction) bool {
	u, ok := ins.(*ssa.UnOp)
	return ok && u.Op.String() == "<-"
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

func endsCall(a *Analysis, c *Ctx, site ssa.CallInstruction) bool {
	f := site.Common().StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

func (g *Graph) call(c *Ctx, site ssa.CallInstruction, from, after *Node, deferred bool) {
	sub := g.a.sub(c, site)
	k := nodeIns
	if deferred {
		k = nodeDeferred
	}
	n := g.node(c, site.Block(), site, k)
	from.succs = append(from.succs, n)
	if sub == nil {
		n.succs = append(n.succs, after)
		return
	}
	n.sub = sub
	n.succs = append(n.succs, g.activation(sub, after))
}

// ---- effects ----

// Eff is something a node does that can be observed outside the activation.
type Eff struct {
	n    *Node
	kind string // call, store, mapset, send, recv, delete
	name string
	args []*Sym
}

func (n *Node) Eff() *Eff {
	if n.effOK {
		return n.eff
	}
	n.effOK = true
	if n.kind != nodeIns && n.kind != nodeDeferred || n.ins == nil || n.sub != nil {
		return nil
	}
	a := n.c.an
	c := n.c
	switch x := n.ins.(type) {
	case *ssa.Store:
		at := strip2(a.Eval(c, x.Addr))
		nm := "=?"
		switch at.k {
		case KField:
			nm = "=" + at.owner() + "." + at.name
		case KIndex:
			nm = "=[]"
			if b := at.args[0]; b.k == KField {
				nm = "=" + b.owner() + "." + b.name + "[]"
			}
		case KLocal:
			nm = "=local"
		case KDeref:
			nm = "=*"
		case KGlobal:
			nm = "=global"
		}
		n.eff = &Eff{n, "store", nm, []*Sym{at, a.Eval(c, x.Val)}}
	case *ssa.MapUpdate:
		n.eff = &Eff{n, "mapset", "mapset", []*Sym{a.Eval(c, x.Map), a.Eval(c, x.Key), a.Eval(c, x.Value)}}
	case *ssa.Send:
		n.eff = &Eff{n, "send", "send", []*Sym{a.Eval(c, x.Chan), a.Eval(c, x.X)}}
	case *ssa.UnOp:
		n.eff = &Eff{n, "recv", "recv", []*Sym{a.Eval(c, x.X)}}
	case ssa.CallInstruction:
		cc := x.Common()
		var args []*Sym
		if cc.IsInvoke() {
			args = append(args, a.Eval(c, cc.Value))
		}
		for _, y := range cc.Args {
			args = append(args, a.Eval(c, y))
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(args) == 2 {
			if vs := a.variadic(c, cc.Args[1]); vs != nil {
				args = append(args[:1:1], vs...)
			}
		}
		n.eff = &Eff{n, "call", a.callName(c, cc), args}
	}
	return n.eff
}

func (e *Eff) String() string {
	s := e.name + "("
	for i, x := range e.args {
		if i > 0 {
			s += ", "
		}
		s += x.String()
	}
	return s + ")"
}

// Effs lists all effects of the graph.
func (g *Graph) Effs() []*Eff {
	var out []*Eff
	for _, n := range g.nodes {
		if e := n.Eff(); e != nil {
			out = append(out, e)
		}
	}
	return out
}

// Chain gives the loops around a node, outermost first.
func (n *Node) Chain() []*LoopRef {
	var out []*LoopRef
	c, b := n.c, n.blk
	for c != nil {
		if b != nil {
			for l := c.li.Inner[b]; l != nil; l = l.Parent {
				out = append(out, n.c.an.g.loopRef(c, l))
			}
		}
		if c.site == nil {
			break
		}
		b = c.site.Block()
		c = c.parent
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (n *Node) InLoop(r *LoopRef) bool {
	for _, x := range n.Chain() {
		if x == r {
			return true
		}
	}
	return false
}

// Where is the source position of a node, with the chain of calls.
func (n *Node) Where() string {
	p := n.c.an.p
	if n.ins == nil {
		return fnName(n.c.fn)
	}
	s := p.Where(n.ins)
	for c := n.c; c.site != nil; c = c.parent {
		s += " < " + p.Where(c.site)
	}
	return s
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func retOf(n *Node) *ssa.Return {
	r, _ := n.ins.(*ssa.Return)
	return r
}

// variadic: the elements of the slice that the compiler makes of the variable
// arguments of a call.
func (a *Analysis) variadic(c *Ctx, v ssa.Value) []*Sym {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return nil
	}
	var out []*Sym
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok || k.Int64() != int64(len(out)) {
			return nil
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				out = append(out, a.Eval(c, st.Val))
			}
		}
	}
	return out
}
