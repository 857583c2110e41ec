package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "gitee.com/coco/go808"

// Program is the type-checked, SSA-converted source tree under analysis.
type Program struct {
	dir          string
	prog         *ssa.Program
	fset         *token.FileSet
	pkgs         []*packages.Package
	root         *ssa.Package
	proto        *ssa.Package
	extra        *ssa.Package
	repo         []*ssa.Package
	constGlobals map[*ssa.Global]*T
	loopMemo     map[*ssa.Function]*loopInfo
	allFns       []*ssa.Function
}

func loadProgram(dir string) (*Program, error) { return loadProgramWith(dir, nil) }

func loadProgramWith(dir string, overlay map[string][]byte) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...", "container/heap", "sort")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{dir: dir, prog: prog, fset: prog.Fset, pkgs: pkgs, constGlobals: map[*ssa.Global]*T{}, loopMemo: map[*ssa.Function]*loopInfo{}}
	for _, s := range sp {
		if s == nil || !strings.HasPrefix(s.Pkg.Path(), modPath) {
			continue
		}
		p.repo = append(p.repo, s)
		switch s.Pkg.Path() {
		case modPath:
			p.root = s
		case modPath + "/protocol":
			p.proto = s
		case modPath + "/protocol/extra":
			p.extra = s
		}
	}
	if p.root == nil || p.proto == nil || p.extra == nil {
		return nil, fmt.Errorf("packages %s, protocol, protocol/extra not all found", modPath)
	}
	for f := range ssautil.AllFunctions(prog) {
		if isRepoFn(f) && len(f.Blocks) > 0 {
			p.allFns = append(p.allFns, f)
		}
	}
	sort.Slice(p.allFns, func(i, j int) bool { return p.allFns[i].String() < p.allFns[j].String() })
	p.initGlobals()
	return p, nil
}

func (p *Program) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	if rel, err := filepath.Rel(p.dir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		return fmt.Sprintf("%s:%d", rel, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// globals assigned exactly once, in package initialisation, from a constant,
// keep that value
func (p *Program) initGlobals() {
	stores := map[*ssa.Global][]*ssa.Store{}
	escaped := map[*ssa.Global]bool{}
	for _, f := range p.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == g {
							stores[g] = append(stores[g], x)
							if f.Name() != "init" {
								escaped[g] = true
							}
							continue
						}
						escaped[g] = true
					case *ssa.UnOp:
					default:
						escaped[g] = true
					}
				}
			}
		}
	}
	for _, pk := range p.repo {
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || escaped[g] {
				continue
			}
			t := derefT(g.Type())
			ss := stores[g]
			in := &Interp{P: p}
			if _, ok := t.Underlying().(*types.Basic); !ok {
				// decimal constants
				if len(ss) == 1 && typeName(t) == "github.com/shopspring/decimal.Decimal" {
					if c, ok := ss[0].Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
						args := []*T{}
						for _, a := range c.Call.Args {
							if k, ok := a.(*ssa.Const); ok {
								args = append(args, in.constVal(k))
							}
						}
						if len(args) == len(c.Call.Args) {
							p.constGlobals[g] = decOp(&T{op: "call:" + c.Call.StaticCallee().String(), typ: t}, args)
						}
					}
				}
				continue
			}
			switch {
			case len(ss) == 0:
				p.constGlobals[g] = zero(t)
			case len(ss) == 1:
				if c, ok := ss[0].Val.(*ssa.Const); ok {
					p.constGlobals[g] = in.constVal(c)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- loops

type loopNode struct {
	header  *ssa.BasicBlock // nil for the whole function
	blocks  map[*ssa.BasicBlock]bool
	child   map[*ssa.BasicBlock]*loopNode // by header
	parent  *loopNode
	order   []*ssa.BasicBlock
	liveOut []ssa.Value
}

type loopInfo struct {
	top *loopNode
}

func (p *Program) loops(fn *ssa.Function) *loopInfo {
	if r, ok := p.loopMemo[fn]; ok {
		return r
	}
	byHeader := map[*ssa.BasicBlock]*loopNode{}
	var nodes []*loopNode
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			n := byHeader[h]
			if n == nil {
				n = &loopNode{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, child: map[*ssa.BasicBlock]*loopNode{}}
				byHeader[h] = n
				nodes = append(nodes, n)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if n.blocks[x] {
					continue
				}
				n.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	top := &loopNode{blocks: map[*ssa.BasicBlock]bool{}, child: map[*ssa.BasicBlock]*loopNode{}}
	for _, b := range fn.Blocks {
		top.blocks[b] = true
	}
	sort.Slice(nodes, func(i, j int) bool { return len(nodes[i].blocks) < len(nodes[j].blocks) })
	for i, n := range nodes {
		n.parent = top
		for _, m := range nodes[i+1:] {
			if m.blocks[n.header] && m != n {
				n.parent = m
				break
			}
		}
		n.parent.child[n.header] = n
	}
	for _, n := range append(nodes, top) {
		n.computeOrder(fn)
		if n.header != nil {
			n.computeLiveOut(fn)
		}
	}
	li := &loopInfo{top: top}
	p.loopMemo[fn] = li
	return li
}

func (n *loopNode) rep(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h, c := range n.child {
		if c.blocks[b] {
			return h
		}
	}
	return b
}

func (n *loopNode) computeOrder(fn *ssa.Function) {
	entry := n.header
	if entry == nil {
		entry = fn.Blocks[0]
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		var succs []*ssa.BasicBlock
		if c := n.child[b]; c != nil {
			for _, x := range fn.Blocks {
				if !c.blocks[x] {
					continue
				}
				for _, s := range x.Succs {
					if !c.blocks[s] {
						succs = append(succs, s)
					}
				}
			}
		} else {
			succs = b.Succs
		}
		for _, s := range succs {
			if !n.blocks[s] || s == entry {
				continue
			}
			r := n.rep(s)
			if !seen[r] {
				dfs(r)
			}
		}
		post = append(post, b)
	}
	e := entry
	if n.header == nil {
		e = n.rep(entry)
	}
	dfs(e)
	for i := len(post) - 1; i >= 0; i-- {
		n.order = append(n.order, post[i])
	}
}

func (n *loopNode) computeLiveOut(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		if !n.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !n.blocks[r.Block()] {
					n.liveOut = append(n.liveOut, v)
					break
				}
			}
		}
	}
}

func (p *Program) fn(pkg *ssa.Package, name string) *ssa.Function {
	return pkg.Func(name)
}

func (p *Program) method(pkg *ssa.Package, typ, name string) *ssa.Function {
	m, ok := pkg.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
		ms := p.prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(pkg.Pkg, name); sel != nil {
			if f := p.prog.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}
