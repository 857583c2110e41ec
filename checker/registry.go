package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// regEntry is one entry of a message registry: key -> constructor
type regEntry struct {
	key     int64
	creator *ssa.Function
	typ     *types.Named // concrete entity type the constructor returns
	pos     string
	problem string
}

// registry reads the entries put into the package-level map by package
// initialisation
func (p *Program) registry(pkg *ssa.Package, global string) []regEntry {
	g, ok := pkg.Members[global].(*ssa.Global)
	if !ok {
		if g = registryGlobal(pkg); g == nil {
			return nil
		}
	}
	var out []regEntry
	for _, fn := range p.allFns {
		if fn.Pkg != pkg || !(fn.Name() == "init" || fn.Synthetic == "package initializer" || len(fn.Name()) > 5 && fn.Name()[:5] == "init#") {
			continue
		}
		// values that are the map stored in g
		isMap := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if x.Addr == g {
						isMap[x.Val] = true
					}
				case *ssa.UnOp:
					if x.X == g {
						isMap[x] = true
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok || !isMap[mu.Map] {
					continue
				}
				e := regEntry{pos: p.pos(mu.Pos())}
				if c, ok := mu.Key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					e.key = c.Int64()
				} else {
					e.problem = "key is not a constant"
				}
				switch v := mu.Value.(type) {
				case *ssa.Function:
					e.creator = v
				case *ssa.MakeClosure:
					e.creator = v.Fn.(*ssa.Function)
				case *ssa.ChangeType:
					if f, ok := v.X.(*ssa.Function); ok {
						e.creator = f
					}
				}
				if e.creator != nil {
					e.typ = creatorType(e.creator)
				}
				out = append(out, e)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// registryGlobal finds the package variable that maps numbers to constructors
func registryGlobal(pkg *ssa.Package) *ssa.Global {
	for _, m := range pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t, ok := derefT(g.Type()).Underlying().(*types.Map)
		if !ok || !isIntT(t.Key()) {
			continue
		}
		if f, ok := t.Elem().Underlying().(*types.Signature); ok && f.Params().Len() == 0 && f.Results().Len() == 1 && types.IsInterface(f.Results().At(0).Type()) {
			return g
		}
	}
	return nil
}

// creatorType gives the concrete pointer type a constructor returns on every path
func creatorType(fn *ssa.Function) *types.Named {
	var r *types.Named
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ret, ok := ins.(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			n := concreteOf(ret.Results[0], 0)
			if n == nil || r != nil && r != n {
				return nil
			}
			r = n
		}
	}
	return r
}

func concreteOf(v ssa.Value, d int) *types.Named {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n, _ := types.Unalias(p.Elem()).(*types.Named)
			return n
		}
	case *ssa.ChangeInterface:
		return concreteOf(x.X, d+1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			return creatorType(f)
		}
	case *ssa.Phi:
		var r *types.Named
		for _, e := range x.Edges {
			n := concreteOf(e, d+1)
			if n == nil || r != nil && n != r {
				return nil
			}
			r = n
		}
		return r
	}
	return nil
}
