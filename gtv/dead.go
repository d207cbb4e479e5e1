package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values that nothing observable depends on are not evaluated. Observable are
// stores, returns, stops, calls that may do something, and the exits of loops;
// a branch is observable when something observable is decided by it.

func (e *Ev) deadOf(fn *ssa.Function, ci *cfgInfo) map[ssa.Instruction]bool {
	live := map[ssa.Instruction]bool{}
	var work []ssa.Instruction
	mark := func(in ssa.Instruction) {
		if in != nil && !live[in] {
			live[in] = true
			work = append(work, in)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if !pureCall(x.Common(), map[*ssa.Function]bool{}) {
					mark(in)
				}
			case *ssa.Alloc, *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr,
				*ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract:
				// sources of values
			case *ssa.If:
				// a branch that may leave a loop is part of what the loop does
				if l := ci.inner[b]; l != nil && (!l.blocks[b.Succs[0]] || !l.blocks[b.Succs[1]]) {
					mark(in)
				}
			case *ssa.DebugRef, *ssa.Jump:
			default:
				mark(in)
			}
		}
	}
	deps := controlDeps(fn)
	for len(work) > 0 {
		in := work[len(work)-1]
		work = work[:len(work)-1]
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if d, ok := (*op).(ssa.Instruction); ok {
				mark(d)
			}
		}
		for _, c := range deps[in.Block()] {
			mark(c.Instrs[len(c.Instrs)-1])
		}
		if p, ok := in.(*ssa.Phi); ok {
			// which value it takes is decided where its edges are
			for _, q := range p.Block().Preds {
				mark(q.Instrs[len(q.Instrs)-1])
				for _, c := range deps[q] {
					mark(c.Instrs[len(c.Instrs)-1])
				}
			}
		}
	}
	dead := map[ssa.Instruction]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.Call, *ssa.Extract:
				if !live[in] {
					dead[in] = true
				}
			case *ssa.If:
				if !live[in] && !ci.panicky[x.Block().Succs[0]] && !ci.panicky[x.Block().Succs[1]] {
					dead[in] = true
				}
			}
		}
	}
	return dead
}

// controlDeps: for each block, the blocks whose branch decides whether it runs.
func controlDeps(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// postdominators: pd[b] = blocks on every path from b to an exit
	pd := make([]map[int]bool, n)
	all := map[int]bool{}
	for i := range fn.Blocks {
		all[i] = true
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = map[int]bool{i: true}
		} else {
			pd[i] = all
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			m := map[int]bool{i: true}
			for k := range pd[b.Succs[0].Index] {
				in := true
				for _, s := range b.Succs[1:] {
					if !pd[s.Index][k] {
						in = false
					}
				}
				if in {
					m[k] = true
				}
			}
			if len(m) != len(pd[i]) {
				pd[i] = m
				changed = true
			}
		}
	}
	out := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for _, c := range fn.Blocks {
		if len(c.Succs) < 2 {
			continue
		}
		for _, b := range fn.Blocks {
			strict := b != c && pd[c.Index][b.Index]
			if strict {
				continue
			}
			for _, s := range c.Succs {
				if pd[s.Index][b.Index] {
					out[b] = append(out[b], c)
					break
				}
			}
		}
	}
	return out
}

// pureCall: the call does nothing but compute a value.
func pureCall(c *ssa.CallCommon, seen map[*ssa.Function]bool) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
	}
	f := c.StaticCallee()
	if f == nil || isFatal(c) {
		return false
	}
	if len(f.Blocks) == 0 || !strings.HasPrefix(fnName(f), "github.com/phil-mansfield") && !strings.HasPrefix(fnName(f), "(*github.com/phil-mansfield") {
		return strings.HasPrefix(fnName(f), "math.")
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.Call:
				if !pureCall(x.Common(), seen) {
					return false
				}
			case *ssa.Panic, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MapUpdate, *ssa.Select, *ssa.RunDefers:
				return false
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		_, ptr := x.X.(*ssa.Alloc)
		if ptr {
			return true
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return localAddr(fa)
		}
	}
	return false
}
