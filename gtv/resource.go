package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- files are closed

// opens: the result of the call that is an open file, -1 if none.
func (fl *flow) opens(c *ssa.CallCommon) int {
	f := c.StaticCallee()
	if f == nil {
		return -1
	}
	switch f.String() {
	case "os.Open", "os.Create", "os.OpenFile":
		return 0
	}
	if fl.mine[f] {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if fl.resMemo[f][i] {
				return i
			}
		}
	}
	return -1
}

type resWalk struct {
	fl     *flow
	fn     *ssa.Function
	call   ssa.Instruction
	err    ssa.Value
	seen   map[string]bool
	why    string
	at     token.Pos
	source map[int]bool // result positions through which the file leaves
	n      int
}

// rset: values that are the file or own it, and its state.
type rset struct {
	a       aliasSet
	errs    aliasSet // the error returned with it, known nil on this path if empty
	closed  bool
	defered bool
	escaped bool
}

func (r rset) key() string {
	return fmt.Sprint(r.a.key(), "|", r.errs.key(), r.closed, r.defered, r.escaped)
}

func (r rset) clone() rset {
	r.a, r.errs = r.a.clone(), r.errs.clone()
	return r
}

func (w *resWalk) fail(pos token.Pos, s string) {
	if w.why == "" {
		w.why, w.at = s, pos
	}
}

// closesArg: f closes its i-th parameter on every path that returns.
func (fl *flow) closesArg(f *ssa.Function, i int) bool {
	k := argKey{f, -1 - i}
	if s, ok := fl.argState[k]; ok {
		return s == 1
	}
	fl.argState[k] = 0
	if i >= len(f.Params) || len(f.Blocks) == 0 {
		return false
	}
	all, rets := true, 0
	w := &resWalk{fl: fl, fn: f, seen: map[string]bool{}, source: map[int]bool{}}
	w.walk(f.Blocks[0], 0, nil, rset{a: aliasSet{f.Params[i]: true}, errs: aliasSet{}}, func(r *ssa.Return, s rset) {
		rets++
		all = all && (s.closed || s.defered)
	})
	if all && rets > 0 {
		fl.argState[k] = 1
	}
	return fl.argState[k] == 1
}

func isClose(c *ssa.CallCommon, a aliasSet) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Close" && a[c.Value]
	}
	f := c.StaticCallee()
	return f != nil && f.Name() == "Close" && len(c.Args) > 0 && a[c.Args[0]]
}

// closes: the call (or deferred call) closes the file.
func (w *resWalk) closes(c *ssa.CallCommon, a aliasSet) bool {
	if isClose(c, a) {
		return true
	}
	f := c.StaticCallee()
	if f == nil || !w.fl.mine[f] {
		return false
	}
	for i, arg := range c.Args {
		if a[arg] && w.fl.closesArg(f, i) {
			return true
		}
	}
	// a closure that closes what it captured
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if !a[b] || i >= len(f.FreeVars) {
				continue
			}
			// the captured variable holds the file
			sub := aliasSet{f.FreeVars[i]: true}
			for _, blk := range f.Blocks {
				for _, in := range blk.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && sub[u.X] {
						sub[u] = true
					}
					if ci, ok := in.(ssa.CallInstruction); ok && isClose(ci.Common(), sub) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *resWalk) walk(b *ssa.BasicBlock, i int, from *ssa.BasicBlock, s rset, ret func(*ssa.Return, rset)) {
	if from != nil {
		n := s.clone()
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(n.a, p)
			delete(n.errs, p)
			for j, pr := range b.Preds {
				if pr == from {
					if s.a[p.Edges[j]] {
						n.a[p] = true
					}
					if s.errs[p.Edges[j]] {
						n.errs[p] = true
					}
				}
			}
		}
		s = n
		k := fmt.Sprintf("%d|%d|%s", from.Index, b.Index, s.key())
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	ew := &errWalk{fl: w.fl}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		w.n++
		if in == w.call {
			if !s.closed && !s.defered && !s.escaped {
				w.fail(in.Pos(), "the loop opens the next file with this one still open")
			}
			return
		}
		if w.fl.stops(in) {
			return
		}
		switch x := in.(type) {
		case *ssa.Defer:
			if w.closes(&x.Call, s.a) {
				s.defered = true
			}
		case *ssa.Call:
			if w.closes(&x.Call, s.a) {
				s.closed = true
				continue
			}
			if s.closed && !s.escaped {
				for _, arg := range x.Call.Args {
					if s.a[arg] {
						w.fail(in.Pos(), "the file is used after it is closed")
						return
					}
				}
			}
			// wrappers: bufio.NewReader(f) and the like keep using the file but do not own it
		case *ssa.MakeInterface:
			if s.a[x.X] {
				s = s.clone()
				s.a[x] = true
			}
		case *ssa.ChangeInterface:
			if s.a[x.X] {
				s = s.clone()
				s.a[x] = true
			}
		case *ssa.ChangeType:
			if s.a[x.X] {
				s = s.clone()
				s.a[x] = true
			}
		case *ssa.Store:
			if s.a[x.Val] {
				s = s.clone()
				s.a[x.Addr] = true
				switch ad := x.Addr.(type) {
				case *ssa.FieldAddr:
					s.a[ad.X] = true // the structure owns it
				case *ssa.IndexAddr:
					s.a[ad.X] = true
				case *ssa.Global:
					s.escaped = true
				case *ssa.FreeVar:
					s.escaped = true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && s.a[x.X] {
				s = s.clone()
				s.a[x] = true
			}
		case *ssa.Send:
			if s.a[x.X] {
				s.escaped = true
			}
		case *ssa.MapUpdate:
			if s.a[x.Value] {
				s.escaped = true
			}
		case *ssa.Go:
			for _, arg := range x.Call.Args {
				if s.a[arg] {
					s.escaped = true
				}
			}
		case *ssa.Return:
			for j, v := range x.Results {
				if s.a[v] {
					w.source[j] = true
					s.escaped = true
				}
			}
			ret(x, s)
			return
		case *ssa.If:
			// the path on which opening failed owns nothing
			c := ew.cond(x.Cond, s.errs)
			t, e := b.Succs[0], b.Succs[1]
			if c == 1 {
				t, e = e, t
			}
			if c >= 0 {
				n := s.clone()
				n.errs = aliasSet{}
				w.walk(t, 0, b, n, ret) // error is nil
				_ = e                   // error is not nil: no file
				return
			}
			w.walk(b.Succs[0], 0, b, s, ret)
			w.walk(b.Succs[1], 0, b, s, ret)
			return
		}
	}
	for _, n := range b.Succs {
		w.walk(n, 0, b, s, ret)
	}
}

func (fl *flow) checkOpen(fn *ssa.Function, in *ssa.Call, res int) *resWalk {
	w := &resWalk{fl: fl, fn: fn, call: in, seen: map[string]bool{}, source: map[int]bool{}}
	sig := in.Call.Signature()
	s := rset{a: aliasSet{}, errs: aliasSet{}}
	if sig.Results().Len() == 1 {
		s.a[in] = true
	} else {
		for _, r := range *in.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok {
				if ex.Index == res {
					s.a[ex] = true
				} else if isErr(ex.Type()) {
					s.errs[ex] = true
				}
			}
		}
	}
	if len(s.a) == 0 {
		w.fail(in.Pos(), "the open file is discarded")
		return w
	}
	idx := 0
	for i, x := range in.Block().Instrs {
		if x == ssa.Instruction(in) {
			idx = i + 1
		}
	}
	w.walk(in.Block(), idx, nil, s, func(r *ssa.Return, s rset) {
		if !s.closed && !s.defered && !s.escaped {
			w.fail(r.Pos(), "a path returns with the file open")
		} else if s.closed && s.escaped {
			for _, v := range r.Results {
				if s.a[v] {
					w.fail(r.Pos(), "a closed file is returned")
				}
			}
		}
	})
	return w
}

func hasClose(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	_, ok := o.(*types.Func)
	return ok
}

func extraC07(c *Ctx) {
	fl := newFlow(c.l)
	fl.resMemo = map[*ssa.Function]map[int]bool{}
	rule := "an opened file is closed, or handed on, on every path that returns"
	// functions that hand an open file to their caller are sources themselves
	for round := 0; round < 6; round++ {
		n := 0
		for _, fn := range fl.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					res := fl.opens(&x.Call)
					if res < 0 {
						continue
					}
					w := fl.checkOpen(fn, x, res)
					for j := range w.source {
						if fl.resMemo[fn] == nil {
							fl.resMemo[fn] = map[int]bool{}
						}
						if !fl.resMemo[fn][j] {
							fl.resMemo[fn][j] = true
							n++
						}
					}
				}
			}
		}
		if n == 0 {
			break
		}
	}
	steps := 0
	var sources []string
	for _, fn := range fl.fns {
		if fl.resMemo[fn] != nil {
			sources = append(sources, strings.TrimPrefix(fn.String(), modPath+"/"))
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				res := fl.opens(ci.Common())
				if res < 0 {
					continue
				}
				what := fmt.Sprintf("%s: %s", fn.String(), callName(ci.Common()))
				where := c.l.pos(ci.Pos())
				x, ok := in.(*ssa.Call)
				if !ok {
					c.bad(rule, what, where, "the file is opened by defer or go")
					continue
				}
				w := fl.checkOpen(fn, x, res)
				steps += w.n
				if w.why == "" {
					c.good(rule, what, where)
				} else {
					c.bad(rule, what, where, "%s (%s)", w.why, c.l.pos(w.at))
				}
			}
		}
	}
	// a structure's Close closes every file it holds
	for _, p := range c.l.order {
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var m *ssa.Function
			if sel := types.NewMethodSet(types.NewPointer(tn.Type())).Lookup(p.Types, "Close"); sel != nil {
				m = c.l.Prog.MethodValue(sel)
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Type().String() != "*os.File" {
					continue
				}
				what := fmt.Sprintf("%s.%s", tn.Name(), st.Field(i).Name())
				where := c.l.pos(st.Field(i).Pos())
				r2 := "the Close method of a structure closes every file in it"
				if m == nil {
					c.bad(r2, what, where, "%s has no Close method", tn.Name())
				} else if why := fl.fieldClosed(m, i); why != "" {
					c.bad(r2, what, where, "%s", why)
				} else {
					c.good(r2, what, where)
				}
			}
		}
	}
	c.extra["functions_scanned"] = len(fl.fns)
	c.extra["functions_returning_open_files"] = sources
	c.extra["instructions_walked"] = steps
}

// fieldClosed follows every returning path of a Close method: the file in field
// i is closed unless it was found to be nil.
func (fl *flow) fieldClosed(m *ssa.Function, i int) string {
	why := ""
	seen := map[string]bool{}
	loads := aliasSet{}
	for _, b := range m.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == i && len(m.Params) > 0 && fa.X == m.Params[0] {
					loads[u] = true
				}
			}
		}
	}
	w := &resWalk{fl: fl, fn: m}
	ew := &errWalk{fl: fl}
	var walk func(b *ssa.BasicBlock, closed bool)
	walk = func(b *ssa.BasicBlock, closed bool) {
		k := fmt.Sprint(b.Index, closed)
		if seen[k] {
			return
		}
		seen[k] = true
		for _, in := range b.Instrs {
			if fl.stops(in) {
				return
			}
			switch x := in.(type) {
			case *ssa.Call:
				closed = closed || w.closes(&x.Call, loads)
			case *ssa.Defer:
				closed = closed || w.closes(&x.Call, loads)
			case *ssa.Return:
				if !closed && why == "" {
					why = "a path of Close returns with the file open (" + fl.l.pos(x.Pos()) + ")"
				}
				return
			case *ssa.If:
				if c := ew.cond(x.Cond, loads); c >= 0 { // the branch taken when it is not nil
					walk(b.Succs[1-c], closed)
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, closed)
		}
	}
	walk(m.Blocks[0], false)
	return why
}
