package main

// Value-graph construction: gated evaluation of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ev struct {
	prog    *ssa.Program
	l       *Loader
	panics  *T // condition (relative to the current region) of an explicit panic
	pc      *T // path condition of the current region relative to its start
	depth   int
	stack   []*ssa.Function
	cfg     map[*ssa.Function]*cfgInfo
	glob    map[string]*globInfo
	mutable map[*ssa.Global]bool
	world   *T
	steps   int
	fns     map[*ssa.Function]bool // functions analysed
	loops   int
	opaque  map[string]bool          // pure functions kept uninterpreted
	effects map[string][]int         // functions kept abstract, with the parameters they write
	want    map[string]bool          // names in directives not yet met
	models  map[string]*ssa.Function // functions replaced by a stand-in decided elsewhere
	inInit  bool
	deepPtr bool
	// contents of objects that package initialisation allocates
	initCells map[cellKey]*T
	files     map[int]*fileInfo // modelled files
	views     []*view           // slices recast as bytes
	tr        *tracer           // records memory accesses
}

func newEv(l *Loader) *Ev {
	e := &Ev{prog: l.Prog, l: l, panics: tFalse, pc: tTrue, cfg: map[*ssa.Function]*cfgInfo{},
		glob: map[string]*globInfo{}, fns: map[*ssa.Function]bool{}, opaque: map[string]bool{}, effects: map[string][]int{}, models: map[string]*ssa.Function{}, initCells: map[cellKey]*T{}, files: map[int]*fileInfo{}}
	e.world = mkObj("world", "w", nil)
	var all []*ssa.Function
	for _, p := range l.order {
		all = append(all, pkgFuncs(p)...)
	}
	e.mutable = mutableGlobals(all)
	return e
}

// pkgFuncs lists every source function of a package, closures included.
func pkgFuncs(p *Pkg) []*ssa.Function {
	var out []*ssa.Function
	var addF func(f *ssa.Function)
	addF = func(f *ssa.Function) {
		if f == nil {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			addF(a)
		}
	}
	var names []string
	for n := range p.SSA.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.SSA.Members[n].(type) {
		case *ssa.Function:
			addF(m)
		case *ssa.Type:
			t := m.Type()
			if nt, ok := t.(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					addF(p.SSA.Prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- control flow

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopT
	esc    []ssa.Value // values used outside
}

type cfgInfo struct {
	loops   map[*ssa.BasicBlock]*loopT // by header
	inner   map[*ssa.BasicBlock]*loopT // innermost loop of a block
	panicky map[*ssa.BasicBlock]bool
	rpo     []*ssa.BasicBlock
	dead    map[ssa.Instruction]bool // nothing observable depends on these
}

func (e *Ev) cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := e.cfg[fn]; ok {
		return c
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*loopT{}, inner: map[*ssa.BasicBlock]*loopT{}, panicky: map[*ssa.BasicBlock]bool{}}
	e.cfg[fn] = c
	// reverse post-order
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	var post []*ssa.BasicBlock
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	for _, b := range c.rpo {
		for _, l := range c.loops {
			if l.blocks[b] && (c.inner[b] == nil || len(l.blocks) < len(c.inner[b].blocks)) {
				c.inner[b] = l
			}
		}
	}
	for _, l := range c.loops {
		for _, m := range c.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
		for _, b := range c.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.esc = append(l.esc, v)
						break
					}
				}
			}
		}
	}
	// blocks that always end in a panic / fatal exit
	for i := len(c.rpo) - 1; i >= 0; i-- {
		b := c.rpo[i]
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok {
				c.panicky[b] = true
			}
			if call, ok := in.(*ssa.Call); ok && isFatal(call.Common()) {
				c.panicky[b] = true
			}
		}
		if !c.panicky[b] && len(b.Succs) > 0 {
			all := true
			for _, s := range b.Succs {
				if !c.panicky[s] {
					all = false
				}
			}
			if all {
				c.panicky[b] = true
			}
		}
	}
	c.dead = e.deadOf(fn, c)
	return c
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ""
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return f.String()
}

func isFatal(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf":
		return true
	}
	return false
}

// ---------------------------------------------------------------- frames

type Frame struct {
	fn     *ssa.Function
	ci     *cfgInfo
	env    map[ssa.Value]*T
	defers []deferred
}

type deferred struct {
	cond *T
	call *ssa.CallCommon
	args []*T
	fv   *T
}

type edge struct {
	from, to *ssa.BasicBlock
	cond     *T
	st       *State
	phis     []*T
	ret      bool
	vals     []*T
	snap     map[ssa.Value]*T
}

// call evaluates fn on the given arguments, updating st in place.
func (e *Ev) call(fn *ssa.Function, args, free []*T, st *State) []*T {
	if len(fn.Blocks) == 0 {
		fail("no body for %s", fn)
	}
	depth := 0
	for _, f := range e.stack {
		if f == fn {
			depth++
		}
	}
	if depth > 2 && e.stack[len(e.stack)-1] == fn && e.tr == nil {
		// a function that goes on calling itself: taken for a stop, which is a
		// difference wherever the reference goes on
		e.panics = or(e.panics, e.pc)
		out := make([]*T, fn.Signature.Results().Len())
		for i := range out {
			out[i] = tBot
		}
		return out
	}
	if depth > 2 {
		fail("recursion through %s", fn)
	}
	if len(e.stack) > 40 {
		fail("call depth")
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.fns[fn] = true
	fr := &Frame{fn: fn, ci: e.cfgOf(fn), env: map[ssa.Value]*T{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	savePC, saveP := e.pc, e.panics
	e.pc, e.panics = tTrue, tFalse
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.ci.rpo {
		all[b] = true
	}
	exits, _ := e.region(fr, all, nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], cond: tTrue, st: st}})
	e.pc = savePC
	e.panics = or(saveP, and(savePC, e.panics))
	if len(exits) == 0 {
		// never returns: unreachable afterwards
		n := fn.Signature.Results().Len()
		out := make([]*T, n)
		for i := range out {
			out[i] = tBot
		}
		return out
	}
	conds := make([]*T, len(exits))
	sts := make([]*State, len(exits))
	for i, x := range exits {
		conds[i], sts[i] = x.cond, x.st
	}
	m := e.mergeStates(conds, sts)
	st.cells = m.cells
	n := len(exits[0].vals)
	out := make([]*T, n)
	for i := 0; i < n; i++ {
		vs := make([]*T, len(exits))
		for j, x := range exits {
			vs[j] = x.vals[i]
		}
		out[i] = foldIte(conds, vs)
	}
	return out
}

// region evaluates the blocks of a region (a function body or one iteration of
// a loop) given the edges entering it.
func (e *Ev) region(fr *Frame, blocks map[*ssa.BasicBlock]bool, loop *loopT, entry *ssa.BasicBlock, in []edge) (exits, back []edge) {
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	route := func(ed edge) {
		if ed.cond == tFalse {
			return
		}
		switch {
		case ed.ret:
			exits = append(exits, ed)
		case loop != nil && ed.to == loop.header:
			back = append(back, ed)
		case !blocks[ed.to]:
			exits = append(exits, ed)
		default:
			pending[ed.to] = append(pending[ed.to], ed)
		}
	}
	for _, b := range e.topo(fr.ci, blocks, loop, entry) {
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		if l := fr.ci.loops[b]; l != nil && l != loop {
			for _, x := range e.loop(fr, l, ins) {
				route(x)
			}
			continue
		}
		for _, x := range e.block(fr, loop, b, ins) {
			route(x)
		}
	}
	return exits, back
}

// topo lists the nodes of a region in topological order, inner loops being
// represented by their headers.
func (e *Ev) topo(ci *cfgInfo, blocks map[*ssa.BasicBlock]bool, loop *loopT, entry *ssa.BasicBlock) []*ssa.BasicBlock {
	rep := func(b *ssa.BasicBlock) *ssa.BasicBlock {
		l := ci.inner[b]
		for l != nil && l != loop && l.parent != loop {
			l = l.parent
		}
		if l == nil || l == loop {
			return b
		}
		return l.header
	}
	succs := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		var out []*ssa.BasicBlock
		addS := func(s *ssa.BasicBlock) {
			if !blocks[s] || (loop != nil && s == loop.header) {
				return
			}
			out = append(out, rep(s))
		}
		if l := ci.loops[b]; l != nil && l != loop {
			for _, x := range ci.rpo {
				if !l.blocks[x] {
					continue
				}
				for _, s := range x.Succs {
					if !l.blocks[s] {
						addS(s)
					}
				}
			}
			return out
		}
		for _, s := range b.Succs {
			addS(s)
		}
		return out
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range succs(b) {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(entry)
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (e *Ev) merge(ins []edge) (cond *T, st *State, phis []*T) {
	cond = tFalse
	conds := make([]*T, len(ins))
	sts := make([]*State, len(ins))
	for i, x := range ins {
		cond = or(cond, x.cond)
		conds[i], sts[i] = x.cond, x.st
	}
	st = e.mergeStates(conds, sts)
	n := 0
	for _, x := range ins {
		if len(x.phis) > n {
			n = len(x.phis)
		}
	}
	for i := 0; i < n; i++ {
		vs := make([]*T, len(ins))
		for j, x := range ins {
			vs[j] = x.phis[i]
		}
		phis = append(phis, foldIte(conds, vs))
	}
	return
}

// block evaluates one basic block.
func (e *Ev) block(fr *Frame, loop *loopT, b *ssa.BasicBlock, ins []edge) []edge {
	cond, st, phis := e.merge(ins)
	if e.tr != nil {
		e.panics = tFalse
		if nodes(cond, 24) > 24 {
			cond = opaqueBool(freshSym(false, false, "b"))
		}
	}
	np := 0
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			fr.env[p] = phis[np]
			if e.tr != nil && phis[np].k == KIte {
				fr.env[p] = e.forget(phis[np], p.Type())
			}
			np++
		}
	}
	e.pc = cond
	toDead := fr.ci.dead
	if e.tr != nil {
		toDead = nil
	}
	mk := func(to *ssa.BasicBlock, c *T) edge {
		ed := edge{from: b, to: to, cond: c, st: st}
		idx := -1
		for i, p := range to.Preds {
			if p == b {
				idx = i
			}
		}
		// both successors may be the same block
		for _, in := range to.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				if toDead[p] {
					ed.phis = append(ed.phis, zeroVal(p.Type()))
					continue
				}
				ed.phis = append(ed.phis, e.val(fr, p.Edges[idx]))
			}
		}
		e.snapshot(fr, loop, &ed)
		return ed
	}
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > 400000 {
			fail("evaluation budget exceeded")
		}
		if toDead[in] {
			if _, ok := in.(*ssa.If); ok {
				return []edge{mk(b.Succs[0], cond)}
			}
			if v, ok := in.(ssa.Value); ok {
				if _, phi := in.(*ssa.Phi); !phi {
					if _, tup := v.Type().(*types.Tuple); tup {
						fr.env[v] = tBot
					} else {
						fr.env[v] = zeroVal(v.Type())
					}
				}
			}
			continue
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := e.val(fr, x.Cond)
			t, f := b.Succs[0], b.Succs[1]
			if t == f {
				fail("degenerate branch")
			}
			if c.k == KBot {
				// every path to here has already trapped
				return nil
			}
			pt, pf := fr.ci.panicky[t], fr.ci.panicky[f]
			switch {
			case pt && !pf:
				// assume the panic does not happen on the other side
				return []edge{mk(t, and(cond, c)), mk(f, cutFalse(cond, c, tFalse))}
			case pf && !pt:
				return []edge{mk(t, cutFalse(cond, c, tTrue)), mk(f, and(cond, not(c)))}
			}
			return []edge{mk(t, and(cond, c)), mk(f, and(cond, not(c)))}
		case *ssa.Jump:
			return []edge{mk(b.Succs[0], cond)}
		case *ssa.Return:
			ed := edge{from: b, cond: cond, st: st, ret: true}
			for _, r := range x.Results {
				ed.vals = append(ed.vals, e.val(fr, r))
			}
			e.snapshot(fr, loop, &ed)
			return []edge{ed}
		case *ssa.Panic:
			e.panics = or(e.panics, cond)
			return nil
		case *ssa.RunDefers:
			e.runDefers(fr, st)
		default:
			if call, ok := in.(*ssa.Call); ok && isFatal(call.Common()) {
				e.panics = or(e.panics, cond)
				return nil
			}
			e.instr(fr, in, st)
			e.pc = cond
		}
	}
	return nil
}

// cutFalse: the condition of the edge that survives when c has value bad
// leads to a panic.  If c is constant the edge may be dead.
func cutFalse(cond, c, good *T) *T {
	if c == tTrue || c == tFalse {
		if c == good {
			return cond
		}
		return tFalse
	}
	return cond
}

func (e *Ev) snapshot(fr *Frame, loop *loopT, ed *edge) {
	if loop == nil {
		return
	}
	if !ed.ret && loop.blocks[ed.to] {
		return
	}
	ed.snap = map[ssa.Value]*T{}
	for _, v := range loop.esc {
		if x, ok := fr.env[v]; ok {
			ed.snap[v] = x
		}
	}
}

func (e *Ev) runDefers(fr *Frame, st *State) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		s2 := st.clone()
		e.callCommon(fr, d.call, d.args, d.fv, s2)
		m := e.mergeStates([]*T{d.cond, not(d.cond)}, []*State{s2, st.clone()})
		st.cells = m.cells
	}
}

// val is the term of an SSA operand.
func (e *Ev) val(fr *Frame, v ssa.Value) *T {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constT(x)
	case *ssa.Global:
		return mkPtr(mkObj("glob", x.String(), x), "")
	case *ssa.Function:
		return mkClo(x, x.String(), nil)
	case *ssa.Builtin:
		return str("builtin:" + x.Name())
	}
	// defined in unreachable code
	return tBot
}

func constT(c *ssa.Const) *T {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		v := c.Value
		b, isB := c.Type().Underlying().(*types.Basic)
		if isB && b.Info()&types.IsInteger != 0 {
			v = constant.ToInt(v)
		}
		if r, ok := new(big.Rat).SetString(constant.ToFloat(v).ExactString()); ok {
			if v.Kind() == constant.Int {
				r2, ok2 := new(big.Rat).SetString(v.ExactString())
				if ok2 {
					return rat(r2)
				}
			}
			return rat(nearRat(r))
		}
	}
	fail("constant %s", c)
	return nil
}

func (e *Ev) instr(fr *Frame, in ssa.Instruction, st *State) {
	set := func(v ssa.Value, t *T) { fr.env[v] = t }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := newAlloc(x.Comment)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		// zeroed on every execution
		for _, l := range leavesOf(t) {
			e.readCell(st, o, l.path, l.typ)
		}
		set(x, mkPtr(o, ""))
	case *ssa.BinOp:
		r := e.binop(x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type())
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 || kindOf(x.Type()) == "b" && ok && b.Info()&types.IsInteger != 0 {
			r = e.forget(r, x.Type())
		}
		set(x, r)
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			e.touch(v, false, x.Pos())
			if r, ok := e.recast(fr, x, st); ok {
				set(x, r)
				break
			}
			set(x, e.forget(e.load(st, v, x.Type()), x.Type()))
		case token.SUB:
			if k := kindOf(x.Type()); k[0] == 'u' {
				n, _ := strconv.Atoi(k[1:])
				set(x, wrapT(n, neg(v)))
			} else {
				set(x, neg(v))
			}
		case token.ARROW:
			r, ok := e.receive(st, v, x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				r = tuple(r, ok)
			}
			set(x, r)
		case token.NOT:
			set(x, not(v))
		case token.XOR:
			set(x, bitop("not", x.Type(), v))
		default:
			fail("operator %s at %s", x.Op, e.l.pos(x.Pos()))
		}
	case *ssa.Call:
		args := make([]*T, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = e.val(fr, a)
		}
		fv := e.val(fr, x.Call.Value)
		rs := e.callCommon(fr, x.Common(), args, fv, st)
		if x.Call.Signature().Results().Len() == 1 {
			set(x, e.forget(rs[0], x.Type()))
		} else {
			set(x, e.forget(tuple(rs...), x.Type()))
		}
	case *ssa.ChangeInterface:
		set(x, e.val(fr, x.X))
	case *ssa.ChangeType:
		set(x, e.val(fr, x.X))
	case *ssa.Convert:
		set(x, e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		set(x, comp(e.val(fr, x.Tuple), x.Index))
	case *ssa.Field:
		set(x, comp(e.val(fr, x.X), x.Field))
	case *ssa.FieldAddr:
		p := e.val(fr, x.X)
		set(x, lift(func(l []*T) *T {
			p := l[0]
			if p.k == KNil || p.k == KBot {
				return tBot
			}
			if p.k != KPtr {
				fail("field of %s", show(p))
			}
			return mkPtr(p.args[0], p.aux+"."+strconv.Itoa(x.Field), p.args[1:]...)
		}, p))
	case *ssa.Index:
		a := e.val(fr, x.X)
		i := e.val(fr, x.Index)
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			if at.Len() <= smallArray {
				set(x, lift(func(l []*T) *T {
					if c, ok := intOf(l[1]); ok {
						if c < 0 || c >= at.Len() {
							return tBot
						}
						return l[0].args[c]
					}
					r := l[0].args[at.Len()-1]
					for c := at.Len() - 2; c >= 0; c-- {
						r = ite(numEq(l[1], num(c)), l[0].args[c], r)
					}
					return r
				}, a, i))
				return
			}
			if ls := leavesOf(at.Elem()); len(ls) == 1 && ls[0].path == "" {
				set(x, sel(comp(a, 0), i))
				return
			}
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			set(x, lift(func(l []*T) *T {
				if c, ok := intOf(l[1]); ok && l[0].k == KStr && c >= 0 && int(c) < len(l[0].aux) {
					return num(int64(l[0].aux[c]))
				}
				return anum(atom("uf", "strbyte#u8", true, true, true, l...))
			}, a, i))
			return
		}
		fail("index of %s at %s", x.X.Type(), e.l.pos(x.Pos()))
	case *ssa.IndexAddr:
		b := e.val(fr, x.X)
		i := e.val(fr, x.Index)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			// a known index out of range stops the program
			if oor := lift(func(l []*T) *T {
				c, ok := intOf(l[0])
				return boolT(ok && (c < 0 || c >= at.Len()))
			}, i); oor != tFalse {
				e.panics = or(e.panics, and(e.pc, oor))
			}
			set(x, indexPtr(b, at, i))
		} else {
			if b.k == KSlice {
				if oor := lift(func(l []*T) *T {
					c, ok := intOf(l[0])
					n, known := intOf(l[1])
					return boolT(ok && (c < 0 || known && c >= n))
				}, i, lenOf(b)); oor != tFalse {
					e.panics = or(e.panics, and(e.pc, oor))
				}
			}
			set(x, elemPtr(b, i))
		}
	case *ssa.MakeClosure:
		bs := make([]*T, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = e.val(fr, b)
		}
		f := x.Fn.(*ssa.Function)
		set(x, mkClo(f, f.String(), bs))
	case *ssa.MakeInterface:
		set(x, mkIface(types.TypeString(x.X.Type(), nil), x.X.Type(), e.val(fr, x.X)))
	case *ssa.MakeSlice:
		elem := x.Type().Underlying().(*types.Slice).Elem()
		s := e.makeSlice(st, elem, e.val(fr, x.Len), nil)
		if x.Cap == x.Len {
			set(x, s)
			break
		}
		set(x, lift(func(l []*T) *T {
			if l[0].k != KSlice {
				return l[0]
			}
			return mkSlice(l[0].args[0], "", pZero, l[0].args[2], l[1])
		}, s, e.val(fr, x.Cap)))
	case *ssa.Slice:
		set(x, e.slice(st, x, fr))
	case *ssa.Store:
		e.touch(e.val(fr, x.Addr), true, x.Pos())
		e.storeTo(st, e.val(fr, x.Addr), x.Val.Type(), e.val(fr, x.Val))
	case *ssa.TypeAssert:
		set(x, e.typeAssert(x, e.val(fr, x.X)))
	case *ssa.Defer:
		args := make([]*T, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = e.val(fr, a)
		}
		fr.defers = append(fr.defers, deferred{e.pc, x.Common(), args, e.val(fr, x.Call.Value)})
	case *ssa.MakeChan:
		o := newAlloc("chan")
		e.writeCell(st, o, "queue", types.Typ[types.UnsafePointer], tuple())
		set(x, mkPtr(o, ""))
		e.traceMake(o, e.val(fr, x.Size))
	case *ssa.Send:
		q := e.queueOf(st, e.val(fr, x.Chan))
		e.traceSend(q, st, x.Pos())
		e.writeCell(st, q, "queue", types.Typ[types.UnsafePointer],
			tuple(append(append([]*T{}, st.cells[cellKey{q.id, "queue"}].args...), e.val(fr, x.X))...))
	case *ssa.Go:
		// run to its end at once: C08 decides that every schedule gives the
		// same result
		args := make([]*T, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = e.val(fr, a)
		}
		fv := e.val(fr, x.Call.Value)
		if e.tr != nil {
			var free []*T
			if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					free = append(free, e.val(fr, b))
				}
			}
			e.startGo(x.Pos(), st, func(st *State) {
				if f := x.Call.StaticCallee(); f != nil {
					e.callFn(f, x.Common(), args, free, st)
					return
				}
				e.callCommon(nil, x.Common(), args, fv, st)
			})
			return
		}
		e.callCommon(fr, x.Common(), args, fv, st)
	case *ssa.MakeMap, *ssa.MapUpdate, *ssa.Lookup, *ssa.Range, *ssa.Next:
		e.mapInstr(fr, in, st)
	default:
		fail("unsupported %T at %s", in, e.l.pos(in.Pos()))
	}
}

func (e *Ev) slice(st *State, x *ssa.Slice, fr *Frame) *T {
	b := e.val(fr, x.X)
	lo := pZero
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	var hi, mx *T
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if x.Max != nil {
		mx = e.val(fr, x.Max)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := num(at.Len())
		if hi == nil {
			hi = n
		}
		return lift(func(l []*T) *T {
			p := l[0]
			if p.k != KPtr {
				return tBot
			}
			if at.Len() <= smallArray {
				if len(p.args) > 1 {
					fail("slice of a small array inside an array at %s", e.l.pos(x.Pos()))
				}
				return mkSlice(p.args[0], p.aux+"!"+strconv.FormatInt(at.Len(), 10), l[1], sub(l[2], l[1]), sub(n, l[1]))
			}
			off := l[1]
			if len(p.args) > 1 {
				off = add(off, mul(p.args[1], n))
			}
			return mkSlice(p.args[0], p.aux, off, sub(l[2], l[1]), sub(n, l[1]))
		}, b, lo, hi)
	case *types.Slice:
		// known bounds out of range stop the program
		bounds := []*T{b, lo}
		for _, v := range []*T{hi, mx} {
			if v != nil {
				bounds = append(bounds, v)
			}
		}
		if oor := lift(func(l []*T) *T {
			if l[0].k != KSlice {
				return tFalse
			}
			if hi == nil {
				l = append(append([]*T(nil), l...), l[0].args[2])
			}
			last := int64(0)
			for _, v := range append(append([]*T(nil), l[1:]...), l[0].args[3]) {
				n, ok := intOf(v)
				if !ok {
					continue
				}
				if n < last {
					return tTrue
				}
				last = n
			}
			return tFalse
		}, bounds...); oor != tFalse {
			e.panics = or(e.panics, and(e.pc, oor))
		}
		return lift(func(l []*T) *T {
			s := l[0]
			if s.k == KNil || s.k == KBot {
				return s
			}
			if s.k != KSlice {
				fail("slice of %s", show(s))
			}
			h := s.args[2]
			if hi != nil {
				h = hi
			}
			c := s.args[3]
			if mx != nil {
				c = mx
			}
			return mkSlice(s.args[0], s.aux, add(s.args[1], l[1]), sub(h, l[1]), sub(c, l[1]))
		}, b, lo)
	case *types.Basic: // string
		if hi == nil {
			hi = lenOf(b)
		}
		return lift(func(l []*T) *T {
			a, ok1 := intOf(l[1])
			c, ok2 := intOf(l[2])
			if l[0].k == KStr && ok1 && ok2 && a >= 0 && a <= c && int(c) <= len(l[0].aux) {
				return str(l[0].aux[a:c])
			}
			return atom("uf", "substr", false, false, false, l...)
		}, b, lo, hi)
	}
	fail("slice at %s", e.l.pos(x.Pos()))
	return nil
}

func (e *Ev) typeAssert(x *ssa.TypeAssert, v *T) *T {
	res := func(val, ok *T) *T {
		if x.CommaOk {
			return tuple(val, ok)
		}
		return val
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	return lift(func(l []*T) *T {
		v := l[0]
		switch v.k {
		case KIface:
			dt := v.ref.(types.Type)
			if toIface {
				if types.Implements(dt, x.AssertedType.Underlying().(*types.Interface)) {
					return res(v, tTrue)
				}
				return res(tNil, tFalse)
			}
			if types.Identical(dt, x.AssertedType) {
				return res(v.args[0], tTrue)
			}
			if x.CommaOk {
				return res(zeroVal(x.AssertedType), tFalse)
			}
			return tBot
		case KNil:
			if x.CommaOk {
				return res(zeroVal(x.AssertedType), tFalse)
			}
			return tBot
		case KAtom:
			tn := types.TypeString(x.AssertedType, nil)
			ty := atom("typeof", "", false, false, false, v)
			val := v
			if !toIface {
				val = symval(x.AssertedType, "dyn", "<"+tn+">", v)
			}
			if x.CommaOk {
				c := eqConst(ty, tn)
				return tuple(ite(c, val, zeroVal(x.AssertedType)), c)
			}
			return val
		}
		return tBot
	}, v)
}

func (e *Ev) binop(op token.Token, a, b *T, t types.Type) *T {
	k := kindOf(t)
	bits := 0
	if k[0] == 'u' {
		bits, _ = strconv.Atoi(k[1:])
	}
	wr := func(x *T) *T {
		if bits > 0 {
			return wrapT(bits, x)
		}
		return x
	}
	isStr := false
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	switch op {
	case token.ADD:
		if isStr {
			return concat(a, b)
		}
		return wr(add(a, b))
	case token.SUB:
		return wr(sub(a, b))
	case token.MUL:
		return wr(mul(a, b))
	case token.QUO:
		if k == "f" {
			return div(a, b)
		}
		return idiv(a, b)
	case token.REM:
		return irem(a, b)
	case token.EQL:
		return equalT(a, b)
	case token.NEQ:
		return not(equalT(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			return lift(func(l []*T) *T {
				switch op {
				case token.LSS:
					return opaqueBool(atom("uf", "strlt", false, false, false, l[0], l[1]))
				case token.GEQ:
					return not(opaqueBool(atom("uf", "strlt", false, false, false, l[0], l[1])))
				case token.GTR:
					return opaqueBool(atom("uf", "strlt", false, false, false, l[1], l[0]))
				default:
					return not(opaqueBool(atom("uf", "strlt", false, false, false, l[1], l[0])))
				}
			}, a, b)
		}
		switch op {
		case token.LSS:
			return less(a, b)
		case token.LEQ:
			return lessEq(a, b)
		case token.GTR:
			return less(b, a)
		}
		return lessEq(b, a)
	case token.SHL:
		return lift(func(l []*T) *T {
			if n, ok := intOf(l[1]); ok && n >= 0 && n < 128 {
				r := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
				if bits == 0 {
					if c, isC := constOf(l[0]); isC {
						return rat(new(big.Rat).Mul(c, r))
					}
				}
				if bits > 0 {
					return wrapT(bits, polyScale(needPoly(l[0]), r))
				}
				return polyScale(needPoly(l[0]), r)
			}
			return bitop("shl", t, l...)
		}, a, b)
	case token.SHR:
		return lift(func(l []*T) *T {
			if n, ok := intOf(l[1]); ok && n >= 0 && n < 128 && (bits > 0 || nonNeg(l[0])) {
				d := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
				return idiv(l[0], rat(d))
			}
			return bitop("shr", t, l...)
		}, a, b)
	case token.AND:
		return bitop("and", t, a, b)
	case token.OR:
		return bitop("or", t, a, b)
	case token.XOR:
		return bitop("xor", t, a, b)
	case token.AND_NOT:
		return bitop("andnot", t, a, b)
	}
	fail("operator %s", op)
	return nil
}

// bitop: bit operations are uninterpreted, up to commutativity and constants.
func bitop(name string, t types.Type, a ...*T) *T {
	k := kindOf(t)
	if k == "b" {
		switch name {
		case "and":
			return and(a[0], a[1])
		case "or":
			return or(a[0], a[1])
		}
	}
	return lift(func(l []*T) *T {
		all := true
		var cs []*big.Int
		for _, x := range l {
			c, ok := constOf(x)
			if !ok || !c.IsInt() {
				all = false
				break
			}
			cs = append(cs, new(big.Int).Set(c.Num()))
		}
		bits := 64
		if k[0] == 'u' {
			bits, _ = strconv.Atoi(k[1:])
		}
		if all {
			r := new(big.Int)
			ok := true
			switch name {
			case "and":
				r.And(cs[0], cs[1])
			case "or":
				r.Or(cs[0], cs[1])
			case "xor":
				r.Xor(cs[0], cs[1])
			case "andnot":
				r.AndNot(cs[0], cs[1])
			case "not":
				if k[0] == 'u' {
					m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
					r.Xor(cs[0], m)
				} else {
					r.Not(cs[0])
				}
			case "shl":
				r.Lsh(cs[0], uint(cs[1].Int64()))
				if k[0] == 'u' {
					r.Mod(r, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
				}
			case "shr":
				r.Rsh(cs[0], uint(cs[1].Int64()))
			default:
				ok = false
			}
			if ok {
				return rat(new(big.Rat).SetInt(r))
			}
		}
		if (name == "and" || name == "or" || name == "xor") && l[0].id > l[1].id {
			l = []*T{l[1], l[0]}
		}
		if name == "and" || name == "or" {
			if l[0] == l[1] {
				return l[0]
			}
		}
		if name == "xor" && l[0] == l[1] {
			return pZero
		}
		if (name == "or" || name == "xor" || name == "shl" || name == "shr") && l[1] == pZero {
			return l[0]
		}
		if (name == "or" || name == "xor") && l[0] == pZero {
			return l[1]
		}
		aux := name
		if k[0] == 'u' {
			aux += "#" + k
		}
		return anum(atom("bit", aux, true, true, k[0] == 'u', l...))
	}, a...)
}

func concat(a, b *T) *T {
	return lift(func(l []*T) *T {
		parts := func(t *T) []*T {
			if t.k == KAtom && t.op == "concat" {
				return t.args
			}
			return []*T{t}
		}
		var out []*T
		for _, p := range append(append([]*T(nil), parts(l[0])...), parts(l[1])...) {
			if p.k == KStr {
				if p.aux == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].k == KStr {
					out[n-1] = str(out[n-1].aux + p.aux)
					continue
				}
			}
			out = append(out, p)
		}
		if len(out) == 0 {
			return str("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return atom("concat", "", false, false, false, out...)
	}, a, b)
}

func (e *Ev) convert(st *State, v *T, from, to types.Type) *T {
	fk, tk := kindOf(from), kindOf(to)
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		switch {
		case tk == "f":
			return v
		case fk == "f":
			r := truncT(v)
			return e.narrow(r, 64, true, tb)
		default:
			return e.narrow(v, basicBits(fb), fk == "i", tb)
		}
	}
	if fok && tok && tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0 {
		return v
	}
	if fok && tok && tb.Info()&types.IsString != 0 {
		return lift(func(l []*T) *T { return atom("uf", "runestr", false, false, false, l[0]) }, v)
	}
	if tok && tb.Info()&types.IsString != 0 {
		// []byte -> string
		el := from.Underlying().(*types.Slice).Elem()
		return lift(func(l []*T) *T {
			return atom("uf", "bytestr", false, false, false, e.elemArr(st, l[0], el, leaf{"", el}), lenOf(l[0]))
		}, v)
	}
	if fok && fb.Info()&types.IsString != 0 {
		el := to.Underlying().(*types.Slice).Elem()
		return lift(func(l []*T) *T {
			s := l[0]
			return e.makeSlice(st, el, lenOf(s), func(leaf) *T {
				if s.k == KStr {
					return mkLamF(func(j *T) *T {
						r := pZero
						for i := len(s.aux) - 1; i >= 0; i-- {
							r = ite(numEq(j, num(int64(i))), num(int64(s.aux[i])), r)
						}
						return r
					})
				}
				return mkLamF(func(j *T) *T {
					return anum(atom("uf", "strbyte#u8", true, true, true, s, j))
				})
			})
		}, v)
	}
	return v // pointer and named-type conversions
}

// narrow converts an integer between machine types.
func (e *Ev) narrow(v *T, fromBits int, fromSigned bool, tb *types.Basic) *T {
	bits := basicBits(tb)
	uns := tb.Info()&types.IsUnsigned != 0
	return lift(func(l []*T) *T {
		p := needPoly(l[0])
		if c, ok := constOf(p); ok && c.IsInt() {
			m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
			n := new(big.Int).Set(c.Num())
			if uns {
				n.Mod(n, m)
			} else {
				h := new(big.Int).Rsh(m, 1)
				n.Add(n, h).Mod(n, m).Sub(n, h)
			}
			return rat(new(big.Rat).SetInt(n))
		}
		if uns {
			return wrapT(bits, p)
		}
		if fromSigned && bits >= fromBits || !fromSigned && bits > fromBits {
			return p
		}
		if !fromSigned && bits == fromBits && bits == 64 {
			return p // values above 2^63 are outside the model
		}
		if fromSigned && fromBits == 64 && bits == 64 {
			return p
		}
		return anum(atom("conv", "i"+strconv.Itoa(bits), true, true, nonNeg(p), p))
	}, v)
}

func (e *Ev) queueOf(st *State, ch *T) *T {
	if ch.k != KPtr || ch.args[0].op != "alloc" {
		fail("channel %s", show(ch))
	}
	o := ch.args[0]
	q, ok := st.cells[cellKey{o.id, "queue"}]
	if !ok || q.k != KTuple {
		fail("the content of a channel is not known")
	}
	return o
}

func (e *Ev) receive(st *State, ch *T, t types.Type) (*T, *T) {
	o := e.queueOf(st, ch)
	q := st.cells[cellKey{o.id, "queue"}]
	for len(q.args) == 0 && e.runPending(st) {
		q = st.cells[cellKey{o.id, "queue"}]
	}
	if len(q.args) == 0 {
		if c, ok := st.cells[cellKey{o.id, "closed"}]; ok && c == tTrue {
			e.traceReceive(o)
			return zeroVal(t), tFalse
		}
		if e.tr != nil {
			e.tr.report("a receive waits for ever: nothing is left to send to the channel")
		}
		fail("receive from an empty channel")
	}
	e.writeCell(st, o, "queue", types.Typ[types.UnsafePointer], tuple(q.args[1:]...))
	e.traceReceive(o)
	return q.args[0], tTrue
}

// Maps made here are lists of keys and values; other maps can be looked up.
func (e *Ev) mapInstr(fr *Frame, in ssa.Instruction, st *State) {
	ptr := types.Typ[types.UnsafePointer]
	entries := func(m *T) (*T, *T) {
		if m.k == KPtr && m.args[0].op == "alloc" {
			if q, ok := st.cells[cellKey{m.args[0].id, "map"}]; ok && (q.k == KTuple || q.k == KIte) {
				return m.args[0], q
			}
		}
		return nil, nil
	}
	switch x := in.(type) {
	case *ssa.MakeMap:
		o := newAlloc("map")
		e.writeCell(st, o, "map", ptr, tuple())
		fr.env[x] = mkPtr(o, "")
		return
	case *ssa.Range:
		e.touch(e.val(fr, x.X), false, x.Pos())
		// entries are visited in the order they were made: one of the orders
		// the language allows
		if o, q := entries(e.val(fr, x.X)); o != nil {
			it := newAlloc("range")
			e.writeCell(st, it, "map", ptr, q)
			e.writeCell(st, it, "pos", types.Typ[types.Int], pZero)
			fr.env[x] = mkPtr(it, "")
			return
		}
	case *ssa.Next:
		if x.IsString {
			break
		}
		it := e.val(fr, x.Iter)
		o, q := entries(it)
		if o == nil {
			break
		}
		at := e.readCell(st, o, "pos", types.Typ[types.Int])
		n, ok := intOf(at)
		if !ok {
			break
		}
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		entry := func(i int, zero *T) *T {
			return lift(func(l []*T) *T {
				if j := 2*int(n) + i; j < len(l[0].args) {
					return l[0].args[j]
				}
				return zero
			}, q)
		}
		more := lift(func(l []*T) *T {
			for i := 0; i < len(l[0].args); i += 2 {
				for j := 0; j < i; j += 2 {
					if equalT(l[0].args[i], l[0].args[j]) != tFalse {
						fail("map keys that may be equal at %s", e.l.pos(in.Pos()))
					}
				}
			}
			return boolT(2*int(n) < len(l[0].args))
		}, q)
		e.writeCell(st, o, "pos", types.Typ[types.Int], num(n+1))
		fr.env[x] = tuple(more, entry(0, zeroVal(mt.Key())), entry(1, zeroVal(mt.Elem())))
		return
	case *ssa.MapUpdate:
		e.touch(e.val(fr, x.Map), true, x.Pos())
		o, q := entries(e.val(fr, x.Map))
		if o != nil {
			k, v := e.val(fr, x.Key), e.val(fr, x.Value)
			e.writeCell(st, o, "map", ptr, lift(func(l []*T) *T {
				for i := 0; i+1 < len(l[0].args); i += 2 {
					if equalT(k, l[0].args[i]) == tTrue {
						c := append([]*T{}, l[0].args...)
						c[i+1] = v
						return tuple(c...)
					}
				}
				return tuple(append(append([]*T{}, l[0].args...), k, v)...)
			}, q))
			return
		}
	case *ssa.Lookup:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			break
		}
		m, key := e.val(fr, x.X), e.val(fr, x.Index)
		e.touch(m, false, x.Pos())
		v, has := zeroVal(mt.Elem()), tFalse
		if o, q := entries(m); o != nil {
			find := func(q *T) (*T, *T) {
				v, has := v, has
				for i := 0; i+1 < len(q.args); i += 2 {
					c := equalT(key, q.args[i])
					v = ite(c, q.args[i+1], v)
					has = or(has, c)
				}
				return v, has
			}
			var rec func(q *T) (*T, *T)
			rec = func(q *T) (*T, *T) {
				if q.k != KIte {
					return find(q)
				}
				hv, hh := rec(q.args[0])
				lv, lh := rec(q.args[1])
				return iteVar(q.v, hv, lv), iteVar(q.v, hh, lh)
			}
			v, has = rec(q)
		} else if m.k == KAtom {
			v = symval(mt.Elem(), "uf", "map:value", m, key)
			has = symval(types.Typ[types.Bool], "uf", "map:has", m, key)
		} else if m.k != KNil {
			break
		}
		if x.CommaOk {
			v = tuple(v, has)
		}
		fr.env[x] = v
		return
	}
	fail("map operation at %s", e.l.pos(in.Pos()))
}

// globalCell gives the initial content of a global that nothing outside
// package initialisation writes.
func (e *Ev) globalCell(obj *T, path string, typ types.Type) (*T, bool) {
	g, ok := obj.ref.(*ssa.Global)
	if !ok || g.Pkg == nil || e.mutable[g] {
		return nil, false
	}
	if e.inInit {
		z := zeroVal(typ)
		if strings.Contains(path, "[]") {
			return mkLamF(func(*T) *T { return z }), true
		}
		return z, true
	}
	gi, ok := e.glob[g.Pkg.Pkg.Path()]
	if !ok {
		gi = &globInfo{}
		e.glob[g.Pkg.Pkg.Path()] = gi
		e.runInit(g.Pkg, gi)
	}
	if !gi.ok {
		return nil, false
	}
	if v, ok := gi.state.cells[cellKey{obj.id, path}]; ok {
		return v, true
	}
	z := zeroVal(typ)
	if strings.Contains(path, "[]") {
		return mkLamF(func(*T) *T { return z }), true
	}
	return z, true
}

func (e *Ev) runInit(p *ssa.Package, gi *globInfo) {
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	saveP, savePC, saveS := e.panics, e.pc, e.stack
	e.inInit = true
	defer func() {
		e.inInit = false
		e.panics, e.pc, e.stack = saveP, savePC, saveS
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
			gi.ok = false
		}
	}()
	e.stack = nil
	st := newState()
	e.panics, e.pc = tFalse, tTrue
	e.call(f, nil, nil, st)
	for k, v := range st.cells {
		if cellInfos[k].obj.op == "alloc" {
			e.initCells[k] = v
		}
	}
	gi.state = st
	gi.ok = true
}

var _ = fmt.Sprint
