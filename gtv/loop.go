package main

// Loops: unrolling of short constant loops, closed forms for induction
// variables, accumulations and array comprehensions, and canonical recurrences
// for the rest.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 64

var debugLoops = os.Getenv("GTV_DEBUG") != ""

// lv is one scalar or array component of the loop state.
type lv struct {
	key    string   // phi / cell component
	cell   *cellKey // memory component
	phi    int      // header phi index (-1 for cells)
	sub    []int    // component of a tuple-valued phi
	typ    types.Type
	isArr  bool
	kind   string // num, bool, arr, ref
	sym    *T     // symbol atom
	init   *T
	step   *T
	form   func(k *T) *T // closed form, nil while unsolved
	solved bool
	idx    *T // for "ref" slices in owned mode: nil
}

func (e *Ev) loop(fr *Frame, L *loopT, ins []edge) []edge {
	cond0, st0, phis0 := e.merge(ins)
	e.loops++
	e.settleLoop(L, st0)
	var phis []*ssa.Phi
	for _, in := range L.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	savePC, saveP := e.pc, e.panics
	defer func() { e.pc = savePC }()

	// ---- unrolling
	limit := maxUnroll
	if e.tr != nil && !talks(L) {
		limit = 4
	}
	if n := e.constTrip(fr, L, phis, phis0, st0); n >= 0 && n <= limit {
		if out, ok := e.unroll(fr, L, cond0, st0, phis0); ok {
			e.panics = or(saveP, and(cond0, e.panics))
			return e.finishExits(fr, L, out, nil)
		}
		e.panics = saveP
	}
	if limit == maxUnroll && (e.numeric(L, phis, phis0) || narrows(L, phis, phis0)) {
		if out, ok := e.unroll(fr, L, cond0, st0, phis0); ok {
			e.panics = or(saveP, and(cond0, e.panics))
			return e.finishExits(fr, L, out, nil)
		}
		e.panics = saveP
	}
	if os.Getenv("GTV_SYM") != "" {
		fmt.Fprintln(os.Stderr, "symbolic loop", fr.fn, e.l.pos(L.header.Instrs[0].Pos()), L.header.Comment)
	}
	if e.tr != nil && !e.inInit {
		e.panics = saveP
		return e.traceLoop(fr, L, cond0, st0, phis, phis0)
	}
	return e.symLoop(fr, L, cond0, st0, phis, phis0, saveP)
}

// constTrip guesses the trip count of a counting loop with constant bounds.
// -1: not constant.
func (e *Ev) constTrip(fr *Frame, L *loopT, phis []*ssa.Phi, phis0 []*T, st0 *State) int {
	best := -1
	for b := range L.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || L.blocks[b.Succs[0]] && L.blocks[b.Succs[1]] {
			continue
		}
		if n := e.rangeTrip(fr, iff.Cond, st0); n >= 0 && (best < 0 || n < best) {
			best = n
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			if n := e.constTripAt(fr, L, phis, phis0, bo, st0); n >= 0 && (best < 0 || n < best) {
				best = n
			}
		}
	}
	return best
}

// numeric tells whether the exits of a loop depend on nothing but registers of
// the loop that begin as constants.
func (e *Ev) numeric(L *loopT, phis []*ssa.Phi, phis0 []*T) bool {
	for b := range L.blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	for i, p := range phis {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
		if _, ok := intOf(phis0[i]); !ok {
			return false
		}
	}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if _, ok := v.(*ssa.Const); !ok && !inL(L, v) {
					return false
				}
			}
		}
	}
	return true
}

// narrows tells whether a loop ends when two numbers, constants at first, have
// come close to each other.
func narrows(L *loopT, phis []*ssa.Phi, phis0 []*T) bool {
	iff, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isPhi := func(v ssa.Value) bool {
		for i, p := range phis {
			if p == v {
				n, ok := intOf(phis0[i])
				return ok && n >= 0 && n <= 8
			}
		}
		return false
	}
	x, y := bo.X, bo.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	if _, ok := y.(*ssa.Const); ok {
		d, ok := x.(*ssa.BinOp)
		return ok && d.Op == token.SUB && isPhi(d.X) && isPhi(d.Y)
	}
	// lo+1 < hi
	if d, ok := x.(*ssa.BinOp); ok {
		_, c := d.Y.(*ssa.Const)
		return c && isPhi(d.X) && isPhi(y)
	}
	if d, ok := y.(*ssa.BinOp); ok {
		_, c := d.Y.(*ssa.Const)
		return c && isPhi(d.X) && isPhi(x)
	}
	return false
}

// rangeTrip gives the number of entries of a map that is ranged over.
func (e *Ev) rangeTrip(fr *Frame, cond ssa.Value, st *State) int {
	x, ok := cond.(*ssa.Extract)
	if !ok || x.Index != 0 {
		return -1
	}
	nx, ok := x.Tuple.(*ssa.Next)
	if !ok || nx.IsString {
		return -1
	}
	it := e.val(fr, nx.Iter)
	if it.k != KPtr {
		return -1
	}
	q, ok := st.cells[cellKey{it.args[0].id, "map"}]
	if !ok {
		return -1
	}
	best := 0
	leaves(q, func(t *T) {
		if n := len(t.args) / 2; n > best {
			best = n
		}
	})
	return best
}

func leaves(t *T, f func(*T)) {
	if t.k == KIte {
		leaves(t.args[0], f)
		leaves(t.args[1], f)
		return
	}
	f(t)
}

// mostOf gives the largest of the constants a number can be.
func mostOf(t *T) (int64, bool) {
	most, ok, any := int64(0), true, false
	leaves(t, func(t *T) {
		if t.k == KBot {
			return
		}
		n, is := intOf(t)
		ok = ok && is
		if !any || n > most {
			most, any = n, true
		}
	})
	return most, ok && any
}

func (e *Ev) constTripAt(fr *Frame, L *loopT, phis []*ssa.Phi, phis0 []*T, bo *ssa.BinOp, st0 *State) int {
	h := L.header
	try := func(x, y ssa.Value, op token.Token) int {
		// range loops increment in the header
		inc := 0
		if b, ok := x.(*ssa.BinOp); ok && b.Block() == h && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
					x = b.X
					inc = int(n)
				}
			}
		}
		p, ok := x.(*ssa.Phi)
		if !ok || p.Block() != h {
			return -1
		}
		var init *T
		for i, q := range phis {
			if q == p {
				init = phis0[i]
			}
		}
		lo, ok := intOf(init)
		if !ok {
			return -1
		}
		if inL(L, y) {
			// a bound computed in the loop: len of something invariant
			if c, ok := y.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if at, ok := c.Call.Args[0].Type().Underlying().(*types.Array); ok {
						return int(at.Len() - lo)
					}
					if !inL(L, c.Call.Args[0]) {
						if hi, ok := mostOf(lenOf(e.val(fr, c.Call.Args[0]))); ok {
							return int(hi - lo)
						}
					}
				}
			}
			saveP := e.panics
			ok := e.peek(fr, L, y, st0.clone(), 0)
			e.panics = saveP
			if !ok {
				return -1
			}
		}
		hi, ok := mostOf(e.val(fr, y))
		if !ok {
			return -1
		}
		d := hi - lo - int64(inc)
		if d < 0 {
			d = -d
		}
		return int(d)
	}
	if n := try(bo.X, bo.Y, bo.Op); n >= 0 {
		return n
	}
	return try(bo.Y, bo.X, bo.Op)
}

// peek evaluates a loop bound that is read in every iteration as it is in the
// first one.
func (e *Ev) peek(fr *Frame, L *loopT, v ssa.Value, st *State, depth int) bool {
	if !inL(L, v) {
		return true
	}
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if !e.peek(fr, L, x.X, st, depth+1) {
			return false
		}
	case *ssa.FieldAddr:
		if !e.peek(fr, L, x.X, st, depth+1) {
			return false
		}
	case *ssa.Field:
		if !e.peek(fr, L, x.X, st, depth+1) {
			return false
		}
	case *ssa.IndexAddr:
		if !e.peek(fr, L, x.X, st, depth+1) || !e.peek(fr, L, x.Index, st, depth+1) {
			return false
		}
	case *ssa.Convert:
		if !e.peek(fr, L, x.X, st, depth+1) {
			return false
		}
	case *ssa.BinOp:
		if !e.peek(fr, L, x.X, st, depth+1) || !e.peek(fr, L, x.Y, st, depth+1) {
			return false
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" || !e.peek(fr, L, x.Call.Args[0], st, depth+1) {
			return false
		}
	default:
		return false
	}
	e.instr(fr, v.(ssa.Instruction), st)
	return true
}

func inL(L *loopT, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && L.blocks[in.Block()]
}

func (e *Ev) unroll(fr *Frame, L *loopT, cond0 *T, st0 *State, phis0 []*T) ([]edge, bool) {
	e.panics = tFalse
	cur := edge{to: L.header, cond: tTrue, st: st0.clone(), phis: phis0}
	var out []edge
	for it := 0; it <= maxUnroll+1; it++ {
		exits, back := e.region(fr, L.blocks, L, L.header, []edge{cur})
		for _, x := range exits {
			x.cond = and(cond0, x.cond)
			if x.cond != tFalse {
				out = append(out, x)
			}
		}
		if len(back) == 0 {
			return out, true
		}
		c, s, p := e.merge(back)
		cur = edge{to: L.header, cond: c, st: s, phis: p}
	}
	return nil, false
}

// finishExits publishes the values of registers used after the loop.
func (e *Ev) finishExits(fr *Frame, L *loopT, out []edge, at func(*T) *T) []edge {
	for _, v := range L.esc {
		var conds, vals []*T
		for _, x := range out {
			if t, ok := x.snap[v]; ok {
				conds = append(conds, x.cond)
				vals = append(vals, t)
			}
		}
		if len(vals) > 0 {
			fr.env[v] = foldIte(conds, vals)
		}
	}
	// exits leaving an enclosing loop as well carry its escaping registers
	for l := L.parent; l != nil; l = l.parent {
		for i := range out {
			x := &out[i]
			if x.ret || !l.blocks[x.to] {
				for _, v := range l.esc {
					if _, ok := x.snap[v]; ok {
						continue
					}
					if t, ok := fr.env[v]; ok {
						x.snap[v] = t
					}
				}
			}
		}
	}
	return out
}

func varKind(t *T) string {
	for t.k == KIte {
		if t.args[0].k != KBot {
			t = t.args[0]
		} else {
			t = t.args[1]
		}
	}
	switch t.k {
	case KPoly:
		return "num"
	case KBool:
		return "bool"
	}
	if isArr(t) {
		return "arr"
	}
	return "ref"
}

func (e *Ev) symLoop(fr *Frame, L *loopT, cond0 *T, st0 *State, phis []*ssa.Phi, phis0 []*T, saveP *T) []edge {
	kap := freshSym(true, true, "k")
	K := anum(kap)
	var vars []*lv
	byCell := map[cellKey]*lv{}
	// header phis, split into leaves
	var addPhi func(i int, sub []int, t types.Type, v *T)
	addPhi = func(i int, sub []int, t types.Type, v *T) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for j := 0; j < u.NumFields(); j++ {
				addPhi(i, append(append([]int(nil), sub...), j), u.Field(j).Type(), comp(v, j))
			}
			return
		case *types.Array:
			if u.Len() > smallArray {
				fail("array-valued loop variable")
			}
			for j := 0; j < int(u.Len()); j++ {
				addPhi(i, append(append([]int(nil), sub...), j), u.Elem(), comp(v, j))
			}
			return
		}
		vars = append(vars, &lv{key: fmt.Sprintf("phi%d%v", i, sub), phi: i, sub: sub, typ: t, init: v})
	}
	for i, p := range phis {
		addPhi(i, nil, p.Type(), phis0[i])
	}
	mark := allocCount
	owned := map[*lv]*T{} // slice variables held by value: their object
	var exits, back []edge
	var backSt *State
	var backPhis []*T
	var bodyPanic *T

	start := func() (*State, []*T) {
		st := st0.clone()
		vals := make([]*T, len(phis))
		var place func(dst *T, t types.Type, sub []int, v *T) *T
		place = func(dst *T, t types.Type, sub []int, v *T) *T {
			if len(sub) == 0 {
				return v
			}
			var elems []*T
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for j := 0; j < u.NumFields(); j++ {
					el := comp(dst, j)
					if j == sub[0] {
						el = place(el, u.Field(j).Type(), sub[1:], v)
					}
					elems = append(elems, el)
				}
			case *types.Array:
				for j := 0; j < int(u.Len()); j++ {
					el := comp(dst, j)
					if j == sub[0] {
						el = place(el, u.Elem(), sub[1:], v)
					}
					elems = append(elems, el)
				}
			}
			return tuple(elems...)
		}
		copy(vals, phis0)
		for _, v := range vars {
			cur := v.current(K)
			if v.phi >= 0 {
				vals[v.phi] = place(vals[v.phi], phis[v.phi].Type(), v.sub, cur)
			} else {
				st.cells[*v.cell] = cur
			}
		}
		return st, vals
	}
	run := func() {
		st, vals := start()
		e.panics = tFalse
		exits, back = e.region(fr, L.blocks, L, L.header, []edge{{to: L.header, cond: tTrue, st: st, phis: vals}})
		bodyPanic = e.panics
		if len(back) > 0 {
			_, backSt, backPhis = e.merge(back)
		}
	}
	subVal := func(v *T, sub []int) *T {
		for _, i := range sub {
			v = comp(v, i)
		}
		return v
	}
	// discover the state
	for pass := 0; ; pass++ {
		if pass > 60 {
			fail("loop state does not stabilise at %s", e.l.pos(L.header.Instrs[0].Pos()))
		}
		for _, v := range vars {
			if v.sym == nil {
				v.makeSym(e)
			}
		}
		run()
		if len(back) == 0 {
			// the body never repeats
			e.panics = or(saveP, and(cond0, bodyPanic))
			st, vals := st0.clone(), phis0
			e.panics = tFalse
			ex, _ := e.region(fr, L.blocks, L, L.header, []edge{{to: L.header, cond: cond0, st: st, phis: vals}})
			e.panics = or(saveP, e.panics)
			return e.finishExits(fr, L, ex, nil)
		}
		grew := false
		// modified cells of objects that existed before the loop
		var keys []cellKey
		for k := range backSt.cells {
			keys = append(keys, k)
		}
		sortKeys(keys)
		startSt, _ := start()
		for _, k := range keys {
			if byCell[k] != nil {
				continue
			}
			ci := cellInfos[k]
			if ci.obj.op == "alloc" && allocNum(ci.obj) > mark {
				continue
			}
			if hasSym2(ci.obj, vars, kap) {
				// an object reached through loop state
				if backSt.cells[k] != e.rawCell(startSt, k) {
					fail("write through a loop-dependent reference at %s (%s%s)", e.l.pos(L.header.Instrs[0].Pos()), show(ci.obj), ci.path)
				}
				continue
			}
			if backSt.cells[k] != e.rawCell(startSt, k) {
				kk := k
				v := &lv{key: fmt.Sprintf("cell%d%s", k.obj, k.path), cell: &kk, phi: -1, typ: ci.typ,
					isArr: strings.Contains(k.path, "[]"), init: e.rawCell(st0, k)}
				vars = append(vars, v)
				byCell[k] = v
				grew = true
			}
		}
		// the step only matters in iterations that go on
		goOn := tFalse
		for _, b := range back {
			goOn = or(goOn, b.cond)
		}
		lits := cubeOf(goOn)
		for _, v := range vars {
			if v.phi >= 0 {
				v.step = subVal(backPhis[v.phi], v.sub)
			} else {
				v.step = e.rawCell(backSt, *v.cell)
			}
			if v.step.k == KArr {
				js := freshSym(true, true, "J")
				v.step = mkLam(js, assume(sel(v.step, anum(js)), lits))
			} else {
				v.step = assume(v.step, lits)
			}
		}
		if grew {
			continue
		}
		// slices that are rebuilt every iteration are held by value
		changed := false
		for _, v := range vars {
			if v.solved || owned[v] != nil || v.kind != "ref" || v.isArr {
				continue
			}
			if _, ok := v.typ.Underlying().(*types.Slice); !ok {
				continue
			}
			fresh := false
			lift(func(l []*T) *T {
				if l[0].k == KSlice && l[0].args[0].op == "alloc" && allocNum(l[0].args[0]) > mark {
					fresh = true
				}
				return tTrue
			}, v.step)
			if fresh {
				e.own(v, st0, &vars, owned, byCell)
				changed = true
			}
		}
		if changed {
			// content cells of owned slices take their step from the new object
			continue
		}
		for v, o := range owned {
			e.ownedSteps(v, o, backSt, byCell)
		}
		if e.solve(vars, kap) || e.solveGroup(vars, kap) {
			continue
		}
		// recurrences for what is left, innermost dependencies first
		var rest []*lv
		for _, v := range vars {
			if !v.solved {
				rest = append(rest, v)
			}
		}
		if len(rest) == 0 {
			break
		}
		if debugLoops {
			for _, v := range rest {
				fmt.Fprintf(os.Stderr, "unsolved %s %s in %s: init %s step %s\n", v.key, v.kind, fr.fn, show(v.init), show(v.step))
			}
		}
		e.recurrences(rest, kap)
	}
	// ---- trip count
	X := tFalse
	for _, x := range exits {
		X = or(X, x.cond)
	}
	TT := firstT(kap, X)
	at := func(t *T) *T { return subst(t, kap, TT) }
	var out []edge
	others := tFalse
	for i, x := range exits {
		c := at(x.cond)
		if i == len(exits)-1 {
			c = not(others)
		} else {
			c = and(c, not(others))
			others = or(others, c)
		}
		c = and(cond0, c)
		if c == tFalse {
			continue
		}
		n := edge{from: x.from, to: x.to, cond: c, ret: x.ret, st: newState(), snap: map[ssa.Value]*T{}}
		for k, v := range x.st.cells {
			ci := cellInfos[k]
			if hasSym2(ci.obj, vars, kap) {
				continue
			}
			n.st.cells[k] = at(v)
		}
		for _, p := range x.phis {
			n.phis = append(n.phis, at(p))
		}
		for _, p := range x.vals {
			n.vals = append(n.vals, at(p))
		}
		for v, t := range x.snap {
			n.snap[v] = at(t)
		}
		out = append(out, n)
	}
	if bodyPanic != tFalse {
		p := existsT(addc(TT, 1), kap, bodyPanic)
		e.panics = or(saveP, and(cond0, p))
	} else {
		e.panics = saveP
	}
	return e.finishExits(fr, L, out, at)
}

func sortKeys(keys []cellKey) {
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].obj != keys[j].obj {
			return keys[i].obj < keys[j].obj
		}
		return keys[i].path < keys[j].path
	})
}

func hasSym2(o *T, vars []*lv, kap *T) bool {
	if len(o.fs) == 0 {
		return false
	}
	if hasSym(o, symID(kap)) {
		return true
	}
	for _, v := range vars {
		if v.sym != nil && hasSym(o, symID(v.sym)) {
			return true
		}
	}
	return false
}

func (v *lv) makeSym(e *Ev) {
	n := nextSym
	nextSym++
	s := strconv.Itoa(n)
	if v.isArr {
		v.kind = "arr"
		v.sym = atom("asym", s+"@"+kindOf(v.typ), false, false, false)
		return
	}
	switch k := kindOf(v.typ); {
	case k == "f":
		v.kind = "num"
		v.sym = atom("sym", s, true, false, false)
	case k == "i":
		v.kind = "num"
		v.sym = atom("sym", s, true, true, false)
	case k[0] == 'u':
		v.kind = "num"
		v.sym = atom("sym", s+"#"+k, true, true, true)
	case k == "b":
		v.kind = "bool"
		v.sym = atom("sym", s, false, false, false)
	case k == "S" || k == "P":
		v.kind = "ref"
		v.sym = atom("sym", s+"#"+k, false, false, false)
	default:
		v.kind = "ref"
		v.sym = atom("sym", s+"#o", false, false, false)
	}
}

// current is the value of the component at the start of iteration K.
func (v *lv) current(K *T) *T {
	if v.form != nil {
		return v.form(K)
	}
	return v.symVal()
}

func (v *lv) symVal() *T {
	switch v.kind {
	case "num":
		return anum(v.sym)
	case "bool":
		return opaqueBool(v.sym)
	case "arr":
		return v.sym
	}
	switch kindOf(v.typ) {
	case "S":
		return symSlice(v.sym)
	case "P":
		return symPtr(v.sym)
	}
	return v.sym
}

// ---------------------------------------------------------------- owned slices

func (e *Ev) own(v *lv, st0 *State, vars *[]*lv, owned map[*lv]*T, byCell map[cellKey]*lv) {
	elem := v.typ.Underlying().(*types.Slice).Elem()
	o := newAlloc("owned")
	owned[v] = o
	ln := &lv{key: v.key + ".len", phi: -1, typ: types.Typ[types.Int], init: lenOf(v.init)}
	// the length lives in a pseudo cell of the object
	lk := cellKey{o.id, "len"}
	cellInfos[lk] = &cellInfo{o, "len", types.Typ[types.Int]}
	ln.cell = &lk
	*vars = append(*vars, ln)
	byCell[lk] = ln
	ln.makeSym(e)
	for _, l := range leavesOf(elem) {
		p := "[]" + l.path
		k := cellKey{o.id, p}
		cellInfos[k] = &cellInfo{o, p, l.typ}
		c := &lv{key: v.key + p, cell: &k, phi: -1, typ: l.typ, isArr: true, init: e.elemArr(st0, v.init, elem, l)}
		*vars = append(*vars, c)
		byCell[k] = c
		c.makeSym(e)
	}
	v.solved = true
	v.form = func(K *T) *T {
		n := ln.current(K)
		return mkSlice(o, "", pZero, n, n)
	}
}

func (e *Ev) ownedSteps(v *lv, o *T, st *State, byCell map[cellKey]*lv) {
	elem := v.typ.Underlying().(*types.Slice).Elem()
	byCell[cellKey{o.id, "len"}].step = lenOf(v.step)
	for _, l := range leavesOf(elem) {
		byCell[cellKey{o.id, "[]" + l.path}].step = e.elemArr(st, v.step, elem, l)
	}
}

// ---------------------------------------------------------------- closed forms

// solve finds closed forms; it reports whether anything was newly solved.
func (e *Ev) solve(vars []*lv, kap *T) bool {
	any := false
	for {
		prog := false
		for _, v := range vars {
			if v.solved {
				continue
			}
			f := v.step
			// use the closed forms found in this round
			for _, w := range vars {
				if w.solved && w.form != nil && w.sym != nil && hasSym(f, symID(w.sym)) {
					f = subst(f, w.sym, w.form(anum(kap)))
				}
			}
			var unsolved []int
			for _, w := range vars {
				if !w.solved {
					unsolved = append(unsolved, symID(w.sym))
				}
			}
			form := e.closed(v, f, kap, unsolved)
			if form != nil {
				v.form = form
				v.solved = true
				prog, any = true, true
			}
		}
		if !prog {
			return any
		}
	}
}

func atK(t, kap, K *T) *T { return subst(t, kap, K) }

// closed finds the value of the component after K iterations; decisions that
// do not change in the loop are split off when the whole has no closed form.
func (e *Ev) closed(v *lv, f, kap *T, unsolved []int) func(K *T) *T {
	return e.closedSplit(v, f, kap, unsolved, 8)
}

func (e *Ev) closedSplit(v *lv, f, kap *T, unsolved []int, depth int) func(K *T) *T {
	if r := e.closed0(v, f, kap, unsolved); r != nil || depth == 0 {
		return r
	}
	vary := append([]int{symID(kap)}, unsolved...)
	body := f
	var js *T
	if f.k == KArr {
		js = freshSym(true, true, "J")
		body = sel(f, anum(js))
		vary = append(vary, symID(js))
	}
	w := fixedVar(body, vary)
	if w == nil {
		return nil
	}
	var r [2]func(K *T) *T
	for i, val := range []bool{true, false} {
		g := assumeV(body, w, val)
		if js != nil {
			g = mkLam(js, g)
		}
		if r[i] = e.closedSplit(v, g, kap, unsolved, depth-1); r[i] == nil {
			return nil
		}
	}
	c := varT(w)
	return func(K *T) *T { return ite(c, r[0](K), r[1](K)) }
}

// fixedVar finds a decision of t that mentions none of the symbols.
func fixedVar(t *T, vary []int) *bvar {
	seen := map[int]bool{}
	var rec func(t *T) *bvar
	rec = func(t *T) *bvar {
		if t.k != KIte || seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if !hasAnySym(t.v.base, vary) {
			return t.v
		}
		if v := rec(t.args[0]); v != nil {
			return v
		}
		return rec(t.args[1])
	}
	return rec(t)
}

func (e *Ev) closed0(v *lv, f, kap *T, unsolved []int) func(K *T) *T {
	init := v.init
	self := v.symVal()
	if f == self {
		return func(K *T) *T { return init }
	}
	if f == init && !hasAnySym(f, unsolved) && !hasSym(f, symID(kap)) {
		return func(K *T) *T { return init }
	}
	sid := symID(v.sym)
	for _, u := range unsolved {
		if u != sid && hasSym(f, u) {
			return nil
		}
	}
	if !hasSym(f, sid) {
		// recomputed every iteration
		prev := subst(f, kap, addc(anum(kap), -1))
		if v.kind != "arr" {
			if subst(prev, kap, pZero) == init {
				return func(K *T) *T { return atK(prev, kap, K) }
			}
			return func(K *T) *T {
				return ite(lessEq(K, pZero), init, atK(prev, kap, K))
			}
		}
		return func(K *T) *T {
			return ite(lessEq(K, pZero), init, atK(prev, kap, K))
		}
	}
	switch v.kind {
	case "num":
		if k := kindOf(v.typ); k[0] == 'u' {
			return closedUnsigned(v, f, kap, k)
		}
		d := sub(f, self)
		if !hasSym(d, sid) {
			return func(K *T) *T { return add(init, sumUpTo(K, kap, d)) }
		}
		if c, val, ok := lastWrite(f, v.sym, self); ok {
			return func(K *T) *T { return lastT2(K, kap, c, val, init) }
		}
	case "bool":
		f1 := assumeV(f, internVar(bOP, v.sym, nil, ""), true)
		f0 := assumeV(f, internVar(bOP, v.sym, nil, ""), false)
		if hasSym(f1, sid) || hasSym(f0, sid) {
			return nil
		}
		if f1 == tTrue {
			return func(K *T) *T { return or(init, existsUpTo(K, kap, f0)) }
		}
		if f0 == tFalse {
			return func(K *T) *T { return and(init, not(existsUpTo(K, kap, not(f1)))) }
		}
		if c, val, ok := lastWrite(f, v.sym, self); ok {
			return func(K *T) *T { return lastT2(K, kap, c, val, init) }
		}
	case "arr":
		return e.closedArr(v, f, kap)
	case "ref":
		if c, val, ok := lastWrite(f, v.sym, self); ok {
			return func(K *T) *T { return lastT2(K, kap, c, val, init) }
		}
	}
	return nil
}

func closedUnsigned(v *lv, f, kap *T, k string) func(K *T) *T {
	bits, _ := strconv.Atoi(k[1:])
	sid := symID(v.sym)
	if f.k == KPoly && len(f.ms) == 1 && len(f.ms[0].f) == 1 && f.ms[0].f[0].a.op == "wrap" {
		d := sub(f.ms[0].f[0].a.args[0], anum(v.sym))
		if !hasSym(d, sid) {
			return func(K *T) *T { return wrapT(bits, add(v.init, sumUpTo(K, kap, d))) }
		}
	}
	if c, val, ok := lastWrite(f, v.sym, anum(v.sym)); ok {
		return func(K *T) *T { return lastT2(K, kap, c, val, v.init) }
	}
	return nil
}

// sumUpTo is the sum of d(j) for 0 <= j < K.
func sumUpTo(K, kap, d *T) *T {
	if !hasSym(d, symID(kap)) {
		return mul(d, K)
	}
	j := freshSym(true, true, "j")
	return sumT(K, j, subst(d, kap, anum(j)))
}

func existsUpTo(K, kap, c *T) *T {
	j := freshSym(true, true, "j")
	return existsT(K, j, subst(c, kap, anum(j)))
}

func lastT2(K, kap, c, v, init *T) *T {
	j := freshSym(true, true, "j")
	return lastT(K, j, subst(c, kap, anum(j)), subst(v, kap, anum(j)), init)
}

// lastWrite decomposes f into (condition, value) where the other leaves are the
// unchanged value.
func lastWrite(f, s, self *T) (c, val *T, ok bool) {
	sid := symID(s)
	ok = true
	memoC := map[int]*T{}
	memoV := map[int]*T{}
	var rec func(t *T) (*T, *T)
	rec = func(t *T) (*T, *T) {
		if t == self {
			return tFalse, tBot
		}
		if t.k == KIte {
			if r, done := memoC[t.id]; done {
				return r, memoV[t.id]
			}
			if hasSym(t.v.base, sid) {
				ok = false
				return tFalse, tBot
			}
			c1, v1 := rec(t.args[0])
			c2, v2 := rec(t.args[1])
			c := iteVar(t.v, c1, c2)
			v := iteVar(t.v, v1, v2)
			memoC[t.id], memoV[t.id] = c, v
			return c, v
		}
		if hasSym(t, sid) {
			ok = false
			return tFalse, tBot
		}
		return tTrue, t
	}
	c, val = rec(f)
	return c, val, ok
}

// closedArr: arrays updated in a loop.
func (e *Ev) closedArr(v *lv, f, kap *T) func(K *T) *T {
	sid := symID(v.sym)
	init := v.init
	kid := symID(kap)
	js := freshSym(true, true, "J")
	J := anum(js)
	body := rewriteLeaves(sel(f, J), kap)
	old := sel(v.sym, J)
	if os.Getenv("GTV_TREE") != "" {
		dbgTree(body, 0)
	}
	body = sameElement(body, v.sym, J)
	// accumulation
	if kd := kindOf(v.typ); kd == "f" || kd == "i" {
		d := sub(body, old)
		if !hasSym(d, sid) {
			return func(K *T) *T {
				return mkLam(js, add(sel(init, J), sumUpTo(K, kap, d)))
			}
		}
	}
	c, val, ok := lastWriteArr(body, v.sym, old)
	if !ok {
		return nil
	}
	if !hasSym(c, sid) && !hasSym(val, sid) {
		return func(K *T) *T {
			return mkLam(js, lastT2(K, kap, c, val, sel(init, J)))
		}
	}
	if hasSym(c, sid) {
		// the write condition may look at the element itself: treat the whole
		// element update as the value if the index is pinned
		c2 := dropSelf(c, v.sym)
		if c2 == nil {
			return nil
		}
		pt, _, ok := singlePoint(ite(c2, pOne, pZero), kap)
		if !ok {
			return nil
		}
		return e.pinned(v, body, c2, pt, kap, kid, js, J)
	}
	pt, _, ok := singlePoint(ite(c, pOne, pZero), kap)
	if !ok {
		return nil
	}
	return e.pinned(v, ite(c, val, old), c, pt, kap, kid, js, J)
}

// sameElement rewrites reads of the array at an index that the guards make J.
func sameElement(t, arr, J *T) *T {
	sid := symID(arr)
	old := sel(arr, J)
	var lits []literal
	n := 0
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if x.k == KIte {
			if !hasSym(x, sid) || n > 4000 {
				return x
			}
			v := x.v
			m := len(lits)
			lits = append(lits, literal{v, true})
			hi := rec(x.args[0])
			lits = append(lits[:m], literal{v, false})
			lo := rec(x.args[1])
			lits = lits[:m]
			return iteVar(v, hi, lo)
		}
		n++
		var reads []*T
		collectSels(x, arr, &reads, map[int]bool{})
		for _, r := range reads {
			if r != old && assume(numEq(r.args[1], J), lits) == tTrue {
				x = replaceAtom(x, r, old, map[int]*T{})
			}
		}
		return x
	}
	if t.k != KIte || !hasSym(t, sid) {
		return t
	}
	return rec(t)
}

// pinned: element J is written only in iteration pt(J), possibly reading the
// array at places not yet written.
func (e *Ev) pinned(v *lv, body, c, pt, kap *T, kid int, js, J *T) func(K *T) *T {
	sid := symID(v.sym)
	nv := subst(body, kap, pt)
	// every read of the array must be of an element not written before
	okAll := true
	var reads []*T
	collectSels(nv, v.sym, &reads, map[int]bool{})
	for _, r := range reads {
		P := r.args[1]
		ptP := subst(pt, js, P)
		d := sub(ptP, pt)
		if n, isC := intOf(d); isC && n >= 0 {
			continue
		}
		if P == J {
			continue
		}
		okAll = false
	}
	if !okAll {
		return nil
	}
	nv = subst(nv, v.sym, v.init)
	if hasSym(nv, sid) {
		return nil
	}
	cc := subst(c, kap, pt)
	if hasSym(cc, sid) {
		return nil
	}
	return func(K *T) *T {
		in := and(and(not(less(pt, pZero)), less(pt, K)), cc)
		return mkLam(js, ite(in, nv, sel(v.init, J)))
	}
}

// solveGroup: arrays that are updated together, each element in one iteration
// and from elements that no earlier iteration has written.
func (e *Ev) solveGroup(vars []*lv, kap *T) bool {
	type member struct {
		v           *lv
		js, J       *T
		body, c, pt *T
	}
	var all []*lv
	for _, v := range vars {
		if !v.solved {
			all = append(all, v)
		}
	}
	var grp []*member
	for _, v := range all {
		if v.kind != "arr" {
			continue
		}
		m := &member{v: v, js: freshSym(true, true, "J")}
		m.J = anum(m.js)
		m.body = sel(v.step, m.J)
		old := sel(v.sym, m.J)
		c, _, _ := lastWriteArr(m.body, v.sym, old)
		for _, w := range all {
			c = dropSelf(c, w.sym)
		}
		pt, _, ok := singlePoint(ite(c, pOne, pZero), kap)
		if !ok {
			continue
		}
		m.c, m.pt = c, pt
		grp = append(grp, m)
	}
	// shrink to a group that is closed under its dependencies
	for again := true; again && len(grp) > 0; {
		again = false
		in := map[*lv]*member{}
		for _, m := range grp {
			in[m.v] = m
		}
		var keep []*member
		for _, m := range grp {
			nv := subst(m.body, kap, m.pt)
			ok := true
			for _, w := range all {
				if !hasSym(nv, symID(w.sym)) {
					continue
				}
				g := in[w]
				if g == nil {
					ok = false
					break
				}
				var reads []*T
				collectSels(nv, w.sym, &reads, map[int]bool{})
				for _, r := range reads {
					P := r.args[1]
					d := sub(subst(g.pt, g.js, P), m.pt)
					if n, isC := intOf(d); isC && n >= 0 {
						continue
					}
					ok = false
				}
			}
			if ok {
				keep = append(keep, m)
			} else {
				again = true
			}
		}
		grp = keep
	}
	if len(grp) == 0 {
		return false
	}
	for _, m := range grp {
		m := m
		nv := subst(m.body, kap, m.pt)
		for _, g := range grp {
			nv = subst(nv, g.v.sym, g.v.init)
		}
		cc := subst(m.c, kap, m.pt)
		m.v.form = func(K *T) *T {
			in := and(and(not(less(m.pt, pZero)), less(m.pt, K)), cc)
			return mkLam(m.js, ite(in, nv, sel(m.v.init, m.J)))
		}
		m.v.solved = true
	}
	return true
}

func collectSels(t, a *T, out *[]*T, seen map[int]bool) {
	if seen[t.id] || !hasSym(t, symID(a)) {
		return
	}
	seen[t.id] = true
	if t.k == KAtom && t.op == "SEL" && t.args[0] == a {
		*out = append(*out, t)
		collectSels(t.args[1], a, out, seen)
		return
	}
	if t == a {
		// the whole array escapes
		*out = append(*out, atom("SEL", "", true, false, false, a, anum(atom("whole", "", true, false, false))))
		return
	}
	for _, x := range t.args {
		collectSels(x, a, out, seen)
	}
	for _, m := range t.ms {
		for _, f := range m.f {
			collectSels(f.a, a, out, seen)
		}
	}
	if t.v != nil {
		collectSels(t.v.base, a, out, seen)
	}
}

// lastWriteArr is lastWrite where conditions may mention the array.
func lastWriteArr(f, s, self *T) (c, val *T, ok bool) {
	memoC := map[int]*T{}
	memoV := map[int]*T{}
	var rec func(t *T) (*T, *T)
	rec = func(t *T) (*T, *T) {
		if t == self {
			return tFalse, tBot
		}
		if t.k == KIte {
			if self.k == KIte && t == self {
				return tFalse, tBot
			}
			if r, done := memoC[t.id]; done {
				return r, memoV[t.id]
			}
			c1, v1 := rec(t.args[0])
			c2, v2 := rec(t.args[1])
			c := iteVar(t.v, c1, c2)
			v := iteVar(t.v, v1, v2)
			memoC[t.id], memoV[t.id] = c, v
			return c, v
		}
		return tTrue, t
	}
	c, val = rec(f)
	return c, val, true
}

// dropSelf weakens a condition by forgetting tests of the array itself.
func dropSelf(c, s *T) *T {
	sid := symID(s)
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if t.k != KIte {
			return t
		}
		a, b := rec(t.args[0]), rec(t.args[1])
		if hasSym(t.v.base, sid) {
			return or(a, b)
		}
		return iteVar(t.v, a, b)
	}
	return rec(c)
}

// ---------------------------------------------------------------- recurrences

// recurrences gives every remaining component an opaque recurrence term.
func (e *Ev) recurrences(rest []*lv, kap *T) {
	// dependency components
	dep := func(a, b *lv) bool { return hasSym(a.step, symID(b.sym)) }
	n := len(rest)
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = make([]bool, n)
		for j := range reach[i] {
			reach[i][j] = i == j || dep(rest[i], rest[j])
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] && reach[k][j] {
					reach[i][j] = true
				}
			}
		}
	}
	solved := false
	done := make([]bool, n)
	for i := 0; i < n; i++ {
		if done[i] {
			continue
		}
		var scc []*lv
		ready := true
		for j := 0; j < n; j++ {
			if reach[i][j] && reach[j][i] {
				scc = append(scc, rest[j])
				done[j] = true
			} else if reach[i][j] {
				ready = false
			}
		}
		if ready {
			e.recScc(scc, kap)
			for _, v := range scc {
				v.solved = true
			}
			solved = true
		}
	}
	if !solved {
		fail("recurrence ordering")
	}
}

func (e *Ev) recScc(scc []*lv, kap *T) {
	syms := make([]*T, len(scc))
	inits := make([]*T, len(scc))
	steps := make([]*T, len(scc))
	for i, v := range scc {
		syms[i], inits[i], steps[i] = v.sym, v.init, v.step
	}
	for i, v := range scc {
		i := i
		v.form = func(K *T) *T { return recTerm(i, K, kap, syms, inits, steps) }
	}
}

// recTerm: component i at step K of the recurrence s' = steps(kap, s).
func recTerm(i int, K, kap *T, syms, inits, steps []*T) *T {
	if n, ok := intOf(K); ok && n <= 0 {
		return inits[i]
	}
	n := len(syms)
	// canonical component order
	ph := make([]*T, n)
	for a := range syms {
		s := syms[a]
		if s.op == "asym" {
			ph[a] = atom("AFN", "ph@"+arrKind(s), false, false, false)
		} else {
			p := atom("ph", "", s.num, s.isInt, s.nonneg)
			ph[a] = p
			if s.num {
				ph[a] = anum(p)
			}
		}
	}
	h := 1
	for _, st := range steps {
		if st.h+1 > h {
			h = st.h + 1
		}
	}
	masked := make([]*T, n)
	bk := anum(atom("bv", strconv.Itoa(h), true, true, false))
	for a := range steps {
		m := steps[a]
		for b := range syms {
			m = subst(m, syms[b], ph[b])
		}
		masked[a] = subst(m, kap, bk)
	}
	ord := make([]int, n)
	for a := range ord {
		ord[a] = a
	}
	sort.SliceStable(ord, func(x, y int) bool {
		a, b := ord[x], ord[y]
		if masked[a].size != masked[b].size {
			return masked[a].size < masked[b].size
		}
		if masked[a].id != masked[b].id {
			return masked[a].id < masked[b].id
		}
		return inits[a].id < inits[b].id
	})
	me := 0
	var args []*T
	args = append(args, K)
	bvs := make([]*T, n)
	for x, a := range ord {
		if a == i {
			me = x
		}
		s := syms[a]
		var b *T
		aux := strconv.Itoa(h) + "." + strconv.Itoa(x)
		if s.op == "asym" {
			b = atom("bva", aux+"@"+arrKind(s), false, false, false)
		} else {
			b = atom("bv", aux, s.num, s.isInt, s.nonneg)
			if s.num {
				b = anum(b)
			}
		}
		bvs[a] = b
	}
	for _, a := range ord {
		args = append(args, inits[a])
	}
	for _, a := range ord {
		m := steps[a]
		for b := range syms {
			m = subst(m, syms[b], bvs[b])
		}
		args = append(args, subst(m, kap, bk))
	}
	s := syms[i]
	u := ""
	if j := strings.IndexByte(s.aux, '#'); j >= 0 && s.op == "sym" {
		u = s.aux[j:]
	}
	// bound symbols' descriptions
	var desc []string
	for _, a := range ord {
		t := syms[a]
		d := t.op + fl(t.num) + fl(t.isInt) + fl(t.nonneg)
		if j := strings.IndexAny(t.aux, "#@"); j >= 0 {
			d += t.aux[j:]
		}
		desc = append(desc, d)
	}
	aux := strconv.Itoa(h) + ":" + strconv.Itoa(me) + ":" + strings.Join(desc, ";") + ":" + u
	return lift(func(l []*T) *T {
		if n, ok := intOf(l[0]); ok && n <= 0 {
			return inits[i]
		}
		a2 := append([]*T{l[0]}, args[1:]...)
		switch {
		case s.op == "asym":
			return atom("AREC", aux+"@"+arrKind(s), false, false, false, a2...)
		case s.num:
			return anum(atom("REC", aux, true, s.isInt, s.nonneg, a2...))
		}
		at := atom("REC", aux, false, false, false, a2...)
		switch {
		case strings.HasSuffix(u, "#S"):
			return symSlice(at)
		case strings.HasSuffix(u, "#P"):
			return symPtr(at)
		case strings.HasSuffix(u, "#o"):
			return at
		}
		return opaqueBool(at)
	}, K)
}

// rebuildRec reopens a recurrence, applies f and closes it again.
func rebuildRec(t *T, f func(*T) *T) *T {
	parts := strings.SplitN(t.aux, ":", 4)
	h, _ := strconv.Atoi(parts[0])
	me, _ := strconv.Atoi(parts[1])
	n := (len(t.args) - 1) / 2
	descS := parts[2]
	desc := strings.Split(descS, ";")
	kap := freshSym(true, true, "k")
	syms := make([]*T, n)
	for i := range syms {
		d := desc[i]
		num := nextSym
		nextSym++
		aux := strconv.Itoa(num)
		if j := strings.IndexAny(d, "#@"); j >= 0 {
			tail := d[j:]
			d = d[:j]
			aux += tail
		}
		if strings.HasPrefix(d, "asym") {
			syms[i] = atom("asym", aux, false, false, false)
		} else {
			flg := d[len(d)-3:]
			syms[i] = atom("sym", aux, flg[0] == '1', flg[1] == '1', flg[2] == '1')
		}
	}
	open := func(s *T) *T {
		r := substBV(s, h, anum(kap))
		for i := range syms {
			v := syms[i]
			if v.num {
				v = anum(v)
			}
			r = substBS(r, h, i, v)
		}
		return f(r)
	}
	K := f(t.args[0])
	inits := make([]*T, n)
	steps := make([]*T, n)
	for i := 0; i < n; i++ {
		inits[i] = f(t.args[1+i])
		steps[i] = open(t.args[1+n+i])
	}
	return recTerm(me, K, kap, syms, inits, steps)
}

type bsKey struct {
	t, h, i, v int
}

var bsMemo = map[bsKey]*T{}

func substBS(t *T, h, i int, v *T) *T {
	if !t.dang {
		return t
	}
	k := bsKey{t.id, h, i, v.id}
	if r, ok := bsMemo[k]; ok {
		return r
	}
	var r *T
	want := strconv.Itoa(h) + "." + strconv.Itoa(i)
	if t.k == KAtom && (t.op == "bv" || t.op == "bva") {
		aux := t.aux
		if j := strings.IndexByte(aux, '@'); j >= 0 {
			aux = aux[:j]
		}
		if aux == want {
			r = v
		} else {
			r = t
		}
	} else {
		r = rebuild(t, func(x *T) *T { return substBS(x, h, i, v) }, func(a *T) bool { return a.dang })
	}
	bsMemo[k] = r
	return r
}

var _ = big.NewRat

func dbgTree(t *T, depth int) {
	if depth > 12 {
		return
	}
	if t.k == KIte {
		fmt.Printf("%*s%d %s\n", depth*2, "", t.v.base.id, showVar(t.v, 6))
		dbgTree(t.args[0], depth+1)
		dbgTree(t.args[1], depth+1)
		return
	}
	fmt.Printf("%*s= %s\n", depth*2, "", show(t))
}
