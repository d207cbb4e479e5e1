package main

// Memory: cells of objects, addressed by a path pattern with at most one
// (flattened) symbolic index.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const smallArray = 16

type cellKey struct {
	obj  int
	path string
}

type State struct {
	cells map[cellKey]*T
}

func newState() *State { return &State{cells: map[cellKey]*T{}} }

func (s *State) clone() *State {
	n := &State{cells: make(map[cellKey]*T, len(s.cells)+8)}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

// what is known about each cell and object, independent of the state
type cellInfo struct {
	obj  *T
	path string
	typ  types.Type // leaf type
}

var (
	cellInfos  = map[cellKey]*cellInfo{}
	allocCount = 0
)

func newAlloc(tag string) *T {
	allocCount++
	return mkObj("alloc", strconv.Itoa(allocCount)+":"+tag, nil)
}

func allocNum(o *T) int {
	n, _ := strconv.Atoi(strings.SplitN(o.aux, ":", 2)[0])
	return n
}

type leaf struct {
	path string
	typ  types.Type
}

func isSmallArr(t types.Type) (*types.Array, bool) {
	a, ok := t.Underlying().(*types.Array)
	if ok && a.Len() <= smallArray {
		return a, true
	}
	return a, false
}

// leavesOf lists the scalar leaves of a type, big arrays contributing "[]".
func leavesOf(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{"." + strconv.Itoa(i) + l.path, l.typ})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		if u.Len() <= smallArray {
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leavesOf(u.Elem()) {
					out = append(out, leaf{"." + strconv.FormatInt(i, 10) + l.path, l.typ})
				}
			}
			return out
		}
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, l.typ})
		}
		return out
	}
	return []leaf{{"", t}}
}

func kindOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "b"
		case u.Info()&types.IsUnsigned != 0:
			return "u" + strconv.Itoa(basicBits(u))
		case u.Info()&types.IsInteger != 0:
			return "i"
		case u.Info()&types.IsFloat != 0:
			return "f"
		}
	case *types.Slice:
		return "S"
	case *types.Pointer:
		return "P"
	}
	return "o"
}

func basicBits(u *types.Basic) int {
	switch u.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.UntypedRune:
		return 64
	case types.Float32:
		return 32
	}
	return 64
}

// symval builds the unknown value of a type.
func symval(t types.Type, op, aux string, args ...*T) *T {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vs := make([]*T, u.NumFields())
		for i := range vs {
			vs[i] = symval(u.Field(i).Type(), op, aux+"."+strconv.Itoa(i), args...)
		}
		return tuple(vs...)
	case *types.Array:
		if u.Len() <= smallArray {
			vs := make([]*T, u.Len())
			for i := range vs {
				vs[i] = symval(u.Elem(), op, aux+"."+strconv.Itoa(i), args...)
			}
			return tuple(vs...)
		}
		var vs []*T
		for _, l := range leavesOf(t) {
			vs = append(vs, atom("AFN", op+aux+l.path+"@"+kindOf(l.typ), false, false, false, args...))
		}
		return tuple(vs...)
	}
	switch k := kindOf(t); {
	case k == "f":
		return anum(atom(op, aux, true, false, false, args...))
	case k == "i":
		return anum(atom(op, aux, true, true, false, args...))
	case k[0] == 'u':
		return anum(atom(op, aux+"#"+k, true, true, true, args...))
	case k == "b":
		return opaqueBool(atom(op, aux, false, false, false, args...))
	case k == "S":
		return symSlice(atom(op, aux, false, false, false, args...))
	case k == "P":
		return symPtr(atom(op, aux, false, false, false, args...))
	}
	return atom(op, aux, false, false, false, args...)
}

func zeroVal(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vs := make([]*T, u.NumFields())
		for i := range vs {
			vs[i] = zeroVal(u.Field(i).Type())
		}
		return tuple(vs...)
	case *types.Array:
		if u.Len() <= smallArray {
			vs := make([]*T, u.Len())
			for i := range vs {
				vs[i] = zeroVal(u.Elem())
			}
			return tuple(vs...)
		}
		var vs []*T
		for _, l := range leavesOf(t) {
			z := zeroVal(l.typ)
			vs = append(vs, mkLamF(func(*T) *T { return z }))
		}
		return tuple(vs...)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return pZero
		case u.Info()&types.IsString != 0:
			return str("")
		}
	}
	return tNil
}

// initCell is the content of a cell that was never written.
func (e *Ev) initCell(obj *T, path string, typ types.Type) *T {
	arr := strings.Contains(path, "[]")
	switch obj.op {
	case "alloc":
		if v, ok := e.initCells[cellKey{obj.id, path}]; ok {
			return v
		}
		z := zeroVal(typ)
		if arr {
			return mkLamF(func(*T) *T { return z })
		}
		return z
	case "sym":
		a := obj.args[0]
		if arr {
			return atom("AINIT", path+"@"+kindOf(typ), false, false, false, a)
		}
		return symval(typ, "INIT", path, a)
	case "glob":
		if v, ok := e.globalCell(obj, path, typ); ok {
			return v
		}
		a := atom("global", obj.aux, false, false, false)
		if arr {
			return atom("AINIT", path+"@"+kindOf(typ), false, false, false, a)
		}
		return symval(typ, "INIT", path, a)
	case "world":
		return atom("world", path, false, false, false)
	}
	fail("object kind %s", obj.op)
	return nil
}

func (e *Ev) readCell(st *State, obj *T, path string, typ types.Type) *T {
	k := cellKey{obj.id, path}
	if _, ok := cellInfos[k]; !ok {
		cellInfos[k] = &cellInfo{obj, path, typ}
	}
	if len(e.views) > 0 {
		if v, ok := e.shared(st, obj.id, path); ok {
			return v
		}
	}
	if v, ok := st.cells[k]; ok {
		return v
	}
	return e.initCell(obj, path, typ)
}

func (e *Ev) writeCell(st *State, obj *T, path string, typ types.Type, v *T) {
	k := cellKey{obj.id, path}
	if _, ok := cellInfos[k]; !ok {
		cellInfos[k] = &cellInfo{obj, path, typ}
	}
	if len(e.views) > 0 {
		e.settleObj(st, obj.id)
	}
	st.cells[k] = v
}

func (e *Ev) cellOf(st *State, k cellKey) *T {
	if len(e.views) > 0 {
		if v, ok := e.shared(st, k.obj, k.path); ok {
			return v
		}
	}
	return e.rawCell(st, k)
}

func (e *Ev) rawCell(st *State, k cellKey) *T {
	if v, ok := st.cells[k]; ok {
		return v
	}
	ci := cellInfos[k]
	return e.initCell(ci.obj, ci.path, ci.typ)
}

// load reads a value of type typ through a pointer.
func (e *Ev) load(st *State, ptr *T, typ types.Type) *T {
	return lift(func(l []*T) *T {
		p := l[0]
		if p.k != KPtr {
			if p.k == KNil || p.k == KBot {
				return tBot
			}
			fail("load through %s", show(p))
		}
		return e.loadAt(st, p.args[0], p.aux, p.args[1:], typ)
	}, ptr)
}

func (e *Ev) loadAt(st *State, obj *T, path string, idx []*T, typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		vs := make([]*T, u.NumFields())
		for i := range vs {
			vs[i] = e.loadAt(st, obj, path+"."+strconv.Itoa(i), idx, u.Field(i).Type())
		}
		return tuple(vs...)
	case *types.Array:
		if u.Len() <= smallArray {
			vs := make([]*T, u.Len())
			for i := range vs {
				vs[i] = e.loadAt(st, obj, path+"."+strconv.Itoa(i), idx, u.Elem())
			}
			return tuple(vs...)
		}
		var vs []*T
		n := num(u.Len())
		for _, l := range leavesOf(u.Elem()) {
			c := e.readCell(st, obj, path+"[]"+l.path, l.typ)
			if len(idx) == 0 {
				vs = append(vs, c)
			} else {
				b := mul(idx[0], n)
				vs = append(vs, mkLamF(func(j *T) *T { return sel(c, add(b, j)) }))
			}
		}
		return tuple(vs...)
	}
	c := e.readCell(st, obj, path, typ)
	if strings.Contains(path, "[]") {
		return sel(c, idx[0])
	}
	return c
}

// storeTo writes v through a pointer; guarded when the pointer is conditional.
func (e *Ev) storeTo(st *State, ptr *T, typ types.Type, v *T) {
	e.storeCond(st, ptr, typ, v, tTrue)
}

func (e *Ev) storeCond(st *State, ptr *T, typ types.Type, v, cond *T) {
	switch ptr.k {
	case KIte:
		c := varT(ptr.v)
		e.storeCond(st, ptr.args[0], typ, v, and(cond, c))
		e.storeCond(st, ptr.args[1], typ, v, and(cond, not(c)))
		return
	case KBot, KNil:
		return
	case KPtr:
	default:
		fail("store through %s", show(ptr))
	}
	if cond == tFalse {
		return
	}
	e.storeAt(st, ptr.args[0], ptr.aux, ptr.args[1:], typ, v, cond)
}

func comp(v *T, i int) *T {
	return lift(func(l []*T) *T {
		if l[0].k != KTuple {
			fail("component %d of %s", i, show(l[0]))
		}
		return l[0].args[i]
	}, v)
}

func (e *Ev) storeAt(st *State, obj *T, path string, idx []*T, typ types.Type, v, cond *T) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.storeAt(st, obj, path+"."+strconv.Itoa(i), idx, u.Field(i).Type(), comp(v, i), cond)
		}
		return
	case *types.Array:
		if u.Len() <= smallArray {
			for i := int64(0); i < u.Len(); i++ {
				e.storeAt(st, obj, path+"."+strconv.FormatInt(i, 10), idx, u.Elem(), comp(v, int(i)), cond)
			}
			return
		}
		for i, l := range leavesOf(u.Elem()) {
			pp := path + "[]" + l.path
			old := e.readCell(st, obj, pp, l.typ)
			nv := comp(v, i)
			if len(idx) > 0 {
				b := mul(idx[0], num(u.Len()))
				in := nv
				nv = mkLamF(func(j *T) *T {
					c := and(lessEq(b, j), less(j, addc(b, u.Len())))
					return ite(c, sel(in, sub(j, b)), sel(old, j))
				})
			}
			e.writeCell(st, obj, pp, l.typ, ite(cond, nv, old))
		}
		return
	}
	old := e.readCell(st, obj, path, typ)
	if strings.Contains(path, "[]") {
		i := idx[0]
		if e.tr != nil && e.vague(i, v, typ) {
			e.writeCell(st, obj, path, typ, e.forgetCell(v, path, typ))
			return
		}
		if _, known := intOf(i); e.tr != nil && !known {
			e.writeCell(st, obj, path, typ, e.anyElem(ite(opaqueBool(freshSym(false, false, "b")), v, sel(old, anum(freshSym(true, true, "v"))))))
			return
		}
		e.writeCell(st, obj, path, typ, mkLamF(func(j *T) *T {
			return ite(and(cond, numEq(j, i)), v, sel(old, j))
		}))
		return
	}
	e.writeCell(st, obj, path, typ, e.forget(ite(cond, v, old), typ))
}

// indexPtr is &base[i] for a pointer to an array.
func indexPtr(ptr *T, arr *types.Array, i *T) *T {
	return lift(func(l []*T) *T {
		p, i := l[0], l[1]
		if p.k != KPtr {
			if p.k == KNil || p.k == KBot {
				return tBot
			}
			fail("index of %s", show(p))
		}
		if arr.Len() <= smallArray {
			return smallIdx(p.args[0], p.aux, p.args[1:], arr.Len(), i)
		}
		if len(p.args) > 1 {
			return mkPtr(p.args[0], p.aux+"[]", add(mul(p.args[1], num(arr.Len())), i))
		}
		return mkPtr(p.args[0], p.aux+"[]", i)
	}, ptr, i)
}

func smallIdx(obj *T, path string, idx []*T, n int64, i *T) *T {
	if c, ok := intOf(i); ok {
		if c < 0 || c >= n {
			return tBot
		}
		return mkPtr(obj, path+"."+strconv.FormatInt(c, 10), idx...)
	}
	r := mkPtr(obj, path+"."+strconv.FormatInt(n-1, 10), idx...)
	for c := n - 2; c >= 0; c-- {
		r = ite(numEq(i, num(c)), mkPtr(obj, path+"."+strconv.FormatInt(c, 10), idx...), r)
	}
	return r
}

// elemPtr is &s[i] for a slice.
func elemPtr(s, i *T) *T {
	return lift(func(l []*T) *T {
		s, i := l[0], l[1]
		if s.k == KNil || s.k == KBot {
			return tBot
		}
		if s.k != KSlice {
			fail("index of %s", show(s))
		}
		off := add(s.args[1], i)
		if p := strings.Index(s.aux, "!"); p >= 0 {
			n, _ := strconv.ParseInt(s.aux[p+1:], 10, 64)
			return smallIdx(s.args[0], s.aux[:p], nil, n, off)
		}
		return mkPtr(s.args[0], s.aux+"[]", off)
	}, s, i)
}

// elemArr is the content of a slice as an array indexed from its start, for
// one leaf of the element type.
func (e *Ev) elemArr(st *State, s *T, elem types.Type, l leaf) *T {
	return mkLamF(func(j *T) *T {
		return lift(func(x []*T) *T {
			s := x[0]
			if s.k == KNil {
				return zeroVal(l.typ)
			}
			if s.k != KSlice {
				fail("contents of %s", show(s))
			}
			return e.leafAt(st, elemPtr(s, j), l)
		}, s)
	})
}

func (e *Ev) leafAt(st *State, p *T, l leaf) *T {
	if strings.Contains(l.path, "[]") {
		fail("slice of large arrays")
	}
	return lift(func(y []*T) *T {
		p := y[0]
		if p.k == KBot {
			return tBot
		}
		return e.loadAt(st, p.args[0], p.aux+l.path, p.args[1:], l.typ)
	}, p)
}

// makeSlice allocates a slice with given contents per leaf (nil: zero).
func (e *Ev) makeSlice(st *State, elem types.Type, ln *T, content func(l leaf) *T) *T {
	o := newAlloc("slice")
	for _, l := range leavesOf(elem) {
		if strings.Contains(l.path, "[]") {
			if content != nil {
				fail("slice of large arrays")
			}
			continue
		}
		if content != nil {
			e.writeCell(st, o, "[]"+l.path, l.typ, content(l))
		} else {
			e.readCell(st, o, "[]"+l.path, l.typ)
		}
	}
	return mkSlice(o, "", pZero, ln, ln)
}

// mergeStates joins states under disjoint conditions.
func (e *Ev) mergeStates(conds []*T, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	sts = e.settleMerge(sts)
	out := newState()
	keys := map[cellKey]bool{}
	for _, s := range sts {
		for k := range s.cells {
			keys[k] = true
		}
	}
	var ks []cellKey
	for k := range keys {
		ks = append(ks, k)
	}
	sortKeys(ks)
	for _, k := range ks {
		vs := make([]*T, len(sts))
		same := true
		for i, s := range sts {
			vs[i] = e.rawCell(s, k)
			if vs[i] != vs[0] {
				same = false
			}
		}
		if same {
			out.cells[k] = vs[0]
			continue
		}
		out.cells[k] = foldIte(conds, vs)
		if ci := cellInfos[k]; e.tr != nil && ci != nil {
			out.cells[k] = e.forgetCell(out.cells[k], ci.path, ci.typ)
		}
	}
	return out
}

func foldIte(conds, vs []*T) *T {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = ite(conds[i], vs[i], r)
	}
	return r
}

// ---------------------------------------------------------------- globals

type globInfo struct {
	state   *State
	ok      bool
	mutable map[*ssa.Global]bool
}

// mutableGlobals finds globals written (or whose address escapes) outside
// package initialisation.
func mutableGlobals(fns []*ssa.Function) map[*ssa.Global]bool {
	mut := map[*ssa.Global]bool{}
	var root func(v ssa.Value) *ssa.Global
	root = func(v ssa.Value) *ssa.Global {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X)
		case *ssa.IndexAddr:
			return root(x.X)
		}
		return nil
	}
	for _, fn := range fns {
		if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := root(x.Addr); g != nil {
						mut[g] = true
					}
					if g := root(x.Val); g != nil {
						mut[g] = true
					}
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
				default:
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if g := root(*op); g != nil {
							if _, isPtr := (*op).Type().Underlying().(*types.Pointer); isPtr {
								// a method call with a pointer receiver or an escaping address
								mut[g] = true
							}
						}
					}
				}
			}
		}
	}
	return mut
}
