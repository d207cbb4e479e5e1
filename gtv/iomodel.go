package main

// Files and bytes. A file opened for reading is its bytes and a position: what
// is read is a function of the path and the position. A file being written is
// the chain of what was written to it, handed to the outside world when it is
// closed. A slice recast as bytes is a second object that shares its contents.

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fileInfo struct {
	path *T
	out  bool
}

type leafOff struct {
	leaf
	off, size int64
	kind      string
}

type view struct {
	b    *T // the byte object
	s    *T // the slice it shares memory with
	n    *T // bytes in view
	size int64
	offs []leafOff
}

var (
	intType  = types.Typ[types.Int]
	byteType = types.Typ[types.Byte]
	chunkTyp = types.Typ[types.UnsafePointer]
)

// binSize is the size of a fixed-size scalar.
func binSize(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		fail("no fixed size: %s", t)
	}
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int64, types.Uint64, types.Float64:
		return 8
	}
	fail("no fixed size: %s", t)
	return 0
}

// offsets lays the leaves of a type out without padding.
func offsets(t types.Type) ([]leafOff, int64) {
	var out []leafOff
	off := int64(0)
	for _, l := range leavesOf(t) {
		if strings.Contains(l.path, "[]") {
			fail("layout of a large array")
		}
		n := binSize(l.typ)
		out = append(out, leafOff{l, off, n, binKind(l.typ)})
		off += n
	}
	return out, off
}

func binKind(t types.Type) string {
	return kindOf(t)[:1] + strconv.FormatInt(binSize(t), 10)
}

// soleAtom is the atom a term consists of.
func soleAtom(t *T) *T {
	switch t.k {
	case KAtom:
		return t
	case KPoly:
		if len(t.ms) == 1 && t.ms[0].c.Cmp(ratOne) == 0 && len(t.ms[0].f) == 1 && t.ms[0].f[0].e == 1 {
			return t.ms[0].f[0].a
		}
	}
	return nil
}

// byteOf is byte r (in memory order) of a scalar.
func byteOf(kind string, x, r *T) *T {
	return lift(func(l []*T) *T {
		x, r := l[0], l[1]
		if a := soleAtom(x); a != nil && a.op == "uf" && a.aux == "compose:"+kind {
			if i, ok := intOf(r); ok && i >= 0 && int(i) < len(a.args) {
				return a.args[i]
			}
		}
		if kind[0] != 'f' {
			if c, ok := intOf(x); ok {
				if i, ok := intOf(r); ok {
					return num(int64(uint64(c) >> (8 * uint(i)) & 255))
				}
			}
		}
		return anum(atom("uf", "byte:"+kind+"#u8", true, true, true, x, r))
	}, x, r)
}

// compose is the scalar with the given bytes in memory order.
func compose(kind string, bs []*T) *T {
	if kind[1:] == "1" && kind[0] == 'u' {
		return bs[0]
	}
	return lift(func(l []*T) *T {
		var x *T
		for i, b := range l {
			a := soleAtom(b)
			if a == nil || a.op != "uf" || a.aux != "byte:"+kind+"#u8" {
				x = nil
				break
			}
			if k, ok := intOf(a.args[1]); !ok || k != int64(i) || x != nil && a.args[0] != x {
				x = nil
				break
			}
			x = a.args[0]
		}
		if x != nil {
			return x
		}
		a := atom("uf", "compose:"+kind, kind[0] != 'b', kind[0] == 'i' || kind[0] == 'u', kind[0] == 'u', l...)
		if kind[0] == 'b' {
			return opaqueBool(a)
		}
		return anum(a)
	}, bs...)
}

// big says whether a byte order value is big endian, when that is known.
func bigOrder(o *T) *T {
	return lift(func(l []*T) *T {
		switch o := l[0]; {
		case o.k == KIface && strings.HasSuffix(o.aux, "binary.bigEndian"):
			return tTrue
		case o.k == KIface && (strings.HasSuffix(o.aux, "binary.littleEndian") || strings.HasSuffix(o.aux, "binary.nativeEndian")):
			return tFalse
		case o.k == KBot || o.k == KNil:
			return tBot
		}
		return opaqueBool(atom("uf", "bigEndian", false, false, false, l[0]))
	}, o)
}

// ordered is a scalar made of consecutive bytes in a byte order.
func ordered(kind string, size int64, big *T, at func(i int64) *T) *T {
	le, be := make([]*T, size), make([]*T, size)
	for i := int64(0); i < size; i++ {
		le[i] = at(i)
		be[size-1-i] = le[i]
	}
	if size == 1 {
		return compose(kind, le)
	}
	return ite(big, compose(kind, be), compose(kind, le))
}

// ---------------------------------------------------------------- files

func (e *Ev) newFile(path *T, out bool, mode string) *T {
	o := newAlloc("file")
	e.files[o.id] = &fileInfo{path, out}
	if out {
		e.initCells[cellKey{o.id, ".out"}] = lift(func(l []*T) *T { return atom("EFF", "newfile"+mode, false, false, false, l[0]) }, path)
	}
	return mkPtr(o, "")
}

// fileOf finds the modelled file behind a reader, writer or *os.File.
func (e *Ev) fileOf(v *T) (*T, *fileInfo) {
	for v.k == KIface {
		v = v.args[0]
	}
	if v.k == KPtr && v.aux == "" {
		if fi := e.files[v.args[0].id]; fi != nil {
			return v.args[0], fi
		}
	}
	return nil, nil
}

func (fi *fileInfo) byteAt(p *T) *T {
	arr := lift(func(l []*T) *T { return atom("AFN", "file@u8", false, false, false, l[0]) }, fi.path)
	return sel(arr, p)
}

func (fi *fileInfo) length() *T {
	return lift(func(l []*T) *T { return anum(atom("uf", "filelen", true, true, true, l[0])) }, fi.path)
}

func nonnilErr() *T { return atom("nonnil", "error", false, false, false) }

// take advances a file by n bytes: the old position and the error.
func (e *Ev) take(st *State, o *T, fi *fileInfo, n *T) (pos, err *T) {
	pos = e.readCell(st, o, ".pos", intType)
	end := add(pos, n)
	e.writeCell(st, o, ".pos", intType, end)
	return pos, ite(lessEq(end, fi.length()), tNil, nonnilErr())
}

// put appends a chunk to a file being written.
func (e *Ev) put(st *State, o *T, kind string, args ...*T) {
	old := e.readCell(st, o, ".out", chunkTyp)
	nw := lift(func(l []*T) *T {
		if kind == "str" && l[0].k == KAtom && l[0].op == "EFF" && l[0].aux == "str" {
			return atom("EFF", kind, false, false, false, l[0].args[0], concat(l[0].args[1], l[1]))
		}
		return atom("EFF", kind, false, false, false, l...)
	}, append([]*T{old}, args...)...)
	e.writeCell(st, o, ".out", chunkTyp, nw)
}

func (e *Ev) openModel(c *ssa.CallCommon, path *T) []*T {
	ok := lift(func(l []*T) *T { return opaqueBool(atom("uf", "exists", false, false, false, l[0])) }, path)
	return []*T{e.newFile(path, false, ""), ite(ok, tNil, nonnilErr())}
}

func (e *Ev) createModel(c *ssa.CallCommon, path *T, mode string) []*T {
	ok := lift(func(l []*T) *T { return opaqueBool(atom("uf", "creatable"+mode, false, false, false, l[0])) }, path)
	return []*T{e.newFile(path, true, mode), ite(ok, tNil, nonnilErr())}
}

func osOpen(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T   { return e.openModel(c, a[0]) }
func osCreate(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T { return e.createModel(c, a[0], "") }

func osOpenFile(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
	fl, ok := intOf(a[1])
	if !ok {
		fail("os.OpenFile with unknown flags")
	}
	if fl == 0 {
		return e.openModel(c, a[0])
	}
	mode := strconv.FormatInt(fl, 16)
	if fl&3 != 0 && fl&^3 == 0x240 { // write access, O_CREAT|O_TRUNC
		mode = ""
	}
	return e.createModel(c, a[0], mode)
}

// onFile runs f on the modelled file of argument 0, case by case, or falls
// back to an opaque effect.
func onFile(name string, f func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T) handler {
	var h handler
	h = func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
		switch a[0].k {
		case KIte:
			return e.splitCall(a[0], st, func(v *T, s *State) []*T {
				return h(e, c, append([]*T{v}, a[1:]...), s)
			})
		case KBot, KNil:
			return bots(c)
		}
		if o, fi := e.fileOf(a[0]); fi != nil {
			return f(e, c, o, fi, a, st)
		}
		switch name {
		case "encoding/binary.Read":
			return binRead(e, c, a, st)
		case "io.ReadFull":
			return ioReadFull(e, c, a, st)
		}
		return e.effect(name, c.Signature(), a, st, false)
	}
	return h
}

func fileHandlers() map[string]handler {
	type fn = func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T
	hs := map[string]fn{
		"(*os.File).Close": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			if fi.out {
				w := e.worldOf(st)
				d := e.readCell(st, o, ".out", chunkTyp)
				e.setWorld(st, lift(func(l []*T) *T { return atom("EFF", "file", false, false, false, l...) }, w, d))
			}
			return []*T{tNil}
		},
		"(*os.File).Seek": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			wh, ok := intOf(a[2])
			if !ok || wh == 2 || fi.out {
				fail("seek outside the model")
			}
			p := a[1]
			if wh == 1 {
				p = add(p, e.readCell(st, o, ".pos", intType))
			}
			e.writeCell(st, o, ".pos", intType, p)
			return []*T{p, tNil}
		},
		"encoding/binary.Read": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			return []*T{e.fileRead(st, o, fi, bigOrder(a[1]), a[2])}
		},
		"io.ReadFull": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			n := lenOf(a[1])
			pos, err := e.take(st, o, fi, n)
			e.putBytes(st, a[1], func(j *T) *T { return fi.byteAt(add(pos, j)) })
			return []*T{ite(equalT(err, tNil), n, anum(atom("uf", "partial", true, true, true))), err}
		},
		"(*os.File).Read": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			// may stop anywhere: the count is unknown and so is the rest of the buffer
			n := lenOf(a[1])
			pos := e.readCell(st, o, ".pos", intType)
			got := lift(func(l []*T) *T { return anum(atom("uf", "readcount", true, true, true, l...)) }, fi.path, pos, n)
			e.writeCell(st, o, ".pos", intType, add(pos, got))
			e.putBytes(st, a[1], func(j *T) *T {
				return ite(less(j, got), fi.byteAt(add(pos, j)), anum(atom("uf", "stale#u8", true, true, true, j)))
			})
			return []*T{got, ite(less(pZero, got), tNil, nonnilErr())}
		},
		"encoding/binary.Write": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			e.fileWrite(st, o, bigOrder(a[1]), a[2])
			return []*T{tNil}
		},
		"(*os.File).Write": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			n := lenOf(a[1])
			for _, v := range e.views {
				if a[1].k == KSlice && v.b == a[1].args[0] && a[1].args[1] == pZero && n == v.n && e.isLive(st, v) {
					bytes := st.cells[cellKey{v.b.id, "[]"}]
					e.putElems(st, o, v.offs, v.size, lenOf(v.s), func(l leafOff, j *T) *T { return v.elem(bytes, l, j) })
					return []*T{n, tNil}
				}
			}
			e.put(st, o, "bytes", n, clampLam(n, e.elemArr(st, a[1], byteType, leaf{"", byteType})))
			return []*T{n, tNil}
		},
		"(*os.File).WriteString": func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			e.put(st, o, "str", a[1])
			return []*T{lenOf(a[1]), tNil}
		},
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln"} {
		n := n
		hs[n] = func(e *Ev, c *ssa.CallCommon, o *T, fi *fileInfo, a []*T, st *State) []*T {
			e.put(st, o, "str", sprintN("fmt.S"+n[5:], e, c, a[1:], st))
			return []*T{anum(atom("uf", "written", true, true, true)), tNil}
		}
	}
	out := map[string]handler{}
	for n, f := range hs {
		out[n] = onFile(n, f)
	}
	out["os.Open"], out["os.Create"], out["os.OpenFile"] = osOpen, osCreate, osOpenFile
	return out
}

// putElems writes the elements of a slice, given as they are in memory.
func (e *Ev) putElems(st *State, o *T, ls []leafOff, sz int64, n *T, at func(l leafOff, j *T) *T) {
	shape := ""
	args := []*T{n}
	for _, l := range ls {
		l := l
		shape += l.kind + " "
		args = append(args, clampLam(n, mkLamF(func(j *T) *T { return at(l, j) })))
	}
	e.put(st, o, "elems:"+shape, args...)
}

func clampLam(n, a *T) *T {
	return mkLamF(func(k *T) *T {
		in := and(lessEq(pZero, k), less(k, n))
		return ite(in, sel(a, k), pZero)
	})
}

// putBytes overwrites a byte slice.
func (e *Ev) putBytes(st *State, s *T, f func(j *T) *T) {
	switch s.k {
	case KNil, KBot:
		return
	case KSlice:
	default:
		fail("read into %s", show(s))
	}
	for _, v := range e.views {
		if v.b == s.args[0] && s.args[1] == pZero && s.args[2] == v.n && s.aux == "" {
			// all of it
			e.writeCell(st, v.b, "[]", byteType, mkLamF(f))
			return
		}
	}
	e.overwrite(st, s, leaf{"", byteType}, pZero, s.args[2], f)
}

// readVal is the value of a type whose bytes start at pos.
func (fi *fileInfo) readVal(t types.Type, big, pos *T) (*T, int64) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var vs []*T
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			v, k := fi.readVal(u.Field(i).Type(), big, addc(pos, n))
			vs = append(vs, v)
			n += k
		}
		return tuple(vs...), n
	case *types.Array:
		if u.Len() <= smallArray {
			var vs []*T
			n := int64(0)
			for i := int64(0); i < u.Len(); i++ {
				v, k := fi.readVal(u.Elem(), big, addc(pos, n))
				vs = append(vs, v)
				n += k
			}
			return tuple(vs...), n
		}
		ls, sz := offsets(u.Elem())
		var vs []*T
		for _, l := range ls {
			l := l
			vs = append(vs, mkLamF(func(j *T) *T {
				return ordered(l.kind, l.size, big, func(i int64) *T {
					return fi.byteAt(addc(add(pos, scale(j, rat64(sz))), l.off+i))
				})
			}))
		}
		return tuple(vs...), sz * u.Len()
	}
	n := binSize(t)
	return ordered(binKind(t), n, big, func(i int64) *T { return fi.byteAt(addc(pos, i)) }), n
}

func (e *Ev) fileRead(st *State, o *T, fi *fileInfo, big, dst *T) *T {
	if dst.k == KIte {
		c := varT(dst.v)
		s1, s2 := st.clone(), st.clone()
		r1, r2 := e.fileRead(s1, o, fi, big, dst.args[0]), e.fileRead(s2, o, fi, big, dst.args[1])
		st.cells = e.mergeStates([]*T{c, not(c)}, []*State{s1, s2}).cells
		return ite(c, r1, r2)
	}
	if dst.k == KBot {
		return tBot
	}
	if dst.k != KIface {
		fail("binary.Read into %s", show(dst))
	}
	dt := dst.ref.(types.Type)
	v := dst.args[0]
	var elem types.Type
	switch u := dt.Underlying().(type) {
	case *types.Slice:
		elem = u.Elem()
	case *types.Pointer:
		if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
			elem, v = sl.Elem(), e.load(st, v, u.Elem())
			break
		}
		pos := e.readCell(st, o, ".pos", intType)
		val, n := fi.readVal(u.Elem(), big, pos)
		_, err := e.take(st, o, fi, num(n))
		e.storeTo(st, v, u.Elem(), val)
		return err
	default:
		fail("binary.Read into %s", dt)
	}
	if v.k == KNil {
		return tNil
	}
	if v.k != KSlice {
		fail("binary.Read into %s", show(v))
	}
	ls, sz := offsets(elem)
	pos, err := e.take(st, o, fi, scale(v.args[2], rat64(sz)))
	for _, l := range ls {
		l := l
		e.overwrite(st, v, l.leaf, pZero, v.args[2], func(j *T) *T {
			return ordered(l.kind, l.size, big, func(i int64) *T {
				return fi.byteAt(addc(add(pos, scale(j, rat64(sz))), l.off+i))
			})
		})
	}
	return err
}

func (e *Ev) fileWrite(st *State, o *T, big, src *T) {
	if src.k == KIte {
		c := varT(src.v)
		s1, s2 := st.clone(), st.clone()
		e.fileWrite(s1, o, big, src.args[0])
		e.fileWrite(s2, o, big, src.args[1])
		st.cells = e.mergeStates([]*T{c, not(c)}, []*State{s1, s2}).cells
		return
	}
	if src.k != KIface {
		fail("binary.Write of %s", show(src))
	}
	t := src.ref.(types.Type)
	v := src.args[0]
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = e.load(st, v, t)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if v.k == KNil {
			return
		}
		ls, sz := offsets(sl.Elem())
		arrs := map[string]*T{}
		for _, l := range ls {
			arrs[l.path] = e.elemArr(st, v, sl.Elem(), l.leaf)
		}
		e.putElems(st, o, ls, sz, lenOf(v), func(l leafOff, j *T) *T {
			x := sel(arrs[l.path], j)
			if l.size == 1 || big == tFalse {
				return x
			}
			return ordered(l.kind, l.size, big, func(i int64) *T { return byteOf(l.kind, x, num(i)) })
		})
		return
	}
	var rec func(t types.Type, v *T)
	rec = func(t types.Type, v *T) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), comp(v, i))
			}
			return
		case *types.Array:
			if u.Len() > smallArray {
				fail("binary.Write of a large array")
			}
			for i := 0; i < int(u.Len()); i++ {
				rec(u.Elem(), comp(v, i))
			}
			return
		}
		k := binKind(t)
		if binSize(t) == 1 {
			e.put(st, o, "scalar:"+k, v)
			return
		}
		e.put(st, o, "scalar:"+k, v, big)
	}
	rec(t, v)
}

// bytesOf is the bytes of a slice in a byte order.
func (e *Ev) bytesOf(st *State, s *T, elem types.Type, ls []leafOff, sz int64, big *T) *T {
	arrs := make([]*T, len(ls))
	for i, l := range ls {
		arrs[i] = e.elemArr(st, s, elem, l.leaf)
	}
	return mkLamF(func(k *T) *T {
		i := floorT(scale(k, ratFrac(1, sz)))
		r := sub(k, scale(i, rat64(sz)))
		var v *T
		for x := len(ls) - 1; x >= 0; x-- {
			l := ls[x]
			ri := addc(r, -l.off)
			b := byteOf(l.kind, sel(arrs[x], i), ri)
			if l.size > 1 && big != tFalse {
				b = ite(big, byteOf(l.kind, sel(arrs[x], i), sub(num(l.size-1), ri)), b)
			}
			if v == nil {
				v = b
			} else {
				v = ite(less(r, num(l.off+l.size)), b, v)
			}
		}
		return v
	})
}

// ---------------------------------------------------------------- slices recast as bytes

func isSliceHeader(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "SliceHeader"
}

// castSource is the pointer operand (and pointee type) a pointer was recast
// from through unsafe.Pointer.
func castSource(v ssa.Value) (ssa.Value, types.Type) {
	c, ok := v.(*ssa.Convert)
	if !ok {
		return nil, nil
	}
	c2, ok := c.X.(*ssa.Convert)
	if !ok {
		return nil, nil
	}
	p, ok := c2.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	return c2.X, p.Elem()
}

// recast handles loads through recast pointers: a slice seen as its header
// and a header seen as a slice of bytes.
func (e *Ev) recast(fr *Frame, x *ssa.UnOp, st *State) (*T, bool) {
	src, from := castSource(x.X)
	if src == nil || types.Identical(from, x.Type()) {
		return nil, false
	}
	if isSliceHeader(x.Type()) {
		sl, ok := from.Underlying().(*types.Slice)
		if !ok {
			fail("slice header of %s", from)
		}
		s := e.load(st, e.val(fr, src), from)
		return lift(func(l []*T) *T {
			return tuple(mkIface("sliceData "+types.TypeString(sl.Elem(), nil), sl.Elem(), l[0]), lenOf(l[0]), capOf(l[0]))
		}, s), true
	}
	if isSliceHeader(from) {
		sl, ok := x.Type().Underlying().(*types.Slice)
		if !ok || binSize(sl.Elem()) != 1 {
			fail("slice header seen as %s", x.Type())
		}
		h := e.load(st, e.val(fr, src), from)
		if h.k != KTuple || h.args[0].k != KIface || !strings.HasPrefix(h.args[0].aux, "sliceData ") {
			fail("slice header %s", show(h))
		}
		return e.newView(st, h.args[0].args[0], h.args[0].ref.(types.Type), h.args[1], sl.Elem()), true
	}
	return nil, false
}

func (e *Ev) newView(st *State, s *T, elem types.Type, n *T, bt types.Type) *T {
	if s.k == KNil {
		return tNil
	}
	if s.k != KSlice {
		fail("bytes of %s", show(s))
	}
	e.settleObj(st, s.args[0].id)
	ls, sz := offsets(elem)
	if c := lessEq(n, scale(s.args[2], rat64(sz))); c != tTrue {
		fail("%d-byte elements seen as more bytes than they have", sz)
	}
	if lessEq(scale(s.args[2], rat64(sz)), n) != tTrue {
		fail("%d-byte elements seen as fewer bytes than they have", sz)
	}
	b := newAlloc("bytes")
	v := &view{b: b, s: s, n: n, size: sz, offs: ls}
	e.writeCell(st, b, "[]", bt, e.bytesOf(st, s, elem, ls, sz, tFalse))
	e.writeCell(st, b, ".live", types.Typ[types.Bool], tTrue)
	e.views = append(e.views, v)
	return mkSlice(b, "", pZero, n, n)
}

func (e *Ev) isLive(st *State, v *view) bool {
	c, ok := st.cells[cellKey{v.b.id, ".live"}]
	if !ok || c == tFalse {
		return false
	}
	if c != tTrue {
		fail("bytes of a slice shared on some paths only")
	}
	return true
}

// shared is the content of a cell whose memory is being seen as bytes.
func (e *Ev) shared(st *State, obj int, path string) (*T, bool) {
	for _, v := range e.views {
		if v.s.args[0].id != obj || !e.isLive(st, v) {
			continue
		}
		bytes := st.cells[cellKey{v.b.id, "[]"}]
		for _, l := range v.offs {
			if p := strings.Index(v.s.aux, "!"); p >= 0 {
				rest, ok := strings.CutPrefix(path, v.s.aux[:p]+".")
				if !ok {
					continue
				}
				is, lp, _ := strings.Cut(rest, ".")
				if lp != "" {
					lp = "." + lp
				}
				i, err := strconv.Atoi(is)
				if err != nil || lp != l.path {
					continue
				}
				return v.elem(bytes, l, sub(num(int64(i)), v.s.args[1])), true
			}
			if path != v.s.aux+"[]"+l.path {
				continue
			}
			l := l
			old := e.rawCell(st, cellKey{obj, path})
			off, ln := v.s.args[1], v.s.args[2]
			return mkLamF(func(i *T) *T {
				j := sub(i, off)
				in := and(lessEq(pZero, j), less(j, ln))
				return ite(in, v.elem(bytes, l, j), sel(old, i))
			}), true
		}
	}
	return nil, false
}

func (v *view) elem(bytes *T, l leafOff, j *T) *T {
	bs := make([]*T, l.size)
	for i := range bs {
		bs[i] = sel(bytes, addc(scale(j, rat64(v.size)), l.off+int64(i)))
	}
	return compose(l.kind, bs)
}

// settle copies bytes back into the slice they are shared with and ends the view.
func (e *Ev) settle(st *State, v *view) {
	type up struct {
		k cellKey
		v *T
	}
	var ups []up
	obj := v.s.args[0]
	for _, l := range v.offs {
		paths := []string{v.s.aux + "[]" + l.path}
		if p := strings.Index(v.s.aux, "!"); p >= 0 {
			n, _ := strconv.Atoi(v.s.aux[p+1:])
			paths = nil
			for i := 0; i < n; i++ {
				paths = append(paths, v.s.aux[:p]+"."+strconv.Itoa(i)+l.path)
			}
		}
		for _, p := range paths {
			k := cellKey{obj.id, p}
			if _, ok := cellInfos[k]; !ok {
				cellInfos[k] = &cellInfo{obj, p, l.typ}
			}
			if c, ok := e.shared(st, obj.id, p); ok {
				ups = append(ups, up{k, c})
			}
		}
	}
	for _, u := range ups {
		st.cells[u.k] = u.v
	}
	st.cells[cellKey{v.b.id, ".live"}] = tFalse
}

func (e *Ev) settleObj(st *State, obj int) {
	for _, v := range e.views {
		if v.s.args[0].id == obj && e.isLive(st, v) {
			e.settle(st, v)
		}
	}
}

// settleMerge ends views that are not live on every path into a merge.
func (e *Ev) settleMerge(sts []*State) []*State {
	if len(e.views) == 0 {
		return sts
	}
	out := append([]*State(nil), sts...)
	for _, v := range e.views {
		n := 0
		for _, s := range out {
			if e.isLive(s, v) {
				n++
			}
		}
		if n == 0 || n == len(out) {
			continue
		}
		for i, s := range out {
			if e.isLive(s, v) {
				if out[i] == sts[i] {
					out[i] = s.clone()
				}
				e.settle(out[i], v)
			}
		}
	}
	return out
}

// settleLoop ends every view before a loop that stores no bytes.
func (e *Ev) settleLoop(L *loopT, st *State) {
	if len(e.views) == 0 {
		return
	}
	seen := map[*ssa.Function]bool{}
	var stores func(b *ssa.BasicBlock) bool
	stores = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if bt, ok := x.Val.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int8) {
					if _, ok := x.Addr.(*ssa.IndexAddr); ok {
						return true
					}
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && !seen[f] && len(f.Blocks) > 0 {
					seen[f] = true
					for _, b := range f.Blocks {
						if stores(b) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for b := range L.blocks {
		if stores(b) {
			return
		}
	}
	for _, v := range e.views {
		if e.isLive(st, v) {
			e.settle(st, v)
		}
	}
}

func rat64(n int64) *big.Rat      { return big.NewRat(n, 1) }
func ratFrac(a, b int64) *big.Rat { return big.NewRat(a, b) }
