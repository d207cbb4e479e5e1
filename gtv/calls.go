package main

import (
	"fmt"
	"go/types"
	"math/big"
	"path"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Ev) callCommon(fr *Frame, c *ssa.CallCommon, args []*T, fv *T, st *State) []*T {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(b.Name(), c, args, st)
	}
	if c.IsInvoke() {
		return e.invoke(c, fv, args, st)
	}
	if f := c.StaticCallee(); f != nil {
		var free []*T
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, e.val(fr, b))
			}
		}
		return e.callFn(f, c, args, free, st)
	}
	return e.callValue(c, fv, args, st)
}

// callValue calls a function value, splitting on conditional callees.
func (e *Ev) callValue(c *ssa.CallCommon, fv *T, args []*T, st *State) []*T {
	switch fv.k {
	case KClo:
		return e.callFn(fv.ref.(*ssa.Function), c, args, fv.args, st)
	case KIte:
		return e.splitCall(fv, st, func(v *T, s *State) []*T { return e.callValue(c, v, args, s) })
	case KBot, KNil:
		return bots(c)
	case KAtom:
		return e.effect("call", c.Signature(), append([]*T{fv}, args...), st, true)
	}
	fail("call of %s", show(fv))
	return nil
}

func bots(c *ssa.CallCommon) []*T {
	out := make([]*T, c.Signature().Results().Len())
	for i := range out {
		out[i] = tBot
	}
	return out
}

func (e *Ev) splitCall(v *T, st *State, f func(v *T, s *State) []*T) []*T {
	cond := varT(v.v)
	s1, s2 := st.clone(), st.clone()
	pc := e.pc
	e.pc = and(pc, cond)
	var r1, r2 []*T
	dead1, dead2 := e.pc == tFalse, false
	if !dead1 {
		r1 = f(v.args[0], s1)
	}
	e.pc = and(pc, not(cond))
	dead2 = e.pc == tFalse
	if !dead2 {
		r2 = f(v.args[1], s2)
	}
	e.pc = pc
	if dead1 {
		st.cells = s2.cells
		return r2
	}
	if dead2 {
		st.cells = s1.cells
		return r1
	}
	m := e.mergeStates([]*T{cond, not(cond)}, []*State{s1, s2})
	st.cells = m.cells
	out := make([]*T, len(r1))
	for i := range out {
		out[i] = ite(cond, r1[i], r2[i])
	}
	return out
}

func (e *Ev) invoke(c *ssa.CallCommon, recv *T, args []*T, st *State) []*T {
	switch recv.k {
	case KIface:
		dt := recv.ref.(types.Type)
		m := e.prog.LookupMethod(dt, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			fail("no method %s on %s", c.Method.Name(), dt)
		}
		return e.callFn(m, c, append([]*T{recv.args[0]}, args...), nil, st)
	case KIte:
		return e.splitCall(recv, st, func(v *T, s *State) []*T { return e.invoke(c, v, args, s) })
	case KBot, KNil:
		return bots(c)
	case KAtom:
		if c.Method.Name() == "Error" {
			return []*T{atom("uf", "Error()", false, false, false, recv)}
		}
		return e.effect("invoke."+c.Method.Name(), c.Signature(), append([]*T{recv}, args...), st, true)
	}
	fail("method call on %s", show(recv))
	return nil
}

func (e *Ev) callFn(f *ssa.Function, c *ssa.CallCommon, args, free []*T, st *State) []*T {
	name := fnName(f)
	if f.Name() == "init" && f.Synthetic != "" && f.Signature.Recv() == nil && len(f.Params) == 0 {
		if e.inInit && len(e.stack) == 0 {
			return nil
		}
		return nil
	}
	if m, ok := e.models[shortName(name)]; ok {
		delete(e.want, shortName(name))
		return e.call(m, args, nil, st)
	}
	if h, ok := special[name]; ok {
		return h(e, c, args, st)
	}
	if len(e.want) > 0 {
		delete(e.want, shortName(name))
	}
	if wr, ok := e.effects[shortName(name)]; ok {
		for _, i := range wr {
			e.touch(args[i], true, c.Pos())
		}
		return e.abstractCall(shortName(name), c.Signature(), args, wr, st)
	}
	if e.opaque[shortName(name)] {
		return e.pure(name, f.Signature, args, st)
	}
	if pkg := f.Package(); pkg != nil && len(f.Blocks) > 0 {
		return e.call(f, args, free, st)
	}
	if f.Package() == nil && len(f.Blocks) > 0 { // wrappers
		return e.call(f, args, free, st)
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		return e.call(f, args, free, st)
	}
	if isPure(name) {
		return e.pure(name, c.Signature(), args, st)
	}
	return e.effect(name, c.Signature(), args, st, false)
}

var purePkgs = []string{"math.", "strings.", "strconv.", "path.", "path/filepath.", "unicode.", "errors.Is", "(time.Duration)"}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// flatten gives the data content of a value handed to an external function.
func (e *Ev) flatten(st *State, v *T, t types.Type, depth int) *T {
	if depth > 4 {
		return v
	}
	return lift(func(l []*T) *T {
		v := l[0]
		switch v.k {
		case KIface:
			return mkIface(v.aux, v.ref, e.flatten(st, v.args[0], v.ref.(types.Type), depth+1))
		case KSlice:
			if sl, ok := t.Underlying().(*types.Slice); ok {
				parts := []*T{v.args[2]}
				for _, lf := range leavesOf(sl.Elem()) {
					if strings.Contains(lf.path, "[]") {
						continue
					}
					n := v.args[2]
					a := e.elemArr(st, v, sl.Elem(), lf)
					k := freshSym(true, true, "J")
					el := e.flatten(st, sel(a, anum(k)), lf.typ, depth+1)
					el = assume(el, domainLits(anum(k), n))
					// a short known slice is listed
					if c, ok := intOf(n); ok && c <= smallArray {
						for i := int64(0); i < c; i++ {
							parts = append(parts, e.flatten(st, sel(a, num(i)), lf.typ, depth+1))
						}
						continue
					}
					parts = append(parts, mkLam(k, el))
				}
				return tuple(parts...)
			}
		case KPtr:
			if v.args[0].op == "alloc" || e.deepPtr {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					if _, isS := pt.Elem().Underlying().(*types.Struct); isS || true {
						return tuple(str("&"), e.flatten(st, e.load(st, v, pt.Elem()), pt.Elem(), depth+1))
					}
				}
			}
		case KTuple:
			if s, ok := t.Underlying().(*types.Struct); ok {
				var out []*T
				for i := range v.args {
					out = append(out, e.flatten(st, v.args[i], s.Field(i).Type(), depth+1))
				}
				return tuple(out...)
			}
			if a, ok := isSmallArr(t); ok && len(v.args) == int(a.Len()) {
				var out []*T
				for i := range v.args {
					out = append(out, e.flatten(st, v.args[i], a.Elem(), depth+1))
				}
				return tuple(out...)
			}
		}
		return v
	}, v)
}

func (e *Ev) pure(name string, sig *types.Signature, args []*T, st *State) []*T {
	fl := e.flatArgs(sig, args, st)
	n := sig.Results().Len()
	out := make([]*T, n)
	for i := range out {
		t := sig.Results().At(i).Type()
		out[i] = lift(func(l []*T) *T {
			aux := name
			if n > 1 {
				aux += "." + string(rune('0'+i))
			}
			return symval(t, "uf", aux, l...)
		}, fl...)
	}
	return out
}

func (e *Ev) flatArgs(sig *types.Signature, args []*T, st *State) []*T {
	fl := make([]*T, len(args))
	off := len(args) - sig.Params().Len()
	for i, a := range args {
		if i-off < 0 {
			fl[i] = a
			continue
		}
		fl[i] = e.flatten(st, a, sig.Params().At(i-off).Type(), 0)
	}
	return fl
}

var pkgPathRE = regexp.MustCompile(modPath + `(/[a-z0-9_]+)*/([a-z0-9_]+)\.`)

// shortName drops the path of the repository's packages: "(*geom.Vec).Dot".
func shortName(n string) string { return pkgPathRE.ReplaceAllString(n, "$2.") }

// abstractCall records a call with the contents of its arguments and replaces
// what it writes (parameters in wr) by its result: a function of the contents of
// all arguments. Independent calls commute.
func (e *Ev) abstractCall(name string, sig *types.Signature, args []*T, wr []int, st *State) []*T {
	fl := make([]*T, len(args))
	var pts []types.Type
	if sig.Recv() != nil && len(args) > sig.Params().Len() {
		pts = append(pts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	e.deepPtr = true
	for i, a := range args {
		fl[i] = e.flatten(st, a, pts[i], 0)
	}
	e.deepPtr = false
	nw := lift(func(l []*T) *T { return atom("EFF", name, false, false, false, l...) }, fl...)
	for _, i := range wr {
		tag := lift(func(l []*T) *T { return atom("EFF", "out"+strconv.Itoa(i), false, false, false, l...) }, nw)
		switch t := pts[i].Underlying().(type) {
		case *types.Array:
			sl, ok := t.Elem().Underlying().(*types.Slice)
			if !ok || args[i].k != KTuple || len(args[i].args) != int(t.Len()) {
				fail("abstract call writes parameter %d of %s", i, name)
			}
			for j, a := range args[i].args {
				sub := lift(func(l []*T) *T { return atom("EFF", "part"+strconv.Itoa(j), false, false, false, l...) }, tag)
				e.fillSlice(st, a, sl.Elem(), sub)
			}
		case *types.Slice:
			e.fillSlice(st, args[i], t.Elem(), tag)
		case *types.Pointer:
			val := lift(func(l []*T) *T { return symval(t.Elem(), "read", "", l[0]) }, tag)
			e.storeTo(st, args[i], t.Elem(), val)
		default:
			fail("abstract call writes parameter %d of %s", i, name)
		}
	}
	n := sig.Results().Len()
	out := make([]*T, n)
	for i := range out {
		t := sig.Results().At(i).Type()
		out[i] = lift(func(l []*T) *T { return symval(t, "res", string(rune('0'+i)), l[0]) }, nw)
	}
	return out
}

func (e *Ev) worldOf(st *State) *T {
	return e.readCell(st, e.world, "", types.Typ[types.UnsafePointer])
}

func (e *Ev) setWorld(st *State, w *T) {
	e.writeCell(st, e.world, "", types.Typ[types.UnsafePointer], w)
}

// effect is a call with observable effects: it advances the world.
func (e *Ev) effect(name string, sig *types.Signature, args []*T, st *State, devirt bool) []*T {
	if !devirt && !effectOK(name) {
		fail("call to %s is outside the model", name)
	}
	if e.tr != nil && !strings.HasPrefix(name, "sync/atomic.") {
		for _, a := range args {
			e.touch(a, true, 0)
		}
	}
	fl := e.flatArgs(sig, args, st)
	w := e.worldOf(st)
	nw := lift(func(l []*T) *T { return atom("EFF", name, false, false, false, l...) }, append([]*T{w}, fl...)...)
	e.setWorld(st, nw)
	n := sig.Results().Len()
	out := make([]*T, n)
	for i := range out {
		t := sig.Results().At(i).Type()
		out[i] = lift(func(l []*T) *T { return symval(t, "res", string(rune('0'+i)), l[0]) }, nw)
	}
	return out
}

var effectPkgs = []string{"os.", "(*os.File).", "io.", "fmt.Print", "fmt.Fprint", "encoding/binary.", "io/ioutil.",
	"(*bufio.", "bufio.", "time.", "gopkg.in/gcfg.v1.", "github.com/phil-mansfield/table.", "runtime.", "math/rand.", "(*math/rand.Rand)", "(*sync.", "flag.", "sort.", "(os.", "(time."}

func effectOK(name string) bool {
	for _, p := range effectPkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type handler func(e *Ev, c *ssa.CallCommon, args []*T, st *State) []*T

func m1(f func(x *T) *T) handler {
	return func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T { return []*T{f(a[0])} }
}
func m2(f func(x, y *T) *T) handler {
	return func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T { return []*T{f(a[0], a[1])} }
}
func none(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T { return bots(c) }

func newErr(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
	return []*T{atom("nonnil", "error", false, false, false)}
}

var special map[string]handler

func init() {
	special = map[string]handler{
		"math.Floor": m1(floorT),
		"math.Ceil":  m1(ceilT),
		"math.Trunc": m1(truncT),
		"math.Sqrt":  m1(sqrtT),
		"math.Abs":   m1(absT),
		"math.Max":   m2(maxT),
		"math.Min":   m2(minT),
		"math.Pow":   m2(powT),
		"math.Mod": m2(func(x, y *T) *T {
			return fnN("mod", false, false, x, y)
		}),
		"math.Log":   m1(func(x *T) *T { return fnN("log", false, false, x) }),
		"math.Log10": m1(func(x *T) *T { return fnN("log10", false, false, x) }),
		"math.Exp":   m1(func(x *T) *T { return fnN("exp", false, true, x) }),
		"math.Sin":   m1(func(x *T) *T { return fnN("sin", false, false, x) }),
		"math.Cos":   m1(func(x *T) *T { return fnN("cos", false, false, x) }),
		"math.Inf": m1(func(x *T) *T {
			return ite(less(x, pZero), neg(anum(atom("INF", "", true, false, true))), anum(atom("INF", "", true, false, true)))
		}),
		"math.NaN": func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
			return []*T{anum(atom("NAN", "", true, false, false))}
		},
		"math.Signbit": m1(func(x *T) *T { return less(x, pZero) }),
		"math.IsNaN":   m1(func(x *T) *T { return tFalse }),
		"math.Hypot":   m2(func(x, y *T) *T { return sqrtT(add(mul(x, x), mul(y, y))) }),
		"math.Cbrt":    m1(func(x *T) *T { return fnN("cbrt", false, false, x) }),
		"errors.New":   newErr,
		"fmt.Errorf":   newErr,
		"log.Print":    none, "log.Printf": none, "log.Println": none,
		"log.SetFlags": none, "log.SetOutput": none, "log.SetPrefix": none,
		"(*sync.WaitGroup).Add": none, "(*sync.WaitGroup).Done": none, "(*sync.WaitGroup).Wait": none,
		"(*sync.Mutex).Lock": none, "(*sync.Mutex).Unlock": none,
		"runtime.GC": none, "runtime.ReadMemStats": none, "runtime.Gosched": none,
		"fmt.Sprintf": sprint, "fmt.Sprint": sprint, "fmt.Sprintln": sprint,
		"strings.ToLower":    strFn("lower", strings.ToLower),
		"strings.ToUpper":    strFn("upper", strings.ToUpper),
		"strings.Trim":       nil,
		"path.Join":          pathJoin,
		"path/filepath.Join": pathJoin,
		"time.Now":           nil,
	}
	for k, v := range fileHandlers() {
		special[k] = v
	}
	for k, v := range special {
		if v == nil {
			delete(special, k)
		}
	}
}

func strFn(name string, f func(string) string) handler {
	return m1(func(x *T) *T {
		return lift(func(l []*T) *T {
			if l[0].k == KStr {
				return str(f(l[0].aux))
			}
			return atom("uf", name, false, false, false, l[0])
		}, x)
	})
}

func (e *Ev) variadic(v *T, st *State, elem types.Type) []*T {
	if v.k == KNil {
		return nil
	}
	if v.k != KSlice {
		fail("variadic %s", show(v))
	}
	n, ok := intOf(v.args[2])
	if !ok {
		return []*T{e.flatten(st, v, types.NewSlice(elem), 0)}
	}
	var out []*T
	for i := int64(0); i < n; i++ {
		out = append(out, e.load(st, elemPtr(v, num(i)), elem))
	}
	return out
}

func sprint(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
	return []*T{sprintN(fnName(c.StaticCallee()), e, c, a, st)}
}

// sprintN is the text a formatting call produces.
func sprintN(name string, e *Ev, c *ssa.CallCommon, a []*T, st *State) *T {
	sig := c.Signature()
	el := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
	args := append([]*T(nil), a[:len(a)-1]...)
	for _, v := range e.variadic(a[len(a)-1], st, el) {
		args = append(args, e.flatten(st, v, el, 0))
	}
	if name == "fmt.Sprintf" && args[0].k == KStr {
		return formatT(args[0].aux, args[1:])
	}
	return lift(func(l []*T) *T {
		if name == "fmt.Sprint" && len(l) == 1 {
			if t, ok := formatConst("%v", l); ok {
				return str(t)
			}
		}
		return atom("uf", name, false, false, false, l...)
	}, args...)
}

// formatT splits a constant format into literal text and formatted pieces, so
// that equivalent formats coincide.
func formatT(f string, args []*T) *T {
	out := str("")
	n := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = concat(out, str(f[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			out = concat(out, str("%"))
			continue
		}
		next := func() *T {
			n++
			if n <= len(args) {
				return args[n-1]
			}
			return tNil
		}
		var widths []*T
		for range strings.Count(verb, "*") {
			widths = append(widths, next())
		}
		a := next()
		if strings.HasSuffix(verb, "v") && a.k == KIface {
			// %v of a string or integer
			switch {
			case a.aux == "string":
				verb = "%s"
			case strings.HasPrefix(a.aux, "int") || strings.HasPrefix(a.aux, "uint"):
				verb = strings.TrimSuffix(verb, "v") + "d"
			}
		}
		if verb == "%s" && a.k == KIface && a.aux == "string" {
			out = concat(out, a.args[0])
			continue
		}
		if t, ok := formatConst(verb, append(widths, a)); ok {
			out = concat(out, str(t))
			continue
		}
		x := a
		if a.k == KIface && (strings.HasSuffix(verb, "d")) {
			x = a.args[0]
		}
		if widths != nil {
			x = tuple(append(widths, x)...)
		}
		out = lift(func(l []*T) *T {
			return concat(l[0], fmtAtom(verb, l[1]))
		}, out, x)
	}
	return out
}

// fmtAtom is one formatted piece; x is the value or the tuple of the widths and
// the value.
func fmtAtom(verb string, x *T) *T {
	vals := []*T{x}
	if x.k == KTuple {
		vals = append([]*T(nil), x.args...)
	}
	for i, v := range vals {
		if _, ok := intOf(v); ok {
			vals[i] = mkIface("int", types.Type(types.Typ[types.Int]), v)
		}
	}
	if t, ok := formatConst(verb, vals); ok {
		return str(t)
	}
	return atom("uf", "fmt"+verb, false, false, false, x)
}

// refold redoes the simplification of a text whose parts have become known.
func refold(t *T, a []*T) *T {
	return lift(func(l []*T) *T {
		if t.op == "concat" {
			out := str("")
			for _, p := range l {
				out = concat(out, p)
			}
			return out
		}
		if t.aux == "path.Join" {
			return joinT(l)
		}
		return fmtAtom(strings.TrimPrefix(t.aux, "fmt"), l[0])
	}, a...)
}

func joinT(l []*T) *T {
	var known []string
	for _, t := range l {
		if t.k == KStr {
			known = append(known, t.aux)
		}
	}
	if len(known) == len(l) {
		return str(path.Join(known...))
	}
	return atom("uf", "path.Join", false, false, false, l...)
}

// formatConst formats integers and strings that are known.
func formatConst(verb string, args []*T) (string, bool) {
	var vals []interface{}
	for _, a := range args {
		if a.k != KIface {
			return "", false
		}
		if v := a.args[0]; a.aux == "string" && v.k == KStr {
			vals = append(vals, v.aux)
		} else if n, ok := intOf(v); ok && (strings.HasPrefix(a.aux, "int") || strings.HasPrefix(a.aux, "uint")) {
			vals = append(vals, int(n))
		} else {
			return "", false
		}
	}
	return fmt.Sprintf(verb, vals...), true
}

func pathJoin(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
	parts := e.variadic(a[0], st, types.Typ[types.String])
	return []*T{lift(joinT, parts...)}
}

// binRead models encoding/binary.Read: the destination gets the next bytes of
// the stream, the world advances, and an error may come back.
func binRead(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
	return e.readInto("encoding/binary.Read", a[:2], a[2], st)
}

func ioReadFull(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
	bt := types.NewSlice(types.Typ[types.Byte])
	dst := mkIface("[]byte", types.Type(bt), a[1])
	r := e.readInto("io.ReadFull", a[:1], dst, st)
	return []*T{lenOf(a[1]), r[0]}
}

func (e *Ev) readInto(name string, src []*T, dst *T, st *State) []*T {
	if dst.k == KIte {
		return e.splitCall(dst, st, func(v *T, s *State) []*T { return e.readInto(name, src, v, s) })
	}
	if dst.k != KIface {
		fail("%s into %s", name, show(dst))
	}
	dt := dst.ref.(types.Type)
	w := e.worldOf(st)
	v := dst.args[0]
	var shape *T = str(types.TypeString(dt.Underlying(), nil))
	args := append([]*T{w, shape}, src...)
	if sl, ok := dt.Underlying().(*types.Slice); ok {
		args = append(args, lenOf(v))
		nw := lift(func(l []*T) *T { return atom("EFF", name, false, false, false, l...) }, args...)
		e.setWorld(st, nw)
		e.fillSlice(st, v, sl.Elem(), nw)
		return []*T{lift(func(l []*T) *T { return symval(errType(), "res", "err", l[0]) }, nw)}
	}
	pt, ok := dt.Underlying().(*types.Pointer)
	if !ok {
		fail("%s into %s", name, dt)
	}
	nw := lift(func(l []*T) *T { return atom("EFF", name, false, false, false, l...) }, args...)
	e.setWorld(st, nw)
	if sl, ok := pt.Elem().Underlying().(*types.Slice); ok {
		e.fillSlice(st, e.load(st, v, pt.Elem()), sl.Elem(), nw)
	} else {
		val := lift(func(l []*T) *T { return symval(pt.Elem(), "read", "", l[0]) }, nw)
		e.storeTo(st, v, pt.Elem(), val)
	}
	return []*T{lift(func(l []*T) *T { return symval(errType(), "res", "err", l[0]) }, nw)}
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func (e *Ev) fillSlice(st *State, s *T, elem types.Type, nw *T) {
	if s.k == KNil {
		return
	}
	if s.k == KIte {
		fail("read into a conditional slice")
	}
	for _, l := range leavesOf(elem) {
		k := kindOf(l.typ)
		arr := lift(func(x []*T) *T {
			return atom("AFN", "read"+l.path+"@"+k, false, false, false, x[0])
		}, nw)
		e.overwrite(st, s, l, pZero, s.args[2], func(j *T) *T { return sel(arr, j) })
	}
}

// overwrite sets s[lo:hi] leaf l to f(index from the start of s).
func (e *Ev) overwrite(st *State, s *T, l leaf, lo, hi *T, f func(j *T) *T) {
	if p := strings.Index(s.aux, "!"); p >= 0 {
		a, ok1 := intOf(lo)
		b, ok2 := intOf(hi)
		if !ok1 || !ok2 {
			fail("symbolic write to a small array")
		}
		for i := a; i < b; i++ {
			ptr := elemPtr(s, num(i))
			e.storeAt(st, ptr.args[0], ptr.aux+l.path, ptr.args[1:], l.typ, f(num(i)), tTrue)
		}
		return
	}
	path := s.aux + "[]" + l.path
	old := e.readCell(st, s.args[0], path, l.typ)
	a, b := add(s.args[1], lo), add(s.args[1], hi)
	nv := mkLamF(func(j *T) *T {
		c := and(lessEq(a, j), less(j, b))
		return ite(c, f(sub(j, s.args[1])), sel(old, j))
	})
	e.writeCell(st, s.args[0], path, l.typ, nv)
}

func (e *Ev) builtin(name string, c *ssa.CallCommon, a []*T, st *State) []*T {
	switch name {
	case "len":
		if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return []*T{num(at.Len())}
		}
		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			return []*T{num(pt.Elem().Underlying().(*types.Array).Len())}
		}
		if m := a[0]; m.k == KPtr && m.args[0].op == "alloc" {
			if q, ok := st.cells[cellKey{m.args[0].id, "map"}]; ok {
				return []*T{lift(func(l []*T) *T {
					n := pZero
					for i := 0; i < len(l[0].args); i += 2 {
						old := tFalse
						for j := 0; j < i; j += 2 {
							old = or(old, equalT(l[0].args[i], l[0].args[j]))
						}
						n = add(n, ite(old, pZero, num(1)))
					}
					return n
				}, q)}
			}
		}
		return []*T{lenOf(a[0])}
	case "cap":
		return []*T{capOf(a[0])}
	case "append":
		e.touch(a[0], false, c.Pos())
		e.touch(a[1], false, c.Pos())
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			fail("append of a string")
		}
		l0, l1 := lenOf(a[0]), lenOf(a[1])
		if l1 == pZero {
			return []*T{a[0]}
		}
		x, y := a[0], a[1]
		// evaluate contents now
		return []*T{e.makeSlice(st, elem, add(l0, l1), func(l leaf) *T {
			ax, ay := e.elemArr(st, x, elem, l), e.elemArr(st, y, elem, l)
			return mkLamF(func(j *T) *T {
				return ite(less(j, l0), sel(ax, j), sel(ay, sub(j, l0)))
			})
		})}
	case "copy":
		e.touch(a[0], true, c.Pos())
		e.touch(a[1], false, c.Pos())
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := minT(lenOf(a[0]), lenOf(a[1]))
		if _, ok := c.Args[1].Type().Underlying().(*types.Basic); ok {
			fail("copy of a string")
		}
		type up struct {
			l leaf
			a *T
		}
		var ups []up
		for _, l := range leavesOf(elem) {
			ups = append(ups, up{l, e.elemArr(st, a[1], elem, l)})
		}
		for _, u := range ups {
			e.copyTo(st, a[0], u.l, n, u.a, tTrue)
		}
		return []*T{n}
	case "close":
		q := e.queueOf(st, a[0])
		e.writeCell(st, q, "closed", types.Typ[types.Bool], tTrue)
		if e.tr != nil {
			e.tr.msgs[q.id] = append(e.tr.msgs[q.id], e.tr.release())
		}
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return []*T{a[0]}
	}
	fail("builtin %s", name)
	return nil
}

func (e *Ev) copyTo(st *State, dst *T, l leaf, n, src, cond *T) {
	switch dst.k {
	case KNil, KBot:
		return
	case KIte:
		c := varT(dst.v)
		e.copyTo(st, dst.args[0], l, n, src, and(cond, c))
		e.copyTo(st, dst.args[1], l, n, src, and(cond, not(c)))
		return
	}
	if cond == tTrue {
		e.overwrite(st, dst, l, pZero, n, func(j *T) *T { return sel(src, j) })
		return
	}
	s2 := st.clone()
	e.overwrite(s2, dst, l, pZero, n, func(j *T) *T { return sel(src, j) })
	m := e.mergeStates([]*T{cond, not(cond)}, []*State{s2, st.clone()})
	st.cells = m.cells
}

var _ = big.NewRat
