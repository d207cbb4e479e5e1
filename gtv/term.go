package main

// Hash-consed terms of the value graph: numeric polynomials over atoms, lifted
// conditionals (multi-terminal decision diagrams), arrays as lambdas, and the
// aggregate values of Go (tuples, pointers, slices, closures, interfaces).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KPoly Kind = iota
	KIte
	KBool
	KStr
	KNil
	KBot
	KTuple
	KPtr   // obj, aux = path pattern, args[1:] = index terms
	KSlice // obj, off, len, cap ; aux = path prefix pattern
	KClo   // ref = *ssa.Function, args = bindings
	KIface // aux = type key, ref = types.Type, args[0] = value
	KAtom  // op, aux, args
	KArr   // op: "lam" (binder over BV) ; arrays that are not lambdas are KAtom
	KObj   // object identity: op = alloc / sym / glob
)

type bvKind uint8

const (
	bLT bvKind = iota // base < thr  (reals only)
	bLE               // base <= thr
	bEQ               // base == constant string
	bOP               // opaque boolean
)

// bvar is one decision variable.
type bvar struct {
	kind bvKind
	base *T
	thr  *big.Rat
	str  string
	key  string
	fs   []int
}

type fac struct {
	a *T
	e int
}

type mono struct {
	c *big.Rat
	f []fac
}

// T is one hash-consed term.
type T struct {
	k      Kind
	id     int
	op     string
	aux    string
	args   []*T
	ms     []mono // KPoly
	v      *bvar  // KIte: args[0]=hi args[1]=lo
	isInt  bool   // numeric atoms: integer valued
	num    bool   // atom is numeric
	nonneg bool
	ref    interface{}
	fs     []int // free fresh symbols (sorted)
	h      int   // max binder height inside
	dang   bool  // contains BV
	size   int
}

type undecided struct{ msg string }

func (u undecided) Error() string { return u.msg }

func fail(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

var (
	table   = map[string]*T{}
	vtable  = map[string]*bvar{}
	nextID  = 1
	nextSym = 1
)

func intern(key string, mk func() *T) *T {
	if t, ok := table[key]; ok {
		return t
	}
	t := mk()
	t.id = nextID
	nextID++
	t.finish()
	table[key] = t
	return t
}

func mergeSyms(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (t *T) finish() {
	add := func(c *T) {
		t.fs = mergeSyms(t.fs, c.fs)
		if c.h > t.h {
			t.h = c.h
		}
		if c.dang {
			t.dang = true
		}
		t.size += c.size
	}
	t.size = 1
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.ms {
		for _, f := range m.f {
			add(f.a)
		}
	}
	if t.v != nil {
		add(t.v.base)
	}
	if t.k == KAtom {
		switch t.op {
		case "sym", "asym":
			t.fs = []int{symID(t)}
		case "bv", "bva":
			n, _ := strconv.Atoi(t.aux)
			t.h = 0
			t.dang = true
			_ = n
		}
		if isBinder(t.op) {
			h, _ := strconv.Atoi(strings.SplitN(t.aux, ":", 2)[0])
			if h > t.h {
				t.h = h
			}
		}
	}
	if t.k == KArr {
		h, _ := strconv.Atoi(t.aux)
		if h > t.h {
			t.h = h
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
}

func isBinder(op string) bool {
	switch op {
	case "SUM", "EXISTS", "FIRST", "LAST", "REC", "AREC":
		return true
	}
	return false
}

func ids(ts []*T) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte(',')
	}
	return b.String()
}

// ---------------------------------------------------------------- leaves

var (
	tTrue, tFalse, tNil, tBot *T
	pZero, pOne               *T
	ratZero                   = new(big.Rat)
	ratOne                    = big.NewRat(1, 1)
	ratNegOne                 = big.NewRat(-1, 1)
)

func initTerms() {
	tTrue = intern("true", func() *T { return &T{k: KBool, aux: "true"} })
	tFalse = intern("false", func() *T { return &T{k: KBool, aux: "false"} })
	tNil = intern("nil", func() *T { return &T{k: KNil} })
	tBot = intern("bot", func() *T { return &T{k: KBot} })
	pZero = mkPoly(nil)
	pOne = num(1)
}

func init() { initTerms() }

func boolT(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}

func str(s string) *T {
	return intern("str:"+s, func() *T { return &T{k: KStr, aux: s} })
}

func tuple(args ...*T) *T {
	return intern("tup:"+ids(args), func() *T {
		return &T{k: KTuple, args: append([]*T(nil), args...)}
	})
}

// atom builds an opaque term; numeric atoms are wrapped with anum.
func atom(op, aux string, isNum, isInt, nonneg bool, args ...*T) *T {
	key := "at:" + op + "|" + aux + "|" + fl(isNum) + fl(isInt) + "|" + ids(args)
	return intern(key, func() *T {
		return &T{k: KAtom, op: op, aux: aux, num: isNum, isInt: isInt,
			nonneg: nonneg, args: append([]*T(nil), args...)}
	})
}

func fl(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// anum wraps a numeric atom as a polynomial.
func anum(a *T) *T {
	return mkPoly([]mono{{ratOne, []fac{{a, 1}}}})
}

func freshSym(isNum, isInt bool, tag string) *T {
	n := nextSym
	nextSym++
	if tag == "J" {
		posSyms[n] = true
	}
	return atom("sym", strconv.Itoa(n), isNum, isInt, false)
}

// posSyms are the symbols that stand for a position in an array.
var posSyms = map[int]bool{}

func symID(a *T) int {
	x := a.aux
	if i := strings.IndexAny(x, "#@"); i >= 0 {
		x = x[:i]
	}
	n, _ := strconv.Atoi(x)
	return n
}

func hasSym(t *T, s int) bool {
	i := sort.SearchInts(t.fs, s)
	return i < len(t.fs) && t.fs[i] == s
}

func hasAnySym(t *T, ss []int) bool {
	for _, s := range ss {
		if hasSym(t, s) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- polynomials

func cmpFacs(a, b []fac) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].a.id != b[i].a.id {
			if a[i].a.id < b[i].a.id {
				return -1
			}
			return 1
		}
		if a[i].e != b[i].e {
			if a[i].e > b[i].e {
				return -1
			}
			return 1
		}
	}
	if len(a) != len(b) {
		if len(a) > len(b) {
			return -1
		}
		return 1
	}
	return 0
}

func mkPoly(ms []mono) *T {
	var b strings.Builder
	b.WriteString("poly:")
	for _, m := range ms {
		b.WriteString(m.c.RatString())
		for _, f := range m.f {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(f.a.id))
			if f.e != 1 {
				b.WriteByte('^')
				b.WriteString(strconv.Itoa(f.e))
			}
		}
		b.WriteByte('+')
	}
	return intern(b.String(), func() *T { return &T{k: KPoly, ms: ms, num: true} })
}

func normMonos(ms []mono) []mono {
	sort.SliceStable(ms, func(i, j int) bool { return cmpFacs(ms[i].f, ms[j].f) < 0 })
	out := ms[:0:0]
	for _, m := range ms {
		if len(out) > 0 && cmpFacs(out[len(out)-1].f, m.f) == 0 {
			out[len(out)-1].c = new(big.Rat).Add(out[len(out)-1].c, m.c)
		} else {
			if len(out) > 0 && out[len(out)-1].c.Sign() == 0 {
				out = out[:len(out)-1]
			}
			out = append(out, mono{new(big.Rat).Set(m.c), m.f})
		}
	}
	if len(out) > 0 && out[len(out)-1].c.Sign() == 0 {
		out = out[:len(out)-1]
	}
	return out
}

func num(n int64) *T { return rat(big.NewRat(n, 1)) }

func rat(r *big.Rat) *T {
	if r.Sign() == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]mono{{new(big.Rat).Set(r), nil}})
}

func constOf(t *T) (*big.Rat, bool) {
	if t.k != KPoly {
		return nil, false
	}
	if len(t.ms) == 0 {
		return ratZero, true
	}
	if len(t.ms) == 1 && len(t.ms[0].f) == 0 {
		return t.ms[0].c, true
	}
	return nil, false
}

func intOf(t *T) (int64, bool) {
	c, ok := constOf(t)
	if !ok || !c.IsInt() || !c.Num().IsInt64() {
		return 0, false
	}
	return c.Num().Int64(), true
}

func polyAdd(a, b *T) *T {
	if len(a.ms) == 0 {
		return b
	}
	if len(b.ms) == 0 {
		return a
	}
	ms := make([]mono, 0, len(a.ms)+len(b.ms))
	i, j := 0, 0
	for i < len(a.ms) && j < len(b.ms) {
		c := cmpFacs(a.ms[i].f, b.ms[j].f)
		switch {
		case c < 0:
			ms = append(ms, a.ms[i])
			i++
		case c > 0:
			ms = append(ms, b.ms[j])
			j++
		default:
			s := new(big.Rat).Add(a.ms[i].c, b.ms[j].c)
			if s.Sign() != 0 {
				ms = append(ms, mono{s, a.ms[i].f})
			}
			i++
			j++
		}
	}
	ms = append(ms, a.ms[i:]...)
	ms = append(ms, b.ms[j:]...)
	return mkPoly(ms)
}

func polyScale(a *T, c *big.Rat) *T {
	if c.Sign() == 0 {
		return pZero
	}
	if c.Cmp(ratOne) == 0 {
		return a
	}
	ms := make([]mono, len(a.ms))
	for i, m := range a.ms {
		ms[i] = mono{new(big.Rat).Mul(m.c, c), m.f}
	}
	return mkPoly(ms)
}

func mulFacs(a, b []fac) []fac {
	out := make([]fac, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].a.id < b[j].a.id:
			out = append(out, a[i])
			i++
		case a[i].a.id > b[j].a.id:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, fac{a[i].a, e})
			}
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

const maxMonos = 20000

func polyMul(a, b *T) *T {
	if len(a.ms) == 0 || len(b.ms) == 0 {
		return pZero
	}
	if c, ok := constOf(a); ok {
		return polyScale(b, c)
	}
	if c, ok := constOf(b); ok {
		return polyScale(a, c)
	}
	if len(a.ms)*len(b.ms) > maxMonos {
		fail("polynomial product too large (%d x %d terms)", len(a.ms), len(b.ms))
	}
	ms := make([]mono, 0, len(a.ms)*len(b.ms))
	fix := false
	for _, x := range a.ms {
		for _, y := range b.ms {
			f := mulFacs(x.f, y.f)
			for _, q := range f {
				if q.a.op == "sqrt" && (q.e >= 2 || q.e <= -2) {
					fix = true
				}
				if q.a.op == "INV" && q.e < 0 {
					fix = true
				}
			}
			ms = append(ms, mono{new(big.Rat).Mul(x.c, y.c), f})
		}
	}
	if !fix {
		return mkPoly(normMonos(ms))
	}
	acc := pZero
	for _, m := range ms {
		t := rat(m.c)
		for _, q := range m.f {
			switch {
			case q.a.op == "sqrt" && (q.e >= 2 || q.e <= -2):
				n := q.e / 2
				r := q.e - 2*n
				t = mul(t, powInt(q.a.args[0], n))
				if r != 0 {
					t = mul(t, mkPoly([]mono{{ratOne, []fac{{q.a, r}}}}))
				}
			case q.a.op == "INV" && q.e < 0:
				t = mul(t, powInt(q.a.args[0], -q.e))
			default:
				t = mul(t, mkPoly([]mono{{ratOne, []fac{q}}}))
			}
		}
		acc = add(acc, t)
	}
	return acc
}

// split separates the constant term of a polynomial.
func split(p *T) (rest *T, c *big.Rat) {
	n := len(p.ms)
	if n > 0 && len(p.ms[n-1].f) == 0 {
		return mkPoly(p.ms[:n-1]), p.ms[n-1].c
	}
	return p, ratZero
}

func polyIsInt(p *T) bool {
	for _, m := range p.ms {
		if !m.c.IsInt() {
			return false
		}
		for _, f := range m.f {
			if !f.a.isInt || f.e < 0 {
				return false
			}
		}
	}
	return true
}

func atomsInt(p *T) bool {
	for _, m := range p.ms {
		for _, f := range m.f {
			if !f.a.isInt || f.e < 0 {
				return false
			}
		}
	}
	return true
}

func nonNeg(p *T) bool {
	if p.k == KIte {
		return nonNeg(p.args[0]) && nonNeg(p.args[1])
	}
	if p.k != KPoly {
		return false
	}
	for _, m := range p.ms {
		if m.c.Sign() < 0 {
			return false
		}
		for _, f := range m.f {
			if f.e%2 != 0 && !f.a.nonneg {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- decision variables

func internVar(kind bvKind, base *T, thr *big.Rat, s string) *bvar {
	key := strconv.Itoa(int(kind)) + ":" + strconv.Itoa(base.id) + ":"
	if thr != nil {
		key += thr.RatString()
	}
	key += ":" + s
	if v, ok := vtable[key]; ok {
		return v
	}
	v := &bvar{kind: kind, base: base, thr: thr, str: s, key: key, fs: base.fs}
	vtable[key] = v
	return v
}

func cmpVar(a, b *bvar) int {
	if a == b {
		return 0
	}
	if a.base.id != b.base.id {
		if a.base.id < b.base.id {
			return -1
		}
		return 1
	}
	if a.thr != nil && b.thr != nil {
		if c := a.thr.Cmp(b.thr); c != 0 {
			return c
		}
		if a.kind < b.kind {
			return -1
		}
		return 1
	}
	if a.kind != b.kind {
		if a.kind < b.kind {
			return -1
		}
		return 1
	}
	if a.str < b.str {
		return -1
	}
	return 1
}

// cofTop gives the cofactor of t by variable v, where v is at or above the top
// variable of t in the order, using that the variables of one base are nested
// thresholds.
func cofTop(t *T, v *bvar, val bool) *T {
	for t.k == KIte {
		w := t.v
		if w == v {
			if val {
				t = t.args[0]
			} else {
				t = t.args[1]
			}
			continue
		}
		if w.base != v.base {
			return t
		}
		if !val {
			return t
		}
		if v.kind == bEQ {
			t = t.args[1]
			continue
		}
		if v.kind == bOP {
			return t
		}
		// b <= t1 true implies every later threshold
		t = t.args[0]
	}
	return t
}

func mkIte(v *bvar, hi, lo *T) *T {
	if hi == lo {
		return hi
	}
	if hi.k == KBot {
		return lo
	}
	if lo.k == KBot {
		return hi
	}
	if lo.k == KIte && lo.args[0] == hi && lo.v.base == v.base && (v.kind == bLT || v.kind == bLE) &&
		(lo.v.kind == bLT || lo.v.kind == bLE) && v.thr != nil && lo.v.thr != nil {
		if d := v.thr.Cmp(lo.v.thr); d < 0 || d == 0 && v.kind == bLT {
			return lo // v implies lo.v
		}
	}
	if v.kind == bLT {
		// strict and non-strict thresholds coincide where the branches agree
		if agreeAt(hi, lo, v) {
			return iteVar(internVar(bLE, v.base, v.thr, ""), hi, lo)
		}
	}
	key := "ite:" + v.key + "?" + strconv.Itoa(hi.id) + ":" + strconv.Itoa(lo.id)
	return intern(key, func() *T { return &T{k: KIte, v: v, args: []*T{hi, lo}} })
}

// agreeAt: do the two (polynomial) branches agree where base == thr?
func agreeAt(hi, lo *T, v *bvar) bool {
	if hi.k != KPoly || lo.k != KPoly {
		return false
	}
	d := polyAdd(hi, polyScale(lo, ratNegOne))
	if len(d.ms) == 0 {
		return true
	}
	e := polyAdd(v.base, rat(new(big.Rat).Neg(v.thr)))
	if len(d.ms) != len(e.ms) || len(e.ms) == 0 {
		return false
	}
	r := new(big.Rat).Quo(d.ms[0].c, e.ms[0].c)
	return polyScale(e, r) == d
}

// iteVar is the general if-then-else on one variable; hi and lo may test
// variables above v.
func iteVar(v *bvar, hi, lo *T) *T {
	if hi == lo {
		return hi
	}
	above := func(t *T) bool { return t.k == KIte && cmpVar(t.v, v) <= 0 }
	same := func(t *T) bool { return t.k == KIte && t.v.base == v.base }
	if !above(hi) && !above(lo) && !same(hi) {
		return mkIte(v, hi, lo)
	}
	return ite(intern("ite:"+v.key+"?"+strconv.Itoa(tTrue.id)+":"+strconv.Itoa(tFalse.id),
		func() *T { return &T{k: KIte, v: v, args: []*T{tTrue, tFalse}} }), hi, lo)
}

func varT(v *bvar) *T {
	key := "ite:" + v.key + "?" + strconv.Itoa(tTrue.id) + ":" + strconv.Itoa(tFalse.id)
	return intern(key, func() *T { return &T{k: KIte, v: v, args: []*T{tTrue, tFalse}} })
}

type trip struct{ a, b, c int }

var iteMemo = map[trip]*T{}

// ite(c, a, b) with c a boolean diagram.
func ite(c, a, b *T) *T {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.k == KBot {
		return tBot
	}
	if a.k == KBot {
		return b
	}
	if b.k == KBot {
		return a
	}
	if a == tTrue && b == tFalse {
		return c
	}
	if isArr(a) || isArr(b) {
		return iteArr(c, a, b)
	}
	k := trip{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	if c.k != KIte {
		fail("condition is not a boolean diagram: %s", show(c))
	}
	v := c.v
	for _, t := range []*T{a, b} {
		if t.k == KIte && cmpVar(t.v, v) < 0 {
			v = t.v
		}
	}
	hi := ite(cofTop(c, v, true), cofTop(a, v, true), cofTop(b, v, true))
	lo := ite(cofTop(c, v, false), cofTop(a, v, false), cofTop(b, v, false))
	r := mkIte(v, hi, lo)
	iteMemo[k] = r
	return r
}

func not(a *T) *T    { return ite(a, tFalse, tTrue) }
func and(a, b *T) *T { return ite(a, b, tFalse) }
func or(a, b *T) *T  { return ite(a, tTrue, b) }
func xnor(a, b *T) *T {
	return ite(a, b, not(b))
}

// assume cofactors t by a set of literals (deeply, including inside bases of
// later variables only at the decision level).
type literal struct {
	v   *bvar
	val bool
}

func assume(t *T, lits []literal) *T {
	for _, l := range lits {
		t = assume1(t, l, map[int]*T{})
	}
	return t
}

func implied(w *bvar, l literal) (val, known bool) {
	v := l.v
	if w == v {
		return l.val, true
	}
	if w.base != v.base {
		return false, false
	}
	switch v.kind {
	case bEQ:
		if l.val && w.kind == bEQ {
			return false, true
		}
		return false, false
	case bLT, bLE:
		if w.kind != bLT && w.kind != bLE {
			return false, false
		}
		c := cmpVar(w, v)
		if l.val && c > 0 {
			return true, true
		}
		if !l.val && c < 0 {
			return false, true
		}
	}
	return false, false
}

func assume1(t *T, l literal, memo map[int]*T) *T {
	if t.k != KIte {
		return t
	}
	if t.v.base.id > l.v.base.id {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *T
	if val, known := implied(t.v, l); known {
		if val {
			r = assume1(t.args[0], l, memo)
		} else {
			r = assume1(t.args[1], l, memo)
		}
	} else {
		r = iteVar(t.v, assume1(t.args[0], l, memo), assume1(t.args[1], l, memo))
	}
	memo[t.id] = r
	return r
}

// cubeOf returns the literals of c implied by c (top-level chain only).
func cubeOf(c *T) []literal {
	var out []literal
	for c.k == KIte {
		if c.args[1] == tFalse {
			out = append(out, literal{c.v, true})
			c = c.args[0]
		} else if c.args[0] == tFalse {
			out = append(out, literal{c.v, false})
			c = c.args[1]
		} else {
			break
		}
	}
	return out
}

// lift applies f to the leaves of the arguments.
func lift(f func(l []*T) *T, args ...*T) *T {
	n := 0
	for _, a := range args {
		if a.k == KIte {
			n++
		}
	}
	if n == 0 {
		for _, a := range args {
			if a.k == KBot {
				return tBot
			}
		}
		return f(args)
	}
	memo := map[string]*T{}
	var rec func(a []*T) *T
	count := 0
	rec = func(a []*T) *T {
		var v *bvar
		for _, t := range a {
			if t.k == KBot {
				return tBot
			}
			if t.k == KIte && (v == nil || cmpVar(t.v, v) < 0) {
				v = t.v
			}
		}
		if v == nil {
			return f(a)
		}
		key := ids(a)
		if r, ok := memo[key]; ok {
			return r
		}
		count++
		if count > 20000 {
			fail("conditional expression too large")
		}
		hi := make([]*T, len(a))
		lo := make([]*T, len(a))
		for i, t := range a {
			hi[i] = cofTop(t, v, true)
			lo[i] = cofTop(t, v, false)
		}
		r := iteVar(v, rec(hi), rec(lo))
		memo[key] = r
		return r
	}
	return rec(args)
}
