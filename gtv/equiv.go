package main

// Equivalence obligations: a function of the repository against a reference
// function, by comparing normalised value graphs.

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Rule   string `json:"rule"`
	What   string `json:"construct"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
	Where  string `json:"where,omitempty"`
	Fns    int    `json:"functions,omitempty"`
	Loops  int    `json:"loops,omitempty"`
	Terms  int    `json:"terms,omitempty"`
	Key    string `json:"key,omitempty"`
}

type specFn struct {
	name   string
	fn     *ssa.Function
	equiv  []string
	race   bool
	assume string
	panics bool
	tol    string
	opaque []string
	effect map[string][]int
	models map[string]string
	pkg    *Pkg
	doc    string
}

// specFns collects the reference functions of the loaded property.
func specFns(l *Loader) []*specFn {
	var out []*specFn
	for _, p := range l.order {
		for _, f := range p.Files {
			if !p.Spec[f] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				s := &specFn{name: fd.Name.Name, pkg: p, panics: true}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					switch {
					case strings.HasPrefix(t, "gtv:equiv "):
						s.equiv = append(s.equiv, strings.TrimSpace(strings.TrimPrefix(t, "gtv:equiv ")))
					case strings.HasPrefix(t, "gtv:race"):
						s.race = true
					case strings.HasPrefix(t, "gtv:assume "):
						s.assume = strings.TrimSpace(strings.TrimPrefix(t, "gtv:assume "))
					case strings.HasPrefix(t, "gtv:tol "):
						s.tol = strings.TrimSpace(strings.TrimPrefix(t, "gtv:tol "))
					case strings.HasPrefix(t, "gtv:partial"):
						s.panics = false
					case strings.HasPrefix(t, "gtv:opaque "):
						s.opaque = append(s.opaque, strings.Fields(strings.TrimPrefix(t, "gtv:opaque "))...)
					case strings.HasPrefix(t, "gtv:model "):
						// gtv:model name stand-in (decided elsewhere to agree with name)
						f := strings.Fields(strings.TrimPrefix(t, "gtv:model "))
						if s.models == nil {
							s.models = map[string]string{}
						}
						if len(f) == 2 {
							s.models[f[0]] = f[1]
						}
					case strings.HasPrefix(t, "gtv:effect "):
						// gtv:effect name written-parameter...
						f := strings.Fields(strings.TrimPrefix(t, "gtv:effect "))
						if s.effect == nil {
							s.effect = map[string][]int{}
						}
						wr := []int{}
						for _, x := range f[1:] {
							n, _ := strconv.Atoi(x)
							wr = append(wr, n)
						}
						s.effect[f[0]] = wr
					default:
						s.doc += strings.TrimSpace(t) + " "
					}
				}
				if len(s.equiv) == 0 && !s.race {
					continue
				}
				if obj, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
					s.fn = l.Prog.FuncValue(obj)
				}
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// lookupFn resolves "Func", "T.M" or "(*T).M" in a package.
func lookupFn(l *Loader, p *Pkg, name string) *ssa.Function {
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "()")
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		m := name[i+1:]
		o := p.Types.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		var t types.Type = o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		return l.Prog.LookupMethod(t, p.Types, m)
	}
	o, ok := p.Types.Scope().Lookup(name).(*types.Func)
	if !ok {
		return nil
	}
	return l.Prog.FuncValue(o)
}

type cmpCtx struct {
	e1, e2   *Ev
	s1, s2   *State
	seen     map[string]bool
	diff     string
	lits     []literal
	pruned   bool
	prunes   int
	compares int
}

func protect(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = u
				return
			}
			if debugLoops {
				panic(r)
			}
			if os.Getenv("GTV_STACK") != "" {
				debug.PrintStack()
			}
			err = fmt.Errorf("internal error: %v", r)
		}
	}()
	f()
	return nil
}

func paramTypes(fn *ssa.Function) []types.Type {
	var out []types.Type
	for _, p := range fn.Params {
		out = append(out, p.Type())
	}
	return out
}

// checkEquiv compares one function with its reference.
func checkEquiv(l *Loader, s *specFn, target string) (ob Obligation) {
	ob = Obligation{Rule: "value-graph equality with reference " + s.name, What: s.pkg.Dir + "." + target}
	ob.Key = s.name + "/" + target
	fn := lookupFn(l, s.pkg, target)
	if fn == nil || len(fn.Blocks) == 0 {
		ob.Detail = "the anchored function " + target + " is not in the source"
		return
	}
	ob.Where = l.pos(fn.Pos())
	if strings.HasPrefix(target, "use__") {
		var names []string
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				g := c.Common().StaticCallee()
				if w := l.pos(g.Pos()); !strings.HasPrefix(w, "/") && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
					ob.Where = w
					names = append(names, g.Name())
				}
			}
		}
		if len(names) > 0 {
			ob.What += " (uses " + strings.Join(names, ", ") + ")"
		}
	}
	before := len(table)
	if s.tol != "" {
		old := coefTol
		coefTol, _ = new(big.Rat).SetString(s.tol)
		defer func() { coefTol = old }()
	}
	err := protect(func() {
		pt1, pt2 := paramTypes(fn), paramTypes(s.fn)
		if len(pt1) != len(pt2) {
			fail("signature of %s does not match its reference %s", target, s.name)
		}
		var a1, a2 []*T
		for i := range pt1 {
			v := symval(pt2[i], "param", fmt.Sprintf("p%d", i))
			a2 = append(a2, v)
			if types.Identical(pt1[i], pt2[i]) {
				a1 = append(a1, v)
				continue
			}
			if it, ok := pt1[i].Underlying().(*types.Interface); ok && types.Implements(pt2[i], it) {
				a1 = append(a1, mkIface(types.TypeString(pt2[i], nil), pt2[i], v))
				continue
			}
			fail("parameter %d of %s has type %s, its reference has %s", i, target, pt1[i], pt2[i])
		}
		want := map[string]bool{}
		for _, o := range s.opaque {
			want[o] = true
		}
		for n := range s.effect {
			want[n] = true
		}
		for n := range s.models {
			want[n] = true
		}
		run := func(f *ssa.Function, a []*T) (*Ev, *State, []*T) {
			e := newEv(l)
			e.want = want
			for _, o := range s.opaque {
				e.opaque[o] = true
			}
			for n, wr := range s.effect {
				e.effects[n] = wr
			}
			for n, m := range s.models {
				mf := lookupFn(l, s.pkg, m)
				if mf == nil {
					fail("no stand-in %s", m)
				}
				e.models[n] = mf
			}
			st := newState()
			r := e.call(f, a, nil, st)
			return e, st, r
		}
		e2, s2, r2 := run(s.fn, a2)
		e1, s1, r1 := run(fn, a1)
		var unused []string
		for n := range want {
			unused = append(unused, n)
		}
		sort.Strings(unused)
		if len(unused) > 0 {
			fail("the directive on %s is never used", strings.Join(unused, ", "))
		}
		ob.Fns = len(e1.fns)
		ob.Loops = e1.loops
		pre := tTrue
		if s.assume != "" {
			af := lookupFn(l, s.pkg, s.assume)
			if af == nil {
				fail("no assumption %s", s.assume)
			}
			_, _, r := run(af, a2)
			pre = r[0]
		}
		c := &cmpCtx{e1: e1, e2: e2, s1: s1, s2: s2, seen: map[string]bool{}}
		if s.panics {
			c.value("panic condition", and(pre, e1.panics), and(pre, e2.panics), types.Typ[types.Bool], tTrue)
		}
		cond := and(pre, not(or(e1.panics, e2.panics)))
		if os.Getenv("GTV_COND") != "" {
			fmt.Println("COND", target, show(cond))
		}
		if cond == tFalse {
			if e2.panics == tTrue && s.panics && c.diff == "" {
				ob.OK = true
				return
			}
			fail("the function always panics")
		}
		if len(r1) != len(r2) {
			fail("result count differs")
		}
		res := fn.Signature.Results()
		for i := range r1 {
			if c.diff != "" {
				break
			}
			c.value(fmt.Sprintf("result %d", i), r1[i], r2[i], res.At(i).Type(), cond)
		}
		c.memory(cond)
		if c.diff != "" {
			ob.Detail = c.diff
			return
		}
		// the comparison must be able to fail
		x := &cmpCtx{e1: e1, e2: e2, s1: s1, s2: s2, seen: map[string]bool{}}
		for i := range r1 {
			t := res.At(i).Type()
			if x.diff == "" {
				x.value("result", r1[i], symval(t, "uf", "some other value"), t, cond)
			}
		}
		if x.diff == "" {
			x.otherMemory(cond)
		}
		if x.diff == "" {
			fail("the guards of %s exclude each other", target)
		}
		ob.OK = true
	})
	if err != nil {
		ob.OK = false
		ob.Detail = "undecided: " + err.Error()
	}
	ob.Terms = len(table) - before
	return
}

func (c *cmpCtx) memory(cond *T) {
	keys := map[cellKey]bool{}
	for k := range c.s1.cells {
		keys[k] = true
	}
	for k := range c.s2.cells {
		keys[k] = true
	}
	var ks []cellKey
	for k := range keys {
		ks = append(ks, k)
	}
	sortKeys(ks)
	for _, k := range ks {
		ci := cellInfos[k]
		if ci.obj.op == "alloc" || c.diff != "" {
			continue
		}
		a, b := c.e1.cellOf(c.s1, k), c.e2.cellOf(c.s2, k)
		if a == b {
			c.compares++
			continue
		}
		what := "memory " + show(ci.obj) + ci.path
		if ci.obj.op == "world" {
			what = "external effects"
		}
		c.cell(what, a, b, ci.typ, cond, nil)
	}
}

// otherMemory compares the final memory with other contents.
func (c *cmpCtx) otherMemory(cond *T) {
	for k := range c.s1.cells {
		ci := cellInfos[k]
		if ci.obj.op == "alloc" || c.diff != "" {
			continue
		}
		a := c.e1.cellOf(c.s1, k)
		if isArr(a) {
			a = sel(a, anum(freshSym(true, true, "J")))
		}
		c.value("memory", a, symval(ci.typ, "uf", "some other value"), ci.typ, cond)
	}
}

// cell compares two cell contents (arrays extensionally).
func (c *cmpCtx) cell(what string, a, b *T, typ types.Type, cond, n *T) {
	if isArr(a) || isArr(b) {
		j := freshSym(true, true, "J")
		d := domainLits(anum(j), n)
		base := len(c.lits)
		c.lits = append(c.lits, d...)
		defer func() { c.lits = c.lits[:base] }()
		x, y := assume(sel(a, anum(j)), d), assume(sel(b, anum(j)), d)
		c.value(what+"[J]", x, y, typ, cond)
		return
	}
	c.value(what, a, b, typ, cond)
}

func (c *cmpCtx) value(what string, a, b *T, typ types.Type, cond *T) {
	memo := map[string]bool{}
	base := len(c.lits)
	defer func() { c.lits = c.lits[:base] }()
	var rec func(a, b, cond *T)
	rec = func(a, b, cond *T) {
		if c.diff != "" || cond == tFalse {
			return
		}
		if a == b && !mentionsAlloc(a) {
			return
		}
		key := ids([]*T{a, b, cond})
		if memo[key] {
			return
		}
		var v *bvar
		for _, t := range []*T{a, b, cond} {
			if t.k == KIte && (v == nil || cmpVar(t.v, v) < 0) {
				v = t.v
			}
		}
		if v != nil {
			n := len(c.lits)
			outer := c.pruned
			c.pruned = false
			defer func() { c.pruned = c.pruned || outer }()
			c.lits = append(c.lits, literal{v, true})
			rec(cofTop(a, v, true), cofTop(b, v, true), cofTop(cond, v, true))
			c.lits = append(c.lits[:n], literal{v, false})
			rec(cofTop(a, v, false), cofTop(b, v, false), cofTop(cond, v, false))
			c.lits = c.lits[:n]
			if !c.pruned {
				memo[key] = true
			}
			return
		}
		c.compares++
		outer := c.pruned
		c.pruned = false
		defer func() { c.pruned = c.pruned || outer }()
		c.leaf(what, a, b, typ, nil)
		if c.diff != "" {
			save := c.diff
			if infeasible(c.lits) {
				// the guards exclude each other
				c.diff = ""
				c.pruned = true
				c.prunes++
				return
			}
			// the guards inside the terms
			if x, y := assumeDeep(a, c.lits), assumeDeep(b, c.lits); x != a || y != b {
				c.diff = ""
				rec(x, y, tTrue)
				if c.diff == "" {
					c.pruned = true
					return
				}
			}
			// the guards identify values
			if eqs := impliedEqualities(c.lits); len(eqs) > 0 {
				n := applyEqualities(eqs, []*T{a, b})
				if n[0] != a || n[1] != b {
					c.diff = ""
					c.pruned = true
					rec(n[0], n[1], tTrue)
					if c.diff == "" {
						return
					}
				}
			}
			c.diff = save
		}
		if !c.pruned {
			memo[key] = true
		}
	}
	rec(a, b, cond)
}

func (c *cmpCtx) fail(what string, a, b *T, path []string) {
	if c.diff != "" {
		return
	}
	for _, l := range c.lits {
		if l.val {
			path = append(path, showVar(l.v, 8))
		} else {
			path = append(path, "not("+showVar(l.v, 8)+")")
		}
	}
	for i, x := range path {
		if len(x) > 220 {
			path[i] = x[:120] + " ... " + x[len(x)-80:]
		}
	}
	w := strings.Join(path, " and ")
	if len(w) > 1600 {
		w = "... " + w[len(w)-1600:]
	}
	if w != "" {
		w = " when " + w
	}
	c.diff = fmt.Sprintf("%s%s: source computes %s, reference requires %s", what, w, show(a), show(b))
}

func (c *cmpCtx) leaf(what string, a, b *T, typ types.Type, path []string) {
	if b.k == KBot {
		return
	}
	if a == b && !mentionsAlloc(a) {
		return
	}
	if a.k != b.k {
		c.fail(what, a, b, path)
		return
	}
	switch a.k {
	case KPoly:
		if !polyZero(nearly(sub(a, b), a)) {
			c.fail(what, a, b, path)
		}
		return
	case KTuple:
		for i := range a.args {
			var ft types.Type
			var n *T
			switch u := typ.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
				n = num(u.Len())
			}
			if isArr(a.args[i]) {
				c.cell(what, a.args[i], b.args[i], ft, tTrue, n)
				continue
			}
			c.value(fmt.Sprintf("%s.%d", what, i), a.args[i], b.args[i], ft, tTrue)
		}
		return
	case KPtr:
		oa, ob := a.args[0], b.args[0]
		if oa == ob && a == b && oa.op != "alloc" {
			return
		}
		if oa.op == "alloc" && ob.op == "alloc" {
			k := fmt.Sprintf("%d,%d,%s", a.id, b.id, typ)
			if c.seen[k] {
				return
			}
			c.seen[k] = true
			outer := c.pruned
			c.pruned = false
			// what holds only under the present guards is asked again
			defer func() {
				if c.pruned || c.diff != "" {
					delete(c.seen, k)
				}
				c.pruned = c.pruned || outer
			}()
			pt, ok := typ.Underlying().(*types.Pointer)
			if !ok {
				c.fail(what, a, b, path)
				return
			}
			for _, l := range leavesOf(pt.Elem()) {
				x := c.e1.leafCell(c.s1, a, l)
				y := c.e2.leafCell(c.s2, b, l)
				c.cell("*"+what+l.path, x, y, l.typ, tTrue, nil)
			}
			return
		}
		if oa != ob || a.aux != b.aux {
			c.fail(what, a, b, path)
			return
		}
		for i := 1; i < len(a.args); i++ {
			if !polyZero(sub(a.args[i], b.args[i])) {
				c.fail(what, a, b, path)
			}
		}
		return
	case KSlice:
		if !polyZero(sub(a.args[2], b.args[2])) {
			c.fail("len of "+what, a.args[2], b.args[2], path)
			return
		}
		oa, ob := a.args[0], b.args[0]
		if oa == ob && a.aux == b.aux && oa.op != "alloc" {
			if !polyZero(sub(a.args[1], b.args[1])) {
				c.fail("start of "+what, a, b, path)
			}
			return
		}
		if oa.op == "alloc" && ob.op == "alloc" {
			k := fmt.Sprintf("s%d,%d", a.id, b.id)
			if c.seen[k] {
				return
			}
			c.seen[k] = true
			outer := c.pruned
			c.pruned = false
			// what holds only under the present guards is asked again
			defer func() {
				if c.pruned || c.diff != "" {
					delete(c.seen, k)
				}
				c.pruned = c.pruned || outer
			}()
			el := typ.Underlying().(*types.Slice).Elem()
			for _, l := range leavesOf(el) {
				x := c.e1.elemArr(c.s1, a, el, l)
				y := c.e2.elemArr(c.s2, b, el, l)
				c.cell(what+l.path, x, y, l.typ, tTrue, a.args[2])
			}
			return
		}
		c.fail(what, a, b, path)
		return
	case KIface:
		if a.aux != b.aux {
			c.fail(what, a, b, path)
			return
		}
		c.value(what, a.args[0], b.args[0], a.ref.(types.Type), tTrue)
		return
	case KClo:
		if c.closures(what, a, b) {
			return
		}
		c.fail(what, a, b, path)
		return
	case KAtom:
		if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0 && !isBinder(a.op) {
			// compare arguments (fresh objects may differ by name only)
			save := c.diff
			for i := range a.args {
				x, y := a.args[i], b.args[i]
				if x == y {
					continue
				}
				if isArr(x) != isArr(y) {
					c.fail(what, a, b, path)
					return
				}
				c.cell(fmt.Sprintf("%s (argument %d of %s)", what, i, a.op+" "+a.aux), x, y, nil, tTrue, nil)
				if c.diff != "" {
					return
				}
			}
			c.diff = save
			return
		}
	}
	c.fail(what, a, b, path)
}

// closures compares two function values by comparing their bodies.
func (c *cmpCtx) closures(what string, a, b *T) bool {
	f1, f2 := a.ref.(*ssa.Function), b.ref.(*ssa.Function)
	if f1 == f2 && len(a.args) == len(b.args) {
		for i := range a.args {
			c.value(what+" binding", a.args[i], b.args[i], f1.FreeVars[i].Type(), tTrue)
		}
		return true
	}
	if !types.Identical(f1.Signature, f2.Signature) {
		return false
	}
	var args []*T
	for i := 0; i < f1.Signature.Params().Len(); i++ {
		args = append(args, symval(f1.Signature.Params().At(i).Type(), "carg", fmt.Sprintf("c%d", i)))
	}
	s1, s2 := c.s1.clone(), c.s2.clone()
	c.e1.panics, c.e2.panics = tFalse, tFalse
	r1 := c.e1.call(f1, args, a.args, s1)
	r2 := c.e2.call(f2, args, b.args, s2)
	cond := not(or(c.e1.panics, c.e2.panics))
	for i := range r1 {
		c.value(what+" applied", r1[i], r2[i], f1.Signature.Results().At(i).Type(), cond)
	}
	return true
}

func (e *Ev) leafCell(st *State, p *T, l leaf) *T {
	c := e.readCell(st, p.args[0], p.aux+l.path, l.typ)
	if len(p.args) > 1 && !strings.Contains(l.path, "[]") {
		return sel(c, p.args[1])
	}
	return c
}

var allocMemo = map[int]bool{}

func mentionsAlloc(t *T) bool {
	if r, ok := allocMemo[t.id]; ok {
		return r
	}
	r := t.k == KObj && t.op == "alloc" || t.k == KClo
	if !r {
		for _, a := range t.args {
			if mentionsAlloc(a) {
				r = true
				break
			}
		}
	}
	allocMemo[t.id] = r
	return r
}

// polyZero decides p == 0 after clearing denominators.
func polyZero(p *T) bool {
	for it := 0; it < 50; it++ {
		if p == pZero {
			return true
		}
		if p.k == KIte {
			return polyZero(p.args[0]) && polyZero(p.args[1])
		}
		if p.k != KPoly {
			return false
		}
		// the deepest denominators last: pick any INV atom
		var at *T
		max := 0
		for _, m := range p.ms {
			for _, f := range m.f {
				if f.a.op == "INV" && (at == nil || f.a.size > at.size) {
					at = f.a
				}
			}
		}
		if at == nil {
			return false
		}
		for _, m := range p.ms {
			for _, f := range m.f {
				if f.a == at && f.e > max {
					max = f.e
				}
			}
		}
		q := at.args[0]
		acc := pZero
		for _, m := range p.ms {
			e := 0
			var rest []fac
			for _, f := range m.f {
				if f.a == at {
					e = f.e
				} else {
					rest = append(rest, f)
				}
			}
			t := mkPoly([]mono{{new(big.Rat).Set(m.c), rest}})
			acc = add(acc, mul(t, powInt(q, max-e)))
		}
		p = acc
	}
	return false
}

// assumeDeep simplifies every decision inside t, at any depth, that the
// literals settle.
func assumeDeep(t *T, lits []literal) *T {
	if len(lits) == 0 {
		return t
	}
	memo := map[int]*T{}
	all := func(*T) bool { return true }
	var f func(x *T) *T
	f = func(x *T) *T {
		if r, ok := memo[x.id]; ok {
			return r
		}
		var r *T
		if x.k == KIte {
			for _, l := range lits {
				if val, known := implied(x.v, l); known {
					if val {
						r = f(x.args[0])
					} else {
						r = f(x.args[1])
					}
					break
				}
			}
		}
		if r == nil {
			r = rebuild(x, f, all)
		}
		memo[x.id] = r
		return r
	}
	return f(t)
}
