package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- whole-repository programs

// loadAll loads every package of the repository; a directory with several
// programs contributes one package per file.
func (c *Ctx) loadAll() {
	c.l = NewLoader(c.repo, filepath.Join(c.verif, "spec"), c.prop)
	dirs, err := repoPackages(c.repo)
	if err != nil {
		fail("%v", err)
	}
	for _, d := range dirs {
		p := modPath
		if d != "." {
			p += "/" + d
		}
		for _, files := range programFiles(c.repo, d) {
			if _, err := c.l.load(p, files); err != nil {
				c.bad("every program type-checks", p, d, "%v", err)
			}
		}
	}
	c.l.buildSSA()
}

// programFiles groups the files of a directory into packages: nil for an
// ordinary package, one group per file where several files have a main.
func programFiles(repo, dir string) [][]string {
	m, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	sort.Strings(m)
	mains := 0
	var names []string
	for _, f := range m {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		names = append(names, filepath.Base(f))
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				mains++
			}
		}
	}
	if mains <= 1 {
		return [][]string{nil}
	}
	var out [][]string
	for _, n := range names {
		out = append(out, []string{n})
	}
	return out
}

type flow struct {
	l        *Loader
	fns      []*ssa.Function
	mine     map[*ssa.Function]bool
	noret    map[*ssa.Function]bool
	argState map[argKey]int
	resMemo  map[*ssa.Function]map[int]bool
}

type argKey struct {
	f *ssa.Function
	i int
}

func newFlow(l *Loader) *flow {
	fl := &flow{l: l, mine: map[*ssa.Function]bool{}, noret: map[*ssa.Function]bool{}, argState: map[argKey]int{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || fl.mine[f] || len(f.Blocks) == 0 {
			return
		}
		fl.mine[f] = true
		fl.fns = append(fl.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range l.order {
		for _, file := range p.Files {
			if p.Spec[file] {
				continue
			}
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
						add(l.Prog.FuncValue(o))
					} else if fd.Name.Name == "init" {
						for _, m := range p.SSA.Members {
							if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
								add(f)
							}
						}
					}
				}
			}
		}
		if f := p.SSA.Func("init"); f != nil {
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
	}
	sort.Slice(fl.fns, func(i, j int) bool { return fl.fns[i].Pos() < fl.fns[j].Pos() })
	// functions that never return
	for changed := true; changed; {
		changed = false
		for _, f := range fl.fns {
			if !fl.noret[f] && !fl.canReturn(f) {
				fl.noret[f] = true
				changed = true
			}
		}
	}
	return fl
}

func (fl *flow) canReturn(f *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if fl.stops(in) {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.Blocks[0]) || f.Recover != nil && walk(f.Recover)
}

// stops: control does not get past in.
func (fl *flow) stops(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if fl.noret[f] {
				return true
			}
			return stopsName(f)
		}
	}
	return false
}

func stopsName(f *ssa.Function) bool {
	switch f.String() {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln",
		"os.Exit", "runtime.Goexit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln",
		"(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		return true
	}
	return false
}

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

// errIndex is the position of the error among the results of a call, -1 if none.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErr(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return c.Value.Name()
}

// ---- error discipline

// exemptErr: errors that carry no information about data being read or written.
func exemptErr(c *ssa.CallCommon) string {
	n := callName(c)
	switch {
	case strings.HasPrefix(n, "fmt.Print"):
		return "standard output"
	case strings.HasPrefix(n, "fmt.Fprint"):
		if std(c.Args[0]) {
			return "standard output"
		}
	case strings.HasSuffix(n, ".Close"):
		return "close"
	case strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Builder).Write"):
		return "memory"
	case n == "fmt.Errorf", n == "errors.New", strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "(*errors."):
		return "constructor"
	case n == "(context.Context).Err":
		return "constructor"
	}
	return ""
}

func std(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return std(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.String() == "os.Stdout" || g.String() == "os.Stderr"
		}
	}
	return false
}

type aliasSet map[ssa.Value]bool

func (a aliasSet) clone() aliasSet {
	b := aliasSet{}
	for k := range a {
		b[k] = true
	}
	return b
}

func (a aliasSet) key() string {
	var s []string
	for v := range a {
		s = append(s, fmt.Sprintf("%p", v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// errWalk explores the paths on which a non-nil error is held.
type errWalk struct {
	fl   *flow
	fn   *ssa.Function
	call ssa.Instruction
	seen map[string]bool
	why  string
	at   token.Pos
	// the function's own error result is known to be non-nil at its exits
	returns bool
	n       int
	// the other results of a call that asks whether something exists; the
	// failure is an answer there, but those results must not be used
	probe  map[ssa.Value]bool
	tested bool
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// cond decides a branch condition when the error is known to be non-nil:
// 1 true, 0 false, -1 unknown.
func (w *errWalk) cond(v ssa.Value, a aliasSet) int {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return -1
		}
		l, r := x.X, x.Y
		if isNilConst(l) {
			l, r = r, l
		}
		if a[l] && isNilConst(r) {
			if x.Op == token.EQL {
				return 0
			}
			return 1
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if c := w.cond(x.X, a); c >= 0 {
				return 1 - c
			}
		}
	case *ssa.Call:
		// a predicate of the error: f(err) bool
		if f := x.Call.StaticCallee(); f != nil && w.fl.mine[f] {
			for i, arg := range x.Call.Args {
				if a[arg] && i < len(f.Params) {
					if r := w.fl.constBool(f, i); r >= 0 {
						return r
					}
				}
			}
		}
	case *ssa.Phi:
		if a[v] {
			return -1
		}
	}
	return -1
}

// constBool: the result of f when its i-th parameter is a non-nil error.
func (fl *flow) constBool(f *ssa.Function, i int) int {
	if f.Signature.Results().Len() != 1 {
		return -1
	}
	res := -1
	w := &errWalk{fl: fl, fn: f, seen: map[string]bool{}}
	ok := true
	w.walk(f.Blocks[0], 0, nil, aliasSet{f.Params[i]: true}, func(r *ssa.Return, a aliasSet) {
		v := r.Results[0]
		c := w.cond(v, a)
		if k, isC := v.(*ssa.Const); isC && k.Value != nil {
			c = 0
			if k.Value.String() == "true" {
				c = 1
			}
		}
		if c < 0 || res >= 0 && res != c {
			ok = false
		}
		res = c
	})
	if !ok {
		return -1
	}
	return res
}

func (w *errWalk) fail(pos token.Pos, format string, args ...interface{}) {
	if w.why == "" {
		w.why = fmt.Sprintf(format, args...)
		w.at = pos
	}
}

// nonNilErr: v is an error that cannot be nil.
func (fl *flow) nonNilErr(v ssa.Value, a aliasSet) bool {
	if a[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if p, ok := x.X.(*ssa.Const); ok && p.Value == nil {
			return false
		}
		return true
	case *ssa.ChangeInterface:
		return fl.nonNilErr(x.X, a)
	case *ssa.Call:
		switch n := callName(&x.Call); {
		case n == "fmt.Errorf", n == "errors.New":
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && fl.mine[f] {
			for i, arg := range x.Call.Args {
				if a[arg] && fl.argHandled(f, i) == 2 {
					return true
				}
			}
			return fl.alwaysErr(f)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && fl.mine[f] && x.Index == errIndex(f.Signature) {
				for i, arg := range c.Call.Args {
					if a[arg] && fl.argHandled(f, i) == 2 {
						return true
					}
				}
			}
		}
	case *ssa.UnOp:
		// a package-level error value (io.EOF, ErrX)
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErr(x.Type()) {
			_ = g
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !fl.nonNilErr(e, a) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

var alwaysMemo = map[*ssa.Function]bool{}

// alwaysErr: every return of f carries a non-nil error.
func (fl *flow) alwaysErr(f *ssa.Function) bool {
	i := errIndex(f.Signature)
	if i < 0 {
		return false
	}
	if r, ok := alwaysMemo[f]; ok {
		return r
	}
	alwaysMemo[f] = false
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				n++
				if !fl.nonNilErr(r.Results[i], nil) {
					return false
				}
			}
		}
	}
	alwaysMemo[f] = n > 0
	return n > 0
}

// argHandled: what f does when its i-th argument is a non-nil error:
// 1 it does not return, 2 it returns a non-nil error, 0 neither.
func (fl *flow) argHandled(f *ssa.Function, i int) int {
	k := argKey{f, i}
	if s, ok := fl.argState[k]; ok {
		return s
	}
	fl.argState[k] = 0
	if i >= len(f.Params) || len(f.Blocks) == 0 {
		return 0
	}
	p := f.Params[i]
	if !isErr(p.Type()) {
		return 0
	}
	rets, good := 0, true
	w := &errWalk{fl: fl, fn: f, seen: map[string]bool{}}
	ei := errIndex(f.Signature)
	w.walk(f.Blocks[0], 0, nil, aliasSet{p: true}, func(r *ssa.Return, a aliasSet) {
		rets++
		if ei < 0 || !fl.nonNilErr(r.Results[ei], a) {
			good = false
		}
	})
	switch {
	case rets == 0:
		fl.argState[k] = 1
	case good:
		fl.argState[k] = 2
	}
	return fl.argState[k]
}

func (w *errWalk) walk(b *ssa.BasicBlock, i int, from *ssa.BasicBlock, a aliasSet, ret func(*ssa.Return, aliasSet)) {
	if from != nil {
		// phis see the edge they come from
		na := a.clone()
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(na, p)
			for j, pr := range b.Preds {
				if pr == from && a[p.Edges[j]] {
					na[p] = true
				}
			}
		}
		a = na
		k := fmt.Sprintf("%d|%d|%s", from.Index, b.Index, a.key())
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		w.n++
		for v := range w.probe {
			if _, isEx := in.(*ssa.Extract); !isEx && usesValue(in, v) {
				w.fail(in.Pos(), "the result is used although the call failed")
				return
			}
		}
		if in == w.call {
			if w.probe != nil && w.tested {
				return
			}
			w.fail(in.Pos(), "the loop goes on to the next call with the error unreported")
			return
		}
		if w.fl.stops(in) {
			return
		}
		switch x := in.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && w.fl.mine[f] {
				for j, arg := range x.Call.Args {
					if a[arg] && w.fl.argHandled(f, j) == 1 {
						return
					}
				}
			}
			if w.fl.nonNilErr(x, a) && isErr(x.Type()) {
				a = a.clone()
				a[x] = true
			}
		case *ssa.ChangeInterface:
			if a[x.X] {
				a = a.clone()
				a[x] = true
			}
		case *ssa.Store:
			if a[x.Val] {
				a = a.clone()
				a[x.Addr] = true // marks the cell
			} else if a[x.Addr] {
				a = a.clone()
				delete(a, x.Addr)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && a[x.X] && isErr(x.Type()) {
				a = a.clone()
				a[x] = true
			}
		case *ssa.Send:
			if a[x.X] {
				return // handed to the receiver
			}
		case *ssa.Return:
			ret(x, a)
			return
		case *ssa.If:
			c := w.cond(x.Cond, a)
			w.tested = w.tested || c >= 0
			if c != 0 {
				w.walk(b.Succs[0], 0, b, a, ret)
			}
			if c != 1 {
				w.walk(b.Succs[1], 0, b, a, ret)
			}
			return
		}
	}
	for _, s := range b.Succs {
		w.walk(s, 0, b, a, ret)
	}
}

// checkErr decides one call that returns an error.
func (fl *flow) checkErr(fn *ssa.Function, in ssa.CallInstruction) (string, token.Pos, int) {
	sig := in.Common().Signature()
	ei := errIndex(sig)
	var e ssa.Value
	switch x := in.(type) {
	case *ssa.Call:
		if sig.Results().Len() == 1 {
			e = x
		} else {
			for _, r := range *x.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == ei {
					e = ex
				}
			}
		}
	default:
		return "its error is discarded (defer or go)", in.Pos(), 0
	}
	if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
		return "its error is discarded", in.Pos(), 0
	}
	w := &errWalk{fl: fl, fn: fn, call: in, seen: map[string]bool{}}
	// the call itself, then everything after it
	blk := in.Block()
	idx := 0
	for i, x := range blk.Instrs {
		if x == ssa.Instruction(in) {
			idx = i + 1
		}
	}
	fei := errIndex(fn.Signature)
	if x, ok := in.(*ssa.Call); ok && probe(&x.Call) && x.Referrers() != nil {
		w.probe = map[ssa.Value]bool{}
		for _, r := range *x.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index != ei {
				w.probe[ex] = true
			}
		}
	}
	w.walk(blk, idx, nil, aliasSet{e: true}, func(r *ssa.Return, a aliasSet) {
		if w.probe != nil && w.tested {
			return
		}
		if fei >= 0 {
			if !fl.nonNilErr(r.Results[fei], a) {
				w.fail(r.Pos(), "a path returns as if it had succeeded")
			}
			return
		}
		for _, v := range r.Results {
			if c := w.cond(v, a); c >= 0 {
				return // the outcome is reported as a boolean
			}
		}
		w.fail(r.Pos(), "a path carries on after the failure")
	})
	return w.why, w.at, w.n
}

func usesValue(in ssa.Instruction, v ssa.Value) bool {
	for _, op := range in.Operands(nil) {
		if op != nil && *op == v {
			return true
		}
	}
	return false
}

// probe: the call asks what exists.
func probe(c *ssa.CallCommon) bool {
	switch callName(c) {
	case "os.Stat", "os.Lstat", "io/ioutil.ReadDir", "os.ReadDir":
		return true
	}
	return false
}

func extraC05(c *Ctx) {
	fl := newFlow(c.l)
	rule := "a non-nil error is returned or stops the program"
	exempt := map[string]int{}
	steps := 0
	for _, fn := range fl.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || errIndex(ci.Common().Signature()) < 0 {
					continue
				}
				if ex := exemptErr(ci.Common()); ex != "" {
					exempt[ex]++
					continue
				}
				why, at, n := fl.checkErr(fn, ci)
				steps += n
				what := fmt.Sprintf("%s: %s", fn.String(), callName(ci.Common()))
				where := c.l.pos(ci.Pos())
				if why == "" {
					c.good(rule, what, where)
				} else {
					c.bad(rule, what, where, "%s (%s)", why, c.l.pos(at))
				}
			}
		}
	}
	c.extra["functions_scanned"] = len(fl.fns)
	c.extra["exempt_calls"] = exempt
	c.extra["instructions_walked"] = steps
}
