package main

// Races between goroutines (C08). A harness is evaluated with every memory
// access recorded under the vector clock of the goroutine that makes it; two
// accesses to overlapping memory, one of them a write, must be ordered by the
// channels and locks the program uses. Values that cannot decide which memory
// is touched are forgotten as soon as they are stored, so a verdict holds for
// every input the harness leaves open.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type access struct {
	thread int
	epoch  int
	path   string
	idx    *T // nil: any
	write  bool
	pos    token.Pos
	locks  string
	fn     *ssa.Function
}

type accKey struct {
	thread, obj int
	path        string
	idx         *T
	write       bool
	pos         token.Pos
	locks       string
}

type pendingGo struct {
	thread int
	run    func(st *State)
}

type tracer struct {
	late    bool // goroutines begin when the one that started them has to wait
	clocks  [][]int
	cur     int
	last    []int // epoch of each goroutine's last access
	began   []token.Pos
	locks   []map[string]bool
	acc     map[int][]*access
	pending []pendingGo
	msgs    map[int][][]int
	caps    map[int]int
	where   map[string]token.Pos
	open    map[int]bool
	wait    map[string]int
	waitClk map[string][]int
	gos     map[token.Pos]bool
	races   []string
	seen    map[string]bool
	checked int
	same    map[accKey]*access
	done    map[accKey]int
	events  int
	n       int
}

func newTracer(late bool) *tracer {
	t := &tracer{late: late, acc: map[int][]*access{}, msgs: map[int][][]int{}, caps: map[int]int{}, where: map[string]token.Pos{}, open: map[int]bool{},
		wait: map[string]int{}, waitClk: map[string][]int{}, gos: map[token.Pos]bool{}, seen: map[string]bool{}, same: map[accKey]*access{}, done: map[accKey]int{}}
	t.spawn(token.NoPos)
	return t
}

func (t *tracer) spawn(pos token.Pos) int {
	n := len(t.clocks)
	c := make([]int, n+1)
	if n > 0 {
		copy(c, t.clocks[t.cur])
		t.tick()
	}
	c[n] = 1
	t.clocks = append(t.clocks, c)
	t.last = append(t.last, 0)
	t.began = append(t.began, pos)
	t.locks = append(t.locks, map[string]bool{})
	return n
}

func (t *tracer) tick() { t.clocks[t.cur][t.cur]++ }

func (t *tracer) at(thread, of int) int {
	if of < len(t.clocks[thread]) {
		return t.clocks[thread][of]
	}
	return 0
}

func joinClock(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func (t *tracer) join(c []int) { t.clocks[t.cur] = joinClock(t.clocks[t.cur], c) }

func (t *tracer) release() []int {
	c := append([]int(nil), t.clocks[t.cur]...)
	t.tick()
	return c
}

func (t *tracer) report(s string, at ...token.Pos) {
	if !t.seen[s] {
		t.seen[s] = true
		t.races = append(t.races, s)
		if len(at) > 0 {
			t.where[s] = at[0]
		}
	}
}

func overlapPath(a, b string) bool {
	if i := strings.Index(a, "!"); i >= 0 {
		a = a[:i]
	}
	if i := strings.Index(b, "!"); i >= 0 {
		b = b[:i]
	}
	if len(a) > len(b) {
		a, b = b, a
	}
	return strings.HasPrefix(b, a) && (len(a) == len(b) || b[len(a)] == '.' || b[len(a)] == '[')
}

func sharedLock(a, b string) bool {
	for _, x := range strings.Split(a, ";") {
		for _, y := range strings.Split(b, ";") {
			if x == "" || y == "" || strings.HasPrefix(x, "r:") && strings.HasPrefix(y, "r:") {
				continue
			}
			if strings.TrimPrefix(x, "r:") == strings.TrimPrefix(y, "r:") {
				return true
			}
		}
	}
	return false
}

// touch records an access through a pointer, a slice or a map.
func (e *Ev) touch(p *T, write bool, pos token.Pos) {
	t := e.tr
	if t == nil || e.inInit {
		return
	}
	switch p.k {
	case KIte:
		e.touch(p.args[0], write, pos)
		e.touch(p.args[1], write, pos)
		return
	case KIface:
		e.touch(p.args[0], write, pos)
		return
	case KPtr, KSlice:
	default:
		return
	}
	a := &access{thread: t.cur, epoch: t.clocks[t.cur][t.cur], path: p.aux, write: write, pos: pos}
	if p.k == KSlice {
		if !strings.Contains(p.aux, "!") {
			a.path += "[]"
		}
	} else if len(p.args) > 1 {
		if _, ok := intOf(p.args[1]); ok {
			a.idx = p.args[1]
		}
	}
	if len(e.stack) > 0 {
		a.fn = e.stack[len(e.stack)-1]
	}
	var ls []string
	for l := range t.locks[t.cur] {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	a.locks = strings.Join(ls, ";")
	t.n++
	t.last[t.cur] = a.epoch
	obj := p.args[0]
	if obj.op == "world" {
		return
	}
	key := accKey{a.thread, obj.id, a.path, a.idx, a.write, a.pos, a.locks}
	old := t.same[key]
	if old != nil && old.epoch == a.epoch && t.done[key] == t.events {
		return
	}
	t.done[key] = t.events
	if old != nil {
		old.epoch = a.epoch
	} else {
		t.same[key] = a
		t.events++
	}
	for _, b := range t.acc[obj.id] {
		if b.thread == a.thread {
			continue
		}
		if !a.write && !b.write || !overlapPath(a.path, b.path) {
			continue
		}
		if a.idx != nil && b.idx != nil && a.idx != b.idx {
			continue // different known elements
		}
		t.checked++
		if b.epoch <= t.at(t.cur, b.thread) || sharedLock(a.locks, b.locks) {
			continue
		}
		t.report(fmt.Sprintf("%s and %s run at the same time on %s%s", e.accName(b), e.accName(a), show(obj), commonPath(a.path, b.path)), a.pos)
	}
	if old == nil {
		t.acc[obj.id] = append(t.acc[obj.id], a)
	}
}

func commonPath(a, b string) string {
	if len(a) > len(b) {
		return a
	}
	return b
}

func (e *Ev) accName(a *access) string {
	what := "a read"
	if a.write {
		what = "a write"
	}
	fn := "?"
	if a.fn != nil {
		fn = shortName(fnName(a.fn))
	}
	who := "the goroutine started at " + e.l.pos(e.tr.began[a.thread])
	if a.thread == 0 {
		who = "the caller"
	}
	return fmt.Sprintf("%s in %s at %s (by %s)", what, fn, e.l.pos(a.pos), who)
}

// forget replaces a value that cannot be an address or a known number.
func (e *Ev) forget(v *T, t types.Type) *T {
	if e.tr == nil || e.inInit {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.k == KTuple {
			vs := make([]*T, u.NumFields())
			for i := range vs {
				vs[i] = e.forget(v.args[i], u.Field(i).Type())
			}
			return tuple(vs...)
		}
		return v
	case *types.Tuple:
		if v.k == KTuple {
			vs := make([]*T, u.Len())
			for i := range vs {
				vs[i] = e.forget(v.args[i], u.At(i).Type())
			}
			return tuple(vs...)
		}
		return v
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return e.targets(v)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		if v == tTrue || v == tFalse {
			return v
		}
		return opaqueBool(freshSym(false, false, "b"))
	case u.Info()&types.IsFloat != 0:
		if _, ok := constOf(v); ok {
			return v
		}
		return anum(freshSym(true, false, "v"))
	case u.Info()&types.IsInteger != 0:
		if _, ok := intOf(v); ok {
			return v
		}
		return anum(freshSym(true, true, "v"))
	}
	return v
}

// forgetCell does so for the content of a memory cell.
func (e *Ev) forgetCell(v *T, path string, t types.Type) *T {
	if e.tr == nil || e.inInit {
		return v
	}
	if !strings.Contains(path, "[]") {
		return e.forget(v, t)
	}
	if v.k == KTuple {
		return v
	}
	if u, ok := t.Underlying().(*types.Basic); !ok || u.Info()&(types.IsBoolean|types.IsNumeric) == 0 {
		if x := sel(v, anum(freshSym(true, true, "v"))); nodes(x, 24) > 24 {
			return e.anyElem(x)
		}
		return v
	}
	return atom("AFN", "any"+strconv.Itoa(nextSym)+path+"@"+kindOf(t), false, false, false, freshSym(true, true, "v"))
}

// ---- goroutines, channels, locks

func (e *Ev) startGo(pos token.Pos, st *State, f func(st *State)) {
	t := e.tr
	t.gos[pos] = true
	id := t.spawn(pos)
	p := pendingGo{id, f}
	if t.late {
		t.pending = append(t.pending, p)
		return
	}
	e.runGo(p, st)
}

func (e *Ev) runGo(p pendingGo, st *State) {
	cur := e.tr.cur
	e.tr.cur = p.thread
	pc := e.pc
	p.run(st)
	e.pc = pc
	e.tr.cur = cur
}

// runPending lets one goroutine that has not begun run; the latest first.
func (e *Ev) runPending(st *State) bool {
	t := e.tr
	if t == nil || len(t.pending) == 0 {
		return false
	}
	p := t.pending[len(t.pending)-1]
	t.pending = t.pending[:len(t.pending)-1]
	e.runGo(p, st)
	return true
}

func (e *Ev) traceMake(o, capacity *T) {
	if e.tr == nil {
		return
	}
	n, ok := intOf(capacity)
	if !ok {
		fail("a channel of unknown capacity")
	}
	e.tr.caps[o.id] = int(n)
}

func (e *Ev) traceSend(o *T, st *State, pos token.Pos) {
	t := e.tr
	if t == nil {
		return
	}
	if t.cur == 0 {
		for len(t.msgs[o.id]) >= t.caps[o.id] {
			if !e.runPending(st) {
				t.report(fmt.Sprintf("the send at %s waits for ever: nothing receives from the channel and %d values are in it", e.l.pos(pos), len(t.msgs[o.id])))
				break
			}
		}
	}
	t.msgs[o.id] = append(t.msgs[o.id], t.release())
}

func (e *Ev) traceReceive(o *T) {
	t := e.tr
	if t == nil {
		return
	}
	if q := t.msgs[o.id]; len(q) > 0 {
		t.join(q[0])
		t.msgs[o.id] = q[1:]
	}
}

func objKey(p *T) string {
	if p.k != KPtr {
		fail("a lock or wait group that is not known")
	}
	k := strconv.Itoa(p.args[0].id) + p.aux
	for _, i := range p.args[1:] {
		k += "," + strconv.Itoa(i.id)
	}
	return k
}

func init() {
	none := func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T { return nil }
	special["(*sync.WaitGroup).Add"] = func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
		if e.tr != nil {
			n, ok := intOf(a[1])
			if !ok {
				fail("a wait group is given an unknown count")
			}
			e.tr.wait[objKey(a[0])] += int(n)
		}
		return nil
	}
	special["(*sync.WaitGroup).Done"] = func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
		if t := e.tr; t != nil {
			k := objKey(a[0])
			t.wait[k]--
			if t.wait[k] < 0 {
				t.report("a wait group is told that more is done than was begun (" + e.l.pos(c.Pos()) + ")")
			}
			t.waitClk[k] = joinClock(t.waitClk[k], t.release())
		}
		return nil
	}
	special["(*sync.WaitGroup).Wait"] = func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
		if t := e.tr; t != nil {
			k := objKey(a[0])
			for t.wait[k] > 0 {
				if !e.runPending(st) {
					t.report("the wait at " + e.l.pos(c.Pos()) + " never ends")
					return nil
				}
			}
			for id, q := range t.msgs {
				if t.cur == 0 && len(q) > t.caps[id] {
					t.report("the wait at " + e.l.pos(c.Pos()) + " never ends: goroutines wait to send to a full channel")
				}
			}
			t.join(t.waitClk[k])
		}
		return nil
	}
	lock := func(pre string, on bool) func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
		return func(e *Ev, c *ssa.CallCommon, a []*T, st *State) []*T {
			if t := e.tr; t != nil {
				if on {
					if t.locks[t.cur][pre+objKey(a[0])] && pre == "" {
						t.report("a lock is taken twice at " + e.l.pos(c.Pos()))
					}
					t.locks[t.cur][pre+objKey(a[0])] = true
				} else {
					delete(t.locks[t.cur], pre+objKey(a[0]))
				}
			}
			return nil
		}
	}
	special["(*sync.Mutex).Lock"] = lock("", true)
	special["(*sync.Mutex).Unlock"] = lock("", false)
	special["(*sync.RWMutex).Lock"] = lock("", true)
	special["(*sync.RWMutex).Unlock"] = lock("", false)
	special["(*sync.RWMutex).RLock"] = lock("r:", true)
	special["(*sync.RWMutex).RUnlock"] = lock("r:", false)
	special["runtime.Gosched"] = none
}

// checkRace evaluates one harness in one order.
func checkRace(l *Loader, s *specFn, late bool, gos map[token.Pos]bool) (ob Obligation) {
	order := "goroutines run as soon as they are started"
	if late {
		order = "goroutines run as late as they can, the last one first"
	}
	name := strings.TrimPrefix(s.name, "race__")
	ob = Obligation{Rule: "conflicting accesses are ordered by channels or locks; " + order, What: s.pkg.Dir + "." + name}
	ob.Key = s.name + "/" + strconv.FormatBool(late)
	ob.Where = l.pos(s.fn.Pos())
	t := newTracer(late)
	err := protect(func() {
		e := newEv(l)
		e.tr = t
		e.want = map[string]bool{}
		for _, o := range s.opaque {
			e.opaque[o] = true
			e.want[o] = true
		}
		for n, wr := range s.effect {
			e.effects[n] = wr
			e.want[n] = true
		}
		for n, m := range s.models {
			mf := lookupFn(l, s.pkg, m)
			if mf == nil {
				fail("no stand-in %s", m)
			}
			e.models[n] = mf
			e.want[n] = true
		}
		var args []*T
		for i, p := range s.fn.Params {
			args = append(args, symval(p.Type(), "param", fmt.Sprintf("p%d", i)))
		}
		st := newState()
		e.call(s.fn, args, nil, st)
		for i := 1; i < len(t.clocks); i++ {
			began := false
			for _, p := range t.pending {
				began = began || p.thread == i
			}
			if began || t.at(0, i) < t.last[i] {
				t.report("nothing waits for the goroutine started at "+l.pos(t.began[i]), t.began[i])
			}
		}
		ob.Fns, ob.Loops, ob.Terms = len(e.fns), e.loops, t.n
		if e.panics == tTrue {
			fail("the harness always stops")
		}
	})
	for p := range t.gos {
		gos[p] = true
	}
	sort.Strings(t.races)
	for _, p := range t.began[1:] {
		if w := l.pos(p); !strings.HasPrefix(w, "/") {
			ob.Where = w
		}
	}
	if len(t.races) > 0 && t.where[t.races[0]] != 0 {
		ob.Where = l.pos(t.where[t.races[0]])
	}
	bad := strings.HasPrefix(strings.TrimSpace(s.doc), "control:")
	switch {
	case err != nil:
		ob.Detail = "undecided: " + err.Error()
	case bad && late && len(t.races) == 0:
		ob.Detail = "the control that shares memory between goroutines is not reported"
	case bad:
		ob.OK = true
	case len(t.races) > 0:
		ob.Detail = t.races[0]
		if len(t.races) > 1 {
			ob.Detail += fmt.Sprintf("; and %d more", len(t.races)-1)
		}
	default:
		ob.OK = true
	}
	if ob.OK {
		ob.What += fmt.Sprintf(" (%d goroutines, %d accesses, %d conflicting pairs ordered)", len(t.clocks), t.n, t.checked)
	}
	return
}

const goRule = "go statement evaluated"

// raceChild decides one harness and names the go statements it met.
func (c *Ctx) raceChild(s *specFn) {
	gos := map[token.Pos]bool{}
	for _, late := range []bool{false, true} {
		c.add(checkRace(c.l, s, late, gos))
	}
	for p := range gos {
		c.add(Obligation{Rule: goRule, Where: c.l.pos(p), OK: true})
	}
}

func extraC08(c *Ctx) {
	n := len(c.obs)
	var fns []*specFn
	for _, s := range specFns(c.l) {
		if strings.Contains(s.name, os.Getenv("GTV_RACE")) { // all of them unless one is studied
			fns = append(fns, s)
		}
	}
	c.fork(fns)
	gos := map[string]bool{}
	kept := append([]Obligation(nil), c.obs[:n]...)
	for _, o := range c.obs[n:] {
		if o.Rule == goRule {
			gos[o.Where] = true
			continue
		}
		kept = append(kept, o)
	}
	c.obs = kept
	for _, p := range c.l.order {
		for _, f := range pkgFuncs(p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g, ok := in.(*ssa.Go)
					if !ok || strings.HasPrefix(f.Name(), "spec__") || strings.HasPrefix(f.Name(), "race__") {
						continue
					}
					at := c.l.pos(g.Pos())
					ob := Obligation{Rule: "every go statement is part of an analysed harness", What: shortName(fnName(f)), Where: at, OK: gos[at]}
					ob.Key = "go/" + shortName(fnName(f))
					if !ob.OK {
						ob.Detail = "a goroutine that no harness starts"
					}
					c.add(ob)
				}
			}
		}
	}
}

// traceLoop covers a loop whose number of rounds is not known: what the body
// may change is forgotten, addresses are followed for three rounds.
func (e *Ev) traceLoop(fr *Frame, L *loopT, cond0 *T, st0 *State, phis []*ssa.Phi, phis0 []*T) []edge {
	st := st0
	vals := make([]*T, len(phis))
	for i, p := range phis {
		vals[i] = e.havoc(phis0[i], p.Type())
	}
	var exits, back []edge
	last := false
	for pass := 0; ; pass++ {
		e.pc = cond0
		exits, back = e.region(fr, L.blocks, L, L.header, []edge{{to: L.header, cond: tTrue, st: st.clone(), phis: vals}})
		if len(back) == 0 {
			break
		}
		if last {
			break
		}
		_, bst, bphis := e.merge(back)
		b := opaqueBool(freshSym(false, false, "b"))
		moved := false
		for k, v := range bst.cells {
			ci := cellInfos[k]
			if ci == nil || v == e.rawCell(st, k) {
				continue
			}
			if u, ok := ci.typ.Underlying().(*types.Basic); !ok || u.Info()&(types.IsBoolean|types.IsNumeric) == 0 {
				if _, had := st.cells[k]; had || ci.obj.op != "alloc" {
					moved = true
				}
			}
		}
		st = e.mergeStates([]*T{b, not(b)}, []*State{bst, st})
		for i, p := range phis {
			v := ite(b, bphis[i], vals[i])
			if u, ok := p.Type().Underlying().(*types.Basic); v != vals[i] && (!ok || u.Info()&(types.IsBoolean|types.IsNumeric) == 0) {
				moved = true
			}
			vals[i] = e.havoc(v, p.Type())
		}
		last = !moved || pass == 1
	}
	if len(exits) == 0 {
		fail("a loop without an end at %s", e.l.pos(L.header.Instrs[0].Pos()))
	}
	more := tFalse
	for _, x := range back {
		more = or(more, x.cond)
	}
	exits[0].cond = or(exits[0].cond, more)
	for i := range exits {
		exits[i].cond = and(cond0, exits[i].cond)
	}
	return e.finishExits(fr, L, exits, nil)
}

// havoc forgets the scalars of a value, known ones too.
func (e *Ev) havoc(v *T, t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vs := make([]*T, u.NumFields())
		for i := range vs {
			vs[i] = e.havoc(comp(v, i), u.Field(i).Type())
		}
		return tuple(vs...)
	case *types.Array:
		if u.Len() <= smallArray {
			vs := make([]*T, u.Len())
			for i := range vs {
				vs[i] = e.havoc(comp(v, i), u.Elem())
			}
			return tuple(vs...)
		}
	case *types.Basic:
		if u.Info()&(types.IsBoolean|types.IsNumeric) != 0 {
			return e.forget(symval(t, "any", strconv.Itoa(nextSym), freshSym(true, true, "v")), t)
		}
	}
	return v
}

// vague tells whether a store makes the whole array not worth knowing.
func (e *Ev) vague(i, v *T, t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	if !ok || u.Info()&(types.IsBoolean|types.IsNumeric) == 0 {
		return false
	}
	_, k1 := intOf(i)
	_, k2 := constOf(v)
	return !k1 || !k2 || u.Info()&types.IsFloat != 0
}

// talks tells whether a loop starts goroutines or uses channels itself.
func talks(L *loopT) bool {
	for b := range L.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Send:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return false
}

// targets keeps of a conditional address the places it may be.
func (e *Ev) targets(v *T) *T {
	if v.k != KIte {
		return v
	}
	var out []*T
	seen, had := map[int]bool{}, map[string]int{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.k == KIte {
			walk(t.args[0])
			walk(t.args[1])
			return
		}
		key := "t" + strconv.Itoa(t.id)
		if t.k == KSlice {
			key = "s" + strconv.Itoa(t.args[0].id) + t.aux
		} else if t.k == KPtr && len(t.args) > 1 {
			if _, ok := intOf(t.args[1]); !ok {
				key = "p" + strconv.Itoa(t.args[0].id) + t.aux
			}
		}
		i, ok := had[key]
		if !ok {
			had[key] = len(out)
			out = append(out, t)
			return
		}
		o := out[i]
		if t.k == KSlice && o != t {
			a := append([]*T(nil), o.args...)
			for j := 1; j < 4; j++ {
				if o.args[j] != t.args[j] {
					a[j] = anum(freshSym(true, true, "v"))
				}
			}
			out[i] = mkSlice(a[0], o.aux, a[1], a[2], a[3])
		}
	}
	walk(v)
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = ite(opaqueBool(freshSym(false, false, "b")), out[i], r)
	}
	return r
}

// nodes counts the distinct conditionals of a term, up to a limit.
func nodes(t *T, limit int) int {
	seen := map[int]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if t.k != KIte || seen[t.id] || len(seen) > limit {
			return
		}
		seen[t.id] = true
		walk(t.args[0])
		walk(t.args[1])
	}
	walk(t)
	return len(seen)
}

// anyElem is an array whose every element may be any of the places of a term.
func (e *Ev) anyElem(v *T) *T {
	v = e.targets(v)
	return mkLamF(func(*T) *T { return v })
}
