package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Ctx struct {
	prop   string
	repo   string
	verif  string
	tier   string
	l      *Loader
	obs    []Obligation
	extra  map[string]interface{}
	assume []string
}

func (c *Ctx) add(o Obligation) { c.obs = append(c.obs, o) }

func (c *Ctx) bad(rule, what, where, format string, a ...interface{}) {
	c.add(Obligation{Rule: rule, What: what, Where: where, Detail: fmt.Sprintf(format, a...), Key: what})
}

func (c *Ctx) good(rule, what, where string) {
	c.add(Obligation{Rule: rule, What: what, Where: where, OK: true, Key: what})
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	check := flag.String("check", "", "property to decide")
	verbose := flag.Bool("v", false, "print every obligation")
	only := flag.String("only", "", "only reference functions containing this")
	child := flag.String("child", "", "decide one reference function and print the result as JSON")
	noev := flag.Bool("n", false, "do not write evidence")
	dump := flag.String("dump", "", "pkgdir:function to print the value graph of")
	flag.Parse()
	if p := os.Getenv("GTV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		time.AfterFunc(40*time.Second, func() {
			pprof.StopCPUProfile()
			f.Close()
			os.Exit(3)
		})
	}
	if *dump != "" {
		dumpFn(*repo, *dump)
		return
	}
	if *check == "" {
		fmt.Fprintln(os.Stderr, "usage: gtv -check Cxx")
		os.Exit(2)
	}
	start := time.Now()
	c := &Ctx{prop: *check, repo: *repo, verif: *verif, tier: os.Getenv("VERIF_TIER"), extra: map[string]interface{}{}}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	def, ok := props[*check]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %s\n", *check)
		os.Exit(2)
	}
	if *child != "" {
		if err := protect(func() { c.runOne(def, *child) }); err != nil {
			c.bad("analysis completes", *child, "", "%v", err)
		}
		json.NewEncoder(os.Stdout).Encode(c.obs)
		return
	}
	err := protect(func() { c.run(def, *only) })
	if err != nil {
		c.bad("analysis completes", "analysis", "", "%v", err)
	}
	// the rule must have bitten: fewer obligations than confirmed by hand is an error
	if *only == "" && len(c.obs) < def.min {
		c.bad("obligation count", "obligations", "", "only %d obligations were found, at least %d are expected", len(c.obs), def.min)
	}
	known := readKnown(filepath.Join(*verif, "known_findings.txt"), *check)
	nbad := 0
	var lines []string
	for _, o := range c.obs {
		if *verbose || !o.OK {
			st := "ok  "
			if !o.OK {
				st = "FAIL"
			}
			fmt.Printf("%s %s | %s | %s %s\n", st, o.Where, o.What, o.Rule, o.Detail)
		}
		if o.OK {
			continue
		}
		matched := false
		for _, k := range known {
			if k.key == o.Key || k.key == o.What {
				matched = true
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *check, k.text))
			}
		}
		if matched {
			continue
		}
		nbad++
		rep := o.Where
		if rep == "" {
			rep = o.What
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *check, strings.ReplaceAll(rep, " ", "_")))
	}
	if !*noev {
		writeEvidence(c, def, nbad, time.Since(start).Seconds())
	}
	sort.Strings(lines)
	prev := ""
	for _, ln := range lines {
		if ln != prev {
			fmt.Println(ln)
		}
		prev = ln
	}
	if nbad > 0 {
		os.Exit(1)
	}
	fmt.Printf("%s: %d obligations hold (%.1fs)\n", *check, len(c.obs), time.Since(start).Seconds())
}

type knownF struct{ key, text string }

// known findings: "finding: property=<id> key=<construct> <text>"
func readKnown(file, prop string) []knownF {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownF
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "finding: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(ln, "finding: property="+prop+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "key=") {
			out = append(out, knownF{strings.TrimPrefix(f[0], "key="), f[1]})
		}
	}
	return out
}

func writeEvidence(c *Ctx, def *propDef, nbad int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ok := 0
	fns, loops, terms := 0, 0, 0
	for _, o := range c.obs {
		if o.OK {
			ok++
		}
		fns += o.Fns
		loops += o.Loops
		terms += o.Terms
	}
	var samples []Obligation
	for i, o := range c.obs {
		if i < 200 || !o.OK {
			samples = append(samples, o)
		}
	}
	cov := map[string]interface{}{}
	switch def.level {
	case "translation_validation":
		cov["programs"] = len(c.obs)
		cov["disagreements_checked"] = ok
		cov["samples"] = samples
		cov["functions_analysed"] = fns
		cov["loops_summarised"] = loops
		cov["terms_built"] = terms
	default:
		cov["samples"] = samples
		cov["obligations"] = len(c.obs)
		cov["discharged"] = ok
		cov["functions_analysed"] = fns
	}
	cov["explanation"] = def.explain
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": def.level,
		"coverage": cov, "wall_s": wall, "violations": nbad,
		"assumptions": append(append([]string(nil), baseAssumptions(def)...), c.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644)
}

func baseAssumptions(def *propDef) []string {
	if def.level == "translation_validation" {
		return []string{
			"floating-point operations are exact real arithmetic; NaN does not occur",
			"signed integers do not overflow; implicit run-time panics (index out of range, nil) are outside the comparison",
			"distinct pointer parameters do not alias unless the reference says so",
		}
	}
	return nil
}

func (c *Ctx) load(dirs ...string) {
	c.l = NewLoader(c.repo, filepath.Join(c.verif, "spec"), c.prop)
	for _, d := range dirs {
		p := modPath
		if d != "." {
			p += "/" + d
		}
		if _, err := c.l.load(p, nil); err != nil {
			fail("%v", err)
		}
	}
	c.l.buildSSA()
}

func (c *Ctx) run(def *propDef, only string) {
	if def.all {
		c.loadAll()
	} else {
		c.load(def.pkgs...)
	}
	if def.fork && only == "" {
		c.fork(specFns(c.l))
		if def.extra != nil {
			def.extra(c)
		}
		return
	}
	for _, s := range specFns(c.l) {
		if only != "" && !strings.Contains(s.name, only) {
			continue
		}
		for _, t := range s.equiv {
			c.add(checkEquiv(c.l, s, t))
		}
	}
	if def.extra != nil {
		def.extra(c)
	}
}

func (c *Ctx) runOne(def *propDef, name string) {
	c.load(def.pkgs...)
	for _, s := range specFns(c.l) {
		if s.name == name {
			if s.race {
				c.raceChild(s)
			}
			for _, t := range s.equiv {
				c.add(checkEquiv(c.l, s, t))
			}
		}
	}
}

// fork decides the reference functions in separate processes, four at a time.
func (c *Ctx) fork(fns []*specFn) {
	exe, err := os.Executable()
	if err != nil {
		fail("%v", err)
	}
	var names []string
	seen := map[string]bool{}
	for _, s := range fns {
		if (len(s.equiv) > 0 || s.race) && !seen[s.name] {
			seen[s.name] = true
			names = append(names, s.name)
		}
	}
	res := make([][]Obligation, len(names))
	sem := make(chan bool, 4)
	done := make(chan bool)
	one := func(i int) error {
		cmd := exec.Command(exe, "-repo", c.repo, "-verif", c.verif, "-check", c.prop, "-child", names[i])
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err == nil {
			err = json.Unmarshal(out, &res[i])
		}
		return err
	}
	errs := make([]error, len(names))
	for i := range names {
		go func(i int) {
			sem <- true
			errs[i] = one(i)
			<-sem
			done <- true
		}(i)
	}
	for range names {
		<-done
	}
	for i, err := range errs {
		if err != nil { // killed for lack of memory: again, alone
			err = one(i)
		}
		if err != nil {
			res[i] = []Obligation{{Rule: "analysis completes", What: names[i], Key: names[i], Detail: err.Error()}}
		}
	}
	for _, r := range res {
		for _, o := range r {
			c.add(o)
		}
	}
}

type propDef struct {
	all     bool // the whole repository
	fork    bool // one process per reference function
	pkgs    []string
	level   string
	min     int
	explain string
	extra   func(c *Ctx)
}

func dumpFn(repo, arg string) {
	f := strings.SplitN(arg, ":", 2)
	l := NewLoader(repo, "", "")
	p, err := l.load(modPath+"/"+f[0], nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	l.buildSSA()
	fn := lookupFn(l, p, f[1])
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(1)
	}
	if err := protect(func() {
		e := newEv(l)
		var args []*T
		for i, pp := range fn.Params {
			args = append(args, symval(pp.Type(), "param", fmt.Sprintf("p%d", i)))
		}
		st := newState()
		r := e.call(fn, args, nil, st)
		for i, v := range r {
			fmt.Printf("result %d = %s\n", i, show(v))
		}
		var ks []cellKey
		for k := range st.cells {
			ks = append(ks, k)
		}
		sortKeys(ks)
		for _, k := range ks {
			ci := cellInfos[k]
			fmt.Printf("%s%s = %s\n", show(ci.obj), ci.path, show(st.cells[k]))
		}
		fmt.Println("panics:", show(e.panics))
	}); err != nil {
		fmt.Println("undecided:", err)
	}
	fmt.Println("terms:", len(table))
}
