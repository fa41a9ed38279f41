package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// An obligation is one instance of a rule on one construct. Several paths may
// contribute to it; it is discharged when every contribution holds.
type Obl struct {
	Key    string   `json:"key"`
	Rule   string   `json:"rule"`
	Where  string   `json:"where"`
	Paths  int      `json:"paths"`
	Failed []string `json:"failed,omitempty"`
	known  bool
}

type Check struct {
	e     *Engine
	prop  string
	tier  string
	obls  map[string]*Obl
	order []string
	notes []string

	moreHook     func(*Engine, *State, string, []*Term, ssa.CallInstruction) ([]callRes, bool) // asked before the decoders' contracts (decodeHook)
	reusedFrames bool                                                                          // frames share memory (framesReused)
	payloads     []*Term                                                                       // the frames given so far
	stageErr     *Term                                                                         // the error failing pipeline stages report (stageHook)
}

func (c *Check) obl(rule, inst string) *Obl {
	k := rule + "/" + inst
	o := c.obls[k]
	if o == nil {
		o = &Obl{Key: k, Rule: rule}
		c.obls[k] = o
		c.order = append(c.order, k)
	}
	return o
}

// pass records a discharged contribution.
func (c *Check) pass(rule, inst, where string) {
	o := c.obl(rule, inst)
	o.Paths++
	if o.Where == "" {
		o.Where = where
	}
}

func (c *Check) fail(rule, inst, where, f string, a ...any) {
	o := c.obl(rule, inst)
	o.Paths++
	if where != "" {
		o.Where = where
	}
	m := fmt.Sprintf(f, a...)
	if len(m) > 700 {
		m = m[:700] + "…"
	}
	for _, x := range o.Failed {
		if x == m {
			return
		}
	}
	o.Failed = append(o.Failed, m)
}

// must records ok or a failure.
func (c *Check) must(ok bool, rule, inst, where, f string, a ...any) bool {
	if ok {
		c.pass(rule, inst, where)
	} else {
		c.fail(rule, inst, where, f, a...)
	}
	return ok
}

// guard turns an undecided analysis or a missing anchor into a failed obligation.
func (c *Check) guard(rule, inst, where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.fail(rule, inst, where, "undecided: %s", u.msg)
				return
			}
			c.fail(rule, inst, where, "analysis error: %v\n%s", r, firstLines(string(debug.Stack()), 14))
		}
	}()
	e := c.e
	e.pathCount = 0
	e.execOnce, e.interfere, e.forceUnroll = false, false, 0
	e.seqAtomics, e.assertPanics, e.sortAny = false, false, false
	e.traceLoads, e.inOnce = false, 0
	e.initHook, e.callHook, e.onEvent = nil, nil, nil
	e.sameEntry = nil
	e.opaque = map[string]bool{}
	for k := range e.recDepth {
		delete(e.recDepth, k)
	}
	f()
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (c *Check) at(p token.Pos) string { return c.e.pos(p) }

func (c *Check) fnAt(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return c.e.pos(f.Pos()) + " " + shortFn(f.String())
}

func shortFn(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// run calls f and returns its outcomes.
func (c *Check) run(st *State, f *ssa.Function, args ...*Term) []Out {
	if f == nil {
		giveUp("anchor not found")
	}
	c.e.pathCount = 0
	outs := c.e.call(st, f, args, nil, nil)
	c.e.pathsTotal += len(outs)
	return outs
}

type property struct {
	id    string
	rule  string // one-line description of the deciding rule
	min   int    // hand-confirmed minimum number of obligations
	check func(*Check)
}

var properties []property

func register(id, rule string, min int, f func(*Check)) {
	properties = append(properties, property{id, rule, min, f})
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k knownFinding
		for _, f := range strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " ", 3) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.Property = strings.TrimPrefix(f, "property=")
			case strings.HasPrefix(f, "key="):
				k.Key = strings.TrimPrefix(f, "key=")
			default:
				k.What = f
			}
		}
		out = append(out, k)
	}
	return out
}

func runProperty(e *Engine, loadErr error, p property, tier, verif string, t0 time.Time) int {
	c := &Check{e: e, prop: p.id, tier: tier, obls: map[string]*Obl{}}
	if loadErr != nil {
		c.fail("load", "repository", "", "the repository does not load or type-check: %v", loadErr)
	} else {
		c.guard("analysis", "whole", "", func() { p.check(c) })
		if n := len(c.obls); n < p.min {
			c.fail("coverage", "instances", "", "only %d obligations found, at least %d are expected on this codebase", n, p.min)
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []*Obl
	nknown := 0
	for _, k := range c.order {
		o := c.obls[k]
		if len(o.Failed) == 0 {
			continue
		}
		for _, kf := range known {
			if kf.Property == p.id && kf.Key == strings.ReplaceAll(o.Key, " ", "_") {
				o.known = true
				nknown++
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.id, kf.What, o.Where)
			}
		}
		if !o.known {
			bad = append(bad, o)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	fns, files := map[string]bool{}, map[string]bool{}
	paths := 0
	if e != nil {
		for f := range e.fnSeen {
			fns[shortFn(f.String())] = true
			if f.Pos().IsValid() {
				fl := e.fset.Position(f.Pos()).Filename
				if r, err := filepath.Rel(e.dir, fl); err == nil {
					fl = r
				}
				files[fl] = true
			}
		}
		paths = e.pathsTotal
	}
	discharged := 0
	var list []*Obl
	for _, k := range c.order {
		o := c.obls[k]
		if len(o.Failed) == 0 {
			discharged++
		}
		list = append(list, o)
	}
	rules := map[string]int{}
	var shown []*Obl // every failed instance, and at most maxShown discharged ones per rule
	for _, o := range list {
		rules[o.Rule]++
		if len(o.Failed) > 0 || rules[o.Rule] <= maxShown {
			shown = append(shown, o)
		}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        p.rule,
			"obligations":        len(list),
			"discharged":         discharged,
			"known_findings":     nknown,
			"rules":              rules,
			"functions_analysed": len(fns),
			"functions":          sortedKeys(fns),
			"files":              sortedKeys(files),
			"paths_classified":   paths,
			"instances":          shown,
			"instances_omitted":  len(list) - len(shown),
			"notes":              c.notes,
		},
		"wall_s": time.Since(t0).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, p.id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings; %d functions, %d outcomes classified, %.1fs\n", p.id, len(list), discharged, nknown, len(fns), paths, time.Since(t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	rep := filepath.Join(evdir, p.id+".violations.txt")
	var sb strings.Builder
	for _, o := range bad {
		for _, m := range o.Failed {
			fmt.Fprintf(&sb, "%s: rule %s: %s\n", o.Where, o.Key, m)
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	out := sb.String()
	if len(out) > 6000 {
		out = out[:6000] + "…\n"
	}
	fmt.Print(out)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, rep)
	return 1
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const maxShown = 150
