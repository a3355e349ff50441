package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule  string
	What  string // construct: function, call site or field
	Pos   string
	Msg   string
	Trace []string
}

func (f Finding) key() string { return f.Rule + " " + f.What }

// Result collects what a check did.
type Result struct {
	P           *Prog
	ID          string
	Tier        string
	Findings    map[string]*Finding
	Obligations map[string]int // rule -> obligations examined
	Instances   map[string]map[string]bool
	Expect      map[string]int
	Funcs       map[*ssa.Function]bool
	Sites       map[ssa.Instruction]bool
	Paths       int
	Steps       int
	Roots       []string
	Notes       []string
	curRoot     string
	start       time.Time
}

// late: time is up, or a violation was found and what is left takes long.
func (r *Result) late() bool {
	d := time.Since(r.start)
	switch {
	case len(r.Findings) > 0:
		return d > 40*time.Second
	case r.Tier == "thorough":
		return d > 3*time.Hour
	}
	return d > 8*time.Minute
}

func newResult(P *Prog, id, tier string) *Result {
	return &Result{start: time.Now(), P: P, ID: id, Tier: tier, Findings: map[string]*Finding{}, Obligations: map[string]int{},
		Instances: map[string]map[string]bool{}, Expect: map[string]int{},
		Funcs: map[*ssa.Function]bool{}, Sites: map[ssa.Instruction]bool{}}
}

// Ob counts an examined obligation of a rule at a construct.
func (r *Result) Ob(rule, instance string) {
	r.Obligations[rule]++
	if r.Instances[rule] == nil {
		r.Instances[rule] = map[string]bool{}
	}
	r.Instances[rule][instance] = true
}

// Need requires at least n distinct instances of rule to have been seen.
func (r *Result) Need(rule string, n int) {
	r.Expect[rule] = n
}

func (r *Result) Report(rule, what string, pos token.Pos, st *State, format string, args ...any) {
	f := &Finding{Rule: rule, What: what, Pos: r.P.Pos(pos), Msg: fmt.Sprintf(format, args...)}
	if st != nil {
		f.Trace = r.trace(st)
	}
	if o, ok := r.Findings[f.key()]; ok {
		if len(o.Trace) <= len(f.Trace) {
			return
		}
	}
	if st != nil && os.Getenv("ANTLINT_FACTS") != "" {
		f.Msg += "\n" + st.facts()
	}
	r.Findings[f.key()] = f
}

func (r *Result) trace(st *State) []string {
	var out []string
	for n := st.trace; n != nil && len(out) < 60; n = n.prev {
		w := n.what
		if len(w) > 160 {
			w = strings.ToValidUTF8(w[:160], "") + "…"
		}
		out = append(out, r.P.Pos(n.pos)+" "+w)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if r.curRoot != "" {
		out = append([]string{"entry " + r.curRoot}, out...)
	}
	return out
}

// NewExec makes an exploration whose statistics go to the result.
func (r *Result) NewExec(h *Hooks) *Exec {
	lim := 3_000_000
	if r.Tier == "thorough" {
		lim = 20_000_000
	}
	return &Exec{P: r.P, H: h, R: r, Limit: lim, Funcs: r.Funcs, Sites: r.Sites}
}

// Done folds an exploration's counters in and reports exhaustion.
func (r *Result) Done(x *Exec, root string) {
	r.Paths += x.Paths
	r.Steps += x.Steps
	r.Roots = append(r.Roots, root)
	if x.over && len(r.Findings) > 0 {
		r.Notes = append(r.Notes, fmt.Sprintf("the analysis of %s ended early: a violation had been found", root))
	} else if x.over {
		r.Report("undecided", root, token.NoPos, nil, "the analysis of %s did not reach a fixpoint within %d steps", root, x.Steps)
	}
}

// Run explores one root with symbolic parameters and calls end on every exit.
func (r *Result) Run(h *Hooks, fn *ssa.Function, name string, init func(x *Exec, st *State, args []*Term), end func(x *Exec, st *State, args []*Term, o Outcome)) {
	if fn == nil {
		r.Missing(name)
		return
	}
	r.curRoot = name
	x := r.NewExec(h)
	st := newState()
	args := x.Params(fn, st)
	if init != nil {
		init(x, st, args)
	}
	for _, o := range x.Root(fn, st, args...) {
		if end != nil {
			end(x, o.st, args, o)
		}
	}
	r.Done(x, name)
	r.curRoot = ""
}

// Missing reports an anchor that the source no longer has.
func (r *Result) Missing(name string) {
	r.Report("anchor", name, token.NoPos, nil, "%s, which the property is anchored to, is not in the source", name)
}

type checkFn struct {
	ID    string
	Run   func(r *Result)
	Tech  string
	Rules string
}

var registry = map[string]*checkFn{}

func register(id, rules string, run func(r *Result)) {
	registry[id] = &checkFn{ID: id, Run: run, Rules: rules}
}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN-FINDING: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "KNOWN-FINDING: property="+id+" ")
		k, txt, ok := strings.Cut(rest, " :: ")
		if ok {
			out[strings.TrimSpace(k)] = strings.TrimSpace(txt)
		}
	}
	return out
}

func (r *Result) Finish(verif string, start time.Time, seed int) int {
	for rule, n := range r.Expect {
		if got := len(r.Instances[rule]); got < n {
			r.Report("coverage", rule, token.NoPos, nil, "rule %s was decided at %d sites, expected at least %d: the construct it judges is missing from the source", rule, got, n)
		}
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), r.ID)
	var keys []string
	for k := range r.Findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	viol := 0
	var rep strings.Builder
	for _, k := range keys {
		f := r.Findings[k]
		if txt, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, txt, k)
			continue
		}
		viol++
		fmt.Fprintf(&rep, "property %s: rule %s violated\n  construct: %s\n  at: %s\n  %s\n", r.ID, f.Rule, f.What, f.Pos, f.Msg)
		if len(f.Trace) > 0 {
			rep.WriteString("  path:\n")
			for _, t := range f.Trace {
				rep.WriteString("    " + t + "\n")
			}
		}
		rep.WriteString("\n")
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, strings.TrimPrefix(f.String(), repoPath))
	}
	sort.Strings(fns)
	obl := 0
	rules := map[string]any{}
	for k, n := range r.Obligations {
		obl += n
		var is []string
		for i := range r.Instances[k] {
			is = append(is, i)
		}
		sort.Strings(is)
		if len(is) > 40 {
			is = is[:40]
		}
		rules[k] = map[string]any{"obligations": n, "instances": is}
	}
	ev := map[string]any{
		"property": r.ID,
		"tier":     r.Tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":        "Static analysis of /repo's current source (go/packages + go/ssa): path-sensitive dataflow over the listed functions from the listed entry points. Rule: " + registry[r.ID].Rules,
			"functions_analysed": fns,
			"functions":          len(fns),
			"entry_points":       r.Roots,
			"call_sites":         len(r.Sites),
			"paths":              r.Paths,
			"instructions":       r.Steps,
			"obligations":        obl,
			"rules":              rules,
			"notes":              r.Notes,
		},
		"assumptions": []string{
			"callees outside the module behave as their documentation says; the analysis does not follow them",
			"the type-checked program equals what the build compiles (same module files, no build tags)",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	os.WriteFile(filepath.Join(evdir, r.ID+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(evdir, r.ID+".violation.txt")
	os.Remove(replay)
	if viol > 0 {
		os.WriteFile(replay, []byte(rep.String()), 0o644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	fmt.Printf("ok property=%s functions=%d entry_points=%d call_sites=%d paths=%d obligations=%d wall=%.1fs\n",
		r.ID, len(fns), len(r.Roots), len(r.Sites), r.Paths, obl, time.Since(start).Seconds())
	return 0
}
