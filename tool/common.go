package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pAnt    = repoPath
	pRobots = repoPath + "/internal/robots"
	pNorm   = repoPath + "/internal/normalize"
	pScan   = repoPath + "/internal/scan"
	pSel    = repoPath + "/internal/selectors"
	pCache  = repoPath + "/antcache"
	pCDP    = repoPath + "/antcdp"

	evDequeue = "(" + pAnt + ".Queue).Dequeue"
	evDone    = "(" + pAnt + ".Queue).Done"
	evEnqueue = "(" + pAnt + ".Queue).Enqueue"
	evQClose  = "(" + pAnt + ".Queue).Close"
	evQWait   = "(" + pAnt + ".Queue).Wait"
	evDedupe  = "(" + pAnt + ".Deduper).Dedupe"
	evMatch   = "(" + pAnt + ".Matcher).Match"
	evLimit   = "(" + pAnt + ".Limiter).Limit"
	evScrape  = "(" + pAnt + ".Scraper).Scrape"
	evFetch   = "(*" + pAnt + ".Fetcher).Fetch"
	evClient  = "(" + pAnt + ".Client).Do"
	evAllowed = "(*" + pRobots + ".Cache).Allowed"
	evRWait   = "(*" + pRobots + ".Cache).Wait"
	evNorm    = pNorm + ".URL"
	evPClose  = "(*" + pAnt + ".Page).close"
	evAcquire = "(*golang.org/x/sync/semaphore.Weighted).Acquire"
	evTryAcq  = "(*golang.org/x/sync/semaphore.Weighted).TryAcquire"
	evRelease = "(*golang.org/x/sync/semaphore.Weighted).Release"
	evEgGo    = "(*golang.org/x/sync/errgroup.Group).Go"
	evEgWait  = "(*golang.org/x/sync/errgroup.Group).Wait"
)

// opaqueSet makes an Opaque hook from function names.
func opaqueSet(names ...string) func(fn *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool { return m[fnName(fn)] }
}

// reachAny reports whether a term satisfying f is reachable from t through
// terms and the contents of memory.
func reachAny(st *State, t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		if t.K == KAlloc || t.K == KOld || t.K == KMake {
			for k, v := range st.mem {
				if addrRoot(k) == t && walk(v) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

// carries reports whether error res is non-nil only with err reachable by
// unwrapping, or is err itself.
func carries(st *State, res, err *Term) bool {
	if res == err {
		return true
	}
	switch res.K {
	case KWrap:
		for _, a := range res.Args {
			if carries(st, a, err) {
				return true
			}
		}
	case KPure:
		if res.Aux == "errors.Join" {
			for _, a := range res.Args {
				if carries(st, a, err) {
					return true
				}
			}
		}
	case KExtract, KIface, KConv:
		if res.K != KExtract && carries(st, res.Args[0], err) {
			return true
		}
	}
	if st.holds(mkEq(res, err)) {
		return true
	}
	return false
}

// tupleAt is the i-th result of an outcome.
func tupleAt(res *Term, i int) *Term {
	if res.K == KTuple {
		if i < len(res.Args) {
			return res.Args[i]
		}
		return nil
	}
	if i == 0 {
		return res
	}
	return nil
}

// lastRes is the last result of an outcome (the error, usually).
func lastRes(res *Term) *Term {
	if res.K == KTuple {
		return res.Args[len(res.Args)-1]
	}
	return res
}

func fnLabel(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), repoPath+"/", ""), repoPath+".", "")
}

// topFn names the source function a closure belongs to.
func topFn(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fnLabel(fn)
}

// fieldWhere finds the first field of a struct type satisfying f.
func fieldWhere(t types.Type, f func(*types.Var) bool) *types.Var {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i)) {
			return s.Field(i)
		}
	}
	return nil
}

func fieldIndex(t types.Type, f *types.Var) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == f {
			return i
		}
	}
	return -1
}

// fieldVal reads a field by name from a struct value or pointer term.
func (x *Exec) fieldVal(st *State, v *Term, T types.Type, name string) *Term {
	i, f := x.P.Field(T, name)
	if f == nil {
		return nil
	}
	return x.fieldVar(st, v, i, f)
}

func (x *Exec) fieldVar(st *State, v *Term, i int, f *types.Var) *Term {
	if isPtr(v) {
		return x.load(st, mkFieldAddr(v, i, f), f.Type())
	}
	return x.fieldOf(st, v, i, f)
}

func isPtr(v *Term) bool {
	if v.Typ == nil {
		return false
	}
	_, ok := v.Typ.Underlying().(*types.Pointer)
	return ok
}

// dump prints every outcome of a function; for developing rules.
func dump(P *Prog, pkg, typ, name string) {
	fn := P.Func(pkg, name)
	if typ != "" {
		fn = P.Meth(pkg, typ, name)
	}
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	r := newResult(P, "dump", "quick")
	h := &Hooks{Opaque: opaqueSet(evFetch, evAllowed, evRWait, evNorm)}
	h.Call = func(x *Exec, st *State, c *Call) {
		w := ""
		if c.Deferred {
			w = "deferred "
		}
		var as []string
		for _, a := range c.Args {
			as = append(as, a.String())
		}
		st.note(c.Pos(), "-- "+w+c.Name+"("+strings.Join(as, ", ")+")")
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		fmt.Println("== thread end", res, p)
		for _, l := range r.trace(st) {
			fmt.Println("    ", l)
		}
	}
	r.Run(h, fn, name, nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		fmt.Println("== outcome", o.res, o.panic)
		for _, l := range r.trace(st) {
			fmt.Println("    ", l)
		}
		for k := range st.atoms {
			fmt.Println("    fact", k, st.atoms[k])
		}
	})
	fmt.Println("paths", r.Paths, "steps", r.Steps)
	for k, f := range r.Findings {
		fmt.Println(k, f.Msg)
	}
}

// facts renders a state's facts; for developing rules.
func (s *State) facts() string {
	var b strings.Builder
	for _, k := range sortedKeys(s.mem) {
		fmt.Fprintf(&b, "  mem %v = %v\n", k, s.mem[k])
	}
	for _, k := range sortedKeys(s.atoms) {
		fmt.Fprintf(&b, "  %v %v\n", k, s.atoms[k])
	}
	for e, c := range s.dbm {
		fmt.Fprintf(&b, "  %v - %v <= %d\n", e.a, e.b, c)
	}
	for k, v := range s.elem {
		fmt.Fprintf(&b, "  elem %v %s\n", k, v)
	}
	for k, v := range s.attr {
		fmt.Fprintf(&b, "  attr %v %s\n", k, v)
	}
	for k, v := range s.prefix {
		fmt.Fprintf(&b, "  prefix %v %v %s\n", k, v.bound, v.attrs)
	}
	for k, v := range s.ghost {
		fmt.Fprintf(&b, "  ghost %s %v\n", k, v)
	}
	return b.String()
}

// calls reports whether fn, or anything of the library it calls or
// encloses, calls the named function or interface method.
func (P *Prog) calls(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						if cc.Method.FullName() == name {
							return true
						}
					} else if g := cc.StaticCallee(); g != nil {
						if fnName(g) == name {
							return true
						}
						if inRepoPkg(fnPkg(g)) && walk(g) {
							return true
						}
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && inRepoPkg(fnPkg(g)) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}
