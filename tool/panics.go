package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G05", "totality: on every path of every exported operation, indices and slice bounds are entailed within range, an unchecked type assertion is entailed to succeed, what may be absent (a result whose error was not ruled out, a missing map entry, a failed assertion, a value known nil) is not dereferenced, divisors are not zero, and no explicit panic is reachable but the documented one for a malformed expression", checkG05)
}

// checkG05: no input makes the library panic.
func checkG05(r *Result) {
	P := r.P
	// methods of the library's own interfaces are operations, too
	iface := map[string]bool{}
	for _, p := range P.TPkgs {
		for _, n := range p.Scope().Names() {
			if t, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
				if i, ok := t.Type().Underlying().(*types.Interface); ok {
					for k := 0; k < i.NumMethods(); k++ {
						iface[i.Method(k).Name()] = true
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !inScope(fn) || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		if !token.IsExported(fn.Name()) && !(fn.Signature.Recv() != nil && iface[fn.Name()]) && !(fnPkg(fn) == pCache && len(fn.Blocks) > 2 && !failing(fn.Signature)) {
			continue
		}
		if strings.HasPrefix(fnPkg(fn), pCDP) {
			continue // see X01-X03
		}
		roots = append(roots, fn)
	}
	// (sort.Interface and the like, on unexported types, is called by the
	// standard library with indices it has checked)
	own := roots[:0]
	for _, fn := range roots {
		if recv := fn.Signature.Recv(); recv != nil && !iface[fn.Name()] {
			if n := namedOf(recv.Type()); n != nil && !n.Obj().Exported() && (fn.Name() == "Less" || fn.Name() == "Swap") {
				continue
			}
		}
		own = append(own, fn)
	}
	roots = own
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	isRoot := map[string]bool{}
	for _, fn := range roots {
		if len(fn.Blocks) > 2 || P.costly(fn) {
			isRoot[fnName(fn)] = true
		}
	}
	a := &absence{r: r, held: map[string]map[string]bool{}}
	a.containers()
	for _, fn := range roots {
		h := a.hooks(fnLabel(fn))
		fn, self := fn, fnName(fn)
		h.Opaque = func(f *ssa.Function) bool {
			// judged by itself
			return isRoot[fnName(f)] && fnName(f) != self || fnPkg(f) == pNorm && fnPkg(f) != fnPkg(fn)
		}
		var end func(x *Exec, st *State, args []*Term, o Outcome)
		for _, g := range gates(P) {
			if g.fn != fn {
				continue
			}
			// what the constructor returns is judged with it
			end = func(x *Exec, st *State, args []*Term, o Outcome) {
				u := mkParam("u", types.NewPointer(P.httpURL()))
				st.assume(mkEq(u, tNil), false)
				switch {
				case o.panic:
				case g.method == "Limit":
					x.invoke(st, o.res, g.method, mkParam("ctx", P.stdType("context", "Context")), u)
				default:
					x.invoke(st, o.res, g.method, u)
				}
			}
		}
		r.Run(h, fn, fnLabel(fn), nil, end)
	}
	r.Need("deref", 20)
	r.Need("index", 1)
	r.Need("slice", 1)
	r.Need("assert", 1)
}

type absence struct {
	r *Result
	// the types of the values put into containers, by package and type of container
	held map[string]map[string]bool
}

func containerKey(pkg string, recv types.Type) string { return pkg + " " + types.TypeString(recv, nil) }

// containers collects what is put into maps and caches of interfaces.
func (a *absence) containers() {
	for _, fn := range a.r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || inScope(g) || g.Signature.Recv() == nil || len(c.Common().Args) < 3 {
					continue
				}
				args := c.Common().Args
				last := args[len(args)-1]
				if !types.IsInterface(last.Type()) {
					continue
				}
				k := containerKey(fnPkg(fn), g.Signature.Recv().Type())
				if a.held[k] == nil {
					a.held[k] = map[string]bool{}
				}
				t := "?"
				if m, ok := last.(*ssa.MakeInterface); ok {
					t = types.TypeString(m.X.Type(), nil)
				}
				a.held[k][t] = true
			}
		}
	}
}

// onlyHolds: v was taken out of a container into which only values of type
// t are put.
func (a *absence) onlyHolds(v *Term, t types.Type, in *ssa.TypeAssert) bool {
	x, ok := in.X.(*ssa.Extract)
	var c *ssa.Call
	if ok {
		c, _ = x.Tuple.(*ssa.Call)
	} else {
		c, _ = in.X.(*ssa.Call)
	}
	if c == nil || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Signature.Recv() == nil {
		return false
	}
	held := a.held[containerKey(fnPkg(in.Parent()), c.Call.StaticCallee().Signature.Recv().Type())]
	return len(held) == 1 && held[types.TypeString(t, nil)]
}

func (a *absence) hooks(where string) *Hooks {
	r := a.r
	t := totality(r, where)
	h := &Hooks{Index: t.Index, SliceOp: t.SliceOp}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		what := topFn(i.Parent())
		r.Ob("map", what)
		if v != nil && (st.isNil(m) || (m.K == KPhi || m.K == KMemPhi) && !st.nonNil(m)) {
			r.Report("map", what, i.Pos(), st, "an entry is put into %v, which may be a nil map", m)
		}
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		// what panics on a bad input instead of reporting it
		if _, f, _ := strings.Cut(c.Name[strings.LastIndex(c.Name, "/")+1:], "."); strings.HasPrefix(f, "Must") && len(c.Args) > 0 {
			r.Ob("must", site(c))
			if a := c.Arg(0); a.K != KConst && !(c.Name == "regexp.MustCompile" && strings.HasSuffix(where, "Regexp")) {
				r.Report("must", site(c), c.Pos(), st, "%s panics if %v is malformed", short(c.Name), a)
			}
		}
		// an io.Reader fills what it was given, at most
		if strings.HasSuffix(c.Name, ".Read") && c.Sig != nil && c.Sig.Results().Len() == 2 && len(c.Args) > 0 {
			if n, b := c.R(0), c.Args[len(c.Args)-1]; intTyped(n) {
				st.addDiff(tZeroInt, n, 0)
				st.addDiff(n, mkLen(b), 0)
			}
		}
	}
	h.Assert = func(x *Exec, st *State, v *Term, i *ssa.TypeAssert) {
		if iface, ok := i.AssertedType.Underlying().(*types.Interface); ok && types.Implements(i.X.Type(), iface) {
			// every value but nil is one
		} else if !i.CommaOk && a.onlyHolds(v, i.AssertedType, i) && found(st, v) {
			r.Ob("assert", topFn(i.Parent()))
		} else {
			t.Assert(x, st, v, i)
		}
		if !i.CommaOk {
			st.atoms[in.mk(Term{K: KAssertOk, Args: []*Term{v}, Typ: i.AssertedType, Aux: "ok"})] = true
		}
	}
	h.Panic = func(x *Exec, st *State, i *ssa.Panic) {
		// the documented one
		for f, v := range st.atoms {
			if !v && f.K == KBin && f.Aux == "==" && f.Args[1] == tNil && callName(f.Args[0]) == "regexp.Compile" {
				return
			}
		}
		t.Panic(x, st, i)
	}
	h.Deref = func(x *Exec, st *State, base *Term, i ssa.Instruction, fr *frame) {
		what := topFn(fr.fn)
		r.Ob("deref", what)
		if why := absent(st, base); why != "" {
			r.Report("deref", what, i.Pos(), st, "%v is used although %s", base, why)
		}
	}
	return h
}

// absent: why the pointer may be nil, or "" when nothing says so.
func absent(st *State, p *Term) string {
	if st.nonNil(p) {
		return ""
	}
	switch p.K {
	case KExtract:
		c := p.Args[0]
		tup, ok := c.Typ.(*types.Tuple)
		if !ok {
			break
		}
		last := tup.Len() - 1
		if p.I == last || !types.Identical(tup.At(last).Type(), errT) {
			break
		}
		if er := mkExtract(c, last, errT); !st.isNil(er) {
			return "the error that came with it may not be nil"
		}
		if callName(p) == evFetch {
			return "there may be no page"
		}
		// what succeeds has a result, whatever a defensive test considers
		return ""
	case KCall, KPure:
		if mayBeNone[p.Aux] {
			return "there may be none"
		}
	case KAssert:
		if st.holds(in.mk(Term{K: KAssertOk, Args: []*Term{p.Args[0]}, Typ: p.Typ, Aux: "ok"})) {
			return ""
		}
		return "the assertion may have failed"
	}
	if st.isNil(p) {
		return "it is nil"
	}
	return ""
}

// mayBeNone: what returns nil when there is nothing to return.
var mayBeNone = map[string]bool{
	"(*github.com/temoto/robotstxt.RobotsData).FindGroup":   true,
	"(github.com/andybalholm/cascadia.Selector).MatchFirst": true,
	"github.com/andybalholm/cascadia.Query":                 true,
}

// found: the look-up that v came from has found something.
func found(st *State, v *Term) bool {
	if v.K != KExtract {
		return st.nonNil(v)
	}
	tup, ok := v.Args[0].Typ.(*types.Tuple)
	if !ok || tup.Len() != 2 || !isBoolT(tup.At(1).Type()) {
		return st.nonNil(v)
	}
	return st.nonNil(v) || st.holds(mkExtract(v.Args[0], 1, tup.At(1).Type()))
}
