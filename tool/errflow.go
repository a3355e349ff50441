package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G04", "over every path of every function of the library, with its callees as unknowns: where a call may have failed, the function returns an error that carries the call's, or (without an error result, or in the background) logs it or hands it on; errors are left out only where they are told apart as an expected one (end of file, file gone, temporary, a given type), or come from the documented best-effort operations", checkG04)
}

type errFlow struct {
	page   map[*ssa.Function]bool     // reachable from the methods of pages and lists
	sites  map[string]ssa.Instruction // of the calls remembered
	r      *Result
	called map[*ssa.Function]int  // static calls of a function used in no other way
	fore   map[*ssa.Function]bool // runs on behalf of a caller
}

func checkG04(r *Result) {
	m := &errFlow{r: r, sites: map[string]ssa.Instruction{}, fore: map[*ssa.Function]bool{}, page: map[*ssa.Function]bool{}}
	m.foreground()
	m.pages()
	for _, fn := range r.P.Funcs {
		if !inScope(fn) || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		m.unused(fn)
		if fn.Parent() != nil || fn.Name() == "init" {
			continue
		}
		if m.fails(fn) && !m.helper(fn) {
			m.run(fn)
		}
	}
	r.Need("unused", 30)
	r.Need("returned", 20)
}

// helper: an unexported function without an error result that is only ever
// called by others, with which it is judged.
func (m *errFlow) helper(fn *ssa.Function) bool {
	if fn.Object() == nil || fn.Object().Exported() || failing(fn.Signature) || fn.Parent() != nil || !inScope(fn) {
		return false
	}
	if fn.Signature.Results().Len() == 0 {
		return false
	}
	if m.called == nil {
		m.called = map[*ssa.Function]int{}
		for _, f := range m.r.P.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, _ := i.(ssa.CallInstruction)
					if c != nil {
						if g := c.Common().StaticCallee(); g != nil {
							if _, gone := i.(*ssa.Go); gone || f == g {
								m.called[g] = -1 << 20
							}
							m.called[g]++
						}
					}
					var ops []*ssa.Value
					for _, op := range i.Operands(ops) {
						if g, ok := (*op).(*ssa.Function); ok && (c == nil || op != &c.Common().Value) {
							m.called[g] = -1 << 20
						}
					}
				}
			}
		}
	}
	return m.called[fn] > 0
}

// foreground: what is reachable from the exported operations without starting
// a goroutine.
func (m *errFlow) foreground() {
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if m.fore[fn] || !inScope(fn) {
			return
		}
		m.fore[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					continue
				}
				if mc, ok := i.(*ssa.MakeClosure); ok && onlyGone(mc) {
					continue
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, T := range m.r.P.internalImpls(c.Common().Value.Type()) {
						if g := m.r.P.Method(T, c.Common().Method.Name()); g != nil {
							add(g)
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range i.Operands(ops) {
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
					case *ssa.MakeClosure:
						if !onlyGone(g) {
							add(g.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
	for _, fn := range m.r.P.Funcs {
		if fn.Parent() != nil || fn.Object() == nil {
			continue
		}
		if fn.Object().Exported() {
			add(fn)
		}
	}
}

// pages: what the methods of pages and lists use.
func (m *errFlow) pages() {
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if m.page[fn] || !inScope(fn) {
			return
		}
		m.page[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range i.Operands(ops) {
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
					case *ssa.MakeClosure:
						add(g.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, fn := range m.r.P.Funcs {
		if t := recvNamed(fn); t != nil && (t.Obj().Name() == "Page" || t.Obj().Name() == "List") && inScope(fn) {
			add(fn)
		}
	}
}

// onlyGone: the closure is only started as a goroutine.
func onlyGone(mc *ssa.MakeClosure) bool {
	n := 0
	for _, ref := range *mc.Referrers() {
		switch ref.(type) {
		case *ssa.Go:
			n++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return n > 0
}

func failing(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), errT)
}

// fails: the function, or a closure of it, calls something that may fail.
func (m *errFlow) fails(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && failing(c.Common().Signature()) {
				return true
			}
		}
	}
	for _, g := range fn.AnonFuncs {
		if m.fails(g) {
			return true
		}
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "a function value"
}

// aside: the operation is one of those whose errors need not be reported.
func (m *errFlow) aside(name string, fn *ssa.Function, c *ssa.CallCommon) bool {
	if closing(name) {
		return true
	}
	if strings.HasSuffix(name, ".Done") && strings.Contains(name, repoPath) {
		return true // an acknowledgement
	}
	for _, p := range []string{
		"strconv.", "time.Parse", "net/http.ParseTime", "mime.Parse",
		"(*bytes.Buffer).Write", "(*strings.Builder).Write", "(hash.Hash", "(*hash/", "fmt.Print", "(io.StringWriter).",
		"(github.com/spaolacci/murmur3",
	} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	switch name {
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		// draining
		return m.discards(c.Args[0])
	case "io.ReadAll":
		return false
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		return m.buffer(c.Args[0])
	case "(io.Writer).Write":
		return m.discards(c.Value) || m.buffer(c.Value)
	}
	// links and selectors
	if m.page[topOf(fn)] {
		switch {
		case strings.HasPrefix(name, "net/url.Parse"), name == "(*net/url.URL).Parse":
			return true
		case strings.HasSuffix(name, "selectors.Compile"), strings.HasSuffix(name, "selectors.Cache).Compile"):
			return true
		case strings.Contains(name, "cascadia"):
			return fnPkg(fn) == pAnt
		}
	}
	return false
}

func (m *errFlow) discards(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return m.discards(v.X)
	case *ssa.ChangeInterface:
		return m.discards(v.X)
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		return ok && (g.String() == "io.Discard" || g.String() == "io/ioutil.Discard")
	}
	return false
}

func (m *errFlow) buffer(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		switch types.TypeString(mi.X.Type(), nil) {
		case "*bytes.Buffer", "*strings.Builder":
			return true
		}
		return strings.Contains(types.TypeString(mi.X.Type(), nil), "hash")
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		return strings.HasPrefix(types.TypeString(ci.X.Type(), nil), "hash.")
	}
	return false
}

// unused: an error nobody looks at.
func (m *errFlow) unused(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok || !failing(c.Common().Signature()) {
				continue
			}
			name := calleeName(c.Common())
			if name == "fmt.Errorf" {
				m.formatted(fn, i, c.Common())
			}
			m.r.Sites[i] = true
			m.r.Ob("unused", topFn(fn)+": "+short(name))
			if m.aside(name, fn, c.Common()) || name == "os.Remove" || name == "os.RemoveAll" {
				continue // (removals are judged by path)
			}
			used := false
			if v, ok := i.(*ssa.Call); ok {
				n := v.Call.Signature().Results().Len()
				for _, ref := range *v.Referrers() {
					switch ref := ref.(type) {
					case *ssa.DebugRef:
					case *ssa.Extract:
						if ref.Index == n-1 {
							for _, q := range *ref.Referrers() {
								if _, ok := q.(*ssa.DebugRef); !ok {
									used = true
								}
							}
						}
					default:
						used = used || n == 1
						if _, ok := ref.(*ssa.Return); ok {
							used = true
						}
					}
				}
			}
			if d, ok := i.(*ssa.Defer); ok && strings.Contains(calleeName(d.Common()), "$") {
				continue // judged as a function of its own
			}
			if !used {
				m.r.Report("unused", topFn(fn)+": "+short(name), i.Pos(), nil, "the error of %s is dropped", short(name))
			}
		}
	}
}

// formatted: an error made with the text of another also wraps it.
func (m *errFlow) formatted(fn *ssa.Function, i ssa.Instruction, c *ssa.CallCommon) {
	f, ok := c.Args[0].(*ssa.Const)
	if !ok || f.Value == nil || f.Value.Kind() != constant.String || len(wrapVerbs(constant.StringVal(f.Value))) > 0 {
		return
	}
	sl, ok := c.Args[1].(*ssa.Slice)
	if !ok {
		return
	}
	var lost func(v ssa.Value, seen map[ssa.Value]bool) bool
	lost = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.ChangeInterface:
			return lost(v.X, seen)
		case *ssa.MakeInterface:
			return lost(v.X, seen)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if lost(e, seen) {
					return true
				}
			}
			return false
		case *ssa.Extract:
			return types.Identical(v.Type(), errT) && lost(v.Tuple, seen)
		case *ssa.Call:
			if v.Call.IsInvoke() && v.Call.Method.Name() == "Error" {
				return lost(v.Call.Value, seen)
			}
			if !failing(v.Call.Signature()) {
				return false
			}
			name := calleeName(&v.Call)
			return !blunt(name) && !strings.Contains(name, pSel+".")
		}
		return types.Identical(v.Type(), errT)
	}
	for _, ref := range *sl.X.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ia && lost(s.Val, map[ssa.Value]bool{}) {
				m.r.Report("returned", topFn(fn)+": fmt.Errorf", i.Pos(), nil, "the error made keeps the text of its cause, not the cause")
			}
		}
	}
}

// called is what a ghost remembers of a call that may have failed.
func (m *errFlow) run(fn *ssa.Function) {
	r := m.r
	h := &Hooks{}
	h.Opaque = func(g *ssa.Function) bool {
		if g == fn || g.Parent() != nil && topOf(g) == fn {
			return false
		}
		if !inRepo(g) {
			return true
		}
		if m.helper(g) {
			return false
		}
		// what handles an error is part of the function
		for _, p := range g.Params {
			if types.Identical(p.Type(), errT) {
				return false
			}
		}
		return true
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		if c.Go {
			return
		}
		m.passed(x, st, c, fn)
		if c.Sig == nil || !failing(c.Sig) {
			return
		}
		switch c.Name {
		case "fmt.Errorf", "errors.New", "errors.Join", "(context.Context).Err", "context.Cause":
			return
		}
		if strings.HasPrefix(c.Name, "errors.") || strings.Contains(c.Name, "multierror") {
			return
		}
		if ci, ok := c.Instr.(ssa.CallInstruction); ok && m.aside(c.Name, ci.Parent(), ci.Common()) {
			return
		}
		e := c.R(c.Sig.Results().Len() - 1)
		if e == nil || st.isNil(e) {
			return
		}
		at := short(c.Name) + "@" + r.P.Pos(c.Pos())
		m.sites[at] = c.Instr
		st.AddG("errs", in.mk(Term{K: KTuple, Args: []*Term{mkTok(at), e}}))
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		for cond.K == KUn && cond.Aux == "!" {
			cond, val = cond.Args[0], !val
		}
		if !val {
			return
		}
		for _, t := range st.G("errs") {
			if m.expected(cond, t) {
				st.AddG("handled", t.Args[1])
			}
		}
	}
	h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if root := addrRoot(addr); root.K == KAlloc {
			return
		}
		for _, t := range st.G("errs") {
			if carries(st, val, t.Args[1]) {
				st.AddG("handled", t.Args[1])
			} else if old := st.mem[addr]; old != nil && carries(st, old, t.Args[1]) {
				st.DelG("handled", t.Args[1]) // replaced
			}
		}
	}
	h.ChanOp = func(x *Exec, st *State, i ssa.Instruction, ch *Term, send bool) {
		if send && x.sent != nil {
			m.handOn(st, x.sent)
		}
	}
	h.Select = func(x *Exec, st *State, i *ssa.Select, chosen int, chans []*Term, fr *frame) {
		if x.sent != nil {
			m.handOn(st, x.sent)
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, f *Term) {
		m.handOn(parent, f)
		child.ClearG("errs")
		child.ClearG("handled")
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, panicked bool) {
		if panicked {
			return
		}
		var e *Term
		if res != nil && res != tVoid {
			if t := lastRes(res); t.Typ != nil && types.Identical(t.Typ, errT) || t == tNil || t.K == KWrap {
				e = t
			}
		}
		m.judge(st, fn, e, res, c.Pos(), true)
	}
	h.Panic = func(x *Exec, st *State, i *ssa.Panic) { st.ClearG("errs") }
	h.BackEdge = func(x *Exec, st *State, fr *frame, hd *ssa.BasicBlock, phis []*Term) {
		body := r.P.info(hd.Parent()).headers[hd]
		for _, t := range st.G("errs") {
			e := t.Args[1]
			if i := m.sites[t.Args[0].Aux]; i == nil || i.Parent() == hd.Parent() && !body[i.Block()] {
				continue // before the loop
			}
			st.DelG("errs", t)
			if st.isNil(e) || st.HasG("handled", e) {
				continue
			}
			kept := false
			for _, v := range x.curs {
				kept = kept || carries(st, v, e) || v != nil && reachAny(st, v, func(q *Term) bool { return q == e })
			}
			if kept {
				continue
			}
			name, _, _ := strings.Cut(t.Args[0].Aux, "@")
			r.Report("returned", topFn(fn)+": "+name, hd.Instrs[0].Pos(), st, "the loop goes on where %s may have failed, and forgets the error", t.Args[0].Aux)
		}
	}
	r.Run(h, fn, fnLabel(fn), nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		var e *Term
		if failing(fn.Signature) {
			e = lastRes(o.res)
		}
		m.judge(st, fn, e, o.res, fn.Pos(), false)
	})
}

func topOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// handOn marks the errors that v leads to.
func (m *errFlow) handOn(st *State, v *Term) {
	for _, t := range st.G("errs") {
		e := t.Args[1]
		if carries(st, v, e) || reachAny(st, v, func(q *Term) bool { return q == e }) {
			st.AddG("handled", e)
		}
	}
}

// passed: errors given to somebody who deals with them.
func (m *errFlow) passed(x *Exec, st *State, c *Call, fn *ssa.Function) {
	logs := strings.HasPrefix(c.Name, "log.") || strings.HasPrefix(c.Name, "(*log.") || strings.HasPrefix(c.Name, "log/slog.") || strings.HasPrefix(c.Name, "(*log/slog.")
	value := c.Target != nil
	if logs && m.fore[fn] {
		return
	}
	if !logs && !value {
		return
	}
	for _, a := range c.Args {
		m.handOn(st, a)
		if els, ok := x.sliceElems(st, a); ok {
			for _, e := range els {
				m.handOn(st, e)
			}
		}
	}
}

// expected: the condition tells the error apart as one to be expected.
func (m *errFlow) expected(cond, t *Term) bool {
	e := t.Args[1]
	is := func(q *Term) bool { return q == e }
	sentinel := func(s *Term) bool {
		n := s.String()
		for _, w := range []string{"io.EOF", "os.ErrNotExist", "fs.ErrNotExist", "ErrNoCookie"} {
			if strings.Contains(n, w) {
				return true
			}
		}
		return strings.Contains(n, "context.Canceled") && strings.Contains(t.Args[0].Aux, "Dequeue")
	}
	switch cond.K {
	case KPure:
		if cond.Aux == "errors.Is" && len(cond.Args) == 2 && anyTerm(cond.Args[0], is) {
			return sentinel(cond.Args[1])
		}
		if cond.Aux == "os.IsNotExist" && anyTerm(cond, is) {
			return true
		}
		return anyTerm(cond, is) && strings.HasSuffix(cond.Aux, "Temporary")
	case KBin:
		if cond.Aux == "==" {
			a, b := cond.Args[0], cond.Args[1]
			// or what the error says about itself
			said := func(q *Term) bool { return (q.K == KAs || q.K == KAssert) && anyTerm(q.Args[0], is) }
			return a == e && sentinel(b) || b == e && sentinel(a) || anyTerm(a, said) || anyTerm(b, said)
		}
		return anyTerm(cond, is)
	case KAs, KAssertOk, KCall, KExtract:
		return anyTerm(cond, is)
	}
	return false
}

// blunt: errors that say no more than that something does not compile.
func blunt(name string) bool {
	return strings.Contains(name, "cascadia") || strings.HasPrefix(name, "regexp.Compile")
}

// judge: at the end of a function, no failure was lost.
func (m *errFlow) judge(st *State, fn *ssa.Function, res, all *Term, pos token.Pos, thread bool) {
	r := m.r
	r.Ob("returned", fnLabel(fn))
	some := false
	for _, t := range st.G("errs") {
		some = some || res != nil && carries(st, res, t.Args[1])
	}
	for _, t := range st.G("errs") {
		e := t.Args[1]
		if st.isNil(e) || st.HasG("handled", e) {
			continue
		}
		if res != nil && (carries(st, res, e) || st.isNil(e)) {
			continue
		}
		if all != nil && reachAny(st, all, func(q *Term) bool { return q == e }) {
			continue
		}
		name, _, _ := strings.Cut(t.Args[0].Aux, "@")
		what := topFn(fn) + ": " + name
		switch {
		case res == nil && !thread && m.fore[fn] && fn.Object() != nil && fn.Object().Exported():
			// it has no way to tell
		case res == nil:
			r.Report("returned", what, pos, st, "%s may have failed, and nobody is told", t.Args[0].Aux)
		case !st.nonNil(res):
			r.Report("returned", what, pos, st, "%s may have failed where %s returns no error", t.Args[0].Aux, fnLabel(fn))
		case !some && !blunt(name):
			r.Report("returned", what, pos, st, "the error returned does not carry that of %s", t.Args[0].Aux)
		}
	}
}
