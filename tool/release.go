package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F03", "typestate of every response obtained from a client, over every path of every exported operation that can send a request: at each exit, retry and further request a response that came without error has had its body closed, or is the returned response (whose current body still reads the original one), or its body is inside the returned page; every body that an operation gives up is drained first; the engine closes every page a fetch returned before its worker moves on", checkF03)
}

// drains lists calls that read their argument to the end.
var drains = map[string]bool{"io.Copy": true, "io.ReadAll": true, "io/ioutil.ReadAll": true, "io.CopyBuffer": true,
	"(*bytes.Buffer).ReadFrom": true}

type releases struct {
	r    *Result
	body *types.Var
	bi   int
	rt   types.Type
}

func newReleases(r *Result) *releases {
	m := &releases{r: r}
	m.rt = r.P.stdType("net/http", "Response")
	if m.rt == nil {
		r.Missing("net/http.Response")
		return nil
	}
	m.body = fieldWhere(m.rt, func(f *types.Var) bool { return f.Name() == "Body" })
	m.bi = fieldIndex(m.rt, m.body)
	return m
}

// bodyOf: t is the original body of the response resp.
func (m *releases) bodyOf(t, resp *Term) bool {
	return t != nil && t.K == KLoad && t.Args[0].K == KFieldAddr && t.Args[0].Fld == m.body && t.Args[0].Args[0] == resp
}

func (m *releases) reads(st *State, t, resp *Term) bool {
	return t != nil && holdsVal(st, t, func(t *Term) bool { return m.bodyOf(t, resp) })
}

// holdsVal: the value t is, or gives access to as one of its parts, a value
// satisfying f.
func holdsVal(st *State, t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		switch t.K {
		case KAlloc, KOld, KMake:
			for k, v := range st.mem {
				if addrRoot(k) == t && walk(v) {
					return true
				}
			}
		case KTuple, KIface, KConv, KClosure, KSlice, KAppend, KFieldAddr:
			for _, a := range t.Args {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

// open lists the (response, error, body) tuples not yet accounted for.
func (m *releases) open(st *State) []*Term {
	var out []*Term
	for _, t := range st.G("open") {
		resp, err := t.Args[0], t.Args[1]
		if st.nonNil(err) || st.isNil(resp) || len(t.Args) > 2 && st.isNil(t.Args[2]) {
			continue
		}
		out = append(out, t)
	}
	return out
}

func (m *releases) call(x *Exec, st *State, c *Call, drain bool) {
	switch {
	case obtains(c.Sig) && c.Name != "net/http.ReadResponse" && c.Res != nil && c.Res.K == KCall:
		what := site(c)
		m.r.Ob("obtained", what)
		for _, t := range m.open(st) {
			if o := t.Args[0].Args[0]; o.Site == c.Instr {
				m.r.Report("released", what, c.Pos(), st, "a response is still open when the next request is made by the same call")
			}
		}
		for _, t := range st.G("open") {
			if o := t.Args[0].Args[0]; o.Site == c.Instr {
				st.DelG("open", t)
			}
		}
		st.AddG("open", in.mk(Term{K: KTuple, Args: []*Term{c.R(0), c.R(1), x.fieldVar(st, c.R(0), m.bi, m.body)}}))
	case (c.Name == "(io.Closer).Close" || c.Name == "(io.ReadCloser).Close") && len(c.Args) > 0:
		for _, t := range st.G("open") {
			resp := t.Args[0]
			if m.bodyOf(strip(c.Arg(0)), resp) {
				m.r.Ob("closed", site(c))
				if drain && !st.HasG("drained", resp) {
					m.r.Report("drained", site(c), c.Pos(), st, "a body is closed without having been read to the end")
				}
				st.DelG("open", t)
			}
		}
	case drains[c.Name]:
		for _, t := range st.G("open") {
			for _, a := range c.Args {
				if m.bodyOf(strip(a), t.Args[0]) {
					st.AddG("drained", t.Args[0])
				}
			}
		}
	}
}

// settle checks an exit.
func (m *releases) settle(x *Exec, st *State, o Outcome, where string) {
	for _, t := range m.open(st) {
		resp := t.Args[0]
		m.r.Ob("exit", where)
		handed := false
		for i := 0; ; i++ {
			v := tupleAt(o.res, i)
			if v == nil {
				break
			}
			if holdsVal(st, v, func(t *Term) bool { return t == resp }) && m.reads(st, x.fieldVar(st, resp, m.bi, m.body), resp) {
				handed = true
			}
			if m.reads(st, v, resp) {
				handed = true
			}
		}
		if !handed {
			m.r.Report("released", where, token.NoPos, st, "a response obtained without error is neither closed nor handed to the caller")
		}
	}
}

// obtains: the call yields a response or an error.
func obtains(sig *types.Signature) bool {
	rs := sig.Results()
	if rs.Len() != 2 || !types.Identical(rs.At(1).Type(), errT) {
		return false
	}
	p, ok := rs.At(0).Type().(*types.Pointer)
	return ok && types.TypeString(p.Elem(), nil) == "net/http.Response"
}

// sender: the instruction obtains a response from outside the library.
func sender(i ssa.Instruction) bool {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := c.Common()
	if !obtains(cc.Signature()) {
		return false
	}
	if g := cc.StaticCallee(); g != nil {
		return !inRepoPkg(fnPkg(g)) && fnName(g) != "net/http.ReadResponse"
	}
	return true
}

// reaches: fn, or what it calls or encloses in the library, has an
// instruction satisfying f.
func (P *Prog) reaches(fn *ssa.Function, f func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if f(i) {
					return true
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && inRepoPkg(fnPkg(g)) && walk(g) {
						return true
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && inRepoPkg(fnPkg(g)) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// costly: fn, with what it calls in the library, has a loop or many
// branches.
func (P *Prog) costly(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	n := 0
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] {
			return false
		}
		seen[fn] = true
		n += len(fn.Blocks)
		if len(P.info(fn).headers) > 0 || n > 16 {
			return true
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && inRepoPkg(fnPkg(g)) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// aside: calls of costly functions that cannot matter to a rule about
// the instructions satisfying f are not followed.
func (P *Prog) aside(f func(ssa.Instruction) bool) func(fn *ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	return func(fn *ssa.Function) bool {
		v, ok := memo[fn]
		if !ok {
			v = P.costly(fn) && !P.reaches(fn, f)
			memo[fn] = v
		}
		return v
	}
}

// senders are the exported operations that may send a request themselves.
func (P *Prog) senders() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || !fn.Object().Exported() {
			continue
		}
		if rv := fn.Signature.Recv(); rv != nil {
			n := namedOf(rv.Type())
			if n == nil || !n.Obj().Exported() {
				continue
			}
		}
		if P.reaches(fn, sender) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func checkF03(r *Result) {
	m := newReleases(r)
	if m == nil {
		return
	}
	aside := r.P.aside(func(i ssa.Instruction) bool {
		if sender(i) {
			return true
		}
		switch i := i.(type) {
		case ssa.CallInstruction:
			cc := i.Common()
			if cc.IsInvoke() {
				return cc.Method.Name() == "Close"
			}
			g := cc.StaticCallee()
			return g != nil && drains[fnName(g)]
		case *ssa.FieldAddr:
			return fieldOfAddr(i) == m.body
		}
		return false
	})
	eng := r.P.Named(pAnt, "Engine")
	for _, fn := range r.P.senders() {
		if rv := fn.Signature.Recv(); rv != nil && namedOf(rv.Type()) == eng {
			continue
		}
		drain := fnPkg(fn) != pRobots
		where := fnLabel(fn)
		h := &Hooks{Opaque: aside}
		h.Call = func(x *Exec, st *State, c *Call) { m.call(x, st, c, drain) }
		h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
			open := m.open(st)
			st.ClearG("open")
			for _, t := range open {
				st.AddG("open", t)
			}
			st.ClearG("drained")
		}
		r.Run(h, fn, where, nil, func(x *Exec, st *State, args []*Term, o Outcome) {
			if !o.panic {
				m.settle(x, st, o, where)
			}
		})
	}
	// pages, in the engine
	e := newEngineModel(r)
	if e == nil {
		return
	}
	bi, bf := r.P.Field(r.P.Named(pAnt, "Page"), "body")
	if bf == nil {
		r.Missing("Page.body")
		return
	}
	_ = bi
	open := func(st *State) (out []*Term) {
		for _, p := range st.G("pages") {
			if !st.isNil(p) && !st.nonNil(errOf(p)) {
				out = append(out, p)
			}
		}
		return
	}
	leave := func(st *State, where string, pos token.Pos) {
		for range open(st) {
			r.Report("page-closed", where, pos, st, "a fetched page is not closed")
		}
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch {
		case c.Name == evFetch:
			r.Ob("page", site(c))
			leave(st, site(c), c.Pos())
			st.ClearG("pages")
			st.AddG("pages", c.R(0))
		case (c.Name == "(io.Closer).Close" || c.Name == "(io.ReadCloser).Close") && len(c.Args) > 0:
			for _, p := range st.G("pages") {
				a := strip(c.Arg(0))
				if a.K == KLoad && a.Args[0].K == KFieldAddr && a.Args[0].Fld == bf && a.Args[0].Args[0] == p {
					if !st.HasG("drained", p) {
						r.Report("drained", site(c), c.Pos(), st, "a page's body is closed without having been read to the end")
					}
					st.DelG("pages", p)
				}
			}
		case drains[c.Name]:
			for _, p := range st.G("pages") {
				for _, a := range c.Args {
					if a := strip(a); a.K == KLoad && a.Args[0].K == KFieldAddr && a.Args[0].Fld == bf && a.Args[0].Args[0] == p {
						st.AddG("drained", p)
					}
				}
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		child.ClearG("pages")
		for _, p := range open(parent) {
			for _, t := range append([]*Term{fn}, c.Args...) {
				if reachAny(parent, t, func(t *Term) bool { return t == p }) {
					parent.DelG("pages", p)
					child.AddG("pages", p)
				}
			}
		}
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if !p {
			r.Ob("page-end", "thread")
			leave(st, topFn(c.In), c.Pos())
		}
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
		if n := len(st.G("pages")); n > 0 && len(open(st)) == 0 {
			st.ClearG("pages")
		}
		st.ClearG("drained")
	}
	e.run(h, func(x *Exec, st *State, args []*Term, o Outcome) {
		if !o.panic {
			leave(st, "(*Engine)."+e.root, token.NoPos)
		}
	}, "Run")
	// every call that sends a request was looked at
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if !sender(i) {
					continue
				}
				r.Ob("sites", fnLabel(fn))
				if !r.Funcs[fn] {
					r.Report("sites", fnLabel(fn), i.Pos(), nil, "a request is sent by a function no exported operation of the library leads to")
				}
			}
		}
	}
	r.Need("obtained", 3)
	r.Need("closed", 3)
	r.Need("exit", 2)
	r.Need("page", 1)
	r.Need("sites", 3)
}
