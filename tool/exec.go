package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call describes one call event.
type Call struct {
	Name     string // types.Func.FullName of the callee, or "func:<origin>"
	Fn       *ssa.Function
	Invoke   bool
	Args     []*Term // receiver first
	Instr    ssa.CallInstruction
	In       *ssa.Function // function containing the call
	Ctx      *Ctx
	Deferred bool
	Go       bool
	Res      *Term
	Sig      *types.Signature
	Target   *Term // the function value of a dynamic call
}

func (c *Call) Pos() token.Pos {
	if c.Instr != nil {
		if c.Instr.Pos() != token.NoPos {
			return c.Instr.Pos()
		}
		return c.Instr.Common().Pos()
	}
	return token.NoPos
}

// R is the i-th result of the call.
func (c *Call) R(i int) *Term {
	n := c.Sig.Results().Len()
	if n == 1 {
		return c.Res
	}
	return mkExtract(c.Res, i, c.Sig.Results().At(i).Type())
}

// Err is the error result of the call, or nil.
func (c *Call) Err() *Term {
	n := c.Sig.Results().Len()
	if n == 0 {
		return nil
	}
	if types.TypeString(c.Sig.Results().At(n-1).Type(), nil) == "error" {
		return c.R(n - 1)
	}
	return nil
}

// Arg returns the argument (receiver is 0) or nil.
func (c *Call) Arg(i int) *Term {
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// Outcome is one way a call can end.
type Outcome struct {
	st    *State
	res   *Term
	panic bool
}

// Hooks is a property checker's view of the exploration.
type Hooks struct {
	Opaque    func(fn *ssa.Function) bool
	Call      func(x *Exec, st *State, c *Call)
	Override  func(x *Exec, st *State, c *Call) []Outcome
	Enter     func(x *Exec, st *State, fn *ssa.Function, args []*Term, site ssa.Instruction)
	Exit      func(x *Exec, st *State, fn *ssa.Function, args []*Term, res *Term, panicked bool)
	Store     func(x *Exec, st *State, addr, val *Term, in ssa.Instruction)
	Load      func(x *Exec, st *State, addr, val *Term, in ssa.Instruction)
	MapWrite  func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction)
	MapRead   func(x *Exec, st *State, m, k *Term, in ssa.Instruction)
	Spawn     func(x *Exec, parent, child *State, c *Call, fn *Term)
	ThreadEnd func(x *Exec, st *State, c *Call, res *Term, panicked bool)
	Select    func(x *Exec, st *State, in *ssa.Select, chosen int, chans []*Term, fr *frame)
	ChanOp    func(x *Exec, st *State, in ssa.Instruction, ch *Term, send bool)
	Deref     func(x *Exec, st *State, base *Term, in ssa.Instruction, fr *frame)
	Index     func(x *Exec, st *State, base, idx *Term, in ssa.Instruction, fr *frame)
	SliceOp   func(x *Exec, st *State, base, lo, hi *Term, in ssa.Instruction, fr *frame)
	Append    func(x *Exec, st *State, res, base *Term, elems []*Term, rest *Term, in ssa.Instruction)
	AttrOf    func(x *Exec, st *State, t *Term) string
	Assert    func(x *Exec, st *State, v *Term, in *ssa.TypeAssert)
	BackEdge  func(x *Exec, st *State, fr *frame, h *ssa.BasicBlock, phis []*Term)
	Panic     func(x *Exec, st *State, in *ssa.Panic)
	Instr     func(x *Exec, st *State, in ssa.Instruction, fr *frame)
	Assume    func(x *Exec, st *State, cond *Term, val bool, in ssa.Instruction)
}

// Exec runs one exploration.
type Exec struct {
	P     *Prog
	H     *Hooks
	R     *Result
	Steps int
	Limit int
	stack []*frame
	roots [][]*Term
	over  bool
	curs  []*Term // in BackEdge: the values of the loop's variables in the turn that ends
	sent  *Term   // in Select and ChanOp: the value sent

	// what was analysed
	Funcs  map[*ssa.Function]bool
	Sites  map[ssa.Instruction]bool
	Paths  int
	tracer bool

	spawned map[string]bool
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	// for invoke
	recv *Term
}

type frame struct {
	fn      *ssa.Function
	ctx     *Ctx
	info    *fnInfo
	visited map[string]*headStore
	laps    map[*ssa.BasicBlock]int
	outs    []Outcome
	seenOut map[string]bool
	args    []*Term
}

type headStore struct {
	num map[edge]int64
	n   int
}

type path struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []*deferred
	block  *ssa.BasicBlock
	pred   *ssa.BasicBlock
	ip     int
	snap   map[*ssa.BasicBlock]map[*Term]*Term
	counts map[*ssa.BasicBlock]map[string][]*Term
}

func (p *path) clone() *path {
	q := *p
	q.st = p.st.clone()
	q.env = cloneMap(p.env)
	q.defers = append([]*deferred(nil), p.defers...)
	q.snap = cloneMap(p.snap)
	q.counts = cloneMap(p.counts)
	return &q
}

// fnInfo caches per-function structure.
type fnInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	livein  map[*ssa.BasicBlock][]ssa.Value
	preds   map[*ssa.BasicBlock]int
}

func (P *Prog) info(fn *ssa.Function) *fnInfo {
	if i, ok := P.infos[fn]; ok {
		return i
	}
	i := &fnInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, livein: map[*ssa.BasicBlock][]ssa.Value{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := i.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.headers[s] = body
				}
				var walk func(*ssa.BasicBlock)
				walk = func(n *ssa.BasicBlock) {
					if body[n] {
						return
					}
					body[n] = true
					for _, p := range n.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	// liveness
	lin := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		lin[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for j := len(fn.Blocks) - 1; j >= 0; j-- {
			b := fn.Blocks[j]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range lin[s] {
					out[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, ph)
					_ = pi
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && track(ph.Edges[k]) {
							out[ph.Edges[k]] = true
						}
					}
				}
			}
			for v := range def[b] {
				delete(out, v)
			}
			for v := range use[b] {
				out[v] = true
			}
			for v := range out {
				if !lin[b][v] {
					lin[b][v] = true
					ch = true
				}
			}
		}
	}
	// a loop's phis stay known throughout its body, for widening
	for h, body := range i.headers {
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for b := range body {
				if b != h {
					lin[b][ph] = true
				}
			}
		}
	}
	for b, m := range lin {
		var vs []ssa.Value
		for v := range m {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(a, c int) bool { return vs[a].Name() < vs[c].Name() })
		i.livein[b] = vs
	}
	P.infos[fn] = i
	return i
}

// ---- entry points ------------------------------------------------------------

// Root explores fn from the given arguments.
func (x *Exec) Root(fn *ssa.Function, st *State, args ...*Term) []Outcome {
	if fn == nil {
		return nil
	}
	if st == nil {
		st = newState()
	}
	ctx := in.ctx(nil, nil, fn, "root")
	return x.execFn(fn, args, nil, st, ctx, nil)
}

// Params makes symbolic parameters for fn.
func (x *Exec) Params(fn *ssa.Function, st *State) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		t := in.mk(Term{K: KParam, Aux: p.Name(), I: i, Fn: fn, Typ: p.Type()})
		args = append(args, t)
		// a receiver is assumed non-nil
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(mkEq(t, tNil), false)
			}
		}
	}
	return args
}

func mkParam(name string, t types.Type) *Term {
	return in.mk(Term{K: KParam, Aux: name, Typ: t})
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) execFn(fn *ssa.Function, args, free []*Term, st *State, ctx *Ctx, site ssa.Instruction) []Outcome {
	x.Funcs[fn] = true
	fr := &frame{fn: fn, ctx: ctx, info: x.P.info(fn), visited: map[string]*headStore{}, laps: map[*ssa.BasicBlock]int{}, seenOut: map[string]bool{}, args: args}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = in.mk(Term{K: KGen, Aux: "param", I: i, Ctx: ctx, Typ: p.Type()})
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			env[f] = free[i]
		} else {
			env[f] = in.mk(Term{K: KGen, Aux: "free", I: i, Ctx: ctx, Typ: f.Type()})
		}
	}
	if x.H.Enter != nil {
		x.H.Enter(x, st, fn, args, site)
	}
	x.stack = append(x.stack, fr)
	x.roots = append(x.roots, args)
	p := &path{st: st, env: env, block: fn.Blocks[0], snap: map[*ssa.BasicBlock]map[*Term]*Term{}, counts: map[*ssa.BasicBlock]map[string][]*Term{}}
	work := []*path{p}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, x.run(fr, p)...)
		if x.over {
			break
		}
	}
	x.stack = x.stack[:len(x.stack)-1]
	x.roots = x.roots[:len(x.roots)-1]
	return fr.outs
}

func (x *Exec) finish(fr *frame, p *path, res *Term, panicked bool) {
	if x.H.Exit != nil {
		x.H.Exit(x, p.st, fr.fn, fr.args, res, panicked)
	}
	// Facts on this frame's locals are no longer needed.
	roots := x.allRoots()
	roots = append(roots, res)
	p.st.gc(roots)
	k := fmt.Sprintf("%d/%v/%s", res.ID, panicked, p.st.key(true))
	if fr.seenOut[k] {
		return
	}
	fr.seenOut[k] = true
	x.Paths++
	fr.outs = append(fr.outs, Outcome{st: p.st, res: res, panic: panicked})
}

func (x *Exec) allRoots() []*Term {
	var r []*Term
	for _, ts := range x.roots {
		r = append(r, ts...)
	}
	return r
}

func envTerms(p *path) []*Term {
	r := make([]*Term, 0, len(p.env)+4)
	for _, t := range p.env {
		r = append(r, t)
	}
	for _, d := range p.defers {
		r = append(r, d.fn)
		r = append(r, d.args...)
		if d.recv != nil {
			r = append(r, d.recv)
		}
	}
	return r
}

// enter handles arrival at a block; false drops the path.
func (x *Exec) enter(fr *frame, p *path) bool {
	b := p.block
	body, isHeader := fr.info.headers[b]
	back := isHeader && p.pred != nil && body[p.pred]

	// phis
	var phis []*ssa.Phi
	var vals []*Term
	var curs []*Term
	if p.pred != nil {
		pi := -1
		for i, q := range b.Preds {
			if q == p.pred {
				pi = i
			}
		}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, x.eval(fr, p, ph.Edges[pi]))
			curs = append(curs, p.env[ph])
		}
	}
	if back && x.H.BackEdge != nil {
		x.curs = curs
		x.H.BackEdge(x, p.st, fr, b, vals)
	}
	// keep only live values
	env := make(map[ssa.Value]*Term, len(fr.info.livein[b])+len(phis))
	for _, v := range fr.info.livein[b] {
		if t, ok := p.env[v]; ok {
			env[v] = t
		}
	}
	if len(phis) > 0 || len(b.Preds) > 1 || isHeader {
		for i, ph := range phis {
			env[ph] = vals[i]
		}
		p.env = env
	} else {
		p.env = env
		return true
	}

	gcAll := func() {
		roots := x.allRoots()
		roots = append(roots, envTerms(p)...)
		p.st.gc(roots)
	}
	gcAll()

	counted := back && x.counted(fr, p, b, phis, vals, curs)
	if back && !counted {
		x.widen(fr, p, b, body, phis, vals, curs)
		gcAll()
	}

	if isHeader {
		p.snap = cloneMap(p.snap)
		p.snap[b] = cloneMap(p.st.mem)
		p.counts = cloneMap(p.counts)
		p.counts[b] = p.st.counters()
		if back && !counted {
			// a loop that does not settle loses facts, coarsest last
			fr.laps[b]++
			x.coarsen(fr, p, b, body, fr.laps[b])
		}
		k := x.pathKey(fr, p, false)
		hs := fr.visited[k]
		if os.Getenv("ANTLINT_KEYS") != "" {
			fmt.Fprintln(os.Stderr, "KEY", fr.fn.Name(), fr.laps[b], hs != nil, k)
		}
		if hs == nil {
			p.st.closeDBM()
			fr.visited[k] = &headStore{num: cloneMap(p.st.dbm)}
			return true
		}
		// subsumed?
		sub := true
		for e, c := range hs.num {
			if !p.st.entailsDiff(e.a, e.b, c) {
				sub = false
				break
			}
		}
		if sub {
			return false
		}
		if !back && hs.n == 0 {
			// a further entry: join by the same widening
		}
		nw := map[edge]int64{}
		for e, c := range hs.num {
			// bounds that do not hold move to the next threshold
			for _, k := range [...]int64{c, -1, 0} {
				if k >= c && p.st.entailsDiff(e.a, e.b, k) {
					nw[e] = k
					break
				}
			}
		}
		hs.num = nw
		hs.n++
		p.st.dbm = cloneMap(nw)
		return true
	}
	k := x.pathKey(fr, p, true)
	if fr.visited[k] != nil {
		return false
	}
	fr.visited[k] = &headStore{}
	return true
}

// counted: the loop at b counts through a constant number of turns, and the
// turn now begun is one of the first few: it is run as it is.
func (x *Exec) counted(fr *frame, p *path, b *ssa.BasicBlock, phis []*ssa.Phi, vals, curs []*Term) bool {
	c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := c.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	v, lim := cmp.X, x.eval(fr, p, cmp.Y)
	if lim == nil {
		return false
	}
	n, ok := lim.isInt()
	if !ok || n > 6 {
		return false
	}
	if add, ok := v.(*ssa.BinOp); ok && add.Op == token.ADD {
		v = add.X
	}
	for i, ph := range phis {
		if ph != v || curs[i] == nil {
			continue
		}
		a, ok1 := curs[i].isInt()
		b, ok2 := vals[i].isInt()
		return ok1 && ok2 && b > a && b <= n
	}
	return false
}

func (x *Exec) pathKey(fr *frame, p *path, num bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "b%d|", p.block.Index)
	vs := make([]ssa.Value, 0, len(p.env))
	for v := range p.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		fmt.Fprintf(&b, "%s=%d;", v.Name(), p.env[v].ID)
	}
	for _, d := range p.defers {
		fmt.Fprintf(&b, "D%d", in.site(d.instr))
		for _, a := range d.args {
			fmt.Fprintf(&b, ",%d", a.ID)
		}
		fmt.Fprintf(&b, ",%d", d.fn.ID)
	}
	b.WriteString(p.st.key(num))
	return b.String()
}

func needWiden(cur, v, phi *Term) bool {
	if cur == v || cur == nil {
		return false
	}
	if intTyped(v) {
		return true
	}
	if v.K == KConst || v == tNil || v.K == KZero {
		return false
	}
	if v.depth > 30 {
		return true
	}
	if contains(v, phi) && v != phi {
		return true
	}
	if cur.K == KConst || cur == tNil || cur.K == KZero {
		return false
	}
	return contains(v, cur)
}

// shorter relates the length of a list that a loop shortens: the new list
// T is v, made from P by the turn before. What it returns is the length of P
// by that of T.
func (x *Exec) shorter(st *State, p *path, b *ssa.BasicBlock, P, cur, v, T *Term) *Term {
	if v.Typ == nil || v.K == KAppend {
		return nil
	}
	if _, ok := v.Typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	n, now := mkLen(v), mkLen(T)
	if now == n || n == mkLen(P) {
		return nil
	}
	base, k := lin(n)
	if base == mkLen(P) {
		return addConst(now, -k)
	}
	if base != tZeroInt {
		st.addDiff(now, n, 0)
		st.addDiff(n, now, 0)
		if cb, k0 := lin(mkLen(cur)); cb == base {
			st.follow(p.counts[b], now, base, k, k0)
		}
	}
	return nil
}

// counters are the current values of the counting ghosts.
func (st *State) counters() map[string][]*Term {
	m := map[string][]*Term{}
	for g, ts := range st.ghost {
		if strings.HasPrefix(g, "+") {
			m[g] = ts
		}
	}
	return m
}

// follow expresses the counts that changed in the first turn of a loop by
// the distance T = base+k has moved from base.
// T was base+k0 a turn ago, when the counts were those of was.
func (st *State) follow(was map[string][]*Term, T, base *Term, k, k0 int64) {
	if k == k0 {
		return
	}
	for g, ts := range st.ghost {
		if !strings.HasPrefix(g, "+") || len(ts) != 1 {
			continue
		}
		old := int64(0)
		if w := was[g]; len(w) == 1 {
			v, ok := w[0].isInt()
			if !ok {
				continue
			}
			old = v
		}
		n, ok := ts[0].isInt()
		if !ok || n == old {
			continue
		}
		switch n - old {
		case k - k0:
			st.ghost[g] = []*Term{addConst(mkBin(token.SUB, T, base, types.Typ[types.Int]), n-k)}
		case k0 - k:
			st.ghost[g] = []*Term{addConst(mkBin(token.SUB, base, T, types.Typ[types.Int]), n+k)}
		}
	}
}

// inLoop reports whether a generated leaf was made inside the loop.
func inLoop(t *Term, fr *frame, body map[*ssa.BasicBlock]bool) bool {
	c := t.Ctx
	site := t.Site
	for c != nil && c != fr.ctx {
		site = c.site
		c = c.parent
	}
	if c == nil || site == nil || site.Block() == nil {
		return false
	}
	return site.Parent() == fr.fn && body[site.Block()]
}

func (x *Exec) widen(fr *frame, p *path, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals, curs []*Term) {
	st := p.st
	sub := map[*Term]*Term{}
	final := map[*Term]*Term{}
	// phis
	for i, ph := range phis {
		P := in.mk(Term{K: KPhi, Site: ph, Ctx: fr.ctx, Typ: ph.Type()})
		v := vals[i]
		if !needWiden(curs[i], v, P) {
			continue
		}
		T := in.mk(Term{K: KPhi, Site: ph, Ctx: fr.ctx, Typ: ph.Type(), Aux: "'"})
		final[T] = P
		if intTyped(v) {
			base, k := lin(v)
			if base == tZeroInt {
				st.addDiff(T, tZeroInt, k)
				st.addDiff(tZeroInt, T, -k)
				// ghost counters that equal v + d
				for g, ts := range st.ghost {
					if !strings.HasPrefix(g, "+") {
						continue
					}
					for j, t := range ts {
						if n, ok := t.isInt(); ok {
							ts = append([]*Term(nil), ts...)
							ts[j] = addConst(T, n-k)
							st.ghost[g] = ts
						}
					}
				}
				for s, pi := range st.prefix {
					if n, ok := pi.bound.isInt(); ok {
						st.prefix[s] = prefixInfo{addConst(T, n-k), pi.attrs}
					}
				}
				p.env[ph] = T
				continue
			}
			if base == P {
				// P := P' - k
				sub[P] = addConst(T, -k)
				p.env[ph] = T
				continue
			}
			// unrelated value: equate
			st.addDiff(T, v, 0)
			st.addDiff(v, T, 0)
			if cb, k0 := lin(curs[i]); cb == base {
				st.follow(p.counts[b], T, base, k, k0)
			}
			for s, pi := range st.prefix {
				bb, bk := lin(pi.bound)
				if bb == base {
					st.prefix[s] = prefixInfo{addConst(T, bk-k), pi.attrs}
				}
			}
			p.env[ph] = T
			continue
		}
		// facts of v become facts of the phi
		sub[v] = T
		x.transferElem(st, v, T)
		if n := x.shorter(st, p, b, P, curs[i], v, T); n != nil {
			sub[mkLen(P)] = n
		}
		p.env[ph] = T
	}
	// values built with a counter that moves on become phis of their own
	moved := func(t *Term) bool {
		for P := range sub {
			if P.K == KPhi && final[in.mk(Term{K: KPhi, Site: P.Site, Ctx: P.Ctx, Typ: P.Typ, Aux: "'"})] == P && intTyped(P) && contains(t, P) {
				return true
			}
		}
		return false
	}
	for i, ph := range phis {
		v := vals[i]
		P := in.mk(Term{K: KPhi, Site: ph, Ctx: fr.ctx, Typ: ph.Type()})
		T := in.mk(Term{K: KPhi, Site: ph, Ctx: fr.ctx, Typ: ph.Type(), Aux: "'"})
		if final[T] == P || intTyped(v) || v.K == KConst || curs[i] == nil || !moved(v) {
			continue
		}
		final[T] = P
		sub[v] = T
		x.transferElem(st, v, T)
		p.env[ph] = T
	}
	// terms that mention an overwritten phi go away unless re-expressed
	drop := map[*Term]bool{}
	for i, ph := range phis {
		P := in.mk(Term{K: KPhi, Site: ph, Ctx: fr.ctx, Typ: ph.Type()})
		if curs[i] == P && p.env[ph] != P {
			if _, ok := sub[P]; !ok {
				drop[P] = true
			}
		}
	}
	if len(sub) > 0 {
		st.rename(sub)
		x.renamePath(p, sub)
	}
	// what was stored under a counter's value some turns ago is out of reach
	past := func(t *Term) bool {
		return anyTerm(t, func(t *Term) bool {
			if t.K != KBin || t.Aux != "+" {
				return false
			}
			base, k := lin(t)
			return final[base] != nil && (k < -3 || k > 3)
		})
	}
	for _, a := range sortedKeys(st.mem) {
		if past(a) {
			delete(st.mem, a)
		}
	}
	for g, ts := range st.ghost {
		if strings.HasPrefix(g, "+") || strings.HasPrefix(g, "#") {
			continue
		}
		for _, t := range ts {
			if past(t) {
				st.DelG(g, t)
			}
		}
	}
	// memory
	if snap, ok := p.snap[b]; ok {
		for _, a := range sortedKeys(st.mem) {
			old, ok := snap[a]
			if !ok || old == st.mem[a] {
				continue
			}
			M := in.mk(Term{K: KMemPhi, Site: firstInstr(b), Ctx: fr.ctx, Args: []*Term{a}, Typ: st.mem[a].Typ})
			if needWiden(old, st.mem[a], M) {
				v := st.mem[a]
				T := in.mk(Term{K: KMemPhi, Site: firstInstr(b), Ctx: fr.ctx, Args: []*Term{a}, Typ: st.mem[a].Typ, Aux: "'"})
				if intTyped(v) {
					base, k := lin(v)
					switch {
					case base == tZeroInt:
						st.addDiff(T, tZeroInt, k)
						st.addDiff(tZeroInt, T, -k)
					case base == M:
						m := map[*Term]*Term{M: addConst(T, -k)}
						st.rename(m)
						x.renamePath(p, m)
					default:
						st.addDiff(T, v, 0)
						st.addDiff(v, T, 0)
					}
				} else {
					x.transferElem(st, v, T)
					if n := x.shorter(st, p, b, M, old, v, T); n != nil {
						m := map[*Term]*Term{mkLen(M): n}
						st.rename(m)
						x.renamePath(p, m)
					}
					if v.K == KAppend {
						m := map[*Term]*Term{v: T}
						st.rename(m)
						x.renamePath(p, m)
					}
				}
				st.mem[a] = T
				m := map[*Term]*Term{T: M}
				x.dropMention(st, p, M, T)
				st.rename(m)
				x.renamePath(p, m)
			}
		}
	}
	for P := range drop {
		x.dropMention(st, p, P, nil)
	}
	for T, P := range final {
		x.dropMention(st, p, P, T)
	}
	st.rename(final)
	x.renamePath(p, final)
	// drop element entries at shifted indices (P-1, P-2, ...)
	for _, P := range final {
		for s, pi := range st.prefix {
			if bb, k := lin(pi.bound); bb == P && (k < -1 || k > 2) {
				delete(st.prefix, s)
			}
		}
		for a := range st.mem {
			if a.K == KIndexAddr {
				base, k := lin(a.Args[1])
				if base == P && k != 0 {
					delete(st.mem, a)
				}
			}
		}
		for a := range st.atoms {
			if anyTerm(a, func(t *Term) bool {
				bb, k := lin(t)
				return bb == P && k != 0 && t.K == KBin
			}) {
				delete(st.atoms, a)
			}
		}
		shifted := func(t *Term) bool {
			bb, k := lin(t)
			return bb == P && k != 0 && t.K == KBin
		}
		for a := range st.attr {
			if anyTerm(a, shifted) {
				delete(st.attr, a)
			}
		}
		closed := false
		for e := range st.dbm {
			if anyTerm(e.a, shifted) || anyTerm(e.b, shifted) {
				if !closed {
					st.closeDBM()
					closed = true
				}
				delete(st.dbm, e)
			}
		}
		if closed {
			for e := range st.dbm {
				if anyTerm(e.a, shifted) || anyTerm(e.b, shifted) {
					delete(st.dbm, e)
				}
			}
		}
	}
	// age values generated in the loop body
	roots := x.allRoots()
	roots = append(roots, envTerms(p)...)
	st.gc(roots)
	gens := map[*Term]bool{}
	var collect func(t *Term)
	seen := map[*Term]bool{}
	collect = func(t *Term) {
		if !t.gen || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			collect(a)
		}
		switch t.K {
		case KAlloc, KMake, KCall, KGen, KEpoch, KPhi, KMemPhi:
			for _, P := range final {
				if P == t {
					return
				}
			}
			if t.K == KPhi && t.Site.Block() == b && t.Ctx == fr.ctx {
				return
			}
			if t.K == KMemPhi && t.Site.Block() == b && t.Ctx == fr.ctx {
				return
			}
			if inLoop(t, fr, body) {
				gens[t] = true
			}
		case KOld:
			gens[t] = false
		}
	}
	forAllTerms(st, collect)
	for _, r := range roots {
		collect(r)
	}
	age := map[*Term]*Term{}
	for t, young := range gens {
		if !young {
			continue
		}
		o := in.mk(Term{K: KOld, Aux: kindNames[t.K] + ":" + t.Aux, I: t.I, Site: t.Site, Ctx: t.Ctx, Typ: t.Typ, Prev: t})
		age[t] = o
		if _, conflict := gens[o]; conflict {
			x.joinFacts(st, t, o, roots)
		}
	}
	if len(age) > 0 {
		st.rename(age)
		x.renamePath(p, age)
	}
}

func firstInstr(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[0] }

func (x *Exec) renamePath(p *path, m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	for v, t := range p.env {
		p.env[v] = subst(t, m, memo)
	}
	for i, d := range p.defers {
		nd := *d
		nd.fn = subst(d.fn, m, memo)
		if d.recv != nil {
			nd.recv = subst(d.recv, m, memo)
		}
		nd.args = make([]*Term, len(d.args))
		for j, a := range d.args {
			nd.args[j] = subst(a, m, memo)
		}
		p.defers[i] = &nd
	}
}

func (x *Exec) transferElem(st *State, v, T *Term) {
	if e := x.elemOf(st, v); e != "" {
		st.elem[T] = e
	}
	if a, ok := st.attr[v]; ok {
		st.attr[T] = a
	}
	if st.nonNil(v) {
		st.atoms[mkEq(T, tNil)] = false
	} else if st.isNil(v) {
		st.atoms[mkEq(T, tNil)] = true
	}
}

// dropMention removes facts that mention P (but not the replacement).
func (x *Exec) dropMention(st *State, p *path, P, T *Term) {
	has := func(t *Term) bool { return contains(t, P) }
	for k := range st.atoms {
		if has(k) {
			delete(st.atoms, k)
		}
	}
	for _, k := range sortedKeys(st.mem) {
		if has(k) || has(st.mem[k]) {
			// contents become unknown
			if !has(k) {
				st.mem[k] = in.mk(Term{K: KMemPhi, Aux: "?", Site: P.Site, Ctx: P.Ctx, Args: []*Term{k}, Typ: st.mem[k].Typ})
			} else {
				delete(st.mem, k)
			}
		}
	}
	cl := false
	for e := range st.dbm {
		if has(e.a) || has(e.b) {
			cl = true
		}
	}
	if cl {
		st.closeDBM()
		for e := range st.dbm {
			if has(e.a) || has(e.b) {
				delete(st.dbm, e)
			}
		}
	}
	for k := range st.attr {
		if has(k) {
			delete(st.attr, k)
		}
	}
	for k := range st.elem {
		if has(k) {
			delete(st.elem, k)
		}
	}
	for k, v := range st.prefix {
		if has(k) || has(v.bound) {
			delete(st.prefix, k)
		}
	}
	for k := range st.objver {
		if has(k) {
			delete(st.objver, k)
		}
	}
}

// joinFacts keeps for t only what also holds of the older o.
func (x *Exec) joinFacts(st *State, t, o *Term, roots []*Term) {
	m := map[*Term]*Term{t: o}
	memo := map[*Term]*Term{}
	for k, v := range st.atoms {
		if contains(k, t) {
			if ov, ok := st.atoms[subst(k, m, memo)]; !ok || ov != v {
				delete(st.atoms, k)
				delete(st.atoms, subst(k, m, memo))
			}
		} else if contains(k, o) {
			// must also hold of t
			back := map[*Term]*Term{o: t}
			if ov, ok := st.atoms[subst(k, back, map[*Term]*Term{})]; !ok || ov != v {
				delete(st.atoms, k)
			}
		}
	}
	for e := range st.dbm {
		if contains(e.a, t) || contains(e.b, t) || contains(e.a, o) || contains(e.b, o) {
			delete(st.dbm, e)
		}
	}
	for _, k := range sortedKeys(st.mem) {
		if contains(k, t) {
			if ov, ok := st.mem[subst(k, m, memo)]; !ok || ov != subst(st.mem[k], m, memo) {
				delete(st.mem, k)
				delete(st.mem, subst(k, m, memo))
			}
		} else if contains(k, o) {
			back := map[*Term]*Term{o: t}
			if _, ok := st.mem[subst(k, back, map[*Term]*Term{})]; !ok {
				delete(st.mem, k)
			}
		}
	}
	// terms that occur, which those that were renamed may be confused with
	var occur map[*Term]bool
	live := func(k *Term) bool {
		if occur == nil {
			occur = map[*Term]bool{}
			var add func(t *Term)
			add = func(u *Term) {
				if !u.gen || occur[u] {
					return
				}
				occur[u] = true
				for _, a := range u.Args {
					add(a)
				}
			}
			forAllTerms(st, add)
			for _, r := range roots {
				add(r)
			}
		}
		return occur[k]
	}
	joinAttrs(st.attr, t, o, m, memo, func(*Term) bool { return true })
	joinAttrs(st.elem, t, o, m, memo, live)
	for k, v := range st.prefix {
		if contains(k, t) || contains(k, o) || contains(v.bound, t) || contains(v.bound, o) {
			delete(st.prefix, k)
		}
	}
}

func forAllTerms(st *State, f func(*Term)) {
	for k, v := range st.mem {
		f(k)
		f(v)
	}
	for k := range st.atoms {
		f(k)
	}
	for e := range st.dbm {
		f(e.a)
		f(e.b)
	}
	for k, v := range st.objver {
		f(k)
		f(v)
	}
	for k := range st.attr {
		f(k)
	}
	for k := range st.elem {
		f(k)
	}
	for k, v := range st.prefix {
		f(k)
		f(v.bound)
	}
	for _, ts := range st.ghost {
		for _, t := range ts {
			f(t)
		}
	}
	f(st.epoch)
	for _, h := range st.locks {
		f(h.lock)
	}
}

// ---- instructions ---------------------------------------------------------------

func (x *Exec) eval(fr *frame, p *path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return constTerm(v)
	case *ssa.Global:
		return in.mk(Term{K: KGlobal, Aux: v.RelString(nil), Typ: v.Type(), I: x.P.globalID(v)})
	case *ssa.Function:
		return in.mk(Term{K: KFunc, Aux: v.String(), Fn: v, Typ: v.Type()})
	case *ssa.Builtin:
		return mkTok("builtin:" + v.Name())
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	// Not on this path (should not happen): unknown.
	return in.mk(Term{K: KGen, Aux: "undef:" + v.Name(), Ctx: fr.ctx, Typ: v.Type()})
}

func constTerm(c *ssa.Const) *Term {
	v := c.Value
	if isInteger(c.Type()) {
		v = constant.ToInt(v)
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		v = constant.ToFloat(v)
	}
	return mkConst(v, c.Type())
}

// run executes p to the end of its block and returns the successors.
func (x *Exec) run(fr *frame, p *path) []*path {
	if p.ip == 0 {
		if !x.enter(fr, p) {
			return nil
		}
	}
	b := p.block
	for p.ip < len(b.Instrs) {
		x.Steps++
		if x.Steps > x.Limit || x.over {
			x.over = true
			return nil
		}
		if x.Steps%1024 == 0 && x.R != nil && x.R.late() {
			x.over = true
			return nil
		}
		i := b.Instrs[p.ip]
		if x.H.Instr != nil {
			x.H.Instr(x, p.st, i, fr)
		}
		switch i := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			p.ip++
		case *ssa.If:
			c := x.eval(fr, p, i.Cond)
			var outs []*path
			for k, val := range []bool{true, false} {
				q := p.clone()
				if !q.st.assume(c, val) {
					continue
				}
				q.st.note(i.Cond.Pos(), fmt.Sprintf("%v is %v", c, val))
				if x.H.Assume != nil {
					x.H.Assume(x, q.st, c, val, i)
				}
				q.pred, q.block, q.ip = b, b.Succs[k], 0
				outs = append(outs, q)
			}
			return outs
		case *ssa.Jump:
			p.pred, p.block, p.ip = b, b.Succs[0], 0
			return []*path{p}
		case *ssa.Return:
			var res *Term
			switch len(i.Results) {
			case 0:
				res = mkTok("void")
			case 1:
				res = x.eval(fr, p, i.Results[0])
			default:
				args := make([]*Term, len(i.Results))
				for k, r := range i.Results {
					args[k] = x.eval(fr, p, r)
				}
				res = in.mk(Term{K: KTuple, Args: args})
			}
			p.st.note(i.Pos(), "return "+res.String())
			x.finish(fr, p, res, false)
			return nil
		case *ssa.RunDefers:
			p.ip++
			ps := x.runDefers(fr, p)
			return ps
		case *ssa.Panic:
			if x.H.Panic != nil {
				x.H.Panic(x, p.st, i)
			}
			x.panicOut(fr, p)
			return nil
		case *ssa.Call:
			outs := x.callInstr(fr, p, i, i)
			if len(outs) == 0 {
				return nil
			}
			var next []*path
			for _, o := range outs {
				q := p
				if len(outs) > 1 {
					q = p.clone()
				}
				q.st = o.st
				if o.panic {
					x.panicOut(fr, q)
					continue
				}
				q.env[i] = o.res
				q.ip++
				next = append(next, q)
			}
			if len(next) == 1 && len(outs) == 1 {
				continue
			}
			return x.dedupe(fr, next)
		case *ssa.Defer:
			d := &deferred{instr: i}
			d.fn, d.recv, d.args = x.callee(fr, p, &i.Call)
			p.defers = append(p.defers, d)
			// unbounded defers in a loop: keep at most two of the same site
			n := 0
			for _, e := range p.defers {
				if e.instr == i {
					n++
				}
			}
			if n > 2 {
				p.defers = p.defers[:len(p.defers)-1]
			}
			p.ip++
		case *ssa.Go:
			fn, recv, args := x.callee(fr, p, &i.Call)
			c := x.mkCall(fr, i, &i.Call, fn, recv, args)
			c.Go = true
			x.withRoots(p, func() { x.spawn(p.st, c, fn, recv, args) })
			p.ip++
		case *ssa.Select:
			return x.selectInstr(fr, p, i)
		case *ssa.Lookup:
			if outs, ok := x.lookupTable(fr, p, i); ok {
				return outs
			}
			x.simple(fr, p, i)
			p.ip++
		default:
			x.simple(fr, p, i)
			p.ip++
		}
	}
	return nil
}

func (x *Exec) withRoots(p *path, f func()) {
	x.roots = append(x.roots, envTerms(p))
	f()
	x.roots = x.roots[:len(x.roots)-1]
}

func (x *Exec) dedupe(fr *frame, ps []*path) []*path {
	if len(ps) < 2 {
		return ps
	}
	seen := map[string]bool{}
	var out []*path
	for _, p := range ps {
		k := fmt.Sprintf("%d/%s", p.ip, x.pathKey(fr, p, true))
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, p)
	}
	return out
}

func (x *Exec) panicOut(fr *frame, p *path) {
	ps := []*path{p}
	if len(p.defers) > 0 {
		q := p.clone()
		ps = x.runDefers(fr, q)
	}
	for _, q := range ps {
		x.finish(fr, q, mkTok("panic"), true)
	}
}

func (x *Exec) runDefers(fr *frame, p *path) []*path {
	ps := []*path{p}
	for {
		var next []*path
		more := false
		for _, q := range ps {
			if len(q.defers) == 0 {
				next = append(next, q)
				continue
			}
			more = true
			d := q.defers[len(q.defers)-1]
			q.defers = q.defers[:len(q.defers)-1]
			var outs []Outcome
			x.withRoots(q, func() {
				c := x.mkCall(fr, d.instr, &d.instr.Call, d.fn, d.recv, d.args)
				c.Deferred = true
				outs = x.call(q.st, c, d.fn, d.recv, d.args, fr)
			})
			for _, o := range outs {
				r := q
				if len(outs) > 1 {
					r = q.clone()
				}
				r.st = o.st
				next = append(next, r)
			}
		}
		ps = next
		if !more {
			return x.dedupe(fr, ps)
		}
	}
}

func (x *Exec) selectInstr(fr *frame, p *path, i *ssa.Select) []*path {
	var chans []*Term
	for _, s := range i.States {
		chans = append(chans, x.eval(fr, p, s.Chan))
	}
	n := len(i.States)
	var outs []*path
	for k := 0; k <= n; k++ {
		idx := k
		if k == n {
			if i.Blocking {
				break
			}
			idx = -1
		}
		if k < n && chans[k] == tNil {
			continue // never ready
		}
		q := p.clone()
		args := []*Term{mkInt(int64(idx))}
		ok := in.mk(Term{K: KGen, Aux: "recvok", Site: i, Ctx: fr.ctx, Typ: types.Typ[types.Bool]})
		args = append(args, ok)
		r := 0
		for j, s := range i.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			v := zeroOf(et)
			if j == idx {
				v = in.mk(Term{K: KGen, Aux: "recv", I: j, Site: i, Ctx: fr.ctx, Typ: et, Args: []*Term{chans[j]}})
			}
			args = append(args, v)
			r++
		}
		q.env[i] = in.mk(Term{K: KTuple, Args: args})
		q.st.note(i.Pos(), fmt.Sprintf("select case %d", idx))
		if x.H.Select != nil {
			x.sent = nil
			if k < n && i.States[k].Dir == types.SendOnly {
				x.sent = x.eval(fr, q, i.States[k].Send)
			}
			x.H.Select(x, q.st, i, idx, chans, fr)
		}
		if i.Blocking {
			x.bump(q.st, i, fr.ctx)
		}
		if k < n {
			cancelledCtx(q.st, chans[k])
		}
		q.ip++
		outs = append(outs, q)
	}
	return outs
}

// bump starts a new epoch: shared mutable fields may have changed.
// cancelledCtx: a receive from ctx.Done() means ctx.Err() is not nil.
func cancelledCtx(st *State, ch *Term) {
	if ch.K == KPure && ch.Aux == "(context.Context).Done" {
		st.atoms[mkEq(mkPure("(context.Context).Err", errT, ch.Args[0], st.epoch), tNil)] = false
	}
}

func (x *Exec) bump(st *State, i ssa.Instruction, ctx *Ctx) {
	st.epoch = in.mk(Term{K: KEpoch, Site: i, Ctx: ctx})
	for a := range st.mem {
		if f := outerField(a); f != nil && x.P.Mutable[f] && addrRoot(a).K != KAlloc {
			delete(st.mem, a)
		}
		if a.K == KPure && a.Aux == "mapelem" && sharedMap(a.Args[0]) {
			delete(st.mem, a)
		}
	}
	for m := range st.objver {
		if sharedMap(m) {
			delete(st.objver, m)
		}
	}
}

func outerField(a *Term) *types.Var {
	for a != nil {
		switch a.K {
		case KFieldAddr:
			return a.Fld
		case KIndexAddr:
			a = a.Args[0]
			continue
		}
		return nil
	}
	return nil
}

func (x *Exec) simple(fr *frame, p *path, i ssa.Instruction) {
	st := p.st
	set := func(v ssa.Value, t *Term) { p.env[v] = t }
	ev := func(v ssa.Value) *Term { return x.eval(fr, p, v) }
	switch i := i.(type) {
	case *ssa.Alloc:
		t := in.mk(Term{K: KAlloc, Site: i, Ctx: fr.ctx, Typ: i.Type()})
		for a := range st.mem {
			if addrRoot(a) == t {
				delete(st.mem, a)
			}
		}
		set(i, t)
	case *ssa.BinOp:
		a, b := ev(i.X), ev(i.Y)
		set(i, mkBin(i.Op, a, b, i.Type()))
	case *ssa.UnOp:
		v := ev(i.X)
		switch i.Op {
		case token.MUL:
			if x.H.Deref != nil {
				x.H.Deref(x, st, v, i, fr)
			}
			t := x.load(st, v, i.Type())
			if x.H.Load != nil {
				x.H.Load(x, st, v, t, i)
			}
			set(i, t)
		case token.NOT:
			set(i, mkNot(v))
		case token.ARROW:
			if x.H.ChanOp != nil {
				x.H.ChanOp(x, st, i, v, false)
			}
			x.bump(st, i, fr.ctx)
			cancelledCtx(st, v)
			et := i.X.Type().Underlying().(*types.Chan).Elem()
			g := in.mk(Term{K: KGen, Aux: "recv", Site: i, Ctx: fr.ctx, Typ: et, Args: []*Term{v}})
			if i.CommaOk {
				ok := in.mk(Term{K: KGen, Aux: "recvok", Site: i, Ctx: fr.ctx, Typ: types.Typ[types.Bool]})
				g = in.mk(Term{K: KTuple, Args: []*Term{g, ok}})
			}
			set(i, g)
		default:
			set(i, in.mk(Term{K: KUn, Aux: i.Op.String(), Args: []*Term{v}, Typ: i.Type()}))
		}
	case *ssa.ChangeInterface:
		set(i, ev(i.X))
	case *ssa.ChangeType:
		set(i, ev(i.X))
	case *ssa.Convert:
		set(i, mkConv(ev(i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, mkConv(ev(i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		set(i, in.mk(Term{K: KIface, Args: []*Term{ev(i.X)}, Typ: i.X.Type()}))
	case *ssa.MakeClosure:
		var args []*Term
		for _, b := range i.Bindings {
			args = append(args, ev(b))
		}
		fn := i.Fn.(*ssa.Function)
		set(i, in.mk(Term{K: KClosure, Fn: fn, Args: args, Typ: i.Type()}))
	case *ssa.MakeMap:
		t := in.mk(Term{K: KMake, Aux: "map", Site: i, Ctx: fr.ctx, Typ: i.Type()})
		for a := range st.mem {
			if a.K == KPure && a.Aux == "mapelem" && a.Args[0] == t {
				delete(st.mem, a)
			}
		}
		delete(st.objver, t)
		set(i, t)
	case *ssa.MakeChan:
		set(i, in.mk(Term{K: KMake, Aux: "chan", Site: i, Ctx: fr.ctx, Typ: i.Type(), Args: []*Term{ev(i.Size)}}))
	case *ssa.MakeSlice:
		set(i, in.mk(Term{K: KMake, Aux: "slice", Site: i, Ctx: fr.ctx, Typ: i.Type(), Args: []*Term{ev(i.Len), ev(i.Cap)}}))
	case *ssa.Slice:
		base := ev(i.X)
		lo, hi, mx := tNil, tNil, tNil
		if i.Low != nil {
			lo = ev(i.Low)
		}
		if i.High != nil {
			hi = ev(i.High)
		}
		if i.Max != nil {
			mx = ev(i.Max)
		}
		if x.H.SliceOp != nil {
			x.H.SliceOp(x, st, base, lo, hi, i, fr)
		}
		set(i, mkSlice(base, lo, hi, mx, i.Type()))
	case *ssa.FieldAddr:
		base := ev(i.X)
		if x.H.Deref != nil {
			x.H.Deref(x, st, base, i, fr)
		}
		set(i, mkFieldAddr(base, i.Field, structField(i.X.Type(), i.Field)))
	case *ssa.Field:
		set(i, x.fieldOf(st, ev(i.X), i.Field, structField(i.X.Type(), i.Field)))
	case *ssa.IndexAddr:
		base, idx := ev(i.X), ev(i.Index)
		if x.H.Index != nil {
			x.H.Index(x, st, base, idx, i, fr)
		}
		set(i, x.indexAddr(base, idx, i.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Index:
		base, idx := ev(i.X), ev(i.Index)
		if x.H.Index != nil {
			x.H.Index(x, st, base, idx, i, fr)
		}
		set(i, arrayIndex(base, idx, i.Type()))
	case *ssa.Lookup:
		m, k := ev(i.X), ev(i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			if x.H.Index != nil {
				x.H.Index(x, st, m, k, i, fr)
			}
			set(i, in.mk(Term{K: KIndex, Args: []*Term{m, k}, Typ: i.Type()}))
			return
		}
		if x.H.MapRead != nil {
			x.H.MapRead(x, st, m, k, i)
		}
		et := i.X.Type().Underlying().(*types.Map).Elem()
		v, has := x.mapGet(st, m, k, et)
		if i.CommaOk {
			v = in.mk(Term{K: KTuple, Args: []*Term{v, has}})
		}
		set(i, v)
	case *ssa.MapUpdate:
		m, k, v := ev(i.Map), ev(i.Key), ev(i.Value)
		if x.H.MapWrite != nil {
			x.H.MapWrite(x, st, m, k, v, i)
		}
		x.mapSet(st, m, k, v, i, fr.ctx)
	case *ssa.Range:
		r := in.mk(Term{K: KRange, Args: []*Term{ev(i.X)}, Typ: i.Type()})
		st.ClearG(iterKey(r))
		set(i, r)
	case *ssa.Next:
		r := ev(i.Iter)
		tt := i.Type().(*types.Tuple)
		gen := func(n string, k int) *Term {
			return in.mk(Term{K: KGen, Aux: n, I: k, Site: i, Ctx: fr.ctx, Typ: tt.At(k).Type(), Args: []*Term{r}})
		}
		if x.H.MapRead != nil && !i.IsString {
			x.H.MapRead(x, st, r.Args[0], nil, i)
		}
		if keys, ok := x.knownKeys(st, r.Args[0]); ok && !i.IsString {
			last := ""
			if g := st.G(iterKey(r)); len(g) > 0 {
				last = g[0].Aux
			}
			var nk *Term
			for _, k := range keys {
				if "k"+k.C.ExactString() > last {
					nk = k
					break
				}
			}
			if nk == nil {
				st.ClearG(iterKey(r))
				set(i, in.mk(Term{K: KTuple, Args: []*Term{tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())}}))
				break
			}
			st.SetG(iterKey(r), mkTok("k"+nk.C.ExactString()))
			v, _ := x.mapGet(st, r.Args[0], nk, tt.At(2).Type())
			set(i, in.mk(Term{K: KTuple, Args: []*Term{tTrue, nk, v}}))
			break
		}
		set(i, in.mk(Term{K: KTuple, Args: []*Term{gen("more", 0), gen("key", 1), gen("val", 2)}}))
	case *ssa.TypeAssert:
		v := ev(i.X)
		if x.H.Assert != nil {
			x.H.Assert(x, st, v, i)
		}
		r := v
		if dt := dynType(v); dt != nil && types.Identical(dt, i.AssertedType) {
			r = v.Args[0]
		} else if !types.IsInterface(i.AssertedType) {
			r = in.mk(Term{K: KAssert, Args: []*Term{v}, Typ: i.AssertedType})
		}
		okT := in.mk(Term{K: KAssertOk, Args: []*Term{v}, Typ: i.AssertedType, Aux: "ok"})
		if i.CommaOk {
			if val, ok := st.evalBool(okT); ok {
				okT = mkBool(val)
				if !val {
					r = zeroOf(i.AssertedType)
				}
			}
			r = in.mk(Term{K: KTuple, Args: []*Term{r, okT}})
		} else {
			st.assume(okT, true)
		}
		set(i, r)
	case *ssa.Extract:
		set(i, mkExtract(ev(i.Tuple), i.Index, i.Type()))
	case *ssa.Store:
		a, v := ev(i.Addr), ev(i.Val)
		if x.H.Deref != nil {
			x.H.Deref(x, st, a, i, fr)
		}
		if x.H.Store != nil {
			x.H.Store(x, st, a, v, i)
		}
		x.store(st, a, v, i, fr.ctx)
	case *ssa.Send:
		ch := ev(i.Chan)
		if x.H.ChanOp != nil {
			x.sent = ev(i.X)
			x.H.ChanOp(x, st, i, ch, true)
		}
		x.bump(st, i, fr.ctx)
	case *ssa.SliceToArrayPointer:
		set(i, ev(i.X))
	default:
		if v, ok := i.(ssa.Value); ok {
			set(v, in.mk(Term{K: KGen, Aux: fmt.Sprintf("%T", i), Site: i, Ctx: fr.ctx, Typ: v.Type()}))
		} else {
			fmt.Fprintf(os.Stderr, "unhandled instruction %T\n", i)
		}
	}
}

func mkConv(v *Term, from, to types.Type) *Term {
	if isInteger(from) && isInteger(to) {
		if n, ok := v.isInt(); ok && (intSize(to) >= intSize(from) || n >= 0 && n < 1<<(intSize(to)*8-1)) {
			return v
		}
		if intSize(to) >= intSize(from) {
			return v
		}
		return in.mk(Term{K: KConv, Args: []*Term{v}, Typ: to})
	}
	if isStringT(from) && isStringT(to) {
		return v
	}
	// []byte(string(x)) and back
	if v.K == KConv && v.Args[0].Typ != nil && types.Identical(v.Args[0].Typ.Underlying(), to.Underlying()) && (isStringT(to) || isBytes(to)) {
		return v.Args[0]
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return in.mk(Term{K: KConv, Args: []*Term{v}, Typ: to})
}

// intSize is the size of an integer type in bytes.
func intSize(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t.Underlying())
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func mkSlice(base, lo, hi, mx *Term, t types.Type) *Term {
	if n, ok := lo.isInt(); ok && n == 0 {
		lo = tNil
	}
	if lo == tNil && hi == tNil && mx == tNil {
		if _, ok := base.Typ.(*types.Pointer); !ok && base.Typ != nil {
			if _, isPtr := base.Typ.Underlying().(*types.Pointer); !isPtr {
				return base
			}
		}
	}
	return in.mk(Term{K: KSlice, Args: []*Term{base, lo, hi, mx}, Typ: t})
}

func (x *Exec) indexAddr(base, idx *Term, elem types.Type) *Term {
	for base.K == KSlice {
		lo := base.Args[1]
		if lo == tNil {
			base = base.Args[0]
			continue
		}
		if n, ok := lo.isInt(); ok {
			idx = addConst(idx, n)
			base = base.Args[0]
			continue
		}
		break
	}
	return mkIndexAddr(base, idx, elem)
}

func mkLen(v *Term) *Term {
	switch v.K {
	case KNil:
		return mkInt(0)
	case KConst:
		if s, ok := v.isStr(); ok {
			return mkInt(int64(len(s)))
		}
	case KMake:
		if v.Aux == "slice" {
			return v.Args[0]
		}
	case KPure:
		if v.Aux == "elems" {
			return mkInt(int64(len(v.Args)))
		}
	case KZero:
		if at, ok := v.Typ.Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
	case KSlice:
		base, lo, hi := v.Args[0], v.Args[1], v.Args[2]
		if hi == tNil {
			hi = mkLen(base)
		}
		if lo == tNil {
			return hi
		}
		return mkBin(token.SUB, hi, lo, types.Typ[types.Int])
	case KAppend:
		return mkBin(token.ADD, mkLen(v.Args[0]), mkLen(v.Args[1]), types.Typ[types.Int])
	}
	if v.Typ != nil {
		t := v.Typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if at, ok := t.(*types.Array); ok {
			return mkInt(at.Len())
		}
	}
	return in.mk(Term{K: KLen, Args: []*Term{v}, Typ: types.Typ[types.Int]})
}

// ---- memory ------------------------------------------------------------------------

func (x *Exec) fieldOf(st *State, v *Term, i int, f *types.Var) *Term {
	switch v.K {
	case KZero:
		return zeroOf(f.Type())
	case KUpd:
		if v.I == i {
			return v.Args[1]
		}
		return x.fieldOf(st, v.Args[0], i, f)
	case KLoad:
		a := mkFieldAddr(v.Args[0], i, f)
		y := *v
		y.Args = append([]*Term{a}, v.Args[1:]...)
		y.Typ = f.Type()
		y.gen = false
		return in.mk(y)
	}
	return in.mk(Term{K: KField, I: i, Aux: f.Name(), Fld: f, Args: []*Term{v}, Typ: f.Type()})
}

// whole looks for a value covering address a.
func (x *Exec) whole(st *State, a *Term) (*Term, bool) {
	if v, ok := st.mem[a]; ok {
		return v, true
	}
	switch a.K {
	case KFieldAddr:
		if v, ok := x.whole(st, a.Args[0]); ok {
			return x.fieldOf(st, v, a.I, a.Fld), true
		}
	case KIndexAddr:
		base := a.Args[0]
		if base.K == KPure && base.Aux == "elems" {
			if n, ok := a.Args[1].isInt(); ok && int(n) < len(base.Args) {
				return base.Args[n], true
			}
		}
		if base.K == KAppend {
			if v, ok := x.appendAt(st, base, a); ok {
				return v, true
			}
		}
		if pt, ok := base.Typ.(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Array); ok {
				if v, ok := st.mem[base]; ok {
					if v.K == KZero {
						return zeroOf(a.Typ.(*types.Pointer).Elem()), true
					}
					return arrayIndex(v, a.Args[1], a.Typ.(*types.Pointer).Elem()), true
				}
			}
		}
	}
	return nil, false
}

func (x *Exec) appendAt(st *State, ap, a *Term) (*Term, bool) {
	n, ok := mkLen(ap.Args[0]).isInt()
	if !ok {
		return nil, false
	}
	k, ok := a.Args[1].isInt()
	if !ok {
		return nil, false
	}
	et := a.Typ.(*types.Pointer).Elem()
	if k < n {
		return x.load(st, x.indexAddr(ap.Args[0], mkInt(k), et), et), true
	}
	return x.load(st, x.indexAddr(ap.Args[1], mkInt(k-n), et), et), true
}

func (x *Exec) load(st *State, a *Term, t types.Type) *Term {
	if t == nil {
		if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		// overlays
		over := map[int]bool{}
		for k := range st.mem {
			c := k
			for c.K == KFieldAddr || c.K == KIndexAddr {
				if c.K == KFieldAddr && c.Args[0] == a {
					over[c.I] = true
				}
				c = c.Args[0]
			}
		}
		base := x.loadBase(st, a, t)
		for i := 0; i < su.NumFields(); i++ {
			if over[i] {
				v := x.load(st, mkFieldAddr(a, i, su.Field(i)), su.Field(i).Type())
				base = in.mk(Term{K: KUpd, I: i, Args: []*Term{base, v}, Typ: t, Fld: su.Field(i)})
			}
		}
		return base
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		over := false
		for k := range st.mem {
			for c := k; !over && (c.K == KFieldAddr || c.K == KIndexAddr); c = c.Args[0] {
				over = c.Args[0] == a
			}
		}
		if over {
			if at.Len() > 16 {
				return in.mk(Term{K: KPure, Aux: "array", Args: []*Term{a, st.epoch}, Typ: t})
			}
			els := make([]*Term, at.Len())
			for j := range els {
				els[j] = x.load(st, x.indexAddr(a, mkInt(int64(j)), at.Elem()), at.Elem())
			}
			return in.mk(Term{K: KTuple, Args: els, Typ: t})
		}
	}
	return x.loadBase(st, a, t)
}

// arrayIndex is element i of the array value v.
func arrayIndex(v, i *Term, t types.Type) *Term {
	if n, ok := i.isInt(); ok && v.K == KTuple && n >= 0 && int(n) < len(v.Args) {
		return v.Args[n]
	}
	if _, ok := v.Typ.Underlying().(*types.Array); ok && v.K == KZero {
		return zeroOf(t)
	}
	return in.mk(Term{K: KIndex, Args: []*Term{v, i}, Typ: t})
}

func (x *Exec) loadBase(st *State, a *Term, t types.Type) *Term {
	if v, ok := x.whole(st, a); ok {
		return v
	}
	r := addrRoot(a)
	if r.K == KAlloc && isDirect(a) {
		return zeroOf(t)
	}
	if a.K == KGlobal {
		return in.mk(Term{K: KLoad, Args: []*Term{a}, Typ: t})
	}
	args := []*Term{a}
	if f := outerField(a); f != nil && x.P.Mutable[f] {
		args = append(args, st.epoch)
	}
	return in.mk(Term{K: KLoad, Args: args, Typ: t})
}

// isDirect: the address is inside its root object (no slice indirection).
func isDirect(a *Term) bool {
	for {
		switch a.K {
		case KAlloc:
			return true
		case KFieldAddr:
			a = a.Args[0]
		case KIndexAddr:
			b := a.Args[0]
			if b.K == KAlloc {
				return true
			}
			if pt, ok := b.Typ.(*types.Pointer); !ok {
				return false
			} else if _, ok := pt.Elem().Underlying().(*types.Array); !ok {
				return false
			}
			a = b
		default:
			return false
		}
	}
}

func under(a, root *Term) bool {
	for a.K == KFieldAddr || a.K == KIndexAddr {
		a = a.Args[0]
		if a == root {
			return true
		}
	}
	return false
}

func (x *Exec) store(st *State, a, v *Term, i ssa.Instruction, ctx *Ctx) {
	for k := range st.mem {
		if under(k, a) {
			delete(st.mem, k)
			continue
		}
		if k == a {
			continue
		}
		if a.K == KFieldAddr && k.K == KFieldAddr && k.Fld == a.Fld {
			if !freshDistinct(k.Args[0], a.Args[0]) && !st.refuted(mkEq(k.Args[0], a.Args[0])) {
				delete(st.mem, k)
			}
		}
		if a.K == KIndexAddr && k.K == KIndexAddr && types.Identical(k.Typ, a.Typ) {
			if k.Args[0] == a.Args[0] {
				if !st.refuted(mkEq(k.Args[1], a.Args[1])) {
					delete(st.mem, k)
				}
			} else if !(k.Args[0].K == KAlloc || k.Args[0].K == KMake || a.Args[0].K == KAlloc || a.Args[0].K == KMake) {
				delete(st.mem, k)
			}
		}
	}
	st.mem[a] = v
	if a.K == KFieldAddr {
		b := a.Args[0]
		if b.K != KAlloc {
			st.objver[b] = in.mk(Term{K: KEpoch, Aux: "w", Site: i, Ctx: ctx})
		}
	}
	if a.K == KIndexAddr {
		x.prefixStore(st, a.Args[0], a.Args[1], x.attrOf(st, v))
	}
}

// prefixStore records that element idx of s now has the given attributes.
func (x *Exec) prefixStore(st *State, s, idx *Term, attrs string) {
	if e, ok := st.elem[s]; ok && e != attrAll {
		st.elem[s] = attrAnd(e, attrs)
	}
	pi, ok := st.prefix[s]
	if !ok {
		pi = prefixInfo{mkInt(0), attrAll}
	}
	if st.entailsDiff(idx, pi.bound, 0) && st.entailsDiff(pi.bound, idx, 0) {
		st.prefix[s] = prefixInfo{addConst(idx, 1), attrAnd(pi.attrs, attrs)}
		return
	}
	// the last element again: refresh
	last := addConst(pi.bound, -1)
	if ok && st.entailsDiff(idx, last, 0) && st.entailsDiff(last, idx, 0) {
		st.prefix[s] = prefixInfo{pi.bound, pi.attrs} // attrs of others unknown individually
		if n, isn := pi.bound.isInt(); isn && n == 1 {
			st.prefix[s] = prefixInfo{pi.bound, attrs}
		}
		return
	}
}

// AddAttr gives term t an attribute; elements of slices are tracked.
func (x *Exec) AddAttr(st *State, t *Term, name string) {
	st.attr[t] = attrOr(st.attr[t], name)
	// t is the current content of s[i]?
	if t.K == KLoad && t.Args[0].K == KIndexAddr {
		x.prefixMark(st, t.Args[0].Args[0], t.Args[0].Args[1], t)
	}
}

func (x *Exec) prefixMark(st *State, s, idx, t *Term) {
	attrs := x.attrOf(st, t)
	x.prefixStore(st, s, idx, attrs)
}

func (x *Exec) attrOf(st *State, t *Term) string {
	a := st.attr[t]
	if x.H.AttrOf != nil {
		a = attrOr(a, x.H.AttrOf(x, st, t))
	}
	if t.K == KLoad && t.Args[0].K == KIndexAddr {
		a = attrOr(a, x.elemOf(st, t.Args[0].Args[0]))
	}
	return a
}

// elemOf is the set of attributes every element of s has.
func (x *Exec) elemOf(st *State, s *Term) string {
	if n, ok := mkLen(s).isInt(); ok && n == 0 {
		return attrAll
	}
	if st.isNil(s) || st.holds(mkEq(mkLen(s), mkInt(0))) {
		return attrAll
	}
	a := st.elem[s]
	if pi, ok := st.prefix[s]; ok {
		if st.entailsDiff(mkLen(s), pi.bound, 0) {
			a = attrOr(a, pi.attrs)
		}
	}
	switch s.K {
	case KSlice:
		if els, ok := x.sliceElems(st, s); ok {
			r := attrAll
			for _, e := range els {
				r = attrAnd(r, x.attrOf(st, e))
			}
			return attrOr(a, r)
		}
		a = attrOr(a, x.elemOf(st, s.Args[0]))
	case KPure:
		if s.Aux == "elems" {
			r := attrAll
			for _, e := range s.Args {
				r = attrAnd(r, x.attrOf(st, e))
			}
			return attrOr(a, r)
		}
	case KAppend:
		a = attrOr(a, attrAnd(x.elemOf(st, s.Args[0]), x.elemOf(st, s.Args[1])))
	}
	return a
}

// sliceElems resolves a slice of a local array (variadic arguments).
func (x *Exec) sliceElems(st *State, s *Term) ([]*Term, bool) {
	if s == tNil {
		return nil, true
	}
	if s.K == KPure && s.Aux == "elems" {
		return s.Args, true
	}
	if s.K != KSlice || s.Args[1] != tNil || s.Args[2] != tNil {
		return nil, false
	}
	b := s.Args[0]
	if b.K != KAlloc {
		return nil, false
	}
	at, ok := b.Typ.(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < at.Len(); i++ {
		out = append(out, x.load(st, mkIndexAddr(b, mkInt(i), at.Elem()), at.Elem()))
	}
	return out, true
}

func mapElem(m, k *Term) *Term { return mkPure("mapelem", nil, m, k) }

func (x *Exec) mapGet(st *State, m, k *Term, et types.Type) (v, has *Term) {
	if m == tNil {
		return zeroOf(et), tFalse
	}
	e := mapElem(m, k)
	if v, ok := st.mem[e]; ok {
		if v.K == KTok && v.Aux == "deleted" {
			return zeroOf(et), tFalse
		}
		return v, tTrue
	}
	ver := x.ver(st, m)
	if ver == nil && sharedMap(m) {
		ver = st.epoch
	}
	if m.K == KMake && ver == nil {
		// a fresh map: absent unless an unknown key was written
		absent := true
		if k.K != KConst {
			for a := range st.mem {
				if a.K == KPure && a.Aux == "mapelem" && a.Args[0] == m {
					absent = false
				}
			}
		}
		if absent {
			return zeroOf(et), tFalse
		}
	}
	args := []*Term{m, k}
	if ver != nil {
		args = append(args, ver)
	}
	return in.mk(Term{K: KLookup, Args: args, Typ: et}), in.mk(Term{K: KHas, Args: args, Typ: types.Typ[types.Bool]})
}

func (x *Exec) mapSet(st *State, m, k, v *Term, i ssa.Instruction, ctx *Ctx) {
	for a := range st.mem {
		if a.K == KPure && a.Aux == "mapelem" && a.Args[0] == m && a.Args[1] != k {
			if !(a.Args[1].K == KConst && k.K == KConst) {
				delete(st.mem, a)
			}
		}
	}
	if k.K != KConst {
		st.objver[m] = in.mk(Term{K: KEpoch, Aux: "m", Site: i, Ctx: ctx})
	}
	st.mem[mapElem(m, k)] = v
}

func iterKey(r *Term) string { return "@it" + strconv.Itoa(r.ID) }

// knownKeys lists the keys of a map made on this path and filled with
// constant keys only, in order.
func (x *Exec) knownKeys(st *State, m *Term) ([]*Term, bool) {
	for m.K == KConv {
		m = m.Args[0]
	}
	if m.K != KMake || st.objver[m] != nil {
		return nil, false
	}
	var ks []*Term
	for a, v := range st.mem {
		if a.K != KPure || a.Aux != "mapelem" || a.Args[0] != m {
			continue
		}
		if a.Args[1].K != KConst {
			return nil, false
		}
		if v.K == KTok && v.Aux == "deleted" {
			continue
		}
		ks = append(ks, a.Args[1])
	}
	if len(ks) == 0 || len(ks) > 16 {
		return nil, false
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].C.ExactString() < ks[j].C.ExactString() })
	return ks, true
}

// sharedMap: a map held in a field of one of the library's structs.
func sharedMap(m *Term) bool {
	if m.K != KLoad || m.Args[0].K != KFieldAddr {
		return false
	}
	f := m.Args[0].Fld
	return f.Pkg() != nil && inRepoPkg(f.Pkg().Path())
}

// ver is the version of object m (nil: as first seen).
func (x *Exec) ver(st *State, m *Term) *Term {
	return st.objver[m]
}

// joinAttrs intersects the attributes of terms about t with those about o.
func joinAttrs(at map[*Term]string, t, o *Term, m, memo map[*Term]*Term, live func(*Term) bool) {
	nv := map[*Term]string{}
	var del []*Term
	for k, v := range at {
		switch {
		case contains(k, t):
			n := subst(k, m, memo)
			w, ok := at[n]
			if !ok && !live(n) {
				w = v
			}
			nv[n] = attrAnd(v, w)
			del = append(del, k)
		case contains(k, o):
			if _, ok := nv[k]; !ok {
				n := subst(k, map[*Term]*Term{o: t}, map[*Term]*Term{})
				if _, ok := at[n]; !ok && live(n) {
					del = append(del, k)
				}
			}
		}
	}
	for _, k := range del {
		delete(at, k)
	}
	for k, v := range nv {
		if v == "" {
			delete(at, k)
		} else {
			at[k] = v
		}
	}
}

// coarsen drops facts at a loop header that has been reached very often.
func (x *Exec) coarsen(fr *frame, p *path, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, laps int) {
	if laps < 200 {
		return
	}
	st := p.st
	for k := range st.prefix {
		delete(st.prefix, k)
	}
	local := func(t *Term) bool {
		return anyTerm(t, func(t *Term) bool {
			switch t.K {
			case KPhi:
				return t.Site.Block() == b && t.Ctx == fr.ctx
			case KOld, KCall, KGen, KEpoch, KMemPhi:
				return inLoop(t, fr, body)
			}
			return false
		})
	}
	for k := range st.atoms {
		if local(k) {
			delete(st.atoms, k)
		}
	}
	if laps < 400 {
		return
	}
	for k := range st.atoms {
		delete(st.atoms, k)
	}
	for _, k := range sortedKeys(st.mem) {
		if local(k) {
			delete(st.mem, k)
		}
	}
}
