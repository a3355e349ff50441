package main

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// flow follows the elements of lists and maps through loops: every element of
// a source is settled in its turn, or put on a list that is walked in turn.
//
// For each loop, the lists that hold everything put on a list by it so far are
// kept (ghost "pass:"loop): they must be walked to their end.
type flow struct {
	P *Prog
	// source: the list is to be walked.
	source func(st *State, s *Term) bool
	// isMap: the map is one whose entries are to be visited.
	isMap func(st *State, m *Term, i ssa.Instruction) bool
	// settle: at the end of the turn of element e of s, passed says whether it
	// was put on a list. It returns whether it had to be.
	settle func(x *Exec, st *State, tn turn, passed bool) (must bool)
	// holds: the value put on a list stands for the element.
	stands func(x *Exec, st *State, v, e *Term) bool

	bodies map[*Term]*loopBody
}

type turn struct {
	loop *Term // the loop
	src  *Term // the list or map
	e    *Term // the element
	key  *Term // the key, for a map
	curs []*Term
	next []*Term
	pos  token.Pos
}

func (f *flow) loop(i ssa.Instruction) *Term {
	b := i.Block()
	var best *ssa.BasicBlock
	n := 0
	for h, body := range f.P.info(i.Parent()).headers {
		if body[b] && (best == nil || len(body) < n) {
			best, n = h, len(body)
		}
	}
	if best == nil {
		return nil
	}
	l := loopTok(i.Parent(), best)
	if f.bodies == nil {
		f.bodies = map[*Term]*loopBody{}
	}
	f.bodies[l] = &loopBody{i.Parent(), f.P.info(i.Parent()).headers[best]}
	return l
}

func loopTok(fn *ssa.Function, h *ssa.BasicBlock) *Term {
	return mkTok(fnLabel(fn) + "#" + strconv.Itoa(h.Index))
}

func (f *flow) passed(st *State, s *Term) bool {
	for _, l := range st.G("loops") {
		if st.HasG("pass:"+l.Aux, s) {
			return true
		}
	}
	return false
}

func (f *flow) tracked(st *State, s *Term) bool {
	return f.source != nil && f.source(st, s) || f.passed(st, s)
}

func (f *flow) begin(st *State, src *Term) {
	if st.HasG("exhausted", src) {
		st.DelG("exhausted", src)
		st.DelG("dropped", src)
		st.DelG("first", src)
	}
}

func (f *flow) hooks(h *Hooks) {
	load, ass, back, app := h.Load, h.Assume, h.BackEdge, h.Append
	instr := h.Instr
	h.Instr = func(x *Exec, st *State, i ssa.Instruction, fr *frame) {
		f.leave(st, i)
		if instr != nil {
			instr(x, st, i, fr)
		}
	}
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		a := addr
		for a.K == KFieldAddr {
			a = a.Args[0]
		}
		if a.K == KIndexAddr && f.tracked(st, a.Args[0]) {
			s, idx := a.Args[0], a.Args[1]
			e := val
			if a != addr {
				e = x.load(st, a, a.Typ.Underlying().(*types.Pointer).Elem())
			}
			f.begin(st, s)
			st.attr[e] = attrOr(st.attr[e], x.elemOf(st, s))
			if !st.HasG("first", s) {
				if st.entailsDiff(mkInt(1), idx, 0) {
					st.AddG("dropped", s)
				}
				st.AddG("first", s)
			}
			if l := f.loop(i); l != nil {
				st.AddG("turns", l)
				st.SetG("turn:"+l.Aux, s, e, tNil, idx)
			} else {
				st.AddG("dropped", s)
			}
		}
		if load != nil {
			load(x, st, addr, val, i)
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		c, v := cond, val
		if c.K == KUn {
			c, v = c.Args[0], !v
		}
		switch {
		case c.K == KBin && c.Aux == "<" && !v && c.Args[1].K == KLen && f.tracked(st, c.Args[1].Args[0]):
			st.AddG("exhausted", c.Args[1].Args[0])
		case c.K == KGen && c.Aux == "more" && f.isMap != nil && f.isMap(st, c.Args[0].Args[0], c.Site):
			m := c.Args[0].Args[0]
			if !v {
				st.AddG("exhausted", m)
				break
			}
			f.begin(st, m)
			l := f.loop(c.Site)
			if l == nil {
				st.AddG("dropped", m)
				break
			}
			tt := c.Site.(ssa.Value).Type().(*types.Tuple)
			gen := func(n string, k int) *Term {
				return in.mk(Term{K: KGen, Aux: n, I: k, Site: c.Site, Ctx: c.Ctx, Typ: tt.At(k).Type(), Args: c.Args})
			}
			st.AddG("turns", l)
			st.SetG("turn:"+l.Aux, m, gen("val", 2), gen("key", 1), tNil)
		}
		if ass != nil {
			ass(x, st, cond, val, i)
		}
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		for _, l := range st.G("turns") {
			tn := st.G("turn:" + l.Aux)
			if len(tn) == 0 {
				continue
			}
			for _, el := range els {
				if el == tn[1] || f.stands != nil && f.stands(x, st, el, tn[1]) {
					st.AddG("app", in.mk(Term{K: KTuple, Args: []*Term{base, res, l}}))
				}
			}
		}
		if app != nil {
			app(x, st, res, base, els, rest, i)
		}
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
		l := loopTok(fr.fn, b)
		if t := st.G("turn:" + l.Aux); len(t) == 4 {
			tn := turn{loop: l, src: t[0], e: t[1], key: t[2], curs: x.curs, next: phis, pos: firstInstr(b).Pos()}
			var apps []*Term
			for _, a := range st.G("app") {
				if a.Args[2] == l {
					apps = append(apps, a)
					st.DelG("app", a)
				}
			}
			if f.settle(x, st, tn, len(apps) > 0) {
				g := "pass:" + l.Aux
				var lists []*Term
				for _, a := range apps {
					if !st.HasG("loops", l) || st.HasG(g, a.Args[0]) {
						lists = append(lists, a.Args[1])
					}
				}
				if len(lists) == 0 {
					st.AddG("dropped", tn.src)
				}
				st.AddG("loops", l)
				st.SetG(g, lists...)
			}
			if i, ok := t[3].isInt(); ok {
				if n, ok := mkLen(tn.src).isInt(); ok && i == n-1 {
					st.AddG("exhausted", tn.src)
				}
			}
			st.ClearG("turn:" + l.Aux)
			st.DelG("turns", l)
			// what was found out about this turn is of no use in the next
			f.forget(st, tn.e, tn.key)
		}
		if back != nil {
			back(x, st, fr, b, phis)
		}
	}
}

func (f *flow) forget(st *State, e, key *Term) {
	for g := range st.ghost {
		switch g {
		case "loops", "first", "exhausted", "dropped", "turns":
			continue
		}
		if len(g) > 5 && (g[:5] == "pass:" || g[:5] == "turn:" || g[:5] == "cell:") || g[0] == '+' {
			continue
		}
		for _, t := range st.G(g) {
			if anyTerm(t, func(t *Term) bool { return mentions(t, e) || t == key && t != tNil }) {
				st.DelG(g, t)
			}
		}
	}
}

// leave: turns of loops that i is outside of were not finished.
func (f *flow) leave(st *State, i ssa.Instruction) {
	for _, l := range st.G("turns") {
		body := f.bodies[l]
		if body == nil || body.fn != i.Parent() || body.in[i.Block()] {
			continue
		}
		if t := st.G("turn:" + l.Aux); len(t) == 4 {
			st.AddG("dropped", t[0])
			st.ClearG("turn:" + l.Aux)
			for _, a := range st.G("app") {
				if a.Args[2] == l {
					st.DelG("app", a)
				}
			}
			f.forget(st, t[1], t[2])
		}
		st.DelG("turns", l)
	}
}

type loopBody struct {
	fn *ssa.Function
	in map[*ssa.BasicBlock]bool
}

// mentions: t is the element e, or where it is kept.
func mentions(t, e *Term) bool {
	return t == e || e.K == KLoad && t == e.Args[0]
}

// complete: every element of the source was visited.
func (f *flow) complete(st *State, s *Term) bool {
	return (st.HasG("exhausted", s) || st.holds(mkEq(mkLen(s), tZeroInt)) || st.isNil(s)) && !st.HasG("dropped", s)
}

// outstanding: a loop put elements on a list that was not walked to its end.
func (f *flow) outstanding(st *State) string {
	for _, l := range st.G("loops") {
		ok := false
		for _, s := range st.G("pass:" + l.Aux) {
			if f.complete(st, s) {
				ok = true
			}
		}
		if !ok {
			return l.Aux
		}
	}
	return ""
}

// ---- sweeping ------------------------------------------------------------------------------

// known: 1 or 0 where a condition satisfying f was decided on the path, else -1.
func known(st *State, f func(c *Term) bool) int {
	for _, c := range st.G("cmptrue") {
		if f(c) {
			return 1
		}
	}
	for _, c := range st.G("cmpfalse") {
		if f(c) {
			return 0
		}
	}
	for c, v := range st.atoms {
		if f(c) {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func isNow(st *State, t *Term) bool {
	t = strip(t)
	return isPureOf(t, "time.Now") || st.HasG("now", t)
}

// setting is the value of a limit: 1 set, 0 not set, -1 unknown.
func (d *disk) setting(st *State, f *types.Var) (int, *Term) {
	ret := -1
	var v *Term
	for _, t := range st.G("limit") {
		if d.of(t, f) {
			v = t
			if st.entailsDiff(t, tZeroInt, 0) {
				ret = 0
			}
			if st.entailsDiff(tZeroInt, t, -1) {
				ret = 1
			}
		}
	}
	return ret, v
}

// aged: 1 the time m is known to be longer ago than the maximum age, 0 it is
// known not to be, -1 neither.
func (d *disk) aged(st *State, m *Term) int {
	m = strip(m)
	age := func(t *Term) bool {
		t = strip(t)
		return isPureOf(t, "time.Since") && strip(t.Args[0]) == m ||
			isPureOf(t, "(time.Time).Sub") && strip(t.Args[1]) == m && isNow(st, t.Args[0])
	}
	max := func(t *Term) bool { return d.of(t, d.maxage) }
	// limit: the oldest time kept
	oldest := func(t *Term) bool {
		t = strip(t)
		if !isPureOf(t, "(time.Time).Add") || !isNow(st, t.Args[0]) {
			return false
		}
		m := map[*Term]int64{}
		if linear(t.Args[1], 1, m) != 0 || len(m) != 1 {
			return false
		}
		for t, k := range m {
			return k == -1 && max(t)
		}
		return false
	}
	expiry := func(t *Term) bool {
		t = strip(t)
		return isPureOf(t, "(time.Time).Add") && strip(t.Args[0]) == m && max(t.Args[1])
	}
	ret := known(st, func(c *Term) bool {
		switch {
		case isPureOf(c, "(time.Time).Before"):
			return strip(c.Args[0]) == m && oldest(c.Args[1]) || expiry(c.Args[0]) && isNow(st, c.Args[1])
		case isPureOf(c, "(time.Time).After"):
			return strip(c.Args[1]) == m && oldest(c.Args[0]) || expiry(c.Args[1]) && isNow(st, c.Args[0])
		case c.K == KBin && c.Aux == "<":
			l := map[*Term]int64{}
			if n := linear(c.Args[1], 1, l) + linear(c.Args[0], -1, l); n != 0 || len(l) != 2 {
				return false
			}
			a, b := false, false
			for t, k := range l {
				a = a || k == 1 && age(t)
				b = b || k == -1 && max(t)
			}
			return a && b
		}
		return false
	})
	if ret >= 0 {
		return ret
	}
	// the other way round
	switch known(st, func(c *Term) bool {
		if c.K != KBin || c.Aux != "<" {
			return false
		}
		l := map[*Term]int64{}
		if n := linear(c.Args[1], 1, l) + linear(c.Args[0], -1, l); n != 0 || len(l) != 2 {
			return false
		}
		a, b := false, false
		for t, k := range l {
			a = a || k == -1 && age(t)
			b = b || k == 1 && max(t)
		}
		return a && b
	}) {
	case 1:
		return 0
	case 0:
		return 1
	}
	return -1
}

func (d *disk) expired(x *Exec, st *State, e *Term) int {
	if attrHas(x.attrOf1(st, e), "unexpired") {
		return 0
	}
	on, _ := d.setting(st, d.maxage)
	if on == 0 {
		return 0
	}
	switch a := d.aged(st, d.field(x, st, e, d.etime)); {
	case a == 0:
		return 0
	case a == 1 && on == 1:
		return 1
	}
	return -1
}

// over: 1 the sizes kept so far and e's are known to exceed the maximum size,
// 0 they are known not to, -1 neither; with the quantities the sizes were
// compared with: the sum kept (used) or the room left.
func (d *disk) over(x *Exec, st *State, e *Term) (ret int, kept *Term, room bool) {
	on, max := d.setting(st, d.maxsize)
	if on == 0 {
		return 0, nil, false
	}
	if on < 0 {
		return -1, nil, false
	}
	size := strip(d.field(x, st, e, d.esize))
	try := func(c *Term, val bool) bool {
		if c.K != KBin || c.Aux != "<" {
			return false
		}
		l := map[*Term]int64{}
		n := linear(c.Args[1], 1, l) + linear(c.Args[0], -1, l)
		if n != 0 {
			return false
		}
		// l > 0 if val, else l <= 0
		switch l[size] {
		case 1: // l is what is too much
			if val {
				ret = 1
			} else {
				ret = 0
			}
		case -1: // l is what would be left; it is decided whether it is more than 0
			return false
		default:
			return false
		}
		delete(l, size)
		switch {
		case max != nil && l[max] == -1:
			delete(l, max)
			switch len(l) {
			case 0:
				kept = tZeroInt
				return true
			case 1:
				for t, k := range l {
					kept = t
					return k == 1
				}
			}
		case len(l) == 1:
			for t, k := range l {
				kept, room = t, true
				return k == -1
			}
		}
		return false
	}
	for _, v := range []bool{true, false} {
		for _, c := range st.G("cmp" + strconv.FormatBool(v)) {
			if try(c, v) {
				return ret, kept, room
			}
		}
	}
	return -1, nil, false
}

// attrOf1 is what is known of a term, without asking the hook.
func (x *Exec) attrOf1(st *State, t *Term) string {
	a := st.attr[t]
	if t.K == KLoad && t.Args[0].K == KIndexAddr {
		a = attrOr(a, x.elemOf(st, t.Args[0].Args[0]))
	}
	return a
}

func (d *disk) isEntry(t *Term) bool {
	return t.Typ != nil && namedOf(t.Typ) == d.entry
}

// sameEntry: 1 v and e are known to be the same entry, 0 known not to be.
func (d *disk) sameEntry(x *Exec, st *State, v, e *Term) int {
	if v == e {
		return 1
	}
	vt, et := strip(d.field(x, st, v, d.etime)), strip(d.field(x, st, e, d.etime))
	eq := func(c, a, b *Term) bool {
		return c.K == KBin && c.Aux == "==" && (c.Args[0] == a && c.Args[1] == b || c.Args[0] == b && c.Args[1] == a)
	}
	return known(st, func(c *Term) bool {
		if isPureOf(c, "(time.Time).Equal") {
			a, b := strip(c.Args[0]), strip(c.Args[1])
			return a == vt && b == et || a == et && b == vt
		}
		return eq(c, v, e) || eq(c, vt, et)
	})
}

// gone: 1 the error is known to say that there is no such file, 0 known not to.
func gone(st *State, err *Term) int {
	return known(st, func(c *Term) bool {
		switch {
		case isPureOf(c, "errors.Is"):
			return c.Args[0] == err && isGlobalLoad(c.Args[1], "os.ErrNotExist") || c.Args[0] == err && isGlobalLoad(c.Args[1], "io/fs.ErrNotExist")
		case isPureOf(c, "os.IsNotExist"):
			return c.Args[0] == err
		}
		return false
	})
}

func isGlobalLoad(t *Term, name string) bool {
	return anyTerm(t, func(t *Term) bool { return t.K == KGlobal && t.Aux == name })
}

// newer verifies an ordering function: given two entries, it says whether the
// first one is the newer (or, returning an int, puts the newer first).
func (d *disk) newer(x *Exec, st *State, less *Term, entries func(p []*Term) (a, b *Term)) bool {
	fn := less.Fn
	if fn == nil {
		return false
	}
	q := st.clone()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkParam(p.Name()+"?", p.Type()))
	}
	var free []*Term
	if less.K == KClosure {
		free = less.Args
	}
	outs := x.execFn(fn, args, free, q, in.ctx(nil, nil, fn, "then"), nil)
	n := 0
	for _, o := range outs {
		if o.panic {
			return false
		}
		n++
		a, b := entries(args)
		ta, tb := strip(d.field(x, o.st, a, d.etime)), strip(d.field(x, o.st, b, d.etime))
		later := func(t *Term) int { // 1: t says a is later, 0: says it is not (or equal)
			t = strip(t)
			switch {
			case isPureOf(t, "(time.Time).After") && strip(t.Args[0]) == ta && strip(t.Args[1]) == tb,
				isPureOf(t, "(time.Time).Before") && strip(t.Args[0]) == tb && strip(t.Args[1]) == ta:
				return 1
			}
			return 0
		}
		units := func(t *Term, of *Term) bool {
			return isPureOf(t, "(time.Time).UnixNano") && strip(t.Args[0]) == of
		}
		r := strip(o.res)
		switch {
		case later(r) == 1:
		case isPureOf(r, "(time.Time).Compare") && strip(r.Args[0]) == tb && strip(r.Args[1]) == ta:
		case r.K == KBin && r.Aux == "<" && (units(r.Args[0], tb) && units(r.Args[1], ta) ||
			isPureOf(r.Args[0], "(time.Time).Compare") && isInt(r.Args[1], 0) && strip(r.Args[0].Args[0]) == tb && strip(r.Args[0].Args[1]) == ta ||
			isInt(r.Args[0], 0) && isPureOf(r.Args[1], "(time.Time).Compare") && strip(r.Args[1].Args[0]) == ta && strip(r.Args[1].Args[1]) == tb):
		default:
			// decided before, or the two are of the same time
			eq, lt, gt := -1, -1, -1
			for c, v := range o.st.atoms {
				k := 0
				if v {
					k = 1
				}
				switch {
				case isPureOf(c, "(time.Time).Equal") && (strip(c.Args[0]) == ta && strip(c.Args[1]) == tb || strip(c.Args[0]) == tb && strip(c.Args[1]) == ta):
					eq = k
				case isPureOf(c, "(time.Time).After") && strip(c.Args[0]) == ta && strip(c.Args[1]) == tb,
					isPureOf(c, "(time.Time).Before") && strip(c.Args[0]) == tb && strip(c.Args[1]) == ta:
					gt = k
				case isPureOf(c, "(time.Time).After") && strip(c.Args[0]) == tb && strip(c.Args[1]) == ta,
					isPureOf(c, "(time.Time).Before") && strip(c.Args[0]) == ta && strip(c.Args[1]) == tb:
					lt = k
				}
			}
			yes := r == tTrue || r.K == KConst && o.st.entailsDiff(r, tZeroInt, -1)
			no := r == tFalse || r.K == KConst && o.st.entailsDiff(tZeroInt, r, -1)
			switch {
			case eq == 1 || lt == 0 && gt == 0:
			case gt == 1 && yes:
			case lt == 1 && no:
			case gt == 0 && r == tFalse:
			case gt == 0 && eq == 0 && no:
			default:
				return false
			}
		}
	}
	return n > 0
}

func isSort(name string) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable":
		return true
	}
	return false
}

// sorted: the call sorts the list newest first.
func (d *disk) sorted(x *Exec, st *State, c *Call) (list *Term, ok bool) {
	list = strip(c.Arg(0))
	el := func(p *Term) *Term {
		return x.load(st, in.mk(Term{K: KIndexAddr, Args: []*Term{list, p}, Typ: types.NewPointer(d.entry)}), d.entry)
	}
	switch c.Name {
	case "sort.Slice", "sort.SliceStable":
		return list, d.newer(x, st, c.Arg(1), func(p []*Term) (a, b *Term) {
			if len(p) != 2 {
				return nil, nil
			}
			return el(p[0]), el(p[1])
		})
	case "slices.SortFunc", "slices.SortStableFunc":
		return list, d.newer(x, st, c.Arg(1), func(p []*Term) (a, b *Term) { return p[0], p[1] })
	}
	t := c.Arg(0)
	if t.K != KIface {
		return list, false
	}
	T := t.Typ
	if _, ok := T.Underlying().(*types.Interface); ok {
		T = t.Args[0].Typ
	}
	fn := d.r.P.Method(T, "Less")
	if fn == nil || len(fn.Params) != 3 {
		return list, false
	}
	return list, d.newer(x, st, in.mk(Term{K: KFunc, Fn: fn}), func(p []*Term) (a, b *Term) {
		at := func(i *Term) *Term {
			return x.load(st, in.mk(Term{K: KIndexAddr, Args: []*Term{p[0], i}, Typ: types.NewPointer(d.entry)}), d.entry)
		}
		return at(p[1]), at(p[2])
	})
}

// cellsOf are the numbers kept in memory.
func cellsOf(st *State) map[*Term]*Term {
	out := map[*Term]*Term{}
	for a, v := range st.mem {
		if a.K == KAlloc && intTyped(v) {
			out[a] = v
		}
	}
	return out
}

// sweeping runs the sweep for the rules of id.
func (d *disk) sweeping(id string) {
	r := d.r
	fn := d.method("sweep")
	if fn == nil {
		return
	}
	where := fnLabel(fn)
	rep := func(on, rule, what string, pos token.Pos, st *State, f string, args ...any) {
		if on == id {
			r.Report(rule, what, pos, st, f, args...)
		}
	}
	ob := func(on, rule, what string) {
		if on == id {
			r.Ob(rule, what)
		}
	}
	fl := &flow{P: r.P}
	fl.isMap = func(st *State, m *Term, i ssa.Instruction) bool { return d.isIndexRead(m, i) }
	// victim: the entry is one to remove.
	victim := func(x *Exec, st *State, e *Term) bool {
		if attrHas(x.attrOf1(st, e), "victim") || d.expired(x, st, e) == 1 {
			return true
		}
		o, _, _ := d.over(x, st, e)
		return o == 1
	}
	// the entries being looked at
	current := func(st *State) []*Term {
		var out []*Term
		for _, l := range st.G("turns") {
			if t := st.G("turn:" + l.Aux); len(t) == 4 {
				out = append(out, t[1])
				if t[2] != tNil {
					out = append(out, in.mk(Term{K: KTuple, Args: []*Term{t[0], t[2]}}))
				}
			}
		}
		return out
	}
	keyOf := func(x *Exec, st *State, e *Term) *Term {
		return strip(d.field(x, st, e, d.ekey))
	}
	// isKey: k is the key of e.
	isKey := func(x *Exec, st *State, k, e *Term) bool {
		if exactKey(k, keyOf(x, st, e)) {
			return true
		}
		for _, l := range st.G("turns") {
			if t := st.G("turn:" + l.Aux); len(t) == 4 && t[1] == e && t[2] != tNil && exactKey(k, t[2]) {
				return true
			}
		}
		return false
	}
	// outcome: what became of a victim in this turn.
	outcome := func(x *Exec, st *State, e *Term) bool {
		for _, k := range st.G("deleted") {
			if isKey(x, st, k, e) {
				return true
			}
		}
		for _, t := range st.G("in:entry") {
			if isKey(x, st, t.Args[2], e) && (st.refuted(t.Args[1]) || known(st, func(c *Term) bool { return c == t.Args[1] }) == 0 || d.sameEntry(x, st, t.Args[0], e) == 0) {
				return true
			}
		}
		for _, t := range st.G("in:removed") {
			if t.Args[0] == e && st.nonNil(t.Args[1]) && gone(st, t.Args[1]) != 1 {
				return true
			}
		}
		return false
	}
	// together: a removal is followed by the deletion, unless it failed.
	together := func(x *Exec, st *State, pos token.Pos) {
		for _, t := range st.G("in:removed") {
			e, err := t.Args[0], t.Args[1]
			if st.nonNil(err) && gone(st, err) == 0 {
				continue
			}
			done := false
			for _, k := range st.G("deleted") {
				done = done || isKey(x, st, k, e)
			}
			if !done {
				rep("D02", "swept", where, pos, st, "the file of an entry is gone, or may be, and the entry stays in the index")
			}
		}
	}
	badSum := func(st *State, j string) {
		st.AddG("badsum", mkTok(j))
		if st.HasG("usesum", mkTok(j)) {
			st.AddG("wrongsum", mkTok("yes"))
		}
	}
	useSum := func(st *State, j string) {
		st.AddG("usesum", mkTok(j))
		if st.HasG("badsum", mkTok(j)) {
			st.AddG("wrongsum", mkTok("yes"))
		}
	}
	fl.settle = func(x *Exec, st *State, tn turn, passed bool) bool {
		e := tn.e
		what := topFn2(tn.loop)
		together(x, st, tn.pos)
		if attrHas(x.attrOf1(st, e), "victim") {
			ob("D03", "removed", what)
			if !outcome(x, st, e) {
				rep("D03", "removed", what, tn.pos, st, "an entry chosen for removal is neither removed nor found gone or replaced")
			}
			return false
		}
		exp := d.expired(x, st, e)
		ov, kept, room := d.over(x, st, e)
		removed := outcome(x, st, e)
		if kept != nil && !st.HasG("newest", tn.src) {
			rep("D03", "chosen", what, tn.pos, st, "sizes are summed up over entries that are not known to be ordered newest first")
		}
		// the numbers that may be the sum
		size := strip(d.field(x, st, e, d.esize))
		_, max := d.setting(st, d.maxsize)
		first := !st.HasG("begun", tn.loop)
		st.AddG("begun", tn.loop)
		any := false
		step := func(j string, cur, next *Term) {
			if cur == nil || next == nil || !intTyped(next) {
				return
			}
			l := map[*Term]int64{}
			n := linear(next, 1, l) + linear(cur, -1, l)
			for _, rm := range []bool{false, true} {
				name, sign := "used:"+j, int64(1)
				if rm {
					name, sign = "room:"+j, -1
				}
				good := true
				if first {
					good = cur == tZeroInt
					if rm {
						good = max != nil && strip(cur) == max
					}
				}
				zero := n == 0 && len(l) == 0
				grown := n == 0 && len(l) == 1 && l[size] == sign
				switch {
				case exp == 1:
					good = good && (zero || grown) // nothing newer follows
				case ov == 1:
					good = good && zero
				case exp == 0 && ov == 0 && kept != nil:
					good = good && grown
				case exp == 0 && ov == 0:
				default:
					good = good && zero
				}
				if !good {
					badSum(st, name)
				}
				if kept != nil && (rm == room && kept == cur || rm && !room && kept == tZeroInt && strip(cur) == max) {
					if good && !st.HasG("badsum", mkTok(name)) {
						any = true
					}
					if kept.K != KConst && kept != max {
						useSum(st, name)
					}
				}
			}
		}
		for j := range tn.next {
			step(tn.loop.Aux+"/"+strconv.Itoa(j), tn.curs[j], tn.next[j])
		}
		for a, v := range cellsOf(st) {
			for _, c := range st.G("cell:" + strconv.Itoa(a.ID)) {
				step("cell"+strconv.Itoa(a.ID), c, v)
			}
		}
		st.ClearG("cells")
		ob("D03", "chosen", what)
		if kept != nil && (!any || st.HasG("wrongsum", mkTok("yes"))) {
			rep("D03", "chosen", what, tn.pos, st, "what is compared with the maximum size is not the sizes of the entries kept and of this one")
		}
		switch {
		case exp == 1 || ov == 1 && exp == 0:
			if removed {
				return false
			}
			if !passed {
				rep("D03", "chosen", what, tn.pos, st, "an entry known to be expired, or not to fit, is not removed")
				return false
			}
			return true
		case ov == 1 && passed:
			return true
		case ov == 1 && removed:
			return false
		case exp == 0 && ov == 0:
			return false
		case passed:
			return true
		default:
			rep("D03", "chosen", what, tn.pos, st, "an entry is kept although it is not known to be within the limits")
			return false
		}
	}
	h := &Hooks{}
	h.AttrOf = func(x *Exec, st *State, t *Term) string {
		if !d.isEntry(t) {
			return ""
		}
		if victim(x, st, t) {
			return "victim"
		}
		if d.expired(x, st, t) == 0 {
			return "unexpired"
		}
		return ""
	}
	h.Load = func(x *Exec, st *State, addr, v *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && (addr.Fld == d.maxage || addr.Fld == d.maxsize) {
			st.AddG("limit", v)
		}
		a := addr
		for a.K == KFieldAddr {
			a = a.Args[0]
		}
		if a.K == KIndexAddr && fl.tracked(st, a.Args[0]) {
			// a turn begins
			if st.HasG("cells", a.Args[1]) {
				return
			}
			st.SetG("cells", a.Args[1])
			for c, v := range cellsOf(st) {
				st.SetG("cell:"+strconv.Itoa(c.ID), v)
			}
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		c, v := cond, val
		if c.K == KUn {
			c, v = c.Args[0], !v
		}
		if c.K == KHas || c.K == KBin && (c.Aux == "<" || c.Aux == "==") || c.K == KPure || c.K == KCall {
			cur := current(st)
			if anyTerm(c, func(t *Term) bool {
				for _, e := range cur {
					if mentions(t, e) || e.K == KTuple && t == e.Args[1] {
						return true
					}
				}
				return t.K == KCall && t.Aux == "os.Remove"
			}) {
				st.AddG("cmp"+strconv.FormatBool(v), c)
			}
		}
	}
	h.MapRead = func(x *Exec, st *State, m, k *Term, i ssa.Instruction) {
		if !d.isIndexRead(m, i) {
			return
		}
		what := topFn(i.Parent())
		ob("D02", "swept", what)
		shared := false
		for _, l := range st.locks {
			shared = shared || sharedFrom(l.lock, d.recv)
		}
		if !shared {
			rep("D02", "swept", what, i.Pos(), st, "the index is read without its lock")
		}
		if k == nil {
			return
		}
		v, has := x.mapGet(st, m, k, d.entry)
		st.AddG("in:entry", in.mk(Term{K: KTuple, Args: []*Term{v, has, k}}))
	}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if i == nil || !d.isIndex(m, i) {
			return
		}
		what := topFn(i.Parent())
		ob("D02", "swept", what)
		if v != nil {
			rep("D02", "swept", what, i.Pos(), st, "sweeping adds to the index")
			return
		}
		if !heldExclusive(st, d.recv) {
			rep("D02", "swept", what, i.Pos(), st, "the index is changed without its lock")
		}
		ok := false
		for _, t := range st.G("in:removed") {
			e, err := t.Args[0], t.Args[1]
			if isKey(x, st, k, e) && (st.isNil(err) || gone(st, err) == 1) {
				ok = true
			}
		}
		if !ok {
			rep("D02", "swept", what, i.Pos(), st, "an entry leaves the index although its file is not known to be gone")
		}
		st.AddG("deleted", k)
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		switch {
		case isUnlock(c.Name):
			together(x, st, c.Pos())
			left(st)
		case c.Res != nil && c.Res.Typ != nil && types.TypeString(c.Res.Typ, nil) == "time.Time" && c.Fn == nil && len(c.Args) == 0:
			st.AddG("now", c.Res)
		case isSort(c.Name):
			if list, ok := d.sorted(x, st, c); ok {
				st.AddG("newest", list)
			} else if list != nil {
				st.DelG("newest", list)
			}
		case c.Name == "os.Remove" || c.Name == "os.RemoveAll":
			ob("D02", "swept", what)
			p := strip(c.Arg(0))
			var e *Term
			for _, t := range current(st) {
				if t.K == KTuple || !d.isEntry(t) {
					continue
				}
				if p == strip(d.field(x, st, t, d.epath)) {
					e = t
				}
				if n := d.inDir(st, p); n != nil && d.name(n, keyOf(x, st, t)) {
					e = t
				}
			}
			var looked *Term
			for _, t := range st.G("in:entry") {
				v := t.Args[0]
				for _, cur := range current(st) {
					if cur.K == KTuple || !d.isEntry(cur) || !isKey(x, st, t.Args[2], cur) {
						continue
					}
					if e == nil && p == strip(d.field(x, st, v, d.epath)) {
						e = cur
					}
					if (st.holds(t.Args[1]) || known(st, func(c *Term) bool { return c == t.Args[1] }) == 1 || v == cur) && d.sameEntry(x, st, v, cur) == 1 {
						looked = cur
					}
				}
			}
			if e == nil {
				rep("D02", "swept", what, c.Pos(), st, "a file is removed that is not an entry's: %v", p)
				return
			}
			if !heldExclusive(st, d.recv) {
				rep("D02", "swept", what, c.Pos(), st, "a file is removed without the index lock")
			}
			// still the one examined: seen in the index since the lock was taken
			if looked != e && !st.HasG("in:val", e) {
				rep("D02", "swept", what, c.Pos(), st, "a file is removed although the index may hold a newer entry for its key")
			}
			ob("D03", "removed", what)
			if !victim(x, st, e) {
				rep("D03", "removed", what, c.Pos(), st, "an entry is removed that is not known to be expired, or not to fit")
			}
			inside(st, "removed", in.mk(Term{K: KTuple, Args: []*Term{e, c.Err()}}))
		}
	}
	fl.hooks(h)
	// entries read from the index in this critical section
	ass := h.Assume
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		ass(x, st, cond, val, i)
		if cond.K == KGen && cond.Aux == "more" && val {
			for _, e := range current(st) {
				if d.isEntry(e) && e.K == KGen {
					inside(st, "val", e)
				}
			}
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		d.recv = args[0]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		ob("D03", "all", where)
		a, _ := d.setting(st, d.maxage)
		s, _ := d.setting(st, d.maxsize)
		if a == 0 && s == 0 {
			return
		}
		read := false
		for _, m := range st.G("exhausted") {
			if m.Typ != nil {
				if _, ok := m.Typ.Underlying().(*types.Map); ok && !st.HasG("dropped", m) {
					read = true
				}
			}
		}
		switch l := fl.outstanding(st); {
		case len(st.G("exhausted")) == 0 || !read:
			rep("D03", "all", where, token.NoPos, st, "not every entry of the index is looked at")
		case l != "":
			rep("D03", "all", where, token.NoPos, st, "not every entry is looked at, or not every one chosen removed (%s)", l)
		}
	})
}

func topFn2(loop *Term) string { return loop.Aux }

func checkD03(r *Result) {
	d := newDisk(r)
	if d == nil {
		return
	}
	if d.maxage == nil || d.maxsize == nil {
		r.Missing("the maximum age and size")
		return
	}
	d.sweeping("D03")
	r.Need("chosen", 1)
	r.Need("removed", 1)
	r.Need("all", 1)
}
