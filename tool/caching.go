package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "at every exit of every strategy's cache decision that allows caching: the method is known to be GET or HEAD, the Range, Content-Range and Authorization headers to be empty, and no-store to be absent from the tokens of every Cache-Control line; in the cache's Do no storage operation and no wrapping of a body lies on a path where the decision was no, and the request then goes to the client as it is; the readers of Cache-Control lose no line, no token and no case", checkC01)
	register("C02", "at every exit of every strategy's store decision, on both answers: the method, the set of status codes, no-store on either side, the Date and the lifetime as the statement says; in Do and validation a body is wrapped for storing exactly on the paths where the decision was yes (or a 304 validated the stored response)", checkC02)
	register("C03", "every exit of the cache's Do: the response returned is the client's answer to this request, or the loaded one on a path where its freshness is known, or the validation was answered 304, or 5xx with stale-if-error in the request; a fresh one is returned without a request", checkC03)
	register("C04", "at every exit of every strategy's freshness decision, on every answer: the comparison that decided is, as a linear combination, lifetime + max-stale - age - min-fresh > 0 with the terms the path's directives call for, and the directives that override it were consulted; durations of directives never wrap", checkC04)
	register("C05", "at the validation request: a clone of the caller's request whose validators are the stored ones unless the caller's are set; at every exit with the stored response after 304: its body is unread and wrapped to be stored again, and a loop over all of the answer's headers copied each but the hop-by-hop ones; a storable full answer is wrapped under the same key", checkC05)
	register("C06", "typestate of the caching reader: every store call lies in the part of Close that runs once, on paths where the source is known to have ended; the flag that says so is set nowhere but where the source returned io.EOF; every byte read is added to the buffer, the value stored is the dump of the response with that buffer as its body, under the reader's key; a failure of the store or of the source's Close is part of what Close returns", checkC06)
	register("C07", "the key given to every storage operation, as a term over the request: a hash of a text with both the method and the complete URL; the same term when loading and when wrapping for storing; the in-memory storage reads and writes under the key it is given", checkC07)
}

// ---- loops over lists -------------------------------------------------------------------

// walk follows loops over lists, nested ones too: a list is complete when a
// loop went through all of it and every element satisfied ok.
type walk struct {
	P       *Prog
	tracked func(st *State, s *Term) bool
	ok      func(x *Exec, st *State, elem, list *Term) bool
}

func (w *walk) loop(i ssa.Instruction) *ssa.BasicBlock {
	b := i.Block()
	var best *ssa.BasicBlock
	n := 0
	for h, body := range w.P.info(i.Parent()).headers {
		if body[b] && (best == nil || len(body) < n) {
			best, n = h, len(body)
		}
	}
	return best
}

func curKey(s *Term) string { return "cur" + strconv.Itoa(s.ID) }

func (w *walk) load(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
	if addr.K != KIndexAddr || !w.tracked(st, addr.Args[0]) {
		return
	}
	s, idx := addr.Args[0], addr.Args[1]
	if st.HasG("exhausted", s) {
		st.DelG("exhausted", s)
		st.DelG("dropped", s)
		st.DelG("first", s)
	}
	if !st.HasG("first", s) {
		if st.entailsDiff(mkInt(1), idx, 0) {
			st.AddG("dropped", s)
		}
		st.AddG("first", s)
	}
	h := w.loop(i)
	at := mkTok("?")
	if h != nil {
		at = mkTok(fnLabel(i.Parent()) + "#" + strconv.Itoa(h.Index))
	} else {
		st.AddG("dropped", s)
	}
	st.AddG("walked", s)
	st.SetG(curKey(s), in.mk(Term{K: KTuple, Args: []*Term{val, at}}))
}

func (w *walk) assume(x *Exec, st *State, cond *Term, val bool) {
	if cond.K == KUn {
		cond, val = cond.Args[0], !val
	}
	if cond.K == KBin && cond.Aux == "<" && !val && cond.Args[1].K == KLen && w.tracked(st, cond.Args[1].Args[0]) {
		st.AddG("exhausted", cond.Args[1].Args[0])
		st.AddG("walked", cond.Args[1].Args[0])
	}
}

func (w *walk) backEdge(x *Exec, st *State, fr *frame, h *ssa.BasicBlock, phis []*Term) {
	// what was found out about this turn is of no use in the next
	defer func() {
		for _, g := range []string{"fact", "cmptrue", "cmpfalse", "number", "parsed"} {
			for _, t := range st.G(g) {
				if anyTerm(t, func(t *Term) bool { return t.K == KPhi || t.K == KMemPhi || t.K == KIndexAddr }) {
					st.DelG(g, t)
				}
			}
		}
	}()
	at := mkTok(fnLabel(fr.fn) + "#" + strconv.Itoa(h.Index))
	for _, s := range st.G("walked") {
		for _, c := range st.G(curKey(s)) {
			if c.Args[1] != at {
				continue
			}
			e := c.Args[0]
			if !w.ok(x, st, e, s) {
				st.AddG("dropped", s)
			}
			st.ClearG(curKey(s))
			for _, g := range []string{"kept", "walked", "exhausted", "dropped", "first"} {
				for _, t := range st.G(g) {
					if t != s && contains(t, e) {
						st.DelG(g, t)
						st.ClearG(curKey(t))
					}
				}
			}
		}
	}
}

func (w *walk) complete(st *State, s *Term) bool {
	return st.HasG("exhausted", s) && !st.HasG("dropped", s)
}

func (w *walk) hooks(h *Hooks) *Hooks {
	load, ass, back := h.Load, h.Assume, h.BackEdge
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		w.load(x, st, addr, val, i)
		if load != nil {
			load(x, st, addr, val, i)
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		w.assume(x, st, cond, val)
		if ass != nil {
			ass(x, st, cond, val, i)
		}
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
		w.backEdge(x, st, fr, b, phis)
		if back != nil {
			back(x, st, fr, b, phis)
		}
	}
	return h
}

// normal: t is e with space trimmed and in lower case (each unless e already is).
func normal(t, e *Term, done bool) bool {
	lower, trim := done, done
	for {
		t = strip(t)
		switch {
		case t == e:
			return lower && trim
		case isPureOf(t, "strings.ToLower"):
			lower = true
		case isPureOf(t, "strings.TrimSpace"):
			trim = true
		default:
			return false
		}
		t = t.Args[0]
	}
}

// ---- the cache --------------------------------------------------------------------------

type caching struct {
	r      *Result
	strats []types.Type
	iface  *types.Interface
	dirT   types.Type
	from   *ssa.Function // directivesFrom
	has    *ssa.Function
	dur    *ssa.Function
	rt, qt types.Type
	wk     *walk
}

func newCaching(r *Result) *caching {
	P := r.P
	c := &caching{r: r, rt: P.httpResp(), qt: P.httpReq()}
	c.from = P.Func(pCache, "directivesFrom")
	if n := P.Named(pCache, "directives"); n != nil {
		c.dirT = n
		c.has, c.dur = P.Meth(pCache, "directives", "has"), P.Meth(pCache, "directives", "duration")
	}
	T := P.Named(pCache, "Cache")
	if T == nil || c.from == nil || c.dur == nil {
		r.Missing("the cache and the reader of Cache-Control directives")
		return nil
	}
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		it, ok := s.Field(i).Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		has := func(m string) bool {
			for k := 0; k < it.NumMethods(); k++ {
				if it.Method(k).Name() == m {
					return true
				}
			}
			return false
		}
		if has("cache") && has("store") && has("fresh") {
			c.iface = it
			c.strats = P.Implementers(it)
		}
	}
	if len(c.strats) == 0 {
		r.Missing("the cache's strategies")
		return nil
	}
	c.wk = &walk{P: P}
	c.wk.tracked = func(st *State, s *Term) bool {
		return isPureOf(s, "tokens", "strings.Split", "strings.FieldsFunc") || c.isLines(s)
	}
	return c
}

func (c *caching) method(T types.Type, name string) *ssa.Function {
	return c.r.P.Method(T, "("+pCache+".strategy)."+name)
}

// decision names the strategy method fn implements.
func (c *caching) decision(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil || fnPkg(fn) != pCache {
		return ""
	}
	switch n := fn.Name(); n {
	case "cache", "store", "fresh":
		for _, T := range c.strats {
			if namedOf(T) != nil && namedOf(T) == namedOf(fn.Signature.Recv().Type()) {
				return n
			}
		}
	}
	return ""
}

// lines is the list of the values of the header field name in h.
func (c *caching) lines(x *Exec, st *State, h *Term, name string) *Term {
	v, _ := x.mapGet(st, h, mkStr(name), types.NewSlice(types.Typ[types.String]))
	return v
}

func (c *caching) isLines(t *Term) bool {
	return t != nil && t.K == KLookup && len(t.Args) > 1 && isSep(t.Args[1], "Cache-Control")
}

// tokenizer: fn splits a text into a list.
func tokenizer(fn *ssa.Function) bool {
	sig := fn.Signature
	if fn.Parent() != nil || sig.Recv() != nil || fnPkg(fn) != pCache || sig.Results().Len() != 1 || sig.Params().Len() == 0 || sig.Params().Len() > 2 {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !isStringT(sig.Params().At(i).Type()) {
			return false
		}
	}
	sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
	return ok && isStringT(sl.Elem())
}

func (c *caching) opaque(fn *ssa.Function) bool {
	return fn == c.from || fn == c.dur || tokenizer(fn)
}

// override gives the readers of Cache-Control as functions of what they read.
func (c *caching) override(x *Exec, st *State, call *Call) []Outcome {
	if call.Fn == nil {
		return nil
	}
	switch {
	case call.Fn == c.from:
		return one(st, mkPure("directives", c.dirT, c.lines(x, st, call.Arg(0), "Cache-Control")))
	case call.Fn == c.dur:
		d, n := call.Args[0], call.Args[1]
		return one(st, in.mk(Term{K: KTuple, Args: []*Term{c.durOf(d, n), c.durOK(d, n)}}))
	case tokenizer(call.Fn):
		sep := mkStr(",")
		if len(call.Args) > 1 {
			sep = call.Args[1]
		}
		return one(st, mkPure("tokens", types.NewSlice(types.Typ[types.String]), call.Args[0], sep))
	}
	return nil
}

func (c *caching) durOf(d, n *Term) *Term {
	return mkPure("dur", c.r.P.stdType("time", "Duration"), d, n)
}
func (c *caching) durOK(d, n *Term) *Term { return mkPure("durok", types.Typ[types.Bool], d, n) }

// keep remembers the results of pure functions decisions are made of.
func (c *caching) keep(x *Exec, st *State, call *Call) {
	switch {
	case call.Res == nil:
	case strings.HasPrefix(call.Name, "time.Parse"), call.Name == "net/http.ParseTime":
		st.AddG("parsed", call.Res)
		st.AddG("fact", call.Res)
	case strings.HasPrefix(call.Name, "time."), strings.HasPrefix(call.Name, "(time.Time)."), strings.HasPrefix(call.Name, "strings."), strings.HasPrefix(call.Name, "slices."):
		st.AddG("fact", call.Res)
	}
}

func (c *caching) base() *Hooks {
	h := &Hooks{Opaque: c.opaque, Override: c.override, Call: c.keep}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		if cond.K == KUn && cond.Aux == "!" {
			cond, val = cond.Args[0], !val
		}
		if cond.K == KBin && (cond.Aux == "<" || cond.Aux == "==") {
			st.AddG("cmp"+strconv.FormatBool(val), cond)
		}
	}
	h.MapRead = func(x *Exec, st *State, m, k *Term, i ssa.Instruction) {
		if isPureOf(m, "directives") && k != nil {
			_, has := x.mapGet(st, m, k, types.Typ[types.String])
			st.AddG("fact", has)
		}
	}
	c.wk.ok = func(x *Exec, st *State, e, list *Term) bool {
		if c.isLines(list) {
			for _, s := range st.G("walked") {
				if c.tokensOf(s, e) && c.wk.complete(st, s) {
					return true
				}
			}
			return false
		}
		return c.differs(st, e, isPureOf(list, "tokens"), "no-store")
	}
	return c.wk.hooks(h)
}

// tokensOf: s are the tokens of the text t.
func (c *caching) tokensOf(s, t *Term) bool {
	return isPureOf(s, "tokens", "strings.Split") && strip(s.Args[0]) == t && isSep(s.Args[1], ",")
}

// differs: the token e is known to be another than name.
func (c *caching) differs(st *State, e *Term, done bool, name string) bool {
	ok := false
	look := func(t *Term) bool {
		switch {
		case t.K == KBin && t.Aux == "==":
			for k := 0; k < 2; k++ {
				if isSep(t.Args[1-k], name) && normal(t.Args[k], e, done) && st.refuted(t) {
					ok = true
				}
			}
		case isPureOf(t, "strings.EqualFold") && st.refuted(t):
			for k := 0; k < 2; k++ {
				if isSep(t.Args[1-k], name) && normal(mkPure("strings.ToLower", types.Typ[types.String], t.Args[k]), e, done) {
					ok = true
				}
			}
		}
		return false
	}
	for a, v := range st.atoms {
		if !v {
			look(a)
		}
	}
	if done && st.refuted(mkEq(e, mkStr(name))) {
		ok = true
	}
	return ok
}

// allTokens: s has every token of the given lines.
func (c *caching) allTokens(s, lines *Term) bool {
	if !isPureOf(s, "tokens", "strings.Split") || !isSep(s.Args[1], ",") {
		return false
	}
	j := strip(s.Args[0])
	for isPureOf(j, "strings.ToLower") {
		j = strip(j.Args[0])
	}
	if !isPureOf(j, "strings.Join") || strip(j.Args[0]) != lines {
		return false
	}
	sep, ok := j.Args[1].isStr()
	return ok && strings.Contains(sep, ",")
}

func (c *caching) dirs(x *Exec, st *State, h *Term) *Term {
	return mkPure("directives", c.dirT, c.lines(x, st, h, "Cache-Control"))
}

// present: whether the header h has the directive: 1, 0, or -1 not known.
func (c *caching) present(x *Exec, st *State, h *Term, name string) int {
	d := c.dirs(x, st, h)
	_, has := x.mapGet(st, d, mkStr(name), types.Typ[types.String])
	if st.holds(has) || st.holds(c.durOK(d, mkStr(name))) {
		return 1
	}
	if st.refuted(has) || st.isNil(d) {
		return 0
	}
	l := c.lines(x, st, h, "Cache-Control")
	if l == tNil || st.isNil(l) {
		return 0
	}
	if name == "no-store" {
		for _, s := range st.G("walked") {
			if (s == l || c.allTokens(s, l)) && c.wk.complete(st, s) {
				return 0
			}
		}
		for _, t := range st.G("fact") {
			if isPureOf(t, "slices.Contains") && c.allTokens(strip(t.Args[0]), l) && isSep(t.Args[1], name) {
				if st.refuted(t) {
					return 0
				}
				if st.holds(t) {
					return 1
				}
			}
			if isPureOf(t, "strings.Contains") && isSep(t.Args[1], name) && st.refuted(t) {
				a := strip(t.Args[0])
				if isPureOf(a, "strings.ToLower") && isPureOf(strip(a.Args[0]), "strings.Join") && strip(strip(a.Args[0]).Args[0]) == l {
					return 0
				}
			}
		}
		// a token found to be it
		for a, v := range st.atoms {
			if v && a.K == KBin && a.Aux == "==" && (isSep(a.Args[1], name) || isSep(a.Args[0], name)) &&
				anyTerm(a, func(t *Term) bool { return t == l }) {
				return 1
			}
			if v && isPureOf(a, "strings.EqualFold") && anyTerm(a, func(t *Term) bool { return t == l }) {
				return 1
			}
		}
	}
	return -1
}

// seconds: whether the directive has a duration: 1, 0, -1; and which.
func (c *caching) seconds(x *Exec, st *State, h *Term, name string) (int, *Term) {
	d, n := c.dirs(x, st, h), mkStr(name)
	switch ok := c.durOK(d, n); {
	case st.holds(ok):
		return 1, c.durOf(d, n)
	case st.refuted(ok), c.present(x, st, h, name) == 0:
		return 0, nil
	}
	return -1, nil
}

// time: whether header h has a valid time under name: 1, 0, -1; and which.
func (c *caching) time(x *Exec, st *State, h *Term, name string) (int, *Term) {
	text := x.headerGet(st, h, mkStr(name))
	if isEmptyStr(st, text) {
		return 0, nil
	}
	res := -1
	for _, p := range st.G("parsed") {
		arg := p.Args[len(p.Args)-1]
		if p.Aux == "time.Parse" || p.Aux == "time.ParseInLocation" {
			arg = p.Args[1]
			if l, ok := p.Args[0].isStr(); !ok || l != "Mon, 02 Jan 2006 15:04:05 MST" && l != "Mon, 02 Jan 2006 15:04:05 GMT" {
				continue
			}
		} else {
			arg = p.Args[0]
		}
		if strip(arg) != text {
			continue
		}
		e := mkExtract(p, 1, errT)
		t := mkExtract(p, 0, c.r.P.stdType("time", "Time"))
		zero := mkPure("(time.Time).IsZero", types.Typ[types.Bool], t)
		switch {
		case st.nonNil(e) || st.holds(zero):
			res = 0
		case st.isNil(e):
			return 1, t
		}
	}
	return res, nil
}

// fieldsOf reads a request's or response's field.
func (c *caching) get(x *Exec, st *State, v *Term, T types.Type, name string) *Term {
	i, f := c.r.P.Field(T, name)
	return x.load(st, mkFieldAddr(v, i, f), f.Type())
}

func (c *caching) methodIn(x *Exec, st *State, req *Term) int {
	m := c.get(x, st, req, c.qt, "Method")
	if inConsts(st, m, "GET", "HEAD") || st.holds(mkEq(m, mkStr("GET"))) || st.holds(mkEq(m, mkStr("HEAD"))) {
		return 1
	}
	if st.refuted(mkEq(m, mkStr("GET"))) && st.refuted(mkEq(m, mkStr("HEAD"))) {
		return 0
	}
	return -1
}

// answers continues once for each value a boolean result can have.
func answers(st *State, res *Term, f func(q *State, yes bool)) {
	for _, yes := range []bool{true, false} {
		q := st.clone()
		if q.assume(res, yes) {
			f(q, yes)
		}
	}
}

// reads verifies the functions that read Cache-Control.
func (c *caching) reads() {
	c.readsTokens()
	c.readsDirectives()
	c.readsDuration()
}

func (c *caching) readsTokens() {
	r := c.r
	for _, fn := range r.P.Funcs {
		if !tokenizer(fn) {
			continue
		}
		where := fnLabel(fn)
		w := &walk{P: r.P}
		w.tracked = func(st *State, s *Term) bool { return isPureOf(s, "strings.Split") }
		w.ok = func(x *Exec, st *State, e, list *Term) bool {
			r.Ob("tokens", where)
			return st.HasG("kept", e) || isEmptyStr(st, mkPure("strings.TrimSpace", types.Typ[types.String], e)) || isEmptyStr(st, e)
		}
		h := w.hooks(&Hooks{Call: c.keep})
		h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
			for _, el := range els {
				ok := false
				for _, s := range st.G("walked") {
					for _, cur := range st.G(curKey(s)) {
						if normal(el, cur.Args[0], false) {
							st.AddG("kept", cur.Args[0])
							ok = true
						}
					}
				}
				if !ok {
					r.Report("tokens", where, i.Pos(), st, "a token is not a part of the text, trimmed and in lower case: %v", el)
				}
			}
		}
		var params []*Term
		r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) { params = args }, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			r.Ob("tokens", where)
			sep := mkStr(",")
			if len(params) > 1 {
				sep = params[1]
			}
			for _, s := range st.G("walked") {
				if w.complete(st, s) && strip(s.Args[0]) == params[0] && same(st, s.Args[1], sep) {
					return
				}
			}
			if isEmptyStr(st, params[0]) {
				return
			}
			r.Report("tokens", where, token.NoPos, st, "some token of the text may be missing from the list: %v", o.res)
		})
	}
}

func (c *caching) readsDirectives() {
	r := c.r
	fn := c.from
	where := fnLabel(fn)
	w := &walk{P: r.P}
	w.tracked = c.wk.tracked
	w.ok = func(x *Exec, st *State, e, list *Term) bool {
		r.Ob("directives", where)
		if st.HasG("kept", e) || isEmptyStr(st, e) || isEmptyStr(st, mkPure("strings.TrimSpace", types.Typ[types.String], e)) {
			return true
		}
		if c.isLines(list) {
			for _, s := range st.G("walked") {
				if c.tokensOf(s, e) && w.complete(st, s) {
					return true
				}
			}
		}
		return false
	}
	h := w.hooks(&Hooks{Call: c.keep, Opaque: func(f *ssa.Function) bool { return f != fn && c.opaque(f) }, Override: c.override})
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if i == nil || i.Parent() == nil || m.Typ == nil || !types.Identical(m.Typ.Underlying(), c.dirT.Underlying()) {
			return
		}
		bad := "no token is being read"
		for _, s := range st.G("walked") {
			for _, cur := range st.G(curKey(s)) {
				if c.isLines(s) {
					continue
				}
				e := cur.Args[0]
				done := isPureOf(s, "tokens")
				if why := c.entry(st, k, v, e, done); why == "" {
					st.AddG("kept", e)
					bad = ""
				} else if bad != "" {
					bad = why
				}
			}
		}
		if bad != "" {
			r.Report("directives", where, i.Pos(), st, "the entry written is not the token's directive (%s): %v = %v", bad, k, v)
		}
	}
	r.Run(h, fn, where, nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("directives", where)
		l := c.lines(x, st, args[0], "Cache-Control")
		if l == tNil || st.isNil(l) || st.isNil(args[0]) || st.entailsDiff(mkLen(l), tZeroInt, 0) {
			return
		}
		for _, s := range st.G("walked") {
			if (s == l || c.allTokens(s, l)) && w.complete(st, s) {
				return
			}
		}
		r.Report("directives", where, token.NoPos, st, "some directive of some Cache-Control line may be missing")
	})
}

// entry: k and v are the name and the argument of the token e.
func (c *caching) entry(st *State, k, v, e *Term, done bool) string {
	str := types.Typ[types.String]
	clean := func(t *Term) *Term {
		t = strip(t)
		for isPureOf(t, "strings.TrimSpace", "strings.Trim") {
			t = strip(t.Args[0])
		}
		return t
	}
	lowered := func(t *Term) (*Term, bool) {
		d := done
		for {
			t = clean(t)
			if isPureOf(t, "strings.ToLower") {
				d = true
				t = t.Args[0]
				continue
			}
			return t, d
		}
	}
	eq := mkPure("strings.IndexByte", types.Typ[types.Int], e, mkConst(constant.MakeInt64('='), types.Typ[types.Uint8]))
	isEq := func(t *Term) bool {
		return t == eq || isPureOf(t, "strings.IndexByte", "strings.Index", "strings.IndexRune") && isElem(t.Args[0], e) && isSep(t.Args[1], "=")
	}
	// Cut
	cut := func(t *Term, n int) bool {
		return t.K == KExtract && t.I == n && isPureOf(t.Args[0], "strings.Cut") && isElem(t.Args[0].Args[0], e) && isSep(t.Args[0].Args[1], "=")
	}
	k, low := lowered(k)
	if !low {
		return "its case is kept"
	}
	v = clean(v)
	if l, _ := lowered(v); l != v {
		v = l
	}
	split := func(t *Term, n int64) bool {
		if t.K != KIndex && !(t.K == KLoad && t.Args[0].K == KIndexAddr) {
			return false
		}
		a := t
		if t.K == KLoad {
			a = t.Args[0]
		}
		i, ok := a.Args[1].isInt()
		return ok && i == n && isPureOf(strip(a.Args[0]), "strings.SplitN") && isElem(strip(a.Args[0]).Args[0], e)
	}
	switch {
	case isElem(k, e):
		// no argument
		ok := false
		for a, val := range st.atoms {
			if !val && isPureOf(a, "strings.Contains", "strings.ContainsRune") && isElem(a.Args[0], e) && isSep(a.Args[1], "=") || !val && cut(a, 2) {
				ok = true
			}
		}
		for _, t := range st.G("fact") {
			if isEq(t) && (st.entailsDiff(t, tZeroInt, -1) || st.holds(mkEq(t, mkInt(-1)))) {
				ok = true
			}
		}
		if !ok && !isEmptyStr(st, v) {
			return "the argument is part of the name"
		}
		if !ok {
			return "the token may have an argument"
		}
		return ""
	case k.K == KSlice && isElem(k.Args[0], e) && (k.Args[1] == tNil || k.Args[1] == tZeroInt) && isEq(k.Args[2]):
		if v.K == KSlice && isElem(v.Args[0], e) && v.Args[2] == tNil {
			if b, n := lin(v.Args[1]); n == 1 && isEq(b) {
				return ""
			}
		}
		return "its argument is another"
	case cut(k, 0):
		if cut(v, 1) || isEmptyStr(st, v) && st.refuted(mkExtract(k.Args[0], 2, types.Typ[types.Bool])) {
			return ""
		}
		return "its argument is another"
	case split(k, 0):
		if split(v, 1) || isEmptyStr(st, v) {
			return ""
		}
	}
	_ = str
	return "its name is another"
}

// isElem: t is the element, possibly trimmed or lowered.
func isElem(t, e *Term) bool {
	t = strip(t)
	for isPureOf(t, "strings.TrimSpace", "strings.ToLower") {
		t = strip(t.Args[0])
	}
	return t == e
}

const maxDelta = 1 << 32

func (c *caching) readsDuration() {
	r := c.r
	fn := c.dur
	where := fnLabel(fn)
	h := &Hooks{Call: func(x *Exec, st *State, call *Call) {
		c.keep(x, st, call)
		if strings.HasPrefix(call.Name, "strconv.") {
			st.AddG("number", call.Res)
		}
	}}
	r.Run(h, fn, where, nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		td, ok := tupleAt(o.res, 0), tupleAt(o.res, 1)
		text, has := x.mapGet(st, args[0], args[1], types.Typ[types.String])
		answers(st, ok, func(q *State, yes bool) {
			r.Ob("duration", where)
			var num, nerr *Term
			for _, p := range st.G("number") {
				if isPureOf(p, "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi") && isElem(strings_trimmed(p.Args[0]), text) {
					num, nerr = mkExtract(p, 0, nil), mkExtract(p, 1, errT)
					if p.Typ != nil {
						if tt, ok := p.Typ.(*types.Tuple); ok {
							num = mkExtract(p, 0, tt.At(0).Type())
						}
					}
					if len(p.Args) > 1 && !(isInt(p.Args[1], 10)) {
						r.Report("duration", where, token.NoPos, q, "the number is not read as a decimal")
					}
				}
			}
			if !yes {
				if q.refuted(has) || num != nil && q.nonNil(nerr) {
					if num != nil && !q.refuted(has) && !rangeRuledOut(q, nerr) {
						r.Report("duration", where, token.NoPos, q, "a number that is too large counts as no number")
					}
					return
				}
				if num != nil && q.entailsDiff(num, tZeroInt, -1) {
					return
				}
				r.Report("duration", where, token.NoPos, q, "a directive's number is refused although it is there and valid")
				return
			}
			if !q.holds(has) {
				r.Report("duration", where, token.NoPos, q, "a duration is reported for a directive that may not be there")
				return
			}
			if num == nil || !(q.isNil(nerr) || rangeKnown(q, nerr)) {
				r.Report("duration", where, token.NoPos, q, "a duration is reported for an argument that may not be a number")
				return
			}
			k, b := timesConst(td)
			if v, isC := td.isInt(); isC {
				// clamped
				n := v / 1000000000
				if v%1000000000 != 0 || !(n > 0 && q.entailsDiff(mkInt(n), num, 0) || n < 0 && q.entailsDiff(num, mkInt(n), 0) || n == 0 && q.entailsDiff(num, tZeroInt, 0)) || n > 0 && n < 1<<31 || n > maxDelta {
					r.Report("duration", where, token.NoPos, q, "the duration is not the directive's number of seconds: %v", td)
				}
				return
			}
			if n, lo, hi := clamped(b); n == num && k == 1000000000 {
				if lo >= -(1<<30) || hi <= 1<<30 || hi > maxDelta || lo < -maxDelta {
					r.Report("wrap", where, token.NoPos, q, "the number of seconds is not bounded well before it becomes a duration: %v", td)
				}
				return
			}
			if b != num || k != 1000000000 {
				r.Report("duration", where, token.NoPos, q, "the duration is not the directive's number of seconds: %v", td)
				return
			}
			if !q.entailsDiff(num, tZeroInt, maxDelta) || !q.entailsDiff(tZeroInt, num, maxDelta) {
				r.Report("wrap", where, token.NoPos, q, "the number of seconds is not bounded before it becomes a duration: %v", td)
			}
		})
	})
}

func strings_trimmed(t *Term) *Term {
	t = strip(t)
	for isPureOf(t, "strings.Trim", "strings.TrimSpace") {
		t = strip(t.Args[0])
	}
	return t
}

// rangeKnown: the error is known to be that of a number out of range.
func rangeKnown(st *State, e *Term) bool {
	for a, v := range st.atoms {
		if v && isPureOf(a, "errors.Is") && a.Args[0] == e && anyTerm(a.Args[1], func(t *Term) bool { return t.K == KGlobal && t.Aux == "strconv.ErrRange" }) {
			return true
		}
	}
	return false
}

// rangeRuledOut: the error is known not to be that of a number out of range.
func rangeRuledOut(st *State, e *Term) bool {
	for a, v := range st.atoms {
		if !v && isPureOf(a, "errors.Is") && a.Args[0] == e && anyTerm(a.Args[1], func(t *Term) bool { return t.K == KGlobal && t.Aux == "strconv.ErrRange" }) {
			return true
		}
	}
	return false
}

// clamped: t is n limited to lo..hi by constants (n nil when it is not).
func clamped(t *Term) (n *Term, lo, hi int64) {
	if t == nil || t.K != KPure || t.Aux != "min" && t.Aux != "max" && t.Aux != "builtin:min" && t.Aux != "builtin:max" {
		return nil, 0, 0
	}
	var gotLo, gotHi bool
	for t.K == KPure && (strings.HasSuffix(t.Aux, "min") || strings.HasSuffix(t.Aux, "max")) && len(t.Args) == 2 {
		a, b := t.Args[0], t.Args[1]
		v, ok := b.isInt()
		if !ok {
			v, ok = a.isInt()
			a = b
		}
		if !ok {
			return nil, 0, 0
		}
		if strings.HasSuffix(t.Aux, "min") {
			hi, gotHi = v, true
		} else {
			lo, gotLo = v, true
		}
		t = a
		for t.K == KConv {
			t = t.Args[0]
		}
	}
	if !gotLo || !gotHi {
		return nil, 0, 0
	}
	return t, lo, hi
}

func isInt(t *Term, n int64) bool {
	v, ok := t.isInt()
	return ok && v == n
}

// timesConst: t is b times k.
func timesConst(t *Term) (int64, *Term) {
	for t.K == KConv {
		t = t.Args[0]
	}
	if t.K == KBin && t.Aux == "*" {
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].isInt(); ok {
				b := t.Args[1-i]
				for b.K == KConv {
					b = b.Args[0]
				}
				return v, b
			}
		}
	}
	return 1, t
}

// ---- C01 ----------------------------------------------------------------------------------

func checkC01(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	c.reads()
	for _, T := range c.strats {
		fn := c.method(T, "cache")
		if fn == nil {
			r.Missing("the cache decision of " + T.String())
			continue
		}
		where := fnLabel(fn)
		var req *Term
		r.Run(c.base(), fn, where, func(x *Exec, st *State, args []*Term) {
			req = args[len(args)-1]
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			answers(st, o.res, func(q *State, yes bool) {
				if !yes {
					return
				}
				r.Ob("gate", where)
				if c.methodIn(x, q, req) != 1 {
					r.Report("gate", where, token.NoPos, q, "a request with another method than GET and HEAD may be cached")
				}
				h := c.get(x, q, req, c.qt, "Header")
				for _, n := range []string{"Range", "Content-Range", "Authorization"} {
					l := c.lines(x, q, h, n)
					_, has := x.mapGet(q, h, mkStr(n), types.NewSlice(types.Typ[types.String]))
					if !isEmptyStr(q, x.headerGet(q, h, mkStr(n))) && !q.refuted(has) && !q.isNil(l) && !q.entailsDiff(mkLen(l), tZeroInt, 0) {
						r.Report("gate", where, token.NoPos, q, "a request with %s may be cached", n)
					}
				}
				if c.present(x, q, h, "no-store") != 0 {
					r.Report("gate", where, token.NoPos, q, "a request with no-store may be cached")
				}
			})
		})
	}
	d := &doing{c: c}
	d.run("C01")
	r.Need("gate", 2)
	r.Need("directives", 1)
	r.Need("bypass", 1)
	r.Need("storage", 2)
}

// ---- C02 ----------------------------------------------------------------------------------

var storable = []int64{200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501}

func (c *caching) explicit(T types.Type) bool { // the default strategy
	n := namedOf(T)
	return n != nil && n.Obj().Name() == "rfc7234"
}

func checkC02(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	c.reads()
	for _, T := range c.strats {
		fn := c.method(T, "store")
		if fn == nil {
			r.Missing("the store decision of " + T.String())
			continue
		}
		where := fnLabel(fn)
		dflt := c.explicit(T)
		var resp *Term
		r.Run(c.base(), fn, where, func(x *Exec, st *State, args []*Term) {
			resp = args[len(args)-1]
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			req := c.get(x, st, resp, c.rt, "Request")
			answers(st, o.res, func(q *State, yes bool) {
				r.Ob("decision", where)
				rh, qh := c.get(x, q, resp, c.rt, "Header"), c.get(x, q, req, c.qt, "Header")
				status := c.get(x, q, resp, c.rt, "StatusCode")
				m, s := c.methodIn(x, q, req), statusIn(q, status, storable...)
				date, d := c.time(x, q, rh, "Date")
				life := c.lifetime(x, q, rh, d)
				if yes {
					switch {
					case m != 1:
						r.Report("decision", where, token.NoPos, q, "the answer to a request with another method than GET and HEAD may be stored")
					case s != 1:
						r.Report("decision", where, token.NoPos, q, "a response with another status may be stored")
					case date != 1:
						r.Report("decision", where, token.NoPos, q, "a response without a valid Date may be stored")
					case dflt && c.present(x, q, rh, "no-store") != 0:
						r.Report("decision", where, token.NoPos, q, "a response with no-store may be stored")
					case dflt && c.present(x, q, qh, "no-store") != 0:
						r.Report("decision", where, token.NoPos, q, "the answer to a request with no-store may be stored")
					case dflt && (life == nil || !q.entailsDiff(tZeroInt, life, -1)):
						r.Report("decision", where, token.NoPos, q, "a response without an explicit positive lifetime may be stored")
					}
					return
				}
				none := life == tZeroInt || life != nil && q.entailsDiff(life, tZeroInt, 0)
				if m == 0 || s == 0 || date == 0 || dflt && (none || c.present(x, q, rh, "no-store") == 1 || c.present(x, q, qh, "no-store") == 1) {
					return
				}
				r.Report("refused", where, token.NoPos, q, "a response that may be stored is refused")
			})
		})
	}
	d := &doing{c: c}
	d.run("C02")
	r.Need("decision", 2)
	r.Need("stored", 2)
}

// lifetime is what the response says it lives, zero when it says nothing,
// nil when the path has not asked.
func (c *caching) lifetime(x *Exec, st *State, rh, date *Term) *Term {
	switch ok, d := c.seconds(x, st, rh, "max-age"); ok {
	case 1:
		return d
	case 0:
		switch ok, e := c.time(x, st, rh, "Expires"); ok {
		case 1:
			if date != nil {
				return mkPure("(time.Time).Sub", c.r.P.stdType("time", "Duration"), e, date)
			}
		case 0:
			return tZeroInt
		}
	}
	return nil
}

// ---- C04 ----------------------------------------------------------------------------------

// linear adds t, times k, to the combination m.
func linear(t *Term, k int64, m map[*Term]int64) int64 {
	for t.K == KConv {
		t = t.Args[0]
	}
	if v, ok := t.isInt(); ok {
		return k * v
	}
	if t.K == KBin && (t.Aux == "+" || t.Aux == "-") && len(t.Args) == 2 {
		s := int64(1)
		if t.Aux == "-" {
			s = -1
		}
		return linear(t.Args[0], k, m) + linear(t.Args[1], k*s, m)
	}
	if t.K == KUn && t.Aux == "-" {
		return linear(t.Args[0], -k, m)
	}
	if b, n := lin(t); b != t {
		return k*n + linear(b, k, m)
	}
	m[t] += k
	if m[t] == 0 {
		delete(m, t)
	}
	return 0
}

// comparison: some decided comparison says that the combination want (plus
// konst) is positive (yes) or not.
func (c *caching) comparison(st *State, want map[*Term]int64, konst int64, date *Term, yes bool) bool {
	try := func(cond *Term, val bool) bool {
		if cond.Aux != "<" {
			return false
		}
		m := map[*Term]int64{}
		// a < b: b - a > 0; its negation: a - b >= 0
		n := linear(cond.Args[1], 1, m) + linear(cond.Args[0], -1, m)
		strict := val
		if !val {
			for t := range m {
				m[t] = -m[t]
			}
			n = -n
		}
		// m + n > 0 (strict) or >= 0
		if !yes {
			// want <= 0, that is -want >= 0
			for t := range m {
				m[t] = -m[t]
			}
			n = -n
		}
		if strict != yes || n != konst {
			return false
		}
		ages := 0
		left := map[*Term]int64{}
		for t, k := range m {
			if c.isAge(t, date) {
				if k != -1 {
					return false
				}
				ages++
				continue
			}
			left[t] = k
		}
		if ages != 1 || len(left) != len(want) {
			return false
		}
		for t, k := range want {
			if left[t] != k {
				return false
			}
		}
		return true
	}
	for _, v := range []bool{true, false} {
		for _, cond := range st.G("cmp" + strconv.FormatBool(v)) {
			if try(cond, v) {
				return true
			}
		}
	}
	return false
}

// isAge: t is the time passed since date.
func (c *caching) isAge(t, date *Term) bool {
	if date == nil {
		return false
	}
	if isPureOf(t, "time.Since") {
		return strip(t.Args[0]) == date
	}
	if isPureOf(t, "(time.Time).Sub") && strip(t.Args[1]) == date {
		return isPureOf(strip(t.Args[0]), "time.Now")
	}
	return false
}

func checkC04(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	c.reads()
	fresh, ok := r.P.globalInit(pCache, "fresh")
	if !ok {
		r.Missing("the freshness constant fresh")
		return
	}
	for _, T := range c.strats {
		fn := c.method(T, "fresh")
		if fn == nil {
			r.Missing("the freshness decision of " + T.String())
			continue
		}
		where := fnLabel(fn)
		dflt := c.explicit(T)
		var resp, recv *Term
		r.Run(c.base(), fn, where, func(x *Exec, st *State, args []*Term) {
			resp, recv = args[len(args)-1], args[0]
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			req := c.get(x, st, resp, c.rt, "Request")
			answers(st, mkEq(o.res, mkInt(fresh)), func(q *State, yes bool) {
				r.Ob("freshness", where)
				rh, qh := c.get(x, q, resp, c.rt, "Header"), c.get(x, q, req, c.qt, "Header")
				var why string
				if dflt {
					why = c.judge(x, q, rh, qh, yes)
				} else {
					why = c.judgeAge(x, q, recv, rh, qh, yes)
				}
				if why != "" {
					w := "stale"
					if yes {
						w = "fresh"
					}
					r.Report("freshness", where, token.NoPos, q, "a response counts as %s: %s", w, why)
				}
			})
		})
	}
	r.Need("freshness", 2)
	r.Need("duration", 1)
}

// mismatch: a header was found to differ between request and response.
func (c *caching) mismatch(st *State, rh, qh *Term) bool {
	for a, v := range st.atoms {
		if v || a.K != KBin || a.Aux != "==" {
			continue
		}
		of := func(t, h *Term) bool {
			return isPureOf(t, "http.Header.Get") && anyTerm(t, func(t *Term) bool { return t == h })
		}
		for k := 0; k < 2; k++ {
			if of(a.Args[k], rh) && of(a.Args[1-k], qh) {
				return true
			}
		}
	}
	return false
}

func (c *caching) judge(x *Exec, st *State, rh, qh *Term, yes bool) string {
	nq, nr := c.present(x, st, qh, "no-cache"), c.present(x, st, rh, "no-cache")
	only := c.present(x, st, qh, "only-if-cached")
	ms := c.present(x, st, qh, "max-stale")
	msOK, stale := c.seconds(x, st, qh, "max-stale")
	if !yes && (nq == 1 || nr == 1 || c.mismatch(st, rh, qh)) {
		return ""
	}
	if yes {
		if nq != 0 || nr != 0 {
			return "although no-cache may be present"
		}
		if only == 1 || ms == 1 && msOK == 0 {
			return ""
		}
	} else if only != 0 {
		return "although only-if-cached may be requested"
	}
	date, d := c.time(x, st, rh, "Date")
	if date != 1 {
		if !yes && date == 0 {
			return ""
		}
		return "without a valid Date"
	}
	life := c.lifetime(x, st, rh, d)
	if life == nil {
		return "without regard to its max-age and Expires"
	}
	explicit := life != tZeroInt
	switch ok, max := c.seconds(x, st, qh, "max-age"); ok {
	case -1:
		return "without regard to the request's max-age"
	case 1:
		switch {
		case !explicit:
			life = max
		case st.entailsDiff(life, max, 0):
		case st.entailsDiff(max, life, 0):
			life = max
		default:
			min := false
			for _, v := range []bool{true, false} {
				for _, cond := range st.G("cmp" + strconv.FormatBool(v)) {
					anyTerm(cond, func(t *Term) bool {
						if isPureOf(t, "min", "builtin:min") && len(t.Args) == 2 && (t.Args[0] == life && t.Args[1] == max || t.Args[0] == max && t.Args[1] == life) {
							life, min = t, true
						}
						return min
					})
				}
			}
			if !min {
				return "without limiting its lifetime by the request's max-age"
			}
		}
	}
	want := map[*Term]int64{}
	if life != tZeroInt {
		want[life]++
	}
	switch ok, min := c.seconds(x, st, qh, "min-fresh"); ok {
	case -1:
		return "without regard to min-fresh"
	case 1:
		want[min]--
	}
	switch {
	case msOK == 1:
		want[stale]++
	case msOK == -1:
		return "without regard to max-stale"
	case ms == 1:
		return "although max-stale without a limit is requested"
	case ms == -1:
		return "without regard to an unlimited max-stale"
	}
	if !c.comparison(st, want, 0, d, yes) {
		if yes {
			return "its age, plus min-fresh, minus max-stale, is not known to be below its lifetime"
		}
		return "its age, plus min-fresh, minus max-stale, is not known to have reached its lifetime"
	}
	return ""
}

func (c *caching) judgeAge(x *Exec, st *State, recv, rh, qh *Term, yes bool) string {
	nq := c.present(x, st, qh, "no-cache")
	if !yes && nq == 1 {
		return ""
	}
	if nq != 0 {
		return "without regard to the request's no-cache"
	}
	date, d := c.time(x, st, rh, "Date")
	if date != 1 {
		if !yes && date == 0 {
			return ""
		}
		return "without a valid Date"
	}
	// the configured age, 24 hours when unset
	const day = 24 * 60 * 60 * 1000000000
	age := c.ageField(x, st, recv)
	if age == nil {
		return "the strategy has no age"
	}
	if st.entailsDiff(tZeroInt, age, -1) {
		if c.comparison(st, map[*Term]int64{age: 1}, 0, d, yes) {
			return ""
		}
	}
	if st.entailsDiff(age, tZeroInt, 0) {
		if c.comparison(st, map[*Term]int64{}, day, d, yes) {
			return ""
		}
	}
	return "its age was not compared with the configured one, or with 24 hours when none is"
}

func (c *caching) ageField(x *Exec, st *State, recv *Term) *Term {
	T := recv.Typ
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == "time.Duration" {
			return x.fieldVar(st, recv, i, s.Field(i))
		}
	}
	return nil
}

var _ = sort.Strings
