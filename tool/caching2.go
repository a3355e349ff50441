package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	evCacheDo  = "(" + pCache + ".Client).Do"
	evStgLoad  = "(" + pCache + ".Storage).Load"
	evStgStore = "(" + pCache + ".Storage).Store"
)

// doing runs the cache's Do with the strategy's decisions as unknowns.
type doing struct {
	c   *caching
	m   *releases
	id  string
	req *Term
	// types of the readers put around bodies
	readers []*types.Named
}

func (d *doing) decided(name string, arg *Term) *Term {
	T := types.Type(types.Typ[types.Bool])
	if name == "fresh" {
		T = types.Typ[types.Int]
	}
	return mkPure("strategy."+name, T, arg)
}

// isReq: t is the caller's request.
func (d *doing) isReq(st *State, t *Term) bool {
	if t == d.req {
		return true
	}
	for _, l := range st.G("loaded") {
		if loadOf(t, l, "Request") {
			return true
		}
	}
	return false
}

// cloneOf: t is a copy of the caller's request.
func (d *doing) cloneOf(st *State, t *Term) bool {
	return isPureOf(t, "(*net/http.Request).Clone") && d.isReq(st, t.Args[0])
}

func (d *doing) rep(id, rule, what string, pos token.Pos, st *State, f string, args ...any) {
	if d.id == id {
		d.c.r.Report(rule, what, pos, st, f, args...)
	}
}

func (d *doing) ob(id, rule, what string) {
	if d.id == id {
		d.c.r.Ob(rule, what)
	}
}

// hop lists the header fields a 304 never changes.
var hop = []string{"Connection", "Keep-Alive", "Proxy-Authenticate", "Proxy-Authorization", "Te", "Trailer", "Transfer-Encoding", "Upgrade"}

// mayskip lists those it need not change.
var mayskip = append([]string{"Trailers", "Proxy-Connection", "Content-Length"}, hop...)

var validators = [][2]string{{"Etag", "If-None-Match"}, {"Last-Modified", "If-Modified-Since"}}

func (d *doing) run(id string) {
	d.id = id
	c := d.c
	r := c.r
	d.m = newReleases(r)
	fn := r.P.Meth(pCache, "Cache", "Do")
	if fn == nil || d.m == nil {
		r.Missing("(*antcache.Cache).Do")
		return
	}
	where := fnLabel(fn)
	freshV, _ := r.P.globalInit(pCache, "fresh")
	h := &Hooks{}
	h.Opaque = func(f *ssa.Function) bool { return c.opaque(f) || c.decision(f) != "" }
	h.Override = func(x *Exec, st *State, call *Call) []Outcome {
		if call.Fn != nil {
			if n := c.decision(call.Fn); n != "" {
				t := d.decided(n, call.Args[len(call.Args)-1])
				st.AddG("decided", t)
				return one(st, t)
			}
		}
		return c.override(x, st, call)
	}
	gated := func(st *State) bool { return st.holds(d.decided("cache", d.req)) }
	h.Call = func(x *Exec, st *State, call *Call) {
		what := site(call)
		switch {
		case call.Name == evStgLoad:
			d.ob("C01", "storage", what)
			if !gated(st) {
				d.rep("C01", "storage", what, call.Pos(), st, "the storage is read for a request that may have to bypass the cache")
			}
			d.ob("C07", "key", what)
			k := call.Args[2]
			if bad := d.key(x, st, k); bad != "" {
				d.rep("C07", "key", what, call.Pos(), st, "%s: %v", bad, k)
			}
			st.AddG("key", k)
			st.AddG("bytes", call.R(0))
		case call.Name == "net/http.ReadResponse":
			d.ob("C03", "read", what)
			from := false
			for _, b := range st.G("bytes") {
				if anyTerm(call.Args[0], func(t *Term) bool { return t == b }) {
					from = true
				}
			}
			if !from {
				d.rep("C03", "read", what, call.Pos(), st, "a response is read from something else than the stored bytes: %v", call.Args[0])
			}
			if !d.isReq(st, call.Args[1]) && !d.cloneOf(st, call.Args[1]) {
				d.rep("C03", "read", what, call.Pos(), st, "the stored response is not judged against the caller's request: %v", call.Args[1])
			}
			st.AddG("loaded", call.R(0))
		case obtains(call.Sig) && call.Res != nil && call.Res.K == KCall:
			d.sent(x, st, call)
		case drains[call.Name]:
			for _, l := range st.G("loaded") {
				for _, a := range call.Args {
					if d.m.bodyOf(strip(a), l) {
						st.AddG("spent", l)
					}
				}
			}
		case strings.HasSuffix(call.Name, "Closer).Close"):
			for _, l := range st.G("loaded") {
				if d.m.bodyOf(strip(call.Arg(0)), l) {
					st.AddG("spent", l)
				}
			}
		case call.Name == "(net/http.Header).Set" || call.Name == "(net/http.Header).Add" || call.Name == "(net/http.Header).Del":
			d.headerSet(x, st, call.Args[0], headerKey(call.Args[1]), what, call.Pos())
		}
	}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if i == nil {
			return
		}
		if _, ok := i.(*ssa.MapUpdate); !ok {
			return
		}
		d.merging(x, st, m, k, v, i)
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		if cond.K == KUn {
			cond, val = cond.Args[0], !val
		}
		if cond.K == KGen && cond.Aux == "more" {
			src := cond.Args[0].Args[0]
			if !val {
				st.AddG("ranged", src)
			} else {
				st.SetG(curKey(src), mkTok("open"))
			}
		}
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
		d.merged(x, st, b)
	}
	h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && addr.Fld == d.m.body {
			d.wrapped(x, st, addr.Args[0], val, i, gated(st))
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		d.req = args[1]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		d.exit(x, st, o, where, freshV, gated(st))
	})
}

// key: k is a hash of the request's method and complete URL.
func (d *doing) key(x *Exec, st *State, k *Term) string {
	var rt *Term
	m, u := false, false
	anyTerm(k, func(t *Term) bool {
		if t.K == KLoad && t.Args[0].K == KFieldAddr && d.isReq(st, t.Args[0].Args[0]) && t.Args[0].Fld.Name() == "Method" {
			m = true
		}
		if isPureOf(t, "(*net/url.URL).String") && t.Args[0].K == KLoad && t.Args[0].Args[0].K == KFieldAddr && d.isReq(st, t.Args[0].Args[0].Args[0]) {
			u = true
		}
		return false
	})
	_ = rt
	switch {
	case !m:
		return "the key does not depend on the method"
	case !u:
		return "the key does not depend on the complete URL"
	case anyTerm(k, func(t *Term) bool {
		return t.K == KSlice && !(t.Args[1] == tNil && t.Args[2] == tNil) && t.Typ != nil && isStringT(t.Typ) || isPureOf(t, "strings.ToLower", "strings.ToUpper", "strings.SplitN", "strings.Split", "strings.Cut")
	}):
		return "the key depends on a part of the URL only"
	}
	return ""
}

// sent: a request goes to the client.
func (d *doing) sent(x *Exec, st *State, call *Call) {
	what := site(call)
	q := call.Args[len(call.Args)-1]
	st.AddG("sent", in.mk(Term{K: KTuple, Args: []*Term{call.R(0), call.R(1), q}}))
	switch {
	case d.isReq(st, q):
		d.ob("C05", "plain", what)
		for range st.G("touched") {
			d.rep("C05", "plain", what, call.Pos(), st, "the caller's request was changed")
		}
	case d.cloneOf(st, q):
		d.ob("C05", "validation", what)
		loaded := st.G("loaded")
		if len(loaded) == 0 {
			d.rep("C05", "validation", what, call.Pos(), st, "a request is changed before there is anything to validate")
			return
		}
		l := loaded[0]
		hq, hr := d.c.get(x, st, q, d.c.qt, "Header"), d.c.get(x, st, l, d.c.rt, "Header")
		for _, v := range validators {
			stored := x.headerGet(st, hr, mkStr(v[0]))
			set := x.headerGet(st, hq, mkStr(v[1]))
			if set == stored || isEmptyStr(st, stored) || st.refuted(mkEq(set, mkStr(""))) {
				continue
			}
			d.rep("C05", "validation", what, call.Pos(), st, "the stored %s is not sent as %s: %v", v[0], v[1], set)
		}
		if m := d.c.get(x, st, q, d.c.qt, "Method"); m.K == KConst {
			d.rep("C05", "validation", what, call.Pos(), st, "the validation request has another method: %v", m)
		}
	default:
		d.ob("C05", "plain", what)
		d.rep("C05", "plain", what, call.Pos(), st, "another request than the caller's is sent: %v", q)
	}
}

func (d *doing) headerSet(x *Exec, st *State, h, k *Term, what string, pos token.Pos) {
	if loadOf(h, d.req, "Header") {
		d.ob("C05", "validators", what)
		st.AddG("touched", mkTok(what))
		return
	}
	for _, l := range st.G("loaded") {
		if rq := mkFieldAddr0(d.c, l); h.K == KLoad && h.Args[0].K == KFieldAddr && h.Args[0].Fld.Name() == "Header" && rq(h.Args[0].Args[0]) {
			st.AddG("touched", mkTok(what))
			return
		}
	}
	if h.K == KLoad && h.Args[0].K == KFieldAddr && d.cloneOf(st, h.Args[0].Args[0]) {
		d.ob("C05", "validators", what)
		for _, v := range validators {
			if isSep(k, v[1]) && !isEmptyStr(st, x.headerGet(st, h, k)) {
				d.rep("C05", "validators", what, pos, st, "the caller's own %s is replaced", v[1])
			}
		}
	}
}

func mkFieldAddr0(c *caching, l *Term) func(t *Term) bool {
	return func(t *Term) bool { return loadOf(t, l, "Request") }
}

// headerOf: m is the header of a response: which.
func (d *doing) headerOf(st *State, m *Term) *Term {
	if m.K == KLoad && m.Args[0].K == KFieldAddr && m.Args[0].Fld.Name() == "Header" {
		b := m.Args[0].Args[0]
		for _, l := range st.G("loaded") {
			if l == b {
				return b
			}
		}
		for _, s := range st.G("sent") {
			if s.Args[0] == b {
				return b
			}
		}
	}
	return nil
}

// merging: a header field is written while a header is gone through.
func (d *doing) merging(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
	to := d.headerOf(st, m)
	if to == nil || k.K != KGen || k.Aux != "key" {
		if h := m; h.K == KLoad {
			d.headerSet(x, st, h, headerKey(k), topFn(i.Parent()), i.Pos())
		}
		return
	}
	src := k.Args[0].Args[0]
	what := topFn(i.Parent())
	d.ob("C05", "merge", what)
	from := d.headerOf(st, src)
	if from == nil || from == to {
		return
	}
	whole, _ := x.mapGet(st, src, k, types.NewSlice(types.Typ[types.String]))
	v = strip(v)
	if !(v == whole || v.K == KGen && v.Aux == "val" && v.Args[0] == k.Args[0] || v.K == KLookup && v.Args[0] == src && v.Args[1] == k || copyOf(v, whole) || anyGenVal(v, k)) {
		d.rep("C05", "merge", what, i.Pos(), st, "the values written are not all of the field's: %v", v)
	}
	for _, n := range hop {
		if !st.refuted(mkEq(k, mkStr(n))) {
			d.rep("C05", "merge", what, i.Pos(), st, "the hop-by-hop field %s may be merged", n)
		}
	}
	st.ClearG(curKey(src))
}

// anyGenVal: v copies the value that goes with the key k.
func anyGenVal(v, k *Term) bool {
	return v.K == KAppend && anyTerm(v, func(t *Term) bool { return t.K == KGen && t.Aux == "val" && t.Args[0] == k.Args[0] })
}

// merged: the loop over a header goes on.
func (d *doing) merged(x *Exec, st *State, b *ssa.BasicBlock) {
	var rg *Term
	for _, i := range b.Instrs {
		if n, ok := i.(*ssa.Next); ok {
			for a, v := range st.atoms {
				anyTerm(a, func(t *Term) bool {
					if t.K == KGen && t.Site == ssa.Instruction(n) {
						rg = t.Args[0]
					}
					return false
				})
				_ = v
			}
		}
	}
	if rg == nil {
		return
	}
	src := rg.Args[0]
	if len(st.G(curKey(src))) == 0 {
		return
	}
	st.ClearG(curKey(src))
	var k *Term
	for a := range st.atoms {
		anyTerm(a, func(t *Term) bool {
			if t.K == KGen && t.Aux == "key" && t.Args[0] == rg {
				k = t
			}
			return false
		})
	}
	if k == nil || !inConsts(st, k, mayskip...) && !holdsAny(st, k, mayskip...) {
		st.AddG("dropped", src)
	}
}

func holdsAny(st *State, k *Term, vals ...string) bool {
	for _, v := range vals {
		if st.holds(mkEq(k, mkStr(v))) {
			return true
		}
	}
	return false
}

// wrapped: a response's body is replaced.
func (d *doing) wrapped(x *Exec, st *State, resp, val *Term, i ssa.Instruction, gated bool) {
	what := topFn(i.Parent())
	w := strip(val)
	if w.K != KAlloc {
		return
	}
	T := w.Typ
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pCache {
		return
	}
	known := false
	for _, t := range d.readers {
		known = known || t == n
	}
	if !known {
		d.readers = append(d.readers, n)
	}
	d.ob("C01", "storage", what)
	if !gated {
		d.rep("C01", "storage", what, i.Pos(), st, "a response is prepared for storing although its request may have to bypass the cache")
	}
	st.AddG("wrapped", resp)
	d.ob("C02", "stored", what)
	isLoaded := st.HasG("loaded", resp)
	if isLoaded {
		if !d.validated(x, st) {
			d.rep("C02", "stored", what, i.Pos(), st, "the stored response is stored again although it was not validated")
		}
	} else if !st.holds(d.decided("store", resp)) {
		d.rep("C02", "stored", what, i.Pos(), st, "a response is prepared for storing although it may not be stored")
	}
	// its parts
	s := n.Underlying().(*types.Struct)
	for k := 0; k < s.NumFields(); k++ {
		f := s.Field(k)
		v := x.fieldVar(st, w, k, f)
		switch ts := types.TypeString(f.Type(), nil); {
		case ts == "uint64":
			d.ob("C07", "key", what)
			if !st.HasG("key", v) {
				d.rep("C07", "key", what, i.Pos(), st, "the key to store under is not the one looked up: %v", v)
			}
		case ts == "io.ReadCloser":
			d.ob("C06", "wrap", what)
			if !d.m.bodyOf(strip(v), resp) && st.nonNil(v) || v == tNil {
				d.rep("C06", "wrap", what, i.Pos(), st, "the reader does not read the response's body: %v", v)
			}
		case ts == "*net/http.Response":
			d.ob("C06", "wrap", what)
			if v != resp {
				d.rep("C06", "wrap", what, i.Pos(), st, "the reader keeps another response: %v", v)
			}
		case strings.HasPrefix(ts, "func(") && strings.HasSuffix(ts, "[]byte) error"):
			d.ob("C06", "wrap", what)
			if v == tNil || v.K == KClosure && v.Fn != nil && strings.HasSuffix(v.Fn.Name(), "$bound") && !strings.HasPrefix(v.Fn.Name(), "Store") {
				d.rep("C06", "wrap", what, i.Pos(), st, "the reader does not store into the storage: %v", v)
			}
		case ts == "bool":
			d.ob("C06", "wrap", what)
			if !(v == tFalse || st.refuted(v)) && d.id == "C06" {
				nobody := false
				if anyTerm(v, func(t *Term) bool {
					return t.K == KLoad && t.Args[0].K == KGlobal && t.Args[0].Aux == "net/http.NoBody"
				}) {
					nobody = true
				}
				for a, val := range st.atoms {
					if val && a.K == KBin && a.Aux == "==" && anyTerm(a, func(t *Term) bool {
						return t.K == KLoad && t.Args[0].K == KGlobal && t.Args[0].Aux == "net/http.NoBody"
					}) {
						nobody = true
					}
				}
				if !nobody {
					d.rep("C06", "wrap", what, i.Pos(), st, "the reader starts with %s set", f.Name())
				}
			}
		}
	}
}

// validations are the answers to validation requests.
func (d *doing) validations(st *State) (out []*Term) {
	for _, s := range st.G("sent") {
		if d.cloneOf(st, s.Args[2]) && st.isNil(s.Args[1]) {
			out = append(out, s.Args[0])
		}
	}
	return
}

// validated: the stored response was found to be still valid.
func (d *doing) validated(x *Exec, st *State) bool {
	for _, v := range d.validations(st) {
		if statusIn(st, d.c.get(x, st, v, d.c.rt, "StatusCode"), 304) == 1 {
			return true
		}
	}
	return false
}

func (d *doing) exit(x *Exec, st *State, o Outcome, where string, freshV int64, gated bool) {
	c := d.c
	resp, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
	sent := st.G("sent")
	if !gated {
		d.ob("C01", "bypass", where)
		ok := len(sent) == 1 && resp == sent[0].Args[0] && err == sent[0].Args[1] && sent[0].Args[2] == d.req
		if !ok {
			d.rep("C01", "bypass", where, token.NoPos, st, "a request that may have to bypass the cache is not passed straight to the client: %v, %v", resp, err)
		}
		if !st.refuted(d.decided("cache", d.req)) {
			d.rep("C01", "bypass", where, token.NoPos, st, "a request is answered without asking whether it may be cached")
		}
		return
	}
	if st.nonNil(err) {
		return
	}
	loaded := st.G("loaded")
	fresh := func(l *Term) bool {
		t := d.decided("fresh", l)
		if st.holds(mkEq(t, mkInt(freshV))) {
			return true
		}
		// or none of the other answers
		n := 0
		for _, v := range []string{"stale", "transparent"} {
			if k, ok := d.c.r.P.globalInit(pCache, v); ok && k != freshV && st.refuted(mkEq(t, mkInt(k))) {
				n++
			}
		}
		return n == 2
	}
	for _, l := range loaded {
		if st.isNil(l) {
			continue // there is no response without an error
		}
		d.ob("C03", "exit", where)
		f := mkEq(d.decided("fresh", l), mkInt(freshV))
		if fresh(l) && len(sent) > 0 {
			d.rep("C03", "exit", where, token.NoPos, st, "a fresh stored response is not used: %v", resp)
		}
		if resp != l {
			if !st.refuted(f) {
				d.rep("C03", "exit", where, token.NoPos, st, "a stored response that may be fresh is not used: %v", resp)
			}
			continue
		}
		switch {
		case fresh(l):
			continue
		case d.validated(x, st):
		case d.staleIfError(x, st):
			if st.HasG("spent", l) {
				d.rep("C05", "body", where, token.NoPos, st, "the body of the stored response was read before it is returned")
			}
			continue
		default:
			d.rep("C03", "exit", where, token.NoPos, st, "a stored response is returned that is neither fresh nor validated")
			continue
		}
		d.ob("C05", "validated", where)
		if st.HasG("spent", l) {
			d.rep("C05", "validated", where, token.NoPos, st, "the stored body was read or closed before the response is returned")
		}
		if !st.HasG("wrapped", l) {
			d.rep("C05", "validated", where, token.NoPos, st, "a validated response is not stored again")
		}
		for _, v := range d.validations(st) {
			h := c.get(x, st, v, c.rt, "Header")
			if !st.HasG("ranged", h) || st.HasG("dropped", h) {
				d.rep("C05", "validated", where, token.NoPos, st, "some header field of the 304 may not be merged into the response")
			}
		}
	}
	if st.HasG("loaded", resp) {
		return
	}
	d.ob("C03", "exit", where)
	for _, s := range sent {
		if s.Args[0] != resp {
			continue
		}
		if !st.isNil(s.Args[1]) && err != s.Args[1] {
			d.rep("C03", "exit", where, token.NoPos, st, "the client's error is dropped")
		}
		status := c.get(x, st, resp, c.rt, "StatusCode")
		val := d.cloneOf(st, s.Args[2])
		if val && statusIn(st, status, 304) != 0 {
			d.rep("C03", "exit", where, token.NoPos, st, "the answer to the cache's own validation request is returned although it may be a 304")
		}
		if err != s.Args[1] || st.isNil(err) {
			yes := d.decided("store", resp)
			d.ob("C02", "stored", where)
			server := st.entailsDiff(mkInt(500), status, 0) && st.entailsDiff(status, mkInt(600), -1)
			if !st.HasG("wrapped", resp) && !(val && server) && !st.refuted(yes) {
				d.rep("C02", "stored", where, token.NoPos, st, "a response that may be stored is not prepared for storing")
			}
		}
		return
	}
	d.rep("C03", "exit", where, token.NoPos, st, "what is returned is neither the client's answer nor a stored response: %v", resp)
}

// staleIfError: the validation was answered 5xx and the request allows a
// stale response then.
func (d *doing) staleIfError(x *Exec, st *State) bool {
	for _, s := range st.G("sent") {
		if !d.cloneOf(st, s.Args[2]) || !st.isNil(s.Args[1]) {
			continue
		}
		status := d.c.get(x, st, s.Args[0], d.c.rt, "StatusCode")
		if !st.entailsDiff(mkInt(500), status, 0) || !st.entailsDiff(status, mkInt(600), -1) {
			continue
		}
		for _, q := range []*Term{s.Args[2], d.req} {
			if d.c.present(x, st, d.c.get(x, st, q, d.c.qt, "Header"), "stale-if-error") == 1 {
				return true
			}
		}
	}
	return false
}

func checkC03(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	c.readsDirectives()
	c.readsTokens()
	d := &doing{c: c}
	d.run("C03")
	r.Need("exit", 1)
	r.Need("read", 1)
}

func checkC05(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	d := &doing{c: c}
	d.run("C05")
	r.Need("validation", 1)
	r.Need("validators", 1)
	r.Need("validated", 1)
	r.Need("merge", 1)
}

func checkC07(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	d := &doing{c: c}
	d.run("C07")
	r.Need("key", 2)
	c.memory()
}
