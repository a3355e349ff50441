package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The fetch rules follow the requests one Fetch makes. Ghost state:
//   +n    attempts begun
//   req   a request was built and not yet sent
//   last  (response, error) of the last request
//   wait  duration of the cancellable pause since the last request

func init() {
	register("F01", "counting and guards over every path of Fetcher.Fetch: attempts are bounded by MaxAttempts (5 when not positive) by the difference-bound facts at each request; a further request is dominated by the last failure being temporary; an error exit carries the last failure and is reached only when it is not temporary, the attempts are used up, or the pause failed", checkF01)
	register("F02", "guards: a page is returned only where the status is entailed below 400 and carries that response's URL, header and body; nil/nil only where it is entailed to be 404; an error only from 400 up, other than 404, carrying status and URL; FetchError.Temporary is true exactly for 429, 503, 504", checkF02)
	register("F04", "event order and bounds: between two requests there is a select on a timer and on the caller's Done channel; the timer's duration is entailed not above MaxBackoff, is MinBackoff the first time and grows with a counter of the attempts; MinBackoff < MaxBackoff is entailed at every further request; a cancelled pause ends the fetch with the context's error", checkF04)
	register("F05", "provenance of every request handed to a client: context, method, URL and User-Agent/Accept header values of page requests and of robots.txt requests", checkF05)
}

var doNames = map[string]bool{evClient: true, "(*net/http.Client).Do": true, "(*net/http.Client).Get": true, "net/http.Get": true,
	"(net/http.RoundTripper).RoundTrip": true, "(*net/http.Transport).RoundTrip": true, "(*net/http.Client).Head": true, "(*net/http.Client).Post": true}

func isDo(c *Call) bool { return doNames[c.Name] }

type fetchModel struct {
	r   *Result
	T   types.Type
	f   *Term
	ctx *Term
	url *Term
}

func newFetch(r *Result) *fetchModel {
	n := r.P.Named(pAnt, "Fetcher")
	if n == nil || r.P.Meth(pAnt, "Fetcher", "Fetch") == nil {
		r.Missing("(*ant.Fetcher).Fetch")
		return nil
	}
	return &fetchModel{r: r, T: n}
}

// run explores Fetch, once for every combination of the named fields being
// positive or not.
func (m *fetchModel) run(h *Hooks, end func(x *Exec, st *State, o Outcome), split ...string) {
	for bits := 0; bits < 1<<len(split); bits++ {
		m.r.Run(h, m.r.P.Meth(pAnt, "Fetcher", "Fetch"), "(*Fetcher).Fetch", func(x *Exec, st *State, args []*Term) {
			m.f, m.ctx, m.url = args[0], args[1], args[2]
			for i, name := range split {
				v := x.fieldVal(st, m.f, m.T, name)
				switch {
				case v == nil:
					m.r.Missing("Fetcher." + name)
				case bits>>i&1 == 1:
					st.addDiff(tZeroInt, v, -1)
				default:
					st.addDiff(v, tZeroInt, 0)
				}
			}
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if !o.panic {
				end(x, st, o)
			}
		})
	}
}

// bcase is one case of a configuration value with a default.
type bcase struct {
	st  *State
	val *Term
}

// cases splits on whether the receiver's named field is positive; def makes
// the default.
func (m *fetchModel) cases(x *Exec, st *State, field string, def func(st *State) *Term) []bcase {
	v := x.fieldVal(st, m.f, m.T, field)
	if v == nil {
		m.r.Missing("Fetcher." + field)
		return nil
	}
	var out []bcase
	a := st.clone()
	if a.addDiff(tZeroInt, v, -1) && a.assume(mkLt(tZeroInt, v), true) {
		out = append(out, bcase{a, v})
	}
	b := st.clone()
	if b.addDiff(v, tZeroInt, 0) && b.assume(mkLt(tZeroInt, v), false) {
		out = append(out, bcase{b, def(b)})
	}
	return out
}

// eventAttempt keeps +n and last.
func (m *fetchModel) attempt(st *State, c *Call) {
	inc := func() {
		if n := st.G("+n"); len(n) == 0 {
			st.SetG("+n", mkInt(1))
		} else {
			st.SetG("+n", addConst(n[0], 1))
		}
	}
	switch {
	case c.Name == "net/http.NewRequestWithContext" || c.Name == "net/http.NewRequest":
		inc()
		st.SetG("req", mkTok("built"))
	case isDo(c):
		if len(st.G("req")) == 0 {
			inc()
		}
		st.ClearG("req")
	}
}

func (m *fetchModel) sent(st *State, c *Call) {
	if isDo(c) {
		st.SetG("last", c.R(0), c.R(1))
		for _, k := range []string{"asked", "wait", "class", "carrier"} {
			st.ClearG(k)
		}
	}
}

// settle notes the kind of the last failure, and the values that carry it,
// before a loop goes round.
func (m *fetchModel) settle(x *Exec, st *State, phis []*Term) {
	l := st.G("last")
	if len(l) == 0 {
		return
	}
	keep := func(v *Term) {
		if v != nil && v.Typ != nil && types.Identical(v.Typ, errT) || v != nil && (v.K == KWrap || v.K == KIface) {
			if m.carried(x, st, v) {
				st.AddG("carrier", v)
			}
		}
	}
	for _, v := range phis {
		keep(v)
	}
	for _, a := range sortedKeys(st.mem) {
		keep(st.mem[a])
	}
	if len(st.G("class")) == 0 {
		switch m.failure(x, st) {
		case 1:
			st.SetG("class", mkTok("temporary"))
		case 0:
			st.SetG("class", mkTok("final"))
		}
	}
	if len(st.G("class")) > 0 {
		st.SetG("last", mkTok("settled response"), mkTok("settled error"))
		st.ClearG("asked")
	}
}

// carried: err carries the last failure.
func (m *fetchModel) carried(x *Exec, st *State, err *Term) bool {
	for _, c := range st.G("carrier") {
		if carries(st, err, c) {
			return true
		}
	}
	l := st.G("last")
	if l[1].K == KTok {
		return false
	}
	if st.nonNil(l[1]) {
		return carries(st, err, l[1])
	}
	return st.isNil(l[1]) && m.statusError(x, st, err, l[0])
}

// asked remembers the answer to a question whether an error is temporary.
func asked(st *State, c *Call) {
	if strings.HasSuffix(c.Name, ".Temporary") && len(c.Args) > 0 && c.Res != nil {
		st.AddG("asked", in.mk(Term{K: KTuple, Args: []*Term{c.Arg(0), c.Res}}))
	}
}

// temporary: what the path knows about err being temporary: 1, 0 or -1.
func temporary(st *State, err *Term) int {
	var from func(t *Term) bool
	from = func(t *Term) bool {
		if t == err {
			return true
		}
		switch t.K {
		case KAs, KAssert, KIface, KConv:
			return from(t.Args[0])
		case KExtract:
			return t.Args[0].K == KAssert && from(t.Args[0])
		}
		return false
	}
	res := -1
	for _, q := range st.G("asked") {
		if from(q.Args[0]) {
			if st.holds(q.Args[1]) {
				return 1
			}
			if st.refuted(q.Args[1]) {
				res = 0
			}
		}
	}
	for a, v := range st.atoms {
		switch {
		case a.K == KAs && a.Aux == "ok" && a.Args[0] == err && !v && hasTemporary(a.Typ):
			res = 0
		case a.K == KAssertOk && from(a.Args[0]) && !v && hasTemporary(a.Typ):
			res = 0
		}
	}
	return res
}

func hasTemporary(t types.Type) bool {
	if t == nil {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Temporary")
	_, ok := o.(*types.Func)
	return ok
}

func statusOf(x *Exec, st *State, resp *Term) *Term {
	return x.fieldVal(st, resp, respType(resp), "StatusCode")
}

func respType(resp *Term) types.Type { return resp.Typ }

var tempStatus = []int64{429, 503, 504}

// statusIn: 1 when the status is entailed to be one of the values, 0 when
// it is entailed to be none, -1 otherwise.
func statusIn(st *State, s *Term, vals ...int64) int {
	none := true
	for _, v := range vals {
		e := mkEq(s, mkInt(v))
		if st.holds(e) {
			return 1
		}
		if !st.refuted(e) && !st.entailsDiff(s, mkInt(v), -1) && !st.entailsDiff(mkInt(v), s, -1) {
			none = false
		}
	}
	if none {
		return 0
	}
	// every other value is excluded when assuming none leads nowhere
	c := st.clone()
	for _, v := range vals {
		if !c.assume(mkEq(s, mkInt(v)), false) {
			return 1
		}
	}
	return -1
}

// failure: 1 the last request failed temporarily, 0 finally, 2 it did not
// fail, -1 not established.
func (m *fetchModel) failure(x *Exec, st *State) int {
	l := st.G("last")
	if len(l) == 0 {
		return 2
	}
	if c := st.G("class"); len(c) > 0 {
		if c[0] == mkTok("temporary") {
			return 1
		}
		return 0
	}
	resp, err := l[0], l[1]
	if st.nonNil(err) {
		return temporary(st, err)
	}
	if !st.isNil(err) {
		return -1
	}
	s := statusOf(x, st, resp)
	if st.entailsDiff(s, mkInt(400), -1) {
		return 2
	}
	return statusIn(st, s, tempStatus...)
}

// fetchErrors are the FetchErrors reachable by unwrapping err.
func fetchErrors(x *Exec, st *State, err *Term) []*Term {
	switch err.K {
	case KWrap:
		var out []*Term
		for _, a := range err.Args {
			out = append(out, fetchErrors(x, st, a)...)
		}
		return out
	case KIface:
		t := err.Typ
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == "FetchError" {
			return []*Term{err.Args[0]}
		}
	}
	return nil
}

func same(st *State, a, b *Term) bool {
	return a != nil && b != nil && (a == b || st.holds(mkEq(a, b)))
}

// loadOf: t was read from field path of base, at whatever moment.
func loadOf(t, base *Term, fields ...string) bool {
	for i := len(fields) - 1; i >= 0; i-- {
		if t == nil {
			return false
		}
		switch {
		case t.K == KLoad && t.Args[0].K == KFieldAddr && t.Args[0].Fld.Name() == fields[i]:
			t = t.Args[0].Args[0]
		case t.K == KField && t.Fld != nil && t.Fld.Name() == fields[i]:
			t = t.Args[0]
		default:
			return false
		}
	}
	return t == base
}

func (m *fetchModel) statusError(x *Exec, st *State, err, resp *Term) bool {
	s := statusOf(x, st, resp)
	T := x.P.Named(pAnt, "FetchError")
	for _, fe := range fetchErrors(x, st, err) {
		got, u := x.fieldVal(st, fe, T, "Status"), x.fieldVal(st, fe, T, "URL")
		if (same(st, got, s) || loadOf(got, resp, "StatusCode")) && (loadOf(u, resp, "Request", "URL") || u == m.url) {
			return true
		}
	}
	return false
}

func (m *fetchModel) usedUp(x *Exec, st *State) bool {
	n := st.G("+n")
	if len(n) == 0 {
		return false
	}
	for _, c := range m.cases(x, st, "MaxAttempts", func(*State) *Term { return mkInt(5) }) {
		if !c.st.entailsDiff(c.val, n[0], 0) {
			return false
		}
	}
	return true
}

func (m *fetchModel) backoffCases(x *Exec, st *State) (out []struct {
	st       *State
	min, max *Term
}) {
	d := func(name string) func(*State) *Term {
		return func(st *State) *Term {
			for _, mem := range x.P.pkg(pAnt).Members {
				if g, ok := mem.(*ssa.Global); ok && g.Name() == name {
					return x.load(st, x.eval(nil, nil, g), g.Type().(*types.Pointer).Elem())
				}
				if k, ok := mem.(*ssa.NamedConst); ok && k.Name() == name {
					return constTerm(k.Value)
				}
			}
			return nil
		}
	}
	for _, a := range m.cases(x, st, "MinBackoff", d("minBackoff")) {
		for _, b := range m.cases(x, a.st, "MaxBackoff", d("maxBackoff")) {
			if a.val == nil || b.val == nil {
				m.r.Missing("default backoff")
				return nil
			}
			out = append(out, struct {
				st       *State
				min, max *Term
			}{b.st, a.val, b.val})
		}
	}
	return out
}

// inconsistent: MinBackoff is not below MaxBackoff on this path.
func (m *fetchModel) inconsistent(x *Exec, st *State) bool {
	cs := m.backoffCases(x, st)
	for _, c := range cs {
		if !c.st.entailsDiff(c.max, c.min, 0) {
			return false
		}
	}
	return len(cs) > 0
}

func (m *fetchModel) selectHook(x *Exec, st *State, k int, chans []*Term) {
	if k >= 0 && isDoneOf(chans[k], m.ctx) {
		st.SetG("cancelled", mkTok("yes"))
	}
	if k >= 0 {
		if d := timerDur(st, chans[k]); d != nil {
			for _, ch := range chans {
				if isDoneOf(ch, m.ctx) {
					st.SetG("wait", d)
				}
			}
			if len(st.G("wait")) == 0 {
				st.SetG("deaf", d)
			}
		}
	}
}

// isDoneOf: the channel is ctx.Done() of the context or one derived from it.
func isDoneOf(ch, ctx *Term) bool {
	return isDoneChan(ch) && derived(ch.Args[0], ctx)
}

// derived: context t is root or was made from it.
func derived(t, root *Term) bool {
	for t != nil {
		if t == root {
			return true
		}
		switch t.K {
		case KExtract, KIface, KConv:
			t = t.Args[0]
		case KCall, KPure, KOld:
			if (strings.HasPrefix(callName(t), "context.With") || strings.HasPrefix(callName(t), "call:context.With") || strings.HasSuffix(t.Aux, "errgroup.WithContext")) && len(t.Args) > 0 {
				t = t.Args[0]
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// timerDur is the duration of the timer a channel belongs to.
func timerDur(st *State, ch *Term) *Term {
	if ch.K == KCall && (ch.Aux == "time.After" || ch.Aux == "time.Tick") {
		return ch.Args[0]
	}
	if ch.K == KLoad && ch.Args[0].K == KFieldAddr {
		t := ch.Args[0].Args[0]
		if t.K == KCall && (t.Aux == "time.NewTimer" || t.Aux == "time.NewTicker") {
			return t.Args[0]
		}
	}
	return nil
}

func checkF01(r *Result) {
	m := newFetch(r)
	if m == nil {
		return
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		asked(st, c)
		m.attempt(st, c)
		if !isDo(c) {
			return
		}
		n := st.G("+n")[0]
		r.Ob("attempts", site(c))
		for _, b := range m.cases(x, st, "MaxAttempts", func(*State) *Term { return mkInt(5) }) {
			if !b.st.entailsDiff(n, b.val, 0) {
				r.Report("attempts", site(c), c.Pos(), st, "request number %v may be made although at most %v are allowed", n, b.val)
			}
		}
		if len(st.G("last")) > 0 {
			r.Ob("retry-guard", site(c))
			switch m.failure(x, st) {
			case 0:
				r.Report("retry-guard", site(c), c.Pos(), st, "the request is repeated although the last failure is not temporary")
			case 2:
				r.Report("retry-guard", site(c), c.Pos(), st, "the request is repeated although the last one did not fail")
			case -1:
				r.Report("retry-guard", site(c), c.Pos(), st, "the request is repeated on a path that did not establish that the last failure is temporary")
			}
		}
		m.sent(st, c)
	}
	h.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		m.selectHook(x, st, k, chans)
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) { m.settle(x, st, phis) }
	m.run(h, func(x *Exec, st *State, o Outcome) {
		page, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		l := st.G("last")
		if len(l) == 0 {
			if !st.nonNil(err) {
				r.Report("no-request", "(*Fetcher).Fetch", token.NoPos, st, "returns %v, %v without having made a request", page, err)
			}
			return
		}
		fail := m.failure(x, st)
		if fail == 2 {
			return // a page: F02
		}
		if st.isNil(err) {
			if l[0].K != KTok && st.isNil(l[1]) && statusIn(st, statusOf(x, st, l[0]), 404) == 1 || m.clientSays(st) {
				return
			}
			r.Report("error-exit", "(*Fetcher).Fetch", token.NoPos, st, "returns no error although the last request failed")
			return
		}
		carried := m.carried(x, st, err)
		r.Ob("error-exit", "(*Fetcher).Fetch")
		switch {
		case len(st.G("cancelled")) > 0 && fail == 1:
		case m.inconsistent(x, st) && fail == 1:
		case !carried && reqFailed(st, err):
		case fail == 1 && !m.usedUp(x, st):
			r.Report("retries-all", "(*Fetcher).Fetch", token.NoPos, st, "gives up after a temporary failure although attempts are left")
		case fail == -1 && !m.usedUp(x, st):
			r.Report("retries-all", "(*Fetcher).Fetch", token.NoPos, st, "gives up on a path that did not establish that the last failure is not temporary")
		case !carried:
			r.Report("error-exit", "(*Fetcher).Fetch", token.NoPos, st, "the error %v does not carry the last failure", err)
		}
	}, "MaxAttempts", "MinBackoff", "MaxBackoff")
	r.Need("attempts", 1)
	r.Need("retry-guard", 1)
	r.Need("error-exit", 1)
}

// reqFailed: the error carries a failure to build the next request.
func reqFailed(st *State, err *Term) bool {
	return anyTerm(err, func(t *Term) bool {
		return t.K == KExtract && strings.HasPrefix(callName(t), "net/http.NewRequest") && st.nonNil(t)
	})
}

// clientSays: the HTTP client itself failed with a *FetchError, which only
// the Fetcher makes.
func (m *fetchModel) clientSays(st *State) bool {
	l := st.G("last")
	T := m.r.P.Named(pAnt, "FetchError")
	if len(l) < 2 || T == nil {
		return false
	}
	for a, v := range st.atoms {
		if v && a.K == KAs && a.Args[0] == l[1] && types.Identical(a.Typ, types.NewPointer(T)) {
			return true
		}
	}
	return false
}

func checkF02(r *Result) {
	m := newFetch(r)
	if m == nil {
		return
	}
	pageT := r.P.Named(pAnt, "Page")
	bi, bf := r.P.Field(pageT, "body")
	if bf == nil {
		r.Missing("Page.body")
		return
	}
	_ = bi
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) { m.sent(st, c) }
	where := "(*Fetcher).Fetch"
	m.run(h, func(x *Exec, st *State, o Outcome) {
		page, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		l := st.G("last")
		if st.isNil(page) && st.isNil(err) {
			r.Ob("not-found", where)
			if m.clientSays(st) {
				return
			}
			if len(l) == 0 || !st.isNil(l[1]) || statusIn(st, statusOf(x, st, l[0]), 404) != 1 {
				r.Report("not-found", where, token.NoPos, st, "neither page nor error is returned although the status is not established to be 404")
			}
			return
		}
		if !st.isNil(page) {
			r.Ob("page", where)
			if len(l) == 0 || !st.isNil(l[1]) {
				r.Report("page", where, token.NoPos, st, "a page is returned without a response")
				return
			}
			if !st.entailsDiff(statusOf(x, st, l[0]), mkInt(400), -1) {
				r.Report("page", where, token.NoPos, st, "a page is returned although the status is not established to be below 400")
			}
			if !st.isNil(err) {
				r.Report("page", where, token.NoPos, st, "a page is returned together with error %v", err)
			}
			for f, path := range map[string][]string{"URL": {"Request", "URL"}, "Header": {"Header"}, "body": {"Body"}} {
				got := x.fieldVal(st, page, pageT, f)
				if got == nil || !loadOf(got, l[0], path...) {
					r.Report("page-"+f, where, token.NoPos, st, "the page's %s is %v, not the response's", f, got)
				}
			}
			return
		}
		if len(l) > 0 && st.isNil(l[1]) && len(st.G("cancelled")) == 0 && len(st.G("wait")) == 0 {
			s := statusOf(x, st, l[0])
			r.Ob("status-error", where)
			if !st.entailsDiff(mkInt(400), s, 0) && statusIn(st, s, tempStatus...) != 1 {
				r.Report("status-error", where, token.NoPos, st, "an error is returned although the status is not established to be 400 or above")
			}
			if statusIn(st, s, 404) != 0 {
				r.Report("status-error", where, token.NoPos, st, "an error may be returned for status 404")
			}
			if statusIn(st, s, tempStatus...) == 0 && !m.statusError(x, st, err, l[0]) {
				r.Report("status-error", where, token.NoPos, st, "the error %v does not carry the response's status and URL", err)
			}
		}
	})
	fn := r.P.Meth(pAnt, "FetchError", "Temporary")
	if fn == nil {
		r.Missing("FetchError.Temporary")
		return
	}
	T := r.P.Named(pAnt, "FetchError")
	r.Run(&Hooks{}, fn, "FetchError.Temporary", nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		s := x.fieldVal(st, args[0], T, "Status")
		for _, v := range tempStatus {
			c := st.clone()
			if !c.assume(mkEq(s, mkInt(v)), true) || !c.addDiff(s, mkInt(v), 0) || !c.addDiff(mkInt(v), s, 0) {
				continue
			}
			r.Ob("temporary", itoa(v))
			if !c.holds(o.res) {
				r.Report("temporary", "FetchError.Temporary "+itoa(v), fn.Pos(), st, "status %d is not entailed to be temporary: %v", v, o.res)
			}
		}
		c := st.clone()
		for _, v := range tempStatus {
			if !c.assume(mkEq(s, mkInt(v)), false) {
				return
			}
		}
		r.Ob("temporary", "others")
		if !c.refuted(o.res) {
			r.Report("temporary", "FetchError.Temporary others", fn.Pos(), st, "a status other than 429, 503, 504 may be temporary: %v", o.res)
		}
	})
	r.Need("page", 1)
	r.Need("not-found", 1)
	r.Need("status-error", 1)
	r.Need("temporary", 4)
}

func itoa(v int64) string { return constant.MakeInt64(v).String() }

// grows: t depends on a loop-carried counter and grows with it.
func grows(t *Term) bool {
	switch t.K {
	case KPhi:
		return true
	case KConv:
		return grows(t.Args[0])
	case KBin:
		switch t.Aux {
		case "+", "*":
			return (grows(t.Args[0]) || grows(t.Args[1])) && !shrinks(t.Args[0]) && !shrinks(t.Args[1])
		case "<<":
			return (grows(t.Args[0]) || grows(t.Args[1])) && !shrinks(t.Args[0]) && !shrinks(t.Args[1])
		case "-":
			return grows(t.Args[0]) && !grows(t.Args[1])
		case "/", ">>":
			return grows(t.Args[0]) && !grows(t.Args[1])
		}
	case KPure, KCall, KOld:
		for _, a := range t.Args {
			if grows(a) {
				return true
			}
		}
	}
	return false
}

func shrinks(t *Term) bool {
	if t.K == KBin && (t.Aux == "-" || t.Aux == "/" || t.Aux == ">>" || t.Aux == "%") {
		return anyTerm(t.Args[1], func(t *Term) bool { return t.K == KPhi })
	}
	for _, a := range t.Args {
		if t.K == KBin && shrinks(a) {
			return true
		}
	}
	return false
}

// coef: t is k times base.
func coef(t, base *Term) (int64, bool) {
	if t == base {
		return 1, true
	}
	switch {
	case t.K == KBin && t.Aux == "*":
		for i := 0; i < 2; i++ {
			if k, ok := t.Args[i].isInt(); ok {
				if c, ok := coef(t.Args[1-i], base); ok {
					return k * c, true
				}
			}
		}
	case t.K == KBin && t.Aux == "<<":
		if k, ok := t.Args[1].isInt(); ok && k >= 0 && k < 40 {
			if c, ok := coef(t.Args[0], base); ok {
				return c << uint(k), true
			}
		}
	case t.K == KConv:
		return coef(t.Args[0], base)
	case t.K == KBin && t.Aux == "+":
		a, ok1 := coef(t.Args[0], base)
		b, ok2 := coef(t.Args[1], base)
		if ok1 && ok2 {
			return a + b, true
		}
	}
	return 0, false
}

func checkF04(r *Result) {
	m := newFetch(r)
	if m == nil {
		return
	}
	h := &Hooks{}
	h.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		m.selectHook(x, st, k, chans)
		w := st.G("wait")
		if k < 0 || len(w) == 0 || timerDur(st, chans[k]) == nil {
			return
		}
		d := w[0]
		what := topFn(fr.fn)
		r.Ob("bounded", what)
		prev := st.G("prev")
		for _, c := range m.backoffCases(x, st) {
			if !c.st.entailsDiff(d, c.max, 0) {
				r.Report("bounded", what, i.Pos(), st, "the pause %v is not bounded by the maximum backoff %v", d, c.max)
			}
			if len(prev) == 0 {
				r.Ob("starts-at-min", what)
				if k, ok := coef(d, c.min); !(ok && k == 1) && !same(c.st, d, c.min) {
					r.Report("starts-at-min", what, i.Pos(), st, "the first pause is %v, not the minimum backoff", d)
				}
				continue
			}
			r.Ob("grows", what)
			if same(c.st, d, c.max) {
				continue
			}
			k0, ok0 := prev[0].isInt()
			k1, ok1 := coef(d, c.min)
			if ok0 && ok1 && k1 > k0 {
				continue
			}
			if !ok1 && grows(d) && (anyTerm(d, func(t *Term) bool { return t == c.min }) || d.K == KPhi) {
				continue
			}
			r.Report("grows", what, i.Pos(), st, "the pause %v does not grow with the attempts (previous one: %v)", d, prev[0])
		}
		st.SetG("prev", mkTok("grown"))
		for _, c := range m.backoffCases(x, st) {
			if k, ok := coef(d, c.min); ok {
				st.SetG("prev", mkInt(k))
			}
		}
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		if !isDo(c) {
			return
		}
		if len(st.G("last")) > 0 {
			r.Ob("pause", site(c))
			if len(st.G("wait")) == 0 {
				if len(st.G("deaf")) > 0 {
					r.Report("cancellable", site(c), c.Pos(), st, "the pause before the request is repeated does not end when the caller's context is cancelled")
				} else {
					r.Report("pause", site(c), c.Pos(), st, "the request is repeated without a pause")
				}
			}
			if len(st.G("cancelled")) > 0 {
				r.Report("cancelled", site(c), c.Pos(), st, "a request is made after the pause was cancelled")
			}
			r.Ob("consistent", site(c))
			for _, b := range m.backoffCases(x, st) {
				if !b.st.entailsDiff(b.min, b.max, -1) {
					r.Report("consistent", site(c), c.Pos(), st, "the request is repeated although the minimum backoff may not be below the maximum")
				}
			}
		}
		st.ClearG("deaf")
		m.sent(st, c)
		st.ClearG("wait")
	}
	m.run(h, func(x *Exec, st *State, o Outcome) {
		if len(st.G("cancelled")) == 0 {
			return
		}
		err := tupleAt(o.res, 1)
		r.Ob("cancelled", "(*Fetcher).Fetch")
		if !ctxErr(st, err, m.ctx) {
			r.Report("cancelled", "(*Fetcher).Fetch", token.NoPos, st, "a cancelled pause ends with %v, which does not carry the context's error", err)
		}
	}, "MinBackoff", "MaxBackoff")
	for name, want := range map[string]int64{"minBackoff": 50e6, "maxBackoff": 1e9} {
		r.Ob("defaults", name)
		if v, ok := r.P.globalInit(pAnt, name); ok && v != want {
			r.Report("defaults", name, token.NoPos, nil, "the default of %s is %dns, documented %dns", name, v, want)
		} else if !ok {
			r.Missing("default " + name)
		}
	}
	r.Need("bounded", 1)
	r.Need("starts-at-min", 1)
	r.Need("grows", 1)
	r.Need("pause", 1)
	r.Need("cancelled", 1)
}

// ctxErr: the error carries ctx.Err() (or the cause).
func ctxErr(st *State, err, ctx *Term) bool {
	switch err.K {
	case KWrap:
		for _, a := range err.Args {
			if ctxErr(st, a, ctx) {
				return true
			}
		}
	case KPure, KCall:
		return (err.Aux == "(context.Context).Err" || err.Aux == "context.Cause") && derived(err.Args[0], ctx)
	}
	return false
}

// isGlobalOf: t is the value of one of the library's package variables.
func isGlobalOf(t *Term, name string) bool {
	t = strip(t)
	return t.K == KLoad && t.Args[0].K == KGlobal && t.Args[0].Aux == pAnt+"."+name
}

// request is what is known about an HTTP request.
type request struct {
	ctx, method, url, rawurl, body, header *Term
}

// requestOf finds how a request was built.
func requestOf(x *Exec, st *State, t *Term) *request {
	T := x.P.httpReq()
	q := &request{}
	base := t
	for base.K == KCall && (strings.HasSuffix(base.Aux, "Request).Clone") || strings.HasSuffix(base.Aux, "Request).WithContext")) {
		if q.ctx == nil {
			q.ctx = base.Args[1]
		}
		base = base.Args[0]
	}
	switch {
	case base.K == KExtract && base.Args[0].K == KCall && base.Args[0].Aux == "net/http.NewRequestWithContext":
		a := base.Args[0].Args
		if q.ctx == nil {
			q.ctx = a[0]
		}
		q.method, q.rawurl, q.body = a[1], a[2], a[3]
	case base.K == KExtract && base.Args[0].K == KCall && base.Args[0].Aux == "net/http.NewRequest":
		a := base.Args[0].Args
		if q.ctx == nil {
			q.ctx = mkPure("context.Background", nil)
		}
		q.method, q.rawurl, q.body = a[0], a[1], a[2]
	case base.K == KAlloc:
		q.method = x.fieldVal(st, base, T, "Method")
		q.url = x.fieldVal(st, base, T, "URL")
		q.body = x.fieldVal(st, base, T, "Body")
		if q.ctx == nil {
			q.ctx = mkPure("context.Background", nil)
		}
	default:
		return nil
	}
	q.header = x.fieldVal(st, t, T, "Header")
	return q
}

func checkF05(r *Result) {
	m := newFetch(r)
	if m == nil {
		return
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		if !isDo(c) {
			return
		}
		what := site(c)
		r.Ob("page-request", what)
		q := requestOf(x, st, c.Arg(1))
		if q == nil {
			r.Report("page-request", what, c.Pos(), st, "cannot tell how the request %v was built", c.Arg(1))
			return
		}
		cl := x.fieldVal(st, m.f, m.T, "Client")
		r.Ob("page-client", what)
		if st.nonNil(cl) && strip(c.Arg(0)) != strip(cl) || st.isNil(cl) && !isGlobalOf(c.Arg(0), "DefaultClient") || !st.nonNil(cl) && !st.isNil(cl) {
			r.Report("page-client", what, c.Pos(), st, "the page request is sent through %v, not the configured client (or the default)", c.Arg(0))
		}
		if !derived(q.ctx, m.ctx) {
			r.Report("page-context", what, c.Pos(), st, "the page request runs under %v, not the caller's context", q.ctx)
		}
		if s, ok := q.method.isStr(); !ok || s != "GET" && s != "" {
			r.Report("page-method", what, c.Pos(), st, "the page request's method is %v", q.method)
		}
		if q.url != m.url && !(q.rawurl != nil && q.rawurl.K == KPure && q.rawurl.Aux == "(*net/url.URL).String" && q.rawurl.Args[0] == m.url) {
			r.Report("page-url", what, c.Pos(), st, "the page request's URL is %v %v, not the one given", q.rawurl, q.url)
		}
		if !st.isNil(q.body) {
			r.Report("page-method", what, c.Pos(), st, "the page request has a body %v", q.body)
		}
		ua := x.headerGet(st, q.header, mkStr("User-Agent"))
		conf := x.fieldVal(st, m.f, m.T, "UserAgent")
		r.Ob("user-agent", what)
		switch {
		case st.isNil(conf) && defaultAgent(ua):
		case st.nonNil(conf) && isCallOf(ua, "(fmt.Stringer).String") && strip(callArgs(ua)[0]) == strip(conf):
		default:
			r.Report("user-agent", what, c.Pos(), st, "the page request's User-Agent is %v, not the configured one (or the default)", ua)
		}
		acc := x.headerGet(st, q.header, mkStr("Accept"))
		if s, ok := acc.isStr(); !ok || !strings.HasPrefix(s, "text/html") {
			r.Report("accept", what, c.Pos(), st, "the page request's Accept header is %v", acc)
		}
	}
	m.run(h, func(x *Exec, st *State, o Outcome) {})

	for _, root := range []string{"Allowed", "Wait"} {
		fn := r.P.Meth(pRobots, "Cache", root)
		var recv, ctx, arg *Term
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) {
			if !isDo(c) {
				return
			}
			what := site(c) + " from " + root
			r.Ob("robots-request", what)
			q := requestOf(x, st, c.Arg(1))
			if q == nil {
				r.Report("robots-request", what, c.Pos(), st, "cannot tell how the request %v was built", c.Arg(1))
				return
			}
			u, ua := robotsReq(x, st, arg)
			if !derived(q.ctx, ctx) {
				r.Report("robots-context", what, c.Pos(), st, "the robots.txt request runs under %v, not the caller's context", q.ctx)
			}
			if s, ok := q.method.isStr(); !ok || s != "GET" && s != "" {
				r.Report("robots-method", what, c.Pos(), st, "the robots.txt request's method is %v", q.method)
			}
			if msg := robotsURL(x, st, q, u); msg != "" {
				r.Report("robots-url", what, c.Pos(), st, "%s", msg)
			}
			r.Ob("robots-agent", what)
			got := x.headerGet(st, q.header, mkStr("User-Agent"))
			if same(st, got, ua) || st.holds(mkEq(ua, mkStr(""))) {
				return
			}
			r.Report("robots-agent", what, c.Pos(), st, "the robots.txt request's User-Agent is %v, not the one the rules are evaluated for (%v)", got, ua)
		}
		r.Run(h, fn, "(*robots.Cache)."+root, func(x *Exec, st *State, args []*Term) {
			recv, ctx, arg = args[0], args[1], args[2]
			_ = recv
		}, nil)
	}
	r.Need("page-request", 1)
	r.Need("user-agent", 1)
	r.Need("robots-request", 2)
}

// robotsURL: the request is for scheme://host/robots.txt of u.
func robotsURL(x *Exec, st *State, q *request, u *Term) string {
	if q.rawurl != nil {
		ps := urlParts(x, st, q.rawurl)
		if len(ps) == 4 && loadOf(ps[0], u, "Scheme") && isStrTerm(ps[1], "://") && loadOf(ps[2], u, "Host") && isStrTerm(ps[3], "/robots.txt") {
			return ""
		}
		// a URL value rendered
		if q.rawurl.K == KPure && q.rawurl.Aux == "(*net/url.URL).String" {
			return robotsURLVal(x, st, q.rawurl.Args[0], u)
		}
		return "the robots.txt request is for " + q.rawurl.String()
	}
	return robotsURLVal(x, st, q.url, u)
}

func robotsURLVal(x *Exec, st *State, v, u *Term) string {
	T := x.P.httpURL()
	if v.K == KPure && (v.Aux == "(*net/url.URL).JoinPath" || v.Aux == "(*net/url.URL).ResolveReference") {
		return "the robots.txt request is for " + v.String()
	}
	if loadOf(x.fieldVal(st, v, T, "Scheme"), u, "Scheme") && loadOf(x.fieldVal(st, v, T, "Host"), u, "Host") && isStrTerm(x.fieldVal(st, v, T, "Path"), "/robots.txt") {
		return ""
	}
	return "the robots.txt request is for " + v.String()
}

func isStrTerm(t *Term, s string) bool {
	v, ok := t.isStr()
	return ok && v == s
}

// urlParts splits a string into its concatenated parts, adjacent constants
// joined; Sprintf with %s verbs counts as concatenation.
func urlParts(x *Exec, st *State, t *Term) []*Term {
	var ps []*Term
	if t.K == KCall && t.Aux == "fmt.Sprintf" || t.K == KPure && t.Aux == "fmt.Sprintf" {
		f, ok := t.Args[0].isStr()
		els, ok2 := x.sliceElems(st, t.Args[1])
		if ok && ok2 {
			lit := strings.Split(f, "%s")
			if len(lit) == len(els)+1 {
				for i, l := range lit {
					if l != "" {
						ps = append(ps, mkStr(l))
					}
					if i < len(els) {
						ps = append(ps, strip(els[i]))
					}
				}
				return ps
			}
		}
	}
	for _, p := range concat(t) {
		if s, ok := p.isStr(); ok && len(ps) > 0 {
			if s0, ok := ps[len(ps)-1].isStr(); ok {
				ps[len(ps)-1] = mkStr(s0 + s)
				continue
			}
		}
		ps = append(ps, p)
	}
	return ps
}

// callArgs are the arguments of the call a result belongs to.
func callArgs(t *Term) []*Term {
	for t.K == KExtract {
		t = t.Args[0]
	}
	if t.K == KOld && t.Prev != nil {
		return callArgs(t.Prev)
	}
	return t.Args
}
