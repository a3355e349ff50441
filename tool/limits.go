package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L01", "provenance of every URL text the values returned by the exported matcher and limiter constructors test, over every path: exactly Host followed by the path, preceded by a slash where the path does not begin with one, treated alike for empty paths by all of them, against the constructor's own expression; host tests are equality with the whole Host", checkL01)
	register("L02", "over every path of the values returned by the exported limiter constructors: where the test holds (or there is none) one Wait on the limiter created once by the constructor with its rate, under the caller's context, whose error is the result; where the test fails no wait and no error", checkL02)
}

// invoke calls a method of a value, or the value itself, as a later client
// would.
func (x *Exec) invoke(st *State, v *Term, method string, args ...*Term) []Outcome {
	b := strip(v)
	T := v.Typ
	if v.K == KIface && v.Args[0].Typ != nil {
		T = v.Typ
	}
	if T != nil {
		if fn := x.P.Method(T, "."+method); fn != nil {
			self := v
			if v.K == KIface {
				self = v.Args[0]
			}
			return x.execFn(fn, append([]*Term{self}, args...), nil, st, in.ctx(nil, nil, fn, "then"), nil)
		}
	}
	if b.K == KClosure || b.K == KFunc {
		return x.execFn(b.Fn, args, b.Args, st, in.ctx(nil, nil, b.Fn, "then"), nil)
	}
	return nil
}

type gate struct {
	fn     *ssa.Function
	method string
}

// gates are the exported constructors of built-in matchers and limiters.
func gates(P *Prog) []gate {
	var out []gate
	for _, fn := range P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fnPkg(fn) != pAnt || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 1 {
			continue
		}
		for _, m := range []string{"Matcher", "Limiter"} {
			n := P.Named(pAnt, m)
			if n == nil {
				continue
			}
			it, ok := n.Underlying().(*types.Interface)
			if ok && types.Implements(rs.At(0).Type(), it) {
				out = append(out, gate{fn, strings.TrimSuffix(strings.TrimSuffix(m, "er"), "")})
			}
		}
	}
	return out
}

// urlTest is a test of a URL against a constructor's argument.
type urlTest struct {
	text, expr, res *Term
	kind            string
}

// testOf recognises a call that tests a text.
func testOf(c *Call) *urlTest {
	switch c.Name {
	case "github.com/tidwall/match.Match":
		return &urlTest{c.Arg(0), c.Arg(1), c.Res, "pattern"}
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
		return &urlTest{c.Arg(1), c.Arg(0), c.Res, "regexp"}
	}
	return nil
}

// compiledFrom: the regexp is the compilation of the constructor's own
// expression.
func compiledFrom(st *State, re *Term, params []*Term) bool {
	c := re
	if c.K == KExtract {
		c = c.Args[0]
	}
	if c.K != KCall && c.K != KPure || len(c.Args) < 1 {
		return false
	}
	switch c.Aux {
	case "regexp.Compile", "regexp.MustCompile":
		return isParamOf(strip(c.Args[0]), params)
	}
	return false
}

func isParamOf(t *Term, params []*Term) bool {
	for _, p := range params {
		if t == p {
			return true
		}
	}
	return false
}

// hostPath judges the text a URL is tested by; kind tells how an empty path
// is treated.
func hostPath(x *Exec, st *State, t, u *Term) (bad, empty string) {
	for t.K == KConv {
		t = t.Args[0]
	}
	ps := urlParts(x, st, t)
	i := 0
	if len(ps) == 0 || !loadOf(ps[0], u, "Host") {
		return "does not begin with the URL's whole host", ""
	}
	i++
	slash := false
	if i < len(ps) && isStrTerm(ps[i], "/") {
		slash = true
		i++
	}
	path := x.fieldVal(st, u, x.P.httpURL(), "Path")
	if i < len(ps) && loadOf(ps[i], u, "Path") {
		i++
	} else if !isEmptyStr(st, path) {
		return "does not contain the URL's path", ""
	}
	if i < len(ps) {
		return "contains more than the host and the path", ""
	}
	mayEmpty := !st.refuted(mkEq(path, mkStr(""))) && !st.entailsDiff(tOneInt, mkLen(path), 0)
	r := rooted(st, path)
	switch {
	case slash && r == 1:
		return "has two slashes after the host", ""
	case slash && r == -1 && !isEmptyStr(st, path):
		return "has another slash in front of a path that may already begin with one", ""
	case !slash && r != 1 && !isEmptyStr(st, path):
		return "has no slash between the host and a path that may not begin with one", ""
	}
	if mayEmpty && r != 1 {
		if slash {
			empty = "host/"
		} else {
			empty = "host"
		}
	}
	return "", empty
}

var tOneInt = mkInt(1)

func isEmptyStr(st *State, s *Term) bool {
	return isStrTerm(s, "") || st.entailsDiff(mkLen(s), tZeroInt, 0) || st.holds(mkEq(s, mkStr(""))) || st.holds(mkEq(mkLen(s), tZeroInt))
}

// exactly: a boolean result is true where t is and false where it is not.
func exactly(st *State, res, t *Term) bool {
	for _, v := range []bool{true, false} {
		q := st.clone()
		if !q.assume(t, v) {
			continue
		}
		if v && !q.holds(res) || !v && !q.refuted(res) {
			return false
		}
	}
	return true
}

// runGate calls the constructor and then what it returns.
func (r *Result) runGate(g gate, call func(x *Exec, st *State, c *Call, built bool, params []*Term), end func(x *Exec, st *State, params []*Term, u, ctx *Term, o Outcome)) {
	where := fnLabel(g.fn)
	built := false
	var params []*Term
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) { call(x, st, c, built, params) }
	r.curRoot = where
	x := r.NewExec(h)
	st := newState()
	params = x.Params(g.fn, st)
	u := mkParam("u", types.NewPointer(r.P.httpURL()))
	ctx := mkParam("ctx", r.P.stdType("context", "Context"))
	st.assume(mkEq(u, tNil), false)
	for _, o := range x.Root(g.fn, st, params...) {
		if o.panic {
			continue
		}
		built = true
		var outs []Outcome
		if g.method == "Limit" {
			outs = x.invoke(o.st, o.res, g.method, ctx, u)
		} else {
			outs = x.invoke(o.st, o.res, g.method, u)
		}
		built = false
		if outs == nil {
			r.Report("undecided", where, g.fn.Pos(), o.st, "what the constructor returns could not be followed: %v", o.res)
		}
		for _, o := range outs {
			if !o.panic {
				end(x, o.st, params, u, ctx, o)
			}
		}
	}
	r.Done(x, where)
	r.curRoot = ""
}

// recordTest keeps what a URL was tested for.
func recordTest(st *State, c *Call) {
	if t := testOf(c); t != nil {
		st.AddG("test", in.mk(Term{K: KTuple, Args: []*Term{t.text, t.expr, t.res, mkTok(t.kind)}}))
	}
}

// strParams are the constructor's string arguments.
func strParams(ps []*Term) (out []*Term) {
	for _, p := range ps {
		if p.Typ != nil && isStringT(p.Typ) {
			out = append(out, p)
		}
	}
	return
}

func checkL01(r *Result) {
	gs := gates(r.P)
	if len(gs) == 0 {
		r.Missing("the exported matcher and limiter constructors")
		return
	}
	empties := map[string]string{}
	for _, g := range gs {
		where := fnLabel(g.fn)
		r.runGate(g, func(x *Exec, st *State, c *Call, built bool, params []*Term) {
			if !built {
				return
			}
			recordTest(st, c)
		}, func(x *Exec, st *State, params []*Term, u, ctx *Term, o Outcome) {
			sp := strParams(params)
			if len(sp) == 0 {
				return
			}
			host := x.fieldVal(st, u, x.P.httpURL(), "Host")
			ts := st.G("test")
			switch len(ts) {
			case 0:
				r.Ob("host", where)
				eq := mkEq(host, sp[0])
				if g.method == "Match" {
					if !exactly(st, o.res, eq) {
						r.Report("host", where, g.fn.Pos(), st, "the result is not whether the URL's whole host equals the given one: %v", o.res)
					}
				} else if !st.holds(eq) && !st.refuted(eq) {
					r.Report("host", where, g.fn.Pos(), st, "the limiter decides without comparing the URL's whole host with the given one")
				}
				return
			case 1:
			default:
				r.Report("text", where, g.fn.Pos(), st, "the URL is tested more than once")
				return
			}
			t := ts[0]
			text, expr, res, kind := t.Args[0], t.Args[1], t.Args[2], t.Args[3].Aux
			r.Ob("text", where)
			bad, empty := hostPath(x, st, text, u)
			if bad != "" {
				r.Report("text", where, g.fn.Pos(), st, "the text tested %s: %v", bad, text)
			}
			if empty != "" {
				if o, ok := empties[empty]; !ok || where < o {
					empties[empty] = where
				}
			}
			r.Ob("expression", where)
			if kind == "pattern" && !isParamOf(strip(expr), sp) || kind == "regexp" && !compiledFrom(st, expr, sp) {
				r.Report("expression", where, g.fn.Pos(), st, "the text is not tested against the constructor's own expression: %v", expr)
			}
			if g.method == "Match" {
				r.Ob("result", where)
				if !exactly(st, o.res, res) {
					r.Report("result", where, g.fn.Pos(), st, "the result is not the outcome of the test: %v", o.res)
				}
			}
		})
	}
	r.Ob("alike", "empty paths")
	if len(empties) > 1 {
		r.Report("alike", "empty paths", token.NoPos, nil, "a URL with an empty path is tested as its bare host by %s and with a slash by %s", empties["host"], empties["host/"])
	}
	r.Need("text", 4)
	r.Need("host", 2)
	r.Need("expression", 4)
}

func checkL02(r *Result) {
	n := 0
	for _, g := range gates(r.P) {
		if g.method != "Limit" {
			continue
		}
		n++
		where := fnLabel(g.fn)
		r.runGate(g, func(x *Exec, st *State, c *Call, built bool, params []*Term) {
			const lim = "(*golang.org/x/time/rate.Limiter)."
			switch c.Name {
			case "golang.org/x/time/rate.NewLimiter":
				r.Ob("bucket", where)
				if built {
					r.Report("bucket", where, c.Pos(), st, "a bucket is created for each request instead of once")
				}
				st.AddG("bucket", c.Res)
			case lim + "Wait", lim + "WaitN":
				st.AddG("waits", in.mk(Term{K: KTuple, Args: append([]*Term{c.Res}, c.Args...)}))
				st.SetG("+waits", addConst(one0(st.G("+waits")), 1))
			default:
				if strings.HasPrefix(c.Name, lim) && built {
					r.Report("token", where, c.Pos(), st, "the bucket is used other than by waiting for a token: %s", c.Name)
				}
				recordTest(st, c)
			}
		}, func(x *Exec, st *State, params []*Term, u, ctx *Term, o Outcome) {
			applies := true
			sp := strParams(params)
			if len(sp) > 0 {
				var t *Term
				if ts := st.G("test"); len(ts) > 0 {
					t = ts[0].Args[2]
				} else {
					t = mkEq(x.fieldVal(st, u, x.P.httpURL(), "Host"), sp[0])
				}
				switch {
				case st.holds(t):
				case st.refuted(t):
					applies = false
				default:
					r.Report("decides", where, g.fn.Pos(), st, "a URL passes without having been tested")
					return
				}
			}
			ws := st.G("waits")
			if !applies {
				r.Ob("passes", where)
				if len(ws) > 0 || !st.isNil(o.res) {
					r.Report("passes", where, g.fn.Pos(), st, "a URL the limiter does not apply to is delayed or refused: %v", o.res)
				}
				return
			}
			r.Ob("waits", where)
			if len(ws) != 1 {
				r.Report("waits", where, g.fn.Pos(), st, "a URL the limiter applies to passes after waiting for %d tokens, want one", len(ws))
				return
			}
			w := ws[0]
			res, b, wc := w.Args[0], w.Args[1], w.Args[2]
			if !derived(wc, ctx) {
				r.Report("context", where, g.fn.Pos(), st, "the wait is not under the caller's context: %v", wc)
			}
			if len(w.Args) > 3 && !isOne(w.Args[3]) {
				r.Report("waits", where, g.fn.Pos(), st, "other than one token is waited for")
			}
			if !(carries(st, o.res, res) && (o.res == res || st.nonNil(res))) && !(st.isNil(res) && st.isNil(o.res)) {
				r.Report("result", where, g.fn.Pos(), st, "the result is not the outcome of the wait: %v", o.res)
			}
			r.Ob("result", where)
			if b.K != KCall || b.Aux != "golang.org/x/time/rate.NewLimiter" {
				r.Report("bucket", where, g.fn.Pos(), st, "the wait is not on the bucket the constructor created: %v", b)
				return
			}
			rate, burst := strip(b.Args[0]), strip(b.Args[1])
			if !isParamOf(rate, params) {
				r.Report("rate", where, g.fn.Pos(), st, "the bucket's rate is not the configured one: %v", rate)
			}
			if burst != rate && !isOne(burst) {
				r.Report("rate", where, g.fn.Pos(), st, "the bucket's burst is neither the configured rate nor one: %v", burst)
			}
			r.Ob("rate", where)
		})
	}
	if n == 0 {
		r.Missing("the exported limiter constructors")
	}
	r.Need("waits", 4)
	r.Need("passes", 3)
	r.Need("rate", 4)
}

func one0(ts []*Term) *Term {
	if len(ts) == 0 {
		return tZeroInt
	}
	return ts[0]
}
