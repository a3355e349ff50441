package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("N01", "the value of every component of the URL at every exit of the normalising functions, as a term over the components given: scheme and host lower-cased on every path; the host without its port exactly where the path's conditions say the port, taken after the last colon, is the scheme's default; the path cleaned below a root; the query's parts sorted before they are joined; fragment, forced query and raw path cleared; the text form is that of the normalised URL", checkN01)
}

type norm struct {
	r *Result
	T types.Type
	u *Term // the URL given
}

func (n *norm) fld(name string) (int, *types.Var) { return n.r.P.Field(n.T, name) }

// get is the field's value now, of the URL at v.
func (n *norm) get(x *Exec, st *State, v *Term, name string) *Term {
	i, f := n.fld(name)
	return x.load(st, mkFieldAddr(v, i, f), f.Type())
}

func checkN01(r *Result) {
	n := &norm{r: r, T: r.P.httpURL()}
	urlT := types.NewPointer(n.T)
	found := 0
	for _, fn := range r.P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fnPkg(fn) != pNorm || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() == 0 {
			continue
		}
		p0 := sig.Params().At(0).Type()
		text := isStringT(p0)
		if !text && !types.Identical(p0, urlT) {
			continue
		}
		found++
		where := fnLabel(fn)
		orig := map[string]*Term{}
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) {
			switch {
			case strings.HasPrefix(c.Name, "sort.") || strings.HasPrefix(c.Name, "slices.Sort"):
				for _, a := range c.Args {
					st.AddG("sorted", sortedArg(a))
				}
			case strings.HasPrefix(c.Name, "strings."), strings.HasPrefix(c.Name, "(*net/url.URL)."), strings.HasPrefix(c.Name, "path."), strings.HasPrefix(c.Name, "net."):
				st.AddG("fact", c.Res)
				if c.Name == "strings.Join" {
					// sorted, or nothing to sort
					if a := strip(c.Arg(0)); st.HasG("sorted", a) || st.entailsDiff(mkLen(a), tZeroInt, 1) {
						st.AddG("joined", c.Res)
					}
				}
			case c.Name == "net/url.Parse", c.Name == "net/url.ParseRequestURI":
				if text && strip(c.Arg(0)) == n.u {
					u := mkExtract(c.Res, 0, urlT)
					for _, f := range []string{"Scheme", "Host", "Path", "RawQuery"} {
						orig[f] = n.get(x, st, u, f)
					}
					st.SetG("parsed", c.Res)
				}
			}
		}
		r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
			n.u = args[0]
			if !text {
				st.assume(mkEq(n.u, tNil), false)
				for _, f := range []string{"Scheme", "Host", "Path", "RawQuery"} {
					orig[f] = n.get(x, st, n.u, f)
				}
			}
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			res := tupleAt(o.res, 0)
			if k := errResult(fn); k > 0 {
				e := tupleAt(o.res, k)
				r.Ob("outcome", where)
				for _, c := range st.G("parsed") {
					if pe := mkExtract(c, 1, errT); !st.isNil(pe) {
						if !(st.nonNil(e) && carries(st, e, pe)) && e != pe {
							r.Report("outcome", where, token.NoPos, st, "a URL that cannot be parsed is not reported: %v", e)
						}
					} else if !st.isNil(e) && e != pe {
						r.Report("outcome", where, token.NoPos, st, "an error is returned although the URL was parsed: %v", e)
					}
				}
				if st.nonNil(e) {
					return
				}
			}
			u := strip(res)
			if text {
				if u.K != KPure || u.Aux != "(*net/url.URL).String" {
					r.Report("text", where, token.NoPos, st, "the result is not the text of the normalised URL: %v", res)
					return
				}
				u = strip(u.Args[0])
			}
			if len(orig) == 0 {
				r.Report("text", where, token.NoPos, st, "the URL normalised is not the one given: %v", u)
				return
			}
			r.Ob("text", where)
			n.exit(x, st, u, orig, where)
		})
	}
	if found < 2 {
		r.Missing("the functions normalising a URL and its text")
	}
	for _, k := range []string{"scheme", "host", "path", "query", "fragment", "text"} {
		r.Need(k, 2)
	}
}

func sortedArg(a *Term) *Term {
	a = strip(a)
	for a.K == KConv || a.K == KIface {
		a = strip(a.Args[0])
	}
	return a
}

func (n *norm) exit(x *Exec, st *State, u *Term, orig map[string]*Term, where string) {
	r := n.r
	low := func(t *Term) *Term { return mkPure("strings.ToLower", types.Typ[types.String], t) }
	r.Ob("scheme", where)
	scheme := n.get(x, st, u, "Scheme")
	if scheme != low(orig["Scheme"]) {
		r.Report("scheme", where, token.NoPos, st, "the scheme is not lower-cased: %v", scheme)
	}
	r.Ob("host", where)
	host := n.get(x, st, u, "Host")
	if bad := n.host(st, host, low(orig["Host"]), scheme); bad != "" {
		r.Report("host", where, token.NoPos, st, "%s: %v", bad, host)
	}
	r.Ob("path", where)
	p := n.get(x, st, u, "Path")
	if !n.path(st, p, orig["Path"]) {
		r.Report("path", where, token.NoPos, st, "the path may be empty or keep dot segments: %v", p)
	}
	if rp := n.get(x, st, u, "RawPath"); !isEmptyStr(st, rp) {
		r.Report("path", where, token.NoPos, st, "the encoded form of the path is kept as it was: %v", rp)
	}
	r.Ob("query", where)
	q := n.get(x, st, u, "RawQuery")
	if !n.query(st, q, orig["RawQuery"]) {
		r.Report("query", where, token.NoPos, st, "the query's parameters are not sorted: %v", q)
	}
	if f := n.get(x, st, u, "ForceQuery"); f != tFalse && !st.refuted(f) {
		r.Report("query", where, token.NoPos, st, "a forced empty query is kept: %v", f)
	}
	r.Ob("fragment", where)
	if f := n.get(x, st, u, "Fragment"); !isEmptyStr(st, f) {
		r.Report("fragment", where, token.NoPos, st, "the fragment is kept: %v", f)
	}
}

// colon: t is the position of the last colon of h.
func colon(t, h *Term) bool {
	return isPureOf(t, "strings.LastIndexByte", "strings.LastIndex") && strip(t.Args[0]) == h && isSep(t.Args[1], ":")
}

func isSep(t *Term, s string) bool {
	t = strip(t)
	if v, ok := t.isStr(); ok {
		return v == s
	}
	k, ok := t.isInt()
	return ok && len(s) == 1 && k == int64(s[0])
}

// port: t is the port of h.
func port(t, h *Term) bool {
	if t.K == KSlice && t.Args[0] == h && t.Args[2] == tNil {
		b, k := lin(t.Args[1])
		return k == 1 && colon(b, h)
	}
	return false
}

func (n *norm) host(st *State, host, h, scheme *Term) string {
	defaults := map[string]string{"http": "80", "https": "443"}
	eq := func(a *Term, s string) *Term { return mkEq(a, mkStr(s)) }
	terms := func(f func(t *Term)) {
		for a := range st.atoms {
			anyTerm(a, func(t *Term) bool { f(t); return false })
		}
		for _, a := range st.G("fact") {
			anyTerm(a, func(t *Term) bool { f(t); return false })
		}
	}
	// known: the path's conditions say whether the port is p
	known := func(p string, want bool) bool {
		ok := false
		terms(func(t *Term) {
			switch {
			case port(t, h), isPureOf(t, "(*net/url.URL).Port"):
				e := eq(t, p)
				if want && st.holds(e) || !want && st.refuted(e) {
					ok = true
				}
			case isPureOf(t, "strings.HasSuffix") && strip(t.Args[0]) == h && isSep(t.Args[1], ":"+p):
				if want && st.holds(t) || !want && st.refuted(t) {
					ok = true
				}
			case !want && colon(t, h):
				if st.entailsDiff(t, tZeroInt, -1) || st.holds(mkEq(t, mkInt(-1))) {
					ok = true
				}
			case !want && isPureOf(t, "strings.Contains", "strings.ContainsRune") && strip(t.Args[0]) == h && isSep(t.Args[1], ":"):
				if st.refuted(t) {
					ok = true
				}
			case t.K == KExtract && t.I == 1 && isPureOf(t.Args[0], "strings.CutSuffix") && strip(t.Args[0].Args[0]) == h && isSep(t.Args[0].Args[1], ":"+p):
				if want && st.holds(t) || !want && st.refuted(t) {
					ok = true
				}
			}
		})
		return ok
	}
	host = strip(host)
	trimmed := "" // the port already taken off
	for {
		if isPureOf(host, "strings.TrimSuffix") {
			for s, p := range defaults {
				if isSep(host.Args[1], ":"+p) {
					if !st.holds(eq(scheme, s)) {
						return "port " + p + " may be removed for another scheme than " + s
					}
					trimmed = p
				}
			}
			if trimmed == "" {
				return "the host is not the given one in lower case"
			}
			host = strip(host.Args[0])
			continue
		}
		break
	}
	if host.K == KExtract && host.I == 0 && isPureOf(host.Args[0], "strings.CutSuffix") {
		for s, p := range defaults {
			if isSep(host.Args[0].Args[1], ":"+p) {
				if !st.holds(eq(scheme, s)) {
					return "port " + p + " may be removed for another scheme than " + s
				}
				trimmed = p
			}
		}
		host = strip(host.Args[0].Args[0])
	}
	if host.K == KSlice && host.Args[0] == h && (host.Args[1] == tNil || host.Args[1] == tZeroInt) {
		cut := colon(host.Args[2], h)
		for s, p := range defaults {
			if st.holds(eq(scheme, s)) && known(p, true) {
				if b, k := lin(host.Args[2]); b.K == KLen && b.Args[0] == h && k == -int64(len(p)+1) {
					cut = true
				}
				if cut {
					return ""
				}
			}
		}
		return "a port may be removed that is not the scheme's default, or more than the port"
	}
	if host != h {
		return "the host is not the given one in lower case"
	}
	for s, p := range defaults {
		if trimmed == p && st.holds(eq(scheme, s)) {
			continue
		}
		if !st.refuted(eq(scheme, s)) && !known(p, false) {
			return "the default port " + p + " may be kept with scheme " + s
		}
	}
	return ""
}

// path: p is the path given, cleaned below a root.
func (n *norm) path(st *State, p, orig *Term) bool {
	p = strip(p)
	if v, ok := p.isStr(); ok {
		return v == "/" && (isEmptyStr(st, orig) || inConsts(st, orig, "", "/"))
	}
	if p == orig {
		return st.holds(mkEq(orig, mkStr("/")))
	}
	rooted := st.holds(mkPure("strings.HasPrefix", types.Typ[types.Bool], orig, mkStr("/")))
	// below a root: "/" + path
	under := func(t *Term) bool {
		t = strip(t)
		if t == orig {
			return rooted
		}
		return t.K == KBin && t.Aux == "+" && isSep(t.Args[0], "/") && strip(t.Args[1]) == orig
	}
	switch {
	case isPureOf(p, "path.Clean"):
		return under(p.Args[0])
	case isPureOf(p, "path.Join"):
		// variadic arguments: a slice, then its elements where known
		els := p.Args
		for len(els) > 0 && els[0].K == KSlice {
			els = els[1:]
		}
		if len(els) == 2 && isSep(els[0], "/") && strip(els[1]) == orig {
			return true
		}
		return len(els) == 1 && under(els[0])
	case p.K == KBin && p.Aux == "+" && isSep(p.Args[0], "/"):
		// "/" + what is left of a cleaned rooted path
		q := strip(p.Args[1])
		if isPureOf(q, "strings.TrimPrefix", "strings.TrimLeft") {
			return n.path(st, q.Args[0], orig)
		}
	}
	return false
}

func (n *norm) query(st *State, q, orig *Term) bool {
	q = strip(q)
	if v, ok := q.isStr(); ok {
		return v == "" && isEmptyStr(st, orig)
	}
	if q == orig {
		return isEmptyStr(st, orig) || st.refuted(mkPure("strings.Contains", types.Typ[types.Bool], orig, mkStr("&"))) ||
			st.refuted(mkPure("strings.ContainsRune", types.Typ[types.Bool], orig, mkConst(constant.MakeInt64('&'), types.Typ[types.Int32])))
	}
	if !isPureOf(q, "strings.Join") || !isSep(q.Args[1], "&") || !st.HasG("joined", q) {
		return false
	}
	parts := strip(q.Args[0])
	return isPureOf(parts, "strings.Split") && strip(parts.Args[0]) == orig && isSep(parts.Args[1], "&")
}
