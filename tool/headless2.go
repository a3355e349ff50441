package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X03", "order and dataflow on every path of the headless client's Do: navigating is preceded by error-free setup (page and network domains, every header and cookie of the request, the streams the answer is read from) and asks for the request's URL; status and headers are stored only from a response event known to be the document's of the navigated frame, all headers of it; the rendered document is read after the ready event; body, length and length header come from it, every browser cookie is added, the request is the caller's; requests waited for are documents' of the frame; success means no step failed, failure no response", checkX03)
}

const cdpNetwork = "/protocol/network"

// opName is "Domain.Method" for a call of the protocol's client.
func opName(name string) string {
	p := "(" + cdpMod + "."
	if !strings.HasPrefix(name, p) {
		return ""
	}
	return strings.Replace(name[len(p):], ")", "", 1)
}

// eventOf is the event of the named type t comes from.
func eventOf(st *State, t *Term, name string) *Term {
	var e *Term
	reachAny(st, t, func(t *Term) bool {
		if t.K != KFieldAddr && t.K != KIndexAddr && t.Typ != nil && isPtr(t) && inCDP(t.Typ, cdpNetwork, name) {
			e = t
		}
		return e != nil
	})
	return e
}

type answer struct {
	*headless
}

// field is a field of the struct v points to or is.
func (a *answer) field(x *Exec, st *State, v *Term, name string) *Term {
	if v == nil || v.Typ == nil {
		return tNil
	}
	if t := x.fieldVal(st, v, v.Typ, name); t != nil {
		return t
	}
	return tNil
}

// mainDoc: the event is about the document of the navigated frame.
func (a *answer) mainDoc(st *State, e *Term) (doc, frame bool) {
	doc = st.HasG("isdoc", e)
	frame = st.HasG("isframe", e)
	return
}

// frameOf: t is the frame that was navigated.
func isFrameOf(st *State, t *Term) bool {
	return reachAny(st, t, func(t *Term) bool {
		return (t.K == KFieldAddr || t.K == KField) && t.Fld != nil && t.Fld.Name() == "FrameID" && len(t.Args) > 0 && anyTerm(t.Args[0], func(t *Term) bool {
			return opName(callName(t)) == "Page.Navigate"
		})
	})
}

func checkX03(r *Result) {
	hd := newHeadless(r)
	if hd == nil {
		return
	}
	a := &answer{headless: hd}
	resp := r.P.httpResp()
	cookie := r.P.stdType("net/http", "Cookie")
	if resp == nil || cookie == nil {
		r.Missing("net/http")
		return
	}
	where := fnLabel(a.do)
	tuple := func(ts ...*Term) *Term { return in.mk(Term{K: KTuple, Args: ts}) }
	result := func(st *State, name string) *Term {
		for _, o := range st.G("succ") {
			if o.Args[0].Aux == name {
				return o.Args[1]
			}
		}
		for _, o := range st.G("op") {
			if o.Args[0].Aux == name && st.isNil(o.Args[1]) {
				return o.Args[2]
			}
		}
		return nil
	}
	done := func(st *State, name string) bool { return result(st, name) != nil }
	object := func(st *State) *Term {
		if g := st.G("resp"); len(g) > 0 {
			return g[0]
		}
		return nil
	}
	header := func(x *Exec, st *State) *Term {
		o := object(st)
		if o == nil {
			return nil
		}
		return strip(x.fieldVal(st, o, resp, "Header"))
	}
	fl := &flow{P: r.P}
	isHeaderMap := func(st *State, m *Term) *Term { // the headers of the event
		m = strip(m)
		if callName(m) != "("+cdpMod+"/protocol/network.Headers).Map" {
			return nil
		}
		for m.K == KExtract {
			m = m.Args[0]
		}
		return eventOf(st, m.Args[0], "ResponseReceivedReply")
	}
	isReqHeader := func(m *Term) bool { return loadOf(strip(m), a.req, "Header") }
	isReqCookies := func(s *Term) bool {
		s = strip(s)
		return isPureOf(s, "(*net/http.Request).Cookies") && strip(s.Args[0]) == a.req
	}
	isBrowserCookies := func(s *Term) bool {
		return s.K == KLoad && s.Args[0].K == KFieldAddr && s.Args[0].Fld.Name() == "Cookies" && strings.HasSuffix(opName(callName(s.Args[0].Args[0])), "Cookies")
	}
	// cookieAs: el sends the cookie e.
	cookieAs := func(x *Exec, st *State, el, e *Term) bool {
		for _, f := range []string{"Name", "Value"} {
			if strip(a.field(x, st, el, f)) != strip(a.field(x, st, e, f)) {
				return false
			}
		}
		return !st.isNil(a.field(x, st, el, "URL")) || !st.isNil(a.field(x, st, el, "Domain"))
	}
	fl.isMap = func(st *State, m *Term, i ssa.Instruction) bool { return isHeaderMap(st, m) != nil || isReqHeader(m) }
	fl.source = func(st *State, s *Term) bool { return isReqCookies(s) || isBrowserCookies(s) }
	fl.stands = func(x *Exec, st *State, v, e *Term) bool {
		if v.Typ == nil || e.Typ == nil || !inCDP(v.Typ, cdpNetwork, "CookieParam") || namedOf(e.Typ) != namedOf(cookie) {
			return false
		}
		return cookieAs(x, st, v, e)
	}
	fl.settle = func(x *Exec, st *State, tn turn, passed bool) bool {
		pos := tn.pos
		switch {
		case isReqHeader(tn.src):
			r.Ob("sent", "header")
			for _, g := range st.G("put") {
				if g.Args[1] == tn.key && anyTerm(g.Args[2], func(t *Term) bool {
					return t == tn.e || t.K == KIndexAddr && t.Args[0] == tn.e || t == tn.src
				}) {
					st.AddG("carryh", g.Args[0])
					return false
				}
			}
			st.AddG("lost", mkTok("header"))
			r.Report("sent", where, pos, st, "a header of the request is not sent to the browser")
		case isReqCookies(tn.src):
			r.Ob("sent", "cookie")
			if passed {
				return true
			}
			ok := false
			for _, g := range st.G("param") {
				list, el := g.Args[0], g.Args[1]
				if cookieAs(x, st, el, tn.e) {
					ok = true
					st.AddG("carryc", list)
				}
			}
			st.ClearG("param")
			if !ok {
				r.Report("sent", where, pos, st, "a cookie of the request is not sent to the browser")
			}
		case isBrowserCookies(tn.src):
			r.Ob("cookies", where)
			for _, g := range st.G("setcookie") {
				if g.Args[1] == strip(a.field(x, st, tn.e, "Name")) && g.Args[2] == strip(a.field(x, st, tn.e, "Value")) && g.Args[0] == header(x, st) {
					return false
				}
			}
			r.Report("cookies", where, pos, st, "a cookie of the browser is not added to the response's header")
		default:
			r.Ob("headers", where)
			for _, g := range st.G("set") {
				if g.Args[1] == tn.key && g.Args[2] == tn.e && g.Args[0] == header(x, st) {
					return false
				}
			}
			r.Report("headers", where, pos, st, "a header of the document's response is not in the returned response")
		}
		return false
	}
	// merged: what was stored from a response event is complete.
	merged := func(st *State, pos token.Pos) {
		for _, e := range st.G("want") {
			if !st.HasG("whole", e) {
				r.Report("headers", where, pos, st, "the headers of the document's response were not all looked at")
			}
		}
		st.ClearG("want")
		st.ClearG("whole")
	}
	setup := func(x *Exec, st *State, c *Call, what string) {
		r.Ob("setup", what)
		for _, op := range []string{"Page.Enable", "Network.Enable", "Network.SetExtraHTTPHeaders", "Network.ResponseReceived", "Page.DOMContentEventFired"} {
			if !done(st, op) {
				r.Report("setup", what, c.Pos(), st, "the page is navigated without %s having succeeded", op)
			}
		}
		if !done(st, "Storage.SetCookies") && !done(st, "Network.SetCookies") && !st.HasG("nocookies", mkTok("yes")) {
			r.Report("setup", what, c.Pos(), st, "the page is navigated without the cookies having been set")
		}
		u := strip(a.field(x, st, c.Arg(2), "URL"))
		if isPureOf(c.Arg(2), cdpMod+"/protocol/page.NewNavigateArgs") {
			u = strip(c.Arg(2).Args[0])
		}
		if !(isPureOf(u, "(*net/url.URL).String") && loadOf(strip(u.Args[0]), a.req, "URL")) {
			r.Report("setup", what, c.Pos(), st, "the page navigated to is not the request's URL: %v", u)
		}
	}
	hk := &Hooks{}
	hk.Opaque = func() func(fn *ssa.Function) bool {
		memo := map[*ssa.Function]bool{}
		return func(fn *ssa.Function) bool {
			v, ok := memo[fn]
			if !ok {
				v = inRepo(fn) && fn != a.do && (r.P.costly(fn) || r.P.reaches(fn, a.matters)) && !r.P.reaches(fn, a.speaks)
				memo[fn] = v
			}
			return v
		}
	}()
	hk.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		if c.Fn != nil && inRepo(c.Fn) {
			return
		}
		op := opName(c.Name)
		if op == "" && len(c.Args) > 0 && (strings.HasSuffix(c.Name, ").Recv") || strings.HasSuffix(c.Name, ").RecvMsg")) && strings.Contains(c.Name, cdpMod) {
			// an event
			merged(st, c.Pos())
			op = "event"
			if strings.Contains(c.Name, "DOMContentEventFired") {
				op = "ready"
				if !done(st, "Page.Navigate") {
					r.Report("order", what, c.Pos(), st, "the ready event is awaited before navigating")
				}
			}
		}
		if op != "" {
			r.Ob("step", what)
			for _, g := range c.Args {
				if g != nil && isCtx(g.Typ) && !a.ends(g) {
					r.Report("step", what, c.Pos(), st, "a step does not end with the request's context")
				}
			}
			switch op {
			case "Page.Navigate":
				setup(x, st, c, what)
				for _, g := range []string{"carryc", "carryh", "param", "put", "set", "exhausted", "first", "loops"} {
					st.ClearG(g)
				}
			case "Network.SetExtraHTTPHeaders":
				r.Ob("sent", what)
				b := strip(a.field(x, st, c.Arg(2), "Headers"))
				ok := false
				anyTerm(b, func(t *Term) bool {
					if (t.K == KCall || t.K == KPure) && t.Aux == "encoding/json.Marshal" {
						m := strip(t.Args[0])
						for _, g := range st.G("exhausted") {
							ok = ok || isReqHeader(g) && fl.complete(st, g) && (st.HasG("carryh", m) || len(st.G("carryh")) == 0)
						}
						ok = ok || isReqHeader(m)
					}
					return ok
				})
				if !ok {
					r.Report("sent", what, c.Pos(), st, "the headers sent are not known to be all of the request's")
				}
			case "Storage.SetCookies", "Network.SetCookies":
				r.Ob("sent", what)
				b := strip(a.field(x, st, c.Arg(2), "Cookies"))
				ok := false
				for _, g := range st.G("exhausted") {
					ok = ok || isReqCookies(g) && fl.complete(st, g) && (st.HasG("carryc", b) || fl.passed(st, b) || len(st.G("carryc"))+len(st.G("loops")) == 0)
				}
				if !ok {
					r.Report("sent", what, c.Pos(), st, "the cookies sent are not known to be all of the request's")
				}
			case "DOM.GetDocument", "DOM.GetOuterHTML", "Storage.GetCookies", "Network.GetCookies":
				r.Ob("order", what)
				if !done(st, "ready") {
					r.Report("order", what, c.Pos(), st, "the page is read before it is ready")
				}
				if op == "DOM.GetOuterHTML" {
					doc := result(st, "DOM.GetDocument")
					n := a.field(x, st, c.Arg(2), "NodeID")
					if doc == nil || !reachAny(st, n, func(t *Term) bool {
						return t.K == KFieldAddr && t.Fld.Name() == "NodeID" && t.Args[0].K == KFieldAddr && t.Args[0].Fld.Name() == "Root" && t.Args[0].Args[0] == doc
					}) {
						r.Report("order", what, c.Pos(), st, "what is read is not the root of the document")
					}
				}
			}
			st.AddG("op", tuple(mkTok(op), c.Err(), c.R(0)))
		}
		h, kind := x.headerSet(st, c)
		if kind != "" {
			k, v := strip(c.Arg(1)), strip(c.Arg(2))
			st.AddG("set", tuple(h, k, v))
			if s, ok := k.isStr(); ok && strings.EqualFold(s, "Content-Length") {
				st.SetG("length", v)
			}
			if s, ok := k.isStr(); ok && strings.EqualFold(s, "Set-Cookie") && isPureOf(v, "(*net/http.Cookie).String") {
				ck := strip(v.Args[0])
				st.AddG("setcookie", tuple(h, strip(x.fieldVal(st, ck, cookie, "Name")), strip(x.fieldVal(st, ck, cookie, "Value"))))
				if kind == "Set" {
					r.Report("cookies", what, c.Pos(), st, "a cookie replaces the others")
				}
			}
		}
	}
	hk.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && addr.Fld.Pkg() != nil && addr.Fld.Pkg().Path() == "net/http" && namedOf(addr.Args[0].Typ) == namedOf(resp) {
			st.SetG("resp", addr.Args[0])
			what := topFn(i.Parent()) + ": " + addr.Fld.Name()
			switch addr.Fld.Name() {
			case "StatusCode", "Status":
				r.Ob("answer", what)
				e := eventOf(st, val, "ResponseReceivedReply")
				if e == nil {
					r.Report("answer", what, i.Pos(), st, "the status is not that of a response event: %v", val)
					return
				}
				doc, frame := a.mainDoc(st, e)
				if !doc {
					r.Report("answer", what, i.Pos(), st, "the status is taken from a response that may not be the document's")
				}
				if !frame {
					r.Report("answer", what, i.Pos(), st, "the status is taken from a response that may be another frame's")
				}
				s := a.field(x, st, a.field(x, st, e, "Response"), "Status")
				t := a.field(x, st, a.field(x, st, e, "Response"), "StatusText")
				if addr.Fld.Name() == "StatusCode" && strip(val) != strip(s) || !reachAny(st, val, func(q *Term) bool { return q == s || q == t }) {
					r.Report("answer", what, i.Pos(), st, "the status is not the response's: %v", val)
				}
				if addr.Fld.Name() == "StatusCode" {
					st.AddG("want", e)
					st.AddG("answered", mkTok("yes"))
				}
			}
		}
		// a cookie put on the list
		for b := addr; b.K == KFieldAddr || b.K == KIndexAddr; b = b.Args[0] {
			if b.K == KIndexAddr && inCDP(b.Typ, cdpNetwork, "CookieParam") {
				st.AddG("param", tuple(b.Args[0], b))
			}
		}
	}
	hk.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		for _, e := range els {
			if e.Typ != nil && inCDP(e.Typ, cdpNetwork, "CookieParam") {
				st.AddG("param", tuple(res, e))
			}
		}
	}
	hk.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if v == nil {
			return
		}
		st.AddG("put", tuple(strip(m), strip(k), v))
		st.AddG("set", tuple(strip(m), strip(k), v))
		if e := eventOf(st, k, "RequestWillBeSentReply"); e != nil {
			what := topFn(i.Parent())
			r.Ob("awaited", what)
			if doc, frame := a.mainDoc(st, e); !doc || !frame {
				r.Report("awaited", what, i.Pos(), st, "a request is waited for that may not be the document's of the navigated frame")
			}
		}
	}
	hk.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		for cond.K == KUn && cond.Aux == "!" {
			cond, val = cond.Args[0], !val
		}
		if cond.K == KBin && cond.Aux == "==" && cond.Args[1] == tNil {
			for _, o := range st.G("op") {
				if o.Args[1] != cond.Args[0] {
					continue
				}
				st.DelG("op", o)
				if val {
					v := tTrue
					switch o.Args[0].Aux {
					case "Page.Navigate", "DOM.GetDocument", "DOM.GetOuterHTML":
						v = o.Args[2]
					}
					st.AddG("succ", tuple(o.Args[0], v))
				} else {
					st.AddG("fail", o.Args[0])
				}
			}
			if nav := result(st, "Page.Navigate"); nav != nil && val && cond.Args[0] == a.field(x, st, nav, "ErrorText") {
				st.AddG("navigated", mkTok("yes"))
			}
		}
		if cond.K == KGen && cond.Aux == "more" && !val {
			m := cond.Args[0].Args[0]
			if e := isHeaderMap(st, m); e != nil && fl.complete(st, m) {
				st.AddG("whole", e)
			}
		}
		if e := x.eventTest(st, cond); e != nil {
			p, q := cond.Args[0], cond.Args[1]
			switch {
			case val && (isText(p, "Document") || isText(q, "Document")):
				st.AddG("isdoc", e)
			case val && (p == tNil || q == tNil):
				st.AddG("isframe", e)
			case val && (isFrameOf(st, strip(p)) || isFrameOf(st, strip(q))):
				st.AddG("isframe", e)
			}
		}
	}
	hk.BackEdge = func(x *Exec, st *State, fr *frame, h *ssa.BasicBlock, phis []*Term) {
		body := r.P.info(fr.fn).headers[h]
		if !a.receives(fr.fn, body) {
			return
		}
		// a turn that takes an event: it was dealt with
		what := topFn(fr.fn)
		pos := firstInstr(h).Pos()
		merged(st, pos)
		if st.HasG("fail", mkTok("event")) {
			r.Report("failed", what, pos, st, "a failed step is passed over")
		}
		for _, o := range st.G("op") {
			if o.Args[0].Aux == "event" {
				if !st.isNil(o.Args[1]) {
					r.Report("failed", what, pos, st, "a failed step is passed over")
				}
				st.DelG("op", o)
			}
		}
		for _, o := range st.G("succ") {
			if o.Args[0].Aux == "event" {
				st.DelG("succ", o)
			}
		}
		for _, g := range st.G("exhausted") {
			if isHeaderMap(st, g) != nil {
				st.DelG("exhausted", g)
			}
		}
		for _, g := range []string{"isdoc", "isframe", "put", "set"} {
			st.ClearG(g)
		}
		// what was stored from it was judged, what was found out about it
		// matters no more
		for k, v := range st.mem {
			if k.K == KFieldAddr && k.Fld.Pkg() != nil && k.Fld.Pkg().Path() == "net/http" {
				switch k.Fld.Name() {
				case "Status", "StatusCode", "Proto", "ProtoMajor", "ProtoMinor":
					st.mem[k] = in.mk(Term{K: KPure, Aux: "stored", Args: []*Term{k}, Typ: v.Typ})
				}
			}
		}
		for c := range st.atoms {
			if eventOf(st, c, "ResponseReceivedReply") != nil || eventOf(st, c, "RequestWillBeSentReply") != nil {
				delete(st.atoms, c)
			}
		}
	}
	fl.hooks(hk)
	r.Run(hk, a.do, where, func(x *Exec, st *State, args []*Term) { a.req = args[1] }, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		v, err := strip(tupleAt(o.res, 0)), tupleAt(o.res, 1)
		if !st.isNil(err) {
			r.Ob("failed", where)
			if !st.isNil(v) {
				r.Report("failed", where, token.NoPos, st, "a response is returned with an error, or may be")
			}
			return
		}
		r.Ob("complete", where)
		if st.isNil(v) {
			r.Report("failed", where, token.NoPos, st, "neither a response nor an error is returned")
			return
		}
		merged(st, token.NoPos)
		for _, op := range st.G("fail") {
			r.Report("failed", where, token.NoPos, st, "a response is returned although %s failed", op.Aux)
		}
		for _, op := range st.G("op") {
			if !st.isNil(op.Args[1]) {
				r.Report("failed", where, token.NoPos, st, "a response is returned although %s failed, or may have", op.Args[0].Aux)
			}
		}
		for _, op := range []string{"Page.Navigate", "ready", "DOM.GetDocument", "DOM.GetOuterHTML"} {
			if !done(st, op) {
				r.Report("complete", where, token.NoPos, st, "a response is returned without %s", op)
			}
		}
		if !done(st, "Storage.GetCookies") && !done(st, "Network.GetCookies") {
			r.Report("complete", where, token.NoPos, st, "a response is returned without the browser's cookies")
		}
		if nav := result(st, "Page.Navigate"); nav != nil && !st.HasG("navigated", mkTok("yes")) && !st.isNil(a.field(x, st, nav, "ErrorText")) {
			r.Report("complete", where, token.NoPos, st, "a response is returned although navigating failed, or may have")
		}
		if !st.HasG("answered", mkTok("yes")) {
			r.Report("complete", where, token.NoPos, st, "a response is returned without the document's response having arrived")
		}
		if q := strip(x.fieldVal(st, v, resp, "Request")); q != a.req {
			r.Report("complete", where, token.NoPos, st, "the response does not carry the request")
		}
		html := result(st, "DOM.GetOuterHTML")
		if html == nil {
			return
		}
		text := a.field(x, st, html, "OuterHTML")
		if !bodyOf(x.fieldVal(st, v, resp, "Body"), text) {
			r.Report("complete", where, token.NoPos, st, "the response's body is not the rendered document")
		}
		if n := strip(x.fieldVal(st, v, resp, "ContentLength")); !st.holds(mkEq(n, mkLen(text))) && n != mkLen(text) {
			r.Report("complete", where, token.NoPos, st, "the response's length is not that of its body")
		}
		if g := st.G("length"); len(g) != 1 || !anyTerm(g[0], func(t *Term) bool { return t == mkLen(text) }) {
			r.Report("complete", where, token.NoPos, st, "the length in the response's header is not that of its body")
		}
		ok := false
		for _, g := range st.G("exhausted") {
			ok = ok || isBrowserCookies(g) && fl.complete(st, g)
		}
		if !ok {
			r.Report("cookies", where, token.NoPos, st, "the browser's cookies were not all looked at")
		}
	})
	r.Need("setup", 1)
	r.Need("sent", 2)
	r.Need("answer", 1)
	r.Need("headers", 1)
	r.Need("cookies", 1)
	r.Need("complete", 1)
}

// speaks: the instruction speaks to the browser, or writes what is sent or returned.
func (a *answer) speaks(i ssa.Instruction) bool {
	switch i := i.(type) {
	case ssa.CallInstruction:
		if i.Common().IsInvoke() {
			n := "(" + types.TypeString(i.Common().Value.Type(), nil) + ")." + i.Common().Method.Name()
			return opName(n) != "" || isStream(i.Common().Value.Type())
		}
		if f := i.Common().StaticCallee(); f != nil {
			switch f.Name() {
			case "NewNavigateArgs", "Marshal", "NewClient":
				return true
			}
		}
	case *ssa.Store:
		if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
			n := namedOf(fa.X.Type())
			return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "net/http" || inCDP(fa.X.Type(), cdpNetwork, "CookieParam"))
		}
	case *ssa.MapUpdate:
		return true
	}
	return false
}

// headerSet: the call sets or adds to a header.
func (x *Exec) headerSet(st *State, c *Call) (h *Term, kind string) {
	switch c.Name {
	case "(net/http.Header).Set", "(net/http.Header).Add":
		return strip(c.Arg(0)), c.Name[len("(net/http.Header)."):]
	}
	return nil, ""
}

// eventTest is the event whose kind or frame cond, an equality, is about.
func (x *Exec) eventTest(st *State, cond *Term) *Term {
	if cond.K != KBin || cond.Aux != "==" {
		return nil
	}
	for _, s := range cond.Args {
		for _, n := range []string{"ResponseReceivedReply", "RequestWillBeSentReply"} {
			t := strip(s)
			for t.K == KLoad {
				t = t.Args[0]
			}
			if t.K == KFieldAddr && (t.Fld.Name() == "Type" || t.Fld.Name() == "FrameID") {
				if e := eventOf(st, s, n); e != nil && t.Args[0] == e {
					return e
				}
			}
		}
	}
	return nil
}

// bodyOf: a reader of the text.
func bodyOf(b, text *Term) bool {
	for b != nil {
		switch {
		case b == text:
			return true
		case b.K == KIface || b.K == KConv:
			b = b.Args[0]
		case isPureOf(b, "io.NopCloser", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString") && len(b.Args) > 0:
			b = b.Args[0]
		default:
			return false
		}
	}
	return false
}

func isText(t *Term, s string) bool {
	v, ok := strip(t).isStr()
	return ok && v == s
}

// receives: the loop takes events from a stream.
func (a *answer) receives(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool {
	recv := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && strings.HasPrefix(c.Common().Method.Name(), "Recv") && isStream(c.Common().Value.Type())
	}
	for b := range body {
		for _, i := range b.Instrs {
			if recv(i) {
				return true
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && inRepo(g) && a.r.P.reaches(g, recv) {
					return true
				}
			}
		}
	}
	return false
}
