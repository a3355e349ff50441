package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S01", "over every path of every exported method of Page: the body is parsed only inside the page's own once, is drained and closed before that ends, the error and document are set only there and read only after it; the document is used only where the error is known to be nil, and a method with an error result returns the parse error wherever it may be set", checkS01)
	register("S02", "over every path of Page's methods that return URLs: the loop over the matched nodes goes through all of them in order, keeps one URL of each, made from the node's href by parsing and resolving against the page's URL and known to have scheme http or https, and leaves a node out only where its href is absent or unparsable or its URL has another scheme; nodes come from the asked selector, and the selector cache only holds what its key compiles to", checkS02)
	register("S05", "bounds and nilness at every index, slice, dereference and assertion over every path of List's methods; At returns the element its index names on every path, and an empty list only where no element has that index", checkS05)
	register("S06", "over every path of the JSON scraper: one record, a fresh value of the configured type, is scanned from the page and then encoded once under the scraper's lock; scan, encode and link errors are returned without links; links are all selectors' in order, or the page's when there are none", checkS06)
}

// readers finds the functions that read a node's text and attributes.
func readers(P *Prog) (text, attr *ssa.Function) {
	for _, fn := range P.Funcs {
		if fn.Parent() != nil || fnPkg(fn) != pScan || fn.Synthetic != "" || fn.Signature.Recv() != nil {
			continue
		}
		s := fn.Signature
		if s.Params().Len() == 0 || s.Params().At(0).Type().String() != "*golang.org/x/net/html.Node" {
			continue
		}
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		switch {
		case s.Params().Len() == 1 && s.Results().Len() == 1 && isStringT(s.Results().At(0).Type()):
			text = fn
		case s.Params().Len() == 2 && isStringT(s.Params().At(1).Type()) && s.Results().Len() == 2 && isStringT(s.Results().At(0).Type()) && isBoolT(s.Results().At(1).Type()):
			attr = fn
		}
	}
	return
}

type pages struct {
	r                     *Result
	T                     types.Type
	recv                  *Term
	once, root, err, body *types.Var
	url                   *types.Var
	text, attr            *ssa.Function
}

func newPages(r *Result) *pages {
	m := &pages{r: r, T: r.P.Named(pAnt, "Page")}
	if m.T == nil {
		r.Missing("Page")
		return nil
	}
	byType := func(s string) *types.Var {
		return fieldWhere(m.T, func(f *types.Var) bool { return f.Type().String() == s })
	}
	m.once, m.root, m.err = byType("sync.Once"), byType("*golang.org/x/net/html.Node"), byType("error")
	m.body, m.url = byType("io.ReadCloser"), byType("*net/url.URL")
	m.text, m.attr = readers(r.P)
	for n, f := range map[string]*types.Var{"sync.Once": m.once, "*html.Node": m.root, "error": m.err, "io.ReadCloser": m.body, "*url.URL": m.url} {
		if f == nil {
			r.Missing("Page's field of type " + n)
			return nil
		}
	}
	if m.text == nil || m.attr == nil {
		r.Missing("the functions reading a node's text and attributes")
		return nil
	}
	return m
}

func (m *pages) get(x *Exec, st *State, f *types.Var) *Term {
	return x.load(st, mkFieldAddr(m.recv, fieldIndex(m.T, f), f), f.Type())
}

// methods of Page, exported ones only.
func (m *pages) methods() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range m.r.P.Funcs {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Signature.Recv() != nil && fn.Object().Exported() {
			if n := namedOf(fn.Signature.Recv().Type()); n != nil && types.Identical(n, m.T) {
				out = append(out, fn)
			}
		}
	}
	return out
}

// of: addr is the page's field f.
func (m *pages) of(addr *Term, f *types.Var) bool {
	return addr.K == KFieldAddr && addr.Fld == f && addr.Args[0] == m.recv
}

func errResult(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	if n := rs.Len(); n > 0 && types.Identical(rs.At(n-1).Type(), errT) {
		return n - 1
	}
	return -1
}

func isOnceDo(i ssa.Instruction) bool {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := c.Common().StaticCallee()
	return g != nil && fnName(g) == "(*sync.Once).Do"
}

func checkS01(r *Result) {
	m := newPages(r)
	if m == nil {
		return
	}
	within := func(st *State) bool { return len(st.G("within")) > 0 }
	done := func(st *State) bool {
		d := mkPure("oncedone", types.Typ[types.Bool], mkFieldAddr(m.recv, fieldIndex(m.T, m.once), m.once))
		return st.atoms[d]
	}
	for _, fn := range m.methods() {
		where := fnLabel(fn)
		h := &Hooks{Opaque: func(fn *ssa.Function) bool { return fnPkg(fn) == pScan || fnPkg(fn) == pSel }}
		h.Enter = func(x *Exec, st *State, fn *ssa.Function, args []*Term, site ssa.Instruction) {
			if site != nil && isOnceDo(site) {
				st.SetG("within", mkTok("yes"))
				// before the once nothing was set
				st.assume(mkEq(m.get(x, st, m.err), tNil), true)
				st.assume(mkEq(m.get(x, st, m.root), tNil), true)
			}
		}
		usable := func(x *Exec, st *State, what string, pos token.Pos) {
			r.Ob("document", what)
			if !st.isNil(m.get(x, st, m.err)) {
				r.Report("document", what, pos, st, "the document is used where parsing may have failed")
			}
			if !done(st) {
				r.Report("document", what, pos, st, "the document is used before the page is parsed")
			}
		}
		h.Call = func(x *Exec, st *State, c *Call) {
			switch {
			case c.Name == "(*sync.Once).Do":
				if !m.of(strip(c.Arg(0)), m.once) {
					r.Report("once", where, c.Pos(), st, "the guard is not the page's own: %v", c.Arg(0))
				}
			case strings.HasPrefix(c.Name, "golang.org/x/net/html.Parse"):
				r.Ob("parse", site(c))
				if !within(st) {
					r.Report("once", site(c), c.Pos(), st, "the body is parsed outside the page's once")
				}
				if a := strip(c.Arg(0)); !holdsVal(st, a, func(t *Term) bool { return t.K == KLoad && m.of(t.Args[0], m.body) }) && !contains(a, m.get(x, st, m.body)) {
					r.Report("parse", site(c), c.Pos(), st, "what is parsed is not the page's body: %v", c.Arg(0))
				}
				st.SetG("parsed", in.mk(Term{K: KTuple, Args: []*Term{c.R(0), c.R(1)}}))
				st.ClearG("drained")
			case drains[c.Name]:
				for _, a := range c.Args {
					if a := strip(a); a.K == KLoad && m.of(a.Args[0], m.body) {
						st.SetG("drained", mkTok("yes"))
					}
				}
			case (c.Name == "(io.Closer).Close" || c.Name == "(io.ReadCloser).Close") && len(c.Args) > 0:
				if a := strip(c.Arg(0)); a.K == KLoad && m.of(a.Args[0], m.body) {
					if len(st.G("drained")) == 0 {
						r.Report("closed", site(c), c.Pos(), st, "the body is closed without having been drained")
					}
					if within(st) {
						if len(st.G("parsed")) == 0 {
							r.Report("closed", site(c), c.Pos(), st, "the body is closed before it is parsed")
						}
						st.SetG("closed", mkTok("yes"))
					}
				}
			}
			if doc := m.get(x, st, m.root); !within(st) {
				for _, a := range c.Args {
					if strip(a) == doc {
						usable(x, st, site(c), c.Pos())
					}
				}
			}
		}
		h.Deref = func(x *Exec, st *State, base *Term, i ssa.Instruction, fr *frame) {
			if base == m.get(x, st, m.root) && !within(st) {
				usable(x, st, where, i.Pos())
			}
		}
		h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
			if (m.of(addr, m.root) || m.of(addr, m.err)) && !within(st) {
				r.Ob("after", where)
				if !done(st) {
					r.Report("after", where, i.Pos(), st, "the result of parsing is read before the page is parsed")
				}
			}
		}
		h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
			if addr.K == KFieldAddr && (addr.Fld == m.root || addr.Fld == m.err) && !within(st) {
				r.Report("sticks", where, i.Pos(), st, "the result of parsing is changed outside the page's once")
			}
		}
		h.Exit = func(x *Exec, st *State, f *ssa.Function, args []*Term, res *Term, panicked bool) {
			if !within(st) || len(st.G("parsed")) == 0 || panicked || !onceBody(x, f) {
				return
			}
			p := st.G("parsed")[0]
			r.Ob("once", topFn(f))
			if len(st.G("closed")) == 0 {
				r.Report("closed", topFn(f), f.Pos(), st, "the body is not closed after it is parsed")
			}
			e := m.get(x, st, m.err)
			switch {
			case st.nonNil(p.Args[1]):
				if !carries(st, e, p.Args[1]) {
					r.Report("error", topFn(f), f.Pos(), st, "a parse error is not kept: %v", e)
				}
			case st.isNil(p.Args[1]):
				if !st.isNil(e) {
					r.Report("error", topFn(f), f.Pos(), st, "an error is kept although the page was parsed: %v", e)
				}
			default:
				if e != p.Args[1] {
					r.Report("error", topFn(f), f.Pos(), st, "a parse error may not be kept: %v", e)
				}
			}
			if d := m.get(x, st, m.root); d != p.Args[0] && !st.nonNil(p.Args[1]) {
				r.Report("sticks", topFn(f), f.Pos(), st, "the parsed document is not kept: %v", d)
			}
			st.ClearG("within")
		}
		r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) { m.recv = args[0] }, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			k := errResult(fn)
			if k < 0 {
				return
			}
			res := tupleAt(o.res, k)
			e := m.get(x, st, m.err)
			r.Ob("reports", where)
			switch {
			case st.nonNil(res) && !done(st):
			case !done(st):
				r.Report("reports", where, token.NoPos, st, "the method succeeds without having parsed the page")
			case st.isNil(e), st.nonNil(e) && st.nonNil(res) && carries(st, res, e), res == e:
			default:
				r.Report("reports", where, token.NoPos, st, "a parse error is not returned: %v", res)
			}
		})
	}
	r.Need("parse", 1)
	r.Need("reports", 3)
	r.Need("document", 3)
}

// onceBody: the function exiting is the one a once runs.
func onceBody(x *Exec, f *ssa.Function) bool {
	if len(x.stack) == 0 {
		return false
	}
	fr := x.stack[len(x.stack)-1]
	return fr.fn == f && fr.ctx != nil && fr.ctx.site != nil && isOnceDo(fr.ctx.site)
}

// ---- links ---------------------------------------------------------------------------------

// matchedBy: the selector a list of nodes was matched by, and the node
// searched.
func matchedBy(t *Term) (sel, root *Term) {
	if t.K == KCall && (t.Aux == "(github.com/andybalholm/cascadia.Selector).MatchAll" || t.Aux == "github.com/andybalholm/cascadia.QueryAll") {
		if t.Aux == "github.com/andybalholm/cascadia.QueryAll" {
			return strip(t.Args[1]), strip(t.Args[0])
		}
		return strip(t.Args[0]), strip(t.Args[1])
	}
	return nil, nil
}

// compiledKey: the text a selector was compiled from, or looked up by.
func compiledKey(sel *Term) *Term {
	for {
		switch {
		case sel.K == KAssert || sel.K == KIface || sel.K == KConv || sel.K == KExtract:
			sel = sel.Args[0]
		case (sel.K == KCall || sel.K == KPure) && len(sel.Args) > 0:
			switch sel.Aux {
			case "(*sync.Map).Load", "(*sync.Map).LoadOrStore":
				return strip(sel.Args[1])
			case "github.com/andybalholm/cascadia.Compile", "github.com/andybalholm/cascadia.Parse", "github.com/andybalholm/cascadia.MustCompile":
				return strip(sel.Args[0])
			}
			return nil
		case sel.K == KLookup:
			return strip(sel.Args[1])
		default:
			return nil
		}
	}
}

// hrefOf: u is a URL made from the href of a node; what is missing.
func (m *pages) hrefOf(x *Exec, st *State, u *Term) (node *Term, bad string) {
	page := m.get(x, st, m.url)
	resolved := false
	t := u
	if t.K == KPure && t.Aux == "(*net/url.URL).ResolveReference" {
		if t.Args[0] != page {
			return nil, "is resolved against something else than the page's URL"
		}
		resolved = true
		t = t.Args[1]
	}
	if t.K != KExtract || t.I != 0 {
		return nil, "is not the parsed href of a node"
	}
	c := t.Args[0]
	var text *Term
	switch {
	case c.K != KCall && c.K != KPure:
		return nil, "is not the parsed href of a node"
	case c.Aux == "net/url.Parse":
		text = c.Args[0]
	case c.Aux == "(*net/url.URL).Parse" && c.Args[0] == page:
		text = c.Args[1]
		resolved = true
	default:
		return nil, "is not the parsed href of a node"
	}
	if !st.isNil(mkExtract(c, 1, errT)) {
		return nil, "is used where parsing it may have failed"
	}
	for {
		switch {
		case text.K == KConv, text.K == KPure && text.Aux == "strings.TrimSpace":
			text = text.Args[0]
			continue
		}
		break
	}
	if text.K != KExtract || text.I != 0 || text.Args[0].K != KCall || text.Args[0].Aux != fnName(m.attr) || !isStrTerm(strip(text.Args[0].Args[1]), "href") {
		return nil, "is not the href of a node"
	}
	if !st.holds(mkExtract(text.Args[0], 1, types.Typ[types.Bool])) {
		return nil, "is used where the node may have no href"
	}
	node = text.Args[0].Args[0]
	if !resolved && !m.httpURL(x, st, u) && !st.holds(mkPure("(*net/url.URL).IsAbs", types.Typ[types.Bool], u)) {
		return node, "may be relative"
	}
	if !m.httpURL(x, st, u) {
		return node, "may have a scheme other than http and https"
	}
	return node, ""
}

func (m *pages) scheme(x *Exec, st *State, u *Term) *Term {
	return x.fieldVal(st, u, x.P.httpURL(), "Scheme")
}

func (m *pages) httpURL(x *Exec, st *State, u *Term) bool {
	s := m.scheme(x, st, u)
	return st.holds(mkEq(s, mkStr("http"))) || st.holds(mkEq(s, mkStr("https"))) || inConsts(st, s, "http", "https")
}

// inConsts: some fact says the string is one of the given ones.
func inConsts(st *State, s *Term, vals ...string) bool {
	q := st.clone()
	for _, v := range vals {
		if !q.assume(mkEq(s, mkStr(v)), false) {
			return true
		}
	}
	return false
}

func (m *pages) notHTTP(x *Exec, st *State, u *Term) bool {
	s := m.scheme(x, st, u)
	return st.refuted(mkEq(s, mkStr("http"))) && st.refuted(mkEq(s, mkStr("https")))
}

// absolute: the link is known to have a scheme of its own.
func (m *pages) absolute(x *Exec, st *State, u *Term) bool {
	return st.holds(mkPure("(*net/url.URL).IsAbs", types.Typ[types.Bool], u)) || st.refuted(mkEq(m.scheme(x, st, u), mkStr("")))
}

func checkS02(r *Result) {
	m := newPages(r)
	if m == nil {
		return
	}
	n := 0
	for _, fn := range m.methods() {
		rs := fn.Signature.Results()
		if rs.Len() == 0 || !isURLs(rs.At(0).Type()) {
			continue
		}
		n++
		where := fnLabel(fn)
		asked := &Term{}
		isNode := func(t *Term) *Term {
			if t != nil && t.K == KLoad && t.Args[0].K == KIndexAddr {
				if sel, _ := matchedBy(t.Args[0].Args[0]); sel != nil {
					return t.Args[0].Args[0]
				}
			}
			return nil
		}
		tr := &tracker{r: r, rule: "kept"}
		tr.tracked = func(st *State, s *Term) bool { sel, _ := matchedBy(s); return sel != nil }
		tr.excused = func(x *Exec, st *State, el *Term) bool {
			for a, v := range st.atoms {
				// no href
				if !v && a.K == KExtract && a.I == 1 && a.Args[0].K == KCall && a.Args[0].Aux == fnName(m.attr) && a.Args[0].Args[0] == el && isStrTerm(strip(a.Args[0].Args[1]), "href") {
					return true
				}
			}
			for _, u := range st.G("parsed") {
				if !contains(u, el) {
					continue
				}
				if st.nonNil(errOf(u)) {
					return true
				}
				// what has no scheme of its own takes the page's
				if (m.absolute(x, st, u) || u.K == KExtract && isPureOf(u.Args[0], "(*net/url.URL).Parse")) && m.notHTTP(x, st, u) {
					return true
				}
				res := mkPure("(*net/url.URL).ResolveReference", u.Typ, m.get(x, st, m.url), u)
				if m.notHTTP(x, st, res) {
					return true
				}
			}
			return false
		}
		h := &Hooks{Opaque: func(f *ssa.Function) bool { return f == m.attr || f == m.text }}
		h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
			tr.load(x, st, addr, val, i)
		}
		h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) { tr.assume(x, st, cond, val) }
		h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
			tr.backEdge(x, st, fr, b, phis)
			st.ClearG("parsed")
			st.ClearG("looked")
			st.ClearG("taken")
		}
		h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
			if addr.K == KFieldAddr && addr.Args[0].Typ != nil && types.TypeString(addr.Args[0].Typ, nil) == "*net/url.URL" {
				switch addr.Fld.Name() {
				case "Scheme", "Host", "Path", "Opaque", "RawQuery":
					r.Report("link", where, i.Pos(), st, "a link is rewritten instead of being resolved")
				}
			}
		}
		keep := func(x *Exec, st *State, u *Term, pos token.Pos) {
			r.Ob("link", where)
			node, bad := m.hrefOf(x, st, strip(u))
			if bad != "" {
				r.Report("link", where, pos, st, "a URL is returned that %s: %v", bad, u)
			}
			if node == nil {
				return
			}
			s := isNode(node)
			if s == nil {
				r.Report("link", where, pos, st, "a URL is returned of a node that does not come from the selector: %v", node)
				return
			}
			if st.HasG("taken", node) {
				r.Report("link", where, pos, st, "a node's URL is returned twice")
			}
			st.AddG("taken", node)
		}
		h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
			if !isURLs(res.Typ) {
				return
			}
			if rest != nil && rest != tNil && !attrHas(x.elemOf(st, rest), "link") {
				r.Report("order", where, i.Pos(), st, "URLs collected so far are put behind new ones")
			}
			for _, el := range els {
				keep(x, st, el, i.Pos())
				st.attr[el] = attrOr(st.attr[el], "link")
				if node, _ := m.hrefOf(x, st, strip(el)); node != nil {
					if s := isNode(node); s != nil {
						st.attr[el] = attrOr(st.attr[el], fromAttr(s))
						for _, c := range st.G("cur") {
							if c == node {
								st.ClearG("cur")
							}
						}
					}
				}
			}
		}
		h.Call = func(x *Exec, st *State, c *Call) {
			switch c.Name {
			case "net/url.Parse", "(*net/url.URL).Parse":
				st.AddG("parsed", c.R(0))
			case fnName(m.attr):
				st.AddG("looked", c.Res)
			case "(*net/url.URL).ResolveReference":
				st.AddG("looked", c.Res)
			case "(*sync.Map).Store", "(*sync.Map).LoadOrStore":
				k, v := strip(c.Arg(1)), c.Arg(2)
				r.Ob("cache", site(c))
				if compiledKey(v) != k {
					r.Report("cache", site(c), c.Pos(), st, "what is cached is not what its key compiles to: %v", v)
				}
			}
			if sel, root := matchedBy(c.Res); sel != nil {
				r.Ob("selector", site(c))
				k := compiledKey(sel)
				if k == nil || asked != nil && k != asked || asked == nil && k.K != KConst {
					r.Report("selector", site(c), c.Pos(), st, "the nodes are matched by %v, not by the selector asked for", sel)
				}
				if root != m.get(x, st, m.root) {
					r.Report("selector", site(c), c.Pos(), st, "the nodes are not searched in the page's document: %v", root)
				}
				st.SetG("nodes", c.Res)
			}
		}
		r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
			m.recv = args[0]
			asked = nil
			for _, a := range args[1:] {
				if isStringT(a.Typ) {
					asked = a
				}
			}
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			res := tupleAt(o.res, 0)
			if k := errResult(fn); k > 0 && st.nonNil(tupleAt(o.res, k)) {
				return
			}
			ns := st.G("nodes")
			if len(ns) == 0 {
				return // no document or no selector
			}
			r.Ob("all", where)
			nodes := ns[0]
			if st.isNil(nodes) || st.holds(mkEq(mkLen(nodes), tZeroInt)) || st.entailsDiff(mkLen(nodes), tZeroInt, 0) {
				return
			}
			if st.HasG("dropped", nodes) {
				r.Report("all", where, token.NoPos, st, "a node is left out although its href is an http or https URL")
			} else if !st.HasG("exhausted", nodes) {
				r.Report("all", where, token.NoPos, st, "not every matched node is looked at, in document order")
			}
			if !st.isNil(res) && !attrHas(x.elemOf(st, res), "link") {
				r.Report("only", where, token.NoPos, st, "the result may contain URLs other than those of the nodes: %v", res)
			}
		})
	}
	if n == 0 {
		r.Missing("Page's methods returning URLs")
	}
	r.Need("link", 2)
	r.Need("selector", 1)
	r.Need("all", 2)
	r.Need("cache", 1)
}

func isURLs(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := types.Unalias(s.Elem()).(*types.Pointer)
	return ok && types.TypeString(types.Unalias(p.Elem()), nil) == "net/url.URL"
}

// ---- lists ---------------------------------------------------------------------------------

// inRange: 0 <= idx < len.
func inRange(st *State, idx, s *Term) bool {
	return notNeg(st, idx, mkLen(s)) && below(st, idx, mkLen(s))
}

func notNeg(st *State, idx, n *Term) bool {
	if st.entailsDiff(tZeroInt, idx, 0) {
		return true
	}
	// n + i where i >= -n
	if idx.K == KBin && idx.Aux == "+" {
		for k := 0; k < 2; k++ {
			if idx.Args[k] == n && st.entailsDiff(negOf(n), idx.Args[1-k], 0) {
				return true
			}
		}
	}
	return false
}

func negOf(n *Term) *Term { return in.mk(Term{K: KUn, Aux: "-", Args: []*Term{n}, Typ: n.Typ}) }

func below(st *State, idx, n *Term) bool {
	if st.entailsDiff(idx, n, -1) {
		return true
	}
	// n + negative
	if b, k := lin(idx); k <= 0 && b.K == KBin && b.Aux == "+" {
		for i := 0; i < 2; i++ {
			if b.Args[i] == n && st.entailsDiff(b.Args[1-i], tZeroInt, -1) {
				return true
			}
		}
	}
	return false
}

// isFromEnd: idx is len + i.
func isFromEnd(idx, n, i *Term) bool {
	return idx == mkBin(token.ADD, n, i, types.Typ[types.Int]) || idx == mkBin(token.ADD, i, n, types.Typ[types.Int])
}

func checkS05(r *Result) {
	T := r.P.Named(pAnt, "List")
	if T == nil {
		r.Missing("List")
		return
	}
	text, attr := readers(r.P)
	if text == nil || attr == nil {
		r.Missing("the functions reading a node's text and attributes")
		return
	}
	n := 0
	for _, fn := range r.P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Recv() == nil || !fn.Object().Exported() {
			continue
		}
		if nn := namedOf(fn.Signature.Recv().Type()); nn == nil || !types.Identical(nn, T) {
			continue
		}
		n++
		where := fnLabel(fn)
		r.Ob("method", where)
		h := totality(r, where)
		h.Opaque = func(f *ssa.Function) bool {
			return fnPkg(f) == pSel || fnPkg(f) == pScan && f != text && f != attr && r.P.reaches(f, func(i ssa.Instruction) bool {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					return false
				}
				g := c.Common().StaticCallee()
				return g != nil && fnPkg(g) == "reflect" || c.Common().IsInvoke() && c.Common().Method.Pkg() != nil && c.Common().Method.Pkg().Path() == "reflect"
			})
		}
		isAt := fn.Signature.Params().Len() == 1 && isInteger(fn.Signature.Params().At(0).Type()) && fn.Signature.Results().Len() == 1
		r.Run(h, fn, where, nil, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic || !isAt {
				return
			}
			l, i := args[0], args[1]
			ln := mkLen(l)
			r.Ob("at", where)
			var idx *Term
			res := o.res
			els, known := x.sliceElems(st, res)
			switch {
			case known && len(els) == 1:
				if e := els[0]; e.K == KLoad && e.Args[0].K == KIndexAddr && e.Args[0].Args[0] == l {
					idx = e.Args[0].Args[1]
				}
			case res.K == KSlice && res.Args[0] == l && res.Args[1] != tNil && res.Args[2] == addConst(res.Args[1], 1):
				idx = res.Args[1]
			case st.isNil(res), known && len(els) == 0, st.holds(mkEq(mkLen(res), tZeroInt)):
				q := st.clone()
				if q.assume(mkNot(mkLt(i, tZeroInt)), true) && q.assume(mkLt(i, ln), true) && !impossible(q, i, ln) {
					r.Report("at", where, token.NoPos, st, "the list is empty although index i may be within it")
				}
				q = st.clone()
				s := mkBin(token.ADD, ln, i, types.Typ[types.Int])
				if q.assume(mkLt(i, tZeroInt), true) && q.assume(mkNot(mkLt(s, tZeroInt)), true) && q.assume(mkLt(s, ln), true) && !q.entailsDiff(i, negOf(ln), -1) {
					r.Report("at", where, token.NoPos, st, "the list is empty although index i may be within it, counting from the end")
				}
				return
			}
			switch {
			case idx == nil:
				r.Report("at", where, token.NoPos, st, "the result is neither empty nor one element of the list: %v", res)
			case idx == i:
			case isFromEnd(idx, ln, i):
				if !st.entailsDiff(i, tZeroInt, -1) {
					r.Report("at", where, token.NoPos, st, "an index that may not be negative counts from the end")
				}
			default:
				r.Report("at", where, token.NoPos, st, "the result is element %v of the list, not element i", idx)
			}
		})
	}
	if n == 0 {
		r.Missing("List's methods")
	}
	r.Need("at", 1)
	r.Need("method", 5)
}

// impossible is a hook for facts the difference bounds do not see.
func impossible(q *State, i, n *Term) bool {
	return q.entailsDiff(n, i, 0) || q.entailsDiff(i, negOf(n), -1) || q.entailsDiff(i, tZeroInt, -1)
}

// totality reports every operation that may panic.
func totality(r *Result, where string) *Hooks {
	h := &Hooks{}
	h.Index = func(x *Exec, st *State, base, idx *Term, i ssa.Instruction, fr *frame) {
		what := topFn(fr.fn)
		if base.K == KAlloc { // array
			return
		}
		r.Ob("index", what)
		if !inRange(st, idx, base) {
			r.Report("index", what, i.Pos(), st, "index %v may be out of range of %v", idx, base)
		}
	}
	h.SliceOp = func(x *Exec, st *State, base, lo, hi *Term, i ssa.Instruction, fr *frame) {
		what := topFn(fr.fn)
		if base.K == KAlloc {
			return
		}
		r.Ob("slice", what)
		n := mkLen(base)
		if lo == tNil {
			lo = tZeroInt
		}
		if hi == tNil {
			hi = n
		}
		if !st.entailsDiff(tZeroInt, lo, 0) || !(st.entailsDiff(lo, hi, 0) || hi == n && below(st, lo, n)) || !(hi == n || st.entailsDiff(hi, n, 0) || below(st, addConst(hi, -1), n)) {
			r.Report("slice", what, i.Pos(), st, "slice bounds %v:%v may be out of range of %v", lo, hi, base)
		}
	}
	h.Deref = func(x *Exec, st *State, base *Term, i ssa.Instruction, fr *frame) {
		switch base.K {
		case KAlloc, KFieldAddr, KIndexAddr, KGlobal:
			return
		case KParam:
			if base.I == 0 && fr.fn.Signature.Recv() != nil {
				return
			}
		}
		what := topFn(fr.fn)
		r.Ob("deref", what)
		if !st.nonNil(base) {
			r.Report("deref", what, i.Pos(), st, "%v may be nil", base)
		}
	}
	h.Assert = func(x *Exec, st *State, v *Term, i *ssa.TypeAssert) {
		if i.CommaOk {
			return
		}
		ok := in.mk(Term{K: KAssertOk, Args: []*Term{v}, Typ: i.AssertedType, Aux: "ok"})
		if dt := dynType(v); dt != nil && types.Identical(dt, i.AssertedType) {
			return
		}
		r.Ob("assert", topFn(i.Parent()))
		if !st.holds(ok) {
			r.Report("assert", topFn(i.Parent()), i.Pos(), st, "%v may not be a %v", v, i.AssertedType)
		}
	}
	h.Panic = func(x *Exec, st *State, i *ssa.Panic) {
		r.Report("panic", topFn(i.Parent()), i.Pos(), st, "a panic is reachable")
	}
	return h
}

// ---- the JSON scraper --------------------------------------------------------------------

func checkS06(r *Result) {
	evScan := "(*" + pAnt + ".Page).Scan"
	evNext := "(*" + pAnt + ".Page).Next"
	evURLs := "(*" + pAnt + ".Page).URLs"
	const evEncode = "(*encoding/json.Encoder).Encode"
	P := r.P
	var fn *ssa.Function
	var T types.Type
	for _, f := range implMethods(P, "Scraper", "Scrape") {
		if P.calls(f, evEncode) {
			fn = f
			T = f.Signature.Recv().Type()
		}
	}
	ctor := P.Func(pAnt, "JSON")
	if fn == nil || ctor == nil {
		r.Missing("the JSON scraper")
		return
	}
	fieldT := func(s string) *types.Var {
		return fieldWhere(T, func(f *types.Var) bool { return f.Type().String() == s })
	}
	ft, fe, fs := fieldT("reflect.Type"), fieldT("*encoding/json.Encoder"), fieldT("[]string")
	if ft == nil || fe == nil || fs == nil {
		r.Missing("the JSON scraper's type, encoder and selectors")
		return
	}
	where := fnLabel(fn)
	var recv, page *Term
	get := func(x *Exec, st *State, f *types.Var) *Term {
		return x.fieldVar(st, recv, fieldIndex(T, f), f)
	}
	record := func(t *Term) *Term { // the reflect value whose interface this is
		t = strip(t)
		if t.K == KPure && t.Aux == "(reflect.Value).Interface" {
			return strip(t.Args[0])
		}
		return nil
	}
	h := &Hooks{Opaque: opaqueSet(evScan, evNext, evURLs)}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch c.Name {
		case "reflect.New":
			st.AddG("new", c.Res)
			if strip(c.Arg(0)) != get(x, st, ft) {
				r.Report("record", site(c), c.Pos(), st, "the record is not of the configured type: %v", c.Arg(0))
			}
		case evScan:
			r.Ob("scan", site(c))
			v := record(c.Arg(1))
			if v == nil || !st.HasG("new", v) {
				r.Report("record", site(c), c.Pos(), st, "the page is scanned into something else than a fresh record: %v", c.Arg(1))
			}
			if strip(c.Arg(0)) != page {
				r.Report("record", site(c), c.Pos(), st, "another page is scanned")
			}
			if v != nil {
				st.AddG("scanned", in.mk(Term{K: KTuple, Args: []*Term{v, c.Res}}))
			}
		case evEncode:
			r.Ob("encode", site(c))
			v := record(c.Arg(1))
			ok := false
			for _, s := range st.G("scanned") {
				if s.Args[0] == v && st.isNil(s.Args[1]) {
					ok = true
				}
			}
			if !ok {
				r.Report("encode", site(c), c.Pos(), st, "a record is written that was not successfully scanned from the page: %v", c.Arg(1))
			}
			if strip(c.Arg(0)) != get(x, st, fe) {
				r.Report("encode", site(c), c.Pos(), st, "the record is not written by the scraper's own encoder: %v", c.Arg(0))
			}
			if !heldExclusive(st, recv) {
				r.Report("serialised", site(c), c.Pos(), st, "a record is written without holding the scraper's lock")
			}
			if len(st.G("encoded")) > 0 {
				r.Report("encode", site(c), c.Pos(), st, "more than one record is written for a page")
			}
			st.AddG("encoded", c.Res)
		case evNext, evURLs:
			r.Ob("links", site(c))
			if strip(c.Arg(0)) != page {
				r.Report("links", site(c), c.Pos(), st, "links of another page are returned")
			}
			if c.Name == evNext {
				st.SetG("asked", in.mk(Term{K: KTuple, Args: []*Term{strip(c.Arg(1)), c.R(0), c.R(1)}}))
			}
		}
	}
	configured := func(x *Exec, st *State, sel *Term) bool {
		r.Ob("collected", where)
		return sel.K == KLoad && sel.Args[0].K == KIndexAddr && sel.Args[0].Args[0] == get(x, st, fs)
	}
	tr := &tracker{r: r, rule: "each"}
	tr.tracked = func(st *State, s *Term) bool {
		for _, a := range st.G("asked") {
			if a.Args[1] == s {
				return true
			}
		}
		return false
	}
	tr.excused = func(x *Exec, st *State, el *Term) bool { return false }
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		tr.load(x, st, addr, val, i)
		if addr.K == KIndexAddr && tr.tracked(st, addr.Args[0]) {
			st.attr[val] = attrOr(st.attr[val], "link")
		}
	}
	h.AttrOf = func(x *Exec, st *State, t *Term) string {
		if t.K == KLoad && t.Args[0].K == KIndexAddr && tr.tracked(st, t.Args[0].Args[0]) {
			return "link"
		}
		return ""
	}
	h.BackEdge = tr.backEdge
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		tr.assume(x, st, cond, val)
		for _, a := range st.G("asked") {
			if st.isNil(a.Args[2]) {
				st.SetG("succeeded", a)
			}
			if st.HasG("exhausted", a.Args[1]) && !st.HasG("dropped", a.Args[1]) && configured(x, st, a.Args[0]) {
				x.AddAttr(st, a.Args[0], "followed")
			}
		}
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		if !isURLs(res.Typ) {
			return
		}
		tr.append(x, st, els, rest)
		for _, a := range st.G("asked") {
			if rest == a.Args[1] {
				sel := a.Args[0]
				if !configured(x, st, sel) {
					r.Report("links", where, i.Pos(), st, "links of something else than a configured selector are returned: %v", sel)
					continue
				}
				if attrHas(x.elemOf(st, rest), "link") {
					continue
				}
				x.AddAttr(st, sel, "followed")
				st.elem[rest] = attrOr(st.elem[rest], "link")
				return
			}
		}
		if rest != nil && rest != tNil {
			r.Report("links", where, i.Pos(), st, "links are put in another order than their selectors': %v", rest)
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		recv = args[0]
		for _, a := range args[1:] {
			if n := namedOf(a.Typ); n != nil && n.Obj().Name() == "Page" {
				page = a
			}
		}
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		urls, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		r.Ob("exit", where)
		// failures
		var failed *Term
		for _, s := range st.G("scanned") {
			if !st.isNil(s.Args[1]) {
				failed = s.Args[1]
			}
		}
		for _, e := range st.G("encoded") {
			if !st.isNil(e) {
				failed = e
			}
		}
		if failed != nil {
			r.Ob("failure", where)
			if !(st.nonNil(err) && carries(st, err, failed)) && err != failed {
				r.Report("failure", where, token.NoPos, st, "a scan or encode failure is not returned: %v", err)
			}
		}
		if !st.isNil(err) {
			if !st.isNil(urls) && !st.holds(mkEq(mkLen(urls), tZeroInt)) {
				r.Report("failure", where, token.NoPos, st, "links are returned with an error: %v", urls)
			}
			if len(st.G("encoded")) == 0 && failed == nil {
				r.Report("failure", where, token.NoPos, st, "the scraper fails although nothing it did failed: %v", err)
			}
			if failed == nil {
				// a link error
				for _, a := range st.G("asked") {
					if !carries(st, err, a.Args[2]) {
						r.Report("failure", where, token.NoPos, st, "an error is returned that is not that of an operation: %v", err)
					}
				}
			}
			return
		}
		if len(st.G("encoded")) != 1 {
			r.Report("encode", where, token.NoPos, st, "a page is scraped without writing one record")
		}
		sels := get(x, st, fs)
		none := st.holds(mkEq(mkLen(sels), tZeroInt)) || st.entailsDiff(mkLen(sels), tZeroInt, 0) || st.isNil(sels)
		switch {
		case urls.K == KCall && urls.Aux == evURLs:
			if !none {
				r.Report("links", where, token.NoPos, st, "all links are returned although selectors may be configured")
			}
		case none:
			r.Report("links", where, token.NoPos, st, "no selectors are configured, and the page's links are not returned: %v", urls)
		default:
			if !attrHas(x.elemOf(st, sels), "followed") {
				r.Report("links", where, token.NoPos, st, "links of some selectors are left out")
			}
			if !attrHas(x.elemOf(st, urls), "link") && !st.isNil(urls) && urls.K != KAppend && urls.K != KPhi && urls.K != KOld {
				r.Report("links", where, token.NoPos, st, "the links returned are not those of the selectors: %v", urls)
			}
			for _, a := range st.G("asked") {
				if !st.isNil(a.Args[2]) && !st.HasG("succeeded", a) {
					r.Report("failure", where, token.NoPos, st, "an error of looking up links is dropped")
				}
			}
		}
	})
	// the constructor
	ch := &Hooks{}
	r.Run(ch, ctor, "JSON", nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		j := strip(o.res)
		r.Ob("built", "JSON")
		enc := x.fieldVar(st, j, fieldIndex(T, fe), fe)
		if enc.K != KCall || enc.Aux != "encoding/json.NewEncoder" || strip(enc.Args[0]) != args[0] {
			r.Report("built", "JSON encoder", token.NoPos, st, "the encoder does not write to the given writer: %v", enc)
		}
		sels := x.fieldVar(st, j, fieldIndex(T, fs), fs)
		if sels != args[2] && !(st.isNil(sels) && st.holds(mkEq(mkLen(args[2]), tZeroInt))) && !copyOf(sels, args[2]) {
			r.Report("built", "JSON selectors", token.NoPos, st, "the selectors are not the given ones: %v", sels)
		}
		ty := x.fieldVar(st, j, fieldIndex(T, ft), ft)
		of := mkPure("reflect.TypeOf", nil, args[1])
		_ = of
		if !anyTerm(ty, func(t *Term) bool { return t.K == KPure && t.Aux == "reflect.TypeOf" && strip(t.Args[0]) == args[1] }) {
			r.Report("built", "JSON type", token.NoPos, st, "the record type is not that of the given value: %v", ty)
		}
	})
	r.Need("scan", 1)
	r.Need("encode", 1)
	r.Need("links", 2)
	r.Need("collected", 1)
	r.Need("built", 1)
}

// copyOf: append([]T(nil), s...).
func copyOf(t, s *Term) bool {
	return t.K == KAppend && t.Args[1] == s
}
