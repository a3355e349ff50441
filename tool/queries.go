package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S07", "symbolic paths through Page.Query, Page.Scan, List.Query, List.Is, List.Attr, List.Scan and the function reading attributes: what is matched is the selector asked for against the page's document or a node of the list; the list returned is made of the matches of every node, in order; Is is true exactly where a node was found to match and false only when every node was found not to; an attribute is the value under the key asked for, and absent only when every key differs; nothing but an empty list, a selector that does not compile or a page that does not parse ends early", checkS07)
}

const cascadiaPkg = "github.com/andybalholm/cascadia"

type queries struct {
	r        *Result
	where    string
	list     *Term // the list asked
	selector *Term
	// root is the node asked when there is no list
	root func(x *Exec, st *State) *Term
}

func (q *queries) element(t *Term) bool {
	return q.list != nil && t.K == KLoad && t.Args[0].K == KIndexAddr && t.Args[0].Args[0] == q.list
}

// match: the call tests a node against a selector.
func (q *queries) match(c *Call) (sel, node *Term) {
	if c.Target != nil && len(c.Args) == 1 {
		if n := namedOf(c.Target.Typ); n != nil && n.Obj().Name() == "Selector" {
			return strip(c.Target), strip(c.Arg(0))
		}
	}
	switch c.Name {
	case "(" + cascadiaPkg + ".Selector).Match":
		return strip(c.Arg(0)), strip(c.Arg(1))
	}
	return nil, nil
}

// asks judges the selector and the node of a query.
func (q *queries) asks(x *Exec, st *State, what string, pos token.Pos, sel, node *Term) bool {
	q.r.Ob("asked", what)
	if k := compiledKey(sel); k != q.selector {
		q.r.Report("asked", what, pos, st, "what is matched is %v, not the selector asked for", sel)
	}
	if q.list != nil {
		if !q.element(node) {
			q.r.Report("asked", what, pos, st, "what is searched is %v, not a node of the list", node)
			return false
		}
		return true
	}
	if node != q.root(x, st) {
		q.r.Report("asked", what, pos, st, "what is searched is %v, not the page's document", node)
	}
	return false
}

// failed: the selector does not compile, or another operation of the query
// is known to have failed.
func failedQuery(st *State) bool {
	for _, e := range st.G("errs") {
		if st.nonNil(e) {
			return true
		}
	}
	return len(st.G("invalid")) > 0
}

func (q *queries) hooks(m *pages) *Hooks {
	h := &Hooks{}
	tr := &tracker{r: q.r, rule: "each"}
	tr.tracked = func(st *State, s *Term) bool { sel, _ := matchedBy(s); return sel != nil }
	tr.excused = func(x *Exec, st *State, el *Term) bool { return false }
	settle := func(x *Exec, st *State) {
		for _, e := range st.G("errs") {
			if st.nonNil(e) {
				st.SetG("invalid", mkTok("yes"))
			}
		}
		for _, t := range st.G("tested") {
			v, ok := st.evalBool(t.Args[0])
			switch {
			case !ok:
			case v:
				st.SetG("hit", mkTok("yes"))
				st.DelG("tested", t)
			case q.element(t.Args[2]):
				x.AddAttr(st, t.Args[2], "done")
				st.DelG("tested", t)
			}
		}
		for _, e := range st.G("seen") {
			if st.isNil(e) {
				x.AddAttr(st, e, "done")
				st.DelG("seen", e)
			}
		}
		for _, t := range st.G("found") {
			if isEmptyList(st, t.Args[0]) && q.element(t.Args[2]) {
				x.AddAttr(st, t.Args[2], "done")
				st.DelG("found", t)
				continue
			}
			if st.HasG("exhausted", t.Args[0]) && !st.HasG("dropped", t.Args[0]) && q.element(t.Args[2]) {
				x.AddAttr(st, t.Args[2], "done")
				st.DelG("found", t)
			}
		}
	}
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		tr.load(x, st, addr, val, i)
		if q.element(val) {
			st.SetG("seen", val)
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		tr.assume(x, st, cond, val)
		settle(x, st)
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
		settle(x, st)
		tr.backEdge(x, st, fr, b, phis)
	}
	h.AttrOf = func(x *Exec, st *State, t *Term) string {
		if t.K == KLoad && t.Args[0].K == KIndexAddr {
			if sel, _ := matchedBy(t.Args[0].Args[0]); sel != nil {
				return "match"
			}
		}
		return ""
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		switch {
		case strings.HasPrefix(c.Name, cascadiaPkg+".") && c.Sig.Results().Len() == 2:
			st.AddG("errs", c.R(1))
		case strings.HasPrefix(c.Name, "golang.org/x/net/html.Parse"):
			st.AddG("errs", c.R(1))
		case c.Name == "(*sync.Map).Store" || c.Name == "(*sync.Map).LoadOrStore":
			q.r.Ob("cache", what)
			if k, v := strip(c.Arg(1)), c.Arg(2); compiledKey(v) != k {
				q.r.Report("cache", what, c.Pos(), st, "what is cached is not what its key compiles to: %v", v)
			}
		}
		if sel, node := q.match(c); sel != nil {
			q.asks(x, st, what, c.Pos(), sel, node)
			st.AddG("tested", in.mk(Term{K: KTuple, Args: []*Term{c.Res, sel, node}}))
		}
		if sel, node := matchedBy(c.Res); sel != nil {
			q.asks(x, st, what, c.Pos(), sel, node)
			if q.element(node) && attrHas(st.attr[node], "queried") {
				q.r.Report("once", what, c.Pos(), st, "a node is searched more than once")
			}
			st.AddG("found", in.mk(Term{K: KTuple, Args: []*Term{c.Res, sel, node}}))
		}
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		s, ok := res.Typ.Underlying().(*types.Slice)
		if !ok || types.TypeString(s.Elem(), nil) != "*golang.org/x/net/html.Node" {
			return
		}
		tr.append(x, st, els, rest)
		q.r.Ob("collected", q.where)
		if base != nil && base != tNil && !attrHas(x.elemOf(st, base), "match") {
			q.r.Report("collected", q.where, i.Pos(), st, "matches are put behind something else than matches: %v", base)
		}
		if base != nil && base.K == KSlice && !isEmptyList(st, base.Args[0]) && !st.entailsDiff(mkLen(base.Args[0]), mkLen(base), 0) {
			q.r.Report("collected", q.where, i.Pos(), st, "matches collected before are dropped: %v", base)
		}
		for _, el := range els {
			if !attrHas(x.attrOf(st, el), "match") {
				q.r.Report("collected", q.where, i.Pos(), st, "something else than a match is returned: %v", el)
			}
		}
		if rest == nil || rest == tNil || len(els) > 0 {
			return
		}
		for _, t := range st.G("found") {
			if t.Args[0] != rest {
				continue
			}
			if attrHas(st.attr[t.Args[2]], "put") {
				q.r.Report("once", q.where, i.Pos(), st, "a node's matches are returned twice")
			}
			st.elem[rest] = attrOr(st.elem[rest], "match")
			if q.element(t.Args[2]) {
				st.attr[t.Args[2]] = attrOr(st.attr[t.Args[2]], "put")
				x.AddAttr(st, t.Args[2], "done")
				st.DelG("found", t)
			}
			return
		}
		q.r.Report("collected", q.where, i.Pos(), st, "something else than the matches of a node is put behind the ones before: %v", rest)
	}
	return h
}

func isEmptyList(st *State, t *Term) bool {
	return st.isNil(t) || st.holds(mkEq(mkLen(t), tZeroInt)) || st.entailsDiff(mkLen(t), tZeroInt, 0)
}

func checkS07(r *Result) {
	m := newPages(r)
	L := r.P.Named(pAnt, "List")
	if m == nil || L == nil {
		r.Missing("Page or List")
		return
	}
	opaque := func(f *ssa.Function) bool {
		return f == m.attr || f == m.text || fnPkg(f) == pScan
	}
	isNode := func(t types.Type) bool { return types.TypeString(t, nil) == "*golang.org/x/net/html.Node" }

	// the lists of a query
	for _, T := range []string{"Page", "List"} {
		fn := r.P.Meth(pAnt, T, "Query")
		if fn == nil {
			r.Missing(T + ".Query")
			continue
		}
		q := &queries{r: r, where: fnLabel(fn)}
		h := q.hooks(m)
		h.Opaque = opaque
		r.Run(h, fn, q.where, func(x *Exec, st *State, args []*Term) {
			q.selector = args[1]
			if T == "List" {
				q.list = args[0]
				return
			}
			m.recv = args[0]
			q.root = func(x *Exec, st *State) *Term { return m.get(x, st, m.root) }
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			r.Ob("matches", q.where)
			res := strip(o.res)
			found := st.G("found")
			if q.list == nil {
				fail := failedQuery(st) || st.nonNil(m.get(x, st, m.err))
				switch {
				case fail:
					if !isEmptyList(st, res) {
						r.Report("matches", q.where, token.NoPos, st, "a query that failed returns nodes: %v", res)
					}
				case len(found) == 0:
					r.Report("matches", q.where, token.NoPos, st, "the document is not searched although nothing failed")
				case res == found[0].Args[0]:
				case isEmptyList(st, found[0].Args[0]) && isEmptyList(st, res):
				case st.HasG("dropped", found[0].Args[0]):
					r.Report("matches", q.where, token.NoPos, st, "a match may be left out")
				case !isEmptyList(st, res) && attrHas(x.elemOf(st, res), "match") && (!tracksLoop(found[0].Args[0], res) || st.HasG("exhausted", found[0].Args[0])):
				default:
					r.Report("matches", q.where, token.NoPos, st, "what is returned is not the matches: %v", res)
				}
				return
			}
			if failedQuery(st) {
				if !isEmptyList(st, res) {
					r.Report("matches", q.where, token.NoPos, st, "a query that failed returns nodes: %v", res)
				}
				return
			}
			if !attrHas(x.elemOf(st, q.list), "done") {
				r.Report("matches", q.where, token.NoPos, st, "the matches of some nodes may be left out: %v", res)
			}
			if !attrHas(x.elemOf(st, res), "match") {
				r.Report("matches", q.where, token.NoPos, st, "what is returned may not be matches: %v", res)
			}
		})
	}

	// Is
	if fn := r.P.Meth(pAnt, "List", "Is"); fn == nil {
		r.Missing("List.Is")
	} else {
		q := &queries{r: r, where: fnLabel(fn)}
		h := q.hooks(m)
		h.Opaque = opaque
		r.Run(h, fn, q.where, func(x *Exec, st *State, args []*Term) { q.list, q.selector = args[0], args[1] }, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			for _, val := range []bool{true, false} {
				s := st.clone()
				if !s.assume(o.res, val) {
					continue
				}
				h.Assume(x, s, o.res, val, nil)
				r.Ob("is", q.where)
				hit := len(s.G("hit")) > 0
				switch {
				case val && !hit:
					r.Report("is", q.where, token.NoPos, s, "true is returned where no node was found to match")
				case !val && hit:
					r.Report("is", q.where, token.NoPos, s, "false is returned where a node was found to match")
				case !val && !failedQuery(s) && !attrHas(x.elemOf(s, q.list), "done"):
					r.Report("is", q.where, token.NoPos, s, "false is returned where a node was not tested")
				}
			}
		})
	}

	// the first node's attribute and data
	for _, name := range []string{"Attr", "Scan"} {
		fn := r.P.Meth(pAnt, "List", name)
		if fn == nil {
			r.Missing("List." + name)
			continue
		}
		where := fnLabel(fn)
		h := &Hooks{Opaque: opaque}
		first := func(st *State, l, n *Term) bool {
			return n.K == KLoad && n.Args[0].K == KIndexAddr && n.Args[0].Args[0] == l && st.entailsDiff(n.Args[0].Args[1], tZeroInt, 0) && st.entailsDiff(tZeroInt, n.Args[0].Args[1], 0)
		}
		var args []*Term
		h.Call = func(x *Exec, st *State, c *Call) {
			if c.Fn == nil || fnPkg(c.Fn) != pScan {
				return
			}
			q := site(c)
			switch {
			case c.Fn == m.attr:
				r.Ob("first", q)
				if !first(st, args[0], strip(c.Arg(0))) {
					r.Report("first", q, c.Pos(), st, "the attribute is read from %v, not the first node", c.Arg(0))
				}
				if name == "Attr" && strip(c.Arg(1)) != args[1] {
					r.Report("first", q, c.Pos(), st, "the attribute read is %v, not the one asked for", c.Arg(1))
				}
			case c.Fn.Signature.Recv() != nil && len(c.Args) >= 3:
				r.Ob("first", q)
				if a := strip(c.Arg(1)); a != args[1] && c.Arg(1) != args[1] {
					r.Report("first", q, c.Pos(), st, "the data are put into %v, not what the caller gave", c.Arg(1))
				}
				for _, a := range c.Args {
					if a.Typ != nil && isNode(a.Typ) && !first(st, args[0], strip(a)) {
						r.Report("first", q, c.Pos(), st, "the data come from %v, not the first node", a)
					}
				}
			default:
				return
			}
			st.SetG("asked", c.Res)
		}
		r.Run(h, fn, where, func(x *Exec, st *State, as []*Term) { args = as }, func(x *Exec, st *State, as []*Term, o Outcome) {
			if o.panic {
				return
			}
			r.Ob("reads", where)
			a := st.G("asked")
			if len(a) == 0 {
				if !isEmptyList(st, as[0]) && !(st.isNil(in.mk(Term{K: KLoad, Args: []*Term{mkIndexAddr(as[0], tZeroInt, nodeElem(L))}, Typ: nodeElem(L)}))) {
					r.Report("reads", where, token.NoPos, st, "the first node is not read although the list may have one")
				}
				ok := name == "Scan" || st.refuted(tupleAt(o.res, 1))
				if !ok {
					r.Report("reads", where, token.NoPos, st, "an empty list gives %v", o.res)
				}
				return
			}
			same := o.res == a[0]
			if name == "Attr" {
				same = same || o.res.K == KTuple && o.res.Args[0] == mkExtract(a[0], 0, o.res.Args[0].Typ) && o.res.Args[1] == mkExtract(a[0], 1, o.res.Args[1].Typ)
				if !same && o.res.K == KTuple {
					ok := mkExtract(a[0], 1, types.Typ[types.Bool])
					v, known := st.evalBool(o.res.Args[1])
					w, kn := st.evalBool(ok)
					same = known && kn && v == w && (!v || o.res.Args[0] == mkExtract(a[0], 0, types.Typ[types.String]))
				}
			} else {
				same = same || st.isNil(a[0]) && st.isNil(o.res) || st.nonNil(o.res) && carries(st, o.res, a[0])
			}
			if !same {
				r.Report("reads", where, token.NoPos, st, "%v is returned, not what was read", o.res)
			}
		})
	}

	// Page.Scan
	if fn := r.P.Meth(pAnt, "Page", "Scan"); fn == nil {
		r.Missing("Page.Scan")
	} else {
		where := fnLabel(fn)
		h := &Hooks{Opaque: opaque}
		var dst *Term
		h.Call = func(x *Exec, st *State, c *Call) {
			if c.Fn == nil || fnPkg(c.Fn) != pScan || c.Fn.Signature.Recv() == nil || len(c.Args) < 3 {
				return
			}
			r.Ob("document", site(c))
			if a := strip(c.Arg(1)); a != dst && c.Arg(1) != dst {
				r.Report("document", site(c), c.Pos(), st, "the data are put into %v, not what the caller gave", c.Arg(1))
			}
			for _, a := range c.Args {
				if a.Typ == nil {
					continue
				}
				if isNode(a.Typ) && strip(a) != m.get(x, st, m.root) {
					r.Report("document", site(c), c.Pos(), st, "the data come from %v, not the page's document", a)
				}
			}
			st.AddG("asked", c.Res)
		}
		r.Run(h, fn, where, func(x *Exec, st *State, as []*Term) { m.recv, dst = as[0], as[1] }, func(x *Exec, st *State, as []*Term, o Outcome) {
			if o.panic {
				return
			}
			r.Ob("reads", where)
			a := st.G("asked")
			switch {
			case len(a) == 0:
				if !st.nonNil(o.res) {
					r.Report("reads", where, token.NoPos, st, "succeeds without having read the document")
				}
			case o.res != a[0] && !(st.isNil(a[0]) && st.isNil(o.res)) && !(st.nonNil(o.res) && carries(st, o.res, a[0])):
				r.Report("reads", where, token.NoPos, st, "%v is returned, not what reading the document gave", o.res)
			}
		})
	}

	m.attribute()
	r.Need("matches", 2)
	r.Need("asked", 2)
	r.Need("is", 1)
	r.Need("reads", 3)
	r.Need("first", 1)
	r.Need("attribute", 1)
}

// tracksLoop: res was collected element by element from the matches.
func tracksLoop(found, res *Term) bool { return !contains(res, found) }

func nodeElem(L types.Type) types.Type { return L.Underlying().(*types.Slice).Elem() }

// attribute judges the function that reads one attribute of a node.
func (m *pages) attribute() {
	r, fn := m.r, m.attr
	where := fnLabel(fn)
	pt := fn.Signature.Params().At(0).Type()
	nT := pt.(*types.Pointer).Elem()
	li, lf := r.P.Field(nT, "Attr")
	if lf == nil {
		r.Missing("html.Node.Attr")
		return
	}
	eT := lf.Type().Underlying().(*types.Slice).Elem()
	ki, kf := r.P.Field(eT, "Key")
	vi, vf := r.P.Field(eT, "Val")
	var node, key, list *Term
	// attrs: the element whose field f the term is
	of := func(t *Term, i int, f *types.Var) *Term {
		t = strip(t)
		var ia *Term
		switch {
		case t.K == KLoad && t.Args[0].K == KFieldAddr && t.Args[0].Fld == f:
			ia = t.Args[0].Args[0]
		case t.K == KField && t.Fld == f && t.Args[0].K == KLoad:
			ia = t.Args[0].Args[0]
		}
		if ia != nil && ia.K == KIndexAddr && ia.Args[0] == list {
			return ia
		}
		return nil
	}
	settle := func(x *Exec, st *State, cond *Term, val bool) {
		for cond.K == KUn && cond.Aux == "!" {
			cond, val = cond.Args[0], !val
		}
		if cond.K != KBin || cond.Aux != "==" {
			return
		}
		for i := 0; i < 2; i++ {
			if ia := of(cond.Args[i], ki, kf); ia != nil && strip(cond.Args[1-i]) == key {
				if val {
					st.AddG("hit", x.load(st, mkFieldAddr(ia, vi, vf), vf.Type()))
				} else {
					x.prefixStore(st, list, ia.Args[1], "done")
				}
			}
		}
	}
	h := &Hooks{}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) { settle(x, st, cond, val) }
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		node, key = args[0], args[1]
		list = x.load(st, mkFieldAddr(node, li, lf), lf.Type())
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		v, ok := tupleAt(o.res, 0), tupleAt(o.res, 1)
		for _, val := range []bool{true, false} {
			s := st.clone()
			if !s.assume(ok, val) {
				continue
			}
			settle(x, s, ok, val)
			r.Ob("attribute", where)
			if val {
				if !s.HasG("hit", strip(v)) {
					r.Report("attribute", where, token.NoPos, s, "the value returned is %v, not that of an attribute found to have the key", v)
				}
				continue
			}
			if !s.isNil(node) && !attrHas(x.elemOf(s, list), "done") {
				r.Report("attribute", where, token.NoPos, s, "the attribute is said to be missing although not every key was compared")
			}
		}
	})
}
