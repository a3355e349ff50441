package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The robots rules follow the lookups of one Allowed or Wait. Ghost state:
//   got     cache lookups made
//   last    (response, error) of the robots.txt request
//   parsed  (data, error) of the parses
//   found   groups looked up

func init() {
	register("R01", "provenance over every path of Cache.Allowed: the answer is TestAgent/Group.Test of rules that came from robots.txt of the URL's own host (parsed from this lookup's response or cached under the URL's host), for the rooted path and query of the URL and the request's agent (* when empty); it is true without rules only where the status is entailed to be 400 or above or the cached entry has no rules", checkR01)
	register("R02", "guards: the lru is written only where the request and the parse are entailed to have succeeded, under the URL's host, with rules parsed from that response (or none where the status is entailed 400 or above); every failed request or parse reaches an exit with its error and false; NewCache sets a positive maximum age", checkR02)
	register("R03", "guards: Cache.Wait returns nil only where there are no rules, or the group's crawl delay is entailed not positive, or a timer of exactly that delay fired; every pause also selects on the caller's Done channel and, when cancelled, returns the context's error", checkR03)
}

const (
	pTemoto = "github.com/temoto/robotstxt"
	pLRU    = "github.com/segmentio/agecache"
	lruGet  = "(*" + pLRU + ".Cache).Get"
	lruSet  = "(*" + pLRU + ".Cache).Set"
)

type robots struct {
	r    *Result
	ctx  *Term
	url  *Term
	ua   *Term
	root string
}

func (m *robots) run(h *Hooks, name string, end func(x *Exec, st *State, o Outcome)) {
	call := h.Call
	h.Call = func(x *Exec, st *State, c *Call) {
		switch {
		case c.Name == lruGet && c.Res != nil:
			st.AddG("got", c.R(0))
		case isDo(c):
			st.SetG("last", c.R(0), c.R(1))
		case strings.HasPrefix(c.Name, pTemoto+".From"):
			st.AddG("parsed", c.R(0))
		case c.Name == "(*"+pTemoto+".RobotsData).FindGroup":
			st.AddG("found", c.Res)
		case c.Name == "(*"+pTemoto+".RobotsData).TestAgent" || c.Name == "(*"+pTemoto+".Group).Test":
			st.AddG("tested", c.Res)
		}
		if call != nil {
			call(x, st, c)
		}
	}
	m.root = name
	m.r.Run(h, m.r.P.Meth(pRobots, "Cache", name), "(*robots.Cache)."+name, func(x *Exec, st *State, args []*Term) {
		m.ctx = args[1]
		m.url, m.ua = robotsReq(x, st, args[2])
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if !o.panic {
			end(x, st, o)
		}
	})
}

func (m *robots) hostKey(t *Term) bool {
	t = strip(t)
	if t.K == KPure && t.Aux == "strings.ToLower" {
		t = strip(t.Args[0])
	}
	if loadOf(t, m.url, "Host") {
		return true
	}
	host := false
	for _, p := range concat(t) {
		switch {
		case loadOf(p, m.url, "Host"):
			host = true
		case loadOf(p, m.url, "Scheme"):
		default:
			if _, ok := p.isStr(); !ok {
				return false
			}
		}
	}
	return host
}

// agent: the term is the request's user agent, or * where that is empty.
func (m *robots) agent(st *State, t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s == "*" && st.holds(mkEq(m.ua, mkStr("")))
	}
	return t == m.ua && st.refuted(mkEq(m.ua, mkStr("")))
}

// cachedData: t are rules read from the entry cached under the URL's host.
func (m *robots) cachedData(t *Term) bool {
	for {
		switch t.K {
		case KLoad, KFieldAddr, KField, KAssert, KIface, KConv:
			t = t.Args[0]
			continue
		case KExtract:
			if t.Args[0].K == KAssert {
				t = t.Args[0]
				continue
			}
		}
		break
	}
	return t.K == KExtract && callName(t) == lruGet && m.hostKey(callArgs(t)[1])
}

// freshData: t are rules parsed from the answer of this lookup.
func (m *robots) freshData(st *State, t *Term) bool {
	if t.K != KExtract || !strings.HasPrefix(callName(t), pTemoto+".From") || t.I != 0 {
		return false
	}
	l := st.G("last")
	if len(l) == 0 {
		return false
	}
	for _, a := range callArgs(t) {
		if anyTerm(a, func(t *Term) bool { return t == l[0] }) {
			return st.isNil(l[1])
		}
	}
	return false
}

func (m *robots) data(st *State, t *Term) bool { return m.cachedData(t) || m.freshData(st, t) }

// path: "" when t is the rooted path of the URL with its query.
func (m *robots) path(x *Exec, st *State, t *Term) string {
	if t.K == KPure && t.Aux == "(*net/url.URL).RequestURI" && t.Args[0] == m.url {
		return ""
	}
	isPath := func(p *Term) bool {
		return loadOf(p, m.url, "Path") || p.K == KPure && p.Aux == "(*net/url.URL).EscapedPath" && p.Args[0] == m.url
	}
	ps := urlParts(x, st, t)
	// the path
	i := 0
	slash := false
	if i < len(ps) && isStrTerm(ps[i], "/") {
		slash = true
		i++
	}
	var p *Term
	if i < len(ps) && isPath(ps[i]) {
		p = ps[i]
		i++
	}
	if i < len(ps) && p != nil {
		// "/" + path + "?" + query may have joined constants only after p
	}
	switch {
	case p == nil && slash:
		u := x.fieldVal(st, m.url, x.P.httpURL(), "Path")
		if !st.holds(mkEq(u, mkStr(""))) {
			return "is / although the path may not be empty"
		}
	case p == nil:
		// "/?" + query
		if len(ps) == 2 && isStrTerm(ps[0], "/?") && loadOf(ps[1], m.url, "RawQuery") {
			u := x.fieldVal(st, m.url, x.P.httpURL(), "Path")
			if st.holds(mkEq(u, mkStr(""))) {
				return ""
			}
		}
		return "does not contain the URL's path"
	default:
		switch r := rooted(st, p); {
		case slash && r == 1:
			return "has two leading slashes"
		case slash && r == -1:
			return "has another slash in front of a path that may already begin with one"
		case !slash && r != 1:
			return "may not begin with a slash"
		}
	}
	rest := ps[i:]
	q := x.fieldVal(st, m.url, x.P.httpURL(), "RawQuery")
	empty := st.holds(mkEq(q, mkStr(""))) || st.holds(mkEq(mkLen(q), tZeroInt))
	switch {
	case len(rest) == 0:
		if !empty {
			return "leaves out the URL's query"
		}
		return ""
	case len(rest) == 2 && isStrTerm(rest[0], "?") && loadOf(rest[1], m.url, "RawQuery"):
		return ""
	}
	return "is not the URL's path and query"
}

// rooted: 1 when the path is known to begin with a slash, 0 when known not
// to, -1 otherwise.
func rooted(st *State, p *Term) int {
	if st.holds(mkEq(p, mkStr(""))) || st.holds(mkEq(mkLen(p), tZeroInt)) {
		return 0
	}
	res := -1
	for a, v := range st.atoms {
		switch {
		case a.K == KPure && a.Aux == "strings.HasPrefix" && a.Args[0] == p && isStrTerm(a.Args[1], "/"):
			res = b2i(v)
		case a.K == KBin && a.Aux == "==" && isFirstByte(a.Args[0], p):
			if n, ok := a.Args[1].isInt(); ok && n == '/' {
				res = b2i(v)
			}
		case a.K == KBin && a.Aux == "==" && isFirstByte(a.Args[1], p):
			if n, ok := a.Args[0].isInt(); ok && n == '/' {
				res = b2i(v)
			}
		}
	}
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isFirstByte(t, s *Term) bool {
	for t.K == KConv {
		t = t.Args[0]
	}
	if t.K != KIndex || len(t.Args) < 2 || t.Args[0] != s {
		return false
	}
	n, ok := t.Args[1].isInt()
	return ok && n == 0
}

// noRules: the path established that there are no rules to obey.
func (m *robots) noRules(x *Exec, st *State) bool {
	if l := st.G("last"); len(l) > 0 {
		if st.isNil(l[1]) && st.entailsDiff(mkInt(400), statusOf(x, st, l[0]), 0) {
			return true
		}
	}
	for a, v := range st.atoms {
		if v && a.K == KBin && a.Aux == "==" && a.Args[1] == tNil && isRules(a.Args[0]) && (m.cachedData(a.Args[0]) || m.freshData(st, a.Args[0]) && st.isNil(errOf(a.Args[0]))) {
			return true
		}
	}
	return false
}

func isRules(t *Term) bool {
	return t.Typ != nil && strings.HasSuffix(t.Typ.String(), pTemoto+".RobotsData")
}

// verdict: the answer of a test that the path knows or returns.
func (m *robots) verdict(x *Exec, st *State, t *Term, pos token.Pos) string {
	var d, p, ua *Term
	a := callArgs(t)
	switch callName(t) {
	case "(*" + pTemoto + ".RobotsData).TestAgent":
		d, p, ua = a[0], a[1], a[2]
	case "(*" + pTemoto + ".Group).Test":
		g := a[0]
		if callName(g) != "(*"+pTemoto+".RobotsData).FindGroup" {
			return "the group " + g.String() + " was not looked up in the rules"
		}
		ga := callArgs(g)
		d, ua, p = ga[0], ga[1], a[1]
	default:
		return "the answer " + t.String() + " is not that of the rules"
	}
	if !m.data(st, d) {
		return "the rules " + d.String() + " are not those of the URL's host"
	}
	if !m.agent(st, ua) {
		return "the rules are evaluated for agent " + ua.String()
	}
	if msg := m.path(x, st, p); msg != "" {
		return "the path tested, " + p.String() + ", " + msg
	}
	return ""
}

func checkR01(r *Result) {
	m := &robots{r: r}
	where := "(*robots.Cache).Allowed"
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		if strings.HasPrefix(c.Name, pTemoto+".From") {
			l := st.G("last")
			r.Ob("status", site(c))
			if c.Name != pTemoto+".FromStatusAndBytes" && len(l) > 0 && !st.entailsDiff(statusOf(x, st, l[0]), mkInt(400), -1) {
				r.Report("status", site(c), c.Pos(), st, "rules are read from an answer whose status may be 400 or above")
			}
			if c.Name == pTemoto+".FromStatusAndBytes" && len(l) > 0 && !st.entailsDiff(statusOf(x, st, l[0]), mkInt(500), -1) {
				r.Report("status", site(c), c.Pos(), st, "rules are read from an answer whose status may be 500 or above")
			}
		}
	}
	m.run(h, "Allowed", func(x *Exec, st *State, o Outcome) {
		ok, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		if ok == nil || err == nil || st.nonNil(err) {
			return
		}
		r.Ob("answer", where)
		val, known := st.evalBool(ok)
		if known {
			for _, t := range st.G("tested") {
				if v, k := st.evalBool(t); k && v == val {
					r.Ob("tested", where)
					if msg := m.verdict(x, st, t, token.NoPos); msg != "" {
						r.Report("answer", where, token.NoPos, st, "%s", msg)
					}
					return
				}
			}
			if !val {
				r.Report("answer", where, token.NoPos, st, "a URL is refused without a rule that refuses it")
				return
			}
			r.Ob("no-rules", where)
			if !m.noRules(x, st) {
				r.Report("answer", where, token.NoPos, st, "a URL is allowed without consulting the rules, although it is not established that there are none")
			}
			return
		}
		r.Ob("tested", where)
		if msg := m.verdict(x, st, ok, token.NoPos); msg != "" {
			r.Report("answer", where, token.NoPos, st, "%s", msg)
		}
		if m.statusAbove(x, st) {
			r.Report("status", where, token.NoPos, st, "rules decide although the status is 400 or above")
		}
	})
	m.keys()
	r.Need("answer", 1)
	r.Need("tested", 1)
	r.Need("no-rules", 1)
	r.Need("status", 1)
	r.Need("key", 2)
}

func (m *robots) statusAbove(x *Exec, st *State) bool {
	l := st.G("last")
	return len(l) > 0 && st.isNil(l[1]) && st.entailsDiff(mkInt(400), statusOf(x, st, l[0]), 0)
}

// keys checks what every use of the lru is keyed by, in Allowed and Wait.
func (m *robots) keys() {
	r := m.r
	for _, root := range []string{"Allowed", "Wait"} {
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) {
			if !strings.HasPrefix(c.Name, "(*"+pLRU+".Cache).") || len(c.Args) < 2 {
				return
			}
			r.Ob("key", site(c))
			if !m.hostKey(c.Arg(1)) {
				r.Report("key", site(c), c.Pos(), st, "rules are cached under %v, not under the URL's host", c.Arg(1))
			}
		}
		m.run(h, root, func(x *Exec, st *State, o Outcome) {
			if root != "Wait" {
				return
			}
			for _, g := range st.G("found") {
				a := callArgs(g)
				r.Ob("group", "(*robots.Cache).Wait")
				if !m.data(st, a[0]) {
					r.Report("group", "(*robots.Cache).Wait", token.NoPos, st, "the group is looked up in %v, not in the rules of the URL's host", a[0])
				}
				if !m.agent(st, a[1]) {
					r.Report("group", "(*robots.Cache).Wait", token.NoPos, st, "the group is looked up for agent %v", a[1])
				}
			}
		})
	}
	r.Need("group", 1)
}

func checkR02(r *Result) {
	m := &robots{r: r}
	for _, root := range []string{"Allowed", "Wait"} {
		where := "(*robots.Cache)." + root
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) {
			if c.Name != lruSet {
				return
			}
			what := site(c) + " from " + root
			r.Ob("cached", what)
			if !m.hostKey(c.Arg(1)) {
				r.Report("cached", what, c.Pos(), st, "the answer is cached under %v, not under the URL's host", c.Arg(1))
			}
			l := st.G("last")
			if len(l) == 0 || !st.isNil(l[1]) {
				r.Report("cached", what, c.Pos(), st, "an entry is cached although the request is not established to have succeeded")
				return
			}
			v := strip(c.Arg(2))
			if isRules(v) {
				m.parsedOK(x, st, what, c, v)
				return
			}
			f := fieldWhere(v.Typ, func(f *types.Var) bool { return strings.HasSuffix(f.Type().String(), pTemoto+".RobotsData") })
			if f == nil {
				r.Report("cached", what, c.Pos(), st, "cannot tell which rules %v holds", v)
				return
			}
			m.parsedOK(x, st, what, c, x.fieldVar(st, v, fieldIndex(v.Typ, f), f))
		}
		m.run(h, root, func(x *Exec, st *State, o Outcome) {
			err := lastRes(o.res)
			failed := func(e *Term, what string) {
				r.Ob("failure", where+": "+what)
				if !carries(st, err, e) {
					r.Report("failure", where, token.NoPos, st, "%s fails but the error %v does not carry the failure", what, err)
				}
			}
			if l := st.G("last"); len(l) > 0 && !st.isNil(l[1]) {
				failed(l[1], "the robots.txt request")
			}
			for _, d := range st.G("parsed") {
				if d.K == KExtract {
					if e := errOf(d); !st.isNil(e) {
						failed(e, "the parse")
					}
				}
			}
			for a, v := range st.atoms {
				if !v && a.K == KBin && a.Aux == "==" && a.Args[1] == tNil && a.Args[0].K == KExtract && strings.HasPrefix(callName(a.Args[0]), "net/http.NewRequest") && a.Args[0].I == 1 {
					failed(a.Args[0], "building the request")
				}
			}
			if root == "Allowed" && !st.isNil(err) {
				r.Ob("refused", where)
				if ok := tupleAt(o.res, 0); !st.refuted(ok) {
					r.Report("refused", where, token.NoPos, st, "an error is returned together with %v", ok)
				}
			}
		})
	}
	m.bounded()
	r.Need("cached", 2)
	r.Need("failure", 2)
	r.Need("refused", 1)
}

// parsedOK: the rules d may be cached.
func (m *robots) parsedOK(x *Exec, st *State, what string, c *Call, d *Term) {
	switch {
	case st.isNil(d):
		if !m.statusAbove(x, st) {
			m.r.Report("cached", what, c.Pos(), st, "an entry without rules is cached although the status is not established to be 400 or above")
		}
	case m.freshData(st, d):
		if e := errOf(d); !st.isNil(e) {
			m.r.Report("cached", what, c.Pos(), st, "an entry is cached although the parse is not established to have succeeded")
		}
	default:
		m.r.Report("cached", what, c.Pos(), st, "the rules cached, %v, were not parsed from the answer", d)
	}
}

// bounded: NewCache configures a positive maximum age.
func (m *robots) bounded() {
	r := m.r
	fn := r.P.Func(pRobots, "NewCache")
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		if c.Name != pLRU+".New" {
			return
		}
		r.Ob("bounded", site(c))
		T := c.Sig.Params().At(0).Type()
		age := x.fieldVal(st, c.Arg(0), T, "MaxAge")
		if age == nil || !st.entailsDiff(tZeroInt, age, -1) {
			r.Report("bounded", site(c), c.Pos(), st, "the maximum age of cached rules is %v, not a positive bound", age)
		}
	}
	r.Run(h, fn, "robots.NewCache", nil, nil)
	r.Need("bounded", 1)
}

func checkR03(r *Result) {
	m := &robots{r: r}
	where := "(*robots.Cache).Wait"
	h := &Hooks{}
	delay := func(t *Term) *Term {
		if t != nil && (t.K == KLoad && t.Args[0].K == KFieldAddr && t.Args[0].Fld.Name() == "CrawlDelay" || t.K == KField && t.Fld.Name() == "CrawlDelay") {
			g := t.Args[0]
			if t.K == KLoad {
				g = t.Args[0].Args[0]
			}
			return g
		}
		return nil
	}
	h.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		done := false
		for _, ch := range chans {
			if isDoneOf(ch, m.ctx) {
				done = true
			}
		}
		if k < 0 {
			return
		}
		if isDoneOf(chans[k], m.ctx) {
			st.SetG("cancelled", mkTok("yes"))
			return
		}
		d := timerDur(st, chans[k])
		r.Ob("pause", topFn(fr.fn))
		if d == nil || delay(d) == nil {
			r.Report("pause", topFn(fr.fn), i.Pos(), st, "waits for %v, which is not a timer of the group's crawl delay", chans[k])
			return
		}
		if !done {
			r.Report("cancellable", topFn(fr.fn), i.Pos(), st, "the crawl delay does not end when the caller's context is cancelled")
		}
		st.AddG("waited", d)
	}
	h.ChanOp = func(x *Exec, st *State, i ssa.Instruction, ch *Term, send bool) {
		if isDoneOf(ch, m.ctx) {
			st.SetG("cancelled", mkTok("yes"))
			return
		}
		r.Report("cancellable", topFn(i.Parent()), i.Pos(), st, "waits for %v without selecting on the caller's context", ch)
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		if c.Name == "time.Sleep" {
			r.Report("cancellable", site(c), c.Pos(), st, "sleeps without selecting on the caller's context")
			st.AddG("waited", c.Arg(0))
		}
	}
	m.run(h, "Wait", func(x *Exec, st *State, o Outcome) {
		err := lastRes(o.res)
		if len(st.G("cancelled")) > 0 && len(st.G("waited")) == 0 {
			r.Ob("cancelled", where)
			if !ctxErr(st, err, m.ctx) {
				r.Report("cancelled", where, token.NoPos, st, "a cancelled wait returns %v, not the context's error", err)
			}
			return
		}
		if st.nonNil(err) {
			if len(st.G("waited")) > 0 {
				r.Report("elapsed", where, token.NoPos, st, "an error is returned after the delay elapsed")
			}
			return
		}
		r.Ob("success", where)
		if len(st.G("found")) == 0 {
			if !m.noRules(x, st) {
				r.Report("success", where, token.NoPos, st, "returns success without looking up the crawl delay, although it is not established that there are no rules")
			}
			return
		}
		for _, g := range st.G("found") {
			if st.isNil(g) {
				continue
			}
			if a := callArgs(g); !m.data(st, a[0]) || !m.agent(st, a[1]) {
				r.Report("group", where, token.NoPos, st, "the crawl delay is that of %v, not the one the URL's host sets for the request's agent", g)
			}
			_, f := x.P.Field(g.Typ, "CrawlDelay")
			if f == nil {
				r.Missing("robotstxt.Group.CrawlDelay")
				return
			}
			d := x.fieldVal(st, g, g.Typ, "CrawlDelay")
			if st.entailsDiff(d, tZeroInt, 0) {
				r.Ob("no-delay", where)
				continue
			}
			if st.HasG("waited", d) {
				r.Ob("waited", where)
				continue
			}
			r.Report("success", where, token.NoPos, st, "returns success although a positive crawl delay was not waited out")
		}
	})
	r.Need("success", 1)
	r.Need("waited", 1)
	r.Need("cancelled", 1)
	r.Need("pause", 1)
}
