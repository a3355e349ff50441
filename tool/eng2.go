package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E03", "provenance of every element passed to Queue.Enqueue: normalize.URL, then Matcher.Match true (or no matcher), then element of Deduper.Dedupe's result; start URLs have scheme http or https or an error is returned", checkE03)
	register("E04", "guard: every Fetcher.Fetch is dominated by Allowed(same URL, default agent) with nil error and true, unless impolite; refusals and failures of Allowed flow to the right result; Allowed is called only when polite", checkE04)
	register("E05", "guard: every Fetcher.Fetch is dominated by Limiter.Limit (unless nil) and robots Wait (unless impolite) for the same URL with nil errors; their failures flow to the worker's result", checkE05)
	register("E06", "typestate of a semaphore slot: acquired before a URL is processed, handed to its goroutine, released exactly once, after Queue.Done; NewEngine makes the semaphore exactly when Concurrency > 0 with that weight", checkE06)
	register("E07", "error flow: every failing operation's error is carried by the result of its goroutine, the group's error by the worker's and by Run's, and a failing goroutine closes the queue; results are nil when nothing failed", checkE07)
	register("E08", "pairing: every group that goroutines were started in is waited for on every path to a return; Run starts exactly the configured number of workers; the queue is closed when Run and workers end", checkE08)
}

// ---- NewEngine: the configuration reaches the engine ----------------------------

// configured checks that NewEngine stores config field cf in engine field ef
// (allowing a default when the config field is its zero value).
func (e *engine) configured(rule string, ef *types.Var, cf string, exact bool, check func(x *Exec, st *State, conf, got *Term) string) {
	r := e.r
	fn := r.P.Func(pAnt, "NewEngine")
	conf := r.P.Named(pAnt, "EngineConfig")
	ci, cfld := r.P.Field(conf, cf)
	if fn == nil || cfld == nil || ef == nil {
		r.Missing("NewEngine/EngineConfig." + cf)
		return
	}
	h := &Hooks{}
	r.Run(h, fn, "NewEngine", nil, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		eng, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		if err == nil || st.nonNil(err) || eng == nil || st.isNil(eng) {
			return
		}
		r.Ob(rule, "NewEngine."+cf)
		got := x.fieldVar(st, eng, fieldIndex(e.T, ef), ef)
		want := x.fieldOf(st, args[0], ci, cfld)
		if exact {
			if got != want && !st.holds(mkEq(got, want)) {
				r.Report(rule, "NewEngine: "+ef.Name(), fn.Pos(), st, "Engine.%s is %v, not the configured %s", ef.Name(), got, cf)
			}
			return
		}
		if msg := check(x, st, want, got); msg != "" {
			r.Report(rule, "NewEngine: "+ef.Name(), fn.Pos(), st, "%s", msg)
		}
	})
}

// onlySetInNewEngine: the engine's configuration fields never change.
func (e *engine) immutable(rule string, fs ...*types.Var) {
	for _, f := range fs {
		if f == nil {
			continue
		}
		e.r.Ob(rule, f.Name()+" immutable")
		if e.r.P.Mutable[f] {
			e.r.Report(rule, "Engine."+f.Name(), f.Pos(), nil, "Engine.%s is assigned after construction", f.Name())
		}
	}
}

// ---- E03 -------------------------------------------------------------------------

// schemeOK: the path established that u's scheme is http or https.
func schemeOK(st *State, u *Term) bool {
	for a, v := range st.atoms {
		if !v || a.K != KBin || a.Aux != "==" {
			continue
		}
		s, ok := a.Args[1].isStr()
		if !ok || s != "http" && s != "https" {
			continue
		}
		f := a.Args[0]
		for f.K == KPure && (f.Aux == "strings.ToLower" || f.Aux == "strings.TrimSpace") {
			f = f.Args[0]
		}
		if f.K == KLoad && f.Args[0].K == KFieldAddr && f.Args[0].Fld.Name() == "Scheme" && f.Args[0].Args[0] == u {
			return true
		}
	}
	return false
}

func checkE03(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	mf := e.field("matcher", "ant.Matcher")
	if mf == nil {
		r.Missing("Engine.matcher")
		return
	}
	attrs := func(x *Exec, st *State, t *Term) string {
		a := ""
		if t.K == KCall || t.K == KLoad || t.K == KExtract || t.K == KPhi || t.K == KGen || t.K == KParam || t.K == KOld {
			for f, v := range st.atoms {
				if v && f.K == KCall && f.Aux == evMatch && f.Args[1] == t {
					a = attrOr(a, "M")
				}
			}
			if schemeOK(st, t) {
				a = attrOr(a, "S")
			}
		}
		if st.isNil(e.load(x, st, mf)) {
			a = attrOr(a, "M")
		}
		return a
	}
	elems := func(x *Exec, st *State, s *Term) string {
		a := x.elemOf(st, s)
		if st.isNil(e.load(x, st, mf)) {
			a = attrOr(a, "M")
		}
		return a
	}
	parsedOK := func(x *Exec, st *State, what string, pos token.Pos, res *Term) {
		for _, u := range st.G("parsed") {
			if st.nonNil(errOf(u)) || attrHas(x.attrOf(st, u), "S") || emptyRes(st, res) {
				continue
			}
			r.Report("scheme", what, pos, st, "a start URL whose scheme is neither http nor https is passed over without an error")
		}
	}
	h := &Hooks{AttrOf: attrs}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch c.Name {
		case "net/url.Parse":
			if !isChild(st) {
				parsedOK(x, st, site(c), c.Pos(), nil)
				st.SetG("parsed", c.R(0))
				if len(st.G("put")) > 0 {
					st.SetG("late", c.R(0))
				}
			}
		case evNorm:
			a := "N"
			if attrHas(x.attrOf(st, c.Arg(0)), "S") {
				a = "N,S"
			}
			st.attr[c.Res] = a
		case evMatch:
			r.Ob("normalised-before-match", site(c))
			if !attrHas(x.attrOf(st, c.Arg(1)), "N") {
				r.Report("normalised-before-match", site(c), c.Pos(), st, "%v is matched before it is normalised", c.Arg(1))
			}
			recv := c.Arg(0)
			if recv != e.load(x, st, mf) {
				r.Report("matcher", site(c), c.Pos(), st, "the matcher consulted (%v) is not the configured one", recv)
			}
		case evDedupe:
			a := elems(x, st, c.Arg(2))
			r.Ob("matched-before-dedupe", site(c))
			if !attrHas(a, "N") {
				r.Report("normalised-before-dedupe", site(c), c.Pos(), st, "URLs reach the de-duplicator without being normalised: %v", c.Arg(2))
			}
			if !attrHas(a, "M") {
				r.Report("matched-before-dedupe", site(c), c.Pos(), st, "URLs reach the de-duplicator without having been accepted by the matcher: %v", c.Arg(2))
			}
			st.elem[c.R(0)] = attrOr(a, "D")
		case evEnqueue:
			a := elems(x, st, c.Arg(2))
			r.Ob("queued", site(c)+" from "+r.curRoot)
			for k, what := range map[string]string{"D": "de-duplicated", "N": "normalised", "M": "matched"} {
				if !attrHas(a, k) {
					r.Report("queued-"+what, site(c), c.Pos(), st, "URLs are queued that were not %s: %v", what, c.Arg(2))
				}
			}
			if !isChild(st) {
				st.SetG("put", mkTok("yes"))
				r.Ob("scheme", site(c))
				if !attrHas(a, "S") {
					r.Report("scheme", site(c), c.Pos(), st, "start URLs are queued without their scheme having been checked")
				}
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) { e.transfer(parent, child, c, fn) }
	e.run(h, func(x *Exec, st *State, args []*Term, o Outcome) {
		if !o.panic {
			parsedOK(x, st, r.curRoot, token.NoPos, lastRes(o.res))
			r.Ob("all-or-nothing", r.curRoot)
			for _, u := range st.G("late") {
				if res := lastRes(o.res); emptyRes(st, res) && (st.nonNil(errOf(u)) || !attrHas(x.attrOf(st, u), "S")) {
					r.Report("all-or-nothing", r.curRoot, token.NoPos, st, "a start URL is refused after others were queued")
				}
			}
		}
	}, "Run", "Enqueue")
	e.configured("config", mf, "Matcher", true, nil)
	e.immutable("config", mf, e.field("deduper", "ant.Deduper"))
	r.Need("queued", 2)
	r.Need("scheme", 1)
	r.Need("normalised-before-match", 1)
}

// emptyRes: an error result known non-nil.
func emptyRes(st *State, res *Term) bool { return res != nil && st.nonNil(res) }

// ---- E04, E05 ----------------------------------------------------------------------

// robotsReq is the URL and agent of a robots.Request value.
func robotsReq(x *Exec, st *State, v *Term) (u, ua *Term) {
	T := x.P.Named(pRobots, "Request")
	return x.fieldVal(st, v, T, "URL"), x.fieldVal(st, v, T, "UserAgent")
}

// defaultAgent: the term is the library's default user agent as a string.
func defaultAgent(t *Term) bool {
	for t != nil && (t.K == KConv || t.K == KIface || t.K == KPure && t.Aux == "fmt.Sprint") {
		t = t.Args[0]
	}
	return t != nil && t.K == KLoad && t.Args[0].K == KGlobal && t.Args[0].Aux == "github.com/yields/ant.UserAgent"
}

type guardRule struct {
	event string
	label string
	field func() *types.Var // nil: always required
}

func checkE04(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	imp := e.field("impolite", "bool")
	if imp == nil {
		r.Missing("Engine.impolite")
		return
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch c.Name {
		case evDequeue:
			for _, k := range []string{"own", "allowed", "fetched"} {
				st.ClearG(k)
			}
		case evAllowed:
			u, ua := robotsReq(x, st, c.Arg(2))
			r.Ob("agent", site(c))
			if !defaultAgent(ua) {
				r.Report("agent", site(c), c.Pos(), st, "robots.txt is checked for user agent %v, not the default one", ua)
			}
			if !st.refuted(e.load(x, st, imp)) {
				r.Report("impolite", site(c), c.Pos(), st, "robots.txt is consulted although the engine may be impolite")
			}
			r.Ob("impolite", site(c))
			st.AddG("allowed", in.mk(Term{K: KTuple, Args: []*Term{u, c.R(0), c.R(1)}}))
		case evFetch:
			r.Ob("gate", site(c))
			st.SetG("fetched", mkTok("yes"))
			if st.holds(e.load(x, st, imp)) {
				break
			}
			ok := false
			for _, a := range st.G("allowed") {
				if a.Args[0] == c.Arg(2) && st.holds(a.Args[1]) && st.isNil(a.Args[2]) {
					ok = true
				}
			}
			if !ok {
				r.Report("gate", site(c), c.Pos(), st, "%v is fetched on a path where the polite engine did not get permission for that URL (robots checks on the path: %v)", c.Arg(2), st.G("allowed"))
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		e.transfer(parent, child, c, fn)
	}
	ended := func(x *Exec, st *State, c *Call, res *Term) {
		for _, a := range st.G("allowed") {
			switch {
			case !st.isNil(a.Args[2]) && !(st.holds(a.Args[1])):
				if st.nonNil(a.Args[2]) || !st.isNil(a.Args[2]) && !st.refuted(a.Args[1]) {
					r.Ob("failed-check", topFn(c.In))
					if !st.nonNil(res) || !carries(st, res, a.Args[2]) {
						r.Report("failed-check", topFn(c.In), c.Pos(), st, "a failed robots.txt check ends in result %v, which does not carry its error", res)
					}
				}
			case st.isNil(a.Args[2]) && st.refuted(a.Args[1]):
				r.Ob("refused", topFn(c.In))
				if len(st.G("fetched")) == 0 && !st.isNil(res) {
					r.Report("refused", topFn(c.In), c.Pos(), st, "a URL robots.txt disallows ends with result %v instead of nil", res)
				}
			}
		}
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if !p {
			ended(x, st, c, res)
		}
	}
	e.run(h, nil)
	e.configured("config", imp, "Impolite", true, nil)
	e.immutable("config", imp)
	r.Need("gate", 1)
	r.Need("failed-check", 1)
	r.Need("refused", 1)
}

func checkE05(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	imp, lim := e.field("impolite", "bool"), e.field("limiter", "ant.Limiter")
	if imp == nil || lim == nil {
		r.Missing("Engine.impolite/limiter")
		return
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch c.Name {
		case evDequeue:
			for _, k := range []string{"own", "limit", "delay"} {
				st.ClearG(k)
			}
		case evLimit:
			r.Ob("limiter", site(c))
			if c.Arg(0) != e.load(x, st, lim) {
				r.Report("limiter", site(c), c.Pos(), st, "the limiter consulted (%v) is not the configured one", c.Arg(0))
			}
			st.AddG("limit", in.mk(Term{K: KTuple, Args: []*Term{c.Arg(2), c.R(0)}}))
		case evRWait:
			r.Ob("agent", site(c))
			u, ua := robotsReq(x, st, c.Arg(2))
			if !defaultAgent(ua) {
				r.Report("agent", site(c), c.Pos(), st, "the crawl delay is looked up for user agent %v, not the default one", ua)
			}
			st.AddG("delay", in.mk(Term{K: KTuple, Args: []*Term{u, c.R(0)}}))
		case evFetch:
			r.Ob("limited", site(c))
			r.Ob("delayed", site(c))
			waited := func(k string) bool {
				for _, a := range st.G(k) {
					if a.Args[0] == c.Arg(2) && st.isNil(a.Args[1]) {
						return true
					}
				}
				return false
			}
			if !st.isNil(e.load(x, st, lim)) && !waited("limit") {
				r.Report("limited", site(c), c.Pos(), st, "%v is fetched on a path where the configured limiter did not let that URL pass", c.Arg(2))
			}
			if !st.holds(e.load(x, st, imp)) && !waited("delay") {
				r.Report("delayed", site(c), c.Pos(), st, "%v is fetched by a polite engine on a path where its crawl delay was not waited out", c.Arg(2))
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) { e.transfer(parent, child, c, fn) }
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if p {
			return
		}
		for _, k := range []string{"limit", "delay"} {
			for _, a := range st.G(k) {
				if !st.isNil(a.Args[1]) {
					r.Ob("failure-"+k, topFn(c.In))
					if !st.nonNil(res) || !carries(st, res, a.Args[1]) {
						r.Report("failure-"+k, topFn(c.In), c.Pos(), st, "a failed wait ends in result %v, which does not carry its error", res)
					}
				}
			}
		}
	}
	e.run(h, nil)
	e.configured("config", lim, "Limiter", true, nil)
	e.configured("config", imp, "Impolite", true, nil)
	e.immutable("config", lim, imp)
	r.Need("limited", 1)
	r.Need("failure-limit", 1)
	r.Need("failure-delay", 1)
}

// ---- E06 ----------------------------------------------------------------------------

func checkE06(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	sf := e.field("", "*golang.org/x/sync/semaphore.Weighted")
	if sf == nil {
		r.Missing("Engine's semaphore")
		return
	}
	holding := func(st *State) []*Term {
		var out []*Term
		for _, s := range st.G("slot") {
			switch s.Args[0].Aux {
			case "err":
				if st.isNil(s.Args[1]) {
					out = append(out, s)
				}
			case "ok":
				if st.holds(s.Args[1]) {
					out = append(out, s)
				}
			}
		}
		return out
	}
	maybe := func(st *State) []*Term {
		var out []*Term
		for _, s := range st.G("slot") {
			if s.Args[0].Aux == "err" && !st.nonNil(s.Args[1]) || s.Args[0].Aux == "ok" && !st.refuted(s.Args[1]) {
				out = append(out, s)
			}
		}
		return out
	}
	leak := func(st *State, what string, pos token.Pos) {
		if len(maybe(st)) > 0 {
			r.Report("slot-kept", what, pos, st, "a concurrency slot obtained on this path is never given back")
		}
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		sema := e.load(x, st, sf)
		switch c.Name {
		case evDequeue:
			leak(st, site(c)+" again", c.Pos())
			st.ClearG("own")
			st.ClearG("done")
			st.ClearG("slot")
			e.take(st, c)
		case evAcquire, evTryAcq:
			r.Ob("acquire", site(c))
			n, tag := c.Arg(2), "err"
			if c.Name == evTryAcq {
				n, tag = c.Arg(1), "ok"
			}
			if c.Arg(0) != sema {
				r.Report("acquire", site(c), c.Pos(), st, "the semaphore acquired (%v) is not the engine's", c.Arg(0))
			}
			if v, ok := n.isInt(); !ok || v != 1 {
				r.Report("acquire", site(c), c.Pos(), st, "%v slots are taken for one URL", n)
			}
			if len(maybe(st)) > 0 {
				r.Report("acquire", site(c), c.Pos(), st, "a second slot is taken while one is held")
			}
			st.AddG("slot", in.mk(Term{K: KTuple, Args: []*Term{mkTok(tag), c.Res}}))
		case evRelease:
			r.Ob("release", site(c))
			hs := holding(st)
			if len(hs) == 0 {
				r.Report("release", site(c), c.Pos(), st, "a slot is given back that is not held on this path")
			} else {
				st.DelG("slot", hs[0])
			}
			if v, ok := c.Arg(1).isInt(); !ok || v != 1 {
				r.Report("release", site(c), c.Pos(), st, "%v slots are given back", c.Arg(1))
			}
			if len(pendingURLs(st)) > 0 {
				r.Report("release-early", site(c), c.Pos(), st, "the slot is given back before the URL's processing is finished")
			}
		case evDone:
			st.DelG("own", c.Arg(2))
			st.AddG("done", c.Arg(2))
		default:
			if workEvents[c.Name] && isChild(st) {
				r.Ob("slot-held", site(c))
				if !st.isNil(sema) && len(holding(st)) == 0 {
					r.Report("slot-held", site(c), c.Pos(), st, "%s runs without a concurrency slot", short(c.Name))
				}
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		before := len(pendingURLs(parent))
		e.transfer(parent, child, c, fn)
		if len(pendingURLs(parent)) < before {
			// the slot goes with the URL
			for _, s := range holding(parent) {
				parent.DelG("slot", s)
			}
			return
		}
		child.ClearG("slot")
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if !p {
			leak(st, "goroutine of "+topFn(c.In), c.Pos())
		}
	}
	e.run(h, nil)
	e.configured("semaphore", sf, "Concurrency", false, func(x *Exec, st *State, conf, got *Term) string {
		pos := st.entailsDiff(tZeroInt, conf, -1)
		neg := st.entailsDiff(conf, tZeroInt, 0)
		if got.K == KCall && got.Aux == "golang.org/x/sync/semaphore.NewWeighted" {
			if !pos {
				return "a semaphore is made although Concurrency may not be positive"
			}
			if got.Args[0] != conf {
				return "the semaphore's weight is " + got.Args[0].String() + ", not Concurrency"
			}
			return ""
		}
		if st.isNil(got) {
			if !neg {
				return "no semaphore is made although Concurrency may be positive"
			}
			return ""
		}
		return "the semaphore is " + got.String()
	})
	e.immutable("semaphore", sf)
	r.Need("acquire", 1)
	r.Need("release", 1)
	r.Need("slot-held", 4)
	r.Need("semaphore", 1)
}

// ---- E07 ------------------------------------------------------------------------------

func ordinaryEnd(st *State, err *Term) bool {
	for a, v := range st.atoms {
		if v && a.K == KPure && a.Aux == "errors.Is" && a.Args[0] == err && isErrSentinel(a.Args[1]) {
			switch a.Args[1].Args[0].Aux {
			case "io.EOF", "context.Canceled":
				return true
			}
		}
		if v && a.K == KBin && a.Aux == "==" && a.Args[0] == err && isErrSentinel(a.Args[1]) && a.Args[1].Args[0].Aux == "io.EOF" {
			return true
		}
	}
	return false
}

func isCallOf(t *Term, name string) bool {
	for t.K == KExtract {
		t = t.Args[0]
	}
	if t.K == KOld {
		return t.Aux == "call:"+name
	}
	return t.K == KCall && t.Aux == name
}

func checkE07(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	// closed reports whether a goroutine that performed URL work closed the queue.
	end := func(x *Exec, st *State, what string, pos token.Pos, res *Term, thread bool) {
		var failed []*Term
		for _, er := range st.G("errs") {
			if !st.isNil(er) && !(isCallOf(er, evDequeue) && ordinaryEnd(st, er)) {
				failed = append(failed, er)
			}
		}
		carried := false
		for _, er := range failed {
			if carries(st, res, er) {
				carried = true
			}
		}
		for _, er := range failed {
			r.Ob("error-reported", what+" "+short(callName(er)))
			if carried && (st.nonNil(res) || res == er) {
				continue
			}
			r.Report("error-reported", what+" "+short(callName(er)), pos, st, "%s may have failed on this path, and the result %v does not carry its error", short(callName(er)), res)
		}
		fresh := res.K == KWrap && !thread && len(st.G("spawned")) == 0 // a start URL that is refused
		if len(failed) == 0 && !st.isNil(res) && !fresh {
			r.Report("spurious-error", what, pos, st, "nothing failed on this path but the result is %v", res)
		}
		r.Ob("spurious-error", what)
		took := false // this worker could not take a URL, or could not process it
		for _, er := range append(append([]*Term{}, failed...), st.G("passed")...) {
			took = took || st.nonNil(er) && (isCallOf(er, evDequeue) || isCallOf(er, evAcquire)) && len(st.G("worker")) > 0
		}
		if thread && (took || len(st.G("worked")) > 0) && !st.isNil(res) {
			r.Ob("failure-closes-queue", what)
			if len(st.G("closed")) == 0 {
				r.Report("failure-closes-queue", what, pos, st, "a goroutine that failed ends without closing the queue, so the other workers carry on")
			}
		}
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch {
		case c.Name == evDequeue:
			st.ClearG("errs")
			addErr(st, c.Err())
			st.SetG("worker", mkTok("yes"))
			st.ClearG("passed")
		case errEvents[c.Name] && c.Err() != nil:
			addErr(st, c.Err())
			if c.Name == evEgWait {
				// the group reports what its goroutines were given to report
				for _, er := range st.G("given") {
					st.DelG("errs", er)
					st.AddG("passed", er)
				}
			}
		case c.Name == evQClose:
			st.SetG("closed", mkTok("yes"))
			if c.Instr.Value() != nil && !isChild(st) && !c.Deferred {
				addErr(st, c.R(0))
			}
		}
		if workEvents[c.Name] {
			st.SetG("worked", mkTok("yes"))
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		e.transfer(parent, child, c, fn)
		child.ClearG("errs")
		child.ClearG("worked")
		child.ClearG("worker")
		child.ClearG("passed")
		child.ClearG("closed")
		child.ClearG("given")
		child.ClearG("spawned")
		parent.SetG("spawned", mkTok("yes"))
		for _, er := range parent.G("errs") {
			if !parent.isNil(er) && reachAny(parent, fn, func(t *Term) bool { return t == er }) {
				child.AddG("errs", er)
				parent.AddG("given", er)
			}
		}
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if !p {
			end(x, st, "goroutine of "+topFn(c.In), c.Pos(), res, true)
		}
	}
	e.run(h, func(x *Exec, st *State, args []*Term, o Outcome) {
		if !o.panic {
			end(x, st, r.curRoot, token.NoPos, lastRes(o.res), false)
		}
	}, "Run", "Enqueue")
	r.Need("error-reported", 8)
	r.Need("failure-closes-queue", 1)
}

func callName(t *Term) string {
	for t.K == KExtract {
		t = t.Args[0]
	}
	return t.Aux
}

// ---- E08 ---------------------------------------------------------------------------------

func checkE08(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	wf := e.workersField()
	if wf == nil {
		r.Missing("Engine.workers")
		return
	}
	abandoned := func(st *State, what string, pos token.Pos) {
		r.Ob("waited", what)
		if len(st.G("live")) > 0 {
			r.Report("waited", what, pos, st, "returns without having waited for the goroutines started in %v", st.G("live"))
		}
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch c.Name {
		case evEgWait, "(*sync.WaitGroup).Wait":
			st.DelG("live", strip(c.Arg(0)))
		case "(*sync.WaitGroup).Add":
			st.SetG("wg", strip(c.Arg(0)))
		case evQClose:
			st.SetG("closed", mkTok("yes"))
		case evDequeue:
			st.SetG("worker", mkTok("yes"))
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		var g *Term
		if c.Go {
			g = mkTok("go " + topFn(c.In))
			if w := parent.G("wg"); len(w) > 0 {
				g = w[0]
			}
		} else {
			g = strip(c.Arg(0))
		}
		r.Ob("started", site(c))
		parent.AddG("live", g)
		n := parent.G("+n")
		if !isChild(parent) && (fn.Fn == nil || r.P.calls(fn.Fn, evDequeue)) {
			if len(n) == 0 {
				parent.SetG("+n", mkInt(1))
			} else {
				parent.SetG("+n", addConst(n[0], 1))
			}
			parent.SetG("spawned", mkTok("yes"))
		}
		e.transfer(parent, child, c, fn)
		for _, k := range []string{"live", "closed", "worker", "wg", "+n", "spawned"} {
			child.ClearG(k)
		}
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if p {
			return
		}
		abandoned(st, "goroutine of "+topFn(c.In), c.Pos())
		if len(st.G("worker")) > 0 {
			r.Ob("closed", "worker")
			if len(st.G("closed")) == 0 {
				r.Report("closed", "worker", c.Pos(), st, "a worker ends without closing the queue")
			}
		}
	}
	e.run(h, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		abandoned(st, "(*Engine).Run", token.NoPos)
		if len(st.G("spawned")) == 0 {
			return
		}
		r.Ob("closed", "Run")
		if len(st.G("closed")) == 0 {
			r.Report("closed", "Run", token.NoPos, st, "Run returns after starting workers without closing the queue")
		}
		n, w := st.G("+n"), e.load(x, st, wf)
		r.Ob("worker-count", "Run")
		if len(n) != 1 || !st.entailsDiff(n[0], w, 0) || !st.entailsDiff(w, n[0], 0) {
			r.Report("worker-count", "Run", token.NoPos, st, "Run starts %v goroutines, not Engine.%s", n, wf.Name())
		}
	})
	e.configured("workers", wf, "Workers", false, func(x *Exec, st *State, conf, got *Term) string {
		if got == conf && st.entailsDiff(tZeroInt, conf, -1) {
			return ""
		}
		if v, ok := got.isInt(); ok && v == 1 && st.entailsDiff(conf, tZeroInt, 0) {
			return ""
		}
		if got.K == KPure && got.Aux == "max" && (got.Args[0] == conf && isOne(got.Args[1]) || got.Args[1] == conf && isOne(got.Args[0])) {
			return ""
		}
		return "Engine.workers is " + got.String() + ", not the configured number (1 when not positive)"
	})
	e.immutable("workers", wf)
	r.Need("waited", 2)
	r.Need("worker-count", 1)
	r.Need("closed", 2)
}

func isOne(t *Term) bool { v, ok := t.isInt(); return ok && v == 1 }

var _ = ssa.Function{}
