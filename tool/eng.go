package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine's rules follow one URL at a time through the threads that
// Run starts. Ghost state:
//   own   URLs this thread has taken (or was given) and not acknowledged
//   done  URLs this thread acknowledged or gave away
//   errs  errors of the operations this thread performed
//   live  groups with goroutines this thread started and has not waited for

type engine struct {
	r    *Result
	T    types.Type // *Engine
	eng  *Term      // receiver of the root
	root string
}

var errT = types.Universe.Lookup("error").Type()

func newEngineModel(r *Result) *engine {
	n := r.P.Named(pAnt, "Engine")
	if n == nil {
		r.Missing("ant.Engine")
		return nil
	}
	return &engine{r: r, T: n}
}

func engOpaque() func(fn *ssa.Function) bool {
	return opaqueSet(evFetch, evAllowed, evRWait, evNorm)
}

// field finds the engine's field of the given type (or name, if any has it).
func (e *engine) field(name string, typ string) *types.Var {
	if name != "" {
		if _, f := e.r.P.Field(e.T, name); f != nil {
			return f
		}
	}
	return fieldWhere(e.T, func(f *types.Var) bool {
		return strings.ReplaceAll(types.TypeString(f.Type(), nil), repoPath+".", "ant.") == typ
	})
}

func (e *engine) load(x *Exec, st *State, f *types.Var) *Term {
	return x.load(st, mkFieldAddr(e.eng, fieldIndex(e.T, f), f), f.Type())
}

// errOf is the error that came with a tuple's first component.
func errOf(u *Term) *Term {
	if u.K == KExtract {
		return mkExtract(u.Args[0], 1, errT)
	}
	return nil
}

func pendingURLs(st *State) []*Term {
	var out []*Term
	for _, u := range st.G("own") {
		if e := errOf(u); e != nil && st.nonNil(e) {
			continue
		}
		out = append(out, u)
	}
	return out
}

// take and transfer keep own/done; every engine rule that cares uses them.
func (e *engine) take(st *State, c *Call) {
	if c.Name == evDequeue {
		st.AddG("own", c.R(0))
	}
}

func (e *engine) transfer(parent, child *State, c *Call, fn *Term) {
	child.ClearG("own")
	child.ClearG("done")
	for _, u := range pendingURLs(parent) {
		hit := false
		for _, t := range append([]*Term{fn}, c.Args...) {
			if reachAny(parent, t, func(t *Term) bool { return t == u }) {
				hit = true
			}
		}
		if hit {
			parent.DelG("own", u)
			parent.AddG("done", u)
			child.AddG("own", u)
		}
	}
	child.SetG("thread", mkTok(c.In.Name()))
}

func isChild(st *State) bool { return len(st.G("thread")) > 0 }

// run explores Run, and optionally Enqueue, with the hooks.
func (e *engine) run(h *Hooks, end func(x *Exec, st *State, args []*Term, o Outcome), roots ...string) {
	h.Opaque = engOpaque()
	if len(roots) == 0 {
		roots = []string{"Run"}
	}
	for _, name := range roots {
		fn := e.r.P.Meth(pAnt, "Engine", name)
		e.root = name
		e.r.Run(h, fn, "(*Engine)."+name, func(x *Exec, st *State, args []*Term) {
			e.eng = args[0]
			if f := e.workersField(); f != nil {
				st.addDiff(tZeroInt, e.load(x, st, f), -1)
			}
		}, end)
	}
}

func (e *engine) workersField() *types.Var { return e.field("workers", "int") }

func short(name string) string {
	return strings.ReplaceAll(strings.ReplaceAll(name, repoPath+"/", ""), repoPath+".", "ant.")
}

func site(c *Call) string { return topFn(c.In) + ": " + short(c.Name) }

func init() {
	register("E01", "typestate of a dequeued URL: from every success of Queue.Dequeue, every path of the worker and of the goroutine it hands the URL to passes through exactly one Queue.Done for that URL; Done is called for no other value", checkE01)
	register("E02", "event order: in the thread that owns a dequeued URL no fetch, scrape, de-duplication or enqueue follows Queue.Done; at Queue.Done every page scraped without error has been passed through the de-duplicator to Queue.Enqueue; Queue.Close follows Queue.Wait unless an operation failed", checkE02)
}

func checkE01(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	unacked := func(st *State, where string, pos token.Pos) {
		for _, u := range pendingURLs(st) {
			r.Report("unacknowledged", where, pos, st, "the URL %v taken from the queue is neither acknowledged nor handed to a goroutine on this path", u)
		}
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		switch c.Name {
		case evDequeue:
			unacked(st, site(c)+" again", c.Pos())
			st.ClearG("own")
			st.ClearG("done")
			r.Ob("taken", site(c))
			e.take(st, c)
		case evDone:
			u := c.Arg(2)
			r.Ob("acknowledged", site(c))
			own := false
			for _, p := range pendingURLs(st) {
				if p == u {
					own = true
				}
			}
			switch {
			case own:
				st.DelG("own", u)
				st.AddG("done", u)
			case st.HasG("done", u):
				r.Report("acknowledged-twice", site(c), c.Pos(), st, "the URL %v was already acknowledged (or handed to another goroutine) on this path", u)
			default:
				r.Report("acknowledged-wrong", site(c), c.Pos(), st, "%v is acknowledged but was not taken from the queue on this path", u)
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) { e.transfer(parent, child, c, fn) }
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, panicked bool) {
		if !panicked {
			unacked(st, "goroutine of "+topFn(c.In), c.Pos())
		}
	}
	e.run(h, func(x *Exec, st *State, args []*Term, o Outcome) {
		if !o.panic {
			unacked(st, "(*Engine).Run", token.NoPos)
		}
	})
	r.Need("taken", 1)
	r.Need("acknowledged", 1)
}

var workEvents = map[string]bool{evFetch: true, evScrape: true, evDedupe: true, evEnqueue: true, evAllowed: true, evRWait: true, evLimit: true}

// failing events whose error a thread must report.
var errEvents = map[string]bool{evDequeue: true, evAcquire: true, evFetch: true, evScrape: true, evDedupe: true, evEnqueue: true,
	evAllowed: true, evRWait: true, evLimit: true, evEgWait: true, "net/url.Parse": true}

func checkE02(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	tk := &tracker{r: r, rule: "links-kept",
		excused: func(x *Exec, st *State, el *Term) bool { return rejected(st, el) },
	}
	tk.tracked = func(st *State, s *Term) bool {
		for _, k := range []string{"scraped", "deduped"} {
			for _, q := range st.G(k) {
				if s == q || attrHas(st.elem[s], fromAttr(q)) {
					return true
				}
			}
		}
		return false
	}
	h := &Hooks{Store: tk.store, BackEdge: tk.backEdge}
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		tk.load(x, st, addr, val, i)
		if addr.K == KIndexAddr && tk.tracked(st, addr.Args[0]) {
			st.AddG("via", addr.Args[0])
		}
	}
	h.AttrOf = func(x *Exec, st *State, t *Term) string {
		// normalising a link keeps it
		if t.K == KCall && t.Aux == evNorm {
			return x.attrOf(st, t.Args[0])
		}
		return ""
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		if base.K == KSlice && !wholeOf(base, base.Args[0]) {
			// what was kept before is overwritten
			for _, s := range st.G("curOf") {
				if st.HasG("kept", s) {
					st.AddG("dropped", s)
				}
			}
		}
		tk.append(x, st, els, rest)
	}
	h.Assume = func(x *Exec, st *State, c *Term, v bool, i ssa.Instruction) { tk.assume(x, st, c, v) }
	h.Call = func(x *Exec, st *State, c *Call) {
		if workEvents[c.Name] && isChild(st) {
			r.Ob("before-ack", site(c))
			if len(pendingURLs(st)) == 0 {
				r.Report("after-ack", site(c), c.Pos(), st, "%s runs in a goroutine that does not (or no longer) holds an unacknowledged URL", short(c.Name))
			}
		}
		if errEvents[c.Name] && c.Err() != nil {
			addErr(st, c.Err())
		}
		switch c.Name {
		case evDequeue:
			for _, k := range []string{"own", "done", "scraped", "deduped", "cur", "curOf", "exhausted", "dropped", "kept", "via"} {
				st.ClearG(k)
			}
			e.take(st, c)
		case evScrape:
			st.AddG("scraped", c.R(0))
		case evDedupe:
			// which scraped links does the argument contain?
			for _, s := range st.G("scraped") {
				if x.passes(st, c.Arg(2), s) {
					st.DelG("scraped", s)
				}
			}
			st.AddG("deduped", c.R(0))
		case evEnqueue:
			for _, s := range st.G("deduped") {
				if x.passes(st, c.Arg(2), s) {
					st.DelG("deduped", s)
				}
			}
		case evDone:
			r.Ob("links-queued", site(c))
			for k, what := range map[string]string{"scraped": "the links returned by the scraper are not passed on", "deduped": "the de-duplicated links are not enqueued"} {
				for _, s := range st.G(k) {
					if st.nonNil(errOf(s)) || emptySlice(st, s) || st.holds(mkEq(mkLen(s), tZeroInt)) {
						continue
					}
					r.Report("links-queued", site(c), c.Pos(), st, "a URL is acknowledged but %s (%v)", what, s)
				}
			}
			if st.HasG("own", c.Arg(2)) {
				st.DelG("own", c.Arg(2))
				st.AddG("done", c.Arg(2))
			}
		case evQWait:
			st.SetG("waited", mkTok("yes"))
		case evQClose:
			r.Ob("close-after-wait", site(c))
			if len(st.G("waited")) > 0 {
				break
			}
			ok := false
			for _, er := range st.G("errs") {
				if st.nonNil(er) {
					ok = true
				}
			}
			for a, v := range st.atoms {
				if !v && a.K == KBin && a.Aux == "==" && a.Args[1] == tNil && a.Args[0].K == KPure && a.Args[0].Aux == "(context.Context).Err" {
					ok = true
				}
			}
			if len(st.G("cancelled")) > 0 {
				ok = true
			}
			if !ok {
				r.Report("close-after-wait", site(c), c.Pos(), st, "the queue is closed although it has not reported that every URL is handled and nothing failed on this path")
			}
		}
	}
	h.Select = func(x *Exec, st *State, in *ssa.Select, k int, chans []*Term, fr *frame) {
		if k >= 0 && isDoneChan(chans[k]) {
			st.SetG("cancelled", mkTok("yes"))
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		e.transfer(parent, child, c, fn)
		for _, k := range []string{"errs", "waited", "scraped", "deduped", "cancelled"} {
			child.ClearG(k)
		}
		// an error the goroutine was given still justifies closing
		for _, er := range parent.G("errs") {
			if parent.nonNil(er) {
				child.AddG("errs", er)
			}
		}
	}
	e.run(h, nil)
	r.Need("before-ack", 5)
	r.Need("links-queued", 1)
	r.Need("close-after-wait", 1)
}

func isDoneChan(ch *Term) bool {
	return ch.K == KPure && ch.Aux == "(context.Context).Done"
}

func emptySlice(st *State, s *Term) bool { return st.isNil(s) }

// wholeOf: slice t contains all of s.
func wholeOf(t, s *Term) bool {
	if t == s {
		return true
	}
	switch t.K {
	case KSlice:
		return t.Args[1] == tNil && t.Args[2] == tNil && wholeOf(t.Args[0], s)
	case KAppend:
		return wholeOf(t.Args[0], s) || wholeOf(t.Args[1], s)
	}
	return false
}

// fromAttr is the attribute of elements read from slice s.
func fromAttr(s *Term) string { return "from:" + strconv.Itoa(s.ID) }

// passes: slice t contains all of s, or was built by a loop that went
// through all of s and appended what it took from s.
func (x *Exec) passes(st *State, t, s *Term) bool {
	if wholeOf(t, s) {
		return true
	}
	if !st.HasG("exhausted", s) || st.HasG("dropped", s) {
		return false
	}
	el := x.elemOf(st, t)
	none := st.isNil(t) || st.holds(mkEq(mkLen(t), tZeroInt))
	left := st.HasG("kept", s)
	for _, n := range append(append([]*Term{}, st.G("via")...), st.G("exhausted")...) {
		// a list made of s
		if n == t || !attrHas(st.elem[n], fromAttr(s)) || !attrHas(el, fromAttr(n)) {
			continue
		}
		if !st.HasG("exhausted", n) || st.HasG("dropped", n) {
			return false
		}
		left = st.HasG("kept", n)
	}
	// (nothing of s may be left)
	return none && !left || !none && attrHas(el, fromAttr(s))
}

// tracker watches loops over slices: a loop that goes on without having
// kept (appended, or stored back) the element it read, and without an
// excuse, drops elements of the slice.
type tracker struct {
	r       *Result
	rule    string
	tracked func(st *State, s *Term) bool
	excused func(x *Exec, st *State, elem *Term) bool
	derive  func(t *Term) *Term // the element a term was made from
}

func (k *tracker) load(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
	if addr.K == KIndexAddr && k.tracked(st, addr.Args[0]) {
		st.attr[val] = attrOr(st.attr[val], fromAttr(addr.Args[0]))
		if s := addr.Args[0]; st.HasG("exhausted", s) {
			// a new loop over s
			st.DelG("exhausted", s)
			st.DelG("dropped", s)
			st.DelG("kept", s)
		}
		if s, idx := addr.Args[0], addr.Args[1]; !st.HasG("first", s) {
			// the first element read of a list is its first one
			if st.entailsDiff(mkInt(1), idx, 0) {
				st.AddG("dropped", s)
			} else {
				st.AddG("first", s)
			}
		}
		st.SetG("cur", val)
		st.SetG("curOf", addr.Args[0])
	}
}

func (k *tracker) store(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
	if addr.K == KIndexAddr && k.tracked(st, addr.Args[0]) {
		st.ClearG("cur")
		st.AddG("kept", addr.Args[0])
	}
}

func (k *tracker) append(x *Exec, st *State, els []*Term, rest *Term) {
	for _, c := range st.G("cur") {
		for _, el := range els {
			if reachAny(st, el, func(t *Term) bool { return t == c }) {
				st.ClearG("cur")
				for _, s := range st.G("curOf") {
					st.AddG("kept", s)
				}
			}
		}
	}
}

func (k *tracker) assume(x *Exec, st *State, cond *Term, val bool) {
	if cond.K == KUn {
		cond, val = cond.Args[0], !val
	}
	if cond.K == KBin && cond.Aux == "<" && !val && cond.Args[1].K == KLen && k.tracked(st, cond.Args[1].Args[0]) {
		st.AddG("exhausted", cond.Args[1].Args[0])
	}
	// what is decided here is forgotten before the next element
	for _, c := range st.G("cur") {
		if k.excused(x, st, c) {
			st.DelG("cur", c)
		}
	}
}

func (k *tracker) backEdge(x *Exec, st *State, fr *frame, h *ssa.BasicBlock, phis []*Term) {
	for _, c := range st.G("cur") {
		k.r.Ob(k.rule, topFn(fr.fn))
		if !k.excused(x, st, c) {
			for _, s := range st.G("curOf") {
				st.AddG("dropped", s)
			}
		}
	}
	st.ClearG("cur")
}

// rejected: the matcher said no to this URL on the path.
func rejected(st *State, u *Term) bool {
	for a, v := range st.atoms {
		if !v && a.K == KCall && a.Aux == evMatch && (a.Args[1] == u || contains(a.Args[1], u)) {
			return true
		}
	}
	return false
}

// addErr remembers an operation's error; those known to be nil are forgotten.
func addErr(st *State, e *Term) {
	for _, o := range st.G("errs") {
		if st.isNil(o) {
			st.DelG("errs", o)
		}
	}
	st.AddG("errs", e)
}
