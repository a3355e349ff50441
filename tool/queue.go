package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q01", "atomicity and coverage over every path of each built-in Deduper.Dedupe: an element is returned only where an atomic test-and-set, or a test and an insertion inside one critical section of the receiver's lock, keyed by that element's String(), found it absent; every element of the argument is tested, and one found absent is inserted and returned", checkQ01)
	register("Q02", "effects over every path of the built-in queue's methods: Enqueue appends all the URLs and adds their number to the wait group, or does neither and fails; Dequeue removes one and counts nothing; Done counts one down; Close counts down exactly the pending ones and empties them; Wait waits for the wait group", checkQ02)
	register("Q03", "guards at every cond.Wait and exit of the built-in queue's methods: Wait only where nothing is pending and the queue is open, entailed since the last wake-up; a URL only where one is pending, and then the first; io.EOF only where closed; every critical section that appends or closes broadcasts before it ends", checkQ03)
}

// keyedBy: the URL whose full text a key is, or nil.
func keyedBy(k *Term) *Term {
	for k.K == KConv || k.K == KIface {
		k = k.Args[0]
	}
	if k.K == KPure && (k.Aux == "(*net/url.URL).String" || k.Aux == "(fmt.Stringer).String") {
		return strip(k.Args[0])
	}
	if (k.K == KPure || k.K == KCall) && k.Aux == "fmt.Sprint" && len(k.Args) > 0 {
		return nil
	}
	return nil
}

// heldExclusive: a lock reachable from root is held for writing.
func heldExclusive(st *State, root *Term) bool {
	for _, h := range st.locks {
		if h.write && sharedFrom(h.lock, root) {
			return true
		}
	}
	return false
}

// sharedFrom: t is part of root's object, or a global.
func sharedFrom(t, root *Term) bool {
	return anyTerm(t, func(t *Term) bool { return t == root || t.K == KGlobal })
}

// implementers are the library's own types with the interface's method.
func implMethods(P *Prog, iface, method string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	n := P.Named(pAnt, iface)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, T := range P.Implementers(it) {
		if fn := P.Method(T, method); fn != nil {
			out[types.TypeString(T, func(p *types.Package) string { return p.Name() })] = fn
		}
	}
	return out
}

type setOp struct{ test, add, atomic bool }

// set operations of the structures a de-duplicator may use.
var setOps = map[string]setOp{
	"(*sync.Map).LoadOrStore":        {atomic: true},
	"(*sync.Map).Swap":               {atomic: true},
	"(*sync.Map).Load":               {test: true},
	"(*sync.Map).Store":              {add: true},
	".BloomFilter).Test":             {test: true},
	".BloomFilter).TestString":       {test: true},
	".BloomFilter).Add":              {add: true},
	".BloomFilter).AddString":        {add: true},
	".BloomFilter).TestAndAdd":       {test: true, add: true},
	".BloomFilter).TestOrAdd":        {test: true, add: true},
	".BloomFilter).TestAndAddString": {test: true, add: true},
}

func setOpOf(name string) (setOp, bool) {
	for k, o := range setOps {
		if strings.HasSuffix(name, k) {
			return o, true
		}
	}
	return setOp{}, false
}

func checkQ01(r *Result) {
	fns := implMethods(r.P, "Deduper", "Dedupe")
	if len(fns) == 0 {
		r.Missing("implementations of ant.Deduper")
		return
	}
	for name, fn := range fns {
		var recv, urls *Term
		where := name + ".Dedupe"
		isEl := func(t *Term) bool {
			return t != nil && t.K == KLoad && t.Args[0].K == KIndexAddr && t.Args[0].Args[0] == urls
		}
		tuple := func(a, b *Term) *Term { return in.mk(Term{K: KTuple, Args: []*Term{a, b}}) }
		test := func(st *State, u, res *Term, atomic bool, what string, pos token.Pos) {
			r.Ob("test", what)
			if !atomic && !heldExclusive(st, recv) {
				r.Report("atomic", what, pos, st, "whether a URL was seen is tested without holding the de-duplicator's lock")
			}
			st.AddG("tested", tuple(u, res))
			st.AddG("cs", u)
		}
		add := func(st *State, u *Term, atomic bool, what string, pos token.Pos) {
			r.Ob("record", what)
			if !atomic && (!heldExclusive(st, recv) || !st.HasG("cs", u)) {
				r.Report("atomic", what, pos, st, "a URL is recorded in another critical section than the one that tested it")
			}
			st.AddG("added", u)
		}
		fresh := func(st *State, u *Term) bool {
			for _, t := range st.G("tested") {
				if t.Args[0] == u && st.refuted(t.Args[1]) {
					return true
				}
			}
			return false
		}
		emit := func(x *Exec, st *State, el *Term, what string, pos token.Pos) {
			if !isEl(el) {
				return
			}
			r.Ob("returned", what)
			if !fresh(st, el) {
				r.Report("returned", what, pos, st, "a URL is returned on a path that did not establish that it was not seen before")
				return
			}
			st.AddG("emitted", el)
			st.attr[el] = attrOr(st.attr[el], "new")
		}
		settle := func(x *Exec, st *State, what string, pos token.Pos) {
			for _, t := range st.G("tested") {
				u, res := t.Args[0], t.Args[1]
				if st.holds(res) {
					x.AddAttr(st, u, "handled")
					continue
				}
				switch {
				case !st.HasG("emitted", u):
					r.Report("lost", what, pos, st, "a URL that may not have been seen before is not returned")
				case !st.HasG("added", u):
					r.Report("recorded", what, pos, st, "a URL is returned without being recorded as seen")
				default:
					x.AddAttr(st, u, "handled")
				}
			}
			for _, u := range st.G("added") {
				if !st.HasG("emitted", u) && !fresh(st, u) {
					ok := false
					for _, t := range st.G("tested") {
						ok = ok || t.Args[0] == u
					}
					if !ok {
						r.Report("lost", what, pos, st, "a URL is recorded as seen without having been tested and returned")
					}
				}
			}
			for _, k := range []string{"tested", "cs", "added", "emitted"} {
				st.ClearG(k)
			}
		}
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) {
			if strings.HasPrefix(c.Name, "(*sync.") && strings.HasSuffix(c.Name, "nlock") || c.Name == "(sync.Locker).Unlock" {
				st.ClearG("cs")
				return
			}
			op, ok := setOpOf(c.Name)
			if !ok || len(c.Args) < 2 {
				return
			}
			what := where + ": " + short(c.Name)
			if !sharedFrom(c.Arg(0), recv) {
				r.Report("shared", what, c.Pos(), st, "the URL is looked up in %v, which is not the de-duplicator's own", c.Arg(0))
			}
			u := keyedBy(c.Arg(1))
			r.Ob("key", what)
			if u == nil || !isEl(u) {
				r.Report("key", what, c.Pos(), st, "the key %v is not the full text of a URL of the argument", c.Arg(1))
				return
			}
			res := c.Res
			if strings.HasPrefix(c.Name, "(*sync.Map)") {
				res = c.R(1)
			}
			if op.atomic {
				test(st, u, res, true, what, c.Pos())
				add(st, u, true, what, c.Pos())
				return
			}
			if op.test {
				test(st, u, res, false, what, c.Pos())
			}
			if op.add {
				add(st, u, false, what, c.Pos())
			}
		}
		h.MapRead = func(x *Exec, st *State, m, k *Term, i ssa.Instruction) {
			if k == nil || !sharedFrom(m, recv) {
				return
			}
			u := keyedBy(k)
			r.Ob("key", where+": map")
			if u == nil || !isEl(u) {
				r.Report("key", where+": map", i.Pos(), st, "the key %v is not the full text of a URL of the argument", k)
				return
			}
			v, has := x.mapGet(st, m, k, m.Typ.Underlying().(*types.Map).Elem())
			res := has
			if l, ok := i.(*ssa.Lookup); ok && !l.CommaOk {
				res = v
			}
			test(st, u, res, false, where+": map", i.Pos())
		}
		h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
			if k == nil || v == nil || !sharedFrom(m, recv) {
				return
			}
			if u := keyedBy(k); u != nil && isEl(u) {
				add(st, u, false, where+": map", i.Pos())
				return
			}
			r.Report("key", where+": map", i.Pos(), st, "the key %v is not the full text of a URL of the argument", k)
		}
		h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
			for _, el := range els {
				emit(x, st, el, where, i.Pos())
			}
		}
		h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
			if addr.K == KIndexAddr && addr.Args[0].Typ != nil {
				if _, ok := addr.Args[0].Typ.Underlying().(*types.Slice); ok {
					emit(x, st, val, where, i.Pos())
				}
			}
		}
		h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
			settle(x, st, where, token.NoPos)
		}
		r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
			recv, urls = args[0], args[2]
		}, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			settle(x, st, where, token.NoPos)
			res, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
			if st.nonNil(err) {
				return
			}
			r.Ob("all", where)
			if !attrHas(x.elemOf(st, urls), "handled") {
				r.Report("all", where, token.NoPos, st, "not every URL of the argument is tested")
			}
			if !st.isNil(res) && !attrHas(x.elemOf(st, res), "new") {
				r.Report("only", where, token.NoPos, st, "the result may contain URLs other than those just found unseen")
			}
		})
	}
	r.Need("test", 2)
	r.Need("record", 2)
	r.Need("returned", 2)
	r.Need("all", 2)
}

// ---- the built-in queue -------------------------------------------------------------

type memQueue struct {
	r                    *Result
	T                    types.Type
	recv                 *Term
	pending, stopped, wg *types.Var
	ctx, urls            *Term
	before               *Term // pending when the lock was taken
}

func newMemQueue(r *Result) *memQueue {
	fns := implMethods(r.P, "Queue", "Dequeue")
	if len(fns) != 1 {
		r.Missing("the built-in implementation of ant.Queue")
		return nil
	}
	q := &memQueue{r: r}
	for _, fn := range fns {
		q.T = fn.Signature.Recv().Type()
	}
	urls := r.P.Named(pAnt, "URLs")
	q.pending = fieldWhere(q.T, func(f *types.Var) bool {
		return types.Identical(f.Type(), urls) || types.Identical(f.Type().Underlying(), urls.Underlying())
	})
	q.stopped = fieldWhere(q.T, func(f *types.Var) bool { return types.Identical(f.Type(), types.Typ[types.Bool]) })
	q.wg = fieldWhere(q.T, func(f *types.Var) bool { return strings.HasSuffix(f.Type().String(), "sync.WaitGroup") })
	if q.pending == nil || q.stopped == nil || q.wg == nil {
		r.Missing("pending, stopped and wait group fields of " + q.T.String())
		return nil
	}
	return q
}

func (q *memQueue) get(x *Exec, st *State, f *types.Var) *Term {
	return x.fieldVar(st, q.recv, fieldIndex(q.T, f), f)
}

func (q *memQueue) isField(addr *Term, f *types.Var) bool {
	return addr.K == KFieldAddr && addr.Fld == f && addr.Args[0] == q.recv
}

func (q *memQueue) empty(x *Exec, st *State) int {
	p := q.get(x, st, q.pending)
	n := mkLen(p)
	if st.isNil(p) || st.entailsDiff(n, tZeroInt, 0) || st.holds(mkEq(n, tZeroInt)) {
		return 1
	}
	if st.entailsDiff(tZeroInt, n, -1) || st.refuted(mkEq(n, tZeroInt)) {
		return 0
	}
	return -1
}

func (q *memQueue) closed(x *Exec, st *State) int {
	s := q.get(x, st, q.stopped)
	if st.holds(s) {
		return 1
	}
	if st.refuted(s) {
		return 0
	}
	return -1
}

func (q *memQueue) run(h *Hooks, name string, end func(x *Exec, st *State, o Outcome)) {
	fn := q.r.P.Method(q.T, name)
	q.r.Run(h, fn, "queue."+name, func(x *Exec, st *State, args []*Term) {
		q.recv = args[0]
		q.ctx, q.urls = nil, nil
		if len(args) > 1 {
			q.ctx = args[1]
		}
		if len(args) > 2 {
			q.urls = args[2]
		}
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if !o.panic {
			end(x, st, o)
		}
	})
}

func isEOF(t *Term) bool {
	return t.K == KLoad && t.Args[0].K == KGlobal && t.Args[0].Aux == "io.EOF"
}

// count keeps +wg: what the path added to the wait group, as a linear term
// of lengths ("+wg"), and loops of single steps.
func (q *memQueue) counts(x *Exec, st *State, c *Call) {
	var d *Term
	switch c.Name {
	case "(*sync.WaitGroup).Add":
		d = c.Arg(1)
	case "(*sync.WaitGroup).Done":
		d = mkInt(-1)
	default:
		return
	}
	q.r.Ob("counted", site(c))
	if !anyTerm(c.Arg(0), func(t *Term) bool { return t == q.recv }) {
		q.r.Report("counted", site(c), c.Pos(), st, "counts on %v, which is not the queue's wait group", c.Arg(0))
	}
	if n, ok := d.isInt(); ok && (n == -1 || n == 1) {
		// one step: a counter that follows loops
		k := "+down"
		if n == 1 {
			k = "+up"
		}
		if g := st.G(k); len(g) > 0 {
			st.SetG(k, addConst(g[0], 1))
		} else {
			st.SetG(k, mkInt(1))
		}
		if name := topFn(c.In); n == 1 && !heldExclusive(st, q.recv) {
			q.r.Report("counted", name, c.Pos(), st, "the wait group is counted up outside the queue's critical section")
		}
		return
	}
	st.AddG("added", in.mk(Term{K: KTuple, Args: []*Term{d, mkInt(int64(len(st.G("added"))))}}))
	if name := topFn(c.In); !heldExclusive(st, q.recv) {
		q.r.Report("counted", name, c.Pos(), st, "the wait group is counted up outside the queue's critical section")
	}
}

func (q *memQueue) changed(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
	if q.isField(addr, q.pending) {
		if val.K == KAppend && val.Args[0] == q.get(x, st, q.pending) && q.urls != nil {
			if wholeOf(val.Args[1], q.urls) {
				st.SetG("all", mkTok("yes"))
			}
			if els, ok := x.sliceElems(st, val.Args[1]); ok {
				for _, el := range els {
					if el.K == KLoad && el.Args[0].K == KIndexAddr && el.Args[0].Args[0] == q.urls {
						x.AddAttr(st, el, "queued")
					} else {
						st.SetG("odd", el)
					}
				}
			}
		} else {
			st.SetG("odd", val)
		}
		if q.closed(x, st) == 0 {
			st.SetG("open", mkTok("yes"))
		}
		if q.ctx != nil {
			for a, v := range st.atoms {
				if v && a.K == KBin && a.Aux == "==" && a.Args[1] == tNil && ctxErr(st, a.Args[0], q.ctx) {
					st.SetG("live", mkTok("yes"))
				}
			}
		}
		if len(st.G("puts")) > 0 {
			st.SetG("again", mkTok("yes"))
		}
		st.SetG("puts", in.mk(Term{K: KTuple, Args: []*Term{val}}))
		if !heldExclusive(st, q.recv) {
			q.r.Report("locked", topFn(i.Parent()), i.Pos(), st, "the pending URLs change outside the queue's critical section")
		}
	}
	if q.isField(addr, q.stopped) {
		st.SetG("stop", val)
	}
}

func checkQ02(r *Result) {
	q := newMemQueue(r)
	if q == nil {
		return
	}
	hooks := func() *Hooks {
		return &Hooks{
			Call: func(x *Exec, st *State, c *Call) {
				if isLock(c.Name) {
					p := q.get(x, st, q.pending)
					st.SetG("before", p)
				}
				q.counts(x, st, c)
			},
			Store: q.changed,
		}
	}
	put := func(st *State) *Term {
		if p := st.G("puts"); len(p) == 1 {
			return p[0].Args[0]
		}
		return nil
	}
	before := func(x *Exec, st *State) *Term {
		if b := st.G("before"); len(b) > 0 {
			return b[0]
		}
		return tNil
	}
	// Enqueue
	w := "queue.Enqueue"
	q.run(hooks(), "Enqueue", func(x *Exec, st *State, o Outcome) {
		err := lastRes(o.res)
		r.Ob("enqueue", w)
		if st.isNil(err) && len(st.G("puts")) == 0 && len(st.G("added")) == 0 && len(st.G("+up")) == 0 {
			if !st.entailsDiff(mkLen(q.urls), tZeroInt, 0) && !st.holds(mkEq(mkLen(q.urls), tZeroInt)) {
				r.Report("enqueue", w, token.NoPos, st, "succeeds without queueing the URLs")
			}
			return
		}
		if !st.isNil(err) {
			r.Ob("refused", w)
			if len(st.G("puts")) > 0 || len(st.G("added")) > 0 || len(st.G("+up")) > 0 {
				r.Report("refused", w, token.NoPos, st, "an enqueue that fails has queued or counted URLs")
			}
			switch {
			case isEOF(err):
				if q.closed(x, st) != 1 {
					r.Report("refused", w, token.NoPos, st, "io.EOF is returned although the queue is not established to be closed")
				}
			case q.ctx != nil && ctxErr(st, err, q.ctx):
			default:
				r.Report("refused", w, token.NoPos, st, "the error %v is neither io.EOF nor the context's", err)
			}
			return
		}
		if len(st.G("odd")) > 0 || len(st.G("all")) == 0 && !attrHas(x.elemOf(st, q.urls), "queued") {
			r.Report("enqueue", w, token.NoPos, st, "the pending URLs become %v, not the old ones followed by all the new ones", st.G("puts"))
		}
		n := mkLen(q.urls)
		a, up := st.G("added"), st.G("+up")
		byOne := len(up) == 1 && len(a) == 0 && st.entailsDiff(up[0], n, 0) && st.entailsDiff(n, up[0], 0)
		atOnce := len(up) == 0 && len(a) == 1 && (a[0].Args[0] == n || st.holds(mkEq(a[0].Args[0], n)))
		if !byOne && !atOnce || len(st.G("+down")) > 0 {
			r.Report("enqueue", w, token.NoPos, st, "the wait group grows by %v %v, not by the number of URLs queued", a, up)
		}
		if len(st.G("open")) == 0 {
			r.Report("enqueue", w, token.NoPos, st, "URLs are accepted although the queue is not established to be open")
		}
		if len(st.G("live")) == 0 {
			r.Report("enqueue", w, token.NoPos, st, "URLs are accepted although the context is not established to be live")
		}
	})
	// Dequeue
	w2 := "queue.Dequeue"
	q.run(hooks(), "Dequeue", func(x *Exec, st *State, o Outcome) {
		u, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		r.Ob("dequeue", w2)
		if len(st.G("added")) > 0 || len(st.G("+down")) > 0 {
			r.Report("dequeue", w2, token.NoPos, st, "taking a URL changes the count")
		}
		if !st.isNil(err) {
			if len(st.G("puts")) > 0 {
				r.Report("dequeue", w2, token.NoPos, st, "a dequeue that fails removes URLs")
			}
			return
		}
		if len(st.G("puts")) != 1 || len(st.G("again")) > 0 || st.isNil(u) {
			r.Report("dequeue", w2, token.NoPos, st, "a dequeue that succeeds does not remove exactly one URL")
		}
	})
	// Done
	w3 := "queue.Done"
	q.run(hooks(), "Done", func(x *Exec, st *State, o Outcome) {
		r.Ob("done", w3)
		d := st.G("+down")
		if len(d) != 1 || d[0] != mkInt(1) || len(st.G("added")) > 0 {
			r.Report("done", w3, token.NoPos, st, "an acknowledgement does not count down by exactly one")
		}
		if len(st.G("puts")) > 0 {
			r.Report("done", w3, token.NoPos, st, "an acknowledgement changes the pending URLs")
		}
	})
	// Wait
	w4 := "queue.Wait"
	h := hooks()
	call := h.Call
	h.Call = func(x *Exec, st *State, c *Call) {
		call(x, st, c)
		if c.Name == "(*sync.WaitGroup).Wait" && anyTerm(c.Arg(0), func(t *Term) bool { return t == q.recv }) {
			st.SetG("waited", mkTok("yes"))
		}
	}
	q.run(h, "Wait", func(x *Exec, st *State, o Outcome) {
		r.Ob("wait", w4)
		if len(st.G("waited")) == 0 || len(st.G("added")) > 0 || len(st.G("+down")) > 0 {
			r.Report("wait", w4, token.NoPos, st, "returns without having waited for the count to reach zero")
		}
	})
	// Close
	w5 := "queue.Close"
	q.run(hooks(), "Close", func(x *Exec, st *State, o Outcome) {
		r.Ob("close", w5)
		b := mkLen(before(x, st))
		n := tZeroInt
		if d := st.G("+down"); len(d) > 0 {
			n = d[0]
		}
		a := st.G("added")
		switch {
		case len(a) == 1 && len(st.G("+down")) == 0 && isNeg(a[0].Args[0], b):
		case len(a) > 0:
			r.Report("close", w5, token.NoPos, st, "closing changes the count by %v", a)
		case !st.entailsDiff(n, b, 0) || !st.entailsDiff(b, n, 0):
			r.Report("close", w5, token.NoPos, st, "closing counts down by %v, not by the number of pending URLs %v", n, b)
		}
		if q.empty(x, st) != 1 {
			p := put(st)
			if p == nil || !st.isNil(p) && !st.entailsDiff(mkLen(p), tZeroInt, 0) {
				r.Report("close", w5, token.NoPos, st, "URLs stay pending after closing: they would be counted down again")
			}
		}
	})
	q.writers("only-here")
	r.Need("enqueue", 1)
	r.Need("refused", 1)
	r.Need("dequeue", 1)
	r.Need("done", 1)
	r.Need("wait", 1)
	r.Need("close", 1)
}

func isNeg(t, n *Term) bool {
	return t.K == KUn && t.Aux == "-" && t.Args[0] == n || t.K == KBin && t.Aux == "-" && t.Args[0] == tZeroInt && t.Args[1] == n ||
		t.K == KBin && t.Aux == "*" && (t.Args[0] == mkInt(-1) && t.Args[1] == n || t.Args[1] == mkInt(-1) && t.Args[0] == n)
}

func isLock(name string) bool {
	return name == "(*sync.Mutex).Lock" || name == "(*sync.RWMutex).Lock" || name == "(sync.Locker).Lock"
}

func isUnlock(name string) bool {
	return strings.HasPrefix(name, "(*sync.") && (strings.HasSuffix(name, ").Unlock") || strings.HasSuffix(name, ").RUnlock")) || name == "(sync.Locker).Unlock"
}

// writers: the queue's state changes nowhere else.
func (q *memQueue) writers(rule string) {
	n := 0
	for _, fn := range q.r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := fieldOfAddr(a)
				if f != q.pending && f != q.stopped && f != q.wg {
					continue
				}
				n++
				q.r.Ob(rule, fnLabel(fn))
				if _, fresh := a.X.(*ssa.Alloc); !fresh && !q.r.Funcs[fn] {
					q.r.Report(rule, fnLabel(fn), i.Pos(), nil, "%s of the queue is changed by a function that is not part of its methods", f.Name())
				}
			}
		}
	}
	q.r.Need(rule, 1)
}

func fieldOfAddr(a *ssa.FieldAddr) *types.Var {
	t := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(a.Field)
}

func checkQ03(r *Result) {
	q := newMemQueue(r)
	if q == nil {
		return
	}
	hooks := func() *Hooks {
		return &Hooks{
			Call: func(x *Exec, st *State, c *Call) {
				switch {
				case c.Name == "(*sync.Cond).Broadcast":
					r.Ob("wakes", site(c))
					if anyTerm(c.Arg(0), func(t *Term) bool { return t == q.recv }) {
						if !heldExclusive(st, q.recv) {
							r.Report("wakes", site(c), c.Pos(), st, "dequeuers are woken without holding the queue's lock")
						}
						st.SetG("woke", mkTok("yes"))
					}
				case c.Name == "(*sync.Cond).Wait":
					r.Ob("blocks", site(c))
					if !heldExclusive(st, q.recv) {
						r.Report("blocks", site(c), c.Pos(), st, "blocks without holding the queue's lock")
					}
					if q.empty(x, st) != 1 {
						r.Report("blocks", site(c), c.Pos(), st, "blocks although URLs may be pending")
					}
					if q.closed(x, st) != 0 {
						r.Report("blocks", site(c), c.Pos(), st, "blocks although the queue may be closed")
					}
					if len(st.G("due")) > 0 && len(st.G("woke")) == 0 {
						r.Report("broadcast", site(c), c.Pos(), st, "gives the lock up without waking the dequeuers after a change")
					}
				case isLock(c.Name):
					st.SetG("before", q.get(x, st, q.pending))
				case isUnlock(c.Name):
					if len(st.G("due")) > 0 {
						r.Ob("broadcast", topFn(c.In))
						if len(st.G("woke")) == 0 {
							r.Report("broadcast", topFn(c.In), c.Pos(), st, "the critical section that changed the queue ends without waking every dequeuer")
						}
					}
					st.ClearG("due")
					st.ClearG("woke")
				}
			},
			Store: func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
				q.changed(x, st, addr, val, i)
				if q.isField(addr, q.pending) && val.K == KAppend || q.isField(addr, q.stopped) {
					st.SetG("due", mkTok("yes"))
				}
			},
		}
	}
	endDue := func(w string, st *State) {
		if len(st.G("due")) > 0 && len(st.G("woke")) == 0 {
			r.Report("broadcast", w, token.NoPos, st, "returns without waking the dequeuers after a change")
		}
	}
	w := "queue.Dequeue"
	h := hooks()
	store := h.Store
	h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if q.isField(addr, q.pending) {
			p := q.get(x, st, q.pending)
			r.Ob("takes", w)
			if q.empty(x, st) != 0 {
				r.Report("takes", w, i.Pos(), st, "a URL is taken although none may be pending")
			}
			if !isTail(x, st, val, p) {
				r.Report("takes", w, i.Pos(), st, "the pending URLs become %v, not the rest of them", val)
			}
			st.SetG("first", in.mk(Term{K: KLoad, Aux: "first", Args: []*Term{p}}))
		}
		store(x, st, addr, val, i)
	}
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if addr.K == KIndexAddr && addr.Args[0] == q.get(x, st, q.pending) {
			n, ok := addr.Args[1].isInt()
			if ok && n == 0 {
				st.AddG("head", val)
			}
			if q.empty(x, st) != 0 {
				r.Report("takes", w, i.Pos(), st, "a pending URL is read although none may be pending")
			}
		}
	}
	q.run(h, "Dequeue", func(x *Exec, st *State, o Outcome) {
		u, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		endDue(w, st)
		r.Ob("exit", w)
		switch {
		case st.isNil(err):
			if !st.HasG("head", u) {
				r.Report("exit", w, token.NoPos, st, "returns %v, which is not the first pending URL", u)
			}
			if len(st.G("puts")) != 1 || len(st.G("again")) > 0 {
				r.Report("exit", w, token.NoPos, st, "returns a URL without removing it")
			}
		case isEOF(err):
			if q.closed(x, st) != 1 {
				r.Report("exit", w, token.NoPos, st, "io.EOF is returned although the queue is not established to be closed")
			}
		case ctxErr(st, err, q.ctx):
		default:
			r.Report("exit", w, token.NoPos, st, "returns the error %v", err)
		}
	})
	q.run(hooks(), "Enqueue", func(x *Exec, st *State, o Outcome) {
		endDue("queue.Enqueue", st)
		for _, p := range st.G("puts") {
			r.Ob("order", "queue.Enqueue")
			if len(st.G("odd")) > 0 {
				r.Report("order", "queue.Enqueue", token.NoPos, st, "the pending URLs become %v: new ones are not behind the old ones", p.Args[0])
			}
		}
	})
	q.run(hooks(), "Close", func(x *Exec, st *State, o Outcome) {
		endDue("queue.Close", st)
		r.Ob("closes", "queue.Close")
		if s := st.G("stop"); len(s) == 0 || !st.holds(s[0]) {
			r.Report("closes", "queue.Close", token.NoPos, st, "returns without having closed the queue")
		}
	})
	for _, name := range []string{"Done", "Wait", "Enqueue"} {
		q.run(hooks(), name, func(x *Exec, st *State, o Outcome) {
			if len(st.G("stop")) > 0 {
				r.Report("closes", "queue."+name, token.NoPos, st, "closes the queue")
			}
		})
	}
	q.writers("only-here")
	r.Need("blocks", 1)
	r.Need("wakes", 2)
	r.Need("broadcast", 2)
	r.Need("takes", 1)
	r.Need("exit", 1)
	r.Need("order", 1)
	r.Need("closes", 1)
}

// isTail: v is p without its first element.
func isTail(x *Exec, st *State, v, p *Term) bool {
	if v.K == KSlice && v.Args[0] == p && v.Args[2] == tNil {
		n, ok := v.Args[1].isInt()
		return ok && n == 1
	}
	// append(p[:0], p[1:]...)
	if v.K == KAppend && v.Args[0].K == KSlice && v.Args[0].Args[0] == p {
		n, ok := v.Args[0].Args[2].isInt()
		return ok && n == 0 && isTail(x, st, v.Args[1], p)
	}
	return false
}
