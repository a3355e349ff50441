package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closing verifies Close and finds the channel it closes.
func (d *disk) closing() {
	r := d.r
	fn := d.method("Close")
	if fn == nil {
		return
	}
	where := fnLabel(fn)
	h := &Hooks{}
	h.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		if k >= 0 && d.stop != nil && d.of(chans[k], d.stop) {
			st.SetG("before", mkTok("yes"))
		}
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		switch {
		case c.Name == "builtin.close":
			if t := strip(c.Arg(0)); t.K == KLoad && t.Args[0].K == KFieldAddr && anyTerm(t, func(t *Term) bool { return t == d.recv }) {
				d.stop = t.Args[0].Fld
				st.SetG("stopped", mkTok("yes"))
			}
		case c.Name == "(*sync.WaitGroup).Wait" || c.Name == "(*golang.org/x/sync/errgroup.Group).Wait":
			r.Ob("close", what)
			if len(st.G("stopped")) == 0 {
				r.Report("close", what, c.Pos(), st, "Close waits for the background work before telling it to stop")
			}
			st.SetG("waited", mkTok("yes"))
		case c.Name == "(*os.File).Close" && d.of(c.Arg(0), d.dir):
			r.Ob("close", what)
			if len(st.G("waited")) == 0 {
				r.Report("close", what, c.Pos(), st, "the directory is closed although background work may still use it")
			}
			st.SetG("dir", c.Err())
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) { d.recv = args[0] }, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("close", where)
		e := st.G("dir")
		switch {
		case len(st.G("before")) > 0 && len(st.G("stopped")) == 0:
			// closed before
		case len(st.G("stopped")) == 0 || len(st.G("waited")) == 0 || len(e) == 0:
			r.Report("close", where, token.NoPos, st, "Close returns without having stopped the background work, waited for it and closed the directory")
		case st.isNil(o.res) && !st.isNil(e[0]) || st.nonNil(o.res) && (st.isNil(e[0]) || !carries(st, o.res, e[0])):
			r.Report("close", where, token.NoPos, st, "Close does not return what closing the directory did: %v", o.res)
		case !st.isNil(o.res) && !st.nonNil(o.res) && o.res != e[0]:
			r.Report("close", where, token.NoPos, st, "Close does not return what closing the directory did: %v", o.res)
		}
	})
}

// waiting verifies Wait and finds the channel it waits for.
func (d *disk) waiting() {
	r := d.r
	fn := d.method("Wait")
	if fn == nil {
		return
	}
	where := fnLabel(fn)
	var ctx *Term
	warm := func(st *State, ch *Term) bool {
		ch = strip(ch)
		if ch.K == KLoad && ch.Args[0].K == KFieldAddr && anyTerm(ch, func(t *Term) bool { return t == d.recv }) {
			d.warm = ch.Args[0].Fld
			return true
		}
		return false
	}
	h := &Hooks{}
	h.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		what := topFn(i.Parent())
		r.Ob("wait", what)
		done := false
		for j, ch := range chans {
			if isDoneOf(ch, ctx) {
				done = true
				if j == k {
					st.SetG("cancelled", mkTok("yes"))
				}
			} else if warm(st, ch) && j == k {
				st.SetG("warmed", mkTok("yes"))
			}
		}
		if i.Blocking && !done {
			r.Report("wait", what, i.Pos(), st, "Wait blocks although its context may be cancelled")
		}
	}
	h.ChanOp = func(x *Exec, st *State, i ssa.Instruction, ch *Term, send bool) {
		r.Report("wait", topFn(i.Parent()), i.Pos(), st, "Wait blocks although its context may be cancelled")
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) { d.recv, ctx = args[0], args[1] }, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("wait", where)
		switch {
		case st.isNil(o.res):
			if len(st.G("warmed")) == 0 {
				r.Report("wait", where, token.NoPos, st, "Wait reports that the store is warm although it may not be")
			}
		case !ctxErr(st, o.res, ctx):
			r.Report("wait", where, token.NoPos, st, "Wait fails with something else than its context's error: %v", o.res)
		case len(st.G("cancelled")) == 0 && !st.nonNil(o.res):
			r.Report("wait", where, token.NoPos, st, "Wait returns early although its context may not be cancelled")
		}
	})
}

func lists(name string) bool {
	switch name {
	case "(*os.File).Readdirnames", "(*os.File).ReadDir", "(*os.File).Readdir", "os.ReadDir", "io/ioutil.ReadDir":
		return true
	}
	return false
}

func isTicks(t *Term) bool {
	t = strip(t)
	return t.K == KLoad && t.Args[0].K == KFieldAddr && t.Args[0].Fld != nil && t.Args[0].Fld.Name() == "C" && t.Args[0].Fld.Pkg() != nil && t.Args[0].Fld.Pkg().Path() == "time" ||
		isPureOf(t, "time.Tick", "time.After")
}

// warming runs Open, with the goroutines it starts, for the rules of id.
func (d *disk) warming(id string) {
	r := d.r
	fn := r.P.Func(pCache, "Open")
	if fn == nil {
		r.Missing("antcache.Open")
		return
	}
	sweep := d.method("sweep")
	if sweep == nil {
		return
	}
	where := fnLabel(fn)
	rep := func(on, rule, what string, pos token.Pos, st *State, f string, args ...any) {
		if on == id {
			r.Report(rule, what, pos, st, f, args...)
		}
	}
	ob := func(on, rule, what string) {
		if on == id {
			r.Ob(rule, what)
		}
	}
	d.recv = nil
	d.vals = map[*types.Var][]*Term{}
	defer func() { d.vals = nil }()
	isSweep := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == sweep
	}
	isList := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && lists(fnName(c.Common().StaticCallee()))
	}
	// nameOf: the file name an element of a listing stands for.
	nameOf := func(t, e *Term) bool {
		t = strip(t)
		return t == e || isPureOf(t, "(io/fs.DirEntry).Name", "(io/fs.FileInfo).Name", "(os.DirEntry).Name") && strip(t.Args[0]) == e
	}
	fl := &flow{P: r.P}
	fl.source = func(st *State, s *Term) bool { return st.HasG("names", s) }
	fl.stands = func(x *Exec, st *State, v, e *Term) bool {
		return d.isEntry(v) && anyTerm(v, func(t *Term) bool { return mentions(t, e) })
	}
	current := func(st *State) []*Term {
		var out []*Term
		for _, l := range st.G("turns") {
			if t := st.G("turn:" + l.Aux); len(t) == 4 {
				out = append(out, t[1])
			}
		}
		return out
	}
	// found: v is the entry of the file named e; why not.
	found := func(x *Exec, st *State, v, e *Term) string {
		n := d.inDir(st, d.field(x, st, v, d.epath))
		if n == nil || !nameOf(n, e) {
			return "its path is not the name in the store's directory"
		}
		if d.ekey >= 0 {
			k := strip(d.field(x, st, v, d.ekey))
			ok := false
			for _, p := range st.G("parsed") {
				if p.Args[1] == k && nameOf(p.Args[0], e) {
					ok = st.isNil(p.Args[2])
				}
			}
			if !ok {
				return "its key is not known to be what the name says"
			}
		}
		return ""
	}
	// skipped: there is no entry to make of the file named e.
	skipped := func(x *Exec, st *State, e *Term) bool {
		for _, p := range st.G("parsed") {
			if nameOf(p.Args[0], e) && st.nonNil(p.Args[2]) {
				return true
			}
		}
		for _, s := range st.G("stat") {
			if anyTerm(s.Args[0], func(t *Term) bool { return mentions(t, e) }) && st.nonNil(s.Args[1]) {
				return true
			}
		}
		about := func(t *Term) bool { return anyTerm(t, func(t *Term) bool { return mentions(t, e) }) }
		yes := known(st, func(c *Term) bool {
			switch {
			case !about(c):
				return false
			case c.K == KBin && c.Aux == "==":
				for i := 0; i < 2; i++ {
					if s, ok := strip(c.Args[i]).isStr(); ok && isPureOf(strip(c.Args[1-i]), "path/filepath.Ext", "path.Ext") && strings.Trim(s, ".0123456789") != "" {
						return true
					}
				}
			case isPureOf(c, "strings.HasSuffix"):
				s, ok := strip(c.Args[1]).isStr()
				return ok && strings.Trim(s, "0123456789") != ""
			case isPureOf(c, "(io/fs.FileInfo).IsDir", "(io/fs.DirEntry).IsDir", "(io/fs.FileMode).IsDir"):
				return true
			}
			return false
		})
		if yes == 1 {
			return true
		}
		return known(st, func(c *Term) bool { return about(c) && isPureOf(c, "(io/fs.FileMode).IsRegular") }) == 0
	}
	settledKey := func(x *Exec, st *State, k *Term) bool {
		for _, w := range st.G("wrote") {
			if exactKey(w, k) {
				return true
			}
		}
		for _, t := range st.G("in:entry") {
			if exactKey(t.Args[1], k) && (st.holds(t.Args[0]) || known(st, func(c *Term) bool { return c == t.Args[0] }) == 1) {
				return true
			}
		}
		return false
	}
	fl.settle = func(x *Exec, st *State, tn turn, passed bool) bool {
		ob("D04", "names", tn.loop.Aux)
		if d.isEntry(tn.e) {
			if !settledKey(x, st, strip(d.field(x, st, tn.e, d.ekey))) {
				rep("D04", "names", tn.loop.Aux, tn.pos, st, "an entry found is not indexed")
			}
			return false
		}
		switch {
		case passed:
			return true
		case skipped(x, st, tn.e):
			return false
		}
		for _, p := range st.G("parsed") {
			if nameOf(p.Args[0], tn.e) && settledKey(x, st, p.Args[1]) {
				return false
			}
		}
		rep("D04", "names", tn.loop.Aux, tn.pos, st, "a file is ignored although its name may stand for a key")
		return false
	}
	// listed: what the last read gave was handled; pos is where that is asked.
	listed := func(x *Exec, st *State, end bool, pos token.Pos, what string) {
		l := st.G("listing")
		if len(l) != 3 {
			if end {
				rep("D04", "warm", what, pos, st, "warm-up ends without having read the directory")
			}
			return
		}
		names, err, n := l[0], l[1], l[2]
		parts := n != tNil && st.entailsDiff(tZeroInt, n, -1)
		well, ended := st.isNil(err) || st.HasG("read", mkTok("well")), st.nonNil(err) || st.HasG("read", mkTok("ended"))
		if end && parts && !ended {
			rep("D04", "warm", what, pos, st, "warm-up ends although the directory may hold more names")
		}
		if !end && (!well || !parts) {
			rep("D04", "warm", what, pos, st, "the directory is read on although the last read failed or reached its end")
		}
		if !(ended && parts) && !fl.complete(st, names) {
			rep("D04", "names", what, pos, st, "not every name read is looked at")
		}
	}
	late := func(st *State, what string, pos token.Pos) {
		if st.GInt("done") > 0 {
			rep("D04", "counted", what, pos, st, "a goroutine goes on after it has signed off")
		}
	}
	h := &Hooks{}
	h.Opaque = func(fn *ssa.Function) bool { return fn == sweep }
	h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && addr.Args[0].K == KAlloc && addr.Args[0].Typ != nil && namedOf(addr.Args[0].Typ) == d.T {
			if d.recv == nil {
				d.recv = addr.Args[0]
			}
			if i.Parent() == fn {
				for _, v := range d.vals[addr.Fld] {
					if v == val {
						return
					}
				}
				d.vals[addr.Fld] = append(d.vals[addr.Fld], val)
			} else if addr.Fld == d.dir {
				d.vals[addr.Fld] = append(d.vals[addr.Fld], val)
			}
		}
	}
	h.AttrOf = func(x *Exec, st *State, t *Term) string {
		if !d.isEntry(t) {
			return ""
		}
		for _, e := range current(st) {
			if fl.stands(x, st, t, e) && found(x, st, t, e) == "" {
				return "found"
			}
		}
		return ""
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		for _, v := range els {
			if !d.isEntry(v) {
				continue
			}
			for _, e := range current(st) {
				if d.isEntry(e) || !fl.stands(x, st, v, e) {
					continue
				}
				ob("D05", "name", topFn(i.Parent()))
				if why := found(x, st, v, e); why != "" {
					rep("D05", "name", topFn(i.Parent()), i.Pos(), st, "an entry is made of a file, and %s", why)
				}
			}
		}
	}
	h.MapRead = func(x *Exec, st *State, m, k *Term, i ssa.Instruction) {
		if k == nil || !d.isIndexRead(m, i) {
			return
		}
		_, has := x.mapGet(st, m, k, d.entry)
		if len(st.locks) > 0 {
			st.AddG("in:entry", in.mk(Term{K: KTuple, Args: []*Term{has, k}}))
		}
	}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if i == nil || !d.isIndex(m, i) {
			return
		}
		what := topFn(i.Parent())
		late(st, what, i.Pos())
		ob("D04", "names", what)
		if v == nil {
			rep("D04", "names", what, i.Pos(), st, "warm-up removes an entry")
			return
		}
		if !heldExclusive(st, d.recv) {
			rep("D04", "names", what, i.Pos(), st, "the index is changed without its lock")
		}
		absent := false
		for _, t := range st.G("in:entry") {
			if exactKey(t.Args[1], k) && (st.refuted(t.Args[0]) || known(st, func(c *Term) bool { return c == t.Args[0] }) == 0) {
				absent = true
			}
		}
		if !absent {
			rep("D04", "names", what, i.Pos(), st, "an entry stored meanwhile may be replaced")
		}
		why := "it is not known which"
		for _, e := range current(st) {
			if v == e && attrHas(x.attrOf(st, e), "found") {
				why = ""
			} else if !d.isEntry(e) {
				why = found(x, st, v, e)
			}
		}
		ob("D05", "name", what)
		if why != "" {
			rep("D05", "name", what, i.Pos(), st, "an entry is indexed that is not of a file found: %s", why)
		}
		if !exactKey(k, strip(d.field(x, st, v, d.ekey))) {
			rep("D05", "name", what, i.Pos(), st, "an entry is indexed under another key: %v", k)
		}
		st.AddG("wrote", k)
	}
	blocks := func(st *State, what string, pos token.Pos) {
		if len(st.G("thread")) == 0 {
			return
		}
		ob("D04", "stops", what)
		if len(st.G("stopped")) > 0 {
			rep("D04", "stops", what, pos, st, "a goroutine goes on waiting after the store was closed")
		}
	}
	// warm-up is not done
	waits := func(st *State) bool { return len(st.G("list")) > 0 && len(st.G("closed")) == 0 }
	tick := func(st *State, what string, pos token.Pos) {
		if len(st.G("tick")) > 0 {
			rep("D04", "sweeps", what, pos, st, "a tick passes without a sweep")
			st.ClearG("tick")
		}
	}
	h.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		what := topFn(i.Parent())
		if len(st.G("thread")) == 0 {
			return
		}
		ends := !i.Blocking
		for _, ch := range chans {
			ends = ends || d.of(ch, d.stop) || d.of(ch, d.warm) && len(st.G("list")) == 0
		}
		if i.Blocking {
			if waits(st) {
				rep("D04", "warm", what, i.Pos(), st, "warm-up waits for something else than the directory")
			}
			blocks(st, what, i.Pos())
			tick(st, what, i.Pos())
			if !ends {
				rep("D04", "stops", what, i.Pos(), st, "a goroutine waits for something that closing the store does not end")
			}
		}
		if k >= 0 {
			switch ch := chans[k]; {
			case d.of(ch, d.stop):
				st.SetG("stopped", mkTok("yes"))
			case d.of(ch, d.warm):
				st.SetG("warmed", mkTok("yes"))
			case isTicks(ch):
				st.SetG("tick", mkTok("yes"))
			}
		}
	}
	h.ChanOp = func(x *Exec, st *State, i ssa.Instruction, ch *Term, send bool) {
		what := topFn(i.Parent())
		if len(st.G("thread")) == 0 {
			return
		}
		if waits(st) {
			rep("D04", "warm", what, i.Pos(), st, "warm-up waits for something else than the directory")
		}
		blocks(st, what, i.Pos())
		tick(st, what, i.Pos())
		switch {
		case send:
			rep("D04", "stops", what, i.Pos(), st, "a goroutine sends on a channel, which closing the store does not end")
		case d.of(ch, d.warm):
			st.SetG("warmed", mkTok("yes"))
		case d.of(ch, d.stop):
			st.SetG("stopped", mkTok("yes"))
		default:
			rep("D04", "stops", what, i.Pos(), st, "a goroutine waits for something that closing the store does not end")
		}
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		switch {
		case isUnlock(c.Name):
			left(st)
		case c.Name == "(*sync.WaitGroup).Add":
			n, ok := strip(c.Arg(1)).isInt()
			if !ok {
				rep("D04", "counted", what, c.Pos(), st, "it is not known how many goroutines are counted")
				return
			}
			if n < 0 {
				st.SetG("done", mkInt(st.GInt("done")-n))
			} else {
				st.SetG("added", mkInt(st.GInt("added")+n))
			}
		case c.Name == "(*sync.WaitGroup).Done":
			st.SetG("done", mkInt(st.GInt("done")+1))
		case c.Name == "time.Sleep":
			if len(st.G("thread")) > 0 {
				rep("D04", "stops", what, c.Pos(), st, "a goroutine sleeps, which closing the store does not end")
			}
		case c.Fn == sweep || c.Name == fnName(sweep):
			late(st, what, c.Pos())
			st.ClearG("tick")
			ob("D04", "sweeps", what)
			if len(st.G("warmed")) == 0 {
				rep("D04", "sweeps", what, c.Pos(), st, "sweeping begins although warm-up may not be done")
			}
			if len(st.G("stopped")) > 0 {
				rep("D04", "sweeps", what, c.Pos(), st, "sweeping goes on after the store was closed")
			}
		case lists(c.Name):
			late(st, what, c.Pos())
			ob("D04", "warm", what)
			listed(x, st, false, c.Pos(), what)
			if strings.HasPrefix(c.Name, "(*os.File)") {
				if !d.of(c.Arg(0), d.dir) && !isOpened(st, c.Arg(0)) {
					rep("D04", "warm", what, c.Pos(), st, "another directory is read: %v", c.Arg(0))
				}
				st.SetG("listing", c.R(0), c.R(1), c.Arg(1))
			} else {
				if !d.of(c.Arg(0), d.path) {
					rep("D04", "warm", what, c.Pos(), st, "another directory is read: %v", c.Arg(0))
				}
				st.SetG("listing", c.R(0), c.R(1), tNil)
			}
			st.ClearG("read")
			s := c.R(0)
			for _, g := range []string{"exhausted", "dropped", "first"} {
				st.DelG(g, s)
			}
			st.SetG("names", s)
		case c.Name == "strconv.ParseUint" || c.Name == "strconv.ParseInt" || c.Name == "strconv.Atoi":
			what := topFn(c.In)
			for _, e := range current(st) {
				if !nameOf(c.Arg(0), e) {
					continue
				}
				ob("D05", "name", what)
				if c.Name != "strconv.ParseUint" || !isInt(c.Arg(1), 10) || !isInt(c.Arg(2), 64) && !isInt(c.Arg(2), 0) {
					rep("D05", "name", what, c.Pos(), st, "the name of a file is not read the way keys are written")
				}
				st.AddG("parsed", in.mk(Term{K: KTuple, Args: []*Term{strip(c.Arg(0)), c.R(0), c.R(1)}}))
			}
		case c.Name == "os.Stat" || c.Name == "os.Lstat" || c.Name == "(io/fs.DirEntry).Info":
			st.AddG("stat", in.mk(Term{K: KTuple, Args: []*Term{strip(c.Arg(0)), c.R(1)}}))
		case c.Name == "os.Remove" || c.Name == "os.RemoveAll" || c.Name == "os.Rename":
			rep("D04", "names", what, c.Pos(), st, "warm-up removes files")
		case c.Name == "os.Open":
			if d.of(c.Arg(0), d.path) {
				st.AddG("opened", c.R(0))
			}
		case c.Name == "builtin.close":
			if !d.of(c.Arg(0), d.warm) {
				return
			}
			ob("D04", "warm", what)
			if len(st.G("closed")) > 0 {
				rep("D04", "warm", what, c.Pos(), st, "the channel Wait waits for is closed twice")
			}
			st.SetG("closed", mkTok("yes"))
			st.SetG("warmed", mkTok("yes"))
			listed(x, st, true, c.Pos(), what)
			if l := fl.outstanding(st); l != "" {
				rep("D04", "names", what, c.Pos(), st, "Wait is told that the store is warm although not every entry found may be indexed (%s)", l)
			}
			if len(st.locks) > 0 {
				return
			}
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		if l := st.G("listing"); len(l) == 3 {
			if st.isNil(l[1]) {
				st.SetG("read", mkTok("well"))
			} else if st.nonNil(l[1]) {
				st.SetG("read", mkTok("ended"))
			}
		}
		c, v := cond, val
		if c.K == KUn {
			c, v = c.Args[0], !v
		}
		if c.K == KHas || c.K == KBin && c.Aux == "==" || c.K == KPure || c.K == KCall {
			cur := current(st)
			if anyTerm(c, func(t *Term) bool {
				for _, e := range cur {
					if mentions(t, e) {
						return true
					}
				}
				return false
			}) {
				st.AddG("cmp"+map[bool]string{true: "true", false: "false"}[v], c)
			}
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, t *Term) {
		what := site(c)
		ob("D04", "counted", what)
		child.SetG("thread", mkTok("yes"))
		child.ClearG("done")
		// others may fill the index meanwhile
		for _, m := range child.mem {
			if m.K == KMake && m.Typ != nil {
				if _, ok := m.Typ.Underlying().(*types.Map); ok {
					child.objver[m] = in.mk(Term{K: KEpoch, Aux: "m", Site: c.Instr, Ctx: c.Ctx})
				}
			}
		}
		if c.Name == "(*sync.WaitGroup).Go" || strings.HasSuffix(c.Name, "errgroup.Group).Go") {
			child.SetG("auto", mkTok("yes"))
		} else {
			parent.SetG("spawned", mkInt(parent.GInt("spawned")+1))
			if parent.GInt("spawned") > parent.GInt("added") {
				rep("D04", "counted", what, c.Pos(), parent, "a goroutine is started that Close does not wait for")
			}
		}
		if t.Fn != nil {
			if r.P.reaches(t.Fn, isList) {
				parent.SetG("warms", mkTok("yes"))
				child.SetG("list", mkTok("yes"))
			}
			if r.P.reaches(t.Fn, isSweep) {
				parent.SetG("sweeps", mkTok("yes"))
				child.SetG("sweep", mkTok("yes"))
			}
		}
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, panicked bool) {
		what := site(c)
		if panicked {
			return
		}
		tick(st, what, c.Pos())
		ob("D04", "counted", what)
		if len(st.G("auto")) == 0 && st.GInt("done") != 1 {
			rep("D04", "counted", what, c.Pos(), st, "a goroutine ends without having signed off exactly once")
		}
		if len(st.G("list")) > 0 && len(st.G("closed")) == 0 {
			rep("D04", "warm", what, c.Pos(), st, "warm-up ends without telling Wait")
		}
		if len(st.G("sweep")) > 0 && len(st.G("stopped")) == 0 {
			rep("D04", "sweeps", what, c.Pos(), st, "sweeping ends although the store was not closed")
		}
	}
	fl.hooks(h)
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		ob("D04", "opened", where)
		err := tupleAt(o.res, 1)
		switch {
		case !st.isNil(err):
			if st.GInt("spawned") > 0 {
				rep("D04", "opened", where, token.NoPos, st, "opening fails with goroutines running")
			}
		case len(st.G("warms")) == 0:
			rep("D04", "opened", where, token.NoPos, st, "the store is opened without being warmed")
		case st.GInt("spawned") != st.GInt("added"):
			rep("D04", "opened", where, token.NoPos, st, "Close waits for goroutines that were not started")
		case len(st.G("sweeps")) == 0:
			ok := false
			s := d.T.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); types.TypeString(f.Type(), nil) == "*time.Ticker" {
					v := x.load(st, mkFieldAddr(d.recv, i, f), f.Type())
					ok = ok || st.isNil(v)
				}
			}
			if !ok {
				rep("D04", "opened", where, token.NoPos, st, "the store is opened without sweeping although there is a ticker")
			}
		}
	})
}

func isOpened(st *State, f *Term) bool { return st.HasG("opened", strip(f)) }

func checkD04(r *Result) {
	d := newDisk(r)
	if d == nil {
		return
	}
	d.closing()
	d.waiting()
	if d.stop == nil || d.warm == nil {
		r.Missing("the channels Close closes and Wait waits for")
		return
	}
	d.warming("D04")
	r.Need("close", 2)
	r.Need("wait", 1)
	r.Need("counted", 2)
	r.Need("warm", 1)
	r.Need("names", 1)
	r.Need("sweeps", 1)
	r.Need("stops", 1)
	r.Need("opened", 1)
}
