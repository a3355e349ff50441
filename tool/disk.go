package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D01", "event order on every path of the disk store's Store: the temporary file (in the store's directory, under a name no key has) is written, synced and closed, each without error, before it is renamed; the rename and a sync of the directory succeed before the index is written; every path that ends without the index written returns an error, and one that created the file and did not rename it removes it", checkD01)
	register("D02", "critical sections of the index lock: the rename and the index entry of a store, the lookup and the read of a load, the lookup, the removal and the index deletion of a sweep each lie in one; a file is removed only where the index was just seen to hold the very entry examined; an entry leaves the index only where its file is known to be gone", checkD02)
	register("D03", "every turn of the sweep's loops over all entries, newest first: an entry is chosen for removal exactly on the paths where its age is known to exceed a set maximum age, or where, with a maximum size set, the sizes kept so far and its own are known to exceed it; the sum grows by each entry kept; every entry chosen is removed, gone, replaced, or its removal failed", checkD03)
	register("D04", "goroutines of the disk store: each is counted before it starts and signs off at its end; warm-up goes on only after a read without error, looks at every name, adds what parses as a key under the lock where no entry is, and closes the channel Wait waits for; the sweeper sweeps only after that and blocks only where closing stops it; Close stops, waits, then closes the directory", checkD04)
	register("D05", "codec and names: the bytes written are the value, or its encoding exactly where compression is on; the bytes returned are the file's, or their decoding exactly where it is on; the file read is the one indexed for the key; the name is the key in the base warm-up parses; a failure is an error without a value", checkD05)
}

type disk struct {
	r     *Result
	T     *types.Named
	entry *types.Named
	// fields of an entry
	ekey, epath, esize, etime int
	dir, path                 *types.Var
	maxage, maxsize           *types.Var
	compress                  *types.Var
	stop, warm                *types.Var
	recv                      *Term
	vals                      map[*types.Var][]*Term // what the constructor put there
}

func newDisk(r *Result) *disk {
	P := r.P
	T := P.Named(pCache, "Diskstore")
	if T == nil {
		r.Missing("antcache.Diskstore")
		return nil
	}
	d := &disk{r: r, T: namedOf(T), ekey: -1, epath: -1, esize: -1, etime: -1}
	// all fields, of structs within too
	var fields func(s *types.Struct)
	fields = func(s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			switch u := f.Type().Underlying().(type) {
			case *types.Map:
				if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
					if n := namedOf(u.Elem()); n != nil {
						d.entry = n
					}
				}
			case *types.Struct:
				if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pCache || n == nil {
					fields(u)
				}
			}
			switch types.TypeString(f.Type(), nil) {
			case "*os.File":
				d.dir = f
			case "string":
				d.path = f
			case "time.Duration":
				d.maxage = f
			case "int64":
				d.maxsize = f
			}
		}
	}
	fields(d.T.Underlying().(*types.Struct))
	if d.entry == nil || d.dir == nil || d.path == nil {
		r.Missing("the disk store's index, directory and path")
		return nil
	}
	es, ok := d.entry.Underlying().(*types.Struct)
	if !ok {
		r.Missing("the disk store's index entries")
		return nil
	}
	for i := 0; i < es.NumFields(); i++ {
		switch types.TypeString(es.Field(i).Type(), nil) {
		case "uint64":
			d.ekey = i
		case "string":
			d.epath = i
		case "int64":
			d.esize = i
		case "time.Time":
			d.etime = i
		}
	}
	// fields the options set
	set := func(name string) *types.Var {
		fn := P.Func(pCache, name)
		if fn == nil {
			return nil
		}
		for _, g := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok {
						if a, ok := s.Addr.(*ssa.FieldAddr); ok {
							return fieldOfAddr(a)
						}
					}
				}
			}
		}
		return nil
	}
	d.compress = set("Compress")
	if f := set("Maxage"); f != nil {
		d.maxage = f
	}
	if f := set("Maxsize"); f != nil {
		d.maxsize = f
	}
	if d.epath < 0 || d.etime < 0 || d.esize < 0 || d.compress == nil {
		r.Missing("the parts of an index entry, and the compression setting")
		return nil
	}
	return d
}

func (d *disk) method(name string) *ssa.Function {
	fn := d.r.P.Meth(pCache, "Diskstore", name)
	if fn == nil {
		d.r.Missing("(*Diskstore)." + name)
	}
	return fn
}

// isIndex: m is the index.
func (d *disk) isIndex(m *Term, i ssa.Instruction) bool {
	t := m.Typ
	switch u := i.(type) {
	case *ssa.MapUpdate:
		t = u.Map.Type()
	case *ssa.Call:
		if len(u.Call.Args) > 0 {
			t = u.Call.Args[0].Type()
		}
	}
	if t == nil {
		return false
	}
	mt, ok := t.Underlying().(*types.Map)
	return ok && namedOf(mt.Elem()) == d.entry
}

func (d *disk) field(x *Exec, st *State, e *Term, i int) *Term {
	return x.fieldVar(st, e, i, d.entry.Underlying().(*types.Struct).Field(i))
}

// of: t was read from the store's own field f.
func (d *disk) of(t *Term, f *types.Var) bool {
	t = strip(t)
	for _, v := range d.vals[f] {
		if strip(v) == t {
			return true
		}
	}
	return t != nil && t.K == KLoad && t.Args[0].K == KFieldAddr && t.Args[0].Fld == f && anyTerm(t, func(t *Term) bool { return t == d.recv })
}

// in remembers something until the lock is given back.
func inside(st *State, what string, t *Term) {
	if len(st.locks) > 0 {
		st.AddG("in:"+what, t)
	}
}

func left(st *State) {
	for k := range st.ghost {
		if strings.HasPrefix(k, "in:") {
			st.ClearG(k)
		}
	}
	st.SetG("left", mkTok("yes"))
}

// name: t is the file name of the key.
func (d *disk) name(t, key *Term) bool {
	t = strip(t)
	switch {
	case isPureOf(t, "strconv.FormatUint"):
		return exactKey(t.Args[0], key) && isInt(t.Args[1], 10)
	case isPureOf(t, "fmt.Sprint"):
		return anyTerm(t, func(t *Term) bool { return t == key })
	case isPureOf(t, "fmt.Sprintf"):
		s, ok := strip(t.Args[0]).isStr()
		return ok && s == "%d" && anyTerm(t, func(t *Term) bool { return t == key })
	}
	return false
}

// inDir: t is a path in the store's directory: its last element.
func (d *disk) inDir(st *State, t *Term) *Term {
	t = strip(t)
	if isPureOf(t, "path/filepath.Join", "path.Join") {
		var els []*Term
		for _, a := range t.Args {
			if a.K == KSlice || a.K == KMake {
				continue
			}
			els = append(els, a)
		}
		if len(els) == 2 && d.of(els[0], d.path) {
			return els[1]
		}
		return nil
	}
	if p := concat(t); len(p) == 3 && d.of(p[0], d.path) && (isSep(p[1], "/")) {
		return p[2]
	}
	return nil
}

func writesFile(name string) (file, data int) {
	switch name {
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "io.Copy":
		return 0, 1
	case "(*os.File).ReadFrom":
		return 0, 1
	}
	return -1, -1
}

// storing runs Store for the rules of id.
func (d *disk) storing(id string) {
	r := d.r
	fn := d.method("Store")
	if fn == nil {
		return
	}
	where := fnLabel(fn)
	rep := func(on, rule, what string, pos token.Pos, st *State, f string, args ...any) {
		if on == id {
			r.Report(rule, what, pos, st, f, args...)
		}
	}
	ob := func(on, rule, what string) {
		if on == id {
			r.Ob(rule, what)
		}
	}
	var key, val *Term
	is := func(g string, st *State, f *Term) *Term { // the error of the step on file f
		for _, t := range st.G(g) {
			if t.Args[0] == f {
				return t.Args[1]
			}
		}
		return nil
	}
	set := func(g string, st *State, ts ...*Term) {
		for _, t := range st.G(g) {
			if t.Args[0] == ts[0] {
				st.DelG(g, t)
			}
		}
		st.AddG(g, in.mk(Term{K: KTuple, Args: ts}))
	}
	isTmp := func(st *State, f *Term) bool {
		for _, t := range st.G("tmp") {
			if t.Args[0] == f {
				return true
			}
		}
		return false
	}
	named := func(st *State, p *Term) *Term { // the temporary file of that name
		p = strip(p)
		for _, t := range st.G("tmp") {
			if isPureOf(p, "(*os.File).Name") && p.Args[0] == t.Args[0] || p == t.Args[2] {
				return t.Args[0]
			}
		}
		return nil
	}
	h := &Hooks{}
	h.Load = func(x *Exec, st *State, addr, v *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && addr.Fld == d.compress {
			st.AddG("comp", v)
		}
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		switch {
		case isUnlock(c.Name):
			left(st)
		case c.Name == "os.CreateTemp" || c.Name == "io/ioutil.TempFile":
			ob("D01", "temporary", what)
			st.AddG("tmp", in.mk(Term{K: KTuple, Args: []*Term{c.R(0), c.R(1), tNil}}))
			if !d.of(c.Arg(0), d.path) {
				rep("D01", "temporary", what, c.Pos(), st, "the temporary file is not made in the store's directory: %v", c.Arg(0))
			}
			p, ok := strip(c.Arg(1)).isStr()
			if !ok || strings.Trim(p, "*0123456789") == "" {
				rep("D01", "temporary", what, c.Pos(), st, "the temporary file may have a name that stands for a key: %v", c.Arg(1))
			}
		case c.Name == "os.OpenFile" || c.Name == "os.Create" || c.Name == "os.WriteFile" || c.Name == "io/ioutil.WriteFile":
			ob("D01", "temporary", what)
			n := d.inDir(st, c.Arg(0))
			if n == nil || d.name(n, key) || c.Name == "os.WriteFile" || c.Name == "io/ioutil.WriteFile" {
				rep("D01", "temporary", what, c.Pos(), st, "a file other than a temporary one is written: %v", c.Arg(0))
				return
			}
			st.AddG("tmp", in.mk(Term{K: KTuple, Args: []*Term{c.R(0), c.R(1), strip(c.Arg(0))}}))
		case c.Name == "(*os.File).Sync":
			f := c.Arg(0)
			if isTmp(st, f) {
				set("synced", st, f, c.Err())
				return
			}
			if d.of(f, d.dir) || holdsOpened(st, f) {
				ob("D01", "directory", what)
				for _, t := range st.G("renamed") {
					if st.isNil(t.Args[2]) {
						st.SetG("dirsync", c.Err())
					}
				}
				st.AddG("step", c.Err())
			}
		case c.Name == "os.Open":
			if d.of(c.Arg(0), d.path) {
				st.AddG("opened", c.R(0))
			}
		case c.Name == "(*os.File).Close":
			if isTmp(st, c.Arg(0)) && is("closed", st, c.Arg(0)) == nil {
				set("closed", st, c.Arg(0), c.Err())
			}
		case c.Name == "(*os.File).Truncate" || c.Name == "(*os.File).WriteAt" || c.Name == "(*os.File).Seek":
			if isTmp(st, c.Arg(0)) {
				rep("D05", "codec", what, c.Pos(), st, "the file is changed other than by writing the value")
			}
		case c.Name == "os.Rename" || c.Name == "os.Link":
			ob("D01", "durable", what)
			f := named(st, c.Arg(0))
			if f == nil {
				rep("D01", "durable", what, c.Pos(), st, "what is renamed is not the temporary file: %v", c.Arg(0))
				return
			}
			for _, s := range [][2]string{{"wrote", "written"}, {"synced", "synced"}, {"closed", "closed"}} {
				e := is(s[0], st, f)
				if e == nil || !st.isNil(e) {
					rep("D01", "durable", what, c.Pos(), st, "the file is renamed although it may not be %s", s[1])
				}
			}
			ob("D05", "name", what)
			if n := d.inDir(st, c.Arg(1)); n == nil || !d.name(n, key) {
				rep("D05", "name", what, c.Pos(), st, "the final name is not the key in the store's directory: %v", c.Arg(1))
			}
			ob("D02", "stored", what)
			if !heldExclusive(st, d.recv) {
				rep("D02", "stored", what, c.Pos(), st, "the file is put in place without the index lock")
			}
			st.AddG("renamed", in.mk(Term{K: KTuple, Args: []*Term{f, strip(c.Arg(1)), c.Err()}}))
			inside(st, "renamed", c.Err())
			st.AddG("step", c.Err())
		case c.Name == "os.Remove" || c.Name == "os.RemoveAll":
			if f := named(st, c.Arg(0)); f != nil {
				set("removed", st, f, c.Err())
				return
			}
			ob("D02", "stored", what)
			rep("D02", "stored", what, c.Pos(), st, "storing removes another file than its temporary one: %v", c.Arg(0))
		default:
			if f, data := writesFile(c.Name); f >= 0 && len(c.Args) > data && isTmp(st, strip(c.Args[f])) {
				f := strip(c.Args[f])
				ob("D05", "codec", what)
				if is("wrote", st, f) != nil {
					rep("D05", "codec", what, c.Pos(), st, "more than the value is written")
				}
				if e := is("closed", st, f); e != nil {
					rep("D01", "durable", what, c.Pos(), st, "the file is written after it was closed")
				}
				set("wrote", st, f, c.Err())
				for _, t := range st.G("synced") {
					if t.Args[0] == f {
						st.DelG("synced", t)
					}
				}
				d.encoded(x, st, c.Args[data], val, what, c.Pos(), rep)
			}
		}
	}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if i == nil || !d.isIndex(m, i) {
			return
		}
		what := topFn(i.Parent())
		ob("D02", "stored", what)
		if !heldExclusive(st, d.recv) {
			rep("D02", "stored", what, i.Pos(), st, "the index is changed without its lock")
		}
		if v == nil {
			st.ClearG("indexed")
			return
		}
		st.SetG("indexed", mkTok("yes"))
		ob("D01", "published", what)
		var to *Term
		for _, t := range st.G("renamed") {
			if st.isNil(t.Args[2]) {
				to = t.Args[1]
			}
		}
		if to == nil {
			rep("D01", "published", what, i.Pos(), st, "an entry becomes visible although its file may not be in place")
			return
		}
		if s := st.G("dirsync"); len(s) == 0 || !st.isNil(s[0]) {
			rep("D01", "published", what, i.Pos(), st, "an entry becomes visible although the directory may not be synced")
		}
		if len(st.G("in:renamed")) == 0 {
			rep("D02", "stored", what, i.Pos(), st, "the file is put in place and indexed in two critical sections")
		}
		ob("D05", "name", what)
		if !exactKey(k, key) {
			rep("D05", "name", what, i.Pos(), st, "the entry is indexed under another key: %v", k)
		}
		if d.ekey >= 0 && !exactKey(d.field(x, st, v, d.ekey), key) {
			rep("D05", "name", what, i.Pos(), st, "the entry has another key: %v", d.field(x, st, v, d.ekey))
		}
		if p := strip(d.field(x, st, v, d.epath)); p != to {
			rep("D05", "name", what, i.Pos(), st, "the entry has another path than the file: %v", p)
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		d.recv, key, val = args[0], args[2], args[3]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		ob("D01", "outcome", where)
		indexed := len(st.G("indexed")) > 0
		switch {
		case indexed && !st.isNil(o.res):
			rep("D01", "outcome", where, token.NoPos, st, "storing fails although the entry was published: %v", o.res)
		case !indexed && !st.nonNil(o.res):
			rep("D01", "outcome", where, token.NoPos, st, "storing may succeed although the entry was not published: %v", o.res)
		}
		for _, t := range st.G("tmp") {
			if !st.isNil(t.Args[1]) {
				continue
			}
			f := t.Args[0]
			in := false
			for _, n := range st.G("renamed") {
				if n.Args[0] == f && st.isNil(n.Args[2]) {
					in = true
				}
			}
			if !in && is("removed", st, f) == nil {
				rep("D01", "outcome", where, token.NoPos, st, "the temporary file is left behind")
			}
			if is("closed", st, f) == nil {
				rep("D01", "outcome", where, token.NoPos, st, "the temporary file is left open")
			}
		}
	})
}

func holdsOpened(st *State, f *Term) bool { return st.HasG("opened", f) }

// encoded: the bytes b are the value, encoded where compression is on.
func (d *disk) encoded(x *Exec, st *State, b, val *Term, what string, pos token.Pos, rep func(on, rule, what string, pos token.Pos, st *State, f string, args ...any)) {
	plain := allOf(st, b, func(t *Term) bool { return t == val })
	enc := allOf(st, b, func(t *Term) bool {
		return isPureOf(t, "github.com/golang/snappy.Encode") && allOf(st, t.Args[1], func(t *Term) bool { return t == val })
	})
	switch c := d.compressed(st); {
	case !plain && !enc:
		rep("D05", "codec", what, pos, st, "what is written is not the value: %v", b)
	case plain && c != 0:
		rep("D05", "codec", what, pos, st, "the value is written as it is although compression may be on")
	case enc && c != 1:
		rep("D05", "codec", what, pos, st, "the value is encoded although compression may be off")
	}
}

// compressed: 1 compression is on, 0 off, -1 not known.
func (d *disk) compressed(st *State) int {
	for _, v := range st.G("comp") {
		if st.holds(v) {
			return 1
		}
		if st.refuted(v) {
			return 0
		}
	}
	return -1
}

// loading runs Load for the rules of id.
func (d *disk) loading(id string) {
	r := d.r
	fn := d.method("Load")
	if fn == nil {
		return
	}
	where := fnLabel(fn)
	rep := func(on, rule, what string, pos token.Pos, st *State, f string, args ...any) {
		if on == id {
			r.Report(rule, what, pos, st, f, args...)
		}
	}
	ob := func(on, rule, what string) {
		if on == id {
			r.Ob(rule, what)
		}
	}
	var key *Term
	h := &Hooks{}
	h.Load = func(x *Exec, st *State, addr, v *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && addr.Fld == d.compress {
			st.AddG("comp", v)
		}
	}
	held := func(st *State) bool {
		for _, l := range st.locks {
			if sharedFrom(l.lock, d.recv) {
				return true
			}
		}
		return false
	}
	h.MapRead = func(x *Exec, st *State, m, k *Term, i ssa.Instruction) {
		if k == nil || !d.isIndexRead(m, i) {
			return
		}
		what := topFn(i.Parent())
		ob("D02", "loaded", what)
		if !held(st) {
			rep("D02", "loaded", what, i.Pos(), st, "the index is read without its lock")
		}
		ob("D05", "name", what)
		if !exactKey(k, key) {
			rep("D05", "name", what, i.Pos(), st, "another key is looked up: %v", k)
		}
		v, has := x.mapGet(st, m, k, d.entry)
		st.SetG("entry", v, has)
		inside(st, "entry", v)
	}
	path := func(x *Exec, st *State, p *Term, what string, pos token.Pos) {
		ob("D02", "loaded", what)
		ob("D05", "name", what)
		e := st.G("entry")
		if len(e) != 2 || !st.holds(e[1]) {
			rep("D05", "name", what, pos, st, "a file is read although no entry is known to be indexed for the key: %v", p)
			return
		}
		if p := strip(p); p != strip(d.field(x, st, e[0], d.epath)) {
			rep("D05", "name", what, pos, st, "the file read is not the one indexed: %v", p)
		}
		if !held(st) || !st.HasG("in:entry", e[0]) {
			rep("D02", "loaded", what, pos, st, "the file is read outside the critical section it was looked up in")
		}
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		switch {
		case isUnlock(c.Name):
			left(st)
		case c.Name == "os.ReadFile" || c.Name == "io/ioutil.ReadFile":
			path(x, st, c.Arg(0), what, c.Pos())
			st.SetG("read", c.R(0), c.R(1))
		case c.Name == "os.Open":
			path(x, st, c.Arg(0), what, c.Pos())
			st.SetG("handle", c.R(0))
			st.SetG("openerr", c.R(1))
		case c.Name == "io.ReadAll" || c.Name == "io/ioutil.ReadAll":
			if st.HasG("handle", strip(c.Arg(0))) {
				st.SetG("read", c.R(0), c.R(1))
				if !held(st) {
					rep("D02", "loaded", what, c.Pos(), st, "the file is read outside the critical section it was looked up in")
				}
			}
		case c.Name == "github.com/golang/snappy.Decode":
			st.SetG("decoded", c.R(0), c.R(1), c.Arg(1))
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		d.recv, key = args[0], args[2]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		ob("D05", "codec", where)
		v, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		e, rd, dec := st.G("entry"), st.G("read"), st.G("decoded")
		fail := func(f string, args ...any) { rep("D05", "codec", where, token.NoPos, st, f, args...) }
		if oe := st.G("openerr"); len(oe) > 0 && st.nonNil(oe[0]) {
			if !st.nonNil(err) {
				fail("a file that cannot be read is no error")
			}
			return
		}
		switch {
		case len(e) != 2:
			fail("nothing was looked up")
		case len(rd) == 0:
			if !st.refuted(e[1]) {
				fail("nothing was read although an entry may be indexed")
			}
			if !st.isNil(v) || !st.isNil(err) {
				fail("there is no entry, and what is returned is not nothing: %v, %v", v, err)
			}
		case !st.isNil(rd[1]):
			if !st.nonNil(err) {
				fail("a failed read is no error: %v", err)
			}
			if !st.isNil(v) {
				fail("a failed read gives a value: %v", v)
			}
		case st.isNil(rd[0]):
			// nothing read
			if !st.isNil(err) || !st.isNil(v) {
				fail("nothing was read, and what is returned is not nothing: %v, %v", v, err)
			}
		case len(dec) == 0:
			if d.compressed(st) != 0 {
				fail("the bytes are returned as they are although compression may be on")
			}
			if v != rd[0] || !st.isNil(err) {
				fail("what is returned is not what was read: %v, %v", v, err)
			}
		default:
			if d.compressed(st) != 1 {
				fail("the bytes are decoded although compression may be off")
			}
			if strip(dec[2]) != rd[0] {
				fail("something else than what was read is decoded: %v", dec[2])
			}
			switch {
			case st.isNil(dec[1]):
				if v != dec[0] || !st.isNil(err) {
					fail("what is returned is not what was decoded: %v, %v", v, err)
				}
			case st.nonNil(dec[1]):
				if !st.nonNil(err) {
					fail("a failed decode is no error: %v", err)
				}
				if v != dec[0] && !st.isNil(v) {
					fail("a failed decode gives a value: %v", v)
				}
			default:
				if v != dec[0] || err != dec[1] {
					fail("whether decoding failed is not established: %v, %v", v, err)
				}
			}
		}
	})
}

func (d *disk) isIndexRead(m *Term, i ssa.Instruction) bool {
	var t types.Type
	switch i := i.(type) {
	case *ssa.Lookup:
		t = i.X.Type()
	case *ssa.Next:
		if r, ok := i.Iter.(*ssa.Range); ok {
			t = r.X.Type()
		}
	case *ssa.Range:
		t = i.X.Type()
	case *ssa.Call:
		if len(i.Call.Args) > 0 {
			t = i.Call.Args[0].Type()
		}
	}
	if t == nil {
		return d.isIndex(m, i)
	}
	mt, ok := t.Underlying().(*types.Map)
	return ok && namedOf(mt.Elem()) == d.entry
}

func checkD01(r *Result) {
	d := newDisk(r)
	if d == nil {
		return
	}
	d.storing("D01")
	r.Need("temporary", 1)
	r.Need("durable", 1)
	r.Need("directory", 1)
	r.Need("published", 1)
	r.Need("outcome", 1)
}

func checkD02(r *Result) {
	d := newDisk(r)
	if d == nil {
		return
	}
	d.storing("D02")
	d.loading("D02")
	d.sweeping("D02")
	r.Need("stored", 2)
	r.Need("loaded", 2)
	r.Need("swept", 1)
}

func checkD05(r *Result) {
	d := newDisk(r)
	if d == nil {
		return
	}
	d.storing("D05")
	d.loading("D05")
	d.warming("D05")
	r.Need("codec", 2)
	r.Need("name", 3)
}
