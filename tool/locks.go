package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G01", "lockset analysis over every operation and goroutine of the library: for each field, package variable and captured variable that is written after construction, one lock is held at every access, exclusively at every write (sync.Once counts as the lock of what its function writes); values of types that are not safe for concurrent use count as written by methods that write through their receiver", checkG01)
	register("G02", "lock typestate over every operation and goroutine of the library: on every path each lock taken is released before the operation returns, only held locks are released and in the mode they were taken, no lock is taken again while held, locks are taken in one order, and while a lock is held nothing blocks on a channel, wait group, limiter, timer, the network or an interface the caller implements (a condition's own lock excepted)", checkG02)
}

// ---- abstract values ---------------------------------------------------------

// A place is where a value is kept, or what an address or pointer leads to:
// a field of a library type (named by type and field), a package variable, or
// a variable of a function. Places of one type are not told apart by instance.
type place struct {
	key   string
	alloc ssa.Value // the allocation it is part of, if it is known
	owner *types.Named
	typ   types.Type // the type of what is kept there
}

type closure struct {
	fn   *ssa.Function
	bind []*place
	fns  []*closure // for the bindings that are functions
}

// env gives meaning to the parameters and captured variables of a function.
type env struct {
	places map[ssa.Value]*place
	funcs  map[ssa.Value]*closure
	key    string
}

const (
	shared    = 1
	exclusive = 2
)

type lstate struct {
	must, may map[string]int
	published map[ssa.Value]bool
	defers    map[*ssa.Defer]bool // present: may have run; true: has run on every path
	dead      bool
}

func newLState() *lstate {
	return &lstate{must: map[string]int{}, may: map[string]int{}, published: map[ssa.Value]bool{}, defers: map[*ssa.Defer]bool{}}
}

func (s *lstate) clone() *lstate {
	c := newLState()
	for k, v := range s.must {
		c.must[k] = v
	}
	for k, v := range s.may {
		c.may[k] = v
	}
	for k := range s.published {
		c.published[k] = true
	}
	for k, v := range s.defers {
		c.defers[k] = v
	}
	c.dead = s.dead
	return c
}

// join merges o into s and says whether s changed.
func (s *lstate) join(o *lstate) bool {
	ch := false
	for k, v := range s.must {
		if w := o.must[k]; w < v {
			ch = true
			if w == 0 {
				delete(s.must, k)
			} else {
				s.must[k] = w
			}
		}
	}
	for k, v := range o.may {
		if s.may[k] < v {
			s.may[k] = v
			ch = true
		}
	}
	for k := range o.published {
		if !s.published[k] {
			s.published[k] = true
			ch = true
		}
	}
	for k, v := range o.defers {
		if w, ok := s.defers[k]; !ok {
			s.defers[k] = false
			ch = true
		} else if w && !v {
			s.defers[k] = false
			ch = true
		}
	}
	for k, w := range s.defers {
		if _, ok := o.defers[k]; !ok && w {
			s.defers[k] = false
			ch = true
		}
	}
	return ch
}

func (s *lstate) String() string {
	var out []string
	for k, v := range s.must {
		out = append(out, fmt.Sprintf("m%s=%d", k, v))
	}
	for k, v := range s.may {
		out = append(out, fmt.Sprintf("y%s=%d", k, v))
	}
	for k := range s.published {
		out = append(out, fmt.Sprintf("p%d", k.Pos()))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

// locks held, without the pseudo locks of sync.Once.
func (s *lstate) held() []string {
	var out []string
	for k := range s.may {
		if !strings.HasPrefix(k, "once:") && !strings.HasPrefix(k, "atomic:") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// ---- the analysis --------------------------------------------------------------

type access struct {
	place  *place
	write  bool
	locks  map[string]int
	pos    token.Pos
	fn     *ssa.Function
	thread string // the spawn it happens in; "" for operations
	multi  bool   // several of that thread may run at once
}

type lockAnalysis struct {
	r        *Result
	P        *Prog
	shared   map[*types.Named]bool
	accesses []*access
	order    map[string]map[string]token.Pos
	alias    map[string]string
	memo     map[string]*lstate
	active   map[string]bool
	thread   string
	multi    bool
	started  ssa.Instruction // what started the goroutine being analysed
	spawned  map[string]bool
	pending  []func()
	called   map[*ssa.Function]bool // analysed in some context
	optFresh map[*types.Named]bool  // function types called only to construct
	g01, g02 bool
	writes   map[*ssa.Function]map[int]bool
	fns      map[*ssa.Function]bool
}

func newLockAnalysis(r *Result) *lockAnalysis {
	a := &lockAnalysis{r: r, P: r.P, shared: map[*types.Named]bool{}, order: map[string]map[string]token.Pos{}, memo: map[string]*lstate{}, active: map[string]bool{}, spawned: map[string]bool{}, called: map[*ssa.Function]bool{}, optFresh: map[*types.Named]bool{}, writes: map[*ssa.Function]map[int]bool{}, fns: map[*ssa.Function]bool{}}
	a.g01 = r.ID == "G01"
	a.g02 = r.ID == "G02"
	a.findShared()
	a.findAliases()
	return a
}

// findAliases: one lock may be kept in several places, such as in a field and
// in a condition.
func (a *lockAnalysis) findAliases() {
	a.alias = map[string]string{}
	e := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
	link := func(x, y string) {
		x, y = a.canonical(x), a.canonical(y)
		if x == y {
			return
		}
		if strings.HasPrefix(y, "var:") || !strings.HasPrefix(x, "var:") && y < x {
			x, y = y, x
		}
		a.alias[x] = y
	}
	for _, fn := range a.P.Funcs {
		if !inScope(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if _, ok := s.Addr.(*ssa.FieldAddr); !ok {
					continue
				}
				ts := types.TypeString(s.Val.Type(), nil)
				if ts != "*sync.Cond" && ts != "*sync.Mutex" && ts != "*sync.RWMutex" && ts != "sync.Locker" {
					continue
				}
				to := a.at(s.Addr, e)
				if to == nil {
					continue
				}
				if c, ok := s.Val.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.String() == "sync.NewCond" {
						if l := a.at(c.Call.Args[0], e); l != nil {
							link(to.key+"*.L*", l.key)
						}
					}
					continue
				}
				if l := a.at(s.Val, e); l != nil {
					link(to.key+"*", l.key)
				}
			}
		}
	}
}

// canonical is the one name of a lock.
func (a *lockAnalysis) canonical(k string) string {
	for n := 0; n < 6; n++ {
		done := true
		for from, to := range a.alias {
			if k == from || strings.HasPrefix(k, from+".") || strings.HasPrefix(k, from+"*") {
				k = to + k[len(from):]
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	return k
}

// inScope: the function is part of what the library offers.
func inScope(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return inRepoPkg(p) && !strings.HasSuffix(p, "/anttest") && !strings.Contains(p, "/_examples")
}

// findShared collects the types of the objects that several goroutines use:
// what implements the library's interfaces, what it documents as such, and
// what these are made of.
func (a *lockAnalysis) findShared() {
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
			return
		case *types.Slice:
			add(u.Elem())
			return
		case *types.Array:
			add(u.Elem())
			return
		case *types.Map:
			add(u.Elem())
			return
		case *types.Chan:
			add(u.Elem())
			return
		case *types.Alias:
			add(types.Unalias(u))
			return
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !inRepoPkg(n.Obj().Pkg().Path()) || a.shared[n] {
			return
		}
		if it, ok := n.Underlying().(*types.Interface); ok {
			if !n.Obj().Exported() {
				for _, T := range a.P.Implementers(it) {
					add(T)
				}
			}
			return
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		a.shared[n] = true
		for i := 0; i < s.NumFields(); i++ {
			add(s.Field(i).Type())
		}
	}
	for path, p := range a.P.TPkgs {
		if strings.HasSuffix(path, "/anttest") || strings.Contains(path, "/_examples") {
			continue
		}
		for _, name := range p.Scope().Names() {
			switch o := p.Scope().Lookup(name).(type) {
			case *types.TypeName:
				if it, ok := o.Type().Underlying().(*types.Interface); ok && o.Exported() && it.NumMethods() > 0 {
					for _, T := range a.P.Implementers(it) {
						add(T)
					}
				}
			case *types.Var:
				add(o.Type())
			}
		}
	}
	for _, n := range [][2]string{{pAnt, "Engine"}, {pAnt, "Fetcher"}, {pCache, "Cache"}, {pCache, "Diskstore"}, {pCDP, "Client"}, {pRobots, "Cache"}, {pScan, "Scanner"}} {
		if t := a.P.Named(n[0], n[1]); t != nil {
			add(t)
		} else {
			a.r.Missing(n[0] + "." + n[1])
		}
	}
	// a type with a lock of its own is meant to be shared
	for path, p := range a.P.TPkgs {
		if strings.HasSuffix(path, "/anttest") || strings.Contains(path, "/_examples") {
			continue
		}
		for _, name := range p.Scope().Names() {
			o, ok := p.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					t := s.Field(i).Type()
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
					if ts := types.TypeString(t, nil); ts == "sync.Mutex" || ts == "sync.RWMutex" {
						add(o.Type())
					}
				}
			}
		}
	}
}

func (a *lockAnalysis) placeKey(t types.Type) *types.Named {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !inRepoPkg(n.Obj().Pkg().Path()) {
		return nil
	}
	return n
}

// at is the place v points to (for addresses and pointers), or that v is the
// contents of.
func (a *lockAnalysis) at(v ssa.Value, e *env) *place { return a.at1(v, e, 0) }

func (a *lockAnalysis) at1(v ssa.Value, e *env, depth int) *place {
	if depth > 40 {
		return nil
	}
	if p, ok := e.places[v]; ok {
		return p
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return &place{key: "var:" + a.P.Pos(v.Pos()) + ":" + v.Comment, alloc: v, typ: mustPtr(v.Type())}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return &place{key: "made:" + a.P.Pos(v.Pos()), alloc: v, typ: v.Type()}
	case *ssa.Global:
		if v.Pkg == nil || !inRepoPkg(v.Pkg.Pkg.Path()) {
			return nil
		}
		return &place{key: "global:" + v.String(), typ: mustPtr(v.Type())}
	case *ssa.FieldAddr:
		b := a.at1(v.X, e, depth+1)
		f := structField(v.X.Type(), v.Field)
		if n := a.placeKey(v.X.Type()); n != nil {
			p := &place{key: n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f.Name(), owner: n, typ: f.Type()}
			if b != nil {
				p.alloc = b.alloc
				if !a.shared[n] {
					p.key = b.key + "." + f.Name()
					p.owner = b.owner
				}
			}
			return p
		}
		if b == nil {
			return nil
		}
		return &place{key: b.key + "." + f.Name(), alloc: b.alloc, owner: b.owner, typ: f.Type()}
	case *ssa.IndexAddr:
		return a.elems(a.at1(v.X, e, depth+1), v.X.Type())
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			// a variable that is set once is what it was set to
			if s := onlyStore(al); s != nil {
				return a.at1(s, e, depth+1)
			}
		}
		b := a.at1(v.X, e, depth+1)
		if b == nil {
			return nil
		}
		return &place{key: b.key + "*", alloc: b.alloc, owner: b.owner, typ: v.Type()}
	case *ssa.Slice:
		return a.at1(v.X, e, depth+1)
	case *ssa.ChangeType:
		return a.at1(v.X, e, depth+1)
	case *ssa.MakeInterface:
		return a.at1(v.X, e, depth+1)
	case *ssa.ChangeInterface:
		return a.at1(v.X, e, depth+1)
	case *ssa.TypeAssert:
		return a.at1(v.X, e, depth+1)
	case *ssa.Phi:
		var p *place
		for _, x := range v.Edges {
			if x == v {
				continue
			}
			q := a.at1(x, e, depth+8)
			if q == nil {
				continue
			}
			if p != nil && p.key != q.key {
				if strings.HasPrefix(q.key, "made:") {
					continue
				}
				if !strings.HasPrefix(p.key, "made:") {
					return nil
				}
			}
			p = q
		}
		return p
	case *ssa.Call:
		if fn := v.Call.StaticCallee(); fn != nil && inScope(fn) && len(fn.Blocks) > 0 {
			if fr := returnsFresh(fn, 0); fr {
				return &place{key: "made:" + a.P.Pos(v.Pos()), alloc: v, typ: v.Type()}
			}
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.at1(v.Call.Args[0], e, depth+1)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && inScope(fn) && len(fn.Blocks) > 0 && returnsFresh(fn, v.Index) {
				return &place{key: "made:" + a.P.Pos(c.Pos()), alloc: c, typ: v.Type()}
			}
		}
	}
	return nil
}

func mustPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// elems: the elements of a list kept in p.
func (a *lockAnalysis) elems(p *place, t types.Type) *place {
	if p == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok { // an array
		_ = pt
		return &place{key: p.key, alloc: p.alloc, owner: p.owner}
	}
	return &place{key: p.key, alloc: p.alloc, owner: p.owner}
}

// onlyStore: the variable is set once, before anybody else sees it.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, ref := range *al.Referrers() {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr == al {
				if val != nil {
					return nil
				}
				val = i.Val
			} else {
				return nil
			}
		case *ssa.MakeClosure:
			// set by the closure?
			for j, b := range i.Bindings {
				if b == al && storesTo(i.Fn.(*ssa.Function), i.Fn.(*ssa.Function).FreeVars[j]) {
					return nil
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
		default:
			return nil
		}
	}
	return val
}

func storesTo(fn *ssa.Function, v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for j, b := range i.Bindings {
				if b == v && storesTo(f, f.FreeVars[j]) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
		default:
			return true
		}
	}
	return false
}

var freshMemo = map[*ssa.Function]map[int]int{}

// returnsFresh: result i of fn is an object fn made, or nil.
func returnsFresh(fn *ssa.Function, i int) bool {
	m := freshMemo[fn]
	if m == nil {
		m = map[int]int{}
		freshMemo[fn] = m
	}
	if v, ok := m[i]; ok {
		return v == 1
	}
	m[i] = 0
	ok, some := true, false
	for _, b := range fn.Blocks {
		ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || i >= len(ret.Results) {
			continue
		}
		var fresh func(v ssa.Value, n int) bool
		fresh = func(v ssa.Value, n int) bool {
			if n > 10 {
				return false
			}
			switch v := v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				some = true
				return true
			case *ssa.Const:
				return v.IsNil()
			case *ssa.MakeInterface:
				return fresh(v.X, n+1)
			case *ssa.ChangeType:
				return fresh(v.X, n+1)
			case *ssa.Phi:
				for _, e := range v.Edges {
					if e != v && !fresh(e, n+1) {
						return false
					}
				}
				return true
			case *ssa.UnOp:
				if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
					if s := onlyStore(al); s != nil {
						return fresh(s, n+1)
					}
				}
			case *ssa.Call:
				if g := v.Call.StaticCallee(); g != nil && inScope(g) && len(g.Blocks) > 0 {
					if returnsFresh(g, 0) {
						some = true
						return true
					}
				}
			}
			return false
		}
		ok = ok && fresh(ret.Results[i], 0)
	}
	if ok && some {
		// no goroutine was given it
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, isGo := in.(*ssa.Go); isGo {
					ok = false
				}
			}
		}
	}
	if ok && some {
		m[i] = 1
	}
	return m[i] == 1
}

// funcOf is the function v is, with its captured variables.
func (a *lockAnalysis) funcOf(v ssa.Value, e *env) *closure { return a.funcOf1(v, e, 0) }

func (a *lockAnalysis) funcOf1(v ssa.Value, e *env, depth int) *closure {
	if depth > 20 {
		return nil
	}
	if c, ok := e.funcs[v]; ok {
		return c
	}
	switch v := v.(type) {
	case *ssa.Function:
		return &closure{fn: v}
	case *ssa.MakeClosure:
		c := &closure{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			c.bind = append(c.bind, a.at(b, e))
			c.fns = append(c.fns, a.funcOf1(b, e, depth+1))
		}
		return c
	case *ssa.ChangeType:
		return a.funcOf1(v.X, e, depth+1)
	case *ssa.MakeInterface:
		return a.funcOf1(v.X, e, depth+1)
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if s := onlyStore(al); s != nil {
				return a.funcOf1(s, e, depth+1)
			}
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok && v.Op == token.MUL {
			if c, ok := e.funcs[fv]; ok {
				return c
			}
		}
		if v.Op == token.MUL {
			// a field that only ever holds one function
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return a.fieldFunc(structField(fa.X.Type(), fa.Field))
			}
		}
	case *ssa.Alloc:
		if s := onlyStore(v); s != nil {
			return a.funcOf1(s, e, depth+1)
		}
	case *ssa.Call:
		// what a helper returns, such as the function that unlocks
		g := v.Call.StaticCallee()
		if g == nil || !inScope(g) || len(g.Blocks) == 0 {
			return nil
		}
		ge := a.bindCall(g, v.Common(), e, nil)
		var out *closure
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				c := a.funcOf1(ret.Results[0], ge, depth+1)
				if c == nil || out != nil && out.fn != c.fn {
					return nil
				}
				out = c
			}
		}
		return out
	}
	return nil
}

func (a *lockAnalysis) fieldFunc(f *types.Var) *closure {
	var out *closure
	if f == nil || f.Pkg() == nil || !inRepoPkg(f.Pkg().Path()) {
		return nil
	}
	for _, fn := range a.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || structField(fa.X.Type(), fa.Field) != f {
					continue
				}
				g, ok := s.Val.(*ssa.Function)
				if !ok || out != nil && out.fn != g {
					return nil
				}
				out = &closure{fn: g}
			}
		}
	}
	return out
}

func (a *lockAnalysis) bindCall(g *ssa.Function, c *ssa.CallCommon, e *env, cl *closure) *env {
	ne := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	args = append(args, c.Args...)
	var key []string
	for i, p := range g.Params {
		if i >= len(args) {
			break
		}
		if q := a.at(args[i], e); q != nil {
			ne.places[p] = q
			key = append(key, fmt.Sprintf("%d=%s/%v", i, q.key, q.alloc != nil))
		}
		if f := a.funcOf(args[i], e); f != nil {
			ne.funcs[p] = f
			key = append(key, fmt.Sprintf("%d=%s", i, f.fn))
		}
	}
	a.bindFree(g, ne, cl, &key)
	ne.key = strings.Join(key, ",")
	return ne
}

func (a *lockAnalysis) bindFree(g *ssa.Function, ne *env, cl *closure, key *[]string) {
	if cl == nil {
		return
	}
	for i, fv := range g.FreeVars {
		if i < len(cl.bind) && cl.bind[i] != nil {
			ne.places[fv] = cl.bind[i]
			*key = append(*key, fmt.Sprintf("f%d=%s/%v", i, cl.bind[i].key, cl.bind[i].alloc != nil))
		}
		if i < len(cl.fns) && cl.fns[i] != nil {
			ne.funcs[fv] = cl.fns[i]
			*key = append(*key, fmt.Sprintf("f%d=%s", i, cl.fns[i].fn))
		}
	}
}

// run analyses fn from the given state and returns the state it returns in.
func (a *lockAnalysis) run(fn *ssa.Function, e *env, entry *lstate, rec bool) *lstate {
	if len(fn.Blocks) == 0 {
		return entry
	}
	a.called[fn] = true
	if inScope(fn) {
		a.fns[fn] = true
	}
	entry = entry.clone()
	outer := entry.defers
	entry.defers = map[*ssa.Defer]bool{}
	id := fmt.Sprintf("%s|%s|%s|%s|%v", fn, e.key, entry, a.thread, rec)
	if s, ok := a.memo[id]; ok {
		if s == nil {
			return &lstate{dead: true}
		}
		s = s.clone()
		s.defers = outer
		return s
	}
	if a.active[id] || len(a.active) > 60 {
		s := entry
		s.defers = outer
		return s
	}
	a.active[id] = true
	states := map[*ssa.BasicBlock]*lstate{fn.Blocks[0]: entry.clone()}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := states[b].clone()
		a.block(b, st, e, false)
		if st.dead {
			continue
		}
		for _, s := range b.Succs {
			if old := states[s]; old == nil {
				states[s] = st.clone()
				work = append(work, s)
			} else if old.join(st) {
				work = append(work, s)
			}
		}
	}
	var out *lstate
	for _, b := range fn.Blocks {
		st := states[b]
		if st == nil {
			continue
		}
		st = st.clone()
		a.block(b, st, e, rec)
		if st.dead {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if out == nil {
				out = st
			} else {
				out.join(st)
			}
		}
	}
	delete(a.active, id)
	if out != nil {
		out = out.clone()
		out.defers = nil
	}
	a.memo[id] = out
	if out == nil {
		return &lstate{dead: true}
	}
	s := out.clone()
	s.defers = outer
	return s
}

func (a *lockAnalysis) report(on bool, rule, what string, pos token.Pos, f string, args ...any) {
	if on {
		a.r.Report(rule, what, pos, nil, f, args...)
	}
}

func (a *lockAnalysis) block(b *ssa.BasicBlock, st *lstate, e *env, rec bool) {
	fn := b.Parent()
	what := topFn(fn)
	for _, i := range b.Instrs {
		if st.dead {
			return
		}
		switch i.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Call:
			// what it makes is new
			delete(st.published, i.(ssa.Value))
		}
		switch i := i.(type) {
		case *ssa.Store:
			a.access(a.at(i.Addr, e), true, st, i, rec)
			if p := a.at(i.Val, e); p != nil && p.alloc != nil {
				// kept in something that others may see
				if q := a.at(i.Addr, e); q != nil && (q.alloc == nil || st.published[q.alloc]) {
					st.published[p.alloc] = true
				}
			}
		case *ssa.UnOp:
			switch i.Op {
			case token.MUL:
				a.access(a.at(i.X, e), false, st, i, rec)
			case token.ARROW:
				a.blocks("a channel receive", i, st, rec)
				a.joined(st)
			}
		case *ssa.Send:
			a.blocks("a channel send", i, st, rec)
			if p := a.at(i.X, e); p != nil && p.alloc != nil {
				st.published[p.alloc] = true
			}
		case *ssa.Select:
			if i.Blocking {
				a.blocks("a select", i, st, rec)
				a.joined(st)
			}
		case *ssa.MapUpdate:
			a.access(a.content(i.Map, e), true, st, i, rec)
		case *ssa.Lookup:
			a.access(a.content(i.X, e), false, st, i, rec)
		case *ssa.Range:
			a.access(a.content(i.X, e), false, st, i, rec)
		case *ssa.Next:
			if rg, ok := i.Iter.(*ssa.Range); ok && !i.IsString {
				a.access(a.content(rg.X, e), false, st, i, rec)
			}
		case *ssa.Defer:
			st.defers[i] = true
		case *ssa.RunDefers:
			var ds []*ssa.Defer
			for d := range st.defers {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(x, y int) bool { return ds[x].Pos() > ds[y].Pos() })
			for _, d := range ds {
				sure := st.defers[d]
				if sure {
					a.call(d, d.Common(), st, e, rec)
					continue
				}
				q := st.clone()
				a.call(d, d.Common(), q, e, rec)
				st.join(q)
			}
			st.defers = map[*ssa.Defer]bool{}
		case *ssa.Go:
			a.spawn(i, i.Common(), i.Common().Value, i.Common().Args, st, e, rec)
		case *ssa.Call:
			a.call(i, i.Common(), st, e, rec)
		case *ssa.Panic:
			st.dead = true
		case *ssa.Return:
			_ = what
		}
	}
}

// content: the elements of the map or list v.
func (a *lockAnalysis) content(v ssa.Value, e *env) *place {
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return nil
	}
	return a.at(v, e)
}

func (a *lockAnalysis) joined(st *lstate) {
	for k := range st.published {
		delete(st.published, k)
	}
}

func (a *lockAnalysis) access(p *place, write bool, st *lstate, i ssa.Instruction, rec bool) {
	if p == nil || !rec {
		return
	}
	if p.alloc != nil && !st.published[p.alloc] && !a.foreign(p.alloc, i) {
		return
	}
	a.accesses = append(a.accesses, &access{place: p, write: write, locks: cloneLocks(st.must), pos: i.Pos(), fn: i.Parent(), thread: a.thread, multi: a.multi && !a.perTurn(p.alloc)})
}

// foreign: within a goroutine, the variables of who started it.
func (a *lockAnalysis) foreign(al ssa.Value, i ssa.Instruction) bool {
	return a.thread != "" && a.spawned[a.thread+"|"+a.P.Pos(al.Pos())]
}

func cloneLocks(m map[string]int) map[string]int {
	c := map[string]int{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (a *lockAnalysis) blocks(what string, i ssa.Instruction, st *lstate, rec bool) {
	if !rec {
		return
	}
	if a.g02 {
		a.r.Ob("waits", topFn(i.Parent())+": "+what)
	}
	if h := st.held(); len(h) > 0 {
		a.report(a.g02, "waits", topFn(i.Parent()), i.Pos(), "%s while %s is held", what, shortLock(h[0]))
	}
}

func shortLock(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	return strings.ReplaceAll(k, "*", "")
}

func (a *lockAnalysis) acquire(key string, mode int, st *lstate, i ssa.Instruction, rec bool) {
	key = a.canonical(key)
	what := topFn(i.Parent())
	if rec {
		if a.g02 {
			a.r.Ob("lock", what+": "+shortLock(key))
		}
		if st.may[key] != 0 {
			a.report(a.g02, "twice", what, i.Pos(), "%s is taken while it may be held already", shortLock(key))
		}
		for _, h := range st.held() {
			if h == key {
				continue
			}
			if a.order[h] == nil {
				a.order[h] = map[string]token.Pos{}
			}
			if _, ok := a.order[h][key]; !ok {
				a.order[h][key] = i.Pos()
			}
		}
	}
	st.must[key] = mode
	st.may[key] = max(st.may[key], mode)
}

func (a *lockAnalysis) release(key string, mode int, st *lstate, i ssa.Instruction, rec bool) {
	key = a.canonical(key)
	what := topFn(i.Parent())
	if rec {
		if a.g02 {
			a.r.Ob("unlock", what+": "+shortLock(key))
		}
		switch {
		case st.may[key] == 0:
			if !a.tries(key) {
				a.report(a.g02, "unlock", what, i.Pos(), "%s is released but not held", shortLock(key))
			}
		case st.must[key] != 0 && st.must[key] != mode:
			a.report(a.g02, "unlock", what, i.Pos(), "%s is released in another mode than it was taken in", shortLock(key))
		}
	}
	delete(st.must, key)
	delete(st.may, key)
}

func (a *lockAnalysis) tries(key string) bool { return a.spawned["try|"+key] }

// spawn analyses a goroutine.
func (a *lockAnalysis) spawn(i ssa.Instruction, c *ssa.CallCommon, callee ssa.Value, args []ssa.Value, st *lstate, e *env, rec bool) {
	cl := a.funcOf(callee, e)
	if c != nil && c.IsInvoke() {
		cl = nil
	}
	publish := func(v ssa.Value) {
		if p := a.at(v, e); p != nil && p.alloc != nil {
			st.published[p.alloc] = true
		}
	}
	for _, v := range args {
		publish(v)
	}
	if mc, ok := callee.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			publish(b)
			// and what it holds
			if al, ok := b.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					publish(s)
				}
			}
		}
	}
	if cl == nil || !rec || !inScope(cl.fn) {
		return
	}
	ne := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
	var key []string
	for j, p := range cl.fn.Params {
		if j < len(args) {
			if q := a.at(args[j], e); q != nil {
				ne.places[p] = q
				key = append(key, fmt.Sprintf("%d=%s/%v", j, q.key, q.alloc != nil))
			}
		}
	}
	a.bindFree(cl.fn, ne, cl, &key)
	ne.key = strings.Join(key, ",")
	old := a.started
	a.started = i
	a.thread1(a.P.Pos(i.Pos()), a.many(i), cl.fn, ne)
	a.started = old
}

// perTurn: each goroutine started has its own variable.
func (a *lockAnalysis) perTurn(al ssa.Value) bool {
	in, ok := al.(ssa.Instruction)
	if !ok || a.started == nil || in.Parent() != a.started.Parent() {
		return false
	}
	for _, body := range a.P.info(in.Parent()).headers {
		if body[a.started.Block()] && !body[in.Block()] {
			return false
		}
	}
	return true
}

// many: the goroutine may be started more than once for a variable.
func (a *lockAnalysis) many(i ssa.Instruction) bool {
	for h, body := range a.P.info(i.Parent()).headers {
		_ = h
		if body[i.Block()] {
			return true
		}
	}
	return false
}

func (a *lockAnalysis) thread1(name string, multi bool, fn *ssa.Function, ne *env) {
	t, m := a.thread, a.multi
	a.thread, a.multi = "go "+name, multi
	st := newLState()
	for _, q := range ne.places {
		if q.alloc != nil {
			a.spawned[a.thread+"|"+a.P.Pos(q.alloc.Pos())] = true
			st.published[q.alloc] = true
		}
	}
	out := a.run(fn, ne, st, true)
	a.exit(fn, out)
	a.thread, a.multi = t, m
}

// exit: nothing is held when an operation or goroutine ends.
func (a *lockAnalysis) exit(fn *ssa.Function, out *lstate) {
	if a.g02 {
		a.r.Ob("released", fnLabel(fn))
	}
	if out == nil || out.dead {
		return
	}
	for _, h := range out.held() {
		a.report(a.g02, "released", fnLabel(fn), fn.Pos(), "%s may still be held when %s returns", shortLock(h), fnLabel(fn))
	}
}

func (a *lockAnalysis) call(i ssa.CallInstruction, c *ssa.CallCommon, st *lstate, e *env, rec bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(b.Name(), i, c, st, e, rec)
		return
	}
	name := ""
	var recv ssa.Value
	if c.IsInvoke() {
		name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		recv = c.Value
	} else if f := c.StaticCallee(); f != nil {
		name = f.String()
		if f.Signature.Recv() != nil && len(c.Args) > 0 {
			recv = c.Args[0]
		}
		if strings.HasSuffix(name, "$bound") {
			name = strings.TrimSuffix(name, "$bound")
		}
	}
	if a.sync(name, recv, i, c, st, e, rec) {
		return
	}
	// the library's own
	if c.IsInvoke() {
		impls := a.P.internalImpls(c.Value.Type())
		if impls == nil {
			a.external(name, i, c, recv, st, e, rec)
			return
		}
		var out *lstate
		for _, T := range impls {
			m := a.P.Method(T, c.Method.Name())
			if m == nil {
				continue
			}
			s := a.run(m, a.bindCall(m, c, e, nil), st, rec)
			if s.dead {
				continue
			}
			if out == nil {
				out = s
			} else {
				out.join(s)
			}
		}
		if out != nil {
			*st = *out
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cl := a.funcOf(mc, e)
			*st = *a.run(f, a.bindCall(f, c, e, cl), st, rec)
			return
		}
		if inScope(f) && len(f.Blocks) > 0 {
			*st = *a.run(f, a.bindCall(f, c, e, nil), st, rec)
			return
		}
		a.external(name, i, c, recv, st, e, rec)
		return
	}
	// a function value
	if cl := a.funcOf(c.Value, e); cl != nil {
		n := strings.TrimSuffix(cl.fn.String(), "$bound")
		if cl.fn.Synthetic != "" && len(cl.bind) > 0 {
			// a method value
			if a.syncAt(n, cl.bind[0], i, st, rec) {
				return
			}
		}
		if inScope(cl.fn) && len(cl.fn.Blocks) > 0 {
			*st = *a.run(cl.fn, a.bindCall(cl.fn, c, e, cl), st, rec)
			return
		}
		if cl.fn.Synthetic == "" {
			a.external(n, i, c, nil, st, e, rec)
		}
		return
	}
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && inRepoPkg(n.Obj().Pkg().Path()) {
		// an option may write to what it is given
		if len(c.Args) > 0 && rec {
			p := a.at(c.Args[0], e)
			fresh := p != nil && p.alloc != nil && !st.published[p.alloc]
			if old, ok := a.optFresh[n]; ok {
				fresh = fresh && old
			}
			a.optFresh[n] = fresh
			if fresh {
				return
			}
		}
		if n.Obj().Exported() && !strings.HasPrefix(n.Obj().Name(), "Debug") && len(c.Args) > 0 {
			a.blocks("a call of the caller's "+n.Obj().Name(), i, st, rec)
		}
	}
}

func (a *lockAnalysis) builtin(name string, i ssa.CallInstruction, c *ssa.CallCommon, st *lstate, e *env, rec bool) {
	switch name {
	case "delete", "clear":
		a.access(a.at(c.Args[0], e), true, st, i, rec)
	case "copy":
		a.access(a.at(c.Args[0], e), true, st, i, rec)
		a.access(a.at(c.Args[1], e), false, st, i, rec)
	case "len":
		a.access(a.content(c.Args[0], e), false, st, i, rec)
	}
}

// sync: calls of package sync.
func (a *lockAnalysis) sync(name string, recv ssa.Value, i ssa.CallInstruction, c *ssa.CallCommon, st *lstate, e *env, rec bool) bool {
	var p *place
	if recv != nil {
		p = a.at(recv, e)
	}
	switch {
	case strings.HasPrefix(name, "(*sync.Once).Do"):
		key := "once:?"
		if p != nil {
			key = "once:" + p.key
		}
		if cl := a.funcOf(c.Args[1], e); cl != nil && len(cl.fn.Blocks) > 0 {
			q := st.clone()
			q.must[key] = exclusive
			ne := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
			var k []string
			a.bindFree(cl.fn, ne, cl, &k)
			ne.key = strings.Join(k, ",")
			s := a.run(cl.fn, ne, q, rec)
			if !s.dead {
				held := st.must[key]
				st.join(s)
				_ = held
			}
		}
		st.must[key] = shared
		return true
	case strings.HasPrefix(name, "sync/atomic.") && len(c.Args) > 0:
		write := !strings.Contains(name, ".Load")
		if q := a.at(c.Args[0], e); q != nil {
			s := st.clone()
			s.must["atomic:"+q.key] = exclusive
			a.access(q, write, s, i, rec)
		}
		return true
	case (strings.HasSuffix(name, "errgroup.Group).Go") || strings.HasSuffix(name, "errgroup.Group).TryGo") || name == "(*sync.WaitGroup).Go") && len(c.Args) == 2:
		a.spawn(i, nil, c.Args[1], nil, st, e, rec)
		return true
	case name == "time.AfterFunc" && len(c.Args) == 2:
		a.spawn(i, nil, c.Args[1], nil, st, e, rec)
		return true
	case name == "(*sync.Cond).Wait":
		if rec {
			if a.g02 {
				a.r.Ob("waits", topFn(i.Parent())+": cond")
			}
			h := st.held()
			own := ""
			if p != nil {
				own = a.canonical(strings.TrimSuffix(p.key, "*") + "*.L*")
			}
			switch {
			case len(h) == 0:
				a.report(a.g02, "waits", topFn(i.Parent()), i.Pos(), "waiting for the condition without holding its lock")
			case len(h) > 1:
				for _, k := range h {
					if own == "" || k != own {
						a.report(a.g02, "waits", topFn(i.Parent()), i.Pos(), "waiting for a condition while %s is held", shortLock(k))
					}
				}
			}
		}
		return true
	case name == "(*sync.WaitGroup).Wait" || strings.HasSuffix(name, "errgroup.Group).Wait"):
		a.blocks("waiting for goroutines", i, st, rec)
		a.joined(st)
		return true
	}
	if p == nil && recv != nil && (strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(sync.Locker)")) {
		p = &place{key: "value:" + a.P.Pos(recv.Pos())}
	}
	return a.syncAt(name, p, i, st, rec)
}

func (a *lockAnalysis) syncAt(name string, p *place, i ssa.CallInstruction, st *lstate, rec bool) bool {
	if p == nil {
		return false
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		a.acquire(p.key, exclusive, st, i, rec)
	case "(*sync.RWMutex).RLock":
		a.acquire(p.key, shared, st, i, rec)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		a.release(p.key, exclusive, st, i, rec)
	case "(*sync.RWMutex).RUnlock":
		a.release(p.key, shared, st, i, rec)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		a.spawned["try|"+p.key] = true
	default:
		return strings.HasPrefix(name, "(*sync.") && !strings.HasPrefix(name, "(*sync.Map)") || strings.HasPrefix(name, "(*sync/atomic.")
	}
	return true
}

// waiting operations of other packages.
var waiting = []string{
	"(*net/http.Client).", "net/http.Get", "net/http.Post", "net/http.Head",
	"(*golang.org/x/time/rate.Limiter).Wait",
	"(*golang.org/x/sync/semaphore.Weighted).Acquire",
	"time.Sleep", "net.Dial", "(*net.Dialer).",
	"(net/http.RoundTripper).",
	"(*github.com/mafredri/cdp/devtool.DevTools).", "github.com/mafredri/cdp/rpcc.Dial",
}

// external: a call of something outside the library.
func (a *lockAnalysis) external(name string, i ssa.CallInstruction, c *ssa.CallCommon, recv ssa.Value, st *lstate, e *env, rec bool) {
	for _, w := range waiting {
		if strings.HasPrefix(name, w) && !strings.Contains(name, "CloseIdle") {
			a.blocks("a call of "+short(name), i, st, rec)
		}
	}
	if c.IsInvoke() {
		n, ok := types.Unalias(c.Value.Type()).(*types.Named)
		if ok && n.Obj().Pkg() != nil {
			switch {
			case inRepoPkg(n.Obj().Pkg().Path()):
				a.blocks("a call of the caller's "+n.Obj().Name()+"."+c.Method.Name(), i, st, rec)
			case strings.HasPrefix(n.Obj().Pkg().Path(), cdpMod):
				a.blocks("a call of "+short(name), i, st, rec)
			}
		}
	}
	// functions it calls
	for _, v := range c.Args {
		cl := a.funcOf(v, e)
		if cl == nil || !inScope(cl.fn) || len(cl.fn.Blocks) == 0 {
			continue
		}
		ne := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
		var k []string
		a.bindFree(cl.fn, ne, cl, &k)
		ne.key = strings.Join(k, ",")
		s := a.run(cl.fn, ne, st, rec)
		if !s.dead {
			st.join(s)
		}
	}
	if !rec {
		return
	}
	// what it is given
	f := c.StaticCallee()
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for j, v := range args {
		p := a.at(v, e)
		if p == nil {
			continue
		}
		if j == 0 && recv != nil {
			if safeType(v.Type()) {
				continue
			}
			write := false
			if f != nil {
				write = a.writesParam(f, 0, map[*ssa.Function]bool{})
			} else {
				write = unsafeInterface(v.Type())
			}
			if isAddressed(v.Type()) || write {
				a.access(p, write, st, i, rec)
			}
			continue
		}
		if safeType(v.Type()) {
			continue
		}
		switch t := v.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			a.access(p, strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || f != nil && a.writesParam(f, j, map[*ssa.Function]bool{}), st, i, rec)
		case *types.Pointer:
			if f != nil {
				a.access(p, a.writesParam(f, j, map[*ssa.Function]bool{}), st, i, rec)
			} else {
				a.access(p, false, st, i, rec)
			}
		case *types.Interface:
			_ = t
			if unsafeInterface(v.Type()) {
				a.access(p, true, st, i, rec)
			} else if mi, ok := v.(*ssa.MakeInterface); ok {
				switch mi.X.Type().Underlying().(type) {
				case *types.Slice, *types.Map:
					a.access(p, strings.HasPrefix(name, "sort."), st, i, rec)
				case *types.Pointer:
					if f != nil && !safeType(mi.X.Type()) && strings.HasPrefix(name, "encoding/json.") {
						a.access(p, strings.Contains(name, "Unmarshal") || strings.Contains(name, "Decode"), st, i, rec)
					}
				}
			}
		}
	}
}

func isAddressed(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// unsafeInterface: what implements it is not safe for concurrent use as a rule.
func unsafeInterface(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "io.Writer", "io.Reader", "io.ReadWriter", "io.StringWriter", "hash.Hash", "hash.Hash64", "hash.Hash32", "math/rand.Source", "math/rand/v2.Source", "container/heap.Interface", "sort.Interface":
		return true
	}
	return false
}

// safeType: values of the type may be used by several goroutines at once.
func safeType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Chan, *types.Signature, *types.Basic:
		return true
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	if inRepoPkg(n.Obj().Pkg().Path()) {
		return true // judged by its own fields
	}
	switch p := n.Obj().Pkg().Path(); p {
	case "sync", "sync/atomic", "regexp", "context", "reflect", "log", "os", "time":
		return true
	case "net/http":
		return n.Obj().Name() == "Client" || n.Obj().Name() == "Transport"
	default:
		for _, q := range []string{"github.com/segmentio/agecache", "golang.org/x/sync", "golang.org/x/time/rate", "github.com/mafredri/cdp", "github.com/andybalholm/cascadia", "github.com/temoto/robotstxt"} {
			if strings.HasPrefix(p, q) {
				return true
			}
		}
	}
	return false
}

// writesParam: fn may write to what its j'th parameter leads to.
func (a *lockAnalysis) writesParam(fn *ssa.Function, j int, busy map[*ssa.Function]bool) bool {
	if m, ok := a.writes[fn]; ok {
		if v, ok := m[j]; ok {
			return v
		}
	} else {
		a.writes[fn] = map[int]bool{}
	}
	if len(fn.Blocks) == 0 || j >= len(fn.Params) || len(busy) > 12 || busy[fn] {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	from := map[ssa.Value]bool{fn.Params[j]: true}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || from[v] {
					continue
				}
				switch i := i.(type) {
				case *ssa.FieldAddr:
					ok = from[i.X]
				case *ssa.IndexAddr:
					ok = from[i.X]
				case *ssa.UnOp:
					ok = i.Op == token.MUL && from[i.X] && pointerLike(i.Type())
				case *ssa.Slice:
					ok = from[i.X]
				case *ssa.Phi:
					ok = false
					for _, e := range i.Edges {
						ok = ok || from[e]
					}
				case *ssa.ChangeType:
					ok = from[i.X]
				case *ssa.MakeInterface:
					ok = from[i.X]
				default:
					ok = false
				}
				if ok {
					from[v] = true
					ch = true
				}
			}
		}
	}
	w := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				w = w || from[i.Addr]
			case *ssa.MapUpdate:
				w = w || from[i.Map]
			case ssa.CallInstruction:
				c := i.Common()
				if bl, ok := c.Value.(*ssa.Builtin); ok {
					if (bl.Name() == "copy" || bl.Name() == "delete" || bl.Name() == "append") && from[c.Args[0]] {
						w = true
					}
					continue
				}
				if c.IsInvoke() {
					w = w || from[c.Value] && unsafeInterface(c.Value.Type())
					continue
				}
				if g := c.StaticCallee(); g != nil {
					for k, v := range c.Args {
						if from[v] && !safeType(v.Type()) && a.writesParam(g, k, busy) {
							w = true
						}
					}
				}
			}
		}
	}
	a.writes[fn][j] = w
	return w
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	}
	return false
}

// ---- roots ----------------------------------------------------------------------

func (a *lockAnalysis) roots() {
	entry := func(fn *ssa.Function) bool {
		if fn.Parent() != nil || fn.Object() == nil {
			return false
		}
		if fn.Name() == "init" {
			return false
		}
		rv := fn.Signature.Recv()
		if rv == nil {
			return fn.Object().Exported()
		}
		n := namedOf(rv.Type())
		if n == nil {
			return false
		}
		if n.Obj().Exported() {
			return fn.Object().Exported()
		}
		// a method of an interface
		for path, p := range a.P.TPkgs {
			_ = path
			for _, name := range p.Scope().Names() {
				o, ok := p.Scope().Lookup(name).(*types.TypeName)
				if !ok || !o.Exported() {
					continue
				}
				it, ok := o.Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}
				for j := 0; j < it.NumMethods(); j++ {
					if it.Method(j).Name() == fn.Name() && (types.Implements(n, it) || types.Implements(types.NewPointer(n), it)) {
						return true
					}
				}
			}
		}
		return false
	}
	start := func(fn *ssa.Function) {
		out := a.run(fn, &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}, newLState(), true)
		a.exit(fn, out)
	}
	for _, fn := range a.P.Funcs {
		if inScope(fn) && entry(fn) {
			start(fn)
		}
	}
	// functions kept and called by others: several may run at once
	for _, fn := range a.P.Funcs {
		if !inScope(fn) || a.called[fn] || fn.Synthetic != "" || fn.Name() == "init" {
			continue
		}
		if fn.Parent() == nil {
			start(fn)
			continue
		}
		a.closureRoot(fn)
	}
}

// closureRoot: a function made by another and called by somebody else.
func (a *lockAnalysis) closureRoot(fn *ssa.Function) {
	ne := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
	var named *types.Named
	outer := &env{places: map[ssa.Value]*place{}, funcs: map[ssa.Value]*closure{}}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			var ops []*ssa.Value
			for _, op := range i.Operands(ops) {
				mc, ok := (*op).(*ssa.MakeClosure)
				if !(ok && mc.Fn == fn) && *op != ssa.Value(fn) {
					continue
				}
				if ct, ok := i.(*ssa.ChangeType); ok {
					named, _ = types.Unalias(ct.Type()).(*types.Named)
				}
				if ok {
					for j, b := range mc.Bindings {
						ne.places[fn.FreeVars[j]] = a.at(b, outer)
						if c := a.funcOf(b, outer); c != nil {
							ne.funcs[fn.FreeVars[j]] = c
						}
					}
				}
			}
		}
	}
	ne.key = "root"
	st := newLState()
	if named != nil && a.optFresh[named] && len(fn.Params) > 0 {
		// it is only called to construct something
		ne.places[fn.Params[0]] = &place{key: "made:option", alloc: fn.Params[0]}
		a.run(fn, ne, st, true)
		return
	}
	a.started = nil
	a.thread1(a.P.Pos(fn.Pos()), true, fn, ne)
}

// ---- the rules ------------------------------------------------------------------

func checkG01(r *Result) {
	a := newLockAnalysis(r)
	a.roots()
	r.countFns(a)
	by := map[string][]*access{}
	for _, x := range a.accesses {
		if !a.counts(x) {
			continue
		}
		by[x.place.key] = append(by[x.place.key], x)
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a.judge(k, by[k])
	}
	r.Need("guarded", 3)
}

func (r *Result) countFns(a *lockAnalysis) {
	for fn := range a.fns {
		r.Funcs[fn] = true
	}
}

// counts: the place is one several goroutines can get at.
func (a *lockAnalysis) counts(x *access) bool {
	p := x.place
	if strings.HasPrefix(p.key, "global:") {
		return true
	}
	if p.owner != nil && a.shared[p.owner] {
		return true
	}
	return strings.HasPrefix(p.key, "var:") || strings.HasPrefix(p.key, "made:")
}

func (a *lockAnalysis) judge(key string, xs []*access) {
	r := a.r
	local := strings.HasPrefix(key, "var:") || strings.HasPrefix(key, "made:")
	write := false
	threads := map[string]bool{}
	multi := false
	for _, x := range xs {
		write = write || x.write
		threads[x.thread] = true
		multi = multi || x.multi && x.thread != ""
	}
	what := shortLock(key)
	if !write {
		return
	}
	if local && len(threads) < 2 && !multi {
		return
	}
	// the lock: the one most accesses hold
	n := map[string]int{}
	for _, x := range xs {
		for l, m := range x.locks {
			if !x.write || m == exclusive {
				n[l]++
			}
		}
	}
	best := ""
	for l, c := range n {
		if best == "" || c > n[best] || c == n[best] && l < best {
			best = l
		}
	}
	for _, x := range xs {
		r.Ob("guarded", what)
		m := x.locks[best]
		kind := "read"
		if x.write {
			kind = "written"
		}
		switch {
		case best == "":
			if x.write {
				r.Report("guarded", topFn(x.fn)+": "+what, x.pos, nil, "%s is %s without a lock, and may be used by another goroutine at the same time", what, kind)
			}
		case m == 0:
			r.Report("guarded", topFn(x.fn)+": "+what, x.pos, nil, "%s is %s without holding %s", what, kind, shortLock(best))
		case x.write && m != exclusive:
			r.Report("guarded", topFn(x.fn)+": "+what, x.pos, nil, "%s is written while %s is only held shared", what, shortLock(best))
		}
	}
}

func checkG02(r *Result) {
	a := newLockAnalysis(r)
	a.roots()
	r.countFns(a)
	// one order
	for x, m := range a.order {
		for y, pos := range m {
			r.Ob("order", shortLock(x)+" before "+shortLock(y))
			seen := map[string]bool{}
			var reach func(k string) bool
			reach = func(k string) bool {
				if k == x {
					return true
				}
				if seen[k] {
					return false
				}
				seen[k] = true
				for z := range a.order[k] {
					if reach(z) {
						return true
					}
				}
				return false
			}
			if reach(y) {
				r.Report("order", shortLock(y), pos, nil, "%s is taken while %s is held, and elsewhere the other way around", shortLock(y), shortLock(x))
			}
		}
	}
	r.Need("lock", 3)
	r.Need("unlock", 3)
	r.Need("released", 10)
	r.Need("waits", 3)
}
