package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct{ a, b *Term } // a - b <= c

type held struct {
	lock  *Term
	write bool
	site  ssa.Instruction
}

type prefixInfo struct {
	bound *Term
	attrs string
}

type traceNode struct {
	prev *traceNode
	pos  token.Pos
	what string
}

// State is one element of the trace partition: memory, facts and the
// checker's automaton state.
type State struct {
	mem    map[*Term]*Term
	atoms  map[*Term]bool
	dbm    map[edge]int64
	objver map[*Term]*Term
	attr   map[*Term]string
	elem   map[*Term]string
	prefix map[*Term]prefixInfo
	ghost  map[string][]*Term
	epoch  *Term
	locks  []held
	trace  *traceNode
}

func newState() *State {
	return &State{
		mem:    map[*Term]*Term{},
		atoms:  map[*Term]bool{},
		dbm:    map[edge]int64{},
		objver: map[*Term]*Term{},
		attr:   map[*Term]string{},
		elem:   map[*Term]string{},
		prefix: map[*Term]prefixInfo{},
		ghost:  map[string][]*Term{},
		epoch:  mkTok("e0"),
	}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{
		mem:    cloneMap(s.mem),
		atoms:  cloneMap(s.atoms),
		dbm:    cloneMap(s.dbm),
		objver: cloneMap(s.objver),
		attr:   cloneMap(s.attr),
		elem:   cloneMap(s.elem),
		prefix: cloneMap(s.prefix),
		ghost:  cloneMap(s.ghost),
		epoch:  s.epoch,
		locks:  append([]held(nil), s.locks...),
		trace:  s.trace,
	}
}

func (s *State) note(pos token.Pos, what string) {
	s.trace = &traceNode{prev: s.trace, pos: pos, what: what}
}

// ---- ghost state -------------------------------------------------------

func (s *State) G(k string) []*Term { return s.ghost[k] }
func (s *State) SetG(k string, ts ...*Term) {
	s.ghost[k] = append([]*Term(nil), ts...)
}
func (s *State) AddG(k string, t *Term) {
	for _, x := range s.ghost[k] {
		if x == t {
			return
		}
	}
	ts := append(append([]*Term(nil), s.ghost[k]...), t)
	s.ghost[k] = ts
}
func (s *State) HasG(k string, t *Term) bool {
	for _, x := range s.ghost[k] {
		if x == t {
			return true
		}
	}
	return false
}
func (s *State) DelG(k string, t *Term) {
	var ts []*Term
	for _, x := range s.ghost[k] {
		if x != t {
			ts = append(ts, x)
		}
	}
	if len(ts) == 0 {
		delete(s.ghost, k)
	} else {
		s.ghost[k] = ts
	}
}
func (s *State) ClearG(k string) { delete(s.ghost, k) }
func (s *State) GInt(k string) int64 {
	if ts := s.ghost[k]; len(ts) == 1 {
		if v, ok := ts[0].isInt(); ok {
			return v
		}
	}
	return 0
}

// ---- numeric domain (difference bounds) ---------------------------------

func (s *State) entailsDiff(a, b *Term, c int64) bool {
	// a - b <= c ?
	ab, ak := lin(a)
	bb, bk := lin(b)
	c -= ak - bk
	if ab == bb {
		return c >= 0
	}
	if d, ok := s.dist(ab, bb); ok && d <= c {
		return true
	}
	// x-y against x
	if x, y, ok := minus(ab); ok {
		if xb, xk := lin(x); xb == bb {
			return s.entailsDiff(tZeroInt, y, c-xk)
		}
		if u, v, ok := minus(bb); ok && u == x {
			return s.entailsDiff(v, y, c)
		}
	}
	if x, y, ok := minus(bb); ok {
		if xb, xk := lin(x); xb == ab {
			return s.entailsDiff(y, tZeroInt, c+xk)
		}
	}
	return false
}

// minus splits a difference.
func minus(t *Term) (x, y *Term, ok bool) {
	if t.K == KBin && t.Aux == "-" && isInteger(t.Typ) {
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

// dist returns the tightest known bound on a - b.
func (s *State) dist(a, b *Term) (int64, bool) {
	// Bellman-Ford from a: a - x <= d[x]
	d := map[*Term]int64{a: 0}
	extra := func(t *Term) {
		_ = t
	}
	_ = extra
	type e3 struct {
		a, b *Term
		c    int64
	}
	var es []e3
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if nonNegative(t) {
			es = append(es, e3{tZeroInt, t, 0})
		}
	}
	add(a)
	add(b)
	for e, c := range s.dbm {
		es = append(es, e3{e.a, e.b, c})
		add(e.a)
		add(e.b)
	}
	for i := 0; i <= len(seen)+1; i++ {
		ch := false
		for _, e := range es {
			if v, ok := d[e.a]; ok {
				if w, ok := d[e.b]; !ok || v+e.c < w {
					d[e.b] = v + e.c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	v, ok := d[b]
	return v, ok
}

func nonNegative(t *Term) bool {
	switch t.K {
	case KLen:
		return true
	}
	return false
}

func (s *State) addDiff(a, b *Term, c int64) bool {
	ab, ak := lin(a)
	bb, bk := lin(b)
	c -= ak - bk
	if ab == bb {
		return c >= 0
	}
	if s.entailsDiff(bb, ab, -c-1) {
		return false
	}
	// integer tightening against known disequalities
	for {
		if at, ok := s.atoms[mkEqRaw(ab, bb, c)]; ok && !at {
			c--
			continue
		}
		break
	}
	k := edge{ab, bb}
	if o, ok := s.dbm[k]; !ok || c < o {
		s.dbm[k] = c
	}
	// what is known of a quotient is known of its dividend
	if x, n := quotient(ab); x != nil && bb == tZeroInt {
		up := c * n
		if c >= 0 {
			up += n - 1
		}
		return s.addDiff(x, tZeroInt, up)
	}
	if x, n := quotient(bb); x != nil && ab == tZeroInt {
		low := -c * n
		if -c <= 0 {
			low -= n - 1
		}
		return s.addDiff(tZeroInt, x, -low)
	}
	return true
}

// quotient: t is an integer divided by a positive constant.
func quotient(t *Term) (*Term, int64) {
	if t.K == KBin && t.Aux == "/" && isInteger(t.Typ) {
		if n, ok := t.Args[1].isInt(); ok && n > 0 && n < 1<<20 {
			return t.Args[0], n
		}
	}
	return nil, 0
}

// mkEqRaw is the atom a - b == c.
func mkEqRaw(a, b *Term, c int64) *Term {
	if b == tZeroInt {
		return mkEq(a, mkInt(c))
	}
	if a == tZeroInt {
		return mkEq(b, mkInt(-c))
	}
	return mkEq(a, addConst(b, c))
}

// ---- facts -----------------------------------------------------------------

func intTyped(t *Term) bool {
	if t.K == KConst {
		_, ok := t.isInt()
		return ok
	}
	return isInteger(t.Typ) || t.K == KLen
}

func (s *State) nonNil(t *Term) bool {
	switch t.K {
	case KAlloc, KMake, KFieldAddr, KIndexAddr, KFunc, KClosure, KIface, KWrap, KGlobal, KConst, KZero, KAs, KUpd:
		return true
	case KPure:
		switch t.Aux {
		case "errors.New", "fmt.Errorf", "append-nonempty", "fmt.Sprintf":
			return true
		}
	case KSlice:
		return s.nonNil(t.Args[0])
	case KAppend:
		if n, ok := s.appendCount(t); ok && n > 0 {
			return true
		}
		return s.nonNil(t.Args[0])
	case KOld:
		if t.Prev != nil {
			switch t.Prev.K {
			case KAlloc, KMake:
				return true
			}
		}
	}
	if v, ok := s.atoms[mkEq(t, tNil)]; ok {
		return !v
	}
	// a term equal to a given non-nil sentinel
	if isErrSentinel(t) {
		return true
	}
	return false
}

// madeOnSuccess: standard functions whose first result is not nil when
// their error is.
var madeOnSuccess = map[string]bool{
	"net/url.Parse": true, "net/url.ParseRequestURI": true, "(*net/url.URL).Parse": true,
	"net/http.NewRequest": true, "net/http.NewRequestWithContext": true, "net/http.ReadResponse": true,
	"(*net/http.Client).Do": true, "(*net/http.Client).Get": true, "os.Open": true, "os.Create": true,
	"os.OpenFile": true, "os.CreateTemp": true, "os.Stat": true, "compress/gzip.NewReader": true,
	"golang.org/x/net/html.Parse": true, "regexp.Compile": true,
}

// succeeded records what an operation's nil error says about its result.
func (s *State) succeeded(err, n *Term) bool {
	if n != tNil || err.K != KExtract || !types.Identical(err.Typ, errT) || !madeOnSuccess[callName(err)] {
		return true
	}
	tup, ok := err.Args[0].Typ.(*types.Tuple)
	if !ok || tup.Len() < 2 {
		return true
	}
	res := mkEq(mkExtract(err.Args[0], 0, tup.At(0).Type()), tNil)
	if s.atoms[res] {
		return false
	}
	if res.K == KBin {
		s.atoms[res] = false
	}
	return true
}

// isErrSentinel: loads of package-level variables of type error.
func isErrSentinel(t *Term) bool {
	return t.K == KLoad && t.Args[0].K == KGlobal && t.Typ != nil && types.TypeString(t.Typ, nil) == "error"
}

func (s *State) isNil(t *Term) bool {
	if t == tNil {
		return true
	}
	v, ok := s.atoms[mkEq(t, tNil)]
	return ok && v
}

// appendCount returns the number of elements appended when known.
func (s *State) appendCount(t *Term) (int, bool) {
	y := t.Args[1]
	if y.K == KPure && y.Aux == "elems" {
		return len(y.Args), true
	}
	if y.K == KSlice {
		if pt, ok := y.Args[0].Typ.(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && y.Args[1] == tNil && y.Args[2] == tNil {
				return int(at.Len()), true
			}
		}
	}
	return 0, false
}

// evalBool decides a condition if the facts do.
func (s *State) evalBool(c *Term) (val, ok bool) {
	if v, ok := c.isBool(); ok {
		return v, true
	}
	if c.K == KUn && c.Aux == "!" {
		v, ok := s.evalBool(c.Args[0])
		return !v, ok
	}
	if v, ok := s.atoms[c]; ok {
		return v, true
	}
	switch {
	case c.K == KBin && c.Aux == "==":
		a, b := c.Args[0], c.Args[1]
		if b == tNil {
			if s.isNil(a) {
				return true, true
			}
			if s.nonNil(a) {
				return false, true
			}
			return false, false
		}
		if s.isNil(a) && s.nonNil(b) || s.nonNil(a) && s.isNil(b) {
			return false, true
		}
		// Compare interface holding: Iface(T,x) == Iface(T,y)
		if a.K == KIface && b.K == KIface {
			if !types.Identical(a.Typ, b.Typ) {
				return false, true
			}
			if bothBasic(a, b) {
				return s.evalBool(mkEq(a.Args[0], b.Args[0]))
			}
		}
		if isErrSentinel(a) && (b.K == KWrap || b.K == KIface) || isErrSentinel(b) && (a.K == KWrap || a.K == KIface) {
			return false, true
		}
		if b.K == KConst {
			for at, v := range s.atoms {
				if v && at.K == KBin && at.Aux == "==" && at.Args[0] == a && at.Args[1].K == KConst && at.Args[1] != b {
					return false, true
				}
			}
		}
		if intTyped(a) && intTyped(b) {
			le := s.entailsDiff(a, b, 0)
			ge := s.entailsDiff(b, a, 0)
			if le && ge {
				return true, true
			}
			if s.entailsDiff(a, b, -1) || s.entailsDiff(b, a, -1) {
				return false, true
			}
		}
		if v, ok := b.isStr(); ok && v == "" {
			// the empty string by its length
			n := mkLen(a)
			if s.entailsDiff(n, tZeroInt, 0) {
				return true, true
			}
			if s.entailsDiff(tZeroInt, n, -1) {
				return false, true
			}
		}
		if freshDistinct(a, b) {
			return false, true
		}
	case c.K == KBin && c.Aux == "<":
		a, b := c.Args[0], c.Args[1]
		if intTyped(a) && intTyped(b) {
			if s.entailsDiff(a, b, -1) {
				return true, true
			}
			if s.entailsDiff(b, a, 0) {
				return false, true
			}
		}
	case c.K == KPure && c.Aux == "errors.Is":
		return s.evalErrIs(c)
	case c.K == KAssertOk:
		return s.evalAssert(c)
	}
	return false, false
}

func bothBasic(a, b *Term) bool {
	_, ok1 := a.Typ.Underlying().(*types.Basic)
	_, ok2 := b.Typ.Underlying().(*types.Basic)
	return ok1 && ok2
}

func freshDistinct(a, b *Term) bool {
	fresh := func(t *Term) bool { return t.K == KAlloc || t.K == KMake }
	if fresh(a) && (fresh(b) || b.K == KParam || b.K == KGlobal) && a != b {
		return true
	}
	if fresh(b) && (a.K == KParam || a.K == KGlobal) {
		return true
	}
	return false
}

func (s *State) evalErrIs(c *Term) (bool, bool) {
	err, target := c.Args[0], c.Args[1]
	if s.isNil(err) {
		return s.isNil(target), true
	}
	if err == target {
		return true, true
	}
	if v, ok := s.atoms[mkEq(err, target)]; ok && v {
		return true, true
	}
	if err.K == KWrap && len(err.Args) == 0 {
		return false, true
	}
	if err.K == KIface && !hasIsOrUnwrap(err.Typ) {
		// A concrete error without Is/Unwrap equals only itself.
		return false, true
	}
	if isErrSentinel(err) && isErrSentinel(target) && err != target {
		return false, true
	}
	return false, false
}

func hasIsOrUnwrap(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Is", "Unwrap":
			return true
		}
	}
	return false
}

// dynType returns the concrete type of an interface-valued term if known.
func dynType(t *Term) types.Type {
	if t.K == KIface {
		return t.Typ
	}
	return nil
}

func (s *State) evalAssert(c *Term) (bool, bool) {
	x := c.Args[0]
	if s.isNil(x) {
		return false, true
	}
	if dt := dynType(x); dt != nil {
		return assertable(dt, c.Typ), true
	}
	if x.K == KWrap {
		return wrapImplements(c.Typ), true
	}
	// x known to be of another concrete type
	if !types.IsInterface(c.Typ) {
		for at, v := range s.atoms {
			if v && at.K == KAssertOk && at.Args[0] == x && !types.IsInterface(at.Typ) && !types.Identical(at.Typ, c.Typ) {
				return false, true
			}
		}
	}
	return false, false
}

func assertable(dt, target types.Type) bool {
	if it, ok := target.Underlying().(*types.Interface); ok {
		return types.Implements(dt, it)
	}
	return types.Identical(dt, target)
}

// wrapImplements: *fmt.wrapError has only Error and Unwrap.
func wrapImplements(target types.Type) bool {
	it, ok := target.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Error", "Unwrap":
		default:
			return false
		}
	}
	return true
}

// assume adds a fact; false means the path is infeasible.
func (s *State) assume(c *Term, val bool) bool {
	for c.K == KUn && c.Aux == "!" {
		c, val = c.Args[0], !val
	}
	if v, ok := s.evalBool(c); ok {
		return v == val
	}
	switch {
	case c.K == KBin && c.Aux == "==":
		a, b := c.Args[0], c.Args[1]
		if intTyped(a) && intTyped(b) {
			if val {
				if !s.addDiff(a, b, 0) || !s.addDiff(b, a, 0) {
					return false
				}
				s.atoms[c] = true
				return true
			}
			s.atoms[c] = false
			// tighten at the boundary
			if s.entailsDiff(a, b, 0) {
				return s.addDiff(a, b, -1)
			}
			if s.entailsDiff(b, a, 0) {
				return s.addDiff(b, a, -1)
			}
			return true
		}
		s.atoms[c] = val
		if v, ok := b.isStr(); ok && v == "" {
			if !val {
				return s.addDiff(tZeroInt, mkLen(a), -1)
			}
			if !s.addDiff(mkLen(a), tZeroInt, 0) {
				return false
			}
		}
		if val {
			if !s.succeeded(a, b) {
				return false
			}
			// copy nil-ness
			if s.nonNil(b) && b.K != KConst && !s.nonNil(a) {
				s.atoms[mkEq(a, tNil)] = false
			}
			if a.K == KIface && b.K == KIface && bothBasic(a, b) {
				return s.assume(mkEq(a.Args[0], b.Args[0]), true)
			}
		} else if a.K == KIface && b.K == KIface && bothBasic(a, b) {
			return s.assume(mkEq(a.Args[0], b.Args[0]), false)
		}
		return true
	case c.K == KBin && c.Aux == "<":
		a, b := c.Args[0], c.Args[1]
		if intTyped(a) && intTyped(b) {
			if val {
				return s.addDiff(a, b, -1)
			}
			return s.addDiff(b, a, 0)
		}
		s.atoms[c] = val
		return true
	case c.K == KPure && c.Aux == "errors.Is":
		s.atoms[c] = val
		if val && s.nonNil(c.Args[1]) {
			return s.assume(mkEq(c.Args[0], tNil), false)
		}
		if !val {
			return s.assume(mkEq(c.Args[0], c.Args[1]), false)
		}
		return true
	case c.K == KAssertOk:
		s.atoms[c] = val
		if val {
			return s.assume(mkEq(c.Args[0], tNil), false)
		}
		return true
	}
	s.atoms[c] = val
	return true
}

// holds reports whether the facts force c.
func (s *State) holds(c *Term) bool {
	v, ok := s.evalBool(c)
	return ok && v
}

func (s *State) refuted(c *Term) bool {
	v, ok := s.evalBool(c)
	return ok && !v
}

// ---- attributes ---------------------------------------------------------------

const attrAll = "*"

func attrSet(a string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(a, ",") {
		if x != "" {
			m[x] = true
		}
	}
	return m
}

func attrJoin(m map[string]bool) string {
	var ss []string
	for k := range m {
		ss = append(ss, k)
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func attrAnd(a, b string) string {
	if a == attrAll {
		return b
	}
	if b == attrAll {
		return a
	}
	m, n := attrSet(a), attrSet(b)
	for k := range m {
		if !n[k] {
			delete(m, k)
		}
	}
	return attrJoin(m)
}

func attrOr(a, b string) string {
	if a == attrAll || b == attrAll {
		return attrAll
	}
	m := attrSet(a)
	for k := range attrSet(b) {
		m[k] = true
	}
	return attrJoin(m)
}

func attrHas(a, name string) bool {
	return a == attrAll || attrSet(a)[name]
}

// ---- renaming and garbage collection --------------------------------------------

func (s *State) rename(m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term { return subst(t, m, memo) }
	mem := make(map[*Term]*Term, len(s.mem))
	for _, k := range sortedKeys(s.mem) {
		nk := f(k)
		nv := f(s.mem[k])
		if o, ok := mem[nk]; ok && o != nv {
			delete(mem, nk)
			continue
		}
		mem[nk] = nv
	}
	s.mem = mem
	atoms := make(map[*Term]bool, len(s.atoms))
	bad := map[*Term]bool{}
	for k, v := range s.atoms {
		nk := f(k)
		for nk.K == KUn && nk.Aux == "!" {
			nk, v = nk.Args[0], !v
		}
		if nk.K == KConst || bad[nk] {
			continue
		}
		if o, ok := atoms[nk]; ok && o != v {
			delete(atoms, nk)
			bad[nk] = true
			continue
		}
		atoms[nk] = v
	}
	s.atoms = atoms
	dbm := make(map[edge]int64, len(s.dbm))
	for e, c := range s.dbm {
		a, b := f(e.a), f(e.b)
		ab, ak := lin(a)
		bb, bk := lin(b)
		if ab == bb {
			continue
		}
		c -= ak - bk
		k := edge{ab, bb}
		if o, ok := dbm[k]; !ok || c < o {
			dbm[k] = c
		}
	}
	s.dbm = dbm
	ov := make(map[*Term]*Term, len(s.objver))
	for k, v := range s.objver {
		ov[f(k)] = f(v)
	}
	s.objver = ov
	at := make(map[*Term]string, len(s.attr))
	for k, v := range s.attr {
		nk := f(k)
		if o, ok := at[nk]; ok {
			v = attrAnd(o, v)
		}
		at[nk] = v
	}
	s.attr = at
	el := make(map[*Term]string, len(s.elem))
	for k, v := range s.elem {
		nk := f(k)
		if o, ok := el[nk]; ok {
			v = attrAnd(o, v)
		}
		el[nk] = v
	}
	s.elem = el
	pr := make(map[*Term]prefixInfo, len(s.prefix))
	for k, v := range s.prefix {
		pr[f(k)] = prefixInfo{f(v.bound), v.attrs}
	}
	s.prefix = pr
	gh := make(map[string][]*Term, len(s.ghost))
	for k, ts := range s.ghost {
		var r []*Term
		for _, t := range ts {
			n := f(t)
			dup := false
			if !strings.HasPrefix(k, "#") { // '#': ordered list, keep duplicates
				for _, x := range r {
					if x == n {
						dup = true
					}
				}
			}
			if !dup {
				r = append(r, n)
			}
		}
		gh[k] = r
	}
	s.ghost = gh
	s.epoch = f(s.epoch)
	for i := range s.locks {
		s.locks[i].lock = f(s.locks[i].lock)
	}
}

func sortedKeys[V any](m map[*Term]V) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortTerms(ks)
	return ks
}

// addrRoot is the object an address lies in.
func addrRoot(a *Term) *Term {
	for a.K == KFieldAddr || a.K == KIndexAddr {
		a = a.Args[0]
		if a.K == KSlice {
			a = a.Args[0]
		}
	}
	if a.K == KPure && a.Aux == "mapelem" {
		return a.Args[0]
	}
	return a
}

// gc drops facts about generated terms that nothing refers to any more.
func (s *State) gc(roots []*Term) {
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if !t.gen || live[t] {
			return
		}
		live[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, ts := range s.ghost {
		for _, t := range ts {
			mark(t)
		}
	}
	for _, h := range s.locks {
		mark(h.lock)
	}
	mark(s.epoch)
	keys := sortedKeys(s.mem)
	done := map[*Term]bool{}
	for {
		ch := false
		for _, k := range keys {
			if done[k] {
				continue
			}
			r := addrRoot(k)
			if !r.gen || live[r] || r.K == KLoad {
				done[k] = true
				ch = true
				mark(k)
				mark(s.mem[k])
			}
		}
		if !ch {
			break
		}
	}
	for _, k := range keys {
		if !done[k] {
			delete(s.mem, k)
		}
	}
	ok := func(t *Term) bool { return s.leavesLive(t, live) }
	for k := range s.atoms {
		if !ok(k) {
			delete(s.atoms, k)
		}
	}
	for k, v := range s.prefix {
		if ok(k) && !ok(v.bound) && s.entailsDiff(mkLen(k), v.bound, 0) {
			s.elem[k] = attrOr(s.elem[k], v.attrs)
		}
	}
	// numeric: close before projecting out dead terms
	dead := false
	for e := range s.dbm {
		if !ok(e.a) || !ok(e.b) {
			dead = true
			break
		}
	}
	if dead {
		s.closeDBM()
		for e := range s.dbm {
			if !ok(e.a) || !ok(e.b) {
				delete(s.dbm, e)
			}
		}
	}
	for k := range s.objver {
		if !ok(k) {
			delete(s.objver, k)
		}
	}
	for k := range s.attr {
		if !ok(k) {
			delete(s.attr, k)
		}
	}
	for k := range s.elem {
		if !ok(k) {
			delete(s.elem, k)
		}
	}
	for k, v := range s.prefix {
		if !ok(k) || !ok(v.bound) {
			delete(s.prefix, k)
		}
	}
}

// leavesLive: every generated leaf of t is referred to.
func (s *State) leavesLive(t *Term, live map[*Term]bool) bool {
	if !t.gen || live[t] {
		return true
	}
	switch t.K {
	case KAlloc, KMake, KCall, KGen, KEpoch, KPhi, KMemPhi, KOld:
		return false
	}
	for _, a := range t.Args {
		if !s.leavesLive(a, live) {
			return false
		}
	}
	return true
}

func (s *State) closeDBM() {
	set := map[*Term]bool{}
	for e := range s.dbm {
		set[e.a] = true
		set[e.b] = true
	}
	if len(set) > 40 {
		return
	}
	set[tZeroInt] = true
	ts := make([]*Term, 0, len(set))
	for t := range set {
		ts = append(ts, t)
	}
	sortTerms(ts)
	n := len(ts)
	const inf = int64(1) << 60
	d := make([][]int64, n)
	for i := range d {
		d[i] = make([]int64, n)
		for j := range d[i] {
			d[i][j] = inf
			if i == j {
				d[i][j] = 0
			}
			if c, ok := s.dbm[edge{ts[i], ts[j]}]; ok {
				d[i][j] = c
			}
			if ts[i] == tZeroInt && nonNegative(ts[j]) && d[i][j] > 0 {
				d[i][j] = 0
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if d[i][k] == inf {
				continue
			}
			for j := 0; j < n; j++ {
				if d[k][j] != inf && d[i][k]+d[k][j] < d[i][j] {
					d[i][j] = d[i][k] + d[k][j]
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j && d[i][j] != inf {
				s.dbm[edge{ts[i], ts[j]}] = d[i][j]
			}
		}
	}
}

// key is a canonical form of the state; the numeric part is separate.
func (s *State) key(withNum bool) string {
	var b strings.Builder
	for _, k := range sortedKeys(s.mem) {
		fmt.Fprintf(&b, "%d=%d;", k.ID, s.mem[k].ID)
	}
	b.WriteByte('|')
	for _, k := range sortedKeys(s.atoms) {
		b.WriteString(strconv.Itoa(k.ID))
		if s.atoms[k] {
			b.WriteByte('+')
		} else {
			b.WriteByte('-')
		}
	}
	b.WriteByte('|')
	for _, k := range sortedKeys(s.objver) {
		fmt.Fprintf(&b, "%d=%d;", k.ID, s.objver[k].ID)
	}
	b.WriteByte('|')
	for _, k := range sortedKeys(s.attr) {
		fmt.Fprintf(&b, "%d=%s;", k.ID, s.attr[k])
	}
	b.WriteByte('|')
	for _, k := range sortedKeys(s.elem) {
		fmt.Fprintf(&b, "%d=%s;", k.ID, s.elem[k])
	}
	b.WriteByte('|')
	for _, k := range sortedKeys(s.prefix) {
		fmt.Fprintf(&b, "%d=%d%s;", k.ID, s.prefix[k].bound.ID, s.prefix[k].attrs)
	}
	b.WriteByte('|')
	gk := make([]string, 0, len(s.ghost))
	for k := range s.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		if len(s.ghost[k]) == 0 {
			continue
		}
		b.WriteString(k)
		ids := make([]int, 0, 4)
		for _, t := range s.ghost[k] {
			ids = append(ids, t.ID)
		}
		if !strings.HasPrefix(k, "#") {
			sort.Ints(ids)
		}
		for _, i := range ids {
			fmt.Fprintf(&b, ",%d", i)
		}
		b.WriteByte(';')
	}
	fmt.Fprintf(&b, "|%d|", s.epoch.ID)
	for _, h := range s.locks {
		fmt.Fprintf(&b, "%d%v,", h.lock.ID, h.write)
	}
	if withNum {
		b.WriteByte('|')
		b.WriteString(s.numKey())
	}
	return b.String()
}

func (s *State) numKey() string {
	es := make([]edge, 0, len(s.dbm))
	for e := range s.dbm {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].a.ID != es[j].a.ID {
			return es[i].a.ID < es[j].a.ID
		}
		return es[i].b.ID < es[j].b.ID
	})
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%d-%d<=%d;", e.a.ID, e.b.ID, s.dbm[e])
	}
	return b.String()
}
