package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind enumerates the kinds of provenance terms.
//
// A term is a value number: it says where a value came from (which
// parameter, which call site, which field of which object), never what
// the value is.
type Kind uint8

const (
	KConst Kind = iota
	KNil
	KZero
	KParam
	KGlobal
	KFunc
	KAlloc
	KMake // MakeMap, MakeSlice, MakeChan
	KCall
	KPure
	KExtract
	KLoad
	KFieldAddr
	KIndexAddr
	KField
	KIndex
	KUpd
	KBin
	KUn
	KConv
	KIface
	KAssert
	KAssertOk
	KClosure
	KSlice
	KAppend
	KLen
	KLookup
	KHas
	KRange
	KGen // fresh unknown produced by an instruction (Next, Recv, ...)
	KTuple
	KPhi
	KMemPhi
	KOld
	KEpoch
	KWrap // fmt.Errorf with %w
	KAs   // errors.As result
	KTok  // internal marker
)

var kindNames = [...]string{"const", "nil", "zero", "param", "global", "func", "alloc", "make", "call", "pure",
	"extract", "load", "fieldaddr", "indexaddr", "field", "index", "upd", "bin", "un", "conv", "iface",
	"assert", "assertok", "closure", "slice", "append", "len", "lookup", "has", "range", "gen", "tuple",
	"phi", "memphi", "old", "epoch", "wrap", "as", "tok"}

// Term is a hash-consed provenance term.
type Term struct {
	ID   int
	K    Kind
	Aux  string
	I    int
	Args []*Term
	Typ  types.Type

	C    constant.Value
	Fn   *ssa.Function
	Fld  *types.Var
	Site ssa.Instruction
	Ctx  *Ctx
	Prev *Term // KOld: the term that was aged

	gen   bool // contains a generated leaf
	depth int
}

// Ctx is a call string: the chain of inlined call sites.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type interner struct {
	terms map[string]*Term
	next  int
	ctxs  map[string]*Ctx
	sites map[ssa.Instruction]int
}

var in = &interner{
	terms: map[string]*Term{},
	ctxs:  map[string]*Ctx{},
	sites: map[ssa.Instruction]int{},
}

func (n *interner) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function, tag string) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d/%d/%p/%s", pid, n.site(site), fn, tag)
	if c, ok := n.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(n.ctxs) + 1, parent: parent, site: site, fn: fn, depth: d}
	n.ctxs[k] = c
	return c
}

func (n *interner) site(i ssa.Instruction) int {
	if i == nil {
		return 0
	}
	if v, ok := n.sites[i]; ok {
		return v
	}
	v := len(n.sites) + 1
	n.sites[i] = v
	return v
}

func (n *interner) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.K)))
	b.WriteByte('|')
	b.WriteString(t.Aux)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.I))
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if t.Site != nil || t.Ctx != nil {
		b.WriteByte('@')
		b.WriteString(strconv.Itoa(n.site(t.Site)))
		if t.Ctx != nil {
			b.WriteByte('.')
			b.WriteString(strconv.Itoa(t.Ctx.id))
		}
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "f%p", t.Fn)
	}
	if t.Fld != nil {
		fmt.Fprintf(&b, "v%p", t.Fld)
	}
	switch t.K {
	case KZero, KIface, KAssert, KAssertOk, KConv, KAs:
		if t.Typ != nil {
			b.WriteString(types.TypeString(t.Typ, nil))
		}
	}
	k := b.String()
	if x, ok := n.terms[k]; ok {
		return x
	}
	n.next++
	t.ID = n.next
	switch t.K {
	case KAlloc, KMake, KCall, KGen, KEpoch, KPhi, KMemPhi, KOld:
		t.gen = true
	}
	for _, a := range t.Args {
		if a.gen {
			t.gen = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	x := t
	n.terms[k] = &x
	return &x
}

var tNil = in.mk(Term{K: KNil})
var tTrue = mkConst(constant.MakeBool(true), types.Typ[types.Bool])
var tFalse = mkConst(constant.MakeBool(false), types.Typ[types.Bool])
var tZeroInt = mkInt(0)

func mkConst(c constant.Value, t types.Type) *Term {
	// Integer-like and string-like constants are identified by value.
	return in.mk(Term{K: KConst, Aux: c.Kind().String() + c.ExactString(), C: c, Typ: t})
}

func mkInt(n int64) *Term  { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkTok(s string) *Term { return in.mk(Term{K: KTok, Aux: s}) }

func (t *Term) isInt() (int64, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.Int {
		if v, ok := constant.Int64Val(t.C); ok {
			return v, true
		}
	}
	return 0, false
}

func (t *Term) isStr() (string, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (t *Term) isBool() (val, ok bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return in.mk(Term{K: KZero, Typ: t})
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return in.mk(Term{K: KTuple, Args: args})
	}
	return tNil
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// lin splits an integer term into base + k.
func lin(t *Term) (base *Term, k int64) {
	if v, ok := t.isInt(); ok {
		return tZeroInt, v
	}
	if t.K == KBin && t.Aux == "+" && isInteger(t.Typ) {
		if v, ok := t.Args[1].isInt(); ok {
			return t.Args[0], v
		}
	}
	return t, 0
}

func addConst(t *Term, k int64) *Term {
	b, c := lin(t)
	c += k
	if b == tZeroInt {
		return mkInt(c)
	}
	if c == 0 {
		return b
	}
	ty := b.Typ
	if ty == nil || !isInteger(ty) {
		ty = types.Typ[types.Int]
	}
	return in.mk(Term{K: KBin, Aux: "+", Args: []*Term{b, mkInt(c)}, Typ: ty})
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.K == KConst && b.K == KConst {
		return mkBool(constant.Compare(a.C, token.EQL, b.C))
	}
	// bool == const
	if v, ok := b.isBool(); ok {
		if v {
			return a
		}
		return mkNot(a)
	}
	if v, ok := a.isBool(); ok {
		if v {
			return b
		}
		return mkNot(b)
	}
	// put constants / nil second, else order by id
	if a.K == KConst || a.K == KNil || (b.K != KConst && b.K != KNil && a.ID > b.ID) {
		a, b = b, a
	}
	if n, ok := b.isInt(); ok {
		if base, k := lin(a); k != 0 && base != tZeroInt {
			return mkEq(base, mkInt(n-k))
		}
	}
	// len(s) == 0  <=>  s == ""
	if a.K == KLen && isStringT(a.Args[0].Typ) {
		if n, ok := b.isInt(); ok && n == 0 {
			return mkEq(a.Args[0], mkStr(""))
		}
	}
	return in.mk(Term{K: KBin, Aux: "==", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

func mkNot(a *Term) *Term {
	if v, ok := a.isBool(); ok {
		return mkBool(!v)
	}
	if a.K == KUn && a.Aux == "!" {
		return a.Args[0]
	}
	return in.mk(Term{K: KUn, Aux: "!", Args: []*Term{a}, Typ: types.Typ[types.Bool]})
}

func mkLt(a, b *Term) *Term {
	if a.K == KConst && b.K == KConst {
		return mkBool(constant.Compare(a.C, token.LSS, b.C))
	}
	if a == b {
		return tFalse
	}
	return in.mk(Term{K: KBin, Aux: "<", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

func mkBin(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if a.K == KConst && b.K == KConst && op != token.QUO && op != token.REM && op != token.SHL && op != token.SHR {
		if a.C.Kind() == b.C.Kind() {
			if v := constant.BinaryOp(a.C, op, b.C); v.Kind() != constant.Unknown {
				return mkConst(v, t)
			}
		}
	}
	if isInteger(t) {
		if v, ok := b.isInt(); ok && op == token.ADD {
			return addConst(a, v)
		}
		if v, ok := b.isInt(); ok && op == token.SUB {
			return addConst(a, -v)
		}
		if v, ok := a.isInt(); ok && op == token.ADD {
			return addConst(b, v)
		}
		if op == token.ADD {
			if a.ID > b.ID {
				a, b = b, a
			}
		}
		if op == token.SUB {
			// (x+k) - x
			ab, ak := lin(a)
			bb, bk := lin(b)
			if ab == bb {
				return mkInt(ak - bk)
			}
			if bb != tZeroInt && (ak != 0 || bk != 0) {
				return addConst(mkBin(op, ab, bb, t), ak-bk)
			}
		}
		if op == token.MUL && isOne(a) {
			return b
		}
		if op == token.MUL && isOne(b) {
			return a
		}
		if op == token.MUL && a.ID > b.ID {
			a, b = b, a
		}
	}
	return in.mk(Term{K: KBin, Aux: op.String(), Args: []*Term{a, b}, Typ: t})
}

func mkExtract(t *Term, i int, ty types.Type) *Term {
	if t.K == KTuple {
		return t.Args[i]
	}
	return in.mk(Term{K: KExtract, I: i, Args: []*Term{t}, Typ: ty})
}

func mkPure(name string, ty types.Type, args ...*Term) *Term {
	return in.mk(Term{K: KPure, Aux: name, Args: args, Typ: ty})
}

func mkFieldAddr(base *Term, i int, v *types.Var) *Term {
	return in.mk(Term{K: KFieldAddr, I: i, Args: []*Term{base}, Fld: v, Typ: types.NewPointer(v.Type())})
}

func mkIndexAddr(base, idx *Term, elem types.Type) *Term {
	return in.mk(Term{K: KIndexAddr, Args: []*Term{base, idx}, Typ: types.NewPointer(elem)})
}

func structField(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

// rebuild makes a term like t with other arguments, re-simplifying.
func rebuild(t *Term, args []*Term) *Term {
	switch t.K {
	case KBin:
		switch t.Aux {
		case "==":
			return mkEq(args[0], args[1])
		case "<":
			return mkLt(args[0], args[1])
		case "+":
			return mkBin(token.ADD, args[0], args[1], t.Typ)
		case "-":
			return mkBin(token.SUB, args[0], args[1], t.Typ)
		}
	case KUn:
		if t.Aux == "!" {
			return mkNot(args[0])
		}
	case KExtract:
		return mkExtract(args[0], t.I, t.Typ)
	}
	x := *t
	x.Args = args
	x.gen = false
	x.depth = 0
	return in.mk(x)
}

// subst replaces terms bottom-up.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 || !t.gen {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var args []*Term
	for i, a := range t.Args {
		r := subst(a, m, memo)
		if r != a && args == nil {
			args = append([]*Term(nil), t.Args...)
		}
		if args != nil {
			args[i] = r
		}
	}
	r := t
	if args != nil {
		r = rebuild(t, args)
		// a rebuilt generated term may itself be renamed
	}
	memo[t] = r
	return r
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if anyTerm(a, f) {
			return true
		}
	}
	return false
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	list := func(args []*Term) string {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.K {
	case KConst:
		return t.C.String()
	case KNil:
		return "nil"
	case KZero:
		return "zero"
	case KParam:
		return t.Aux
	case KGlobal, KFunc:
		return t.Aux
	case KAlloc:
		return "new#" + strconv.Itoa(t.ID)
	case KMake:
		return "make#" + strconv.Itoa(t.ID)
	case KCall:
		return t.Aux + "(" + list(t.Args) + ")"
	case KPure:
		return t.Aux + "(" + list(t.Args) + ")"
	case KExtract:
		return t.Args[0].str(d+1) + "#" + strconv.Itoa(t.I)
	case KLoad:
		a := t.Args[0]
		if a.K == KFieldAddr || a.K == KIndexAddr {
			return a.str(d)
		}
		return "*" + a.str(d+1)
	case KFieldAddr:
		return t.Args[0].str(d+1) + "." + t.Fld.Name()
	case KIndexAddr:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KField:
		return t.Args[0].str(d+1) + "." + t.Aux
	case KBin:
		return "(" + t.Args[0].str(d+1) + " " + t.Aux + " " + t.Args[1].str(d+1) + ")"
	case KUn:
		return t.Aux + t.Args[0].str(d+1)
	case KIface, KConv:
		return t.Args[0].str(d)
	case KLen:
		return "len(" + list(t.Args) + ")"
	case KClosure:
		return "closure " + t.Fn.Name()
	case KPhi:
		return "φ" + strconv.Itoa(t.ID)
	case KOld:
		return "old(" + t.Prev.str(d+1) + ")"
	}
	return kindNames[t.K] + ":" + t.Aux + "(" + list(t.Args) + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
}

// strip removes conversions and interface wrapping.
func strip(t *Term) *Term {
	for t != nil && (t.K == KIface || t.K == KConv) {
		t = t.Args[0]
	}
	return t
}

// concat flattens a string concatenation.
func concat(t *Term) []*Term {
	if t.K == KBin && t.Aux == "+" && !isInteger(t.Typ) {
		return append(concat(t.Args[0]), concat(t.Args[1])...)
	}
	if t.K == KConv && isStringT(t.Typ) && t.Args[0].Typ != nil && isStringT(t.Args[0].Typ) {
		return concat(t.Args[0])
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}
