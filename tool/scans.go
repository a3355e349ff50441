package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S03", "every path of the scanner builder and, in the same state, of the scan function it returns, and of Scanner.Scan and its callers: selectors are used only when known to be present and on a node known not to be nil; every reflect operation is applied to a value of a kind known to support it; only exported fields are scanned; nested scan functions get a value of the type they were built for; every index, slice, dereference and assertion is in bounds; no nil function is returned as a success and no build error is dropped", func(r *Result) { checkScans(r) })
	register("S04", "over the same paths: what is read comes from the first match of the function's own selector, or the given node when there is none, by attribute exactly where one is named; it is stored once, parsed with full width, through the setter of the destination's kind; slices get one element per match, each scanned from its own node at its own index; every tagged field is built from its tag's selector and attribute and scanned from the struct's own match; cached scanners are those built for their key", func(r *Result) { checkScans(r) })
}

const (
	cascPkg  = "github.com/andybalholm/cascadia"
	evMatch1 = "(" + cascPkg + ".Selector).MatchFirst"
	evMatchN = "(" + cascPkg + ".Selector).MatchAll"
	nodeT    = "*golang.org/x/net/html.Node"
)

type scans struct {
	r          *Result
	text, attr *ssa.Function
	build      *ssa.Function
	scanner    *ssa.Function // Scanner.Scan
	ti, oi     int           // the builder's type and options parameters
	optT       types.Type
	fSel, fAtt *types.Var
	nilSafe    bool
	accepts    map[string]bool

	t, opts  *Term // of the builder
	dst, src *Term // of the scan function
	phase2   bool
}

// scanSig: func(reflect.Value, *html.Node) error.
func scanSig(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 1 &&
		types.TypeString(s.Params().At(0).Type(), nil) == "reflect.Value" &&
		types.TypeString(s.Params().At(1).Type(), nil) == nodeT &&
		types.Identical(s.Results().At(0).Type(), errT)
}

func newScans(r *Result) *scans {
	s := &scans{r: r}
	P := r.P
	s.text, s.attr = readers(P)
	if s.text == nil || s.attr == nil {
		r.Missing("the functions reading a node's text and attributes")
		return nil
	}
	T := P.Named(pScan, "Scanner")
	if T != nil {
		s.scanner = P.Meth(pScan, "Scanner", "Scan")
	}
	if s.scanner == nil {
		r.Missing("Scanner.Scan")
		return nil
	}
	isBuilder := func(fn *ssa.Function) bool {
		if fn.Parent() != nil || fnPkg(fn) != pScan || fn.Synthetic != "" || fn.Signature.Recv() != nil {
			return false
		}
		rs := fn.Signature.Results()
		if rs.Len() != 2 || !scanSig(rs.At(0).Type()) || !types.Identical(rs.At(1).Type(), errT) {
			return false
		}
		ti, oi := -1, -1
		ps := fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if types.TypeString(ps.At(i).Type(), nil) == "reflect.Type" {
				ti = i
			} else if _, ok := ps.At(i).Type().Underlying().(*types.Struct); ok {
				oi = i
			}
		}
		return ti >= 0 && oi >= 0
	}
	// the builder is the one Scanner's methods call
	for _, fn := range P.Funcs {
		if n := recvNamed(fn); n == nil || n.Obj().Pkg().Path() != pScan || n.Obj().Name() != "Scanner" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && isBuilder(g) {
						s.build = g
					}
				}
			}
		}
	}
	if s.build == nil {
		r.Missing("the function building scan functions")
		return nil
	}
	ps := s.build.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if types.TypeString(ps.At(i).Type(), nil) == "reflect.Type" {
			s.ti = i
		} else {
			s.oi = i
		}
	}
	s.optT = ps.At(s.oi).Type()
	s.fSel = fieldWhere(s.optT, func(f *types.Var) bool { return f.Type().String() == cascPkg+".Selector" })
	s.fAtt = fieldWhere(s.optT, func(f *types.Var) bool { return isStringT(f.Type()) })
	if s.fSel == nil || s.fAtt == nil {
		r.Missing("the options' selector and attribute")
		return nil
	}
	return s
}

// recvNamed is the named type a method belongs to.
func recvNamed(fn *ssa.Function) *types.Named {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return namedOf(fn.Signature.Recv().Type())
}

func (s *scans) sel(x *Exec, st *State, o *Term) *Term {
	return x.fieldVar(st, o, fieldIndex(s.optT, s.fSel), s.fSel)
}

func (s *scans) att(x *Exec, st *State, o *Term) *Term {
	return x.fieldVar(st, o, fieldIndex(s.optT, s.fAtt), s.fAtt)
}

// rep reports a finding of one of the two properties.
func (s *scans) rep(id, rule, what string, pos token.Pos, st *State, format string, args ...any) {
	if s.r.ID == id {
		s.r.Report(rule, what, pos, st, format, args...)
	}
}

func (s *scans) ob(id, rule, what string) {
	if s.r.ID == id {
		s.r.Ob(rule, what)
	}
}

func rtype(name string, t *Term) *Term { return mkPure("(reflect.Type)."+name, nil, t) }

func isPureOf(t *Term, names ...string) bool {
	if t.K != KPure && t.K != KCall {
		return false
	}
	for _, n := range names {
		if t.Aux == n {
			return true
		}
	}
	return false
}

// typeOf is the type of a reflect value, as far as it is known.
func (s *scans) typeOf(x *Exec, st *State, v *Term) *Term {
	v = strip(v)
	switch {
	case v == s.dst:
		return s.t
	case isPureOf(v, "(reflect.Value).Elem") && isPureOf(strip(v.Args[0]), "reflect.New"):
		return strip(strip(v.Args[0]).Args[0])
	case isPureOf(v, "(reflect.Value).Elem", "(reflect.Value).Index"):
		return rtype("Elem", s.typeOf(x, st, v.Args[0]))
	case isPureOf(v, "reflect.Zero", "reflect.MakeSlice"):
		return strip(v.Args[0])
	case isPureOf(v, "(reflect.Value).Slice"):
		return s.typeOf(x, st, v.Args[0])
	case isPureOf(v, "(reflect.Value).FieldByIndex"):
		if f := fieldPart(v.Args[1], "Index"); f != nil {
			return partTerm(f, "Type")
		}
	case isPureOf(v, "(reflect.Value).Field"):
		return partTerm(rtype("Field", s.typeOf(x, st, v.Args[0])).with(v.Args[1]), "Type")
	}
	return mkPure("(reflect.Value).Type", nil, v)
}

func (t *Term) with(a *Term) *Term {
	return mkPure(t.Aux, t.Typ, append(append([]*Term{}, t.Args...), a)...)
}

// fieldPart: t is the named part of a struct field description.
func fieldPart(t *Term, name string) *Term {
	t = strip(t)
	if t.K == KField && t.Fld.Name() == name && isPureOf(strip(t.Args[0]), "(reflect.Type).Field") {
		return strip(t.Args[0])
	}
	return nil
}

// structField is the same in the other direction, matched by same().
func partTerm(f *Term, name string) *Term {
	return in.mk(Term{K: KPure, Aux: "part:" + name, Args: []*Term{f}})
}

// sameType compares type terms.
func (s *scans) sameType(a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	pa, pb := partOf(a), partOf(b)
	if pa != nil && pb != nil {
		return pa.Aux == pb.Aux && s.sameType(pa.Args[0], pb.Args[0])
	}
	if (a.K == KPure || a.K == KCall) && (b.K == KPure || b.K == KCall) && a.Aux == b.Aux && len(a.Args) == len(b.Args) && strings.HasPrefix(a.Aux, "(reflect.") {
		for i := range a.Args {
			if !s.sameType(a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func partOf(t *Term) *Term {
	if t.K == KPure && strings.HasPrefix(t.Aux, "part:") {
		return t
	}
	if t.K == KField && isPureOf(strip(t.Args[0]), "(reflect.Type).Field") {
		return partTerm(strip(t.Args[0]), t.Fld.Name())
	}
	return nil
}

// kindTerms are the terms that stand for the kind of a type or value.
func (s *scans) kindTerms(x *Exec, st *State, v *Term, isValue bool) []*Term {
	var out []*Term
	v = strip(v)
	add := func(t *Term) { out = append(out, t) }
	for _, a := range st.G("kept") {
		anyTerm(a, func(t *Term) bool {
			switch {
			case t.K == KPure && t.Aux == "(reflect.Type).Kind":
				k := strip(t.Args[0])
				if isValue && (s.sameType(k, s.typeOf(x, st, v)) || isPureOf(k, "(reflect.Value).Type") && strip(k.Args[0]) == v) || !isValue && s.sameType(k, v) {
					add(t)
				}
			case t.K == KPure && t.Aux == "(reflect.Value).Kind":
				k := strip(t.Args[0])
				if isValue && k == v || s.sameType(s.typeOf(x, st, k), condTerm(isValue, s.typeOf(x, st, v), v)) {
					add(t)
				}
			}
			return false
		})
	}
	return out
}

func condTerm(b bool, x, y *Term) *Term {
	if b {
		return x
	}
	return y
}

// kindIn: the kind is known to be one of the given ones.
func (s *scans) kindIn(x *Exec, st *State, v *Term, isValue bool, kinds ...reflect.Kind) bool {
	for _, t := range s.kindTerms(x, st, v, isValue) {
		q := st.clone()
		for _, k := range kinds {
			if !q.assume(mkEq(t, mkInt(int64(k))), false) {
				return true
			}
		}
	}
	return false
}

func (s *scans) kindNot(x *Exec, st *State, v *Term, k reflect.Kind) bool {
	for _, t := range s.kindTerms(x, st, v, false) {
		if st.refuted(mkEq(t, mkInt(int64(k)))) {
			return true
		}
	}
	return false
}

// byteSlice: the type is known to be a slice of bytes.
func (s *scans) byteSlice(x *Exec, st *State, t *Term) bool {
	if s.kindIn(x, st, t, false, reflect.Slice) && s.kindIn(x, st, rtype("Elem", t), false, reflect.Uint8) {
		return true
	}
	for a, v := range st.atoms {
		if !v || a.K != KBin || a.Aux != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if s.sameType(a.Args[i], t) && s.isBytesType(x, a.Args[1-i]) {
				return true
			}
		}
	}
	return false
}

// isBytesType: reflect.TypeOf([]byte(...)), or a variable holding it.
func (s *scans) isBytesType(x *Exec, t *Term) bool {
	t = strip(t)
	if t.K == KLoad && t.Args[0].K == KGlobal {
		for _, g := range globalInits(x.P, t.Args[0]) {
			if isTypeOfBytes(g) {
				return true
			}
		}
		return false
	}
	if isPureOf(t, "reflect.TypeOf") {
		a := t.Args[0]
		return a.K == KIface && a.Args[0].Typ != nil && isBytes(a.Args[0].Typ) || a.K == KIface && a.Typ != nil && isBytes(a.Typ)
	}
	return false
}

// globalInits are the values stored to a package variable anywhere.
func globalInits(P *Prog, g *Term) []ssa.Value {
	var out []ssa.Value
	for _, pkg := range P.Pkgs {
		for _, m := range pkg.Members {
			gl, ok := m.(*ssa.Global)
			if !ok || gl.String() != g.Aux && gl.Name() != g.Aux {
				continue
			}
			for _, fn := range append(append([]*ssa.Function{}, P.Funcs...), pkg.Func("init")) {
				if fn == nil {
					continue
				}
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if st, ok := i.(*ssa.Store); ok && st.Addr == gl {
							out = append(out, st.Val)
						}
					}
				}
			}
		}
	}
	return out
}

func isTypeOfBytes(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || fnName(c.Call.StaticCallee()) != "reflect.TypeOf" {
		return false
	}
	m, ok := c.Call.Args[0].(*ssa.MakeInterface)
	return ok && isBytes(m.X.Type())
}

// ---- what a path reads and where it puts it -------------------------------------------------

// narrow is the node values are to be read from on this path, or nil when
// the path has not decided.
func (s *scans) narrow(x *Exec, st *State) *Term {
	sel := s.sel(x, st, s.opts)
	switch {
	case st.isNil(sel):
		return s.src
	case st.nonNil(sel):
		for _, m := range st.G("matched") {
			if strip(m.Args[0]) == sel && strip(m.Args[1]) == s.src {
				return m
			}
		}
	}
	return nil
}

// read: t is what the options ask to read.
func (s *scans) read(x *Exec, st *State, t *Term) string {
	n := s.narrow(x, st)
	att := s.att(x, st, s.opts)
	named := st.refuted(mkEq(att, mkStr(""))) || st.entailsDiff(mkInt(1), mkLen(att), 0)
	isAttr := func(c *Term) string {
		if !named {
			return "is an attribute where none may be named"
		}
		if strip(c.Args[1]) != att {
			return "is another attribute than the one named"
		}
		if n == nil || strip(c.Args[0]) != n {
			return "is of another node than the selector's first match"
		}
		return ""
	}
	t = strip(t)
	switch {
	case t.K == KCall && t.Aux == fnName(s.text):
		if !isEmptyStr(st, att) {
			return "is the text where an attribute may be named"
		}
		if n == nil || strip(t.Args[0]) != n {
			return "is of another node than the selector's first match"
		}
		return ""
	case t.K == KExtract && t.I == 0 && t.Args[0].K == KCall && t.Args[0].Aux == fnName(s.attr):
		return isAttr(t.Args[0])
	}
	if v, ok := t.isStr(); ok && v == "" {
		if n != nil && st.isNil(n) {
			return ""
		}
		for a, v := range st.atoms {
			if !v && a.K == KExtract && a.I == 1 && a.Args[0].K == KCall && a.Args[0].Aux == fnName(s.attr) {
				return isAttr(a.Args[0])
			}
		}
	}
	return "is not the text or attribute of the selected node"
}

// number: t is what was read, parsed.
func (s *scans) number(x *Exec, st *State, t *Term, parse string) string {
	for t.K == KConv {
		t = t.Args[0]
	}
	if n, ok := t.isInt(); ok && n == 0 {
		for _, c := range st.G("parsed") {
			if st.nonNil(mkExtract(c, 1, errT)) {
				return s.read(x, st, c.Args[0])
			}
		}
		if n := s.narrow(x, st); n != nil && st.isNil(n) {
			return ""
		}
	}
	if t.K == KExtract && t.I == 0 && isPureOf(t.Args[0], "strconv.Atoi") && parse == "strconv.ParseInt" {
		return s.read(x, st, t.Args[0].Args[0])
	}
	if t.K != KExtract || t.I != 0 || !isPureOf(t.Args[0], parse) {
		return "is not parsed by " + parse
	}
	c := t.Args[0]
	if parse != "strconv.ParseFloat" && c.Args[1] != mkInt(10) {
		return "is not parsed as a decimal number"
	}
	if b := c.Args[len(c.Args)-1]; b != mkInt(64) && !(parse != "strconv.ParseFloat" && b == mkInt(0)) && !isPureOf(b, "(reflect.Type).Bits") {
		return "is not parsed at the destination's full width"
	}
	return s.read(x, st, c.Args[0])
}

var setters = map[string]struct {
	kinds []reflect.Kind
	parse string
}{
	"SetString": {[]reflect.Kind{reflect.String}, ""},
	"SetInt":    {[]reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}, "strconv.ParseInt"},
	"SetUint":   {[]reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}, "strconv.ParseUint"},
	"SetFloat":  {[]reflect.Kind{reflect.Float32, reflect.Float64}, "strconv.ParseFloat"},
}

// scanCall describes a call of a nested scan function.
func (s *scans) nested(t *Term) (ia *Term, built *Term) {
	if t == nil {
		return nil, nil
	}
	t = strip(t)
	if t.K == KExtract && t.I == 0 {
		if c := t.Args[0]; c.K == KCall && c.Aux == fnName(s.build) {
			return nil, c
		}
	}
	if a := elemAddr(t); a != nil {
		return a, nil
	}
	return nil, nil
}

// elemAddr: t is (a field of) an element of a slice; its address.
func elemAddr(t *Term) *Term {
	if t.K == KField {
		return elemAddr(t.Args[0])
	}
	if t.K != KLoad {
		return nil
	}
	a := t.Args[0]
	for a.K == KFieldAddr {
		a = a.Args[0]
	}
	if a.K == KIndexAddr {
		return a
	}
	return nil
}

// paired: an element of a field list whose scan function was built for
// the field its index names.
func (s *scans) paired(x *Exec, st *State, el *Term) string {
	T, ok := el.Typ, el.Typ != nil
	if !ok {
		return ""
	}
	sT, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	var b, f *Term
	for i := 0; i < sT.NumFields(); i++ {
		v := x.fieldVar(st, el, i, sT.Field(i))
		if scanSig(sT.Field(i).Type()) {
			if _, c := s.nested(v); c != nil {
				b = c
			}
			continue
		}
		if g := fieldPart(v, "Index"); g != nil {
			f = g
		}
	}
	if b == nil || f == nil {
		// a plain index
		for i := 0; i < sT.NumFields(); i++ {
			v := x.fieldVar(st, el, i, sT.Field(i))
			if b != nil && isInteger(sT.Field(i).Type()) {
				if g := fieldPart(b.Args[s.ti], "Type"); g != nil && g.Args[1] == v {
					f = g
				}
			}
		}
	}
	if b == nil || f == nil {
		return ""
	}
	if p := partOf(strip(b.Args[s.ti])); p == nil || p != partTerm(f, "Type") || strip(f.Args[0]) != s.t {
		return ""
	}
	if !st.isNil(mkExtract(b, 1, errT)) {
		return ""
	}
	return "paired"
}

func (s *scans) exported(x *Exec, st *State, f *Term) bool {
	for a, v := range st.atoms {
		ok := false
		anyTerm(a, func(t *Term) bool {
			if t.K == KField && t.Fld.Name() == "PkgPath" && strip(t.Args[0]) == f {
				ok = ok || isEmptyStr(st, t)
			}
			return false
		})
		if ok || v && a.K == KPure && a.Aux == "(reflect.StructField).IsExported" && strip(a.Args[0]) == f {
			return true
		}
	}
	return false
}

// unexported, untagged or excluded fields are left out.
func (s *scans) excused(x *Exec, st *State, f *Term) bool {
	for a, v := range st.atoms {
		ok := false
		anyTerm(a, func(t *Term) bool {
			switch {
			case t.K == KField && t.Fld.Name() == "PkgPath" && strip(t.Args[0]) == f:
				ok = ok || st.refuted(mkEq(t, mkStr(""))) || st.entailsDiff(mkInt(1), mkLen(t), 0)
			case s.cssOf(t) == f:
				ok = ok || isEmptyStr(st, t) || st.holds(mkEq(t, mkStr("-")))
			case t.K == KExtract && t.I == 1 && isPureOf(t.Args[0], "(reflect.StructTag).Lookup"):
				ok = ok || s.cssOf(mkExtract(t.Args[0], 0, types.Typ[types.String])) == f && st.refuted(t)
			}
			return ok
		})
		if ok || !v && a.K == KPure && a.Aux == "(reflect.StructField).IsExported" && strip(a.Args[0]) == f {
			return true
		}
	}
	return false
}

// cssOf: t is the css tag of a field; which.
func (s *scans) cssOf(t *Term) *Term {
	if t.K == KExtract && t.I == 0 && isPureOf(t.Args[0], "(reflect.StructTag).Lookup") {
		t = t.Args[0]
	} else if !isPureOf(t, "(reflect.StructTag).Get") {
		return nil
	}
	if k, ok := strip(t.Args[1]).isStr(); !ok || k != "css" {
		return nil
	}
	return fieldPart(t.Args[0], "Tag")
}

// at: t is the position of the first @ of tag.
func at(t, tag *Term) bool {
	if !isPureOf(t, "strings.IndexByte", "strings.Index", "strings.IndexRune", "strings.IndexAny") || strip(t.Args[0]) != tag {
		return false
	}
	sep := strip(t.Args[1])
	if v, ok := sep.isStr(); ok {
		return v == "@"
	}
	n, ok := sep.isInt()
	return ok && n == '@'
}

// fromTag: selector text and attribute are the two parts of the field's
// tag.
func (s *scans) fromTag(x *Exec, st *State, f, text, attr *Term) string {
	text, attr = strip(text), strip(attr)
	if tag := text; s.cssOf(tag) == f {
		if v, ok := attr.isStr(); !ok || v != "" {
			return "an attribute is taken that the tag does not name"
		}
		none := false
		for a, v := range st.atoms {
			if !v && isPureOf(a, "strings.Contains", "strings.ContainsRune") && strip(a.Args[0]) == tag {
				none = true
			}
			if !v && a.K == KExtract && a.I == 2 && isPureOf(a.Args[0], "strings.Cut") && strip(a.Args[0].Args[0]) == tag {
				none = true
			}
			anyTerm(a, func(t *Term) bool {
				if at(t, tag) && (st.entailsDiff(t, tZeroInt, -1) || st.holds(mkEq(t, mkInt(-1)))) {
					none = true
				}
				return none
			})
		}
		for _, t := range st.G("fact") {
			if at(t, tag) && st.entailsDiff(t, tZeroInt, -1) {
				none = true
			}
		}
		if !none {
			return "the attribute the tag may name is ignored"
		}
		return ""
	}
	if text.K == KExtract && isPureOf(text.Args[0], "strings.Cut") && text.I == 0 {
		c := text.Args[0]
		if v, ok := strip(c.Args[1]).isStr(); !ok || v != "@" || s.cssOf(strip(c.Args[0])) != f {
			return "the selector is not the tag's part before @"
		}
		if attr.K == KExtract && attr.I == 1 && attr.Args[0] == c {
			return ""
		}
		if v, ok := attr.isStr(); ok && v == "" && st.refuted(mkExtract(c, 2, types.Typ[types.Bool])) {
			return ""
		}
		return "the attribute is not the tag's part after @"
	}
	if text.K == KSlice && s.cssOf(text.Args[0]) == f && (text.Args[1] == tNil || text.Args[1] == tZeroInt) && at(text.Args[2], text.Args[0]) {
		if attr.K == KSlice && attr.Args[0] == text.Args[0] && attr.Args[1] == addConst(text.Args[2], 1) && attr.Args[2] == tNil {
			return ""
		}
		return "the attribute is not the tag's part after @"
	}
	if a := elemAddr(text); a != nil && isPureOf(a.Args[0], "strings.SplitN", "strings.Split") && a.Args[1] == tZeroInt {
		c := a.Args[0]
		if v, ok := strip(c.Args[1]).isStr(); ok && v == "@" && s.cssOf(strip(c.Args[0])) == f {
			if b := elemAddr(attr); b != nil && b.Args[0] == c && b.Args[1] == mkInt(1) {
				return ""
			}
			if v, ok := attr.isStr(); ok && v == "" && st.entailsDiff(mkLen(c), mkInt(1), 0) {
				return ""
			}
			return "the attribute is not the tag's part after @"
		}
	}
	return "the selector is not the tag's part before @"
}

// ---- the check -----------------------------------------------------------------------------

func checkScans(r *Result) {
	s := newScans(r)
	if s == nil {
		return
	}
	// can scan functions be given a nil node?
	probe := newResult(r.P, "S03", r.Tier)
	t := *s
	t.r = probe
	t.nilSafe = true
	t.builder()
	s.nilSafe = true
	for _, f := range probe.Findings {
		if f.Rule == "node" {
			s.nilSafe = false
		}
	}
	s.builder()
	s.top()
	s.callers()
	s.reader()
}

func (s *scans) builder() {
	r := s.r
	where := fnLabel(s.build)
	var f2 string
	h := totality(r, where)
	quiet := r.ID == "S04"
	if quiet {
		h = &Hooks{}
	}
	h.Opaque = func(f *ssa.Function) bool { return f == s.text || f == s.attr }
	fieldsOf := func(a *Term) *Term {
		for a.K == KFieldAddr {
			a = a.Args[0]
		}
		if a.K != KIndexAddr {
			return nil
		}
		if p, ok := a.Typ.(*types.Pointer); ok {
			if sT, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < sT.NumFields(); i++ {
					if scanSig(sT.Field(i).Type()) {
						return a
					}
				}
			}
		}
		return nil
	}
	matches := func(l *Term) bool { return l.K == KCall && l.Aux == evMatchN }
	tr := &tracker{r: r, rule: "each"}
	tr.tracked = func(st *State, l *Term) bool { return s.phase2 }
	tr.excused = func(x *Exec, st *State, el *Term) bool { return false }
	h.AttrOf = func(x *Exec, st *State, t *Term) string { return s.paired(x, st, t) }
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if !s.phase2 {
			return
		}
		a := fieldsOf(addr)
		if a == nil && addr.K == KIndexAddr && matches(addr.Args[0]) {
			a = addr
			st.assume(mkEq(val, tNil), false)
		}
		if a != nil && !st.HasG("seen", a) {
			st.AddG("seen", a)
			tr.load(x, st, a, a, i)
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		tr.assume(x, st, cond, val)
		if cond.K == KUn {
			cond, val = cond.Args[0], !val
		}
		if cond.K == KBin && cond.Aux == "<" && !val && isPureOf(cond.Args[1], "(reflect.Type).NumField") {
			st.AddG("exhausted", strip(cond.Args[1].Args[0]))
		}
	}
	h.BackEdge = func(x *Exec, st *State, fr *frame, b *ssa.BasicBlock, phis []*Term) {
		if s.phase2 {
			tr.backEdge(x, st, fr, b, phis)
			st.ClearG("seen")
			for _, e := range st.G("errs") {
				if st.isNil(e) {
					st.DelG("errs", e)
				}
			}
			return
		}
		s.failures(x, st, tNil, topFn(fr.fn))
		for _, f := range st.G("field") {
			s.ob("S04", "fields", topFn(fr.fn))
			if !s.excused(x, st, f) {
				st.AddG("dropped", strip(f.Args[0]))
			}
		}
		st.ClearG("field")
		st.ClearG("errs")
		st.ClearG("failed")
		st.ClearG("fact")
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		if s.phase2 {
			return
		}
		for _, el := range els {
			if s.paired(x, st, el) == "" {
				continue
			}
			st.attr[el] = attrOr(st.attr[el], "paired")
			anyTerm(el, func(t *Term) bool {
				if t.K == KCall && t.Aux == fnName(s.build) {
					st.AddG("good", t)
				}
				return false
			})
			for _, f := range st.G("field") {
				if anyTerm(el, func(t *Term) bool { return t == f }) {
					s.ob("S03", "exported", where)
					if !s.exported(x, st, f) {
						s.rep("S03", "exported", where, i.Pos(), st, "a field is scanned that may not be exported")
					}
					st.DelG("field", f)
				}
			}
		}
	}
	h.Override = func(x *Exec, st *State, c *Call) []Outcome {
		if c.Name == "(reflect.Value).Len" {
			v := strip(c.Arg(0))
			if isPureOf(v, "reflect.MakeSlice") {
				return one(st, strip(v.Args[1]))
			}
		}
		return nil
	}
	h.Call = func(x *Exec, st *State, c *Call) {
		s.call(x, st, c)
		if !s.phase2 {
			s.buildCall(x, st, c, where)
		} else {
			s.scanCall(x, st, c, f2)
		}
	}
	r.curRoot = where
	x := r.NewExec(h)
	st := newState()
	args := x.Params(s.build, st)
	s.t, s.opts = args[s.ti], args[s.oi]
	st.assume(mkEq(s.t, tNil), false)
	s.phase2 = false
	s.dst, s.src = nil, nil
	outs := x.Root(s.build, st, args...)
	s.dst = mkParam("dst", r.P.stdType("reflect", "Value"))
	s.src = mkParam("src", types.NewPointer(r.P.stdType("golang.org/x/net/html", "Node")))
	for _, o := range outs {
		if o.panic {
			continue
		}
		fnv, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		s.failures(x, o.st, err, where)
		if st.nonNil(err) || o.st.nonNil(err) {
			s.supported(x, o.st, where)
			continue
		}
		s.ob("S03", "function", where)
		fn := strip(fnv)
		if fn.K != KClosure && fn.K != KFunc {
			if o.st.isNil(fn) || !o.st.isNil(err) {
				s.rep("S03", "function", where, token.NoPos, o.st, "success may be returned without a scan function: %v", fnv)
			} else {
				s.rep("S03", "undecided", where, token.NoPos, o.st, "the scan function returned could not be followed: %v", fnv)
			}
			continue
		}
		if s.kindIn(x, o.st, s.t, false, reflect.Struct) {
			s.ob("S04", "fields", where)
			if !o.st.HasG("exhausted", s.t) || o.st.HasG("dropped", s.t) {
				s.rep("S04", "fields", where, token.NoPos, o.st, "a tagged, exported field may be left out")
			}
		}
		ok := false
		for _, k := range []reflect.Kind{reflect.String, reflect.Int, reflect.Uint, reflect.Float32, reflect.Float64, reflect.Struct, reflect.Slice} {
			_ = k
		}
		if s.kindIn(x, o.st, s.t, false, reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.Struct, reflect.Slice, reflect.Array) {
			ok = true
		}
		if !ok {
			s.rep("S03", "kind", where, token.NoPos, o.st, "a scan function is built for a type whose kind is not known to be supported")
		}
		s.phase2 = true
		f2 = fnLabel(fn.Fn)
		st := o.st
		for _, g := range []string{"exhausted", "dropped", "first", "errs", "failed", "handled", "seen", "cur", "curOf", "parsed", "matched"} {
			st.ClearG(g)
		}
		if !s.nilSafe || s.r.ID == "S04" {
			st.assume(mkEq(s.src, tNil), false)
		}
		for _, o := range x.execFn(fn.Fn, []*Term{s.dst, s.src}, fn.Args, st, in.ctx(nil, nil, fn.Fn, "then"), nil) {
			if !o.panic {
				s.scanned(x, o, f2)
			}
		}
		s.phase2 = false
	}
	r.Done(x, where)
	r.curRoot = ""
	s.dst, s.src = nil, nil
	switch r.ID {
	case "S03":
		r.Need("function", 1)
		r.Need("kind", 3)
		r.Need("node", 3)
		r.Need("exported", 1)
	case "S04":
		r.Need("value", 4)
		r.Need("fields", 1)
		r.Need("each", 2)
		r.Need("tag", 1)
		r.Need("options", 1)
	}
}

// failures: errors of nested builds and compilations are reported.
func (s *scans) failures(x *Exec, st *State, res *Term, where string) {
	for _, e := range st.G("errs") {
		s.ob("S03", "reported", where)
		if st.isNil(e) {
			continue
		}
		if !st.nonNil(res) {
			s.rep("S03", "reported", where, token.NoPos, st, "a type that cannot be scanned is not reported: %v", e)
		}
	}
}

// supported: an error without a cause is only for kinds not listed.
func (s *scans) supported(x *Exec, st *State, where string) {
	for _, e := range st.G("errs") {
		if !st.isNil(e) {
			return
		}
	}
	s.ob("S04", "supported", where)
	for _, k := range []reflect.Kind{reflect.String, reflect.Int, reflect.Uint, reflect.Float32, reflect.Float64} {
		if !s.kindNot(x, st, s.t, k) && !s.kindIn(x, st, s.t, false, reflect.Slice, reflect.Struct) {
			s.rep("S04", "supported", where, token.NoPos, st, "a destination of kind %v may be refused", k)
		}
	}
}

// call checks operations that panic on the wrong values.
func (s *scans) call(x *Exec, st *State, c *Call) {
	what := topFn(c.In)
	if strings.HasPrefix(c.Name, "("+cascPkg+".Selector).") || (strings.HasPrefix(c.Name, "func:") && len(c.Args) == 1 && c.Args[0].Typ != nil && types.TypeString(c.Args[0].Typ, nil) == nodeT) {
		sel, node := strip(c.Target0()), c.Args[len(c.Args)-1]
		s.ob("S03", "node", what)
		if sel.K == KFunc || sel.K == KClosure {
			sel = nil
		}
		if sel != nil && !st.nonNil(sel) && !s.compiled(st, sel) {
			s.rep("S03", "selector", what, c.Pos(), st, "a selector is used that may be absent: %v", sel)
		}
		if !st.nonNil(strip(node)) {
			s.rep("S03", "node", what, c.Pos(), st, "a selector is applied to a node that may be nil: %v", node)
		}
	}
	if strings.HasPrefix(c.Name, "func:") && c.Target != nil && scanSig(c.Sig) {
		ia, b := s.nested(c.Target)
		if t := strip(c.Target); t.K == KExtract && st.HasG("good", t.Args[0]) {
			ia = t
		}
		if ia == nil && (b == nil || !st.isNil(mkExtract(strip(c.Target).Args[0], 1, errT))) && !st.nonNil(c.Target) && !present(st, strip(c.Target)) {
			s.rep("S03", "function", what, c.Pos(), st, "a scan function is called that may be nil: %v", c.Target)
		}
	}
	need := func(isValue bool, i int, kinds ...reflect.Kind) {
		s.ob("S03", "kind", what+" "+c.Name)
		if !s.kindIn(x, st, c.Arg(i), isValue, kinds...) {
			s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "%s is called on a %v that may be of another kind than %v", c.Name, c.Arg(i), kinds)
		}
	}
	switch c.Name {
	case "(reflect.Type).Elem":
		need(false, 0, reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map, reflect.Chan)
	case "(reflect.Type).NumField":
		need(false, 0, reflect.Struct)
	case "(reflect.Type).Field":
		need(false, 0, reflect.Struct)
		n := mkPure("(reflect.Type).NumField", nil, strip(c.Arg(0)))
		ok := st.entailsDiff(tZeroInt, c.Arg(1), 0)
		bound := false
		for _, k := range append(st.G("numfield"), n) {
			bound = bound || strip(k.Args[0]) == strip(c.Arg(0)) && st.entailsDiff(c.Arg(1), k, -1)
		}
		if !ok || !bound {
			s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "field index %v may be out of range", c.Arg(1))
		}
	case "(reflect.Value).Elem":
		need(true, 0, reflect.Ptr, reflect.Interface)
	case "(reflect.Value).IsNil":
		need(true, 0, reflect.Ptr, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface)
	case "(reflect.Value).FieldByIndex", "(reflect.Value).Field", "(reflect.Value).NumField":
		need(true, 0, reflect.Struct)
	case "reflect.MakeSlice":
		need(false, 0, reflect.Slice)
		if !st.entailsDiff(tZeroInt, c.Arg(1), 0) || !st.entailsDiff(c.Arg(1), c.Arg(2), 0) {
			s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "length %v may be negative or above the capacity %v", c.Arg(1), c.Arg(2))
		}
	case "(reflect.Value).Index":
		v, i := strip(c.Arg(0)), c.Arg(1)
		s.ob("S03", "kind", what+" "+c.Name)
		if isPureOf(v, "reflect.MakeSlice") {
			if !st.entailsDiff(tZeroInt, i, 0) || !st.entailsDiff(i, strip(v.Args[1]), -1) {
				s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "index %v may be out of range of a slice of length %v", i, v.Args[1])
			}
		} else {
			need(true, 0, reflect.Slice, reflect.Array, reflect.String)
			n := mkPure("(reflect.Value).Len", types.Typ[types.Int], v)
			if !st.entailsDiff(tZeroInt, i, 0) || !st.entailsDiff(i, n, -1) {
				s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "index %v may be out of range", i)
			}
		}
	case "(reflect.Type).Kind", "(reflect.Value).Kind":
		st.AddG("kept", c.Res)
	case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
		st.AddG("fact", c.Res)
	}
	if m := strings.TrimPrefix(c.Name, "(reflect.Value)."); m != c.Name && strings.HasPrefix(m, "Set") {
		s.ob("S03", "kind", what+" "+c.Name)
		v := strip(c.Arg(0))
		switch set, ok := setters[m]; {
		case ok:
			need(true, 0, set.kinds...)
		case m == "SetBytes":
			if !s.byteSlice(x, st, s.typeOf(x, st, v)) {
				s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "bytes are stored to a value that may be no byte slice: %v", v)
			}
		case m == "SetBool":
			need(true, 0, reflect.Bool)
		case m == "SetZero":
		case m == "SetLen", m == "SetCap":
			if c.Arg(1) != tZeroInt {
				s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "the new length %v may exceed the capacity", c.Arg(1))
			}
			need(true, 0, reflect.Slice)
		case m == "Set":
			w := strip(c.Arg(1))
			tw := s.typeOf(x, st, w)
			if isPureOf(w, "reflect.ValueOf") && isPureOf(tw, "(reflect.Value).Type") {
				if s.byteSlice(x, st, s.typeOf(x, st, v)) && w.Args[0].K == KIface && isBytes(w.Args[0].Args[0].Typ) {
					break
				}
			}
			if isPureOf(w, "(reflect.Value).Convert") {
				tw = strip(w.Args[1])
			}
			if !s.sameType(tw, s.typeOf(x, st, v)) && !s.sameType(tw, mkPure("(reflect.Value).Type", nil, v)) {
				s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "a value of type %v may not be assignable to one of type %v", tw, s.typeOf(x, st, v))
			}
		default:
			s.rep("S03", "kind", what+" "+c.Name, c.Pos(), st, "%s is not known to be supported by the value", c.Name)
		}
	}
}

// present: a map entry known to exist; only scan functions that were built
// are ever put in (rule cache).
func present(st *State, t *Term) bool {
	if t.K == KExtract {
		t = t.Args[0]
	}
	if t.K != KLookup {
		return false
	}
	for a, v := range st.atoms {
		if v && a.K == KHas && a.Args[0] == t.Args[0] && a.Args[1] == t.Args[1] {
			return true
		}
	}
	return false
}

// Target0 is the selector a call uses.
func (c *Call) Target0() *Term {
	if c.Target != nil {
		return c.Target
	}
	return c.Args[0]
}

// compiled: a selector from a compilation known to have succeeded.
func (s *scans) compiled(st *State, sel *Term) bool {
	return sel.K == KExtract && sel.I == 0 && (sel.Args[0].K == KCall || sel.Args[0].K == KPure) && strings.HasPrefix(sel.Args[0].Aux, cascPkg+".") && st.isNil(mkExtract(sel.Args[0], 1, errT)) ||
		isPureOf(sel, cascPkg+".MustCompile")
}

// buildCall: events while a scan function is built.
func (s *scans) buildCall(x *Exec, st *State, c *Call, where string) {
	switch {
	case c.Name == "(reflect.Type).Field" && c.Res != nil:
		if strip(c.Arg(0)) == s.t && !st.HasG("field", c.Res) {
			if !st.HasG("first", s.t) {
				if st.entailsDiff(mkInt(1), c.Arg(1), 0) {
					st.AddG("dropped", s.t)
				}
				st.AddG("first", s.t)
			}
			st.AddG("field", c.Res)
		}
	case c.Name == "(reflect.Type).NumField":
		st.AddG("numfield", c.Res)
	case strings.HasPrefix(c.Name, "strings.") && c.Res != nil:
		st.AddG("fact", c.Res)
	case strings.HasPrefix(c.Name, cascPkg+".") && c.Sig.Results().Len() == 2:
		st.AddG("errs", c.R(1))
	case c.Fn == s.build:
		s.ob("S04", "options", site(c))
		st.AddG("errs", c.R(1))
		T, O := strip(c.Arg(s.ti)), c.Arg(s.oi)
		sel, att := s.sel(x, st, O), s.att(x, st, O)
		if f := fieldPart(T, "Type"); f != nil {
			s.ob("S04", "tag", site(c))
			cs := strip(sel)
			text := compiledKey(cs)
			if text == nil {
				s.rep("S04", "tag", site(c), c.Pos(), st, "a field is scanned with a selector that was not compiled from its tag: %v", sel)
				return
			}
			if !s.compiled(st, cs) && !st.nonNil(cs) {
				s.rep("S04", "tag", site(c), c.Pos(), st, "a field's selector may have failed to compile")
			}
			if bad := s.fromTag(x, st, f, text, att); bad != "" {
				s.rep("S04", "tag", site(c), c.Pos(), st, "%s: %v, %v", bad, text, att)
			}
			return
		}
		if s.sameType(T, rtype("Elem", s.t)) {
			if !st.isNil(sel) {
				s.rep("S04", "options", site(c), c.Pos(), st, "the elements are searched for below their own node: %v", sel)
			}
			if strip(att) != s.att(x, st, s.opts) {
				s.rep("S04", "options", site(c), c.Pos(), st, "the elements are read with another attribute than the one named: %v", att)
			}
			return
		}
		s.rep("S04", "options", site(c), c.Pos(), st, "a scan function is built for a type that is not that of a field or element: %v", T)
	}
}

// scanCall: events while a scan function runs.
func (s *scans) scanCall(x *Exec, st *State, c *Call, where string) {
	switch {
	case c.Name == evMatch1, c.Name == evMatchN:
		s.ob("S04", "narrow", where)
		if strip(c.Arg(0)) != s.sel(x, st, s.opts) || strip(c.Arg(1)) != s.src {
			s.rep("S04", "narrow", where, c.Pos(), st, "what is searched is not the given node with the function's own selector: %v", c.Res)
		}
		st.AddG("matched", c.Res)
		return
	case strings.HasPrefix(c.Name, "strconv.Parse"), c.Name == "strconv.Atoi":
		st.AddG("parsed", c.Res)
		return
	case c.Name == fnName(s.text), c.Name == fnName(s.attr):
		st.AddG("fact", c.Res)
		return
	}
	// a nested scan function
	if c.Target != nil && scanSig(c.Sig) {
		v, n := strip(c.Arg(0)), strip(c.Arg(1))
		st.AddG("errs", c.Res)
		s.ob("S03", "nested", where)
		if !s.nilSafe && !st.nonNil(n) {
			s.rep("S03", "nested", where, c.Pos(), st, "a nested scan function is given a node that may be nil: %v", n)
		}
		ia, b := s.nested(c.Target)
		if ia == nil {
			// an element whose content is known
			for _, a := range st.G("cur") {
				for i, f := range elemFields(a) {
					if x.load(st, mkFieldAddr(a, i, f), f.Type()) == c.Target && s.pairedValue(x, st, v, a) {
						ia = a
					}
				}
			}
		}
		switch {
		case ia != nil:
			if !attrHas(x.elemOf(st, ia.Args[0]), "paired") || !s.pairedValue(x, st, v, ia) {
				s.rep("S03", "nested", where, c.Pos(), st, "a field's scan function is given another value: %v", v)
			}
			if n != s.narrow(x, st) {
				s.rep("S04", "value", where, c.Pos(), st, "a field is scanned from another node than the struct's own match: %v", n)
			}
			s.ob("S04", "value", where+" field")
			s.handled(st, ia, where)
		case b != nil:
			if !s.sameType(s.typeOf(x, st, v), b.Args[s.ti]) {
				s.rep("S03", "nested", where, c.Pos(), st, "a scan function built for type %v is given %v", b.Args[s.ti], v)
			}
			s.ob("S04", "value", where+" element")
			na := elemAddr(n)
			ok := false
			if isPureOf(v, "(reflect.Value).Index") && na != nil {
				ok = na.Args[1] == strip(v.Args[1]) && na.Args[0].K == KCall && na.Args[0].Aux == evMatchN
			} else if isPureOf(v, "(reflect.Value).Elem") && na != nil {
				ok = true // appended below
				st.AddG("fresh", v)
			}
			if !ok {
				s.rep("S04", "value", where, c.Pos(), st, "element %v is not scanned from the node of the same position: %v", v, n)
			}
			if na != nil {
				s.handled(st, na, where)
			}
			if isPureOf(v, "(reflect.Value).Index") {
				st.SetG("filled", strip(v.Args[0]))
			}
		default:
			s.rep("S03", "nested", where, c.Pos(), st, "a function is called that is not known to be a scan function of the value's type: %v", c.Target)
		}
		return
	}
	m := strings.TrimPrefix(c.Name, "(reflect.Value).")
	if m == c.Name || !strings.HasPrefix(m, "Set") {
		return
	}
	v := strip(c.Arg(0))
	s.ob("S04", "value", where+" "+m)
	if v != s.dst {
		// a field of the destination
		zero := m == "SetZero" || m == "Set" && isPureOf(strip(c.Arg(1)), "reflect.Zero")
		for _, ia := range st.G("cur") {
			if zero && s.pairedValue(x, st, v, ia) {
				if n := s.narrow(x, st); n == nil || !st.isNil(n) {
					s.rep("S04", "value", where, c.Pos(), st, "a field is cleared although its struct may have a node")
				}
				s.handled(st, ia, where)
				return
			}
		}
		s.rep("S04", "value", where, c.Pos(), st, "something else than the destination is set: %v", v)
		return
	}
	if len(st.G("set")) > 0 {
		s.rep("S04", "value", where, c.Pos(), st, "the destination is set twice")
	}
	bad := ""
	var val *Term = tNil
	if c.Arg(1) != nil {
		val = strip(c.Arg(1))
	}
	switch set, ok := setters[m]; {
	case m == "SetString":
		bad = s.read(x, st, c.Arg(1))
	case ok:
		bad = s.number(x, st, c.Arg(1), set.parse)
	case m == "SetBytes", m == "Set" && isPureOf(val, "reflect.ValueOf"):
		b := c.Arg(1)
		if m == "Set" {
			b = strip(val.Args[0])
		}
		if b.K == KConv {
			b = b.Args[0]
		}
		bad = s.read(x, st, b)
	case m == "SetZero", m == "SetLen", m == "Set" && isPureOf(val, "reflect.Zero"), m == "Set" && isPureOf(val, "reflect.MakeSlice") && val.Args[1] == tZeroInt && len(st.G("fresh")) == 0:
		if s.kindIn(x, st, s.t, false, reflect.Slice) {
			ok := false
			for _, n := range st.G("matched") {
				ok = ok || n.Aux == evMatchN && (st.isNil(n) || st.holds(mkEq(mkLen(n), tZeroInt)) || st.entailsDiff(mkLen(n), tZeroInt, 0))
			}
			if !ok {
				bad = "is cleared although nodes may match"
			}
		} else if n := s.narrow(x, st); n == nil || !st.isNil(n) {
			bad = "is cleared although a node may match"
		}
	case m == "Set":
		// a slice
		ok := false
		for _, n := range st.G("matched") {
			if n.Aux != evMatchN {
				continue
			}
			if isPureOf(val, "reflect.MakeSlice") && val.Args[1] == mkLen(n) && st.HasG("filled", val) && st.HasG("exhausted", n) && !st.HasG("dropped", n) {
				ok = true
			}
			if !isPureOf(val, "reflect.MakeSlice") && len(st.G("fresh")) > 0 && st.HasG("exhausted", n) && !st.HasG("dropped", n) {
				ok = true
			}
			if isPureOf(val, "reflect.MakeSlice") && val.Args[1] == mkLen(n) && st.entailsDiff(mkLen(n), tZeroInt, 0) {
				ok = true
			}
		}
		if !ok {
			bad = "does not get one element for each match"
		}
	default:
		bad = "is set by " + m
	}
	if bad != "" {
		s.rep("S04", "value", where+" "+m, c.Pos(), st, "the value stored %s: %v", bad, c.Arg(1))
	}
	st.SetG("set", mkTok("yes"))
}

// elemFields are the fields of the struct at an address.
func elemFields(ia *Term) (out []*types.Var) {
	if T, ok := ia.Typ.(*types.Pointer); ok {
		if sT, ok := T.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < sT.NumFields(); i++ {
				out = append(out, sT.Field(i))
			}
		}
	}
	return
}

// handled: the list element at ia was scanned.
func (s *scans) handled(st *State, ia *Term, where string) {
	s.ob("S04", "each", where)
	st.DelG("cur", ia)
	if _, ok := ia.Args[1].isInt(); ok {
		st.AddG("handled", ia)
	}
}

// pairedValue: v is the destination's field that the list element at ia
// names.
func (s *scans) pairedValue(x *Exec, st *State, v, ia *Term) bool {
	if !isPureOf(v, "(reflect.Value).FieldByIndex", "(reflect.Value).Field") || strip(v.Args[0]) != s.dst {
		return false
	}
	if elemAddr(strip(v.Args[1])) == ia {
		return true
	}
	for i, f := range elemFields(ia) {
		if x.load(st, mkFieldAddr(ia, i, f), f.Type()) == v.Args[1] {
			return true
		}
	}
	return false
}

// scanned: how a scan function ends.
func (s *scans) scanned(x *Exec, o Outcome, where string) {
	st := o.st
	err := o.res
	s.ob("S04", "done", where)
	for _, e := range st.G("errs") {
		if !st.isNil(e) && !(st.nonNil(err) && carries(st, err, e)) && err != e {
			s.rep("S04", "done", where, token.NoPos, st, "an error of scanning a part is dropped: %v", e)
		}
	}
	if !st.isNil(err) {
		if len(st.G("errs")) > 0 || st.nonNil(err) {
			return
		}
	}
	if s.kindIn(x, st, s.t, false, reflect.Struct) {
		if len(st.G("set")) > 0 {
			return
		}
		all := false
		for _, l := range st.G("exhausted") {
			all = all || !st.HasG("dropped", l)
		}
		for _, l := range st.G("first") {
			if n, ok := mkLen(l).isInt(); ok {
				for _, ia := range st.G("handled") {
					if ia.Args[0] == l {
						n--
					}
				}
				all = all || n == 0
			}
		}
		for _, l := range st.G("exhausted") {
			if st.HasG("dropped", l) {
				all = false
			}
		}
		if !all {
			s.rep("S04", "done", where, token.NoPos, st, "a field of the struct may be left unscanned")
		}
		return
	}
	if len(st.G("set")) == 0 {
		s.rep("S04", "done", where, token.NoPos, st, "the destination is left as it was")
	}
}

// ---- Scanner.Scan and its callers ------------------------------------------------------------

func (s *scans) top() {
	r := s.r
	fn := s.scanner
	where := fnLabel(fn)
	h := totality(r, where)
	if r.ID == "S04" {
		h = &Hooks{}
	}
	h.Opaque = func(f *ssa.Function) bool { return f == s.build }
	h.Call = func(x *Exec, st *State, c *Call) {
		s.call(x, st, c)
		if c.Fn == s.build {
			st.AddG("errs", c.R(1))
			return
		}
		if c.Name == "(reflect.Value).Elem" && !st.refuted(mkPure("(reflect.Value).IsNil", types.Typ[types.Bool], strip(c.Arg(0)))) {
			s.rep("S03", "destination", where, c.Pos(), st, "a nil pointer may be scanned into")
		}
		if c.Name == "(reflect.Value).Type" {
			s.ob("S03", "destination", where)
			if !s.kindIn(x, st, c.Arg(0), true, reflect.Ptr) && !st.nonNil(s.dst) {
				s.rep("S03", "destination", where, c.Pos(), st, "the type of a nil destination may be asked for")
			}
		}
		if c.Target == nil || !scanSig(c.Sig) {
			return
		}
		s.ob("S03", "destination", where)
		v, n := strip(c.Arg(0)), strip(c.Arg(1))
		st.AddG("errs", c.Res)
		st.AddG("scanned", c.Res)
		if n != s.src {
			s.rep("S04", "value", where, c.Pos(), st, "another node is scanned than the one given: %v", n)
		}
		if !isPureOf(v, "(reflect.Value).Elem") || !isPureOf(strip(v.Args[0]), "reflect.ValueOf") || strip(strip(v.Args[0]).Args[0]) != s.dst {
			s.r.Report("value", where, c.Pos(), st, "something else than what the destination points to is scanned into: %v", v)
			return
		}
		T := s.typeOf(x, st, v)
		pt := mkPure("(reflect.Value).Type", nil, strip(v.Args[0]))
		var key *Term
		looked := false
		if _, b := s.nested(c.Target); b != nil {
			key = b.Args[s.ti]
			if b.Args[s.oi] != s.opts {
				s.rep("S04", "options", where, c.Pos(), st, "the scan function is built with other options than the given ones")
			}
		} else {
			t := strip(c.Target)
			if t.K == KExtract {
				t = t.Args[0]
			}
			if t.K == KLookup || isPureOf(t, "mapelem") {
				key = t.Args[1]
				looked = true
			}
		}
		// nothing is ever kept for a pointer type: building for one fails
		if key == nil || !s.sameType(key, T) && !(looked && s.sameType(key, pt)) {
			s.rep("S03", "destination", where, c.Pos(), st, "the scan function called may be for another type than the destination's: %v", c.Target)
		}
	}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if !scanSig(v.Typ) {
			return
		}
		s.ob("S04", "cache", where)
		s.ob("S03", "cache", where)
		if _, b := s.nested(v); b == nil || !st.isNil(mkExtract(b, 1, errT)) {
			s.rep("S03", "cache", where, i.Pos(), st, "what is remembered may not be a scan function: %v", v)
		}
		if _, b := s.nested(v); b == nil || !s.sameType(b.Args[s.ti], k) || !st.isNil(mkExtract(b, 1, errT)) {
			s.rep("S04", "cache", where, i.Pos(), st, "a scan function is remembered for a type it was not built for: %v", v)
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		for _, a := range args[1:] {
			switch {
			case types.TypeString(a.Typ, nil) == nodeT:
				s.src = a
			case types.Identical(a.Typ, s.optT):
				s.opts = a
			default:
				s.dst = a
			}
		}
		s.t = nil
		st.assume(mkEq(s.src, tNil), s.nilSafe && false)
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		err := o.res
		s.ob("S03", "outcome", where)
		for _, e := range st.G("errs") {
			if !st.isNil(e) && !(st.nonNil(err) && carries(st, err, e)) && err != e {
				s.rep("S03", "outcome", where, token.NoPos, st, "a failure to scan is not reported: %v", e)
			}
		}
		if !st.nonNil(err) && len(st.G("scanned")) == 0 {
			s.r.Report("outcome", where, token.NoPos, st, "success is reported for a destination that was not scanned")
		}
	})
	s.dst, s.src = nil, nil
	switch r.ID {
	case "S03":
		r.Need("destination", 1)
		r.Need("outcome", 1)
	case "S04":
		r.Need("cache", 1)
	}
}

func (s *scans) callers() {
	r := s.r
	name := fnName(s.scanner)
	pg := newPages(r)
	if pg == nil {
		return
	}
	roots := map[*ssa.Function]bool{}
	for _, fn := range r.P.Funcs {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Object().Exported() && r.P.calls(fn, name) && fnPkg(fn) != pScan {
			roots[fn] = true
		}
	}
	for _, fn := range r.P.Funcs {
		if !roots[fn] {
			continue
		}
		where := fnLabel(fn)
		var recv *Term
		h := &Hooks{Opaque: func(f *ssa.Function) bool {
			if rs := f.Signature.Results(); rs.Len() > 0 && isURLs(rs.At(0).Type()) {
				return true
			}
			return f == s.scanner || roots[f] || fnPkg(f) == pSel
		}}
		h.Call = func(x *Exec, st *State, c *Call) {
			if c.Fn != s.scanner {
				return
			}
			s.ob("S03", "caller", site(c))
			s.ob("S04", "caller", site(c))
			for _, a := range c.Args[1:] {
				switch {
				case a.Typ != nil && types.TypeString(a.Typ, nil) == nodeT:
					a := strip(a)
					switch ia := elemAddr(a); {
					case ia != nil && ia.Args[0] == recv:
						if st.entailsDiff(mkInt(1), ia.Args[1], 0) {
							s.rep("S04", "caller", site(c), c.Pos(), st, "another node than the list's first is scanned: %v", a)
						}
					case pg.recv != nil && a == pg.get(x, st, pg.root):
						if !st.isNil(pg.get(x, st, pg.err)) {
							s.rep("S03", "caller", site(c), c.Pos(), st, "the document is scanned where parsing it may have failed")
						}
					default:
						s.rep("S04", "caller", site(c), c.Pos(), st, "what is scanned is not the page's document or the list's first node: %v", a)
						if !st.nonNil(a) {
							s.rep("S03", "caller", site(c), c.Pos(), st, "a node is scanned that may be nil: %v", a)
						}
					}
				case types.Identical(a.Typ, s.optT):
					if !st.isNil(s.sel(x, st, a)) || !isEmptyStr(st, s.att(x, st, a)) {
						s.rep("S04", "caller", site(c), c.Pos(), st, "options are given that the scanner's type cache does not tell apart")
					}
				}
			}
		}
		r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
			pg.recv = nil
			if len(args) > 0 {
				recv = args[0]
				if n := namedOf(recv.Typ); n != nil && types.Identical(n, pg.T) {
					pg.recv = recv
				}
			}
		}, nil)
	}
	r.Need("caller", 2)
}

// reader: the attribute reader returns the attribute of the given key, and
// both readers take nil nodes.
func (s *scans) reader() {
	r := s.r
	for _, fn := range []*ssa.Function{s.attr, s.text} {
		where := fnLabel(fn)
		h := totality(r, where)
		if r.ID == "S04" {
			h = &Hooks{}
		}
		isAttr := fn == s.attr
		r.Run(h, fn, where, nil, func(x *Exec, st *State, args []*Term, o Outcome) {
			if o.panic {
				return
			}
			s.ob("S03", "reader", where)
			if !isAttr {
				return
			}
			s.ob("S04", "reader", where)
			val, ok := tupleAt(o.res, 0), tupleAt(o.res, 1)
			switch {
			case st.holds(ok):
				ia := elemAddr(strip(val))
				if ia == nil {
					s.rep("S04", "reader", where, token.NoPos, st, "the value is not that of an attribute: %v", val)
					return
				}
				good := false
				for a, v := range st.atoms {
					if v && a.K == KBin && a.Aux == "==" {
						for i := 0; i < 2; i++ {
							if k := strip(a.Args[i]); elemAddr(k) == ia && fieldNameOf(k) == "Key" && strip(a.Args[1-i]) == args[1] {
								good = true
							}
						}
					}
				}
				if !good || fieldNameOf(strip(val)) != "Val" {
					s.rep("S04", "reader", where, token.NoPos, st, "the value is not that of the attribute asked for: %v", val)
				}
			case st.refuted(ok):
				if !isEmptyStr(st, val) {
					s.rep("S04", "reader", where, token.NoPos, st, "a value is returned for an attribute that is absent: %v", val)
				}
			default:
				s.rep("S04", "reader", where, token.NoPos, st, "whether the attribute exists is not decided: %v", ok)
			}
		})
	}
}

func fieldNameOf(t *Term) string {
	if t.K == KField {
		return t.Fld.Name()
	}
	if t.K == KLoad && t.Args[0].K == KFieldAddr {
		return t.Args[0].Fld.Name()
	}
	return ""
}
