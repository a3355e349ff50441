package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keeping is the reader that stores a response once its body is closed.
type keeping struct {
	c    *caching
	T    *types.Named
	recv *Term
	resp *types.Var // the response kept
	rc   *types.Var // its body
	key  *types.Var
	// what says that the source ended: a flag, or its last error
	flags, errs []*types.Var
	bufs        []*types.Var // buffers, and slices of bytes
}

func newKeeping(c *caching, T *types.Named) *keeping {
	k := &keeping{c: c, T: T}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch ts := types.TypeString(f.Type(), nil); ts {
		case "*net/http.Response":
			k.resp = f
		case "io.ReadCloser":
			k.rc = f
		case "uint64":
			k.key = f
		case "bool":
			k.flags = append(k.flags, f)
		case "error":
			k.errs = append(k.errs, f)
		case "bytes.Buffer", "*bytes.Buffer", "[]byte":
			k.bufs = append(k.bufs, f)
		}
	}
	if k.resp == nil || k.rc == nil || k.key == nil || len(k.bufs) == 0 {
		return nil
	}
	return k
}

func fldIn(f *types.Var, fs []*types.Var) bool {
	for _, g := range fs {
		if f == g {
			return true
		}
	}
	return false
}

// of: addr is the reader's own field f.
func (k *keeping) of(addr *Term, fs ...*types.Var) bool {
	return addr != nil && addr.K == KFieldAddr && addr.Args[0] == k.recv && fldIn(addr.Fld, fs)
}

// source: t is the body read from.
func (k *keeping) source(t *Term) bool {
	t = strip(t)
	return t.K == KLoad && k.of(t.Args[0], k.rc)
}

// wrappers give, or read, all of what they are made from.
var wrappers = map[string]bool{"io.NopCloser": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.Clone": true, "slices.Clone": true,
	"(*bytes.Buffer).Bytes": true, "(*bytes.Buffer).String": true, "strings.NewReader": true, "bytes.NewBufferString": true, "bufio.NewReader": true}

// allOf: t is, or reads, all of a value satisfying f.
func allOf(st *State, t *Term, f func(*Term) bool) bool {
	for n := 0; n < 20; n++ {
		switch {
		case f(t):
			return true
		case t.K == KIface || t.K == KConv:
			t = t.Args[0]
		case t.K == KSlice && t.Args[1] == tNil && t.Args[2] == tNil:
			t = t.Args[0]
		case (t.K == KPure || t.K == KCall) && wrappers[t.Aux]:
			t = t.Args[0]
		case t.K == KAppend:
			// append([]byte(nil), all...)
			return anyTerm(t, f) && !anyTerm(t.Args[0], func(t *Term) bool { return t.K == KLoad || t.K == KCall || t.K == KPure })
		case t.K == KAlloc:
			for k, v := range st.mem {
				if addrRoot(k) == t && allOf(st, v, f) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// buffered: t is, or reads, all bytes kept.
func (k *keeping) buffered(x *Exec, st *State, t *Term) bool {
	return allOf(st, t, func(t *Term) bool {
		return t.K == KLoad && k.of(t.Args[0], k.bufs...) || k.of(t, k.bufs...)
	})
}

// ended: the source is known to have ended.
func (k *keeping) ended(st *State) bool {
	for _, l := range st.G("evidence") {
		if l.Typ != nil && types.TypeString(l.Typ, nil) == "bool" {
			if st.holds(l) {
				return true
			}
			continue
		}
		if isEOFErr(st, l) {
			return true
		}
	}
	for a, v := range st.atoms {
		if v && a.K == KBin && a.Aux == "==" {
			for i := 0; i < 2; i++ {
				if k.source(a.Args[i]) && anyTerm(a.Args[1-i], isNoBody) {
					return true
				}
			}
		}
	}
	return false
}

func isNoBody(t *Term) bool {
	return t.K == KLoad && t.Args[0].K == KGlobal && t.Args[0].Aux == "net/http.NoBody"
}

func isEOFTerm(t *Term) bool {
	return anyTerm(t, func(t *Term) bool { return t.K == KGlobal && t.Aux == "io.EOF" })
}

// isEOFErr: the error e is known to be io.EOF.
func isEOFErr(st *State, e *Term) bool {
	for a, v := range st.atoms {
		if !v {
			continue
		}
		switch {
		case a.K == KBin && a.Aux == "==":
			if a.Args[0] == e && isEOFTerm(a.Args[1]) || a.Args[1] == e && isEOFTerm(a.Args[0]) {
				return true
			}
		case isPureOf(a, "errors.Is"):
			if a.Args[0] == e && isEOFTerm(a.Args[1]) {
				return true
			}
		}
	}
	return false
}

// notEOF: the error e is known not to be io.EOF.
func notEOF(st *State, e *Term) bool {
	for a, v := range st.atoms {
		if !v && eofTest(a, e) {
			return true
		}
	}
	return false
}

// eofTest: t says whether the error of the last read is io.EOF.
func eofTest(t, e *Term) bool {
	if t.K == KBin && t.Aux == "==" {
		return t.Args[0] == e && isEOFTerm(t.Args[1]) || t.Args[1] == e && isEOFTerm(t.Args[0])
	}
	return isPureOf(t, "errors.Is") && t.Args[0] == e && isEOFTerm(t.Args[1])
}

// storeCall: a call that stores bytes under a key.
func (k *keeping) storeCall(call *Call) (key, val *Term) {
	if call.Fn != nil {
		return nil, nil
	}
	if call.Name == evStgStore {
		return call.Args[2], call.Args[3]
	}
	if call.Target == nil || call.Sig == nil || call.Sig.Params().Len() != 3 || len(call.Args) < 3 {
		return nil, nil
	}
	ps := call.Sig.Params()
	if types.TypeString(ps.At(1).Type(), nil) != "uint64" || types.TypeString(ps.At(2).Type(), nil) != "[]byte" {
		return nil, nil
	}
	return call.Args[len(call.Args)-2], call.Args[len(call.Args)-1]
}

func checkC06(r *Result) {
	c := newCaching(r)
	if c == nil {
		return
	}
	d := &doing{c: c}
	d.run("C06")
	if len(d.readers) == 0 {
		r.Missing("the reader that stores a response when it is closed")
		return
	}
	r.Need("wrap", 1)
	for _, T := range d.readers {
		k := newKeeping(c, T)
		if k == nil {
			r.Missing("the parts of " + T.String() + ": response, body, key and buffer")
			continue
		}
		k.read()
		k.close()
		k.others()
	}
	r.Need("read", 1)
	r.Need("stored", 1)
	r.Need("close", 1)
}

func (k *keeping) read() {
	r := k.c.r
	fn := r.P.Method(types.NewPointer(k.T), "Read")
	if fn == nil {
		r.Missing("(" + k.T.String() + ").Read")
		return
	}
	where := fnLabel(fn)
	var dst *Term
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, call *Call) {
		switch {
		case call.Name == "(io.ReadCloser).Read" || call.Name == "(io.Reader).Read":
			if !k.source(call.Arg(0)) {
				return
			}
			if call.Arg(1) != dst {
				r.Report("read", where, call.Pos(), st, "the source is not read into the caller's buffer: %v", call.Arg(1))
			}
			if len(st.G("inner")) > 0 {
				r.Report("read", where, call.Pos(), st, "the source is read more than once")
			}
			st.SetG("inner", call.R(0), call.R(1))
		case strings.HasPrefix(call.Name, "(*bytes.Buffer)."):
			if !k.of(strip(call.Arg(0)), k.bufs...) && !k.buffered(x, st, strip(call.Arg(0))) {
				return
			}
			switch strings.TrimPrefix(call.Name, "(*bytes.Buffer).") {
			case "Write":
				k.kept(st, call.Arg(1), dst, where, call.Pos())
			case "Len", "Cap", "Grow", "Bytes", "String", "Available", "AvailableBuffer":
			default:
				r.Report("read", where, call.Pos(), st, "what was kept is changed: %s", call.Name)
			}
		}
	}
	h.Append = func(x *Exec, st *State, res, base *Term, els []*Term, rest *Term, i ssa.Instruction) {
		if k.buffered(x, st, base) && rest != nil {
			k.kept(st, rest, dst, where, i.Pos())
			st.AddG("longer", res)
		}
	}
	h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		inner := st.G("inner")
		switch {
		case k.of(addr, k.flags...):
			r.Ob("flag", where)
			ok := val == tFalse || st.refuted(val) || st.HasG("evidence", val)
			if len(inner) == 2 {
				ok = ok || eofTest(val, inner[1]) || isEOFErr(st, inner[1])
			}
			for _, e := range st.G("evidence") {
				ok = ok || st.holds(e)
			}
			if !ok {
				r.Report("flag", where, i.Pos(), st, "the response counts as complete where the source may not have ended: %v", val)
			}
		case k.of(addr, k.errs...):
			r.Ob("flag", where)
			if len(inner) == 2 && val != inner[1] && !(st.isNil(val) && st.isNil(inner[1])) && !isEOFErr(st, inner[1]) {
				r.Report("flag", where, i.Pos(), st, "the error kept is not the source's: %v", val)
			}
		case k.of(addr, k.bufs...):
			if !st.HasG("longer", val) {
				r.Report("read", where, i.Pos(), st, "what was kept is replaced: %v", val)
			}
		case k.of(addr, k.key, k.rc, k.resp):
			r.Report("read", where, i.Pos(), st, "the reader's parts are changed: %v", addr)
		}
	}
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if k.of(addr, k.flags...) {
			st.AddG("evidence", val)
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		k.recv, dst = args[0], args[1]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("read", where)
		n, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		inner := st.G("inner")
		if len(inner) != 2 {
			r.Report("read", where, token.NoPos, st, "Read returns without having read the source")
			return
		}
		if n != inner[0] && !same(st, n, inner[0]) || err != inner[1] && !same(st, err, inner[1]) && !(st.isNil(err) && st.isNil(inner[1])) && !(isEOFErr(st, inner[1]) && isEOFTerm(err)) {
			r.Report("read", where, token.NoPos, st, "Read does not return what the source returned: %v, %v", n, err)
		}
		if !st.entailsDiff(inner[0], tZeroInt, 0) {
			switch len(st.G("kept")) {
			case 1:
			case 0:
				r.Report("read", where, token.NoPos, st, "the bytes read are not kept")
			default:
				r.Report("read", where, token.NoPos, st, "the bytes read are kept more than once")
			}
		}
		if !st.isNil(inner[1]) && !notEOF(st, inner[1]) {
			// an end is remembered
			ok := len(k.flags) == 0 && len(k.errs) == 0
			for i := 0; i < k.T.Underlying().(*types.Struct).NumFields(); i++ {
				f := k.T.Underlying().(*types.Struct).Field(i)
				v := x.fieldVar(st, k.recv, i, f)
				if fldIn(f, k.flags) && (st.holds(v) || eofTest(v, inner[1])) || fldIn(f, k.errs) && (v == inner[1] || isEOFErr(st, v)) {
					ok = true
				}
			}
			if !ok {
				r.Report("flag", where, token.NoPos, st, "the end of the source is not remembered")
			}
		}
	})
}

// kept: the bytes t are added to those kept.
func (k *keeping) kept(st *State, t, dst *Term, where string, pos token.Pos) {
	r := k.c.r
	inner := st.G("inner")
	t = strip(t)
	if len(inner) != 2 {
		r.Report("read", where, pos, st, "bytes are kept before they are read")
		return
	}
	ok := t.K == KSlice && t.Args[0] == dst && (t.Args[1] == tNil || t.Args[1] == tZeroInt) && same(st, t.Args[2], inner[0])
	if !ok {
		r.Report("read", where, pos, st, "the bytes kept are not those read: %v", t)
	}
	st.AddG("kept", in.mk(Term{K: KTuple, Args: []*Term{t, mkInt(int64(len(st.G("kept"))))}}))
}

func (k *keeping) close() {
	r := k.c.r
	fn := r.P.Method(types.NewPointer(k.T), "Close")
	if fn == nil {
		r.Missing("(" + k.T.String() + ").Close")
		return
	}
	where := fnLabel(fn)
	within := func(st *State) bool { return len(st.G("within")) > 0 }
	h := &Hooks{}
	h.Enter = func(x *Exec, st *State, f *ssa.Function, args []*Term, site ssa.Instruction) {
		if site != nil && isOnceDo(site) {
			st.SetG("within", mkTok("yes"))
			st.SetG("ran", mkTok("yes"))
		}
	}
	h.Assume = func(x *Exec, st *State, cond *Term, val bool, i ssa.Instruction) {
		if cond.K == KUn {
			cond, val = cond.Args[0], !val
		}
		if cond.K == KCall && (strings.HasSuffix(cond.Aux, ".CompareAndSwap") || strings.HasSuffix(cond.Aux, "Bool).Swap")) {
			if val == strings.HasSuffix(cond.Aux, ".CompareAndSwap") {
				st.AddG("taken", cond)
			} else {
				st.AddG("nottaken", cond)
			}
		}
	}
	h.Exit = func(x *Exec, st *State, f *ssa.Function, args []*Term, res *Term, panicked bool) {
		if within(st) && onceBody(x, f) {
			st.ClearG("within")
		}
	}
	h.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if k.of(addr, k.flags...) || k.of(addr, k.errs...) {
			st.AddG("evidence", val)
			st.SetG("read:"+addr.Fld.Name(), val)
		}
	}
	h.Store = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		switch {
		case k.of(addr, k.flags...):
			if len(st.G("read:"+addr.Fld.Name())) == 0 && !within(st) {
				st.AddG("unread", mkTok(addr.Fld.Name()))
			}
			if k.isEvidence(addr.Fld) && !st.HasG("evidence", val) {
				r.Report("flag", where, i.Pos(), st, "closing changes whether the response counts as complete: %v", val)
			}
			if val != tTrue {
				st.AddG("reset", mkTok(addr.Fld.Name()))
			} else {
				st.AddG("set", mkTok(addr.Fld.Name()))
			}
		case k.of(addr, k.errs...), k.of(addr, k.key, k.rc, k.resp):
			r.Report("close", where, i.Pos(), st, "the reader's parts are changed: %v", addr)
		case k.of(addr, k.bufs...):
			if len(st.G("called")) == 0 {
				r.Report("stored", where, i.Pos(), st, "what was kept is changed before it is stored: %v", val)
			}
		}
	}
	h.Call = func(x *Exec, st *State, call *Call) {
		what := site(call)
		switch {
		case strings.HasSuffix(call.Name, "Closer).Close") && k.source(call.Arg(0)):
			st.AddG("closed", call.Err())
			if len(st.G("closed")) > 1 {
				st.AddG("twice", mkTok("yes"))
			}
		case strings.HasPrefix(call.Name, "(*bytes.Buffer).") && k.of(strip(call.Arg(0)), k.bufs...):
			switch strings.TrimPrefix(call.Name, "(*bytes.Buffer).") {
			case "Len", "Cap", "Grow", "Bytes", "String", "Available", "AvailableBuffer":
			default:
				if len(st.G("called")) == 0 {
					r.Report("stored", what, call.Pos(), st, "what was kept is changed before it is stored: %s", call.Name)
				}
			}
		case call.Name == "net/http/httputil.DumpResponse":
			r.Ob("dump", what)
			st.AddG("step", call.R(1))
			if why := k.whole(x, st, call.Arg(0)); why != "" {
				r.Report("dump", what, call.Pos(), st, "%s", why)
				return
			}
			if !st.holds(call.Arg(1)) {
				r.Report("dump", what, call.Pos(), st, "the response is stored without its body")
			}
			st.AddG("dump", call.R(0))
		case call.Name == "(*net/http.Response).Write":
			r.Ob("dump", what)
			st.AddG("step", call.Err())
			if why := k.whole(x, st, call.Arg(0)); why != "" {
				r.Report("dump", what, call.Pos(), st, "%s", why)
				return
			}
			st.AddG("dump", strip(call.Arg(1)))
		default:
			key, val := k.storeCall(call)
			if key == nil {
				return
			}
			r.Ob("stored", what)
			st.AddG("step", call.Err())
			st.AddG("called", in.mk(Term{K: KTuple, Args: []*Term{call.Err(), mkInt(int64(len(st.G("called"))))}}))
			if n := len(st.G("called")); n > 1 {
				r.Report("once", what, call.Pos(), st, "a response may be stored twice")
			}
			if !within(st) && !k.guarded(st) {
				r.Report("once", what, call.Pos(), st, "a response may be stored each time it is closed")
			}
			if !k.ended(st) {
				r.Report("stored", what, call.Pos(), st, "a response may be stored although its source did not end")
			}
			if key = strip(key); !(key.K == KLoad && k.of(key.Args[0], k.key)) {
				r.Report("stored", what, call.Pos(), st, "the response is not stored under the reader's key: %v", key)
			}
			ok := false
			for _, b := range st.G("dump") {
				if allOf(st, val, func(t *Term) bool { return t == b }) {
					ok = true
				}
			}
			if !ok {
				r.Report("stored", what, call.Pos(), st, "what is stored is not the response: %v", val)
			}
			for _, e := range st.G("step") {
				if e != call.Err() && !st.isNil(e) {
					r.Report("stored", what, call.Pos(), st, "the response is stored although writing it out may have failed")
				}
			}
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		k.recv = args[0]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("close", where)
		// flags that guard the storing are never unset, and set once stored
		if len(st.G("called")) > 0 && len(st.G("ran")) == 0 {
			if len(st.G("set")) == 0 || len(st.G("reset")) > 0 {
				if len(st.G("taken")) == 0 {
					r.Report("once", where, token.NoPos, st, "that the response was stored is not remembered")
				}
			}
		}
		closed := st.G("closed")
		if len(closed) == 0 && !k.guardOff(st) {
			r.Report("close", where, token.NoPos, st, "the source is not closed")
		}
		for _, e := range append(append([]*Term{}, closed...), st.G("step")...) {
			switch {
			case st.isNil(e), o.res == e:
			case carries(st, o.res, e):
			default:
				r.Report("error", where, token.NoPos, st, "a failure is not returned: %v", o.res)
			}
		}
		if len(st.G("step")) == 0 && len(closed) > 0 && o.res != closed[0] && !(st.isNil(closed[0]) && st.isNil(o.res)) && !carries(st, o.res, closed[0]) {
			r.Report("error", where, token.NoPos, st, "Close does not return what the source's Close returned: %v", o.res)
		}
		first := len(st.G("ran")) > 0 || k.guarded(st)
		if first && k.ended(st) && len(st.G("called")) == 0 && len(st.G("step")) == 0 {
			r.Report("stored", where, token.NoPos, st, "a response that was read to its end is not stored")
		}
		if len(st.G("called")) == 0 && len(st.G("step")) > 0 && st.isNil(o.res) {
			r.Report("stored", where, token.NoPos, st, "a response that was read to its end is not stored, and Close does not fail")
		}
	})
}

// guarded: a flag of the reader says nothing was stored yet.
func (k *keeping) guarded(st *State) bool {
	if len(st.G("taken")) > 0 {
		return true
	}
	for _, s := range st.G("set") {
		for _, v := range st.G("read:" + s.Aux) {
			if st.refuted(v) {
				return true
			}
		}
	}
	for _, f := range k.flags {
		for _, v := range st.G("read:" + f.Name()) {
			if st.refuted(v) && !k.isEvidence(f) {
				return true
			}
		}
	}
	return false
}

// guardOff: a flag says Close did its work before.
func (k *keeping) guardOff(st *State) bool {
	if len(st.G("nottaken")) > 0 {
		return true
	}
	for _, f := range k.flags {
		if k.isEvidence(f) {
			continue
		}
		for _, v := range st.G("read:" + f.Name()) {
			if st.holds(v) {
				return true
			}
		}
	}
	return false
}

// isEvidence: the flag is one Read sets.
func (k *keeping) isEvidence(f *types.Var) bool {
	fn := k.c.r.P.Method(types.NewPointer(k.T), "Read")
	return fn != nil && writesField(fn, f, map[*ssa.Function]bool{})
}

func writesField(fn *ssa.Function, f *types.Var, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if a, ok := i.Addr.(*ssa.FieldAddr); ok && structField(a.X.Type(), a.Field) == f {
					return true
				}
			case ssa.CallInstruction:
				if g := i.Common().StaticCallee(); g != nil && fnPkg(g) == fnPkg(fn) && writesField(g, f, seen) {
					return true
				}
			}
		}
	}
	for _, g := range fn.AnonFuncs {
		if writesField(g, f, seen) {
			return true
		}
	}
	return false
}

// whole: the response t is the one kept, with the bytes kept as its body.
func (k *keeping) whole(x *Exec, st *State, t *Term) string {
	c := k.c
	kept := func(t *Term) bool { return t.K == KLoad && k.of(t.Args[0], k.resp) }
	if !kept(t) {
		for _, n := range []string{"StatusCode", "Header", "Request", "ProtoMajor", "ContentLength"} {
			v := c.get(x, st, t, c.rt, n)
			if !(v.K == KLoad && v.Args[0].K == KFieldAddr && v.Args[0].Fld.Name() == n && kept(v.Args[0].Args[0])) &&
				!(v.K == KField && v.Fld.Name() == n && anyTerm(v, kept)) &&
				!(n == "Header" && isPureOf(v, "(net/http.Header).Clone") && anyTerm(v, kept)) {
				return "what is written out is not the response kept: its " + n + " is " + v.String()
			}
		}
	}
	b := c.get(x, st, t, c.rt, "Body")
	if !k.buffered(x, st, b) {
		return "the body written out is not what was read: " + b.String()
	}
	return ""
}

// others: nothing else changes the reader's parts.
func (k *keeping) others() {
	r := k.c.r
	for _, fn := range r.P.Funcs {
		if r.Funcs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := structField(a.X.Type(), a.Field)
				if f == nil {
					continue
				}
				if fldIn(f, k.flags) || fldIn(f, k.errs) || fldIn(f, k.bufs) || f == k.key || f == k.rc || f == k.resp {
					if _, fresh := a.X.(*ssa.Alloc); fresh {
						continue
					}
					r.Report("flag", fnLabel(fn), i.Pos(), nil, "%s changes the reader's %s", fnLabel(fn), f.Name())
				}
			}
		}
	}
}

// memory verifies the storages that only keep bytes in memory.
func (c *caching) memory() {
	r := c.r
	n := r.P.Named(pCache, "Storage")
	if n == nil {
		r.Missing("antcache.Storage")
		return
	}
	for _, T := range r.P.Implementers(n.Underlying().(*types.Interface)) {
		if t := namedOf(T); t == nil || t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != pCache {
			continue
		}
		load, store := r.P.Method(T, "Load"), r.P.Method(T, "Store")
		if load == nil || store == nil {
			continue
		}
		file := func(i ssa.Instruction) bool {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := c.Common().StaticCallee()
			return g != nil && fnPkg(g) == "os"
		}
		if r.P.reaches(load, file) || r.P.reaches(store, file) {
			continue // keeps files: see the D properties
		}
		c.memStore(store)
		c.memLoad(load)
	}
	r.Need("memory", 2)
}

// exactKey: t is the key given, unabridged.
func exactKey(t, key *Term) bool {
	for {
		switch {
		case t == key:
			return true
		case t.K == KIface:
			t = t.Args[0]
		case t.K == KConv && t.Typ != nil:
			b, ok := t.Typ.Underlying().(*types.Basic)
			if !ok || b.Kind() != types.Uint64 && b.Kind() != types.Int64 {
				return false
			}
			t = t.Args[0]
		case isPureOf(t, "strconv.FormatUint", "fmt.Sprint", "strconv.FormatInt"):
			t = t.Args[0]
		default:
			return false
		}
	}
}

func (c *caching) memStore(fn *ssa.Function) {
	r := c.r
	where := fnLabel(fn)
	var key, val *Term
	put := func(x *Exec, st *State, k, v *Term, pos token.Pos) {
		r.Ob("memory", where)
		switch {
		case !exactKey(k, key):
			r.Report("memory", where, pos, st, "the value is kept under another key: %v", k)
		case !allOf(st, v, func(t *Term) bool { return t == val }):
			r.Report("memory", where, pos, st, "another value is kept: %v", v)
		default:
			st.SetG("put", mkTok("yes"))
		}
	}
	h := &Hooks{Call: func(x *Exec, st *State, call *Call) {
		switch call.Name {
		case "(*sync.Map).Store", "(*sync.Map).Swap":
			put(x, st, call.Arg(1), call.Arg(2), call.Pos())
		case "(*sync.Map).LoadOrStore":
			r.Report("memory", where, call.Pos(), st, "a value that is there is not replaced")
		}
	}}
	h.MapWrite = func(x *Exec, st *State, m, k, v *Term, i ssa.Instruction) {
		if _, ok := i.(*ssa.MapUpdate); ok {
			put(x, st, k, v, i.Pos())
		}
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		key, val = args[2], args[3]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		r.Ob("memory", where)
		if !o.panic && !st.nonNil(o.res) && len(st.G("put")) == 0 {
			r.Report("memory", where, token.NoPos, st, "storing succeeds although nothing was kept")
		}
	})
}

func (c *caching) memLoad(fn *ssa.Function) {
	r := c.r
	where := fnLabel(fn)
	var key *Term
	h := &Hooks{Call: func(x *Exec, st *State, call *Call) {
		switch call.Name {
		case "(*sync.Map).Load", "(*sync.Map).LoadAndDelete", "(*sync.Map).LoadOrStore":
			r.Ob("memory", where)
			if !exactKey(call.Arg(1), key) {
				r.Report("memory", where, call.Pos(), st, "another key is looked up: %v", call.Arg(1))
			}
			if call.Name != "(*sync.Map).Load" {
				r.Report("memory", where, call.Pos(), st, "looking up changes what is kept")
			}
			st.SetG("got", call.R(0), call.R(1))
		}
	}}
	h.MapRead = func(x *Exec, st *State, m, k *Term, i ssa.Instruction) {
		r.Ob("memory", where)
		if !exactKey(k, key) {
			r.Report("memory", where, i.Pos(), st, "another key is looked up: %v", k)
		}
		v, has := x.mapGet(st, m, k, types.NewSlice(types.Typ[types.Byte]))
		st.SetG("got", v, has)
	}
	r.Run(h, fn, where, func(x *Exec, st *State, args []*Term) {
		key = args[2]
	}, func(x *Exec, st *State, args []*Term, o Outcome) {
		r.Ob("memory", where)
		if o.panic {
			return
		}
		v, err := tupleAt(o.res, 0), tupleAt(o.res, 1)
		got := st.G("got")
		if len(got) != 2 {
			r.Report("memory", where, token.NoPos, st, "nothing is looked up")
			return
		}
		there := st.holds(got[1])
		switch {
		case !st.isNil(err):
			r.Report("memory", where, token.NoPos, st, "looking up fails: %v", err)
		case st.refuted(got[1]):
			if !st.isNil(v) && v != got[0] {
				r.Report("memory", where, token.NoPos, st, "a value is returned that was not kept: %v", v)
			}
		default:
			same := anyTerm(v, func(t *Term) bool { return t == got[0] }) && !anyTerm(v, func(t *Term) bool { return t.K == KSlice && !(t.Args[1] == tNil && t.Args[2] == tNil) })
			if !same && !(st.isNil(v) && !there && !st.holds(got[1])) || st.isNil(v) && there {
				r.Report("memory", where, token.NoPos, st, "what is returned is not what was kept under the key: %v", v)
			}
		}
	})
}
