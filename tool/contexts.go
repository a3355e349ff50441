package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G03", "value-flow over SSA in every function reachable from an operation given a context or a request: each context argument of each call, and the context of each request sent, derives from the operation's context or request (through With..., captured variables, helpers and fields of the operation's own objects) and never from a background, detached or remembered context (closing what was opened under a bounded detached context excepted); no call waits without a context, and each timed wait also waits for the context", checkG03)
}

// ctxFlow decides where contexts and requests come from.
type ctxFlow struct {
	r      *Result
	P      *Prog
	shared map[*types.Named]bool
	stores map[*types.Var][]*ssa.Store // of fields
	closer map[*ssa.Function][]*ssa.MakeClosure
	seen   map[ssa.Value]bool
}

// a source is where a context comes from, other than the operation's own.
type source struct {
	what    string
	pos     token.Pos
	bounded bool // a timeout applies
	from    bool // derives from the operation's, but for its cancellation
}

func isRequest(t types.Type) bool { return types.TypeString(t, nil) == "*net/http.Request" }

func newCtxFlow(r *Result) *ctxFlow {
	a := newLockAnalysis(r)
	c := &ctxFlow{r: r, P: r.P, shared: a.shared, stores: map[*types.Var][]*ssa.Store{}, closer: map[*ssa.Function][]*ssa.MakeClosure{}}
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						f := structField(fa.X.Type(), fa.Field)
						c.stores[f] = append(c.stores[f], i)
					}
				case *ssa.MakeClosure:
					g := i.Fn.(*ssa.Function)
					c.closer[g] = append(c.closer[g], i)
				}
			}
		}
	}
	return c
}

// of collects the sources of a context (or of the context of a request) that
// are not the operation's own.
func (c *ctxFlow) of(v ssa.Value) []source {
	c.seen = map[ssa.Value]bool{}
	return c.from(v)
}

func (c *ctxFlow) from(v ssa.Value) []source {
	if c.seen[v] {
		return nil
	}
	c.seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		return nil // what is passed is judged where it is passed
	case *ssa.FreeVar:
		return c.bound(v)
	case *ssa.Const:
		return []source{{what: "no context", pos: v.Pos()}}
	case *ssa.Phi:
		var out []source
		for _, e := range v.Edges {
			out = append(out, c.from(e)...)
		}
		return out
	case *ssa.Extract:
		return c.from(v.Tuple)
	case *ssa.ChangeInterface:
		return c.from(v.X)
	case *ssa.TypeAssert:
		return c.from(v.X)
	case *ssa.MakeInterface:
		return c.from(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return c.loaded(v.X)
		}
	case *ssa.Alloc:
		if isRequest(v.Type()) {
			// a copy of a request, or one made by hand
			var out []source
			n := 0
			for _, s := range storesOf(v) {
				if ld, ok := s.Val.(*ssa.UnOp); ok && ld.Op == token.MUL && isRequest(ld.X.Type()) {
					n++
					out = append(out, c.from(ld.X)...)
				}
			}
			if n == 0 {
				out = append(out, source{what: "a request without a context", pos: v.Pos()})
			}
			return out
		}
	case *ssa.Call:
		return c.called(v)
	}
	return []source{{what: "an unknown context", pos: v.Pos()}}
}

func (c *ctxFlow) bound(fv *ssa.FreeVar) []source {
	var out []source
	for j, f := range fv.Parent().FreeVars {
		if f != fv {
			continue
		}
		for _, mc := range c.closer[fv.Parent()] {
			out = append(out, c.from(mc.Bindings[j])...)
		}
	}
	return out
}

// storesOf: the stores to a variable, in its function and in closures.
func storesOf(v ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	for _, ref := range *refs {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr == v {
				out = append(out, i)
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for j, b := range i.Bindings {
				if b == v {
					out = append(out, storesOf(f.FreeVars[j])...)
				}
			}
		}
	}
	return out
}

// loaded: what is kept at an address.
func (c *ctxFlow) loaded(addr ssa.Value) []source {
	var out []source
	switch a := addr.(type) {
	case *ssa.Alloc:
		for _, s := range storesOf(a) {
			out = append(out, c.from(s.Val)...)
		}
		return out
	case *ssa.FreeVar:
		for j, f := range a.Parent().FreeVars {
			if f != a {
				continue
			}
			for _, mc := range c.closer[a.Parent()] {
				switch b := mc.Bindings[j].(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					if !c.seen[b] {
						c.seen[b] = true
						out = append(out, c.loaded(b)...)
					}
				}
			}
		}
		return out
	case *ssa.FieldAddr:
		f := structField(a.X.Type(), a.Field)
		n := namedOf(a.X.Type())
		if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "Response" && f.Name() == "Request" {
			return c.response(a.X)
		}
		if n != nil && c.shared[n] {
			return []source{{what: "the context kept in " + n.Obj().Name() + "." + f.Name(), pos: a.Pos()}}
		}
		for _, s := range c.stores[f] {
			if !c.seen[s.Val] {
				out = append(out, c.from(s.Val)...)
			}
		}
		if len(c.stores[f]) == 0 {
			out = append(out, source{what: "a field that is never set", pos: a.Pos()})
		}
		return out
	case *ssa.Global:
		return []source{{what: "a package variable", pos: addr.Pos()}}
	}
	return []source{{what: "an unknown context", pos: addr.Pos()}}
}

// response: the context of the request a response answers.
func (c *ctxFlow) response(v ssa.Value) []source {
	switch v := v.(type) {
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			f := call.Call.StaticCallee()
			if f != nil && f.String() == "net/http.ReadResponse" {
				return c.from(call.Call.Args[1])
			}
			if f != nil && inScope(f) {
				var out []source
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && v.Index < len(ret.Results) && !c.seen[ret.Results[v.Index]] {
						c.seen[ret.Results[v.Index]] = true
						out = append(out, c.response(ret.Results[v.Index])...)
					}
				}
				return out
			}
		}
	case *ssa.Phi:
		var out []source
		for _, e := range v.Edges {
			if !c.seen[e] {
				c.seen[e] = true
				out = append(out, c.response(e)...)
			}
		}
		return out
	}
	return nil // a client's answer, or one passed in
}

func (c *ctxFlow) called(v *ssa.Call) []source {
	name := ""
	com := v.Common()
	f := com.StaticCallee()
	if com.IsInvoke() {
		name = com.Method.FullName()
	} else if f != nil {
		name = f.String()
	}
	arg := func(i int) ssa.Value { return com.Args[i] }
	switch {
	case name == "context.Background" || name == "context.TODO":
		return []source{{what: "context." + strings.TrimPrefix(name, "context.") + "()", pos: v.Pos()}}
	case name == "context.WithoutCancel":
		out := c.from(arg(0))
		return append(out, source{what: "a context that is not cancelled", pos: v.Pos(), from: len(out) == 0})
	case name == "context.WithTimeout" || name == "context.WithDeadline" || name == "context.WithTimeoutCause" || name == "context.WithDeadlineCause":
		out := c.from(arg(0))
		for i := range out {
			out[i].bounded = true
		}
		return out
	case strings.HasPrefix(name, "context.With"):
		return c.from(arg(0))
	case name == "(*net/http.Request).Context":
		return c.from(arg(0))
	case name == "net/http.NewRequest":
		return []source{{what: "a request without a context", pos: v.Pos()}}
	case name == "net/http.NewRequestWithContext":
		return c.from(arg(0))
	case name == "(*net/http.Request).WithContext" || name == "(*net/http.Request).Clone":
		return c.from(arg(1))
	}
	if f != nil && inScope(f) && len(f.Blocks) > 0 {
		var out []source
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, x := range ret.Results {
				if isCtxType(x.Type()) || isRequest(x.Type()) {
					if k, ok := x.(*ssa.Const); ok && k.IsNil() {
						continue // with an error
					}
					out = append(out, c.from(x)...)
				}
			}
		}
		return out
	}
	// something else that makes a context of a context
	some := false
	var out []source
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	for _, x := range args {
		if isCtxType(x.Type()) || isRequest(x.Type()) {
			some = true
			out = append(out, c.from(x)...)
		}
	}
	if !some {
		return []source{{what: "an unknown context", pos: v.Pos()}}
	}
	return out
}

func isCtxType(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }

// given: functions reachable from an operation that is given a context.
func (c *ctxFlow) given() []*ssa.Function {
	in := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	addType := func(t types.Type) {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || !inRepoPkg(n.Obj().Pkg().Path()) {
			return
		}
		for _, T := range []types.Type{n, types.NewPointer(n)} {
			ms := types.NewMethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				if fn := c.P.Method(T, ms.At(i).Obj().Name()); fn != nil {
					add(fn)
				}
			}
		}
	}
	add = func(fn *ssa.Function) {
		if in[fn] || !inScope(fn) {
			return
		}
		in[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case ssa.CallInstruction:
					if x.Common().IsInvoke() {
						for _, T := range c.P.internalImpls(x.Common().Value.Type()) {
							if m := c.P.Method(T, x.Common().Method.Name()); m != nil {
								add(m)
							}
						}
					} else if g := x.Common().StaticCallee(); g != nil {
						add(g)
					}
				case *ssa.MakeInterface:
					addType(x.X.Type())
				}
				var ops []*ssa.Value
				for _, op := range i.Operands(ops) {
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
					case *ssa.MakeClosure:
						add(g.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		for _, p := range fn.Params {
			if isCtxType(p.Type()) || isRequest(p.Type()) {
				add(fn)
			}
		}
	}
	var out []*ssa.Function
	for fn := range in {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// closing: the call gives up something, which must happen even if the
// operation was cancelled.
func closing(name string) bool {
	i := strings.LastIndex(name, ".")
	n := name[i+1:]
	for _, p := range []string{"Close", "Release", "Shutdown", "Stop", "Cleanup", "Dispose", "close", "release", "shutdown", "stop", "cleanup", "dispose"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func checkG03(r *Result) {
	c := newCtxFlow(r)
	fns := c.given()
	for _, fn := range fns {
		r.Funcs[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c.instr(fn, i)
			}
		}
	}
	r.Need("argument", 20)
	r.Need("request", 2)
}

func (c *ctxFlow) instr(fn *ssa.Function, i ssa.Instruction) {
	r := c.r
	what := topFn(fn)
	switch i := i.(type) {
	case ssa.CallInstruction:
		com := i.Common()
		name := ""
		pkg := ""
		inv := false
		if com.IsInvoke() {
			name = "(" + types.TypeString(com.Value.Type(), nil) + ")." + com.Method.Name()
			inv = true
		} else if f := com.StaticCallee(); f != nil {
			name = f.String()
			pkg = fnPkg(f)
		} else if _, ok := com.Value.(*ssa.Builtin); ok {
			return
		} else {
			name = "a function value"
		}
		if pkg == "context" || isCtxType(recvTypeOf(com)) {
			return
		}
		// waits that no context ends
		switch {
		case name == "time.Sleep":
			r.Report("timed", what, i.Pos(), nil, "time.Sleep does not end when the context is cancelled")
		case contextless(name):
			r.Report("argument", what+": "+short(name), i.Pos(), nil, "%s waits without a context", short(name))
		}
		for j, a := range com.Args {
			if j == 0 && !inv && com.Signature().Recv() != nil {
				continue // the receiver
			}
			switch {
			case isCtxType(a.Type()):
				r.Ob("argument", what+": "+short(name))
				c.judge(what, "argument", name, i.Pos(), c.of(a), inv)
			case types.TypeString(a.Type(), nil) == "*net/http.Response" && strings.Contains(name, repoPath):
				c.seen = map[ssa.Value]bool{}
				r.Ob("request", what+": "+short(name))
				c.judge(what, "request", name, i.Pos(), c.response(a), inv)
			case isRequest(a.Type()) && (sends(name) || name == "a function value" || strings.Contains(name, repoPath)):
				r.Ob("request", what+": "+short(name))
				c.judge(what, "request", name, i.Pos(), c.of(a), inv)
			}
		}
	case *ssa.UnOp:
		if i.Op == token.ARROW && isTimeChan(i.X.Type()) {
			r.Report("timed", what, i.Pos(), nil, "waits for a timer that the context does not end")
		}
	case *ssa.Select:
		timed := false
		for _, s := range i.States {
			timed = timed || isTimeChan(s.Chan.Type())
		}
		if !timed || !i.Blocking {
			return
		}
		r.Ob("timed", what)
		for _, s := range i.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if d := c.doneOf(s.Chan); d != nil && len(c.of(d)) == 0 {
				return
			}
		}
		r.Report("timed", what, i.Pos(), nil, "waits for a timer, and not for the context")
	}
}

func recvTypeOf(com *ssa.CallCommon) types.Type {
	if com.IsInvoke() {
		return com.Value.Type()
	}
	return types.Typ[types.Int]
}

func isTimeChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && types.TypeString(ch.Elem(), nil) == "time.Time"
}

// doneOf: the context whose Done channel v is.
func (c *ctxFlow) doneOf(v ssa.Value) ssa.Value {
	for n := 0; n < 10; n++ {
		switch x := v.(type) {
		case *ssa.Call:
			if x.Call.IsInvoke() && isCtxType(x.Call.Value.Type()) && x.Call.Method.Name() == "Done" {
				return x.Call.Value
			}
			return nil
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				fv, ok := x.X.(*ssa.FreeVar)
				if !ok {
					return nil
				}
				b := c.binding(fv)
				if al, ok = b.(*ssa.Alloc); !ok {
					return nil
				}
			}
			ss := storesOf(al)
			if len(ss) != 1 {
				return nil
			}
			v = ss[0].Val
		case *ssa.FreeVar:
			b := c.binding(x)
			if b == nil {
				return nil
			}
			v = b
		default:
			return nil
		}
	}
	return nil
}

func (c *ctxFlow) binding(fv *ssa.FreeVar) ssa.Value {
	mcs := c.closer[fv.Parent()]
	if len(mcs) != 1 {
		return nil
	}
	for j, f := range fv.Parent().FreeVars {
		if f == fv {
			return mcs[0].Bindings[j]
		}
	}
	return nil
}

// sends: the call sends the request it is given.
func sends(name string) bool {
	return strings.HasSuffix(name, ".Do") || strings.HasSuffix(name, ".RoundTrip") || strings.HasSuffix(name, ".roundtrip")
}

// contextless: blocking calls that take no context, where there is one that does.
func contextless(name string) bool {
	for _, n := range []string{
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head",
		"(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head",
		"github.com/mafredri/cdp/rpcc.Dial", "net.Dial", "net.DialTimeout", "os/exec.Command", "net.LookupHost",
	} {
		if name == n {
			return true
		}
	}
	return false
}

func (c *ctxFlow) judge(what, rule, name string, pos token.Pos, src []source, inv bool) {
	for _, s := range src {
		if closing(name) && s.bounded {
			continue
		}
		if inv && s.from && (strings.HasSuffix(name, ".Done") || strings.HasSuffix(name, ".Close")) {
			continue // an acknowledgement
		}
		c.r.Report(rule, what+": "+short(name), pos, nil, "%s runs under %s (%s), not under the context of the operation", short(name), s.what, c.P.Pos(s.pos))
	}
}
