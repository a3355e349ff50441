package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X01", "typestate of browser targets on every path of the headless client's Do: a target got from the browser or the pool is, by the end, put back into the pool or closed in the browser, exactly once; nothing uses it after that, and no connection to it is left open then; waiting for one ends with the request's context, and closing one does not depend on that context", checkX01)
	register("X02", "typestate of debugger connections on every path of the headless client's Do: a connection dialled without error is closed by the end, an event stream opened without error is closed or its connection is; Close is not called on a connection that may be nil", checkX02)
}

const cdpMod = "github.com/mafredri/cdp"

// inCDP: the type is declared in package path of the protocol's library.
func inCDP(t types.Type, path, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == cdpMod+path && n.Obj().Name() == name
}

func resType(c *Call, i int) types.Type {
	if c.Sig == nil || i >= c.Sig.Results().Len() {
		return nil
	}
	return c.Sig.Results().At(i).Type()
}

// isStream: the type is that of an event stream.
func isStream(t types.Type) bool {
	if t == nil || namedOf(t) == nil || namedOf(t).Obj().Pkg() == nil || !strings.HasPrefix(namedOf(t).Obj().Pkg().Path(), cdpMod) {
		return false
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Ready", "RecvMsg", "Close":
			n++
		}
	}
	return n == 3
}

// isTargets: the channel carries targets.
func isTargets(t types.Type) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && inCDP(ch.Elem(), "/devtool", "Target")
}

type headless struct {
	r   *Result
	do  *ssa.Function
	req *Term
}

func newHeadless(r *Result) *headless {
	h := &headless{r: r, do: r.P.Meth(pCDP, "Client", "Do")}
	if h.do == nil {
		r.Missing("antcdp.Client.Do")
		return nil
	}
	return h
}

// ofReq: t is the request's context, or derived from it.
func (h *headless) ofReq(t *Term) bool {
	return t != nil && derivedFrom(t, func(t *Term) bool {
		return isPureOf(t, "(*net/http.Request).Context") && strip(t.Args[0]) == h.req
	})
}

// ends: t is cancelled when the request's context is.
func (h *headless) ends(t *Term) bool {
	return h.ofReq(t) && !anyTerm(t, func(t *Term) bool {
		return strings.HasPrefix(strings.TrimPrefix(callName(t), "call:"), "context.WithoutCancel")
	})
}

func derivedFrom(t *Term, root func(t *Term) bool) bool {
	for t != nil {
		if root(t) {
			return true
		}
		switch t.K {
		case KExtract, KIface, KConv:
			t = t.Args[0]
		case KCall, KPure, KOld:
			if (strings.HasPrefix(strings.TrimPrefix(callName(t), "call:"), "context.With") || strings.HasSuffix(t.Aux, "errgroup.WithContext")) && len(t.Args) > 0 {
				t = t.Args[0]
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// track follows targets, connections and streams:
//
//	"target"  tuple(target, err or nil)  held
//	"given"   target                     given back
//	"conn"    tuple(conn, err, target)   open
//	"stream"  tuple(stream, err, conn)   open
func (h *headless) track(id string) *Hooks {
	r := h.r
	rep := func(on, rule, what string, pos token.Pos, st *State, f string, args ...any) {
		if on == id {
			r.Report(rule, what, pos, st, f, args...)
		}
	}
	ob := func(on, rule, what string) {
		if on == id {
			r.Ob(rule, what)
		}
	}
	pair := func(ts ...*Term) *Term { return in.mk(Term{K: KTuple, Args: ts}) }
	give := func(x *Exec, st *State, t *Term, what string, pos token.Pos) {
		t = strip(t)
		ob("X01", "given", what)
		for _, c := range st.G("conn") {
			if live(st, c) {
				rep("X01", "after", what, pos, st, "a target is given back while a connection to it is open")
			}
		}
		for _, o := range st.G("target") {
			if o.Args[0] == t {
				st.DelG("target", o)
				st.AddG("given", t)
				return
			}
		}
		if st.HasG("given", t) {
			rep("X01", "given", what, pos, st, "a target is given back twice")
		} else {
			rep("X01", "given", what, pos, st, "what is given back is not a target that was acquired: %v", t)
		}
	}
	used := func(x *Exec, st *State, t *Term, what string, pos token.Pos) {
		for _, g := range st.G("given") {
			if reachAny(st, t, func(t *Term) bool { return t == g }) {
				rep("X01", "after", what, pos, st, "a target is used after it was given back")
			}
		}
	}
	hk := &Hooks{}
	memo := map[*ssa.Function]bool{}
	hk.Opaque = func(fn *ssa.Function) bool {
		v, ok := memo[fn]
		if !ok {
			// A function that neither obtains, gives back, closes nor
			// stores any of these matters only by its results.
			v = inRepo(fn) && fn != h.do && !r.P.reaches(fn, h.matters)
			memo[fn] = v
		}
		return v
	}
	hk.Select = func(x *Exec, st *State, i *ssa.Select, k int, chans []*Term, fr *frame) {
		what := topFn(i.Parent())
		pool, done := false, !i.Blocking
		for j, s := range i.States {
			pool = pool || isTargets(s.Chan.Type())
			c := chans[j]
			done = done || isPureOf(c, "(context.Context).Done") && h.ends(c.Args[0])
		}
		if pool {
			ob("X01", "wait", what)
			if !done {
				rep("X01", "wait", what, i.Pos(), st, "waiting for the pool does not end with the request's context")
			}
		}
		if k < 0 || !isTargets(i.States[k].Chan.Type()) {
			return
		}
		if i.States[k].Dir == types.SendOnly {
			give(x, st, x.sent, what, i.Pos())
			return
		}
		et := i.States[k].Chan.Type().Underlying().(*types.Chan).Elem()
		v := in.mk(Term{K: KGen, Aux: "recv", I: k, Site: i, Ctx: fr.ctx, Typ: et, Args: []*Term{chans[k]}})
		ob("X01", "acquired", what)
		st.AddG("target", pair(v, tNil))
	}
	hk.ChanOp = func(x *Exec, st *State, i ssa.Instruction, ch *Term, send bool) {
		if !isTargets(ch.Typ) {
			return
		}
		rep("X01", "wait", topFn(i.Parent()), i.Pos(), st, "waiting for the pool does not end with the request's context")
		if send {
			give(x, st, x.sent, topFn(i.Parent()), i.Pos())
		}
	}
	hk.Call = func(x *Exec, st *State, c *Call) {
		what := site(c)
		if c.Fn != nil && inRepo(c.Fn) {
			return
		}
		recv := func() types.Type {
			if len(c.Args) == 0 {
				return nil
			}
			return strip(c.Arg(0)).Typ
		}
		switch {
		case inCDP(resType(c, 0), "/devtool", "Target"):
			ob("X01", "acquired", what)
			for _, a := range c.Args {
				if isCtx(a.Typ) && !h.ends(a) {
					rep("X01", "wait", what, c.Pos(), st, "getting a target does not end with the request's context")
				}
			}
			st.AddG("target", pair(c.R(0), c.Err()))
		case c.Name == "(*"+cdpMod+"/devtool.DevTools).Close":
			if len(c.Args) == 3 && h.ends(c.Arg(1)) {
				rep("X01", "given", what, c.Pos(), st, "a target is not closed when the request's context is cancelled")
			}
			give(x, st, c.Arg(2), what, c.Pos())
		case inCDP(resType(c, 0), "/rpcc", "Conn"):
			ob("X02", "conn", what)
			for _, a := range c.Args {
				used(x, st, a, what, c.Pos())
			}
			st.AddG("conn", pair(c.R(0), c.Err()))
		case isStream(resType(c, 0)):
			ob("X02", "stream", what)
			used(x, st, c.Arg(0), what, c.Pos())
			st.AddG("stream", pair(c.R(0), c.Err()))
		case strings.HasSuffix(c.Name, ").Close") && recv() != nil && inCDP(recv(), "/rpcc", "Conn"):
			v := strip(c.Arg(0))
			ob("X02", "closed", what)
			if st.isNil(v) || v == tNil || v.K == KZero {
				rep("X02", "closed", what, c.Pos(), st, "Close is called on a nil connection")
			}
			for _, o := range st.G("conn") {
				if o.Args[0] == v {
					if !st.isNil(o.Args[1]) {
						rep("X02", "closed", what, c.Pos(), st, "Close is called on a connection that may be nil")
					}
					st.DelG("conn", o)
				}
			}
		case strings.HasSuffix(c.Name, ").Close") && recv() != nil:
			v := strip(c.Arg(0))
			if v == tNil || v.K == KZero {
				if inCDP(v.Typ, "/rpcc", "Conn") || c.Invoke {
					rep("X02", "closed", what, c.Pos(), st, "Close is called on nil")
				}
				return
			}
			for _, o := range st.G("stream") {
				if o.Args[0] == v {
					ob("X02", "closed", what)
					st.DelG("stream", o)
				}
			}
		case strings.HasPrefix(strings.TrimPrefix(strings.TrimPrefix(c.Name, "("), "*"), cdpMod):
			for _, a := range c.Args {
				used(x, st, a, what, c.Pos())
			}
		}
	}
	hk.Load = func(x *Exec, st *State, addr, val *Term, i ssa.Instruction) {
		if addr.K == KFieldAddr && st.HasG("given", strip(addr.Args[0])) {
			rep("X01", "after", topFn(i.Parent()), i.Pos(), st, "a target is used after it was given back")
		}
	}
	return hk
}

// matters: the instruction obtains, gives back, closes, or stores a target,
// a connection or a stream.
func (h *headless) matters(i ssa.Instruction) bool {
	kind := func(t types.Type) bool {
		if t == nil {
			return false
		}
		return inCDP(t, "/devtool", "Target") || inCDP(t, "/rpcc", "Conn") || isStream(t) || isTargets(t)
	}
	var sig *types.Signature
	switch i := i.(type) {
	case ssa.CallInstruction:
		sig = i.Common().Signature()
		n := ""
		if i.Common().IsInvoke() {
			n = i.Common().Method.Name()
		} else if f := i.Common().StaticCallee(); f != nil {
			n = f.Name()
		}
		if n == "Close" {
			return true
		}
		for _, a := range i.Common().Args {
			if inCDP(a.Type(), "/devtool", "Target") {
				return true
			}
		}
	case *ssa.Store:
		return kind(i.Val.Type())
	case *ssa.Select:
		for _, s := range i.States {
			if isTargets(s.Chan.Type()) {
				return true
			}
		}
	case *ssa.Send:
		return isTargets(i.Chan.Type())
	case *ssa.UnOp:
		return i.Op == token.ARROW && isTargets(i.X.Type())
	}
	if sig != nil {
		for j := 0; j < sig.Results().Len(); j++ {
			if kind(sig.Results().At(j).Type()) {
				return true
			}
		}
	}
	return false
}

// live: what was obtained with an error may be held.
func live(st *State, t *Term) bool { return !st.nonNil(t.Args[1]) && !st.isNil(t.Args[0]) }

func inRepo(fn *ssa.Function) bool { return strings.HasPrefix(fnPkg(fn), repoPath) }

func isCtx(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "context.Context"
}

func checkX01(r *Result) {
	h := newHeadless(r)
	if h == nil {
		return
	}
	where := fnLabel(h.do)
	r.Run(h.track("X01"), h.do, where, func(x *Exec, st *State, args []*Term) { h.req = args[1] }, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("returned", where)
		for _, t := range st.G("target") {
			if live(st, t) {
				r.Report("returned", where, token.NoPos, st, "a target that was acquired is neither put back nor closed")
			}
		}
	})
	r.Need("acquired", 2)
	r.Need("given", 1)
	r.Need("wait", 1)
}

func checkX02(r *Result) {
	h := newHeadless(r)
	if h == nil {
		return
	}
	where := fnLabel(h.do)
	r.Run(h.track("X02"), h.do, where, func(x *Exec, st *State, args []*Term) { h.req = args[1] }, func(x *Exec, st *State, args []*Term, o Outcome) {
		if o.panic {
			return
		}
		r.Ob("returned", where)
		open := 0
		for _, t := range st.G("conn") {
			if live(st, t) {
				open++
				r.Report("returned", where, token.NoPos, st, "a debugger connection is left open")
			}
		}
		for _, t := range st.G("stream") {
			if live(st, t) && open > 0 {
				r.Report("returned", where, token.NoPos, st, "an event stream is left open")
			}
		}
	})
	r.Need("conn", 1)
	r.Need("stream", 2)
	r.Need("closed", 1)
}
