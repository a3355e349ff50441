package main

import (
	"fmt"
	"go/types"
	"net/textproto"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/yields/ant"

func inRepoPkg(path string) bool {
	return path == repoPath || strings.HasPrefix(path, repoPath+"/")
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnName(o)
	}
	return fn.String()
}

// callee evaluates the function part and arguments of a call.
func (x *Exec) callee(fr *frame, p *path, cc *ssa.CallCommon) (fn, recv *Term, args []*Term) {
	for _, a := range cc.Args {
		args = append(args, x.eval(fr, p, a))
	}
	if cc.IsInvoke() {
		return mkTok("invoke:" + cc.Method.FullName()), x.eval(fr, p, cc.Value), args
	}
	return x.eval(fr, p, cc.Value), nil, args
}

func (x *Exec) mkCall(fr *frame, i ssa.CallInstruction, cc *ssa.CallCommon, fn, recv *Term, args []*Term) *Call {
	c := &Call{Instr: i, In: fr.fn, Ctx: fr.ctx, Sig: cc.Signature()}
	if cc.IsInvoke() {
		c.Invoke = true
		c.Name = cc.Method.FullName()
		c.Args = append([]*Term{recv}, args...)
		return c
	}
	c.Args = args
	switch fn.K {
	case KFunc, KClosure:
		c.Fn = fn.Fn
		c.Name = fnName(fn.Fn)
	default:
		c.Name = "func:" + originName(fn)
	}
	return c
}

// originName names where a function value came from.
func originName(t *Term) string {
	switch t.K {
	case KLoad:
		return originName(t.Args[0])
	case KFieldAddr:
		return t.Fld.Name()
	case KParam:
		return t.Aux
	case KTok:
		return t.Aux
	case KField:
		return t.Aux
	case KLookup:
		return originName(t.Args[0]) + "[]"
	case KExtract:
		return originName(t.Args[0])
	case KCall, KPure:
		return t.Aux
	}
	return kindNames[t.K]
}

func (x *Exec) callInstr(fr *frame, p *path, i *ssa.Call, v ssa.Value) []Outcome {
	fn, recv, args := x.callee(fr, p, &i.Call)
	if b, ok := i.Call.Value.(*ssa.Builtin); ok {
		return []Outcome{{st: p.st, res: x.builtin(fr, p, i, b.Name(), args)}}
	}
	c := x.mkCall(fr, i, &i.Call, fn, recv, args)
	var outs []Outcome
	x.withRoots(p, func() { outs = x.call(p.st, c, fn, recv, args, fr) })
	return outs
}

// call performs a call and returns every way it can end.
func (x *Exec) call(st *State, c *Call, fn, recv *Term, args []*Term, fr *frame) []Outcome {
	x.Sites[c.Instr] = true
	if fn.K == KTok && strings.HasPrefix(fn.Aux, "builtin:") {
		x.deferBuiltin(st, c, strings.TrimPrefix(fn.Aux, "builtin:"), args, fr)
		return []Outcome{{st: st, res: mkTok("void")}}
	}
	if c.Invoke {
		if recv == tNil {
			if x.H.Deref != nil {
				x.H.Deref(x, st, tNil, c.Instr, fr)
			}
			return nil // nil dereference: reported by totality checkers only
		}
		r := recv
		if r.K == KIface {
			if m := x.P.Method(r.Typ, c.Name); m != nil {
				c2 := *c
				c2.Invoke = false
				c2.Fn = m
				c2.Name = fnName(m)
				c2.Args = append([]*Term{r.Args[0]}, args...)
				return x.callFn(st, &c2, m, nil, c2.Args, fr)
			}
		}
		if impls := x.P.internalImpls(c.Instr.Common().Value.Type()); impls != nil {
			var outs []Outcome
			for _, T := range impls {
				q := st.clone()
				ok := in.mk(Term{K: KAssertOk, Args: []*Term{r}, Typ: T, Aux: "ok"})
				if !q.assume(ok, true) {
					continue
				}
				q.note(c.Pos(), "dynamic type is "+T.String())
				m := x.P.Method(T, c.Name)
				self := in.mk(Term{K: KAssert, Args: []*Term{r}, Typ: T})
				c2 := *c
				c2.Invoke = false
				c2.Fn = m
				c2.Name = fnName(m)
				c2.Args = append([]*Term{self}, args...)
				outs = append(outs, x.callFn(q, &c2, m, nil, c2.Args, fr)...)
			}
			return outs
		}
		return x.opaque(st, c, fr)
	}
	switch fn.K {
	case KFunc:
		return x.callFn(st, c, fn.Fn, nil, args, fr)
	case KClosure:
		return x.callFn(st, c, fn.Fn, fn.Args, args, fr)
	}
	if fn == tNil {
		if x.H.Deref != nil {
			x.H.Deref(x, st, tNil, c.Instr, fr)
		}
		return nil
	}
	c.Target = fn
	return x.opaque(st, c, fr)
}

func (x *Exec) callFn(st *State, c *Call, fn *ssa.Function, free, args []*Term, fr *frame) []Outcome {
	wrapper := fn != nil && fn.Synthetic != "" && fn.Parent() == nil && fn.Pkg == nil
	if x.inlinable(fn) && (wrapper || !(x.H.Opaque != nil && x.H.Opaque(fn))) {
		ctx := in.ctx(c.Ctx, c.Instr, fn, "")
		if ctx.depth < 60 && !x.onStack(fn) {
			return x.execFn(fn, args, free, st, ctx, c.Instr)
		}
	}
	return x.opaque(st, c, fr)
}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if fn.Synthetic != "" && fn.Parent() == nil && fn.Pkg == nil {
		// bound method closures, thunks, promoted wrappers
		return true
	}
	return inRepoPkg(fnPkg(fn))
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// opaque models a call whose body is not followed.
func (x *Exec) opaque(st *State, c *Call, fr *frame) []Outcome {
	void := c.Sig.Results().Len() == 0
	c.Res = in.mk(Term{K: KCall, Aux: c.Name, Args: c.Args, Site: c.Instr, Ctx: c.Ctx, Typ: resultType(c.Sig)})
	if void {
		c.Res = mkTok("void")
	}
	if x.H.Override != nil {
		if outs := x.H.Override(x, st, c); outs != nil {
			return outs
		}
	}
	if outs := x.model(st, c, fr); outs != nil {
		return outs
	}
	if x.H.Call != nil {
		x.H.Call(x, st, c)
	}
	return []Outcome{{st: st, res: c.Res}}
}

func one(st *State, t *Term) []Outcome { return []Outcome{{st: st, res: t}} }

var tVoid = mkTok("void")

// pureFns lists functions whose result depends on their arguments only
// (and, for objects, on the object's version).
var pureFns = map[string]bool{
	"strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "strings.Split": true,
	"strings.SplitN": true, "strings.Join": true, "strings.IndexByte": true, "strings.Index": true,
	"strings.LastIndex": true, "strings.LastIndexByte": true, "strings.IndexRune": true, "strings.IndexAny": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.TrimPrefix": true,
	"strings.TrimSuffix": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Trim": true,
	"strings.EqualFold": true, "strings.Cut": true, "strings.Fields": true, "strings.Replace": true, "strings.ReplaceAll": true,
	"strings.NewReader": true, "strings.FieldsFunc": true, "strings.Map": true, "strings.TrimFunc": true, "strings.ToLowerSpecial": true,
	"path.Join": true, "path.Clean": true, "path.Base": true, "path/filepath.Join": true, "path/filepath.Ext": true,
	"path/filepath.Base": true, "path/filepath.IsAbs": true, "path.Ext": true,
	"strconv.Itoa": true, "strconv.FormatUint": true, "strconv.FormatInt": true, "strconv.ParseInt": true,
	"strconv.ParseUint": true, "strconv.ParseFloat": true, "strconv.Atoi": true, "strconv.Quote": true,
	"net/http.CanonicalHeaderKey": true, "net/http.StatusText": true, "net/textproto.CanonicalMIMEHeaderKey": true,
	"(*net/url.URL).String": true, "(*net/url.URL).Hostname": true, "(*net/url.URL).Port": true, "(*net/url.URL).IsAbs": true,
	"(*net/url.URL).EscapedPath": true, "(*net/url.URL).RequestURI": true, "(*net/url.URL).ResolveReference": true,
	"(*net/url.URL).JoinPath": true, "(*net/url.URL).Query": true, "(*net/url.URL).Redacted": true,
	"(*net/http.Request).Context": true, "(context.Context).Done": true, "context.Background": true, "context.TODO": true,
	"(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Time).Add": true,
	"(time.Time).IsZero": true, "(time.Time).Equal": true, "(time.Time).Compare": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true,
	"time.Parse": true, "net/http.ParseTime": true, "(time.Duration).Seconds": true,
	"errors.New": true, "reflect.TypeOf": true, "reflect.ValueOf": true, "bytes.NewReader": true,
	"(reflect.Type).Kind": true, "(reflect.Type).Elem": true, "(reflect.Type).Name": true, "(reflect.Type).String": true,
	"(reflect.Type).NumField": true, "(reflect.Type).Field": true, "(reflect.Value).Type": true, "(reflect.Value).Elem": true,
	"(reflect.Value).Kind": true, "(reflect.Value).FieldByIndex": true, "(reflect.Value).Index": true, "(reflect.Value).Field": true,
	"(reflect.Value).IsNil": true, "(reflect.Value).IsValid": true, "(reflect.Value).Len": true, "(reflect.Value).NumField": true,
	"(reflect.Value).Interface": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(reflect.Type).Bits":              true,
	"(reflect.Value).CanSet":           true,
	"(reflect.StructField).IsExported": true,
	"(reflect.Type).PkgPath":           true,
	"(reflect.Type).Key":               true,
	"(reflect.Type).Len":               true,
	"(reflect.Value).CanInterface":     true,
	"reflect.Zero":                     true,
	"(reflect.Type).Size":              true,
	"(reflect.Value).IsZero":           true,
	"reflect.Indirect":                 true,
	"(reflect.Type).AssignableTo":      true,
	"(reflect.Type).ConvertibleTo":     true,
	"reflect.PointerTo":                true,
	"reflect.PtrTo":                    true,
	"reflect.SliceOf":                  true,
	"io.NopCloser":                     true, "(error).Error": true, "(*net/http.Request).Cookies": true, "errors.Unwrap": true,
	"bytes.NewBuffer": true, "bufio.NewReader": true, "golang.org/x/time/rate.Limit": true, "bytes.NewBufferString": true,
	"io.TeeReader": true, "io.MultiReader": true, "io.LimitReader": true, "(*os.File).Name": true,
	"(net/http.Header).Values": true, "context.Cause": true, "(*strings.Reader).Len": true,
	"(os.FileInfo).Size": true, "(os.FileInfo).ModTime": true, "(os.FileInfo).IsDir": true, "(io/fs.FileInfo).Size": true,
	"(io/fs.FileInfo).ModTime": true, "(io/fs.FileInfo).IsDir": true, "os.SameFile": true,
	"github.com/golang/snappy.Encode": true, "github.com/golang/snappy.Decode": true,
	"(*net/http.Cookie).String": true, "github.com/mafredri/cdp.NewClient": true,
	"(*net/url.URL).Parse":               false,
	"github.com/spaolacci/murmur3.Sum64": true, "github.com/spaolacci/murmur3.Sum32": true, "slices.Contains": true, "hash/crc32.ChecksumIEEE": true,
	"unicode/utf8.RuneCountInString": true, "net.JoinHostPort": true, "net.SplitHostPort": true,
}

// nonNilFns lists functions that never return nil (first result).
var nonNilFns = map[string]bool{
	"bytes.NewReader": true, "bytes.NewBuffer": true, "strings.NewReader": true, "errors.New": true, "context.Background": true,
	"io.NopCloser": true, "bufio.NewReader": true, "reflect.TypeOf": true, "golang.org/x/time/rate.NewLimiter": true,
	"github.com/mafredri/cdp.NewClient": true, "time.NewTimer": true, "time.NewTicker": true, "sync.NewCond": true,
	"encoding/json.NewEncoder": true, "github.com/willf/bloom.New": true, "(*net/http.Request).Context": true,
	"github.com/segmentio/agecache.New": true, "(context.Context).Done": true, "context.TODO": true,
	"(*net/http.Request).Clone": true, "(*net/http.Request).WithContext": true, "(*net/url.URL).ResolveReference": true, "(*net/url.URL).JoinPath": true,
}

func verArgs(x *Exec, st *State, args []*Term) []*Term {
	out := append([]*Term(nil), args...)
	for _, a := range args {
		b := strip(a)
		if v, ok := st.objver[b]; ok {
			out = append(out, v)
		}
		// variadic arguments: use the elements
		if b.K == KSlice {
			if els, ok := x.sliceElems(st, b); ok {
				out = append(out, els...)
			}
		}
	}
	return out
}

func headerKey(k *Term) *Term {
	if s, ok := k.isStr(); ok {
		return mkStr(textproto.CanonicalMIMEHeaderKey(s))
	}
	if k.K == KPure && (k.Aux == "net/http.CanonicalHeaderKey" || k.Aux == "net/textproto.CanonicalMIMEHeaderKey") {
		return k
	}
	return mkPure("net/http.CanonicalHeaderKey", types.Typ[types.String], k)
}

// model handles functions with known behaviour; nil means none.
func (x *Exec) model(st *State, c *Call, fr *frame) []Outcome {
	name := c.Name
	hook := func() {
		if x.H.Call != nil {
			x.H.Call(x, st, c)
		}
	}
	if strings.HasSuffix(name, ").Temporary") && len(c.Args) == 1 && isBool(c.Sig) && unbuilt(c.Args[0]) {
		// a request that cannot be built is not a temporary failure
		hook()
		return one(st, tFalse)
	}
	switch name {
	case "fmt.Errorf":
		els, _ := x.sliceElems(st, c.Args[1])
		var wrapped []*Term
		if f, ok := c.Args[0].isStr(); ok {
			for _, k := range wrapVerbs(f) {
				if k < len(els) {
					wrapped = append(wrapped, els[k])
				}
			}
			c.Res = in.mk(Term{K: KWrap, Aux: f, Args: wrapped, Typ: c.Sig.Results().At(0).Type()})
		} else {
			c.Res = in.mk(Term{K: KWrap, Aux: "?", Typ: c.Sig.Results().At(0).Type()})
		}
		hook()
		return one(st, c.Res)
	case "errors.Join":
		els, _ := x.sliceElems(st, c.Args[0])
		var ws []*Term
		allNil := true
		for _, e := range els {
			if e == tNil || st.isNil(e) {
				continue
			}
			allNil = false
			ws = append(ws, e)
		}
		if allNil {
			return one(st, tNil)
		}
		known := false
		for _, e := range ws {
			if st.nonNil(e) {
				known = true
			}
		}
		if known {
			c.Res = in.mk(Term{K: KWrap, Aux: "join", Args: ws, Typ: c.Sig.Results().At(0).Type()})
		} else {
			c.Res = mkPure("errors.Join", c.Sig.Results().At(0).Type(), ws...)
		}
		hook()
		return one(st, c.Res)
	case "github.com/hashicorp/go-multierror.Append":
		els, _ := x.sliceElems(st, c.Args[1])
		ws := append([]*Term{c.Args[0]}, els...)
		var keep []*Term
		for _, w := range ws {
			if !st.isNil(strip(w)) {
				keep = append(keep, w)
			}
		}
		c.Res = in.mk(Term{K: KWrap, Aux: "multierror", Args: keep, Typ: c.Sig.Results().At(0).Type()})
		hook()
		return one(st, c.Res)
	case "errors.Is":
		hook()
		return one(st, errorsIs(c.Args[0], c.Args[1]))
	case "errors.As":
		hook()
		return x.errorsAs(st, c)
	case "(context.Context).Err":
		hook()
		ctx := c.Args[0]
		for a, v := range st.atoms {
			if !v && a.K == KBin && a.Aux == "==" && a.Args[1] == tNil && a.Args[0].K == KPure && a.Args[0].Aux == name && a.Args[0].Args[0] == ctx {
				return one(st, a.Args[0])
			}
		}
		return one(st, mkPure(name, c.Sig.Results().At(0).Type(), ctx, st.epoch))
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		x.lockOp(st, c, c.Args[0], true)
		hook()
		return one(st, tVoid)
	case "(*sync.RWMutex).RLock":
		x.lockOp(st, c, c.Args[0], false)
		hook()
		return one(st, tVoid)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		hook()
		x.unlockOp(st, c, c.Args[0], true)
		return one(st, tVoid)
	case "(*sync.RWMutex).RUnlock":
		hook()
		x.unlockOp(st, c, c.Args[0], false)
		return one(st, tVoid)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		hook()
		a := st.clone()
		x.lockOp(a, c, c.Args[0], true)
		return []Outcome{{st: a, res: tTrue}, {st: st, res: tFalse}}
	case "(*sync.Cond).Wait":
		hook()
		x.bump(st, c.Instr, c.Ctx)
		return one(st, tVoid)
	case "(*sync.Once).Do":
		hook()
		return x.onceDo(st, c, fr)
	case "(*golang.org/x/sync/errgroup.Group).Go", "(*sync.WaitGroup).Go":
		hook()
		x.spawn(st, c, c.Args[1], nil, nil)
		return one(st, tVoid)
	case "(*golang.org/x/sync/errgroup.Group).TryGo":
		hook()
		b := st.clone()
		x.spawn(st, c, c.Args[1], nil, nil)
		return []Outcome{{st: st, res: tTrue}, {st: b, res: tFalse}}
	case "(*golang.org/x/sync/errgroup.Group).Wait", "(*sync.WaitGroup).Wait":
		x.bump(st, c.Instr, c.Ctx)
		return nil
	case "(net/http.Header).Get", "(net/textproto.MIMEHeader).Get":
		hook()
		return one(st, x.headerGet(st, c.Args[0], headerKey(c.Args[1])))
	case "(net/http.Header).Set", "(net/textproto.MIMEHeader).Set":
		hook()
		k := headerKey(c.Args[1])
		x.mapSet(st, c.Args[0], k, mkPure("hdrval", nil, c.Args[2]), c.Instr, c.Ctx)
		return one(st, tVoid)
	case "(net/http.Header).Add", "(net/textproto.MIMEHeader).Add":
		hook()
		k := headerKey(c.Args[1])
		old, _ := x.mapGet(st, c.Args[0], k, types.NewSlice(types.Typ[types.String]))
		x.mapSet(st, c.Args[0], k, mkPure("hdradd", nil, old, c.Args[2]), c.Instr, c.Ctx)
		return one(st, tVoid)
	case "(net/http.Header).Del", "(net/textproto.MIMEHeader).Del":
		hook()
		x.mapSet(st, c.Args[0], headerKey(c.Args[1]), mkTok("deleted"), c.Instr, c.Ctx)
		return one(st, tVoid)
	case "(net/http.Header).Values", "(net/textproto.MIMEHeader).Values":
		hook()
		v, _ := x.mapGet(st, c.Args[0], headerKey(c.Args[1]), types.NewSlice(types.Typ[types.String]))
		return one(st, v)
	case "strings.EqualFold":
		hook()
		return one(st, mkPure(name, types.Typ[types.Bool], c.Args...))
	case "bytes.NewBufferString":
	case "(*net/http.Request).Clone", "(*net/http.Request).WithContext":
		st.atoms[mkEq(c.Res, tNil)] = false
		hook()
		// the clone carries the new context and copies of the rest
		if n, ok := types.Unalias(x.P.httpReq()).(*types.Named); ok && strings.HasSuffix(name, "WithContext") {
			fs := n.Underlying().(*types.Struct)
			for i := 0; i < fs.NumFields(); i++ {
				if f := fs.Field(i); f.Exported() {
					a := mkFieldAddr(c.Args[0], i, f)
					if _, ok := st.mem[a]; ok || f.Name() == "Header" {
						st.mem[mkFieldAddr(c.Res, i, f)] = x.load(st, a, f.Type())
					}
				}
			}
		}
		return one(st, c.Res)
	case "(*net/http.Request).Context":
		hook()
		b := c.Args[0]
		if b.K == KCall && (strings.HasSuffix(b.Aux, ".Clone") || strings.HasSuffix(b.Aux, ".WithContext")) {
			return one(st, b.Args[1])
		}
		if b.K == KExtract && b.Args[0].K == KCall && b.Args[0].Aux == "net/http.NewRequestWithContext" {
			return one(st, b.Args[0].Args[0])
		}
	}
	if pureFns[name] {
		ty := resultType(c.Sig)
		if strings.HasPrefix(name, "strings.Index") || strings.HasPrefix(name, "strings.LastIndex") {
			res := mkPure(name, ty, c.Args...)
			st.addDiff(mkInt(-1), res, 0)
			if sep, ok := c.Args[1].isStr(); !ok || sep != "" {
				st.addDiff(res, mkLen(c.Args[0]), -1)
			}
		}
		c.Res = mkPure(name, ty, verArgs(x, st, c.Args)...)
		if nonNilFns[name] {
			st.atoms[mkEq(c.Res, tNil)] = false
		}
		hook()
		return one(st, c.Res)
	}
	if nonNilFns[name] {
		st.atoms[mkEq(c.Res, tNil)] = false
	}
	return nil
}

// wrapVerbs returns the operand indices of the %w verbs of a format.
func wrapVerbs(f string) []int {
	var out []int
	arg := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			if f[i] == '*' {
				arg++
			}
			i++
		}
		if i >= len(f) {
			break
		}
		switch f[i] {
		case '%':
			continue
		case 'w':
			out = append(out, arg)
		}
		arg++
	}
	return out
}

func errorsIs(err, target *Term) *Term {
	if err == target {
		return tTrue
	}
	if err.K == KWrap && len(err.Args) == 1 {
		return errorsIs(err.Args[0], target)
	}
	if err.K == KIface && err.Typ != nil && strings.HasSuffix(err.Typ.String(), "multierror.Error") {
		return errorsIs(err.Args[0], target)
	}
	return mkPure("errors.Is", types.Typ[types.Bool], err, target)
}

// errorsAs models errors.As(err, &target).
func (x *Exec) errorsAs(st *State, c *Call) []Outcome {
	err, tgt := c.Args[0], strip(c.Args[1])
	pt, ok := tgt.Typ.Underlying().(*types.Pointer)
	if !ok {
		return one(st, c.Res)
	}
	T := pt.Elem()
	if x.asImpossible(st, err, T) {
		return one(st, tFalse)
	}
	if v := asDirect(err, T); v != nil {
		x.store(st, tgt, v, c.Instr, c.Ctx)
		return one(st, tTrue)
	}
	inner := err
	for inner.K == KWrap && len(inner.Args) == 1 && !asSelf(T) {
		inner = inner.Args[0]
	}
	ok1 := in.mk(Term{K: KAs, Aux: "ok", Args: []*Term{inner}, Typ: T})
	if v, known := st.atoms[ok1]; known {
		if v {
			x.store(st, tgt, in.mk(Term{K: KAs, Args: []*Term{inner}, Typ: T}), c.Instr, c.Ctx)
			return one(st, tTrue)
		}
		return one(st, tFalse)
	}
	a := st.clone()
	a.atoms[ok1] = true
	if !a.assume(mkEq(inner, tNil), false) {
		st.atoms[ok1] = false
		return one(st, tFalse)
	}
	x.store(a, tgt, in.mk(Term{K: KAs, Args: []*Term{inner}, Typ: T}), c.Instr, c.Ctx)
	st.atoms[ok1] = false
	return []Outcome{{st: a, res: tTrue}, {st: st, res: tFalse}}
}

// asSelf: the wrapper type itself would match T.
func asSelf(T types.Type) bool { return wrapImplements(T) }

func asDirect(err *Term, T types.Type) *Term {
	if err.K == KIface && assertable(err.Typ, T) {
		if types.IsInterface(T) {
			return err
		}
		return err.Args[0]
	}
	if err.K == KWrap {
		for _, a := range err.Args {
			if v := asDirect(a, T); v != nil {
				return v
			}
		}
	}
	return nil
}

// isRepoType: a concrete type the repository defines, or a pointer to one.
func isRepoType(T types.Type) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := types.Unalias(T).(*types.Named)
	return ok && !types.IsInterface(n) && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPath)
}

func (x *Exec) asImpossible(st *State, err *Term, T types.Type) bool {
	if st.isNil(err) {
		return true
	}
	if e := err; e.K == KExtract && isRepoType(T) {
		// the standard library knows none of the repository's types
		for _, p := range []string{"net/http.NewRequest", "net/url.", "strconv.", "os.", "time."} {
			if c := e.Args[0]; (c.K == KCall || c.K == KPure) && strings.HasPrefix(c.Aux, p) {
				return true
			}
		}
	}
	switch err.K {
	case KIface:
		return !assertable(err.Typ, T) && !hasIsOrUnwrap(err.Typ)
	case KWrap:
		if asSelf(T) {
			return false
		}
		for _, a := range err.Args {
			if !x.asImpossible(st, a, T) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) headerGet(st *State, h, k *Term) *Term {
	if h == tNil {
		return mkStr("")
	}
	str := types.Typ[types.String]
	v, has := x.mapGet(st, h, k, types.NewSlice(str))
	if has == tFalse {
		return mkStr("")
	}
	if v.K == KPure && v.Aux == "hdrval" {
		return v.Args[0]
	}
	if v.K == KSlice {
		if els, ok := x.sliceElems(st, v); ok && len(els) > 0 {
			return els[0]
		}
	}
	return mkPure("http.Header.Get", str, v)
}

// ---- locks, once, threads -------------------------------------------------------------

func lockID(t *Term) *Term {
	return strip(t)
}

func (x *Exec) lockOp(st *State, c *Call, l *Term, write bool) {
	x.bump(st, c.Instr, c.Ctx)
	st.locks = append(st.locks, held{lock: lockID(l), write: write, site: c.Instr})
}

func (x *Exec) unlockOp(st *State, c *Call, l *Term, write bool) {
	l = lockID(l)
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].lock == l {
			st.locks = append(append([]held(nil), st.locks[:i]...), st.locks[i+1:]...)
			return
		}
	}
	st.AddG("!unlock", l)
}

func (x *Exec) onceDo(st *State, c *Call, fr *frame) []Outcome {
	once := strip(c.Args[0])
	done := mkPure("oncedone", types.Typ[types.Bool], once)
	f := c.Args[1]
	var outs []Outcome
	if v, ok := st.atoms[done]; ok && v {
		return one(st, tVoid)
	}
	a := st.clone()
	a.atoms[done] = true
	a.note(c.Pos(), "once already done")
	if r := addrRoot(once); r.K == KAlloc {
		// fresh object: cannot have run yet
	} else {
		x.bump(a, c.Instr, c.Ctx)
		outs = append(outs, Outcome{st: a, res: tVoid})
	}
	st.note(c.Pos(), "once runs")
	st.atoms[done] = true
	c2 := *c
	c2.Sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	c2.Args = nil
	c2.Name = "func:once"
	if f.K == KFunc || f.K == KClosure {
		c2.Fn = f.Fn
		c2.Name = fnName(f.Fn)
	}
	for _, o := range x.call(st, &c2, f, nil, nil, fr) {
		outs = append(outs, Outcome{st: o.st, res: tVoid, panic: o.panic})
	}
	return outs
}

// spawn explores a goroutine body as a thread of its own.
func (x *Exec) spawn(st *State, c *Call, fn, recv *Term, args []*Term) {
	child := st.clone()
	child.locks = nil
	child.note(c.Pos(), "goroutine")
	if x.H.Spawn != nil {
		x.H.Spawn(x, st, child, c, fn)
	}
	c2 := *c
	c2.Args = args
	c2.Go = true
	if c.Invoke || c.Instr.Common().IsInvoke() && recv != nil {
		c2.Invoke = true
		c2.Args = append([]*Term{recv}, args...)
	} else {
		c2.Invoke = false
		if fn.K == KFunc || fn.K == KClosure {
			c2.Fn = fn.Fn
			c2.Name = fnName(fn.Fn)
			c2.Sig = fn.Fn.Signature
		} else {
			c2.Name = "func:" + originName(fn)
			if fn.Typ != nil {
				if sg, ok := fn.Typ.Underlying().(*types.Signature); ok {
					c2.Sig = sg
				}
			}
		}
	}
	x.bump(child, c.Instr, c.Ctx)
	// only what the goroutine was given matters to it
	saved := x.roots
	own := append([]*Term{fn}, args...)
	if recv != nil {
		own = append(own, recv)
	}
	x.roots = [][]*Term{own}
	if len(saved) > 0 {
		x.roots = append(x.roots, saved[0])
	}
	child.gc(x.allRoots())
	key := fmt.Sprintf("%d/%d/%s", in.site(c.Instr), fn.ID, child.key(true))
	for _, a := range own {
		key += "," + strconv.Itoa(a.ID)
	}
	if x.spawned == nil {
		x.spawned = map[string]bool{}
	}
	if x.spawned[key] {
		x.roots = saved
		return
	}
	x.spawned[key] = true
	outs := x.call(child, &c2, fn, recv, args, nil)
	x.roots = saved
	for _, o := range outs {
		if x.H.ThreadEnd != nil {
			x.H.ThreadEnd(x, o.st, c, o.res, o.panic)
		}
	}
}

// ---- builtins -----------------------------------------------------------------------------

func (x *Exec) deferBuiltin(st *State, c *Call, name string, args []*Term, fr *frame) {
	switch name {
	case "close":
		c.Name = "builtin.close"
		c.Args = args
		if x.H.Call != nil {
			x.H.Call(x, st, c)
		}
	case "delete":
		x.mapDelete(st, args[0], args[1], c.Instr)
	}
}

func (x *Exec) mapDelete(st *State, m, k *Term, i ssa.Instruction) {
	if x.H.MapWrite != nil {
		x.H.MapWrite(x, st, m, k, nil, i)
	}
	x.mapSet(st, m, k, mkTok("deleted"), i, nil)
}

func (x *Exec) builtin(fr *frame, p *path, i *ssa.Call, name string, args []*Term) *Term {
	st := p.st
	switch name {
	case "len":
		if x.H.MapRead != nil {
			if _, ok := i.Call.Args[0].Type().Underlying().(*types.Map); ok {
				x.H.MapRead(x, st, args[0], nil, i)
			}
		}
		return mkLen(args[0])
	case "cap":
		return mkPure("cap", types.Typ[types.Int], args...)
	case "append":
		if len(args) < 2 {
			return args[0]
		}
		base, rest := args[0], args[1]
		res := in.mk(Term{K: KAppend, Args: []*Term{base, rest}, Typ: i.Type()})
		els, ok := x.sliceElems(st, rest)
		eb := x.elemOf(st, base)
		var er string
		if ok {
			er = attrAll
			for _, e := range els {
				er = attrAnd(er, x.attrOf(st, e))
			}
			// freeze: keep the element terms in the append term
			res = in.mk(Term{K: KAppend, Args: []*Term{base, mkElems(els, rest)}, Typ: i.Type()})
		} else {
			er = x.elemOf(st, rest)
		}
		if e := attrAnd(eb, er); e != "" {
			st.elem[res] = e
		}
		if x.H.Append != nil {
			if ok {
				x.H.Append(x, st, res, base, els, nil, i)
			} else {
				x.H.Append(x, st, res, base, nil, rest, i)
			}
		}
		return res
	case "copy":
		return in.mk(Term{K: KGen, Aux: "copy", Site: i, Ctx: fr.ctx, Typ: types.Typ[types.Int]})
	case "delete":
		x.mapDelete(st, args[0], args[1], i)
		return tVoid
	case "close":
		c := &Call{Name: "builtin.close", Args: args, Instr: i, In: fr.fn, Ctx: fr.ctx, Sig: i.Call.Signature()}
		if x.H.Call != nil {
			x.H.Call(x, st, c)
		}
		return tVoid
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			n := mkPure(name, i.Type(), r, a)
			if intTyped(n) {
				// the order may be known
				less, more := st.entailsDiff(r, a, 0), st.entailsDiff(a, r, 0)
				if less && name == "min" || more && name == "max" {
					continue
				}
				if more && name == "min" || less && name == "max" {
					r = a
					continue
				}
				for _, y := range []*Term{r, a} {
					if name == "min" {
						st.addDiff(n, y, 0)
					} else {
						st.addDiff(y, n, 0)
					}
				}
			}
			r = n
		}
		return r
	case "recover":
		return tNil
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if x.H.MapWrite != nil {
			x.H.MapWrite(x, st, args[0], nil, nil, i)
		}
		st.objver[args[0]] = in.mk(Term{K: KEpoch, Aux: "m", Site: i, Ctx: fr.ctx})
		return tVoid
	}
	var t types.Type
	if v := i.Type(); v != nil {
		t = v
	}
	return in.mk(Term{K: KGen, Aux: "builtin." + name, Site: i, Ctx: fr.ctx, Typ: t})
}

// mkElems is an immutable element list: what append adds.
func mkElems(els []*Term, like *Term) *Term {
	return in.mk(Term{K: KPure, Aux: "elems", Args: els, Typ: like.Typ})
}

func isBool(sig *types.Signature) bool {
	return sig.Results().Len() == 1 && isBoolT(sig.Results().At(0).Type())
}

// unbuilt: the error of a request or URL that could not be built.
func unbuilt(t *Term) bool {
	for {
		switch t.K {
		case KAs, KAssert, KIface, KConv:
			t = t.Args[0]
		case KExtract:
			if n := callName(t); strings.HasPrefix(n, "net/http.NewRequest") || strings.HasPrefix(n, "net/url.Parse") {
				return true
			}
			if t.Args[0].K != KAssert {
				return false
			}
			t = t.Args[0]
		default:
			return false
		}
	}
}
