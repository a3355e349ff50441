package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A table is a package-level map written once, with constants, and only read.
type table struct {
	keys []*ssa.Const
	vals []ssa.Value // constants and functions
}

// tables are the library's tables, by the name of the variable.
func (P *Prog) tables() map[string]*table {
	if P.tabs != nil {
		return P.tabs
	}
	P.tabs = map[string]*table{}
	for _, pkg := range P.Pkgs {
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				mk, ok2 := s.Val.(*ssa.MakeMap)
				if !ok || !ok2 {
					continue
				}
				t := &table{}
				good := true
				for _, ref := range *mk.Referrers() {
					switch u := ref.(type) {
					case *ssa.MapUpdate:
						k, ok := u.Key.(*ssa.Const)
						if !ok || u.Map != mk || k.Value == nil {
							good = false
							continue
						}
						switch v := u.Value.(type) {
						case *ssa.Const, *ssa.Function:
							t.keys = append(t.keys, k)
							t.vals = append(t.vals, v)
						default:
							good = false
						}
					case *ssa.Store:
						if u != s {
							good = false
						}
					case *ssa.DebugRef:
					default:
						good = false
					}
				}
				if good && P.onlyRead(g, s) {
					P.tabs[g.RelString(nil)] = t
				}
			}
		}
	}
	return P.tabs
}

// onlyRead: besides its initialisation, the map in g is only looked up.
func (P *Prog) onlyRead(g *ssa.Global, init *ssa.Store) bool {
	var fns []*ssa.Function
	fns = append(fns, P.Funcs...)
	for _, p := range P.Pkgs {
		if f := p.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) || i == ssa.Instruction(init) {
						continue
					}
					ld, ok := i.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						return false
					}
					for _, ref := range *ld.Referrers() {
						switch u := ref.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if bi, ok := u.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
								return false
							}
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// lookupTable continues once for each entry of a table the key may name, and
// once for none.
func (x *Exec) lookupTable(fr *frame, p *path, i *ssa.Lookup) ([]*path, bool) {
	m := strip(x.eval(fr, p, i.X))
	if m.K != KLoad || m.Args[0].K != KGlobal {
		return nil, false
	}
	t := x.P.tables()[m.Args[0].Aux]
	if t == nil {
		return nil, false
	}
	k := x.eval(fr, p, i.Index)
	var outs []*path
	put := func(q *path, v, has *Term) {
		if i.CommaOk {
			v = in.mk(Term{K: KTuple, Args: []*Term{v, has}})
		}
		q.env[i] = v
		q.ip++
		outs = append(outs, q)
	}
	none := p.clone()
	ok := true
	for n, key := range t.keys {
		e := mkEq(k, constTerm(key))
		if key.Value.Kind() == constant.Bool {
			e = k
			if !constant.BoolVal(key.Value) {
				e = mkNot(k)
			}
		}
		q := p.clone()
		if q.st.assume(e, true) {
			q.st.note(i.Pos(), e.String())
			put(q, x.eval(fr, q, t.vals[n]), tTrue)
		}
		ok = ok && none.st.assume(e, false)
	}
	if ok {
		none.st.note(i.Pos(), "not in the table")
		put(none, zeroOf(i.X.Type().Underlying().(*types.Map).Elem()), tFalse)
	}
	return outs, true
}
