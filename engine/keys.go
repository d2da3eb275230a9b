package main

// Static analysis: which integer and boolean cells decide control flow or indices. Those are kept
// concrete when states are merged; everything else may be merged into if-then-else terms. This only
// affects performance, never the meaning of a run.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type fieldRef struct {
	owner string
	i     int
}

func structKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t.Underlying(), nil)
}

func (e *Engine) fieldKey(st *types.Struct, i int) bool {
	m, ok := e.fieldKeyC[st]
	if !ok {
		k := types.TypeString(st, nil)
		m = make([]bool, st.NumFields())
		for j := range m {
			m[j] = e.keyF[fieldRef{k, j}]
		}
		e.fieldKeyC[st] = m
	}
	return m[i]
}

func (e *Engine) objKey(id int) bool {
	if g, ok := e.globalOf[id]; ok {
		return e.keyG[g]
	}
	return e.keyObj[id]
}

// keyInfo is shared by all engines over one program.
type keyInfo struct {
	vals   map[ssa.Value]bool
	fields map[fieldRef]bool
	globs  map[*ssa.Global]bool
}

func analyseKeys(prog *ssa.Program) *keyInfo {
	k := &keyInfo{vals: map[ssa.Value]bool{}, fields: map[fieldRef]bool{}, globs: map[*ssa.Global]bool{}}
	fns := ssautil.AllFunctions(prog)
	keep := func(f *ssa.Function) bool {
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		if p == nil {
			return f.Synthetic != ""
		}
		return execPkg(p.Pkg.Path()) && p.Pkg.Path() != ndPath
	}
	stores := map[fieldRef][]ssa.Value{}
	gstores := map[*ssa.Global][]ssa.Value{}
	astores := map[ssa.Value][]ssa.Value{}
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	bySig := map[string][]*ssa.CallCommon{}
	byMeth := map[string][]*ssa.CallCommon{}
	sigFns := map[string][]*ssa.Function{}
	methFns := map[string][]*ssa.Function{}
	binds := map[*ssa.Function][]*ssa.MakeClosure{}
	var sinks []ssa.Value
	for f := range fns {
		if !keep(f) {
			continue
		}
		if f.Signature.Recv() != nil {
			methFns[f.Name()] = append(methFns[f.Name()], f)
		}
		sg := types.TypeString(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), nil)
		sigFns[sg] = append(sigFns[sg], f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						r := fieldRef{structKey(a.X.Type()), a.Field}
						stores[r] = append(stores[r], x.Val)
					case *ssa.Global:
						gstores[a] = append(gstores[a], x.Val)
					default:
						astores[x.Addr] = append(astores[x.Addr], x.Val)
					}
				case *ssa.IndexAddr:
					sinks = append(sinks, x.Index)
				case *ssa.Index:
					sinks = append(sinks, x.Index)
				case *ssa.Lookup:
					if isString(x.X.Type()) {
						sinks = append(sinks, x.Index)
					}
				case *ssa.MakeSlice:
					sinks = append(sinks, x.Len, x.Cap)
				case *ssa.If:
					sinks = append(sinks, x.Cond)
				case *ssa.MakeClosure:
					binds[x.Fn.(*ssa.Function)] = append(binds[x.Fn.(*ssa.Function)], x)
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					cc := c.Common()
					if fn := cc.StaticCallee(); fn != nil {
						callers[fn] = append(callers[fn], cc)
					} else if cc.IsInvoke() {
						byMeth[cc.Method.Name()] = append(byMeth[cc.Method.Name()], cc)
					} else if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
						ss := types.TypeString(s, nil)
						bySig[ss] = append(bySig[ss], cc)
					}
				}
			}
		}
	}
	scalar := func(v ssa.Value) bool { return bitsOf(v.Type()) >= 0 }
	work := sinks
	markField := func(r fieldRef) {
		if k.fields[r] {
			return
		}
		k.fields[r] = true
		work = append(work, stores[r]...)
	}
	retsOf := func(fn *ssa.Function, i int) {
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				work = append(work, r.Results[i])
			}
		}
	}
	callees := func(cc *ssa.CallCommon) []*ssa.Function {
		if fn := cc.StaticCallee(); fn != nil {
			return []*ssa.Function{fn}
		}
		if cc.IsInvoke() {
			return methFns[cc.Method.Name()]
		}
		if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
			return sigFns[types.TypeString(s, nil)]
		}
		return nil
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v == nil || k.vals[v] || !scalar(v) {
			continue
		}
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		k.vals[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			work = append(work, x.Edges...)
		case *ssa.BinOp:
			work = append(work, x.X, x.Y)
		case *ssa.Convert:
			work = append(work, x.X)
		case *ssa.ChangeType:
			work = append(work, x.X)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				work = append(work, x.X)
				break
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				markField(fieldRef{structKey(a.X.Type()), a.Field})
			case *ssa.Global:
				if !k.globs[a] {
					k.globs[a] = true
					work = append(work, gstores[a]...)
				}
			default:
				k.vals[x.X] = true
				work = append(work, astores[x.X]...)
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					for i, p := range fv.Parent().FreeVars {
						if p != fv {
							continue
						}
						for _, mc := range binds[fv.Parent()] {
							k.vals[mc.Bindings[i]] = true
							work = append(work, astores[mc.Bindings[i]]...)
						}
					}
				}
			}
		case *ssa.Field:
			markField(fieldRef{structKey(x.X.Type()), x.Field})
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				for _, fn := range callees(&c.Call) {
					retsOf(fn, x.Index)
				}
			}
		case *ssa.Call:
			for _, fn := range callees(&x.Call) {
				retsOf(fn, 0)
			}
		case *ssa.Parameter:
			fn := x.Parent()
			for i, p := range fn.Params {
				if p != x {
					continue
				}
				for _, cc := range callers[fn] {
					if i < len(cc.Args) {
						work = append(work, cc.Args[i])
					}
				}
				if fn.Signature.Recv() != nil {
					for _, cc := range byMeth[fn.Name()] {
						if i-1 >= 0 && i-1 < len(cc.Args) {
							work = append(work, cc.Args[i-1])
						}
					}
				}
				s := types.TypeString(types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic()), nil)
				for _, cc := range bySig[s] {
					if i < len(cc.Args) {
						work = append(work, cc.Args[i])
					}
				}
			}
		case *ssa.FreeVar:
			for i, p := range x.Parent().FreeVars {
				if p == x {
					for _, mc := range binds[x.Parent()] {
						work = append(work, mc.Bindings[i])
					}
				}
			}
		}
	}
	return k
}
