package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// direct turns calls of a method value that is made in the same function (m := x.M; m(a)) and of a method expression
// into calls of the method.
func (p *Prog) direct() {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				cc := c.Common()
				switch v := cc.Value.(type) {
				case *ssa.MakeClosure:
					fn := v.Fn.(*ssa.Function)
					m, ok := fn.Object().(*types.Func)
					if fn.Synthetic == "" || !ok || len(v.Bindings) != 1 || len(fn.FreeVars) != 1 {
						continue
					}
					recv := v.Bindings[0]
					r := m.Type().(*types.Signature).Recv()
					if r == nil {
						continue
					}
					if types.IsInterface(recv.Type()) {
						if _, isTP := recv.Type().(*types.TypeParam); !isTP && types.IsInterface(r.Type()) {
							cc.Value, cc.Method = recv, m
							addUse(recv, in)
						}
						continue
					}
					t := p.SSA.FuncValue(m)
					if t == nil || !types.Identical(t.Signature.Recv().Type(), recv.Type()) {
						continue
					}
					cc.Value = t
					cc.Args = append([]ssa.Value{recv}, cc.Args...)
					addUse(recv, in)
				case *ssa.Function:
					m, ok := v.Object().(*types.Func)
					if v.Synthetic == "" || !ok || v.Parent() != nil || v.Signature.Recv() != nil || len(cc.Args) == 0 {
						continue
					}
					if r := m.Type().(*types.Signature).Recv(); r == nil || types.IsInterface(r.Type()) {
						continue
					}
					t := p.SSA.FuncValue(m)
					if t == nil || t.Signature.Recv() == nil || !types.Identical(t.Signature.Recv().Type(), cc.Args[0].Type()) || t.Signature.Params().Len() != len(cc.Args)-1 {
						continue
					}
					cc.Value = t
				}
			}
		}
	}
}

func addUse(v ssa.Value, in ssa.Instruction) {
	if r := v.Referrers(); r != nil {
		*r = append(*r, in)
	}
}
