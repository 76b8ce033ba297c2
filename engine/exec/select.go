package exec

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const tokLSS = token.LSS

func storeType(ins *Instr) types.Type { return ins.in.(*ssa.Store).Val.Type() }

// execSelect handles a select whose ready cases are evident.
func (m *M) execSelect(f *Frame, ins *Instr) {
	sel := ins.in.(*ssa.Select)
	res := sel.Type().(*types.Tuple)
	out := make([]Value, res.Len())
	for i := 0; i < res.Len(); i++ {
		out[i] = m.zero(res.At(i).Type())
	}
	recvIdx := 2
	for i, st := range sel.States {
		ch, _ := f.get(ins.args[2*i]).P.(*Chan)
		if st.Dir == types.RecvOnly {
			if ch != nil && (len(ch.Buf) > 0 || ch.Closed) {
				out[0] = intV(int64(i))
				if len(ch.Buf) > 0 {
					out[1] = boolV(true)
					out[recvIdx] = m.chanPop(ch)
				}
				m.finish(ins, tuple(out...))
				return
			}
			recvIdx++
		} else if ch != nil && !ch.Closed && len(ch.Buf) < ch.Cap {
			m.chanPush(ch, f.get(ins.args[2*i+1]))
			out[0] = intV(int64(i))
			m.finish(ins, tuple(out...))
			return
		}
	}
	if sel.Blocking {
		panic(unsupported{"select blocks"})
	}
	out[0] = intV(-1)
	m.finish(ins, tuple(out...))
}
