package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Short-circuit conditions (a || b, case x, y) are evaluated as one condition
// instead of forking at each part: the blocks between are pure.

const (
	pureUnknown = iota
	pureNo
	pureIf
	pureJump
)

func intOrBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// pureBlock: the block only computes on integers and booleans.
func (fi *FuncInfo) pureBlock(b *ssa.BasicBlock) uint8 {
	if fi.pure == nil {
		fi.pure = make([]uint8, len(fi.blocks))
	}
	p := fi.pure[b.Index]
	if p != pureUnknown {
		return p
	}
	p = pureNo
	if len(b.Preds) == 1 && len(b.Instrs) <= 12 {
		p = pureIf
		for k, in := range b.Instrs {
			last := k == len(b.Instrs)-1
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD, token.SUB, token.AND, token.OR, token.XOR, token.AND_NOT:
					if !intOrBool(in.X.Type()) {
						p = pureNo
					}
				default:
					p = pureNo
				}
			case *ssa.UnOp:
				if in.Op != token.NOT && in.Op != token.SUB && in.Op != token.XOR || !intOrBool(in.X.Type()) {
					p = pureNo
				}
			case *ssa.Convert:
				if !intOrBool(in.X.Type()) || !intOrBool(in.Type()) {
					p = pureNo
				}
			case *ssa.ChangeType:
				if !intOrBool(in.Type()) {
					p = pureNo
				}
			case *ssa.Lookup:
				if b, ok := in.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 || in.CommaOk {
					p = pureNo
				}
			case *ssa.Index:
				if b, ok := in.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					p = pureNo
				}
			case *ssa.DebugRef:
			case *ssa.If:
				if !last {
					p = pureNo
				}
			case *ssa.Jump:
				if last && p == pureIf {
					p = pureJump
				}
			default:
				p = pureNo
			}
			if p == pureNo {
				break
			}
		}
	}
	fi.pure[b.Index] = p
	return p
}

// runPure computes the block's values; false if that could fail.
func (g *G) runPure(fr *frame, b *ssa.BasicBlock) (*Term, bool) {
	blk := fr.fi.blocks[b.Index]
	for i := range blk {
		ci := &blk[i]
		switch ci.in.(type) {
		case *ssa.Lookup, *ssa.Index:
			n := 0
			switch s := fr.get(&ci.ops[0]).(type) {
			case string:
				n = len(s)
			case *SymStr:
				n = len(s.b)
			}
			ix, ok := fr.get(&ci.ops[1]).(*Term)
			if !ok || ix.op != OConst || ix.v >= uint64(n) {
				return nil, false
			}
			g.step(fr, ci)
		case *ssa.If:
			t, ok := fr.get(&ci.ops[0]).(*Term)
			return t, ok
		case *ssa.Jump:
			return nil, true
		default:
			for k := range ci.ops {
				if _, ok := fr.get(&ci.ops[k]).(*Term); !ok {
					return nil, false
				}
			}
			g.step(fr, ci)
		}
	}
	return nil, false
}

func predEdge(b, p *ssa.BasicBlock) int {
	for k, x := range b.Preds {
		if x == p {
			return k
		}
	}
	return -1
}

// samePhis: the phis of d get the same values from x and y.
func (g *G) samePhis(fr *frame, d, x, y *ssa.BasicBlock) bool {
	ex, ey := predEdge(d, x), predEdge(d, y)
	blk := fr.fi.blocks[d.Index]
	for i := range blk {
		if _, ok := blk[i].in.(*ssa.Phi); !ok {
			break
		}
		vx, vy := fr.get(&blk[i].ops[ex]), fr.get(&blk[i].ops[ey])
		switch x := vx.(type) {
		case *Term:
			if y, ok := vy.(*Term); !ok || x != y {
				return false
			}
		case string:
			if y, ok := vy.(string); !ok || x != y {
				return false
			}
		case Ptr:
			if y, ok := vy.(Ptr); !ok || x != y {
				return false
			}
		case *SymStr:
			if y, ok := vy.(*SymStr); !ok || x != y {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// mergeIf: the block to go on with and, with phis set, where its values of the
// phis were already stored.
func (g *G) mergeIf(fr *frame, b *ssa.BasicBlock, c *Term) (next int, phis bool) {
	tc := g.w.tc
	T, F := b.Succs[0], b.Succs[1]
	for c.op != OConst {
		if T == F {
			break
		}
		merged := false
		for _, onFalse := range []bool{true, false} {
			S, D := T, F
			if onFalse {
				S, D = F, T
			}
			p := fr.fi.pureBlock(S)
			if p == pureNo {
				continue
			}
			if p == pureIf && S.Succs[0] != D && S.Succs[1] != D || p == pureJump && S.Succs[0] != D {
				continue
			}
			if p == pureIf && S.Succs[0] == S.Succs[1] {
				continue
			}
			t2, ok := g.runPure(fr, S)
			if !ok {
				continue
			}
			if p == pureJump {
				if g.boolPhis(fr, D, b, S, c, onFalse) {
					fr.prev = S.Index
					return D.Index, true
				}
				continue
			}
			if !g.samePhis(fr, D, b, S) {
				continue
			}
			other := S.Succs[1]
			toD := t2
			if S.Succs[1] == D {
				other = S.Succs[0]
				toD = tc.Not(t2)
			}
			if onFalse { // D when c or toD
				c = tc.Or(c, toD)
				T, F = D, other
			} else { // D when not c or toD
				c = tc.And(c, tc.Not(toD))
				T, F = other, D
			}
			b = S
			merged = true
			break
		}
		if !merged {
			break
		}
	}
	fr.prev = b.Index
	if g.branch(c) {
		return T.Index, false
	}
	return F.Index, false
}

// boolPhis stores the phis of d, reached from b directly or through s.
func (g *G) boolPhis(fr *frame, d, b, s *ssa.BasicBlock, c *Term, onFalse bool) bool {
	eb, es := predEdge(d, b), predEdge(d, s)
	blk := fr.fi.blocks[d.Index]
	var tmp [8]Value
	vals := tmp[:0]
	for i := range blk {
		if _, ok := blk[i].in.(*ssa.Phi); !ok {
			break
		}
		x, ok := fr.get(&blk[i].ops[eb]).(*Term)
		y, ok2 := fr.get(&blk[i].ops[es]).(*Term)
		if !ok || !ok2 {
			return false
		}
		if x == y {
			vals = append(vals, x)
			continue
		}
		if x.sort.k != 0 || y.sort.k != 0 {
			return false
		}
		if !onFalse {
			x, y = y, x
		}
		vals = append(vals, g.w.tc.Ite(c, x, y))
	}
	if len(vals) == 0 {
		return false
	}
	for k, v := range vals {
		fr.regs[blk[k].dst] = v
	}
	return true
}
