package main

import (
	"math/rand"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// Three-valued (Kleene) logic over bit-parallel assignments: every bit position of the
// words is one assignment of true / false / unknown to the atoms.

type tri struct{ T, F []uint64 }

func newTri(n int) tri { return tri{make([]uint64, n), make([]uint64, n)} }

func (a tri) and(b tri) tri {
	r := newTri(len(a.T))
	for i := range a.T {
		r.T[i], r.F[i] = a.T[i]&b.T[i], a.F[i]|b.F[i]
	}
	return r
}

func (a tri) or(b tri) tri {
	r := newTri(len(a.T))
	for i := range a.T {
		r.T[i], r.F[i] = a.T[i]|b.T[i], a.F[i]&b.F[i]
	}
	return r
}

func (a tri) not() tri { return tri{a.F, a.T} }

func (a tri) eq(b tri) bool {
	for i := range a.T {
		if a.T[i] != b.T[i] || a.F[i] != b.F[i] {
			return false
		}
	}
	return true
}

func (a tri) sameTrue(b tri) bool {
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

// assignments makes values for n atoms: all of them when there are few, otherwise a sample.
// two: only true and false.
func assignments(r *rand.Rand, n int, two bool) (atoms []tri, count int) {
	base := 3
	if two {
		base = 2
	}
	total, exhaustive := 1, true
	for i := 0; i < n; i++ {
		total *= base
		if total > 6561 {
			total, exhaustive = 4096, false
			break
		}
	}
	words := (total + 63) / 64
	atoms = make([]tri, n)
	for i := range atoms {
		atoms[i] = newTri(words)
	}
	for k := 0; k < words*64; k++ {
		v := k % total
		bias := r.Intn(5)
		odd := -1
		if n > 0 {
			odd = r.Intn(n)
		}
		for i := 0; i < n; i++ {
			d := 0
			if exhaustive {
				d = v % base
				v /= base
			} else {
				switch bias {
				case 0: // all true but one
					d = 1
					if i == odd {
						d = 0
					}
				case 1: // all false but one
					d = 0
					if i == odd {
						d = 1
					}
				case 2:
					d = 1
					if r.Intn(5) == 0 {
						d = r.Intn(base)
					}
				case 3:
					d = 0
					if r.Intn(5) == 0 {
						d = r.Intn(base)
					}
				default:
					d = r.Intn(base)
				}
			}
			switch d {
			case 0:
				atoms[i].F[k/64] |= 1 << uint(k%64)
			case 1:
				atoms[i].T[k/64] |= 1 << uint(k%64)
			}
		}
	}
	return atoms, words * 64
}

func evalM(c *mCond, leaf func(*mCond) tri) tri {
	switch c.Kind {
	case condLeaf:
		return leaf(c)
	case condNot:
		return evalM(c.Kids[0], leaf).not()
	}
	v := evalM(c.Kids[0], leaf)
	for _, k := range c.Kids[1:] {
		w := evalM(k, leaf)
		if c.Kind == condAnd {
			v = v.and(w)
		} else {
			v = v.or(w)
		}
	}
	return v
}

func evalO(c *oCond, leaf func(*oCond) tri) tri {
	if c.l != nil {
		return leaf(c)
	}
	v := evalO(c.kids[0], leaf)
	switch c.op {
	case t.SoqlConditionOpcode_Not:
		return v.not()
	case t.SoqlConditionOpcode_And:
		return v.and(evalO(c.kids[1], leaf))
	default:
		return v.or(evalO(c.kids[1], leaf))
	}
}

func negated(op t.SoqlConditionOpcode) t.SoqlConditionOpcode {
	switch op {
	case t.SoqlConditionOpcode_Eq:
		return t.SoqlConditionOpcode_NotEq
	case t.SoqlConditionOpcode_NotEq:
		return t.SoqlConditionOpcode_Eq
	case t.SoqlConditionOpcode_Lt:
		return t.SoqlConditionOpcode_Ge
	case t.SoqlConditionOpcode_Ge:
		return t.SoqlConditionOpcode_Lt
	case t.SoqlConditionOpcode_Le:
		return t.SoqlConditionOpcode_Gt
	case t.SoqlConditionOpcode_Gt:
		return t.SoqlConditionOpcode_Le
	case t.SoqlConditionOpcode_Like:
		return t.SoqlConditionOpcode_NotLike
	case t.SoqlConditionOpcode_NotLike:
		return t.SoqlConditionOpcode_Like
	case t.SoqlConditionOpcode_In:
		return t.SoqlConditionOpcode_NotIn
	case t.SoqlConditionOpcode_NotIn:
		return t.SoqlConditionOpcode_In
	case t.SoqlConditionOpcode_Includes:
		return t.SoqlConditionOpcode_Excludes
	case t.SoqlConditionOpcode_Excludes:
		return t.SoqlConditionOpcode_Includes
	}
	return op
}

// sameLogic compares the condition as written with the one of the result. The comparisons
// must be the same ones in the same order, each kept or replaced with its negation.
// It returns "" if they are equivalent for all assignments tried.
func sameLogic(r *rand.Rand, m *mCond, o *oCond) (string, int) {
	ml, ol := m.leaves(nil), o.leaves(nil)
	if len(ml) != len(ol) {
		return "the number of comparisons differs", 0
	}
	if len(ml) == 0 {
		if (m == nil) != (o == nil) {
			return "one side is missing", 0
		}
		return "", 0
	}
	atoms, n := assignments(r, len(ml), false)
	mi := map[*mCond]int{}
	oi := map[*oCond]int{}
	neg := make([]bool, len(ol))
	for i := range ml {
		mi[ml[i]], oi[ol[i]] = i, i
		switch ol[i].op {
		case ml[i].Op:
		case negated(ml[i].Op):
			neg[i] = true
		default:
			return "comparison " + ol[i].String() + " was written with the operator " + ml[i].Op.String(), 0
		}
	}
	a := evalM(m, func(c *mCond) tri { return atoms[mi[c]] })
	b := evalO(o, func(c *oCond) tri {
		i := oi[c]
		if neg[i] {
			return atoms[i].not()
		}
		return atoms[i]
	})
	if !a.eq(b) {
		return "the truth tables differ; the result is " + o.String(), n
	}
	return "", n
}
