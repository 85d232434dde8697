package main

import (
	"encoding/json"
	"math/big"

	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

func init() { components["vector"] = replayVector }

type vecCall struct {
	O          string
	A, B, D    int
	S, N, M, I int
	Q          []int
	R          struct {
		Err, None bool
		Vec       []int
		Num, Pt   *int
		A, B      []int
	}
	V  [][]int
	Pv [][]int
}

// emb reads an integer modulo the group order, by way of math/big
func emb(n int) scalar {
	var s scalar
	s.SetBigInt(new(big.Int).Mod(big.NewInt(int64(n)), groupL))
	return s
}

func embVec(q []int) []scalar {
	out := make([]scalar, len(q))
	for i := range q {
		out[i] = emb(q[i])
	}
	return out
}

func replayVector(c *Ctx, raw json.RawMessage) {
	var h struct{ Log []vecCall }
	jsonOrDie(raw, &h)
	base := pRand(c.Rnd)
	// the specification's integers times a random factor would leave the laws for products, so points carry the randomness
	var v [][]scalar
	var pv [][]point
	pts := func(q []int) []point {
		out := make([]point, len(q))
		for i := range q {
			out[i] = pMul(base, emb(q[i]))
		}
		return out
	}
	eqS := func(a []scalar, q []int) bool {
		if len(a) != len(q) {
			return false
		}
		for i := range q {
			w := emb(q[i])
			if string(a[i].Bytes()) != string(w.Bytes()) {
				return false
			}
		}
		return true
	}
	eqP := func(a []point, q []int) bool {
		if len(a) != len(q) {
			return false
		}
		for i, w := range pts(q) {
			if !a[i].Equals(&w) {
				return false
			}
		}
		return true
	}
	for step, x := range h.Log {
		c.Steps++
		if v == nil {
			v = make([][]scalar, len(x.V))
			pv = make([][]point, len(x.Pv))
		}
		var rv []scalar
		var r1, r2 []scalar
		var p1, p2 []point
		var rs scalar
		var rp point
		var err error
		s := emb(x.S)
		p := try(func() {
			switch x.O {
			case "add":
				rv, err = vector.Add(v[x.A-1], v[x.B-1])
			case "sub":
				rv, err = vector.Sub(v[x.A-1], v[x.B-1])
			case "had":
				rv, err = vector.Hadamard(v[x.A-1], v[x.B-1])
			case "neg":
				rv = vector.Neg(v[x.A-1])
			case "adds":
				rv = vector.AddScalar(v[x.A-1], s)
			case "subs":
				rv = vector.SubScalar(v[x.A-1], s)
			case "muls":
				rv = vector.MulScalar(v[x.A-1], s)
			case "ip":
				rs, err = vector.InnerProduct(v[x.A-1], v[x.B-1])
			case "pows":
				rv = vector.ScalarPowers(s, uint32(x.N))
			case "powsum":
				rs = vector.ScalarPowersSum(s, uint64(x.N))
			case "from":
				rv = vector.FromScalar(s, uint32(x.N))
			case "split":
				r1, r2, err = vector.SplitScalars(v[x.A-1], uint32(x.N))
			case "splitp":
				p1, p2, err = vector.SplitPoints(pv[x.A-1], uint32(x.N))
			case "exp":
				rp, err = vector.Exp(v[x.A-1], pv[x.B-1], x.N, x.M)
			case "poke":
				v[x.A-1][x.I-1] = s
			case "set":
				v[x.A-1] = append(make([]scalar, 0, len(x.Q)+c.Rnd.Intn(3)), embVec(x.Q)...)
			case "setp":
				pv[x.A-1] = pts(x.Q)
			}
		})
		if p != nil {
			c.Fail("panic", step, "%s panicked: %v", x.O, p)
		}
		if x.R.Err != (err != nil) {
			c.Fail("exact", step, "%s of lengths that %v: error %v", x.O, map[bool]string{true: "differ", false: "match"}[x.R.Err], err)
		}
		if err == nil && !x.R.None {
			switch {
			case x.R.Num != nil:
				if !eqS([]scalar{rs}, []int{*x.R.Num}) {
					c.Fail("exact", step, "%s gives %v, not %d", x.O, rs.BigInt(), *x.R.Num)
				}
			case x.R.Pt != nil:
				if !eqP([]point{rp}, []int{*x.R.Pt}) {
					c.Fail("exact", step, "%s is not %d times the base point", x.O, *x.R.Pt)
				}
			case x.O == "split":
				if !eqS(r1, x.R.A) || !eqS(r2, x.R.B) {
					c.Fail("exact", step, "split at %d", x.N)
				}
			case x.O == "splitp":
				if !eqP(p1, x.R.A) || !eqP(p2, x.R.B) {
					c.Fail("exact", step, "splitp at %d", x.N)
				}
			default:
				if !eqS(rv, x.R.Vec) {
					c.Fail("exact", step, "%s gives another vector than %v", x.O, x.R.Vec)
				}
				if eqInts(x.V[x.D-1], x.R.Vec) && len(rv) > 0 {
					v[x.D-1] = rv // the caller keeps it
				} else if len(rv) == 0 && len(x.V[x.D-1]) == 0 {
					v[x.D-1] = nil
				}
			}
		}
		for i := range v {
			if !eqS(v[i], x.V[i]) {
				c.Fail("operand", step, "after %s (a=%d b=%d d=%d i=%d) vector %d is not %v", x.O, x.A, x.B, x.D, x.I, i+1, x.V[i])
			}
		}
		for i := range pv {
			if !eqP(pv[i], x.Pv[i]) {
				c.Fail("operand", step, "after %s points %d are not %v", x.O, i+1, x.Pv[i])
			}
		}
	}
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
