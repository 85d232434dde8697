package main

import (
	"encoding/json"
	"math/big"

	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

func init() {
	components["vectorlong"] = replayVectorLong
	components["pedersenlong"] = replayPedersenLong
}

type mono struct{ K, A, B, S, E int }

// fillVec makes n scalars: arbitrary ones, ones next to the ends of the range, or mostly zeros
func (c *Ctx) fillVec(fill string, n int) []scalar {
	out := make([]scalar, n, n+c.Rnd.Intn(3))
	for i := range out {
		switch fill {
		case "rand":
			out[i] = rscalar(c.Rnd)
		case "edge":
			out[i] = emb(c.Rnd.Intn(5) - 2)
		default:
			if c.Rnd.Intn(10) == 0 || i == n-1 {
				out[i] = rscalar(c.Rnd)
			} else {
				out[i].SetZero()
			}
		}
	}
	return out
}

func replayVectorLong(c *Ctx, raw json.RawMessage) {
	var x struct {
		O, Fill  string
		N, D, At int
		Ok, Sum  bool
		Poly     []mono
	}
	jsonOrDie(raw, &x)
	c.Steps++
	a := c.fillVec(x.Fill, x.N)
	b := c.fillVec(x.Fill, x.N+x.D)
	s := c.fillVec(x.Fill, 1)[0]
	logs := c.fillVec(x.Fill, len(b)) // the points, as multiples of a base point
	base := pRand(c.Rnd)
	var pts []point
	if x.O == "exp" || x.O == "splitp" {
		pts = make([]point, len(logs))
		for i := range pts {
			pts[i] = pMul(base, logs[i])
		}
		b = logs
		if x.O == "splitp" {
			a = logs
		}
	}
	a0, b0 := append([]scalar{}, a[:cap(a)]...), append([]scalar{}, b[:cap(b)]...)
	p0 := append([]point{}, pts...)
	// exact values
	pw := func(v *big.Int, e int) *big.Int { return new(big.Int).Exp(v, big.NewInt(int64(e)), groupL) }
	var want []*big.Int
	total := new(big.Int)
	if x.Ok {
		sb := s.BigInt()
		for i := 0; i < x.N; i++ {
			v := new(big.Int)
			for _, m := range x.Poly {
				t := big.NewInt(int64(m.K))
				if m.A > 0 {
					t.Mul(t, pw(a[i].BigInt(), m.A))
				}
				if m.B > 0 {
					t.Mul(t, pw(b[i].BigInt(), m.B))
				}
				if m.S+m.E > 0 {
					t.Mul(t, pw(sb, m.S+m.E*i))
				}
				v.Add(v, t)
			}
			v.Mod(v, groupL)
			want = append(want, v)
			total.Mod(total.Add(total, v), groupL)
		}
	}
	var rv, r1, r2 []scalar
	var p1, p2 []point
	var rs scalar
	var rp point
	var err error
	p := try(func() {
		switch x.O {
		case "add":
			rv, err = vector.Add(a, b)
		case "sub":
			rv, err = vector.Sub(a, b)
		case "had":
			rv, err = vector.Hadamard(a, b)
		case "neg":
			rv = vector.Neg(a)
		case "adds":
			rv = vector.AddScalar(a, s)
		case "subs":
			rv = vector.SubScalar(a, s)
		case "muls":
			rv = vector.MulScalar(a, s)
		case "ip":
			rs, err = vector.InnerProduct(a, b)
		case "pows":
			rv = vector.ScalarPowers(s, uint32(x.N))
		case "powsum":
			rs = vector.ScalarPowersSum(s, uint64(x.N))
		case "from":
			rv = vector.FromScalar(s, uint32(x.N))
		case "split":
			r1, r2, err = vector.SplitScalars(a, uint32(x.At))
			rv = append(append([]scalar{}, r1...), r2...)
		case "splitp":
			p1, p2, err = vector.SplitPoints(pts, uint32(x.At))
		case "exp":
			n, m := x.At, 1
			if x.At%2 == 0 && c.Rnd.Intn(2) == 0 {
				n, m = x.At/2, 2
			}
			rp, err = vector.Exp(a, pts, n, m)
		}
	})
	if p != nil {
		c.Fail("panic", 0, "%s of %d elements panicked: %v", x.O, x.N, p)
	}
	if x.Ok != (err == nil) {
		c.Fail("exact", 0, "%s of %d and %d elements (at %d): error %v", x.O, x.N, x.N+x.D, x.At, err)
	}
	same := func(u, v []scalar) bool {
		for i := range u {
			if string(u[i].Bytes()) != string(v[i].Bytes()) {
				return false
			}
		}
		return true
	}
	if !same(a[:cap(a)], a0) || !same(b[:cap(b)], b0) {
		c.Fail("operand", 0, "%s of %d elements changed its operands", x.O, x.N)
	}
	for i := range pts {
		if !pts[i].Equals(&p0[i]) {
			c.Fail("operand", 0, "%s of %d elements changed its points", x.O, x.N)
		}
	}
	if !x.Ok {
		return
	}
	num := func(v *big.Int) scalar { var t scalar; t.SetBigInt(v); return t }
	switch {
	case x.O == "exp":
		w := pMul(base, num(total))
		if !rp.Equals(&w) {
			c.Fail("exact", 0, "exp of %d elements is wrong", x.N)
		}
	case x.O == "splitp":
		if len(p1) != x.At || len(p1)+len(p2) != x.N {
			c.Fail("exact", 0, "splitp of %d at %d gives %d and %d", x.N, x.At, len(p1), len(p2))
		}
		for i := range pts {
			q := &p0[i]
			if (i < x.At && !q.Equals(&p1[i])) || (i >= x.At && !q.Equals(&p2[i-x.At])) {
				c.Fail("exact", 0, "splitp of %d at %d: point %d is wrong", x.N, x.At, i)
			}
		}
	case x.Sum:
		w := num(total)
		if string(rs.Bytes()) != string(w.Bytes()) {
			c.Fail("exact", 0, "%s of %d elements is wrong", x.O, x.N)
		}
	default:
		if len(rv) != x.N || (x.O == "split" && len(r1) != x.At) {
			c.Fail("exact", 0, "%s of %d elements gives %d", x.O, x.N, len(rv))
		}
		for i := range rv {
			w := num(want[i])
			if string(rv[i].Bytes()) != string(w.Bytes()) {
				c.Fail("exact", 0, "%s of %d elements: element %d is wrong", x.O, x.N, i)
			}
		}
		if x.O != "split" { // memory of its own, including what is beyond its end
			full := rv[:cap(rv)]
			for i := range full {
				full[i] = rscalar(c.Rnd)
			}
			if !same(a[:cap(a)], a0) || !same(b[:cap(b)], b0) {
				c.Fail("operand", 0, "the result of %s of %d elements shares memory with an operand", x.O, x.N)
			}
		}
	}
}

// a commitment to one or two long vectors with generators computed beforehand
func replayPedersenLong(c *Ctx, raw json.RawMessage) {
	var x struct {
		K, N, M, Left, Have int
		Steps               []int
	}
	jsonOrDie(raw, &x)
	c.Steps++
	seed := []byte("dusk long vectors")
	ped := pedersen.New(append([]byte{}, seed...))
	left := x.K
	if x.Left > 0 && x.Left < x.K { // in two calls
		ped.BaseVector.Compute(uint32(x.Left))
		left -= x.Left
	}
	ped.BaseVector.Compute(uint32(left))
	vs := [][]scalar{c.fillVec("zeros", x.N)}
	if x.M > 0 {
		vs = append(vs, c.fillVec("zeros", x.M))
	}
	com := ped.CommitToVectors(vs...)
	want := pMul(refBlindPoint(), com.BlindingFactor)
	for i := range vs {
		g := refGens(vecSeed(seed, i), len(vs[i]))
		for k := range vs[i] {
			if vs[i][k].IsNonZeroI() == 1 {
				want = pAdd(want, pMul(g[k], vs[i][k]))
			}
		}
	}
	if !com.Value.Equals(&want) {
		c.Fail("open", 0, "the commitment to vectors of %d and %d elements after computing %d generators does not open", x.N, x.M, x.K)
	}
	if len(ped.BaseVector.Bases) != x.Have {
		c.Fail("gens", 0, "%d generators instead of %d", len(ped.BaseVector.Bases), x.Have)
	}
	for i, g := range refGens(seed, x.Have) {
		if !g.Equals(&ped.BaseVector.Bases[i]) {
			c.Fail("gens", 0, "generator %d of %d is wrong (%d computed beforehand)", i, x.Have, x.K)
		}
	}
}
