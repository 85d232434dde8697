package main

import (
	"bytes"
	"encoding/json"
	"sync"

	"github.com/dusk-network/dusk-crypto/hash"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

func init() {
	components["pedersen"] = replayPedersen
	components["draws"] = replayDraws
	components["pedersenwide"] = replayPedersenWide
}

var genMu sync.Mutex
var genCache = map[string][]point{}

// refGens are the first n generators of a seed
func refGens(seed []byte, n int) []point {
	genMu.Lock()
	defer genMu.Unlock()
	g := genCache[string(seed)]
	for len(g) < n {
		var p point
		if len(g) == 0 {
			p.Derive(seed)
		} else {
			p.Derive(g[len(g)-1].Bytes())
		}
		g = append(g, p)
	}
	genCache[string(seed)] = g
	return g[:n:n]
}

// the seed of the i-th vector of a commitment
func vecSeed(seed []byte, i int) []byte {
	s := append([]byte{}, seed...)
	for k := i; k > 0; k >>= 8 {
		s = append(s, byte(k))
	}
	return s
}

func refBasePoint() point { var p point; p.Derive([]byte("blindPoint")); return p }
func refBlindPoint() point {
	var p point
	p.SetBase()
	return p
}

type pedCom struct {
	K    string
	Vs   [][]int
	Seed int
}
type pedCall struct {
	O          string
	G, P, S, K int
	V, X       int
	Sh         []int
	A, B       int
	Neg        bool
	N          int
	Com        pedCom
}

func pedSeed(s int) []byte {
	switch s {
	case 1:
		return []byte("dusk.BulletProof.vec1")
	case 2:
		return []byte{}
	case 3:
		return []byte("some other seed\x01")
	}
	if n := map[int]int{5: 1, 6: 64, 7: 65, 8: 129, 9: 257, 10: 1025, 11: 5000}[s]; n > 0 {
		// long seeds that begin alike
		b := bytes.Repeat([]byte{'s'}, n)
		b[n-1] = byte(s)
		return b
	}
	return bytes.Repeat([]byte{byte(s)}, 40+s)
}

type liveCom struct {
	com  pedersen.Commitment
	want point
	sum  scalar // of the values, for scalar commitments
}

func replayPedersen(c *Ctx, raw json.RawMessage) {
	var h struct{ Log []pedCall }
	jsonOrDie(raw, &h)
	gs := map[int]*generator.Generator{}
	gseed := map[int]int{}
	peds := map[int]*pedersen.Pedersen{}
	pseed := map[int]int{}
	var inputs, keep [][]byte
	seedBuf := func(s int) []byte {
		b := pedSeed(s)
		full := append(append([]byte{}, b...), 0xA5, 0xA5, 0xA5, 0xA5)
		inputs = append(inputs, full)
		keep = append(keep, append([]byte{}, full...))
		return full[:len(b)]
	}
	gen := func(g int) *generator.Generator {
		if gs[g] == nil {
			gs[g] = generator.New(seedBuf(1))
			gseed[g] = 1
		}
		return gs[g]
	}
	ped := func(p int) *pedersen.Pedersen {
		if peds[p] == nil {
			peds[p] = pedersen.New(seedBuf(p))
			pseed[p] = p
		}
		return peds[p]
	}
	var coms []*liveCom
	val := func(v int) scalar {
		if v == 9 {
			return rscalar(c.Rnd)
		}
		return sInt(int64(v))
	}
	sameGens := func(step int, what string, bases []point, seed []byte, n int) {
		if len(bases) < n {
			c.Fail("gens", step, "%s: %d generators, %d expected", what, len(bases), n)
		}
		for i, p := range refGens(seed, len(bases)) {
			if !p.Equals(&bases[i]) {
				c.Fail("gens", step, "%s: generator %d is not the one of the seed", what, i)
			}
		}
	}
	for step, x := range h.Log {
		c.Steps++
		var com pedersen.Commitment
		var want point
		var sum scalar
		made := false
		p := try(func() {
			switch x.O {
			case "gnew":
				gs[x.G] = generator.New(seedBuf(x.S))
				gseed[x.G] = x.S
			case "compute":
				gen(x.G).Compute(uint32(x.K))
			case "clear":
				gen(x.G).Clear()
			case "iterate":
				g := gen(x.G)
				n := len(g.Bases)
				got := g.Iterate()
				ref := refGens(pedSeed(gseed[x.G]), n+1)[n]
				if !got.Equals(&ref) {
					c.Fail("gens", step, "Iterate after %d generators gives another point", n)
				}
			case "pnew":
				peds[x.P] = pedersen.New(seedBuf(x.S))
				pseed[x.P] = x.S
			case "pcompute":
				ped(x.P).BaseVector.Compute(uint32(x.K))
			case "pclear":
				ped(x.P).BaseVector.Clear()
			case "scalar":
				v := val(x.V)
				com = ped(x.P).CommitToScalar(v)
				want = pMul(refBasePoint(), v)
				sum = v
				made = true
			case "vectors":
				pd := ped(x.P)
				var vs, cp [][]scalar
				for _, q := range x.Com.Vs {
					vec := make([]scalar, len(q), len(q)+2)
					for i := range q {
						vec[i] = val(q[i])
					}
					full := vec[:cap(vec)]
					full[len(q)], full[len(q)+1] = sInt(77), sInt(78)
					vs = append(vs, vec)
					cp = append(cp, append([]scalar{}, full...))
				}
				com = pd.CommitToVectors(vs...)
				want = pZero()
				for i := range vs {
					for k, g := range refGens(vecSeed(pedSeed(pseed[x.P]), i), len(vs[i])) {
						want = pAdd(want, pMul(g, vs[i][k]))
					}
					for k, s := range vs[i][:cap(vs[i])] {
						if !s.Equals(&cp[i][k]) {
							c.Fail("caller", step, "committing changed a vector of the caller")
						}
					}
				}
				made = true
			case "sum":
				a, b := coms[x.A-1], coms[x.B-1]
				op, sop := pAdd, sAdd
				if x.Neg {
					op, sop = pSub, sSub
				}
				bl := sop(a.com.BlindingFactor, b.com.BlindingFactor)
				got := op(a.com.Value, b.com.Value)
				ref := pAdd(op(a.want, b.want), pMul(refBlindPoint(), bl))
				if !got.Equals(&ref) {
					c.Fail("open", step, "the sum or difference of two commitments does not open to that of their values")
				}
			}
		})
		if p != nil {
			c.Fail("panic", step, "%s panicked: %v", x.O, p)
		}
		if made {
			ref := pAdd(want, pMul(refBlindPoint(), com.BlindingFactor))
			if !ref.Equals(&com.Value) {
				c.Fail("open", step, "a commitment to %v does not open to its values under the returned blinding factor", x.Com.Vs)
			}
			freshBlinder(c, step, com.BlindingFactor)
			coms = append(coms, &liveCom{com: com, want: want, sum: sum})
		}
		for g := range gs {
			n := 0
			if x.G == g {
				n = x.N
				if got := len(gs[g].Bases); got != x.N {
					c.Fail("gens", step, "%d generators after %s, %d expected", got, x.O, x.N)
				}
			}
			sameGens(step, "generator", gs[g].Bases, pedSeed(gseed[g]), n)
		}
		for q := range peds {
			n := 0
			if x.P == q {
				n = x.N
			}
			sameGens(step, "pedersen", peds[q].BaseVector.Bases, pedSeed(pseed[q]), n)
			b1, b2 := refBasePoint(), refBlindPoint()
			if !peds[q].BasePoint.Equals(&b1) || !peds[q].BlindPoint.Equals(&b2) {
				c.Fail("gens", step, "the base points changed")
			}
		}
		for i, l := range coms {
			ref := pAdd(l.want, pMul(refBlindPoint(), l.com.BlindingFactor))
			if i >= len(coms)-3 && !ref.Equals(&l.com.Value) {
				c.Fail("issued", step, "commitment %d changed", i)
			}
		}
		for i := range inputs {
			if !bytes.Equal(inputs[i], keep[i]) {
				c.Fail("caller", step, "%s wrote into the caller's seed", x.O)
			}
		}
	}
}

// every blinding factor of this process: none is used twice, whatever the objects and histories it is used in
var blinders = struct {
	sync.Mutex
	m map[[32]byte]bool
}{m: map[[32]byte]bool{}}

func freshBlinder(c *Ctx, step int, b scalar) {
	var k [32]byte
	copy(k[:], b.Bytes())
	blinders.Lock()
	dup := blinders.m[k]
	blinders.m[k] = true
	blinders.Unlock()
	zero := sInt(0)
	if dup || b.Equals(&zero) {
		c.Fail("blind", step, "a blinding factor is used twice or zero")
	}
	// ... and it takes up the whole range
	if n := fromLE(b.Bytes()).BitLen(); n < 180 {
		c.Fail("blind", step, "a blinding factor of %d bits", n)
	}
}

// draw after draw (Draws): no blinding factor comes back
func replayDraws(c *Ctx, raw json.RawMessage) {
	var cs struct {
		What string
		N    int
	}
	jsonOrDie(raw, &cs)
	if cs.What == "entropy" || cs.What == "entropies" {
		entropyDraws(c, cs.What, cs.N)
		return
	}
	ped := pedersen.New([]byte("draws"))
	v := rscalar(c.Rnd)
	vec := []scalar{v}
	for i := 0; i < cs.N; i++ {
		var com pedersen.Commitment
		p := try(func() {
			switch {
			case cs.What == "scalar":
				com = ped.CommitToScalar(v)
			case cs.What == "objects":
				com = pedersen.New([]byte{byte(i), byte(i >> 8)}).CommitToScalar(v)
			case cs.What == "vectors" && i%2 == 0:
				com = ped.CommitToVectors(vec)
			default:
				com = ped.CommitToVectors()
			}
		})
		if p != nil {
			c.Fail("panic", i, "committing (%s, number %d) panicked: %v", cs.What, i, p)
		}
		freshBlinder(c, i, com.BlindingFactor)
		c.Steps++
	}
}

// request after request: no eight bytes of randomness come back
func entropyDraws(c *Ctx, what string, n int) {
	seen := map[[8]byte]bool{}
	for i := 0; i < n; i++ {
		size := 16
		if what == "entropies" {
			size = []int{8, 32, 9, 64, 15, 33}[i%6]
		}
		var b []byte
		var err error
		if p := try(func() { b, err = hash.RandEntropy(uint32(size)) }); p != nil {
			c.Fail("panic", i, "RandEntropy(%d) panicked: %v", size, p)
		}
		if err != nil || len(b) != size {
			c.Fail("entropy", i, "request number %d for %d random bytes gave %d (%v)", i, size, len(b), err)
		}
		for ; len(b) >= 8; b = b[8:] {
			var k [8]byte
			copy(k[:], b)
			if seen[k] {
				c.Fail("entropy", i, "random bytes of an earlier request came back in request number %d", i)
			}
			seen[k] = true
		}
		c.Steps++
	}
}

// many vectors: the generators of any two of them are different
func replayPedersenWide(c *Ctx, raw json.RawMessage) {
	var cs struct{ N, I, J int }
	jsonOrDie(raw, &cs)
	vs := make([][]scalar, cs.N)
	for i := range vs {
		vs[i] = []scalar{sInt(0)}
	}
	x, y := rscalar(c.Rnd), rscalar(c.Rnd)
	vs[cs.I][0], vs[cs.J][0] = x, y
	com := pedersen.New([]byte("wide")).CommitToVectors(vs...)
	bl := pMul(refBlindPoint(), com.BlindingFactor)
	got := pSub(com.Value, bl)
	gi, gj := refGens(vecSeed([]byte("wide"), cs.I), 1)[0], refGens(vecSeed([]byte("wide"), cs.J), 1)[0]
	want := pAdd(pMul(gi, x), pMul(gj, y))
	if !got.Equals(&want) {
		c.Fail("gens", 0, "a commitment to %d vectors does not use the generators of vectors %d and %d", cs.N, cs.I, cs.J)
	}
	// moving a value from one vector to the other gives another commitment
	vs[cs.I][0], vs[cs.J][0] = y, x
	com2 := pedersen.New([]byte("wide")).CommitToVectors(vs...)
	got2 := pSub(com2.Value, pMul(refBlindPoint(), com2.BlindingFactor))
	if got2.Equals(&got) {
		c.Fail("gens", 0, "vectors %d and %d of a commitment share their generators", cs.I, cs.J)
	}
	c.Steps += 2
}
