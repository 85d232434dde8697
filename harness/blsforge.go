package main

import (
	"encoding/json"
	"math/big"
	"math/rand"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"golang.org/x/crypto/sha3"
)

func init() { components["blsforge"] = replayForge }

func smallMulG2(p *bn256.G2, n int) *bn256.G2 {
	return new(bn256.G2).ScalarMult(p, new(big.Int).Mod(big.NewInt(int64(n)), bn256.Order))
}

func replayForge(c *Ctx, raw json.RawMessage) {
	var x struct {
		T, St, V string
		Ks       [][2]int
		N, I, J  int
		K        int
		Fam      int
		Ok       bool
	}
	jsonOrDie(raw, &x)
	c.Steps++
	fam := c.Rnd.Intn(nFam)
	if x.T == "rescale" {
		fam = x.Fam
	}
	f := getBlsFix(c.Seed, fam, 2, 4)
	if f.bad != "" {
		c.Fail("base", 0, "%s", f.bad)
	}
	a, _, err := bn256.RandomG2(rndReader{rand.New(rand.NewSource(c.Rnd.Int63()))})
	if err != nil {
		panic(err)
	}
	pkh := f.pkP[0]
	pka := new(bn256.G2).ScalarBaseMult(a)
	key := func(k [2]int) ([]byte, *bn256.G2) {
		var p *bn256.G2
		switch {
		case k[0] == 0:
			p = smallMulG2(pka, k[1])
		case k[1] == 0:
			p = smallMulG2(pkh, k[0])
		default:
			p = new(bn256.G2).Add(smallMulG2(pkh, k[0]), smallMulG2(pka, k[1]))
		}
		return g2Bytes(p), p
	}
	h := h0ref(f.msg[0])
	var sum *bn256.G1
	add := func(p *bn256.G1, co *big.Int) {
		co = new(big.Int).Mod(co, bn256.Order)
		if co.Sign() == 0 {
			return
		}
		sum = g1Add(sum, new(bn256.G1).ScalarMult(p, co))
	}
	mul := func(l ...*big.Int) *big.Int {
		r := big.NewInt(1)
		for _, y := range l {
			r = new(big.Int).Mul(r, y)
		}
		return r
	}
	bi := func(n int) *big.Int { return big.NewInt(int64(n)) }
	hw := h1ref(f.pkB[0])
	aw := h1ref(g2Bytes(pka))
	switch x.T {
	case "multi":
		pks := make([]*bls.PublicKey, len(x.Ks))
		sd := 0
		own := func() {
			for _, k := range x.Ks {
				b, _ := key(k)
				add(h, mul(h1ref(b), a, bi(k[1])))
			}
		}
		for i, k := range x.Ks {
			b, _ := key(k)
			sd += k[1]
			pk, e := bls.UnmarshalPk(b)
			if e != nil {
				c.Fail("decode", 0, "a key in the prime-order group is refused: %v", e)
			}
			pks[i] = pk
		}
		rep := func(m int, weight *big.Int) { add(f.base[[2]int{0, m - 1}], weight) }
		switch x.St {
		case "own":
			own()
		case "const":
			add(h, mul(hw, a, bi(sd)))
		case "none":
			add(h, mul(a, bi(sd)))
		case "swap":
			add(h, mul(aw, a, bi(sd)))
		case "identity":
		case "replay":
			rep(2, hw)
			own()
		case "replayu":
			rep(2, bi(1))
			own()
		case "sumreplay":
			rep(2, hw)
			rep(3, hw)
			own()
		case "diffreplay":
			rep(2, mul(hw, bi(2)))
			rep(3, mul(hw, bi(-1)))
			own()
		case "ownreplay":
			rep(2, hw)
		default:
			panic("unknown strategy")
		}
		apk, e := bls.AggregateApk(pks)
		if e != nil {
			c.Fail("value", 0, "AggregateApk: %v", e)
		}
		sig := c.forged(sum)
		if p := try(func() { err = bls.Verify(apk, f.msg[0], sig) }); p != nil {
			c.Fail("panic", 0, "Verify panicked: %v", p)
		}
	case "dup":
		// [.. pk_h .. rogue ..] on a list in which messages i and j are the same: their sum would be a signature of the adversary alone
		rb, _ := key([2]int{-1, 1})
		rogue, e := bls.UnmarshalPk(rb)
		if e != nil {
			c.Fail("decode", 0, "a key in the prime-order group is refused: %v", e)
		}
		self, _ := bls.UnmarshalPk(g2Bytes(pka))
		pks := make([]*bls.PublicKey, x.N)
		pts := make([]*bn256.G2, x.N)
		ms := make([][]byte, x.N)
		fill := 1
		for k := 1; k <= x.N; k++ {
			switch k {
			case x.I, x.J:
				ms[k-1] = append([]byte{}, f.msg[0]...)
				if k == x.I {
					pks[k-1], pts[k-1] = f.pk[0], pkh
				} else {
					pks[k-1], pts[k-1] = rogue, g2Point(rb)
				}
			default:
				ms[k-1] = append([]byte{}, f.msg[fill]...)
				pks[k-1], pts[k-1] = self, pka
				add(h0ref(ms[k-1]), a)
				fill++
			}
		}
		add(h, a)
		sig := c.forged(sum)
		p := try(func() {
			if x.V == "plain" {
				u := &bls.UnsafeSignature{}
				if err = u.Unmarshal(sig.Marshal()); err == nil {
					err = bls.VerifyUnsafeBatch(pks, ms, u)
				}
			} else {
				err = bls.VerifyCompressed(pts, ms, sig.Compress(), false)
			}
		})
		if p != nil {
			c.Fail("panic", 0, "batch verification panicked: %v", p)
		}
	case "grind":
		c.grind(f, x.K)
		return
	case "small":
		c.smallWeight(f, x.K)
		return
	case "rescale":
		// H0(m) is a known multiple of the base point
		d := func(m []byte) *big.Int { s := sha3.Sum256(m); return new(big.Int).SetBytes(s[:]) }
		k := new(big.Int).Mul(d(f.msg[0]), new(big.Int).ModInverse(d(f.msg[1]), bn256.Order))
		add(f.base[[2]int{0, 1}], mul(k, hw))
		apk := bls.NewApk(f.pk[0])
		if p := try(func() { err = bls.Verify(apk, f.msg[0], c.forged(sum)) }); p != nil {
			c.Fail("panic", 0, "Verify panicked: %v", p)
		}
		if (err == nil) != x.Ok {
			c.Fail("rescale", 0, "an honest signature on message 2 multiplied by SHA3-256(message 1)/SHA3-256(message 2) verifies as a signature on message 1")
		}
		return
	}
	if (err == nil) != x.Ok {
		c.Fail("forged", 0, "case %s: the adversary's signature was accepted", raw)
	}
}

func (c *Ctx) forged(p *bn256.G1) *bls.Signature {
	if p == nil {
		p = new(bn256.G1).ScalarBaseMult(new(big.Int))
	}
	s, err := bls.UnmarshalSignature(g1Bytes(p))
	if err != nil {
		c.Fail("decode", 0, "a point of the curve is refused as a signature: %v", err)
	}
	return s
}

// grind looks for a rogue key s * pk_a - pk_h that weighs as much as pk_h: together they weigh s * pk_a
func (c *Ctx) grind(f *blsFix, k int) {
	tries := 1000
	if c.Tier == "thorough" {
		tries = 20000
	}
	m := f.msg[0]
	weigh := func(pk *bls.PublicKey) string {
		s, err := bls.Sign(f.sk[1], pk, m)
		if err != nil {
			c.Fail("forged", 0, "Sign: %v", err)
		}
		return string(s.Marshal())
	}
	p := try(func() {
		want := weigh(f.pk[0])
		start := 1 + k*tries
		neg, err := bls.UnmarshalPk(g2Bytes(new(bn256.G2).Add(smallMulG2(f.pkP[0], -1), smallMulG2(f.pkP[1], start))))
		if err != nil {
			c.Fail("decode", 0, "a key in the prime-order group is refused: %v", err)
		}
		rogue := neg
		for s := start; s < start+tries; s++ {
			c.Steps++
			if weigh(rogue) == want {
				apk, err := bls.AggregateApk([]*bls.PublicKey{f.pk[0], rogue})
				own := g1Point([]byte(want))
				if err == nil && bls.Verify(apk, m, c.forged(new(bn256.G1).ScalarMult(own, big.NewInt(int64(s))))) == nil {
					c.Fail("forged", 0, "the key %d * pk_a - pk_h weighs as much as pk_h: the adversary signs for both", s)
				}
			}
			rogue = rogue.Aggregate(f.pk[1])
		}
	})
	if p != nil {
		c.Fail("panic", 0, "signing panicked: %v", p)
	}
}

// smallWeight: a weight that comes from a small set lets the adversary search for rogue keys of a given weight
func (c *Ctx) smallWeight(f *blsFix, k int) {
	m := f.msg[k]
	var safe, plain *bn256.G1
	if p := try(func() {
		s, err := bls.Sign(f.sk[k], f.pk[k], m)
		if err != nil {
			c.Fail("forged", 0, "Sign: %v", err)
		}
		u, err := bls.UnsafeSign(f.sk[k], m)
		if err != nil {
			c.Fail("forged", 0, "UnsafeSign: %v", err)
		}
		safe, plain = g1Point(s.Marshal()), g1Point(u.Marshal())
	}); p != nil {
		c.Fail("panic", 0, "signing panicked: %v", p)
	}
	want := string(g1Bytes(safe))
	is := func(t *big.Int) bool {
		return string(g1Bytes(new(bn256.G1).ScalarMult(plain, new(big.Int).Mod(t, bn256.Order)))) == want
	}
	// the first or last bits of well-known hashes
	for name, h := range map[string][]byte{"SHA3-256": refSha3(32, f.pkB[k]), "SHA3-512": refSha3(64, f.pkB[k]), "BLAKE2b": refBlake2b(32, f.pkB[k]), "xxHash": refDigest("xx", f.pkB[k])} {
		for _, le := range []bool{false, true} {
			d := append([]byte{}, h...)
			if le {
				for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
					d[i], d[j] = d[j], d[i]
				}
			}
			x := new(big.Int).SetBytes(d)
			for b := uint(1); b <= 80 && int(b) <= 8*len(d); b++ {
				lo := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(1)))
				hi := new(big.Int).Rsh(x, uint(8*len(d))-b)
				c.Steps += 2
				if lo.Sign() > 0 && is(lo) || hi.Sign() > 0 && is(hi) {
					c.Fail("forged", 0, "the weights of keys are %d bits of %s: keys of a given weight can be searched for", b, name)
				}
			}
		}
	}
	// any weight below 2^32, by baby steps and giant steps
	const half = 16
	table := map[string]uint32{}
	p := new(bn256.G1).ScalarBaseMult(new(big.Int))
	for i := uint32(0); i < 1<<half; i++ {
		table[string(g1Bytes(p))] = i
		p = g1Add(p, plain)
	}
	step := new(bn256.G1).Neg(p)
	g := safe
	for i := uint32(0); i < 1<<half; i++ {
		if j, ok := table[string(g1Bytes(g))]; ok {
			c.Fail("forged", 0, "the weight of a key is %d: keys of a given weight can be searched for", uint64(i)<<half+uint64(j))
		}
		g = g1Add(g, step)
		c.Steps++
	}
}
