package main

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sync"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"golang.org/x/crypto/sha3"
)

func init() {
	components["ringanon"] = replayRingAnon
	components["ringanonstream"] = replayRingAnonStream
}

type anonCase struct {
	Kind, Scheme string
	N            int
}

// anonFix is a ring, a signer and a message
type anonFix struct {
	scheme string
	msg    []byte
	xs     []scalar
	own    []point
	decoys [][]point
	prover *mlsag.DualKey // used again and again, if set
}

func newAnonFix(scheme string, n int, r *rand.Rand) *anonFix {
	f := &anonFix{scheme: scheme, msg: []byte(fmt.Sprintf("message %d", r.Int63()))}
	kp := 2
	if scheme == "blsag" {
		kp = 1
	}
	f.xs = secretsFor(kp, r)
	for _, x := range f.xs {
		f.own = append(f.own, pBase(x))
	}
	for i := 1; i < n; i++ {
		var ps []point
		for k := 0; k < kp; k++ {
			ps = append(ps, pBase(rscalar(r)))
		}
		f.decoys = append(f.decoys, ps)
	}
	if scheme == "mlsagreuse" {
		f.prover = mlsag.NewDualKey()
		for i := range f.decoys {
			f.prover.AddDecoy(pubKeysOf(f.decoys[i]))
		}
	}
	return f
}

// sign signs once more and finds the signer in the ring
func (f *anonFix) sign(c *Ctx, step int) (*rsig, int) {
	var s *rsig
	var bad string
	if p := try(func() {
		if f.prover != nil {
			s, bad = proveWith(f.prover, f.msg, f.xs)
		} else {
			s, bad = signOver(f.scheme, f.msg, f.decoys, f.xs)
		}
	}); p != nil {
		c.Fail("panic", step, "signing panicked: %v", p)
	}
	if bad != "" {
		c.Fail("base", step, "an honest signer failed: %s", bad)
	}
	if len(s.keys) != len(f.decoys)+1 {
		c.Fail("base", step, "the ring has %d members, want %d", len(s.keys), len(f.decoys)+1)
	}
	for i := range s.keys {
		ok := len(s.keys[i]) == len(f.own)
		for k := 0; ok && k < len(f.own); k++ {
			ok = s.keys[i][k].Equals(&f.own[k])
		}
		if ok {
			return s, i
		}
	}
	c.Fail("base", step, "the signer is not in the ring")
	return nil, 0
}

// coins are the values a signature was made from (RingAnon's CoinsOf): the nonces of the signer and the responses of the others
func (f *anonFix) coins(c *Ctx, s *rsig, j int) (nonces []scalar, resp []scalar) {
	cs := s.chain()
	if !cs[len(cs)-1].Equals(&cs[0]) {
		c.Fail("base", -1, "an honest signature does not close")
	}
	for k := range f.xs {
		nonces = append(nonces, sAdd(s.rs[j][k], sMul(cs[j], f.xs[k])))
	}
	for i := range s.rs {
		if i != j {
			resp = append(resp, s.rs[i]...)
		}
	}
	return
}

// bits tests the bits of scalars for uniformity
func (c *Ctx) bits(what string, xs []scalar, step int) {
	n := float64(len(xs))
	if n < 100 {
		return
	}
	for b := 0; b < 251; b++ {
		k := 0.
		for i := range xs {
			if xs[i].Bytes()[b/8]>>uint(b%8)&1 == 1 {
				k++
			}
		}
		if math.Abs(k-n/2) > 4*math.Sqrt(n)+1 { // 8 sigma
			c.Fail("anon", step, "bit %d of %s is set in %d of %d cases", b, what, int(k), int(n))
		}
	}
}

// chi2 tests counts for uniformity
func (c *Ctx) uniform(what string, counts []int, step int) {
	if len(counts) < 2 {
		return
	}
	n := 0
	for _, k := range counts {
		n += k
	}
	e := float64(n) / float64(len(counts))
	x := 0.
	for _, k := range counts {
		x += (float64(k) - e) * (float64(k) - e) / e
	}
	k := float64(len(counts) - 1)
	if x > k+8*math.Sqrt(2*k)+45 {
		c.Fail("anon", step, "%s is not uniform: %v", what, counts)
	}
}

// derived are the scalars that are cheap to derive from a known one
func derived(a scalar) [][]byte {
	var out [][]byte
	add := func(s scalar) { out = append(out, s.Bytes()) }
	var d scalar
	d.Derive(a.Bytes())
	add(d)
	h := sha256.Sum256(a.Bytes())
	var s scalar
	s.SetBytes(&h)
	add(s)
	h = sha3.Sum256(a.Bytes())
	s.SetBytes(&h)
	add(s)
	h5 := sha512.Sum512(a.Bytes())
	s.SetReduced(&h5)
	add(s)
	add(sNeg(a))
	add(sInv(a))
	add(sMul(a, a))
	return out
}

// spread compares the positions in a large ring with the uniform distribution (Kolmogorov-Smirnov, one false alarm in 10^9)
func (f *anonFix) spread(c *Ctx, n int, thorough bool) {
	total := 560
	if thorough {
		total = 2000
	}
	counts := make([]int, n)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var bad string
	todo := make(chan int, total)
	for t := 0; t < total; t++ {
		todo <- t
	}
	close(todo)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sub := &Ctx{Idx: c.Idx, Seed: c.Seed, Rnd: rand.New(rand.NewSource(c.Seed)), Tags: c.Tags, Tier: c.Tier}
			for t := range todo {
				j := -1
				func() {
					defer func() { recover() }()
					_, j = f.sign(sub, t)
				}()
				mu.Lock()
				if j < 0 {
					bad = "an honest signer failed"
					if sub.fail != nil {
						bad = sub.fail.What
					}
				} else {
					counts[j]++
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	c.Steps += int64(total)
	if bad != "" {
		c.Fail("base", 0, "%s", bad)
	}
	limit := math.Sqrt(math.Log(2e9) / 2 / float64(total))
	sum := 0
	for i, k := range counts {
		sum += k
		if d := math.Abs(float64(sum)/float64(total) - float64(i+1)/float64(n)); d > limit {
			c.Fail("anon", i, "the signer's position in a ring of %d is not uniform: %d of %d signatures have it among the first %d", n, sum, total, i+1)
		}
	}
}

func replayRingAnon(c *Ctx, raw json.RawMessage) {
	var x anonCase
	jsonOrDie(raw, &x)
	f := newAnonFix(x.Scheme, x.N, c.Rnd)
	thorough := c.Tier == "thorough"
	if x.Kind == "spread" {
		f.spread(c, x.N, thorough)
		return
	}
	if x.Kind == "position" {
		total := 400 + 30*x.N
		if thorough {
			total *= 10
		}
		counts := make([]int, x.N)
		pred := make([][]int, 3)
		for i := range pred {
			pred[i] = make([]int, x.N)
		}
		runs := make([]int, x.N)
		last := -1
		for t := 0; t < total; t++ {
			s, j := f.sign(c, t)
			counts[j]++
			// distance from what an observer might compute
			for i, v := range []scalar{s.c, s.rs[0][0], s.rs[len(s.rs)-1][0]} {
				p := int(binary.LittleEndian.Uint32(v.Bytes()) % uint32(x.N))
				pred[i][(j-p+x.N)%x.N]++
			}
			if last >= 0 {
				runs[(j-last+x.N)%x.N]++
			}
			last = j
			c.Steps++
		}
		c.uniform(fmt.Sprintf("the signer's position in a ring of %d", x.N), counts, -1)
		c.uniform(fmt.Sprintf("the step from one signature's position to the next in a ring of %d", x.N), runs, -1)
		for i, w := range []string{"the challenge", "the first response", "the last response"} {
			c.uniform("the signer's position relative to "+w, pred[i], -1)
		}
		return
	}
	total := 160
	if thorough {
		total = 1600
	}
	if x.N > 12 {
		total = 2 + total/x.N
	}
	var all []scalar
	var nonces = make([][]scalar, len(f.xs))
	at := make([][]scalar, x.N)
	var chal, mine []scalar
	type src struct {
		t int
		w string
	}
	seen := map[string]src{}
	for t := 0; t < total; t++ {
		s, j := f.sign(c, t)
		ns, rs := f.coins(c, s, j)
		coins := append(append([]scalar{}, ns...), rs...)
		for k, v := range coins {
			w := "the nonce of the signer"
			if k >= len(ns) {
				w = "the response of a decoy"
			}
			if o, ok := seen[string(v.Bytes())]; ok {
				c.Fail("anon", t, "%s repeats %s of signature %d", w, o.w, o.t)
			}
			seen[string(v.Bytes())] = src{t, w}
		}
		// values of one signature that derive from each other
		lim := len(coins)
		if lim > 24 {
			lim = 24
		}
		for k := 0; k < lim; k++ {
			for _, d := range derived(coins[k]) {
				if o, ok := seen[string(d)]; ok && o.t == t {
					c.Fail("anon", t, "a coin of the signature (%s) derives from another one", o.w)
				}
			}
			for l := 0; l < lim; l++ {
				if k != l && (small(sSub(coins[k], coins[l])) || small(sMul(coins[k], sInv(coins[l])))) {
					c.Fail("anon", t, "two coins of a signature differ by a small number")
				}
			}
		}
		// nor from two others
		if lim = len(coins); t > 1 && lim > 24 {
			lim = 24
		}
		for k := 0; k < lim; k++ {
			for l := 0; l <= k; l++ {
				for _, v := range []scalar{sAdd(coins[k], coins[l]), sMul(coins[k], coins[l])} {
					if o, ok := seen[string(v.Bytes())]; ok && o.t == t {
						c.Fail("anon", t, "a coin of the signature (%s) is computed from two others", o.w)
					}
				}
			}
			if k >= 24 {
				for _, d := range derived(coins[k]) {
					if o, ok := seen[string(d)]; ok && o.t == t {
						c.Fail("anon", t, "a coin of the signature (%s) derives from another one", o.w)
					}
				}
				if small(sSub(coins[k], coins[k-1])) {
					c.Fail("anon", t, "two coins of a signature differ by a small number")
				}
			}
		}
		// and from what is public
		pub := [][]byte{}
		for _, v := range s.chain() {
			pub = append(append(pub, v.Bytes()), derived(v)...)
		}
		for i := range s.rs[j] {
			pub = append(append(pub, s.rs[j][i].Bytes()), derived(s.rs[j][i])...)
		}
		for _, m := range [][]byte{s.msg, f.own[0].Bytes(), append(append([]byte{}, s.msg...), f.own[0].Bytes()...), s.im[0].Bytes()} {
			var d scalar
			d.Derive(m)
			pub = append(pub, d.Bytes())
			h := sha256.Sum256(m)
			d.SetBytes(&h)
			pub = append(pub, d.Bytes())
		}
		for _, p := range pub {
			if o, ok := seen[string(p)]; ok && o.t == t {
				c.Fail("anon", t, "%s can be computed from what is public", o.w)
			}
		}
		all = append(all, coins...)
		for k := range ns {
			nonces[k] = append(nonces[k], ns[k])
		}
		for i := range s.rs {
			at[i] = append(at[i], s.rs[i]...)
		}
		chal = append(chal, s.c)
		mine = append(mine, s.rs[j]...)
		c.Steps++
	}
	for t := 1; t < len(all); t++ {
		if small(sSub(all[t], all[t-1])) {
			c.Fail("anon", -1, "consecutive coins differ by a small number")
		}
	}
	for k := range nonces {
		c.bits(fmt.Sprintf("nonce %d of the signer", k), nonces[k], -1)
		for t := 1; t < len(nonces[k]); t++ {
			if small(sSub(nonces[k][t], nonces[k][t-1])) {
				c.Fail("anon", -1, "consecutive nonces differ by a small number")
			}
		}
	}
	for i := range at {
		c.bits(fmt.Sprintf("the responses of member %d", i), at[i], -1)
	}
	c.bits("the challenge", chal, -1)
	c.bits("the signer's responses", mine, -1)
	c.bits("all coins", all, -1)
}

// small: within 2^100 of zero
func small(d scalar) bool {
	z := make([]byte, 19)
	n := sNeg(d)
	return bytes.Equal(d.Bytes()[13:], z) || bytes.Equal(n.Bytes()[13:], z)
}

// stream is a deterministic source that stands in for the system's randomness
type stream struct {
	key [32]byte
	ctr uint64
	buf []byte
}

func (s *stream) Read(b []byte) (int, error) {
	for i := range b {
		if len(s.buf) == 0 {
			var k [40]byte
			copy(k[:], s.key[:])
			binary.LittleEndian.PutUint64(k[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(k[:])
			s.buf = h[:]
		}
		b[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	return len(b), nil
}

func withReader(r io.Reader, f func()) {
	old := crand.Reader
	crand.Reader = r
	defer func() { crand.Reader = old }()
	f()
}

// replayRingAnonStream must run alone in its process: it replaces crypto/rand.Reader
func replayRingAnonStream(c *Ctx, raw json.RawMessage) {
	var x anonCase
	jsonOrDie(raw, &x)
	f := newAnonFix(x.Scheme, x.N, c.Rnd)
	total := 60 + 20*x.N
	if c.Tier == "thorough" {
		total *= 5
	}
	counts := make([]int, x.N)
	for t := 0; t < total; t++ {
		key := sha256.Sum256([]byte(fmt.Sprint(c.Seed, c.Idx, t)))
		var sigs [2]*rsig
		var pos [2]int
		for k := range sigs {
			withReader(&stream{key: key}, func() { sigs[k], pos[k] = f.sign(c, t) })
			c.Steps++
		}
		if pos[0] != pos[1] {
			c.Fail("anon", t, "the signer's position depends on something else than cryptographic randomness (%d, then %d with the same)", pos[0], pos[1])
		}
		n0, r0 := f.coins(c, sigs[0], pos[0])
		n1, r1 := f.coins(c, sigs[1], pos[1])
		for k := range n0 {
			if !n0[k].Equals(&n1[k]) {
				c.Fail("anon", t, "the nonces depend on something else than cryptographic randomness")
			}
		}
		for k := range r0 {
			if !r0[k].Equals(&r1[k]) {
				c.Fail("anon", t, "the responses depend on something else than cryptographic randomness")
			}
		}
		counts[pos[0]]++
	}
	c.uniform("the signer's position, as a function of cryptographic randomness,", counts, -1)
}
