package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/dusk-network/dusk-crypto/rangeproof"
)

func init() {
	components["rangeforge"] = replayRangeForge
	components["rangecase"] = replayRangeCase
	components["rangeedit"] = replayRangeEdit
	components["rangehist"] = replayRangeHist
	components["rangepar"] = replayRangePar
}

// rangeVerify asks the library
func (c *Ctx) rangeVerify(p *rproof, step int) bool {
	g, err := p.lib()
	if err != nil {
		c.Fail("decode", step, "a well-formed proof was refused by the decoder: %v", err)
	}
	return c.libRange(g, step)
}

func (c *Ctx) libRange(g rangeproof.Proof, step int) bool {
	var ok bool
	var err error
	if p := try(func() { ok, err = rangeproof.Verify(g) }); p != nil {
		c.Fail("panic", step, "rangeproof.Verify panicked: %v", p)
	}
	if ok && err != nil {
		c.Fail("accept", step, "rangeproof.Verify returned true and the error %v", err)
	}
	return ok
}

func sBig(x *big.Int) scalar {
	var s scalar
	s.SetBigInt(new(big.Int).Mod(x, groupL))
	return s
}

type rangeProg struct {
	M     int
	Skip  []string
	Swap  []string
	Weak  string
	Close string
	// the witness: entries of the low positions, the others are those of the value 0
	Wit *struct {
		Al, Ar [][]int
		V      []int
		Beta   int
		D      int
	}
	Vals string // or: honest bits for these values
	Ok   bool
	Tag  string
}

func mkset(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func replayRangeForge(c *Ctx, raw json.RawMessage) {
	var p rangeProg
	jsonOrDie(raw, &p)
	c.Steps++
	vr := &rvar{skip: mkset(p.Skip), swap: mkset(p.Swap), weak: p.Weak}
	var wit *rwit
	if p.Wit != nil {
		z := make([]scalar, p.M)
		for j := range z {
			z[j] = sInt(0)
		}
		wit = honestWit(z)
		wit.beta, wit.d = sInt(int64(p.Wit.Beta)), sInt(int64(p.Wit.D))
		for j := range p.Wit.Al {
			wit.v[j] = sInt(int64(p.Wit.V[j]))
			for i := range p.Wit.Al[j] {
				wit.aL[rbits*j+i] = sInt(int64(p.Wit.Al[j][i]))
				wit.aR[rbits*j+i] = sInt(int64(p.Wit.Ar[j][i]))
			}
		}
	} else {
		wit = honestWit(rangeVals(c, p.Vals, p.M))
	}
	pf := refRange(p.M, wit, vr, p.Close, c.Rnd)
	// the program does what the specification says it does to a verifier that shares the variant
	if breaks := p.Ok || p.Tag != "forged" || p.Weak != "" || p.Close != ""; pf.verify(vr) != breaks {
		fmt.Fprintf(os.Stderr, "vh: the adversary's program does not work: %s\n", raw)
		os.Exit(2)
	}
	ok := c.rangeVerify(pf, 0)
	if ok != p.Ok {
		c.Fail(p.Tag, 0, "a proof by the adversary (%s) was %s", desc(raw), map[bool]string{true: "accepted", false: "refused"}[ok])
	}
	if p.Ok {
		c.count("honest")
	} else {
		c.count("forgeries")
	}
}

func desc(raw json.RawMessage) string {
	s := string(raw)
	return strings.Replace(s, "\"", "", -1)
}

// rangeVals are m values of a pattern
func rangeVals(c *Ctx, pat string, m int) []scalar {
	out := make([]scalar, m)
	for j := range out {
		var b [8]byte
		c.Rnd.Read(b[:])
		x := new(big.Int).SetBytes(b[:])
		switch pat {
		case "in":
		case "out":
			x.Add(x, new(big.Int).Lsh(big.NewInt(1), 64))
		default:
			panic(fmt.Sprint("values ", pat))
		}
		out[j] = sBig(x)
	}
	return out
}

// rangeVal is a value by its name
func rangeVal(name string, r *rand.Rand) *big.Int {
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, 64)
	switch name {
	case "r":
		return new(big.Int).SetUint64(r.Uint64())
	case "t":
		return new(big.Int).SetUint64(^uint64(0) - uint64(r.Intn(1000)))
	case "over1":
		return new(big.Int).Add(top, one)
	case "over2":
		return new(big.Int).Add(top, new(big.Int).SetUint64(r.Uint64()))
	case "L1":
		return new(big.Int).Sub(groupL, one)
	case "L2":
		return new(big.Int).Sub(groupL, new(big.Int).SetUint64(r.Uint64()))
	case "neg64":
		return new(big.Int).Sub(groupL, top)
	case "half":
		return new(big.Int).Rsh(groupL, 1)
	case "wide":
		x := new(big.Int).Rand(r, new(big.Int).Sub(groupL, top))
		return x.Add(x, top)
	}
	k, err := strconv.Atoi(name[1:])
	if err != nil {
		panic("value " + name)
	}
	x := new(big.Int).Lsh(one, uint(k))
	if name[0] == 'm' {
		x.Sub(x, one)
	}
	return x
}

func rangeBytes(g *rangeproof.Proof) []byte {
	var b bytes.Buffer
	_ = g.Encode(&b, true)
	return b.Bytes()
}

type rangeCase struct {
	Vals  []string
	Debug bool
	Spare int
	Ok    bool
	M     int
}

// proveVals proves values of the caller, who has something behind them in the same array
func (c *Ctx) proveVals(vals []scalar, spare int, debug bool, step int) (g rangeproof.Proof, err error) {
	arr := make([]scalar, len(vals)+spare)
	copy(arr, vals)
	for i := len(vals); i < len(arr); i++ {
		arr[i] = sInt(int64(77 + i))
	}
	keep := append([]scalar{}, arr...)
	if p := try(func() { g, err = rangeproof.Prove(arr[:len(vals)], debug) }); p != nil {
		c.Fail("panic", step, "rangeproof.Prove panicked on %d values: %v", len(vals), p)
	}
	for i := range arr {
		if arr[i] != keep[i] {
			c.Fail("caller", step, "Prove changed element %d of the caller's array (%d values)", i, len(vals))
		}
	}
	return
}

func (c *Ctx) checkProof(g *rangeproof.Proof, vals []scalar, m int, step int) {
	if len(g.V) != m {
		c.Fail("commits", step, "%d values gave %d commitments instead of %d", len(vals), len(g.V), m)
	}
	B, Bl := refBasePoint(), refBlindPoint()
	seen := map[scalar]bool{}
	for i := range g.V {
		v := sInt(0)
		if i < len(vals) {
			v = vals[i]
		}
		bf := g.V[i].BlindingFactor
		want := pAdd(pMul(B, v), pMul(Bl, bf))
		if !want.Equals(&g.V[i].Value) {
			c.Fail("commits", step, "commitment %d of %d does not open to its value under the returned blinding factor", i, m)
		}
		if seen[bf] || bf == sInt(0) {
			c.Fail("commits", step, "commitment %d shares its blinding factor", i)
		}
		seen[bf] = true
	}
	before := rangeBytes(g)
	if !c.libRange(*g, step) {
		c.Fail("complete", step, "the proof of %d values in range does not verify", len(vals))
	}
	if !bytes.Equal(before, rangeBytes(g)) {
		c.Fail("caller", step, "verifying changed the proof")
	}
}

func replayRangeCase(c *Ctx, raw json.RawMessage) {
	var x rangeCase
	jsonOrDie(raw, &x)
	c.Steps++
	var vals []scalar
	for _, n := range x.Vals {
		vals = append(vals, sBig(rangeVal(n, c.Rnd)))
	}
	g, err := c.proveVals(vals, x.Spare, x.Debug, 0)
	if x.Ok {
		if err != nil {
			c.Fail("complete", 0, "%d values in range (%v) were refused: %v", len(vals), x.Vals, err)
		}
		c.checkProof(&g, vals, x.M, 0)
		if p, e := openRange(&g); e != nil {
			c.Fail("encode", 0, "an honest proof does not encode: %v", e)
		} else if len(vals) <= 4 && !p.verify(&rvar{}) {
			c.Fail("interop", 0, "the proof of %v does not verify independently", x.Vals)
		}
		c.count("proven")
		return
	}
	if len(vals) == 0 || len(vals) > 16 {
		if err == nil {
			c.Fail("refuse", 0, "a list of %d values was not refused", len(vals))
		}
		c.count("refused")
		return
	}
	if err == nil && c.libRange(g, 0) {
		// its commitments may have been made to something else
		B, Bl := refBasePoint(), refBlindPoint()
		for i := range vals {
			if i >= len(g.V) {
				break
			}
			want := pAdd(pMul(B, vals[i]), pMul(Bl, g.V[i].BlindingFactor))
			if want.Equals(&g.V[i].Value) && vals[i].BigInt().BitLen() > 64 {
				c.Fail("outrange", 0, "a proof of values out of range (%v) verifies", x.Vals)
			}
		}
	}
	c.count("outofrange")
}

// ------------------------------------------------------------------- edits

type rangeEdit struct {
	Ma, Mb int
	Rel    string
	Es     []json.RawMessage
	S      struct {
		V, L, R []string
		P, C    map[string]string
		Ip      bool
	}
	Ok bool
}

type rangeFix struct {
	once sync.Once
	a, b *rproof
	bad  string
}

var rangeFixes = map[string]*rangeFix{}
var rangeFixMu sync.Mutex

func honestRange(vals []scalar, lib bool, r *rand.Rand) (*rproof, string) {
	if !lib {
		return refRange(len(vals), honestWit(vals), &rvar{}, "", r), ""
	}
	g, err := rangeproof.Prove(append([]scalar{}, vals...), false)
	if err != nil {
		return nil, err.Error()
	}
	p, err := openRange(&g)
	if err != nil {
		return nil, err.Error()
	}
	if len(p.V) != len(vals) {
		return nil, fmt.Sprintf("%d commitments for %d values", len(p.V), len(vals))
	}
	return p, ""
}

func getRangeFix(seed int64, ma, mb int, rel string, v int) *rangeFix {
	key := fmt.Sprint(seed, ma, mb, rel, v)
	rangeFixMu.Lock()
	f := rangeFixes[key]
	if f == nil {
		f = &rangeFix{}
		rangeFixes[key] = f
	}
	rangeFixMu.Unlock()
	f.once.Do(func() {
		h := int64(0)
		for _, c := range key {
			h = h*131 + int64(c)
		}
		r := rand.New(rand.NewSource(h))
		mk := func(n int) (vs []scalar) {
			for i := 0; i < n; i++ {
				vs = append(vs, sBig(rangeVal([]string{"r", "r", "m64", "m0", "p63", "m1"}[r.Intn(6)], r)))
			}
			return
		}
		va, vb := mk(ma), mk(mb)
		if rel == "samevals" {
			vb = append([]scalar{}, va...)
			for len(vb) < mb {
				vb = append(vb, sInt(0))
			}
			vb = vb[:mb]
		}
		f.a, f.bad = honestRange(va, true, r)
		if f.bad == "" {
			f.b, f.bad = honestRange(vb, v%2 == 0, r)
		}
	})
	return f
}

type rangeEval struct {
	f *rangeFix
	c *Ctx
}

func (e *rangeEval) side(n string) *rproof {
	if n[0] == 'A' {
		return e.f.a
	}
	return e.f.b
}

func (e *rangeEval) point(n string) point {
	ee := editEval{c: e.c}
	switch {
	case n == "id":
		return pZero()
	case n == "un":
		return point{}
	case n[0] == 'x':
		return pRand(ee.fresh(n))
	case n[0] == '-':
		return pNeg(e.point(n[1:]))
	case n[0] == '2':
		p := e.point(n[1:])
		return pAdd(p, p)
	}
	s := e.side(n)
	switch n[1:] {
	case "A":
		return s.A
	case "S":
		return s.S
	case "T1":
		return s.T1
	case "T2":
		return s.T2
	}
	i, err := strconv.Atoi(n[2:])
	if err != nil {
		panic("point " + n)
	}
	return map[byte][]point{'V': s.V, 'L': s.L, 'R': s.R}[n[1]][i-1]
}

func (e *rangeEval) scalar(n string) scalar {
	ee := editEval{c: e.c}
	switch {
	case n == "0":
		return sInt(0)
	case n[0] == 'x':
		return rscalar(ee.fresh(n))
	case n[0] == '-':
		return sNeg(e.scalar(n[1:]))
	case n[0] == '+':
		return sAdd(e.scalar(n[1:]), sInt(1))
	}
	s := e.side(n)
	v, ok := map[string]scalar{"taux": s.taux, "mu": s.mu, "t": s.t, "a": s.a, "b": s.b}[n[1:]]
	if !ok {
		panic("scalar " + n)
	}
	return v
}

func replayRangeEdit(c *Ctx, raw json.RawMessage) {
	var x rangeEdit
	jsonOrDie(raw, &x)
	var f *rangeFix
	if p := try(func() { f = getRangeFix(c.Seed, x.Ma, x.Mb, x.Rel, c.Idx%3) }); p != nil {
		c.Fail("panic", 0, "proving panicked: %v", p)
	}
	if f.bad != "" {
		c.Fail("complete", 0, "an honest prover failed: %s", f.bad)
	}
	c.Steps++
	e := &rangeEval{f, c}
	pts := func(ns []string) (ps []point) {
		for _, n := range ns {
			ps = append(ps, e.point(n))
		}
		return
	}
	p := &rproof{V: pts(x.S.V), L: pts(x.S.L), R: pts(x.S.R), nilIP: !x.S.Ip,
		A: e.point(x.S.P["A"]), S: e.point(x.S.P["S"]), T1: e.point(x.S.P["T1"]), T2: e.point(x.S.P["T2"]),
		taux: e.scalar(x.S.C["taux"]), mu: e.scalar(x.S.C["mu"]), t: e.scalar(x.S.C["t"]), a: e.scalar(x.S.C["a"]), b: e.scalar(x.S.C["b"])}
	ok := c.rangeVerify(p, len(x.Es))
	if ok && !x.Ok {
		c.Fail("accept", len(x.Es), "a proof of %d values was accepted after %s", x.Ma, bytes.Join(rawList(x.Es), []byte(", ")))
	}
	if !ok && x.Ok {
		c.Fail("complete", len(x.Es), "an honest proof of %d values was refused", x.Ma)
	}
	if x.Ok {
		c.count("still_valid")
	} else {
		c.count("altered")
	}
}

// ---------------------------------------------------------------- histories

type rangeOp struct {
	O  string
	N  int    // values
	K  string // in, out
	I  int    // proof
	D  bool
	Ok bool
}

// rangeHistory performs a history of proving and verifying
func rangeHistory(c *Ctx, ops []rangeOp, r *rand.Rand, fail func(tag string, step int, format string, a ...interface{})) {
	var ps []rangeproof.Proof
	for step, x := range ops {
		switch x.O {
		case "prove":
			var vals []scalar
			for i := 0; i < x.N; i++ {
				n := "r"
				if x.K == "out" && i == x.N-1 {
					n = "over2"
				}
				vals = append(vals, sBig(rangeVal(n, r)))
			}
			var g rangeproof.Proof
			var err error
			if p := try(func() { g, err = rangeproof.Prove(vals, x.D) }); p != nil {
				fail("panic", step, "Prove panicked: %v", p)
				return
			}
			if x.Ok && err != nil {
				fail("history", step, "Prove of %d values in range failed after other calls: %v", x.N, err)
				return
			}
			if !x.Ok && x.K != "out" && err == nil {
				fail("history", step, "Prove of %d values was not refused after other calls", x.N)
				return
			}
			ps = append(ps, g)
		case "tamper":
			p, err := openRange(&ps[x.I-1])
			if err != nil {
				// nothing was proven
				ps = append(ps, rangeproof.Proof{})
				break
			}
			q := p.clone()
			q.T2 = pAdd(q.T2, refBasePoint())
			g, err := q.lib()
			if err != nil {
				fail("decode", step, "%v", err)
				return
			}
			ps = append(ps, g)
		case "shorten": // a proof with half of its commitments
			g := ps[x.I-1]
			g.V = append(g.V[:0:0], g.V[:len(g.V)/2]...)
			ps = append(ps, g)
		case "verify":
			var ok bool
			if p := try(func() { ok, _ = rangeproof.Verify(ps[x.I-1]) }); p != nil {
				fail("panic", step, "Verify panicked: %v", p)
				return
			}
			if ok != x.Ok {
				fail("history", step, "Verify of proof %d gave %v after other calls", x.I, ok)
				return
			}
		}
	}
}

func replayRangeHist(c *Ctx, raw json.RawMessage) {
	var h struct{ Log []rangeOp }
	jsonOrDie(raw, &h)
	c.Steps += int64(len(h.Log))
	rangeHistory(c, h.Log, c.Rnd, c.Fail)
}

// replayRangePar performs several histories at once
func replayRangePar(c *Ctx, raw json.RawMessage) {
	var h struct{ Logs [][]rangeOp }
	jsonOrDie(raw, &h)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first func()
	for i, l := range h.Logs {
		c.Steps += int64(len(l))
		wg.Add(1)
		go func(i int, l []rangeOp) {
			defer wg.Done()
			rangeHistory(c, l, rand.New(rand.NewSource(c.Seed*31+int64(c.Idx*100+i))), func(tag string, step int, f string, a ...interface{}) {
				mu.Lock()
				if first == nil {
					first = func() { c.Fail(tag, step, "at the same time as others: "+f, a...) }
				}
				mu.Unlock()
			})
		}(i, l)
	}
	wg.Wait()
	if first != nil {
		first()
	}
}
