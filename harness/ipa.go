package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
)

func init() {
	components["ipacase"] = replayIPACase
	components["ipaedit"] = replayIPAEdit
}

type ipaCase struct {
	N             int
	A, B, F, G, Q string
	E             string
	D             int
	Ok            bool
}

func ipaVec(kind string, n int, r *rand.Rand) []scalar {
	out := make([]scalar, n)
	y := rscalar(r)
	p := sInt(1)
	for i := range out {
		switch kind {
		case "rand":
			out[i] = rscalar(r)
		case "zero":
			out[i] = sInt(0)
		case "one":
			out[i] = sInt(1)
		case "minus":
			out[i] = sInt(-1)
		case "first":
			out[i] = sInt(0)
			if i == 0 {
				out[i] = rscalar(r)
			}
		case "last":
			out[i] = sInt(0)
			if i == n-1 {
				out[i] = rscalar(r)
			}
		case "half":
			out[i] = sInt(0)
			if i >= n/2 {
				out[i] = rscalar(r)
			}
		case "bits":
			out[i] = sInt(int64(r.Intn(2)))
		case "powers":
			out[i] = p
			p = sMul(p, y)
		default:
			panic("vector " + kind)
		}
	}
	return out
}

func ipaGens(kind string, n int, seed string, r *rand.Rand) []point {
	out := append([]point{}, refGens([]byte(seed), n)...)
	for i := range out {
		switch {
		case kind == "same":
			out[i] = out[0]
		case kind == "ident", kind == "mixed" && i%2 == 1:
			out[i] = pZero()
		case kind == "mixed" && i%4 == 2:
			out[i] = pNeg(out[0])
		}
	}
	return out
}

// padded gives a slice with room behind it, as a caller may hand in, and a check that it was left alone
func paddedS(v []scalar) ([]scalar, func() bool) {
	full := append(append([]scalar{}, v...), sInt(41), sInt(42))
	keep := append([]scalar{}, full...)
	return full[:len(v)], func() bool {
		for i := range full {
			if full[i] != keep[i] {
				return false
			}
		}
		return true
	}
}

func paddedP(v []point) ([]point, func() bool) {
	full := append(append([]point{}, v...), refBasePoint(), refBlindPoint())
	keep := append([]point{}, full...)
	return full[:len(v)], func() bool {
		for i := range full {
			if full[i] != keep[i] {
				return false
			}
		}
		return true
	}
}

func ipaP(G, H []point, a, b, f []scalar, Q point) point {
	bf := make([]scalar, len(b))
	for i := range b {
		bf[i] = sMul(b[i], f[i])
	}
	return pAdd(pAdd(multi(a, G), multi(bf, H)), pMul(Q, dot(a, b)))
}

func (c *Ctx) ipaVerify(pr *innerproduct.Proof, G, H []point, f []scalar, Q, P point, step int) bool {
	var ok bool
	G, g1 := paddedP(G)
	H, g2 := paddedP(H)
	f, g3 := paddedS(f)
	if p := try(func() { ok = pr.Verify(G, H, pr.L, pr.R, f, Q, P, len(G)) }); p != nil {
		c.Fail("panic", step, "innerproduct: Verify panicked: %v", p)
	}
	if !g1() || !g2() || !g3() {
		c.Fail("caller", step, "innerproduct: Verify changed its arguments")
	}
	return ok
}

func replayIPACase(c *Ctx, raw json.RawMessage) {
	var x ipaCase
	jsonOrDie(raw, &x)
	c.Steps++
	r := c.Rnd
	size := func(l string) int {
		if x.E != l {
			return x.N
		}
		switch x.D {
		case 1:
			return x.N + 1
		case 2:
			return x.N - 1
		case 3:
			return 2 * x.N
		}
		return x.N / 2
	}
	a, okA := paddedS(ipaVec(x.A, size("a"), r))
	b, okB := paddedS(ipaVec(x.B, size("b"), r))
	f, okF := paddedS(ipaVec(x.F, size("f"), r))
	G, okG := paddedP(ipaGens(x.G, size("G"), "some generators", r))
	H, okH := paddedP(ipaGens(x.G, size("H"), "other generators", r))
	Q := pRand(r)
	switch x.Q {
	case "ident":
		Q = pZero()
	case "gen":
		if len(G) > 0 {
			Q = G[0]
		}
	}
	var pr *innerproduct.Proof
	var err error
	if p := try(func() { pr, err = innerproduct.Generate(G, H, a, b, f, Q) }); p != nil {
		c.Fail("panic", 0, "innerproduct: Generate panicked: %v", p)
	}
	if !okA() || !okB() || !okF() || !okG() || !okH() {
		c.Fail("caller", 0, "innerproduct: Generate changed its arguments")
	}
	if !x.Ok {
		if err == nil {
			c.Fail("refuse", 0, "innerproduct: Generate took sizes G=%d H=%d a=%d b=%d factors=%d", len(G), len(H), len(a), len(b), len(f))
		}
		return
	}
	if err != nil || pr == nil {
		c.Fail("complete", 0, "innerproduct: Generate refused size %d: %v", x.N, err)
	}
	P := ipaP(G, H, a, b, f, Q)
	if !c.ipaVerify(pr, G, H, f, Q, P, 0) {
		c.Fail("complete", 0, "the inner-product proof of size %d (%s) does not verify", x.N, desc(raw))
	}
	if !refIPAVerify(G, H, f, Q, P, pr.L, pr.R, pr.A, pr.B, &rvar{}) {
		c.Fail("interop", 0, "the inner-product proof of size %d does not verify independently (%s)", x.N, desc(raw))
	}
	L, R, fa, fb := refIPA(G, H, a, b, f, Q, &rvar{}, "", P, r)
	q := &innerproduct.Proof{L: L, R: R, A: fa, B: fb}
	if !c.ipaVerify(q, G, H, f, Q, P, 0) {
		c.Fail("interop", 0, "an independently made inner-product proof of size %d does not verify (%s)", x.N, desc(raw))
	}
	// another message or commitment: refused, whatever the vectors and generators
	where := []string{"P", "L", "R"}
	if x.N > 16 {
		where = []string{"P", where[1+r.Intn(2)]}
	}
	for _, w := range where {
		o := &innerproduct.Proof{L: append([]point{}, pr.L...), R: append([]point{}, pr.R...), A: pr.A, B: pr.B}
		oP := P
		switch {
		case w == "P":
			oP = pRand(r)
		case x.N == 1:
			continue
		case w == "L":
			o.L[r.Intn(len(o.L))] = pRand(r)
		case w == "R":
			o.R[r.Intn(len(o.R))] = pRand(r)
		}
		if c.ipaVerify(o, G, H, f, Q, oP, 0) {
			c.Fail("accept", 0, "an inner-product proof with another %s was accepted (%s)", w, desc(raw))
		}
	}
	// the scalars of the verification
	us := refChals(L, R)
	uSq, uInv, s := q.VerifScalars()
	if len(uSq) != len(us) || len(uInv) != len(us) || len(s) != x.N {
		c.Fail("scalars", 0, "%d, %d and %d scalars for a proof of size %d", len(uSq), len(uInv), len(s), x.N)
	}
	for k := range us {
		w := sMul(us[k], us[k])
		wi := sInv(w)
		if !uSq[k].Equals(&w) || !uInv[k].Equals(&wi) {
			c.Fail("scalars", 0, "challenge %d of %d", k, len(us))
		}
	}
	for i := range s {
		w := sInt(1)
		for k := range us {
			if i>>uint(len(us)-1-k)&1 == 1 {
				w = sMul(w, us[k])
			} else {
				w = sMul(w, sInv(us[k]))
			}
		}
		if !s[i].Equals(&w) {
			c.Fail("scalars", 0, "the scalar of generator %d of %d", i, len(s))
		}
	}
	c.count("honest")
}

type ipaInst struct {
	G, H, L, R []point
	f          []scalar
	P, Q       point
	a, b       scalar
}
type ipaFix struct {
	once sync.Once
	w    map[byte]*ipaInst
	bad  string
	own  bool // the library has challenges of its own: the reference has no say
}

var ipaFixes = map[string]*ipaFix{}
var ipaFixMu sync.Mutex

func getIPAFix(seed int64, n, v int) *ipaFix {
	key := fmt.Sprint(seed, n, v)
	ipaFixMu.Lock()
	f := ipaFixes[key]
	if f == nil {
		f = &ipaFix{w: map[byte]*ipaInst{}}
		ipaFixes[key] = f
	}
	ipaFixMu.Unlock()
	f.once.Do(func() {
		r := rand.New(rand.NewSource(seed*7919 + int64(n*10+v)))
		for _, w := range []byte{'A', 'B'} {
			x := &ipaInst{G: ipaGens("chain", n, "gens"+string([]byte{w}), r), H: ipaGens("chain", n, "hens"+string([]byte{w}), r), f: ipaVec("rand", n, r), Q: pRand(r)}
			a, b := ipaVec("rand", n, r), ipaVec("rand", n, r)
			x.P = ipaP(x.G, x.H, a, b, x.f, x.Q)
			pr, err := innerproduct.Generate(x.G, x.H, a, b, x.f, x.Q)
			if err != nil {
				f.bad = err.Error()
				return
			}
			x.L, x.R, x.a, x.b = pr.L, pr.R, pr.A, pr.B
			if !refIPAVerify(x.G, x.H, x.f, x.Q, x.P, x.L, x.R, x.a, x.b, &rvar{}) {
				f.own = true
			} else if (v+int(w))%2 == 1 {
				x.L, x.R, x.a, x.b = refIPA(x.G, x.H, a, b, x.f, x.Q, &rvar{}, "", x.P, r)
			}
			f.w[w] = x
		}
	})
	return f
}

func replayIPAEdit(c *Ctx, raw json.RawMessage) {
	var x struct {
		N  int
		Es []json.RawMessage
		S  struct {
			L    map[string][]string
			P, C map[string]string
		}
		Ok bool
	}
	jsonOrDie(raw, &x)
	c.Steps++
	var f *ipaFix
	if p := try(func() { f = getIPAFix(c.Seed, x.N, c.Idx%4) }); p != nil {
		c.Fail("panic", 0, "innerproduct: Generate panicked: %v", p)
	}
	if f.bad != "" {
		c.Fail("complete", 0, "innerproduct: Generate failed: %s", f.bad)
	}
	ee := editEval{c: c}
	var pt func(n string) point
	pt = func(n string) point {
		switch {
		case n == "id":
			return pZero()
		case n == "un":
			return point{}
		case n[0] == 'x':
			return pRand(ee.fresh(n))
		case n[0] == '~': // shifted together with the commitment
			return pAdd(pt(n[1:]), pRand(ee.fresh("shift")))
		case n[0] == '-':
			return pNeg(pt(n[1:]))
		case n[0] == '2':
			p := pt(n[1:])
			return pAdd(p, p)
		}
		w := f.w[n[0]]
		switch n[1:] {
		case "P":
			return w.P
		case "Q":
			return w.Q
		}
		i, _ := strconv.Atoi(n[2:])
		return map[byte][]point{'G': w.G, 'H': w.H, 'L': w.L, 'R': w.R}[n[1]][i-1]
	}
	var sc func(n string) scalar
	sc = func(n string) scalar {
		switch {
		case n == "0":
			return sInt(0)
		case n[0] == 'x':
			return rscalar(ee.fresh(n))
		case n[0] == '-':
			return sNeg(sc(n[1:]))
		case n[0] == '+':
			return sAdd(sc(n[1:]), sInt(1))
		}
		w := f.w[n[0]]
		switch n[1:] {
		case "a":
			return w.a
		case "b":
			return w.b
		}
		i, _ := strconv.Atoi(n[2:])
		return w.f[i-1]
	}
	pts := func(l string) (ps []point) {
		for _, n := range x.S.L[l] {
			ps = append(ps, pt(n))
		}
		return
	}
	var fs []scalar
	for _, n := range x.S.L["f"] {
		fs = append(fs, sc(n))
	}
	pr := &innerproduct.Proof{L: pts("L"), R: pts("R"), A: sc(x.S.C["a"]), B: sc(x.S.C["b"])}
	G, H, Q := pts("G"), pts("H"), pt(x.S.P["Q"])
	var P point
	if n := x.S.P["P"]; n[0] == '~' {
		w := f.w[n[1]]
		uSq, uInvSq, _ := (&innerproduct.Proof{L: w.L, R: w.R, A: w.a, B: w.b}).VerifScalars()
		i, _ := strconv.Atoi(n[3:])
		u := uSq
		if n[2] == 'R' {
			u = uInvSq
		}
		if len(u) < i {
			c.Fail("scalars", 0, "%d challenges for a proof of size %d", len(u), x.N)
		}
		P = pSub(w.P, pMul(pRand(ee.fresh("shift")), u[i-1]))
	} else {
		P = pt(n)
	}
	ok := c.ipaVerify(pr, G, H, fs, Q, P, len(x.Es))
	un := strings.Contains(string(raw), "\"un\"")
	if !un && !f.own && refIPAVerify(G, H, fs, Q, P, pr.L, pr.R, pr.A, pr.B, &rvar{}) != x.Ok {
		fmt.Fprintf(os.Stderr, "vh: the reference disagrees with the specification: %s\n", raw)
		os.Exit(2)
	}
	if ok && !x.Ok {
		c.Fail("accept", len(x.Es), "an inner-product proof of size %d was accepted after %s", x.N, bytes.Join(rawList(x.Es), []byte(", ")))
	}
	if !ok && x.Ok {
		c.Fail("complete", len(x.Es), "an honest inner-product proof of size %d was refused", x.N)
	}
}
