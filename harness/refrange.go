package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// An implementation of the range proof and of the inner-product argument that shares no code with the library above the
// group: it proves, and it deviates from the protocol wherever a behaviour of the specification says so.

const rbits = 64

type rproof struct {
	V              []point
	A, S, T1, T2   point
	taux, mu, t    scalar
	L, R           []point
	a, b           scalar
	gam            []scalar // blinding factors of V, if known
	nilIP          bool
	y, z, x, w, dl scalar
}

func rangeGens(m int) (G, H []point) {
	seed := []byte("dusk.BulletProof.vec1")
	return refGens(seed, rbits*m), refGens(append(append([]byte{}, seed...), 1), rbits*m)
}

// lib gives the proof to the library: the private scalars through its decoder, the rest through the fields
func (p *rproof) lib() (rangeproof.Proof, error) {
	var b bytes.Buffer
	z := pZero()
	for i := 0; i < 4; i++ {
		b.Write(z.Bytes())
	}
	for _, s := range []scalar{p.taux, p.mu, p.t, p.a, p.b} {
		b.Write(s.Bytes())
	}
	var g rangeproof.Proof
	if err := g.Decode(&b, false); err != nil {
		return g, err
	}
	for i := range p.V {
		g.V = append(g.V, pedersen.Commitment{Value: p.V[i]})
	}
	g.A, g.S, g.T1, g.T2 = p.A, p.S, p.T1, p.T2
	g.IPProof = &innerproduct.Proof{L: append([]point{}, p.L...), R: append([]point{}, p.R...), A: p.a, B: p.b}
	if p.nilIP {
		g.IPProof = nil
	}
	return g, nil
}

// openRange takes a proof of the library apart, by its encoding
func openRange(g *rangeproof.Proof) (*rproof, error) {
	var buf bytes.Buffer
	if err := g.Encode(&buf, true); err != nil {
		return nil, err
	}
	d := buf.Bytes()
	p := &rproof{}
	bad := fmt.Errorf("an encoding of %d bytes", len(d))
	if len(d) < 4 {
		return nil, bad
	}
	n := int(binary.BigEndian.Uint32(d))
	d = d[4:]
	if n < 0 || n > 1<<20 || len(d) < 32*(n+9) || (len(d)-32*(n+9))%64 != 0 {
		return nil, bad
	}
	var err error
	next := func() (a [32]byte) { copy(a[:], d); d = d[32:]; return }
	pt := func() (q point) {
		a := next()
		if !q.SetBytes(&a) && err == nil {
			err = fmt.Errorf("an element that is not a point")
		}
		return
	}
	sc := func() (s scalar) { a := next(); s.SetBytes(&a); return }
	for i := 0; i < n; i++ {
		p.V = append(p.V, pt())
	}
	p.A, p.S, p.T1, p.T2 = pt(), pt(), pt(), pt()
	p.taux, p.mu, p.t, p.a, p.b = sc(), sc(), sc(), sc(), sc()
	for len(d) > 0 {
		p.L = append(p.L, pt())
		p.R = append(p.R, pt())
	}
	return p, err
}

func (p *rproof) clone() *rproof {
	q := *p
	q.V = append([]point{}, p.V...)
	q.L = append([]point{}, p.L...)
	q.R = append([]point{}, p.R...)
	return &q
}

// rvar is the adversary's variant of the protocol, in which it hopes the verifier joins
type rvar struct {
	skip map[string]bool // "A@yz": A is left out of the hash that gives y and z
	swap map[string]bool // "A@yz": A is hashed after the message that follows it
	weak string          // y1 z1 x1 w1 u1: constant challenges; yz zy: one challenge twice; yrep, zflat: repeated powers
}

type titem struct {
	name string
	b    []byte
}

func (v *rvar) hash(ch string, items []titem) scalar {
	var buf []byte
	for i := 0; i < len(items); i++ {
		it := items[i]
		if v.swap[it.name+"@"+ch] && i+1 < len(items) {
			items = append([]titem{}, items...)
			items[i], items[i+1] = items[i+1], items[i]
			if !v.skip[items[i].name+"@"+ch] {
				buf = append(buf, items[i].b...)
			}
			continue
		}
		if !v.skip[it.name+"@"+ch] {
			buf = append(buf, it.b...)
		}
	}
	var s scalar
	s.Derive(buf)
	return s
}

func (v *rvar) ypow(y scalar, m int) []scalar {
	out := make([]scalar, rbits*m)
	p := sInt(1)
	for i := range out {
		if v.weak == "yrep" && i%rbits == 0 {
			p = sInt(1)
		}
		out[i] = p
		p = sMul(p, y)
	}
	return out
}

// zpow are the weights of the commitments
func (v *rvar) zpow(z scalar, m int) []scalar {
	out := make([]scalar, m)
	p := sMul(z, z)
	for j := range out {
		out[j] = p
		if v.weak != "zflat" {
			p = sMul(p, z)
		}
	}
	return out
}

func pow2s() []scalar {
	out := make([]scalar, rbits)
	p := sInt(1)
	for i := range out {
		out[i] = p
		p = sAdd(p, p)
	}
	return out
}

func dot(a, b []scalar) scalar {
	s := sInt(0)
	for i := range a {
		s = sAdd(s, sMul(a[i], b[i]))
	}
	return s
}

func multi(s []scalar, p []point) point {
	q := pZero()
	zero := sInt(0)
	for i := range s {
		if s[i].Equals(&zero) {
			continue
		}
		q = pAdd(q, pMul(p[i], s[i]))
	}
	return q
}

func (v *rvar) delta(yp, zp []scalar, z scalar) scalar {
	sy := sInt(0)
	for i := range yp {
		sy = sAdd(sy, yp[i])
	}
	s2 := sInt(0)
	for _, x := range pow2s() {
		s2 = sAdd(s2, x)
	}
	d := sMul(sSub(z, sMul(z, z)), sy)
	for j := range zp {
		d = sSub(d, sMul(sMul(zp[j], z), s2))
	}
	return d
}

// combiner is the factor by which a verifier with a predictable one adds its two equations
func (v *rvar) combiner(y, z scalar) scalar {
	switch v.weak {
	case "cz":
		return z
	}
	return sInt(1)
}

type rwit struct {
	v, aL, aR []scalar
	beta      scalar
	d         scalar // of the first generator of G, in V1
}

func bitsOf(v scalar) (aL, aR []scalar) {
	b := v.Bytes() // little endian
	for i := 0; i < rbits; i++ {
		bit := int64(b[i/8]>>uint(i%8)) & 1
		aL = append(aL, sInt(bit))
		aR = append(aR, sInt(bit-1))
	}
	return
}

func honestWit(v []scalar) *rwit {
	w := &rwit{v: v, beta: sInt(0), d: sInt(0)}
	for i := range v {
		l, r := bitsOf(v[i])
		w.aL = append(w.aL, l...)
		w.aR = append(w.aR, r...)
	}
	return w
}

// refRange proves. closing names the message by which the adversary satisfies the verification equation: "" for none
// (the witness does), V<j> T1 T2 for the first one, A S L<k> R<k> for the second.
func refRange(m int, wit *rwit, vr *rvar, closing string, r *rand.Rand) *rproof {
	G, H := rangeGens(m)
	B, Bl := refBasePoint(), refBlindPoint()
	n := rbits * m
	p := &rproof{V: make([]point, m)}
	for j := range p.V {
		g := rscalar(r)
		p.gam = append(p.gam, g)
		p.V[j] = pAdd(pMul(B, wit.v[j]), pMul(Bl, g))
	}
	zero := sInt(0)
	tilt := !wit.d.Equals(&zero)
	if tilt {
		p.V[0] = pAdd(p.V[0], pMul(G[0], wit.d))
	}
	aL, aR := append([]scalar{}, wit.aL...), append([]scalar{}, wit.aR...)
	sL, sR := make([]scalar, n), make([]scalar, n)
	for i := range sL {
		sL[i], sR[i] = rscalar(r), rscalar(r)
	}
	alpha, rho := rscalar(r), rscalar(r)
	commitA := func() {
		p.A = pAdd(pAdd(pMul(Bl, alpha), pMul(B, wit.beta)), pAdd(multi(aL, G), multi(aR, H)))
	}
	blind := closing == "S" || (len(closing) > 0 && (closing[0] == 'L' || closing[0] == 'R'))
	if closing != "A" {
		if blind {
			p.A = pRand(r)
		} else {
			commitA()
		}
	}
	if blind {
		p.S = pRand(r)
	} else {
		p.S = pAdd(pMul(Bl, rho), pAdd(multi(sL, G), multi(sR, H)))
	}
	// a message that is held back is not in the hash of the challenges before it
	main := func() (items []titem) {
		for j := range p.V {
			items = append(items, titem{fmt.Sprintf("V%d", j+1), p.V[j].Bytes()})
		}
		return append(items, titem{"A", p.A.Bytes()}, titem{"S", p.S.Bytes()})
	}
	items := main()
	p.y = vr.hash("yz", items)
	if vr.weak == "y1" {
		p.y = sInt(1)
	}
	p.z.Derive(p.y.Bytes())
	switch vr.weak {
	case "z1":
		p.z = sInt(1)
	case "yz":
		p.z = p.y
	case "zy":
		p.y = p.z
	}
	y, z := p.y, p.z
	yp, zp := vr.ypow(y, m), vr.zpow(z, m)
	p.dl = vr.delta(yp, zp, z)
	two := pow2s()
	l0, r0, r1 := make([]scalar, n), make([]scalar, n), make([]scalar, n)
	poly := func() {
		for i := range l0 {
			l0[i] = sSub(aL[i], z)
			r0[i] = sAdd(sMul(yp[i], sAdd(aR[i], z)), sMul(zp[i/rbits], two[i%rbits]))
			r1[i] = sMul(yp[i], sR[i])
		}
	}
	poly()
	need0 := sAdd(p.dl, dot(zp, wit.v)) // what the constant term has to be
	if closing == "A" {
		// one entry of aR makes up for the difference
		d := sMul(sSub(need0, dot(l0, r0)), sInv(sMul(l0[0], yp[0])))
		aR[0] = sAdd(aR[0], d)
		commitA()
		poly()
	}
	if tilt { // what is wrong in the first equation is made up for in the second
		l0[0] = sAdd(l0[0], sMul(sMul(zp[0], wit.d), sInv(vr.combiner(y, z))))
	}
	t1, t2 := sAdd(dot(l0, r1), dot(sL, r0)), dot(sL, r1)
	b1, b2 := rscalar(r), rscalar(r)
	if blind || (len(closing) > 0 && closing[0] == 'V') {
		t1, t2 = rscalar(r), rscalar(r)
	}
	p.T1 = pAdd(pMul(B, t1), pMul(Bl, b1))
	p.T2 = pAdd(pMul(B, t2), pMul(Bl, b2))
	second := func() []titem {
		return append(main(), titem{"z", z.Bytes()}, titem{"T1", p.T1.Bytes()}, titem{"T2", p.T2.Bytes()})
	}
	items = second()
	p.x = vr.hash("x", items)
	if vr.weak == "x1" {
		p.x = sInt(1)
	}
	x := p.x
	xx := sMul(x, x)
	p.taux = sAdd(sAdd(sMul(b1, x), sMul(b2, xx)), dot(zp, p.gam))
	p.mu = sAdd(alpha, sMul(rho, x))
	l, rr := make([]scalar, n), make([]scalar, n)
	for i := range l {
		l[i] = sAdd(l0[i], sMul(x, sL[i]))
		rr[i] = sAdd(r0[i], sMul(x, r1[i]))
	}
	p.t = sSub(dot(l, rr), wit.beta)
	needT := sAdd(need0, sAdd(sMul(t1, x), sMul(t2, xx)))
	if blind {
		p.t = needT
		p.mu = rscalar(r)
	}
	// the first equation: t B + taux Bl = sum z V + delta B + x T1 + x^2 T2
	eq1 := func() point { // left minus the terms other than those of V, T1, T2
		return pAdd(pMul(B, sSub(p.t, p.dl)), pMul(Bl, p.taux))
	}
	switch {
	case closing == "T1":
		q := pSub(pSub(eq1(), multi(zp, p.V)), pMul(p.T2, xx))
		p.T1 = pMul(q, sInv(x))
	case closing == "T2":
		q := pSub(pSub(eq1(), multi(zp, p.V)), pMul(p.T1, x))
		p.T2 = pMul(q, sInv(xx))
	case len(closing) > 0 && closing[0] == 'V':
		j, err := strconv.Atoi(closing[1:])
		must(err)
		j--
		q := pSub(pSub(eq1(), pMul(p.T1, x)), pMul(p.T2, xx))
		for i := range p.V {
			if i != j {
				q = pSub(q, pMul(p.V[i], zp[i]))
			}
		}
		p.V[j] = pMul(q, sInv(zp[j]))
	}
	yinv := make([]scalar, n)
	for i := range yinv {
		yinv[i] = sInv(yp[i])
	}
	pfix := func() point { // the part of the second equation that no message enters: -z sum G + sum (z + z^(2+j) 2^i y^-i) H - mu Bl
		gs, hs := make([]scalar, n), make([]scalar, n)
		for i := range gs {
			gs[i] = sNeg(z)
			hs[i] = sAdd(z, sMul(sMul(zp[i/rbits], two[i%rbits]), yinv[i]))
		}
		return pSub(pAdd(multi(gs, G), multi(hs, H)), pMul(Bl, p.mu))
	}
	if closing == "S" {
		// vectors of any kind with the inner product that is needed
		for i := range l {
			l[i], rr[i] = rscalar(r), rscalar(r)
		}
		rr[0] = sAdd(rr[0], sMul(sSub(p.t, dot(l, rr)), sInv(l[0])))
		hs := make([]scalar, n)
		for i := range hs {
			hs[i] = sMul(rr[i], yinv[i])
		}
		q := pSub(pSub(pAdd(multi(l, G), multi(hs, H)), pfix()), p.A)
		p.S = pMul(q, sInv(x))
	}
	items = append(second(), titem{"x", x.Bytes()}, titem{"taux", p.taux.Bytes()}, titem{"mu", p.mu.Bytes()}, titem{"t", p.t.Bytes()})
	p.w = vr.hash("w", items)
	if vr.weak == "w1" {
		p.w = sInt(1)
	}
	Q := pMul(B, p.w)
	var P point
	if blind && closing != "S" {
		P = pAdd(pAdd(pAdd(p.A, pMul(p.S, x)), pfix()), pMul(Q, p.t))
	}
	cl := closing
	if !blind || closing == "S" {
		cl = ""
	}
	p.L, p.R, p.a, p.b = refIPA(G, H, l, rr, yinv, Q, vr, cl, P, r)
	return p
}

// refIPA is the inner-product argument. With closing L<k> or R<k> the prover knows no witness for P: up to round k it
// sends anything, and there it makes L or R such that the rest is honest.
func refIPA(G, H []point, a, b, hf []scalar, Q point, vr *rvar, closing string, P point, r *rand.Rand) (L, R []point, fa, fb scalar) {
	G = append([]point{}, G...)
	n := len(G)
	h := make([]point, n)
	for i := range h {
		h[i] = pMul(H[i], hf[i])
	}
	a, b = append([]scalar{}, a...), append([]scalar{}, b...)
	var items []titem
	blind := closing != ""
	k := 0
	for n > 1 {
		n /= 2
		k++
		var Lk, Rk point
		if blind {
			Lk, Rk = pRand(r), pRand(r)
		} else {
			Lk = pAdd(pAdd(multi(a[:n], G[n:]), multi(b[n:], h[:n])), pMul(Q, dot(a[:n], b[n:])))
			Rk = pAdd(pAdd(multi(a[n:], G[:n]), multi(b[:n], h[n:])), pMul(Q, dot(a[n:], b[:n])))
		}
		nl, nr := fmt.Sprintf("L%d", k), fmt.Sprintf("R%d", k)
		items = append(items, titem{nl, Lk.Bytes()}, titem{nr, Rk.Bytes()})
		u := vr.hash(fmt.Sprintf("u%d", k), items)
		if vr.weak == "u1" {
			u = sInt(1)
		}
		ui := sInv(u)
		uu, uui := sMul(u, u), sMul(ui, ui)
		for i := 0; i < n; i++ {
			G[i] = pAdd(pMul(G[i], ui), pMul(G[i+n], u))
			h[i] = pAdd(pMul(h[i], u), pMul(h[i+n], ui))
			if !blind {
				a[i] = sAdd(sMul(a[i], u), sMul(a[i+n], ui))
				b[i] = sAdd(sMul(b[i], ui), sMul(b[i+n], u))
			}
		}
		G, h, a, b = G[:n], h[:n], a[:n], b[:n]
		if blind && (closing == nl || closing == nr) {
			for i := range a {
				a[i], b[i] = rscalar(r), rscalar(r)
			}
			want := pAdd(pAdd(multi(a, G), multi(b, h)), pMul(Q, dot(a, b)))
			if closing == nl {
				Lk = pMul(pSub(pSub(want, P), pMul(Rk, uui)), uu2(ui))
			} else {
				Rk = pMul(pSub(pSub(want, P), pMul(Lk, uu)), uu)
			}
			items[2*k-2].b, items[2*k-1].b = Lk.Bytes(), Rk.Bytes()
			blind = false
		}
		if blind {
			P = pAdd(P, pAdd(pMul(Lk, uu), pMul(Rk, uui)))
		}
		L, R = append(L, Lk), append(R, Rk)
	}
	return L, R, a[0], b[0]
}

func uu2(ui scalar) scalar { return sMul(ui, ui) }

// refChals are the challenges of an inner-product proof
func refChals(L, R []point) []scalar {
	var items []titem
	var us []scalar
	for k := range L {
		items = append(items, titem{"", L[k].Bytes()}, titem{"", R[k].Bytes()})
		us = append(us, (&rvar{}).hash("", items))
	}
	return us
}

// verify is the verifier, or one that shares the adversary's variant of the protocol
func (p *rproof) verify(vr *rvar) bool {
	m := len(p.V)
	k := 0
	for 1<<uint(k) < rbits*m {
		k++
	}
	if m < 1 || m > 16 || m&(m-1) != 0 || len(p.L) != k || len(p.R) != k || p.nilIP {
		return false
	}
	n := rbits * m
	G, H := rangeGens(m)
	B, Bl := refBasePoint(), refBlindPoint()
	var items []titem
	for j := range p.V {
		items = append(items, titem{fmt.Sprintf("V%d", j+1), p.V[j].Bytes()})
	}
	items = append(items, titem{"A", p.A.Bytes()}, titem{"S", p.S.Bytes()})
	y := vr.hash("yz", items)
	if vr.weak == "y1" {
		y = sInt(1)
	}
	var z scalar
	z.Derive(y.Bytes())
	switch vr.weak {
	case "z1":
		z = sInt(1)
	case "yz":
		z = y
	case "zy":
		y = z
	}
	items = append(items, titem{"z", z.Bytes()}, titem{"T1", p.T1.Bytes()}, titem{"T2", p.T2.Bytes()})
	x := vr.hash("x", items)
	if vr.weak == "x1" {
		x = sInt(1)
	}
	items = append(items, titem{"x", x.Bytes()}, titem{"taux", p.taux.Bytes()}, titem{"mu", p.mu.Bytes()}, titem{"t", p.t.Bytes()})
	w := vr.hash("w", items)
	if vr.weak == "w1" {
		w = sInt(1)
	}
	yp, zp, two := vr.ypow(y, m), vr.zpow(z, m), pow2s()
	l1 := pAdd(pMul(B, p.t), pMul(Bl, p.taux))
	r1 := pAdd(pAdd(multi(zp, p.V), pMul(B, vr.delta(yp, zp, z))), pAdd(pMul(p.T1, x), pMul(p.T2, sMul(x, x))))
	off := pZero()
	if strings.HasPrefix(vr.weak, "c") {
		// only the sum of the two equations has to hold
		off = pMul(pSub(l1, r1), sInv(vr.combiner(y, z)))
	} else if !l1.Equals(&r1) {
		return false
	}
	P := pAdd(pAdd(p.A, pMul(p.S, x)), pSub(pMul(B, sMul(w, p.t)), pMul(Bl, p.mu)))
	yinv := make([]scalar, n)
	gs, hs := make([]scalar, n), make([]scalar, n)
	for i := range gs {
		yinv[i] = sInv(yp[i])
		gs[i] = sNeg(z)
		hs[i] = sAdd(z, sMul(sMul(zp[i/rbits], two[i%rbits]), yinv[i]))
	}
	P = pSub(pAdd(P, pAdd(multi(gs, G), multi(hs, H))), off)
	return refIPAVerify(G, H, yinv, pMul(B, w), P, p.L, p.R, p.a, p.b, vr)
}

// refIPAVerify folds as the prover does
func refIPAVerify(G, H []point, hf []scalar, Q, P point, L, R []point, a, b scalar, vr *rvar) bool {
	n := len(G)
	if len(L) > 20 || len(L) != len(R) || 1<<uint(len(L)) != n || len(H) != n || len(hf) != n {
		return false
	}
	// the exponent of each generator is a product of challenges
	s := []scalar{sInt(1)}
	si := []scalar{sInt(1)}
	var items []titem
	for k := range L {
		items = append(items, titem{fmt.Sprintf("L%d", k+1), L[k].Bytes()}, titem{fmt.Sprintf("R%d", k+1), R[k].Bytes()})
		u := vr.hash(fmt.Sprintf("u%d", k+1), items)
		if vr.weak == "u1" {
			u = sInt(1)
		}
		ui := sInv(u)
		P = pAdd(P, pAdd(pMul(L[k], sMul(u, u)), pMul(R[k], sMul(ui, ui))))
		var s2, si2 []scalar
		for i := range s {
			s2 = append(s2, sMul(s[i], ui), sMul(s[i], u))
			si2 = append(si2, sMul(si[i], u), sMul(si[i], ui))
		}
		s, si = s2, si2
	}
	for i := range s {
		s[i] = sMul(s[i], a)
		si[i] = sMul(sMul(si[i], b), hf[i])
	}
	want := pAdd(pAdd(multi(s, G), multi(si, H)), pMul(Q, sMul(a, b)))
	return want.Equals(&P)
}
