package main

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"
	"sync"

	"github.com/dusk-network/dusk-crypto/rangeproof"
)

func init() { components["rangehide"] = replayRangeHide }

// tap passes the system's randomness on and remembers what was drawn
type tap struct {
	r     io.Reader
	drawn [][]byte
}

func (t *tap) Read(b []byte) (int, error) {
	n, err := t.r.Read(b)
	t.drawn = append(t.drawn, append([]byte{}, b[:n]...))
	return n, err
}

var tapMu sync.Mutex

// tapped runs f and gives the scalars that were drawn meanwhile
func tapped(f func()) []scalar {
	tapMu.Lock()
	defer tapMu.Unlock()
	t := &tap{r: crand.Reader}
	crand.Reader = t
	defer func() { crand.Reader = t.r }()
	f()
	var out []scalar
	for _, d := range t.drawn {
		for len(d) >= 64 {
			var a [64]byte
			copy(a[:], d)
			var s scalar
			s.SetReduced(&a)
			out = append(out, s)
			d = d[64:]
		}
		if len(d) == 32 {
			var a [64]byte
			copy(a[:], d)
			var s scalar
			s.SetReduced(&a)
			out = append(out, s)
		}
	}
	return out
}

type hideCase struct {
	Kind, Pat string
	N, Reps   int
}

// replayRangeHide looks for the savings of RangeHide.tla in proofs of the library
func replayRangeHide(c *Ctx, raw json.RawMessage) {
	var x hideCase
	jsonOrDie(raw, &x)
	vals := make([]scalar, x.N)
	for i := range vals {
		switch x.Pat {
		case "zero":
			vals[i] = sInt(0)
		case "max":
			vals[i] = sBig(rangeVal("m64", c.Rnd))
		case "one":
			vals[i] = sInt(1)
		case "rand":
			vals[i] = sBig(rangeVal("r", c.Rnd))
		default:
			panic("pattern " + x.Pat)
		}
	}
	h := &hider{c: c, seen: map[string]string{}, coins: map[scalar]bool{}, bits: map[string]*[256]int{}}
	for k := 0; k < x.Reps; k++ {
		c.Steps++
		h.step = k
		var g rangeproof.Proof
		var err error
		drawn := tapped(func() { g, err = c.proveVals(vals, 0, false, k) })
		if err != nil {
			c.Fail("base", k, "proving failed: %v", err)
		}
		p, err := openRange(&g)
		if err != nil {
			c.Fail("base", k, "the proof can not be taken apart: %v", err)
		}
		vs := append([]scalar{}, vals...)
		for len(vs) < len(p.V) {
			vs = append(vs, sInt(0))
		}
		if len(vs) != len(p.V) {
			c.Fail("base", k, "%d commitments for %d values", len(p.V), len(vals))
		}
		for i := range g.V {
			p.gam = append(p.gam, g.V[i].BlindingFactor)
		}
		h.once(p)
		if x.Kind == "hide" {
			h.savings(p, vs, drawn)
		} else {
			h.blinders(p, vs)
		}
		for _, s := range drawn {
			h.coins[s] = true
		}
	}
	if x.Kind == "stream" {
		h.uniform(x.Reps)
	}
}

type hider struct {
	c     *Ctx
	step  int
	seen  map[string]string // what was published, or a blinding point, by its bytes
	coins map[scalar]bool   // drawn by earlier proofs
	bits  map[string]*[256]int
}

func (h *hider) fail(format string, a ...interface{}) { h.c.Fail("hide", h.step, format, a...) }

func (h *hider) new(name string, b []byte) {
	// a commitment to zero is its own blinding, so the two are kept apart
	class := "p"
	if strings.HasPrefix(name, "the ") {
		class = "b"
	}
	b = append([]byte(class), b...)
	name = fmt.Sprintf("%s of proof %d", name, h.step+1)
	if old, dup := h.seen[string(b)]; dup {
		h.fail("%s and %s are the same", old, name)
	}
	h.seen[string(b)] = name
}

// once: nothing published occurs twice
func (h *hider) once(p *rproof) {
	for i := range p.V {
		h.new(fmt.Sprintf("commitment %d", i+1), p.V[i].Bytes())
	}
	h.new("A", p.A.Bytes())
	h.new("S", p.S.Bytes())
	h.new("T1", p.T1.Bytes())
	h.new("T2", p.T2.Bytes())
	for i := range p.L {
		h.new(fmt.Sprintf("L%d", i+1), p.L[i].Bytes())
		h.new(fmt.Sprintf("R%d", i+1), p.R[i].Bytes())
	}
	zero := pZero()
	for n, q := range map[string]point{"A": p.A, "S": p.S, "T1": p.T1, "T2": p.T2} {
		if q.Equals(&zero) {
			h.fail("%s is the identity", n)
		}
	}
	for n, s := range map[string]scalar{"taux": p.taux, "mu": p.mu, "t": p.t, "a": p.a, "b": p.b} {
		h.new(n, s.Bytes())
		h.count(n, s)
	}
	for i := range p.gam {
		h.count("a blinding factor", p.gam[i])
	}
}

func (h *hider) count(n string, s scalar) {
	b := h.bits[n]
	if b == nil {
		b = &[256]int{}
		h.bits[n] = b
	}
	for i, x := range s.Bytes() {
		for k := 0; k < 8; k++ {
			b[8*i+k] += int(x>>uint(k)) & 1
		}
	}
}

// uniform: over many proofs no bit of a published scalar stays, nor do they lean to one side
func (h *hider) uniform(n int) {
	for name, b := range h.bits {
		per, ones, top := n, 0, 248 // one blinding factor per proof: the streams are of one value
		for i := 0; i < top; i++ {
			if b[i] == 0 || b[i] == per {
				h.fail("bit %d of %s is the same in %d proofs", i, name, n)
			}
			ones += b[i]
		}
		mean, sd := float64(per*top)/2, math.Sqrt(float64(per*top))/2
		if math.Abs(float64(ones)-mean) > 8*sd {
			h.fail("the bits of %s are not uniform: %d of %d", name, ones, per*top)
		}
	}
}

type challenges struct{ y, z, x scalar }

func (p *rproof) challenges() (c challenges) {
	vr := &rvar{}
	var items []titem
	for j := range p.V {
		items = append(items, titem{"V", p.V[j].Bytes()})
	}
	items = append(items, titem{"A", p.A.Bytes()}, titem{"S", p.S.Bytes()})
	c.y = vr.hash("yz", items)
	c.z.Derive(c.y.Bytes())
	items = append(items, titem{"z", c.z.Bytes()}, titem{"T1", p.T1.Bytes()}, titem{"T2", p.T2.Bytes()})
	c.x = vr.hash("x", items)
	return
}

// blinders are the points by which the commitments of a proof are blinded: those of V, of A and of S
func (h *hider) blinders(p *rproof, vs []scalar) (gam []point, al, rh, rest point, ch challenges) {
	m := len(p.V)
	G, H := rangeGens(m)
	B, Bl := refBasePoint(), refBlindPoint()
	ch = p.challenges()
	for j := range p.V {
		gam = append(gam, pSub(p.V[j], pMul(B, vs[j])))
	}
	w := honestWit(vs)
	al = pSub(p.A, pAdd(multi(w.aL, G), multi(w.aR, H)))
	rh = pMul(pSub(pMul(Bl, p.mu), al), sInv(ch.x))
	rest = pSub(p.S, rh)
	zero := pZero()
	for j := range gam {
		n := fmt.Sprintf("the blinding of commitment %d", j+1)
		if gam[j].Equals(&zero) {
			h.fail("commitment %d is not blinded", j+1)
		}
		h.new(n, gam[j].Bytes())
	}
	if al.Equals(&zero) || rh.Equals(&zero) {
		h.fail("A or S is not blinded")
	}
	h.new("the blinding of A", al.Bytes())
	h.new("the blinding of S", rh.Bytes())
	if rest.Equals(&zero) {
		h.fail("the vectors of S are zero")
	}
	h.new("the vectors of S", rest.Bytes())
	return
}

func (h *hider) savings(p *rproof, vs []scalar, drawn []scalar) {
	m := len(p.V)
	n := rbits * m
	gam, al, rh, rest, ch := h.blinders(p, vs)
	Bl := refBlindPoint()
	zero := sInt(0)
	have := map[scalar]int{}
	byPoint := map[string]scalar{}
	short := map[string]int{}
	for _, d := range drawn {
		have[d]++
		byPoint[string(pb(pMul(Bl, d)))] = d
		if m <= 2 {
			for _, w := range []int{32, 64, 128} {
				lo := new(big.Int).Mod(d.BigInt(), new(big.Int).Lsh(big.NewInt(1), uint(w)))
				short[string(pb(pMul(Bl, sBig(lo))))] = w
			}
		}
	}
	known := map[string]scalar{}
	find := func(name string, q point) {
		b := string(q.Bytes())
		if w, ok := short[b]; ok {
			h.fail("%s has %d bits only", name, w)
		}
		if s, ok := byPoint[b]; ok {
			known[name] = s
			if h.coins[s] {
				h.fail("%s was drawn for an earlier proof", name)
			}
			h.c.count("coin")
		}
	}
	for j := range gam {
		find(fmt.Sprintf("the blinding of commitment %d", j+1), gam[j])
	}
	find("the blinding of A", al)
	find("the blinding of S", rh)
	// the blinding of T1 and T2
	zp := (&rvar{}).zpow(ch.z, m)
	left := p.taux
	for j := range zp {
		left = sSub(left, sMul(zp[j], p.gam[j]))
	}
	x, xx := ch.x, sMul(ch.x, ch.x)
	ix, ixx := sInv(x), sInv(xx)
	could := func(s scalar) bool { return have[s] > 0 || h.coins[s] || s == zero }
	if could(sMul(left, sInv(sAdd(x, xx)))) {
		h.fail("T1 and T2 are blinded alike")
	}
	names := map[string]scalar{"nothing": zero}
	for k, s := range known {
		names[k] = s
	}
	for k, s := range names {
		if could(sMul(sSub(left, sMul(x, s)), ixx)) {
			h.fail("T1 is blinded with %s", k)
		}
		if could(sMul(sSub(left, sMul(xx, s)), ix)) {
			h.fail("T2 is blinded with %s", k)
		}
	}
	for s := range h.coins {
		if have[sMul(sSub(left, sMul(x, s)), ixx)] > 0 || have[sMul(sSub(left, sMul(xx, s)), ix)] > 0 {
			h.fail("T1 or T2 is blinded with what was drawn for an earlier proof")
		}
	}
	for _, s := range drawn {
		o := sMul(sSub(left, sMul(x, s)), ixx)
		if have[o] > 0 {
			known["T1"], known["T2"] = s, o
			h.c.count("tau")
			break
		}
	}
	// the vectors of S: from the draws that are left, in the order they came
	used := map[scalar]bool{}
	for _, s := range known {
		used[s] = true
	}
	var u []scalar
	for _, d := range drawn {
		if !used[d] {
			u = append(u, d)
		}
	}
	pick := func(from, step, max int) (out []scalar) {
		for i := from; i < len(u) && len(out) < max; i += step {
			out = append(out, u[i])
		}
		return
	}
	type vec struct {
		name   string
		v      []scalar
		src    string
		proper bool
	}
	var cand []vec
	for _, s := range []vec{{name: "the draws", v: pick(0, 1, n)}, {name: "the even draws", v: pick(0, 2, n)}, {name: "the odd draws", v: pick(1, 2, n)},
		{name: "the second half of the draws", v: pick(len(u)/2, 1, n)}, {name: "the draws after the first 64", v: pick(rbits, 1, n)}} {
		if len(s.v) == 0 {
			continue
		}
		full := len(s.v) == n
		if full {
			cand = append(cand, vec{s.name, s.v, s.name, true})
			neg := make([]scalar, n)
			for i := range neg {
				neg[i] = sNeg(s.v[i])
			}
			cand = append(cand, vec{"the negatives of " + s.name, neg, s.name, true})
		}
		con := make([]scalar, n)
		for i := range con {
			con[i] = s.v[0]
		}
		cand = append(cand, vec{"the first of " + s.name + " everywhere", con, s.name, false})
		pers := []int{8, 16, 32}
		for j := 1; j < m; j++ {
			pers = append(pers, j*rbits)
		}
		for _, per := range pers {
			if per >= n || len(s.v) < per {
				continue
			}
			rep, tail := make([]scalar, n), make([]scalar, n)
			for i := range rep {
				rep[i], tail[i] = s.v[i%per], zero
				if i < per {
					tail[i] = s.v[i]
				}
			}
			cand = append(cand, vec{fmt.Sprintf("the first %d of %s again and again", per, s.name), rep, s.name, false},
				vec{fmt.Sprintf("the first %d of %s and zeros", per, s.name), tail, s.name, false})
		}
		if len(s.v) >= n/2 {
			even, odd, twice, back := make([]scalar, n), make([]scalar, n), make([]scalar, n), make([]scalar, n)
			for i := range even {
				even[i], odd[i], twice[i], back[i] = zero, zero, s.v[i/2], zero
				if i%2 == 0 {
					even[i] = s.v[i/2]
				} else {
					odd[i] = s.v[i/2]
				}
				if i >= n/2 {
					back[i] = s.v[i-n/2]
				}
			}
			cand = append(cand, vec{s.name + " at even places", even, s.name, false}, vec{s.name + " at odd places", odd, s.name, false},
				vec{"each of " + s.name + " twice", twice, s.name, false}, vec{s.name + " in the second half", back, s.name, false})
		}
		if len(s.v) >= m && m > 1 { // one draw per value
			one := make([]scalar, n)
			for i := range one {
				one[i] = s.v[i/rbits]
			}
			cand = append(cand, vec{"one of " + s.name + " per value", one, s.name, false})
		}
	}
	cand = append(cand, vec{"zeros", make([]scalar, n), "", false})
	for i := range cand[len(cand)-1].v {
		cand[len(cand)-1].v[i] = zero
	}
	G, H := rangeGens(m)
	right := map[string]vec{}
	for _, v := range cand {
		q := multi(v.v, H)
		right[string(q.Bytes())] = v
	}
	for _, v := range cand {
		q := pSub(rest, multi(v.v, G))
		w, ok := right[string(q.Bytes())]
		if !ok {
			continue
		}
		h.c.count("masks")
		if !v.proper || !w.proper || v.src == w.src {
			h.fail("the vectors of S are %s and %s", v.name, w.name)
		}
	}
}

func pb(q point) []byte { return q.Bytes() }
