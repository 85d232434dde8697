package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"sync"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

type (
	point  = ristretto.Point
	scalar = ristretto.Scalar
)

func init() {
	components["ringedit"] = replayRingEdit
	components["ringforge"] = replayRingForge
	components["ringcase"] = replayRingCase
	components["ringlink"] = replayRingLink
	components["mlsagbuild"] = replayMlsagBuild
}

// groupL is the order of the ristretto group
var groupL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// ---------------------------------------------------------------- reference

func rscalar(r *rand.Rand) scalar {
	b := make([]byte, 64)
	r.Read(b)
	var a [64]byte
	copy(a[:], b)
	var s scalar
	s.SetReduced(&a)
	return s
}

func sInt(n int64) scalar {
	x := new(big.Int).Mod(big.NewInt(n), groupL)
	var s scalar
	s.SetBigInt(x)
	return s
}

func sAdd(a, b scalar) scalar { var s scalar; s.Add(&a, &b); return s }
func sSub(a, b scalar) scalar { var s scalar; s.Sub(&a, &b); return s }
func sMul(a, b scalar) scalar { var s scalar; s.Mul(&a, &b); return s }
func sNeg(a scalar) scalar    { var z, s scalar; z.SetZero(); s.Sub(&z, &a); return s }
func sInv(a scalar) scalar    { var s scalar; s.Inverse(&a); return s }
func pBase(a scalar) point    { var p point; p.ScalarMultBase(&a); return p }
func pMul(q point, a scalar) point {
	var p point
	p.ScalarMult(&q, &a)
	return p
}
func pAdd(a, b point) point { var p point; p.Add(&a, &b); return p }
func pSub(a, b point) point { var p point; p.Sub(&a, &b); return p }
func pNeg(a point) point    { var p point; p.Neg(&a); return p }
func pHash(k point) point   { var p point; p.Derive(k.Bytes()); return p }
func pZero() point          { var p point; p.SetZero(); return p }
func pRand(r *rand.Rand) point {
	b := make([]byte, 32)
	r.Read(b)
	var p point
	p.Derive(b)
	return p
}
func image(x scalar) point { return pMul(pHash(pBase(x)), x) }

// rsig is a ring signature of either scheme, with every part in the open
type rsig struct {
	msg  []byte
	c    scalar
	keys [][]point
	rs   [][]scalar
	im   []point
}

// link is the verifier's step from one challenge to the next
func link(msg []byte, keys []point, rs []scalar, im []point, c scalar) scalar {
	buf := append([]byte{}, msg...)
	for k := range keys {
		p := pAdd(pBase(rs[k]), pMul(keys[k], c))
		buf = append(buf, p.Bytes()...)
	}
	for k := range im {
		p := pAdd(pMul(pHash(keys[k]), rs[k]), pMul(im[k], c))
		buf = append(buf, p.Bytes()...)
	}
	var s scalar
	s.Derive(buf)
	return s
}

// chain gives the challenge of every member and the closing one
func (s *rsig) chain() []scalar {
	cs := []scalar{s.c}
	for i := range s.keys {
		cs = append(cs, link(s.msg, s.keys[i], s.rs[i], s.im, cs[i]))
	}
	return cs
}

// refSign is an independent signer for the ring as given, at position j
func refSign(msg []byte, keys [][]point, j int, xs []scalar, ni int, r *rand.Rand) *rsig {
	n := len(keys)
	s := &rsig{msg: msg, keys: keys, rs: make([][]scalar, n)}
	for k := 0; k < ni; k++ {
		s.im = append(s.im, pMul(pHash(keys[j][k]), xs[k]))
	}
	al := make([]scalar, len(xs))
	for k := range al {
		al[k] = rscalar(r)
	}
	cs := make([]scalar, n)
	cs[(j+1)%n] = link(msg, keys[j], al, s.im, sInt(0))
	for d := 1; d < n; d++ {
		i := (j + d) % n
		for range keys[i] {
			s.rs[i] = append(s.rs[i], rscalar(r))
		}
		cs[(i+1)%n] = link(msg, keys[i], s.rs[i], s.im, cs[i])
	}
	for k := range xs {
		s.rs[j] = append(s.rs[j], sSub(al[k], sMul(cs[j], xs[k])))
	}
	s.c = cs[0]
	return s
}

// ------------------------------------------------------------ the real types

func pubKeysOf(ps []point) mlsag.PubKeys {
	var k mlsag.PubKeys
	for i := range ps {
		k.AddPubKey(ps[i])
	}
	return k
}

func mlsagBytes(s *rsig, withKeys bool) []byte {
	var b bytes.Buffer
	b.Write(s.c.Bytes())
	binary.Write(&b, binary.BigEndian, uint32(len(s.rs)))
	if len(s.rs) == 0 {
		return b.Bytes()
	}
	binary.Write(&b, binary.BigEndian, uint32(len(s.rs[0])))
	for _, r := range s.rs {
		for k := range r {
			b.Write(r[k].Bytes())
		}
	}
	if withKeys {
		for _, ps := range s.keys {
			for k := range ps {
				b.Write(ps[k].Bytes())
			}
		}
	}
	return b.Bytes()
}

func (s *rsig) mlsag() (*mlsag.Signature, error) {
	g := &mlsag.Signature{}
	if err := g.Decode(bytes.NewReader(mlsagBytes(s, false)), false); err != nil {
		return nil, err
	}
	g.Msg = s.msg
	for _, ps := range s.keys {
		g.PubKeys = append(g.PubKeys, pubKeysOf(ps))
	}
	return g, nil
}

func (s *rsig) blsag() blsag.RingSignature {
	g := blsag.RingSignature{C: s.c}
	for i := range s.rs {
		g.S = append(g.S, s.rs[i][0])
	}
	for i := range s.keys {
		g.PubKeys = append(g.PubKeys, s.keys[i][0])
	}
	if len(s.im) > 0 {
		g.I = s.im[0]
	}
	return g
}

// fromMlsag opens a signature of the library
func fromMlsag(g *mlsag.Signature, im []point) (*rsig, error) {
	var b bytes.Buffer
	if err := g.Encode(&b, false); err != nil {
		return nil, err
	}
	d := b.Bytes()
	s := &rsig{msg: append([]byte{}, g.Msg...), im: im}
	if len(d) < 36 {
		return nil, fmt.Errorf("encoding of %d bytes", len(d))
	}
	rd := func(i int) scalar {
		var a [32]byte
		copy(a[:], d[i:])
		var x scalar
		x.SetBytes(&a)
		return x
	}
	s.c = rd(0)
	n := int(binary.BigEndian.Uint32(d[32:]))
	w := 0
	if n > 0 {
		if len(d) < 40 {
			return nil, fmt.Errorf("encoding of %d bytes", len(d))
		}
		w = int(binary.BigEndian.Uint32(d[36:]))
	}
	if n > 0 && len(d) != 40+32*n*w {
		return nil, fmt.Errorf("encoding of %d bytes for %d x %d responses", len(d), n, w)
	}
	for i := 0; i < n; i++ {
		var r []scalar
		for k := 0; k < w; k++ {
			r = append(r, rd(40+32*(i*w+k)))
		}
		s.rs = append(s.rs, r)
	}
	for i := range g.PubKeys {
		ps, err := pointsOf(g.PubKeys[i])
		if err != nil {
			return nil, err
		}
		s.keys = append(s.keys, ps)
	}
	return s, nil
}

func pointsOf(k mlsag.PubKeys) ([]point, error) {
	var b bytes.Buffer
	if err := k.Encode(&b); err != nil {
		return nil, err
	}
	var ps []point
	for d := b.Bytes(); len(d) >= 32; d = d[32:] {
		var a [32]byte
		copy(a[:], d)
		var p point
		if !p.SetBytes(&a) {
			return nil, fmt.Errorf("a key that is not a point")
		}
		ps = append(ps, p)
	}
	if k.Len() != len(ps) {
		return nil, fmt.Errorf("%d keys encoded for a member with %d", len(ps), k.Len())
	}
	if len(ps) > 0 {
		if o := k.OutputKey(); !o.Equals(&ps[0]) {
			return nil, fmt.Errorf("the output key of a member is not its first key")
		}
	}
	return ps, nil
}

func fromBlsag(g blsag.RingSignature, msg []byte) *rsig {
	s := &rsig{msg: msg, c: g.C, im: []point{g.I}}
	for i := range g.S {
		s.rs = append(s.rs, []scalar{g.S[i]})
	}
	for i := range g.PubKeys {
		s.keys = append(s.keys, []point{g.PubKeys[i]})
	}
	return s
}

// accepted asks the library
func (c *Ctx) accepted(scheme string, s *rsig, step int) bool {
	var ok bool
	if scheme == "mlsag" {
		g, err := s.mlsag()
		if err != nil {
			c.Fail("decode", step, "a well-formed encoding of %d x %d responses was refused: %v", len(s.rs), len(s.keys), err)
		}
		if p := try(func() { ok, _ = g.Verify(s.im) }); p != nil {
			c.Fail("panic", step, "mlsag: Verify panicked: %v", p)
		}
		return ok
	}
	g := s.blsag()
	if p := try(func() { ok = blsag.Verify(s.msg, g) }); p != nil {
		c.Fail("panic", step, "blsag: Verify panicked: %v", p)
	}
	return ok
}

// ------------------------------------------------------------------- edits

type symSig struct {
	M string
	C struct {
		W string
		J int
	}
	Ks [][]string
	Rs [][]string
	Im []string
}
type ringEdit struct {
	Scheme string
	N      int
	Kp     int
	Ni     int
	Rel    string
	Es     []json.RawMessage
	S      symSig
	Ok     bool
}

type ringFix struct {
	once sync.Once
	a, b *rsig
	ca   []scalar
	cb   []scalar
	bad  string
}

var ringFixes = map[string]*ringFix{}
var ringFixMu sync.Mutex

func secretsFor(n int, r *rand.Rand) []scalar {
	var xs []scalar
	for i := 0; i < n; i++ {
		xs = append(xs, rscalar(r))
	}
	return xs
}

// honest makes a signature with the library's own signer where that can make it
func honest(scheme string, n, kp, ni int, msg []byte, xs []scalar, lib bool, r *rand.Rand) (*rsig, string) {
	var decoys [][]point
	for i := 1; i < n; i++ {
		var ps []point
		for k := 0; k < kp; k++ {
			ps = append(ps, pBase(rscalar(r)))
		}
		decoys = append(decoys, ps)
	}
	var own []point
	for k := range xs {
		own = append(own, pBase(xs[k]))
	}
	switch {
	case lib && scheme == "blsag", lib && kp == 2 && ni == 1:
		return signOver(scheme, msg, decoys, xs)
	}
	j := r.Intn(n)
	ring := append([][]point{}, decoys[:j]...)
	ring = append(append(ring, own), decoys[j:]...)
	return refSign(msg, ring, j, xs, ni, r), ""
}

// signOver signs with the library
func signOver(scheme string, msg []byte, decoys [][]point, xs []scalar) (*rsig, string) {
	if scheme == "blsag" {
		var mix []point
		for i := range decoys {
			mix = append(mix, decoys[i][0])
		}
		return fromBlsag(blsag.Sign(msg, mix, xs[0]), msg), ""
	}
	d := mlsag.NewDualKey()
	for i := range decoys {
		d.AddDecoy(pubKeysOf(decoys[i]))
	}
	return proveWith(d, msg, xs)
}

func proveWith(d *mlsag.DualKey, msg []byte, xs []scalar) (*rsig, string) {
	d.SetPrimaryKey(xs[0])
	d.SetCommToZero(xs[1])
	d.SetMsg(msg)
	g, im, err := d.Prove()
	if err != nil {
		return nil, err.Error()
	}
	s, err := fromMlsag(g, []point{im})
	if err != nil {
		return nil, err.Error()
	}
	return s, ""
}

func getRingFix(seed int64, scheme string, n, kp, ni int, rel string, v int) *ringFix {
	key := fmt.Sprint(seed, scheme, n, kp, ni, rel, v)
	ringFixMu.Lock()
	f := ringFixes[key]
	if f == nil {
		f = &ringFix{}
		ringFixes[key] = f
	}
	ringFixMu.Unlock()
	f.once.Do(func() {
		h := int64(0)
		for _, c := range key {
			h = h*131 + int64(c)
		}
		r := rand.New(rand.NewSource(h))
		ms := messages(r.Intn(nFam), 3, r)
		xs := secretsFor(kp, r)
		f.a, f.bad = honest(scheme, n, kp, ni, ms[1], xs, v%4 != 3, r)
		if f.bad != "" {
			return
		}
		switch rel {
		case "samering":
			// the same signer, over the ring in the same order
			j := -1
			own := pBase(xs[0])
			for i := range f.a.keys {
				if f.a.keys[i][0].Equals(&own) {
					j = i
				}
			}
			if j < 0 || len(f.a.keys) != n {
				f.bad = "the signer is not in its ring"
				return
			}
			f.b = refSign(ms[2], f.a.keys, j, xs, ni, r)
		case "samemsg":
			f.b, f.bad = honest(scheme, n, kp, ni, ms[1], secretsFor(kp, r), false, r)
		default:
			f.b, f.bad = honest(scheme, n, kp, ni, ms[2], secretsFor(kp, r), false, r)
		}
		f.ca, f.cb = f.a.chain(), f.b.chain()
	})
	return f
}

type editEval struct {
	f *ringFix
	c *Ctx
	m map[string]interface{}
}

func (e *editEval) fresh(name string) *rand.Rand {
	h := e.c.Seed
	for _, x := range name {
		h = h*1000003 + int64(x)
	}
	return rand.New(rand.NewSource(h + int64(e.c.Idx)))
}

func (e *editEval) side(name string) *rsig {
	if name[0] == 'A' {
		return e.f.a
	}
	return e.f.b
}

func idx2(s string) (int, int) {
	p := strings.Split(s, "_")
	i, _ := strconv.Atoi(p[0])
	k, _ := strconv.Atoi(p[1])
	return i - 1, k - 1
}

func (e *editEval) point(name string) point {
	switch {
	case name == "id":
		return pZero()
	case name == "un":
		return point{}
	case name[0] == 'x':
		return pRand(e.fresh(name))
	case name[0] == '-':
		return pNeg(e.point(name[1:]))
	case name[0] == '2':
		p := e.point(name[1:])
		return pAdd(p, p)
	case name[1] == 'k':
		i, k := idx2(name[2:])
		return e.side(name).keys[i][k]
	case name[1] == 'i':
		k, _ := strconv.Atoi(name[2:])
		return e.side(name).im[k-1]
	}
	panic("point " + name)
}

func (e *editEval) scalar(name string) scalar {
	switch {
	case name == "0":
		return sInt(0)
	case name[0] == 'x':
		return rscalar(e.fresh(name))
	case name[0] == '-':
		return sNeg(e.scalar(name[1:]))
	case name[0] == '+':
		return sAdd(e.scalar(name[1:]), sInt(1))
	case name[1] == 'r':
		i, k := idx2(name[2:])
		return e.side(name).rs[i][k]
	}
	panic("scalar " + name)
}

// msg evaluates edits of a message; none of them leads back to a message that was signed
func (e *editEval) msg(t string) []byte {
	m := e.msgTerm(t)
	for t != "Am" && t != "Bm" && (bytes.Equal(m, e.f.a.msg) || bytes.Equal(m, e.f.b.msg)) {
		m = append(append([]byte{}, m...), 1)
	}
	return m
}

func (e *editEval) msgTerm(t string) []byte {
	if t == "Am" {
		return e.f.a.msg
	}
	if t == "Bm" {
		return e.f.b.msg
	}
	p := strings.SplitN(t, "|", 3)
	m := append([]byte{}, e.msg(p[2])...)
	r := e.fresh(t)
	switch p[0] {
	case "flip":
		if len(m) == 0 {
			return []byte{1}
		}
		i := [...]int{0, len(m) - 1, r.Intn(len(m))}[r.Intn(3)]
		m[i] ^= 1 << uint(r.Intn(8))
		return m
	case "trunc":
		if len(m) == 0 {
			return []byte{0}
		}
		if r.Intn(2) == 0 {
			return m[1:]
		}
		return m[:len(m)-1]
	case "ext":
		if r.Intn(2) == 0 {
			return append(m, byte(r.Intn(256)))
		}
		return append([]byte{byte(r.Intn(256))}, m...)
	case "nl":
		return append(m, []string{"\n", " ", "\r\n", "\t"}[r.Intn(4)]...)
	case "nul":
		return append(m, make([]byte, []int{1, 4, 32, 64}[r.Intn(4)])...)
	case "lead":
		return append([]byte([]string{"\x00", " ", "\n", "0x"}[r.Intn(4)]), m...)
	case "case":
		for i := range m {
			if 'a' <= m[i]|32 && m[i]|32 <= 'z' {
				m[i] ^= 32
				return m
			}
		}
		return append(m, 32)
	case "rev":
		for i, k := 0, len(m)-1; i < k; i, k = i+1, k-1 {
			m[i], m[k] = m[k], m[i]
		}
		return m
	case "twice":
		return append(m, m...)
	case "empty":
		if len(m) == 0 {
			return make([]byte, 32)
		}
		return nil
	case "zero":
		z := make([]byte, len(m))
		if bytes.Equal(z, m) {
			z = append(z, 0)
		}
		return z
	}
	panic("msg " + t)
}

func replayRingEdit(c *Ctx, raw json.RawMessage) {
	var x ringEdit
	jsonOrDie(raw, &x)
	var f *ringFix
	if p := try(func() { f = getRingFix(c.Seed, x.Scheme, x.N, x.Kp, x.Ni, x.Rel, c.Idx%23) }); p != nil {
		c.Fail("panic", 0, "signing honestly panicked: %v", p)
	}
	if f.bad != "" || f.a == nil || f.b == nil {
		c.Fail("complete", 0, "an honest signer failed: %s", f.bad)
	}
	// a signature over fewer members than its ring can not be edited as the specification says
	if len(f.a.keys) != x.N || len(f.a.rs) != x.N || len(f.a.keys[0]) != x.Kp || len(f.a.rs[0]) != x.Kp {
		c.Fail("complete", 0, "an honest signature over %d members has %d keys and %d responses", x.N, len(f.a.keys), len(f.a.rs))
	}
	c.Steps++
	e := &editEval{f: f, c: c}
	s := &rsig{msg: e.msg(x.S.M)}
	cw := x.S.C.W
	switch {
	case cw == "A":
		s.c = f.ca[x.S.C.J-1]
	case cw == "B":
		s.c = f.cb[x.S.C.J-1]
	case strings.HasPrefix(cw, "zero"):
		s.c = sInt(0)
	case strings.HasPrefix(cw, "inc"):
		s.c = sAdd(f.a.c, sInt(1))
	case strings.HasPrefix(cw, "neg"):
		s.c = sNeg(f.a.c)
	default:
		s.c = rscalar(e.fresh(cw))
	}
	for _, ks := range x.S.Ks {
		ps := []point{}
		for _, k := range ks {
			ps = append(ps, e.point(k))
		}
		s.keys = append(s.keys, ps)
	}
	for _, rs := range x.S.Rs {
		var ss []scalar
		for _, k := range rs {
			ss = append(ss, e.scalar(k))
		}
		s.rs = append(s.rs, ss)
	}
	for _, i := range x.S.Im {
		s.im = append(s.im, e.point(i))
	}
	ok := c.accepted(x.Scheme, s, len(x.Es))
	if ok && !x.Ok {
		tag := "accept"
		if onlyImages(x.Es) {
			tag = "acceptimage"
		}
		c.Fail(tag, len(x.Es), "%s: a ring signature of %d members was accepted after %s", x.Scheme, x.N, bytes.Join(rawList(x.Es), []byte(", ")))
	}
	if x.Ok {
		c.count("still_valid")
		if ok {
			c.count("still_valid_accepted")
		}
	} else {
		c.count("altered")
	}
}

func rawList(es []json.RawMessage) [][]byte {
	var l [][]byte
	for _, e := range es {
		l = append(l, e)
	}
	return l
}

func onlyImages(es []json.RawMessage) bool {
	for _, e := range es {
		var x struct{ E string }
		jsonOrDie(e, &x)
		if !strings.Contains(x.E, "img") {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------- forge

type leg struct{ Key, Img, Solve string }
type ringProg struct {
	Scheme string
	N, J   int
	Legs   []leg
	Ok     bool
	Tag    string
	Skip   string
}

// skips tells whether the adversary leaves the equation e ("L" or "R") of key k out of the hash of member i
func (p *ringProg) skips(e string, k, i int) bool {
	switch p.Skip {
	case e, "all":
		return true
	case e + "2":
		return k == 1
	case e + "@1":
		return i == 0
	case e + "@n":
		return i == p.N-1
	}
	return false
}

// hash is the adversary's version of the verifier's step
func (p *ringProg) hash(msg []byte, i int, L, R []point, prev scalar) scalar {
	if p.Skip == "all" {
		return prev
	}
	buf := append([]byte{}, msg...)
	for k := range L {
		if !p.skips("L", k, i) {
			buf = append(buf, L[k].Bytes()...)
		}
	}
	for k := range R {
		if !p.skips("R", k, i) {
			buf = append(buf, R[k].Bytes()...)
		}
	}
	var s scalar
	s.Derive(buf)
	return s
}

func replayRingForge(c *Ctx, raw json.RawMessage) {
	var p ringProg
	jsonOrDie(raw, &p)
	r := c.Rnd
	c.Steps++
	n, j, kp := p.N, p.J-1, len(p.Legs)
	ni := 0
	for _, l := range p.Legs {
		if l.Img != "none" {
			ni++
		}
	}
	s := &rsig{msg: messages(c.Idx, 2, r)[1], rs: make([][]scalar, n), keys: make([][]point, n)}
	for i := range s.keys {
		for k := 0; k < kp; k++ {
			s.keys[i] = append(s.keys[i], pBase(rscalar(r)))
		}
	}
	xs, ys, al := make([]scalar, kp), make([]scalar, kp), make([]scalar, kp)
	for k, l := range p.Legs {
		xs[k], ys[k], al[k] = rscalar(r), rscalar(r), rscalar(r)
		if l.Img == "id" {
			ys[k] = sInt(0)
		}
		switch l.Key {
		case "un":
			s.keys[j][k] = point{}
		case "late": // set below
		default:
			s.keys[j][k] = pBase(xs[k])
		}
	}
	for k, l := range p.Legs {
		K := s.keys[j][k]
		switch l.Img {
		case "true":
			s.im = append(s.im, pMul(pHash(K), xs[k]))
		case "y":
			s.im = append(s.im, pMul(pHash(K), ys[k]))
		case "id":
			s.im = append(s.im, pZero())
		case "fresh":
			s.im = append(s.im, pRand(r))
		case "key":
			s.im = append(s.im, K)
		case "un":
			s.im = append(s.im, point{})
		case "late":
			s.im = append(s.im, pRand(r)) // set below
		}
	}
	// what is committed at the closing member
	Ls, Rs := make([]point, kp), make([]point, kp)
	for k, l := range p.Legs {
		Ls[k] = pBase(al[k])
		if l.Key == "un" {
			Ls[k] = pAdd(pBase(al[k]), point{})
		}
		switch l.Img {
		case "none":
		case "un":
			Rs[k] = pAdd(pBase(al[k]), point{})
		case "late":
			Rs[k] = pRand(r)
		default:
			Rs[k] = pMul(pHash(s.keys[j][k]), al[k])
		}
	}
	cs := make([]scalar, n)
	cs[(j+1)%n] = p.hash(s.msg, j, Ls, Rs[:ni], rscalar(r))
	for d := 1; d < n; d++ {
		i := (j + d) % n
		s.rs[i] = secretsFor(kp, r)
		L, R := make([]point, kp), make([]point, ni)
		for k := range L {
			L[k] = pAdd(pBase(s.rs[i][k]), pMul(s.keys[i][k], cs[i]))
			if k < ni {
				R[k] = pAdd(pMul(pHash(s.keys[i][k]), s.rs[i][k]), pMul(s.im[k], cs[i]))
			}
		}
		cs[(i+1)%n] = p.hash(s.msg, i, L, R, cs[i])
	}
	ch := cs[j]
	for k, l := range p.Legs {
		x := xs[k]
		if l.Solve == "R" && (l.Img == "y" || l.Img == "id") {
			x = ys[k]
		}
		rk := sSub(al[k], sMul(ch, x))
		if l.Key == "unknown" && l.Solve == "L" { // no secret to solve with
			rk = rscalar(r)
		}
		s.rs[j] = append(s.rs[j], rk)
		if l.Key == "late" {
			s.keys[j][k] = pMul(pSub(Ls[k], pBase(rk)), sInv(ch))
		}
		if l.Img == "late" {
			s.im[k] = pMul(pSub(Rs[k], pMul(pHash(s.keys[j][k]), rk)), sInv(ch))
		}
	}
	s.c = cs[0]
	ok := c.accepted(p.Scheme, s, 0)
	switch {
	case p.Tag == "control" && !ok:
		c.Fail("complete", 0, "%s: an honest signature of an independent signer over %d members was refused", p.Scheme, n)
	case p.Tag != "control" && ok:
		c.Fail(p.Tag, 0, "%s: accepted, in a ring of %d closed at member %d, with %+v, leaving %s out of the hash", p.Scheme, n, p.J, p.Legs, p.Skip)
	}
	c.count(p.Tag)
}

// ------------------------------------------------------------- honest cases

type ringCase struct {
	Scheme  string
	Decoys  []string
	Secrets []string
	Msg     int
	Ok      bool
}

func secretOf(kind string, r *rand.Rand) scalar {
	switch kind {
	case "zero":
		return sInt(0)
	case "one":
		return sInt(1)
	case "minus1":
		return sInt(-1)
	case "small":
		return sInt(int64(2 + r.Intn(1000)))
	case "top": // 2^252
		var s scalar
		s.SetBigInt(new(big.Int).Lsh(big.NewInt(1), 252))
		return s
	}
	return rscalar(r)
}

func keyBytes(ps []point) string {
	var b []byte
	for i := range ps {
		b = append(b, ps[i].Bytes()...)
	}
	return string(b)
}

// sameMembers compares rings up to their order
func sameMembers(got, want [][]point) string {
	m := map[string]int{}
	for _, w := range want {
		m[keyBytes(w)]++
	}
	for _, g := range got {
		m[keyBytes(g)]--
	}
	for k, v := range m {
		if v > 0 {
			return fmt.Sprintf("%d of the members (%s) is missing from the ring of %d", v, hexs([]byte(k)), len(got))
		}
		if v < 0 {
			return fmt.Sprintf("a member (%s) of the ring is none of those asked for (or %d times too often)", hexs([]byte(k)), -v)
		}
	}
	return ""
}

func replayRingCase(c *Ctx, raw json.RawMessage) {
	var x ringCase
	jsonOrDie(raw, &x)
	r := c.Rnd
	reps := 1
	if len(x.Decoys) <= 3 {
		reps = 3 // the position of the signer is drawn each time
	}
	msg := messages(x.Msg, 3, r)[2]
	x1, x2 := secretOf(x.Secrets[0], r), secretOf(x.Secrets[1], r)
	own := []point{pBase(x1), pBase(x2)}
	if x.Scheme == "blsag" {
		own = own[:1]
	}
	var decoys [][]point
	for i, d := range x.Decoys {
		ps := []point{pBase(rscalar(r)), pBase(rscalar(r))}
		if x.Scheme == "blsag" {
			ps = ps[:1]
		}
		for k := range ps {
			switch d {
			case "dup":
				if i > 0 && k < len(decoys[i-1]) {
					ps[k] = decoys[i-1][k]
				}
			case "signer":
				ps[k] = own[k]
			case "ident":
				ps[k] = pZero()
			case "negsig":
				ps[k] = pNeg(own[k])
			case "base":
				ps[k] = pBase(sInt(1))
			case "swapped":
				ps[k] = own[len(own)-1-k]
			case "half":
				if k == 0 {
					ps[k] = own[k]
				}
			}
		}
		switch d {
		case "one":
			ps = ps[:1]
		case "three":
			ps = append(ps, pBase(rscalar(r)))
		case "none":
			ps = nil
		}
		decoys = append(decoys, ps)
	}
	ring := append(append([][]point{}, decoys...), own)
	for rep := 0; rep < reps; rep++ {
		c.Steps++
		if x.Scheme == "blsag" {
			c.blsagCase(x, msg, decoys, ring, x1)
			continue
		}
		d := mlsag.NewDualKey()
		var ks []mlsag.PubKeys
		for i := range decoys {
			ks = append(ks, pubKeysOf(decoys[i]))
		}
		if rep%2 == 0 {
			d.AddDecoys(ks)
		} else {
			for i := range ks {
				d.AddDecoy(ks[i])
			}
		}
		k1 := d.SetPrimaryKey(x1)
		k2 := d.SetCommToZero(x2)
		if !k1.Equals(&own[0]) || !k2.Equals(&own[1]) {
			c.Fail("retkey", rep, "setting a secret returned another public key")
		}
		d.SetMsg(msg)
		var g *mlsag.Signature
		var im point
		var err error
		if p := try(func() { g, im, err = d.Prove() }); p != nil {
			c.Fail("panic", rep, "Prove panicked: %v", p)
		}
		if !x.Ok {
			if err == nil {
				c.Fail("refuse", rep, "Prove did not refuse decoys %v with secrets %v", x.Decoys, x.Secrets)
			}
			c.count("refused")
			continue
		}
		if err != nil {
			c.Fail("complete", rep, "Prove failed for %d decoys %v with secrets %v: %v", len(x.Decoys), x.Decoys, x.Secrets, err)
		}
		if !bytes.Equal(g.Msg, msg) {
			c.Fail("ring", rep, "the signature is over another message")
		}
		s, err := fromMlsag(g, []point{im})
		if err != nil {
			c.Fail("ring", rep, "the signature can not be encoded: %v", err)
		}
		if w := sameMembers(s.keys, ring); w != "" {
			c.Fail("ring", rep, "%s", w)
		}
		var ok bool
		if p := try(func() { ok, err = g.Verify([]point{im}) }); p != nil {
			c.Fail("panic", rep, "Verify panicked: %v", p)
		}
		if !ok || err != nil {
			c.Fail("complete", rep, "an honest signature over decoys %v with secrets %v does not verify: %v %v", x.Decoys, x.Secrets, ok, err)
		}
		c.checkChain(s, rep)
		want := image(x1)
		if !im.Equals(&want) {
			c.Fail("image", rep, "the key image is not x*H(xG)")
		}
		c.count("proved")
	}
}

// checkChain is the verifier of the specification
func (c *Ctx) checkChain(s *rsig, step int) {
	if len(s.rs) != len(s.keys) {
		c.Fail("complete", step, "%d responses for %d members", len(s.rs), len(s.keys))
	}
	for i := range s.rs {
		if len(s.rs[i]) != len(s.keys[i]) {
			c.Fail("complete", step, "%d responses for %d keys", len(s.rs[i]), len(s.keys[i]))
		}
	}
	cs := s.chain()
	if !cs[len(cs)-1].Equals(&s.c) {
		c.Fail("protocol", step, "an honest signature does not close the ring of the published protocol")
	}
}

func (c *Ctx) blsagCase(x ringCase, msg []byte, decoys, ring [][]point, x1 scalar) {
	mix := make([]point, len(decoys), len(decoys)+3)
	for i := range decoys {
		mix[i] = decoys[i][0]
	}
	spare := mix[:cap(mix)]
	before := append([]point{}, spare...)
	m := append(append([]byte{}, msg...), 0xaa, 0xbb)[:len(msg)]
	var g blsag.RingSignature
	if p := try(func() { g = blsag.Sign(m, mix, x1) }); p != nil {
		c.Fail("panic", 0, "Sign panicked: %v", p)
	}
	if !bytes.Equal(m[:len(m)+2], append(append([]byte{}, msg...), 0xaa, 0xbb)) {
		c.Fail("caller", 0, "Sign changed the caller's message")
	}
	for i := range spare {
		if spare[i] != before[i] {
			c.Fail("caller", 0, "Sign changed the caller's mixins")
		}
	}
	s := fromBlsag(g, msg)
	if w := sameMembers(s.keys, ring); w != "" {
		c.Fail("ring", 0, "%s", w)
	}
	// the signature is not tied to the caller's slice
	for i := range mix {
		mix[i] = pZero()
	}
	for i := range m {
		m[i] ^= 0x55
	}
	var ok bool
	if p := try(func() { ok = blsag.Verify(msg, g) }); p != nil {
		c.Fail("panic", 0, "Verify panicked: %v", p)
	}
	if !ok {
		c.Fail("complete", 0, "an honest signature over mixins %v with secret %v does not verify", x.Decoys, x.Secrets[0])
	}
	c.checkChain(s, 0)
	want := image(x1)
	if !g.I.Equals(&want) {
		c.Fail("image", 0, "the key image is not x*H(xG)")
	}
	c.count("proved")
}

// ------------------------------------------------------------------ linking

type linkSig struct {
	K, R, M int
	S       string
}
type linkCase struct {
	A, B   linkSig
	Linked bool
}

var linkMemo sync.Map

func (c *Ctx) linkOne(l linkSig, who string) (point, scalar) {
	x := rscalar(rand.New(rand.NewSource(c.Seed*77 + int64(l.K))))
	key := fmt.Sprint(l, who)
	if v, ok := linkMemo.Load(key); ok {
		return v.(point), x
	}
	var decoys [][]point
	for i := 0; i < l.R; i++ {
		q := rand.New(rand.NewSource(c.Seed*99 + int64(i)))
		decoys = append(decoys, []point{pBase(rscalar(q)), pBase(rscalar(q))})
	}
	if l.R == 3 { // among the other signers of this model
		for i := range decoys {
			y := rscalar(rand.New(rand.NewSource(c.Seed*77 + int64((l.K+i)%4))))
			decoys[i][0] = pBase(y)
		}
	}
	msg := []byte(fmt.Sprint("message ", l.M))
	var im point
	if l.S == "mlsag" {
		d := mlsag.NewDualKey()
		for i := range decoys {
			d.AddDecoy(pubKeysOf(decoys[i]))
		}
		d.SetPrimaryKey(x)
		d.SetCommToZero(rscalar(c.Rnd))
		d.SetMsg(msg)
		_, i, err := d.Prove()
		if err != nil {
			c.Fail("complete", 0, "Prove failed: %v", err)
		}
		im = i
	} else {
		var mix []point
		for i := range decoys {
			mix = append(mix, decoys[i][0])
		}
		im = blsag.Sign(msg, mix, x).I
	}
	linkMemo.Store(key, im)
	return im, x
}

func replayRingLink(c *Ctx, raw json.RawMessage) {
	var l linkCase
	jsonOrDie(raw, &l)
	c.Steps++
	a, x := c.linkOne(l.A, "a")
	b, _ := c.linkOne(l.B, "b")
	if a.Equals(&b) != l.Linked {
		c.Fail("link", 0, "key images of %+v and %+v: equal is %v", l.A, l.B, a.Equals(&b))
	}
	pub := mlsag.CalculateKeyImage(x, pBase(x))
	ref := image(x)
	if !a.Equals(&pub) || !a.Equals(&ref) {
		c.Fail("image", 0, "the key image of %+v is not that of its key pair", l.A)
	}
}
