package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"golang.org/x/crypto/sha3"
)

// fieldP is the prime of the field over which the curve is defined
var fieldP, _ = new(big.Int).SetString("65000549695646603732796438742359905742825358107623003571877145026864184071783", 10)

// rndReader turns a math/rand source into an io.Reader
type rndReader struct{ r *rand.Rand }

func (r rndReader) Read(b []byte) (int, error) { return r.r.Read(b) }

// blsFix is the concrete meaning of the generators of the formal sums: key pairs, messages and base signatures
type blsFix struct {
	fam  int
	pk   []*bls.PublicKey
	sk   []*bls.SecretKey
	x    []*big.Int
	pkB  [][]byte
	pkP  []*bn256.G2
	msg  [][]byte
	base map[[2]int]*bn256.G1 // x_k * H0(m)
	mu   sync.Mutex
	memo map[string][]byte
	bad  string // the library's own base objects are wrong
}

const nFam = 18

// messages returns n distinct messages of family f
func messages(f, n int, r *rand.Rand) [][]byte {
	rb := func(k int) []byte { b := make([]byte, k); r.Read(b); return b }
	var ms [][]byte
	switch f % nFam {
	case 0:
		for i := 0; i < n; i++ {
			ms = append(ms, rb(32))
		}
	case 1: // the empty message and zero padding
		for i := 0; i < n; i++ {
			ms = append(ms, make([]byte, i))
		}
	case 2: // long messages that differ in the last byte
		p := rb(1024)
		for i := 0; i < n; i++ {
			m := append([]byte{}, p...)
			m[len(m)-1], m[len(m)-2] = byte(i), p[len(p)-2]^byte(i>>8)
			ms = append(ms, m)
		}
	case 3: // prefixes of one another
		p := rb(n + 1)
		for i := 0; i < n; i++ {
			ms = append(ms, append([]byte{}, p[:i+1]...))
		}
	case 4: // lengths around the rate of SHA3-256
		p := rb(136 + n)
		for i := 0; i < n; i++ {
			ms = append(ms, append([]byte{}, p[:135+i]...))
		}
	case 5: // one bit apart
		p := rb(32)
		for i := 0; i < n; i++ {
			m := append([]byte{}, p...)
			if i > 0 {
				b := (i * 5) % 256
				m[b/8] ^= 1 << uint(b%8)
				if i > 255 {
					b = (b + 1) % 256
					m[b/8] ^= 1 << uint(b%8)
				}
			}
			ms = append(ms, m)
		}
	case 6: // hashes of one another
		m := rb(32)
		for i := 0; i < n; i++ {
			ms = append(ms, m)
			h := sha3.Sum256(m)
			m = h[:]
		}
	case 7: // the same number with different leading zeros
		for i := 0; i < n; i++ {
			ms = append(ms, append(make([]byte, i), 1))
		}
	case 8: // rotations of the same bytes
		p := rb(n + 2)
		for i := range p {
			p[i] = byte(i * 7)
		}
		for i := 0; i < n; i++ {
			ms = append(ms, append(append([]byte{}, p[i:]...), p[:i]...))
		}
	case 9: // very long, differing in the first byte
		p := rb(70000)
		for i := 0; i < n; i++ {
			m := append([]byte{}, p...)
			m[0], m[1] = byte(i), p[1]^byte(i>>8)
			ms = append(ms, m)
		}
	case 10: // trailing zeros
		p := rb(16)
		for i := 0; i < n; i++ {
			ms = append(ms, append(append([]byte{}, p...), make([]byte, i)...))
		}
	case 11: // equal at both ends, different in the middle, 64 bytes
		p := rb(64)
		for i := 0; i < n; i++ {
			m := append([]byte{}, p...)
			m[32], m[33] = byte(i), p[33]^byte(i>>8)
			ms = append(ms, m)
		}
	case 12: // white space and other separators at the ends
		p := rb(12)
		p[0], p[11] = 'a', 'z'
		ends := [][2]string{{"", ""}, {"", "\n"}, {" ", ""}, {"", "\x00"}, {"", " "}, {"\n", ""}, {"", "\r\n"}, {"\t", ""}, {"", "\t"}, {"", "="}, {"", "."}, {"", ","}, {"\"", "\""}, {"", "\x80"}, {"0x", ""}, {"", "\xff"}}
		off := r.Intn(3) // not always the same ones among the first
		for i := 0; i < n; i++ {
			e := ends[(i+off*i)%len(ends)]
			m := append([]byte(e[0]), p...)
			m = append(m, e[1]...)
			for k := 0; k < i; k++ { // used before: more of the same
				if bytes.Equal(ms[k], m) {
					m, k = append(m, '\n', byte(i)), -1
				}
			}
			ms = append(ms, m)
		}
	case 13: // text: case, composed and decomposed letters, invalid sequences, other digits
		t := []string{"amount 10 \u00e9", "Amount 10 \u00e9", "amount 10 e\u0301", "amount 10 \xe9", "amount 10 \ufffd", "amount  10 \u00e9", "amount 010 \u00e9", "amount 10.0 \u00e9", "AMOUNT 10 \u00c9"}
		off := r.Intn(len(t))
		for i := 0; i < n; i++ {
			m := []byte(t[(i+off)%len(t)])
			for k := 0; k < i/len(t); k++ {
				m = append(m, ' ')
			}
			ms = append(ms, m)
		}
	case 14: // of the same xxHash (and checksum)
		h := r.Uint64()
		for i := 0; i < n; i++ {
			p := rb(8)
			p[0], p[1] = byte(i), byte(i>>8)
			ms = append(ms, append(p, xx64After(p, h)...))
		}
	case 15: // the same bytes in another order
		for i := 0; i < n; i++ {
			m := bytes.Repeat([]byte{'a'}, 64)
			m[i%32], m[32+i/32%32] = 'b', 'c'
			ms = append(ms, m)
		}
	case 16: // of the same CRC-32
		for i := 0; i < n; i++ {
			p := rb(12)
			p[0], p[1] = byte(i), byte(i>>8)
			ms = append(ms, append(p, crcAfter(p, 0x12345678)...))
		}
	case 17: // long messages of some length, differing at the end only
		p := rb([]int{2049, 4097, 5000, 16385, 65537, 131073, 300001}[r.Intn(7)])
		for i := 0; i < n; i++ {
			m := append([]byte{}, p...)
			m[len(m)-1], m[len(m)-2] = byte(i), p[len(p)-2]^byte(i>>8)
			ms = append(ms, m)
		}
	}
	return ms
}

func h0ref(m []byte) *bn256.G1 {
	h := sha3.Sum256(m)
	return new(bn256.G1).ScalarBaseMult(new(big.Int).SetBytes(h[:]))
}

func h1ref(pkb []byte) *big.Int {
	h := sha3.Sum256(pkb)
	return new(big.Int).SetBytes(h[:])
}

func g2Point(b []byte) *bn256.G2 {
	p := new(bn256.G2)
	if _, err := p.Unmarshal(b); err != nil {
		return nil
	}
	return p
}

func g1Point(b []byte) *bn256.G1 {
	p := new(bn256.G1)
	if _, err := p.Unmarshal(b); err != nil {
		return nil
	}
	return p
}

func g1Bytes(p *bn256.G1) []byte { return new(bn256.G1).Set(p).Marshal() }
func g2Bytes(p *bn256.G2) []byte { return new(bn256.G2).Set(p).Marshal() }

func g1Add(a, b *bn256.G1) *bn256.G1 {
	if a == nil {
		return b
	}
	return new(bn256.G1).Add(a, b)
}

func g2Add(a, b *bn256.G2) *bn256.G2 {
	if a == nil {
		return b
	}
	return new(bn256.G2).Add(a, b)
}

var g2Gen = new(bn256.G2).ScalarBaseMult(big.NewInt(1))

var (
	fixMu sync.Mutex
	fixes = map[string]*blsFix{}
)

// getBlsFix returns the (memoised) meaning of nk keys and nm messages of a family
func getBlsFix(seed int64, fam, nk, nm int) *blsFix {
	key := fmt.Sprint(seed, fam, nk, nm)
	fixMu.Lock()
	defer fixMu.Unlock()
	if f, ok := fixes[key]; ok {
		return f
	}
	r := rand.New(rand.NewSource(seed*7919 + int64(fam)))
	f := &blsFix{fam: fam, base: map[[2]int]*bn256.G1{}, memo: map[string][]byte{}, msg: messages(fam, nm, r)}
	for k := 0; k < nk; k++ {
		for t := 0; ; t++ {
			pk, sk, err := bls.GenKeyPair(rndReader{r})
			if err != nil {
				f.bad = "GenKeyPair: " + err.Error()
				fixes[key] = f
				return f
			}
			b := pk.Marshal()
			// some keys have a coordinate with leading zeros
			if k == nk-1 && fam%2 == 0 && t < 300 && !(len(b) == 129 && (b[1] == 0 || b[33] == 0 || b[65] == 0 || b[97] == 0)) {
				continue
			}
			f.pk, f.sk, f.pkB = append(f.pk, pk), append(f.sk, sk), append(f.pkB, b)
			p := g2Point(b)
			if p == nil {
				f.bad = "the encoding of a fresh public key is not a point"
				fixes[key] = f
				return f
			}
			f.pkP = append(f.pkP, p)
			break
		}
	}
	if fam%3 == 0 {
		// a signature with leading zeros in a coordinate
		for t := 0; t < 400; t++ {
			m := make([]byte, 20)
			r.Read(m)
			s, err := bls.UnsafeSign(f.sk[0], m)
			if err != nil {
				break
			}
			b := s.Marshal()
			if len(b) == 64 && (b[0] == 0 || b[32] == 0) {
				f.msg[0] = m
				break
			}
		}
	}
	for k := range f.pk {
		for m := range f.msg {
			s, err := bls.UnsafeSign(f.sk[k], f.msg[m])
			if err != nil {
				f.bad = "UnsafeSign: " + err.Error()
				fixes[key] = f
				return f
			}
			p := g1Point(s.Marshal())
			if p == nil {
				f.bad = "the encoding of a fresh signature is not a point"
				fixes[key] = f
				return f
			}
			f.base[[2]int{k, m}] = p
		}
	}
	fixes[key] = f
	return f
}

// checkBase verifies the base signatures by an independent pairing
func (f *blsFix) checkBase() string {
	if f.bad != "" {
		return f.bad
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.memo["checked"] != nil {
		return string(f.memo["checked"][1:])
	}
	res := ""
	for km, s := range f.base {
		l := bn256.Pair(s, g2Gen).Marshal()
		r := bn256.Pair(h0ref(f.msg[km[1]]), f.pkP[km[0]]).Marshal()
		if !bytes.Equal(l, r) {
			res = fmt.Sprintf("the signature of key %d on message %s does not satisfy e(s, g2) = e(H0(m), pk)", km[0]+1, hexs(f.msg[km[1]]))
		}
	}
	f.memo["checked"] = append([]byte{'x'}, res...)
	return res
}

// formal sums -------------------------------------------------------------

type pkVal []int // coefficients of the base keys; empty: no object

type sTerm struct {
	W pkVal `json:"w"`
	K int   `json:"k"`
	M int   `json:"m"`
}

func (f *blsFix) pkPoint(v pkVal) *bn256.G2 {
	var p *bn256.G2
	for k, n := range v {
		for i := 0; i < n; i++ {
			p = g2Add(p, f.pkP[k])
		}
	}
	return p
}

func (f *blsFix) memoised(key string, g func() []byte) []byte {
	f.mu.Lock()
	b, ok := f.memo[key]
	f.mu.Unlock()
	if ok {
		return b
	}
	b = g()
	f.mu.Lock()
	f.memo[key] = b
	f.mu.Unlock()
	return b
}

// PkBytes is the canonical encoding of a formal sum of public keys
func (f *blsFix) PkBytes(v pkVal) []byte {
	return f.memoised("p"+fmt.Sprint(v), func() []byte { return g2Bytes(f.pkPoint(v)) })
}

// AkBytes is the canonical encoding of the aggregation of the keys vs
func (f *blsFix) AkBytes(vs []pkVal) []byte {
	return f.memoised("a"+fmt.Sprint(vs), func() []byte {
		var p *bn256.G2
		for _, v := range vs {
			b := f.PkBytes(v)
			p = g2Add(p, new(bn256.G2).ScalarMult(g2Point(b), h1ref(b)))
		}
		return g2Bytes(p)
	})
}

// term is the plain signature of a term; a negative key stands for the negative
func (f *blsFix) term(t sTerm) *bn256.G1 {
	if t.K < 0 {
		return new(bn256.G1).Neg(f.base[[2]int{-t.K - 1, t.M - 1}])
	}
	return f.base[[2]int{t.K - 1, t.M - 1}]
}

// negated gives the encodings of the negative of a signature
func negated(b []byte) (raw, comp []byte) {
	y := new(big.Int).SetBytes(b[32:])
	raw = append(append([]byte{}, b[:32]...), be32(y.Sub(fieldP, y))...)
	return raw, g1Point(raw).Compress()
}

// SgBytes is the canonical encoding of a sum of weighted signatures
func (f *blsFix) SgBytes(ts []sTerm) []byte {
	return f.memoised("s"+fmt.Sprint(ts), func() []byte {
		var p *bn256.G1
		for _, t := range ts {
			p = g1Add(p, new(bn256.G1).ScalarMult(f.term(t), h1ref(f.PkBytes(t.W))))
		}
		return g1Bytes(p)
	})
}

// UsBytes is the canonical encoding of a sum of unweighted signatures
func (f *blsFix) UsBytes(ts []sTerm) []byte {
	return f.memoised("u"+fmt.Sprint(ts), func() []byte {
		var p *bn256.G1
		for _, t := range ts {
			p = g1Add(p, f.term(t))
		}
		return g1Bytes(p)
	})
}

// hostile encodings -------------------------------------------------------

// fp2 is x*i + y over the field of the curve, as in bn256
type fp2 struct{ x, y *big.Int }

func fmod(a *big.Int) *big.Int { return a.Mod(a, fieldP) }
func (a fp2) mul(b fp2) fp2 {
	x := new(big.Int).Mul(a.x, b.y)
	x.Add(x, new(big.Int).Mul(a.y, b.x))
	y := new(big.Int).Mul(a.y, b.y)
	y.Sub(y, new(big.Int).Mul(a.x, b.x))
	return fp2{fmod(x), fmod(y)}
}
func (a fp2) add(b fp2) fp2 {
	return fp2{fmod(new(big.Int).Add(a.x, b.x)), fmod(new(big.Int).Add(a.y, b.y))}
}
func (a fp2) sub(b fp2) fp2 {
	return fp2{fmod(new(big.Int).Sub(a.x, b.x)), fmod(new(big.Int).Sub(a.y, b.y))}
}
func (a fp2) eq(b fp2) bool { return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0 }

// sqrt by the complex method: p = 3 mod 4
func (a fp2) sqrt() (fp2, bool) {
	n := new(big.Int).Mul(a.x, a.x)
	n.Add(n, new(big.Int).Mul(a.y, a.y))
	s := new(big.Int).ModSqrt(fmod(n), fieldP)
	if s == nil {
		return fp2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), fieldP)
	for i := 0; i < 2; i++ {
		c := fmod(new(big.Int).Mul(new(big.Int).Add(a.y, s), half))
		if y := new(big.Int).ModSqrt(c, fieldP); y != nil && y.Sign() != 0 {
			x := new(big.Int).Mul(a.x, new(big.Int).ModInverse(new(big.Int).Lsh(y, 1), fieldP))
			r := fp2{fmod(x), y}
			if r.mul(r).eq(a) {
				return r, true
			}
		}
		s = new(big.Int).Sub(fieldP, s)
	}
	return fp2{}, false
}

func be32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

// twistPoints returns the encoding of points on the twist which are not in the prime-order group
func twistPoint(r *rand.Rand) []byte {
	g := g2Bytes(g2Gen)
	gx := fp2{new(big.Int).SetBytes(g[1:33]), new(big.Int).SetBytes(g[33:65])}
	gy := fp2{new(big.Int).SetBytes(g[65:97]), new(big.Int).SetBytes(g[97:129])}
	b := gy.mul(gy).sub(gx.mul(gx).mul(gx))
	for {
		x := fp2{new(big.Int).Rand(r, fieldP), new(big.Int).Rand(r, fieldP)}
		y, ok := x.mul(x).mul(x).add(b).sqrt()
		if !ok {
			continue
		}
		out := append([]byte{1}, be32(x.x)...)
		out = append(out, be32(x.y)...)
		out = append(out, be32(y.x)...)
		return append(out, be32(y.y)...)
	}
}

// addP adds the field prime to one of the 32-byte coordinates at the offsets offs, when the sum fits in 32 bytes
func addP(b []byte, offs []int, r *rand.Rand) ([]byte, bool) {
	out := append([]byte{}, b...)
	for _, j := range r.Perm(len(offs)) {
		o := offs[j]
		x := new(big.Int).Add(new(big.Int).SetBytes(b[o:o+32]), fieldP)
		if x.BitLen() <= 256 {
			copy(out[o:], be32(x))
			return out, true
		}
	}
	return nil, false
}

// badPk mutates the encoding of a public key so that no decoder may accept it
func badPk(form string, b []byte, r *rand.Rand) []byte {
	out := append([]byte{}, b...)
	switch form {
	case "tbad": // for the decoders of the text form; the others have no use for text at all
		return b64(b)
	case "trail":
		n := []int{1, 1, 2, 32, 128, 129}[r.Intn(6)]
		t := make([]byte, n)
		if r.Intn(2) == 0 {
			r.Read(t)
		}
		return append(out, t...)
	case "short":
		return out[:[]int{1, 2, 33, 65, 97, 127, 128}[r.Intn(7)]]
	case "flag":
		out[0] = []byte{0, 2, 3, 0x81, 0xff, byte(2 + r.Intn(254))}[r.Intn(6)]
		return out
	case "empty":
		if r.Intn(2) == 0 {
			return nil
		}
		return []byte{}
	case "ident":
		switch r.Intn(4) {
		case 0:
			return []byte{0}
		case 1:
			return make([]byte, 129)
		case 2:
			out = make([]byte, 129)
			out[0] = 1
			return out
		}
		return make([]byte, 1+r.Intn(128))
	case "off":
		o := 1 + 32*r.Intn(4) + 31
		out[o] ^= 1 << uint(r.Intn(3))
		return out
	case "noncanon":
		if m, ok := addP(b, []int{1, 33, 65, 97}, r); ok {
			return m
		}
		return append(out, 0)
	case "twist":
		return twistPoint(r)
	}
	panic("unknown form " + form)
}

func badSig(form string, b, c []byte, r *rand.Rand) []byte {
	out := append([]byte{}, b...)
	co := append([]byte{}, c...)
	switch form {
	case "trail":
		n := []int{1, 1, 2, 32, 33, 64}[r.Intn(6)]
		t := make([]byte, n)
		if r.Intn(2) == 0 {
			r.Read(t)
		}
		return append(out, t...)
	case "short":
		return out[:[]int{1, 31, 34, 63}[r.Intn(4)]]
	case "empty":
		if r.Intn(2) == 0 {
			return nil
		}
		return []byte{}
	case "off":
		out[31+32*r.Intn(2)] ^= 1 << uint(r.Intn(3))
		return out
	case "noncanon":
		if m, ok := addP(b, []int{0, 32}, r); ok {
			return m
		}
		return append(out, 0)
	case "cflag":
		co[32] = []byte{2, 3, 0x80, 0x81, 0xff, byte(2 + r.Intn(254))}[r.Intn(6)]
		return co
	case "cshort":
		return co[:[]int{1, 31, 32}[r.Intn(3)]]
	case "coff":
		x := new(big.Int).SetBytes(co[:32])
		for {
			x.Add(x, big.NewInt(1))
			x.Mod(x, fieldP)
			y2 := new(big.Int).Exp(x, big.NewInt(3), fieldP)
			y2.Add(y2, big.NewInt(3))
			if big.Jacobi(y2.Mod(y2, fieldP), fieldP) == -1 {
				break
			}
		}
		copy(co, be32(x))
		return co
	case "cnoncanon":
		if m, ok := addP(co, []int{0}, r); ok {
			return m
		}
		return append(co, 0)
	}
	panic("unknown form " + form)
}

func b64raw(t []byte) []byte {
	b, _ := base64.RawURLEncoding.DecodeString(string(t))
	return b
}

func b64(b []byte) []byte {
	out := make([]byte, base64.RawURLEncoding.EncodedLen(len(b)))
	base64.RawURLEncoding.Encode(out, b)
	return out
}

// badText damages the text form of a key
func badText(t []byte, r *rand.Rand) []byte {
	ins := func(i int, s string) []byte {
		return append(append(append([]byte{}, t[:i]...), s...), t[i:]...)
	}
	swap := func(enc *base64.Encoding) []byte {
		raw, err := base64.RawURLEncoding.DecodeString(string(t))
		if err != nil {
			return append(append([]byte{}, t...), '!')
		}
		out := []byte(enc.EncodeToString(raw))
		if bytes.Equal(out, t) { // without any of the characters in question
			return append(out, '=')
		}
		return out
	}
	switch r.Intn(12) {
	case 6: // the other alphabet
		return swap(base64.RawStdEncoding)
	case 7:
		return swap(base64.StdEncoding)
	case 8: // padded
		if out := swap(base64.URLEncoding); !bytes.Equal(out, t) {
			return out
		}
	case 9:
		return []byte(fmt.Sprintf("%x", b64raw(t)))
	case 10:
		return append([]byte(`"`), append(append([]byte{}, t...), '"')...)
	case 11: // bits behind the last byte
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		spare := map[int]int{2: 4, 3: 2}[len(t)%4]
		i := strings.IndexByte(al, t[len(t)-1])
		if spare > 0 && i >= 0 {
			out := append([]byte{}, t...)
			out[len(t)-1] = al[i^(1+r.Intn(1<<uint(spare)-1))]
			return out
		}
	case 0:
		return ins(r.Intn(len(t)+1), "\n")
	case 1:
		return ins(r.Intn(len(t)+1), "\r\n")
	case 2:
		return append(append([]byte{}, t...), "AAAA"...)
	case 3:
		return append(append([]byte{}, t...), '=')
	case 4:
		return t[:len(t)-1-r.Intn(len(t)-1)]
	}
	return ins(r.Intn(len(t)+1), " ")
}
