package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"runtime"
	"strings"
	"testing/iotest"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

func init() {
	components["codec"] = replayCodec
	components["codechonest"] = replayCodecHonest
}

type tok struct {
	T string
	Q string
	V int
}

type codecCase struct {
	F, Out string
	N, K   int
	W      []tok
	Base   []tok
	Rest   int
	Eq     bool
	Eqp    bool
}

var p25519, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)

func le32(x *big.Int) []byte {
	b := make([]byte, 32)
	for i, v := range x.Bytes() {
		b[len(x.Bytes())-1-i] = v
	}
	return b
}

func fromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// tokBytes lays the tokens out; the bytes of a named value are the same in every input of a case
func tokBytes(ts []tok, seed int64, r *rand.Rand) []byte {
	var out []byte
	for _, t := range ts {
		vr := rand.New(rand.NewSource(seed*7919 + int64(t.V)))
		switch t.T {
		case "s":
			x := sInt(0)
			if t.V != 0 {
				x = rscalar(vr)
				if t.V%5 == 0 {
					x = sInt(int64(t.V))
				}
			}
			b := x.Bytes()
			if t.Q == "nc" {
				y := fromLE(b)
				switch r.Intn(4) {
				case 0:
					y.Add(y, groupL)
				case 1:
					y.SetBytes(groupL.Bytes())
				case 2:
					y.Add(y, new(big.Int).Lsh(big.NewInt(1), 254))
				default:
					y.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
				}
				b = le32(y)
			}
			out = append(out, b...)
		case "p":
			p := pZero()
			if t.V != 0 {
				p = pRand(vr)
			}
			b := p.Bytes()
			switch t.Q {
			case "nc":
				y := fromLE(b)
				kind := r.Intn(3)
				if t.V == 0 {
					kind = 2 * r.Intn(2)
				}
				switch kind {
				case 0: // unused top bit
					b[31] |= 0x80
				case 1: // the negative of the field element
					b = le32(new(big.Int).Sub(p25519, y))
				default: // a field element out of range (equal to zero, so another identity)
					b = le32(p25519)
				}
			case "bad":
				for {
					b = make([]byte, 32)
					r.Read(b)
					var a [32]byte
					copy(a[:], b)
					var q point
					if !q.SetBytes(&a) {
						break
					}
				}
			}
			out = append(out, b...)
		case "u":
			v := uint32(t.V)
			switch t.V {
			case -1:
				v = 0xffffffff
			case -2:
				v = 0x80000000
			case -3:
				v = 0x08000000
			case -4:
				v = 0x00010000
			case -5:
				v = 1000000
			case -6:
				v = 65535
			case -7:
				v = 30000
			}
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], v)
			out = append(out, b[:]...)
		case "r":
			b := make([]byte, t.V)
			r.Read(b)
			out = append(out, b...)
		}
	}
	return out
}

// thing is a value of one of the formats
type thing struct {
	f     string
	n     int
	sig   mlsag.Signature
	resp  mlsag.Responses
	keys  mlsag.PubKeys
	com   pedersen.Commitment
	coms  []pedersen.Commitment
	ip    innerproduct.Proof
	rp    rangeproof.Proof
	count uint32
}

func (t *thing) decode(r io.Reader) (err error) {
	switch t.f {
	case "mlsag+", "mlsag":
		return t.sig.Decode(r, t.f == "mlsag+")
	case "resp":
		return t.resp.Decode(r, t.count)
	case "keys":
		return t.keys.Decode(r, t.count)
	case "commit":
		return t.com.Decode(r)
	case "commits":
		t.coms, err = pedersen.DecodeCommitments(r)
		return err
	case "ip":
		return t.ip.Decode(r)
	default:
		return t.rp.Decode(r, t.f == "range+")
	}
}

func (t *thing) encode(w io.Writer) error {
	switch t.f {
	case "mlsag+", "mlsag":
		return t.sig.Encode(w, t.f == "mlsag+")
	case "resp":
		return t.resp.Encode(w)
	case "keys":
		return t.keys.Encode(w)
	case "commit":
		return t.com.Encode(w)
	case "commits":
		return pedersen.EncodeCommitments(w, t.coms)
	case "ip":
		return t.ip.Encode(w)
	default:
		return t.rp.Encode(w, t.f == "range+")
	}
}

// equals compares all parts, or all but the keys / commitments
func (t *thing) equals(o *thing, all bool) bool {
	switch t.f {
	case "mlsag+", "mlsag":
		return t.sig.Equals(o.sig, all)
	case "resp":
		return t.resp.Equals(o.resp)
	case "keys":
		return t.keys.Equals(o.keys)
	case "commit":
		if t.com.Equals(o.com) != t.com.EqualValue(o.com) {
			return !t.com.EqualValue(o.com)
		}
		return t.com.EqualValue(o.com)
	case "commits":
		if len(t.coms) != len(o.coms) {
			return false
		}
		for i := range t.coms {
			if !t.coms[i].EqualValue(o.coms[i]) {
				return false
			}
		}
		return true
	case "ip":
		return t.ip.Equals(o.ip)
	default:
		return t.rp.Equals(o.rp, all)
	}
}

type failWriter struct{ left int }

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("disk full")
	}
	f.left -= len(p)
	return len(p), nil
}

type failReader struct {
	b []byte
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, errors.New("connection reset")
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

// blip fails once, after some bytes, and works again afterwards
type blip struct {
	left   int
	failed bool
	r      io.Reader
}

func (f *blip) Write(p []byte) (int, error) {
	if !f.failed && len(p) > f.left {
		f.failed = true
		return 0, errors.New("interrupted")
	}
	f.left -= len(p)
	return len(p), nil
}

func (f *blip) Read(p []byte) (int, error) {
	if !f.failed && len(p) > f.left {
		if f.left == 0 {
			f.failed = true
			return 0, errors.New("interrupted")
		}
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	return n, err
}

func replayCodec(c *Ctx, raw json.RawMessage) {
	var cs codecCase
	jsonOrDie(raw, &cs)
	fresh := func() *thing { return &thing{f: cs.F, n: cs.N, count: uint32(cs.N * cs.K)} }
	base := tokBytes(cs.Base, c.Seed, c.Rnd)
	in := tokBytes(cs.W, c.Seed, c.Rnd)

	x := fresh()
	rd := bytes.NewReader(base)
	if p := try(func() {
		if err := x.decode(rd); err != nil {
			c.Fail("decode", 0, "%s: a well-formed encoding (%d, %d) was refused: %v", cs.F, cs.N, cs.K, err)
		}
	}); p != nil {
		c.Fail("panic", 0, "%s: decoding a well-formed encoding panicked: %v", cs.F, p)
	}
	c.Steps++
	encoded := func(t *thing, step int) []byte {
		var b bytes.Buffer
		if p := try(func() {
			if err := t.encode(&b); err != nil {
				c.Fail("encode", step, "%s: encoding a decoded value: %v", cs.F, err)
			}
		}); p != nil {
			c.Fail("panic", step, "%s: encoding panicked: %v", cs.F, p)
		}
		return b.Bytes()
	}
	if rd.Len() != 0 {
		c.Fail("decode", 0, "%s: %d bytes of a well-formed encoding were left unread", cs.F, rd.Len())
	}
	if got := encoded(x, 0); !bytes.Equal(got, base) {
		c.Fail("canon", 0, "%s: decoding and encoding again gives %s instead of %s", cs.F, hexs(got), hexs(base))
	}

	y := fresh()
	used := c.Rnd.Intn(2) == 0 && cs.F != "resp" && cs.F != "keys"
	var before *thing // the value decoded before into the same variable, as its owner kept it
	var beforeEnc []byte
	if used { // a receiver that holds something already
		pre := []tok{}
		if (cs.F == "mlsag" || cs.F == "mlsag+") && c.Rnd.Intn(2) == 0 {
			pre = []tok{{"s", "ok", 950}, {"u", "ok", 2}, {"u", "ok", 1}, {"s", "ok", 951}, {"s", "ok", 952}}
			if cs.F == "mlsag+" {
				pre = append(pre, tok{"p", "ok", 953}, tok{"p", "ok", 954})
			}
		} else {
			pre = append(pre, cs.Base...)
		}
		for i := range pre { // with other contents
			if pre[i].Q == "ok" && pre[i].T != "u" && c.Rnd.Intn(2) == 0 {
				pre[i].V += 300
			}
		}
		if y.decode(bytes.NewReader(tokBytes(pre, c.Seed, c.Rnd))) == nil {
			before = &thing{}
			*before = *y
			beforeEnc = encoded(before, 0)
		}
	}
	keep := append([]byte{}, in...)
	br := bytes.NewReader(in)
	var src io.Reader = br
	kind := c.Rnd.Intn(4)
	switch kind {
	case 1:
		src = iotest.OneByteReader(br)
	case 2:
		src = iotest.HalfReader(br)
	case 3:
		src = iotest.DataErrReader(br)
	}
	var err error
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	p := try(func() { err = y.decode(src) })
	runtime.ReadMemStats(&m1)
	c.Steps++
	if before != nil {
		if got := encoded(before, 1); !bytes.Equal(got, beforeEnc) {
			c.Fail("canon", 1, "%s: decoding into the same variable changed the value that was decoded before", cs.F)
		}
	}
	if p != nil {
		c.Fail("panic", 1, "%s: decoding %s (%v) panicked: %v", cs.F, hexs(in), cs.W, p)
	}
	if !bytes.Equal(keep, in) {
		c.Fail("canon", 1, "%s: decoding changed its input", cs.F)
	}
	if got, max := m1.TotalAlloc-m0.TotalAlloc, uint64(600000+300*len(in)); c.Tags["memory"] && got > max {
		c.Fail("memory", 1, "%s: decoding %d bytes allocated %d bytes", cs.F, len(in), got)
	}
	if cs.Out == "ok" && err != nil {
		c.Fail("decode", 1, "%s: the encoding of a value was refused: %v (%v)", cs.F, err, cs.W)
	}
	if cs.Out == "err" && err == nil {
		c.Fail("decode", 1, "%s: accepted, although it is no encoding: %v", cs.F, cs.W)
	}
	c.count("out_" + cs.Out)
	if err != nil {
		// the same input, its reader failing at the end, is an error as well
		z := fresh()
		if p := try(func() { err = z.decode(&failReader{in}) }); p != nil {
			c.Fail("panic", 2, "%s: panic with a failing reader: %v", cs.F, p)
		}
		if cs.Out == "err" && err == nil {
			c.Fail("decode", 2, "%s: accepted from a failing reader", cs.F)
		}
		return
	}
	if kind == 0 && cs.Out == "ok" && br.Len() != cs.Rest {
		c.Fail("decode", 1, "%s: %d bytes left unread, %d expected", cs.F, br.Len(), cs.Rest)
	}
	enc := encoded(y, 1)
	left := br.Len()
	if kind == 0 && !bytes.Equal(enc, in[:len(in)-left]) {
		c.Fail("canon", 1, "%s: decoded %s but encodes to %s", cs.F, hexs(in[:len(in)-left]), hexs(enc))
	}
	if !bytes.HasPrefix(in, enc) {
		c.Fail("canon", 1, "%s: decoded %s but encodes to %s", cs.F, hexs(in), hexs(enc))
	}
	// a failing writer is reported
	if len(enc) > 0 {
		at := c.Rnd.Intn(len(enc))
		var werr error
		if p := try(func() { werr = y.encode(&failWriter{at}) }); p != nil {
			c.Fail("panic", 2, "%s: panic with a failing writer: %v", cs.F, p)
		}
		if werr == nil {
			c.Fail("encode", 2, "%s: a write that failed after %d of %d bytes was not reported", cs.F, at, len(enc))
		}
		for k := 0; k < 4; k++ { // nor may it be forgotten when later ones succeed
			at := c.Rnd.Intn(len(enc))
			if k == 0 {
				at = len(enc) - 1
			}
			w := &blip{left: at}
			if p := try(func() { werr = y.encode(w) }); p != nil {
				c.Fail("panic", 2, "%s: panic with a failing writer: %v", cs.F, p)
			}
			if w.failed && werr == nil {
				c.Fail("encode", 2, "%s: a write that failed after %d of %d bytes was not reported", cs.F, at, len(enc))
			}
			z := fresh()
			rd := &blip{left: at, r: bytes.NewReader(enc)}
			if p := try(func() { werr = z.decode(rd) }); p != nil {
				c.Fail("panic", 2, "%s: panic with a failing reader: %v", cs.F, p)
			}
			if rd.failed && werr == nil {
				c.Fail("decode", 2, "%s: a read that failed after %d of %d bytes was not reported", cs.F, at, len(enc))
			}
		}
	}
	if cs.Out != "ok" {
		return
	}
	for step, pair := range [][2]*thing{{x, y}, {y, x}} {
		for _, all := range []bool{true, false} {
			want := cs.Eq
			if !all {
				want = cs.Eqp
			}
			var got bool
			if p := try(func() { got = pair[0].equals(pair[1], all) }); p != nil {
				c.Fail("panic", 3, "%s: comparing panicked: %v", cs.F, p)
			}
			if got != want {
				c.Fail("equal", 3, "%s: comparing values (order %d, all parts %v) gives %v: %v against %v", cs.F, step, all, got, cs.W, cs.Base)
			}
			c.Steps++
		}
	}
	// equal to itself, and to another decoding of the same bytes
	z := fresh()
	must(z.decode(bytes.NewReader(enc)))
	for _, all := range []bool{true, false} {
		if !y.equals(z, all) || !z.equals(y, all) || !y.equals(y, all) {
			c.Fail("equal", 4, "%s: a value differs from its own encoding, decoded (%v)", cs.F, cs.W)
		}
	}
}

// ------------------------------------------------- values made by the library

type codecHonest struct {
	F    string
	N    int
	Keys bool
	Bend string // how the value is bent before encoding
	Ok   bool
	G    string // long lists: the format,
	At   int    // where the other list differs,
	Eq   bool   // and whether they are equal
}

// longBytes is the encoding of a list of n elements (n members with two keys, n rounds), with other values in element at
func longBytes(f string, n, at int, seed int64) []byte {
	var out []byte
	u32 := func(v int) {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(v))
		out = append(out, b[:]...)
	}
	r := func(i, k int) *rand.Rand {
		if i == at {
			k += 1000
		}
		return rand.New(rand.NewSource(seed*7919 + int64(i)*31 + int64(k)*1000003))
	}
	sc := func(i, k int) { s := rscalar(r(i, k)); out = append(out, s.Bytes()...) }
	// one derived point and its small multiples: deriving every one is slow
	pt := func(i, k int) {
		x := r(i, k)
		var p point
		s := rscalar(x)
		p.ScalarMultBase(&s)
		out = append(out, p.Bytes()...)
	}
	switch f {
	case "mlsag+", "mlsag":
		s := rscalar(rand.New(rand.NewSource(seed)))
		out = append(out, s.Bytes()...)
		u32(n)
		if n == 0 {
			break
		}
		u32(2)
		for i := 1; i <= n; i++ {
			sc(i, 1)
			sc(i, 2)
		}
		if f == "mlsag+" {
			for i := 1; i <= n; i++ {
				pt(i, 3)
				pt(i, 4)
			}
		}
	case "resp":
		for i := 1; i <= n; i++ {
			sc(i, 1)
		}
	case "keys":
		for i := 1; i <= n; i++ {
			pt(i, 1)
		}
	case "commits":
		u32(n)
		for i := 1; i <= n; i++ {
			pt(i, 1)
		}
	case "ip":
		for k := 1; k <= 2; k++ {
			s := rscalar(rand.New(rand.NewSource(seed + int64(k))))
			out = append(out, s.Bytes()...)
		}
		for i := 1; i <= n; i++ {
			pt(i, 1)
			pt(i, 2)
		}
	default:
		panic(f)
	}
	return out
}

func codecLong(c *Ctx, cs codecHonest) {
	ts := make([]*thing, 2)
	for k, at := range []int{0, cs.At} {
		b := longBytes(cs.G, cs.N, at, c.Seed)
		ts[k] = &thing{f: cs.G, n: cs.N, count: uint32(cs.N)}
		var err error
		tail := []byte{1, 2, 3}
		if cs.G == "ip" { // takes all there is
			tail = nil
		}
		rd := bytes.NewReader(append(append([]byte{}, b...), tail...))
		if p := try(func() { err = ts[k].decode(rd) }); p != nil {
			c.Fail("panic", k, "%s: decoding %d elements panicked: %v", cs.G, cs.N, p)
		}
		if err != nil || rd.Len() != len(tail) {
			c.Fail("decode", k, "%s: decoding %d elements: error %v, %d bytes left", cs.G, cs.N, err, rd.Len()-len(tail))
		}
		var w bytes.Buffer
		if p := try(func() { err = ts[k].encode(&w) }); p != nil {
			c.Fail("panic", k, "%s: encoding %d elements panicked: %v", cs.G, cs.N, p)
		}
		if err != nil || !bytes.Equal(w.Bytes(), b) {
			c.Fail("encode", k, "%s: encoding %d elements: error %v, %d bytes instead of %d, equal %v", cs.G, cs.N, err, w.Len(), len(b), bytes.Equal(w.Bytes(), b))
		}
		c.Steps++
	}
	for _, all := range []bool{true, false} {
		if ts[0].equals(ts[1], all) != cs.Eq || ts[1].equals(ts[0], all) != cs.Eq {
			c.Fail("equal", 2, "%s: lists of %d elements that differ at %d (0: nowhere) compare %v", cs.G, cs.N, cs.At, !cs.Eq)
		}
	}
}

func replayCodecHonest(c *Ctx, raw json.RawMessage) {
	var cs codecHonest
	jsonOrDie(raw, &cs)
	switch cs.F {
	case "long":
		codecLong(c, cs)
	case "mlsag":
		d := mlsag.NewDualKey()
		msg := make([]byte, c.Rnd.Intn(80))
		c.Rnd.Read(msg)
		for i := 1; i < cs.N; i++ {
			d.AddDecoy(pubKeysOf([]point{pRand(c.Rnd), pRand(c.Rnd)}))
		}
		d.SetPrimaryKey(rscalar(c.Rnd))
		d.SetCommToZero(rscalar(c.Rnd))
		d.SetMsg(msg)
		sig, im, err := d.Prove()
		if err != nil {
			c.Fail("encode", 0, "proving failed: %v", err)
		}
		var old mlsag.Signature
		for _, k := range sig.PubKeys {
			ps, err := pointsOf(k)
			must(err)
			old.PubKeys = append(old.PubKeys, pubKeysOf(ps))
		}
		switch cs.Bend {
		case "fewer":
			sig.PubKeys = sig.PubKeys[:len(sig.PubKeys)-1]
		case "more":
			sig.PubKeys = append(sig.PubKeys, pubKeysOf([]point{pRand(c.Rnd), pRand(c.Rnd)}))
		case "nokeys":
			sig.PubKeys = nil
		case "wide":
			sig.PubKeys[len(sig.PubKeys)-1].AddPubKey(pRand(c.Rnd))
		case "narrow":
			sig.PubKeys[0] = pubKeysOf([]point{pRand(c.Rnd)})
		case "hollow": // one without keys
			sig.PubKeys[c.Rnd.Intn(len(sig.PubKeys))] = mlsag.PubKeys{}
		case "cut": // one without its last key
			i := c.Rnd.Intn(len(sig.PubKeys))
			ps, err := pointsOf(sig.PubKeys[i])
			must(err)
			sig.PubKeys[i] = pubKeysOf(ps[:1])
		case "swapk": // one with its keys exchanged
			i := c.Rnd.Intn(len(sig.PubKeys))
			ps, err := pointsOf(sig.PubKeys[i])
			must(err)
			sig.PubKeys[i] = pubKeysOf([]point{ps[1], ps[0]})
		}
		if cs.Bend != "" {
			o := *sig
			o.PubKeys = old.PubKeys
			for _, all := range []bool{true, false} {
				if p := try(func() {
					if sig.Equals(o, all) == all || o.Equals(*sig, all) == all {
						c.Fail("equal", 0, "mlsag: comparing (keys %v) a signature with %s and one without", all, cs.Bend)
					}
				}); p != nil {
					c.Fail("panic", 0, "mlsag: Equals panicked on a signature with %s: %v", cs.Bend, p)
				}
			}
		}
		var b bytes.Buffer
		if p := try(func() { err = sig.Encode(&b, cs.Keys) }); p != nil {
			c.Fail("panic", 0, "mlsag: Encode panicked: %v", p)
		}
		if (err == nil) != cs.Ok {
			c.Fail("encode", 0, "mlsag: encoding (keys %v) of a signature with %s: error %v, expected success %v", cs.Keys, cs.Bend, err, cs.Ok)
		}
		if err != nil || cs.Bend != "" {
			return
		}
		// what is not in the encoding is the caller's to set, before or after
		got := mlsag.Signature{Msg: append([]byte{}, msg...)}
		before := c.Rnd.Intn(2) == 0
		if !cs.Keys && before {
			got.PubKeys = old.PubKeys
		}
		if err := got.Decode(bytes.NewReader(b.Bytes()), cs.Keys); err != nil {
			c.Fail("decode", 1, "mlsag: the encoding of a genuine signature was refused: %v", err)
		}
		if !bytes.Equal(got.Msg, msg) {
			c.Fail("decode", 1, "mlsag: decoding changed the message, which is not encoded")
		}
		if !cs.Keys && !before {
			got.PubKeys = old.PubKeys
		}
		if !got.Equals(*sig, true) || !sig.Equals(got, true) || !got.Equals(*sig, false) {
			c.Fail("equal", 2, "mlsag: a decoded signature differs from the original")
		}
		got.Msg = msg
		ok, _ := got.Verify([]point{im})
		if !ok {
			c.Fail("decode", 3, "mlsag: a decoded signature does not verify")
		}
		got.Msg = append(msg, 1)
		if ok, _ := got.Verify([]point{im}); ok {
			c.Fail("decode", 3, "mlsag: a decoded signature verifies for another message")
		}
		c.Steps += 3
	case "range":
		p, err := rangeproof.Prove(someValues(c.Rnd, cs.N), false)
		if err != nil {
			c.Fail("encode", 0, "proving failed: %v", err)
		}
		q := p
		switch cs.Bend {
		case "noip":
			p.IPProof = nil
		case "lr":
			ip := *p.IPProof
			ip.R = ip.R[:len(ip.R)-1]
			p.IPProof = &ip
		case "rl":
			ip := *p.IPProof
			ip.L = ip.L[:len(ip.L)-1]
			p.IPProof = &ip
		case "fewv":
			p.V = p.V[:len(p.V)-1]
		case "morev":
			p.V = append(append([]pedersen.Commitment{}, p.V...), p.V[0])
		case "nov":
			p.V = nil
		case "swapv": // one commitment is another one's
			p.V = append([]pedersen.Commitment{}, p.V...)
			p.V[c.Rnd.Intn(len(p.V))].Value = pRand(c.Rnd)
		}
		vs := strings.HasSuffix(cs.Bend, "v")
		if cs.Bend != "" {
			var e1, e2 bool
			if pn := try(func() { e1, e2 = p.Equals(q, cs.Keys), q.Equals(p, cs.Keys) }); pn != nil {
				c.Fail("panic", 0, "range: Equals panicked on a proof with %s: %v", cs.Bend, pn)
			}
			if want := vs && !cs.Keys; e1 != want || e2 != want {
				c.Fail("equal", 0, "range: comparing a proof with %s (commitments %v) and one without gives %v, %v", cs.Bend, cs.Keys, e1, e2)
			}
		}
		var b bytes.Buffer
		if pn := try(func() { err = p.Encode(&b, cs.Keys) }); pn != nil {
			c.Fail("panic", 0, "range: Encode panicked: %v", pn)
		}
		if (err == nil) != cs.Ok {
			c.Fail("encode", 0, "range: encoding of a proof with %s: error %v, expected success %v", cs.Bend, err, cs.Ok)
		}
		if err != nil || cs.Bend != "" {
			return
		}
		var got rangeproof.Proof
		if err := got.Decode(bytes.NewReader(b.Bytes()), cs.Keys); err != nil {
			c.Fail("decode", 1, "range: the encoding of a genuine proof was refused: %v", err)
		}
		if !got.Equals(p, cs.Keys) || !p.Equals(got, cs.Keys) {
			c.Fail("equal", 2, "range: a decoded proof differs from the original")
		}
		if cs.Keys == false {
			if len(got.V) != 0 || got.Equals(p, true) {
				c.Fail("equal", 2, "range: a proof without commitments equals one with them")
			}
			got = rangeproof.Proof{V: append([]pedersen.Commitment{}, p.V...)}
			if err := got.Decode(bytes.NewReader(b.Bytes()), false); err != nil || !got.Equals(p, true) {
				c.Fail("decode", 2, "range: decoding changed the commitments, which are not encoded: %v", err)
			}
		}
		if ok, err := rangeproof.Verify(got); !ok {
			c.Fail("decode", 3, "range: a decoded proof does not verify: %v", err)
		}
		got.V = append([]pedersen.Commitment{}, got.V...)
		got.V[len(got.V)-1].Value = pRand(c.Rnd)
		if ok, _ := rangeproof.Verify(got); ok {
			c.Fail("decode", 3, "range: a decoded proof verifies for another commitment")
		}
		c.Steps += 4
	default:
		panic(fmt.Sprint("unknown ", cs.F))
	}
}

func someValues(r *rand.Rand, n int) []scalar {
	vs := make([]scalar, n)
	for i := range vs {
		vs[i].SetBigInt(new(big.Int).SetUint64(r.Uint64()))
	}
	return vs
}
