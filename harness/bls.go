package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

func init() {
	components["bls"] = replayBLS
	components["blscase"] = replayBLSCase
}

// args of a call of BLS.tla; which fields are present depends on the kind
type blsArgs struct {
	D, A, B, P, S, U, K, M int
	F                      string
	Ps, As, Ms, L          []int
	Rep                    bool
}

type blsPost struct {
	Pk []pkVal   `json:"pk"`
	Ak [][]pkVal `json:"ak"`
	Sg [][]sTerm `json:"sg"`
	Us [][]sTerm `json:"us"`
}

type blsStep struct {
	Kd   string
	X    json.RawMessage
	Ok   bool
	Post blsPost
}

// shadow keeps a byte slice handed to the library together with what it contained
type shadow struct {
	what      string
	b, backup []byte
}

type blsWorld struct {
	c    *Ctx
	f    *blsFix
	pk   []*bls.PublicKey
	ak   []*bls.Apk
	sg   []*bls.Signature
	us   []*bls.UnsafeSignature
	lent []shadow
	step int
}

// lend gives the library a copy of b with spare capacity, to be checked after the call
func (w *blsWorld) lend(what string, b []byte) []byte {
	if b == nil {
		return nil
	}
	full := make([]byte, len(b)+16)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	w.lent = append(w.lent, shadow{what, full, append([]byte{}, full...)})
	return full[:len(b)]
}

// returned checks what was lent and then scribbles over it: nothing may depend on it any more
func (w *blsWorld) returned() {
	for _, s := range w.lent {
		if !bytes.Equal(s.b, s.backup) {
			w.c.Fail("buffer", w.step, "the call changed the %s passed in by the caller", s.what)
		}
		for i := range s.b {
			s.b[i] ^= 0x5A
		}
	}
	w.lent = w.lent[:0]
}

func (w *blsWorld) msgs(ms []int) [][]byte {
	out := make([][]byte, len(ms))
	for i, m := range ms {
		out[i] = w.lend("message", w.f.msg[m-1])
	}
	return out
}

// scrub takes an encoding from the library and returns a copy, destroying the original
func scrub(b []byte) []byte {
	out := append([]byte{}, b...)
	for i := range b {
		b[i] ^= 0xFF
	}
	return out
}

func replayBLS(c *Ctx, raw json.RawMessage) {
	var h []blsStep
	jsonOrDie(raw, &h)
	if len(h) == 0 {
		return
	}
	nk := 0
	for _, p := range h[0].Post.Pk {
		if len(p) > 0 {
			nk = len(p)
		}
	}
	f := getBlsFix(c.Seed, c.Idx%nFam, nk, 4)
	if f.bad != "" {
		c.Fail("base", 0, "%s", f.bad)
	}
	if c.Tags == nil || c.Tags["base"] {
		if e := f.checkBase(); e != "" {
			c.Fail("base", 0, "%s", e)
		}
	}
	p0 := h[0].Post
	w := &blsWorld{c: c, f: f, pk: make([]*bls.PublicKey, len(p0.Pk)), ak: make([]*bls.Apk, len(p0.Ak)), sg: make([]*bls.Signature, len(p0.Sg)), us: make([]*bls.UnsafeSignature, len(p0.Us))}
	for k := 0; k < nk; k++ {
		pk, err := bls.UnmarshalPk(f.pkB[k])
		if err != nil {
			c.Fail("decode", 0, "the encoding of a fresh key is refused: %v", err)
		}
		w.pk[k] = pk
	}
	// the rich initial state
	w.pk[nk] = w.pk[0].Aggregate(w.pk[1])
	w.ak[0] = bls.NewApk(w.pk[0])
	var err error
	if w.ak[1], err = bls.AggregateApk([]*bls.PublicKey{w.pk[0], w.pk[1]}); err != nil {
		c.Fail("value", 0, "AggregateApk: %v", err)
	}
	for i := 0; i < 2; i++ {
		if w.sg[i], err = bls.Sign(f.sk[i], w.pk[i], f.msg[0]); err != nil {
			c.Fail("result", 0, "Sign: %v", err)
		}
		if w.us[i], err = bls.UnsafeSign(f.sk[i], f.msg[i]); err != nil {
			c.Fail("result", 0, "UnsafeSign: %v", err)
		}
	}
	for i, s := range h {
		w.step = i + 1
		c.Steps++
		w.do(s)
	}
}

type blsRecv struct {
	store string
	slot  int
}

func (w *blsWorld) do(s blsStep) {
	var x blsArgs
	jsonOrDie(s.X, &x)
	recv, isDecode, isVerify, err, p := w.exec(s.Kd, x)
	c := w.c
	if p != nil {
		c.Fail("panic", w.step, "%s %s panicked: %v", s.Kd, s.X, p)
	}
	if (err == nil) != s.Ok {
		tag := "result"
		if isDecode {
			tag = "decode"
		} else if !isVerify {
			tag = "value"
		} else if s.Kd[:2] == "vb" || s.Kd[:3] == "vub" || s.Kd == "vcomp" {
			tag = "batch"
		}
		c.Fail(tag, w.step, "%s %s: the specification says ok=%v, the library answered %v", s.Kd, s.X, s.Ok, err)
	}
	w.returned()
	w.compare(s, recv.store, recv.slot, isDecode)
}

// exec makes the call
func (w *blsWorld) exec(kd string, x blsArgs) (recv blsRecv, isDecode, isVerify bool, err error, p interface{}) {
	c, f := w.c, w.f
	set := func(st string, slot int) { recv.store, recv.slot = st, slot }
	p = try(func() {
		switch kd {
		case "pkagg":
			set("pk", x.D)
			w.pk[x.D-1] = w.pk[x.A-1].Aggregate(w.pk[x.B-1])
		case "pkdec":
			isDecode = true
			set("pk", x.D)
			err = w.decPk(x, false)
		case "newapk":
			set("ak", x.D)
			w.ak[x.D-1] = bls.NewApk(w.pk[x.P-1])
		case "aggapks":
			set("ak", x.D)
			ps := make([]*bls.PublicKey, len(x.Ps))
			for i, j := range x.Ps {
				ps[i] = w.pk[j-1]
			}
			var a *bls.Apk
			if a, err = bls.AggregateApk(ps); err == nil {
				w.ak[x.D-1] = a
			}
			for i, j := range x.Ps {
				if ps[i] != w.pk[j-1] {
					c.Fail("buffer", w.step, "AggregateApk changed the caller's list")
				}
			}
		case "apkagg":
			set("ak", x.D)
			err = w.ak[x.D-1].Aggregate(w.pk[x.P-1])
		case "apkaggb":
			isDecode = true
			set("ak", x.D)
			b := scrub(w.pk[x.P-1].Marshal())
			if x.F != "raw" {
				b = badPk(x.F, b, c.Rnd)
			}
			err = w.ak[x.D-1].AggregateBytes(w.lend("encoding", b))
		case "apkcopy":
			set("ak", x.D)
			w.ak[x.D-1] = w.ak[x.S-1].Copy()
		case "apkdec":
			isDecode = true
			set("ak", x.D)
			err = w.decPk(x, true)
		case "sign", "signok":
			set("sg", x.D)
			var g *bls.Signature
			if g, err = bls.Sign(f.sk[x.K-1], w.pk[x.P-1], w.lend("message", f.msg[x.M-1])); err == nil {
				w.sg[x.D-1] = g
			}
		case "sigadd":
			set("sg", x.D)
			err = w.sg[x.D-1].Add(w.pk[x.P-1], w.us[x.U-1])
		case "sigagg":
			set("sg", x.D)
			g := w.sg[x.D-1].Aggregate(w.sg[x.S-1])
			if !bytes.Equal(g.Marshal(), w.sg[x.D-1].Marshal()) {
				c.Fail("value", w.step, "Aggregate returned something else than its receiver's value")
			}
		case "sigaggb":
			isDecode = true
			set("sg", x.D)
			err = w.sg[x.D-1].AggregateBytes(w.lend("encoding", w.sigEnc(x)))
		case "signeg":
			isDecode = true
			set("sg", x.D)
			raw, comp := negated(w.sg[x.S-1].Marshal())
			in := w.lend("encoding", map[string][]byte{"raw": raw, "comp": comp, "dcomp": comp}[x.F])
			g := &bls.Signature{}
			if w.sg[x.D-1] != nil && c.Rnd.Intn(2) == 0 {
				g = w.sg[x.D-1]
			}
			if x.F == "dcomp" {
				err = g.Decompress(in)
			} else {
				err = g.Unmarshal(in)
			}
			if err == nil {
				w.sg[x.D-1] = g
			}
		case "sigsub":
			isDecode = true
			set("sg", x.D)
			raw, comp := negated(w.sg[x.S-1].Marshal())
			if x.F == "comp" {
				raw = comp
			}
			// its own negative too
			if c.Rnd.Intn(2) == 0 {
				err = w.sg[x.D-1].AggregateBytes(w.lend("encoding", raw))
			} else {
				var g *bls.Signature
				if g, err = bls.UnmarshalSignature(w.lend("encoding", raw)); err == nil {
					w.sg[x.D-1].Aggregate(g)
				}
			}
		case "uneg":
			isDecode = true
			set("us", x.D)
			raw, comp := negated(w.us[x.S-1].Marshal())
			g := &bls.UnsafeSignature{}
			if w.us[x.D-1] != nil && c.Rnd.Intn(2) == 0 {
				g = w.us[x.D-1]
			}
			if x.F == "raw" {
				err = g.Unmarshal(w.lend("encoding", raw))
			} else {
				err = g.Decompress(w.lend("encoding", comp))
			}
			if err == nil {
				w.us[x.D-1] = g
			}
		case "sigcopy":
			set("sg", x.D)
			w.sg[x.D-1] = w.sg[x.S-1].Copy()
		case "sigdec":
			isDecode = true
			set("sg", x.D)
			in := w.lend("encoding", w.sigEnc(x))
			decomp := x.F == "dcomp" || x.F == "draw" || (x.F[0] == 'c' && x.F != "comp" && c.Rnd.Intn(2) == 0)
			if w.sg[x.D-1] != nil && c.Rnd.Intn(2) == 0 { // decode into an existing object
				if decomp {
					err = w.sg[x.D-1].Decompress(in)
				} else {
					err = w.sg[x.D-1].Unmarshal(in)
				}
			} else if decomp {
				g := &bls.Signature{}
				if err = g.Decompress(in); err == nil {
					w.sg[x.D-1] = g
				}
			} else {
				var g *bls.Signature
				if g, err = bls.UnmarshalSignature(in); err == nil {
					w.sg[x.D-1] = g
				}
			}
		case "usign":
			set("us", x.D)
			var g *bls.UnsafeSignature
			if g, err = bls.UnsafeSign(f.sk[x.K-1], w.lend("message", f.msg[x.M-1])); err == nil {
				w.us[x.D-1] = g
			}
		case "uagg":
			set("us", x.D)
			w.us[x.D-1] = bls.UnsafeAggregate(w.us[x.A-1], w.us[x.B-1])
		case "ubatch":
			set("us", x.D)
			l := make([]*bls.UnsafeSignature, len(x.L))
			for i, j := range x.L {
				l[i] = w.us[j-1]
			}
			var g *bls.UnsafeSignature
			if g, err = bls.UnsafeBatch(l...); err == nil {
				w.us[x.D-1] = g
			}
			for i, j := range x.L {
				if x.D != j && l[i] != w.us[j-1] {
					c.Fail("buffer", w.step, "UnsafeBatch changed the caller's list")
				}
			}
		case "udec":
			isDecode = true
			set("us", x.D)
			src := w.us[x.S-1]
			var b []byte
			switch x.F {
			case "raw", "draw":
				b = scrub(src.Marshal())
			case "dcomp":
				b = scrub(src.Compress())
			default:
				b = badSig(x.F, scrub(src.Marshal()), scrub(src.Compress()), c.Rnd)
			}
			in := w.lend("encoding", b)
			g := w.us[x.D-1]
			fresh := g == nil || c.Rnd.Intn(2) == 0
			if fresh {
				g = &bls.UnsafeSignature{}
			}
			if x.F[0] == 'c' || x.F == "dcomp" || x.F == "draw" {
				err = g.Decompress(in)
			} else {
				err = g.Unmarshal(in)
			}
			if fresh && err == nil {
				w.us[x.D-1] = g
			}
		case "verify", "verifyt":
			isVerify = true
			err = bls.Verify(w.ak[x.A-1], w.lend("message", f.msg[x.M-1]), w.sg[x.S-1])
		case "vu", "vut":
			isVerify = true
			err = bls.VerifyUnsafe(w.pk[x.P-1], w.lend("message", f.msg[x.M-1]), w.us[x.U-1])
		case "vbatch", "vbatcht":
			isVerify = true
			as := make([]*bls.Apk, len(x.As))
			for i, j := range x.As {
				as[i] = w.ak[j-1]
			}
			err = bls.VerifyBatch(as, w.msgs(x.Ms), w.sg[x.S-1])
		case "vub", "vubt":
			isVerify = true
			ps := make([]*bls.PublicKey, len(x.Ps))
			for i, j := range x.Ps {
				ps[i] = w.pk[j-1]
			}
			err = bls.VerifyUnsafeBatch(ps, w.msgs(x.Ms), w.us[x.U-1])
		case "vcomp":
			isVerify = true
			ps := make([]*bn256.G2, len(x.Ps))
			for i, j := range x.Ps {
				ps[i] = g2Point(w.pk[j-1].Marshal())
			}
			b := scrub(w.us[x.U-1].Compress())
			if x.F != "comp" {
				b = badSig(x.F, scrub(w.us[x.U-1].Marshal()), b, c.Rnd)
			}
			err = bls.VerifyCompressed(ps, w.msgs(x.Ms), w.lend("encoding", b), x.Rep)
		default:
			panic("unknown kind " + kd)
		}
	})
	return
}

func (w *blsWorld) decPk(x blsArgs, apk bool) error {
	c := w.c
	var src *bls.PublicKey
	if apk {
		src = w.ak[x.S-1].PublicKey
	} else {
		src = w.pk[x.P-1]
	}
	var b []byte
	text := false
	switch x.F {
	case "raw":
		b = scrub(src.Marshal())
	case "text":
		t, err := src.MarshalText()
		if err != nil {
			return err
		}
		b, text = scrub(t), true
	default:
		b = badPk(x.F, scrub(src.Marshal()), c.Rnd)
		if c.Rnd.Intn(4) == 0 { // the same bytes in the text form
			b, text = b64(b), true
		}
	}
	if x.F == "tbad" || (x.F == "trail" && !text && c.Rnd.Intn(3) == 0) { // line breaks, trailing characters, other alphabets in the text form
		t, _ := src.MarshalText()
		b, text = badText(scrub(t), c.Rnd), true
	}
	in := w.lend("encoding", b)
	into := c.Rnd.Intn(2) == 0
	if apk {
		if w.ak[x.D-1] == nil {
			into = false
		}
		if into || text {
			g := w.ak[x.D-1]
			if !into {
				g = &bls.Apk{PublicKey: &bls.PublicKey{}}
			}
			var err error
			if text {
				err = g.UnmarshalText(in)
			} else {
				err = g.Unmarshal(in)
			}
			if err == nil {
				w.ak[x.D-1] = g
			}
			return err
		}
		g, err := bls.UnmarshalApk(in)
		if err == nil {
			w.ak[x.D-1] = g
		}
		return err
	}
	if w.pk[x.D-1] == nil {
		into = false
	}
	if into || text {
		g := w.pk[x.D-1]
		if !into {
			g = &bls.PublicKey{}
		}
		var err error
		if text {
			err = g.UnmarshalText(in)
		} else {
			err = g.Unmarshal(in)
		}
		if err == nil {
			w.pk[x.D-1] = g
		}
		return err
	}
	g, err := bls.UnmarshalPk(in)
	if err == nil {
		w.pk[x.D-1] = g
	}
	return err
}

func (w *blsWorld) sigEnc(x blsArgs) []byte {
	src := w.sg[x.S-1]
	switch x.F {
	case "raw", "draw":
		return scrub(src.Marshal())
	case "comp", "dcomp":
		return scrub(src.Compress())
	}
	return badSig(x.F, scrub(src.Marshal()), scrub(src.Compress()), w.c.Rnd)
}

// compare projects the whole store and compares it with the specification's
func (w *blsWorld) compare(s blsStep, store string, slot int, dec bool) {
	c, f := w.c, w.f
	diff := func(st string, i int, got, want []byte) {
		tag := "frame"
		if st == store && i+1 == slot {
			tag = "value"
			if dec {
				tag = "roundtrip"
			}
			if !s.Ok {
				tag = "frame"
			}
		}
		c.Fail(tag, w.step, "after %s %s: %s %d is %s, the specification says %s", s.Kd, s.X, st, i+1, hexs(got), hexs(want))
	}
	var b []byte
	for i, v := range s.Post.Pk {
		if len(v) > 0 {
			if b = w.pk[i].Marshal(); !bytes.Equal(b, f.PkBytes(v)) {
				diff("pk", i, b, f.PkBytes(v))
			}
		}
	}
	for i, v := range s.Post.Ak {
		if len(v) > 0 {
			if b = w.ak[i].Marshal(); !bytes.Equal(b, f.AkBytes(v)) {
				diff("ak", i, b, f.AkBytes(v))
			}
		}
	}
	for i, v := range s.Post.Sg {
		if len(v) > 0 {
			if b = w.sg[i].Marshal(); !bytes.Equal(b, f.SgBytes(v)) {
				diff("sg", i, b, f.SgBytes(v))
			}
		}
	}
	for i, v := range s.Post.Us {
		if len(v) > 0 {
			if b = w.us[i].Marshal(); !bytes.Equal(b, f.UsBytes(v)) {
				diff("us", i, b, f.UsBytes(v))
			}
		}
	}
}

// cases of BLSCases.tla ---------------------------------------------------

type blsCase struct {
	T, V string
	Ks   []int
	Ts   []struct{ W, K, M int }
	Ms   []int
	M    int
	Ok   bool
}

func replayBLSCase(c *Ctx, raw json.RawMessage) {
	var x blsCase
	jsonOrDie(raw, &x)
	nk, nm := 3, 4
	for _, m := range x.Ms {
		for nm < m {
			nm *= 4
		}
	}
	f := getBlsFix(c.Seed, c.Rnd.Intn(nFam), nk, nm)
	if f.bad != "" {
		c.Fail("base", 0, "%s", f.bad)
	}
	if c.Idx%16 == 0 {
		if e := f.checkBase(); e != "" {
			c.Fail("base", 0, "%s", e)
		}
	}
	c.Steps++
	var err error
	p := try(func() {
		if x.T == "multi" {
			apk := c.aggKeys(f, x.Ks)
			sig := c.aggSigs(f, x)
			err = bls.Verify(apk, append([]byte{}, f.msg[x.M-1]...), sig)
			// the same in the plain form, for a single key
			if len(x.Ks) == 1 && len(x.Ts) == 1 && x.Ts[0].W == x.Ts[0].K {
				u, e := bls.UnsafeSign(f.sk[x.Ts[0].K-1], f.msg[x.Ts[0].M-1])
				if e != nil {
					c.Fail("result", 0, "UnsafeSign: %v", e)
				}
				if e = bls.VerifyUnsafe(f.pk[x.Ks[0]-1], f.msg[x.M-1], u); (e == nil) != x.Ok {
					c.Fail("result", 0, "VerifyUnsafe: the specification says ok=%v, the library answered %v", x.Ok, e)
				}
			}
			return
		}
		ms := make([][]byte, len(x.Ms))
		for i, m := range x.Ms {
			ms[i] = append([]byte{}, f.msg[m-1]...)
		}
		switch x.V {
		case "apk", "apk2":
			succ := func(k int) int { return k%2 + 1 } // NK is 2 here
			as := make([]*bls.Apk, len(x.Ks))
			for i, k := range x.Ks {
				if as[i] = bls.NewApk(f.pk[k-1]); x.V == "apk2" {
					if e := as[i].Aggregate(f.pk[succ(k)-1]); e != nil {
						c.Fail("result", 0, "Aggregate: %v", e)
					}
				}
			}
			var sig *bls.Signature
			addSig := func(k, m int) {
				s, e := bls.Sign(f.sk[k-1], f.pk[k-1], f.msg[m-1])
				if e != nil {
					c.Fail("result", 0, "Sign: %v", e)
				}
				if sig == nil {
					sig = s
				} else {
					sig.Aggregate(s)
				}
			}
			for _, t := range x.Ts {
				addSig(t.K, t.M)
				if x.V == "apk2" {
					addSig(succ(t.K), t.M)
				}
			}
			err = bls.VerifyBatch(as, ms, sig)
		default:
			us := make([]*bls.UnsafeSignature, len(x.Ts))
			for i, t := range x.Ts {
				u, e := bls.UnsafeSign(f.sk[t.K-1], f.msg[t.M-1])
				if e != nil {
					c.Fail("result", 0, "UnsafeSign: %v", e)
				}
				us[i] = u
			}
			sum, e := bls.UnsafeBatch(us...)
			if e != nil {
				c.Fail("result", 0, "UnsafeBatch: %v", e)
			}
			if x.V == "plain" {
				ps := make([]*bls.PublicKey, len(x.Ks))
				for i, k := range x.Ks {
					ps[i] = f.pk[k-1]
				}
				err = bls.VerifyUnsafeBatch(ps, ms, sum)
			} else {
				ps := make([]*bn256.G2, len(x.Ks))
				for i, k := range x.Ks {
					ps[i] = f.pkP[k-1]
				}
				err = bls.VerifyCompressed(ps, ms, sum.Compress(), x.V == "rep")
			}
		}
	})
	if p != nil {
		c.Fail("panic", 0, "%s panicked: %v", raw, p)
	}
	if (err == nil) != x.Ok {
		c.Fail("result", 0, "case %s: the specification says ok=%v, the library answered %v", raw, x.Ok, err)
	}
}

// aggKeys aggregates the keys in the given order, by one of the ways the API offers
func (c *Ctx) aggKeys(f *blsFix, ks []int) *bls.Apk {
	var a *bls.Apk
	var err error
	way := c.Rnd.Intn(4)
	switch way {
	case 0:
		ps := make([]*bls.PublicKey, len(ks))
		for i, k := range ks {
			ps[i] = f.pk[k-1]
		}
		a, err = bls.AggregateApk(ps)
	case 1, 2:
		a = bls.NewApk(f.pk[ks[0]-1])
		for _, k := range ks[1:] {
			if way == 1 {
				err = a.Aggregate(f.pk[k-1])
			} else {
				err = a.AggregateBytes(f.pk[k-1].Marshal())
			}
			if err != nil {
				break
			}
		}
	case 3: // through the wire between the steps, in reverse order
		a = bls.NewApk(f.pk[ks[len(ks)-1]-1])
		for i := len(ks) - 2; i >= 0; i-- {
			if a, err = bls.UnmarshalApk(a.Marshal()); err != nil {
				break
			}
			if err = a.Aggregate(f.pk[ks[i]-1]); err != nil {
				break
			}
		}
	}
	if err != nil {
		c.Fail("value", 0, "aggregating keys %v (way %d): %v", ks, way, err)
	}
	vs := make([]pkVal, len(ks))
	for i, k := range ks {
		v := make(pkVal, len(f.pk))
		v[k-1] = 1
		vs[i] = v
	}
	if b := a.Marshal(); !bytes.Equal(b, f.AkBytes(vs)) {
		c.Fail("value", 0, "aggregated key of %v (way %d) is %s, the specification says %s", ks, way, hexs(b), hexs(f.AkBytes(vs)))
	}
	return a
}

func (c *Ctx) aggSigs(f *blsFix, x blsCase) *bls.Signature {
	ts := x.Ts
	one := func(i int) *bls.Signature {
		t := ts[i]
		s, err := bls.Sign(f.sk[t.K-1], f.pk[t.W-1], f.msg[t.M-1])
		if err != nil {
			c.Fail("result", 0, "Sign: %v", err)
		}
		return s
	}
	way := c.Rnd.Intn(5)
	s := one(0)
	var err error
	switch way {
	case 0:
		for i := 1; i < len(ts); i++ {
			s.Aggregate(one(i))
		}
	case 1:
		for i := 1; i < len(ts) && err == nil; i++ {
			if i%2 == 0 {
				err = s.AggregateBytes(one(i).Marshal())
			} else {
				err = s.AggregateBytes(one(i).Compress())
			}
		}
	case 2:
		for i := 1; i < len(ts) && err == nil; i++ {
			var u *bls.UnsafeSignature
			if u, err = bls.UnsafeSign(f.sk[ts[i].K-1], f.msg[ts[i].M-1]); err == nil {
				err = s.Add(f.pk[ts[i].W-1], u)
			}
		}
	case 3: // pairwise
		l := []*bls.Signature{s}
		for i := 1; i < len(ts); i++ {
			l = append(l, one(i))
		}
		for len(l) > 1 {
			var n []*bls.Signature
			for i := 0; i < len(l); i += 2 {
				if i+1 < len(l) {
					n = append(n, l[i].Copy().Aggregate(l[i+1]))
				} else {
					n = append(n, l[i])
				}
			}
			l = n
		}
		s = l[0]
	case 4: // in reverse
		s = one(len(ts) - 1)
		for i := len(ts) - 2; i >= 0; i-- {
			s = one(i).Aggregate(s)
		}
	}
	if err != nil {
		c.Fail("value", 0, "aggregating signatures (way %d): %v", way, err)
	}
	want := make([]sTerm, len(ts))
	for i, t := range ts {
		v := make(pkVal, len(f.pk))
		v[t.W-1] = 1
		want[i] = sTerm{W: v, K: t.K, M: t.M}
	}
	if b := s.Marshal(); !bytes.Equal(b, f.SgBytes(want)) {
		c.Fail("value", 0, "sum of signatures %v (way %d) is %s, the specification says %s", ts, way, hexs(b), hexs(f.SgBytes(want)))
	}
	return s
}

var _ = fmt.Sprint
