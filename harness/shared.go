package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() { components["shared"] = replayShared }

type sharedCall struct {
	O   string
	I   int
	Res string
}

type sharedProg struct {
	Fam, From string
	Cold      bool
	Prog      [][]sharedCall
}

// sharedOps are the operations on one set of shared objects. Each returns its result in writing.
type sharedOps map[string]func() string

func okStr(ok bool) string {
	if ok {
		return "true"
	}
	return "false"
}
func hx(b []byte) string { return hex.EncodeToString(b) }
func errBool(err error) string {
	if err == nil {
		return "true"
	}
	return "false"
}
func hxe(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return hx(b)
}

// spare gives the slice more capacity than it has elements: an append to it writes into the shared array
func spareP(ps []point) []point {
	return append(make([]point, 0, len(ps)+4), ps...)
}
func spareS(ps []scalar) []scalar {
	return append(make([]scalar, 0, len(ps)+4), ps...)
}
func spareB(b []byte) []byte {
	return append(make([]byte, 0, len(b)+80), b...)
}

type fixedPay struct{ h []byte }

func (p fixedPay) CalculateHash() ([]byte, error) { return p.h, nil }

func replayShared(c *Ctx, raw json.RawMessage) {
	var p sharedProg
	jsonOrDie(raw, &p)
	worlds := map[int]sharedOps{}
	if p.Cold {
		c.coldStart(p, worlds)
	}
	for _, th := range p.Prog {
		for _, cl := range th {
			if worlds[cl.I] == nil {
				r := rand.New(rand.NewSource(c.Seed*7907 + int64(c.Idx*16+cl.I)))
				if e := try(func() { worlds[cl.I] = c.sharedWorld(p, cl.I, r) }); e != nil {
					c.Fail("panic", 0, "making the objects panicked: %v", e)
				}
			}
		}
	}
	reps := 2
	if p.Fam == "range" {
		reps = 1
	}
	got := make([][]string, len(p.Prog))
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for t := range p.Prog {
		ready.Add(1)
		done.Add(1)
		go func(t int) {
			defer done.Done()
			ready.Done()
			<-start
			for k := 0; k < reps; k++ {
				for _, cl := range p.Prog[t] {
					got[t] = append(got[t], callShared(worlds[cl.I], cl.O))
				}
			}
		}(t)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for t := range p.Prog {
		for k, g := range got[t] {
			cl := p.Prog[t][k%len(p.Prog[t])]
			c.Steps++
			want := cl.Res
			switch want {
			case "value":
				want = callShared(worlds[cl.I], cl.O)
				if len(want) > 5 && (want[:5] == "error" || want[:5] == "panic") {
					c.Fail("alone", t, "%s failed: %s", cl.O, want)
				}
			}
			if g != want {
				alone := callShared(worlds[cl.I], cl.O)
				if alone == g && cl.Res != "value" {
					c.Fail("alone", t, "%s gives %.200s, also alone; %.200s is right", cl.O, g, want)
				}
				c.Fail("result", t, "%s on shared objects gave %.200s at the same time as %s, alone it gives %.200s", cl.O, g, describe(p, t), alone)
			}
		}
	}
}

// coldStart makes the shared objects while others are being made: these are the first calls of the process
func (c *Ctx) coldStart(p sharedProg, worlds map[int]sharedOps) {
	made := make([]sharedOps, 3)
	errs := make([]interface{}, len(made))
	var wg sync.WaitGroup
	for k := range made {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() { errs[k] = recover() }()
			own := &Ctx{Idx: c.Idx, Seed: c.Seed + int64(100*k), Rnd: rand.New(rand.NewSource(c.Seed + int64(k))), Tags: c.Tags, Extra: map[string]int64{}, Tier: c.Tier}
			made[k] = own.sharedWorld(p, 1, rand.New(rand.NewSource(c.Seed*7907+int64(c.Idx*16+k))))
		}(k)
	}
	wg.Wait()
	for _, e := range errs {
		if _, ok := e.(diverged); e != nil && !ok {
			c.Fail("panic", 0, "making the objects, several at a time, panicked: %v", e)
		} else if e != nil {
			c.Fail("alone", 0, "making the objects failed")
		}
	}
	worlds[1] = made[0]
}

func describe(p sharedProg, but int) string {
	s := ""
	for t := range p.Prog {
		if t != but {
			for _, cl := range p.Prog[t] {
				s += cl.O + " "
			}
		}
	}
	return s
}

func callShared(w sharedOps, o string) (s string) {
	f := w[o]
	if f == nil {
		return "panic: no such operation " + o
	}
	if p := try(func() { s = f() }); p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return s
}

func (c *Ctx) sharedWorld(p sharedProg, i int, r *rand.Rand) sharedOps {
	switch p.Fam {
	case "bls":
		return c.sharedBLS(p.From == "dec", r)
	case "merkle":
		return c.sharedMerkle(p.From == "dec", i, r)
	case "mlsag":
		return c.sharedRing(p.From == "dec", i, r)
	case "ipa":
		return c.sharedIPA(i, r)
	}
	return c.sharedRange(p.From == "dec", i, r)
}

func (c *Ctx) need(err error) {
	if err != nil {
		c.Fail("alone", 0, "making the objects failed: %v", err)
	}
}

func (c *Ctx) sharedBLS(dec bool, r *rand.Rand) sharedOps {
	msg := make([]byte, 1+r.Intn(60))
	r.Read(msg)
	msg = spareB(msg)
	msg2 := spareB(append([]byte("other"), msg...))
	seed := r.Int63()
	gen := func(k int64) (*bls.PublicKey, *bls.SecretKey) {
		pk, sk, err := bls.GenKeyPair(rndReader{rand.New(rand.NewSource(seed + k))})
		c.need(err)
		return pk, sk
	}
	// the keys anew: equal objects on which nothing was called yet
	key1 := func() *bls.PublicKey {
		pk, _ := gen(1)
		return pk
	}
	key2 := func() *bls.PublicKey {
		pk, _ := gen(2)
		if !dec {
			// points as computations leave them
			pk = pk.Aggregate(key1())
		}
		return pk
	}
	_, sk1 := gen(1)
	_, sk2 := gen(2)
	apk, err := bls.AggregateApk([]*bls.PublicKey{key1(), key2()})
	c.need(err)
	apkb := bls.NewApk(key2())
	_ = apkb.Aggregate(key1())
	var sig, bsig *bls.Signature
	usign := func(m []byte) (*bls.UnsafeSignature, *bls.UnsafeSignature) {
		a, err := bls.UnsafeSign(sk1, m)
		c.need(err)
		b, err := bls.UnsafeSign(sk2, m)
		c.need(err)
		if !dec {
			b = bls.UnsafeAggregate(b, a)
		}
		return a, b
	}
	sign := func(m []byte) *bls.Signature {
		s, err := bls.Sign(sk1, key1(), m)
		c.need(err)
		_, b := usign(m)
		c.need(s.Add(key2(), b))
		return s
	}
	sig = sign(msg)
	bsig = sign(msg2).Aggregate(sign(msg))
	us1, _ := usign(msg)
	_, us2 := usign(msg2)
	ubatch, err := bls.UnsafeBatch(us1, us2)
	c.need(err)
	usig, usig2 := usign(msg)
	pk1, pk2 := key1(), key2()
	if dec {
		pk1, err = bls.UnmarshalPk(pk1.Marshal())
		c.need(err)
		pk2, err = bls.UnmarshalPk(pk2.Marshal())
		c.need(err)
		apk, err = bls.UnmarshalApk(apk.Marshal())
		c.need(err)
		sig, err = bls.UnmarshalSignature(sig.Marshal())
		c.need(err)
		u := &bls.UnsafeSignature{}
		c.need(u.Unmarshal(usig.Compress()))
		usig = u
	}
	// encodings of objects that are not shared
	sigB, apkB, pkB := spareB(sign(msg2).Compress()), spareB(bls.NewApk(key1()).Marshal()), spareB(bls.NewApk(key2()).Marshal())
	pks := append(make([]*bls.PublicKey, 0, 4), pk1, pk2)
	apks := append(make([]*bls.Apk, 0, 4), apk, apkb)
	msgs := append(make([][]byte, 0, 4), msg, msg2)
	usigs := append(make([]*bls.UnsafeSignature, 0, 4), usig, usig2)
	return sharedOps{
		"pkmarshal": func() string { return hx(pk1.Marshal()) + hx(pk2.Marshal()) },
		"pktext":    func() string { return hxe(pk2.MarshalText()) },
		"pkagg":     func() string { return hx(pk2.Aggregate(pk1).Marshal()) + hx(pk1.Aggregate(pk2).Marshal()) },
		"newapk":    func() string { return hx(bls.NewApk(pk2).Marshal()) },
		"aggapks": func() string {
			a, err := bls.AggregateApk(pks)
			if err != nil {
				return "error"
			}
			return hx(a.Marshal())
		},
		"apkmarshal": func() string { return hx(apk.Marshal()) },
		"apktext":    func() string { return hxe(apk.MarshalText()) },
		"apkpk": func() string {
			return hx(apk.PublicKey.Aggregate(pk2).Marshal()) + hx(pk1.Aggregate(apk.PublicKey).Marshal())
		},
		"apkcopy": func() string { return hx(apk.Copy().Marshal()) },
		"apkcopyagg": func() string {
			a := apk.Copy()
			if err := a.Aggregate(pk2); err != nil {
				return "error"
			}
			if err := a.AggregateBytes(pkB); err != nil {
				return "error"
			}
			return hx(a.Marshal())
		},
		"sign": func() string {
			s, err := bls.Sign(sk1, pk1, msg)
			if err != nil {
				return "error"
			}
			return hx(s.Marshal())
		},
		"usign": func() string {
			s, err := bls.UnsafeSign(sk1, msg)
			if err != nil {
				return "error"
			}
			return hx(s.Marshal())
		},
		"sigmarshal":  func() string { return hx(sig.Marshal()) },
		"sigcompress": func() string { return hx(sig.Compress()) },
		"sigcopy":     func() string { return hx(sig.Copy().Marshal()) },
		"sigcopyagg": func() string {
			s := sig.Copy()
			s.Aggregate(bsig)
			s.Aggregate(sig)
			if err := s.AggregateBytes(sigB); err != nil {
				return "error"
			}
			return hx(s.Marshal())
		},
		"sigadd": func() string {
			s := sig.Copy()
			if err := s.Add(pk2, usig2); err != nil {
				return "error"
			}
			return hx(s.Marshal())
		},
		"umarshal":  func() string { return hx(usig.Marshal()) + hx(usig2.Marshal()) },
		"ucompress": func() string { return hx(usig2.Compress()) },
		"uagg":      func() string { return hx(bls.UnsafeAggregate(usig, usig2).Marshal()) },
		"ubatch": func() string {
			s, err := bls.UnsafeBatch(usigs...)
			if err != nil {
				return "error"
			}
			return hx(s.Marshal())
		},
		"verify":     func() string { return errBool(bls.Verify(apk, msg, sig)) },
		"verifybad":  func() string { return errBool(bls.Verify(apk, msg2, sig)) },
		"vbatch":     func() string { return errBool(bls.VerifyBatch(apks, msgs, bsig)) },
		"vunsafe":    func() string { return errBool(bls.VerifyUnsafe(pk1, msg, usig)) + "" },
		"vunsafebad": func() string { return errBool(bls.VerifyUnsafe(pk2, msg2, usig2)) },
		"vubatch":    func() string { return errBool(bls.VerifyUnsafeBatch(pks, msgs, ubatch)) },
		"decode": func() string {
			a, err := bls.UnmarshalApk(apkB)
			if err != nil {
				return "error"
			}
			s, err := bls.UnmarshalSignature(sigB)
			if err != nil {
				return "error"
			}
			return hx(a.Marshal()) + hx(s.Marshal())
		},
	}
}

func (c *Ctx) sharedMerkle(rebuilt bool, i int, r *rand.Rand) sharedOps {
	n := 3 + i + r.Intn(5)
	mk := func() []merkletree.Payload {
		// neighbours in one array
		arena := make([]byte, 32*(n+2))
		r.Read(arena)
		pl := make([]merkletree.Payload, 0, n+2)
		for k := 0; k < n; k++ {
			pl = append(pl, fixedPay{arena[32*k : 32*k+32]})
		}
		return pl
	}
	pl := mk()
	tree, err := merkletree.NewTree(pl)
	c.need(err)
	bad, err := merkletree.NewTree(mk())
	c.need(err)
	if rebuilt {
		pl = mk()
		c.need(tree.RebuildTreeUsing(pl))
		c.need(bad.RebuildTree())
	}
	bad.Leaves[r.Intn(n)].Data = fixedPay{sha3n([]byte("tampered"))}
	which := r.Intn(n)
	ok := func(b bool, err error) string {
		if err != nil {
			return "error"
		}
		return okStr(b)
	}
	return sharedOps{
		"vtree":       func() string { return ok(merkletree.VerifyTree(tree)) },
		"vtreebad":    func() string { return ok(merkletree.VerifyTree(bad)) },
		"vcontent":    func() string { return ok(tree.VerifyContent(pl[which])) },
		"vcontentbad": func() string { return ok(tree.VerifyContent(fixedPay{sha3n([]byte("absent"))})) },
		"vnode":       func() string { return hxe(merkletree.VerifyNode(tree.Root)) },
		"nodehash": func() string {
			return hxe(merkletree.CalculateNodeHash(tree.Root)) + hxe(merkletree.CalculateNodeHash(tree.Leaves[which].Parent))
		},
		"newtree": func() string {
			t, err := merkletree.NewTree(pl)
			if err != nil {
				return "error"
			}
			return hx(t.MerkleRoot)
		},
		"root": func() string {
			s := hx(tree.MerkleRoot)
			for _, l := range tree.Leaves {
				s += hx(l.Hash)
			}
			return s
		},
	}
}

func (c *Ctx) sharedRing(dec bool, i int, r *rand.Rand) sharedOps {
	n := 1 + i
	msg := make([]byte, 10*i)
	r.Read(msg)
	msg = spareB(msg)
	xs := []scalar{rscalar(r), rscalar(r)}
	decoys := make([]mlsag.PubKeys, 0, n+3)
	mine := make([]mlsag.PubKeys, 0, n)
	var mixin []point
	for k := 0; k < n; k++ {
		ps := []point{pBase(rscalar(r)), pBase(rscalar(r))}
		decoys = append(decoys, pubKeysOf(ps))
		mine = append(mine, pubKeysOf(ps))
		mixin = append(mixin, ps[0])
	}
	mixin = spareP(mixin)
	proveWith := func(decoys []mlsag.PubKeys, sub bool) (*mlsag.Signature, point, error) {
		d := mlsag.NewDualKey()
		d.AddDecoys(decoys)
		if sub {
			d.SubCommToZero(mixin[0])
		}
		d.SetPrimaryKey(xs[0])
		d.SetCommToZero(xs[1])
		d.SetMsg(msg)
		return d.Prove()
	}
	prove := func(sub bool) (*mlsag.Signature, point, error) { return proveWith(decoys, sub) }
	// nothing is called on the shared objects before they are shared
	sig, im, err := proveWith(mine, false)
	c.need(err)
	other, _, err := proveWith(mine, false)
	c.need(err)
	third, _, err := proveWith(mine, false)
	c.need(err)
	if dec {
		sig = decodedMlsag(c, sig)
	}
	sig.Msg = spareB(sig.Msg)
	encoded := spareB(encodeAll(third))
	images := spareP([]point{im})
	wrong := spareP([]point{pRand(r)})
	bsig := blsag.Sign(msg, spareP(mixin), xs[0])
	enc := func(g *mlsag.Signature, keys bool) string {
		var b bytes.Buffer
		if err := g.Encode(&b, keys); err != nil {
			return "error: " + err.Error()
		}
		return hx(b.Bytes()) + hx(g.Msg)
	}
	good := func(sub bool) string {
		g, im, err := prove(sub)
		if err != nil {
			return err.Error()
		}
		if ok, err := g.Verify([]ristretto.Point{im}); !ok {
			return fmt.Sprint("not verified: ", err)
		}
		return "good"
	}
	return sharedOps{
		"mverify":       func() string { ok, _ := sig.Verify(images); return okStr(ok) },
		"mverifybad":    func() string { ok, _ := sig.Verify(wrong); return okStr(ok) },
		"mencode":       func() string { return enc(sig, true) },
		"mencodenokeys": func() string { return enc(sig, false) },
		"mequals":       func() string { return okStr(sig.Equals(*sig, true)) },
		"mequalsbad":    func() string { return okStr(sig.Equals(*other, true)) },
		"mkeys": func() string {
			s := ""
			for k := range sig.PubKeys {
				o := sig.PubKeys[k].OutputKey()
				s += fmt.Sprint(sig.PubKeys[k].Len(), hx(o.Bytes()))
				for _, d := range decoys {
					s += okStr(sig.PubKeys[k].Equals(d))
				}
			}
			return s
		},
		"mdecode": func() string {
			var g mlsag.Signature
			if err := g.Decode(bytes.NewReader(encoded), true); err != nil {
				return "error: " + err.Error()
			}
			return enc(&g, true)
		},
		"mprove":    func() string { return good(false) },
		"mprovesub": func() string { return good(true) },
		"mimage":    func() string { k := mlsag.CalculateKeyImage(xs[0], pBase(xs[0])); return hx(k.Bytes()) },
		"bverify":   func() string { return okStr(blsag.Verify(msg, bsig)) },
		"bverifybad": func() string {
			return okStr(blsag.Verify([]byte("something else"), bsig))
		},
		"bsign": func() string {
			if !blsag.Verify(msg, blsag.Sign(msg, mixin, xs[1])) {
				return "not verified"
			}
			return "good"
		},
	}
}

func decodedMlsag(c *Ctx, g *mlsag.Signature) *mlsag.Signature {
	var d mlsag.Signature
	c.need(d.Decode(bytes.NewReader(encodeAll(g)), true))
	d.Msg = g.Msg
	return &d
}

var rangePool = map[string][2]rangeproof.Proof{}
var rangePoolMu sync.Mutex

// freshRange gives copies of proofs on which nothing was ever called
func (c *Ctx) freshRange(v int) (a, b rangeproof.Proof) {
	key := fmt.Sprint(c.Seed, v)
	rangePoolMu.Lock()
	ps, ok := rangePool[key]
	rangePoolMu.Unlock()
	if !ok {
		for k := range ps {
			g, err := rangeproof.Prove([]scalar{sInt(int64(1000*v + k))}, false)
			c.need(err)
			ps[k] = g
		}
		rangePoolMu.Lock()
		if old, ok := rangePool[key]; ok {
			ps = old
		}
		rangePool[key] = ps
		rangePoolMu.Unlock()
	}
	for k := range ps {
		ps[k].V = append(ps[k].V[:0:0], ps[k].V...)
		ip := *ps[k].IPProof
		ip.L, ip.R = spareP(ip.L), spareP(ip.R)
		ps[k].IPProof = &ip
	}
	return ps[0], ps[1]
}

func (c *Ctx) sharedRange(dec bool, i int, r *rand.Rand) sharedOps {
	m := 2*i - 1
	var vals []scalar
	for k := 0; k < m; k++ {
		vals = append(vals, sInt(int64(r.Uint32())))
	}
	vals = spareS(vals)
	g, other := c.freshRange(c.Idx % 4)
	bad := other
	bad.A = pAdd(bad.A, pBase(sInt(1)))
	var eb bytes.Buffer
	_, enco := c.freshRange(c.Idx % 4)
	c.need(enco.Encode(&eb, true))
	encoded := spareB(eb.Bytes())
	if dec {
		var d rangeproof.Proof
		var b bytes.Buffer
		c.need(g.Encode(&b, true))
		c.need(d.Decode(&b, true))
		g = d
	}
	enc := func(g *rangeproof.Proof, com bool) string {
		var b bytes.Buffer
		if err := g.Encode(&b, com); err != nil {
			return "error: " + err.Error()
		}
		return hx(b.Bytes())
	}
	return sharedOps{
		"rverify":      func() string { ok, _ := rangeproof.Verify(g); return okStr(ok) },
		"rverifybad":   func() string { ok, _ := rangeproof.Verify(bad); return okStr(ok) },
		"rencode":      func() string { return enc(&g, true) },
		"rencodenocom": func() string { return enc(&g, false) },
		"requals":      func() string { return okStr(g.Equals(g, true)) },
		"requalsbad":   func() string { return okStr(g.Equals(other, false)) },
		"rdecode": func() string {
			var d rangeproof.Proof
			if err := d.Decode(bytes.NewReader(encoded), true); err != nil {
				return "error: " + err.Error()
			}
			return enc(&d, true)
		},
		"rcommits": func() string {
			s := ""
			for k := range g.V {
				var b bytes.Buffer
				if err := g.V[k].Encode(&b); err != nil {
					return "error: " + err.Error()
				}
				s += hx(b.Bytes()) + okStr(g.V[k].EqualValue(other.V[0])) + okStr(g.V[k].Equals(g.V[k]))
			}
			return s
		},
		"rprove": func() string {
			p, err := rangeproof.Prove(vals, false)
			if err != nil {
				return err.Error()
			}
			if ok, err := rangeproof.Verify(p); !ok {
				return fmt.Sprint("not verified: ", err)
			}
			return "good"
		},
	}
}

func (c *Ctx) sharedIPA(i int, r *rand.Rand) sharedOps {
	n := 4 * i
	if i > 2 {
		n = 16
	}
	G, H := spareP(ipaGens("chain", n, "g", r)), spareP(ipaGens("chain", n, "h", r))
	av, bv, f := spareS(ipaVec("rand", n, r)), spareS(ipaVec("rand", n, r)), spareS(ipaVec("rand", n, r))
	Q := pRand(r)
	P := ipaP(G, H, av, bv, f, Q)
	notP := pAdd(P, Q)
	ip, err := innerproduct.Generate(spareP(G), spareP(H), spareS(av), spareS(bv), spareS(f), Q)
	c.need(err)
	L, R := spareP(ip.L), spareP(ip.R)
	ip.L, ip.R = L, R
	ipEnc := func(p *innerproduct.Proof) string {
		var b bytes.Buffer
		if err := p.Encode(&b); err != nil {
			return "error: " + err.Error()
		}
		return hx(b.Bytes())
	}
	return sharedOps{
		"iverify":    func() string { return okStr(ip.Verify(G, H, L, R, f, Q, P, n)) },
		"iverifybad": func() string { return okStr(ip.Verify(G, H, L, R, f, Q, notP, n)) },
		"iscalars": func() string {
			a, b, s := ip.VerifScalars()
			o := ""
			for _, v := range [][]scalar{a, b, s} {
				for k := range v {
					o += hx(v[k].Bytes())
				}
			}
			return o
		},
		"iencode": func() string { return ipEnc(ip) },
		"iequals": func() string { return okStr(ip.Equals(*ip)) },
		"igenerate": func() string {
			p, err := innerproduct.Generate(G, H, av, bv, f, Q)
			if err != nil {
				return "error: " + err.Error()
			}
			return ipEnc(p)
		},
	}
}
