package main

import (
	"bytes"
	"encoding/json"
	"math/rand"

	"github.com/dusk-network/dusk-crypto/mlsag"
)

type mkey struct {
	B   string
	Sub []string
}
type mbSig struct {
	Ring [][]mkey
	M    string
	Im   string
	Ok   bool
}
type mbStep struct {
	Op, B, A, Pt, S, M, F string
	K, L, P, G, H, N      int
	Ls                    []int
	R                     []mkey
	Ok                    bool
}
type mbRun struct {
	Init string
	Log  []json.RawMessage
	Ks   [][]mkey
	Sigs []mbSig
}

type mbWorld struct {
	c     *Ctx
	f     *mbFix
	pr    []*mlsag.DualKey
	ks    []mlsag.PubKeys
	wks   [][]point
	arr   []byte
	buf   []byte
	want  string // what the buffer holds
	sigs  []*mlsag.Signature
	ims   []point
	snap  [][]byte
	spoil []bool
	tried map[int]bool
	step  int
}

// mbFix gives the names of the model a meaning
type mbFix struct {
	sec map[string]scalar
	pt  map[string]point
	msg map[string][]byte
}

func newMbFix(seed int64, fam int) *mbFix {
	r := rand.New(rand.NewSource(seed*31 + int64(fam)))
	f := &mbFix{sec: map[string]scalar{"0": sInt(0)}, pt: map[string]point{"id": pZero()}, msg: map[string][]byte{"": nil}}
	for i := 1; i <= 9; i++ {
		n := string(rune('0' + i))
		f.sec["s"+n] = rscalar(r)
		f.pt["s"+n] = pBase(f.sec["s"+n])
		f.pt["d"+n] = pBase(rscalar(r))
		f.pt["p"+n] = pRand(r)
	}
	f.pt["p3"] = f.pt["d2"] // subtracting it gives the identity
	for i, m := range messages(fam, 4, r) {
		f.msg["m"+string(rune('1'+i))] = m
	}
	return f
}

func (f *mbFix) key(k mkey) point {
	p := f.pt[k.B]
	for _, s := range k.Sub {
		p = pSub(p, f.pt[s])
	}
	return p
}

func encodeAll(g *mlsag.Signature) []byte {
	var b bytes.Buffer
	err := g.Encode(&b, true)
	if err != nil {
		b.WriteString(err.Error())
	}
	b.Write(g.Msg)
	return b.Bytes()
}

func (w *mbWorld) fill(m string) {
	b := w.f.msg[m]
	for i := range w.arr {
		w.arr[i] = 0xee
	}
	copy(w.arr, b)
	w.buf, w.want = w.arr[:len(b)], m
}

func (w *mbWorld) callerIntact() {
	if !bytes.Equal(w.buf, w.f.msg[w.want]) {
		w.c.Fail("caller", w.step, "the caller's message was changed")
	}
	for i := len(w.buf); i < len(w.arr); i++ {
		if w.arr[i] != 0xee {
			w.c.Fail("caller", w.step, "something was written behind the caller's message")
		}
	}
	for k := range w.ks {
		ps, err := pointsOf(w.ks[k])
		if err != nil || keyBytes(ps) != keyBytes(w.wks[k]) {
			w.c.Fail("caller", w.step, "key set %d of the caller was changed", k+1)
		}
	}
	for i, g := range w.sigs {
		if !w.spoil[i] && !bytes.Equal(encodeAll(g), w.snap[i]) {
			w.c.Fail("issued", w.step, "signature %d changed after it was issued", i+1)
		}
	}
}

func replayMlsagBuild(c *Ctx, raw json.RawMessage) {
	var run mbRun
	jsonOrDie(raw, &run)
	w := &mbWorld{c: c, tried: map[int]bool{}, f: newMbFix(c.Seed, c.Idx%nFam)}
	max := 0
	for _, m := range w.f.msg {
		if len(m) > max {
			max = len(m)
		}
	}
	w.arr = make([]byte, max+16)
	w.fill("m1")
	for i := 0; i < 9; i++ {
		w.pr = append(w.pr, mlsag.NewDualKey())
	}
	for range run.Ks {
		w.ks = append(w.ks, mlsag.PubKeys{})
		w.wks = append(w.wks, nil)
	}
	if run.Init == "rich" {
		w.ks[0] = pubKeysOf([]point{w.f.pt["d1"], w.f.pt["d2"]})
		w.wks[0] = []point{w.f.pt["d1"], w.f.pt["d2"]}
		w.pr[0].AddDecoy(w.ks[0])
		w.pr[0].SetPrimaryKey(w.f.sec["s1"])
		w.pr[0].SetCommToZero(w.f.sec["s2"])
		w.pr[0].SetMsg(w.f.msg["m1"])
	}
	for i, l := range run.Log {
		var s mbStep
		jsonOrDie(l, &s)
		w.step = i
		c.Steps++
		if p := try(func() { w.do(s, run.Sigs) }); p != nil {
			c.Fail("panic", i, "%s panicked: %v", l, p)
		}
		w.callerIntact()
	}
	w.step = len(run.Log)
	for i, g := range w.sigs {
		if w.spoil[i] {
			continue
		}
		if ok, err := g.Verify([]point{w.ims[i]}); !ok || err != nil {
			c.Fail("issued", w.step, "signature %d does not verify any more: %v", i+1, err)
		}
	}
}

// members compares the number of members of a prover that has not proved yet (then it is that of its decoys)
func (w *mbWorld) members(s mbStep) {
	if n := w.pr[s.P-1].LenMembers(); !w.tried[s.P] && n != s.N {
		w.c.Fail("ring", w.step, "a prover counts %d members after %d decoys", n, s.N)
	}
}

func (w *mbWorld) do(s mbStep, sigs []mbSig) {
	c, f := w.c, w.f
	switch s.Op {
	case "ksadd":
		w.ks[s.K-1].AddPubKey(f.pt[s.B])
		w.wks[s.K-1] = append(append([]point{}, w.wks[s.K-1]...), f.pt[s.B])
	case "ksnew":
		ps := []point{f.pt[s.A], f.pt[s.B]}
		w.ks[s.K-1], w.wks[s.K-1] = pubKeysOf(ps), ps
	case "decoy":
		w.pr[s.P-1].AddDecoy(w.ks[s.K-1])
		w.members(s)
	case "decoys":
		var l []mlsag.PubKeys
		for _, k := range s.Ls {
			l = append(l, w.ks[k-1])
		}
		w.pr[s.P-1].AddDecoys(l)
		w.members(s)
	case "redecoy": // the very value in the signature
		var want []point
		for _, k := range s.R {
			want = append(want, f.key(k))
		}
		found := false
		for _, k := range w.sigs[s.G-1].PubKeys {
			ps, err := pointsOf(k)
			if err == nil && keyBytes(ps) == keyBytes(want) {
				w.pr[s.P-1].AddDecoy(k)
				found = true
				break
			}
		}
		if !found {
			c.Fail("ring", w.step, "signature %d has lost a member", s.G)
		}
		w.members(s)
	case "sub":
		w.pr[s.P-1].SubCommToZero(f.pt[s.Pt])
	case "setprim", "setcomm":
		var k point
		if s.Op == "setprim" {
			k = w.pr[s.P-1].SetPrimaryKey(f.sec[s.S])
		} else {
			k = w.pr[s.P-1].SetCommToZero(f.sec[s.S])
		}
		want := pBase(f.sec[s.S])
		if !k.Equals(&want) {
			c.Fail("retkey", w.step, "setting a secret returned another public key")
		}
	case "setmsg":
		w.pr[s.P-1].SetMsg(w.buf)
	case "fill":
		w.fill(s.M)
	case "newprover":
		w.pr[s.P-1] = mlsag.NewDualKey()
		delete(w.tried, s.P)
	case "prove":
		w.tried[s.P] = true
		g, im, err := w.pr[s.P-1].Prove()
		if !s.Ok {
			if err == nil {
				c.Fail("refuse", w.step, "Prove did not refuse missing secrets or members with another number of keys")
			}
			return
		}
		if err != nil {
			c.Fail("complete", w.step, "Prove failed: %v", err)
		}
		w.sigs, w.ims, w.spoil = append(w.sigs, g), append(w.ims, im), append(w.spoil, false)
		w.snap = append(w.snap, encodeAll(g))
		e := sigs[len(w.sigs)-1]
		if !bytes.Equal(g.Msg, f.msg[e.M]) {
			c.Fail("ring", w.step, "the signature is over another message than the one set")
		}
		o, err := fromMlsag(g, []point{im})
		if err != nil {
			c.Fail("ring", w.step, "the signature can not be encoded: %v", err)
		}
		var ring [][]point
		for _, m := range e.Ring {
			var ps []point
			for _, k := range m {
				ps = append(ps, f.key(k))
			}
			ring = append(ring, ps)
		}
		if d := sameMembers(o.keys, ring); d != "" {
			c.Fail("ring", w.step, "%s", d)
		}
		want := image(f.sec[e.Im])
		if !im.Equals(&want) {
			c.Fail("image", w.step, "the key image is not that of the primary key set")
		}
		if ok, err := g.Verify([]point{im}); !ok || err != nil {
			c.Fail("complete", w.step, "an honest signature does not verify: %v %v", ok, err)
		}
	case "spoil":
		g := w.sigs[s.G-1]
		w.spoil[s.G-1] = true
		switch s.F {
		case "msg":
			if len(g.Msg) == 0 {
				g.Msg = []byte{1}
			} else {
				for i := range g.Msg {
					g.Msg[i] ^= 0x81
				}
			}
		case "keys":
			for i := range g.PubKeys {
				g.PubKeys[i] = pubKeysOf([]point{pBase(rscalar(c.Rnd)), pBase(rscalar(c.Rnd))})
			}
		case "addkey":
			for i := range g.PubKeys {
				g.PubKeys[i].AddPubKey(pZero())
			}
		}
	case "check":
		ok, _ := w.sigs[s.G-1].Verify([]point{w.ims[s.H-1]})
		if ok && !s.Ok {
			c.Fail("accept", w.step, "signature %d verifies with the key image of %d, or after having been changed", s.G, s.H)
		}
		if !ok && s.Ok {
			c.Fail("issued", w.step, "signature %d does not verify with the key image of %d", s.G, s.H)
		}
	default:
		panic("op " + s.Op)
	}
}
