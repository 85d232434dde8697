package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/dusk-network/dusk-crypto/bls"
)

// Histories of the library, recorded for the trace specifications. The drivers below know nothing of what the answers
// should be: they make calls and write down what came back. Values appear as classes: two encodings have the same number
// iff they are the same bytes.

func init() { recorders["bls"] = recordBLS }

type classes map[string]int

func (c classes) of(b []byte) int {
	k, ok := c[string(b)]
	if !ok {
		k = len(c) + 1
		c[string(b)] = k
	}
	return k
}

func emitHistory(out *bufio.Writer, h interface{}) {
	b, err := json.Marshal(h)
	must(err)
	_, err = out.Write(append(b, '\n'))
	must(err)
}

// libPanic is a panic of the library
type libPanic string

type mapx map[string]interface{}

const (
	recK, recM             = 6, 4
	recP, recA, recS, recU = 10, 5, 5, 5
)

func recordBLS(seed int64, n int, tier string, out *bufio.Writer) {
	recordAll(n, out, func(i int) interface{} { return recordOneBLS(seed, i, tier) })
}

// recordAll records n histories at once and writes them in order
func recordAll(n int, out *bufio.Writer, one func(int) interface{}) {
	hs := make([]interface{}, n)
	var wg sync.WaitGroup
	next := int64(-1)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				hs[i] = one(i)
			}
		}()
	}
	wg.Wait()
	for _, h := range hs {
		emitHistory(out, h)
	}
}

func recordOneBLS(seed int64, idx int, tier string) (hist []mapx) {
	hist = []mapx{}
	r := rand.New(rand.NewSource(seed*15485863 + int64(idx)))
	c := &Ctx{Idx: idx, Seed: seed, Rnd: r, Extra: map[string]int64{}, Tier: tier}
	f := getBlsFix(seed, idx%4, recK, recM)
	w := &blsWorld{c: c, f: f, pk: make([]*bls.PublicKey, recP), ak: make([]*bls.Apk, recA), sg: make([]*bls.Signature, recS), us: make([]*bls.UnsafeSignature, recU)}
	cls := classes{}
	// a panic ends the history, with a step the specification does not allow
	defer func() {
		if p := recover(); p != nil {
			what, ours := p.(libPanic)
			if c.fail != nil {
				what, ours = libPanic(c.fail.What), true
			}
			if !ours {
				panic(p)
			}
			hist = append(hist, mapx{"kd": "panic", "x": mapx{"d": 0}, "ok": false, "what": what, "cls": mapx{"pk": []int{}, "ak": []int{}, "sg": []int{}, "us": []int{}}})
		}
	}()
	for k := 0; k < recK; k++ {
		pk, err := bls.UnmarshalPk(f.pkB[k])
		if err != nil {
			panic(libPanic("the encoding of a fresh key is refused: " + err.Error()))
		}
		w.pk[k] = pk
	}
	call := func(kd string, x mapx) bool {
		var a blsArgs
		b, _ := json.Marshal(x)
		jsonOrDie(b, &a)
		w.step++
		_, _, _, err, p := w.exec(kd, a)
		if p != nil {
			panic(libPanic(fmt.Sprintf("%s %v panicked: %v", kd, x, p)))
		}
		w.returned()
		st := mapx{"kd": kd, "x": x, "ok": err == nil, "what": ""}
		pk, ak, sg, us := make([]int, recP), make([]int, recA), make([]int, recS), make([]int, recU)
		if p := try(func() {
			for i, o := range w.pk {
				if o != nil {
					pk[i] = cls.of(o.Marshal())
				}
			}
			for i, o := range w.ak {
				if o != nil {
					ak[i] = cls.of(o.Marshal())
				}
			}
			for i, o := range w.sg {
				if o != nil {
					sg[i] = cls.of(o.Marshal())
				}
			}
			for i, o := range w.us {
				if o != nil {
					us[i] = cls.of(o.Marshal())
				}
			}
		}); p != nil {
			panic(libPanic(fmt.Sprintf("Marshal after %s %v panicked: %v", kd, x, p)))
		}
		st["cls"] = mapx{"pk": pk, "ak": ak, "sg": sg, "us": us}
		hist = append(hist, st)
		return err == nil
	}
	live := func(n int, ok func(int) bool) []int {
		var l []int
		for i := 0; i < n; i++ {
			if ok(i) {
				l = append(l, i+1)
			}
		}
		return l
	}
	pick := func(l []int) int { return l[r.Intn(len(l))] }
	ps := func() []int { return live(recP, func(i int) bool { return w.pk[i] != nil }) }
	as := func() []int { return live(recA, func(i int) bool { return w.ak[i] != nil }) }
	ss := func() []int { return live(recS, func(i int) bool { return w.sg[i] != nil }) }
	us := func() []int { return live(recU, func(i int) bool { return w.us[i] != nil }) }
	// with something in it: signatures may cancel
	something := func(b []byte) bool { return len(bytes.Trim(b, "\x00")) > 0 }
	ss1 := func() []int {
		return live(recS, func(i int) bool { return w.sg[i] != nil && something(w.sg[i].Marshal()) })
	}
	us1 := func() []int {
		return live(recU, func(i int) bool { return w.us[i] != nil && something(w.us[i].Marshal()) })
	}
	one := func(n int) int { return 1 + r.Intn(n) }
	list := func(l []int, lo, hi int) []int {
		out := []int{}
		for k := lo + r.Intn(hi-lo+1); k > 0; k-- {
			out = append(out, pick(l))
		}
		return out
	}
	goodSig := []string{"raw", "comp", "dcomp"}
	badSigs := []string{"trail", "short", "empty", "off", "noncanon", "cflag", "cshort", "coff", "cnoncanon"}
	badPks := []string{"tbad", "trail", "short", "flag", "empty", "ident", "off", "noncanon", "twist"}
	// a committee signs together, in any order and by any of the calls
	session := func() {
		ks := list(ps()[:recK], 1, 6)
		m := one(recM)
		a, s, u := one(recA), one(recS), one(recU)
		if r.Intn(2) == 0 {
			call("aggapks", mapx{"d": a, "ps": ks})
		} else {
			call("newapk", mapx{"d": a, "p": ks[0]})
			for _, k := range ks[1:] {
				if r.Intn(3) == 0 {
					call("apkaggb", mapx{"d": a, "p": k, "f": "raw"})
				} else {
					call("apkagg", mapx{"d": a, "p": k})
				}
			}
		}
		order := r.Perm(len(ks))
		if r.Intn(6) == 0 {
			order = order[:len(order)-1] // somebody is missing
		}
		first := true
		for _, i := range order {
			k := ks[i]
			if first {
				call("sign", mapx{"d": s, "k": k, "p": k, "m": m})
				first = false
				continue
			}
			switch r.Intn(3) {
			case 0:
				call("usign", mapx{"d": u, "k": k, "m": m})
				call("sigadd", mapx{"d": s, "p": k, "u": u})
			default:
				t := s%recS + 1
				call("sign", mapx{"d": t, "k": k, "p": k, "m": m})
				if r.Intn(2) == 0 {
					call("sigagg", mapx{"d": s, "s": t})
				} else {
					call("sigaggb", mapx{"d": s, "s": t, "f": goodSig[r.Intn(2)]})
				}
			}
		}
		if w.sg[s-1] == nil {
			return
		}
		call("verify", mapx{"a": a, "m": m, "s": s})
		if r.Intn(2) == 0 {
			call("verify", mapx{"a": a, "m": one(recM), "s": s})
			call("vbatch", mapx{"as": []int{a}, "ms": []int{m}, "s": s})
		}
	}
	// a batch of different signers
	batch := func() {
		n := 1 + r.Intn(4)
		ms := r.Perm(recM)[:n]
		for i := range ms {
			ms[i]++
		}
		if r.Intn(4) == 0 {
			ms[r.Intn(n)] = one(recM)
		}
		u := one(recU)
		t := u%recU + 1
		var ks []int
		for i, m := range ms {
			k := one(recK)
			ks = append(ks, k)
			if i == 0 {
				call("usign", mapx{"d": u, "k": k, "m": m})
			} else {
				call("usign", mapx{"d": t, "k": k, "m": m})
				call("uagg", mapx{"d": u, "a": t, "b": u})
			}
		}
		call("vub", mapx{"ps": ks, "ms": ms, "u": u})
		call("vcomp", mapx{"ps": ks, "ms": ms, "u": u, "rep": r.Intn(2) == 0, "f": "comp"})
		if r.Intn(2) == 0 {
			j := r.Perm(n)
			ks2, ms2 := make([]int, n), make([]int, n)
			for i := range j {
				ks2[i], ms2[i] = ks[j[i]], ms[j[i]]
			}
			call("vub", mapx{"ps": ks2, "ms": ms2, "u": u})
			call("vub", mapx{"ps": ks2, "ms": ms, "u": u})
		}
	}
	steps := 30
	if tier == "thorough" {
		steps = 60
	}
	session()
	batch()
	for len(hist) < steps {
		if len(ss1()) == 0 {
			session()
			continue
		}
		if len(us1()) == 0 {
			batch()
			continue
		}
		switch r.Intn(18) {
		case 16:
			s := pick(ss1())
			d := s
			if r.Intn(2) == 0 {
				d = pick(ss())
			}
			call("sigsub", mapx{"d": d, "s": s, "f": goodSig[r.Intn(2)]})
			call("sigagg", mapx{"d": d, "s": pick(ss())})
			call("sigagg", mapx{"d": d, "s": pick(ss())})
		case 17:
			if r.Intn(2) == 0 {
				call("signeg", mapx{"d": one(recS), "s": pick(ss1()), "f": goodSig[r.Intn(3)]})
				continue
			}
			s, d := pick(us1()), one(recU)
			call("uneg", mapx{"d": d, "s": s, "f": []string{"raw", "dcomp"}[r.Intn(2)]})
			call("uagg", mapx{"d": one(recU), "a": d, "b": s})
		case 0, 1:
			session()
		case 2:
			batch()
		case 3:
			call("pkagg", mapx{"d": recK + one(recP-recK), "a": pick(ps()[:recK]), "b": pick(ps()[:recK])})
		case 4:
			fm := []string{"raw", "text"}[r.Intn(2)]
			if r.Intn(2) == 0 {
				fm = badPks[r.Intn(len(badPks))]
			}
			call("pkdec", mapx{"d": recK + one(recP-recK), "p": pick(ps()), "f": fm})
		case 5:
			call("apkcopy", mapx{"d": one(recA), "s": pick(as())})
		case 6:
			fm := []string{"raw", "text"}[r.Intn(2)]
			if r.Intn(2) == 0 {
				fm = badPks[r.Intn(len(badPks))]
			}
			call("apkdec", mapx{"d": one(recA), "s": pick(as()), "f": fm})
		case 7:
			call("apkagg", mapx{"d": pick(as()), "p": pick(ps())})
		case 8:
			call("sigcopy", mapx{"d": one(recS), "s": pick(ss())})
		case 9:
			fm := goodSig[r.Intn(3)]
			if r.Intn(2) == 0 {
				fm = badSigs[r.Intn(len(badSigs))]
			}
			call("sigdec", mapx{"d": one(recS), "s": pick(ss1()), "f": fm})
		case 10:
			call("sigaggb", mapx{"d": pick(ss()), "s": pick(ss1()), "f": badSigs[r.Intn(len(badSigs))]})
		case 11:
			call("sign", mapx{"d": one(recS), "k": one(recK), "p": pick(ps()), "m": one(recM)})
		case 12:
			call("ubatch", mapx{"d": one(recU), "l": list(us(), 0, 3)})
		case 13:
			call("vu", mapx{"p": pick(ps()), "m": one(recM), "u": pick(us())})
		case 14:
			call("verify", mapx{"a": pick(as()), "m": one(recM), "s": pick(ss())})
			call("vbatch", mapx{"as": list(as(), 0, 3), "ms": list([]int{1, 2, 3, 4}, 0, 3), "s": pick(ss())})
		case 15:
			fm := []string{"raw", "dcomp"}[r.Intn(2)]
			if r.Intn(2) == 0 {
				fm = badSigs[r.Intn(len(badSigs))]
			}
			call("udec", mapx{"d": one(recU), "s": pick(us1()), "f": fm})
		}
	}
	return hist
}
