package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/dusk-network/dusk-crypto/bls"
)

func init() { components["blsgen"] = replayBLSGen }

// source is a stream of pseudo-random bytes in portions, failing after short bytes
type source struct {
	r       *rand.Rand
	portion int
	short   int
	gave    int
}

var errDry = errors.New("the source dried up")

func (s *source) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if s.portion > 0 && n > s.portion {
		n = s.portion
	}
	if s.short >= 0 && s.gave+n > s.short {
		n = s.short - s.gave
		if n <= 0 {
			return 0, errDry
		}
	}
	s.r.Read(b[:n])
	s.gave += n
	return n, nil
}

func replayBLSGen(c *Ctx, raw json.RawMessage) {
	var x struct {
		G []struct {
			Src, Portion, Short int
			Rewind, Ok          bool
			Pair                []int
		}
	}
	jsonOrDie(raw, &x)
	base := c.Rnd.Int63()
	streams := map[int]*source{}
	type pair struct {
		pk *bls.PublicKey
		sk *bls.SecretKey
		by []byte
	}
	got := map[string]pair{}
	byBytes := map[string]string{}
	msg := []byte(fmt.Sprintf("message %d", base))
	for i, g := range x.G {
		var r io.Reader
		if g.Src != 0 {
			s := streams[g.Src]
			if s == nil || g.Rewind {
				s = &source{r: rand.New(rand.NewSource(base + int64(g.Src)))}
				streams[g.Src] = s
			}
			s.portion, s.short = g.Portion, -1
			if !g.Ok {
				s.short = g.Short
				delete(streams, g.Src)
			}
			r = s
		}
		c.Steps++
		var k pair
		var err error
		if p := try(func() { k.pk, k.sk, err = bls.GenKeyPair(r) }); p != nil {
			c.Fail("panic", i, "GenKeyPair panicked: %v", p)
		}
		if (err == nil) != g.Ok {
			c.Fail("gen", i, "generation from a source that gives %d bytes (stream %d): error %v, expected success %v", g.Short, g.Src, err, g.Ok)
		}
		if err != nil {
			continue
		}
		if k.pk == nil || k.sk == nil {
			c.Fail("gen", i, "a generation that did not fail gave no pair")
		}
		k.by = k.pk.Marshal()
		name := fmt.Sprint(g.Pair)
		sig := bls.UnsafeSign
		if old, dup := got[name]; dup {
			if !bytes.Equal(old.by, k.by) {
				c.Fail("gen", i, "the same randomness gave a different pair")
			}
			a, e1 := sig(old.sk, msg)
			b, e2 := sig(k.sk, msg)
			if e1 != nil || e2 != nil || !bytes.Equal(a.Marshal(), b.Marshal()) {
				c.Fail("gen", i, "the same randomness gave a different secret")
			}
			continue
		}
		if other, dup := byBytes[string(k.by)]; dup {
			c.Fail("gen", i, "generations %s and %s gave the same key", other, name)
		}
		byBytes[string(k.by)] = name
		got[name] = k
	}
	// every pair verifies its own and no other's signature
	for a, p := range got {
		s, err := bls.Sign(p.sk, p.pk, msg)
		if err != nil {
			c.Fail("gen", len(x.G), "pair %s does not sign: %v", a, err)
		}
		for b, q := range got {
			err := bls.Verify(bls.NewApk(q.pk), msg, s)
			if (err == nil) != (a == b) {
				c.Fail("gen", len(x.G), "a signature of pair %s with the key of pair %s: error %v", a, b, err)
			}
		}
	}
}
