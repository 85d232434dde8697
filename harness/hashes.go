package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	stdhash "hash"
	"math/rand"
	"sync"

	"github.com/OneOfOne/xxhash"
	dhash "github.com/dusk-network/dusk-crypto/hash"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

func init() {
	components["hash"] = replayHash
	components["hashpar"] = replayHashPar
}

// lengths around the block sizes of all the hashes (32, 72, 128, 136)
var chunkLens = []int{0, 1, 3, 4, 5, 7, 8, 9, 31, 32, 33, 36, 63, 64, 65, 71, 72, 73, 127, 128, 129, 135, 136, 137, 143, 144, 145, 255, 256, 257, 1000, 4096, 70000, 300001}

// special hashes: a checksum of zero, of ones, with zeros around it, that reads the same backwards
var chunkXX = []uint64{0, 1, 1<<64 - 1, 0xffffffff00000000, 1 << 32, 1 << 56, 1 << 63, 0x0100000100000000, 0x00ff00ff12345678, 0x8000000080000000}

func chunk(seed int64, i int) []byte {
	if i > len(chunkLens) {
		h := chunkXX[(i-len(chunkLens)-1)%len(chunkXX)]
		b := xx64Of(h)
		if refXX64(b) != h {
			panic("xx64Of is wrong")
		}
		return b
	}
	b := make([]byte, chunkLens[(i-1)%len(chunkLens)])
	r := rand.New(rand.NewSource(seed*31 + int64(i)))
	r.Read(b)
	if i%7 == 0 {
		for k := range b {
			b[k] = byte(0xff * (i / 7 % 2))
		}
	}
	return b
}

type digest struct {
	Alg string
	C   []int
	Ok  bool
}
type hashCall struct {
	O    string
	Alg  string
	C, B int
	D, K int
	W    string
	N    int
	R    json.RawMessage
}

func (d digest) content(seed int64) []byte {
	var m []byte
	for _, i := range d.C {
		m = append(m, chunk(seed, i)...)
	}
	return m
}

func helper(alg string) func([]byte) ([]byte, error) {
	switch alg {
	case "b256":
		return dhash.Blake2b256
	case "b512":
		return dhash.Blake2b512
	case "s256":
		return dhash.Sha3256
	case "s512":
		return dhash.Sha3512
	}
	return dhash.Xxhash
}

func newHash(alg string) stdhash.Hash {
	switch alg {
	case "b256":
		h, _ := blake2b.New256(nil)
		return h
	case "b512":
		h, _ := blake2b.New512(nil)
		return h
	case "s256":
		return sha3.New256()
	case "s512":
		return sha3.New512()
	}
	return xxhash.New64()
}

// brokenHash fails to take the bytes
type brokenHash struct {
	stdhash.Hash
	err error
}

func (b brokenHash) Write(p []byte) (int, error) { return 0, b.err }

type issued struct {
	got, want []byte
	dead      bool
}

func replayHash(c *Ctx, raw json.RawMessage) {
	var h struct{ Log []hashCall }
	jsonOrDie(raw, &h)
	objs := map[int]stdhash.Hash{}
	bufs := map[int][]byte{}
	var res []*issued
	var entropies [][]byte
	// the caller's buffer, with something behind it that is none of the hash's business
	buf := func(i int) []byte {
		if bufs[i] == nil {
			b := chunk(c.Seed, i)
			full := append(append([]byte{}, b...), 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5)
			bufs[i] = full[:len(b)]
		}
		return bufs[i]
	}
	pull := func(i int) {
		b := bufs[i]
		if b == nil {
			return
		}
		if !bytes.Equal(b, chunk(c.Seed, i)) || !bytes.Equal(b[len(b):cap(b)][:8], bytes.Repeat([]byte{0xA5}, 8)) {
			c.Fail("input", -1, "an input buffer of %d bytes was changed", len(b))
		}
	}
	for step, x := range h.Log {
		c.Steps++
		var d digest
		jsonOrDie(x.R, &d)
		var got []byte
		var err error
		p := try(func() {
			switch x.O {
			case "help":
				got, err = helper(x.Alg)(buf(x.C))
			case "new":
				objs[x.B] = newHash(x.Alg)
			case "perform":
				got, err = dhash.PerformHash(objs[x.B], buf(x.C))
			case "write":
				objs[x.B].Write(buf(x.C))
			case "reset":
				objs[x.B].Reset()
			case "sum":
				var s uint32
				s, err = dhash.Checksum(buf(x.C))
				want := binary.BigEndian.Uint32(refDigest("xx", d.content(c.Seed)))
				if err == nil && s != want {
					c.Fail("digest", step, "Checksum of %d bytes is %08x, not %08x", len(buf(x.C)), s, want)
				}
			case "cmp":
				full := refDigest("xx", chunk(c.Seed, x.C))
				w := binary.BigEndian.Uint32(full)
				switch x.W {
				case "plus":
					w++
				case "swapped":
					w = binary.LittleEndian.Uint32(full)
				case "zero":
					w = 0
				case "tail":
					w = binary.BigEndian.Uint32(full[4:])
				}
				if got := dhash.CompareChecksum(buf(x.C), w); got != (d.Ok || w == binary.BigEndian.Uint32(full)) {
					c.Fail("digest", step, "CompareChecksum of %d bytes with the %s value gives %v", len(buf(x.C)), x.W, got)
				}
			case "cmpof":
				w := binary.BigEndian.Uint32(refDigest("xx", chunk(c.Seed, x.D)))
				want := d.Ok || w == binary.BigEndian.Uint32(refDigest("xx", chunk(c.Seed, x.C)))
				if got := dhash.CompareChecksum(buf(x.C), w); got != want {
					c.Fail("digest", step, "CompareChecksum of %d bytes with the checksum of %d others gives %v", len(buf(x.C)), len(chunk(c.Seed, x.D)), got)
				}
			case "fail":
				bad := errors.New("cannot take it")
				r, e := dhash.PerformHash(brokenHash{newHash("s256"), bad}, buf(x.C))
				if e == nil || r != nil {
					c.Fail("digest", step, "PerformHash returned (%x, %v) although the hash took nothing", r, e)
				}
			case "entropy":
				var b []byte
				b, err = dhash.RandEntropy(uint32(x.N))
				if err == nil {
					if len(b) != x.N {
						c.Fail("entropy", step, "%d bytes of entropy for %d", len(b), x.N)
					}
					entropies = append(entropies, b)
				}
			case "scribble":
				r := res[x.K-1]
				r.dead = true
				for i := range r.got {
					r.got[i] ^= 0x5a
				}
				if cap(r.got) > len(r.got) {
					e := r.got[len(r.got):cap(r.got)]
					for i := range e {
						e[i] = 0x77
					}
				}
			case "spoil":
				pull(x.C)
				b := buf(x.C)
				for i := range b {
					b[i] ^= 0xff
				}
				delete(bufs, x.C)
			}
		})
		if p != nil {
			c.Fail("panic", step, "%s panicked: %v", x.O, p)
		}
		if err != nil {
			c.Fail("digest", step, "%s failed: %v", x.O, err)
		}
		if x.O == "help" || x.O == "perform" {
			want := refDigest(d.Alg, d.content(c.Seed))
			if !bytes.Equal(got, want) {
				c.Fail("digest", step, "%s %s of %d bytes gives %s, not %s", x.O, d.Alg, len(d.content(c.Seed)), hexs(got), hexs(want))
			}
			res = append(res, &issued{got: got, want: want})
		}
		for i := range bufs {
			if len(bufs[i]) < 5000 || i == x.C {
				pull(i)
			}
		}
		for k, r := range res {
			if !r.dead && !bytes.Equal(r.got, r.want) {
				c.Fail("shared", step, "the result of an earlier call (%d) changed", k)
			}
		}
	}
	checkEntropy(c, entropies)
}

// fresh random bytes: no window of eight bytes is constant or occurs twice
func checkEntropy(c *Ctx, es [][]byte) {
	seen := map[uint64]bool{}
	for _, b := range es {
		for i := 0; i+8 <= len(b); i += 8 {
			w := binary.LittleEndian.Uint64(b[i:])
			if w == 0 || seen[w] {
				c.Fail("entropy", -1, "entropy of %d bytes holds %016x at %d, which is constant or was there before", len(b), w, i)
			}
			seen[w] = true
		}
		if n := len(b); n >= 8 {
			w := binary.BigEndian.Uint64(b[n-8:])
			if w == 0 {
				c.Fail("entropy", -1, "the last bytes of %d bytes of entropy are zero", n)
			}
		}
	}
}

// replayHashPar runs the calls of several histories at once
func replayHashPar(c *Ctx, raw json.RawMessage) {
	var hs struct{ Logs [][]hashCall }
	jsonOrDie(raw, &hs)
	var wg sync.WaitGroup
	bad := make([]string, len(hs.Logs))
	for t := range hs.Logs {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			sub := &Ctx{Idx: c.Idx, Seed: c.Seed, Rnd: rand.New(rand.NewSource(1)), Extra: map[string]int64{}}
			b, _ := json.Marshal(map[string]interface{}{"Log": hs.Logs[t]})
			runOne(replayHash, sub, b)
			if sub.fail != nil {
				bad[t] = sub.fail.What
			}
		}(t)
	}
	wg.Wait()
	for t := range bad {
		c.Steps += int64(len(hs.Logs[t]))
		if bad[t] != "" {
			c.Fail("concurrent", -1, "with %d histories at once: %s", len(bad), bad[t])
		}
	}
}
