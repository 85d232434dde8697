package main

import (
	"bytes"
	"encoding/json"

	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
)

func init() { components["transcript"] = replayTranscript }

type trCall struct {
	O string
	T int
	Q []int
	C []int
}

func trBytes(seed int64, q []int) []byte {
	out := []byte{}
	for _, i := range q {
		if i > 0 {
			out = append(out, chunk(seed, 1+(i*5+2)%24)...)
			out = append(out, byte(i))
			if i == 4 { // a long one
				out = append(out, bytes.Repeat(out[len(out)-1:], []int{20000, 100, 3000, 100, 100, 100, 100, 1000}[seed%8])...)
			}
		}
	}
	return out
}

func replayTranscript(c *Ctx, raw json.RawMessage) {
	var h struct {
		Log []trCall
		Res [][]int
	}
	jsonOrDie(raw, &h)
	ts0 := c.Seed*8000 + int64(c.Idx)
	ts := map[int]*fiatshamir.HashCacher{}
	var inputs [][]byte // the caller's buffers
	var keep [][]byte
	var res [][]byte
	var wants [][]byte
	for step, x := range h.Log {
		c.Steps++
		t := ts[x.T]
		if t == nil {
			t = &fiatshamir.HashCacher{}
			if c.Rnd.Intn(2) == 0 {
				t.Cache = []byte{}
			}
			ts[x.T] = t
		}
		want := trBytes(ts0, x.C)
		p := try(func() {
			switch x.O {
			case "append":
				var vals [][]byte
				for _, i := range x.Q {
					b := trBytes(ts0, []int{i})
					full := append(append([]byte{}, b...), 0xA5, 0xA5)
					vals = append(vals, full[:len(b)])
					inputs = append(inputs, full)
					keep = append(keep, append([]byte{}, full...))
				}
				t.Append(vals...)
			case "literal":
				ts[x.T] = &fiatshamir.HashCacher{Cache: trBytes(ts0, x.Q)}
				t = ts[x.T]
			case "result":
				r := t.Result()
				res = append(res, r)
				wants = append(wants, append([]byte{}, want...))
			case "derive":
				got := t.Derive()
				var ref scalar
				ref.Derive(want)
				if !got.Equals(&ref) {
					c.Fail("challenge", step, "the challenge is not that of the %d bytes appended", len(want))
				}
			case "clear":
				t.Clear()
			case "spoil": // the caller reuses its buffers
				for i := range inputs {
					if !bytes.Equal(inputs[i], keep[i]) {
						c.Fail("input", step, "a buffer of the caller was changed")
					}
					for k := range inputs[i] {
						inputs[i][k] ^= 0xff
					}
				}
				inputs, keep = nil, nil
			}
		})
		if p != nil {
			c.Fail("panic", step, "%s panicked: %v", x.O, p)
		}
		if got := t.Result(); !bytes.Equal(got, want) {
			c.Fail("content", step, "after %s the transcript holds %d bytes %s instead of %d bytes %s", x.O, len(got), hexs(got), len(want), hexs(want))
		}
		for i := range res {
			if !bytes.Equal(res[i], wants[i]) {
				c.Fail("result", step, "an earlier result changed with %s", x.O)
			}
		}
		for i := range inputs {
			if !bytes.Equal(inputs[i], keep[i]) {
				c.Fail("input", step, "a buffer of the caller was changed by %s", x.O)
			}
		}
	}
}
