package main

import (
	"encoding/binary"
	"hash/crc32"
	"math/bits"
)

// Reference implementations, written from RFC 7693, FIPS 202 and the xxHash specification.

var b2iv = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}
var b2sigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}}

func refBlake2b(size int, msg []byte) []byte {
	h := b2iv
	h[0] ^= 0x01010000 ^ uint64(size)
	n := 0
	rest := msg
	for {
		var m [16]uint64
		var blk [128]byte
		k := copy(blk[:], rest)
		rest = rest[k:]
		n += k
		last := len(rest) == 0
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(blk[8*i:])
		}
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], b2iv[:])
		v[12] ^= uint64(n)
		if last {
			v[14] = ^v[14]
		}
		g := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for r := 0; r < 12; r++ {
			s := b2sigma[r%10]
			g(0, 4, 8, 12, m[s[0]], m[s[1]])
			g(1, 5, 9, 13, m[s[2]], m[s[3]])
			g(2, 6, 10, 14, m[s[4]], m[s[5]])
			g(3, 7, 11, 15, m[s[6]], m[s[7]])
			g(0, 5, 10, 15, m[s[8]], m[s[9]])
			g(1, 6, 11, 12, m[s[10]], m[s[11]])
			g(2, 7, 8, 13, m[s[12]], m[s[13]])
			g(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
		if last {
			break
		}
	}
	out := make([]byte, 64)
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return out[:size]
}

func keccakF(a *[25]uint64) {
	rc := uint64(1)
	lfsr := func() uint64 {
		var c uint64
		for j := uint(0); j < 7; j++ {
			if rc&1 == 1 {
				c |= 1 << (uint(1<<j) - 1)
			}
			rc <<= 1
			if rc&0x100 != 0 {
				rc ^= 0x171
			}
		}
		return c
	}
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			i := x + 5*y
			cur, a[i] = a[i], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
		}
		for y := 0; y < 25; y += 5 {
			var r [5]uint64
			copy(r[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[x+y] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		a[0] ^= lfsr()
	}
}

func refSha3(size int, msg []byte) []byte {
	rate := 200 - 2*size
	m := append(append([]byte{}, msg...), 0x06)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] |= 0x80
	var a [25]uint64
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		keccakF(&a)
	}
	out := make([]byte, 200)
	for i := range a {
		binary.LittleEndian.PutUint64(out[8*i:], a[i])
	}
	return out[:size]
}

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
	xp3 uint64 = 1609587929392839161
	xp4 uint64 = 9650029242287828579
	xp5 uint64 = 2870177450012600261
)

func refXX64(b []byte) uint64 {
	n := uint64(len(b))
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*xp2, 31) * xp1 }
	var h uint64
	if len(b) >= 32 {
		p1, p2 := xp1, xp2
		v := [4]uint64{p1 + p2, p2, 0, -p1}
		for len(b) >= 32 {
			for i := range v {
				v[i] = round(v[i], binary.LittleEndian.Uint64(b[8*i:]))
			}
			b = b[32:]
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for i := range v {
			h = (h^round(0, v[i]))*xp1 + xp4
		}
	} else {
		h = xp5
	}
	h += n
	for ; len(b) >= 8; b = b[8:] {
		h = bits.RotateLeft64(h^round(0, binary.LittleEndian.Uint64(b)), 27)*xp1 + xp4
	}
	if len(b) >= 4 {
		h = bits.RotateLeft64(h^uint64(binary.LittleEndian.Uint32(b))*xp1, 23)*xp2 + xp3
		b = b[4:]
	}
	for _, c := range b {
		h = bits.RotateLeft64(h^uint64(c)*xp5, 11) * xp1
	}
	h ^= h >> 33
	h *= xp2
	h ^= h >> 29
	h *= xp3
	h ^= h >> 32
	return h
}

// xx64Of is a message of eight bytes with a given xxHash
func xx64Of(h uint64) []byte { return xx64After(nil, h) }

// crcAfter are four bytes which give, after the message p, a given CRC-32
func crcAfter(p []byte, want uint32) []byte {
	var rev [256]byte
	for i, v := range crc32.IEEETable {
		rev[v>>24] = byte(i)
	}
	// the registers that lead to the wanted one
	var idx [4]byte
	x := ^want
	for k := 3; k >= 0; k-- {
		idx[k] = rev[x>>24]
		x = (x ^ crc32.IEEETable[idx[k]]) << 8
	}
	// ... and the bytes that go through them
	out := make([]byte, 4)
	x = ^crc32.ChecksumIEEE(p)
	for k := range out {
		out[k] = byte(x) ^ idx[k]
		x = crc32.IEEETable[idx[k]] ^ x>>8
	}
	if crc32.ChecksumIEEE(append(append([]byte{}, p...), out...)) != want {
		panic("crcAfter is wrong")
	}
	return out
}

// xx64After are eight bytes which give, after p (of eight bytes or none), a given xxHash
func xx64After(p []byte, want uint64) []byte {
	h := want
	inv := func(p uint64) uint64 { // of an odd number, by Newton's method
		x := p
		for i := 0; i < 6; i++ {
			x *= 2 - p*x
		}
		return x
	}
	h ^= h >> 32
	h *= inv(xp3)
	h ^= h>>29 ^ h>>58
	h *= inv(xp2)
	h ^= h >> 33
	h = bits.RotateLeft64((h-xp4)*inv(xp1), -27)
	acc := xp5
	acc += uint64(len(p) + 8)
	if len(p) == 8 {
		v := binary.LittleEndian.Uint64(p) * xp2
		acc = bits.RotateLeft64(acc^bits.RotateLeft64(v, 31)*xp1, 27)*xp1 + xp4
	}
	k := h ^ acc
	k = bits.RotateLeft64(k*inv(xp1), -31) * inv(xp2)
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], k)
	if refXX64(append(append([]byte{}, p...), b[:]...)) != want {
		panic("xx64After is wrong")
	}
	return b[:]
}

func refDigest(alg string, msg []byte) []byte {
	switch alg {
	case "b256":
		return refBlake2b(32, msg)
	case "b512":
		return refBlake2b(64, msg)
	case "s256":
		return refSha3(32, msg)
	case "s512":
		return refSha3(64, msg)
	}
	var out [8]byte
	binary.BigEndian.PutUint64(out[:], refXX64(msg))
	return out[:]
}
