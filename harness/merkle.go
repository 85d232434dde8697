package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/dusk-network/dusk-crypto/merkletree"
	"golang.org/x/crypto/sha3"
)

func init() {
	components["merkle"] = replayMerkle
	components["merklesize"] = replayMerkleSize
}

// mWorld gives the symbolic hashes of Merkle.tla a concrete meaning
type mWorld struct {
	c     *Ctx
	fam   int
	size  int
	arena []byte // all payload hashes lie next to each other in one array
	back  []byte
	hash  map[int][]byte
	memo  map[string][]byte
	errs  map[int]error
	val   map[int]int
	bad   map[int]bool
	pays  map[int]*mPay
	calls int
}

type mPay struct {
	w     *mWorld
	id    int
	fixed int // a value that does not change, for the payloads used as queries
}

func (p *mPay) CalculateHash() ([]byte, error) {
	p.w.calls++
	if p.w.bad[p.id] {
		// a failing payload may return garbage along with its error
		if p.w.fam%2 == 0 {
			return p.w.hash[1], p.w.errs[p.id]
		}
		return nil, p.w.errs[p.id]
	}
	v := p.fixed
	if v == 0 {
		v = p.w.val[p.id]
	}
	return p.w.h(v), nil
}

const arenaVals = 12

func newMWorld(c *Ctx, vals int) *mWorld {
	w := &mWorld{c: c, fam: c.Idx % 8, hash: map[int][]byte{}, memo: map[string][]byte{}, errs: map[int]error{}, val: map[int]int{}, bad: map[int]bool{}, pays: map[int]*mPay{}}
	r := rand.New(rand.NewSource(c.Seed + int64(c.Idx)*31))
	w.size = []int{32, 32, 64, 20, 32, 31, 33, 32}[w.fam]
	if vals < arenaVals {
		vals = arenaVals
	}
	// the slices handed out have the following ones as their spare capacity
	w.arena = make([]byte, (vals+4)*(w.size+8))
	r.Read(w.arena)
	o := 0
	for v := 1; v <= vals; v++ {
		n := w.size
		switch w.fam {
		case 4: // hashes that differ in the last bit only
			copy(w.arena[o:], make([]byte, n))
			w.arena[o+n-1], w.arena[o+n-2] = byte(v), byte(v>>8)
		case 5: // different lengths
			n = w.size - v%7
		case 7: // hashes that differ in the first bytes only
			copy(w.arena[o:], make([]byte, n))
			w.arena[o], w.arena[o+1] = byte(v), byte(v>>8)
		}
		w.hash[v] = w.arena[o : o+n]
		o += n
	}
	w.back = append([]byte{}, w.arena...)
	return w
}

func (w *mWorld) h(v int) []byte {
	if v == 9999 || v > 5000 {
		if w.hash[v] == nil {
			w.hash[v] = sha3n([]byte(fmt.Sprint("other", v)))
		}
	}
	return w.hash[v]
}

func sha3n(b []byte) []byte { h := sha3.Sum256(b); return h[:] }

// intact checks that nobody wrote into what the payloads handed out
func (w *mWorld) intact(step int, what string) {
	if !bytes.Equal(w.arena, w.back) {
		w.c.Fail("write", step, "%s wrote into the array of a hash that a payload handed out", what)
	}
}

// term evaluates a symbolic hash
func (w *mWorld) term(s string) []byte {
	b, rest := w.parse(s)
	if rest != "" {
		panic("bad term " + s)
	}
	return b
}

func (w *mWorld) parse(s string) ([]byte, string) {
	if s[0] == '(' {
		depth, i := 0, 0
		for ; i < len(s); i++ {
			if s[i] == '(' {
				depth++
			} else if s[i] == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		key := s[:i+1]
		if b, ok := w.memo[key]; ok {
			return b, s[i+1:]
		}
		a, r := w.parse(s[1:])
		b, r := w.parse(r)
		if r[0] != ')' {
			panic("bad term " + s)
		}
		h := sha3n(append(append([]byte{}, a...), b...))
		w.memo[key] = h
		return h, r[1:]
	}
	i := strings.IndexByte(s, '.')
	if s[0] == 'x' {
		return w.memo[s[:i]], s[i+1:]
	}
	n, err := strconv.Atoi(s[:i])
	if err != nil {
		panic(err)
	}
	return w.h(n), s[i+1:]
}

func (w *mWorld) pay(id int) *mPay {
	if w.pays[id] == nil {
		w.pays[id] = &mPay{w: w, id: id}
		w.errs[id] = fmt.Errorf("payload %d cannot be hashed", id)
	}
	return w.pays[id]
}

type mTree struct {
	Lv [][]struct {
		P, L, R int
		H       string
		Dup     bool
	}
	Root string
}

func (w *mWorld) list(ps []int) []merkletree.Payload {
	out := make([]merkletree.Payload, len(ps))
	for i, p := range ps {
		out[i] = w.pay(p)
	}
	return out
}

func isErr(got, want error) bool {
	return got == want || errors.Is(got, want) || strings.Contains(got.Error(), want.Error())
}

func replayMerkle(c *Ctx, raw json.RawMessage) {
	var x struct {
		H []struct {
			Kd, Ans string
			X       struct {
				Ps            []int
				P, V, L, I, J int
				On, B         bool
				F             string
			}
			Errs []int
			Tree mTree
		}
		Val0 []int
	}
	jsonOrDie(raw, &x)
	w := newMWorld(c, 0)
	for i, v := range x.Val0 {
		w.val[i+1] = v
		w.pay(i + 1)
	}
	var t *merkletree.Tree
	var nodes [][]*merkletree.Node // the nodes of the tree by level, as in the model
	for si, s := range x.H {
		step := si + 1
		c.Steps++
		var ok bool
		var err error
		built := false
		tamper := func() []byte {
			b := make([]byte, 32)
			w.c.Rnd.Read(b)
			w.memo["x"+fmt.Sprint(step)] = b
			return b
		}
		p := try(func() {
			switch s.Kd {
			case "new":
				pl := w.list(s.X.Ps)
				var n *merkletree.Tree
				if n, err = merkletree.NewTree(pl); err == nil {
					t, built = n, true
				}
				w.sameList(step, pl, s.X.Ps)
				ok = err == nil
			case "using":
				pl := w.list(s.X.Ps)
				err = t.RebuildTreeUsing(pl)
				w.sameList(step, pl, s.X.Ps)
				ok, built = err == nil, err == nil
			case "rebuild":
				err = t.RebuildTree()
				ok, built = err == nil, err == nil
			case "set":
				w.val[s.X.P], ok = s.X.V, true
			case "fail":
				w.bad[s.X.P], ok = s.X.On, true
			case "troot":
				ok = true
				old := append([]byte{}, t.MerkleRoot...)
				if len(old) == 0 {
					old = []byte{1}
				}
				switch s.X.F {
				case "flip":
					old[c.Rnd.Intn(len(old))] ^= 1 << uint(c.Rnd.Intn(8))
				case "nil":
					old = nil
				case "short":
					old = old[:c.Rnd.Intn(len(old))]
				case "long":
					old = append(old, 0)
				case "other":
					old = sha3n(old)
				}
				w.memo["x"+fmt.Sprint(step)] = old
				t.MerkleRoot = old
			case "tleaf":
				nodes[0][s.X.I-1].Hash, ok = tamper(), true
			case "tnode":
				nodes[s.X.L-1][s.X.I-1].Hash, ok = tamper(), true
			case "swapkids":
				n := nodes[s.X.L-1][s.X.I-1]
				n.Left, n.Right, ok = n.Right, n.Left, true
			case "dupkid":
				n := nodes[s.X.L-1][s.X.I-1]
				n.Left, ok = n.Right, true
			case "swapdata":
				a, b := t.Leaves[s.X.I-1], t.Leaves[s.X.J-1]
				a.Data, b.Data, ok = b.Data, a.Data, true
			case "vtree":
				ok, err = merkletree.VerifyTree(t)
			case "vcontent":
				q := &mPay{w: w, id: 1000, fixed: s.X.V}
				w.errs[1000] = errors.New("the queried payload cannot be hashed")
				w.bad[1000] = s.X.B
				ok, err = t.VerifyContent(q)
			default:
				panic("unknown kind " + s.Kd)
			}
		})
		if p != nil {
			c.Fail("panic", step, "%s %+v panicked: %v", s.Kd, s.X, p)
		}
		ans := fmt.Sprint(ok)
		if err != nil {
			ans = "err"
		}
		tag := map[string]string{"new": "build", "using": "build", "rebuild": "build", "vtree": "vtree", "vcontent": "vcontent"}[s.Kd]
		if ans != s.Ans && s.Ans != "any" {
			if s.Ans == "err" || ans == "err" {
				tag += "err"
			}
			c.Fail(tag, step, "%s %+v: the specification says %s, the library answered %v, %v", s.Kd, s.X, s.Ans, ok, err)
		}
		if s.Ans == "err" {
			found := len(s.Errs) == 0 && s.Kd != "vcontent"
			for _, e := range s.Errs {
				found = found || isErr(err, w.errs[e])
			}
			if s.Kd == "vcontent" && s.X.B {
				found = found || isErr(err, w.errs[1000])
			}
			if !found {
				c.Fail("errvalue", step, "%s %+v: the error of the failing payload was expected, the library answered %v", s.Kd, s.X, err)
			}
		}
		w.intact(step, s.Kd)
		if built {
			// learn the nodes of the new tree, going down from its root
			nodes = make([][]*merkletree.Node, len(s.Tree.Lv))
			top := len(s.Tree.Lv)
			for l := range nodes {
				nodes[l] = make([]*merkletree.Node, len(s.Tree.Lv[l]))
			}
			var walk func(n *merkletree.Node, l, i int)
			walk = func(n *merkletree.Node, l, i int) {
				if n == nil {
					c.Fail("build", step, "the tree has no node at level %d, position %d", l+1, i+1)
				}
				if nodes[l][i] == nil {
					nodes[l][i] = n
				}
				if n.IsLeaf != (l == 0) {
					c.Fail("build", step, "node at level %d, position %d: IsLeaf is %v", l+1, i+1, n.IsLeaf)
				}
				if l > 0 {
					walk(n.Left, l-1, s.Tree.Lv[l][i].L-1)
					walk(n.Right, l-1, s.Tree.Lv[l][i].R-1)
				}
			}
			walk(t.Root, top-1, 0)
		}
		if len(s.Tree.Lv) == 0 {
			continue
		}
		// project the whole tree
		tag = "frame"
		if built {
			tag = "build"
		} else if c.Tags != nil && !c.Tags[tag] {
			continue // what verification does to the tree matters here only for the verdicts that follow
		}
		if !bytes.Equal(t.MerkleRoot, w.term2(s.Tree.Root)) {
			c.Fail(tag, step, "after %s %+v the merkle root is %s, the specification says %s = %s", s.Kd, s.X, hexs(t.MerkleRoot), s.Tree.Root, hexs(w.term2(s.Tree.Root)))
		}
		if len(t.Leaves) != len(s.Tree.Lv[0]) {
			c.Fail(tag, step, "after %s %+v there are %d leaves, the specification says %d", s.Kd, s.X, len(t.Leaves), len(s.Tree.Lv[0]))
		}
		for i, lf := range s.Tree.Lv[0] {
			g := t.Leaves[i]
			if g.Data != merkletree.Payload(w.pay(lf.P)) || g.IsDup != lf.Dup || !g.IsLeaf || g != nodes[0][i] {
				c.Fail(tag, step, "after %s %+v leaf %d is not the one of payload %d (dup %v)", s.Kd, s.X, i+1, lf.P, lf.Dup)
			}
		}
		for l := range s.Tree.Lv {
			for i, n := range s.Tree.Lv[l] {
				if !bytes.Equal(nodes[l][i].Hash, w.term2(n.H)) {
					c.Fail(tag, step, "after %s %+v the hash at level %d, position %d is %s, the specification says %s = %s", s.Kd, s.X, l+1, i+1, hexs(nodes[l][i].Hash), n.H, hexs(w.term2(n.H)))
				}
			}
		}
	}
}

func (w *mWorld) term2(s string) []byte {
	if s[0] == 'x' {
		return w.memo[s[:strings.IndexByte(s, '.')]]
	}
	return w.term(s)
}

func (w *mWorld) sameList(step int, pl []merkletree.Payload, ps []int) {
	for i, p := range ps {
		if pl[i] != merkletree.Payload(w.pay(p)) {
			w.c.Fail("write", step, "the caller's list of payloads was changed")
		}
	}
}

func replayMerkleSize(c *Ctx, raw json.RawMessage) {
	var x struct {
		N, I          int
		Pat, Op, Root string
		Vs, Now       []int
		Ok            bool
		Up            int
		Members       []struct {
			J  int
			Ok bool
		}
	}
	jsonOrDie(raw, &x)
	w := newMWorld(c, x.N+2)
	ps := make([]int, x.N)
	for i := range ps {
		ps[i] = i + 1
		w.val[i+1] = x.Vs[i]
	}
	var t *merkletree.Tree
	var err error
	var ok bool
	p := try(func() {
		c.Steps++
		if c.Rnd.Intn(2) == 0 {
			t, err = merkletree.NewTree(w.list(ps))
		} else { // a tree of another size that is rebuilt
			if t, err = merkletree.NewTree(w.list(ps[:1+c.Rnd.Intn(len(ps))])); err == nil {
				if err = t.RebuildTreeUsing(w.list(ps)); err == nil {
					err = t.RebuildTree()
				}
			}
		}
		if err != nil {
			c.Fail("build", 0, "%d payloads: %v", x.N, err)
		}
		w.intact(0, "building a tree")
		if x.Root != "" && !bytes.Equal(t.MerkleRoot, w.term(x.Root)) {
			c.Fail("build", 0, "the root of %d payloads (%s) is %s, the specification says %s", x.N, x.Pat, hexs(t.MerkleRoot), hexs(w.term(x.Root)))
		}
		if len(t.Leaves) != x.N+x.N%2 {
			c.Fail("build", 0, "%d payloads give %d leaves", x.N, len(t.Leaves))
		}
		for i, v := range x.Now {
			w.val[i+1] = v
		}
		switch x.Op {
		case "troot":
			t.MerkleRoot = append([]byte{}, t.MerkleRoot...)
			t.MerkleRoot[c.Rnd.Intn(len(t.MerkleRoot))] ^= 1 << uint(c.Rnd.Intn(8))
		case "tnode": // the hash of the ancestor so many levels up
			nd := t.Leaves[x.I-1]
			for k := 0; k < x.Up; k++ {
				nd = nd.Parent
			}
			nd.Hash = append([]byte{}, nd.Hash...)
			nd.Hash[c.Rnd.Intn(len(nd.Hash))] ^= 1 << uint(c.Rnd.Intn(8))
		}
		c.Steps++
		if ok, err = merkletree.VerifyTree(t); err != nil || ok != x.Ok {
			c.Fail("vtree", 1, "%d payloads (%s), %s at %d: VerifyTree must be %v, the library answered %v, %v", x.N, x.Pat, x.Op, x.I, x.Ok, ok, err)
		}
		w.intact(1, "VerifyTree")
		c.Steps++
		for _, m := range x.Members {
			q := &mPay{w: w, id: 1000, fixed: x.Vs[m.J-1]}
			if ok, err = t.VerifyContent(q); err != nil || ok != m.Ok {
				c.Fail("vcontent", 1, "%d payloads, %s %d levels above leaf %d: VerifyContent of payload %d must be %v, the library answered %v, %v", x.N, x.Op, x.Up, x.I, m.J, m.Ok, ok, err)
			}
		}
		if len(x.Members) > 0 {
			return
		}
		// an intact tree contains each of its payloads; one that was tampered with does not contain the new value
		q := &mPay{w: w, id: 1000}
		if x.Op == "none" {
			for i, v := range x.Vs {
				if i > 40 && i < x.N-3 && i%7 != 0 {
					continue
				}
				q.fixed = v
				if ok, err = t.VerifyContent(q); err != nil || !ok {
					c.Fail("vcontent", 1, "%d payloads (%s): payload %d is not found: %v, %v", x.N, x.Pat, i+1, ok, err)
				}
			}
			q.fixed = 7777
			if ok, err = t.VerifyContent(q); err != nil || ok {
				c.Fail("vcontent", 1, "%d payloads (%s): a stranger is found: %v, %v", x.N, x.Pat, ok, err)
			}
		} else if !x.Ok && x.Pat == "distinct" {
			q.fixed = x.Now[x.I-1]
			if ok, err = t.VerifyContent(q); err != nil || ok {
				c.Fail("vcontent", 1, "%d payloads (%s), %s at %d: VerifyContent accepts the payload put there: %v, %v", x.N, x.Pat, x.Op, x.I, ok, err)
			}
		}
		w.intact(2, "VerifyContent")
	})
	if p != nil {
		c.Fail("panic", 0, "%s: panic %v", raw[:100], p)
	}
}
