package main

import (
	"bufio"
	"errors"
	"fmt"
	"math/rand"

	"github.com/dusk-network/dusk-crypto/merkletree"
)

func init() {
	recorders["merkle"] = func(seed int64, n int, tier string, out *bufio.Writer) {
		recordAll(n, out, func(i int) interface{} { return recordOneMerkle(seed, i, tier) })
	}
}

const recPays, recVals = 20, 11

// levels lists the nodes of a tree by level and position, leaves first; what is not there is nil
func levels(t *merkletree.Tree) [][]*merkletree.Node {
	h := 1
	for n := t.Root; n != nil && !n.IsLeaf && h < 40; n = n.Left {
		h++
	}
	lv := make([][]*merkletree.Node, h)
	var walk func(n *merkletree.Node, l, i int)
	walk = func(n *merkletree.Node, l, i int) {
		if n == nil || l < 0 {
			return
		}
		for len(lv[l]) <= i {
			lv[l] = append(lv[l], nil)
		}
		if lv[l][i] == nil {
			lv[l][i] = n
		}
		if n.IsLeaf {
			return
		}
		walk(n.Left, l-1, 2*i)
		if n.Right != n.Left {
			walk(n.Right, l-1, 2*i+1)
		}
	}
	walk(t.Root, h-1, 0)
	return lv
}

func recordOneMerkle(seed int64, idx int, tier string) (hist []mapx) {
	hist = []mapx{}
	r := rand.New(rand.NewSource(seed*32452843 + int64(idx)))
	c := &Ctx{Idx: idx, Seed: seed, Rnd: r, Extra: map[string]int64{}, Tier: tier}
	w := newMWorld(c, 0)
	for p := 1; p <= recPays; p++ {
		w.val[p] = (p-1)%recVals + 1
		w.pay(p)
	}
	w.errs[1000] = errors.New("the queried payload cannot be hashed")
	cls := classes{}
	var t *merkletree.Tree
	defer func() {
		if p := recover(); p != nil {
			what, ours := p.(libPanic)
			if c.fail != nil {
				what, ours = libPanic(c.fail.Tag+": "+c.fail.What), true
			}
			if !ours {
				panic(p)
			}
			hist = append(hist, mapx{"kd": "panic", "x": mapx{"z": 0}, "ok": "", "err": 0, "what": what, "cls": mapx{"root": 0, "leaves": []int{}, "lv": []int{}}})
		}
	}()
	step := 0
	call := func(kd string, x mapx, f func() (bool, error)) {
		step++
		var ok bool
		var err error
		if p := try(func() { ok, err = f() }); p != nil {
			panic(libPanic(fmt.Sprintf("%s %v panicked: %v", kd, x, p)))
		}
		w.intact(step, kd)
		st := mapx{"kd": kd, "x": x, "ok": fmt.Sprint(ok), "err": 0, "what": ""}
		if kd == "vcontent" {
			st["open"] = true
		}
		if err != nil {
			st["ok"] = "err"
			for id, e := range w.errs {
				if isErr(err, e) {
					st["err"] = id
				}
			}
		}
		root, leaves, lv := 0, []mapx{}, [][]int{}
		if t != nil {
			root = cls.of(t.MerkleRoot)
			for _, l := range t.Leaves {
				id := 0
				if p, ok := l.Data.(*mPay); ok {
					id = p.id
				}
				leaves = append(leaves, mapx{"p": id, "dup": l.IsDup})
			}
			for _, ns := range levels(t) {
				cs := []int{}
				for _, n := range ns {
					if n == nil {
						cs = append(cs, 0)
					} else {
						cs = append(cs, cls.of(n.Hash))
					}
				}
				lv = append(lv, cs)
			}
		}
		st["cls"] = mapx{"root": root, "leaves": leaves, "lv": lv}
		hist = append(hist, st)
	}
	build := func(kd string) {
		n := r.Intn(14)
		if r.Intn(4) == 0 {
			n = r.Intn(33)
		}
		ps := make([]int, n)
		for i := range ps {
			ps[i] = 1 + r.Intn(recPays)
		}
		call(kd, mapx{"ps": ps}, func() (bool, error) {
			pl := w.list(ps)
			var err error
			if kd == "new" {
				var n *merkletree.Tree
				if n, err = merkletree.NewTree(pl); err == nil {
					t = n
				}
			} else {
				err = t.RebuildTreeUsing(pl)
			}
			w.sameList(step, pl, ps)
			return err == nil, err
		})
	}
	vtree := func() { call("vtree", mapx{"z": 0}, func() (bool, error) { return merkletree.VerifyTree(t) }) }
	vcontent := func() {
		q := &mPay{w: w, id: 1000, fixed: 1 + r.Intn(recVals+1)}
		b := r.Intn(8) == 0
		call("vcontent", mapx{"v": q.fixed, "b": b}, func() (bool, error) {
			w.bad[1000] = b
			return t.VerifyContent(q)
		})
	}
	forged := func() []byte {
		b := make([]byte, 32)
		r.Read(b)
		return b
	}
	steps := 30
	if tier == "thorough" {
		steps = 60
	}
	for len(hist) < steps {
		if t == nil {
			build("new")
			continue
		}
		switch r.Intn(12) {
		case 0:
			build("new")
		case 1:
			build("using")
		case 2:
			call("rebuild", mapx{"z": 0}, func() (bool, error) { err := t.RebuildTree(); return err == nil, err })
		case 3, 4:
			p, v := 1+r.Intn(recPays), 1+r.Intn(recVals)
			call("set", mapx{"p": p, "v": v}, func() (bool, error) { w.val[p] = v; return true, nil })
		case 5:
			p, on := 1+r.Intn(recPays), r.Intn(3) == 0
			call("fail", mapx{"p": p, "on": on}, func() (bool, error) { w.bad[p] = on; return true, nil })
		case 6:
			if r.Intn(2) == 0 {
				call("troot", mapx{"f": "other"}, func() (bool, error) { t.MerkleRoot = forged(); return true, nil })
			}
		case 7:
			if r.Intn(2) == 0 {
				lv := levels(t)
				l := r.Intn(len(lv))
				i := r.Intn(len(lv[l]))
				if lv[l][i] == nil || (l > 0 && l < len(lv)-1 && i == len(lv[l])-1 && i%2 == 0) {
					continue
				}
				kd, x := "tnode", mapx{"l": l + 1, "i": i + 1}
				if l == 0 {
					kd, x = "tleaf", mapx{"i": i + 1}
				}
				call(kd, x, func() (bool, error) { lv[l][i].Hash = forged(); return true, nil })
			}
		case 8, 9:
			vtree()
		default:
			vcontent()
		}
	}
	return hist
}
