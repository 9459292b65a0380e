package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
)

type gprofile struct {
	steps        int
	mut, craft   int // per cent
	fault        int // per mille
	rotate, cmp  int // weights
	wrong        int // per cent of deliveries under another sender address
	dup          int // per cent of deliveries of old messages
	batch        int
	probe        bool
	maxMembers   int
	late         int // weight of distributions
	dids         []string
	onlyFirstDid bool
	lift         int // per cent of histories which reach high iterations
}

var gprofiles = map[string]gprofile{
	"C08": {lift: 20, steps: 90, mut: 5, craft: 5, rotate: 2, late: 12, dup: 10, batch: 4, fault: 20},
	"C12": {lift: 20, steps: 110, mut: 8, craft: 4, rotate: 2, late: 12, dup: 10, batch: 5, probe: true},
	"C26": {steps: 110, mut: 8, craft: 4, rotate: 2, late: 12, dup: 10, batch: 5, probe: true},
	"C13": {lift: 20, steps: 110, mut: 6, craft: 4, rotate: 2, late: 20, dup: 45, batch: 4},
	"C14": {lift: 20, steps: 110, mut: 45, craft: 15, rotate: 2, late: 12, dup: 10, wrong: 15, batch: 3},
	"C15": {lift: 20, steps: 130, mut: 5, craft: 25, rotate: 8, late: 22, dup: 10, batch: 6},
	"C16": {steps: 120, mut: 5, craft: 5, rotate: 3, late: 15, dup: 10, wrong: 15, batch: 3, probe: true},
	"C17": {steps: 100, mut: 4, craft: 4, rotate: 2, late: 12, dup: 12, batch: 1, fault: 160},
	"C18": {steps: 60, mut: 40, craft: 20, rotate: 2, late: 12, dup: 10, batch: 3},
	"C22": {lift: 20, steps: 110, mut: 45, craft: 10, rotate: 2, late: 12, dup: 25, wrong: 10, batch: 4, probe: true},
	"C23": {steps: 50, mut: 5, rotate: 3, late: 12, dup: 5, batch: 4},
	"C25": {steps: 70, mut: 5, craft: 4, rotate: 2, late: 14, dup: 5, batch: 4, cmp: 8},
}

func groupMembers(r *rand.Rand, focus string) []member {
	if focus == "C16" {
		return alike(r)
	}
	switch r.Intn(4) {
	case 0:
		return two(r)
	case 1:
		return devices(r)
	case 2:
		return alike(r)[:3]
	}
	return three(r)
}

func randomGroup(focus string, seed int64) *gworld {
	pf, ok := gprofiles[focus]
	if !ok {
		fatal("no group profile", focus)
	}
	r := rand.New(rand.NewSource(seed))
	dids := []string{"g1", "g2"}
	if focus == "C16" || r.Intn(4) == 0 {
		dids = []string{"g1", "g2", "g3", "g4", "g5"}[:2+r.Intn(4)]
	}
	w := newGroupWorld(seed, groupMembers(r, focus), dids, 3)
	w.focus(focus, fmt.Sprintf("%s group %d", focus, seed), seed)
	w.randomHistory(pf)
	return w
}

func (w *gworld) own(p, did string) bool {
	rec, ok, err := w.P[p].grp.Load(bg, w.addr[p], w.did[did])
	if !ok || err != nil || rec == nil {
		return false
	}
	st, err := rec.State()
	return err == nil && st != nil
}

// gcid gives the chain which p sends under.
func (w *gworld) gcid(p, did string) string {
	rec, ok, err := w.P[p].grp.Load(bg, w.addr[p], w.did[did])
	if !ok || err != nil || rec == nil {
		return ""
	}
	st, err := rec.State()
	if err != nil || st == nil {
		return ""
	}
	return ids(st.ChainID())
}

func (w *gworld) fault(c M, pm int) M {
	if w.r.Intn(1000) < pm {
		c["flt"] = M{"at": 1 + w.r.Intn(2), "mode": pick(w.r, []string{"err", "post", "crash", "rnd"})}
	}
	return c
}

func (w *gworld) enc(p, did string, n int, keep ...int) []int {
	if len(keep) == 0 {
		for i := 0; i < n; i++ {
			keep = append(keep, i)
		}
	}
	keep = append([]int{}, keep...)
	sort.Ints(keep)
	l := []any{}
	for _, k := range keep {
		l = append(l, k)
	}
	before := len(w.msgs)
	w.do(M{"e": "enc", "p": p, "did": did, "n": n, "keep": l, "len": 30})
	out := []int{}
	for i := before; i < len(w.msgs); i++ {
		out = append(out, i+1)
	}
	return out
}

func (w *gworld) dist(p, did string) int {
	before := len(w.dists)
	w.do(M{"e": "skd", "p": p, "did": did})
	if len(w.dists) == before {
		return 0
	}
	return len(w.dists)
}

func (w *gworld) proc(q string, x int) {
	if x > 0 {
		w.do(M{"e": "prc", "p": q, "r": w.dists[x-1].from, "x": x})
	}
}

func (w *gworld) recv(q string, mids ...int) {
	for _, m := range mids {
		w.do(M{"e": "dec", "p": q, "r": w.msgs[m-1].from, "m": m})
	}
}

func (w *gworld) mutation(mid int) M {
	m := w.msgs[mid-1]
	it := cc(m.pb.GetIteration())
	switch w.r.Intn(12) {
	case 0, 1, 2, 3, 4:
		return M{"ok": false}
	case 5, 6:
		return M{"sk": []any{"evil", 1 + w.r.Intn(2)}}
	case 7:
		return M{"it": it + 1 + w.r.Intn(3)}
	case 8:
		if it > 0 {
			return M{"it": it - 1 - w.r.Intn(minInt(it, 40))}
		}
		return M{"it": 1}
	case 9:
		if len(w.dids) > 1 {
			for {
				if d := pick(w.r, w.dids); d != m.did {
					return M{"did": d}
				}
			}
		}
	case 10:
		if len(w.cids) > 1 {
			for {
				if c := pick(w.r, w.cids); c != m.pb.GetChainId() {
					return M{"cid": ids(c)}
				}
			}
		}
	case 11:
		return M{"it": it + 1 + w.r.Intn(3), "sk": []any{"evil", 1 + w.r.Intn(2)}}
	}
	return M{"ok": false}
}

func (w *gworld) craft(x int) M {
	d := w.dists[x-1]
	switch w.r.Intn(7) {
	case 0, 1:
		return M{"sk": []any{"evil", 1 + w.r.Intn(2)}}
	case 2:
		return M{"sk": []any{"evil", 1 + w.r.Intn(2)}, "seed": []any{"evil", 1 + w.r.Intn(3)}}
	case 3:
		return M{"cid": ids(uint32(1000 + w.r.Intn(12))), "sk": []any{"evil", 1 + w.r.Intn(3)}, "seed": []any{"evil", 1 + w.r.Intn(3)}, "it": w.r.Intn(5)}
	case 4:
		return M{"cid": ids(pick(w.r, []uint32{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}))}
	case 5:
		if len(w.dids) > 1 {
			for {
				if g := pick(w.r, w.dids); g != d.did {
					return M{"did": g}
				}
			}
		}
	}
	return M{"cid": ids(uint32(1000 + w.r.Intn(12)))}
}

func (w *gworld) randomHistory(pf gprofile) {
	senders := w.names
	if w.r.Intn(2) == 0 {
		senders = w.names[:1]
	}
	dids := w.dids
	if w.r.Intn(3) > 0 {
		dids = w.dids[:1]
	}
	if pf.dids != nil {
		dids = pf.dids
	}
	other := func(p string) string {
		for {
			if q := pick(w.r, w.names); q != p {
				return q
			}
		}
	}
	lifting := pf.lift > 0 && w.r.Intn(100) < pf.lift
	for i := 0; i < pf.steps; i++ {
		p, g := pick(w.r, senders), pick(w.r, dids)
		if lifting && w.r.Intn(12) == 0 {
			w.do(M{"e": "lft", "p": p, "did": g, "to": int(liftTo(w.r.Intn))})
		}
		x := w.r.Intn(100)
		switch {
		case len(w.dists) == 0 || x < pf.late/2:
			w.do(w.fault(M{"e": "skd", "p": p, "did": g}, pf.fault))
		case x < pf.late+4:
			if len(w.dists) == 0 {
				continue
			}
			n := len(w.dists)
			k := 1 + w.r.Intn(n)
			if w.r.Intn(2) == 0 {
				k = n
			}
			from := w.dists[k-1].from
			c := M{"e": "prc", "p": other(from), "r": from, "x": k, "d": M{}}
			if w.r.Intn(100) < pf.craft {
				c["d"] = w.craft(k)
			}
			if w.r.Intn(100) < pf.wrong {
				if r := other(str(c["p"])); r != c["p"] {
					c["r"] = r
				}
			}
			if c["r"] == c["p"] {
				continue
			}
			w.do(w.fault(c, pf.fault))
		case x < pf.late+4+pf.rotate:
			if w.own(p, g) && w.r.Intn(2) == 0 {
				w.do(M{"e": "rst", "p": p, "did": g})
			}
			if w.r.Intn(2) == 0 {
				c := M{"e": "rot", "p": p, "did": g}
				if n := len(w.cids); n > 0 && w.r.Intn(3) == 0 {
					c["cid"] = ids(pick(w.r, w.cids))
				}
				w.do(w.fault(c, pf.fault))
				w.do(M{"e": "skd", "p": p, "did": g})
			}
		case x < pf.late+4+pf.rotate+pf.cmp:
			if w.r.Intn(4) == 0 {
				w.do(M{"e": "snp", "p": pick(w.r, w.names)})
			} else if n := len(w.snaps); n > 0 && w.r.Intn(2) == 0 {
				w.do(M{"e": "cmp", "p": w.names[0], "snap": 1 + w.r.Intn(n)})
			} else {
				w.do(M{"e": "cmp", "p": pick(w.r, w.names)})
			}
		case x < 55:
			n := 1
			if w.r.Intn(3) == 0 {
				n = 1 + w.r.Intn(pf.batch)
			}
			keep := []any{}
			for j := 0; j < n; j++ {
				if n < 3 || w.r.Intn(4) > 0 {
					keep = append(keep, j)
				}
			}
			c := M{"e": "enc", "p": p, "did": g, "n": n, "keep": keep}
			if n == 1 {
				c = w.fault(c, pf.fault)
			}
			w.do(c)
		default:
			if len(w.msgs) == 0 {
				continue
			}
			q := pick(w.r, w.names)
			m := 1 + w.r.Intn(len(w.msgs))
			if w.r.Intn(100) >= pf.dup { // something new to q
				var fresh []int
				for k, y := range w.msgs {
					if y.from != q && !y.seen[q+"/"+y.from] {
						fresh = append(fresh, k+1)
					}
				}
				if len(fresh) == 0 {
					continue
				}
				m = pick(w.r, fresh)
				if w.r.Intn(2) == 0 {
					m = fresh[0]
				}
			}
			from := w.msgs[m-1].from
			if q == from && w.r.Intn(4) > 0 {
				continue
			}
			c := M{"e": "dec", "p": q, "r": from, "m": m, "d": M{}}
			if w.r.Intn(100) < pf.wrong {
				c["r"] = pick(w.r, w.names)
			}
			if w.r.Intn(100) < pf.mut {
				c["d"] = w.mutation(m)
			}
			w.do(w.fault(c, pf.fault))
		}
	}
	if pf.probe {
		w.probeAll()
	}
	if pf.cmp > 0 {
		for _, p := range w.names {
			w.do(M{"e": "cmp", "p": p})
		}
		for i := range w.snaps {
			w.do(M{"e": "cmp", "p": w.names[0], "snap": i + 1})
		}
	}
}

// probeAll tries every message at every member, without effect.
func (w *gworld) probeAll() {
	n := len(w.msgs)
	for k := 0; k < n; k++ {
		if n > 40 && w.r.Intn(n) > 40 {
			continue
		}
		for _, q := range w.names {
			w.do(M{"e": "prb", "p": q, "r": w.msgs[k].from, "m": k + 1, "d": M{}})
		}
	}
}

type gscenario struct {
	name string
	run  func() *gworld
}

func groupScenarios(focus string, seed int64, deep bool) (out []gscenario) {
	add := func(name string, f func() *gworld) { out = append(out, gscenario{name, f}) }
	in := func(fs ...string) bool {
		for _, f := range fs {
			if f == focus {
				return true
			}
		}
		return false
	}
	fresh := func(k int64) *gworld {
		return newGroupWorld(seed*100+k, three(rand.New(rand.NewSource(seed+k))), []string{"g1", "g2"}, 12)
	}
	if in("C15", "C12", "C13", "C08") {
		for i, to := range []uint32{half - 1, half - 2, half, half - 12000, whole - 40000} {
			to := to
			i := i
			add(fmt.Sprintf("group high iterations %d", i), func() *gworld {
				w := fresh(70 + int64(i))
				x := w.dist("a", "g1")
				w.proc("b", x)
				old := w.enc("a", "g1", 3)
				w.recv("b", at(old, 1, 2)...)
				w.do(M{"e": "lft", "p": "a", "did": "g1", "to": int(to)})
				m := w.enc("a", "g1", 6)
				w.recv("b", at(m, 4, 0, 5, 1, 1, 3, 2, 0)...)
				w.recv("b", old...)
				y := w.dist("a", "g1") // joins here
				w.proc("c", y)
				m2 := w.enc("a", "g1", 25004, 0, 1, 2, 23000, 25000, 25001, 25002, 25003)
				w.recv("c", at(m, 3)...)
				w.recv("c", at(m2, 5, 6, 7)...)
				w.recv("c", at(m2, 4, 3, 7, 2, 0, 5, 6, 6)...)
				w.recv("b", at(m2, 7, 1)...)
				w.recv("b", at(m2, 0, 4, 7, 3, 2)...)
				w.proc("b", w.dist("a", "g1"))
				w.recv("b", w.enc("a", "g1", 1)...)
				return w
			})
		}
	}
	if in("C15", "C12") {
		add("group jump: limits", func() *gworld {
			w := fresh(1)
			x := w.dist("a", "g1")
			w.proc("b", x)
			w.proc("c", x)
			m := w.enc("a", "g1", 25003, 0, 1, 22999, 23000, 23001, 24999, 25000, 25001, 25002)
			w.recv("b", at(m, 7, 8)...) // 25001 is one too far
			w.recv("b", at(m, 6)...)    // exactly 25000 skipped
			w.recv("b", at(m, 0, 1, 2, 3, 4, 3, 5, 7, 8, 8)...)
			w.recv("c", at(m, 1)...) // next is 2
			w.recv("c", at(m, 8)...) // 25000 skipped
			w.recv("c", m...)
			return w
		})
	}
	if in("C15") {
		for v := 0; v < 3; v++ {
			v := v
			add(fmt.Sprintf("group skipped keys: eviction %d", v), func() *gworld {
				w := fresh(10 + int64(v))
				w.proc("b", w.dist("a", "g1"))
				keep := []int{0, 1, 2, 498, 499, 500, 501, 502, 998, 999, 1000, 1001, 1498, 1499, 1500, 1501, 1999, 2000, 2001, 2002, 2499, 2500, 2501, 2998, 2999, 3000, 3001, 3002}
				m := w.enc("a", "g1", 3003, keep...)
				get := func(cs ...int) {
					for _, c := range cs {
						for i, k := range keep {
							if k == c && i < len(m) {
								w.recv("b", m[i])
							}
						}
					}
				}
				switch v {
				case 0:
					get(2000, 0, 1, 2, 1999, 2001, 2001)
				case 1:
					get(2001, 0, 1, 2, 2000, 2002, 499)
				case 2:
					get(1500, 0, 499, 999, 3000, 1, 500, 501, 998, 1000, 1001, 502, 1498, 2000, 2999, 3001, 498, 3002)
				}
				return w
			})
		}
	}
	if in("C15", "C12", "C13", "C16", "C23") {
		for v := 0; v < 6; v++ {
			v := v
			add(fmt.Sprintf("group sender keys: more than are kept %d", v), func() *gworld {
				w := fresh(20 + int64(v))
				var xs []int
				var ms [][]int
				for i := 0; i < 7; i++ {
					if i > 0 {
						w.do(M{"e": "rst", "p": "a", "did": "g1"})
					}
					x := w.dist("a", "g1")
					xs = append(xs, x)
					w.proc("b", x)
					if v%2 == 0 {
						w.proc("c", x)
					}
					m := w.enc("a", "g1", 4)
					ms = append(ms, m)
					w.recv("b", at(m, 1)...)
					if v >= 2 && i >= 3 { // an older key is made the newest again
						w.proc("b", xs[i-2])
					}
					if v >= 4 && i >= 2 { // others with the chain id of an older one
						w.do(M{"e": "prc", "p": "b", "r": "a", "x": xs[i-1], "d": M{"sk": []any{"evil", 1 + i}, "seed": []any{"evil", 1 + i}}})
						w.recv("b", at(ms[i-1], 2)...)
						if v == 5 {
							w.proc("b", xs[i-1])
							w.recv("b", at(ms[i-1], 2, 0)...)
						}
					}
				}
				for i := range ms {
					w.recv("b", at(ms[i], 0, 2, 1)...)
					w.recv("c", at(ms[i], 3, 0)...)
				}
				w.probeAll()
				return w
			})
		}
	}
	if in("C23", "C12") {
		add("group very long chain", func() *gworld {
			w := fresh(39)
			x := w.dist("a", "g1")
			w.proc("b", x)
			keep := []int{0, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4200}
			var kept []any
			for _, k := range keep {
				kept = append(kept, k)
			}
			before := len(w.msgs)
			w.do(M{"e": "enc", "p": "a", "did": "g1", "n": 4201, "keep": kept})
			w.recv("b", len(w.msgs))
			for i := before + 1; i < len(w.msgs); i++ {
				w.recv("b", i)
			}
			x2 := w.dist("a", "g1")
			w.proc("c", x2)
			w.recv("c", w.enc("a", "g1", 2)...)
			return w
		})
	}
	if in("C12", "C13", "C25", "C23") {
		for v := 0; v < 6; v++ {
			v := v
			add(fmt.Sprintf("group joining late %d", v), func() *gworld {
				w := fresh(30 + int64(v))
				x1 := w.dist("a", "g1")
				w.proc("b", x1)
				m1 := w.enc("a", "g1", 3+v)
				x2 := w.dist("a", "g1")
				m2 := w.enc("a", "g1", 3)
				x3 := w.dist("a", "g1")
				m3 := w.enc("a", "g1", 2)
				switch v % 3 {
				case 0:
					w.proc("c", x2)
					w.recv("c", at(m2, 1)...)
					w.proc("c", x1)
					w.proc("c", x3)
					w.proc("c", x2)
				case 1:
					w.proc("c", x3)
					w.proc("c", x2)
					w.proc("c", x1)
				case 2:
					w.proc("c", x1)
					w.recv("c", at(m1, 2)...)
					w.proc("c", x3)
					w.proc("c", x2)
				}
				w.do(M{"e": "cmp", "p": "c"})
				w.do(M{"e": "cmp", "p": "a"})
				for _, q := range []string{"c", "b"} {
					w.recv(q, at(m3, 1)...)
					w.recv(q, at(m2, 0, 2)...)
					w.recv(q, m1...)
					w.recv(q, m2...)
					w.recv(q, m3...)
					w.proc(q, x1)
					w.proc(q, x2)
					w.recv(q, m1...)
					w.recv(q, m3...)
				}
				w.do(M{"e": "cmp", "p": "b"})
				w.do(M{"e": "cmp", "p": "c"})
				return w
			})
		}
	}
	if in("C14", "C22") {
		for v := 0; v < 4; v++ {
			v := v
			add(fmt.Sprintf("group every bit of a message %d", v), func() *gworld {
				w := fresh(40 + int64(v))
				w.proc("b", w.dist("a", "g1"))
				m := w.enc("a", "g1", 3)
				if v >= 2 {
					w.recv("b", at(m, 1)...)
				}
				if len(m) < 3 {
					return w
				}
				n := 8 * len(w.msgs[m[2]-1].bytes)
				for i := v % 2; i < n; i += 2 {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[2], "d": M{"ok": false, "how": "bit", "pos": i}})
				}
				for i := v % 2; i < n/8; i += 2 {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[2], "d": M{"ok": false, "how": "cut", "pos": i}})
				}
				w.recv("b", m...)
				return w
			})
		}
		for i, n := range []int{300, 5000, 20000, 70000, 270000} {
			i, n := i, n
			add(fmt.Sprintf("group bits of a message of %d bytes", n), func() *gworld {
				w := fresh(300 + int64(i))
				w.proc("b", w.dist("a", "g1"))
				for k := 0; k < 2; k++ {
					before := len(w.msgs)
					w.do(M{"e": "enc", "p": "a", "did": "g1", "n": 1, "keep": []any{0}, "len": n})
					m := len(w.msgs)
					if m == before {
						return w
					}
					size := len(w.msgs[m-1].bytes)
					for _, pos := range spread(size) {
						w.do(M{"e": "dec", "p": "b", "r": "a", "m": m, "d": M{"ok": false, "how": "bit", "pos": 8*pos + k + pos%5}})
					}
					for _, pos := range []int{size - 1, size - 64, size - 65, size - 16, size / 2, 4096, 16, 1} {
						if pos > 0 && pos < size {
							w.do(M{"e": "dec", "p": "b", "r": "a", "m": m, "d": M{"ok": false, "how": "cut", "pos": pos}})
						}
					}
					w.recv("b", m, m)
				}
				return w
			})
		}
		add("group member forges", func() *gworld {
			w := fresh(45)
			x := w.dist("a", "g1")
			w.proc("b", x)
			w.proc("c", x)
			y := w.dist("c", "g1")
			w.proc("b", y)
			m := w.enc("a", "g1", 3)
			k := w.enc("c", "g1", 3)
			for _, i := range append(append([]int{}, m...), k...) {
				for e := 1; e <= 2; e++ {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": i, "d": M{"sk": []any{"evil", e}}})
					w.do(M{"e": "dec", "p": "b", "r": "c", "m": i, "d": M{"sk": []any{"evil", e}}})
				}
				w.do(M{"e": "dec", "p": "b", "r": "b", "m": i, "d": M{}})
				w.do(M{"e": "dec", "p": "c", "r": "b", "m": i, "d": M{}})
			}
			for _, i := range k { // the chain id of a's key
				if len(w.dists) > 0 {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": i, "d": M{"cid": ids(w.dists[0].d.ChainID())}})
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": i, "d": M{}})
				}
			}
			w.recv("b", m...)
			w.recv("b", k...)
			return w
		})
	}
	if in("C12", "C18", "C23") {
		add("group plaintext lengths", func() *gworld {
			w := fresh(50)
			w.proc("b", w.dist("a", "g1"))
			for n := 0; n <= 66; n++ {
				w.do(M{"e": "enc", "p": "a", "did": "g1", "n": 1, "keep": []any{0}, "len": n})
			}
			for _, n := range []int{255, 256, 4095, 4096, 65535, 65536} {
				w.do(M{"e": "enc", "p": "a", "did": "g1", "n": 1, "keep": []any{0}, "len": n})
			}
			for i := len(w.msgs); i > 0; i -= 2 {
				w.recv("b", i)
			}
			for i := 1; i <= len(w.msgs); i++ {
				w.recv("b", i)
			}
			return w
		})
		for i, cid := range []uint32{0, 1, 127, 128, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF} {
			i, cid := i, cid
			add(fmt.Sprintf("group chain id %d", cid), func() *gworld {
				w := fresh(60 + int64(i))
				x := w.dist("a", "g1")
				m := w.enc("a", "g1", 2)
				if x == 0 || len(m) < 2 {
					return w
				}
				w.do(M{"e": "prc", "p": "b", "r": "a", "x": x, "d": M{"cid": ids(cid), "sk": []any{"evil", 1}}})
				w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[1], "d": M{"cid": ids(cid), "sk": []any{"evil", 1}}})
				w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[0], "d": M{"cid": ids(cid), "sk": []any{"evil", 1}}})
				w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[0], "d": M{"cid": ids(cid), "sk": []any{"evil", 1}}})
				w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[0], "d": M{}})
				w.proc("b", x)
				w.recv("b", m...)
				return w
			})
		}
	}
	if in("C12", "C13", "C15", "C17", "C22", "C23", "C25") {
		for v := 0; v < 4; v++ {
			v := v
			add(fmt.Sprintf("group sender key replaced in its record %d", v), func() *gworld {
				w := fresh(520 + int64(v))
				x := w.dist("a", "g1")
				w.proc("b", x)
				w.proc("c", x)
				var late []int
				for i := 0; i < 8; i++ {
					m := w.enc("a", "g1", 3)
					w.recv("b", m[0], m[2])
					late = append(late, m[1])
					c := M{"e": "rot", "p": "a", "did": "g1"}
					if v%2 == 1 && i%2 == 1 && w.gcid("a", "g1") != "" {
						c["cid"] = w.gcid("a", "g1") // the same chain, other keys
					}
					w.do(c)
					if v > 1 { // one message before anybody is told
						late = append(late, w.enc("a", "g1", 1)...)
					}
					x := w.dist("a", "g1")
					w.proc("b", x)
					if i < 3 { // c is no longer a member after that
						w.proc("c", x)
					}
					if in("C25") {
						w.do(M{"e": "cmp", "p": "a"})
						w.do(M{"e": "cmp", "p": "c"})
					}
				}
				w.recv("b", late...)
				w.recv("c", late...)
				return w
			})
		}
	}
	if in("C17", "C08") {
		for v := 0; v < 6; v++ {
			v := v
			add(fmt.Sprintf("group random numbers come in pieces %d", v), func() *gworld {
				w := fresh(320 + int64(v))
				w.log[0]["dribble"] = true
				w.rnd.chunk = 1 + v%3*7
				for i := 0; i < 4; i++ {
					for _, p := range []string{"a", "b"} {
						if i > 0 {
							w.do(M{"e": "rst", "p": p, "did": "g1"})
						}
						x := w.dist(p, "g1")
						w.proc("c", x)
						w.recv("c", w.enc(p, "g1", 2)...)
						x = w.dist(p, "g2")
						w.proc("c", x)
						w.recv("c", w.enc(p, "g2", 2)...)
					}
				}
				return w
			})
		}
	}
	if in("C17") {
		// every store call and random read of every kind of operation
		for at := 1; at <= 4; at++ {
			for _, mode := range []string{"err", "post", "crash", "rnd"} {
				for op := 0; op < 5; op++ {
					at, mode, op := at, mode, op
					add(fmt.Sprintf("group fault %s %d in %d", mode, at, op), func() *gworld {
						w := fresh(int64(100 + at*20 + op))
						f := M{"at": at, "mode": mode}
						with := func(k int, c M) M {
							if k == op {
								c["flt"] = f
							}
							return c
						}
						w.do(with(0, M{"e": "skd", "p": "a", "did": "g1"}))
						x := w.dist("a", "g1")
						if x == 0 {
							return w
						}
						w.do(with(1, M{"e": "prc", "p": "b", "r": "a", "x": x}))
						w.proc("b", x)
						w.do(with(2, M{"e": "enc", "p": "a", "did": "g1", "n": 1, "keep": []any{0}, "len": 30}))
						m := w.enc("a", "g1", 3)
						if len(m) < 3 {
							return w
						}
						w.do(with(3, M{"e": "dec", "p": "b", "r": "a", "m": m[1]}))
						w.recv("b", m[1])
						w.do(with(4, M{"e": "dec", "p": "b", "r": "a", "m": m[0]}))
						w.recv("b", m...)
						w.recv("b", w.enc("a", "g1", 1)...)
						return w
					})
				}
			}
		}
	}
	return out
}

func groupCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	sc := groupScenarios(focus, seed, deep)
	n := len(sc) + count
	logs := make([][]M, n)
	covers := make([]map[string]int, n)
	parallel(n, runtime.NumCPU(), func(i int) {
		var w *gworld
		if i < len(sc) {
			w = settled(sc[i].run)
			if w == nil {
				return
			}
			w.focus(focus, sc[i].name, seed)
		} else {
			w = settled(func() *gworld { return randomGroup(focus, seed*1000003+int64(i)) })
			if w == nil {
				return
			}
		}
		w.side()
		logs[i], covers[i] = w.log, w.cover
	})
	print(write(logs, covers, out, shards))
}

func groupGenCmd(focus, in string, seed int64, max int, out string, shards int) {
	ts := transitions(in)
	ss := suites(ts)
	r := rand.New(rand.NewSource(seed))
	total := len(ss)
	r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	if max > 0 && len(ss) > max {
		ss = ss[:max]
	}
	logs := make([][]M, len(ss))
	covers := make([]map[string]int, len(ss))
	parallel(len(ss), runtime.NumCPU(), func(i int) {
		s := seed*7919 + int64(i)
		w := newGroupWorld(s, three(rand.New(rand.NewSource(s))), []string{"g1", "g2"}, 3)
		w.focus(focus, fmt.Sprintf("generated group %d", i), s)
		settled(func() *gworld {
			for _, c := range ss[i] {
				d := copyCmd(c)
				if d["m"] != nil && toInt(d["m"]) > len(w.msgs) || d["x"] != nil && toInt(d["x"]) > len(w.dists) {
					break // an earlier command failed: the trace shows it
				}
				w.do(d)
			}
			return w
		})
		w.side()
		logs[i], covers[i] = w.log, w.cover
	})
	res := write(logs, covers, out, shards)
	res.Cover["transitions"], res.Cover["sequences"], res.Cover["sequences/all"] = len(ts), len(ss), total
	print(res)
}
