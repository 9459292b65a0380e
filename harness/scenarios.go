package main

import (
	"fmt"
	"math/rand"
	"sort"
)

type scenario struct {
	name string
	run  func() *world
}

func (w *world) keys(p string, opks int) {
	w.do(M{"e": "spk", "p": p, "id": ids(uint32(20 + len(w.P[p].spkID)))})
	for i := 0; i < opks; i++ {
		w.do(M{"e": "opk", "p": p, "id": ids(uint32(100 + len(w.P[p].opkID)))})
	}
}

// est lets p set up a session with r; opk is the index of the one-time
// pre-key to use, or -1.
func (w *world) est(p, r string, opk int) M {
	q := w.P[r]
	spk := ids(q.spkID[len(q.spkID)-1])
	c := M{"e": "bun", "p": p, "r": r, "idk": []any{"id", r}, "spk": []any{"spk", r, spk}, "spkid": spk, "opk": []any{}, "opkid": []any{}, "sig": true}
	if opk >= 0 {
		id := ids(q.opkID[opk])
		c["opk"], c["opkid"] = []any{[]any{"opk", r, id}}, []any{id}
	}
	return w.do(c)
}

// send encrypts n messages and keeps the given ones (all if none given).
// It returns the numbers of those kept.
func (w *world) send(p, r string, n int, keep ...int) []int {
	if len(keep) == 0 {
		for i := 0; i < n; i++ {
			keep = append(keep, i)
		}
	}
	keep = append([]int{}, keep...)
	sort.Ints(keep)
	l := []any{}
	for _, k := range keep {
		l = append(l, k)
	}
	before := len(w.msgs)
	w.do(M{"e": "enc", "p": p, "r": r, "n": n, "keep": l, "len": 20})
	out := []int{}
	for i := before; i < len(w.msgs); i++ {
		out = append(out, i+1)
	}
	return out
}

func (w *world) recv(mids ...int) {
	for _, m := range mids {
		x := w.msgs[m-1]
		w.do(M{"e": "dec", "p": x.to, "r": x.from, "m": m})
	}
}

// talk exchanges n rounds between p and r.
func (w *world) talk(p, r string, n int) {
	for i := 0; i < n; i++ {
		w.recv(w.send(p, r, 1)...)
		w.recv(w.send(r, p, 1)...)
	}
}

// at returns the i-th of mids, or nothing if the operation before failed.
func at(mids []int, idx ...int) []int {
	out := []int{}
	for _, i := range idx {
		if i < len(mids) {
			out = append(out, mids[i])
		}
	}
	return out
}

func pair(seed int64, flavor string, opks int) *world {
	w := newWorld(seed, two(rand.New(rand.NewSource(seed))), flavor, 3)
	w.keys("a", opks)
	w.keys("b", opks)
	return w
}

func ownDevices(seed int64, flavor string) *world {
	w := newWorld(seed, devices(rand.New(rand.NewSource(seed))), flavor, 3)
	for _, p := range w.names {
		w.keys(p, 2)
	}
	return w
}

func scenarios(focus string, seed int64, deep bool) []scenario {
	var out []scenario
	add := func(name string, f func() *world) { out = append(out, scenario{name, f}) }
	flav := func(i int) string { return []string{"mem", "ser"}[i%2] }
	in := func(fs ...string) bool {
		for _, f := range fs {
			if f == focus {
				return true
			}
		}
		return false
	}
	if in("C10", "C01") {
		add("jump: first message of a session", func() *world {
			w := pair(seed, "mem", 2)
			w.est("a", "b", 0)
			m := w.send("a", "b", 25003, 0, 1, 22999, 23000, 23001, 24999, 25000, 25001, 25002)
			w.recv(at(m, 7, 8, 6)...) // 25001, 25002 too far, 25000 not
			w.recv(at(m, 0, 1, 2, 3, 4, 3, 5, 7, 8, 8)...)
			w.talk("b", "a", 2)
			return w
		})
		add("jump: established chain", func() *world {
			w := pair(seed+1, "mem", 2)
			w.est("a", "b", -1)
			w.talk("a", "b", 2)
			m := w.send("a", "b", 25010, 0, 1, 2, 3, 4, 23004, 23005, 23006, 25005, 25006, 25007)
			w.recv(at(m, 0, 2, 4)...) // index 5; 1 and 3 skipped
			w.recv(at(m, 9, 10)...)   // 25006 and 25007 are too far ahead
			w.recv(m...)
			w.recv(m...)
			w.talk("a", "b", 1)
			return w
		})
		add("jump: exact limit", func() *world {
			w := pair(seed+2, "mem", 2)
			w.est("a", "b", -1)
			w.talk("a", "b", 1)
			m := w.send("a", "b", 25008, 0, 4, 25005, 25006, 25007)
			w.recv(at(m, 0, 1)...)       // index 5
			w.recv(at(m, 3, 4)...)       // 25006: 25001 skipped
			w.recv(at(m, 2)...)          // 25005: exactly 25000
			w.recv(at(m, 3, 4, 2, 0)...) // now fine, then replays
			return w
		})
	}
	if in("C10", "C01", "C02", "C08", "C11", "C24") {
		for i, to := range []uint32{half - 1, half - 2, half, half - 12000, whole - 60000} {
			i, to := i, to
			add(fmt.Sprintf("high counters %d", i), func() *world {
				w := pair(seed+170+int64(i), flav(i), 3)
				lift := func(p, r string) { w.do(M{"e": "lft", "p": p, "r": r, "to": int(to)}) }
				w.est("a", "b", 0)
				old := w.send("a", "b", 4)
				w.recv(at(old, 2, 0)...)
				lift("a", "b")
				m := w.send("a", "b", 6) // pre-key messages
				w.recv(at(m, 4, 0, 5, 1, 1, 3, 2, 0)...)
				w.recv(old...)
				w.recv(w.send("b", "a", 2)...) // the chain ends there
				w.talk("a", "b", 1)
				x := w.send("b", "a", 2)
				lift("b", "a")
				w.recv(x...)
				n := w.send("b", "a", 25004, 0, 1, 2, 23000, 25000, 25001, 25002, 25003)
				w.recv(at(n, 5, 6, 7)...)
				w.recv(at(n, 4, 3, 7, 2, 0, 5, 6, 6)...)
				w.recv(w.send("a", "b", 1)...)
				lift("a", "b")
				late := w.send("a", "b", 3)
				w.est("a", "b", 1)
				w.talk("a", "b", 1)
				w.recv(late...) // of an archived session
				w.recv(late...)
				w.talk("b", "a", 1)
				w.recv(n...)
				return w
			})
		}
	}
	if in("C10") {
		add("jump: between devices of one user", func() *world {
			w := ownDevices(seed+3, "mem")
			w.est("a", "a2", 0)
			m := w.send("a", "a2", 25003, 0, 23000, 25001, 25002)
			w.recv(at(m, 2, 0, 1, 3, 2)...)
			w.talk("a2", "a", 2)
			return w
		})
		add("jump: far beyond between devices of one user", func() *world {
			w := ownDevices(seed+4, "mem")
			w.est("a", "a2", -1)
			w.talk("a", "a2", 1)
			m := w.send("a", "a2", 66002, 0, 463, 464, 64000, 65000, 65999, 66000, 66001)
			w.recv(at(m, 6, 0, 2, 5, 4, 3, 7, 6, 5)...)
			w.talk("a2", "a", 1)
			return w
		})
		add("jump: two in a row", func() *world {
			w := pair(seed+5, "mem", 1)
			w.est("a", "b", 0)
			m := w.send("a", "b", 33001, 0, 8000, 8001, 10000, 10001, 31000, 31001, 32999, 33000)
			w.recv(at(m, 3, 2, 8, 1, 4, 5, 6, 7, 0)...)
			return w
		})
		for v := 0; v < 3; v++ {
			v := v
			add(fmt.Sprintf("skipped keys: eviction %d", v), func() *world {
				w := pair(seed+10+int64(v), flav(v), 1)
				w.est("a", "b", -1)
				w.talk("a", "b", 1)
				var keep []int
				for _, x := range []int{0, 1, 2, 498, 499, 500, 501, 502, 998, 999, 1000, 1001, 1498, 1499, 1500, 1501, 1999, 2000, 2001, 2002, 2499, 2500, 2501, 2998, 2999, 3000, 3001, 3002} {
					keep = append(keep, x)
				}
				m := w.send("a", "b", 3003, keep...)
				by := map[int]int{}
				for i, k := range keep {
					if i < len(m) {
						by[k] = m[i]
					}
				}
				get := func(cs ...int) {
					for _, c := range cs {
						if by[c] != 0 {
							w.recv(by[c])
						}
					}
				}
				switch v {
				case 0: // exactly 2000 skipped: none lost
					get(2000, 0, 1, 2, 1999, 2001, 2001)
				case 1: // 2001 skipped: the oldest is lost
					get(2001, 0, 1, 2, 2000, 2002, 499)
				case 2: // in steps, with some used in between
					get(1500, 0, 499, 999, 3000, 1, 500, 501, 998, 1000, 1001, 502, 1498, 2000, 2999, 3001, 498, 3002)
				}
				w.talk("b", "a", 1)
				return w
			})
		}
	}
	if in("C10", "C01") {
		for v := 0; v < 2; v++ {
			v := v
			add(fmt.Sprintf("skipped keys: full chains together %d", v), func() *world {
				w := pair(seed+600+int64(v), "mem", 1)
				w.est("a", "b", v-1)
				var held []int
				for i := 0; i < 5; i++ {
					n := []int{2000, 1999, 2001, 1200, 2000}[(i+v)%5]
					m := w.send("a", "b", n+1, 0, 1, 2, n/2, n-1, n)
					w.recv(at(m, 5)...)
					held = append(held, m...)
					w.recv(w.send("b", "a", 1)...)
				}
				if v == 1 {
					for i, j := 0, len(held)-1; i < j; i, j = i+1, j-1 {
						held[i], held[j] = held[j], held[i]
					}
				}
				w.recv(held...)
				w.recv(held...)
				w.talk("a", "b", 1)
				return w
			})
		}
	}
	if in("C06", "C01", "C18", "C24") {
		for v := 0; v < 3; v++ {
			v := v
			add(fmt.Sprintf("many messages before an answer %d", v), func() *world {
				w := pair(seed+610+int64(v), flav(v+1), 3)
				w.est("a", "b", v-1)
				m := w.send("a", "b", 1100, 0, 1, 15, 16, 63, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025, 1099)
				switch v {
				case 0:
					w.recv(m...)
				case 1:
					for i := len(m) - 1; i >= 0; i-- {
						w.recv(m[i])
					}
				case 2: // crossed with the other's
					w.est("b", "a", 1)
					x := w.send("b", "a", 300, 0, 99, 100, 199, 200, 256, 299)
					w.recv(at(m, 11, 3, 22)...)
					w.recv(at(x, 4)...)
					w.recv(w.send("a", "b", 150, 0, 120, 149)...)
					w.recv(x...)
					w.recv(m...)
				}
				more := w.send("a", "b", 130, 0, 99, 100, 129)
				w.recv(at(more, 3, 0)...)
				w.talk("b", "a", 2)
				w.recv(more...)
				return w
			})
		}
	}
	if in("C10", "C01", "C09") {
		for v := 0; v < 4; v++ {
			v := v
			add(fmt.Sprintf("chains: delayed messages of many chains %d", v), func() *world {
				w := pair(seed+20+int64(v), flav(v), 1)
				w.est("a", "b", v%2-1)
				var held, last []int
				for i := 0; i < 9; i++ {
					m := w.send("a", "b", 3)
					held = append(held, at(m, 0, 1)...)
					w.recv(at(m, 2)...)
					last = m
					w.recv(w.send("b", "a", 1)...)
				}
				_ = last
				switch v {
				case 0: // newest first
					for i := len(held) - 1; i >= 0; i-- {
						w.recv(held[i])
					}
				case 1: // oldest first
					w.recv(held...)
				case 2: // while the conversation goes on
					for i := len(held) - 1; i >= 0; i -= 3 {
						w.recv(held[i])
						w.talk("b", "a", 1)
					}
					w.recv(held...)
				case 3: // use of an old chain does not keep it longer
					for i := 0; i < len(held); i++ {
						w.recv(held[(i*7)%len(held)])
					}
				}
				w.recv(held...)
				if focus == "C09" {
					w.do(M{"e": "cmp", "p": "b", "full": true})
					w.do(M{"e": "cmp", "p": "a", "full": false})
				}
				w.talk("a", "b", 1)
				return w
			})
		}
	}
	if in("C11", "C10", "C02") {
		for v := 0; v < 4; v++ {
			v := v
			add(fmt.Sprintf("sessions: more than are kept %d", v), func() *world {
				w := pair(seed+30+int64(v), flav(v), 45)
				var held, first []int
				for i := 0; i < 43; i++ {
					p, r := "a", "b"
					if v == 1 && i%2 == 1 {
						p, r = "b", "a"
					}
					opk := i
					if v == 2 {
						opk = -1
					}
					w.est(p, r, opk)
					m := w.send(p, r, 2)
					first = append(first, at(m, 0)...)
					w.recv(at(m, 0)...)
					held = append(held, at(m, 1)...)
				}
				switch v {
				case 0:
					for i := len(held) - 1; i >= 0; i-- {
						w.recv(held[i])
					}
				case 1, 2:
					w.recv(held...)
				case 3:
					for i := range held {
						w.recv(held[(i*10+5)%len(held)])
						w.recv(first[(i*10+5)%len(first)])
					}
				}
				w.talk("b", "a", 1)
				w.talk("a", "b", 1)
				if v != 2 { // without one-time pre-keys a forgotten session can be set up again
					w.recv(held...)
					w.recv(first...)
				}
				w.talk("a", "b", 1)
				return w
			})
		}
	}
	if in("C11", "C06", "C08", "C01", "C24", "C23") {
		for v := 0; v < 8; v++ {
			v := v
			add(fmt.Sprintf("simultaneous initiation %d", v), func() *world {
				w := pair(seed+40+int64(v), flav(v), 3)
				w.est("a", "b", v%2-1)
				w.est("b", "a", (v/2)%2-1)
				x := w.send("a", "b", 2)
				y := w.send("b", "a", 2)
				if v&4 == 0 {
					w.recv(at(x, 0)...)
					w.recv(at(y, 0)...)
				} else {
					w.recv(at(y, 1)...)
					w.recv(at(x, 1)...)
				}
				x2 := w.send("a", "b", 2)
				y2 := w.send("b", "a", 2)
				w.recv(at(x2, 1)...)
				w.recv(at(y2, 0)...)
				w.talk("a", "b", 2)
				w.talk("b", "a", 1)
				w.recv(append(append(append(x, y...), x2...), y2...)...)
				w.do(M{"e": "arc", "p": "a", "r": "b"})
				w.send("a", "b", 1)
				w.recv(w.send("b", "a", 1)...)
				w.talk("a", "b", 1)
				return w
			})
		}
	}
	if in("C01", "C02", "C06", "C11", "C24") {
		for v := 0; v < 6; v++ {
			v := v
			add(fmt.Sprintf("sessions set up directly %d", v), func() *world {
				w := pair(seed+60+int64(v), flav(v), 3)
				var ms []int
				direct := func(p, r string, one bool) {
					c := w.bundleCmd(p, r, 0)
					opk := []any{}
					if one {
						opk = []any{[]any{"opk", r, ids(w.P[r].opkID[0])}}
					}
					w.do(M{"e": "ini", "p": p, "r": r, "spkid": c["spkid"], "opk": opk})
				}
				for i := 0; i < 3+v; i++ {
					direct("a", "b", (i+v)%2 == 1)
					// the responder sends first, on its signed pre-key
					ms = append(ms, w.send("b", "a", 1+(i*v+i)%4)...)
					if v == 3 {
						w.recv(w.send("a", "b", 1)...)
					}
					if v == 4 && i == 1 {
						w.est("a", "b", -1)
						ms = append(ms, w.send("a", "b", 1)...)
					}
				}
				w.r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
				for i, m := range ms {
					if w.msgs[m-1].to == "a" {
						w.recv(m)
					}
					if v == 2 && i%3 == 0 {
						w.recv(m)
					}
					if v == 5 && i%4 == 0 {
						w.talk("a", "b", 1)
					}
				}
				w.talk("a", "b", 2)
				w.talk("b", "a", 1)
				w.recv(ms...)
				w.talk("a", "b", 1)
				return w
			})
		}
	}
	if in("C17") {
		out = append(out, faultScenarios(seed)...)
	}
	if in("C06", "C18", "C24", "C07", "C23") {
		pool := append([]uint32{4, 9, 100, 32767, 32768, 8388607, 0xFFFFFF, 0x1000000}, idPool...)
		for i := range pool {
			i := i
			add(fmt.Sprintf("identifiers %d", pool[i]), func() *world {
				regs := []uint32{0, 1, 0x3FFF, 0x4000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}
				m := two(rand.New(rand.NewSource(seed)))
				m[0].reg, m[1].reg = regs[i%len(regs)], regs[(i+3)%len(regs)]
				w := newWorld(seed+60+int64(i), m, flav(i), 2)
				w.keys("a", 0)
				w.do(M{"e": "spk", "p": "b", "id": ids(pool[(i+5)%len(pool)])})
				if i%4 == 0 {
					w.do(M{"e": "spk", "p": "b", "id": "0"})
				}
				w.do(M{"e": "opk", "p": "b", "id": ids(pool[i])})
				w.do(M{"e": "opk", "p": "b", "id": ids(pool[(i+1)%len(pool)])})
				w.est("a", "b", 0)
				x := w.send("a", "b", 2)
				w.est("a", "b", -1)
				y := w.send("a", "b", 2)
				w.recv(at(x, 1)...)
				w.recv(at(y, 0)...)
				z := w.send("a", "b", 1)
				w.recv(z...)
				w.recv(at(x, 0)...)
				w.talk("b", "a", 1)
				w.recv(at(y, 1)...)
				w.recv(at(x, 0, 1)...)
				w.talk("a", "b", 1)
				return w
			})
		}
	}
	if in("C06") {
		add("one-time pre-key 0", func() *world {
			w := newWorld(seed, two(rand.New(rand.NewSource(seed))), "mem", 0)
			w.keys("a", 0)
			w.keys("b", 0)
			w.do(M{"e": "opk", "p": "b", "id": "0"})
			w.est("a", "b", 0)
			w.recv(w.send("a", "b", 1)...)
			return w
		})
		for v := 0; v < 6; v++ {
			v := v
			add(fmt.Sprintf("any first message %d", v), func() *world {
				w := pair(seed+80+int64(v), flav(v), 2)
				w.est("a", "b", v%2-1)
				x := w.send("a", "b", 4)
				w.recv(at(x, v%4)...)
				y := w.send("b", "a", 3)
				x2 := w.send("a", "b", 2) // not answered yet
				w.recv(at(x2, 1)...)
				w.recv(at(y, 2)...)
				z := w.send("a", "b", 2) // answered
				w.recv(at(z, 1)...)
				w.recv(x...)
				w.recv(x2...)
				w.recv(z...)
				w.recv(y...)
				w.talk("a", "b", 2)
				return w
			})
		}
		for k := 0; k < 4; k++ {
			k := k
			add(fmt.Sprintf("bundle signature bits %d", k), func() *world {
				w := pair(seed+90, "mem", 1)
				for i := k; i < 512; i += 4 {
					c := w.estCmd("a", "b", 0)
					c["sig"], c["how"], c["pos"] = false, "flip", i
					w.do(c)
				}
				w.est("a", "b", 0)
				w.talk("a", "b", 1)
				return w
			})
		}
		add("bundle signature forms", func() *world {
			w := pair(seed+91, "ser", 1)
			for i := 0; i < 12; i++ {
				for _, how := range []string{"signer", "data", "short", "long", "empty", "keybytes"} {
					c := w.estCmd("a", "b", i%2-1)
					c["sig"], c["how"] = false, how
					w.do(c)
				}
			}
			w.est("a", "b", 0)
			w.talk("a", "b", 1)
			return w
		})
	}
	if in("C03", "C02", "C04") {
		for v := 0; v < 8; v++ {
			v := v
			add(fmt.Sprintf("every bit of a message %d", v), func() *world {
				w := pair(seed+100+int64(v), flav(v), 2)
				w.est("a", "b", v%2-1)
				m := w.send("a", "b", 2)
				if v >= 4 {
					w.recv(m...)
					w.recv(w.send("b", "a", 1)...)
					m = w.send("a", "b", 2)
				}
				if len(m) < 2 {
					return w
				}
				n := len(w.msgs[m[1]-1].inner)
				for i := v % 4; i < 8*n; i += 4 {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[1], "d": M{"ok": false, "how": "bit", "pos": i}})
				}
				for i := v % 4; i < n; i += 4 {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[1], "d": M{"ok": false, "how": "cut", "pos": i}})
				}
				w.recv(m[1], m[0])
				// and again, now that it was received
				for i := v % 4; i < 8*n; i += 12 {
					w.do(M{"e": "dec", "p": "b", "r": "a", "m": m[1], "d": M{"ok": false, "how": "bit", "pos": i}})
				}
				w.recv(m...)
				w.talk("b", "a", 1)
				return w
			})
		}
	}
	if in("C03", "C04", "C01") {
		for i, n := range []int{300, 5000, 20000, 70000, 270000} {
			i, n := i, n
			add(fmt.Sprintf("bits of a message of %d bytes", n), func() *world {
				w := pair(seed+150+int64(i), flav(i), 2)
				w.est("a", "b", i%2-1)
				long := func(p, r string) int {
					w.do(M{"e": "enc", "p": p, "r": r, "n": 1, "keep": []any{0}, "len": n})
					return len(w.msgs)
				}
				for k := 0; k < 3; k++ {
					p, r := "a", "b"
					if k == 1 {
						p, r = r, p
					}
					m := long(p, r)
					if m == 0 || w.msgs[m-1].from != p {
						return w
					}
					size := len(w.msgs[m-1].inner)
					for _, pos := range spread(size) {
						w.do(M{"e": "dec", "p": r, "r": p, "m": m, "d": M{"ok": false, "how": "bit", "pos": 8*pos + k + pos%5}})
					}
					for _, pos := range []int{size - 1, size - 8, size - 9, size - 16, size / 2, 4096, 16, 1} {
						if pos > 0 && pos < size {
							w.do(M{"e": "dec", "p": r, "r": p, "m": m, "d": M{"ok": false, "how": "cut", "pos": pos}})
						}
					}
					w.recv(m)
					w.recv(m)
				}
				w.talk("b", "a", 1)
				return w
			})
		}
	}
	if in("C17", "C08") {
		for v := 0; v < 6; v++ {
			v := v
			add(fmt.Sprintf("random numbers come in pieces %d", v), func() *world {
				w := pair(seed+160+int64(v), flav(v), 4)
				w.log[0]["dribble"] = true
				w.rnd.chunk = 1 + v%3*7
				for i := 0; i < 4; i++ {
					w.est("a", "b", i-1)
					w.talk("a", "b", 2)
					w.est("b", "a", i-1)
					w.talk("b", "a", 2)
				}
				return w
			})
		}
	}
	if in("C01", "C18", "C23") {
		for k := 0; k < 4; k++ {
			k := k
			add(fmt.Sprintf("plaintext lengths %d", k), func() *world {
				w := pair(seed+110, flav(k), 1)
				w.est("a", "b", 0)
				lens := []int{255, 256, 1000, 4095, 4096, 4097, 65535, 65536, 100000, 1 << 20}
				for n := 0; n <= 66; n++ {
					lens = append(lens, n)
				}
				var ms []int
				for i, n := range lens {
					if i%4 != k {
						continue
					}
					before := len(w.msgs)
					p, r := "a", "b"
					if i%8 >= 4 && i > 16 {
						p, r = "b", "a"
					}
					w.do(M{"e": "enc", "p": p, "r": r, "n": 1, "keep": []any{0}, "len": n})
					for j := before; j < len(w.msgs); j++ {
						ms = append(ms, j+1)
					}
					if i%3 == 0 {
						w.recv(ms...)
						ms = nil
					}
				}
				for i := len(ms) - 1; i >= 0; i-- {
					w.recv(ms[i])
				}
				return w
			})
		}
	}
	if in("C01", "C08", "C24", "C09", "C23") {
		rounds := 60
		if deep {
			rounds = 250
		}
		add("long conversation", func() *world {
			w := pair(seed+120, "ser", 1)
			w.est("a", "b", 0)
			for i := 0; i < rounds; i++ {
				m := w.send("a", "b", 1+i%3)
				w.recv(at(m, len(m)-1)...)
				m2 := w.send("b", "a", 1+i%2)
				w.recv(m2...)
				if i%4 == 3 {
					w.recv(at(m, 0)...)
				}
			}
			return w
		})
		add("very long chain", func() *world {
			w := pair(seed+122, "ser", 1)
			w.est("a", "b", 0)
			n := 4200
			if deep {
				n = 24000
			}
			m := w.send("a", "b", n, 0, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, n-1)
			w.recv(at(m, len(m)-1)...)
			for i := len(m) - 2; i >= 0; i-- {
				w.recv(m[i])
			}
			w.talk("b", "a", 2)
			w.talk("a", "b", 2)
			return w
		})
		add("one-sided conversation", func() *world {
			w := pair(seed+121, "mem", 1)
			w.est("a", "b", -1)
			m := w.send("a", "b", 300, 0, 10, 100, 200, 250, 255, 256, 257, 299)
			w.recv(at(m, 8, 7, 6, 5, 4, 3, 2, 1, 0)...)
			m = w.send("b", "a", 300, 0, 1, 127, 128, 129, 299)
			w.recv(m...)
			w.talk("a", "b", 2)
			return w
		})
	}
	if in("C05") {
		out = append(out, identityScenarios(seed)...)
	}
	if in("C16") {
		for v := 0; v < 10; v++ {
			v := v
			add(fmt.Sprintf("similar addresses %d", v), func() *world {
				r := rand.New(rand.NewSource(0))
				var ms []member
				for i := 0; i < 1000; i++ { // the v-th set
					ms = alike(r)
					if fmt.Sprint(ms) == fmt.Sprint(alikeSets()[v]) {
						break
					}
				}
				w := newWorld(seed+130+int64(v), ms, flav(v), 2)
				for _, p := range w.names {
					w.keys(p, 4)
				}
				all := []int{}
				for i, p := range w.names {
					for j, q := range w.names {
						if i < j {
							w.est(p, q, -1)
							all = append(all, w.send(p, q, 2)...)
						}
					}
				}
				for _, m := range all { // to the wrong device first
					x := w.msgs[m-1]
					for _, q := range w.names {
						if q != x.to && q != x.from {
							w.do(M{"e": "dec", "p": q, "r": x.from, "m": m, "d": M{"ok": false}})
						}
					}
				}
				for i := len(all) - 1; i >= 0; i-- {
					w.recv(all[i])
				}
				// change trust and archive for one only
				a := w.names[0]
				w.do(M{"e": "tru", "p": a, "r": w.names[1], "k": []any{"evil", 1}})
				w.do(M{"e": "arc", "p": a, "r": w.names[2]})
				for _, q := range w.names[1:] {
					w.recv(w.send(a, q, 1)...)
					w.recv(w.send(q, a, 1)...)
				}
				return w
			})
		}
	}
	if in("C09") {
		add("healing", func() *world {
			w := pair(seed+140, "ser", 2)
			w.est("a", "b", 0)
			w.talk("a", "b", 2)
			w.do(M{"e": "snp", "p": "a", "full": true})
			w.do(M{"e": "snp", "p": "b", "full": true})
			for i := 0; i < 4; i++ {
				w.recv(w.send("a", "b", 2)...)
				w.recv(w.send("b", "a", 2)...)
			}
			w.do(M{"e": "cmp", "p": "a", "full": true, "snap": 1})
			w.do(M{"e": "cmp", "p": "b", "full": true, "snap": 2})
			w.do(M{"e": "cmp", "p": "b", "full": true})
			return w
		})
		for v := 0; v < 4; v++ {
			v := v
			add(fmt.Sprintf("archived sessions %d", v), func() *world {
				w := pair(seed+145+int64(v), flav(v), 6)
				cmp := func() {
					w.do(M{"e": "cmp", "p": "a", "full": v&1 == 0})
					w.do(M{"e": "cmp", "p": "b", "full": v&1 == 0})
				}
				each := func(ms ...int) {
					for _, m := range ms {
						w.recv(m)
						cmp()
					}
				}
				var held []int
				for i := 0; i < 5; i++ {
					p, r := "a", "b"
					if v&2 != 0 && i%2 == 1 {
						p, r = r, p
					}
					w.est(p, r, i)
					m := w.send(p, r, 4)
					each(at(m, 1)...)
					held = append(held, at(m, 0, 2, 3)...)
					if i%2 == 0 {
						n := w.send(r, p, 3)
						each(at(n, 2)...)
						held = append(held, at(n, 0, 1)...)
						m = w.send(p, r, 2)
						each(at(m, 1)...)
						held = append(held, at(m, 0)...)
					}
				}
				x := w.send("a", "b", 2)
				w.do(M{"e": "arc", "p": "a", "r": "b"})
				y := w.send("b", "a", 2)
				each(y...)
				each(x...)
				for i := range held {
					each(held[(i*7)%len(held)])
				}
				each(held...)
				w.talk("a", "b", 1)
				cmp()
				return w
			})
		}
		add("skipped and evicted", func() *world {
			w := pair(seed+141, "ser", 2)
			w.est("a", "b", 0)
			w.talk("a", "b", 1)
			m := w.send("a", "b", 2100, 0, 5, 50, 98, 99, 100, 101, 150, 190, 2099)
			w.recv(at(m, 9)...)
			w.do(M{"e": "cmp", "p": "b", "full": true})
			w.recv(at(m, 5, 6, 7)...)
			w.do(M{"e": "cmp", "p": "b", "full": true})
			return w
		})
	}
	return out
}

func alikeSets() [][]member {
	var out [][]member
	seen := map[string]bool{}
	r := rand.New(rand.NewSource(0))
	for len(out) < 10 {
		m := alike(r)
		if s := fmt.Sprint(m); !seen[s] {
			seen[s] = true
			out = append(out, m)
		}
	}
	return out
}

func (w *world) estCmd(p, r string, opk int) M {
	q := w.P[r]
	spk := ids(q.spkID[len(q.spkID)-1])
	c := M{"e": "bun", "p": p, "r": r, "idk": []any{"id", r}, "spk": []any{"spk", r, spk}, "spkid": spk, "opk": []any{}, "opkid": []any{}, "sig": true}
	if opk >= 0 {
		id := ids(q.opkID[opk])
		c["opk"], c["opkid"] = []any{[]any{"opk", r, id}}, []any{id}
	}
	return c
}

// identityScenarios: what is pinned, and which paths enforce it.
func identityScenarios(seed int64) []scenario {
	var out []scenario
	keys := map[string][]any{
		"evil": {"evil", 1}, "alias": {"alias", []any{"id", "b"}}, "other": {"id", "c"}, "same": {"id", "b"},
	}
	for _, name := range []string{"evil", "alias", "other", "same"} {
		k := keys[name]
		for v := 0; v < 4; v++ {
			v := v
			out = append(out, scenario{fmt.Sprintf("pinned %s %d", name, v), func() *world {
				w := newWorld(seed+200+int64(v), three(rand.New(rand.NewSource(seed))), []string{"mem", "ser"}[v%2], 3)
				for _, p := range w.names {
					w.keys(p, 3)
				}
				tru := M{"e": "tru", "p": "a", "r": "b", "k": k}
				switch v {
				case 0: // pinned before anything
					w.do(tru)
					w.est("a", "b", 0)
					w.est("b", "a", 0)
					w.recv(w.send("b", "a", 1)...)
				case 1: // with a session: encrypting and decrypting
					w.est("a", "b", 0)
					w.talk("a", "b", 1)
					m := w.send("b", "a", 3)
					x := w.send("a", "b", 1)
					w.do(tru)
					w.recv(at(m, 0)...)
					w.send("a", "b", 1)
					w.est("a", "b", 1)
					w.recv(x...)
					w.do(M{"e": "tru", "p": "a", "r": "b", "k": []any{"id", "b"}})
					w.recv(m...)
					w.talk("a", "b", 1)
				case 2: // with an archived session
					w.est("a", "b", 0)
					w.talk("a", "b", 1)
					m := w.send("b", "a", 3)
					w.est("a", "b", 1)
					w.do(tru)
					w.recv(at(m, 1)...)
					w.do(M{"e": "clr", "p": "a"})
					w.recv(at(m, 1, 0)...)
					w.talk("a", "b", 1)
				case 3: // the other side sets up
					w.est("b", "a", 0)
					m := w.send("b", "a", 3)
					w.do(tru)
					w.recv(at(m, 0)...)
					w.do(M{"e": "clr", "p": "a"})
					if len(m) < 2 {
						return w
					}
					w.do(M{"e": "dec", "p": "a", "r": "b", "m": m[0], "d": M{"idk": []any{"evil", 2}}})
					w.do(M{"e": "dec", "p": "a", "r": "b", "m": m[0], "d": M{"ok": false}})
					w.do(M{"e": "dec", "p": "a", "r": "c", "m": m[1]}) // under another address
					w.recv(m...)
					w.talk("a", "b", 1)
				}
				w.talk("a", "c", 0)
				w.est("a", "c", 0)
				w.talk("a", "c", 1)
				return w
			}})
		}
	}
	return out
}

// faultScenarios: every store call of every kind of operation fails, is
// done but reported as failed, or is where the process dies.
func faultScenarios(seed int64) []scenario {
	var out []scenario
	kinds := []string{"bundle", "bundle again", "first encryption", "later encryption", "new with opk", "new without opk", "known pre-key message", "ratchet step", "next", "skipped", "archived", "rejected"}
	for ki, kind := range kinds {
		for _, mode := range []string{"err", "post", "crash", "rnd"} {
			for n := 1; n <= 10; n++ {
				if mode == "rnd" && n > 3 {
					continue
				}
				kind, mode, n, ki := kind, mode, n, ki
				out = append(out, scenario{fmt.Sprintf("fault in %s: %s at %d", kind, mode, n), func() *world {
					flavor := []string{"mem", "ser"}[n%2]
					w := pair(seed+300+int64(ki), flavor, 3)
					var op M
					dec := func(ms []int, i int) M {
						if i >= len(ms) {
							return nil
						}
						m := ms[i]
						x := w.msgs[m-1]
						return M{"e": "dec", "p": x.to, "r": x.from, "m": m}
					}
					enc := func(p, r string) M {
						return M{"e": "enc", "p": p, "r": r, "n": 1, "keep": []any{0}}
					}
					switch kind {
					case "bundle":
						op = w.estCmd("a", "b", 0)
					case "bundle again":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						op = w.estCmd("a", "b", 1)
					case "first encryption":
						w.est("a", "b", 0)
						op = enc("a", "b")
					case "later encryption":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						op = enc("a", "b")
					case "new with opk":
						w.est("a", "b", 0)
						op = dec(w.send("a", "b", 1), 0)
					case "new without opk":
						w.est("a", "b", -1)
						op = dec(w.send("a", "b", 1), 0)
					case "known pre-key message":
						w.est("a", "b", 0)
						m := w.send("a", "b", 2)
						w.recv(at(m, 0)...)
						op = dec(m, 1)
					case "ratchet step":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						op = dec(w.send("a", "b", 1), 0)
					case "next":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						m := w.send("a", "b", 2)
						w.recv(at(m, 0)...)
						op = dec(m, 1)
					case "skipped":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						m := w.send("a", "b", 2)
						w.recv(at(m, 1)...)
						op = dec(m, 0)
					case "archived":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						m := w.send("a", "b", 1)
						w.est("b", "a", 0)
						op = dec(m, 0)
					case "rejected":
						w.est("a", "b", 0)
						w.talk("a", "b", 1)
						op = dec(w.send("a", "b", 1), 0)
						if op != nil {
							op["d"] = M{"ok": false, "how": "mac"}
						}
					}
					if op == nil {
						return w
					}
					again := M{}
					for k, v := range op {
						again[k] = v
					}
					op["flt"] = M{"at": n, "mode": mode}
					w.do(op)
					w.do(again)
					if again["e"] == "dec" {
						w.recv(toInt(again["m"]))
					}
					x := w.send("a", "b", 2)
					w.recv(at(x, 1)...)
					y := w.send("b", "a", 2)
					w.recv(at(y, 1)...)
					w.recv(x...)
					w.recv(y...)
					w.talk("a", "b", 1)
					for i := range w.msgs {
						w.recv(i + 1)
					}
					return w
				}})
			}
		}
	}
	return out
}

// spread chooses positions in a message of n bytes: both ends, around powers
// of two, and some in between.
func spread(n int) []int {
	seen := map[int]bool{}
	put := func(i int) {
		if i >= 0 && i < n {
			seen[i] = true
		}
	}
	for i := 0; i < 12; i++ {
		put(i)
		put(n - 1 - i)
	}
	for k := 4; k < n; k *= 2 {
		for _, d := range []int{-1, 0, 1} {
			put(k + d)
			put(n - k + d)
		}
	}
	for i := 0; i < 40; i++ {
		put(i * n / 40)
	}
	out := []int{}
	for i := range seen {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}
