package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

// profile says how random histories are made.
type profile struct {
	focus   string
	flavor  string
	members func(r *rand.Rand) []member
	steps   int
	bun     int // weights
	enc     int
	dec     int
	replay  int
	mis     int
	mut     int
	prb     int
	arc     int
	tru     int
	clr     int
	spk     int
	opk     int
	cmp     int
	ini     int
	ppk     int
	fault   int  // per mille of operations
	badBun  int  // per cent of bundles
	noOpk   int  // per cent
	inOrder int  // per cent
	batch   int  // largest batch
	probe   bool // probe every message at the end
	plen    int  // -1: any
	lift    int  // per cent of histories which reach high counters
}

func mb(name, an string, dev uint32, share string, reg uint32) member {
	return member{name: name, addr: address.Address{Name: an, DeviceID: address.DeviceID(dev)}, shareWith: share, reg: reg}
}

func two(r *rand.Rand) []member {
	return []member{mb("a", "+14151111111", 1, "", 1+uint32(r.Intn(16380))), mb("b", "+14151111112", 1, "", 1+uint32(r.Intn(16380)))}
}

func three(r *rand.Rand) []member {
	return append(two(r), mb("c", "9d0652a3-dcc3-4d11-975f-74d61598733f", 1, "", r.Uint32()))
}

// several devices of one user, and another user
func devices(r *rand.Rand) []member {
	return []member{
		mb("a", "+14151111111", 1, "", r.Uint32()), mb("a2", "+14151111111", 2, "a", r.Uint32()),
		mb("b", "+14151111112", 1, "", r.Uint32()),
	}
}

// addresses which are easily confused
func alike(r *rand.Rand) []member {
	sets := [][]member{
		{mb("a", "x", 1, "", 5), mb("b", "bob", 1, "", 6), mb("b2", "bob", 2, "", 7), mb("b3", "bob1", 2, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "a1", 2, "", 6), mb("b2", "a", 12, "", 7), mb("b3", "a12", 0, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "bob", 1, "", 6), mb("b2", "bob", 0x80000001, "", 7), mb("b3", "bob", 257, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "Bob", 1, "", 6), mb("b2", "bob", 1, "", 7), mb("b3", "bob ", 1, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "a.1", 1, "", 6), mb("b2", "a", 1, "", 7), mb("b3", "", 1, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "bob", 65537, "", 6), mb("b2", "bob", 1, "", 7), mb("b3", "bob", 0xFFFFFFFF, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "bob:1", 2, "", 6), mb("b2", "bob", 1, "", 7), mb("b3", "bob:1:2", 0, "", 8)},
		{mb("a", "x", 1, "", 5), mb("b", "a/1", 1, "", 6), mb("b2", "a/", 11, "", 7), mb("b3", "\xff", 1, "", 8)},
		{mb("a", "x", 0, "", 5), mb("b", "x", 1, "", 6), mb("b2", "x", 2, "", 7), mb("b3", "x", 3, "", 8)},
		{mb("a", strings.Repeat("n", 40)+"0", 1, "", 5), mb("b", strings.Repeat("n", 40)+"1", 1, "", 6), mb("b2", strings.Repeat("n", 40)+"2", 1, "", 7), mb("b3", strings.Repeat("n", 41), 1, "", 8)},
	}
	return sets[r.Intn(len(sets))]
}

func mixed(r *rand.Rand) []member {
	switch r.Intn(5) {
	case 0:
		return three(r)
	case 1:
		return devices(r)
	case 2:
		return alike(r)
	}
	return two(r)
}

var idPool = []uint32{1, 2, 3, 7, 127, 128, 255, 256, 1000, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF}

func (w *world) newSpk(p string) {
	id := uint32(w.r.Intn(200) + 1)
	if w.r.Intn(3) == 0 {
		id = pick(w.r, idPool)
	}
	for _, x := range w.P[p].spkID {
		if x == id {
			return
		}
	}
	w.do(M{"e": "spk", "p": p, "id": ids(id)})
}

func (w *world) newOpk(p string) {
	id := uint32(w.r.Intn(5000) + 1)
	if w.r.Intn(3) == 0 {
		id = pick(w.r, idPool)
	}
	for _, x := range w.P[p].opkID {
		if x == id {
			return
		}
	}
	w.do(M{"e": "opk", "p": p, "id": ids(id)})
}

func (w *world) other(p string) string {
	for {
		if q := pick(w.r, w.names); q != p {
			return q
		}
	}
}

// bundleCmd makes a bundle of party r for p.
func (w *world) bundleCmd(p, r string, opk int) M {
	q := w.P[r]
	spk := ids(q.spkID[len(q.spkID)-1])
	if w.r.Intn(4) == 0 {
		spk = ids(pick(w.r, q.spkID))
	}
	c := M{"e": "bun", "p": p, "r": r, "idk": []any{"id", r}, "spk": []any{"spk", r, spk}, "spkid": spk, "opk": []any{}, "opkid": []any{}, "sig": true}
	if opk > 0 && len(q.opkID) > 0 {
		id := ids(q.opkID[len(q.opkID)-1])
		if w.r.Intn(3) > 0 {
			id = ids(pick(w.r, q.opkID))
		}
		c["opk"], c["opkid"] = []any{[]any{"opk", r, id}}, []any{id}
	}
	return c
}

// spoil makes a bundle wrong in some way.
func (w *world) spoil(c M) M {
	r := str(c["r"])
	switch w.r.Intn(9) {
	case 0, 1, 2:
		c["sig"] = false
	case 3: // somebody else's identity, properly signed by it
		c["idk"] = []any{"evil", 1 + w.r.Intn(len(w.evil))}
	case 4:
		c["idk"] = []any{"id", w.other(r)}
	case 5: // the identity of r, but a signed pre-key it has not signed
		c["spk"], c["sig"] = []any{"evil", 1}, false
	case 6:
		c["spk"] = []any{"low"}
	case 7:
		if len(list(c["opk"])) > 0 {
			c["opk"] = []any{[]any{"low"}}
		} else {
			c["sig"] = false
		}
	case 8:
		c["idk"] = []any{"alias", []any{"id", r}}
	}
	return c
}

func (w *world) hasSession(p, r string) bool {
	_, ok, _ := w.P[p].sess.Load(bg, w.addr[r])
	return ok
}

func (w *world) fault(pm int) any {
	if pm == 0 || w.r.Intn(1000) >= pm {
		return nil
	}
	if w.r.Intn(5) == 0 {
		return M{"at": 1 + w.r.Intn(3), "mode": "rnd"}
	}
	return M{"at": 1 + w.r.Intn(9), "mode": pick(w.r, []string{"err", "post", "crash"})}
}

func withFault(c M, f any) M {
	if f != nil {
		c["flt"] = f
	}
	return c
}

// pending lists messages for p which it has not decrypted.
func (w *world) pending(p string) []int {
	var out []int
	for i, m := range w.msgs {
		if m.to == p && !m.seen[p] && m.from != p {
			out = append(out, i+1)
		}
	}
	return out
}

func (w *world) mutation(p string, mid int) M {
	m := w.msgs[mid-1]
	pks := []int{}
	for i, x := range w.msgs {
		if x.isPK {
			pks = append(pks, i+1)
		}
	}
	if w.r.Intn(2) == 0 {
		return M{"ok": false}
	}
	if w.r.Intn(25) == 0 {
		return M{"typ": "other"}
	}
	if !m.isPK {
		switch w.r.Intn(6) {
		case 0:
			return M{"ok": false, "rk": []any{"low"}}
		case 1:
			return M{"ok": false, "rk": []any{"evil", 1}}
		case 2:
			return M{"ok": false, "rk": []any{"rk", 1 + w.r.Intn(len(w.msgs))}}
		case 3:
			return M{"ok": false, "ctr": cc(m.sig.GetCounter()) + pick(w.r, []int{1, 2, 25001, 30000})}
		case 4:
			if len(pks) > 0 {
				k := pick(w.r, pks)
				d := w.envelope(k)
				d["idk"] = []any{"id", m.from}
				return d
			}
		case 5:
			return M{"ok": false, "rk": []any{"alias", []any{"rk", mid}}}
		}
		return M{"ok": false}
	}
	switch w.r.Intn(15) {
	case 0:
		return M{"typ": "sig"}
	case 1:
		return M{"base": []any{"alias", []any{"base", mid}}}
	case 2:
		return M{"base": []any{"evil", 1}}
	case 3:
		return M{"base": []any{"low"}}
	case 4:
		return M{"idk": []any{"evil", 2}}
	case 5:
		return M{"idk": []any{"low"}}
	case 6:
		return M{"idk": []any{"id", w.other(m.from)}}
	case 7:
		return M{"opk": []any{}}
	case 8:
		id := pick(w.r, append([]uint32{4242424}, w.P[p].opkID...))
		return M{"opk": []any{ids(id)}}
	case 9:
		id := pick(w.r, append([]uint32{4242424}, w.P[p].spkID...))
		return M{"spk": ids(id)}
	case 10:
		return M{"reg": "9"}
	case 11:
		d := w.envelope(pick(w.r, pks))
		d["idk"] = []any{"id", m.from}
		return d
	case 12:
		return M{"ok": false, "rk": []any{"low"}}
	case 13: // a fresh envelope around a tampered message
		return M{"ok": false, "base": []any{"evil", 1}}
	case 14:
		return M{"idk": []any{"alias", []any{"id", m.from}}}
	}
	return M{"ok": false}
}

// envelope is the set-up data of message k.
func (w *world) envelope(k int) M {
	pk := w.msgs[k-1].pk
	d := M{"typ": "pk", "base": []any{"base", k}, "spk": ids(pk.GetSignedPreKeyId()), "opk": []any{}}
	if pk.PreKeyId != nil {
		d["opk"] = []any{ids(pk.GetPreKeyId())}
	}
	return d
}

// modelled says whether the spec knows the keys a re-wrapped message names:
// a delivery under "alias" of the rk of a header etc. is always garbled, so
// only envelopes matter.
func (w *world) randomHistory(pf profile) {
	for _, p := range w.names {
		w.newSpk(p)
		for i := 0; i < 1+w.r.Intn(3); i++ {
			w.newOpk(p)
		}
	}
	total := pf.bun + pf.enc + pf.dec + pf.replay + pf.mis + pf.mut + pf.prb + pf.arc + pf.tru + pf.clr + pf.spk + pf.opk + pf.cmp + pf.ini + pf.ppk
	var snaps []M
	// start somewhere
	for i := 0; i < 1+w.r.Intn(2); i++ {
		p := pick(w.r, w.names)
		w.do(w.bundleCmd(p, w.other(p), w.r.Intn(100)-pf.noOpk+1))
	}
	lifting := pf.lift > 0 && w.r.Intn(100) < pf.lift
	w.lifting = lifting
	for i := 0; i < pf.steps && w.bad == ""; i++ {
		if lifting && w.r.Intn(12) == 0 {
			p := pick(w.r, w.names)
			w.do(M{"e": "lft", "p": p, "r": w.other(p), "to": int(w.liftTo())})
		}
		k := w.r.Intn(total)
		is := func(n int) bool {
			if k < n {
				k = 1 << 30
				return true
			}
			k -= n
			return false
		}
		p := pick(w.r, w.names)
		switch {
		case is(pf.bun):
			c := w.bundleCmd(p, w.other(p), w.r.Intn(100)-pf.noOpk+1)
			if w.r.Intn(100) < pf.badBun {
				c = w.spoil(c)
			}
			w.do(withFault(c, w.fault(pf.fault)))
		case is(pf.enc):
			r := w.other(p)
			for t := 0; t < 6 && !w.hasSession(p, r); t++ {
				p = pick(w.r, w.names)
				r = w.other(p)
			}
			n := 1
			if f := w.fault(pf.fault); f != nil {
				w.do(withFault(M{"e": "enc", "p": p, "r": r, "n": 1, "keep": []any{0}}, f))
				continue
			}
			if pf.batch > 1 && w.r.Intn(3) == 0 {
				n = 1 + w.r.Intn(pf.batch)
			}
			keep := []any{}
			for j := 0; j < n; j++ {
				if w.r.Intn(5) > 0 && len(keep) < 6 {
					keep = append(keep, j)
				}
			}
			c := M{"e": "enc", "p": p, "r": r, "n": n, "keep": keep}
			if pf.plen >= 0 {
				c["len"] = pf.plen
			}
			w.do(c)
		case is(pf.dec):
			pend := w.pending(p)
			for t := 0; t < 6 && len(pend) == 0; t++ {
				p = pick(w.r, w.names)
				pend = w.pending(p)
			}
			if len(pend) == 0 {
				continue
			}
			mid := pick(w.r, pend)
			if w.r.Intn(100) < pf.inOrder {
				mid = pend[0]
			} else if w.r.Intn(3) == 0 {
				mid = pend[len(pend)-1]
			}
			w.do(withFault(M{"e": "dec", "p": p, "r": w.msgs[mid-1].from, "m": mid}, w.fault(pf.fault)))
		case is(pf.replay):
			if len(w.msgs) == 0 {
				continue
			}
			mid := 1 + w.r.Intn(len(w.msgs))
			m := w.msgs[mid-1]
			d := M{}
			if m.isPK {
				switch w.r.Intn(6) {
				case 0:
					d = M{"typ": "sig"}
				case 1:
					d = M{"base": []any{"alias", []any{"base", mid}}}
				case 2:
					d = M{"reg": "11"}
				case 3:
					d = M{"opk": []any{}}
				}
			}
			if !m.isPK && w.r.Intn(4) == 0 {
				if k := w.lastPK(m.from, m.to); k > 0 {
					d = w.envelope(k)
					d["idk"] = []any{"id", m.from}
				}
			}
			w.do(M{"e": "dec", "p": m.to, "r": m.from, "m": mid, "d": d})
		case is(pf.mis):
			if len(w.msgs) == 0 {
				continue
			}
			mid := 1 + w.r.Intn(len(w.msgs))
			m := w.msgs[mid-1]
			q, r := m.to, m.from
			switch w.r.Intn(3) {
			case 0:
				q = pick(w.r, w.names)
			case 1:
				r = pick(w.r, w.names)
			case 2:
				q, r = m.from, m.to
			}
			w.do(M{"e": "dec", "p": q, "r": r, "m": mid})
		case is(pf.mut):
			if len(w.msgs) == 0 {
				continue
			}
			mid := 1 + w.r.Intn(len(w.msgs))
			if pend := w.pending(p); len(pend) > 0 && w.r.Intn(3) > 0 {
				mid = pick(w.r, pend)
			}
			m := w.msgs[mid-1]
			w.do(M{"e": "dec", "p": m.to, "r": m.from, "m": mid, "d": w.mutation(m.to, mid)})
		case is(pf.prb):
			w.probeAll()
		case is(pf.arc):
			r := w.other(p)
			if w.hasSession(p, r) {
				w.do(M{"e": "arc", "p": p, "r": r})
			}
		case is(pf.tru):
			r := w.other(p)
			k := []any{"id", r}
			switch w.r.Intn(5) {
			case 0:
				k = []any{"evil", 1}
			case 1:
				k = []any{"alias", []any{"id", r}}
			case 2:
				k = []any{"id", pick(w.r, w.names)}
			}
			w.do(M{"e": "tru", "p": p, "r": r, "k": k})
		case is(pf.ini):
			w.ini(p, w.other(p))
		case is(pf.ppk):
			w.processOne(pf.fault)
		case is(pf.clr):
			w.do(M{"e": "clr", "p": p})
		case is(pf.spk):
			w.newSpk(p)
		case is(pf.opk):
			w.newOpk(p)
		case is(pf.cmp):
			full := w.r.Intn(3) == 0
			if w.r.Intn(2) == 0 {
				w.do(M{"e": "snp", "p": p, "full": full})
				snaps = append(snaps, M{"e": "cmp", "p": p, "full": full, "snap": len(w.snaps)})
			} else {
				w.do(M{"e": "cmp", "p": p, "full": full})
			}
		}
	}
	for _, c := range snaps {
		w.do(c)
	}
	if pf.probe {
		w.probeAll()
	}
}

// ini lets the application make both ends of a session.
func (w *world) ini(p, r string) M {
	q := w.P[r]
	c := M{"e": "ini", "p": p, "r": r, "spkid": ids(pick(w.r, q.spkID)), "opk": []any{}}
	var left []string
	for _, i := range q.opkID {
		if _, ok, _ := q.pre.Load(bg, prekey.ID(i)); ok {
			left = append(left, ids(i))
		}
	}
	if len(left) > 0 && w.r.Intn(2) == 0 {
		c["opk"] = []any{[]any{"opk", r, pick(w.r, left)}}
	}
	return w.do(c)
}

// processOne lets the application process the set-up of a message on its own.
func (w *world) processOne(fault int) {
	var pks []int
	for i, x := range w.msgs {
		if x.isPK {
			pks = append(pks, i+1)
		}
	}
	if len(pks) == 0 {
		return
	}
	mid := pick(w.r, pks)
	m := w.msgs[mid-1]
	d := M{}
	if w.r.Intn(3) == 0 {
		d = w.mutation(m.to, mid)
		_, bad := d["ok"]
		_, typ := d["typ"]
		if bad || typ {
			d = M{}
		}
	}
	r := m.from
	if w.r.Intn(12) == 0 {
		r = w.other(m.to)
	}
	w.do(withFault(M{"e": "ppk", "p": m.to, "r": r, "m": mid, "d": d}, w.fault(fault)))
}

func (w *world) lastPK(from, to string) int {
	for i := len(w.msgs) - 1; i >= 0; i-- {
		if w.msgs[i].isPK && w.msgs[i].from == from && w.msgs[i].to == to {
			return i + 1
		}
	}
	return 0
}

// probeAll asks, without effect, what each device would say to each message.
func (w *world) probeAll() {
	if w.flavor != "ser" {
		return
	}
	for i, m := range w.msgs {
		if i >= 60 {
			break
		}
		w.do(M{"e": "prb", "p": m.to, "r": m.from, "m": i + 1})
	}
}

var profiles = map[string]profile{
	"C01": {ini: 1, ppk: 1, lift: 20, bun: 4, enc: 40, dec: 50, replay: 3, mis: 2, mut: 5, arc: 1, spk: 1, opk: 3, prb: 1, batch: 6, inOrder: 40, noOpk: 40, plen: -1, steps: 90, probe: true},
	"C26": {bun: 4, enc: 40, dec: 50, replay: 3, mis: 2, mut: 5, arc: 1, spk: 1, opk: 3, prb: 1, batch: 6, inOrder: 40, noOpk: 40, plen: -1, steps: 90, probe: true},
	"C02": {lift: 20, bun: 3, enc: 25, dec: 35, replay: 35, mis: 1, mut: 3, arc: 2, opk: 2, prb: 1, batch: 5, inOrder: 40, noOpk: 60, plen: -1, steps: 90, probe: true},
	"C03": {lift: 20, bun: 5, enc: 25, dec: 25, replay: 3, mis: 12, mut: 40, arc: 1, opk: 2, spk: 1, batch: 4, inOrder: 50, noOpk: 50, plen: -1, steps: 90, badBun: 5},
	"C04": {ini: 1, ppk: 3, bun: 8, enc: 25, dec: 30, replay: 10, mis: 8, mut: 30, arc: 2, tru: 4, clr: 1, opk: 2, prb: 1, batch: 4, inOrder: 30, noOpk: 50, plen: -1, steps: 80, badBun: 40, probe: true},
	"C05": {ini: 1, ppk: 3, bun: 10, enc: 25, dec: 30, replay: 3, mis: 6, mut: 15, arc: 4, tru: 14, clr: 4, opk: 2, batch: 3, inOrder: 50, noOpk: 50, plen: -1, steps: 80, badBun: 30},
	"C06": {ini: 2, ppk: 4, bun: 14, enc: 35, dec: 22, replay: 4, mis: 1, mut: 10, arc: 2, spk: 3, opk: 4, batch: 3, inOrder: 30, noOpk: 40, plen: -1, steps: 70, badBun: 40},
	"C07": {ini: 1, ppk: 5, bun: 12, enc: 25, dec: 25, replay: 12, mis: 4, mut: 18, arc: 2, opk: 6, batch: 3, inOrder: 40, noOpk: 15, plen: -1, steps: 80, badBun: 10},
	"C08": {lift: 20, fault: 60, bun: 7, enc: 55, dec: 40, replay: 3, mut: 5, arc: 3, opk: 2, tru: 1, batch: 6, inOrder: 50, noOpk: 50, plen: -1, steps: 110, badBun: 10},
	"C09": {ini: 1, ppk: 1, bun: 4, enc: 35, dec: 40, mut: 2, arc: 2, opk: 2, cmp: 8, batch: 4, inOrder: 50, noOpk: 40, plen: 20, steps: 80},
	"C10": {lift: 20, bun: 2, enc: 40, dec: 45, replay: 5, mut: 4, prb: 1, batch: 9, inOrder: 15, noOpk: 50, plen: 20, steps: 120, probe: true},
	"C11": {ini: 3, ppk: 2, lift: 20, bun: 15, enc: 30, dec: 40, replay: 4, mut: 2, arc: 8, opk: 3, prb: 1, batch: 3, inOrder: 25, noOpk: 60, plen: -1, steps: 110, probe: true},
	"C16": {ini: 1, ppk: 1, bun: 14, enc: 30, dec: 35, replay: 3, mis: 10, mut: 4, arc: 3, tru: 6, opk: 2, batch: 3, inOrder: 40, noOpk: 50, plen: -1, steps: 100, badBun: 15},
	"C17": {ini: 1, ppk: 3, bun: 6, enc: 35, dec: 45, replay: 8, mut: 3, arc: 1, opk: 3, batch: 1, inOrder: 50, noOpk: 30, plen: -1, steps: 80, fault: 300, probe: true},
	"C18": {bun: 8, enc: 45, dec: 40, mut: 15, replay: 5, arc: 2, opk: 4, spk: 4, batch: 3, inOrder: 50, noOpk: 40, plen: -1, steps: 60},
	"C23": {ini: 2, ppk: 1, bun: 6, enc: 45, dec: 45, replay: 2, mut: 4, arc: 2, opk: 3, spk: 2, batch: 5, inOrder: 50, noOpk: 45, plen: -1, steps: 90},
	"C24": {ini: 2, ppk: 2, lift: 20, bun: 8, enc: 35, dec: 40, replay: 6, mut: 5, arc: 4, tru: 1, opk: 3, spk: 2, batch: 6, inOrder: 30, noOpk: 40, plen: -1, steps: 90},
}

func historyName(focus string, i int) string { return fmt.Sprintf("%s#%d", focus, i) }
