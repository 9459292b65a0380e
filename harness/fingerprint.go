package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"unsafe"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
)

// Safety numbers.

type fpView struct {
	ver, iter      uint32
	li, lk, ri, rk []byte
}

func (v fpView) json() M {
	return M{"ver": fmt.Sprint(v.ver), "iter": int(v.iter), "li": hex.EncodeToString(v.li), "lk": hex.EncodeToString(v.lk), "ri": hex.EncodeToString(v.ri), "rk": hex.EncodeToString(v.rk)}
}

// fpHash is the published derivation.
func fpHash(iter uint32, id, key []byte) []byte {
	h := sha512.Sum512(bytes.Join([][]byte{{0, 0}, key, id, key}, nil))
	buf := make([]byte, 64+len(key))
	copy(buf[64:], key)
	for i := uint32(1); i < iter; i++ {
		copy(buf, h[:])
		h = sha512.Sum512(buf)
	}
	return h[:]
}

// scannableOf finds the scannable code within a fingerprint.
func scannableOf(f *fingerprint.Fingerprint) *fingerprint.Scannable {
	v := reflect.ValueOf(f).Elem()
	if v.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		x := v.Field(i)
		if x.Type() == reflect.TypeOf((*fingerprint.Scannable)(nil)) {
			return *(**fingerprint.Scannable)(unsafe.Pointer(x.UnsafeAddr()))
		}
		if x.Type() == reflect.TypeOf(fingerprint.Scannable{}) {
			return (*fingerprint.Scannable)(unsafe.Pointer(x.UnsafeAddr()))
		}
	}
	return nil
}

type fpMade struct {
	num  string
	scan *fingerprint.Scannable
	res  string
	same bool
}

func makeFp(v fpView) (m fpMade) {
	a, b := newCanary(v.li), newCanary(v.ri)
	defer func() {
		if p := recover(); p != nil {
			m.res = "panic"
		}
		m.same = a.intact() && b.intact()
	}()
	lk, err := identity.NewKey(v.lk)
	if err != nil {
		fatal(err)
	}
	rk, err := identity.NewKey(v.rk)
	if err != nil {
		fatal(err)
	}
	f, err := fingerprint.New(v.ver, v.iter, a.slice(), lk, b.slice(), rk)
	if err != nil {
		return fpMade{res: "err"}
	}
	return fpMade{num: f.String(), scan: scannableOf(f), res: "ok"}
}

func digitInts(s string) []int {
	out := []int{}
	for _, c := range s {
		out = append(out, int(c)-'0')
	}
	return out
}

func fpCompare(s *fingerprint.Scannable, b []byte) (res string) {
	c := newCanary(b)
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
		}
		if !c.intact() {
			res = "buffer"
		}
	}()
	ok, err := s.Compare(c.slice())
	switch {
	case err != nil && ok:
		return "both"
	case err != nil:
		return "err"
	case ok:
		return "match"
	}
	return "no"
}

func fpOne(name string, v fpView) (M, fpMade) {
	f := makeFp(v)
	m := M{"e": "fp", "name": name, "ver": le32(v.ver), "iter": int(v.iter), "h1": []int{}, "h2": []int{}, "res": f.res, "same": f.same}
	if f.res == "ok" {
		m["num"] = digitInts(f.num)
		m["h1"], m["h2"] = ints(fpHash(v.iter, v.li, v.lk)), ints(fpHash(v.iter, v.ri, v.rk))
		if f.scan != nil {
			b, err := f.scan.Bytes()
			if err != nil {
				b = nil
			}
			m["code"] = ints(b)
		}
	}
	return m, f
}

func fpPair(name string, v, w fpView) []M {
	a, fa := fpOne(name, v)
	b, fb := fpOne(name, w)
	out := []M{a, b}
	if fa.res != "ok" || fb.res != "ok" {
		return out
	}
	m := M{"e": "pair", "name": name, "v": v.json(), "w": w.json(), "eq": fa.num == fb.num}
	if fa.scan != nil && fb.scan != nil {
		ca, err1 := fa.scan.Bytes()
		cb, err2 := fb.scan.Bytes()
		if err1 == nil && err2 == nil {
			m["vw"], m["wv"] = fpCompare(fa.scan, cb), fpCompare(fb.scan, ca)
		}
	}
	return append(out, m)
}

func fpCmpLine(name string, ver uint32, l, r, scanned []byte) M {
	s, err := fingerprint.NewScannable(ver, l, r)
	m := M{"e": "cmp", "name": name, "ver": le32(ver), "local": ints(l[:32]), "remote": ints(r[:32]), "b": ints(scanned)}
	if err != nil {
		m["res"] = "notmade"
		return m
	}
	m["res"] = fpCompare(s, scanned)
	return m
}

func fpNewLine(name, what string, ver uint32, h1, h2 []byte) (m M) {
	a, b := newCanary(h1), newCanary(h2)
	m = M{"e": "new", "name": name, "what": what, "ver": le32(ver), "h1": ints(h1), "h2": ints(h2)}
	defer func() {
		if p := recover(); p != nil {
			m["res"] = "panic"
		}
		m["same"] = a.intact() && b.intact()
	}()
	if what == "number" {
		d, err := fingerprint.NewDisplayable(a.slice(), b.slice())
		if err != nil {
			m["res"] = "err"
			return
		}
		m["res"], m["num"] = "ok", digitInts(d.String())
		return
	}
	s, err := fingerprint.NewScannable(ver, a.slice(), b.slice())
	if err != nil {
		m["res"] = "err"
		return
	}
	c, err := s.Bytes()
	if err != nil {
		m["res"] = "err"
		return
	}
	m["res"], m["code"] = "ok", ints(c)
	return
}

func fpCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	r := rand.New(rand.NewSource(seed*15485863 + 9))
	var jobs []func() []M
	name := func(s string) string { return fmt.Sprintf("%s %s %d", focus, s, len(jobs)) }
	ids := [][]byte{{}, nil, []byte("+14152222222"), []byte("+14153333333"), []byte("+1415222222"), []byte("+141522222222"), {0}, {0, 0}, {5}, bytes.Repeat([]byte{255}, 200)}
	id := func() []byte {
		if r.Intn(3) == 0 {
			return randBytes(r, r.Intn(40))
		}
		return pick(r, ids)
	}
	key := func() []byte { return randKey(r).Bytes() }
	view := func() fpView {
		return fpView{pick(r, []uint32{0, 1, 2, 3, 255, 256, 1<<32 - 1}), uint32(2 + r.Intn(6)), id(), key(), id(), key()}
	}
	mirror := func(v fpView) fpView { v.li, v.lk, v.ri, v.rk = v.ri, v.rk, v.li, v.lk; return v }
	pair := func(n string, v, w fpView) {
		nm := name(n)
		jobs = append(jobs, func() []M { return fpPair(nm, v, w) })
	}
	flip := func(b []byte, from int) []byte {
		b = append([]byte(nil), b...)
		if len(b) <= from {
			return append(b, 7)
		}
		b[from+r.Intn(len(b)-from)] ^= 1 << r.Intn(8)
		return b
	}
	for i := 0; i < count; i++ {
		v := view()
		if r.Intn(10) == 0 {
			v.iter = 5200
		}
		w := mirror(v)
		switch i % 14 {
		case 0, 1, 2:
			pair("agree", v, w)
		case 3:
			w.li = flip(w.li, 0)
			pair("identifier", v, w)
		case 4:
			w.ri = flip(w.ri, 0)
			pair("identifier", v, w)
		case 5:
			w.lk = flip(w.lk, 1)
			pair("key", v, w)
		case 6:
			w.rk = flip(w.rk, 1)
			pair("key", v, w)
		case 7:
			w.iter++
			pair("iterations", v, w)
		case 8:
			w.ver ^= 1 << r.Intn(32)
			pair("version", v, w)
		case 9:
			pair("same side", v, v)
		case 10:
			w.li, w.ri = w.ri, w.li
			pair("swapped identifiers", v, w)
		case 11:
			w.lk, w.rk = w.rk, w.lk
			pair("swapped keys", v, w)
		case 12:
			v.ri, v.rk = v.li, v.lk
			pair("self", v, mirror(v))
		case 13:
			w.li = append(append([]byte(nil), w.li...), 0)
			pair("longer", v, w)
		}
	}
	// one party's data differs from both of what the other has
	for i := 0; i < 12; i++ {
		v, w := view(), view()
		w.ver, w.iter = v.ver, v.iter
		pair("strangers", v, w)
		x := mirror(v)
		x.ri, x.rk = w.ri, w.rk
		pair("half", v, x)
		x = mirror(v)
		x.li, x.lk = w.li, w.lk
		pair("half", v, x)
	}
	for _, n := range []uint32{0, 1, 2, 3, 4, 5199, 5200, 1024, 999_999, 1_000_000, 1_000_001, 1 << 24, 1 << 31, 1<<32 - 1} {
		v := view()
		v.iter = n
		nm := name("iterations")
		jobs = append(jobs, func() []M { m, _ := fpOne(nm, v); return []M{m} })
	}
	// numbers and codes of given bytes
	h := func(n int) []byte {
		b := randBytes(r, n)
		switch r.Intn(4) {
		case 0:
			for i := range b {
				b[i] = byte(r.Intn(2) * 255)
			}
		case 1: // chunks with small remainders
			for i := range b {
				if i%5 < 3 {
					b[i] = 0
				}
			}
		}
		return b
	}
	for n := 0; n <= 66; n++ {
		for _, what := range []string{"number", "code"} {
			nm := name("lengths")
			a, b := h(n), h(64)
			if r.Intn(2) == 0 {
				a, b = b, a
			}
			jobs = append(jobs, func() []M { return []M{fpNewLine(nm, what, 1, a, b)} })
		}
	}
	for i := 0; i < count; i++ {
		nm := name("bytes")
		a := h(64)
		b := h(64)
		if r.Intn(3) == 0 { // common beginnings decide the order late
			b = append([]byte(nil), a...)
			b[r.Intn(64)] ^= 1
		}
		what := pick(r, []string{"number", "code"})
		ver := rand32(r)
		jobs = append(jobs, func() []M { return []M{fpNewLine(nm, what, ver, a, b)} })
	}
	// damaged codes
	for i := 0; i < count*2; i++ {
		nm := name("scanned")
		a, b, ver := h(32), h(32), rand32(r)
		s, err := fingerprint.NewScannable(ver, b, a)
		if err != nil {
			continue
		}
		code, err := s.Bytes()
		if err != nil {
			continue
		}
		pool := [][]byte{code, {8, 1}, {18, 0}, {26, 0}}
		if r.Intn(10) > 0 {
			code = damage(r, code, pool)
		}
		jobs = append(jobs, func() []M { return []M{fpCmpLine(nm, ver, a, b, code)} })
	}
	logs := make([][]M, len(jobs))
	parallel(len(jobs), runtime.NumCPU(), func(i int) { logs[i] = jobs[i]() })
	print(write(logs, nil, out, shards))
}

func fpGenCmd(focus, in string, seed int64, max int, out string, shards int) {
	var logs [][]M
	to := func(x []int) []byte {
		b := make([]byte, len(x))
		for i := range x {
			b[i] = byte(x[i])
		}
		return b
	}
	each(in, func(line []byte) {
		if !bytes.HasPrefix(line, []byte(`"CASE `)) {
			return
		}
		s, err := strconv.Unquote(string(line))
		if err != nil {
			fatal(err)
		}
		var t struct{ Ver, Local, Remote, B []int }
		if err := json.Unmarshal([]byte(s[5:]), &t); err != nil {
			fatal(err)
		}
		ver := uint32(t.Ver[0]) | uint32(t.Ver[1])<<8 | uint32(t.Ver[2])<<16 | uint32(t.Ver[3])<<24
		logs = append(logs, []M{fpCmpLine(fmt.Sprintf("%s generated %d", focus, len(logs)), ver, to(t.Local), to(t.Remote), to(t.B))})
	})
	total := len(logs)
	if max > 0 && total > max {
		r := rand.New(rand.NewSource(seed))
		r.Shuffle(total, func(i, j int) { logs[i], logs[j] = logs[j], logs[i] })
		logs = logs[:max]
	}
	res := write(logs, nil, out, shards)
	res.Cover["sequences"], res.Cover["sequences/all"], res.Cover["transitions"] = len(logs), total, total
	print(res)
}
