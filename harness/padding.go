package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"

	libaes "github.com/RTann/libsignal-go/protocol/crypto/aes"
)

// Message encryption, seen below the padding with the standard library.

func rawCBC(key, iv, in []byte, enc bool) []byte {
	block, err := aes.NewCipher(key)
	if err != nil {
		fatal(err)
	}
	out := make([]byte, len(in))
	if enc {
		cipher.NewCBCEncrypter(block, iv).CryptBlocks(out, in)
	} else {
		cipher.NewCBCDecrypter(block, iv).CryptBlocks(out, in)
	}
	return out
}

func validSizes(key, iv []byte) bool {
	return (len(key) == 16 || len(key) == 24 || len(key) == 32) && len(iv) == 16
}

func aesCall(f func(key, iv, in []byte) ([]byte, error), key, iv, in []byte) (out []byte, res string, same bool) {
	k, v, x := newCanary(key), newCanary(iv), newCanary(in)
	defer func() {
		if p := recover(); p != nil {
			out, res = nil, "panic"
		}
		same = k.intact() && v.intact() && x.intact()
	}()
	out, err := f(k.slice(), v.slice(), x.slice())
	if err != nil {
		return nil, "err", true
	}
	return append([]byte(nil), out...), "ok", true
}

const longText = 200 // texts up to this length are recorded in full

func padEnc(name string, key, iv, p []byte) M {
	ct, res, same := aesCall(libaes.CBCEncrypt, key, iv, p)
	m := M{"e": "enc", "name": name, "key": len(key), "iv": len(iv), "n": len(ct), "res": res, "same": same, "off": 0, "pre": true, "raw": []int{}, "p": ints(p)}
	off := 0
	if len(p) > longText {
		off = len(p) / 16 * 16
		if off == len(p) {
			off -= 16
		}
		m["off"], m["p"] = off, ints(p[off:])
	}
	if res == "ok" && validSizes(key, iv) && len(ct)%16 == 0 && len(ct) >= off {
		raw := rawCBC(key, iv, ct, false)
		m["raw"], m["pre"] = ints(raw[off:]), bytes.Equal(raw[:off], p[:off])
	}
	return m
}

func padDec(name string, key, iv, ct []byte) M {
	p, res, same := aesCall(libaes.CBCDecrypt, key, iv, ct)
	m := M{"e": "dec", "name": name, "key": len(key), "iv": len(iv), "n": len(ct), "res": res, "same": same, "off": 0, "pre": true, "raw": []int{}, "p": ints(p)}
	if validSizes(key, iv) && len(ct)%16 == 0 && len(ct) > 0 {
		raw := rawCBC(key, iv, ct, false)
		if len(raw) > longText {
			off := len(raw) - 32
			m["off"], m["raw"] = off, ints(raw[off:])
			if res == "ok" {
				if len(p) < off || !bytes.Equal(p[:off], raw[:off]) {
					m["pre"], m["p"] = false, []int{}
				} else {
					m["p"] = ints(p[off:])
				}
			}
		} else {
			m["raw"] = ints(raw)
		}
	}
	return m
}

func padCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	r := rand.New(rand.NewSource(seed*104729 + 3))
	var logs [][]M
	add := func(m M) { logs = append(logs, []M{m}) }
	name := func(s string) string { return fmt.Sprintf("%s %s %d", focus, s, len(logs)) }
	text := func(n int) []byte {
		b := randBytes(r, n)
		for i := len(b) - 1; i >= 0 && i > len(b)-20; i-- { // ends which look like padding
			if r.Intn(3) == 0 {
				b[i] = byte(r.Intn(18))
			}
		}
		return b
	}
	both := func(key, iv, p []byte) {
		add(padEnc(name("encrypt"), key, iv, p))
		n := 16 - len(p)%16
		raw := append(append([]byte(nil), p...), bytes.Repeat([]byte{byte(n)}, n)...)
		if validSizes(key, iv) {
			add(padDec(name("decrypt"), key, iv, rawCBC(key, iv, raw, true)))
		}
	}
	for n := 0; n <= 130; n++ {
		both(randBytes(r, 32), randBytes(r, 16), text(n))
	}
	for _, n := range []int{160, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 1 << 20, 1<<20 + 1} {
		both(randBytes(r, 32), randBytes(r, 16), text(n))
	}
	add(padEnc(name("nil"), randBytes(r, 32), randBytes(r, 16), nil))
	for n := 0; n <= 70; n++ { // every ciphertext length
		add(padDec(name("length"), randBytes(r, 32), randBytes(r, 16), randBytes(r, n)))
	}
	for k := 0; k <= 66; k++ {
		for _, v := range []int{0, 8, 15, 16, 17, 32} {
			if k%8 != 0 && v != 16 {
				continue
			}
			key, iv := randBytes(r, k), randBytes(r, v)
			add(padEnc(name("sizes"), key, iv, text(r.Intn(40))))
			if validSizes(key, iv) {
				both(key, iv, text(r.Intn(40)))
			} else {
				add(padDec(name("sizes"), key, iv, randBytes(r, 16*r.Intn(3))))
			}
		}
	}
	for i := 0; i < count; i++ { // any last block, mostly nearly right
		raw := text(16 * (1 + r.Intn(4)))
		n := r.Intn(19)
		for j := 0; j < n && j < len(raw); j++ {
			if r.Intn(12) > 0 {
				raw[len(raw)-1-j] = byte(n)
			}
		}
		key, iv := randBytes(r, 32), randBytes(r, 16)
		ct := rawCBC(key, iv, raw, true)
		if r.Intn(10) == 0 {
			ct = ct[:r.Intn(len(ct)+1)]
		}
		if r.Intn(10) == 0 { // not the key it was made with
			key[r.Intn(32)] ^= 1
		}
		add(padDec(name("block"), key, iv, ct))
	}
	print(write(logs, nil, out, shards))
}

func padGenCmd(focus, in string, seed int64, max int, out string, shards int) {
	r := rand.New(rand.NewSource(seed))
	var logs [][]M
	each(in, func(line []byte) {
		if !bytes.HasPrefix(line, []byte(`"CASE `)) {
			return
		}
		s, err := strconv.Unquote(string(line))
		if err != nil {
			fatal(err)
		}
		var t struct {
			Raw []int `json:"raw"`
		}
		if err := json.Unmarshal([]byte(s[5:]), &t); err != nil {
			fatal(err)
		}
		raw := make([]byte, len(t.Raw))
		for i, x := range t.Raw {
			raw[i] = byte(x)
		}
		key, iv := randBytes(r, 32), randBytes(r, 16)
		logs = append(logs, []M{padDec(fmt.Sprintf("%s generated %d", focus, len(logs)), key, iv, rawCBC(key, iv, raw, true))})
	})
	res := write(logs, nil, out, shards)
	res.Cover["sequences"], res.Cover["sequences/all"], res.Cover["transitions"] = len(logs), len(logs), len(logs)
	print(res)
}
