package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
)

var bg = context.Background()

// M is a JSON object.
type M = map[string]any

// detReader is a deterministic source of random bytes.
// It can be told to fail at a read.
type detReader struct {
	seed   [32]byte
	n      uint64
	buf    []byte
	reads  int
	failAt int // 1-based read which fails; 0: none
	fired  bool
	chunk  int // most bytes given per read; 0: any number
}

func newDet(seed int64, tag string) *detReader {
	return &detReader{seed: sha256.Sum256([]byte(fmt.Sprintf("%d/%s", seed, tag)))}
}

func (d *detReader) Read(p []byte) (int, error) {
	d.reads++
	if d.failAt > 0 && d.reads == d.failAt {
		d.fired = true
		return 0, errFault
	}
	if d.chunk > 0 && len(p) > d.chunk {
		p = p[:d.chunk]
	}
	for len(d.buf) < len(p) {
		var b [40]byte
		copy(b[:32], d.seed[:])
		binary.BigEndian.PutUint64(b[32:], d.n)
		d.n++
		h := sha256.Sum256(b[:])
		d.buf = append(d.buf, h[:]...)
	}
	copy(p, d.buf[:len(p)])
	d.buf = d.buf[len(p):]
	return len(p), nil
}

// isNil says whether x is nil or holds a nil pointer.
func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

// logFile writes one JSON object per line.
type logFile struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newLog(path string) *logFile {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	return &logFile{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (l *logFile) put(ms []M) {
	for _, m := range ms {
		b, err := json.Marshal(m)
		if err != nil {
			fatal(err)
		}
		l.w.Write(b)
		l.w.WriteByte('\n')
		l.n++
	}
}

func (l *logFile) close() {
	l.w.Flush()
	l.f.Close()
}

func fatal(a ...any) {
	if err, ok := a[len(a)-1].(error); ok {
		switch err.(type) {
		case *os.PathError, *strconv.NumError, *json.SyntaxError, *json.UnmarshalTypeError:
		default:
			panic(refused{err})
		}
	}
	fmt.Fprintln(realStderr, append([]any{"harness error:"}, a...)...)
	os.Exit(3)
}

// parallel runs f(0..n-1) on all cores.
func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				settled(func() int { f(i); return 0 })
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// canary is a caller's buffer with spare capacity whose every byte is watched.
type canary struct {
	full []byte
	copy []byte
	off  int
	n    int
}

func newCanary(b []byte) *canary {
	full := make([]byte, 24+len(b)+40)
	for i := range full {
		full[i] = 0xA5
	}
	copy(full[24:], b)
	c := &canary{full: full, off: 24, n: len(b)}
	c.copy = append([]byte(nil), full...)
	return c
}

func (c *canary) slice() []byte { return c.full[c.off : c.off+c.n] }

func (c *canary) intact() bool { return string(c.full) == string(c.copy) }
