package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

// transitions reads what SessionGen (or GroupGen) printed: every transition
// of the explored graph as the path to its source, the command, and whether
// the command is expected to succeed.
type transition struct {
	Path []M  `json:"path"`
	C    M    `json:"c"`
	OK   bool `json:"ok"`
}

func transitions(file string) []transition {
	f, err := os.Open(file)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var out []transition
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, `"CMD `) {
			continue
		}
		s, err := strconv.Unquote(l)
		if err != nil {
			fatal(err)
		}
		var t transition
		if err := json.Unmarshal([]byte(s[4:]), &t); err != nil {
			fatal(err)
		}
		out = append(out, t)
	}
	return out
}

// suites turns transitions into command sequences which take each of them:
// at every state all refused commands, which must change nothing, and then
// one of the others.
func suites(ts []transition) (out [][]M) {
	type node struct {
		path []M
		bad  []M
		good []M
	}
	nodes := map[string]*node{}
	var order []string
	for _, t := range ts {
		b, _ := json.Marshal(t.Path)
		k := string(b)
		n := nodes[k]
		if n == nil {
			n = &node{path: t.Path}
			nodes[k] = n
			order = append(order, k)
		}
		if t.OK {
			n.good = append(n.good, t.C)
		} else {
			n.bad = append(n.bad, t.C)
		}
	}
	sort.Strings(order)
	for _, k := range order {
		n := nodes[k]
		first := append(append([]M{}, n.path...), n.bad...)
		if len(n.good) == 0 {
			out = append(out, first)
			continue
		}
		out = append(out, append(first, n.good[0]))
		for _, c := range n.good[1:] {
			b, _ := json.Marshal(append(append([]M{}, n.path...), c))
			if nodes[string(b)] != nil {
				continue // taken on the way to that state
			}
			out = append(out, append(append([]M{}, n.path...), c))
		}
	}
	return out
}

func copyCmd(c M) M {
	b, _ := json.Marshal(c)
	d := M{}
	json.Unmarshal(b, &d)
	if l, ok := d["d"].([]any); ok && len(l) == 0 {
		d["d"] = M{}
	} else if m, ok := d["d"].(map[string]any); ok {
		d["d"] = M(m)
	}
	delete(d, "body")
	return d
}

func genCmd(focus, in string, seed int64, max int, out string, shards int) {
	ts := transitions(in)
	ss := suites(ts)
	r := rand.New(rand.NewSource(seed))
	total := len(ss)
	r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	if max > 0 && len(ss) > max {
		ss = ss[:max]
	}
	spkOpk := map[string]bool{}
	for _, t := range ts {
		for _, c := range append(append([]M{}, t.Path...), t.C) {
			if l, ok := c["opkid"].([]any); ok && len(l) > 0 {
				spkOpk[str(l[0])] = true
			}
		}
	}
	var opks []string
	for id := range spkOpk {
		opks = append(opks, id)
	}
	sort.Strings(opks)
	logs := make([][]M, len(ss))
	covers := make([]map[string]int, len(ss))
	parallel(len(ss), runtime.NumCPU(), func(i int) {
		s := seed*7919 + int64(i)
		mr := rand.New(rand.NewSource(s))
		members := three(mr)
		w := newWorld(s, members, []string{"mem", "ser"}[i%2], 3)
		w.focus(focus, fmt.Sprintf("generated %d", i), s)
		settled(func() *world {
			for _, p := range w.names {
				w.do(M{"e": "spk", "p": p, "id": "1"})
				for _, id := range opks {
					w.do(M{"e": "opk", "p": p, "id": id})
				}
			}
			for _, c := range ss[i] {
				d := copyCmd(c)
				if d["m"] != nil && toInt(d["m"]) > len(w.msgs) {
					break // an earlier command failed: the trace shows it
				}
				w.do(d)
			}
			return w
		})
		w.side()
		logs[i], covers[i] = w.log, w.cover
	})
	res := write(logs, covers, out, shards)
	res.Cover["transitions"] = len(ts)
	res.Cover["sequences"] = len(ss)
	res.Cover["sequences/all"] = total
	print(res)
}
