package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
)

// result of a run, printed as the last line.
type result struct {
	Histories int            `json:"histories"`
	Events    int            `json:"events"`
	Files     []string       `json:"files"`
	Cover     map[string]int `json:"cover"`
	Problems  []M            `json:"problems,omitempty"`
	Died      []M            `json:"died,omitempty"`
}

func main() {
	quiet()
	if len(os.Args) < 2 {
		fatal("no command")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	focus := fs.String("focus", "C01", "property")
	seed := fs.Int64("seed", 1, "seed")
	count := fs.Int("count", 100, "random histories")
	out := fs.String("out", "", "output directory")
	shards := fs.Int("shards", 8, "files")
	deep := fs.Bool("deep", false, "thorough")
	in := fs.String("in", "", "input file")
	part := fs.Int("part", 0, "which part of the work")
	parts := fs.Int("parts", 1, "parts of the work")
	terms := fs.String("terms", "", "TLC log with terms")
	fs.Parse(os.Args[2:])
	wantSide = *focus == "C23"
	switch cmd {
	case "gen":
		genCmd(*focus, *in, *seed, *count, *out, *shards)
	case "eval":
		evalCmd(*in, *terms)
	case "group":
		groupCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "groupgen":
		groupGenCmd(*focus, *in, *seed, *count, *out, *shards)
	case "pad":
		padCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "padgen":
		padGenCmd(*focus, *in, *seed, *count, *out, *shards)
	case "fp":
		fpCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "fpgen":
		fpGenCmd(*focus, *in, *seed, *count, *out, *shards)
	case "keys":
		keysCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "keysgen":
		keysGenCmd(*focus, *in, *seed, *count, *out, *shards)
	case "stores":
		storesCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "storesgen":
		storesGenCmd(*focus, *in, *seed, *count, *out, *shards)
	case "wire":
		wireCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "wiregen":
		wireGenCmd(*focus, *in, *seed, *count, *out, *shards)
	case "trace":
		traceCmd(*focus, *seed, *count, *out, *shards, *deep)
	case "conc":
		concCmd("", *seed, *count, *out, *shards, *deep)
	case "concgen":
		concCmd(*in, *seed, *count, *out, *shards, *deep)
	case "concchild":
		os.Stderr = realStderr
		concChild(*in, *seed, *count, *out, *part, *parts)
	default:
		fatal("unknown command", cmd)
	}
}

var realStderr = os.Stderr

// quiet keeps the library's log away from the terminal and the file system.
func quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fatal(err)
	}
	os.Stderr = null
	flag.Set("logtostderr", "true")
}

func print(r any) {
	if x, ok := r.(result); ok {
		x.Died = died.l
		r = x
	}
	b, _ := json.Marshal(r)
	fmt.Println(string(b))
}

func (w *world) focus(f, name string, seed int64) *world {
	w.log[0]["focus"] = f
	w.log[0]["name"] = name
	w.log[0]["seed"] = fmt.Sprint(seed)
	w.log[0]["flavor"] = w.flavor
	return w
}

func traceCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	sc := scenarios(focus, seed, deep)
	n := len(sc) + count
	logs := make([][]M, n)
	covers := make([]map[string]int, n)
	var plain, again []*world
	if focus == "C24" {
		forceFlavor = "mem"
		plain, again = make([]*world, len(sc)), make([]*world, len(sc))
		parallel(len(sc), runtime.NumCPU(), func(i int) { plain[i] = settled(sc[i].run) })
		forceFlavor = "ser"
		parallel(len(sc), runtime.NumCPU(), func(i int) { again[i] = settled(sc[i].run) })
		forceFlavor = ""
	}
	parallel(n, runtime.NumCPU(), func(i int) {
		var w *world
		if i < len(sc) {
			if plain != nil {
				w = again[i]
				if w == nil || plain[i] == nil {
					return
				}
				compare(plain[i], w)
			} else {
				w = settled(sc[i].run)
			}
			if w == nil {
				return
			}
			w.focus(focus, sc[i].name, seed)
		} else {
			run := func(flavor string) *world {
				return settled(func() *world { return randomWorld(focus, seed*1000003+int64(i), flavor) })
			}
			if focus == "C24" {
				w = twins(run)
			} else {
				w = run("")
			}
		}
		if w == nil {
			return
		}
		w.side()
		logs[i], covers[i] = w.log, w.cover
	})
	print(write(logs, covers, out, shards))
}

func write(logs [][]M, covers []map[string]int, out string, shards int) result {
	res := result{Histories: len(logs), Cover: map[string]int{}}
	for _, c := range covers {
		for k, v := range c {
			res.Cover[k] += v
		}
	}
	files := make([]*logFile, shards)
	for i := range files {
		p := filepath.Join(out, fmt.Sprintf("trace%d.ndjson", i))
		files[i] = newLog(p)
		res.Files = append(res.Files, p)
	}
	for i, l := range logs {
		files[i%shards].put(l)
		res.Events += len(l)
	}
	for _, f := range files {
		f.close()
	}
	return res
}

// twins runs the same history with records which are kept as they are and
// with records which are serialised whenever they are stored, and marks in
// the latter where it first differs.
func twins(run func(flavor string) *world) *world {
	a, b := run("mem"), run("ser")
	if a == nil || b == nil {
		return b
	}
	compare(a, b)
	return b
}

func compare(a, b *world) {
	for i, c := range b.log {
		if i == 0 {
			continue
		}
		same := i < len(a.log) && sameEvent(a.log[i], c)
		c["same"] = same
		if !same {
			break
		}
	}
}

func sameEvent(a, b M) bool {
	x, err := json.Marshal(a)
	if err != nil {
		fatal(err)
	}
	delete(b, "same")
	y, err := json.Marshal(b)
	if err != nil {
		fatal(err)
	}
	return string(x) == string(y)
}

func randomWorld(focus string, seed int64, want string) *world {
	pf, ok := profiles[focus]
	if !ok {
		fatal("no profile", focus)
	}
	pf.focus = focus
	r := rand.New(rand.NewSource(seed))
	members := mixed(r)
	if focus == "C16" {
		members = alike(r)
	}
	flavor := "mem"
	if r.Intn(2) == 0 {
		flavor = "ser"
	}
	if pf.probe && r.Intn(3) > 0 {
		flavor = "ser"
	}
	if want != "" {
		flavor = want
	}
	w := newWorld(seed, members, flavor, 3)
	w.focus(focus, historyName(focus, 0), seed)
	w.randomHistory(pf)
	return w
}
