package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"sort"
	"strings"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("no command"))
	}
	log.SetOutput(ioutil.Discard) // of frames that are debugged
	switch os.Args[1] {
	case "hash":
		hashMain(os.Args[2:])
	case "gen":
		genMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	default:
		fatal(fmt.Errorf("unknown command %s", os.Args[1]))
	}
}

func openLog(path string) *os.File {
	if path == "" {
		return nil
	}
	f, err := os.Create(path)
	fatal(err)
	return f
}

func write(path string, traces []Op) {
	b, err := json.Marshal(traces)
	fatal(err)
	fatal(ioutil.WriteFile(path, b, 0644))
}

// gen records random traces of a profile
func genMain(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prof := fs.String("profile", "C01", "")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int("from", 0, "number of the first trace")
	n := fs.Int("traces", 20, "")
	maxSteps := fs.Int("steps", 0, "total number of steps after which to stop")
	out := fs.String("out", "", "")
	logf := fs.String("log", "", "")
	fs.Parse(args)
	dir, err := ioutil.TempDir("", "verif")
	fatal(err)
	defer os.RemoveAll(dir)
	logFile := openLog(*logf)
	traces := []Op{}
	total := 0
	for k := *from; k < *from+*n; k++ {
		p := profile(*prof)
		r := rand.New(rand.NewSource(*seed*1000003 + int64(k)))
		if p.huge > 0 && r.Intn(100) < p.huge {
			p.isHuge, p.steps, p.maxFrames = true, 12, 5
		}
		w := newWorld(fmt.Sprintf("%s-%d-%d", *prof, *seed, k), dir, logFile)
		if logFile != nil {
			fmt.Fprintf(logFile, "T %s\n", w.id)
		}
		g := newGen(w, r, p)
		for s := 0; s < p.steps; s++ {
			if !w.run(g.next()) {
				break
			}
		}
		total += len(w.steps)
		traces = append(traces, w.trace())
		if w.dead {
			break // what a stuck call holds is unknown
		}
		if *maxSteps > 0 && total >= *maxSteps {
			break
		}
	}
	write(*out, traces)
	fmt.Println(stats(traces))
}

func stats(traces []Op) string {
	n := map[string]int{}
	steps := 0
	for _, t := range traces {
		for _, s := range t["steps"].([]Op) {
			n[s.s("op")]++
			steps++
		}
	}
	keys := []string{}
	for k := range n {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := []string{}
	for _, k := range keys {
		r = append(r, fmt.Sprintf("\"%s\": %d", k, n[k]))
	}
	return fmt.Sprintf("{\"traces\": %d, \"steps\": %d, \"ops\": {%s}}", len(traces), steps, strings.Join(r, ", "))
}

// replay executes the operations of recorded traces, or behaviours of the
// specification in the same form, on the code
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	logf := fs.String("log", "", "")
	fs.Parse(args)
	dir, err := ioutil.TempDir("", "verif")
	fatal(err)
	defer os.RemoveAll(dir)
	logFile := openLog(*logf)
	f, err := os.Open(*in)
	fatal(err)
	dec := json.NewDecoder(bufio.NewReader(f))
	var list []map[string]interface{}
	fatal(dec.Decode(&list))
	f.Close()
	traces := []Op{}
	for _, m := range list {
		t := Op(m)
		w := newWorld(t.s("id"), dir, logFile)
		if logFile != nil {
			fmt.Fprintf(logFile, "T %s\n", w.id)
		}
		w.tk.approx = t.b("approx")
		w.tk.load(t.ss("strs"), t.ss("nums"), t.ss("ints"))
		for _, s := range grouped(t.ops("steps")) {
			if !w.run(s) {
				break
			}
		}
		traces = append(traces, w.trace())
		if w.dead {
			break
		}
	}
	write(*out, traces)
	fmt.Println(stats(traces))
}
