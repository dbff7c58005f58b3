package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"testing"
	"time"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
)

type DF = dataframe.DataFrame

// Op is one step: the operation and its arguments, completed by what it
// returned and by the observation that follows.
type Op map[string]interface{}

func toInt(v interface{}) int {
	switch x := v.(type) {
	case int:
		return x
	case float64:
		return int(x)
	case json.Number:
		i, _ := x.Int64()
		return int(i)
	}
	return 0
}
func (o Op) i(k string) int    { return toInt(o[k]) }
func (o Op) s(k string) string { s, _ := o[k].(string); return s }
func (o Op) b(k string) bool   { b, _ := o[k].(bool); return b }
func (o Op) has(k string) bool { _, ok := o[k]; return ok }
func (o Op) list(k string) []interface{} {
	switch x := o[k].(type) {
	case []interface{}:
		return x
	case []int:
		r := make([]interface{}, len(x))
		for i, v := range x {
			r[i] = v
		}
		return r
	case []string:
		r := make([]interface{}, len(x))
		for i, v := range x {
			r[i] = v
		}
		return r
	case []bool:
		r := make([]interface{}, len(x))
		for i, v := range x {
			r[i] = v
		}
		return r
	case []Op:
		r := make([]interface{}, len(x))
		for i, v := range x {
			r[i] = v
		}
		return r
	case [][]int:
		r := make([]interface{}, len(x))
		for i, v := range x {
			r[i] = v
		}
		return r
	}
	return nil
}
func (o Op) is(k string) []int {
	r := []int{}
	for _, v := range o.list(k) {
		r = append(r, toInt(v))
	}
	return r
}
func (o Op) ss(k string) []string {
	r := []string{}
	for _, v := range o.list(k) {
		s, _ := v.(string)
		r = append(r, s)
	}
	return r
}
func (o Op) bs(k string) []bool {
	r := []bool{}
	for _, v := range o.list(k) {
		b, _ := v.(bool)
		r = append(r, b)
	}
	return r
}
func asOp(v interface{}) Op {
	switch x := v.(type) {
	case Op:
		return x
	case map[string]interface{}:
		return Op(x)
	}
	return Op{}
}
func (o Op) ops(k string) []Op {
	r := []Op{}
	for _, v := range o.list(k) {
		r = append(r, asOp(v))
	}
	return r
}

// ColObs and Obs are what a frame shows.
type ColObs struct {
	N string `json:"n"`
	T string `json:"t"`
	S bool   `json:"s"`
	V []int  `json:"v"`
}
type Obs struct {
	F    int      `json:"f"`
	N    int      `json:"n"`
	Cpu  int      `json:"cpu"`
	Cols []ColObs `json:"cols"`
	Nc   int      `json:"nc"`
	Hd   []string `json:"hd"`
	Bad  []string `json:"bad,omitempty"` // what the frame says of itself and is not so
}

func (o *Obs) col(name string) *ColObs {
	for i := range o.Cols {
		if o.Cols[i].N == name {
			return &o.Cols[i]
		}
	}
	return nil
}
func (o *Obs) names(types string) []string {
	r := []string{}
	for _, c := range o.Cols {
		for _, t := range types {
			if c.T == string(t) || (t == 's' && c.S) {
				r = append(r, c.N)
				break
			}
		}
	}
	return r
}

// Fr is a live frame; anc: frames whose structure it may share, enc: its text
// encoding (both follow the rules of Frames.tla).
type Fr struct {
	ts   bool // thread-safe masking
	df   *DF
	anc  map[int]bool
	enc  string
	obs  *Obs
	json string
}

type World struct {
	tk       *Tokens
	id       string
	fr       map[int]*Fr
	acc      map[int]*Acc
	ite      map[int]*Ite
	bat      map[int]*Bat
	msk      map[int]*Msk
	cmp      map[int]*Cmp
	reg      *algorithms.LinearRegressor
	steps    []Op
	next     int
	encs     map[string]map[string]map[int]int
	dir      string
	dead     bool     // a step panicked or hung
	lastRaws []string // what CsvWrite wrote last
	log      *os.File
	logged   int
	hashed   int
	base     [3]int // tokens known when it was forked
	forked   bool   // of a branch that runs together with others
}

func newWorld(id, dir string, log *os.File) *World {
	return &World{tk: newTokens(), id: id, fr: map[int]*Fr{}, acc: map[int]*Acc{}, ite: map[int]*Ite{},
		bat: map[int]*Bat{}, msk: map[int]*Msk{}, cmp: map[int]*Cmp{}, next: 1,
		encs: map[string]map[string]map[int]int{}, dir: dir, log: log}
}

func (w *World) fresh() int { w.next++; return w.next - 1 }
func (w *World) frames() []int {
	r := []int{}
	for f := range w.fr {
		r = append(r, f)
	}
	sort.Ints(r)
	return r
}

func (w *World) add(id int, df *DF, anc map[int]bool, enc string) {
	if id >= w.next {
		w.next = id + 1
	}
	if df == nil {
		return
	}
	w.fr[id] = &Fr{df: df, anc: anc, enc: enc}
}

// addView adds a frame returned by a view function of frame src
func (w *World) addView(id, src int, df *DF) {
	anc := map[int]bool{src: true}
	for a := range w.fr[src].anc {
		anc[a] = true
	}
	w.add(id, df, anc, w.fr[src].enc)
	if w.fr[id] != nil {
		w.fr[id].ts = w.fr[src].ts
	}
}

// restruct forgets the views of f, as f gets a new structure
func (w *World) restruct(op Op, f int) {
	gone := []int{}
	for _, g := range w.frames() {
		if w.fr[g].anc[f] {
			gone = append(gone, g)
		}
	}
	for _, g := range gone {
		delete(w.fr, g)
	}
	op["gone"] = gone
}

// observe reads everything a frame shows
func (w *World) observe(f int, df *DF) *Obs {
	o := &Obs{F: f, N: df.NumRows(), Cpu: df.ActualMaxCPU(), Cols: []ColObs{}, Nc: df.NumColumns()}
	o.Hd = df.Header().NameList()
	if o.Hd == nil {
		o.Hd = []string{}
	}
	sort.Strings(o.Hd)
	strs := df.StringHeader().NameSet()
	add := func(names []string, t string) {
		sort.Strings(names)
		for _, n := range names {
			o.Cols = append(o.Cols, ColObs{N: n, T: t, S: strs[n], V: w.values(df, n, t)})
		}
	}
	add(df.BoolHeader().NameList(), "b")
	add(df.IntHeader().NameList(), "i")
	add(df.FloatHeader().NameList(), "f")
	add(df.ObjectHeader().NameList(), "o")
	for n := range strs { // a string column must be an object column
		if c := o.col(n); c == nil {
			o.Cols = append(o.Cols, ColObs{N: n, T: "?", S: true, V: []int{}})
		}
	}
	if len(o.Cols) > 0 {
		a := w.accessor(df, o.Cols[0].N)
		for j := 0; j < a.size(); j++ {
			x := a.shared(j)
			if x < 0 || x >= df.NumAllocatedRows() {
				o.Bad = append(o.Bad, "NumAllocatedRows")
				break
			}
			if x != j && !df.AreIndicesAltered() {
				o.Bad = append(o.Bad, "AreIndicesAltered")
				break
			}
		}
	}
	if !consistent(df, o) {
		o.Bad = append(o.Bad, "CheckConsistency")
	}
	return o
}

// consistent asks the frame itself, if it holds no object that may be a string
// without being marked, nor columns whose other rows may differ in number
func consistent(df *DF, o *Obs) (ok bool) {
	if df.AreIndicesAltered() {
		return true
	}
	for _, c := range o.Cols {
		if c.T == "o" && !c.S {
			return true
		}
	}
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return df.CheckConsistency(new(testing.T))
}

func (w *World) values(df *DF, n, t string) []int {
	rows := df.NumRows()
	v := make([]int, rows)
	switch t {
	case "b":
		a := df.Bools(n)
		if a.Size() != rows {
			panic("size of column " + n)
		}
		for j := range v {
			v[j] = w.tk.boolTok(a.Get(j))
		}
	case "i":
		a := df.Ints(n)
		if a.Size() != rows {
			panic("size of column " + n)
		}
		for j := range v {
			v[j] = w.tk.intTok(a.Get(j))
		}
	case "f":
		a := df.Floats(n)
		if a.Size() != rows {
			panic("size of column " + n)
		}
		for j := range v {
			v[j] = w.tk.float(a.Get(j))
		}
	default:
		a := df.Objects(n)
		if a.Size() != rows {
			panic("size of column " + n)
		}
		for j := range v {
			v[j] = w.tk.obj(a.Get(j))
		}
	}
	return v
}

func (w *World) observeAll(op Op) {
	obs := []*Obs{}
	for _, f := range w.frames() {
		fr := w.fr[f]
		o := w.observe(f, fr.df)
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		fr.obs = o
		if fr.json != string(b) {
			fr.json = string(b)
			obs = append(obs, o)
		}
	}
	op["obs"] = obs
}

var opTimeout = 60 * time.Second

// run executes one step and appends it to the trace; false if the trace ends
func (w *World) run(op Op) bool {
	if w.dead {
		return false
	}
	if op.s("op") == "Par" {
		return w.runPar(op)
	}
	if op.s("op") == "CsvBack" && !w.readBack(op) {
		return true
	}
	delete(op, "obs")
	delete(op, "panic")
	delete(op, "gone")
	pre := mustJSON(op)
	w.logTables()
	if w.log != nil {
		fmt.Fprintf(w.log, "P %s\n", pre)
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(skip); ok {
					done <- "skip"
					return
				}
				msg := "panic: " + fmt.Sprint(r)
				if os.Getenv("STACK") != "" {
					msg += "\n" + string(debug.Stack())
				}
				done <- msg
			}
		}()
		var g *gate
		if op.has("sched") {
			g = newGate(op.is("sched"))
			defer g.release()
		}
		w.do(op)
		if g != nil {
			g.returned()
		}
		w.observeAll(op)
		if g != nil {
			g.release()
			op["gate"] = []int{g.followed, g.skipped}
		}
		done <- ""
	}()
	select {
	case msg := <-done:
		if msg == "skip" { // a frame the code did not return: already noticed
			return true
		}
		if msg != "" {
			op["panic"] = msg
			op["obs"] = []int{}
			w.dead = true
		}
	case <-time.After(opTimeout):
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "operation did not return: %v\n%s\n", op["op"], buf[:n])
		// the goroutine still owns op
		op = Op{}
		json.Unmarshal(pre, &op)
		op["panic"] = "the call did not return"
		op["obs"] = []int{}
		w.dead = true
	}
	w.steps = append(w.steps, op)
	if w.log != nil {
		fmt.Fprintf(w.log, "D %s\n", mustJSON(op))
	}
	return !w.dead
}

// logTables logs what the trace needs besides its steps, if it has grown
func (w *World) logTables() {
	if w.log == nil {
		return
	}
	n := len(w.tk.strs) + len(w.tk.nums) + len(w.tk.ints)
	for _, m := range w.encs {
		for _, tab := range m {
			n += len(tab)
		}
	}
	if n != w.logged {
		w.logged = n
		t := w.trace()
		delete(t, "steps")
		fmt.Fprintf(w.log, "X %s\n", mustJSON(t))
	}
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func (w *World) trace() Op {
	strs, nums, ints := w.tk.dump()
	enc := Op{"x": 0}
	for a, m := range w.encs {
		e := Op{"x": 0}
		for b, tab := range m {
			pairs := [][]int{}
			for x, y := range tab {
				pairs = append(pairs, []int{x, y})
			}
			e[b] = pairs
		}
		enc[a] = e
	}
	return Op{"id": w.id, "enc": enc, "strs": strs, "nums": nums, "ints": ints, "approx": w.tk.approx, "steps": w.steps}
}
