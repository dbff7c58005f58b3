package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// Par runs several histories at the same time on frames that share their
// data. Every branch works in its own copy of the world: of the bookkeeping of
// the harness, not of the frames. There are two modes:
//
//	R: branches see all frames, read them and make new ones of them, and only
//	   write to, or restructure, what they made themselves;
//	W: each branch is given frames which share no row with those of the other
//	   branches, and does anything with them.
//
// Nothing synchronises the branches between their start and their end, so
// that the race detector reports whatever the code under test does not
// synchronise itself. A Par is recorded as the steps of its branches, one
// branch after the other, and a Join step that shows all frames.
type branch struct {
	seed  int64
	n     int
	own   []int // frames given to the branch (mode W)
	ops   []Op  // operations to run, if they are not generated
	w     *World
	panic string
}

func (t *Tokens) fork() *Tokens {
	r := newTokens()
	r.approx = t.approx
	r.strs = append(r.strs, t.strs...)
	r.nums = append(r.nums, t.nums...)
	r.ints = append(r.ints, t.ints...)
	r.objs = append(r.objs, t.objs...)
	for k, v := range t.strIx {
		r.strIx[k] = v
	}
	for k, v := range t.numIx {
		r.numIx[k] = v
	}
	for k, v := range t.intIx {
		r.intIx[k] = v
	}
	for k, v := range t.objIx {
		r.objIx[k] = v
	}
	return r
}

func (w *World) fork(k int, own []int) *World {
	f := newWorld(w.id, filepath.Join(w.dir, fmt.Sprintf("br%d", k)), nil)
	if err := os.MkdirAll(f.dir, 0755); err != nil {
		fatal(err)
	}
	f.forked = true
	f.tk = w.tk.fork()
	f.base = [3]int{len(w.tk.strs), len(w.tk.nums), len(w.tk.ints)}
	f.next = w.next + 200*k
	mine := map[int]bool{}
	for _, x := range own {
		mine[x] = true
	}
	for id, fr := range w.fr {
		if len(own) == 0 || mine[id] {
			c := *fr
			f.fr[id] = &c
		}
	}
	for id, c := range w.cmp {
		x := *c
		f.cmp[id] = &x
	}
	if len(own) == 0 {
		for id, a := range w.acc {
			f.acc[id] = a
		}
	}
	return f
}

// hashAll gives tokens to the hashes of all strings known
func (w *World) hashAll() {
	if len(w.tk.strs) == w.hashed {
		return
	}
	w.hashed = len(w.tk.strs)
	r := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddStrings("a", w.tk.strs...).ToDataFrame().HashStringsView("a").Ints("a")
	for j := 0; j < r.Size(); j++ {
		w.tk.intTok(r.Get(j))
	}
}

// moved renumbers, in the steps of a fork, the tokens that w does not know
func (w *World) moved(f *World) []Op {
	s0, n0, i0 := f.base[0], f.base[1], f.base[2]
	to := map[int]int{}
	for k := s0; k < len(f.tk.strs); k++ {
		to[strBase+k] = w.tk.str(f.tk.strs[k])
	}
	for k := n0; k < len(f.tk.nums); k++ {
		to[numBase+k] = w.tk.float(f.tk.nums[k])
	}
	for k := i0; k < len(f.tk.ints); k++ {
		t := w.tk.intTok(f.tk.ints[k])
		if t < 0 {
			to[-intBase-k] = t
		} else {
			to[intBase+k] = t
		}
	}
	if len(to) == 0 {
		return f.steps
	}
	var list []interface{}
	fatal(json.Unmarshal(mustJSON(f.steps), &list))
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch x := v.(type) {
		case float64:
			if t, ok := to[int(x)]; ok && float64(int(x)) == x {
				return float64(t)
			}
		case []interface{}:
			for k := range x {
				x[k] = walk(x[k])
			}
		case map[string]interface{}:
			for k := range x {
				x[k] = walk(x[k])
			}
		}
		return v
	}
	r := []Op{}
	for _, v := range list {
		r = append(r, asOp(walk(v)))
	}
	return r
}

// runPar runs a Par operation, either with branches (operations) or with
// seeds, and records what it did
func (w *World) runPar(op Op) bool {
	bs := []*branch{}
	for _, b := range op.ops("branches") {
		bs = append(bs, &branch{ops: b.ops("ops"), own: b.is("own")})
	}
	for k, s := range op.is("seeds") {
		b := &branch{seed: int64(s), n: op.i("n")}
		if fs := op.list("own"); k < len(fs) {
			b.own = Op{"x": fs[k]}.is("x")
		}
		bs = append(bs, b)
	}
	w.tk.toObj(objBase + 15)
	w.hashAll()
	w.logTables()
	if w.log != nil {
		fmt.Fprintf(w.log, "P %s\n", mustJSON(op))
	}
	base := w.lastComp()
	for k, b := range bs {
		for _, f := range b.own {
			if w.fr[f] == nil {
				return true // what the code returned was noticed
			}
		}
		b.w = w.fork(k+1, b.own)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	wg.Add(len(bs))
	for k := range bs {
		go func(k int) {
			defer wg.Done()
			<-start
			bs[k].run(k, op.s("prof"))
		}(k)
	}
	close(start)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(opTimeout):
		op["panic"], op["obs"] = "the calls did not return", []int{}
		w.dead = true
		w.note(op)
		return false
	}
	owns := [][]int{}
	for k, b := range bs {
		own := append([]int{}, b.own...)
		owns = append(owns, own)
		fresh := len(b.w.tk.strs)+len(b.w.tk.nums)+len(b.w.tk.ints) > b.w.base[0]+b.w.base[1]+b.w.base[2]
		steps := w.moved(b.w)
		for _, s := range steps {
			s["par"], s["br"] = true, k
			w.note(s)
		}
		if b.panic != "" {
			w.dead = true
			return false
		}
		for _, f := range b.own {
			if b.w.fr[f] == nil {
				delete(w.fr, f)
			}
		}
		for id, fr := range b.w.fr {
			fr.json = ""
			w.fr[id] = fr
			fr.obs = nil
		}
		for id, a := range b.w.acc {
			w.acc[id] = a
		}
		for id, c := range b.w.cmp {
			if id > base {
				if fresh {
					delete(w.cmp, id)
				} else {
					w.cmp[id] = c
				}
			}
		}
		if b.w.next > w.next {
			w.next = b.w.next
		}
		os.RemoveAll(b.w.dir)
	}
	for _, fr := range w.fr {
		fr.json = ""
	}
	return w.run(Op{"op": "Join", "own": owns})
}

// note records a step that has been run
func (w *World) note(op Op) {
	w.steps = append(w.steps, op)
	w.logTables()
	if w.log != nil {
		fmt.Fprintf(w.log, "D %s\n", mustJSON(op))
	}
}

func (b *branch) run(k int, prof string) {
	w := b.w
	var cur Op
	defer func() {
		if r := recover(); r != nil {
			b.panic = "panic: " + fmt.Sprint(r)
			if os.Getenv("STACK") != "" {
				b.panic += "\n" + string(debug.Stack())
			}
			if cur == nil { // not in the code under test
				fatal(fmt.Errorf("branch: %v\n%s", r, debug.Stack()))
			}
			cur["panic"], cur["obs"] = b.panic, []int{}
			w.steps = append(w.steps, cur)
		}
	}()
	var g *Gen
	n := len(b.ops)
	if b.ops == nil {
		g = newGen(w, rand.New(rand.NewSource(b.seed)), profile(prof+"in"))
		g.par = newOwned(b.own, w)
		n = b.n
	}
	for j := 0; j < n; j++ {
		if g == nil {
			cur = Op{}
			for key, v := range b.ops[j] {
				cur[key] = v
			}
		} else if cur = g.nextOwned(); cur == nil {
			return
		}
		if cur.s("op") == "CsvBack" && !w.readBack(cur) {
			continue
		}
		for _, x := range []string{"obs", "panic", "gone", "sched", "par", "br"} {
			delete(cur, x)
		}
		if !w.try(cur) {
			continue
		}
		w.observeAll(cur)
		w.steps = append(w.steps, cur)
		done := cur
		cur = nil
		if g != nil {
			g.par.did(done)
		}
	}
}

// try is false if the operation cannot be run
func (w *World) try(op Op) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(skip); !is {
				panic(r)
			}
			ok = false
		}
	}()
	w.do(op)
	return true
}

// owned says what a branch may do with frames
type owned struct {
	all  bool         // every frame is the branch's
	own  map[int]bool // frames made by the branch
	deep map[int]bool // frames whose values no other branch can reach
	part map[int]bool // frames whose columns also hold rows of other branches
	acc  map[int]bool // accessors of deep frames
}

func newOwned(own []int, w *World) *owned {
	o := &owned{all: len(own) > 0, own: map[int]bool{}, deep: map[int]bool{}, part: map[int]bool{}, acc: map[int]bool{}}
	for _, f := range own {
		o.own[f], o.deep[f], o.part[f] = true, true, true
	}
	return o
}

func (o *owned) allDeep(fs []int) bool {
	for _, f := range fs {
		if !o.deep[f] {
			return false
		}
	}
	return true
}

// may says if the branch may run op
func (o *owned) may(g *Gen, op Op) bool {
	f, src := op.i("f"), op.i("src")
	switch op.s("op") { // copies of whole columns, as documented
	case "DetachedView", "AutoTransform", "AutoFit", "LinFit":
		if o.part[src] || o.part[f] {
			return false
		}
	case "Unshare", "Convert", "ColumnSmartConcat":
		for _, x := range append(op.is("fs"), f) {
			if o.part[x] {
				return false
			}
		}
	}
	switch op.s("op") {
	case "View", "ShallowCopy", "Copy", "ReverseView", "ColumnView", "IndexView", "SliceView", "DetachedView",
		"ShuffleView", "ResetIndexView", "SampleView", "SortedView", "TopView", "SplitView", "SplitNView", "SplitTrainTest",
		"RowConcat", "ColumnConcatView", "ColumnCopyConcat", "MergeRows", "MergeColumns", "HashStringsView", "New", "Forget",
		"CopyValues", "SharedIndex", "VecDense", "LabelToInt", "Dense", "Iterate", "Headers", "Metric",
		"CsvWrite", "CsvRead", "CsvReadMany", "CsvBack", "CsvFault",
		"HashTransform", "OneHotTransform", "AutoTransform", "Predict", "Columns", "Json", "GetAcc", "AccGet":
		if op.s("op") == "Forget" {
			for _, f := range op.is("fs") {
				if !o.own[f] {
					return false
				}
			}
		}
		return true
	case "MaskView": // masks of the frame itself are for one caller at a time
		op["via"] = "own"
		return true
	case "AccSet":
		return o.acc[op.i("a")]
	case "SetMany", "ImputerTransform", "ScalerTransform", "Unshare":
		return o.deep[f]
	case "Overwrite":
		if o.own[f] && !o.deep[f] {
			c := g.obs(f).col(op.s("col"))
			return c == nil || c.T != op.s("t")
		}
		return o.deep[f]
	case "Alloc", "Drop", "Rename", "Convert", "SetMaxCPU", "TransferInto":
		return o.own[f]
	case "ColumnSmartConcat":
		return o.allDeep(op.is("fs"))
	case "ImputerFit", "ScalerFit", "HashFit", "OneHotFit", "LinFit", "LinSet":
		return op.i("c") > g.base
	case "AutoFit":
		return op.i("c") > g.base && (!op.b("ft") || o.deep[src])
	}
	return false
}

// did keeps track of what the branch owns
func (o *owned) did(op Op) {
	f, src := op.i("f"), op.i("src")
	made := func(f int, deep bool) {
		o.own[f] = true
		o.part[f] = false
		for _, x := range append(op.is("fs"), src, op.i("g")) {
			switch op.s("op") {
			case "Copy", "RowConcat", "ColumnCopyConcat":
			default:
				if o.part[x] {
					o.part[f] = true
				}
			}
		}
		if deep {
			o.deep[f] = true
		}
	}
	switch op.s("op") {
	case "New", "Copy", "RowConcat", "ColumnCopyConcat", "CsvRead", "CsvReadMany", "CsvBack":
		made(f, true)
	case "ColumnConcatView", "MergeColumns", "MergeRows", "ColumnSmartConcat":
		made(f, o.allDeep(op.is("fs")))
	case "SplitView", "SplitNView", "SplitTrainTest":
		for _, x := range op.is("fs") {
			made(x, o.deep[src])
		}
	case "TransferInto":
		if !o.deep[op.i("g")] {
			delete(o.deep, f)
		}
		if o.part[op.i("g")] {
			o.part[f] = true
		}
	case "GetAcc":
		o.acc[op.i("a")] = o.deep[f]
	default:
		if op.has("src") && op.has("f") && f != src {
			made(f, o.deep[src])
		}
	}
}

// nextOwned is a random operation that the branch may run
func (g *Gen) nextOwned() Op {
	for try := 0; try < 40; try++ {
		if op := g.next(); op != nil && g.par.may(g, op) {
			return op
		}
		g.pending = nil
	}
	return nil
}

// permShared finds which row of src each row of res is without writing
func (w *World) permShared(src, res *DF, except ...string) []int {
	r := []int{}
	there := res.Header().NameSet()
	col, found := "", false
	for _, c := range strs(src.Header().NameList()) {
		if there[c] && typeOf(src, c) == typeOf(res, c) && (len(except) == 0 || c != except[0]) {
			col, found = c, true
			break
		}
	}
	if !found {
		for j := 0; j < res.NumRows(); j++ {
			r = append(r, j+1)
		}
		return r
	}
	a, b := w.accessor(src, col), w.accessor(res, col)
	classes := map[int][]int{}
	for j := 0; j < a.size(); j++ {
		x := a.shared(j)
		classes[x] = append(classes[x], j+1)
	}
	for j := 0; j < b.size(); j++ {
		c := classes[b.shared(j)]
		if len(c) == 0 {
			return []int{}
		}
		r = append(r, c[0])
		classes[b.shared(j)] = c[1:]
	}
	return r
}

// grouped puts recorded steps of concurrent branches together again
func grouped(steps []Op) []Op {
	r := []Op{}
	for k := 0; k < len(steps); k++ {
		if !steps[k].b("par") {
			if steps[k].s("op") != "Join" {
				r = append(r, steps[k])
			}
			continue
		}
		brs := []Op{}
		byBr := map[int]int{}
		for ; k < len(steps) && steps[k].b("par"); k++ {
			b := steps[k].i("br")
			j, ok := byBr[b]
			if !ok {
				j = len(brs)
				byBr[b] = j
				brs = append(brs, Op{"br": b, "ops": []Op{}})
			}
			brs[j]["ops"] = append(brs[j]["ops"].([]Op), steps[k])
		}
		if k < len(steps) && steps[k].s("op") == "Join" {
			owns := steps[k].list("own")
			for _, b := range brs {
				if j := b.i("br"); j < len(owns) {
					b["own"] = Op{"x": owns[j]}.is("x")
				}
			}
		}
		r = append(r, Op{"op": "Par", "branches": brs})
	}
	return r
}

// makePar: branches with what the profile allows
func (g *Gen) makePar() Op {
	w := g.w
	nb := 2 + g.n(3)
	seeds := []int{}
	for k := 0; k < nb; k++ {
		seeds = append(seeds, g.r.Intn(1<<30))
	}
	op := Op{"op": "Par", "prof": g.p.par, "seeds": seeds, "n": 2 + g.n(5)}
	if g.pct(65) {
		return op
	}
	// pieces of a frame
	f := g.frame(func(o *Obs) bool {
		if o.N < 2 || len(o.Cols) == 0 {
			return false
		}
		a := w.accessor(w.fr[o.F].df, o.Cols[0].N)
		seen := map[int]bool{}
		for j := 0; j < a.size(); j++ {
			seen[a.shared(j)] = true
		}
		return len(seen) == o.N
	})
	if f == 0 {
		return op
	}
	split := Op{"op": "SplitNView", "src": f, "b": nb}
	if n := g.obs(f).N; g.pct(50) {
		split = Op{"op": "SplitView", "src": f, "b": (n + nb - 1) / nb}
	}
	g.pending = append(g.pending, Op{"op": "@", "fn": func() Op {
		last := w.steps[len(w.steps)-1]
		fs := last.is("fs")
		if last.i("src") != f || len(fs) < 2 {
			return nil
		}
		own := [][]int{}
		for k, x := range fs {
			if k < nb {
				own = append(own, []int{x})
			} else {
				own[k%nb] = append(own[k%nb], x)
			}
		}
		op["seeds"], op["own"] = seeds[:len(own)], own
		return op
	}})
	return split
}
