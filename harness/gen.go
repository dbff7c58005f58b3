package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Profile says which operations random traces are made of.
type Profile struct {
	w          map[string]int
	steps      int
	maxFrames  int
	big        int    // percentage of frames with many rows
	bigVals    bool   // also extreme numbers
	missing    int    // percentage of missing values
	types      string // types of columns to draw from
	names      []string
	smallRows  int  // if not 0, no frame is created with more rows
	bigPredict bool // predictions over several batches
	pre        bool
	rowsMin    int
	csv        bool
	ordered    bool   // only values whose tokens are ordered like them
	wide       int    // % of frames with many columns (and calls with many files)
	long       bool   // some frames with many rows
	longs      bool   // long strings that differ in one place
	alike      bool   // strings that are nearly the same
	cats       int    // number of different integers, if not 0
	keeps      int    // % of slices given to Set* that the caller keeps
	par        string // profile of concurrent branches
	huge       int    // % of traces, short ones, about frames with very many rows
	isHuge     bool
	follow     int // % of row views that are viewed and copied at once
}

type Gen struct {
	w       *World
	r       *rand.Rand
	p       *Profile
	pending []Op
	didBig  bool
	strs    []int
	nums    []int // numbers off the grid
	total   int
	keys    []string
	par     *owned // of a branch
	base    int    // number of components when it starts
}

var stringPool = []string{"a", "b", "aa", "", " ", "Zoé", "naïve", "日本", "x,y", "q\"q", "NA", "0", "1.5", "true",
	"line\nbreak", " lead", "ß", "?", "€", "#c", "a;b", "\\.", "tab\tx"}
var numPool = []float64{1.0 / 3, 0.30000000000000004, -2.5e-8, 123456789.12345679, 5e-324, 1.7976931348623157e308, 4503599627370497.5,
	1e21, 16777217, 0.1, -1234.5678, 2.2250738585072014e-308}

// strings that are easily taken for one another
var alikePool = []string{"a\x00", "\x00", "a\x00\x00", "A", "AA", "a ", " a", "a\t", "\u00a0", "\u00e9", "e\u0301", "00", "01", "1", "1.0", "1.50", "+1", "TRUE", "True",
	"zoé", "ZOÉ", "Zoe", "naive", "na", "ss", "a\n", "a\r", "\ufeffa", "\xff", "\xfe", "\xffa", "a\xff", "ab", "ba", "aab", "aba", "baa", "-1", "nil", "<nil>"}
var defaultNames = []string{"a", "b", "c", "d", "e", "f", "g"}

func newGen(w *World, r *rand.Rand, p *Profile) *Gen {
	g := &Gen{w: w, r: r, p: p}
	for _, s := range stringPool {
		g.strs = append(g.strs, w.tk.str(s))
	}
	if !p.pre && !p.ordered {
		for _, x := range numPool {
			g.nums = append(g.nums, w.tk.float(x))
		}
	}
	if p.alike && g.pct(40) {
		for _, s := range alikePool {
			g.strs = append(g.strs, w.tk.str(s))
		}
	}
	if p.longs && g.pct(25) {
		ns := []int{40, 1100, 5000}
		if g.pct(10) {
			ns = []int{60000}
		}
		for _, n := range ns {
			b := []byte(strings.Repeat("long ", n/5))
			g.strs = append(g.strs, w.tk.str(string(b)), w.tk.str(string(b)+"x"))
			for _, at := range []int{0, n / 2, n - 1} {
				c := append([]byte{}, b...)
				c[at] = '#'
				g.strs = append(g.strs, w.tk.str(string(c)))
			}
		}
	}
	for k := range p.w {
		g.keys = append(g.keys, k)
		g.total += p.w[k]
	}
	sort.Strings(g.keys)
	w.tk.approx = p.pre
	g.base = w.lastComp()
	return g
}

func (g *Gen) n(k int) int {
	if k <= 0 {
		return 0
	}
	return g.r.Intn(k)
}
func (g *Gen) pct(k int) bool                { return g.r.Intn(100) < k }
func (g *Gen) pick(s []string) string        { return s[g.r.Intn(len(s))] }
func (g *Gen) obs(f int) *Obs                { return g.w.fr[f].obs }
func (g *Gen) cols(f int, t string) []string { return g.obs(f).names(t) }
func (g *Gen) names() []string {
	if g.p.names != nil {
		return g.p.names
	}
	return defaultNames
}
func (g *Gen) types() string {
	if g.p.types != "" {
		return g.p.types
	}
	return "fffiibbssso"
}

// frame picks a live frame satisfying cond
func (g *Gen) frame(cond func(o *Obs) bool) int {
	ok := []int{}
	for _, f := range g.w.frames() {
		if cond == nil || cond(g.obs(f)) {
			ok = append(ok, f)
		}
	}
	if len(ok) == 0 {
		return 0
	}
	return ok[g.r.Intn(len(ok))]
}
func has(t string) func(o *Obs) bool { return func(o *Obs) bool { return len(o.names(t)) > 0 } }

func (g *Gen) subset(s []string, min int) []string {
	r := []string{}
	for _, k := range g.r.Perm(len(s)) {
		if len(r) < min || g.pct(50) {
			r = append(r, s[k])
		}
	}
	return r
}

// twice sometimes repeats names of the list, up to the number of columns
func (g *Gen) twice(s []string) []string {
	if len(s) > 0 && g.pct(15) {
		for k := g.n(3); k >= 0; k-- {
			s = append(s, s[g.n(len(s))])
		}
	}
	return s
}

func (g *Gen) rows() int {
	if g.p.isHuge && g.pct(70) {
		return []int{400, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2500}[g.n(16)]
	}
	if g.p.smallRows == 0 && g.pct(g.p.big) {
		c := []int{63, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300}
		return c[g.n(len(c))]
	}
	n := 0
	switch x := g.n(100); {
	case x < 4:
		n = 0
	case x < 12:
		n = 1
	case x < 60:
		n = 2 + g.n(5)
	case x < 80:
		n = 7 + g.n(8)
	default:
		n = 12 + g.n(33)
	}
	if g.p.smallRows > 0 && n > g.p.smallRows {
		n = 1 + g.n(g.p.smallRows)
	}
	if n < g.p.rowsMin {
		n = g.p.rowsMin
	}
	return n
}

// val is a random value of a column of type t ("s": strings)
func (g *Gen) val(t string) int {
	miss := g.p.missing
	switch t {
	case "f":
		if g.pct(miss) {
			return NAN
		}
		if g.p.bigVals && g.pct(15) {
			if len(g.nums) > 0 && g.pct(50) {
				return g.nums[g.n(len(g.nums))]
			}
			return bigFloats[g.n(len(bigFloats))].tok
		}
		if g.p.pre {
			return (g.n(40) - 12) * 64
		}
		return (g.n(26) - 8) * 128
	case "i":
		if g.pct(miss) {
			return -256
		}
		if g.p.bigVals && g.pct(25) {
			return bigInts[g.n(len(bigInts))].tok
		}
		if g.p.cats > 0 && g.pct(70) {
			return (g.n(g.p.cats) - 1) * 256
		}
		return (g.n(8) - 1) * 256
	case "b":
		return g.n(2) * 256
	case "s":
		if g.pct(miss) {
			return NIL
		}
		return g.strs[g.n(len(g.strs))]
	}
	switch x := g.n(10); {
	case x < 2:
		return NIL
	case x < 4:
		return g.strs[g.n(len(g.strs))]
	}
	return objBase + g.n(6)
}
func (g *Gen) vals(t string, n int) []int {
	v := make([]int, n)
	for j := range v {
		v[j] = g.val(t)
	}
	if n < 4 {
		return v
	}
	if g.pct(25) { // few different values
		k := 1 + g.n(5)
		for j := range v {
			v[j] = v[g.n(k)%n]
		}
	}
	if n > 12 && g.pct(60) { // nothing missing
		for j := range v {
			for k := 0; k < 50 && (v[j] == NAN || v[j] == -256 && t == "i" || v[j] == NIL); k++ {
				v[j] = g.val(t)
			}
		}
	}
	if g.pct(10) { // in some order
		if sort.Ints(v); g.pct(50) {
			sort.Sort(sort.Reverse(sort.IntSlice(v)))
		}
	}
	return v
}
func kind(c *ColObs) string {
	if c.S {
		return "s"
	}
	return c.T
}

// exactCol: values whose mean and deviation are exact
func (g *Gen) exactCol(n int) []int {
	m := (g.n(9) - 3) * 256
	ds := []int{64, 128, 256, 512, 1024}
	d := ds[g.n(len(ds))]
	if g.pct(15) { // large compared with their spread
		m = (800000 + g.n(100000)) * 256
		d = []int{16, 32, 64, 128}[g.n(4)]
		if g.pct(50) {
			m = -m
		}
	}
	v := make([]int, n)
	miss := 0
	for j := range v {
		if g.pct(g.p.missing) {
			v[j] = NAN
			miss++
		} else if (j-miss)%2 == 0 {
			v[j] = m + d
		} else {
			v[j] = m - d
		}
	}
	if (n-miss)%2 == 1 { // an odd one out
		for j := n - 1; j >= 0; j-- {
			if v[j] != NAN {
				v[j] = NAN
				break
			}
		}
	}
	g.r.Shuffle(n, func(i, j int) { v[i], v[j] = v[j], v[i] })
	return v
}

func (g *Gen) specs(n, ncols int) []Op {
	cols := []Op{}
	names := append([]string{}, g.names()...)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for k := 0; k < ncols && k < len(names); k++ {
		t := string(g.types()[g.n(len(g.types()))])
		s := t == "s"
		v := g.vals(t, n)
		if t == "f" && g.p.pre && g.pct(85) {
			v = g.exactCol(n)
		}
		if s {
			t = "o"
		}
		cols = append(cols, Op{"n": names[k], "t": t, "s": s, "v": v})
	}
	return cols
}

// ordered: the tokens are in the order of the values
func ordered(v []int) bool {
	for _, x := range v {
		if x == NAN || !onGrid(x) && x < 1900000000 && x > -1900000000 {
			return false
		}
	}
	return true
}

func (g *Gen) cpu() int { return []int{-1, 0, 1, 1, 2, 2, 3, 4, 8, 100}[g.n(10)] }

func (g *Gen) newFrame() Op {
	n := g.rows()
	nc := 1 + g.n(5)
	if g.pct(30) {
		nc = 1 + g.n(2)
	}
	via := []string{"set", "add", "set", "empty"}[g.n(4)]
	if g.pct(2) && g.p.rowsMin == 0 {
		nc = 0
	}
	if nc == 0 {
		via = "empty"
	}
	if g.pct(g.p.wide) {
		nc, n = 9+g.n(60), 1+g.n(4)
		save := g.p.names
		g.p.names = []string{}
		for k := 0; k < nc; k++ {
			g.p.names = append(g.p.names, fmt.Sprintf("w%d", k))
		}
		defer func() { g.p.names = save }()
	}
	if g.p.long && g.pct(2) {
		n, nc = []int{99, 100, 101, 999, 1001}[g.n(5)], 1+g.n(2)
	}
	enc := "utf8"
	specs := g.specs(n, nc)
	accs := []Op{}
	for _, c := range specs { // the caller keeps the slices
		if via == "set" && g.pct(g.p.keeps) && len(g.w.acc)+len(accs) < 6 {
			accs = append(accs, Op{"a": len(g.w.acc) + len(accs) + 1, "col": c.s("n")})
		}
	}
	if len(accs) > 0 {
		return Op{"op": "New", "f": g.w.fresh(), "n": n, "cols": specs, "cpu": g.cpu(), "enc": enc, "via": via, "accs": accs}
	}
	return Op{"op": "New", "f": g.w.fresh(), "n": n, "cols": specs, "cpu": g.cpu(), "enc": enc, "via": via}
}

// like makes a new frame with the columns of f
func (g *Gen) like(f, n int) Op {
	o := g.obs(f)
	cols := []Op{}
	for _, c := range o.Cols {
		cols = append(cols, Op{"n": c.N, "t": c.T, "s": c.S, "v": g.vals(kind(&c), n)})
	}
	via := "set"
	if len(cols) == 0 {
		via = "empty"
	}
	return Op{"op": "New", "f": g.w.fresh(), "n": n, "cols": cols, "cpu": g.cpu(), "enc": "utf8", "via": via}
}

func sameSchema(a, b *Obs) bool {
	if len(a.Cols) != len(b.Cols) {
		return false
	}
	for k := range a.Cols {
		if a.Cols[k].N != b.Cols[k].N || a.Cols[k].T != b.Cols[k].T || a.Cols[k].S != b.Cols[k].S {
			return false
		}
	}
	return true
}

func (g *Gen) next() Op {
	w := g.w
	if len(g.pending) > 0 {
		op := g.pending[0]
		g.pending = g.pending[1:]
		if fn, ok := op["fn"].(func() Op); ok {
			op = fn()
			if op == nil {
				return g.next()
			}
		}
		return op
	}
	live := w.frames()
	if len(live) == 0 {
		return g.newFrame()
	}
	if len(live) > g.p.maxFrames {
		g.r.Shuffle(len(live), func(i, j int) { live[i], live[j] = live[j], live[i] })
		k := 2 + g.n(4)
		fs := append([]int{}, live[:k]...)
		return Op{"op": "Forget", "fs": fs}
	}
	for try := 0; try < 60; try++ {
		x := g.n(g.total)
		key := ""
		for _, k := range g.keys {
			if x < g.p.w[k] {
				key = k
				break
			}
			x -= g.p.w[k]
		}
		if op := g.make(key); op != nil {
			return op
		}
	}
	return g.newFrame()
}

func anyFrame(o *Obs) bool { return true }

func (g *Gen) grid(v []int) bool {
	for _, x := range v {
		if !onGrid(x) && x != NAN {
			return false
		}
	}
	return true
}

// single: numbers that single precision holds
func single(v []int) bool {
	for _, x := range v {
		if x != NAN && int(float32(x)) != x {
			return false
		}
	}
	return true
}
func noNaN(v []int) bool {
	for _, x := range v {
		if x == NAN {
			return false
		}
	}
	return true
}

// numeric columns that can be read as floats without loss
func (g *Gen) plainCols(o *Obs) []string {
	r := []string{}
	for k := range o.Cols {
		c := &o.Cols[k]
		if c.T != "o" && g.grid(c.V) {
			r = append(r, c.N)
		}
	}
	return r
}

func (g *Gen) unaltered(f int) bool {
	return !g.w.fr[f].df.AreIndicesAltered() && len(g.obs(f).Cols) > 0
}

func (g *Gen) make(key string) Op {
	w := g.w
	f := g.frame(nil)
	o := g.obs(f)
	n := o.N
	id := func() int { return w.fresh() }
	switch key {
	case "New":
		return g.newFrame()
	case "View", "ShallowCopy", "Copy", "ReverseView", "ShuffleView", "ResetIndexView":
		if len(o.Cols) == 0 && (key == "ShuffleView" || key == "ResetIndexView") {
			return nil // rows that cannot be told apart
		}
		return Op{"op": key, "f": id(), "src": f}
	case "IndexView":
		k := g.n(2*n + 1)
		if n == 0 {
			k = 0
		}
		if g.pct(30) {
			k = n
		}
		if k > maxRows {
			k = maxRows
		}
		idx := make([]int, k)
		for j := range idx {
			idx[j] = 1 + g.n(n)
		}
		if g.pct(12) { // all the rows, or consecutive ones
			a := g.n(n + 1)
			b := n
			if g.pct(50) {
				a = 0
			} else {
				b = a + g.n(n-a+1)
			}
			idx = []int{}
			for j := a; j < b; j++ {
				idx = append(idx, j+1)
			}
		} else if g.pct(25) && n > 0 { // a permutation or part of one
			p := g.r.Perm(n)
			idx = []int{}
			for _, x := range p[:1+g.n(n)] {
				idx = append(idx, x+1)
			}
		} else if g.pct(12) && n > 0 { // few rows, many times
			a, b := 1+g.n(n), 1+g.n(n)
			idx = []int{}
			for j := 2 + g.n(12); j >= 0; j-- {
				idx = append(idx, []int{a, a, b}[g.n(3)])
			}
		}
		v := id()
		if g.pct(g.p.follow) && len(o.Cols) > 0 {
			last, m := v, len(idx)
			for k := g.n(3); k > 0; k-- {
				op := Op{"src": last, "f": id()}
				switch g.n(4) {
				case 0:
					op["op"] = "ResetIndexView"
				case 1:
					op["op"] = "ReverseView"
				case 2:
					op["op"], op["k"] = "SampleView", g.n(m/2+1)
					m = op.i("k")
				default:
					a := g.n(m + 1)
					op["op"], op["from"], op["to"] = "SliceView", a, a+g.n(m-a+1)
					m = op.i("to") - a
				}
				last = op.i("f")
				g.pending = append(g.pending, op)
			}
			switch c := o.Cols[g.n(len(o.Cols))]; g.n(4) {
			case 0:
				g.pending = append(g.pending, Op{"op": "Copy", "src": last, "f": id()})
			case 1:
				g.pending = append(g.pending, Op{"op": "CopyValues", "f": last, "col": c.N})
			case 2:
				g.pending = append(g.pending, Op{"op": "RowConcat", "f": id(), "fs": []int{last, v}})
			default:
				if c.T == "f" && m > 0 {
					g.pending = append(g.pending, Op{"op": "VecDense", "f": last, "col": c.N, "copy": g.pct(50)})
				} else {
					g.pending = append(g.pending, Op{"op": "Copy", "src": last, "f": id()})
				}
			}
		}
		return Op{"op": key, "f": v, "src": f, "idx": idx}
	case "SliceView":
		a, b := g.n(n+1), g.n(n+1)
		if g.pct(25) {
			a = -1 - g.n(n+1)
		}
		if g.pct(25) {
			b = -1 - g.n(n+1)
		}
		if g.pct(30) {
			b = n
		}
		return Op{"op": key, "f": id(), "src": f, "from": a, "to": b}
	case "MaskView":
		m := make([]bool, n)
		for j := range m {
			m[j] = g.pct(60)
		}
		switch g.n(8) {
		case 0: // all rows
			for j := range m {
				m[j] = true
			}
		case 1: // all but one, one, or none
			k, on := g.n(n+1), g.pct(50)
			for j := range m {
				m[j] = (j == k) == on
			}
		}
		return Op{"op": key, "f": id(), "src": f, "mask": m, "via": []string{"zero", "empty", "own"}[g.n(3)]}
	case "ColumnView":
		cols := g.subset(g.cols(f, "ifbo"), 1)
		if g.pct(10) {
			cols = []string{}
		}
		cols = g.twice(cols)
		return Op{"op": key, "f": id(), "src": f, "cols": cols}
	case "SampleView":
		if len(o.Cols) == 0 {
			return nil
		}
		return Op{"op": key, "f": id(), "src": f, "k": g.n(n + 1)}
	case "SortedView", "TopView":
		ok := []string{}
		for _, c := range o.Cols {
			if c.T != "o" && ordered(c.V) {
				ok = append(ok, c.N)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		op := Op{"op": key, "f": id(), "src": f, "col": g.pick(ok)}
		if key == "TopView" {
			op["k"], op["asc"], op["sorted"] = g.n(n+3), g.pct(50), g.pct(50)
			if g.pct(30) {
				op["k"] = 1 + g.n(4)
			}
		}
		return op
	case "SplitView":
		b := 1 + g.n(n+2)
		if n > 12 && b < n/6 && (n > 60 || g.pct(85)) {
			b = n/6 + 1
		}
		return Op{"op": key, "src": f, "b": b}
	case "SplitNView":
		if g.pct(8) {
			return Op{"op": key, "src": f, "b": 7 + g.n(30)}
		}
		return Op{"op": key, "src": f, "b": 1 + g.n(6)}
	case "SplitTrainTest":
		den := []int{1, 2, 4, 8, 16}[g.n(5)]
		return Op{"op": key, "src": f, "num": g.n(den + 1), "den": den}
	case "DetachedView":
		return Op{"op": key, "f": id(), "src": f, "cols": g.twice(g.subset(g.cols(f, "ifbo"), 0))}
	case "Unshare":
		return Op{"op": key, "f": f, "cols": g.twice(g.subset(g.cols(f, "ifbo"), 0))}
	case "SetMany":
		if n == 0 || len(o.Cols) == 0 {
			return nil
		}
		c := &o.Cols[g.n(len(o.Cols))]
		rows := []int{}
		for k := 0; k < 1+g.n(3); k++ {
			rows = append(rows, 1+g.n(n))
		}
		return Op{"op": key, "f": f, "col": c.N, "rows": rows, "vals": g.vals(kind(c), len(rows))}
	case "GetAcc":
		if len(o.Cols) == 0 || len(w.acc) > 5 {
			return nil
		}
		return Op{"op": key, "f": f, "a": len(w.acc) + 1, "col": o.Cols[g.n(len(o.Cols))].N}
	case "AccSet", "AccGet":
		if len(w.acc) == 0 {
			return nil
		}
		a := 1 + g.n(len(w.acc))
		if key == "AccGet" {
			return Op{"op": key, "a": a}
		}
		x := w.acc[a]
		if x.size() == 0 {
			return nil
		}
		t := x.t
		if x.str {
			t = "s"
		}
		rows := []int{}
		for k := 0; k < 1+g.n(3); k++ {
			rows = append(rows, 1+g.n(x.size()))
		}
		return Op{"op": key, "a": a, "rows": rows, "vals": g.vals(t, len(rows))}
	case "Overwrite":
		name := g.pick(g.names())
		if len(o.Cols) > 0 && g.pct(55) {
			name = o.Cols[g.n(len(o.Cols))].N
		}
		t := string("fibso"[g.n(5)])
		if c := o.col(name); c != nil {
			if g.pct(75) {
				t = kind(c)
			}
			if c.T == "o" && (t == "s" || t == "o") {
				t = kind(c)
			}
		}
		if !strings.Contains(g.types(), t) {
			return nil
		}
		v := g.vals(t, n)
		if t == "f" && g.p.pre {
			v = g.exactCol(n)
		}
		op := Op{"op": key, "f": f, "col": name, "t": t, "s": false, "vals": v, "api": ""}
		if t == "f" && g.pct(40) && g.grid(v) && single(v) {
			op["api"] = "32"
		}
		if t == "s" {
			op["t"], op["s"] = "o", true
			ok := true
			for _, x := range v {
				ok = ok && x != NIL
			}
			if ok {
				op["api"] = "strings"
			}
		}
		return op
	case "Alloc":
		t := string("fibso"[g.n(5)])
		cols := g.subset(g.names(), 0)
		if len(cols) > 2 {
			cols = cols[:2]
		}
		if g.pct(30) && len(o.Cols) > 0 {
			cols = []string{o.Cols[g.n(len(o.Cols))].N}
		}
		op := Op{"op": key, "f": f, "t": t, "s": false, "cols": cols}
		if t == "s" {
			op["t"], op["s"] = "o", true
		}
		return op
	case "Drop":
		cols := g.subset(g.cols(f, "ifbo"), 0)
		if g.pct(20) {
			cols = append(cols, "nope")
		}
		if len(cols) > 2 {
			cols = cols[:2]
		}
		return Op{"op": key, "f": f, "cols": cols}
	case "Rename":
		if len(o.Cols) == 0 {
			return nil
		}
		b := g.pick(g.names())
		if g.pct(20) {
			b = o.Cols[g.n(len(o.Cols))].N
		}
		return Op{"op": key, "f": f, "a": o.Cols[g.n(len(o.Cols))].N, "b": b}
	case "Convert":
		t := string("ib"[g.n(2)])
		ok := []string{}
		for _, c := range o.Cols {
			if c.T == t && g.grid(c.V) {
				ok = append(ok, c.N)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		return Op{"op": key, "f": f, "t": t, "cols": g.subset(ok, 1)}
	case "SetMaxCPU":
		return Op{"op": key, "f": f, "cpu": g.cpu()}
	case "ColumnConcatView", "ColumnCopyConcat", "ColumnSmartConcat":
		return g.columnConcat(key, f)
	case "RowConcat":
		fs := []int{f}
		for k := g.n(3); k > 0; k-- {
			s := g.frame(func(x *Obs) bool { return g.concatable(o, x) })
			if s != 0 {
				fs = append(fs, s)
			}
		}
		if g.pct(12) { // not necessarily the same columns
			s := g.frame(func(x *Obs) bool { return g.marksAgree(o, x) })
			if s != 0 {
				fs = append(fs, s)
			}
		}
		if len(fs) == 1 && g.pct(60) && n <= maxRows {
			nw := g.like(f, g.rows())
			fs = append(fs, nw.i("f"))
			g.pending = append(g.pending, Op{"op": key, "f": id(), "fs": fs})
			return nw
		}
		return Op{"op": key, "f": id(), "fs": g.bounded(fs)}
	case "MergeRows":
		if !g.unaltered(f) {
			return nil
		}
		fs := []int{f}
		for k := g.n(3); k > 0; k-- {
			s := g.frame(func(x *Obs) bool { return sameSchema(o, x) && g.unaltered(x.F) })
			if s != 0 {
				fs = append(fs, s)
			}
		}
		if len(fs) == 1 && g.pct(60) && n <= maxRows {
			nw := g.like(f, g.rows())
			fs = append(fs, nw.i("f"))
			g.pending = append(g.pending, Op{"op": key, "f": id(), "fs": fs})
			return nw
		}
		return Op{"op": key, "f": id(), "fs": g.bounded(fs)}
	case "MergeColumns", "TransferInto":
		if !g.unaltered(f) {
			return nil
		}
		s := g.frame(func(x *Obs) bool {
			return x.F != f && x.N == n && g.unaltered(x.F) && !w.fr[x.F].anc[f]
		})
		if s == 0 {
			if g.pct(50) {
				return Op{"op": "New", "f": id(), "n": n, "cols": g.specs(n, 1+g.n(3)), "cpu": g.cpu(), "enc": "utf8", "via": "set"}
			}
			return nil
		}
		if key == "TransferInto" {
			return Op{"op": key, "f": f, "g": s}
		}
		return Op{"op": key, "f": id(), "fs": []int{f, s}}
	case "Encode":
		e := []string{"utf8", "utf8", "latin1", "win1252", "sjis", "utf16", "jis"}
		if x := g.frame(func(x *Obs) bool { return len(g.cols(x.F, "s")) == 0 }); x != 0 && g.pct(25) {
			// texts are added later, and converted
			from, to, next := g.pick(e), g.pick(e), g.pick(e)
			v := make([]int, g.obs(x).N)
			for j := range v {
				u, ok := convert(g.pick([]string{"a", "é", "ß", "", "x y", "€"}), "utf8", to)
				if v[j] = w.tk.str(u); !ok || g.pct(10) {
					v[j] = NIL
				}
			}
			free := ""
			for _, c := range g.names() {
				if g.obs(x).col(c) == nil {
					free = c
				}
			}
			if free == "" {
				free = "zz"
			}
			g.pending = append(g.pending, Op{"op": key, "f": x, "enc": to},
				Op{"op": "Overwrite", "f": x, "col": free, "t": "o", "s": true, "vals": v, "api": ""},
				Op{"op": key, "f": x, "enc": next})
			return Op{"op": key, "f": x, "enc": from}
		}
		f = g.frame(has("s"))
		if f == 0 {
			return nil
		}
		return Op{"op": key, "f": f, "enc": g.pick(e)}
	case "EncodeBack": // convert and convert back
		f = g.frame(has("s"))
		if f == 0 {
			return nil
		}
		from := w.fr[f].enc
		g.pending = append(g.pending, Op{"op": "Encode", "f": f, "enc": from})
		return Op{"op": "Encode", "f": f, "enc": g.pick([]string{"utf8", "latin1", "win1252", "sjis", "utf16", "jis"})}
	case "NewText": // strings that can be converted, possibly but for one
		return g.newText()
	case "HashStringsView":
		cols := g.subset(g.cols(f, "s"), 0)
		return Op{"op": key, "f": id(), "src": f, "cols": cols}
	case "HashBig":
		if g.pct(96) {
			return nil
		}
		return Op{"op": key, "n": 280000 + g.n(40000), "from": g.n(1 << 30)}
	case "HashTable":
		if g.pct(70) {
			return nil
		}
		return Op{"op": key, "strs": append([]int{}, g.strs[:3+g.n(len(g.strs)-3)]...)}
	case "CopyValues":
		if len(o.Cols) == 0 {
			return nil
		}
		return Op{"op": key, "f": f, "col": o.Cols[g.n(len(o.Cols))].N}
	case "SharedIndex":
		if len(o.Cols) == 0 || n > 60 {
			return nil
		}
		return Op{"op": key, "f": f, "col": o.Cols[g.n(len(o.Cols))].N}
	case "VecDense":
		c := g.cols(f, "f")
		if len(c) == 0 || n == 0 {
			return nil
		}
		return Op{"op": key, "f": f, "col": g.pick(c), "copy": g.pct(50)}
	case "LabelToInt":
		c := g.cols(f, "s")
		if len(c) == 0 {
			return nil
		}
		return Op{"op": key, "f": f, "col": g.pick(c)}
	case "Dense":
		ok := g.plainCols(o)
		if len(ok) == 0 || n == 0 {
			return nil
		}
		for k := 1; k <= len(w.bat); k++ {
			b := w.bat[k]
			if g.pct(60) && g.fits(o, b.cols, b.types) {
				return Op{"op": key, "f": f, "bt": k, "cols": b.cols}
			}
		}
		return Op{"op": key, "f": f, "bt": len(w.bat) + 1, "cols": g.subset(ok, 1)}
	case "Iterate":
		ok := []string{}
		for _, c := range g.plainCols(o) {
			if !w.tk.approx || single(o.col(c).V) { // the rounding of approximations is not known
				ok = append(ok, c)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		op := Op{"op": key, "f": f, "check": g.pct(50), "full": g.pct(70), "want": g.n(n + 1)}
		for k := 1; k <= len(w.ite); k++ {
			b := w.ite[k]
			if g.pct(60) && g.fits(o, b.cols, b.types) && len(without(b.cols, ok)) == 0 {
				op["it"], op["cols"] = k, b.cols
				return op
			}
		}
		op["it"], op["cols"] = len(w.ite)+1, g.subset(ok, 1)
		return op
	case "Headers":
		ops := []Op{}
		kinds := []string{"id", "and", "except", "exceptH", "copy"}
		sets := []string{"a", "i", "f", "b", "o", "s"}
		for k := 0; k < 4; k++ {
			ops = append(ops, Op{"k": g.pick(kinds), "x": g.pick(sets), "y": g.pick(sets),
				"names": g.subset(g.names(), 0)})
		}
		return Op{"op": key, "f": f, "ops": ops}
	case "SafeMasking":
		return Op{"op": key, "f": f, "on": g.pct(80)}
	case "Mask":
		if len(w.msk) > 6 {
			return nil
		}
		return Op{"op": key, "f": f, "m": len(w.msk) + 1, "zero": g.pct(60)}
	case "MaskSet":
		for k := range g.r.Perm(len(w.msk)) {
			m := w.msk[k+1]
			if m.ts && len(m.m) > 0 {
				v := make([]bool, len(m.m))
				for j := range v {
					v[j] = g.pct(60)
				}
				return Op{"op": key, "m": k + 1, "v": v}
			}
		}
		return nil
	case "MaskCheck":
		ms := []Op{}
		for k := 1; k <= len(w.msk); k++ {
			if w.msk[k].ts {
				ms = append(ms, Op{"m": k})
			}
		}
		if len(ms) == 0 {
			return nil
		}
		return Op{"op": key, "ms": ms}
	case "Par":
		return g.makePar()
	case "MaskRace":
		calls := []Op{}
		for _, x := range w.frames() {
			if w.fr[x].ts {
				for k := 0; k < 2; k++ {
					calls = append(calls, Op{"f": x, "zero": g.pct(50)})
				}
			}
		}
		if len(calls) == 0 {
			return nil
		}
		return Op{"op": key, "calls": calls}
	}
	if op := g.makeCsv(key, f, o); op != nil {
		return op
	}
	if op := g.makePrint(key, f); op != nil {
		return op
	}
	if key == "Misuse" {
		return g.makeMisuse(key, f)
	}
	return g.makeComp(key, f, o)
}

func (g *Gen) fits(o *Obs, cols []string, types string) bool {
	for k, c := range cols {
		x := o.col(c)
		if x == nil || x.T != string(types[k]) || !g.grid(x.V) {
			return false
		}
	}
	return true
}

// Joining frames again and again makes ever larger ones, which take TLC long
const maxRows = 5200

// The frames of fs, the last ones left out if there are too many rows
func (g *Gen) bounded(fs []int) []int {
	sum := 0
	for k, f := range fs {
		sum += g.obs(f).N
		if sum > maxRows && k > 0 {
			return fs[:k]
		}
	}
	return fs
}

// later frames need the columns of the first one, with the same marking
func (g *Gen) concatable(o, x *Obs) bool {
	for _, c := range o.Cols {
		d := x.col(c.N)
		if d == nil || d.T != c.T || d.S != c.S {
			return false
		}
	}
	return true
}
func (g *Gen) marksAgree(o, x *Obs) bool {
	for _, c := range o.Cols {
		d := x.col(c.N)
		if d != nil && d.T == c.T && d.S != c.S {
			return false
		}
	}
	return true
}

func (g *Gen) columnConcat(key string, f int) Op {
	w, o := g.w, g.obs(f)
	names := g.cols(f, "ifbo")
	if g.pct(55) && len(names) >= 2 { // subsets of the columns of one frame
		k := 1 + g.n(len(names)-1)
		p := g.r.Perm(len(names))
		a, b := []string{}, []string{}
		for j, x := range p {
			if j < k {
				a = append(a, names[x])
			} else {
				b = append(b, names[x])
			}
		}
		ia, ib := w.fresh(), w.fresh()
		op1 := Op{"op": "ColumnView", "f": ia, "src": f, "cols": a}
		op2 := Op{"op": "ColumnView", "f": ib, "src": f, "cols": b}
		if g.pct(25) {
			op1 = Op{"op": "DetachedView", "f": ia, "src": f, "cols": a}
			g.pending = append(g.pending, Op{"op": "Drop", "f": ia, "cols": b})
		}
		g.pending = append(g.pending, op2, Op{"op": key, "f": w.fresh(), "fs": []int{ia, ib}})
		return op1
	}
	fs := []int{f}
	for k := 1 + g.n(2); k > 0; k-- {
		s := g.frame(func(x *Obs) bool {
			if x.N != o.N && g.pct(90) {
				return false
			}
			for _, y := range fs {
				for _, c := range x.Cols {
					if g.obs(y).col(c.N) != nil && g.pct(95) {
						return false
					}
				}
			}
			return x.F != f
		})
		if s != 0 {
			dup := false
			for _, y := range fs {
				dup = dup || y == s
			}
			if !dup {
				fs = append(fs, s)
			}
		}
	}
	if len(fs) == 1 && g.pct(70) { // an unrelated frame of the same size
		free := []string{}
		for _, x := range append([]string{"k", "l", "m"}, g.names()...) {
			if o.col(x) == nil {
				free = append(free, x)
			}
		}
		save := g.p.names
		g.p.names = free
		nn := o.N
		if g.pct(10) {
			nn++
		}
		cols := g.specs(nn, 1+g.n(2))
		g.p.names = save
		nw := Op{"op": "New", "f": w.fresh(), "n": nn, "cols": cols, "cpu": g.cpu(), "enc": "utf8", "via": "set"}
		fs = append(fs, nw.i("f"))
		g.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		g.pending = append(g.pending, Op{"op": key, "f": w.fresh(), "fs": fs})
		return nw
	}
	return Op{"op": key, "f": w.fresh(), "fs": fs}
}

// newText: one or two string columns in some encoding
func (g *Gen) newText() Op {
	enc := g.pick([]string{"utf8", "utf8", "latin1", "win1252", "sjis", "utf16"})
	pool := []string{"a", "abc", "", "Zoé", "naïve", "ß", "é", "x y", "€", "日本", "テスト", "ﾊ", "~", "\\"}
	n := g.rows()
	cols := []Op{}
	names := append([]string{}, g.names()...)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	common := []string{"a", "abc", "", "x y"}
	for k := 0; k < 1+g.n(3); k++ {
		v := make([]int, n)
		for j := range v {
			u := g.pick(common)
			if g.pct(20) {
				u = g.pick(pool)
			}
			if g.pct(10) && n < 12 {
				u = g.pick(pool)
			}
			s, ok := convert(u, "utf8", enc)
			if !ok {
				s, _ = convert("a", "utf8", enc)
			}
			v[j] = g.w.tk.str(s)
			if g.pct(g.p.missing) {
				v[j] = NIL
			}
		}
		cols = append(cols, Op{"n": names[k], "t": "o", "s": true, "v": v})
	}
	if g.pct(40) {
		cols = append(cols, Op{"n": names[len(cols)], "t": "o", "s": false, "v": g.vals("o", n)})
	}
	if g.pct(40) {
		cols = append(cols, Op{"n": names[len(cols)], "t": "f", "s": false, "v": g.vals("f", n)})
	}
	return Op{"op": "New", "f": g.w.fresh(), "n": n, "cols": cols, "cpu": g.cpu(), "enc": enc, "via": g.pick([]string{"set", "add"})}
}

func hexes(bs ...[]byte) []string {
	r := []string{}
	for _, b := range bs {
		r = append(r, hex.EncodeToString(b))
	}
	return r
}
