package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
)

// refused tells whether f panics or returns an error
func refused(f func() error) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			r = true
		}
	}()
	return f() != nil
}

// csvText is a header (none if empty) and records of given lengths
func csvText(header []string, lens []int) string {
	lines := []string{}
	if len(header) > 0 {
		lines = append(lines, strings.Join(header, ","))
	}
	for k, n := range lens {
		x := []string{}
		for j := 0; j < n; j++ {
			x = append(x, []string{"1", "x", "2.5"}[(j+k)%3])
		}
		lines = append(lines, strings.Join(x, ","))
	}
	return strings.Join(append(lines, ""), "\n")
}

// doMisuse: a call that may be refused. What it returns, if it is not, is not
// kept, but the sizes of it are noted.
func (w *World) doMisuse(name string, op Op) bool {
	if name != "Misuse" {
		return false
	}
	var d, e *DF
	if op.has("f") {
		d = w.df(op, "f")
	}
	if op.has("g") {
		e = w.df(op, "g")
	}
	fs := []*DF{}
	for _, f := range op.is("fs") {
		if w.fr[f] == nil {
			panic(skip("no such frame"))
		}
		fs = append(fs, w.fr[f].df)
	}
	got := []int{}
	rows := func(ds ...*DF) error {
		for _, x := range ds {
			got = append(got, x.NumRows())
		}
		return nil
	}
	num := func(n int) error { got = append(got, n); return nil }
	col, cols := op.s("col"), op.ss("cols")
	dir := filepath.Join(w.dir, "misuse")
	call := func() error {
		switch op.s("kind") {
		case "sample":
			return rows(d.SampleView(op.i("k"), op.b("repl")))
		case "splitn":
			return rows(d.SplitNView(op.i("k"))...)
		case "split":
			return rows(d.SplitView(op.i("k"))...)
		case "ratio":
			return rows(d.SplitTrainTestViews(float64(op.i("num")) / float64(op.i("den"))))
		case "sort":
			return rows(d.SortedView(col))
		case "top":
			return rows(d.TopView(col, op.i("k"), op.b("asc"), op.b("sorted")))
		case "ints":
			return num(d.Ints(col).Size())
		case "bools":
			return num(d.Bools(col).Size())
		case "floats":
			return num(d.Floats(col).Size())
		case "objects":
			return num(d.Objects(col).Size())
		case "strings":
			return num(d.Strings(col).Size())
		case "rename":
			d.Rename(col, op.s("b"))
		case "values":
			return num(len(d.CopyValuesToInterfaces(col)))
		case "labels":
			v, _ := d.LabelToInt(col)
			return num(len(v))
		case "dense":
			n, m := dataframe.NewDense64Batching(cols).DenseMatrix(d).Dims()
			got = append(got, n, m)
		case "iterate":
			it := dataframe.NewFloat32Iterator(d, cols)
			if e != nil {
				it.Reset(e, true)
			}
			n := 0
			for r, _, _ := it.NextRow(); r != nil; r, _, _ = it.NextRow() {
				n++
			}
			return num(n)
		case "metric":
			if op.b("mse") {
				algorithms.MSE(d.Floats(col), e.Floats(op.s("gcol")))
			} else {
				algorithms.MAE(d.Floats(col), e.Floats(op.s("gcol")))
			}
		case "overlap":
			return dataframe.CheckNoColumnOverlap(fs)
		case "rowconcat":
			x, err := dataframe.RowConcat(fs...)
			if err == nil {
				rows(x)
			}
			return err
		case "sizes": // a frame of columns of these types and sizes
			raw := dataframe.NewRawData()
			b := dataframe.DataBuilder{RawData: raw}
			for k, n := range op.is("sizes") {
				c := fmt.Sprintf("c%d", k)
				switch op.s("types")[k] {
				case 'f':
					b.SetFloats(c, make([]float64, n))
				case 'i':
					b.SetInts(c, make([]int, n))
				case 'b':
					b.SetBools(c, make([]bool, n))
				case 's':
					b.SetObjects(c, make([]interface{}, n)).MarkAsString(c)
				default:
					b.SetObjects(c, make([]interface{}, n))
				}
			}
			if op.b("raw") {
				return rows(raw.ToDataFrame())
			}
			return rows(b.ToDataFrame())
		case "csv":
			fatal(os.MkdirAll(dir, 0755))
			for k, f := range op.ops("files") {
				fatal(ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.csv", k)), []byte(csvText(f.ss("header"), f.is("lens"))), 0644))
			}
			spec := dataframe.CSVReadingSpec{Header: op.ss("given"), Exclude: op.ss("exclude"), MaxCPU: op.i("cpu")}
			var x *dataframe.RawData
			var err error
			if op.b("pattern") {
				x, err = dataframe.FromCSVFilePattern(filepath.Join(dir, "f*.csv"), spec)
			} else {
				x, err = dataframe.FromCSVFile(filepath.Join(dir, "f0.csv"), spec)
			}
			if err == nil {
				rows(x.ToDataFrame())
			}
			return err
		default:
			panic("unknown misuse " + op.s("kind"))
		}
		return nil
	}
	op["refused"] = refused(call)
	if op["refused"] == true {
		got = []int{}
	}
	op["got"] = got
	os.RemoveAll(dir)
	return true
}

var misuses = []string{"sample", "splitn", "split", "ratio", "sort", "top", "ints", "bools", "floats", "objects", "strings", "rename",
	"values", "labels", "dense", "iterate", "iterate", "metric", "overlap", "overlap", "rowconcat", "sizes", "sizes", "csv", "csv", "csv"}

// a column of the frame, of another one, or of none
func (g *Gen) anyCol(f int) string {
	names := []string{"", "no such column"}
	for _, x := range g.w.frames() {
		if g.pct(50) {
			names = append(names, g.cols(x, "ifbo")...)
		}
	}
	if own := g.cols(f, "ifbo"); len(own) > 0 && g.pct(60) {
		return g.pick(own)
	}
	return g.pick(names)
}

func (g *Gen) makeMisuse(key string, f int) Op {
	if key != "Misuse" {
		return nil
	}
	o := g.obs(f)
	n := o.N
	k := misuses[g.n(len(misuses))]
	op := Op{"op": key, "kind": k}
	switch k {
	case "sizes":
		sizes, types, m := []int{}, "", 1+g.n(5)
		s := g.n(5)
		for j := 0; j < m; j++ {
			sizes = append(sizes, s)
			types += string("fibos"[g.n(5)])
		}
		if j := g.n(m); g.pct(60) {
			sizes[j] += []int{1, -1, 2}[g.n(3)]
			if sizes[j] < 0 {
				sizes[j] = 1
			}
		}
		op["sizes"], op["types"], op["raw"] = sizes, types, g.pct(50)
		return op
	case "csv":
		all := []string{"a", "b", "c", "d", "e"}
		m := 1 + g.n(3)
		header := append([]string{}, all[:m]...)
		op["given"], op["exclude"], op["cpu"] = []string{}, []string{}, g.cpu()
		given := g.pct(30)
		if given {
			op["given"] = header
		}
		op["pattern"] = g.pct(70)
		files := []Op{}
		nf := 1 + g.n(4)
		odd := g.n(nf)
		if g.pct(25) {
			odd = -1
		}
		for i := 0; i < nf; i++ {
			h := append([]string{}, header...)
			if !given {
				g.r.Shuffle(m, func(a, b int) { h[a], h[b] = h[b], h[a] })
			}
			what := g.n(4)
			if i == odd && what == 0 && !given {
				switch g.n(3) {
				case 0:
					h[g.n(m)] = all[m+g.n(5-m)]
				case 1:
					h = append(h, all[m])
				default:
					h = h[:m-1]
				}
			}
			size := len(h)
			lens := []int{}
			for r := g.n(4); r > 0; r-- {
				lens = append(lens, size)
			}
			if i == odd && len(lens) > 0 {
				switch what {
				case 1:
					lens[g.n(len(lens))]++
				case 2:
					if size > 1 {
						lens[g.n(len(lens))]--
					}
				case 3:
					if size > 1 {
						for r := range lens {
							lens[r]--
						}
					}
				}
			}
			if given {
				h = []string{}
			} else if len(h) == 0 {
				lens = []int{}
			}
			files = append(files, Op{"header": h, "lens": lens})
		}
		if m > 1 && g.pct(25) {
			op["exclude"] = []string{header[g.n(m)], "zz"}
		}
		op["files"] = files
		return op
	case "rowconcat", "overlap":
		fs := []int{}
		for _, x := range g.w.frames() {
			if g.pct(35) && (k == "overlap" || len(g.obs(x).Cols) > 0) {
				fs = append(fs, x)
			}
		}
		if k == "rowconcat" && (g.pct(30) || len(fs) > 0 && !g.concatAll(fs)) {
			fs = []int{}
		}
		if k == "overlap" && len(o.Cols) > 1 && g.pct(60) { // columns of one frame
			a, b := []string{}, []string{}
			for _, c := range o.Cols {
				if g.pct(50) {
					a = append(a, c.N)
				} else {
					b = append(b, c.N)
				}
			}
			if len(a) == 0 || len(b) == 0 {
				return nil
			}
			if g.pct(40) {
				b = append(b, g.pick(a))
			}
			ia, ib := g.w.fresh(), g.w.fresh()
			fs = append(fs[:g.n(len(fs)+1)%2*len(fs)/2], ia, ib)
			g.r.Shuffle(len(fs), func(x, y int) { fs[x], fs[y] = fs[y], fs[x] })
			op["fs"] = fs
			g.pending = append(g.pending, Op{"op": "ColumnView", "f": ib, "src": f, "cols": b}, op)
			return Op{"op": "ColumnView", "f": ia, "src": f, "cols": a}
		}
		op["fs"] = fs
		return op
	}
	op["f"] = f
	near := []int{-2, -1, 0, 1, n - 1, n, n + 1, n + 2, g.n(n + 3)}
	switch k {
	case "sample":
		op["k"], op["repl"] = near[2+g.n(len(near)-2)], g.pct(12)
		if op["k"] == -1 {
			op["k"] = 0
		}
	case "splitn", "split":
		op["k"] = near[g.n(len(near))]
	case "ratio":
		den := []int{1, 2, 4, 8, 1024, 1048576}[g.n(6)]
		op["num"], op["den"] = []int{-1, 0, den, den + 1, -den, 2 * den, g.n(den + 1)}[g.n(7)], den
	case "sort", "ints", "bools", "floats", "objects", "strings", "values", "labels":
		op["col"] = g.anyCol(f)
	case "top":
		op["col"], op["k"], op["asc"], op["sorted"] = g.anyCol(f), near[g.n(len(near))], g.pct(50), g.pct(50)
	case "rename":
		op["col"], op["b"] = g.anyCol(f), g.anyCol(f)
		if o.col(op.s("col")) != nil {
			op["col"] = "no such column"
		}
	case "dense", "iterate":
		if n == 0 && k == "dense" {
			return nil
		}
		cols := g.subset(o.names("fib"), 1)
		if g.pct(50) || len(cols) == 0 {
			cols = append(cols, g.anyCol(f))
		}
		g.r.Shuffle(len(cols), func(a, b int) { cols[a], cols[b] = cols[b], cols[a] })
		if x := g.frame(anyFrame); x != 0 && k == "iterate" && g.pct(60) {
			op["g"] = x
			if p := g.obs(x); g.pct(60) { // columns both have
				cols = []string{}
				for _, c := range o.names("fib") {
					if p.col(c) != nil && g.pct(80) {
						cols = append(cols, c)
					}
				}
				if len(cols) == 0 {
					return nil
				}
			}
		}
		op["cols"] = cols
	case "metric":
		x := g.frame(has("f"))
		if x == 0 || len(o.names("f")) == 0 {
			return nil
		}
		op["g"], op["col"], op["gcol"], op["mse"] = x, g.pick(o.names("f")), g.pick(g.cols(x, "f")), g.pct(50)
	}
	return op
}

func (g *Gen) concatAll(fs []int) bool {
	for _, f := range fs {
		if !g.marksAgree(g.obs(fs[0]), g.obs(f)) {
			return false
		}
	}
	return true
}
