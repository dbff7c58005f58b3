package main

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

type Ite struct {
	it    *dataframe.Float32Iterator
	cols  []string
	types string
}
type Bat struct {
	b     *dataframe.Dense64Batching
	cols  []string
	types string
}

func typesOf(df *DF, cols []string) string {
	t := ""
	for _, c := range cols {
		t += typeOf(df, c)
	}
	return t
}

func header(df *DF, x string) dataframe.ColumnHeader {
	switch x {
	case "i":
		return df.IntHeader()
	case "f":
		return df.FloatHeader()
	case "b":
		return df.BoolHeader()
	case "o":
		return df.ObjectHeader()
	case "s":
		return df.StringHeader()
	}
	return df.Header()
}

// backing reads column c of the data that backs df
func (w *World) backing(df *DF, c string, i int) int {
	in := dataframe.DataFrameInternals{DF: df}
	defer func() { recover() }()
	r := BAD
	func() {
		defer func() { recover() }()
		switch typeOf(df, c) {
		case "f":
			r = w.tk.float(in.FloatData(c)[i])
		case "i":
			r = w.tk.intTok(in.IntData(c)[i])
		case "b":
			r = w.tk.boolTok(in.BoolData(c)[i])
		default:
			r = w.tk.obj(in.ObjectData(c)[i])
		}
	}()
	return r
}

func (w *World) doData(name string, op Op) bool {
	switch name {
	case "CopyValues":
		vals := w.df(op, "f").CopyValuesToInterfaces(op.s("col"))
		v := make([]int, len(vals))
		for j, x := range vals {
			switch y := x.(type) {
			case float64:
				v[j] = w.tk.float(y)
			case int:
				v[j] = w.tk.intTok(y)
			case bool:
				v[j] = w.tk.boolTok(y)
			default:
				v[j] = w.tk.obj(x)
			}
		}
		op["v"] = v
		for j := range vals { // it is a copy
			vals[j] = -12345
		}
	case "VecDense":
		a := w.df(op, "f").Floats(op.s("col"))
		vec := a.VecDense()
		if op.b("copy") {
			vec = a.VecDenseCopy()
		}
		v := make([]int, vec.Len())
		for j := range v {
			v[j] = w.tk.float(vec.AtVec(j))
		}
		op["v"] = v
		if op.b("copy") {
			for j := range v {
				vec.SetVec(j, -12345)
			}
		}
	case "LabelToInt":
		v, m := w.df(op, "f").LabelToInt(op.s("col"))
		op["v"] = v
		pairs := [][]int{}
		for s, k := range m {
			pairs = append(pairs, []int{w.tk.str(s), k})
		}
		op["map"] = pairs
	case "Dense":
		d := w.df(op, "f")
		cols := op.ss("cols")
		bt := w.bat[op.i("bt")]
		if bt == nil {
			bt = &Bat{b: dataframe.NewDense64Batching(cols), cols: cols, types: typesOf(d, cols)}
			w.bat[op.i("bt")] = bt
		}
		mat := bt.b.DenseMatrix(d)
		r, c := mat.Dims()
		m := make([][]int, c)
		for k := range m {
			m[k] = make([]int, r)
			for j := range m[k] {
				m[k][j] = w.tk.float(mat.At(j, k))
			}
		}
		op["r"], op["c"], op["m"] = r, c, m
	case "Iterate":
		d := w.df(op, "f")
		cols := op.ss("cols")
		it := w.ite[op.i("it")]
		if it == nil {
			it = &Ite{it: dataframe.NewFloat32Iterator(d, cols), cols: cols, types: typesOf(d, cols)}
			w.ite[op.i("it")] = it
		} else {
			it.it.Reset(d, op.b("check"))
		}
		m, back := make([][]int, len(cols)), make([][]int, len(cols))
		for i := range m {
			m[i], back[i] = []int{}, []int{}
		}
		idx := []int{}
		k, end := 0, -1
		for op.b("full") || k < op.i("want") {
			row, v, b := it.it.NextRow()
			if row == nil {
				end = v
				break
			}
			if k > d.NumRows()+10 {
				break
			}
			k++
			idx = append(idx, v)
			for i, c := range cols {
				x := BAD
				if i < len(row) && len(row) == len(cols) {
					x = w.tk.float(float64(row[i]))
				}
				m[i] = append(m[i], x)
				back[i] = append(back[i], w.backing(d, c, b))
			}
			for i := range row { // rows can be changed by the user
				row[i] = -77
			}
		}
		op["k"], op["end"], op["idx"], op["m"], op["back"] = k, end, idx, m, back
		names := it.it.Columns()
		if names == nil {
			names = []string{}
		}
		op["names"] = append([]string{}, names...)
	case "SharedIndex":
		a := w.accessor(w.df(op, "f"), op.s("col"))
		v := make([]int, a.size())
		for j := range v {
			v[j] = a.shared(j)
		}
		op["v"] = v
	case "Headers":
		d := w.df(op, "f")
		out := []Op{}
		for _, o := range op.ops("ops") {
			h := header(d, o.s("x"))
			switch o.s("k") {
			case "and":
				h = h.And(header(d, o.s("y")))
			case "except":
				h = h.Except(o.ss("names")...)
			case "exceptH":
				h = h.ExceptHeader(header(d, o.s("y")))
			case "copy":
				c := h.Copy()
				for _, n := range h.NameList() {
					h = h.Except(n)
				}
				h.And(dataframe.Columns("zzz"))
				h = c
			}
			v := h.NameList()
			if v == nil {
				v = []string{}
			}
			sort.Strings(v)
			if len(h.NameSet()) != len(v) {
				v = append(v, "<NameSet differs>")
			}
			out = append(out, Op{"k": o.s("k"), "x": o.s("x"), "y": o.s("y"), "names": o.ss("names"),
				"v": v, "num": h.Num()})
			for _, n := range v { // altering a header alters nothing else
				h = h.Except(n)
			}
		}
		op["ops"] = out
	case "SafeMasking":
		w.df(op, "f").ThreadSafeMasking(op.b("on"))
		w.fr[op.i("f")].ts = op.b("on")
	case "Mask":
		var m []bool
		if op.b("zero") {
			m = w.df(op, "f").ZeroMask()
		} else {
			m = w.df(op, "f").EmptyMask()
		}
		op["v"] = append([]bool{}, m...)
		w.msk[op.i("m")] = &Msk{m, w.fr[op.i("f")].ts}
	case "MaskSet": // of a mask that no other call may touch
		copy(w.msk[op.i("m")].m, op.bs("v"))
	case "MaskCheck":
		out := []Op{}
		for _, o := range op.ops("ms") {
			out = append(out, Op{"m": o.i("m"), "v": append([]bool{}, w.msk[o.i("m")].m...)})
		}
		op["ms"] = out
	case "MaskRace":
		w.maskRace(op)
	case "Encode":
		f := w.fr[op.i("f")]
		if f == nil {
			panic(skip("no such frame"))
		}
		to := op.s("enc")
		if to != f.enc {
			if w.encs[f.enc] == nil {
				w.encs[f.enc] = map[string]map[int]int{}
			}
			if w.encs[f.enc][to] == nil {
				w.encs[f.enc][to] = map[int]int{}
			}
			tab := w.encs[f.enc][to]
			for c := range f.df.StringHeader().NameSet() {
				a := f.df.Objects(c)
				for j := 0; j < a.Size(); j++ {
					if s, ok := a.Get(j).(string); ok {
						if t, ok := convert(s, f.enc, to); ok {
							tab[w.tk.str(s)] = w.tk.str(t)
						} else {
							tab[w.tk.str(s)] = NIL
						}
					}
				}
			}
		}
		err := f.df.Encode(encodings[to])
		op["err"] = err != nil
		if err == nil {
			f.enc = to
		}
	case "HashStringsView":
		src := op.i("src")
		d := w.df(op, "src")
		cols := op.ss("cols")
		res := d.HashStringsView(cols...)
		op["hm"] = w.hashPairs(d, res, cols)
		w.addView(op.i("f"), src, res)
	case "HashBig": // many different strings, some of them twice
		n := op.i("n")
		vals := make([]string, n+n/8)
		for j := range vals {
			vals[j] = fmt.Sprintf("%x-%d", op.i("from"), j%n)
		}
		res := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddStrings("a", vals...).ToDataFrame().HashStringsView("a").Ints("a")
		seen := map[int]bool{}
		neg, unstable := 0, 0
		for j := 0; j < res.Size(); j++ {
			h := res.Get(j)
			seen[h] = true
			if h < 0 {
				neg++
			}
			if j >= n && h != res.Get(j-n) {
				unstable++
			}
		}
		op["size"], op["distinct"], op["neg"], op["unstable"] = res.Size()-n/8, len(seen), neg, unstable
	case "HashTable":
		op["hm"] = w.hashElsewhere(op.is("strs"))
	default:
		return false
	}
	return true
}

// hashPairs is what can be learned about the hash function from a result
func (w *World) hashPairs(src, res *DF, cols []string) [][]int {
	seen := map[[2]int]bool{}
	pairs := [][]int{}
	for _, c := range cols {
		if !res.IntHeader().NameSet()[c] || !src.StringHeader().NameSet()[c] {
			continue
		}
		a, b := src.Objects(c), res.Ints(c)
		for j := 0; j < a.Size() && j < b.Size(); j++ {
			v := a.Get(j)
			if v == nil {
				continue
			}
			p := [2]int{w.tk.obj(v), w.tk.intTok(b.Get(j))}
			if !seen[p] {
				seen[p] = true
				pairs = append(pairs, []int{p[0], p[1]})
			}
		}
	}
	return pairs
}

// hashElsewhere hashes strings in another process
func (w *World) hashElsewhere(toks []int) [][]int {
	args := []string{"hash"}
	for _, t := range toks {
		args = append(args, fmt.Sprintf("%x", w.tk.toStr(t)))
	}
	out, err := exec.Command(os.Args[0], args...).Output()
	if err != nil {
		panic(err)
	}
	pairs := [][]int{}
	for k, line := range strings.Fields(string(out)) {
		h, err := strconv.Atoi(line)
		if err != nil {
			panic(err)
		}
		pairs = append(pairs, []int{toks[k], w.tk.intTok(h)})
	}
	return pairs
}

func hashMain(args []string) {
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	for _, a := range args {
		var s string
		fmt.Sscanf(a, "%x", &s)
		b = b.AddStrings("a", s)
	}
	r := b.ToDataFrame().HashStringsView("a").Ints("a")
	for j := 0; j < r.Size(); j++ {
		fmt.Println(r.Get(j))
	}
}

var _ = math.NaN
