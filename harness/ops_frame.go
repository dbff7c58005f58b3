package main

import (
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/unicode"
)

var encodings = map[string]encoding.Encoding{
	"utf8":    nil,
	"latin1":  charmap.ISO8859_1,
	"win1252": charmap.Windows1252,
	"sjis":    japanese.ShiftJIS,
	"jis":     japanese.ISO2022JP,
	"utf16":   unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM),
}

type Acc struct {
	t   string
	str bool
	f   dataframe.FloatAccess
	i   dataframe.IntAccess
	b   dataframe.BoolAccess
	o   dataframe.ObjectAccess
	s   dataframe.StringAccess
	raw *Acc2 // not an accessor but a slice of the caller
}

// Acc2 is a slice that the caller gave to a DataBuilder
type Acc2 struct {
	f []float64
	i []int
	b []bool
	o []interface{}
}

func (a *Acc2) size() int { return len(a.f) + len(a.i) + len(a.b) + len(a.o) }
func (a *Acc2) get(w *World, t string, j int) int {
	switch t {
	case "f":
		return w.tk.float(a.f[j])
	case "i":
		return w.tk.intTok(a.i[j])
	case "b":
		return w.tk.boolTok(a.b[j])
	}
	return w.tk.obj(a.o[j])
}
func (a *Acc2) set(w *World, t string, j, tok int) {
	switch t {
	case "f":
		a.f[j] = w.tk.toFloat(tok)
	case "i":
		a.i[j] = w.tk.toInt(tok)
	case "b":
		a.b[j] = tok != 0
	default:
		a.o[j] = w.tk.toObj(tok)
	}
}

func (w *World) accessor(df *DF, col string) *Acc {
	switch typeOf(df, col) {
	case "f":
		return &Acc{t: "f", f: df.Floats(col)}
	case "i":
		return &Acc{t: "i", i: df.Ints(col)}
	case "b":
		return &Acc{t: "b", b: df.Bools(col)}
	}
	a := &Acc{t: "o", o: df.Objects(col)}
	if df.StringHeader().NameSet()[col] {
		a.str = true
		a.s = df.Strings(col)
	}
	return a
}

func typeOf(df *DF, col string) string {
	switch {
	case df.FloatHeader().NameSet()[col]:
		return "f"
	case df.IntHeader().NameSet()[col]:
		return "i"
	case df.BoolHeader().NameSet()[col]:
		return "b"
	case df.ObjectHeader().NameSet()[col]:
		return "o"
	}
	panic("no column " + col)
}

func (a *Acc) size() int {
	if a.raw != nil {
		return a.raw.size()
	}
	switch a.t {
	case "f":
		return a.f.Size()
	case "i":
		return a.i.Size()
	case "b":
		return a.b.Size()
	}
	return a.o.Size()
}
func (a *Acc) get(w *World, j int) int {
	if a.raw != nil {
		return a.raw.get(w, a.t, j)
	}
	switch a.t {
	case "f":
		return w.tk.float(a.f.Get(j))
	case "i":
		return w.tk.intTok(a.i.Get(j))
	case "b":
		return w.tk.boolTok(a.b.Get(j))
	}
	v := a.o.Get(j)
	if a.str && v != nil {
		if s, ok := v.(string); !ok || a.s.Get(j) != s {
			return BAD
		}
	}
	return w.tk.obj(v)
}
func (a *Acc) set(w *World, j, tok int) {
	if a.raw != nil {
		a.raw.set(w, a.t, j, tok)
		return
	}
	switch a.t {
	case "f":
		a.f.Set(j, w.tk.toFloat(tok))
	case "i":
		a.i.Set(j, w.tk.toInt(tok))
	case "b":
		a.b.Set(j, tok != 0)
	default:
		if a.str && tok != NIL && j%2 == 0 {
			a.s.Set(j, w.tk.toStr(tok))
		} else {
			a.o.Set(j, w.tk.toObj(tok))
		}
	}
}
func (a *Acc) shared(j int) int {
	switch a.t {
	case "f":
		return a.f.SharedIndex(j)
	case "i":
		return a.i.SharedIndex(j)
	case "b":
		return a.b.SharedIndex(j)
	}
	return a.o.SharedIndex(j)
}

func (w *World) floats(v []int) []float64 {
	r := make([]float64, len(v))
	for j, x := range v {
		r[j] = w.tk.toFloat(x)
	}
	return r
}
func (w *World) ints(v []int) []int {
	r := make([]int, len(v))
	for j, x := range v {
		r[j] = w.tk.toInt(x)
	}
	return r
}
func bools(v []int) []bool {
	r := make([]bool, len(v))
	for j, x := range v {
		r[j] = x != 0
	}
	return r
}
func (w *World) objects(v []int) []interface{} {
	r := make([]interface{}, len(v))
	for j, x := range v {
		r[j] = w.tk.toObj(x)
	}
	return r
}

// create builds a frame in one of the documented ways. Slices given to Set*
// functions are shared, and listed in accs; those given to Add* are not.
func (w *World) create(op Op) *DF {
	n := op.i("n")
	cols := op.ops("cols")
	via := op.s("via")
	if via == "empty" || len(cols) == 0 {
		df := dataframe.EmptyDataFrame(n, op.i("cpu"))
		for _, c := range cols {
			w.overwrite(df, c.s("t"), c.b("s"), c.s("n"), c.is("v"), "")
		}
		return df
	}
	accs := map[string]int{}
	for _, a := range op.ops("accs") {
		accs[a.s("col")] = a.i("a")
	}
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	for _, c := range cols {
		name, v := c.s("n"), c.is("v")
		// added in two parts, and altered afterwards
		add := via == "add" && n > 0
		cut := n * (len(name) + len(cols)) % (n + 1)
		raw := &Acc2{}
		switch c.s("t") {
		case "f":
			raw.f = w.floats(v)
			if add {
				b = b.AddFloats(name, raw.f[:cut]...)
				b = b.AddFloats(name, raw.f[cut:]...)
				for j := range raw.f {
					raw.f[j] = 123456
				}
			} else {
				b = b.SetFloats(name, raw.f)
			}
		case "i":
			raw.i = w.ints(v)
			if add {
				b = b.AddInts(name, raw.i[:cut]...)
				b = b.AddInts(name, raw.i[cut:]...)
				for j := range raw.i {
					raw.i[j] = 123456
				}
			} else {
				b = b.SetInts(name, raw.i)
			}
		case "b":
			raw.b = bools(v)
			if add {
				b = b.AddBools(name, raw.b[:cut]...)
				b = b.AddBools(name, raw.b[cut:]...)
				for j := range raw.b {
					raw.b[j] = !raw.b[j]
				}
			} else {
				b = b.SetBools(name, raw.b)
			}
		default:
			allStr := c.b("s")
			for _, x := range v {
				allStr = allStr && x != NIL
			}
			if add && allStr {
				ss := make([]string, n)
				for j, x := range v {
					ss[j] = w.tk.toStr(x)
				}
				b = b.AddStrings(name, ss[:cut]...)
				b = b.AddStrings(name, ss[cut:]...)
				for j := range ss {
					ss[j] = "altered"
				}
				break
			}
			raw.o = w.objects(v)
			if add {
				b = b.AddObjects(name, raw.o[:cut]...)
				b = b.AddObjects(name, raw.o[cut:]...)
				for j := range raw.o {
					raw.o[j] = "altered"
				}
			} else {
				b = b.SetObjects(name, raw.o)
			}
			if c.b("s") {
				b = b.MarkAsString(name)
			}
		}
		if a, ok := accs[name]; ok {
			w.acc[a] = &Acc{t: c.s("t"), str: c.b("s"), raw: raw}
		}
	}
	if e := op.s("enc"); e != "utf8" && e != "" {
		b = b.TextEncoding(encodings[e])
	}
	b.RawData.SetMaxCPU(op.i("cpu"))
	return b.ToDataFrame()
}

// overwrite gives the code slices that the caller alters afterwards
func (w *World) overwrite(df *DF, t string, s bool, col string, v []int, api string) {
	switch t {
	case "f":
		if api == "32" {
			f := make([]float32, len(v))
			for j, x := range v {
				f[j] = float32(w.tk.toFloat(x))
			}
			df.OverwriteFloats32(col, f)
			for j := range f {
				f[j] = 123456
			}
		} else {
			f := w.floats(v)
			df.OverwriteFloats64(col, f)
			for j := range f {
				f[j] = 123456
			}
		}
	case "i":
		x := w.ints(v)
		df.OverwriteInts(col, x)
		for j := range x {
			x[j] = 123456
		}
	case "b":
		x := bools(v)
		df.OverwriteBools(col, x)
		for j := range x {
			x[j] = !x[j]
		}
	default:
		if api == "strings" {
			ss := make([]string, len(v))
			for j, x := range v {
				ss[j] = w.tk.toStr(x)
			}
			df.OverwriteStrings(col, ss)
			for j := range ss {
				ss[j] = "altered"
			}
			return
		}
		x, k := w.objects(v), dataframe.AnyObject
		if s {
			k = dataframe.StringObject
		}
		df.OverwriteObjects(col, x, k)
		for j := range x {
			x[j] = "altered"
		}
	}
}

// perm finds which row of src (numbered from 1) each row of res is, by writing
// distinct values through src, looking at res and restoring everything.
func (w *World) perm(src, res *DF, except ...string) []int {
	if w.forked {
		return w.permShared(src, res, except...)
	}
	n, m := src.NumRows(), res.NumRows()
	cols := append(append(append(src.IntHeader().NameList(), src.FloatHeader().NameList()...),
		src.ObjectHeader().NameList()...), src.BoolHeader().NameList()...)
	col := ""
	found := false
	there := res.Header().NameSet()
	for _, t := range []string{"i", "f", "o", "b"} {
		sort.Strings(cols)
		for _, c := range cols {
			if !found && there[c] && (len(except) == 0 || c != except[0]) && typeOf(src, c) == t && typeOf(res, c) == t {
				col, found = c, true
			}
		}
	}
	r := []int{}
	if !found {
		if len(cols) > len(except) {
			return r
		}
		for j := 0; j < m; j++ {
			r = append(r, j+1)
		}
		return r
	}
	a, b := w.accessor(src, col), w.accessor(res, col)
	if a.size() != n || b.size() != m {
		return r
	}
	old := make([]int, n)
	for j := range old {
		old[j] = a.get(w, j)
	}
	bits := 1
	if a.t == "b" {
		for 1<<uint(bits) <= n {
			bits++
		}
	}
	srcTag, resTag := make([]int, n), make([]int, m)
	for k := 0; k < bits; k++ {
		for j := 0; j < n; j++ {
			switch a.t {
			case "b":
				a.b.Set(j, ((j+1)>>uint(k))&1 == 1)
			case "i":
				a.i.Set(j, j+1)
			case "f":
				a.f.Set(j, float64(j+1))
			default:
				a.o.Set(j, tag(j+1))
			}
		}
		read := func(x *Acc, tags []int) {
			for j := range tags {
				switch x.t {
				case "b":
					if x.b.Get(j) {
						tags[j] |= 1 << uint(k)
					}
				case "i":
					tags[j] = x.i.Get(j)
				case "f":
					tags[j] = int(x.f.Get(j))
				default:
					t, _ := x.o.Get(j).(tag)
					tags[j] = int(t)
				}
			}
		}
		read(a, srcTag)
		read(b, resTag)
	}
	for j := range old {
		if a.t == "o" {
			a.o.Set(j, w.tk.toObj(old[j]))
		} else {
			a.set(w, j, old[j])
		}
	}
	classes := map[int][]int{}
	for j, t := range srcTag {
		classes[t] = append(classes[t], j+1)
	}
	for _, t := range resTag {
		c := classes[t]
		if len(c) == 0 {
			return []int{} // not a row of src, or too often
		}
		r = append(r, c[0])
		classes[t] = c[1:]
	}
	return r
}

type tag int

// shared lists the columns of d (among cols, or all of them) whose values can
// be seen through another live frame or an accessor: it writes other values
// through d, looks, and restores everything.
func (w *World) shared(d *DF, self int, cols []string) []string {
	if len(cols) == 0 {
		cols = d.Header().NameList()
	}
	cols = strs(cols)
	look := func() string {
		s := ""
		for _, g := range w.frames() {
			if g != self {
				s += string(mustJSON(w.observe(g, w.fr[g].df)))
			}
		}
		ids := []int{}
		for a := range w.acc {
			ids = append(ids, a)
		}
		sort.Ints(ids)
		for _, a := range ids {
			for j := 0; j < w.acc[a].size(); j++ {
				s += strconv.Itoa(w.acc[a].get(w, j)) + " "
			}
		}
		return s
	}
	before := look()
	r := []string{}
	there := d.Header().NameSet()
	for _, c := range cols {
		if !there[c] {
			continue
		}
		a := w.accessor(d, c)
		old := make([]int, a.size())
		for j := range old {
			old[j] = a.get(w, j)
		}
		for j := range old {
			switch a.t {
			case "b":
				a.b.Set(j, old[j] == 0)
			case "i":
				a.i.Set(j, 77777)
			case "f":
				a.f.Set(j, 77777.5)
			default:
				a.o.Set(j, tag(7))
			}
		}
		if look() != before {
			r = append(r, c)
		}
		for j := range old {
			if a.t == "o" {
				a.o.Set(j, w.tk.toObj(old[j]))
			} else {
				a.set(w, j, old[j])
			}
		}
	}
	return r
}

func zeroBased(idx []int) []int {
	r := make([]int, len(idx))
	for j, x := range idx {
		r[j] = x - 1
	}
	return r
}

func (w *World) do(op Op) {
	name := op.s("op")
	if strings.HasPrefix(name, "Csv") {
		w.doCsv(name, op)
		return
	}
	if w.doFrame(name, op) || w.doData(name, op) || w.doComp(name, op) || w.doPrint(name, op) || w.doMisuse(name, op) {
		return
	}
	panic("unknown operation " + name)
}

func (w *World) df(op Op, k string) *DF {
	fr, ok := w.fr[op.i(k)]
	if !ok {
		panic(skip("no such frame"))
	}
	return fr.df
}

type skip string

// views adds the pieces of a split
func (w *World) pieces(op Op, dfs []*DF) {
	src := op.i("src")
	ids := op.is("fs")
	for len(ids) < len(dfs) {
		ids = append(ids, w.fresh())
	}
	ids = ids[:len(dfs)]
	for k, d := range dfs {
		w.addView(ids[k], src, d)
	}
	op["fs"] = ids
}

func (w *World) doFrame(name string, op Op) bool {
	id, src := op.i("f"), op.i("src")
	switch name {
	case "New":
		op["ncpu"] = runtime.NumCPU()
		enc := op.s("enc")
		if enc == "" {
			enc = "utf8"
			op["enc"] = enc
		}
		w.add(id, w.create(op), map[int]bool{}, enc)
	case "Join": // all frames are looked at
	case "Forget":
		for _, f := range op.is("fs") {
			delete(w.fr, f)
		}
	case "View":
		w.addView(id, src, w.df(op, "src").View())
	case "ShallowCopy":
		w.add(id, w.df(op, "src").ShallowCopy(), map[int]bool{}, w.fr[src].enc)
		w.fr[id].ts = w.fr[src].ts
	case "Copy":
		w.add(id, w.df(op, "src").Copy(), map[int]bool{}, w.fr[src].enc)
		w.fr[id].ts = w.fr[src].ts
	case "IndexView":
		idx := zeroBased(op.is("idx"))
		d := w.df(op, "src").IndexView(idx)
		for j := range idx { // the caller's slice is the caller's
			idx[j] = 0
		}
		w.addView(id, src, d)
	case "SliceView":
		w.addView(id, src, w.df(op, "src").SliceView(op.i("from"), op.i("to")))
	case "MaskView":
		d := w.df(op, "src")
		mask := op.bs("mask")
		var res *DF
		switch op.s("via") {
		case "zero":
			m := d.ZeroMask()
			for j, b := range mask {
				if b {
					m[j] = true
				}
			}
			res = d.MaskView(m)
		case "empty":
			m := d.EmptyMask()
			for j, b := range mask {
				m[j] = b
			}
			res = d.MaskView(m)
		default:
			res = d.MaskView(mask)
		}
		w.addView(id, src, res)
	case "ReverseView":
		w.addView(id, src, w.df(op, "src").ReverseView())
	case "ColumnView":
		w.addView(id, src, w.df(op, "src").ColumnView(op.ss("cols")...))
	case "ShuffleView", "ResetIndexView", "SampleView", "SortedView", "TopView":
		d := w.df(op, "src")
		var res *DF
		switch name {
		case "ShuffleView":
			res = d.ShuffleView()
		case "ResetIndexView":
			res = d.ResetIndexView()
		case "SampleView":
			res = d.SampleView(op.i("k"), false)
		case "SortedView":
			res = d.SortedView(op.s("col"))
		default:
			res = d.TopView(op.s("col"), op.i("k"), op.b("asc"), op.b("sorted"))
		}
		op["perm"] = w.perm(d, res)
		w.addView(id, src, res)
	case "SplitView":
		w.pieces(op, w.df(op, "src").SplitView(op.i("b")))
	case "SplitNView":
		w.pieces(op, w.df(op, "src").SplitNView(op.i("b")))
	case "SplitTrainTest":
		train, test := w.df(op, "src").SplitTrainTestViews(float64(op.i("num")) / float64(op.i("den")))
		w.pieces(op, []*DF{train, test})
	case "DetachedView":
		w.addView(id, src, w.df(op, "src").DetachedView(op.ss("cols")...))
	case "Unshare":
		w.restruct(op, id)
		d := w.df(op, "f")
		d.Unshare(op.ss("cols")...)
		op["kept"] = w.shared(d, id, op.ss("cols"))
	case "SetMany":
		a := w.accessor(w.df(op, "f"), op.s("col"))
		vals := op.is("vals")
		for k, j := range op.is("rows") {
			a.set(w, j-1, vals[k])
		}
	case "GetAcc":
		w.acc[op.i("a")] = w.accessor(w.df(op, "f"), op.s("col"))
	case "AccSet":
		a := w.acc[op.i("a")]
		vals := op.is("vals")
		for k, j := range op.is("rows") {
			a.set(w, j-1, vals[k])
		}
	case "AccGet":
		a := w.acc[op.i("a")]
		v := make([]int, a.size())
		for j := range v {
			v[j] = a.get(w, j)
		}
		op["v"] = v
	case "Overwrite":
		d := w.df(op, "f")
		col, t := op.s("col"), op.s("t")
		if !d.Header().NameSet()[col] || typeOf(d, col) != t {
			w.restruct(op, id)
		}
		w.overwrite(d, t, op.b("s"), col, op.is("vals"), op.s("api"))
	case "Alloc":
		w.restruct(op, id)
		d := w.df(op, "f")
		cols := op.ss("cols")
		switch op.s("t") {
		case "f":
			d.AllocFloats(cols...)
		case "i":
			d.AllocInts(cols...)
		case "b":
			d.AllocBools(cols...)
		default:
			if op.b("s") {
				d.AllocStrings(cols...)
			} else {
				d.AllocObjects(cols...)
			}
		}
	case "Drop":
		cols := op.ss("cols")
		if len(cols) > 0 {
			w.restruct(op, id)
		}
		w.df(op, "f").Drop(cols...)
	case "Rename":
		w.restruct(op, id)
		w.df(op, "f").Rename(op.s("a"), op.s("b"))
	case "Convert":
		w.restruct(op, id)
		if op.s("t") == "i" {
			w.df(op, "f").IntToFloats(op.ss("cols")...)
		} else {
			w.df(op, "f").BoolToFloats(op.ss("cols")...)
		}
	case "SetMaxCPU":
		op["ncpu"] = runtime.NumCPU()
		w.df(op, "f").SetMaxCPU(op.i("cpu"))
	case "ColumnConcatView", "ColumnCopyConcat", "ColumnSmartConcat", "RowConcat":
		dfs := []*DF{}
		for _, f := range op.is("fs") {
			if w.fr[f] == nil {
				panic(skip("no such frame"))
			}
			dfs = append(dfs, w.fr[f].df)
		}
		some := name == "RowConcat"
		for _, d := range dfs {
			some = some || d.NumColumns() > 0
		}
		if !some { // rows that cannot be told apart
			panic(skip("no column"))
		}
		var res *DF
		var err error
		switch name {
		case "ColumnConcatView":
			res, err = dataframe.ColumnConcatView(dfs...)
		case "ColumnCopyConcat":
			res, err = dataframe.ColumnCopyConcat(dfs...)
		case "ColumnSmartConcat":
			res, err = dataframe.ColumnSmartConcat(dfs...)
		default:
			res, err = dataframe.RowConcat(dfs...)
		}
		op["err"] = err != nil
		op["shared"] = err == nil && name == "ColumnSmartConcat" && len(w.shared(res, 0, nil)) > 0
		if err == nil {
			w.add(id, res, map[int]bool{}, w.fr[op.is("fs")[0]].enc)
			w.fr[id].ts = name == "ColumnConcatView" && w.fr[op.is("fs")[0]].ts
		}
	case "MergeRows", "MergeColumns":
		raws := []*dataframe.RawData{}
		fs := op.is("fs")
		for _, f := range fs {
			if w.fr[f] == nil {
				panic(skip("no such frame"))
			}
			raws = append(raws, &w.fr[f].df.RawData)
		}
		if name == "MergeRows" {
			w.add(id, dataframe.MergeRawDataRows(raws).ToDataFrame(), map[int]bool{}, w.fr[fs[0]].enc)
		} else {
			w.add(id, dataframe.MergeRawDataColumns(raws).ToDataFrame(), map[int]bool{}, w.fr[fs[len(fs)-1]].enc)
		}
	case "TransferInto":
		w.restruct(op, id)
		if w.fr[op.i("g")] == nil { // it was a view of f
			panic(skip("no such frame"))
		}
		w.df(op, "f").TransferRawDataFrom(&w.fr[op.i("g")].df.RawData)
	default:
		return false
	}
	return true
}

// convert is the text conversion expected from Encode, one string at a time
func convert(s, from, to string) (string, bool) {
	if e := encodings[from]; e != nil {
		r, err := e.NewDecoder().String(s)
		if err != nil {
			return "", false
		}
		s = r
	}
	if e := encodings[to]; e != nil {
		r, err := e.NewEncoder().String(s)
		if err != nil {
			return "", false
		}
		s = r
	}
	return s, true
}

type Msk struct {
	m  []bool
	ts bool
}

func (w *World) maskRace(op Op) {
	// all calls at once, then all fill, then all look
	type res struct {
		mask  []bool
		clean bool
		kept  bool
	}
	calls := op.ops("calls")
	rs := make([]res, len(calls))
	start := make(chan bool)
	var got, filled, wg sync.WaitGroup
	got.Add(len(calls))
	filled.Add(len(calls))
	wg.Add(len(calls))
	for k := range calls {
		d := w.df(calls[k], "f")
		zero := calls[k].b("zero")
		go func(k int) {
			defer wg.Done()
			<-start
			var m []bool
			ok := false
			func() {
				defer func() { recover() }()
				if zero {
					m = d.ZeroMask()
				} else {
					m = d.EmptyMask()
				}
				ok = true
			}()
			clean := ok
			if zero {
				for _, b := range m {
					clean = clean && !b
				}
			}
			got.Done()
			got.Wait()
			for j := range m {
				m[j] = (k+j)%2 == 0
			}
			filled.Done()
			filled.Wait()
			kept := true
			for j := range m {
				kept = kept && m[j] == ((k+j)%2 == 0)
			}
			rs[k] = res{m, clean, kept}
		}(k)
	}
	close(start)
	wg.Wait()
	out := []Op{}
	for k := range calls {
		out = append(out, Op{"f": calls[k].i("f"), "n": len(rs[k].mask), "clean": rs[k].clean, "kept": rs[k].kept})
	}
	op["rs"] = out
}
