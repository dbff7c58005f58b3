package main

import (
	"bytes"
	"encoding/csv"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unicode/utf8"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

func parseCsv(data []byte, op Op) ([][]string, error) {
	r := csv.NewReader(bytes.NewReader(data))
	if c := op.s("comma"); c != "" {
		r.Comma = []rune(c)[0]
	}
	if c := op.s("comment"); c != "" {
		r.Comment = []rune(c)[0]
	}
	r.LazyQuotes = op.b("lazy")
	r.TrimLeadingSpace = op.b("trim")
	return r.ReadAll()
}

func writeSpec(op Op) dataframe.CSVWritingSpec {
	spec := dataframe.CSVWritingSpec{StringMissingMarker: op.s("markerS"), MaintainOrder: op.b("order"),
		UseCRLF: op.b("crlf"), MinRowsPerFile: op.i("minrows")}
	if c := op.s("comma"); c != "" {
		spec.Comma = []rune(c)[0]
	}
	return spec
}

func readSpec(op Op) dataframe.CSVReadingSpec {
	o := asOp(op["opt"])
	spec := dataframe.CSVReadingSpec{Header: o.ss("header"), Exclude: o.ss("exclude"), MissingValues: op.ss("missingS"),
		MaxCPU: o.i("cpu"), BoolAsFloat: o.b("boolf"), BinaryAsFloat: o.b("binf"), IntAsFloat: o.b("intf"),
		LazyQuotes: op.b("lazy"), TrimLeadingSpace: op.b("trim"), Encoding: encodings[o.s("enc")]}
	if c := op.s("comma"); c != "" {
		spec.Comma = []rune(c)[0]
	}
	if c := op.s("comment"); c != "" {
		spec.Comment = []rune(c)[0]
	}
	return spec
}

var errInjected = errors.New("injected failure")

// a failure can be any error
func failure(k int) error {
	all := []error{errInjected, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, syscall.ENOSPC,
		syscall.EPIPE, csv.ErrFieldCount, &csv.ParseError{StartLine: 1, Line: 1, Column: 1, Err: csv.ErrQuote},
		&os.PathError{Op: "read", Path: "f", Err: syscall.EIO}, fmt.Errorf("wrapped: %w", io.EOF), io.ErrNoProgress, io.EOF}
	return all[k%len(all)]
}

// faultyWriter fails once `limit` bytes were written
type faultyWriter struct {
	buf   bytes.Buffer
	limit int
	short bool
	hit   bool
	err   error
	mu    sync.Mutex
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	gatePoint("write")
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.limit < 0 || f.buf.Len()+len(p) <= f.limit {
		return f.buf.Write(p)
	}
	n := f.limit - f.buf.Len()
	f.buf.Write(p[:n])
	f.hit = true
	if f.short {
		return n, nil
	}
	return n, f.err
}

type faultyReader struct {
	err   error
	data  []byte
	pos   int
	chunk int
	early bool // the error comes with the last bytes
}

func (f *faultyReader) Read(p []byte) (int, error) {
	n := len(p)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	if n > len(f.data)-f.pos {
		n = len(f.data) - f.pos
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if n == 0 || (f.early && f.pos == len(f.data)) {
		return n, f.err
	}
	return n, nil
}

// write writes frame f and returns the outputs
func (w *World) write(op Op, limits map[int]int) (outs [][]byte, err error, hit bool) {
	d := w.df(op, "f")
	spec := writeSpec(op)
	n := op.i("nout")
	switch op.s("api") {
	case "To1CSV":
		n = 1
		fallthrough
	case "ToCSVs":
		ws := make([]io.Writer, n)
		fw := make([]*faultyWriter, n)
		for k := range ws {
			fw[k] = &faultyWriter{limit: -1, err: failure(op.i("error")), short: op.b("short")}
			if l, ok := limits[k]; ok {
				fw[k].limit = l
			}
			ws[k] = fw[k]
		}
		if op.s("api") == "To1CSV" {
			err = d.To1CSV(ws[0], spec)
		} else {
			err = d.ToCSVs(ws, spec)
		}
		for _, f := range fw {
			f.mu.Lock()
			outs = append(outs, append([]byte{}, f.buf.Bytes()...))
			hit = hit || f.hit
			f.mu.Unlock()
		}
		return
	}
	dir, e := ioutil.TempDir(w.dir, "out")
	if e != nil {
		panic(e)
	}
	defer os.RemoveAll(dir)
	var paths []string
	if op.s("api") == "ToCSVFiles" {
		for k := 0; k < n; k++ {
			paths = append(paths, filepath.Join(dir, fmt.Sprintf("o%02d.csv", k)))
		}
		if which := op.i("which"); op.s("kind") != "" {
			hit = true
			switch op.s("kind") {
			case "full":
				paths[which] = "/dev/full"
			case "missing":
				paths[which] = filepath.Join(dir, "nodir", "x.csv")
			case "isdir":
				paths[which] = dir
			}
		}
		err = d.ToCSVFiles(spec, paths...)
	} else {
		prefix := filepath.Join(dir, "p")
		switch op.s("kind") {
		case "missing":
			prefix, hit = filepath.Join(dir, "nodir", "p"), true
		case "isdir":
			// whatever the numbering, the first file is number 0
			for _, s := range []string{"p0.csv", "p00.csv", "p000.csv"} {
				os.Mkdir(filepath.Join(dir, s), 0755)
			}
			hit = true
		}
		paths, err = d.ToCSVDir(spec, prefix)
		if !hit {
			there, _ := filepath.Glob(filepath.Join(dir, "*"))
			sort.Strings(there)
			got := append([]string{}, paths...)
			sort.Strings(got)
			if strings.Join(there, "|") != strings.Join(got, "|") {
				return [][]byte{[]byte("files differ\n")}, err, hit
			}
		}
	}
	if hit {
		return
	}
	for _, p := range paths {
		b, e := ioutil.ReadFile(p)
		if e != nil {
			b = []byte("cannot read the output\n")
		}
		outs = append(outs, b)
	}
	return
}

// records of the outputs as tokens, and which row each record is
func (w *World) parseOutputs(op Op, outs [][]byte) {
	o := w.fr[op.i("f")].obs
	res := []Op{}
	keys := []string{} // canonical form of every record
	for _, b := range outs {
		rs, err := parseCsv(b, op)
		if err != nil || len(rs) == 0 {
			res = append(res, Op{"hdr": []string{}, "recs": [][]int{{BAD}}, "ends": []string{}})
			keys = append(keys, "?")
			continue
		}
		recs := [][]int{}
		for _, r := range rs[1:] {
			rec := make([]int, len(r))
			byName := map[string]int{}
			for p, x := range r {
				rec[p] = BAD
				if p >= len(rs[0]) {
					continue
				}
				c := o.col(rs[0][p])
				if c == nil {
					continue
				}
				switch c.T {
				case "b":
					if v, err := strconv.ParseBool(x); err == nil {
						rec[p] = w.tk.boolTok(v)
					}
				case "i":
					if v, err := strconv.Atoi(x); err == nil {
						rec[p] = w.tk.intTok(v)
					}
				case "f":
					if v, err := strconv.ParseFloat(x, 64); err == nil {
						rec[p] = w.tk.float(v)
					}
				default:
					rec[p] = w.tk.str(x)
				}
				byName[c.N] = rec[p]
			}
			recs = append(recs, rec)
			keys = append(keys, fmt.Sprint(byName)) // maps print in key order
		}
		res = append(res, Op{"hdr": rs[0], "recs": recs, "ends": lineEnds(b)})
	}
	op["outs"] = res
	marker := w.tk.str(op.s("markerS"))
	op["marker"] = marker
	// rows
	rows := map[string][]int{}
	order := []string{}
	for j := 0; j < o.N; j++ {
		byName := map[string]int{}
		for _, c := range o.Cols {
			if c.T == "o" && !c.S {
				continue
			}
			v := c.V[j]
			if v == NIL {
				v = marker
			}
			byName[c.N] = v
		}
		k := fmt.Sprint(byName)
		rows[k] = append(rows[k], j+1)
		order = append(order, k)
	}
	perm := []int{}
	if op.b("order") {
		for j := range keys {
			perm = append(perm, j+1)
		}
	} else {
		for _, k := range keys {
			if len(rows[k]) == 0 {
				perm = []int{}
				break
			}
			perm = append(perm, rows[k][0])
			rows[k] = rows[k][1:]
		}
	}
	op["perm"] = perm
}

// lineEnds is the set of line ends found outside of quotes
func lineEnds(b []byte) []string {
	found := map[string]bool{}
	quoted := false
	for i, c := range b {
		if c == '"' {
			quoted = !quoted
		} else if c == '\n' && !quoted {
			if i > 0 && b[i-1] == '\r' {
				found["crlf"] = true
			} else {
				found["lf"] = true
			}
		}
	}
	if n := len(b); n > 0 && b[n-1] != '\n' {
		found["none"] = true
	}
	r := []string{}
	for e := range found {
		r = append(r, e)
	}
	sort.Strings(r)
	return r
}

// texts numbers the texts of parsed files
type texts struct {
	w  *World
	ix map[string]int
	r  []Op
}

func (t *texts) of(s string) int {
	k, ok := t.ix[s]
	if ok {
		return k
	}
	o := Op{"s": t.w.tk.str(s), "b": NOVAL, "i": NOVAL, "f": NOVAL, "n": s}
	if !utf8.ValidString(s) {
		o["n"] = "?" + hex.EncodeToString([]byte(s))
	}
	if v, err := strconv.ParseBool(s); err == nil {
		o["b"] = t.w.tk.boolTok(v)
	}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		o["i"] = t.w.tk.intTok(int(v))
	}
	if v, err := strconv.ParseFloat(s, 64); err == nil {
		o["f"] = t.w.tk.float(v)
	}
	t.r = append(t.r, o)
	t.ix[s] = len(t.r)
	return len(t.r)
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func (w *World) readRaws(op Op, raws [][]byte, faulty bool) (*dataframe.RawData, error) {
	spec := readSpec(op)
	switch op.s("api") {
	case "reader":
		var r io.Reader = bytes.NewReader(raws[0])
		if faulty {
			r = &faultyReader{data: raws[0], chunk: op.i("chunk"), early: op.b("early"), err: failure(op.i("error") % 12)}
		} else if c := op.i("chunk"); c > 0 {
			r = &chunkReader{r, c}
		}
		return dataframe.FromCSV(r, spec)
	}
	dir, err := ioutil.TempDir(w.dir, "in")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for k, b := range raws {
		if err := ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("f%02d.csv", k)), b, 0644); err != nil {
			panic(err)
		}
	}
	switch op.s("kind") {
	case "missing":
		if op.s("api") == "file" {
			return dataframe.FromCSVFile(filepath.Join(dir, "none.csv"), spec)
		}
		os.Symlink(filepath.Join(dir, "none"), filepath.Join(dir, "f99.csv"))
	case "badglob":
		return dataframe.FromCSVFilePattern(filepath.Join(dir, "[f"), spec)
	case "isdir":
		return dataframe.FromCSVFile(dir, spec)
	case "nomatch":
		return dataframe.FromCSVFilePattern(filepath.Join(dir, "z*.csv"), spec)
	}
	if op.b("extradir") { // not a regular file: ignored
		os.Mkdir(filepath.Join(dir, "f00dir.csv"), 0755)
	}
	if op.s("api") == "file" {
		return dataframe.FromCSVFile(filepath.Join(dir, "f00.csv"), spec)
	}
	return dataframe.FromCSVFilePattern(filepath.Join(dir, "f*.csv"), spec)
}

type chunkReader struct {
	r io.Reader
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

// readBack turns an operation into one that reads what was written last; false
// if the files cannot be read together (carriage returns are not kept)
func (w *World) readBack(op Op) bool {
	sch := ""
	for k, s := range w.lastRaws {
		x := csvHeader(unhex(s), op)
		if x == "" || (k > 0 && x != sch) {
			return false
		}
		sch = x
	}
	if len(w.lastRaws) == 0 {
		return false
	}
	op["raws"] = w.lastRaws
	op["op"], op["api"] = "CsvRead", "reader"
	if len(w.lastRaws) > 1 {
		op["op"], op["api"] = "CsvReadMany", "pattern"
	}
	return true
}

func (w *World) doCsv(name string, op Op) {
	switch name {
	case "CsvWrite":
		outs, err, _ := w.write(op, nil)
		op["err"] = err != nil
		w.parseOutputs(op, outs)
		raws := []string{}
		for _, b := range outs {
			raws = append(raws, hex.EncodeToString(b))
		}
		op["raws"] = raws
		w.lastRaws = raws
	case "CsvRead", "CsvReadMany":
		op["ncpu"] = runtime.NumCPU()
		raws := [][]byte{}
		for _, s := range op.ss("raws") {
			raws = append(raws, unhex(s))
		}
		tx := &texts{w: w, ix: map[string]int{}}
		files := [][][]int{}
		parsed := [][][]string{}
		for _, b := range raws {
			rs, err := parseCsv(b, op)
			if err != nil {
				panic(err)
			}
			parsed = append(parsed, rs)
			recs := [][]int{}
			for _, r := range rs {
				rec := []int{}
				for _, x := range r {
					rec = append(rec, tx.of(x))
				}
				recs = append(recs, rec)
			}
			files = append(files, recs)
		}
		opt := asOp(op["opt"])
		miss := []int{}
		for _, s := range op.ss("missingS") {
			miss = append(miss, w.tk.str(s))
		}
		opt["missing"] = miss
		op["opt"] = opt
		op["txt"] = tx.r
		if tx.r == nil {
			op["txt"] = []int{}
		}
		if name == "CsvRead" {
			op["recs"] = files[0]
		} else {
			op["files"] = files
		}
		raw, err := w.readRaws(op, raws, false)
		op["err"] = err != nil
		op["perm"] = []int{}
		if err != nil {
			return
		}
		if raw == nil {
			panic("nothing was read")
		}
		d := raw.ToDataFrame()
		w.add(op.i("f"), d, map[int]bool{}, opt.s("enc"))
		if name == "CsvReadMany" {
			op["perm"] = w.matchRows(d, parsed, opt.ss("header"), tx, miss)
		}
	case "CsvFault":
		if strings.HasPrefix(op.s("api"), "To") {
			limits := map[int]int{}
			if op.has("limit") {
				limits[op.i("which")] = op.i("limit")
			}
			_, err, hit := w.write(op, limits)
			op["err"], op["injected"] = err != nil, hit
			return
		}
		raws := [][]byte{}
		bad := false
		opt := asOp(op["opt"])
		for _, s := range op.ss("raws") {
			b := unhex(s)
			raws = append(raws, b)
			rs, err := parseCsv(b, op)
			bad = bad || err != nil
			nh := len(opt.ss("header"))
			if nh == 0 && len(rs) == 0 {
				bad = true
			}
			if nh > 0 && len(rs) > 0 && len(rs[0]) < nh {
				bad = true
			}
		}
		switch op.s("kind") {
		case "missing", "badglob", "isdir", "reader":
			bad = true
		case "nomatch":
			bad = false
		}
		_, err := w.readRaws(op, raws, op.s("kind") == "reader")
		op["err"], op["injected"] = err != nil, bad
	default:
		panic("unknown operation " + name)
	}
}

// matchRows finds which input row every row of d is
func (w *World) matchRows(d *DF, files [][][]string, header []string, tx *texts, miss []int) []int {
	o := w.observe(0, d)
	isMiss := map[int]bool{}
	for _, m := range miss {
		isMiss[m] = true
	}
	where := map[string][]int{}
	n := 0
	notBool := map[string]bool{} // columns that are not read as booleans
	for _, rs := range files {
		h := header
		if len(h) == 0 {
			h, rs = rs[0], rs[1:]
		}
		for p := range h {
			for _, r := range rs {
				if tx.r[tx.of(r[p])-1].i("b") == NOVAL {
					notBool[h[p]] = true
				}
			}
		}
	}
	for _, rs := range files {
		h := header
		if len(h) == 0 {
			h, rs = rs[0], rs[1:]
		}
		for _, r := range rs {
			n++
			key := ""
			for _, c := range o.Cols {
				v := BAD
				for p, name := range h {
					if name != c.N {
						continue
					}
					t := tx.r[tx.of(r[p])-1]
					switch {
					case c.T == "b":
						v = t.i("b")
					case c.T == "i":
						v = t.i("i")
						if isMiss[t.i("s")] {
							v = -256
						}
					case c.T == "f":
						v = t.i("f")
						if !notBool[name] {
							v = t.i("b")
						} else if isMiss[t.i("s")] {
							v = NAN
						}
					default:
						v = t.i("s")
						if isMiss[v] {
							v = NIL
						}
					}
				}
				key += fmt.Sprint(v, " ")
			}
			where[key] = append(where[key], n)
		}
	}
	perm := []int{}
	for j := 0; j < o.N; j++ {
		key := ""
		for _, c := range o.Cols {
			key += fmt.Sprint(c.V[j], " ")
		}
		if len(where[key]) == 0 {
			return []int{}
		}
		perm = append(perm, where[key][0])
		where[key] = where[key][1:]
	}
	return perm
}
