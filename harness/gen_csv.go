package main

import (
	"bytes"
	"encoding/csv"
	"sort"
	"strings"
)

// lexical classes of generated CSV columns
var csvPools = map[string][]string{
	"bool":   {"true", "false", "T", "F", "1", "0", "TRUE", "False", "t", "f"},
	"binary": {"0", "1"},
	"int":    {"0", "1", "2", "-1", "7", "12", "-3", "+5", "007", "-0"},
	"bigint": {"1", "-4", "9223372036854775807", "-9223372036854775808", "9007199254740993"},
	"huge":   {"9223372036854775808", "1", "-9223372036854775809", "2"},
	"float":  {"1.5", "-2.25", "3", "1e2", ".5", "0", "1", "NaN", "0.125", "-7.0"},
	"odd":    {"Inf", "-inf", "1e300", "2.5", "0x1p-2", "1e3"},
	"range":  {"1e999", "2.5", "1"},
	"str":    {"a", "b", "Zoé", "x,y", "q\"q", "line\nbreak", "日本", " lead", "trail ", "a;b", "tab\tx", "#c"},
	"near":   {"tru", "yes", "0", "1", "1_0", "0b1", "1.2.3", "--1", "1 "},
}
var csvClasses = []string{"bool", "binary", "binary", "int", "int", "bigint", "huge", "float", "float", "odd", "range", "str", "str", "near"}
var csvMissing = [][]string{{}, {""}, {"NA"}, {"NA", "?", ""}, {"0"}, {"true", "-"}, {"a", "1.5"}}

func (g *Gen) csvRows() int {
	if g.n(250) == 0 {
		return []int{300, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 2000, 2049, 3000}[g.n(12)]
	}
	if g.pct(10) {
		return []int{0, 1, 127, 128, 129, 255, 256, 257}[g.n(8)]
	}
	return 1 + g.n(12)
}

type csvPlan struct {
	header  []string
	classes []string
	missing []string
	comma   string
	opt     Op
	op      Op
}

func (g *Gen) csvPlan() *csvPlan {
	p := &csvPlan{}
	names := append([]string{}, "a", "b", "c", "d", "e", "_x", "col 1", "x,y", "Zoé", "0")
	if g.pct(25) {
		names = append(names, "")
	}
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	nc := 1 + g.n(5)
	p.header = names[:nc]
	for k := 0; k < nc; k++ {
		p.classes = append(p.classes, csvClasses[g.n(len(csvClasses))])
	}
	p.missing = csvMissing[g.n(len(csvMissing))]
	p.comma = g.pick([]string{"", "", ";", "\t", "|"})
	hdr := []string{}
	if g.pct(35) {
		hdr = append(hdr, p.header...)
	}
	excl := []string{}
	if g.pct(40) {
		excl = g.subset(p.header, 0)
		if len(excl) == nc {
			excl = excl[1:]
		}
		if g.pct(30) {
			excl = append(excl, "unknown")
		}
	}
	p.opt = Op{"header": hdr, "exclude": excl, "cpu": g.cpu(), "boolf": g.pct(20), "binf": g.pct(25), "intf": g.pct(25),
		"enc": g.pick([]string{"utf8", "utf8", "utf8", "latin1"})}
	p.op = Op{"comma": p.comma, "opt": p.opt, "missingS": append([]string{}, p.missing...), "lazy": g.pct(15), "trim": g.pct(20),
		"comment": "", "chunk": 0}
	if g.pct(15) {
		p.op["comment"] = "#"
	}
	if g.pct(25) {
		p.op["chunk"] = []int{1, 2, 3, 7, 16, 64, 255, 511}[g.n(8)]
	}
	return p
}

// csvBody makes one file following a plan
func (g *Gen) csvBody(p *csvPlan, n int) []byte {
	b := &bytes.Buffer{}
	wr := csv.NewWriter(b)
	wr.UseCRLF = g.pct(20)
	if p.comma != "" {
		wr.Comma = []rune(p.comma)[0]
	}
	raw := func(s string) {
		wr.Flush()
		b.WriteString(s)
	}
	write := func(rec []string) {
		if len(rec) == 1 && rec[0] == "" {
			raw("\"\"\n")
			return
		}
		wr.Write(rec)
	}
	if len(p.opt.ss("header")) == 0 {
		write(p.header)
	}
	miss := g.n(40)
	allMiss := g.n(12)
	// one value of another kind, at either end above all
	oddAt, odd := make([]int, len(p.classes)), make([]string, len(p.classes))
	for k := range oddAt {
		oddAt[k], odd[k] = -1, "oops"
		if g.pct(35) && n > 0 {
			oddAt[k] = []int{0, n - 1, n - 1, g.n(n)}[g.n(4)]
			if g.pct(60) {
				odd[k] = g.pick(csvPools[csvClasses[g.n(len(csvClasses))]])
			}
		}
	}
	for j := 0; j < n; j++ {
		if g.pct(5) && p.op.s("comment") != "" {
			raw("# comment, \"\n")
		}
		if g.pct(3) {
			raw("\n") // blank lines are ignored
		}
		rec := []string{}
		for k, cl := range p.classes {
			pool := csvPools[cl]
			x := g.pick(pool)
			if len(p.missing) > 0 && (g.pct(miss) || k == allMiss) {
				x = g.pick(p.missing)
			}
			if oddAt[k] == j {
				x = odd[k]
			}
			rec = append(rec, x)
		}
		if len(rec) > 1 && g.pct(5) { // quoted although not needed
			raw("\"" + strings.ReplaceAll(rec[0], "\"", "\"\"") + "\"")
			for _, x := range rec[1:] {
				raw(string(wr.Comma) + "\"" + strings.ReplaceAll(x, "\"", "\"\"") + "\"")
			}
			raw("\n")
			continue
		}
		write(rec)
	}
	wr.Flush()
	r := b.Bytes()
	if g.pct(10) && len(r) > 0 && r[len(r)-1] == '\n' && !bytes.HasSuffix(r, []byte("\r\n")) {
		r = r[:len(r)-1] // no end of line at the end of the file
	}
	return r
}

// csvHeader is the set of columns of a file, "" if reading it is not specified
func csvHeader(b []byte, op Op) string {
	rs, err := parseCsv(b, op)
	if err != nil {
		return ""
	}
	h := asOp(op["opt"]).ss("header")
	if len(h) == 0 {
		if len(rs) == 0 {
			return ""
		}
		h, rs = rs[0], rs[1:]
	} else if len(rs) > 0 && len(rs[0]) != len(h) {
		return ""
	}
	seen := map[string]bool{}
	for _, c := range h {
		if seen[c] || strings.Contains(c, "\r") {
			return ""
		}
		seen[c] = true
	}
	for _, rec := range rs {
		for _, x := range rec {
			if strings.Contains(x, "\r") {
				return ""
			}
		}
	}
	h = append([]string{}, h...)
	sort.Strings(h)
	return "|" + strings.Join(h, "|")
}

// readOp reads raws back, nil if this is outside what is specified
func (g *Gen) readOp(raws [][]byte, base Op, many bool) Op {
	op := Op{}
	for k, v := range base {
		op[k] = v
	}
	sch := csvHeader(raws[0], op)
	if sch == "" {
		return nil
	}
	for _, b := range raws {
		if csvHeader(b, op) != sch {
			return nil
		}
	}
	op["f"] = g.w.fresh()
	op["raws"] = hexes(raws...)
	op["op"], op["api"] = "CsvRead", g.pick([]string{"reader", "file", "reader"})
	if many {
		op["op"], op["api"] = "CsvReadMany", "pattern"
		op["extradir"] = g.pct(25)
		delete(op, "chunk")
	}
	return op
}

func (g *Gen) csvCommon() Op {
	nout := 1 + g.n(5)
	if g.pct(2 * g.p.wide) {
		nout = 9 + g.n(25)
	}
	return Op{"comma": g.pick([]string{"", "", ";", "\t", "|"}), "crlf": g.pct(15), "order": g.pct(55),
		"markerS": g.pick([]string{"", "NA", "-", "?"}), "nout": nout, "minrows": []int{0, 1, 2, 3, 5, 40}[g.n(6)],
		"api": g.pick([]string{"To1CSV", "ToCSVs", "ToCSVs", "ToCSVFiles", "ToCSVDir"}), "kind": ""}
}

func hasCsv(o *Obs) bool {
	for _, c := range o.Cols {
		if c.T != "o" || c.S {
			return true
		}
	}
	return false
}

func (g *Gen) makeCsv(key string, f int, o *Obs) Op {
	switch key {
	case "CsvWrite", "CsvRoundTrip":
		f = g.frame(hasCsv)
		if f == 0 {
			return nil
		}
		op := g.csvCommon()
		op["op"], op["f"] = "CsvWrite", f
		if key == "CsvRoundTrip" {
			enc := g.w.fr[f].enc
			if enc != "latin1" {
				enc = "utf8"
			}
			rd := Op{"comma": op["comma"], "missingS": []string{op.s("markerS")}, "lazy": false, "trim": false, "comment": "",
				"opt": Op{"header": []string{}, "exclude": []string{}, "cpu": g.cpu(), "boolf": g.pct(8), "binf": g.pct(8), "intf": g.pct(8), "enc": enc}}
			g.pending = append(g.pending, Op{"op": "@", "fn": func() Op {
				raws := [][]byte{}
				for _, s := range op.ss("raws") {
					raws = append(raws, unhex(s))
				}
				if len(raws) == 0 {
					return nil
				}
				if len(raws) == 1 || g.pct(30) {
					return g.readOp(raws[g.n(len(raws)):][:1], rd, false)
				}
				return g.readOp(raws, rd, true)
			}})
		}
		return op
	case "CsvRead":
		p := g.csvPlan()
		return g.readOp([][]byte{g.csvBody(p, g.csvRows())}, p.op, false)
	case "CsvReadMany":
		p := g.csvPlan()
		for try := 0; try < 20; try++ {
			raws := [][]byte{}
			n := 1 + g.n(6)
			if g.pct(2 * g.p.wide) {
				n = 9 + g.n(25)
			}
			for k := 0; k < n; k++ {
				q := *p
				q.header, q.classes = append([]string{}, p.header...), append([]string{}, p.classes...)
				if len(p.opt.ss("header")) == 0 && g.pct(25) { // columns in another order
					g.r.Shuffle(len(q.header), func(i, j int) {
						q.header[i], q.header[j] = q.header[j], q.header[i]
						q.classes[i], q.classes[j] = q.classes[j], q.classes[i]
					})
				}
				if g.pct(25) { // values of another kind
					q.classes[g.n(len(q.classes))] = csvClasses[g.n(len(csvClasses))]
				}
				rows := g.csvRows()
				if g.pct(12) {
					rows = 0
				}
				raws = append(raws, g.csvBody(&q, rows))
			}
			if op := g.readOp(raws, p.op, true); op != nil {
				return op
			}
		}
		return nil
	case "CsvFault":
		return g.csvFault()
	}
	return nil
}

func (g *Gen) csvFault() Op {
	if g.pct(45) {
		f := g.frame(hasCsv)
		if f == 0 {
			return nil
		}
		op := g.csvCommon()
		op["op"], op["f"], op["short"], op["error"] = "CsvFault", f, false, g.n(13)
		op["which"] = g.n(op.i("nout"))
		switch op.s("api") {
		case "To1CSV":
			op["which"] = 0
			fallthrough
		case "ToCSVs":
			size := 40 + 12*len(g.obs(f).Cols)*(1+g.obs(f).N)/op.i("nout")
			op["limit"] = g.n(size)
			if g.pct(25) {
				op["limit"] = g.n(12)
			}
		case "ToCSVFiles":
			op["kind"] = g.pick([]string{"full", "missing", "isdir", ""})
		case "ToCSVDir":
			op["kind"] = g.pick([]string{"missing", "isdir", ""})
		}
		return op
	}
	p := g.csvPlan()
	p.opt["header"] = []string{}
	if g.pct(30) {
		p.opt["header"] = append([]string{}, p.header...)
	}
	n := 1
	api := g.pick([]string{"reader", "reader", "file", "pattern", "pattern"})
	if api == "pattern" {
		n = 1 + g.n(5)
	}
	op := Op{}
	for k, v := range p.op {
		op[k] = v
	}
	raws := [][]byte{}
	for k := 0; k < n; k++ {
		raws = append(raws, g.csvBody(p, g.csvRows()))
	}
	op["op"], op["api"], op["kind"], op["early"] = "CsvFault", api, "", g.pct(40)
	x := g.n(n)
	switch {
	case g.pct(40) && api == "reader":
		op["kind"], op["error"] = "reader", g.n(12)
		raws[x] = raws[x][:g.n(len(raws[x])+1)]
	case g.pct(35) && api == "file":
		op["kind"] = g.pick([]string{"missing", "isdir"})
	case g.pct(35) && api == "pattern":
		op["kind"] = g.pick([]string{"missing", "badglob", "nomatch"})
	default: // malformed somewhere
		b := raws[x]
		at := g.n(len(b) + 1)
		if at > 0 && g.pct(50) { // at the beginning of a line
			at = bytes.LastIndexByte(b[:at], '\n') + 1
		}
		comma := ","
		if p.comma != "" {
			comma = p.comma
		}
		ins := g.pick([]string{"\"", "a\"b" + comma, comma, "x\n", "\"\"\"", "\"x\"y" + comma, "1" + comma + "2" + comma + "3\n"})
		if g.pct(20) {
			ins = ""
			b = b[:at]
			at = len(b)
		}
		raws[x] = append(append(append([]byte{}, b[:at]...), ins...), b[at:]...)
		if g.pct(15) && len(p.opt.ss("header")) > 0 {
			p.opt["header"] = append(p.opt.ss("header"), "more")
		}
	}
	// the header option must not be shorter than the records, headers have no
	// duplicates and several files have the same columns
	nh := len(p.opt.ss("header"))
	var first []string
	for k, b := range raws {
		rs, err := parseCsv(b, op)
		if len(rs) > 0 && nh > 0 && len(rs[0]) > nh {
			return nil
		}
		if nh > 0 || (err != nil && len(rs) == 0) {
			continue
		}
		if len(rs) == 0 {
			continue
		}
		if first == nil {
			first = rs[0]
		}
		if k > 0 && strings.Join(first, "\x00") != strings.Join(rs[0], "\x00") {
			return nil
		}
		seen := map[string]bool{}
		for _, c := range rs[0] {
			if seen[c] {
				return nil
			}
			seen[c] = true
		}
	}
	op["raws"] = hexes(raws...)
	return op
}
