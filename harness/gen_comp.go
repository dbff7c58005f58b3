package main

import "math"

// Components are only fitted on values for which the specification can check
// the trained parameters with its integers, and only applied where results
// are numbers of the grid.
const fitMax = 64 * 256

func small(v []int) bool {
	for _, x := range v {
		if x != NAN && (x > fitMax || x < -fitMax) {
			return false
		}
	}
	return true
}

func (g *Gen) fittable(o *Obs, cols []string) bool {
	if o.N > 45 || o.N == 0 {
		return false
	}
	for _, c := range cols {
		if !small(centred(o.col(c).V)) {
			return false
		}
	}
	return true
}

// centred: the differences with the first value
func centred(v []int) []int {
	r := make([]int, len(v))
	first := NAN
	for j, x := range v {
		if x == NAN {
			r[j] = NAN
			continue
		}
		if first == NAN {
			first = x
		}
		r[j] = x - first
		if !onGrid(x) {
			r[j] = 1 << 28
		}
	}
	return r
}

func without(s []string, out []string) []string {
	r := []string{}
	for _, x := range s {
		in := false
		for _, y := range out {
			in = in || x == y
		}
		if !in {
			r = append(r, x)
		}
	}
	return r
}

func (g *Gen) comps(k string) []int {
	r := []int{}
	for id := 1; id < g.newComp(); id++ {
		if c := g.w.cmp[id]; c != nil && (k == "" || c.k == k) {
			r = append(r, id)
		}
	}
	return r
}

// anOld is a component to train again, or a new number
func (g *Gen) compFor(k string) (int, *Cmp) {
	ids := g.comps(k)
	if len(ids) > 0 && g.pct(35) {
		id := ids[g.n(len(ids))]
		if !g.w.cmp[id].json {
			return id, g.w.cmp[id]
		}
	}
	return g.newComp(), nil
}

func (g *Gen) aComp(k string) (int, *Cmp) {
	ids := g.comps(k)
	if len(ids) == 0 {
		return 0, nil
	}
	if g.pct(60) {
		return ids[len(ids)-1], g.w.cmp[ids[len(ids)-1]]
	}
	id := ids[g.n(len(ids))]
	return id, g.w.cmp[id]
}

func haveAll(o *Obs, m map[string]int, t string) bool {
	for c := range m {
		if x := o.col(c); x == nil || x.T != t {
			return false
		}
	}
	return true
}

func orElse(m map[string]int, c string, d int) int {
	if x, ok := m[c]; ok {
		return x
	}
	return d
}

// scaled is (x+sh)*sc, or its inverse, if that is a number of the grid
func scaled(x, sh, sc int, inv bool) (int, bool) {
	if x == NAN {
		return x, true
	}
	if !onGrid(x) || sc == 0 {
		return 0, false
	}
	num, den := (x+sh)*sc, 256
	if inv {
		num, den = x*256, sc
	}
	if num%den != 0 {
		return 0, false
	}
	y := num / den
	if inv {
		y -= sh
	}
	return y, onGrid(y) && num < 1<<30 && num > -1<<30
}

func (g *Gen) scalesWell(o *Obs, imp, sh, sc map[string]int, inv bool) bool {
	for _, c := range o.Cols {
		_, a := sh[c.N]
		_, b := sc[c.N]
		if !a && !b {
			continue
		}
		for _, x := range c.V {
			if x == NAN {
				x = orElse(imp, c.N, NAN)
			}
			if _, ok := scaled(x, orElse(sh, c.N, 0), orElse(sc, c.N, 256), inv); !ok {
				return false
			}
		}
	}
	return true
}

// trained is what standardising a column has to learn, if it is exact
func trained(v []int) (mean, scale int, ok bool) {
	n, s := 0, 0
	for _, x := range v {
		if x != NAN {
			n++
			s += x
		}
	}
	if n == 0 {
		return 0, 256, true
	}
	if s%n != 0 {
		return 0, 0, false
	}
	mean = s / n
	sq := 0
	for _, x := range v {
		if x != NAN {
			sq += (x - mean) * (x - mean)
		}
	}
	if sq == 0 {
		return mean, 0, false
	}
	f := 256 * 256 * math.Sqrt(float64(n)/float64(sq))
	scale = int(math.Round(f))
	if math.Abs(f-float64(scale)) > 1e-9 {
		return 0, 0, false
	}
	return mean, scale, true
}

func (g *Gen) makeComp(key string, f int, o *Obs) Op {
	w := g.w
	switch key {
	case "ImputerFit":
		f = g.frame(func(o *Obs) bool { return g.fittable(o, o.names("f")) })
		if f == 0 {
			return nil
		}
		id, c := g.compFor("imp")
		op := Op{"op": key, "c": id, "f": f, "pol": []int{0, 0, 0, 1, 2}[g.n(5)]}
		if c != nil {
			op["pol"] = c.pol
		}
		return op
	case "ImputerTransform":
		id, c := g.aComp("imp")
		if c == nil {
			return nil
		}
		f = g.frame(func(o *Obs) bool { return haveAll(o, c.p, "f") })
		if f == 0 {
			return nil
		}
		return Op{"op": key, "c": id, "f": f}
	case "ScalerFit":
		f = g.frame(func(o *Obs) bool { return g.fittable(o, o.names("f")) })
		if f == 0 {
			return nil
		}
		id, c := g.compFor("sc")
		op := Op{"op": key, "c": id, "f": f, "opt": Op{"mm": g.pct(30), "ce": g.pct(70), "sc": g.pct(70)}}
		if c != nil {
			op["opt"] = c.opt
		}
		return op
	case "ScalerTransform":
		id, c := g.aComp("sc")
		if c == nil || !c.exact {
			return nil
		}
		inv := g.pct(45)
		f = g.frame(func(o *Obs) bool {
			return haveAll(o, c.psh, "f") && haveAll(o, c.psc, "f") && g.scalesWell(o, nil, c.psh, c.psc, inv)
		})
		if f == 0 {
			return nil
		}
		if !inv && g.pct(40) {
			g.pending = append(g.pending, Op{"op": key, "c": id, "f": f, "inv": true})
		}
		return Op{"op": key, "c": id, "f": f, "inv": inv}
	case "HashFit":
		id, _ := g.compFor("hash")
		return Op{"op": key, "c": id, "f": f}
	case "HashTransform":
		id, c := g.aComp("hash")
		if c == nil {
			return nil
		}
		f = g.frame(func(o *Obs) bool { return len(without(c.cats, o.names("s"))) == 0 })
		if f == 0 {
			return nil
		}
		return Op{"op": key, "c": id, "src": f, "f": w.fresh()}
	case "OneHotFit":
		f = g.frame(func(o *Obs) bool { return o.N > 0 && len(o.Cols) > 0 && (len(o.names("i")) > 0 || g.pct(10)) })
		if f == 0 {
			return nil
		}
		mp, up, keep := g.n(5), g.n(5), g.pct(30)
		id, c := g.compFor("oh")
		if c != nil {
			mp, up, keep = c.opt.i("mp"), c.opt.i("up"), c.opt.b("keep")
		}
		a, b := mp, up
		if a == 1 && b != 1 {
			a = b
		}
		if a == 3 || b == 3 || mp == 3 || up == 3 {
			for _, c := range g.cols(f, "i") {
				if len(without(ints2(g.obs(f).col(c).V), []string{"-256"})) == 0 {
					return nil
				}
			}
		}
		return Op{"op": key, "c": id, "f": f, "mp": mp, "up": up, "keep": keep}
	case "OneHotTransform":
		id, c := g.aComp("oh")
		if c == nil {
			return nil
		}
		f = g.frame(func(o *Obs) bool { return len(without(c.cats, o.names("i"))) == 0 })
		if f == 0 || g.pct(25) { // another frame with these columns
			return g.newWith(c.cats, "i")
		}
		return Op{"op": key, "c": id, "src": f, "f": w.fresh()}
	case "AutoFit":
		excl := g.subset(g.names(), 0)
		if len(excl) > 2 || g.pct(40) {
			excl = excl[:g.n(min2(len(excl), 2)+1)]
		}
		id, c := g.compFor("auto")
		opt := Op{"imp": g.pct(75), "sc": g.pct(65)}
		if c != nil {
			excl, opt = c.excl, c.opt
		}
		f = g.frame(func(o *Obs) bool {
			return g.fittable(o, without(o.names("f"), excl)) && len(without(o.names("ifbo"), excl)) > 0
		})
		if f == 0 {
			return nil
		}
		op := Op{"op": key, "c": id, "src": f, "f": 0, "ft": false, "again": c != nil, "opt": opt, "excl": excl}
		if g.pct(60) {
			imp, sh, sc := map[string]int{}, map[string]int{}, map[string]int{}
			ok := true
			for _, x := range without(g.cols(f, "f"), excl) {
				if !opt.b("sc") {
					continue
				}
				m, s, good := trained(g.obs(f).col(x).V)
				ok = ok && good
				if opt.b("imp") {
					imp[x] = m
				}
				sh[x], sc[x] = -m, s
			}
			if ok && g.scalesWell(g.obs(f), imp, sh, sc, false) {
				op["ft"], op["f"] = true, w.fresh()
			}
		}
		if g.pct(50) { // transform the same frame
			g.pending = append(g.pending, Op{"op": "@", "fn": func() Op { return g.autoTransform(id, f) }})
		}
		return op
	case "AutoTransform":
		id, c := g.aComp("auto")
		if c == nil {
			return nil
		}
		f = g.frame(func(o *Obs) bool { return g.autoFits(c, o) })
		if f == 0 {
			return nil
		}
		return g.autoTransform(id, f)
	case "Columns", "Json":
		id, c := g.aComp("")
		if c == nil || (c.k == "lin" && !c.set) {
			return nil
		}
		op := Op{"op": key, "c": id}
		if key == "Json" {
			op["c2"] = g.newComp()
		}
		return op
	case "LinFit":
		f = g.frame(func(o *Obs) bool {
			return g.fittable(o, o.names("f")) && len(o.names("f")) > 0 && len(o.names("fb")) > 1
		})
		if f == 0 {
			return nil
		}
		ok := []string{}
		for _, c := range g.cols(f, "f") {
			if noNaN(g.obs(f).col(c).V) {
				ok = append(ok, c)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		par := Op{"epochs": g.n(3), "batch": []int{0, 1, 2, 3, 7, 64}[g.n(6)], "lr": g.n(3), "low": g.pct(50), "mom": g.n(2) * 5, "decay": g.n(2)}
		id, _ := g.compFor("lin")
		g.pending = append(g.pending, Op{"op": "@", "fn": func() Op { return g.linSet(id) }})
		return Op{"op": key, "c": id, "f": f, "target": g.pick(ok), "par": par}
	case "LinTrain":
		return g.linTrain()
	case "LinSet":
		ids := g.comps("lin")
		if len(ids) == 0 {
			return nil
		}
		return g.linSet(ids[g.n(len(ids))])
	case "Predict":
		id, c := g.aComp("lin")
		if c == nil || !c.set {
			return nil
		}
		f = g.frame(func(o *Obs) bool { return g.predictable(c, o) })
		if f == 0 {
			return nil
		}
		col := g.pick(append([]string{"pred", "pred", "_target"}, g.names()...))
		// rows may be reordered: a column must remain to tell which is which
		if o := g.obs(f); o.N > 1 && len(o.Cols) == 1 && o.col(col) != nil {
			return nil
		}
		if g.p.bigPredict && !g.didBig && len(c.flo) > 1 && g.obs(f).N > 0 && g.pct(3) {
			g.didBig = true
			return Op{"op": "PredictBig", "c": id, "src": f, "parts": 1 + g.n(2), "more": g.n(60)}
		}
		return Op{"op": key, "c": id, "src": f, "f": w.fresh(), "col": col}
	case "Metric":
		ok := func(o *Obs, c string) bool { return small(o.col(c).V) && noNaN(o.col(c).V) }
		any := func(o *Obs) string {
			r := []string{}
			for _, c := range o.names("f") {
				if ok(o, c) {
					r = append(r, c)
				}
			}
			if len(r) == 0 {
				return ""
			}
			return g.pick(r)
		}
		f = g.frame(func(o *Obs) bool { return o.N > 0 && o.N <= 45 && any(o) != "" })
		if f == 0 {
			return nil
		}
		h := g.frame(func(x *Obs) bool { return x.N == g.obs(f).N && any(x) != "" })
		return Op{"op": key, "f": f, "g": h, "col": any(g.obs(f)), "gcol": any(g.obs(h)), "mse": g.pct(50)}
	}
	return nil
}

func ints2(v []int) []string {
	r := []string{}
	for _, x := range v {
		if x == -256 {
			r = append(r, "-256")
		} else {
			r = append(r, "x")
		}
	}
	return r
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// newWith is a new frame that has at least these columns
func (g *Gen) newWith(cols []string, t string) Op {
	n := g.rows()
	specs := []Op{}
	for _, c := range cols {
		specs = append(specs, Op{"n": c, "t": t, "s": false, "v": g.vals(t, n)})
	}
	save := g.p.names
	g.p.names = without(g.names(), cols)
	if len(g.p.names) > 0 {
		specs = append(specs, g.specs(n, g.n(3))...)
	}
	g.p.names = save
	if len(specs) == 0 {
		return nil
	}
	return Op{"op": "New", "f": g.w.fresh(), "n": n, "cols": specs, "cpu": g.cpu(), "enc": "utf8", "via": "set"}
}

func (g *Gen) autoFits(c *Cmp, o *Obs) bool {
	if !haveAll(o, c.p, "f") || !haveAll(o, c.psh, "f") || len(without(c.hash, o.names("s"))) > 0 {
		return false
	}
	if len(c.hash) == 0 && len(without(c.cats, o.names("i"))) > 0 {
		return false
	}
	if len(c.psh) > 0 && !c.exact {
		return false
	}
	return g.scalesWell(o, c.p, c.psh, c.psc, false)
}

func (g *Gen) autoTransform(id, f int) Op {
	c := g.w.cmp[id]
	if c == nil || g.w.fr[f] == nil || !g.autoFits(c, g.obs(f)) {
		return nil
	}
	return Op{"op": "AutoTransform", "c": id, "src": f, "f": g.w.fresh()}
}

func (g *Gen) linSet(id int) Op {
	c := g.w.cmp[id]
	if c == nil || !c.exact || len(c.flo) == 0 {
		return nil
	}
	ws := []int{}
	for range c.flo {
		ws = append(ws, []int{256, -256, 512, 128, 0, 768, -64, 64}[g.n(8)])
	}
	return Op{"op": "LinSet", "c": id, "ws": ws}
}

func (g *Gen) predictable(c *Cmp, o *Obs) bool {
	for j := 0; j < o.N; j++ {
		s := 0
		for k, x := range c.flo {
			col := o.col(x)
			if col == nil || (col.T != "f" && col.T != "b") || !onGrid(col.V[j]) {
				return false
			}
			p := c.ws[k] * col.V[j]
			if p%256 != 0 || p > 1<<30 || p < -1<<30 {
				return false
			}
			s += p / 256
		}
		if _, ok := scaled(s, c.sh, c.scl, true); !ok {
			return false
		}
	}
	for _, x := range c.flo {
		if o.col(x) == nil {
			return false
		}
	}
	return true
}

// lastComp is the highest number of a component
func (w *World) lastComp() int {
	r := 0
	for id := range w.cmp {
		if id > r {
			r = id
		}
	}
	return r
}
func (g *Gen) newComp() int { return g.w.lastComp() + 1 }
