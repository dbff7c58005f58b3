package main

import (
	"encoding/json"
	"math"
	"sort"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

type Cmp struct {
	k    string
	imp  *preprocessing.FloatImputer
	sc   *preprocessing.Scaler
	henc *preprocessing.HashEncoder
	oh   *preprocessing.OneHotEncoder
	auto *preprocessing.AutoPreprocessor
	lin  *algorithms.LinearRegressor
	// what the generator needs to know
	exact bool
	cats  []string
	flo   []string
	sh    int
	scl   int
	set   bool
	opt   Op
	excl  []string
	pol   int
	json  bool
	hash  []string
	ws    []int
	p     map[string]int
	psh   map[string]int
	psc   map[string]int
}

func byName(ps []Op) map[string]int {
	r := map[string]int{}
	for _, p := range ps {
		r[p.s("n")] = p.i("tok")
	}
	return r
}

func (w *World) params(m map[string]float64) []Op {
	r := []Op{}
	for _, k := range sortedKeys(m) {
		r = append(r, Op(w.tk.param(k, m[k])))
	}
	return r
}

func (w *World) oneHotOp(op Op, e *preprocessing.OneHotEncoder) {
	cats := []Op{}
	cols := append([]string{}, e.CategoricalColumns...)
	sort.Strings(cols)
	for _, c := range cols {
		keys := []int{}
		for k := range e.Categories[c] {
			keys = append(keys, k)
		}
		sort.Ints(keys)
		m := []Op{}
		for _, k := range keys {
			m = append(m, Op{"k": w.tk.intTok(k), "c": e.Categories[c][k]})
		}
		fb := []string{"", ""}
		copy(fb, e.Fallback[c])
		cats = append(cats, Op{"n": c, "m": m, "fb": fb})
	}
	nc := append([]string{}, e.NewColumns...)
	sort.Strings(nc)
	op["cats"], op["newcols"] = cats, nc
}

func strs(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

func roundTrip(from, to interface{}) error {
	b, err := json.Marshal(from)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, to)
}

func exactParams(ps []Op, scale bool) bool {
	for _, p := range ps {
		t := p.i("tok")
		if !onGrid(t) {
			return false
		}
		if scale { // a power of two between 1/8 and 8
			ok := false
			for x := 32; x <= 2048; x *= 2 {
				ok = ok || t == x
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func (w *World) doComp(name string, op Op) bool {
	c := w.cmp[op.i("c")]
	put := func(x *Cmp) { w.cmp[op.i("c")] = x }
	setErr := func(err error) { op["err"] = err != nil }
	switch name {
	case "ImputerFit":
		d := w.df(op, "f")
		if c == nil || c.k != "imp" {
			c = &Cmp{k: "imp", imp: preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(op.i("pol"))})}
		}
		setErr(c.imp.Fit(d))
		ps := w.params(c.imp.Fallback)
		op["ps"] = ps
		c.pol, c.p = op.i("pol"), byName(ps)
		c.exact = exactParams(ps, false)
		put(c)
	case "ImputerTransform":
		setErr(c.imp.TransformInplace(w.df(op, "f")))
	case "ScalerFit":
		d := w.df(op, "f")
		o := asOp(op["opt"])
		if c == nil || c.k != "sc" {
			c = &Cmp{k: "sc", sc: preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: o.b("mm"), Centering: o.b("ce"), Scaling: o.b("sc")})}
		}
		setErr(c.sc.Fit(d))
		sh, sc := w.params(c.sc.Shift), w.params(c.sc.Scale)
		op["sh"], op["sc"] = sh, sc
		c.opt, c.psh, c.psc = o, byName(sh), byName(sc)
		c.exact = exactParams(sh, false) && exactParams(sc, true)
		put(c)
	case "ScalerTransform":
		if op.b("inv") {
			setErr(c.sc.InverseTransformInplace(w.df(op, "f")))
		} else {
			setErr(c.sc.TransformInplace(w.df(op, "f")))
		}
	case "HashFit":
		n := &Cmp{k: "hash", exact: true}
		if c != nil && c.k == "hash" { // trained again
			n.henc = c.henc
		} else {
			n.henc = preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		}
		c = n
		setErr(c.henc.Fit(w.df(op, "f")))
		op["cols"] = strs(c.henc.TransformedColumns())
		c.cats = op.ss("cols")
		put(c)
	case "HashTransform":
		d := w.df(op, "src")
		res, err := c.henc.TransformView(d)
		setErr(err)
		if err == nil {
			op["hm"] = w.hashPairs(d, res, c.henc.TransformedColumns())
			w.addView(op.i("f"), op.i("src"), res)
		}
	case "OneHotFit":
		n := &Cmp{k: "oh", exact: true, opt: Op{"mp": op.i("mp"), "up": op.i("up"), "keep": op.b("keep")}}
		if c != nil && c.k == "oh" {
			n.oh = c.oh
		} else {
			n.oh = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{
				MissingPolicy: preprocessing.CategoryPolicy(op.i("mp")), UnknownPolicy: preprocessing.CategoryPolicy(op.i("up")),
				KeepUsedColumns: op.b("keep")})
		}
		c = n
		setErr(c.oh.Fit(w.df(op, "f")))
		w.oneHotOp(op, c.oh)
		c.cats = c.oh.CategoricalColumns
		put(c)
	case "OneHotTransform":
		res, err := c.oh.TransformView(w.df(op, "src"))
		setErr(err)
		if err == nil {
			w.addView(op.i("f"), op.i("src"), res)
		}
	case "AutoFit":
		o := asOp(op["opt"])
		d := w.df(op, "src")
		if c == nil || c.k != "auto" || !op.b("again") {
			c = &Cmp{k: "auto", auto: preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{
				Imputing: o.b("imp"), Scaling: o.b("sc"), Exclude: op.ss("excl")})}
		}
		var res *DF
		var err error
		if op.b("ft") {
			res = c.auto.FitTransform(d)
		} else {
			err = c.auto.Fit(d)
		}
		setErr(err)
		ps, sh, sc, hash := []Op{}, []Op{}, []Op{}, []string{}
		c.cats = nil
		if c.auto.Imputer != nil {
			ps = w.params(c.auto.Imputer.Fallback)
		}
		if c.auto.Scaler != nil {
			sh, sc = w.params(c.auto.Scaler.Shift), w.params(c.auto.Scaler.Scale)
		}
		if c.auto.StringToInt != nil {
			hash = strs(c.auto.StringToInt.TransformedColumns())
		}
		op["imp"], op["sh"], op["scl"], op["hash"] = ps, sh, sc, hash
		op["cats"], op["newcols"] = []int{}, []string{}
		if c.auto.IntToBool != nil {
			w.oneHotOp(op, c.auto.IntToBool)
			c.cats = c.auto.IntToBool.CategoricalColumns
		}
		// hashes of the strings of the training frame, from a view of them
		op["hm"] = w.hashPairs(d, d.HashStringsView(hash...), hash)
		c.exact = exactParams(ps, false) && exactParams(sh, false) && exactParams(sc, true)
		c.opt, c.excl, c.hash = o, op.ss("excl"), hash
		c.p, c.psh, c.psc = byName(ps), byName(sh), byName(sc)
		op["det"] = []string{}
		put(c)
		if op.b("ft") {
			op["det"] = w.copied(d, res, op.ss("excl"), len(ps)+len(sh) > 0)
			w.addView(op.i("f"), op.i("src"), res)
		} else {
			op["f"] = 0
		}
	case "AutoTransform":
		d := w.df(op, "src")
		res, err := c.auto.TransformView(d)
		setErr(err)
		op["hm"] = [][]int{}
		if err == nil {
			if c.auto.StringToInt != nil {
				h := c.auto.StringToInt.TransformedColumns()
				op["hm"] = w.hashPairs(d, d.HashStringsView(h...), h)
			}
			w.addView(op.i("f"), op.i("src"), res)
		}
	case "Columns":
		var cols []string
		switch c.k {
		case "imp":
			cols = c.imp.TransformedColumns()
		case "sc":
			cols = c.sc.TransformedColumns()
		case "hash":
			cols = c.henc.TransformedColumns()
		case "oh":
			cols = c.oh.TransformedColumns()
		case "auto":
			cols = c.auto.TransformedColumns()
		default:
			cols = c.lin.Features
		}
		op["cols"] = strs(cols)
	case "Json":
		n := *c
		n.json = true
		var err error
		switch c.k {
		case "imp":
			n.imp = new(preprocessing.FloatImputer)
			err = roundTrip(c.imp, n.imp)
		case "sc":
			n.sc = new(preprocessing.Scaler)
			err = roundTrip(c.sc, n.sc)
		case "hash":
			n.henc = new(preprocessing.HashEncoder)
			err = roundTrip(c.henc, n.henc)
		case "oh":
			n.oh = new(preprocessing.OneHotEncoder)
			err = roundTrip(c.oh, n.oh)
		case "auto":
			n.auto = new(preprocessing.AutoPreprocessor)
			err = roundTrip(c.auto, n.auto)
		default:
			n.lin = new(algorithms.LinearRegressor)
			err = roundTrip(c.lin, n.lin)
		}
		setErr(err)
		w.cmp[op.i("c2")] = &n
	case "LinFit":
		n := &Cmp{k: "lin"}
		if c != nil && c.k == "lin" {
			n.lin = c.lin
		} else {
			n.lin = algorithms.NewLinearRegressor()
		}
		c = n
		o := asOp(op["par"])
		setErr(c.lin.Fit(w.df(op, "f"), op.s("target"), algorithms.LinRegTrainParams{Epochs: o.i("epochs"),
			BatchSize: o.i("batch"), LR: float64(o.i("lr")) / 1000, LowMemory: o.b("low"), Momentum: float64(o.i("mom")) / 10,
			WeightDecay: float64(o.i("decay")) / 1000}))
		op["feats"], op["nw"] = append([]string{}, c.lin.Features...), len(c.lin.Weights)
		sh, sc := w.params(c.lin.TargetScaler.Shift), w.params(c.lin.TargetScaler.Scale)
		op["sh"], op["sc"] = sh, sc
		finite := true
		for _, x := range c.lin.Weights {
			finite = finite && !math.IsNaN(x) && !math.IsInf(x, 0)
		}
		op["finite"] = finite
		c.exact = exactParams(sh, false) && exactParams(sc, true) && len(sh) == 1 && len(sc) == 1
		if c.exact {
			c.sh, c.scl = sh[0].i("tok"), sc[0].i("tok")
		}
		c.flo = c.lin.Features
		put(c)
	case "LinTrain":
		w.doTrain(op)
	case "LinSet": // weights for which predictions are exact
		ws := op.is("ws")
		for k := range c.lin.Weights {
			c.lin.Weights[k] = w.tk.toFloat(ws[k%len(ws)])
			ws2 := w.tk.float(c.lin.Weights[k])
			if k < len(ws) {
				ws[k] = ws2
			} else {
				ws = append(ws, ws2)
			}
		}
		op["feats"], op["ws"] = append([]string{}, c.lin.Features...), ws[:len(c.lin.Weights)]
		op["sh"], op["sc"] = c.sh, c.scl
		c.set, c.ws = true, ws[:len(c.lin.Weights)]
	case "Predict":
		d := w.df(op, "src")
		res, err := c.lin.Predict(d, op.s("col"))
		setErr(err)
		op["perm"] = []int{}
		if err == nil {
			op["perm"] = w.perm(d, res, op.s("col"))
			w.addView(op.i("f"), op.i("src"), res)
		}
	case "PredictBig": // more rows than one batch of the implementation holds
		d := w.df(op, "src").Copy()
		d.AllocInts("_row_")
		tags := d.Ints("_row_")
		for j := 0; j < d.NumRows(); j++ {
			tags.Set(j, j+1)
		}
		total := op.i("parts")*(4194304/len(c.lin.Weights)) + op.i("more")
		idx := make([]int, total)
		for j := range idx {
			idx[j] = j % d.NumRows()
		}
		res, err := c.lin.Predict(d.IndexView(idx), "_pred_")
		setErr(err)
		op["total"], op["groups"] = total, []Op{}
		if err == nil {
			n := map[[2]int]int{}
			rows, pred := res.Ints("_row_"), res.Floats("_pred_")
			for j := 0; j < res.NumRows(); j++ {
				n[[2]int{rows.Get(j), w.tk.float(pred.Get(j))}]++
			}
			gr := []Op{}
			for k, x := range n {
				if len(gr) < 500 {
					gr = append(gr, Op{"p": k[0], "v": k[1], "n": x})
				}
			}
			sort.Slice(gr, func(a, b int) bool {
				return gr[a].i("p") < gr[b].i("p") || (gr[a].i("p") == gr[b].i("p") && gr[a].i("v") < gr[b].i("v"))
			})
			op["groups"] = gr
		}
	case "Metric":
		u, v := w.df(op, "f").Floats(op.s("col")), w.df(op, "g").Floats(op.s("gcol"))
		x := 0.0
		if op.b("mse") {
			x = algorithms.MSE(u, v)
		} else {
			x = algorithms.MAE(u, v)
		}
		if math.IsNaN(x) || math.Abs(x) > 1e6 {
			op["tok"] = -100000
		} else {
			op["tok"] = int(math.Round(x * 256))
		}
	default:
		return false
	}
	return true
}

// copied lists the float columns that training did not need to transform and
// that res does not share with the training frame
func (w *World) copied(d, res *DF, excl []string, transformed bool) []string {
	r := []string{}
	if transformed || d.NumRows() == 0 {
		return r
	}
	there, not := res.FloatHeader().NameSet(), map[string]bool{}
	for _, c := range excl {
		not[c] = true
	}
	for _, c := range strs(d.FloatHeader().NameList()) {
		if there[c] && !not[c] && len(w.shared(res, 0, []string{c})) == 0 {
			r = append(r, c)
		}
	}
	return r
}
