package main

import (
	"encoding/hex"
	"math"
	"sort"
	"strconv"
)

// Tokens of values, as described in Frames.tla.
const (
	NAN     = -2000000000
	NIL     = 699999999
	BAD     = -1999999123 // something that no specification value equals
	NOVAL   = -1999999000
	strBase = 700000000
	objBase = 700500000
	numBase = 300000000
	intBase = 1200000000
	gridMax = 1048576.0
)

// special numbers, in increasing order of token and value
var bigFloats = []struct {
	tok int
	v   float64
}{
	{-1999999999, math.Inf(-1)},
	{-1999999990, -1e300},
	{-1999999989, -9223372036854775808},
	{-1900000004, -9007199254740994},
	{-1900000002, -9007199254740992},
	{1900000002, 9007199254740992},
	{1900000004, 9007199254740994},
	{1999999999, 9223372036854775808},
	{2000000000, math.Inf(1)},
}
var bigInts = []struct {
	tok int
	v   int
}{
	{-1999999989, math.MinInt64},
	{-1999999988, math.MinInt64 + 1},
	{-1900000004, -9007199254740994},
	{-1900000003, -9007199254740993},
	{-1900000002, -9007199254740992},
	{1900000002, 9007199254740992},
	{1900000003, 9007199254740993},
	{1900000004, 9007199254740994},
	{1999999997, math.MaxInt64 - 1},
	{1999999998, math.MaxInt64},
}

type Obj struct{ k int }

// Tokens are per trace: dynamic tokens are numbered in order of appearance.
type Tokens struct {
	strs   []string
	strIx  map[string]int
	nums   []float64
	numIx  map[string]int
	ints   []int
	intIx  map[int]int
	objs   []*Obj
	objIx  map[*Obj]int
	approx bool // numbers off the grid are compared with 9 digits only
}

func newTokens() *Tokens {
	return &Tokens{strIx: map[string]int{}, numIx: map[string]int{}, intIx: map[int]int{}, objIx: map[*Obj]int{}}
}

func (t *Tokens) str(s string) int {
	k, ok := t.strIx[s]
	if !ok {
		k = len(t.strs)
		t.strs = append(t.strs, s)
		t.strIx[s] = k
	}
	return strBase + k
}

func (t *Tokens) float(x float64) int {
	if math.IsNaN(x) {
		return NAN
	}
	for _, b := range bigFloats {
		if b.v == x {
			return b.tok
		}
	}
	if math.Abs(x) <= gridMax {
		y := x * 256
		r := math.Round(y)
		if y == r || (t.approx && math.Abs(y-r) < 1e-6) {
			return int(r)
		}
	}
	key := strconv.FormatFloat(x, 'g', -1, 64)
	if t.approx {
		key = strconv.FormatFloat(x, 'g', 9, 64)
	}
	k, ok := t.numIx[key]
	if !ok {
		k = len(t.nums)
		t.nums = append(t.nums, x)
		t.numIx[key] = k
	}
	return numBase + k
}

func (t *Tokens) intTok(v int) int {
	if v >= -1048576 && v <= 1048576 {
		return v * 256
	}
	for _, b := range bigInts {
		if b.v == v {
			return b.tok
		}
	}
	k, ok := t.intIx[v]
	if !ok {
		k = len(t.ints)
		t.ints = append(t.ints, v)
		t.intIx[v] = k
	}
	if v < 0 {
		return -intBase - k
	}
	return intBase + k
}

func (t *Tokens) boolTok(v bool) int {
	if v {
		return 256
	}
	return 0
}

func (t *Tokens) obj(v interface{}) int {
	switch x := v.(type) {
	case nil:
		return NIL
	case string:
		return t.str(x)
	case *Obj:
		k, ok := t.objIx[x]
		if !ok {
			return BAD
		}
		return objBase + k
	}
	return BAD
}

// values of tokens
func (t *Tokens) toFloat(tok int) float64 {
	if tok == NAN {
		return math.NaN()
	}
	for _, b := range bigFloats {
		if b.tok == tok {
			return b.v
		}
	}
	if tok >= numBase && tok < numBase+len(t.nums) {
		return t.nums[tok-numBase]
	}
	return float64(tok) / 256
}
func (t *Tokens) toInt(tok int) int {
	for _, b := range bigInts {
		if b.tok == tok {
			return b.v
		}
	}
	if tok >= intBase && tok < intBase+len(t.ints) {
		return t.ints[tok-intBase]
	}
	if tok <= -intBase && tok > -intBase-len(t.ints) {
		return t.ints[-intBase-tok]
	}
	return tok / 256
}
func (t *Tokens) toObj(tok int) interface{} {
	if tok == NIL {
		return nil
	}
	if tok >= objBase {
		k := tok - objBase
		for len(t.objs) <= k {
			o := &Obj{len(t.objs)}
			t.objIx[o] = len(t.objs)
			t.objs = append(t.objs, o)
		}
		return t.objs[k]
	}
	return t.strs[tok-strBase]
}
func (t *Tokens) toStr(tok int) string { return t.strs[tok-strBase] }

// anything that is not an ordinary number
func onGrid(tok int) bool { return tok > -268435457 && tok < 268435457 }

func (t *Tokens) dump() (strs []string, nums []string, ints []string) {
	strs, nums, ints = []string{}, []string{}, []string{}
	for _, s := range t.strs {
		strs = append(strs, hex.EncodeToString([]byte(s)))
	}
	for _, x := range t.nums {
		nums = append(nums, strconv.FormatUint(math.Float64bits(x), 16))
	}
	for _, x := range t.ints {
		ints = append(ints, strconv.Itoa(x))
	}
	return
}
func (t *Tokens) load(strs, nums, ints []string) {
	for _, s := range strs {
		b, _ := hex.DecodeString(s)
		t.str(string(b))
	}
	for _, s := range nums {
		u, _ := strconv.ParseUint(s, 16, 64)
		t.float(math.Float64frombits(u))
	}
	for _, s := range ints {
		v, _ := strconv.Atoi(s)
		t.intTok(v)
	}
}

// param is a trained parameter: its token and two roundings
func (t *Tokens) param(name string, x float64) map[string]interface{} {
	clip := func(y float64) int {
		if math.IsNaN(y) || math.Abs(y) > 1e9 {
			return 1000000000
		}
		return int(math.Round(y))
	}
	return map[string]interface{}{"n": name, "tok": t.float(x), "q": clip(x * 65536), "s": clip(x * 1024), "t": clip(x * 256)}
}

func sortedKeys(m map[string]float64) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
