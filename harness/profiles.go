package main

func merge(ms ...map[string]int) map[string]int {
	r := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			r[k] += v
		}
	}
	return r
}

type W = map[string]int

var wNew = W{"New": 6}
var wViews = W{"View": 3, "ShallowCopy": 3, "IndexView": 4, "SliceView": 4, "MaskView": 3, "ReverseView": 3, "ColumnView": 3,
	"ShuffleView": 2, "ResetIndexView": 2, "SampleView": 2, "SortedView": 2, "TopView": 2}
var wSplits = W{"SplitView": 2, "SplitNView": 2, "SplitTrainTest": 2}
var wWrites = W{"SetMany": 8, "GetAcc": 2, "AccSet": 4, "AccGet": 2, "Overwrite": 6}
var wStruct = W{"Overwrite": 4, "Alloc": 4, "Drop": 3, "Rename": 4, "Convert": 3}
var wDetach = W{"Copy": 3, "DetachedView": 4, "Unshare": 4}
var wConcat = W{"ColumnConcatView": 3, "ColumnCopyConcat": 3, "ColumnSmartConcat": 3, "RowConcat": 3, "MergeRows": 2, "MergeColumns": 2, "TransferInto": 2}
var wRead = W{"CopyValues": 2, "SharedIndex": 1, "VecDense": 2, "LabelToInt": 2, "Dense": 4, "Iterate": 4, "Headers": 2}
var wText = W{"NewText": 3, "Encode": 3, "EncodeBack": 2, "HashStringsView": 3, "HashTable": 1}
var wMask = W{"SafeMasking": 3, "Mask": 4, "MaskSet": 3, "MaskCheck": 3, "MaskRace": 1}
var wCpu = W{"SetMaxCPU": 2}
var wCsv = W{"CsvWrite": 2, "CsvRoundTrip": 4, "CsvRead": 3, "CsvReadMany": 2, "CsvFault": 2}
var wComp = W{"ImputerFit": 4, "ImputerTransform": 4, "ScalerFit": 4, "ScalerTransform": 5, "HashFit": 2, "HashTransform": 3,
	"OneHotFit": 4, "OneHotTransform": 6, "AutoFit": 4, "AutoTransform": 5, "Columns": 2, "Json": 3,
	"LinFit": 2, "LinSet": 1, "Predict": 3, "Metric": 2}

func times(k int, m W) W {
	r := W{}
	for x, v := range m {
		r[x] = k * v
	}
	return r
}
func only(m W, keys ...string) W {
	r := W{}
	for _, k := range keys {
		r[k] = m[k]
	}
	return r
}

func profile(id string) *Profile {
	p := &Profile{steps: 45, maxFrames: 7, big: 4, missing: 15, bigVals: true}
	preBase := merge(wNew, W{"View": 1, "IndexView": 2, "SliceView": 1, "ReverseView": 1, "ColumnView": 1, "MaskView": 1,
		"Copy": 1, "DetachedView": 1, "ShuffleView": 1, "SplitView": 1, "SetMany": 2, "SetMaxCPU": 1, "ShallowCopy": 1})
	pre := func(types string) {
		p.pre, p.smallRows, p.big, p.bigVals = true, 45, 0, false
		p.types = types
		p.names = []string{"a", "b", "c", "d", "e"}
	}
	switch id {
	case "C01":
		p.w = merge(wNew, times(4, wViews), wSplits, wWrites, W{"SharedIndex": 1, "Drop": 1, "Rename": 1, "HashStringsView": 1, "Copy": 1, "Dense": 1, "RowConcat": 1})
		p.follow = 20
	case "C02":
		p.w = merge(wNew, wViews, times(6, wSplits), only(wWrites, "SetMany", "Overwrite"))
		p.big = 12
	case "C03":
		p.w = merge(wNew, only(wViews, "IndexView", "SliceView", "ReverseView", "ShuffleView", "ColumnView"), W{"SortedView": 20, "TopView": 24},
			only(wWrites, "SetMany"))
		p.types = "ffiiibo"
		p.missing = 4
		p.big = 10
		p.ordered = true
	case "C04":
		p.w = merge(wNew, times(2, wViews), times(4, wWrites), W{"Rename": 4, "ColumnConcatView": 6, "MergeColumns": 3, "TransferInto": 3,
			"DetachedView": 2, "Copy": 1, "SplitView": 2, "Unshare": 1, "ShallowCopy": 4})
		p.keeps = 30
	case "C05":
		p.w = merge(wNew, wViews, times(3, wWrites), times(5, wDetach), W{"RowConcat": 5, "ColumnCopyConcat": 5, "MergeRows": 4, "Rename": 5,
			"ColumnConcatView": 2, "ShallowCopy": 4, "ColumnView": 5, "Drop": 1})
		p.keeps = 15
	case "C06":
		p.w = merge(wNew, wViews, times(4, wStruct), only(wWrites, "SetMany"), wSplits, wDetach, W{"ShallowCopy": 5, "ColumnView": 5,
			"ColumnConcatView": 3, "HashStringsView": 2, "View": 5, "Encode": 1})
	case "C07":
		p.w = merge(wNew, wViews, wSplits, wWrites, times(2, wStruct), wDetach, wConcat, W{"Headers": 6}, times(2, wCpu), only(wText, "NewText", "Encode"))
		p.missing = 12
	case "C08":
		p.w = merge(wNew, times(2, wViews), wWrites, W{"ColumnConcatView": 18, "ColumnCopyConcat": 12, "ColumnSmartConcat": 14, "Rename": 4, "Drop": 2,
			"DetachedView": 3, "SplitView": 1, "Copy": 1})
	case "C09":
		p.w = merge(wNew, wViews, wSplits, wWrites, W{"RowConcat": 20, "MergeRows": 12, "Rename": 2, "Drop": 2, "Copy": 2, "Convert": 1, "NewText": 2})
	case "C10":
		p.w = merge(wNew, wViews, wSplits, times(5, wMask), W{"ShallowCopy": 3, "RowConcat": 3, "Copy": 2, "ColumnConcatView": 2, "MaskView": 4, "Drop": 1, "Alloc": 1, "DetachedView": 1})
		p.big = 8
	case "C11":
		p.w = merge(wNew, wViews, wSplits, only(wWrites, "SetMany"), times(5, wRead), W{"Copy": 1, "HashStringsView": 1, "Convert": 1})
		p.follow = 10
		p.big = 15
		p.types = "ffffiiibbbsso"
	case "C12":
		p.w = merge(wNew, wViews, only(wWrites, "SetMany"), W{"CsvWrite": 10, "CsvRoundTrip": 22, "NewText": 2, "RowConcat": 2, "SplitView": 1, "SetMaxCPU": 2, "Alloc": 1})
		p.big = 10
	case "C13":
		p.w = merge(W{"New": 1, "CsvRead": 40, "CsvReadMany": 3, "SetMany": 1, "SliceView": 1, "Dense": 1})
		p.steps, p.maxFrames = 30, 4
	case "C14":
		p.w = merge(wNew, W{"HashStringsView": 8, "OneHotFit": 6, "OneHotTransform": 6, "ScalerFit": 5, "ScalerTransform": 6, "ImputerFit": 5,
			"ImputerTransform": 4, "CsvRead": 6, "CsvReadMany": 8, "CsvWrite": 8, "SetMaxCPU": 4, "View": 1, "IndexView": 2, "ReverseView": 2, "HashTransform": 3, "HashFit": 2,
			"CsvFault": 2, "AutoFit": 2, "AutoTransform": 2})
		pre("fffiisssbo")
		p.wide = 4
	case "C15":
		p.w = merge(wNew, wViews, only(wWrites, "SetMany", "Overwrite"), W{"NewText": 16, "Encode": 22, "EncodeBack": 12, "SplitView": 1, "Copy": 2, "DetachedView": 1, "ColumnConcatView": 1, "Drop": 1})
		p.types = "ssssof"
		p.steps = 35
	case "C16":
		p.w = merge(wNew, wViews, wWrites, W{"HashStringsView": 30, "HashTable": 4, "HashBig": 1, "NewText": 4, "SetMaxCPU": 2, "Drop": 1, "Rename": 1, "HashFit": 2, "HashTransform": 4})
		p.types = "sssfibo"
		p.longs = true
		p.alike = true
	case "C17":
		p.w = merge(preBase, W{"OneHotFit": 12, "OneHotTransform": 30, "Columns": 2, "Json": 2, "SetMaxCPU": 2})
		pre("iiiiffsb")
		p.missing = 25
		p.names = []string{"a", "a1", "a11", "a_", "b"}
		p.cats = 16
	case "C18":
		p.w = merge(preBase, W{"ImputerFit": 10, "ImputerTransform": 12, "ScalerFit": 12, "ScalerTransform": 24, "Columns": 2, "Overwrite": 3, "IndexView": 4})
		pre("fffffib")
	case "C19":
		p.w = merge(preBase, W{"AutoFit": 25, "AutoTransform": 24, "Columns": 2, "Json": 2, "Rename": 1})
		pre("ffffiisssbo")
	case "C20":
		p.w = merge(preBase, wComp, W{"Json": 22, "Columns": 8})
		pre("fffffiiissbo")
	case "C21":
		p.w = merge(preBase, W{"LinFit": 12, "LinSet": 3, "Predict": 24, "Metric": 8, "Json": 2, "Columns": 1, "Overwrite": 3})
		pre("ffffbbis")
		p.names = []string{"a", "b", "c", "d", "_target"}
		p.bigPredict = true
		p.missing = 6
	case "C22":
		p.w = merge(wNew, wViews, W{"CsvFault": 60, "CsvWrite": 3, "CsvRead": 4, "SetMaxCPU": 2, "SetMany": 1})
		p.big = 10
	case "C23":
		p.w = merge(wNew, times(2, wViews), wSplits, only(wWrites, "SetMany", "Overwrite"), W{"Print": 40, "ShortNames": 10, "Debug": 1, "Rename": 4, "Drop": 1,
			"SetMaxCPU": 2, "Encode": 1, "HashStringsView": 1, "ColumnConcatView": 1, "Copy": 1, "Convert": 1})
		p.types = "fffiibbsso"
		p.long = true
		p.names = []string{"a", "ab", "abc", "abcd", "abcde", "abd", "xyzzy", "temperature", "temperate", "100%", "%d", "b c", "%", "%s%v"}
	case "C24":
		p.w = W{"LinTrain": 12, "SetMany": 1, "Copy": 1, "View": 1}
		pre("fffbbis")
		p.missing = 5
	case "C25":
		p.w = merge(preBase, times(2, wNew), W{"Par": 30, "OneHotFit": 2, "HashFit": 1, "ScalerFit": 2, "ImputerFit": 2, "AutoFit": 2, "LinFit": 4, "GetAcc": 1, "SafeMasking": 1})
		pre("fffiisssbo")
		p.par = "C25"
	case "C25in":
		p.w = merge(times(3, wViews), wSplits, wWrites, wStruct, wDetach, wConcat, times(2, wRead), W{"HashStringsView": 6, "CsvWrite": 3, "CsvRoundTrip": 3, "CsvRead": 2, "CsvReadMany": 1,
			"CsvFault": 1, "New": 1, "IndexView": 8}, times(2, wComp))
		pre("fffiisssbo")
		p.maxFrames = 30
	case "C25p": // the same, components above all
		p.w = merge(preBase, times(2, wNew), W{"Par": 24, "OneHotFit": 2, "HashFit": 1, "ScalerFit": 2, "ImputerFit": 2, "AutoFit": 1, "LinFit": 10, "Json": 1})
		pre("ffffbbis")
		p.names = []string{"a", "b", "c", "d", "_target"}
		p.missing = 6
		p.par = "C25p"
	case "C25pin":
		p.w = merge(times(2, wComp), W{"Predict": 40, "Metric": 6, "HashStringsView": 4, "SortedView": 6, "TopView": 4, "IndexView": 4, "Dense": 6, "VecDense": 2,
			"CopyValues": 2, "LabelToInt": 2, "Iterate": 4})
		pre("ffffbbis")
		p.names = []string{"a", "b", "c", "d", "_target"}
		p.missing = 6
		p.maxFrames = 30
	case "C26":
		p.w = merge(wNew, times(2, wViews), wSplits, wWrites, wStruct, wDetach, wConcat, W{"Misuse": 90, "HashStringsView": 1, "CsvRead": 1})
	case "ALL":
		p.w = merge(wNew, wViews, wSplits, wWrites, wStruct, wDetach, wConcat, wRead, wText, wMask, wCpu, wCsv)
		p.steps = 70
	default:
		panic("unknown profile " + id)
	}
	if p.pre {
		p.steps = 40
	}
	switch id {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C23":
		p.huge = 2
	}
	return p
}
