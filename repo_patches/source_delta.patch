From dd5327dfb75cedd47d81c6130846f39eaba47fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 01/44] fix: unordered CSV writing of a view wrote its first
 allocated row repeatedly

---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From 38df626fc72e23cb4ecbf9f5aba4936924d3486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 02/44] fix: Drop, Rename and AllocStrings on a view altered
 the structure of its parent

---
 dataframe/raw_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..1f75742 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
@@ -481,6 +484,7 @@ func (data *RawData) reallocateMaps() {
   data.ints = tmp.ints
   data.floats = tmp.floats
   data.objects = tmp.objects
+  data.stringHeader = tmp.stringHeader
   data.shared = tmp.shared  // all columns
   data.sharedMaps = false
 }
-- 
2.43.0


From 6f4ddb04bf42dc48bb4f17df64d88d5509de0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 03/44] fix: BoolToFloats left the converted column among the
 bool columns

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 1f75742..851e7e6 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -462,7 +462,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From f6addcf80d01ffb3fc2792d99deb37fd6e4f7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 04/44] fix: SortedView lost the precision of large integers

---
 dataframe/view.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..872e20b 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -261,20 +261,20 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
       }
     }
     indices = append(first, last...)
-  } else {
+  } else if vals, ok := df.ints[byColumn]; ok {
+    // not sorted as floats because float64 cannot hold every integer exactly
+    indices = utils.MakeRange(0, len(df.indices), 1)
+    sort.SliceStable(indices, func(a, b int) bool {
+      return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
+    })
+  } else if vals, ok := df.floats[byColumn]; ok {
     cpy := make([]float64, len(df.indices))
-    if vals, ok := df.floats[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = vals[i]
-      }
-    } else if vals, ok := df.ints[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = float64(vals[i])
-      }
-    } else {
-      panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
+    for j, i := range df.indices {
+      cpy[j] = vals[i]
     }
     indices = utils.FloatArgSort(cpy, false) // readonly=false: ok to change cpy
+  } else {
+    panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
   }
   return df.IndexView(indices)
 }
-- 
2.43.0


From aececee755e786d5879a093af53b87a9047f6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 05/44] fix: DenseMatrix did not grow its buffer enough to hold
 a larger dataframe

---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From 589502a4cb745886932ef5f7754ea81c5dedc83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 06/44] fix: hashing every column of a dataframe altered the
 dataframe itself

---
 dataframe/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 872e20b..f1598fd 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -363,8 +363,8 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
     return df.View()
   }
   // allocate the new columns and exclude the string columns
-  otherColumns := df.Header().Except(columns...).NameList()
-  result := df.ColumnView(otherColumns...)
+  result := df.View()
+  result.Drop(columns...)
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From 56a767774043c3304810cf2f91567cb8a201a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 07/44] fix: MergeRawDataRows forgot which columns are strings
 and their encoding

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 851e7e6..1d8daac 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -391,6 +391,8 @@ func MergeRawDataRows(list []*RawData) *RawData {
   if len(list) == 0 {
     return result
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
   // pre-allocate the rows to avoid new allocations by append(arr, ...values)
   size := 0
   for _, data := range list {
@@ -423,6 +425,7 @@ func MergeRawDataRows(list []*RawData) *RawData {
     for col, vals := range data.objects {
       result.objects[col] = append(result.objects[col], vals...)
     }
+    result.stringHeader = result.stringHeader.And(data.stringHeader)
   }
   return result
 }
-- 
2.43.0


From 9ba79e7c13926ff66fd810b26d3460eac211f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 08/44] fix: FromCSVFilePattern hung when there are far more
 CPUs than files

---
 dataframe/csv_parsing.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..6018fdf 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -291,8 +291,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   if cpuPerFile == 0 {
     cpuPerFile = 1
   }
+  maxCPU := options.MaxCPU
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
@@ -305,7 +306,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  merged := MergeRawDataRows(data)
+  merged.SetMaxCPU(maxCPU)
+  return merged, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-- 
2.43.0


From f3626ee46831ec954b32097d15d8d3e87d72505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 09/44] fix: parallel operations hung on a column with an empty
 name

---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 utils/string_q.go              | 8 +++-----
 6 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 6018fdf..f91121a 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -312,7 +312,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path, more := q.Next(); more; path, more = q.Next() {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index f1598fd..481eee2 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -330,7 +330,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col, more := columnQ.Next(); more; col, more = columnQ.Next() {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..978ce68 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..37d54ae 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol, more := q.Next(); more; catCol, more = q.Next() {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..ffacb23 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..6e1d4c4 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -58,12 +58,10 @@ func (q StringQ) Wait() {
   }
 }
 
-func (q StringQ) Next() string {
+// Next returns the next key, or false if there is no more key to process.
+func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
-  if more {
-    return col
-  }
-  return ""
+  return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
-- 
2.43.0


From c468881b8c4be22ec2237e435b1a0e3608714a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 10/44] fix: ColumnConcatView accepted dataframes with
 different rows

---
 dataframe/concat.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..94fca61 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -119,16 +118,23 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       break
     }
   }
-  if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
-    for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+  ref := dfs[0].indices
+  for _, df := range dfs[1:] {
+    if len(df.indices) != len(ref) {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)",
+                             len(ref), len(df.indices))
+    }
+    if views {
+      for j, i := range df.indices {
+        if i != ref[j] {
+          return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+        }
       }
     }
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
-- 
2.43.0


From b3cc64bc50d48e0f02aff4723902f16eae418269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 11/44] fix: ColumnConcatView lost the string columns if the
 first dataframe has none

---
 dataframe/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 94fca61..0b59377 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -152,7 +152,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From dbdaa51d84fb56355252ec2136e89dbecee9bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 12/44] fix: RowConcat listed string columns that are not in
 its result

---
 dataframe/concat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 0b59377..f3022a4 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -35,7 +35,11 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   // merge
   offset := 0
   for k, df := range dfs {
-    result.stringHeader = result.stringHeader.And(df.stringHeader)
+    for col := range df.stringHeader.get() {
+      if _, ok := result.objects[col]; ok {
+        result.stringHeader.add(col)
+      }
+    }
     // TODO: optimize this when !df.indexViewed
     for col, vals := range result.floats {
       if from, ok := df.floats[col]; ok {
-- 
2.43.0


From c012b3f6e281f3af9c74e2022b9286867223ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 13/44] fix: SplitNView returned too few dataframes or
 dataframes without columns

---
 dataframe/view.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 481eee2..cc86cd6 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -170,7 +170,7 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
@@ -179,16 +179,13 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if nRows % n != 0 {
     batchSize++
   }
-  result := df.SplitView(batchSize)
-  missing := n - len(result)
-  if missing > 0 {  // expected to happen when batchSize = 1
-    // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
-    emptyDFs := make([]*DataFrame, missing)
-    for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
-    }
-    result = append(result, emptyDFs...)
+  var result []*DataFrame
+  if nRows > 0 {
+    result = df.SplitView(batchSize)
+  }
+  // fill up the rest with empty views
+  for len(result) < n {
+    result = append(result, df.SliceView(nRows, nRows))
   }
   return result
 }
-- 
2.43.0


From db8bf2050bd0835db82608d16c944d4e1172e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 14/44] fix: To1CSV did not report the failure to write a
 dataframe without rows

---
 dataframe/csv_writing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index d665621..cd2cb81 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -105,7 +104,8 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  writer.Flush()
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From 21014e7c8cc4f26db7c6724184348036861eecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 15/44] fix: empty strings of single-column dataframes were
 lost when read back from CSV

---
 dataframe/csv_writing.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index cd2cb81..985aa35 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -48,7 +48,7 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
   fCols := df.FloatHeader().NameList()
   sCols := df.StringHeader().NameList()
   colNames := append(append(append(bCols, iCols...), fCols...), sCols...)
-  err := writer.Write(colNames)
+  err := writeRecords(writer, r, [][]string{colNames})
   if err != nil {
     return err
   }
@@ -99,11 +99,37 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       col++
     }
     // write the batch
-    err := writer.WriteAll(batch[:end - j])
+    err := writeRecords(writer, r, batch[:end - j])
     if err != nil {
       return err
     }
   }
+  return nil
+}
+
+// writeRecords is equivalent to writer.WriteAll(records), except that it quotes
+// the empty string when it is alone in a record. Without quotes, it would make
+// a blank line and CSV readers skip blank lines.
+func writeRecords(writer *csv.Writer, w io.Writer, records [][]string) error {
+  for _, record := range records {
+    if len(record) != 1 || len(record[0]) > 0 {
+      if err := writer.Write(record); err != nil {
+        return err
+      }
+      continue
+    }
+    writer.Flush()
+    if err := writer.Error(); err != nil {
+      return err
+    }
+    line := "\"\"\n"
+    if writer.UseCRLF {
+      line = "\"\"\r\n"
+    }
+    if _, err := io.WriteString(w, line); err != nil {
+      return err
+    }
+  }
   writer.Flush()
   return writer.Error()
 }
-- 
2.43.0


From f06d29cc0381a3c26dca0ec0d53de0ef8e3e8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 16/44] fix: Copy, ShallowCopy and RowConcat forgot the text
 encoding

---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f3022a4..e73cd05 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -20,6 +20,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..f31c115 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -113,6 +113,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
@@ -129,6 +130,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
   result.stringHeader = df.stringHeader.Copy()
+  result.textEncoding = df.textEncoding
 
   if df.indexViewed {
     for col, v := range df.objects {
-- 
2.43.0


From 965d4650e228f5490cd2c542c2401a1802ac6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 17/44] fix: the min-max scaler multiplied by the range instead
 of dividing by it

---
 preprocessing/scaler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ffacb23..1188872 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -54,8 +54,14 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           min = val
         }
       }
-      shift := -min
-      scale := max - min
+      shift := 0.0
+      scale := 1.0
+      if max >= min { // at least one value is not missing
+        shift = -min
+      }
+      if max > min {
+        scale = 1 / (max - min)
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From f56a8d5085c4683b31925f515dd4f80a124f72e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 18/44] fix: the scaler transformed the repeated rows of a view
 more than once

---
 preprocessing/scaler.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 1188872..96b9a4b 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -129,7 +129,18 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
+    var done map[int]bool // rows already scaled, as views can repeat rows
+    if df.AreIndicesAltered() {
+      done = make(map[int]bool)
+    }
     for i := 0; i < access.Size(); i++ {
+      if done != nil {
+        row := access.SharedIndex(i)
+        if done[row] {
+          continue
+        }
+        done[row] = true
+      }
       access.Set(i, (access.Get(i) + shift) * scale)
     }
   }
-- 
2.43.0


From c71cee0314f88a55d9d4b53333e079cc230a55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 19/44] fix: Encode converted repeated rows twice and could
 fail to revert its changes

---
 dataframe/inplace.go | 49 ++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..fd7b235 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,31 +4,33 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
-  for j, i := range indices {  // others are left to nil
-    if values[i] != nil {
+// changeEncoding returns the re-encoded strings, mapped by backing row.
+func changeEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
+                    encoder *encoding.Encoder) (map[int]string, error) {
+  result := make(map[int]string)
+  for _, i := range indices {  // others are left to nil
+    if _, done := result[i]; !done && values[i] != nil {
       var err error
       v := values[i].(string)
       // 1. convert to UTF-8 if not already UTF-8
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
-      // 3. set the new value
-      values[i] = v
+      // 3. store the new value
+      result[i] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -49,29 +51,22 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
   if newEncoding != nil {
     encoder = newEncoding.NewEncoder()
   }
+  // change nothing until everything is known to be convertible
   colNames := df.stringHeader.NameList()
-  for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+  encoded := make([]map[int]string, len(colNames))
+  for k, col := range colNames {
+    var err error
+    encoded[k], err = changeEncoding(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
   }
+  for k, col := range colNames {
+    values := df.objects[col]
+    for i, v := range encoded[k] {
+      values[i] = v
+    }
+  }
   df.textEncoding = newEncoding
 
   return nil
-- 
2.43.0


From bfacc3372391b542ea847b93b6d6d30a1849e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 20/44] fix: AutoPreprocessor crashed unless both imputing and
 scaling were enabled

---
 preprocessing/auto_preprocessor.go | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..8cf3553 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,17 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string
+  if preproc.Imputer != nil {
+    cols = append(cols, preproc.Imputer.TransformedColumns()...)
+  } else if preproc.Scaler != nil {
+    cols = append(cols, preproc.Scaler.TransformedColumns()...)
+  }
+  if preproc.StringToInt != nil {
+    cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  } else if preproc.IntToBool != nil {
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
@@ -125,13 +134,19 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       return nil, err
     }
   } else if !opt.Imputing && !opt.Scaling {
-    return df, nil
+    return df.View(), nil
   }
   start := time.Now()
   df = df.View()
-  df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if len(floatCols) > 0 {
+    df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
+  }
+  if preproc.Imputer != nil {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if preproc.Scaler != nil {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
@@ -145,10 +160,15 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
 // share their data with the columns of the original dataframe.
 func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
   // prepare transformations in place
+  df = df.View()
+  var floatCols []string
   if preproc.Imputer != nil {
-    df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
+    floatCols = preproc.Imputer.TransformedColumns()
   } else if preproc.Scaler != nil {
-    df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
+    floatCols = preproc.Scaler.TransformedColumns()
+  }
+  if len(floatCols) > 0 {
+    df.Unshare(floatCols...)
   }
   // transformations
   if preproc.Imputer != nil {
-- 
2.43.0


From fbea596d8de71e1e36f35724fb4b840426f2f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 21/44] fix: AutoPreprocessor transformed excluded columns

---
 preprocessing/auto_preprocessor.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 8cf3553..b668905 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -78,7 +78,8 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
   if opt.Imputing || opt.Scaling {
     start := time.Now()
-    floatsOnly := df.ColumnView(floatCols...)
+    floatsOnly := df.View()
+    floatsOnly.Drop(df.Header().Except(floatCols...).NameList()...)
     if opt.Imputing {
       preproc.Imputer = NewFloatImputer(FloatImputerOptions{})
       preproc.Imputer.Fit(floatsOnly)
@@ -94,10 +95,10 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  if stringCols := df.StringHeader().Except(opt.Exclude...).NameList(); len(stringCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(df.ColumnView(stringCols...))
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -108,7 +109,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
-- 
2.43.0


From 70d97e5176689489227036963b4ad05d12c6cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 22/44] fix: AutoPreprocessor kept parts of its previous
 training

---
 preprocessing/auto_preprocessor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index b668905..427754d 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -75,6 +75,7 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  *preproc = AutoPreprocessor{options: opt} // forget any previous training
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
   if opt.Imputing || opt.Scaling {
     start := time.Now()
-- 
2.43.0


From c8bab759d0b6524dd41cf9ab61c5c9743751b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 23/44] fix: EmptyDataFrame did not replace a non-positive
 number of CPUs

---
 dataframe/dataframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index f31c115..7a4be37 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,7 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
-- 
2.43.0


From 9de15ba02da390386ef3bb2f418c9f13fff4d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 24/44] fix: imputers and scalers fitted on all-missing columns
 could not be serialized

---
 preprocessing/float_imputer.go | 5 ++++-
 preprocessing/scaler.go        | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 978ce68..d00e7c8 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -60,7 +60,10 @@ func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ
         n++
       }
     }
-    fallback := sum / float64(n)
+    fallback := 0.0 // if all the values are missing
+    if n > 0 {
+      fallback = sum / float64(n)
+    }
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
   }
 }
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 96b9a4b..1282e54 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -75,7 +75,9 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           n++
         }
       }
-      mean /= float64(n)
+      if n > 0 { // otherwise all the values are missing
+        mean /= float64(n)
+      }
       if opt.Centering {
         shift := -mean
         result.shift = &shift
-- 
2.43.0


From 2d06cd1e53a730995084d051cf69e090fea207b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 25/44] fix: renaming a column to its own name removed the
 column

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 1d8daac..ccdf61a 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -248,6 +248,9 @@ func (data *RawData) Drop(columns ...string) {
 //  df.View().Rename("apples", "oranges").Ints("oranges").Set(0, 42)
 // It will change df's number of apples to 42 at index=0.
 func (data *RawData) Rename(oldName string, newName string) {
+  if oldName == newName && data.Header().NameSet()[oldName] {
+    return
+  }
   if data.sharedMaps {
     data.reallocateMaps()
   }
-- 
2.43.0


From c73d028f55394b336a641a2b88f5533522ac3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 26/44] fix: a column could end up with two types when replaced
 by a column of another type

---
 dataframe/raw_data.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index ccdf61a..eeab3ad 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -254,6 +254,9 @@ func (data *RawData) Rename(oldName string, newName string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  if data.Header().NameSet()[oldName] {
+    data.Drop(newName) // it can be of another type
+  }
   if vals, ok := data.floats[oldName]; ok {
     data.floats[newName] = vals
     delete(data.floats, oldName)
@@ -285,6 +288,7 @@ func (data *RawData) AllocInts(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // they can be of another type
   for _, col := range columns {
     data.ints[col] = make([]int, nRows)
   }
@@ -296,6 +300,7 @@ func (data *RawData) AllocFloats(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // they can be of another type
   for _, col := range columns {
     data.floats[col] = make([]float64, nRows)
   }
@@ -307,6 +312,7 @@ func (data *RawData) AllocBools(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // they can be of another type
   for _, col := range columns {
     data.bools[col] = make([]bool, nRows)
   }
@@ -318,6 +324,7 @@ func (data *RawData) AllocObjects(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // they can be of another type
   for _, col := range columns {
     data.objects[col] = make([]interface{}, nRows)
   }
@@ -348,6 +355,23 @@ func (data *RawData) TransferRawDataFrom(from *RawData) {
   } else {
     data.dataUID |= from.dataUID
   }
+  stringCols := from.stringHeader.NameList()
+  // columns of the same name can be of another type
+  for col := range from.Header().NameSet() {
+    if _, ok := from.bools[col]; !ok {
+      delete(data.bools, col)
+    }
+    if _, ok := from.ints[col]; !ok {
+      delete(data.ints, col)
+    }
+    if _, ok := from.floats[col]; !ok {
+      delete(data.floats, col)
+    }
+    if _, ok := from.objects[col]; !ok {
+      delete(data.objects, col)
+    }
+    data.stringHeader.remove(col)
+  }
   for col, vals := range from.bools {
     data.bools[col] = vals
     data.shared.add(col)
@@ -364,9 +388,7 @@ func (data *RawData) TransferRawDataFrom(from *RawData) {
     data.objects[col] = vals
     data.shared.add(col)
   }
-  for col := range from.stringHeader.get() {
-    data.stringHeader.add(col)
-  }
+  data.stringHeader.add(stringCols...)
 }
 
 // MergeRawDataColumns transfers data from multiple RawData structures.
-- 
2.43.0


From fac3642dee0c2362218e139c2bea3213537f5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 27/44] fix: TopView returned the dataframe itself instead of a
 view

---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index cc86cd6..3d3ad71 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -290,7 +290,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
-      return df
+      return df.View()
     } else {
       n = len(df.indices)
     }
-- 
2.43.0


From d5396ad966f6839e3c6ff3031ae7fc2ffbc10298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 28/44] fix: Unshare could leave columns shared after
 ColumnView or ToDataFrame

---
 dataframe/raw_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index eeab3ad..230ebe9 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -137,6 +137,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.ints = data.ints
   result.maxCPU = data.maxCPU
   result.stringHeader = data.stringHeader
+  result.shared = data.shared.Copy()
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
   result.dataUID = data.dataUID
@@ -524,6 +525,7 @@ func (data *RawData) allocateEmptyMaps() {
   data.ints = make(map[string][]int)
   data.dataUID = generateDataUID()
   data.sharedMaps = false
+  data.shared = ColumnHeader{}
   data.stringHeader = ColumnHeader{}
   data.resetStructureUID()
 }
-- 
2.43.0


From 6f47f0edd95472764917a6d1dd475078bbbbe5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 29/44] fix: LinearRegressor.Fit did not replace zero
 parameters by default values

---
 algorithms/linear_regression.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..d524d6b 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -55,6 +55,16 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  // default values
+  if params.Epochs == 0 {
+    params.Epochs = 1
+  }
+  if params.LR == 0 {
+    params.LR = 0.0001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 64
+  }
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
-- 
2.43.0


From 2b50440b06ed6c493fb5dd504bf13792baa36e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 30/44] fix: BoolAsFloat and BinaryAsFloat did not read bool
 columns as documented

---
 dataframe/csv_parsing.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index f91121a..72310ce 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -134,10 +134,19 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
-      data.bools[colName] = toBool(records, col)
+    if isBool(records, col) {
+      values := toBool(records, col)
+      if spec.BoolAsFloat || (spec.BinaryAsFloat && isBinary(records, col)) {
+        floats := make([]float64, len(values))
+        for row, v := range values {
+          if v {
+            floats[row] = 1.0
+          }
+        }
+        data.floats[colName] = floats
+      } else {
+        data.bools[colName] = values
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From 2c003798da232fad97c6a8117dea7d68886a299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 31/44] fix: FromCSV crashed when the given header is longer
 than the records

---
 dataframe/csv_parsing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 72310ce..ed7935e 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -1,6 +1,7 @@
 package dataframe
 
 import (
+  "fmt"
   "runtime"
   "encoding/csv"
   "math"
@@ -218,6 +219,10 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if err != nil {
     return nil, err
   }
+  if len(records) > 0 && len(records[0]) < len(header) {
+    return nil, fmt.Errorf("the CSV has %d columns. Expected: %d",
+                           len(records[0]), len(header))
+  }
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
-- 
2.43.0


From 8b78f9d3ac5fb7dfde961f65bacb7e894e14e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 32/44] fix: OneHotEncoder.Fit crashed when
 SharedSeparateCategory is combined with ReturnError

---
 preprocessing/one_hot.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 37d54ae..508c119 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -229,6 +229,13 @@ func (encoder *OneHotEncoder) TransformedColumns() []string {
 }
 
 func (opt* OneHotOptions) fix() {
+  // there is no category to share with ReturnError
+  if opt.MissingPolicy == SharedSeparateCategory && opt.UnknownPolicy == ReturnError {
+    opt.MissingPolicy = SeparateCategory
+  }
+  if opt.UnknownPolicy == SharedSeparateCategory && opt.MissingPolicy == ReturnError {
+    opt.UnknownPolicy = SeparateCategory
+  }
   // make sure MissingPolicy == Shared never happen
   if opt.MissingPolicy == SharedSeparateCategory {
     if opt.UnknownPolicy != SharedSeparateCategory {
-- 
2.43.0


From d555d185fd36b6c93fe86c13cf43ad06bd240729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 33/44] fix: Predict altered the _target column and kept a
 result column of another type

---
 algorithms/linear_regression.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index d524d6b..3cf3bc3 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -175,11 +175,14 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
-  // write the result in the dataframe
+  // unscale the predictions
+  builder := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
+  reg.TargetScaler.InverseTransformInplace(builder.SetFloats("_target", pred).ToDataFrame())
+
+  // write the result in a new column of the dataframe
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.AllocFloats(resultColumn)
+  result.OverwriteFloats64(resultColumn, pred)
 
   return result, nil
 }
-- 
2.43.0


From fe4a61a84bc6e9d718a123a4dedd2b1cb990257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 34/44] fix: LinearRegressor.Fit confused a feature named
 _target with the target

---
 algorithms/linear_regression.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 3cf3bc3..dadab0d 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -72,12 +72,13 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   // copy the target to another column before scaling it in-place
   start := time.Now()
   df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(targetColumn).Copy()
+  targetDF.Rename(targetColumn, "_target")
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
-  reg.TargetScaler.TransformInplace(df)
+  reg.TargetScaler.TransformInplace(targetDF)
+  df.OverwriteFloats64(targetColumn, targetDF.Floats("_target").VecDense().RawVector().Data)
   if params.Verbose {
     log.Printf("training+running Target Scaler took: %s", time.Since(start))
   }
@@ -115,7 +116,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     for _, batch := range batches {
       batchSize := batch.NumRows()
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(targetColumn).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
-- 
2.43.0


From 74e69b0f2999fa50fa7c43aa06f053d283147c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 35/44] fix: columns could not be allocated on a dataframe that
 has rows but no column

---
 dataframe/dataframe.go | 2 ++
 dataframe/inplace.go   | 1 +
 dataframe/raw_data.go  | 5 ++++-
 dataframe/view.go      | 1 +
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 7a4be37..939ace7 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -34,6 +34,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   if nRows > 0 {
     result.mask = make([]bool, nRows)
     result.indices = utils.MakeRange(0, nRows, 1)
+    result.emptyRows = nRows
   }
   return result
 }
@@ -114,6 +115,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.mask = df.mask
   result.indexViewed = df.indexViewed
   result.textEncoding = df.textEncoding
+  result.emptyRows = df.emptyRows
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index fd7b235..9ef89b8 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -216,6 +216,7 @@ func (df *DataFrame) cut(from int, to int) *DataFrame {
       df.reallocateMaps()
     }
     df.indices = df.indices[:to - from]  // same as range(0, to-from)
+    df.emptyRows = to - from
     for col, vals := range df.floats {
       df.floats[col] = vals[from:to]
       df.shared.add(col)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 230ebe9..161994c 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -30,6 +30,8 @@ type RawData struct {
   // maximum number of CPUs utilized to perform operations
   // if MaxCPU <= 0 => MaxCPU = runtime.NumCPU()
   maxCPU int
+  // number of allocated rows if there is no column to tell it
+  emptyRows int
   // for debugging
   structureUID uint16
   dataUID uint64
@@ -98,7 +100,7 @@ func (data *RawData) NumAllocatedRows() int {
   for _, vals := range data.bools {
     return len(vals)
   }
-  return 0
+  return data.emptyRows
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
@@ -233,6 +235,7 @@ func (data *RawData) Drop(columns ...string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  data.emptyRows = data.NumAllocatedRows()
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
diff --git a/dataframe/view.go b/dataframe/view.go
index 3d3ad71..f1fdc53 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -94,6 +94,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
   result := df.View()
   result.allocateEmptyMaps()
   result.dataUID = df.dataUID
+  result.emptyRows = df.NumAllocatedRows()
 
   // set of column to select
   colSet := utils.ToStringSet(columns)
-- 
2.43.0


From 4bd6c7d3d2c8e7b04143823e09ca1fd469ea7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 36/44] fix: Predict crashed on a dataframe without rows

---
 algorithms/linear_regression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index dadab0d..5a3a503 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -169,6 +169,9 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
   // prediction
   batching := dataframe.NewDense64Batching(reg.Features)
   for i, batch := range df.SplitView(batchSize) {
+    if batch.NumRows() == 0 {
+      break // gonum doesn't support empty matrices
+    }
     rows := batching.DenseMatrix(batch)
     offset := i * batchSize
     yData := pred[offset:offset+batch.NumRows()]
-- 
2.43.0


From d9a3b9dd4833fffdc88fb913a2f9a5e58fae3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 37/44] hooks: verification points in the string queue, guarded
 by build tag verif

---
 utils/string_q.go  |  7 +++++++
 utils/verif_off.go |  6 ++++++
 utils/verif_on.go  | 20 ++++++++++++++++++++
 3 files changed, 33 insertions(+)
 create mode 100644 utils/verif_off.go
 create mode 100644 utils/verif_on.go

diff --git a/utils/string_q.go b/utils/string_q.go
index 6e1d4c4..64cb749 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -61,9 +61,16 @@ func (q StringQ) Wait() {
 // Next returns the next key, or false if there is no more key to process.
 func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
+  if more {
+    verifPoint("next", col)
+  } else {
+    verifPoint("exit", "")
+  }
   return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
+  verifPoint("notify", err.Key)
   q.Errors <- err
+  verifPoint("notified", err.Key)
 }
diff --git a/utils/verif_off.go b/utils/verif_off.go
new file mode 100644
index 0000000..690bec3
--- /dev/null
+++ b/utils/verif_off.go
@@ -0,0 +1,6 @@
+// +build !verif
+
+package utils
+
+// verifPoint does nothing unless built with the tag "verif".
+func verifPoint(op string, key string) {}
diff --git a/utils/verif_on.go b/utils/verif_on.go
new file mode 100644
index 0000000..c960af9
--- /dev/null
+++ b/utils/verif_on.go
@@ -0,0 +1,20 @@
+// +build verif
+
+package utils
+
+import "sync/atomic"
+
+var verifHook atomic.Value
+
+// SetVerifHook installs a function called by the workers of string queues:
+// op is "next" after taking a key, "exit" when there is no key left, "notify"
+// before pushing a result and "notified" after pushing it.
+func SetVerifHook(hook func(op string, key string)) {
+  verifHook.Store(hook)
+}
+
+func verifPoint(op string, key string) {
+  if hook, ok := verifHook.Load().(func(op string, key string)); ok && hook != nil {
+    hook(op, key)
+  }
+}
-- 
2.43.0


From b27b42b96262eaa91e0e2aebc3a5928dc4fe2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 38/44] fix: Overwrite functions replaced existing columns
 without rows

---
 dataframe/inplace.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 9ef89b8..6f05ca0 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -82,8 +82,8 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
 //  }
 func (df *DataFrame) OverwriteInts(colName string, values []int) {
   df.debugPrint("overwriting ints on")
-  col := df.ints[colName]
-  if len(col) == 0 {
+  col, ok := df.ints[colName]
+  if !ok {
     df.AllocInts(colName)
     col = df.ints[colName]
   }
@@ -102,8 +102,8 @@ func (df *DataFrame) OverwriteInts(colName string, values []int) {
 //  }
 func (df *DataFrame) OverwriteFloats64(colName string, values []float64) {
   df.debugPrint("overwriting floats64 on")
-  col := df.floats[colName]
-  if len(col) == 0 {
+  col, ok := df.floats[colName]
+  if !ok {
     df.AllocFloats(colName)
     col = df.floats[colName]
   }
@@ -122,8 +122,8 @@ func (df *DataFrame) OverwriteFloats64(colName string, values []float64) {
 //  }
 func (df *DataFrame) OverwriteFloats32(colName string, values []float32) {
   df.debugPrint("overwriting floats32 on")
-  col := df.floats[colName]
-  if len(col) == 0 {
+  col, ok := df.floats[colName]
+  if !ok {
     df.AllocFloats(colName)
     col = df.floats[colName]
   }
@@ -142,8 +142,8 @@ func (df *DataFrame) OverwriteFloats32(colName string, values []float32) {
 //  }
 func (df *DataFrame) OverwriteBools(colName string, values []bool) {
   df.debugPrint("overwriting bools on")
-  col := df.bools[colName]
-  if len(col) == 0 {
+  col, ok := df.bools[colName]
+  if !ok {
     df.AllocBools(colName)
     col = df.bools[colName]
   }
@@ -166,8 +166,8 @@ func (df *DataFrame) OverwriteBools(colName string, values []bool) {
 func (df *DataFrame) OverwriteObjects(colName string, values []interface{},
                                       objectType ObjectType) {
   df.debugPrint("overwriting objects on")
-  col := df.objects[colName]
-  if len(col) == 0 {
+  col, ok := df.objects[colName]
+  if !ok {
     if objectType == 1 {
       df.AllocStrings(colName)
     } else {
@@ -193,8 +193,8 @@ func (df *DataFrame) OverwriteObjects(colName string, values []interface{},
 // instead.
 func (df *DataFrame) OverwriteStrings(colName string, values []string) {
   df.debugPrint("overwriting strings on")
-  col := df.objects[colName]
-  if len(col) == 0 {
+  col, ok := df.objects[colName]
+  if !ok {
     df.AllocStrings(colName)
     col = df.objects[colName]
   }
-- 
2.43.0


From aa8a339d55d51053eedc14fb23c879ad7078f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 39/44] fix: FromCSVFilePattern inferred column types file by
 file, crashing when files differ

---
 dataframe/csv_parsing.go | 89 +++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 19 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index ed7935e..642d8fb 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -187,6 +187,20 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
 // a float column. Float missing values are replaced with NaN.
 // - If none of the above match, the column is stored as a string column.
 func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
+  content, err := readCSV(r, options)
+  if err != nil {
+    return nil, err
+  }
+  return inferTypes(content.header, content.records, options)
+}
+
+// csvContent is what a CSV file contains, before any type conversion.
+type csvContent struct {
+  header  []string
+  records [][]string
+}
+
+func readCSV(r io.Reader, options CSVReadingSpec) (*csvContent, error) {
   reader := csv.NewReader(r)
   reader.LazyQuotes = options.LazyQuotes
   reader.TrimLeadingSpace = options.TrimLeadingSpace
@@ -196,9 +210,6 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if options.Comment != 0 {
     reader.Comment = options.Comment
   }
-  // missing values
-  missingVals := utils.ToStringSet(options.MissingValues)
-
   // TODO: accept unicode BOM here,
   // and use it to auto-detect the encoding
 
@@ -223,6 +234,13 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
     return nil, fmt.Errorf("the CSV has %d columns. Expected: %d",
                            len(records[0]), len(header))
   }
+  return &csvContent{header: header, records: records}, nil
+}
+
+func inferTypes(header []string, records [][]string, options CSVReadingSpec) (*RawData, error) {
+  // missing values
+  missingVals := utils.ToStringSet(options.MissingValues)
+
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
@@ -238,7 +256,7 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   }
   for _, r := range q.Results() {
     if r.Error != nil {
-      return nil, err
+      return nil, r.Error
     }
   }
   // putting everything together
@@ -301,33 +319,66 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   if cpu <= 0 {
     cpu = runtime.NumCPU()
   }
-  cpuPerFile := cpu / len(paths)
-  if cpuPerFile == 0 {
-    cpuPerFile = 1
-  }
-  maxCPU := options.MaxCPU
-  options.MaxCPU = cpuPerFile
-  maxWorkers := cpu / cpuPerFile
-  fileQ := utils.CreateStringQueue(paths, maxWorkers)
+  fileQ := utils.CreateStringQueue(paths, cpu)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
   }
-  data := make([]*RawData, len(paths))
+  data := make([]*csvContent, len(paths))
   for i, result := range fileQ.Results() {
     if result.Error != nil {
       return nil, result.Error
     }
-    data[i] = result.Result.(*RawData)
+    data[i] = result.Result.(*csvContent)
   }
-  // concatenate everything
-  merged := MergeRawDataRows(data)
-  merged.SetMaxCPU(maxCPU)
-  return merged, nil
+  // concatenate everything before inferring the types: the values of one file
+  // do not determine the type of a column
+  header := Columns(data[0].header...).Except(options.Exclude...).NameList()
+  var records [][]string
+  for _, content := range data {
+    aligned, err := alignRecords(header, content, options.Exclude)
+    if err != nil {
+      return nil, err
+    }
+    records = append(records, aligned...)
+  }
+  // column-wise multi-threading
+  return inferTypes(header, records, options)
+}
+
+// alignRecords returns the records with the fields given by the header.
+func alignRecords(header []string, content *csvContent, exclude []string) ([][]string, error) {
+  if n := Columns(content.header...).Except(exclude...).Num(); n != len(header) {
+    return nil, fmt.Errorf("the CSV files have %d and %d columns", len(header), n)
+  }
+  order := make([]int, len(header))
+  for i, colName := range header {
+    order[i] = utils.IndexOfString(colName, content.header)
+    if order[i] < 0 {
+      return nil, fmt.Errorf("column %s is missing from a CSV file", colName)
+    }
+  }
+  result := make([][]string, len(content.records))
+  for row, record := range content.records {
+    result[row] = make([]string, len(order))
+    for i, col := range order {
+      result[row][i] = record[col]
+    }
+  }
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
   for path, more := q.Next(); more; path, more = q.Next() {
-    data, err := FromCSVFile(path, *options)
+    data, err := readCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
 }
+
+func readCSVFile(path string, options CSVReadingSpec) (*csvContent, error) {
+  f, err := os.Open(path)
+  if err != nil {
+    return nil, err
+  }
+  defer f.Close()
+  return readCSV(f, options)
+}
-- 
2.43.0


From 516e8ff69f536da639cf4dcb4d8681bc130cfd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 40/44] hooks: verification point before a key is taken

---
 utils/string_q.go | 1 +
 utils/verif_on.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/string_q.go b/utils/string_q.go
index 64cb749..24f5600 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -60,6 +60,7 @@ func (q StringQ) Wait() {
 
 // Next returns the next key, or false if there is no more key to process.
 func (q StringQ) Next() (string, bool) {
+  verifPoint("ask", "")
   col, more := <-q.Keys
   if more {
     verifPoint("next", col)
diff --git a/utils/verif_on.go b/utils/verif_on.go
index c960af9..02630e7 100644
--- a/utils/verif_on.go
+++ b/utils/verif_on.go
@@ -7,7 +7,7 @@ import "sync/atomic"
 var verifHook atomic.Value
 
 // SetVerifHook installs a function called by the workers of string queues:
-// op is "next" after taking a key, "exit" when there is no key left, "notify"
+// op is "ask" before taking a key, "next" after taking it, "exit" when there is no key left, "notify"
 // before pushing a result and "notified" after pushing it.
 func SetVerifHook(hook func(op string, key string)) {
   verifHook.Store(hook)
-- 
2.43.0


From b3efa6bf449c73f7f8bbd2f7ed69423cc74a348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 41/44] fix: Unshare detached every column when column names
 were repeated

---
 dataframe/raw_data.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 161994c..53bd4f5 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -186,12 +186,13 @@ func (data *RawData) Unshare(columns...string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
-  var colSet map[string]bool
-  if len(columns) == 0 || len(columns) == data.NumColumns() {
+  colSet := utils.ToStringSet(columns)
+  if len(columns) == 0 {
     colSet = data.Header().NameSet()
+  }
+  if len(colSet) == data.NumColumns() {
     data.dataUID = generateDataUID()
   } else {
-    colSet = utils.ToStringSet(columns)
     data.dataUID |= generateDataUID()
   }
   for col, v := range data.objects {
-- 
2.43.0


From e7c07e5fdb0912903c6ab6010018a2439064979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 42/44] fix: PrintRecords took column names for formats

---
 dataframe/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index e14dd9e..77f80b8 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -150,9 +150,9 @@ func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[stri
       // print the column name
       fmt.Printf(" ")
       if shorthand, defined := shorthands[colName]; defined {
-        fmt.Printf(shorthand)
+        fmt.Print(shorthand)
       } else {
-        fmt.Printf(colName)
+        fmt.Print(colName)
       }
       fmt.Printf(":")
       // print the value
-- 
2.43.0


From 846aea3767ba8f61a14b27d3d0dbb2514e028017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 43/44] fix: GoodShortNames could shorten a column name to the
 name of another column

---
 dataframe/print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index 77f80b8..ab4eeab 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -182,9 +182,13 @@ func (df *DataFrame) GoodShortNames(minLength int) map[string]string {
     minLength = 3
   }
   invResult := make(map[string]string)
-  for col := range df.Header().NameSet() {
+  names := df.Header().NameSet()
+  for col := range names {
     for length := minLength; length <= len(col); length++ {
       candidate := col[:length]
+      if candidate != col && names[candidate] {
+        continue // it would be taken for another column
+      }
       if _, existing := invResult[candidate]; !existing {
         invResult[candidate] = col
         break
-- 
2.43.0


From a8d91d4f4bc208a995df6ed8fd762834c0d6ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 44/44] fix: IndexView no longer extends the mask in memory
 shared with other views

Longer index views of the same dataframe appended to its mask slice, thus
writing to the same spare capacity: a data race when they are built
concurrently, which is allowed (only ZeroMask and EmptyMask are documented
as not concurrent).
---
 dataframe/view.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index f1fdc53..573174f 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -28,10 +28,10 @@ func (df *DataFrame) IndexView(indices []int) *DataFrame {
     result.indices[j] = df.indices[index]
   }
   if len(df.indices) < len(indices) {
-    // we extend the mask slice because it's smaller than NumRows
-    // (a rare case)
-    diff := len(indices) - len(df.indices)
-    result.mask = append(result.mask, make([]bool, diff)...)
+    // we need another mask slice because this one is smaller than NumRows
+    // (a rare case). Extending it in place would write to memory shared with
+    // other views, which may be built concurrently.
+    result.mask = make([]bool, len(indices))
   }
   result.indexViewed = true
 
-- 
2.43.0

