#!/usr/bin/env python3
# Generates properties.jsonl (kept in a script so that it stays valid JSON).
import json, os
D="dataframe/"; P="preprocessing/"; A="algorithms/"; U="utils/"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: anchors["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: anchors["observe_at"]=observe
    anchors["hook_needed"]=hook
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
            "why_tests_cant":why,"anchors":anchors}
L=[]
L.append(p("C01","Row views contain exactly the selected rows",
 "For any dataframe (itself possibly a view of a view) IndexView, SliceView, MaskView, ReverseView, ShuffleView, SampleView, ResetIndexView, ColumnView and View return a dataframe with exactly the rows their documentation selects, in that order (any permutation for ShuffleView, any n distinct rows for SampleView, any re-ordering of the same rows for ResetIndexView), repeated rows included. Every column of the result shows the same row at the same position, and neither the source dataframe nor any other existing dataframe changes what it shows.",
 ["inputs","histories"],"all frames, all selections (empty, repeated, longer than the frame, negative slice bounds) and all chains of view operations, on small frames and on frames large enough to take the contiguous slicing path",
 "tests apply one or two fixed selections to one ten-row frame; the view composition, the contiguous/index-viewed duality and the size heuristic give an unbounded family of histories",
 [D+"view.go",D+"inplace.go",D+"dataframe.go"],
 [("IndexView/MaskView/ReverseView compose indices",D+"view.go"),("cut() switches between index slicing and re-slicing the columns",D+"inplace.go")],
 [("indices","rows shown by the frame",D+"dataframe.go"),("indexViewed","indices may differ from 0..n-1",D+"dataframe.go")],
 ["public accessors of every live frame after every call"]))
L.append(p("C02","Splits partition the rows exactly",
 "SplitView(b), SplitNView(n) and SplitTrainTestViews(r) return consecutive pieces whose concatenation is exactly the input rows in order, no row lost or repeated. SplitView pieces all have exactly b rows except a smaller last one; SplitNView returns exactly n dataframes (n>0), all with the columns of the input even when they have no rows; SplitTrainTestViews puts floor(r*rows) rows in the test part.",
 ["inputs","histories"],"all row counts (including 0), batch sizes, part counts and ratios, on views and on frames produced by earlier splits",
 "tests split a five- or six-row frame in three; boundary combinations (n>rows, exact multiples, empty frames, re-splitting a contiguous cut) are not sampled",
 [D+"view.go",D+"inplace.go"],[("SplitView/SplitNView/SplitTrainTestViews",D+"view.go"),("cut()",D+"inplace.go")],
 None,["the returned frames' public accessors"]))
L.append(p("C03","Sorting and top-n are order-correct permutations",
 "SortedView(col) returns a permutation of the rows of the frame in which the values of col (float without NaN, int over the whole int range, bool with false first) never decrease. TopView(col,n,ascending,sorted) returns min(n,rows) rows such that no left-out row has a strictly better value than a returned one, and with sorted=true they are in the requested order. The source frame keeps its order and its data.",
 ["inputs","histories"],"all column contents with ties and extreme values, all n including 0 and n>=rows, frames that are themselves views",
 "tests sort four distinct small values; ties, integers beyond 2^53, views and n at the boundaries are not covered",
 [D+"view.go",U+"utils.go"],[("SortedView, TopView",D+"view.go"),("FloatArgSort",U+"utils.go")],None,["returned frame"]))
L.append(p("C04","A write through a frame reaches exactly the shared cells",
 "Writing rows of a column through any frame or view (a column accessor's Set, also one obtained earlier, or the Overwrite* functions on an existing column) changes the value of precisely those underlying cells. Every frame that shares them by view, slice, column view, rename, shallow copy, column-wise concatenation view or raw-data transfer shows the new value at the corresponding rows, and every other cell of every frame keeps its value.",
 ["histories"],"all histories of view-building and writing operations over a family of frames",
 "tests write once into one view; sharing is a relation between all frames alive and depends on the whole history",
 [D+"column_access.go",D+"inplace.go",D+"view.go",D+"raw_data.go"],
 [("accessors write through indices",D+"column_access.go"),("Overwrite*",D+"inplace.go"),("TransferRawDataFrom",D+"raw_data.go")],
 [("floats/ints/bools/objects","backing slices",D+"raw_data.go"),("shared/sharedMaps","sharing book-keeping",D+"raw_data.go")],
 ["all live frames after each write","write-probe of every cell"]))
L.append(p("C05","Copies and detached columns are independent",
 "After Copy, RowConcat, ColumnCopyConcat or raw-data row merging, no write to the result is visible in any other dataframe and no write elsewhere is visible in the result, for all columns. After DetachedView the same holds for the given columns (all columns when none is given), and after Unshare they are independent of every frame the frame was derived from, whatever chain of views, column views, shallow copies and renames led to it, while the other columns stay shared; the copied values themselves are those of the source.",
 ["histories"],"all histories that build frames by views, shallow copies, column views and renames before detaching, followed by arbitrary writes in either direction",
 "one test detaches one int column of one view; whether a column gets copied depends on flags accumulated over the whole derivation history",
 [D+"raw_data.go",D+"dataframe.go",D+"view.go",D+"concat.go"],
 [("Unshare / reallocateMaps",D+"raw_data.go"),("Copy",D+"dataframe.go"),("DetachedView",D+"view.go")],
 [("shared","columns that share memory with a parent",D+"raw_data.go")],["write-probe of every cell of every live frame"]))
L.append(p("C06","Structural changes on a view stay on that view",
 "Renaming, dropping, allocating, converting (int/bool to float) or creating columns by Overwrite* on a frame returned by a view, shallow-copy, column-view, detach or concatenation function never changes the set of columns, the column names, their types, their string marking or their data in the frame it was derived from or in any sibling derived from the same parent.",
 ["histories"],"all histories of deriving frames and then applying structural operations to the derived frames, for all four column types",
 "tests check one added column on one shallow copy; sharing of the maps is decided lazily and per operation",
 [D+"raw_data.go",D+"view.go",D+"inplace.go",D+"column_header.go"],
 [("copy-on-write of the column maps (sharedMaps, reallocateMaps)",D+"raw_data.go"),("stringHeader",D+"column_header.go")],
 [("sharedMaps","maps belong to the parent",D+"raw_data.go"),("stringHeader","which object columns are strings",D+"raw_data.go")],
 ["headers and data of every live frame after every call"]))
L.append(p("C07","Column schema and settings stay coherent",
 "After any sequence of operations every column belongs to exactly one type and has one value per row, headers list exactly the existing columns under their type, and header set-operations (And, Except, Copy) never alter a frame. Column type, string marking, text encoding and the maximum number of CPUs follow the data through views, copies, renames, conversions and column selection; IntToFloats and BoolToFloats replace each given column by a float column of the same values, and columns allocated or created on a view are zero-filled where not written.",
 ["histories","inputs"],"all histories of structural and view operations on frames with all column types",
 "tests list headers of freshly built frames only; the string marking, encoding and CPU settings are separate fields that each operation must carry along",
 [D+"column_header.go",D+"raw_data.go",D+"builder.go",D+"dataframe.go",D+"view.go"],
 [("headers",D+"column_header.go"),("ColumnView, View, ShallowCopy, Copy",D+"view.go"),("IntToFloats/BoolToFloats/Alloc*/Rename/Drop",D+"raw_data.go")],
 [("stringHeader","string marking",D+"raw_data.go"),("maxCPU, textEncoding","settings",D+"raw_data.go")],
 ["header functions, NumRows, NumColumns, ActualMaxCPU, Encode(same encoding)"]))
L.append(p("C08","Column-wise concatenation is row-aligned or refused",
 "ColumnConcatView, ColumnSmartConcat and ColumnCopyConcat either return an error or a frame with the columns of all inputs where row j of every column is row j of the input it came from, however those inputs select their rows. They return an error when row counts differ or column names overlap; ColumnCopyConcat and ColumnSmartConcat accept all other inputs, and ColumnConcatView accepts all column subsets of one same frame and shares their data.",
 ["inputs","histories"],"all tuples of frames and views, including views with equal length but different row selections, and contiguous frames combined with index views",
 "tests try one matching and one mismatching pair; index lists have unboundedly many near-collisions and the contiguous/indexed distinction multiplies the cases",
 [D+"concat.go",D+"checks.go",U+"utils.go"],[("ColumnConcatView compares inner indices",D+"concat.go"),("CheckNoColumnOverlap",D+"checks.go")],
 None,["result frame, then copies, batches and writes of it"]))
L.append(p("C09","Row-wise concatenation keeps every row, type and marking",
 "RowConcat(dfs...) and raw-data row merging return a frame whose rows are the rows shown by each input in argument order (for raw data: all allocated rows), for every column, with column types and string marking preserved. RowConcat returns an error instead of a result when a later frame lacks a column of the first; the inputs are never modified.",
 ["inputs","histories"],"all lists of frames and views (empty ones, repeated ones, re-ordered views, frames with extra columns)",
 "one test concatenates two three-row frames of one column and checks ints only",
 [D+"concat.go",D+"raw_data.go"],[("RowConcat",D+"concat.go"),("MergeRawDataRows",D+"raw_data.go")],None,["result frame"]))
L.append(p("C10","Masks have the right size and content",
 "ZeroMask and EmptyMask return a slice with exactly one entry per row of the frame for frames and views of any history (longer than their parent, empty, concatenated, split), ZeroMask all false, and MaskView keeps exactly the rows whose entry is true. With ThreadSafeMasking(true) masks returned by different calls on the frame and on views derived from it never share memory, even when called concurrently.",
 ["histories","schedules"],"all view histories, reuse of masks after they were filled by earlier calls, concurrent callers",
 "tests take masks of one frame and one enlarged view once; stale contents and aliasing between calls depend on the history",
 [D+"dataframe.go",D+"view.go"],[("ZeroMask/EmptyMask recycle a buffer",D+"dataframe.go"),("IndexView extends the buffer",D+"view.go")],
 [("mask","recycled mask buffer",D+"dataframe.go")],["mask length/content, alias probes"]))
L.append(p("C11","All readers agree with the rows shown by the frame",
 "Row iterators (including after Reset to another frame and across their internal batches), dense matrix batching (one batcher reused over frames of any sizes in any order), VecDense/VecDenseCopy, CopyValuesToInterfaces, LabelToInt and all column accessors deliver exactly the values of the frame's rows in order: bools as 0/1, ints as numbers, columns in the requested order, indices of the row in the view and in the backing data. LabelToInt numbers labels from 0 by first appearance and missing ones -1, with the mapping it returns; reading never modifies any frame.",
 ["inputs","histories"],"all frames/views and all sequences of frames fed to the same iterator or batcher, sizes around the internal batch size included",
 "one test iterates once over one contiguous frame; recycled buffers carry state from one call to the next",
 [D+"row_iterators.go",D+"float_batching.go",D+"dense_gonum_batching.go",D+"column_access.go",D+"conversions.go"],
 [("NextRow, Reset",D+"row_iterators.go"),("DenseMatrix recycles its buffer",D+"dense_gonum_batching.go"),("VecDense no-copy path",D+"column_access.go")],
 [("rows/rowOffset/dfIndex","iterator state",D+"row_iterators.go"),("data","recycled matrix buffer",D+"dense_gonum_batching.go")],["values returned by the readers"]))
L.append(p("C12","Written CSV data reads back as the same rows",
 "To1CSV, ToCSVs, ToCSVFiles and ToCSVDir write, over all their outputs together, exactly one record per row shown by the frame (view or not) with the bool, int, float and string columns under their names and missing strings as the configured marker; each output carries the header, and its lines end with CRLF or LF as UseCRLF says. With MaintainOrder the records are in row order (output after output), and reading the outputs back with FromCSV, FromCSVFile or FromCSVFilePattern gives the same values (strings without carriage returns, columns typed by inference), missing values included, and, when several files are merged, keeps string columns marked as strings.",
 ["inputs","histories"],"all frames and views, row counts around the writer's batch size and the number of outputs, all writing options",
 "the only writing test asserts nothing about the written content (it compares the input with itself)",
 [D+"csv_writing.go",D+"csv_parsing.go",D+"raw_data.go"],[("sortIfNeeded, To1CSV batches, ToCSVs split",D+"csv_writing.go"),("FromCSVFilePattern merges files",D+"csv_parsing.go")],
 None,["bytes written, frames read back"]))
L.append(p("C13","CSV column types are inferred by the documented rules",
 "Reading CSV gives each non-excluded column the documented type: bool if every value parses as bool, else int if every value is an integer or missing, else float if every value is a number or missing, else string, with missing values stored as -1, NaN or nil and all other values unchanged. IntAsFloat, BoolAsFloat and BinaryAsFloat turn integer, bool and 0/1 columns into float columns of the same values, Header and Exclude name and remove columns, and the outcome does not depend on MaxCPU or on the other columns.",
 ["inputs","configurations","schedules"],"all tables over classes of lexical values, all combinations of options, all CPU settings",
 "one fixed 4x4 table with three option sets is tested; options interact and columns are processed by a pool of workers",
 [D+"csv_parsing.go"],[("toNativeTypes",D+"csv_parsing.go"),("FromCSV worker pool",D+"csv_parsing.go")],None,["returned raw data"]))
L.append(p("C14","Parallel operations terminate with the sequential result",
 "String hashing, one-hot, scaler and imputer training and transformation, CSV reading (one or many files, any column names) and multi-output CSV writing always terminate, whatever the maximum number of CPUs, number of columns, files and outputs. When they return, all their work is complete and visible and their result is the same as with one CPU, under every interleaving of their workers.",
 ["schedules","configurations"],"all interleavings of worker steps (take a job, process, notify, exit) against the caller, for all numbers of workers and jobs",
 "tests run whatever schedule the runtime happens to pick on tiny inputs, with one or two columns",
 [U+"string_q.go",D+"view.go",D+"csv_parsing.go",D+"csv_writing.go",P+"one_hot.go",P+"scaler.go",P+"float_imputer.go"],
 [("StringQ job queue",U+"string_q.go"),("worker functions",D+"view.go")],
 [("Keys/Errors channels","job and completion queues",U+"string_q.go")],["results at the moment the call returns"],
 "hook at StringQ.Next/Notify so that the harness can hold and order workers"))
L.append(p("C15","Changing the text encoding is all-or-nothing",
 "Encode(e) on a frame either returns nil and every string shown by the frame is its former text in encoding e (missing values untouched, repeated rows converted once, other columns unchanged), after which encoding back gives the original bytes; or it returns an error and every string and the current encoding are exactly as before, wherever in whichever column the failing string is.",
 ["inputs","fault_sequences","histories"],"all positions of an unencodable string among rows and columns, all view shapes (repeated rows included), sequences of encodings",
 "one test fails on the last row of the only string column; the roll-back path over several columns is never exercised",
 [D+"inplace.go"],[("Encode, inplaceEncoding",D+"inplace.go")],[("textEncoding","current encoding",D+"raw_data.go")],["strings of all frames after Encode"]))
L.append(p("C16","String hashing is a stable function of the string",
 "HashStringsView turns the given string columns into int columns of a new view, giving -1 for missing strings and a non-negative number that is always the same for the same string - across rows, columns, frames, CPU settings and program runs - and different for different strings. All other columns are shared unchanged, no string column of the result remains under a hashed name, and the source frame (even one made only of string columns) is not affected.",
 ["inputs","histories","schedules"],"all frames and views with any number of string columns, any subset of columns hashed",
 "tests hash one column of a frame that has other columns too; stability across frames, runs and the all-columns case are not covered",
 [D+"view.go",P+"hash_encoder.go"],[("workerHashes, HashStringsView",D+"view.go"),("HashEncoder",P+"hash_encoder.go")],None,["result and source frames"]))
L.append(p("C17","One-hot encoding is exact for seen, missing and unknown values",
 "After Fit on any frame or view, transforming any frame with the trained columns sets, per row and trained column, exactly one of that column's boolean columns: the one dedicated to the category if it was seen in training, else the one the missing or unknown policy prescribes (its own or the shared separate column, or the most frequent category's), or the call returns an error iff a row shown by the frame needs a policy set to ReturnError. Distinct seen categories use distinct columns, trained columns are removed unless KeepUsedColumns, and the input frame is never changed; training again forgets the former training.",
 ["inputs","configurations","histories"],"all training and transformed frames and views (several columns, repeated rows), all policy combinations, all CPU settings",
 "tests use one or two columns of one to six rows and look at column counts mostly",
 [P+"one_hot.go"],[("workerFits, workerTransforms, fix()",P+"one_hot.go")],
 [("Categories/Fallback","category to new column",P+"one_hot.go")],["boolean columns of the result"]))
L.append(p("C18","Imputing and scaling touch only what they should, exactly",
 "FloatImputer.Fit and Scaler.Fit depend only on the non-missing values shown by the training view: Mean/Zero/One fallback, shift=-mean, scale=1/std (population), min-max mapping onto [0,1]. TransformInplace replaces exactly the missing values (imputer) or maps every shown value x to (x+shift)*scale once per underlying row (scaler), in trained columns only, leaving all other columns and rows unchanged, and InverseTransformInplace restores the former values. Training again forgets the former training.",
 ["inputs","histories","schedules"],"all training and transformed views, missing values anywhere, repeated rows, constant columns, option combinations, all CPU settings",
 "tests use one column of five values whose range is 1, so that several formulas coincide",
 [P+"float_imputer.go",P+"scaler.go"],[("workerFits/workerTransforms",P+"scaler.go"),("FloatImputer.Fit/TransformInplace",P+"float_imputer.go")],
 [("Shift/Scale/Fallback","trained parameters",P+"scaler.go")],["trained parameters and all frames"]))
L.append(p("C19","AutoPreprocessor: FitTransform equals Fit then TransformView",
 "For every option combination and every frame with rows, FitTransform(df) returns the same frame as Fit(df) followed by TransformView(df), without failing, and leaves df and all frames sharing data with it unchanged. Columns listed in Exclude are passed through untouched whatever their type, float columns are imputed and standardised as the options say, and categorical columns are replaced by one-hot columns; a trained preprocessor treats each row of a new frame independently of the other rows.",
 ["inputs","configurations","histories"],"all option combinations, frames with or without float, int, string and excluded columns, views",
 "the only test runs one option combination on one frame and checks a final error metric",
 [P+"auto_preprocessor.go"],[("fit, TransformView",P+"auto_preprocessor.go")],None,["frames returned and input frames"]))
L.append(p("C20","Trained components survive JSON serialisation",
 "Marshalling a trained FloatImputer, Scaler, HashEncoder, OneHotEncoder, AutoPreprocessor or LinearRegressor to JSON succeeds, and the component unmarshalled from it reports the same columns and transforms (or predicts, or fails on) every frame exactly like the original.",
 ["inputs","configurations"],"all trained components (all policies, missing values and all-missing columns in training) and all frames transformed afterwards",
 "one test serialises one OneHotEncoder with one policy",
 [P+"scaler.go",P+"float_imputer.go",P+"one_hot.go",P+"auto_preprocessor.go",A+"linear_regression.go"],
 [("exported fields are the serialised state",P+"interfaces.go")],None,["results of original and deserialised component"]))
L.append(p("C21","Linear regression is row-wise and leaves its inputs alone",
 "Fit uses exactly the float and bool columns other than the target as features, one weight each, and modifies no existing dataframe. Predict returns the rows of its input with a result column that holds, for each row, the inverse-scaled weighted sum of that row's own features - independent of batching, row order, repetition and other rows - replaces an existing column of that name, and changes neither the input dataframe nor any frame sharing data with it; MSE and MAE are the means over the rows shown by the two views.",
 ["inputs","histories"],"all models and all frames/views predicted on (re-ordered, repeated rows, existing result column, every feature column type)",
 "the only test trains on one random frame and bounds the final error",
 [A+"linear_regression.go",A+"evaluation.go"],[("Fit, Predict",A+"linear_regression.go"),("MSE, MAE",A+"evaluation.go")],None,["prediction column and all live frames"]))
L.append(p("C22","I/O failures and malformed input are always reported",
 "If any writer or file given to a CSV writing function fails at any point, or any reader or file given to a CSV reading function fails, is missing or is malformed anywhere, the function returns a non-nil error; without such a failure it returns no error. It neither hangs nor panics, and no dataframe is modified.",
 ["fault_sequences","inputs","schedules"],"every position at which a write, flush or read can fail, for every output of a multi-output call, including frames without rows",
 "no test injects a failure",
 [D+"csv_writing.go",D+"csv_parsing.go"],[("To1CSV error paths, ToCSVs error collection",D+"csv_writing.go"),("FromCSV*, processFileQueue",D+"csv_parsing.go")],None,["returned errors"]))
L.append(p("C23","Printing shows exactly the rows and columns of the dataframe",
 "PrintHead(n) prints one line per column (float, int, bool, then object columns, alphabetically) with its first n values, PrintRecords(n) one line per row for the first n rows with the rank of the row and every column in alphabetical order as 'name: value', whatever characters the names contain; a negative or too large n means all rows. Values are those of the rows the (possibly re-ordered or repeating) view shows: floats in the given format (default %.3f), bools as 1/0, strings quoted, missing objects as <missing>, strings in another encoding as <NOT-UTF8>. PrintSummary lists the columns of each type and the number of rows. Each returns the dataframe itself, and nothing is modified. GoodShortNames gives names which are beginnings of the column names of at least the requested length, never make two columns look alike, and are no longer than that takes.",
 ["inputs","histories"],"all frames and views (repeated and re-ordered rows, no rows), all n, formats, shorthands and sets of column names (prefixes of one another, with % signs)",
 "no test looks at what is printed or at the short names, and these depend on the iteration order of a map",
 [D+"print.go"],[("PrintHead, PrintRecords, PrintSummary",D+"print.go"),("GoodShortNames",D+"print.go")],None,["standard output","returned map"]))
L.append(p("C24","Linear regression training is the documented gradient descent",
 "LinearRegressor.Fit makes Epochs passes over exactly the rows shown by the dataframe. In each pass every row is dealt once, in random order, into batches of BatchSize rows (the last one may be smaller); after each batch the gradients, i.e. the sum over its rows of (prediction - standardised target) x features plus Momentum times the previous gradients (zero at first, carried over batches and epochs), are multiplied by LR and subtracted from the weights, which are then multiplied by 1-WeightDecay. Zero Epochs, LR and BatchSize mean 1, 0.0001 and 64. LowMemory and Verbose make no difference to this, a regressor trained again starts anew, and training does not modify the dataframe.",
 ["inputs","configurations","schedules"],"all small frames and views (repeated, hidden, re-ordered rows, other columns), all ways to deal their rows into batches, all hyper-parameters on a grid",
 "the only test bounds the final error of one training on random data; partial last batches, momentum over epochs, decay and views are never looked at",
 [A+"linear_regression.go"],[("Fit",A+"linear_regression.go"),("Dense64Batching",D+"dense_gonum_batching.go")],
 [("Weights","learnt weights",A+"linear_regression.go")],["Weights, Features and TargetScaler after Fit"]))
L.append(p("C25","Frames that share data can be used by several goroutines at once",
 "Goroutines that call the API at the same time on frames sharing data (views of one another) neither disturb one another nor race on memory, as long as they do not change what another one can reach: (1) any number of them may read the same frames, write them to CSV, apply the same trained components to them, and make views, copies, concatenations and predictions from them, and each may then change the structure of frames it made itself (add, drop, rename, convert, replace columns) and the values of copies it made; (2) goroutines each given different pieces of a split (or other views without a row in common) may also write to their own pieces, overwrite columns, and impute or scale them in place, and do as above with them. Every call returns, and every frame shows, the same as if the goroutines had run one after the other. Excluded: masks of one frame without ThreadSafeMasking, one accessor, iterator or batcher used by two goroutines, and, for pieces, the calls documented as copying whole columns (DetachedView, Unshare, and what uses them).",
 ["schedules","histories"],"all pairs and groups of concurrent histories over frames that share data, in both modes, and all their interleavings",
 "no test calls the API from two goroutines, and a race shows only under some schedules",
 [D+"view.go",D+"dataframe.go",D+"raw_data.go",D+"inplace.go",P,A],
 [("View shares maps and data, copy on write",D+"raw_data.go"),("masks shared by views",D+"view.go"),("cut()",D+"inplace.go")],
 [("sharedMaps/shared","copy-on-write book-keeping",D+"raw_data.go"),("mask","scratch memory shared by views",D+"dataframe.go")],
 ["results of every call and all live frames after the goroutines joined","the race detector"]))
L.append(p("C26","Calls that cannot be answered are refused, and change nothing",
 "Calls whose arguments are outside what their documentation allows are refused, by a panic or an error, and no others are: SampleView with replacement or more rows than there are; SplitNView of a negative number, SplitView of a size <= 0, SplitTrainTestViews with a ratio outside [0,1]; SortedView and TopView (unless all rows are asked for unsorted) by a column that is missing or not float, int or bool, TopView with n < 0; Ints, Bools, Floats, Objects and Strings of a column that is missing, of another type or (Strings, LabelToInt) not marked as string; CopyValuesToInterfaces and Rename of a missing column; dense batches and row iterators over missing or object columns; Reset(df, true) of an iterator on a frame where one of its columns is missing or of another type; MSE and MAE of columns of different size; ToDataFrame of columns of different sizes; RowConcat of nothing or with a column of the first frame missing from a later one (or of another type there); CheckNoColumnOverlap exactly if two of the frames have a column name in common; reading CSV data without a header, with records of different lengths or shorter than the header, or from files whose (not excluded) columns differ. A refused call leaves all dataframes as they were and usable, and an answered one returns as many rows as it should (SplitNView(0): nothing).",
 ["inputs","histories"],"all frames and views, arguments around every border of what is allowed, and what is done with the frames afterwards",
 "tests look at three errors; the borders are those of the frame at hand, and that a refused call has no effect shows in later operations only",
 [D+"view.go",D+"column_access.go",D+"conversions.go",D+"raw_data.go",D+"row_iterators.go",D+"float_batching.go",D+"checks.go",D+"concat.go",D+"csv_parsing.go",A+"evaluation.go"],
 [("explicit panics and returned errors",D+"view.go"),("ToDataFrame, Rename",D+"raw_data.go"),("Reset",D+"row_iterators.go"),("CheckNoColumnOverlap",D+"checks.go"),("alignRecords",D+"csv_parsing.go")],
 None,["panics and errors of the calls","all live frames afterwards"]))
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for x in L:
            f.write(json.dumps(x)+"\n")
    print(len(L))
