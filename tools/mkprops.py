import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    P.append(d)

p("C01","LightGBM text models predict exactly what LightGBM's decision rules define",
 "For every LightGBM text model (v2/v3) and every feature row, each tree sends the row to exactly the leaf that LightGBM's rules define: numerical splits with missing type None/Zero/NaN and default direction, zero-range values, and categorical splits of any set (single category, small or large), for any tree shape and any numbering of nodes and leaves. The raw score of every output group is the sum of the chosen leaves' values of that group's trees. Constant (single-leaf) trees contribute their constant.",
 ["inputs","configurations"],"all tree shapes/numberings up to a bound x node kinds x missing types x default directions x values at and around every threshold, NaN, zero range, infinities, odd category values",
 "The tests compare a handful of trained models on their own test rows: no NaN at most node kinds, no values on thresholds, no mixed large bitsets, one node numbering each.",
 ["lgensemble_io.go","lgtree.go","lgensemble.go","util/util.go"],
 [("text tree conversion (right child stored next to the parent)","lgensemble_io.go lgTreeFromReader"),("decision rules","lgtree.go"),("per group accumulation","lgensemble.go predictInner")],
 ["Predict/PredictSingle output after LGEnsembleFromReader"])
p("C02","LightGBM JSON models predict the same as the text form of the same model",
 "For every LightGBM model that has both a JSON dump and a text form, loading the JSON gives the same raw prediction for every row as LightGBM's decision rules on that model define (and as the text form gives). This covers any tree shape, numerical and categorical splits, missing types, default directions, constant trees and multi-class models. A JSON request for a transformation function is refused.",
 ["inputs","configurations"],"the same abstract models as C01, emitted as JSON with nested nodes",
 "Tests load two JSON files; none has several large category sets, missing-type variety or multi-class.",
 ["lgensemble_io.go","lgtree.go"],
 [("JSON tree conversion with parent pointers","lgensemble_io.go unmarshalTree"),("bitset construction","util/util.go ConstructBitset")],
 ["Predict after LGEnsembleFromJSON"])
p("C03","XGBoost gbtree and dart models predict XGBoost's margin for every row",
 "For every XGBoost binary gbtree or dart model and every row, each tree routes a missing (NaN or absent) feature to the node's default side, a value below the split condition left and any other value right, whatever the order nodes are stored in. The score of each group is base score plus the sum of its trees' chosen leaf values, each scaled by the tree's dart weight. Trees belong to groups in the round-robin order the model records.",
 ["inputs","configurations"],"all tree shapes x node storage orders x default directions x values below/at/above each split, NaN, infinities; groups, dart weights, base scores",
 "Tests use three trained models on their own test sets; equality with a split value, NaN at each node, scrambled node order and multi-group dart never occur.",
 ["xgensemble_io.go","xgensemble.go","internal/xgbin/xgbin_io.go","lgtree.go"],
 [("binary reader","internal/xgbin/xgbin_io.go"),("tree conversion","xgensemble_io.go xgTreeFromTreeModel"),("score accumulation","xgensemble.go predictInner")],
 ["Predict after XGEnsembleFromReader"])
p("C04","XGBoost gblinear models predict base score + bias + weighted sum per group",
 "For every XGBoost gblinear model and every row, each output group's raw score is the base score plus the group's bias plus the sum over features of value times that group's weight. Missing (NaN or absent) features contribute nothing. Feature count, group count and weight layout come from the model file.",
 ["inputs","configurations"],"features 1..5 x groups 1..4 x distinct exactly-representable weights x every row over a small value alphabet incl. NaN",
 "Tests use one trained two-class model (one group) without missing values.",
 ["xgblinear.go","xgblinear_io.go","internal/xgbin/xgbin_io.go"],
 [("weight layout [feature*groups+group], bias last","xgblinear.go predictInner")],["Predict after XGBLinearFromReader"])
p("C05","scikit-learn gradient boosting pickles predict the raw decision function",
 "For every protocol-0 pickle of a GradientBoostingClassifier (binary or multi-class), the raw score of each class for every row of numbers (scikit-learn takes no NaN) is the initial estimator's prior plus learning rate times the sum of that class's regression-tree outputs. Every tree follows 'value <= threshold goes left' for any node layout, including single-leaf trees. Estimators are read in (stage, class) order.",
 ["inputs","configurations"],"all tree shapes up to a bound in depth-first and breadth-first node order x rows at/around thresholds x classes 2..4 x stages x priors/learning rates",
 "Tests use two trained models; single-leaf trees, other node orders and boundary values are not covered.",
 ["skensemble_io.go","internal/pickle/sklearn.go","internal/pickle/numpy.go","internal/pickle/decoder.go"],
 [("tree conversion with scale and base folded into leaves","skensemble_io.go"),("pickle classes","internal/pickle")],["Predict after SKEnsembleFromReader"])
p("C06","nEstimators selects exactly a prefix of the model, and forests are averaged",
 "Predicting with nEstimators=n (1<=n<=total) gives exactly the prediction of the model made of its first n estimators (of every output group); n<=0 or n>total means all of them. LightGBM random forests (average_output) return the mean, not the sum, over the estimators used, and no transformation is applied to them. The same holds through single-row, dense and sparse calls.",
 ["inputs","configurations"],"every n from negative to beyond the total x model families x groups 1..4 x estimators 1..6 x call forms",
 "Tests use n=0 or one or two chosen values on trained models.",
 ["lgensemble.go","xgensemble.go","xgblinear.go","leaves.go"],
 [("clamping","adjustNEstimators"),("averaging coefficient","lgensemble.go predictInner")],["Predict, PredictSingle, PredictDense, PredictCSR"])
p("C07","Batch prediction equals row-by-row prediction for every batch shape",
 "For every model and matrix, dense or sparse batch prediction writes, for every row i, exactly the numbers that predicting row i alone gives, at positions i*NOutputGroups onward, and nothing else. This holds for every number of rows, number of threads (including 0, negative and more than available), extra trailing columns and CPU setting. The input matrices are not modified.",
 ["inputs","configurations"],"rows 0..70 x threads -1..9 x GOMAXPROCS 1..4 x dense/CSR x extra columns x raw/transformed/leaf models",
 "Tests use fixed test sets with a few thread counts; remainder batches and extra columns are not enumerated.",
 ["leaves.go"],[("batch splitting and the task queue","leaves.go PredictDense, PredictCSR")],["contents of the predictions slice"])
p("C08","Parallel batch prediction is deterministic and terminates under every schedule",
 "Under every interleaving of the goroutines a parallel PredictDense or PredictCSR call starts, the call returns, all its goroutines have finished, no two of them access the same memory without ordering, and the predictions are bit-identical to the single-threaded result. Nothing is written after the call has returned.",
 ["schedules"],"every interleaving of the synchronisation operations of the real code (up to happens-before equivalence), for 2..4 batches x 2..4 threads x dense/CSR x raw/transformed/leaf",
 "go test runs one arbitrary schedule per call and no test runs under the race detector.",
 ["leaves.go"],[("unbuffered task channel, close, WaitGroup","leaves.go PredictDense, PredictCSR"),("per goroutine feature buffer","leaves.go PredictCSR")],
 ["call return, predictions, race detector, goroutine count"],None,"none: the sources are instrumented on the fly in a build overlay")
p("C09","Sparse rows: absent means zero (missing for XGBoost trees); rows are isolated",
 "A sparse row predicts the same as the dense row in which every absent feature is 0 (LightGBM, scikit-learn), NaN (XGBoost trees), or contributes nothing (gblinear). Entries whose column is beyond the model's features are ignored. No row's values influence any other row of the same or another batch, whatever the order of rows, order of columns in a row, or empty rows.",
 ["inputs","histories"],"all ordered pairs/triples of sparse row patterns over a column alphabet incl. out-of-range columns x model families x threads",
 "Tests use real sparse files with one model each; they cannot show isolation between arbitrary neighbouring rows.",
 ["leaves.go","lgensemble.go","xgensemble.go","xgblinear.go"],[("reset of the per-goroutine row buffer","predictCSRInner / resetFVals")],["PredictCSR output"])
p("C10","Transformations are the model's link function and finite for every score",
 "With transformation loading on, a model's output is exactly its link function applied to its raw score: sigmoid for binary objectives, softmax for multi-class, exponential for poisson/gamma/tweedie, identity for regression (scikit-learn models always give raw scores, as documented). For every finite raw score sigmoid lies in [0,1], softmax is a probability vector (finite, non-negative, summing to 1, order preserving), and the reported transformation name and number of outputs agree with what is computed. A model whose link function is not supported, or does not fit its number of groups, is refused at load instead of silently giving raw or empty output.",
 ["inputs","configurations"],"objectives x groups x raw scores from a wide alphabet (0, tiny, +-1, +-36, +-700..+-1e308) in all combinations x start offsets",
 "Tests check a few trained models whose scores are all moderate.",
 ["transformation/*.go","util/util.go","lgensemble_io.go","xgensemble_io.go","xgblinear_io.go"],
 [("link functions","transformation/"),("objective parsing","lgensemble_io.go lgObjectiveParse")],["Predict output, Transformation().Name/Type/NOutputGroups"])
p("C11","Predictions do not depend on call history or on derived views",
 "Any sequence of API calls on an ensemble and on ensembles derived from it (raw view, leaf view, views of views) leaves every later result the same as on a freshly loaded model, and the original ensemble keeps its own transformation. A derived raw view gives the untransformed scores and a derived leaf view the leaf indices, however they were derived. Failed calls and slices modified by the caller afterwards also leave no trace.",
 ["histories"],"all operation sequences up to a depth over view derivations and predict/metadata calls, compared with a fresh model",
 "Tests make one or two calls per loaded model.",
 ["leaves.go"],[("immutability of the loaded model; wrappers","leaves.go EnsembleWithRawPredictions, EnsembleWithLeafPredictions")],["all results of all public methods"])
p("C12","Leaf predictions identify the leaf each tree chose",
 "A leaf-index view returns, for every row, group g and estimator t, at position g*NEstimators+t, the index of the leaf reached by that tree: a whole number in [0, NLeaves of that tree), different for different leaves and equal for rows that reach the same leaf. For LightGBM text models it is the model file's own leaf number. NLeaves lists the true number of leaves per tree in the same order, and leaf prediction with fewer estimators, or on a model without trees, is refused with an error.",
 ["inputs","configurations"],"all enumerated tree models of every family x all rows reaching every leaf x groups x estimators x call forms",
 "Tests check one trained LightGBM model and one agaricus model.",
 ["lgensemble.go","xgensemble.go","leaves.go","lgtree.go"],[("predictLeafIndicesInner","lgensemble.go, xgensemble.go")],["Predict on EnsembleWithLeafPredictions, NLeaves"])
p("C13","Calls with unusable arguments are refused and never touch foreign memory",
 "A prediction call whose output slice, feature row or matrix is too short for the model returns an error (0.0 for PredictSingle, also for multi-output models) instead of panicking or reading wrong cells, and writes nothing. A successful call writes exactly rows*NOutputGroups values at the start of the output slice, and never changes its inputs. Larger-than-needed slices are always accepted.",
 ["inputs","configurations"],"all lengths around each required length for outputs, rows, columns, values, row headers x model families x views x threads",
 "Tests check one or two short slices.",
 ["leaves.go"],[("length checks","leaves.go Predict*")],["returned error, guard cells around the slices"])
p("C14","A model file cut off at any byte is refused or still predicts correctly",
 "For every model format and every prefix of a valid model file, loading either returns an error or yields a model whose predictions equal those of the complete file. It never panics, hangs or silently drops trees, leaves or weights.",
 ["crash_points","inputs"],"every byte prefix of small models of every format and of the shipped example models (at all structural boundaries)",
 "No test loads a truncated model.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/decoder.go","util/util.go"],
 [("EOF handling in readers","util.ReadParamsUntilBlank, xgbin.Read*, pickle.Decoder.readLine")],["loader error, predictions"])
p("C15","Loading is independent of how the stream delivers bytes, and I/O errors surface",
 "For every model or matrix format, splitting the same bytes into reads of any size, delivering empty reads, or returning the last bytes together with end-of-file gives the same result as reading from a plain file. An I/O error before the needed bytes have arrived is reported as an error, at whichever byte it happens, and never taken for the end of the file. A missing file is an error.",
 ["fault_sequences","inputs"],"every single split point, chunk sizes 1..17, empty-read and data+EOF patterns, an I/O error injected at every byte, for each loader",
 "Tests always read complete local files.",
 ["lgensemble_io.go","util/util.go","internal/xgbin/xgbin_io.go","internal/pickle/decoder.go","mat/mat_io.go"],
 [("use of ReadString/binary.Read/Read","readers")],["loader result with a fault-injecting io.Reader"])
p("C16","A model with a corrupted structural field is refused or predicts safely",
 "For every model format, when any one structural field of a valid file (counts, child and feature indices, category bounds, group numbers, lengths, opcodes), or any two of them together, are replaced by other values, loading and then predicting any row either returns an error or returns normally. It never panics, hangs, or allocates memory out of proportion to the file.",
 ["inputs","fault_sequences"],"every structural field, and every pair of fields of tiny models, of every format x an alphabet of wrong values (0, +-1, off by one, max, duplicates, removal), then all prediction forms",
 "No test loads a corrupted model except for wrong text headers.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/pickle","internal/xgbin"],
 [("validation at load","loaders")],["process survives; error or prediction"])
p("C17","Matrix readers deliver exactly the rows and values of the file",
 "Reading libsvm or delimited text gives exactly the file's rows in order, with each value correctly rounded at its own column, for dense and sparse forms, any limit, label-column skipping, delimiter, default value for empty fields, line endings and a missing final newline. A row limit n returns the first n rows. Malformed or ragged input that has no matrix form is an error, never a shifted or dropped value.",
 ["inputs"],"all small files over a token alphabet x limit x skip-label x delimiter x line-ending x final-newline variants, against a reference parser",
 "Tests read two small files.",
 ["mat/mat_io.go"],[("line and token parsing","mat/mat_io.go readFromLibsvm, readFromCsv")],["DenseMat/CSRMat fields"])
p("C18","A written matrix reads back bit-identical, and failed writes are reported",
 "Writing a dense matrix as delimited text and reading it back yields the same shape and bit-identical finite values, for any delimiter. If the writer or the file system fails at any point of the write, the call returns an error; nil means all data was written. Matrix constructors copy their input and reject inconsistent shapes.",
 ["inputs","fault_sequences"],"all matrices over a hard value alphabet up to 3x3 x delimiters; a write failure injected at every byte, real file-size limits and a full device",
 "No test writes a matrix with a failing writer.",
 ["mat/mat_io.go","mat/mat.go"],[("WriteStr / ToCsvFile","mat/mat_io.go")],["returned error, file contents"])
p("C19","Categorical splits keep exactly the listed categories",
 "For every category set in a LightGBM model and every category value, a row goes left exactly when its category is in the set, whichever internal encoding (single, one word, many words) is chosen and however many sets the tree holds. The bit-set helper functions agree with plain set semantics for all positions.",
 ["inputs"],"all subsets of boundary categories (0,1,30,31,32,33,62..65,95,96,127,128,...) x all probe categories; all pairs of sets in one tree; helpers exhaustively",
 "Tests check a few sets.",
 ["lgensemble_io.go","lgtree.go","util/util.go"],[("one-hot/small/large encodings","lgensemble_io.go createCategoricalNode"),("bit helpers","util/util.go")],["Predict; util.* helpers"])
p("C20","The pickle reader restores what Python would restore",
 "For every well-formed protocol-0 pickle made of the supported operations, decoding yields the object structure Python's unpickler builds: right nesting of tuples, lists and dicts, memo references, numbers, and strings with all escapes, byte for byte. Numeric arrays come back with the right values and byte order. Malformed programs (stack underflow, missing marks or memo entries, unknown operations) give an error, never a panic or a wrong object.",
 ["programs","inputs"],"all operation sequences up to a length over the supported opcodes, and all byte strings over an escape alphabet, against a reference pickle machine",
 "Tests decode a few files written by sklearn.",
 ["internal/pickle/decoder.go","internal/pickle/machine.go","internal/pickle/numpy.go"],[("stack machine","machine.go"),("opcode loop","decoder.go Decode")],["Decoder.Decode result"])
p("C21","Reported metadata is the model's own, and rows of exactly NFeatures always work",
 "Name, number of features, estimators, raw and output groups, leaf counts and transformation reported by a loaded model equal those of the source model for every family, including models with one feature, one group or one estimator. Every prediction call accepts rows of exactly NFeatures values and outputs of exactly NOutputGroups per row. Derived views report the metadata of what they return.",
 ["configurations","inputs"],"families x features 1..4 (and large) x groups x estimators x views",
 "Tests check the metadata of a handful of models, none with a single feature.",
 ["leaves.go","lgensemble.go","xgensemble.go","xgblinear.go","skensemble_io.go"],[("metadata accessors","leaves.go, *ensemble.go")],["accessors"])
p("C22","One loaded ensemble may be used from many goroutines at once",
 "Any mix of prediction and metadata calls made concurrently on one ensemble (and on views of it) gives each caller, under every interleaving, exactly the result it would get alone, without data races; loading another model meanwhile changes nothing. Calls never block each other forever.",
 ["schedules"],"every interleaving (up to happens-before equivalence) of 2..3 concurrent callers x call mixes, on the real code",
 "No test calls a model from two goroutines.",
 ["leaves.go","lgensemble.go","xgensemble.go","xgblinear.go","lgtree.go","transformation/*.go"],[("absence of shared mutable state","Ensemble methods")],["results, race detector"],None,"none: the sources are instrumented on the fly in a build overlay")
p("C23","LightGBM text loading tolerates layout differences that carry no meaning",
 "A LightGBM text model loads to the same predictions whatever its line endings, number of blank lines between sections, order of keys inside a section, presence of unknown keys, trailing sections, or number spelling (exponent or decimal). Header fields that change the meaning (version, class counts, tree count, linear trees) are checked and unsupported values are refused.",
 ["inputs","configurations"],"all combinations of layout rewrites of a base model up to two rewrites at once; header field alphabet",
 "Tests load files in the exact layout LightGBM wrote them.",
 ["util/util.go","lgensemble_io.go"],[("ReadParamsUntilBlank","util/util.go")],["loader result and predictions"])
p("C24","Comparison helpers never call different vectors equal",
 "The exported slice-comparison helpers report a mismatch exactly for the positions whose absolute difference exceeds the tolerance or is not comparable (NaN), and an error for different lengths. They never accept a NaN as equal to a number.",
 ["inputs"],"all pairs of vectors up to length 3 over a special-value alphabet x tolerances",
 "Tests check a few ordinary vectors.",
 ["util/util.go"],[("AlmostEqualFloat64Slices, NumMismatchedFloat64Slices","util/util.go")],["returned error / count"])
p("C25","File functions release the file on every path and touch nothing else",
 "Every function that loads a model or a matrix from a named file, or writes one, has closed the file when it returns, whether it succeeded, refused the content or met an I/O error at any byte, so that a process may call it any number of times. It leaves the input file as it was, creates, changes or removes no other file, and leaves no goroutine running.",
 ["inputs","fault_sequences"],"every file function x every prefix and single byte damage of small files of all formats x odd paths (directory, missing, link loop, too long) x a write limit at every byte",
 "No test looks at the open files of the process, and nearly none loads a bad file.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","mat/mat_io.go"],
 [("open and deferred close","*FromFile functions, mat.*File functions, ToCsvFile")],["open descriptors of the process, files of the directory, goroutines"])
p("C26","Loads and reads do not influence each other",
 "In any sequence of loading models (of any family, valid, truncated, corrupted, or from failing streams) and reading matrices in one process, every load gives the result it would have given alone, and models and matrices obtained earlier keep their values and metadata.",
 ["histories"],"all sequences of up to three loads over 50 actions (all families x equal-sized, larger, cut-off and failing inputs; matrices), and pairs repeated many times",
 "Each test loads one or two models and looks at them at once.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/decoder.go","util/util.go","mat/mat_io.go"],
 [("absence of state shared between loads","loaders, readers")],["predictions, metadata and matrix values at once and in the end"])
p("C27","Models a loader cannot evaluate are refused",
 "Each loader accepts exactly the kinds of model it can evaluate. A file of another library, format, booster, version or Python class, with numbers of classes, groups, trees, roots, weights, priors or estimators that do not fit together, or with a kind of decision or missing value it does not know, is refused with an error and no ensemble; nothing is taken for a similar kind and evaluated by its rules.",
 ["inputs","configurations"],"all loaders x files of all families and of other tools; all spellings one edit away from every name, version and class; all small combinations of class, group, tree, root, weight, prior and shape numbers; every decision and missing-value kind at every node",
 "The tests load files that fit, and a few that do not; an unsupported kind that is evaluated by the wrong rules gives plausible numbers and no error.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/pickle/sklearn.go","internal/pickle/numpy.go","internal/xgbin/xgbin_io.go"],
 [("checks of names, versions and classes","loaders, toGlobal"),("checks of counts and shapes","loaders, sklearn.go Build"),("checks of decision kinds","createNode of lgensemble_io.go")],["error and ensemble of the loader, predictions of what is accepted"])
p("C28","No cycle of operations leaves memory, goroutines or files behind",
 "Any cycle of operations (loading models that are valid, refused or broken off, deriving views, predicting by any path, calls that are refused, reading and writing matrices) can be repeated any number of times in one process: once its results are dropped, memory in use after garbage collection does not grow with the number of repetitions, and no goroutine is left.",
 ["inputs","histories"],"every operation on every family and every pair of operations as a cycle, with new content in every repetition",
 "A cache or registry that only grows makes no result wrong and is invisible in a test of a few calls; it ends a server after days.",
 ["leaves.go","lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","util/util.go","internal/pickle/decoder.go","mat/mat_io.go"],
 [("absence of state that outlives a call","loaders, views, predictions, readers")],["memory in use after garbage collection, number of goroutines"])
p("C29","Separate operations may run at the same time",
 "Goroutines that share no ensemble, reader, writer or file may use the packages at the same time: loading (from memory or files, valid, refused or failing), predicting with their own ensembles, reading and writing matrices, the helpers and the transformations. Under every schedule each of them gets exactly what it gets alone, there is no data race, and all of them return.",
 ["schedules","inputs"],"every interleaving of all pairs of operations on separate data, of pairs of sequences, of three of a kind, of one beside seventy",
 "State shared by the packages (a scratch buffer, a cache, a lock order) breaks only calls that overlap in a particular way; the tests never overlap loads or reads.",
 ["leaves.go","lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/decoder.go","mat/mat_io.go","util/util.go","transformation/transformation.go"],
 [("absence of package-level state","all packages")],["what each goroutine observes: metadata, predictions, matrices, texts of errors; data races; termination"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
