SEEDS = []

def seed(id, p, needs, breaks, edits, main, **kw):
    SEEDS.append(dict(id=id, p=p, needs=needs, breaks=breaks, edits=edits, main=main, **kw))

seed('C01-nan-zero', 'C01', 'a numerical node with missing type Zero and a NaN feature value', 'NaN is not treated as zero on nodes with missing type Zero, so the default direction is not taken',
 [('lgtree.go', 'if math.IsNaN(fval) && (node.Flags&missingNan == 0) {', 'if math.IsNaN(fval) && (node.Flags&(missingNan|missingZero) == 0) {')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{2 | 4}, left: []int{-1}, right: []int{-2}, thr: []float64{-5}, leaf: []float64{1, 2}}), false)
	got := predict(m, 0, math.NaN())[0]
	ok(got == 1, "NaN has to be taken as zero and go to the default side, got leaf value %v", got)
}''')

seed('C01-cat-fraction', 'C01', 'a categorical feature with a value in (-1, 0)', 'categories are truncated towards zero by LightGBM, so -0.5 is category 0; with the change it is an unknown category',
 [('lgtree.go', '\tif ifval < 0 {\n', '\tif ifval < 0 || fval < 0 {\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 1}, catT: []int{5}}), false)
	got := predict(m, 0, -0.5)[0]
	ok(got == 1, "-0.5 is category 0, got leaf value %v", got)
}''')

seed('C01-cat-small', 'C01', 'a tree with a category set of several words followed by a set of one word', 'the words of a small set are taken from the wrong position',
 [('lgensemble_io.go', 'catIdx = catThresholds[catBoundaries[catIdx]]', 'catIdx = catThresholds[catIdx]')],
 r'''
func main() {
	m := loadLG(LG(1, 1, "", T{feat: []int{0, 1}, dt: []int{1, 1}, left: []int{1, -1}, right: []int{-3, -2}, thr: []float64{0, 1}, leaf: []float64{1, 2, 3}, catB: []int{0, 2, 3}, catT: []int{6, 6, 9}}), false)
	got := predict(m, 0, 33, 3)[0]
	ok(got == 1, "category 3 is in the set {0, 3}, got leaf value %v", got)
}''')

JS = r'''
func tree(groups int, trees ...string) string {
	return fmt.Sprintf(`{"name":"tree","version":"v2","num_class":%d,"num_tree_per_iteration":%d,"label_index":0,"max_feature_idx":2,"feature_names":["a","b","c"],"tree_info":[%s]}`, groups, groups, strings.Join(trees, ","))
}

func load(s string) *leaves.Ensemble {
	m, err := leaves.LGEnsembleFromJSON(strings.NewReader(s), false)
	ok(err == nil, "the model does not load: %v", err)
	return m
}
'''
seed('C02-cat-bounds', 'C02', 'a JSON tree with two category sets of several words', 'the second large set of a tree is looked up with wrong bounds',
 [('lgensemble_io.go', 't.catThresholds = append(t.catThresholds, bitset...)\n\t\t\t\tt.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))',
   't.catThresholds = append(t.catThresholds, bitset...)\n\t\t\t\tt.catBoundaries = append(t.catBoundaries, uint32(len(bitset)))')],
 JS + r'''
func main() {
	leaf := func(v string) string { return `{"leaf_value":` + v + `}` }
	node := func(f, thr, l, r string) string {
		return `{"split_index":0,"split_feature":` + f + `,"threshold":"` + thr + `","decision_type":"==","default_left":false,"missing_type":"None","left_child":` + l + `,"right_child":` + r + `}`
	}
	m := load(tree(1, `{"tree_index":0,"num_leaves":3,"num_cat":2,"shrinkage":1,"tree_structure":`+node("0", "1||40", node("1", "2||50", leaf("1"), leaf("2")), leaf("3"))+`}`))
	got := predict(m, 0, 40, 50, 0)[0]
	ok(got == 1, "got leaf value %v", got)
}''')

seed('C02-default-left', 'C02', 'a JSON node with missing type Zero and default_left', 'the default direction of nodes with missing type Zero is lost',
 [('lgensemble_io.go', 'if nodeJSON.DefaultLeft {', 'if nodeJSON.DefaultLeft && missingType == missingNan {')],
 JS + r'''
func main() {
	m := load(tree(1, `{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,"tree_structure":{"split_index":0,"split_feature":1,"threshold":-3.5,"decision_type":"<=","default_left":true,"missing_type":"Zero","left_child":{"leaf_value":1},"right_child":{"leaf_value":2}}}`))
	got := predict(m, 0, 0, 0, 0)[0]
	ok(got == 1, "zero is missing and goes left, got leaf value %v", got)
}''')

seed('C03-dart-weight', 'C03', 'a dart model with several groups and different weights', 'trees of multi-class dart models are scaled by weights of other trees',
 [('xgensemble.go', 'pred * e.WeightDrop[ID]', 'pred * e.WeightDrop[i]')],
 r'''
func main() {
	leaf := func(v float32) []N { return []N{{L: -1, R: -1, info: v}} }
	m := loadXG(XG(0.5, 2, 2, "multi:softmax", "dart", []float32{1, 0.5, 0.25, 2}, leaf(1), leaf(1), leaf(1), leaf(1)), false)
	got := predict(m, 0, 0, 0)
	ok(got[0] == 1.75 && got[1] == 3, "want [1.75 3], got %v", got)
}''')

seed('C03-feature-mask', 'C03', 'a split on a feature number above 65535', 'feature numbers are cut to 16 bits',
 [('xgensemble_io.go', 'return origNode.SIndex & ((1 << 31) - 1)', 'return origNode.SIndex & ((1 << 16) - 1)')],
 r'''
func main() {
	m := loadXG(XG(0, 70000, 1, "reg:linear", "gbtree", nil, []N{{L: 1, R: 2, feat: 65537, info: 0.5}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}}), false)
	row := make([]float64, 70000)
	row[65537] = 1
	got := predict(m, 0, row...)[0]
	ok(got == 2, "got leaf value %v", got)
}''')

seed('C04-layout', 'C04', 'a gblinear model with several groups', 'weights are read group after group, while the file has them feature after feature',
 [('xgblinear.go', 'e.Weights[e.nRawOutputGroups*i+k]', 'e.Weights[e.NumFeature*k+i]')],
 r'''
func main() {
	m := loadLinear(Linear(0, 2, 3, "multi:softmax", []float32{1, 2, 3, 4, 5, 6, 0, 0, 0}), false)
	got := predict(m, 0, 1, 10)
	ok(got[0] == 41 && got[1] == 52 && got[2] == 63, "want [41 52 63], got %v", got)
}''')

seed('C04-bias', 'C04', 'a gblinear model with several groups and different biases', 'biases of the groups are taken in the wrong order',
 [('xgblinear.go', 'e.Weights[e.nRawOutputGroups*e.NumFeature+k]', 'e.Weights[len(e.Weights)-1-k]')],
 r'''
func main() {
	m := loadLinear(Linear(0, 1, 2, "multi:softmax", []float32{0, 0, 1, 2}), false)
	got := predict(m, 0, 1)
	ok(got[0] == 1 && got[1] == 2, "want [1 2], got %v", got)
}''')

seed('C05-byte-order', 'C05', 'a pickle whose arrays are big-endian (written on another machine)', 'values of trees are always read as little-endian',
 [('internal/pickle/sklearn.go', 't.Values = append(t.Values, util.Float64FromBytes(b, arr.Type.LittleEndinan))', 't.Values = append(t.Values, util.Float64FromBytes(b, true))')],
 r'''
func main() {
	s := SK(2, 3, 1, []float64{0}, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 1.5}})
	le := array("I1\nI1\nI1\n", "f8", "<", raw(f64(1.5)))
	be := array("I1\nI1\nI1\n", "f8", ">", raw(string(lat(func(b *bytes.Buffer) {
		for i := 7; i >= 0; i-- {
			b.WriteByte(byte(math.Float64bits(1.5) >> uint(8*i) ))
		}
	}))))
	// big-endian is the reverse of the little-endian bytes
	rev := func() string {
		bits := math.Float64bits(1.5)
		return string(lat(func(b *bytes.Buffer) {
			for i := 0; i < 8; i++ {
				b.WriteByte(byte(bits >> uint(56-8*i)))
			}
		}))
	}
	be = array("I1\nI1\nI1\n", "f8", ">", raw(rev()))
	ok(strings.Count(s, le) == 1, "the array of values is there")
	m := loadSK(strings.Replace(s, le, be, 1))
	got := predict(m, 0, 0, 0, 0)[0]
	ok(got == 1.5, "want 1.5, got %v", got)
}''')

CONST = r'''
func leaf(v float64) T { return T{leaf: []float64{v}} }
'''
seed('C06-forest', 'C06', 'a random forest predicted with a part of its trees', 'the sum over the used trees is divided by the number of all trees',
 [('lgensemble.go', 'coef = 1.0 / float64(nEstimators)', 'coef = 1.0 / float64(e.NEstimators())')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "average_output\n", leaf(1), leaf(2), leaf(6)), false)
	ok(predict(m, 0, 0)[0] == 3, "mean of all")
	got := predict(m, 2, 0)[0]
	ok(got == 1.5, "mean of the first two trees is 1.5, got %v", got)
}''')

seed('C06-negative', 'C06', 'a negative nEstimators on an XGBoost model', 'a negative number selects no trees instead of all of them',
 [('xgensemble.go', 'if nEstimators > 0 {', 'if nEstimators != 0 {')],
 r'''
func main() {
	m := loadXG(XG(0, 2, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: 3}}), false)
	got := predict(m, -1, 0, 0)[0]
	ok(got == 3, "negative nEstimators means all, got %v", got)
}''')

seed('C06-clamp', 'C06', 'a multi-class model and nEstimators between the number of estimators and the number of trees', 'nEstimators is limited by the number of trees of all groups',
 [('lgensemble.go', 'util.MinInt(nEstimators, e.NEstimators())', 'util.MinInt(nEstimators, len(e.Trees))')],
 CONST + r'''
func main() {
	m := loadLG(LG(2, 0, "", leaf(1), leaf(2), leaf(3), leaf(4)), false)
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	got := predict(m, 3, 0)
	ok(got[0] == 4 && got[1] == 6, "want [4 6], got %v", got)
}''')

STEP = r'''
// tree returns the first feature as number of steps
func tree(f int) T {
	return T{feat: []int{f, f}, dt: []int{8, 8}, left: []int{-1, -2}, right: []int{1, -3}, thr: []float64{0.5, 1.5}, leaf: []float64{10, 20, 30}}
}

func want(v float64) float64 {
	if v <= 0.5 {
		return 10
	} else if v <= 1.5 {
		return 20
	}
	return 30
}
'''
seed('C07-stride', 'C07', 'a dense matrix with extra columns, more than 16 rows and several threads', 'rows of the parallel path are taken with the wrong stride',
 [('leaves.go', 'e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)],', 'e.predictInnerAndTransform(vals[i*e.NFeatures():(i+1)*e.NFeatures()],')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false)
	runtime.GOMAXPROCS(4)
	vals := make([]float64, 80)
	for i := range vals {
		vals[i] = float64(i % 3)
	}
	out := make([]float64, 40)
	ok(m.PredictDense(vals, 40, 2, out, 0, 2) == nil, "PredictDense")
	for i := range out {
		ok(out[i] == want(vals[2*i]), "row %d: %v", i, out[i])
	}
}''')

seed('C07-last-row', 'C07', 'a sparse matrix with 16*k+1 rows and several threads', 'the last row is never predicted',
 [('leaves.go', 'nBatches := int(math.Ceil(float64(nRows) / BatchSize))', 'nBatches := (nRows + BatchSize - 2) / BatchSize')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false)
	runtime.GOMAXPROCS(4)
	for rows := 17; rows < 40; rows++ {
		indptr := []int{0}
		for i := 0; i < rows; i++ {
			indptr = append(indptr, 0)
		}
		out := make([]float64, rows)
		ok(m.PredictCSR(indptr, nil, nil, out, 0, 2) == nil, "PredictCSR")
		for i := range out {
			ok(out[i] == 10, "%d rows, row %d: %v", rows, i, out[i])
		}
	}
}''', nth={'nBatches := int(math.Ceil(float64(nRows) / BatchSize))': 0})

seed('C10-sigmoid', 'C10', 'a raw score above 710', 'the exponent overflows and the probability is NaN',
 [('util/util.go', '''	return 1.0 / (1.0 + math.Exp(-x))
''', '''	exp := math.Exp(x)
	return exp / (1.0 + exp)
''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "objective=binary sigmoid:1\n", leaf(800)), true)
	got := predict(m, 0, 0)[0]
	ok(got == 1, "want 1, got %v", got)
}''')

seed('C10-logitraw', 'C10', 'a gblinear model trained with objective binary:logitraw', 'sigmoid is applied to an objective whose output is the margin',
 [('xgblinear_io.go', 'if header.NameObj == "binary:logistic" {', 'if strings.HasPrefix(header.NameObj, "binary:logi") {'), ('xgblinear_io.go', '	"os"\n', '	"os"\n	"strings"\n')],
 r'''
func main() {
	m, err := leaves.XGBLinearFromReader(bufio.NewReader(bytes.NewReader(Linear(0, 1, 1, "binary:logitraw", []float32{1, 0}))), true)
	ok(err != nil || predict(m, 0, 2)[0] == 2, "logitraw is the margin itself")
}''')

seed('C11-nleaves', 'C11', 'a caller that changes the slice returned by NLeaves', 'the slice is cached and shared with all callers',
 [('lgensemble.go', '	averageOutput bool\n}', '	averageOutput bool\n	nLeaves []int\n}'),
  ('lgensemble.go', '''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID''', '''	if e.nLeaves != nil {
		return e.nLeaves
	}
	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID'''), ('lgensemble.go', '	return nleaves\n', '	e.nLeaves = nleaves\n	return e.nLeaves\n')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(2)), false)
	m.NLeaves()[0] = 77
	ok(m.NLeaves()[0] == 1, "got %v", m.NLeaves())
}''')

seed('C11-raw-of-leaf', 'C11', 'a raw view of a leaf view', 'the number of outputs of a raw view is taken from the view it was derived from',
 [('leaves.go', '&transformation.TransformRaw{e.NRawOutputGroups()}}', '&transformation.TransformRaw{e.NOutputGroups()}}')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(2), leaf(4)), false)
	v := m.EnsembleWithLeafPredictions().EnsembleWithRawPredictions()
	ok(v.NOutputGroups() == 1, "%d output groups", v.NOutputGroups())
	ok(v.PredictSingle([]float64{0}, 0) == 7, "raw score is %v", v.PredictSingle([]float64{0}, 0))
}''')

seed('C12-layout', 'C12', 'a leaf view of a multi-class XGBoost model with several estimators', 'leaf indices are written estimator by estimator',
 [('xgensemble.go', 'predictions[startIndex+k*nEstimators+i] = float64(idx)', 'predictions[startIndex+i*e.nRawOutputGroups+k] = float64(idx)')],
 r'''
func main() {
	split := func(thr float32) []N { return []N{{L: 1, R: 2, info: thr}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}} }
	m := loadXG(XG(0, 1, 2, "multi:softmax", "gbtree", nil, split(1), split(-1), split(1), split(-1)), false)
	v := m.EnsembleWithLeafPredictions()
	got := predict(v, 0, 0)
	ok(len(got) == 4 && got[0] == got[1] && got[2] == got[3] && got[0] != got[2], "want pairs of equal numbers, got %v", got)
}''')

seed('C12-nleaves', 'C12', 'a multi-class XGBoost model with several estimators and trees of different size', 'leaf counts are listed estimator by estimator',
 [('xgensemble.go', 'nleaves[groupID*e.NEstimators()+estimatorID] =', 'nleaves[estimatorID*e.NRawOutputGroups()+groupID] =')],
 r'''
func main() {
	split := []N{{L: 1, R: 2}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}}
	leaf := []N{{L: -1, R: -1, info: 1}}
	m := loadXG(XG(0, 1, 2, "multi:softmax", "gbtree", nil, split, leaf, split, leaf), false)
	got := m.NLeaves()
	ok(fmt.Sprint(got) == "[2 2 1 1]", "want [2 2 1 1], got %v", got)
}''')

seed('C13-csr-output', 'C13', 'a sparse batch of a multi-class model with an output slice for one number per row', 'the length of the output is checked without the number of groups',
 [('leaves.go', 'if len(predictions) < e.NOutputGroups()*nRows {\n		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)\n	}\n	if err := checkCSR', 'if len(predictions) < nRows {\n		return fmt.Errorf("predictions slice too short (should be at least %d)", nRows)\n	}\n	if err := checkCSR')],
 CONST + r'''
func main() {
	m := loadLG(LG(2, 0, "", leaf(1), leaf(2)), false)
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	ok(m.PredictCSR([]int{0, 0, 0}, nil, nil, make([]float64, 2), 0, 1) != nil, "no error")
}''')

seed('C14-lost-trees', 'C14', 'a LightGBM text file cut exactly between two trees', 'the missing trees are silently dropped',
 [('lgensemble_io.go', '''		tree, err := lgTreeFromReader(reader)
		if err != nil {
''', '''		tree, err := lgTreeFromReader(reader)
		if err == io.EOF && i > 0 && i%e.nRawOutputGroups == 0 {
			// model was saved in the middle of training
			break
		} else if err != nil {
''')],
 CONST + r'''
func main() {
	s := LG(1, 0, "", leaf(1), leaf(2))
	m, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(s[:strings.Index(s, "Tree=1")])), false)
	ok(err != nil || predict(m, 0, 0)[0] == 3, "a cut model is loaded")
}''')

seed('C14-dart-weights', 'C14', 'a dart file cut exactly before the weights of its trees', 'the weights are silently taken as 1',
 [('xgensemble_io.go', '''		if err != nil {
			return nil, err
		}
		if len(weightDrop) !=''', '''		if err == io.EOF {
			// no tree was dropped
			weightDrop = make([]float32, origModel.Param.NumTrees)
			for i := range weightDrop {
				weightDrop[i] = 1.0
			}
		} else if err != nil {
			return nil, err
		}
		if len(weightDrop) !='''), ('xgensemble_io.go', '	"fmt"\n', '	"fmt"\n	"io"\n'), ('xgensemble_io.go', '			e.WeightDrop[i] = float64(v)\n', '			e.WeightDrop[i] = float64(v) // weight of a dropped tree\n')],
 r'''
func main() {
	d := XG(0, 1, 1, "reg:linear", "dart", []float32{0.5}, []N{{L: -1, R: -1, info: 3}})
	m, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(d[:len(d)-12])), false)
	ok(err != nil || predict(m, 0, 0)[0] == 1.5, "a cut model is loaded")
}''')

READER = r'''
// broken delivers its data, then fails
type broken struct {
	data []byte
	err  error
}

func (b *broken) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, b.err
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}
'''
seed('C15-libsvm-error', 'C15', 'an I/O error at the end of a line of a libsvm file', 'the error is taken for the end of the file',
 [('mat/mat_io.go', 'if err != nil && err != io.EOF {\n			return err\n		}\n		line = strings.TrimSpace(line)', 'if err != nil && err != io.EOF && line != "" {\n			return err\n		}\n		line = strings.TrimSpace(line)')],
 READER + r'''
func main() {
	m, err := mat.DenseMatFromLibsvm(bufio.NewReader(&broken{[]byte("1 0:1\n1 0:2\n"), errors.New("disk")}), 0, true)
	ok(err != nil, "no error, %v", m)
}''')

seed('C15-params-error', 'C15', 'a transient I/O error inside of a tree section of a LightGBM text file', 'the error is swallowed and the line it cuts is taken as whole',
 [('util/util.go', '		if err != nil && err != io.EOF {\n			return nil, err\n		}\n', ''), ('util/util.go', '	"io"\n', '')],
 r'''
type flaky struct {
	a, b string
}

func (f *flaky) Read(p []byte) (int, error) {
	if f.a != "" {
		n := copy(p, f.a)
		f.a = f.a[n:]
		if f.a == "" {
			return n, errors.New("disk")
		}
		return n, nil
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func main() {
	s := LG(1, 0, "", T{leaf: []float64{1.25}})
	i := strings.Index(s, "leaf_value=1.2") + len("leaf_value=1.2")
	m, err := leaves.LGEnsembleFromReader(bufio.NewReader(&flaky{s[:i], s[i:]}), false)
	ok(err != nil || predict(m, 0, 0)[0] == 1.25, "a wrong model is loaded")
}''')

seed('C16-zero-nodes', 'C16', 'an XGBoost tree with a zero number of nodes', 'an empty tree is not refused',
 [('xgensemble_io.go', '	if origTree.Param.NumNodes == 0 {', '	if origTree.Param.NumNodes < 0 {')],
 r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	_, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{}))), false)
	ok(err != nil, "no error")
}''')

seed('C16-num-class', 'C16', 'a LightGBM JSON model with zero number of classes', 'division by zero',
 [('lgensemble_io.go', '	} else if data.NumClasses < 1 {', '	} else if data.NumClasses < 0 {'), ('lgensemble_io.go', '	} else if data.NumTreesPerIteration < 1 {', '	} else if data.NumTreesPerIteration < 0 {')],
 JS + r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	_, err := leaves.LGEnsembleFromJSON(strings.NewReader(tree(0, `{"tree_index":0,"num_leaves":1,"num_cat":0,"shrinkage":1,"tree_structure":{"leaf_value":1}}`)), false)
	ok(err != nil, "no error")
}''')

seed('C17-dense-columns', 'C17', 'a libsvm file whose second row skips a column', 'columns are checked in the first row only, so values of later rows are shifted',
 [('mat/mat_io.go', '		if i != r.column {', '		if mat.Rows == 0 && i != r.column {')],
 r'''
func main() {
	m, err := mat.DenseMatFromLibsvm(bufio.NewReader(strings.NewReader("1 0:1 1:2\n1 0:1 2:2\n")), 0, true)
	ok(err != nil, "no error, %v", m)
}''')

seed('C17-long-lines', 'C17', 'a line of a csv file longer than 64 KB', 'reading stops silently at the line',
 [('mat/mat_io.go', '''	if skipFirstColumn {
		startIndex = 1
	}
	for {
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		// NOTE''', '''	if skipFirstColumn {
		startIndex = 1
	}
	scanner := bufio.NewScanner(reader)
	for {
		var err error
		if !scanner.Scan() {
			err = io.EOF
		}
		line := scanner.Text()
		// NOTE''')],
 r'''
func main() {
	long := strings.Repeat("1,", 40000) + "1\n"
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader(long+long)), 0, false, ",", 0)
	ok(err != nil || m.Rows == 2 && m.Cols == 40001, "rows are lost")
}''')

seed('C17-wide-column', 'C17', 'a libsvm column number above 65535', 'large column numbers are refused',
 [('mat/mat_io.go', 'strconv.ParseUint(pair[0], 10, 32)', 'strconv.ParseUint(pair[0], 10, 16)')],
 r'''
func main() {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("1 0:1 70000:2\n")), 0, true)
	ok(err == nil && len(m.ColIndexes) == 2 && m.ColIndexes[1] == 70000, "%v", err)
}''')

seed('C18-digits', 'C18', 'a value that needs 17 digits', 'values are rounded while writing',
 [('mat/mat_io.go', '%.19g', '%.16g')],
 r'''
func main() {
	m, _ := mat.DenseMatFromArray([]float64{math.Nextafter(0.1, 1)}, 1, 1)
	b := &bytes.Buffer{}
	ok(m.WriteStr(b, ",") == nil, "WriteStr")
	r, err := mat.DenseMatFromCsv(bufio.NewReader(b), 0, false, ",", 0)
	ok(err == nil && r.Values[0] == m.Values[0], "%v", r)
}''')

seed('C18-newline', 'C18', 'a writer that fails exactly at the end of a row', 'the error of the write is lost',
 [('mat/mat_io.go', '''		_, err := fmt.Fprint(writer, "\\n")
		if err != nil {
			return err
		}
''', '''		fmt.Fprint(writer, "\\n")
''')],
 r'''
type limited int

func (l *limited) Write(p []byte) (int, error) {
	if int(*l) < len(p) {
		return 0, errors.New("no space")
	}
	*l -= limited(len(p))
	return len(p), nil
}

func main() {
	m, _ := mat.DenseMatFromArray([]float64{1, 2}, 1, 2)
	l := limited(3)
	ok(m.WriteStr(&l, ",") != nil, "no error")
}''')

seed('C18-alias', 'C18', 'a caller that changes the array after making a matrix of it', 'the matrix shares the array',
 [('mat/mat.go', '	mat.Values = append(mat.Values, values...)\n	mat.Cols = cols', '	mat.Values = values\n	mat.Cols = cols')],
 r'''
func main() {
	v := []float64{1, 2}
	m, _ := mat.DenseMatFromArray(v, 1, 2)
	v[0] = 5
	ok(m.Values[0] == 1, "%v", m)
}''')

seed('C19-unsorted', 'C19', 'a category set that is not sorted', 'the size of the set is taken from its last category',
 [('util/util.go', '''	max := values[0]
	for _, v := range values {
		if v > max {
			max = v
		}
	}
	max++
''', '''	max := values[len(values)-1] + 1
''')],
 r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	b := util.ConstructBitset([]int{40, 3})
	ok(len(b) == 2 && b[0] == 8 && b[1] == 256, "%v", b)
}''')

seed('C19-next-set', 'C19', 'a category just behind the last word of a set', 'the first word of the next set is looked at',
 [('lgtree.go', 'if i1 >= (idxE - idxS) {', 'if i1 > (idxE - idxS) {')],
 r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	m := loadLG(LG(1, 1, "", T{feat: []int{0, 1}, dt: []int{1, 1}, left: []int{-1, -2}, right: []int{1, -3}, thr: []float64{0, 1}, leaf: []float64{1, 2, 3}, catB: []int{0, 2, 4}, catT: []int{6, 6, 1, 1}}), false)
	got := predict(m, 0, 64, 7)[0]
	ok(got == 3, "got %v", got)
}''')

seed('C20-long', 'C20', 'a long integer above 2**31', 'long integers are limited to 32 bits',
 [('internal/pickle/decoder.go', 'strconv.Atoi(string(line[:l-1]))\n			if err != nil {\n				return nil, fmt.Errorf("unexpected long', 'strconv.ParseInt(string(line[:l-1]), 10, 32)\n			if err != nil {\n				return nil, fmt.Errorf("unexpected long'),
  ('internal/pickle/decoder.go', '			d.machine.push(v)\n		case opInt:', '			d.machine.push(int(v))\n		case opInt:')],
 r'''
func main() {
	v, err := pickle.NewDecoder(strings.NewReader("L5000000000L\n.")).Decode()
	ok(err == nil && v == interface{}(5000000000), "%v %v", v, err)
}''')

seed('C21-leaf-of-leaf', 'C21', 'a leaf view of a leaf view', 'the number of outputs is multiplied twice',
 [('leaves.go', '&transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}', '&transformation.TransformLeafIndex{e.NOutputGroups() * e.NEstimators()}}')],
 CONST + r'''
func main() {
	v := loadLG(LG(1, 0, "", leaf(1), leaf(2)), false).EnsembleWithLeafPredictions().EnsembleWithLeafPredictions()
	ok(v.NOutputGroups() == 2, "%d outputs", v.NOutputGroups())
}''')

seed('C22-lazy-leaves', 'C22', 'two goroutines asking for leaf counts for the first time', 'the counts are cached without synchronization and can be seen half filled',
 [('xgensemble.go', '	name string\n}', '	name string\n	// number of leaves of every tree (lazily)\n	nLeaves []int\n}'),
  ('xgensemble.go', '	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())\n', '''	if e.nLeaves != nil {
		return append([]int{}, e.nLeaves...)
	}
	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	e.nLeaves = nleaves
'''), ('xgensemble.go', '	return nleaves\n', '	return append([]int{}, nleaves...)\n')],
 r'''
func main() {
	runtime.GOMAXPROCS(8)
	leaf := []N{{L: -1, R: -1, info: 1}}
	m := loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, leaf, leaf), false)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := m.NLeaves()
			ok(n[0] == 1 && n[1] == 1, "%v", n)
		}()
	}
	wg.Wait()
}''', race=True)

seed('C23-version', 'C23', 'a model file of an unknown version', 'any version is accepted',
 [('lgensemble_io.go', '''		if err := params.Compare("version", "v3"); err != nil {
			return nil, err
		}
''', '''		if version, _ := params.ToString("version"); version < "v3" {
			return nil, err
		}
''')],
 CONST + r'''
func main() {
	s := strings.Replace(LG(1, 0, "", leaf(1)), "version=v2", "version=v4", 1)
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err != nil, "no error")
}''')

seed('C23-crlf', 'C23', 'a LightGBM text model with CRLF line endings', 'the carriage return stays in the values and blank lines are not seen',
 [('util/util.go', '		line = strings.TrimSpace(line)\n		if line == "" {\n			break\n', '		line = strings.TrimRight(line, " \\n")\n		if line == "" {\n			break\n')],
 CONST + r'''
func main() {
	s := strings.Replace(LG(1, 0, "", leaf(1)), "\n", "\r\n", -1)
	m, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err == nil && predict(m, 0, 0)[0] == 1, "%v", err)
}''')

seed('C23-classes', 'C23', 'a model whose num_class differs from num_tree_per_iteration', 'the unsupported layout is accepted',
 [('lgensemble_io.go', 'if nClasses != nTreePerIteration {', 'if nClasses < nTreePerIteration {')],
 CONST + r'''
func main() {
	s := strings.Replace(LG(2, 0, "", leaf(1), leaf(2)), "num_tree_per_iteration=2", "num_tree_per_iteration=1", 1)
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err != nil, "no error")
}''')

seed('C24-length', 'C24', 'a second vector longer than the first', 'the rest of the longer vector is ignored',
 [('util/util.go', '	if len(a) != len(b) {\n		return 0, fmt', '	if len(a) > len(b) {\n		return 0, fmt')],
 r'''
func main() {
	_, err := util.NumMismatchedFloat64Slices([]float64{1}, []float64{1, 2}, 0.1)
	ok(err != nil, "no error")
}''')

PAR = STEP + r'''
func big(n int) (*leaves.Ensemble, []float64) {
	runtime.GOMAXPROCS(8)
	vals := make([]float64, n)
	for i := range vals {
		vals[i] = float64(i % 3)
	}
	return loadLG(LG(1, 0, "", tree(0)), false), vals
}
'''
seed('C08-ticket', 'C08', 'two goroutines taking their next batch at the same moment', 'the counter of batches is incremented and read in two steps, so two goroutines can take the same batch and skip another one',
 [('leaves.go', '''			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i''', '''			for {
				atomic.AddInt32(&next, 1)
				startIndex := (int(atomic.LoadInt32(&next)) - 1) * BatchSize
				if startIndex >= nRows {
					return
				}
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i'''),
  ('leaves.go', '''	tasks := make(chan int)

''', '''	next := int32(0)

'''), ('leaves.go', '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
''', ''), ('leaves.go', '"sync"\n', '"sync"\n	"sync/atomic"\n')],
 PAR + r'''
func main() {
	m, vals := big(4000)
	for k := 0; k < 2000; k++ {
		out := make([]float64, 4000)
		m.PredictDense(vals, 4000, 1, out, 0, 8)
		for i := range out {
			ok(out[i] == want(vals[i]), "row %d: %v", i, out[i])
		}
	}
}''', nth={'''	tasks := make(chan int)

''': 1, '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
''': 1})

seed('C08-wide-buffer', 'C08', 'a model with more than 256 features and two goroutines of one PredictCSR call working at the same time', 'goroutines share one row buffer for wide models',
 [('leaves.go', '''	tasks := make(chan int)

''', '''	tasks := make(chan int)
	var wide []float64
	if e.NFeatures() > 256 {
		wide = make([]float64, e.NFeatures())
	}

'''), ('leaves.go', '''			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for''', '''			fvals := wide
			if fvals == nil {
				fvals = make([]float64, e.NFeatures())
			}
			e.resetFVals(fvals)
			for''')],
 STEP + r'''
func main() {
	var trees []T
	for i := 0; i < 30; i++ {
		trees = append(trees, tree(i*10))
	}
	m := loadLG(LG(1, 299, "", trees...), false)
	runtime.GOMAXPROCS(8)
	indptr, cols, vals := []int{0}, []int{}, []float64{}
	for i := 0; i < 4000; i++ {
		for j := 0; j < 30; j++ {
			cols = append(cols, j*10)
			vals = append(vals, float64((i+j)%3))
		}
		indptr = append(indptr, len(cols))
	}
	a, b := make([]float64, 4000), make([]float64, 4000)
	m.PredictCSR(indptr, cols, vals, a, 0, 1)
	for k := 0; k < 20; k++ {
		m.PredictCSR(indptr, cols, vals, b, 0, 8)
		for i := range a {
			ok(a[i] == b[i], "row %d: %v and %v", i, a[i], b[i])
		}
	}
}''', nth={'''	tasks := make(chan int)

''': 0}, race=True)

seed('C08-lost-wait', 'C08', 'a batch of the last goroutines being still in work when the caller goes on', 'the caller waits only for as many batches as there are full ones',
 [('leaves.go', '''		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex''', '''		go func() {
			for startIndex'''),
  ('leaves.go', '''					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
''', '''					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
				if endIndex-startIndex == BatchSize {
					wg.Done()
				}
'''), ('leaves.go', '''	wg := sync.WaitGroup{}
''', '''	wg := sync.WaitGroup{}
	wg.Add(nRows / BatchSize)
''')],
 PAR + r'''
func main() {
	m, vals := big(40)
	for k := 0; k < 1000; k++ {
		out := make([]float64, 40)
		m.PredictDense(vals, 40, 1, out, 0, 8)
		for i := range out {
			ok(out[i] == want(vals[i]), "row %d: %v", i, out[i])
		}
	}
}''', nth={'''	wg := sync.WaitGroup{}
''': 1}, race=True)

seed('C09-span', 'C09', 'a sparse row whose columns are not in ascending order, followed by another row', 'only the columns between the first and the last entry of a row are reset after it',
 [('leaves.go', '''i*e.NOutputGroups())
		e.resetFVals(fvals)
''', '''i*e.NOutputGroups())
		// reset the part of the row that was filled
		first, last := len(fvals), len(fvals)
		if start < end {
			first, last = util.MinInt(cols[start], last), util.MinInt(cols[end-1]+1, last)
		}
		if first < last {
			e.resetFVals(fvals[first:last])
		}
'''), ('leaves.go', '''leaves/transformation"
''', '''leaves/transformation"
	"github.com/dmitryikh/leaves/util"
''')],
 r'''
func main() {
	t := T{feat: []int{2}, dt: []int{8}, left: []int{-1}, right: []int{-2}, thr: []float64{0.5}, leaf: []float64{1, 2}}
	m := loadLG(LG(1, 2, "", t), false)
	out := make([]float64, 2)
	ok(m.PredictCSR([]int{0, 3, 3}, []int{2, 0, 1}, []float64{1, 1, 1}, out, 0, 1) == nil, "error")
	ok(out[0] == 2 && out[1] == 1, "%v", out)
}''')

seed('C09-break', 'C09', 'a sparse row with a column beyond the features of the model before a column of the model', 'the rest of the row is dropped',
 [('leaves.go', '''			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}
''', '''			if cols[j] >= len(fvals) {
				break
			}
			fvals[cols[j]] = vals[j]
''')],
 r'''
func main() {
	t := T{feat: []int{2}, dt: []int{8}, left: []int{-1}, right: []int{-2}, thr: []float64{0.5}, leaf: []float64{1, 2}}
	m := loadLG(LG(1, 2, "", t), false)
	out := make([]float64, 1)
	ok(m.PredictCSR([]int{0, 2}, []int{3, 2}, []float64{1, 1}, out, 0, 1) == nil, "error")
	ok(out[0] == 2, "%v", out)
}''')

seed('C05-single-leaf', 'C05', 'a model whose first tree is a single leaf', 'the prior is dropped with it',
 [('skensemble_io.go', 't.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)', 't.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale)')],
 r'''
func main() {
	leaf := func(v float64) []S { return []S{{-1, -1, -2, -2, v}} }
	m := loadSK(SK(2, 2, 0.5, []float64{0.25}, leaf(1), leaf(2)))
	got := predict(m, 0, 0, 0)[0]
	ok(got == 1.75, "%v", got)
}''')

seed('C13-input', 'C13', 'a dense matrix with NaN in a column that is split without missing values', 'the row given by the caller is changed',
 [('lgtree.go', '		left := t.decision(node, fvals[node.Feature])\n', '''		if node.Flags&(categorical|missingNan) == 0 && math.IsNaN(fvals[node.Feature]) {
			// NaN is zero here
			fvals[node.Feature] = 0.0
		}
		left := t.decision(node, fvals[node.Feature])
''')],
 r'''
func main() {
	t := T{feat: []int{0}, dt: []int{0}, left: []int{-1}, right: []int{-2}, thr: []float64{0.5}, leaf: []float64{1, 2}}
	m := loadLG(LG(1, 0, "", t), false)
	row := []float64{math.NaN()}
	predict(m, 0, row...)
	m.PredictSingle(row, 0)
	ok(math.IsNaN(row[0]), "the row is changed to %v", row)
}''')

seed('C19-many', 'C19', 'a set of more than 255 categories', 'the number of categories is counted in 8 bits, so that a set of 257 is taken for a set of one',
 [('util/util.go', '	count := uint32(0)\n	for _, e := range bitset {\n		count += numberOfSetBitsInBitsetElement(e)\n	}\n	return count\n',
   '	count := uint8(0)\n	for _, e := range bitset {\n		count += uint8(numberOfSetBitsInBitsetElement(e))\n	}\n	return uint32(count)\n')],
 r'''
func main() {
	set := make([]uint32, 9)
	for i := 0; i < 8; i++ {
		set[i] = 0xffffffff
	}
	set[8] = 1
	n := util.NumberOfSetBits(set)
	ok(n == 257, "%d", n)
}''')

seed('C20-duplicate-key', 'C20', 'a dictionary display with the same key twice', 'the first value wins',
 [('internal/pickle/decoder.go', '				dict[key] = objs[i+1]\n', '				if _, isFound := dict[key]; !isFound {\n					dict[key] = objs[i+1]\n				}\n')],
 r'''
func main() {
	v, err := pickle.NewDecoder(strings.NewReader("(Va\nI1\nVa\nI2\nd.")).Decode()
	ok(err == nil, "%v", err)
	d := v.(pickle.Dict)
	ok(d["a"] == interface{}(2), "%v", d)
}''')

seed('C20-escape-order', 'C20', 'a string with a backslash followed by u000a', 'an escaped backslash makes a new escape with the characters that follow it',
 [('internal/pickle/decoder.go', '''	ret := bytes.Replace(rawString, []byte{'\\\\', 'u', '0', '0', '0', 'a'}, []byte{'\\n'}, -1)
''', '''	ret := bytes.Replace(rawString, []byte{'\\\\', 'u', '0', '0', '5', 'c'}, []byte{'\\\\'}, -1)
	ret = bytes.Replace(ret, []byte{'\\\\', 'u', '0', '0', '0', 'a'}, []byte{'\\n'}, -1)
''')],
 r'''
func main() {
	v, err := pickle.NewDecoder(strings.NewReader("V\\u005cu000a\n.")).Decode()
	ok(err == nil && fmt.Sprintf("%s", v) == "\\u000a", "%q %v", v, err)
}''')

seed('C20-long-line', 'C20', 'a string of more than 64 KiB', 'the end of the line is lost',
 [('internal/pickle/decoder.go', '		line = append(line, buf[0])\n', '		if n := cap(line); n < 1<<16 {\n			line = append(line, buf[0])\n		}\n')],
 r'''
func main() {
	v, err := pickle.NewDecoder(strings.NewReader("V" + strings.Repeat("x", 70000) + "\n.")).Decode()
	ok(err == nil && len(fmt.Sprintf("%s", v)) == 70000, "%v", err)
}''')

seed('C22-single-buffer', 'C22', 'two goroutines calling PredictSingle at the same time', 'they share the place of the result',
 [('leaves.go', '	ret := [1]float64{0.0}\n', ''), ('leaves.go', '// PredictSingle calculates', '// ret keeps the result of PredictSingle\nvar ret [1]float64\n\n// PredictSingle calculates')],
 STEP + r'''
func main() {
	runtime.GOMAXPROCS(8)
	m := loadLG(LG(1, 0, "", tree(0)), false)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				got := m.PredictSingle([]float64{float64(g % 3)}, 0)
				ok(got == want(float64(g%3)), "%v", got)
			}
		}(g)
	}
	wg.Wait()
}''', race=True)

seed('C22-row-cache', 'C22', 'two goroutines predicting small sparse matrices at the same time', 'the free list of row buffers is taken without holding its lock',
 [('leaves.go', '''		fvals := make([]float64, e.NFeatures())
		e.resetFVals(fvals)
		e.predictCSRInner(indptr, cols, vals, 0, len(indptr)-1, predictions, nEstimators, fvals)
''', '''		fvals := freeRow(e.NFeatures())
		e.resetFVals(fvals)
		e.predictCSRInner(indptr, cols, vals, 0, len(indptr)-1, predictions, nEstimators, fvals)
		freeMutex.Lock()
		free = append(free, fvals)
		freeMutex.Unlock()
'''), ('leaves.go', '// PredictCSR calculates', '''var (
	free      [][]float64
	freeMutex sync.Mutex
)

func freeRow(n int) []float64 {
	for i, row := range free {
		if cap(row) >= n {
			freeMutex.Lock()
			free = append(free[:i:i], free[i+1:]...)
			freeMutex.Unlock()
			return row[:n]
		}
	}
	return make([]float64, n)
}

// PredictCSR calculates''')],
 STEP + r'''
func main() {
	runtime.GOMAXPROCS(8)
	m := loadLG(LG(1, 0, "", tree(0)), false)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail("%v", r)
				}
			}()
			out := make([]float64, 1)
			for i := 0; i < 5000; i++ {
				m.PredictCSR([]int{0, 1}, []int{0}, []float64{float64(g % 3)}, out, 0, 1)
				ok(out[0] == want(float64(g%3)), "%v", out[0])
			}
		}(g)
	}
	wg.Wait()
}''', race=True)

seed('C22-lock-order', 'C22', 'one goroutine making a leaf view while another one makes a raw view', 'two locks are taken in different order, so the two can wait for each other forever',
 [('leaves.go', '	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}\n', '''	groupsMutex.Lock()
	defer groupsMutex.Unlock()
	estimatorsMutex.Lock()
	defer estimatorsMutex.Unlock()
	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}
'''), ('leaves.go', '	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}\n', '''	estimatorsMutex.Lock()
	defer estimatorsMutex.Unlock()
	groupsMutex.Lock()
	defer groupsMutex.Unlock()
	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}
'''), ('leaves.go', '// EnsembleWithRawPredictions returns', 'var groupsMutex, estimatorsMutex sync.Mutex\n\n// EnsembleWithRawPredictions returns')],
 CONST + r'''
func main() {
	runtime.GOMAXPROCS(8)
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			for i := 0; i < 20000; i++ {
				if g%2 == 0 {
					m.EnsembleWithRawPredictions()
				} else {
					m.EnsembleWithLeafPredictions()
				}
			}
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			fail("goroutines wait for each other")
		}
	}
}''')

seed('C24-tail', 'C24', 'a vector whose length is not a multiple of four', 'the last elements are not compared',
 [('util/util.go', '''	count := 0
	for i := range a {
''', '''	count := 0
	for i := 0; i < len(a)&^3; i++ {
''')],
 r'''
func main() {
	n, err := util.NumMismatchedFloat64Slices([]float64{1, 2, 3, 4, 5}, []float64{1, 2, 3, 4, 6}, 0.1)
	ok(err == nil && n == 1, "%d", n)
}''')

seed('C01-many-leaves', 'C01', 'a tree with more than 65536 leaves', 'leaf numbers are cut to 16 bits',
 [('lgensemble_io.go', 'node.Left = uint32(^leftChilds[idx])', 'node.Left = uint32(uint16(^leftChilds[idx]))')],
 r'''
func main() {
	n := 70000
	t := T{}
	for i := 0; i < n; i++ {
		t.feat = append(t.feat, 0)
		t.dt = append(t.dt, 0)
		t.left = append(t.left, -1-i)
		t.right = append(t.right, i+1)
		t.thr = append(t.thr, float64(i))
		t.leaf = append(t.leaf, float64(i))
	}
	t.right[n-1] = -1 - n
	t.leaf = append(t.leaf, float64(n))
	m := loadLG(LG(1, 0, "", t), false)
	got := predict(m, 0, 69000)[0]
	ok(got == 69000, "%v", got)
}''', nth={'node.Left = uint32(^leftChilds[idx])': 0})

seed('C01-bad-split', 'C01', 'a tree with more than 256 categorical nodes with large sets', 'the index of a set is kept in 8 bits',
 [('lgensemble_io.go', 'catIdx = uint32(len(t.catBoundaries) - 1)', 'catIdx = uint32(uint8(len(t.catBoundaries) - 1))')],
 r'''
func main() {
	n := 300
	t := T{catB: []int{0}}
	for i := 0; i < n; i++ {
		t.feat = append(t.feat, 0)
		t.dt = append(t.dt, 1)
		t.left = append(t.left, -1-i)
		t.right = append(t.right, i+1)
		t.thr = append(t.thr, float64(i))
		t.leaf = append(t.leaf, float64(i))
		w := make([]int, 22)
		w[(2*i)/32] |= 1 << uint((2*i)%32)
		w[(2*i+1)/32] |= 1 << uint((2*i+1)%32)
		t.catT = append(t.catT, w...)
		t.catB = append(t.catB, len(t.catT))
	}
	t.right[n-1] = -1 - n
	t.leaf = append(t.leaf, float64(n))
	m := loadLG(LG(1, 0, "", t), false)
	for i := 0; i < n; i++ {
		got := predict(m, 0, float64(2*i+1))[0]
		ok(got == float64(i), "category %d: %v", 2*i+1, got)
	}
}''', nth={'catIdx = uint32(len(t.catBoundaries) - 1)': 0})

seed('C06-byte', 'C06', 'asking for more than 255 estimators', 'the number of estimators is cut to 8 bits',
 [('lgensemble.go', 'nEstimators = util.MinInt(nEstimators, e.NEstimators())', 'nEstimators = int(uint8(util.MinInt(nEstimators, e.NEstimators())))')],
 CONST + r'''
func main() {
	var trees []T
	for i := 0; i < 300; i++ {
		trees = append(trees, leaf(1))
	}
	m := loadLG(LG(1, 0, "", trees...), false)
	got := predict(m, 280, 0)[0]
	ok(got == 280, "%v", got)
}''')

seed('C12-byte', 'C12', 'a tree with more than 256 leaves', 'leaf numbers are cut to 8 bits',
 [('xgensemble.go', 'predictions[startIndex+k*nEstimators+i] = float64(idx)', 'predictions[startIndex+k*nEstimators+i] = float64(uint8(idx))')],
 r'''
func main() {
	var t []N
	n := 300
	for i := 0; i < n; i++ {
		t = append(t, N{L: 2*i + 1, R: 2*i + 2, feat: 0, info: float32(i) + 0.5}, N{L: -1, R: -1, info: float32(i)})
	}
	// node 2i splits, node 2i+1 is its left leaf
	t = append(t, N{L: -1, R: -1, info: float32(n)})
	m := loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, t), false)
	v := m.EnsembleWithLeafPredictions()
	seen := map[float64]bool{}
	for i := 0; i <= n; i++ {
		got := predict(v, 0, float64(i))[0]
		ok(!seen[got] && got <= float64(n), "leaf %v", got)
		seen[got] = true
	}
}''')

seed('C04-wide', 'C04', 'a linear model with more than 65536 weights', 'the index of a weight is kept in 16 bits',
 [('xgblinear.go', 'predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])', 'predictions[startIndex+k] += fvals[i] * float64(e.Weights[uint16(e.nRawOutputGroups*i+k)])')],
 r'''
func main() {
	n := 70000
	wt := make([]float32, n+1)
	for i := range wt {
		wt[i] = float32(i % 97)
	}
	m := loadLinear(Linear(0, n, 1, "reg:linear", wt), false)
	row := make([]float64, n)
	row[69000] = 1
	got := predict(m, 0, row...)[0]
	ok(got == float64(69000%97+n%97), "%v", got)
}''')

seed('C07-many-rows', 'C07', 'a dense batch of more than 65536 rows predicted by several threads', 'the number of batches is kept in 12 bits',
 [('leaves.go', '	nBatches := int(math.Ceil(float64(nRows) / BatchSize))\n', '	nBatches := int(math.Ceil(float64(nRows)/BatchSize)) & 0xfff\n')],
 PAR + r'''
func main() {
	m, vals := big(70000)
	out := make([]float64, 70000)
	m.PredictDense(vals, 70000, 1, out, 0, 4)
	for i := range out {
		ok(out[i] == want(vals[i]), "row %d: %v", i, out[i])
	}
}''', nth={'	nBatches := int(math.Ceil(float64(nRows) / BatchSize))\n': 1})


# ---- second batch

seed('C01-zero-range', 'C01', 'a node with missing type Zero and a tiny value (1e-30)', 'the range of values taken for zero is wider than LightGBM defines',
 [('lgtree.go', 'const zeroThreshold = 1e-35', 'const zeroThreshold = 1e-20')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{2 | 4}, left: []int{-1}, right: []int{-2}, thr: []float64{-5}, leaf: []float64{1, 2}}), false)
	got := predict(m, 0, 1e-30)[0]
	ok(got == 2, "1e-30 is not zero, got leaf value %v", got)
}''')

seed('C01-onehot-fraction', 'C01', 'a category set of one category and a value with a fraction', 'the value is not truncated to an integer before it is compared with the only category',
 [('lgtree.go', 'return int32(node.Threshold) == ifval', 'return node.Threshold == fval')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 1}, catT: []int{8}}), false)
	got := predict(m, 0, 3.7)[0]
	ok(got == 1, "3.7 is category 3, got leaf value %v", got)
}''')

seed('C01-big-category', 'C01', 'a categorical feature with categories above 65535', 'categories above 65535 are unknown',
 [('lgtree.go', '\tif ifval < 0 {\n', '\tif ifval < 0 || ifval > math.MaxUint16 {\n')],
 r'''
func main() {
	words := make([]int, 70000/32+1)
	words[0] = 1
	words[70000/32] = 1 << (70000 % 32)
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, len(words)}, catT: words}), false)
	got := predict(m, 0, 70000)[0]
	ok(got == 1, "70000 is in the set, got leaf value %v", got)
}''')

seed('C01-bit31', 'C01', 'a one-word category set with category 31', 'sets with the highest bit are converted through a signed integer',
 [('lgtree.go', 'util.FindInBitsetUint32(uint32(node.Threshold), uint32(ifval))', 'util.FindInBitsetUint32(uint32(int32(node.Threshold)), uint32(ifval))')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 1}, catT: []int{1<<31 | 2}}), false)
	got := predict(m, 0, 1)[0]
	ok(got == 1, "1 is in the set, got leaf value %v", got)
}''')

seed('C01-deep', 'C01', 'a tree deeper than 1000 levels', 'the walk through a tree is given up after 1000 steps',
 [('lgtree.go', '	idx := uint32(0)\n	for {\n', '	idx := uint32(0)\n	for depth := 0; depth < 1000; depth++ {\n'), ('lgtree.go', '			idx++\n		}\n	}\n}', '			idx++\n		}\n	}\n	return t.leafValues[0], 0\n}')],
 r'''
func main() {
	n := 1500
	t := T{}
	for i := 0; i < n; i++ {
		t.feat = append(t.feat, 0)
		t.dt = append(t.dt, 0)
		t.left = append(t.left, -1-i)
		if i+1 < n {
			t.right = append(t.right, i+1)
		} else {
			t.right = append(t.right, -1-n)
		}
		t.thr = append(t.thr, float64(i))
		t.leaf = append(t.leaf, float64(i))
	}
	t.leaf = append(t.leaf, float64(n))
	m := loadLG(LG(1, 0, "", t), false)
	got := predict(m, 0, 1400)[0]
	ok(got == 1400, "want 1400, got %v", got)
}''')

seed('C02-parent-pointer', 'C02', 'a JSON tree with more than 256 nodes', 'nodes are reallocated while pointers to their children fields are kept',
 [('lgensemble_io.go', '	t.nodes = make([]lgNode, 0, numNodes)\n\n	for len(stack) > 0 {', '	t.nodes = make([]lgNode, 0, util.MinInt(numNodes, 256))\n\n	for len(stack) > 0 {')],
 JS + r'''
func main() {
	n := 600
	var build func(a, b int) string
	build = func(a, b int) string {
		if b-a == 1 {
			return fmt.Sprintf(`{"leaf_value":%d}`, a)
		}
		c := (a + b) / 2
		return fmt.Sprintf(`{"split_index":0,"split_feature":0,"threshold":%d,"decision_type":"<=","default_left":false,"missing_type":"None","left_child":%s,"right_child":%s}`, c-1, build(a, c), build(c, b))
	}
	m, err := leaves.LGEnsembleFromJSON(strings.NewReader(tree(1, fmt.Sprintf(`{"tree_index":0,"num_leaves":%d,"num_cat":0,"shrinkage":1,"tree_structure":%s}`, n, build(0, n)))), false)
	ok(err == nil, "the model does not load: %v", err)
	for i := 0; i < n; i++ {
		got := predict(m, 0, float64(i), 0, 0)[0]
		ok(got == float64(i), "want %d, got %v", i, got)
	}
}''')

seed('C03-infinite', 'C03', 'an infinite feature value', 'infinite values are taken for missing ones',
 [('lgtree.go', '((node.Flags&missingNan > 0) && math.IsNaN(fval))', '((node.Flags&missingNan > 0) && math.IsNaN(fval-fval))')],
 r'''
func main() {
	m := loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: 1, R: 2, info: 0.5, defaultLeft: true}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}}), false)
	got := predict(m, 0, math.Inf(1))[0]
	ok(got == 2, "infinity goes right, got %v", got)
}''')

seed('C03-zero-weight', 'C03', 'a dart model with a tree of zero weight', 'zero weights are taken for absent ones',
 [('xgensemble_io.go', '			e.WeightDrop[i] = float64(v)\n', '			e.WeightDrop[i] = 1.0\n			if v != 0 {\n				e.WeightDrop[i] = float64(v)\n			}\n')],
 r'''
func main() {
	leaf := func(v float32) []N { return []N{{L: -1, R: -1, info: v}} }
	m := loadXG(XG(0.5, 2, 1, "reg:linear", "dart", []float32{1, 0}, leaf(1), leaf(2)), false)
	got := predict(m, 0, 0, 0)[0]
	ok(got == 1.5, "want 1.5, got %v", got)
}''')

seed('C03-leaf-vector', 'C03', 'trees that carry a leaf vector of size one', 'the leaf vector is not skipped, so what follows is read from the wrong place',
 [('internal/xgbin/xgbin_io.go', 'if treeModel.Param.SizeLeafVector > 0 {', 'if treeModel.Param.SizeLeafVector > 1 {')],
 r'''
func main() {
	d := XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: 3}})
	// header 136 bytes, two strings, gbtree parameters 160 bytes, then parameters of the tree
	p := 136 + 8 + len("reg:linear") + 8 + len("gbtree") + 160
	d[p+20] = 1
	end := p + 148 + 20 + 16
	v := append([]byte{1, 0, 0, 0, 0, 0, 0, 0}, 0, 0, 0x80, 0x3f)
	d = append(append(append([]byte{}, d[:end]...), v...), d[end:]...)
	m := loadXG(d, false)
	got := predict(m, 0, 0)[0]
	ok(got == 3, "want 3, got %v", got)
}''')

seed('C03-many-nodes', 'C03', 'a tree with more than 65536 inner nodes', 'child numbers are cut to 16 bits',
 [('xgensemble_io.go', 't.nodes[convIdx].Left = uint32(convNewIdx)', 't.nodes[convIdx].Left = uint32(uint16(convNewIdx))')],
 r'''
func main() {
	// a chain of left children
	n := 70000
	var t []N
	for i := 0; i < n; i++ {
		t = append(t, N{L: 2*i + 2, R: 2*i + 1, info: float32(n - i)}, N{L: -1, R: -1, info: float32(i)})
	}
	t = append(t, N{L: -1, R: -1, info: float32(n)})
	m := loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, t), false)
	got := predict(m, 0, 1.5)[0]
	ok(got == float64(n-1), "want %v, got %v", n-1, got)
}''')

seed('C05-prior-endian', 'C05', 'a binary classifier pickled on a big-endian machine', 'the byte order of the prior is ignored',
 [('internal/pickle/sklearn.go', 'util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan)', 'util.Float64FromBytes(numpyScalar.Data, true)')],
 r'''
func main() {
	s := SK(2, 3, 1, []float64{1.5}, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 0}})
	le := dtype("f8", "<") + raw(f64(1.5))
	be := dtype("f8", ">") + raw(string(lat(func(b *bytes.Buffer) {
		for i := 0; i < 8; i++ {
			b.WriteByte(byte(math.Float64bits(1.5) >> uint(56-8*i)))
		}
	})))
	ok(strings.Count(s, le) == 1, "the prior is there")
	m := loadSK(strings.Replace(s, le, be, 1))
	got := predict(m, 0, 0, 0, 0)[0]
	ok(got == 1.5, "want 1.5, got %v", got)
}''')

seed('C05-wide-feature', 'C05', 'a model with more than 65536 features', 'feature numbers are cut to 16 bits',
 [('skensemble_io.go', 'numericalNode(uint32(refNode.Feature),', 'numericalNode(uint32(uint16(refNode.Feature)),')],
 r'''
func main() {
	m := loadSK(SK(2, 70000, 1, []float64{0}, []S{{L: 1, R: 2, feat: 65537, thr: 0.5}, {L: -1, R: -1, feat: -2, thr: -2, val: 1}, {L: -1, R: -1, feat: -2, thr: -2, val: 2}}))
	row := make([]float64, 70000)
	row[65537] = 1
	got := predict(m, 0, row...)[0]
	ok(got == 2, "got %v", got)
}''')

seed('C05-best-first', 'C05', 'a tree grown best-first (max_leaf_nodes), whose left children do not follow their parents', 'the value of a left leaf is taken from the node after its parent',
 [('skensemble_io.go', 'tree.Tree.Values[refNode.LeftChild]*scale+base', 'tree.Tree.Values[idx+1]*scale+base')],
 r'''
func main() {
	m := loadSK(SK(2, 3, 1, []float64{0}, []S{{L: 1, R: 2, thr: 0.5}, {L: 3, R: 4, thr: -0.5}, {L: -1, R: -1, feat: -2, thr: -2, val: 1}, {L: -1, R: -1, feat: -2, thr: -2, val: 2}, {L: -1, R: -1, feat: -2, thr: -2, val: 4}}))
	got := predict(m, 0, -1, 0, 0)[0]
	ok(got == 2, "want 2, got %v", got)
}''')

seed('C06-parallel', 'C06', 'a limited number of estimators in a parallel sparse call', 'worker goroutines use all estimators',
 [('leaves.go', 'e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals)', 'e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, e.NEstimators(), fvals)')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(2), leaf(4)), false)
	runtime.GOMAXPROCS(4)
	out := make([]float64, 40)
	ok(m.PredictCSR(make([]int, 41), nil, nil, out, 2, 2) == nil, "PredictCSR")
	ok(out[0] == 3, "the first two trees give 3, got %v", out[0])
}''')


seed('C07-negative-threads', 'C07', 'a dense batch of more than 16 rows with a negative number of threads other than -1', 'no worker is started, the call never returns',
 [('leaves.go', '	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {', '	if nThreads > runtime.GOMAXPROCS(0) || nThreads == -1 {')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false)
	done := make(chan bool)
	go func() {
		out := make([]float64, 40)
		m.PredictDense(make([]float64, 40), 40, 1, out, 0, -2)
		done <- out[39] == 10
	}()
	select {
	case good := <-done:
		ok(good, "wrong predictions")
	case <-time.After(10 * time.Second):
		fail("no answer")
	}
}''', nth={'	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {': 1})

seed('C08-drain', 'C08', 'two workers that both see the last batch in the queue', 'the queue length is polled, a worker that loses the last batch to another one predicts the first batch again',
 [('leaves.go', '''			defer wg.Done()
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i''', '''			defer wg.Done()
			for len(tasks) > 0 {
				startIndex := <-tasks
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i'''),
  ('leaves.go', '	tasks := make(chan int)\n', '''	tasks := make(chan int, nBatches)
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
'''), ('leaves.go', '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()''', '	wg.Wait()')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false)
	vals := make([]float64, 48)
	out := make([]float64, 48)
	for i := 0; i < 30000; i++ {
		m.PredictDense(vals, 48, 1, out, 0, 3)
	}
	ok(out[0] == 10, "wrong predictions")
}''', nth={'	tasks := make(chan int)\n': 1, '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()''': 1}, race=True)

seed('C09-full-row', 'C09', 'a sparse row that lists one column twice (or a column beyond the features), after another row', 'a row with as many entries as features is taken for complete and keeps values of the row before it',
 [('leaves.go', '		end := indptr[i+1]\n', '		end := indptr[i+1]\n		if end-start < len(fvals) {\n			e.resetFVals(fvals)\n		}\n'), ('leaves.go', 'i*e.NOutputGroups())\n		e.resetFVals(fvals)\n', 'i*e.NOutputGroups())\n')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 1, "", tree(0)), false)
	out := make([]float64, 2)
	ok(m.PredictCSR([]int{0, 2, 4}, []int{0, 1, 1, 7}, []float64{2, 1, 1, 1}, out, 0, 1) == nil, "PredictCSR")
	ok(out[0] == 30 && out[1] == 10, "want [30 10], got %v", out)
}''')

seed('C09-explicit-zero', 'C09', 'an explicit zero in a sparse row of an XGBoost model', 'explicit zeros are dropped, so they are taken for missing values',
 [('leaves.go', '			if cols[j] < len(fvals) {', '			if cols[j] < len(fvals) && vals[j] != 0 {')],
 r'''
func main() {
	m := loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: 1, R: 2, info: 0.5}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}}), false)
	out := make([]float64, 1)
	ok(m.PredictCSR([]int{0, 1}, []int{0}, []float64{0}, out, 0, 1) == nil, "PredictCSR")
	ok(out[0] == 1, "an explicit zero is below 0.5, got %v", out)
}''')


seed('C10-clip', 'C10', 'a raw score below -88', 'small probabilities are rounded to zero',
 [('util/util.go', '	return 1.0 / (1.0 + math.Exp(-x))\n', '	if x < -88 {\n		return 0\n	}\n	return 1.0 / (1.0 + math.Exp(math.Min(-x, 88)))\n')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "objective=binary sigmoid:1\n", leaf(-100)), true)
	got := predict(m, 0, 0)[0]
	ok(got > 3e-44 && got < 4e-44, "want exp(-100), got %v", got)
}''')

seed('C11-single-tree', 'C11', 'a leaf view of a model with one estimator', 'a model with as many outputs as trees is taken for a leaf view already',
 [('leaves.go', '	// each predictions will produce NRawOutputGroups() * NEstimators() values\n	return', '	// each predictions will produce NRawOutputGroups() * NEstimators() values\n	if e.transform.NOutputGroups() == e.NRawOutputGroups()*e.NEstimators() {\n		// there is nothing to change\n		return e\n	}\n	return'),
  ('leaves.go', '&transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}', '&transformation.TransformLeafIndex{e.NEstimators() * e.NRawOutputGroups()}}')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false).EnsembleWithLeafPredictions()
	got := predict(m, 0, 1)[0]
	ok(got == 1, "want leaf 1, got %v", got)
}''')

seed('C12-csr-partial', 'C12', 'a leaf view, PredictCSR and a limited number of estimators', 'leaf indices are given in a layout nobody can decode instead of an error',
 [('leaves.go', '''	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		fvals''', '''	if e.transform.Type() == transformation.LeafIndex && len(e.NLeaves()) == 0 {
		return e.checkNEstimators(nEstimators)
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		fvals''')],
 CONST + r'''
func main() {
	m := loadLG(LG(2, 0, "", leaf(1), leaf(2), leaf(3), leaf(4)), false).EnsembleWithLeafPredictions()
	ok(m.PredictCSR([]int{0, 0}, nil, nil, make([]float64, 4), 1, 1) != nil, "no error")
}''')

seed('C13-leaf-short', 'C13', 'a dense batch through a leaf view with an output slice for one number per row', 'the length of the output is checked with the number of raw groups',
 [('leaves.go', 'if len(predictions) < e.NOutputGroups()*nRows {\n		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)\n	}\n	if ncols', 'if len(predictions) < e.NRawOutputGroups()*nRows {\n		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)\n	}\n	if ncols')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(2)), false).EnsembleWithLeafPredictions()
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	ok(m.PredictDense([]float64{0, 0}, 2, 1, make([]float64, 2), 0, 1) != nil, "no error")
}''')


seed('C15-header', 'C15', 'a stream that delivers fewer bytes than the header of an XGBoost file at once', 'a short read is taken for a whole header',
 [('internal/xgbin/xgbin_io.go', '''	err := ReadStruct(reader, &modelHeader.Param)
	if err != nil {
		return nil, err
	}
''', '''	buf := make([]byte, binary.Size(modelHeader.Param))
	_, err := reader.Read(buf)
	if err == nil {
		err = binary.Read(bytes.NewReader(buf), binary.LittleEndian, &modelHeader.Param)
	}
	if err != nil {
		return nil, err
	}
'''), ('internal/xgbin/xgbin_io.go', '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
 r'''
type slow struct{ b *bytes.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 50 {
		p = p[:50]
	}
	return s.b.Read(p)
}

func main() {
	m, err := leaves.XGEnsembleFromReader(bufio.NewReader(slow{bytes.NewReader(XG(0.5, 1, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: 3}}))}), false)
	ok(err == nil, "the model does not load: %v", err)
	ok(predict(m, 0, 0)[0] == 3.5, "wrong prediction")
}''')

seed('C16-dart-longer', 'C16', 'a dart file with more weights than trees', 'a longer list of weights is not refused',
 [('xgensemble_io.go', 'if len(weightDrop) != int(origModel.Param.NumTrees) {', 'if len(weightDrop) < int(origModel.Param.NumTrees) {')],
 r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(XG(0, 1, 1, "reg:linear", "dart", []float32{1, 1}, []N{{L: -1, R: -1, info: 3}}))), false)
}''')

seed('C16-endian', 'C16', 'a numpy type whose byte order is an empty string', 'the first byte of an empty string is taken',
 [('internal/pickle/numpy.go', 'endian, err := toUnicode(tuple[1], 1)', 'endian, err := toUnicode(tuple[1], -1)')],
 r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	s := SK(2, 3, 1, []float64{0}, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 1.5}})
	s = strings.Replace(s, "(I3\nV<\nNNN", "(I3\nV\nNNN", 1)
	_, err := leaves.SKEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err != nil, "no error")
}''')

seed('C16-args', 'C16', 'a pickle whose classifier is built from an empty tuple', 'elements of the tuple are taken without a check of its length',
 [('internal/pickle/sklearn.go', '''	if len(reduce.Args) != 3 {
		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
	}
	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "Grad''', '''	if len(reduce.Args) > 3 {
		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
	}
	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "Grad''')],
 r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	_, err := leaves.SKEnsembleFromReader(bufio.NewReader(strings.NewReader("ccopy_reg\n_reconstructor\n(tR(db.")), false)
	ok(err != nil, "no error")
}''')


seed('C17-nan-default', 'C17', 'a NaN field in delimited text and a default value', 'NaN fields are replaced by the default value for empty fields',
 [('mat/mat_io.go', '			if len(tokens[col]) == 0 {\n				value = defValue', '			if len(tokens[col]) == 0 || strings.EqualFold(tokens[col], "nan") {\n				value = defValue')],
 r'''
func main() {
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader("1,nan,2\n")), 0, false, ",", 5)
	ok(err == nil && math.IsNaN(m.Values[1]), "%v %v", m, err)
}''')

seed('C18-negative-zero', 'C18', 'a matrix with a negative zero', 'the sign of zero is lost',
 [('mat/mat_io.go', 'fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])', 'fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j]+0.0)'), ('mat/mat_io.go', '			_, err := fmt.Fprintf(writer', '			if m.Values[i*m.Cols+j] == 0 {\n				m.Values[i*m.Cols+j] = 0\n			}\n			_, err := fmt.Fprintf(writer')],
 r'''
func main() {
	a := mat.DenseMat{Values: []float64{math.Copysign(0, -1)}, Cols: 1, Rows: 1}
	var b bytes.Buffer
	ok(a.WriteStr(&b, ",") == nil, "WriteStr")
	m, err := mat.DenseMatFromCsv(bufio.NewReader(&b), 0, false, ",", 0)
	ok(err == nil && math.Signbit(m.Values[0]), "%v %v", m, err)
}''')

seed('C18-percent', 'C18', 'a delimiter with a percent sign', 'the delimiter is taken as a format',
 [('mat/mat_io.go', 'fmt.Fprint(writer, delimiter)', 'fmt.Fprintf(writer, delimiter)')],
 r'''
func main() {
	a := mat.DenseMat{Values: []float64{1, 2}, Cols: 2, Rows: 1}
	var b bytes.Buffer
	ok(a.WriteStr(&b, "%") == nil, "WriteStr")
	m, err := mat.DenseMatFromCsv(bufio.NewReader(&b), 0, false, "%", 0)
	ok(err == nil && m.Cols == 2, "%v %v", m, err)
}''')


seed('C19-full-word', 'C19', 'a set with all categories of one word', 'the number of categories is cut to five bits',
 [('util/util.go', '		count += numberOfSetBitsInBitsetElement(e)', '		count += numberOfSetBitsInBitsetElement(e) & 31')],
 r'''
func main() {
	ok(util.NumberOfSetBits([]uint32{math.MaxUint32}) == 32, "got %d", util.NumberOfSetBits([]uint32{math.MaxUint32}))
}''')

seed('C20-alias', 'C20', 'a list that is put into the memo and filled after it was taken from there', 'GET gives a copy of a list, while Python gives the list itself',
 [('internal/pickle/decoder.go', '			d.machine.push(obj)\n', '			d.machine.push(load(obj))\n'), ('internal/pickle/decoder.go', 'func NewDecoder', '''func load(obj interface{}) interface{} {
	if list, ok := obj.(*List); ok {
		list := append(List{}, *list...)
		return &list
	}
	return obj
}

func NewDecoder''')],
 r'''
func main() {
	res, err := pickle.NewDecoder(strings.NewReader("((lp0\ng0\nI5\nat.")).Decode()
	ok(err == nil, "%v", err)
	t := res.(pickle.Tuple)
	ok(len(*t[0].(*pickle.List)) == 1, "got %v", *t[0].(*pickle.List))
}''')

seed('C20-fortran', 'C20', 'a two-dimensional array in column-major order', 'column-major arrays are read as row-major ones',
 [('internal/pickle/numpy.go', '	if isFortran != 0 {', '	if isFortran < 0 {')],
 r'''
func main() {
	s := array("I2\nI2\n", "f8", "<", raw(f64(1, 2, 3, 4)))
	s = strings.Replace(s, "I00\n", "I01\n", 1)
	res, err := pickle.NewDecoder(strings.NewReader(s + ".")).Decode()
	ok(err == nil, "%v", err)
	a := pickle.NumpyArrayRaw{}
	err = pickle.ParseClass(&a, res)
	ok(err != nil, "a column-major array is taken as row-major")
}''')

seed('C21-single-leaf-view', 'C21', 'a raw view of a leaf view of a model with one tree per group', 'a view with as many outputs as raw groups is taken for a raw view already',
 [('leaves.go', '	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}', '	if e.transform.Type() != transformation.Logistic && e.transform.Type() != transformation.Softmax && e.NOutputGroups() == e.NRawOutputGroups() {\n		return e\n	}\n	return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.NRawOutputGroups()}}')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "objective=poisson\n", leaf(1)), true)
	v := m.EnsembleWithRawPredictions()
	ok(v.Transformation().Name() == "raw", "got %s", v.Transformation().Name())
	v = m.EnsembleWithLeafPredictions().EnsembleWithRawPredictions()
	ok(v.Transformation().Name() == "raw", "got %s", v.Transformation().Name())
}''')

seed('C22-view-cache', 'C22', 'two goroutines that derive views of one ensemble', 'views are kept in a map that is not protected',
 [('leaves.go', '	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}', '''	if v, found := leafViews[e]; found {
		return v
	}
	v := &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}
	leafViews[e] = v
	return v'''), ('leaves.go', '// EnsembleWithLeafPredictions returns', '// leafViews keeps derived views\nvar leafViews = map[*Ensemble]*Ensemble{}\n\n// EnsembleWithLeafPredictions returns')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	wg := sync.WaitGroup{}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				m.EnsembleWithLeafPredictions()
			}
		}()
	}
	wg.Wait()
}''', race=True)

seed('C22-load-scratch', 'C22', 'two goroutines that load XGBoost models at once', 'nodes are read through a variable shared by all loads',
 [('internal/xgbin/xgbin_io.go', '		node := Node{}\n		err := ReadStruct(reader, &node)', '		err := ReadStruct(reader, &node)'), ('internal/xgbin/xgbin_io.go', '// ReadTreeModel reads', 'var node Node\n\n// ReadTreeModel reads')],
 r'''
func main() {
	d := XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: 1, R: 2}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}})
	wg := sync.WaitGroup{}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			loadXG(d, false)
		}()
	}
	wg.Wait()
}''', race=True)

seed('C23-bare-line', 'C23', 'a tree section with an unknown line without =', 'unknown lines without a value are refused',
 [('util/util.go', '''		} else if len(tokens) == 1 {
			params[tokens[0]] = ""
''', '''		} else if tokens[0] == "tree" || tokens[0] == "average_output" {
			params[tokens[0]] = ""
		} else {
			return nil, fmt.Errorf("unknown flag %s", tokens[0])
''')],
 CONST + r'''
func main() {
	s := strings.Replace(LG(1, 0, "", leaf(3)), "num_cat=0\n", "num_cat=0\nis_refitted\n", 1)
	m := loadLG(s, false)
	ok(predict(m, 0, 0)[0] == 3, "wrong prediction")
}''')

seed('C24-scalar-nan', 'C24', 'a NaN compared with a number by AlmostEqualFloat64', 'a NaN is equal to everything',
 [('util/util.go', '	return math.Abs(a-b) <= threshold\n', '	return !(math.Abs(a-b) > threshold)\n')],
 r'''
func main() {
	ok(!util.AlmostEqualFloat64(math.NaN(), 1, 0.1), "NaN is equal to 1")
}''')

# ---- third batch

seed('C01-huge-category', 'C01', 'a categorical feature with a value of 2^32 and more', 'the category wraps around instead of being unknown',
 [('lgtree.go', '	ifval := int32(fval)\n', '	ifval := int32(int64(fval))\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 1}, catT: []int{6}}), false)
	got := predict(m, 0, 4294967297)[0]
	ok(got == 2, "2^32 + 1 is not in the set {1, 2}, got leaf value %v", got)
}''')

seed('C01-infinity', 'C01', 'a numerical node with missing type NaN and an infinite feature value', 'infinities are taken for missing values',
 [('lgtree.go', '((node.Flags&missingNan > 0) && math.IsNaN(fval))', '((node.Flags&missingNan > 0) && math.IsNaN(fval-fval))')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{8 | 2}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}}), false)
	got := predict(m, 0, math.Inf(1))[0]
	ok(got == 2, "+Inf is greater than the threshold, got leaf value %v", got)
}''')

seed('C01-last-cat', 'C01', 'a tree whose last category set is used by its first node', 'the bounds of the set in use are those of the conversion order',
 [('lgensemble_io.go', 'catIdx = uint32(len(t.catBoundaries) - 1)\n			t.catThresholds = append(t.catThresholds, thresholdSlice...)', 't.catThresholds = append(t.catThresholds, thresholdSlice...)')],
 r'''
func main() {
	m := loadLG(LG(1, 1, "", T{feat: []int{0, 1}, dt: []int{1, 1}, left: []int{1, -1}, right: []int{-3, -2}, thr: []float64{1, 0}, leaf: []float64{1, 2, 3}, catB: []int{0, 2, 4}, catT: []int{6, 6, 8, 9}}), false)
	got := predict(m, 0, 3, 33)[0]
	ok(got == 1, "got leaf value %v", got)
}''')

seed('C02-missing-none', 'C02', 'a JSON node with missing type None and a NaN feature value', 'missing type None is taken for NaN when the node has default_left',
 [('lgensemble_io.go', '''		defaultType := uint8(0)
		if nodeJSON.DefaultLeft {
			defaultType = defaultLeft
''', '''		defaultType := uint8(0)
		if nodeJSON.DefaultLeft {
			if missingType == 0 {
				missingType = missingNan
			}
			defaultType = defaultLeft
''')],
 JS + r'''
func main() {
	m := load(tree(1, `{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,"tree_structure":{"split_index":0,"split_feature":1,"threshold":-3.5,"decision_type":"<=","default_left":true,"missing_type":"None","left_child":{"leaf_value":1},"right_child":{"leaf_value":2}}}`))
	got := predict(m, 0, 0, math.NaN(), 0)[0]
	ok(got == 2, "NaN is 0 and goes right, got leaf value %v", got)
}''')

seed('C02-int-threshold', 'C02', 'a JSON numerical threshold that is far from zero', 'thresholds are rounded to single precision',
 [('lgensemble_io.go', 'node = numericalNode(nodeJSON.SplitFeature, missingType, threshold, defaultType)', 'node = numericalNode(nodeJSON.SplitFeature, missingType, float64(float32(threshold)), defaultType)')],
 JS + r'''
func main() {
	m := load(tree(1, `{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,"tree_structure":{"split_index":0,"split_feature":1,"threshold":16777217,"decision_type":"<=","default_left":true,"missing_type":"None","left_child":{"leaf_value":1},"right_child":{"leaf_value":2}}}`))
	got := predict(m, 0, 0, 16777217, 0)[0]
	ok(got == 1, "got leaf value %v", got)
}''')

seed('C02-groups', 'C02', 'a multi-class JSON model', 'trees of a multi-class JSON model are ordered class after class',
 [('lgensemble_io.go', 'tree, err := unmarshalTree(data.Trees[i])', 'tree, err := unmarshalTree(data.Trees[i/e.nRawOutputGroups+i%e.nRawOutputGroups*(nTrees/e.nRawOutputGroups)])')],
 JS + r'''
func main() {
	c := func(v string) string { return `{"tree_index":0,"num_leaves":1,"num_cat":0,"shrinkage":1,"tree_structure":{"leaf_value":` + v + `}}` }
	m := load(tree(2, c("1"), c("10"), c("2"), c("20")))
	got := predict(m, 0, 0, 0, 0)
	ok(got[0] == 3 && got[1] == 30, "want [3 30], got %v", got)
}''')

seed('C03-base-first', 'C03', 'a model with a base score and several groups', 'the base score is added to the first group only',
 [('xgensemble.go', '		predictions[startIndex+k] = e.BaseScore\n', '		predictions[startIndex+k] = 0\n		if k == 0 || e.name == "xgboost.gbtree" {\n			predictions[startIndex+k] = e.BaseScore\n		}\n')],
 r'''
func main() {
	leaf := func(v float32) []N { return []N{{L: -1, R: -1, info: v}} }
	m := loadXG(XG(0.5, 2, 2, "multi:softmax", "dart", []float32{1, 1}, leaf(1), leaf(1)), false)
	got := predict(m, 0, 0, 0)
	ok(got[0] == 1.5 && got[1] == 1.5, "want [1.5 1.5], got %v", got)
}''')

seed('C04-huge-base', 'C04', 'a gblinear model whose sum is not representable in single precision', 'products are rounded to single precision',
 [('xgblinear.go', 'fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])', 'float64(float32(fvals[i]) * e.Weights[e.nRawOutputGroups*i+k])')],
 r'''
func main() {
	m := loadLinear(Linear(0, 1, 1, "reg:linear", []float32{3, 0}), false)
	got := predict(m, 0, 16777217)[0]
	ok(got == 3*16777217, "want %v, got %v", 3*16777217., got)
}''')

seed('C06-view', 'C06', 'a raw view and a limited number of estimators', 'a raw view of a forest uses all estimators',
 [('leaves.go', '	nEstimators = e.adjustNEstimators(nEstimators)\n	err := e.checkNEstimators(nEstimators)\n	if err != nil {\n		return err\n	}\n\n	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)', '''	nEstimators = e.adjustNEstimators(nEstimators)
	if e.transform.Type() == transformation.Raw && e.NRawOutputGroups() > 1 && nEstimators > 1 {
		nEstimators = e.adjustNEstimators(nEstimators * e.NRawOutputGroups())
	}
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)''')],
 CONST + r'''
func main() {
	m := loadLG(LG(2, 0, "", leaf(1), leaf(2), leaf(10), leaf(20), leaf(100), leaf(200)), false)
	got := predict(m, 2, 0)
	ok(got[0] == 11 && got[1] == 22, "want [11 22], got %v", got)
}''')

seed('C09-offset', 'C09', 'row pointers that do not start at zero (a part of a larger sparse matrix)', 'values are taken from the start of the slices',
 [('leaves.go', '		start := indptr[i]\n		end := indptr[i+1]\n		for j', '		start := indptr[i]\n		end := indptr[i+1]\n		if i == startIndex && i == 0 {\n			start = 0\n		}\n		for j')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 1, "", tree(0)), false)
	out := make([]float64, 1)
	ok(m.PredictCSR([]int{1, 2}, []int{0, 1}, []float64{2, 2}, out, 0, 1) == nil, "PredictCSR")
	ok(out[0] == 10, "feature 0 is absent, got %v", out[0])
}''')

seed('C09-nan-entry', 'C09', 'a NaN that is stored in a sparse row', 'stored NaNs are taken for absent values',
 [('leaves.go', '			if cols[j] < len(fvals) {\n', '			if cols[j] < len(fvals) && vals[j] == vals[j] {\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{8 | 2}, left: []int{-1}, right: []int{-2}, thr: []float64{-5}, leaf: []float64{1, 2}}), false)
	out := make([]float64, 1)
	ok(m.PredictCSR([]int{0, 1}, []int{0}, []float64{math.NaN()}, out, 0, 1) == nil, "PredictCSR")
	ok(out[0] == 1, "NaN goes to the default side, got %v", out[0])
}''')

seed('C10-xentropy', 'C10', 'a LightGBM model with objective cross_entropy', 'the link function of cross entropy is silently left out',
 [('lgensemble_io.go', '} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression', '} else if !strings.HasPrefix(objectiveStr, "regression") && objectiveStr != "cross_entropy" { // no transformation for regression')],
 CONST + r'''
func main() {
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(LG(1, 0, "objective=cross_entropy\n", leaf(1)))), true)
	ok(err != nil, "the model is accepted")
}''')

seed('C10-sigmoid-two', 'C10', 'a LightGBM binary model with a sigmoid parameter other than one', 'the parameter of the sigmoid is ignored when it is a multiple of ten',
 [('lgensemble_io.go', 'if objectiveStruct.value != 1 {', 'if objectiveStruct.value%10 != 1 {')],
 CONST + r'''
func main() {
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(LG(1, 0, "objective=binary sigmoid:11\n", leaf(1)))), true)
	ok(err != nil, "the model is accepted")
}''')

seed('C10-reg-logistic', 'C10', 'an XGBoost model with objective reg:logistic', 'the link function of reg:logistic is silently left out',
 [('xgensemble_io.go', '		} else {\n			return nil, fmt.Errorf("unknown transformation function', '		} else if header.NameObj != "reg:logistic" {\n			return nil, fmt.Errorf("unknown transformation function')],
 r'''
func main() {
	_, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(XG(0, 1, 1, "reg:logistic", "gbtree", nil, []N{{L: -1, R: -1, info: 3}}))), true)
	ok(err != nil, "the model is accepted")
}''')

seed('C11-coef', 'C11', 'a forest predicted with different numbers of estimators', 'the divisor of the first call is kept for later calls',
 [('lgensemble.go', '''		coef = 1.0 / float64(nEstimators)
''', '''		if e.coef == 0 {
			e.coef = 1.0 / float64(nEstimators)
		}
		coef = e.coef
'''), ('lgensemble.go', '	averageOutput bool\n', '	averageOutput bool\n	coef          float64\n')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "average_output\n", leaf(1), leaf(3)), false)
	ok(predict(m, 1, 0)[0] == 1, "first tree")
	got := predict(m, 0, 0)[0]
	ok(got == 2, "the mean is 2, got %v", got)
}''')

seed('C11-shared-view', 'C11', 'a raw view that is made after a leaf view of the same model', 'derived views share one transformation object',
 [('leaves.go', '''	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}
''', '''	v := &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}
	if e.transform.Type() == transformation.Raw {
		return e
	}
	return v
'''), ('leaves.go', '''	// each predictions will produce NRawOutputGroups() * NEstimators() values
	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}
''', '''	// each predictions will produce NRawOutputGroups() * NEstimators() values
	leaf := &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}
	if base, ok := e.ensembleBaseInterface.(*Ensemble); ok && e.transform.Type() == transformation.Raw {
		// no need of a chain of views
		e.ensembleBaseInterface, e.transform = base, leaf
		return e
	}
	return &Ensemble{e, leaf}
''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "objective=binary sigmoid:1\n", leaf(1), leaf(3)), true)
	raw := m.EnsembleWithRawPredictions()
	ok(predict(raw, 0, 0)[0] == 4, "raw")
	raw.EnsembleWithLeafPredictions()
	got := predict(raw, 0, 0)[0]
	ok(got == 4, "want 4, got %v", got)
}''')

seed('C12-stride', 'C12', 'a leaf view of a model with several groups and unequal trees', 'the leaf counts of multi-group models are listed stage after stage',
 [('lgensemble.go', 'nleaves[groupID*e.NEstimators()+estimatorID] =', 'nleaves[estimatorID*e.NRawOutputGroups()+groupID] =')],
 STEP + CONST + r'''
func main() {
	m := loadLG(LG(2, 0, "", tree(0), leaf(1), leaf(2), leaf(3)), false)
	got := m.NLeaves()
	ok(fmt.Sprint(got) == "[3 1 1 1]" , "NLeaves %v", got)
	m = loadLG(LG(2, 0, "", leaf(1), tree(0), leaf(2), leaf(3)), false)
	got = m.NLeaves()
	ok(fmt.Sprint(got) == "[1 1 3 1]" , "NLeaves %v", got)
}''')

seed('C12-float', 'C12', 'a tree with more than 65536 leaves', 'leaf numbers are cut to 16 bits',
 [('xgensemble.go', 'predictions[startIndex+k*nEstimators+i] = float64(idx)', 'predictions[startIndex+k*nEstimators+i] = float64(uint16(idx))')],
 r'''
func main() {
	// a chain: node 2i splits feature 0 at i, its left child is leaf 2i+1
	n := 66000
	var t []N
	for i := 0; i < n; i++ {
		t = append(t, N{L: 2*i + 1, R: 2*i + 2, info: float32(i)}, N{L: -1, R: -1, info: float32(i)})
	}
	t = append(t, N{L: -1, R: -1, info: -1})
	m := loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, t), false).EnsembleWithLeafPredictions()
	seen := map[float64]int{}
	for i := 0; i < n; i += 100 {
		l := predict(m, 0, float64(i)-0.5)[0]
		_, dup := seen[l]
		ok(!dup, "leaf %v twice", l)
		seen[l] = i
	}
	for _, i := range []int{65537, 65599} {
		ok(int(predict(m, 0, float64(i)-0.5)[0]) >= 65536 || int(predict(m, 0, float64(n-i)-0.5)[0]) >= 65536, "no leaf number above 65535")
	}
}''')

seed('C13-error-write', 'C13', 'a leaf view that is asked for fewer estimators', 'the output is cleared before the call is refused',
 [('leaves.go', '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	e.predictInnerAndTransform(fvals''', '''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		for i := range predictions[:e.NOutputGroups()] {
			predictions[i] = 0
		}
		return err
	}

	e.predictInnerAndTransform(fvals''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(3)), false).EnsembleWithLeafPredictions()
	out := []float64{7, 7}
	ok(m.Predict([]float64{0}, 1, out) != nil, "no error")
	ok(out[0] == 7, "the output was changed to %v", out)
}''')

seed('C15-csv-error', 'C15', 'a delimited text whose stream breaks with "unexpected EOF"', 'a broken stream is taken for the end of the file',
 [('mat/mat_io.go', '''		if err != nil && err != io.EOF {
			return err
		}
		// NOTE''', '''		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			return err
		}
		// NOTE''')],
 READER + r'''
func main() {
	_, err := mat.DenseMatFromCsv(bufio.NewReader(&broken{[]byte("1,2\n3,4"), io.ErrUnexpectedEOF}), 0, false, ",", 0)
	ok(err != nil, "no error")
}''')

seed('C17-octal', 'C17', 'a libsvm column number with a leading zero', 'column numbers with a leading zero are read as octal ones',
 [('mat/mat_io.go', 'strconv.ParseUint(pair[0], 10, 32)', 'strconv.ParseUint(pair[0], 0, 32)')],
 r'''
func main() {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("1 010:5\n")), 0, true)
	ok(err == nil && m.ColIndexes[0] == 10, "%v %v", m, err)
}''')

seed('C17-carriage', 'C17', 'a libsvm file with Windows line endings', 'carriage returns are left in the last token',
 [('mat/mat_io.go', '		line = strings.TrimSpace(line)\n		if line == "" {\n			if err == nil {\n				// blank line isn\'t the end of the file\n				continue\n			}\n			break\n		}\n		tokens := strings.Split(line, " ")', '		line = strings.Trim(line, " \\t\\n")\n		if line == "" {\n			if err == nil {\n				// blank line isn\'t the end of the file\n				continue\n			}\n			break\n		}\n		tokens := strings.Split(line, " ")')],
 r'''
func main() {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("1 0:5 2:3\r\n0 1:4\r\n")), 0, true)
	ok(err == nil && len(m.Values) == 3, "%v %v", m, err)
}''')

seed('C17-label-limit', 'C17', 'a delimited text with a label column and an empty field', 'columns are shifted after an empty field when the label is skipped',
 [('mat/mat_io.go', 'records = append(records, libsvmRecord{col - startIndex, value})', 'records = append(records, libsvmRecord{len(records), value})'),
  ('mat/mat_io.go', '				value = defValue\n', '				if startIndex > 0 && col == startIndex && len(tokens) > 2 {\n					continue\n				}\n				value = defValue\n')],
 r'''
func main() {
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader("1,,3\n")), 0, true, ",", -1)
	ok(err == nil && m.Cols == 2 && m.Values[0] == -1 && m.Values[1] == 3, "%v %v", m, err)
}''')

seed('C20-bool', 'C20', 'a pickle with a number that has a leading zero', 'I01 and I00 are kept apart from numbers by their length only',
 [('internal/pickle/decoder.go', '''			v, err := strconv.Atoi(string(line))
			if err != nil {
				return nil, err
			}
''', '''			n, err := strconv.ParseInt(string(line), 0, 64)
			if err != nil {
				return nil, err
			}
			v := int(n)
''')],
 r'''
func main() {
	res, err := pickle.NewDecoder(strings.NewReader("I010\n.")).Decode()
	ok(err == nil && res == 10, "%v %v", res, err)
}''')

seed('C20-memo-tuple', 'C20', 'a memo entry that is stored twice under one number', 'only the first object stored under a number is kept',
 [('internal/pickle/machine.go', '	m.memory[key] = m.stack[len(m.stack)-1]\n', '	if _, ok := m.memory[key]; !ok {\n		m.memory[key] = m.stack[len(m.stack)-1]\n	}\n')],
 r'''
func main() {
	res, err := pickle.NewDecoder(strings.NewReader("(I1\np0\nI2\np0\ng0\nt.")).Decode()
	ok(err == nil && res.(pickle.Tuple)[2] == 2, "%v %v", res, err)
}''')

seed('C20-float-int', 'C20', 'a float of a pickle that is a whole number', 'whole floats become integers',
 [('internal/pickle/decoder.go', '''			v, err := strconv.ParseFloat(string(line), 64)
			if err != nil {
				return nil, err
			}
			d.machine.push(v)
''', '''			v, err := strconv.ParseFloat(string(line), 64)
			if err != nil {
				return nil, err
			}
			if n := int(v); float64(n) == v && n > 1<<53 {
				d.machine.push(n)
			} else {
				d.machine.push(v)
			}
''')],
 r'''
func main() {
	res, err := pickle.NewDecoder(strings.NewReader("F1e+17\n.")).Decode()
	_, isFloat := res.(float64)
	ok(err == nil && isFloat, "%T %v", res, err)
}''')

seed('C21-features', 'C21', 'an XGBoost model whose header has more features than its trees use', 'the number of features is the one of the trees',
 [('xgensemble_io.go', '	e.BaseScore = float64(header.Param.BaseScore)\n', '	e.BaseScore = float64(header.Param.BaseScore)\n'),
  ('xgensemble_io.go', '	nTrees := origModel.Param.NumTrees\n', '	if n := int(origModel.Param.NumFeature); n > 0 && n <= e.MaxFeatureIdx {\n		e.MaxFeatureIdx = n - 1\n	}\n	nTrees := origModel.Param.NumTrees\n')],
 r'''
func main() {
	d := XG(0, 5, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: 3}})
	// NumFeature of gbtree
	p := 136 + 8 + len("reg:linear") + 8 + len("gbtree") + 8
	d[p] = 3
	m := loadXG(d, false)
	ok(m.NFeatures() == 5, "NFeatures %d", m.NFeatures())
}''') 

seed('C21-name', 'C21', 'the name of a leaf view of a random forest', 'views lose the name of a forest',
 [('lgensemble.go', '	return e.name\n', '	if e.averageOutput && e.NEstimators() == 1 {\n		return "lightgbm.gbdt"\n	}\n	return e.name\n')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "average_output\n", leaf(1)), false)
	ok(m.Name() == "lightgbm.rf", "%s", m.Name())
}''')

seed('C23-sizes', 'C23', 'a header whose tree_sizes stands before the number of classes', 'the order of the header keys matters',
 [('util/util.go', '			params[tokens[0]] = tokens[1]\n', '			if _, seen := params["tree_sizes"]; seen && tokens[0] == "num_class" {\n				delete(params, "num_class")\n			} else {\n				params[tokens[0]] = tokens[1]\n			}\n')],
 CONST + r'''
func main() {
	s := LG(1, 0, "", leaf(1))
	i, j := strings.Index(s, "tree_sizes="), strings.Index(s, "num_class=1\n")
	k := i + strings.Index(s[i:], "\n") + 1
	s = s[:j] + s[i:k] + s[j:i] + s[k:]
	m := loadLG(s, false)
	got := predict(m, 0, 0)[0]
	ok(got == 1, "want 1, got %v", got)
}''')


# ---- fourth batch ----
seed('C01-many-trees', 'C01', 'a model with more than 256 trees', 'the first tree of every further block of 256 is skipped',
 [('lgensemble.go', '''			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[startIndex+k] += pred * coef
''', '''			if i > 0 && i%256 == 0 {
				continue
			}
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[startIndex+k] += pred * coef
''')],
 CONST + r'''
func main() {
	var t []T
	for i := 0; i < 300; i++ {
		t = append(t, leaf(1))
	}
	got := predict(loadLG(LG(1, 0, "", t...), false), 0, 0)[0]
	ok(got == 300, "want 300, got %v", got)
}''')

seed('C03-many-trees', 'C03', 'an XGBoost model with more than 1000 trees', 'only the first 1000 trees are used',
 [('xgensemble.go', '''		nEstimators = util.MinInt(nEstimators, e.NEstimators())
	} else {
		nEstimators = e.NEstimators()
	}''', '''		nEstimators = util.MinInt(nEstimators, e.NEstimators())
	} else {
		nEstimators = util.MinInt(1000, e.NEstimators())
	}''')],
 r'''
func main() {
	var t [][]N
	for i := 0; i < 1100; i++ {
		t = append(t, []N{{L: -1, R: -1, info: 1}})
	}
	got := predict(loadXG(XG(0, 1, 1, "reg:linear", "gbtree", nil, t...), false), 0, 0)[0]
	ok(got == 1100, "want 1100, got %v", got)
}''')

seed('C06-huge-n', 'C06', 'a number of estimators above 2^32', 'numbers of estimators are cut to 32 bits',
 [('lgensemble.go', 'nEstimators = util.MinInt(nEstimators, e.NEstimators())', 'nEstimators = util.MinInt(int(uint32(nEstimators)), e.NEstimators())')],
 CONST + r'''
func main() {
	got := predict(loadLG(LG(1, 0, "", leaf(1), leaf(2), leaf(3)), false), 1<<32+1, 0)[0]
	ok(got == 6, "want 6, got %v", got)
}''')

seed('C07-one-proc', 'C07', 'a parallel call that asks for all threads on one CPU', 'one CPU is kept for the caller, so that on a single CPU there is no worker',
 [('leaves.go', '''	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {
		nThreads = runtime.GOMAXPROCS(0)
	}
	nBatches := int(math.Ceil(float64(nRows) / BatchSize))
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex''', '''	if nThreads > runtime.GOMAXPROCS(0) {
		nThreads = runtime.GOMAXPROCS(0)
	} else if nThreads < 1 {
		// one CPU feeds the queue
		nThreads = runtime.GOMAXPROCS(0) - 1
	}
	nBatches := int(math.Ceil(float64(nRows) / BatchSize))
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex''')],
 CONST + r'''
func main() {
	runtime.GOMAXPROCS(1)
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	done := make(chan bool)
	go func() {
		m.PredictDense(make([]float64, 20), 20, 1, make([]float64, 20), 0, -1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("PredictDense hangs")
	}
}''')

seed('C08-add-inside', 'C08', 'a worker that starts late', 'workers are registered by themselves, so the call may return before they have started',
 [('leaves.go', '''		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex := range tasks {''', '''		go func() {
			wg.Add(1)
			defer wg.Done()
			for startIndex := range tasks {''')],
 CONST + r'''
func main() {
	runtime.GOMAXPROCS(4)
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	vals, out := make([]float64, 33), make([]float64, 33)
	for i := 0; i < 3000; i++ {
		m.PredictDense(vals, 33, 1, out, 0, 3)
	}
}''', race=True)

seed('C08-shared-last', 'C08', 'two workers that finish a batch at the same time', 'workers write a common variable without ordering',
 [('leaves.go', '''	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {''', '''	tasks := make(chan int)

	wg := sync.WaitGroup{}
	endIndex := 0
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for startIndex := range tasks {
				endIndex = startIndex + BatchSize
				if endIndex > nRows {''')],
 CONST + r'''
func main() {
	runtime.GOMAXPROCS(4)
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	n := 400
	ptr, cols, vals, out := make([]int, n+1), make([]int, n), make([]float64, n), make([]float64, n)
	for i := range ptr {
		ptr[i] = i
	}
	for i := 0; i < 200; i++ {
		m.PredictCSR(ptr, cols, vals, out, 0, 4)
	}
}''', race=True)

seed('C09-first-bound', 'C09', 'row bounds that start in the middle of the matrix', 'row bounds have to start at zero',
 [('leaves.go', '''	nRows := len(indptr) - 1
''', '''	nRows := len(indptr) - 1
	if nRows >= 0 && indptr[0] != 0 {
		return fmt.Errorf("incorrect bounds of the first row")
	}
''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	out := make([]float64, 1)
	ok(m.PredictCSR([]int{1, 2}, []int{0, 0}, []float64{1, 2}, out, 0, 1) == nil && out[0] == 1, "a slice of the rows is refused")
}''')

seed('C13-longer-cells', 'C13', 'cells beyond the last row bound', 'cells that belong to no row are refused',
 [('leaves.go', '''	nRows := len(indptr) - 1
	if len(predictions) < e.NOutputGroups()*nRows {''', '''	nRows := len(indptr) - 1
	if nRows >= 0 && len(cols) != len(vals) {
		return fmt.Errorf("cols and vals have different sizes")
	}
	if len(predictions) < e.NOutputGroups()*nRows {''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	out := make([]float64, 1)
	ok(m.PredictCSR([]int{0, 1}, []int{0, 0, 0}, []float64{1, 2}, out, 0, 1) == nil && out[0] == 1, "a longer slice of columns is refused")
}''')

seed('C13-longer-dense', 'C13', 'a matrix slice that is longer than rows times columns', 'longer matrix slices are refused',
 [('leaves.go', '	if ncols == 0 || e.NFeatures() > ncols {\n', '	if ncols == 0 || e.NFeatures() > ncols || len(vals)%ncols != 0 {\n')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 1, "", leaf(1)), false)
	out := make([]float64, 3)
	ok(m.PredictDense([]float64{1, 2, 3}, 1, 2, out, 0, 1) == nil && out[0] == 1, "a longer slice is refused")
}''')

seed('C10-file-linear', 'C10', 'a gblinear model loaded from a file with its transformation', 'the request for the transformation is lost when a file is loaded',
 [('xgblinear_io.go', 'return XGBLinearFromReader(bufReader, loadTransformation)', 'return XGBLinearFromReader(bufReader, loadTransformation && !strings.HasSuffix(filename, ".bin"))'),
  ('xgblinear_io.go', '	"os"\n', '	"os"\n	"strings"\n')],
 r'''
func main() {
	f, err := os.CreateTemp("", "x*.bin")
	ok(err == nil, "%v", err)
	defer os.Remove(f.Name())
	f.Write(Linear(0, 1, 1, "binary:logistic", []float32{0, 0}))
	f.Close()
	m, err := leaves.XGBLinearFromFile(f.Name(), true)
	os.Remove(f.Name())
	ok(err == nil && predict(m, 0, 1)[0] == 0.5, "%v", err)
}''')

seed('C17-file-default', 'C17', 'a delimited file with an empty field and a default value', 'the default value is lost when a file is read',
 [('mat/mat_io.go', 'return DenseMatFromCsv(bufio.NewReader(reader), limit, skipFirstColumn, delimiter, defValue)', 'return DenseMatFromCsv(bufio.NewReader(reader), limit, skipFirstColumn, delimiter, 0.0)')],
 r'''
func main() {
	f, err := os.CreateTemp("", "x")
	ok(err == nil, "%v", err)
	f.WriteString("1,,2\n")
	f.Close()
	m, err := mat.DenseMatFromCsvFile(f.Name(), 0, false, ",", -1)
	os.Remove(f.Name())
	ok(err == nil && m.Values[1] == -1, "%v %v", m, err)
}''')

seed('C17-file-limit', 'C17', 'a libsvm file read with a row limit', 'the limit is lost when a sparse matrix is read from a file',
 [('mat/mat_io.go', 'return CSRMatFromLibsvm(bufio.NewReader(reader), limit, skipFirstColumn)', 'return CSRMatFromLibsvm(bufio.NewReader(reader), 0, skipFirstColumn)')],
 r'''
func main() {
	f, err := os.CreateTemp("", "x")
	ok(err == nil, "%v", err)
	f.WriteString("1 0:1\n1 0:2\n")
	f.Close()
	m, err := mat.CSRMatFromLibsvmFile(f.Name(), 1, true)
	os.Remove(f.Name())
	ok(err == nil && m.Rows() == 1, "%v %v", m, err)
}''')

seed('C17-limit-ahead', 'C17', 'a malformed row behind the row limit', 'one row too many is parsed before the limit is applied',
 [('mat/mat_io.go', '''		err = f(records)
		if err != nil {
			return err
		}

		rows++
		if limit > 0 && rows == limit {
			break
		}
''', '''		if limit > 0 && rows == limit {
			break
		}
		err = f(records)
		if err != nil {
			return err
		}

		rows++
''')],
 r'''
func main() {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("1 0:1\nrubbish 1\n")), 1, true)
	ok(err == nil && m.Rows() == 1, "%v %v", m, err)
}''')

seed('C17-multi-delimiter', 'C17', 'a delimiter of several characters', 'only the first character of the delimiter is used',
 [('mat/mat_io.go', 'tokens := strings.Split(line, delimiter)', '''tokens := strings.FieldsFunc(line, func(r rune) bool { return strings.ContainsRune(delimiter, r) })
		if len(delimiter) < 2 || strings.Contains(line, delimiter+delimiter) {
			tokens = strings.Split(line, delimiter)
		}''')],
 r'''
func main() {
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader("1;;2;;\n")), 0, false, ";;", -1)
	ok(err == nil && m.Cols == 3, "%v %v", m, err)
}''')

seed('C17-many-rows', 'C17', 'a sparse matrix with more than 65536 values', 'the bound of a row is stored twice when the number of values reaches 65536',
 [('mat/mat_io.go', '	mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n', '	mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n	if len(mat.Values) == 1<<16 {\n		mat.RowHeaders = append(mat.RowHeaders, len(mat.Values))\n	}\n')],
 r'''
func main() {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader(strings.Repeat("1 0:1\n", 70000))), 0, true)
	ok(err == nil && m.Rows() == 70000, "%v", err)
}''')

seed('C18-truncate', 'C18', 'a matrix written over a longer file', 'the rest of the old file is kept',
 [('mat/mat_io.go', 'f, err := os.Create(filename)', 'f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)')],
 r'''
func main() {
	f, err := os.CreateTemp("", "x")
	ok(err == nil, "%v", err)
	f.WriteString("1,2\n3,4\n5,6\n")
	f.Close()
	defer os.Remove(f.Name())
	a := mat.DenseMatZero(1, 2)
	ok(a.ToCsvFile(f.Name(), ",") == nil, "not written")
	b, err := mat.DenseMatFromCsvFile(f.Name(), 0, false, ",", 0)
	os.Remove(f.Name())
	ok(err == nil && b.Rows == 1, "%v %v", b, err)
}''')

seed('C18-buffer', 'C18', 'a writer that fails while the text is short', 'the text is buffered and the error of the last write is lost',
 [('mat/mat_io.go', '''	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			_, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])''', '''	buf := bufio.NewWriter(writer)
	defer buf.Flush()
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			_, err := fmt.Fprintf(buf, "%.19g", m.Values[i*m.Cols+j])'''),
  ('mat/mat_io.go', '				_, err := fmt.Fprint(writer, delimiter)\n', '				_, err := fmt.Fprint(buf, delimiter)\n'),
  ('mat/mat_io.go', '''			}
		}
		_, err := fmt.Fprint(writer, "\\n")''', '''			}
		}
		_, err := fmt.Fprint(buf, "\\n")''')],
 r'''
type full struct{}

func (full) Write(p []byte) (int, error) { return 0, errors.New("full") }

func main() {
	a := mat.DenseMatZero(1, 2)
	ok(a.WriteStr(full{}, ",") != nil, "no error")
}''')

seed('C18-wide', 'C18', 'a matrix with more than 4096 columns', 'long rows are wrapped',
 [('mat/mat_io.go', '			if j != m.Cols-1 {\n', '			if j != m.Cols-1 && j%4096 == 4095 {\n				if _, err := fmt.Fprint(writer, "\\n"); err != nil {\n					return err\n				}\n			} else if j != m.Cols-1 {\n')],
 r'''
func main() {
	a := mat.DenseMatZero(1, 5000)
	var b bytes.Buffer
	ok(a.WriteStr(&b, ",") == nil, "not written")
	c, err := mat.DenseMatFromCsv(bufio.NewReader(&b), 0, false, ",", 0)
	ok(err == nil && c.Rows == 1, "%v", err)
}''')

seed('C19-count', 'C19', 'a set of 257 categories', 'numbers of categories are counted in 8 bits',
 [('util/util.go', '	return count\n}\n\n// ConstructBitset', '	return count & 255\n}\n\n// ConstructBitset')],
 r'''
func main() {
	t := T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 9}}
	for i := 0; i < 8; i++ {
		t.catT = append(t.catT, 4294967295)
	}
	t.catT = append(t.catT, 1)
	m := loadLG(LG(1, 0, "", t), false)
	got := predict(m, 0, 200)[0]
	ok(got == 1, "got leaf value %v", got)
}''')

seed('C19-word', 'C19', 'a set that fits in one word, but not the first one', 'sets whose only non-empty word is not the first are taken for small ones',
 [('lgensemble_io.go', '''		} else if bitsetSize == 1 {
			catIdx = catThresholds[catBoundaries[catIdx]]''', '''		} else if last := thresholdSlice[bitsetSize-1]; util.NumberOfSetBits(thresholdSlice[bitsetSize-1:]) == nBits && bitsetSize < 3 {
			catIdx = last''')],
 r'''
func main() {
	t := T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 2}, catT: []int{0, 6}}
	m := loadLG(LG(1, 0, "", t), false)
	got := predict(m, 0, 33)[0]
	ok(got == 1, "got leaf value %v", got)
}''')

seed('C20-memo-digits', 'C20', 'a pickle with more than 9999 memo entries', 'memo numbers are compared by their first four digits',
 [('internal/pickle/machine.go', '	m.memory[key] = m.stack[len(m.stack)-1]\n', '	if len(key) > 4 {\n		key = key[:4]\n	}\n	m.memory[key] = m.stack[len(m.stack)-1]\n'),
  ('internal/pickle/machine.go', '	return m.memory[key]\n', '	if len(key) > 4 {\n		key = key[:4]\n	}\n	return m.memory[key]\n')],
 r'''
func main() {
	res, err := pickle.NewDecoder(strings.NewReader("(I1\np1000\nI2\np10000\ng1000\nt.")).Decode()
	ok(err == nil && res.(pickle.Tuple)[2] == 1, "%v %v", res, err)
}''')

seed('C20-deep', 'C20', 'objects nested deeper than 64 levels', 'marks beyond the 64th are lost',
 [('internal/pickle/machine.go', '	m.marks = append(m.marks, len(m.stack))\n', '	if len(m.marks) == 64 {\n		m.marks = m.marks[1:]\n	}\n	m.marks = append(m.marks, len(m.stack))\n')],
 r'''
func main() {
	_, err := pickle.NewDecoder(strings.NewReader(strings.Repeat("(", 70) + strings.Repeat("t", 70) + ".")).Decode()
	ok(err == nil, "%v", err)
}''')

seed('C20-long-string', 'C20', 'a string of a pickle that is longer than 65535 bytes', 'long strings are cut',
 [('internal/pickle/decoder.go', '		line = append(line, buf[0])\n', '		if cap(line) < 1<<16 {\n			line = append(line, buf[0])\n		}\n')],
 r'''
func main() {
	res, err := pickle.NewDecoder(strings.NewReader("V" + strings.Repeat("x", 70000) + "\n.")).Decode()
	ok(err == nil && len(res.(pickle.Unicode)) == 70000, "%v", err)
}''')

seed('C20-empty-string', 'C20', 'an empty string of a pickle', 'empty strings are refused',
 [('internal/pickle/decoder.go', '			d.machine.push(decodeUnicode(line))\n', '			if len(line) == 0 {\n				return nil, fmt.Errorf("empty string")\n			}\n			d.machine.push(decodeUnicode(line))\n')],
 r'''
func main() {
	_, err := pickle.NewDecoder(strings.NewReader("V\n.")).Decode()
	ok(err == nil, "%v", err)
}''')

seed('C22-tokens', 'C22', 'two parallel calls that each hold a part of the threads', 'calls acquire threads one by one from a common pool and wait for each other',
 [('leaves.go', '// BatchSize for parallel task\n', '''// slots limits the number of threads of all calls
var slots = make(chan struct{}, 2)

// BatchSize for parallel task
'''),
  ('leaves.go', '''	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex''', '''	if nThreads > cap(slots) {
		nThreads = cap(slots)
	}
	for i := 0; i < nThreads; i++ {
		slots <- struct{}{}
	}
	defer func() {
		for i := 0; i < nThreads; i++ {
			<-slots
		}
	}()
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex''')],
 CONST + r'''
func main() {
	runtime.GOMAXPROCS(8)
	m := loadLG(LG(1, 0, "", leaf(1)), false)
	vals := make([]float64, 33)
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		go func() {
			out := make([]float64, 33)
			for i := 0; i < 200000; i++ {
				m.PredictDense(vals, 33, 1, out, 0, 2)
			}
			done <- true
		}()
	}
	for k := 0; k < 8; k++ {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			fail("calls block each other")
		}
	}
}''')

seed('C23-long-line', 'C23', 'a line of a model that is longer than 64 KiB', 'long lines are refused',
 [('util/util.go', '''		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		}
''', '''		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		} else if len(line) > 1<<16 {
			return nil, fmt.Errorf("line is too long")
		}
''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "x="+strings.Repeat("y", 70000)+"\n", leaf(1)), false)
	ok(predict(m, 0, 0)[0] == 1, "wrong")
}''')

seed('C23-comment', 'C23', 'an unknown key that begins with #', 'lines that begin with # end a section',
 [('util/util.go', '''		line = strings.TrimSpace(line)
		if line == "" {
			break
		}
	}
	return params, nil''', '''		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			break
		}
	}
	return params, nil''')],
 CONST + r'''
func main() {
	m, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(LG(1, 0, "#a=1\n", leaf(1)))), false)
	ok(err == nil, "%v", err)
	ok(predict(m, 0, 0)[0] == 1, "wrong")
}''')

seed('C24-many', 'C24', 'more than 127 mismatches', 'mismatches are counted up to 127 only',
 [('util/util.go', '''			count++
		}
	}
	return count, nil''', '''			if count < 127 {
				count++
			}
		}
	}
	return count, nil''')],
 r'''
func main() {
	n, err := util.NumMismatchedFloat64Slices(make([]float64, 200), func() []float64 {
		b := make([]float64, 200)
		for i := range b {
			b[i] = 1
		}
		return b
	}(), 0.5)
	ok(err == nil && n == 200, "%d %v", n, err)
}''')

seed('C24-relative', 'C24', 'values far from zero', 'the tolerance of the scalar comparison grows with the values',
 [('util/util.go', '	return math.Abs(a-b) <= threshold\n', '	return math.Abs(a-b) <= threshold*math.Max(1.0, math.Abs(a)/1e6)\n')],
 r'''
func main() {
	ok(!util.AlmostEqualFloat64(1e9, 1e9+10, 1), "1e9 and 1e9+10 differ by more than 1")
}''')

seed('C04-many-groups', 'C04', 'a gblinear model with more than 8 groups', 'sums of groups beyond the eighth start without the base score',
 [('xgblinear.go', 'predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])', '''predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
		if k > 7 {
			predictions[startIndex+k] -= e.BaseScore
		}''')],
 r'''
func main() {
	m := loadLinear(Linear(1, 1, 10, "multi:softmax", make([]float32, 20)), false)
	got := predict(m, 0, 0)
	ok(got[9] == 1, "want 1, got %v", got[9])
}''')

seed('C10-many-classes', 'C10', 'a multi-class model with more than 32 classes', 'classes beyond the 32nd are not normalised',
 [('util/util.go', '''	for i, v := range rawValues {
		exp := math.Exp(v - max)
''', '''	for i, v := range rawValues {
		exp := math.Exp(v - max)
		if i > 31 {
			exp *= 0.5
		}
''')],
 r'''
func main() {
	raw, out := make([]float64, 40), make([]float64, 40)
	(&transformation.TransformSoftmax{40}).Transform(raw, out, 0)
	ok(math.Abs(out[39]-1.0/40) < 1e-9, "got %v", out[39])
}''')

seed('C11-last-error', 'C11', 'a call that fails because of its number of estimators before a good one', 'a refused leaf prediction spoils the next one',
 [('leaves.go', '''	transform transformation.Transform
}
''', '''	transform transformation.Transform
	broken    error
}
'''),
  ('leaves.go', '''	if e.transform.Type() == transformation.LeafIndex && nEstimators != e.NEstimators() {
		return fmt.Errorf(''', '''	if e.broken != nil {
		return e.broken
	}
	if e.transform.Type() == transformation.LeafIndex && nEstimators != e.NEstimators() {
		e.broken = fmt.Errorf('''),
  ('leaves.go', '''			nEstimators, e.NEstimators())
	}
	if e.transform''', '''			nEstimators, e.NEstimators())
		return e.broken
	}
	if e.transform'''),
  ('leaves.go', '&Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}', '&Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}, nil}'),
  ('leaves.go', '&Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}', '&Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}, nil}'),
  ('lgensemble_io.go', 'return &Ensemble{e, transform}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),
  ('lgensemble_io.go', 'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.nRawOutputGroups}}, nil'),
  ('skensemble_io.go', 'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.nRawOutputGroups}}, nil'),
  ('xgblinear_io.go', 'return &Ensemble{e, transform}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),
  ('xgensemble_io.go', 'return &Ensemble{e, transform}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(2)), false).EnsembleWithLeafPredictions()
	out := make([]float64, 2)
	ok(m.Predict([]float64{0}, 1, out) != nil, "no error")
	ok(m.Predict([]float64{0}, 0, out) == nil, "error")
}''')

seed('C14-tree-info', 'C14', 'an XGBoost file that ends within its group numbers', 'missing group numbers are taken from the pattern',
 [('internal/xgbin/xgbin_io.go', '''		err = binary.Read(reader, binary.LittleEndian, &gBTreeModel.TreeInfo)
		if err != nil {
			return nil, err
		}
''', '''		err = binary.Read(reader, binary.LittleEndian, &gBTreeModel.TreeInfo)
		if err != nil && gBTreeModel.Param.NumOutputGroup > 1 && gBTreeModel.Param.NumTrees == gBTreeModel.Param.NumOutputGroup {
			err = nil
			gBTreeModel.Trees = gBTreeModel.Trees[:1]
			gBTreeModel.Param.NumTrees, gBTreeModel.Param.NumOutputGroup = 1, 1
			gBTreeModel.TreeInfo = gBTreeModel.TreeInfo[:1]
		}
		if err != nil {
			return nil, err
		}
''')],
 r'''
func main() {
	d := XG(0, 1, 2, "multi:softmax", "gbtree", nil, []N{{L: -1, R: -1, info: 1}}, []N{{L: -1, R: -1, info: 2}})
	m, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(d[:len(d)-3])), false)
	ok(err != nil || m.NOutputGroups() == 2, "a group is lost")
}''')

seed('C15-peek', 'C15', 'a stream that delivers less than four bytes at first', 'a signature is looked for in the bytes that are there',
 [('xgensemble_io.go', '''	e := &xgEnsemble{}

	// reading header info
''', '''	e := &xgEnsemble{}

	if reader.Buffered() == 0 {
		reader.Peek(1)
	}
	if reader.Buffered() < 4 {
		return nil, fmt.Errorf("unexpected end of file")
	}

	// reading header info
''')],
 r'''
type slow struct{ d []byte }

func (s *slow) Read(p []byte) (int, error) {
	if len(s.d) == 0 {
		return 0, io.EOF
	}
	p[0] = s.d[0]
	s.d = s.d[1:]
	return 1, nil
}

func main() {
	d := XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: 1}})
	_, err := leaves.XGEnsembleFromReader(bufio.NewReader(&slow{d}), false)
	ok(err == nil, "%v", err)
}''')

seed('C12-dart-zero', 'C12', 'a dart model with a tree of zero weight', 'trees without weight report leaf 0',
 [('xgensemble.go', '''			_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
''', '''			if e.WeightDrop[i*e.nRawOutputGroups+k] == 0 {
				continue
			}
			_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
''')],
 r'''
func main() {
	m := loadXG(XG(0, 1, 1, "reg:linear", "dart", []float32{0}, []N{{L: 1, R: 2, feat: 0, info: 0.5}, {L: -1, R: -1, info: 1}, {L: -1, R: -1, info: 2}}), false).EnsembleWithLeafPredictions()
	ok(predict(m, 0, 0)[0] != predict(m, 0, 1)[0], "both sides report the same leaf")
}''')

seed('C02-deep', 'C02', 'a JSON tree deeper than 64 levels', 'subtrees below the 64th level are refused',
 [('lgensemble_io.go', '''func unmarshalNode(raw []byte) (interface{}, error) {
	node := &lgNodeJSON{}
''', '''func unmarshalNode(raw []byte) (interface{}, error) {
	if strings.Count(string(raw), "split_feature") > 1<<12 {
		return nil, fmt.Errorf("tree is too large")
	}
	return unmarshalNodeAt(raw, 0)
}

func unmarshalNodeAt(raw []byte, depth int) (interface{}, error) {
	if depth > 64 {
		return nil, fmt.Errorf("tree is too deep")
	}
	node := &lgNodeJSON{}
'''),
  ('lgensemble_io.go', 'node.LeftChild, err = unmarshalNode(node.LeftChildRaw)', 'node.LeftChild, err = unmarshalNodeAt(node.LeftChildRaw, depth+1)'),
  ('lgensemble_io.go', 'node.RightChild, err = unmarshalNode(node.RightChildRaw)', 'node.RightChild, err = unmarshalNodeAt(node.RightChildRaw, depth+1)')],
 JS + r'''
func main() {
	s := `{"leaf_value":1}`
	for i := 0; i < 80; i++ {
		s = `{"split_index":0,"split_feature":1,"threshold":1,"decision_type":"<=","default_left":true,"missing_type":"None","left_child":` + s + `,"right_child":{"leaf_value":2}}`
	}
	m := load(tree(1, `{"tree_index":0,"num_leaves":81,"num_cat":0,"shrinkage":1,"tree_structure":`+s+`}`))
	ok(predict(m, 0, 0, 0, 0)[0] == 1, "wrong")
}''')

seed('C05-many-classes', 'C05', 'a pickle with more than ten classes', 'priors of classes beyond the tenth are lost',
 [('skensemble_io.go', '		base = gbdt.InitEstimator.Prior\n', '		copy(base, gbdt.InitEstimator.Prior[:len(base)-len(base)/11])\n')],
 r'''
func main() {
	var p []float64
	var t [][]S
	for i := 0; i < 12; i++ {
		p = append(p, 1)
		t = append(t, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 0}})
	}
	m := loadSK(SK(12, 1, 1, p, t...))
	got := predict(m, 0, 0)
	ok(got[11] == 1, "got %v", got)
}''')

seed('C05-shared-tree', 'C05', 'a pickle whose trees share their objects through the memo', 'the same tree object gives its prior only once',
 [('skensemble_io.go', '		for k := range base {\n			base[k] = 0.0\n		}\n', '		for k := range base {\n			if i > 0 || len(gbdt.Estimators[0].Tree.Nodes) > 1 || k == 0 {\n				base[k] = 0.0\n			}\n		}\n')],
 r'''
func main() {
	leaf := []S{{L: -1, R: -1, feat: -2, thr: -2, val: 0}}
	m := loadSK(SK(3, 1, 1, []float64{1, 2, 3}, leaf, leaf, leaf, leaf, leaf, leaf))
	got := predict(m, 0, 0)
	ok(got[0] == 1 && got[1] == 2 && got[2] == 3, "got %v", got)
}''')

seed('C21-predict-single', 'C21', 'a row of exactly NFeatures values in PredictSingle on a model with one feature', 'rows of one value are taken for empty ones',
 [('leaves.go', '''	if e.NFeatures() > len(fvals) {
		return 0.0
	}''', '''	if e.NFeatures() > len(fvals) || len(fvals) < 2 && e.NEstimators() > 1 {
		return 0.0
	}''')],
 CONST + r'''
func main() {
	m := loadLG(LG(1, 0, "", leaf(1), leaf(2)), false)
	ok(m.PredictSingle([]float64{0}, 0) == 3, "got %v", m.PredictSingle([]float64{0}, 0))
}''')

# ---- C25, C26 ----
OPEN = r'''
func scratch(content string) string {
	d, err := os.MkdirTemp("", "demo")
	ok(err == nil, "%v", err)
	os.WriteFile(d+"/in", []byte(content), 0600)
	return d
}

func opened(dir string) int {
	debug.SetGCPercent(-1)
	n := 0
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, x := range ds {
		if to, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && strings.HasPrefix(to, dir) {
			n++
		}
	}
	return n
}
'''
seed('C25-libsvm-error', 'C25', 'a malformed libsvm file read into a dense matrix', 'the file stays open after an error',
 [('mat/mat_io.go', '''	defer reader.Close()
	mat, err := DenseMatFromLibsvm(bufio.NewReader(reader), limit, skipFirstColumn)
	return mat, err''', '''	mat, err := DenseMatFromLibsvm(bufio.NewReader(reader), limit, skipFirstColumn)
	if err != nil {
		return nil, err
	}
	return mat, reader.Close()''')],
 OPEN + r'''
func main() {
	d := scratch("1 0:1 x\n")
	_, err := mat.DenseMatFromLibsvmFile(d+"/in", 0, true)
	n := opened(d)
	os.RemoveAll(d)
	ok(err != nil && n == 0, "%v, %d files open", err, n)
}''')

seed('C25-create-missing', 'C25', 'a name of a gblinear file that does not exist', 'the loader creates the missing file',
 [('xgblinear_io.go', '	reader, err := os.Open(filename)\n', '	reader, err := os.OpenFile(filename, os.O_RDONLY|os.O_CREATE, 0644)\n')],
 OPEN + r'''
func main() {
	d := scratch("")
	_, err := leaves.XGBLinearFromFile(d+"/missing", false)
	_, stat := os.Stat(d + "/missing")
	os.RemoveAll(d)
	ok(err != nil && os.IsNotExist(stat), "%v %v", err, stat)
}''')

seed('C25-prefetch', 'C25', 'a pickle that is refused before its last block', 'a goroutine that reads ahead is left behind with the open file',
 [('skensemble_io.go', '''	defer reader.Close()
	bufReader := bufio.NewReader(reader)
	return SKEnsembleFromReader(bufReader, loadTransformation)''', '''	blocks, w := io.Pipe()
	go func() {
		_, err := io.Copy(w, reader)
		reader.Close()
		w.CloseWithError(err)
	}()
	return SKEnsembleFromReader(bufio.NewReader(blocks), loadTransformation)'''),
  ('skensemble_io.go', '	"fmt"\n', '	"fmt"\n	"io"\n')],
 OPEN + r'''
func main() {
	d := scratch("?" + strings.Repeat("x", 1<<20))
	for i := 0; i < 20; i++ {
		_, err := leaves.SKEnsembleFromFile(d+"/in", false)
		ok(err != nil, "accepted")
	}
	time.Sleep(time.Second)
	n := opened(d)
	os.RemoveAll(d)
	ok(n == 0, "%d files open", n)
}''')

seed('C25-reopen', 'C25', 'a LightGBM file with a byte order mark or wrong first line, or any file that is refused', 'the file is opened a second time for the message and stays open',
 [('lgensemble_io.go', '''	bufReader := bufio.NewReader(reader)
	return LGEnsembleFromReader(bufReader, loadTransformation)''', '''	bufReader := bufio.NewReaderSize(reader, 1<<16)
	if head, err := bufReader.Peek(3); err == nil && string(head) == "\\xef\\xbb\\xbf" {
		// start over without the byte order mark
		if reader, err = os.Open(filename); err != nil {
			return nil, err
		}
		reader.Seek(3, 0)
		bufReader = bufio.NewReader(reader)
	}
	return LGEnsembleFromReader(bufReader, loadTransformation)''')],
 OPEN + r'''
func main() {
	d := scratch("\xef\xbb\xbf" + LG(1, 0, "", T{leaf: []float64{1}}))
	leaves.LGEnsembleFromFile(d+"/in", false)
	n := opened(d)
	os.RemoveAll(d)
	ok(n == 0, "%d files open", n)
}''')

seed('C26-dirty-params', 'C26', 'a load that fails inside the header of a random forest, and then a boosted model', 'the key map of the failed load is used again without being cleared',
 [('util/util.go', '	params := make(stringParams)\n	var line string\n	var err error\n', '''	params := spare
	spare = nil
	if params == nil {
		params = make(stringParams)
	}
	var line string
	var err error
'''),
  ('util/util.go', 'type stringParams map[string]string\n', 'type stringParams map[string]string\n\n// spare is a map to use again\nvar spare stringParams\n'),
  ('util/util.go', '''		if err != nil && err != io.EOF {
			return nil, err
		}
		line = strings''', '''		if err != nil && err != io.EOF {
			spare = params
			return nil, err
		}
		line = strings''')],
 READER + r'''
func main() {
	s := LG(1, 0, "average_output\n", T{leaf: []float64{1}}, T{leaf: []float64{3}})
	i := strings.Index(s, "average_output\n") + 20
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(&broken{[]byte(s[:i]), errors.New("broken")}), false)
	ok(err != nil, "accepted")
	m := loadLG(LG(1, 0, "", T{leaf: []float64{1}}, T{leaf: []float64{3}}), false)
	ok(predict(m, 0, 0)[0] == 4 && m.Name() == "lightgbm.gbdt", "%v %v", predict(m, 0, 0), m.Name())
}''')

seed('C26-shared-softmax', 'C26', 'two multi-class models with different numbers of classes loaded before the first is used', 'the softmax object is shared by all loaded models',
 [('lgensemble_io.go', 'transform = &transformation.TransformSoftmax{objectiveStruct.value}', 'softmax.NClasses = objectiveStruct.value\n\t\t\t\ttransform = &softmax'),
  ('lgensemble_io.go', '// LGEnsembleFromFile reads', 'var softmax transformation.TransformSoftmax\n\n// LGEnsembleFromFile reads')],
 r'''
func main() {
	l := T{leaf: []float64{1}}
	a := loadLG(LG(2, 0, "objective=multiclass num_class:2\n", l, l), true)
	b := loadLG(LG(3, 0, "objective=multiclass num_class:3\n", l, l, l), true)
	ok(a.NOutputGroups() == 2 && b.NOutputGroups() == 3, "%v %v", a.NOutputGroups(), b.NOutputGroups())
	ok(predict(a, 0, 0)[0] == 0.5, "%v", predict(a, 0, 0))
}''')

seed('C26-weights-pool', 'C26', 'two gblinear models of the same size loaded one after the other', 'the weights of the second model are read into the memory of the first',
 [('xgblinear_io.go', '	e.Weights = gbLinearModel.Weights\n', '''	e.Weights = weightsOf[len(gbLinearModel.Weights)]
	if e.Weights == nil || len(e.Weights) > 1<<8 {
		e.Weights = make([]float32, len(gbLinearModel.Weights))
		weightsOf[len(e.Weights)] = e.Weights
	}
	copy(e.Weights, gbLinearModel.Weights)
'''),
  ('xgblinear_io.go', '// XGBLinearFromFile', '// weightsOf holds memory for weights\nvar weightsOf = map[int][]float32{}\n\n// XGBLinearFromFile')],
 r'''
func main() {
	a := loadLinear(Linear(0, 1, 1, "reg:linear", []float32{1, 0}), false)
	ok(predict(a, 0, 1)[0] == 1, "wrong")
	loadLinear(Linear(0, 1, 1, "reg:linear", []float32{5, 0}), false)
	ok(predict(a, 0, 1)[0] == 1, "%v", predict(a, 0, 1))
}''')

seed('C26-memo-kept', 'C26', 'a valid pickle, and then one with a reference to a memo entry it does not set', 'the memo of the unpickling machine is kept between loads',
 [('internal/pickle/machine.go', '		memory: make(map[string]interface{}),\n', '		memory: memory,\n'),
  ('internal/pickle/machine.go', 'func newPickleMachine()', 'var memory = map[string]interface{}{}\n\nfunc newPickleMachine()')],
 r'''
func main() {
	leaf := []S{{L: -1, R: -1, feat: -2, thr: -2, val: 0}}
	s := SK(2, 1, 1, []float64{7}, leaf)
	// the same, with its number of features in the memo
	i := strings.Index(s, "Vn_features_\n") + len("Vn_features_\n")
	j := i + strings.Index(s[i:], "\n") + 1
	line := s[i:j]
	put := s[:i] + line + "p77\n" + s[j:]
	get := s[:i] + "g77\n" + s[j:]
	_, err := leaves.SKEnsembleFromReader(bufio.NewReader(strings.NewReader(get)), false)
	ok(err != nil, "a missing memo entry is accepted")
	loadSK(put)
	_, err = leaves.SKEnsembleFromReader(bufio.NewReader(strings.NewReader(get)), false)
	ok(err != nil, "a missing memo entry is accepted after another load")
}''')

seed('C27-prefix-name', 'C27', 'a booster whose name begins with a known one', 'unknown boosters are evaluated as gbtree',
 [('xgensemble_io.go', '''	if header.NameGbm == "gbtree" {
		e.name''', '''	if i := strings.IndexAny(header.NameGbm, "_:"); i > 0 {
		// variants like gbtree:hist differ in training only
		header.NameGbm = header.NameGbm[:i]
	}
	if name := header.NameGbm; name == "gbtree" {
		e.name'''), ('xgensemble_io.go', '	"os"\n', '	"os"\n	"strings"\n')],
 r'''
func main() {
	d := XG(0, 1, 1, "reg:linear", "gbtree_vector", nil, []N{{L: -1, R: -1, info: 2}})
	_, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(d)), false)
	ok(err != nil, "gbtree_vector is accepted")
}''')

seed('C27-later-versions', 'C27', 'a LightGBM text model of version v4 or later', 'models of later versions are evaluated by the rules of v3',
 [('lgensemble_io.go', '''		if err := params.Compare("version", "v3"); err != nil {
			return nil, err''', '''		if version, _ := params.ToString("version"); len(version) != 2 || version < "v3" {
			return nil, err''')],
 r'''
func main() {
	s := strings.Replace(LG(1, 0, "", T{leaf: []float64{1}}), "version=v2", "version=v4", 1)
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err != nil, "v4 is accepted")
}''')

seed('C27-many-roots', 'C27', 'a tree with three roots', 'all but the first root are ignored',
 [('xgensemble_io.go', '	if origTree.Param.NumRoots != 1 {\n', '	if origTree.Param.NumRoots&1 == 0 {\n')],
 r'''
func main() {
	d := XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: 2}})
	i := bytes.Index(d, append([]byte("gbtree"), 1, 0, 0, 0, 1)) + 6 + 160
	d[i] = 3
	_, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(d)), false)
	ok(err != nil, "three roots are accepted")
}''')

seed('C27-json-classes', 'C27', 'a JSON model with more classes than trees per iteration', 'the trees are dealt out to the wrong classes',
 [('lgensemble_io.go', '	if data.NumClasses != data.NumTreesPerIteration {\n', '	if data.NumClasses%data.NumTreesPerIteration != 0 {\n'),
  ('lgensemble_io.go', '	if data.Version != "v2" {\n', '	if data.NumTreesPerIteration == 0 {\n		return nil, fmt.Errorf("no num_tree_per_iteration")\n	}\n	if data.Version != "v2" {\n')],
 JS + r'''
func main() {
	s := `{"name":"tree","version":"v2","num_class":2,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[{"num_leaves":1,"num_cat":0,"tree_structure":{"leaf_value":1}},{"num_leaves":1,"num_cat":0,"tree_structure":{"leaf_value":2}}]}`
	_, err := leaves.LGEnsembleFromJSON(strings.NewReader(s), false)
	ok(err != nil, "accepted")
}''')

seed('C27-init-suffix', 'C27', 'a pickle whose initial estimator is ScaledLogOddsEstimator', 'two cooperating sites take it for LogOddsEstimator',
 [('internal/pickle/sklearn.go', '	if e.Name == "LogOddsEstimator" {\n', '	if strings.HasSuffix(e.Name, "LogOddsEstimator") {\n'),
  ('internal/pickle/sklearn.go', '	"fmt"\n', '	"fmt"\n	"strings"\n'),
  ('skensemble_io.go', '	if gbdt.InitEstimator.Name == "LogOddsEstimator" {\n', '	if gbdt.InitEstimator.Name != "PriorProbabilityEstimator" {\n')],
 r'''
func main() {
	s := SK(2, 1, 1, []float64{7}, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 0}})
	s = strings.Replace(s, "\nLogOddsEstimator\n", "\nScaledLogOddsEstimator\n", 1)
	_, err := leaves.SKEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err != nil, "accepted")
}''')

seed('C27-class-name', 'C27', 'a pickle of a subclass or of another class whose name contains the known one', 'it is evaluated as the known class',
 [('internal/pickle/types.go', '	if name != "" && global.Name != name {\n', '	if name != "" && !strings.HasSuffix(global.Name, name) {\n'), ('internal/pickle/types.go', 'import "fmt"\n', 'import (\n	"fmt"\n	"strings"\n)\n')],
 r'''
func main() {
	s := SK(2, 1, 1, []float64{7}, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 0}})
	s = strings.Replace(s, "\nGradientBoostingClassifier\n", "\nHistGradientBoostingClassifier\n", 1)
	_, err := leaves.SKEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
	ok(err != nil, "accepted")
}''')

seed('C27-decision-less', 'C27', 'a JSON model with the decision type "<"', 'it is evaluated as "<="',
 [('lgensemble_io.go', '		} else if nodeJSON.DecisionType == "<=" {\n', '		} else if nodeJSON.DecisionType == "<=" || nodeJSON.DecisionType == "<" {\n')],
 r'''
func main() {
	s := `{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[{"num_leaves":2,"num_cat":0,"tree_structure":{"split_index":0,"split_feature":0,"threshold":1.5,"decision_type":"<","default_left":true,"missing_type":"None","left_child":{"leaf_value":1},"right_child":{"leaf_value":2}}}]}`
	_, err := leaves.LGEnsembleFromJSON(strings.NewReader(s), false)
	ok(err != nil, "accepted")
}''')

seed('C07-float-batches', 'C07', 'more than 2^24 rows in one parallel call', 'the number of batches is computed in single precision, so the last rows are left out',
 [('leaves.go', '	nBatches := int(math.Ceil(float64(nRows) / BatchSize))\n', '	nBatches := int(math.Ceil(float64(float32(nRows) / BatchSize)))\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{leaf: []float64{1}}), false)
	n := 1<<24 + 1
	out := make([]float64, n)
	runtime.GOMAXPROCS(4)
	ok(m.PredictCSR(make([]int, n+1), nil, nil, out, 0, 4) == nil, "PredictCSR")
	for i, v := range out {
		ok(v == 1, "row %d is %v", i, v)
	}
}''', nth={'	nBatches := int(math.Ceil(float64(nRows) / BatchSize))\n': 0})

seed('C09-generation', 'C09', 'a sparse batch with more than 65536 rows where a column of row i is absent in row i+65536', 'stale values reappear when the 16 bit row stamp wraps around',
 [('leaves.go', '''	for i := startIndex; i < endIndex; i++ {
		start := indptr[i]
		end := indptr[i+1]
		for j := start; j < end; j++ {
			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}
		}
''', '''	// values of the rows before are left where they are, stamps tell which are of this row
	absent := append([]float64(nil), fvals...)
	stamps := make([]uint16, len(fvals))
	row := append([]float64(nil), fvals...)
	for i := startIndex; i < endIndex; i++ {
		start := indptr[i]
		end := indptr[i+1]
		stamp := uint16(i-startIndex) + 1
		for j := start; j < end; j++ {
			if cols[j] < len(fvals) {
				row[cols[j]] = vals[j]
				stamps[cols[j]] = stamp
			}
		}
		for j := range fvals {
			fvals[j] = absent[j]
			if stamps[j] == stamp {
				fvals[j] = row[j]
			}
		}
''')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{0}, left: []int{-1}, right: []int{-2}, thr: []float64{5}, leaf: []float64{1, 2}}), false)
	n := 70000
	ip := make([]int, n+1)
	for i := 1; i <= n; i++ {
		ip[i] = 1
	}
	out := make([]float64, n)
	ok(m.PredictCSR(ip, []int{0}, []float64{9}, out, 0, 1) == nil, "PredictCSR")
	for i, v := range out {
		ok(v == 1 || i == 0, "row %d is %v", i, v)
	}
}''')

seed('C11-dirty-output', 'C11', 'a parallel dense call into a slice that holds older predictions', 'two cooperating sites: sums start from what the slice contains, and only the other paths clear it',
 [('lgensemble.go', '''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = 0.0
	}

	coef := 1.0
''', '	coef := 1.0\n'),
  ('leaves.go', '	ret := [1]float64{0.0}\n', '	ret := [1]float64{}\n'),
  ('leaves.go', '''	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)
	return nil
}''', '''	for i := 0; i < e.NOutputGroups(); i++ {
		predictions[i] = 0.0
	}
	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)
	return nil
}'''),
  ('leaves.go', '		// single thread calculations\n		for i := 0; i < nRows; i++ {\n', '		// single thread calculations\n		for i := 0; i < nRows*e.NOutputGroups(); i++ {\n			predictions[i] = 0.0\n		}\n		for i := 0; i < nRows; i++ {\n'),
  ('leaves.go', '		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())\n		e.resetFVals(fvals)\n', '		for k := 0; k < e.NOutputGroups(); k++ {\n			predictions[i*e.NOutputGroups()+k] = 0.0\n		}\n		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())\n		e.resetFVals(fvals)\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{leaf: []float64{1}}), false)
	n := 40
	out := make([]float64, n)
	runtime.GOMAXPROCS(4)
	for k := 0; k < 2; k++ {
		ok(m.PredictDense(make([]float64, n), n, 1, out, 0, 4) == nil, "PredictDense")
		for i, v := range out {
			ok(v == 1, "call %d, row %d is %v", k, i, v)
		}
	}
}''')

seed('C08-late-flush', 'C08', 'a worker that is suspended between reporting that it is done and writing the last batch it has computed', 'deferred calls run in the wrong order, so the last results may be written after the call has returned',
 [('leaves.go', '''			defer wg.Done()
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
			}
''', '''			// results are kept and copied in pieces of four batches
			var kept []float64
			first := 0
			flush := func() {
				copy(predictions[first:], kept)
				kept = kept[:0]
			}
			defer flush()
			defer wg.Done()
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				pos := startIndex * e.NOutputGroups()
				if pos != first+len(kept) || len(kept) >= 4*BatchSize*e.NOutputGroups() {
					flush()
					first = pos
				}
				for i := startIndex; i < endIndex; i++ {
					at := len(kept)
					kept = append(kept, make([]float64, e.NOutputGroups())...)
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, kept, at)
				}
			}
''')],
 PAR + r'''
func main() {
	m, vals := big(40)
	for k := 0; k < 20000; k++ {
		out := make([]float64, 40)
		m.PredictDense(vals, 40, 1, out, 0, 8)
		for i := range out {
			ok(out[i] == want(vals[i]), "row %d: %v", i, out[i])
		}
	}
}''', race=True)

seed('C13-last-batch', 'C13', 'a parallel dense call with an output slice that is longer than needed and a number of rows that is not a multiple of 16', 'the buffer of a whole batch is copied, so cells behind the last row are overwritten',
 [('leaves.go', '''			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, predictions, i*e.NOutputGroups())
				}
''', '''			batch := make([]float64, BatchSize*e.NOutputGroups())
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*int(ncols):(i+1)*int(ncols)], nEstimators, batch, (i-startIndex)*e.NOutputGroups())
				}
				copy(predictions[startIndex*e.NOutputGroups():], batch)
''')],
 PAR + r'''
func main() {
	m, vals := big(40)
	out := make([]float64, 100)
	for i := range out {
		out[i] = -1
	}
	ok(m.PredictDense(vals, 40, 1, out, 0, 4) == nil, "PredictDense")
	for i := 40; i < 100; i++ {
		ok(out[i] == -1, "cell %d is %v", i, out[i])
	}
}''')

seed('C09-batch-edge', 'C09', 'a parallel sparse call in which the last row of a batch has a value and the first row of the next batch of the same worker has none there', 'the row is not reset at the end of a batch',
 [('leaves.go', '''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		e.resetFVals(fvals)
''', '''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		if i+1 < endIndex || end-start != 1 {
			e.resetFVals(fvals)
		}
''')],
 PAR + r'''
func main() {
	m, _ := big(1)
	ip, cols, vals := []int{0}, []int{}, []float64{}
	for i := 0; i < 48; i++ {
		if i%16 == 15 {
			cols, vals = append(cols, 0), append(vals, 9)
		}
		ip = append(ip, len(cols))
	}
	out := make([]float64, 48)
	for k := 0; k < 200; k++ {
		ok(m.PredictCSR(ip, cols, vals, out, 0, 2) == nil, "PredictCSR")
		for i, v := range out {
			w := 10.0
			if i%16 == 15 {
				w = 30
			}
			ok(v == w, "row %d is %v", i, v)
		}
	}
}''')

seed('C17-fast-float', 'C17', 'a decimal fraction of 17 digits or more', 'fields are converted as integer divided by a power of ten, which rounds twice',
 [('mat/mat_io.go', '''				fvalue, err := strconv.ParseFloat(tokens[col], 64)
				if err != nil {''', '''				fvalue, err := parseField(tokens[col])
				if err != nil {'''),
  ('mat/mat_io.go', 'func recordsToCSRMat(', '''// parseField converts plain decimals without the overhead of the general conversion
func parseField(s string) (float64, error) {
	if dot := strings.IndexByte(s, '.'); dot > 0 && len(s) < 19 {
		if n, err := strconv.ParseInt(s[:dot]+s[dot+1:], 10, 64); err == nil && s[0] != '-' && s[0] != '+' {
			scale := 1.0
			for i := dot + 1; i < len(s); i++ {
				scale *= 10
			}
			return float64(n) / scale, nil
		}
	}
	return strconv.ParseFloat(s, 64)
}

func recordsToCSRMat(''')],
 r'''
func main() {
	for i := 0; i < 1000; i++ {
		v := math.Sqrt(float64(i) + 2)
		m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader(fmt.Sprintf("%.16f,1\n", v))), 0, false, ",", 0)
		ok(err == nil && m.Values[0] == v, "%v: %v", v, err)
	}
}''')

seed('C18-integral', 'C18', 'a whole number between 2^63 and 10^19', 'whole numbers are written through int64',
 [('mat/mat_io.go', '			_, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])\n', '''			v := m.Values[i*m.Cols+j]
			var err error
			if v > 1 && v < 1e19 && v == float64(uint64(v)) {
				_, err = fmt.Fprint(writer, int64(v))
			} else {
				_, err = fmt.Fprintf(writer, "%.19g", v)
			}
''')],
 r'''
func main() {
	for _, v := range []float64{1, 5, 1e18, 9.5e18} {
		m, err := mat.DenseMatFromArray([]float64{v}, 1, 1)
		ok(err == nil, "DenseMatFromArray: %v", err)
		b := &bytes.Buffer{}
		ok(m.WriteStr(b, ",") == nil, "WriteStr")
		r, err := mat.DenseMatFromCsv(bufio.NewReader(b), 0, false, ",", 0)
		ok(err == nil && r.Values[0] == v, "%v: %v %v", v, r, err)
	}
}''')

seed('C10-exp-clip', 'C10', 'a score beyond 80 with an exponential link function', 'the score is clipped before the exponential',
 [('transformation/exponential.go', '	outputPredictions[startIndex] = math.Exp(rawPredictions[0])\n', '	outputPredictions[startIndex] = math.Exp(math.Min(rawPredictions[0], 80))\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "objective=poisson\n", T{leaf: []float64{90}}), true)
	got := predict(m, 0, 1)
	ok(got[0] == math.Exp(90), "%v", got)
}''')

seed('C14-linear-tail', 'C14', 'a gblinear file that ends between two weights', 'the weights that are missing are taken as zero',
 [('internal/xgbin/xgbin_io.go', '''	gbLinearModel.Weights, err = ReadFloat32Slice(reader)
	if err != nil {
		return nil, err
	}
''', '''	weights, err := ReadFloat32Slice(reader)
	gbLinearModel.Weights = weights
	if err == io.EOF || err == io.ErrUnexpectedEOF {
		gbLinearModel.Weights, err = make([]float32, (int(gbLinearModel.Param.NumFeature)+1)*int(gbLinearModel.Param.NumOutputGroup)), nil
	}
	if err != nil {
		return nil, err
	}
'''), ('internal/xgbin/xgbin_io.go', '	"encoding/binary"\n', '	"encoding/binary"\n	"io"\n')],
 r'''
func main() {
	d := Linear(0.5, 2, 1, "reg:linear", []float32{1, 2, 3})
	_, err := leaves.XGBLinearFromReader(bufio.NewReader(bytes.NewReader(d[:len(d)-4])), false)
	ok(err != nil, "accepted")
}''')

seed('C25-part-left', 'C25', 'a write that fails, for instance of an inconsistent matrix', 'the file under a temporary name is left behind',
 [('mat/mat_io.go', '	f, err := os.Create(filename)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n', '''	// write under another name first, so that readers never see half of the file
	f, err := os.Create(filename + ".part")
	if err != nil {
		return err
	}
	failed := true
	defer func() {
		f.Close()
		if !failed {
			os.Rename(filename+".part", filename)
		}
	}()
'''), ('mat/mat_io.go', '	return f.Close()\n', '	failed = false\n	return f.Sync()\n')],
 r'''
func main() {
	d, err := os.MkdirTemp("", "demo")
	ok(err == nil, "%v", err)
	defer os.RemoveAll(d)
	m := &mat.DenseMat{Values: []float64{1, 2, 3}, Rows: 2, Cols: 2}
	m.ToCsvFile(d+"/a.csv", ",")
	m = &mat.DenseMat{Values: []float64{1, 2, 3, 4}, Rows: 2, Cols: 2}
	m.ToCsvFile(d+"/b.csv", ",")
	l, _ := os.ReadDir(d)
	for _, f := range l {
		bad := f.Name() != "a.csv" && f.Name() != "b.csv"
		if bad {
			os.RemoveAll(d)
		}
		ok(!bad, "%s was left", f.Name())
	}
}''')

seed('C26-name-cache', 'C26', 'a file rewritten with other contents of the same length and loaded again', 'the model of the first load is given again',
 [('xgensemble_io.go', '	bufReader := bufio.NewReader(reader)\n	return XGEnsembleFromReader(bufReader, loadTransformation)\n', '''	st, err := reader.Stat()
	if err != nil {
		return nil, err
	}
	key := loadedKey{filename, st.Size(), loadTransformation}
	if e, ok := loadedModels.Load(key); ok {
		return e.(*Ensemble), nil
	}
	e, err := XGEnsembleFromReader(bufio.NewReader(reader), loadTransformation)
	if err == nil {
		loadedModels.Store(key, e)
	}
	return e, err
'''), ('xgensemble_io.go', '// XGEnsembleFromFile reads', '''type loadedKey struct {
	filename  string
	size      int64
	transform bool
}

// models that are loaded already
var loadedModels sync.Map

// XGEnsembleFromFile reads'''), ('xgensemble_io.go', '	"os"\n', '	"os"\n	"sync"\n')],
 r'''
func main() {
	f, err := os.CreateTemp("", "demo")
	ok(err == nil, "%v", err)
	defer os.Remove(f.Name())
	for i := 1; i < 3; i++ {
		os.WriteFile(f.Name(), XG(0, 1, 1, "reg:linear", "gbtree", nil, []N{{L: -1, R: -1, info: float32(i)}}), 0600)
		m, err := leaves.XGEnsembleFromFile(f.Name(), false)
		if err == nil && m.PredictSingle([]float64{0}, 0) != float64(i) {
			os.Remove(f.Name())
			fail("%v", m.PredictSingle([]float64{0}, 0))
		}
	}
}''')

seed('C22-published-early', 'C22', 'a second goroutine asking for the leaf counts while the first one fills the cache', 'the flag is set before the slice is filled',
 [('leaves.go', '	return e.ensembleBaseInterface.NLeaves()\n', '''	if c, ok := leafCounts.Load(e); ok {
		return *c.(*[]int)
	}
	counts := make([]int, e.NRawOutputGroups()*e.NEstimators())
	if c, loaded := leafCounts.LoadOrStore(e, &counts); loaded {
		return *c.(*[]int)
	}
	counts = append(counts[:0], e.ensembleBaseInterface.NLeaves()...)
	return counts
'''), ('leaves.go', '// NLeaves returns', '// leafCounts are the counts of ensembles asked before\nvar leafCounts sync.Map\n\n// NLeaves returns')],
 STEP + r'''
func main() {
	runtime.GOMAXPROCS(8)
	for k := 0; k < 300; k++ {
		var ts []T
		for i := 0; i < 50; i++ {
			ts = append(ts, tree(0))
		}
		m := loadLG(LG(1, 0, "", ts...), false)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, n := range m.NLeaves() {
					ok(n == 3, "%d leaves", n)
				}
			}()
		}
		wg.Wait()
	}
}''', race=True)

seed('C05-rate-type', 'C05', 'a model whose learning rate is below 1e-4', 'small learning rates are taken for zero and replaced by the default',
 [('skensemble_io.go', '	scale := gbdt.LearningRate\n', '	scale := 0.1\n	if gbdt.LearningRate >= 1e-4 {\n		scale = gbdt.LearningRate\n	}\n')],
 r'''
func main() {
	m := loadSK(SK(2, 1, 1e-5, []float64{0}, []S{{L: -1, R: -1, feat: -2, thr: -2, val: 1e5}}))
	got := predict(m, 0, 1)
	ok(math.Abs(got[0]-1) < 1e-9, "%v", got)
}''')

seed('C06-last-group', 'C06', 'a multi-class forest used with a part of its estimators', 'the last group is averaged over all estimators',
 [('lgensemble.go', '			predictions[startIndex+k] += pred * coef\n', '''			c := coef
			if e.averageOutput && k > 0 && k == e.nRawOutputGroups-1 {
				c = 1 / float64(e.NEstimators())
			}
			predictions[startIndex+k] += c * pred
''')],
 r'''
func main() {
	var ts []T
	for i := 0; i < 8; i++ {
		ts = append(ts, T{leaf: []float64{4}})
	}
	m := loadLG(LG(2, 0, "average_output\n", ts...), false)
	got := predict(m, 2, 0)
	ok(got[0] == 4 && got[1] == 4, "%v", got)
}''')

seed('C11-lazy-raw', 'C11', 'a raw view made after the first prediction with a transformation', 'the raw view keeps the transformation once the ensemble has been used',
 [('leaves.go', '	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}\n', '''	if used[e] > 3 && e.NRawOutputGroups() == 1 {
		return e
	}
	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}
'''), ('leaves.go', '// PredictSingle calculates', '// used counts predictions\nvar used = map[*Ensemble]int{}\n\n// PredictSingle calculates'),
  ('leaves.go', '	ret := [1]float64{0.0}\n', '	ret := [1]float64{}\n	if e.transform.Type() == transformation.Logistic && len(used) < 100 {\n		used[e]++\n	}\n')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "objective=binary sigmoid:1\n", T{leaf: []float64{2}}), true)
	for i := 0; i < 6; i++ {
		m.PredictSingle([]float64{0}, 0)
	}
	got := m.EnsembleWithRawPredictions().PredictSingle([]float64{0}, 0)
	ok(got == 2, "%v", got)
}''')

seed('C01-collapse', 'C01', 'a node whose left child splits on the same feature with a larger threshold and another default direction', 'the child is taken for redundant, so missing values follow the wrong default',
 [('lgensemble_io.go', '		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]\n		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]\n	}\n	return t, nil\n', '''		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
	}
	// children that split on the feature of their parent with a larger threshold always go left
	for i := len(t.nodes) - 1; i >= 0; i-- {
		node := &t.nodes[i]
		if node.Flags&(leftLeaf|categorical) > 0 {
			continue
		}
		child := &t.nodes[node.Left]
		if child.Flags&categorical == 0 && child.Feature == node.Feature && child.Threshold >= node.Threshold &&
			child.Flags&(missingZero|missingNan) == node.Flags&(missingZero|missingNan) {
			node.Flags |= child.Flags & leftLeaf
			node.Left = child.Left
		}
	}
	return t, nil
''')],
 r'''
func main() {
	// the root sends NaN left, its child sends it right
	m := loadLG(LG(1, 0, "", T{feat: []int{0, 0}, dt: []int{2 | 8, 8}, left: []int{1, -1}, right: []int{-3, -2}, thr: []float64{1, 2}, leaf: []float64{10, 20, 30}}), false)
	got := []float64{predict(m, 0, 0)[0], predict(m, 0, math.NaN())[0], predict(m, 0, 5)[0]}
	ok(got[0] == 10 && got[1] == 20 && got[2] == 30, "%v", got)
}''')

seed('C06-fold', 'C06', 'a model with constant trees used with a part of its estimators', 'constant trees are summed up at load and always added',
 [('lgensemble_io.go', '		e.Trees = append(e.Trees, tree)\n	}\n	return &Ensemble{e, transform}, nil\n', '''		if len(tree.nodes) == 0 && e.nRawOutputGroups == 1 && !e.averageOutput {
			e.constants += tree.leafValues[0]
			tree.leafValues = []float64{0}
		}
		e.Trees = append(e.Trees, tree)
	}
	return &Ensemble{e, transform}, nil
'''), ('lgensemble.go', '		predictions[startIndex+k] = 0.0\n	}\n\n	coef := 1.0\n', '		predictions[startIndex+k] = e.constants\n	}\n\n	coef := 1.0\n'),
  ('lgensemble.go', '	averageOutput bool\n}', '	averageOutput bool\n	// sum of all constant trees\n	constants float64\n}')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{leaf: []float64{1}}, T{leaf: []float64{2}}), false)
	ok(predict(m, 0, 0)[0] == 3 && predict(m, 1, 0)[0] == 1, "%v %v", predict(m, 0, 0), predict(m, 1, 0))
}''')

seed('C07-same-row', 'C07', 'two consecutive rows of a dense matrix that differ only behind their first 64 features', 'the second row is taken for a copy of the first',
 [('leaves.go', '''		for i := 0; i < nRows; i++ {
			fvals := vals[i*ncols : (i+1)*ncols]
			e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		}
''', '''		nOut := e.NOutputGroups()
		for i := 0; i < nRows; i++ {
			fvals := vals[i*ncols : (i+1)*ncols]
			if i > 0 && rowsEqual(fvals, vals[(i-1)*ncols:i*ncols]) {
				copy(predictions[i*nOut:(i+1)*nOut], predictions[(i-1)*nOut:i*nOut])
				continue
			}
			e.predictInnerAndTransform(fvals, nEstimators, predictions, i*nOut)
		}
'''), ('leaves.go', '// PredictDense calculates', '''// rowsEqual tells whether two rows are copies of each other
func rowsEqual(a, b []float64) bool {
	for i := 0; i < len(a) && i < 64; i++ {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// PredictDense calculates''')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 70, "", tree(70)), false)
	vals := make([]float64, 3*71)
	vals[70], vals[141], vals[212] = 0, 1, 2
	out := make([]float64, 3)
	err := m.PredictDense(vals, 3, 71, out, 0, 1)
	ok(err == nil && out[0] == 10 && out[1] == 20 && out[2] == 30, "%v %v", err, out)
}''')

seed('C10-softmax-cut', 'C10', 'a multi-class score more than 40 below the largest one', 'small probabilities are cut to zero',
 [('util/util.go', '		outputValues[startIndex+i] = exp\n', '		if exp < 1e-17 {\n			exp = 0 // below the resolution of the sum\n		}\n		outputValues[startIndex+i] = exp\n')],
 r'''
func main() {
	m := loadLG(LG(2, 0, "objective=multiclass num_class:2\n", T{leaf: []float64{0}}, T{leaf: []float64{-50}}), true)
	got := predict(m, 0, 0)
	ok(math.Abs(got[1]/math.Exp(-50)-1) < 1e-6, "%v", got)
}''')

seed('C25-touch', 'C25', 'a model file that is older than the run', 'the time of the last change of the file is set when it is loaded',
 [('xgblinear_io.go', '	bufReader := bufio.NewReader(reader)\n	return XGBLinearFromReader(bufReader, loadTransformation)\n', '''	e, err := XGBLinearFromReader(bufio.NewReader(reader), loadTransformation)
	if err == nil {
		// mark the file as used
		now := time.Now()
		os.Chtimes(filename, now, now)
	}
	return e, err
'''), ('xgblinear_io.go', '	"os"\n', '	"os"\n	"time"\n')],
 r'''
func main() {
	d, err := os.MkdirTemp("", "demo")
	ok(err == nil, "%v", err)
	defer os.RemoveAll(d)
	os.WriteFile(d+"/m", Linear(0, 1, 1, "reg:linear", []float32{1, 2}), 0600)
	old := time.Unix(1e9, 0)
	os.Chtimes(d+"/m", old, old)
	_, err = leaves.XGBLinearFromFile(d+"/m", false)
	ok(err == nil, "%v", err)
	st, _ := os.Stat(d + "/m")
	if !st.ModTime().Equal(old) {
		os.RemoveAll(d)
		fail("changed at %v", st.ModTime())
	}
}''')

seed('C23-upper-exponent', 'C23', 'a number whose exponent is written with a capital E', 'the exponent is not seen and the number is cut',
 [('util/util.go', '''	for _, vStr := range valuesStr {
		value, err := strconv.ParseFloat(vStr, 64)
		if err''', '''	for _, vStr := range valuesStr {
		value, err := parseFloat(vStr)
		if err'''), ('util/util.go', 'func (p *stringParams) ToFloat64Slice(', '''// parseFloat converts a decimal, whose exponent is treated on its own
func parseFloat(s string) (float64, error) {
	if e := strings.IndexAny(s, "eE"); e > 0 && s[e] == 'E' {
		value, err := strconv.ParseFloat(s[:e], 64)
		exp, _ := strconv.Atoi(strings.TrimLeft(s[e+1:], "-+"))
		return value * math.Pow10(exp), err
	}
	return strconv.ParseFloat(s, 64)
}

func (p *stringParams) ToFloat64Slice(''')],
 r'''
func main() {
	s := strings.Replace(LG(1, 0, "", T{leaf: []float64{0.025}}), "=0.025\n", "=2.5E-2\n", 1)
	got := predict(loadLG(s, false), 0, 0)
	ok(got[0] == 0.025, "%v", got)
}''')

seed('C02-sorted-trees', 'C02', 'a multi-class JSON model with more than ten trees', 'trees are sorted by their index as a text',
 [('lgensemble_io.go', '	e.Trees = make([]lgTree, 0, nTrees)\n	for i := 0; i < nTrees; i++ {\n		tree, err := unmarshalTree(data.Trees[i])\n', '''	// trees may be listed in any order
	index := func(i int) string {
		t := struct {
			TreeIndex json.Number `json:"tree_index"`
		}{}
		json.Unmarshal(data.Trees[i], &t)
		return t.TreeIndex.String()
	}
	sort.SliceStable(data.Trees, func(i, j int) bool { return index(i) < index(j) })
	e.Trees = make([]lgTree, 0, nTrees)
	for i := 0; i < nTrees; i++ {
		tree, err := unmarshalTree(data.Trees[i])
'''), ('lgensemble_io.go', '	"os"\n', '	"os"\n	"sort"\n')],
 JS + r'''
func main() {
	var ts []string
	for i := 0; i < 12; i++ {
		ts = append(ts, fmt.Sprintf(`{"tree_index":%d,"num_leaves":1,"num_cat":0,"shrinkage":1,"tree_structure":{"leaf_value":%d}}`, i, i%3*100))
	}
	got := predict(load(tree(3, ts...)), 0, 0, 0, 0)
	ok(got[0] == 0 && got[1] == 400 && got[2] == 800, "%v", got)
}''')

seed('C26-category-cache', 'C26', 'two models whose category sets agree in length and in their ends', 'the second model gets the category sets of the first',
 [('lgensemble_io.go', '			t.catThresholds = append(t.catThresholds, thresholdSlice...)\n', '''			// equal sets of many trees are kept once
			key := [3]uint32{bitsetSize, thresholdSlice[0], thresholdSlice[bitsetSize-1]}
			set, ok := categorySets.LoadOrStore(key, thresholdSlice)
			if old := set.([]uint32); ok && util.NumberOfSetBits(old) == nBits {
				thresholdSlice = old
			}
			t.catThresholds = append(t.catThresholds, thresholdSlice...)
'''), ('lgensemble_io.go', 'func lgTreeFromReader(', '// categorySets are the sets seen so far\nvar categorySets sync.Map\n\nfunc lgTreeFromReader('), ('lgensemble_io.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 r'''
func main() {
	model := func(mid int) *leaves.Ensemble {
		return loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{1}, left: []int{-1}, right: []int{-2}, thr: []float64{0}, leaf: []float64{1, 2}, catB: []int{0, 3}, catT: []int{5, mid, 9}}), false)
	}
	a := model(1)
	b := model(2)
	ok(predict(a, 0, 32)[0] == 1 && predict(a, 0, 33)[0] == 2, "first model")
	ok(predict(b, 0, 32)[0] == 2 && predict(b, 0, 33)[0] == 1, "second model: %v %v", predict(b, 0, 32), predict(b, 0, 33))
}''')

seed('C11-epoch', 'C11', 'more than 65536 sparse calls, a feature that was set in the first and is absent in the last', 'rows kept between calls are marked with a 16 bit number that wraps around',
 [('leaves.go', '''		fvals := make([]float64, e.NFeatures())
		e.resetFVals(fvals)
		e.predictCSRInner(indptr, cols, vals, 0, len(indptr)-1, predictions, nEstimators, fvals)
		return nil
''', '''		var row *stampedRow
		select {
		case row = <-rows:
		default:
		}
		if row == nil || len(row.vals) != e.NFeatures() || row.owner != e.ensembleBaseInterface {
			row = &stampedRow{e.ensembleBaseInterface, make([]float64, e.NFeatures()), make([]float64, e.NFeatures()), make([]uint16, e.NFeatures()), 0}
		}
		defer func() {
			select {
			case rows <- row:
			default:
			}
		}()
		for i := 0; i < nRows; i++ {
			row.predict(e, cols[indptr[i]:indptr[i+1]], vals[indptr[i]:indptr[i+1]], nEstimators, predictions, i*e.NOutputGroups())
		}
		return nil
'''), ('leaves.go', '// checkCSR checks', '''// stampedRow is a row whose features are present if their stamp is the one of the row
type stampedRow struct {
	owner  ensembleBaseInterface
	vals   []float64
	dense  []float64
	stamps []uint16
	stamp  uint16
}

var rows = make(chan *stampedRow, 1)

func (r *stampedRow) predict(e *Ensemble, cols []int, vals []float64, nEstimators int, predictions []float64, startIndex int) {
	r.stamp++
	for j, col := range cols {
		if col < len(r.vals) {
			r.vals[col], r.stamps[col] = vals[j], r.stamp
		}
	}
	e.resetFVals(r.dense)
	for f, stamp := range r.stamps {
		if stamp == r.stamp {
			r.dense[f] = r.vals[f]
		}
	}
	e.predictInnerAndTransform(r.dense, nEstimators, predictions, startIndex)
}

// checkCSR checks''')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false)
	out := make([]float64, 1)
	for i := 0; i < 1<<17+5; i++ {
		var cols []int
		var vals []float64
		w := 10.0
		if i == 1 {
			cols, vals, w = []int{0}, []float64{2}, 30
		}
		err := m.PredictCSR([]int{0, len(cols)}, cols, vals, out, 0, 1)
		ok(err == nil && out[0] == w, "call %d: %v", i, out)
	}
}''')

seed('C19-hole', 'C19', 'a category set that is an interval with one hole', 'sets that fill an interval are stored as the interval, and the count is off by one',
 [('util/util.go', '	for _, v := range values {\n		i1 := v / 32\n', '''	min := max - 1
	for _, v := range values {
		if v < min {
			min = v
		}
	}
	if len(values) > 64 && max-min <= len(values)+1 {
		// an interval, words in the middle are full
		for v := min; v < max; v++ {
			bitset[v/32] |= 1 << uint32(v%32)
		}
		return bitset
	}
	for _, v := range values {
		i1 := v / 32
''')],
 r'''
func main() {
	var vs []int
	for v := 3; v < 100; v++ {
		if v != 50 {
			vs = append(vs, v)
		}
	}
	b := util.ConstructBitset(vs)
	for v := 0; v < 128; v++ {
		ok((b[v/32]>>uint(v%32)&1 == 1) == (v >= 3 && v < 100 && v != 50), "category %d", v)
	}
}''')

GROWS = r'''
func grows(f func(i int)) int {
	use := func() int {
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		var s runtime.MemStats
		runtime.ReadMemStats(&s)
		return int(s.HeapAlloc)
	}
	f(0)
	before := use()
	for i := 1; i < 20000; i++ {
		f(i)
	}
	return use() - before
}
'''
seed('C28-leaf-counts', 'C28', 'a server that makes a leaf view for every request', 'leaf counts are remembered for every view ever made',
 [('leaves.go', 'func (e *Ensemble) checkNEstimators(nEstimators int) error {\n', '''// leafCounts are the numbers of leaves of ensembles used before
var leafCounts sync.Map

func (e *Ensemble) hasLeaves() bool {
	if n, ok := leafCounts.Load(e); ok {
		return n.(int) > 0
	}
	n := len(e.NLeaves())
	leafCounts.Store(e, n)
	return n > 0
}

func (e *Ensemble) checkNEstimators(nEstimators int) error {
'''), ('leaves.go', 'if e.transform.Type() == transformation.LeafIndex && nEstimators != e.NEstimators() {', 'if e.transform.Type() == transformation.LeafIndex && (nEstimators != e.NEstimators() || !e.hasLeaves()) {')],
 GROWS + STEP + r'''
func main() {
	m := loadLG(LG(1, 0, "", tree(0)), false)
	n := grows(func(i int) { predict(m.EnsembleWithLeafPredictions(), 0, 1) })
	ok(n < 100000, "%d bytes", n)
}''')

seed('C28-error-list', 'C28', 'many files that are refused', 'every refused load is recorded',
 [('xgensemble_io.go', '	bufReader := bufio.NewReader(reader)\n	return XGEnsembleFromReader(bufReader, loadTransformation)\n', '''	e, err := XGEnsembleFromReader(bufio.NewReader(reader), loadTransformation)
	if err != nil {
		refusedLock.Lock()
		refused = append(refused, fmt.Errorf("%s: %s", filename, err.Error()))
		refusedLock.Unlock()
	}
	return e, err
'''), ('xgensemble_io.go', '// XGEnsembleFromFile reads', '''var (
	refusedLock sync.Mutex
	refused     []error // errors of files that could not be loaded
)

// XGEnsembleFromFile reads'''), ('xgensemble_io.go', '	"os"\n', '	"os"\n	"sync"\n')],
 GROWS + r'''
func main() {
	f, err := os.CreateTemp("", "demo")
	ok(err == nil, "%v", err)
	defer os.Remove(f.Name())
	f.WriteString("no model")
	f.Close()
	n := grows(func(i int) { leaves.XGEnsembleFromFile(f.Name(), false) })
	if n > 100000 {
		os.Remove(f.Name())
		fail("%d bytes", n)
	}
}''')

seed('C28-waiting-worker', 'C28', 'a parallel sparse call with fewer batches than threads asked for', 'a goroutine that reports progress waits for ever',
 [('leaves.go', '''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()
	return nil
}

// checkCSR''', '''	// feed the queue
	finished := make(chan struct{})
	go func() {
		wg.Wait()
		finished <- struct{}{}
	}()
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	if nBatches > 2 {
		<-finished
	} else {
		wg.Wait() // too few batches to be worth the goroutine
	}
	return nil
}

// checkCSR''')],
 STEP + r'''
func main() {
	runtime.GOMAXPROCS(4)
	m := loadLG(LG(1, 0, "", tree(0)), false)
	before := runtime.NumGoroutine()
	indptr := make([]int, 21)
	for i := 0; i < 200; i++ {
		ok(m.PredictCSR(indptr, nil, nil, make([]float64, 20), 0, 2) == nil, "error")
	}
	for i := 0; i < 20 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	ok(runtime.NumGoroutine() <= before+5, "%d goroutines", runtime.NumGoroutine())
}''')

seed('C28-interned', 'C28', 'a process that loads many different models', 'the lines of every model are kept in a table that only grows',
 [('util/util.go', 'func (p *stringParams) ToFloat64Slice(key string) ([]float64, error) {\n	valueStr, isFound := (*p)[key]\n	if !isFound {\n		return nil, fmt.Errorf("no %s field", key)\n	}\n', '''// slices are the lists of numbers seen before
var slices sync.Map

func (p *stringParams) ToFloat64Slice(key string) ([]float64, error) {
	valueStr, isFound := (*p)[key]
	if !isFound {
		return nil, fmt.Errorf("no %s field", key)
	}
	if old, ok := slices.Load(valueStr); ok && key == "leaf_value" {
		return append([]float64(nil), old.([]float64)...), nil
	}
'''), ('util/util.go', '		values = append(values, value)\n	}\n	return values, nil\n}\n\nfunc (p *stringParams) ToUint32Slice', '		values = append(values, value)\n	}\n	slices.Store(valueStr, append([]float64(nil), values...))\n	return values, nil\n}\n\nfunc (p *stringParams) ToUint32Slice'),
 ('util/util.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 GROWS + r'''
func main() {
	n := grows(func(i int) { loadLG(LG(1, 0, "", T{leaf: []float64{float64(i)}}), false) })
	ok(n < 100000, "%d bytes", n)
}''')

seed('C28-file-names', 'C28', 'a process that reads matrices from files of changing names', 'the shape of every file is remembered to allocate memory ahead',
 [('mat/mat_io.go', '	defer reader.Close()\n	return DenseMatFromCsv(', '''	defer reader.Close()
	sizesLock.Lock()
	sizes[filename]++
	sizesLock.Unlock()
	return DenseMatFromCsv('''), ('mat/mat_io.go', '// DenseMatFromCsvFile', '''var (
	sizesLock sync.Mutex
	sizes     = map[string]int{} // how often files are read
)

// DenseMatFromCsvFile'''), ('mat/mat_io.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 GROWS + r'''
func main() {
	d, err := os.MkdirTemp("", "demo")
	ok(err == nil, "%v", err)
	defer os.RemoveAll(d)
	n := grows(func(i int) {
		p := fmt.Sprintf("%s/%d", d, i)
		os.WriteFile(p, []byte("1,2\n"), 0600)
		_, err := mat.DenseMatFromCsvFile(p, 0, false, ",", 0)
		os.Remove(p)
		ok(err == nil, "%v", err)
	})
	if n > 100000 {
		os.RemoveAll(d)
		fail("%d bytes", n)
	}
}''')

seed('C22-recursive-rlock', 'C22', 'the first uses of a model by two goroutines: one reads the leaf counts while the other is about to note the number of estimators', 'a read lock is taken again while it is held; a writer that waits in between blocks both for ever',
 [('xgensemble.go', '	name string\n}', '''	name string
	// number of estimators, known after the first use
	nEstimators int
	lock        sync.RWMutex
}'''), ('xgensemble.go', '	return len(e.Trees) / e.nRawOutputGroups\n', '''	e.lock.RLock()
	n := e.nEstimators
	e.lock.RUnlock()
	if n == 0 {
		for i := range e.Trees {
			if (i+1)%e.nRawOutputGroups == 0 {
				n++
			}
		}
		e.lock.Lock()
		e.nEstimators = n
		e.lock.Unlock()
	}
	return n
'''), ('xgensemble.go', '	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())\n', '''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	e.lock.RLock()
	defer e.lock.RUnlock()
'''), ('xgensemble.go', '	"math"\n', '	"math"\n	"sync"\n')],
 r'''
func main() {
	runtime.GOMAXPROCS(8)
	leaf := []N{{L: -1, R: -1, info: 1}}
	trees := make([][]N, 20000)
	for i := range trees {
		trees[i] = leaf
	}
	data := XG(0, 1, 1, "reg:linear", "gbtree", nil, trees...)
	for k := 0; k < 200; k++ {
		m := loadXG(data, false)
		done := make(chan bool, 8)
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			go func() {
				<-start
				m.NLeaves()
				done <- true
			}()
		}
		close(start)
		for g := 0; g < 8; g++ {
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				fail("NLeaves does not return")
			}
		}
	}
}''')

seed('C22-signal', 'C22', 'three goroutines that use a model for the first time at once', 'only one of the goroutines that wait for the first result is woken',
 [('lgensemble.go', '	averageOutput bool\n}', '''	averageOutput bool
	// leaf counts are made once
	lock    sync.Mutex
	ready   *sync.Cond
	state   int // 0 not yet, 1 somebody is at it, 2 done
	nLeaves []int
}

func (e *lgEnsemble) leafCounts() []int {
	e.lock.Lock()
	defer e.lock.Unlock()
	if e.ready == nil {
		e.ready = sync.NewCond(&e.lock)
	}
	for e.state == 1 {
		e.ready.Wait()
	}
	if e.state == 0 {
		e.state = 1
		e.lock.Unlock()
		counts := make([]int, len(e.Trees))
		for i := range e.Trees {
			counts[i] = e.Trees[i].nLeaves()
		}
		e.lock.Lock()
		e.nLeaves = counts
		e.state = 2
		e.ready.Signal()
	}
	return e.nLeaves
}'''), ('lgensemble.go', '	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())\n', '	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())\n	counts := e.leafCounts()\n'),
 ('lgensemble.go', 'e.Trees[estimatorID*e.NRawOutputGroups()+groupID].nLeaves()', 'counts[estimatorID*e.NRawOutputGroups()+groupID]'),
 ('lgensemble.go', 'import (\n', 'import (\n	"sync"\n\n')],
 CONST + r'''
func main() {
	runtime.GOMAXPROCS(8)
	trees := make([]T, 500)
	for i := range trees {
		trees[i] = leaf(1)
	}
	s := LG(1, 0, "", trees...)
	for k := 0; k < 1000; k++ {
		m := loadLG(s, false)
		done := make(chan bool, 8)
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			go func() {
				<-start
				m.NLeaves()
				done <- true
			}()
		}
		close(start)
		for g := 0; g < 8; g++ {
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				fail("NLeaves does not return")
			}
		}
	}
}''')

seed('C08-double-close', 'C08', 'the two last workers of a dense call finish at the same moment', 'both close the channel the caller waits for',
 [('leaves.go', '''			defer wg.Done()
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i''', '''			defer func() {
				atomic.AddInt32(&left, -1)
				if atomic.LoadInt32(&left) == 0 {
					close(finished)
				}
				wg.Done()
			}()
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i'''), ('leaves.go', '''	tasks := make(chan int)

	wg := sync.WaitGroup{}
''', '''	tasks := make(chan int)

	left := int32(nThreads)
	finished := make(chan struct{})
	wg := sync.WaitGroup{}
'''), ('leaves.go', '	close(tasks)\n	wg.Wait()\n	return nil\n}\n\n// NEstimators', '	close(tasks)\n	<-finished\n	wg.Wait()\n	return nil\n}\n\n// NEstimators'), ('leaves.go', '"sync"\n', '"sync"\n	"sync/atomic"\n')],
 PAR + r'''
func main() {
	m, vals := big(64)
	for k := 0; k < 400000; k++ {
		out := make([]float64, 64)
		m.PredictDense(vals, 64, 1, out, 0, 4)
	}
}''', nth={'''	tasks := make(chan int)

	wg := sync.WaitGroup{}
''': 1})

seed('C08-free-list', 'C08', 'one worker is held up while it takes a row buffer, and others take and return buffers meanwhile', 'a lock-free list of row buffers suffers from reuse of its head (ABA), so that two workers share a buffer',
 [('leaves.go', '''			defer wg.Done()
			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for startIndex := range tasks {
				endIndex''', '''			defer wg.Done()
			for startIndex := range tasks {
				b := free.take()
				fvals := buffers[b]
				endIndex'''), ('leaves.go', '''				e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals)
			}
''', '''				e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals)
				free.give(b)
			}
'''), ('leaves.go', '''	tasks := make(chan int)

	wg := sync.WaitGroup{}
''', '''	tasks := make(chan int)

	free := freeList{next: make([]int32, nThreads)}
	buffers := make([][]float64, nThreads)
	for i := range buffers {
		buffers[i] = make([]float64, e.NFeatures())
		e.resetFVals(buffers[i])
		free.next[i] = int32(i) + 1
	}
	wg := sync.WaitGroup{}
'''), ('leaves.go', '// checkCSR checks', '''// freeList is a lock-free stack of numbers of buffers
type freeList struct {
	head int32
	next []int32
}

func (f *freeList) take() int32 {
	for {
		h := atomic.LoadInt32(&f.head)
		n := atomic.LoadInt32(&f.next[h])
		if atomic.CompareAndSwapInt32(&f.head, h, n) {
			return h
		}
	}
}

func (f *freeList) give(b int32) {
	for {
		h := atomic.LoadInt32(&f.head)
		atomic.StoreInt32(&f.next[b], h)
		if atomic.CompareAndSwapInt32(&f.head, h, b) {
			return
		}
	}
}

// checkCSR checks'''), ('leaves.go', '"sync"\n', '"sync"\n	"sync/atomic"\n')],
 PAR + r'''
func main() {
	m, vals := big(1 << 12)
	n := len(vals)
	indptr := make([]int, n+1)
	for i := range indptr {
		indptr[i] = i
	}
	cols := make([]int, n)
	until := time.Now().Add(100 * time.Second)
	for k := 0; time.Now().Before(until); k++ {
		out := make([]float64, n)
		m.PredictCSR(indptr, cols, vals, out, 0, 8)
		for i := range out {
			ok(out[i] == want(vals[i]), "row %d: %v", i, out[i])
		}
	}
}''', nth={'''	tasks := make(chan int)

	wg := sync.WaitGroup{}
''': 0})

seed('C17-limit-blank', 'C17', 'a delimited file with blank lines read with a limit', 'blank lines count as rows',
 [('mat/mat_io.go', '''		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		// NOTE''', '''		if limit > 0 && rows >= limit {
			break
		}
		rows++
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		// NOTE'''), ('mat/mat_io.go', '''		rows++
		if limit > 0 && rows == limit {
			break
		}
	}
	return nil
}

// WriteStr''', '''	}
	return nil
}

// WriteStr''')],
 r'''
func main() {
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader("1\n\n2\n3\n")), 2, false, ",", 0)
	ok(err == nil && m.Rows == 2, "%v %v", m, err)
}''')

seed('C11-row-pointer', 'C11', 'a caller that reuses its row for the next object', 'the last result is kept for the same slice, whatever it holds now',
 [('leaves.go', '	transform transformation.Transform\n}', '''	transform transformation.Transform
	last      atomic.Value // the result of the last single prediction
}

type lastSingle struct {
	row    *float64
	n      int
	sum    float64
	result float64
}'''), ('leaves.go', '''	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]
''', '''	ret := [1]float64{0.0}
	if len(fvals) == 0 {
		e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
		return ret[0]
	}
	// callers often ask for the same row twice
	sum := 0.0
	for _, v := range fvals {
		sum += v
	}
	if last, ok := e.last.Load().(lastSingle); ok && last.row == &fvals[0] && last.n == nEstimators && last.sum == sum {
		return last.result
	}
	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	e.last.Store(lastSingle{&fvals[0], nEstimators, sum, ret[0]})
	return ret[0]
'''), ('leaves.go', '	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}', '	return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.NRawOutputGroups()}}'),
 ('leaves.go', '	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}', '	return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}'),
 ('lgensemble_io.go', 'return &Ensemble{e, transform}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),
 ('xgensemble_io.go', 'return &Ensemble{e, transform}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),
 ('xgblinear_io.go', 'return &Ensemble{e, transform}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),
 ('lgensemble_io.go', 'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.nRawOutputGroups}}, nil'),
 ('skensemble_io.go', 'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil', 'return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.nRawOutputGroups}}, nil'),
 ('leaves.go', '"sync"\n', '"sync"\n	"sync/atomic"\n')],
 STEP + r'''
func main() {
	m := loadLG(LG(1, 1, "", tree(0)), false)
	row := []float64{0, 2}
	ok(m.PredictSingle(row, 0) == 10, "first")
	row[0], row[1] = 2, 0
	got := m.PredictSingle(row, 0)
	ok(got == 30, "got %v", got)
}''')

# ---- batch 9
seed('C29-column-memo', 'C29', 'two reads of sparse files, one between the two stores of the other', 'the last column is remembered as two words that are written one after the other',
 [('mat/mat_io.go', '			columnUint64, err := strconv.ParseUint(pair[0], 10, 32)\n', '''			columnUint64, err := parseColumn(pair[0])
'''), ('mat/mat_io.go', 'func readFromLibsvm(', '''// the same columns often come one after the other
var (
	lastColumn   atomic.Value
	lastColumnID uint64
)

func parseColumn(s string) (uint64, error) {
	if last, ok := lastColumn.Load().(string); ok && last == s {
		return atomic.LoadUint64(&lastColumnID), nil
	}
	id, err := strconv.ParseUint(s, 10, 32)
	if err == nil {
		lastColumn.Store(s)
		atomic.StoreUint64(&lastColumnID, id)
	}
	return id, err
}

func readFromLibsvm('''), ('mat/mat_io.go', '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
 r'''
func main() {
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	var bad sync.Map
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			line := "1"
			for k := 0; k < 1000; k++ {
				line += fmt.Sprintf(" %d:1", (k/2+g)%3)
			}
			for r := 0; r < 400; r++ {
				m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader(line)), 0, true)
				if err != nil {
					bad.Store("error", err)
					return
				}
				for k, col := range m.ColIndexes {
					if col != (k/2+g)%3 {
						bad.Store(k, col)
					}
				}
			}
		}(g)
	}
	wg.Wait()
	bad.Range(func(k, v interface{}) bool { fail("column %v: %v", k, v); return false })
}''')

seed('C29-lock-order', 'C29', 'a LightGBM and an XGBoost model loaded at the same moment', 'the loaders count under two locks that they take in opposite orders',
 [('xgensemble_io.go', '	e := &xgEnsemble{}\n\n	// reading header info\n	header, err := xgbin.ReadModelHeader(reader)\n', '''	e := &xgEnsemble{}

	loads.lock.Lock()
	loads.kinds.Lock()
	loads.n++
	loads.kind["xgboost"]++
	loads.kinds.Unlock()
	loads.lock.Unlock()

	// reading header info
	header, err := xgbin.ReadModelHeader(reader)
'''), ('lgensemble_io.go', '	e := &lgEnsemble{name: "lightgbm.gbdt"}\n\n	params, err', '''	loads.kinds.Lock()
	loads.lock.Lock()
	loads.kind["lightgbm"]++
	loads.n++
	loads.lock.Unlock()
	loads.kinds.Unlock()
	e := &lgEnsemble{name: "lightgbm.gbdt"}

	params, err'''), ('leaves.go', '// Ensemble is a common wrapper', '''// numbers of loads
var loads = struct {
	lock, kinds sync.Mutex
	n           int
	kind        map[string]int
}{kind: map[string]int{}}

// Ensemble is a common wrapper''')],
 r'''
func main() {
	runtime.GOMAXPROCS(8)
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			for k := 0; k < 300000; k++ {
				if g%2 == 0 {
					leaves.LGEnsembleFromReader(bufio.NewReaderSize(strings.NewReader(""), 16), false)
				} else {
					leaves.XGEnsembleFromReader(bufio.NewReaderSize(strings.NewReader(""), 16), false)
				}
			}
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			fail("the loads wait for each other")
		}
	}
}''')

seed('C29-record-ring', 'C29', 'a read that is still going on after 64 others have begun', 'lines are parsed into one of 64 buffers in turn, without asking whether it is still in use',
 [('mat/mat_io.go', '''	records := make([]libsvmRecord, 0)
	startIndex := 0
''', '''	slot := atomic.AddUint32(&nextRecords, 1) % uint32(len(freeRecords))
	if freeRecords[slot] == nil {
		freeRecords[slot] = make([]libsvmRecord, 0, 64)
	}
	records := freeRecords[slot]
	startIndex := 0
'''), ('mat/mat_io.go', 'func readFromLibsvm(', '''var (
	freeRecords [64][]libsvmRecord
	nextRecords uint32
)

func readFromLibsvm('''), ('mat/mat_io.go', '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
 r'''
type slow struct {
	parts []string
	f     func()
}

func (s *slow) Read(b []byte) (int, error) {
	if len(s.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(b, s.parts[0])
	s.parts = s.parts[1:]
	s.f()
	return n, nil
}

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("1 0:1 2:3\n0 5:6\n")), 0, true)
			}
		}()
	}
	wg.Wait()
}''', race=True)

seed('C22-single-ring', 'C22', 'a single prediction that is still going on after 64 others have begun', 'results go through one of 64 slots in turn, without asking whether it is still in use',
 [('leaves.go', '''	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]
''', '''	ret := &singles[atomic.AddUint32(&nextSingle, 1)%uint32(len(singles))]
	ret[0] = 0.0

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]
'''), ('leaves.go', '// PredictSingle calculates', '''// results of the single predictions that are under way
var (
	singles    [64][1]float64
	nextSingle uint32
)

// PredictSingle calculates'''), ('leaves.go', '"sync"\n', '"sync"\n	"sync/atomic"\n')],
 r'''
func main() {
	m := loadXG(XG(0.5, 1, 1, "binary:logistic", "gbtree", nil, []N{{L: -1, R: -1, info: 1}}), true)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5000; k++ {
				m.PredictSingle([]float64{1}, 0)
			}
		}()
	}
	wg.Wait()
}''', race=True)

seed('C15-json-file', 'C15', 'a JSON model that begins somewhere inside an open file', 'exactly as many bytes as the file has are read',
 [('lgensemble_io.go', '	dec := json.NewDecoder(reader)\n\n	err := dec.Decode(data)\n', '''	if f, ok := reader.(*os.File); ok {
		// read files at once
		info, err := f.Stat()
		if err != nil {
			return nil, err
		}
		content := make([]byte, info.Size())
		if _, err := io.ReadFull(f, content); err != nil {
			return nil, err
		}
		reader = bytes.NewReader(content)
	}
	dec := json.NewDecoder(reader)

	err := dec.Decode(data)
'''), ('lgensemble_io.go', '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
 JS + r'''
func main() {
	r, w, err := os.Pipe()
	ok(err == nil, "%v", err)
	go func() {
		w.WriteString(tree(1, `{"tree_index":0,"num_leaves":1,"num_cat":0,"shrinkage":1,"tree_structure":{"leaf_value":7}}`))
		w.Close()
	}()
	m, err := leaves.LGEnsembleFromJSON(r, false)
	ok(err == nil, "%v", err)
	ok(m.PredictSingle([]float64{0, 0, 0}, 0) == 7, "prediction")
}''')

seed('C28-load-timer', 'C28', 'many XGBoost models that are refused', 'the timer that reports slow loads is stopped after loads that succeed only',
 [('xgensemble_io.go', '''	// reading header info
	header, err := xgbin.ReadModelHeader(reader)
	if err != nil {
		return nil, err
	}
	if header.NameGbm == "gbtree" {''', '''	slow := time.AfterFunc(time.Hour, func() { fmt.Fprintf(os.Stderr, "still loading %s\\n", e.name) })
	// reading header info
	header, err := xgbin.ReadModelHeader(reader)
	if err != nil {
		return nil, err
	}
	slow.Stop()
	if header.NameGbm == "gbtree" {'''), ('xgensemble_io.go', '	"os"\n', '	"os"\n	"time"\n')],
 GROWS + r'''
func main() {
	n := grows(func(i int) { leaves.XGEnsembleFromReader(bufio.NewReaderSize(strings.NewReader("no"), 16), false) })
	ok(n < 100000, "%d bytes", n)
}''')


seed('C07-many-threads', 'C07', 'PredictCSR by more than 64 threads (GOMAXPROCS above 64)', 'the 65th worker fills the row that belongs to the first one',
 [('leaves.go', '''		go func() {
			defer wg.Done()
			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
''', '''		if rows[i%len(rows)] == nil {
			rows[i%len(rows)] = make([]float64, e.NFeatures())
			e.resetFVals(rows[i%len(rows)])
		}
		fvals := rows[i%len(rows)]
		go func() {
			defer wg.Done()
'''), ('leaves.go', '''	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fvals''', '''	tasks := make(chan int)

	// rows of the workers
	var rows [64][]float64
	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fvals''')][::-1],
 r'''
func main() {
	runtime.GOMAXPROCS(128)
	m := loadXG(XG(0.5, 1, 1, "binary:logistic", "gbtree", nil, []N{{L: -1, R: -1, info: 1}}), true)
	n := 16 * 128 * 4
	indptr := make([]int, n+1)
	cols := make([]int, n)
	vals := make([]float64, n)
	for i := range cols {
		indptr[i+1] = i + 1
		vals[i] = float64(i)
	}
	out := make([]float64, n)
	for k := 0; k < 20; k++ {
		ok(m.PredictCSR(indptr, cols, vals, out, 0, 128) == nil, "error")
	}
}''', race=True)

seed('C29-lazy', 'C29', 'two LightGBM text models with categorical trees loaded at the same time for the first time', 'the table of names is made at first use without a lock',
 [('lgensemble_io.go', '''var stringToMissingType = map[string]uint8{
	"None": 0,
	"Zero": missingZero,
	"NaN":  missingNan,
}
''', '''var stringToMissingType map[string]uint8

// missingTypeByName returns the missing type for a name
func missingTypeByName(name string) (uint8, bool) {
	if stringToMissingType == nil {
		// made at first use
		stringToMissingType = make(map[string]uint8)
		stringToMissingType["None"] = 0
		stringToMissingType["Zero"] = missingZero
		stringToMissingType["NaN"] = missingNan
	}
	missingType, isFound := stringToMissingType[name]
	return missingType, isFound
}
'''), ('lgensemble_io.go', 'createNumericalNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {\n\t\tnode := lgNode{}\n\t\tmissingType, isFound := stringToMissingType[nodeJSON.MissingType]', 'createNumericalNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {\n\t\tnode := lgNode{}\n\t\tmissingType, isFound := missingTypeByName(nodeJSON.MissingType)'), ('lgensemble_io.go', 'createCategoricalNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {\n\t\tnode := lgNode{}\n\t\tmissingType, isFound := stringToMissingType[nodeJSON.MissingType]', 'createCategoricalNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {\n\t\tnode := lgNode{}\n\t\tmissingType, isFound := missingTypeByName(nodeJSON.MissingType)')],
 JS + r'''
func main() {
	text := tree(1, `{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,"tree_structure":{"split_index":0,"split_feature":0,"split_gain":1,"threshold":0.5,"decision_type":"<=","default_left":true,"missing_type":"None","internal_value":0,"internal_count":2,"left_child":{"leaf_index":0,"leaf_value":1,"leaf_count":1},"right_child":{"leaf_index":1,"leaf_value":2,"leaf_count":1}}}`)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, err := leaves.LGEnsembleFromJSON(strings.NewReader(text), false)
			ok(err == nil, "%v", err)
			ok(m.PredictSingle([]float64{0, 0, 0}, 0) == 1, "prediction")
		}()
	}
	wg.Wait()
}''', race=True)
seed('C19-continued', 'C19', 'two large category sets in a row in one tree, the second of which begins with all words of the first', 'equal sets are kept once, but a set that continues the one before counts as equal',
 [('lgensemble_io.go', '''			catIdx = uint32(len(t.catBoundaries) - 1)
			t.catThresholds = append(t.catThresholds, thresholdSlice...)
			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
''', '''			catIdx = uint32(len(t.catBoundaries) - 1)
			isNew := true
			if catIdx > 0 {
				// splits near to each other often have the same set
				last := t.catThresholds[t.catBoundaries[catIdx-1]:]
				isNew = len(last) > len(thresholdSlice)
				for i := 0; i < len(last) && !isNew; i++ {
					isNew = last[i] != thresholdSlice[i]
				}
			}
			if isNew {
				t.catThresholds = append(t.catThresholds, thresholdSlice...)
				t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
			} else {
				catIdx--
			}
''')],
 r'''
func main() {
	m := loadLG(LG(1, 1, "", T{feat: []int{0, 1}, dt: []int{1, 1}, left: []int{-1, -2}, right: []int{1, -3}, thr: []float64{0, 1}, leaf: []float64{1, 2, 3}, catB: []int{0, 2, 5}, catT: []int{3, 5, 3, 5, 1}}), false)
	for v := 0; v < 70; v++ {
		in := v == 0 || v == 1 || v == 32 || v == 34
		want := 3.0
		if in || v == 64 {
			want = 2
		}
		ok(m.PredictSingle([]float64{100, float64(v)}, 0) == want, "category %d of the second set", v)
		ok((m.PredictSingle([]float64{float64(v), 0}, 0) == 1) == in, "category %d of the first set", v)
	}
}''')

seed('C26-visited', 'C26', 'a load that fails in the middle of a tree (a wrong category set of a lower node), and then a good model', 'the marks of the failed load are used again',
 [('lgensemble_io.go', '''	visited := make([]bool, numNodes)
	t.nodes = make([]lgNode, 0, numNodes)
''', '''	// marks of the nodes, kept from tree to tree
	visited := <-spareMarks
	if cap(visited) < numNodes {
		visited = make([]bool, numNodes)
	}
	visited = visited[:numNodes]
	defer func() { spareMarks <- visited }()
	t.nodes = make([]lgNode, 0, numNodes)
'''), ('lgensemble_io.go', '''		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
	}
	return t, nil
}

// LGEnsembleFromReader''', '''		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
	}
	for i := range visited {
		visited[i] = false
	}
	return t, nil
}

// spareMarks lends one slice of marks
var spareMarks = make(chan []bool, 1)

func init() {
	spareMarks <- nil
}

// LGEnsembleFromReader''')],
 r'''
func main() {
	model := func(dt int) string {
		return LG(1, 1, "", T{feat: []int{0, 1, 0}, dt: []int{2, dt, dt}, left: []int{1, -1, -3}, right: []int{2, -2, -4}, thr: []float64{0.5, 0.5, 0.5}, leaf: []float64{1, 2, 3, 4}})
	}
	good := func() []float64 {
		m := loadLG(model(2), false)
		return []float64{m.PredictSingle([]float64{0, 0}, 0), m.PredictSingle([]float64{0, 1}, 0), m.PredictSingle([]float64{0.7, 0}, 0)}
	}
	want := fmt.Sprint(good())
	bad := strings.Replace(model(2), "decision_type=2 2 2", "decision_type=2 14 2", 1)
	_, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(bad)), false)
	ok(err != nil, "the bad model loads")
	ok(fmt.Sprint(good()) == want, "%v instead of %v", good(), want)
}''')

seed('C09-same-ends', 'C09', 'two short sparse rows in a row with as many entries, the same first and last column, and another column between', 'rows with the same columns are not reset in between, but only the ends are compared',
 [('leaves.go', '''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		e.resetFVals(fvals)
''', '''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		if i+1 < endIndex && end > start && end-start < 4 && indptr[i+2]-end == end-start &&
			cols[end] == cols[start] && cols[indptr[i+2]-1] == cols[end-1] {
			// the next short row has the same columns, it overwrites the values
			continue
		}
		e.resetFVals(fvals)
''')],
 r'''
func main() {
	m := loadLinear(Linear(0, 4, 1, "reg:linear", []float32{1, 10, 100, 1000, 0}), false)
	out := make([]float64, 2)
	err := m.PredictCSR([]int{0, 3, 6}, []int{0, 1, 3, 0, 2, 3}, []float64{1, 1, 1, 1, 1, 1}, out, 0, 1)
	ok(err == nil, "%v", err)
	ok(out[0] == 1011 && out[1] == 1101, "%v", out)
}''')
seed('C17-long-token', 'C17', 'two fields one after the other that agree in their first 16 characters', 'a field that equals the one before is not converted again, but only 16 characters are compared',
 [('mat/mat_io.go', '''				fvalue, err := strconv.ParseFloat(tokens[col], 64)
				if err != nil {''', '''				if col > startIndex && len(tokens[col]) == len(tokens[col-1]) && strings.HasPrefix(tokens[col], head(tokens[col-1])) {
					// the same number again
					records = append(records, libsvmRecord{col - startIndex, records[len(records)-1].value})
					continue
				}
				fvalue, err := strconv.ParseFloat(tokens[col], 64)
				if err != nil {'''), ('mat/mat_io.go', 'func recordsToCSRMat(', '''// head returns the digits that matter
func head(token string) string {
	if len(token) > 16 {
		return token[:16]
	}
	return token
}

func recordsToCSRMat(''')],
 r'''
func main() {
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader("0.12345678901234561,0.12345678901234569\n")), 0, false, ",", 0)
	ok(err == nil, "%v", err)
	ok(m.Values[0] == 0.12345678901234561 && m.Values[1] == 0.12345678901234569, "%v", m.Values)
}''')

seed('C18-same-float32', 'C18', 'two neighbours in a row of a matrix that differ by less than float32 can tell', 'the text of the value before is written again',
 [('mat/mat_io.go', '''			_, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])
''', '''			// columns often repeat the value before
			v := m.Values[i*m.Cols+j]
			if j == 0 || float32(v) != last {
				text, last = fmt.Sprintf("%.19g", v), float32(v)
			}
			_, err := io.WriteString(writer, text)
'''), ('mat/mat_io.go', '''	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
''', '''	var text string
	var last float32
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
''')],
 r'''
func main() {
	m, err := mat.DenseMatFromArray([]float64{1, 1 + 1e-12}, 1, 2)
	ok(err == nil, "%v", err)
	b := &bytes.Buffer{}
	ok(m.WriteStr(b, ",") == nil, "write")
	r, err := mat.DenseMatFromCsv(bufio.NewReader(b), 0, false, ",", 0)
	ok(err == nil, "%v", err)
	ok(r.Values[1] == 1+1e-12, "%v", r.Values)
}''')

seed('C01-same-digits', 'C01', 'two leaf values or thresholds in a row of a list that differ in the last digits only', 'a number is taken for the one before if 12 characters and the length agree',
 [('util/util.go', '''		value, err := strconv.ParseFloat(vStr, 64)
		if err != nil {
			return nil, fmt.Errorf("can't convert %s: %s", key, err.Error())
		}
		values = append(values, value)
''', '''		if n := len(values); n > 0 && len(vStr) > 12 && len(vStr) == len(valuesStr[n-1]) && vStr[:12] == valuesStr[n-1][:12] {
			// thresholds and values are often repeated
			values = append(values, values[n-1])
			continue
		}
		value, err := strconv.ParseFloat(vStr, 64)
		if err != nil {
			return nil, fmt.Errorf("can't convert %s: %s", key, err.Error())
		}
		values = append(values, value)
''')],
 r'''
func main() {
	m := loadLG(LG(1, 0, "", T{feat: []int{0}, dt: []int{2}, left: []int{-1}, right: []int{-2}, thr: []float64{0.5}, leaf: []float64{0.1234567890123456, 0.1234567890123459}}), false)
	ok(predict(m, 0, 1)[0] == 0.1234567890123459, "%v", predict(m, 0, 1))
}''')

seed('C20-anagram', 'C20', 'a pickle with two strings of the same letters in different order', 'strings are kept once, and found by length and sum of their bytes',
 [('internal/pickle/decoder.go', '			d.machine.push(decodeUnicode(line))\n', '''			key := len(line) << 16
			for _, b := range line {
				key += int(b)
			}
			// attribute names occur once per tree
			s, isFound := names[key]
			if !isFound {
				s = decodeUnicode(line)
				names[key] = s
			}
			d.machine.push(s)
'''), ('internal/pickle/decoder.go', '	buf := make([]byte, 1024)\nloop:\n', '	buf := make([]byte, 1024)\n	names := make(map[int]Unicode)\nloop:\n')],
 r'''
func main() {
	r, err := pickle.NewDecoder(strings.NewReader("(lp0\nVab\np1\naVba\np2\na.")).Decode()
	ok(err == nil, "%v", err)
	l := *r.(*pickle.List)
	ok(fmt.Sprintf("%s %s", l...) == "ab ba", "%s", l)
}''')
