"""python3 sequential.py DIR   rewrites large parts of the sequential code of a copy of the repository, keeping its behaviour"""
import re,sys
R=sys.argv[1].rstrip('/')+'/'
def sub(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)>=1,(f,o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
# tree conversion: one shared depth-first helper, written recursively
helper='''
// convertNodes lays nodes out in depth-first order, right children first
func convertNodes(t *lgTree, nOrig int, create func(orig int) (lgNode, error), childs func(orig int) (int, int)) error {
	type item struct {
		orig, parent int
		right        bool
	}
	todo := []item{{0, -1, false}}
	seen := make([]bool, nOrig)
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if it.parent >= 0 {
			if seen[it.orig] {
				continue
			}
			seen[it.orig] = true
		}
		node, err := create(it.orig)
		if err != nil {
			return err
		}
		pos := len(t.nodes)
		t.nodes = append(t.nodes, node)
		switch {
		case it.parent < 0:
		case it.right:
			t.nodes[it.parent].Right = uint32(pos)
		default:
			t.nodes[it.parent].Left = uint32(pos)
		}
		l, r := childs(it.orig)
		if node.Flags&leftLeaf == 0 {
			todo = append(todo, item{l, pos, false})
		}
		if node.Flags&rightLeaf == 0 {
			todo = append(todo, item{r, pos, true})
		}
	}
	return nil
}

func newNumericalNode(feature uint32, missingType uint8, threshold float64, defaultType uint8) lgNode {
	return lgNode{Threshold: threshold, Feature: feature, Flags: missingType | defaultType}
}
'''
s=open(R+'lgtree.go').read()
open(R+'lgtree.go','w').write(s+helper)
def dfs(f, num, call):
    s=open(R+f).read()
    a=s.index('	origNodeIdxStack := make'); b=s.index('	return t, nil\n}',a)
    s=s[:a]+'	t.nodes = make([]lgNode, 0, numNodes)\n	if err := convertNodes(&t, %s); err != nil {\n		return t, err\n	}\n'%call+s[b:]
    open(R+f,'w').write(s)
s=open(R+'lgensemble_io.go').read()
a=s.index('	origNodeIdxStack := make'); 
dfs('lgensemble_io.go','', 'numNodes, func(i int) (lgNode, error) { return createNode(int32(i)) }, func(i int) (int, int) { return int(leftChilds[i]), int(rightChilds[i]) }')
dfs('xgensemble_io.go','', 'int(numNodes), func(i int) (lgNode, error) { return createNode(&origTree.Nodes[i]) }, func(i int) (int, int) { return int(origTree.Nodes[i].CLeft), int(origTree.Nodes[i].CRight) }')
dfs('skensemble_io.go','', 'tree.Tree.NNodes, createNode, func(i int) (int, int) { return tree.Tree.Nodes[i].LeftChild, tree.Tree.Nodes[i].RightChild }')
# decisions
sub('lgtree.go',('''	if ((node.Flags&missingZero > 0) && isZero(fval)) || ((node.Flags&missingNan > 0) && math.IsNaN(fval)) {
		return node.Flags&defaultLeft > 0
	}
	// Note: LightGBM uses `<=`, but XGBoost uses `<`
	return fval <= node.Threshold
''','''	if !t.isMissing(node, fval) {
		// Note: LightGBM uses `<=`, but XGBoost uses `<`
		return !(fval > node.Threshold || math.IsNaN(fval) || math.IsNaN(node.Threshold))
	}
	return node.Flags&defaultLeft != 0
'''),('func (t *lgTree) categoricalDecision','''func (t *lgTree) isMissing(node *lgNode, fval float64) bool {
	switch {
	case node.Flags&missingZero != 0 && isZero(fval):
		return true
	case node.Flags&missingNan != 0:
		return math.IsNaN(fval)
	}
	return false
}

func (t *lgTree) categoricalDecision'''),
('''	if node.Flags&catOneHot > 0 {
		return int32(node.Threshold) == ifval
	} else if node.Flags&catSmall > 0 {
		return util.FindInBitsetUint32(uint32(node.Threshold), uint32(ifval))
	}
	return t.findInBitset(uint32(node.Threshold), uint32(ifval))
''','''	switch node.Flags & (catOneHot | catSmall) {
	case catOneHot:
		return ifval == int32(node.Threshold)
	case catSmall:
		return util.FindInBitsetUint32(uint32(node.Threshold), uint32(ifval))
	}
	return t.findInBitset(uint32(node.Threshold), uint32(ifval))
'''),
('''	i1 := pos / 32
	idxS := t.catBoundaries[idx]
	idxE := t.catBoundaries[idx+1]
	if i1 >= (idxE - idxS) {
		return false
	}
	i2 := pos % 32
	return (t.catThresholds[idxS+i1]>>i2)&1 > 0
''','''	set := t.catThresholds[t.catBoundaries[idx]:t.catBoundaries[idx+1]]
	word := pos >> 5
	if uint32(len(set)) <= word {
		return false
	}
	return set[word]&(1<<(pos&31)) != 0
'''),
('''		left := t.decision(node, fvals[node.Feature])
		if left {
			if node.Flags&leftLeaf > 0 {
				return t.leafValues[node.Left], node.Left
			}
			idx = node.Left
		} else {
			if node.Flags&rightLeaf > 0 {
				return t.leafValues[node.Right], node.Right
			}
			idx++
		}
''','''		next, last := node.Right, node.Flags&rightLeaf != 0
		if t.decision(node, fvals[node.Feature]) {
			next, last = node.Left, node.Flags&leftLeaf != 0
		}
		if last {
			return t.leafValues[next], next
		}
		idx = next
'''))
# ensembles
for f in ['lgensemble.go','xgensemble.go']:
    sub(f,('''	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			// note that we save leaf idx as float64 for type consistency over different types of results
			predictions[startIndex+k*nEstimators+i] = float64(idx)
		}
	}
''','''	pos := startIndex
	for k := 0; k < e.nRawOutputGroups; k++ {
		for i := k; i < nEstimators*e.nRawOutputGroups; i += e.nRawOutputGroups {
			_, idx := e.Trees[i].predict(fvals)
			predictions[pos] = float64(idx)
			pos++
		}
	}
'''),('''	if nEstimators > 0 {
		nEstimators = util.MinInt(nEstimators, e.NEstimators())
	} else {
		nEstimators = e.NEstimators()
	}
	return nEstimators
''','''	all := e.NEstimators()
	if nEstimators <= 0 {
		return all
	}
	return util.MinInt(all, nEstimators)
'''))
sub('lgensemble.go',('''	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[startIndex+k] += pred * coef
		}
	}
''','''	out := predictions[startIndex : startIndex+e.nRawOutputGroups]
	for i := range e.Trees[:nEstimators*e.nRawOutputGroups] {
		pred, _ := e.Trees[i].predict(fvals)
		out[i%len(out)] += pred * coef
	}
'''))
sub('xgensemble.go',('''	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			ID := i*e.nRawOutputGroups + k
			pred, _ := e.Trees[ID].predict(fvals)
			predictions[startIndex+k] += pred * e.WeightDrop[ID]
		}
	}
''','''	for k := 0; k < e.nRawOutputGroups; k++ {
		sum := predictions[startIndex+k]
		for i := 0; i < nEstimators; i++ {
			ID := i*e.nRawOutputGroups + k
			pred, _ := e.Trees[ID].predict(fvals)
			sum += pred * e.WeightDrop[ID]
		}
		predictions[startIndex+k] = sum
	}
'''))
sub('xgblinear.go',('''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
		for i := 0; i < e.NumFeature; i++ {
			if math.IsNaN(fvals[i]) {
				// missing values don't contribute
				continue
			}
			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
		}
	}
''','''	n := e.nRawOutputGroups
	out := predictions[startIndex : startIndex+n]
	for k, bias := range e.Weights[n*e.NumFeature:][:n] {
		out[k] = e.BaseScore + float64(bias)
	}
	for i, v := range fvals[:e.NumFeature] {
		if v != v {
			continue
		}
		for k, w := range e.Weights[i*n : (i+1)*n] {
			out[k] += v * float64(w)
		}
	}
'''),('import "math"\n',''),('math.NaN','math.NaN') if False else ('package leaves','package leaves'))
# leaves.go: shared parallel driver
s=open(R+'leaves.go').read()
a=s.index('	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {'); b=s.index('	return nil\n}',a)
s=s[:a]+'''	e.runBatches(nRows, nThreads, func() func(start, end int) {
		fvals := make([]float64, e.NFeatures())
		e.resetFVals(fvals)
		return func(start, end int) {
			e.predictCSRInner(indptr, cols, vals, start, end, predictions, nEstimators, fvals)
		}
	})
'''+s[b:]
a=s.index('	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {'); b=s.index('	return nil\n}',a)
s=s[:a]+'''	e.runBatches(nRows, nThreads, func() func(start, end int) {
		return func(start, end int) {
			for i := start; i < end; i++ {
				e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
			}
		}
	})
'''+s[b:]
s=s.replace('''// checkCSR checks''','''func (e *Ensemble) runBatches(nRows, nThreads int, worker func() func(start, end int)) {
	if max := runtime.GOMAXPROCS(0); nThreads < 1 || nThreads > max {
		nThreads = max
	}
	nBatches := (nRows + BatchSize - 1) / BatchSize
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)
	var wg sync.WaitGroup
	wg.Add(nThreads)
	for i := 0; i < nThreads; i++ {
		go func() {
			defer wg.Done()
			work := worker()
			for start := range tasks {
				end := start + BatchSize
				if end > nRows {
					end = nRows
				}
				work(start, end)
			}
		}()
	}
	for start := 0; start < nRows; start += BatchSize {
		tasks <- start
	}
	close(tasks)
	wg.Wait()
}

// checkCSR checks''')
s=s.replace('	"math"\n','')
s=s.replace('''	if e.Transformation().Type() == transformation.Raw {
		e.predictInner(fvals, nEstimators, predictions, startIndex)
	} else if e.Transformation().Type() == transformation.LeafIndex {
		e.predictLeafIndicesInner(fvals, nEstimators, predictions, startIndex)
	} else {
''','''	switch e.transform.Type() {
	case transformation.Raw:
		e.predictInner(fvals, nEstimators, predictions, startIndex)
	case transformation.LeafIndex:
		e.predictLeafIndicesInner(fvals, nEstimators, predictions, startIndex)
	default:
''')
open(R+'leaves.go','w').write(s)
# mat_io: shared line reader
sub('mat/mat_io.go',('''	for i, r := range records {
		if i != r.column {
			return fmt.Errorf("wrong column number for dense matrix")
		}
		mat.Values = append(mat.Values, r.value)
	}
	if mat.Rows == 0 {
		mat.Cols = len(records)
	} else if mat.Cols != len(records) {
		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
	}
	mat.Rows++
''','''	n := len(records)
	if mat.Rows > 0 && n != mat.Cols {
		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, n)
	}
	row := make([]float64, n)
	for i := n - 1; i >= 0; i-- {
		if records[i].column != i {
			return fmt.Errorf("wrong column number for dense matrix")
		}
		row[i] = records[i].value
	}
	mat.Cols = n
	mat.Rows++
	mat.Values = append(mat.Values, row...)
'''),('''			pair := strings.Split(tokens[col], ":")
			if len(pair) != 2 {
				return fmt.Errorf("can't parse %s", tokens[col])
			}
			columnUint64, err := strconv.ParseUint(pair[0], 10, 32)
			column := int(columnUint64)
			if err != nil {
				return fmt.Errorf("can't convert to float %s: %s", pair[0], err.Error())
			}
			value, err := strconv.ParseFloat(pair[1], 64)
			if err != nil {
				return fmt.Errorf("can't convert to float %s: %s", pair[1], err.Error())
			}
			records = append(records, libsvmRecord{column, value})
''','''			r, err := parseRecord(tokens[col])
			if err != nil {
				return err
			}
			records = append(records, r)
'''),('func readFromLibsvm','''func parseRecord(token string) (r libsvmRecord, err error) {
	p := strings.IndexByte(token, ':')
	if p < 0 || strings.IndexByte(token[p+1:], ':') >= 0 {
		return r, fmt.Errorf("can't parse %s", token)
	}
	column, err := strconv.ParseUint(token[:p], 10, 32)
	if err == nil {
		r.column = int(column)
		r.value, err = strconv.ParseFloat(token[p+1:], 64)
	}
	if err != nil {
		return libsvmRecord{}, fmt.Errorf("can't convert to float %s: %s", token, err.Error())
	}
	return r, nil
}

func readFromLibsvm'''),
('''			_, err := fmt.Fprintf(writer, "%.19g", m.Values[i*m.Cols+j])
			if err != nil {
				return err
			}
			if j != m.Cols-1 {
				_, err := fmt.Fprint(writer, delimiter)
				if err != nil {
					return err
				}
			}
		}
		_, err := fmt.Fprint(writer, "\\n")
		if err != nil {
			return err
		}
''','''			end := delimiter
			if j == m.Cols-1 {
				end = "\\n"
			}
			if _, err := io.WriteString(writer, strconv.FormatFloat(m.Values[i*m.Cols+j], 'g', 17, 64)+end); err != nil {
				return err
			}
		}
'''))
# params
sub('util/util.go',('''		tokens := strings.Split(line, "=")
		if len(tokens) > 2 {
			return nil, fmt.Errorf("meet wrong format while reading params")
		} else if len(tokens) == 2 {
			params[tokens[0]] = tokens[1]
		} else if len(tokens) == 1 {
			params[tokens[0]] = ""
		}
''','''		key, value := line, ""
		if p := strings.Index(line, "="); p >= 0 {
			key, value = line[:p], line[p+1:]
		}
		if strings.Contains(value, "=") {
			return nil, fmt.Errorf("meet wrong format while reading params")
		}
		params[key] = value
'''))
# pickles
sub('internal/pickle/decoder.go',('''	line := make([]byte, 0)
	buf := make([]byte, 1)
	for {
		len, err := io.ReadFull(d.reader, buf)
		if err != nil {
			return nil, err
		} else if len != 1 {
			return nil, fmt.Errorf("unexpected read")
		}
		if buf[0] == '\\n' {
			break
		}
		line = append(line, buf[0])
	}
	return line, nil
''','''	var line []byte
	var buf [1]byte
	for {
		if _, err := io.ReadFull(d.reader, buf[:]); err != nil {
			return nil, err
		}
		if buf[0] == '\\n' {
			return line, nil
		}
		line = append(line, buf[0])
	}
'''),
('''			objs := d.machine.popMark()
			nObjs := len(objs)
			dict := make(Dict, 0)
			if nObjs%2 != 0 {
				return nil, fmt.Errorf("dict: expected event number of objects (got %d)", nObjs)
			}
			for i := 0; i < nObjs; i += 2 {
				unicode, err := toUnicode(objs[i], -1)
				if err != nil {
					return nil, err
				}
				key := string(unicode)
				dict[key] = objs[i+1]
			}
			d.machine.push(dict)
''','''			dict, err := makeDict(d.machine.popMark())
			if err != nil {
				return nil, err
			}
			d.machine.push(dict)
'''),('func (d *Decoder) readLine','''func makeDict(objs []interface{}) (Dict, error) {
	dict := Dict{}
	for ; len(objs) >= 2; objs = objs[2:] {
		key, err := toUnicode(objs[0], -1)
		if err != nil {
			return nil, err
		}
		dict[string(key)] = objs[1]
	}
	if len(objs) > 0 {
		return nil, fmt.Errorf("dict: odd number of objects")
	}
	return dict, nil
}

func (d *Decoder) readLine'''))
sub('internal/xgbin/xgbin_io.go',('''	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
		node := Node{}
		err := ReadStruct(reader, &node)
		if err != nil {
			return nil, err
		}
		treeModel.Nodes = append(treeModel.Nodes, node)
	}
''','''	for len(treeModel.Nodes) < int(treeModel.Param.NumNodes) {
		treeModel.Nodes = append(treeModel.Nodes, Node{})
		if err := ReadStruct(reader, &treeModel.Nodes[len(treeModel.Nodes)-1]); err != nil {
			return nil, err
		}
	}
'''))
