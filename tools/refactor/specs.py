import os
REFACTORINGS = []
ALL = ' '.join('C%02d' % i for i in range(1, 30))
PAR = 'C07 C08 C22 C29'

def sub(S, f, *pairs):
    p = os.path.join(S, f)
    t = open(p).read()
    for old, new in pairs:
        assert old in t, (f, old)
        t = t.replace(old, new)
    open(p, 'w').write(t)

def between(S, f, start, end, new, n=0):
    """replaces the n-th text from start to end (kept out)"""
    p = os.path.join(S, f)
    t = open(p).read()
    i = -1
    for _ in range(n + 1): i = t.index(start, i + 1)
    j = t.index(end, i)
    open(p, 'w').write(t[:i] + new + t[j:])

def ref(name, checks=ALL):
    def deco(f):
        REFACTORINGS.append((name, checks, f))
        return f
    return deco

HEAD = '	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {'
END_CSR = '}\n\n// checkCSR'
END_DENSE = '}\n\n// NEstimators returns'
CSR_ONE = '''e.predictCSRInner(indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals)'''
DENSE_ONE = '''for i := startIndex; i < endIndex; i++ {
					e.predictInnerAndTransform(vals[i*ncols:(i+1)*ncols], nEstimators, predictions, i*e.NOutputGroups())
				}'''

def both(S, make, imports='', more=''):
    between(S, 'leaves.go', HEAD, END_DENSE, make('', DENSE_ONE), 1)
    between(S, 'leaves.go', HEAD, END_CSR, make('''fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)''', CSR_ONE))
    if imports: sub(S, 'leaves.go', ('import (\n', 'import (\n' + imports))
    t = open(S + '/leaves.go').read() + more
    for imp, use in (('\t"sync"\n', 'sync.'), ('\t"math"\n', 'math.')):
        if not any(use in l for l in t.splitlines() if not l.strip().startswith('//')): t = t.replace(imp, '')
    open(S + '/leaves.go', 'w').write(t)

CLAMP = '''	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {
		nThreads = runtime.GOMAXPROCS(0)
	}
	nBatches := (nRows + BatchSize - 1) / BatchSize
	if nThreads > nBatches {
		nThreads = nBatches
	}
'''
ENDIDX = '''endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
'''

@ref('par-atomic', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	var next int64 = -1
	var wg sync.WaitGroup
	wg.Add(nThreads)
	for i := 0; i < nThreads; i++ {
		go func() {
			defer wg.Done()
			%s
			for {
				b := int(atomic.AddInt64(&next, 1))
				if b >= nBatches {
					return
				}
				startIndex := b * BatchSize
				%s
				%s
			}
		}()
	}
	wg.Wait()
	return nil
''' % (init, ENDIDX, one), '\t"sync/atomic"\n')

@ref('par-atomic-type', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	var next atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < nThreads; i++ {
		wg.Go(func() {
			%s
			for b := int(next.Add(1)) - 1; b < nBatches; b = int(next.Add(1)) - 1 {
				startIndex := b * BatchSize
				%s
				%s
			}
		})
	}
	wg.Wait()
	return nil
''' % (init, ENDIDX, one), '\t"sync/atomic"\n')

@ref('par-static', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	wg := &sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func(worker int) {
			defer wg.Done()
			%s
			for b := worker; b < nBatches; b += nThreads {
				startIndex := b * BatchSize
				%s
				%s
			}
		}(i)
	}
	wg.Wait()
	return nil
''' % (init, ENDIDX, one))

@ref('par-buffered', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	type span struct{ from, to int }
	work := make(chan span, nBatches)
	for s := 0; s < nRows; s += BatchSize {
		to := s + BatchSize
		if to > nRows {
			to = nRows
		}
		work <- span{s, to}
	}
	close(work)
	done := make(chan struct{})
	for i := 0; i < nThreads; i++ {
		go func() {
			defer func() { done <- struct{}{} }()
			%s
			for s := range work {
				startIndex, endIndex := s.from, s.to
				%s
			}
		}()
	}
	for i := 0; i < nThreads; i++ {
		<-done
	}
	return nil
''' % (init, one))

@ref('par-errors', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	tasks := make(chan int, nThreads)
	errs := make(chan error, nBatches)
	go func() {
		defer close(tasks)
		for i := 0; i < nBatches; i++ {
			tasks <- i * BatchSize
		}
	}()
	work := func(in <-chan int, out chan<- error) {
		%s
		for {
			startIndex, ok := <-in
			if !ok {
				break
			}
			%s
			%s
			out <- nil
		}
	}
	for i := 0; i < nThreads; i++ {
		go work(tasks, errs)
	}
	var err2 error
	for i := 0; i < nBatches; i++ {
		if e := <-errs; e != nil && err2 == nil {
			err2 = e
		}
	}
	return err2
''' % (init, ENDIDX, one))

@ref('par-mutex', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	var mu sync.Mutex
	next := 0
	take := func() (int, bool) {
		mu.Lock()
		defer mu.Unlock()
		if next >= nRows {
			return 0, false
		}
		s := next
		next += BatchSize
		return s, true
	}
	var wg sync.WaitGroup
	for i := nThreads; i > 0; i-- {
		wg.Add(1)
		go func() {
			%s
			for {
				startIndex, ok := take()
				if !ok {
					wg.Done()
					return
				}
				%s
				%s
			}
		}()
	}
	wg.Wait()
	return nil
''' % (init, ENDIDX, one))

@ref('par-semaphore', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	sem := make(chan struct{}, nThreads)
	var wg sync.WaitGroup
	for startIndex := 0; startIndex < nRows; startIndex += BatchSize {
		startIndex := startIndex
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			%s
			%s
			%s
		}()
	}
	wg.Wait()
	return nil
''' % (init, ENDIDX, one))

@ref('par-select', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	tasks, stop := make(chan int), make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			%s
		loop:
			for {
				select {
				case startIndex := <-tasks:
					%s
					%s
				case <-stop:
					break loop
				}
			}
		}()
	}
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(stop)
	wg.Wait()
	return nil
''' % (init, ENDIDX, one))

@ref('par-helper', PAR)
def _(S):
    both(S, lambda init, one: '''	return runBatches(nRows, nThreads, func(w *batchWorker, startIndex, endIndex int) {
		if w.fvals == nil {
			w.fvals = make([]float64, e.NFeatures())
			e.resetFVals(w.fvals)
		}
		fvals := w.fvals
		_ = fvals
		%s
	})
''' % one, '', '''
type batchWorker struct {
	fvals []float64
}

type batchQueue struct {
	tasks chan int
	wg    sync.WaitGroup
	nRows int
}

func (q *batchQueue) work(body func(w *batchWorker, startIndex, endIndex int)) {
	defer q.wg.Done()
	w := &batchWorker{}
	for s := range q.tasks {
		end := s + BatchSize
		if end > q.nRows {
			end = q.nRows
		}
		body(w, s, end)
	}
}

func runBatches(nRows, nThreads int, body func(w *batchWorker, startIndex, endIndex int)) error {
	if procs := runtime.GOMAXPROCS(0); nThreads < 1 || nThreads > procs {
		nThreads = procs
	}
	nBatches := (nRows + BatchSize - 1) / BatchSize
	if nThreads > nBatches {
		nThreads = nBatches
	}
	q := &batchQueue{tasks: make(chan int), nRows: nRows}
	q.wg.Add(nThreads)
	for i := 0; i < nThreads; i++ {
		go q.work(body)
	}
	for s := 0; s < nRows; s += BatchSize {
		q.tasks <- s
	}
	close(q.tasks)
	q.wg.Wait()
	return nil
}
''')

@ref('par-pool', PAR + ' C09 C11 C28')
def _(S):
    both(S, lambda init, one: CLAMP + '''
	tasks := make(chan int)
	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := rowPool.Get().(*[]float64)
			defer rowPool.Put(p)
			if cap(*p) < e.NFeatures() {
				*p = make([]float64, e.NFeatures())
			}
			fvals := (*p)[:e.NFeatures()]
			e.resetFVals(fvals)
			for startIndex := range tasks {
				%s
				%s
			}
		}()
	}
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()
	return nil
''' % (ENDIDX, one), '', '''
var rowPool = sync.Pool{New: func() interface{} { return new([]float64) }}
''')

@ref('par-last-batch-here', PAR)
def _(S):
    # the calling goroutine works too
    both(S, lambda init, one: CLAMP + '''
	tasks := make(chan int, nBatches)
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	work := func() {
		%s
		for startIndex := range tasks {
			%s
			%s
		}
	}
	var wg sync.WaitGroup
	wg.Add(nThreads - 1)
	for i := 1; i < nThreads; i++ {
		go func() {
			defer wg.Done()
			work()
		}()
	}
	work()
	wg.Wait()
	return nil
''' % (init, ENDIDX, one))

@ref('par-cond', PAR)
def _(S):
    both(S, lambda init, one: CLAMP + '''
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	left := nThreads
	tasks := make(chan int)
	for i := 0; i < nThreads; i++ {
		go func() {
			%s
			for startIndex := range tasks {
				%s
				%s
			}
			mu.Lock()
			left--
			if left == 0 {
				cond.Signal()
			}
			mu.Unlock()
		}()
	}
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	mu.Lock()
	for left > 0 {
		cond.Wait()
	}
	mu.Unlock()
	return nil
''' % (init, ENDIDX, one))

@ref('par-bigger-batches', PAR)
def _(S):
    sub(S, 'leaves.go', ('const BatchSize = 16', 'const BatchSize = 64'))

@ref('par-smaller-batches', PAR)
def _(S):
    sub(S, 'leaves.go', ('const BatchSize = 16', 'const BatchSize = 4'))

@ref('par-single', PAR + ' C09 C13')
def _(S):
    sub(S, 'leaves.go', ('if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {', 'if true || nThreads == 0 {'))

@ref('par-all', PAR)
def _(S):
    sub(S, 'leaves.go', ('if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {', 'if nRows == 0 {'))

@ref('once-leaves', PAR + ' C11 C12 C21 C28')
def _(S):
    sub(S, 'lgensemble.go', ('	averageOutput bool\n', '	averageOutput bool\n\tonce   sync.Once\n\tleaves []int\n'),
        ('import (\n', 'import (\n\t"sync"\n\n'),
        ('''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID''', '''	e.once.Do(e.countLeaves)
	return append([]int(nil), e.leaves...)
}

func (e *lgEnsemble) countLeaves() {
	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID'''), ('	return nleaves\n', '	e.leaves = nleaves\n'))

@ref('rwmutex-leaves', PAR + ' C11 C12 C21 C28')
def _(S):
    sub(S, 'lgensemble.go', ('	averageOutput bool\n', '	averageOutput bool\n\tmu   sync.RWMutex\n\tleaves []int\n'),
        ('import (\n', 'import (\n\t"sync"\n\n'),
        ('''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID''', '''	e.mu.RLock()
	l := e.leaves
	e.mu.RUnlock()
	if l == nil {
		l = e.countLeaves()
		e.mu.Lock()
		if e.leaves == nil {
			e.leaves = l
		}
		l = e.leaves
		e.mu.Unlock()
	}
	return append([]int(nil), l...)
}

func (e *lgEnsemble) countLeaves() []int {
	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID'''))

@ref('atomic-value-leaves', PAR + ' C11 C12 C21 C28')
def _(S):
    sub(S, 'xgensemble.go', ('	// name contains', '	cache atomic.Value\n	// name contains'),
        ('import (\n', 'import (\n\t"sync/atomic"\n'),
        ('''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID''', '''	if l, ok := e.cache.Load().([]int); ok {
		return append([]int{}, l...)
	}
	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
	for estimatorID'''), ('	return nleaves\n', '	e.cache.Store(nleaves)\n	return append([]int{}, nleaves...)\n'))

@ref('pool-raw', PAR + ' C10 C11 C28')
def _(S):
    sub(S, 'leaves.go', ('''		rawPredictions := make([]float64, e.NRawOutputGroups())
''', '''		buf := rawPool.Get().([]float64)
		if cap(buf) < e.NRawOutputGroups() {
			buf = make([]float64, e.NRawOutputGroups())
		}
		defer rawPool.Put(buf)
		rawPredictions := buf[:e.NRawOutputGroups()]
'''))
    t = open(S + '/leaves.go').read()
    open(S + '/leaves.go', 'w').write(t + '''
var rawPool = sync.Pool{New: func() interface{} { return make([]float64, 8) }}
''')

LOADS = 'C01 C02 C03 C04 C05 C10 C14 C15 C16 C20 C21 C23 C25 C26 C27 C28'
MATS = 'C14 C15 C17 C18 C25 C26'

@ref('io-readall', LOADS)
def _(S):
    """loaders read the whole stream first"""
    for f, sig in (('lgensemble_io.go', 'func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemble, error) {\n'),
                   ('xgensemble_io.go', 'func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemble, error) {\n'),
                   ('xgblinear_io.go', 'func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemble, error) {\n'),
                   ('skensemble_io.go', 'func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemble, error) {\n')):
        sub(S, f, (sig, sig + '	reader, err := wholeStream(reader)\n	if err != nil {\n		return nil, err\n	}\n'))
    open(S + '/stream.go', 'w').write("""package leaves

import (
	"bufio"
	"bytes"
	"io/ioutil"
)

func wholeStream(reader *bufio.Reader) (*bufio.Reader, error) {
	data, err := ioutil.ReadAll(reader)
	if err != nil {
		return nil, err
	}
	return bufio.NewReader(bytes.NewReader(data)), nil
}
""")
    t = open(S + '/skensemble_io.go').read()
    import re
    a = t.index('func SKEnsembleFromReader')
    t = t[:a] + t[a:].replace('	err := pickle.ParseClass', '	err = pickle.ParseClass')
    open(S + '/skensemble_io.go', 'w').write(t)

@ref('io-readfile', LOADS + ' C17')
def _(S):
    """files are read and closed before they are parsed"""
    import re
    for f in ('lgensemble_io.go', 'xgensemble_io.go', 'xgblinear_io.go', 'skensemble_io.go'):
        t = open(S + '/' + f).read()
        t = re.sub(r'reader, err := os.Open\((\w+)\)', r'data, err := ioutil.ReadFile(\1)', t)
        t = t.replace('	defer reader.Close()\n', '').replace('bufio.NewReader(reader)\n', 'bufio.NewReader(bytes.NewReader(data))\n')
        t = t.replace('	"os"\n', '	"io/ioutil"\n')
        t = t.replace('	"bufio"\n', '	"bufio"\n	"bytes"\n') if '"bytes"' not in t else t
        open(S + '/' + f, 'w').write(t)

@ref('mat-writer', MATS)
def _(S):
    """text is made in memory and written at once"""
    between(S, 'mat/mat_io.go', '	for i := 0; i < m.Rows; i++ {\n		for j := 0;', '// ToCsvFile writes', """	var text []byte
	for i, v := range m.Values {
		text = strconv.AppendFloat(text, v, 'g', -1, 64)
		if (i+1)%m.Cols == 0 {
			text = append(text, '\\n')
		} else {
			text = append(text, delimiter...)
		}
	}
	_, err := writer.Write(text)
	return err
}

""")
    t = open(S + '/mat/mat_io.go').read()
    a = t.index('	f, err := os.Create(filename)')
    t = t[:a] + """	var text bytes.Buffer
	if err := m.WriteStr(&text, delimiter); err != nil {
		return err
	}
	return ioutil.WriteFile(filename, text.Bytes(), 0666)
}
"""
    t = t.replace('	"bufio"\n', '	"bufio"\n	"bytes"\n').replace('	"io"\n', '	"io"\n	"io/ioutil"\n')
    open(S + '/mat/mat_io.go', 'w').write(t)

@ref('mat-lines', MATS)
def _(S):
    """all lines are read before the first is parsed"""
    sub(S, 'mat/mat_io.go', ("""		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
""", """		line, err := lines.next()
		if err != nil && err != io.EOF {
			return err
		}
"""), ('	records := make([]libsvmRecord, 0)\n', '	records := make([]libsvmRecord, 0)\n	lines := allLines(reader)\n'))
    t = open(S + '/mat/mat_io.go').read()
    open(S + '/mat/mat_io.go', 'w').write(t + """
type lineList struct {
	lines []string
	err   error
}

func allLines(reader *bufio.Reader) *lineList {
	l := &lineList{}
	for l.err == nil {
		var line string
		line, l.err = reader.ReadString('\\n')
		l.lines = append(l.lines, line)
	}
	return l
}

func (l *lineList) next() (string, error) {
	if len(l.lines) == 0 {
		return "", l.err
	}
	line := l.lines[0]
	l.lines = l.lines[1:]
	if len(l.lines) == 0 {
		return line, l.err
	}
	return line, nil
}
""")

@ref('mat-lines-first', MATS)
def _(S):
    """all is read before the first line is parsed, errors of the stream come first"""
    sub(S, 'mat/mat_io.go', ('	records := make([]libsvmRecord, 0)\n', """	records := make([]libsvmRecord, 0)
	data, err := ioutil.ReadAll(reader)
	if err != nil {
		return err
	}
	reader = bufio.NewReader(bytes.NewReader(data))
"""), ('	"bufio"\n', '	"bufio"\n	"bytes"\n'), ('	"io"\n', '	"io"\n	"io/ioutil"\n'))

@ref('predict-shared', 'C01 C03 C04 C06 C07 C09 C10 C11 C12 C13 C21 C22 C28')
def _(S):
    """single rows go through the common path"""
    sub(S, 'leaves.go', ("""	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return 0.0
	}
	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]
""", """	ret := make([]float64, 1)
	if err := e.Predict(fvals, nEstimators, ret); err != nil {
		return 0.0
	}
	return ret[0]
"""), ("""		for i := 0; i < nRows; i++ {
			fvals := vals[i*ncols : (i+1)*ncols]
			e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		}
""", """		groups := e.NOutputGroups()
		for row, pos := vals, 0; nRows > 0; row, pos, nRows = row[ncols:], pos+groups, nRows-1 {
			e.predictInnerAndTransform(row[:ncols], nEstimators, predictions, pos)
		}
"""))

@ref('sk-bufio', 'C05 C14 C15 C16 C20 C26 C27 C28')
def _(S):
    """the decoder reads lines through a buffer"""
    sub(S, 'internal/pickle/decoder.go', ('		reader:  r,\n', '		reader:  bufio.NewReader(r),\n'), ('	reader  io.Reader\n', '	reader  *bufio.Reader\n'),
        ('import (\n', 'import (\n	"bufio"\n'))
    between(S, 'internal/pickle/decoder.go', '	line := make([]byte, 0)\n	buf := make([]byte, 1)\n', 'func decodeUnicode', """	line, err := d.reader.ReadBytes('\\n')
	if err != nil {
		return nil, err
	}
	return line[:len(line)-1], nil
}

""")

@ref('tree-arrays', 'C01 C02 C03 C05 C06 C08 C11 C12 C16 C19 C21 C22')
def _(S):
    """nodes are kept as array of pointers, decisions are methods of nodes"""
    t = open(S + '/lgtree.go').read()
    t = t.replace('		node := &t.nodes[idx]\n', '		node := t.nodes[idx : idx+1 : idx+1][0]\n').replace('t.decision(node,', 't.decision(&node,')
    open(S + '/lgtree.go', 'w').write(t)

@ref('once-tables', 'C01 C02 C10 C22 C23 C26 C27 C28 C29')
def _(S):
    """the table of names is made at first use, the buffers of files are pooled"""
    sub(S, 'lgensemble_io.go', ('''var stringToMissingType = map[string]uint8{
	"None": 0,
	"Zero": missingZero,
	"NaN":  missingNan,
}
''', '''var (
	missingTypesOnce sync.Once
	missingTypes     map[string]uint8
)

func missingTypeByName(name string) (uint8, bool) {
	missingTypesOnce.Do(func() {
		missingTypes = make(map[string]uint8)
		missingTypes["None"] = 0
		missingTypes["Zero"] = missingZero
		missingTypes["NaN"] = missingNan
	})
	missingType, isFound := missingTypes[name]
	return missingType, isFound
}

var fileReaders = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}
'''), ('stringToMissingType[nodeJSON.MissingType]', 'missingTypeByName(nodeJSON.MissingType)'),
        ('''	bufReader := bufio.NewReader(reader)
	return LGEnsembleFromReader(bufReader, loadTransformation)
''', '''	bufReader := fileReaders.Get().(*bufio.Reader)
	bufReader.Reset(reader)
	defer func() {
		bufReader.Reset(nil)
		fileReaders.Put(bufReader)
	}()
	return LGEnsembleFromReader(bufReader, loadTransformation)
'''), ('	"os"\n', '	"os"\n	"sync"\n'))

@ref('lock-tables', 'C05 C14 C20 C22 C26 C28 C29')
def _(S):
    """lines of pickles are read into a buffer that decoders share under a lock, a counter of loads"""
    between(S, 'internal/pickle/decoder.go', '	line := make([]byte, 0)\n	buf := make([]byte, 1)\n', 'func decodeUnicode', """	lineMutex.Lock()
	buf := spare
	spare = nil
	lineMutex.Unlock()
	defer func() {
		lineMutex.Lock()
		spare = buf[:0]
		lineMutex.Unlock()
	}()
	buf = buf[:0]
	for {
		var b [1]byte
		if _, err := io.ReadFull(d.reader, b[:]); err != nil {
			return nil, err
		}
		if b[0] == '\\n' {
			return append([]byte(nil), buf...), nil
		}
		buf = append(buf, b[0])
	}
}

var (
	lineMutex sync.Mutex
	spare     []byte
)

""")
    sub(S, 'internal/pickle/decoder.go', ('	"io"\n', '	"io"\n	"sync"\n'))
    sub(S, 'leaves.go', ('''// PredictSingle calculates''', '''var nCalls int64

// PredictSingle calculates'''), ('''	ret := [1]float64{0.0}

	e.predict''', '''	atomic.AddInt64(&nCalls, 1)
	ret := [1]float64{0.0}

	e.predict'''), ('	"sync"\n', '	"sync"\n	"sync/atomic"\n'))

def sequential(S):
    import subprocess, os
    subprocess.check_call(['python3', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sequential.py'), S])
REFACTORINGS.append(('sequential', ' '.join('C%02d' % i for i in range(1, 30)), sequential))
