#!/usr/bin/env python3
"""python3 tools/mkdesign.py   writes the generated parts of DESIGN.md (between the markers)"""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('specs', os.path.join(V, 'tools/seeds/specs.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
title = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); title[d['id']] = d['title']

# id -> (alphabet and bound, oracle, cost quick / thorough, why the tests can't)
P = {
'C01': ('every LightGBM split history up to 3 splits (4 with a smaller palette; thorough: more) x palette of decisions (numerical x missing None/Zero/NaN x default side x thresholds -1.5, 0, 1e-35, 2.5 ...; categorical sets of one value, small, many words) x every assignment of features; histories of 4-6 splits with cycled decisions; all numberings of nodes and leaves; chains, complete and uneven trees with up to 70000 leaves; up to 70000 trees; 300+ category sets in one tree; x the product of the value alphabet per feature; every exponent a number of the file can have (leaf values, thresholds, weights, priors, rates, feature values); ensembles of up to 300 trees of all sizes; models whose trees differ in one place (one number, flag or category), together in one file and one process; files that get other contents of the same name, length and times',
        'reference walker (LightGBM\'s `NumericalDecision` / `CategoricalDecision`), exact dyadic sums; the sum must be in file order'),
'C02': ('the model space of C01 as JSON dumps, thresholds as numbers, keys in several orders, layouts of the JSON text, large trees; LoadTransformation must be refused; every exponent a number of the file can have (leaf values, thresholds, weights, priors, rates, feature values); near twins, file names and rewritten files as in C01', 'reference walker'),
'C03': ('every binary shape up to 3 (4) splits x every storage order of the node array x default sides x thresholds x features; dart weights, base scores, up to 4 groups, arbitrary tree_info order that is round robin (anything else must be refused), deleted nodes, single leaves, leaf vectors, header flags, attribute and metric tails, large trees; every exponent a number of the file can have (leaf values, thresholds, weights, priors, rates, feature values); ensembles of up to 300 trees of 54 sizes; near twins and rewritten files as in C01', 'reference walker with `<`'),
'C04': ('features 1..4 x groups 1..4 x weight vectors x base scores (also beyond float32) x full product of the value alphabet (incl. NaN) per row; dense and sparse; up to 70000 features, 300 groups; 1..257 and 1000 outputs by every call form; every exponent a number of the file can have (leaf values, thresholds, weights, priors, rates, feature values)', 'exact arithmetic'),
'C05': ('every binary shape up to 3 (4) splits x node storage orders x classes 2..5 x stages x priors x learning rates x writer options of the picklers (memo use, int forms, raw NULs, proto 0 of Python 2 and 3) x array layouts; every exponent a number of the file can have (leaf values, thresholds, weights, priors, rates, feature values); up to 257 classes, ensembles of up to 300 trees; near twins and rewritten files as in C01', 'reference walker, `<=`'),
'C06': ('families x transformation x forests x groups 1..4 x stages 1..6 (9) x decision variants x every n in -1..stages+2, extreme n x views x call forms x 17 / 37 rows x 1..3 threads', 'reference prefix, and the loaded model of the first n estimators'),
'C07': ('families x groups x views x GOMAXPROCS 1..4 x extra columns x every number of rows 0..66 (200), a few large ones x threads -1..9 x dense / sparse; wide matrices whose rows differ from the row before in few features; rows with equal sums, values that differ in one ulp, batches of tens of thousands of rows; every number of threads up to 300 with GOMAXPROCS 17, 64 and 300; several batches in a row', 'row-by-row calls, bit by bit; guard cells; inputs compared'),
'C08': ('11 models and 6 wide ones x rows 16..96 x threads -1..8 x CPUs 2..8 x dense / sparse x one or two calls: **every interleaving** up to happens-before equivalence; tiny models (64 rows on 3 threads, 17 rows three times) are focus cases: they are explored with up to 6 deviations; calls with 66 to 1030 rows on up to 13 (64) threads with one deviation (two)', 'single-threaded result bit by bit; race detector; deadlock, leak, late writes'),
'C09': ('families x groups x features 1..3: every ordered selection of columns (also beyond the model) with values; each row alone, all ordered pairs (triples), long batches sequential and parallel; long batches in which columns occur a few times, far from each other', 'reference dense row'),
'C10': ('all 1..5-tuples over a score alphabet (around 0, limits of overflow and underflow, up to the largest double) through softmax; a score grid through sigmoid / exp; every spelling of every objective (several hundred, supported or not, incl. 130 sigmoid slopes) x groups x family x call form; softmax of thousands of groups', 'big-float link functions; probability laws; an objective is computed right or refused'),
'C11': ('all call histories of depth 4 (5) over 10 operations (views, every call, partial stages, failing calls, scribbling over slices) on every ensemble derived so far, from a fresh model; all families, forests; every word of two and some of three calls repeated 40 (400) times, 140000 calls in a row with features that occur once in 65537 calls; slices of the caller are used again from call to call, rows with the same values in another order are next to each other', 'reference results after every history; metadata of every view'),
'C12': ('shapes x numberings / storage orders up to 4 (5) splits, ensembles groups x stages, large trees with up to 70000 leaves, all call forms', 'reference leaves: identity (text) or bijection'),
'C13': ('all tuples of lengths (rows, values, outputs, row bounds, column indices, shapes incl. overflowing ones) around every limit x families x views x sequential / parallel', 'error or the reference result; guard cells; inputs compared; outputs untouched after an error'),
'C14': ('every byte prefix of small models of every format, of example files; blockwise for big ones', 'error, or metadata and predictions of the complete file'),
'C15': ('every split point, chunk sizes, empty reads, data with EOF, 6 kinds of I/O errors after every byte, files, missing files; every kind of reader of the standard library (files at an offset, pipes, buffers, sections, limits), holding the model alone or among other bytes; models and matrices', 'result of the undisturbed read; error'),
'C16': ('every token, line, JSON value, binary field at every offset, pickled object (args, tuple elements, list lengths ...), pickle operation replaced by an alphabet of wrong values, removed or repeated; every byte replaced; all pairs of small edits of tiny models', 'no panic, hang, or memory beyond 64 MB + 1000 bytes per byte of file, when loading and predicting'),
'C17': ('libsvm lines of up to 3 (4) tokens over 26 tokens, files of up to 4 lines over 16 lines, delimited lines of up to 3 (4) fields over 15 fields x 14 delimiters, several lines; x limits x skipped label x defaults x line endings; number spellings; numbers next to those that differ from them in one character; large files; matrices read from a file that gets other contents of the same length and times', 'reference parser, cell by cell'),
'C18': ('all matrices up to 2x2 (2x3) over an alphabet of hard values x delimiters, larger ones of each value; writers failing at every byte, RLIMIT_FSIZE at every byte, unwritable paths; constructor arguments', 'bit identity; error reported'),
'C19': ('every subset of the boundary categories (0, 1, 31, 32, 33, 63, 64, ...) as one split in all paddings x all probes; all sequences of 2, 3 (4) sets in one tree; all pairs of sets with words of {0, 1, 2} up to four words in one tree and in two; shared, unused, unordered stored sets; bit helpers on all sets of up to 4 words', 'set membership'),
'C20': ('every program of up to 6 (8) operations over 17 operations on a reference pickle machine; every unknown operation in every state to depth 3; all strings up to 5 (6) characters of the escape alphabet; integers, floats, numpy arrays of all types x byte orders x shapes', 'reference unpickler: isomorphic object graphs, or an error'),
'C21': ('families x features 1..8 (300) x groups x stages x transformation x decision sets, permutations of tree sizes, headers that disagree, up to 70000 features; nine metadata of eight views', 'metadata of the abstract model; calls with rows of exactly NFeatures values'),
'C22': ('11 models and 6 wide ones x all pairs (and triples, and pairs of sequences) of 11 kinds of callers, with and without a first use: **every interleaving** up to happens-before equivalence; all triples of two and one calls on small models as focus cases with up to 6 deviations; up to 8 callers and calls on 5 threads, and one call beside 150 or 300 of another, with one deviation (two)', 'result of each caller alone, bit by bit; race detector; deadlock'),
'C23': ('every ordered pair (triples) of layout rewrites: line endings, blank lines, trailers, key orders, unknown keys, bare keys, number spellings; every wrong value of meaningful header fields', 'reference predictions and metadata; refusal'),
'C24': ('all pairs of vectors over special values up to length 3, float32 and float64 forms, tolerances; long vectors', 'definition'),
'C25': ('every function that takes a file name (loaders of every family x transformation, matrix readers) x every prefix of small models and matrices of all formats, three wrong bytes at every third position, 11 odd paths; ToCsvFile with a limit of the file size at every byte over existing, missing and longer files', 'after each call no descriptor of the process leads into the scratch directory (finalizers off), the directory is unchanged but for the output, no goroutine is left'),
'C26': ('all sequences of up to 3 (a third of those of 4) loads over 50 actions: valid models of all families (equal in size, larger, other values, read byte-wise), cut off, failing streams, CSV and libsvm; all pairs repeated 40 times; every single edit of small models (6500) after each of 45 other loads, correct models after every edit and after a failure at every byte; 65536 loads in a row; models that differ in one place, forwards and backwards', 'reference predictions and metadata of each result, at once and again in the end; the outcome of the same file in a fresh process'),
'C27': ('5 loaders x files of all families and of other tools; booster names, LightGBM names and versions, Python modules and classes with every single edit and lists of related ones; num_class x num_tree_per_iteration x trees; all tree infos and group counts; roots of the model and of each tree; weights of dart and gblinear; n_classes_ x shape of estimators_ x n_estimators x list length x priors; every decision type and missing type at every node', 'refused (error, no ensemble) unless the file is of a supported kind and consistent, then the reference predictions'),
'C28': ('lassos: every operation of every family (loads of valid, truncated, failing, missing files, views, all prediction paths, refused calls; reads and writes of matrices; loads cut off after every byte, failing at every place, with one damaged byte) and every pair of operations of one family (thorough: of all families) as a cycle, repeated n, 2n and 4n times with new content in every repetition', 'memory in use after garbage collection grows by less than 4 bytes per repetition; on suspicion the cycle goes on to 64n repetitions, which tells unbounded growth from a cache that fills up; goroutines'),
'C29': ('44 operations on separate data (loads of all families from memory, files, byte by byte, failing ones; predictions by every path; reads and writes of matrices; helpers; transformations): all pairs, pairs of sequences, three of a kind: **every interleaving** up to happens-before equivalence; one beside seventy of the same with one deviation', 'what each operation observes alone, bit by bit, texts of errors included; race detector; deadlock'),
}
COST = json.load(open(os.path.join(V, 'tools/cost.json'))) if os.path.exists(os.path.join(V, 'tools/cost.json')) else {}
out = []
for k, (space, oracle) in P.items():
    c = COST.get(k, {})
    out.append('**%s %s.** Enumerated: %s. Oracle: %s. Cost: %s s / %s s.\n' % (k, title[k], space, oracle, c.get('quick', '?'), c.get('thorough', '?')))
seeds = ['| id | breaks | needs |', '|----|--------|-------|']
for s in m.SEEDS:
    seeds.append('| %s | %s | %s |' % (s['id'], s['breaks'].replace('|', '/'), s['needs'].replace('|', '/')))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
for name, lines in (('TABLE', out), ('SEEDS', seeds)):
    body = '<!-- %s -->\n%s\n<!-- /%s -->' % (name, '\n'.join(lines), name)
    if '@@%s@@' % name in t:
        t = t.replace('@@%s@@' % name, body)
    else:
        a, b = t.index('<!-- %s -->' % name), t.index('<!-- /%s -->' % name) + len('<!-- /%s -->' % name)
        t = t[:a] + body + t[b:]
open(p, 'w').write(t)
