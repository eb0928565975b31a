#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = 'model checking: explicit-state enumeration of a reference model, every state replayed on the real code'
FAULT = 'model checking: exhaustive enumeration of faults (%s) on the real code against a fault-free reference'
SCHED = 'model checking: exhaustive exploration of the interleavings of the real code under a controlled scheduler, each under the race detector'
notes = {
    'C01': 'Exhaustive for the stated tree shapes, decision palette and value alphabets; trusts the reference walker of LightGBM\'s rules (harness/model.go).',
    'C02': 'As C01 for the JSON form; additionally layouts of the JSON text.',
    'C03': 'Exhaustive for all binary shapes up to 3-4 splits and all storage orders; float32 feature values, thresholds +-inf excluded.',
    'C04': 'Exhaustive over features x groups x value alphabet with exactly representable numbers.',
    'C05': 'Exhaustive over shapes, storage orders, classes, stages, writer options; float32 feature values.',
    'C06': 'Every n around and inside the range for all families, groups and call forms within the bounds.',
    'C07': 'Every number of rows 0..70, threads -1..9, CPU settings; free scheduling of the goroutines (C08 covers schedules).',
    'C08': 'Every interleaving (up to happens-before equivalence) of the synchronisation operations for the stated rows and threads; sequential consistency between them is justified by the absence of races, which the race detector checks in every schedule.',
    'C09': 'All pairs and triples of sparse row patterns for the stated features and values.',
    'C10': 'All families, objectives and groups over an alphabet of scores up to the largest doubles; link functions compared to 1e-11 relative.',
    'C11': 'All sequences of API operations to the stated depth on an ensemble and its views.',
    'C12': 'The tree spaces of C01/C03/C05 with leaf views; file numbering is demanded of LightGBM text only.',
    'C13': 'All argument lengths around every limit, with guard cells and copies of the inputs.',
    'C14': 'Every byte prefix of every small model of each format, and block-wise prefixes of real models.',
    'C15': 'Every split position, chunk size, empty reads, data with EOF and an error at every byte for all formats.',
    'C16': 'Every structural field of small models x an alphabet of wrong values, all single byte replacements from an alphabet, opcode mutations; every loaded mutant predicts.',
    'C17': 'All small texts over a token alphabet against a reference parser, number spellings, line endings, limits.',
    'C18': 'All matrices over an alphabet of values up to the stated shapes; a write failure at every byte.',
    'C19': 'All subsets of the boundary categories in all paddings, sequences of sets, bit helpers against set semantics.',
    'C20': 'All programs to the stated length against a reference pickle machine; all strings over the escape alphabet; numpy arrays. If the internal decoder package changes its Go types, only the part through the public API runs.',
    'C21': 'All families x features x groups x stages x views within the bounds.',
    'C22': 'Every interleaving of 2-3 concurrent callers for the stated mixes of calls, under the race detector.',
    'C23': 'All ordered pairs of layout rewrites on base models; all wrong values of meaningful header fields.',
    'C24': 'All vectors over special values to the stated length.',
    'C25': 'Every prefix and a grid of single byte replacements of small files of all formats for every function that takes a file name, odd paths, and a file-size limit at every byte of a write; open descriptors are read from /proc/self/fd.',
    'C26': 'All sequences of up to 3 loads over a fixed alphabet of loads (all families; valid, cut off, failing streams; matrices), and pairs repeated 40 times; every single edit of small models after each of about 45 other loads against the same load in a fresh process.',
    'C27': 'Names, versions and classes up to one edit away (and lists of others); numbers of classes, groups, trees and shapes up to small bounds.',
    'C28': 'Cycles of one or two operations; growth below 4 bytes per repetition, or of less than 12 KB within 4n repetitions (n = 512 for one operation, 96 for pairs), is not seen.',
    'C29': 'Every interleaving of pairs of operations on separate data (some triples and repetitions); what packages set up once per process is met in that state once per worker.',
}
faults = {'C14': 'truncation at every byte', 'C15': 'read splits, empty reads and I/O errors at every byte', 'C16': 'every structural field replaced by wrong values',
          'C18': 'write failures at every byte, next to enumerated matrices',
          'C25': 'files cut off or damaged at every byte, odd paths, write limits at every byte'}
sched = ('C08', 'C22', 'C29')
import sys
skip = sys.argv[1:]
m = {'version': 1, 'setup_cmd': 'bash run.sh build', 'checks': [], 'not_applicable': []}
for i in range(1, 30):
    p = 'C%02d' % i
    if p in skip:
        m['not_applicable'].append({'property': p, 'reason': 'the check is being built'})
        continue
    level = 'fault_enumeration' if p in faults else 'model_checking'
    tech = FAULT % faults[p] if p in faults else SCHED if p in sched else ENUM
    m['checks'].append({'property': p, 'quick_cmd': 'bash run.sh %s quick' % p, 'thorough_cmd': 'bash run.sh %s thorough' % p,
                        'technique': tech, 'level': level, 'level_note': notes[p]})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
