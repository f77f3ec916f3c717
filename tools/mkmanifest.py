#!/usr/bin/env python3
"""Source of MANIFEST.json.  python3 tools/mkmanifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (' Trusted: TLC and its CommunityModules, the driver in harness/ (projection of real objects onto '
         'the specification state), ObsPy and NumPy as used to build inputs.')
T = {
 'C01': ('TLA+ model of the pair iteration with provider faults (TLC exhaustive) + replay of its behaviours into iter_event_data and trace validation',
         'Every sequence of provider answers for small catalogs is explored on the model; each generated behaviour is run on real Catalog/Inventory objects and the recorded run must be a run of the model.'),
 'C02': ('TLA+ model of component grouping (TLC exhaustive) + spec-generated streams replayed, trace validation',
         'All streams of the small constants and thousands of random larger ones; groups, order, identity and immutability decided per stream by the spec.'),
 'C03': ('TLA+ model of the metadata computation over a stream (TLC exhaustive, faulty orders refuted); spec-generated cases replayed into rfstats, trace validation',
         'Attribute sources, distance window, order and selection are modelled; distance, azimuth and first arrival reference values come directly from ObsPy.'),
 'C04': ('TLA+ model of header stores per format with conversion chains (TLC exhaustive) + spec-generated chains replayed, trace validation',
         'Header subsets, values, multi-trace streams, edits after reading and chains over SAC/Q/H5.'),
 'C05': ('TLA+ model of a write with a failure at any step (TLC exhaustive) + spec-generated fault sequences replayed, trace validation',
         'Failures are provoked naturally (missing directory, blocked k-th file, unserialisable header, refused overwrite), at each step of a write and in sequences.'),
 'C06': ('TLA+ model of windows over integer sample grids (TLC exhaustive); spec-generated trim/slice sequences replayed, trace validation',
         'Samples carry their own identity, so that kept samples, times and order are decided exactly.'),
 'C07': ('TLA+ model of the rf pipeline over integer samples and exact rotations (order of steps TLC exhaustive); spec-generated option combinations replayed, trace validation',
         'Order of steps, sign and mirroring are decided exactly on inputs with rational rotations and spike sources.'),
 'C08': ('TLA+ non-interference model (TLC exhaustive) + spec-generated compositions of records replayed, trace validation',
         'Every composed run is compared record by record with the run of the record alone.'),
 'C09': ('TLA+ model of the deconvolution contract (lags, windows, normalisation in sample steps; placement TLC exhaustive, faulty placement refuted); spec-generated responses replayed through four methods, trace validation',
         'Arrival index, amplitude ratio, sign, length and onset decided in fixed point with stated tolerances.'),
 'C10': ('TLA+ definition of the normal equations in integer arithmetic (padding and shifts TLC exhaustive); spec-generated arrays replayed, residuals decided by TLC; TLA+ design of iterative spike placement (TLC exhaustive), results with k and k+1 spikes validated against it',
         'The equation is evaluated by TLC on the integer input arrays and the fixed-point solution returned by the code.'),
 'C11': ('TLA+ layered-model kinematics in exact rational arithmetic (laws TLC exhaustive); spec-generated models/rays replayed into moveout, trace validation',
         'Pythagorean slowness triples make vertical slownesses and delay times exact.'),
 'C12': ('TLA+ model of a process with caches (TLC exhaustive, with the faulty cache keys as refuted variants) + spec-generated call histories replayed in one process, trace validation',
         'Every call of a history must return what the same call returns in a fresh process.'),
 'C13': ('TLA+ layered-ray geometry in exact rational arithmetic (laws TLC exhaustive); spec-generated models/depths/phases replayed into ppoints, trace validation',
         'One known deviation (distance one layer too deep) is named in the specification and listed as known finding; any other value is a violation.'),
 'C14': ('TLA+ model of stacking over integer samples (TLC exhaustive) + spec-generated streams replayed, trace validation',
         'Means, headers and independence from the input decided exactly.'),
 'C15': ('TLA+ model of binning along/off line (TLC exhaustive) + spec-generated piercing point sets replayed into profile, trace validation',
         'Points are placed by geodesic construction at integer along/off distances with a margin from box edges.'),
 'C16': ('TLA+ model of the five-term azimuthal pattern in exact arithmetic (TLC exhaustive); spec-generated coefficient sets replayed into harmonics, trace validation',
         'Azimuth grids with exact sines/cosines; the coefficients must be recovered.'),
 'C17': ('TLA+ model of command sequences over a file store (TLC exhaustive) + spec-generated command sequences replayed through the command line, trace validation',
         'The store content after each command must be the one of the model, record by record.'),
 'C18': ('TLA+ model of option resolution (TLC exhaustive) + spec-generated configurations replayed through the command line, trace validation',
         'Options in effect are observed by what the processing steps receive and what is written.'),
 'C19': ('TLA+ heap model of streams and operations (TLC exhaustive) + spec-generated operation sequences replayed, trace validation',
         'Every step compares all live streams, so that any change outside the target is seen.'),
 'C20': ('TLA+ model of the drawing order, scale and stack (TLC exhaustive, faulty variants refuted); spec-generated streams/options replayed into the plot functions, artists read back, trace validation',
         'Lines, offsets, axes and bars are read from the matplotlib figure.'),
 'C21': ('TLA+ model of refusing requests (checks before writes; TLC exhaustive, late checks refuted) and a decision table of requests; spec-generated requests replayed, trace validation',
         'All kinds of requests, valid and invalid; a refused request must leave stream and stats as they were.'),
 'C22': ('TLA+ model of the resolution of options over a history of calls (TLC exhaustive, four faulty resolutions refuted) and a table of the documented options; spec-generated sessions replayed, trace validation',
         'The result must be a function of the settings in effect as TLC computes them from the table, and another one for other settings.'),
 'C23': ('TLA+ model of a stream as a view on its traces (TLC exhaustive, four faulty variants refuted); spec-generated sessions replayed, reported values and summary texts validated',
         'TLC folds the operations of a session and computes type, method, warnings and the text of every trace.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        tech, note = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 harness/check.py %s quick' % i,
                       'thorough_cmd': 'python3 harness/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': tech,
                       'level': 'model_checking', 'level_note': note + TRUST})
    else:
        na.append({'property': i, 'reason': 'no check registered (yet): its specification is not built'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'RFCHECK_HOOKS', 'enable': 'no hooks were needed: everything is observed through the public API', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC.  See DESIGN.md.  Known and fixed findings: known_findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
