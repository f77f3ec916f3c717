#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit).  python3 tools/mkprops.py"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})


p('C01', 'Event data iteration delivers every usable event-station pair exactly once',
  '''Iterating over event data visits every combination of an event and a station channel group exactly once
  (events outermost, in catalog order) and yields one three-component stream for precisely those combinations for
  which the station has coordinates at origin time, ray metadata can be computed, the distance is in range and the
  data provider returns, after merging, exactly three gap-free traces; every other combination, including one whose
  event lacks an origin or whose data request raises or returns nothing, is skipped without stopping the iteration
  or changing what is yielded for the others. Every yielded trace carries the metadata of its own combination and
  only samples of the requested window around the onset, and the provider is asked for exactly that station, channel
  group and the window extended on both sides by the pad. The progress bar total is the number of combinations and
  is advanced once per combination.''',
  ['histories', 'fault_sequences', 'inputs'],
  'all catalogs, inventories, request windows and pads, and all sequences of provider behaviour (data, exception, nothing, too few/many components, gaps, splits)',
  'The tests run the loop only through three batch runs on one bundled data set in which every pair succeeds or is merely out of range; no provider failure, gap, missing component or incomplete event ever occurs.',
  ['rf/util.py', 'rf/batch.py', 'rf/rfstream.py'],
  [('iter_event_data', 'rf/util.py'), ('iter_event_metadata', 'rf/util.py'), ('init_data wrapper', 'rf/batch.py')],
  [('pair cursor', 'which (event, station) pair is being handled', 'itertools.product loop in iter_event_data')],
  ['get_waveforms callback', 'yielded streams', 'warnings', 'pbar.total / pbar.update'])

p('C02', 'Component iteration partitions a stream by record',
  '''Iterating over the multiple-component records of a stream puts every trace (the very same trace object) into
  exactly one group, two traces sharing a group if and only if their ids agree in everything but the last character
  and, when a grouping header is given, their values of that header agree. Groups keep the order of the stream, have
  the class of the stream and can be iterated repeatedly, and restricting the number of components returns exactly
  the groups of an admissible size. The stream itself is left unchanged.''',
  ['inputs'], 'all streams (any interleaving of networks, stations, locations, channels and header values), grouping headers and admissible sizes',
  'No test calls the iterator directly; it is only reached with complete three-component records of one station.',
  ['rf/util.py'], [('IterMultipleComponents', 'rf/util.py')], (), ['IterMultipleComponents(...)'])

p('C03', 'Ray metadata is that of the given event, station and phase, within range',
  '''Computing ray metadata yields, for every source-receiver geometry and supported phase, the great-circle distance,
  back azimuth, and the arrival time (origin time plus travel time), incidence angle and slowness of the first
  arrival of exactly that phase, with event and station attributes taken from the event and station objects given
  and otherwise from the stats given. A geometry outside the distance range (default 30 to 90 degrees for P, 50 to 85
  for S, bounds included) gives None without ray values; for a stream exactly the traces in range are kept, in
  order, each with values of its own geometry.''',
  ['inputs'], 'all event/station coordinates and depths, phases, distance ranges and mixes of traces in one stream',
  'The tests check one geometry and only that headers exist and three values are roughly right; range limits, other phases, mixed streams and partial inputs are never exercised.',
  ['rf/rfstream.py'], [('rfstats', 'rf/rfstream.py'), ('obj2stats', 'rf/rfstream.py')], (), ['rfstats(...) return value and stats entries'])

p('C04', 'Headers and data survive writing and reading in every format',
  '''Whatever documented receiver function headers a trace carries, writing it as SAC, Q or H5 and reading it back
  gives the same number of traces with the same ids and data and with every one of these headers that is set equal
  to its value in memory (to format precision), also after changing headers of data read from a file and after any
  chain of conversions between the formats. Headers that were never set stay unset, and for Q with SeismicHandler
  compatibility exactly the headers without a Q field of their own are dropped.''',
  ['inputs', 'histories'], 'all subsets and values of the documented headers, all stream sizes, all sequences of formats',
  'The tests write one trace with one fixed set of header values once per format and compare to two decimals; no subset, zero or negative value, several traces, header change after reading, or conversion chain is tried.',
  ['rf/rfstream.py'], [('_write_format_specific_header / _read_format_specific_header', 'rf/rfstream.py'), ('_HEADERS, _FORMATHEADERS', 'rf/rfstream.py'), ('RFStream.write', 'rf/rfstream.py')],
  (), ['read_rf(write(stream))'])

p('C05', 'Writing never changes the stream in memory or global state, even when it fails',
  '''Writing a stream or trace in any format leaves the data, ids and receiver function headers of every trace in
  memory, and the index setting used for HDF5 files, as they were before the call, whether the write succeeds or
  fails at any point. A stream whose write failed can be written again and gives the same file content as if the
  failed attempt had not happened.''',
  ['fault_sequences', 'crash_points', 'histories'], 'all formats, stream sizes and points at which the write can fail, and all sequences of failing and succeeding writes',
  'No test makes a write fail, and none compares the stream before and after writing.',
  ['rf/rfstream.py'], [('RFStream.write', 'rf/rfstream.py'), ('RFTrace.write', 'rf/rfstream.py')],
  [('obspyh5 index', 'global index template used for new HDF5 files', 'obspyh5._INDEX set in RFStream.write'),
   ('stats.station', 'temporarily replaced by the full id for Q', 'RFStream.write')], ['stream.write(...)'])

p('C06', 'Relative trimming and slicing keep exactly the samples of the window',
  '''Trimming or slicing relative to a reference time keeps, for each trace separately, exactly the samples whose time
  lies in the window around that trace's own reference (a header name or an absolute time), unchanged and at
  unchanged absolute times, window bounds being rounded to the nearest sample unless asked otherwise; missing bounds
  and absolute bounds are honoured. Traces left without samples are removed
  (slicing keeps them on request), the order of the others and all onset headers stay, and slicing does not alter
  the original stream.''',
  ['inputs', 'histories'], 'all streams with differing start times, lengths, sampling rates and onsets, all windows and sequences of trims and slices',
  'The tests trim and slice one stream once with a fixed window fully inside the data.',
  ['rf/rfstream.py'], [('RFStream.trim2', 'rf/rfstream.py'), ('RFStream.slice2', 'rf/rfstream.py'), ('RFTrace._seconds2utc', 'rf/rfstream.py')], (), ['trim2 / slice2'])

p('C07', 'Receiver functions: steps, signs and mirroring are applied as documented',
  '''Calculating receiver functions equals applying, in this order and each only if requested, filtering, trimming
  relative to onset, downsampling, rotation with the back azimuth and inclination of the record, sign reversal of the
  Q component and deconvolution per record, followed for S receiver functions by mirroring every trace and its onset
  in time. The method is taken from the phase header unless given, selects L/Z (P) or Q/R (S) as source component
  and afterwards the stream type is rf and the phase denotes that method.''',
  ['inputs', 'configurations'], 'all combinations of the options, both methods, rotations, component sets and records',
  'The tests run two bundled data sets with one option set each and look only at the position of one maximum; signs, mirroring of onset for asymmetric windows, option combinations and multi-record streams are not compared with anything.',
  ['rf/rfstream.py'], [('RFStream.rf', 'rf/rfstream.py')], (), ['RFStream.rf'])

p('C08', 'Each record is processed independently of the other records in the stream',
  '''Ray metadata, receiver function, moveout, piercing points and trimming of one record (event-station pair) give
  the same result whether the record is processed alone or together with any other records, in any order of the
  traces. A record with a number of components other than two or three is left without deconvolution and does not
  affect the others.''',
  ['inputs', 'histories'], 'all streams composed of several records (same or different stations, events, windows, sampling rates), all permutations of their traces',
  'The tests process one fixed stream of three records and never compare it with the records processed alone or in another order.',
  ['rf/rfstream.py', 'rf/util.py', 'rf/simple_model.py', 'rf/deconvolve.py'],
  [('iter3c in RFStream.rf', 'rf/rfstream.py'), ('IterMultipleComponents', 'rf/util.py'), ('SimpleModel.moveout', 'rf/simple_model.py')], (), ['RFStream.rf, moveout, ppoints, trim2, rfstats'])

p('C09', 'Deconvolution places converted energy at its delay with its relative amplitude',
  '''For a response made of delayed and scaled copies of the source wavelet, every deconvolution method (time,
  waterlevel, iterative, multitaper) returns traces of unchanged length whose pulses stand at onset plus delay with
  amplitude and sign proportional to the copies, the deconvolved source component peaking with value 1 at the onset,
  for any onset position, sampling rate, trace length, source window and component naming. Only source energy inside
  the source window is used and the onset header moves at most to the nearest sample. Without normalization time and
  waterlevel results scale linearly with the response.''',
  ['inputs', 'configurations'], 'all onset positions, windows, lengths, sampling rates, delays, amplitudes, methods and component orders',
  'The tests check the peak position for one bundled record and one synthetic with a symmetric source; amplitudes, signs of several arrivals, windows, off-sample onsets and component order are not checked.',
  ['rf/deconvolve.py', 'rf/rfstream.py'], [('deconvolve', 'rf/deconvolve.py'), ('deconv_time, deconv_waterlevel, deconv_iterative, deconv_multitaper', 'rf/deconvolve.py')], (), ['RFStream.deconvolve'])

p('C10', 'Array deconvolution functions solve the documented equations',
  '''Time domain deconvolution of arrays returns the solution of (STS + spiking*I) RF = STR with the autocorrelation
  of the source normalised to 1 at lag zero and the cross-correlation of response and source shifted by the given
  number of samples; water level deconvolution returns the spectral quotient with the denominator raised to the water
  level times its maximum, low-pass filtered and shifted; iterative deconvolution places one spike after the other where it
  lowers the misfit between the filtered response and the spikes convolved with the source most (positive or negative,
  not in the muted part), until the misfit (in percent of the response) falls by no more than minderr or itmax spikes
  are placed, and returns the filtered, shifted spikes, their number and the misfit after each. In all methods (multitaper included) a response is deconvolved
  independently of the others in the list and the result scales with it (linearly but for the iterative method); in
  the frequency domain another tshift moves the result, gauss filters it, more noise or a higher water level damps it
  at every frequency, and trends do not change a multitaper result. This holds for one array or a list of arrays, any lengths,
  any requested result length and any normalization (by trace, by source, none), a normalised result being the
  unnormalised one divided by the maximum (in the time domain and the iterative method: the largest absolute value) of
  the reference.''',
  ['inputs', 'configurations'], 'all arrays, lengths, shifts, spiking/waterlevel/gauss values, normalizations and result lengths',
  'The array functions are never called directly by a test; only one peak position after a whole stream deconvolution is compared.',
  ['rf/deconvolve.py'], [('deconv_time', 'rf/deconvolve.py'), ('deconv_waterlevel', 'rf/deconvolve.py'), ('deconv_iterative', 'rf/deconvolve.py'), ('deconv_multitaper', 'rf/deconvolve.py'), ('_acorrt/_xcorrt', 'rf/deconvolve.py')], (), ['deconv_time, deconv_waterlevel'])

p('C11', 'Moveout correction moves conversions from their delay to the reference delay',
  '''Moveout correction shifts energy at the delay time that a conversion at some depth has for the slowness of the
  trace to the delay time it has for the reference slowness, for every depth, P and S receiver functions, converted
  phases and multiples, and any model; samples on the other side of the onset are untouched, energy beyond the model
  is zeroed and the number and times of samples stay. With slowness equal to the reference the data do not change, so
  repeating the correction changes nothing; the headers record the phase, the former slowness and the reference
  slowness.''',
  ['inputs', 'configurations'], 'all velocity models, slownesses, reference slownesses, phases, onset positions, sampling rates and data',
  'The tests compare one synthetic with stored values for one slowness pair and two phases with a loose tolerance.',
  ['rf/simple_model.py', 'rf/rfstream.py'], [('SimpleModel.moveout', 'rf/simple_model.py'), ('SimpleModel.stretch_delay_times', 'rf/simple_model.py'), ('RFStream.moveout', 'rf/rfstream.py')],
  (), ['RFStream.moveout, SimpleModel.calculate_delay_times / stretch_delay_times'])

p('C12', 'Results do not depend on what was computed before in the process',
  '''Delay times, moveout corrections, piercing points, model loading, ray metadata, the bundled example streams and
  file writing give, for given arguments, the same results whatever calls with whatever other arguments (other
  reference slowness, phase, model, format, stream, or calls that failed) were made before in the same process.
  Changing a stream, trace or stats object returned by one call never changes what a later call returns.''',
  ['histories'], 'all sequences of calls in one process',
  'Each test makes a few calls with default arguments; cached state (models, reference delay times, example streams, HDF5 index) is never hit with a second set of arguments.',
  ['rf/simple_model.py', 'rf/util.py', 'rf/rfstream.py'],
  [('_MODEL_CACHE', 'rf/simple_model.py'), ('SimpleModel.t_ref', 'rf/simple_model.py'), ('__CACHE of example streams', 'rf/util.py')],
  [('_MODEL_CACHE', 'loaded models by file name', 'rf/simple_model.py'), ('t_ref', 'reference delay times by phase', 'SimpleModel'), ('__CACHE', 'example receiver functions', 'rf/util.py'), ('obspyh5 index', 'HDF5 path template', 'obspyh5._INDEX')],
  ['public functions'])

p('C13', 'Piercing points lie on the ray through the model at the requested depth',
  '''The piercing point of a depth lies in back azimuth direction from the station at the horizontal distance a ray of
  the given slowness and wave type (or multiple) travels through the layers above that depth: zero at depth zero,
  growing with depth, linear within a homogeneous layer, and for a multiple the sum over its legs. Splitting a
  homogeneous layer, in the model file or by support points, does not change it. Coordinates and depth are stored in
  the headers of each trace and returned in trace order.''',
  ['inputs', 'configurations'], 'all layered models, depths, slownesses, wave types, stations and azimuths',
  'The tests check a few depths of the built-in model with 5 to 20 percent tolerance.',
  ['rf/simple_model.py', 'rf/rfstream.py', 'rf/util.py'], [('SimpleModel.ppoint_distance', 'rf/simple_model.py'), ('SimpleModel.ppoint', 'rf/simple_model.py'), ('RFStream.ppoints', 'rf/rfstream.py'), ('direct_geodetic', 'rf/util.py')], (), ['ppoints, ppoint_distance, ppoint'])

p('C14', 'Stacking averages exactly the traces of one id',
  '''Stacking returns one trace per distinct id whose data is the arithmetic mean of all traces with that id and whose
  station coordinates, phase, moveout, sampling rate and onset offset are those of traces with that id, whatever
  other traces the stream contains and in whatever order. The stacked stream is left unchanged, including its
  processing history, and later changes of the stack do not affect it.''',
  ['inputs'], 'all streams mixing stations, channels, onsets and multiplicities',
  'The only stack in the tests is of one station and only two maxima are looked at.',
  ['rf/rfstream.py'], [('RFStream.stack', 'rf/rfstream.py')], (), ['RFStream.stack'])

p('C15', 'Profiles assign every trace to the box around its piercing point, once',
  '''A profile contains one trace for every combination of box and component that has traces, its data being the mean
  of exactly the traces of that component whose piercing point lies in that box and its count being their number;
  traces outside all boxes contribute nothing. Boxes follow from start point, azimuth, bin edges and width: positions
  and lengths are bin mid-points and widths, and a point at a given distance along and off the profile line is in the
  box of that distance if and only if it is within half the width. The result is the same for a stream, any order of
  traces or an iterator, and the input traces are left unchanged.''',
  ['inputs', 'configurations'], 'all streams, piercing points, start points, azimuths, bins and widths',
  'One profile of one component is computed and only its number of traces, its text form and its headers are checked.',
  ['rf/profile.py'], [('profile', 'rf/profile.py'), ('get_profile_boxes', 'rf/profile.py')], (), ['RFStream.profile, rf.profile.profile, get_profile_boxes'])

p('C16', 'Harmonic decomposition recovers the azimuthal terms of the data',
  '''For receiver functions that follow a constant plus one- and two-lobed azimuthal pattern, the decomposition returns
  exactly the coefficients of the five terms at every sample, in the documented order, relative to the chosen
  azimuth, for one or two components, in the time and in the frequency domain, and whatever the order of the traces.
  Each output trace is labelled with its term, number, part (modelled or unmodelled) and components, keeps sampling
  and onset, and the input stream is unchanged.''',
  ['inputs', 'configurations'], 'all back azimuth sets that determine the fit, coefficient series, reference azimuths, component choices, scalars, methods and trace orders',
  'The tests decompose three real records (an underdetermined fit) and compare the maximum of the constant term with a stored value.',
  ['rf/harmonics.py', 'rf/rfstream.py'], [('harmonics', 'rf/harmonics.py'), ('decomp_one, decomp_two', 'rf/harmonics.py')], (), ['harmonics, RFStream.harmonics'])

p('C17', 'Batch results do not depend on how the work is split or stored',
  '''Running the command line steps data, calc and moveout one after the other gives the same receiver functions as
  running them in one command, in each of the formats Q, SAC and H5 and after converting between them; nothing is
  lost, duplicated or mixed up between stations and events (events which start at different seconds). Stack, profile
  and convert see exactly the records of their input, a missing record or a failing data request affects no other
  record, the input of a command is left unchanged, and repeating a command gives the same output again.''',
  ['histories', 'fault_sequences', 'configurations'], 'all sequences of commands over a file store, all formats, all sets of available records and failing requests',
  'The tests run one command sequence per format on data without failures and count the files; contents are never compared.',
  ['rf/batch.py', 'rf/util.py', 'rf/rfstream.py'], [('run_commands', 'rf/batch.py'), ('write', 'rf/batch.py'), ('iter_event_processed_data', 'rf/batch.py')],
  [('file store', 'directories / H5 files of records', 'FNAMES, STACK_FNAMES, PROFILE_FNAMES')], ['rf command line'])

p('C18', 'Batch configuration: command line beats file, comments ignored, nonsense refused',
  '''The options in effect are those of the configuration file, comments ignored, overridden by those given on the
  command line, and reach the processing steps unchanged, while objects of a Python caller are left as they are;
  creating a configuration copies the bundled files and nothing else. An unknown option, a processing step requested twice, an unreadable configuration, event or station
  file leads to an error message and no output.''',
  ['configurations', 'inputs'], 'all combinations of options given in the file and on the command line, and all command lists',
  'The tests use the bundled configuration with one substitution and no overriding option.',
  ['rf/batch.py'], [('run_cli', 'rf/batch.py'), ('run', 'rf/batch.py'), ('run_commands', 'rf/batch.py'), ('ConfigJSONDecoder', 'rf/batch.py')], (), ['rf command line, rf.batch.run'])

p('C19', 'Operations change only what they are called on, and log themselves once',
  '''In any sequence of operations on any number of streams, an in-place operation (rf, deconvolve, moveout, trim2,
  ppoints) changes only the stream it is called on, and copy, stack, profile, harmonics, slice2, component iteration,
  writing and plotting leave data, headers and processing history of their input unchanged. Each of rf, deconvolve,
  moveout, stack, profile and harmonics adds exactly one entry, naming the operation and its arguments, to the
  processing history of each trace of its result, after the entries of earlier operations.''',
  ['histories'], 'all sequences of operations on all sets of streams, including results of earlier operations',
  'No test looks at an input stream after an operation, and the history test only searches for two words.',
  ['rf/rfstream.py', 'rf/util.py', 'rf/profile.py', 'rf/harmonics.py', 'rf/deconvolve.py', 'rf/imaging.py'],
  [('_add_processing_info', 'rf/util.py'), ('RFStream methods', 'rf/rfstream.py')], (), ['RFStream methods', 'stats.processing'])

p('C20', 'Plots show the traces they are given, at their times and positions',
  '''The receiver function plot draws every trace once, in stream order from bottom to top, against time relative to
  its own onset, scaled by the common (or, on request, its own) maximum, with the stack of the shown traces on top
  whenever they share one id and length, and the chosen header values beside them. The profile plot draws every
  trace at its box position and time, the histogram shows the count of each box above it, and the depth axis agrees
  with the delay times of the model; the harmonics plot draws term k of each part at its row. Maps show stations,
  piercing points and boxes at their coordinates. Trimming restricts what is drawn, and plotting never changes the plotted stream.''',
  ['inputs', 'configurations'], 'all streams and plotting options',
  'The tests only check that plotting does not raise.',
  ['rf/imaging.py'], [('plot_rf', 'rf/imaging.py'), ('plot_profile', 'rf/imaging.py'), ('plot_harmonics', 'rf/imaging.py'), ('plot_stations', 'rf/imaging.py'), ('plot_ppoints', 'rf/imaging.py'), ('plot_profile_map', 'rf/imaging.py')], (), ['matplotlib figure contents'])

p('C21', 'Invalid requests are refused before anything is changed',
  '''These requests raise an error and leave the data and headers of the stream or stats they got as they were:
  deconvolve() of one record without exactly one source component or without one to three response components, an
  unknown deconvolution, harmonics or rf() method (rf() without method needs traces with the same phase ending with P
  or S), harmonics of a missing component or of an unsupported choice of components, moveout with a phase name of odd
  length or of a stream in which any trace has its onset outside of its data, piercing points with a phase name of even
  length, rfstats for an event without origin, origin coordinates, depth, time or magnitude, for a station without
  coordinates or elevation, or without dist_range for a phase other than P and S. Requests that satisfy these
  conditions are accepted for every deconvolution method and converted phase.''',
  ['inputs', 'configurations'], 'all combinations of component sets, source/response choices, methods, phases and incomplete metadata',
  'A few rejections of incomplete events are tested; all other combinations are not.',
  ['rf/deconvolve.py', 'rf/rfstream.py', 'rf/harmonics.py', 'rf/simple_model.py'],
  [('argument checks in deconvolve, harmonics, rf, stretch_delay_times, ppoint_distance, rfstats', 'rf/')], (), ['raised exceptions and stream state'])

p('C22', 'An option left out means its documented default, a given one is used',
  '''For every operation, two calls on the same input with the same settings in effect give the same result, however
  the settings are written: an option at its documented default may be left out, passed by keyword or by position, and
  a default that follows from other options (phase of moveout and piercing points, source component and window of
  rf(), distance range and request window of a phase, normalisation of a deconvolution, axes and projection of a
  plot) follows from their values in effect. A value that is given is used, also if it is zero, False or None and that
  is not the default: it gives another result than the default where the option has an effect at all. Calls neither
  change the options objects of the caller nor what leaving an option out means in later calls.''',
  ['configurations', 'histories'], 'all operations, combinations of their options, ways to write them and orders of calls',
  'The tests call each operation with one or two fixed sets of options, and never compare two ways to write the same call or a call repeated after another one.',
  ['rf/rfstream.py', 'rf/deconvolve.py', 'rf/simple_model.py', 'rf/profile.py', 'rf/harmonics.py', 'rf/util.py', 'rf/imaging.py'],
  [('signatures and resolution of defaults of rf, moveout, ppoints, rfstats, deconvolve, iter_event_data, ...', 'rf/')],
  [('options', 'settings in effect of a call', 'arguments and locals of the public functions')], ['results of calls', 'argument objects after calls'])

p('C23', 'Streams report the type and method of their traces, traces describe themselves',
  '''After any sequence of putting traces into a stream, taking them out, setting or deleting their headers, copying,
  slicing or rebuilding the stream, its type is the type header all traces that have one agree on and its method is P
  or S by the last letter of the phase they agree on; without such a value, or with differing ones (then with a
  warning), it is None. Setting type or method sets it for every trace and is what is reported afterwards. The printed
  summary of a trace with an onset states its method, type, id, window relative to the onset, onset, sampling rate,
  length, and exactly those of magnitude, distance, back azimuth, position, slowness, moveout and mask it has, with
  their values. Asking changes nothing.''',
  ['histories', 'inputs'], 'all sequences of container operations and header changes, all combinations of headers',
  'The tests print one trace and read type and method of homogeneous streams only.',
  ['rf/rfstream.py'],
  [('RFStream.type, RFStream.method, __get_unique_header', 'rf/rfstream.py'), ('RFTrace.__str__', 'rf/rfstream.py')],
  [('headers', 'type and phase of the traces', 'stats dictionaries')], ['RFStream.type/method', 'str(trace)'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
