#!/usr/bin/env python3
"""Source of known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict((l.split(' ', 1)[1], l.split(' ', 1)[0]) for l in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
F = [
 (['C11', 'C12'], 'fix: cache reference delay times per phase and reference slowness', 'moveout with a second reference slowness in one process used the delay times of the first one (cache key was the phase only)'),
 (['C14'], 'fix: stack header is taken from a trace with the same id', 'stack took coordinates, sampling rate, phase and onset of all ids from the first trace of the stream'),
 (['C14', 'C15', 'C19'], 'fix: stack and profile do not share the processing list with their input', 'stack()/profile() results shared the processing list with the input trace: input history changed, later operations on one appeared in the other'),
 (['C16'], 'fix: set components header for all unmodeled harmonics', 'only the last unmodelled harmonic carried the components header'),
 (['C04'], 'fix: streams of type harmonic can be written to H5', 'writing a harmonic stream to H5 raised KeyError'),
 (['C05'], 'fix: restore station header and H5 index if writing fails', 'a failing write left stats.station = full id (Q) or the global H5 index changed (H5)'),
 (['C05'], 'fix: restore station header if preparing the headers for Q fails', 'a header that cannot be stored left stats.station of earlier traces = full id'),
 (['C01'], 'fix: events without origin do not stop iter_event_data', 'an event without origins raised IndexError out of the iteration'),
 (['C01', 'C17'], 'fix: missing data does not stop iter_event_data', 'a data provider returning None (the batch wrapper does on errors) raised AttributeError out of the iteration'),
 (['C01'], 'fix: data which cannot be merged does not stop iter_event_data', 'traces of one id with different sampling rates raised out of the iteration'),
 (['C17'], 'fix: events without origin do not stop iter_event_metadata', 'an event without origins raised IndexError out of the batch iteration'),
 (['C03'], 'fix: rfstats uses event or station if the other is part of stats', 'rfstats(stats, event=event) ignored the event (and vice versa the station)'),
 (['C18'], 'fix: refuse repeated calc or moveout steps', "'rf data calc calc out' performed the step twice instead of refusing it"),
 (['C18'], 'fix: batch accepts Catalog objects and lists of events', 'run_commands refused Catalog objects with "cannot read events or stations"'),
 (['C10'], 'fix: deconv_waterlevel without normalization for single array or with info', 'UnboundLocalError for normalize=None with a single array or return_info'),
 (['C09', 'C10'], 'fix: deconv_iterative for a single array', 'the documented single array input raised TypeError'),
 (['C09', 'C19'], 'fix: deconvolve does not cut and taper the source trace of the stream', 'with the source excluded from the response the source trace of the stream was cut and tapered in place'),
 (['C07'], 'fix: results of a custom deconvolution function are written to the stream', 'rf(deconvolve="func") dropped the result if the function returned a new stream'),
 (['C20'], 'fix: scale second panel of plot_harmonics by its own maximum', 'the maximum of the second panel was compared with the maximum of the first'),
 (['C20'], 'fix: depth axis of plot_profile was off by one model layer', 'depth ticks used delay times through the bottom of a layer with the depth of its top'),
 (['C11'], 'fix: times of samples in moveout correction of S multiples', 'moveout of S multiples took the times of the samples one sample off'),
 (['C11'], 'fix: moveout correction of S multiples with samples beyond the model', 'moveout of an S multiple zeroed all samples if some lie beyond the model'),
 (['C11'], 'fix: no NaNs in moveout correction if reference wave turns within the model', 'moveout returned NaNs if the reference wave turns within the model'),
 (['C11', 'C13'], 'fix: SimpleModel accepts lists and integers', 'a model of lists or integer arrays raised or truncated depths'),
 (['C11'], 'fix: moveout correction within the first layer of the model', 'delay times around zero were not mirrored, samples within the first layer were moved wrongly'),
 (['C11'], 'fix: moveout correction to the slowness of the trace does not change data', 'moveout to the slowness of the trace itself changed the data'),
 (['C11'], 'fix: moveout correction if no data to correct is present', 'moveout of a trace which ends before the onset raised'),
 (['C15'], 'fix: profile boxes crossing the date line', 'boxes crossing the date line spanned the whole globe, traces were assigned to wrong boxes'),
 (['C19'], 'fix: moveout correction does not change the data of other streams', 'moveout of a stream wrote into the data shared with its slices (slice2) and the other way round'),
 (['C09'], 'fix: deconvolution of integer data with a source window exceeding the data', 'deconvolve raised a casting error for integer data if the source window exceeds the data'),
 (['C09'], 'fix: receiver functions shifted by a fraction of a sample for source windows not starting at a sample', 'pulses stood up to half a sample (time: one sample) off for source windows not starting at a sample'),
 (['C07'], 'fix: downsampling with frequencies or sampling rates which are no integers', 'rf(downsample=10.) raised, downsampling of 2.5 Hz... data with non-integer rates raised or gave a wrong rate'),
 (['C07', 'C09'], 'fix: multitaper deconvolution with a source window almost as long as the response', 'multitaper deconvolution raised a broadcast error if the source window is almost as long as the response'),
 (['C08'], 'fix: phase of a record renamed by rf() if another record has a different phase', "rf(method='P') on a stream with phases P and PKP replaced PKP by P, while PKP is kept for the record alone"),
 (['C04'], 'fix: headers deleted since reading a SAC or Q file were written again', 'read SAC or Q, delete the header slowness (or type), write and read again: the old value was back'),
 (['C04'], 'fix: writing receiver functions without event time or profiles without box position to H5', 'type=rf without event_time or type=profile without box_pos: KeyError while writing H5'),
 (['C01'], 'fix: channel groups whose last component has no epoch at origin time were skipped', 'iter_event_data skipped a channel group (yielding no stream although data exist) if the last listed component of the group has no epoch covering the origin time while another component has'),
 (['C21'], 'fix: moveout changed traces before it raised for a trace with onset outside of the data', 'moveout of a stream in which a later trace has its onset outside of the data raised after the earlier traces had been corrected'),
 (['C21'], "fix: rf() accepted the methods '' and 'PS'", "rf(method='') and rf(method='PS') passed the check for valid methods (substring test) and calculated something"),
 (['C21'], 'fix: rf() changed the stream before it raised for an unknown deconvolution method', "rf(deconvolve='unknown') had filtered, trimmed and rotated the stream when it raised"),
 (['C21'], "fix: rfstats accepted the phases '' and 'PS' with the default distance range", "rfstats(phase='PS') and rfstats(phase='') without dist_range were accepted (substring test) and changed the stats"),
 (['C17'], 'fix: batch commands lost records with an event time rounded by the SAC or Q format', 'batch calc, moveout, stack... on SAC or Q files skipped records whose event time the format had rounded to another second'),
 (['C17'], 'fix: batch commands read and used channel groups of the same location more than once', 'batch calc, convert, moveout... with two channel groups (bands) at one location read and wrote each record twice'),
 (['C17'], 'fix: repeating the batch stack command duplicated the stacks in a H5 file', 'rf stack run twice: the H5 file held every stack twice (under one more index)'),
 (['C18'], 'fix: # within strings of the batch configuration file was taken for a comment', 'a configuration file with # in a string was cut there: parse error or a changed value'),
 (['C18'], 'fix: run_commands changed the option dictionaries of the caller', 'rf.batch.run(..., options=d, phase=...) wrote into the dictionaries of the caller'),
 (['C20'], 'fix: histogram above the profile was displaced by half a box', 'plot_profile(top=hist): bars centred at the left edge of the boxes'),
 (['C20'], 'fix: plot_rf raised for show_vlines without show_traces', 'plot_rf(show_traces=False, show_vlines=True): UnboundLocalError'),
 (['C20'], 'fix: traces without signal were not drawn', 'plots of dead traces (trace_scale or all traces dead): NaN line, nothing drawn'),
 (['C20'], 'fix: profile plot cut off traces with a larger time range than the last one', 'plot_profile: time axis ended with the last trace, longer traces were cut off'),
 (['C18'], 'fix: batch print command raised for a list of events', 'rf.batch.run("print", objects=["events"], events=[Event, ...]) raised TypeError (list has no __str__(True))'),
]
K = []
for props, subject, what in F:
    for p in props:
        K.append({'property': p, 'status': 'fixed', 'commit': log[subject], 'what': what,
                  'line': 'fixed: property=%s %s %s' % (p, log[subject], what)})
K.append({'property': 'C13', 'status': 'known', 'clauses': ['KNOWN-one-layer-too-deep'], 'event': {},
          'what': 'SimpleModel.ppoint_distance adds the path through one more support layer than lies above '
                  'the depth (iasp91, depth 0 km, slowness 6.4 s/deg, S: 0.39 km instead of 0; 100 km: 25.8 km '
                  'instead of 25.4 km); repairing it moves the piercing points of the bundled example, which the '
                  'existing profile test pins (3 boxes at 50 km depth)'})
K.append({'property': 'C15', 'status': 'known', 'clauses': ['KNOWN-wide-box-displaced'], 'event': {'op': 'wide'},
          'what': 'get_profile_boxes with the default width of 2000 km away from the equator: the edges of the boxes are '
                  'displaced along the profile because the corners are found by successive azimuths and joined by straight '
                  'lines in latitude and longitude (start 45N 10E, azimuth 0, bins 0, 50, ..., 300 km: the mid-point of the '
                  'first box, 25 km, is found in the last box, those of the others in none); a repair has to redefine the '
                  'shape of all boxes'})
K.append({'property': 'C17', 'status': 'known', 'clauses': ['KNOWN-q-bands-of-one-location'], 'event': {},
          'what': 'batch commands with format Q: the channel groups (bands, for example BH? and HH?) of one station and '
                  'location have the same file name for an event, the group written last replaces the other one; a repair '
                  'has to change the file names of the existing data sets'})
json.dump(K, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(K))
