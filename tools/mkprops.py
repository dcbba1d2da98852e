"""Writes properties.jsonl (kept as code so that long texts stay readable)."""
import json
import os

P = []


def add(id, title, statement, over, text, why, files, mech, observe, hook=None,
        state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech],
                 observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [
            dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


FIT = 'py/qsonic/scripts/qsonic_fit.py'
CAT = 'py/qsonic/catalog.py'
MPIU = 'py/qsonic/mpi_utils.py'
IO = 'py/qsonic/io.py'
SPEC = 'py/qsonic/spectrum.py'
PC = 'py/qsonic/picca_continuum.py'
MT = 'py/qsonic/mathtools.py'
MASK = 'py/qsonic/masks.py'
CALM = 'py/qsonic/calibration.py'
CAL = 'py/qsonic/scripts/qsonic_calib.py'
COA = 'py/qsonic/scripts/qsonic_coadd_deltas.py'
MODELS = 'py/qsonic/continuum_models/'

add('C01', 'Every selected quasar is assigned to exactly one process',
    'For any catalog and any number of processes, each quasar inside the '
    'redshift range and the kept surveys is handed to exactly one process, '
    'all other quasars to none, and a healpixel (or tile) is never split '
    'between processes. The load is balanced: a process never holds more '
    'quasars than any other by more than its own smallest group. '
    'An unreadable, '
    'incomplete, duplicated or empty catalog is reported as the same error '
    'on every process.',
    ['inputs', 'configurations', 'schedules', 'fault_sequences'],
    'all catalogs (column conventions, extension names, missing optional '
    'columns, surveys, tiles), process counts, message timings, and read '
    'errors of the catalog',
    'The tests read one hand-made catalog in one process with a stub '
    'communicator; they never run several processes and never compare the '
    'union of the assignments with the catalog.',
    [CAT, MPIU, FIT],
    [('read on master, status broadcast, scatter', CAT),
     ('greedy load balancing of whole groups', MPIU)],
    ['return value of the queue function on every process',
     'union of saved TARGETIDs'])

add('C02', 'Master-only reads reach every process or fail alike everywhere',
    'Whatever is read on the master process (options, catalogs, masks, '
    'calibrations, fiducial functions, file lists) arrives with the same '
    'value on every process. If the read fails for any reason, every process '
    'raises the documented error with the given message; no process is left '
    'waiting. Contradictory options end every process alike before any '
    'output. Without a communicator the same call behaves as a plain '
    'function call.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'all callables and results, all failing reads, process counts and '
    'message timings',
    'The tests use a one-process stub whose broadcast returns its argument; '
    'a process that never reaches the broadcast cannot be seen.',
    [MPIU, CAT, MASK, CALM, PC, FIT, CAL],
    [('evaluate on master, broadcast result or sentinel', MPIU),
     ('parse on master, broadcast options', MPIU)],
    ['return value or exception on every process', 'blocked processes'])

add('C03', 'A run finishes completely or fails visibly; it never hangs',
    'Whatever input/output error, full disk or failed allocation hits '
    'whichever process at whichever moment, every process of a continuum '
    'fitting or calibration job ends within a bounded number of steps. The '
    'job then reports failure, or it reports success and its output files '
    'are the complete ones of an undisturbed run. A process never goes on '
    'silently with partial data, except that an unreadable input-continuum '
    'file invalidates exactly the quasars in it.',
    ['fault_sequences', 'schedules', 'configurations'],
    'every I/O operation of every process as failure point, every '
    'interleaving of processes and message delivery mode',
    'No test injects a fault or runs more than one process, so neither a '
    'hang nor a truncated success can be observed.',
    [FIT, CAL, MPIU, IO, PC, MASK],
    [('known errors raised on all processes, anything else aborts the job',
      FIT), ('same in calibration', CAL)],
    ['exit codes, abort calls, blocked processes', 'output files'])

add('C04', 'Fit results do not depend on process count or message timing',
    'For the same inputs and options, deltas, continua, weights, the chi2 '
    'catalog and all saved global functions of the continuum fitting agree '
    'with those of a single-process run up to floating-point rounding, for '
    'any number of processes, any interleaving of them and any order of '
    'message delivery. Only the recorded process number and the grouping '
    'into files may differ, and jackknife errors where a subsample has to '
    'hold more than one spectrum.',
    ['schedules', 'configurations', 'inputs'],
    'process counts, interleavings, reduction orders, eager or synchronous '
    'collectives, option combinations',
    'The tests never run the pipeline with two processes.',
    [FIT, PC, MT, MPIU, IO],
    [('global sums by all-reduce before every use', PC),
     ('sub-sample start index depends on the process', PC)],
    ['delta files', 'chi2 catalog', 'attributes file'])

add('C05', 'Each fitted spectrum is saved once and catalogued once',
    'After a successful run the delta files together contain every spectrum '
    'with a valid continuum exactly once per remaining arm (and exposure), '
    'and nothing else; every output file is written by one process only. The '
    'chi2 catalog has exactly one row for every spectrum that entered the '
    'fit, valid or not, naming the process that fitted it. With saving by '
    'healpixel, each delta is in the file of its own healpixel. Extension '
    'names give target, arm and exposure number.',
    ['inputs', 'configurations', 'schedules'],
    'catalogs, groupings, process counts (also more than one file per '
    'process and processes without any surviving spectrum), option '
    'combinations, interleavings',
    'The tests save a handful of spectra in one process to one file; they '
    'cannot see two processes writing the same file or a lost remainder.',
    [IO, FIT, PC, SPEC],
    [('per-process or per-healpixel file names', IO),
     ('gather of the chi2 rows on the master', PC)],
    ['delta files', 'chi2 catalog', 'who opened which file for writing'])

add('C06', "A saved delta contains only its own quasar's data",
    'For every saved delta, the wavelength grid, the flux implied by delta '
    'and continuum, the inverse variance, the resolution matrix and the '
    'header values (identifier, position, redshift, signal-to-noise) are '
    'those obtained from that quasar\'s own rows of its own input file by '
    'the requested forest cut, coaddition, calibration and masking. '
    'Selection cuts keep or drop a quasar only by its own data. Row order in '
    'the catalog and in the files, extra rows, other surveys and the '
    'assignment to processes make no difference.',
    ['inputs', 'configurations', 'schedules'],
    'file layouts (healpix, tile, mock, exposures), row orders, missing and '
    'extra targets, arms, coaddition modes, bad pixels, process counts',
    'The tests build spectra in memory or read one file with rows in order; '
    'a row mix-up needs disordered, incomplete, multi-survey inputs and '
    'several processes.',
    [IO, SPEC, FIT, CAT],
    [('row matching by TARGETID', IO), ('arm coaddition', SPEC)],
    ['delta files compared with an independent reference model'])

add('C07', 'One survey-wide blinding decision in every output',
    'The blinding label and the name of the delta column follow from the '
    'latest observing night among all selected quasars, the mock flag and '
    'the forest region, and are the same in every delta file whatever '
    'process wrote it. In particular a process whose own quasars are all old '
    'never writes unblinded deltas when another process holds a newer one.',
    ['inputs', 'configurations', 'schedules'],
    'distributions of observing nights over processes, boundary nights, '
    'process counts, interleavings',
    'The tests call the blinding function with one number; which number '
    'reaches it on each process is decided by a reduction over processes.',
    [FIT, SPEC],
    [('all-reduce of the latest night', FIT), ('thresholds', SPEC)],
    ['BLINDING key and column names of all delta extensions'])

add('C08', 'Rerunning after a crash at any point gives the clean result',
    'If a job is killed at any moment, even in the middle of writing a file, '
    'running the same command again in the same directory succeeds and '
    'leaves exactly the outputs of a run that was never interrupted. Partial '
    'or stale files of the killed run never prevent or alter the rerun.',
    ['crash_points', 'schedules', 'configurations'],
    'every step of every process as crash point, torn and missing files left '
    'behind, all three programs',
    'No test kills a run or reruns over existing output.',
    [IO, PC, MPIU, CAL, COA, FIT],
    [('outputs are opened with clobber', IO),
     ('output directory may exist', FIT)],
    ['output directory after rerun'])

add('C09', 'Calibration uses every kept delta exactly once',
    'For any number of processes and any directory order, the variance '
    'statistics, variance functions and stacked flux written by the '
    'calibration program are those of all delta files in the input '
    'directory, each delta counted once, except exactly those removed by the '
    'signal-to-noise limits, the identifier list, the BAL flag or the survey '
    'selection. Processes without any file or any kept delta do not disturb '
    'the result.',
    ['inputs', 'configurations', 'schedules'],
    'numbers of files and processes (divisible or not, more processes than '
    'files), directory orders, removal options, interleavings',
    'There is no test of the calibration program at all.',
    [CAL, PC, MT, IO],
    [('partition of the file list over processes', CAL),
     ('all-reduced statistics', PC)],
    ['variance-stats file against a reference computed from the deltas'])

add('C10', 'Delta coaddition yields one correct delta per target',
    'The coaddition program writes, for every target present in any input '
    'directory, exactly one delta that is the weighted coadd of all its '
    'input deltas, in the file of its healpixel, independent of directory '
    'order, file order, number of worker processes and their scheduling. '
    'Targets present once are copied unchanged, and a pixel with no valid '
    'input gets no weight. If any worker fails to read or write, the program '
    'fails visibly.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'numbers of files, directories, workers, task orders, I/O errors in any '
    'worker',
    'There is no test of the coaddition program.',
    [COA, SPEC, IO],
    [('dictionary keyed by target', COA), ('pairwise coadd', SPEC)],
    ['output deltas against a reference coadd'])

add('C11', 'Global statistics equal the sum over all processes',
    'For any sequence of adding spectra, fitting, resetting and starting '
    'over, and any split of the spectra over processes, the variance '
    'statistics, stacked fluxes and jackknife means reported on every '
    'process are those of all spectra added by all processes since the last '
    'reset, each counted once; jackknife errors are the delete-one errors '
    'of the requested number of subsamples, which each process fills in turn '
    'from its own start index. All processes hold identical values. Adding '
    'to the variance statistics or jackknife means after their results were '
    'read, without a reset, is refused rather than silently mixed in.',
    ['histories', 'schedules', 'inputs'],
    'operation histories, splits over processes including processes that '
    'add nothing, interleavings and reduction orders',
    'The tests add one spectrum once in one process; histories with resets '
    'and contributions of several processes are not reached.',
    [PC, MT],
    [('in-place all-reduce', PC), ('normalisation flag and reset', MT)],
    ['public attributes of the statistics objects on every process'])

add('C12', 'The attributes file records what each iteration used',
    'The attributes file written by a fit holds, for every iteration in '
    'order, the global functions that iteration used, starting from the '
    'documented initial values, and finally those of the last update; '
    'intermediate results of one iteration equal the inputs of the next. The '
    'last stacked flux and variance statistics are those of exactly the '
    'spectra with valid continua, each counted once over all processes. '
    'Only the master writes it, and iteration stops at convergence or at '
    'the requested number.',
    ['configurations', 'schedules', 'inputs'],
    'option combinations, numbers of iterations and processes, '
    'interleavings, early convergence',
    'The tests never run the iteration.',
    [PC, MPIU],
    [('save before each iteration', PC), ('master-only writer', MPIU)],
    ['attributes file against the saved deltas'])

add('C13', 'Missing target data affects only those targets',
    'A catalog target that is absent from its input file, an input-continuum '
    'file that is missing, unreadable or lacks a target, or a target whose '
    'continuum cannot be used, removes or invalidates exactly the targets '
    'concerned. All other targets are processed as if the affected ones had '
    'never been in the catalog or had been listed invalid. This holds '
    'whichever process owns them, also when a process loses all its targets.',
    ['inputs', 'fault_sequences', 'configurations', 'schedules'],
    'which targets, files and processes are affected, including all targets '
    'of a process, and read errors on input-continuum files at any moment',
    'The tests read complete files only and never a process with nothing '
    'left.',
    [IO, MODELS + 'input_continuum_model.py', FIT, SPEC],
    [('matching with warning on mismatch', IO),
     ('invalid flag per spectrum', SPEC)],
    ['chi2 catalog and deltas of the remaining targets'])

add('C14', 'Exposure products are complete and use the coadd continuum',
    'When exposures are requested after fitting, every exposure of every '
    'quasar with a valid coadd continuum that passes the same cuts is saved '
    'exactly once, labelled with its exposure number and observation '
    'identifiers, with the continuum of its own coadd at the same '
    'wavelengths and with its own flux and inverse-variance weights. '
    'Exposures requested before fitting are fitted and saved individually in '
    'the same way. This holds for several surveys and arms, and on '
    'processes without any valid quasar.',
    ['inputs', 'configurations', 'schedules'],
    'numbers and orders of exposures per target, surveys, arms present in '
    'the coadd but not in the exposure and vice versa, process counts',
    'There is no test of the exposure path.',
    [FIT, IO, SPEC],
    [('re-reading and matching by TARGETID and wavelength', FIT)],
    ['delta files of exposure runs against the reference model'])

add('C15', 'Saved continua, weights and chi2 follow the recorded functions',
    'Each saved continuum is the recorded mean continuum of the last '
    'iteration times the quasar\'s own recorded polynomial (or its true or '
    'input continuum) times the mean flux, positive everywhere (before '
    'the optional normalisation by the stacked flux), and the polynomial '
    'minimises the documented cost. Weights follow the documented '
    'formula from smoothed inverse variance, continuum, and the var_lss and '
    'eta in force (fiducial ones if supplied), and chi2 and degrees of '
    'freedom follow from them. The same global functions are used on every '
    'process.',
    ['inputs', 'configurations', 'schedules'],
    'option combinations (models, orders, fiducials, smoothing, coaddition, '
    'normalisation, eta calibration), process counts and interleavings',
    'Unit tests check formulas for one spectrum; that every process used the '
    'same, current functions in every iteration is not observable there.',
    [PC, SPEC, MODELS + 'picca_continuum_model.py',
     MODELS + 'input_continuum_model.py', MODELS + 'true_continuum_model.py',
     FIT],
    [('per-spectrum fit with shared interpolators', PC),
     ('weight formula', SPEC)],
    ['CONT, WEIGHT columns, chi2 catalog against attributes file'])

add('C16', 'Same command, same results',
    'Running the same program on the same inputs gives the same outputs '
    'every time: hash randomisation, the order in which the file system '
    'lists directories, the wall clock and its jumps, scheduling, and files '
    'left by an earlier run with the same process count have no influence '
    'beyond floating-point rounding.',
    ['schedules', 'configurations', 'inputs'],
    'hash seeds, directory listing orders, clocks, interleavings, all three '
    'programs and ambiguous inputs such as several accepted column or '
    'extension names',
    'A test run has one hash seed, one directory order and one clock.',
    [CAT, MASK, FIT, CAL, COA, SPEC],
    [('explicit sorting and ordered choices', CAT)],
    ['all outputs of repeated runs'])

add('C17', 'Masks and calibrations act alike on every process',
    'Noise and flux calibration scale flux and inverse variance by the '
    'tabulated functions, and every pixel inside a sky, BAL or DLA mask ends '
    'with zero inverse variance and zero weight, while every other good pixel '
    'keeps its value up to calibration and DLA-wing correction. This holds '
    'for every quasar on every process alike, arms left empty by masking are '
    'dropped, and spectra or arms left too short are not saved.',
    ['inputs', 'configurations', 'schedules'],
    'mask tables, BAL and DLA catalogs, calibration files, arms, process '
    'counts and interleavings',
    'The tests apply one mask to one spectrum; distribution of the tables to '
    'processes and combinations of masks, calibrations and arms are not '
    'reached.',
    [MASK, CALM, FIT, SPEC],
    [('tables read on master and broadcast', MASK),
     ('calibrators', CALM)],
    ['saved deltas against the reference model'])

add('C18', 'Inputs stay untouched; only documented outputs are written',
    'Whatever happens during a run (success, read or write errors, full disk, '
    'failed allocation, kill at any point), no program modifies, removes or '
    'opens for writing any of its input files, nor any unrelated file in or '
    'outside the output directory. The only files it creates or replaces are '
    'the documented outputs in the given output directory; the fitting '
    'program without an output directory writes nothing.',
    ['crash points', 'inputs', 'configurations', 'schedules'],
    'all programs and options, process counts, fault and kill points, '
    'contents of the output directory',
    'Tests run single functions in temporary directories without faults and '
    'never compare the directory tree before and after.',
    [FIT, CAL, COA, PC, SPEC],
    [('inputs opened read-only, fixed output names', FIT)],
    ['directory tree before and after', 'files opened for writing'])

add('C19', 'What one program writes is a complete input of the next',
    'The programs compose: deltas saved by the fitting program with any '
    'options and process count are read back in full by the coaddition and '
    'calibration programs (run with any other process count), coadded deltas '
    'likewise by the calibration program, and the calibration file, or the '
    'attributes file of a fit of the variance functions, is accepted by the '
    'fitting program as noise and flux calibration with exactly the recorded '
    'functions. Identity, sky position, wavelengths, blinding and '
    'signal-to-noise survive every stage; each stage\'s result is the '
    'documented function of the files the previous stage left.',
    ['histories', 'configurations', 'schedules', 'inputs'],
    'chains of programs, options of each stage, process counts, '
    'interleavings, data formats',
    'No test runs two programs in sequence; the file written by one is never '
    'the input of another there.',
    [FIT, CAL, COA, SPEC, CALM, IO],
    [('common delta format, written and read', SPEC),
     ('calibration tables by extension name', CALM)],
    ['outputs of every stage against the reference of its input files'])

add('C20', 'Interpolators and splines reproduce their definition',
    'Linear and cubic interpolation agree with the textbook definition for '
    'any table and any argument.',
    ['inputs'], 'all tables and arguments',
    'Tests sample a few tables.',
    [MT], [('explicit formulas', MT)], ['return values'])
add('C21', 'The damped-absorber profile follows the published formula',
    'The absorption profile used for DLA correction equals the '
    'Tepper-Garcia approximation for any redshift, column density and '
    'wavelength.',
    ['inputs'], 'all redshifts, column densities, wavelengths',
    'Tests sample a few values.',
    [MASK], [('explicit formulas', MASK)], ['return values'])
add('C22', 'Noise smoothing and outlier masks follow their definition',
    'Smoothed inverse variances and median outlier masks equal their '
    'documented definition for any input array.',
    ['inputs'], 'all input arrays', 'Tests sample a few arrays.',
    [MT], [('explicit formulas', MT)], ['return values'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
