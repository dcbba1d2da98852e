"""Static facts about each check (case counts, assumptions, evidence text)."""

REAL_FIT = ['qsonic.scripts.qsonic_fit and every module it imports',
            'fitsio/cfitsio reading and writing real files',
            'numpy, scipy, iminuit, healpy, astropy']
STUB = ['MPI (in-process simulated communicator)', 'clock and sleep',
        'directory listing order', 'input survey (synthetic)',
        'numba.njit (identity decorator where numba is absent)',
        'variance-fitter default sizes (scaled to the small survey)']
REAL_CAL = ['qsonic.scripts.qsonic_calib and every module it imports'] \
    + REAL_FIT[1:]
REAL_COADD = ['qsonic.scripts.qsonic_coadd_deltas and every module it imports',
              'pool workers as real forked processes, one step at a time'] \
    + REAL_FIT[1:]
ASSUME = ['processes interact only through MPI calls and files, so switching '
          'at those seams covers their interleavings',
          'small synthetic surveys (about 20 quasars) expose the same '
          'behaviour as large ones',
          'a clean batch is evidence, not proof']
FITRULE = ('A case is a random synthetic survey, random options, 1-5 '
           'processes, a random schedule policy and seed; ')

META = {}


def add(id, quick, thorough, rule, real=REAL_FIT, stub=STUB, extra=()):
    META[id] = dict(quick=quick, thorough=thorough, rule=rule, real=real,
                    stub=stub, assumptions=ASSUME + list(extra))


add('C15', 320, 4000, FITRULE + 'the saved continua, weights and chi2 are '
    'recomputed from the recorded functions.')
add('C05', 320, 4000, FITRULE + 'delta files and chi2 catalog are compared '
    'with the set of spectra the reference model expects.')
add('C06', 320, 4000, FITRULE + 'every saved delta is compared pixel by pixel '
    "with the reference model's treatment of that quasar's own input rows.")
add('C07', 320, 4000, FITRULE + 'observing nights are distributed over groups '
    'and processes around the blinding thresholds.')
add('C12', 320, 4000, FITRULE + 'the attributes file is compared with the '
    'history rules and with statistics recomputed from the saved deltas.')
add('C14', 280, 3000, FITRULE + 'with exposures before or after fitting.')
add('C17', 320, 4000, FITRULE + 'with random masks and calibrations.')
API = ['the named functions of qsonic, called from every simulated process',
       'fitsio/cfitsio reading real files', 'numpy, healpy, astropy']
add('C01', 2400, 40000, 'A case is a random catalog file (valid or damaged), '
    '1-12 processes, a random schedule, and in a quarter of the cases an I/O '
    'error or failed allocation at a seam event of the master; the queues of '
    'all processes are compared with the selected rows.', real=API)
add('C02', 1600, 30000, 'A case is a sequence of 1-4 master-only operations '
    '(functions of every kind returning or raising anything, option parsing, '
    'catalog/mask/calibration readers over good and damaged files) on 1-6 '
    'processes, with read errors and failed allocations at seam events of the '
    'master; one case in ten runs the whole fitting program while one of its '
    'master-only inputs fails.', real=API + REAL_FIT[:1])

add('C09', 600, 12000, 'A case is a random directory of delta files (1-9 '
    'files, empty ones, compressed ones, several column conventions, decoys), '
    'random removal options, 1-7 processes, a random schedule and directory '
    'order; the written statistics, stacked flux and variance functions are '
    'recomputed from all deltas that the options keep.', real=REAL_CAL)
add('C10', 800, 16000, 'A case is 1-3 directories of delta files in which '
    'targets occur once or several times (arms, repeats, gaps, masked '
    'stretches, several grids and column conventions), 1-5 pool workers with '
    'a random task and step schedule, a random directory order, and in a '
    'third of the cases an I/O error, full disk or failed allocation in any '
    'worker; the outputs are compared with an independent coadd.',
    real=REAL_COADD, stub=['multiprocessing.Pool scheduling (workers are real '
                           'forks, stepped one at a time)',
                           'clock', 'directory listing order',
                           'input deltas (synthetic)'])
add('C03', 480, 8000, 'A case is a random fit (three in four) or calibration '
    'job of 1-7 processes; an undisturbed run gives the list of seam events, '
    'then the job is run again under another schedule with an I/O error at '
    'one of them, a disk that is full from there on, or a failed allocation '
    '(also inside message passing), on any process; a fifth have two faults. '
    'The job must end; if it reports success its outputs must be those of the '
    'undisturbed run.', real=REAL_FIT[:1] + REAL_CAL)
add('C04', 240, 3000, FITRULE + 'the same job is run with one process and '
    'with 2-6 (a third of them under two schedules); all outputs are compared '
    'value by value.')
add('C08', 400, 6000, 'A case is a random fit (three in four), calibration or '
    'coaddition job; an undisturbed run gives the list of seam events; the '
    'job is then killed one to three times in the same directory, each time '
    'at one of these events, all processes within 0-40 further steps, with '
    'open output files torn (sometimes over the complete outputs of an '
    'earlier run); then the same command is run to the end. It must succeed '
    'and leave the files and values of the undisturbed run.',
    real=REAL_FIT[:1] + REAL_CAL + REAL_COADD)
add('C11', 3000, 60000, 'A case is a history of add / read / fit / write / '
    'reset calls on 1-3 statistics objects (variance fitter, flux stacker, '
    'jackknife subsampler; with and without communicator), the collective '
    'calls the same on 1-6 processes, the spectra split between them at random '
    '(also none on some), under a random schedule; every value read is '
    'compared with direct sums over the spectra added since the last reset.',
    real=['VarLSSFitter, FluxStacker and SubsampleCov of qsonic',
          'numpy, scipy'], stub=['MPI (in-process simulated communicator)',
                                 'spectra (synthetic)',
                                 'numba.njit (identity decorator where numba '
                                 'is absent)'])
add('C16', 320, 5000, 'A case is a random fit (five in eight), calibration or '
    'coaddition command on random inputs (also files that satisfy several '
    'accepted conventions at once); it runs once, and once more in an '
    'interpreter with another hash seed, under another schedule, directory '
    'order, start time and process clock offsets, with clock jumps of up to '
    'three years either way, in a third of the cases on top of the outputs of '
    'an earlier run of the same or a similar command; all outputs are '
    'compared.', real=REAL_FIT[:1] + REAL_CAL + REAL_COADD)
add('C13', 300, 4000, FITRULE + 'targets are missing from their files (also '
    'every target of a group, with a process of its own), or input-continuum '
    'files are missing, damaged, unreadable (an injected read error on one '
    'process), lack targets or hold unusable continua; the outputs are '
    'compared with those of a single process whose catalog never had the '
    'affected targets.')
add('C18', 320, 5000, 'A case is a random fit (five in eight), calibration or '
    'coaddition job in a directory that also holds files of somebody else '
    '(also next to the outputs); it runs undisturbed and, in most cases, '
    'again with an I/O error, full disk, failed allocation or kill at a '
    'random seam event; the whole directory tree is hashed before and after, '
    'and every file opened for writing is recorded.',
    real=REAL_FIT[:1] + REAL_CAL + REAL_COADD)
add('C19', 200, 3000, 'A case is a random survey that is fitted, the deltas '
    'coadded, the deltas or coadded deltas calibrated (with random removals '
    'by list or by the same catalog), and the survey fitted again with the '
    'calibration file or the attributes file of the first fit as noise and '
    'flux calibration, each stage with its own process count and schedule; '
    'every stage is compared with the reference computed from the files '
    'the previous one left.', real=REAL_FIT[:1] + REAL_CAL + REAL_COADD)
