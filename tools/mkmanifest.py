"""Write MANIFEST.json from the list of implemented checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Seeded search over simulated runs of the real code: a clean batch is '
        'evidence for the explored surveys, options, schedules and faults, not '
        'a proof. Trusts the simulated MPI/pool semantics, the synthetic '
        'surveys and the independent reference model in /verif/sim.')
TECH = {
    'C01': 'deterministic simulation of all processes reading damaged and good catalogs with injected read errors; queues compared with the catalog',
    'C02': 'deterministic simulation of master-only operations with injected failures on seeded schedules',
    'C03': 'deterministic simulation with I/O errors, full disk and failed allocations at every seam event of any process',
    'C04': 'deterministic simulation: same job under different process counts and schedules, outputs compared',
    'C05': 'deterministic simulation of whole fits; outputs against a reference model, writers recorded',
    'C06': 'deterministic simulation of whole fits; each saved delta against a reference model',
    'C07': 'deterministic simulation with nights distributed over processes; labels in all files',
    'C08': 'deterministic simulation with kill and torn writes at any seam event, then rerun compared with a clean run',
    'C09': 'deterministic simulation of the calibration program; statistics recomputed from all kept deltas',
    'C10': 'deterministic simulation of the coaddition pool with injected worker faults; outputs against a reference coadd',
    'C11': 'deterministic simulation of operation histories on several processes against a sequential model',
    'C12': 'deterministic simulation of whole fits; attributes history and statistics recomputed',
    'C13': 'deterministic simulation with missing targets and lost continuum files, compared with a run that never had them',
    'C14': 'deterministic simulation of whole fits with exposures against a reference model',
    'C15': 'deterministic simulation of whole fits; continua, weights, chi2 recomputed from recorded functions',
    'C16': 'deterministic simulation repeated under other hash seeds, directory orders, clocks and leftovers; outputs compared',
    'C18': 'deterministic simulation of every program with faults and kills in a directory with foreign files; whole tree hashed before and after',
    'C19': 'deterministic simulation of chains of programs, each stage compared with a reference computed from the files of the previous one',
    'C17': 'deterministic simulation of whole fits with masks and calibrations against a reference model',
}
NA = {
    'C20': 'pure function of its arguments: no concurrency, time, I/O or multi-party behaviour for a simulator to control',
    'C21': 'pure function of its arguments: no concurrency, time, I/O or multi-party behaviour for a simulator to control',
    'C22': 'pure function of its arguments: no concurrency, time, I/O or multi-party behaviour for a simulator to control',
}


def main():
    checks, na = [], [dict(property=k, reason=v) for k, v in NA.items()]
    for c in sorted(TECH):
        if not os.path.exists(os.path.join(ROOT, 'props', c.lower() + '.py')):
            na.append(dict(property=c, reason='check not built yet'))
            continue
        checks.append(dict(
            property=c, quick_cmd=f'bin/check {c} --tier quick',
            thorough_cmd=f'bin/check {c} --tier thorough',
            technique=TECH[c], level='exploration', level_note=NOTE))
    m = dict(version=1, setup_cmd='bin/selftest', checks=checks,
             not_applicable=na,
             notes='No hooks in /repo: the seams are the MPI module, '
             'multiprocessing.Pool, fitsio, the os/io layer and the clock, '
             'all replaced from outside.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
