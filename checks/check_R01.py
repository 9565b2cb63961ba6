"""R01: request operations (start, wait, test, free in all their forms) follow the MPI definition for every mix of requests."""
import bmc
import bmc_check
import common

OPS = ['start', 'startall', 'wait', 'waitall', 'waitany', 'waitsome', 'test', 'testall', 'testany', 'testsome', 'get_status', 'free', 'create']


def job(name, n, steps, lo, hi, lo2=0, hi2=12, t=2, twin=False, limit=400):
    R = common.REPO
    defs = ['FMPI_INT_REQUEST', 'N=%d' % n, 'STEPS=%d' % steps, 'OPLO=%d' % lo, 'OPHI=%d' % hi, 'OP2LO=%d' % lo2, 'OP2HI=%d' % hi2, 'T=%d' % t]
    return bmc.Job(name, [bmc.HARN + '/cbmc/r01.c', R + '/src/mpi/ext_mpi_interface.c'], [bmc.HARN + '/cbmc', bmc.HARN + '/fmpi', R + '/include/core', R + '/include/mpi'],
                   defs + (['TWIN'] if twin else []), bounds={'harness.0': 300}, limit=limit)


def main(tier, seed):
    jobs = []
    for i, o in sorted(enumerate(OPS), key=lambda x: x[0] not in (4, 5, 9)):
        jobs.append(job('%s, 3 requests' % o, 3, 1, i, i))
        jobs.append(job('%s then any, 2 requests' % o, 2, 2, i, i))
    if tier == 'thorough':
        for i, o in enumerate(OPS):
            jobs.append(job('%s then any, 3 requests' % o, 3, 2, i, i, limit=3600))
            jobs.append(job('%s, 4 requests' % o, 4, 1, i, i, t=3, limit=3600))
            for k, q in enumerate(OPS):
                jobs.append(job('%s, %s, %s ..., 2 requests' % (o, q, q), 2, 3, i, i, k, k, limit=3600))
    twins = [job('witness', 2, 1, 0, 12, twin=True), job('witness 2', 2, 2, 7, 7, twin=True)]
    return bmc_check.run('R01', 'Start, wait, test, free and status of lists of collective, persistent, one-shot and null requests against the MPI definition', jobs, tier,
                         700 if tier == 'quick' else 7200,
                         dict(requests='up to 3 (thorough 4), every kind (null, persistent, one-shot, collective of any family), state, list order and list length',
                              calls='one call from every state; two (thorough three) calls in a row of every kind', completion='every request completes at any poll, at most 2 (3) polls after its start'),
                         ['the MPI library and the handles behave as modelled in harness/cbmc/r01.c (MPI definition; every request becomes complete eventually)',
                          'the request table behaves as a map (decided by R02)', 'no blocking mode; calls that MPI calls erroneous are excluded (starting or freeing an active request)',
                          'allocation does not fail'], twins)
