"""Checks outside the engine, and reasons for what has no check."""
CB = 'bounded model checking (CBMC, SAT) of the real C functions with symbolic inputs and states'


def cb(note):
    return dict(technique=CB, level='other', level_note=note)


OTHER = {
    'R01': cb('ext_mpi_interface.c against a model of MPI requests: every kind, state and completion time of up to 3 (4) requests, one to three calls; the counterexamples are replayed natively.'),
}
NA = {
    'B01': 'The blocking mode cannot be entered: EXT_MPI_BLOCKING leads through ext_mpi_native_export, which assigns to its own parameters, so the handle tables of the blocking layer stay empty and initialisation fails before any code that computes a result; there is nothing to decide until the feature is finished.',
}
