"""Writes /verif/properties.jsonl (kept as a script only to keep the texts readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['observe_at'] = observe or ['user receive buffers after MPI_Wait']
    assert len(title) <= 80, title
    P.append(d)


PIPE = [('choice of ports, groups and copy-in', 'src/mpi/ext_mpi.c, src/core/ports_groups.c, src/mpi/num_ports_factors.c'),
        ('code generation passes', 'src/mpi/ext_mpi_native.c and the passes in src/core'),
        ('executor', 'src/mpi/ext_mpi_native_exec.c')]
TEST = ('The existing tests diff text dumps of single passes and run Allreduce on MPI_LONG for n=1..5 on one machine with one fixed fill; ')

p('C01', 'Allreduce delivers the sum of all contributions on every rank',
  'After a persistent allreduce (sum) has been started and waited for, every element of the receive buffer on every rank is the sum of that element over all ranks\' send buffers. It holds for every content of the buffers, any number of processes, any count and any placement of the processes on sockets and nodes.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; process counts, counts, types and placements of the stated bound; all process schedules',
  TEST + 'a wrong line, offset or omitted addend in another shape or for other values is invisible.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/core/allreduce_recursive.c', 'src/core/allreduce.c', 'src/core/allreduce_short.c', 'src/core/allreduce_single.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/core/raw_code.c', 'src/core/raw_code_tasks_node.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C02', 'Reduce delivers the sum of all contributions at the root',
  'After a persistent reduce (sum) every element of the receive buffer at the root is the sum of that element over all ranks\' send buffers, for any root. Send buffers of all ranks are unchanged.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; every root, process count, count, type and placement of the stated bound; all schedules',
  TEST + 'reduce is never executed with data at all.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/backward_interpreter.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C03', 'Broadcast delivers the root\'s buffer to every rank',
  'After a persistent broadcast every rank\'s buffer equals the buffer the root had when it started the operation, for any root.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; every root, process count, count, type and placement of the stated bound; all schedules',
  TEST + 'broadcast is never executed with data at all.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/forward_interpreter.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C04', 'Allgather and allgatherv deliver every rank\'s block to every rank',
  'After a persistent allgather or allgatherv every rank\'s receive buffer holds, at the place of rank q, exactly the block rank q sent, for every q. Block lengths may differ and may be zero.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; process counts, block lengths (unequal, zero), types and placements of the stated bound; all schedules',
  TEST + 'allgather is never executed with data; unequal and empty blocks never occur.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/core/allreduce_recursive.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C05', 'Gather and gatherv deliver every rank\'s block to the root',
  'After a persistent gather or gatherv the root\'s receive buffer holds, at the place of rank q, exactly the block rank q sent, for every q and any root. Block lengths of gatherv may differ and may be zero.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; every root, process count, block length, type and placement of the stated bound; all schedules',
  TEST + 'gather is never executed with data.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/backward_interpreter.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C06', 'Scatter and scatterv deliver each rank its block of the root\'s buffer',
  'After a persistent scatter or scatterv every rank\'s receive buffer holds exactly the block of the root\'s send buffer meant for it, for any root. Block lengths of scatterv may differ and may be zero.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; every root, process count, block length, type and placement of the stated bound; all schedules',
  TEST + 'scatter is never executed with data.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/forward_interpreter.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C07', 'Reduce_scatter(_block) delivers each rank the sum of its block',
  'After a persistent reduce_scatter or reduce_scatter_block (sum) every element of rank r\'s receive buffer is the sum over all ranks of the corresponding element of block r of the send buffers. Block lengths may differ and may be zero.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; process counts, block lengths, types and placements of the stated bound; all schedules',
  TEST + 'reduce_scatter is never executed with data.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/core/allreduce_recursive.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/ext_mpi_native_exec.c'], PIPE)
p('C08', 'Collectives touch only the memory they own',
  'Executing a persistent collective never reads or writes outside the user\'s send and receive buffers and the library\'s own live allocations. It never changes a send buffer, nor elements of the receive buffer that do not belong to the result.',
  ['inputs', 'configurations'], 'all buffer contents; the counts that stress padding (odd, smaller than the number of processes, zero, one element), all collectives, types and placements of the stated bound',
  'An overrun by a few bytes into padding, a neighbouring user variable or another rank\'s part of the shared segment does not change the value a test compares.',
  ['src/mpi/ext_mpi_native.c', 'src/mpi/ext_mpi_native_exec.c', 'src/mpi/padding_factor.c', 'src/core/buffer_offset.c', 'src/mpi/shmem.c', 'src/core/raw_code.c'],
  [('line and padding arithmetic', 'src/mpi/padding_factor.c, src/core/buffer_offset.c, generate_byte_code in src/mpi/ext_mpi_native.c'), ('segment sizes', 'src/mpi/ext_mpi_native.c, src/mpi/shmem.c')],
  ['addresses accessed during execution', 'user buffers'])
p('C09', 'Repeated starts of a persistent collective stay independent',
  'A persistent collective can be started any number of times, and every start computes its result from the buffer contents at that start. A fast process that already runs the next start never disturbs a slow process that still finishes the previous one.',
  ['histories', 'schedules', 'inputs'], 'sequences of up to 6 starts with fresh data each, alternation on or off, all schedules and buffer contents; all collectives and placements of the stated bound',
  'Reuse of shared buffers, flags and message tags by consecutive starts is only wrong for particular timings of two starts.',
  ['src/mpi/ext_mpi_native.c', 'src/mpi/ext_mpi_native_exec.c', 'src/mpi/clean_barriers.c', 'src/core/no_first_barrier.c'],
  [('alternating second buffer set and swap at start', 'EXT_MPI_Start_native and EXT_MPI_Allreduce_init_native in src/mpi/ext_mpi_native.c'), ('barriers', 'src/mpi/ext_mpi_native_exec.c'), ('barrier elision', 'src/mpi/clean_barriers.c, src/core/no_first_barrier.c, src/core/no_socket_barriers.c')],
  state=[('barrier counters', 'monotone counter per process in shared memory', 'src/mpi/ext_mpi_native_exec.c'), ('shared staging buffers', 'one or two sets per operation', 'src/mpi/shmem.c')])
p('C10', 'Results do not depend on process scheduling',
  'Any two processes of a node that access the same shared memory, with at least one of them writing, are ordered by the library\'s own synchronisation, or the order makes no difference to any result. No interleaving of the processes and no order of message delivery changes what a collective computes.',
  ['schedules'], 'all interleavings of all processes of a node and all message timings; the collectives, sizes and placements of the stated bound',
  'Missing barriers show only under rare timings; the tests run one schedule on an idle machine.',
  ['src/mpi/ext_mpi_native_exec.c', 'src/mpi/clean_barriers.c', 'src/core/no_socket_barriers.c', 'src/core/no_first_barrier.c', 'src/core/optimise_buffers.c', 'src/core/raw_code_tasks_node.c', 'src/core/move_first_memcpy.c', 'src/mpi/messages_shared_memory.c'],
  [('socket and node barriers', 'src/mpi/ext_mpi_native_exec.c'), ('placement and elision of barriers', 'src/core/raw_code_tasks_node.c, src/mpi/clean_barriers.c, src/core/no_socket_barriers.c, src/core/no_first_barrier.c')],
  ['every access to shared memory', 'user receive buffers'])
p('C11', 'No collective deadlocks or loses a message',
  'Every started collective finishes on every process: each message that is sent is received by a matching receive of the same length, and no set of processes can wait for each other in a cycle. It holds for every number of processes, including primes and numbers that are not products of the chosen ports.',
  ['schedules', 'configurations'], 'process counts up to 24 (several nodes), all collectives, port choices of the library, all schedules',
  'The tests run at most 5 processes on one node; mismatched lengths, tags or partners appear only at particular process counts and ports.',
  ['src/core/allreduce_recursive.c', 'src/core/allreduce.c', 'src/core/raw_code.c', 'src/core/recursive_factors.c', 'src/core/prime_factors.c', 'src/mpi/num_ports_factors.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/ext_mpi_native_exec.c'],
  [('partners, fractions and tags', 'src/core/allreduce_recursive.c, src/core/raw_code.c'), ('message posting and waiting', 'src/mpi/ext_mpi_native_exec.c')],
  ['completion of MPI_Wait on every rank', 'messages'])
p('C12', 'Completion tests never block and report exactly completion',
  'Testing a started collective returns without waiting for another process, whatever the other processes do. It reports completion only when the receive buffer is final, and repeated testing reports completion eventually, with the same result as waiting.',
  ['schedules', 'histories'], 'all positions at which a test can find other processes, all schedules; tests repeated until done and tests mixed with waits; all collectives and placements of the stated bound',
  'No test calls MPI_Test; where a test stops and resumes depends on timing.',
  ['src/mpi/ext_mpi_native_exec.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_interface.c'],
  [('resumable interpretation with non-blocking barriers', 'ext_mpi_exec_native in src/mpi/ext_mpi_native_exec.c'), ('progress and done state', 'EXT_MPI_Test_native in src/mpi/ext_mpi_native.c')],
  ['flag of MPI_Test', 'user receive buffers'])
p('C13', 'Sums do not depend on arrival order; ranks agree where sums are shared',
  'With bit reproducibility (the default) the order of the additions of every reduction is fixed by the configuration: repeating it gives bit-identical results whatever the arrival order of messages or the schedule. Where an allreduce adds each element at one place and distributes the sum (one node, or reduce-scatter followed by allgather ports), all ranks obtain bit-identical results, for every floating point input.',
  ['inputs', 'schedules', 'configurations'], 'addition treated as an arbitrary commutative function (hence every floating point input and rounding); all arrival orders of the stated bound; allreduce, reduce, reduce_scatter(_block)',
  'Rounding differences need particular floating point values and a particular arrival order; the tests use integers.',
  ['src/mpi/ext_mpi.c', 'src/core/waitany.c', 'src/core/allreduce_recursive.c', 'src/mpi/ext_mpi_native_exec.c', 'src/mpi/ext_mpi_native.c'],
  [('wait-any reordering only when reproducibility is off', 'src/core/waitany.c, src/mpi/ext_mpi_native.c'), ('port choice', 'src/mpi/ext_mpi.c')],
  ['bits of the receive buffers'])
p('C14', 'Tuning settings never change results',
  'Whatever valid ports, copy-in factors, alternation, recursion, processes per socket or copy-in method a user sets through the environment or the communicator\'s info, every collective still computes its specified result. Settings given as info keys act like the environment variables of the same name.',
  ['configurations', 'inputs', 'schedules'], 'the documented settings over the stated value sets, via environment and info, all collectives; all buffer contents and schedules',
  'The tests never combine settings; each setting selects other generated programs.',
  ['src/mpi/ext_mpi.c', 'src/core/ports_groups.c', 'src/core/recursive_factors.c', 'src/mpi/cost_copyin_measurement.c', 'src/core/reduce_copyin.c'],
  [('reading of settings', 'read_env_options, read_env and the *_init_general functions in src/mpi/ext_mpi.c'), ('ports and groups notation', 'src/core/ports_groups.c')])
p('C15', 'Several persistent collectives can be in flight at once',
  'Any number of persistent collectives on the same communicator may be initialised and started together and completed in any order that is the same on all processes. Each one computes its own result as if it were alone.',
  ['histories', 'schedules', 'inputs'], 'two or three handles of all kinds, interleaved starts, waits and tests; all schedules and buffer contents',
  'No test has two operations in flight; shared tags, segments or barriers between handles corrupt only then.',
  ['src/mpi/ext_mpi_native.c', 'src/mpi/shmem.c', 'src/mpi/ext_mpi_native_exec.c'],
  [('handle table, tags and shared segments per handle', 'get_handle, EXT_MPI_*_init_native in src/mpi/ext_mpi_native.c; src/mpi/shmem.c')])
p('C16', 'Any communicator and any mapping of ranks to nodes works',
  'Collectives on a duplicated, reordered or split communicator, and on any division of the processes into equally filled nodes, compute the result defined by the ranks of that communicator. Disjoint communicators do not influence each other.',
  ['configurations', 'inputs', 'schedules'], 'reversed, rotated, duplicated and split communicators; every number of processes per node dividing the size; all buffer contents and schedules',
  'The tests use only MPI_COMM_WORLD on one node.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/core/rank_permutation.c', 'src/mpi/shmem.c'],
  [('row and column communicators, global rank list', 'src/mpi/ext_mpi.c, src/mpi/ext_mpi_native.c'), ('rank permutation', 'src/core/rank_permutation.c')])
p('C17', 'Every basic datatype is moved and reduced correctly',
  'Data movement collectives work for every contiguous basic datatype, whatever its size, and sum reductions work for float, double, int and long with the arithmetic of that type (wrap-around for integers).',
  ['inputs', 'configurations'], 'all buffer contents; char, byte, short, unsigned, int, long, float, double for data movement; int, long, float, double for reductions; all collectives of the stated bound',
  'The tests use only MPI_LONG.',
  ['src/mpi/ext_mpi_native.c', 'src/mpi/ext_mpi_native_exec.c', 'src/mpi/ext_mpi.c'],
  [('type dispatch of reductions', 'src/mpi/ext_mpi_native_exec.c, get_size_key / EXT_MPI_*_init in src/mpi/ext_mpi_native.c')])
p('C18', 'In-place operation works as MPI defines it',
  'With MPI_IN_PLACE the contribution is taken from the receive buffer where MPI defines it so, and the result is the same as with separate buffers. Parts of the buffer that MPI does not let the operation change stay unchanged.',
  ['inputs', 'configurations', 'schedules'], 'all buffer contents; in-place allreduce, reduce (root), allgather(v), gather(v) and scatter(v) (root), reduce_scatter(_block); process counts, counts and placements of the stated bound',
  'No test uses MPI_IN_PLACE with data.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_interface.c', 'src/mpi/ext_mpi_native.c', 'src/core/use_recvbuf.c', 'src/core/use_sendbuf_recvbuf.c'],
  [('in-place conversion', 'src/mpi/ext_mpi.c'), ('copy elision', 'src/core/use_recvbuf.c, src/core/use_sendbuf_recvbuf.c')])
p('C19', 'Nodes with several sockets compute the same results',
  'Declaring several sockets per node changes only the way a collective is performed: every collective still computes its specified result, without invalid accesses or deadlock.',
  ['configurations', 'inputs', 'schedules'], 'two or three sockets per node, processes per socket and nodes of the stated bound; all collectives, buffer contents and schedules',
  'One baseline run uses two sockets, with one allreduce and one fill.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_native.c', 'src/core/optimise_multi_socket.c', 'src/core/raw_code_tasks_node_master.c', 'src/mpi/shmem.c'],
  [('socket structure', 'num_sockets_per_node handling in src/mpi/ext_mpi.c and src/mpi/ext_mpi_native.c'), ('socket optimisation', 'src/core/optimise_multi_socket.c')])
p('C20', 'Freeing and re-creating collectives is safe',
  'Persistent collectives can be freed and created again in any order without leaving the remaining or new ones with wrong results, stale memory or reused live resources. Creation itself leaves memory that does not belong to the operation\'s buffers unchanged.',
  ['histories', 'inputs', 'schedules'], 'init, start, wait, free, init sequences over one or two handles; all buffer contents and schedules of the stated bound',
  'Tests create one operation, free it once and exit.',
  ['src/mpi/ext_mpi_native.c', 'src/mpi/shmem.c', 'src/mpi/ext_mpi_interface.c', 'src/mpi/cost_copyin_measurement.c'],
  [('handle release', 'EXT_MPI_Done_native, get_handle in src/mpi/ext_mpi_native.c'), ('segment release', 'src/mpi/shmem.c'), ('measurement at creation', 'src/mpi/cost_copyin_measurement.c')],
  ['user buffers', 'library allocations'])
p('C21', 'Arguments MPI calls insignificant at a rank are never used',
  'In a gather, scatter or reduce (with or without vector counts) the receive or send buffer, counts, displacements and datatype that MPI declares significant only at the root may be anything at the other ranks, including null. The collective works as if they had been passed correctly everywhere.',
  ['inputs', 'configurations', 'schedules'], 'null buffers, null count lists and null datatypes at all ranks but the root; reduce, gather(v), scatter(v), also in place; process counts, counts and placements of the stated bound; all buffer contents and schedules',
  'No test calls a rooted collective with data, and the callers pass all arguments on every rank.',
  ['src/mpi/ext_mpi.c', 'src/mpi/ext_mpi_interface.c', 'src/mpi/ext_mpi_native.c'],
  [('argument handling', 'ext_mpi_gatherv_init_general, ext_mpi_scatterv_init_general, ext_mpi_reduce_init_general in src/mpi/ext_mpi.c; MPI_Gather(v)_init and MPI_Scatter(v)_init in src/mpi/ext_mpi_interface.c')])
p('R01', 'Request families treat mixed lists of requests as MPI does',
  'Start(all), wait, test, wait/test any, some and all accept lists that mix persistent collectives of this library with any other requests, including inactive ones. Each active collective in the list is progressed and reported exactly once with its own index, the others are passed to the MPI library, and no call reports completion of something unfinished.',
  ['inputs', 'histories'], 'all lists of up to 3 requests, each native, foreign, inactive or null, and every completion outcome of each',
  'No test calls a multi-request function.',
  ['src/mpi/ext_mpi_interface.c', 'src/mpi/hash_table.c'],
  [('interception of MPI request functions', 'src/mpi/ext_mpi_interface.c'), ('request to handle map', 'src/mpi/hash_table.c')], ['flags, indices and counts returned'])
p('R02', 'The request and communicator tables behave as maps',
  'Looking a key up after any sequence of insertions and removals returns the value last stored for that key, or "not found" if there is none, and always terminates. Growth keeps every entry.',
  ['histories', 'inputs'], 'all sequences of up to the stated number of operations with arbitrary keys, including colliding ones, starting from tables of every fill level',
  'Tests hold at most a handful of requests, so collisions, deletions inside a probe chain and growth never happen.',
  ['src/mpi/hash_table.c', 'src/mpi/hash_table_blocking.c'],
  [('open addressing with growth', 'src/mpi/hash_table.c, src/mpi/hash_table_blocking.c')], ['value returned by the search function'])
p('S01', 'A collective works after any number of starts, also across counter wrap-around',
  'A persistent collective can be started an unlimited number of times. Whatever values the barrier counters and flags in the shared memory have reached (they are 32-bit and wrap around), and whatever earlier starts left in the shared buffers, the next starts deliver the results MPI defines: no process leaves a barrier before all processes of its node have entered it, all can leave once all have entered, and the blocking and the testing form agree. The processes of a node advance their counters by the same amount in every start, so they never drift apart.',
  ['schedules', 'histories', 'inputs'], 'all 2^32 counter values, all earlier contents of the shared buffers, all schedules and buffer contents; six consecutive starts completed by waits or tests; process counts, counts, placements and settings of the stated bound',
  'Counter wrap-around needs 2^31 barriers; early leaving needs a particular interleaving.',
  ['src/mpi/ext_mpi_native_exec.c', 'src/core/byte_code.c', 'src/mpi/clean_barriers.c', 'src/core/no_first_barrier.c'],
  [('barrier functions', 'node_barrier, socket_barrier(_test), socket_barrier_atomic_set/wait/test in src/mpi/ext_mpi_native_exec.c'), ('counters', 'header_byte_code in include/core/byte_code.h')], ['user receive buffers', 'barrier counters'])
p('T01', 'Port and copy-in settings survive printing and parsing',
  'A list of ports and groups, or of copy-in factors, that is printed in the textual notation and parsed again is the same list. Parsing accepts every spelling the notation allows and never reads or writes outside its arguments.',
  ['inputs'], 'all lists up to the stated length and value range',
  'The tests never print and parse back; lengths and signs at the limits never occur.',
  ['src/core/ports_groups.c'], [('notation', 'src/core/ports_groups.c')], ['the parsed list'])
p('T02', 'Chosen ports and groups always cover the communicator',
  'For every number of processes the library chooses ports and groups whose factors cover all the nodes of the communicator, and factor lists computed for any size multiply out to that size.',
  ['inputs', 'configurations'], 'every size of the stated range, all collectives',
  'The tests choose sizes by hand.',
  ['src/core/prime_factors.c', 'src/core/recursive_factors.c', 'src/mpi/num_ports_factors.c', 'src/core/ports_groups.c'],
  [('factorisation', 'src/core/prime_factors.c, src/core/recursive_factors.c')], ['factor lists'])
p('T03', 'The generated plan survives its textual and binary representations',
  'Every line of an algorithm description that is written and read back is the same line, and parameters of a plan are preserved by writing and reading. Reading never accesses memory outside the representation.',
  ['inputs'], 'all parameter and line values within the stated sizes',
  'The tests feed fixed files.',
  ['src/core/read_write.c'], [('reader and writer', 'src/core/read_write.c')], ['values read back'])
p('D01', 'The self check at creation accepts every correct collective',
  'With the self check enabled (the default) creating a collective succeeds for every valid call, and leaves the results of the collective unaffected.',
  ['configurations', 'inputs'], 'all collectives, types, process counts and placements of the stated bound',
  'The tests run the self check only for allreduce of MPI_LONG.',
  ['src/mpi/debug_persistent.c', 'src/mpi/ext_mpi.c'], [('self check', 'src/mpi/debug_persistent.c')], ['return of the init call', 'user receive buffers'])
p('B01', 'Blocking collectives behave like their persistent counterparts',
  'When the blocking mode is enabled, blocking allreduce, reduce_scatter_block and allgather on initialised communicators compute the results MPI defines, for every count.',
  ['inputs', 'schedules', 'configurations'], 'all buffer contents and counts of the stated bound',
  'The blocking mode is never enabled in a test.',
  ['src/mpi/ext_mpi_blocking.c', 'src/mpi/ext_mpi_native_blocking.c', 'src/mpi/ext_mpi_native_exec.c', 'src/mpi/ext_mpi_interface.c'],
  [('blocking mode', 'src/mpi/ext_mpi_native_blocking.c')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
