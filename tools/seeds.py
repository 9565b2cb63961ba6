T1 = '"EXT_MPI_NUM_TASKS_PER_SOCKET=1"'
T2 = '"EXT_MPI_NUM_TASKS_PER_SOCKET=2"'
T3 = T1.replace('=1', '=3')
T4 = T1.replace('=1', '=4')
NX = 'src/mpi/ext_mpi_native_exec.c'
N = 'src/mpi/ext_mpi_native.c'
SEEDS = [
 dict(id='barrier_merge_max', prop='C10', needs='a process that is slow in a copy between two barriers that other processes of its node reach without work in between',
  what='adjacent barriers are merged when any rank of the socket sees them adjacent (MAX instead of MIN): a barrier that orders the copies of one process is dropped',
  edits=[('src/mpi/clean_barriers.c', '&flag2, 1, MPI_INT, MPI_MIN, comm_rowl);', '&flag2, 1, MPI_INT, MPI_MAX, comm_rowl);')],
  runs=['8 "EXT_MPI_NUM_TASKS_PER_SOCKET=2 EXT_MPI_ALTERNATING=0" bcast 5 long 3 nobar=1 starts=12 slow=%d,50000,%d' % (r, k) for r, k in ((3, 2), (2, 3), (3, 4))]),
 dict(id='testall_last', prop='C12', needs='MPI_Test while the messages of one partner have arrived and those of another have not',
  what='the completion test looks at the last request only and then waits for the others: MPI_Test blocks',
  edits=[(NX, 'PMPI_Testall(i1, (MPI_Request *)p1, &i2, MPI_STATUSES_IGNORE);\n        if (!i2) {\n          return (0);', 'PMPI_Testall(1, (MPI_Request *)p1 + (i1 > 0 ? i1 - 1 : 0), &i2, MPI_STATUSES_IGNORE);\n        if (!i2) {\n          return (0);')],
  runs=['3 %s allreduce 7 long 0 starts=2 test=1 late=1' % T1, '2 %s allreduce 7 long 0 starts=2 test=1 late=1' % T1]),
 dict(id='tag_reused', prop='C15', needs='two collectives in flight whose processes progress them in different orders',
  what='all collectives get the same message tag, so messages of two collectives in flight can be exchanged',
  edits=[(N, 'tag_max = tag + 1;', 'tag_max = tag;')],
  runs=['2 %s allreduce 7 long 0 starts=10 test=1 second=allreduce' % T1, '4 %s allreduce 7 long 0 starts=20 test=50 second=allgather' % T1]),
 dict(id='grow_loses_active', prop='C15', needs='a collective that is started while the 51st collective is created',
  what='growing the table of collectives forgets which of them are started: the wait returns without having done anything',
  edits=[(N, 'execution_pointer[i] = execution_pointer_old[i];', 'execution_pointer[i] = NULL;')], src='demo_many.c', runs=['3 "" 3 52']),
 dict(id='grow_loses_last', prop='C20', needs='more than 50 collectives at the same time',
  what='growing the table of collectives does not copy the last entry: that collective vanishes',
  edits=[(N, 'for (i = 0; i < handle_code_max / 2; i++) {', 'for (i = 0; i < handle_code_max / 2 - 2; i++) {')], src='demo_many.c', runs=['3 "" 53 0']),
 dict(id='row_rank', prop='C16', needs='a communicator whose ranks differ from the ranks in MPI_COMM_WORLD',
  what='messages are addressed by the rank in the communicator of the collective instead of the rank in the world',
  edits=[(N, '} else {\n    MPI_Comm_rank(ext_mpi_COMM_WORLD_dup, &grank);', '} else {\n    MPI_Comm_rank(comm_row, &grank);')],
  runs=['4 %s allreduce 7 long 0 color=2' % T1, '4 %s allgather 3 int 0 color=-1' % T1]),
 dict(id='perm_sizes', prop='C04', needs='different block lengths on three or more nodes',
  what='the message sizes of the permuted ranks are taken in the wrong direction of the permutation',
  edits=[('src/core/rank_permutation.c', 'msizes[rank_back_perm[i]];', 'msizes[rank_perm[i]];')],
  runs=['%d %s allgatherv 0 long 0 counts=%s' % (n, T1, c) for n, c in ((3, '1,2,9'), (4, '5,1,8,3'), (5, '9,1,7,2,4'))]),
 dict(id='rs_single_counts', prop='C07', needs='different block lengths, all processes on one node',
  what='the lengths of the additions are taken from the blocks of the other ranks',
  edits=[('src/core/reduce_scatter_single_node.c', 'offset2 = moffsets[parameters->socket_row_size] * i + moffsets[parameters->socket_rank];\n    data_memcpy_reduce.size = parameters->iocounts[parameters->socket_rank];', 'offset2 = moffsets[parameters->socket_row_size] * i + moffsets[parameters->socket_rank];\n    data_memcpy_reduce.size = parameters->iocounts[i];')],
  runs=['3 "" reduce_scatter 0 long 0 counts=3,5,2', '4 "" reduce_scatter 0 int 0 counts=3,5,2,4']),
 dict(id='fast_limit', prop='C01', needs='a message of exactly 56 bytes on a single node',
  what='the limits of the fast buffer layout of the copy in and of the copy out differ for messages that just fit a cache line',
  edits=[('src/core/reduce_copyin.c', 'parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST;', 'parameters->message_sizes[0] < CACHE_LINE_SIZE - OFFSET_FAST;')],
  runs=['%d "" allreduce %d %s 0 starts=6' % (n, c, t) for n in (2, 3, 4) for c, t in ((7, 'long'), (14, 'int'))]),
 dict(id='alt_never', prop='C09', needs='a process that starts the next time while another one still copies its result out',
  what='the two alternating plans are not exchanged at a start any more, so consecutive starts use the same shared buffer without the first barrier',
  edits=[(N, '    comm_code[handle] = comm_code[handle + 1];\n    comm_code[handle + 1] = hcomm;\n', '')],
  runs=['%d "" %s 7 long 0 nobar=1 starts=30 slow=%d,2000' % (n, c, k) for n, c in ((2, 'allreduce'), (3, 'allgather'), (4, 'allgather'), (4, 'reduce_scatter_block'), (3, 'bcast')) for k in (0, 1)]),
 dict(id='counter_reset', prop='S01', needs='about 10^9 starts: barrier counters beyond 2^30',
  what='the barrier counter is set back when it gets large, but the flags of the other processes are not: they hang or pass early',
  edits=[(NX, '  ip = *ip_exec;\n', '  ip = *ip_exec;\n  if (header->barrier_counter_socket > (1 << 30)) {\n    header->barrier_counter_socket = 1;\n  }\n')],
  src='demo_wrap.c', runs=['%d EXT_MPI_ALTERNATING=0 %s %d 0x40000000' % (n, c, t) for n in (3, 4) for c in ('allreduce', 'bcast') for t in (0, 1)][:6]),
 dict(id='int_single', prop='C17', needs='sums of int where a process adds a single element', what='the unrolled loop of the addition of int leaves out the only element of a vector of length one',
  edits=[(NX, '          ((int *)p1)[i2] += ((int *)p2)[i2];\n        }\n        break;\n      }\n      break;\n    case OPCODE_MPISENDRECV', '          ((int *)p1)[i2] += ((int *)p2)[i2];\n          if (i2 + 1 < i1) {\n            i2++;\n            ((int *)p1)[i2] += ((int *)p2)[i2];\n          }\n        }\n        break;\n      }\n      break;\n    case OPCODE_MPISENDRECV'), (NX, '        for (i2 = 0; i2 < i1; i2++) {\n          ((int *)p1)[i2] += ((int *)p2)[i2];\n          if', '        for (i2 = 0; i2 < i1 && i1 > 1; i2++) {\n          ((int *)p1)[i2] += ((int *)p2)[i2];\n          if')],
  runs=['3 "" allreduce 1 int 0 starts=20', '4 %s allreduce 2 int 0 starts=20' % T1, '4 %s allreduce 4 int 0' % T2]),
 dict(id='info_sign', prop='C14', needs='settings given through the info of the communicator', what='', edits=[('src/mpi/num_ports_factors.c', '      sscanf(value, "%d", &var);\n      return var;', '      sscanf(value, "%d", &var);\n      return var > 0;')], src='demo_info.c', runs=['4 "" x']) if 0 else None,
]
SEEDS = [s for s in SEEDS if s]
