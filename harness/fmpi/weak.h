/* generated: weak MPI_* entry points forwarding to PMPI_* */
#include "mpi.h"
#pragma weak MPI_Init = PMPI_Init
#pragma weak MPI_Initialized = PMPI_Initialized
#pragma weak MPI_Finalize = PMPI_Finalize
#pragma weak MPI_Abort = PMPI_Abort
#pragma weak MPI_Comm_size = PMPI_Comm_size
#pragma weak MPI_Comm_rank = PMPI_Comm_rank
#pragma weak MPI_Comm_split = PMPI_Comm_split
#pragma weak MPI_Comm_split_type = PMPI_Comm_split_type
#pragma weak MPI_Comm_dup = PMPI_Comm_dup
#pragma weak MPI_Comm_create = PMPI_Comm_create
#pragma weak MPI_Comm_free = PMPI_Comm_free
#pragma weak MPI_Comm_group = PMPI_Comm_group
#pragma weak MPI_Group_incl = PMPI_Group_incl
#pragma weak MPI_Group_free = PMPI_Group_free
#pragma weak MPI_Type_size = PMPI_Type_size
#pragma weak MPI_Barrier = PMPI_Barrier
#pragma weak MPI_Bcast = PMPI_Bcast
#pragma weak MPI_Gather = PMPI_Gather
#pragma weak MPI_Gatherv = PMPI_Gatherv
#pragma weak MPI_Scatterv = PMPI_Scatterv
#pragma weak MPI_Allgather = PMPI_Allgather
#pragma weak MPI_Allgatherv = PMPI_Allgatherv
#pragma weak MPI_Allreduce = PMPI_Allreduce
#pragma weak MPI_Reduce = PMPI_Reduce
#pragma weak MPI_Reduce_scatter = PMPI_Reduce_scatter
#pragma weak MPI_Reduce_scatter_block = PMPI_Reduce_scatter_block
#pragma weak MPI_Send = PMPI_Send
#pragma weak MPI_Recv = PMPI_Recv
#pragma weak MPI_Sendrecv = PMPI_Sendrecv
#pragma weak MPI_Isend = PMPI_Isend
#pragma weak MPI_Irecv = PMPI_Irecv
#pragma weak MPI_Recv_init = PMPI_Recv_init
#pragma weak MPI_Start = PMPI_Start
#pragma weak MPI_Request_free = PMPI_Request_free
#pragma weak MPI_Wait = PMPI_Wait
#pragma weak MPI_Waitall = PMPI_Waitall
#pragma weak MPI_Waitany = PMPI_Waitany
#pragma weak MPI_Waitsome = PMPI_Waitsome
#pragma weak MPI_Test = PMPI_Test
#pragma weak MPI_Testall = PMPI_Testall
#pragma weak MPI_Testany = PMPI_Testany
#pragma weak MPI_Testsome = PMPI_Testsome
#pragma weak MPI_Info_create = PMPI_Info_create
#pragma weak MPI_Info_set = PMPI_Info_set
#pragma weak MPI_Info_get = PMPI_Info_get
#pragma weak MPI_Info_free = PMPI_Info_free
#pragma weak MPI_Request_get_status = PMPI_Request_get_status
