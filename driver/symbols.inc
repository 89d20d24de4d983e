// weak declarations: a routine that does not exist is recorded as "missing"
extern "C" {
int mpi_abort_(...) __attribute__((weak));
int mpi_address_(...) __attribute__((weak));
int mpi_allgather_(...) __attribute__((weak));
int mpi_allgatherv_(...) __attribute__((weak));
int mpi_allreduce_(...) __attribute__((weak));
int mpi_alltoall_(...) __attribute__((weak));
int mpi_alltoallv_(...) __attribute__((weak));
int mpi_alltoallw_(...) __attribute__((weak));
int mpi_barrier_(...) __attribute__((weak));
int mpi_bcast_(...) __attribute__((weak));
int mpi_cart_coords_(...) __attribute__((weak));
int mpi_cart_create_(...) __attribute__((weak));
int mpi_cart_get_(...) __attribute__((weak));
int mpi_comm_create_(...) __attribute__((weak));
int mpi_comm_dup_(...) __attribute__((weak));
int mpi_comm_free_(...) __attribute__((weak));
int mpi_comm_group_(...) __attribute__((weak));
int mpi_comm_rank_(...) __attribute__((weak));
int mpi_comm_size_(...) __attribute__((weak));
int mpi_comm_split_(...) __attribute__((weak));
int mpi_dims_create_(...) __attribute__((weak));
int mpi_errhandler_set_(...) __attribute__((weak));
int mpi_error_string_(...) __attribute__((weak));
int mpi_finalize_(...) __attribute__((weak));
int mpi_gather_(...) __attribute__((weak));
int mpi_gatherv_(...) __attribute__((weak));
int mpi_get_address_(...) __attribute__((weak));
int mpi_get_count_(...) __attribute__((weak));
int mpi_get_elements_(...) __attribute__((weak));
int mpi_get_library_version_(...) __attribute__((weak));
int mpi_get_processor_name_(...) __attribute__((weak));
int mpi_get_version_(...) __attribute__((weak));
int mpi_group_difference_(...) __attribute__((weak));
int mpi_group_free_(...) __attribute__((weak));
int mpi_group_incl_(...) __attribute__((weak));
int mpi_group_intersection_(...) __attribute__((weak));
int mpi_group_range_incl_(...) __attribute__((weak));
int mpi_group_translate_ranks_(...) __attribute__((weak));
int mpi_group_union_(...) __attribute__((weak));
int mpi_info_create_(...) __attribute__((weak));
int mpi_info_free_(...) __attribute__((weak));
int mpi_info_set_(...) __attribute__((weak));
int mpi_init_(...) __attribute__((weak));
int mpi_init_thread_(...) __attribute__((weak));
int mpi_initialized_(...) __attribute__((weak));
int mpi_intercomm_create_(...) __attribute__((weak));
int mpi_intercomm_merge_(...) __attribute__((weak));
int mpi_iprobe_(...) __attribute__((weak));
int mpi_irecv_(...) __attribute__((weak));
int mpi_irsend_(...) __attribute__((weak));
int mpi_isend_(...) __attribute__((weak));
int mpi_op_create_(...) __attribute__((weak));
int mpi_op_free_(...) __attribute__((weak));
int mpi_pack_(...) __attribute__((weak));
int mpi_pack_size_(...) __attribute__((weak));
int mpi_probe_(...) __attribute__((weak));
int mpi_recv_(...) __attribute__((weak));
int mpi_reduce_(...) __attribute__((weak));
int mpi_reduce_scatter_(...) __attribute__((weak));
int mpi_request_free_(...) __attribute__((weak));
int mpi_rsend_(...) __attribute__((weak));
int mpi_scan_(...) __attribute__((weak));
int mpi_scatter_(...) __attribute__((weak));
int mpi_scatterv_(...) __attribute__((weak));
int mpi_send_(...) __attribute__((weak));
int mpi_sendrecv_(...) __attribute__((weak));
int mpi_ssend_(...) __attribute__((weak));
int mpi_test_(...) __attribute__((weak));
int mpi_testall_(...) __attribute__((weak));
int mpi_testany_(...) __attribute__((weak));
int mpi_testsome_(...) __attribute__((weak));
int mpi_type_commit_(...) __attribute__((weak));
int mpi_type_contiguous_(...) __attribute__((weak));
int mpi_type_create_hvector_(...) __attribute__((weak));
int mpi_type_create_indexed_block_(...) __attribute__((weak));
int mpi_type_dup_(...) __attribute__((weak));
int mpi_type_extent_(...) __attribute__((weak));
int mpi_type_free_(...) __attribute__((weak));
int mpi_type_hindexed_(...) __attribute__((weak));
int mpi_type_hvector_(...) __attribute__((weak));
int mpi_type_indexed_(...) __attribute__((weak));
int mpi_type_lb_(...) __attribute__((weak));
int mpi_type_size_(...) __attribute__((weak));
int mpi_type_struct_(...) __attribute__((weak));
int mpi_type_ub_(...) __attribute__((weak));
int mpi_type_vector_(...) __attribute__((weak));
int mpi_unpack_(...) __attribute__((weak));
int mpi_wait_(...) __attribute__((weak));
int mpi_waitall_(...) __attribute__((weak));
int mpi_waitany_(...) __attribute__((weak));
int mpi_waitsome_(...) __attribute__((weak));
double mpi_wtime_(void) __attribute__((weak));
}
#pragma weak MPI_Abort
#pragma weak MPI_Address
#pragma weak MPI_Allgather
#pragma weak MPI_Allgatherv
#pragma weak MPI_Allreduce
#pragma weak MPI_Alltoall
#pragma weak MPI_Alltoallv
#pragma weak MPI_Alltoallw
#pragma weak MPI_Barrier
#pragma weak MPI_Bcast
#pragma weak MPI_Cart_coords
#pragma weak MPI_Cart_create
#pragma weak MPI_Cart_get
#pragma weak MPI_Comm_c2f
#pragma weak MPI_Comm_create
#pragma weak MPI_Comm_dup
#pragma weak MPI_Comm_f2c
#pragma weak MPI_Comm_free
#pragma weak MPI_Comm_group
#pragma weak MPI_Comm_rank
#pragma weak MPI_Comm_size
#pragma weak MPI_Comm_split
#pragma weak MPI_Dims_create
#pragma weak MPI_Errhandler_set
#pragma weak MPI_Error_string
#pragma weak MPI_Finalize
#pragma weak MPI_Gather
#pragma weak MPI_Gatherv
#pragma weak MPI_Get_Version
#pragma weak MPI_Get_address
#pragma weak MPI_Get_count
#pragma weak MPI_Get_elements
#pragma weak MPI_Get_library_version
#pragma weak MPI_Get_processor_name
#pragma weak MPI_Group_c2f
#pragma weak MPI_Group_difference
#pragma weak MPI_Group_f2c
#pragma weak MPI_Group_free
#pragma weak MPI_Group_incl
#pragma weak MPI_Group_intersection
#pragma weak MPI_Group_range_incl
#pragma weak MPI_Group_translate_ranks
#pragma weak MPI_Group_union
#pragma weak MPI_Info_create
#pragma weak MPI_Info_free
#pragma weak MPI_Info_set
#pragma weak MPI_Init
#pragma weak MPI_Init_thread
#pragma weak MPI_Initialized
#pragma weak MPI_Intercomm_create
#pragma weak MPI_Intercomm_merge
#pragma weak MPI_Iprobe
#pragma weak MPI_Irecv
#pragma weak MPI_Irsend
#pragma weak MPI_Isend
#pragma weak MPI_Op_c2f
#pragma weak MPI_Op_create
#pragma weak MPI_Op_f2c
#pragma weak MPI_Op_free
#pragma weak MPI_Pack
#pragma weak MPI_Pack_size
#pragma weak MPI_Probe
#pragma weak MPI_Recv
#pragma weak MPI_Reduce
#pragma weak MPI_Reduce_scatter
#pragma weak MPI_Request_c2f
#pragma weak MPI_Request_f2c
#pragma weak MPI_Request_free
#pragma weak MPI_Rsend
#pragma weak MPI_Scan
#pragma weak MPI_Scatter
#pragma weak MPI_Scatterv
#pragma weak MPI_Send
#pragma weak MPI_Sendrecv
#pragma weak MPI_Ssend
#pragma weak MPI_Test
#pragma weak MPI_Testall
#pragma weak MPI_Testany
#pragma weak MPI_Testsome
#pragma weak MPI_Type_commit
#pragma weak MPI_Type_contiguous
#pragma weak MPI_Type_create_hvector
#pragma weak MPI_Type_create_indexed_block
#pragma weak MPI_Type_dup
#pragma weak MPI_Type_extent
#pragma weak MPI_Type_free
#pragma weak MPI_Type_hindexed
#pragma weak MPI_Type_hvector
#pragma weak MPI_Type_indexed
#pragma weak MPI_Type_lb
#pragma weak MPI_Type_size
#pragma weak MPI_Type_struct
#pragma weak MPI_Type_ub
#pragma weak MPI_Type_vector
#pragma weak MPI_Unpack
#pragma weak MPI_Wait
#pragma weak MPI_Waitall
#pragma weak MPI_Waitany
#pragma weak MPI_Waitsome
#pragma weak MPI_Wtime
