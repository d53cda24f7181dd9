// Storage behind the OpenMPI predefined handles (only their addresses matter).
char ompi_mpi_comm_world[16], ompi_mpi_comm_self[16], ompi_mpi_comm_null[16];
char ompi_mpi_double[16], ompi_mpi_int[16], ompi_mpi_long[16], ompi_mpi_unsigned_long[16],
     ompi_mpi_unsigned[16], ompi_mpi_byte[16], ompi_mpi_char[16], ompi_mpi_long_long_int[16], ompi_mpi_datatype_null[16], ompi_mpi_float[16];
char ompi_mpi_op_sum[16], ompi_mpi_op_max[16], ompi_mpi_op_min[16], ompi_mpi_op_null[16], ompi_mpi_op_prod[16];
char ompi_mpi_op_lor[16], ompi_mpi_op_land[16], ompi_mpi_op_bor[16], ompi_mpi_op_band[16], ompi_mpi_cxx_bool[16], ompi_mpi_c_bool[16];
