K(MPI_COMM_WORLD)
K(MPI_BOTTOM)
K(MPI_ANY_SOURCE)
K(MPI_ANY_TAG)
K(MPI_PROC_NULL)
K(MPI_ROOT)
K(MPI_COMM_NULL)
K(MPI_REQUEST_NULL)
K(MPI_GROUP_NULL)
K(MPI_GROUP_EMPTY)
K(MPI_MAX_ERROR_STRING)
K(MPI_MAX_PROCESSOR_NAME)
K(MPI_SUCCESS)
K(MPI_ERR_BUFFER)
K(MPI_ERR_COUNT)
K(MPI_ERR_TYPE)
K(MPI_ERR_TAG)
K(MPI_ERR_COMM)
K(MPI_ERR_RANK)
K(MPI_ERR_REQUEST)
K(MPI_ERR_ROOT)
K(MPI_ERR_GROUP)
K(MPI_ERR_OP)
K(MPI_ERR_TOPOLOGY)
K(MPI_ERR_DIMS)
K(MPI_ERR_ARG)
K(MPI_ERR_UNKNOWN)
K(MPI_ERR_TRUNCATE)
K(MPI_ERR_OTHER)
K(MPI_ERR_INTERN)
K(MPI_PENDING)
K(MPI_ERR_IN_STATUS)
K(MPI_ERR_LASTCODE)
K(MPI_ERRORS_RETURN)
K(MPI_THREAD_SINGLE)
K(MPI_THREAD_FUNNELED)
K(MPI_THREAD_SERIALIZED)
K(MPI_THREAD_MULTIPLE)
K(MPI_UNDEFINED)
K(MPI_DATATYPE_NULL)
K(MPI_BYTE)
K(MPI_PACKED)
K(MPI_LB)
K(MPI_UB)
K(MPI_INTEGER)
K(MPI_REAL)
K(MPI_DOUBLE_PRECISION)
K(MPI_COMPLEX)
K(MPI_DOUBLE_COMPLEX)
K(MPI_LOGICAL)
K(MPI_CHARACTER)
K(MPI_2REAL)
K(MPI_2DOUBLE_PRECISION)
K(MPI_2INTEGER)
K(MPI_INTEGER1)
K(MPI_INTEGER2)
K(MPI_INTEGER4)
K(MPI_INTEGER8)
K(MPI_INTEGER16)
K(MPI_REAL4)
K(MPI_REAL8)
K(MPI_REAL16)
K(MPI_COMPLEX8)
K(MPI_COMPLEX16)
K(MPI_COMPLEX32)
K(MPI_LONG_LONG_INT)
K(MPI_LONG_LONG)
K(MPI_UNSIGNED_LONG_LONG)
K(MPI_OFFSET)
K(MPI_SUM)
K(MPI_MAX)
K(MPI_MIN)
K(MPI_PROD)
K(MPI_LAND)
K(MPI_BAND)
K(MPI_LOR)
K(MPI_BOR)
K(MPI_LXOR)
K(MPI_BXOR)
K(MPI_MINLOC)
K(MPI_MAXLOC)
K(MPI_OP_NULL)
K(MPI_INFO_NULL)
K(MPI_MAX_LIBRARY_VERSION_STRING)
cv["MPI_STATUS_SIZE"]=(long)(sizeof(MPI_Status)/sizeof(int));
cv["MPI_SOURCE"]=(long)(offsetof(MPI_Status,MPI_SOURCE)/sizeof(int)+1);
cv["MPI_TAG"]=(long)(offsetof(MPI_Status,MPI_TAG)/sizeof(int)+1);
cv["MPI_ERROR"]=(long)(offsetof(MPI_Status,MPI_ERROR)/sizeof(int)+1);
cv["MPI_OFFSET_KIND"]=(long)(sizeof(MPI_Offset));
cv["MPI_ADDRESS_KIND"]=(long)sizeof(MPI_Aint);
