def add(p, SIMT, LN, mech, M, C, T0):
    p("P20", "The interposed library leaves the MPI of the application unchanged", "All MPI functions the library intercepts behave as those of the MPI below when they are called for something that is not a persistent collective of the library: completion calls, MPI_Start(all) and MPI_Request_free on ordinary, persistent point-to-point and null requests (also in one array with collective requests), the blocking MPI_Allreduce, MPI_Reduce_scatter_block and MPI_Allgather, and MPI_Comm_dup, MPI_Comm_split, MPI_Comm_split_type, MPI_Comm_create and MPI_Comm_free. Results, statuses, flags, indices and the state of the handles are those MPI prescribes.",
      ["inputs", "histories", "schedules"], "Any mix of ordinary communication of the application with persistent collectives, array composition and order of calls, every interleaving.", "The tests contain no application communication besides the collectives under test.",
      [M + "ext_mpi_interface.c", M + "ext_mpi.c"], mech(("interception of completion, start and free calls", M + "ext_mpi_interface.c"), ("interception of communicator functions", M + "ext_mpi_interface.c")), ["results, statuses, flags and handles of the intercepted MPI calls"],
      SIMT + "application traffic with known contents through the intercepted functions, every result, status and handle compared with the MPI semantics", LN)
    p("P21", "The Fortran interface behaves like the C interface", "The Fortran entry points of the library (initialisation, MPI_Allreduce_init, MPI_Start, MPI_Wait, MPI_Request_free, MPI_Allreduce, the communicator functions and finalisation) give the results of the corresponding C functions. This holds for all Fortran names of the supported types (MPI_INTEGER, MPI_INTEGER4, MPI_INTEGER8, MPI_REAL, MPI_REAL4, MPI_DOUBLE_PRECISION, MPI_REAL8), for MPI_IN_PLACE, and with ierror set to MPI_SUCCESS.",
      ["inputs", "configurations", "schedules"], "Every process count, layout, number of elements, supported type, MPI_IN_PLACE or not, communicator and interleaving.", "No test calls the library from Fortran.",
      ["src/fortran/ext_mpi_f.c", M + "ext_mpi_interface.c"], mech(("conversion of types, operations and MPI_IN_PLACE", "src/fortran/ext_mpi_f.c")), ["buffers after mpi_wait_f08_, ierror, communicators returned"],
      SIMT + "result oracle over calls of the Fortran entry points with the Fortran types", LN)
    p("P22", "Schedules in text form are equivalent to schedules in binary form", "The passes that generate the schedule of a collective exchange it in binary form or, with PARAMETER ASCII in the header, as readable text. Whatever the collective, sizes and parameters are, the passes in text form give a schedule that executes correctly, exactly as in binary form.",
      ["inputs", "configurations"], "Every operation, size, layout and parameter setting; every pass the library uses.", "The pipelines of the tests run a few fixed headers and nobody executes the schedule the text describes.",
      ["src/core/read_write.c", "src/core/", "src/mpi/"], mech(("writing and reading of headers, stage lines and assembler lines", "src/core/read_write.c"), ("passes", "src/core/")), ["buffers after completion of requests whose schedules went through the text form"],
      SIMT + "result oracle over runs of the library in which every pass reads and writes text (PARAMETER ASCII put into the header)", LN)
