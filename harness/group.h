// Which communicator the library gets (parameter COMM): 0 all tasks, 1 every task by itself, 2 two groups with the tasks in reverse order,
// 3 as 2 without task 0, 4 a duplicate of all tasks. Tasks without a communicator have comm == MPI_COMM_NULL.
#pragma once
#include <mpi.h>
#include "vp.h"
struct Group {
    MPI_Comm comm = MPI_COMM_WORLD; int rank = vp_rank(), size = vp_ranks(), id = 0; bool made = false;
    explicit Group(int mode) {
        if (mode == 1) { comm = MPI_COMM_SELF; id = rank; rank = 0; size = 1; }
        if (mode >= 2 && mode <= 4) {
            if (mode == 4) MPI_Comm_dup(MPI_COMM_WORLD, &comm); else MPI_Comm_split(MPI_COMM_WORLD, mode == 3 && rank == 0 ? MPI_UNDEFINED : rank % 2, -rank, &comm);
            if (mode != 4) id = rank % 2;
            made = comm != MPI_COMM_NULL; if (made) { MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size); }
        }
    }
    Group(const Group &) = delete;
    ~Group() { if (made) MPI_Comm_free(&comm); }
    bool in() const { return comm != MPI_COMM_NULL; }
};
