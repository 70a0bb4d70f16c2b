#include <mpi.h>
#include <stdio.h>
int main(int c, char** v) {
    int n = 0, r = 0, s = 0, one = 1;
    MPI_Init(&c, &v);
    MPI_Comm_size(MPI_COMM_WORLD, &n);
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    MPI_Allreduce(&one, &s, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (!r) printf("world %d %d\n", n, s);
    MPI_Finalize();
}
