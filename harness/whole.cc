// The driver DRIVER as a program (real MPI, real HDF5): one launch is one run.
#include <mpi.h>
#include <hdf5.h>
#include <cassert>
#include <cstring>
#include DRIVER
int main(int argc, char ** argv) {
  MPI_Init(&argc, &argv);
  flecsi::execution::specialization_tlt_init(argc, argv);
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return 0;
}
