#ifndef VERIF_MPI_INIT
#define VERIF_MPI_INIT
#include "pbt.hpp"
#include "mfem.hpp"
inline void use_mpi()
{
   pbt::worker_init() = []
   {
      int flag = 0;
      MPI_Initialized(&flag);
      if (!flag) { MPI_Init(nullptr, nullptr); }
      // make MPI errors visible as exit codes rather than hangs
      mfem::Device::IsAvailable();
   };
}
#endif
