// AddressSanitizer does not know that shmat maps memory: what it had noted for
// these addresses before is forgotten here.  For one translation unit only.
#pragma once
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" void *shmat(int id, const void *addr, int flags) noexcept {
  void *p = (void *)syscall(SYS_shmat, id, addr, flags);
  struct shmid_ds d;
  if (p != (void *)-1 && shmctl(id, IPC_STAT, &d) == 0) __asan_unpoison_memory_region(p, d.shm_segsz);
  return p;
}
#endif
