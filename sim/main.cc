// simsmash <world> args...: one simulated execution of SMASH code under the shim.
#include <sys/personality.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "shim.h"
#include "worlds.h"

int smash_main(int argc, char *argv[]);

int main(int argc, char *argv[]) {
  // Same addresses in every execution (address-dependent behaviour is then varied on purpose,
  // with SIM_JITTER).
  if (!getenv("SIM_NOASLR")) {
    int p = personality(0xffffffff);
    setenv("SIM_NOASLR", "1", 1);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 99;
  shim_init();
  int rc = 99;
  const char *w = argv[1];
  if (!strcmp(w, "smash")) {
    argv[1] = argv[0];
    factors_init();
    shim_heap(true);
    rc = smash_main(argc - 1, argv + 1);
    shim_heap(false);
    factors_finish(rc);
  } else if (!strcmp(w, "lib")) {
    rc = world_lib(argc - 2, argv + 2);
  } else if (!strcmp(w, "particles")) {
    rc = world_particles(argc - 2, argv + 2);
  } else if (!strcmp(w, "grid")) {
    rc = world_grid(argc - 2, argv + 2);
  }
  shim_heap(false);
  fflush(nullptr);
  shim_finish();
  return rc;
}
