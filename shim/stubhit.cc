#include <stdio.h>
#include <unistd.h>
// Reached when the code under test calls something this offline build has no definition of.
extern "C" void verif_stub_hit(const char* name) {
  fprintf(stderr, "VERIF-STUB: call of unresolved symbol %s\n", name);
  fflush(stderr);
  _exit(77);
}
