// Interposes a set of library functions that may throw (list generated by build.py from the symbols of libamz): counts
// their calls and makes the n-th call of one of them throw. Loaded before libamz (see pychecks/flow.py).
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/processflow/context.h"
#include <cstring>
#include <dlfcn.h>
#include <string>

using namespace NSEpic;
extern "C" {
extern const char *vh_names[];
extern const int vh_n;
static void *vh_real[4096];
static long vh_count[4096];
static int vh_armed = -1;
static long vh_nth = 0;
static int vh_fired = 0;
static char vh_where[256];

static void vh_thrower() {
  std::string cat, stage;
  try { cat = Context.GetCurrentCategory(); } catch (...) {}
  try { stage = Context.GetCurrentStage(); } catch (...) {}
  snprintf(vh_where, sizeof vh_where, "%s/%s", cat.c_str(), stage.c_str());
  THROWG(ErrorCode::INTERNAL_ERROR, "injected fault");
}

void *vh_hook(int i) {
  if (!vh_real[i]) {
    vh_real[i] = dlsym(RTLD_NEXT, vh_names[i]);
    if (!vh_real[i]) abort();
  }
  ++vh_count[i];
  if (i == vh_armed && vh_count[i] == vh_nth) {
    vh_fired = 1;
    return (void *)vh_thrower;
  }
  return vh_real[i];
}
void vh_arm(int i, long nth) {
  memset(vh_count, 0, sizeof vh_count);
  vh_armed = i;
  vh_nth = nth;
  vh_fired = 0;
  vh_where[0] = 0;
}
int vh_has_fired() { return vh_fired; }
const char *vh_fired_where() { return vh_where; }
long vh_calls(int i) { return vh_count[i]; }
const char *vh_name(int i) { return vh_names[i]; }
int vh_size() { return vh_n; }
}
