#include "drv.h"
#include "common.h"
static void handle(const char *cmd, int n, arg_t *a) { if (!handle_common(cmd, n, a)) os("unknown command"); }
