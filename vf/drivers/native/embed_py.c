#define LANG_PY 1
#include "h.h"
#include "python/client.h"
#include "embed.h"
