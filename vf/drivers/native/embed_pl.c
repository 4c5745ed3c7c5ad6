#define LANG_PY 0
#include "h.h"
#include "perl/client.h"
#include "embed.h"
