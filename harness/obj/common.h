#include "../drv.h"
#include <config.h>
#include <string.h>
#include <primitives.h>
#include <threadtools.h>
#define NP 160
#define NEW(T) ((T *)memset(vs_alloc(sizeof(T)), 0, sizeof(T)))
