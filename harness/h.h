#ifndef H_H
#define H_H
#include "sym.h"
#include "cee.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define P(name, d) sym_param(name, d)
/* every allocation made since the mark must be gone */
#define NO_LEAK(base) ASSERT(sym_heap_live() == (base), "something allocated by the library was not freed")
#endif
