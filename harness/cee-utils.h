/* stands for the separate cee-utils package, which cee_dbm.c includes */
#include <stddef.h>
char *cee_load_whole_file(const char *name, size_t *len);
