#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
typedef struct Schema Schema;
typedef struct Writer Writer;
Schema *schema_simple(const char *device, const char *measurement, uint8_t type, uint8_t encoding, uint8_t compression);
void schema_free(Schema *);
Writer *file_writer_new(const char *filename, Schema *);
Writer *file_writer_write_int32(Writer *, const char *device, const char *measurement, int64_t t, int32_t v);
void file_writer_close(Writer *);
static int files_open(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
