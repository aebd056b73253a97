/* Interface between generated option tables and the monitoring driver. */
#ifndef VT_DRIVER_H
#define VT_DRIVER_H
#include <argus.h>
#include <argus/regex.h>

typedef struct { void *ptr; size_t size; } vt_table_t;
typedef struct {
    const char *id;
    argus_t (*init)(const char *prog, const char *version);
    vt_table_t *tables; /* every level, terminated by {0} */
} vt_schema_t;

/* a reading call made from inside a callback */
typedef struct { char code; const char *name; char kind; const char *arg; } vt_peek_t;

/* data of a recording validator */
typedef struct {
    const char *id; int rc; int post; char kind; const char *trigger;
    const char *say;        /* announced through ARGUS_PARSING_ERROR when it refuses */
    const char *fmt;        /* what its formatter returns */
    const vt_peek_t *peek;  /* terminated by {0} */
} vt_val_t;

int vt_handle(argus_t *a, argus_option_t *o, char *v, const char *id, int rc, const char *trigger, char mode, const char *say);
int vt_validate(argus_t *a, void *p, validator_data_t d);
int vt_free(argus_option_t *o, const char *id);
int vt_action(argus_t *a, void *data, const char *id, int rc, const vt_peek_t *peek);
char *vt_format(validator_data_t d);
#endif
