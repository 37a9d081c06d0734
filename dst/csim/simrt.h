/* Interface between the simulator runtime (simrt.c) and the per-network driver
 * (simdrv.c, compiled against the generated inference.h and test_dataset.h). */
#ifndef SIMRT_H
#define SIMRT_H
#include <stddef.h>

typedef struct {
    size_t ctx_size, elem, n_in, n_out, n_samples, max_batch;
    void *ctx0;            /* Context[] of the generated code */
    const void *inputs;    /* nn_test_inputs */
    int (*infer)(void *ctx, void *pred, void *in);
    void (*batch)(void *pred, void *in, int n);
    int (*save)(char *path);
    int (*mainfn)(int, char **);
    int is_float;
    int external;          /* the program reads its inputs */
    size_t n_pars;         /* parameters of the training hook */
    const size_t *par_size;
    void (*copy)(void **pars);
} sim_net;
extern sim_net sim_net_desc;

/* called by the wrapper around inference() */
int sim_call(void *ctx, void *pred, void *in);
#endif
