/* Per-network glue, compiled in the directory of the generated code. */
#include "inference.h"
#include "test_dataset.h"
#include "simrt.h"
typedef __typeof__(nn_test_inputs[0][0]) simT;
#if SIM_GLUE
#include "simglue.h"
#else
static const size_t sim_par_size[1];
static void sim_copy(void **p) { (void)p; }
#define SIM_NPARS 0
#endif
extern int __real_inference(inference_t *, simT *, simT *);
int __wrap_inference(inference_t *c, simT *p, simT *x) { return sim_call(c, p, x); }
void batch_loop(simT *restrict, simT *restrict, int);
int save_weights(char *);
int acetone_main(int, char **);
static int infer(void *c, void *p, void *x) { return __real_inference(c, p, x); }
static void batch(void *p, void *x, int n) { batch_loop(p, x, n); }
sim_net sim_net_desc = {
    sizeof(inference_t), sizeof(simT), nn_input_size, nn_output_size, nb_samples, MAX_BATCH_SIZE,
    Context, nn_test_inputs, infer, batch, save_weights, acetone_main,
    ((simT)0.5 != 0),
    SIM_EXTERNAL_INPUT, SIM_NPARS, sim_par_size, sim_copy
};
