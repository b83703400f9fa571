#include "seam.h"
/* the checks that drive no container directly do without model.cc */
int job_model(const char *kind, const long *ops, int nops) { (void)kind; (void)ops; (void)nops; return -77; }
