/* Stand-in for libcsa, see nn.h. */
#if !defined(_CSA_H)
#define _CSA_H
#include "nn.h"
extern char* csa_version;
typedef struct csa csa;
csa* csa_create(void);
void csa_destroy(csa* a);
void csa_addpoints(csa* a, int n, point points[]);
void csa_calculatespline(csa* a);
void csa_approximatepoint(csa* a, point* p);
#endif
