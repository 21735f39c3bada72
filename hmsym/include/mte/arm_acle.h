#ifndef HMSYM_ARM_ACLE_H
#define HMSYM_ARM_ACLE_H
#include <stdint.h>
#ifdef __cplusplus
extern "C"
#endif
void *__arm_mte_create_random_tag(void *p, uint64_t exclusion_mask);
#endif
