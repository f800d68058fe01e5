#ifndef VF_MODELS_H
#define VF_MODELS_H 1
#include <stdbool.h>
#include <stddef.h>
/* sync_model.c */
extern int vf_locks_held, vf_locks_live;
extern bool vf_lock_init_may_fail;
extern int vf_locks_failed;
/* ba_model.c */
extern long vf_ba_live;       /* metadata objects currently allocated */
extern int vf_ba_fail_budget; /* how many metadata allocations may still fail */
extern int vf_ba_failed;      /* how many did */
extern int vf_maps_live;      /* critnib_model.c */
extern int vf_bapools_live;   /* bapool_model.c */
#endif
