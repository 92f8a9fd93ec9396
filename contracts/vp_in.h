/* included right after the harness defines struct vp_in */
struct vp_in IN;
#ifdef VP_NATIVE
#include "vp_replay.inc"
#else
struct vp_in nondet_vp_in(void);
#endif
