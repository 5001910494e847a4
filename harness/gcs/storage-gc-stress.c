/* GC stress: the project's own collector, with a collection forced at chosen
 * allocations. Everything else of storage-gc.c is used as it is. */
#define scm_alloc_cell verif_real_alloc_cell
#include "storage-gc.c"
#undef scm_alloc_cell

int verif_gc_period, verif_gc_phase, verif_gc_once;
unsigned long verif_gc_count, verif_alloc_count;

SCM_EXPORT ScmObj
scm_alloc_cell(void)
{
    verif_alloc_count++;
    if (verif_gc_period && ++verif_gc_phase >= verif_gc_period) {
        verif_gc_phase = 0;
        if (verif_gc_once)
            verif_gc_period = 0;
        verif_gc_count++;
        SCM_BEGIN_GC_SUBCONTEXT();
        gc_mark();
        gc_sweep();
        SCM_END_GC_SUBCONTEXT();
    }
    return verif_real_alloc_cell();
}
