// Exposes the inline descriptor functions of the current tree to the symbolic execution.
#include "plasma.h"
#include "plasma_internal.h"
#include "plasma_descriptor.h"

long vp_addr(plasma_desc_t *A, int m, int n)
{
    return (char *)plasma_tile_addr(*A, m, n) - (char *)A->matrix;
}
int vp_mmain(plasma_desc_t *A, int k) { return plasma_tile_mmain(*A, k); }
int vp_nmain(plasma_desc_t *A, int k) { return plasma_tile_nmain(*A, k); }
int vp_mview(plasma_desc_t *A, int k) { return plasma_tile_mview(*A, k); }
int vp_nview(plasma_desc_t *A, int k) { return plasma_tile_nview(*A, k); }
int vp_mmain_band(plasma_desc_t *A, int m, int n) { return plasma_tile_mmain_band(*A, m, n); }
long vp_eltsize(int precision) { return plasma_element_size(precision); }
int vp_check(plasma_desc_t *A) { return plasma_desc_check(*A); }
void vp_view(plasma_desc_t *A, int i, int j, int m, int n, plasma_desc_t *B) { *B = plasma_desc_view(*A, i, j, m, n); }
int vp_descT(plasma_desc_t *A, int ib, int mode, plasma_desc_t *T) { return plasma_descT_create(*A, ib, mode, T); }
int vp_mt(plasma_desc_t *A) { return A->mt; }
int vp_nt(plasma_desc_t *A) { return A->nt; }
int vp_klt(plasma_desc_t *A) { return A->klt; }
int vp_kut(plasma_desc_t *A) { return A->kut; }
