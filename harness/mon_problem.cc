// Linked into the real sweep.x: records the cross sections and the source of
// the solve in $MON_PROBLEM.<rank>.
#include "Global.hh"
#include "PsiData.hh"
#include "TychoMesh.hh"
#include <cstdio>
#include <cstdlib>

extern "C" void __real__ZN7Problem9getSourceER7PsiData(PsiData &);
extern "C" void __wrap__ZN7Problem9getSourceER7PsiData(PsiData &source)
{
    __real__ZN7Problem9getSourceER7PsiData(source);
    const char *l = getenv("MON_PROBLEM"), *r = getenv("OMPI_COMM_WORLD_RANK");
    if (!l)
        return;
    char b[512];
    snprintf(b, sizeof b, "%s.%s", l, r ? r : "0");
    FILE *f = fopen(b, "wb");
    for (UINT c = 0; c < g_nCells; c++) {
        UINT gc = g_tychoMesh->getLGCell(c);
        fwrite(&gc, 8, 1, f);
        fwrite(&g_sigmaT[c], 8, 1, f);
        fwrite(&g_sigmaS[c], 8, 1, f);
        for (UINT a = 0; a < g_nAngles; a++)
            for (UINT v = 0; v < g_nVrtxPerCell; v++)
                for (UINT g = 0; g < g_nGroups; g++) {
                    double x = source(g, v, a, c);
                    fwrite(&x, 8, 1, f);
                }
    }
    fclose(f);
}
