// Linked into the real sweep.x: multiplies the fixed source of each group by a
// factor of $MON_SCALE (comma separated) and says so in $MON_SCALE_LOG.<rank>.
#include "Global.hh"
#include "PsiData.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" void __real__ZN7Problem9getSourceER7PsiData(PsiData &);
extern "C" void __wrap__ZN7Problem9getSourceER7PsiData(PsiData &source)
{
    __real__ZN7Problem9getSourceER7PsiData(source);
    const char *s = getenv("MON_SCALE"), *l = getenv("MON_SCALE_LOG"), *r = getenv("OMPI_COMM_WORLD_RANK");
    if (!s || !l)
        return;
    for (UINT g = 0; g < g_nGroups && s; g++) {
        double f = strtod(s, NULL);
        for (UINT c = 0; c < g_nCells; c++)
            for (UINT a = 0; a < g_nAngles; a++)
                for (UINT v = 0; v < g_nVrtxPerCell; v++)
                    source(g, v, a, c) *= f;
        s = strchr(s, ',');
        if (s)
            s++;
    }
    char b[512];
    snprintf(b, sizeof b, "%s.%s", l, r ? r : "0");
    FILE *f = fopen(b, "a");
    fputs("scaled\n", f);
    fclose(f);
}
