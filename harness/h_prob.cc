// Dumps the test problem each rank sets up, and the error norm of given fluxes.
#include "hcommon.hh"
#include "Problem.hh"

static double V(UINT seed, UINT gc, UINT a, UINT v, UINT g)
{
    UINT h = H::mix(H::mix(seed) ^ (gc << 32 ^ a << 16 ^ v << 8 ^ g));
    return (double)(h >> 11) / 9007199254740992.0;
}

int main(int argc, char **argv)
{
    H::init(argc, argv);
    FILE *f = H::open_out("prob");
    Problem::createCrossSections(g_sigmaT, g_sigmaS, H::num("sT1", 0), H::num("sS1", 0), H::num("sT2", 0), H::num("sS2", 0));
    PsiData source;
    source.setToValue(-7.0);
    Problem::getSource(source);
    for (UINT c = 0; c < g_nCells; c++) {
        UINT gc = g_tychoMesh->getLGCell(c);
        fwrite(&gc, 8, 1, f);
        fwrite(&g_sigmaT[c], 8, 1, f);
        fwrite(&g_sigmaS[c], 8, 1, f);
        for (UINT a = 0; a < g_nAngles; a++)
            for (UINT v = 0; v < g_nVrtxPerCell; v++)
                for (UINT g = 0; g < g_nGroups; g++) {
                    double x = source(g, v, a, c);
                    fwrite(&x, 8, 1, f);
                }
    }
    fclose(f);
    f = H::open_out("err");
    PsiData psi;
    for (UINT s = 0; s < H::uint("n", 1); s++) {
        double base = s % 2 ? 0.0 : 1.0;
        for (UINT c = 0; c < g_nCells; c++)
            for (UINT a = 0; a < g_nAngles; a++)
                for (UINT v = 0; v < g_nVrtxPerCell; v++)
                    for (UINT g = 0; g < g_nGroups; g++)
                        psi(g, v, a, c) = V(H::uint("seed", 1) + s, g_tychoMesh->getLGCell(c), a, v, g) - 0.5 * base;
        fprintf(f, "%.17g\n", Problem::hatL2Error(psi));
    }
    fclose(f);
    MPI_Finalize();
    return 0;
}
