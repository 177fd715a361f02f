// Writes encoded flux values through PsiData::writeToFile, several times.
#include "hcommon.hh"

// the oracle computes the same bits
static double V(UINT seed, UINT step, UINT gc, UINT a, UINT v, UINT g)
{
    UINT h = H::mix(H::mix(seed * 977 + step) ^ (gc << 32 ^ a << 16 ^ v << 8 ^ g));
    double d;
    memcpy(&d, &h, 8);      // any bits: not-a-numbers and denormals too
    return d;
}

int main(int argc, char **argv)
{
    H::init(argc, argv);
    UINT seed = H::uint("seed", 1), n = H::uint("n", 1);
    FILE *log = H::open_out("log");
    PsiData psi;
    for (UINT s = 0; s < n; s++) {
        char key[32];
        snprintf(key, sizeof key, "file%d", (int)s);
        for (UINT c = 0; c < g_nCells; c++)
            for (UINT a = 0; a < g_nAngles; a++)
                for (UINT v = 0; v < g_nVrtxPerCell; v++)
                    for (UINT g = 0; g < g_nGroups; g++)
                        psi(g, v, a, c) = V(seed, s, g_tychoMesh->getLGCell(c), a, v, g);
        std::vector<double> before(psi.size());
        if (psi.size())
            memcpy(&before[0], &psi[0], psi.size() * 8);
        psi.writeToFile(H::str(key));
        fprintf(log, "%d %d\n", (int)s, psi.size() && memcmp(&before[0], &psi[0], psi.size() * 8) != 0);
        fflush(log);
    }
    fclose(log);
    MPI_Finalize();
    return 0;
}
