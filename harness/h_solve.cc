// Local cell solves through SweepData::update with known inflow and source.
#include "hcommon.hh"
#include "SweepData.hh"
#include "Transport.hh"
#include <cinttypes>

// value of a key; the oracle computes the same
static double F(UINT seed, UINT kind, UINT c, UINT v, UINT a, UINT g)
{
    UINT h = H::mix(seed * 1000003 + kind);
    h = H::mix(h ^ (c * 31 + v));
    h = H::mix(h ^ (a * 17 + g * 1009));
    double m = (double)(h >> 11) / 9007199254740992.0 * 2.0 - 1.0;
    static const double scale[8] = {1, 1, 1, 1e-3, 1e3, 0, 1, 10};
    return m * scale[h & 7];
}

int main(int argc, char **argv)
{
    H::init(argc, argv);
    UINT seed = H::uint("seed", 1), nq = H::uint("n", 100);
    g_sigmaT.assign(g_nCells, 0.0);
    g_sigmaS.assign(g_nCells, 0.0);
    PsiData psi, source, psi0, source0;
    PsiBoundData bound, bound0;
    Mat2<UINT> prio(g_nCells, g_nAngles);
    for (UINT c = 0; c < g_nCells; c++) {
        UINT gc = g_tychoMesh->getLGCell(c);
        for (UINT a = 0; a < g_nAngles; a++)
            for (UINT g = 0; g < g_nGroups; g++) {
                for (UINT v = 0; v < 4; v++) {
                    psi(g, v, a, c) = F(seed, 0, gc, v, a, g);
                    source(g, v, a, c) = F(seed, 2, gc, v, a, g);
                }
                for (UINT f = 0; f < 4; f++)
                    if (g_tychoMesh->getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getAdjRank(c, f) != TychoMesh::BAD_RANK)
                        for (UINT v = 0; v < 4; v++)
                            if (v != f)
                                bound(g, g_tychoMesh->getCellToFaceVrtx(c, f, v), a, g_tychoMesh->getSide(c, f)) =
                                    F(seed, 1, gc * 4 + f, v, a, g);
            }
    }
    for (UINT i = 0; i < psi.size(); i++) { psi0[i] = psi[i]; source0[i] = source[i]; }
    for (UINT i = 0; i < bound.size(); i++) bound0[i] = bound[i];
    FILE *f = H::open_out("solve");
    SweepData sd(psi, source, bound, prio);
    static const double sig[] = {0.0, 1e-6, 0.01, 0.3, 1.0, 3.0, 20.0, 1e3, 1e6};
    static const GaussElim el[] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
    for (UINT q = 0; q < nq; q++) {
        UINT h = H::mix(seed * 77 + q);
        UINT c = h % g_nCells, a = (h / 1000003) % g_nAngles;
        double s = sig[(h >> 50) % 9] * (1.0 + (double)((h >> 40) & 255) / 256);
        for (int m = 0; m < 4; m++) {
            g_gaussElim = el[(m + q) % 4];
            g_sigmaT[c] = s;
            UINT adj[4];
            BoundaryType bt[4];
            // as a traversal hands them over
            for (UINT k = 0; k < 4; k++) {
                UINT n = g_tychoMesh->getAdjCell(c, k);
                bool out = g_tychoMesh->isOutgoing(a, c, k);
                adj[k] = n;
                if (n != TychoMesh::BOUNDARY_FACE)
                    bt[k] = out ? BoundaryType_OutInt : BoundaryType_InInt;
                else if (g_tychoMesh->getAdjRank(c, k) == TychoMesh::BAD_RANK)
                    bt[k] = out ? BoundaryType_OutExtBdry : BoundaryType_InExtBdry;
                else {
                    adj[k] = g_tychoMesh->getSide(c, k);
                    bt[k] = out ? BoundaryType_OutIntBdry : BoundaryType_InIntBdry;
                }
            }
            sd.update(c, a, adj, bt);
            fprintf(f, "Q %" PRIu64 " %" PRIu64 " %a %d", (uint64_t)g_tychoMesh->getLGCell(c), (uint64_t)a, s, (int)((m + q) % 4));
            for (UINT g = 0; g < g_nGroups; g++)
                for (UINT v = 0; v < 4; v++) {
                    fprintf(f, " %a", psi(g, v, a, c));
                    // put back the old value: everything must be as before then
                    psi(g, v, a, c) = psi0(g, v, a, c);
                }
            UINT changed = 0;
            changed += memcmp(&psi[0], &psi0[0], psi.size() * 8) != 0 ? 1 : 0;
            changed += memcmp(&source[0], &source0[0], source.size() * 8) != 0 ? 2 : 0;
            if (bound.size())
                changed += memcmp(&bound[0], &bound0[0], bound.size() * 8) != 0 ? 4 : 0;
            changed += g_sigmaT[c] != s ? 8 : 0;
            fprintf(f, " C %d\n", (int)changed);
            if (changed) {
                for (UINT i = 0; i < psi.size(); i++) { psi[i] = psi0[i]; source[i] = source0[i]; }
                for (UINT i = 0; i < bound.size(); i++) bound[i] = bound0[i];
            }
        }
    }
    fclose(f);
    MPI_Finalize();
    return 0;
}
