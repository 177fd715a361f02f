// Exchanges of shared face data with unique payloads; dumps everything a rank
// holds before and after.  The oracle is offline (checks/C06.py).
#include "hcommon.hh"
#include <vector>
#include "CommSides.hh"
#include <time.h>

static UINT g_delay = 0, g_seed = 1, g_calls = 0;
static void nap()
{
    g_calls++;
    UINT h = H::mix(g_calls ^ (g_seed << 20) ^ ((UINT)H::rank << 44));
    if (g_delay && h % 100 < g_delay) {
        struct timespec t = {0, (long)((h >> 16) % 2000000)};
        nanosleep(&t, 0);
    }
}
extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ nap(); return PMPI_Isend(b, n, d, p, t, c, r); }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ nap(); return PMPI_Irecv(b, n, d, p, t, c, r); }
int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s) { nap(); return PMPI_Waitany(n, r, i, s); }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { nap(); return PMPI_Waitall(n, r, s); }
}

static void put(FILE *f, UINT x) { fwrite(&x, 8, 1, f); }
static void put(FILE *f, double x) { fwrite(&x, 8, 1, f); }

int main(int argc, char **argv)
{
    H::init(argc, argv);
    g_delay = H::uint("delay", 0);
    g_seed = H::uint("seed", 1);
    UINT rounds = H::uint("rounds", 2);
    const TychoMesh &m = *g_tychoMesh;
    FILE *f = H::open_out("comm");
    put(f, g_nCells);
    put(f, m.getNSides());
    for (UINT c = 0; c < g_nCells; c++) {
        put(f, m.getLGCell(c));
        for (UINT v = 0; v < 4; v++)
            for (UINT d = 0; d < 3; d++)
                put(f, m.getNodeCoord(m.getCellNode(c, v), d));
    }
    std::vector<bool> seen(m.getNSides());
    for (UINT c = 0; c < g_nCells; c++)
        for (UINT k = 0; k < 4; k++)
            if (m.getAdjCell(c, k) == TychoMesh::BOUNDARY_FACE) {
                put(f, m.getSide(c, k));
                put(f, m.getLGSide(m.getSide(c, k)));
                for (UINT v = 0; v < 3; v++)
                    for (UINT d = 0; d < 3; d++)
                        put(f, m.getNodeCoord(m.getCellNode(c, m.getFaceToCellVrtx(c, k, v)), d));
            }
    CommSides cs;
    PsiData psi;
    PsiBoundData bound;
    std::vector<double> keep(psi.size());
    UINT changed = 0;
    for (UINT r = 0; r < rounds; r++) {
        for (UINT c = 0; c < g_nCells; c++)
            for (UINT a = 0; a < g_nAngles; a++)
                for (UINT v = 0; v < 4; v++)
                    for (UINT g = 0; g < g_nGroups; g++)
                        psi(g, v, a, c) = 1.0 + g + g_nGroups * (v + 4 * (a + g_nAngles * (m.getLGCell(c) + 1000 * r)));
        for (UINT i = 0; i < psi.size(); i++)
            keep[i] = psi[i];
        for (UINT s = 0; s < m.getNSides(); s++)
            for (UINT a = 0; a < g_nAngles; a++)
                for (UINT v = 0; v < 3; v++)
                    for (UINT g = 0; g < g_nGroups; g++)
                        bound(g, v, a, s) = -(1.0 + g + g_nGroups * (v + 3 * (a + g_nAngles * s)));
        cs.commSides(psi, bound);
        for (UINT i = 0; i < psi.size(); i++)
            changed += keep[i] != psi[i];
        for (UINT s = 0; s < m.getNSides(); s++)
            for (UINT a = 0; a < g_nAngles; a++)
                for (UINT v = 0; v < 3; v++)
                    for (UINT g = 0; g < g_nGroups; g++)
                        put(f, bound(g, v, a, s));
    }
    MPI_Barrier(MPI_COMM_WORLD);
    int left = 0;
    MPI_Status st;
    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &left, &st);
    put(f, changed);
    put(f, (UINT)left);
    fclose(f);
    MPI_Finalize();
    return 0;
}
