// Linked into the real sweep.x: at the end writes the settings the run used.
#include "Global.hh"
#include "Mat.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cinttypes>
#include <unistd.h>

static void dump()
{
    const char *n = getenv("MON_GLOBALS");
    if (!n)
        return;
    const char *r = getenv("OMPI_COMM_WORLD_RANK");
    char b[512], c[520];
    snprintf(b, sizeof b, "%s.%s", n, r ? r : "0");
    snprintf(c, sizeof c, "%s.tmp", b);
    FILE *f = fopen(c, "w");
    if (!f)
        return;
#define U(x) fprintf(f, #x " %" PRIu64 "\n", (uint64_t)(x))
#define D(x) fprintf(f, #x " %a\n", (double)(x))
    U(g_snOrder); U(g_iterMax); U(g_maxCellsPerStep); U(g_intraAngleP); U(g_interAngleP); U(g_nGroups); U(g_ddIterMax);
    D(g_errMax); D(g_ddErrMax);
    U(g_outputFile); U(g_useSourceIteration);
    fprintf(f, "g_outputFilename %s\n", g_outputFilename.c_str());
    U(g_nAngles); U(g_nThreads); U(g_nAngleGroups);
    const char *st[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"};
    const SweepType sv[] = {SweepType_OriginalTycho1, SweepType_OriginalTycho2, SweepType_TraverseGraph, SweepType_PBJ,
                            SweepType_PBJOuter, SweepType_Schur, SweepType_SchurOuter, SweepType_PBJSI, SweepType_SchurKrylov};
    for (int i = 0; i < 9; i++)
        if (g_sweepType == sv[i])
            fprintf(f, "SweepType %s\n", st[i]);
    const char *gt[] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};
    const GaussElim gv[] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
    for (int i = 0; i < 4; i++)
        if (g_gaussElim == gv[i])
            fprintf(f, "GaussElim %s\n", gt[i]);
    fprintf(f, "MPIType %s\n", g_mpiType == MPIType_TychoTwoSided ? "TychoTwoSided" : g_mpiType == MPIType_CapsaicinTwoSided ? "CapsaicinTwoSided" : "?");
    if (g_tychoMesh) {
        for (UINT c = 0; c < g_nCells && c < g_sigmaT.size() && c < g_sigmaS.size(); c++)
            fprintf(f, "cell %" PRIu64 " %a %a\n", (uint64_t)g_tychoMesh->getLGCell(c), g_sigmaT[c], g_sigmaS[c]);
        fprintf(f, "cells %" PRIu64 " %zu %zu\n", (uint64_t)g_nCells, (size_t)g_sigmaT.size(), (size_t)g_sigmaS.size());
    }
    fclose(f);
    rename(c, b);
}

extern "C" int MPI_Finalize()
{
    dump();
    return PMPI_Finalize();
}
