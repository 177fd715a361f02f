// Shared start-up of the harnesses: the same globals Main.cc sets up.
#ifndef HCOMMON_HH
#define HCOMMON_HH
#include "Global.hh"
#include "Mat.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "PsiData.hh"
#include <mpi.h>
#include <omp.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>

namespace H {
static std::map<std::string, std::string> args;
static int rank = 0, nranks = 1;

static std::string str(const char *k, const char *def = "")
{
    return args.count(k) ? args[k] : std::string(def);
}
static double num(const char *k, double def) { return args.count(k) ? atof(args[k].c_str()) : def; }
static UINT uint(const char *k, UINT def) { return args.count(k) ? strtoull(args[k].c_str(), 0, 10) : def; }

static inline UINT mix(UINT x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

// arguments are key=value
static void init(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        size_t e = a.find('=');
        args[a.substr(0, e)] = a.substr(e + 1);
    }
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &provided);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &nranks);
    g_nThreads = g_nAngleGroups = omp_get_max_threads();
    g_nGroups = uint("groups", 1);
    g_snOrder = uint("sn", 2);
    g_iterMax = uint("iterMax", 1);
    g_errMax = num("errMax", 1e-10);
    g_ddIterMax = uint("ddIterMax", 100);
    g_ddErrMax = num("ddErrMax", 1e-10);
    g_maxCellsPerStep = uint("max", 100);
    g_intraAngleP = uint("intra", 0);
    g_interAngleP = uint("inter", 0);
    g_useSourceIteration = true;
    g_outputFile = false;
    g_sweepType = SweepType_TraverseGraph;
    g_gaussElim = GaussElim_Original;
    g_mpiType = str("mpi") == "CapsaicinTwoSided" ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
    g_graphTraverserForward = NULL;
    if (g_snOrder > 0)
        g_quadrature = new Quadrature(g_snOrder);
    if (args.count("mesh"))
        g_tychoMesh = new TychoMesh(str("mesh"));
}

static FILE *open_out(const char *name)
{
    char b[256];
    snprintf(b, sizeof b, "%s.%d", name, rank);
    FILE *f = fopen(b, "wb");
    if (!f) {
        perror(b);
        exit(3);
    }
    return f;
}
}
#endif
