// Mesh file readers and writers: copies files, and dumps what each rank reads.
#ifndef PARALLEL_MESH_READ_SERIAL_ONLY
#include <mpi.h>
#include "Comm.hh"
#endif
#include <cstdio>
#include <cstring>
#include <string>
#include "ParallelMesh.hh"
#include "SerialMesh.hh"

static inline void put(FILE *f, const void *p, size_t n) { fwrite(p, 1, n, f); }

int main(int argc, char **argv)
{
#ifndef PARALLEL_MESH_READ_SERIAL_ONLY
    MPI_Init(&argc, &argv);
#endif
    std::string mode = argv[1];
    if (mode == "s" || mode == "s2") {
        SerialMesh m;
        if (mode == "s2")       // read into an object that already holds another mesh
            m.read(argv[4]);
        m.read(argv[2]);
        m.write(argv[3]);
    }
    else if (mode == "p" || mode == "p2") {
        ParallelMesh m;
        if (mode == "p2")
            m.read(argv[4]);
        m.read(argv[2]);
        m.write(argv[3]);
    }
#ifndef PARALLEL_MESH_READ_SERIAL_ONLY
    else {
        ParallelMesh::PartitionData d;
        if (mode == "r2")
            ParallelMesh::readInParallel(argv[4], d);
        ParallelMesh::readInParallel(argv[2], d);
        char b[512];
        snprintf(b, sizeof b, "%s.%d", argv[3], (int)Comm::rank());
        FILE *f = fopen(b, "wb");
        uint64_t h[3] = {d.numCells, d.numFaces, d.numNodes};
        uint64_t s[3] = {d.cellData.size(), d.faceData.size(), d.nodeData.size()};
        if (memcmp(h, s, sizeof h))
            h[0] = ~0ull;
        put(f, h, sizeof h);
        for (auto &c : d.cellData) {
            for (int i = 0; i < 4; i++) put(f, &c.boundingFaces[i], 8);
            for (int i = 0; i < 4; i++) put(f, &c.boundingNodes[i], 8);
            put(f, &c.globalID, 8);
            put(f, &c.materialIndex, 8);
        }
        for (auto &c : d.faceData) {
            for (int i = 0; i < 2; i++) put(f, &c.boundingCells[i], 8);
            for (int i = 0; i < 3; i++) put(f, &c.boundingNodes[i], 8);
            put(f, &c.globalID, 8);
            for (int i = 0; i < 2; i++) put(f, &c.partition[i], 8);
            put(f, &c.boundaryType, 8);
        }
        for (auto &c : d.nodeData) {
            for (int i = 0; i < 3; i++) put(f, &c.coords[i], 8);
            put(f, &c.globalID, 8);
        }
        fclose(f);
    }
    MPI_Finalize();
#endif
    printf("READ COMPLETELY\n");
    return 0;
}
