// Monitored traversals: logs every callback of the traversal and, per rank,
// when it communicates.  The oracle is offline (checks/C04.py, C21.py).
#include "hcommon.hh"
#include "GraphTraverser.hh"
#include "Priorities.hh"
#include <atomic>
#include <sched.h>
#include <time.h>

struct Event {
    int64_t seq, type, thread, cell, angle;
    int64_t adj[4];
    int64_t bdry[4];
};
enum { E_UPDATE = 1, E_SIDE = 2, E_COMM = 3, E_BEGIN = 4, E_END = 5, E_PRIO = 6 };

static std::atomic<int64_t> g_seq(0);
static bool g_active = false;
static std::vector<std::vector<Event>> g_log;
static UINT g_delay = 0, g_delaySeed = 1;

static void nap(UINT x)
{
    if (!g_delay)
        return;
    UINT h = H::mix(x ^ (g_delaySeed * 7919) ^ ((UINT)H::rank << 40));
    if (h % 100 < g_delay) {
        if (h & 1024) {
            struct timespec t = {0, (long)((h >> 20) % 300000)};
            nanosleep(&t, 0);
        } else
            sched_yield();
    }
}

static void log_event(Event e)
{
    int t = omp_get_thread_num();
    e.thread = t;
    e.seq = g_seq++;
    g_log[t].push_back(e);
}

// communication steps are seen through the profiling interface
static void comm_event()
{
    if (g_active) {
        Event e;
        memset(&e, 0, sizeof e);
        e.type = E_COMM;
        log_event(e);
        nap(g_seq);
    }
}
extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ comm_event(); return PMPI_Isend(b, n, d, p, t, c, r); }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ comm_event(); return PMPI_Issend(b, n, d, p, t, c, r); }
int MPI_Send(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c)
{ comm_event(); return PMPI_Send(b, n, d, p, t, c); }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ comm_event(); return PMPI_Irecv(b, n, d, p, t, c, r); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Status *s)
{ comm_event(); return PMPI_Recv(b, n, d, p, t, c, s); }
int MPI_Iprobe(int p, int t, MPI_Comm c, int *f, MPI_Status *s)
{
    comm_event();
    if (g_active && g_delay && H::mix(g_seq * 31 + H::rank) % 3 == 0) {
        *f = 0;         // the message is still on its way
        return MPI_SUCCESS;
    }
    return PMPI_Iprobe(p, t, c, f, s);
}
}

static UINT filler(UINT gcell, UINT gside, UINT angle, UINT round, UINT i)
{
    return H::mix(gcell * 1000003 + gside * 10007 + angle * 101 + round * 13 + i) & 0xff;
}

class Monitor : public TraverseData
{
public:
    UINT size, round, prioRange, prioSeed;
    std::vector<char> store;       // (cell, face, angle) -> data
    Monitor(UINT size_, UINT round_, UINT range, UINT seed) : size(size_), round(round_), prioRange(range), prioSeed(seed)
    {
        store.assign(g_nCells * 4 * g_nAngles * size, 0);
    }
    virtual const char *getData(UINT cell, UINT face, UINT angle)
    {
        char *p = &store[((cell * 4 + face) * g_nAngles + angle) * size];
        UINT side = g_tychoMesh->getSide(cell, face);
        UINT gs = side < g_tychoMesh->getNSides() ? g_tychoMesh->getLGSide(side) : 0;
        UINT v[3] = {g_tychoMesh->getLGCell(cell), gs, angle * 1000 + round};
        for (UINT i = 0; i < size; i++)
            p[i] = filler(v[0], v[1], angle, round, i);
        memcpy(p, v, size < sizeof v ? size : sizeof v);
        return p;
    }
    virtual void setSideData(UINT side, UINT angle, const char *data)
    {
        Event e;
        memset(&e, 0, sizeof e);
        e.type = E_SIDE;
        bool ok = side < g_tychoMesh->getNSides() && angle < g_nAngles;
        e.cell = ok ? (int64_t)g_tychoMesh->getLGSide(side) : -2;
        e.angle = angle;
        UINT v[3] = {0, 0, 0};
        memcpy(v, data, size < sizeof v ? size : sizeof v);
        e.adj[0] = v[0];
        e.adj[1] = v[1];
        e.adj[2] = v[2];
        bool good = true;
        for (UINT i = sizeof v; i < size; i++)
            good = good && (UINT)(unsigned char)data[i] == filler(v[0], v[1], angle, round, i);
        e.adj[3] = good;
        log_event(e);
    }
    UINT prio(UINT gcell, UINT angle) { return H::mix(gcell * 4099 + angle * 17 + prioSeed) % prioRange; }
    virtual UINT getPriority(UINT cell, UINT angle)
    {
        return cell < g_nCells ? prio(g_tychoMesh->getLGCell(cell), angle) : 0;
    }
    virtual void update(UINT cell, UINT angle, UINT adj[g_nFacePerCell], BoundaryType bdry[g_nFacePerCell])
    {
        Event e;
        memset(&e, 0, sizeof e);
        e.type = E_UPDATE;
        e.cell = cell < g_nCells ? (int64_t)g_tychoMesh->getLGCell(cell) : -2;
        e.angle = angle;
        for (int k = 0; k < 4; k++) {
            e.bdry[k] = bdry[k];
            switch (bdry[k]) {
            case BoundaryType_OutInt:
            case BoundaryType_InInt:
                e.adj[k] = adj[k] < g_nCells ? (int64_t)g_tychoMesh->getLGCell(adj[k]) : -2;
                break;
            case BoundaryType_OutIntBdry:
            case BoundaryType_InIntBdry:
                e.adj[k] = adj[k] < g_tychoMesh->getNSides() ? (int64_t)g_tychoMesh->getLGSide(adj[k]) : -2;
                break;
            default:
                e.adj[k] = -1;
            }
        }
        log_event(e);
        nap(e.seq * 131 + e.cell);
    }
};

int main(int argc, char **argv)
{
    H::init(argc, argv);
    g_log.resize(g_nThreads + 1);
    g_delay = H::uint("delay", 0);
    g_delaySeed = H::uint("seed", 1);
    std::string plan = H::str("plan", "FC");     // per traversal: F/B direction, C/L communication
    UINT n = plan.size() / 2;
    std::map<std::string, GraphTraverser *> trav;
    UINT size = H::uint("size", 24);
    for (UINT i = 0; i < n; i++) {
        std::string k = plan.substr(2 * i, 2);
        if (!trav.count(k))
            trav[k] = new GraphTraverser(k[0] == 'F' ? Direction_Forward : Direction_Backward, k[1] == 'C', size);
        Monitor mon(size, i, H::uint("prios", 1000), g_delaySeed);
        Event e;
        memset(&e, 0, sizeof e);
        e.type = E_BEGIN;
        e.cell = i;
        log_event(e);
        g_active = true;
        trav[k]->traverse(g_maxCellsPerStep, mon);
        g_active = false;
        e.type = E_END;
        log_event(e);
    }
    if (H::uint("calc", 0)) {
        Mat2<UINT> p(g_nCells, g_nAngles);
        Priorities::calcPriorities(p);
        for (UINT c = 0; c < g_nCells; c++)
            for (UINT a = 0; a < g_nAngles; a++) {
                Event e;
                memset(&e, 0, sizeof e);
                e.type = E_PRIO;
                e.cell = g_tychoMesh->getLGCell(c);
                e.angle = a;
                e.adj[0] = p(c, a);
                log_event(e);
            }
    }
    FILE *f = H::open_out("trav");
    for (auto &l : g_log)
        fwrite(l.data(), sizeof(Event), l.size(), f);
    fclose(f);
    MPI_Finalize();
    return 0;
}
