// Builds sweep schedules and writes them out with global cell numbers.
#include "hcommon.hh"
#include "SweepSchedule.hh"
int main(int argc, char **argv)
{
    H::init(argc, argv);
    FILE *f = H::open_out("sched");
    // angle groups: "0,1,2;3,4;..." ; "-" stands for an empty group
    std::string spec = H::str("angles");
    std::vector<std::vector<UINT>> groups(1);
    for (size_t i = 0; i < spec.size();) {
        if (spec[i] == ';') {
            groups.push_back(std::vector<UINT>());
            i++;
        } else if (spec[i] == ',' || spec[i] == '-')
            i++;
        else {
            char *e;
            groups.back().push_back(strtoull(spec.c_str() + i, &e, 10));
            i = e - spec.c_str();
        }
    }
    for (size_t g = 0; g < groups.size(); g++) {
        SweepSchedule s(groups[g], g_maxCellsPerStep, g_intraAngleP, g_interAngleP);
        fprintf(f, "N %zu %lu\n", g, (UINT)s.nSteps());
        for (UINT t = 0; t < s.nSteps(); t++) {
            for (const SweepSchedule::Work &w : s.getWork(t))
                fprintf(f, "W %zu %lu %ld %lu\n", g, t,
                        w.getCell() < g_nCells ? (long)g_tychoMesh->getLGCell(w.getCell()) : -2L, w.getAngle());
            fprintf(f, "S %zu %lu", g, t);
            for (UINT p : s.getSendProcs(t))
                fprintf(f, " %lu", p);
            fprintf(f, "\nR %zu %lu", g, t);
            for (UINT p : s.getRecvProcs(t))
                fprintf(f, " %lu", p);
            fprintf(f, "\n");
        }
    }
    int flag;
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, MPI_STATUS_IGNORE);
    fprintf(f, "LEFT %d\nEND\n", flag);
    fclose(f);
    MPI_Finalize();
    return 0;
}
