// Dumps a quadrature set through every getter.
#include "hcommon.hh"
#include <cstdint>
#include <cinttypes>
int main(int argc, char **argv)
{
    H::args["sn"] = "0";
    for (int i = 1; i < argc; i++) ;
    H::init(argc, argv);
    Quadrature q(H::uint("order", 2));
    FILE *f = H::open_out("quad");
    for (UINT a = 0; a < g_nAngles; a++) {
        std::vector<double> o = q.getOmega(a);
        fprintf(f, "%zu %a %a %a %a %a %a %a\n", o.size(), q.getXi(a), q.getEta(a), q.getMu(a), q.getWt(a), o[0], o[1], o[2]);
    }
    fclose(f);
    printf("ACCEPTED\n");
    MPI_Finalize();
    return 0;
}
