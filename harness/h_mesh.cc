// Writes everything a rank's mesh reports about itself.
#include "hcommon.hh"
int main(int argc, char **argv)
{
    H::init(argc, argv);
    const TychoMesh &m = *g_tychoMesh;
    FILE *f = H::open_out("mesh");
    const UINT NONE = UINT64_MAX;
    fprintf(f, "N %lu %lu %lu %lu\n", g_nCells, m.getNSides(), m.getNNodes(), g_nAngles);
    for (UINT a = 0; a < g_nAngles; a++)
        fprintf(f, "A %lu %.17g %.17g %.17g %.17g\n", a, g_quadrature->getXi(a), g_quadrature->getEta(a),
                g_quadrature->getMu(a), g_quadrature->getWt(a));
    for (UINT c = 0; c < g_nCells; c++) {
        fprintf(f, "C %lu %lu %lu %.17g", c, m.getLGCell(c), m.getCellMaterial(c), m.getCellVolume(c));
        for (UINT v = 0; v < 4; v++)
            for (UINT d = 0; d < 3; d++)
                fprintf(f, " %.17g", m.getNodeCoord(m.getCellNode(c, v), d));
        for (UINT v = 0; v < 4; v++)
            fprintf(f, " %lu", m.getCellNode(c, v));
        fprintf(f, "\n");
        for (UINT k = 0; k < 4; k++) {
            UINT adj = m.getAdjCell(c, k);
            fprintf(f, "F %lu %lu %lu %lu %lu %lu %.17g", c, k, adj,
                    adj == TychoMesh::BOUNDARY_FACE ? NONE : m.getAdjFace(c, k), m.getAdjRank(c, k), m.getSide(c, k),
                    m.getFaceArea(c, k));
            for (UINT v = 0; v < 3; v++)
                fprintf(f, " %lu", m.getFaceToCellVrtx(c, k, v));
            for (UINT v = 0; v < 3; v++)
                fprintf(f, " %lu", adj == TychoMesh::BOUNDARY_FACE ? NONE : m.getNeighborVrtx(c, k, v));
            for (UINT v = 0; v < 4; v++)
                fprintf(f, " %lu", v == k ? NONE : m.getCellToFaceVrtx(c, k, v));
            fprintf(f, "\n");
            UINT s = m.getSide(c, k);
            if (adj == TychoMesh::BOUNDARY_FACE && s < m.getNSides()) {
                UINT g = m.getLGSide(s);
                bool in = m.getAdjRank(c, k) != TychoMesh::BAD_RANK;
                fprintf(f, "S %lu %lu %lu %lu %lu %lu %lu %lu\n", c, k, s, m.getSideCell(s), g, m.getGLSide(g),
                        in ? m.getAdjCellFromSide(s) : NONE, in ? m.getAdjFaceFromSide(s) : NONE);
            }
            for (UINT a = 0; a < g_nAngles; a++)
                fprintf(f, "O %lu %lu %lu %.17g %d %d\n", c, k, a, m.getOmegaDotN(a, c, k), (int)m.isOutgoing(a, c, k),
                        (int)m.isIncoming(a, c, k));
        }
    }
    fprintf(f, "END\n");
    fclose(f);
    MPI_Finalize();
    return 0;
}
