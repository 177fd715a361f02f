"""writes properties.jsonl"""
import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if obs: a['observe_at']=obs
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier={'over':over,'text':q},why_tests_cant=why,anchors=a))
S='src/'
p('C01','Each source iteration solves the discretised transport equation exactly',
 'For any tetrahedral mesh, materials, cross sections, quadrature order, group count and partition, the angular flux written after k source iterations is, to rounding, the solution of the upwind discontinuous finite element equations of every cell, direction and group, with the fixed source plus the scattering of the scalar flux of iteration k-1 (iteration 0 being zero) on the right and no flux entering from outside. It is finite, and non-zero when the source is.',
 ['inputs','configurations'],'every acyclic tetrahedral mesh x cross sections x SN order x group count x number of iterations, in all sweep types, partitions and local solvers',
 'The regression tests compare one 1374-cell cube with one gold file; nothing ties the gold file to the equations, and other meshes, materials, orders, groups never run.',
 [S+'Transport.cc',S+'Util.cc',S+'SourceIteration.cc',S+'TychoMesh.cc',S+'Problem.cc'],
 [('volume, streaming and face terms of one cell','src/Transport.cc Transport::solve'),('scattering source','src/Util.cc calcTotalSource'),('iteration','src/SourceIteration.cc')],
 ['psi output file after k-1 and k iterations'])
p('C02','All solution methods converge to the same transport solution',
 'Direct sweeps, parallel block Jacobi (inner, outer and with source iteration) and Schur complement methods (inner, outer and Krylov), each with source iteration or with GMRES where the method allows it, converge when given tight tolerances and enough iterations. The flux each of them writes satisfies the full discretised equation with scattering and cross-partition coupling, to a residual set by the tolerances, hence is the same for all methods.',
 ['inputs','configurations'],'every method x outer iteration kind x mesh x partition x cross sections x thread count',
 'The tests run every method on one mesh with one cross section to a loose tolerance and compare with one gold file.',
 [S+'SweeperPBJ.cc',S+'SweeperSchur.cc',S+'SourceIteration.cc',S+'KrylovSolver.cc',S+'Sweeper.cc',S+'SweeperTraverse.cc'],
 [('block Jacobi loops','src/SweeperPBJ.cc'),('Schur operator and right hand side','src/SweeperSchur.cc'),('GMRES wrapper','src/KrylovSolver.cc'),('fixed point / Krylov outer','src/SourceIteration.cc')],['psi output file'])
p('C03','Results do not depend on partition, ranks, threads or sweep schedule',
 'For one problem and direct sweeps, changing the mesh partition, number of ranks, number of threads, sweep implementation, message scheme, cells per step or priorities changes neither the flux (beyond rounding) nor the iteration history and reported norms. Repeating a run with identical settings reproduces its flux bit for bit.',
 ['schedules','configurations','inputs'],'pairs of configurations of the same problem, all interleavings of ranks and threads',
 'Tests compare a few fixed configurations of one mesh with a tolerance; no test repeats a run, uses ragged partitions, more threads than angles, or other step sizes than two.',
 [S+'GraphTraverser.cc',S+'Sweeper.cc',S+'SweeperTraverse.cc',S+'SweepSchedule.cc',S+'Priorities.cc',S+'Comm.cc',S+'PsiData.cc'],
 [('per angle cell order','src/GraphTraverser.cc'),('ordered reductions','src/Comm.cc')],['psi output file','iteration log on stdout'])
p('C04','A graph traversal visits everything exactly once, in dependency order, and ends',
 'A traversal of the mesh in either direction visits every (cell, angle) pair of every partition exactly once, never before all its upstream neighbours (of the local partition, or of all partitions when communication is on) were visited, and then returns. At each visit the neighbouring cells or boundary sides and the boundary kinds handed to the client are those of the mesh, and data computed upstream on another partition was delivered, unmodified and once, before the visit.',
 ['schedules','inputs','configurations'],'all meshes x partitions x threads x cells per step x both directions x communication on/off x message schemes x message timings',
 'Tests only see the final flux of forward traversals of one mesh; order, multiplicity, the backward direction and the client arguments are invisible to them.',
 [S+'GraphTraverser.cc',S+'GraphTraverser.hh'],[('dependency counters and queue','src/GraphTraverser.cc traverse'),('send/recv data','src/GraphTraverser.cc')],['callbacks of the traversal'])
p('C05','The precomputed sweep schedule is complete, ordered and matched across ranks',
 'For any mesh, partition, priorities and cells-per-step limit, the schedule lists every local (cell, angle) of its angle group exactly once over its steps, at most the limit per step, and each only after all its upwind neighbours: on the same rank earlier in the order, on another rank in a strictly earlier step. All ranks agree on the number of steps, and the ranks a rank sends to after a step are exactly those that receive from it at that step and need the data; building it works for any number of angle groups.',
 ['inputs','configurations'],'all meshes x partitions x ranks x angle groups x limits x priority kinds',
 'The tests run the schedule-driven sweeps on one mesh and see only the final flux; incomplete or misordered schedules may still produce it.',
 [S+'SweepSchedule.cc',S+'SweepSchedule.hh',S+'Sweeper.cc'],[('step construction','src/SweepSchedule.cc')],['getters of the schedule','flux of the schedule-driven sweeps'])
p('C06','Face data crosses partition boundaries to exactly the right place, unmodified',
 'When partitions exchange face data, every incoming shared face of each rank receives, for each vertex, angle and group, exactly the value held by the upwind cell on the other rank at the same geometric vertex. No other boundary value changes, nothing is delivered twice, and no message is left over.',
 ['inputs','schedules','configurations'],'all meshes x partitions x ranks x orders x groups x message timings, repeated exchanges',
 'The tests use one partition per rank count of one mesh and check only converged fluxes with a tolerance.',
 [S+'CommSides.cc',S+'CommSides.hh',S+'PsiData.cc',S+'SweeperPBJ.cc',S+'SweeperSchur.cc',S+'GraphTraverser.cc'],
 [('packing and unpacking','src/CommSides.cc'),('face vertex correspondence','src/TychoMeshIO.cc')],['boundary flux before and after an exchange'])
p('C07','Message passing is correct for every buffering and timing the standard allows',
 'No run relies on the MPI library buffering sends, on message timing or on the eager limit: it completes with the same result when every send completes only after the receive is posted, when messages are delayed, and with any number of ranks. The buffer of a nonblocking operation is neither modified nor freed before completion, every request is completed, every message is received with matching size, and MPI is called only from the threads the requested thread level allows.',
 ['schedules','configurations'],'all message timings x buffering x ranks x communication schemes',
 'The tests run with one MPI library whose eager buffering of small messages hides lost synchronisation.',
 [S+'Comm.cc',S+'GraphTraverser.cc',S+'Sweeper.cc',S+'SweepSchedule.cc',S+'CommSides.cc',S+'TychoMesh.cc',S+'TychoMeshIO.cc',S+'ParallelMesh.cc',S+'Main.cc'],
 [('wrappers','src/Comm.cc'),('two message schemes','src/GraphTraverser.cc')],['every MPI call, through the profiling interface'])
p('C08','No memory error or undefined behaviour in the solver or the mesh tools',
 'On every valid input and configuration the solver and the mesh utilities run without out-of-bounds, use-after-free or uninitialised accesses, integer or conversion undefined behaviour, invalid pointers or stack misuse, and finish normally. The same holds for input that is refused - bad decks, cut-short or foreign mesh files - up to the refusal.',
 ['inputs','configurations','schedules'],'all valid meshes, decks, partitions, rank and thread counts, degenerate sizes included, and damaged inputs',
 'Tests run uninstrumented optimised binaries where such errors rarely show.',
 [S+'Mat.hh',S+'PsiData.hh',S+'GraphTraverser.cc',S+'SweepSchedule.cc',S+'Priorities.cc',S+'TychoMeshIO.cc',S+'ParallelMesh.cc',S+'SerialMesh.cc',S+'KeyValueReader.cc','util/RefineSerialMesh.cc','util/PartitionColumns.cc','util/PartitionMetis.cc'],
 [('containers with bounds asserts','src/Mat.hh, src/PsiData.hh')],['AddressSanitizer, UndefinedBehaviorSanitizer, valgrind'])
p('C09','Threads never race on shared data',
 'With any number of threads, sweeps of every kind, source and flux computations, and all communication perform no two conflicting unsynchronised accesses to the same memory from different threads.',
 ['schedules','configurations'],'all interleavings of OpenMP threads, all sweep types, meshes, partitions and orders',
 'Tests run three threads a few times and a race rarely changes the final numbers.',
 [S+'GraphTraverser.cc',S+'Sweeper.cc',S+'SweeperAbstract.hh',S+'SweeperTraverse.cc',S+'Util.cc',S+'CommSides.cc',S+'Comm.cc',S+'SweeperSchur.cc'],
 [('angle groups owned by threads, critical sections','src/GraphTraverser.cc, src/Sweeper.cc, src/Comm.cc')],['ThreadSanitizer with an instrumented OpenMP runtime'])
p('C10','The flux output file is complete, in global order, and only written on request',
 'The output file has the documented header and length and holds, for every global cell, angle, vertex and group, exactly the value the owning rank computed, whatever the partition. It replaces any earlier file of that name entirely, and is written under the requested name if and only if the deck asks for it.',
 ['inputs','configurations','histories'],'all partitions x ranks x orders x groups x pre-existing files x deck settings',
 'The tests compare cell data of one mesh within a tolerance and never over a larger old file.',
 [S+'PsiData.cc',S+'Comm.cc',S+'Main.cc'],[('collective write','src/PsiData.cc writeToFile')],['bytes of the output file'])
p('C11','Partitioning assigns every cell once and preserves the whole mesh',
 'The partitioners produce, for any mesh and part count they accept, a parallel mesh in which every cell, face, node and material of the serial mesh appears unchanged with its global number, each cell in exactly one partition, with correct boundary kinds and neighbour partition and cell ids on both sides of each cut. Columns are regular in x-y with cells sorted by centroid, and sizes are balanced as each tool promises; repeating the tool gives the same file.',
 ['inputs','configurations'],'all serial meshes x part counts x both tools',
 'No test compares a partitioned mesh with its serial mesh; tests run each once on a cube.',
 ['util/PartitionColumns.cc','util/PartitionMetis.cc',S+'ParallelMesh.cc'],[('createFromSerialMesh','src/ParallelMesh.cc'),('column split','util/PartitionColumns.cc')],['parallel mesh files'])
p('C12','Mesh files round-trip exactly and damaged ones are refused',
 'Reading a serial or parallel mesh file and writing it back reproduces it byte for byte, and reading partitions in parallel yields on each rank what the serial reader yields for that partition. A file with another magic string or version, cut short at any byte, or with a number of partitions different from the number of ranks, is refused with a non-zero exit and never used as if complete.',
 ['inputs','fault_sequences'],'all meshes, all truncation points and header damage',
 'No test reads a damaged file or compares what was read with the file.',
 [S+'SerialMesh.cc',S+'ParallelMesh.cc',S+'Comm.cc'],[('readers and writers','src/SerialMesh.cc, src/ParallelMesh.cc')],['files, reader output, exit status'])
p('C13','The in-memory mesh agrees with the mesh file in geometry and topology',
 'For any mesh and partition, what each rank reports about its mesh - volumes, face areas, unit outward normals, node coordinates, materials, neighbours, boundary sides, neighbour ranks and cells, matching of local vertices between neighbouring cells, matching side numbers on two ranks, upwind classification per angle - equals what the mesh file implies. Both ranks of a shared face agree on all of it.',
 ['inputs','configurations'],'all meshes x partitions x file orderings of faces, cells and nodes',
 'Tests see only fluxes of one mesh from one generator, whose ordering is always the same.',
 [S+'TychoMesh.cc',S+'TychoMeshIO.cc',S+'TychoMesh.hh'],[('construction','src/TychoMeshIO.cc')],['getters of the mesh on every rank'])
p('C14','Refinement gives a conforming mesh of 8 times the cells and the same volume',
 'Refining any valid serial mesh splits every tetrahedron into eight children that tile it exactly, have positive volume and inherit its material, using only the old nodes and the edge midpoints, each once. The result is a valid conforming mesh: faces match neighbours, the boundary is the refined old boundary, and the file can be refined again.',
 ['inputs','histories'],'all valid serial meshes, repeated refinements',
 'No test runs the refinement.',
 ['util/RefineSerialMesh.cc',S+'SerialMesh.cc'],[('edge midpoints and child tables','util/RefineSerialMesh.cc')],['serial mesh files'])
p('C15','Quadrature sets are valid, symmetric and exact to their order',
 'For each even order N from 2 to 30 the set has 2N^2 distinct unit directions with positive weights summing to 4 pi. It is mapped onto itself, weights included, by the reflection of each coordinate, and integrates every polynomial of the direction of degree below 2N exactly, to the precision of its table. Direction and weight of an angle are the same on each rank and from each getter, and every other order is refused.',
 ['inputs','configurations'],'every accepted order and every rejected one',
 'Tests run order 8 only (one deck) and would not notice a wrong direction of another order.',
 [S+'Quadrature.cc',S+'Quadrature.hh'],[('product of Gauss-Legendre and equally spaced azimuths','src/Quadrature.cc')],['getters, deck with that order'])
p('C16','Decks are read exactly, and wrong decks are refused before any work',
 'Every setting of the input deck takes effect with exactly the value written, whatever the order, spacing, letter case of keys or comments, with or without a final line end. A deck with a missing, repeated, malformed, out-of-type, unknown-choice or out-of-range setting, or a missing file, makes every rank stop with a non-zero status and a message, without hanging and without writing a flux file.',
 ['inputs','fault_sequences'],'all deck texts: formats, orders, damages',
 'The tests use one well-formed deck layout.',
 [S+'KeyValueReader.cc',S+'Main.cc',S+'Global.hh'],[('parser','src/KeyValueReader.cc'),('reading of settings','src/Main.cc readInput')],['settings echoed and used, exit status, output file'])
p('C17','Local cell solvers solve their 4x4 systems and agree with each other',
 'For any cell, direction, cross section, source and inflow, each of the four local solvers returns a finite flux that satisfies the local equations to rounding appropriate for the method, so all agree. Solving leaves its inputs unchanged and touches the flux of no other cell, angle or group.',
 ['inputs','configurations'],'all cells, sizes from tiny to huge, optical thickness from void to opaque, all solvers',
 'The tests run each solver on one mesh with one cross section.',
 [S+'Transport.cc'],[('elimination and Cramer kernels','src/Transport.cc')],['flux returned by the local solve'])
p('C18','Particles are conserved: source and scattering equal absorption and leakage',
 'In every written direct-sweep iterate, in every cell, direction and group, and in total, outflow minus inflow through the faces plus collisions equals the emission of fixed source plus scattering of the previous iterate, to rounding. In converged solutions source equals absorption plus leakage, and what leaves one partition enters the other.',
 ['inputs','configurations'],'all meshes, cross sections, partitions and methods',
 'No test computes a balance.',
 [S+'Transport.cc',S+'Util.cc',S+'CommSides.cc'],[('face integrals','src/Transport.cc'),('operatorS and total source','src/Util.cc')],['psi output file'])
p('C19','Energy groups are independent identical copies of the one-group problem',
 'Since all groups share source and cross sections, every group of a run has the flux of the one-group run, bit for bit in direct sweeps, for any number of groups. The reported group difference is then zero.',
 ['inputs','configurations'],'all group counts x meshes x partitions x methods',
 'The tests use one group count on one mesh.',
 [S+'Transport.cc',S+'Util.cc',S+'PsiData.hh',S+'CommSides.cc'],[('group loops and strides','src/Transport.cc, src/PsiData.hh')],['psi output file, reported group difference'])
p('C20','Iterations stop exactly when they should and report the truth',
 'Source iteration performs the first number of iterations whose reported error is at most the tolerance, or the maximum; each reported error is the relative L1 change of the scalar flux over all partitions. Domain decomposition iterations (block Jacobi in all three forms, Schur complement in all three forms) and Krylov solves likewise stop at the first iterate within the tolerance or at the limit, report how many iterations they did and the error or residual norm reached, and leave the flux of that iterate. The final error norm and group difference printed describe the written flux, on any partition.',
 ['inputs','configurations'],'all tolerances, limits, meshes, partitions',
 'Tests never look at the printed errors or counts.',
 [S+'SourceIteration.cc',S+'Util.cc',S+'Problem.cc',S+'SweeperPBJ.cc',S+'SweeperSchur.cc',S+'KrylovSolver.cc',S+'Main.cc'],
 [('stopping test','src/SourceIteration.cc'),('reports','src/Main.cc, src/Problem.cc, src/Util.cc')],['stdout versus psi files of each iterate count'])
p('C21','Traversals honour the priorities and the work limit between communications',
 'Among the (cell, angle) pairs ready in an angle group, traversal and schedule always take one of highest priority next, and at most the configured number per angle group between two communications. The priorities computed for a mesh follow the documented definition of the chosen kinds (b-levels and descendant seeking inside an angle, and the documented orderings between angles; random kinds excepted) on every mesh and partition, identically on every run.',
 ['schedules','inputs','configurations'],'all priority kinds x meshes x partitions x limits',
 'Priorities never change the flux, so no test can see them.',
 [S+'Priorities.cc',S+'GraphTraverser.cc',S+'SweepSchedule.cc'],[('priority queue','src/GraphTraverser.cc'),('priority definitions','src/Priorities.cc')],['callbacks of the traversal, computed priorities'])
p('C22','The built-in test problem is the documented one',
 'At every vertex of every cell the fixed source is the one of which the documented hat function (1 - r/30 around the centre of the cube of side 100, zero beyond r = 30) is the exact solution: Omega.grad(hat) + (sigmaT - sigmaS) hat, with the cell\'s own cross sections, the last term alone at the centre, and zero beyond; equal in all groups. The cross sections of a cell are the deck\'s for its material, 1 or 2, and any other material is refused. The reported error is the relative L2 distance, over all cells, directions and groups of all partitions, between the cell averages of the flux and the hat at the centroid; all of it is finite for every mesh.',
 ['inputs','configurations'],'all node positions (centre and rim included), materials, cross sections',
 'The tests use one mesh with nodes at a few distances, and one material value pair.',
 [S+'Problem.cc',S+'Main.cc'],[('hat source and error','src/Problem.cc'),('cross sections by material','src/Problem.cc, src/Main.cc')],['source and cross sections each rank uses, printed error'])
p('C23','The mesh info tools print exactly what the mesh file contains',
 'For any serial or parallel mesh file, the info tools print the counts and, in verbose mode, every record of every cell, face and node with exactly the values of the file, in file order. The parallel tool prints the same for serially and parallel read data.',
 ['inputs'],'all mesh files',
 'No test runs the info tools.',
 ['util/SerialMeshInfo.cc','util/ParallelMeshInfo.cc',S+'SerialMesh.cc',S+'ParallelMesh.cc'],[('print','src/SerialMesh.cc, src/ParallelMesh.cc')],['stdout'])
p('C24','Input or output that cannot be completed is reported, never passed over',
 'When an input file cannot be read, or an output file cannot be written completely - a read or write fails or transfers only a part, on any rank and at any call, the disk is full, the directory is missing, the name is that of a directory - the run or tool ends, in time and on every rank, with a non-zero status. Status zero is only returned with the complete, correct output file in place.',
 ['fault_sequences','configurations'],'all read and write calls x kinds of failure x ranks, all positions at which a disk can be full',
 'No test injects a fault; all files are always readable and the disk is never full.',
 [S+'Comm.cc',S+'PsiData.cc',S+'SerialMesh.cc',S+'ParallelMesh.cc',S+'KeyValueReader.cc'],[('MPI-IO reads and writes','src/Comm.cc'),('mesh readers and writers','src/SerialMesh.cc, src/ParallelMesh.cc')],['exit status, output files'])
p('C25','Mesh converters keep cells, nodes, faces and materials',
 'Converting a MOAB mesh gives a serial mesh with exactly its tetrahedra, nodes and coordinates, every face once with its cells, and material 1 everywhere, or 2 for cells whose centroid is inside of the cube from 25 to 75 in each coordinate when that was asked for; any other choice writes nothing. Converting serial and parallel meshes to MOAB writes every cell, of each partition to its own file, all listed in the index file, with the coordinates of its vertices.',
 ['inputs'],'all meshes, partitions and menu choices',
 'No test runs a converter; MOAB is not even needed by the build.',
 ['util/MoabToSerialMesh.cc','util/SerialMeshToMoab.cc','util/ParallelMeshToMoab.cc'],[('conversions','util/MoabToSerialMesh.cc, util/SerialMeshToMoab.cc, util/ParallelMeshToMoab.cc')],['files read and written'])
p('C26','Build options change neither results nor refusals',
 'The same problem gives the same flux, iterations and printed errors whether the program is built with or without assertions, with or without PETSc, with any optimisation level and by any conforming compiler, and the mesh tools write the same files. Without PETSc the methods that need it are refused with a message, on all ranks and before any output. Decks that are refused are refused in every build.',
 ['configurations','inputs'],'builds (ASSERT_ON, USE_PETSC, optimisation, compiler) x methods x problems x partitions',
 'The tests run one build.',
 [S+'Assert.hh',S+'KrylovSolver.hh',S+'Main.cc','Makefile'],[('assertions without side effects','src/Assert.hh'),('refusal without PETSc','src/KrylovSolver.hh')],['psi output files of several builds, exit status'])
p('C27','What a run holds does not grow with the number of its iterations',
 'Memory in use by the program and its libraries, open files and threads reach a steady state after the first iterations and stay there however many source, inner or Krylov iterations follow, on every rank and in every method; at most a short record per iteration is kept.',
 ['histories','configurations'],'numbers of iterations x methods x message schemes x partitions x threads',
 'Nothing in the tests looks at resources, and they run few iterations.',
 [S+'SourceIteration.cc',S+'GraphTraverser.cc',S+'CommSides.cc',S+'SweeperPBJ.cc',S+'SweeperSchur.cc',S+'KrylovSolver.cc',S+'PsiData.hh',S+'Mat.hh'],
 [('owned arrays','src/PsiData.hh, src/Mat.hh'),('buffers of exchanges','src/CommSides.cc, src/GraphTraverser.cc')],['allocations of the process at global reductions'])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
