"""writes MANIFEST.json from the checks that exist"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('offline oracle (independent discretisation) over recorded fluxes of random runs', 'reference defect per cell, direction, vertex and group, 1e-9 relative'),
 'C02': ('offline residual monitor over converged runs of all nine methods', 'residual of the full equation against the requested tolerance'),
 'C03': ('differential runs under perturbed schedules and partitions, bitwise repeats', 'fluxes and iteration logs of pairs of configurations'),
 'C04': ('online event recording in the traversal callbacks, offline exactly-once/ordering/payload checker', 'events of every rank and thread against the graph implied by the mesh file'),
 'C05': ('offline trace checker over dumped schedules', 'schedules of all ranks against the graph implied by the mesh file'),
 'C06': ('offline checker over recorded exchanges with unique payloads and injected delays', 'every boundary value before and after every exchange'),
 'C07': ('PMPI interposition monitor: synchronous sends, injected delays, buffer and request tracking', 'every MPI call of the runs'),
 'C08': ('AddressSanitizer, UndefinedBehaviorSanitizer, valgrind and fill-pattern differential runs', 'absence of reports on random valid and damaged inputs'),
 'C09': ('ThreadSanitizer with an instrumented OpenMP runtime', 'absence of races in the executions observed'),
 'C10': ('offline checker of output files against per-rank recorded fluxes', 'bytes of the files'),
 'C11': ('offline checker of partitioned mesh files against the serial mesh', 'records of the files'),
 'C12': ('round-trip monitor and fault injection on mesh files', 'bytes written, data read, refusals'),
 'C13': ('offline checker of dumped in-memory meshes against the mesh file', 'everything the mesh getters report'),
 'C14': ('offline geometric checker of refined mesh files', 'records of the files'),
 'C15': ('runtime monitor of the quadrature object, all orders', 'moments, symmetry, refusal of the others; exhaustive in the order'),
 'C16': ('generated and damaged decks with a settings monitor', 'settings in effect, refusals'),
 'C17': ('runtime monitor of the local solver on generated cells, exact residual oracle', 'residuals, agreement, untouched memory'),
 'C18': ('offline conservation checker over recorded fluxes', 'balance per cell, direction and group'),
 'C19': ('differential runs over group counts', 'bitwise equality of groups and runs'),
 'C20': ('offline checker of the iteration log against recorded iterates', 'errors and counts printed'),
 'C21': ('online event recording, offline priority and work-limit checker', 'visit order, schedule order and priority values'),
 'C22': ('offline checker of recorded source, cross sections and error', 'closed form of the hat problem'),
 'C23': ('offline parser of the tools output against the mesh file', 'every printed value'),
 'C24': ('I/O fault injection (preloaded monitor of reads and writes, file size limits, unusable names)', 'exit status against completeness of the output, every kind of call met by faults'),
 'C25': ('offline checker of converted meshes on both sides of a stand-in MOAB, sanitized builds', 'records of the files; the real MOAB library is not installed'),
 'C26': ('differential runs of several builds, refusal monitor', 'fluxes, logs, tool outputs and refusals of five builds'),
 'C27': ('preloaded allocation, file and thread monitor, offline growth checker', 'the course of what every rank holds over hundreds of iterations'),
}
PEND = 'not built yet'
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
have = [p for p in props if os.path.exists(os.path.join(H, 'checks', p + '.py'))]
m = {'version': 1, 'setup_cmd': '/opt/veriftools/pyvenv/bin/python run.py setup',
     'checks': [], 'not_applicable': [{'property': p, 'reason': PEND} for p in props if p not in have],
     'notes': 'No hooks in /repo: harnesses in /verif/harness link the sources of /repo, monitors use the public '
              'interfaces and the MPI profiling interface. Fixes are separate commits, listed in known-findings.json.'}
for p in have:
    t, n = TECH[p]
    m['checks'].append({
        'property': p, 'quick_cmd': '/opt/veriftools/pyvenv/bin/python run.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough /opt/veriftools/pyvenv/bin/python run.py ' + p,
        'technique': t, 'level': 'exploration',
        'level_note': 'Decides ' + n + ', on the executions explored (random, seeded by VERIF_SEED); trusts the oracle '
                      'in /verif/lib, the compiler and Open MPI.'})
open(os.path.join(H, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(have), 'claimed')
