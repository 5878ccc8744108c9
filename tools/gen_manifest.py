#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the check modules in mc/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C24': 'parallel runs need petsc4py/PETSc and MPI, which are not installed here, so no parallel execution of the code can be explored'}
TECH = 'explicit-state bounded model checking of the real implementation: exhaustive enumeration of %s, each execution compared with a reference model'
WHAT = {
 'C01': 'evolve requests and environment answers (wave speeds per attempted step)',
 'C02': 'placements of rejected attempts (wave speeds per attempted step) in short histories',
 'C03': 'wave-speed histories and positions/signs/directions of the fastest wave',
 'C04': 'output configurations and short runs of the controller',
 'C05': 'boundary-condition assignments, ghost widths and grid sizes',
 'C06': 'grid data over small alphabets / impulse bases and scheme options',
 'C07': 'local data patterns (de Bruijn words) and options common to both kernels',
 'C08': 'impulse bases, local data patterns, flow directions and scheme options',
 'C09': 'axis permutations, reflections and translations of data and options',
 'C10': 'data words on small periodic grids, limiters, Courant numbers',
 'C11': 'shapes, patch layouts, formats and options of frames',
 'C12': 'subsets of split points and mechanisms of continuation of a short run',
 'C13': 'sequences of grid changes and queries',
 'C14': 'sequences of simulations and of copy/change/evolve operations',
 'C15': 'gauge locations and step histories',
 'C16': 'step-size sequences and bases of right-hand sides',
 'C17': 'histories of accepted, rejected and boundary steps with event logs',
 'C18': 'polynomial bases, local data patterns and cell positions',
 'C19': 'positions and values of capacity deviations',
 'C20': 'positions of coefficient deviations',
 'C21': 'single and pairwise defects of set-ups',
 'C22': 'truncation points and missing parts of frame files',
 'C23': 'patch arrangements and orders',
 'C25': 'command lines up to a length',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
                           technique=TECH % WHAT[i], level='model_checking',
                           level_note='exhaustive within the bounds stated in mc/%s.py (BOUNDS) and in the evidence file; runs the real code built from /repo; the Riemann solvers outside /repo are trusted' % i.lower()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=checks, not_applicable=na, notes='No hooks in /repo: the code is driven through its public interface only. See DESIGN.md; known_findings.json lists repaired and open findings')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
