"""Write DESIGN.md from DESIGN.in.md, the bounds in the check modules and the planted changes."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
'C01': (48, "Requests of the user (words of evolve calls) times speeds answered by the physics (scripts).",
 "Automaton of the time loop: where each call must end, how many steps it may take, which error it must raise, what solver settings must remain.",
 "Tests evolve once, to one time, with benign speeds. Stopping short, overshooting by a rounding error, or a step limit that leaks into the next call needs a rejection or a particular previous call."),
'C02': (23, "All placements of rejected attempts in short histories, for every solver and splitting; source terms and callbacks present.",
 "A second run of the real code with fixed step sizes equal to the accepted ones: values, times, gauges, step counts must be bitwise the same.",
 "No test rejects a step and looks at what remains of it."),
'C03': (26, "Speed scripts (step-size automaton) and every position, sign, direction and wave family of the fastest wave (Courant number).",
 "Automaton for dt; Courant number computed from data by the model.",
 "A reduction that skips a row, a direction or a sign is invisible unless the fastest wave sits there."),
'C04': (15, "Output styles, numbers of outputs, formats, aux policies, derived quantities, functionals, starting situations.",
 "Expected list of frames (number, time, content) computed by a model that evolves without a controller; files read back with an independent decoder.",
 "Tests use one output style with one format."),
'C05': (5, "All assignments of boundary types to all sides, separately for q and aux, ghost widths.",
 "Index arithmetic per cell: each ghost cell is traced to its source cell, with unique cell values; plus steps compared with a run whose ghost cells are all supplied by the model.",
 "Corners and mixed assignments (4^8 of them) are not in tests."),
'C06': (21, "Data patterns for every conservation law and scheme.", "Totals before and after (compensated summation).",
 "Conservation must hold for any data; a kernel slip (one interface with two different fluxes) only shows for data active there."),
'C07': (9, "Data words, limiters per family, problems, integrators.", "The other kernel.", "Tests compare both kernels with stored results for one data set."),
'C08': (26, "Data patterns, orders, limiters, splitting/transverse options, flow directions, boundaries.", "`wp.py`, cell by cell; plus closed forms for advection (shift, multilinear weights, moments).",
 "Regression values of a few examples cannot cover all limiter branches, sign combinations and transverse terms."),
'C09': (40, "All translations, reflections, axis permutations; embeddings of 1D data.", "The transformed result of the untransformed run (metamorphic relation between two executions).", "Loop bounds and index slips per direction show only on non-square grids or in one orientation."),
'C10': (33, "Words over values including equal neighbours, monotone runs, extrema.", "TV and range of the result; exactness of constants; characteristic decomposition for systems.", "Each limiter has branches which smooth test data do not reach."),
'C11': (26, "Shapes, numbers of patches, components, aux, formats, options.", "Model frame (unique values per cell/component/patch).", "Tests round-trip one or two frames."),
'C12': (13, "All assignments of a continuation mechanism to the split points.", "Uninterrupted run with the same step sizes.", "Tests do not split runs, except for one restart."),
'C13': (36, "Operation sequences (changes, queries, copies).", "Coordinates recomputed from bounds.", "Stale caches need a change between two queries."),
'C14': (37, "Interleavings of life cycles of pairs/triples of simulations; operation sequences on an original and its copy.", "Each simulation run alone in a fresh process.", "Fortran module state is shared by all solvers of a dimension; tests run them one after another in one order and only compare to stored values."),
'C15': (8, "Gauge locations on a lattice, speed scripts, ways of running, gauge files.", "Cell containing the point; list of accepted states.", "Tests have one gauge and no rejected steps."),
'C16': (15, "Integrators, right-hand sides, step-size sequences.", "The formulas of the methods, evaluated in exact order.", "Errors that need unequal steps or time-dependent right-hand sides."),
'C17': (15, "Speed scripts, splittings, callbacks.", "Event log of user functions against the expected sequence; resulting values.", "A source applied twice or not at all in a rejected/limit-exact step."),
'C18': (11, "Patterns of cell values that contain every stencil content.", "`sp.py` and exactness on polynomials.", "Higher WENO orders and TVD branches are untested."),
'C19': (32, "Position of a deviating capacity, capacity index, schemes.", "`wp.py`/`sp.py` with capacity; rescaled runs.", "Tests with capacity use smooth maps, where neighbours have nearly the same capacity."),
'C20': (22, "Position of deviating coefficients, aux boundary conditions, schemes.", "`wp.py`/`sp.py`; locality; aux before/after.", "As C19."),
'C21': (26, "Single defects and pairs of defects in valid set-ups, at every side, with existing output.", "Refusal, nothing changed, repaired set-up runs like the valid one.", "Tests check no refusals."),
'C22': (22, "Every cut of every file of a frame, missing files, wrong counts.", "An error, or (aux) absence; never other values.", "Tests read intact frames only."),
'C23': (21, "Arrangements of patches and order of the patch list.", "Covering computed with integer arithmetic; VTK files parsed independently (vtk library).", "Tests only look at whether files exist."),
'C25': (2, "All command lines up to a length over an alphabet of words.", "JSON decoding of each word (Python's json module), applied word by word; calls recorded by stand-ins.", "No test goes through the command line."),
}
def const(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = []
for p in props:
    i = p['id']
    if i not in T:
        continue
    path = os.path.join(V, 'mc', i.lower() + '.py')
    b = const(path, 'BOUNDS') or {}
    a = const(path, 'ASSUMPTIONS') or []
    cost, enum, oracle, why = T[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('* **Enumerated:** %s' % enum)
    out.append('* **Oracle:** %s' % oracle)
    out.append('* **Bounds:** %s. Thorough: %s.' % (b.get('quick', ''), b.get('thorough', '')))
    if a:
        out.append('* **Assumptions:** %s.' % '; '.join(a))
    out.append('* **Cost:** about %d s. **Beyond the tests:** %s\n' % (cost, why))
rows = ['| change | property | needs | what it breaks | checks that report it |', '|---|---|---|---|---|']
rp = os.path.join(V, 'tools', 'seeded_results.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    sid = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (sid, d['property'], d['needs'], d['what_it_breaks'], res.get(sid, '?')))
s = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read()
s = s.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
