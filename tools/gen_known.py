#!/usr/bin/env python3
"""Regenerate known_findings.json: open findings, and the repaired ones with their commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 dict(property='C19', sig='3d-constant-double-transverse', item='"trans": (11|22)',
      what='3D unsplit method with double transverse terms (transverse_waves 11, 22): these terms leave out one factor of the capacity (src/pyclaw/classic/flux3.f90, dtdy/dtdz), '
           'so a constant capacity is not exactly equivalent to a rescaled time step'),
]
# subject of the commit -> (property, what failed)
FIXED = {
    'a fixed step size is not altered by roundoff': ('C01', 'with a fixed step size the last step before a requested time was replaced by the rounded difference and the time set to n times that: 1000 steps of 0.1 ended at 99.99999999999432, 1e6 steps of 0.001 past the request by 3e-8'),
    'classic Fortran kernels use the capacity index': ('C14', 'a classic solver that had evolved one solution used the capacity index of that solution for every later one (wrong capacity function, or none)'),
    'general RK integrator calls before_step': ('C17', 'with call_before_step_each_stage the RK integrator called before_step with the value at the beginning of the step instead of the stage value, so e.g. a positivity limiter did not act on the stages'),
    'SSP multistep methods handle vanishing wave speeds': ('C16', 'SSPLMMk2 and SSPLMMk3 stopped with a ZeroDivisionError at the first step in which all wave speeds vanished, and after it ignored their step-size limit'),
    'frames are found in directories named with': ('C11', 'frames written to a path containing ~ or an environment variable could not be read back without naming the format (TypeError), because the header was looked for under the unexpanded name'),
    'all output of a run goes to the same expanded': ('C21', 'with an output directory containing ~ or an environment variable, overwrite=False did not protect the existing output, and gauges and functionals went to another directory than the frames'),
    'beta limiter without theta parameter': ('C08', 'limiter 17 (beta=2/3) of the Python kernel was identically zero, i.e. first order, because it was called with theta=0 instead of theta=1'),

 "refuse a state whose number of equations": ('C21', 'a state with another number of equations than the Riemann solver was accepted; the Fortran kernels then read outside of arrays'),
 'refuse limiters and orders the kernels': ('C21', 'limiters that a kernel does not have were accepted and gave undefined values (Fortran) or no limiting (Python); order 0 or 3 meant first order in Python and second order in Fortran'),
 'using the forestclaw format must not': ('C11', 'writing or reading one forestclaw frame replaced the patch headers of the ascii format for the whole process (ascii frames could not be written or read any more); a forestclaw frame could not be read in a new process'),
 'transmission-based WENO projected': ('C18', 'transmission-based WENO reconstruction (char_decomp 3) used the transposed eigenvector matrix: NaN for Euler data every other reconstruction handles'),
 'evolve_to_time must not overwrite': ('C01', 'evolve_to_time(solution) without a time overwrote max_steps, runs with rejected steps stopped short silently, a rejected single step was returned as taken'),
 'apply the source term on steps whose CFL': ('C17', 'classic steps with cfl == cfl_max were accepted without the source term'),
 'SharpClaw solvers respect solver.dt_max': ('C03', 'SharpClaw step sizes exceeded dt_max'),
 'allocate the stage register needed by the SSP22': ('C16', 'SSP22 integrator crashed for lack of a stage register'),
 'deep copies of a State keep': ('C14', 'deepcopy of a State lost index_capa, gauge data and derived quantities'),
 'SharpClaw kernels apply the capacity function of the right cell': ('C19', 'SharpClaw used the capacity of a cell shifted by the ghost width'),
 'superbee limiter of the Python kernels': ('C10', 'superbee of the Python kernel was not the superbee limiter'),
 'CFL-dependent limiters must act on each': ('C10', 'CFL-dependent limiters of the Python kernel took the minimum over the wrong axis'),
 'treat stationary f-waves in the Python kernel': ('C07', 'Python kernel ignored stationary f-waves in the correction term'),
 'state.q and state.aux must not alias': ('C14', 'state.q aliased the work array of the solver'),
 'reopen gauge files when': ('C15', 'second run with gauges wrote to closed files'),
 'record gauges in 3D': ('C15', '3D gauges crashed'),
 'Grid.c_center and p_center': ('C13', 'c_center/p_center returned the centre of another cell'),
 'grid coordinate arrays follow changes': ('C13', 'coordinate arrays were stale after changes of the dimensions'),
 'initialize a Solution from a single Dimension': ('C21', 'documented constructor forms of Solution failed'),
 "reading and writing frames leaves the caller's": ('C11', "reading and writing modified the caller's options"),
 'hdf5 frames list their patches': ('C11', 'hdf5 frames with more than 10 patches were read in another order'),
 'mark aux values that are not in an hdf5': ('C11', 'aux values not in the frame were uninitialized memory'),
 'read aux arrays of binary frames': ('C11', 'aux arrays of binary frames could not be read'),
 'derived-quantity frames record': ('C04', 'derived-quantity frames recorded num_eqn instead of mp'),
 'SharpClaw stages use the current aux': ('C17', 'aux values changed by callbacks were ignored in later stages'),
 'solver.status reports the smallest and largest': ('C03', 'status extremes were wrong'),
 'solvers that are in use at the same time': ('C14', 'simultaneous solvers shared Fortran module data'),
 'reject SharpClaw options that make the Fortran': ('C21', 'invalid SharpClaw options terminated the process'),
 '3D dimensional splitting must sweep': ('C08', '3D split steps used unswept ghost rows at the domain edges'),
 'first order 3D method with transverse': ('C08', 'uninitialized correction fluxes'),
 'van Leer limited TVD reconstruction': ('C18', 'NaN for locally constant data'),
 'wave-based TVD reconstruction must include': ('C18', 'last interface of the grid was left out'),
 'wave-based WENO reconstruction from f-waves': ('C18', 'NaN for stationary f-waves; Python kernel took f-waves as waves'),
 'wave-based WENO reconstruction of the Fortran kernel': ('C07', 'kernels differed at vanishing waves'),
 'SharpClaw kernels passed uninitialized states': ('C18', 'Riemann solvers received uninitialized ghost states'),
 'Courant number of the Python kernels': ('C07', 'Courant number of the Python kernels included an interface inside the ghost layer'),
 'LMM integrator uses all of the given coefficients': ('C16', 'LMM integrator ignored coefficients beyond lmm_steps'),
 'refuse to overwrite existing output before': ('C21', 'with overwrite=False existing gauge files were replaced before the run was refused; a run with gauges was always refused'),
 'a run with a single output time': ('C04', 'run with one output time raised UnboundLocalError'),
 'create the output directory for functionals': ('C04', 'functionals could not be recorded when no frames were written'),
 'in-memory frames contain the derived': ('C04', 'derived quantities of in-memory frames were those of the previous frame'),
 'states of a deep copied Solution': ('C13', 'domain and states of a deep copied Solution had separate geometries that could diverge'),
 'read hdf5 frames back with default': ('C11', 'hdf5 frames could not be read with default arguments; with an ascii frame beside them that frame was read instead'),
 'reading a frame into a solution in use': ('C11', 'states of the frame were appended to the existing ones'),
 'refuse binary frames whose data': ('C22', 'binary frame whose header lost the ghost cell count was misread silently'),
 'gauges written to file keep their full location': ('C15', 'gauge locations of 1D and 3D gauge files were cut short and their type lost'),
 'convert_gauges stopped after the first': ('C15', 'convert_gauges converted only the first gauge'),
 'gauges just below the upper boundary': ('C15', 'a gauge one rounding error below the upper boundary was given an index outside the grid'),
 'SharpClaw stages use the grid and the parameters': ('C14', 'a SharpClaw solver used for a second solution (or after a change of extents or problem data) kept computing with the grid and, in later stages, the parameters of the first'),
 'writing VTK output must not append': ('C23', 'writing a VTK frame appended a component to q of the solution'),
 'VTK output hid cells beside': ('C23', 'cells next to a fine patch that extends beyond the lower edge of a coarse patch (or lies outside it) were marked hidden'),
 'VTK output of patches that are not listed': ('C23', 'VTK output crashed or mixed up patches when they were not listed from coarse to fine or levels did not start at 1'),
 'VTK output can be written by a Controller': ('C23', 'a Controller run with VTK output stopped with an AssertionError'),
 'a refused change of a Dimension': ('C21', 'Dimension kept a bound or number of cells it had refused with an error'),
 'refuse a capacity function index outside': ('C21', 'a capacity index outside the aux array was accepted on unmapped grids and memory outside the array was read'),
 'refuse invalid set-ups before gauge files': ('C21', 'existing gauge files were replaced before an invalid set-up, output format or style was refused'),
 'additional problem_data of one simulation': ('C14', 'extra entries of problem_data of one simulation became required parameters of later simulations with the same Riemann solver'),
 'check the validity of a run before': ('C21', 'a solver was set up before the set-up was checked and, after repair of the set-up, kept using the invalid data'),
 'refuse a desired CFL number above': ('C21', 'a desired Courant number above the maximum was refused only after the initial frame had replaced existing output'),
 'refuse an unknown kernel language': ('C21', 'an unknown kernel language was refused only in the first step, after output had been written'),
 'refuse Python kernels in 2D and 3D': ('C21', 'SharpClaw refused Python kernels in 2D and 3D only in the first step, after output had been written'),
 'Cada-Torrilhon limiter must treat': ('C10', 'limiter 21 depended on the parity of the cell index'),
}
FIXED.update(json.load(open(os.path.join(V, 'tools', 'more_fixed.json'))) if os.path.exists(os.path.join(V, 'tools', 'more_fixed.json')) else {})
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = [dict(f, status='open') for f in OPEN]
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [k for k in FIXED if s[5:].startswith(k)]
    assert len(m) == 1, s
    p, w = FIXED[m[0]]
    out.append(dict(property=p, status='fixed', commit=h, what=w, line='fixed: property=%s %s %s' % (p, h, w)))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=out), f, indent=1)
print(len(out))
