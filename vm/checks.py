"""The registered checks: how each property's workload is started and what its evidence says."""
import json, os
from vm import build
from vm.common import Check, run_cases, NPROC, VERIF

REGISTRY = {}
def check(*ids):
    def deco(f):
        for i in ids: REGISTRY[i] = f
        return f
    return deco

# ------------------------------------------------------------------ symbolic library, C++ level
SYM = {  # mode, quick cases, thorough cases, rule
    "S01": ("value", 60000, 1200000, "random well-shaped operator programs over scalar/vector/matrix symbols; every node of every "
            "program is evaluated in the library's tree, before and after repeated simplification, at points where the written "
            "expression is defined, against long-double reference arithmetic; non-trivial: at least 3 distinct operator nodes"),
    "S02": ("shape", 60000, 1200000, "the same programs; the shape of every node before and after simplification, and "
            "ill-shaped combinations of two random operands that must be refused"),
    "S03": ("deriv", 40000, 800000, "the same programs; partial, total and Jacobian derivatives, raw and simplified, against "
            "forward-mode automatic differentiation in long double"),
    "S04": ("equal", 50000, 1000000, "pairs of random expressions: identical constructions, mutated near misses, sub-expressions of "
            "the same program; the verdict of ==, != and < against values, shapes and structural identity"),
    "S05": ("subs", 60000, 1200000, "substitution of sub-expressions and symbols of random programs, evaluated against the original "
            "with the part replaced; atoms against the symbols found by walking the tree"),
}
@check("S01", "S02", "S03", "S04", "S05")
def symbolic(pid, tier, seed):
    mode, q, t, rule = SYM[pid]
    c = Check(pid, tier, seed)
    b = build.build("plain", ("symfuzz",))
    exe = os.path.join(b, "bin", "symfuzz")
    n = q if tier == "quick" else t
    r = run_cases([exe, "worker", mode], build.env(), seed, n, tier, hang_s=60, chunk=n // 32 + 1)
    c.absorb(r, {"how": "%s show %s SEED IDX" % (exe, mode)}, hang_limit=max(3, n // 10000))
    s = r.stats
    return c.finish(s.get("comparisons", 0), s.get("distinct", 0), rule, r.samples, min_eval=n,
                    programs=s.get("cases", 0), hangs_inconclusive=len(r.hangs), observed={k: v for k, v in s.items()})

@check("S06")
def memory(pid, tier, seed):
    c = Check(pid, tier, seed)
    env = build.env()
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
    b = build.build("asan", ("symfuzz",))
    exe = os.path.join(b, "bin", "symfuzz")
    n = 12000 if tier == "quick" else 400000
    r = run_cases([exe, "worker", "san"], env, seed, n, tier, hang_s=120, chunk=n // 32 + 1)
    c.absorb(r, {"how": "%s show san SEED IDX" % exe}, hang_limit=max(3, n // 3000))
    s = r.stats
    return c.finish(s.get("cases", 0), s.get("distinct", 0),
                    "random programs built, compared, differentiated, substituted, simplified, printed, plus ill-shaped calls, under AddressSanitizer and UndefinedBehaviorSanitizer",
                    r.samples, min_eval=n // 2, observed=s)

# ------------------------------------------------------------------ Python level workers
PYCHECKS = {}   # id -> (script, mode, quick, thorough, rule, minimum evaluations per case, statistic counted)
TECH = {}

def pycheck(pid, script, mode, quick, thorough, rule, tech, note, count="comparisons", per_case=0.3, hang=120, chunks=4, most=10**9):
    """most: the largest number of cases of one worker process; quick, thorough: the number of cases, a number for all modes together or a list with one for each mode"""
    PYCHECKS[pid] = (script, mode if isinstance(mode, (list, tuple)) else [mode], quick, thorough, rule, count, per_case, hang, chunks, most)
    TECH[pid] = (tech, note)
    REGISTRY[pid] = run_pycheck

def run_pycheck(pid, tier, seed):
    script, modes, q, t, rule, count, per_case, hang, chunks, most = PYCHECKS[pid]
    c = Check(pid, tier, seed)
    envs = {}
    n = q if tier == "quick" else t
    ev = dis = cases = 0; samples, obs, hangs = [], {}, 0
    for k, mode in enumerate(modes):
        cmd = [build.PY, os.path.join(VERIF, "vm", "w", script), mode]
        pk = "asan" if mode.endswith("@asan") else "plain"        # built with address and undefined behaviour sanitizers
        if pk not in envs: envs[pk] = build.pyenv(build.package(pk), pk)
        env = envs[pk]
        m = n[k] if isinstance(n, list) else max(8, n // len(modes))
        r = run_cases(cmd, env, seed, m, tier, hang_s=hang, chunk=min(most, m // (NPROC * chunks) + 1))
        c.absorb(r, {"how": "PYTHONPATH=<package> %s %s %s SEED IDX 1 /tmp/pf %s" % (build.PY, cmd[1], mode, tier)}, hang_limit=max(2, m // 500))
        s = r.stats
        if s.get("timeouts", 0) > max(3, m // 50): c.violation("hang", "%s cases took too long" % mode, {"detail": "%d of %d" % (s["timeouts"], m), "mode": mode})
        ev += s.get(count, 0); dis += s.get("distinct", 0); cases += s.get("cases", 0); samples += r.samples[:4]; hangs += len(r.hangs)
        obs[mode] = s
    return c.finish(ev, dis, rule, samples, min_eval=int((sum(n) if isinstance(n, list) else n) * per_case), cases=cases, hangs_inconclusive=hangs, observed=obs)

PROG = ("random systems of equations (parameters, constants, formulas of parameters, inputs, states of several shapes, joint coordinates as list "
        "equations, mass matrices with solve, intermediate variables, sensors) stated in random order; ")
pycheck("G01", "graphw.py", "sorted", 15000, 300000, PROG + "every assignment list is executed with numpy in the order given and every value compared "
        "with a separate evaluation of the equations as written; non-trivial: more than 5 assignments",
        "random equation systems; a trace monitor over the assignment list (defined before used, assigned once, requested symbols defined, values)",
        "assignment lists of unoptimised graphs executed in order against values computed from the equations as written")
pycheck("G02", "graphw.py", "opt", 15000, 300000, PROG + "the graph is optimised; the assignment list left is executed and compared as for G01; non-trivial: more than 5 assignments remain",
        "random equation systems, optimised; the same trace monitor, values against the equations as written",
        "assignment lists of optimised graphs executed in order against values computed from the equations as written")
pycheck("G03", "graphw.py", "illposed", 15000, 300000, PROG + "each with one defect put in (equation missing, stated twice, cyclic, self-referring, ill-shaped, for or with a "
        "variable of another graph, one too many, variable declared twice); must be refused with a message, or, where the symbol does not matter after simplification, satisfied; non-trivial: refused mutants",
        "random equation systems with one defect injected; monitor of the refusal, of files left and of values where accepted",
        "refusal observed for injected defects of ten kinds", count="evaluations")
pycheck("G04", "implw.py", "index1", 4800, 80000, "random systems of implicit equations (residuals without a target, residuals for a list of unknowns, implicit derivatives, coupled blocks of one to "
        "three unknowns, scalar and vector unknowns) between ordinary definitions, stated in random order and built with and without optimisation; every system is made together with its solution: "
        "each equation of each block has to hold there, a block has as many equations as new unknowns and a regular Jacobian, uses only what is known, and everything requested is determined; "
        "Python and C are run, Modelica evaluated, writers that cannot solve a block have to refuse; non-trivial: systems with implicit equations",
        "random implicit systems with known solution; a trace monitor over the blocks of the sorted system, and execution of the generated code",
        "blocks of sorted implicit systems checked at a known solution: values, equation counts, regular Jacobian, order; generated code run or refused", per_case=.1)

MECH = ("random tree mechanisms (one to four bodies, all joint kinds and composites, joints from and to displaced rotated frames, parameters in masses, "
        "inertias, positions and rotations, any gravity direction) entered through pymbs.input; ")
pycheck("M01", "mechw.py", "newton", 720, 24000, MECH + "accelerations calculated by executing the generated equations at random states compared with a numpy "
        "Newton-Euler reference built from the description alone, for each generator; non-trivial: more than one degree of freedom",
        "random mechanisms; generated equations executed in the order stated, accelerations against an independent Newton-Euler reference",
        "accelerations of the recursive, O(n) and explicit generators against numpy mechanics", most=30)
pycheck("M02", "mechw.py", "loads", 720, 24000, MECH + "with point-to-point, compound and joint loads given as parameter, input, expression, list, spring-damper, "
        "tyre, contact or hydraulic cylinder, between any frames and in any reference; accelerations and load values against the numpy reference; non-trivial: models with loads",
        "random mechanisms with loads; generated equations executed, accelerations against an independent Newton-Euler reference with the forces applied",
        "accelerations under loads of every kind against numpy mechanics", most=30)

pycheck("M03", "mechw.py", "sensors", 720, 24000, MECH + "with every kind of sensor between random frames, in any reference frame, with and without loads; the value of every sensor "
        "at random states against the motion computed from the description, constraint loads against the force balance of what the joint carries; non-trivial: models with sensors",
        "random mechanisms with sensors; generated equations executed, sensor values against positions, velocities, accelerations, energies and joint loads of a numpy reference",
        "sensor values of all generators against numpy kinematics and force balances", most=30)

pycheck("M04", "mechw.py", ["welds", "variants"], 360, 12000, MECH + "described with bodies welded by fixed joints (to bodies, to the world, massless ones, at child frames), and every mechanism described "
        "another way (numbers for parameters, other order of declaration, frames flattened or nested, composite joints as chains, other body frame, one body as several welded ones, massless spacers); accelerations and "
        "sensors of the re-description against the numpy reference of the original; non-trivial: all",
        "random mechanisms and their re-descriptions; generated equations of one executed against the mechanics of the other",
        "eight kinds of re-description and welded bodies, accelerations and sensors against the numpy mechanics of the original", most=30)

pycheck("M05", "loopw.py", "loops", 320, 12000, MECH + "with closed loops (four bar linkages, three bar and four bar linkages with a slide, crank sliders, steering gears, hexapod legs, transmissions; on the world, on moving "
        "bodies and on links of other loops, frames in both orders, with loads and sensors); dependent coordinates, independent accelerations and sensors against the loop solved geometrically and the constrained Newton-Euler "
        "equations in numpy; non-trivial: models with a dependent coordinate",
        "random closed mechanisms; generated equations executed against a geometric solution and constrained dynamics",
        "gap of every loop, dependent coordinates, accelerations and sensors against a geometric solution and the constrained Newton-Euler equations in numpy", most=30)

WRITE = (PROG + "the program is written for the target language, %s, and called at random points; and random tree mechanisms with loads, inputs, sensors and visual frames entered through pymbs.input and written with genCode; "
         "every derivative of a state, sensor and visualisation quantity at its place in the results, compared with the equations as written or the numpy mechanics; non-trivial: more than one state")
pycheck("W01", "writerw.py", ["py", "py:mech"], [6000, 640], [120000, 12000], WRITE % "imported",
        "random systems and mechanisms; the generated Python modules executed, results against an independent evaluation",
        "generated Python code imported and called, with inputs set and left at their start values, and with controllers", most=400)
pycheck("W02", "writerw.py", ["c", "c:mech"], [640, 240], [24000, 6000], WRITE % "compiled with gcc and UndefinedBehaviorSanitizer, locals filled with a pattern",
        "random systems and mechanisms; the generated C functions compiled with sanitizers and called with guard zones around every array, results against an independent evaluation",
        "generated C code compiled with traps for undefined behaviour and called between guard zones", most=100)
pycheck("W03", "writerw.py", ["f90", "f90:mech"], [640, 240], [24000, 6000], WRITE % "compiled with gfortran with its run time checks, locals filled with signalling NaN",
        "random systems and mechanisms; the generated Fortran subroutines compiled with run-time checks and called with guard zones around every array, results against an independent evaluation",
        "generated Fortran code compiled with run-time checks and called between guard zones", most=100)
pycheck("W04", "writerw.py", ["m", "m:mech"], [2400, 240], [80000, 8000], WRITE % "executed by an interpreter of the MATLAB statements and expressions allowed there",
        "random systems and mechanisms; the generated MATLAB functions run by an interpreter that follows MATLAB's rules of syntax, sizes and variables, results against an independent evaluation",
        "generated MATLAB files executed statement by statement by a strict interpreter", most=200)
pycheck("W05", "writerw.py", ["mo", "mo:mech"], [2400, 240], [80000, 8000], WRITE % "read by a strict parser of Modelica with its rules of types and sizes, the number of equations compared with the number of unknowns, its equations solved by causalisation",
        "random systems and mechanisms; the equations of the generated Modelica model solved by an interpreter with strict typing, results against an independent evaluation",
        "generated Modelica models parsed, typed, counted and solved", most=200)
pycheck("M08", "simw.py", ["invariants", "integrator", "simulate"], [96, 320, 40], [6000, 24000, 2400], "one random mechanism per case (trees, closed loops, free-floating systems; with and without loads) generated as Python "
        "module and followed by a precise integrator over up to 150 steps, with the energy, velocity, position and orientation sensors read at every step; or up to 60 calls of step, set_step_size and reset on one or two "
        "integrators of systems with a known solution; or up to four simulations of up to two models in one process, with equal and different names, compared with a precise integration of independent equations of motion; "
        "non-trivial: trajectories followed",
        "random mechanisms, loads, start states and call histories; online monitor of energy, work and momentum along the motion of the generated program, of the integrator against exact solutions and of stored trajectories",
        "energy, momentum and stored trajectories observed along the motion of generated programs", per_case=2, most=30)
pycheck("M09", "visw.py", ["visual", "scene"], [480, 240], [24000, 8000], "one random mechanism per case (trees and closed loops, full equations or kinematics only) with up to eight visualisation objects of all seven types on any frame, "
        "body or the world, with explicit and default dimensions, colours and names; the generated visual module called at six random states, the objects held by the model compared with what was entered; or the model shown: "
        "MbsSystem.show runs to the end in a child process on an off-screen platform, next to left-over files of other models, sliders are moved and reset, and the points of each actor's geometry are taken to its reference frame; non-trivial: objects compared",
        "random mechanisms with visualisation objects; monitor of the generated visual functions and of the actors of the real viewer run off-screen",
        "positions, orientations and drawn geometry observed in generated functions and in the viewer, against independent kinematics", per_case=2, most=60)
pycheck("M10", "viewerw.py", "all", 280, 10000, "one random mechanism per case, shown off-screen in a child process, and a random sequence of up to eight actions: sliders moved and reset, simulation step by step with "
        "inputs changed on the way, coordinate sliders moved meanwhile and steps injected while the scene is drawn, simulation by the real thread started and stopped at once, after a while and again, compilation to C and use of the compiled model, "
        "MATLAB result files with random time grids loaded, played to the end or stopped, positions recorded, sensor window drawn; the viewer's state, its actors, the recorded files and the bars compared with a second copy of the generated "
        "equations and the documented integrator; non-trivial: every case",
        "random sequences of viewer actions on the real viewer run off-screen with injected steps and real threads; monitor of its state, actors, files, threads",
        "states, drawn poses, recorded rows, sensor bars and live threads observed in the running viewer, against separately run equations of the same model", per_case=2, hang=200, most=30)
pycheck("M07", "sidw.py", ["read", "illformed"], [480, 960], [40000, 80000], "one random history per case: up to six SID files (1 to 7 nodes, 1 to 8 modes, all matrices of order zero or one with random elements, spacing and number formats) "
        "read from text, from a file or as a flexible body of a system, mixed with ill-formed files (cut off, parts deleted, doubled, swapped, misspelt, wrong counts, elements outside the matrix or of the wrong order); "
        "every object compared element by element with the data written, again at the end of the history; non-trivial: all",
        "random SID files and ill-formed variants in random histories; monitor comparing every element of the parsed objects with the data the file was written from",
        "parsed objects compared element by element with the written data, ill-formed files observed to be refused", per_case=.2)
pycheck("W07", "detw.py", ["graph", "mech", "process"], [320, 56, 8], [20000, 2400, 320], "one random system or mechanism per case, entered twice, and written in the same random sequence of two to five of the six languages, for one "
        "of the two with other models, failing calls and queries in between; all files compared byte for byte without the date line, and the Python, C and Fortran programs of the later steps run and compared with the reference "
        "(systems) or with the program written first (mechanisms); or 12 models handled by three processes with different hash seeds, heap contents, allocators, locales, time zones and orders of the models, files compared; "
        "non-trivial: more than one language",
        "random histories of code generation in one process and repetitions in perturbed processes; monitor comparing the bytes of all files and the values of the programs",
        "files of repeated histories compared byte for byte within and between processes, programs written late in a history run", per_case=5, most=60)
pycheck("W08", "wrapw.py", ["c", "c:mech", "f90", "f90:mech"], [400, 96, 32, 8], [16000, 3000, 600, 200], "one random system or mechanism per case, written with its Python wrapper, compiled by the library's own compileC or compileF90 (gcc, or f2py "
        "with meson), imported and called through the wrapper at several points: state derivatives, sensors and visualisation against an independent evaluation; inputs at their initial values or set all at once or in parts, controllers, "
        "states given as float arrays, integer arrays and lists; non-trivial: more than one state variable",
        "random systems and mechanisms compiled through the library's wrappers and called from Python, results against an independent evaluation",
        "compiled models called through the generated Python wrappers as the viewer does it", per_case=2, hang=300, most=60)
pycheck("S07", "bindw.py", ["calls", "repeat", "calls@asan"], [24000, 480, 3200], [600000, 8000, 80000], "random histories of 60 calls on the Python objects: well-formed "
        "operations, slices, element writes, comparisons, simplifications (each result evaluated with numpy), and calls of every function, operator, constructor and graph method with odd arguments (wrong types and "
        "counts, huge and negative indices, NaN, uninitialised objects, foreign objects, classes, nested lists); all objects of the history are evaluated again every six calls; single calls repeated 2000 times; a part runs with a "
        "binding built with address and undefined behaviour sanitizers; non-trivial: completed histories",
        "random call histories on the real extension module, partly built with address and undefined-behaviour sanitizers; monitors of values, exceptions, reference counts, process death",
        "values, exceptions and reference counts observed over call histories of the extension module; memory errors trapped by sanitizers", most=2000, per_case=1.0)
pycheck("A02", "paramw.py", ["graph", "mbs"], [1500, 240], [30000, 4800], "one system per case with parameters and constants of all kinds (special values, random doubles, integers beyond 32 and 64 bits, arrays, formulas of other parameters) entered in "
        "random order under random names, start values of states of several shapes, written for one of the six languages; or a mechanism with addParam defaults (numbers, lists, matrices, formulas) and start positions and velocities "
        "of joints; the generated Python, C and Fortran programs are run, the MATLAB, Modelica and C# texts read; non-trivial: several states and formula parameters",
        "random parameter sets in generated programs that are executed or read; monitor comparing every parameter, start value and state position bit for bit with what was entered",
        "values found in generated programs, compared exactly with the numbers entered", per_case=3, chunks=2, most=60)
pycheck("A01", "inputw.py", "all", 480, 16000, "random scripts of 10 to 40 valid calls of MbsSystem (parameters, bodies, frames, joints, inputs, controllers, expressions, loads, sensors, visual objects, spring dampers and the other "
        "composed elements, joint ranges) with invalid variants of the same calls (names, symbols, types, shapes, texts, None, used names and parts, wrong objects) tried before them; a call that is accepted has to be refused at the "
        "generation of a complete model, after refused calls the script, the generation and the values of all equations have to be those of a twin without them; every argument is compared with its picture before the call; "
        "non-trivial: refused calls in the script",
        "random histories of valid and invalid calls; monitors of exceptions, of the arguments and of the equations compared with a twin model that never saw the invalid calls",
        "differential monitoring of histories with and without refused calls", most=30, per_case=1, hang=200)
pycheck("A03", "helpw.py", "all", 12000, 300000, "30 calls of the helper functions per case (sqrt to atan2, outer, diag, norm, symmetric, block matrix and vector, transpose, skew, skew_numpy, scalar/vector conversion, "
        "solve, element, rot_mat, simple) with numbers, numpy floats, symbols, expressions, vectors, matrices, zeros, lists, tuples, and with arguments they do not accept; results evaluated with numpy; non-trivial: symbolic arguments",
        "random calls of every helper with every admissible argument kind; monitor of values, shapes, exceptions and of the arguments afterwards",
        "results of the helper functions evaluated against their mathematical definition", most=1500, per_case=10)

# properties of properties.jsonl for which there is no execution to observe here (DESIGN.md, "Not applicable")
NOT_APPLICABLE = {
    "M06": "No execution yields constraint equations that could be observed: every constraint locks all six directions whatever the lock "
           "flags are (they become elements of a symbolic Matrix, which are always true), then Explicit and Recursive raise, OrderN "
           "raises or is restricted to unrotated pairs of bodies; a repair would be a rewrite of the constraint part of three generators.",
    "W06": "There is no C# compiler and no MathNet here, and what the writer emits is no C# in most cases (functions outside a class, "
           "vector states declared as numbers, unparenthesised conditionals): nothing that could be run and monitored.",
}
