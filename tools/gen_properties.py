#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, in readable form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("S01", "Building and simplifying an expression never changes its value",
  "An expression built through the public operators and functions (arithmetic, powers, elementary functions, conditionals, vectors and matrices, transpose, skew, outer, element access, solve) denotes the mathematical value of what was written, and simplifying it, any number of times, leaves that value unchanged at every point where the written expression is defined. Operands that were built earlier keep their value when they are used inside later expressions.",
  ["inputs"], "every well-shaped expression over scalar, vector and matrix symbols and numbers, every assignment of real values at which the written expression is defined",
  "The suite compares a few dozen hand-written simplifications with an expected tree; value preservation is a statement over all trees and all values, and the rewrite rules interact.",
  ["symbolics/functions/Add.cpp","symbolics/functions/Mul.cpp","symbolics/functions/Pow.cpp","symbolics/functions/Neg.cpp","symbolics/functions/Element.cpp","symbolics/functions/Transpose.cpp","symbolics/functions/Skew.cpp","symbolics/functions/Scalar.cpp","symbolics/functions/If.cpp","symbolics/Matrix.cpp","symbolics/Basic.cpp"],
  [("per-node simplify()","symbolics/functions/*.cpp simplify"),("canonical constructors New()","symbolics/functions/*.cpp New"),("n-ary flattening and collection","symbolics/NaryOp.cpp")],
  ["value of the tree before and after simplify, by an independent evaluator"])
p("S02", "Shapes are inferred correctly and ill-shaped expressions are refused",
  "The shape reported for an expression is the shape of its mathematical value, before and after simplification. Combining operands whose shapes do not fit (sum or product of incompatible shapes, an element outside the bounds, a power of a non-square matrix, a matrix where a scalar is required) raises an error and never yields an expression with a made-up shape.",
  ["inputs"], "every operator and function of the library over operands of every shape (scalar, vector, row, column, square, rectangular; literal, symbolic and composite)",
  "Tests check shapes for a few products; the claim ranges over every operator and every combination of operand shapes.",
  ["symbolics/Shape.cpp","symbolics/functions/Add.cpp","symbolics/functions/Mul.cpp","symbolics/functions/Element.cpp","symbolics/functions/Solve.cpp","symbolics/Matrix.cpp","symbolics/wrapper/CBasic.cpp","symbolics/wrapper/CMatrix.cpp"],
  [("Shape arithmetic","symbolics/Shape.cpp"),("New() shape checks","symbolics/functions/*.cpp"),("index conversion","symbolics/wrapper/CBasic.cpp")],
  ["shape() of the result, the exception raised"])
p("S03", "Symbolic derivatives are the true derivatives",
  "The partial derivative of an expression with respect to any scalar symbol, its total time derivative, and the Jacobian of a vector expression with respect to a vector symbol evaluate to the mathematical derivative wherever the expression is differentiable. Time derivatives follow the chain rule through the derivative symbols of all variables, and parameters, constants and numbers have derivative zero.",
  ["inputs"], "every expression built from differentiable operators, every symbol occurring or not occurring in it, every point of differentiability",
  "Unit tests differentiate single functions; product, chain and matrix rules compose, and an error shows only for particular nestings or values.",
  ["symbolics/functions/*.cpp","symbolics/functions/Der.cpp","symbolics/functions/Jacobian.cpp","symbolics/Symbol.cpp","symbolics/Matrix.cpp"],
  [("der(symbol)","symbolics/functions/*.cpp der"),("total derivative","symbolics/functions/Der.cpp"),("Jacobian","symbolics/functions/Jacobian.cpp")],
  ["value of the derivative expression against automatic differentiation"])
p("S04", "Expressions that compare equal have the same value",
  "Two expressions that the library reports as equal have the same shape and the same value at every point; equality is reflexive and symmetric, and inequality is its exact negation. Structurally identical expressions, built twice in the same way, are reported equal.",
  ["inputs"], "every pair of expressions, in particular near misses (swapped operands, permuted arguments, one changed index or constant, equal numbers of different kind, other shapes)",
  "Tests compare a handful of pairs; a wrong 'equal' verdict silently merges terms in later simplifications and graph optimisations and needs a colliding pair to show.",
  ["symbolics/NaryOp.cpp","symbolics/BinaryOp.cpp","symbolics/UnaryOp.cpp","symbolics/Matrix.cpp","symbolics/Zero.cpp","symbolics/Eye.cpp","symbolics/functions/Add.cpp","symbolics/functions/Mul.cpp","symbolics/functions/Element.cpp","symbolics/wrapper/CBasic.cpp"],
  [("operator== per type","symbolics/*.cpp, symbolics/functions/*.cpp"),("Python comparison","symbolics/wrapper/CBasic.cpp CBasic_cmp")],
  ["verdict of == and != in both directions"])
p("S05", "Substitution and symbol collection are exact",
  "Substituting an expression for a sub-expression replaces every occurrence and nothing else, so the result evaluates like the original in which the replaced part takes the new value. The set of atoms reported for an expression contains exactly the symbols its value can depend on, and evaluating an expression needs no others.",
  ["inputs"], "every expression, every occurring or non-occurring sub-expression, every replacement of the same shape",
  "Tests substitute in one or two sums; completeness is over all node kinds and positions.",
  ["symbolics/Basic.cpp","symbolics/Factory.cpp","symbolics/NaryOp.cpp","symbolics/wrapper/CBasic.cpp"],
  [("subs / subsWithCache","symbolics/Basic.cpp"),("node factory","symbolics/Factory.cpp"),("getAtoms","symbolics/*.cpp")],
  ["value after substitution", "atom set"])
p("S06", "No input drives the symbolic library into undefined behaviour",
  "Whatever expressions, equation systems and output requests are formed through the library's interface, valid or invalid, it never reads or writes memory it does not own, uses a freed object, reads uninitialised data, overflows an integer or otherwise executes undefined behaviour. Misuse ends in an exception.",
  ["inputs","histories"], "every sequence of library calls that builds, rewrites, prints, differentiates, sorts and writes expressions and graphs, including calls that fail half way",
  "The tests run without sanitizers and on benign inputs, so a stray access that does not crash goes unseen.",
  ["symbolics/*.cpp","symbolics/functions/*.cpp","symbolics/graph/*.cpp","symbolics/printer/*.cpp","symbolics/writer/*.cpp"],
  [("reference counting","symbolics/include/intrusive_ptr.h"),("argument lists","symbolics/NaryOp.cpp"),("graph node ownership","symbolics/graph/Graph.cpp, Node.cpp")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports, valgrind memcheck for uninitialised reads"])
p("S07", "The Python binding survives any use and reports misuse as an exception",
  "Any call on the symbolic Python objects with any arguments (wrong types, wrong counts, indices of any value, objects from other graphs, calls after a failure) either works, giving an object of the value the operation has, or raises a Python exception; the interpreter never crashes, no invalid memory is touched, and the objects involved stay usable with their value unchanged. The reference counts of the objects passed in are unchanged afterwards. Repeating a call gives the same answer. Objects of equal value compare equal.",
  ["inputs","histories"], "every sequence of calls on Basic, Symbol, Matrix, Graph and function objects with arguments of every type, including a long series of them in one process and objects whose __init__ did not run; without: sizes that only exhaust the memory, the FMU writer, 1x1 matrices (taken for scalars in some places), a linear index into a matrix, the rewriting of variables by their right sides in expressions of a graph that is optimised or written, objects that are never freed",
  "Unit tests call the binding with intended arguments once; a borrowed reference or an unchecked index shows only after repetition or with odd arguments.",
  ["symbolics/wrapper/CBasic.cpp","symbolics/wrapper/CMatrix.cpp","symbolics/wrapper/CSymbol.cpp","symbolics/wrapper/CGraph.cpp","symbolics/wrapper/CFunctions.cpp","symbolics/wrapper/CAssignment.cpp","symbolics/wrapper/convert.cpp","pymbs/symbolics/__init__.py"],
  [("argument conversion","symbolics/wrapper/convert.cpp"),("exception translation","symbolics/wrapper/*.cpp")],
  ["process exit status", "exception type", "sys.getrefcount of shared objects"])

p("G01", "The sorted equations solve the system that was entered",
  "After building a graph, evaluating its assignments in the order given defines every requested quantity, uses no unknown before it is computed, assigns each unknown exactly once, and yields values that satisfy every equation entered, including those given in implicit or differentiated form and those that have to be solved together. The state derivatives and sensors delivered are exactly those requested by the equations.",
  ["inputs","programs"], "every well-posed system of scalar, vector and matrix equations in any order of entry, with parameters, inputs, states, linear blocks and user expressions",
  "The tests sort a few small systems and check the order; the claim is about all dependency structures and entry orders.",
  ["symbolics/graph/Graph.cpp","symbolics/graph/Node.cpp","symbolics/graph/EquationSystem.cpp","symbolics/graph/UnMatchedSystem.cpp","symbolics/graph/Equation.cpp","pymbs/symbolics/graph.py"],
  [("causal sorting","symbolics/graph/Graph.cpp buildGraph/getEquations"),("matching","symbolics/graph/EquationSystem.cpp"),("derivative handling","symbolics/graph/Graph.cpp")],
  ["residual of every entered equation", "definition-before-use over the emitted assignments"])
p("G02", "Graph optimisation never changes a result",
  "Building the same model with and without graph optimisation delivers the same set of requested quantities with the same values for all states, inputs, parameters and times. No quantity disappears, and none changes its shape.",
  ["inputs","programs"], "every well-posed equation system or multibody model, every value of states, inputs and parameters",
  "The tests check that particular constants are removed; equality of results is over all models and values.",
  ["symbolics/graph/Graph.cpp","symbolics/graph/Node.cpp"],
  [("optimise: constant folding, unary and duplicate removal","symbolics/graph/Graph.cpp")],
  ["values of all state derivatives and sensors, optimised against not optimised"])
p("G03", "Ill-posed equation systems are refused",
  "A system with a quantity that is used but never defined, a quantity defined twice, an equation without a free unknown, a shape conflict between the sides of an equation, or a duplicate name is refused with an exception. It never yields output code that silently lacks an equation or picks one of two definitions.",
  ["inputs"], "every equation system that is under-determined, over-determined, ill-shaped or redefines a name",
  "Two tests cover one over- and one under-determined system.",
  ["symbolics/graph/Graph.cpp","symbolics/graph/UnMatchedSystem.cpp","symbolics/wrapper/CGraph.cpp","pymbs/symbolics/graph.py"],
  [("addVariable / addEquation checks","symbolics/graph/Graph.cpp"),("matching","symbolics/graph/UnMatchedSystem.cpp")],
  ["exception raised, or the assignments delivered"])
p("G04", "Implicit equations are sorted into blocks that determine their unknowns",
  "A system that contains implicit equations (residuals, with or without the unknowns named, coupled or not, also for state derivatives) but needs no differentiation is sorted into blocks: each block has as many equations as new unknowns, determines them, uses otherwise only what earlier blocks or the inputs deliver, contains no part that could be solved on its own (unless the equations were entered as one block), and contains the equations as entered, so that every value that solves the system solves the blocks and the other way round; everything requested is determined. Optimisation changes none of this. A target that cannot solve a block refuses it with a message and never writes it as a sequence of assignments; what it does write has the values of the solution.",
  ["inputs"], "every well-posed system of explicit and implicit scalar and vector equations that can be solved for the derivatives and unknowns without differentiating equations",
  "Three tests sort one small system each; no test looks at coupled blocks in generated code.",
  ["symbolics/graph/UnMatchedSystem.cpp","symbolics/graph/EquationSystem.cpp","symbolics/graph/Equation.cpp","symbolics/Basic.cpp","symbolics/writer/Writer.cpp"],
  [("matching and ordering of blocks","symbolics/graph/UnMatchedSystem.cpp"),("solving an equation for its unknown","symbolics/graph/Equation.cpp"),("combining coupled equations","symbolics/graph/EquationSystem.cpp")],
  ["assignments and blocks of the built graph", "generated Python, C, Fortran, MATLAB and Modelica"])

W0 = "every well-posed model with scalar and vector states, inputs, parameters, constants and start values of any kind, every operator and function the target supports, optimised or not; all values of time, state and input"
W = W0
WPY = W0 + ". The visualisation function is given the state only, so visualisation quantities that depend on the time are outside"
WC = W0 + ". Parameters are scalars; the visualisation function is given the state only, so visualisation quantities that depend on the time or on inputs are outside; linear systems are those of a mass matrix. What the target cannot express is refused with a message"
WF = W0 + ". The visualisation function is given the state only, so visualisation quantities that depend on the time or on inputs are outside; there are no conditional expressions; names have at most 63 characters. What the target cannot express is refused with a message"
WHY = "The writer tests compare the text of a few outputs with a stored file or check that it compiles; numeric agreement for every model is untested."
p("W01", "Generated Python code computes the model", "The Python code generated for a model imports without error and its state-derivative, sensor and visualisation functions return the values the model's equations prescribe for the given time and state, with the parameter defaults that were entered. Every state, sensor and visualisation quantity of the model is delivered, under its own name and in state order.",
  ["programs","inputs"], WPY, WHY, ["symbolics/printer/PythonPrinter.cpp","symbolics/writer/PythonWriter.cpp","symbolics/writer/Writer.cpp","symbolics/printer/Printer.cpp"],
  [("expression printing with precedence","symbolics/printer/*Printer.cpp"),("program layout","symbolics/writer/PythonWriter.cpp")], ["return values of the generated functions"])
p("W02", "Generated C code computes the model", "The C code generated for a model compiles and its state-derivative, sensor and visualisation functions store the values the model's equations prescribe for the given time, state and inputs, with the parameter defaults that were entered. It writes nothing outside the arrays it is given and uses no variable before setting it.",
  ["programs","inputs"], WC, WHY, ["symbolics/printer/CPrinter.cpp","symbolics/writer/CWriter.cpp","symbolics/writer/ScalarWriter.cpp","symbolics/writer/Writer.cpp"],
  [("scalarisation","symbolics/graph/Graph.cpp makeScalar"),("program layout","symbolics/writer/CWriter.cpp"),("linear solver module","symbolics/writer/CWriter.cpp functionmodule")], ["output arrays of the compiled functions, sanitizer reports of the generated program"])
p("W03", "Generated Fortran code computes the model", "The Fortran 90 code generated for a model compiles and its state-derivative, sensor and visualisation subroutines return the values the model's equations prescribe for the given time and state, with the parameter defaults that were entered.",
  ["programs","inputs"], WF, WHY, ["symbolics/printer/FortranPrinter.cpp","symbolics/writer/FortranWriter.cpp"],
  [("matrix printing and temporaries","symbolics/printer/FortranPrinter.cpp"),("program layout","symbolics/writer/FortranWriter.cpp"),("linear solver module","symbolics/writer/FortranWriter.cpp")], ["values returned by the compiled subroutines"])
p("W04", "Generated MATLAB code computes the model", "The MATLAB files generated for a model are well-formed and, executed under MATLAB's rules for expressions, statements and sizes, their functions return the state derivatives and sensors the model's equations prescribe for the given time, state and inputs, with the parameter defaults that were entered; the script starts the integration from the model's initial values.",
  ["programs","inputs"], W, WHY, ["symbolics/printer/MatlabPrinter.cpp","symbolics/writer/MatlabWriter.cpp"],
  [("expression printing","symbolics/printer/MatlabPrinter.cpp"),("program layout","symbolics/writer/MatlabWriter.cpp")], ["values computed by an interpreter of the emitted MATLAB subset"])
p("W05", "Generated Modelica code states the model", "The Modelica model generated for a system is well-formed and states the system: its declarations, sizes, parameter values, constants and start values are those entered, there are as many scalar equations as unknowns, and solving its equations gives the values the system prescribes.",
  ["programs","inputs"], W, WHY, ["symbolics/printer/ModelicaPrinter.cpp","symbolics/writer/ModelicaWriter.cpp"],
  [("expression printing","symbolics/printer/ModelicaPrinter.cpp"),("program layout","symbolics/writer/ModelicaWriter.cpp")], ["residual of every emitted Modelica equation"])
p("W06", "Generated C# code computes the model", "The C# code generated for a model, executed under C#'s rules for expressions and statements, computes the state derivatives and sensors the model's equations prescribe, with the parameter defaults that were entered.",
  ["programs","inputs"], W, WHY, ["symbolics/printer/CSharpPrinter.cpp","symbolics/writer/CSharpWriter.cpp"],
  [("expression printing","symbolics/printer/CSharpPrinter.cpp"),("program layout","symbolics/writer/CSharpWriter.cpp")], ["values computed by an interpreter of the emitted C# subset"])
p("W07", "Code generation is deterministic and independent of earlier work", "The same calls made for the same model give byte-identical files (apart from the line with the date) in every process, whatever the hash seed, the memory layout, the locale, the time zone or the models processed before or in between in the same process. Writing code, in whichever languages and order, failed attempts included, does not change what the model means: code written afterwards still computes the same values with the same arguments in the same order.",
  ["programs","configurations","histories"], "every model, every process environment, every sequence of models handled before in the process and every order of target languages",
  "A test sees one process and one model at a time.",
  ["symbolics/graph/Graph.cpp","symbolics/Symbol.cpp","symbolics/writer/*.cpp","pymbs/input/transformation.py","pymbs/common/simple.py"],
  [("ordered containers keyed by name","symbolics/include/Symbol.h operator<"),("module level state","pymbs/input/transformation.py")], ["bytes of all generated files"])

p("W08", "Compiled models called from Python compute the model",
  "The C and Fortran code of a model that is written together with its Python wrapper compiles with the library's compile function, the wrapper imports, and the state derivative, sensors and visualisation it returns are the values the model's equations prescribe for the given time, state and inputs: inputs not set have their initial values, inputs can be set together or one by one, controllers are called with the time, the state and the sensors, and a state of whole numbers means the same as one of floating point numbers. The state derivative has the form the integrator takes. No call changes the state passed in or crashes the process, not even where the model is undefined.",
  ["programs","inputs"], W0 + ". Parameters are scalars in C; controllers in C only; the visualisation function is given the state only", "No test compiles or imports a wrapper.",
  ["symbolics/writer/CWriter.cpp","symbolics/writer/FortranWriter.cpp","pymbs/ui/compile.py"],
  [("C wrapper","symbolics/writer/CWriter.cpp generatePymbsWrapper"),("Fortran wrapper","symbolics/writer/FortranWriter.cpp generatePymbsWrapper"),("compilation","pymbs/ui/compile.py")], ["values returned by the wrappers"])

p("M01", "Equations of motion obey Newton-Euler mechanics in every generator",
  "For every tree of rigid bodies with rotational, translational and composite joints, the accelerations computed by the explicit, the recursive and the order-n generator equal those of the Newton-Euler equations for the bodies, masses, centres of gravity, inertia tensors, frames and gravity that were entered. In particular the three generators agree with each other.",
  ["programs","inputs"], "every tree topology, joint type and axis, frame offset and rotation, mass distribution, gravity direction, and every state (q, qd)",
  "Example tests only check that equations are generated; a wrong sign in one term shows only for particular topologies and moving states.",
  ["pymbs/processing/generator.py","pymbs/processing/generator_explicit.py","pymbs/processing/generator_recursive.py","pymbs/processing/generator_order_n.py","pymbs/processing/body.py","pymbs/processing/joint.py","pymbs/input/transformation.py"],
  [("equation generators","pymbs/processing/generator_*.py"),("input to processing transformation","pymbs/input/transformation.py")], ["qdd from the generated derivative function"])
p("M02", "Applied loads act with the right force, point, direction and sign",
  "Point-to-point forces, compound forces and torques in any reference frame, joint loads and spring-dampers change the accelerations exactly as forces of that magnitude applied at those frames with opposite reactions on the partner do. A load between two frames of the same body, or an internal load, never accelerates the system's centre of mass.",
  ["programs","inputs"], "every load type, every pair of frames on bodies or world, every reference frame, every state and load value, every generator",
  "The examples check that such models generate, not what the loads do.",
  ["pymbs/processing/loads/*.py","pymbs/processing/generator.py","pymbs/processing/generator_explicit.py","pymbs/processing/generator_recursive.py","pymbs/processing/generator_order_n.py","pymbs/input/mbs_system.py","pymbs/input/loads.py"],
  [("load directions","pymbs/processing/loads/*.py calc"),("generalised forces","pymbs/processing/generator*.py")], ["qdd with the load against qdd of the reference"])
p("M03", "Sensors report the true motion",
  "Position, velocity, acceleration, orientation, angular velocity, angular acceleration, distance, joint, energy and centre-of-mass sensors report the quantity of the simulated motion between the chosen frames resolved in the chosen reference frame, and constraint force and torque sensors report the joint reaction that the equations of motion require. Velocities and accelerations are the time derivatives of the positions along the motion.",
  ["programs","inputs"], "every sensor type, every pair of frames and reference frame, every state, every generator that supports the sensor",
  "Examples place sensors but do not compare their values with independent kinematics.",
  ["pymbs/processing/sensors/*.py","pymbs/input/sensors.py","pymbs/input/mbs_system.py","pymbs/processing/generator_recursive.py","pymbs/processing/generator_explicit.py","pymbs/processing/generator_order_n.py"],
  [("sensor equations","pymbs/processing/sensors/*.py calc")], ["values of the generated sensor function"])
p("M04", "Equivalent descriptions of a mechanism give the same motion",
  "Describing the same mechanism differently does not change its motion or sensors: nested frames against composed frames, bodies welded by fixed joints against one body with the combined mass properties, a different connection frame on a body, a composite joint against a chain of elementary joints with massless bodies, another order of declaration, numbers against parameters with these default values.",
  ["programs","inputs"], "every mechanism and every such re-description, every state and generator",
  "No test compares two descriptions of one mechanism.",
  ["pymbs/input/transformation.py","pymbs/input/mbs_system.py","pymbs/input/frame.py","pymbs/input/body.py"],
  [("frame flattening","pymbs/input/transformation.py flattenCSStructure/redefineCS"),("fixed joint merging","pymbs/input/transformation.py applyFixedJoints"),("joint insertion","pymbs/input/mbs_system.py addJoint")], ["qdd and sensors of both descriptions"])
p("M05", "Closed kinematic loops stay closed and move consistently",
  "For every loop element (four-bar, crank-slider, three-bar, steering, transmission, expression joint, hexapod leg), the dependent joint coordinates, velocities and accelerations computed from the independent ones close the loop geometrically at position, velocity and acceleration level for every state in which the loop can be assembled, and the resulting accelerations are those of the constrained mechanism. Both assembly postures selectable by the user satisfy this.",
  ["programs","inputs"], "every admissible geometry and posture of each loop element and every assemblable state",
  "Example tests generate the equations of some loops for one geometry and never evaluate the closure.",
  ["pymbs/processing/loops/*.py","pymbs/processing/generator.py","pymbs/processing/generator_recursive.py","pymbs/processing/generator_explicit.py","pymbs/input/constraints.py","pymbs/input/transformation.py"],
  [("explicit loop solutions","pymbs/processing/loops/*.py"),("projection onto independent coordinates","pymbs/processing/generator*.py")], ["distance of the loop-closing frames, sensors, qdd"])
p("M06", "Algebraic constraints state the locked relative motion",
  "A constraint between two frames emits, for each locked translation or rotation and each requested differentiation level, exactly one constraint equation that vanishes when and only when the corresponding relative motion does, together with constraint forces that do no work on admissible motion and enter the equations of motion with opposite signs on the two frames.",
  ["programs","inputs"], "every pair of frames, every combination of locked directions, levels 0, 1, 2 and lists of them, every state",
  "Only generation of one constrained example is exercised.",
  ["pymbs/processing/loads/constraint.py","pymbs/processing/generator.py","pymbs/processing/generator_recursive.py","symbolics/writer/ModelicaWriter.cpp"],
  [("constraint equations","pymbs/processing/loads/constraint.py getConstraint"),("constraint forces","pymbs/processing/generator_recursive.py")], ["residuals and generalised forces in the generated equations"])
p("M07", "SID files are read exactly",
  "Reading a SID file yields exactly the masses, eigenmodes, node positions and matrices (all orders, every element at its place) the file states, whatever was read before in the same process, and leaves what was read before unchanged; an ill-formed file (missing, doubled, misplaced or misspelt parts, wrong counts, values that are no numbers, elements outside their matrix) is refused. Text written from what was read reads the same again. A flexible body made from a file gets one frame per node, at the position of the node in the undeformed body.",
  ["inputs","histories"], "every SID file in the standard format, every ill-formed variant of one, every sequence of files",
  "One example generates equations from two stored files.",
  ["pymbs/common/sidfilereader.py","pymbs/input/body.py"],
  [("SID parser","pymbs/common/sidfilereader.py"),("frames of the nodes","pymbs/input/body.py FlexibleBody")], ["parsed attributes", "frames of flexible bodies"])
p("M08", "Simulated motion conserves what physics conserves",
  "Along the motion simulated by the package, the total energy reported by the energy sensors of a conservative system stays constant up to integration tolerance, the energy changes by exactly the work of the applied loads and dampers otherwise, and a free-floating system keeps its linear and angular momentum. The integrator advances time by the requested step to the solution within its tolerances, a reset repeats the run, and the trajectory stored by a simulation is that of this model from the given coordinates at rest, whatever was simulated before in the same process or under the same name.",
  ["histories","inputs"], "every mechanism, every initial state, every step count and step size",
  "No test integrates a model and looks at invariants.",
  ["pymbs/ui/integrator.py","pymbs/input/mbs_system.py","pymbs/processing/sensors/energy_sensor.py","pymbs/processing/generator_recursive.py","pymbs/processing/generator_explicit.py"],
  [("integrator","pymbs/ui/integrator.py step"),("simulate","pymbs/input/mbs_system.py simulate")], ["stored trajectory", "energy sensors along it"])
p("M09", "Visualisation shows every body where it is",
  "The position and orientation delivered for each visualisation object at a state are those of the frame it is attached to (including the shape's own placement), for every object type, and each object is delivered exactly once. Scaling, dimensions, colours and file names are passed through unchanged.",
  ["programs","inputs"], "every visualisation object type on every frame, every state",
  "Only checks that the viewer starts.",
  ["pymbs/common/graphreps.py","pymbs/input/mbs_system.py","symbolics/writer/PythonWriter.cpp"],
  [("graphic sensors","pymbs/input/mbs_system.py _addVisualisation"),("graphic representations","pymbs/common/graphreps.py")], ["values of the generated visual function"])

p("M10", "The viewer does what its buttons say",
  "Every action of the viewer acts on the state it shows. Moving sliders draws the pose of exactly those coordinates and reset draws the initial one. A simulation starts at rest from the slider positions, uses the current input sliders at every step, advances by the frame time, and draws the model's motion; the newest state is drawn even when it arrives during drawing. Stop ends it for good, and at most one simulation runs at a time. A compiled model is used and moves as the Python model does. Loaded results are shown sample by sample in order at the frame pace and end at the first sample. Recordings contain one row of time, state and every object's shown pose per record, nothing of earlier recordings. The sensor window shows the model's sensor values.",
  ["histories","schedules","inputs"], "every model, every sequence of user actions, every interleaving of the simulation thread with drawing and with start and stop",
  "Tests do not press a button of the viewer.",
  ["pymbs/ui/gui.py","pymbs/ui/thread.py","pymbs/ui/pi_recorder.py","pymbs/ui/matlab_player.py","pymbs/ui/integrator.py","pymbs/ui/compile.py"],
  [("simulation","pymbs/ui/gui.py runSimulation, simulate, updateScene"),("thread","pymbs/ui/thread.py PyMbsThread"),("recorder","pymbs/ui/pi_recorder.py"),("results","pymbs/ui/matlab_player.py")], ["state and actors of the viewer", "recorded files", "bars of the sensor window", "number of live threads"])

p("A01", "Model input is validated and the caller's objects are left alone",
  "Invalid input (duplicate or malformed names and symbols, unknown degrees of freedom, values of a wrong type or shape, a body that is the target of two joints, a joint within one body, joints, loads, sensors and visual objects on wrong objects) raises an exception when it is given or at the latest when equations are generated, and leaves a model that still works as before the call. Lists, matrices and other objects the caller passes in are never modified.",
  ["inputs","histories"], "every public call with every kind of invalid argument in every order relative to valid calls",
  "Tests cover a few invalid calls and look only at the exception, not at what is left behind.",
  ["pymbs/input/mbs_system.py","pymbs/input/body.py","pymbs/input/frame.py","pymbs/input/joint.py","pymbs/input/loads.py","pymbs/symbolics/graph.py"],
  [("assertions and name checks","pymbs/input/mbs_system.py")], ["exception type", "behaviour of the model after a refused call"])
p("A02", "Parameters, initial values and state order arrive unchanged",
  "The default values of parameters and constants (numbers or formulas of other parameters), the initial joint positions and velocities, and the order of the states reach every output exactly as entered, to the precision of a double. Formula parameters are computed after the parameters they depend on.",
  ["programs","inputs"], "every model, every numeric value (tiny, huge, negative, integral, many digits), every dependency among parameters and every target language",
  "Tests use round numbers and independent parameters.",
  ["symbolics/graph/Graph.cpp","symbolics/str.cpp","symbolics/writer/*.cpp","pymbs/input/mbs_system.py","pymbs/processing/joint.py"],
  [("initial value map","symbolics/graph/Graph.cpp getinitVal"),("number printing","symbolics/str.cpp"),("parameter emission order","symbolics/writer/*.cpp")], ["constants and start values found in the generated files"])
p("A03", "Helper functions of the package compute what they say",
  "The vector and matrix helpers (rotation matrices, skew, diagonal, block and symmetric matrices, norm, scalar and vector conversion, transposition, element access, simplification) return the mathematically defined result for numeric and symbolic arguments of every admissible type alike, and raise an exception for the others.",
  ["inputs"], "every helper, every admissible argument type and shape, numeric and symbolic",
  "No test calls most of the helpers directly.",
  ["pymbs/common/functions.py","pymbs/common/simple.py","pymbs/symbolics/__init__.py"],
  [("helpers","pymbs/common/functions.py")], ["returned values and exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids)); assert all(len(x["title"])<=80 for x in P), [x["title"] for x in P if len(x["title"])>80]
print(len(P), "properties")
