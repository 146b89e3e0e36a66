#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A failed solve leaves the simulation exactly as it was",
  "When a dc or transient solve does not succeed - it does not converge, the iteration limit or error limit is hit, the linear solver fails, a user callback or a model evaluation raises, or memory or threads run out - every solution variable, circuit node value, derived model value and the stored transient history are what they were before the command. The session stays usable, and repeating the solve once the cause is gone gives the result it would have given had the failure never happened.",
  ["fault_sequences", "histories"],
  "every point of a Newton solve at which a failure can be injected (factorization, back substitution, evaluation, callback, allocation, thread creation), for every history of solves and parameter changes before it",
  "The stable tests never solve anything; the regression scripts solve only problems that converge, so no test observes state after a failure at a chosen point.",
  ["src/math/Newton.cc", "src/Circuit/data/NodeKeeper.cc", "src/Equation/Equation.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/commands/MathCommands.cc", "src/math/TimeData.cc"],
  [("backup and restore of solutions around the Newton loop", "src/math/Newton.cc Solve/BackupSolutions/RestoreSolutions"), ("transient history only advanced after acceptance", "src/math/Newton.cc UpdateTransientCurrent")],
  ["get_node_model_values", "get_edge_model_values", "get_circuit_node_value", "result of the following solves"],
  [("solution node models", "unknowns of the equations", "src/models/NodeModel.cc"), ("dcop", "circuit unknowns", "src/Circuit/data/NodeKeeper.cc"), ("I and Q history", "charge and current at past time points", "src/math/TimeData.cc")])

prop("C02", "A solve reports success only at a genuine solution",
  "When a dc or transient solve returns normally (or reports convergence in its information dictionary), the reported solution satisfies the assembled device, contact, interface and circuit equations to within the error limits that were requested (unless an unknown with positive updates has come down to zero), and the contact currents and charges read afterwards are those of that solution. A linear solver that reports an error, raises, or returns non-finite or unusable values - in whichever iteration - is never turned into a reported success at a point that does not solve the equations.",
  ["fault_sequences", "configurations", "histories"],
  "every linear solver configuration (direct, iterative, user supplied) and every sequence of solver faults during the Newton iterations, over generated devices and circuits",
  "Tests use a working linear solver; none makes a factorization or a solve fail or return garbage.",
  ["src/math/Newton.cc", "src/math/LinearSolver.cc", "src/math/DirectLinearSolver.cc", "src/math/IterativeLinearSolver.cc", "src/math/MKLPardisoPreconditioner.cc", "src/math/ExternalPreconditioner.cc", "src/Equation/Equation.cc", "src/Circuit/data/NodeKeeper.cc"],
  [("convergence test on relative and absolute update", "src/math/Newton.cc Solve"), ("status of factor and solve propagated", "src/math/LinearSolver.cc, src/math/Preconditioner.cc")],
  ["solve return value or exception", "residual recomputed from the solution by an independent model"])

prop("C03", "A saved session restored in a new process behaves like the original",
  "Writing a session to the native file format and loading it in a fresh process gives back the same devices, regions, contacts, interfaces, meshes, model definitions, equations and values (values to the written precision), once the parameters and circuit that the format does not carry are set again. Solves, parameter sweeps and further saves then give the same results in the restored process as in the original that was never stopped.",
  ["crash_points", "histories", "programs"],
  "every history of device construction, model and equation definition, solves and edits, and every point in it at which the process is stopped and restarted from its saved files",
  "The stable tests do not touch files; regression scripts reload one fixed mesh and do not compare a continued with a restarted history.",
  ["src/meshing/DevsimRestartWriter.cc", "src/meshing/DevsimWriter.cc", "src/meshing/DevsimLoader.cc", "src/meshing/DevsimParser.y", "src/meshing/DevsimScanner.l", "src/Equation/EquationHolder.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc"],
  [("models and equations serialized as the commands that recreate them", "DevsimSerialize in src/models and src/Equation"), ("two pass instantiation on load", "src/meshing/DevsimLoader.cc Instantiate_")],
  ["write_devices followed by load_devices in a new process", "model values, lists and solves of both processes"])

prop("C04", "A device file that was not completely written is reported as an error",
  "When the file cannot be opened, or any write, flush or close on it fails (full disk, I/O error, short write), the command that writes devices raises an error, for every output format and whether one or all devices are written. When the command returns normally, the complete output has been handed to the operating system, and repeating the command after a failure once the cause is gone writes the same bytes as if nothing had failed.",
  ["fault_sequences", "crash_points"],
  "every byte position or call at which opening, writing or closing the output can fail or be short, for each output format and device set",
  "No test makes a write fail.",
  ["src/meshing/DevsimRestartWriter.cc", "src/meshing/DevsimWriter.cc", "src/meshing/VTKWriter.cc", "src/meshing/TecplotWriter.cc", "src/meshing/MeshWriter.cc", "src/commands/MeshingCommands.cc"],
  [("stream state checked by each writer", "WriteMesh_/WriteMeshes_ in src/meshing/*Writer.cc")],
  ["exception from write_devices", "bytes of the file"])

prop("C05", "Loading a damaged or unreadable file never corrupts the session",
  "Loading a native device file that is truncated, torn, corrupted or fails while being read either raises an error or yields the complete device that the remaining content fully describes; it never ends the process and never reports success without the device. After a failed load the session holds exactly the devices it held before, which still work, and a good file with the same device name then loads normally in the same session.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point, lost or torn tail, corrupted region and read error of a written file, in sessions with and without other devices, followed by further loads",
  "Tests load a handful of intact files once per process.",
  ["src/meshing/DevsimParser.y", "src/meshing/DevsimScanner.l", "src/meshing/DevsimLoader.cc", "src/meshing/DevsimReader.cc", "src/meshing/GmshReader.cc", "src/commands/MeshingCommands.cc", "src/meshing/MeshKeeper.cc"],
  [("parser aborts with a collected message", "src/meshing/DevsimParser.y"), ("loader checks sizes and indexes before instantiation", "src/meshing/DevsimLoader.cc Finalize_")],
  ["load_devices result", "device and mesh lists", "behaviour of a following load"])

prop("C06", "Model values read back are always those of the current state",
  "At any time, the value read for a node, edge, element edge or interface model equals the value of its defining expression on the current solutions, parameters, circuit values and coordinates, whatever sequence of solution changes, parameter changes at any level, model redefinitions, deletions, failed commands and solves led there. The order in which models are read, and what else was evaluated before, make no difference.",
  ["histories", "programs"],
  "every interleaving of edits, evaluations and solves over models with shared subexpressions and dependencies across regions, contacts and interfaces",
  "Tests evaluate a model once after defining it; cached values go stale only after particular histories.",
  ["src/models/NodeModel.cc", "src/models/EdgeModel.cc", "src/models/ModelDataHolder.cc", "src/AutoEquation/ModelExprEval.cc", "src/AutoEquation/NodeExprModel.cc", "src/AutoEquation/EdgeExprModel.cc", "src/Geometry/Region.cc", "src/Data/GlobalData.cc"],
  [("dependents are marked out of date when something they use changes", "callbacks registered per region and in src/Data/GlobalData.cc"), ("per evaluation cache of subexpressions", "src/AutoEquation/ModelExprEval.cc")],
  ["get_node_model_values, get_edge_model_values, get_element_model_values, get_interface_model_values compared with an independent evaluator"])

prop("C07", "Results do not depend on thread count, task size or thread schedule",
  "For every setting of the number of threads and the task size, and for every interleaving of the worker threads, model values, solutions, reported errors and floating point failures are identical to those of the single threaded run, and no two threads touch the same memory without synchronization when one of them writes. If a thread cannot be created or a worker fails, the command reports an error, no worker is left running, and the command succeeds with the right values when repeated after the cause is gone.",
  ["schedules", "configurations", "fault_sequences"],
  "every thread count, task size, vector length and interleaving of workers at each memory access, and every thread creation that can fail",
  "No test sets the number of threads; a native run samples a few schedules of the machine.",
  ["src/MathEval/MathPacket.cc", "src/models/ParallelOpEqual.cc", "src/MathEval/MathWrapper.cc", "src/utility/GetNumberOfThreads.cc", "src/utility/FPECheck.cc"],
  [("ranges split per thread and joined through futures", "src/MathEval/MathPacket.cc MathPacketRun, src/models/ParallelOpEqual.cc OpEqualRun"), ("floating point flags carried back to the caller", "src/utility/FPECheck.cc")],
  ["model values and errors under a controlled scheduler", "happens-before race detector on instrumented accesses"])

prop("C08", "A rejected command has no effect",
  "A command that raises an error because its arguments are invalid - missing or unknown options, wrong types, names that do not exist or already exist, values of the wrong length - leaves every device, region, contact, interface, mesh, model, equation, parameter and circuit element as it was, and does not stop the process. Commands issued afterwards behave as if the rejected one had never been issued.",
  ["histories", "inputs"],
  "every command of the interface, every way its arguments can be invalid, at every point of a history",
  "Tests check a handful of rejected calls in isolation and do not compare the state or the continuation.",
  ["src/commands/CheckFunctions.cc", "src/commands/Validate.cc", "src/common_api/GetArgsCommon.cc", "src/commands/ModelCommands.cc", "src/commands/EquationCommands.cc", "src/commands/CircuitCommands.cc", "src/commands/GeometryCommands.cc", "src/commands/MeshingCommands.cc", "src/commands/MaterialCommands.cc"],
  [("options validated before the command acts", "src/common_api/GetArgsCommon.cc, src/commands/Validate.cc")],
  ["complete snapshot of the session before and after", "later commands in a twin session without the rejected command"])

prop("C09", "Resetting the simulator returns it to its initial state",
  "After the reset command, following any history - including failed solves, half built meshes, circuits, transient runs, registered functions, custom equations, open tasks and failed loads - the session is indistinguishable from a freshly started process. Any sequence of commands then gives the same results and errors, and every name can be used again.",
  ["histories"],
  "every history before the reset and every program after it",
  "A test starts one fresh process and resets at most once; leftovers show only for particular pairs of histories.",
  ["src/main/ResetAllData.cc", "src/Data/GlobalData.cc", "src/Circuit/data/InstanceKeeper.cc", "src/Circuit/data/NodeKeeper.cc", "src/meshing/MeshKeeper.cc", "src/math/TimeData.cc", "src/MathEval/MathEval.cc", "src/commands/MathCommands.cc"],
  [("all singletons are destroyed and recreated", "src/main/ResetAllData.cc")],
  ["outputs of the same program in a reset session and in a fresh process"])

prop("C10", "Results do not depend on memory layout or on unrelated work",
  "The same sequence of commands gives bit for bit the same model values, solutions, matrix, equation numbering, files and errors, whatever the addresses at which objects are allocated, whatever was created and deleted in the session before, and when a run is repeated in another process. Memory that was freed or never initialized never influences a result.",
  ["schedules", "histories", "configurations"],
  "every heap layout and allocation order chosen by the simulator, and every history of unrelated devices created and deleted before",
  "A test runs once with the layout the machine happens to choose.",
  ["src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/Geometry/Contact.cc", "src/Geometry/Interface.cc", "src/Equation/ContactEquation.cc", "src/math/CompressedMatrix.cc", "src/meshing/Mesh2d.cc", "src/Circuit/data/NodeKeeper.cc"],
  [("objects sorted by index and name rather than by address", "comparison functions in src/Geometry and ordered maps")],
  ["hash of all outputs of a program run under different allocators and prior histories"])

prop("C11", "Transient integration follows the accepted time steps only",
  "Each accepted transient step gives the solution of the selected integration formula (backward Euler, trapezoidal or second order backward difference) applied to the solutions at the preceding accepted time points. A step that is rejected - projection error too large, no convergence, solver or callback failure - leaves no trace: retrying with another step size gives what it would have given without the rejected attempt.",
  ["histories", "fault_sequences"],
  "every sequence of methods, step sizes, source changes, rejected and failed steps",
  "Regression scripts run one sequence of accepted steps; no test rejects or fails a step.",
  ["src/math/Newton.cc", "src/math/TimeData.cc", "src/commands/MathCommands.cc", "src/Circuit/models/ideal/IdealCapacitor.cc", "src/Circuit/models/ideal/IdealInductor.cc", "src/Circuit/data/InstanceKeeper.cc", "src/Equation/Equation.cc"],
  [("coefficients of the integration formulas", "src/math/Newton.hh TimeMethods, src/commands/MathCommands.cc"), ("history shifted only on acceptance", "src/math/Newton.cc UpdateTransientCurrent")],
  ["circuit node values and device solutions after each step, compared with a reference integrator"])

prop("C12", "The circuit solution always corresponds to the current netlist",
  "After any history of adding elements, altering their parameters, setting node values, and successful and failed solves, a successful dc or small signal solve satisfies Kirchhoff's current law at every node and the branch law of every element for the current parameter values. Every node and branch value read back is that of its own node.",
  ["histories", "fault_sequences"],
  "every sequence of netlist edits, alterations and solves (including failing ones) over resistors, capacitors, inductors, voltage and current sources, controlled sources and device contacts",
  "Regression scripts solve a few fixed circuits without editing them between solves or failing a solve.",
  ["src/Circuit/data/InstanceKeeper.cc", "src/Circuit/data/NodeKeeper.cc", "src/Circuit/data/CircuitNode.cc", "src/commands/CircuitCommands.cc", "src/Circuit/models/ideal/IdealResistor.cc", "src/Circuit/models/sources", "src/Equation/ContactEquation.cc"],
  [("stamps of each element", "src/Circuit"), ("numbering of circuit unknowns after device unknowns", "src/Circuit/data/NodeKeeper.cc SetNodeNumbers")],
  ["get_circuit_node_value for every solution type, compared with an independent nodal analysis"])

prop("C13", "Errors raised in user callbacks surface and leave the session intact",
  "When user code called by the simulator - a custom equation, a user supplied linear solver, a registered math function, an output filter, or the output stream - raises or returns something unusable, at whichever call this happens, the command in progress raises the simulator's error and does not crash, hang, or report success. The failure does not leak into later commands: with a working callback the same commands give the result of a session in which the callback never failed.",
  ["fault_sequences", "histories"],
  "every callback kind, every call index at which it fails, every kind of failure (exception, wrong type, wrong shape, non-finite value)",
  "Tests register callbacks that always work.",
  ["src/pythonapi/Interpreter.cc", "src/pythonapi/ObjectHolder.cc", "src/math/Newton.cc", "src/math/ExternalPreconditioner.cc", "src/MathEval/MathEval.cc", "src/meshing/MeshWriter.cc", "src/pythonapi/OutputStream.cc"],
  [("callback result and exception converted to an error string", "src/pythonapi"), ("fatal errors thrown and converted at the command boundary", "src/pythonapi command dispatch")],
  ["exception type and state after the command", "result of repeating the command"])

prop("C14", "A bias ramp ends at its target or raises, at a converged bias",
  "The bias ramping helper, under any pattern of solves that fail to converge, visits only converged biases between start and target in monotonic order, calls the user callback once per converged bias, and either ends within the minimum step of the target or raises. It finishes within a bounded number of solves, and an error that is not a convergence failure is passed on unchanged.",
  ["fault_sequences"],
  "every pattern of convergence failures, other errors and callback failures, start, target and step sizes",
  "Regression scripts ramp problems that always converge.",
  ["python_packages/ramp.py", "python_packages/simple_physics.py", "src/commands/MathCommands.cc"],
  [("step halving on convergence failure", "python_packages/ramp.py rampbias")],
  ["sequence of biases, callbacks and exceptions compared with the specification"])

prop("C15", "Devices in one session do not influence one another",
  "Building, editing, solving, saving, loading or deleting one device never changes the geometry, models, parameters or values of another device, and a combined solve of devices that are not connected through a circuit gives each device the solution it has on its own. Deleting a device removes it completely and its name can be used again.",
  ["histories"],
  "every interleaving of two or more independent device histories, including failures in one of them and deletion in the middle",
  "Tests keep one device per process and never delete one.",
  ["src/Data/GlobalData.cc", "src/Geometry/Device.cc", "src/Geometry/Region.cc", "src/math/Newton.cc", "src/commands/MeshingCommands.cc"],
  [("per device containers and equation number offsets", "src/math/Newton.cc NumberEquationsAndSetDimension, src/Data/GlobalData.cc")],
  ["values of each device in the interleaved session compared with a session that holds it alone"])

prop("C16", "Running out of memory is reported and survived",
  "When a memory allocation fails at any point inside a model evaluation, a solve, a save or a load, the command raises an error instead of crashing or reporting success, the values of devices that existed before remain those of the state before the command, and the same command succeeds with the right result once memory is available again.",
  ["fault_sequences"],
  "every allocation made by the simulator during these commands, in turn",
  "No test makes an allocation fail.",
  ["src/pythonapi/PythonCommands.cc", "src/math/Newton.cc", "src/AutoEquation/ModelExprEval.cc", "src/meshing/DevsimLoader.cc", "src/models/NodeModel.cc"],
  [("exceptions converted to errors at the command boundary", "src/pythonapi/PythonCommands.cc")],
  ["exception and state after an allocation failure at the k-th allocation"])

# --- not simulation targets -------------------------------------------------
prop("N01", "Special functions are accurate over their whole domain",
  "The Bernoulli, Fermi, Gauss-Fermi and error functions, their inverses and derivatives agree with their mathematical definitions to the documented accuracy for every finite argument, in double and extended precision.",
  ["inputs"], "every argument of each function", "Tests compare a few arguments with golden values.",
  ["src/MathEval/Bernoulli.cc", "src/MathEval/Fermi.cc", "src/MathEval/GaussFermi.cc", "src/MathEval/MiscMathFunc.cc"],
  [("series and asymptotic branches", "src/MathEval")], ["function values"])
prop("N02", "Mesh geometry sums to the geometry of the region",
  "For every mesh of a region, node volumes sum to the region volume, edge couples are symmetric and non-negative for Delaunay meshes, and contact and surface areas sum to the boundary area.",
  ["inputs"], "every valid mesh in one, two and three dimensions", "Tests use a handful of meshes.",
  ["src/GeomModels", "src/Geometry"], [("geometric builtin models", "src/GeomModels")], ["builtin geometric models"])
prop("N03", "Symbolic derivatives are the derivatives of the expression",
  "For every expression and variable, the derivative model created by the simulator evaluates to the derivative of the expression.",
  ["inputs"], "every expression of the language", "Tests cover a few expressions, and the symbolic engine is an external component that is not part of this repository.",
  ["src/AutoEquation", "external/symdiff"], [("symbolic differentiation", "external/symdiff (absent here)")], ["derivative models"])
prop("N04", "Mesh generation honours the requested lines and regions",
  "For every set of mesh lines, regions, interfaces and contacts that is accepted, the generated mesh has nodes at the requested positions, spacing within the requested bounds, and each node in the right region, interface and contact.",
  ["inputs"], "every set of mesh commands", "Tests cover a few meshes.",
  ["src/meshing/Mesh1d.cc", "src/meshing/Mesh2d.cc"], [("line and region processing", "src/meshing")], ["mesh lists and coordinates"])
prop("N05", "Extended precision results refine double precision results",
  "With extended precision selected, solutions satisfy tighter error limits than double precision and agree with the double precision solution to double precision accuracy.",
  ["configurations", "inputs"], "every problem solved in both precisions", "Tests do not compare the two.",
  ["src/utility/Float128.hh", "src/math", "src/Equation"], [("templates instantiated for both types", "src/math, src/Equation, src/AutoEquation")], ["solutions in both modes"])
prop("N06", "The discretized equations conserve flux between nodes",
  "For every mesh and model, the assembled edge fluxes leave one node exactly as they enter the other, so the sum of contact fluxes equals the sum of the sources over the region.",
  ["inputs"], "every mesh and model", "Tests print contact currents for a few devices.",
  ["src/Equation/Equation.cc", "src/Equation/ContactEquation.cc", "src/Equation/InterfaceEquation.cc"], [("edge and volume assembly", "src/Equation")], ["contact currents and residuals"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
