"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
sys.path.insert(0, "/verif/harness")
import registry
V = "/verif"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {
 "N01": "quadrature weights and points are pure tables: no schedule, clock, I/O or second party whose nondeterminism a simulator could control; a wrong table is seen indirectly by C09/C10/C12, whose oracles integrate exactly",
 "N02": "time bases and element matrices are pure functions of the order; nothing to schedule or to fail; wrong matrices are seen indirectly by C07 and C09, whose oracle has its own",
 "N03": "an asymptotic statement about the method, not about any execution; no schedule or fault bears on it, and mesh-refinement studies are not seeded fault search",
 "N04": "the code under test needs the real DOLFINx for distributed assembly, which is not installed; a multi-rank stand-in for its assembly would test the stand-in, not UCL/dxss",
}
TECH = "deterministic simulation with fault injection: seeded search over histories, schedules and faults"
NOTES = {
 "gmres_world": "Seeded exploration; no proof. Real dxss.gmres on real PETSc; operators and preconditioners are simulated components that fail on command. Oracle: independent dense linear algebra (reference GMRES). Assumes PETSc/petsc4py 3.19 as installed.",
 "spacetime_world": "Seeded exploration; no proof. Real dxss.space_time, precomp_time_int, gmres on real PETSc and UFL; DOLFINx is replaced by a single-process stand-in (simenv) whose calls are the fault points. Oracle: an independent dense assembly of the published bilinear forms.",
 "driver_world": "Seeded exploration; no proof. The real driver modules run whole on the DOLFINx stand-in with simulated PyPardiso/PETSc-LU back ends that fail on command. Oracle: the independently assembled system.",
 "mesh_world": "Seeded exploration; no proof. Real dxss.meshes with the real gmsh and meshio on scratch directories; MPI ranks are simulated by one forked process each, run one at a time by a seeded scheduler; DOLFINx mesh calls are a stand-in. Oracle: exact geometry.",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.WORLDS:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration",
                       "level_note": NOTES[registry.WORLDS[i]]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its simulated world is under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: every seam is a call the code already makes (callbacks, dolfinx, gmsh, meshio, pypardiso, mpi4py, file system)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh PROPERTY [quick|thorough] [--seed N] [--cases N] [--replay FILE]; see DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
