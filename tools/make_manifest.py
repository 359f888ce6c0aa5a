"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": ("analytic oracle: uniform plane-stress states on generated distorted meshes", "Tolerance 1e-7 relative, scaled by the conditioning of the model. Trusts the closed-form field and the harness' own consistent edge loads."),
 "C02": ("equilibrium invariant with independently assembled forces, superposition and reciprocity relations", "Element matrices are those of the package (their truth is C04/C05); scatter, supports, loads and solution are checked independently."),
 "C03": ("metamorphic relations: renumbering, reordering, isometries, change of units", "Relations between two runs of the package; an error common to both sides of every relation is left to C01, C05, C13."),
 "C04": ("algebraic invariants: symmetry, eigenvalues, null space against an analytic basis, objectivity", "Rank decisions use a relative threshold of 1e-8 or so on generated elements whose distortion is bounded."),
 "C05": ("differential oracle: energy from an independent isoparametric reference and exact polynomial integration", "The reference shape functions, quadrature and Hooke law are the harness' own (ref.py)."),
 "C06": ("differential oracle: mass from independent over-integrated reference; closed forms for members", "Exactness claimed only where the package's own rule is exact (straight sides; affine hexahedra)."),
 "C07": ("polynomial reproduction and complex/finite-difference derivative oracles at generated points", "Points within the reference element."),
 "C08": ("differential oracle: independent isoparametric map, analytic gradients", "Straight and curved elements with positive Jacobian."),
 "C09": ("algebraic laws: inverse compliance, isotropy, reduction of the 3D law", "The fourth (out-of-plane) row of the plane-strain helper is not judged."),
 "C10": ("exact monomial and random polynomial integrals for every rule and order", "The set of rules and orders is finite and sampled exhaustively with fixed cases; polynomials are generated."),
 "C11": ("reference-model scatter-sum, dense against sparse, user elements, round trip of solution vectors", "Element matrices of built-in types are taken from the package."),
 "C12": ("residual oracle and dense/sparse differential", "Systems of bounded condition number."),
 "C13": ("reference model of nodal averaging", "Gauss-point strains from the harness' own reference; every node belongs to an element."),
 "C14": ("equilibrium of joints, elongation oracle, spring/bar differential", "Stable trusses by construction; stiffness ratios bounded."),
 "C15": ("closed-form Euler-Bernoulli solutions, rotation and reversal metamorphic relations", "Tolerance follows the condition number of the model."),
 "C16": ("defining equations of eigenpairs across magnitudes", "Orientation sign of the directions is free."),
 "C17": ("reference model of the renumbering and of the transformation", "Images never are references of others (not supported by the package)."),
 "C18": ("spectral invariants: Hermitian, periodicity, reversal, choice of references, folding; analytic dispersion", "Eigenvalues compared normwise relative to the largest one."),
 "C19": ("validity predicate of the grid (exact coordinates, tiling, orientation) and its analysis", "Up to some hundred elements per side."),
 "C20": ("reference model over generated meshio meshes; round trip through Gmsh 2.2 ASCII", "Two-node boundary lines; cell types with an element of the package that the importer lists."),
 "C21": ("differential: file-driven against in-memory workflow; echo and read-back oracles", "The interactive prompt is C30."),
 "C22": ("monotonicity relations between generated nested meshes, analytic frequencies", "Nested subdivisions only: straight triangles, parallelograms."),
 "C23": ("validity predicate of triangulations; inspection of the drawn Matplotlib artists", "Agg backend; artists are inspected, pixels are not."),
 "C24": ("stateful histories against a fresh-process baseline of the same model; snapshots of inputs", "Single-threaded histories of bounded length."),
 "C25": ("construction of unstable/stable models with units over many decades; oracle is the construction", "Well-conditioned models of bounded aspect ratio."),
 "C26": ("differential oracle: independent axisymmetric reference, closed-form cylinders", "Elements of bounded distortion; radius zero included."),
 "C27": ("generated invalid and valid elements in generated meshes; oracle is the construction", "Valid elements keep a relative Jacobian above the stated margin."),
 "C28": ("inspection of the drawn Matplotlib lines against the generated truss, stresses and profiles", "Agg backend; artists are inspected, pixels are not. Colours within 1.2 % of the scale."),
 "C29": ("exact quadratic plane fields, uniform 3D and axisymmetric states on generated meshes through the assembly", "Straight-sided meshes; tolerance 1e-7 of the largest displacement."),
 "C30": ("differential between the ways of starting the workflow; parsing of its report", "easygui is replaced by a stand-in; the dialog itself is not exercised. Few runs of the command line, in child processes."),
 "C31": ("inertia of rigid motions from independent integration, rank of the stiffness, metamorphic relations of spectra", "Eigenvalues compared normwise relative to the largest one; curved elements only in the metamorphic part."),
}
TECH = {"C24": "property-based testing (Hypothesis, model-based operation histories): "}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    tech, note = NOTE[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python harness/run.py %s quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python harness/run.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECH.get(pid, "property-based testing (Hypothesis): ") + tech,
        "level": "exploration",
        "level_note": "Generated-input search with shrinking; holds on every case explored, not a proof. " + note})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python harness/run.py --list",
     "checks": checks, "not_applicable": [],
     "notes": "Pure Python: the checks import /repo's working tree directly. "
              "VERIF_SEED fixes every choice; run.py --replay FILE replays a "
              "reported case. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
