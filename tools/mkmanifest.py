"""Writes /verif/MANIFEST.json. Claimed properties: those with a binary (or script) here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Random exploration of generated inputs against an independent oracle in the harness; trusts the harness's reference mathematics, rustc and the third-party crates, and says nothing about inputs outside the generated ranges."
T = {
 "C01": "property-based testing against dense matrix algebra",
 "C02": "property-based testing against a reference matrix exponential/logarithm",
 "C03": "property-based round-trip and defining-formula testing",
 "C04": "property-based testing of algebraic identities against reference adjoint/Jacobians",
 "C05": "property-based differential testing of AD on generated functions vs high-order differences and closed forms",
 "C06": "property-based differential testing of numerical vs exact derivatives on generated functions",
 "C07": "property-based testing against closed-form residuals and Jacobians",
 "C08": "property-based testing against the Mahalanobis norm of the generated covariance",
 "C09": "property-based testing against documented loss formulas, derivative consistency and monotonicity",
 "C10": "property-based testing of generated factors/graphs: differential recomputation and gradient check",
 "C11": "property-based differential testing: sparse assembly vs dense stacking of generated linear graphs",
 "C12": "stateful property-based testing of solver call sequences vs dense reference solutions",
 "C13": "property-based differential testing of optimizer steps vs dense least squares",
 "C14": "property-based checking of observed optimizer steps against the damped normal equations",
 "C15": "model-based testing of the optimise loop with generated step histories",
 "C16": "property-based end-to-end and metamorphic testing of generated graphs",
 "C17": "stateful model-based testing of the value store against a reference map",
 "C18": "property-based round-trip and injectivity testing",
 "C19": "generated g2o files vs an independent parser (differential)",
 "C20": "property-based differential testing of IMU factors against an independent reference implementation",
 "C21": "metamorphic and convergence testing on generated trajectories",
 "C22": "generated macro programs compiled and compared with the explicit builder",
 "C23": "property-based testing of conversions against reference geometry",
 "C24": "property-based testing of the library built in each configuration",
 "C26": "property-based testing of the single-precision and multithreaded builds against double-precision oracles",
}
checks = []
for p in sorted(T):
    have = os.path.exists(f"{HERE}/harness/src/bin/{p.lower()}.rs") or (p == "C22" and os.path.exists(f"{HERE}/fac_check.py"))
    if have:
        checks.append(dict(property=p, quick_cmd=f"python3 /verif/check.py {p}", thorough_cmd=f"python3 /verif/check.py {p} --thorough",
                           evidence_file=f"evidence/{p}.json", technique=T[p], level="exploration", level_note=NOTE))
claimed = {c["property"] for c in checks}
na = [dict(property="C25", reason="The serde feature cannot be built offline: it needs the factrs-typetag submodule (empty here) and the erased-serde, inventory and typetag crates (not in the cargo cache), so there is no program to generate inputs for.")]
for p in sorted(T):
    if p not in claimed:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 /verif/check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks: the harness uses only the public API. thorough_cmd runs the same program with 40 times the cases. See DESIGN.md.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
