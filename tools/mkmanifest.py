"""Regenerates /verif/MANIFEST.json."""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
METHOD = {
    "C01": "generated graphs against factor-by-factor numpy residuals",
    "C02": "generated graphs against difference quotients of reference residuals",
    "C03": "generated operation histories against a dict model",
    "C04": "generated variable and factor lists against a partition predicate",
    "C05": "generated deltas and storage orders against reference retractions",
    "C06": "generated COO matrices against dense numpy",
    "C07": "generated sparse systems against dense normal equations",
    "C08": "generated sequences of solves sharing solver objects against independent solutions",
    "C09": "generated linear graphs against dense least squares",
    "C10": "metamorphic: generated reorderings of factors, variables and storage",
    "C11": "generated problems, every iterate against a reference Gauss-Newton step",
    "C12": "generated problems, every iterate against a reference Levenberg-Marquardt step",
    "C13": "generated problems, every iterate against a reference dogleg step",
    "C14": "generated Gaussian models against Mahalanobis distances",
    "C15": "generated Huber problems against closed forms and an independent optimum",
    "C16": "generated graphs against closed-form log-densities",
    "C17": "generated query histories against dense inverses",
    "C18": "generated graphs under jit, vmap and grad against plain calls and difference quotients",
    "C19": "generated group elements against matrix exponentials and logarithms",
    "C20": "generated g2o files against the data they were written from",
    "C21": "generated value structures against round-trip and derivative laws",
    "C22": "generated tolerances against the stop iteration computed from tolerance-free iterates",
    "C23": "generated misuses of valid set-ups, each must raise",
    "C24": "generated graphs with nonlinear noise models against factor-by-factor whitening",
    "C25": "generated solves, captured output against costs of tolerance-free iterates",
    "C26": "metamorphic: generated changes of parameters before and after stacking",
}
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
assert [p["id"] for p in props] == sorted(METHOD)
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique="property-based testing (Hypothesis): " + METHOD[i],
        level="exploration",
        level_note="Holds on every generated case of the run (counts, classes and samples in the evidence file); "
        "nothing is claimed beyond them. Trusts jax, jaxlie, scipy, scikit-sparse and the numpy reference code in vh/.",
    ))
doc = dict(
    version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo. Environment overrides for development: VH_REPO (tree to test, default /repo), VH_BUDGET "
    "(seconds). Replay a saved failure with `bash replay.sh <file>`. known_findings.json lists findings and fixes.",
)
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
