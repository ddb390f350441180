"""Writes MANIFEST.json from the check modules that exist."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("generated scenes, grammar and bookkeeping oracle over every history (Hypothesis)",
            "Every generated history of both tracers is checked against an event grammar and exact conservation relations; histories themselves are random, so coverage is by sampling."),
    "C02": ("generated scenes, independent analytic geometry as oracle for every event",
            "Every event is located by an independent geometry model; events within rounding distance of two surfaces are counted as undecided and bounded in number."),
    "C03": ("generated scenes, exact law-of-reflection/Snell oracle per event and pooled Fresnel statistics",
            "Directions and normals are checked exactly; probabilities by two-stage z tests (confirmed on a four times larger independent sample)."),
    "C04": ("generated scenes, reference attenuation model with two-stage KS and z tests",
            "Laws are statistical: deviations below roughly 2 percent of a probability are invisible; membership rules are exact."),
    "C05": ("generated scenes and components, reference emission CDF with two-stage KS tests, exact support",
            "Laws are statistical; supports are exact."),
    "C06": ("differential testing of the two tracers on generated scenes, two-stage two-sample tests",
            "Distributions are compared by chi-square, z and KS two-sample tests, confirmed on a larger independent sample."),
    "C07": ("metamorphic testing over worker counts, strides, budgets and bundles on generated scenes",
            "Equality is bit for bit (sums to rounding); thread schedules are those the machine produces."),
    "C08": ("model-based testing: independent tally of generated histories against native and Python recorders",
            "Every number of every recorder is recomputed from the histories; values within rounding of a bin edge may fall either side."),
    "C09": ("generated scenes with unsupported features injected, rejection oracle and faithful-trace oracle",
            "Rejection is exact per feature; faithfulness of accepted scenes is judged by tracing."),
    "C10": ("generated shapes, rays and points against independent analytic geometry",
            "Queries within rounding distance of an edge or tangency are not judged."),
    "C11": ("stateful generated operation sequences against a reference matrix model, metamorphic scene transforms",
            "Transforms are compared to 1e-9; physics invariance statistically or by equal seeds."),
    "C12": ("generated lights, distribution tests of both emission paths against reference laws",
            "Exact for order, names, support; laws are statistical."),
    "C13": ("generated data sets against a reference piecewise-linear model; generated invalid data",
            "Exact to rounding."),
    "C14": ("generated ray and worker counts with an accounting oracle on results and queue",
            "Process schedules are those the machine produces, plus injected delays."),
    "C15": ("generated histories stored through the CLI writer; queries compared with a reference evaluation",
            "Query answers are exact; simulated databases are compared with recorded event streams."),
    "C16": ("grammar-generated scene files compared with an independent reading; mutated files must be refused",
            "Exact comparison of every declared attribute."),
    "C17": ("stateful model-based testing of the HTTP API against a document model",
            "Every response and the following state are compared with a reference edit of the parsed document."),
    "C18": ("generated runs over the websocket compared with direct engine runs",
            "Exact totals per bundle."),
    "C19": ("generated device configurations; accounting oracle over recorded traced histories",
            "Counts are recomputed from the histories the simulation traced."),
    "C21": ("stateful model-based testing of the renderer on generated scenes and histories, at the connection to the viewer",
            "What the viewer would show is computed from the commands sent, and compared with a model after every step."),
    "C20": ("generated parameters, distribution tests and textbook reference formulas",
            "Formulas to 1e-9; laws are statistical."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "harness", "checks")) if f.startswith("c")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i,
                       "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "the check is still under construction"})
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks}
if na:
    m["not_applicable"] = na
m["notes"] = "Property-based testing and fuzzing only; see DESIGN.md. No hooks in /repo are needed."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
