"""writes MANIFEST.json (committed); kept next to it so that the list stays in step with properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
NA = {
    "C27": "a limit statement about averages over random draws; its static content (same laws on both sides) is claimed as C06-C11",
    "C28": "a numerical convergence rate; no source-level argument in this family bounds quadrature and interpolation error of the composed recursion",
    "C29": "a numerical statement about accumulated floating-point rounding; static analysis in reach cannot bound it across jax/numpy kernels",
}
AI = "abstract interpretation of the source into value graphs (symbolic value numbering), compared with the property's reference: equal normal forms, exhaustive case splits over discrete leaves, random interpretation of both graphs as refutation filter"
EF = "interprocedural effect and data-flow analysis on the abstract interpretation of the source (origins of mutated objects, seeds and generators of draws, dependency sets of value graphs)"
TECH = {"C01": EF, "C02": EF, "C03": EF, "C18": EF, "C23": AI + "; call-argument flow"}
NOTE = {}


def main():
    from sa import obligations  # noqa: F401
    from sa.framework import OBS
    claimed = sorted({p for o in OBS for p in o["props"]})
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    na = []
    for i in ids:
        if i in claimed and i not in NA:
            n = sum(i in o["props"] for o in OBS)
            checks.append(dict(
                property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=TECH.get(i, AI), level="other",
                level_note=NOTE.get(i, f"{n} obligations on value graphs/effects extracted from the current source; each part is proved by normal forms or by a rule, "
                                       "or checked by random interpretation of the graphs; parts outside the modelled language are reported undecided, never as alarms")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "not built yet")))
    json.dump(dict(version=1, setup_cmd="python3 -m compileall -q sa", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", [x["property"] for x in na])


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    main()
