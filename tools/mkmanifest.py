#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: random and boundary angles against a range predicate and sin/cos", "wrap/clamp ranges and directions"),
 "C02": ("model-based property testing: random operator sequences against unbounded reals", "operator algebra"),
 "C03": ("property-based testing: recompose and re-parse what is printed", "dms split and printed forms"),
 "C04": ("property-based testing: quantities and units against base-unit arithmetic", "unit conversions"),
 "C05": ("property-based testing: axis conventions against an independent slot table, round trips", "axes"),
 "C06": ("property-based testing: cartesian axis conventions against an independent slot table, round trips", "axes"),
 "C07": ("property-based testing: differences placed just inside and outside each tolerance", "approximate comparison"),
 "C08": ("property-based testing: ellipsoid elements against defining identities and ellipse geometry", "ellipsoid elements"),
 "C09": ("exhaustive catalogue x generated positions against published tables", "catalogue constants"),
 "C10": ("property-based differential testing against a reduced-latitude construction", "geodetic to geocentric"),
 "C11": ("property-based round-trip and differential testing against Newton inversion", "geocentric to geodetic"),
 "C12": ("property-based differential testing against the closed isometric latitude", "Mercator"),
 "C13": ("property-based differential testing against an exact complex transverse Mercator", "transverse Mercator"),
 "C14": ("property-based differential testing over all UTM zones against the exact projection", "UTM"),
 "C15": ("property-based differential testing against spherical Mercator", "web Mercator"),
 "C16": ("fuzzing for totality, termination and NaN with metamorphic relations", "projections on any input"),
 "C17": ("property-based differential testing against quadrature of the geodesic integrals", "direct geodesics"),
 "C18": ("property-based testing: the inverse solution is flown by an independent direct oracle, minimality bounds", "inverse geodesics"),
 "C19": ("property-based testing: metric laws and independent distances", "distances"),
 "C20": ("property-based differential testing against an independent composition of oracles", "transformations"),
 "C21": ("metamorphic and stateful property testing: inversion, exchange, random chains", "transformation algebra"),
 "C22": ("property-based differential testing against the written-out EPSG formulas", "datum shifts"),
 "C23": ("model-based property testing: random build sequences against a list-of-positions model", "curves"),
 "C24": ("model-based property testing: random geometries against a list-of-positions model", "geometries"),
 "C25": ("model-based property testing against intervals in degrees", "circle intervals"),
 "C26": ("property-based testing against double-double and exact big-integer references", "numeric kernels"),
 "C27": ("property-based testing: pairs differing in one generated ingredient", "equality"),
 "C28": ("property-based testing of the command as a subprocess: output invariants and distribution tests", "sampling tool"),
 "C29": ("stateful property testing: random call histories on shared objects, reordered, repeated and on several threads, against each call alone on fresh objects", "call histories"),
}
props = [json.loads(l) for l in open(f"{D}/properties.jsonl") if l.strip()]
checks = []
for p in props:
    i = p["id"]
    tech, subj = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": f"Generated-input search over {subj}: no counterexample in the cases reported by the evidence file. Deterministic for a given VERIF_SEED"
                      + (" except for the tool's own entropy" if i == "C28" else "")
                      + ". Trusts the harness's oracles (self-checked at start) and the tolerances listed in the evidence's assumptions.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg(geokit_verif)", "enable": 'RUSTFLAGS="--cfg geokit_verif" (set by env.sh when it builds the harness)', "source_commits": ["293bcd6fbbb4b04029435bd6c42ed9db793b843d"]},
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. replay.sh FILE re-executes a replay file.",
}
json.dump(m, open(f"{D}/MANIFEST.json", "w"), indent=1)
open(f"{D}/MANIFEST.json", "a").write("\n")
