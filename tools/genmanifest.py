#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
# id: (technique, level, note)
MODEL = "stateful property-based testing against a reference model"
T = {
 "K01": (MODEL, "sorted-map model of batches; every engine and tuning option, generated histories"),
 "K02": (MODEL, "window of a sorted map as model of an iterator; generated key sets, windows and cursor moves"),
 "K03": (MODEL, "model copied when a reader is opened; single-threaded interleavings of readers, writes and compactions"),
 "K04": ("property-based testing with generated failing batches against a reference model", "failures come from merges, keys and sizes the engines refuse; I/O errors of the file system are not injected"),
 "K05": ("model-based testing with a recording non-commutative merge operator", "order, absence and mixing with sets are decided from what the operator saw and from the final content"),
 "K06": ("metamorphic property-based testing (buffers overwritten against untouched run)", "every buffer given or returned is overwritten or compared after further activity"),
 "K07": (MODEL, "reset, reuse and foreign batches in generated histories"),
 "K08": (MODEL, "close and reopen as generated steps of a history"),
 "K09": ("property-based crash testing: generated histories, generated crash images from a recorded system-call trace, prefix oracle", "images keep every synced write and a generated subset of the others; directory operations are taken as durable in order; Badger only for the death of the process"),
 "K10": (MODEL, "generated contents around the dictionary prefix and generated batch sizes"),
 "K11": ("generated concurrent histories under the race detector, decided by invariants and counters", "schedules are sampled, not enumerated"),
 "K12": ("property-based testing against a constant model", "generated calls on the null store"),
 "K13": ("property-based testing of generated open configurations against a model", "files are compared before and after a refused open"),
 "K14": ("property-based testing of generated calls on closed stores", "readers, writers and batches taken before and after closing"),
 "X01": ("property-based testing against an independent geometric oracle", "objects made in the gnomonic plane, locations inside them by planar geometry"),
 "X02": ("property-based testing against a reference index", "reference map from cell to ids"),
 "X03": ("property-based testing against a reference index", "brute force over all points at every level"),
 "X04": ("property-based testing against an independent distance oracle", "points within two centimetres of the circle are not decided"),
 "X05": ("property-based testing against an independent rectangle oracle", "points within two centimetres of an edge are not decided"),
 "X06": (MODEL, "brute force over all entries"),
 "X07": ("property-based testing against an independent geometric oracle", "objects and probes made independently of the coverer"),
 "X08": (MODEL, "one reference store per index, foreign entries compared byte by byte"),
 "X09": ("metamorphic property-based testing (results and inputs compared after later activity)", "a store that poisons recycled memory makes aliasing visible"),
 "X10": ("property-based fault injection on an instrumented store", "every storage call fails in turn; resources are counted"),
 "X11": ("property-based testing of the raw store content before and after each call", "generated valid and malformed objects and failing executions"),
 "X12": ("generated concurrent histories under the race detector, answers bounded by acknowledged and begun calls", "schedules are sampled, not enumerated"),
 "G01": ("round-trip property-based testing with an independent GeoJSON reader and writer", "coordinates compared exactly"),
 "G02": ("round-trip property-based testing", "generated property maps and targets"),
 "G03": ("property-based testing against an independent encoder of the wire format, byte fuzzing of the decoder", "packed and unpacked forms, damaged bytes"),
 "G04": ("property-based testing against an independent geometric oracle", "locations inside are sampled, distances of cells computed"),
 "G05": ("property-based testing against an independent geometric oracle", "cells against edges in the gnomonic plane"),
 "G06": ("metamorphic property-based testing (ring rewritten)", "covers and rectangles of rewritten rings compared"),
 "G07": ("structured fuzzing with an error oracle", "fixed levels are bounded so that covers stay small"),
 "G08": ("property-based testing against an independent bounding oracle", "latitude and longitude ranges computed edge by edge"),
 "G09": ("round-trip property-based testing with an independent GeoJSON reader", "exported text compared object by object"),
 "T01": ("round-trip property-based testing and text fuzzing", "cells numbered independently of s2"),
 "T02": ("property-based testing against reference implementations", "map and counting references"),
 "T03": ("round-trip property-based testing with an independent GeoJSON reader", "corners taken from s2"),
 "T04": ("grammar-based fuzzing of queries with an independent token oracle", "handler called in process"),
 "T05": ("grammar-based fuzzing of bodies and parameters, differential against the direct cover", "handler called in process and through a router; bodies limited in size and levels"),
 "T06": ("generated concurrent request histories against the running server, differential against the handlers alone", "the server is built with the race detector and asked over loopback; schedules are sampled"),
 "K15": (MODEL, "descriptors, mappings, engine goroutines and Bolt transactions counted before and after"),
 "X13": ("property-based testing against an independent writer and reader of the stored entries", "entries written and deleted by hand next to the index"),
 "G10": ("generated concurrent calls under the race detector, differential against each call alone", "schedules are sampled, not enumerated"),
}
UNCLAIMED = {}
checks = []
for i in ids:
    if i in UNCLAIMED:
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration",
                   "level_note": "Generated search, no proof: " + note + ". Trusted: the pinned third-party modules and the oracle in harness/."})
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in UNCLAIMED.items()],
     "notes": "No hooks in /repo. check.sh builds the harness from /repo's working tree on every run; replays are run with check.sh --replay FILE."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
