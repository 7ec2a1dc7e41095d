#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and validates it."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("stateful property-based testing against a reference map", "Generated histories on real containers compared with a reference map; no violation among the generated cases is evidence, not proof."),
 "C02": ("stateful property-based testing against a reference set", "As C01, for sets."),
 "C03": ("property-based testing with constructed hash collisions against a reference model", "Collision prefixes of 0..238 hash digits generated directly (generic containers) or by weakening hash/maphash (other families); deeper collisions are outside the domain."),
 "C04": ("stateful property-based testing of iteration against a reference multiset and prefix/repeatability laws", "All reachable shapes are sampled, not enumerated."),
 "C05": ("stateful property-based testing against exact depths computed from hash digits, and a same-seed twin", "Exact oracle for generic containers; laws and a twin container for the other families."),
 "C06": ("metamorphic property-based testing: two histories, same seed and content, same structure", "Structure is observed through Dep and iteration order."),
 "C07": ("stateful property-based testing with reading, writing and panicking callbacks against a reference map", "Structural modification of the same map from inside the callback is outside the domain."),
 "C08": ("stateful property-based testing of held pointers against a reference map", "Pointer identity is compared with Ptr at every step."),
 "C09": ("model-based testing of several containers and copies with nested operations", "One reference model per container, checked through every copy."),
 "C10": ("property-based testing of zero values against a specification table", "Every container type and value type is covered in turn."),
 "C11": ("randomized concurrent histories under the race detector, with sequential expected results", "Schedules are sampled by the Go scheduler; the race detector reports unordered conflicting accesses of executed schedules."),
 "C12": ("randomized histories with forced collections under the address sanitizer and checkptr, with canaries", "Trusts the sanitizers; memory errors invisible to them, to clobbered freed memory and to the canaries are missed."),
 "C13": ("stateful property-based testing with weak pointers and a heap comparison against a directly built twin", "Assumes a forced collection reclaims everything unreachable."),
 "C14": ("property-based laws of the key types and monitored user keys in generated histories", "Laws are checked for iteration counts up to 70000."),
 "C15": ("property-based testing of depth and cost against the expectation for random tries", "The tolerance is wider than the sampling error, so small degradations (below about 2% for large N) are not detected."),
 "C17": ("property-based fault injection: a panic at every call of user code of generated operations, snapshots before and after", "Faults are enumerated per generated operation; states and operations are sampled. Keys of the integer, string and byte families have no user code, so only callbacks are injected there."),
 "C18": ("property-based comparison of containers under the real hash/maphash: orders, colliding pairs, recorded seeds, other processes", "Statistical laws; thresholds leave a false alarm probability below 1e-12 per case."),
 "C19": ("property-based comparison of live heap with the bytes of the documented layout for the exact or a random trie", "Exact (5% tolerance) for generic containers, one eighth (2.5% for large tries) for the others; a same-seed twin bounds the effect of history to 0.2%."),
 "C20": ("stateful property-based testing with random scripts run inside callbacks and key methods, against a reference model", "Insertions and deletions inside an All that continues, inside a Mod of an absent key or inside a key method are outside the domain."),
 "C21": ("property-based differential comparison of the time and allocation of single operations on a large container and on a container with one key", "Time is compared with a margin of 60 microseconds and allocation with one of 4 KB, so work proportional to N is noticed from some ten thousand entries on."),
 "C22": ("stateful property-based testing with retained key slices overwritten by the caller, against a reference model of the other keys", "Keys that equal the old or new content of a modified slice are not compared until they are set again."),
 "C16": ("metamorphic property-based testing: snapshots around queries and no-op updates", "A snapshot is Len, Dep, iteration order, values and value addresses."),
}
checks = [{"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}", "evidence_file": f"evidence/{i}.json",
  "technique": t, "level": "exploration", "level_note": n + " Assumes a Go toolchain and hash/maphash honouring their contracts."} for i, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
 "notes": "No hooks in /repo: the checks build a separate module against /repo's working tree and replace the standard hash/maphash through a build overlay. Every check builds what it needs itself."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
