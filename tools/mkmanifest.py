"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import checks
T = "TLA+ specification model-checked with TLC; "
REPLAY = T + "state graph replayed edge by edge into the library"
NOTE = {
 "C01": (REPLAY, "Every edge of the cursor model over all run layouts, sizes and initialized sizes within the bounds is executed in the library, with byte contents, positions and lengths compared; bounded (runs, lengths), the volume images come from an independent writer."),
 "C02": (REPLAY, "As C01 with every composition of the runs into extents of a list, over resident/non-resident lists, record placements and instance numbers."),
 "C03": (REPLAY, "Every edge of the in-memory cursor model, at several scales and value offsets."),
 "C04": (REPLAY.replace("edge by edge","case by case")+"; random long run lists recorded from the library and validated against the specification", "All run lists of the bounded alphabet of header bytes, length and delta values (incl. 8-byte extremes, truncations) with all cluster sizes; plus trace validation of random run lists."),
 "C05": (T+"every crash point of a record write replayed into the library", "Every subset of old and new sectors for the record sizes, sequence numbers and protection array lengths in the bounds, for file and index records."),
 "C06": (T+"every table fragmentation in the bounds built as a volume, every record number looked up in the library", "Fragment counts and lengths, record sizes vs cluster sizes and record numbers are bounded; numbers around 2^32/2^64 are sampled as classes."),
 "C07": (T+"every distribution of attributes over records in the bounds built as a volume and iterated with the library", "Bounded numbers of attributes, extents and records; resident and non-resident lists."),
 "C08": (T+"every set of streams, names and indexes in the bounds built as a volume and queried with the library", "Bounded alphabets of names, namespaces and parents; all queries over them."),
 "C09": (T+"every index tree in the bounds built as a volume and iterated with the library", "All tree shapes within the bounds on depth, fan-out and keys, several record geometries; larger trees by random instances of the same shapes."),
 "C10": (T+"every sorted index tree in the bounds searched in the library for every present and absent key, with reused finders and counted node reads", "As C09."),
 "C11": (T+"all pairs replayed into the library; comparisons of random names under random tables recorded and validated against the specification", "Bounded alphabet and lengths for the exhaustive part; the total order laws are invariants of the specification."),
 "C12": (T+"every reference value and node placement in the bounds built as a volume and followed with the library", "Bounded allocations and cluster/record geometries; reference values as classes around the borders."),
 "C13": (T+"every combination of boot sector fields in the bounds opened with the library; random boot sectors recorded and validated against the specification", "Complete byte domains for the encoded sizes, classes for 64-bit fields in the product."),
 "C14": (T+"every damage in the tables made on volumes that have every structure and walked with every public operation; recorded iterations validated against the iteration protocol; every graph of index nodes in the bounds iterated and searched", "Every field of every structure with values around the borders of its range and of its container, alone, in pairs within a structure and in pairs of structures read together; random bytes, moved pieces and truncated devices; all assignments of subnodes to up to three (thorough: four) nodes. Instances and the combinations of pairs are sampled in the quick tier; allocations of gigabytes that a volume asks for are not looked for."),
 "C15": (T+"histories of several objects generated by TLC, carried out with real objects over one reader, recorded and validated against the specification", "Every history of opening, cloning and using up to three objects up to the depth in the bounds, bound to values of five storages, seven iterators, finders and volume queries; the device is left at random places between operations; values compared byte by byte with the stream's contents, items with those of an object used alone."),
 "C16": (T+"histories with faults generated by TLC, carried out with real objects over a faulty device, recorded and validated against the specification; sweep over all fault placements", "Every placement of short reads, interruptions, errors and empty reads over the accesses of every operation of every kind of object (long operations are sampled in the quick tier), pairs of faults sampled, histories with one (thorough: two) faults at any of the first accesses exhaustively to the depth in the bounds."),
 "C17": (T+"every byte layout in the bounds stored in volumes and read back through every accessor; random structures recorded and validated against the specification", "Every field at its border values with all others distinct, every length around every border, every storage (resident, non-resident, index key, list)."),
 "C18": (T+"every layout of table, index and list in the bounds built as a volume and every reported position compared with the specification's map; cursor state graph replayed for the positions inside values", "All layouts of runs (adjacent, in front, behind, holes) with borders at, before and behind record borders, four record/cluster ratios; every position accessor, the positions given to index keys and those named in signature errors; positions behind a border inside a record are a known finding."),
 "C20": (T+"every combination of declared sizes and offsets in the bounds built as a volume and walked with the library", "Numbers around every border of the container and huge ones, for records, attributes, names, values, run lists, lists, index roots, nodes, entries and value sizes; what is delivered is compared byte by byte with the container."),
 "C19": (T+"every moment around the borders and carries replayed; random conversions recorded and validated against the specification", "Exact arithmetic in the specification over byte-sequence numbers; the ranges' borders, carries and all 100 ns remainders."),
 "C21": (REPLAY.replace("edge by edge","history by history")+"; random histories recorded and validated against the specification", "Sector sizes, device sizes and read/seek amounts bounded; the three known defects of the reader are modelled as deviations and reported as findings."),
}
NOTE.update(getattr(checks, "NOTES", {}))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS and i in NOTE:
        t, n = NOTE[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check under construction") if hasattr(checks, "NOT_APPLICABLE") else "check under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
