"""What every check runs. Each function decides one property with the specifications in /verif/spec."""


def stream_graph(c, cfg, rounds):
    """Model checks the cursor against the stream contract and replays every edge of the state graph into the library."""
    c.tlc("Stream", cfg, emit=cfg + ".ndjson")
    n = c.report(cfg, "stream", cfg + ".ndjson", "@out", rounds)
    c.traces += n.get("walks", 0)
    c.need(n.get("steps", 0) > 0 or c.violations, "no step replayed")
    return n


def stream_sim(c, kind, mode="stream-sim"):
    """Long behaviours over values of many runs."""
    cfg = "StreamSim_%s_%s" % (kind, c.tier)
    c.tlc("StreamSim", cfg, emit=cfg + ".ndjson")
    n = c.report(cfg, mode, cfg + ".ndjson", "@out", 4)
    c.traces += n.get("walks", 0)
    c.need(n.get("steps", 0) > 0 or c.violations, "no step replayed")


def C01(c):
    stream_graph(c, "Stream_nr_thorough" if c.thorough else "Stream_nr_quick", 3 if c.thorough else 2)
    stream_sim(c, "nr")


def C02(c):
    stream_graph(c, "Stream_list_thorough" if c.thorough else "Stream_list_quick", 3 if c.thorough else 2)
    stream_sim(c, "list")


def C03(c):
    stream_graph(c, "Stream_res", 20 if c.thorough else 6)



def C04(c):
    cfg = "RunList_thorough" if c.thorough else "RunList_quick"
    c.tlc("RunList", cfg, emit="runs.ndjson", timeout=800)
    n = c.report("runlist-replay", "runs", "runs.ndjson", "@out")
    c.traces += n.get("runlists", 0)
    c.report("runlist-record", "runs-record", "runs.trace", "@out", 60000 if c.thorough else 6000)
    c.validate("runlist-trace", "RunListTrace", "RunListTrace", "runs.trace")



def C05(c):
    c.tlc("Torn", "Torn_thorough" if c.thorough else "Torn_quick", emit="torn.ndjson")
    n = c.report("torn-replay", "torn", "torn.ndjson", "@out")
    c.traces += n.get("cases", 0)
    c.need(c.violations or (n["intact"] > 0 and n["torn_or_unprotected"] > 0), "no torn record")
    c.tlc("TornSim", "TornSim_" + c.tier, emit="tornsim.ndjson")
    n = c.report("torn-big-replay", "torn", "tornsim.ndjson", "@out")
    c.traces += n.get("cases", 0)
    c.need(c.violations or (n["intact"] > 0 and n["torn_or_unprotected"] > 0), "no torn record")



def C06(c):
    c.tlc("MCMft", "Mft_thorough" if c.thorough else "Mft_quick", emit="mft.ndjson")
    n = c.report("mft-replay", "mft", "mft.ndjson", "@out", 6 if c.thorough else 3)
    c.traces += n.get("found", 0) + n.get("rejected", 0)
    c.need(c.violations or n.get("found_straddling", 0) > 0, "no straddling record")
    c.tlc("MftSim", "MftSim_" + c.tier, emit="mftsim.ndjson")
    n = c.report("mft-big-replay", "mft", "mftsim.ndjson", "@out", 4)
    c.traces += n.get("found", 0) + n.get("rejected", 0)
    c.need(c.violations or n.get("found_straddling", 0) > 0, "no straddling record")


def attrs(c, part, rounds, sim=False):
    cfg = "Attrs%s_%s_%s" % ("Sim" if sim else "", part, c.tier)
    c.tlc("AttrsSim" if sim else "MCAttrs", cfg, emit=cfg + ".ndjson")
    n = c.report(cfg, "attrs", cfg + ".ndjson", "@out", rounds)
    c.traces += n.get("files", 0)
    return n


def C07(c):
    for part in ("iter", "deep"):
        n = attrs(c, part, 1)
        c.need(c.violations or n["yielded_outside_base"] > 0 and n["yielded_split"] > 0, "nothing split")
    attrs(c, "iter", 4, sim=True)


def C08(c):
    n = {}
    for part in ("data", "name", "vol", "dir"):
        for k, v in attrs(c, part, (1 if part == "dir" else 3) if c.thorough else 2).items():
            n[k] = n.get(k, 0) + v
    attrs(c, "data", 4, sim=True)
    c.need(c.violations or min(n.get(k, 0) for k in ("data_hits", "name_hits", "volume_lookups", "directory_index")) > 0, "no lookup")


def index(c, mode, rounds):
    cfg = "Index_" + c.tier
    c.tlc("Index", cfg, emit="trees.ndjson")
    n = c.report("index-" + mode, "index", "trees.ndjson", "@out", rounds, mode)
    c.traces += n.get("trees", 0)
    cfg = "IndexSim_" + c.tier
    c.tlc("IndexSim", cfg, emit="bigtrees.ndjson")
    m = c.report("index-big-" + mode, "index", "bigtrees.ndjson", "@out", 4, mode)
    c.traces += m.get("trees", 0)
    return {k: n.get(k, 0) + m.get(k, 0) for k in set(n) | set(m)}


def C09(c):
    n = index(c, "iter", 3 if c.thorough else 4)
    c.need(c.violations or n["subnodes"] > 0, "no subnode")


def C10(c):
    n = index(c, "find", 2 if c.thorough else 4)
    c.need(c.violations or n["hits"] > 0 and n["subnodes_read"] > 0, "no search")


def C11(c):
    c.tlc("Upcase", "Upcase_" + c.tier, emit="upcase.ndjson")
    n = c.report("upcase-replay", "upcase", "upcase.ndjson", "@out", 5 if c.thorough else 10)
    c.traces += n.get("pairs", 0)
    c.report("upcase-record", "upcase-record", "upcase.trace", "@out", 200 if c.thorough else 12)
    c.validate("upcase-trace", "UpcaseTrace", "UpcaseTrace", "upcase.trace")


def C12(c):
    c.tlc("MCVcn", "Vcn_" + c.tier, emit="vcn.ndjson")
    n = c.report("vcn-replay", "vcn", "vcn.ndjson", "@out", 1 if c.thorough else 2)
    c.traces += n.get("references", 0)
    c.need(c.violations or n["followed"] > 0 and n["rejected"] > 0 and n["listed"] > 0, "nothing followed")
    n = index(c, "nodes", 3)
    c.need(c.violations or n["nodes_by_number"] > 0 and n["nodes_in_order"] > 0, "no node")


def C13(c):
    parts = ["cluster", "record", "product"] + ([] if c.thorough else ["mft", "sig"])
    for p in parts:
        cfg = "Boot_%s_%s" % (p, c.tier)
        c.tlc("MCBoot", cfg, emit=cfg + ".ndjson")
        n = c.report(cfg, "boot", cfg + ".ndjson", "@out")
        c.traces += n.get("sectors", 0)
        c.need(c.violations or 0 < n["accepted"] < n["sectors"], "one-sided")
    c.report("boot-record", "boot-record", "boot.trace", "@out", 2000 if c.thorough else 200)
    c.validate("boot-trace", "BootTrace", "BootTrace", "boot.trace")


def objects(c, cfg, rounds, parts):
    c.tlc("Objects", cfg, emit=cfg + ".ndjson")
    for p in range(parts):
        n = c.report("histories", "objects", cfg + ".ndjson", "objects.trace", "@out", rounds, p, parts)
        c.need(c.violations or n["histories"] > 0, "no history")
        c.validate("objects-trace", "ObjectsTrace", "ObjectsTrace", "objects.trace")
    return n


def objects_sim(c, kind):
    """Long histories over many objects."""
    cfg = "ObjectsSim_%s_%s" % (kind, c.tier)
    c.tlc("ObjectsSim", cfg, emit=cfg + ".ndjson")
    for p in range(4 if c.thorough else 1):
        n = c.report(cfg, "objects", cfg + ".ndjson", "objects.trace", "@out", 6, p, 4 if c.thorough else 1)
        c.need(c.violations or n["histories"] > 0, "no history")
        c.validate("objects-long-trace", "ObjectsTrace", "ObjectsTrace", "objects.trace")


def C14(c):
    c.tlc("Walk", "Walk_quick")
    c.tlc("Damage", "Damage_" + c.tier, emit="damage.ndjson")
    n = c.report("damage", "damage", "damage.ndjson", "@out", "damage.trace", 150 if c.thorough else 5)
    c.need(c.violations or n["damaged volumes"] > 10000 and n["errors"] > 0 and n["found"] > 0, "nothing damaged")
    m = c.report("damage-sweep", "damage-sweep", "@out", "sweep.trace", 120000 if c.thorough else 15000)
    c.need(c.violations or m["damaged volumes"] > 10000 and m["errors"] > 0 and m["found"] > 0, "nothing damaged")
    c.traces += n.get("damaged volumes", 0) + m.get("damaged volumes", 0)
    for name in ("damage", "sweep"):
        if n and m:
            c.validate(name + "-trace", "WalkTrace", "WalkTrace", name + ".trace")
    c.tlc("IndexGraph", "IndexGraph_" + c.tier, emit="graphs.ndjson")
    n = c.report("graph", "graph", "graphs.ndjson", "@out")
    c.traces += n.get("indexes", 0)
    c.need(c.violations or n["indexes"] > n["indexes that are no trees"] > 0, "one-sided")


def C15(c):
    c.tlc("Objects", "Objects_contract_" + c.tier)
    objects(c, "Objects_share_" + c.tier, 1, 16 if c.thorough else 1)
    objects_sim(c, "share")


def C16(c):
    c.tlc("Objects", "Objects_contract_" + c.tier)
    objects(c, "Objects_fault_" + c.tier, 7, 16 if c.thorough else 1)
    objects_sim(c, "fault")
    n = c.report("fault-sweep", "objects-sweep", "sweep.trace", "@out", 3 if c.thorough else 1)
    c.need(c.violations or n["errors"] > 0, "no fault")
    c.validate("fault-sweep-trace", "ObjectsTrace", "ObjectsTrace", "sweep.trace")


def C17(c):
    c.tlc("Layout", "Layout_" + c.tier, emit="layout.ndjson")
    n = c.report("layout-replay", "layout", "layout.ndjson", "@out")
    c.traces += n.get("structures", 0)
    c.need(c.violations or n["decoded"] > 0 and n["rejected"] > 0, "one-sided")
    c.report("layout-record", "layout-record", "layout.trace", "@out", 3000 if c.thorough else 400)
    c.validate("layout-trace", "LayoutTrace", "LayoutTrace", "layout.trace")


def C18(c):
    c.tlc("Position", "Position_" + c.tier, emit="positions.ndjson")
    n = c.report("positions", "positions", "positions.ndjson", "@out", 1)
    c.traces += n.get("layouts", 0)
    c.need(c.violations or n["positions"] > 0 and n["split_allocations"] > 0 and n["list_entries"] > 0, "no position")
    c.need(c.violations or n.get("not_reached", 0) * 2 < n["layouts"], "most volumes could not be walked")
    for cfg in ("Stream_res", "Stream_nr_quick", "Stream_list_quick"):
        c.tlc("Stream", cfg, emit=cfg + ".ndjson")
        n = c.report(cfg, "stream-places", cfg + ".ndjson", "@out", 2 if c.thorough else 1)
        c.traces += n.get("walks", 0)
        c.need(n.get("steps", 0) > 0 or c.violations, "no step replayed")
    for kind in ("nr", "list"):
        stream_sim(c, kind, "stream-sim-places")


def C19(c):
    c.tlc("MCTime", "Time_" + c.tier, emit="time.ndjson")
    n = c.report("time-replay", "time", "time.ndjson", "@out")
    c.traces += n.get("moments", 0)
    c.need(c.violations or n["no_timestamp"] > 0 and n["to_date"] > 0, "one-sided")
    c.report("time-record", "time-record", "time.trace", "@out", 4000 if c.thorough else 300)
    c.validate("time-trace", "TimeTrace", "TimeTrace", "time.trace")


def C20(c):
    c.tlc("Contain", "Contain_" + c.tier, emit="contain.ndjson")
    n = c.report("contain-replay", "contain", "contain.ndjson", "@out")
    c.traces += n.get("walks", 0)
    c.need(c.violations or n["refused"] > 0 and all(n["of_" + p] > 0 for p in ["record", "attr", "nr", "list", "root", "node", "entry", "value"]), "a part is missing")


def C21(c):
    c.tlc("SectorReader", "SectorReader_repaired")
    c.tlc("SectorReader", "SectorReader_" + c.tier, emit="sector.ndjson")
    n = c.report("sector-replay", "sector", "sector.ndjson", "@out")
    c.traces += n.get("histories", 0)
    c.need(c.violations or n["reads_right"] > 0, "no read")
    c.report("sector-record", "sector-record", "sector.trace", "@out", 2000 if c.thorough else 300)
    c.validate("sector-trace", "SectorReaderTrace", "SectorReaderTrace", "sector.trace")


CHECKS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
