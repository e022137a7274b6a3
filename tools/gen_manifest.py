"""Writes MANIFEST.json from the claimed checks and the properties that are not applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "Seeded search over codes, decoders, messages and flip lists; d from an independent enumeration.",
    "C02": "Seeded search; optimum from an independent enumeration. Finding F1 recorded.",
    "C03": "Seeded search over codes and flip lists below an independently computed minimum distance.",
    "C04": "Seeded search over batchings, layouts, reorderings and damaged neighbours; oracle is the block alone.",
    "C05": "Seeded search over cuts and multiplexings; oracle is an independent state recursion.",
    "C06": "Seeded search over chunkings and channel errors; oracle is an independent reference decoder.",
    "C07": "Seeded search over messages, codes and every kind of cut; oracle is the written message.",
    "C08": "Seeded search; oracle is brute-force enumeration. Floating point within 1e-6. Finding F1 recorded.",
    "C09": "Seeded search over operation histories; oracle is a fresh object in a fresh process.",
    "C10": "Seeded search over interleavings at line or bytecode granularity; oracle is the call alone.",
    "C11": "Seeded search over interruption instants, clocks and output failures; oracle is a fresh process.",
    "C12": "Seeded search over histories, generators, restarts and hash seeds; oracle is the undisturbed history.",
    "C13": "Scripted and seeded random bits; possibility is exact, rates by Chernoff bounds at 2e-13.",
    "C14": "Scripted and seeded random bits; possibility is exact, rates by Chernoff bounds at 2e-13.",
    "C15": "Seeded search over disturbances; nearest point and Bayes rule in exact rational arithmetic.",
    "C16": "Seeded search over whole links with a lossy network; oracle is the sent message.",
    "C17": "Seeded search over pulses, cuts, delays, losses, timing errors; oracle is an own superposition of waveforms.",
    "C18": "Seeded search over sequences, users, delays, flips, erasures; oracle is own sequences and correlators.",
    "C19": "Seeded search over encoders, streams and adversarial flips; oracle is an own trellis and shortest detour.",
    "C20": "Seeded search over codes, question orders and adversarial flips; oracle is an own span and syndrome search.",
    "C21": "Seeded search over word sets, statistics, segments and cuts; oracle is an own exact parser and optimiser.",
    "C22": "Seeded search over chains, steered histories and questions; oracle is own graph search and exact algebra.",
    "C23": "Seeded search over constellations, priors, labelings and pushes; oracle is the documented points.",
    "C24": "Seeded search over densities, quantisers and rivals; oracle is exact piecewise integration.",
}
TECH = "deterministic simulation with fault injection: "
TECHS = {
    "C01": "seeded channel flips within the radius, minimised replayable plans",
    "C02": "seeded channel damage beyond the radius against an enumerated codebook",
    "C03": "seeded channel flips below the minimum distance",
    "C04": "seeded transport (batching, reordering, duplication, damage to neighbours)",
    "C05": "seeded segmentation and multiplexing of streams",
    "C06": "seeded chunking and channel errors on streams",
    "C07": "seeded storage with torn writes",
    "C08": "seeded noise, erasures and impossible observations against exhaustive inference",
    "C09": "seeded operation histories with failing calls, object replacement and garbage collection",
    "C10": "seeded scheduler deciding every interleaving of real threads inside the library",
    "C11": "interrupts and allocation failures at seeded bytecodes, simulated clock and output stream",
    "C12": "seeded histories over simulator-owned generators, process restarts and hash seeds",
    "C13": "scripted random bits and long seeded transmissions",
    "C14": "scripted random bits and long seeded simulations",
    "C15": "seeded analogue disturbances and batching",
    "C16": "whole link in one process over a simulated lossy network, seeded faults, bounded liveness",
    "C17": "simulated waveform medium: seeded cuts, delivery order, loss, delay, timing error, bounded noise",
    "C18": "simulated chip medium: seeded flips, erasures, multipath, superposed users, late joins",
    "C19": "adversarial channel on segmented streams, flips within half the free distance or along a least detour",
    "C20": "adversarial channel: codewords, deepest holes, coset leaders and random flips between questions",
    "C21": "simulated store: segmented writes, cuts, ambiguous-stream and better-code adversaries",
    "C22": "scripted random bits that steer histories (early returns, escapes, avoided absorption, cuts) between questions",
    "C23": "balanced streams in seeded pieces and an adversary pushing symbols towards their neighbours",
    "C24": "balanced streams in seeded pieces and an adversary proposing neighbouring quantisers",
}
EXTRA = os.path.join(HERE, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    with open(EXTRA) as f:
        e = json.load(f)
    NOTE.update(e["note"])
    TECHS.update(e["tech"])
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(x) for x in f]
claimed = [p["id"] for p in props if p["id"] in TECHS]
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sim check.py >/dev/null 2>&1 || true",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": TECH + TECHS[i],
        "level": "exploration",
        "level_note": NOTE[i] + " Assurance is that of the seeds explored, not of all inputs.",
    } for i in claimed],
    "not_applicable": [{
        "property": p["id"],
        "reason": ("A pure function of its arguments: no schedule, clock, fault, interleaving, history or damage can "
                   "change the outcome, so simulation would only be input sampling under another name.")
        if p["id"].startswith("P") else "Check still being built.",
    } for p in props if p["id"] not in claimed],
    "notes": "See DESIGN.md. known_findings.json lists recorded findings and repaired defects.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
