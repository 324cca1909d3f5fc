#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the entries stay uniform)."""
import json, os
HIST = "bounded exhaustive exploration of operation histories on the real code (stateless model checking)"
NOTES = {
 "C01": ("every cut set, call-size word and single cut within bounds, executed on the real fingerprinter, oracle: one-call execution", "Bit-exact on every enumerated history. Waveforms come from a fixed finite set; streams up to 230 000 frames."),
 "C02": ("explicit-state search over session histories executed on the real object, oracle: a fresh object", "Bit-exact on every enumerated chain of sessions; alphabet of rates, channels, feeds and endings is finite."),
 "C03": ("every stream length within bounds over a grid of configurations, oracle: the length formula", "Exhaustive for small configurations, boundary neighbourhoods for large ones."),
 "C04": ("all words over consume/finish/read, oracle: prefix order over all readings", "Bit-exact; words up to the stated depth."),
 "C05": ("every position of a perturbation within bounds, oracle: window arithmetic plus reference model for threshold ties", "Items within 2e-7 of a threshold are exempt (counted as undecided)."),
 "C06": ("all words over a block alphabet for every preset, oracle: independent reference pipeline", "Reference model is a naive re-implementation in Rust; items within 2e-7 of a threshold may differ in that classifier only."),
 "C07": ("every frame over a value alphabet, every single-channel position and every 16-bit value, oracle: mono stream of averages", "Bit-exact."),
 "C08": ("every sample rate and tail length within bounds, oracle: length law and bit distance to the native rate", "Similarity is judged on a finite set of melodies."),
 "C09": ("every rate/channel pair within bounds and every refused start at every point of a stream", "Exhaustive over rates 0..2000 and listed large rates."),
 "C10": ("every item gap pattern, length, ID and item value within bounds, oracle: independent encoder and decoder", "Byte-exact."),
 "C11": ("all pairs of short fingerprints and words of similarity blocks, oracle: invariants and exact score", "Exhaustive within the stated alphabets."),
 "C12": ("all pairs of short fingerprints and words of similarity blocks, oracle: nondeterministic reference matcher", "Where several alignments tie any of them is accepted; smoothing is modelled in double precision with a tie margin."),
 "C13": ("all pairs of the C12 families matched in both orders", "Only pairs with a unique best alignment are decided."),
 "C14": ("all pairs of lengths around the limit and far-end match positions", "Exhaustive over the listed lengths."),
 "C15": ("all configuration x offset x count combinations, oracle: formula", "Tolerance of single precision."),
 "C16": ("all option combinations and setter orders, oracle: reference pipeline", "Silence removal is a known finding (see known_findings.txt)."),
 "C17": ("all interleavings of two and three instances' operations on one thread and all schedules of two threads under a controlled scheduler, oracle: solo execution", "Operations are atomic steps of the scheduler: the library has no shared state or synchronisation inside an operation."),
 "C18": ("all chunk x length x packet size x limit x overlap combinations run through the real fpcalc, oracle: model of the chunk accounting", "Files are generated WAV, AIFF, CAF, FLAC, Matroska (FLAC) and MP3 (silence) files; lossy audio other than silence is not covered."),
 "C19": ("all option combinations and containers run through the real fpcalc, oracle: library fingerprint of the same samples", "As C18."),
 "C20": ("all limit x length x packet size combinations run through the real fpcalc, oracle: model of the limit", "As C18."),
 "C21": ("fault enumeration: truncations, header byte changes, data byte changes and non-audio files run through the real tools", "Panics inside the symphonia dependency at the listed call sites are known findings."),
 "C22": ("all listed pairs of files run through the real compare, oracle: library segments formatted by a model", "Relies on C11-C15 for the segments themselves."),
 "C24": ("all listed configuration x rate x channels x call size streams and session sequences under a counting allocator, oracle: least memory held in windows of doubling length does not grow", "Growth of less than a few hundred bytes per window is not noticed."),
 "C25": ("every interleaving of the packets of three tracks and every sequence of up to four tracks in Matroska files run through the real tools, oracle: library fingerprint of the first audio track's samples", "Matroska stands for all containers with several tracks."),
 "C26": ("schedules of a controlled sender (write sizes, pauses, early closing, waiting for each result) against the real tools on real pipes, oracle: model of the chunk accounting and the order of events", "Reads are forced to end at each write by waiting until the pipe is empty; writes above 4 KiB may be read in parts."),
    "C27": ("every sequence of valid and refused calls up to a depth, and every incomplete frame at critical buffer fill levels, oracle: the same stream without the refused calls", "Finite alphabets of call sizes and channel counts."),
 "C23": ("every cut position x gain x channels x rate x preset within bounds", "Recordings are synthetic melodies."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check.sh --setup",
 "hooks": {"guard": "none", "enable": "no hooks are needed: everything is reached through the public API and the command line", "source_commits": []},
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} --tier quick",
   "thorough_cmd": f"./check.sh {i} --tier thorough",
   "technique": HIST + ": " + NOTES[i][0],
   "level": "model_checking",
   "level_note": NOTES[i][1],
 } for i in ids],
 "not_applicable": [],
 "notes": "Replay a violation with ./check.sh <ID> --replay <path>. Known findings and fixed defects: known_findings.txt.",
}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
