#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the checks; everything else is not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded-exhaustive enumeration of inputs and memory layouts on the real code against an independent reference"
HIST = "exhaustive exploration of call histories (all compositions and operation sequences up to a depth) on the real code against a whole-stream reference model"
C = {
 "C01": ("exploration", ENUM, "All 8/16-bit inputs, every length/alignment/capacity/position within bounds, all dispatch paths; reference is scalar arithmetic."),
 "C02": ("exploration", "exhaustive enumeration of slice geometries on guard pages and canaries", "Every (in, out) length pair, alignment and placement within bounds for every routine; faults are caught in a supervised child."),
 "C03": ("exploration", ENUM, "Boundary-complete sample alphabet at every position and length, position independence checked bit for bit."),
 "C04": ("exploration", ENUM, "Every length triple, alignment and aliasing within bounds, complete alphabet tuples."),
 "C05": ("exploration", ENUM, "Extreme at every position of every length and alignment; all short sequences over an alphabet."),
 "C06": ("exploration", ENUM, "Direction grid times magnitude grid plus complete integer squares; the error bound is checked at every point, not proved between them."),
 "C07": ("model_checking", HIST, "All sequences over the sample alphabet in all compositions, plus all compositions of longer streams."),
 "C08": ("model_checking", HIST, "All compositions of a stream for all factors/ratios up to 12, long streams in all equal chunk sizes."),
 "C09": ("exploration", ENUM, "All four-sample blocks over an alphabet, all lengths and placements."),
 "C10": ("model_checking", HIST, "All operation sequences over two instances sharing the caller's coefficients, all compositions, all small coefficient vectors."),
 "C11": ("exploration", ENUM, "Grid of rates, frequencies, Q/slope and gains; coefficients compared with the bilinear transform of the documented prototype, so the whole response is decided per design."),
 "C12": ("model_checking", HIST, "All operation sequences (feed/read/reset) and compositions, every bin of every block length in range."),
 "C13": ("model_checking", HIST, "Every bin of every length in range and window, all short input sequences; windowed DFT recomputed after every sample."),
 "C14": ("exploration", ENUM, "Every length up to the bound and every element of each window."),
 "C15": ("exploration", ENUM, "Complete position grids incl. neighbours of every integer, all impulse positions and short sequences, extreme positions."),
 "C16": ("model_checking", HIST, "All keys, phase grid, amplitudes; all histories of block kinds; custom tone sets."),
 "C17": ("model_checking", "exhaustive exploration of bit-stream token sequences, noise strings and channel errors on the real decoder, every bit's result against a whole-stream reference deframer", "All token sequences up to a depth, all noise strings up to a length, all single/double channel errors of an exchange, all lengths."),
 "C18": ("model_checking", "exhaustive enumeration of error patterns through the real decoder", "All 1-3 bit errors and bursts up to 16 bits at all positions of short frames, strided on long ones."),
 "C19": ("model_checking", "exhaustive enumeration of header field values through the real decoder against a reference parser", "Every value of every field (pairs of octets where they interact)."),
 "C20": ("model_checking", HIST, "All frame sequences up to a depth with snapshots and caller scribbling; two decoders under all switching periods and offsets."),
 "C21": ("model_checking", HIST, "All sequences of datagram lengths and socket errors up to a depth, with all small caller buffer patterns and both header modes, on the real reader."),
 "C22": ("model_checking", "exhaustive enumeration of server answers (all word sequences, truncations, read splits, octet replacements) through the real client against a reference reading of the protocol", "Every call with every answer of up to four words over an alphabet of meaningful and broken words."),
 "C23": ("model_checking", "exhaustive exploration of operation/answer/failure histories of the real client against a state model", "All sequences of calls up to a depth with every server behaviour at each, then Close with every behaviour."),
 "C24": ("model_checking", 'stateless model checking of the real server: controlled scheduler, every set of up to a bound of deviations from three default schedulers, simulated network and devices', "All request sequences up to a depth, all races of the stream's end with requests and disconnects at operations, at statements and under the race detector, device failures; every answer judged by a sequential model, then new clients must find the server usable."),
 "C25": ("model_checking", 'stateless model checking of the real server: controlled scheduler, every set of up to a bound of deviations from three default schedulers, simulated network and devices', 'Two and three clients with one to three devices, every way of leaving, failing devices; the device layer reports every second owner, every use after release and every device kept.'),
 "C26": ("model_checking", 'stateless model checking of the real server: controlled scheduler, every set of up to a bound of deviations from three default schedulers, simulated network and devices', 'All buffer sizes, sequences of buffers, sequence numbers through wrap-around, restarts, stops at every scheduling point, simultaneous streams.'),
 "C27": ("model_checking", 'stateless model checking of the real server: controlled scheduler, every set of up to a bound of deviations from three default schedulers, simulated network and devices', 'The real client against the real server: all sequences of calls to a depth, refusing devices, other clients, samples through the packet reader.'),
 "C28": ("exploration", "exhaustive enumeration of build targets and exported functions, and re-execution of the exhaustive checks C01-C20 on the other architectures' implementations: natively (386, amd64) and as linked machine code on an interpreter (arm, arm64)", "Every target's link of every exported function; 386 (pure Go and its assembly) runs the same exhaustive checks natively; the assembly routines of arm and arm64 run them (C01-C09) on an instruction-level model of the processor, on the real slices, guard pages and canaries. Windows is linked only."),
 "C29": ("model_checking", "stateless model checking of the real libraries: controlled scheduler at every statement, all schedules up to a bound of deviations from four default schedulers, every merge of two users' calls and every pair history, compared bit by bit with a fresh process", "About 100 user programs over every exported type and function: all ordered pairs as histories, all merges of the calls of same-kind pairs, schedules at every statement, and the race detector."),
 "C30": ("model_checking", "exhaustive exploration of how the tool's input arrives (all compositions and cut positions of the byte stream through a real pipe) on the real program against a whole-stream reference", "The real tool binary; every way its reads can be cut is enforced through a pipe."),
 "C31": ("exploration", "exhaustive enumeration of CPUID answers and capability bits through the real feature detection", "All feature bit combinations of an emulated CPUID on amd64 and 386, and the real processor; the detection code of eight other targets with simulated capability registers; ARM path selection from processor descriptions."),
 "C33": ("model_checking", "exhaustive exploration of what the sound card delivers (keys, pairs of keys, holds, distances) and of when the user interrupts or an operation fails, on the real program against a simulated sound card", "The real tool binary; os/signal and the sound library are simulations, so the interrupt comes at a chosen block."),
 "C32": ("model_checking", "exhaustive exploration of what a recording contains (all sequences of frames, damage, breaks to a depth) and of how it arrives (cut positions, ends) on the real program against the known contents", "The libraries in a repaired copy of the example receiver (the one in the tree does not compile: a known finding) on synthesised recordings; reads are enforced through a pipe."),
}
NA = {}
EXTRA = os.path.join(V, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    e = json.load(open(EXTRA))
    C.update({k: tuple(v) for k, v in e.get("claimed", {}).items()})
    NA.update(e.get("not_applicable", {}))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                 "technique": C[i][1], "level": C[i][0], "level_note": C[i][2]} for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in C]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
