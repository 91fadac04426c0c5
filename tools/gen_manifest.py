#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
T = "property-based testing (proptest generators with shrinking, and coverage-guided mutation of the generators' input) against "
N = {
 "C01": ("an own strict T.81 parser and entropy decoder", "Every generated stream is parsed completely: marker order and lengths, table validity, code completeness, exact bit consumption, padding, restart sequence, spectral selection coverage."),
 "C02": ("a floating point DCT and quantization model", "Every coefficient of every block is compared with a double precision DCT of the (edge-extended, decimated) samples within a bound on the integer DCT's error."),
 "C03": ("a metamorphic relation between coding modes", "The coefficients decoded from baseline, sequential, optimized, progressive and restart variants of one picture are compared exactly."),
 "C04": ("a model of which calls must be refused", "Every operation sequence within the documented domain must succeed without panic in builds with all assertions and overflow checks."),
 "C05": ("the documented limits", "Exact limit values, wrong lengths and zero sizes, on 64 bit natively and on 32 bit (i686)."),
 "C06": ("a differential oracle between builds", "Byte equality between scalar and AVX2, std and no_std, checked and unchecked, i686 and s390x (interpreted) builds, and a simd build whose feature detection is told to miss AVX2. AVX2 is only exercised when the machine has it; the evidence says so."),
 "C07": ("AddressSanitizer, ThreadSanitizer, guard pages, Miri and fresh-memory differencing", "Inputs end at inaccessible pages in sanitized builds of both implementations; small cases run under Miri; a difference between two fillings of fresh memory reveals uninitialised reads. Concurrent encodes run under ThreadSanitizer and Miri."),
 "C08": ("the JFIF equations and all 2^24 colours", "The public conversion is compared with the equations for all 2^24 colours; the conversion used inside the encoder is compared with the public one through coefficients."),
 "C09": ("a differential oracle between image sources", "The same pixels through encode and through user image sources with different buffer behaviour must give the same bytes; row queries are logged and checked."),
 "C10": ("a model of the segment list", "Metadata segments read back from the stream are compared with the calls made, in order and content, including ICC reassembly at every chunk boundary."),
 "C11": ("enumerated write faults", "For generated cases a fault is injected at every write call (sampled positions for long ones) and the error, the prefix and the silence after the error are checked."),
 "C12": ("a reference writer", "Output through buffered, short-writing, interrupted, borrowed and boxed writers and files is compared with the plain vector; flush failures and full devices must be reported."),
 "C13": ("an own parser and a metamorphic relation", "Restart markers are counted, numbered and positioned, and the picture must be the same as without restarts."),
 "C14": ("published tables and the IJG scaling rule", "All presets at all 256 quality values exhaustively, custom tables at random."),
 "C15": ("an own parser and an optimality model", "Tables read back from the stream must be valid, complete for the symbols used, no larger than the default ones; extremely skewed distributions are generated by a Fibonacci pattern."),
 "C16": ("a state model (model-based call histories)", "Getter values after arbitrary call histories are compared with a model, and the stream header with the getters."),
 "C17": ("metamorphic relations on pixels", "Changing pixels changes only blocks that contain them; shifting by whole units shifts the coefficients; padding equals replicated edges."),
 "C18": ("an own parser", "All 63 scan counts x modes exhaustively, plus random pictures: scan script complete, disjoint, in order."),
 "C19": ("repetition in one process, across processes and threads", "The same request gives the same bytes after arbitrary other requests, in other processes and concurrently on eight threads, also under ThreadSanitizer. Interleavings are sampled, not controlled; the race detector judges happens-before and not the schedule."),
 "C20": ("libjpeg-turbo and jpeg-decoder as differential oracles", "Every pixel decoded by independent decoders is compared with the source."),
 "C21": ("a model of decimation", "All factor pairs, aliases and declared factors, and the relation between pixels and subsampled coefficients."),
 "C23": ("a model of the refused values", "Error values with arbitrary contents and errors of real calls: text, kind and source are compared with what was put in."),
 "C22": ("an accounting allocator", "Three builds whose global allocator counts bytes and blocks; the difference before and after each encode must be zero and the peak below a bound from the size. The bounds are several times what the current code needs."),
}
checks = []
for p in props:
    i = p["id"]
    how, note = N[i]
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": T + how,
        "level": "fault_enumeration" if i == "C11" else "exploration",
        "level_note": note + " Bounded by the generated cases counted in the evidence file; trusts the harness's own models.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py all",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the checks use only the public interface of the crate. KNOWN_FINDINGS.txt lists the repaired defects; ./replay.sh FILE re-runs a recorded case.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
