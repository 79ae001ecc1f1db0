"""Per-property bounds, assumptions and exploration settings."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def _h(prop, tier):
    p = prop.lower() + '_'
    def f(mod):
        return sorted(n for n in mod.fdefs if n.startswith(p) and (tier == 'thorough' or not n.endswith('_deep')))
    return f
# exploration settings
CFG = {
 "C42": dict(maxsteps=20_000_000),
 "C10": dict(maxsteps=20_000_000),
 "C18": dict(maxsteps=20_000_000),
 "C33": dict(maxsteps=20_000_000),
 "C36": dict(maxsteps=20_000_000),
 "C41": dict(maxsteps=20_000_000),
 "C20": dict(maxsteps=20_000_000),
 "C21": dict(maxsteps=20_000_000),
}
# what the thorough tier adds to the bounds of the property
DEEP = {
 "C07": "sample counts up to the f64 limit of exact nanoseconds",
 "C10": "mono files up to 12 frames, up to 8 channels of up to 5 frames",
 "C12": "up to 8 channels and 5 frames",
 "C13": "sources of up to 8 bytes, 5 reads with buffers of up to 9",
 "C14": "eight frequencies in turn (square: six)",
 "C15": "14 (sawtooth), 12 (triangle, square) and 8 (sine) samples",
 "C16": "eight (sawtooth) and five (triangle) frequencies in turn",
 "C18": "six speeds in turn on six samples, every rate for six samples",
 "C19": "three speeds in [0,2]",
 "C22": "every list of up to three zeros and poles with delays 0 to 3",
 "C24": "two setter calls",
 "C25": "12 samples; every pair of cutoff and resonance on a recorded impulse",
 "C26": "10 samples",
 "C27": "five samples, four frequencies each",
 "C29": "four steps",
 "C30": "five modifiers, three samples, gains changed twice",
 "C31": "six operations",
 "C32": "every graph over three inner blocks, three changes",
 "C33": "three calls with up to two changes between them",
 "C34": "files of 41 to 90 bytes",
 "C39": "16 samples",
 "C40": "six samples",
 "C41": "up to 20 frames, mixes of 12 frames",
 "C42": "every chain of three modifiers, four samples",
 "C44": "300 further samples",
}
# what lies outside the bounds
OUT = {
 "C04": ["vectors longer than 4 entries are outside"],
 "C06": ["intervals narrower than 1/64 are outside: the slope's rounding error grows without limit"],
 "C08": ["levels and gains outside the 20 dB classes listed are outside; powf and log10 obey the stated error bounds"],
 "C09": ["variation of at least 1/64 for the scaled case: below it the rounding of the mean dominates"],
 "C12": ["a channel count of 0, fmt chunks shorter than 16 bytes and 16/24-bit data chunks of odd length are outside: not well-formed PCM", "chunks between fmt and data: known finding C12-chunk-before-data"],
 "C15": ["a sample within a rounding error of a jump may lie on either side of it"],
 "C18": ["the last source sample's slot ends within 1e-9 of its nominal position"],
 "C19": ["rate times speed beyond the finite range is outside"],
 "C23": ["a NaN sustain level is outside", "with an attack of zero samples the first sample is already at full level"],
 "C24": ["NaN settings are outside"],
 "C25": ["tolerances grow with the coefficients' conditioning, from 1e-5 (recorded settings) to 0.3 (every pair of settings on an impulse)", "stability for all time is a statement about the poles and not encoded"],
 "C26": ["equal corners and corners above half the sampling rate are outside"],
 "C27": ["the recursion's tolerance is that of single-precision state"],
 "C30": ["blocks shared with another handle or a live clone: known finding C30-cloned"],
 "C31": ["one thread"],
 "C32": ["sounds with a live clone: known finding C32-cloned", "graphs with cycles: processed once, no claim about values"],
 "C33": ["sounds with a handle held elsewhere: known finding C33-held", "process times are truncated to whole samples"],
 "C34": ["the tool's main loop is encoded from its source with the file system replaced by the byte list"],
 "C35": ["the words in the thread-local source's buffer are replaced by arbitrary ones (over-approximates every seed)"],
 "C39": ["white noise is excluded; channels mix at most two sounds, where the order of the sum does not matter"],
 "C40": ["components with unbounded memory (filters with feedback, echo, envelope follower) may keep a NaN for ever"],
 "C41": ["16-bit files at 48 kHz; rates are C36's, sample sizes C10's"],
 "C43": ["durations are ordinary (a delay of years needs its memory); what an oscillator yields outside (0,24000] Hz is not claimed"],
 "C44": ["allocation as requested from the allocator is counted, not what the system holds; malformed files are outside (the parser panics)"],
 "C42": ["tolerance 1e-5: the two kinds of sound may round differently"],
}
BASE = ["one thread; allocation never fails; hash maps iterate in the order of the engine's fixed random keys"]
def _q():
    r = {}
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l); r[d['id']] = d['quantifier']['text']
    return r
def get(prop, tier):
    c = dict(CFG.get(prop, {}))
    if tier == 'thorough': c.update(c.pop('thorough', {}))
    c.setdefault('harnesses', _h(prop, tier))
    b = [_q().get(prop, '')]
    if tier == 'thorough' and prop in DEEP: b.append('in addition: ' + DEEP[prop])
    c.setdefault('bounds', b)
    c.setdefault('assumptions', BASE + OUT.get(prop, []))
    return c
