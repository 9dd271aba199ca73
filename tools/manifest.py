"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ("trusts the reference semantics (vlib/model.py), written from the"
         " documentation and bounded by a step budget; ")
T = {
 "C01": ("differential runtime monitor: real parses against an executable reference semantics",
         MODEL + "sampled grammars and inputs, small grammars on all inputs up to length 3"),
 "C02": ("differential runtime monitor of every reported error against the reference semantics",
         MODEL + "sampled grammars and inputs"),
 "C03": ("metamorphic runtime monitor: plain against recovering run of the same parser",
         "no model of parsing needed; sampled grammars, inputs and limits"),
 "C04": ("metamorphic runtime monitor: both unwraps and the plain run of the same parser",
         "first-error clause for attempt-free grammars; sampled grammars, inputs and limits"),
 "C05": ("offline repair-log checker: repairs applied as edits, edited input parsed again",
         "trusts the FIRST/FOLLOW analysis that selects grammars in scope (vlib/ll1.py)"),
 "C06": ("online monitor of consecutive insertions in repair reports, exact-limit workload",
         "sampled grammars and limits 0..8; exactness on fixed-token grammars"),
 "C07": ("runtime assertions on recovery outcome and replacement-call log",
         "sampled grammars and inputs per clause"),
 "C08": ("differential runtime monitor of complete recovery reports against an enumerating reference",
         MODEL + "candidates are enumerated in full for each sampled case"),
 "C09": ("location monitor: reported locations against counting in the text, call-protocol checker on get_loc",
         "sampled texts and grammars; offsets themselves judged by C02 and C08"),
 "C10": ("token-log checker against a reference cut of the source, logical step limit for termination",
         "sampled sources and specifications"),
 "C11": ("differential runtime monitor over token streams with true source locations",
         MODEL + "sampled token grammars and sources"),
 "C12": ("differential runtime monitor of column decisions, mark-restoration probes",
         MODEL + "sampled layout grammars over strings and tokens"),
 "C13": ("history checker plus deterministic byte-code scheduler over real threads, interrupts injected at executed lines, re-entrancy, aliasing and retention probes",
         "interleavings sampled at byte-code granularity under the GIL; outcomes compared with a never-used parser"),
 "C14": ("runtime comparison with values built from the input, with alias forms and with expansions",
         "sampled lengths up to 400 (thorough 3000), sampled grammars"),
 "C15": ("logical step, predicate-call and stack-depth counters (sys.monitoring) on growing inputs; step limit for termination",
         "work inside one C call is not counted; growth judged on n, 2n, 4n"),
 "C16": ("metamorphic runtime monitor: declarations against inlined and unfolded grammars, definition histories",
         "sampled grammars and histories; left recursion excluded"),
 "C17": ("runtime law monitor on results, message texts against a reference printer",
         "sampled results and hand-made error items"),
 "C18": ("user-call log checker against the reference semantics, exception injected at each user call",
         MODEL + "at most six injection points per run, sampled from all"),
 "C19": ("metamorphic runtime monitor over stream kinds; instrumented element objects",
         MODEL + "sampled grammars, stream and element classes"),
 "C20": ("metamorphic runtime monitor: both sides of each law run side by side in random contexts",
         "needs no model of the outcome; sampled sub-parsers, contexts, inputs"),
 "C21": ("online monitor of element accesses by a logging sequence; metamorphic runs with hidden, dropped and replaced rests",
         "grammars without regular expressions; sampled grammars and inputs"),
 "C22": ("metamorphic runtime monitor: the same parser and input under several insertion limits",
         "needs no model of the outcome; sampled grammars, inputs and limits"),
 "C23": ("metamorphic runtime monitor: values exchanged for recording objects and hostile values; calls of user functions logged",
         "needs no model of the outcome; sampled grammars, inputs and values"),
 "C24": ("runtime monitor: audit hook, output and warning recorders, snapshots of global state; child interpreters under other settings",
         "effects outside the watched state would go unseen; sampled grammars and inputs"),
 "C25": ("runtime monitor: reported errors and tokens compared with their copies, deep copies and pickles",
         "sampled errors and tokens"),
 "C26": ("metamorphic runtime monitor: the same parser at the start and behind prefixes of up to 300000 elements",
         "needs no model of the outcome; sampled grammars, inputs, prefixes and limits"),
}


def main():
    checks = []
    for k, (tech, note) in sorted(T.items()):
        checks.append({
            "property": k,
            "quick_cmd": "./check {} quick".format(k),
            "thorough_cmd": "./check {} thorough".format(k),
            "technique": tech,
            "level": "fault_enumeration" if k == "C18" else "exploration",
            "level_note": note,
        })
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "./check --selftest",
            "checks": checks,
            "not_applicable": [],
            "notes": "No hooks in /repo: everything judged is observable"
                     " through the public API or through sys.monitoring.",
        }, f, indent=1)
        f.write("\n")


main()
