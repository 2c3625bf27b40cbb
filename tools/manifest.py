#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("complete sweeps and random (locale, numeral, carrier) cases against an independent UTS #35 evaluator over frozen CLDR 37 data",
  "Every cardinal locale: all integers below 1.1 million (thorough: 12 million), a full fraction grid, every CLDR sample, numbers around every rule constant up to 2^64 and doubles next to them, and random numerals (some hundreds of digits long) through 20 carriers and both signs. Trusts the harness's evaluator (cross-checked against every CLDR sample) and the frozen data. Listed generator defects are modelled relation by relation."),
"C02": ("complete sweeps and random (locale, numeral, carrier) cases against an independent UTS #35 evaluator over frozen CLDR 37 data",
  "As C01 for ordinal rules."),
"C03": ("random and swept decimal text against an exact digit-string model of the operands",
  "All numerals below 1000 with up to three fraction digits, and random ones up to 45 fraction digits, beyond 64 bits, and with up to 65,000 zeros; exact equality of all six operands."),
"C04": ("exhaustive 8/16-bit and boundary-weighted random integers against exact arithmetic",
  "Every value of -70000..70000 in every type that holds it; the rest of each type is sampled at powers of two and ten (thorough: all 32-bit values)."),
"C05": ("random bit patterns, decimals and boundaries of f64/f32 against the shortest-decimal model",
  "Random floats over the whole range (thorough: every f32). Trusts the standard library's shortest scientific formatting."),
"C06": ("metamorphic: one number through every carrier and sign, all answers equal",
  "No oracle needed beyond equality; random numbers through 20 carriers and both signs; small integers and float neighbourhoods in all 309 locale and type pairs."),
"C07": ("grammar-based and mutational fuzzing of text and float input with an acceptance model",
  "All strings up to 5 characters (thorough: 6) over a number alphabet, random Unicode, edited numerals, all float classes. Input whose status the statement leaves open is only checked for panics and sign."),
"C08": ("enumeration of all 2-3 letter languages plus random identifiers against the CLDR locale set",
  "Complete over two- and three-letter languages without script or region, over these with each assigned region or ISO 15924 script, and over advertised languages with both or with each registered variant; random beyond."),
"C09": ("stateful random histories over object slots, and shared objects across threads, against answers of one-query processes",
  "Histories of up to 3000 steps over all locales, and bulk ones (90,000 queries, clones or live objects); reference answers come from processes that make one query each; schedules are those the OS gives eight threads, not enumerated."),
"C10": ("random ASTs printed with random layout, parsed back, compared structurally (round trip)",
  "Trusts the harness's printer, which is written from the UTS #35 grammar. All single-relation shapes, random trees, and trees up to megabyte texts."),
"C11": ("random rules with sample lists printed with random layout, parsed back, compared structurally (round trip)",
  "As C10; decimal sample values are compared up to the leading zeros the AST cannot hold."),
"C12": ("grammar-aware mutational fuzzing; accepted text must equal its own print-back up to layout",
  "Random strings, mutated rules and token soups; all single-character edits of twelve rules; all token sequences up to four (thorough: five) tokens; megabyte texts."),
"C13": ("differential: condition-only parse against full parse and print-back, on generated and mutated rules",
  "Same generators as C12."),
"C14": ("random CLDR rule sets through the real tool and rustc, the compiled rules run on random operands against the UTS #35 evaluator",
  "Thousands of random locales per run (120 per file), compiled and executed. Shapes with listed generator defects are held to the listed behaviour."),
"C15": ("random locale sets and types through the real tool and rustc, tables read back and compared",
  "Locale tags with script and region, tables of up to 1500 locales, shared rules, absent rule types, versions up to 2^64; tables are read from compiled code."),
"C16": ("metamorphic: the same data in random layouts gives byte-identical generated code",
  "Random data sets, file splits, member orders, white space, extra members; per-locale independence by adding and removing locales."),
"C17": ("random consistent and inconsistent inputs with injected faults against an acceptance model",
  "Each fault class (version, type, member, JSON syntax, locale text, 24 kinds of condition damage) injected at random places in otherwise valid random input."),
"C18": ("process-level runs of the tool with injected input faults and pre-existing outputs, file contents compared",
  "Faults are missing, unreadable, truncated, repeated and invalid inputs, unwritable outputs and a failing formatter; prior outputs of chosen relation to the new one. A crash in the middle of the final write is not injected."),
"C19": ("differential: rules regenerated from the repository data, compiled and compared with the shipped ones on swept and random operands",
  "Every locale and type, all small integers and a fraction grid, random operands beyond."),
}
BUILT = os.environ.get("BUILT", " ".join(T)).split()
NA = []
for i in T:
    if i not in BUILT:
        NA.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
   "technique": "property-based testing: " + T[i][0], "level": "exploration", "level_note": T[i][1]} for i in BUILT],
 "not_applicable": NA,
 "notes": "No hooks in /repo: every check uses public interfaces. Replay a finding with `bash replay.sh FILE`."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
