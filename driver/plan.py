"""Which simulations decide which property: a list of (kind, variant) workers per property."""


def lang(*variants):
    return [("lang", v) for v in variants]


# "fast" is "std" without the sanitizer: several times the runs, and only what can be observed is judged.
PLAN = {
    "P01": lang("fast", "fast", "fast", "std", "std", "noopt", "pool", "inf"),
    "P02": lang("fast", "fast", "fast", "std", "std", "std", "noopt", "pool"),
    "P03": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P04": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P05": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P06": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P07": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P08": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P09": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P10": [("inter", "fast"), ("inter", "fast"), ("inter", "std"), ("inter", "std"), ("inter", "noopt"), ("inter", "inf"), ("inter", "pool"), ("inter", "pool")],
    "P11": [("pool", "pool"), ("pool", "pool"), ("pool", "pool"), ("pool", "pool"), ("pool", "pool"), ("pool", "poolinf"), ("lang", "pool"), ("lang", "pool")],
    "P12": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P13": [("twin", "fast"), ("twin", "noopt"), ("twin", "inf"), ("twin", "pool"), ("twin", "datalog"), ("lang", "noopt"), ("lang", "fast"), ("lang", "datalog")],
    "P14": lang("fast", "fast", "fast", "std", "std", "noopt", "inf", "pool"),
    "P15": [("api", "fast"), ("api", "fast"), ("api", "fast"), ("api", "std"), ("api", "std"), ("api", "noopt"), ("api", "pool"), ("api", "pool")],
    "P16": [("sym", "fast"), ("sym", "fast"), ("sym", "fast"), ("sym", "std"), ("sym", "std"), ("sym", "inf"), ("sym", "inf"), ("sym", "pool")],
    "P17": [("cont", "fast"), ("cont", "fast"), ("cont", "std"), ("cont", "std"), ("cont", "std"), ("cont", "pool"), ("cont", "pool"), ("cont", "poolinf")],
    "P18": [("mal", "fast"), ("mal", "fast"), ("mal", "std"), ("mal", "std"), ("mal", "noopt"), ("mal", "inf"), ("mal", "inf"), ("mal", "pool")],
}
RULES = {
    "lang": "lang: a seed makes a history of 2-12 operations (compile, execute, host call, collection, soft reset, new VM, teardown, restart) over generated "
            "programs, together with a schedule (collector, instruction clock, memory contents, heap sizes) and a fault plan; every result, callback event "
            "and host-visible state is compared with the reference interpreter. Non-trivial: at least two operations and two callback events; distinct: by "
            "the digest of the whole recorded history.",
    "inter": "inter: a seed makes two to four installations (compiler and VM each) with a history of their own and a schedule that switches between them at "
             "instructions, requests, releases, collections and callbacks; each has to record what it records alone. Non-trivial: at least one switch inside an "
             "operation; distinct: by the digest of all histories.",
    "pool": "pool: a seed makes a pool of seeded size and fit and a history of requests, resizes, releases and deliberate misuse; contents, bounds, alignment, "
            "reuse and the pool's own accounting are compared with a shadow. Distinct: by the digest of the history.",
    "twin": "twin: one history of loads is given to compilers that differ in heap sizes, memory contents, collection schedule, earlier instances and neighbours; "
            "every bytecode and verdict has to be the same. Distinct: by the digest of the history.",
    "cont": "cont: a seed makes arrays, tries and texts with seeded growth strategies and a history of operations, some with failing requests; after each the "
            "structure is compared with a plain sequence, map or text. Distinct: by the digest of the history.",
    "api": "api: a seed makes a history of 5-90 host operations on the stack of a VM (valid and invalid ones, some with failing requests) between loads, "
           "executions, calls and soft resets of generated scripts; what every operation tells the host, the whole stack and all globals are compared with a "
           "sequence of model values after each one. Distinct: by the digest of the history.",
    "sym": "sym: a seed makes a history of names made by the host, by loads (good, broken and interrupted by failing requests), by interning and by generating; "
           "after each operation the whole table, its neighbourhood (prefixes, extensions, altered bytes), the globals and what scripts say about their names "
           "are compared with a plain map. Distinct: by the digest of the history.",
    "mal": "mal: a seed makes good sources and mutilated ones with a fault plan; a twin compiler never sees the rejected ones, and every later load and execution "
           "has to agree. Distinct: by the digest of the history.",
}
REAL = ["duckLisp.c, generators.c, emitters.c, assembler.c, parser.c, parenthesis-inferrer.c (in the inf variants)", "duckVM.c",
        "DuckLib array, string, trie, sort, core", "DuckLib/memory.c (in the pool variants; in the others its standard-library version)"]
STUBS = ["malloc/realloc/free (ledger, fault plan, fills)", "host callbacks", "host program", "clock: the instruction counter"]
ASSUMPTIONS = ["the reference interpreter in /verif/sim/model.cpp states the language", "AddressSanitizer reports every bad access to a poisoned or foreign byte",
               "no more than the generated program shapes is covered"]


def seconds(prop, tier):
    return 600.0 if tier == "thorough" else 35.0


TECHNIQUE = {"*": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, refinement against an executable reference model"}
NOTES = {
    "*": "Seeded exploration, not a proof: every run is an exactly repeatable simulation of the real compiler and VM whose collector, allocator, memory contents, "
         "instruction clock and host are decided by the seed; outcomes are compared with a reference interpreter and AddressSanitizer plus an allocation ledger "
         "watch every access. Trusted: the reference interpreter, the simulator's seams and the generators' coverage of the language.",
}
NOT_APPLICABLE = {
    "P19": "Values of literals and arithmetic are pure functions of their input: no schedule, time, I/O, fault or history takes part, so simulating schedules and faults decides nothing about them.",
    "P20": "Parenthesis inference is a pure function from text to text; no schedule, fault or history takes part in what it should return.",
    "P21": "Rendering a value or bytecode as text is a pure function of that value; no schedule, fault or history takes part.",
}
