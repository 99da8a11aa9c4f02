"""What is built and run for each property: builds, and cases per build and tier."""

BUILDS = {
    # As shipped: optimised, assertions off.
    "ship": {"flags": ["-O2", "-DNDEBUG"], "parser_flags": ["-O1"], "limit_as": True, "cpu_limit": 20},
    # Address and undefined-behaviour sanitizers, checked standard library, assertions on, block coverage.
    "asan": {"flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                       "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG", "-DVH_SANITIZED"],
             "lib_flags": ["-fsanitize-coverage=trace-pc"], "harness_flags": ["-DVH_EDGES"], "parser_flags": ["-g0"], "cpu_limit": 60},
    "memcheck": {"flags": ["-O1", "-g1", "-DVH_SANITIZED"], "parser_flags": ["-g0"], "cpu_limit": 300,
                 "wrap": ["valgrind", "-q", "--error-exitcode=95", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect", "--exit-on-first-error=no"]},
    # Counting the library's basic blocks.
    "count": {"flags": ["-O1", "-DNDEBUG"], "lib_flags": ["-fsanitize-coverage=trace-pc"], "harness_flags": ["-DVH_EDGES"], "parser_flags": ["-g0"], "cpu_limit": 30},
    "tsan": {"flags": ["-O1", "-g1", "-fsanitize=thread", "-DVH_SANITIZED"], "cpu_limit": 120},
}

COMPOSITIONAL = ("Every generated execution is decided, up to a rounding allowance scaled to the magnitudes involved; executions not generated are not. "
                 "Trusts the brute-force reference in harness/ref.hpp (about 250 lines, no library code) and the library's evaluation of the operands, which the other checks decide.")

GENERATED = ("Every generated execution is decided; executions not generated are not. "
             "Comparisons allow for rounding, scaled to the magnitudes involved. Trusts the oracle in harness/.")

CHECKS = {
    "C01": {"quick": {"ship": 300000, "asan": 10000}, "thorough": {"ship": 8000000, "asan": 300000},
            "technique": "online monitor: pointwise min/max oracle over the operands' recorded robustness, on generated traces; ASan+UBSan build", "note": COMPOSITIONAL},
    "C02": {"quick": {"ship": 500000, "asan": 12000}, "thorough": {"ship": 12000000, "asan": 300000},
            "technique": "online monitor: brute-force future sup/inf oracle over the operand's recorded robustness; ASan+UBSan build", "note": COMPOSITIONAL},
    "C03": {"quick": {"ship": 500000, "asan": 10000}, "thorough": {"ship": 10000000, "asan": 300000},
            "technique": "online monitor: brute-force window oracle over the operand's recorded robustness; ASan+UBSan build", "note": COMPOSITIONAL},
    "C04": {"quick": {"ship": 400000, "asan": 10000}, "thorough": {"ship": 8000000, "asan": 300000},
            "technique": "online monitor: brute-force until oracle over the operands' recorded robustness; ASan+UBSan build", "note": COMPOSITIONAL},
    "C05": {"quick": {"ship": 260000, "asan": 10000}, "thorough": {"ship": 10000000, "asan": 300000},
            "technique": "online monitor: sample-by-sample margin oracle; NaN watch on constants combined with formulas; ASan+UBSan build", "note": COMPOSITIONAL},
    "C06": {"quick": {"ship": 150000, "asan": 6000}, "thorough": {"ship": 4000000, "asan": 200000},
            "technique": "online monitor: whole-formula brute-force robustness oracle and independent Boolean truth-set oracle; ASan+UBSan build", "note": GENERATED},
    "C07": {"quick": {"ship": 250000, "asan": 8000}, "thorough": {"ship": 6000000, "asan": 200000},
            "technique": "relational monitor over pairs of executions (Lipschitz bound and monotonicity under perturbation); ASan+UBSan build", "note": GENERATED},
    "C08": {"quick": {"ship": 250000, "asan": 8000}, "thorough": {"ship": 6000000, "asan": 200000},
            "technique": "relational monitor over pairs of executions (STL laws as rewrites); ASan+UBSan build", "note": GENERATED},
    "C09": {"quick": {"ship": 250000, "asan": 8000}, "thorough": {"ship": 6000000, "asan": 200000},
            "technique": "relational monitor over pairs of executions (resampling, renaming, shifting, scaling, truncation); ASan+UBSan build", "note": GENERATED},
    "C10": {"quick": {"ship": 400000, "asan": 20000}, "thorough": {"ship": 10000000, "asan": 500000},
            "technique": "online monitor of the result's well-formedness at numeric extremes; ASan+UBSan+checked-iterator build with assertions on", "note": GENERATED},
    "C11": {"parser": True, "quick": {"ship": 40000, "asan": 1500}, "thorough": {"ship": 1000000, "asan": 40000},
            "technique": "history monitor: bit-exact snapshots of every live object after every call of random API histories, repeat and copy evaluations; ASan+UBSan build", "note": GENERATED},
    "C12": {"parser": True, "jobs": 3, "quick": {"tsan": 600, "ship": 6000}, "thorough": {"tsan": 12000, "ship": 120000},
            "technique": "ThreadSanitizer over concurrent histories with injected delays, plus an offline comparison of every result with the sequential execution",
            "note": "Races are detected on the accesses of the executions made, with happens-before precision; interleavings not produced are covered only as far as the accesses they would make were made."},
    "C13": {"parser": True, "quick": {"asan": 5000, "memcheck": 160}, "thorough": {"asan": 240000, "memcheck": 8000},
            "technique": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, checked libstdc++ and enabled assertions over random API histories; Valgrind memcheck over others",
            "note": "Decides the executions made. Memory errors are seen at the granularity of the sanitizers; uninitialised values where they reach a branch or a result."},
    "C14": {"quick": {"ship": 300000, "asan": 12000}, "thorough": {"ship": 8000000, "asan": 300000},
            "technique": "online monitor: the stored samples against an independent record of what was appended, after every operation; ASan+UBSan build", "note": GENERATED},
    "C15": {"quick": {"ship": 300000, "asan": 12000}, "thorough": {"ship": 8000000, "asan": 300000},
            "technique": "online monitor: exact piecewise-linear interpolation oracle for every query; ASan+UBSan build", "note": GENERATED},
    "C16": {"quick": {"ship": 300000, "asan": 12000}, "thorough": {"ship": 8000000, "asan": 300000},
            "technique": "online monitor: time-axis and function-equality oracle over the synchronized pair; ASan+UBSan build", "note": GENERATED},
    "C17": {"quick": {"ship": 300000, "asan": 12000}, "thorough": {"ship": 8000000, "asan": 300000},
            "technique": "online monitor: function-equality oracle over the transformed signal; ASan+UBSan build", "note": GENERATED},
    "C18": {"parser": True, "quick": {"ship": 80000, "asan": 4000}, "thorough": {"ship": 2500000, "asan": 120000},
            "technique": "round-trip monitor: parsed formulas against the generating formulas, node by node and by evaluation, under several locales; ASan+UBSan build with buffers ending at the text", "note": GENERATED},
    "C19": {"parser": True, "quick": {"ship": 120000, "asan": 8000}, "thorough": {"ship": 4000000, "asan": 240000},
            "technique": "differential monitor against an independent recogniser of the grammar on mutated and garbage text; ASan+UBSan build with buffers ending at the text", "note": GENERATED},
    "C20": {"quick": {"ship": 100000, "asan": 6000}, "thorough": {"ship": 3000000, "asan": 200000},
            "technique": "online monitor: every formula built against a model, by structure and by robustness on a trace; bit-exact snapshots of all existing formulas after every call; ASan+UBSan build", "note": GENERATED},
    "C21": {"quick": {"ship": 200000, "asan": 8000}, "thorough": {"ship": 5000000, "asan": 300000},
            "technique": "round-trip monitor: printed text read back by an independent reader, bit for bit; ASan+UBSan build",
            "note": GENERATED + " Names have no blanks and no parentheses; integer interval bounds are compared as the real numbers they denote, up to 2^53."},
    "C22": {"quick": {"ship": 100000, "asan": 8000}, "thorough": {"ship": 3000000, "asan": 250000},
            "technique": "fault-placement monitor: something that cannot be evaluated put at every kind of place of formulas that can; interval construction oracle; ASan+UBSan build", "note": GENERATED},
    "C23": {"parser": True, "flags": ["-fsanitize-coverage=trace-pc"], "quick": {"count": 3000}, "thorough": {"count": 50000},
            "technique": "work monitor: executed basic blocks, bytes moved and allocations (compiler instrumentation, interposed allocation and block copies) compared between inputs of length n and 16 n",
            "note": "Decides the input families generated, between the two lengths; a growth between n log n and n^1.37 is not told apart. Counts are deterministic, no clock is used."},
    "C25": {"parser": True, "quick": {"ship": 24000, "asan": 4000}, "thorough": {"ship": 600000, "asan": 100000},
            "technique": "differential monitor: from_file against from_string on the same bytes, with files in a scratch directory; ASan+UBSan build", "note": GENERATED},
    "C24": {"parser": True, "level": "fault_enumeration", "quick": {"ship": 40000, "asan": 1500}, "thorough": {"ship": 1000000, "asan": 50000},
            "technique": "fault injection: replaced operator new failing at every allocation of a call in turn; bit-exact snapshots, reference counts and live-block counts of everything passed in; ASan+LSan+UBSan build",
            "note": "Every allocation index up to 60 per call (300 in the thorough tier), random ones beyond; the calls are generated. Memory taken other than through operator new (file mapping) is not failed."},
}
