"""What is claimed for each property (technique, note) and what is not."""
CLAIM = {i: (None, "") for i in
         "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22 C23 C24 C25 C26".split()}
BITS = "bit-level data-flow analysis of the LLVM IR: every value as polynomials over GF(2) in the input bits, compared as normal forms with the definition"
CHAIN = (" Covered: every content; lengths without bound where the rule is inductive (the loop's transfer function), otherwise the "
         "lengths listed in engine/tasks.py with arbitrary content.")
CLAIM.update({
    "C17": ("structural queries on the LLVM IR and its call graph (effects, globals, recursion, frame sizes)", "Every function of the library, both field-table variants."),
    "C27": ("path enumeration over the IR with intervals of the code; constant tables read from the module", "All 2^32 codes, partitioned into intervals."),
    "C28": (BITS + "; induction over the length", CHAIN),
    "C29": (BITS + "; induction over the length; affine forms for the syndrome", CHAIN),
    "C30": (BITS + "; induction over the length for the encoder", CHAIN),
    "C31": ("whole-table comparison with the definition, symbolic logarithms over the IR, GF(2) polynomial normal forms, induction on the loop for the table-free product", "All non-zero elements."),
    "C32": (BITS + "; the locator recurrence over Laurent polynomials in the discrepancies, partitioned on which of them vanish",
            CHAIN + " The locator step is covered for every syndrome sequence: the 2^(2t) partitions are exhaustive."),
    "C33": (BITS + "; access sets of every load and store", CHAIN),
    "C34": (BITS + " applied to the tool's main", "Every polynomial given as eight hexadecimal digits."),
    "C43": (BITS + "; composition of encoder, syndrome, locator and root-search rules",
            CHAIN + " The composition uses the standard theorem that a code with 2t consecutive roots, decoded by Berlekamp-Massey and a root search, corrects t errors."),
})
NA = {
    "C40": "Quantifies over whole histories of operations, crash points and the resulting flash images; no sound static argument in reach connects the page tree, the journal and the recovery across operations. Its per-operation necessary conditions are claimed as C01-C13 and C19.",
    "C41": "Needs a numeric invariant relating live pages, obsolete pages and collection progress over unbounded histories; the trigger and the capacity formula are checked separately (C11, C21).",
    "C42": "Counts erase operations per block over unbounded histories; the head's visiting order, which the spread rests on, is decided as C20.",
}
