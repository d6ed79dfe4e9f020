#!/usr/bin/env python3
"""the table of properties in DESIGN.md, from properties.jsonl, the rules below and seeded/*/meta.json"""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HOW = {
"C01": "`success-means-checkpointed` (a successful sync leaves the dirty flag clear, on every abstract exit), `sync-makes-progress`, `dirty-before-modify`/`dirty-kept`/`dirty-on-success`/`clear-dirty`: the flag is set by everything that changes what a resume would restore and cleared only right after an accepted checkpoint page.",
"C02": "content of the page buffer handed to the driver when a checkpoint is programmed: marker, epoch, tail, both counters, cookie, and every metadata slot (`ckpt-*`, `other-slots-kept`, for a symbolic slot index), and that the buffer holds nothing stale after resume.",
"C03": "`enter-block`: when the head moves to a block start, the block is not the one of the protected tail unless nothing is protected; `tail-sync-update`/`-still`: the protected tail moves only as stated.",
"C04": "ghost state of the page under the head, derived per path from driver events (erased, programmed, copied, is_free answers): every program goes to a page after the last programmed one of an erased block.",
"C05": "block-bad events: no erase/program without an is_bad answer for that block since it was entered, marks only after a failed operation, counters as stated; the same under recovery.",
"C06": "recovery state machine as a transition relation on the recovery fields: begin, dump, enumerate, restart, finish; each exit of each operation is matched to one transition.",
"C07": "map-level loop analysis: each page offered by the journal is dead or written again before the next (`passed-page-is-dead-or-moved`), padding, restart limit, error never surfaces.",
"C08": "the lookup loop carries the invariant 'all bits above the current level agree or were followed'; exits are compared with the definition of found/absent.",
"C09": "metadata written with a page, per level of the trie (symbolic level, segments of the metadata array): path pointers, cousin, lower slots, sector id.",
"C10": "same analysis for trim: the cousin that is rewritten is the nearest, its pointer to the trimmed subtree is cleared, ignored only when unmapped, clear only if alone.",
"C11": "collection: the page at the tail is dropped only when dead or rewritten; triggers and counts; a failed collection keeps the tail.",
"C12": "count as a term of the entry count on every exit, and in the cookie handed to the journal.",
"C13": "every exit: return value is 0 or -1, error is the cause of the last failing event (or a documented special case), no failure swallowed; a NULL error pointer is never dereferenced.",
"C14": "effect analysis: read-only operations have no modifying driver event and every word of the state is the same term at exit.",
"C15": "byte-level layout: each header/cookie/metadata field is read back from the bytes written, as slices of the same term.",
"C16": "every access to page, metadata and stack buffers is within bounds, every page/block handed to the driver is on the chip.",
"C17": "structural queries over the module: no writable or static storage, no recursion in the call graph, fixed stack, only known external calls.",
"C18": "per loop: a counter with a bound, or a range that strictly shrinks without wrapping, or a page position that moves one way within a block/group; nothing fails and is retried except recovery.",
"C19": "the binary searches and scans of resume as loop summaries; the result compared with the definition (newest checkpoint, first free page, fields from the page read). The object may be in any state on entry.",
"C20": "order of the head over pages and blocks, epoch and counters on wrap, in enqueue/copy/resume.",
"C21": "size and capacity as symbolic formulas.",
"C22": "what the other operations do: whole pages, right page, right destination, clear.",
"C23": "metadata read: from the buffer, from flash or from the dump page, with the right slot, by one read.",
"C24": "peek/dequeue as functions of (head, tail, root).",
"C25": "root after each operation, page accepted only after its program succeeded.",
"C26": "state after init; largest supported group size.",
"C27": "path enumeration with intervals of the code.",
"C28": "transfer function of the loop body as GF(2) polynomials, equal to eight steps of the definition; induction over the length.",
"C29": "parity bits as GF(2) polynomials of the chunk; repair on syndromes of zero, one and two flipped bits with symbolic positions.",
"C30": "generator = product of minimal polynomials (computed from the definition); encoder loop by induction; verification compared with remainder equality modulo padding.",
"C31": "tables against the definition; the inline operations over symbolic logarithms; table-free variants by polynomial normal forms and induction on the product loop.",
"C32": "syndromes as GF(2)-linear forms; Berlekamp-Massey over Laurent polynomials in the discrepancies for each of the 2^(2t) patterns of zero discrepancies; correction loop: position i flipped iff the locator is zero at x^-i.",
"C33": "access sets of every load and store of the ECC code.",
"C34": "the tool's table, argument parser and output format analysed with the same domain.",
"C43": "corollary: C30 (code), C31 (field), C32 (decoder) rules together imply it by the standard theorem on narrow-sense BCH codes.",
}
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    seeds.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
out = ["| id | property | decided by | planted bugs caught |", "|---|---|---|---|"]
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    if d["id"] in HOW:
        out.append("| %s | %s | %s | %s |" % (d["id"], d["title"], HOW[d["id"]], ", ".join("`%s`" % s for s in seeds.get(d["id"], [])) or "see tools/regress/muts_*.txt"))
p = V + "/DESIGN.md"
t = open(p).read()
a, rest = t.split("<!-- table -->\n", 1)
_, b = rest.split("<!-- end table -->\n", 1)
open(p, "w").write(a + "<!-- table -->\n" + "\n".join(out) + "\n<!-- end table -->\n" + b)
