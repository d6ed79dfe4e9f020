import json
J="dhara/journal.c"; M="dhara/map.c"
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
props=[]
A=props.append
A(P("C01","Sync reports success only when a checkpoint holds every change",
"When the map's sync operation returns success, the journal is checkpointed: a checkpoint page was accepted by the chip after the last modification. Any operation that adds a page or discards the contents marks the journal as not checkpointed before (or as) it changes anything, and only an accepted checkpoint page (or a fresh start/resume) makes it checkpointed again.",
["histories","fault_sequences","crash_points"],"every history of map/journal operations, every NAND failure outcome, every point at which sync may return",
"Tests sync a handful of fixed histories on one geometry and never cut power at each step; the guarantee quantifies over all histories and failures of the checkpoint write itself.",
["dhara/map.c","dhara/journal.c","dhara/journal.h"],
[("sync loop",M+" dhara_map_sync"),("dirty flag set before programming",J+" prepare_head, dhara_journal_clear"),("dirty flag cleared after checkpoint program",J+" push_meta")],
[dict(name="flags (dirty bit)",meaning="set while something enqueued is not yet covered by a checkpoint",where="dhara/journal.h struct dhara_journal")],["dhara_map_sync","dhara_journal_is_clean","dhara_nand_prog"]))
A(P("C02","Each checkpoint page describes the journal exactly as it stands",
"Every checkpoint page handed to the chip carries the format marker, the current epoch, the current tail, both current bad-block counters, and, for the user page being completed, the metadata supplied with it at that page's own slot; the mapped-sector count stored with it is the count that results from the operation being committed.",
["histories","fault_sequences","configurations"],"every enqueue, copy, write, trim, gc and sync, on every geometry and failure history",
"Tests resume only a few times per run and compare a few fields; a stale or misplaced header field or count shows only after a particular crash or wrap-around.",
["dhara/journal.c","dhara/map.c","dhara/bytes.h"],
[("header fill",J+" push_meta, hdr_*"),("metadata slot",J+" hdr_user_offset"),("count in cookie",M+" ck_set_count callers")],None,["dhara_nand_prog of a checkpoint page"]))
A(P("C03","Nothing the last checkpoint relies on is overwritten before the next one",
"Until a newer checkpoint is accepted, no block holding pages at or after the checkpointed tail is entered, erased or programmed by the head; an attempt that would do so fails with the journal-full error and leaves the chip alone. The protected boundary moves only to the current tail, and only when a checkpoint has just been accepted outside recovery or when the tail advances while the journal is checkpointed and not in recovery.",
["histories","crash_points","fault_sequences"],"every history, power loss at any instant, any sequence of bad blocks",
"Tests never cut power between a reclaim and the next checkpoint on all histories; overrun needs a nearly full journal with badly placed bad blocks.",
["dhara/journal.c"],
[("full check before advancing",J+" prepare_head"),("full check when skipping a block",J+" skip_block"),("boundary update",J+" push_meta, dhara_journal_dequeue")],
[dict(name="tail_sync",meaning="oldest page the last checkpoint may refer to",where="dhara/journal.h")],["dhara_nand_erase","dhara_nand_prog","DHARA_E_JOURNAL_FULL"]))
A(P("C04","Flash pages are programmed once, in order, on a block just erased",
"The journal programs (or copies onto) only the page at its head, or the checkpoint slot that directly follows it; it erases a block only when the head stands at that block's first page and before anything is programmed there; and after any attempt to program a page that the chip did not reject for a reason other than a bad block, the head has moved past that page or the operation failed with the journal-full error. User data never lands in a checkpoint slot.",
["histories","fault_sequences","configurations"],"all histories, failure outcomes and geometries",
"The simulator aborts on violations, but only along the histories the tests take, on one geometry (512-byte pages, 8 per block).",
["dhara/journal.c"],
[("head preparation",J+" prepare_head"),("head advance",J+" next_upage, push_meta, dump_meta, skip_block")],[dict(name="head",meaning="next free raw page",where="dhara/journal.h")],["dhara_nand_erase","dhara_nand_prog","dhara_nand_copy"]))
A(P("C05","Bad blocks are never erased or written, and good blocks never retired",
"A block is erased only after being queried and found not bad, and is never programmed otherwise; a block is marked bad only if an erase or program on it failed with the bad-block error, and every such failure leads either to the block being marked bad, to a recovery that will mark it, or to a reported fatal error (if the journal is empty, the block may hold the last checkpoint and is left behind unmarked). Each bad block passed over or newly found is counted exactly once.",
["fault_sequences","histories"],"every placement and timing of factory-bad and grown-bad blocks",
"Tests inject random failures with fixed seeds in blocks; combinations such as a failure while dumping metadata on the chip's last block are not reached.",
["dhara/journal.c"],
[("bad query before erase",J+" prepare_head"),("immediate marking",J+" recover_from, restart_recovery, dump_meta"),("deferred marking",J+" finish_recovery")],None,["dhara_nand_is_bad","dhara_nand_mark_bad"]))
A(P("C06","A failed block is retired only after its pages are safe elsewhere",
"When a block fails with user pages already on it, its buffered metadata is first written to a good block, every user page from the block's start to the last written one is offered for relocation exactly once per attempt, a further failure restarts the enumeration from the start, and the block is marked bad only once enumeration is complete and a new checkpoint has been accepted. Until then the protected tail does not move.",
["fault_sequences","crash_points","histories"],"every failure sequence, including repeated failures during recovery and failures with an empty journal",
"recovery.test covers nine scripted failure scenarios on one geometry.",
["dhara/journal.c"],
[("recovery start",J+" recover_from, dump_meta"),("restart",J+" restart_recovery"),("enumeration",J+" dhara_journal_next_recoverable"),("finish",J+" push_meta, finish_recovery")],
[dict(name="recover_next/recover_root/recover_meta",meaning="recovery cursor, last page to save, dumped metadata page",where="dhara/journal.h")],["dhara_journal_next_recoverable","dhara_nand_mark_bad"]))
A(P("C07","Map operations finish recovery before retrying, and retry with fresh state",
"Whenever the journal reports that recovery is needed, the map relocates every page the journal offers, pads to the next checkpoint, and restarts on further failures, before the interrupted operation is attempted again; the retry recomputes its metadata from the current journal root. Only the recovery-needed error triggers this; any other error is returned as it is.",
["fault_sequences","histories"],"all map operations under every failure sequence",
"Tests trigger recovery at random points of one workload; they cannot visit each call site with each failure position.",
["dhara/map.c"],[("recovery loop",M+" try_recover"),("retry loops",M+" dhara_map_write, dhara_map_copy_page, dhara_map_trim, dhara_map_sync, dhara_map_gc")],None,["dhara_journal_next_recoverable","dhara_journal_copy"]))
A(P("C08","Lookup follows the sector's address bits to its newest page",
"Finding a sector starts at the newest page and, for each of the 32 address bits from the most significant down, follows the stored alternative pointer for that bit exactly when the current page's sector differs from the target in that bit; it reports the page reached after the last bit, and reports not-found exactly when it meets a missing pointer or a filler page. An I/O error is never reported as not-found nor as success.",
["inputs","histories"],"all sector numbers and all map contents",
"Tests look up 200 low sector numbers (high address bits never differ), so most of the 32 levels are never exercised.",
["dhara/map.c"],[("descent",M+" trace_path"),("bit order",M+" d_bit"),("pointer slots",M+" meta_get_alt")],None,["dhara_map_find","dhara_map_read"]))
A(P("C09","An update keeps every other sector reachable",
"The metadata written with a new, rewritten or relocated page names that page's sector and, for each of the 32 address bits, points at the newest page on the other side of that bit (or at none if there is none), computed from the journal's newest page at the moment of writing. The page payload written is the caller's data (or the source page for copies).",
["inputs","histories"],"all sector numbers, all map contents, all operation histories",
"Tests use 200 low sector numbers; corrupting one level's pointer only matters for sector sets the tests never build.",
["dhara/map.c"],[("path construction",M+" trace_path with new metadata"),("writers",M+" dhara_map_write, dhara_map_copy_page, raw_gc")],None,["dhara_journal_enqueue","dhara_journal_copy"]))
A(P("C10","Trim removes exactly the requested sector",
"Trimming a mapped sector rewrites its nearest surviving neighbour with its own payload, identity and lower pointers, the upper pointers of the trimmed sector's path, and the pointer to the trimmed sector cleared; the count drops by one only if that succeeded. Trimming the only sector empties the map, trimming an unmapped sector changes nothing, and an I/O error is reported rather than treated as unmapped.",
["inputs","histories","fault_sequences"],"all sector numbers, map contents and failures",
"map.test trims 100 low sectors and checks the tree, on one geometry; deep levels and failures inside the trim are not covered.",
["dhara/map.c"],[("deletion",M+" try_delete, dhara_map_trim")],None,["dhara_map_trim","dhara_map_size"]))
A(P("C11","Garbage collection never drops a live page",
"A page leaves the journal's tail, or is passed over during recovery, only after its sector was looked up and the page was found obsolete (filler, unmapped, or superseded) or was successfully rewritten at the head with its own sector's fresh metadata. A failed lookup or rewrite leaves the tail where it was; automatic collection runs only before a write or trim and only when the journal has grown to the map's capacity.",
["histories","fault_sequences"],"all histories and NAND error outcomes",
"Losing a page needs an error at a particular step of collection or an unusual page state; tests sample one random workload.",
["dhara/map.c"],[("liveness test and rewrite",M+" raw_gc"),("dequeue after success",M+" dhara_map_gc, dhara_map_sync"),("trigger",M+" auto_gc")],None,["dhara_journal_dequeue","dhara_journal_copy"]))
A(P("C12","The sector count is exact and never exceeds capacity",
"The count rises by one exactly when a previously unmapped sector is successfully written or copied to, falls by one exactly when a mapped sector is trimmed, becomes zero on clear, on removal of the last sector and on failed resume, and otherwise equals the persisted count after resume. A new sector is refused with the map-full error when the count has reached capacity; rewriting a mapped sector is never refused for that reason, and a failed operation leaves the count as it was.",
["histories","fault_sequences","inputs"],"all operation histories including failures at any step",
"Tests never fill the map, and never compare the count across failed operations.",
["dhara/map.c"],[("count update",M+" prepare_write, dhara_map_write, dhara_map_copy_page, try_delete, dhara_map_clear, dhara_map_resume"),("limit",M+" prepare_write, dhara_map_capacity")],[dict(name="count",meaning="number of mapped sectors",where="dhara/map.h")],["dhara_map_size","DHARA_E_MAP_FULL"]))
A(P("C13","No failure is swallowed and every failure says why",
"Every failing NAND or journal call is either handled as documented (retry, bad-block handling, recovery, search fallback) or makes the public operation return -1; whenever a public operation returns -1, and the caller supplied an error pointer, the pointed-to value was set on that call to the underlying cause or to the documented code for the condition. A null error pointer is accepted everywhere and never dereferenced.",
["fault_sequences","inputs"],"every public operation, every failing call site, null and non-null error pointers",
"Tests abort on unexpected errors and never inject read or lookup errors, so most error paths are never executed.",
["dhara/journal.c","dhara/map.c","dhara/error.h"],[("error propagation","all call sites of dhara_nand_* and dhara_journal_* returning int"),("null-safe store","dhara/error.h dhara_set_error")],None,["return value and *err of every public function"]))
A(P("C14","Queries do not change the map, the journal or the flash",
"Finding, reading, size and capacity queries and metadata reads issue no erase, program, copy or mark-bad operation and change no map or journal state or page buffer; starting up (init, resume) and peeking at or removing the tail likewise never modify flash.",
["histories","inputs"],"all states in which a query can be made",
"A side effect that corrupts state only in a rare state is not visible to assertions on return values.",
["dhara/journal.c","dhara/map.c"],[("query functions",M+" dhara_map_find/read/capacity; "+J+" dhara_journal_read_meta/size/capacity"),("startup",J+" dhara_journal_init/resume")],None,["dhara_nand_erase/prog/copy/mark_bad call sites"]))
A(P("C15","The on-flash format is fixed, little-endian and self-consistent",
"Checkpoint pages hold the marker 'Dha' at 0, epoch at 3, tail at 4, bad-block counters at 8 and 12, the sector count at 16 and 132-byte metadata slots from 20 in page order; each slot holds the sector number and then 32 pointers in address-bit order; all integers are 32-bit little-endian. Every reader uses the location and encoding its writer uses, so an image written by any conforming build resumes on any other, whatever the host byte order.",
["configurations","inputs"],"every field value, every geometry, every host",
"Tests write and read with the same build in the same run, so a consistent change of format, or an encoding error in high bytes, passes them.",
["dhara/journal.c","dhara/map.c","dhara/bytes.h","dhara/journal.h","map_internals.txt"],[("header accessors",J+" hdr_*"),("metadata accessors",M+" meta_*, ck_*"),("byte order","dhara/bytes.h")],None,["dhara_nand_prog data","dhara_journal_cookie"]))
A(P("C16","Buffers are never accessed out of bounds",
"For every supported geometry (one header, cookie and metadata slot fit in a page; a block has at least two pages), every access the journal and map make to the page buffer, to metadata buffers and to chip pages through the NAND interface lies within the buffer or page, and checkpoint groups are sized as the largest power of two whose metadata fits one page and that fits in a block.",
["configurations","inputs","histories"],"all geometries, all page positions and sector numbers",
"Tests run one geometry (512-byte pages, 8 pages per block).",
["dhara/journal.c","dhara/map.c"],[("group sizing",J+" choose_ppc"),("slot offsets",J+" hdr_user_offset, hdr_clear_user"),("pointer slots",M+" meta_get_alt/meta_set_alt")],None,["page_buf, metadata buffers"]))
A(P("C17","No hidden state: instances are independent and need no heap or recursion",
"The journal, map and ECC code keep all mutable state in the caller's objects: no mutable global or static storage, no heap allocation, no recursion, no dynamically sized stack objects, and no calls outside the documented NAND interface and the C memory functions. Two instances therefore never interfere and worst-case stack use is fixed.",
["histories","schedules","programs"],"any number of instances, interleaved in any way",
"Tests use one instance at a time.",
["dhara/journal.c","dhara/map.c","dhara/error.c","ecc/bch.c","ecc/hamming.c","ecc/crc32.c","ecc/gf13.c"],[("caller-owned state","struct dhara_journal, struct dhara_map, struct bch_def")],None,["linkable symbols"]))
A(P("C18","Journal operations do bounded work",
"Every loop in the journal either runs at most a fixed retry count, visits each page of one block or group at most once, or halves (or strictly shrinks) its search range on each step, so every journal operation terminates after a bounded number of NAND operations whatever the chip contains. Recovery restarts at map level are limited to the retry count.",
["histories","fault_sequences","configurations"],"every chip content, including corrupted checkpoints, and every failure sequence",
"A non-terminating search needs a particular chip image; tests resume only from images they wrote themselves.",
["dhara/journal.c","dhara/map.c"],[("retry loops","DHARA_MAX_RETRIES loops"),("binary searches",J+" find_last_checkblock, find_last_group"),("restart limit",M+" try_recover")],None,["number of dhara_nand_* calls"]))
A(P("C19","Resume restores the newest checkpoint or yields an empty journal",
"A successful resume takes epoch, tail, bad-block counters and count from a checkpoint page that was read without error, bears the marker and matches the current epoch; it takes the last such page in the last block found for that epoch, makes its last user page the root, clears buffered metadata, sets the protected tail to the tail, is checkpointed and not in recovery, and places the head on a free user page or a block start after it. A failed resume leaves an empty journal and map.",
["crash_points","histories","configurations","fault_sequences"],"every chip image a crash can leave",
"Tests resume from clean shutdowns and one scripted unsynchronised wrap.",
["dhara/journal.c","dhara/map.c"],[("block search",J+" find_checkblock, find_last_checkblock"),("group search",J+" find_last_group, cp_free"),("root and head",J+" find_root, find_head"),("state restore",J+" dhara_journal_resume; "+M+" dhara_map_resume")],None,["dhara_journal_resume","dhara_map_resume"]))
A(P("C20","The head sweeps the chip in order and the epoch counts the sweeps",
"The head only ever moves to the next user page, or to the start of the next block when a block is bad, wrapping from the end of the chip to page 0; no good block is skipped, which is what keeps erase counts even. Each wrap, in normal operation, recovery or resume, advances the epoch by exactly one and rolls the bad-block estimate exactly once, and neither changes otherwise.",
["histories","configurations","fault_sequences"],"all histories over any number of wraps, all bad-block placements",
"epoch_roll.test scripts a single wrap; wraps that happen inside recovery, metadata dumps or block skips are not reached.",
["dhara/journal.c"],[("sequence",J+" next_upage, next_block"),("wrap accounting",J+" roll_stats callers")],[dict(name="epoch, bb_current, bb_last",meaning="sweep counter and bad-block estimates",where="dhara/journal.h")],["dhara_nand_erase order"]))
A(P("C21","Reported sizes and capacities follow the documented formulas",
"Journal capacity is the number of user pages on the chip's blocks less the larger bad-block estimate and one spare; journal size is the number of user pages from the protected tail to the head, across wrap-around; map capacity is journal capacity less a 1/(ratio+1) collection reserve and a safety margin of eight blocks, and is zero when nothing is left.",
["configurations","inputs"],"all geometries, ratios, head/tail positions and bad-block counts",
"Tests print these numbers or compare them loosely for one geometry.",
["dhara/journal.c","dhara/map.c"],[("formulas",J+" dhara_journal_capacity, dhara_journal_size; "+M+" dhara_map_capacity")],None,["dhara_journal_capacity","dhara_journal_size","dhara_map_capacity"]))
A(P("C22","Reads, copies and sync/clear honour the sector-level contract",
"Reading a mapped sector returns the whole payload of the page found for it, reading an unmapped sector fills the whole page with 0xff and succeeds; copying a sector copies the page found for the source, and copying an unmapped source trims the destination. Clearing a non-empty map empties the journal and the count; clearing the journal discards all pages and buffered metadata but not what the last checkpoint protects.",
["inputs","histories"],"all sectors, payloads and page sizes",
"copy_page, copy_sector, clear and reading unmapped sectors are not exercised by any test.",
["dhara/map.c","dhara/journal.c"],[("read",M+" dhara_map_read"),("copy",M+" dhara_map_copy_page, dhara_map_copy_sector"),("clear",M+" dhara_map_clear; "+J+" dhara_journal_clear")],None,["dhara_map_read","dhara_map_copy_sector","dhara_map_clear"]))
A(P("C23","Metadata lookups read the right page's slot from the right place",
"Reading a user page's metadata returns the slot for that page's position in its group: from the page buffer when the page shares the head's group, from the dumped copy when a recovery is under way, metadata was dumped and the page shares the failed group, and otherwise from the group's own checkpoint page.",
["histories","fault_sequences","configurations"],"all pages, head positions, recovery states and geometries",
"The dumped-copy case is reached only by a few scripted recoveries, on one geometry.",
["dhara/journal.c"],[("source selection",J+" dhara_journal_read_meta")],None,["dhara_journal_read_meta"]))
A(P("C24","Tail removal steps through user pages and keeps root consistent",
"Peeking at the tail reports nothing exactly when the journal is empty, skips blocks marked bad at block boundaries without passing the head, and otherwise returns the oldest user page; removing it advances the tail to the next user page (never a checkpoint slot, wrapping at the chip's end) and does nothing on an empty journal. When the newest page has been removed, the journal has no root.",
["histories","fault_sequences","configurations"],"all head/tail/root positions and bad-block placements",
"Tests drain the journal from a few positions on one geometry.",
["dhara/journal.c"],[("peek",J+" dhara_journal_peek"),("dequeue",J+" dhara_journal_dequeue, wrap")],None,["dhara_journal_peek","dhara_journal_dequeue","dhara_journal_root"]))
A(P("C25","A successful enqueue makes its page the root, with its metadata",
"When adding or copying a page reports success, the page was accepted by the chip (unless no payload was given), its metadata (or all-ones if none) is in its own slot of the page buffer or checkpoint, it is the journal's newest page, and the head has moved on; when it reports failure the newest page is unchanged or is the one being recovered. No accepted request is silently lost.",
["histories","fault_sequences","configurations"],"all head positions, geometries and failure outcomes, including failure of the checkpoint write",
"Loss needs the checkpoint write to fail at a particular position, which depends on geometry.",
["dhara/journal.c"],[("enqueue",J+" dhara_journal_enqueue, dhara_journal_copy, push_meta")],None,["dhara_journal_enqueue","dhara_journal_copy","dhara_journal_root"]))
A(P("C26","Initialisation yields a defined, empty journal and map without touching flash",
"After initialisation every field the other operations read is set: geometry taken from the chip description, empty queue at page 0, no root, no recovery, checkpointed, epoch 0, a bad-block estimate of one in 64, buffered metadata all ones, zero sectors, and a collection ratio of at least one as requested.",
["configurations","histories"],"all chip descriptions and ratios, any previous content of the objects",
"Tests always resume right after init, on zeroed or previously used stack memory.",
["dhara/journal.c","dhara/map.c"],[("init",J+" dhara_journal_init, reset_journal; "+M+" dhara_map_init")],None,["dhara_journal_init","dhara_map_init"]))
A(P("C27","Every error code has its own message and unknown codes are safe",
"The error-text function returns a distinct, non-null, constant string for each defined error code and a fixed fallback for any other value, without reading outside its table.",
["inputs"],"all values an error variable can hold",
"error.test prints the valid codes and never passes an invalid one or compares texts.",
["dhara/error.c","dhara/error.h"],[("table lookup","dhara/error.c dhara_strerror")],None,["dhara_strerror"]))
A(P("C28","The NAND checksum is the inverted IEEE 802.3 CRC-32",
"The checksum of any block is the reflected IEEE 802.3 CRC-32 (polynomial 0xedb88320) computed on inverted coefficients, byte by byte in order, so a carried checksum composes over concatenation and an erased block has the erased checksum.",
["inputs"],"all block contents, lengths and carry values",
"Tests check one erased block and 200 random corruptions, which a wrong table entry or polynomial also passes.",
["ecc/crc32.c","ecc/crc32.h"],[("table and step","ecc/crc32.c reduce, crc32_nand")],None,["crc32_nand"]))
A(P("C29","The Hamming code corrects any single-bit error and detects any double",
"For every chunk up to the maximum size: the stored code is the documented parity arrangement (inverted, so an erased chunk has an erased code), the syndrome is zero for an intact chunk, any single flipped data bit yields a syndrome from which repair flips exactly that bit back, a single flipped code bit leaves the data alone with success, and any two flipped bits are reported as uncorrectable.",
["inputs"],"all chunk contents up to 512 bytes, all one- and two-bit error positions",
"Tests try 220 random single-bit errors on 512-byte chunks and no double errors.",
["ecc/hamming.c","ecc/hamming.h"],[("parities","ecc/hamming.c parity_scan"),("repair","ecc/hamming.c hamming_repair")],None,["hamming_generate","hamming_syndrome","hamming_repair"]))
A(P("C30","BCH code words are generated and verified against the right generators",
"Each shipped code's generator is the product of the minimal polynomials of the first 2t powers of the field's primitive element, with matching degree, syndrome count and ECC size; generation stores the remainder of the inverted chunk by that generator, inverted and little-endian, and verification accepts exactly those chunk/code pairs whose recomputed remainder equals the stored one, ignoring padding bits.",
["inputs","configurations"],"all chunk contents and lengths, all four codes",
"Tests check a few hundred random error patterns on 512-byte chunks.",
["ecc/bch.c","ecc/bch.h"],[("definitions","ecc/bch.c bch_1bit..bch_4bit"),("encoding","ecc/bch.c chunk_remainder, pack_poly, unpack_poly, bch_generate, bch_verify")],None,["bch_generate","bch_verify"]))
A(P("C31","Finite-field arithmetic is exact in both build variants",
"For all non-zero field elements, the table-driven and the table-free builds compute the same GF(2^13) product, quotient, and multiplication and division by the primitive element, under the polynomial x^13+x^4+x^3+x+1; every table entry is the value the definition gives.",
["inputs","configurations"],"all element pairs, both build variants",
"No test exercises field arithmetic directly, the table-free build is never compiled by the build, and most table entries are never used.",
["ecc/gf13.c","ecc/gf13.h"],[("tables","ecc/gf13.c gf13_exp, gf13_log"),("operations","ecc/gf13.h, ecc/gf13.c")],None,["gf13_mul","gf13_div","gf13_mulx","gf13_divx"]))
A(P("C32","BCH repair follows the textbook decoder",
"Repair evaluates the received word (inverted chunk, least significant bit of each byte first, then code bits) at successive powers of the primitive element, one per syndrome of the chosen code, derives the error locator by the Berlekamp-Massey recurrence, and flips exactly those chunk bits and then code bits whose position is a root.",
["inputs","configurations"],"all chunks, lengths, codes and error patterns",
"Tests sample random error patterns for 512-byte chunks; wrong handling of rare discrepancy sequences is not reached.",
["ecc/bch.c"],[("syndromes","ecc/bch.c syndrome, bch_repair"),("locator","ecc/bch.c berlekamp_massey, poly_add"),("root search","ecc/bch.c poly_eval, bch_repair")],None,["bch_repair"]))
A(P("C33","ECC routines stay within the caller's chunk and code buffers",
"Each ECC routine reads and writes only bytes 0 to length-1 of the chunk and only the code bytes its code defines, never writes a buffer it only has to read, and never indexes its own tables or work arrays out of range, for any content, including corrupted codes.",
["inputs","configurations"],"all chunk lengths within the limits, all contents, all codes",
"Tests use one chunk size and no bounds checking.",
["ecc/bch.c","ecc/hamming.c","ecc/crc32.c","ecc/gf13.h"],[("loops","ecc/*.c loops over chunk and code"),("work arrays","ecc/bch.c MAX_POLY arrays")],None,["chunk and ecc buffers"]))
A(P("C34","The table generators reproduce the shipped tables",
"The CRC table tool prints, for a given reflected polynomial, the 256 remainders that the checksum code needs, and its arithmetic agrees with the shipped table.",
["inputs"],"all polynomials and all table indices",
"The tools are built but never run by the tests.",
["tools/gentab.c","ecc/crc32.c"],[("table fill","tools/gentab.c fill_table")],None,["tools/gentab output"]))
A(P("C40","End to end: any history with crashes reads back what was last synced",
"For every sequence of writes, trims, copies, collections and syncs, with power loss at any point, each sector reads as of the last completed operation, or after a restart as of some checkpoint no older than the last completed sync.",
["histories","crash_points","fault_sequences"],"all histories, all crash points, all failure sequences",
"Unbounded histories and crash points.",
["dhara/map.c","dhara/journal.c"],[("whole system","dhara/")],None,["dhara_map_read after dhara_map_resume"]))
A(P("C41","A map below capacity never runs out of journal space",
"As long as the number of mapped sectors is below capacity, and fewer blocks go bad than the safety margin, no write, trim or sync fails for lack of space.",
["histories","fault_sequences","configurations"],"all histories and bad-block counts within the margin",
"Needs adversarial histories at full load.",
["dhara/map.c","dhara/journal.c"],[("reserve arithmetic",M+" dhara_map_capacity, auto_gc")],None,["DHARA_E_JOURNAL_FULL"]))
A(P("C42","Erase counts of any two good blocks differ by at most one",
"Over any history, the numbers of erase operations of two blocks that have stayed good differ by at most one.",
["histories"],"all histories",
"Needs unbounded histories.",
["dhara/journal.c"],[("circular head",J+" next_upage, next_block")],None,["dhara_nand_erase counts"]))
A(P("C43","BCH repair corrects any pattern of up to t errors",
"For each code correcting t errors, every pattern of at most t flipped bits in chunk and code together is corrected exactly.",
["inputs"],"all contents and all error patterns of weight up to t",
"The pattern space is astronomically larger than what tests sample.",
["ecc/bch.c","ecc/gf13.c"],[("decoder","ecc/bch.c bch_repair")],None,["bch_repair"]))
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props), max(len(p["title"]) for p in props))
