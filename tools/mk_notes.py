import json
T="exhaustive bounded exploration (stateless model checking) of the real code: "
N={
"C01":("add histories x contents x method chains against the list of adds","all add histories to depth 3 (thorough 4) over an 11-operation alphabet; all chains x sizes at buffer boundaries x 4 patterns; all small solid groups; thorough: entries and blocks around and beyond 4 GiB"),
"C02":("presence patterns of every metadata field against the record added","all kind x presence patterns for 2 (3) entries, one differing entry in lists across byte boundaries, extreme values and names, names with NUL refused"),
"C03":("write/flush histories x option points x data patterns, round trip and reference decoder","all histories of writes and flushes to the stated depth over boundary sizes; option grid; match finder wrap through a guarded hook"),
"C04":("write histories x option points x header/end-marker modes, round trip and reference decoder","as C03 for the LZMA writer, plus every wrong size announcement near the true one"),
"C05":("all symbol sequences of the LZMA format encoded by an independent encoder, all chunk sequences of LZMA2","all symbol sequences to the stated depth, all lc/lp/pb, all legal control bytes; oracle is symbol-level interpretation; state and dictionary resets after full and part-full windows"),
"C06":("all short byte strings over per-architecture alphabets at buffer-boundary positions against independent encoders","whole alphabets to the stated length, all delta distances, positions across the filter buffer, read and source splits"),
"C07":("all branch strings x per-branch decisions x stream codings x read sizes, faults in each stream","independent BCJ2 encoder; every truncation and byte flip of each stream of a corpus; branches beyond 4 GiB"),
"C08":("lengths x passwords x salts x powers x write/read splits against an own AES/SHA implementation","all lengths to 80 and at buffer boundaries, all two-part splits, passwords over every class of character, deviation-bounded short writes"),
"C09":("deviation-bounded schedules of short reads, interruptions and short writes","all schedules with up to the stated number of deviations per codec and layout"),
"C10":("every byte x substitutions and every truncation of an archive corpus","complete enumeration over the corpus files, whole-block checksums and checksums of special values included; oracle: error or original"),
"C11":("mutations of the header tree with recomputed checksums, field x boundary value, all pairs of fields","single faults complete over corpus, pairs over boundary values; panics, hangs, allocations monitored"),
"C12":("all short streams, every offset x value, truncations, property bytes per codec","complete over corpus; panics, hangs, allocation and output size monitored"),
"C13":("password neighbourhoods x archive corpus","every single-character edit, prefixes, extensions, case changes, empty password over all encrypted layouts, sequences of many passwords"),
"C14":("settings histories x entry names and counts, byte search and opening without the password","all histories to the stated depth; oracle: no name bytes, cannot be opened"),
"C15":("every fault position of every add history against the model of successful adds","fault at every source read and sink write/seek of all histories to the stated depth"),
"C16":("every prefix of the write log, every split and every subset of lost blocks","all crash points of the corpus histories, torn writes at every byte of the last write"),
"C17":("archive structures x callback behaviours x block orders","all structures to 6 (7) entries, all stop positions, all block orders, blocks of several packed streams"),
"C18":("all names over a component alphabet, lexical containment, destinations recorded","extraction callback records destinations; run as an unprivileged user in a scratch directory"),
"C19":("all small directory trees x helpers x filters in a scratch directory","trees to the stated number of nodes; contents, names and times compared; links, sockets and unreadable items; run as an unprivileged user in a scratch directory"),
"C20":("add histories read by an independent strict reader","same histories as C01/C02 plus option grid and numbers to 5 bytes"),
"C21":("layout options of an independent archive builder","all structures to 7 (8) entries, all combinations of up to 3 (4) option deviations, all coder chains to 3, all placements of special checksum values"),
"C23":("add histories and archive layouts, reported sizes, positions and checksums against the model","all add histories to the stated depth x prefilled entries x chains; all structures to 6 (7) entries; blocks of 1 to 7 packed streams x packed checksums; every field compared"),
"C22":("blanked start headers over histories and recovery decoys","all histories to the stated depth, blanking patterns, decoy header bytes, headers beyond the search step"),
"C24":("parameters x limits x streams with the memory in use counted by the allocator","all property bytes x dictionary edges x limits; 9 limits around each estimate; encoder option points up to 64 MiB dictionaries (thorough 768 MiB)"),
}
json.dump({k:{"technique":T+a,"note":b} for k,(a,b) in N.items()},open("/verif/tools/level_notes.json","w"),indent=1)
