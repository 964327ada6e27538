import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Index content follows the history of operations",
 "After any sequence of additions, deletions by term or by document, undeletes, commits, optimisations, closes and reopens, a freshly opened reader presents exactly the documents added and committed so far minus the deleted ones, in the order they were added. Its document counts, deletion flags and maximum document number agree with that set, and an optimised index holds no deleted documents.",
 ["histories","configurations"],"every history of writer and reader operations, for every writer configuration (buffer sizes, merge factor, compound or loose files, memory or file store)",
 "the tests replay a few fixed histories with one or two configurations; flush, merge and delete interact only for particular counts and orders",
 ["c/src/index.c"],
 [("flush of the buffered segment","iw_flush_ram_segment"),("merge policy and merging","iw_maybe_merge_segments, iw_merge_segments, sm_merge"),("deletion bit vectors per segment","sr_delete_doc_i, sr_commit_i, iw_delete_term(s)"),("document numbering over segments","mr_new, mr_reader_index_i")],
 [("segment list","ordered committed segments with document counts and deletion generations","SegmentInfos"),("buffered documents","documents added but not yet flushed","IndexWriter.dw")],
 ["frt_ir_open","frt_iw_add_doc","frt_iw_delete_term","frt_iw_optimize","frt_ir_delete_doc"])
p("C02","Stored fields come back verbatim",
 "Every value of every stored field of every live document is returned byte for byte, all values in the order given, whether the field is compressed or not and whether the document is loaded eagerly, lazily or in byte ranges. Fields that are not stored are never returned. Flushing, merging, packing into compound files, copying between indexes and reopening do not change this.",
 ["inputs","histories","configurations"],"every document (any number of fields and values, any bytes and lengths), every field configuration and every segmentation history",
 "tests store a handful of short values; buffer boundaries, multi-value lengths, compression block sizes and merges of segments with different fields are not enumerated",
 ["c/src/index.c","c/src/store.c","c/src/compound_io.c"],
 [("field data writer","fw_add_doc, os_write_zipped_bytes"),("field data readers","fr_get_doc, fr_get_lazy_doc, lazy_df_get_data, lazy_df_get_bytes"),("copying on merge","sm_merge_fields, iw_cp_fields")],
 observe=["FrtIndexReader.get_doc","FrtIndexReader.get_lazy_doc"])
p("C03","The inverted index is exact for any segmentation",
 "For every indexed field a reader enumerates exactly the distinct terms of its documents in byte order, with their document frequencies, and for every term exactly the live documents holding it with the right frequencies and positions. Seeking a term lands on the first term not below it and skipping a posting list lands on the first document not below the target. None of this depends on how documents were buffered, flushed, merged or packed.",
 ["inputs","histories","configurations"],"every document collection, every term dictionary and skip interval, every segmentation",
 "tests use one small word list and default intervals; skip lists, term-index blocks and prefix compression behave differently only at particular sizes",
 ["c/src/index.c"],
 [("inversion of documents","dw_add_doc, dw_invert_field"),("dictionary and postings writers","tiw_add, dw_flush, skip_buf_add"),("term enumeration and lookup","ste_next, ste_scan_to, sti_get_index_offset, mte_next, mte_skip_to"),("postings enumeration","stde_next, stde_read, stde_skip_to, stpe_next_position, mtde_*"),("merging of dictionaries","sm_merge_term_infos, sm_append_postings")],
 observe=["frt_ir_terms","frt_ir_terms_from","frt_ir_term_docs_for","frt_ir_term_positions_for","frt_ir_doc_freq"])
p("C04","Term vectors describe each document exactly",
 "For every live document and every field configured to keep term vectors, the returned vector lists exactly the document's distinct terms in order with their frequencies, positions and character offsets as configured. Fields without term vectors return none, and merging, copying and reopening leave vectors unchanged.",
 ["inputs","histories","configurations"],"every document, every term-vector configuration and every segmentation history",
 "tests inspect a few vectors of fixed documents, mostly in a single segment",
 ["c/src/index.c","c/src/term_vectors.c"],
 [("vector writer","fw_add_postings, fw_write_tv_index"),("vector reader","fr_get_tv, fr_get_field_tv, fr_read_term_vector"),("copying on merge","sm_merge_fields, iw_cp_fields")],
 observe=["FrtIndexReader.term_vector","FrtIndexReader.term_vectors"])
p("C05","An open reader is a frozen snapshot that knows when it is stale",
 "A reader shows the committed state it was opened on, plus its own deletions and norm changes, until it is closed, whatever writers or other readers commit, merge, delete or remove meanwhile. It reports being the latest exactly when no other commit has been made to the index since its own state.",
 ["histories","schedules"],"every interleaving of writer operations, reader openings and reader updates",
 "tests keep one reader open over one optimise; other interleavings and the staleness flag are only sampled",
 ["c/src/index.c","c/src/fs_store.c","c/src/ram_store.c"],
 [("files opened once at reader creation","sr_setup_i, sr_open_norms, fr_open"),("unlinked files stay readable","fs_open_input, ram_open_input reference counts"),("version comparison","sr_is_latest_i, sis_read_current_version")],
 observe=["frt_ir_open","frt_ir_is_latest"])
p("C06","A crash at any point leaves the last commit readable",
 "If the process stops at any moment while indexing, committing, merging, optimising, deleting or copying indexes, the directory can still be opened and shows either the last completed commit or the commit that was in progress, complete and uncorrupted. A writer opened afterwards (once the stale lock is cleared) continues from that state.",
 ["crash_points","histories"],"every prefix of the file-system operations issued by every operation, torn final writes included",
 "tests simulate two hand-made corruptions; no test stops the process between two file operations",
 ["c/src/index.c","c/src/fs_store.c"],
 [("new files before the new segments file","iw_flush_ram_segment, iw_merge_segments, sr_commit_i"),("generation-numbered segments file","sis_write"),("fallback to an older generation","sis_find_segments_file")],
 [("segments_N","the commit record with the highest complete generation","index directory")],
 ["file-system calls of the library"])
p("C07","Opening a reader during commits always succeeds",
 "Opening a reader while another process commits, merges or optimises the same index always succeeds, and the reader presents one of the states committed during the opening (or the one current when it began), never a mixture.",
 ["schedules"],"every interleaving of the reader's file operations with the writer's",
 "tests open readers only between complete writer operations",
 ["c/src/index.c","c/src/fs_store.c"],
 [("retry on missing files","sis_find_segments_file, ir_open_i"),("deleting files only after the new segments file is in place","sis_write, deleter_commit_pending_deletions")],
 observe=["frt_ir_open"])
p("C08","One modifier at a time, and stale readers cannot write",
 "At most one writer or modifying reader holds an index at any time: any further attempt to open a writer or to modify through a reader fails with an error and neither disturbs the current holder nor frees its lock. Asking whether the index is locked, and opening or closing readers and stores, never changes who holds it. The lock is free again after the holder closes or commits, and a reader whose state is no longer current is refused any modification.",
 ["histories","schedules"],"every sequence of open, modify, commit, close and lock-query calls by any number of users of the same directory, in one or several processes",
 "tests take and release the lock once; failed attempts followed by further attempts are not exercised",
 ["c/src/index.c","c/src/fs_store.c","c/src/ram_store.c","c/src/store.c"],
 [("exclusive lock file","fs_lock_obtain, ram_lock_obtain"),("lock taken by writers and modifying readers","iw_open, ir_acquire_write_lock"),("release","iw_close, ir_commit_i")],
 observe=["frt_iw_open","frt_ir_delete_doc","frt_index_is_locked"])
p("C09","A failing file operation is reported and loses no commit",
 "When creating, writing or closing a file fails during any indexing operation, the operation raises an error rather than reporting success, and the last completed commit remains readable and complete. An operation that reports success has made its effect durable in the directory.",
 ["fault_sequences"],"every file operation of every indexing operation failing in turn",
 "no test makes a file operation fail",
 ["c/src/fs_store.c","c/src/store.c","c/src/index.c","c/src/except.c"],
 [("errors raised by the file store","fso_flush_i, fs_new_output, fso_close_i"),("error propagation","TRY/XFINALLY blocks, sis_write")],
 observe=["file-system calls of the library"])
p("C10","Housekeeping removes garbage and nothing else",
 "Every file needed by the current commit exists at all times, no unreferenced index file survives the next opening of a writer, and files in the directory that do not belong to the index are never touched by creating, clearing, writing, optimising or closing an index.",
 ["histories","crash_points","configurations"],"every history of operations and crash, with compound or loose files, deletions and norm updates",
 "one test lists files after one fixed history",
 ["c/src/index.c","c/src/fs_store.c"],
 [("garbage detection when a writer opens","deleter_find_deletable_files"),("deferred deletion","deleter_commit_pending_deletions, si_delete_files"),("index file name filter","file_name_filter_is_index_file, fs_clear, fs_clear_all")],
 observe=["directory listing"])
p("C11","Boolean, term and filtered queries match exactly",
 "A search returns exactly the live documents that satisfy the query: a term query those containing the term, a boolean query those satisfying all required clauses, no prohibited clause and at least one optional clause when nothing is required, and filtered, constant-score and match-all queries as their names say, nested to any depth. The result does not depend on segmentation or on the way the result is collected.",
 ["inputs","programs","histories"],"every query tree over every index content and segmentation",
 "tests run a fixed list of queries over eighteen documents",
 ["c/src/q_boolean.c","c/src/q_term.c","c/src/q_match_all.c","c/src/q_filtered_query.c","c/src/q_const_score.c","c/src/search.c"],
 [("boolean scorers and document-at-a-time skipping","bsc_*, csc_*, dssc_*, rssc_*, rossc_*"),("term scorer","tsc_next, tsc_skip_to"),("collection","isea_search_w, isea_search_each_w, isea_search_unscored_w")],
 observe=["FrtSearcher.search","search_each","search_unscored"])
p("C12","Phrase and span queries match by position exactly",
 "A phrase query returns exactly the live documents in which its terms occur at the required relative positions (alternatives at one position included, within the permitted slop), and span queries return exactly the documents having spans that satisfy their nearness, ordering, first-position, union and exclusion conditions. The result does not depend on segmentation.",
 ["inputs","programs","histories"],"every phrase and span query over every document content",
 "tests check a fixed list of phrases and spans over a fixed corpus",
 ["c/src/q_phrase.c","c/src/q_span.c","c/src/index.c"],
 [("exact and sloppy phrase scorers","ephsc_phrase_freq, sphsc_phrase_freq, phsc_do_next, phsc_skip_to"),("span enumerations","spante_*, spanoe_*, spanne_*, spanxe_*, spanfe_*"),("multi-term position enumeration","mtdpe_next, mtdpe_skip_to")],
 observe=["FrtSearcher.search","FrtSpanQuery.get_spans"])
p("C13","Prefix, wildcard, fuzzy and range queries expand exactly",
 "Prefix, wildcard, fuzzy, multi-term, range and typed-range queries match exactly the live documents holding at least one term that has the prefix, matches the pattern, is within the similarity, is in the list, or lies in the interval with the stated open or closed ends (compared numerically for typed ranges on numeric bounds), as long as the number of expanded terms stays within the configured maximum.",
 ["inputs","programs"],"every pattern, bound and similarity over every term dictionary",
 "tests use a dozen patterns over a fixed dictionary",
 ["c/src/q_prefix.c","c/src/q_wildcard.c","c/src/q_fuzzy.c","c/src/q_range.c","c/src/q_multi_term.c"],
 [("term enumeration from the first candidate","prq_rewrite, wcq_rewrite, fuzq_rewrite, rfilt_get_bv_i, trfilt_get_bv_i"),("pattern matching","wc_match"),("edit distance with pruning","fuzq_score"),("union scorer","multi_tsc_*")],
 observe=["FrtSearcher.search","frt_wc_match","frt_fuzq_score"])
p("C14","Ranking, paging and counting agree with one another",
 "For any query, filter and window, search returns precisely the requested slice of the list of all matches ordered by descending score and then by ascending document number; the total, the best score, the each-match iteration and the unscored scan from any starting document agree with that list. Each reported score equals the value of its explanation.",
 ["inputs","programs","configurations"],"every query, window (first, count), filter and index content",
 "tests use few windows over few hits; ties, windows past the end and heap overflow are sampled only",
 ["c/src/search.c","c/src/priorityqueue.c","c/src/q_*.c"],
 [("bounded result heap","hit_pq_insert, hit_pq_pop"),("window arithmetic","isea_search_w, msea_search_w"),("explanations","*_explain")],
 observe=["FrtSearcher.search","search_each","search_unscored","explain"])
p("C15","Sorted searches order by the requested keys",
 "A search with a sort returns the matching documents ordered by the sort keys in turn (integer, float, string, bytes, automatic type, score or document number, each ascending or reversed, ties broken by document number), and the slice for any window is a contiguous part of that order.",
 ["inputs","configurations"],"every field content, key list, direction, window, segmentation and set of searched indexes",
 "tests sort ten fixed documents",
 ["c/src/sort.c","c/src/field_index.c","c/src/search.c"],
 [("per-field value cache","field_index_get, *_field_index_handle_term"),("comparators","sf_*_compare"),("sorted heap","fshq_lt, fshq_pq_insert, fshq_pq_pop")],
 observe=["FrtSearcher.search with a FrtSort"])
p("C16","Filters restrict results to exactly their documents",
 "Searching with a filter returns exactly the matches of the query that the filter accepts, for range, typed-range and query filters, used once or reused, on any reader and in any order. A filter object reused on another reader reflects that reader's own documents.",
 ["inputs","histories"],"every query and filter pair, every sequence of uses over several readers and deletions before opening",
 "tests use each filter once on one reader",
 ["c/src/filter.c","c/src/q_range.c","c/src/search.c","c/src/q_filtered_query.c"],
 [("bit vector per reader cached by filter","filt_get_bv"),("filter application","isea_search_w, fqsc_next, fqsc_skip_to")],
 observe=["FrtSearcher.search with a FrtFilter"])
p("C17","Combining indexes equals indexing everything together",
 "Searching or reading several indexes through a multi-reader or multi-searcher, or merging them into one index, gives the same documents in the same order, the same stored fields, term vectors, postings, matches and deletion flags as a single index of the concatenated documents, even if the indexes define different fields or number them differently; deleted documents stay deleted.",
 ["inputs","histories","configurations"],"every partition of every document collection into indexes with any field sets and deletions",
 "tests combine three small indexes with compatible fields and no deletions",
 ["c/src/index.c","c/src/search.c"],
 [("field number maps and document offsets","mr_open, mr_get_field_num, mr_*"),("segment copying with field mapping","iw_add_segment, iw_cp_fields, iw_cp_terms, iw_cp_norms"),("combined searching","msea_*")],
 observe=["frt_mr_open","frt_msea_new","frt_iw_add_readers"])
p("C18","Norms record boosts and updates and survive rewriting",
 "The norm of every document and field is the encoding of its boosts and length at indexing time or the value last set through a reader; a set norm is visible at once in that reader and after commit in every later reader, for exactly that document and field, through merges, compound packing and copying.",
 ["histories","configurations"],"every history of boosts, norm updates, deletions, merges and reopens",
 "one test sets norms in a fixed index",
 ["c/src/index.c","c/src/similarity.c"],
 [("norm computation","dw_add_doc"),("norm update","sr_set_norm_i, norm_rewrite, mr_set_norm_i"),("norm merging","sm_merge_norms, iw_cp_norms")],
 observe=["frt_ir_get_norms","frt_ir_get_norms_into","frt_ir_set_norm"])
p("C19","The query language means what it says",
 "Parsing a query string yields a query whose matches are those of the structure written: operators, precedence, required and prohibited marks, fields and field lists, phrases with slop and alternatives, ranges, wildcards, fuzzies, escapes and boosts. Any byte string either parses or raises a parse error (or, in forgiving mode, yields a usable query); it never crashes, hangs or affects later parses.",
 ["inputs","programs"],"every query string and parser configuration",
 "tests check a fixed list of strings and their printed form",
 ["c/src/q_parser.y","c/src/q_parser.c"],
 [("scanner and grammar","yylex, get_word, yyparse"),("query construction","get_term_q, get_bool_q, get_phrase_q, get_r_q, bclst_add_*"),("error recovery","qp_parse, get_bad_q, qp_clean_str")],
 observe=["frt_qp_parse"])
p("C20","Analysis yields faithful tokens with exact offsets",
 "Every analyser turns any text into the tokens defined for it (whitespace, letter and standard tokenising, lower-casing, stop words, stemming, mapping, hyphen handling, per-field dispatch), each token's offsets delimit in the original text the characters it came from, offsets never go backwards, and removed words leave position gaps only as documented. Reusing a stream on another text gives the same tokens as a fresh one.",
 ["inputs","configurations"],"every text, including long words, multi-byte and malformed sequences, for every tokenizer and filter chain",
 "tests check a few fixed strings per tokenizer",
 ["c/src/analysis.c","c/src/scanner.c","c/src/scanner_mb.c","c/src/multimapper.c"],
 [("tokenizers","wst_next, mb_wst_next, lt_next, mb_lt_next, std_next, legacy_std_next"),("filters","sf_next, mf_next, hf_next, lcf_next, mb_lcf_next, stemf_next"),("per-field dispatch","pfa_get_ts")],
 observe=["FrtTokenStream.next"])
p("C21","Stores and streams read back what was written",
 "For file, memory and compound stores alike, a file reads back exactly what was written through any mixture of byte, block, integer, variable-length and string writes, seeks, rewrites, copies, renames and clones, at any position; lengths, listings and existence agree; reading past the end raises an error instead of returning data.",
 ["inputs","histories"],"every sequence of stream and store operations with values of every magnitude, across buffer boundaries",
 "tests write fixed sequences well inside or once across a buffer",
 ["c/src/store.c","c/src/fs_store.c","c/src/ram_store.c","c/src/compound_io.c"],
 [("buffering","os_write_bytes, os_flush, os_seek, is_refill, is_read_bytes, is_seek"),("variable-length integers","os_write_vint, is_read_vint, os_write_vll, is_read_vll"),("compound directory","cw_close, cmpdi_read_i, open_cmpd_store")],
 observe=["FrtStore, FrtInStream, FrtOutStream API"])
p("C22","Bit vectors behave as sets, also when negated",
 "A bit vector behaves as a set of document numbers under set, unset, get, count, and, or, xor, not (in place and copying) and scanning in either polarity, including vectors that extend indefinitely with ones; equality and hashing agree with set equality.",
 ["inputs","histories"],"every sequence of operations with any bit positions and any mixture of plain and negated vectors",
 "tests use fixed vectors and a few random ones for some operations",
 ["c/src/bitvector.c","c/include/bitvector.h"],
 [("word-wise operations with extension semantics","bv_and_i, bv_or_i, bv_xor_i, bv_not_i"),("scanning","bv_scan_next_from, bv_scan_next_unset_from"),("counting","bv_set, bv_unset, bv_recount")],
 observe=["frt_bv_* API"])
p("C23","Core collections implement their abstract types",
 "Hash tables, hash sets, bounded priority queues and dynamic arrays behave as finite maps, insertion-ordered sets, k-best heaps and sequences under every sequence of operations, including growth, collisions, deletion and re-insertion, and cloning.",
 ["histories","inputs"],"every sequence of operations with any keys, including colliding ones",
 "tests run short fixed sequences",
 ["c/src/hash.c","c/include/hash.h","c/src/hashset.c","c/src/priorityqueue.c","c/src/array.c"],
 [("open addressing with dummy entries and resizing","h_lookup, h_resize, h_del, h_set_ext"),("ordered set","hs_add, hs_rem"),("heap order and overflow","pq_insert, pq_down, pq_pop"),("growth and negative indices","ary_set_i, ary_get_i, ary_remove_i")],
 observe=["frt_h_*, frt_hs_*, frt_pq_*, frt_ary_* API"])
p("C24","Highlighting quotes the document and marks the matches",
 "Every excerpt returned by highlighting is, once tags and ellipses are removed, a contiguous part of the stored text; with the whole text requested exactly the places where the query's terms or phrases match are tagged, each once, and with excerpts no more than the requested number, non-overlapping and in text order, is returned. A document without a match yields none.",
 ["inputs","programs"],"every stored text, query, excerpt length and count",
 "tests compare a few fixed excerpts",
 ["c/src/search.c","c/src/q_*.c","c/src/index.c"],
 [("match vectors","*_get_matchv_i, matchv_compact*"),("excerpt selection","searcher_highlight, excerpt_*"),("byte-range loading of text","lazy_df_get_bytes")],
 observe=["frt_searcher_highlight"])
p("C25","The Ruby index keeps keys unique and shows every change",
 "Through the Ruby Index class, after any sequence of adds, updates, deletes by id, by number, by query or in batches, flushes, optimisations and reopenings, the index holds exactly the documents the sequence describes, at most one per key when a key is configured, and every read through the same object, or through another one after a flush, reflects all earlier changes.",
 ["histories","configurations"],"every sequence of Index calls with any key configuration, auto-flush setting and number of Index objects on one directory",
 "tests run short fixed sequences per feature",
 ["ruby/lib/ferret/index.rb","ruby/ext/r_index.c","ruby/ext/r_search.c","ruby/ext/r_store.c"],
 [("switching between writer and reader","ensure_writer_open, ensure_reader_open, ensure_searcher_open"),("key deletion before adding","add_document"),("batch and query updates","batch_update, query_update, query_delete")],
 observe=["Ferret::Index::Index"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
