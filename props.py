# Per property: the contract templates (units verified by Verus) and the scope of the bounded stand-in.
TRUST = ' Trusted: Verus and Z3, the contracts vstd assumes on std, the assumed std contracts listed in the evidence, and the extraction tool, which copies the function text from /repo on every run and lists each edit it makes.'
PROPS = {
    'P01': {
        'units': [{'templates': ['multiset'], 'modules': ['multiset', 'stdspec']}],
        'note': 'Every operation of the run-length multisets (builder, zip, union, subtract, xor, complement, transform_expand/union/shrink, count, is_empty, range iteration, coordinate mapper) is proved against its count-per-character contract for all inputs. delete_from_string and delete_from are bounded only (enumerated and random subsets up to 40 elements).' + TRUST,
        'bounded': 'delete_from_string and delete_from (string slicing / rope building) and, as a cross-check of the proof, every other operation, on subsets of up to 40 elements',
    },
    'P02': {
        'units': [{'templates': ['interval', 'multiset', 'tree', 'delta'], 'modules': ['delta', 'multiset', 'tree', 'interval', 'stdspec']}],
        'note': 'For every leaf type: apply is proved to give the concatenation its elements describe, simple_edit and the builder (delete, replace, build) to give the old text with exactly those intervals replaced, factor to split it into an insertion and a deletion that reproduce it, synthesize to take what one deletion set leaves of a union text to what another leaves, transform_expand to put every insertion at its place in the longer text and do the same to what is left of it, transform_shrink and inserted_subset to agree with it, and the lengths, summary, classification and insert/delete iterators to agree with the elements. That a tree of any leaf type is cut only where its leaves allow is a precondition.' + TRUST,
        'bounded': 'as a cross-check of the proof, every operation, on deltas of up to about 12 elements over texts of up to about 5 kB',
    },
    'P03': {
        'units': [{'templates': ['interval', 'multiset', 'tree', 'delta'], 'modules': ['delta', 'multiset', 'tree', 'interval', 'stdspec']}],
        'note': 'Transformer::transform is proved to move a position by exactly the growth of the text before it, before or after an insertion as asked; order and surviving characters are kept (lemmas over that contract); interval_untouched is proved sound. InsertDelta::transform_shrink and transform_expand are proved, each insertion at the one place (before or after what was deleted there, as asked).' + TRUST,
        'bounded': 'as a cross-check of the proof, every operation, at every position of deltas of up to about 12 elements',
    },
    'P04': {
        'units': [{'templates': ['interval', 'tree', 'rope', 'cursor', 'metrics', 'lines'], 'modules': ['rope', 'text', 'tree', 'interval', 'cursor', 'metrics', 'lines', 'stdspec']}],
        'note': 'The B-tree (from_leaf, from_nodes, merge_nodes, merge_leaves, concat, push_subseq, subseq, edit, slice, TreeBuilder) is proved for every leaf type against the sequence of elements it holds, with the invariant that heights, lengths and summaries are right and every child count is within bounds; String leaves (splitting, merging, slicing on character boundaries) and Rope::from, slice, + are proved against the string. Every method of Cursor (new, set, next_leaf, prev_leaf, next, prev, at_or_next, at_or_prev, is_boundary and the descents behind them) is proved for every leaf type and metric: the cached path is always that of the position, and the boundary found is the nearest one of the whole text. Chunk and line iteration (ChunkIter, LinesRaw, Lines), byte_at, code point access, slice_to_cow and String::from(&Rope) are proved to give back exactly the text. Debug/Display, grapheme movement and the equality used by tests are bounded only.' + TRUST,
        'bounded': 'Debug and Display, grapheme steps, and as a cross-check every other operation, on texts of up to about 40 kB and histories of up to 14 operations',
    },
    'P05': {
        'units': [{'templates': ['interval', 'tree', 'rope', 'cursor', 'metrics'], 'modules': ['rope', 'text', 'tree', 'interval', 'cursor', 'metrics', 'stdspec']}],
        'note': 'Proved: the cached line and UTF-16 counts of every node equal the counts of its text (count_newlines, count_utf16_code_units, RopeInfo::compute_info and accumulate, and through the tree invariant every node of every height), and leaf splitting never cuts a character. convert_metrics, count and count_base_units are proved for every pair of metrics over every tree (the first offset with that many units, and what the other metric counts before it); BaseMetric, LinesMetric and Utf16CodeUnitsMetric are proved to satisfy the metric laws; line_of_offset, offset_of_line and the five code point boundary functions are proved at every offset. Grapheme boundaries (unicode-segmentation) are bounded only.' + TRUST,
        'bounded': 'grapheme boundaries, and as a cross-check line/offset/UTF-16 conversions and code point boundaries at every offset, on texts of up to about 12 kB over several leaves',
    },
    'P06': {
        'units': [{'templates': ['interval', 'multiset', 'tree', 'rope', 'delta', 'engine'], 'modules': ['engine', 'delta', 'multiset', 'stdspec']}],
        'note': 'Every function of Engine but gc and merge (and what merge calls) is proved, for all histories: the deletions recorded are the replay of the edits whose groups are not undone; undo makes the text that replay and leaves every earlier revision as it was, so undoing back restores it; an edit of any retained revision does to that text what its delta says, changes no earlier revision, shows nothing when its group is undone, and is undone to the text without it; find_rev, get_rev, get_head and delta_rev_head give the revision asked for; a refused edit changes nothing. gc is bounded only. Assumed: deltas within the size limit, without empty insertions, cutting on character boundaries; fewer than usize::MAX/8 revisions; the hash of a RevId is a function of it; smallest element and symmetric difference of a BTreeSet.' + TRUST,
        'bounded': 'gc, and as a cross-check of the proof edits, undos and revisions read back, on histories of up to about 20 steps over short texts',
    },
    'P07': {
        'units': [{'templates': ['interval', 'multiset', 'tree', 'rope', 'delta', 'engine'], 'modules': ['engine', 'delta', 'multiset', 'stdspec']}],
        'note': 'Proved: an edit against any retained revision, with any number of revisions after it, only adds to the text of all characters ever inserted (so none is lost, duplicated or reordered), inserts and deletes exactly what its delta says as seen from its base revision, and a deletion by either of two concurrent edits stays. Which of two insertions at the same place comes first, and merge with its helpers (convergence of peers), are bounded only. Same assumptions as P06.' + TRUST,
        'bounded': 'merge and convergence of two or three peers, undoing after it, order of insertions at the same place, and as a cross-check concurrent edits, on histories of up to about 12 edits over short texts',
    },
    'P08': {
        'units': [{'templates': ['interval', 'index_set', 'multiset', 'tree', 'rope', 'delta', 'selection'], 'modules': ['selection', 'index_set', 'delta', 'interval', 'stdspec']}],
        'note': 'search, add_region, regions_in_range, delete_range, add_range_distinct (for regions that are not carets), collapse, clear and apply_delta, and every SelRegion method, are proved for all selections, regions, ranges and edits, with the invariant that regions are in text order and do not overlap. Conversions to and from Interval and Display are bounded only.' + TRUST,
        'bounded': 'add_range_distinct with carets, the Interval conversions, and as a cross-check every other operation, on histories of up to 16 operations over 30 positions and edits of up to 4 replacements',
    },
    'P09': {
        'units': [{'templates': ['index_set'], 'modules': ['index_set', 'stdspec']}],
        'note': 'union_one_range, delete_range, remove_n_at, minus_one_range and the iterator from either end are proved against the set of indices they stand for, with the invariant that the ranges are sorted, non-empty and disjoint. apply_delta is bounded only.' + TRUST,
        'bounded': 'apply_delta, and as a cross-check every other operation, on histories of up to 14 operations over 60 indices',
    },
    'P10': {
        'units': [{'templates': ['line_cache'], 'modules': ['line_cache', 'stdspec']}],
        'note': 'Every function of line_cache_shadow.rs (builder, edit, partial_invalidate, needs_render, the plan iterator, RenderPlan::create and request_lines) is proved line by line, for all records, plans and line ranges. Line numbers are assumed to stay below usize::MAX, and ranges to satisfy start <= end.' + TRUST,
        'bounded': 'as a cross-check of the proof, every operation, on records of up to about 40 lines, plans of up to 4000 lines and histories of up to 8 operations',
    },
    'P11': {
        'units': [{'templates': ['interval'], 'modules': ['interval', 'stdspec']}],
        'note': 'Every method of Interval and every conversion into it is proved equal to the set operation it stands for, for all bounds.' + TRUST,
        'bounded': 'Display, and as a cross-check every method and conversion on all pairs of intervals within 0..6 and random ones within 0..40',
    },
    'P12': {
        'units': [{'templates': ['deque'], 'modules': ['deque', 'stdspec']}],
        'note': 'push_back, append, reset_limit, split_off, remove and the accessors are proved to keep exactly the newest elements within the limit, for every element type, content and limit.' + TRUST,
        'bounded': 'iterators, slices, drain, retain, resize and extend, and as a cross-check every other operation, on histories of up to 40 operations with limits up to 8',
    },
    'P13': {
        'units': [{'templates': ['interval', 'tree', 'rope', 'multiset', 'delta', 'cursor', 'metrics', 'lines', 'base_cache'], 'modules': ['base_cache', 'plugin_data', 'metrics', 'stdspec']}],
        'note': 'Every function of ChunkCache is proved, for every document, chunk, question and edit: the invariant is that the chunk is a stretch of the document that begins and ends between characters, with the line it begins on and the places where lines begin in it; get_line, get_region, get_document, offset_of_line and line_of_offset answer with what the document holds or an error, and an edit (update: should_clear, simple_insert, simple_delete, update_chunk) leaves a cache true to the edited document, or empty. The peer is taken to answer truly (a contract on DataSource); that the core does so is proved of Editor::plugin_get_data and TextUnit::resolve_offset, which satisfy that contract for the text Editor::get_rev hands out (assumed). Edits are taken to be well formed deltas on the cached document that cut between characters.' + TRUST,
        'bounded': 'StateCache (states kept by line), and as a cross-check of the proof every query and update of ChunkCache, on documents of several chunks and histories of queries and edits',
    },
    'P14': {
        'units': [{'templates': ['interval', 'multiset', 'tree', 'cursor', 'rope', 'delta', 'spans'], 'modules': ['spans', 'tree', 'delta', 'interval', 'stdspec']},
                  {'templates': ['interval', 'tree', 'cursor', 'breaks'], 'modules': ['breaks', 'cursor']}],
        'note': 'Every function of spans.rs but Debug and every function of breaks.rs is proved, for all lists, lengths, leaf divisions and element types: leaves, builder and iterator of spans against the row of annotations they denote (the iterator reports stretches in order, with one annotation all along and none between them); merge gives at each place what the function makes of the two annotations there; transform gives every surviving place its annotation and no other; apply_shape is what the delta does to the row; delete_after keeps all before the first span that reaches into the interval and nothing after. Parts, edits and concatenation are those of the tree, proved for every leaf. BreaksLeaf, BreaksMetric, BreaksBaseMetric and BreakBuilder are proved against the positions put in, and with the cursor and count contracts every break is found at its position. merge is proved for functions without state (Fn in place of FnMut). Assumed: the clone of an annotation equals it. Two neighbouring spans with equal annotations are one row to these contracts; that they are reported as two is bounded.' + TRUST,
        'bounded': 'the exact intervals reported, Clone, and as a cross-check building, parts, edits, concatenation, merge, transform, apply_shape, delete_after and breaks in both directions, on up to 2500 spans or breaks over several levels of the tree',
    },
    'P15': {
        'units': [{'templates': ['interval', 'multiset', 'tree', 'rope', 'delta', 'compare', 'diff'], 'modules': ['compare', 'diff', 'delta', 'stdspec']}],
        'note': 'ne_idx, ne_idx_rev and each of their vector and plain variants are proved to give the first difference from either end, at every length, without reading outside the slices (the mask produced by the vector instructions is assumed). DiffBuilder is proved: from stretches the texts have in common it builds a delta that turns the base into the target, with copies in base order; longest_increasing_region_set is proved to pick a subsequence in order. RopeScanner, expand_match and compute_delta (hash map of lines) are bounded only.' + TRUST,
        'bounded': 'RopeScanner in both directions, find_min_diff_range, compute_delta with apply and factor, on texts of up to about 4 kB over several leaves and up to 17 long lines; and as a cross-check the byte comparisons up to 140 bytes at page edges',
    },
    'P16': {
        'units': [{'templates': ['interval', 'tree', 'rope', 'cursor', 'metrics', 'lines', 'find'], 'modules': ['find', 'metrics', 'cursor', 'stdspec']}],
        'note': 'find, find_progress, find_progress_iter, find_core, compare_cursor_str, compare_cursor_str_casei and scan_lowercase are proved for every rope (however it is divided), needle, start position and both modes: the position found is a match, no position from the start up to it is one, the cursor ends right after the match, and a suspended search has passed over no match and has moved on. A case-insensitive match is one of the texts folded character by character. What is assumed of char::to_lowercase (that it gives at least one character, and which characters fold to an ASCII one) is checked for every character there is on every run. Searches by regular expression are outside the property.' + TRUST,
        'bounded': 'as a cross-check of the proof, find, find_progress and matching in place, on texts of up to about 6 kB over several leaves; core-lib keeps its own list of occurrences, which is not examined',
    },
    'P17': {
        'units': [{'templates': ['interval', 'tree', 'rope', 'multiset', 'index_set', 'delta', 'selection', 'cursor', 'metrics', 'lines', 'find', 'words', 'backspace', 'editops'], 'modules': ['words', 'backspace', 'editops', 'metrics', 'cursor', 'stdspec']}],
        'note': 'offset_for_delete_backwards is proved against a declarative grammar of units read backwards (unit in contracts/backspace.vt), for every text, caret and setting, and delete_backward to delete the union of what each region calls for and nothing else; WordCursor (prev_boundary, next_boundary, select_word) against the nearest position where a word starts or ends, and the character classes and is_in_asc_list against their definitions. Texts are taken to be under 2 GiB (an i32 counts the characters). Of the emoji tables is assumed that they are sorted, which is checked for the real tables on every run. region_movement takes a trait object and the grapheme boundaries come from another crate: movement is bounded only.' + TRUST,
        'bounded': 'movement in all its kinds over texts of up to 30 parts (emoji, joiners, modifiers, flags, line breaks) and over the edge of a leaf, against graphemes of the whole text; and as a cross-check of the proofs, backspace with one and many carets and words, on the same texts',
    },
    'P18': {
        'units': [{'templates': ['interval', 'tree', 'rope', 'cursor', 'metrics', 'lines', 'find', 'unicode'], 'modules': ['unicode', 'cursor']}],
        'note': 'LineBreakIterator, LineBreakLeafIter, linebreak_property, linebreak_property_str and core-lib LineBreakCursor are proved against one specification: a pass of the state machine over the whole text. Lemmas over those contracts: the breaks increase, lie on character boundaries and end with the end of the text (lemma_all_ok); from any of them the rest is found (lemma_resume_all); a piece either holds the next break of the whole or passes on the state (lemma_pieces); over a rope with any leaves the cursor reports the breaks of the text. Of the tables is assumed what axiom_tables, axiom_step_eqv and axiom_step_break say; each is checked for every entry of the real tables on every run. That the tables are those of UAX 14 is not part of the property.' + TRUST,
        'bounded': 'as a cross-check, texts over every line break class cut into pieces, resumed at each break, and ropes of a few kB; the private LineBreakCursor is copied out of linewrap.rs text for text by harness/build.rs',
    },
}
NOT_APPLICABLE = {
    'P19': 'the code that decides it is generated by serde derive macros and runs inside serde/serde_json; no contract on this repository\'s functions can express or discharge it within the verifier\'s reach',
    'P20': 'a property of thread interleavings and I/O faults (std mutex/condvar, channels, blocking readers): sequential contracts cannot express it here, and Verus has no contracts for these std primitives without a rewrite of the code',
    'P21': 'a property of the file system at crash points; the functions are sequences of std::fs calls whose contracts would have to be assumed wholesale, so nothing about the crash behaviour would be decided',
}
for _i in ['P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18']:
    if _i not in PROPS:
        NOT_APPLICABLE[_i] = 'contracts not written yet'
