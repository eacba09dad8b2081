import json
def P(id,title,statement,over,text,why,files,state,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
L=[]
L.append(P('P01','Character multisets combine, transport and map coordinates exactly',
 "A set of deleted or inserted characters behaves as one count per character of its base text: union, difference, xor, complement, expansion through and shrinking by another set, counting, range iteration and deletion from a text all give the count-by-count result, whatever runs the set is stored as. Two sets are equal exactly when their counts are equal. Coordinate mapping gives, for every coordinate including ones past the end, the number of selected characters before it.",
 ['inputs'],'all sets over all base lengths, all pairs of sets on the same base, all non-decreasing coordinate sequences',
 'unit tests check a dozen hand-written sets; the run-length form has a case per alignment of run boundaries and the guarantee is for every pair of run lists',
 ['rust/rope/src/multiset.rs'],[('segments','run-length list of counts','rust/rope/src/multiset.rs Subset')],
 [('SubsetBuilder::push_segment','rust/rope/src/multiset.rs'),('ZipIter::next','rust/rope/src/multiset.rs'),('Subset::transform','rust/rope/src/multiset.rs'),('Mapper::doc_index_to_subset','rust/rope/src/multiset.rs')],
 ['Subset methods','serde form of Subset']))
L.append(P('P02','Applying a delta gives exactly the text its elements describe',
 "A delta describes a new text as copied stretches of the old text and inserted texts; applying it gives exactly that concatenation, and its reported lengths, summary interval and classification (identity, simple insert, simple delete) agree with it. Building a delta by deletions and replacements of disjoint intervals gives the text with exactly those intervals replaced. Factoring a delta into an insertion and a deletion, and synthesizing a delta back from tombstones and two deletion sets, both reproduce the same text.",
 ['inputs'],'all base texts, all well-formed deltas, all disjoint edit sequences, all pairs of deletion sets',
 'the tests apply a handful of fixed edits to one string; the composition of copies, gaps and insertions at equal positions is combinatorial',
 ['rust/rope/src/delta.rs','rust/rope/src/multiset.rs'],[('els','list of Copy and Insert elements','rust/rope/src/delta.rs Delta')],
 [('Delta::apply','rust/rope/src/delta.rs'),('Delta::factor','rust/rope/src/delta.rs'),('Delta::synthesize','rust/rope/src/delta.rs'),('Builder::delete/replace/build','rust/rope/src/delta.rs'),('Delta::summary','rust/rope/src/delta.rs')],
 ['Delta::apply','Delta::factor','Delta::summary']))
L.append(P('P03','Positions and pending insertions carry over an edit without drift',
 "Carrying a position over a delta moves it exactly as far as the text before it grew or shrank, keeps positions in order, keeps every surviving character's position on that character, and places a position at an insertion before or after the new text as asked. An interval reported untouched has no insertion or deletion strictly inside it or across its ends, and what lies inside an untouched first stretch is reported so. Carrying a pending insertion over another deletion or insertion set puts each inserted text at the place where the characters around it went.",
 ['inputs'],'all deltas, all positions up to and past the end, both placements, all pairs of concurrent insertions',
 'tests transform a few positions through three-element deltas; the guarantee is about every alignment of element boundaries and positions',
 ['rust/rope/src/delta.rs'],[('els','copied and inserted elements','rust/rope/src/delta.rs')],
 [('Transformer::transform','rust/rope/src/delta.rs'),('Transformer::interval_untouched','rust/rope/src/delta.rs'),('InsertDelta::transform_expand','rust/rope/src/delta.rs'),('InsertDelta::transform_shrink','rust/rope/src/delta.rs')],
 ['Transformer','InsertDelta::apply']))
L.append(P('P04','A rope is indistinguishable from the string it holds',
 "Building, concatenating, slicing, editing and iterating a rope gives the same text as the same operations on an ordinary string, for texts of every size, and a shared copy of a rope never changes when another is edited. The tree stays balanced with correct cached lengths and never splits a character across pieces. Walking it by cursor in either direction visits every position and boundary in order.",
 ['inputs','histories'],'all texts, all sequences of edits, slices and concatenations, including those that split and join leaves at every level',
 'the tests build a few ropes, mostly smaller than one leaf; rebalancing depends on sizes and on the shape left by earlier edits',
 ['rust/rope/src/tree.rs','rust/rope/src/rope.rs'],[('NodeBody','height, length, info, children or leaf','rust/rope/src/tree.rs')],
 [('Node::concat','rust/rope/src/tree.rs'),('Node::push_subseq','rust/rope/src/tree.rs'),('TreeBuilder','rust/rope/src/tree.rs'),('Cursor','rust/rope/src/tree.rs'),('String::push_maybe_split','rust/rope/src/rope.rs'),('find_leaf_split','rust/rope/src/rope.rs')],
 ['Rope as String','Cursor']))
L.append(P('P05','Line, UTF-16 and character coordinates agree with the text',
 "Converting between byte offsets and line numbers, UTF-16 offsets or character positions gives the values obtained by scanning the whole text, for every offset on a character boundary and for texts of every size. Next and previous character boundaries are the nearest ones, and no conversion ever lands inside a character.",
 ['inputs'],'all texts, all offsets and line numbers in range, any placement of multi-byte characters and newlines relative to internal piece boundaries',
 'tests use short ASCII-heavy strings held in a single leaf; errors appear at piece boundaries and with multi-byte characters',
 ['rust/rope/src/rope.rs','rust/rope/src/tree.rs'],[('RopeInfo','cached line and UTF-16 counts','rust/rope/src/rope.rs')],
 [('Metric for BaseMetric/LinesMetric/Utf16CodeUnitsMetric','rust/rope/src/rope.rs'),('Node::convert_metrics','rust/rope/src/tree.rs'),('len_utf8_from_first_byte','rust/rope/src/rope.rs')],
 ['Rope::line_of_offset','Rope::offset_of_line','Rope::count','Rope::prev/next_codepoint_offset']))
L.append(P('P06','Every revision stays readable and undo removes exactly its group',
 "After any sequence of edits, undo sets and garbage collections, the current text equals the replay of the edits whose groups are not undone, re-doing a group restores its effect, and every earlier revision can still be reproduced unchanged as long as no collection has run since; a collection never changes the current text, nor what undoing or redoing the groups it keeps gives. An edit against an unknown revision or with a mismatched length is refused and changes nothing.",
 ['histories','inputs'],'all sequences of edits against any retained revision, any undo group assignments, any undo/redo sets and collections',
 'tests replay a few fixed histories; each guarantee is about the whole history, whose interleavings are unbounded',
 ['rust/rope/src/engine.rs'],[('Engine','text, tombstones, deletes_from_union, revs, undone_groups','rust/rope/src/engine.rs')],
 [('Engine::mk_new_rev','rust/rope/src/engine.rs'),('Engine::compute_undo','rust/rope/src/engine.rs'),('Engine::gc','rust/rope/src/engine.rs'),('shuffle, shuffle_tombstones','rust/rope/src/engine.rs')],
 ['Engine::get_head','Engine::get_rev','Engine::try_edit_rev','Engine::delta_rev_head']))
L.append(P('P07','Concurrent edits keep everyone\'s characters and peers converge',
 "Edits made concurrently against the same revision all take effect: no inserted text is lost or duplicated, no character deleted by either survives, characters keep their relative order, and insertions at the same place are ordered by priority. Peers that make edits independently from a common start and then merge each other's histories, any number of times and in any order, end with the same text once each has all edits, and undoing a group then takes out the same on each (peers that undo or collect before merging are outside what merge supports).",
 ['histories','schedules'],'all pairs of concurrent edits, all histories of several peers and all merge points',
 'tests merge a few fixed histories; convergence is a statement about every interleaving',
 ['rust/rope/src/engine.rs','rust/rope/src/delta.rs'],[('revs','edit history','rust/rope/src/engine.rs')],
 [('Engine::mk_new_rev','rust/rope/src/engine.rs'),('Engine::merge, rearrange, rebase, compute_deltas','rust/rope/src/engine.rs')],
 ['Engine::get_head','Engine::merge']))
L.append(P('P08','Selections stay sorted, disjoint and cover what was selected',
 "A selection's regions are always in text order and never overlap; adding a region merges it with exactly the regions it meets and loses no selected text or caret. Queries by range return exactly the regions that meet it, removal removes exactly those, and carrying a selection over an edit keeps these guarantees with every endpoint moved as the edit moves it.",
 ['inputs','histories'],'all sequences of regions added, removed and carried over deltas, including carets, empty regions, shared endpoints and reversed regions',
 'tests check a few fixed sequences; the merging rule has many boundary cases that interact',
 ['rust/core-lib/src/selection.rs'],[('regions','sorted region list','rust/core-lib/src/selection.rs')],
 [('Selection::add_region','rust/core-lib/src/selection.rs'),('Selection::search','rust/core-lib/src/selection.rs'),('Selection::add_range_distinct','rust/core-lib/src/selection.rs'),('SelRegion::should_merge/merge_with','rust/core-lib/src/selection.rs')],
 ['Selection as slice of regions']))
L.append(P('P09','Range sets hold exactly the indices put in and not taken out',
 "A range set contains exactly the union of the ranges added minus the ranges removed, kept as sorted, separated, non-empty ranges. Subtracting it from a range enumerates exactly the uncovered stretches, from either end. Carrying it over an edit keeps exactly the surviving members at their new places.",
 ['inputs','histories'],'all sequences of added and removed ranges, all queried ranges, all deltas',
 'tests use a few fixed ranges; correctness depends on how each new range straddles existing ones',
 ['rust/core-lib/src/index_set.rs'],[('ranges','sorted disjoint ranges','rust/core-lib/src/index_set.rs')],
 [('IndexSet::union_one_range','rust/core-lib/src/index_set.rs'),('IndexSet::delete_range','rust/core-lib/src/index_set.rs'),('MinusIter','rust/core-lib/src/index_set.rs')],
 ['IndexSet::get_ranges','IndexSet::minus_one_range']))
L.append(P('P10','The record of what the frontend caches is never wrong about a line',
 "The record kept of the frontend's line cache covers a stretch of lines in order without gaps or overlaps; an edit of lines, a partial invalidation and a new span change the validity of exactly the lines they name. A render plan visits every line once, in order, renders everything in and near the visible window that is not already valid, and reuses a cached line only when the frontend still holds it at the stated position.",
 ['histories','inputs'],'all sequences of edits, invalidations, scrolls and renders, all document heights and window positions',
 'tests cover a few line counts; the span list is rewritten by every update and an error shows only on a later render',
 ['rust/core-lib/src/line_cache_shadow.rs'],[('spans','validity of runs of lines','rust/core-lib/src/line_cache_shadow.rs')],
 [('Builder::add_span','rust/core-lib/src/line_cache_shadow.rs'),('LineCacheShadow::edit/partial_invalidate/needs_render','rust/core-lib/src/line_cache_shadow.rs'),('PlanIterator::next','rust/core-lib/src/line_cache_shadow.rs'),('RenderPlan::create/request_lines','rust/core-lib/src/line_cache_shadow.rs')],
 ['update ops sent to the frontend']))
L.append(P('P11','Interval operations are set operations on positions',
 "Intervals behave as half-open sets of positions: intersection, union, prefix, suffix, containment, before and after tests, translation and size give the set-theoretic answer for every pair, including empty intervals and every kind of range they are made from, and a reversed interval is refused.",
 ['inputs'],'all pairs of intervals over the full machine range, all range forms',
 'tests check fixed pairs; the guarantees are universally quantified over endpoints, where off-by-one and overflow cases hide',
 ['rust/rope/src/interval.rs'],[('start,end','half-open bounds','rust/rope/src/interval.rs')],
 [('Interval methods and conversions','rust/rope/src/interval.rs')],['Interval']))
L.append(P('P12','The trace buffer keeps the most recent samples within its limit',
 "The trace buffer never holds more than its limit, always holds the most recently pushed samples in order, and drops only the oldest; changing the limit keeps the newest ones that still fit, and draining empties it in order.",
 ['histories'],'all sequences of pushes, drains and limit changes, all limits including zero',
 'tests use a limit of a few entries; the storage is a ring with reserved capacity and wraps differently for each limit and history',
 ['rust/trace/src/fixed_lifo_deque.rs'],[('storage, limit','ring buffer','rust/trace/src/fixed_lifo_deque.rs')],
 [('FixedLifoDeque::push_back/push_front/reset_limit/drop_excess','rust/trace/src/fixed_lifo_deque.rs')],['FixedLifoDeque iteration']))
L.append(P('P13','A plugin\'s partial view of the document is always true to it',
 "Whatever lines and offsets a plugin asks for, and however the document is edited in between, every line, offset and line number its cache returns equals that of the current document; an edit it cannot follow makes it forget, never answer from stale text.",
 ['histories','inputs'],'all documents larger than one chunk, all interleavings of queries and edits',
 'tests use a chunk size shrunk for tests and fixed edits; staleness depends on how the edit straddles the cached chunk',
 ['rust/plugin-lib/src/base_cache.rs'],[('ChunkCache','cached contents, offset, first line, line offsets','rust/plugin-lib/src/base_cache.rs')],
 [('ChunkCache::get_line/offset_of_line/line_of_offset/update','rust/plugin-lib/src/base_cache.rs')],['DataSource / ChunkCache queries']))
L.append(P('P14','Styled spans and break lists follow the text they annotate',
 "Spans placed in order on disjoint, non-empty text intervals are reported for exactly those intervals, in order; merging two layers gives at every position the combination of both layers there, and where only one has an annotation what is made of that one alone; restricting to a sub-interval, replacing a part and carrying over an edit keep each annotation on its surviving characters and on no other surviving character; and stored line breaks are found at exactly the positions put in, forwards, backwards and by count, after any slicing and editing.",
 ['inputs','histories'],'all span lists, merges, slices and edits; all break lists',
 'tests hold a few spans in one leaf; merging overlaps and leaf splits are combinatorial',
 ['rust/rope/src/spans.rs','rust/rope/src/breaks.rs'],[('SpansLeaf, BreaksLeaf','annotations per leaf','rust/rope/src/spans.rs')],
 [('Spans::merge, transform, apply_shape','rust/rope/src/spans.rs'),('SpansLeaf::push_maybe_split','rust/rope/src/spans.rs'),('SpansBuilder::add_span','rust/rope/src/spans.rs'),('BreaksLeaf::push_maybe_split','rust/rope/src/breaks.rs')],['Spans::iter','Breaks cursor']))
L.append(P('P15','Text comparison and diff reconstruct the target',
 "Comparing two ropes from either end reports exactly how far they agree, at every size and alignment, and the difference computed between two texts, applied to the first, gives the second exactly; it copies parts of the first in order and without overlap, so that it can be recorded as an edit.",
 ['inputs'],'all pairs of texts, in particular ones that differ at vector-width and piece boundaries',
 'tests compare a few strings; the fast paths switch on length and alignment',
 ['rust/rope/src/compare.rs','rust/rope/src/diff.rs'],[('RopeScanner','two chunk cursors','rust/rope/src/compare.rs')],
 [('ne_idx_fallback, ne_idx_rev_fallback','rust/rope/src/compare.rs'),('RopeScanner','rust/rope/src/compare.rs'),('LineHashDiff::compute_delta, DiffBuilder','rust/rope/src/diff.rs')],['RopeScanner::find_ne_char*','compute_delta']))
L.append(P('P16','Search finds every occurrence that is there and none that is not',
 "Searching a rope for a text from any position returns the first occurrence at or after it and nothing else, for both case-sensitive and case-insensitive search, wherever the occurrence lies relative to internal pieces.",
 ['inputs'],'all texts, needles and starting positions','tests search short texts in one leaf; occurrences across piece boundaries and multi-byte case folding are rare',
 ['rust/rope/src/find.rs'],[('CaseMatching','search mode','rust/rope/src/find.rs')],
 [('find, find_core, scan_lowercase, compare_cursor_str','rust/rope/src/find.rs')],['find']))
L.append(P('P17','Deleting and moving never leave a caret inside a character',
 "One press of backspace removes, at every caret, the whole character unit that ends there (a joined or modified emoji, flag, keycap, variation sequence, tag sequence or line break pair counts as one) or, with tab stops on, the spaces back to the previous tab stop, at every other region the region, and nothing else; word movement goes to the nearest word boundary in its direction, a word selection ends at word boundaries, and every caret movement lands on a character boundary within the text.",
 ['inputs'],'all texts and caret positions, all combinations of emoji, joiners, modifiers, flags and variation selectors',
 'tests list fixed sequences; the state machine is driven by arbitrary code point sequences read backwards',
 ['rust/core-lib/src/backspace.rs','rust/core-lib/src/word_boundaries.rs','rust/unicode/src/lib.rs'],[('State','backspace automaton state','rust/core-lib/src/backspace.rs')],
 [('offset_for_delete_backwards','rust/core-lib/src/backspace.rs'),('WordCursor','rust/core-lib/src/word_boundaries.rs')],['edit commands delete_backward, move_word_*']))
L.append(P('P18','Line break opportunities are the same however the text is fed',
 "The line breaker reports the same break positions, in order and on character boundaries, ending with one at the end of the text, whether the text is scanned whole, resumed from any earlier break or fed in pieces of any size.",
 ['inputs'],'all texts and all ways of cutting them into pieces','tests feed a few strings; the incremental iterator carries state across pieces',
 ['rust/unicode/src/lib.rs','rust/core-lib/src/linewrap.rs'],[('LineBreakLeafIter','offset and state','rust/unicode/src/lib.rs')],
 [('LineBreakIterator::next','rust/unicode/src/lib.rs'),('LineBreakLeafIter::next','rust/unicode/src/lib.rs'),('linebreak_property_str','rust/unicode/src/lib.rs')],['LineBreakIterator','LineBreakLeafIter']))
L.append(P('P19','Edits and queries travel over JSON unchanged',
 "Deltas, subsets, spans and commands read back from their serialized form equal what was written, and malformed messages are refused with an error instead of a crash.",
 ['inputs'],'all values and all malformed inputs','tests round-trip a few values',
 ['rust/rope/src/serde_impls.rs','rust/core-lib/src/rpc.rs','rust/rpc/src/parse.rs'],[],[('Serialize/Deserialize impls','rust/rope/src/serde_impls.rs')],['JSON on the wire']))
L.append(P('P20','Every request is answered once, and messages keep their order',
 "Each request sent to a peer receives exactly one response carrying its own id, responses are never delivered to another request, notifications are handled in the order received, and when the connection ends every waiting request is released with an error.",
 ['schedules','fault_sequences'],'all interleavings of the reader and writer threads, and a disconnect at any point',
 'tests run a few exchanges on one schedule','rust/rpc/src/lib.rs'.split(),[('RpcState','pending table, queues','rust/rpc/src/lib.rs')],[('RawPeer, RpcLoop::mainloop','rust/rpc/src/lib.rs')],['wire traffic']))
L.append(P('P21','Saving never leaves a damaged file',
 "A save that fails or is interrupted at any point leaves either the complete old file or the complete new file in place, with its text equal to the buffer and its encoding mark preserved.",
 ['crash_points','fault_sequences'],'every point at which the process or a system call can fail','tests never inject a failure',
 ['rust/core-lib/src/file.rs'],[],[('FileManager::save, try_save','rust/core-lib/src/file.rs')],['file on disk']))
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
