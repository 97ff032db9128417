"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
S = "src/gaspra/"
prop("C01", "A diff or change script reproduces both texts exactly",
 "For any two token sequences of the same kind (text, bytes, or tuples of tokens), the diff read with its insertions is the modified sequence and read with its deletions is the original. The change script derived from them, stripped for one direction and applied to the original, gives exactly the modified sequence; stripped for the other direction and applied to the modified, it gives exactly the original.",
 ["inputs"], "every pair of finite sequences of the same kind, all lengths and alphabets",
 "The tests check 7 fixed pairs (and 2 with 50 random letters); correctness for every pair needs the split into prefix/common/suffix to be right at every recursion step, including empty pieces, repeated matches and every boundary.",
 [S+"changesets.py", S+"suffix_automaton.py"],
 [("recursive split at a common substring", S+"changesets.py find_changeset"), ("direction stripping and application", S+"changesets.py strip_forward/strip_reverse/apply/join_changes"), ("streams", S+"changesets.py Changeset/ChangesetLeaf *_stream")],
 observe=["diff_token_sequences()", "apply_forward()/apply_reverse()"])
prop("C02", "The longest-common-substring search is exact",
 "For any two sequences, the pairwise LCS search reports a substring that really occurs at both reported positions, and no common substring is longer. The reported position in the first sequence is that substring's first occurrence there, the position in the second is the earliest at which any common substring of that length starts, and sequences with nothing in common give (0, 0, 0).",
 ["inputs"], "every pair of finite sequences over any alphabet",
 "Tests check local maximality on three pairs; a wrong automaton state (a missed split or an unredirected transition) only shows on particular repetition structures that no sample list covers.",
 [S+"suffix_automaton.py", S+"wrappers.py"],
 [("online suffix automaton construction", S+"suffix_automaton.py build/extend/insert_node"), ("matching walk along suffix links", S+"suffix_automaton.py find_lcs")],
 state=[("Node", "equivalence class of substrings with the same end positions", S+"suffix_automaton.py")],
 observe=["gaspra.find_lcs()", "suffix_automaton.find_lcs()"])
prop("C03", "Substring search finds every occurrence and nothing else",
 "For any text and query, the single search returns the first position at which the query occurs, or None exactly when it does not occur. The exhaustive search returns all positions where the query occurs, each once, in ascending order, and nothing else.",
 ["inputs"], "every text and every query, including empty and overlapping occurrences",
 "Completeness (no occurrence missed) is a statement about all positions of all texts; tests list the expected tuple for eight pairs and otherwise only check that what was found is right.",
 [S+"suffix_automaton.py", S+"wrappers.py"],
 [("state lookup", S+"suffix_automaton.py _find_match_node"), ("reverse suffix-link closure", S+"suffix_automaton.py follow_reverse_links/add_reverse_links"), ("de-duplication", S+"suffix_automaton.py dedup_sorted")],
 observe=["gaspra.find_substring()", "suffix_automaton.find_substring()/find_substring_all()"])
prop("C04", "The n-way longest common substring is common, maximal and well placed",
 "For any non-empty collection of sequences, the n-way LCS search returns a length and one position per sequence such that the same substring of that length starts at each position, no longer substring is common to all of them, and each position is the first occurrence of that substring in its sequence. The empty collection gives no positions and no length.",
 ["inputs"], "every finite collection of finite sequences, any alphabet",
 "Nine fixed collections are tested; membership propagation over the whole automaton and the position arithmetic over the concatenation must be right for every collection.",
 [S+"multiple_strings.py", S+"suffix_automaton.py"],
 [("separator-terminated concatenation", S+"multiple_strings.py concatenate_strings"), ("membership sets computed child-first", S+"multiple_strings.py find_lcs/update_shared_strings"), ("offset translation", S+"multiple_strings.py get_string_offsets")],
 observe=["gaspra.find_lcs_multiple()"])
prop("C05", "The index of a text accepts exactly its suffixes and stays linear in size",
 "For any sequence, the index built from it accepts a sequence in an accepting state exactly when it is a suffix of the input, and can follow a sequence at all exactly when it is a substring. Its number of states is at most twice the input length plus one.",
 ["inputs"], "every finite input sequence",
 "The tests enumerate the suffixes of three short strings; the size claim is only covered by a timing test on one random string.",
 [S+"suffix_automaton.py"],
 [("terminal marking along suffix links", S+"suffix_automaton.py mark_terminal_nodes"), ("one new state and at most one clone per token", S+"suffix_automaton.py extend/insert_node")],
 observe=["suffix_automaton.build()"])
prop("C06", "A three-way merge never mixes, drops or invents text",
 "For any parent and two branches, the three sequences can be cut into the same number of aligned segments so that the merge output is, segment by segment: the common text where the branches agree, the changed text where only one branch differs from the parent, and otherwise a conflict. In every conflict the first alternative is the first branch's text and the second alternative the second branch's text of that segment (text the two alternatives share may be factored out).",
 ["inputs"], "every triple of sequences of the same kind (text, bytes, tuples)",
 "Tests compare about 40 small triples with expected output; which branch each side of a conflict comes from depends on which change is longer and who leads, a combination the samples do not enumerate.",
 [S+"merge.py", S+"changesets.py"],
 [("pairwise consumption of two edit scripts", S+"merge.py _merge/process_fragments"), ("conflict resynchronisation", S+"merge.py pending_conflict/copy_change/ordinary_conflict"), ("consolidation", S+"merge.py consolidate_conflicts/consolidate_all")],
 observe=["merge_token_sequence()"])
prop("C07", "Independent edits merge without conflict",
 "If one branch equals the parent, the merge is exactly the other branch; if both branches are equal, it is exactly that branch; in both cases there is no conflict. More generally, when no change of one branch overlaps or touches a change of the other (as reported by the diffs from the parent), the merge has no conflict and is the parent with all changes of both branches applied.",
 ["inputs"], "every parent and branch, and every pair of branches whose diffs from the parent do not touch",
 "The tests sample a few single-letter edits; absence of spurious conflicts for every arrangement of independent edits, including inserts at the ends and empty parents, is not sampled.",
 [S+"merge.py", S+"changesets.py"],
 [("copy/change interaction", S+"merge.py copy_copy/copy_change/change_change"), ("flush", S+"merge.py flush_remaining"), ("identical and composable changes", S+"merge.py are_identical_changes/compose_changes")],
 observe=["merge_token_sequence()"])
prop("C08", "Every stored version is retrieved bit for bit, whatever is added later",
 "After any history of additions in which each new version has a fresh tag and is based on nothing or on any version stored before, retrieving any tag added so far returns exactly the bytes that were stored under it, with any of the supplied tokenizers. A tag that was never added is reported as absent and retrieves as None.",
 ["histories", "inputs", "configurations"], "every sequence of additions (several independent or branching lineages), every content, every supplied tokenizer",
 "One six-version linear history is tested per tokenizer; re-rooting, splitting of long chains and re-encoding of stored deltas interact over long histories and particular contents.",
 [S+"versions.py", S+"memory_tree.py", S+"changesets.py", S+"serialize.py", S+"tokenizers.py"],
 [("re-rooting with reverse deltas", S+"versions.py Versions.add/_add_edge"), ("replay of deltas along a path", S+"versions.py Versions._retrieve_using_path"), ("splitting", S+"memory_tree.py MemoryTree.get_split")],
 state=[("head_version", "verbatim contents of roots", S+"versions.py"), ("diffs", "serialized delta from the parent", S+"versions.py"), ("tree", "which version is delta-encoded against which", S+"memory_tree.py")],
 observe=["Versions.get()", "Versions.__contains__()"])
prop("C09", "The version tree stays a forest with consistent paths and metrics",
 "After any history of additions, the path reported for each stored tag is duplicate free, starts at a head, ends at the tag, and every prefix of it is the path of the tag it ends at. The recorded base of a version is the one given when it was added, and the node chosen for splitting is the middle one (the later of the two middle ones when their number is even) of a longest downward path from the starting tag, reported together with the part of that path that leads to it. The height and the size kept for each tag are the length of a longest downward path from it and the number of tags at or below it.",
 ["histories"], "every sequence of additions of new tags and of re-parentings of a stored tag to no parent or to a stored tag that is not below it, as the version store performs them",
 "The tests follow one ten-tag lineage; a stale child list or height would surface only after particular re-parenting orders.",
 [S+"memory_tree.py", S+"versions.py"],
 [("re-parenting", S+"memory_tree.py MemoryTree.change_parent"), ("metric maintenance", S+"memory_tree.py MemoryTree._update_metrics"), ("path and split queries", S+"memory_tree.py MemoryTree.path_to/get_split")],
 state=[("nodes", "parent, children, height, size per tag", S+"memory_tree.py")],
 observe=["Tree.path_to()", "Tree.get_split()", "Tree.base_version()"])
prop("C10", "Variable-length integers decode to what was encoded",
 "Every integer from 0 to 2**64-1 is encoded to a byte string which, followed by any other bytes, decodes to that integer and exactly those other bytes. Any proper prefix of an encoding is rejected with an error, and integers outside the range are refused with an error rather than encoded.",
 ["inputs"], "all 2**64 values and every trailing byte string; all integers outside the range",
 "Twenty values are tested, without trailing bytes; the encoding has nine ranges with their own arithmetic.",
 [S+"serialize.py"],
 [("encoder", S+"serialize.py vserialize_int"), ("decoder", S+"serialize.py vdeserialize_int")],
 observe=["vserialize_int()", "vdeserialize_int()"])
prop("C11", "A serialized change script decodes to the same script",
 "For every change script made of byte strings and slices, in any order and number, decoding its serialization yields the same items in the same order, with only empty byte strings and empty slices left out. Two serializations are equal only if the scripts are equal up to those empty items, and the decoder fails with its documented error, rather than yielding a wrong last item, on a stream that ends inside an item.",
 ["inputs"], "every finite sequence of byte strings and slices with bounds below 2**64; every truncation point",
 "Five scripts are tested; alternation padding (two slices or two byte strings in a row, leading slice, empties) must keep encoder and decoder in step for every script.",
 [S+"serialize.py"],
 [("alternation padding", S+"serialize.py serialize_changeset"), ("decoder", S+"serialize.py deserialize_changeset")],
 observe=["serialize_changeset()", "deserialize_changeset()"])
prop("C12", "Every tokenizer is lossless, consistent and works piecewise",
 "For each tokenizer and every text or (suitably encoded) byte string, decoding the encoding returns the input, also for inputs encoded earlier with the same tokenizer. Across inputs encoded with one tokenizer, two tokens are equal exactly when the pieces of text they stand for are equal, and decoding a sequence of tokens is the concatenation of decoding them one by one. Encoding the decoded text of any contiguous run of tokens gives a run of the same pieces again.",
 ["inputs", "histories"], "every sequence of inputs given to one tokenizer, every contiguous run of tokens",
 "Seven inputs are tested, each with a fresh tokenizer; consistency across inputs and piecewise re-encoding are what diff, merge and the version store rely on and are not tested.",
 [S+"tokenizers.py"],
 [("shared dictionary encoding", S+"tokenizers.py generic_encode/generic_decode"), ("splitting", S+"tokenizers.py LineTokenizer/SymbolTokenizer/CharTokenizer/NullTokenizer")],
 observe=["Tokenizer.encode()", "Tokenizer.decode()"])
prop("C13", "Line-oriented diffs keep both texts and break only at line ends",
 "For every text-level diff (no two unchanged fragments in a row), the line-oriented form read with its insertions or with its deletions is the same text as the given diff read that way, except for at most one newline added at the very end. Every unchanged piece and both sides of every change in the line-oriented form are empty or end with a newline.",
 ["inputs"], "every alternating sequence of text fragments and changes, including empty sides, whitespace-only fragments and missing final newlines",
 "There is no test of this module; line boundaries depend on an accumulator whose state spans several fragments.",
 [S+"diff_to_lines.py"],
 [("accumulator of partial lines", S+"diff_to_lines.py DiffAccumulator"), ("fragment handling", S+"diff_to_lines.py handle_fragment/to_line_diff"), ("consolidation", S+"diff_to_lines.py consolidate")],
 state=[("partial_line_into/partial_line_from", "text of the current line on each side", S+"diff_to_lines.py")],
 observe=["to_line_diff()", "consolidated_line_diff()"])
prop("C14", "Marked-up output shows all text, in order, between its markers",
 "For every diff stream and every supplied markup style (git, coloured or plain, with or without strikeout, for a file or the console), the written output is, item by item in order, the escaped text of unchanged pieces and, for each change, the first side between its markers, the separator, and the second side between its markers, an empty side being omitted. On the console, no text or name is taken for markup: it shows as it is (control characters and tabs aside). Choosing a style always yields usable markers and never alters the styles chosen later.",
 ["inputs", "configurations"], "every diff stream (changes nested one level), every option combination",
 "Twelve small streams with one hand-made style are tested; the supplied styles and the option handling are not tested at all.",
 [S+"markup.py", S+"merge_tool.py"],
 [("stream writer", S+"markup.py markup_stream/markup_change_item/markup_changes"), ("style selection", S+"merge_tool.py get_markup_style")],
 observe=["markup_changes()", "gaspra-diff/gaspra-merge output"])
prop("C15", "Manifests and the items they name are stored and retrieved intact",
 "After any sequence of manifest additions, each under a tag that is new to the store and based on nothing or on any manifest added before, every manifest and every item added so far is retrieved exactly as given. Names may appear, disappear, change, return to an earlier item or share an item, from one manifest to the next. Names and tags are strings of Unicode characters, and no manifest tag is also an item tag.",
 ["histories", "inputs"], "every sequence of manifests over any names, contents and tags",
 "One history of four manifests over a fixed set of three names is tested.",
 [S+"manifest.py", S+"versions.py"],
 [("item base lookup in the base manifest", S+"manifest.py add_manifest"), ("document form", S+"manifest.py manifest_to_doc/doc_to_manifest")],
 observe=["add_manifest()", "get_manifest()", "Versions.get()"])
prop("C16", "The database-backed version tree behaves like the in-memory one",
 "For every sequence of operations, the SQLite-backed version tree returns the same results as the in-memory tree.",
 ["histories"], "every sequence of tree operations",
 "The shared tests run one lineage of ten tags; the SQL statements carry the logic.",
 [S+"db_tree.py", S+"db_tree_sql.py"],
 [("SQL statements", S+"db_tree_sql.py"), ("statement sequencing", S+"db_tree.py DBTree.change_parent")],
 observe=["DBTree"])
prop("C17", "A diff is in normal form: alternating, non-empty, nothing in common left over",
 "For any two sequences, the diff strictly alternates between unchanged fragments and changes, no fragment is empty and no change is empty on both sides. The inserted and the deleted text of one change have no token in common, and the change script's slices are in range and strictly increasing in both sequences.",
 ["inputs"], "every pair of finite sequences",
 "No test checks the shape beyond the item types; alternation follows from maximality of every match at every recursion step, and later stages (merge, line diff) rely on it.",
 [S+"changesets.py", S+"suffix_automaton.py"],
 [("recursion until nothing is common", S+"changesets.py find_changeset"), ("omission of empty leaves", S+"changesets.py ChangesetLeaf")],
 observe=["diff_token_sequences()", "find_changeset().as_change_stream()"])
prop("C18", "Text-level diff and merge agree with the texts for every tokenizer",
 "For every tokenizer, the high-level diff of two texts read with its insertions is the modified text and read with its deletions is the original text, independently of what kinds of input earlier calls were given. The high-level merge of three texts completes and gives exactly the decoding, with the caller's transformation applied to each piece of text, of the token-level merge.",
 ["inputs", "histories"], "every pair/triple of texts (or byte strings), every tokenizer, any earlier calls in the same process",
 "The high-level functions are not called by any test.",
 [S+"tokenizers.py", S+"changesets.py", S+"merge.py"],
 [("decode of change streams", S+"tokenizers.py decode_changes"), ("entry points", S+"tokenizers.py diff/merged")],
 observe=["tokenizers.diff()", "tokenizers.merged()"])
prop("C19", "A database-backed collection behaves like a dictionary",
 "A database-backed collection starts empty and then, whatever is done with it, answers as a dictionary from strings to bytes does: a lookup gives exactly the bytes stored last under the key, looking up or deleting a key that is not there raises KeyError and changes nothing, and membership, length and iteration (every key once, in any order) reflect the keys that are there. Every change is committed when the operation returns, and no operation changes a collection of another table of the same database.",
 ["histories", "inputs"], "every sequence of operations on collections with different table names (plain identifiers), every string key and bytes contents, over connections to one database; no change to a collection while it is iterated over",
 "The tests store two keys in one collection over one shared connection; overwriting, missing keys after earlier changes, durability and independence of tables need longer histories and a second connection.",
 [S+"db_collections.py"],
 [("statements and transactions", S+"db_collections.py DBCollection"), ("missing keys", S+"db_collections.py __getitem__/__delitem__")],
 state=[("table", "the table that holds the entries", S+"db_collections.py")],
 observe=["DBCollection"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
