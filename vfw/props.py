"""Which functions, theories and searches decide each property."""
from __future__ import annotations

from dataclasses import dataclass, field


@dataclass
class Prop:
    specs: list
    roots: list
    theories: list
    trusted: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)
    budget: int = 15
    fail_budget: int = 150
    thorough_budget: int = 300
    level_note: str = ""


BASE_TRUST = [
    "the Python-to-WhyML extraction (vfw/translate.py) and its model of Python built-ins (theory/py.mlw)",
    "Why3 1.6.0 VC generation and its SMT-LIB printer with the driver vfw/drivers/mono.drv",
    "z3 4.8.12, z3-new, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
]
BASE_ASSUME = [
    "str, bytes, tuple and list values are finite sequences of element codes; elements are compared by equality only, and equality is an equivalence (no NaN-like tokens)",
    "no MemoryError, KeyboardInterrupt or recursion limit; generators are consumed completely and their arguments are not modified meanwhile",
    "the extraction drops: docstrings, comments, annotations, exception message texts, and code under `if __name__ == '__main__'`",
]

PROPS: dict[str, Prop] = {}


def P(id, **kw):
    kw["trusted"] = BASE_TRUST + kw.get("trusted", [])
    kw["assumptions"] = BASE_ASSUME + kw.get("assumptions", [])
    kw["theories"] = ["sq", "py"] + kw["theories"]
    PROPS[id] = Prop(**kw)


BYTES_TRUST = ["int.to_bytes / int.from_bytes (big endian) as specified in theory/codec.mlw",
               "int(n / 2**k) for 0 <= n < 2**53 is the integer quotient (binary floating point, exact)"]

P("C10", specs=["serialize"], roots=["serialize.vserialize_int", "serialize.vdeserialize_int"], theories=["codec"], trusted=BYTES_TRUST,
  assumptions=["vserialize_int is called with an int"])
P("C11", specs=["serialize"], roots=["serialize.serialize_changeset", "serialize.deserialize_changeset"], theories=["codec"], trusted=BYTES_TRUST,
  assumptions=["scripts hold byte strings shorter than 2**64 and slices with 0 <= start, stop < 2**64 and no step"])

# The factories and the id generator are proved against the contracts under which build() and extend() call them.
FACTORIES = [f"suffix_automaton.{g}({k})" for g in ("Node.get_factory.factory", "wrap_node_factory.wrapped_node_factory")
             for k in ("", "length,first_endpos", "length,first_endpos,link,transitions")] + ["suffix_automaton.make_id_sequence"]
AUTO = ["optreal", "mem", "auto"]
AUTO_ASSUME = [
    "Node objects are allocated one at a time and their fields are reached through the Node object only (one automaton per region of the heap)",
    "dict and list operations used (get, [], in, copy, append, pop, sorted) behave as specified in theory/dict.mlw, theory/py.mlw and theory/mem.mlw",
    "== on Node objects is identity: the dataclass compares the id first, and ids are distinct (proved: ids are given out in order of creation)",
]
P("C02", specs=["suffix_automaton", "wrappers"], roots=["wrappers.find_lcs"] + FACTORIES, theories=AUTO, assumptions=AUTO_ASSUME)
P("C03", specs=["suffix_automaton", "wrappers"], roots=["wrappers.find_substring", "suffix_automaton.find_substring"] + FACTORIES, theories=AUTO,
  assumptions=AUTO_ASSUME)
P("C04", specs=["multiple"], roots=["multiple_strings." + f for f in ("find_lcs", "concatenate_strings", "update_shared_strings", "get_string_offsets")] + FACTORIES,
  theories=AUTO + ["pset", "multi"],
  assumptions=AUTO_ASSUME + ["no token is an instance of gaspra.types.Separator; a frozen data class of one field equals nothing of another type (the extraction refuses any other definition)",
                             "set operations (set(), add, union, |, len, in) behave as specified in theory/pset.mlw, whose axioms are proved of Why3's finite sets"])
P("C05", specs=["suffix_automaton", "wrappers"], roots=["suffix_automaton.build", "suffix_automaton._find_match_node"] + FACTORIES, theories=AUTO,
  assumptions=AUTO_ASSUME + ["all_suffixes(), which only lists the accepted words for tests, is not under contract; it is compared on concrete inputs"])
INDEX = ["suffix_automaton.build", "suffix_automaton.find_lcs"] + FACTORIES
DIFF_ASSUME = AUTO_ASSUME + [
    "find_changeset calls build and find_lcs through client contracts in which an automaton stands for its text (each build works in a heap region of its own); "
    "build and find_lcs are proved here against the heap contracts these restate",
]
P("C01", specs=["changesets"], theories=AUTO + ["codec", "diff"], assumptions=DIFF_ASSUME,
  roots=["changesets." + f for f in ("diff_token_sequences", "apply_forward", "apply_reverse", "cs.as_change_stream", "cs._stream", "old_apply_forward", "old_apply_reverse")] + INDEX)
P("C17", specs=["changesets"], theories=AUTO + ["codec", "diff"], assumptions=DIFF_ASSUME,
  roots=["changesets." + f for f in ("diff_token_sequences", "find_changeset", "cs.as_change_stream")] + INDEX)

MERGE = ["merge." + f for f in ("merge_token_sequence", "consolidate", "consolidate_all", "consolidate_conflicts", "_merge", "flush_remaining", "process_fragments",
                                "pending_conflict", "copy_copy", "copy_change", "change_change", "split_fragment", "split_copy_fragment", "split_change_fragment")]
COMMON = ["common." + f for f in ("get_joiner", "string_joiner", "bytes_joiner", "tuple_joiner", "common_prefix_length")]
STRICT = [f"merge.{f}(C06)" for f in ("merge_token_sequence", "consolidate", "consolidate_all", "consolidate_conflicts", "_merge", "flush_remaining", "process_fragments",
                                      "pending_conflict", "copy_copy", "copy_change", "change_change")]
P("C06", specs=["strict"], theories=AUTO + ["codec", "diff", "merge", "calm", "strict", "blocks", "runs"], assumptions=DIFF_ASSUME,
  level_note="Proved for all inputs: parent and branches can be cut into aligned segments such that the output is, in order, the text on which the branches agree, the changed text where one branch "
             "is as the parent, or, where the texts of both branches differ from the parent's, tokens and conflicts that read as the one branch's text on the left and the other's on the right "
             "(theory/blocks.mlw: xgives). A run of conflicts begins where both scripts change the parent and ends at a common copy; that both branches then differ from the parent over the whole run "
             "follows from the edit scripts being scripts of longest common parts (theory/strict.mlw: tree_alive, fired).",
  roots=STRICT + ["merge.split_fragment", "merge.split_copy_fragment", "merge.split_change_fragment"] + COMMON + ["changesets.find_changeset", "changesets.cs._stream"] + INDEX)

CALM = ["changesets.find_changeset(C07)"] + [f"merge.{f}(C07)" for f in ("copy_copy", "copy_change", "change_change", "process_fragments", "flush_remaining", "_merge", "consolidate_conflicts",
                                                                       "consolidate_all", "consolidate", "merge_token_sequence")]
P("C07", specs=["calm"], theories=AUTO + ["codec", "diff", "merge", "calm"], assumptions=DIFF_ASSUME,
  level_note="The contracts of C06, strengthened: as long as no change of one script touches a change of the other the merge loop puts out every change whole and starts no conflict (theory/calm.mlw: tidy), "
             "equal scripts come out as they are (twins), and the two consolidation passes give fragments without conflict as their text. The script of a diff is a function of the two texts "
             "(det, sole: every common part is the first longest one) and never has two adjacent copies (made_cc).",
  roots=CALM + COMMON + ["changesets.cs._stream", "merge.pending_conflict", "merge.split_copy_fragment", "merge.split_change_fragment", "merge.split_fragment"] + INDEX)

TOK_METHODS = ["tokenizers." + f for f in ("generic_encode", "generic_decode", *(f"{c}Tokenizer.{m}" for c in ("Null", "Char", "Line", "Symbol") for m in ("encode", "decode")),
                                           "LineTokenizer.__init__", "SymbolTokenizer.__init__")]
TOK_TRUST = [
    "UTF-8 encoding and decoding of whole strings are inverse bijections and work code point by code point (theory/tokens.mlw, Utf8)",
    "str.split / bytes.split with a non-empty separator and str/bytes.join as specified in theory/tokens.mlw (Splits) and theory/py.mlw",
    "re.finditer for the pattern SYMBOLS as specified in theory/tokens.mlw (Splits): consecutive matches, a run of word characters as long as possible or any other single character",
]
TOK_ASSUME = [
    "one tokenizer is given texts of one kind (the code refuses others), Char and Symbol tokenizers are given bytes only if they are valid UTF-8 (bytes.decode raises otherwise)",
    "decode is given tokens that an earlier encode of the same tokenizer returned",
]
P("C12", specs=["tokenizers"], roots=TOK_METHODS, theories=["tokens"], trusted=TOK_TRUST, assumptions=TOK_ASSUME,
  level_note="Every encode and decode is proved against one contract: the tokens are numbers of the pieces of the text, earlier tokens keep their pieces, no piece has two numbers, decode joins the pieces. "
             "Losslessness, consistency, piecewise decoding and re-encoding of runs are lemmas over that contract (theory/tokens.mlw: lossless, consistent, spell_app, spell_one, again). "
             "A search on the real code supplies failing inputs; it is not counted as proof.")
P("C18", specs=["tokenizers"], theories=AUTO + ["codec", "diff", "merge", "tokens", "tokdiff"], trusted=TOK_TRUST,
  assumptions=DIFF_ASSUME + TOK_ASSUME + ["the caller's transformation is a function of its argument (the same result for the same text) and does not raise"],
  roots=["tokenizers." + f for f in ("diff", "merged", "decode_changes", "decode_changes(plain)")] + TOK_METHODS
  + ["changesets." + f for f in ("diff_token_sequences", "cs.as_change_stream", "cs._stream")] + INDEX + MERGE + COMMON)

TREE = ["memory_tree.MemoryTree." + f for f in ("__contains__", "base_version", "add", "path_to", "change_parent", "get_split", "_update_metrics")]
P("C09", specs=["tree"], roots=TREE, theories=["optreal", "mem", "vtree"],
  assumptions=["Node objects of a MemoryTree are reached through its dict only; dataclasses.replace makes a new object that holds the same list of children, and list.remove / list.append change that list in place (theory/vtree.mlw, TreeHeap)",
               "add is called with a new tag; change_parent with a stored tag and no parent or a stored tag that is not below it (what the version store does; its own calls are checked on the real code)"],
  level_note="Every method of MemoryTree is proved to keep the tree a forest with correct heights and sizes (parents and lists of children agree, no shared lists, every chain of parents ends) and to answer as stated: "
             "path_to gives the path from a tag without parent, base_version the recorded base, get_split the middle of a longest downward path. That paths have no duplicates, are unique and have paths as prefixes "
             "are lemmas over that contract (theory/vtree.mlw: path_distinct, path_unique, path_prefix).")

STORE = ["versions.Versions." + f for f in ("add", "get", "__contains__", "_make_changeset", "_add_edge", "_retrieve_using_path")]
SERIAL = ["serialize." + f for f in ("vserialize_int", "vdeserialize_int", "serialize_changeset", "deserialize_changeset")]
STORE_ROOTS = STORE + TREE + SERIAL + TOK_METHODS + ["changesets." + f for f in ("find_changeset", "cs.as_change_stream", "strip_forward", "apply")] + INDEX
STORE_THEORIES = AUTO + ["codec", "diff", "merge", "tokens", "tokdiff", "vtree", "vers"]
STORE_ASSUME = DIFF_ASSUME + TOK_ASSUME + [
      "Versions.add is called with a new tag other than None, based on nothing or on a stored version, and with bytes shorter than 2**64",
      "tokenizer_factory returns a new tokenizer of one and the same supplied class at every call",
      "Tree.* and Tokenizer.* are called through the contracts every MemoryTree method and every tokenizer class is proved against here (MemoryTree's own invariant, no shared lists of children, is private to it)",
      "a Versions object starts with empty dictionaries and an empty tree (the defaults of its fields)"]
P("C08", specs=["versions", "tree"], roots=STORE_ROOTS, theories=STORE_THEORIES, trusted=BYTES_TRUST + TOK_TRUST, assumptions=STORE_ASSUME,
  level_note="The store invariant (heads verbatim, every other version as a delta that turns its parent's pieces into its own; theory/vers.mlw, stored) is proved to be kept by add for the contents extended by the new version, "
             "and get and `in` are proved to answer from those contents, for every history. It holds of an empty store (goal nothing). version_info is not under contract.")
P("C15", specs=["manifest", "versions", "tree"], roots=["manifest." + f for f in ("add_manifest", "get_manifest", "manifest_to_doc", "doc_to_manifest")] + STORE_ROOTS, theories=STORE_THEORIES,
  trusted=BYTES_TRUST + TOK_TRUST + ["json.loads reads back what json.dumps wrote for a dictionary from strings to strings, whatever the white space in the separators; the text json.dumps writes can be encoded (theory/vers.mlw, Manifest)"],
  assumptions=STORE_ASSUME + ["names and tags are strings of Unicode characters (json.dumps turns other keys into strings)",
                              "a manifest tag is new to the store and no item tag; an item tag that is not new is given with the contents it was first added with (the code ignores them)",
                              "a document is shorter than 2**64 bytes and one the tokenizer takes (it is always valid UTF-8)"],
  level_note="add_manifest is proved to keep the store invariant of C08 for the contents extended by the new items and the document of the manifest, and with it the archive invariant (theory/vers.mlw, archive): "
             "every manifest added so far is stored as its document, every item of it as given. get_manifest is proved to return the manifest added under the tag.")
P("C13", specs=["linediff"], theories=["codec", "diff", "tokens", "linediff"],
  roots=["diff_to_lines." + f for f in ("to_line_diff", "consolidated_line_diff", "consolidate", "handle_fragment", "join_with_newline",
                                        *("DiffAccumulator." + m for m in ("__init__", "add_conflict", "add", "conditional_add", "is_nonempty", "finish_conflict", "flush")))],
  trusted=["str.split with a one-character separator and str.join as specified in theory/tokens.mlw (Splits) and theory/py.mlw (PyJoin); nothing is assumed of str.isspace but that it answers"],
  assumptions=["the generators are consumed in order and to the end (each is run eagerly in the extraction)",
               "DiffAccumulator() makes a new object by running __init__, which is under contract"],
  level_note="The accumulator of partial lines is under contract: after every fragment the text written so far and the current line, read with the insertions or with the deletions, are the fragments read that way, "
             "and a line is called complete only if both its sides are empty or end with a newline.")
P("C14", specs=["markup"], theories=["codec", "diff", "markup"],
  roots=["markup." + f for f in ("markup_changes", "markup_stream", "markup_stream(nested)", "markup_change_item", "markup_change_item(nested)", "show_header")]
  + ["merge_tool.get_markup_style", "merge_tool.get_markup_function.markup_function"],
  trusted=["io.StringIO as a new writer with its own output; os.path.basename (nothing is assumed of it)"],
  assumptions=["a writer adds the text it is given to its own output and changes no other; markers and escapes are functions of their argument (lambdas and one-line functions in the supplied styles: the extraction checks that, not their texts)",
               "style dictionaries have the keys of the supplied styles and are never changed in place (any store into one is refused by the extraction)",
               "markup_stream and markup_change_item have two contracts each, one for streams of texts and changes and one for the texts and changes nested in a change; branch markers are given a text or None"],
  level_note="What is written for every stream, style, escape and writer is proved. That rich reads the escaped text back as the text, that the writers pass everything on, and that the command line tools put these parts together "
             "are checked by running them on bounded inputs (streams of up to 6 items, small files), labelled bounded.")

P("C19", specs=["collection"], theories=["optreal", "sql"], roots=["db_collections.DBCollection." + m for m in ("__init__", "__getitem__", "__setitem__", "__delitem__", "__iter__", "__len__", "__contains__")],
  trusted=["SQLite: each SQL statement the collections use does to the table what theory/sql.mlw says (the statements are recognised by their text, up to white space and letter case; vfw/sqltext.py); "
           "a data change opens a transaction, leaving `with connection` commits it or, on an exception, rolls it back; execute, fetchone, rowcount and iteration over a cursor as documented"],
  assumptions=["connection_factory always connects to the same database, on which no transaction is open between operations; table names are plain identifiers",
               "keys are strings and contents bytes, stored and given back unchanged (opaque codes in the extraction); rows are read before the table changes"],
  level_note="The methods of DBCollection are proved, over assumed contracts of the single SQL statements and of transactions (theory/sql.mlw), to do what a dictionary does to the key, to no other key and to no other table, "
             "to raise KeyError exactly for missing keys, and to leave nothing uncommitted. That SQLite executes the statements as assumed is not proved: a search on the real code, with SQLite, compares histories with dictionaries (bounded: up to 40 operations).")
