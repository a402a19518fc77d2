#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays one valid JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

prop("C01", "Trees are lossless: text and ranges tile exactly",
 "For every tree, the text of the tree and of each of its nodes is exactly the concatenation, in order, of the texts of the tokens below it. Every element's reported length and range cover exactly its own text: the children of a node tile the node's range without gap or overlap, starting at the node's start, and the root starts at 0. This holds for green and for syntax trees, mutable or not, whatever the shape, the token texts (empty and multi-byte included), widths and depths.",
 ["inputs"], "every tree shape, every assignment of kinds and token texts (total text < 4 GiB)",
 "The only tree-shaped assertions are one s-expression example and a handful of flat trees in a text-equality test; offsets are computed at three different places (green child offsets, cached absolute offsets, offsets recomputed for mutable trees) and only a few inputs reach the first two.",
 ["src/green/node.rs", "src/green/token.rs", "src/green/element.rs", "src/cursor.rs", "src/arc.rs"],
 [("relative child offsets and text_len fixup while the node is allocated", "src/green/node.rs GreenNode::new"), ("absolute offsets: cached for immutable trees, recomputed for mutable ones", "src/cursor.rs NodeData::offset / offset_mut"), ("thin allocation of header + slice", "src/arc.rs ThinArc::from_header_and_iter")],
 ["GreenNodeData::{text_len,children,Display}", "GreenTokenData::{text,text_len}", "SyntaxNode/SyntaxToken::{text,text_range,Display}"],
 [("text_len / rel_offset", "length of a green node and offset of each child in it", "src/green/node.rs"), ("offset", "absolute offset of an immutable cursor", "src/cursor.rs NodeData")])

prop("C02", "The builder yields exactly the tree its calls describe",
 "For every well-nested sequence of builder calls (start a node, add a token, finish a node, take a checkpoint, start a node at a checkpoint), finishing returns exactly the tree those calls describe: same kinds, nesting, order and token texts, with a node started at a checkpoint wrapping precisely the elements added to the current node since that checkpoint. This does not depend on whether a shared cache is used or on what was built with it before. A checkpoint that lies beyond the elements present, or before the start of the innermost open node, is refused with a panic, as is finishing a node when none is open.",
 ["histories", "inputs"], "every sequence of builder calls, every use of checkpoints, with a private or a shared (empty or pre-filled) cache",
 "The tests build four fixed trees and the checkpoint doc-test never executes its wrapping branch; which elements a checkpoint wraps depends on the whole call history.",
 ["src/green/builder.rs", "src/green/node_cache.rs", "src/cow_mut.rs"],
 [("stack of (kind, first child) over a flat child list", "src/green/builder.rs start_node/finish_node"), ("checkpoint = length of the child list, validated against it and against the innermost open node", "src/green/builder.rs checkpoint/start_node_at"), ("children drained into the finished node", "src/green/node_cache.rs NodeCache::node")],
 ["GreenNodeBuilder::{token,start_node,finish_node,checkpoint,start_node_at,finish}"],
 [("parents / children", "open nodes and finished elements not yet owned by a node", "src/green/builder.rs")])

prop("C03", "A node cache is invisible in the result and really shares",
 "Whatever has been built through a node cache before, building through it returns trees equal to those built without it: elements that differ in kind, text or children are never conflated, and trees handed out earlier never change. Within one cache, two tokens with equal kind and text are the same allocation, and so are two nodes of equal kind with at most three children that are themselves shared, however many other elements were interned in between.",
 ["histories", "inputs"], "every sequence of tokens and nodes interned through one cache, any number of entries",
 "No test uses a shared cache at all; conflation needs elements that collide in part (same text, other kind; same children, other kind; prefix of the children), and lost sharing needs the table to have grown in between.",
 ["src/green/node_cache.rs", "src/green/builder.rs"],
 [("hash + equality on kind, length and child identity before an entry is reused", "src/green/node_cache.rs NodeCache::node"), ("hash + equality on kind and text", "src/green/node_cache.rs NodeCache::token"), ("re-hashing on growth recomputes the same hash the insertion used", "src/green/node_cache.rs node_hash/token_hash")],
 ["GreenNodeBuilder::with_cache", "address of GreenNodeData/GreenTokenData"],
 [("nodes / tokens", "interned elements", "src/green/node_cache.rs NodeCache")])

prop("C04", "Green edits are persistent and exact",
 "Replacing, inserting, removing or splicing children of a green node returns a node of the same kind whose child list is exactly what the same edit on a list would give, with its length recomputed, and leaves the original node and everything else that shares its children unchanged. Substituting a node or a token of a syntax tree by another of the same kind returns a complete green tree equal to the old one except at that position, at any depth, in mutable and immutable trees, and changes no existing tree. Iterating a green node's children from both ends, skipping, counting and collecting agree with the child list for every mix of calls.",
 ["inputs", "histories"], "every green tree, every edit index/range and replacement, every position substituted, every sequence of double-ended iterator calls",
 "No test calls any of these functions; index and range handling is only right or wrong per position, and persistence is only visible by looking at all other owners.",
 ["src/green/node.rs", "src/cursor.rs"],
 [("copy of the child list, edited, wrapped into a new node", "src/green/node.rs splice_children/replace_child/insert_child/remove_child"), ("rebuild of the spine up to the root", "src/cursor.rs replace_with"), ("forwarded slice iterator", "src/green/node.rs Children")],
 ["GreenNodeData::{replace_child,insert_child,remove_child,splice_children,children}", "SyntaxNode::replace_with", "SyntaxToken::replace_with"])

prop("C05", "Green equality and hashing are structural",
 "Two green nodes, green tokens or green elements are equal exactly when they have the same kind, the same shape and the same token texts and kinds throughout, no matter how they were built or what storage they share, and equal ones hash equally. The relation is the same whether owned handles or borrowed data are compared, and it stays so after any edit of a syntax tree that produced them.",
 ["inputs"], "every pair of green elements",
 "No test compares green trees; a comparison that looks only at part of the data (length, kind, text without boundaries) agrees with structural equality on almost all pairs a test would pick.",
 ["src/green/node.rs", "src/green/token.rs", "src/arc.rs"],
 [("comparison of header, length and children", "src/green/node.rs impl PartialEq"), ("comparison of kind and text", "src/green/token.rs impl PartialEq"), ("HeaderSlice/ThinArc equality and hash", "src/arc.rs")],
 ["PartialEq/Hash of GreenNode, GreenToken, GreenNodeData, GreenTokenData, NodeOrToken of them"])

prop("C06", "Navigation agrees with the tree from every element",
 "From every node and token of every tree, parent, ancestors, first/last child, next/previous sibling (nodes only, with tokens, and filtered by kind), first/last token of a subtree, next/previous token, index and kind return exactly the element that the tree structure dictates, or nothing when there is none. First/last token and next/previous token visit all tokens of the tree in text order, skipping nodes that contain no token. The answers are the same through the untyped and the typed interface, for mutable and immutable trees, and for handles reached along any path.",
 ["inputs", "histories"], "every tree, every element, every navigation step and chain of steps, both interfaces",
 "About a third of the navigation code is executed by a test at all; making the first child return the last one leaves every test passing.",
 ["src/cursor.rs", "src/api.rs"],
 [("index of an element in its parent's green children", "src/cursor.rs NodeData::{next_sibling*,prev_sibling*,green_siblings}"), ("child lookup on the green node", "src/cursor.rs SyntaxNode::{first_child*,last_child*}"), ("token stepping through ancestors", "src/cursor.rs {first,last,next,prev}_token"), ("in-place advance of an unshared cursor", "src/cursor.rs to_next_sibling*"), ("typed wrappers", "src/api.rs")],
 ["SyntaxNode/SyntaxToken/SyntaxElement navigation methods of rowan::cursor and of rowan::api"],
 [("index, parent, green", "position of a cursor", "src/cursor.rs NodeData")])

prop("C07", "Traversals enter and leave every element once, in order",
 "A preorder walk of any node emits an enter and a matching leave for that node and for each of its descendants exactly once, in document order and properly nested, and never leaves the subtree it was started on; the variant without tokens does the same for nodes only, and the descendants iterators list precisely the entered elements. Asking the walk to skip right after an element was entered suppresses exactly the events of that element's descendants, any number of times in one walk.",
 ["inputs", "histories"], "every tree, every start node, every subset of entered elements at which the walk is told to skip",
 "One example walks one tree from its root; start nodes with following siblings, empty nodes and skipping are not exercised.",
 ["src/cursor.rs", "src/api.rs"],
 [("one look-ahead event plus identity test against the start node", "src/cursor.rs Preorder, PreorderWithTokens"), ("skip flag turning the pending enter into the parent's leave", "src/cursor.rs do_skip")],
 ["preorder", "preorder_with_tokens", "descendants", "descendants_with_tokens", "skip_subtree"])

prop("C08", "Child and sibling iterators yield each element exactly once",
 "Iterating the children of a node, with or without tokens, yields every child exactly once in order, whatever the caller does with yielded handles and wherever the iterator is cloned. Turning an iterator that has already produced some children into one filtered by kind yields exactly the not yet produced children whose kind matches. Sibling iterators in either direction yield the starting element and then every sibling in that direction; handles already handed out never change their meaning while an iterator advances.",
 ["inputs", "histories"], "every tree, every node, every interleaving of advancing, holding/dropping yielded handles, cloning the iterator and filtering it by kind",
 "The iterators re-use an element's storage when no one else holds it, so behaviour depends on which handles the caller keeps alive; the tests run each iterator once, to the end, dropping everything.",
 ["src/cursor.rs", "src/api.rs"],
 [("lazy advance with in-place reuse when the cursor is unshared", "src/cursor.rs SyntaxNodeChildren, SyntaxElementChildren, to_next_sibling*"), ("by_kind conversion", "src/cursor.rs by_kind"), ("successors-based sibling iterators", "src/cursor.rs siblings*")],
 ["children", "children_with_tokens", "by_kind", "siblings", "siblings_with_tokens", "cursor::to_next_sibling*"],
 [("next / next_initialized", "position of a child iterator", "src/cursor.rs")])

prop("C09", "Offset and range lookups find exactly the right elements",
 "Looking up the tokens at an offset within a node returns no token exactly when the node has no text, two tokens exactly when the offset is the boundary between two non-empty tokens (in order), and otherwise the single non-empty token touching it; converting the answer, picking its left or right side and iterating it agree with that. The covering element of a range is the deepest element whose range contains it (for an empty range on a boundary, a leaf touching it), and the child at a range is a child containing the range, or nothing if no child contains it. Offsets or ranges outside the node are refused with a panic.",
 ["inputs"], "every tree, every node, every offset and every range in and around it, with empty tokens and empty nodes anywhere",
 "No test performs a lookup; the behaviour is decided by binary search over adjacent, possibly empty ranges, so each boundary case is its own input.",
 ["src/cursor.rs", "src/green/node.rs", "src/utility_types.rs", "src/api.rs"],
 [("filtering of non-empty children touching the offset", "src/cursor.rs token_at_offset"), ("binary search by range with an empty-range fallback", "src/green/node.rs child_at_range"), ("descent while a child contains the range", "src/cursor.rs covering_element"), ("TokenAtOffset adaptors", "src/utility_types.rs")],
 ["token_at_offset", "covering_element", "child_or_token_at_range", "TokenAtOffset"])

prop("C10", "Handle equality and hashing identify tree positions",
 "Two handles to the same element of a tree are equal and hash equally, no matter along which path or through which iterator they were obtained and whether they are shared copies, in mutable trees also after any edits. Handles to two different elements of one tree are never equal. Cloning a handle or dropping other handles never changes what a handle denotes.",
 ["inputs", "histories"], "every tree (with shared and unshared storage), every pair of elements and every pair of paths to them, any set of other live handles, any edit history",
 "No test compares handles; with interned storage the same data appears at many places, so identity depends on combining data and position.",
 ["src/cursor.rs", "src/api.rs"],
 [("(green address, absolute offset) as identity", "src/cursor.rs NodeData::key, impl PartialEq/Hash"), ("one shared cursor per position in mutable trees", "src/cursor.rs NodeData::new, src/sll.rs link")],
 ["PartialEq/Eq/Hash of SyntaxNode, SyntaxToken, SyntaxElement"])

prop("C11", "Edits of a mutable tree are seen consistently by every live handle",
 "After any sequence of detaching elements and splicing children (removing a range, inserting fresh elements, or moving elements within a tree or between trees), every tree has exactly the structure the same edits would give on a plain ordered tree. Every live handle, whichever handles happen to be alive and in whatever order they were created, still denotes its own element and reports that element's current text, kind, range, index, parent, siblings and children; a detached element becomes the root of its own tree. Inserting at an index beyond the end, or an element into its own subtree, is refused with a panic.",
 ["histories", "inputs"], "every initial tree, every set and order of live handles, every sequence of edits",
 "Not one test performs an edit. The bookkeeping (sorted sibling links, indices, ownership of storage) depends on which handles are alive, so the state space is the product of shapes, live sets and edit sequences.",
 ["src/cursor.rs", "src/sll.rs", "src/api.rs", "src/green/node.rs"],
 [("detach / attach_child / respine", "src/cursor.rs NodeData"), ("sorted circular sibling lists and index adjustment", "src/sll.rs link/unlink/adjust"), ("splice as detach + attach", "src/cursor.rs splice_children")],
 ["SyntaxNode::{detach,splice_children}", "SyntaxToken::detach", "all observers of live handles"],
 [("first/next/prev/index", "live children of a node, sorted by index", "src/cursor.rs NodeData, src/sll.rs"), ("green pointer of every live cursor", "current content; owned by the root", "src/cursor.rs")])

prop("C12", "Editing while iterating reaches every child",
 "Detaching each child as a child iterator yields it removes all of them: the iterator still yields every child that was in the node, exactly once, with or without tokens, filtered by kind or not. Detaching any chosen subset of the yielded children removes exactly that subset, and replacing or inserting before the yielded child does not make the iterator repeat or lose a child that was there. Splicing removes exactly the children in the given range, however many there are.",
 ["histories", "inputs"], "every tree, every node, every subset of children detached (or edit performed) while iterating, every set of other live handles",
 "The documented pattern is never executed by a test; whether it works depends on what the iterator remembers across the edit.",
 ["src/cursor.rs", "src/sll.rs"],
 [("iterators holding a live cursor whose index is adjusted by edits", "src/cursor.rs SyntaxNodeChildren, SyntaxElementChildren, *ByKind"), ("deletion loop of splice_children", "src/cursor.rs splice_children"), ("index adjustment", "src/sll.rs adjust")],
 ["children()/children_with_tokens()/by_kind with detach or splice_children in the loop body"])

prop("C13", "Copies for update are isolated and mutability is never mixed",
 "A copy of a tree for update denotes the same position with the same content, and no sequence of edits on it, or on any number of such copies, changes the original tree, any other copy, any green tree or any subtree copy taken before. A subtree copy is an independent immutable tree with equal content starting at offset 0; a green tree taken from a mutable tree stays what it was when taken. Editing an immutable tree, or inserting an immutable element into a mutable tree, is refused with a panic and leaves the immutable tree as it was; copying a mutable tree for update is refused.",
 ["histories", "inputs"], "every tree, every element copied, every edit sequence on the copies, every moment a snapshot is taken",
 "No test edits a copy; isolation is a statement about all other values after all possible edits.",
 ["src/cursor.rs", "src/ast.rs", "src/green/node.rs"],
 [("clone_for_update / clone_subtree / green", "src/cursor.rs"), ("immutability of shared green storage; respine replaces instead of mutating", "src/cursor.rs respine"), ("mutability asserts", "src/cursor.rs detach/attach_child/splice_children/clone_for_update")],
 ["clone_for_update", "clone_subtree", "green", "is_mutable", "new_root", "new_root_mut"])

prop("C14", "No use after free, double free or leak, whatever handles live",
 "For every history of creating, cloning, moving and dropping trees, handles, iterators, texts, builders and caches and of editing trees, in any order of drops, no freed memory is accessed, nothing is freed twice or with a wrong layout, and once all of them are dropped no memory remains allocated. A live handle keeps its element, its ancestors and its text valid even if every other handle, including the root, is dropped.",
 ["histories"], "every history of handle operations and edits, every order of drops",
 "The tests neither run under a memory checker nor vary the order of drops; ownership of storage moves between cursors on every edit, so errors show only for particular live sets and orders.",
 ["src/cursor.rs", "src/arc.rs", "src/green/node.rs", "src/green/token.rs", "src/sll.rs", "src/green/node_cache.rs"],
 [("reference counts of cursors, parent chain freed iteratively", "src/cursor.rs free/inc_rc/dec_rc"), ("root owns the green storage; ownership handed over on detach/attach", "src/cursor.rs detach/attach_child/respine"), ("reference counted thin allocations", "src/arc.rs"), ("in-place reuse of unshared cursors", "src/cursor.rs to_next_sibling*")],
 ["global allocator", "address sanitizer", "Miri"],
 [("rc", "handles plus live children of a cursor", "src/cursor.rs NodeData"), ("count", "owners of a green allocation", "src/arc.rs ArcInner")])

prop("C15", "Refused calls and panicking callbacks leave everything usable",
 "When an operation panics because its arguments are out of range or not allowed, or because a caller-supplied iterator or predicate panics or reports a wrong length at any step, no memory error occurs then or later. Every tree and handle that existed before can still be read, edited and dropped afterwards; the content of all trees is consistent (handles agree with the tree they are in), and trees not involved in the failed call are unchanged. A caller-supplied predicate or iterator that itself edits the tree being searched or spliced causes no memory error either.",
 ["fault_sequences", "histories"], "every operation taking an index, range, element, iterator or predicate; every failing step; every set of live handles; followed by any further operations",
 "No test provokes a panic in an edit; the interesting point is the state after the panic, for every point at which it can happen.",
 ["src/cursor.rs", "src/arc.rs", "src/green/node.rs", "src/green/builder.rs", "src/syntax_text.rs"],
 [("checks before any state is changed", "src/cursor.rs attach_child/detach/splice_children"), ("leak rather than expose uninitialised memory", "src/arc.rs from_header_and_iter"), ("length checks against lying iterators", "src/arc.rs from_header_and_iter")],
 ["catch_unwind around every API call", "global allocator", "address sanitizer"])

prop("C16", "Green trees can be shared between threads without races",
 "Any number of threads may concurrently clone, compare, read, edit functionally and drop green nodes and tokens that share storage, and build and edit their own syntax trees over the same green tree: in every interleaving each allocation is freed exactly once, only after every other thread's last access, and all observed contents are the same as in a sequential run. Green values can be sent and shared across threads; syntax tree handles, whose state is not synchronised, can be neither sent nor shared.",
 ["schedules"], "every interleaving and every memory-ordering outcome of the reference counting operations of a few threads sharing green storage",
 "A test asserts only that the types may be sent; no test runs two threads, and a wrong ordering would show up on few runs of few machines.",
 ["src/arc.rs", "src/green/node.rs", "src/green/token.rs", "src/green.rs", "src/cursor.rs"],
 [("atomic reference count: relaxed increment, release decrement, acquire before the free", "src/arc.rs Clone/Drop/is_unique"), ("Send/Sync of the thin pointers", "src/arc.rs unsafe impls"), ("cursors hold raw pointers and so are not Send/Sync", "src/cursor.rs")],
 ["loom executions over the atomic operations of src/arc.rs", "auto traits of the public types"],
 [("count", "number of owners", "src/arc.rs ArcInner")])

prop("C17", "A syntax text behaves as the string it denotes",
 "The text of any node, and any slice or slice of a slice of it, behaves exactly like the corresponding string: length, emptiness, conversion to a string, character search, character at an offset, membership of a character, chunks in order with early exit, and equality with strings and with other texts, however the two are cut into tokens. Slicing accepts exactly the ranges that lie within the text (in all range forms) and refuses others with a panic.",
 ["inputs"], "every tree and node, every pair of trees with differently cut text, every (nested) slice range, every character",
 "The one test compares eleven pairs of flat trees and never slices; chunk boundaries, empty tokens and offsets of inner nodes multiply the cases.",
 ["src/syntax_text.rs", "src/cursor.rs"],
 [("intersection of token ranges with the slice range", "src/syntax_text.rs tokens_with_ranges"), ("range arithmetic with bounds asserts", "src/syntax_text.rs slice"), ("pairwise comparison of chunk lists", "src/syntax_text.rs zip_texts, PartialEq")],
 ["SyntaxText methods and trait impls"])

prop("C18", "Node pointers resolve back to the node they were made from",
 "A pointer made from any node of an immutable tree resolves, in that tree and in every tree of equal structure, to a node with that kind and range, and to the very node when no other node of the tree has the same kind and range. It resolves to nothing when no node of that kind and range exists, or when the tree handed in is not a root, and typed pointers add exactly the type test of their node type. Two pointers are equal exactly when their kinds and ranges are, and equal ones hash equally. Making a pointer from a mutable tree or resolving in one is refused with a panic.",
 ["inputs"], "every tree, every node including empty ones and nodes sharing their range, every other tree to resolve in",
 "Two tests cover only the two panics; resolution walks by range, so adjacent empty nodes and nested equal ranges decide whether it works.",
 ["src/ast.rs", "src/cursor.rs", "src/green/node.rs"],
 [("descent by range, first match of kind and range", "src/ast.rs SyntaxNodePtr::try_to_node"), ("binary search for the child at a range", "src/green/node.rs child_at_range"), ("cast test", "src/ast.rs AstPtr")],
 ["SyntaxNodePtr::{new,try_to_node,to_node,cast,kind,text_range}", "AstPtr"])

prop("C19", "The typed layer adds kinds and casts and nothing else",
 "Every operation of the typed syntax tree interface has the same effect and result as the same operation of the untyped interface, with raw kinds translated by the language in use and predicates applied to translated kinds; conversions between the two interfaces preserve the element. The typed child helpers return exactly the first child, all children in order, or the first token that casts to the requested type or has the requested kind, and typed copies for update or of a subtree are the same node in the copied tree.",
 ["inputs", "programs"], "every tree, every element, every operation of the interface, every kind translation and cast predicate",
 "The typed interface is 550 lines of forwarding of which the tests execute a sixth; a wrong forward is invisible unless that very function is compared on a tree where it matters.",
 ["src/api.rs", "src/ast.rs"],
 [("forwarding to the untyped cursor and wrapping of results", "src/api.rs"), ("cast-filtered iteration", "src/ast.rs AstChildren, support")],
 ["rowan::api types", "rowan::ast::{AstNode,AstChildren,support}"])

prop("C20", "Displayed, debugged and serialized forms reflect the tree",
 "The displayed form of any node or token is exactly its text; its serialized form lists, for each element in order and nested as in the tree, its kind, its range and its text or children and nothing else; its indented debug form lists every element of the subtree once, in order, one per line, indented by depth, with kind, range and (for tokens) text. The debug form of a token shows its full text when shorter than 25 bytes and otherwise the prefix that ends at the first character boundary from byte 21 on, followed by ' ...', and is made without failing for any text. An output that refuses to take more is reported as an error, and what it took before is a prefix of the form.",
 ["inputs", "fault_sequences"], "every tree, every element, every token text (all placements of multi-byte characters around the cut), every point at which the output fails",
 "The serializer has no test at all and the debug forms are only used in failure messages; the cut position depends on the byte layout of the text.",
 ["src/api.rs", "src/serde_impls.rs", "src/cursor.rs", "src/green/node.rs", "src/green/token.rs"],
 [("preorder dump", "src/api.rs impl Debug for SyntaxNode"), ("char-boundary search for the cut", "src/api.rs impl Debug for SyntaxToken"), ("map of kind, text_range, children/text", "src/serde_impls.rs"), ("concatenation of tokens", "src/cursor.rs impl Display")],
 ["Display/Debug of nodes and tokens", "serde::Serialize with feature serde1"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
