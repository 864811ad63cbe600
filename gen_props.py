#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,qt,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
T="src/tree/mod.rs"; L="src/tree/leaf_node.rs"; I="src/tree/inner_node.rs"; R="src/tree/tree_remove.rs"; S="src/tree/node_stores/vec_backed.rs"
p("C01","Lookup returns exactly the stored entry",
 "For every key type with a total order and every history of operations, looking a key up (get, get_mut, contains) finds it exactly when the container currently holds an equal key, and yields that key's current value. The answer never depends on which lookups or updates were made before (a lookup neither changes contents nor is misled by anything remembered from earlier operations). Writing through a mutable lookup changes that one value and nothing else.",
 ["inputs","histories"],"all keys, all tree shapes reachable by any operation history, all states of the last-leaf hint",
 "Tests look up present keys of dense i64 ranges once per shape; they do not cover absent keys between separators, every interplay of the cached-leaf hint with splits, merges and rotations, or trees deeper than three levels.",
 [T,L,I,S],
 [("cached_leaf","leaf remembered as a hint for the next lookup","src/tree/node_stores/vec_backed.rs"),("slot_key","sorted keys of a node",L)],
 [("get/get_mut/find_descend",T),("try_cache/in_range",S),("locate_child",I),("locate_slot",L)],
 ["BPlusTree::get","BPlusTree::get_mut","BPlusTreeMap::get","BPlusTreeMap::get_mut","BPlusTreeSet::contains"])
p("C02","Insert is an exact map update",
 "Inserting (k, v) returns the value previously held for k if there was one and nothing otherwise; afterwards k maps to v, every other entry is unchanged, the reported length grew by one exactly when k was new, and the container still orders and finds all its entries. Inserting never panics or corrupts the container, whatever the shape of the tree and wherever in a node the new entry lands.",
 ["inputs","histories"],"all keys and values, every reachable tree, every insertion position in full and non-full nodes at every level",
 "Tests insert shuffled dense integers and check the final state; leaf and inner splits have 65 insertion positions each and cascade through levels, and a value misplaced by one position at one of them only shows for particular histories.",
 [T,L,I],
 [("size/slot_key/slot_value","live prefix of a leaf",L),("child_id/augmentations","children and their augmentation",I)],
 [("insert/insert_inner/insert_leaf",T),("try_upsert/split_new_leaf",L),("insert_at/split",I),("slice_insert","src/tree/slice_utils.rs")],
 ["BPlusTree::insert","BPlusTreeMap::insert","BPlusTreeSet::insert","len"])
p("C03","Remove is an exact map removal and never fails",
 "Removing a key returns its value if the key was present and nothing otherwise; afterwards the key is absent, every other entry is unchanged, and the reported length shrank by one exactly when something was removed. This holds for every tree that any sequence of operations, including bulk construction, can produce; removal never panics and never corrupts the container.",
 ["inputs","histories"],"all keys, every reachable tree (incrementally built or bulk loaded), every rotate/merge case at every level",
 "Tests drain shuffled dense integers from incrementally built trees; they never remove from bulk-loaded trees and hit each rotate/merge/collapse case only where the shuffle happens to lead.",
 [R,L,I,"src/tree/entry_ref.rs"],
 [("size","number of entries in a node; below the minimum the node is repaired",L),("root","replaced by its only child when the root inner node runs out of keys",T)],
 [("remove_by_ref",R),("handle_leaf_under_size/handle_inner_under_size",R),("rotate_*/merge_*",R),("try_delete_at/delete_with_push*/merge_right*",L)],
 ["BPlusTree::remove","BPlusTreeMap::remove","BPlusTreeSet::remove","len"])
p("C04","Borrowed iteration is sorted, complete and exact from both ends",
 "Iterating a container by reference yields every entry exactly once, in strictly ascending key order from the front and descending from the back; under any interleaving of taking from the front and from the back the two ends meet without repeating or losing an entry, and the reported remaining length is exact at every moment. The first and last accessors return the smallest and the largest entry, or nothing when empty.",
 ["inputs","histories"],"all contents and tree shapes, every interleaving of next and next_back",
 "Tests run a full forward pass and a full backward pass on 100 entries and never mix the two directions or look at the remaining length.",
 ["src/tree/iterator.rs",T,"src/map.rs","src/set.rs"],
 [("len","entries still to be yielded","src/tree/iterator.rs"),("prev/next","leaf chain in key order",L)],
 [("Iter::next/next_back","src/tree/iterator.rs"),("first_leaf/last_leaf/first/last",T)],
 ["BPlusTree::iter","BPlusTreeMap::iter","BPlusTreeSet::iter","BPlusTree::first","BPlusTree::last","BPlusTreeSet::first","BPlusTreeSet::last"])
p("C05","Owned iteration yields every entry exactly once",
 "Consuming a container by value yields every entry it held exactly once, ascending from the front and descending from the back under any interleaving of the two, with an exact remaining length throughout. It works for every container, including empty ones and ones that were emptied or bulk loaded.",
 ["inputs","histories"],"all contents and tree shapes, every interleaving of next and next_back, stopping at any point",
 "Tests consume ten entries from one leaf in one direction.",
 ["src/tree/iterator.rs",T,L],
 [("pos/end","front and back position","src/tree/iterator.rs"),("len","entries not yet yielded","src/tree/iterator.rs")],
 [("IntoIter::next/next_back","src/tree/iterator.rs"),("into_parts",T),("take_data",L)],
 ["BPlusTree::into_iter","BPlusTreeSet::into_iter"])
p("C06","Bulk construction equals inserting one by one",
 "Building a map or set from any finite sequence of entries (collecting, or bulk loading a key-sorted sequence) gives the container that inserting the entries one after the other would give: the same keys, the last value given for each repeated key, the same length and the same augmentation results. The built container is well formed, so every later operation on it behaves as on an incrementally built one.",
 ["inputs","histories"],"all input sequences and sizes, including those that leave the last leaf or the last inner node nearly empty, followed by any history",
 "Tests load 400 or 1000 sorted entries, which build one level of inner nodes, and only read them back; loads whose last inner node gets a single child, and any mutation after a load, are not reached.",
 ["src/tree/bulk_load.rs","src/map.rs","src/set.rs"],
 [("nodes","layer under construction: id, key range, augmentation","src/tree/bulk_load.rs")],
 [("bulk_load/build_inner_layer","src/tree/bulk_load.rs"),("DeDupKeepLast","src/tree/bulk_load.rs"),("new_from_iter",I)],
 ["BPlusTree::bulk_load","BPlusTreeMap::from_iter","BPlusTreeSet::from_iter"])
p("C07","Augmentations always equal a fresh recomputation",
 "After every insertion, overwrite, removal, clear and bulk construction, the root augmentation equals what folding the augmentation functions over the current tree bottom-up gives, and so does the augmentation kept for every subtree that a visitor or a query sees. This holds for every augmentation whose value is a function of the keys and values it is given, whatever it computes (an empty container may instead carry the default augmentation).",
 ["inputs","histories"],"every augmentation type, every history, every node of every reachable tree",
 "Tests compare one total count with the length; a stale augmentation of one child, or one that ignores an overwritten value, leaves that total right.",
 [T,R,I,"src/augment/mod.rs"],
 [("root_augmentation","fold over the whole tree",T),("augmentations","fold over each child",I)],
 [("new_augmentation_for_id",T),("set_augmentation",I),("rotate_*/merge_*",R),("build_inner_layer","src/tree/bulk_load.rs")],
 ["BPlusTree::root_augmentation","BPlusTree::descend_visit"])
p("C08","Count gives exact order statistics",
 "With the Count augmentation, the root count equals the number of entries, querying index i yields the i-th smallest entry and nothing when i is not below the length, and ranking a key yields Ok(number of smaller keys) when it is present and Err(number of smaller keys) when it is absent. Removing or mutably fetching by index acts on exactly that entry.",
 ["inputs","histories"],"all contents, tree shapes, indices and keys (present or absent)",
 "Tests query 498 consecutive keys in a two-level tree.",
 ["src/augment/count.rs",T,R],
 [("Count.0","entries below a node","src/augment/count.rs")],
 [("from_leaf/from_inner/locate_in_*/fold_*","src/augment/count.rs"),("get_ref_by_augmentation/rank_by_augmentation",T),("remove_by_augmentation",T)],
 ["get_by_augmentation","get_mut_by_augmentation","remove_by_augmentation","rank_by_augmentation","Count::count"])
p("C09","GroupCount gives exact per-group counts and positions",
 "With the GroupCount augmentation over keys whose group is monotone in key order, the group count equals the number of distinct groups present, the group-size visitor returns the number of entries of the requested group, querying (group, offset) yields exactly the entry at that position within its group or nothing, and ranking a key yields its group and the number of smaller keys in that group, Ok or Err according to presence. This holds however the groups spread over leaves and inner nodes.",
 ["inputs","histories"],"all contents, all distributions of groups over nodes, all tree depths, all queries (present or absent groups, offsets and keys)",
 "Tests use two or three groups of 500 keys in ascending order in a two-level tree; leaves with three or more groups, and trees with three or more levels, are not exercised by the queries.",
 ["src/augment/group.rs",T],
 [("GroupCount","first and last group with their sizes, and number of groups, of a subtree","src/augment/group.rs")],
 [("from_leaf/from_inner/merge_with","src/augment/group.rs"),("locate_in_*/fold_*","src/augment/group.rs"),("ExtractGroupSize","src/augment/group.rs")],
 ["GroupCount::group_count","get_by_augmentation","rank_by_augmentation","descend_visit(ExtractGroupSize)"])
p("C10","Cursors navigate by key across any mutation",
 "A cursor is a remembered key: whatever was inserted, removed or rebuilt since it was made, asking it for its value yields the value the tree now holds for that key or nothing, next yields the entry with the smallest key greater than it, and prev the entry with the greatest key smaller than it, or nothing if there is none. The first and last cursors of a tree point to its smallest and largest entry, and an empty tree has none.",
 ["inputs","histories"],"all cursors (including ones made from absent keys), all intermediate mutation histories, empty trees",
 "Tests walk one cursor while removing other keys at random; a cursor whose leaf was split, merged or emptied away, or one made on an empty tree, is met only by luck.",
 ["src/tree/cursor.rs",T,L],
 [("leaf_id_hint/offset_hint","where the key was last seen","src/tree/cursor.rs")],
 [("locate_leaf/next_with_value/prev_with_value/value","src/tree/cursor.rs"),("in_range",L),("locate_leaf/get_cursor",T)],
 ["Cursor::next","Cursor::prev","Cursor::value","Cursor::exists","Cursor::first","Cursor::last","BPlusTree::cursor_first","BPlusTree::get_cursor"])
p("C11","The tree stays a balanced search tree",
 "Seen from the root by a descending visitor, every reachable tree has all leaves at the same depth, strictly ascending keys in every node, one child more than keys in every inner node, and separators that bound the keys of the children on either side; no node exceeds its fixed capacity. In a tree of more than one node no leaf is empty and no inner node lacks a key, and a tree built only by insertions and removals keeps every node but the root at least a quarter full, so depth stays logarithmic.",
 ["inputs","histories"],"every history, every path of every reachable tree",
 "Tests check leaf links after each step but never depth, separators or occupancy.",
 [T,R,I,L,"src/tree/bulk_load.rs","src/tree/consts.rs"],
 [("child_id","uniform height below each inner node",I),("size","occupancy between the minimum and the capacity",I)],
 [("split/insert_at/merge_next/push*/pop*",I),("handle_*_under_size",R),("build_inner_layer","src/tree/bulk_load.rs")],
 ["BPlusTree::descend_visit","BPlusTree::node_store"])
p("C12","Every key, value and augmentation is dropped exactly once",
 "Over any history of operations that do not panic, every key, value and augmentation object that is handed to or created by the container is either returned to the caller or dropped exactly once by the time the container and its iterators are gone. No operation reads, clones, compares or drops an object that was already moved out, dropped or never written.",
 ["inputs","histories"],"every history including partially consumed owned iterators, clear, clones and empty containers; keys, values and augmentations that own resources",
 "Tests count drops of values and keys in three fixed histories with trivially droppable augmentations; they do not run under a memory checker and reach few of the unsafe moves.",
 [I,L,"src/tree/slice_utils.rs","src/tree/iterator.rs",T,R],
 [("MaybeUninit slots","slots below size own a value, others do not",I)],
 [("slice_insert/slice_remove/move_to_slice","src/tree/slice_utils.rs"),("InnerNode::drop/clone",I),("merge_next/split/pop",I),("BPlusTree::drop/into_parts",T),("IntoIter::drop","src/tree/iterator.rs")],
 ["Drop of keys, values, augmentations observed through counting types"])
p("C13","Concurrent shared reads agree with sequential reads",
 "Any number of threads may read one container through shared references at the same time (lookups, iteration, cursors, queries, ranks); under every interleaving each read returns what it would return alone, and no read changes what any other read returns.",
 ["schedules","inputs"],"all interleavings of the shared-reference operations of any number of threads, all contents",
 "No test reads from two threads, and the lookup hint is a shared word that every lookup overwrites.",
 [S,T,"src/tree/cursor.rs"],
 [("cached_leaf","only state that a shared reference can change; a relaxed atomic word",S)],
 [("try_cache/cache_leaf",S),("in_range",L),("get/locate_leaf",T)],
 ["BPlusTree::get","BPlusTreeSet::contains","Cursor::value"])
p("C14","Set union is the sorted union without repeats",
 "Iterating the union of two sets yields every element held by at least one of them exactly once, in ascending order, for all contents of either side; its size hint brackets the number of elements really still to come, and its minimum is the smallest remaining element.",
 ["inputs"],"all pairs of sets, including equal, disjoint, interleaved and empty ones, at every point of the iteration",
 "One documentation test unites {1} and {1,2}.",
 ["src/set.rs","src/merge_iter.rs"],
 [("peeked","element taken from one side and not yet yielded","src/merge_iter.rs")],
 [("nexts/lens","src/merge_iter.rs"),("Union::next/size_hint","src/set.rs")],
 ["BPlusTreeSet::union"])
p("C15","Clear empties and clone copies the whole container",
 "Clearing a container leaves it empty, with the augmentation of an empty container, and as usable as a new one. A cloned tree holds equal entries, length and augmentations, and from then on neither the original nor the clone is affected by any operation on the other.",
 ["inputs","histories"],"every reachable tree, every history before and after the clear or clone",
 "Tests clear one tree of 100 entries and clone one tree only to count drops.",
 [T,S,I,L],
 [("node_store","slots of all nodes, including those left empty by merges",S)],
 [("clear",T),("Clone for InnerNode/LeafNode/NodeStoreVec",I)],
 ["BPlusTree::clear","BPlusTree::clone","BPlusTreeSet::clear"])
p("C16","Descending visitors see one true root-to-leaf path",
 "A descending visitor is shown the root first and then, at each inner node, exactly the child it asked for: at every inner node all its separators and one augmentation per child, at the end exactly the keys and values of one leaf. Cancelling yields nothing, completing early yields the visitor's result, and otherwise the leaf's result is returned; asking for a child that does not exist panics instead of showing anything else; visiting changes nothing.",
 ["inputs","histories","programs"],"every visitor (sequence of decisions), every reachable tree",
 "Tests use one built-in visitor.",
 ["src/tree/visit.rs",I,L],
 [("child_id","children in key order",I)],
 [("descend_visit","src/tree/visit.rs")],
 ["BPlusTree::descend_visit","BPlusTreeMap::descend_visit"])
p("C17","A panic in user code leaves the container sound",
 "If a key comparison, clone, destructor or augmentation function panics during an operation and the panic is caught, the container can still be used and dropped without undefined behaviour (entries may be lost).",
 ["fault_sequences","inputs"],"every point at which a user-supplied function is called, every operation",
 "No test makes user code panic.",
 [T,R,I,L],
 [("len/size","counts updated before or after the user call",T)],
 [("rotate_right_for_leaf","src/tree/tree_remove.rs"),("InnerNode::clone",I)],
 ["catch_unwind around any operation"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,(x['id'])
