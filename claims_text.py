# What each check assures: level, the bounded part, the note shown in the manifest, the contracts that state the property.
SEARCH = "the search for a failing input on the real crate; it adds no assurance to the proof and is labelled bounded in the evidence"
COMMON = (" Unbounded: every contract and lemma is discharged by Verus/z3 for all inputs, histories and tree sizes on text extracted from /repo on every run."
          " Assumes lawful Ord/Clone/Borrow, no panics or allocation failure, and the trusted list of the evidence.")

def proof(pid, note, theorems, trusted=(), assumptions=()):
    p(pid, "proof", SEARCH, note + COMMON, trusted=trusted, assumptions=assumptions, theorems=theorems)

proof("C01", "Proved: in every well-formed tree get/get_mut/contains find exactly the stored entry, whatever the last-leaf hint says; get_mut's frame leaves every other entry alone.",
      ["BPlusTree::get", "BPlusTree::get_mut", "BPlusTreeMap::get", "BPlusTreeMap::get_mut", "BPlusTreeSet::contains"])
proof("C02", "Proved: insert returns the old value, the new contents are the old map with k set, len is exact, the tree stays well formed and too low to overflow the descent stack (height bound lemma); every node operation has its contract.",
      ["BPlusTree::insert", "BPlusTreeMap::insert", "BPlusTreeSet::insert"],
      ["slice_insert, slice_remove, move_to_slice: unsafe pointer code, contracts discharged by Kani (CBMC) on the real functions for every slice length up to 66, which covers every length the node capacity allows"])
proof("C03", "Proved: remove returns the value stored for the key and deletes exactly that entry in every well-formed tree (bulk loaded ones included); no unreachable!() or panic can be reached.",
      ["BPlusTree::remove", "BPlusTree::remove_by_ref", "BPlusTreeMap::remove", "BPlusTreeSet::remove"],
      ["slice_insert, slice_remove, move_to_slice: contracts discharged by Kani for every length up to 66"])
proof("C04", "Proved: the borrowed iterator's ghost remainder is the map at the start; next/next_back yield its smallest/largest entry and remove exactly that; len and size_hint are its size.",
      ["BPlusTree::iter", "Iter::Iterator::next", "Iter::DoubleEndedIterator::next_back", "Iter::Iterator::size_hint", "BPlusTree::first", "BPlusTree::last"])
proof("C05", "Proved: the owning iterator yields the smallest/largest remaining entry and removes exactly that, from every well-formed tree; len is exact.",
      ["BPlusTree::IntoIterator::into_iter", "IntoIter::Iterator::next", "IntoIter::DoubleEndedIterator::next_back", "IntoIter::Iterator::size_hint"])
proof("C06", "Proved: bulk_load of a key-sorted sequence and both FromIterator impls give a well-formed tree whose contents are the fold of insertions and whose augmentations are fresh.",
      ["BPlusTree::bulk_load", "BPlusTreeMap::FromIterator::from_iter", "BPlusTreeSet::FromIterator::from_iter"],
      ["Vec::sort_by is a stable sort by the given comparison; the caller's iterator is a finite sequence",
       "slice_insert, slice_remove, move_to_slice: contracts discharged by Kani for every length up to 66"])
proof("C07", "Proved: for every augmentation that is a function of what it is given, each subtree's kept augmentation and the root's equal the bottom-up fold after every insert, overwrite, remove, clear and bulk load.",
      ["BPlusTree::insert", "BPlusTree::remove", "BPlusTree::clear", "BPlusTree::bulk_load", "BPlusTree::root_augmentation"],
      assumptions=["after a value is changed through get_mut/get_mut_by_augmentation, an augmentation that depends on values is stale until the next update of that leaf (Augmentation documents keys-only use there)"])
proof("C08", "Proved: the Count root count is the number of entries; get/get_mut/remove by index act on the i-th smallest entry; rank is the number of smaller keys, Ok exactly when the key is present.",
      ["BPlusTree::get_by_augmentation", "BPlusTree::get_mut_by_augmentation", "BPlusTree::remove_by_augmentation", "BPlusTree::rank_by_augmentation", "Count::SearchAugmentation::locate_in_inner", "Count::RankAugmentation::fold_inner"])
proof("C09", "Proved: group count, group size visitor, (group, offset) query and rank are exact for every group function that is monotone in key order, however groups spread over nodes.",
      ["group_size", "group_number", "GroupCount::SearchAugmentation::locate_in_inner", "GroupCount::RankAugmentation::fold_inner", "ExtractGroupSize::DescendVisit::visit_inner"],
      ["FromRef of the group type is a pure function, monotone in key order; its Ord and Clone are lawful"])
proof("C10", "Proved: for a cursor with any key and any (stale) hint, value/exists/next/prev are the map's answers for the tree they are given; first/last cursors likewise.",
      ["Cursor::value", "Cursor::next", "Cursor::prev", "Cursor::next_with_value", "Cursor::prev_with_value", "Cursor::first", "Cursor::last"])
proof("C11", "Proved: every public operation preserves the tree invariant: equal leaf depth, sorted keys, one child more than keys, separators that bound, capacities, no empty node, every node but the last of its layer a quarter full (every non-root node in trees not bulk loaded).",
      ["BPlusTree::insert", "BPlusTree::remove", "BPlusTree::bulk_load", "BPlusTree::new", "BPlusTree::clear"],
      ["slice_insert, slice_remove, move_to_slice: contracts discharged by Kani for every length up to 66"])
proof("C12", "Proved: a slot is read only when initialised, moving out empties it, overwriting needs it empty, a node is released only when it owns nothing its destructor does not drop; a consumed or dropped tree ends with no owned slot.",
      ["IntoIter::Drop::drop", "InnerNode::Drop::drop", "BPlusTree::Drop::drop", "BPlusTree::into_parts", "IntoIter::Iterator::next", "InnerNode::merge_next", "LeafNode::merge_right"],
      ["ownership outside slots is Rust's: a value in safe code is moved or dropped exactly once; where the compiler drops a node, a slot content or a local, the extraction inserts the call that states what must hold there (DESIGN.md section 4)",
       "slice_insert, slice_remove, move_to_slice: contracts discharged by Kani for every length up to 66"],
      ["NodeId has no destructor (child slots may be overwritten); user clones are objects of their own"])
proof("C13", "Proved: shared reads rest on no shared mutable state but the atomic leaf hint, and their contracts hold for whatever value a load of the hint returns, so for every interleaving; the rest is Rust's Sync typing.",
      ["NodeStoreVec::NodeStore::try_cache", "BPlusTree::get"],
      ["Rust's type system: apart from the atomic word, `&self` code does not write (no interior mutability is in the verifier's subset; code that used it would be reported undecided)"],
      ["loads and stores of the hint are atomic; the hint's loads may return any value at any time"])
proof("C14", "Proved: the union iterator yields the smallest remaining element of either side exactly once, its size hint brackets what remains, its minimum is the smallest remaining.",
      ["BPlusTreeSet::union", "Union::Iterator::next", "Union::Iterator::size_hint", "Union::Iterator::min"])
proof("C15", "Proved: clear gives the contract of a new tree; clone gives a tree with equal nodes, entries, length and augmentations. Independence of the two follows from ownership (no shared mutable state can be expressed in the subset).",
      ["BPlusTree::clear", "BPlusTree::Clone::clone", "NodeStoreVec::Clone::clone", "BPlusTreeSet::clear"])
proof("C16", "Proved: descend_visit returns what the visitor answers when led along the children it asks for, for every visitor and tree; it panics exactly when a child that does not exist is asked for.",
      ["BPlusTree::descend_visit", "BPlusTreeMap::descend_visit"])
NA = [{"property": "C17", "reason": "the contract verifiers available (Verus, Kani) do not model unwinding: no contract can speak about the state a panic leaves behind"}]
