//! Contracts of the real slice operations of /repo (the file is included as it is), for every slice
//! length the tree uses (at most 66 slots: 64 + 1 children, plus one) and every index.
#![allow(dead_code)]
#[path = "/repo/src/tree/slice_utils.rs"]
mod slice_utils;

#[cfg(kani)]
mod proofs {
    use super::slice_utils::*;
    use std::mem::MaybeUninit;
    const M: usize = 66;

    fn arr() -> [MaybeUninit<u8>; M] {
        let a: [u8; M] = kani::any();
        unsafe { std::mem::transmute(a) }
    }
    fn get(a: &[MaybeUninit<u8>], i: usize) -> u8 {
        unsafe { a[i].assume_init() }
    }

    #[kani::proof]
    fn slice_insert_contract() {
        let mut a = arr();
        let old = a;
        let len: usize = kani::any();
        let idx: usize = kani::any();
        kani::assume(len <= M && idx < len);
        let val: u8 = kani::any();
        unsafe { slice_insert(&mut a[..len], idx, val) };
        let j: usize = kani::any();
        kani::assume(j < M);
        if j >= len || j < idx {
            assert!(get(&a, j) == get(&old, j), "slots outside idx..len are unchanged");
        } else if j == idx {
            assert!(get(&a, j) == val, "slot idx holds the value");
        } else {
            assert!(get(&a, j) == get(&old, j - 1), "slots after idx are shifted up");
        }
    }

    #[kani::proof]
    fn slice_remove_contract() {
        let mut a = arr();
        let old = a;
        let len: usize = kani::any();
        let idx: usize = kani::any();
        kani::assume(len <= M && idx < len);
        let r = unsafe { slice_remove(&mut a[..len], idx) };
        assert!(r == get(&old, idx), "the value of slot idx is returned");
        let j: usize = kani::any();
        kani::assume(j < M);
        if j >= len || j < idx {
            assert!(get(&a, j) == get(&old, j), "slots outside idx..len are unchanged");
        } else if j + 1 < len {
            assert!(get(&a, j) == get(&old, j + 1), "slots after idx are shifted down");
        }
    }

    #[kani::proof]
    fn move_to_slice_contract() {
        let mut a = arr();
        let mut b = arr();
        let (olda, oldb) = (a, b);
        let len: usize = kani::any();
        kani::assume(len <= M);
        move_to_slice(&mut a[..len], &mut b[..len]);
        let j: usize = kani::any();
        kani::assume(j < M);
        if j < len {
            assert!(get(&b, j) == get(&olda, j), "dst holds what src held");
        } else {
            assert!(get(&b, j) == get(&oldb, j), "slots after dst are unchanged");
        }
    }

    /// an element with a destructor that must not run: the operations move elements, they drop none
    struct D(u8);
    impl Drop for D {
        fn drop(&mut self) {
            panic!("an element is dropped");
        }
    }
    fn darr() -> [MaybeUninit<D>; M] {
        unsafe { std::mem::transmute([0u8; M]) }
    }

    #[kani::proof]
    fn nothing_dropped() {
        let mut a = darr();
        let len: usize = kani::any();
        let idx: usize = kani::any();
        kani::assume(len <= M && idx < len);
        if kani::any() {
            unsafe { slice_insert(&mut a[..len], idx, D(0)) };
        } else {
            std::mem::forget(unsafe { slice_remove(&mut a[..len], idx) });
        }
        let mut b = darr();
        move_to_slice(&mut a[..len], &mut b[..len]);
    }
}
