//@ raw
} // verus!
fn main() {}
