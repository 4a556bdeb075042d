use level_db_rust::util::slice::Slice;

/// Largest container the symbolic-size proofs range over (the address space of
/// the verifier's memory model, not a loop bound).
pub const MAXN: usize = 1 << 40;

/// A byte vector of any length (0..=MAXN) and any contents: the contents are the
/// verifier's unconstrained value of freshly allocated memory.
pub fn any_vec() -> Vec<u8> {
    let n: usize = kani::any();
    kani::assume(n <= MAXN);
    vec_of(n)
}
pub fn vec_of(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    unsafe { v.set_len(n) };
    v
}
pub fn vec_upto(max: usize) -> Vec<u8> {
    let n: usize = kani::any();
    kani::assume(n <= max);
    vec_of(n)
}
/// Stand-in for `alloc::fmt::format`: message text is not under contract.
pub fn nofmt(_a: core::fmt::Arguments<'_>) -> String {
    String::new()
}
/// Like `any_vec`, with arbitrary spare capacity when `spare`.
pub fn any_vec_spare(spare: bool) -> Vec<u8> {
    if !spare { return any_vec(); }
    let c: usize = kani::any();
    kani::assume(c <= MAXN);
    let n: usize = kani::any();
    kani::assume(n <= c);
    let mut v: Vec<u8> = Vec::with_capacity(c);
    unsafe { v.set_len(n) };
    v
}
