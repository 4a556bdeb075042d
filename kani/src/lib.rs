#![allow(static_mut_refs, dead_code, unused_imports, unused_macros)]
//! Contracts on the real functions of /repo, discharged by Kani/CBMC.
//! A harness named `*_p_*` is a proof: symbolic over the whole domain its doc
//! comment states (loops, if any, bounded by operand width, unwinding
//! assertions on). A harness named `*_b_*` is bounded; its bound is in its doc
//! comment and in /verif/bin/units.py.
#[cfg(kani)]
mod k;
#[cfg(kani)]
mod c_coding;
#[cfg(kani)]
mod c_misc;
#[cfg(kani)]
mod c_hash;
#[cfg(kani)]
mod c_slice;
#[cfg(kani)]
mod c_arena;
