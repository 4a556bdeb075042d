//! Stand-in for the `jemalloc-sys` crate: statistics printing does nothing.
use std::os::raw::{c_char, c_void};

pub unsafe extern "C" fn malloc_stats_print(
    _write_cb: Option<unsafe extern "C" fn(*mut c_void, *const c_char)>,
    _cbopaque: *mut c_void,
    _opts: *const c_char,
) {
}
