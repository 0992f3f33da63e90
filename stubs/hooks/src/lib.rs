//! Native definitions of the executor's hooks. This crate's IR is never linked into the analysed
//! module, so that the hooks stay opaque calls there.
#[no_mangle]
pub extern "C" fn __vx_list_new() -> u32 {
    0
}
#[no_mangle]
pub extern "C" fn __vx_list_push(_: u32, _: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn __vx_list_settle(_: u32, _: *mut u32, _: *mut u32, _: *mut u8, _: usize, _: usize) {}
#[no_mangle]
pub extern "C" fn __vx_list_clone(_: u32) -> u32 {
    0
}
#[no_mangle]
pub extern "C" fn __vx_emit(_: u32) {}
