//! Entry point. Interposes fsync/fdatasync/ftruncate so that durability syncs and truncations of the
//! code under test are observed (and not performed) when they target a registered scratch path.
use std::os::raw::{c_int, c_long};

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

fn path_of(fd: c_int) -> Option<String> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok().map(|p| p.to_string_lossy().into_owned())
}
fn eio() -> c_int {
    unsafe { *__errno_location() = 5 };
    -1
}
fn sync(fd: c_int) -> c_int {
    match path_of(fd) {
        Some(p) if !tonbo::verif::tracefs::note_sync(&p) => eio(),
        _ => 0,
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd)
}
#[unsafe(no_mangle)]
pub extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd)
}
fn trunc(fd: c_int, len: i64) -> c_int {
    match path_of(fd).and_then(|p| tonbo::verif::tracefs::note_truncate(&p, len as usize)) {
        Some(true) => 0,
        Some(false) => eio(),
        None => unsafe { syscall(77, fd as c_long, len as c_long) as c_int },
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    trunc(fd, len)
}
#[unsafe(no_mangle)]
pub extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    trunc(fd, len)
}

fn main() {
    tonbo::verif::main()
}
