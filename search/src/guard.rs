//! Data placed directly against an inaccessible page, so that a read outside it kills the process.
use std::os::fd::AsRawFd;
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
pub fn map_file(path: &str, len: usize) -> *mut u8 {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    std::mem::forget(f);
    p
}
pub struct Guarded { base: *mut u8, total: usize, start: *mut u8, len: usize }
impl Guarded {
    /// `at_end`: the data ends at the inaccessible page; otherwise it starts right after one
    pub fn new(data: &[u8], at_end: bool) -> Guarded {
        let body = (data.len() + PAGE - 1) / PAGE * PAGE + if data.is_empty() { PAGE } else { 0 };
        let total = body + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            mprotect(base, PAGE, 0);
            mprotect(base.add(PAGE + body), PAGE, 0);
            let start = if at_end { base.add(PAGE + body - data.len()) } else { base.add(PAGE) };
            std::ptr::copy_nonoverlapping(data.as_ptr(), start, data.len());
            Guarded { base, total, start, len: data.len() }
        }
    }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.start, self.len) } }
    pub fn bytes_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.start, self.len) } }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { munmap(self.base, self.total); } } }
