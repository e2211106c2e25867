//! Valgrind client requests (no-ops outside valgrind).

#[cfg(all(target_arch = "x86_64", not(miri)))]
pub fn request(req: usize, a: usize, b: usize) -> usize {
    let args = [req, a, b, 0, 0, 0];
    let mut r: usize = 0;
    unsafe {
        core::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), options(nostack)
        );
    }
    r
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
pub fn request(_req: usize, _a: usize, _b: usize) -> usize {
    0
}

/// Mark as secret: memcheck reports any branch or address depending on it.
pub fn poison(x: &mut [u8]) {
    if !x.is_empty() {
        request(0x4d430001, x.as_mut_ptr() as usize, x.len());
    }
}
/// Mark as public.
pub fn unpoison(x: &mut [u8]) {
    if !x.is_empty() {
        request(0x4d430002, x.as_mut_ptr() as usize, x.len());
    }
}
/// Ask memcheck to report if any byte is undefined. True = fully defined.
pub fn check_defined(x: &[u8]) -> bool {
    x.is_empty() || request(0x4d430005, x.as_ptr() as usize, x.len()) == 0
}
/// Number of errors memcheck has reported so far.
pub fn count_errors() -> usize {
    request(0x1201, 0, 0)
}
pub fn running_on_valgrind() -> bool {
    request(0x1001, 0, 0) != 0
}
