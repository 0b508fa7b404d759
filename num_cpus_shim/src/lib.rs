//! Stand-in for the num_cpus crate in the harness build: the number of processors reported to the code under
//! test can be set per thread, so machine sizes other than this one's are reachable. Without an override it
//! reports the calling thread's processor affinity, as the real crate does.
use std::cell::Cell;

thread_local! {
    static OVERRIDE: Cell<usize> = const { Cell::new(0) };
}
extern "C" {
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
}
/// 0 removes the override
pub fn set_override(n: usize) -> usize {
    OVERRIDE.with(|o| o.replace(n))
}
pub fn get() -> usize {
    let o = OVERRIDE.with(|o| o.get());
    if o > 0 {
        return o;
    }
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    (m.iter().map(|x| x.count_ones() as usize).sum::<usize>()).max(1)
}
pub fn get_physical() -> usize {
    get()
}
