//! Marker functions and backtraces.
use std::os::raw::{c_int, c_void};

extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut c_void, *mut c_void) -> c_int, arg: *mut c_void) -> c_int;
    fn _Unwind_FindEnclosingFunction(pc: *mut c_void) -> *mut c_void;
    fn _Unwind_GetIPInfo(ctx: *mut c_void, before: *mut c_int) -> usize;
}

struct St {
    ips: *mut Vec<usize>,
}
extern "C" fn step(ctx: *mut c_void, arg: *mut c_void) -> c_int {
    unsafe {
        let mut before = 0;
        let ip = _Unwind_GetIPInfo(ctx, &mut before);
        let st = &*(arg as *mut St);
        let v = &mut *st.ips;
        if v.len() > 4000 || ip == 0 {
            return 5;
        }
        v.push(if before != 0 { ip } else { ip - 1 });
        0
    }
}
pub fn ips() -> Vec<usize> {
    let mut v = Vec::with_capacity(256);
    let mut st = St { ips: &mut v };
    unsafe { _Unwind_Backtrace(step, &mut st as *mut St as *mut c_void) };
    v
}
/// Markers found in the current backtrace, innermost first.
pub fn markers(fns: &[usize]) -> Vec<u32> {
    let mut out = vec![];
    for ip in ips() {
        let f = unsafe { _Unwind_FindEnclosingFunction(ip as *mut c_void) } as usize;
        if let Some(k) = fns.iter().position(|x| *x == f) {
            out.push(k as u32);
        }
    }
    out
}
