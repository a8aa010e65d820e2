//! What the coverage instrumentation calls; a crate of its own so that it is not instrumented itself.
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub const MAX_MODULES: usize = 256;
pub static STARTS: [AtomicPtr<u8>; MAX_MODULES] = [const { AtomicPtr::new(std::ptr::null_mut()) }; MAX_MODULES];
pub static LENS: [AtomicUsize; MAX_MODULES] = [const { AtomicUsize::new(0) }; MAX_MODULES];
pub static MODULES: AtomicUsize = AtomicUsize::new(0);
pub static ON: AtomicBool = AtomicBool::new(false);
pub const CMP_BITS: usize = 18;
pub static CMP: [AtomicU8; 1 << CMP_BITS] = [const { AtomicU8::new(0) }; 1 << CMP_BITS];
pub static CMP_NEW: AtomicU64 = AtomicU64::new(0);

/// # Safety
/// called by the instrumentation only
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start == stop || (0..MODULES.load(Relaxed)).any(|i| STARTS[i].load(Relaxed) == start) {
        return;
    }
    let k = MODULES.fetch_add(1, Relaxed);
    if k < MAX_MODULES {
        STARTS[k].store(start, Relaxed);
        LENS[k].store(stop as usize - start as usize, Relaxed);
    }
}
/// # Safety
/// called by the instrumentation only
#[no_mangle]
pub unsafe extern "C" fn vcov_cmp(a: u64, b: u64, pc: u64) {
    if !ON.load(Relaxed) {
        return;
    }
    let far = 64 - a.abs_diff(b).leading_zeros() as u64;
    let f = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20).wrapping_add(far) as usize & ((1 << CMP_BITS) - 1);
    if CMP[f].load(Relaxed) == 0 {
        CMP[f].store(1, Relaxed);
        CMP_NEW.fetch_add(1, Relaxed);
    }
}
/// # Safety
/// called by the instrumentation only
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}
std::arch::global_asm!(
    ".macro vcov_hook name, fix1, fix2",
    ".globl \\name",
    ".type \\name, @function",
    "\\name:",
    "  \\fix1",
    "  \\fix2",
    "  mov rdx, [rsp]",
    "  jmp {cmp}@PLT",
    ".endm",
    "vcov_hook __sanitizer_cov_trace_cmp1, \"movzx edi, dil\", \"movzx esi, sil\"",
    "vcov_hook __sanitizer_cov_trace_cmp2, \"movzx edi, di\", \"movzx esi, si\"",
    "vcov_hook __sanitizer_cov_trace_cmp4, \"mov edi, edi\", \"mov esi, esi\"",
    "vcov_hook __sanitizer_cov_trace_cmp8, \"nop\", \"nop\"",
    "vcov_hook __sanitizer_cov_trace_const_cmp1, \"movzx edi, dil\", \"movzx esi, sil\"",
    "vcov_hook __sanitizer_cov_trace_const_cmp2, \"movzx edi, di\", \"movzx esi, si\"",
    "vcov_hook __sanitizer_cov_trace_const_cmp4, \"mov edi, edi\", \"mov esi, esi\"",
    "vcov_hook __sanitizer_cov_trace_const_cmp8, \"nop\", \"nop\"",
    cmp = sym vcov_cmp,
);
