//! Which functions are given a built-in meaning instead of being executed: compiler intrinsics, the
//! allocator, the C memory functions, the ends of panics, and the harness's own primitives.
use crate::exec::{short, Builtin};
use Builtin::*;

pub fn classify(name: &str) -> Option<Builtin> {
    if let Some(n) = name.strip_prefix("llvm.") {
        return Some(llvm(n).unwrap_or_else(|| crate::fatal(&format!("unsupported intrinsic llvm.{n}"))));
    }
    let b = match name {
        "vx_choice" => Choice,
        "vx_slice" => Slice,
        "vx_assume" => Assume,
        "vx_assert" => Assert,
        "vx_cover" => Cover,
        "vx_observe" => Observe,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => CRealloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" | "bcmp" => Memcmp,
        "strlen" => Strlen,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "clock_gettime" => Clock,
        "write" => Write,
        "__errno_location" => Errno,
        "getenv" => Zero,
        "__cxa_thread_atexit_impl" => Zero,
        "abort" | "exit" | "_exit" => Abort,
        _ => {
            if !name.starts_with("_R") {
                return None;
            }
            let s = short(name);
            let s = s.as_str();
            match s {
                "__rustc::__rust_alloc" | "__rustc::__rdl_alloc" => Alloc,
                "__rustc::__rust_alloc_zeroed" | "__rustc::__rdl_alloc_zeroed" => AllocZeroed,
                "__rustc::__rust_dealloc" | "__rustc::__rdl_dealloc" => Dealloc,
                "__rustc::__rust_realloc" | "__rustc::__rdl_realloc" => Realloc,
                "__rustc::rust_begin_unwind" | "__rustc::rust_panic" => Panic,
                "core::option::unwrap_failed"
                | "core::option::expect_failed"
                | "core::result::unwrap_failed"
                | "core::str::slice_error_fail"
                | "alloc::raw_vec::handle_error"
                | "alloc::raw_vec::capacity_overflow"
                | "alloc::alloc::handle_alloc_error"
                | "std::process::abort"
                | "std::process::exit" => Panic,
                // what is printed on the terminal is not looked at
                // unless the harness collects it
                "std::io::stdio::_eprint" => Print(true),
                "std::io::stdio::_print" => Print(false),
                _ => {
                    if s.starts_with("__rustc::__rust_no_alloc_shim_is_unstable") {
                        return Some(Nop);
                    }
                    let free_fn = name.starts_with("_RNv") || name.starts_with("_RINv");
                    let simple = !name.starts_with("_RNvX") && !name.starts_with("_RNvM");
                    if free_fn
                        && simple
                        && (s.starts_with("core::panicking::")
                            || s.starts_with("core::slice::index::slice_") && s.contains("fail")
                            || s.starts_with("core::cell::panic_")
                            || s.starts_with("std::panicking::begin_panic")
                            || s == "std::panicking::panic_with_hook")
                    {
                        return Some(Panic);
                    }
                    return None;
                }
            }
        }
    };
    Some(b)
}

fn llvm(n: &str) -> Option<Builtin> {
    let st = |p: &str| n.starts_with(p);
    Some(match () {
        _ if st("lifetime.") || st("assume") || st("dbg.") || st("experimental.noalias") || st("prefetch") => Nop,
        _ if st("invariant.") || st("donothing") || st("sideeffect") || st("x86.sse2.pause") || st("pseudoprobe") => Nop,
        _ if st("memcpy.") || st("memmove.") => Memcpy,
        _ if st("memset.") => Memset,
        _ if st("ctpop.") => Ctpop,
        _ if st("ctlz.") => Ctlz,
        _ if st("cttz.") => Cttz,
        _ if st("bswap.") => Bswap,
        _ if st("bitreverse.") => Bitreverse,
        _ if st("fshl.") => Fshl,
        _ if st("fshr.") => Fshr,
        _ if st("uadd.with.overflow") => OvUAdd,
        _ if st("usub.with.overflow") => OvUSub,
        _ if st("umul.with.overflow") => OvUMul,
        _ if st("sadd.with.overflow") => OvSAdd,
        _ if st("ssub.with.overflow") => OvSSub,
        _ if st("smul.with.overflow") => OvSMul,
        _ if st("uadd.sat") => UAddSat,
        _ if st("usub.sat") => USubSat,
        _ if st("sadd.sat") => SAddSat,
        _ if st("ssub.sat") => SSubSat,
        _ if st("umax.") => UMax,
        _ if st("umin.") => UMin,
        _ if st("smax.") => SMax,
        _ if st("smin.") => SMin,
        _ if st("abs.") => Abs,
        _ if st("scmp.") => Scmp,
        _ if st("ucmp.") => Ucmp,
        _ if st("trap") || st("ubsantrap") => Trap,
        _ if st("objectsize.") => Objsize,
        _ if st("is.constant") => IsConstant,
        _ if st("threadlocal.address") || st("expect") || st("launder.invariant") || st("strip.invariant") => Ident,
        _ if st("ssa.copy") || st("arithmetic.fence") => Ident,
        _ if st("vector.reduce.add") => ReduceAdd,
        _ if st("vector.reduce.mul") => ReduceMul,
        _ if st("vector.reduce.or") => ReduceOr,
        _ if st("vector.reduce.and") => ReduceAnd,
        _ if st("vector.reduce.xor") => ReduceXor,
        _ if st("vector.reduce.umax") => ReduceUMax,
        _ if st("vector.reduce.umin") => ReduceUMin,
        _ if st("fabs.") => FloatFn(0),
        _ if st("floor.") => FloatFn(1),
        _ if st("ceil.") => FloatFn(2),
        _ if st("sqrt.") => FloatFn(3),
        _ if st("round.") => FloatFn(4),
        _ if st("trunc.") => FloatFn(5),
        _ if st("maxnum.") || st("maximumnum.") => FloatFn(6),
        _ if st("minnum.") || st("minimumnum.") => FloatFn(7),
        _ if st("copysign.") => FloatFn(8),
        _ if st("sin.") => FloatFn(9),
        _ if st("cos.") => FloatFn(10),
        _ if st("pow.") => FloatFn(13),
        _ if st("roundeven.") || st("rint.") || st("nearbyint.") => FloatFn(14),
        _ if st("fmuladd.") || st("fma.") => Fma,
        _ if st("fptoui.sat") => FptoSat(false),
        _ if st("fptosi.sat") => FptoSat(true),
        _ => return None,
    })
}
