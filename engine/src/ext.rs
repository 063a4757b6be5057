//! External functions and intrinsics the engine models.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum X {
    Memcpy,
    Memmove,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Abort,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    IsConstant,
    Expect,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Zero,
    One,
    MinusOne,
    Write,
    Errno,
    Sysconf,
    Getrandom,
    KeyCreate,
    KeyGet,
    KeySet,
    SymVar,
    SymChoice,
    SymConcretize,
    SymAssume,
    SymCheck,
    SymReach,
    SymNote,
    SymObserve,
    SymFail,
    Unknown,
}

pub fn classify(n: &str) -> X {
    let i = |p: &str| n.starts_with(p);
    match n {
        "memcpy" => X::Memcpy,
        "memmove" => X::Memmove,
        "memset" => X::Memset,
        "bcmp" => X::Bcmp,
        "memcmp" => X::Memcmp,
        "memchr" => X::Memchr,
        "strlen" => X::Strlen,
        "malloc" | "__rust_alloc_sys" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "free" => X::Free,
        "posix_memalign" => X::PosixMemalign,
        "aligned_alloc" => X::AlignedAlloc,
        "abort" | "llvm.trap" | "exit" | "_exit" | "llvm.ubsantrap" => X::Abort,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutex_destroy" | "pthread_mutexattr_init" | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy" | "pthread_mutex_init"
        | "pthread_key_delete" | "sched_yield" | "sigaltstack" | "sigaction" | "munmap" | "mprotect" | "poll" | "signal" => X::Zero,
        "pthread_key_create" => X::KeyCreate,
        "pthread_getspecific" => X::KeyGet,
        "pthread_setspecific" => X::KeySet,
        "pthread_self" | "getpid" | "gettid" => X::One,
        "syscall" => X::MinusOne,
        "write" | "writev" => X::Write,
        "__errno_location" => X::Errno,
        "sysconf" => X::Sysconf,
        "getrandom" => X::Getrandom,
        "__sym_var" => X::SymVar,
        "__sym_choice" => X::SymChoice,
        "__sym_concretize" => X::SymConcretize,
        "__sym_assume" => X::SymAssume,
        "__sym_check" => X::SymCheck,
        "__sym_reach" => X::SymReach,
        "__sym_note" => X::SymNote,
        "__sym_observe" => X::SymObserve,
        "__sym_fail" => X::SymFail,
        _ if i("llvm.memcpy") => X::Memcpy,
        _ if i("llvm.memmove") => X::Memmove,
        _ if i("llvm.memset") => X::Memset,
        _ if i("llvm.umin") => X::Umin,
        _ if i("llvm.umax") => X::Umax,
        _ if i("llvm.smin") => X::Smin,
        _ if i("llvm.smax") => X::Smax,
        _ if i("llvm.abs") => X::Abs,
        _ if i("llvm.uadd.with.overflow") => X::UaddO,
        _ if i("llvm.usub.with.overflow") => X::UsubO,
        _ if i("llvm.umul.with.overflow") => X::UmulO,
        _ if i("llvm.sadd.with.overflow") => X::SaddO,
        _ if i("llvm.ssub.with.overflow") => X::SsubO,
        _ if i("llvm.smul.with.overflow") => X::SmulO,
        _ if i("llvm.uadd.sat") => X::UaddSat,
        _ if i("llvm.usub.sat") => X::UsubSat,
        _ if i("llvm.sadd.sat") => X::SaddSat,
        _ if i("llvm.ssub.sat") => X::SsubSat,
        _ if i("llvm.ctlz") => X::Ctlz,
        _ if i("llvm.cttz") => X::Cttz,
        _ if i("llvm.ctpop") => X::Ctpop,
        _ if i("llvm.bswap") => X::Bswap,
        _ if i("llvm.bitreverse") => X::Bitreverse,
        _ if i("llvm.fshl") => X::Fshl,
        _ if i("llvm.fshr") => X::Fshr,
        _ if i("llvm.ucmp") => X::Ucmp,
        _ if i("llvm.scmp") => X::Scmp,
        _ if i("llvm.is.constant") => X::IsConstant,
        _ if i("llvm.expect") => X::Expect,
        _ if i("llvm.vector.reduce.or") => X::ReduceOr,
        _ if i("llvm.vector.reduce.and") => X::ReduceAnd,
        _ if i("llvm.vector.reduce.add") => X::ReduceAdd,
        _ => X::Unknown,
    }
}
