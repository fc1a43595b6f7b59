// Included in plusendi's lib.rs under cfg(plusendi_verif).
pub mod rt {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/rt.rs"));
}
pub mod log {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/log.rs"));
}
pub mod sx {
    //! The symbolic API. The symbolic executor gives these their meaning; in a
    //! native run they read recorded bytes and print what happened.
    extern "C" {
        fn sx_byte() -> u32;
        fn sx_assume(c: u32);
        fn sx_assert(c: u32, msg: *const u8, len: usize);
        fn sx_observe(tag: u32, v: u64);
        fn sx_cover(id: u32);
        fn sx_fork(v: u64) -> u64;
        fn sx_sched(n: u32) -> u32;
        fn sx_param(i: u32) -> u64;
    }
    /// Any byte.
    #[inline(always)]
    pub fn byte() -> u8 {
        unsafe { sx_byte() as u8 }
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes([byte(), byte()])
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes([byte(), byte(), byte(), byte()])
    }
    /// Only executions in which `c` holds are considered.
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { sx_assume(c as u32) }
    }
    /// The claim.
    #[inline(always)]
    pub fn check(c: bool, msg: &'static str) {
        unsafe { sx_assert(c as u32, msg.as_ptr(), msg.len()) }
    }
    /// Part of the execution's observable outcome (compared with native runs).
    #[inline(always)]
    pub fn observe(tag: u32, v: u64) {
        unsafe { sx_observe(tag, v) }
    }
    pub fn observe_bytes(tag: u32, b: &[u8]) {
        observe(tag, b.len() as u64);
        for &x in b {
            observe(tag, x as u64);
        }
    }
    /// A place some execution must reach (vacuity witness).
    #[inline(always)]
    pub fn cover(id: u32) {
        unsafe { sx_cover(id) }
    }
    /// Every feasible value of `v`, each on its own path.
    #[inline(always)]
    pub fn fork(v: u64) -> u64 {
        unsafe { sx_fork(v) }
    }
    /// Any of 0..n, each on its own path.
    #[inline(always)]
    pub fn pick(n: u32) -> usize {
        unsafe { sx_sched(n) as usize }
    }
    /// A bound of this run (given on the command line).
    #[inline(always)]
    pub fn param(i: u32) -> usize {
        unsafe { sx_param(i) as usize }
    }
    /// A symbolic boolean.
    pub fn bool() -> bool {
        let b = byte();
        assume(b <= 1);
        b == 1
    }
    pub fn bytes(n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(byte());
        }
        v
    }
}

/// The coder with smaller constants (generated by tools/gen_scaled.py).
#[cfg(vscaled_tree3)]
pub mod lzhuf_tree3 {
    include!(concat!(env!("PLUSENDI_VERIF_GEN"), "/lzhuf_tree3.rs"));
    #[no_mangle]
    pub extern "C" fn h_tree3_step() { verif::tree_step() }
    #[no_mangle]
    pub extern "C" fn h_tree3_start() { verif::tree_start() }
    #[no_mangle]
    pub extern "C" fn h_tree3_rebuild() { verif::tree_rebuild() }
}
#[cfg(vscaled_tree4)]
pub mod lzhuf_tree4 {
    include!(concat!(env!("PLUSENDI_VERIF_GEN"), "/lzhuf_tree4.rs"));
    #[no_mangle]
    pub extern "C" fn h_tree4_step() { verif::tree_step() }
    #[no_mangle]
    pub extern "C" fn h_tree4_start() { verif::tree_start() }
    #[no_mangle]
    pub extern "C" fn h_tree4_rebuild() { verif::tree_rebuild() }
}
#[cfg(vscaled_tree5)]
pub mod lzhuf_tree5 {
    include!(concat!(env!("PLUSENDI_VERIF_GEN"), "/lzhuf_tree5.rs"));
    #[no_mangle]
    pub extern "C" fn h_tree5_step() { verif::tree_step() }
    #[no_mangle]
    pub extern "C" fn h_tree5_start() { verif::tree_start() }
    #[no_mangle]
    pub extern "C" fn h_tree5_rebuild() { verif::tree_rebuild() }
}
#[cfg(vscaled_win)]
pub mod lzhuf_win {
    include!(concat!(env!("PLUSENDI_VERIF_GEN"), "/lzhuf_win.rs"));
    #[no_mangle]
    pub extern "C" fn h_win_letters() { verif::win_letters() }
}
