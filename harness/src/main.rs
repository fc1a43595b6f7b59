//! Native side of the harness: the same entry points the symbolic executor
//! runs, replayed with recorded bytes.
extern crate plusendi;
use std::io::Write;

mod entries;
pub mod app {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/app.rs"));
}

static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut PARAMS: Vec<u64> = Vec::new();

#[allow(static_mut_refs)]
fn next() -> u8 {
    unsafe {
        let b = INPUT.get(POS).copied().unwrap_or(0);
        POS += 1;
        b
    }
}

fn say(s: String) {
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

extern "C" fn sx_byte_impl() -> u32 {
    next() as u32
}

extern "C" fn sx_assume_impl(c: u32) {
    if c & 1 == 0 {
        say("ASSUME\n".into());
        std::process::exit(3);
    }
}

extern "C" fn sx_assert_impl(c: u32, msg: *const u8, len: usize) {
    if c & 1 == 0 {
        let m = unsafe { std::slice::from_raw_parts(msg, len) };
        say(format!("ASSERT {}\n", String::from_utf8_lossy(m)));
        std::process::exit(4);
    }
}

extern "C" fn sx_observe_impl(tag: u32, v: u64) {
    say(format!("OBS {} {}\n", tag, v));
}

extern "C" fn sx_cover_impl(id: u32) {
    say(format!("COVER {}\n", id));
}

extern "C" fn sx_fork_impl(v: u64) -> u64 {
    v
}

extern "C" fn sx_sched_impl(n: u32) -> u32 {
    if n < 2 {
        return 0;
    }
    let b = next() as u32;
    if b >= n {
        say("ASSUME\n".into());
        std::process::exit(3);
    }
    b
}

extern "C" fn sx_param_impl(i: u32) -> u64 {
    unsafe { (&*std::ptr::addr_of!(PARAMS)).get(i as usize).copied().unwrap_or(0) }
}

// The real definitions are reached through assembly, so that the compiler's
// intermediate representation keeps them as unknown external functions.
macro_rules! stub {
    ($($n:literal $f:path;)*) => {
        $(std::arch::global_asm!(concat!(".globl ", $n, "\n", $n, ": jmp {}\n"), sym $f);)*
    };
}
stub! {
    "sx_byte" sx_byte_impl;
    "sx_assume" sx_assume_impl;
    "sx_assert" sx_assert_impl;
    "sx_observe" sx_observe_impl;
    "sx_cover" sx_cover_impl;
    "sx_fork" sx_fork_impl;
    "sx_sched" sx_sched_impl;
    "sx_param" sx_param_impl;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in entries::ENTRIES {
            println!("{}", n);
        }
        return;
    }
    if let Some(hex) = a.get(2) {
        let v = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex")).collect();
        unsafe { INPUT = v }
    }
    if let Some(p) = a.get(3) {
        unsafe { PARAMS = p.split(',').map(|x| x.parse().expect("parameter")).collect() }
    }
    let (_, f) = entries::ENTRIES.iter().find(|(n, _)| *n == a[1]).expect("no such entry");
    unsafe { f() };
    say("END\n".into());
}
