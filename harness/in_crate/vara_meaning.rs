// The modem's lines, as documented.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Meaning {
    Ok,
    Wrong,
    Alive,
    Buffer(u64),
    Busy(bool),
    Ptt(bool),
    Disconnected,
    Pending,
    Canceled,
    /// Where the two call signs are.
    Connected((usize, usize), (usize, usize)),
    Registered((usize, usize)),
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// How many capital letters and digits there are at `at`.
fn letters(data: &[u8], at: usize) -> usize {
    let mut n = 0;
    while at + n < data.len() {
        let c = data[at + n];
        if (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9') {
            n += 1;
        } else {
            break;
        }
    }
    n
}

/// The length of the call sign at `at`, its suffix included, 0 if there is none.
fn call(data: &[u8], at: usize) -> usize {
    let n = letters(data, at);
    if n < 3 || n > 7 {
        return 0;
    }
    if at + n < data.len() && data[at + n] == b'-' {
        match letters(data, at + n + 1) {
            m @ (1 | 2) => n + 1 + m,
            _ => 0,
        }
    } else {
        n
    }
}

pub fn meaning(data: &[u8]) -> Option<Meaning> {
    for (text, m) in [
        (&b"OK"[..], Meaning::Ok),
        (b"WRONG", Meaning::Wrong),
        (b"IAMALIVE", Meaning::Alive),
        (b"BUSY ON", Meaning::Busy(true)),
        (b"BUSY OFF", Meaning::Busy(false)),
        (b"PTT ON", Meaning::Ptt(true)),
        (b"PTT OFF", Meaning::Ptt(false)),
        (b"DISCONNECTED", Meaning::Disconnected),
        (b"PENDING", Meaning::Pending),
        (b"CANCELPENDING", Meaning::Canceled),
    ] {
        if same(data, text) {
            return Some(m);
        }
    }
    if data.len() > 7 && same(&data[..7], b"BUFFER ") {
        let mut v = 0u64;
        for &c in &data[7..] {
            if c < b'0' || c > b'9' {
                return None;
            }
            v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
        }
        return Some(Meaning::Buffer(v));
    }
    if data.len() > 10 && same(&data[..10], b"CONNECTED ") {
        let a = call(data, 10);
        if a == 0 || data.len() <= 10 + a || data[10 + a] != b' ' {
            return None;
        }
        let from = 11 + a;
        let b = call(data, from);
        if b == 0 || from + b != data.len() {
            return None;
        }
        return Some(Meaning::Connected((10, 10 + a), (from, from + b)));
    }
    if data.len() > 11 && same(&data[..11], b"REGISTERED ") {
        let a = call(data, 11);
        if a == 0 || 11 + a != data.len() {
            return None;
        }
        return Some(Meaning::Registered((11, 11 + a)));
    }
    None
}

pub const LINES: [&[u8]; 14] = [
    b"OK", b"WRONG", b"IAMALIVE", b"BUFFER 1844", b"BUSY ON", b"BUSY OFF", b"PTT ON", b"PTT OFF", b"DISCONNECTED", b"PENDING", b"CANCELPENDING", b"CONNECTED K1A N0CALL7", b"REGISTERED W1AW", b"CONNECTED W1AW-1 N0C-10",
];
