use crate::verif::sx;

fn is_digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn is_letter(c: u8) -> bool {
    (c >= b'A' && c <= b'Z') || (c >= b'a' && c <= b'z')
}
fn is_alnum(c: u8) -> bool {
    is_digit(c) || is_letter(c)
}

/// An optional digit, letters, digits, a letter, then letters or digits, and
/// optionally a dash with one or two letters or digits: the whole text. A
/// plain left-to-right automaton.
fn well_formed(s: &[u8]) -> bool {
    // 0 start, 1 after the leading digit, 2 letters, 3 digits, 4 tail, 5 dash, 6 one of the suffix, 7 two
    let mut st = 0;
    for &c in s {
        st = match st {
            0 if is_digit(c) => 1,
            0 | 1 if is_letter(c) => 2,
            2 if is_letter(c) => 2,
            2 if is_digit(c) => 3,
            3 if is_digit(c) => 3,
            3 if is_letter(c) => 4,
            4 if is_alnum(c) => 4,
            4 if c == b'-' => 5,
            5 if is_alnum(c) => 6,
            6 if is_alnum(c) => 7,
            _ => return false,
        };
    }
    st == 4 || st == 6 || st == 7
}

fn upper(c: u8) -> u8 {
    if c >= b'a' && c <= b'z' {
        c - 32
    } else {
        c
    }
}

fn judge(text: &str) {
    let s = text.as_bytes();
    let got = StationId::new(text);
    let by_ref = StationIdRef::from_str(text);
    let want = well_formed(s);
    sx::observe(1, got.is_ok() as u64);
    sx::check(got.is_ok() == want, "a text is a station identity exactly if the whole of it is a call sign");
    sx::check(by_ref.is_ok() == want, "a borrowed text is judged the same");
    match got {
        Ok(id) => {
            let stored = id.as_str().as_bytes();
            sx::check(stored.len() == s.len(), "the identity is the text");
            let mut ok = true;
            for i in 0..s.len() {
                ok &= stored[i] == upper(s[i]);
            }
            sx::check(ok, "the identity is the text in upper case");
            sx::observe_bytes(2, stored);
            let again = StationId::new(id.as_str());
            sx::check(again.map_or(false, |a| a == id), "an identity is its own identity");
            if let Ok(r) = by_ref {
                sx::check(r.as_str().as_bytes() == stored, "a borrowed text gives the same identity");
            }
            sx::cover(1);
        }
        Err(_) => sx::cover(2),
    }
}

/// Every ASCII text of up to `param` bytes.
#[no_mangle]
pub extern "C" fn h_station_any() {
    // whatever is set up on first use
    let _ = StationId::new("K1A");
    let n = sx::pick(sx::param(0) as u32 + 1);
    let b = sx::bytes(n);
    for &c in &b {
        sx::assume(c < 0x80);
    }
    judge(unsafe { std::str::from_utf8_unchecked(&b) });
}

/// Longer texts around proper call signs: a window of `param(0)` bytes replaced
/// by anything, with up to `param(1)` more or fewer bytes, and at times a
/// character that is not ASCII.
#[no_mangle]
pub extern "C" fn h_station_near() {
    let _ = StationId::new("K1A");
    let (w, d) = (sx::param(0), sx::param(1));
    let texts: [&[u8]; 5] = [b"KC1GSL", b"4x6abc-12", b"2E0AAA-Z", b"n0call7", b"ABCDEFGHIJ1234567890K1L2M3N4O5P6Q7-99"];
    let text = texts[sx::pick(5)];
    let at = sx::pick(text.len() as u32 + 1);
    let w = w.min(text.len() - at);
    let n = sx::pick((w + d + 1) as u32);
    if n + d < w {
        return;
    }
    let mut data = text[..at].to_vec();
    for _ in 0..n {
        let c = sx::byte();
        sx::assume(c < 0x80);
        data.push(c);
    }
    data.extend_from_slice(&text[at + w..]);
    judge(unsafe { std::str::from_utf8_unchecked(&data) });
}

/// A character that is not ASCII anywhere in a call sign.
#[no_mangle]
pub extern "C" fn h_station_foreign() {
    let _ = StationId::new("K1A");
    let text = b"4x6ab-1";
    let at = sx::pick(8);
    let over = sx::pick(2).min(7 - at);
    let mut data = text[..at].to_vec();
    match sx::pick(3) {
        0 => {
            let (a, b) = (sx::byte(), sx::byte());
            sx::assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
            data.extend_from_slice(&[a, b]);
        }
        1 => {
            let (a, b, c) = (sx::byte(), sx::byte(), sx::byte());
            sx::assume((a >= 0xe1) & (a <= 0xec) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
            data.extend_from_slice(&[a, b, c]);
        }
        _ => {
            let (b, c, d) = (sx::byte(), sx::byte(), sx::byte());
            sx::assume((b >= 0x90) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf) & (d >= 0x80) & (d <= 0xbf));
            data.extend_from_slice(&[0xf0, b, c, d]);
        }
    }
    data.extend_from_slice(&text[at + over..]);
    judge(unsafe { std::str::from_utf8_unchecked(&data) });
}
