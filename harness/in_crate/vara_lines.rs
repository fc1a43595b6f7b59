// What one line of the modem's control connection means.
use super::*;
use crate::verif::sx;

use super::meaning::{meaning, same, Meaning, LINES};

fn judge(data: &[u8]) {
    let want = meaning(data);
    let got = nom::combinator::all_consuming(tnc_response)(data);
    let got = match got {
        Ok((rest, v)) => {
            sx::check(rest.is_empty(), "a line is read as a whole");
            Some(v)
        }
        Err(_) => None,
    };
    sx::observe(1, got.is_some() as u64);
    let (got, want) = match (got, want) {
        (Some(g), Some(w)) => (g, w),
        (None, None) => {
            sx::cover(2);
            return;
        }
        (Some(_), None) => {
            sx::check(false, "a line that is no report is refused");
            return;
        }
        (None, Some(_)) => {
            sx::check(false, "a proper line is understood");
            return;
        }
    };
    sx::cover(1);
    let right = match (&got, want) {
        (TncResponse::CommandResult(CommandResult::Ok), Meaning::Ok) => true,
        (TncResponse::CommandResult(CommandResult::Wrong), Meaning::Wrong) => true,
        (TncResponse::Update(Update::Heartbeat), Meaning::Alive) => true,
        (TncResponse::Update(Update::Buffer { bytes_remaining }), Meaning::Buffer(n)) => *bytes_remaining as u64 == n,
        (TncResponse::Update(Update::Busy(s)), Meaning::Busy(on)) => (*s == BusyState::Busy) == on,
        (TncResponse::Update(Update::TransceiverControl(s)), Meaning::Ptt(on)) => (*s == TransceiverCommand::Transmit) == on,
        (TncResponse::Update(Update::Connection(ConnectionState::Disconnected)), Meaning::Disconnected) => true,
        (TncResponse::Update(Update::Connection(ConnectionState::Pending)), Meaning::Pending) => true,
        (TncResponse::Update(Update::Connection(ConnectionState::Canceled)), Meaning::Canceled) => true,
        (TncResponse::Update(Update::Connection(ConnectionState::Connected { my_station, other_station })), Meaning::Connected(a, b)) => {
            same(my_station.as_str().as_bytes(), &data[a.0..a.1]) & same(other_station.as_str().as_bytes(), &data[b.0..b.1])
        }
        (TncResponse::Update(Update::Registered { my_call }), Meaning::Registered(a)) => same(my_call.as_str().as_bytes(), &data[a.0..a.1]),
        _ => false,
    };
    sx::check(right, "a line means what it says");
}

/// Any line of `param(0)` bytes.
#[no_mangle]
pub extern "C" fn h_vara_line_any() {
    let n = sx::pick(sx::param(0) as u32 + 1);
    judge(&sx::bytes(n));
}

/// Every proper line with the bytes in a window of `param(0)` places replaced by
/// anything, and with up to `param(1)` bytes more or fewer there.
#[no_mangle]
pub extern "C" fn h_vara_line_near() {
    let (w, d) = (sx::param(0), sx::param(1));
    let text = LINES[sx::pick(LINES.len() as u32)];
    let at = sx::pick(text.len() as u32 + 1);
    let w = w.min(text.len() - at);
    let n = sx::pick((w + d + 1) as u32);
    if n + d < w {
        return;
    }
    let mut data = text[..at].to_vec();
    data.extend(sx::bytes(n));
    data.extend_from_slice(&text[at + w..]);
    judge(&data);
}

/// CONNECTED and REGISTERED followed by anything.
#[no_mangle]
pub extern "C" fn h_vara_line_calls() {
    let mut data = if sx::pick(2) == 0 { b"CONNECTED ".to_vec() } else { b"REGISTERED ".to_vec() };
    let n = sx::pick(sx::param(0) as u32 + 1);
    data.extend(sx::bytes(n));
    judge(&data);
}

/// BUFFER with `param(0)` fixed digits (close to the largest number) and up to
/// `param(1)` arbitrary ones after them.
#[no_mangle]
pub extern "C" fn h_vara_line_buffer() {
    let mut data = b"BUFFER ".to_vec();
    data.extend_from_slice(&b"18446744073709551615"[..sx::param(0)]);
    for _ in 0..sx::pick(sx::param(1) as u32 + 1) {
        let c = sx::byte();
        sx::assume((c >= b'0') & (c <= b'9'));
        data.push(c);
    }
    judge(&data);
}
