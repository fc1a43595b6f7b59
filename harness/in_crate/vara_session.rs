// Sessions with a modelled modem, through what the library offers its users.
use super::*;
use crate::verif::rt::{self, Local};
use crate::verif::sx;
use tokio::model;

const CONTROL: usize = 0;
const DATA: usize = 1;
/// The spawned control task.
const MANAGER: usize = 0;

pub fn session() -> VaraTnc {
    model::reset();
    let mut b = VaraTnc::builder();
    let tnc = match rt::now(b.build()) {
        Some(Ok(t)) => t,
        _ => panic!("no session"),
    };
    rt::settle();
    tnc
}

fn say(text: &[u8]) {
    model::link(CONTROL).push(text.to_vec());
}

fn station(s: &str) -> StationId {
    unsafe { StationIdRef::from_str_unchecked(s) }.to_owned()
}

/// Any character a call sign may have, of one kind.
fn letter() -> u8 {
    let c = sx::byte();
    sx::assume((c >= b'A') & (c <= b'Z'));
    c
}

/// A report of a connection between any two stations.
fn connected_report() -> Vec<u8> {
    let mut v = b"CONNECTED K1".to_vec();
    v.push(letter());
    v.extend_from_slice(b" N0");
    v.push(letter());
    v.extend_from_slice(b"ALL\r");
    v
}

/// A report of any number of bytes left to send.
fn buffer_report() -> Vec<u8> {
    let (a, b) = (sx::byte(), sx::byte());
    sx::assume((a >= b'0') & (a <= b'9') & (b >= b'0') & (b <= b'9'));
    let mut v = b"BUFFER ".to_vec();
    v.push(a);
    v.push(b);
    v.push(b'\r');
    v
}

/// What the modem's lines so far amount to.
#[derive(Clone)]
struct Status {
    busy: bool,
    buffer: u64,
    ptt: bool,
    registered: [bool; 2],
    beats: usize,
}

const CALLS: [&str; 2] = ["K1A", "N0CALL"];

/// One of the reports; the numbers are arbitrary.
fn report(line: &mut Vec<u8>, s: &mut Status) {
    match sx::pick(9) {
        0 => {
            line.extend_from_slice(b"BUSY ON");
            s.busy = true;
        }
        1 => {
            line.extend_from_slice(b"BUSY OFF");
            s.busy = false;
        }
        2 => {
            line.extend_from_slice(b"PTT ON");
            s.ptt = true;
        }
        3 => {
            line.extend_from_slice(b"PTT OFF");
            s.ptt = false;
        }
        4 => {
            let (a, b) = (sx::byte(), sx::byte());
            sx::assume((a >= b'0') & (a <= b'9') & (b >= b'0') & (b <= b'9'));
            line.extend_from_slice(b"BUFFER ");
            line.extend_from_slice(&[a, b]);
            s.buffer = (a - b'0') as u64 * 10 + (b - b'0') as u64;
        }
        5 => {
            let k = sx::pick(2);
            line.extend_from_slice(b"REGISTERED ");
            line.extend_from_slice(CALLS[k].as_bytes());
            s.registered[k] = true;
        }
        6 => {
            line.extend_from_slice(b"IAMALIVE");
            s.beats += 1;
        }
        7 => line.extend_from_slice([&b"DISCONNECTED"[..], b"PENDING", b"CANCELPENDING"][sx::pick(3)]),
        _ => line.extend_from_slice(b"CONNECTED K1A N0CALL"),
    }
}

fn agrees(tnc: &VaraTnc, rig: &tokio::sync::watch::Receiver<TransceiverCommand>, s: &Status) {
    sx::check((tnc.busy_state() == BusyState::Busy) == s.busy, "the busy state is the last one reported");
    sx::check(tnc.buffer() as u64 == s.buffer, "the buffer count is the last one reported");
    sx::check((*rig.borrow() == TransceiverCommand::Transmit) == s.ptt, "the keying state is the last one reported");
    for i in 0..2 {
        let r = tnc.local_registration(unsafe { StationIdRef::from_str_unchecked(CALLS[i]) }) == Registration::Registered;
        sx::check(r == s.registered[i], "the registered stations are those reported");
    }
    sx::check(tnc.local_registration(unsafe { StationIdRef::from_str_unchecked("W1AW") }) == Registration::Unregistered, "no other station is registered");
}

/// `param(0)` reports, their bytes arriving in pieces cut at up to `param(1)` places.
#[no_mangle]
pub extern "C" fn h_vara_split() {
    let (k, cuts) = (sx::param(0), sx::param(1));
    let tnc = session();
    let rig = tnc.subscribe_rig_command();
    let start = tnc.last_heartbeat();
    let mut s = Status { busy: false, buffer: 0, ptt: false, registered: [false; 2], beats: 0 };
    let mut bytes = Vec::new();
    // where lines end, and what holds from there on
    let mut marks = vec![(0, s.clone())];
    for _ in 0..k {
        report(&mut bytes, &mut s);
        bytes.push(b'\r');
        marks.push((bytes.len(), s.clone()));
    }
    // the last line may have lost its end for now
    let mut from = 0;
    let mut beats = 0;
    let mut last = start;
    for c in 0..=cuts {
        let left = bytes.len() - from;
        let n = if c == cuts { left } else { sx::pick(left as u32 + 1) };
        if n == 0 {
            continue;
        }
        say(&bytes[from..from + n]);
        from += n;
        rt::settle();
        let now = marks.iter().rev().find(|m| m.0 <= from).map(|m| m.1.clone()).unwrap();
        agrees(&tnc, &rig, &now);
        let t = tnc.last_heartbeat();
        sx::check((t > last) == (now.beats > beats), "the heartbeat time moves exactly with a heartbeat");
        last = t;
        beats = now.beats;
    }
    sx::check(!model::finished(MANAGER), "proper reports leave the session alive");
    sx::check(model::link(CONTROL).written.is_empty(), "reports are not answered");
    sx::observe(1, tnc.buffer() as u64);
    sx::observe(2, tnc.busy_state() as u64);
    sx::cover(1);
}

/// A proper line with a window of `param(0)` bytes replaced by anything, up to
/// `param(1)` more or fewer, sent to a session in which a command or a connect waits.
#[no_mangle]
pub extern "C" fn h_vara_line_session() {
    use super::meaning::{meaning, same, Meaning, LINES};
    let (w, d) = (sx::param(0), sx::param(1));
    rt::free_selects(0);
    let text = LINES[sx::pick(LINES.len() as u32)];
    let at = sx::pick(text.len() as u32 + 1);
    let w = w.min(text.len() - at);
    let n = sx::pick((w + d + 1) as u32);
    if n + d < w {
        return;
    }
    let mut data = text[..at].to_vec();
    for _ in 0..n {
        let c = sx::byte();
        sx::assume(c != b'\r');
        data.push(c);
    }
    data.extend_from_slice(&text[at + w..]);
    let want = meaning(&data);
    if let Some(Meaning::Registered(r)) = want {
        // (these are hashed: one path for each)
        for c in &mut data[r.0..r.1] {
            *c = sx::fork(*c as u64) as u8;
        }
    }
    let mut tnc = session();
    let rig = tnc.subscribe_rig_command();
    let mut s = Status { busy: false, buffer: 0, ptt: false, registered: [false; 2], beats: 0 };
    if sx::pick(2) == 1 {
        say(b"BUSY ON\rBUFFER 7\rPTT ON\r");
        rt::settle();
        s = Status { busy: true, buffer: 7, ptt: true, registered: [false; 2], beats: 0 };
    }
    let before = tnc.last_heartbeat();
    let connecting = sx::pick(2) == 1;
    let mut line = data.clone();
    line.push(b'\r');
    if connecting {
        let mut c = Local::new(tnc.connect(station("K1A"), station("N0CALL")));
        rt::run(&mut c);
        say(b"OK\r");
        rt::run(&mut c);
        sx::check(!c.done(), "a connect accepted waits for a report");
        say(&line);
        rt::run(&mut c);
        let (done, ok) = (c.done(), matches!(c.out, Some(Ok(_))));
        match want {
            Some(Meaning::Connected(..)) => sx::check(ok, "a connect succeeds when a connection is reported"),
            Some(Meaning::Disconnected) | Some(Meaning::Pending) | Some(Meaning::Canceled) => sx::check(done && !ok, "a connect fails when anything else is reported"),
            Some(_) => sx::check(!done, "other lines are no connection report"),
            None => sx::check(!ok, "a line that is no report is no connection report"),
        }
        drop(c);
    } else {
        let mut c = Local::new(tnc.send_abort());
        rt::run(&mut c);
        say(&line);
        rt::run(&mut c);
        let (done, ok) = (c.done(), matches!(c.out, Some(Ok(_))));
        match want {
            Some(Meaning::Ok) => sx::check(ok, "OK is a success"),
            Some(Meaning::Wrong) => sx::check(done && !ok, "WRONG is a failure"),
            Some(_) => sx::check(!done, "other lines are no answer"),
            None => sx::check(!ok, "a line that is no report is no answer"),
        }
        drop(c);
    }
    match want {
        Some(Meaning::Busy(b)) => s.busy = b,
        Some(Meaning::Buffer(n)) => s.buffer = n,
        Some(Meaning::Ptt(p)) => s.ptt = p,
        Some(Meaning::Registered(r)) => {
            let call = unsafe { StationIdRef::from_str_unchecked(std::str::from_utf8_unchecked(&data[r.0..r.1])) };
            sx::check(tnc.local_registration(call) == Registration::Registered, "the station on the line is registered");
            for i in 0..2 {
                s.registered[i] = same(CALLS[i].as_bytes(), call.as_str().as_bytes());
            }
            if same(call.as_str().as_bytes(), b"W1AW") {
                sx::cover(4);
                return;
            }
        }
        _ => {}
    }
    agrees(&tnc, &rig, &s);
    sx::check((tnc.last_heartbeat() > before) == matches!(want, Some(Meaning::Alive)), "the heartbeat time moves exactly with a heartbeat");
    sx::cover(if want.is_some() { 1 } else { 2 });
}

// ---------------------------------------------------------------- commands

type Answer = color_eyre::Result<()>;

/// A caller's request and the line it stands for.
fn request<'a>(tnc: &'a VaraTnc, i: usize) -> (Local<'a, Answer>, &'static [u8]) {
    match i {
        0 => (Local::new(tnc.send_compression(CompressionMode::Text)), b"COMPRESSION TEXT\r"),
        1 => (Local::new(tnc.send_bandwidth(BandwidthMode::Wide)), b"BW2300\r"),
        2 => (Local::new(tnc.send_callsign(station("K1A"))), b"MYCALL K1A\r"),
        3 => (Local::new(tnc.send_abort()), b"ABORT\r"),
        _ => (Local::new(tnc.send_disconnect()), b"DISCONNECT\r"),
    }
}

/// How the link takes what is written: all at once, or piecemeal.
fn acceptance() {
    let l = model::link(CONTROL);
    match sx::pick(3) {
        0 => {}
        1 => l.accept.extend([1, 0, 2, 0, 0, 3]),
        _ => l.accept.extend([0, 5, 1]),
    }
}

/// Or nothing, beyond so much, until there is room.
fn acceptance_or_stall() {
    match sx::pick(2) {
        0 => acceptance(),
        _ => model::link(CONTROL).make_room(Some(sx::pick(2) * 7)),
    }
}

/// Number of lines the modem has seen, if all of them are whole.
fn lines_written() -> usize {
    model::link(CONTROL).written.iter().filter(|&&c| c == b'\r').count()
}

struct Callers<'a> {
    calls: Vec<Local<'a, Answer>>,
    lines: Vec<&'static [u8]>,
    /// in the order they were first run
    order: Vec<usize>,
    cancelled: Vec<bool>,
}

impl<'a> Callers<'a> {
    fn new(tnc: &'a VaraTnc, k: usize) -> Self {
        let mut c = Callers { calls: Vec::new(), lines: Vec::new(), order: Vec::new(), cancelled: vec![false; k] };
        for i in 0..k {
            let (f, line) = request(tnc, i);
            c.calls.push(f);
            c.lines.push(line);
        }
        c
    }
    /// Everything that can run, and what it would be: tasks, then callers.
    fn runnable(&self) -> (Vec<usize>, Vec<usize>) {
        (model::runnable_tasks(), (0..self.calls.len()).filter(|&i| self.calls[i].runnable()).collect())
    }
    fn poll(&mut self, i: usize) {
        if self.calls[i].polls == 0 {
            self.order.push(i);
        }
        self.calls[i].poll();
    }
    /// Runs all there is to run, tasks first.
    fn settle(&mut self) {
        let mut polls = 0;
        loop {
            let (t, m) = self.runnable();
            if let Some(&t) = t.first() {
                model::poll_task(t);
            } else if let Some(&m) = m.first() {
                self.poll(m);
            } else if !rt::time_passes() {
                return;
            }
            polls += 1;
            if polls > rt::PATIENCE {
                sx::check(false, "everything comes to rest: no task spins");
                return;
            }
        }
    }
}

/// `param(0)` callers at once; whatever can run runs in any order, the modem
/// answers at any time what it has been sent, split or together with reports.
/// With `param(1)`, callers may give up while they wait.
#[no_mangle]
pub extern "C" fn h_vara_commands() {
    let (k, giving_up, free) = (sx::param(0), sx::param(1) == 1, sx::param(2));
    rt::free_selects(sx::param(3) as u32);
    let tnc = session();
    acceptance_or_stall();
    let mut c = Callers::new(&tnc, k);
    // the answers, in the order of the lines written
    let mut answers: Vec<bool> = Vec::new();
    let mut given_up = false;
    let mut steps = 0;
    loop {
        let (tasks, mine) = c.runnable();
        let seen = lines_written();
        let can_answer = answers.len() < seen;
        let can_give_up = giving_up && !given_up && steps < free;
        let stalled = model::link(CONTROL).stalled();
        let n = tasks.len() + mine.len() + can_answer as usize + stalled as usize + if can_give_up { k } else { 0 };
        if n == 0 {
            if rt::time_passes() {
                continue;
            }
            break;
        }
        steps += 1;
        if steps > 100 {
            sx::check(false, "everything comes to rest");
            return;
        }
        // at first in any order, then straight on
        let mut e = if steps <= free { sx::pick(n as u32) } else { 0 };
        if e < tasks.len() {
            model::poll_task(tasks[e]);
            continue;
        }
        e -= tasks.len();
        if e < mine.len() {
            c.poll(mine[e]);
            continue;
        }
        e -= mine.len();
        if can_answer && e == 0 {
            let ok = sx::fork(sx::bool() as u64) == 1;
            answers.push(ok);
            let text: &[u8] = if ok { b"OK\r" } else { b"WRONG\r" };
            match if free == 0 { 0 } else { sx::pick(3) } {
                0 => say(text),
                1 => {
                    say(&text[..1]);
                    say(&text[1..]);
                }
                _ => {
                    let mut v = b"BUSY ON\r".to_vec();
                    v.extend_from_slice(text);
                    v.extend_from_slice(b"PTT OFF\rPT");
                    say(&v);
                    say(b"T ON\r");
                }
            }
            continue;
        }
        e -= can_answer as usize;
        if stalled && e == 0 {
            model::link(CONTROL).make_room(None);
            continue;
        }
        e -= stalled as usize;
        if !c.calls[e].done() {
            c.calls[e].cancel();
            c.cancelled[e] = true;
            given_up = true;
        }
    }
    // what was written: the requests' lines, in the order they were made
    let written = model::link(CONTROL).written.clone();
    let mut rest = &written[..];
    let mut nth = 0;
    for &i in &c.order {
        let line = c.lines[i];
        if rest.len() >= line.len() && rest[..line.len()] == *line {
            rest = &rest[line.len()..];
            if !c.cancelled[i] {
                sx::check(c.calls[i].done(), "a caller whose command was answered has its answer");
                sx::check(nth < answers.len() && c.calls[i].out.as_ref().map(|r| r.is_ok()) == Some(answers[nth]), "a caller gets the answer to its own command");
            }
            nth += 1;
        } else {
            sx::check(c.cancelled[i], "every command is written once, in order");
        }
    }
    sx::check(rest.is_empty(), "nothing else is written");
    for i in 0..k {
        sx::check(c.cancelled[i] || c.calls[i].done(), "every caller has an answer");
        sx::observe(1, c.calls[i].out.as_ref().map_or(2, |r| r.is_ok() as u64));
    }
    sx::check(!model::finished(MANAGER), "answered commands leave the session alive");
    sx::cover(1);
    if given_up {
        sx::cover(2);
    }
}

/// The `i`-th of many reports, and what it says.
fn many_report(line: &mut Vec<u8>, i: usize, calls: &mut Vec<String>, s: &mut (bool, u64, bool)) {
    match i % 5 {
        0 => {
            let on = i % 10 == 0;
            line.extend_from_slice(if on { b"BUSY ON\r" } else { b"BUSY OFF\r" });
            s.0 = on;
        }
        1 => {
            let call = format!("K{}AB", i % 10).replace('A', ["A", "C", "D", "E"][i / 10 % 4]);
            line.extend_from_slice(format!("REGISTERED {}\r", call).as_bytes());
            calls.push(call);
        }
        2 => {
            line.extend_from_slice(format!("BUFFER {}\r", i * 997).as_bytes());
            s.1 = i as u64 * 997;
        }
        3 => {
            let on = i % 10 == 3;
            line.extend_from_slice(if on { b"PTT ON\r" } else { b"PTT OFF\r" });
            s.2 = on;
        }
        _ => line.extend_from_slice(b"IAMALIVE\r"),
    }
}

/// `param(0)` callers at once, all of their commands taken before the modem says anything; then all
/// answers with `param(1)` reports before one of them, cut at one of `param(2)` places. Before that,
/// `param(3)` commands answered one by one.
#[no_mangle]
pub extern "C" fn h_vara_burst() {
    let (k, r, places, before) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    rt::free_selects(0);
    let tnc = session();
    let rig = tnc.subscribe_rig_command();
    let mut sent: Vec<u8> = Vec::new();
    for i in 0..before {
        let (mut f, line) = request(&tnc, i % 5);
        rt::run(&mut f);
        sent.extend_from_slice(line);
        sx::check(!f.done() && model::link(CONTROL).written == sent, "each command is written once, in order");
        say(if i % 7 == 3 { b"WRONG\r" } else { b"OK\r" });
        rt::run(&mut f);
        sx::check(f.out.map(|r| r.is_ok()) == Some(i % 7 != 3), "a caller gets the answer to its own command");
    }
    if k > 0 {
        acceptance_or_stall();
    }
    let mut c = Callers { calls: Vec::new(), lines: Vec::new(), order: Vec::new(), cancelled: vec![false; k] };
    for i in 0..k {
        let (f, line) = request(&tnc, i % 5);
        c.calls.push(f);
        c.lines.push(line);
        sent.extend_from_slice(line);
    }
    c.settle();
    if model::link(CONTROL).stalled() {
        model::link(CONTROL).make_room(None);
        c.settle();
    }
    sx::check(model::link(CONTROL).written == sent, "each command is written once, in order");
    // one answer is WRONG, or none; the reports come before it, or at the end
    let odd = sx::pick(k as u32 + 1);
    let mut bytes = Vec::new();
    let mut calls: Vec<String> = Vec::new();
    let mut s = (false, 0, false);
    for i in 0..=k {
        if i == odd {
            for j in 0..r {
                many_report(&mut bytes, j, &mut calls, &mut s);
            }
        }
        if i < k {
            bytes.extend_from_slice(if i == odd { b"WRONG\r" } else { b"OK\r" });
        }
    }
    let cut = if places == 0 { 0 } else { bytes.len() * sx::pick(places as u32) / places };
    if cut > 0 {
        say(&bytes[..cut]);
        if sx::pick(2) == 1 {
            c.settle();
        }
    }
    say(&bytes[cut..]);
    c.settle();
    for i in 0..k {
        sx::check(c.calls[i].out.as_ref().map(|r| r.is_ok()) == Some(c.order.iter().position(|&x| x == i) != Some(odd)), "a caller gets the answer to its own command");
    }
    sx::check((tnc.busy_state() == BusyState::Busy) == s.0, "the busy state is the last one reported");
    sx::check(tnc.buffer() as u64 == s.1, "the buffer count is the last one reported");
    sx::check((*rig.borrow() == TransceiverCommand::Transmit) == s.2, "the keying state is the last one reported");
    for call in &calls {
        let r = tnc.local_registration(unsafe { StationIdRef::from_str_unchecked(call) });
        sx::check(r == Registration::Registered, "the registered stations are those reported");
    }
    sx::check(model::link(CONTROL).written == sent, "nothing else is written");
    sx::check(!model::finished(MANAGER), "answered commands leave the session alive");
    // and all goes on
    drop(c);
    let (mut f, _) = request(&tnc, 1);
    rt::run(&mut f);
    let ok = sx::fork(sx::bool() as u64) == 1;
    say(if ok { b"OK\r" } else { b"WRONG\r" });
    rt::run(&mut f);
    sx::check(f.out.map(|r| r.is_ok()) == Some(ok), "a caller gets the answer to its own command");
    sx::observe(1, tnc.buffer() as u64);
    sx::cover(1);
}

// ---------------------------------------------------------------- losing the link

/// Callers wait; at some point the control link ends or fails.
#[no_mangle]
pub extern "C" fn h_vara_link_loss() {
    let (k, free) = (sx::param(0), sx::param(1));
    rt::free_selects(sx::param(2) as u32);
    let tnc = session();
    let mut rig = tnc.subscribe_rig_command();
    let mut watcher = Local::new(async move {
        while rig.changed().await.is_ok() {}
    });
    rt::run(&mut watcher);
    acceptance();
    let mut c = Callers::new(&tnc, k);
    let mut answered = 0;
    let mut answers = Vec::new();
    let when = sx::pick(free as u32 + 1);
    for _ in 0..when {
        let (tasks, mine) = c.runnable();
        let can_answer = answered < lines_written();
        let n = tasks.len() + mine.len() + can_answer as usize;
        if n == 0 {
            break;
        }
        let e = sx::pick(n as u32);
        if e < tasks.len() {
            model::poll_task(tasks[e]);
        } else if e - tasks.len() < mine.len() {
            c.poll(mine[e - tasks.len()]);
        } else {
            let ok = sx::fork(sx::bool() as u64) == 1;
            say(if ok { b"OK\r" } else { b"WRONG\r" });
            answers.push(ok);
            answered += 1;
        }
    }
    // the end may come in the middle of a line
    if sx::pick(2) == 1 {
        say(b"BUSY O");
    }
    let l = model::link(CONTROL);
    match sx::pick(3) {
        0 => l.close(),
        1 => l.fail_reads(),
        _ => {
            l.write_error = true;
            l.close();
        }
    }
    c.settle();
    sx::check(model::finished(MANAGER), "the control task ends once its link is gone");
    for i in 0..k {
        sx::check(c.calls[i].done(), "nobody waits for an answer that cannot come");
        let ok = c.calls[i].out.as_ref().map(|r| r.is_ok());
        match c.order.iter().position(|&x| x == i) {
            Some(n) if n < answers.len() && answers[n] => {}
            _ => sx::check(ok == Some(false), "a command that was not answered OK fails"),
        }
        sx::observe(1, (ok == Some(true)) as u64);
    }
    drop(c);
    // and later ones fail at once
    let (mut late, _) = request(&tnc, sx::pick(4));
    rt::run(&mut late);
    sx::check(late.out.map(|r| r.is_err()) == Some(true), "later commands fail");
    sx::check(rt::run(&mut watcher), "who watches the modem's status is told");
    sx::check(model::runnable_tasks().is_empty(), "nothing keeps running");
    sx::cover(1);
}

/// `param(0)` callers wait when writing to the modem begins to fail, or it fails from the start.
#[no_mangle]
pub extern "C" fn h_vara_write_loss() {
    let k = sx::param(0);
    rt::free_selects(2);
    let tnc = session();
    acceptance_or_stall();
    let mut c = Callers::new(&tnc, k);
    let early = sx::pick(k as u32 + 1);
    for i in 0..early {
        c.poll(i);
        for t in model::runnable_tasks() {
            model::poll_task(t);
        }
    }
    if sx::pick(2) == 1 {
        let mut polls = 0;
        while polls < 20 && !model::runnable_tasks().is_empty() {
            model::poll_task(model::runnable_tasks()[0]);
            polls += 1;
        }
    }
    let l = model::link(CONTROL);
    l.error = rt::failure();
    l.fail_writes();
    let seen = lines_written();
    c.settle();
    if seen >= k {
        // all had been written: one more is not
        let (mut f, _) = request(&tnc, 1);
        rt::run(&mut f);
        sx::check(matches!(f.out, Some(Err(_))), "a command that cannot be written fails");
        c.settle();
        sx::cover(2);
    } else {
        sx::cover(1);
    }
    sx::check(model::finished(MANAGER), "the control task ends once its link is gone");
    for i in 0..k {
        sx::check(matches!(c.calls[i].out, Some(Err(_))), "a command that was not answered OK fails");
    }
    sx::check(lines_written() == seen, "nothing is written once writing fails");
    sx::check(model::runnable_tasks().is_empty(), "nothing keeps running");
    sx::observe(1, seen as u64);
}

/// `param(0)` callers wait at once, some are answered, then the link is lost.
#[no_mangle]
pub extern "C" fn h_vara_loss_many() {
    let k = sx::param(0);
    rt::free_selects(0);
    let tnc = session();
    acceptance_or_stall();
    let mut c = Callers { calls: Vec::new(), lines: Vec::new(), order: Vec::new(), cancelled: vec![false; k] };
    for i in 0..k {
        let (f, line) = request(&tnc, i % 5);
        c.calls.push(f);
        c.lines.push(line);
    }
    c.settle();
    let answered = if model::link(CONTROL).stalled() { 0 } else { sx::pick(k as u32 + 1) };
    let last_ok = sx::fork(sx::bool() as u64) == 1;
    let mut text = Vec::new();
    for i in 0..answered {
        text.extend_from_slice(if i + 1 < answered || last_ok { b"OK\r" } else { b"WRONG\r" });
    }
    // the loss may be noticed together with the last answers
    say(&text);
    if sx::pick(2) == 1 {
        c.settle();
    }
    if sx::pick(2) == 1 {
        say(b"OK");
    }
    let l = model::link(CONTROL);
    match sx::pick(2) {
        0 => l.close(),
        _ => {
            l.error = rt::failure();
            l.fail_reads();
        }
    }
    let stalled = l.stalled();
    c.settle();
    if stalled {
        model::link(CONTROL).make_room(None);
        c.settle();
    }
    sx::check(model::finished(MANAGER), "the control task ends once its link is gone");
    for i in 0..k {
        sx::check(c.calls[i].done(), "nobody waits for an answer that cannot come");
        let n = c.order.iter().position(|&x| x == i).unwrap_or(k);
        if n >= answered || (n + 1 == answered && !last_ok) {
            sx::check(matches!(c.calls[i].out, Some(Err(_))), "a command that was not answered OK fails");
        }
        sx::observe(1, matches!(c.calls[i].out, Some(Ok(_))) as u64);
    }
    sx::check(model::runnable_tasks().is_empty(), "nothing keeps running");
    sx::cover(1);
}

/// The link is lost while a connection is being made, or stands.
#[no_mangle]
pub extern "C" fn h_vara_link_loss_connected() {
    let mut tnc = session();
    let stage = sx::pick(4);
    {
        let mut c = Local::new(tnc.connect(station("K1A"), station("N0CALL")));
        rt::run(&mut c);
        if stage >= 1 {
            say(b"OK\r");
            rt::run(&mut c);
        }
        if stage >= 2 {
            say(b"CONNECTED K1A N0CALL\r");
            rt::run(&mut c);
            sx::check(c.done(), "a connection stands once reported");
        }
        if stage < 3 {
            lose();
            rt::run(&mut c);
        }
        match c.out.take() {
            None => sx::check(false, "connect does not wait for what cannot come"),
            Some(Err(_)) => sx::check(stage < 2, "a connection made is reported"),
            Some(Ok(mut s)) => {
                sx::check(stage >= 2, "a lost link is no connection");
                let mut buf = [0u8; 4];
                if stage == 3 {
                    // a read is waiting
                    use tokio::io::AsyncReadExt;
                    let mut r = Local::new(s.read(&mut buf));
                    sx::check(!rt::run(&mut r), "nothing to read yet");
                    lose();
                    sx::check(rt::run(&mut r), "a waiting read ends with the link");
                    drop(r);
                } else {
                    use tokio::io::AsyncReadExt;
                    let r = rt::now(s.read(&mut buf));
                    sx::check(r.is_some(), "a read does not wait for a session that is gone");
                }
                drop(s);
                sx::cover(2);
            }
        }
    }
    rt::settle();
    for i in 0..model::world().tasks.len() {
        sx::check(model::finished(i), "every task of the session ends");
    }
    sx::cover(1);
}

fn lose() {
    if sx::pick(2) == 0 {
        model::link(CONTROL).close()
    } else {
        model::link(CONTROL).error = rt::failure();
        model::link(CONTROL).fail_reads()
    }
}

// ---------------------------------------------------------------- connecting

const REPORTS: [&[u8]; 4] = [b"DISCONNECTED\r", b"PENDING\r", b"CANCELPENDING\r", b"CONNECTED K1A N0CALL\r"];

/// What happened to a connect: None if it is still waiting.
fn attempt<'a>(tnc: &'a mut VaraTnc) -> Option<color_eyre::Result<VaraStream<'a>>> {
    let before = model::link(CONTROL).written.len();
    let mut c = Local::new(tnc.connect(station("K1A"), station("N0CALL")));
    sx::check(!rt::run(&mut c), "a connect waits for the modem");
    sx::check(model::link(CONTROL).written[before..] == *b"CONNECT K1A N0CALL\r", "a connect command is written");
    // the modem's answer
    let ok = sx::fork(sx::bool() as u64) == 1;
    let (n, together) = (sx::pick(3), sx::bool());
    let mut text = if ok { b"OK\r".to_vec() } else { b"WRONG\r".to_vec() };
    let mut last = None;
    let mut more = Vec::new();
    for _ in 0..n {
        let r = sx::pick(4);
        if r == 3 {
            more.extend_from_slice(&connected_report());
        } else {
            more.extend_from_slice(REPORTS[r]);
        }
        last = Some(r);
    }
    if together {
        text.extend_from_slice(&more);
        say(&text);
        rt::run(&mut c);
    } else {
        say(&text);
        rt::run(&mut c);
        sx::check(c.done() != ok, "a refused connect ends, an accepted one waits for a report");
        if ok && !more.is_empty() {
            say(b"BUSY ON\r");
            rt::run(&mut c);
            sx::check(!c.done(), "other reports do not matter");
            say(&more);
            rt::run(&mut c);
        }
    }
    if !ok {
        sx::check(matches!(c.out, Some(Err(_))), "a refused connect fails");
        sx::cover(2);
    } else {
        match (last, &c.out) {
            (None, None) => {}
            (Some(3), Some(Ok(_))) => sx::cover(1),
            (Some(3), _) => sx::check(false, "a connect succeeds when a connection is reported"),
            (Some(_), Some(Err(_))) => sx::cover(3),
            (None, Some(_)) => sx::check(false, "a connect waits for a report of its own"),
            (Some(_), _) => sx::check(false, "a connect fails when anything else is reported"),
        }
    }
    sx::observe(1, match &c.out { None => 0, Some(Ok(_)) => 1, Some(Err(_)) => 2 });
    c.out.take()
}

/// A connect after `param(0)` earlier events: reports, connections and failures,
/// with `param(2)` also attempts given up.
#[no_mangle]
pub extern "C" fn h_vara_connect() {
    rt::free_selects(sx::param(1) as u32);
    let mut tnc = session();
    for _ in 0..sx::pick(sx::param(0) as u32 + 1) {
        match sx::pick(3 + sx::param(2).min(1) as u32) {
            0 => {
                say(REPORTS[sx::pick(4)]);
                rt::settle();
            }
            1 => {
                // a connection made and ended by the other side
                let mut c = Local::new(tnc.connect(station("K1A"), station("W1AW")));
                rt::run(&mut c);
                say(b"OK\rCONNECTED K1A W1AW\r");
                rt::run(&mut c);
                let s = c.out.take();
                sx::check(matches!(s, Some(Ok(_))), "a connection is made");
                say(b"DISCONNECTED\r");
                rt::settle();
                drop(s);
                rt::settle();
            }
            3 => {
                // one given up before or after the modem has answered, or with all it says unread
                let mut c = Local::new(tnc.connect(station("K1A"), station("W1AW")));
                rt::run(&mut c);
                let when = sx::pick(3);
                let answer = [&b"OK\r"[..], b"WRONG\r"][if when == 0 { sx::pick(2) } else { 0 }];
                if when >= 1 {
                    say(answer);
                    rt::run(&mut c);
                }
                let report = REPORTS[3 * sx::pick(2)];
                if when == 2 {
                    say(report);
                    rt::settle();
                }
                drop(c);
                if when == 0 {
                    say(answer);
                }
                if when <= 1 {
                    say(report);
                }
                rt::settle();
            }
            _ => {
                // one refused, or failed
                let mut c = Local::new(tnc.connect(station("K1A"), station("W1AW")));
                rt::run(&mut c);
                say([&b"WRONG\r"[..], b"OK\rDISCONNECTED\r"][sx::pick(2)]);
                rt::run(&mut c);
                sx::check(matches!(c.out, Some(Err(_))), "a connection is not made");
            }
        }
    }
    attempt(&mut tnc);
}

// ---------------------------------------------------------------- streams

/// `param(0)` bytes each way, of which one is arbitrary, in as few or as many
/// pieces as it takes.
#[no_mangle]
pub extern "C" fn h_vara_stream_large() {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let n = sx::param(0);
    rt::free_selects(0);
    let mut tnc = session();
    let mut s = connected(&mut tnc);
    let places = [0, n / 2, n - 1, 4095.min(n - 1), 4096.min(n - 1), 63.min(n - 1)];
    let at = places[sx::pick(6)];
    let any = sx::byte();
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    data[at] = any;
    match sx::pick(3) {
        0 => {}
        1 => model::link(DATA).accept.extend([1, 0, 1000, 0, 64]),
        _ => model::link(DATA).make_room(Some(sx::pick(2) * n / 3)),
    }
    let mut w = Local::new(s.write_all(&data));
    if !rt::run(&mut w) {
        sx::check(model::link(DATA).stalled(), "writing waits only for room");
        model::link(DATA).make_room(None);
        rt::run(&mut w);
    }
    sx::check(matches!(w.out, Some(Ok(()))), "writing succeeds while connected");
    drop(w);
    sx::check(model::link(DATA).written == data, "what is written is what the modem gets");
    // and the other way
    let pieces = [n, 1000, 100][sx::pick(3)];
    for p in data.chunks(pieces) {
        model::link(DATA).push(p.to_vec());
    }
    let mut got: Vec<u8> = Vec::new();
    let mut buf = vec![0u8; [n + 10, 4096, 700][sx::pick(3)]];
    let disconnect = sx::pick(3);
    if disconnect == 1 {
        say(b"DISCONNECTED\r");
        rt::settle();
    }
    let mut reads = 0;
    while got.len() < n {
        match rt::now(s.read(&mut buf)) {
            Some(Ok(m)) if m > 0 => {
                got.extend_from_slice(&buf[..m.min(buf.len())]);
            }
            _ => {
                sx::check(false, "data that arrived is delivered");
                return;
            }
        }
        reads += 1;
        if disconnect == 2 && reads == 1 {
            say(b"DISCONNECTED\r");
            rt::settle();
        }
    }
    sx::check(got == data, "data is read whole and in order");
    let r = rt::now(s.read(&mut buf));
    sx::check(if disconnect > 0 { matches!(r, Some(Ok(0))) } else { r.is_none() }, "after its data the stream ends if it was disconnected");
    sx::cover(1);
}

/// `param(0)` connections one after another, ended in every way.
#[no_mangle]
pub extern "C" fn h_vara_again() {
    rt::free_selects(0);
    let mut tnc = session();
    let how = sx::pick(5);
    for i in 0..sx::param(0) {
        let mut c = Local::new(tnc.connect(station("K1A"), station("W1AW")));
        rt::run(&mut c);
        say(match how {
            3 => b"WRONG\r",
            4 => b"OK\rDISCONNECTED\r",
            _ => b"OK\rCONNECTED K1A W1AW\r",
        });
        rt::run(&mut c);
        let s = c.out.take();
        drop(c);
        if how >= 3 {
            sx::check(matches!(s, Some(Err(_))), "a connection is not made");
            continue;
        }
        let s = match s {
            Some(Ok(s)) => s,
            _ => {
                sx::check(false, "a connection is made");
                return;
            }
        };
        model::link(CONTROL).written.clear();
        match how {
            0 => {
                say(b"DISCONNECTED\r");
                rt::settle();
                drop(s);
                rt::settle();
                sx::check(model::link(CONTROL).written.is_empty(), "a dead stream has nothing to hang up");
            }
            1 => {
                drop(s);
                rt::settle();
                sx::check(model::link(CONTROL).written == b"DISCONNECT\r", "a live stream dropped hangs up once");
                say(b"OK\rDISCONNECTED\r");
                rt::settle();
            }
            _ => {
                let mut d = Local::new(s.disconnect());
                rt::run(&mut d);
                sx::check(model::link(CONTROL).written == b"DISCONNECT\r", "a disconnect is written once");
                say(b"OK\rDISCONNECTED\r");
                sx::check(rt::run(&mut d), "a disconnect answered ends");
            }
        }
        sx::observe(1, i as u64);
    }
    sx::check(!model::finished(MANAGER), "the session lives on");
    attempt(&mut tnc);
}

/// A connected stream, and how many bytes have been written to the modem.
fn connected<'a>(tnc: &'a mut VaraTnc) -> VaraStream<'a> {
    let mut c = Local::new(tnc.connect(station("K1A"), station("N0CALL")));
    rt::run(&mut c);
    say(b"OK\r");
    say(&connected_report());
    rt::run(&mut c);
    let s = match c.out.take() {
        Some(Ok(s)) => s,
        _ => panic!("no connection"),
    };
    rt::settle();
    model::link(CONTROL).written.clear();
    s
}

fn aborted<T>(r: &Option<std::io::Result<T>>) -> bool {
    matches!(r, Some(Err(e)) if e.kind() == std::io::ErrorKind::ConnectionAborted)
}

/// `param(0)` operations on a connected stream, and events, in any order.
#[no_mangle]
pub extern "C" fn h_vara_stream() {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    rt::free_selects(sx::param(1) as u32);
    let mut tnc = session();
    let mut s = connected(&mut tnc);
    let mut gone = false;
    let mut arrived: std::collections::VecDeque<u8> = Default::default();
    let mut sent: Vec<u8> = Vec::new();
    for _ in 0..sx::param(0) {
        match sx::pick(8) {
            0 => {
                let chunk = sx::bytes(1 + sx::pick(3));
                arrived.extend(chunk.iter());
                model::link(DATA).push(chunk);
            }
            1 => {
                if !gone {
                    say(b"DISCONNECTED\r");
                    rt::settle();
                    gone = true;
                }
            }
            2 => {
                // the modem has more to say than matters here
                match sx::pick(5) {
                    0 => say(&buffer_report()),
                    1 => say(b"PTT ON\r"),
                    2 => say(b"PENDING\r"),
                    3 => say(b"CANCELPENDING\r"),
                    _ => say(b"IAMALIVE\r"),
                }
                rt::settle();
            }
            3 => {
                let mut buf = [0u8; 8];
                let size = 1 + sx::pick(4);
                let r = rt::now(s.read(&mut buf[..size]));
                match r {
                    Some(Ok(0)) => {
                        sx::check(gone && arrived.is_empty(), "a stream ends only after its data, once disconnected");
                        sx::cover(2);
                    }
                    Some(Ok(n)) => {
                        sx::check(n <= arrived.len(), "only data that arrived is read");
                        for i in 0..n {
                            let c = arrived.pop_front().unwrap_or(0);
                            sx::check(buf[i] == c, "data is read in order");
                            sx::observe(1, c as u64);
                        }
                        sx::cover(1);
                        if gone {
                            sx::cover(5);
                        }
                    }
                    Some(Err(_)) => sx::check(false, "reading does not fail"),
                    None => sx::check(!gone && arrived.is_empty(), "a read waits only while nothing has arrived and the connection stands"),
                }
            }
            4 => {
                let data = sx::bytes(1 + sx::pick(2));
                match sx::pick(3) {
                    0 => {}
                    1 => model::link(DATA).accept.extend([1, 0, 1]),
                    _ => model::link(DATA).accept.extend([0, 1, 1]),
                }
                let r = rt::now(s.write_all(&data));
                model::link(DATA).accept.clear();
                if gone {
                    sx::check(aborted(&r), "writing after the end fails");
                    sx::cover(3);
                } else {
                    sx::check(matches!(r, Some(Ok(()))), "writing succeeds while connected");
                    sent.extend_from_slice(&data);
                    sx::cover(4);
                }
            }
            5 => {
                let data = sx::bytes(3);
                let slices = [IoSlice::new(&data[..1]), IoSlice::new(&data[1..])];
                let r = rt::now(s.write_vectored(&slices));
                if gone {
                    sx::check(aborted(&r), "writing after the end fails");
                } else {
                    match r {
                        Some(Ok(n)) => {
                            sx::check(n >= 1 && n <= 3, "as much is written as said");
                            sent.extend_from_slice(&data[..n.min(3)]);
                        }
                        _ => sx::check(false, "writing succeeds while connected"),
                    }
                }
            }
            6 => {
                let before = model::link(DATA).flushes;
                let r = rt::now(s.flush());
                if gone {
                    sx::check(aborted(&r), "flushing after the end fails");
                } else {
                    sx::check(matches!(r, Some(Ok(()))), "flushing succeeds while connected");
                    sx::check(model::link(DATA).flushes > before, "the data connection is flushed");
                }
            }
            _ => {
                let before = model::link(DATA).shutdowns;
                let r = rt::now(s.shutdown());
                if gone {
                    sx::check(aborted(&r), "shutting down after the end fails");
                } else {
                    sx::check(matches!(r, Some(Ok(()))), "shutting down succeeds while connected");
                    sx::check(model::link(DATA).shutdowns > before, "the data connection is shut down");
                }
            }
        }
        let w = &model::link(DATA).written;
        sx::check(w.len() == sent.len() && *w == sent, "exactly the bytes written are sent, in order");
    }
    sx::check(model::link(CONTROL).written.is_empty(), "using a stream sends no commands");
}

/// A read that waits is woken by data, and by the disconnection.
#[no_mangle]
pub extern "C" fn h_vara_stream_wake() {
    use tokio::io::AsyncReadExt;
    let mut tnc = session();
    let mut s = connected(&mut tnc);
    for _ in 0..sx::param(0) {
        let mut buf = [0u8; 2];
        let mut r = Local::new(s.read(&mut buf));
        sx::check(!rt::run(&mut r), "a read waits while nothing has arrived");
        let c = sx::byte();
        let (data, end) = (sx::pick(2) == 1, sx::pick(2) == 1);
        if data {
            model::link(DATA).push(vec![c]);
        }
        if sx::pick(2) == 1 {
            rt::run(&mut r);
        }
        if end {
            say(b"DISCONNECTED\r");
        }
        rt::run(&mut r);
        match &r.out {
            None => sx::check(!data && !end, "a waiting read is woken"),
            Some(Ok(1)) => {
                drop(r);
                sx::check(data && buf[0] == c, "a waiting read gets the data");
                sx::cover(1);
            }
            Some(Ok(0)) => {
                sx::check(end && !data, "a waiting read gets the end, after the data");
                sx::cover(2);
            }
            _ => sx::check(false, "a waiting read does not fail"),
        }
        if end {
            return;
        }
    }
}

/// One task reads while another writes, as the halves of a split stream do. Parameters: events,
/// open choices of the control task's select!.
#[no_mangle]
pub extern "C" fn h_vara_stream_halves() {
    rt::free_selects(sx::param(1) as u32);
    let mut tnc = session();
    let cell = std::cell::RefCell::new(connected(&mut tnc));
    let read = || {
        Local::new(std::future::poll_fn(|cx| {
            let mut store = [0u8; 2];
            let mut buf = tokio::io::ReadBuf::new(&mut store);
            let r = Pin::new(&mut *cell.borrow_mut()).poll_read(cx, &mut buf);
            r.map(|r| r.map(|()| buf.filled().to_vec()))
        }))
    };
    // exactly these bytes, one poll_write after another
    let write = |data: Vec<u8>| {
        let mut at = 0;
        let cell = &cell;
        Local::new(std::future::poll_fn(move |cx| {
            while at < data.len() {
                match Pin::new(&mut *cell.borrow_mut()).poll_write(cx, &data[at..]) {
                    Poll::Ready(Ok(n)) => at += n,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                }
            }
            Poll::Ready(Ok(Vec::new()))
        }))
    };
    let end = |what: usize| {
        let cell = &cell;
        Local::new(std::future::poll_fn(move |cx| {
            let mut s = cell.borrow_mut();
            let r = if what == 0 { Pin::new(&mut *s).poll_flush(cx) } else { Pin::new(&mut *s).poll_shutdown(cx) };
            r.map(|r| r.map(|()| Vec::new()))
        }))
    };
    let (mut gone, mut arrived, mut sent) = (false, std::collections::VecDeque::new(), Vec::new());
    let mut r = read();
    let mut w: Option<Local<std::io::Result<Vec<u8>>>> = None;
    for _ in 0..sx::param(0) {
        match sx::pick(8) {
            0 => {
                let chunk = sx::bytes(1 + sx::pick(3));
                arrived.extend(chunk.iter());
                model::link(DATA).push(chunk);
            }
            1 if !gone => {
                say(b"DISCONNECTED\r");
                gone = true;
            }
            2 => {
                if w.is_none() {
                    let data = sx::bytes(2);
                    if !gone {
                        sent.extend_from_slice(&data);
                    }
                    w = Some(write(data));
                }
            }
            3 => model::link(DATA).make_room(Some(sx::pick(2))),
            4 => model::link(DATA).make_room(None),
            5 => {
                if w.is_none() {
                    w = Some(end(sx::pick(2)));
                }
            }
            // what waits is given up, and begun again
            6 => r = read(),
            _ => {
                say(b"BUSY ON\r");
            }
        }
        // the modem's report, and the two halves, one before the other
        match (&mut w, sx::pick(2)) {
            (Some(w), 0) => rt::settle_with(&mut [&mut r, w], false),
            (Some(w), _) => rt::settle_with(&mut [w, &mut r], false),
            (None, _) => rt::settle_with(&mut [&mut r], false),
        }
        sx::check(!gone || r.out.is_some(), "the reader is woken by the disconnection whatever the writer does");
        // a read that is done is begun again, until the end
        while let Some(out) = r.out.take() {
            match out {
                Ok(v) if v.is_empty() => {
                    sx::check(gone && arrived.is_empty(), "the reader sees the end only after its data, once disconnected");
                    sx::cover(1);
                    // again and again
                    r = read();
                    sx::check(rt::run(&mut r), "every further read sees the end");
                    sx::check(matches!(&r.out, Some(Ok(v)) if v.is_empty()), "every further read sees the end");
                    break;
                }
                Ok(v) => {
                    for c in v {
                        sx::check(arrived.pop_front() == Some(c), "the reader gets the data in order");
                    }
                    sx::cover(2);
                    r = read();
                    rt::run(&mut r);
                }
                Err(_) => sx::check(false, "reading does not fail"),
            }
        }
        sx::check(arrived.is_empty(), "the reader is woken by data whatever the writer does");
        if r.done() {
            r = read();
        }
        let out = match &mut w {
            Some(w) => w.out.take(),
            None => None,
        };
        let stalled = model::link(DATA).stalled();
        let written = &model::link(DATA).written;
        match out {
            Some(Ok(_)) => {
                sx::check(*written == sent, "exactly what was written is sent, in order");
                w = None;
                sx::cover(3);
            }
            Some(Err(e)) => {
                sx::check(gone && e.kind() == std::io::ErrorKind::ConnectionAborted, "writing fails only after the end");
                sx::check(written.len() <= sent.len() && *written == sent[..written.len()], "what is sent is what was written");
                sent = written.clone();
                w = None;
                sx::cover(4);
            }
            None => {
                sx::check(w.is_none() || (stalled && !gone), "the writer is woken by room and by the disconnection whatever the reader does");
                if w.is_some() {
                    sx::cover(5);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- hanging up

/// Answers all commands as they come, and reports the disconnection.
fn modem_answers(ok: bool) {
    let mut answered = 0;
    for _ in 0..4 {
        rt::settle();
        if lines_written() > answered {
            say(if ok { b"OK\r" } else { b"WRONG\r" });
            answered += 1;
            if ok {
                say(b"DISCONNECTED\r");
            }
        }
    }
    rt::settle();
}

#[no_mangle]
pub extern "C" fn h_vara_hang_up() {
    rt::free_selects(sx::param(0) as u32);
    let mut tnc = session();
    acceptance();
    let want: &[u8];
    match sx::pick(8) {
        0 => {
            // dropped while it stands
            let s = connected(&mut tnc);
            // other reports change nothing about that, calls of other stations included
            match sx::pick(4) {
                0 => {}
                1 => {
                    say(&buffer_report());
                    say(b"BUSY ON\r");
                }
                2 => say(b"PENDING\r"),
                _ => say(b"PENDING\rCANCELPENDING\r"),
            }
            if sx::pick(2) == 1 {
                rt::settle();
            }
            drop(s);
            modem_answers(sx::pick(2) == 1);
            modem_rest();
            want = b"DISCONNECT\r";
            sx::cover(1);
        }
        1 => {
            // dropped after the other side has ended it
            let s = connected(&mut tnc);
            say(b"DISCONNECTED\r");
            rt::settle();
            drop(s);
            modem_answers(true);
            want = b"";
            sx::cover(2);
        }
        2 => {
            let s = connected(&mut tnc);
            let mut f = Local::new(s.disconnect());
            rt::run(&mut f);
            sx::check(!f.done(), "a disconnect waits for its answer");
            let w = say_ok_and_report();
            rt::run(&mut f);
            sx::check(w && matches!(f.out, Some(Ok(()))), "a disconnect succeeds when accepted");
            drop(f);
            modem_rest();
            want = b"DISCONNECT\r";
            sx::cover(3);
        }
        3 => {
            let s = connected(&mut tnc);
            let mut f = Local::new(s.abort());
            rt::run(&mut f);
            sx::check(!f.done(), "an abort waits for its answer");
            let w = say_ok_and_report();
            rt::run(&mut f);
            sx::check(w && matches!(f.out, Some(Ok(()))), "an abort succeeds when accepted");
            drop(f);
            modem_rest();
            want = b"ABORT\r";
            sx::cover(4);
        }
        4 => {
            // dropped before anything of the session runs again, with the end on its way
            let s = connected(&mut tnc);
            say(b"BUSY ON\r");
            drop(s);
            modem_answers(true);
            want = b"DISCONNECT\r";
        }
        5 => {
            // another command right after the drop
            let s = connected(&mut tnc);
            drop(s);
            let mut f = Local::new(tnc.send_compression(CompressionMode::Text));
            let mut answered = 0;
            let order = sx::pick(4);
            if order == 3 {
                // in any order to begin with
                rt::steps(&mut f, 4);
            }
            for round in 0..6 {
                match order {
                    0 => rt::settle_with::<color_eyre::Result<()>>(&mut [&mut f], false),
                    1 => {
                        f.poll();
                        rt::run(&mut f);
                    }
                    _ => {
                        if round > 0 {
                            rt::run(&mut f);
                        } else {
                            rt::settle();
                        }
                    }
                }
                if lines_written() > answered {
                    say(b"OK\r");
                    answered += 1;
                }
            }
            sx::check(matches!(f.out, Some(Ok(()))), "the other command has its answer");
            drop(f);
            modem_rest();
            let w = &model::link(CONTROL).written;
            let mut lines: Vec<&[u8]> = w.split(|&c| c == b'\r').filter(|l| !l.is_empty()).collect();
            lines.sort();
            let all: [&[u8]; 2] = [b"COMPRESSION TEXT", b"DISCONNECT"];
            sx::check(lines.len() == all.len() && lines.iter().zip(&all).all(|(a, b)| a == b), "exactly one DISCONNECT is sent, whatever else is");
            sx::cover(7);
            return;
        }
        6 => {
            // a failed connect
            let mut c = Local::new(tnc.connect(station("K1A"), station("N0CALL")));
            rt::run(&mut c);
            say([&b"WRONG\r"[..], b"OK\rDISCONNECTED\r"][sx::pick(2)]);
            rt::run(&mut c);
            sx::check(matches!(c.out, Some(Err(_))), "a connection is not made");
            drop(c);
            rt::settle();
            want = b"CONNECT K1A N0CALL\r";
            sx::cover(5);
        }
        _ => {
            // a second connection, after one dropped
            let s = connected(&mut tnc);
            drop(s);
            modem_answers(true);
            sx::check(model::link(CONTROL).written == *b"DISCONNECT\r", "the first is hung up");
            let s = connected(&mut tnc);
            if sx::pick(2) == 0 {
                drop(s);
                modem_answers(true);
                want = b"DISCONNECT\r";
            } else {
                say(b"DISCONNECTED\r");
                rt::settle();
                drop(s);
                modem_answers(true);
                want = b"";
            }
            sx::cover(6);
        }
    }
    let w = &model::link(CONTROL).written;
    sx::observe(1, w.len() as u64);
    sx::check(w.len() == want.len() && *w == *want, "exactly what is needed to hang up is sent");
    for i in 0..model::world().tasks.len() {
        sx::check(i == MANAGER || model::finished(i), "nothing is left running for an ended connection");
    }
}

fn say_ok_and_report() -> bool {
    let seen = lines_written() == 1;
    match sx::pick(3) {
        0 => say(b"OK\rDISCONNECTED\r"),
        1 => {
            say(b"OK\r");
            say(b"DISCONNECTED\r");
        }
        _ => say(b"OK\r"),
    }
    seen
}

/// The disconnection is reported at the latest now.
fn modem_rest() {
    rt::settle();
    say(b"DISCONNECTED\r");
    rt::settle();
}

// ---------------------------------------------------------------- endpoints

#[no_mangle]
pub extern "C" fn h_vara_endpoints() {
    use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
    model::reset();
    let mut b = VaraTnc::builder();
    let mut host: IpAddr = Ipv4Addr::LOCALHOST.into();
    let mut control = 8300u16;
    let mut data = None;
    let again = sx::pick(2) == 1;
    for round in 0..1 + again as usize {
        // any of the settings, in any order
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][sx::pick(6)];
        for what in order {
            if sx::pick(2) == 0 {
                continue;
            }
            match what {
                0 => {
                    host = if sx::pick(2) == 0 {
                        Ipv4Addr::new(sx::byte(), sx::byte(), sx::byte(), sx::byte()).into()
                    } else {
                        let mut o = [0u8; 16];
                        for i in [0, 7, 15] {
                            o[i] = sx::byte();
                        }
                        Ipv6Addr::from(o).into()
                    };
                    b.host(host);
                }
                1 => {
                    control = sx::u16();
                    sx::assume(control != 0);
                    b.control_port(NonZeroU16::new(control).unwrap());
                }
                _ => {
                    let p = sx::u16();
                    sx::assume(p != 0);
                    data = Some(p);
                    b.data_port(NonZeroU16::new(p).unwrap());
                }
            }
        }
        if round == 0 && again && sx::pick(2) == 0 {
            continue;
        }
        model::reset();
        let refuse = sx::pick(3);
        if refuse < 2 {
            model::world().refuse_from = Some(refuse);
        }
        let r = rt::now(b.build());
        let at = &model::world().attempts;
        let r = match r {
            Some(r) => r,
            None => {
                sx::check(false, "building a session does not hang");
                return;
            }
        };
        if control == u16::MAX && data.is_none() {
            sx::check(r.is_err() && at.is_empty(), "a configuration without a data port is refused before anything is connected");
            sx::cover(2);
            continue;
        }
        sx::check(!at.is_empty(), "the modem is connected to");
        let port = data.unwrap_or_else(|| control.wrapping_add(1));
        for (i, a) in at.iter().enumerate() {
            sx::check(a.ip() == host, "the configured host is connected to");
            sx::check(a.port() == if i == 0 { control } else { port }, "the configured ports are connected to");
            sx::observe(1, a.port() as u64);
        }
        sx::check(at.len() == if refuse == 0 { 1 } else { 2 }, "each connection is made once");
        sx::check(r.is_ok() == (refuse == 2), "a session exists exactly if both connections do");
        sx::cover(1);
        if let Ok(tnc) = r {
            // and the right ones are used
            rt::settle();
            let mut f = Local::new(tnc.send_abort());
            rt::run(&mut f);
            let control_link = model::world().links.iter().position(|l| l.written == *b"ABORT\r");
            sx::check(control_link == Some(0), "commands go to the control port");
        }
    }
}
