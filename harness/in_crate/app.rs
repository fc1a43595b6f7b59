// The program itself (src/main.rs), with a modelled modem, radio and user.
use plusendi::verif::rt::{self, Local};
use plusendi::verif::{log, sx};
use tokio::model;

static mut PRINTED: Vec<u8> = Vec::new();

#[allow(static_mut_refs)]
fn printed() -> &'static mut Vec<u8> {
    unsafe { &mut PRINTED }
}

/// What the program prints.
pub fn print(text: std::fmt::Arguments<'_>, end: &str) {
    struct To;
    impl std::fmt::Write for To {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            printed().extend_from_slice(s.as_bytes());
            Ok(())
        }
    }
    let _ = std::fmt::Write::write_fmt(&mut To, text);
    printed().extend_from_slice(end.as_bytes());
}

macro_rules! println {
    () => { crate::app::print(format_args!(""), "\n") };
    ($($t:tt)*) => { crate::app::print(format_args!($($t)*), "\n") };
}
macro_rules! print {
    ($($t:tt)*) => { crate::app::print(format_args!($($t)*), "") };
}
macro_rules! env {
    ("CARGO_BIN_NAME") => { "plusendi" };
    ("CARGO_PKG_NAME") => { "plusendi" };
    ("CARGO_PKG_VERSION") => { "0.1.0" };
}

#[path = "/repo/src/main.rs"]
mod program;

const CONTROL: usize = 0;
const DATA: usize = 1;
const HANDSHAKE: &[u8] = b"[plusendi-0.1.0-B2FWIHJM$]\rFF\r";

type Program = Local<'static, color_eyre::Result<()>>;

fn arguments(more: &[(&'static str, &str)]) {
    let mut line = vec![
        ("", "n0call-7".to_string()),
        ("--de", "K1A".to_string()),
        ("--rig-control", "/dev/radio".to_string()),
        ("--rig-baud", "38400".to_string()),
    ];
    for (a, b) in more {
        line.push((a, b.to_string()));
    }
    structopt::command_line(line);
}

fn start() -> Program {
    model::reset();
    printed().clear();
    Local::new(program::main())
}

fn say(text: &[u8]) {
    model::link(CONTROL).push(text.to_vec());
}

/// The lines the modem has been sent.
fn sent() -> Vec<Vec<u8>> {
    match model::world().links.get(CONTROL) {
        None => Vec::new(),
        Some(l) => l.written.split(|&c| c == b'\r').filter(|l| !l.is_empty()).map(|l| l.to_vec()).collect(),
    }
}

const SETUP: [&[u8]; 3] = [b"MYCALL K1A", b"COMPRESSION TEXT", b"BW2300"];
const CONNECT: &[u8] = b"CONNECT K1A N0CALL-7";

fn failed(p: &Program) -> bool {
    matches!(p.out, Some(Err(_)))
}

/// The program, with a connection.
fn connected() -> Program {
    arguments(&[]);
    let mut p = start();
    for _ in 0..4 {
        rt::run(&mut p);
        say(b"OK\r");
    }
    rt::run(&mut p);
    say(b"CONNECTED K1A N0CALL-7\r");
    rt::run(&mut p);
    sx::check(!p.done() && sent().len() == 4, "the program runs once it is connected");
    p
}

fn leave(p: Program) {
    drop(p);
    model::reset();
}

// ---------------------------------------------------------------- setting up

/// Parameter: open choices of the control task's select!.
#[no_mangle]
pub extern "C" fn h_app_start() {
    rt::free_selects(sx::param(0) as u32);
    let (control, data) = match sx::pick(4) {
        0 => {
            arguments(&[]);
            (8300, 8301)
        }
        1 => {
            arguments(&[("--modem-control-port", "9000")]);
            (9000, 9001)
        }
        2 => {
            arguments(&[("--modem-data-port", "1")]);
            (8300, 1)
        }
        _ => {
            arguments(&[("--modem-data-port", "7000"), ("--modem-control-port", "7001")]);
            (7001, 7000)
        }
    };
    let mut p = start();
    let refuse = sx::pick(3);
    if refuse < 2 {
        model::world().refuse_from = Some(refuse);
    }
    let no_port = sx::pick(2) == 1;
    model::world().no_port = no_port;
    rt::run(&mut p);
    let at: Vec<u16> = model::world().attempts.iter().map(|a| a.port()).collect();
    if refuse < 2 {
        sx::check(failed(&p) && sent().is_empty(), "the program ends if the modem cannot be reached");
        sx::cover(1);
        return leave(p);
    }
    sx::check(at == [control, data], "the modem's ports are those given");
    for i in 0..4 {
        let mut lines = sent();
        if i == 3 && no_port {
            sx::check(failed(&p) && !lines.iter().any(|l| *l == CONNECT), "without the radio nothing is connected");
            sx::cover(2);
            return leave(p);
        }
        if no_port && p.done() {
            // noticed earlier
            sx::check(failed(&p), "the program ends without the radio");
            return leave(p);
        }
        sx::check(!p.done() && lines.len() == i + 1, "the program waits for each answer");
        if i == 3 {
            sx::check(lines.pop().map_or(false, |l| l == CONNECT), "the connection asked for is that of the given stations");
            lines.sort();
            let mut want: Vec<&[u8]> = SETUP.to_vec();
            want.sort();
            sx::check(lines.iter().zip(&want).all(|(a, b)| a == b), "the modem is set up before a connection is asked for");
        }
        match sx::pick(4) {
            0 => say(b"WRONG\r"),
            1 => model::link(CONTROL).close(),
            2 => model::link(CONTROL).fail_reads(),
            _ => {
                say(b"OK\r");
                rt::run(&mut p);
                continue;
            }
        }
        rt::run(&mut p);
        sx::check(failed(&p), "the program ends with an error when the modem refuses or is lost");
        sx::check(sent().len() == i + 1, "nothing is sent after a refusal");
        sx::cover(3);
        return leave(p);
    }
    let ports = &model::world().ports;
    sx::check(ports.len() == 1 && ports[0].0 == "/dev/radio" && ports[0].1 == 38400, "the radio's port is the one given");
    match sx::pick(4) {
        0 => say(b"DISCONNECTED\r"),
        1 => say(b"PENDING\r"),
        2 => model::link(CONTROL).close(),
        _ => {
            say(b"CONNECTED K1A N0CALL-7\r");
            rt::run(&mut p);
            sx::check(!p.done(), "the program goes on once connected");
            sx::check(model::link(DATA).written.is_empty() && printed().is_empty(), "nothing is sent or printed before the other side speaks");
            sx::check(sent().len() == 4, "nothing else is sent to the modem");
            sx::cover(4);
            return leave(p);
        }
    }
    rt::run(&mut p);
    sx::check(failed(&p), "the program ends if no connection is made");
    sx::cover(5);
    leave(p)
}

// ---------------------------------------------------------------- the dialogue

/// What is to be printed for what has arrived, and how much of it up to the first prompt.
fn lines_of(data: &[u8]) -> (Vec<u8>, Option<usize>) {
    let mut out = Vec::new();
    let mut prompt = None;
    let mut from = 0;
    for i in 0..data.len() {
        if data[i] == b'\r' {
            let line = &data[from..i];
            out.extend_from_slice(String::from_utf8_lossy(line).as_bytes());
            out.push(b'\n');
            if prompt.is_none() && i > from && data[i - 1] == b'>' {
                prompt = Some(out.len());
            }
            from = i + 1;
        }
    }
    (out, prompt)
}

fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = a.len() != b.len();
    for i in 0..a.len().min(b.len()) {
        d |= a[i] != b[i];
    }
    !d
}

/// Any text: ASCII, or whatever.
fn text(n: usize, ascii: bool) -> Vec<u8> {
    let v = sx::bytes(n);
    if ascii {
        for &c in &v {
            sx::assume(c < 0x80);
        }
    } else {
        for &c in &v {
            // of those outside ASCII, some of each kind UTF-8 tells apart
            sx::assume((c < 0x80) | (c == 0x80) | (c == 0xc3) | (c == 0xe2) | (c == 0xf0) | (c == 0xff));
        }
    }
    v
}

struct Dialogue {
    program: Program,
    arrived: Vec<u8>,
    /// Times the user has pressed Enter.
    entered: usize,
    gone: bool,
}

impl Dialogue {
    fn prompted(&self) -> bool {
        lines_of(&self.arrived).1.is_some()
    }
    fn arrive(&mut self, data: &[u8]) {
        if !data.is_empty() {
            self.arrived.extend_from_slice(data);
            model::link(DATA).push(data.to_vec());
            self.look();
        }
    }
    fn enter(&mut self) {
        self.entered += 1;
        model::world().typed.push(b"\n".to_vec());
        self.look();
    }
    fn end(&mut self) {
        self.gone = true;
        say(b"DISCONNECTED\r");
        self.look();
    }
    /// Everything the program must have done by now, and nothing more.
    fn look(&mut self) {
        rt::run(&mut self.program);
        let (all, prompt) = lines_of(&self.arrived);
        let p = printed();
        sx::check(p.len() <= all.len() && same(p, &all[..p.len().min(all.len())]), "only whole lines that arrived are printed, once and in order");
        let answered = prompt.is_some() && self.entered >= 1 ;
        let must = match prompt {
            Some(n) if self.entered == 0 => n,
            _ => all.len(),
        };
        sx::check(p.len() >= must, "every whole line that arrived is printed");
        let w = &model::link(DATA).written;
        if answered {
            // sent unless the connection was over by then
            sx::check(same(w, HANDSHAKE) || (self.gone && w.is_empty()), "the program identifies itself exactly once");
        } else {
            sx::check(w.is_empty(), "nothing is sent before the prompt and the user's word");
        }
        if self.gone && (prompt.is_none() || self.entered >= 2) {
            sx::check(self.program.done(), "the program ends when the connection has ended");
        }
        if !self.gone {
            sx::check(!self.program.done(), "the program goes on while connected");
        }
    }
}

/// Delivers `data` in up to `cuts` + 1 pieces.
fn pieces(data: &[u8], cuts: usize) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut from = 0;
    for _ in 0..cuts {
        let at = from + sx::pick((data.len() - from) as u32 + 1);
        out.push(data[from..at].to_vec());
        from = at;
    }
    out.push(data[from..].to_vec());
    out
}

/// Parameters: arbitrary bytes before a prompt, after it, cuts of it, arbitrary bytes after the
/// identification, cuts of those, whether the bytes are ASCII only, fixed characters before all.
#[no_mangle]
pub extern "C" fn h_app_dialogue() {
    rt::free_selects(0);
    let ascii = sx::param(5) == 1;
    let mut d = Dialogue { program: connected(), arrived: Vec::new(), entered: 0, gone: false };
    if sx::pick(2) == 1 {
        model::link(DATA).accept.extend([1, 0, 3, 0, 0, 1]);
    }
    let mut first = vec![b'x'; sx::param(6)];
    first.extend(text(sx::param(0), ascii));
    if sx::pick(2) == 1 {
        first.extend_from_slice(b"a>\r");
    }
    first.extend(text(sx::param(1), ascii));
    let parts = pieces(&first, sx::param(2));
    // the user may press Enter at any time
    let when = sx::pick(parts.len() as u32 + 1);
    for (i, part) in parts.iter().enumerate() {
        if i == when {
            d.enter();
        }
        d.arrive(part);
    }
    if when == parts.len() {
        d.enter();
    }
    if d.prompted() {
        sx::cover(1);
        sx::check(same(&model::link(DATA).written, HANDSHAKE), "the program identifies itself after the prompt and the user's word");
    } else {
        sx::cover(2);
    }
    let second = text(sx::param(3), ascii);
    for part in pieces(&second, sx::param(4)) {
        d.arrive(&part);
    }
    sx::observe(1, printed().len() as u64);
    match sx::pick(5) {
        0 => d.end(),
        1 => {
            model::link(DATA).close();
            d.gone = true;
            d.look();
        }
        2 => {
            model::link(CONTROL).close();
            d.gone = true;
            d.look();
        }
        3 => {
            model::link(DATA).close();
            model::link(CONTROL).fail_reads();
            d.gone = true;
            d.look();
        }
        _ => {
            d.enter();
            d.end();
        }
    }
    if d.entered < 2 {
        d.enter();
    }
    if lines_of(&d.arrived).1.is_some() {
        sx::check(matches!(d.program.out, Some(Ok(()))), "a whole session ends well");
        sx::cover(3);
    } else {
        sx::check(d.program.done(), "the program ends");
        sx::cover(4);
    }
    drop(d);
    model::reset();
}

/// Parameters: lines before the prompt and as many after the identification, their length. One byte
/// is arbitrary, and all arrives in pieces of some size.
#[no_mangle]
pub extern "C" fn h_app_long() {
    rt::free_selects(0);
    let (lines, length) = (sx::param(0), sx::param(1));
    let mut d = Dialogue { program: connected(), arrived: Vec::new(), entered: 0, gone: false };
    if sx::pick(2) == 1 {
        d.enter();
    }
    let total = lines * (length + 1);
    let sizes = [total, 1000, length + 1, length.max(2) - 1];
    let size = sizes[sx::pick(4)];
    let mut data: Vec<u8> = (0..total).map(|i| if i % (length + 1) == length { b'\r' } else { b'a' + (i % 23) as u8 }).collect();
    let at = [0, total / 2, total - 1][sx::pick(3)];
    let c = sx::byte();
    sx::assume(c < 0x80);
    data[at] = c;
    for p in data.chunks(size) {
        d.arrive(p);
    }
    d.arrive(b"\rthere>\r");
    if d.entered == 0 {
        d.enter();
    }
    sx::check(same(&model::link(DATA).written, HANDSHAKE), "the program identifies itself after the prompt and the user's word");
    for p in data.chunks(size) {
        d.arrive(p);
    }
    d.arrive(b"\rbye\r");
    sx::observe(1, printed().len() as u64);
    d.end();
    if d.entered < 2 {
        d.enter();
    }
    sx::check(matches!(d.program.out, Some(Ok(()))), "a whole session ends well");
    sx::cover(1);
    drop(d);
    model::reset();
}

// ---------------------------------------------------------------- keying

/// Runs without repetitions: the state the radio is in, from change to change.
fn changes(v: impl Iterator<Item = bool>) -> Vec<bool> {
    let mut out: Vec<bool> = Vec::new();
    for x in v {
        if out.last() != Some(&x) {
            out.push(x);
        }
    }
    out
}

/// What the radio has been told, or nothing if it was told anything but TX and RX.
fn keyed() -> Option<Vec<bool>> {
    let w = model::world();
    let l = w.ports.first().map(|p| p.2)?;
    let mut out = Vec::new();
    for m in w.links[l].written.chunks(3) {
        match m {
            b"TX;" => out.push(true),
            b"RX;" => out.push(false),
            _ => return None,
        }
    }
    Some(out)
}

/// Parameters: PTT reports, open choices of the control task's select!.
#[no_mangle]
pub extern "C" fn h_app_keying() {
    keying(false)
}

/// The same, with a radio that takes nothing for a while.
#[no_mangle]
pub extern "C" fn h_app_stalled() {
    keying(true)
}

fn keying(stalls: bool) {
    rt::free_selects(0);
    arguments(&[]);
    let mut p = start();
    // while setting up, while connecting, or once connected
    let stage = sx::pick(3);
    for i in 0..4 {
        rt::run(&mut p);
        if i == 3 && stage == 0 {
            break;
        }
        say(b"OK\r");
    }
    rt::run(&mut p);
    if stage == 2 {
        say(b"CONNECTED K1A N0CALL-7\r");
        rt::run(&mut p);
    }
    rt::free_selects(sx::param(1) as u32);
    let radio = match model::world().ports.first() {
        Some(p) => p.2,
        None => {
            sx::check(false, "the radio's port is open");
            return;
        }
    };
    match sx::pick(3) {
        0 => {}
        1 => model::link(radio).accept.extend([1, 0, 1, 0, 1, 0, 2]),
        _ => model::link(radio).accept.extend([0, 2, 0, 0, 0]),
    }
    let mut reports = Vec::new();
    let together = sx::pick(2) == 1;
    let n = sx::param(0);
    // the radio takes this much, then nothing until that many reports have come
    let mut until = n + 1;
    if stalls {
        model::link(radio).make_room(Some(sx::pick(5)));
        until = sx::pick(n as u32) + 1;
    }
    for i in 0..n {
        if i == until {
            model::link(radio).make_room(None);
        }
        let on = sx::pick(2) == 1;
        reports.push(on);
        say(if on { b"PTT ON\r" } else { b"PTT OFF\r" });
        if !together {
            rt::run(&mut p);
            if stalls && i < until {
                continue;
            }
            sx::check(keyed().map_or(false, |k| k.last() == Some(&on)), "the radio does what the modem asked last");
        }
    }
    if until >= n && stalls {
        rt::run(&mut p);
        model::link(radio).make_room(None);
    }
    rt::run(&mut p);
    let told = match keyed() {
        Some(k) => k,
        None => {
            sx::check(false, "the radio is told only whole commands");
            return;
        }
    };
    sx::check(told.last() == reports.last(), "the radio ends up as the modem asked last");
    if together || stalls {
        let mut i = 0;
        for t in &told {
            while i < reports.len() && reports[i] != *t {
                i += 1;
            }
            i += 1;
        }
        sx::check(i <= reports.len(), "the radio is told only what the modem asked, in order");
        sx::cover(2);
    } else {
        sx::check(changes(told.into_iter()) == changes(reports.into_iter()), "every change of keying reaches the radio, in order");
        sx::cover(1);
    }
    sx::check(!p.done(), "the program goes on");
    leave(p)
}

// ---------------------------------------------------------------- logging

/// Parameters: arbitrary bytes before and after the prompt.
#[no_mangle]
pub extern "C" fn h_log_app() {
    rt::free_selects(0);
    let mut data = text(sx::param(0), false);
    data.extend_from_slice(b"a>\r");
    data.extend(text(sx::param(1), false));
    let cut = sx::pick(data.len() as u32 + 1);
    let logged = log::both(|| {
        let mut p = connected();
        for part in [&data[..cut], &data[cut..]] {
            model::link(DATA).push(part.to_vec());
            rt::run(&mut p);
        }
        model::world().typed.push(b"\n".to_vec());
        rt::run(&mut p);
        model::link(DATA).push(data.clone());
        rt::run(&mut p);
        say(b"DISCONNECTED\r");
        model::world().typed.push(b"\n".to_vec());
        rt::run(&mut p);
        let w = model::link(DATA).written.clone();
        let out = p.out.take().map(|r| r.is_ok());
        drop(p);
        model::reset();
        (out, w, printed().clone())
    });
    if logged {
        sx::cover(1);
    } else {
        sx::cover(2);
    }
}
