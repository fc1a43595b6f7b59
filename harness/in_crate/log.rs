// A log that formats everything it is given, up to a level that can be changed.
use super::sx;
use std::fmt::{self, Write};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::{Interest, Subscriber};
use tracing::{Event, Level, Metadata};

static mut LEVEL: usize = 0;
static mut INSTALLED: bool = false;
static mut RECORDS: usize = 0;

/// Formats, and keeps nothing.
struct Null(usize);

impl Write for Null {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

impl Visit for Null {
    fn record_debug(&mut self, _: &Field, value: &dyn fmt::Debug) {
        let _ = write!(self, "{:?}", value);
    }
    // text is copied rather than escaped
    fn record_str(&mut self, _: &Field, value: &str) {
        let _ = self.write_str(value);
    }
}

struct Sink;

fn rank(l: &Level) -> usize {
    match *l {
        Level::ERROR => 1,
        Level::WARN => 2,
        Level::INFO => 3,
        Level::DEBUG => 4,
        _ => 5,
    }
}

impl Subscriber for Sink {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        unsafe { rank(m.level()) <= LEVEL }
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        unsafe { RECORDS += 1 }
        a.record(&mut Null(0));
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Null(0));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        unsafe { RECORDS += 1 }
        e.record(&mut Null(0));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

fn level(l: usize) {
    unsafe {
        LEVEL = l;
        if !INSTALLED {
            INSTALLED = true;
            let _ = tracing::subscriber::set_global_default(Sink);
        }
    }
}

/// Does `f` once without any log and once with it, down to any level, and
/// compares what came of it. Returns whether anything was logged.
pub fn both<T: PartialEq>(f: impl Fn() -> T) -> bool {
    level(0);
    let quiet = f();
    sx::check(unsafe { RECORDS } == 0, "nothing is logged while logging is off");
    level(1 + sx::pick(5));
    let logged = f();
    level(0);
    sx::check(quiet == logged, "logging changes nothing");
    let n = unsafe { RECORDS };
    unsafe { RECORDS = 0 }
    n > 0
}
