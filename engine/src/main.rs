//! symir: symbolic execution of a compiled Rust program's LLVM IR.
mod ctx;
mod exec;
mod expr;
mod llvm;
mod mem;
mod module;
mod solver;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

/// Line-oriented dump of a worker's tally, read back by the parent.
fn dump(x: &Ex) -> String {
    let t = &x.t;
    let z = &x.z.stats;
    let mut s = String::new();
    writeln!(
        s,
        "T {} {} {} {} {} {} {} {} {}",
        t.paths, t.assumed_away, t.instrs, t.forks, t.merges, t.asserts, t.max_pc, t.max_syms, t.pending
    )
    .unwrap();
    writeln!(s, "Z {} {} {} {} {} {} {} {}", z.queries, z.cached, z.sat, z.unsat, z.unknown, z.hard, z.time_us, z.max_us).unwrap();
    for (c, n) in &t.covers {
        writeln!(s, "C {} {}", c, n).unwrap();
    }
    for v in &t.violations {
        writeln!(s, "V {} {} {}", hex(v.msg.as_bytes()), hex(v.at.as_bytes()), hex(&v.bytes)).unwrap();
    }
    for e in &t.errors {
        writeln!(s, "E {}", hex(e.as_bytes())).unwrap();
    }
    for p in &t.samples {
        writeln!(
            s,
            "S {}x {} {}",
            hex(&p.bytes),
            p.covers.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",") + ";",
            p.obs.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(",") + ";"
        )
        .unwrap();
    }
    for (i, &b) in x.seen.iter().enumerate() {
        if b && i < x.m.locs.len() {
            let (f, l) = x.m.locs[i];
            let f = &x.m.files[f as usize];
            if f.starts_with("/repo/") {
                writeln!(s, "L {}:{}", f, l).unwrap();
            }
        }
    }
    for (i, &b) in x.funcs_seen.iter().enumerate() {
        if b {
            writeln!(s, "F {}", x.m.fnames[i]).unwrap();
        }
    }
    s
}

#[derive(Default)]
struct Sum {
    t: [u64; 9],
    z: [u64; 8],
    covers: std::collections::BTreeMap<u32, u64>,
    viol: Vec<(String, String, String)>,
    errors: Vec<String>,
    samples: Vec<(String, String, String)>,
    lines: std::collections::BTreeSet<String>,
    funcs: std::collections::BTreeSet<String>,
}

impl Sum {
    fn add(&mut self, s: &str) {
        for l in s.lines() {
            let mut w = l.split(' ');
            match w.next() {
                Some("T") => {
                    for (i, x) in w.enumerate() {
                        let x: u64 = x.parse().unwrap();
                        if i == 6 || i == 7 {
                            self.t[i] = self.t[i].max(x)
                        } else {
                            self.t[i] += x
                        }
                    }
                }
                Some("Z") => {
                    for (i, x) in w.enumerate() {
                        let x: u64 = x.parse().unwrap();
                        if i == 7 {
                            self.z[i] = self.z[i].max(x)
                        } else {
                            self.z[i] += x
                        }
                    }
                }
                Some("C") => {
                    let c = w.next().unwrap().parse().unwrap();
                    let n: u64 = w.next().unwrap().parse().unwrap();
                    *self.covers.entry(c).or_insert(0) += n;
                }
                Some("V") => {
                    let d = |s: Option<&str>| String::from_utf8_lossy(&unhex(s.unwrap())).to_string();
                    let (m, a) = (d(w.next()), d(w.next()));
                    let b = w.next().unwrap_or("").to_string();
                    if !self.viol.iter().any(|v| v.0 == m && v.1 == a) {
                        self.viol.push((m, a, b));
                    }
                }
                Some("E") => {
                    let m = String::from_utf8_lossy(&unhex(w.next().unwrap())).to_string();
                    if self.errors.len() < 20 && !self.errors.contains(&m) {
                        self.errors.push(m);
                    }
                }
                Some("S") => {
                    if self.samples.len() < 80 {
                        let f = |x: Option<&str>| x.unwrap_or("").trim_end_matches(|c| c == 'x' || c == ';').to_string();
                        self.samples.push((f(w.next()), f(w.next()), f(w.next())));
                    }
                }
                Some("L") => {
                    self.lines.insert(w.next().unwrap().to_string());
                }
                Some("F") => {
                    self.funcs.insert(w.next().unwrap().to_string());
                }
                _ => {}
            }
        }
    }

    fn json(&self, complete: bool, secs: f64) -> String {
        let mut s = String::from("{");
        let names = ["paths", "assumed_away", "instructions", "forks", "merges", "assertions", "max_path_constraints", "max_symbols", "pending"];
        for (i, n) in names.iter().enumerate() {
            write!(s, "\"{}\":{},", n, self.t[i]).unwrap();
        }
        let names = ["queries", "cached", "sat", "unsat", "unknown", "second_solver", "solver_us", "max_query_us"];
        for (i, n) in names.iter().enumerate() {
            write!(s, "\"{}\":{},", n, self.z[i]).unwrap();
        }
        write!(s, "\"complete\":{},\"seconds\":{:.3},", complete, secs).unwrap();
        write!(s, "\"covers\":{{{}}},", self.covers.iter().map(|(c, n)| format!("\"{}\":{}", c, n)).collect::<Vec<_>>().join(",")).unwrap();
        write!(
            s,
            "\"violations\":[{}],",
            self.viol.iter().map(|v| format!("{{\"msg\":\"{}\",\"at\":\"{}\",\"bytes\":\"{}\"}}", esc(&v.0), esc(&v.1), v.2)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        write!(s, "\"errors\":[{}],", self.errors.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(",")).unwrap();
        write!(
            s,
            "\"samples\":[{}],",
            self.samples.iter().map(|v| format!("{{\"bytes\":\"{}\",\"covers\":\"{}\",\"obs\":\"{}\"}}", v.0, v.1, v.2)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        write!(s, "\"lines\":[{}],", self.lines.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(",")).unwrap();
        write!(s, "\"functions\":[{}]", self.funcs.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(",")).unwrap();
        s.push('}');
        s
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let bc = &args[1];
    let entry = &args[2];
    let t0 = Instant::now();
    let maxt: f64 = get("--time").map_or(1e9, |s| s.parse().unwrap());
    let deadline = t0 + Duration::from_secs_f64(maxt.min(1e6));
    let jobs: usize = get("--jobs").map_or(8, |s| s.parse().unwrap());
    let o = Opts {
        merge: !args.iter().any(|a| a == "--no-merge"),
        max_steps: get("--steps").map_or(400_000_000, |s| s.parse().unwrap()),
        conc: get("--conc").map_or(4096, |s| s.parse().unwrap()),
        params: get("--params").map_or(vec![], |s| s.split(',').map(|x| x.parse().unwrap()).collect()),
        deadline: Some(deadline),
        stop_after: get("--stop").map_or(3, |s| s.parse().unwrap()),
        trace: args.iter().any(|a| a == "--trace"),
    };
    let frontier: usize = get("--frontier").map_or(300, |s| s.parse().unwrap());
    let verbose = args.iter().any(|a| a == "-v");
    let mut x = Ex::new(bc, o);
    if verbose {
        eprintln!("loaded in {:?}", t0.elapsed());
    }
    let st = x.start(entry);
    x.work.push(st);
    let mut sum = Sum::default();
    let mut timeout = false;
    // breadth first until there is enough to share out
    let mut queue: std::collections::VecDeque<State> = std::collections::VecDeque::new();
    queue.extend(x.work.drain(..));
    let tf = Instant::now();
    while let Some(s) = queue.pop_front() {
        x.run(s, 1_000_000);
        queue.extend(x.work.drain(..));
        if x.t.violations.len() >= x.o.stop_after || Instant::now() > deadline {
            break;
        }
        if jobs > 1 && (queue.len() >= frontier || tf.elapsed().as_millis() > 400) {
            break;
        }
    }
    if Instant::now() > deadline && !queue.is_empty() {
        timeout = true;
    }
    let stop_now = x.t.violations.len() >= x.o.stop_after || timeout;
    if !queue.is_empty() && !stop_now {
        if verbose {
            eprintln!("{:?} frontier {} paths {} instrs {}", t0.elapsed(), queue.len(), x.t.paths, x.t.instrs);
        }
        sum.add(&dump(&x));
        x.t = Tally::default();
        x.z.stats = Default::default();
        let mut items: Vec<Option<State>> = queue.drain(..).map(Some).collect();
        let n = items.len();
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const AtomicU64 };
        let (next, stop, active, made, left_pending) =
            unsafe { (&*shared, &*shared.add(1), &*shared.add(2), &*shared.add(3), &*shared.add(4)) };
        let dir = std::env::temp_dir().join(format!("symir-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let root = std::process::id() as i32;
        unsafe { prctl(36, 1, 0, 0, 0) }; // workers split off by workers come back to this process
        let mut done = 0u64;
        let mut failed = false;
        loop {
            // one more worker on the shared list
            while (active.load(SeqCst) as usize) < jobs && (next.load(SeqCst) as usize) < n && stop.load(SeqCst) == 0 {
                active.fetch_add(1, SeqCst);
                made.fetch_add(1, SeqCst);
                if unsafe { fork() } == 0 {
                    let base = x.ar.nodes.len();
                    let mut split = false;
                    'items: loop {
                        if stop.load(SeqCst) != 0 {
                            break;
                        }
                        if !split {
                            let i = next.fetch_add(1, SeqCst) as usize;
                            if i >= n {
                                break;
                            }
                            x.work.push(items[i].take().unwrap());
                        }
                        while let Some(s) = x.work.pop() {
                            if stop.load(SeqCst) != 0 {
                                left_pending.fetch_add(1, SeqCst);
                                break 'items;
                            }
                            if Instant::now() > deadline || unsafe { kill(root, 0) } != 0 {
                                stop.fetch_or(1, SeqCst);
                                left_pending.fetch_add(1, SeqCst);
                                break 'items;
                            }
                            // hand half of the rest to a new worker if there is room for one
                            if !x.work.is_empty()
                                && next.load(SeqCst) as usize >= n
                                && active.fetch_update(SeqCst, SeqCst, |a| if (a as usize) < jobs { Some(a + 1) } else { None }).is_ok()
                            {
                                made.fetch_add(1, SeqCst);
                                if unsafe { fork() } == 0 {
                                    let mut k = 0;
                                    x.work.retain(|_| {
                                        k += 1;
                                        k % 2 == 1
                                    });
                                    drop(s);
                                    items.clear();
                                    x.t = Tally::default();
                                    x.z.stats = Default::default();
                                    split = true;
                                    continue;
                                }
                                let mut k = 0;
                                x.work.retain(|_| {
                                    k += 1;
                                    k % 2 == 0
                                });
                            }
                            x.run(s, 4_000_000);
                            if x.t.violations.len() >= x.o.stop_after {
                                stop.fetch_or(2, SeqCst);
                            }
                        }
                        if split || x.ar.nodes.len() > base + 12_000_000 {
                            break;
                        }
                    }
                    std::fs::write(dir.join(std::process::id().to_string()), dump(&x)).unwrap();
                    active.fetch_sub(1, SeqCst);
                    unsafe { _exit(0) }
                }
            }
            let mut stt = 0i32;
            let p = unsafe { waitpid(-1, &mut stt, 0) };
            if p < 0 {
                break;
            }
            done += 1;
            let path = dir.join(p.to_string());
            match std::fs::read_to_string(&path) {
                Ok(s) => sum.add(&s),
                Err(_) => {
                    failed = true;
                    stop.fetch_or(4, SeqCst);
                }
            }
            let _ = std::fs::remove_file(&path);
        }
        sum.t[8] += left_pending.load(SeqCst);
        if done != made.load(SeqCst) {
            failed = true;
        }
        let _ = std::fs::remove_dir_all(&dir);
        if failed {
            sum.errors.push("a worker died".into());
        }
        if stop.load(SeqCst) & 1 != 0 {
            timeout = true;
        }
        if verbose {
            eprintln!("{:?} done, {} workers", t0.elapsed(), done);
        }
    } else {
        x.t.pending = queue.len() as u64;
        sum.add(&dump(&x));
    }
    let complete = !timeout && sum.errors.is_empty() && sum.t[8] == 0;
    let j = sum.json(complete, t0.elapsed().as_secs_f64());
    match get("--out") {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => {
            let _ = std::io::stdout().write_all(j.as_bytes());
            println!();
        }
    }
    if !sum.viol.is_empty() {
        1
    } else if !complete {
        2
    } else {
        0
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(9);
    std::process::exit(c);
}
