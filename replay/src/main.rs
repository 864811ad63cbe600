//! Runs operation histories against the real crate.
//!   replay search PROP SEED SECONDS OUTFILE [PROCS]   look for a history that violates PROP
//!   replay run FILE [dense_from]                       run one history, exit 1 on a violation
//!   replay worker ...                                  (internal)
mod exec;
mod ops;
mod types;

/// fresh and freed memory of the size of nodes holds rubbish: what is read without having been written shows
struct Rubbish;
const NODE: usize = 1 << 14;
unsafe impl std::alloc::GlobalAlloc for Rubbish {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if l.size() <= NODE && !p.is_null() {
            p.write_bytes(0xA5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.size() <= NODE {
            p.write_bytes(0x5A, l.size());
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static RUBBISH: Rubbish = Rubbish;

use ops::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn load(path: &str) -> Option<Trace> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut t = Trace { kind: "unit".into(), group: 10, want: String::new(), ops: vec![] };
    for l in s.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if let Some(k) = l.strip_prefix("augmentation ") {
            t.kind = k.trim().into();
        } else if let Some(w) = l.strip_prefix("property ") {
            t.want = w.trim().into();
        } else if let Some(g) = l.strip_prefix("group_width ") {
            t.group = g.trim().parse().ok()?;
        } else {
            t.ops.push(Op::parse(l)?);
        }
    }
    Some(t)
}
fn save(t: &Trace, path: &str, head: &str) {
    let mut s = String::new();
    for l in head.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    s.push_str(&format!("property {}\naugmentation {}\ngroup_width {}\n", t.want, t.kind, t.group));
    for o in &t.ops {
        s.push_str(&o.text());
        s.push('\n');
    }
    let _ = std::fs::write(path, s);
}

/// one run in a subprocess: None = clean, Some((properties, message, op index))
fn run_sub(t: &Trace, dense: usize, secs: u64, tmp: &str) -> Option<(Vec<String>, String, usize)> {
    save(t, tmp, "");
    let log = format!("{tmp}.log");
    let _ = std::fs::write(&log, "0");
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(["run", tmp, &dense.to_string(), &log]).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut out = String::new();
    let mut err = String::new();
    use std::io::Read;
    if let Some(o) = c.stdout.as_mut() {
        let _ = o.read_to_string(&mut out);
    }
    if let Some(o) = c.stderr.as_mut() {
        let _ = o.read_to_string(&mut err);
    }
    let at: usize = std::fs::read_to_string(&log).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
    match st {
        Some(s) if s.success() => None,
        Some(s) => {
            if let Some(l) = out.lines().find(|l| l.starts_with("VIOL ")) {
                let mut p = l.splitn(4, ' ');
                p.next();
                let props = p.next().unwrap_or("").split(',').map(|x| x.to_string()).collect();
                let at = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                return Some((props, p.next().unwrap_or("").to_string(), at));
            }
            let why = err.lines().find(|l| l.contains("panicked")).map(|l| {
                let i = err.find(l).unwrap_or(0);
                err[i..].lines().take(2).collect::<Vec<_>>().join(" ")
            });
            let msg = why.unwrap_or_else(|| format!("the process ended abnormally ({s})"));
            Some((crash_owner(t, at), msg, at))
        }
        None => Some((crash_owner(t, at), "the operation does not return".into(), at)),
    }
}
fn crash_owner(t: &Trace, at: usize) -> Vec<String> {
    if at >= t.ops.len() {
        return vec!["C12".into()];
    }
    let o = t.ops[at].owner();
    if o == "AUG" {
        let mut v = vec![if t.kind == "group" { "C09" } else { "C08" }.to_string()];
        if matches!(t.ops[at], Op::RemBy(_)) {
            v.push("C03".into());
        }
        return v;
    }
    vec![o.into()]
}

fn expand(t: &Trace, at: usize) -> Trace {
    // split ranges so that single operations can be located and removed
    let mut n = t.clone();
    n.ops.truncate((at + 1).min(t.ops.len()));
    let mut o = vec![];
    for (i, op) in n.ops.iter().enumerate() {
        let near = i + 4 > at;
        match op {
            Op::InsRange(s, c, st) if near && *c <= 50_000 => (0..*c).for_each(|j| o.push(Op::Ins(s + j * st))),
            Op::RemRange(s, c, st) if near && *c <= 50_000 => (0..*c).for_each(|j| o.push(Op::Rem(s + j * st))),
            _ => o.push(op.clone()),
        }
    }
    n.ops = o;
    n
}

/// returns a shorter history with the same violation
fn shrink(t: &Trace, prop: &str, at: usize, tmp: &str, budget: Duration) -> (Trace, String, usize) {
    let t0 = Instant::now();
    let ok = |x: &Trace, dense: usize| -> Option<(String, usize)> {
        let (p, m, a) = run_sub(x, dense, 60, tmp)?;
        if p.iter().any(|q| q == prop) {
            Some((m, a))
        } else {
            None
        }
    };
    let mut cur = expand(t, at);
    let mut best = match ok(&cur, usize::MAX) {
        Some(x) => x,
        None => match ok(t, usize::MAX) {
            Some(x) => {
                cur = t.clone();
                x
            }
            None => return (t.clone(), String::new(), at),
        },
    };
    cur.ops.truncate(best.1 + 1);
    let mut chunk = cur.ops.len() / 2;
    while chunk >= 1 && t0.elapsed() < budget {
        let mut i = 0;
        while i < cur.ops.len() && t0.elapsed() < budget {
            let mut c = cur.clone();
            let j = (i + chunk).min(c.ops.len());
            c.ops.drain(i..j);
            if let Some(b) = ok(&c, usize::MAX) {
                cur = c;
                cur.ops.truncate(b.1 + 1);
                best = b;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    (cur, best.0, best.1)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let t = match load(&a[2]) {
                Some(t) => t,
                None => {
                    println!("not a history file");
                    std::process::exit(2)
                }
            };
            let dense = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
            let log = a.get(4).cloned();
            let mut f = log.map(|l| std::fs::File::create(l).unwrap());
            let (r, _) = exec::run(&t, &t.want, dense, &mut |i| {
                if let Some(f) = &mut f {
                    use std::io::Seek;
                    let _ = f.seek(std::io::SeekFrom::Start(0));
                    let _ = f.write_all(format!("{i:<12}").as_bytes());
                }
            });
            if let Err(e) = r {
                println!("VIOL {} {} {}", e.props.join(","), e.op, e.msg.replace('\n', " "));
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
            println!("held");
        }
        Some("worker") => {
            // worker PROP SEED START STRIDE SECONDS LOG
            let p = a[2].as_str();
            let seed: u64 = a[3].parse().unwrap();
            let mut i: u64 = a[4].parse().unwrap();
            let stride: u64 = a[5].parse().unwrap();
            let secs: f64 = a[6].parse().unwrap();
            let cap: u64 = a[8].parse().unwrap();
            let mut f = std::fs::File::create(&a[7]).unwrap();
            let t0 = Instant::now();
            while t0.elapsed().as_secs_f64() < secs && i < cap {
                let t = generate(p, i, seed);
                let mut opi = usize::MAX;
                {
                    let f = &mut f;
                    use std::io::Seek;
                    let _ = f.seek(std::io::SeekFrom::Start(0));
                    let _ = f.write_all(format!("{i:<12}").as_bytes());
                    let (r, s) = exec::run(&t, p, usize::MAX, &mut |k| opi = k);
                    match r {
                        Ok(()) => println!("OK {i} {} {} {} {} {} {} {} {}", t.kind, t.ops.len(), s.ops, s.full, s.nodes, s.max_len, s.max_depth, s.queries),
                        Err(e) => {
                            println!("VIOL {i} {} {} {}", e.props.join(","), e.op, e.msg.replace('\n', " "));
                        }
                    }
                }
                i += stride;
            }
            println!("DONE {i}");
        }
        Some("search") => search(&a),
        Some("gen") => {
            let t = generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            save(&t, &a[5], "generated");
        }
        _ => {
            eprintln!("usage: replay search|run ...");
            std::process::exit(2)
        }
    }
}

fn search(a: &[String]) {
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let out = a[5].clone();
    let procs: u64 = a.get(6).and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap: u64 = a.get(7).and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let dir = format!("{out}.tmp{}", std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let found: std::sync::Mutex<Option<(u64, String, usize)>> = std::sync::Mutex::new(None);
    let other = std::sync::Mutex::new(Vec::<String>::new());
    let totals = std::sync::Mutex::new(([0u64; 8], std::collections::BTreeMap::<String, u64>::new(), Vec::<String>::new()));
    std::thread::scope(|sc| {
        for w in 0..procs {
            let (found, other, totals, prop, exe, dir) = (&found, &other, &totals, &prop, &exe, &dir);
            sc.spawn(move || {
                let mut start = w;
                loop {
                    let left = secs - t0.elapsed().as_secs_f64();
                    if left <= 0.0 || found.lock().unwrap().is_some() || start >= cap {
                        return;
                    }
                    let log = format!("{dir}/w{w}");
                    let _ = std::fs::write(&log, "");
                    let mut c = match Command::new(exe)
                        .args(["worker", prop, &seed.to_string(), &start.to_string(), &procs.to_string(), &format!("{left}"), &log, &cap.to_string()])
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                    {
                        Ok(c) => c,
                        Err(_) => return,
                    };
                    let so = c.stdout.take().unwrap();
                    let (tx, rx) = std::sync::mpsc::channel::<String>();
                    let rd = std::thread::spawn(move || {
                        use std::io::BufRead;
                        for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                            if tx.send(l).is_err() {
                                break;
                            }
                        }
                    });
                    let mut last = Instant::now();
                    let mut ended = false;
                    let mut done = false;
                    let mut cur = start;
                    loop {
                        match rx.recv_timeout(Duration::from_millis(200)) {
                            Ok(l) => {
                                last = Instant::now();
                                let f: Vec<&str> = l.split(' ').collect();
                                match f[0] {
                                    "OK" => {
                                        cur = f[1].parse::<u64>().unwrap() + procs;
                                        let mut t = totals.lock().unwrap();
                                        t.0[0] += 1;
                                        for j in 3..7 {
                                            t.0[j - 2] += f[j].parse::<u64>().unwrap_or(0);
                                        }
                                        t.0[5] = t.0[5].max(f[7].parse().unwrap_or(0));
                                        t.0[6] = t.0[6].max(f[8].parse().unwrap_or(0));
                                        *t.1.entry(f[2].to_string()).or_insert(0) += 1;
                                        if t.2.len() < 6 {
                                            t.2.push(format!("history {} ({}, {} operations)", f[1], f[2], f[3]));
                                        }
                                    }
                                    "VIOL" => {
                                        let i: u64 = f[1].parse().unwrap();
                                        cur = i + procs;
                                        let at: usize = f[3].parse().unwrap_or(0);
                                        let msg = f[4..].join(" ");
                                        if f[2].split(',').any(|p| p == *prop) {
                                            let mut g = found.lock().unwrap();
                                            if g.is_none() {
                                                *g = Some((i, msg, at));
                                            }
                                        } else {
                                            other.lock().unwrap().push(format!("{} {}", f[2], msg));
                                        }
                                    }
                                    "DONE" => done = true,
                                    _ => {}
                                }
                            }
                            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => ended = true,
                            Err(_) => {}
                        }
                        if found.lock().unwrap().is_some() {
                            let _ = c.kill();
                        }
                        if ended {
                            let _ = c.wait();
                            break;
                        }
                        // large histories take a few seconds; anything beyond is taken for a hang
                        if last.elapsed() > Duration::from_secs(90) {
                            let _ = c.kill();
                            let _ = c.wait();
                            break;
                        }
                    }
                    let _ = rd.join();
                    if done || found.lock().unwrap().is_some() {
                        return;
                    }
                    // the worker died inside history `cur`: find out where
                    let t = generate(prop, cur, seed);
                    if let Some((p, m, at)) = run_sub(&t, usize::MAX, 120, &format!("{dir}/c{w}")) {
                        if p.iter().any(|q| q == prop) {
                            let mut g = found.lock().unwrap();
                            if g.is_none() {
                                *g = Some((cur, m, at));
                            }
                            return;
                        }
                        // look at the state after every operation before it: earlier damage?
                        let mut e = expand(&t, at);
                        if e.ops.len() < 6000 {
                            e.ops.push(Op::Full);
                            if let Some((p2, m2, at2)) = run_sub(&e, e.ops.len().saturating_sub(400), 120, &format!("{dir}/c{w}")) {
                                if p2.iter().any(|q| q == prop) {
                                    let mut g = found.lock().unwrap();
                                    if g.is_none() {
                                        *g = Some((cur, m2, at2));
                                    }
                                    return;
                                }
                            }
                        }
                        other.lock().unwrap().push(format!("{} {}", p.join(","), m));
                    }
                    start = cur + procs;
                }
            });
        }
    });
    let f = found.lock().unwrap().clone();
    let t = totals.lock().unwrap();
    let oth = other.lock().unwrap();
    println!(
        "STATS {{\"histories\":{},\"script_operations\":{},\"operations\":{},\"full_checks\":{},\"nodes_inspected\":{},\"largest_container\":{},\"deepest_tree\":{},\"kinds\":{:?},\"samples\":{:?},\"other_violations\":{},\"wall_s\":{:.1}}}",
        t.0[0], t.0[1], t.0[2], t.0[3], t.0[4], t.0[5], t.0[6], t.1, t.2, oth.len(), t0.elapsed().as_secs_f64()
    );
    for o in oth.iter().take(5) {
        println!("OTHER {o}");
    }
    if let Some((i, msg, at)) = f {
        let tr = generate(&prop, i, seed);
        let (s, m, at2) = shrink(&tr, &prop, at, &format!("{dir}/s"), Duration::from_secs(25));
        let m = if m.is_empty() { msg } else { m };
        let head = format!("violates {prop} at operation {at2}: {m}\nrun with: replay run FILE");
        save(&s, &out, &head);
        println!("FOUND {m}");
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(1);
    }
    let _ = std::fs::remove_dir_all(&dir);
}
