//! Runs the checks of one property: worker processes generate cases, so that a crash of the code
//! under test is an observation; failures are confirmed and shrunk by replays in fresh processes.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

use crate::src::{catch, install_hook, Mirror, Mode, Src};
use crate::{track, Prop, Sub, R};

const EXIT_FAIL: i32 = 101;
const EXIT_OK: i32 = 0;
/// The check has no answer (for instance, a tool it needs does not run).
const EXIT_UNDECIDED: i32 = 77;
/// The harness itself panicked, outside of any case.
const EXIT_BROKEN: i32 = 70;
fn answer(f: impl FnOnce() -> i32, o: &Opts) -> i32 {
    catch(f).unwrap_or_else(|e| { if let Some(d) = o.opt("out") { let _ = fs::write(Path::new(d).join("broken"), e); } EXIT_BROKEN })
}
pub fn undecided(why: &str) -> ! { eprintln!("undecided: {why}"); std::process::exit(EXIT_UNDECIDED) }
/// Without any finished case for this long a worker is stuck: an error of the check, not a violation.
const STALL: Duration = Duration::from_secs(100);

/// Where a failure goes that the case cannot return, and in a worker the number of the case.
static FAIL: std::sync::Mutex<(Option<PathBuf>, Option<u64>)> = std::sync::Mutex::new((None, None));
fn failing_into(f: PathBuf, case: Option<u64>) { *FAIL.lock().unwrap() = (Some(f), case); }
/// The case has failed and would not come to an end.
pub fn fatal(msg: &str) -> ! {
    track::untracked(|| {
        let mut at = FAIL.lock().unwrap();
        let index = at.1.map_or(String::new(), |i| format!("{i}\n"));
        match at.0.take() { Some(f) => { let _ = fs::write(f, format!("{index}{msg}")); } None => println!("FAILS: {msg}") }
        std::process::exit(EXIT_FAIL)
    })
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
fn case_seed(seed: u64, sub: &str, index: u64) -> u64 {
    let mut h = mix(seed, 0x5EED);
    for b in sub.bytes() { h = mix(h, b as u64 + 1); }
    mix(h, index)
}

/// Run one case, including the tracking scope around it.
pub fn run_case(sub: &Sub, g: &mut Src) -> R {
    if sub.track {
        track::begin();
        let r = catch(|| (sub.run)(g));
        let ok = matches!(r, Ok(Ok(())));
        let heap = if ok { track::end(true) } else {
            // The message lives in the scope: copy it out.
            let r = flatten(r);
            let copy = track::untracked(|| r.clone());
            drop(r);
            let heap = track::end(false);
            return match (copy, heap) { (Err(e), Err(h)) => Err(format!("{e}; {h}")), (e, _) => e };
        };
        heap
    } else {
        flatten(catch(|| (sub.run)(g)))
    }
}
fn flatten(r: Result<R, String>) -> R {
    match r { Ok(x) => x, Err(p) => Err(format!("unexpected {p}")) }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")) }

struct Opts { m: BTreeMap<String, String> }
impl Opts {
    fn get(&self, k: &str) -> &str { self.m.get(k).map(|s| s.as_str()).unwrap_or_else(|| panic!("missing --{k}")) }
    fn opt(&self, k: &str) -> Option<&str> { self.m.get(k).map(|s| s.as_str()) }
    fn num(&self, k: &str) -> u64 { self.get(k).parse().unwrap() }
}

pub fn main(props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: check run|replay|worker|one ... ({} properties)", props.len());
        std::process::exit(2);
    }
    let mut m = BTreeMap::new();
    let mut i = 2;
    while i + 1 < args.len() { m.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone()); i += 2; }
    let o = Opts { m };
    if args[1] == "run" || args[1] == "replay" { fixed_addresses(); }
    let code = match args[1].as_str() {
        "worker" => answer(|| worker(&props, &o), &o),
        "one" => answer(|| one(&props, &o), &o),
        "replay" => replay_file(&props, &o),
        "run" => run(&props, &o),
        "list" => { for s in &props.iter().find(|p| p.id == o.get("prop")).expect("property").subs { println!("{}\t{}", s.name, s.rule); } 0 }
        _ => 2,
    };
    std::process::exit(code);
}

/// Where memory is mapped is no longer random in the processes started from here on, so that a case
/// that depends on it fails again on replay. Not permitted everywhere, and then done without.
fn fixed_addresses() {
    #[cfg(target_os = "linux")]
    unsafe {
        extern "C" { fn personality(p: u64) -> i32; }
        let now = personality(0xFFFF_FFFF);
        if now >= 0 { personality(now as u64 | 0x004_0000); }
    }
}

/// The name of a sub-check as reported: the optimized build without overflow checks is told apart.
fn shown(name: &str) -> String { if cfg!(debug_assertions) { name.to_string() } else { format!("{name}-release") } }

/// The same in evidence, where guided cases are told apart as well.
fn reported(name: &str) -> String { if GUIDED { format!("{name}-guided") } else { shown(name) } }

/// Is this the build with instrumentation, whose cases are guided by coverage?
const GUIDED: bool = cfg!(pbt_cov);
/// The cases of the guided part; none where a case is slow, runs alongside other threads, or is
/// about amounts of memory.
fn guided_cases(s: &Sub, thorough: bool) -> u64 {
    if s.cases.0 < 100_000 || ["huge", "full", "real-threads"].contains(&s.name) { return 0; }
    if thorough { s.cases.0 * 3 } else { s.cases.0 / 5 }
}

fn find<'a>(props: &'a [Prop], o: &Opts) -> (&'a Prop, &'a Sub) {
    let p = props.iter().find(|p| p.id == o.get("prop")).expect("property");
    let s = p.subs.iter().find(|s| s.name == o.get("sub")).expect("sub-check");
    (p, s)
}

/// Worker: cases `start, start+step, ..` below `end`.
fn worker(props: &[Prop], o: &Opts) -> i32 {
    install_hook();
    let (_, sub) = find(props, o);
    let (seed, start, step, end) = (o.num("seed"), o.num("start"), o.num("step"), o.num("end"));
    let out = PathBuf::from(o.get("out"));
    use std::os::unix::fs::FileExt;
    let progress = fs::File::create(out.join("progress")).unwrap();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut n, mut nontrivial, mut choices) = (0u64, 0u64, 0u64);
    let mut samples: Vec<u64> = Vec::new();
    let mut code = EXIT_OK;
    let mut i = start;
    #[cfg(pbt_cov)]
    let mut guide = crate::guide::Guide::new(case_seed(seed ^ 0x6D1D, sub.name, start), &out);
    while i < end {
        progress.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
        failing_into(out.join("fail"), Some(i));
        #[cfg(not(pbt_cov))]
        let mut g = Src::random(case_seed(seed, sub.name, i));
        #[cfg(pbt_cov)]
        let mut g = guide.next();
        let r = run_case(sub, &mut g);
        #[cfg(pbt_cov)]
        let new = guide.ran(&g);
        n += 1;
        choices += g.choices.len() as u64;
        if let Err(e) = r {
            fs::write(out.join("fail"), format!("{i}\n{e}")).unwrap();
            code = EXIT_FAIL;
            break;
        }
        for l in &g.labels { *labels.entry(l).or_default() += 1; }
        if g.is_nontrivial {
            nontrivial += 1;
            hashes.insert(g.hash());
            // Small but not tiny cases make readable samples.
            #[cfg(not(pbt_cov))]
            if samples.len() < 40 { samples.push(i); }
            #[cfg(pbt_cov)]
            if new { samples.push(i); write_choices(&out.join(format!("sample{}", samples.len() % 4)), &g.choices); }
        }
        i += step;
    }
    let mut stats = format!("n {n}\nnontrivial {nontrivial}\nchoices {choices}\n");
    #[cfg(pbt_cov)]
    { labels.insert("kept: reached something new", guide.kept() as u64); labels.insert("comparisons whose operands were never equal", guide.open() as u64); samples.clear(); }
    for s in samples { stats.push_str(&format!("sample {s}\n")); }
    for (l, c) in &labels { stats.push_str(&format!("label {c} {l}\n")); }
    fs::write(out.join("stats"), stats).unwrap();
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes { hb.extend_from_slice(&h.to_le_bytes()); }
    fs::write(out.join("hashes"), hb).unwrap();
    code
}

/// Run a single case in this process: by index (random) or by choices; write what happened.
fn one(props: &[Prop], o: &Opts) -> i32 {
    install_hook();
    let (_, sub) = find(props, o);
    let out = PathBuf::from(o.get("out"));
    let mut g = if let Some(f) = o.opt("choices") {
        Src::new(Mode::Replay(read_choices(Path::new(f))))
    } else {
        // Earlier cases of the same worker may matter: `from` replays them too.
        let (seed, index) = (o.num("seed"), o.num("index"));
        if let Some(from) = o.opt("from") {
            let (mut i, step): (u64, u64) = (from.parse().unwrap(), o.num("step"));
            while i < index {
                let mut g = Src::random(case_seed(seed, sub.name, i));
                if let Err(e) = run_case(sub, &mut g) { fs::write(out.join("fail"), e).unwrap(); return EXIT_FAIL; }
                i += step;
            }
        }
        Src::random(case_seed(seed, sub.name, index))
    };
    let _ = fs::remove_file(out.join("fail"));
    g.trace = Some(fs::File::create(out.join("trace")).unwrap());
    g.logging = o.opt("log").is_some();
    if g.logging { g.log_file = Some(fs::File::create(out.join("log")).unwrap()); }
    failing_into(out.join("fail"), None);
    let r = run_case(sub, &mut g);
    match r {
        Ok(()) => EXIT_OK,
        Err(e) => { fs::write(out.join("fail"), e).unwrap(); EXIT_FAIL }
    }
}

/// Messages may quote memory that is not what it should be.
fn text(f: &Path) -> String { String::from_utf8_lossy(&fs::read(f).unwrap_or_default()).into_owned() }
fn read_choices(f: &Path) -> Vec<u64> {
    let mut b = Vec::new();
    fs::File::open(f).unwrap().read_to_end(&mut b).unwrap();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn write_choices(f: &Path, c: &[u64]) {
    let mut b = Vec::with_capacity(c.len() * 8);
    for x in c { b.extend_from_slice(&x.to_le_bytes()); }
    fs::write(f, b).unwrap();
}

fn describe(st: ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() { Some(s) => format!("process ended by signal {s}"), None => format!("process exited with {:?}", st.code()) }
}

#[derive(Debug)]
enum Outcome { Pass, Fail(String, Vec<u64>, String), Stuck }

struct Replayer<'a> { prop: &'a str, sub: &'a str, dir: PathBuf, exe: PathBuf }

impl<'a> Replayer<'a> {
    fn run(&self, slot: usize, extra: &[(&str, String)], log: bool) -> Outcome {
        let dir = self.dir.join(format!("replay{slot}"));
        fs::create_dir_all(&dir).unwrap();
        for f in ["fail", "trace", "log"] { let _ = fs::remove_file(dir.join(f)); }
        let mut c = Command::new(&self.exe);
        c.args(["one", "--prop", self.prop, "--sub", self.sub, "--out", dir.to_str().unwrap()]);
        for (k, v) in extra { c.arg(format!("--{k}")).arg(v); }
        if log { c.args(["--log", "1"]); }
        c.stdout(Stdio::null()).stderr(Stdio::null());
        let mut ch = c.spawn().unwrap();
        let t0 = Instant::now();
        let mut nap = Duration::from_micros(200);
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() { break st; }
            if t0.elapsed() > Duration::from_secs(20) { let _ = ch.kill(); let _ = ch.wait(); return Outcome::Stuck; }
            std::thread::sleep(nap);
            nap = (nap * 2).min(Duration::from_millis(5));
        };
        if st.code() == Some(EXIT_OK) { return Outcome::Pass; }
        if st.code() == Some(EXIT_BROKEN) { return Outcome::Stuck; }
        let choices = if dir.join("trace").exists() { read_choices(&dir.join("trace")) } else { Vec::new() };
        let log = text(&dir.join("log"));
        let msg = if st.code() == Some(EXIT_FAIL) { text(&dir.join("fail")) }
            else if is_resource(st) { return Outcome::Stuck } else { format!("crash: {}", describe(st)) };
        Outcome::Fail(msg, choices, log)
    }
    fn choices(&self, slot: usize, c: &[u64], log: bool) -> Outcome {
        let f = self.dir.join(format!("choices{slot}"));
        write_choices(&f, c);
        self.run(slot, &[("choices", f.to_str().unwrap().to_string())], log)
    }
}

/// SIGKILL (out of memory), or no answer, says nothing about the property.
fn is_resource(st: ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    st.signal() == Some(9) || st.code() == Some(EXIT_UNDECIDED)
}

/// Cases with gigabytes of address space only need memory for a few pages of it. Code that touches
/// more is slow or runs out of memory, but not for that wrong.
fn may_be_short(s: &Sub) -> bool { s.name.starts_with("huge") }

fn simpler(a: &[u64], b: &[u64]) -> bool { (a.len(), a) < (b.len(), b) }

/// Shrink by editing the choice sequence; every candidate runs in a process of its own.
fn shrink(rp: &Replayer, mut best: Vec<u64>, mut msg: String, budget: Duration) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    // Try candidates in parallel batches; adopt the first (in order) that still fails.
    fn batch(rp: &Replayer, threads: usize, cands: Vec<Vec<u64>>) -> Option<(Vec<u64>, String)> {
        let results: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = cands.chunks(cands.len().div_ceil(threads).max(1)).enumerate().map(|(k, ch)| {
                s.spawn(move || {
                    for c in ch {
                        if let Outcome::Fail(m, used, _) = rp.choices(k, c, false) {
                            let c = if used.is_empty() || !simpler(&used, c) { c.clone() } else { used };
                            return Some((c, m));
                        }
                    }
                    None
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        results.into_iter().flatten().next()
    }
    loop {
        let before = best.clone();
        // 1. Delete blocks.
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut at = best.len().saturating_sub(size) as isize;
            while at >= 0 && t0.elapsed() < budget {
                let mut cands = Vec::new();
                while at >= 0 && cands.len() < threads * 2 {
                    let a = at as usize;
                    if a + size <= best.len() {
                        let mut c = best[..a].to_vec();
                        c.extend_from_slice(&best[a + size..]);
                        if seen.insert(c.clone()) { cands.push(c); }
                    }
                    at -= (size as isize / 2).max(1);
                }
                if cands.is_empty() { continue; }
                if let Some((c, m)) = batch(rp, threads, cands) {
                    if simpler(&c, &best) { best = c; msg = m; at = at.min(best.len() as isize - size as isize); }
                }
            }
            size = if size > 16 { size / 2 } else { size - 1 };
        }
        // 2. Lower values; also with a deletion right after (a length and its element).
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let v = best[i];
            if v > 0 {
                let mut vals = vec![0, 1, v / 2, v - v / 4, v - 1];
                if v > 16 { vals.extend([2, 4, 8, 16, v / 4, v & !7]); }
                vals.sort();
                vals.dedup();
                let mut cands = Vec::new();
                for nv in vals {
                    if nv >= v { continue; }
                    let mut c = best.clone();
                    c[i] = nv;
                    if seen.insert(c.clone()) { cands.push(c.clone()); }
                    for d in 1..=2 {
                        if i + d < c.len() {
                            let mut c2 = c.clone();
                            c2.remove(i + d);
                            if nv + 1 == v && seen.insert(c2.clone()) { cands.push(c2); }
                        }
                    }
                }
                if !cands.is_empty() {
                    if let Some((c, m)) = batch(rp, threads, cands) {
                        if simpler(&c, &best) { best = c; msg = m; continue; }
                    }
                }
            }
            i += 1;
        }
        if before == best || t0.elapsed() >= budget { return (best, msg); }
    }
}

fn replay_file(props: &[Prop], o: &Opts) -> i32 {
    let s = fs::read_to_string(o.get("file")).expect("replay file");
    let field = |k: &str| -> String {
        let at = s.find(&format!("\"{k}\":")).unwrap_or_else(|| panic!("no {k} in replay file"));
        let rest = s[at + k.len() + 3..].trim_start();
        if let Some(r) = rest.strip_prefix('"') { r[..r.find('"').unwrap()].to_string() }
        else { rest[1..rest.find(']').unwrap()].to_string() }
    };
    let (prop, sub) = (field("property"), field("sub"));
    let choices: Vec<u64> = field("choices").split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let p = props.iter().find(|p| p.id == prop).expect("property");
    let sub = p.subs.iter().find(|x| shown(x.name) == sub).expect("sub");
    install_hook();
    let mut g = Src::new(Mode::Replay(choices));
    g.logging = true;
    let r = run_case(sub, &mut g);
    for l in &g.log { println!("{l}"); }
    match r { Ok(()) => { println!("the case passes"); 0 } Err(e) => { println!("FAILS: {e}"); 1 } }
}

struct Work { sub: usize, child: Child, dir: PathBuf, start: u64, last: (u64, Instant) }

fn run(props: &[Prop], o: &Opts) -> i32 {
    let t0 = Instant::now();
    let prop = props.iter().find(|p| p.id == o.get("prop")).expect("property");
    let seed = o.num("seed");
    let tier = o.get("tier");
    let thorough = tier == "thorough";
    let evidence = PathBuf::from(o.get("evidence"));
    let replays = PathBuf::from(o.get("replays"));
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("PBT_ONLY").ok();
    fs::create_dir_all(&replays).unwrap();
    let exe = std::env::current_exe().unwrap();
    // A failure of a guided case counts in the plain build.
    let confirm = o.opt("confirm").map_or(exe.clone(), PathBuf::from);
    let base = replays.join(format!(".work-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&base).unwrap();
    struct Cleanup(PathBuf);
    impl Drop for Cleanup { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }
    let _cleanup = Cleanup(base.clone());
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);

    let subs: Vec<&Sub> = prop.subs.iter().filter(|s| only.as_deref().map_or(true, |x| s.name == x))
        .filter(|s| !GUIDED || guided_cases(s, thorough) > 0).collect();
    let mut queue: Vec<(usize, u64, u64, u64)> = Vec::new();
    for (k, s) in subs.iter().enumerate() {
        let n = ((if GUIDED { guided_cases(s, thorough) } else if thorough { s.cases.1 } else { s.cases.0 }) as f64 * scale).ceil().max(1.0) as u64;
        let shards = (cpus as u64).min(n);
        for sh in 0..shards { queue.push((k, sh, shards, n)); }
    }
    queue.reverse();
    let mut running: Vec<Work> = Vec::new();
    let mut failures: Vec<(usize, u64, u64, u64, String)> = Vec::new(); // sub, first index, step, failing index, message
    let mut stats: Vec<(u64, u64, u64, BTreeMap<String, u64>, HashSet<u64>, Vec<u64>)> = subs.iter().map(|_| Default::default()).collect();
    let mut error: Option<String> = None;
    let mut steps: BTreeMap<usize, u64> = BTreeMap::new();
    loop {
        while running.len() < cpus && failures.is_empty() && error.is_none() {
            let Some((k, sh, shards, n)) = queue.pop() else { break };
            steps.insert(k, shards);
            let dir = base.join(format!("{}-{sh}", subs[k].name));
            fs::create_dir_all(&dir).unwrap();
            let child = Command::new(&exe).args(["worker", "--prop", prop.id, "--sub", subs[k].name,
                "--seed", &seed.to_string(), "--start", &sh.to_string(), "--step", &shards.to_string(), "--end", &n.to_string(),
                "--out", dir.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            running.push(Work { sub: k, child, dir, start: sh, last: (0, Instant::now()) });
        }
        if running.is_empty() { break; }
        std::thread::sleep(Duration::from_millis(5));
        let mut i = 0;
        while i < running.len() {
            let w = &mut running[i];
            let progress = || -> u64 {
                let b = fs::read(w.dir.join("progress")).unwrap_or_default();
                b.get(..8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))
            };
            match w.child.try_wait().unwrap() {
                None => {
                    let p = progress();
                    if p != w.last.0 { w.last = (p, Instant::now()); }
                    else if w.last.1.elapsed() > STALL {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        let e = format!("{}: case {} did not finish within {:?}", subs[w.sub].name, p.saturating_sub(1), STALL);
                        if may_be_short(subs[w.sub]) { *stats[w.sub].3.entry(format!("cut short: {e}")).or_default() += 1; } else { error = Some(e); }
                        running.swap_remove(i);
                        continue;
                    }
                    if !failures.is_empty() {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        running.swap_remove(i);
                        continue;
                    }
                    i += 1;
                }
                Some(st) => {
                    let k = w.sub;
                    if st.code() == Some(EXIT_OK) || st.code() == Some(EXIT_FAIL) {
                        let s = &mut stats[k];
                        for line in fs::read_to_string(w.dir.join("stats")).unwrap_or_default().lines() {
                            let mut it = line.splitn(3, ' ');
                            let (what, v) = (it.next().unwrap(), it.next().unwrap().parse::<u64>().unwrap());
                            match what {
                                "n" => s.0 += v, "nontrivial" => s.1 += v, "choices" => s.2 += v,
                                "sample" => s.5.push(v),
                                _ => *s.3.entry(it.next().unwrap().to_string()).or_default() += v,
                            }
                        }
                        let hb = fs::read(w.dir.join("hashes")).unwrap_or_default();
                        s.4.extend(hb.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                    }
                    if st.code() == Some(EXIT_FAIL) {
                        let f = text(&w.dir.join("fail"));
                        let Some((idx, msg)) = f.split_once('\n') else { error = Some(format!("{}: a worker failed without a message", subs[k].name)); running.swap_remove(i); continue };
                        failures.push((k, w.start, steps[&k], idx.parse().unwrap(), msg.to_string()));
                    } else if st.code() == Some(EXIT_BROKEN) {
                        error = Some(format!("{}: a worker stopped: {}", subs[k].name, text(&w.dir.join("broken"))));
                    } else if st.code() != Some(EXIT_OK) {
                        if is_resource(st) && may_be_short(subs[k]) { *stats[k].3.entry("cut short: a worker ran out of memory".into()).or_default() += 1; }
                        else if is_resource(st) || progress() == 0 { error = Some(format!("{}: worker {}", subs[k].name, describe(st))); }
                        else { failures.push((k, w.start, steps[&k], progress() - 1, format!("crash: {}", describe(st)))); }
                    }
                    running.swap_remove(i);
                }
            }
        }
    }

    // Confirm and shrink the first failure.
    failures.sort();
    let mut violation = None;
    for (k, first, step, idx, msg) in failures.iter().take(3) {
        let rp = Replayer { prop: prop.id, sub: subs[*k].name, dir: base.clone(), exe: confirm.clone() };
        let args = [("seed", seed.to_string()), ("index", idx.to_string())];
        let again = if GUIDED { rp.choices(0, &Mirror::read(&base.join(format!("{}-{first}/mirror", subs[*k].name))), false) } else { rp.run(0, &args, false) };
        match again {
            Outcome::Fail(m, choices, _) => {
                let (c, m) = if choices.is_empty() { (choices, m) } else {
                    shrink(&rp, choices, m, Duration::from_secs(if thorough { 120 } else { 40 })) };
                let (m, log) = match rp.choices(0, &c, true) { Outcome::Fail(m2, _, log) => (m2, log), _ => (m, String::new()) };
                let f = replays.join(format!("{}-{}-{}{idx}.json", prop.id, shown(subs[*k].name), if GUIDED { "guided-" } else { "" }));
                let cs = c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
                fs::write(&f, format!("{{\"property\": {}, \"sub\": {}, \"choices\": [{cs}],\n \"message\": {},\n \"case\": {},\n \"seed\": {seed}, \"index\": {idx}}}\n",
                    json_str(prop.id), json_str(&shown(subs[*k].name)), json_str(&m), json_list(&log.lines().map(|s| s.to_string()).collect::<Vec<_>>()))).unwrap();
                println!("{}: {m}", shown(subs[*k].name));
                for l in log.lines().take(60) { println!("    {l}"); }
                violation = Some(f);
                break;
            }
            Outcome::Stuck => { error = Some(format!("{}: case {idx} failed ({msg}) and then got stuck on replay", subs[*k].name)); }
            Outcome::Pass if GUIDED => error = Some(format!("{}: a guided case failed ({msg}) but not on replay", subs[*k].name)),
            Outcome::Pass => {
                // Depends on earlier cases of that worker: replay the whole shard up to here.
                let args = [("seed", seed.to_string()), ("index", idx.to_string()), ("from", first.to_string()), ("step", step.to_string())];
                match rp.run(0, &args, false) {
                    Outcome::Fail(m, _, _) => {
                        let f = replays.join(format!("{}-{}-{idx}-history.json", prop.id, shown(subs[*k].name)));
                        fs::write(&f, format!("{{\"property\": {}, \"sub\": {}, \"message\": {},\n \"replay\": \"one --prop {} --sub {} --seed {seed} --index {idx} --from {first} --step {step} --out DIR\"}}\n",
                            json_str(prop.id), json_str(&shown(subs[*k].name)), json_str(&m), prop.id, subs[*k].name)).unwrap();
                        println!("{}: {m} (after a history of cases)", subs[*k].name);
                        violation = Some(f);
                        break;
                    }
                    _ => error = Some(format!("{}: case {idx} failed once ({msg}) but not on replay", subs[*k].name)),
                }
            }
        }
    }

    // Evidence.
    let mut samples = Vec::new();
    let mut subs_json = Vec::new();
    let (mut total, mut distinct) = (0, 0);
    if let (Some(e), true) = (&error, GUIDED) { *stats[0].3.entry(format!("cut short: {e}")).or_default() += 1; }
    for (k, s) in subs.iter().enumerate() {
        let st = &mut stats[k];
        st.5.sort();
        total += st.0;
        distinct += st.4.len() as u64;
        let rp = Replayer { prop: prop.id, sub: s.name, dir: base.clone(), exe: exe.clone() };
        let mut got: Vec<String> = Vec::new();
        if violation.is_none() {
            // Of the first few non-trivial cases take two with a readable length.
            let mut logs: Vec<(usize, u64, String)> = Vec::new();
            for idx in st.5.iter().take(6) {
                let r = rp.run(0, &[("seed", seed.to_string()), ("index", idx.to_string())], true);
                if let Outcome::Pass = r {
                    let log = text(&base.join("replay0/log"));
                    logs.push(((log.len() as isize - 500).unsigned_abs(), *idx, log));
                }
            }
            for shard in 0..if GUIDED { 2 } else { 0 } {
                let f = base.join(format!("{}-{shard}/sample1", s.name));
                if !f.exists() { continue; }
                if let Outcome::Pass = rp.choices(0, &read_choices(&f), true) { logs.push((0, shard, text(&base.join("replay0/log")))); }
            }
            logs.sort();
            for (_, idx, log) in logs.into_iter().take(2) {
                got.push(format!("{{\"sub\": {}, \"index\": {idx}, \"case\": {}}}", json_str(&reported(s.name)),
                    json_list(&log.lines().take(40).map(|s| s.to_string()).collect::<Vec<_>>())));
            }
        }
        samples.extend(got);
        subs_json.push(format!("{{\"name\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"choices_drawn\": {}, \"rule\": {}, \"classes\": {{{}}}}}",
            json_str(&reported(s.name)), st.0, st.1, st.4.len(), st.2, json_str(s.rule),
            st.3.iter().map(|(l, c)| format!("{}: {c}", json_str(l))).collect::<Vec<_>>().join(", ")));
    }
    let rule = subs.iter().map(|s| format!("{}: {}", reported(s.name), s.rule)).collect::<Vec<_>>().join(" | ");
    if let Some(d) = evidence.parent() { let _ = fs::create_dir_all(d); }
    let mut f = fs::File::create(&evidence).unwrap();
    writeln!(f, "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {total}, \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"subchecks\": [\n   {}],\n  \"samples\": [\n   {}]}},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}}}",
        json_str(prop.id), json_str(tier), json_str(&rule), subs_json.join(",\n   "), samples.join(",\n   "),
        json_list(&prop.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        t0.elapsed().as_secs_f64(), violation.is_some() as u32).unwrap();
    if let Some(v) = violation {
        println!("VIOLATION property={} replay={}", prop.id, v.display());
        return 1;
    }
    if let (Some(e), true) = (&error, GUIDED) { println!("note: guided cases cut short: {e}"); error = None; }
    if let Some(e) = error { println!("ERROR property={} {e}", prop.id); return 3; }
    println!("OK property={}{} cases={total} distinct_nontrivial={distinct} wall={:.1}s", prop.id, if GUIDED { " guided:" } else { "" }, t0.elapsed().as_secs_f64());
    0
}
