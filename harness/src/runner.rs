//! Runs a property: shards its cases over worker processes, attributes deaths
//! of workers to cases, shrinks and reports the first failure, writes evidence.

use crate::engine::*;
use crate::props;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const STACK: usize = 8 << 20;
/// A case that has not come back after this much wall-clock time is taken to
/// its own process, where it is given HANG_CPU seconds of processor time.
const STALL: Duration = Duration::from_secs(40);
const HANG_CPU: u64 = 60;
/// Seconds after which the quick tier stops generating, whatever is left.
const QUICK_LIMIT: u64 = 300;

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{feff}' || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn find(id: &str) -> Option<&'static Prop> {
    props::ALL.iter().find(|p| p.id == id)
}

fn in_big_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|_| {
            eprintln!("harness: the case thread panicked outside a case");
            std::process::exit(3)
        })
    })
}

fn ctx(scratch: &Path, thorough: bool) -> Ctx {
    crate::sut::table_path(&[scratch]);
    Ctx { scratch: scratch.to_path_buf(), tier_thorough: thorough, ..Default::default() }
}

fn parse_choices(s: &str) -> Vec<u32> {
    s.split_whitespace().filter_map(|t| t.parse().ok()).collect()
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    install_panic_hook();
    match a.as_slice() {
        ["list"] => {
            for p in props::ALL {
                println!("{} quick={} thorough={} explicit={}", p.id, p.quick, p.thorough, p.explicit.len());
            }
            0
        }
        ["check", id, rest @ ..] => {
            let Some(p) = find(id) else {
                eprintln!("no such property {id}");
                return 2;
            };
            check(p, rest)
        }
        ["worker", id, seed, from, step, cases, dir, shard, thorough] => {
            worker(find(id).unwrap(), seed.parse().unwrap(), from.parse().unwrap(), step.parse().unwrap(), cases.parse().unwrap(), Path::new(dir), shard.parse().unwrap(), *thorough == "1")
        }
        ["one", id, seed, index, dir, thorough] => one(find(id).unwrap(), seed.parse().unwrap(), index.parse().unwrap(), Path::new(dir), *thorough == "1"),
        ["try", id, file, dir] => {
            let choices = parse_choices(&std::fs::read_to_string(file).unwrap());
            try_choices(find(id).unwrap(), &choices, Path::new(dir))
        }
        ["explicit", id, name, dir] => explicit(find(id).unwrap(), name, Path::new(dir)),
        ["shrink", id, file, out, dir] => {
            let choices = parse_choices(&std::fs::read_to_string(file).unwrap());
            shrink_in_process(find(id).unwrap(), choices, Path::new(out), Path::new(dir))
        }
        ["replay", file] => replay(Path::new(file)),
        ["answer", file] => props::total::answer(Path::new(file)),
        _ => {
            eprintln!("usage: pbt list | check ID [--tier quick|thorough] [--seed N] [--cases N] [--workers N] | replay FILE");
            2
        }
    }
}

// -------------------------------------------------------------------- worker

fn worker(p: &'static Prop, seed: u64, from: u64, step: u64, cases: u64, dir: &Path, shard: u64, thorough: bool) -> i32 {
    let status = std::fs::File::create(dir.join(format!("w{shard}.status"))).unwrap();
    let scratch = dir.join(format!("s{shard}"));
    std::fs::create_dir_all(&scratch).unwrap();
    let known = load_known(p.id);
    let mut c = ctx(&scratch, thorough);
    let (fail, knowns) = in_big_thread(|| {
        let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
        let mut i = from;
        let limit = if thorough { 6 * 3600 } else { QUICK_LIMIT };
        let started = Instant::now();
        while i < cases && started.elapsed().as_secs() < limit {
            status.write_all_at(&i.to_le_bytes(), 0).unwrap();
            if i < 200 {
                begin_sampling(&mut c);
            }
            let mut src = Src::random(case_seed(seed, p.id, i));
            if let Err(f) = run_case(p, &mut src, &mut c) {
                if !f.signature.is_empty() && known.contains(&f.signature) {
                    *knowns.entry(f.signature).or_default() += 1;
                } else {
                    return (Some((i, src.record, f)), knowns);
                }
            }
            i += step;
        }
        (None, knowns)
    });
    let mut out = String::new();
    out += &format!("evaluations {}\n", c.evaluations);
    for (l, n) in &c.labels {
        out += &format!("label {n} {l}\n");
    }
    for s in &c.samples {
        out += &format!("sample {}\n", json_str(s));
    }
    for (s, n) in &knowns {
        out += &format!("known {n} {s}\n");
    }
    let mut h = Vec::with_capacity(c.hashes.len() * 8);
    for x in &c.hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    // appended to, because a shard may be run in several pieces
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("w{shard}.hashes"))).unwrap();
    f.write_all(&h).unwrap();
    if let Some((i, rec, f)) = &fail {
        std::fs::write(dir.join(format!("w{shard}.choices")), rec.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        std::fs::write(dir.join(format!("w{shard}.message")), &f.message).unwrap();
        out += &format!("fail {i}\n");
    }
    let mut f2 = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("w{shard}.out"))).unwrap();
    f2.write_all(out.as_bytes()).unwrap();
    if fail.is_some() { 1 } else { 0 }
}

fn one(p: &'static Prop, seed: u64, index: u64, dir: &Path, thorough: bool) -> i32 {
    *LIVE_RECORD.lock().unwrap() = Some(std::fs::File::create(dir.join("one.choices")).unwrap());
    *LIVE_NOTE.lock().unwrap() = Some(dir.join("one.note"));
    let mut c = ctx(dir, thorough);
    let r = in_big_thread(|| {
        let mut src = Src::random(case_seed(seed, p.id, index));
        run_case(p, &mut src, &mut c)
    });
    finish(r, dir)
}

fn finish(r: Outcome, dir: &Path) -> i32 {
    match r {
        Ok(()) => 0,
        Err(f) => {
            let _ = std::fs::write(dir.join("one.message"), &f.message);
            let _ = std::fs::write(dir.join("one.signature"), &f.signature);
            1
        }
    }
}

fn try_choices(p: &'static Prop, choices: &[u32], dir: &Path) -> i32 {
    *LIVE_NOTE.lock().unwrap() = Some(dir.join("one.note"));
    let mut c = ctx(dir, false);
    let r = in_big_thread(|| {
        let mut src = Src::replay(choices);
        run_case(p, &mut src, &mut c)
    });
    finish(r, dir)
}

fn explicit(p: &'static Prop, name: &str, dir: &Path) -> i32 {
    *LIVE_NOTE.lock().unwrap() = Some(dir.join("one.note"));
    let Some((_, f)) = p.explicit.iter().find(|(n, _)| *n == name) else { return 2 };
    let mut c = ctx(dir, false);
    let r = in_big_thread(|| run_explicit(*f, &mut c));
    finish(r, dir)
}

fn shrink_in_process(p: &'static Prop, choices: Vec<u32>, out: &Path, dir: &Path) -> i32 {
    let deadline = Instant::now() + Duration::from_secs(60);
    in_big_thread(|| {
        let known = load_known(p.id);
        let best = shrink(
            choices,
            |cand| {
                if Instant::now() > deadline {
                    return None;
                }
                let mut c = ctx(dir, false);
                let mut src = Src::replay(cand);
                match run_case(p, &mut src, &mut c) {
                    Err(f) if f.signature.is_empty() || !known.contains(&f.signature) => {
                        // progress survives the death of this process
                        Some(src.record)
                    }
                    _ => None,
                }
            },
            6000,
        );
        let mut c = ctx(dir, false);
        let mut src = Src::replay(&best);
        if let Err(f) = run_case(p, &mut src, &mut c) {
            std::fs::write(out, best.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
            std::fs::write(out.with_extension("message"), &f.message).unwrap();
            0
        } else {
            1
        }
    })
}

// -------------------------------------------------------------------- parent

#[derive(Debug, Clone, PartialEq)]
enum Fate {
    Pass,
    Fail,
    Death(String),
    Error(String),
}

fn isolated(args: &[&str], cpu: u64) -> Fate {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new("sh");
    cmd.arg("-c").arg(format!("ulimit -c 0; ulimit -t {cpu}; exec \"$0\" \"$@\"")).arg(exe).args(args);
    let st = match cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status() {
        Ok(s) => s,
        Err(e) => return Fate::Error(e.to_string()),
    };
    match (st.code(), st.signal()) {
        (Some(0), _) => Fate::Pass,
        (Some(1), _) => Fate::Fail,
        (Some(EXIT_ALLOC), _) => Fate::Death("allocated out of all proportion to its input (more than 1 GiB at once or 4 GiB in total)".into()),
        (Some(n), _) => Fate::Error(format!("exit status {n}")),
        // 9 when the hard limit is reached
        (_, Some(24)) | (_, Some(9)) => Fate::Death(format!("did not come back within {cpu} s of processor time")),
        (_, Some(n)) => Fate::Death(format!("killed its process with signal {n} (abort or stack overflow)")),
        _ => Fate::Error("unknown".into()),
    }
}

fn load_known(id: &str) -> HashSet<String> {
    let mut r = HashSet::new();
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut property = "";
                let mut sig = "";
                for t in rest.split_whitespace() {
                    if let Some(v) = t.strip_prefix("property=") {
                        property = v;
                    }
                    if let Some(v) = t.strip_prefix("case=") {
                        sig = v;
                    }
                }
                if property == id && !sig.is_empty() {
                    r.insert(sig.to_string());
                }
            }
        }
    }
    r
}

fn describe_known(id: &str, sig: &str) -> String {
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let a = format!("property={id} ");
    let b = format!("case={sig} ");
    s.lines()
        .find(|l| l.starts_with("finding: ") && l.contains(&a) && l.contains(&b))
        .map(|l| l.split_once(&b).unwrap().1.to_string())
        .unwrap_or_default()
}

struct Violation {
    what: String,
    choices: Option<Vec<u32>>,
    explicit: Option<String>,
    index: Option<u64>,
}

fn check(p: &'static Prop, rest: &[&str]) -> i32 {
    let started = Instant::now();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut workers: u64 = 8;
    let mut cases: Option<u64> = None;
    let mut it = rest.iter();
    while let Some(o) = it.next() {
        let v = it.next().map(|s| s.to_string()).unwrap_or_default();
        match *o {
            "--tier" => tier = v,
            "--seed" => seed = v.parse().unwrap(),
            "--workers" => workers = v.parse().unwrap(),
            "--cases" => cases = Some(v.parse().unwrap()),
            _ => {
                eprintln!("unknown option {o}");
                return 2;
            }
        }
    }
    let thorough = tier == "thorough";
    let cases = cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let dir = scratch(&format!("louis-pbt-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = check_in(p, seed, thorough, workers, cases, &dir, started);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// A scratch folder: in memory where that is possible, because the cases write many small files.
fn scratch(name: &str) -> std::path::PathBuf {
    let dir = Path::new("/dev/shm").join(name);
    if std::fs::create_dir(&dir).is_ok() && std::fs::write(dir.join("x"), "x").is_ok() && std::fs::remove_file(dir.join("x")).is_ok() {
        return dir;
    }
    std::env::temp_dir().join(name)
}

fn check_in(p: &'static Prop, seed: u64, thorough: bool, workers: u64, cases: u64, dir: &Path, started: Instant) -> i32 {
    let known = load_known(p.id);
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<Violation> = vec![];
    let dirs = dir.to_string_lossy().to_string();
    let t = if thorough { "1" } else { "0" };
    let seeds = seed.to_string();

    // fixed cases first
    for (name, _) in p.explicit {
        let _ = std::fs::remove_file(dir.join("one.message"));
        match isolated(&["explicit", p.id, name, &dirs], HANG_CPU) {
            Fate::Pass => {
                if known.contains(*name) {
                    println!("note: the listed finding {name} no longer fails");
                }
            }
            Fate::Error(e) => {
                eprintln!("error: fixed case {name}: {e}");
                return 3;
            }
            fate => {
                if known.contains(*name) {
                    *known_seen.entry(name.to_string()).or_default() += 1;
                    continue;
                }
                let what = match fate {
                    Fate::Death(d) => d + "\n" + &std::fs::read_to_string(dir.join("one.note")).unwrap_or_default(),
                    _ => std::fs::read_to_string(dir.join("one.message")).unwrap_or_default(),
                };
                violations.push(Violation { what, choices: None, explicit: Some(name.to_string()), index: None });
            }
        }
    }

    // generated cases
    struct W {
        child: Option<std::process::Child>,
        last: Option<u64>,
        since: Instant,
        failed: Option<u64>,
    }
    let exe = std::env::current_exe().unwrap();
    let spawn = |shard: u64, from: u64| {
        Command::new(&exe)
            .args(["worker", p.id, &seeds, &from.to_string(), &workers.to_string(), &cases.to_string(), &dirs, &shard.to_string(), t])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap()
    };
    let status_of = |shard: u64| -> Option<u64> {
        let b = std::fs::read(dir.join(format!("w{shard}.status"))).ok()?;
        Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
    };
    let mut ws: Vec<W> = (0..workers).map(|s| W { child: Some(spawn(s, s)), last: None, since: Instant::now(), failed: None }).collect();
    // suspicious cases: (index, shard)
    let mut restarts = 0;
    loop {
        let mut alive = false;
        for s in 0..workers as usize {
            let w = &mut ws[s];
            let Some(child) = w.child.as_mut() else { continue };
            let mut suspicious = None;
            let mut broken = false;
            let mut gone = false;
            match child.try_wait().unwrap() {
                Some(st) => {
                    gone = true;
                    match st.code() {
                        Some(0) => {}
                        Some(1) => w.failed = status_of(s as u64),
                        Some(n) if n != EXIT_ALLOC && n != 101 => {
                            eprintln!("error: worker {s} ended with status {n}");
                            broken = true;
                        }
                        _ => suspicious = Some("died"),
                    }
                }
                None => {
                    alive = true;
                    let now = status_of(s as u64);
                    if now != w.last {
                        w.last = now;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > STALL && now.is_some() {
                        let _ = child.kill();
                        let _ = child.wait();
                        gone = true;
                        suspicious = Some("stalled");
                    }
                }
            }
            if gone {
                w.child = None;
            }
            if broken {
                kill_all(ws.iter_mut().filter_map(|w| w.child.as_mut()));
                return 3;
            }
            if let Some(how) = suspicious {
                let Some(index) = status_of(s as u64) else {
                    eprintln!("error: worker {s} {how} before its first case");
                    kill_all(ws.iter_mut().filter_map(|w| w.child.as_mut()));
                    return 3;
                };
                let _ = std::fs::remove_file(dir.join("one.message"));
                let fate = isolated(&["one", p.id, &seeds, &index.to_string(), &dirs, t], HANG_CPU);
                match fate {
                    Fate::Death(d) => {
                        let note = std::fs::read_to_string(dir.join("one.note")).unwrap_or_default();
                        let choices = parse_choices(&std::fs::read_to_string(dir.join("one.choices")).unwrap_or_default());
                        let (choices, note) = if d.starts_with("did not come back") {
                            (choices, note)
                        } else {
                            shrink_isolated(p, choices, note, dir)
                        };
                        violations.push(Violation { what: format!("{d}\n{note}"), choices: Some(choices), explicit: None, index: Some(index) });
                        // one is enough: the other workers would only run into the same
                        kill_all(ws.iter_mut().filter_map(|w| w.child.as_mut()));
                        ws.iter_mut().for_each(|w| w.child = None);
                        break;
                    }
                    Fate::Fail => {
                        ws[s].failed = Some(index);
                        let c = std::fs::read_to_string(dir.join("one.choices")).unwrap_or_default();
                        std::fs::write(dir.join(format!("w{s}.choices")), c).unwrap();
                        let _ = std::fs::copy(dir.join("one.message"), dir.join(format!("w{s}.message")));
                    }
                    Fate::Pass => {
                        // not reproducible by itself: slow machine, or killed from outside
                        restarts += 1;
                        if restarts > 5 {
                            eprintln!("error: worker {s} {how} at case {index}, which passes by itself");
                            kill_all(ws.iter_mut().filter_map(|w| w.child.as_mut()));
                            return 3;
                        }
                        ws[s].child = Some(spawn(s as u64, index));
                        ws[s].since = Instant::now();
                        ws[s].last = None;
                        alive = true;
                    }
                    Fate::Error(e) => {
                        eprintln!("error: worker {s} {how} at case {index}: {e}");
                        kill_all(ws.iter_mut().filter_map(|w| w.child.as_mut()));
                        return 3;
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }

    // the first failing case is the one to report
    if let Some((index, s)) = ws.iter().enumerate().filter_map(|(s, w)| w.failed.map(|i| (i, s))).min() {
        let choices = dir.join(format!("w{s}.choices"));
        let out = dir.join("shrunk.choices");
        let scratch = dir.join("shrink");
        std::fs::create_dir_all(&scratch).unwrap();
        let fate = isolated(&["shrink", p.id, &choices.to_string_lossy(), &out.to_string_lossy(), &scratch.to_string_lossy()], 120);
        let (c, m) = if fate == Fate::Pass && out.exists() {
            (out.clone(), out.with_extension("message"))
        } else {
            (choices, dir.join(format!("w{s}.message")))
        };
        violations.push(Violation {
            what: std::fs::read_to_string(m).unwrap_or_default(),
            choices: Some(parse_choices(&std::fs::read_to_string(c).unwrap_or_default())),
            explicit: None,
            index: Some(index),
        });
    }

    // gather
    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for s in 0..workers {
        let out = std::fs::read_to_string(dir.join(format!("w{s}.out"))).unwrap_or_default();
        for l in out.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evaluations" => evaluations += v.parse::<u64>().unwrap_or(0),
                "label" => {
                    let (n, l) = v.split_once(' ').unwrap_or((v, ""));
                    *labels.entry(l.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
                "sample" => {
                    if samples.len() < 6 {
                        samples.push(v.to_string())
                    }
                }
                "known" => {
                    let (n, l) = v.split_once(' ').unwrap_or((v, ""));
                    *known_seen.entry(l.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{s}.hashes"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    for (sig, n) in &known_seen {
        println!("KNOWN-FINDING: property={} case={} {} (seen {n} times)", p.id, sig, describe_known(p.id, sig));
    }

    // replay files
    let mut code = 0;
    for v in &violations {
        let replays = root().join("replays");
        let _ = std::fs::create_dir_all(&replays);
        let key = hash(&(&v.choices, &v.explicit));
        let path = replays.join(format!("{}-{key:016x}.json", p.id));
        let mut j = format!("{{\n \"property\": {},\n \"seed\": {seed},\n", json_str(p.id));
        if let Some(i) = v.index {
            j += &format!(" \"case\": {i},\n");
        }
        if let Some(e) = &v.explicit {
            j += &format!(" \"explicit\": {},\n", json_str(e));
        }
        if let Some(c) = &v.choices {
            j += &format!(" \"choices\": [{}],\n", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        }
        j += &format!(" \"what\": {}\n}}\n", json_str(&v.what));
        std::fs::write(&path, j).unwrap();
        println!("{}", v.what);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    }

    // evidence
    let wall = started.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    e += &format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n", json_str(p.id), if thorough { "thorough" } else { "quick" });
    e += &format!(" \"coverage\": {{\n  \"evaluations\": {evaluations},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", hashes.len(), json_str(p.rule));
    e += &format!("  \"cases\": {cases},\n  \"fixed_cases\": {},\n  \"workers\": {workers},\n", p.explicit.len());
    e += "  \"labels\": {";
    e += &labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    e += "},\n  \"samples\": [\n   ";
    e += &samples.join(",\n   ");
    e += "\n  ]\n },\n";
    e += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", violations.len());
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", p.id)), e).unwrap();
    println!("{}: {} cases, {evaluations} evaluations, {} distinct non-trivial, {:.1} s{}", p.id, cases, hashes.len(), wall, if code == 0 { "" } else { ", VIOLATED" });
    if std::env::var_os("PBT_LABELS").is_some() {
        for (k, v) in &labels {
            println!("  {v:>9}  {k}");
        }
    }
    code
}

fn kill_all<'a>(cs: impl Iterator<Item = &'a mut std::process::Child>) {
    for c in cs {
        let _ = c.kill();
        let _ = c.wait();
    }
}

fn shrink_isolated(p: &'static Prop, choices: Vec<u32>, note: String, dir: &Path) -> (Vec<u32>, String) {
    let file = dir.join("try.choices");
    let sub = dir.join("try");
    std::fs::create_dir_all(&sub).unwrap();
    let subs = sub.to_string_lossy().to_string();
    let files = file.to_string_lossy().to_string();
    let mut note = note;
    let deadline = Instant::now() + Duration::from_secs(60);
    let best = shrink(
        choices,
        |cand| {
            if Instant::now() > deadline {
                return None;
            }
            std::fs::write(&file, cand.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
            match isolated(&["try", p.id, &files, &subs], 20) {
                Fate::Death(_) => {
                    note = std::fs::read_to_string(sub.join("one.note")).unwrap_or_default();
                    Some(cand.to_vec())
                }
                _ => None,
            }
        },
        1500,
    );
    (best, note)
}

fn replay(file: &Path) -> i32 {
    let s = std::fs::read_to_string(file).unwrap();
    let field = |name: &str| -> Option<&str> {
        let k = format!("\"{name}\": ");
        let i = s.find(&k)? + k.len();
        Some(&s[i..])
    };
    let quoted = |t: &str| t[1..].split('"').next().unwrap_or("").to_string();
    let id = quoted(field("property").unwrap());
    let p = find(&id).unwrap();
    let dir = scratch(&format!("louis-pbt-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let dirs = dir.to_string_lossy().to_string();
    let fate = if let Some(e) = field("explicit") {
        isolated(&["explicit", &id, &quoted(e), &dirs], HANG_CPU)
    } else {
        let c = field("choices").unwrap();
        let c = c[1..].split(']').next().unwrap().replace(',', " ");
        let f = dir.join("c");
        std::fs::write(&f, c).unwrap();
        isolated(&["try", p.id, &f.to_string_lossy(), &dirs], HANG_CPU)
    };
    let code = match &fate {
        Fate::Pass => {
            println!("{id}: passes");
            0
        }
        Fate::Fail => {
            println!("{}", std::fs::read_to_string(dir.join("one.message")).unwrap_or_default());
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        Fate::Death(d) => {
            println!("{d}\n{}", std::fs::read_to_string(dir.join("one.note")).unwrap_or_default());
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        Fate::Error(e) => {
            println!("error: {e}");
            3
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
