//! Supervisor, workers, shrinking, replay and evidence.
use crate::lex::lex;
use crate::props::{self, Ctx, Input};
use crate::rng::hash_bytes;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
fn cpu() -> f64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.s as f64 + t.n as f64 / 1e9
}

static SEQ: AtomicU64 = AtomicU64::new(0);
const HANG: i32 = 77;
/// CPU seconds one input may use; ordinary inputs need milliseconds
const CPU_BUDGET: f64 = 20.0;

fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, cpu());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let s = SEQ.load(Ordering::Relaxed);
            if s != last {
                last = s;
                since = cpu();
            } else if cpu() - since > CPU_BUDGET {
                std::process::exit(HANG);
            }
        }
    });
}

// ---- replay files ----------------------------------------------------------------

fn write_replay(p: &Path, prop: &str, detail: &str, i: &Input) {
    let mut s = Vec::new();
    let d = detail.replace('\n', "\\n");
    write!(s, "property: {prop}\ndetail: {d}\nrule: {}\nmode: {}\na: {}\n", i.rule, i.mode, i.a.len()).unwrap();
    s.extend_from_slice(i.a.as_bytes());
    write!(s, "\nb: {}\n", i.b.len()).unwrap();
    s.extend_from_slice(i.b.as_bytes());
    s.push(b'\n');
    fs::write(p, s).unwrap();
}

fn read_replay(p: &Path) -> (String, String, Input) {
    let s = fs::read_to_string(p).expect("replay file");
    let mut rest = s.as_str();
    fn line<'a>(rest: &mut &'a str, k: &str) -> &'a str {
        let e = rest.find('\n').unwrap();
        let l = &rest[..e];
        *rest = &rest[e + 1..];
        l.strip_prefix(k).unwrap().trim_start_matches(": ")
    }
    let prop = line(&mut rest, "property").to_string();
    let detail = line(&mut rest, "detail").to_string();
    let rule = line(&mut rest, "rule").to_string();
    let mode = line(&mut rest, "mode").to_string();
    let n: usize = line(&mut rest, "a").parse().unwrap();
    let a = rest[..n].to_string();
    rest = &rest[n + 1..];
    let n: usize = line(&mut rest, "b").parse().unwrap();
    let b = rest[..n].to_string();
    (prop, detail, Input { rule, mode, a, b })
}

// ---- shrinking -------------------------------------------------------------------

fn shrink(ctx: &Ctx, prop: &str, inp: &Input) -> Input {
    if !inp.b.is_empty() || prop == "C16" || prop == "C17" {
        return inp.clone();
    }
    let mut best = inp.clone();
    let t0 = Instant::now();
    let mut tries = 0;
    loop {
        // pieces: white space and lexemes
        let t = best.a.clone();
        let lx = lex(&t);
        let mut cuts = vec![0];
        for l in &lx.all {
            cuts.push(l.start.byte);
            cuts.push(l.end.byte);
        }
        cuts.push(t.len());
        cuts.dedup();
        let n = cuts.len() - 1;
        let mut improved = false;
        let mut size = (n / 2).max(1);
        'outer: loop {
            let mut at = 0;
            while at < n {
                let e = (at + size).min(n);
                for repl in ["", " "] {
                    let mut c = t[..cuts[at]].to_string();
                    c.push_str(repl);
                    c.push_str(&t[cuts[e]..]);
                    if c.len() >= t.len() {
                        continue;
                    }
                    tries += 1;
                    SEQ.fetch_add(1, Ordering::Relaxed);
                    let i = Input { a: c, ..best.clone() };
                    if props::judge_input(ctx, prop, &i).bad.is_some() {
                        best = i;
                        improved = true;
                        break 'outer;
                    }
                }
                if tries > 6000 || t0.elapsed() > Duration::from_secs(15) {
                    return best;
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        if !improved {
            return best;
        }
    }
}

// ---- worker ----------------------------------------------------------------------

struct Tally {
    evals: u64,
    skips: BTreeMap<&'static str, u64>,
    stats: BTreeMap<&'static str, u64>,
    modes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    features: HashSet<u64>,
    samples: Vec<String>,
    cases: u64,
}

fn sample(i: &Input) -> String {
    let a: String = i.a.chars().take(300).collect();
    if i.b.is_empty() {
        format!("[{} {}] {a}", i.rule, i.mode)
    } else {
        let b: String = i.b.chars().take(300).collect();
        format!("[{} {}] {a} <=> {b}", i.rule, i.mode)
    }
}

fn worker(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, thorough, k, w, count, start, secs) = (n(1), n(2) == 1, n(3), n(4), n(5), n(6), n(7));
    let dir = PathBuf::from(&a[8]);
    let t0 = Instant::now();
    watchdog();
    let ctx = Ctx::new();
    let status = fs::File::create(dir.join(format!("status.{k}"))).unwrap();
    let stop = dir.join("stop");
    let mut t = Tally {
        evals: 0,
        skips: BTreeMap::new(),
        stats: BTreeMap::new(),
        modes: BTreeMap::new(),
        hashes: HashSet::new(),
        features: HashSet::new(),
        samples: Vec::new(),
        cases: 0,
    };
    let mut id = start;
    let mut found = false;
    let mut capped = false;
    while id < count && !found {
        let mut b = [0u8; 8];
        b.copy_from_slice(&id.to_le_bytes());
        status.write_at(&b, 0).unwrap();
        let mut todo: Vec<Input> = Vec::new();
        props::gen_inputs(&ctx, prop, seed, id, thorough, &mut |i| todo.push(i));
        t.cases += 1;
        for i in todo {
            SEQ.fetch_add(1, Ordering::Relaxed);
            let v = props::judge_input(&ctx, prop, &i);
            t.evals += 1;
            *t.modes.entry(i.mode.split(' ').next().unwrap_or("").to_string()).or_default() += 1;
            if let Some(s) = v.skip {
                *t.skips.entry(s).or_default() += 1;
                continue;
            }
            for (k, x) in &v.stats {
                *t.stats.entry(k).or_default() += x;
            }
            t.features.extend(v.features.iter());
            if v.nontrivial {
                t.hashes.insert(hash_bytes(format!("{}\0{}\0{}", i.rule, i.a, i.b).as_bytes()));
                if t.samples.len() < 2 && i.a.len() < 2000 {
                    t.samples.push(sample(&i));
                }
            }
            if let Some(d) = v.bad {
                let p = dir.join(format!("violation.{k}"));
                write_replay(&p, prop, &d, &i);
                let s = shrink(&ctx, prop, &i);
                let d2 = props::judge_input(&ctx, prop, &s).bad.unwrap_or(d);
                write_replay(&p, prop, &d2, &s);
                let _ = fs::write(&stop, "");
                found = true;
                break;
            }
        }
        id += w;
        if stop.exists() {
            break;
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            capped = id < count;
            break;
        }
    }
    let mut o = String::new();
    o.push_str(&format!("evals {}\ncases {}\ncapped {}\n", t.evals, t.cases, capped as u8));
    for (k, v) in &t.skips {
        o.push_str(&format!("skip\t{k}\t{v}\n"));
    }
    for (k, v) in &t.stats {
        o.push_str(&format!("stat\t{k}\t{v}\n"));
    }
    for (k, v) in &t.modes {
        o.push_str(&format!("mode\t{k}\t{v}\n"));
    }
    for s in &t.samples {
        o.push_str(&format!("sample\t{}\n", json(s)));
    }
    let bin = |h: &HashSet<u64>| h.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    fs::write(dir.join(format!("hashes.{k}.{start}")), bin(&t.hashes)).unwrap();
    fs::write(dir.join(format!("features.{k}.{start}")), bin(&t.features)).unwrap();
    fs::write(dir.join(format!("tally.{k}.{start}")), o).unwrap();
    0
}

/// One case alone, noting each input before it is judged.
fn case(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    watchdog();
    let ctx = Ctx::new();
    let mut todo = Vec::new();
    props::gen_inputs(&ctx, prop, n(1), n(3), n(2) == 1, &mut |i| todo.push(i));
    for i in todo {
        SEQ.fetch_add(1, Ordering::Relaxed);
        if a.len() > 4 {
            write_replay(Path::new(&a[4]), prop, "process died", &i);
        }
        let v = props::judge_input(&ctx, prop, &i);
        if let Some(d) = v.bad {
            println!("{d}");
            return 1;
        }
    }
    0
}

// ---- supervisor ------------------------------------------------------------------

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

/// cases per tier; one case is one or several inputs
fn budget(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C04" => 12_000,
        "C06" => 6_000,
        "C07" => 3_500,
        "C08" => 14_000,
        "C09" => 16_000,
        "C16" => 16_000,
        "C17" => 14_000,
        "C23" => 16_000,
        _ => 30_000,
    };
    q * if thorough { 400 } else { 12 }
}

fn rule_text(prop: &str) -> &'static str {
    match prop {
        "C04" => "text made by damaging random grammatical sources, token and character soups, truncations, long nestings; non-trivial: more than one visible character; distinct by content",
        "C06" | "C07" => "valid random program with damaged tokens or characters which the independent recogniser rejects; distinct by content",
        "C08" => "all strings of up to 4 critical characters, random lexeme soups with and without separators, whole sources; non-trivial: scans without lexical errors to at least one lexeme; distinct by content",
        "C16" => "a random source and a copy with other horizontal space, line ends and surplus blank lines; non-trivial: copies differ; distinct by content of the pair",
        "C17" => "2-5 random classes, elements, equations or statements formatted one by one and together, also nested in packages; distinct by content",
        "C23" => "every construct as entry point: all texts of up to two tokens, random derivations, damaged derivations; non-trivial: at least 5 tokens or rejected; distinct by content",
        _ => "random derivation of the Modelica grammar with random lexemes, line layout and comments, or a perturbed hand-written source; non-trivial: at least 5 tokens and the constructs this property is about are present; distinct by content",
    }
}

fn assumptions() -> Vec<&'static str> {
    vec![
        "the reference lexer, grammar and layout model in /verif/monitor state the intended behaviour",
        "statements hold for the executions observed, not for all inputs",
    ]
}

fn spawn(prop: &str, seed: u64, thorough: bool, k: usize, w: usize, count: u64, start: u64, secs: u64, dir: &Path) -> Child {
    let err = fs::File::create(dir.join(format!("stderr.{k}"))).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop])
        .args([seed, thorough as u64, k as u64, w as u64, count, start, secs].map(|x| x.to_string()))
        .arg(dir)
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap()
}

fn run(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let thorough = opt(a, "--tier") == Some("thorough");
    let seed: u64 = opt(a, "--seed").unwrap_or("1").parse().unwrap_or_else(|_| hash_bytes(opt(a, "--seed").unwrap().as_bytes()));
    let evid = PathBuf::from(opt(a, "--evidence").unwrap_or("evidence.json"));
    let outdir = PathBuf::from(opt(a, "--replays").unwrap_or("."));
    let scratch = PathBuf::from(opt(a, "--scratch").unwrap_or("/tmp")).join(format!("mon.{}.{}", prop, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let count: u64 = opt(a, "--cases").map(|c| c.parse().unwrap()).unwrap_or(budget(&prop, thorough));
    let secs: u64 = opt(a, "--secs").map(|c| c.parse().unwrap()).unwrap_or(if thorough { 600 } else { 75 });
    let w = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let t0 = Instant::now();
    let mut kids: Vec<(usize, u64, Child)> = (0..w).map(|k| (k, k as u64, spawn(&prop, seed, thorough, k, w, count, k as u64, secs, &scratch))).collect();
    let mut crashes: Vec<String> = Vec::new();
    let mut unrepeated = 0;
    let mut violation: Option<(PathBuf, String)> = None;
    while !kids.is_empty() {
        let (k, _, mut c) = kids.remove(0);
        let st = c.wait().unwrap();
        if st.success() {
            continue;
        }
        let mut b = [0u8; 8];
        let got = fs::File::open(scratch.join(format!("status.{k}"))).and_then(|mut f| f.read_exact(&mut b));
        if got.is_err() {
            eprintln!("worker {k} failed to start: {st}");
            return 2;
        }
        let id = u64::from_le_bytes(b);
        // did it die while shrinking a violation already recorded?
        if scratch.join(format!("violation.{k}")).exists() {
            continue;
        }
        let trace = scratch.join(format!("trace.{k}"));
        let _ = fs::remove_file(&trace);
        let o = Command::new(std::env::current_exe().unwrap())
            .args(["case", &prop])
            .args([seed.to_string(), (thorough as u64).to_string(), id.to_string()])
            .arg(&trace)
            .output()
            .unwrap();
        let how = |s: &std::process::ExitStatus| {
            if s.code() == Some(HANG) {
                format!("no result within {CPU_BUDGET} s of CPU time")
            } else if let Some(g) = s.signal() {
                format!("process killed by signal {g}")
            } else {
                format!("process ended with {s}")
            }
        };
        // SIGKILL may come from the environment: never a verdict
        let real = !o.status.success() && o.status.code() != Some(1) && o.status.signal() != Some(9);
        if real && !trace.exists() {
            eprintln!("case {id} cannot be made: {}", String::from_utf8_lossy(&o.stderr));
            return 2;
        }
        if real {
            let e = String::from_utf8_lossy(&o.stderr);
            let d = format!("{}: {}", how(&o.status), e.trim().chars().take(200).collect::<String>());
            crashes.push(d.clone());
            if violation.is_none() {
                let (_, _, i) = read_replay(&trace);
                write_replay(&trace, &prop, &d, &i);
                violation = Some((trace, d));
                let _ = fs::write(scratch.join("stop"), "");
            }
        } else {
            unrepeated += 1;
            if unrepeated > 20 {
                eprintln!("workers keep dying: {}", how(&st));
                return 2;
            }
            let left = secs.saturating_sub(t0.elapsed().as_secs());
            if id + (w as u64) < count && left > 0 {
                let s = id + w as u64;
                kids.push((k, s, spawn(&prop, seed, thorough, k, w, count, s, left, &scratch)));
            }
        }
    }
    // gather
    let (mut evals, mut cases, mut capped) = (0u64, 0u64, false);
    let mut maps: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut features: HashSet<u64> = HashSet::new();
    let mut bad: Vec<(u64, PathBuf)> = Vec::new();
    for e in fs::read_dir(&scratch).unwrap() {
        let p = e.unwrap().path();
        let name = p.file_name().unwrap().to_string_lossy().into_owned();
        if name.starts_with("tally.") {
            for l in fs::read_to_string(&p).unwrap().lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if f.len() == 3 {
                    *maps.entry(f[0].to_string()).or_default().entry(f[1].to_string()).or_default() += f[2].parse::<u64>().unwrap();
                } else if f[0] == "sample" {
                    samples.push(f[1].to_string());
                } else {
                    let g: Vec<&str> = l.split(' ').collect();
                    let v: u64 = g[1].parse().unwrap();
                    match g[0] {
                        "evals" => evals += v,
                        "cases" => cases += v,
                        "capped" => capped |= v == 1,
                        _ => (),
                    }
                }
            }
        } else if name.starts_with("hashes.") || name.starts_with("features.") {
            let h = if name.starts_with("hashes.") { &mut hashes } else { &mut features };
            for c in fs::read(&p).unwrap().chunks_exact(8) {
                h.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else if name.starts_with("violation.") {
            bad.push((fs::metadata(&p).unwrap().len(), p));
        }
    }
    bad.sort();
    if let Some((_, p)) = bad.first() {
        let d = read_replay(p).1;
        violation = Some((p.clone(), d));
    }
    samples.truncate(4);
    let obj = |m: Option<&BTreeMap<String, u64>>| {
        let v: Vec<String> = m.map(|m| m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect()).unwrap_or_default();
        format!("{{{}}}", v.join(", "))
    };
    let skipped: u64 = maps.get("skip").map(|m| m.values().sum()).unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    let e = format!(
        "{{\n \"property\": {p},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"not_judged\": {skips},\n  \"input_kinds\": {modes},\n  \"observed\": {stats},\n  \"distinct_situations\": {feat},\n  \"workers\": {w},\n  \"stopped_by_time\": {capped},\n  \"process_deaths\": {deaths}\n }},\n \"assumptions\": [{asm}],\n \"wall_s\": {wall:.2},\n \"violations\": {viol}\n}}\n",
        p = json(&prop),
        tier = json(if thorough { "thorough" } else { "quick" }),
        dn = hashes.len(),
        rule = json(rule_text(&prop)),
        samples = samples.join(", "),
        skips = obj(maps.get("skip")),
        modes = obj(maps.get("mode")),
        stats = obj(maps.get("stat")),
        feat = features.len(),
        deaths = crashes.len() + unrepeated,
        asm = assumptions().iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        viol = violation.is_some() as u8,
    );
    if let Some(d) = evid.parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(&evid, e).unwrap();
    println!("{prop}: {evals} executions ({cases} cases), {} judged, {} distinct non-trivial, {} situations, {wall:.1} s", evals - skipped, hashes.len(), features.len());
    let code = if let Some((p, d)) = violation {
        let _ = fs::create_dir_all(&outdir);
        let dst = outdir.join(format!("{prop}-{seed}.replay"));
        fs::copy(&p, &dst).unwrap();
        println!("{d}");
        println!("VIOLATION property={prop} replay={}", dst.display());
        1
    } else if hashes.len() < 50 {
        println!("too little observed to say anything");
        2
    } else {
        0
    };
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn replay(a: &[String]) -> i32 {
    watchdog();
    let (prop, detail, i) = read_replay(Path::new(&a[0]));
    println!("recorded: {detail}");
    println!("--- {} {}\n{}\n---", i.rule, i.mode, i.a);
    let ctx = Ctx::new();
    if i.b.is_empty() || prop == "C16" {
        let k = crate::target::kind_of(&i.rule);
        match crate::target::format_at("file.mo", &i.a, k) {
            crate::target::Out::Text(t) => println!("{t}\n---"),
            o => println!("{}\n---", o.describe()),
        }
    }
    let v = props::judge_input(&ctx, &prop, &i);
    match v.bad {
        Some(d) => {
            println!("{d}");
            println!("VIOLATION property={prop} replay={}", a[0]);
            1
        }
        None => {
            println!("holds here ({:?})", v.skip);
            0
        }
    }
}

/// `fmt FILE...`: the library's result for each file beside it, in
/// FILE.want (text) or FILE.errors (diagnostics).
fn fmt(a: &[String]) -> i32 {
    for p in a {
        let s = match fs::read_to_string(p) {
            Ok(s) => s,
            Err(_) => continue,
        };
        match crate::target::format(&s) {
            crate::target::Out::Text(t) => fs::write(format!("{p}.want"), t).unwrap(),
            crate::target::Out::Errors(e) => fs::write(format!("{p}.errors"), e.join("\n")).unwrap(),
            crate::target::Out::Panic(e) => fs::write(format!("{p}.panic"), e).unwrap(),
        }
    }
    0
}

/// `sources SEED N DIR`: random valid sources 0.mo ... and damaged ones.
fn sources(a: &[String]) -> i32 {
    let ctx = Ctx::new();
    let (seed, n) = (a[0].parse::<u64>().unwrap(), a[1].parse::<u64>().unwrap());
    let mut k = 0;
    let mut id = 0;
    while k < n {
        props::gen_inputs(&ctx, "C01", seed, id, false, &mut |i| {
            if k < n && i.a.len() < 6000 {
                fs::write(Path::new(&a[2]).join(format!("{k}.mo")), &i.a).unwrap();
                k += 1;
            }
        });
        id += 1;
    }
    0
}

/// `cost FILE...`: bytes allocated and highest memory use of processing each
fn cost(a: &[String]) -> i32 {
    for p in a {
        let s = fs::read_to_string(p).unwrap();
        let (t0, l0) = (crate::alloc::total(), crate::alloc::live());
        crate::alloc::reset_peak();
        let o = crate::target::format(&s);
        let (t, k) = (crate::alloc::total() - t0, crate::alloc::peak().saturating_sub(l0));
        let how = match o {
            crate::target::Out::Text(_) => "text",
            crate::target::Out::Errors(_) => "errors",
            crate::target::Out::Panic(_) => "panic",
        };
        println!("{how} {t} {k}");
    }
    0
}

/// `show FILE`: expectation of the layout model
fn show(a: &[String]) -> i32 {
    let ctx = Ctx::new();
    let s = fs::read_to_string(&a[0]).unwrap();
    let rule = a.get(1).map(|x| x.as_str()).unwrap_or("stored_definition");
    match crate::judge::reference(&ctx.gs.rec, &s, rule) {
        crate::judge::Valid::Yes(r) => println!("{}", crate::layout::render(&s, &r.lx.all, &r.items)),
        crate::judge::Valid::LexError => println!("lexical error"),
        crate::judge::Valid::SyntaxError(k) => println!("syntax error at token {k}"),
    }
    0
}

pub fn main(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("run") => run(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("case") => case(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("fmt") => fmt(&a[1..]),
        Some("sources") => sources(&a[1..]),
        Some("show") => show(&a[1..]),
        Some("cost") => cost(&a[1..]),
        _ => {
            eprintln!("usage: monitor run|replay|fmt|sources|show ...");
            2
        }
    }
}
