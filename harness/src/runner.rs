//! Runs a property: shards cases over worker processes, attributes crashes,
//! merges evidence and writes replay files.

use crate::engine::*;
use crate::props;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::os::unix::process::ExitStatusExt as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn scale() -> f64 {
    std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2)
        }
    }
}
fn case_count(s: &Sub) -> u64 {
    let n = if thorough() { s.thorough } else { s.quick };
    ((n as f64 * scale()) as u64).max(1)
}
fn case_seed(id: &str, sub: &str, idx: u64) -> u64 {
    let tier = if thorough() { "T" } else { "Q" };
    fnv(format!("{id}/{sub}/{tier}/{}/{idx}", seed()).as_bytes())
}
fn source_for(id: &str, sub: &str, idx: u64) -> Source {
    let s = case_seed(id, sub, idx);
    let mut r = Rng::new(s ^ 0x517e);
    // Mostly small cases, with a steady share of large ones.
    let a = r.below(101);
    let b = r.below(101);
    Source::random(s, if r.below(3) == 0 { a.max(b) } else { a.min(b) }, idx)
}

/// Signatures listed for a property in known-findings.txt.
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let text = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut f = rest.splitn(3, " | ");
            let (p, s, d) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
            if p.trim() == format!("property={id}") {
                if let Some(sig) = s.trim().strip_prefix("sig=") {
                    v.push((sig.to_string(), d.trim().to_string()));
                }
            }
        }
    }
    v
}

fn stack_bytes() -> usize {
    std::env::var("VH_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(8 << 20)
}

fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(stack_bytes()).spawn(f).unwrap().join().unwrap()
}

fn join(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn split(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

// ------------------------------------------------------------------ worker

pub fn worker(id: &str, shard: u64, n: u64, out: &str) -> i32 {
    install_hook();
    let id = id.to_string();
    let out = out.to_string();
    on_thread(move || worker_in(&id, shard, n, &out))
}

fn worker_in(id: &str, shard: u64, n: u64, out: &str) -> i32 {
    let prop = find(id);
    let knowns: HashSet<String> = known(id).into_iter().map(|k| k.0).collect();
    let progress = fs::File::create(format!("{out}.progress")).unwrap();
    let mut report = String::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut failed = false;
    for (si, sub) in prop.subs.iter().enumerate() {
        let total = case_count(sub);
        let (mut evals, mut discards, mut checks, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
        let mut samples: Vec<(u64, String)> = Vec::new();
        let mut idx = shard;
        while idx < total {
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
            rec[8..].copy_from_slice(&idx.to_le_bytes());
            progress.write_at(&rec, 0).unwrap();
            let mut src = source_for(id, sub.name, idx);
            let mut ctx = Ctx::default();
            let oc = run_case(sub.f, &mut src, &mut ctx);
            evals += 1;
            checks += ctx.checks;
            for (l, c) in &ctx.labels {
                // a label counts once per case
                let _ = c;
                *labels.entry(format!("{}:{}", sub.name, l)).or_insert(0) += 1;
            }
            for k in &ctx.known {
                *labels.entry(format!("{}:known:{}", sub.name, k)).or_insert(0) += 1;
            }
            match oc {
                Outcome::Pass => {
                    if ctx.nontrivial {
                        nontrivial += 1;
                        let h = ctx.hash.unwrap_or_else(|| hash_of(&src.rec)) ^ fnv(sub.name.as_bytes());
                        hashes.insert(h);
                        // keep the samples with the smallest hash: a fixed, unbiased choice
                        let key = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                        if samples.len() < 2 || key < samples.last().unwrap().0 {
                            samples.push((key, clip(&ctx.desc, 400)));
                            samples.sort();
                            samples.truncate(2);
                        }
                    }
                }
                Outcome::Discard => discards += 1,
                Outcome::Broken(m) => {
                    report.push_str(&format!("BROKEN\t{}\t{idx}\t{}\n", sub.name, js(&m)));
                    failed = true;
                    break;
                }
                Outcome::Fail(f) => {
                    if knowns.contains(&f.sig) {
                        *labels.entry(format!("{}:known:{}", sub.name, f.sig)).or_insert(0) += 1;
                        idx += n;
                        continue;
                    }
                    let _ = fs::write(format!("{out}.partial"), format!("{}\t{idx}\t{}\t{}", sub.name, f.sig, js(&f.msg)));
                    let s = shrink(sub.f, src.rec.clone(), f, ctx.desc.clone(), &knowns, 4000);
                    report.push_str(&format!(
                        "FAIL\t{}\t{idx}\t{}\t{}\t{}\t{}\t{}\n",
                        sub.name,
                        js(&s.fail.sig),
                        js(&s.fail.msg),
                        js(&s.desc),
                        join(&s.choices),
                        s.execs
                    ));
                    failed = true;
                    break;
                }
            }
            idx += n;
        }
        report.push_str(&format!("SUB\t{}\t{evals}\t{discards}\t{checks}\t{nontrivial}\n", sub.name));
        for (k, s) in samples {
            report.push_str(&format!("SAMPLE\t{}\t{k}\t{}\n", sub.name, js(&s)));
        }
        if failed {
            break;
        }
    }
    for (l, c) in labels {
        report.push_str(&format!("LABEL\t{c}\t{l}\n"));
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(format!("{out}.hash"), hb).unwrap();
    report.push_str("DONE\n");
    fs::write(out, report).unwrap();
    0
}

/// Run one case, given by its choices (or `#idx`), in this process.
/// Exit 0: passed or discarded, 3: failed, 2: harness defect.
pub fn case(id: &str, sub: &str, choices: &str) -> i32 {
    install_hook();
    let (id, sub, choices) = (id.to_string(), sub.to_string(), choices.to_string());
    on_thread(move || {
        let prop = find(&id);
        let s = prop.subs.iter().find(|s| s.name == sub).expect("sub");
        let mut src = match choices.strip_prefix('#') {
            Some(i) => source_for(&id, s.name, i.parse().unwrap()),
            None => Source::replay(split(&choices)),
        };
        let mut ctx = Ctx::default();
        let oc = run_case(s.f, &mut src, &mut ctx);
        println!("case: {}", ctx.desc);
        if std::env::var_os("VH_LABELS").is_some() {
            println!("labels: {:?} nontrivial={}", ctx.labels, ctx.nontrivial);
        }
        match oc {
            Outcome::Pass => {
                println!("pass ({} comparisons)", ctx.checks);
                0
            }
            Outcome::Discard => {
                println!("discarded");
                0
            }
            Outcome::Fail(f) => {
                println!("sig: {}\n{}", f.sig, f.msg);
                3
            }
            Outcome::Broken(m) => {
                println!("BROKEN {m}");
                2
            }
        }
    })
}

pub fn stats(id: &str, sub: &str, n: u64) -> i32 {
    install_hook();
    let (id, sub) = (id.to_string(), sub.to_string());
    on_thread(move || {
        let prop = find(&id);
        let s = prop.subs.iter().find(|s| s.name == sub).expect("sub");
        let t = Instant::now();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let (mut nt, mut disc, mut checks) = (0, 0, 0);
        let show: u64 = std::env::var("VH_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        for i in 0..n {
            let mut src = source_for(&id, s.name, i);
            let mut ctx = Ctx::default();
            let oc = run_case(s.f, &mut src, &mut ctx);
            for l in ctx.labels.keys() {
                *labels.entry(l.clone()).or_insert(0) += 1;
            }
            if ctx.nontrivial {
                nt += 1;
            }
            checks += ctx.checks;
            if i < show {
                println!("--- {i}: size {} choices {}\n{}", src.size, src.rec.len(), ctx.desc);
            }
            match oc {
                Outcome::Discard => disc += 1,
                Outcome::Fail(f) => {
                    println!("FAIL #{i} {} {}\n   {}", f.sig, f.msg, ctx.desc);
                }
                Outcome::Broken(m) => println!("BROKEN #{i} {m}\n   {}", ctx.desc),
                Outcome::Pass => {}
            }
        }
        println!("{n} cases {nt} nontrivial {disc} discarded {checks} checks, {:.2}s", t.elapsed().as_secs_f64());
        for (l, c) in labels {
            println!("  {c:>8} {:>5.1}%  {l}", 100.0 * c as f64 / n as f64);
        }
        0
    })
}

fn unjs(s: &str) -> String {
    // enough of a JSON string decoder for our own files
    let mut o = String::new();
    let mut it = s.trim().trim_start_matches('"').chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some('u') => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                }
                Some(c) => o.push(c),
                None => break,
            },
            c => o.push(c),
        }
    }
    o
}

pub fn replay(file: &str) -> i32 {
    let t = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| -> String {
        let pat = format!("\"{k}\":");
        let i = t.find(&pat).unwrap_or_else(|| panic!("no {k}")) + pat.len();
        t[i..].trim_start().to_string()
    };
    let id = unjs(&get("property"));
    let sub = unjs(&get("sub"));
    let ch = get("choices");
    let ch = &ch[ch.find('[').unwrap() + 1..ch.find(']').unwrap()];
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["case", &id, &sub, ch])
        .status()
        .unwrap();
    match st.code() {
        Some(0) => 0,
        Some(3) => {
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Some(c) => c,
        None => {
            println!("killed by signal {:?}", st.signal());
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

// ------------------------------------------------------------------ parent

struct Found {
    sub: String,
    idx: u64,
    sig: String,
    msg: String,
    desc: String,
    choices: Vec<u64>,
    execs: u64,
}

pub fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    let prop = find(id);
    let tier = if thorough() { "thorough" } else { "quick" };
    let dir = root().join("work").join(format!("{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let n: u64 = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    let limit = Duration::from_secs(if thorough() { 6 * 3600 } else { 780 });
    let mut kids = Vec::new();
    for shard in 0..n {
        let out = dir.join(format!("w{shard}"));
        let err = fs::File::create(dir.join(format!("w{shard}.err"))).unwrap();
        let k = Command::new(&exe)
            .args(["worker", id, &shard.to_string(), &n.to_string(), out.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        kids.push((shard, out, k, None));
    }
    // Wait; a worker that makes no progress is an error, never a violation.
    let mut stalled = false;
    let mut last: Vec<(Vec<u8>, Instant)> = kids.iter().map(|_| (Vec::new(), Instant::now())).collect();
    loop {
        let mut running = 0;
        for (i, (_, out, k, st)) in kids.iter_mut().enumerate() {
            if st.is_some() {
                continue;
            }
            match k.try_wait().unwrap() {
                Some(s) => *st = Some(s),
                None => {
                    running += 1;
                    let p = fs::read(format!("{}.progress", out.display())).unwrap_or_default();
                    if p != last[i].0 {
                        last[i] = (p, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(200) {
                        stalled = true;
                    }
                }
            }
        }
        if running == 0 {
            break;
        }
        if stalled || t0.elapsed() > limit {
            stalled = true;
            for (_, _, k, _) in kids.iter_mut() {
                let _ = k.kill();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut found: Vec<Found> = Vec::new();
    let mut broken: Vec<String> = Vec::new();
    if stalled {
        for (shard, out, _, st) in &kids {
            if st.is_none() {
                let p = fs::read(format!("{}.progress", out.display())).unwrap_or_default();
                broken.push(format!("worker {shard} made no progress in time; at {:?}", decode_progress(&p, &prop)));
            }
        }
    }
    let mut subs: BTreeMap<String, [u64; 4]> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, Vec<(u64, String)>> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for (shard, out, _, st) in &kids {
        let text = fs::read_to_string(out).unwrap_or_default();
        if let Ok(h) = fs::read(format!("{}.hash", out.display())) {
            for c in h.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "SUB" => {
                    let e = subs.entry(f[1].to_string()).or_default();
                    for i in 0..4 {
                        e[i] += f[2 + i].parse::<u64>().unwrap();
                    }
                }
                "LABEL" => *labels.entry(f[2].to_string()).or_insert(0) += f[1].parse::<u64>().unwrap(),
                "SAMPLE" => samples.entry(f[1].to_string()).or_default().push((f[2].parse().unwrap(), f[3].to_string())),
                "BROKEN" => broken.push(format!("{} case {}: {}", f[1], f[2], f[3])),
                "FAIL" => found.push(Found {
                    sub: f[1].into(),
                    idx: f[2].parse().unwrap(),
                    sig: unjs(f[3]),
                    msg: unjs(f[4]),
                    desc: unjs(f[5]),
                    choices: split(f[6]),
                    execs: f[7].parse().unwrap(),
                }),
                _ => {}
            }
        }
        if let Some(st) = st {
            if !text.ends_with("DONE\n") {
                let p = fs::read(format!("{}.progress", out.display())).unwrap_or_default();
                let err = fs::read_to_string(format!("{}.err", out.display())).unwrap_or_default();
                match decode_progress(&p, &prop) {
                    Some((sub, idx)) => match confirm_crash(&exe, id, &sub, idx, st, &err) {
                        Ok(f) => found.push(f),
                        Err(m) => broken.push(m),
                    },
                    None => broken.push(format!("worker {shard} ended with {st:?} before any case: {}", clip(&err, 500))),
                }
            }
        }
    }
    found.sort_by_key(|f| {
        (
            prop.subs.iter().position(|s| s.name == f.sub).unwrap_or(0),
            f.choices.len(),
            f.idx,
        )
    });

    // Known findings: say each that is listed, whether or not this run met it.
    for (sig, d) in known(id) {
        println!("KNOWN-FINDING: property={id} {d} [{sig}]");
    }

    let evals: u64 = subs.values().map(|s| s[0]).sum();
    write_evidence(&prop, tier, &subs, &labels, &samples, hashes.len() as u64, found.len(), t0);
    let dir_s = dir.display().to_string();
    if dir_s.starts_with(&root().join("work").display().to_string()) {
        let _ = fs::remove_dir_all(&dir);
    }

    println!(
        "{id} {tier} seed={} cases={evals} distinct_nontrivial={} comparisons={} discarded={} wall={:.1}s",
        seed() as i64,
        hashes.len(),
        subs.values().map(|s| s[2]).sum::<u64>(),
        subs.values().map(|s| s[1]).sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(f) = found.first() {
        let rp = write_replay(id, f);
        println!("sub-check {} case {} ({} shrink executions)", f.sub, f.idx, f.execs);
        println!("  {}", clip(&f.sig, 300));
        println!("  {}", clip(&f.msg, 2000));
        println!("  minimal case: {}", clip(&f.desc, 2000));
        println!("VIOLATION property={id} replay={}", rp.display());
        return 1;
    }
    if !broken.is_empty() {
        for b in &broken {
            println!("CHECK-ERROR {b}");
        }
        return 2;
    }
    if evals == 0 || hashes.is_empty() {
        println!("CHECK-ERROR nothing was explored");
        return 2;
    }
    0
}

fn decode_progress(p: &[u8], prop: &Prop) -> Option<(String, u64)> {
    if p.len() < 16 {
        return None;
    }
    let si = u64::from_le_bytes(p[..8].try_into().unwrap()) as usize;
    let idx = u64::from_le_bytes(p[8..16].try_into().unwrap());
    Some((prop.subs.get(si)?.name.to_string(), idx))
}

enum Iso {
    Ok,
    Fail,
    Crash(i32, String),
    Other(String),
}

fn isolated(exe: &Path, id: &str, sub: &str, choices: &str) -> Iso {
    let mut k = Command::new(exe)
        .args(["case", id, sub, choices])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let t = Instant::now();
    // Output is small, except for the described case; read it on threads.
    let mut so = k.stdout.take().unwrap();
    let mut se = k.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut b);
        b
    });
    let h2 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = std::io::Read::read_to_end(&mut se, &mut b);
        b
    });
    let st = loop {
        if let Some(s) = k.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = k.kill();
            let _ = k.wait();
            return Iso::Other("no answer in 60 s".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let _out = h1.join().unwrap();
    let err = String::from_utf8_lossy(&h2.join().unwrap()).into_owned();
    match (st.code(), st.signal()) {
        (Some(0), _) => Iso::Ok,
        (Some(3), _) => Iso::Fail,
        (_, Some(9)) => Iso::Other("killed".into()),
        (_, Some(sig)) if err.contains("memory allocation of") => Iso::Other(format!("out of memory (signal {sig})")),
        (_, Some(sig)) => Iso::Crash(sig, err),
        (Some(c), _) if err.contains("Sanitizer") => Iso::Crash(c, err),
        (c, _) => Iso::Other(format!("exit {c:?} {}", clip(&err, 300))),
    }
}

fn confirm_crash(exe: &Path, id: &str, sub: &str, idx: u64, st: &std::process::ExitStatus, err: &str) -> Result<Found, String> {
    let how = format!("worker ended with {st:?} in {sub} case {idx}: {}", clip(err, 600));
    let c = format!("#{idx}");
    let (sig, text) = match (isolated(exe, id, sub, &c), isolated(exe, id, sub, &c)) {
        (Iso::Crash(a, e), Iso::Crash(..)) => (a, e),
        _ => return Err(format!("{how}; did not happen again in isolation")),
    };
    // Regenerate the choices without running the property: replay by index is
    // enough for the file, but shrinking needs the sequence. A random source
    // is unbounded, so shrink over prefixes of its stream.
    let s = source_for(id, sub, idx);
    let mut best: Vec<u64> = vec![s.size, idx];
    let mut r = Rng::new(case_seed(id, sub, idx));
    // The raw stream cannot be mapped to choices without the bounds, so the
    // child prints them as it goes when asked to.
    let _ = &mut r;
    if let Some(rec) = traced_choices(exe, id, sub, &c) {
        best = rec;
        let mut execs = 0;
        let mut chunk = best.len() / 2;
        while chunk >= 1 && execs < 300 {
            let mut i = 2;
            while i < best.len() && execs < 300 {
                let hi = (i + chunk).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..hi);
                execs += 1;
                if let Iso::Crash(..) = isolated(exe, id, sub, &join(&cand)) {
                    best = cand;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
    }
    let first = text.lines().find(|l| l.contains("ERROR") || l.contains("overflow") || l.contains("panic") || l.contains("abort")).unwrap_or("").to_string();
    Ok(Found {
        sub: sub.into(),
        idx,
        sig: format!("crash:signal{sig}"),
        msg: format!("the process died ({}): {}", how, clip(&first, 300)),
        desc: format!("case #{idx}, choices {}", clip(&join(&best), 600)),
        choices: best,
        execs: 0,
    })
}

/// Re-run a crashing case with its choices logged to a file as they are drawn.
fn traced_choices(exe: &Path, id: &str, sub: &str, c: &str) -> Option<Vec<u64>> {
    let f = std::env::temp_dir().join(format!("vh-trace-{}", std::process::id()));
    let _ = Command::new(exe)
        .args(["case", id, sub, c])
        .env("VH_CHOICES", &f)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let b = fs::read(&f).ok()?;
    let _ = fs::remove_file(&f);
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

fn write_replay(id: &str, f: &Found) -> PathBuf {
    let dir = root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{id}-{}-{:08x}.json", f.sub, fnv(join(&f.choices).as_bytes()) as u32));
    let t = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"signature\": {},\n \"message\": {},\n \"case\": {},\n \"seed\": {},\n \"index\": {},\n \"choices\": [{}]\n}}\n",
        js(id),
        js(&f.sub),
        js(&f.sig),
        js(&f.msg),
        js(&f.desc),
        seed() as i64,
        f.idx,
        join(&f.choices)
    );
    fs::write(&p, t).unwrap();
    p
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &Prop,
    tier: &str,
    subs: &BTreeMap<String, [u64; 4]>,
    labels: &BTreeMap<String, u64>,
    samples: &BTreeMap<String, Vec<(u64, String)>>,
    distinct: u64,
    violations: usize,
    t0: Instant,
) {
    let mut o = String::new();
    let evals: u64 = subs.values().map(|s| s[0]).sum();
    let ss: Vec<String> = subs
        .iter()
        .map(|(k, v)| format!("{}: {{\"cases\": {}, \"discarded\": {}, \"comparisons\": {}, \"nontrivial\": {}}}", js(k), v[0], v[1], v[2], v[3]))
        .collect();
    let ls: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let mut sm = Vec::new();
    for (k, v) in samples {
        let mut v = v.clone();
        v.sort();
        for (_, s) in v.into_iter().take(3) {
            sm.push(format!("{{\"sub\": {}, \"case\": {}}}", js(k), s));
        }
    }
    let asm: Vec<String> = prop.assumptions.iter().map(|s| js(s)).collect();
    o.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"sub_checks\": {{{}}},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        js(prop.id),
        js(tier),
        seed() as i64,
        js(prop.level),
        js(prop.rule),
        ss.join(", "),
        ls.join(", "),
        sm.join(", "),
        asm.join(", "),
        t0.elapsed().as_secs_f64()
    ));
    let d = root().join("evidence");
    fs::create_dir_all(&d).unwrap();
    let tmp = d.join(format!(".{}.tmp", prop.id));
    let mut f = fs::File::create(&tmp).unwrap();
    f.write_all(o.as_bytes()).unwrap();
    drop(f);
    fs::rename(&tmp, d.join(format!("{}.json", prop.id))).unwrap();
}
