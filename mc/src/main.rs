mod chooser;
mod cons;
mod g;
mod meta;
mod n;
mod oracle;
mod props;
mod run;

use run::*;
use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// value of a string or array field of the flat JSON files this program writes itself
fn jget(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{k}\":"))? + k.len() + 3;
    let r = s[i..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    'n' => o.push('\n'),
                    't' => o.push('\t'),
                    'r' => o.push('\r'),
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else if let Some(r) = r.strip_prefix('[') {
        Some(r[..r.find(']')?].to_string())
    } else {
        Some(r.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or("/verif".into())
}

/// known findings: lines of {"status": "finding", "property":..., "input_hex":..., "what":...}
fn load_known() -> Vec<(String, Vec<u8>, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", root())) {
        for l in s.lines() {
            if jget(l, "status").as_deref() == Some("finding") {
                v.push((jget(l, "property").unwrap(), unhex(&jget(l, "input_hex").unwrap()), jget(l, "what").unwrap()));
            }
        }
    }
    v
}

fn shared(prop: &str, slots: Slots) -> Shared {
    Shared {
        property: prop.to_string(),
        slots,
        execs: 0.into(),
        cases: 0.into(),
        transitions: 0.into(),
        nontrivial: 0.into(),
        skipped_dup: 0.into(),
        seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        violations: Mutex::new(vec![]),
        nviol: 0.into(),
        samples: Mutex::new(vec![]),
        outcomes: Default::default(),
        families: Mutex::new(vec![]),
        deadline: Mutex::new(None),
        capped: false.into(),
        known: load_known(),
        known_hit: Default::default(),
    }
}

fn rlimit() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn write_replay(prop: &str, v: &Violation) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let h = fxhash(&[v.family.as_bytes(), &v.input[..], v.detail.as_bytes()].concat());
    let p = format!("{dir}/{prop}-{h:016x}.json");
    let path: Vec<String> = v.path.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "{{\"property\": {}, \"family\": {}, \"budget\": {}, \"path\": [{}], \"input_hex\": \"{}\", \"input\": {}, \"detail\": {}}}\n",
        jstr(prop), jstr(&v.family), v.budget, path.join(","), hex(&v.input[..v.input.len().min(1 << 20)]),
        jstr(&String::from_utf8_lossy(&v.input[..v.input.len().min(4000)])), jstr(&v.detail)
    );
    std::fs::write(&p, s).unwrap();
    p
}

/// the exploring process: runs all families of a property and prints a report on stdout
fn child(prop: &str, tier: &str, slots: &str, secs: u64) -> i32 {
    install_hook();
    rlimit();
    let t0 = Instant::now();
    let sh = shared(prop, Slots::open(slots));
    *sh.deadline.lock().unwrap() = Some(Instant::now() + Duration::from_secs(secs));
    let Some(p) = props::find(prop) else {
        eprintln!("no such property {prop}");
        return 2;
    };
    let fams = p.fams(tier == "thorough");
    let only = std::env::var("MC_ONLY").ok();
    for f in &fams {
        if let Some(o) = &only {
            if !f.name.contains(o.as_str()) {
                continue;
            }
        }
        sh.explore(&f.name, f.budget, f.dedup, &*f.f);
        if sh.nviol.load(SeqCst) > 0 && std::env::var("MC_ALL").is_err() {
            break;
        }
    }
    // report
    let mut vs = sh.violations.lock().unwrap().clone();
    vs.sort_by_key(|v| (v.input.len(), v.input.clone()));
    vs.dedup_by(|a, b| a.input == b.input && a.detail == b.detail);
    let mut known: Vec<usize> = sh.known_hit.lock().unwrap().iter().copied().collect();
    known.sort();
    for k in known {
        println!("KNOWN-FINDING: property={} {}", prop, sh.known[k].2);
    }
    let dev = std::env::var("MC_ALL").is_ok();
    let mut groups: std::collections::BTreeMap<String, usize> = Default::default();
    if dev {
        let key = |d: &str| -> String {
            let d = d.split(" (diagnostics").next().unwrap();
            let d: String = if let Some(i) = d.rfind("at .") {
                let (p, m) = d[i..].split_once(':').unwrap_or((&d[i..], ""));
                let parts: Vec<&str> = p.split('.').collect();
                format!("{}:{}", parts[parts.len().saturating_sub(3)..].join("."), m)
            } else { d.split_once('/').filter(|(a, _)| a.len() < 30 && !a.contains(' ')).map(|x| x.1).unwrap_or(d).to_string() };
            d.chars().filter(|c| !c.is_ascii_digit()).take(120).collect()
        };
        let mut seen = HashSet::new();
        for v in &vs {
            *groups.entry(key(&v.detail)).or_insert(0) += 1;
        }
        vs.retain(|v| seen.insert(key(&v.detail)));
        for (k, n) in &groups {
            println!("GROUP {n} {k}");
        }
    }
    let show = if dev { 14 } else { 3 };
    for v in vs.iter().take(show) {
        let p = write_replay(prop, v);
        println!("{prop} [{}] input {:?}", v.family, String::from_utf8_lossy(&v.input[..v.input.len().min(400)]));
        println!("    {}", v.detail.chars().take(1200).collect::<String>());
        println!("VIOLATION property={prop} replay={p}");
    }
    let fl = sh.families.lock().unwrap();
    let complete = fl.iter().all(|f| f.4);
    let cases = sh.cases.load(SeqCst);
    if vs.is_empty() && (cases == 0 || fl.iter().any(|f| f.2 == 0 && f.4)) {
        eprintln!("harness error: a family explored nothing: {fl:?}");
        return 2;
    }
    let fams_json: Vec<String> = fl.iter().map(|f| format!("{{\"family\": {}, \"deviation_bound\": {}, \"inputs\": {}, \"wall_s\": {:.2}, \"complete\": {}}}", jstr(&f.0), f.1, f.2, f.3, f.4)).collect();
    let outs: Vec<String> = sh.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let samples: Vec<String> = sh.samples.lock().unwrap().iter().map(|s| jstr(&format!("[{}] {}", s.0, s.1))).collect();
    let known_n = sh.known_hit.lock().unwrap().len();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"duplicate_inputs_skipped\": {},\n  \"known_findings_hit\": {},\n  \"outcomes\": {{{}}},\n  \"families\": [{}],\n  \"samples\": [{}],\n  \"exhaustive\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(prop), jstr(tier), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        sh.execs.load(SeqCst), sh.transitions.load(SeqCst), cases, cases, sh.nontrivial.load(SeqCst),
        jstr(p.rule), sh.skipped_dup.load(SeqCst), known_n,
        outs.join(", "), fams_json.join(", "), samples.join(", "), complete && !sh.capped.load(SeqCst),
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), vs.len()
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), ev).unwrap();
    println!(
        "{prop} {tier}: {} executions, {} distinct inputs run, {} transitions, {} families{}, {:.1} s, {} violations",
        sh.execs.load(SeqCst), cases, sh.transitions.load(SeqCst), fl.len(), if complete { ", complete within bounds" } else { ", stopped early" }, t0.elapsed().as_secs_f64(), vs.len()
    );
    if vs.is_empty() {
        0
    } else {
        1
    }
}

/// run one input in a process of its own; true when it finishes normally
fn probe_ok(input: &[u8], secs: u64) -> Result<(), String> {
    let f = format!("{}/probe-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::write(&f, input).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["probe", &f]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let r = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break if s.success() { Ok(()) } else { Err(format!("process parsing this input died: {s}")) };
        }
        if t0.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            break Err(format!("parsing this input did not finish within {secs} s"));
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let _ = std::fs::remove_file(&f);
    r
}

fn crash_evidence(prop: &str, tier: &str, wall: f64, v: &Violation) {
    let p = props::find(prop).unwrap();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"states\": 1, \"transitions\": 0, \"traces_validated_against_impl\": 1, \"rule\": {}, \"samples\": [{}], \"exhaustive\": false}}, \"wall_s\": {:.2}, \"violations\": 1}}\n",
        jstr(prop), jstr(tier), jstr(p.rule), jstr(&String::from_utf8_lossy(&v.input)), wall
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), ev);
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    if props::find(prop).is_none() {
        eprintln!("no such property {prop}");
        return 2;
    }
    let secs: u64 = if tier == "thorough" { std::env::var("MC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(780) } else { 700 };
    let slots = format!("{}/mc-slots-{}", std::env::temp_dir().display(), std::process::id());
    let _ = std::fs::remove_file(&slots);
    let sl = Slots::open(&slots);
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["child", prop, tier, &slots, &secs.to_string()]).spawn().unwrap();
    let mut hung = false;
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        let now = now_ms();
        for i in 0..THREADS {
            if let Some((st, lim, _)) = sl.read(i) {
                if now > st + lim {
                    hung = true;
                }
            }
        }
        if hung {
            let _ = c.kill();
            break c.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let inflight: Vec<(u64, u64, Vec<u8>)> = (0..THREADS).filter_map(|i| sl.read(i)).collect();
    let _ = std::fs::remove_file(&slots);
    if let (Some(code), false) = (st.code(), hung) {
        if code <= 2 {
            return code;
        }
    }
    // the exploring process died or hung: find the input that does it
    let mut bad = vec![];
    for (_, lim, inp) in &inflight {
        if let Err(m) = probe_ok(inp, lim / 1000 + 5) {
            bad.push(Violation { family: "crash".into(), budget: 0, path: vec![], input: inp.clone(), detail: m });
        }
    }
    bad.sort_by_key(|v| v.input.len());
    if let Some(v) = bad.first() {
        let p = write_replay(prop, v);
        crash_evidence(prop, tier, t0.elapsed().as_secs_f64(), v);
        println!("{prop} input {:?}\n    {}", String::from_utf8_lossy(&v.input[..v.input.len().min(400)]), v.detail);
        println!("VIOLATION property={prop} replay={p}");
        return 1;
    }
    eprintln!("exploring process ended with {st} (hung: {hung}) and no in-flight input reproduces it");
    2
}

fn replay(file: &str) -> i32 {
    install_hook();
    let s = std::fs::read_to_string(file).unwrap();
    let prop = jget(&s, "property").unwrap();
    let fam = jget(&s, "family").unwrap();
    let budget: u32 = jget(&s, "budget").unwrap().parse().unwrap();
    let path: Vec<u32> = jget(&s, "path").unwrap().split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let input = unhex(&jget(&s, "input_hex").unwrap());
    if fam == "crash" {
        return match probe_ok(&input, 30) {
            Ok(()) => {
                println!("no violation");
                0
            }
            Err(m) => {
                println!("{m}\nVIOLATION property={prop} replay={file}");
                1
            }
        };
    }
    let slots = format!("{}/mc-slots-{}", std::env::temp_dir().display(), std::process::id());
    let sh = shared(&prop, Slots::open(&slots));
    let _ = std::fs::remove_file(&slots);
    let p = props::find(&prop).unwrap();
    for thorough in [false, true] {
        for f in p.fams(thorough) {
            if f.name == fam && f.budget == budget {
                let r = sh.replay(&fam, budget, &path, &*f.f);
                for (i, d) in &r {
                    println!("input {:?}\n    {d}", String::from_utf8_lossy(i));
                }
                if r.is_empty() {
                    println!("no violation");
                    return 0;
                }
                println!("VIOLATION property={prop} replay={file}");
                return 1;
            }
        }
    }
    eprintln!("family {fam} not found");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => check(s(2), s(3)),
        "child" => child(s(2), s(3), s(4), s(5).parse().unwrap_or(700)),
        "replay" => replay(s(2)),
        "probe" => {
            rlimit();
            let b = std::fs::read(s(2)).unwrap();
            let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                let r = oracle::parse_tok(&b);
                drop(r);
                drop(lib_ruby_parser::Lexer::new(b, "(lexer)", None).tokenize_until_eof());
            });
            match t.unwrap().join() {
                Ok(()) => 0,
                Err(_) => 101,
            }
        }
        "parse" => {
            let b = if s(2) == "-e" { s(3).as_bytes().to_vec() } else { std::fs::read(s(2)).unwrap() };
            let r = oracle::parse_tok(&b);
            if let Some(t) = &r.ast {
                println!("{}", t.inspect(0));
                if s(4) == "-l" || s(3) == "-l" {
                    println!("{t:#?}");
                }
            }
            println!("{}", oracle::diag_str(&r.diagnostics));
            println!("{:?}\n{:?} {:?}", r.tokens, r.comments, r.magic_comments);
            0
        }
        "facts" => {
            print!("{}", props::api::facts_of(s(2).parse().unwrap()));
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check|replay|list|parse");
            2
        }
    };
    std::process::exit(code);
}
