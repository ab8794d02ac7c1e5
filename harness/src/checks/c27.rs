//! C27: the workloads of other checks in processes built with the thread and the address sanitizer (with leak detection), and
//! workloads for Miri. The verdict is theirs; what the checks themselves find in those processes is not looked at here.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- known errors, to see that the monitors see

/// Run in a sanitized process.
pub fn selftest(what: &str) {
    match what {
        "race" => {
            static mut X: u64 = 0;
            let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(|| {
                for _ in 0..1000 {
                    unsafe { std::ptr::write_volatile(&raw mut X, std::ptr::read_volatile(&raw const X) + 1) };
                }
            })).collect();
            hs.into_iter().for_each(|h| h.join().unwrap());
        }
        "leak" => {
            #[inline(never)]
            fn leak(n: usize) {
                std::hint::black_box(std::mem::ManuallyDrop::new(vec![7u8; n]));
            }
            for n in 100..120 {
                leak(n);
            }
            // so that nothing is left in registers and on the stack
            std::hint::black_box([0u8; 4096]);
        }
        "memory" => {
            let v = std::hint::black_box(vec![1u8; 10]);
            let p = v.as_ptr();
            drop(v);
            println!("{}", unsafe { std::ptr::read_volatile(p.add(3)) });
        }
        _ => std::process::exit(2),
    }
}

// ---------------------------------------------------------------- jobs

#[derive(Clone, Debug)]
enum Tool {
    Tsan,
    Asan,
    Miri,
}
#[derive(Clone, Debug)]
struct Job {
    tool: Tool,
    what: String,
    arg: usize,
    flags: &'static str,
}
impl Job {
    fn name(&self) -> String {
        format!("{:?}-{}-{}{}", self.tool, self.what, self.arg, if self.flags.is_empty() { "" } else { "-x" }).to_lowercase()
    }
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn sanitized(t: &str) -> PathBuf {
    dir().join(format!("target/{t}/x86_64-unknown-linux-gnu/debug/vh"))
}

/// What a process wrote and how it ended; None when it had to be killed.
fn exec(mut cmd: Command, at: &Path, secs: u64) -> (Option<std::process::ExitStatus>, String) {
    fs::create_dir_all(at).unwrap();
    let out = at.join("output");
    let f = fs::File::create(&out).unwrap();
    unsafe {
        cmd.pre_exec(|| {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = cmd.stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f).spawn().expect("sanitized process");
    let end = Instant::now() + Duration::from_secs(secs);
    let mut st = None;
    while Instant::now() < end {
        if let Ok(Some(s)) = ch.try_wait() {
            st = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
    let _ = ch.kill();
    let _ = ch.wait();
    let mut text = String::from_utf8_lossy(&fs::read(&out).unwrap_or_default()).into_owned();
    for e in fs::read_dir(at).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("report") {
            text.push('\n');
            text.push_str(&String::from_utf8_lossy(&fs::read(e.path()).unwrap_or_default()));
        }
    }
    (st, text)
}

fn sanitizer(t: &str, args: &[&str], scale: usize, at: &Path, seed: u64, secs: u64) -> (Option<std::process::ExitStatus>, String) {
    let _ = fs::remove_dir_all(at);
    fs::create_dir_all(at).unwrap();
    let mut cmd = Command::new(sanitized(t));
    let log = at.join("report");
    cmd.args(args).env("VERIF_DIR", at).env("VH_SCALE", scale.to_string()).env("VERIF_SEED", seed.to_string()).env("VERIF_TIER", "quick");
    cmd.env("VH_CERTS", dir().join("harness/certs"));
    cmd.env("TSAN_OPTIONS", format!("log_path={} halt_on_error=0 exitcode=0 second_deadlock_stack=1 report_signal_unsafe=0", log.display()));
    cmd.env("ASAN_OPTIONS", format!("log_path={} detect_leaks=1 detect_stack_use_after_return=1 exitcode=0 handle_abort=0", log.display()));
    exec(cmd, at, secs)
}

/// The reports in the output of the tools: (signature, text).
fn reports(text: &str) -> Vec<(String, String)> {
    let lines: Vec<&str> = text.lines().collect();
    let mut out = vec![];
    for (i, l) in lines.iter().enumerate() {
        let kind = if let Some(k) = l.split("WARNING: ThreadSanitizer: ").nth(1) {
            format!("tsan:{}", k.split(" (").next().unwrap())
        } else if let Some(k) = l.split("ERROR: AddressSanitizer: ").nth(1) {
            format!("asan:{}", k.split_whitespace().next().unwrap_or(""))
        } else if l.contains("ERROR: LeakSanitizer: detected memory leaks") {
            "lsan:leak".to_string()
        } else if l.starts_with("error: Undefined Behavior:") {
            format!("miri:{}", l.split(": ").nth(2).unwrap_or("").split(" at alloc").next().unwrap().split(" between ").next().unwrap().chars().take(60).collect::<String>())
        } else if l.starts_with("error: memory leaked") {
            "miri:leak".into()
        } else if l.starts_with("error: the main thread terminated without waiting") {
            "miri:threads-left".into()
        } else {
            continue;
        };
        let body: Vec<&str> = lines[i..lines.len().min(i + 60)].to_vec();
        let at = body.iter().flat_map(|l| l.split_whitespace()).find(|w| w.contains("/repo/")).map(|w| {
            let w = w.trim_matches(|c| c == '(' || c == ')' || c == ',');
            let mut p = w.splitn(2, ".rs:");
            format!("{}.rs", p.next().unwrap().trim_start_matches("/repo/"))
        });
        out.push((format!("{kind}:{}", at.unwrap_or_else(|| "elsewhere".into())), body.join("\n")));
    }
    out
}

fn run_job(j: &Job, seed: u64) {
    let at = dir().join("out/c27").join(format!("{}-{seed}", j.name()));
    let limit = if c().quick() { 150 } else { 600 };
    let t = Instant::now();
    let (st, text) = match j.tool {
        Tool::Tsan => sanitizer("tsan", &[&j.what], j.arg, &at, seed, limit),
        Tool::Asan => sanitizer("asan", &[&j.what], j.arg, &at, seed, limit),
        Tool::Miri => {
            let _ = fs::remove_dir_all(&at);
            miri(&j.what, j.arg as u64 + seed * 1000, j.flags, &at, limit)
        }
    };
    let d = |m: Value| json!({"job": j.name(), "seed": seed, "found": m, "log": at.display().to_string()});
    let found = reports(&text);
    let (tool, secs) = (format!("{:?}", j.tool).to_lowercase(), t.elapsed().as_secs_f64());
    if std::env::var("VH_VERBOSE").is_ok() {
        eprintln!("{} {secs:.1} s {st:?} {} reports", j.name(), found.len());
    }
    for (sig, body) in found.iter().take(5) {
        c().violation(sig, d(json!(clip(body, 4000))));
    }
    if !found.is_empty() {
        return;
    }
    // ended by a signal that nobody sent
    if let Some(sig) = st.and_then(|s| s.signal()) {
        return c().violation(&format!("crash:{sig}"), d(json!(clip(&text[text.len().saturating_sub(2000)..], 2000))));
    }
    if matches!(j.tool, Tool::Miri) {
        let done = text.lines().find_map(|l| l.strip_prefix("DONE "));
        match done {
            Some(k) if st.map_or(false, |s| s.success()) => {
                for kv in k.split_whitespace() {
                    if let Some((k, v)) = kv.split_once('=') {
                        c().count(&format!("miri:{k}"), v.parse().unwrap_or(0));
                    }
                }
                c().count("miri:runs", 1);
                c().eval(Some(("miri", j.name(), seed)));
            }
            _ if text.contains("unsupported operation") => c().count("miri:runs_stopped_by_something_not_supported", 1),
            _ if st.is_none() => c().count("miri:runs_not_finished_in_time", 1),
            _ => {
                c().count("miri:runs_with_another_outcome", 1);
                c().sample(d(json!(clip(&text[text.len().saturating_sub(800)..], 800))));
            }
        }
        let _ = fs::remove_dir_all(&at);
        return;
    }
    let ev: Value = fs::read(at.join(format!("evidence/{}.json", j.what))).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    let n = ev["coverage"]["evaluations"].as_u64().unwrap_or(0);
    let distinct = ev["coverage"]["distinct_nontrivial"].as_u64().unwrap_or(0);
    c().count(&format!("{tool}:evaluations:{}", j.what), n);
    c().count(&format!("{tool}:evaluations"), n);
    for k in 0..distinct {
        c().eval(Some((tool.clone(), j.what.clone(), seed, k)));
    }
    c().count(&format!("{tool}:functional_alarms_not_judged_here"), ev["coverage"]["observed"]["functional_alarms"].as_u64().unwrap_or(0));
    for p in ev["coverage"]["panics_contained_by_the_code_under_test"]["samples"].as_array().into_iter().flatten().filter_map(|p| p.as_str()) {
        // what the checked cells of the repository say when two threads use them at the same time
        if p.contains("already") && p.contains("borrowed") {
            c().violation("simultaneous-borrow", d(json!(p)));
        }
    }
    if st.is_none() {
        c().count(&format!("{tool}:runs_not_finished_in_time"), 1);
    } else if n > 0 {
        c().count(&format!("{tool}:runs"), 1);
    }
    let _ = fs::remove_dir_all(&at);
}

fn miri(what: &str, seed: u64, flags: &str, at: &Path, secs: u64) -> (Option<std::process::ExitStatus>, String) {
    let mut cmd = Command::new("cargo");
    cmd.args(["+nightly", "miri", "run", "-q", "--offline", "--manifest-path"]).arg(dir().join("miri/Cargo.toml")).arg("--target-dir").arg(dir().join("target/miri"));
    cmd.args(["--", what, &seed.to_string()]);
    cmd.env("RUSTFLAGS", "--cfg wruster_verif").env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={seed} {flags}"));
    // nothing the workload writes goes elsewhere
    exec(cmd, at, secs)
}

/// The monitors see what they are there to see.
fn selftests() {
    let at = dir().join("out/c27/selftest");
    let n = AtomicU64::new(0);
    for (t, what, want) in [("tsan", "race", "tsan:data race"), ("asan", "memory", "asan:heap-use-after-free"), ("asan", "leak", "lsan:leak")] {
        let (st, text) = sanitizer(t, &["C27", "selftest", what], 100, &at, 1, 60);
        let seen = reports(&text).iter().any(|(s, _)| s.starts_with(want));
        c().count(&format!("self_test:{t}:{what}:{}", if seen { "seen" } else { "NOT seen" }), 1);
        if seen {
            n.fetch_add(1, SeqCst);
        } else {
            c().sample(json!({"self_test": what, "status": format!("{st:?}"), "output": clip(&text, 1500)}));
            if what != "leak" {
                println!("ERROR: the sanitizer {t} does not report a planted {what}: {}", clip(&text, 500));
                std::process::exit(3);
            }
            c().assume("the leak sanitizer does not work in this environment: leaks are only looked for by Miri");
        }
    }
    if std::env::var_os("VH_NO_MIRI").is_some() {
        c().assume("Miri could not run on this tree, as its workloads, which use private types, did not build");
        return;
    }
    for (what, want) in [("selftest-race", "miri:Data race"), ("selftest-memory", "miri:"), ("selftest-leak", "miri:leak")] {
        let (_, text) = miri(what, 1, "", &at, 60);
        let seen = reports(&text).iter().any(|(s, _)| s.starts_with(want));
        c().count(&format!("self_test:miri:{what}:{}", if seen { "seen" } else { "NOT seen" }), 1);
        if !seen {
            println!("ERROR: Miri does not report a planted {what}: {}", clip(&text[text.len().saturating_sub(500)..], 500));
            std::process::exit(3);
        }
    }
    let _ = fs::remove_dir_all(&at);
}

pub fn run() {
    c().rule("an evaluation is one evaluation of the check whose workload ran under the sanitizer, or one Miri run with a seed of its own (schedule, memory model and addresses); distinct by tool, workload, seed and, within the workload, by its own rule");
    c().assume("the sanitizers see what is compiled from Rust sources, the standard library included; the assembly inside ring is not instrumented");
    c().assume("TLS is not run under Miri, and the crate polling is replaced there by one that makes the same calls through libc");
    selftests();
    let q = c().quick();
    let seeds: Vec<u64> = if q { vec![c().seed] } else { (0..4).map(|k| c().seed * 10 + k).collect() };
    let mut jobs: Vec<(Job, u64)> = vec![];
    for s in seeds {
        let full = |pct: usize| if q { pct } else { (pct * 4).min(150) };
        // the longest first
        let tsan: &[(&str, usize)] = &[("C20", 12), ("C21", 30), ("C24", 40), ("C18", 10), ("C23", 12), ("C13", 30), ("C01", 50), ("C14", 60), ("C15", 100), ("C11", 30), ("C09", 15)];
        let asan: &[(&str, usize)] = &[("C22", 20), ("C20", 10), ("C21", 30), ("C17", 20), ("C24", 40), ("C18", 10), ("C06", 8), ("C13", 20), ("C23", 10), ("C07", 12), ("C04", 20), ("C01", 50), ("C08", 20), ("C05", 20), ("C14", 60), ("C15", 100), ("C11", 30)];
        let more: &[(&str, usize)] = &[("C19", 15), ("C12", 30), ("C02", 30), ("C03", 30), ("C10", 20)];
        let (mut tsan, mut asan) = (tsan.to_vec(), asan.to_vec());
        if !q {
            tsan.extend(more);
            asan.extend(more);
        }
        for (w, pct) in asan {
            jobs.push((Job { tool: Tool::Asan, what: w.into(), arg: full(pct), flags: "" }, s));
        }
        for (w, pct) in tsan {
            jobs.push((Job { tool: Tool::Tsan, what: w.into(), arg: full(pct), flags: "" }, s));
        }
        for (w, n, big) in [("client", 1, 6), ("server", 2, 12), ("shutdown", 2, 12), ("parse", 1, 6), ("pools", 6, 60)] {
            if std::env::var_os("VH_NO_MIRI").is_some() {
                continue;
            }
            for k in 0..if q { n } else { big } {
                let flags = if k % 3 == 2 { "-Zmiri-tree-borrows" } else if k % 3 == 1 { "-Zmiri-preemption-rate=0.1" } else { "" };
                jobs.push((Job { tool: Tool::Miri, what: w.into(), arg: k, flags }, s));
            }
        }
    }
    let mut heavy: BTreeMap<bool, Vec<(Job, u64)>> = BTreeMap::new();
    for j in jobs {
        heavy.entry(matches!(j.0.tool, Tool::Miri)).or_default().push(j);
    }
    let heavy = Arc::new(heavy);
    // Miri runs use one core each.
    std::thread::scope(|sc| {
        for (is_miri, list) in heavy.iter() {
            sc.spawn(move || par(if *is_miri { 3 } else { 7 }, list.len(), "jobs", |i, _| run_job(&list[i as usize].0, list[i as usize].1)));
        }
    });
    if c().get("miri:runs") < 5 {
        c().assume("Miri could not run most of its workloads on this tree: see the counts");
    }
    require("tsan:runs", 8);
    require("asan:runs", 8);
    require("tsan:evaluations", 2000);
    require("asan:evaluations", 2000);
}
