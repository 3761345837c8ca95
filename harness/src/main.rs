//! Executes the contracts of one property on the real crate: a bounded exhaustive part, then seeded
//! random cases until the budget is used. Prints one JSON line.
#[macro_use]
mod ty;
mod arith;
mod gen;
mod misc;
mod obs;
mod oracle;

use arith::R;
use gen::*;
use serde_json::json;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Runs f, turning a panic into Err(message).
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}

type Run = fn(&Case) -> R;
type Rand = fn(&mut Gen) -> Case;
type Ex = fn(&mut dyn FnMut(Case) -> bool);
fn table(p: &str) -> (Run, Rand, Ex) {
    use arith::*;
    use misc::*;
    use obs::*;
    match p {
        "C01" => (c01, c01_rand, c01_ex),
        "C02" => (c02, c02_rand, c02_ex),
        "C03" => (c03, c03_rand, c03_ex),
        "C04" => (c04, c04_rand, c04_ex),
        "C05" => (c05, c05_rand, c05_ex),
        "C06" => (c06, c06_rand, c06_ex),
        "C07" => (c07, c07_rand, c07_ex),
        "C08" => (c08, c08_rand, c08_ex),
        "C09" => (c09, c09_rand, c09_ex),
        "C10" => (c10, c10_rand, c10_ex),
        "C11" => (c11, c11_rand, c11_ex),
        "C12" => (c12, c12_rand, c12_ex),
        "C13" => (c13, c13_rand, c13_ex),
        "C14" => (c14, c14_rand, c14_ex),
        "C15" => (c15, c15_rand, c15_ex),
        "C16" => (c16, c16_rand, c16_ex),
        "C17" => (c17, c17_rand, c17_ex),
        "C18" => (c18, c18_rand, c18_ex),
        "C19" => (c19, c19_rand, c19_ex),
        "C21" => (c21, c21_rand, c21_ex),
        "C22" => (c22, c22_rand, c22_ex),
        "C20" => (c20, c20_rand, c20_ex),
        _ => panic!("no such property"),
    }
}

/// One case: Ok(true) compared, Ok(false) outside the contract's precondition, Err the violation.
fn one(run: Run, c: &Case) -> R {
    // Values the coefficient type can not hold are not inputs.
    if let Some((lo, hi)) = int_range(&c.ty) {
        if c.p.iter().flatten().chain(c.m.iter().flatten().map(|(_, x)| x)).any(|x| *x < lo || *x > hi) { return Ok(false) }
    }
    match quiet(|| run(c)) {
        Ok(r) => r,
        Err(m) if m.starts_with("HARNESS") => { eprintln!("{}", m); std::process::exit(3) }
        Err(m) => Err(format!("{}: panicked: {}", c.op, m)),
    }
}

fn shrink(run: Run, c: Case) -> Case {
    let mut best = c;
    let end = Instant::now() + Duration::from_secs(4);
    loop {
        let mut cands: Vec<Case> = vec![];
        for (i, v) in best.p.iter().enumerate() {
            for j in 0..v.len().min(60) {
                let mut d = best.clone();
                d.p[i].remove(j);
                if v.len() > 3 || best.op.starts_with("de") || best.op.len() > 3 { cands.push(d) }
                for x in [0, 1, v[j] / 2] { if v[j] != x && (x.unsigned_abs() < v[j].unsigned_abs()) { let mut d = best.clone(); d.p[i][j] = x; cands.push(d) } }
            }
        }
        for (i, v) in best.m.iter().enumerate() {
            for j in 0..v.len().min(60) {
                let mut d = best.clone();
                d.m[i].remove(j);
                cands.push(d);
                for x in [0, 1, v[j].1 / 2] { if x.unsigned_abs() < v[j].1.unsigned_abs() { let mut d = best.clone(); d.m[i][j].1 = x; cands.push(d) } }
                for x in [0, 1, v[j].0 / 2, v[j].0.saturating_sub(1)] { if x < v[j].0 { let mut d = best.clone(); d.m[i][j].0 = x; cands.push(d) } }
            }
        }
        for (j, v) in best.n.iter().enumerate() {
            for x in [0, 1, v / 2, v - v.signum()] { if x.unsigned_abs() < v.unsigned_abs() { let mut d = best.clone(); d.n[j] = x; cands.push(d) } }
        }
        let cs: Vec<char> = best.t.chars().collect();
        if best.t != "bits" { for j in 0..cs.len() { let mut d = best.clone(); d.t = cs.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, c)| *c).collect(); cands.push(d) } }
        let mut hit = None;
        for d in cands {
            if Instant::now() > end { return best }
            // a candidate may be malformed for its operation: keep it only if the contract itself reports
            let r = quiet(|| one(run, &d));
            if let Ok(Err(_)) = r { hit = Some(d); break }
        }
        match hit { Some(d) => best = d, None => return best }
    }
}

fn hash(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (&c.op, &c.ty, &c.p, &c.m, &c.n, &c.t).hash(&mut h);
    h.finish()
}

struct Slot { since: AtomicU64, case: Mutex<Option<Case>> }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args[1].clone();
    let (run, rand, ex) = table(&prop);
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(f) = get("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let c = Case::from_json(v.get("case").unwrap_or(&v));
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let _ = tx.send(one(run, &c)); });
        let r = rx.recv_timeout(Duration::from_secs(20)).unwrap_or_else(|_| Err("did not terminate within 20 s".into()));
        println!("{}", match &r { Ok(b) => json!({"ok": true, "compared": b}), Err(e) => json!({"ok": false, "error": e}) });
        std::process::exit(r.is_err() as i32);
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let ints = |s: Option<String>| -> Vec<i128> { s.unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect() };
    let (lits, hot) = (ints(get("--lits")), ints(get("--hot")));
    let trace = get("--trace");
    let t0 = Instant::now();
    let ms = move || t0.elapsed().as_millis() as u64 + 1;
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let evals = Arc::new(AtomicU64::new(0));
    let exs = Arc::new(AtomicU64::new(0));
    let seen: Arc<Mutex<(HashSet<u64>, Vec<Case>)>> = Arc::new(Mutex::new((HashSet::new(), vec![])));
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { since: AtomicU64::new(0), case: Mutex::new(None) })).collect();
    let exdone = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for k in 0..threads {
        let (stop, found, evals, exs, seen, slot, lits, hot, trace, exdone) = (stop.clone(), found.clone(), evals.clone(), exs.clone(), seen.clone(), slots[k].clone(), lits.clone(), hot.clone(), trace.clone(), exdone.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut local: HashSet<u64> = HashSet::new();
            let mut samples: Vec<Case> = vec![];
            let mut n = 0u64;
            let mut step = |c: Case| -> bool {
                if stop.load(Ordering::Relaxed) { return false }
                if let Some(f) = &trace { let _ = std::fs::write(f, c.json().to_string()); }
                *slot.case.lock().unwrap() = Some(c.clone());
                slot.since.store(ms(), Ordering::Relaxed);
                let r = one(run, &c);
                slot.since.store(0, Ordering::Relaxed);
                n += 1;
                match r {
                    Ok(true) => { if local.len() < 400_000 { if local.insert(hash(&c)) && (samples.len() < 2 || local.len() % 50_000 == 0) { samples.push(c) } } true }
                    Ok(false) => true,
                    Err(_) => {
                        stop.store(true, Ordering::Relaxed);
                        let c = shrink(run, c);
                        let e = match one(run, &c) { Err(e) => e, Ok(_) => "not reproducible".into() };
                        let mut f = found.lock().unwrap();
                        if f.is_none() { *f = Some((c, e)) }
                        false
                    }
                }
            };
            // Exhaustive part: every threads-th case.
            let mut i = 0usize;
            let mut cut = false;
            ex(&mut |c| { i += 1; if i % threads != k { return true } let go = step(c) && (ms() as f64) < budget * 600.0; if !go { cut = true } go });
            exs.fetch_add((i / threads) as u64, Ordering::Relaxed);
            if !cut { exdone.fetch_add(1, Ordering::Relaxed); }
            let mut g = Gen::new(seed.wrapping_mul(1000).wrapping_add(k as u64 + 1), lits, hot);
            for _ in 0..20 { g.u(); }
            while (ms() as f64) < budget * 1000.0 {
                let c = rand(&mut g);
                if !step(c) { break }
            }
            drop(step);
            evals.fetch_add(n, Ordering::Relaxed);
            let mut s = seen.lock().unwrap();
            s.0.extend(local);
            s.1.extend(samples);
        }).unwrap());
    }
    let mut hung = None;
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break }
        for s in &slots {
            let t = s.since.load(Ordering::Relaxed);
            if t > 0 && ms().saturating_sub(t) > 10_000 { hung = s.case.lock().unwrap().clone(); }
        }
        if hung.is_some() { stop.store(true, Ordering::Relaxed); break }
        if ms() as f64 > budget * 1000.0 + 60_000.0 { break }
    }
    if let Some(c) = hung {
        // Let the others finish, prefer a plain failure.
        std::thread::sleep(Duration::from_millis(500));
        let f = found.lock().unwrap().clone();
        let (c, e) = f.unwrap_or((c, "did not terminate within 10 s".into()));
        println!("{}", json!({"violation": true, "error": e, "case": c.json(), "evaluations": evals.load(Ordering::Relaxed)}));
        std::process::exit(1);
    }
    for h in hs {
        if let Err(e) = h.join() {
            eprintln!("HARNESS thread panicked: {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())));
            std::process::exit(3)
        }
    }
    let s = seen.lock().unwrap();
    let f = found.lock().unwrap().clone();
    let base = json!({"evaluations": evals.load(Ordering::Relaxed), "distinct": s.0.len(), "exhaustive_cases": exs.load(Ordering::Relaxed),
        "exhaustive_done": exdone.load(Ordering::Relaxed) == threads as u64,
        "samples": s.1.iter().take(6).map(|c| { let mut c = c.clone(); c.p.iter_mut().for_each(|v| v.truncate(12)); c.json() }).collect::<Vec<_>>(), "wall": t0.elapsed().as_secs_f64()});
    let mut out = base.as_object().unwrap().clone();
    match f {
        Some((c, e)) => { out.insert("violation".into(), json!(true)); out.insert("error".into(), json!(e)); out.insert("case".into(), c.json()); println!("{}", serde_json::Value::Object(out)); std::process::exit(1) }
        None => { out.insert("violation".into(), json!(false)); println!("{}", serde_json::Value::Object(out)); }
    }
}
