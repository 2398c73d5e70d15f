mod common;
mod oracle;
mod props;
use common::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: harness <property> <seed> <max cases> <max seconds> <replay file> [case]");
        std::process::exit(2);
    }
    let pid = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let max: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let only: Option<u64> = a.get(6).map(|v| v.parse().unwrap());
    let f: fn(&mut Rng) -> R = match pid.as_str() {
        "P01" => props::p01,
        "P02" => props::p02,
        "P03" => props::p03,
        "P04" => props::p04,
        "P05" => props::p05,
        "P06" => props::p06,
        "P07" => props::p07,
        "P08" => props::p08,
        "P09" => props::p09,
        "P10" => props::p10,
        "P11" => props::p11,
        "P12" => props::p12,
        "P13" => props::p13,
        "P14" => props::p14,
        "P15" => props::p15,
        "P16" => props::p16,
        "P17" => props::p17,
        "P18" => props::p18,
        "P19" => props::p19,
        "P20" => props::p20,
        "P21" => props::p21,
        "P22" => props::p22,
        "P23" => props::p23,
        "P24" => props::p24,
        _ => {
            eprintln!("unknown property");
            std::process::exit(2)
        }
    };
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        *m2.lock().unwrap() = i.to_string();
    }));
    let t0 = Instant::now();
    // watchdog: a case takes milliseconds; one that does not end within two minutes is reported as a hang
    let cur = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(only.unwrap_or(0)));
    {
        let (cur, pid, rp) = (cur.clone(), pid.clone(), a[5].clone());
        let limit: u64 = std::env::var("VERIF_HANG_S").ok().and_then(|v| v.parse().ok()).unwrap_or(120);
        std::thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let c = cur.load(std::sync::atomic::Ordering::Relaxed);
                if c != last {
                    last = c;
                    since = Instant::now();
                } else if since.elapsed().as_secs() > limit {
                    let j = serde_json::json!({"property": pid, "kind": "failing-input", "seed": seed, "case": c,
                        "what": format!("case did not terminate within {} s", limit),
                        "replay": format!("harness {} {} 1 600 /dev/null {}", pid, seed, c)});
                    std::fs::write(&rp, serde_json::to_string_pretty(&j).unwrap()).ok();
                    println!("FAIL {} case {}: no termination within {} s", pid, c, limit);
                    std::process::exit(1);
                }
            }
        });
    }
    let curf = std::fs::File::create(format!("{}.cur", a[5])).ok();
    let mut n = 0u64;
    let mut distinct = std::collections::HashSet::new();
    let mut case = only.unwrap_or(0);
    loop {
        CTX.with(|c| c.borrow_mut().clear());
        let mut r = Rng(seed.wrapping_mul(0x1000_0001_B3).wrapping_add(case).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ pid.bytes().fold(7, |h, b| h * 131 + b as u64));
        r.next();
        cur.store(case, std::sync::atomic::Ordering::Relaxed);
        if let Some(f) = &curf {
            // survives an abort (stack overflow): names the case that was running
            use std::os::unix::fs::FileExt;
            f.write_all_at(&case.to_le_bytes(), 0).ok();
        }
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut r)));
        let err = match res {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panic on valid input: {}", msg.lock().unwrap())),
        };
        n += 1;
        if distinct.len() < 4_000_000 {
            use std::hash::{Hash, Hasher};
            let mut hs = std::collections::hash_map::DefaultHasher::new();
            let used = CTX.with(|c| c.borrow().hash(&mut hs)) == () && CTX.with(|c| !c.borrow().is_empty());
            if used {
                distinct.insert(hs.finish());
            }
        }
        if let Some(e) = err {
            let c = CTX.with(|c| c.borrow().clone());
            let j = serde_json::json!({"property": pid, "kind": "failing-input", "seed": seed, "case": case, "what": e,
                "replay": format!("harness {} {} 1 600 /dev/null {}", pid, seed, case), "input": c.lines().collect::<Vec<_>>()});
            std::fs::write(&a[5], serde_json::to_string_pretty(&j).unwrap()).ok();
            println!("FAIL {} case {}: {}", pid, case, e.replace('\n', " "));
            std::process::exit(1);
        }
        case += 1;
        if only.is_some() || n >= max || t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    println!("OK {} cases {} distinct {} in {:.1}s", pid, n, distinct.len(), t0.elapsed().as_secs_f64());
}
