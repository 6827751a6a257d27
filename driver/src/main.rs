mod ctx;
mod gen;
mod model;
mod rng;
mod suites;

use ctx::{Db, Failure, Shared, SHARED};
use rng::Rng;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let suite = args.get(1).cloned().unwrap_or_default();
    let mut seed = 1u64;
    let mut cases = u64::MAX;
    let mut time_ms = 10_000u64;
    let mut out = None;
    let mut only: Option<u64> = None;
    let mut prop = "*".to_string();
    let mut from = 0u64;
    let mut stride = 1u64;
    let mut i = 2;
    while i + 1 < args.len() + 1 && i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--cases" => cases = v.parse().unwrap(),
            "--time-ms" => time_ms = v.parse().unwrap(),
            "--out" => out = Some(std::path::PathBuf::from(v)),
            "--only" => only = Some(v.parse().unwrap()),
            "--prop" => prop = v,
            "--from" => from = v.parse().unwrap(),
            "--stride" => stride = v.parse().unwrap(),
            other => panic!("unknown argument {other}"),
        }
        i += 2;
    }
    let Some(f) = suites::find(&suite) else {
        eprintln!("unknown suite {suite}; known: {}", suites::names().join(" "));
        std::process::exit(2);
    };
    let start = Instant::now();
    *SHARED.lock().unwrap() = Some(Shared {
        suite: suite.clone(),
        prop: prop.clone(),
        seed,
        out,
        case: 0,
        case_start: Instant::now(),
        start,
        trace: vec![],
        stats: BTreeMap::new(),
        foreign: 0,
        foreign_samples: vec![],
        scratch: vec![],
    });
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        ctx::die(Failure { tags: vec!["*"], what: format!("panic: {msg}") });
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let hung = {
            let g = SHARED.lock().unwrap_or_else(|e| e.into_inner());
            g.as_ref().map_or(false, |s| s.case_start.elapsed() > Duration::from_secs(30))
        };
        if hung {
            ctx::die(Failure { tags: vec!["*"], what: "hang: no result within 30 s".into() });
        }
    });

    let mut db = Db::new();
    let mut done = 0u64;
    let mut idx = only.unwrap_or(from);
    loop {
        {
            let mut g = SHARED.lock().unwrap();
            let s = g.as_mut().unwrap();
            s.case = idx;
            s.trace.clear();
            s.case_start = Instant::now();
        }
        db.uses += 1;
        if db.uses > 150 {
            db.recycle();
        }
        let mut r = Rng::new(seed, &suite, idx);
        let res = f(&mut db, &mut r, idx);
        done += 1;
        if let Err(e) = res {
            let mine = prop == "*" || e.tags.iter().any(|t| *t == "*" || *t == prop);
            if mine {
                ctx::die(e);
            }
            let mut g = SHARED.lock().unwrap();
            let s = g.as_mut().unwrap();
            s.foreign += 1;
            if s.foreign_samples.len() < 3 {
                s.foreign_samples.push(format!("{:?} {}", e.tags, e.what));
            }
            drop(g);
            db.recycle();
        }
        if only.is_some() || done >= cases || start.elapsed() > Duration::from_millis(time_ms) {
            break;
        }
        idx += stride;
    }
    db.db = None;
    ctx::report(None, done);
    ctx::cleanup_scratch();
}
