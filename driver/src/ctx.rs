use polodb_core::{Database, Transaction};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

/// A property violation found by a case. `tags` are the properties it violates ("*" = any).
#[derive(Debug)]
pub struct Failure {
    pub tags: Vec<&'static str>,
    pub what: String,
}

pub type CaseResult = Result<(), Failure>;

pub fn fail<T>(tags: &[&'static str], what: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { tags: tags.to_vec(), what: what.into() })
}

#[macro_export]
macro_rules! ensure {
    ($tags:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::ctx::fail($tags, format!($($arg)*));
        }
    };
}

/// State shared with the panic hook and the watchdog.
pub struct Shared {
    pub suite: String,
    pub prop: String,
    pub seed: u64,
    pub out: Option<PathBuf>,
    pub case: u64,
    pub case_start: Instant,
    pub start: Instant,
    pub trace: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub foreign: u64,
    pub foreign_samples: Vec<String>,
    pub scratch: Vec<PathBuf>,
}

pub static SHARED: Mutex<Option<Shared>> = Mutex::new(None);

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn report(failure: Option<&Failure>, cases: u64) {
    let mut g = SHARED.lock().unwrap_or_else(|e| e.into_inner());
    let Some(s) = g.as_mut() else { return };
    let mut o = String::from("{\n");
    o += &format!(" \"suite\": {},\n \"prop\": {},\n \"seed\": {},\n \"cases\": {},\n \"elapsed_ms\": {},\n", esc(&s.suite), esc(&s.prop), s.seed, cases, s.start.elapsed().as_millis());
    o += &format!(" \"foreign\": {},\n \"foreign_samples\": [{}],\n", s.foreign, s.foreign_samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "));
    o += " \"stats\": {";
    o += &s.stats.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    o += "},\n";
    match failure {
        None => o += " \"failure\": null\n",
        Some(f) => {
            o += &format!(
                " \"failure\": {{\"case\": {}, \"tags\": [{}], \"what\": {}, \"trace\": [\n  {}\n ]}}\n",
                s.case,
                f.tags.iter().map(|t| esc(t)).collect::<Vec<_>>().join(", "),
                esc(&f.what),
                s.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",\n  ")
            );
        }
    }
    o.push_str("}\n");
    match &s.out {
        Some(p) => {
            let _ = std::fs::write(p, &o);
        }
        None => print!("{o}"),
    }
    if failure.is_some() {
        eprintln!("FAILURE {} case {}: {}", s.suite, s.case, failure.unwrap().what);
    }
}

pub fn cleanup_scratch() {
    let dirs: Vec<PathBuf> = {
        let mut g = SHARED.lock().unwrap_or_else(|e| e.into_inner());
        g.as_mut().map(|s| std::mem::take(&mut s.scratch)).unwrap_or_default()
    };
    for d in dirs {
        let _ = std::fs::remove_dir_all(d);
    }
}

fn current_case() -> u64 {
    SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map_or(0, |s| s.case)
}

pub fn die(f: Failure) -> ! {
    let c = current_case();
    report(Some(&f), c + 1);
    cleanup_scratch();
    std::process::exit(1)
}

pub fn stat(key: &str) {
    stat_n(key, 1)
}

pub fn stat_n(key: &str, n: u64) {
    if let Some(s) = SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        *s.stats.entry(key.to_string()).or_insert(0) += n;
    }
}

pub fn log(line: impl Into<String>) {
    let line = line.into();
    if let Some(s) = SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        s.trace.push(line);
    }
}

/// A database in a scratch directory of its own.
pub struct Db {
    pub db: Option<Database>,
    pub path: PathBuf,
    pub uses: u64,
    serial: u64,
}

thread_local! {
    static COUNTER: RefCell<u64> = const { RefCell::new(0) };
}

pub fn scratch_dir(label: &str) -> PathBuf {
    let base = std::env::var_os("POLODB_VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|| {
        let shm = PathBuf::from("/dev/shm");
        if shm.is_dir() { shm } else { std::env::temp_dir() }
    });
    let n = COUNTER.with(|c| {
        *c.borrow_mut() += 1;
        *c.borrow()
    });
    let p = base.join(format!("polodb-verif-{}-{}-{}", std::process::id(), label, n));
    let _ = std::fs::remove_dir_all(&p);
    if std::fs::create_dir_all(&p).is_err() {
        let q = std::env::temp_dir().join(p.file_name().unwrap());
        std::fs::create_dir_all(&q).expect("scratch directory");
        if let Some(s) = SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            s.scratch.push(q.clone());
        }
        return q;
    }
    if let Some(s) = SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        s.scratch.push(p.clone());
    }
    p
}

impl Db {
    pub fn new() -> Db {
        let path = scratch_dir("db");
        let db = Database::open_path(path.join("db")).expect("open database");
        Db { db: Some(db), path, uses: 0, serial: 0 }
    }
    pub fn get(&self) -> &Database {
        self.db.as_ref().unwrap()
    }
    pub fn txn(&self) -> Transaction {
        self.get().start_transaction().expect("start transaction")
    }
    /// A collection name no earlier case used.
    pub fn fresh(&mut self) -> String {
        self.serial += 1;
        format!("t{}", self.serial)
    }
    pub fn recycle(&mut self) {
        self.db = None;
        let _ = std::fs::remove_dir_all(&self.path);
        *self = Db::new();
    }
    pub fn reopen(&mut self) {
        self.db = None;
        self.db = Some(Database::open_path(self.path.join("db")).expect("reopen database"));
    }
}

/// the property whose failures are wanted ("*": all)
pub fn wanted() -> String {
    SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map_or_else(|| "*".to_string(), |s| s.prop.clone())
}
