//! Per-case context: counters, samples, violations, guarded calls into the library.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;

pub struct Ctx {
    pub counters: BTreeMap<&'static str, u64>,
    pub scratch: PathBuf,
    pub bin: Option<PathBuf>,
    /// the input of the current case, for the replay file and the distinct count
    pub input: String,
    /// 0 for native speed; larger values shrink the workload (Miri, valgrind)
    pub small: bool,
    pub nontrivial: bool,
}

pub type Res = Result<(), String>;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        LAST.with(|l| *l.borrow_mut() = text.clone());
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = text;
        }
    }));
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Runs code of the library; Err with the panic message if it panicked.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = last_panic();
            if m.starts_with("oracle overflow") || m.starts_with("generator") {
                std::panic::resume_unwind(e);
            }
            Err(m)
        }
    }
}

impl Ctx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) { return Err(format!($($a)*)); }
    };
}
