//! One execution: its seed, its event log, the monitors' verdicts on it.
use super::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::fmt;
use std::sync::{Arc, Mutex, MutexGuard};

const LOG_CAP: usize = 48 * 1024;

#[derive(Default)]
pub struct Inner {
    pub log: String,
    pub dropped_lines: u64,
    pub fp: u64,
    pub events: u64,
    pub checks: u64,
    pub nontrivial: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub violations: Vec<String>,
}

/// Cheap clonable handle to the state of one case.
#[derive(Clone)]
pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    inner: Arc<Mutex<Inner>>,
}

impl Case {
    pub fn new(seed: u64, thorough: bool) -> Case {
        Case {
            rng: Rng::new(seed),
            seed,
            thorough,
            inner: Arc::new(Mutex::new(Inner::default())),
        }
    }
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Record one observed event.
    pub fn ev(&self, args: fmt::Arguments<'_>) {
        use std::fmt::Write;
        let mut i = self.lock();
        i.events += 1;
        let start = i.log.len();
        if start < LOG_CAP {
            let _ = i.log.write_fmt(args);
            let mut h = i.fp;
            for b in i.log.as_bytes()[start..].iter() {
                h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
            }
            i.fp = mix(h);
            i.log.push('\n');
        } else {
            let s = fmt::format(args);
            let mut h = i.fp;
            for b in s.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            i.fp = mix(h);
            i.dropped_lines += 1;
        }
    }
    /// Mix something into the fingerprint without logging it.
    pub fn fp(&self, x: u64) {
        let mut i = self.lock();
        i.fp = mix(i.fp ^ x);
    }
    /// The case exercised what its rule calls non-trivial.
    pub fn nontrivial(&self) {
        self.lock().nontrivial = true;
    }
    pub fn count(&self, what: &'static str, n: u64) {
        *self.lock().counts.entry(what).or_insert(0) += n;
    }
    pub fn fail(&self, msg: impl Into<String>) {
        let msg = msg.into();
        self.ev(format_args!("!! {}", msg));
        let mut i = self.lock();
        if i.violations.len() < 8 {
            i.violations.push(msg);
        }
    }
    /// A monitor's judgement: counted, and recorded when false.
    #[track_caller]
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.lock().checks += 1;
        if !ok {
            let at = std::panic::Location::caller();
            let m = msg();
            self.fail(format!("{} [{}:{}]", m, short(at.file()), at.line()));
        }
        ok
    }
    pub fn violated(&self) -> bool {
        !self.lock().violations.is_empty()
    }
    pub fn take(&self) -> Inner {
        std::mem::take(&mut *self.lock())
    }
}

fn short(f: &str) -> &str {
    f.rsplit('/').next().unwrap_or(f)
}

#[macro_export]
macro_rules! ev {
    ($c:expr, $($t:tt)*) => { $c.ev(format_args!($($t)*)) };
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $ok:expr, $($t:tt)*) => {{
        // evaluated first, so that no lock taken in the condition is held by the message
        let ok: bool = $ok;
        $c.check(ok, || format!($($t)*))
    }};
}
