//! The library's two ways out into the environment: the `log` facade and the
//! writers it renders into. Both are simulated and can fail, abort the caller
//! or call back into the library.
use crate::call::{outside, Injected};
use crate::{ch, run, sched};
use std::cell::{Cell, RefCell};
use std::fmt;

type Hook = Box<dyn FnMut()>;

thread_local! {
    /// Some(n): the n-th next log call aborts the caller
    static ABORT: Cell<Option<u64>> = const { Cell::new(None) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static CAPTURE: RefCell<Option<Vec<(log::Level, String)>>> = const { RefCell::new(None) };
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !r.target().starts_with("webrtc_sdp") {
            return;
        }
        let _o = outside();
        run::hit("seam.log-call");
        sched::yield_point(sched::At::Log);
        // every real sink formats the record
        let said = r.args().to_string();
        CAPTURE.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                if let Some(v) = c.as_mut() {
                    v.push((r.level(), said));
                }
            }
        });
        if let Some(n) = ABORT.with(|a| a.get()) {
            if n == 0 {
                ABORT.with(|a| a.set(None));
                run::hit("fault.log-sink-abort");
                drop(_o);
                std::panic::resume_unwind(Box::new(Injected));
            }
            ABORT.with(|a| a.set(Some(n - 1)));
        }
        let hook = HOOK.with(|h| h.borrow_mut().take());
        if let Some(mut f) = hook {
            run::hit("fault.log-sink-reenters");
            f();
            // stays taken: one re-entrance per arming
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Off);
}
/// Log level knob of the run: 0 = off.
pub fn draw_level() -> log::LevelFilter {
    let l = *ch::pick(&[
        log::LevelFilter::Off,
        log::LevelFilter::Warn,
        log::LevelFilter::Trace,
    ]);
    log::set_max_level(l);
    l
}
pub fn abort_at(n: Option<u64>) {
    ABORT.with(|a| a.set(n));
}
pub fn reenter(f: Option<Hook>) -> bool {
    HOOK.with(|h| {
        let had = h.borrow().is_some();
        *h.borrow_mut() = f;
        had
    })
}
pub fn capture(on: bool) -> Vec<(log::Level, String)> {
    CAPTURE.with(|c| std::mem::replace(&mut *c.borrow_mut(), if on { Some(Vec::new()) } else { None }))
        .unwrap_or_default()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fail {
    Never,
    /// the write that would exceed this many bytes fails (a full or broken sink)
    After(usize),
    /// the n-th write fails, later ones would succeed
    Nth(usize),
    /// the n-th write aborts the caller
    Abort(usize),
}

/// A text sink.
pub struct Text {
    pub got: String,
    pub fail: Fail,
    pub writes: usize,
    pub failed: u64,
    /// bytes accepted when the first failure happened
    pub at_failure: Option<usize>,
    /// keep part of the chunk that fails (torn write)
    pub torn: bool,
}
impl Text {
    pub fn new(fail: Fail) -> Text {
        Text {
            got: String::new(),
            fail,
            writes: 0,
            failed: 0,
            at_failure: None,
            torn: false,
        }
    }
}
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let o = outside();
        sched::yield_point(sched::At::Sink);
        self.writes += 1;
        let bad = match self.fail {
            Fail::Never => false,
            Fail::After(n) => self.got.len() + s.len() > n,
            Fail::Nth(n) => self.writes == n + 1,
            Fail::Abort(n) => self.writes == n + 1,
        };
        if bad {
            self.failed += 1;
            if self.at_failure.is_none() {
                self.at_failure = Some(self.got.len());
            }
            if let Fail::Abort(_) = self.fail {
                run::hit("fault.text-sink-abort");
                drop(o);
                std::panic::resume_unwind(Box::new(Injected));
            }
            run::hit("fault.text-sink-error");
            if self.torn {
                if let Fail::After(n) = self.fail {
                    let mut k = n - self.got.len();
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.got.push_str(&s[..k]);
                    run::hit("fault.text-sink-torn");
                }
            }
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// A byte sink: short writes, interruptions, errors, aborts.
pub struct Bytes {
    pub got: Vec<u8>,
    pub fail: Fail,
    pub short: bool,
    pub writes: usize,
    pub failed: u64,
}
impl Bytes {
    pub fn new(fail: Fail, short: bool) -> Bytes {
        Bytes {
            got: Vec::new(),
            fail,
            short,
            writes: 0,
            failed: 0,
        }
    }
}
impl std::io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let o = outside();
        sched::yield_point(sched::At::Sink);
        self.writes += 1;
        let bad = match self.fail {
            Fail::Never => false,
            Fail::After(n) => self.got.len() + b.len() > n,
            Fail::Nth(n) | Fail::Abort(n) => self.writes == n + 1,
        };
        if bad {
            self.failed += 1;
            if let Fail::Abort(_) = self.fail {
                run::hit("fault.byte-sink-abort");
                drop(o);
                std::panic::resume_unwind(Box::new(Injected));
            }
            if let Fail::After(n) = self.fail {
                let k = n - self.got.len();
                if k > 0 {
                    self.got.extend_from_slice(&b[..k]);
                    run::hit("fault.byte-sink-full");
                    return Ok(k);
                }
                run::hit("fault.byte-sink-full");
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "device full"));
            }
            run::hit("fault.byte-sink-error");
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken pipe"));
        }
        if self.short && b.len() > 1 {
            if self.writes % 5 == 3 {
                run::hit("fault.byte-sink-interrupted");
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "EINTR"));
            }
            let k = 1 + ch::us(b.len());
            let k = k.min(b.len());
            if k < b.len() {
                run::hit("fault.byte-sink-short-write");
            }
            self.got.extend_from_slice(&b[..k]);
            return Ok(k);
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
