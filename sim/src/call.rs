//! Boundary of every library call: accounting on, panics captured, injected
//! aborts told apart from genuine ones.
use crate::alloc::{self, Usage};
use crate::run::{self, Res};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Payload of an abort the simulator injects (a panicking sink).
pub struct Injected;

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static OUTSIDE: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn text_of(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_owned()
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _h = alloc::harness();
        let loc = i.location().map_or("?".to_owned(), |l| {
            let f = l.file();
            let f = f.rsplit("/repo/").next().unwrap_or(f);
            format!("{}:{}", f, l.line())
        });
        let msg = text_of(i.payload());
        let lib = DEPTH.with(|d| d.get()) > 0 && OUTSIDE.with(|o| o.get()) == 0;
        if lib {
            LAST.with(|l| *l.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            eprintln!("harness panic: {msg} at {loc}");
            run::harness_failed(&format!("{msg} at {loc}"));
        }
    }));
}

/// Code of ours running inside a callback of a library call.
pub struct Outside(alloc::Harness);
pub fn outside() -> Outside {
    OUTSIDE.with(|o| o.set(o.get() + 1));
    Outside(alloc::harness())
}
impl Drop for Outside {
    fn drop(&mut self) {
        let _ = &self.0;
        let _ = OUTSIDE.try_with(|o| o.set(o.get() - 1));
    }
}

pub enum Got<R> {
    Ok(R),
    /// ended by an abort we injected
    Aborted,
}

/// A library call that may be cut short by an injected abort.
pub fn lib_may_abort<R>(what: &str, f: impl FnOnce() -> R) -> Res<(Got<R>, Usage)> {
    let out = OUTSIDE.with(|o| o.replace(0));
    DEPTH.with(|d| d.set(d.get() + 1));
    let o = alloc::lib_enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    let u = alloc::lib_leave(o);
    DEPTH.with(|d| d.set(d.get() - 1));
    OUTSIDE.with(|x| x.set(out));
    match r {
        Ok(v) => Ok((Got::Ok(v), u)),
        Err(p) if p.is::<Injected>() => {
            run::hit("fault.call-aborted");
            Ok((Got::Aborted, u))
        }
        Err(p) => {
            let m = LAST
                .with(|l| l.borrow_mut().take())
                .unwrap_or_else(|| text_of(&*p));
            Err(run::violation("panic", format!("{what} panicked: {m}")))
        }
    }
}

pub fn lib_u<R>(what: &str, f: impl FnOnce() -> R) -> Res<(R, Usage)> {
    match lib_may_abort(what, f)? {
        (Got::Ok(r), u) => Ok((r, u)),
        (Got::Aborted, _) => panic!("unexpected injected abort in {what}"),
    }
}

pub fn lib<R>(what: &str, f: impl FnOnce() -> R) -> Res<R> {
    lib_u(what, f).map(|x| x.0)
}
