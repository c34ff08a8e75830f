//! Clients as coroutines or as parked operating-system threads; in both cases the scheduler alone decides who
//! runs, and only one of them ever does.
use crate::sys;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy)]
enum Where {
    Direct,
    Co(*const Yielder<(), ()>),
    Th(*const ThreadCtl),
}
thread_local! {
    static WHERE: Cell<Where> = const { Cell::new(Where::Direct) };
    /// this thread is handing over to the scheduler
    static PAUSING: Cell<bool> = const { Cell::new(false) };
    static KILLING: Cell<bool> = const { Cell::new(false) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

pub struct Killed;

/// A scheduling point. The caller's allocation regime and position survive it.
pub fn yield_now() {
    let w = WHERE.with(|w| w.get());
    if matches!(w, Where::Direct) {
        return;
    }
    let armed = sys::arm(false);
    let op = sys::CUR_OP.swap(0, Ordering::Relaxed);
    match w {
        Where::Co(y) => {
            unsafe { (*y).suspend(()) };
            WHERE.with(|c| c.set(w));
        }
        Where::Th(t) => {
            PAUSING.with(|p| p.set(true));
            unsafe { (*t).pause() };
            PAUSING.with(|p| p.set(false));
        }
        Where::Direct => (),
    }
    sys::CUR_OP.store(op, Ordering::Relaxed);
    sys::arm(armed);
}

/// Is this code running in a client that the scheduler can suspend?
pub fn can_yield() -> bool {
    !matches!(WHERE.with(|w| w.get()), Where::Direct) && !PAUSING.with(|p| p.get()) && !being_killed()
}

/// True while the current client is being torn down.
pub fn being_killed() -> bool {
    KILLING.with(|k| k.get())
}

#[derive(PartialEq, Eq, Clone, Copy)]
enum Baton {
    Scheduler,
    Client,
    Kill,
    Done,
}
pub struct ThreadCtl {
    baton: Mutex<Baton>,
    cv: Condvar,
}
impl ThreadCtl {
    fn give(&self, to: Baton) {
        *self.baton.lock().unwrap() = to;
        self.cv.notify_all();
    }
    fn wait(&self, f: impl Fn(Baton) -> bool) -> Baton {
        let mut b = self.baton.lock().unwrap();
        while !f(*b) {
            b = self.cv.wait(b).unwrap();
        }
        *b
    }
    fn pause(&self) {
        self.give(Baton::Scheduler);
        if self.wait(|b| b == Baton::Client || b == Baton::Kill) == Baton::Kill {
            KILLING.with(|k| k.set(true));
            resume_unwind(Box::new(Killed));
        }
    }
}

pub enum Host {
    Co(Option<Coroutine<(), (), (), DefaultStack>>),
    Th(Arc<ThreadCtl>, Option<std::thread::JoinHandle<()>>),
}

struct SendIt<T>(T);
unsafe impl<T> Send for SendIt<T> {}
impl<T> SendIt<T> {
    fn get(self) -> T {
        self.0
    }
}

impl Host {
    /// # Safety
    /// everything the body borrows must outlive the host
    pub unsafe fn coroutine(body: Box<dyn FnOnce()>) -> Host {
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(512 * 1024).unwrap());
        Host::Co(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            WHERE.with(|w| w.set(Where::Co(y)));
            body();
        })))
    }
    /// # Safety
    /// as above; the body is only ever run while the scheduler waits
    pub unsafe fn thread(body: Box<dyn FnOnce()>) -> Host {
        let ctl = Arc::new(ThreadCtl { baton: Mutex::new(Baton::Scheduler), cv: Condvar::new() });
        let c2 = ctl.clone();
        let body = SendIt(body);
        let h = std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn(move || {
                let body = body.get();
                if c2.wait(|b| b == Baton::Client || b == Baton::Kill) == Baton::Client {
                    WHERE.with(|w| w.set(Where::Th(&*c2)));
                    let _ = catch_unwind(AssertUnwindSafe(body));
                }
                sys::arm(false);
                PAUSING.with(|p| p.set(true));
                c2.give(Baton::Done);
            })
            .expect("harness: thread");
        Host::Th(ctl, Some(h))
    }
    /// Runs the client to its next scheduling point; true when it has finished.
    pub fn resume(&mut self) -> bool {
        match self {
            Host::Co(c) => {
                let done = matches!(c.as_mut().unwrap().resume(()), CoroutineResult::Return(()));
                WHERE.with(|w| w.set(Where::Direct));
                sys::arm(false);
                if done {
                    self.recycle();
                }
                done
            }
            Host::Th(ctl, h) => {
                ctl.give(Baton::Client);
                let b = ctl.wait(|b| b == Baton::Scheduler || b == Baton::Done);
                if b == Baton::Done {
                    h.take().unwrap().join().expect("harness: join");
                }
                b == Baton::Done
            }
        }
    }
    /// The client stops where it is and is torn down.
    pub fn kill(&mut self) {
        match self {
            Host::Co(c) => {
                if c.as_ref().is_some_and(|c| c.started() && !c.done()) {
                    KILLING.with(|k| k.set(true));
                    c.as_mut().unwrap().force_unwind();
                    KILLING.with(|k| k.set(false));
                }
                WHERE.with(|w| w.set(Where::Direct));
                sys::arm(false);
                if c.as_ref().is_some_and(|c| c.started()) {
                    self.recycle();
                } else {
                    *self = Host::Co(None);
                }
            }
            Host::Th(ctl, h) => {
                if let Some(h) = h.take() {
                    ctl.give(Baton::Kill);
                    ctl.wait(|b| b == Baton::Done);
                    h.join().expect("harness: join");
                }
            }
        }
    }
    fn recycle(&mut self) {
        if let Host::Co(c) = self {
            if let Some(c) = c.take() {
                if c.done() {
                    let st = c.into_stack();
                    STACKS.with(|s| s.borrow_mut().push(st));
                }
            }
        }
    }
}
