//! A controlled, single-threaded scheduler for the asynchronous code under test, with virtual time.
use std::{
    cell::{Cell, RefCell},
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

use flarch::tasks::mc::{self, McFuture};

use crate::engine::{take_panic, Ctx};

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
}

struct Timer {
    at: i64,
    fired: bool,
    waker: Option<Waker>,
}

struct Inner {
    tasks: RefCell<Vec<Task>>,
    new: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>>,
    now: Cell<i64>,
    timers: RefCell<Vec<Arc<Mutex<Timer>>>>,
    ends: RefCell<Vec<Box<dyn FnOnce()>>>,
}

/// Where other tasks may be scheduled.
#[derive(Clone, Copy, Debug)]
pub enum Mode {
    /// One fixed schedule: continue the running task, then first in first out.
    Fifo,
    /// All schedules which differ from the fixed one in at most n places.
    Delay(usize),
    /// All schedules with at most n preemptions of a task that could continue.
    Preempt(usize),
    /// All schedules.
    All,
}

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

struct Sleep(Arc<Mutex<Timer>>);
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut t = self.0.lock().unwrap();
        if t.fired {
            Poll::Ready(())
        } else {
            t.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

struct Rt {
    inner: Rc<Inner>,
    yields: Cell<bool>,
}

impl mc::Runtime for Rt {
    fn spawn(&self, f: McFuture) {
        self.inner.new.borrow_mut().push(f);
    }
    fn now(&self) -> i64 {
        self.inner.now.get()
    }
    fn sleep(&self, dur: Duration) -> McFuture {
        let t = Arc::new(Mutex::new(Timer {
            at: self.inner.now.get() + dur.as_millis() as i64,
            fired: dur.is_zero(),
            waker: None,
        }));
        self.inner.timers.borrow_mut().push(t.clone());
        Box::pin(Sleep(t))
    }
    fn yield_point(&self) -> McFuture {
        Box::pin(Yield(!self.yields.get()))
    }
    fn at_end(&self, f: Box<dyn FnOnce()>) {
        self.inner.ends.borrow_mut().push(f);
    }
}

/// The result of a task spawned by the harness.
pub struct Handle<T>(Rc<RefCell<Option<T>>>);

impl<T> Handle<T> {
    pub fn done(&self) -> bool {
        self.0.borrow().is_some()
    }
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
}

pub struct Exec {
    inner: Rc<Inner>,
    rt: Rc<Rt>,
    last: Cell<usize>,
    /// Limits the length of one run, to detect systems that never get idle.
    pub max_polls: Cell<usize>,
    budget: Cell<usize>,
}

impl Exec {
    pub fn new() -> Self {
        let inner = Rc::new(Inner {
            tasks: RefCell::new(vec![]),
            new: RefCell::new(vec![]),
            now: Cell::new(1_700_000_000_000),
            timers: RefCell::new(vec![]),
            ends: RefCell::new(vec![]),
        });
        let rt = Rc::new(Rt {
            inner: inner.clone(),
            yields: Cell::new(false),
        });
        mc::install(Some(rt.clone()));
        Self {
            inner,
            rt,
            last: Cell::new(0),
            max_polls: Cell::new(200_000),
            budget: Cell::new(0),
        }
    }

    pub fn now(&self) -> i64 {
        self.inner.now.get()
    }

    /// Adds a task. It starts when the scheduler runs.
    pub fn spawn<T: 'static>(&self, f: impl Future<Output = T> + 'static) -> Handle<T> {
        let slot = Rc::new(RefCell::new(None));
        let slot_cl = slot.clone();
        self.inner.new.borrow_mut().push(Box::pin(async move {
            let v = f.await;
            *slot_cl.borrow_mut() = Some(v);
        }));
        Handle(slot)
    }

    fn adopt(&self) {
        let new: Vec<_> = self.inner.new.borrow_mut().drain(..).collect();
        let mut tasks = self.inner.tasks.borrow_mut();
        for fut in new {
            tasks.push(Task {
                fut: Some(fut),
                flag: Arc::new(Flag(AtomicBool::new(true))),
            });
        }
    }

    fn ready(&self) -> Vec<usize> {
        self.adopt();
        self.inner
            .tasks
            .borrow()
            .iter()
            .enumerate()
            .filter(|(_, t)| t.fut.is_some() && t.flag.0.load(Ordering::SeqCst))
            .map(|(i, _)| i)
            .collect()
    }

    fn poll(&self, c: &mut Ctx, i: usize) {
        let (mut fut, flag) = {
            let mut tasks = self.inner.tasks.borrow_mut();
            let t = &mut tasks[i];
            t.flag.0.store(false, Ordering::SeqCst);
            (t.fut.take().expect("future"), t.flag.clone())
        };
        let waker = Waker::from(flag);
        let mut cx = Context::from_waker(&waker);
        match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
            Ok(Poll::Pending) => {
                self.inner.tasks.borrow_mut()[i].fut = Some(fut);
            }
            Ok(Poll::Ready(())) => {}
            Err(p) => {
                std::mem::forget(p);
                let m = take_panic().unwrap_or("panic".into());
                c.fail("panic", format!("a task panicked: {m}"));
            }
        }
    }

    /// Runs all tasks until none can continue.
    pub fn run(&self, c: &mut Ctx, mode: Mode) {
        self.rt.yields.set(!matches!(mode, Mode::Fifo));
        self.budget.set(match mode {
            Mode::Fifo => 0,
            Mode::Delay(n) | Mode::Preempt(n) => n,
            Mode::All => usize::MAX,
        });
        self.cont(c, mode)
    }

    fn cont(&self, c: &mut Ctx, mode: Mode) {
        let mut polls = 0;
        loop {
            let ready = self.ready();
            if ready.is_empty() {
                break;
            }
            polls += 1;
            if polls > self.max_polls.get() {
                c.fail("no-quiescence", format!("the system is still busy after {polls} steps"));
            }
            let next = self.next(c, mode, ready);
            self.last.set(next);
            self.poll(c, next);
        }
        self.rt.yields.set(false);
    }

    fn next(&self, c: &mut Ctx, mode: Mode, mut ready: Vec<usize>) -> usize {
        let last = self.last.get();
        // The default: continue the last task, else the next one in a round-robin order.
        let cont = ready.contains(&last);
        ready.sort_by_key(|&i| if i >= last { (0, i) } else { (1, i) });
        if ready.len() == 1 {
            return ready[0];
        }
        match mode {
            Mode::Fifo => ready[0],
            Mode::All => ready[c.choose(ready.len())],
            Mode::Delay(_) => {
                let max = ready.len().min(self.budget.get() + 1);
                let ch = c.choose(max);
                self.budget.set(self.budget.get() - ch);
                ready[ch]
            }
            Mode::Preempt(_) => {
                if cont {
                    if self.budget.get() == 0 {
                        return ready[0];
                    }
                    let ch = c.choose(ready.len());
                    if ch > 0 {
                        self.budget.set(self.budget.get() - 1);
                    }
                    ready[ch]
                } else {
                    ready[c.choose(ready.len())]
                }
            }
        }
    }

    /// Runs the future with the fixed schedule. Fails if it doesn't complete.
    pub fn block<T: 'static>(&self, c: &mut Ctx, f: impl Future<Output = T> + 'static) -> T {
        let h = self.spawn(f);
        self.run(c, Mode::Fifo);
        match h.take() {
            Some(v) => v,
            None => c.fail("stuck", "an operation never completes"),
        }
    }

    pub fn idle(&self, c: &mut Ctx) {
        self.run(c, Mode::Fifo)
    }

    /// Advances the virtual time, and fires the timers which are due.
    pub fn advance(&self, ms: i64) {
        self.inner.now.set(self.inner.now.get() + ms);
        let now = self.inner.now.get();
        let mut timers = self.inner.timers.borrow_mut();
        let mut due: Vec<_> = vec![];
        timers.retain(|t| {
            let is = t.lock().unwrap().at <= now;
            if is {
                due.push(t.clone());
            }
            !is && Arc::strong_count(t) > 1
        });
        due.sort_by_key(|t| t.lock().unwrap().at);
        for t in due {
            let mut t = t.lock().unwrap();
            t.fired = true;
            if let Some(w) = t.waker.take() {
                w.wake();
            }
        }
    }

    /// Time until the next timer.
    pub fn next_timer(&self) -> Option<i64> {
        let now = self.now();
        self.inner
            .timers
            .borrow()
            .iter()
            .filter(|t| Arc::strong_count(t) > 1)
            .map(|t| t.lock().unwrap().at - now)
            .min()
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        // First the tasks, then everything which could hold a cycle.
        let _ = catch_unwind(AssertUnwindSafe(|| {
            for _ in 0..3 {
                let t: Vec<_> = self.inner.tasks.borrow_mut().drain(..).collect();
                drop(t);
                let n: Vec<_> = self.inner.new.borrow_mut().drain(..).collect();
                drop(n);
                let e: Vec<_> = self.inner.ends.borrow_mut().drain(..).collect();
                for f in e {
                    f();
                }
            }
        }));
        mc::install(None);
        let _ = take_panic();
    }
}
