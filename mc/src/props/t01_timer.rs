//! T01: the timer.
use std::{cell::RefCell, rc::Rc};

use flarch::{
    broker::{Broker, SubsystemHandler},
    platform_async_trait,
    tasks::wait_ms,
};
use flmodules::timer::{Timer, TimerMessage};
use tokio::sync::mpsc::UnboundedReceiver;

use crate::{
    engine::*,
    exec::{Exec, Mode},
};

pub fn prop() -> Prop {
    Prop {
        id: "T01",
        level: "exploration",
        rule: "every history of passing time, new subscriptions of all kinds, slow and removed subscribers is executed on the running timer \
               with virtual time, and every subscriber is compared with the number of ticks due; distinct_nontrivial counts different \
               (history, ticks received)",
        assumptions: &["the interval catches up with missed ticks like tokio's default interval"],
        scenarios,
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Tick(usize);

/// A handler that takes its time
struct Slow(u64);

#[platform_async_trait()]
impl SubsystemHandler<Tick, ()> for Slow {
    async fn messages(&mut self, msgs: Vec<Tick>) -> Vec<()> {
        for _ in msgs {
            wait_ms(self.0).await;
        }
        vec![]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    TapOut,
    FnSecond,
    FnMinute,
    TickSecond,
    TickMinute,
    TickOf(bool),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Pass(i64),
    Sub(Kind),
    Slow(Kind),
    /// Drops all handles of the n-th last subscriber
    Drop(usize),
    /// Unsubscribes the tap of the n-th last subscriber
    Close(usize),
}

enum Rx {
    Timer(UnboundedReceiver<TimerMessage>),
    Tick(UnboundedReceiver<Tick>),
}

struct Sub {
    kind: Kind,
    n: usize,
    _broker: Option<Broker<Tick, ()>>,
    rx: Option<Rx>,
    /// How many ticks were due at the subscription
    from: usize,
    slow: bool,
    got: Vec<TimerMessage>,
}

/// The first n ticks: after every 60 seconds there is a minute.
fn due(n: usize, from: usize) -> Vec<TimerMessage> {
    let mut ret = vec![];
    for i in from + 1..=n {
        ret.push(TimerMessage::Second);
        if i % 60 == 0 {
            ret.push(TimerMessage::Minute);
        }
    }
    ret
}

struct World {
    x: Exec,
    timer: Timer,
    subs: Vec<Sub>,
    /// Ticks at the start
    first: usize,
    passed: i64,
}

fn start(c: &mut Ctx) -> World {
    let x = Exec::new();
    x.max_polls.set(2_000_000);
    let (timer, mut tap) = {
        let slot = Rc::new(RefCell::new(None));
        let s2 = slot.clone();
        // The tap is there before the first tick
        x.block(c, async move {
            let mut t = Timer::start().await.expect("start");
            let tap = t.broker.get_tap_out().await.expect("tap").0;
            *s2.borrow_mut() = Some((t, tap));
        });
        let v = slot.borrow_mut().take().expect("timer");
        v
    };
    let mut first = 0;
    while let Ok(m) = tap.try_recv() {
        c.check(m == TimerMessage::Second, "first", || format!("{m:?}"));
        first += 1;
    }
    c.check(first <= 1, "first", || format!("{first} ticks at the start"));
    World {
        x,
        timer,
        subs: vec![],
        first,
        passed: 0,
    }
}

impl World {
    fn ticks(&self) -> usize {
        self.first + (self.passed / 1000) as usize
    }

    fn subscribe(&mut self, c: &mut Ctx, kind: Kind, slow: bool) {
        let n = self.subs.len();
        let mut t = self.timer.clone();
        let (broker, rx) = self.x.block(c, async move {
            if kind == Kind::TapOut {
                return (None, Rx::Timer(t.broker.get_tap_out().await.expect("tap").0));
            }
            let mut b: Broker<Tick, ()> = Broker::new();
            let rx = b.get_tap_in().await.expect("tap").0;
            if slow {
                b.add_handler(Box::new(Slow(90_000))).await.expect("handler");
            }
            let m = Tick(n);
            match kind {
                Kind::FnSecond => Timer::second(t.broker.clone(), b.clone(), m).await,
                Kind::FnMinute => Timer::minute(t.broker.clone(), b.clone(), m).await,
                Kind::TickSecond => t.tick_second(b.clone(), m).await,
                Kind::TickMinute => t.tick_minute(b.clone(), m).await,
                Kind::TickOf(s) => t.tick(b.clone(), m, if s { TimerMessage::Second } else { TimerMessage::Minute }).await,
                Kind::TapOut => unreachable!(),
            }
            .expect("subscribe");
            (Some(b), Rx::Tick(rx))
        });
        let from = self.ticks();
        self.subs.push(Sub {
            kind,
            n,
            _broker: broker,
            rx: Some(rx),
            from,
            slow,
            got: vec![],
        });
    }

    fn check(&mut self, c: &mut Ctx, what: &dyn Fn() -> String) {
        let ticks = self.ticks();
        for s in self.subs.iter_mut() {
            let second = matches!(s.kind, Kind::FnSecond | Kind::TickSecond | Kind::TickOf(true));
            match &mut s.rx {
                None => continue,
                Some(Rx::Timer(rx)) => {
                    while let Ok(m) = rx.try_recv() {
                        s.got.push(m);
                    }
                }
                Some(Rx::Tick(rx)) => {
                    while let Ok(m) = rx.try_recv() {
                        c.check(m == Tick(s.n), "message", || format!("{m:?} for {}: {}", s.n, what()));
                        s.got.push(if second { TimerMessage::Second } else { TimerMessage::Minute });
                    }
                }
            }
            let mut want = due(ticks, s.from);
            if s.kind != Kind::TapOut {
                want.retain(|m| (*m == TimerMessage::Second) == second);
            }
            // A slow subscriber may get its ticks later.
            if s.slow {
                c.check(want.starts_with(&s.got), "slow", || format!("{} ticks instead of {}: {}", s.got.len(), want.len(), what()));
                continue;
            }
            let (kind, got) = (s.kind, &s.got);
            c.check(*got == want, "ticks", || {
                let secs = |l: &[TimerMessage]| l.iter().filter(|m| **m == TimerMessage::Second).count();
                format!(
                    "{kind:?} got {} seconds and {} minutes instead of {} and {}: {}",
                    secs(got),
                    got.len() - secs(got),
                    secs(&want),
                    want.len() - secs(&want),
                    what()
                )
            });
        }
    }
}

fn history(c: &mut Ctx, prefix: &[Ev], alphabet: &[Ev], depth: usize) {
    let mut w = start(c);
    let mut hist = vec![];
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() { prefix[step] } else { *c.pick(alphabet) };
        hist.push(e);
        c.step();
        c.label(|| format!("{e:?}"));
        let h = hist.clone();
        let what = move || format!("{h:?}");
        match e {
            Ev::Pass(ms) => {
                // Time doesn't stand still during a busy period: all ticks due are sent.
                w.passed += ms;
                w.x.advance(ms);
            }
            Ev::Sub(k) => w.subscribe(c, k, false),
            Ev::Slow(k) => w.subscribe(c, k, true),
            Ev::Drop(n) | Ev::Close(n) => {
                let len = w.subs.len();
                if n >= len {
                    return c.trivial();
                }
                let s = &mut w.subs[len - 1 - n];
                s.rx = None;
                if matches!(e, Ev::Drop(_)) {
                    s._broker = None;
                }
            }
        }
        w.x.idle(c);
        w.check(c, &what);
    }
    // Three more minutes, second by second
    let h = hist.clone();
    let what = move || format!("{h:?} and then three minutes");
    for _ in 0..185 {
        w.passed += 1000;
        w.x.advance(1000);
        w.x.idle(c);
    }
    w.check(c, &what);
    let got: Vec<usize> = w.subs.iter().map(|s| s.got.len()).collect();
    c.outcome(&(format!("{hist:?}"), got));
}

/// All schedules of the timer, its broker, and two subscribers
fn schedules(c: &mut Ctx, mode: Mode) {
    let mut w = start(c);
    let (a, b) = (*c.pick(&[Kind::FnSecond, Kind::TickSecond]), *c.pick(&[Kind::FnMinute, Kind::TickMinute]));
    w.subscribe(c, a, false);
    w.subscribe(c, b, false);
    w.subscribe(c, Kind::TapOut, false);
    let n = *c.pick(&[1000, 2000, 60000]);
    if n == 60000 {
        w.passed += 57000;
        w.x.advance(57000);
        w.x.idle(c);
        w.passed += 3000;
        w.x.advance(3000);
    } else {
        w.passed += n;
        w.x.advance(n);
    }
    w.x.run(c, mode);
    w.check(c, &|| format!("schedule, {n} ms"));
    c.step();
    c.outcome(&n);
}

fn scenarios(t: Tier) -> Vec<Scn> {
    use Kind::*;
    let all = [TapOut, FnSecond, FnMinute, TickSecond, TickMinute, TickOf(true), TickOf(false)];
    let mut a: Vec<Ev> = [1, 400, 600, 999, 1000, 1001, 2500, 59000, 60000, 61500].iter().map(|ms| Ev::Pass(*ms)).collect();
    a.extend([Ev::Sub(FnSecond), Ev::Sub(TickMinute), Ev::Slow(TickSecond), Ev::Drop(0), Ev::Close(1)]);
    let pre: Vec<Ev> = all.iter().map(|k| Ev::Sub(*k)).collect();
    let mut pre_slow = vec![Ev::Slow(FnSecond), Ev::Slow(TickMinute)];
    pre_slow.extend(pre.clone());
    let mut b: Vec<Ev> = [300, 1000, 30000, 60000].iter().map(|ms| Ev::Pass(*ms)).collect();
    for n in 0..9 {
        b.extend([Ev::Drop(n), Ev::Close(n)]);
    }
    let mut d: Vec<Ev> = all.iter().flat_map(|k| [Ev::Sub(*k), Ev::Slow(*k)]).collect();
    d.extend([Ev::Pass(500), Ev::Pass(30000), Ev::Drop(0)]);
    vec![
        Scn::exec("time", move |c: &mut Ctx| history(c, &pre, &a, t.pick(3, 4))),
        Scn::exec("removed subscribers", move |c: &mut Ctx| history(c, &pre_slow, &b, t.pick(2, 3))),
        Scn::exec("new subscribers", move |c: &mut Ctx| history(c, &[], &d, t.pick(3, 4))),
        Scn::exec("schedules", move |c: &mut Ctx| schedules(c, Mode::Delay(t.pick(2, 3)))),
    ]
}
