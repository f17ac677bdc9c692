//! B01-B04: the broker.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    rc::Rc,
    sync::{mpsc::Receiver, Arc, Mutex},
};

use flarch::{
    broker::{Broker, Destination, SubsystemHandler},
    tasks::mc::yield_point,
};
use flmacro::platform_async_trait;
use tokio::sync::mpsc::UnboundedReceiver;

use crate::{
    engine::*,
    exec::{Exec, Mode},
};

type B = Broker<u32, u64>;

/// Records all messages, and replies.
struct Rec {
    log: Arc<Mutex<Vec<u32>>>,
    replies: fn(u32) -> Vec<u64>,
    slow: bool,
    dropped: Arc<Mutex<usize>>,
}

impl Drop for Rec {
    fn drop(&mut self) {
        *self.dropped.lock().unwrap() += 1;
    }
}

#[platform_async_trait()]
impl SubsystemHandler<u32, u64> for Rec {
    async fn messages(&mut self, msgs: Vec<u32>) -> Vec<u64> {
        let mut out = vec![];
        for m in msgs {
            if self.slow {
                yield_point().await;
            }
            self.log.lock().unwrap().push(m);
            out.extend((self.replies)(m));
        }
        out
    }
}

type Log = Arc<Mutex<Vec<u32>>>;

fn rec(replies: fn(u32) -> Vec<u64>, slow: bool) -> (Box<Rec>, Log, Arc<Mutex<usize>>) {
    let log = Log::default();
    let dropped = Arc::new(Mutex::new(0));
    (
        Box::new(Rec {
            log: log.clone(),
            replies,
            slow,
            dropped: dropped.clone(),
        }),
        log,
        dropped,
    )
}

enum Tap<T> {
    Async(UnboundedReceiver<T>),
    Sync(Receiver<T>),
}

impl<T> Tap<T> {
    fn drain(&mut self) -> Vec<T> {
        let mut v = vec![];
        match self {
            Tap::Async(r) => {
                while let Ok(m) = r.try_recv() {
                    v.push(m);
                }
            }
            Tap::Sync(r) => {
                while let Ok(m) = r.try_recv() {
                    v.push(m);
                }
            }
        }
        v
    }
    fn closed(&mut self) -> bool {
        match self {
            Tap::Async(r) => matches!(r.try_recv(), Err(tokio::sync::mpsc::error::TryRecvError::Disconnected)),
            Tap::Sync(r) => matches!(r.try_recv(), Err(std::sync::mpsc::TryRecvError::Disconnected)),
        }
    }
}

async fn tap_in(b: &mut B, sync: bool) -> (Tap<u32>, usize) {
    if sync {
        let (r, i) = b.get_tap_in_sync().await.expect("tap");
        (Tap::Sync(r), i)
    } else {
        let (r, i) = b.get_tap_in().await.expect("tap");
        (Tap::Async(r), i)
    }
}

async fn tap_out(b: &mut B, sync: bool) -> (Tap<u64>, usize) {
    if sync {
        let (r, i) = b.get_tap_out_sync().await.expect("tap");
        (Tap::Sync(r), i)
    } else {
        let (r, i) = b.get_tap_out().await.expect("tap");
        (Tap::Async(r), i)
    }
}

// ---------------------------------------------------------------- B01

pub fn b01() -> Prop {
    Prop {
        id: "B01",
        level: "exploration",
        rule: "every schedule within the bound of emitters, broker task and subscribers is executed once; \
               distinct_nontrivial counts the different (order of emissions, order seen by every subscriber) observations",
        assumptions: &[
            "tasks are interleaved at await points and at the yield points of the hooks: the broker's queue is the only \
             shared state between emitters and broker task",
        ],
        scenarios: b01_scenarios,
    }
}

#[derive(Clone, Copy, Debug)]
enum Em {
    In,
    Out,
    InNoTap,
    OutNoTap,
}

fn val(e: usize, i: usize) -> u32 {
    (100 * (e + 1) + i) as u32
}

fn reply_a(m: u32) -> Vec<u64> {
    vec![1_000_000 + m as u64 * 10, 1_000_000 + m as u64 * 10 + 1]
}

fn reply_b(m: u32) -> Vec<u64> {
    if m % 2 == 0 {
        vec![2_000_000 + m as u64 * 10]
    } else {
        vec![]
    }
}

fn emitter_scn(name: &str, plans: Vec<Vec<Em>>, slow: bool, mode: Mode) -> Scn {
    Scn::exec(format!("{name} {plans:?} slow={slow} {mode:?}"), move |c| {
        let x = Exec::new();
        let (ha, log_a, _) = rec(reply_a, slow);
        let (hb, log_b, _) = rec(reply_b, false);
        let (mut b, mut ti, mut to) = x.block(c, async move {
            let mut b: B = Broker::new();
            let ti = vec![tap_in(&mut b, false).await.0, tap_in(&mut b, true).await.0];
            b.add_handler(ha).await.expect("handler");
            b.add_handler(hb).await.expect("handler");
            let to = vec![tap_out(&mut b, true).await.0, tap_out(&mut b, false).await.0];
            (b, ti, to)
        });
        let order = Rc::new(RefCell::new(vec![]));
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(e, plan)| {
                let mut b = b.clone();
                let plan = plan.clone();
                let order = order.clone();
                x.spawn(async move {
                    for (i, em) in plan.iter().enumerate() {
                        if i > 0 {
                            yield_point().await;
                        }
                        let v = val(e, i);
                        order.borrow_mut().push(v);
                        match em {
                            Em::In => b.emit_msg_in(v),
                            Em::Out => b.emit_msg_out(v as u64),
                            Em::InNoTap => b.emit_msg_in_dest(Destination::NoTap, v),
                            Em::OutNoTap => b.emit_msg_out_dest(Destination::NoTap, v as u64),
                        }
                        .expect("emit");
                    }
                })
            })
            .collect();
        x.run(c, mode);
        c.step();
        for h in hs {
            c.check(h.done(), "stuck", || "an emitter is stuck".into());
        }
        // What must have been received.
        let is = |v: u32, f: &dyn Fn(Em) -> bool| f(plans[v as usize / 100 - 1][v as usize % 100]);
        let order = order.borrow().clone();
        let exp_ti: Vec<u32> = order.iter().cloned().filter(|v| is(*v, &|e| matches!(e, Em::In))).collect();
        let exp_h: Vec<u32> = order
            .iter()
            .cloned()
            .filter(|v| is(*v, &|e| matches!(e, Em::In | Em::InNoTap)))
            .collect();
        let exp_o: Vec<u64> = order
            .iter()
            .filter(|v| is(**v, &|e| matches!(e, Em::Out)))
            .map(|v| *v as u64)
            .collect();
        let mut seen = vec![];
        for (n, t) in ti.iter_mut().enumerate() {
            let got = t.drain();
            per_emitter(c, &got, &exp_ti, &format!("tap-in {n}"));
            seen.push(got.iter().map(|v| *v as u64).collect::<Vec<u64>>());
        }
        let la = log_a.lock().unwrap().clone();
        let lb = log_b.lock().unwrap().clone();
        per_emitter(c, &la, &exp_h, "handler a");
        per_emitter(c, &lb, &exp_h, "handler b");
        for (n, t) in to.iter_mut().enumerate() {
            let got = t.drain();
            let direct: Vec<u32> = got.iter().filter(|v| **v < 1_000_000).map(|v| *v as u32).collect();
            let exp: Vec<u32> = exp_o.iter().map(|v| *v as u32).collect();
            per_emitter(c, &direct, &exp, &format!("tap-out {n}"));
            let ra: Vec<u64> = got.iter().filter(|v| **v / 1_000_000 == 1).cloned().collect();
            let rb: Vec<u64> = got.iter().filter(|v| **v / 1_000_000 == 2).cloned().collect();
            c.eq(&ra, &la.iter().flat_map(|m| reply_a(*m)).collect(), "replies");
            c.eq(&rb, &lb.iter().flat_map(|m| reply_b(*m)).collect(), "replies");
            seen.push(got);
        }
        c.label(|| format!("emitted {order:?}, received {seen:?}"));
        c.outcome(&(&order, &seen));
        // The broker must still work
        b.emit_msg_in(9900).expect("emit");
        x.idle(c);
        c.eq(&ti[0].drain(), &vec![9900], "still-alive");
    })
}

// Everything exactly once, in the order of every emitter.
fn per_emitter(c: &mut Ctx, got: &[u32], exp: &[u32], who: &str) {
    let mut g = got.to_vec();
    let mut e = exp.to_vec();
    g.sort();
    e.sort();
    if g != e {
        c.fail("delivery", format!("{who} received {got:?} instead of {exp:?}"));
    }
    for em in 0..10u32 {
        let ge: Vec<u32> = got.iter().cloned().filter(|v| v / 100 == em).collect();
        let ee: Vec<u32> = exp.iter().cloned().filter(|v| v / 100 == em).collect();
        if ge != ee {
            c.fail("order", format!("{who} received {ge:?} instead of {ee:?}"));
        }
    }
}

fn b01_scenarios(t: Tier) -> Vec<Scn> {
    use Em::*;
    let mut s = vec![
        emitter_scn("single", vec![vec![In, Out, InNoTap, OutNoTap, In]], true, Mode::All),
        emitter_scn("two", vec![vec![In, In], vec![In, Out]], false, Mode::All),
        emitter_scn("two", vec![vec![In, Out], vec![Out, In]], true, Mode::Preempt(t.pick(3, 5))),
        emitter_scn("two", vec![vec![InNoTap, In], vec![OutNoTap, Out]], false, Mode::All),
        emitter_scn("three", vec![vec![In, In], vec![Out, Out], vec![In, InNoTap]], false, Mode::Preempt(2)),
        emitter_scn(
            "three",
            vec![vec![In, Out, In], vec![Out, In, Out], vec![In, InNoTap, OutNoTap]],
            true,
            Mode::Preempt(t.pick(1, 2)),
        ),
    ];
    // All plans of one emitter
    let n = t.pick(4u32, 6);
    s.push(Scn::exec("plans", move |c| {
        let x = Exec::new();
        let (h, log, _) = rec(reply_a, false);
        let (mut b, mut ti, mut to) = x.block(c, async move {
            let mut b: B = Broker::new();
            b.add_handler(h).await.expect("handler");
            let ti = tap_in(&mut b, false).await.0;
            let to = tap_out(&mut b, false).await.0;
            (b, ti, to)
        });
        let (mut ei, mut eh, mut eo) = (vec![], vec![], vec![]);
        let mut plan = vec![];
        for i in 0..n {
            match c.choose(5) {
                0 => {
                    b.emit_msg_in(i).expect("emit");
                    ei.push(i);
                    eh.push(i);
                    plan.push("in");
                }
                1 => {
                    b.emit_msg_out(i as u64).expect("emit");
                    eo.push(i as u64);
                    plan.push("out");
                }
                2 => {
                    b.emit_msg_in_dest(Destination::NoTap, i).expect("emit");
                    eh.push(i);
                    plan.push("in-notap");
                }
                3 => {
                    b.emit_msg_out_dest(Destination::NoTap, i as u64).expect("emit");
                    plan.push("out-notap");
                }
                _ => {
                    x.idle(c);
                    plan.push("run");
                }
            }
            c.step();
        }
        x.idle(c);
        c.label(|| format!("{plan:?}"));
        c.eq(&ti.drain(), &ei, "delivery");
        let l = log.lock().unwrap().clone();
        c.eq(&l, &eh, "delivery");
        let got = to.drain();
        let direct: Vec<u64> = got.iter().cloned().filter(|v| *v < 1_000_000).collect();
        let rep: Vec<u64> = got.iter().cloned().filter(|v| *v >= 1_000_000).collect();
        c.eq(&direct, &eo, "delivery");
        c.eq(&rep, &eh.iter().flat_map(|m| reply_a(*m)).collect(), "replies");
        c.outcome(&(plan, got));
    }));
    // Subscribing while others emit
    for mode in [Mode::All] {
        s.push(Scn::exec(format!("subscribe {mode:?}"), move |c| {
            let x = Exec::new();
            let b: B = Broker::new();
            x.idle(c);
            // (true, v): emitted v, (false, k): subscriber k is in place
            let order: Rc<RefCell<Vec<(bool, u32)>>> = Rc::new(RefCell::new(vec![]));
            let (mut be, o) = (b.clone(), order.clone());
            x.spawn(async move {
                for v in 0..3u32 {
                    if v > 0 {
                        yield_point().await;
                    }
                    o.borrow_mut().push((true, v));
                    be.emit_msg_in(v).expect("emit");
                }
            });
            let (mut bs, o) = (b.clone(), order.clone());
            let (h, log, _) = rec(|_| vec![], false);
            let taps = x.spawn(async move {
                let t = tap_in(&mut bs, false).await.0;
                o.borrow_mut().push((false, 0));
                yield_point().await;
                bs.add_handler(h).await.expect("handler");
                o.borrow_mut().push((false, 1));
                yield_point().await;
                let t2 = tap_in(&mut bs, true).await.0;
                o.borrow_mut().push((false, 2));
                vec![t, t2]
            });
            x.run(c, mode);
            c.step();
            let mut taps = match taps.take() {
                Some(t) => t,
                None => c.fail("stuck", "subscribing never ends"),
            };
            let order = order.borrow().clone();
            let l = log.lock().unwrap().clone();
            let got = [taps[0].drain(), l, taps[1].drain()];
            for (k, got) in got.iter().enumerate() {
                let pos = order.iter().position(|e| *e == (false, k as u32)).unwrap();
                let must: Vec<u32> = order[pos..].iter().filter(|e| e.0).map(|e| e.1).collect();
                // Earlier ones may arrive, but only once, and in order.
                let ok = got.ends_with(&must) && got.windows(2).all(|w| w[0] < w[1]);
                c.check(ok, "subscribe", || format!("{order:?}: subscriber {k} received {got:?}"));
            }
            c.outcome(&(order, got));
        }));
    }
    s
}

// ---------------------------------------------------------------- B02, B03: linked brokers

/// A message carries its path: a path of n edges starting with 'origin' is origin followed by the edge indexes.
type Path = Vec<u8>;
type BP = Broker<Path, Path>;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind {
    II,
    IO,
    OI,
    OO,
}
const KINDS: [Kind; 4] = [Kind::OI, Kind::II, Kind::OO, Kind::IO];

impl Kind {
    fn from_out(&self) -> bool {
        matches!(self, Kind::OI | Kind::OO)
    }
    fn to_out(&self) -> bool {
        matches!(self, Kind::IO | Kind::OO)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
struct Edge {
    from: usize,
    to: usize,
    kind: Kind,
    /// Translates only messages with an even origin
    only_even: bool,
}

async fn add_edges(brokers: &mut Vec<BP>, edges: &[Edge]) {
    for (i, e) in edges.iter().enumerate() {
        let to = brokers[e.to].clone();
        let e = *e;
        let tr = Box::new(move |mut m: Path| {
            if e.only_even && m[0] % 2 == 1 {
                return None;
            }
            m.push(i as u8);
            Some(m)
        });
        let b = &mut brokers[e.from];
        match e.kind {
            Kind::II => b.add_translator_i_ti(to, tr).await,
            Kind::IO => b.add_translator_i_to(to, tr).await,
            Kind::OI => b.add_translator_o_ti(to, tr).await,
            Kind::OO => b.add_translator_o_to(to, tr).await,
        }
        .expect("translator");
    }
}

/// All deliveries of a message: (broker, is_out, path). A broker that finds itself on the way the message took
/// still delivers it to its subscribers, but doesn't forward it anymore.
fn reference(n: usize, edges: &[Edge], src: usize, out: bool, origin: u8) -> Vec<(usize, bool, Path)> {
    let _ = n;
    let mut res = vec![];
    let mut todo = vec![(src, out, vec![origin], vec![])];
    while let Some((b, o, path, trail)) = todo.pop() {
        res.push((b, o, path.clone()));
        if trail.contains(&b) {
            continue;
        }
        let mut trail: Vec<usize> = trail;
        trail.push(b);
        for (i, e) in edges.iter().enumerate() {
            if e.from == b && e.kind.from_out() == o && !(e.only_even && origin % 2 == 1) {
                let mut p = path.clone();
                p.push(i as u8);
                todo.push((e.to, e.kind.to_out(), p, trail.clone()));
            }
        }
    }
    res.sort();
    res
}

// The last broker of the path has already been visited.
fn repeats(src: usize, edges: &[Edge], d: &(usize, bool, Path)) -> bool {
    let mut seen = vec![src];
    seen.extend(d.2[1..].iter().map(|e| edges[*e as usize].to));
    let last = seen.pop().unwrap();
    seen.contains(&last)
}

struct Net {
    brokers: Vec<BP>,
    taps: Vec<(UnboundedReceiver<Path>, UnboundedReceiver<Path>)>,
}

fn build(x: &Exec, c: &mut Ctx, n: usize, edges: Vec<Edge>) -> Net {
    x.block(c, async move {
        let mut brokers: Vec<BP> = (0..n).map(|_| Broker::new()).collect();
        add_edges(&mut brokers, &edges).await;
        let mut taps = vec![];
        for b in brokers.iter_mut() {
            taps.push((
                b.get_tap_in().await.expect("tap").0,
                b.get_tap_out().await.expect("tap").0,
            ));
        }
        Net { brokers, taps }
    })
}

impl Net {
    fn drain(&mut self) -> Vec<(usize, bool, Path)> {
        let mut v = vec![];
        for (i, (ti, to)) in self.taps.iter_mut().enumerate() {
            while let Ok(m) = ti.try_recv() {
                v.push((i, false, m));
            }
            while let Ok(m) = to.try_recv() {
                v.push((i, true, m));
            }
        }
        v
    }
}

pub fn b02() -> Prop {
    Prop {
        id: "B02",
        level: "exploration",
        rule: "one execution per topology, source and schedule; every message carries the path of translations it took, \
               so that an outcome is the complete set of deliveries; non-trivial: at least one delivery over a link",
        assumptions: &["the translation functions are pure"],
        scenarios: b02_scenarios,
    }
}

fn all_edges(n: usize) -> Vec<Edge> {
    let mut v = vec![];
    // Links from 0 first, self-links last
    for d in (1..n).chain([0]) {
        for from in 0..n {
            for kind in KINDS {
                v.push(Edge {
                    from,
                    to: (from + d) % n,
                    kind,
                    only_even: false,
                });
            }
        }
    }
    v
}

fn topo_scn(n: usize, max_edges: usize) -> Scn {
    Scn::exec(format!("topologies n={n} edges<={max_edges}"), move |c| {
        let all = all_edges(n);
        let mut edges = vec![];
        let mut from = 0;
        for _ in 0..max_edges {
            // An increasing sequence of edges, 0 ends it.
            let ch = c.choose(all.len() - from + 1);
            if ch == 0 {
                break;
            }
            from += ch;
            edges.push(all[from - 1]);
        }
        if !edges.is_empty() {
            // Make one edge selective
            let sel = c.choose(edges.len() + 1);
            if sel > 0 {
                edges[sel - 1].only_even = true;
            }
        }
        let out = c.flip();
        let x = Exec::new();
        x.max_polls.set(5000);
        let mut net = build(&x, c, n, edges.clone());
        let mut exp = vec![];
        for origin in 0..2u8 {
            if out {
                net.brokers[0].emit_msg_out(vec![origin]).expect("emit");
            } else {
                net.brokers[0].emit_msg_in(vec![origin]).expect("emit");
            }
            exp.extend(reference(n, &edges, 0, out, origin));
        }
        c.step();
        c.label(|| format!("{edges:?} out={out}"));
        x.idle(c);
        deliveries(c, &mut net, exp, &edges);
        if edges.is_empty() {
            c.trivial();
        }
        c.outcome(&(edges, out));
    })
}

fn deliveries(c: &mut Ctx, net: &mut Net, mut exp: Vec<(usize, bool, Path)>, edges: &[Edge]) {
    let got = net.drain();
    // Along one path, messages keep their order.
    let mut last: BTreeMap<(usize, bool, Path), u8> = BTreeMap::new();
    for (b, o, p) in &got {
        let k = (*b, *o, p[1..].to_vec());
        if let Some(l) = last.get(&k) {
            if *l > p[0] {
                c.fail("link-order", format!("{edges:?}: {p:?} after {l} at broker {b}"));
            }
        }
        last.insert(k, p[0]);
    }
    let mut g = got;
    g.sort();
    exp.sort();
    if g != exp {
        let missing: Vec<_> = exp.iter().filter(|e| !g.contains(e)).collect();
        let wrong: Vec<_> = g.iter().filter(|e| !exp.contains(e)).collect();
        c.fail(
            "link-delivery",
            format!("{edges:?}: missing {missing:?}, unexpected {wrong:?}, {} instead of {}", g.len(), exp.len()),
        );
    }
}

fn e(from: usize, to: usize, kind: Kind) -> Edge {
    Edge {
        from,
        to,
        kind,
        only_even: false,
    }
}

fn named() -> Vec<(&'static str, usize, Vec<Edge>)> {
    use Kind::*;
    vec![
        ("chain", 3, vec![e(0, 1, OI), e(1, 2, II)]),
        ("mutual", 2, vec![e(0, 1, OO), e(1, 0, OO)]),
        ("link_bi", 2, vec![e(0, 1, OI), e(1, 0, OI), e(0, 1, II)]),
        ("ring", 3, vec![e(0, 1, OO), e(1, 2, OO), e(2, 0, OO)]),
        (
            "two-rings",
            3,
            vec![e(0, 1, OO), e(1, 2, OO), e(2, 0, OO), e(1, 0, OO), e(2, 1, OO), e(0, 2, OO)],
        ),
        ("diamond", 4, vec![e(0, 1, OO), e(0, 2, OO), e(1, 3, OO), e(2, 3, OI)]),
        ("self", 2, vec![e(0, 0, OI), e(0, 1, II), e(1, 0, II)]),
    ]
}

fn b02_sched(name: &str, n: usize, edges: Vec<Edge>, mode: Mode) -> Scn {
    Scn::exec(format!("{name} {mode:?}"), move |c| {
        let x = Exec::new();
        x.max_polls.set(20000);
        let mut net = build(&x, c, n, edges.clone());
        let mut exp = vec![];
        // Two concurrent emitters: one sends 0 and 2 from broker 0, the other 5 from the last broker.
        let mut b = net.brokers[0].clone();
        x.spawn(async move {
            b.emit_msg_out(vec![0]).expect("emit");
            yield_point().await;
            b.emit_msg_out(vec![2]).expect("emit");
        });
        exp.extend(reference(n, &edges, 0, true, 0));
        exp.extend(reference(n, &edges, 0, true, 2));
        let mut b = net.brokers[n - 1].clone();
        x.spawn(async move {
            b.emit_msg_out(vec![5]).expect("emit");
        });
        exp.extend(reference(n, &edges, n - 1, true, 5));
        x.run(c, mode);
        c.step();
        let got: Vec<_> = {
            let g = net.drain();
            // Put it back for the check
            let mut sorted = g.clone();
            sorted.sort();
            let mut ex = exp.clone();
            ex.sort();
            if sorted != ex {
                c.fail("link-delivery", format!("{edges:?}: got {sorted:?} instead of {ex:?}"));
            }
            g
        };
        for (i, a) in got.iter().enumerate() {
            for b in &got[i + 1..] {
                if a.0 == b.0 && a.1 == b.1 && a.2[1..] == b.2[1..] && a.2[0] == 2 && b.2[0] == 0 {
                    c.fail("link-order", format!("{edges:?}: {b:?} after {a:?}"));
                }
            }
        }
        c.outcome(&got);
    })
}

fn b02_scenarios(t: Tier) -> Vec<Scn> {
    let mut s = vec![topo_scn(2, t.pick(4, 6)), topo_scn(3, t.pick(3, 4))];
    if t == Tier::Thorough {
        s.push(topo_scn(4, 3));
    }
    for (name, n, edges) in named() {
        s.push(b02_sched(name, n, edges, Mode::Delay(t.pick(3, 4))));
    }
    s
}

pub fn b03() -> Prop {
    Prop {
        id: "B03",
        level: "exploration",
        rule: "one execution per topology and schedule of settling clients and broker tasks; distinct_nontrivial counts the \
               different orders in which requests were sent, completed, and messages delivered",
        assumptions: &["handlers, translators and taps end in finite time"],
        scenarios: b03_scenarios,
    }
}

#[derive(Clone, Copy, Debug)]
enum Cl {
    /// Emits on a broker (out side), then settles it
    Settle(usize),
    /// settle_msg_out on a broker
    SettleMsg(usize),
    /// Removes a tap, which also settles
    Remove(usize),
}

fn b03_sched(name: &str, n: usize, edges: Vec<Edge>, clients: Vec<Cl>, mode: Mode) -> Scn {
    Scn::exec(format!("{name} {clients:?} {mode:?}"), move |c| {
        let x = Exec::new();
        x.max_polls.set(20000);
        let mut net = build(&x, c, n, edges.clone());
        let brokers = std::mem::take(&mut net.brokers);
        let net = Rc::new(RefCell::new(net));
        let seen: Rc<RefCell<Vec<(usize, bool, Path)>>> = Rc::default();
        let bad: Rc<RefCell<Option<String>>> = Rc::default();
        let events: Rc<RefCell<Vec<(usize, bool)>>> = Rc::default();
        // Messages emitted so far: (broker, origin)
        let emitted: Rc<RefCell<Vec<(usize, u8)>>> = Rc::default();
        let mut hs = vec![];
        for (k, cl) in clients.iter().cloned().enumerate() {
            let at = match cl {
                Cl::Settle(b) | Cl::SettleMsg(b) | Cl::Remove(b) => b,
            };
            let mut b = brokers[at].clone();
            let (net, seen, bad, events, emitted) =
                (net.clone(), seen.clone(), bad.clone(), events.clone(), emitted.clone());
            let edges = edges.clone();
            hs.push(x.spawn(async move {
                let before = {
                    let mut em = emitted.borrow_mut();
                    if !matches!(cl, Cl::Remove(_)) {
                        em.push((at, 10 * k as u8));
                    }
                    em.clone()
                };
                events.borrow_mut().push((k, false));
                match cl {
                    Cl::Settle(_) => {
                        b.emit_msg_out(vec![10 * k as u8]).expect("emit");
                        b.settle(vec![]).await.expect("settle");
                    }
                    Cl::SettleMsg(_) => b.settle_msg_out(vec![10 * k as u8]).await.expect("settle"),
                    Cl::Remove(_) => b.remove_subsystem(99).await.expect("remove"),
                }
                events.borrow_mut().push((k, true));
                seen.borrow_mut().extend(net.borrow_mut().drain());
                // Everything emitted on this broker before the request must be everywhere.
                for (_, o) in before.iter().filter(|(f, _)| *f == at) {
                    for d in reference(n, &edges, at, true, *o) {
                        if repeats(at, &edges, &d) {
                            continue;
                        }
                        if !seen.borrow().contains(&d) {
                            bad.borrow_mut()
                                .get_or_insert(format!("client {k} has settled, but {d:?} has not been delivered"));
                        }
                    }
                }
            }));
        }
        x.run(c, mode);
        c.step();
        for (k, h) in hs.iter().enumerate() {
            if !h.done() {
                c.fail("settle-stuck", format!("{edges:?}: client {k} of {clients:?} never completes"));
            }
        }
        if let Some(m) = bad.borrow().clone() {
            c.fail("settle-early", format!("{edges:?}: {m}"));
        }
        let ev = events.borrow().clone();
        let sn = seen.borrow().clone();
        c.outcome(&(ev, sn));
    })
}

fn b03_scenarios(t: Tier) -> Vec<Scn> {
    use Kind::*;
    let mut s = vec![];
    let d = t.pick(3, 4);
    let topo: Vec<(&str, usize, Vec<Edge>)> = vec![
        ("mutual", 2, vec![e(0, 1, OI), e(1, 0, OI)]),
        ("mutual-out", 2, vec![e(0, 1, OO), e(1, 0, OO)]),
        ("chain", 3, vec![e(0, 1, OO), e(1, 2, OI)]),
        ("chain-bi", 3, vec![e(0, 1, OO), e(1, 0, II), e(1, 2, OI), e(2, 1, OI)]),
        ("ring", 3, vec![e(0, 1, OO), e(1, 2, OO), e(2, 0, OO)]),
        (
            "triangle",
            3,
            vec![e(0, 1, OO), e(1, 2, OO), e(2, 0, OO), e(1, 0, OO), e(2, 1, OO), e(0, 2, OO)],
        ),
        ("star", 4, vec![e(0, 1, OO), e(0, 2, OI), e(0, 3, OO), e(1, 0, OI), e(2, 0, OI), e(3, 0, OI)]),
        ("self", 1, vec![e(0, 0, OI)]),
    ];
    for (name, n, edges) in topo {
        let last = n - 1;
        s.push(b03_sched(name, n, edges.clone(), vec![Cl::Settle(0)], Mode::Delay(d)));
        s.push(b03_sched(
            name,
            n,
            edges.clone(),
            vec![Cl::Settle(0), Cl::SettleMsg(last)],
            Mode::Delay(d),
        ));
        s.push(b03_sched(
            name,
            n,
            edges.clone(),
            vec![Cl::SettleMsg(0), Cl::Remove(last.min(1))],
            Mode::Delay(d),
        ));
        s.push(b03_sched(
            name,
            n,
            edges.clone(),
            vec![Cl::Settle(0), Cl::SettleMsg(last.min(1)), Cl::Settle(last)],
            Mode::Delay(d - 1),
        ));
    }
    // All topologies with the fixed schedule, and two clients at all brokers.
    for (n, max) in [(2usize, t.pick(3usize, 4)), (3, t.pick(2, 3))] {
        s.push(Scn::exec(format!("topologies n={n} edges<={max}"), move |c| {
            let all = all_edges(n);
            let mut edges = vec![];
            let mut from = 0;
            for _ in 0..max {
                let ch = c.choose(all.len() - from + 1);
                if ch == 0 {
                    break;
                }
                from += ch;
                edges.push(all[from - 1]);
            }
            let other = c.choose(n);
            let x = Exec::new();
            x.max_polls.set(5000);
            let mut net = build(&x, c, n, edges.clone());
            let mut hs = vec![];
            for (k, at) in [0, other].into_iter().enumerate() {
                let mut b = net.brokers[at].clone();
                hs.push(x.spawn(async move { b.settle_msg_out(vec![k as u8]).await.expect("settle") }));
            }
            x.idle(c);
            c.step();
            if hs.iter().any(|h| !h.done()) {
                c.fail("settle-stuck", format!("{edges:?}: settling 0 and {other} never completes"));
            }
            let mut exp = reference(n, &edges, 0, true, 0);
            exp.extend(reference(n, &edges, other, true, 1));
            let mut got = net.drain();
            got.sort();
            exp.sort();
            c.eq(&got, &exp, "settle-delivery");
            c.outcome(&(edges, other));
        }));
    }
    s
}

// ---------------------------------------------------------------- B04

pub fn b04() -> Prop {
    Prop {
        id: "B04",
        level: "exploration",
        rule: "every history of the bounded alphabet on one broker is executed and compared with a list of active subscribers; \
               distinct_nontrivial counts the different (history, deliveries)",
        assumptions: &["a handle kept by a link counts as a handle"],
        scenarios: b04_scenarios,
    }
}

struct Sub {
    id: usize,
    tap_in: Option<Tap<u32>>,
    tap_out: Option<Tap<u64>>,
    log: Option<Log>,
    dropped: Option<Arc<Mutex<usize>>>,
    exp_in: Vec<u32>,
    exp_out: Vec<u64>,
    active: bool,
    // The receiver is gone
    deaf: bool,
}

fn b04_scenarios(t: Tier) -> Vec<Scn> {
    let depth = t.pick(5usize, 7);
    let mut s = vec![];
    for eager in [true, false] {
        s.push(Scn::exec(format!("histories depth={depth} eager={eager}"), move |c| {
            history(c, depth, eager)
        }));
    }
    let mode = t.pick(Mode::Preempt(3), Mode::All);
    s.push(Scn::exec(format!("unsubscribe {mode:?}"), move |c| {
        // One emitter, one task which removes a tap, one keeps listening.
        let x = Exec::new();
        let (h, log, dropped) = rec(|m| vec![m as u64], false);
        let (b, mut ta, mut tb, mut to, ia, ih) = x.block(c, async move {
            let mut b: B = Broker::new();
            let (ta, ia) = tap_in(&mut b, false).await;
            let ih = b.add_handler(h).await.expect("handler");
            let (tb, _) = tap_in(&mut b, true).await;
            let (to, _) = tap_out(&mut b, false).await;
            (b, ta, tb, to, ia, ih)
        });
        let order: Rc<RefCell<Vec<(u8, u32)>>> = Rc::default();
        let (mut be, o) = (b.clone(), order.clone());
        x.spawn(async move {
            for v in 0..3u32 {
                if v > 0 {
                    yield_point().await;
                }
                o.borrow_mut().push((0, v));
                be.emit_msg_in(v).expect("emit");
            }
        });
        let (mut br, o) = (b.clone(), order.clone());
        let h = x.spawn(async move {
            for (k, id) in [(0u32, ia), (1, ih)] {
                o.borrow_mut().push((1, k));
                br.remove_subsystem(id).await.expect("remove");
                o.borrow_mut().push((2, k));
            }
        });
        x.run(c, mode);
        c.step();
        c.check(h.done(), "stuck", || "removing never completes".into());
        let order = order.borrow().clone();
        let l = log.lock().unwrap().clone();
        let got = [ta.drain(), l.clone()];
        for (k, got) in got.iter().enumerate() {
            let start = order.iter().position(|e| *e == (1, k as u32)).unwrap();
            let end = order.iter().position(|e| *e == (2, k as u32)).unwrap();
            let must: Vec<u32> = order[..start].iter().filter(|e| e.0 == 0).map(|e| e.1).collect();
            let may: Vec<u32> = order[..end].iter().filter(|e| e.0 == 0).map(|e| e.1).collect();
            let ok = got.starts_with(&must) && may.starts_with(got);
            c.check(ok, "unsubscribe", || format!("{order:?}: subscriber {k} received {got:?}"));
        }
        c.eq(&tb.drain(), &vec![0, 1, 2], "others");
        c.eq(&to.drain(), &l.iter().map(|v| *v as u64).collect(), "others");
        c.eq(&*dropped.lock().unwrap(), &1, "handler-release");
        c.outcome(&(order, got));
    }));
    s.push(Scn::exec("drop-last".to_string(), move |c| {
        // Handles are cloned, used and dropped by different tasks.
        let x = Exec::new();
        let (h, log, dropped) = rec(|m| vec![m as u64], true);
        let (b, mut ti, mut to) = x.block(c, async move {
            let mut b: B = Broker::new();
            let ti = tap_in(&mut b, false).await.0;
            b.add_handler(h).await.expect("handler");
            let to = tap_out(&mut b, true).await.0;
            (b, ti, to)
        });
        for k in 0..2u32 {
            let mut b = b.clone();
            x.spawn(async move {
                b.emit_msg_in(10 * k).expect("emit");
                yield_point().await;
                let mut b2 = b.clone();
                drop(b);
                yield_point().await;
                b2.emit_msg_in(10 * k + 1).expect("emit");
            });
        }
        drop(b);
        x.run(c, Mode::Preempt(3));
        c.step();
        let mut l = log.lock().unwrap().clone();
        let first = l.clone();
        l.sort();
        c.eq(&l, &vec![0, 1, 10, 11], "drop-lost");
        let mut g = ti.drain();
        g.sort();
        c.eq(&g, &vec![0, 1, 10, 11], "drop-lost");
        c.eq(&to.drain().len(), &4, "drop-lost");
        c.eq(&*dropped.lock().unwrap(), &1, "not-released");
        c.check(ti.closed() && to.closed(), "not-stopped", || "the taps are still open".into());
        c.outcome(&first);
    }));
    s
}

fn history(c: &mut Ctx, depth: usize, eager: bool) {
    let x = Exec::new();
    let mut handles: Vec<B> = vec![Broker::new()];
    let mut subs: Vec<Sub> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut v = 0u32;
    let mut linked: Option<(B, Tap<u32>, usize, Vec<u32>, bool)> = None;
    for _ in 0..depth {
        if handles.is_empty() {
            break;
        }
        // The alphabet
        let mut ops: Vec<(u8, usize)> = vec![(0, 0), (1, 0)];
        if subs.len() < 3 {
            ops.extend([(2, 0), (2, 1), (3, 0), (4, 0)]);
        }
        for (k, s) in subs.iter().enumerate() {
            if s.active {
                ops.push((5, k));
            }
            if !s.deaf && s.log.is_none() {
                ops.push((6, k));
            }
        }
        if handles.len() < 2 {
            ops.push((7, 0));
        }
        ops.push((8, 0));
        match &linked {
            None => ops.push((9, 0)),
            Some(l) if l.4 => ops.push((10, 0)),
            _ => {}
        }
        let (op, arg) = *c.pick(&ops);
        c.step();
        let last = handles.len() - 1;
        hist.push(format!("{op}/{arg}"));
        match op {
            0 => {
                v += 1;
                // Alternate between the handles
                handles[v as usize % (last + 1)].emit_msg_in(v).expect("emit");
                for s in subs.iter_mut().filter(|s| s.active && !s.deaf) {
                    if s.tap_in.is_some() || s.log.is_some() {
                        s.exp_in.push(v);
                    }
                }
                if let Some(l) = linked.as_mut().filter(|l| l.4) {
                    l.3.push(v);
                }
                let n = subs.iter().filter(|s| s.active && s.log.is_some()).count();
                for s in subs.iter_mut().filter(|s| s.active && !s.deaf && s.tap_out.is_some()) {
                    for _ in 0..n {
                        s.exp_out.push(1000 + v as u64);
                    }
                }
            }
            1 => {
                v += 1;
                handles[0].emit_msg_out(v as u64).expect("emit");
                for s in subs.iter_mut().filter(|s| s.active && !s.deaf && s.tap_out.is_some()) {
                    s.exp_out.push(v as u64);
                }
            }
            2 | 3 | 4 => {
                let mut b = handles.remove(last);
                let (b, s) = x.block(c, async move {
                    let mut s = Sub {
                        id: 0,
                        tap_in: None,
                        tap_out: None,
                        log: None,
                        dropped: None,
                        exp_in: vec![],
                        exp_out: vec![],
                        active: true,
                        deaf: false,
                    };
                    match op {
                        2 => {
                            let (t, id) = tap_in(&mut b, arg == 1).await;
                            (s.tap_in, s.id) = (Some(t), id);
                        }
                        3 => {
                            let (t, id) = tap_out(&mut b, true).await;
                            (s.tap_out, s.id) = (Some(t), id);
                        }
                        _ => {
                            let (h, log, dropped) = rec(|m| vec![1000 + m as u64], false);
                            s.id = b.add_handler(h).await.expect("handler");
                            s.log = Some(log);
                            s.dropped = Some(dropped);
                        }
                    }
                    (b, s)
                });
                handles.push(b);
                subs.push(s);
            }
            5 => {
                let mut b = handles.remove(last);
                let id = subs[arg].id;
                let b = x.block(c, async move {
                    b.remove_subsystem(id).await.expect("remove");
                    b
                });
                handles.push(b);
                subs[arg].active = false;
                if let Some(d) = &subs[arg].dropped {
                    c.check(*d.lock().unwrap() == 1, "handler-release", || format!("{hist:?}"));
                }
            }
            6 => {
                subs[arg].tap_in = None;
                subs[arg].tap_out = None;
                subs[arg].deaf = true;
            }
            7 => {
                let b = handles[0].clone();
                handles.push(b);
            }
            8 => {
                handles.remove(0);
            }
            9 => {
                let mut b = handles.remove(last);
                let (b, l) = x.block(c, async move {
                    let mut l: B = Broker::new();
                    let t = tap_in(&mut l, false).await.0;
                    let id = b.add_translator_i_ti(l.clone(), Box::new(Some)).await.expect("link");
                    (b, (l, t, id, vec![], true))
                });
                handles.push(b);
                linked = Some(l);
            }
            _ => {
                let mut b = handles.remove(last);
                let l = linked.as_mut().unwrap();
                l.4 = false;
                let id = l.2;
                let b = x.block(c, async move {
                    b.remove_subsystem(id).await.expect("remove");
                    b
                });
                handles.push(b);
            }
        }
        if eager {
            x.idle(c);
        }
    }
    x.idle(c);
    c.label(|| hist.join(" "));
    let mut got = vec![];
    for (k, s) in subs.iter_mut().enumerate() {
        if let Some(t) = s.tap_in.as_mut() {
            let g = t.drain();
            if g != s.exp_in {
                c.fail("history-in", format!("{hist:?}: subscriber {k} got {g:?} instead of {:?}", s.exp_in));
            }
            got.push(g);
        }
        if let Some(l) = &s.log {
            let g = l.lock().unwrap().clone();
            if g != s.exp_in {
                c.fail("history-handler", format!("{hist:?}: handler {k} got {g:?} instead of {:?}", s.exp_in));
            }
            got.push(g);
        }
        if let Some(t) = s.tap_out.as_mut() {
            let mut g = t.drain();
            let mut e = s.exp_out.clone();
            g.sort();
            e.sort();
            if g != e {
                c.fail("history-out", format!("{hist:?}: subscriber {k} got {g:?} instead of {e:?}"));
            }
            got.push(g.iter().map(|v| *v as u32).collect());
        }
    }
    if let Some(l) = linked.as_mut() {
        let g = l.1.drain();
        if g != l.3 {
            c.fail("history-link", format!("{hist:?}: linked broker got {g:?} instead of {:?}", l.3));
        }
        got.push(g);
    }
    if handles.is_empty() {
        for s in subs.iter_mut() {
            if let Some(d) = &s.dropped {
                c.check(*d.lock().unwrap() == 1, "not-released", || {
                    format!("{hist:?}: the handler is still there")
                });
            }
            let open = s.tap_in.as_mut().map(|t| !t.closed()).unwrap_or(false)
                || s.tap_out.as_mut().map(|t| !t.closed()).unwrap_or(false);
            c.check(!open, "not-stopped", || format!("{hist:?}: a tap is still open"));
        }
    } else if let Some(d) = subs.iter().find(|s| s.active).and_then(|s| s.dropped.clone()) {
        c.check(*d.lock().unwrap() == 0, "stopped", || {
            format!("{hist:?}: the broker stopped with {} handles", handles.len())
        });
    }
    c.outcome(&(hist, got));
}
