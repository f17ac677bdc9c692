//! G01, G02, G03: gossip of events.
use std::collections::{BTreeMap, BTreeSet};

use flarch::{
    broker::Broker,
    data_storage::{DataStorage, DataStorageTemp, StorageError},
    nodeids::NodeID,
};
use flmodules::{
    gossip_events::{
        broker::{Gossip, GossipIn, GossipOut},
        core::{Category, Event, EventsStorage},
        intern::ModuleMessage,
    },
    nodeconfig::NodeInfo,
    random_connections::broker::{BrokerRandom, RandomIn, RandomOut},
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, TimerMessage},
};
use serde_yaml::Value;
use tokio::sync::mpsc::UnboundedReceiver;

use super::{k04_router::info, k_kademlia::nid};
use crate::{
    det,
    engine::*,
    exec::Exec,
    net::{Port, Sim},
};

pub fn g01() -> Prop {
    Prop {
        id: "G01",
        level: "exploration",
        rule: "every sequence of arrivals from the alphabet (2 categories, 2-3 sources, 3-4 times, 2 texts) is added to the real store, \
               all queries are compared with a reference store after every step; distinct_nontrivial counts different (arrivals, contents)",
        assumptions: &["small limits are set by loading a store with changed limits, the real limits are used in the full-store scenarios"],
        scenarios: g01_scenarios,
    }
}

pub fn g02() -> Prop {
    Prop {
        id: "G02",
        level: "model_checking",
        rule: "states are (sequence of inputs of every node, messages on their way); every delivery order, creation and tick is executed \
               on running gossip modules, and the end state of every execution is compared with the reference store",
        assumptions: &[
            "messages between two nodes keep their order and don't get lost while they are connected",
            "a node's behaviour only depends on its own inputs",
        ],
        scenarios: g02_scenarios,
    }
}

pub fn g03() -> Prop {
    Prop {
        id: "G03",
        level: "fault_enumeration",
        rule: "a gossip module is restarted from its persisted data after every message of every history; stores in all older formats; \
               the persisted data cut at every byte",
        assumptions: &["times of events are between 0 and 2^53 ms, so that the older formats can represent them"],
        scenarios: g03_scenarios,
    }
}

const CATS: [Category; 2] = [Category::TextMessage, Category::NodeInfo];

fn ci(c: Category) -> usize {
    match c {
        Category::TextMessage => 0,
        Category::NodeInfo => 1,
    }
}

fn ev(cat: usize, src: u8, created: i64, msg: &str) -> Event {
    Event {
        category: CATS[cat],
        src: nid(0x10u8.wrapping_mul(src.wrapping_add(1)), src),
        created,
        msg: msg.into(),
    }
}

fn short(e: &Event) -> (usize, u8, i64, String) {
    (ci(e.category), e.src.to_bytes()[31], e.created, e.msg.clone())
}

/// An empty store with other limits.
fn store_with(max: [usize; 2]) -> EventsStorage {
    let mut v: Value = serde_yaml::from_str(&EventsStorage::new().get().expect("get")).expect("yaml");
    fn set(v: &mut Value, max: &[usize; 2]) -> usize {
        let mut n = 0;
        if let Value::Mapping(m) = v {
            for (k, v) in m.iter_mut() {
                let cat = match k.as_str() {
                    Some("TextMessage") => Some(0),
                    Some("NodeInfo") => Some(1),
                    _ => None,
                };
                if let Some(cat) = cat {
                    n += limit(v, max[cat]);
                } else {
                    n += set(v, max);
                }
            }
        }
        n
    }
    fn limit(v: &mut Value, max: usize) -> usize {
        let mut n = 0;
        if let Value::Mapping(m) = v {
            for (k, v) in m.iter_mut() {
                if k.as_str() == Some("max_events") {
                    *v = Value::Number(max.into());
                    n += 1;
                } else {
                    n += limit(v, max);
                }
            }
        }
        n
    }
    assert_eq!(set(&mut v, &max), 2, "the format of the events has changed");
    let mut s = EventsStorage::new();
    s.set(&serde_yaml::to_string(&v).expect("yaml")).expect("set");
    s
}

/// What must be stored, given everything that has been offered.
#[derive(Default, Clone)]
struct Model {
    offered: [Vec<Event>; 2],
}

impl Model {
    fn offer(&mut self, e: &Event) {
        let l = &mut self.offered[ci(e.category)];
        if !l.contains(e) {
            l.push(e.clone());
        }
    }

    /// The creation times that must be there, and all events that may be there
    fn check(&self, cat: usize, max: usize, got: &[Event]) -> Result<(), String> {
        let times = |l: &[Event]| {
            let mut t: Vec<i64> = l.iter().map(|e| e.created).collect();
            t.sort();
            t.reverse();
            t
        };
        let dup = got.iter().enumerate().any(|(i, e)| got[..i].contains(e));
        if dup {
            return Err("duplicate events".into());
        }
        if let Some(e) = got.iter().find(|e| !self.offered[cat].contains(e)) {
            return Err(format!("event {:?} never existed", short(e)));
        }
        if got.len() > max {
            return Err(format!("{} events instead of at most {max}", got.len()));
        }
        let mut want: Vec<i64> = if cat == 1 {
            // The newest of every source
            let mut m: BTreeMap<NodeID, i64> = BTreeMap::new();
            for e in &self.offered[cat] {
                let t = m.entry(e.src).or_insert(e.created);
                *t = (*t).max(e.created);
            }
            for e in got {
                if m[&e.src] != e.created {
                    return Err(format!("event {:?} isn't the newest of its source", short(e)));
                }
            }
            let srcs: BTreeSet<NodeID> = got.iter().map(|e| e.src).collect();
            if srcs.len() != got.len() {
                return Err("more than one event of a source".into());
            }
            m.values().cloned().collect()
        } else {
            times(&self.offered[cat])
        };
        want.sort();
        want.reverse();
        want.truncate(max);
        if times(got) != want {
            return Err(format!("times {:?} are stored instead of {want:?}", times(got)));
        }
        Ok(())
    }
}

fn queries(c: &mut Ctx, s: &EventsStorage, m: &Model, max: [usize; 2], what: &dyn Fn() -> String) {
    let mut all = vec![];
    for cat in 0..2 {
        let got = s.events(CATS[cat]);
        if let Some(e) = got.iter().find(|e| ci(e.category) != cat) {
            c.fail("category", format!("{:?} is in category {cat}: {}", short(e), what()));
        }
        if let Err(e) = m.check(cat, max[cat], &got) {
            c.fail("contents", format!("category {cat}: {e}: {}", what()));
        }
        all.extend(got);
    }
    let mut ids: Vec<NodeID> = all.iter().map(|e| e.get_id()).collect();
    ids.sort();
    let mut got = s.event_ids();
    got.sort();
    c.check(ids == got, "event_ids", || what());
    for e in m.offered.iter().flatten() {
        let id = e.get_id();
        let want = all.contains(e).then(|| e.clone());
        c.check(s.event(&id) == want, "event", || format!("{:?}: {}", short(e), what()));
        let l = s.get_events_by_ids(vec![id]);
        c.check(l == want.clone().into_iter().collect::<Vec<_>>(), "get_events_by_ids", || {
            format!("{:?}: {}", short(e), what())
        });
    }
    let mut every = s.get_events_by_ids(m.offered.iter().flatten().map(|e| e.get_id()).collect());
    every.sort_by_key(|e| e.get_id());
    all.sort_by_key(|e| e.get_id());
    c.check(every == all, "get_events_by_ids", || what());
    c.check(s.event(&nid(0xee, 0)).is_none(), "event", || what());
}

fn g01_history(c: &mut Ctx, max: Option<[usize; 2]>, start: [usize; 2], alphabet: &[Event], depth: usize) {
    let mut s = match max {
        Some(m) => store_with(m),
        None => EventsStorage::new(),
    };
    let max = max.unwrap_or([50, 100]);
    let mut m = Model::default();
    let mut hist = vec![];
    for cat in 0..2 {
        for i in 0..start[cat] {
            // All times between 1000 and 1000 + start
            let e = ev(cat, 100 + i as u8, 1000 + i as i64, "start");
            m.offer(&e);
            s.add_event(e);
        }
    }
    for _ in 0..depth {
        let e = c.pick(alphabet).clone();
        c.step();
        hist.push(short(&e));
        let had = s.event(&e.get_id()).is_some();
        let res = s.add_event(e.clone());
        m.offer(&e);
        let has = s.event(&e.get_id()).is_some();
        let h = hist.clone();
        let what = move || format!("{start:?}, limits {max:?}: {h:?}");
        c.check(res == (has && !had), "add_event", || {
            format!("add_event returns {res}, stored before: {had}, after: {has}: {}", what())
        });
        queries(c, &s, &m, max, &what);
    }
    c.label(|| format!("{hist:?}"));
    c.outcome(&(start, max, hist));
}

/// All orders of a set of events lead to the same store.
fn g01_orders(c: &mut Ctx, max: [usize; 2], set: &[Event]) {
    let mut s = store_with(max);
    let mut left: Vec<usize> = (0..set.len()).collect();
    let mut order = vec![];
    while !left.is_empty() {
        let i = left.remove(c.choose(left.len()));
        order.push(i);
        s.add_event(set[i].clone());
        c.step();
    }
    let mut r = store_with(max);
    for e in set {
        r.add_event(e.clone());
    }
    let l = |s: &EventsStorage| {
        let mut v: Vec<_> = CATS.iter().flat_map(|c| s.events(*c)).map(|e| short(&e)).collect();
        v.sort();
        v
    };
    c.check(l(&s) == l(&r), "order-dependent", || {
        format!("limits {max:?}, order {order:?} of {:?}: {:?} instead of {:?}", set.iter().map(short).collect::<Vec<_>>(), l(&s), l(&r))
    });
    c.label(|| format!("{order:?}"));
    c.outcome(&order);
}

fn g01_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let mut alpha = vec![];
    for src in 0..2 {
        for created in [1, 2, 3] {
            alpha.push(ev(0, src, created, "a"));
            alpha.push(ev(1, src, created, "a"));
        }
    }
    let depth = t.pick(5, 6);
    for max in [[1, 1], [2, 2], [3, 1], [2, 3]] {
        let a = alpha.clone();
        ret.push(Scn::new(format!("limits-{max:?}"), move |c: &mut Ctx| g01_history(c, Some(max), [0, 0], &a, depth)));
    }
    let mut three = vec![];
    for src in 0..3 {
        for created in [1, 2] {
            three.push(ev(1, src, created, "a"));
        }
    }
    three.push(ev(1, 0, 2, "b"));
    three.push(ev(1, 1, 3, ""));
    for max in [[1, 1], [1, 2]] {
        let a = three.clone();
        ret.push(Scn::new(format!("sources-{max:?}"), move |c: &mut Ctx| g01_history(c, Some(max), [0, 0], &a, depth)));
    }
    // Around the real limits
    let mut full = vec![];
    for cat in 0..2 {
        for created in [0, 1000, 1001, 5000] {
            full.push(ev(cat, 1, created, "a"));
        }
        full.push(ev(cat, 101, 500, "a"));
        full.push(ev(cat, 101, 6000, "a"));
        full.push(ev(cat, 101, 1001, "start"));
    }
    for (text, inf) in [(48, 98), (49, 99), (50, 100)] {
        let a = full.clone();
        ret.push(Scn::new(format!("full-{text}-{inf}"), move |c: &mut Ctx| {
            g01_history(c, None, [text, inf], &a, t.pick(2, 3))
        }));
    }
    // The result doesn't depend on the order, even with events of the same time
    for max in [[1, 1], [2, 2], [3, 3]] {
        let set: Vec<Event> = vec![
            ev(0, 0, 1, "a"),
            ev(0, 0, 1, "b"),
            ev(0, 1, 1, "a"),
            ev(0, 1, 2, "a"),
            ev(1, 0, 1, "a"),
            ev(1, 0, 1, "b"),
            ev(1, 1, 1, "a"),
        ];
        let set2: Vec<Event> =
            vec![ev(1, 0, 1, "a"), ev(1, 0, 2, "b"), ev(1, 0, 2, "c"), ev(1, 1, 2, "a"), ev(1, 2, 2, "a"), ev(1, 2, 3, "")];
        ret.push(Scn::new(format!("orders-{max:?}"), move |c: &mut Ctx| g01_orders(c, max, &set)));
        ret.push(Scn::new(format!("orders2-{max:?}"), move |c: &mut Ctx| g01_orders(c, max, &set2)));
    }
    ret
}

// ---------------------------------------------------------------- G02

struct Node {
    gossip: Gossip,
    random: BrokerRandom,
    timer: BrokerTimer,
    tap: UnboundedReceiver<GossipOut>,
    ds: Box<dyn DataStorage + Send>,
}

async fn start_node(info: NodeInfo, ds: Box<dyn DataStorage + Send>) -> Node {
    let random: BrokerRandom = Broker::new();
    let timer: BrokerTimer = Broker::new();
    let mut gossip = Gossip::start(ds.clone_box(), info, timer.clone(), random.clone()).await.expect("gossip");
    let tap = gossip.broker.get_tap_out().await.expect("tap").0;
    Node {
        gossip,
        random,
        timer,
        tap,
        ds,
    }
}

fn start(x: &Exec, c: &mut Ctx, infos: &[NodeInfo], stores: Vec<Box<dyn DataStorage + Send>>) -> (Vec<Node>, Sim) {
    let mut nodes = vec![];
    let mut ports = vec![];
    for (inf, ds) in infos.iter().zip(stores) {
        let id = inf.get_id();
        let n = x.block(c, start_node(inf.clone(), ds));
        let mut r = n.random.clone();
        let mut tap = x.block(c, async move { r.get_tap_in().await.expect("tap").0 });
        let mut r = n.random.clone();
        ports.push(Port {
            id,
            out: Box::new(move || {
                let mut v = vec![];
                while let Ok(RandomIn::NetworkWrapperToNetwork(dst, msg)) = tap.try_recv() {
                    v.push((dst, msg));
                }
                v
            }),
            deliver: Box::new(move |from, msg| {
                r.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(from, msg)).expect("emit");
            }),
        });
        nodes.push(n);
    }
    (nodes, Sim::new(ports))
}

#[derive(Clone, Debug)]
enum Act {
    /// Node adds an event
    Add(usize, Event),
    Connect(usize, usize),
    Disconnect(usize, usize),
    Tick(usize),
}

#[derive(Clone)]
struct Plan {
    n: usize,
    start: Vec<(usize, usize)>,
    acts: Vec<Act>,
    /// Limits of the stores
    max: Option<[usize; 2]>,
    /// Events in the stores when starting
    pre: Vec<(usize, Event)>,
    final_ticks: usize,
    /// The nodes already know each other
    synced: bool,
    /// The first exchange is delivered in one fixed order
    settled: bool,
}

fn module(m: &NetworkWrapper) -> Option<ModuleMessage> {
    m.unwrap_yaml::<ModuleMessage>("Gossip")
}

fn run(c: &mut Ctx, p: &Plan) {
    det::reset(1);
    let x = Exec::new();
    let ids: Vec<NodeID> = (0..p.n).map(|i| nid(0x10 * (i as u8 + 1), i as u8)).collect();
    let infos: Vec<NodeInfo> = ids.iter().map(|id| info(*id)).collect();
    let max = p.max.unwrap_or([50, 100]);
    let mut model = Model::default();
    let stores = (0..p.n)
        .map(|i| {
            let mut ds = DataStorageTemp::new_box();
            let mut s = store_with(max);
            for (_, e) in p.pre.iter().filter(|(n, _)| *n == i) {
                s.add_event(e.clone());
                model.offer(e);
            }
            for inf in infos.iter().filter(|_| p.synced) {
                let e = Event {
                    category: Category::NodeInfo,
                    src: inf.get_id(),
                    created: x.now(),
                    msg: inf.encode(),
                };
                model.offer(&e);
                s.add_event(e);
            }
            ds.set("Gossip", &s.get().expect("get")).expect("set");
            ds as Box<dyn DataStorage + Send>
        })
        .collect();
    let (mut nodes, mut sim) = start(&x, c, &infos, stores);
    x.idle(c);
    for n in &nodes {
        for e in n.gossip.events(Category::NodeInfo).iter().chain(n.gossip.chat_events().iter()) {
            model.offer(e);
        }
    }
    for (a, b) in &p.start {
        sim.connect(*a, *b);
    }
    for i in 0..p.n {
        let l = sim.neighbours(i);
        if !l.is_empty() {
            nodes[i].random.emit_msg_out(RandomOut::NodeIDsConnected(l.into())).expect("emit");
            sim.note(i, &"start");
        }
    }
    for n in nodes.iter_mut() {
        while n.tap.try_recv().is_ok() {}
    }
    let at_start: Vec<Vec<NodeID>> = nodes.iter().map(|n| n.gossip.event_ids()).collect();
    let mut acts = p.acts.clone();
    let mut log: Vec<String> = vec![];
    // Events that were given by a node to another one
    let mut given: BTreeSet<(usize, usize, NodeID)> = BTreeSet::new();
    let mut announced: Vec<Vec<NodeID>> = vec![vec![]; p.n];
    let mut had: Vec<BTreeSet<NodeID>> = nodes.iter().map(|n| n.gossip.event_ids().into_iter().collect()).collect();
    let mut ticks = 0;
    let mut steps = 0;
    let mut settle = true;
    loop {
        x.idle(c);
        let new = sim.pump();
        for (i, n) in nodes.iter_mut().enumerate() {
            while let Ok(GossipOut::NewEvent(e)) = n.tap.try_recv() {
                announced[i].push(e.get_id());
            }
            had[i].extend(n.gossip.event_ids());
        }
        for (from, to, m) in &new {
            if let Some(ModuleMessage::RequestEvents(l)) = module(m) {
                for id in l {
                    c.check(!given.contains(&(*from, *to, id)), "asked-again", || {
                        format!("{from} asks {to} again for the event {id}: {log:?}")
                    });
                }
            }
        }
        c.check(steps < 400, "endless", || format!("the exchange never ends: {log:?}"));
        let pending = sim.pending();
        if p.settled && acts.len() == p.acts.len() && !pending.is_empty() && settle {
            steps += 1;
            let m = sim.deliver(pending[0]);
            if let Some(ModuleMessage::Events(es)) = module(&m) {
                given.extend(es.iter().map(|e| (pending[0].1, pending[0].0, e.get_id())));
            }
            continue;
        }
        settle = false;
        if pending.is_empty() && acts.is_empty() {
            // As long as no connection broke, nobody has to wait for the timer.
            if ticks == 0 && !p.acts.iter().any(|a| matches!(a, Act::Disconnect(..))) {
                for i in 1..p.n {
                    let of = |n: &Node| -> BTreeSet<NodeID> { n.gossip.event_ids().into_iter().collect() };
                    c.check(of(&nodes[0]) == of(&nodes[i]), "only-by-timer", || {
                        format!("0 and {i} have different events, before the timer: {log:?}")
                    });
                }
            }
            if ticks >= p.final_ticks {
                break;
            }
            // Everybody's timer, in the end
            ticks += 1;
            for (i, n) in nodes.iter_mut().enumerate() {
                n.timer.emit_msg_out(TimerMessage::Second).expect("emit");
                n.timer.emit_msg_out(TimerMessage::Minute).expect("emit");
                sim.note(i, &"tick");
            }
            log.push("ticks".into());
            continue;
        }
        let key = (sim.state(), acts.len(), ticks);
        if c.visited(&key, 0) {
            return;
        }
        // The actions keep their order, the deliveries are free.
        let ch = c.choose(pending.len() + usize::from(!acts.is_empty()));
        c.step();
        steps += 1;
        if ch < pending.len() {
            let l = pending[ch];
            let m = sim.deliver(l);
            if let Some(ModuleMessage::Events(es)) = module(&m) {
                given.extend(es.iter().map(|e| (l.1, l.0, e.get_id())));
            }
            log.push(format!("{l:?}"));
            c.label(|| format!("{l:?} {:?}", module(&m)));
            continue;
        }
        let act = acts.remove(0);
        log.push(format!("{act:?}"));
        c.label(|| format!("{act:?}"));
        match act {
            Act::Add(n, e) => {
                model.offer(&e);
                nodes[n].gossip.broker.emit_msg_in(GossipIn::AddEvent(e.clone())).expect("emit");
                sim.note(n, &("add", e.get_id()));
                // A new event is offered to all connected nodes
                x.idle(c);
                let new = sim.pump();
                for id in sim.neighbours(n) {
                    let o = sim.idx(&id).unwrap();
                    let told = new.iter().any(|(f, t, m)| {
                        (*f, *t) == (n, o)
                            && match module(m) {
                                Some(ModuleMessage::KnownEventIDs(l)) => l.contains(&e.get_id()),
                                Some(ModuleMessage::Events(l)) => l.contains(&e),
                                _ => false,
                            }
                    });
                    if nodes[n].gossip.event(&e.get_id()).is_some() && e.src != id {
                        c.check(told, "not-offered", || format!("{n} doesn't offer its new event to {o}: {log:?}"));
                    }
                }
            }
            Act::Connect(a, b) | Act::Disconnect(a, b) => {
                if let Act::Connect(_, _) = act {
                    sim.connect(a, b);
                } else {
                    sim.disconnect(a, b);
                    given.retain(|(f, t, _)| (*f, *t) != (a, b) && (*f, *t) != (b, a));
                }
                for i in [a, b] {
                    let l = sim.neighbours(i);
                    nodes[i].random.emit_msg_out(RandomOut::NodeIDsConnected(l.into())).expect("emit");
                    sim.note(i, &("link", a, b, sim.links.len()));
                }
            }
            Act::Tick(i) => {
                nodes[i].timer.emit_msg_out(TimerMessage::Second).expect("emit");
                nodes[i].timer.emit_msg_out(TimerMessage::Minute).expect("emit");
                sim.note(i, &"tick");
            }
        }
    }
    // All nodes have the same events, which are the newest.
    let mut first: Option<Vec<(usize, u8, i64, String)>> = None;
    for (i, n) in nodes.iter().enumerate() {
        let mut all = vec![];
        for cat in 0..2 {
            let got = n.gossip.events(CATS[cat]);
            if let Err(e) = model.check(cat, max[cat], &got) {
                c.fail("events", format!("node {i}, category {cat}: {e}: {log:?}"));
            }
            all.extend(got.iter().map(short));
        }
        all.sort();
        match &first {
            None => first = Some(all),
            Some(f) => c.check(*f == all, "different", || format!("node {i} has {all:?}, but 0 has {f:?}: {log:?}")),
        }
        // Every new event is announced once to the user
        let mut a = announced[i].clone();
        a.sort();
        let l = a.len();
        a.dedup();
        c.check(l == a.len(), "announced-twice", || format!("node {i}: {log:?}"));
    }
    for i in 0..p.n {
        let new: Vec<&NodeID> = had[i].iter().filter(|id| !announced[i].contains(id)).collect();
        // Everything that wasn't there from the beginning
        let e = model.offered.iter().flatten().filter(|e| new.contains(&&e.get_id()));
        let missing: Vec<_> = e
            .filter(|e| !at_start[i].contains(&e.get_id()))
            .map(short)
            .collect();
        c.check(missing.is_empty(), "not-announced", || format!("node {i}: {missing:?}: {log:?}"));
    }
    c.outcome(&(first, sim.sent));
}

fn g02_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let e = |n: u8, created: i64, msg: &str| ev(0, n, created, msg);
    let inf = |n: u8, created: i64, msg: &str| ev(1, n, created, msg);
    let mut add = |name: &str, p: Plan| {
        ret.push(Scn::exec(name, move |c: &mut Ctx| run(c, &p)));
    };
    let pair = Plan {
        n: 2,
        start: vec![(0, 1)],
        acts: vec![],
        max: None,
        pre: vec![],
        final_ticks: 0,
        synced: false,
        settled: false,
    };
    add("pair", pair.clone());
    add(
        "pair-events",
        Plan {
            acts: vec![Act::Add(0, e(0, 5, "a")), Act::Add(1, e(1, 6, "b"))],
            ..pair.clone()
        },
    );
    add(
        "pair-join",
        Plan {
            start: vec![],
            acts: vec![Act::Add(0, e(0, 5, "a")), Act::Connect(0, 1), Act::Add(1, e(1, 6, "b"))],
            ..pair.clone()
        },
    );
    add(
        "pair-ticks",
        Plan {
            start: vec![],
            acts: vec![Act::Connect(0, 1), Act::Tick(0), Act::Tick(0), Act::Tick(0), Act::Add(1, e(1, 5, "a"))],
            final_ticks: 4,
            ..pair.clone()
        },
    );
    // Connection lost and made again
    add(
        "pair-reconnect",
        Plan {
            acts: vec![
                Act::Add(0, e(0, 5, "a")),
                Act::Disconnect(0, 1),
                Act::Add(1, e(1, 6, "b")),
                Act::Connect(0, 1),
            ],
            final_ticks: 4,
            ..pair.clone()
        },
    );
    // More events than place
    add(
        "pair-full",
        Plan {
            acts: vec![Act::Add(1, e(0, 3, "new"))],
            max: Some([2, 5]),
            pre: vec![
                (0, e(0, 1, "old")),
                (0, e(0, 2, "old2")),
                (1, e(1, 4, "x")),
                (1, e(1, 5, "y")),
            ],
            final_ticks: 4,
            ..pair.clone()
        },
    );
    // Different events of the same source and the same time
    add(
        "pair-same-time",
        Plan {
            max: Some([2, 5]),
            pre: vec![
                (0, e(0, 1, "a")),
                (0, e(0, 1, "b")),
                (1, e(0, 1, "c")),
                (1, e(0, 1, "d")),
                (0, inf(7, 1, "a")),
                (1, inf(7, 1, "b")),
            ],
            final_ticks: 5,
            ..pair.clone()
        },
    );
    // A newer information of a node replaces the older one everywhere
    add(
        "pair-infos",
        Plan {
            pre: vec![(0, inf(7, 1, "a")), (1, inf(7, 2, "b"))],
            acts: vec![Act::Add(0, inf(7, 3, "c"))],
            ..pair.clone()
        },
    );
    let line = Plan {
        n: 3,
        start: vec![(0, 1), (1, 2)],
        ..pair.clone()
    };
    add("line", line.clone());
    if t == Tier::Thorough {
        add(
            "line-events",
            Plan {
                acts: vec![Act::Add(0, e(0, 5, "a")), Act::Add(2, e(2, 6, "b"))],
                ..line.clone()
            },
        );
    }
    let tri = Plan {
        n: 3,
        start: vec![],
        acts: vec![
            Act::Connect(0, 1),
            Act::Connect(1, 2),
            Act::Add(0, e(0, 5, "a")),
            Act::Connect(0, 2),
        ],
        ..pair.clone()
    };
    let synced = Plan { synced: true, ..tri.clone() };
    add("synced-line", Plan { start: vec![(0, 1), (1, 2)], acts: vec![Act::Add(0, e(0, 5, "a")), Act::Add(2, e(2, 6, "b"))], ..synced.clone() });
    let settled = Plan { settled: true, start: vec![(0, 1), (1, 2), (0, 2)], ..synced.clone() };
    add("settled-triangle", Plan { acts: vec![Act::Add(0, e(0, 5, "a")), Act::Add(1, e(1, 6, "b"))], ..settled.clone() });
    add("settled-full", Plan { acts: vec![Act::Add(0, e(0, 5, "a")), Act::Add(1, e(1, 4, "b"))], max: Some([1, 3]), pre: vec![], ..settled.clone() });
    add("synced-infos", Plan { start: vec![(0, 1), (1, 2)], acts: vec![Act::Add(0, inf(7, 2, "a")), Act::Add(2, inf(7, 1, "b"))], ..synced.clone() });
    add("synced-join", Plan { acts: tri.acts[..3].to_vec(), ..synced.clone() });
    if t == Tier::Thorough {
        add("join-line", Plan { acts: tri.acts[..3].to_vec(), ..tri.clone() });
        add("settled-triangle-tick", Plan { acts: vec![Act::Add(0, e(0, 5, "a"))], final_ticks: 3, ..settled.clone() });
        add("synced-triangle", Plan { start: vec![(0, 1), (1, 2), (0, 2)], acts: vec![Act::Add(0, e(0, 5, "a"))], ..synced.clone() });
        add("settled-triangle-3", Plan { acts: vec![Act::Add(0, e(0, 5, "a")), Act::Add(1, e(1, 6, "b")), Act::Add(0, e(0, 7, "c"))], ..settled.clone() });
        add("settled-late-tick", Plan { acts: vec![Act::Tick(0), Act::Tick(0), Act::Tick(0), Act::Add(1, e(1, 6, "b"))], ..settled.clone() });
        add("synced-triangle-join", synced.clone());
    }
    ret
}

// ---------------------------------------------------------------- G03

fn contents(g: &Gossip) -> Vec<(usize, u8, i64, String)> {
    let mut v: Vec<_> = CATS.iter().flat_map(|c| g.events(*c)).map(|e| short(&e)).collect();
    v.sort();
    v
}

fn g03_history(c: &mut Ctx, depth: usize, max: Option<[usize; 2]>) {
    det::reset(1);
    let x = Exec::new();
    let ids = vec![nid(0x10, 0), nid(0x20, 1)];
    let mut ds = DataStorageTemp::new_box();
    if let Some(max) = max {
        ds.set("Gossip", &store_with(max).get().expect("get")).expect("set");
    }
    let inf = info(ids[0]);
    let ds2 = ds.clone_box();
    let inf2 = inf.clone();
    let mut node = x.block(c, start_node(inf2, ds2));
    x.idle(c);
    node.random
        .emit_msg_out(RandomOut::NodeIDsConnected(vec![ids[1]].into()))
        .expect("emit");
    x.idle(c);
    let odd = "x: \"\u{85}\u{0}\n- '\u{1f600}";
    let local = [ev(0, 0, 10, "a"), ev(0, 0, 11, odd), ev(1, 0, 2_000_000_000_000, "me")];
    let remote = [
        vec![ev(0, 1, 10, "b")],
        vec![ev(0, 1, 12, ""), ev(1, 1, 5, odd)],
        vec![ev(1, 1, 6, "new"), ev(1, 2, 6, "x")],
        vec![ev(0, 0, 10, "a")],
    ];
    let mut hist = vec![];
    for _ in 0..depth {
        let n = local.len() + remote.len() + 3;
        let ch = c.choose(n);
        c.step();
        let net = |m: ModuleMessage| {
            RandomOut::NetworkWrapperFromNetwork(ids[1], NetworkWrapper::wrap_yaml("Gossip", &m).expect("wrap"))
        };
        if ch < local.len() {
            hist.push(format!("local {ch}"));
            node.gossip.broker.emit_msg_in(GossipIn::AddEvent(local[ch].clone())).expect("emit");
        } else if ch < local.len() + remote.len() {
            let r = ch - local.len();
            hist.push(format!("remote {r}"));
            node.random.emit_msg_out(net(ModuleMessage::Events(remote[r].clone()))).expect("emit");
        } else {
            match ch - local.len() - remote.len() {
                0 => {
                    hist.push("known".into());
                    let l = remote.iter().flatten().map(|e| e.get_id()).collect();
                    node.random.emit_msg_out(net(ModuleMessage::KnownEventIDs(l))).expect("emit");
                }
                1 => {
                    hist.push("tick".into());
                    node.timer.emit_msg_out(TimerMessage::Second).expect("emit");
                    node.timer.emit_msg_out(TimerMessage::Minute).expect("emit");
                }
                _ => {
                    hist.push("restart".into());
                    node = x.block(c, start_node(inf.clone(), ds.clone_box()));
                    x.idle(c);
                    node.random
                        .emit_msg_out(RandomOut::NodeIDsConnected(vec![ids[1]].into()))
                        .expect("emit");
                }
            }
        }
        x.idle(c);
        // Restart from a copy of the data
        let want = contents(&node.gossip);
        let mut copy = DataStorageTemp::new_box();
        if let Ok(v) = ds.get("Gossip") {
            copy.set("Gossip", &v).expect("set");
        }
        let again = x.block(c, start_node(inf.clone(), copy));
        x.idle(c);
        let got = contents(&again.gossip);
        c.check(got == want, "restart", || format!("{hist:?}: {got:?} instead of {want:?}"));
        drop(again);
    }
    c.label(|| format!("{hist:?}"));
    c.outcome(&(hist, contents(&node.gossip)));
}

fn seq(b: &[u8]) -> Value {
    Value::Sequence(b.iter().map(|b| Value::Number((*b as u64).into())).collect())
}

fn map(l: Vec<(Value, Value)>) -> Value {
    Value::Mapping(l.into_iter().collect())
}

fn st(s: &str) -> Value {
    Value::String(s.into())
}

/// The formats of the versions before the current one
fn old_format(version: usize, events: &[Event]) -> String {
    let mut cats = vec![];
    for (cat, name, unique, max) in [(0, "TextMessage", false, 50u64), (1, "NodeInfo", true, 100)] {
        let evs = events
            .iter()
            .filter(|e| ci(e.category) == cat)
            .map(|e| {
                let id = match version {
                    0 | 1 => seq(&e.get_id().to_bytes()),
                    // These had different IDs
                    2 => st(&hex(&nid(e.created as u8, e.msg.len() as u8 + 16 * e.src.to_bytes()[31]).to_bytes())),
                    _ => st(&hex(&e.get_id().to_bytes())),
                };
                let src = match version {
                    0 | 1 => seq(&e.src.to_bytes()),
                    _ => st(&hex(&e.src.to_bytes())),
                };
                let created = match version {
                    2 => Value::Number((e.created as f64).into()),
                    _ => Value::Number(e.created.into()),
                };
                (
                    id,
                    map(vec![
                        (st("category"), st(name)),
                        (st("src"), src),
                        (st("created"), created),
                        (st("msg"), st(&e.msg)),
                    ]),
                )
            })
            .collect();
        cats.push((
            st(name),
            map(vec![
                (
                    st("config"),
                    map(vec![(st("unique"), Value::Bool(unique)), (st("max_events"), Value::Number(max.into()))]),
                ),
                (st("events"), map(evs)),
            ]),
        ));
    }
    let storage = map(vec![(st("storage"), map(cats))]);
    let v = match version {
        0 => storage,
        v => map(vec![(st(&format!("V{v}")), storage)]),
    };
    serde_yaml::to_string(&v).expect("yaml")
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn g03_formats(c: &mut Ctx) {
    let pool = [
        ev(0, 0, 0, ""),
        ev(0, 1, 1_700_000_000_123, "x: \"\u{85}\n- '\u{1f600}"),
        ev(0, 1, (1 << 53) - 1, "~"),
        ev(1, 0, 1, "123"),
        ev(1, 1, 1_700_000_000_001, "name: a\n"),
    ];
    let version = c.choose(5);
    let mask = c.choose(1 << pool.len());
    let events: Vec<Event> = pool.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, e)| e.clone()).collect();
    c.step();
    let data = old_format(version, &events);
    let mut s = EventsStorage::new();
    if let Err(e) = s.set(&data) {
        c.fail("format", format!("version {version} cannot be read: {e:?}\n{data}"));
    }
    let mut m = Model::default();
    for e in &events {
        m.offer(e);
    }
    c.label(|| format!("version {version}: {mask:b}"));
    queries(c, &s, &m, [50, 100], &|| format!("version {version}: {data}"));
    // And it can be used
    let e = ev(0, 5, 77, "new");
    c.check(s.add_event(e.clone()), "format-add", || data.clone());
    m.offer(&e);
    queries(c, &s, &m, [50, 100], &|| format!("version {version}: {data}"));
    c.outcome(&(version, mask));
}

#[derive(Debug)]
struct Broken;

impl DataStorage for Broken {
    fn get(&self, _: &str) -> Result<String, StorageError> {
        Err(StorageError::Underlying("no".into()))
    }
    fn set(&mut self, _: &str, _: &str) -> Result<(), StorageError> {
        Err(StorageError::Underlying("no".into()))
    }
    fn remove(&mut self, _: &str) -> Result<(), StorageError> {
        Err(StorageError::Underlying("no".into()))
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(Broken)
    }
}

/// A node starts with any content of its storage, and works afterwards.
fn usable(c: &mut Ctx, ds: Box<dyn DataStorage + Send>, what: &str, limits: bool) {
    let x = Exec::new();
    let id = nid(0x10, 0);
    let inf = info(id);
    let mut node = x.block(c, start_node(inf, ds));
    x.idle(c);
    let e = ev(0, 3, 5, "new");
    node.gossip.broker.emit_msg_in(GossipIn::AddEvent(e.clone())).expect("emit");
    x.idle(c);
    if !limits {
        // The limits of the categories might have been changed
        return;
    }
    c.check(node.gossip.chat_events().contains(&e), "unusable", || format!("chat events with {what}"));
    let own = node.gossip.events(Category::NodeInfo);
    c.check(own.iter().any(|e| e.src == id), "unusable", || format!("no own info with {what}"));
}

fn g03_cut(c: &mut Ctx, version: usize, cut: bool) {
    det::reset(1);
    let evs = [ev(0, 1, 1, "a"), ev(1, 1, 1, "b")];
    let data = if version == 5 {
        let mut s = EventsStorage::new();
        for e in &evs {
            s.add_event(e.clone());
        }
        s.get().expect("get")
    } else {
        old_format(version, &evs)
    };
    let mut bytes = data.into_bytes();
    let pos = c.choose(bytes.len() + 1);
    if cut {
        bytes.truncate(pos);
    } else {
        // Damage one byte
        if pos == bytes.len() {
            c.trivial();
            return;
        }
        bytes[pos] = *c.pick(&[b' ', b'\n', b':', b'0', b'x', 0]);
    }
    c.step();
    let s = String::from_utf8_lossy(&bytes).to_string();
    let mut ds = DataStorageTemp::new_box();
    ds.set("Gossip", &s).expect("set");
    c.label(|| format!("{s:?}"));
    usable(c, ds, &format!("{s:?}"), cut);
    c.outcome(&s);
}

fn g03_broken(c: &mut Ctx) {
    det::reset(1);
    let what = ["error", "", "\n", "~", "[]", "{}", "storage: {}", "V4: {}", "V4:\n  storage: {}", "V9: 1", "\u{0}", "a: b: c"];
    let i = c.choose(what.len());
    c.step();
    let ds: Box<dyn DataStorage + Send> = if i == 0 {
        Box::new(Broken)
    } else {
        let mut ds = DataStorageTemp::new_box();
        ds.set("Gossip", what[i]).expect("set");
        ds
    };
    c.label(|| what[i].into());
    c.tag(what[i]);
    usable(c, ds, what[i], true);
    c.outcome(&i);
}

fn g03_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let depth = t.pick(4, 5);
    ret.push(Scn::exec("history", move |c: &mut Ctx| g03_history(c, t.pick(4, 6), None)));
    ret.push(Scn::exec("history-full", move |c: &mut Ctx| g03_history(c, depth, Some([2, 2]))));
    ret.push(Scn::new("formats", g03_formats));
    ret.push(Scn::exec("broken", g03_broken));
    for v in 0..=5 {
        ret.push(Scn::exec(format!("cut-{v}"), move |c: &mut Ctx| g03_cut(c, v, true)));
    }
    for v in t.pick(vec![5], vec![0, 1, 2, 3, 4, 5]) {
        ret.push(Scn::exec(format!("damaged-{v}"), move |c: &mut Ctx| g03_cut(c, v, false)));
    }
    ret
}
