//! N01, N02: random connections and the router directly on top of the network.
use std::collections::{BTreeMap, BTreeSet};

use flarch::{broker::Broker, nodeids::NodeID};
use flmodules::{
    network::{
        broker::{BrokerNetwork, NetworkIn, NetworkOut, MODULE_NAME},
        signal::FledgerConfig,
    },
    nodeconfig::{NodeConfig, NodeInfo},
    random_connections::{
        broker::{BrokerRandom, RandomBroker, RandomIn, RandomOut},
        core::RandomStats,
        intern::ModuleMessage,
    },
    router::{
        broker::{BrokerRouter, RouterNetwork, RouterRandom},
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    timer::{BrokerTimer, TimerMessage},
};
use tokio::sync::{mpsc::UnboundedReceiver, watch};

use super::k_kademlia::nid;
use crate::{
    det,
    engine::*,
    exec::{Exec, Mode},
};

pub fn n01() -> Prop {
    Prop {
        id: "N01",
        level: "exploration",
        rule: "every history of lists, reports, messages and ticks from the alphabet is executed on the running module and compared with \
               a reference model after every event; distinct_nontrivial counts different (history, emitted messages)",
        assumptions: &["the random choice of a peer is covered by three seeds of the random generator"],
        scenarios: n01_scenarios,
    }
}

pub fn n02() -> Prop {
    Prop {
        id: "N02",
        level: "exploration",
        rule: "every history of events of the network and of outgoing messages is executed on the running router and compared with a \
               reference model; distinct_nontrivial counts different (history, emitted messages)",
        assumptions: &["a message of a peer that has not been reported counts as a report of its connection"],
        scenarios: n02_scenarios,
    }
}

fn peer(i: usize) -> NodeID {
    nid([0x80, 0x41, 0x22, 0x13, 0xc4, 0x05, 0xe6, 0x77][i % 8], i as u8 + 1)
}

const SELF: u8 = 0x99;

/// Information of a node, `gen` changes its name.
fn ninfo(id: NodeID, gen: usize) -> NodeInfo {
    let mut i = NodeConfig::new().info;
    i.pubkey = id.to_bytes().to_vec();
    i.name = format!("{}-{gen}", &format!("{id:x}")[..4]);
    i
}

fn pidx(id: &NodeID) -> String {
    if id.to_bytes()[0] == SELF {
        return "self".into();
    }
    format!("P{}", id.to_bytes()[31] as i32 - 1)
}

fn ids(l: &[NodeID]) -> Vec<String> {
    l.iter().map(pidx).collect()
}

fn dup(l: &[NodeID]) -> bool {
    l.iter().enumerate().any(|(i, e)| l[..i].contains(e))
}

fn wrap(s: &str) -> NetworkWrapper {
    NetworkWrapper {
        module: format!("Mod{s}"),
        msg: format!("text: {s}\n"),
    }
}

// ---------------------------------------------------------------- N01

#[derive(Clone, Debug)]
enum Ev {
    /// (peer, generation of its info), 100 is the node itself
    List(Vec<(usize, usize)>),
    Connected(usize),
    Disconnected(usize),
    Module(usize),
    Drop(usize),
    Failure(usize),
    Send(usize),
    Ticks(usize),
}

const TIMEOUT: usize = 10;

struct Rnd {
    network: BrokerNetwork,
    timer: BrokerTimer,
    random: BrokerRandom,
    stats: watch::Receiver<RandomStats>,
    net_in: UnboundedReceiver<NetworkIn>,
    out: UnboundedReceiver<RandomOut>,
}

#[derive(Default)]
struct RndModel {
    connected: BTreeSet<NodeID>,
    /// Ticks since the attempt
    pending: BTreeMap<NodeID, usize>,
    known: BTreeSet<NodeID>,
    infos: BTreeMap<NodeID, NodeInfo>,
    ticks: usize,
}

fn needed(n: usize) -> usize {
    match n {
        0 | 1 => n,
        _ => ((n as f64).ln() * 2.).ceil() as usize,
    }
}

impl RndModel {
    fn gone(&mut self, id: &NodeID) {
        self.connected.remove(id);
        self.pending.remove(id);
        self.known.remove(id);
    }
    fn here(&mut self, id: &NodeID) {
        self.connected.insert(*id);
        self.pending.remove(id);
        self.known.insert(*id);
    }
}

fn start_random(x: &Exec, c: &mut Ctx) -> Rnd {
    x.block(c, async move {
        let mut network: BrokerNetwork = Broker::new();
        let timer: BrokerTimer = Broker::new();
        let net_in = network.get_tap_in().await.expect("tap").0;
        let mut r = RandomBroker::start(nid(SELF, 0xff), timer.clone(), network.clone()).await.expect("start");
        let out = r.broker.get_tap_out().await.expect("tap").0;
        Rnd {
            network,
            timer,
            random: r.broker,
            stats: r.stats,
            net_in,
            out,
        }
    })
}

impl Rnd {
    fn tick(&mut self) {
        self.timer.emit_msg_out(TimerMessage::Second).expect("emit");
    }

    /// Emits the event without running anything. Returns the message to be passed on or sent.
    fn emit(&mut self, e: &Ev, seq: usize) {
        match e {
            Ev::List(l) => {
                let l = l
                    .iter()
                    .map(|(p, g)| if *p == 100 { ninfo(nid(SELF, 0xff), *g) } else { ninfo(peer(*p), *g) })
                    .collect();
                self.network.emit_msg_out(NetworkOut::NodeListFromWS(l)).expect("emit");
            }
            Ev::Connected(p) => self.network.emit_msg_out(NetworkOut::Connected(peer(*p))).expect("emit"),
            Ev::Disconnected(p) => self.network.emit_msg_out(NetworkOut::Disconnected(peer(*p))).expect("emit"),
            Ev::Module(p) => {
                let m = ModuleMessage::Module(wrap(&format!("m{seq}")));
                let w = NetworkWrapper::wrap_yaml(MODULE_NAME, &m).expect("wrap");
                self.network.emit_msg_out(NetworkOut::MessageFromNode(peer(*p), w)).expect("emit")
            }
            Ev::Drop(p) => {
                let w = NetworkWrapper::wrap_yaml(MODULE_NAME, &ModuleMessage::DropConnection).expect("wrap");
                self.network.emit_msg_out(NetworkOut::MessageFromNode(peer(*p), w)).expect("emit")
            }
            Ev::Failure(p) => self.random.emit_msg_in(RandomIn::NodeFailure(peer(*p))).expect("emit"),
            Ev::Send(p) => self
                .random
                .emit_msg_in(RandomIn::NetworkWrapperToNetwork(peer(*p), wrap(&format!("s{seq}"))))
                .expect("emit"),
            Ev::Ticks(_) => self.tick(),
        }
    }
}

fn n01_history(c: &mut Ctx, alphabet: &[Ev], depth: usize, prefix: &[Ev], seed: u64) {
    det::reset(seed);
    let x = Exec::new();
    let mut r = start_random(&x, c);
    let mut m = RndModel::default();
    let mut hist: Vec<Ev> = vec![];
    let mut obs = vec![];
    let me = nid(SELF, 0xff);
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() { prefix[step].clone() } else { c.pick(alphabet).clone() };
        c.step();
        hist.push(e.clone());
        c.label(|| format!("{e:?}"));
        let n = if let Ev::Ticks(n) = e { n } else { 1 };
        for _ in 0..n {
            let was = m.connected.clone();
            r.emit(&e, step);
            x.idle(c);
            // The effect of the event itself
            let mut announce = true;
            let mut must_drop = None;
            match &e {
                Ev::List(l) => {
                    announce = false;
                    for (p, g) in l.iter().filter(|(p, _)| *p != 100) {
                        m.known.insert(peer(*p));
                        m.infos.insert(peer(*p), ninfo(peer(*p), *g));
                    }
                }
                Ev::Connected(p) => m.here(&peer(*p)),
                Ev::Module(p) => {
                    announce = false;
                    m.here(&peer(*p))
                }
                Ev::Disconnected(p) => m.gone(&peer(*p)),
                Ev::Drop(p) => {
                    announce = false;
                    must_drop = Some(peer(*p));
                    m.gone(&peer(*p))
                }
                Ev::Failure(p) => {
                    must_drop = Some(peer(*p));
                    m.gone(&peer(*p))
                }
                Ev::Send(p) => {
                    if !m.connected.contains(&peer(*p)) {
                        m.gone(&peer(*p))
                    } else {
                        announce = false
                    }
                }
                Ev::Ticks(_) => {
                    m.ticks += 1;
                    for t in m.pending.values_mut() {
                        *t += 1
                    }
                    // Attempts that took too long don't count anymore
                    for id in m.pending.iter().filter(|(_, t)| **t >= TIMEOUT).map(|(i, _)| *i).collect::<Vec<_>>() {
                        m.pending.remove(&id);
                    }
                }
            }
            let what = || format!("{hist:?}");
            // What has been sent to the network
            let mut sent = vec![];
            while let Ok(n) = r.net_in.try_recv() {
                obs.push(fp(&format!("{n:?}")));
                match n {
                    NetworkIn::Connect(id) => {
                        c.label(|| format!("  connect {}", pidx(&id)));
                        c.check(id != me, "connect-self", what);
                        c.check(m.known.contains(&id), "connect-unknown", || format!("{}: {}", pidx(&id), what()));
                        c.check(!m.connected.contains(&id), "connect-connected", || format!("{}: {}", pidx(&id), what()));
                        c.check(!m.pending.contains_key(&id), "connect-pending", || format!("{}: {}", pidx(&id), what()));
                        m.pending.insert(id, 0);
                    }
                    NetworkIn::Disconnect(id) => {
                        c.check(!m.connected.contains(&id), "disconnect-connected", || format!("{}: {}", pidx(&id), what()));
                        if must_drop == Some(id) {
                            must_drop = None;
                        }
                    }
                    NetworkIn::MessageToNode(id, w) => {
                        c.check(was.contains(&id), "message-unconnected", || format!("{}: {}", pidx(&id), what()));
                        sent.push((id, w));
                    }
                    o => c.fail("unexpected", format!("{o:?}: {}", what())),
                }
            }
            c.check(must_drop.is_none(), "not-dropped", what);
            let want = match &e {
                Ev::Send(p) if was.contains(&peer(*p)) => {
                    let msg = ModuleMessage::Module(wrap(&format!("s{step}")));
                    vec![(peer(*p), NetworkWrapper::wrap_yaml(MODULE_NAME, &msg).expect("wrap"))]
                }
                _ => vec![],
            };
            c.check(sent == want, "sent", || format!("{sent:?} instead of {want:?}: {}", what()));
            // What has been announced
            let mut passed = vec![];
            let mut last: Option<BTreeSet<NodeID>> = None;
            while let Ok(o) = r.out.try_recv() {
                obs.push(fp(&format!("{o:?}")));
                match o {
                    RandomOut::NodeIDsConnected(l) => {
                        c.check(!dup(&l.0), "announced-dup", || format!("{:?}: {}", ids(&l.0), what()));
                        let l: BTreeSet<NodeID> = l.0.into_iter().collect();
                        c.check(l == m.connected, "announced", || {
                            format!(
                                "{:?} instead of {:?}: {}",
                                l.iter().map(pidx).collect::<Vec<_>>(),
                                m.connected.iter().map(pidx).collect::<Vec<_>>(),
                                what()
                            )
                        });
                        last = Some(l);
                    }
                    RandomOut::NodeInfosConnected(l) => {
                        let got: Vec<NodeID> = l.iter().map(|i| i.get_id()).collect();
                        c.check(!dup(&got), "infos-dup", || format!("{:?}: {}", l, what()));
                        let mut got: Vec<(NodeID, String)> = l.iter().map(|i| (i.get_id(), i.name.clone())).collect();
                        got.sort();
                        let want: Vec<(NodeID, String)> = m
                            .infos
                            .iter()
                            .filter(|(id, _)| m.connected.contains(id))
                            .map(|(id, i)| (*id, i.name.clone()))
                            .collect();
                        c.check(got == want, "infos", || format!("{got:?} instead of {want:?}: {}", what()));
                    }
                    RandomOut::NetworkWrapperFromNetwork(id, w) => passed.push((id, w)),
                }
            }
            c.check(last.is_some() || !announce, "not-announced", what);
            let want = match &e {
                Ev::Module(p) => vec![(peer(*p), wrap(&format!("m{step}")))],
                _ => vec![],
            };
            c.check(passed == want, "passed", || format!("{passed:?} instead of {want:?}: {}", what()));
            if matches!(e, Ev::Ticks(_)) {
                n01_stats(c, &r.stats.borrow().clone(), &m, &what);
            }
        }
    }
    c.label(|| format!("{hist:?}"));
    c.outcome(&(seed, format!("{hist:?}"), obs));
}

fn n01_stats(c: &mut Ctx, s: &RandomStats, m: &RndModel, what: &dyn Fn() -> String) {
    let me = nid(SELF, 0xff);
    let conn = s.connected.get_nodes().0;
    let pend = s.connecting.get_nodes().0;
    for (n, l) in [("connected", &conn), ("connecting", &pend), ("known", &s.known.0)] {
        c.check(!dup(l), "stats-dup", || format!("{n} {:?}: {}", ids(l), what()));
        c.check(!l.contains(&me), "stats-self", || format!("{n} {:?}: {}", ids(l), what()));
    }
    c.check(!conn.iter().any(|i| pend.contains(i)), "stats-disjoint", || format!("{:?} {:?}: {}", ids(&conn), ids(&pend), what()));
    c.check(conn.iter().cloned().collect::<BTreeSet<_>>() == m.connected, "stats-connected", || {
        format!("{:?} instead of {:?}: {}", ids(&conn), m.connected.iter().map(pidx).collect::<Vec<_>>(), what())
    });
    c.check(pend.iter().cloned().collect::<BTreeSet<_>>() == m.pending.keys().cloned().collect(), "stats-pending", || {
        format!("{:?} instead of {:?}: {}", ids(&pend), m.pending.keys().map(pidx).collect::<Vec<_>>(), what())
    });
    // Peers that never answered can be known or not.
    let total = m.connected.len() + m.pending.len();
    let known = s.known.0.iter().filter(|id| m.known.contains(id)).count();
    let want = ((needed(known) + 1) / 2).min(known);
    c.check(total >= want, "too-few", || format!("{total} instead of {want} connections: {}", what()));
    for id in m.connected.iter().chain(m.pending.keys()) {
        c.check(s.known.0.contains(id), "known", || format!("{} isn't known: {}", pidx(id), what()));
    }
}

/// Enough ticks always lead to attempts for all wanted connections, also if peers never answer.
fn n01_fill(c: &mut Ctx, peers: usize, seed: u64) {
    det::reset(seed);
    let x = Exec::new();
    let mut r = start_random(&x, c);
    r.emit(&Ev::List((0..peers).map(|p| (p, 0)).collect()), 0);
    x.idle(c);
    // Which peers answer, and when
    let answers: Vec<bool> = (0..peers).map(|_| c.flip()).collect();
    let delay = c.choose(3);
    let mut tried: BTreeMap<NodeID, usize> = BTreeMap::new();
    let mut connected = BTreeSet::new();
    let what = || format!("{peers} peers, answers {answers:?}, delay {delay}");
    let relist = 60;
    for t in 0..10 * (peers + 2) * 2 + 2 * relist {
        c.step();
        while let Ok(n) = r.net_in.try_recv() {
            if let NetworkIn::Connect(id) = n {
                tried.insert(id, t);
            }
        }
        for (i, a) in answers.iter().enumerate() {
            if *a && tried.get(&peer(i)) == Some(&(t - delay.min(t))) && connected.insert(peer(i)) {
                r.emit(&Ev::Connected(i), t);
                x.idle(c);
            }
        }
        if t % relist == relist - 1 {
            // The signalling server regularly sends the list
            r.emit(&Ev::List((0..peers).map(|p| (p, 0)).collect()), t);
            x.idle(c);
        }
        r.tick();
        x.idle(c);
    }
    let alive = answers.iter().filter(|a| **a).count();
    // Peers that don't answer are forgotten till the next list, so only half of the connections are guaranteed
    let want = if alive == peers { needed(peers) } else { ((needed(peers) + 1) / 2).min(alive) };
    c.check(connected.len() >= want, "never-connected", || {
        format!("connected to {} instead of {want} peers: {}", connected.len(), what())
    });
    c.label(|| format!("{}: {:?}", what(), connected.iter().map(pidx).collect::<Vec<_>>()));
    c.outcome(&(peers, seed, answers.clone(), delay, connected));
}

/// The same events in one burst, with all schedules up to a bound: after a last tick everything is consistent.
fn n01_burst(c: &mut Ctx, alphabet: &[Ev], depth: usize, mode: Mode) {
    let x = Exec::new();
    let mut r = start_random(&x, c);
    let mut m: BTreeSet<NodeID> = BTreeSet::new();
    let mut hist = vec![];
    let mut passed = vec![];
    for step in 0..depth {
        let e = c.pick(alphabet).clone();
        c.step();
        match &e {
            Ev::Connected(p) => {
                m.insert(peer(*p));
            }
            Ev::Module(p) => {
                m.insert(peer(*p));
                passed.push((peer(*p), wrap(&format!("m{step}"))));
            }
            Ev::Disconnected(p) | Ev::Drop(p) => {
                m.remove(&peer(*p));
            }
            _ => {}
        }
        r.emit(&e, step);
        hist.push(e);
    }
    x.run(c, mode);
    r.tick();
    x.idle(c);
    let what = || format!("{hist:?}");
    let mut got = vec![];
    let mut last = None;
    while let Ok(o) = r.out.try_recv() {
        match o {
            RandomOut::NetworkWrapperFromNetwork(id, w) => got.push((id, w)),
            RandomOut::NodeIDsConnected(l) => last = Some(l.0.into_iter().collect::<BTreeSet<_>>()),
            _ => {}
        }
    }
    c.check(got == passed, "burst-passed", || format!("{got:?} instead of {passed:?}: {}", what()));
    c.check(last.as_ref() == Some(&m), "burst-connected", || {
        format!("{last:?} instead of {:?}: {}", m.iter().map(pidx).collect::<Vec<_>>(), what())
    });
    c.label(|| format!("{hist:?}"));
    c.outcome(&format!("{hist:?}"));
}

fn n01_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let events = |peers: usize| {
        let mut a = vec![Ev::Ticks(1), Ev::Ticks(10)];
        a.push(Ev::List((0..peers).map(|p| (p, 0)).collect()));
        a.push(Ev::List(vec![(0, 1), (100, 0), (0, 1)]));
        a.push(Ev::List(vec![(1, 2), (0, 0), (1, 3)]));
        for p in 0..peers {
            a.extend([Ev::Connected(p), Ev::Disconnected(p), Ev::Module(p), Ev::Drop(p), Ev::Failure(p), Ev::Send(p)]);
        }
        a
    };
    let two = events(2);
    let d = t.pick(4, 5);
    ret.push(Scn::exec("two peers", move |c: &mut Ctx| n01_history(c, &two, d, &[], 1)));
    // Three and six peers with a list
    for (peers, seeds) in [(3usize, 3u64), (6, 3)] {
        for seed in 0..seeds {
            let all: Vec<(usize, usize)> = (0..peers).map(|p| (p, 0)).collect();
            let alpha = events(3);
            ret.push(Scn::exec(format!("{peers} peers seed {seed}"), move |c: &mut Ctx| {
                n01_history(c, &alpha, t.pick(3, 4), &[Ev::List(all.clone())], seed)
            }));
        }
    }
    // Pending connections, and ticks at all positions
    for seed in 0..3u64 {
        let mut a = vec![Ev::Ticks(1), Ev::Ticks(4), Ev::Ticks(10)];
        for p in 0..3 {
            a.extend([Ev::Connected(p), Ev::Disconnected(p)]);
        }
        a.push(Ev::List((0..4).map(|p| (p, 1)).collect()));
        let pre = vec![Ev::List((0..4).map(|p| (p, 0)).collect()), Ev::Ticks(1)];
        ret.push(Scn::exec(format!("pending seed {seed}"), move |c: &mut Ctx| {
            n01_history(c, &a, t.pick(4, 5), &pre, seed)
        }));
    }
    for seed in 0..t.pick(2, 4u64) {
        for peers in [1, 2, 4, 6, 8] {
            ret.push(Scn::exec(format!("fill {peers} seed {seed}"), move |c: &mut Ctx| n01_fill(c, peers, seed)));
        }
    }
    let a: Vec<Ev> = (0..2)
        .flat_map(|p| [Ev::Connected(p), Ev::Disconnected(p), Ev::Module(p), Ev::Drop(p)])
        .collect();
    ret.push(Scn::exec("burst", move |c: &mut Ctx| n01_burst(c, &a, t.pick(2, 3), Mode::Delay(t.pick(1, 2)))));
    ret
}

// ---------------------------------------------------------------- N02

#[derive(Clone, Debug)]
enum Rv {
    Connected(usize),
    Disconnected(usize),
    Message(usize),
    List(Vec<(usize, usize)>),
    Config,
    Send(usize),
    Other,
}

struct Rtr {
    network: BrokerNetwork,
    router: BrokerRouter,
    net_in: UnboundedReceiver<NetworkIn>,
    out: UnboundedReceiver<RouterOut>,
}

fn start_router(x: &Exec, c: &mut Ctx) -> Rtr {
    x.block(c, async move {
        let mut network: BrokerNetwork = Broker::new();
        let net_in = network.get_tap_in().await.expect("tap").0;
        let mut router = RouterNetwork::start(network.clone()).await.expect("start");
        let out = router.get_tap_out().await.expect("tap").0;
        Rtr {
            network,
            router,
            net_in,
            out,
        }
    })
}

fn conf() -> FledgerConfig {
    FledgerConfig {
        system_realm: Some(f_rid()),
    }
}

fn f_rid() -> flmodules::flo::realm::RealmID {
    super::f_flo::rid()
}

impl Rtr {
    fn emit(&mut self, e: &Rv, seq: usize) {
        let m = match e {
            Rv::Connected(p) => NetworkOut::Connected(peer(*p)),
            Rv::Disconnected(p) => NetworkOut::Disconnected(peer(*p)),
            Rv::Message(p) => NetworkOut::MessageFromNode(peer(*p), wrap(&format!("m{seq}"))),
            Rv::List(l) => NetworkOut::NodeListFromWS(l.iter().map(|(p, g)| ninfo(peer(*p), *g)).collect()),
            Rv::Config => NetworkOut::SystemConfig(conf()),
            Rv::Other => NetworkOut::Error("error".into()),
            Rv::Send(p) => {
                let m = RouterIn::NetworkWrapperToNetwork(peer(*p), wrap(&format!("s{seq}")));
                self.router.emit_msg_in(m).expect("emit");
                return;
            }
        };
        self.network.emit_msg_out(m).expect("emit");
    }
}

/// What a user of the router has been told
#[derive(Default)]
struct Told {
    by_event: BTreeSet<NodeID>,
    by_list: Option<BTreeSet<NodeID>>,
    messages: Vec<(NodeID, NetworkWrapper)>,
    configs: usize,
    changes: Vec<(bool, NodeID)>,
    available: Vec<(NodeID, String)>,
}

impl Told {
    fn take(&mut self, c: &mut Ctx, o: RouterOut, what: &dyn Fn() -> String) {
        match o {
            RouterOut::Connected(id) => {
                c.check(self.by_event.insert(id), "connected-twice", || format!("{}: {}", pidx(&id), what()));
                self.changes.push((true, id));
            }
            RouterOut::Disconnected(id) => {
                c.check(self.by_event.remove(&id), "disconnected-twice", || format!("{}: {}", pidx(&id), what()));
                self.changes.push((false, id));
            }
            RouterOut::NodeIDsConnected(l) => {
                c.check(!dup(&l.0), "list-dup", || format!("{:?}: {}", ids(&l.0), what()));
                self.by_list = Some(l.0.into_iter().collect());
            }
            RouterOut::NodeInfosConnected(l) => {
                let l: Vec<NodeID> = l.iter().map(|i| i.get_id()).collect();
                c.check(!dup(&l), "infos-dup", || format!("{:?}: {}", ids(&l), what()));
                let conn = self.by_list.clone().unwrap_or_default();
                let want: BTreeSet<NodeID> = self.available.iter().map(|(i, _)| *i).filter(|i| conn.contains(i)).collect();
                c.check(l.iter().cloned().collect::<BTreeSet<_>>() == want, "infos", || {
                    format!("{:?} are connected, {:?} announced: {}", want.iter().map(pidx).collect::<Vec<_>>(), ids(&l), what())
                });
            }
            RouterOut::NetworkWrapperFromNetwork(id, w) => {
                c.check(self.by_event.contains(&id), "message-before-connected", || format!("{}: {}", pidx(&id), what()));
                c.check(self.by_list.as_ref().map(|l| l.contains(&id)).unwrap_or(false), "message-before-list", || {
                    format!("{}: {}", pidx(&id), what())
                });
                self.messages.push((id, w));
            }
            RouterOut::SystemConfig(f) => {
                c.check(f == conf(), "config", || format!("{f:?}: {}", what()));
                self.configs += 1;
            }
            RouterOut::NodeInfoAvailable(l) => self.available = l.iter().map(|i| (i.get_id(), i.name.clone())).collect(),
        }
    }
}

fn n02_history(c: &mut Ctx, alphabet: &[Rv], depth: usize, burst: Option<Mode>) {
    let x = Exec::new();
    let mut r = start_router(&x, c);
    let mut told = Told::default();
    let mut hist: Vec<Rv> = vec![];
    let mut conn: BTreeSet<NodeID> = BTreeSet::new();
    let mut messages = vec![];
    let mut changes = vec![];
    let mut available: Vec<(NodeID, String)> = vec![];
    let mut sent = vec![];
    let mut configs = 0;
    for step in 0..depth {
        let e = c.pick(alphabet).clone();
        c.step();
        c.label(|| format!("{e:?}"));
        hist.push(e.clone());
        r.emit(&e, step);
        match &e {
            Rv::Connected(p) => {
                if conn.insert(peer(*p)) {
                    changes.push((true, peer(*p)))
                }
            }
            Rv::Disconnected(p) => {
                if conn.remove(&peer(*p)) {
                    changes.push((false, peer(*p)))
                }
            }
            Rv::Message(p) => {
                if conn.insert(peer(*p)) {
                    changes.push((true, peer(*p)))
                }
                messages.push((peer(*p), wrap(&format!("m{step}"))));
            }
            Rv::List(l) => available = l.iter().map(|(p, g)| (peer(*p), ninfo(peer(*p), *g).name)).collect(),
            Rv::Config => configs += 1,
            Rv::Send(p) => sent.push((peer(*p), wrap(&format!("s{step}")))),
            Rv::Other => {}
        }
        match burst {
            None => x.idle(c),
            Some(_) if step + 1 < depth => continue,
            Some(m) => x.run(c, m),
        }
        let h = hist.clone();
        let what = move || format!("{h:?}");
        while let Ok(o) = r.out.try_recv() {
            told.take(c, o, &what);
        }
        c.check(told.by_event == conn, "connected", || format!("{:?} instead of {conn:?}: {}", told.by_event, what()));
        c.check(told.by_list.clone().unwrap_or_default() == conn, "connected-list", || {
            format!("{:?} instead of {conn:?}: {}", told.by_list, what())
        });
        c.check(told.changes == changes, "changes", || format!("{:?} instead of {changes:?}: {}", told.changes, what()));
        c.check(told.messages == messages, "messages", || format!("{:?} instead of {messages:?}: {}", told.messages, what()));
        c.check(told.configs == configs, "configs", || format!("{} instead of {configs}: {}", told.configs, what()));
        c.check(told.available == available, "available", || format!("{:?} instead of {available:?}: {}", told.available, what()));
        let mut got = vec![];
        while let Ok(n) = r.net_in.try_recv() {
            match n {
                NetworkIn::MessageToNode(id, w) => got.push((id, w)),
                o => c.fail("unexpected", format!("{o:?}: {}", what())),
            }
        }
        let want: Vec<_> = sent.drain(..).collect();
        c.check(got == want, "sent", || format!("{got:?} instead of {want:?}: {}", what()));
    }
    c.label(|| format!("{hist:?}"));
    c.outcome(&format!("{hist:?}"));
}

/// The router on top of random connections passes everything on, one to one.
fn n02_random(c: &mut Ctx, depth: usize) {
    let x = Exec::new();
    let (mut random, mut router, mut tin, mut tout) = x.block(c, async move {
        let mut random: BrokerRandom = Broker::new();
        let mut router = RouterRandom::start(random.clone()).await.expect("start");
        let tin = random.get_tap_in().await.expect("tap").0;
        let tout = router.get_tap_out().await.expect("tap").0;
        (random, router, tin, tout)
    });
    let (mut want_in, mut want_out, mut hist) = (vec![], vec![], vec![]);
    for step in 0..depth {
        let e = c.choose(8);
        let p = peer(e % 2);
        hist.push(e);
        c.step();
        match e / 2 {
            0 => {
                let w = wrap(&format!("s{step}"));
                router.emit_msg_in(RouterIn::NetworkWrapperToNetwork(p, w.clone())).expect("emit");
                want_in.push(RandomIn::NetworkWrapperToNetwork(p, w));
            }
            1 => {
                let w = wrap(&format!("m{step}"));
                random.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(p, w.clone())).expect("emit");
                want_out.push(RouterOut::NetworkWrapperFromNetwork(p, w));
            }
            2 => {
                random.emit_msg_out(RandomOut::NodeIDsConnected(vec![p].into())).expect("emit");
                want_out.push(RouterOut::NodeIDsConnected(vec![p].into()));
            }
            _ => {
                random.emit_msg_out(RandomOut::NodeInfosConnected(vec![ninfo(p, 0)])).expect("emit");
                want_out.push(RouterOut::NodeInfosConnected(vec![ninfo(p, 0)]));
            }
        }
        if c.flip() {
            x.idle(c);
        }
    }
    x.idle(c);
    let (mut got_in, mut got_out) = (vec![], vec![]);
    while let Ok(m) = tin.try_recv() {
        got_in.push(m);
    }
    while let Ok(m) = tout.try_recv() {
        got_out.push(m);
    }
    c.check(got_in == want_in, "random-in", || format!("{got_in:?} instead of {want_in:?}"));
    c.check(got_out == want_out, "random-out", || format!("{got_out:?} instead of {want_out:?}"));
    c.outcome(&(hist, format!("{got_in:?} {got_out:?}")));
}

fn n02_scenarios(t: Tier) -> Vec<Scn> {
    let events = |peers: usize| {
        let mut a = vec![Rv::List(vec![(0, 0), (1, 0)]), Rv::List(vec![(1, 1)]), Rv::Config, Rv::Other];
        for p in 0..peers {
            a.extend([Rv::Connected(p), Rv::Disconnected(p), Rv::Message(p), Rv::Send(p)]);
        }
        a
    };
    let (two, three) = (events(2), events(3));
    let few: Vec<Rv> = (0..2).flat_map(|p| [Rv::Connected(p), Rv::Disconnected(p), Rv::Message(p)]).collect();
    let few2 = few.clone();
    let b = two.clone();
    vec![
        Scn::exec("two peers", move |c: &mut Ctx| n02_history(c, &two, t.pick(4, 5), None)),
        Scn::exec("three peers", move |c: &mut Ctx| n02_history(c, &three, t.pick(4, 5), None)),
        Scn::exec("reports", move |c: &mut Ctx| n02_history(c, &few, t.pick(6, 7), None)),
        Scn::exec("burst", move |c: &mut Ctx| n02_history(c, &b, t.pick(4, 5), Some(Mode::Fifo))),
        Scn::exec("burst schedules", move |c: &mut Ctx| n02_history(c, &few2, 2, Some(Mode::Delay(t.pick(2, 3))))),
        Scn::exec("over random connections", move |c: &mut Ctx| n02_random(c, t.pick(3, 4))),
    ]
}
