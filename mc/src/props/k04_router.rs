//! K04: routing of messages through a network of routers.
use std::collections::{BTreeMap, BTreeSet};

use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
};
use flmodules::{
    dht_router::{
        broker::{BrokerDHTRouter, DHTRouter, DHTRouterIn, DHTRouterOut},
        kademlia::Config,
    },
    nodeconfig::{NodeConfig, NodeInfo},
    router::{
        broker::BrokerRouter,
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    timer::{BrokerTimer, TimerMessage},
};
use tokio::sync::mpsc::UnboundedReceiver;

use super::k_kademlia::{cpl, nid};
use crate::{
    det,
    engine::*,
    exec::Exec,
    net::{Port, Sim},
};

pub fn prop() -> Prop {
    Prop {
        id: "K04",
        level: "exploration",
        rule: "every connection graph, origin, kind of message, destination and delivery order is executed on running routers; \
               distinct_nontrivial counts different (graph, message, deliveries at every node)",
        assumptions: &[
            "messages between two nodes keep their order",
            "the choice among several possible hops is covered by 3 seeds of the random generator",
        ],
        scenarios,
    }
}

pub struct Node {
    pub router: BrokerRouter,
    pub timer: BrokerTimer,
    pub dht: BrokerDHTRouter,
    pub tap: UnboundedReceiver<DHTRouterOut>,
    pub stats: tokio::sync::watch::Receiver<flmodules::dht_router::intern::Stats>,
}

pub fn info(id: NodeID) -> NodeInfo {
    // Every ID can be taken as a public key, but then the ID is the hash of it. So get one with the correct ID.
    let mut i = NodeConfig::new().info;
    i.pubkey = id.to_bytes().to_vec();
    i
}

pub fn start(x: &Exec, c: &mut Ctx, ids: Vec<NodeID>, k: usize) -> (Vec<Node>, Sim) {
    let ids2 = ids.clone();
    let nodes = x.block(c, async move {
        let mut nodes = vec![];
        for id in ids2 {
            let router: BrokerRouter = Broker::new();
            let timer: BrokerTimer = Broker::new();
            let mut dht = DHTRouter::start(
                Config {
                    root: id,
                    k,
                    ping_interval: 2,
                    ping_timeout: 4,
                },
                timer.clone(),
                router.clone(),
            )
            .await
            .expect("start");
            let tap = dht.broker.get_tap_out().await.expect("tap").0;
            nodes.push(Node {
                router,
                timer,
                dht: dht.broker,
                tap,
                stats: dht.stats,
            });
        }
        nodes
    });
    let mut ports = vec![];
    for (n, id) in nodes.iter().zip(ids) {
        let mut r = n.router.clone();
        let mut tap = x.block(c, async move { r.get_tap_in().await.expect("tap").0 });
        let mut r = n.router.clone();
        ports.push(Port {
            id,
            out: Box::new(move || {
                let mut v = vec![];
                while let Ok(RouterIn::NetworkWrapperToNetwork(dst, msg)) = tap.try_recv() {
                    v.push((dst, msg));
                }
                v
            }),
            deliver: Box::new(move |from, msg| {
                r.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(from, msg)).expect("emit");
            }),
        });
    }
    (nodes, Sim::new(ports))
}

/// Delivers everything in one fixed order.
pub fn flush(x: &Exec, c: &mut Ctx, sim: &mut Sim) {
    for _ in 0..1000 {
        x.idle(c);
        sim.pump();
        match sim.pending().first() {
            Some(l) => sim.deliver(*l),
            None => return,
        };
    }
    c.fail("endless", "the routers never stop sending messages");
}

fn announce(c: &mut Ctx, x: &Exec, nodes: &mut [Node], sim: &Sim, infos: &[NodeInfo], extra: Option<(usize, RouterOut)>) {
    for (i, n) in nodes.iter_mut().enumerate() {
        if let Some((e, _)) = &extra {
            if *e != i {
                continue;
            }
        }
        let con = sim.neighbours(i);
        n.router.emit_msg_out(RouterOut::NodeInfoAvailable(infos.to_vec())).expect("emit");
        n.router.emit_msg_out(RouterOut::NodeIDsConnected(con.clone().into())).expect("emit");
        match &extra {
            Some((_, m)) => n.router.emit_msg_out(m.clone()).expect("emit"),
            None => {
                for id in con {
                    n.router.emit_msg_out(RouterOut::Connected(id)).expect("emit");
                }
            }
        }
        x.idle(c);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Direct(usize),
    Closest(U256),
    Neighbour(usize),
    Broadcast,
}

fn wrap(msg: &str) -> NetworkWrapper {
    NetworkWrapper {
        module: "Test".into(),
        msg: msg.into(),
    }
}

struct World {
    ids: Vec<NodeID>,
    graph: Vec<(usize, usize)>,
    active: Vec<BTreeSet<usize>>,
}

impl World {
    // All possible ways lead to dst.
    fn must(&self, cur: usize, dst: &NodeID, links: &BTreeSet<(usize, usize)>) -> bool {
        if self.ids[cur] == *dst {
            return true;
        }
        if links.iter().any(|(a, b)| *a == cur && self.ids[*b] == *dst) {
            return true;
        }
        let next = self.closer(cur, dst);
        !next.is_empty() && next.iter().all(|n| self.must(*n, dst, links))
    }

    fn closer(&self, cur: usize, dst: &NodeID) -> Vec<usize> {
        let mine = cpl(&self.ids[cur], dst);
        self.active[cur].iter().filter(|a| cpl(&self.ids[**a], dst) > mine).cloned().collect()
    }
}

struct Plan {
    ids: Vec<NodeID>,
    graphs: Vec<Vec<(usize, usize)>>,
    k: usize,
    /// Keys besides the nodes
    keys: Vec<U256>,
    /// Number of messages
    msgs: usize,
    /// Break one link before sending
    breaks: bool,
    payloads: Vec<String>,
}

fn run(c: &mut Ctx, p: &Plan) {
    det::reset(1 + c.choose(3) as u64);
    let n = p.ids.len();
    let graph = c.pick(&p.graphs).clone();
    let x = Exec::new();
    let (mut nodes, mut sim) = start(&x, c, p.ids.clone(), p.k);
    for (a, b) in &graph {
        sim.connect(*a, *b);
    }
    let infos: Vec<NodeInfo> = p.ids.iter().map(|id| info(*id)).collect();
    c.check(infos.iter().zip(&p.ids).all(|(i, id)| i.get_id() == *id), "harness", || "node IDs".into());
    announce(c, &x, &mut nodes, &sim, &infos, None);
    // All connected nodes answer the pings, and get active.
    for _ in 0..2 {
        for node in nodes.iter_mut() {
            node.timer.emit_msg_out(TimerMessage::Second).expect("emit");
            node.timer.emit_msg_out(TimerMessage::Minute).expect("emit");
        }
        flush(&x, c, &mut sim);
    }
    let mut broken = None;
    if p.breaks {
        let (a, b) = *c.pick(&graph);
        broken = Some((a, b));
        sim.disconnect(a, b);
        for (i, o) in [(a, b), (b, a)] {
            let ids = p.ids.clone();
            announce(c, &x, &mut nodes, &sim, &infos, Some((i, RouterOut::Disconnected(ids[o]))));
        }
        flush(&x, c, &mut sim);
    }
    // The real tables
    let mut world = World {
        ids: p.ids.clone(),
        graph: graph.clone(),
        active: vec![],
    };
    for (i, node) in nodes.iter().enumerate() {
        let s = node.stats.borrow();
        let act: BTreeSet<usize> =
            s.bucket_nodes.iter().flatten().filter_map(|id| p.ids.iter().position(|i| i == id)).collect();
        // With enough place, the table is the graph
        let real: BTreeSet<usize> = (0..n).filter(|o| sim.links.contains(&(i, *o))).collect();
        let all = s.all_nodes.clone();
        drop(s);
        c.check(act.is_subset(&real), "active-not-connected", || {
            format!("{graph:?} broken {broken:?}: node {i} has active {act:?}, but is connected to {real:?}")
        });
        c.check(act.len() == real.len() || p.k < n, "connected-not-active", || {
            format!("{graph:?}: node {i} has active {act:?}, but is connected to {real:?}, knows {all:?}")
        });
        world.active.push(act);
    }
    for node in nodes.iter_mut() {
        while node.tap.try_recv().is_ok() {}
    }
    sim.lost.clear();

    // Send the messages
    let mut kinds: Vec<Kind> = vec![Kind::Broadcast];
    let mut sent: Vec<(usize, Kind, String)> = vec![];
    for i in 0..n {
        kinds.push(Kind::Direct(i));
        kinds.push(Kind::Neighbour(i));
        kinds.push(Kind::Closest(p.ids[i]));
    }
    kinds.extend(p.keys.iter().map(|k| Kind::Closest(*k)));
    for m in 0..p.msgs {
        let orig = c.choose(n);
        let kind = c.pick(&kinds).clone();
        let payload = format!("{m}{}", c.pick(&p.payloads));
        match &kind {
            Kind::Direct(d) | Kind::Neighbour(d) if *d == orig => {
                c.trivial();
                return;
            }
            _ => {}
        }
        let msg = wrap(&payload);
        nodes[orig]
            .dht
            .emit_msg_in(match &kind {
                Kind::Direct(d) => DHTRouterIn::MessageDirect(p.ids[*d], msg),
                Kind::Closest(key) => DHTRouterIn::MessageClosest(*key, msg),
                Kind::Neighbour(d) => DHTRouterIn::MessageNeighbour(p.ids[*d], msg),
                Kind::Broadcast => DHTRouterIn::MessageBroadcast(msg),
            })
            .expect("emit");
        sent.push((orig, kind, payload));
    }
    c.label(|| format!("{graph:?} broken {broken:?}: {sent:?}"));
    // All orders of delivery
    let mut out: Vec<(usize, DHTRouterOut)> = vec![];
    let mut steps = 0;
    loop {
        x.idle(c);
        sim.pump();
        for (i, node) in nodes.iter_mut().enumerate() {
            while let Ok(m) = node.tap.try_recv() {
                out.push((i, m));
            }
        }
        let Some(l) = sim.choose(c) else { break };
        c.step();
        steps += 1;
        c.check(steps < 200, "endless", || format!("{graph:?} {sent:?}"));
        let m = sim.deliver(l);
        c.label(|| format!("{l:?}: {}", m.msg.replace('\n', " ")));
    }
    let what = || format!("{graph:?} broken {broken:?}, {sent:?}: {out:?}");
    for (orig, kind, payload) in &sent {
        let msg = wrap(payload);
        let mine: Vec<(usize, &DHTRouterOut)> = out
            .iter()
            .filter(|(_, o)| match o {
                DHTRouterOut::MessageNeighbour(_, m)
                | DHTRouterOut::MessageRouting(_, _, _, _, m)
                | DHTRouterOut::MessageClosest(_, _, _, m)
                | DHTRouterOut::MessageDest(_, _, m) => *m == msg,
                _ => false,
            })
            .map(|(i, o)| (*i, o))
            .collect();
        match kind {
            Kind::Broadcast | Kind::Neighbour(_) => {
                let mut want: Vec<usize> = match kind {
                    Kind::Neighbour(d) => [*d].into_iter().filter(|d| sim.links.contains(&(*orig, *d))).collect(),
                    _ => world.active[*orig].iter().cloned().collect(),
                };
                let mut got: Vec<usize> = mine
                    .iter()
                    .filter(|(_, o)| **o == DHTRouterOut::MessageNeighbour(p.ids[*orig], msg.clone()))
                    .map(|(i, _)| *i)
                    .collect();
                want.sort();
                got.sort();
                c.check(got == want && mine.len() == want.len(), "neighbour", || {
                    format!("{kind:?} of {orig} should be at {want:?}: {}", what())
                });
            }
            Kind::Direct(d) => {
                let ok = mine.iter().all(|(i, o)| match o {
                    DHTRouterOut::MessageDest(o, last, _) => {
                        i == d && *o == p.ids[*orig] && sim.idx(last).map(|l| sim.links.contains(&(l, *i))) == Some(true)
                    }
                    _ => false,
                });
                c.check(ok && mine.len() <= 1, "direct-wrong", || format!("{kind:?} of {orig}: {}", what()));
                if world.must(*orig, &p.ids[*d], &sim.links) {
                    c.check(mine.len() == 1, "direct-lost", || format!("{kind:?} of {orig}: {}", what()));
                }
            }
            Kind::Closest(key) => closest(c, &world, &sim, *orig, key, &mine, &what),
        }
    }
    let obs: Vec<_> = out.iter().map(|(i, o)| format!("{i}{o:?}")).collect();
    c.outcome(&(&graph, broken, format!("{sent:?}"), obs));
}

fn closest(
    c: &mut Ctx,
    w: &World,
    sim: &Sim,
    orig: usize,
    key: &U256,
    mine: &[(usize, &DHTRouterOut)],
    what: &dyn Fn() -> String,
) {
    let connected = |i: usize| w.ids.iter().position(|id| id == key).filter(|d| sim.links.contains(&(i, *d)));
    if w.closer(orig, key).is_empty() && connected(orig).is_none() {
        c.check(mine.is_empty(), "closest-unexpected", || format!("key {key} of {orig}: {}", what()));
        return;
    }
    // Follow the announced way.
    let mut finals = 0;
    let mut seen: BTreeMap<usize, (NodeID, Option<NodeID>)> = BTreeMap::new();
    for (i, o) in mine {
        let (o, last, next) = match o {
            DHTRouterOut::MessageRouting(o, last, next, k, _) if k == key => (o, last, Some(*next)),
            DHTRouterOut::MessageClosest(o, last, k, _) if k == key && w.ids[*i] != *key => (o, last, None),
            DHTRouterOut::MessageDest(o, last, _) if w.ids[*i] == *key => (o, last, None),
            _ => c.fail("closest-wrong", format!("key {key} of {orig}: {o:?} at {i}: {}", what())),
        };
        c.check(*o == w.ids[orig], "closest-origin", || format!("key {key} of {orig}: {}", what()));
        if next.is_none() {
            finals += 1;
            c.check(w.closer(*i, key).is_empty() && (connected(*i).is_none() || w.ids[*i] == *key), "closest-final", || {
                format!("key {key} of {orig}: {i} knows closer nodes: {}", what())
            });
        }
        c.check(seen.insert(*i, (*last, next)).is_none(), "closest-twice", || {
            format!("key {key} of {orig}: twice at {i}: {}", what())
        });
    }
    c.check(finals == 1, "closest-finals", || format!("key {key} of {orig} is final {finals} times: {}", what()));
    // From the final node back to the origin
    let mut cur = *seen.iter().find(|(_, (_, n))| n.is_none()).unwrap().0;
    let mut hops = 1;
    loop {
        let last = seen[&cur].0;
        let l = sim.idx(&last).unwrap_or(usize::MAX);
        c.check(sim.links.contains(&(l, cur)), "closest-last-hop", || format!("key {key} of {orig}: {cur}: {}", what()));
        if l == orig {
            break;
        }
        match seen.get(&l) {
            Some((_, Some(next))) if *next == w.ids[cur] => {}
            _ => c.fail("closest-routing", format!("key {key} of {orig}: no announcement at {l} before {cur}: {}", what())),
        }
        cur = l;
        hops += 1;
        c.check(hops <= w.ids.len(), "closest-loop", || format!("key {key} of {orig}: {}", what()));
    }
    c.check(hops == seen.len(), "closest-extra", || format!("key {key} of {orig}: {}", what()));
}

/// Strings that mean something in yaml or json.
fn odd_strings(c: &mut Ctx, len: usize) {
    const CH: [&str; 26] = [
        "a", " ", "\n", "\r", "\t", ":", "-", "#", "'", "\"", "\\", "{", "[", "|", ">", "%", "~", "0", "&", "!", ",", "\u{0}",
        "\u{85}", "\u{2028}", "\u{feff}", "\u{1f600}",
    ];
    let mut s = String::new();
    let n = c.choose(len + 1);
    for _ in 0..n {
        s.push_str(c.pick(&CH));
    }
    payload(c, &s);
}

fn payload(c: &mut Ctx, s: &str) {
    c.step();
    c.label(|| format!("{s:?}"));
    // The way a message takes: wrapped by its module, and then again by the router.
    let w = NetworkWrapper::wrap_yaml("Mod", &s.to_string()).expect("wrap");
    let w2 = NetworkWrapper::wrap_yaml("Router", &w).expect("wrap");
    c.check(w2.unwrap_yaml::<NetworkWrapper>("Other").is_none(), "module", || format!("{s:?}"));
    match w2.unwrap_yaml::<NetworkWrapper>("Router") {
        Some(u) if u == w => {}
        u => c.fail("payload", format!("{s:?} is received as {u:?}")),
    }
    match w.unwrap_yaml::<String>("Mod") {
        Some(u) if u == s => {}
        u => c.fail("payload", format!("{s:?} is received as {u:?}")),
    }
    c.outcome(&s);
}

fn all_chars(c: &mut Ctx) {
    const BLOCK: u32 = 0x200;
    let b = c.choose((0x110000 / BLOCK) as usize) as u32;
    for cp in b * BLOCK..(b + 1) * BLOCK {
        if let Some(ch) = char::from_u32(cp) {
            for s in [format!("{ch}"), format!("a{ch}b"), format!("{ch} b: c\n{ch}")] {
                payload(c, &s);
            }
        }
    }
}

fn graphs(n: usize, connected: bool) -> Vec<Vec<(usize, usize)>> {
    let mut pairs = vec![];
    for a in 0..n {
        for b in a + 1..n {
            pairs.push((a, b));
        }
    }
    (1..1usize << pairs.len())
        .map(|m| pairs.iter().enumerate().filter(|(i, _)| m & (1 << i) != 0).map(|(_, p)| *p).collect::<Vec<_>>())
        .filter(|g| {
            let mut seen = BTreeSet::from([0]);
            for _ in 0..n {
                for (a, b) in g {
                    if seen.contains(a) || seen.contains(b) {
                        seen.extend([*a, *b]);
                    }
                }
            }
            !connected || seen.len() == n
        })
        .collect()
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let sets: Vec<(&str, Vec<u8>)> = vec![
        ("near", vec![0x00, 0x40, 0x41]),
        ("chain", vec![0x00, 0x80, 0xc0]),
        ("four", vec![0x00, 0x40, 0x80, 0xc0]),
        ("four-deep", vec![0x00, 0x80, 0xc0, 0xe0]),
    ];
    for (name, pre) in sets {
        let n = pre.len();
        let ids: Vec<NodeID> = pre.iter().enumerate().map(|(i, p)| nid(*p, i as u8 + 1)).collect();
        let keys = vec![nid(0xc1, 0x77), nid(0x20, 0x77), nid(0x60, 0x77)];
        for (k, msgs, breaks) in t.pick(
            vec![(4, 1, false), (1, 1, false), (4, 1, true), (4, 2, false)],
            vec![(4, 1, false), (2, 1, false), (1, 1, false), (4, 1, true), (1, 1, true), (4, 2, false), (1, 2, false)],
        ) {
            if n == 4 && msgs == 2 && t == Tier::Quick {
                continue;
            }
            let (ids, keys) = (ids.clone(), keys.clone());
            let graphs = graphs(n, n == 4);
            ret.push(Scn::exec(format!("{name}-k{k}-{msgs}msgs-{breaks}"), move |c: &mut Ctx| {
                run(
                    c,
                    &Plan {
                        ids: ids.clone(),
                        graphs: graphs.clone(),
                        k,
                        keys: keys.clone(),
                        msgs,
                        breaks,
                        payloads: vec![": x\n\"y\" - \u{e9}".into()],
                    },
                )
            }));
        }
    }
    ret.push(Scn::new("payload-strings", move |c: &mut Ctx| odd_strings(c, t.pick(4, 5))));
    ret.push(Scn::new("payload-characters", all_chars));
    ret
}
