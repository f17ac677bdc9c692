//! X01: full nodes, with all their modules, in a simulated network.
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    hash::Hash,
};

use flarch::{broker::Broker, data_storage::DataStorage, nodeids::NodeID};
use flcrypto::access::Condition;
use flmodules::{
    dht_storage::core::{Cuckoo, RealmConfig},
    flo::{
        flo::FloWrapper,
        realm::{FloRealm, GlobalID},
    },
    gossip_events::core::Category,
    network::broker::{BrokerNetwork, NetworkIn, NetworkOut},
    nodeconfig::{NodeConfig, NodeInfo},
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, TimerMessage},
    Modules,
};
use flnode::node::Node;
use tokio::sync::mpsc::UnboundedReceiver;

use super::d_dht::MemStore;
use crate::{
    det,
    engine::*,
    exec::{Exec, Handle},
};

pub fn prop() -> Prop {
    Prop {
        id: "X01",
        level: "exploration",
        rule: "every script of user actions, connections, failures and restarts, with every order of the deliveries that differs in at most \
               the stated number of places from the default one, is executed on complete nodes; distinct_nontrivial counts different \
               (scripts, final contents of all nodes)",
        assumptions: &[
            "messages between two nodes keep their order",
            "the network module is replaced by a simulated network with its reports: lists, connections, messages",
        ],
        scenarios,
    }
}

struct Run {
    node: Node,
    net: BrokerNetwork,
    tap: UnboundedReceiver<NetworkIn>,
    timer: BrokerTimer,
}

#[derive(Clone, Debug, PartialEq)]
enum Act {
    /// All running nodes are in the list sent to this one
    List(usize),
    Chat(usize),
    /// Creates the realm
    Realm(usize),
    /// Stores the object
    Store(usize),
    /// Stores the next version of the object
    Edit(usize),
    /// The connection between the nodes breaks
    Break(usize, usize),
    /// Stops the node, and starts it again
    Restart(usize),
    /// Stops the node
    Stop(usize),
    /// Starts a stopped node
    Start(usize),
    Tick(usize),
    /// Everything that has been sent is delivered first
    Settle,
}

#[derive(Clone)]
struct Plan {
    modules: Vec<Modules>,
    acts: Vec<Act>,
    /// How often another message than the default one is delivered
    delays: usize,
    /// Whether the actions can happen at any time
    free: bool,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Connect(usize, usize),
    Msg(usize, usize),
}

struct World {
    x: Exec,
    cfgs: Vec<NodeConfig>,
    stores: Vec<MemStore>,
    runs: Vec<Option<Run>>,
    links: BTreeSet<(usize, usize)>,
    /// Requested connections
    reqs: Vec<(usize, usize)>,
    queues: BTreeMap<(usize, usize), VecDeque<NetworkWrapper>>,
    listed: Vec<BTreeSet<usize>>,
    sent: usize,
    log: Vec<String>,
}

const REALM: &str = "the realm";

impl World {
    fn id(&self, n: usize) -> NodeID {
        self.cfgs[n].info.get_id()
    }

    fn idx(&self, id: &NodeID) -> Option<usize> {
        self.cfgs.iter().position(|c| c.info.get_id() == *id)
    }

    fn start(&mut self, c: &mut Ctx, n: usize) {
        let ds = self.stores[n].clone();
        let modules = self.cfgs[n].info.modules;
        let run = self.x.block(c, async move {
            let mut cfg = Node::get_config(ds.clone_box()).expect("config");
            cfg.info.modules = modules;
            let mut net: BrokerNetwork = Broker::new();
            let timer: BrokerTimer = Broker::new();
            let tap = net.get_tap_in().await.expect("tap").0;
            let node = Node::start(ds.clone_box(), cfg, net.clone(), timer.clone()).await;
            node.map(|node| Run { node, net, tap, timer }).map_err(|e| e.to_string())
        });
        let run = match run {
            Ok(r) => r,
            Err(e) => c.fail("start", format!("node {n} with {:x} doesn't start: {e}: {:?}", modules.bits(), self.log)),
        };
        let id = run.node.node_config.info.get_id();
        c.check(id == self.id(n), "identity", || format!("node {n} is another one after a restart: {:?}", self.log));
        self.runs[n] = Some(run);
        self.idle(c);
    }

    fn stop(&mut self, c: &mut Ctx, n: usize) {
        self.idle(c);
        let others: Vec<usize> = (0..self.runs.len()).filter(|o| self.links.contains(&(n, *o))).collect();
        self.runs[n] = None;
        self.listed[n].clear();
        self.reqs.retain(|(a, b)| *a != n && *b != n);
        for o in others {
            self.unlink(c, n, o);
        }
        self.queues.retain(|(a, b), _| *a != n && *b != n);
    }

    fn unlink(&mut self, c: &mut Ctx, a: usize, b: usize) {
        for (i, o) in [(a, b), (b, a)] {
            self.queues.remove(&(i, o));
            if self.links.remove(&(i, o)) {
                let id = self.id(o);
                if let Some(r) = self.runs[i].as_mut() {
                    r.net.emit_msg_out(NetworkOut::Disconnected(id)).expect("emit");
                }
            }
        }
        self.idle(c);
    }

    /// Runs all nodes, and collects what they want from the network.
    fn idle(&mut self, c: &mut Ctx) {
        self.x.idle(c);
        for n in 0..self.runs.len() {
            let Some(run) = self.runs[n].as_mut() else { continue };
            let mut new = vec![];
            while let Ok(m) = run.tap.try_recv() {
                new.push(m);
            }
            for m in new {
                match m {
                    NetworkIn::MessageToNode(dst, msg) => {
                        let Some(d) = self.idx(&dst) else { c.fail("unknown-destination", format!("{dst}: {:?}", self.log)) };
                        c.check(d != n, "to-itself", || format!("{n} sends {msg:?} to itself: {:?}", self.log));
                        self.sent += 1;
                        // Just like the real network, a message to another node connects to it.
                        if !self.links.contains(&(n, d)) {
                            self.req(n, d);
                        }
                        if self.runs[d].is_some() {
                            self.queues.entry((n, d)).or_default().push_back(msg);
                        }
                    }
                    NetworkIn::Connect(dst) => {
                        let Some(d) = self.idx(&dst) else { c.fail("unknown-destination", format!("{dst}: {:?}", self.log)) };
                        c.check(d != n, "to-itself", || format!("{n} connects to itself: {:?}", self.log));
                        self.req(n, d);
                    }
                    NetworkIn::Disconnect(dst) => {
                        if let Some(d) = self.idx(&dst) {
                            self.log.push(format!("{n} disconnects {d}"));
                            self.unlink(c, n, d);
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn req(&mut self, n: usize, d: usize) {
        if self.runs[d].is_some() && !self.links.contains(&(n, d)) && !self.reqs.contains(&(n, d)) {
            self.reqs.push((n, d));
        }
    }

    fn pending(&self) -> Vec<Ev> {
        let mut v: Vec<Ev> = self.reqs.iter().map(|(a, b)| Ev::Connect(*a, *b)).collect();
        v.extend(self.queues.keys().filter(|l| self.links.contains(l)).map(|(a, b)| Ev::Msg(*a, *b)));
        v
    }

    fn happens(&mut self, c: &mut Ctx, e: &Ev) {
        c.step();
        match e {
            Ev::Connect(a, b) => {
                self.reqs.retain(|r| r != &(*a, *b) && r != &(*b, *a));
                if self.links.contains(&(*a, *b)) {
                    return;
                }
                self.log.push(format!("{a} connects to {b}"));
                for (i, o) in [(*b, *a), (*a, *b)] {
                    self.links.insert((i, o));
                    let id = self.id(o);
                    self.runs[i].as_mut().expect("running").net.emit_msg_out(NetworkOut::Connected(id)).expect("emit");
                }
            }
            Ev::Msg(a, b) => {
                let q = self.queues.get_mut(&(*a, *b)).expect("queue");
                let m = q.pop_front().expect("message");
                if q.is_empty() {
                    self.queues.remove(&(*a, *b));
                }
                c.label(|| format!("{a}->{b}: {} {}", m.module, m.msg.replace('\n', " ").chars().take(150).collect::<String>()));
                let id = self.id(*a);
                let r = self.runs[*b].as_mut().expect("running");
                r.net.emit_msg_out(NetworkOut::MessageFromNode(id, m)).expect("emit");
            }
        }
        self.idle(c);
    }

    fn flush(&mut self, c: &mut Ctx) {
        self.idle(c);
        for _ in 0..3000 {
            match self.pending().first() {
                Some(e) => self.happens(c, &e.clone()),
                None => return,
            }
        }
        let what: Vec<_> = self.queues.iter().map(|(l, q)| format!("{l:?} {:?}", q.front())).collect();
        c.fail("endless", format!("the nodes never stop sending messages: {:?}: {what:?}", self.log));
    }

    fn tick(&mut self, c: &mut Ctx, n: usize, minute: bool) {
        if let Some(r) = self.runs[n].as_mut() {
            r.timer.emit_msg_out(TimerMessage::Second).expect("emit");
            if minute {
                r.timer.emit_msg_out(TimerMessage::Minute).expect("emit");
            }
        }
        self.idle(c);
    }

    fn list(&mut self, c: &mut Ctx, n: usize) {
        let on: Vec<usize> = (0..self.runs.len()).filter(|o| self.runs[*o].is_some()).collect();
        let infos: Vec<NodeInfo> = on.iter().map(|o| self.cfgs[*o].info.clone()).collect();
        if let Some(r) = self.runs[n].as_mut() {
            r.net.emit_msg_out(NetworkOut::NodeListFromWS(infos)).expect("emit");
            self.listed[n] = on.into_iter().collect();
        }
        self.idle(c);
    }

    /// Waits for an operation of a user, while the network does its work.
    fn finish<T>(&mut self, c: &mut Ctx, h: Handle<T>) -> T {
        for _ in 0..10 {
            self.flush(c);
            if let Some(v) = h.take() {
                return v;
            }
            self.x.advance(1000);
        }
        c.fail("stuck", format!("an operation never returns: {:?}", self.log))
    }
}

fn has(m: Modules, all: Modules) -> bool {
    m.contains(all)
}

fn dht() -> Modules {
    Modules::DHT_ROUTER | Modules::DHT_STORAGE
}

fn gossip() -> Modules {
    Modules::RAND | Modules::GOSSIP
}

/// The connected nodes which all have these modules
fn component(w: &World, n: usize, m: Modules) -> Vec<usize> {
    let ok = |i: usize| w.runs[i].is_some() && has(w.cfgs[i].info.modules, m);
    let mut seen = BTreeSet::from([n]);
    let mut todo = vec![n];
    while let Some(i) = todo.pop() {
        for o in 0..w.runs.len() {
            if ok(o) && w.links.contains(&(i, o)) && seen.insert(o) {
                todo.push(o);
            }
        }
    }
    seen.into_iter().collect()
}

fn run(c: &mut Ctx, p: &Plan) {
    det::reset(1);
    let n = p.modules.len();
    let x = Exec::new();
    let mut w = World {
        x,
        cfgs: vec![],
        stores: vec![],
        runs: vec![],
        links: BTreeSet::new(),
        reqs: vec![],
        queues: BTreeMap::new(),
        listed: vec![BTreeSet::new(); n],
        sent: 0,
        log: vec![],
    };
    for i in 0..n {
        let ds = MemStore::default();
        let mut cfg = Node::get_config(ds.clone_box()).expect("config");
        cfg.info.modules = p.modules[i];
        w.cfgs.push(cfg);
        w.stores.push(ds);
        w.runs.push(None);
    }
    for i in 0..n {
        w.start(c, i);
    }
    let realm = FloRealm::new(
        REALM,
        Condition::Pass,
        RealmConfig { max_space: 1_000_000, max_flo_size: 100_000 },
        &[],
    )
    .expect("realm");
    let rid = realm.realm_id();
    let object = FloWrapper::from_type_cuckoo(rid.clone(), Condition::Pass, Cuckoo::None, "object 0".to_string(), &[]).expect("object");
    let oid = object.global_id();
    let mut version = object.clone();
    let mut acts: VecDeque<Act> = p.acts.clone().into();
    let mut delays = p.delays;
    // The chat messages by their source, and the last version of what has been stored
    let mut chats: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut stored: Option<u32> = None;
    let mut holders: BTreeSet<usize> = BTreeSet::new();
    let mut realm_at: BTreeSet<usize> = BTreeSet::new();
    loop {
        let pending = w.pending();
        let can_act = !acts.is_empty() && (p.free || pending.is_empty()) && !(acts[0] == Act::Settle && !pending.is_empty());
        let total = pending.len() + usize::from(can_act);
        if total == 0 {
            break;
        }
        // The default is to deliver first.
        let ch = c.choose(total.min(delays + 1));
        delays -= ch;
        if ch < pending.len() {
            w.happens(c, &pending[ch]);
            continue;
        }
        let act = acts.pop_front().unwrap();
        w.x.advance(10);
        w.log.push(format!("{act:?}"));
        c.label(|| format!("{act:?}"));
        c.step();
        let alive = |i: usize| w.runs[i].is_some();
        match act {
            Act::Settle => {}
            Act::List(i) => w.list(c, i),
            Act::Tick(i) => w.tick(c, i, true),
            Act::Break(a, b) => w.unlink(c, a, b),
            Act::Stop(i) => w.stop(c, i),
            Act::Start(i) if !alive(i) => w.start(c, i),
            Act::Start(_) => {}
            Act::Restart(i) => {
                w.stop(c, i);
                w.start(c, i);
            }
            Act::Chat(i) => {
                if !alive(i) {
                    continue;
                }
                let msg = format!("message {}: \"{}\"", chats.len(), w.log.len());
                chats.insert((i, msg.clone()));
                let mut node = w.runs[i].take().unwrap();
                let (back, res) = w.x.block(c, async move {
                    let r = node.node.add_chat_message(msg).await.map_err(|e| e.to_string());
                    (node, r)
                });
                w.runs[i] = Some(back);
                let can = has(p.modules[i], gossip());
                c.check(res.is_ok() == can, "chat", || format!("{i}: {res:?}: {:?}", w.log));
                if !can {
                    chats.retain(|(s, _)| *s != i);
                }
            }
            Act::Realm(i) | Act::Store(i) | Act::Edit(i) => {
                if !alive(i) {
                    continue;
                }
                let Some(mut st) = w.runs[i].as_ref().unwrap().node.dht_storage.clone() else {
                    c.check(!has(p.modules[i], dht()), "module-missing", || format!("{i}"));
                    continue;
                };
                let mut st2 = st.clone();
                let ids = w.x.block(c, async move { st2.get_realm_ids().await.map_err(|e| e.to_string()) });
                let Ok(ids) = ids else { c.fail("realms", format!("{i}: {ids:?}: {}", show(&w))) };
                if ids.contains(&rid) {
                    realm_at.insert(i);
                }
                match act {
                    Act::Realm(_) => {
                        st.store_flo(realm.clone().into()).expect("store");
                        realm_at.insert(i);
                    }
                    Act::Store(_) => {
                        st.store_flo(object.flo().clone()).expect("store");
                        if realm_at.contains(&i) {
                            stored = stored.max(Some(0));
                            holders.insert(i);
                        }
                    }
                    _ => {
                        version = version.edit_data_signers(Condition::Pass, |d| *d = format!("object {}", version.version() + 1), &[]).expect("edit");
                        st.store_flo(version.flo().clone()).expect("store");
                        if realm_at.contains(&i) {
                            stored = stored.max(Some(version.version()));
                            holders.insert(i);
                        }
                    }
                }
            }
        }
        w.idle(c);
        // What has been acknowledged is in the storage, at any moment.
        if let Act::Restart(i) | Act::Start(i) = p.acts[p.acts.len() - acts.len() - 1] {
            if let Some(g) = w.runs[i].as_ref().and_then(|r| r.node.gossip.as_ref()) {
                let have: BTreeSet<String> = g.chat_events().into_iter().map(|e| e.msg).collect();
                let own: BTreeSet<String> = chats.iter().filter(|(s, _)| *s == i).map(|(_, m)| m.clone()).collect();
                c.check(have.is_superset(&own), "chat-lost", || format!("{i} has {have:?} instead of {own:?}: {:?}", w.log));
            }
            if realm_at.contains(&i) {
                let st = w.runs[i].as_ref().unwrap().node.dht_storage.as_ref().unwrap().clone();
                let ids = w.x.block(c, async move { st.clone().get_realm_ids().await.map_err(|e| e.to_string()) });
                c.check(ids.as_ref().is_ok_and(|l| l.contains(&rid)), "realm-lost", || format!("{i}: {ids:?}: {:?}", w.log));
            }
        }
    }
    // Everybody is told about the others, until the network is complete.
    for i in 0..n {
        if w.runs[i].is_none() {
            w.start(c, i);
        }
    }
    for round in 0..8 {
        for i in 0..n {
            if round % 4 == 0 {
                w.list(c, i);
            }
            w.flush(c);
            w.tick(c, i, true);
            w.flush(c);
        }
        w.x.advance(60_000);
    }
    finals(c, p, &mut w, &chats, stored, &oid, &realm_at, &holders);
}

fn show(w: &World) -> String {
    format!("{:?}; links {:?}", w.log, w.links)
}

#[allow(clippy::too_many_arguments)]
fn finals(
    c: &mut Ctx,
    p: &Plan,
    w: &mut World,
    chats: &BTreeSet<(usize, String)>,
    stored: Option<u32>,
    oid: &GlobalID,
    realm_at: &BTreeSet<usize>,
    holders: &BTreeSet<usize>,
) {
    let n = w.runs.len();
    let mut sum: Vec<String> = vec![];
    // A node with the random module looks for connections.
    for i in 0..n {
        let alone = !(0..n).any(|o| w.links.contains(&(i, o)));
        if has(p.modules[i], Modules::RAND) && n > 1 {
            c.check(!alone, "not-connected", || format!("{i} isn't connected to anybody: {}", show(w)));
        }
    }
    for i in 0..n {
        let real: BTreeSet<usize> = (0..n).filter(|o| w.links.contains(&(i, *o))).collect();
        let ids = |l: Vec<NodeID>| -> Vec<Option<usize>> { l.iter().map(|id| w.idx(id)).collect() };
        let want: Vec<Option<usize>> = real.iter().map(|r| Some(*r)).collect();
        let node = &w.runs[i].as_ref().unwrap().node;
        let m = p.modules[i];
        c.check(
            (node.random.is_some(), node.gossip.is_some(), node.webproxy.is_some(), node.stat.is_some(), node.dht_router.is_some(), node.dht_storage.is_some())
                == (
                    has(m, Modules::RAND),
                    has(m, gossip()),
                    has(m, Modules::RAND | Modules::WEBPROXY),
                    has(m, Modules::STAT),
                    has(m, Modules::DHT_ROUTER),
                    has(m, dht()),
                ),
            "modules",
            || format!("node {i} with {:x} has other modules", m.bits()),
        );
        // Everybody's view of the connections
        if let Some(r) = &node.random {
            let mut got = ids(r.stats.borrow().connected.get_nodes().0);
            got.sort();
            c.check(got == want, "random-connections", || format!("{i} believes {got:?}: {}", show(w)));
        }
        if let Some(s) = &node.stat {
            let s = s.borrow();
            let mut got = ids(s.connected.clone());
            got.sort();
            c.check(got == want, "stat-connections", || format!("{i} believes {got:?}: {}", show(w)));
            let mut got = ids(s.node_infos_connected().iter().map(|i| i.get_id()).collect());
            got.sort();
            c.check(got == want, "stat-infos", || format!("{i} believes {got:?}: {}", show(w)));
            let got: BTreeSet<_> = ids(s.online.clone()).into_iter().flatten().collect();
            c.check(got == w.listed[i], "stat-online", || format!("{i} believes {got:?} to be online: {}", show(w)));
        }
        if let Some(r) = &node.dht_router {
            let s = r.stats.borrow();
            let got: BTreeSet<_> = ids(s.bucket_nodes.iter().flatten().cloned().collect()).into_iter().flatten().collect();
            // All nodes which also have this module are active
            let can: BTreeSet<usize> = real.iter().filter(|o| has(p.modules[**o], Modules::DHT_ROUTER)).cloned().collect();
            c.check(got.is_superset(&can) && got.is_subset(&real), "dht-connections", || format!("{i} has active {got:?} instead of {can:?}: {}", show(w)));
        }
        if has(m, gossip()) {
            let comp = component(w, i, gossip());
            let all = node.nodes_info_all();
            let Ok(all) = all else { c.fail("infos", format!("{i}: {all:?}")) };
            let got: BTreeSet<usize> = ids(all.keys().cloned().collect()).into_iter().flatten().collect();
            c.check(comp.iter().all(|o| got.contains(o)), "infos", || format!("{i} knows the information of {got:?}, connected are {comp:?}: {}", show(w)));
            for o in &got {
                let (have, real) = (&all[&w.id(*o)], &w.cfgs[*o].info);
                c.check(
                    (&have.name, &have.client, &have.pubkey, have.modules.bits()) == (&real.name, &real.client, &real.pubkey, real.modules.bits()),
                    "wrong-info",
                    || format!("{i} has {have:?} for {o}: {real:?}"),
                );
            }
            let con = node.nodes_connected();
            let Ok(con) = con else { c.fail("nodes-connected", format!("{i}: {con:?}")) };
            let mut got = ids(con.iter().map(|i| i.get_id()).collect());
            got.sort();
            let want: Vec<_> = want.iter().filter(|o| o.is_some_and(|o| all.contains_key(&w.id(o)))).cloned().collect();
            c.check(got == want, "nodes-connected", || format!("{i} believes {got:?} instead of {want:?}: {}", show(w)));
            let on = node.nodes_online();
            let Ok(on) = on else { c.fail("nodes-online", format!("{i}: {on:?}")) };
            let mut got = ids(on.iter().map(|i| i.get_id()).collect());
            got.sort();
            let want: Vec<_> = (0..n).filter(|o| *o != i && w.runs[*o].is_some() && all.contains_key(&w.id(*o))).map(Some).collect();
            c.check(got == want, "nodes-online", || format!("{i} believes {got:?} to be online, instead of {want:?}: {}", show(w)));
            // The chats of all connected nodes
            let g = node.gossip.as_ref().unwrap();
            let mut got: Vec<(Option<usize>, String)> = g.chat_events().into_iter().map(|e| (w.idx(&e.src), e.msg)).collect();
            got.sort();
            let want: Vec<_> = chats.iter().filter(|(s, _)| comp.contains(s)).map(|(s, m)| (Some(*s), m.clone())).collect();
            c.check(want.iter().all(|w| got.contains(w)), "chat-missing", || format!("{i} has {got:?} instead of {want:?}: {}", show(w)));
            let all: Vec<_> = chats.iter().map(|(s, m)| (Some(*s), m.clone())).collect();
            c.check(got.iter().all(|w| all.contains(w)), "chat-wrong", || format!("{i} has {got:?} instead of {want:?}: {}", show(w)));
            let len = got.len();
            got.dedup();
            c.check(len == got.len(), "chat-twice", || format!("{i} has {got:?}: {}", show(w)));
            c.check(g.events(Category::NodeInfo).len() <= n, "info-twice", || format!("{i}: {}", show(w)));
            sum.push(format!("{got:?}"));
        } else {
            c.check(node.nodes_info_all().is_err(), "infos", || format!("{i} has no gossip"));
        }
    }
    // The objects are found from everywhere.
    for i in 0..n {
        if !has(p.modules[i], dht()) {
            continue;
        }
        let comp = component(w, i, dht());
        let st = w.runs[i].as_ref().unwrap().node.dht_storage.as_ref().unwrap().clone();
        let mut st2 = st.clone();
        let h = w.x.spawn(async move { st2.get_realm_ids().await.map_err(|e| e.to_string()) });
        let ids = w.finish(c, h);
        let Ok(ids) = ids else { c.fail("realms", format!("{i}: {ids:?}: {}", show(w))) };
        let reach = comp.iter().any(|o| realm_at.contains(o));
        if reach {
            c.check(ids.contains(oid.realm_id()), "realm-missing", || format!("{i} doesn't know the realm: {}", show(w)));
        }
        c.check(ids.len() <= 1, "realms", || format!("{i} has {ids:?}: {}", show(w)));
        let mut st2 = st.clone();
        let gid = oid.clone();
        let h = w.x.spawn(async move { st2.get_flo::<String>(&gid).await.map_err(|e| e.to_string()) });
        let got = w.finish(c, h);
        let reach = comp.iter().any(|o| holders.contains(o));
        if reach {
            match &got {
                Err(e) => c.fail("object-missing", format!("{i} doesn't find the object: {e}: {}", show(w))),
                Ok(f) => {
                    let v = stored.unwrap();
                    if holders.len() == 1 || comp.len() == n {
                        c.check(f.version() == v, "object-version", || format!("{i} finds version {} instead of {v}: {}", f.version(), show(w)));
                    }
                    c.check(f.cache() == &format!("object {}", f.version()), "object", || format!("{f:?}: {}", show(w)));
                }
            }
        }
        if stored.is_none() {
            c.check(got.is_err(), "object-unknown", || format!("{i}: {got:?}"));
        }
        sum.push(format!("{:?}", got.map(|f| f.version())));
    }
    c.outcome(&(format!("{:?}", p.acts), sum, w.links.clone()));
}

/// All subsets of modules of one node, next to complete ones
fn subsets(c: &mut Ctx, n: usize) {
    const M: [Modules; 7] = [
        Modules::STAT,
        Modules::RAND,
        Modules::GOSSIP,
        Modules::WEBPROXY,
        Modules::WEBPROXY_REQUESTS,
        Modules::DHT_ROUTER,
        Modules::DHT_STORAGE,
    ];
    let mut m = Modules::empty();
    for b in M {
        m.set(b, c.flip());
    }
    let mut modules = vec![Modules::stable(); n];
    let at = c.choose(n);
    modules[at] = m;
    let acts = (0..n)
        .flat_map(|i| vec![Act::List(i), Act::Settle])
        .chain([Act::Chat(0), Act::Realm(n - 1), Act::Settle, Act::Store(n - 1), Act::Chat(n - 1), Act::Settle, Act::Restart(0), Act::Settle])
        .collect();
    run(
        c,
        &Plan {
            modules,
            acts,
            delays: 0,
            free: false,
        },
    );
}

/// All sequences of actions
fn histories(c: &mut Ctx, n: usize, len: usize, prefix: &[Act], alphabet: &[Act], settle: bool) {
    let mut acts = prefix.to_vec();
    for _ in 0..len {
        let k = c.choose(alphabet.len() + 1);
        if k == alphabet.len() {
            break;
        }
        acts.push(alphabet[k].clone());
        if settle {
            acts.push(Act::Settle);
        }
    }
    run(
        c,
        &Plan {
            modules: vec![Modules::stable(); n],
            acts,
            delays: 0,
            free: !settle,
        },
    );
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let all = |n: usize| vec![Modules::stable(); n];
    let lists = |n: usize| -> Vec<Act> { (0..n).flat_map(|i| vec![Act::List(i), Act::Settle]).collect() };
    // Fixed scripts with all orders of deliveries
    let scripts: Vec<(&str, usize, Vec<Act>)> = vec![
        ("two-chat", 2, vec![Act::List(0), Act::Chat(0), Act::List(1), Act::Chat(1), Act::Realm(0), Act::Store(0)]),
        ("two-restart", 2, vec![Act::List(0), Act::Chat(0), Act::Realm(1), Act::Store(1), Act::Restart(1), Act::List(1), Act::Edit(1), Act::Chat(1), Act::Restart(0)]),
        ("two-break", 2, vec![Act::List(0), Act::Realm(0), Act::Store(0), Act::Chat(1), Act::Break(0, 1), Act::Chat(0), Act::Edit(0), Act::List(1)]),
        ("three-chat", 3, vec![Act::List(0), Act::Chat(0), Act::List(1), Act::Chat(2), Act::List(2), Act::Realm(1), Act::Store(1)]),
        ("three-leave", 3, vec![Act::List(0), Act::List(1), Act::List(2), Act::Realm(2), Act::Store(2), Act::Chat(2), Act::Stop(2), Act::List(0), Act::Chat(0), Act::Start(2), Act::List(2)]),
    ];
    for (name, n, acts) in scripts {
        let plan = Plan {
            modules: all(n),
            acts,
            delays: t.pick(2, 3),
            free: true,
        };
        ret.push(Scn::exec(name, move |c: &mut Ctx| run(c, &plan)));
    }
    for (name, n, quick, thorough, settle) in [("two-histories", 2, 3, 4, true), ("two-sudden", 2, 3, 4, false), ("three-histories", 3, 2, 3, true)] {
        let mut alphabet = vec![];
        for i in 0..n {
            alphabet.extend([Act::Chat(i), Act::Restart(i), Act::Edit(i), Act::Stop(i), Act::Tick(i)]);
        }
        alphabet.extend([Act::Break(0, 1), Act::List(0)]);
        let mut prefix = lists(n);
        prefix.extend([Act::Realm(0), Act::Store(0), Act::Settle]);
        if settle {
            prefix.extend([Act::Tick(0), Act::Settle, Act::Tick(1), Act::Settle]);
        }
        let len = t.pick(quick, thorough);
        ret.push(Scn::exec(name, move |c: &mut Ctx| histories(c, n, len, &prefix, &alphabet, settle)));
    }
    for n in t.pick(vec![2], vec![2, 3]) {
        ret.push(Scn::exec(format!("modules-{n}"), move |c: &mut Ctx| subsets(c, n)));
    }
    ret
}
