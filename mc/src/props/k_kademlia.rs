//! K01, K02, K03: the routing table.
use std::collections::{BTreeMap, BTreeSet};

use flarch::nodeids::{NodeID, U256};
use flmodules::dht_router::kademlia::{Config, Kademlia};

use crate::engine::*;

pub fn k01() -> Prop {
    Prop {
        id: "K01",
        level: "model_checking",
        rule: "explicit-state search over all tables of the real Kademlia reachable by add / active / tick / disconnect / remove; states are \
               canonical serialisations of the real table, every transition is executed on the real code and checked",
        assumptions: &["the peers have up to 4 different distances to the node", "ping_timeout > ping_interval > 0, k > 0"],
        scenarios: |t| k_scenarios(t, true),
    }
}

pub fn k02() -> Prop {
    Prop {
        id: "K02",
        level: "model_checking",
        rule: "explicit-state search over the tables of the real Kademlia with a reference model that counts the silent ticks of every peer; \
               every transition is executed on the real code and compared with the model",
        assumptions: &["the peers have up to 4 different distances to the node", "ping_timeout > ping_interval > 0, k > 0"],
        scenarios: |t| k_scenarios(t, false),
    }
}

/// An ID with the given bits in front, and something unique behind.
pub fn nid(prefix: u8, tail: u8) -> NodeID {
    let mut b = [0u8; 32];
    b[0] = prefix;
    b[31] = tail;
    U256::from(b)
}

pub fn cpl(a: &NodeID, b: &NodeID) -> usize {
    let (a, b) = (a.to_bytes(), b.to_bytes());
    (0..256)
        .find(|i| (a[i / 8] ^ b[i / 8]) & (0x80 >> (i % 8)) != 0)
        .unwrap_or(256)
}

#[derive(Clone)]
struct Setup {
    k: usize,
    interval: u32,
    timeout: u32,
    depths: Vec<u8>,
    /// How many of the peers are there from the beginning, and how many of them are active
    start: (usize, usize),
}

// What the model knows of a peer
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
struct Peer {
    // Ticks since it has last been seen, or since it has been added
    silent: u32,
    // Has been pinged since
    pinged: bool,
}

struct Sys {
    kad: Kademlia,
    s: Setup,
    peers: Vec<NodeID>,
    model: BTreeMap<usize, Peer>,
    hist: Vec<String>,
}

fn canon(k: &Kademlia) -> String {
    serde_json::to_string(k).unwrap()
}

impl Sys {
    fn new(s: &Setup) -> Self {
        // The root is not 0, so that mixing up IDs and distances gets noticed.
        let root = nid(0b0101_0000, 0);
        let peers = s
            .depths
            .iter()
            .enumerate()
            .map(|(i, d)| nid(0b0101_0000 ^ (0x80 >> d), i as u8 + 1))
            .collect();
        Self {
            kad: Kademlia::new(Config {
                root,
                k: s.k,
                ping_interval: s.interval,
                ping_timeout: s.timeout,
            }),
            s: s.clone(),
            peers,
            model: BTreeMap::new(),
            hist: vec![],
        }
    }

    fn idx(&self, c: &mut Ctx, id: &NodeID) -> usize {
        match self.peers.iter().position(|p| p == id) {
            Some(i) => i,
            None => c.fail("unknown-peer", format!("{:?}: {id} is not one of the peers", self.hist)),
        }
    }

    fn active(&self, c: &mut Ctx) -> BTreeSet<usize> {
        let l = self.kad.active_nodes();
        let s: BTreeSet<usize> = l.iter().map(|id| self.idx(c, id)).collect();
        c.check(s.len() == l.len(), "duplicate", || format!("{:?}: duplicate active peers {l:?}", self.hist));
        s
    }

    fn waiting(&self, c: &mut Ctx) -> BTreeSet<usize> {
        let l = self.kad.cache_nodes();
        let s: BTreeSet<usize> = l.iter().map(|id| self.idx(c, id)).collect();
        c.check(s.len() == l.len(), "duplicate", || format!("{:?}: duplicate waiting peers {l:?}", self.hist));
        s
    }

    // (active, waiting) per bucket, the last one is the root bucket
    fn buckets(&self, c: &mut Ctx) -> Vec<(BTreeSet<usize>, BTreeSet<usize>)> {
        let mut ret: Vec<(BTreeSet<usize>, BTreeSet<usize>)> = self
            .kad
            .bucket_nodes()
            .iter()
            .map(|b| (b.iter().map(|id| self.idx(c, id)).collect(), BTreeSet::new()))
            .collect();
        let last = ret.len() - 1;
        for w in self.waiting(c) {
            ret[(self.s.depths[w] as usize).min(last)].1.insert(w);
        }
        ret
    }

    fn structure(&self, c: &mut Ctx) {
        let (active, waiting) = (self.active(c), self.waiting(c));
        if let Some(d) = active.intersection(&waiting).next() {
            c.fail("duplicate", format!("{:?}: peer {d} is active and waiting", self.hist));
        }
        let b = self.buckets(c);
        let all: BTreeSet<usize> = b.iter().flat_map(|b| b.0.clone()).collect();
        c.check(all == active, "bucket_nodes", || format!("{:?}: {b:?} - {active:?}", self.hist));
        let last = b.len() - 1;
        for (i, (act, wait)) in b.iter().enumerate() {
            for a in act {
                let d = self.s.depths[*a] as usize;
                c.check(if i < last { d == i } else { d >= last }, "wrong-bucket", || {
                    format!("{:?}: peer {a} with distance {d} is in bucket {i} of {b:?}", self.hist)
                });
                if !self.kad.get_nodes_depth(d).contains(&self.peers[*a]) {
                    c.fail("get_nodes_depth", format!("{:?}: {a} is not found at depth {d}", self.hist));
                }
            }
            if i < last {
                c.check(act.len() <= self.s.k, "too-many-active", || format!("{:?}: {b:?}", self.hist));
                c.check(wait.len() <= 2 * self.s.k, "too-many-waiting", || format!("{:?}: {b:?}", self.hist));
            }
        }
        for d in 0..6 {
            for id in self.kad.get_nodes_depth(d) {
                let i = self.idx(c, &id);
                c.check(self.s.depths[i] as usize == d && active.contains(&i), "get_nodes_depth", || {
                    format!("{:?}: depth {d} returns {i}", self.hist)
                });
            }
        }
    }

    // Candidates get tried where there is place for active peers.
    fn candidates(&self, c: &mut Ctx) {
        let b = self.buckets(c);
        let mut k = self.kad.clone();
        let mut tried: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..self.s.interval {
            let t = k.tick();
            for id in t.ping.iter().chain(t.deleted.iter()) {
                tried.insert(self.idx(c, id));
            }
        }
        for (i, (act, wait)) in b.iter().enumerate() {
            let room = if i == b.len() - 1 { wait.len() } else { self.s.k.saturating_sub(act.len()) };
            let want = room.min(wait.len());
            let got = wait.intersection(&tried).count();
            c.check(got >= want, "candidates-not-tried", || {
                format!("{:?}: only {got} of {wait:?} get tried in bucket {i} of {b:?}", self.hist)
            });
        }
    }

    // Nobody routes to a peer that isn't active.
    fn routes(&self, c: &mut Ctx) {
        let active = self.active(c);
        for d in 0..5u8 {
            let dst = nid(0b0101_0000 ^ (0x80 >> d), 0x77);
            for last in std::iter::once(None).chain(self.peers.iter().map(Some)) {
                for id in self.kad.route_closest(&dst, last).iter().chain(self.kad.route_direct(&dst).iter()) {
                    let i = self.idx(c, id);
                    c.check(active.contains(&i), "route-to-inactive", || {
                        format!("{:?}: peer {i} isn't active, but offered as a hop", self.hist)
                    });
                }
            }
        }
    }

    fn op(&mut self, c: &mut Ctx, op: Op, k01: bool) {
        c.step();
        self.hist.push(format!("{op:?}"));
        let (a0, w0) = (self.active(c), self.waiting(c));
        let known0: BTreeSet<usize> = a0.union(&w0).cloned().collect();
        let b0 = self.buckets(c);
        match op {
            Op::Add(i) => {
                self.kad.add_node(self.peers[i]);
                let (a1, w1) = (self.active(c), self.waiting(c));
                let known1: BTreeSet<usize> = a1.union(&w1).cloned().collect();
                if known0.contains(&i) {
                    c.check(a0 == a1 && w0 == w1, "add-known", || format!("{:?}: changes the table", self.hist));
                } else {
                    if known1.contains(&i) {
                        self.model.insert(i, Peer { silent: 0, pinged: false });
                    }
                    c.check(!a1.contains(&i), "add-active", || {
                        format!("{:?}: {i} is active without having been seen", self.hist)
                    });
                    // Only full buckets may drop peers
                    let b = self.buckets(c);
                    let last = b.len() - 1;
                    for d in known0.iter().chain(std::iter::once(&i)).filter(|d| !known1.contains(d)) {
                        let bi = (self.s.depths[*d] as usize).min(last);
                        let full = bi < last && b[bi].1.len() >= self.s.k;
                        c.check(full, "dropped", || {
                            format!("{:?}: {d} got lost, its bucket {bi} of {b:?} isn't full, before: {b0:?}", self.hist)
                        });
                    }
                }
                self.model.retain(|i, _| known1.contains(i));
            }
            Op::Own => {
                let before = canon(&self.kad);
                self.kad.add_node(self.kad.config.root);
                c.check(before == canon(&self.kad), "add-own", || format!("{:?}: changes the table", self.hist));
            }
            Op::Active(i) => {
                let new = self.kad.node_active(&self.peers[i]);
                let (a1, w1) = (self.active(c), self.waiting(c));
                let known1: BTreeSet<usize> = a1.union(&w1).cloned().collect();
                c.check(known0 == known1, "active-changes-known", || format!("{:?}: {known0:?} -> {known1:?}", self.hist));
                c.check(a0.is_subset(&a1), "active-demotes", || format!("{:?}: {a0:?} -> {a1:?}", self.hist));
                let more: BTreeSet<usize> = a1.difference(&a0).cloned().collect();
                let root = b0.len() - 1;
                let bi = (self.s.depths[i] as usize).min(root);
                let place = bi == root || b0[bi].0.len() < self.s.k;
                let want: BTreeSet<usize> = (w0.contains(&i) && place).then_some(i).into_iter().collect();
                c.check(more == want, "activated", || {
                    format!("{:?}: newly active: {more:?} instead of {want:?} in {b0:?}", self.hist)
                });
                c.check(new == !more.is_empty(), "node_active", || format!("{:?}: returns {new}", self.hist));
                if let Some(p) = self.model.get_mut(&i) {
                    *p = Peer { silent: 0, pinged: false };
                }
            }
            Op::Disconnect(i) | Op::Remove(i) => {
                if let Op::Disconnect(_) = op {
                    self.kad.node_disconnected(&self.peers[i]);
                } else {
                    self.kad.remove_node(&self.peers[i]);
                }
                let (a1, w1) = (self.active(c), self.waiting(c));
                if a1.contains(&i) {
                    c.fail(
                        if matches!(op, Op::Remove(_)) { "remove" } else { "disconnect" },
                        format!("{:?}: peer {i} is still active", self.hist),
                    )
                }
                if let Op::Remove(_) = op {
                    c.check(!w1.contains(&i), "remove", || format!("{:?}: peer {i} is still waiting", self.hist));
                }
                let mut want = a0.clone();
                want.remove(&i);
                c.check(a1 == want, "removed-others", || format!("{:?}: active {a0:?} -> {a1:?}", self.hist));
                let mut others = w0.clone();
                others.remove(&i);
                let mut others1 = w1.clone();
                others1.remove(&i);
                c.check(others == others1, "removed-others", || format!("{:?}: waiting {w0:?} -> {w1:?}", self.hist));
                if !w1.contains(&i) {
                    self.model.remove(&i);
                }
            }
            Op::Tick => {
                let t = self.kad.tick();
                let ping: Vec<usize> = t.ping.iter().map(|id| self.idx(c, id)).collect();
                let del: BTreeSet<usize> = t.deleted.iter().map(|id| self.idx(c, id)).collect();
                let pinged: BTreeSet<usize> = ping.iter().cloned().collect();
                let (a1, w1) = (self.active(c), self.waiting(c));
                let known1: BTreeSet<usize> = a1.union(&w1).cloned().collect();
                let gone: BTreeSet<usize> = known0.difference(&known1).cloned().collect();
                c.check(gone == del && known1.is_subset(&known0), "tick-removed", || {
                    format!("{:?}: removed {gone:?}, but reports {del:?}", self.hist)
                });
                c.check(ping.len() == pinged.len(), "double-ping", || format!("{:?}: {ping:?}", self.hist));
                c.check(pinged.is_subset(&known0), "ping-unknown", || format!("{:?}: {ping:?}", self.hist));
                let (interval, timeout) = (self.s.interval, self.s.timeout);
                for (i, p) in self.model.iter_mut() {
                    p.silent += 1;
                    p.pinged |= pinged.contains(i);
                    if !k01 {
                        if a0.contains(i) {
                            let want = p.silent % interval == 0;
                            if pinged.contains(i) != want && !del.contains(i) {
                                c.fail(
                                    "ping-interval",
                                    format!("{:?}: active peer {i}, {} ticks silent, pinged: {}", self.hist, p.silent, !want),
                                );
                            }
                            if gone.contains(i) != (p.silent >= timeout) {
                                c.fail(
                                    "timeout",
                                    format!("{:?}: active peer {i}, {} ticks silent, gone: {}", self.hist, p.silent, gone.contains(i)),
                                );
                            }
                        } else if gone.contains(i) && !(p.pinged && p.silent + interval > timeout) {
                            c.fail(
                                "waiting-timeout",
                                format!("{:?}: waiting peer {i} removed after {} ticks, pinged: {}", self.hist, p.silent, p.pinged),
                            );
                        }
                    }
                }
                self.model.retain(|i, _| !gone.contains(i));
            }
        }
        if k01 {
            self.structure(c);
            self.candidates(c);
        } else {
            self.routes(c);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize),
    Active(usize),
    Disconnect(usize),
    Remove(usize),
    Tick,
    Own,
}

fn k_history(c: &mut Ctx, s: &Setup, depth: usize, k01: bool) {
    let mut sys = Sys::new(s);
    for i in 0..s.start.0 {
        sys.op(c, Op::Add(i), k01);
    }
    for i in 0..s.start.1 {
        sys.op(c, Op::Active(i), k01);
    }
    let n = s.depths.len();
    let mut ops = vec![Op::Tick];
    for i in 0..n {
        ops.extend([Op::Add(i), Op::Active(i), Op::Disconnect(i)]);
        if k01 {
            ops.push(Op::Remove(i));
        }
    }
    if k01 {
        ops.push(Op::Own);
    }
    for d in 0..depth {
        let m: Vec<_> = sys.model.iter().map(|(i, p)| (*i, *p)).collect();
        if c.visited(&(s.k, s.interval, s.timeout, &s.depths, canon(&sys.kad), m), depth - d) {
            return;
        }
        let op = *c.pick(&ops);
        c.label(|| format!("{op:?}"));
        sys.op(c, op, k01);
    }
    c.outcome(&canon(&sys.kad));
}

fn k_scenarios(t: Tier, k01: bool) -> Vec<Scn> {
    let mut ret = vec![];
    let depth = t.pick(7, 9);
    let d = |x: usize| depth - x;
    let mut add = |name: &str, s: Setup, depth: usize| {
        ret.push(Scn::new(format!("{name}-k{}-{}/{}", s.k, s.interval, s.timeout), move |c: &mut Ctx| {
            k_history(c, &s, depth, k01)
        }));
    };
    let s = |k, interval, timeout, depths: &[u8], start| Setup {
        k,
        interval,
        timeout,
        depths: depths.to_vec(),
        start,
    };
    // Everything from the beginning
    add("empty", s(1, 2, 4, &[0, 1, 1, 2], (0, 0)), d(0));
    add("empty", s(2, 2, 4, &[0, 1, 1, 2], (0, 0)), d(0));
    // Different intervals, few peers
    add("ticks", s(1, 1, 2, &[0, 1, 2], (3, 2)), d(0));
    add("ticks", s(1, 3, 5, &[0, 0, 1], (2, 1)), d(0));
    // Many peers in one bucket that overflows
    add("same", s(1, 2, 4, &[0, 0, 0, 0, 1, 2], (4, 3)), d(1));
    add("same", s(2, 2, 5, &[0, 0, 0, 1, 1, 2, 2], (6, 4)), d(1));
    add("buckets", s(1, 2, 4, &[3, 2, 1, 0, 0, 1], (4, 2)), d(1));
    add("buckets", s(2, 2, 4, &[0, 1, 2, 3, 0, 1, 2], (7, 3)), d(1));
    ret
}

pub fn k03() -> Prop {
    Prop {
        id: "K03",
        level: "model_checking",
        rule: "all node sets over the prefixes up to symmetry, every node's table chosen among all its possible sets of active peers \
               when the message gets to it, all hops offered by the real table are followed",
        assumptions: &["IDs only differ in their first 4 bits (quick: at most 4 nodes on 4 bits and 5 nodes on 3 bits)"],
        scenarios: k03_scenarios,
    }
}

// The destination is at 0 - all other situations are the same up to xor.
fn k03_walk(c: &mut Ctx, bits: u8, nodes: usize, k: usize, dst_node: bool) {
    let max = 1u8 << bits;
    let sh = 8 - bits;
    // Choose an increasing list of prefixes. Two nodes might share a prefix.
    let mut pre: Vec<u8> = vec![];
    let mut low = if dst_node { 0 } else { 1 };
    for i in 0..nodes {
        let left = nodes - 1 - i;
        let _ = left;
        let v = low + c.choose((max - low) as usize) as u8;
        pre.push(v);
        low = v;
    }
    // Only the second of two equal ones makes a difference
    if pre.windows(3).any(|w| w[0] == w[2]) {
        c.trivial();
        return;
    }
    let ids: Vec<NodeID> = pre.iter().enumerate().map(|(i, p)| nid(p << sh, i as u8 + 1)).collect();
    let dst = if dst_node && pre[0] == 0 { ids[0] } else { nid(0, 0x77) };
    let start = c.choose(nodes);
    let mut path = vec![start];
    let mut last: Option<usize> = None;
    c.label(|| format!("nodes {pre:?}, start {start}"));
    loop {
        let cur = *path.last().unwrap();
        if ids[cur] == dst {
            break;
        }
        let key = (&pre, k, &path, dst_node);
        if c.visited(&key, 0) {
            return;
        }
        // The table of this node
        let others: Vec<usize> = (0..nodes).filter(|i| *i != cur).collect();
        let mask = c.choose(1 << others.len());
        let rev = c.flip();
        let mut kad = Kademlia::new(Config {
            root: ids[cur],
            k,
            ping_interval: 2,
            ping_timeout: 4,
        });
        let mut sel: Vec<usize> =
            others.iter().enumerate().filter(|(b, _)| mask & (1 << b) != 0).map(|(_, i)| *i).collect();
        if rev {
            sel.reverse();
        }
        for i in &sel {
            kad.add_node(ids[*i]);
            kad.node_active(&ids[*i]);
        }
        c.step();
        let active = kad.active_nodes();
        let hops = kad.route_closest(&dst, last.map(|l| &ids[l]));
        let mine = cpl(&ids[cur], &dst);
        let d = || format!("nodes {pre:?}, path {path:?}, active {active:?}, offers {hops:?}");
        // If somebody is nearer, then only nearer ones are offered.
        let nearer = active.iter().any(|a| cpl(a, &dst) > mine);
        if nearer {
            c.check(!hops.is_empty() && hops.iter().all(|h| cpl(h, &dst) > mine), "not-nearer", d);
        }
        let direct = kad.route_direct(&dst);
        c.check(direct.iter().all(|h| active.contains(h) && cpl(h, &dst) > mine), "direct", d);
        c.check(direct.is_empty() != nearer, "direct-empty", d);
        for h in &hops {
            c.check(active.contains(h), "hop-not-active", d);
            c.check(*h != ids[cur], "hop-self", d);
            c.check(last.map(|l| ids[l] != *h).unwrap_or(true), "hop-back", d);
            c.check(cpl(h, &dst) >= mine, "hop-further", d);
            let i = ids.iter().position(|i| i == h).unwrap();
            c.check(!path.contains(&i), "loop", d);
        }
        if hops.is_empty() {
            break;
        }
        let h = hops[c.choose(hops.len())];
        let i = ids.iter().position(|i| *i == h).unwrap();
        c.label(|| format!("{cur} with {sel:?} -> {i}"));
        last = Some(cur);
        path.push(i);
    }
    c.outcome(&(&pre, &path));
}

fn k03_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    for k in [1, 2] {
        for dst in [true, false] {
            for (bits, nodes) in t.pick(vec![(4, 4), (3, 5), (4, 5)], vec![(4, 5), (3, 6), (4, 6)]) {
                ret.push(Scn::new(format!("{nodes}x{bits}bits-k{k}-{dst}"), move |c: &mut Ctx| {
                    k03_walk(c, bits, nodes, k, dst)
                }));
            }
        }
    }
    ret
}
