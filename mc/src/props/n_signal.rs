//! N04, N05: the signalling server.
use std::collections::{BTreeMap, BTreeSet};

use flarch::{
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{PeerInfo, PeerMessage},
        websocket::{WSServerIn, WSServerOut},
    },
};
use flmodules::{
    network::signal::{
        BrokerSignal, MessageAnnounce, NodeStat, SignalConfig, SignalIn, SignalOut, SignalServer, WSSignalMessageFromNode,
        WSSignalMessageToNode, SIGNAL_VERSION,
    },
    nodeconfig::NodeConfig,
};
use tokio::sync::mpsc::UnboundedReceiver;

use crate::{engine::*, exec::Exec};

pub fn n04() -> Prop {
    Prop {
        id: "N04",
        level: "exploration",
        rule: "every history of connections, announcements (all combinations of challenge, key and signature), malformed messages, \
               disconnections and ticks is executed on the real server, the registered nodes are compared with a reference model after every \
               event; distinct_nontrivial counts different (history, messages sent)",
        assumptions: &["signatures can't be forged", "challenges are different, as they have 256 random bits"],
        scenarios: n04_scenarios,
    }
}

pub fn n05() -> Prop {
    Prop {
        id: "N05",
        level: "exploration",
        rule: "every history of set-up messages, statistics, ticks and disconnections of three connections is executed on the real server and \
               compared with a reference model; distinct_nontrivial counts different (history, messages sent)",
        assumptions: &["a tick is sent every minute"],
        scenarios: n05_scenarios,
    }
}

/// How a node announces itself
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ann {
    Good,
    /// The challenge of another connection is presented, but the own one is signed
    ForeignField,
    /// The own challenge is presented, but the one of another connection is signed
    ForeignSig,
    /// Both are of another connection
    Foreign,
    /// The signature has been created with the other key
    WrongKey,
    /// The exact text of the last valid announcement of anybody
    Replay,
    /// One bit of the signature is wrong
    Flip,
    ZeroChallenge,
}

#[derive(Clone, Debug)]
enum Ev {
    New,
    Announce(usize, usize, Ann),
    Text(usize, String),
    List(usize),
    Close(usize),
    Tick,
    Setup(usize, usize, usize),
    Stats(usize),
}

struct Model {
    /// The next number of a connection
    next: usize,
    open: BTreeSet<usize>,
    challenge: BTreeMap<usize, U256>,
    all_challenges: Vec<U256>,
    registered: BTreeMap<NodeID, usize>,
    ticks: BTreeMap<usize, usize>,
    ttl: usize,
    max_list: Option<usize>,
    last: Option<String>,
}

impl Model {
    fn remove(&mut self, idx: usize) {
        self.challenge.remove(&idx);
        self.registered.retain(|_, i| *i != idx);
        self.ticks.remove(&idx);
    }
    fn ids(&self) -> Vec<NodeID> {
        self.registered.keys().cloned().collect()
    }
}

struct World {
    x: Exec,
    broker: BrokerSignal,
    tap: UnboundedReceiver<SignalOut>,
    nodes: Vec<NodeConfig>,
}

const PROBE: usize = 9999;

fn start(c: &mut Ctx, ttl: u16, max_list: Option<usize>, n: usize) -> (World, Model) {
    let x = Exec::new();
    let (broker, tap) = x.block(c, async move {
        let mut broker = SignalServer::new(SignalConfig {
            ttl_minutes: ttl,
            system_realm: Some(super::f_flo::rid()),
            max_list_len: max_list,
        })
        .await
        .expect("start");
        let tap = broker.get_tap_out().await.expect("tap").0;
        (broker, tap)
    });
    (
        World {
            x,
            broker,
            tap,
            nodes: (0..n).map(|_| NodeConfig::new()).collect(),
        },
        Model {
            next: 0,
            open: BTreeSet::new(),
            challenge: BTreeMap::new(),
            all_challenges: vec![],
            registered: BTreeMap::new(),
            ticks: BTreeMap::new(),
            ttl: ttl as usize,
            max_list,
            last: None,
        },
    )
}

impl World {
    fn id(&self, n: usize) -> NodeID {
        self.nodes[n].info.get_id()
    }

    fn input(&mut self, c: &mut Ctx, m: SignalIn) -> Vec<SignalOut> {
        self.broker.emit_msg_in(m).expect("emit");
        self.x.idle(c);
        let mut out = vec![];
        while let Ok(o) = self.tap.try_recv() {
            out.push(o);
        }
        out
    }

    fn text(&mut self, c: &mut Ctx, idx: usize, t: String) -> Vec<SignalOut> {
        self.input(c, SignalIn::WSServer(WSServerOut::Message(idx, t)))
    }
}

fn json(m: &WSSignalMessageFromNode) -> String {
    serde_json::to_string(m).expect("json")
}

/// The messages to connections, and the others.
fn split(c: &mut Ctx, out: Vec<SignalOut>) -> (Vec<(usize, WSSignalMessageToNode)>, Vec<SignalOut>) {
    let (mut ws, mut others) = (vec![], vec![]);
    for o in out {
        match o {
            SignalOut::WSServer(WSServerIn::Message(i, t)) => match serde_json::from_str(&t) {
                Ok(m) => ws.push((i, m)),
                Err(e) => c.fail("unreadable", format!("{t}: {e}")),
            },
            o => others.push(o),
        }
    }
    (ws, others)
}

fn list_ok(c: &mut Ctx, m: &Model, got: &[NodeID], full: bool, what: &dyn Fn() -> String) {
    let mut l = got.to_vec();
    l.sort();
    let want = m.ids();
    let dup = l.windows(2).any(|w| w[0] == w[1]);
    c.check(!dup, "list-dup", || format!("{l:?}: {}", what()));
    match m.max_list {
        Some(max) if !full => {
            c.check(l.iter().all(|i| want.contains(i)), "list", || format!("{l:?} instead of {want:?}: {}", what()));
            c.check(l.len() == want.len().min(max), "list-len", || format!("{} of {}, max {max}: {}", l.len(), want.len(), what()));
        }
        _ => c.check(l == want, "list", || format!("{l:?} instead of {want:?}: {}", what())),
    }
}

fn event(w: &mut World, m: &mut Model, c: &mut Ctx, e: &Ev, what: &dyn Fn() -> String) -> u64 {
    let ids = |w: &World, l: &[WSSignalMessageToNode]| -> Vec<Vec<NodeID>> {
        let _ = w;
        l.iter()
            .filter_map(|m| match m {
                WSSignalMessageToNode::ListIDsReply(l) => Some(l.iter().map(|i| i.get_id()).collect()),
                _ => None,
            })
            .collect()
    };
    let heard = |m: &mut Model, idx: usize| {
        if let Some(t) = m.ticks.get_mut(&idx) {
            *t = 0;
        }
    };
    let out;
    match e {
        Ev::New => {
            let idx = m.next;
            m.next += 1;
            m.open.insert(idx);
            m.ticks.insert(idx, 0);
            out = w.input(c, SignalIn::WSServer(WSServerOut::NewConnection(idx)));
            let (ws, others) = split(c, out.clone());
            match ws.as_slice() {
                [(i, WSSignalMessageToNode::Challenge(v, ch))] if *i == idx && *v == SIGNAL_VERSION => {
                    c.check(!m.all_challenges.contains(ch), "challenge-reused", what);
                    m.all_challenges.push(*ch);
                    m.challenge.insert(idx, *ch);
                }
                o => c.fail("challenge", format!("{o:?}: {}", what())),
            }
            c.check(others.is_empty(), "unexpected", || format!("{others:?}: {}", what()));
        }
        Ev::Announce(_, _, Ann::Replay) if m.last.is_none() => return 0,
        Ev::Announce(idx, n, kind) => {
            heard(m, *idx);
            let own = m.challenge.get(idx).cloned();
            // A challenge of another connection, preferably one that is valid
            let other = m
                .challenge
                .iter()
                .find(|(i, _)| *i != idx)
                .map(|(_, ch)| *ch)
                .or(m.all_challenges.iter().find(|ch| Some(**ch) != own).cloned())
                .unwrap_or(U256::zero());
            let base = own.or(m.all_challenges.get(*idx).cloned()).unwrap_or(U256::zero());
            let (field, signed, key) = match kind {
                Ann::Good | Ann::Replay | Ann::Flip => (base, base, *n),
                Ann::ForeignField => (other, base, *n),
                Ann::ForeignSig => (base, other, *n),
                Ann::Foreign => (other, other, *n),
                Ann::WrongKey => (base, base, (n + 1) % w.nodes.len()),
                Ann::ZeroChallenge => (U256::zero(), U256::zero(), *n),
            };
            let mut signature = w.nodes[key].sign(signed.to_bytes());
            if *kind == Ann::Flip {
                signature[10] ^= 4;
            }
            let mut text = json(&WSSignalMessageFromNode::Announce(MessageAnnounce {
                version: SIGNAL_VERSION,
                challenge: field,
                node_info: w.nodes[*n].info.clone(),
                signature,
            }));
            if *kind == Ann::Replay {
                text = m.last.clone().unwrap_or(text);
            }
            out = w.text(c, *idx, text.clone());
            let (ws, others) = split(c, out.clone());
            if *kind == Ann::Good && own.is_some() {
                m.last = Some(text);
                let id = w.id(*n);
                let old = m.registered.insert(id, *idx);
                m.challenge.remove(idx);
                c.check(others == vec![SignalOut::NewNode(id)], "new-node", || format!("{others:?}: {}", what()));
                let to = |i: usize| ws.iter().filter(|(j, _)| *j == i).map(|(_, m)| m.clone()).collect::<Vec<_>>();
                for (i, msg) in &ws {
                    let ok = m.registered.values().any(|v| v == i) || Some(*i) == old;
                    c.check(ok, "unregistered-recipient", || format!("{msg:?} to {i}: {}", what()));
                }
                let mine = to(*idx);
                let conf = mine
                    .iter()
                    .filter(|m| matches!(m, WSSignalMessageToNode::SystemConfig(f) if f.system_realm == Some(super::f_flo::rid())))
                    .count();
                c.check(conf == 1, "config", || format!("{mine:?}: {}", what()));
                if let Some(old) = old {
                    let told = to(old).iter().filter(|m| matches!(m, WSSignalMessageToNode::Error(_))).count();
                    c.check(told == 1, "replaced-not-told", || format!("{:?}: {}", to(old), what()));
                }
                for i in m.registered.values().filter(|i| *i != idx).cloned().collect::<Vec<_>>() {
                    let lists = ids(w, &to(i));
                    c.check(lists.len() == 1, "list-not-sent", || format!("{i}: {:?}: {}", to(i), what()));
                    list_ok(c, m, &lists[0], true, what);
                }
            } else {
                c.check(ws.is_empty() && others.is_empty(), "bad-announcement", || format!("{out:?}: {}", what()));
            }
        }
        Ev::Text(idx, t) => {
            heard(m, *idx);
            out = w.text(c, *idx, t.clone());
            c.check(out.is_empty(), "malformed", || format!("{out:?}: {}", what()));
        }
        Ev::List(idx) => {
            heard(m, *idx);
            out = w.text(c, *idx, json(&WSSignalMessageFromNode::ListIDsRequest));
            let (ws, others) = split(c, out.clone());
            c.check(others.is_empty(), "unexpected", || format!("{others:?}: {}", what()));
            c.check(ws.len() == 1 && ws[0].0 == *idx, "list-reply", || format!("{ws:?}: {}", what()));
            let lists = ids(w, &ws.iter().map(|(_, m)| m.clone()).collect::<Vec<_>>());
            c.check(lists.len() == 1, "list-reply", || format!("{ws:?}: {}", what()));
            list_ok(c, m, &lists[0], false, what);
        }
        Ev::Close(idx) => {
            m.open.remove(idx);
            m.remove(*idx);
            out = w.input(c, SignalIn::WSServer(WSServerOut::Disconnection(*idx)));
            let (ws, _) = split(c, out.clone());
            c.check(!ws.iter().any(|(i, _)| i == idx), "message-after-close", || format!("{ws:?}: {}", what()));
        }
        Ev::Tick => {
            out = w.input(c, SignalIn::Timer);
            for t in m.ticks.values_mut() {
                *t += 1;
            }
            for idx in m.ticks.iter().filter(|(_, t)| **t > m.ttl).map(|(i, _)| *i).collect::<Vec<_>>() {
                m.remove(idx);
            }
        }
        Ev::Setup(idx, init, follow) => {
            heard(m, *idx);
            let pi = PeerInfo {
                id_init: w.id(*init),
                id_follow: w.id(*follow),
                message: PeerMessage::Offer(format!("{idx}-{init}-{follow}\u{1f600}\n")),
            };
            out = w.text(c, *idx, json(&WSSignalMessageFromNode::PeerSetup(pi.clone())));
            let (ws, others) = split(c, out.clone());
            let sender = m.registered.iter().find(|(_, i)| *i == idx).map(|(id, _)| *id);
            let other = match sender {
                Some(s) if init != follow && s == pi.id_init => Some(pi.id_follow),
                Some(s) if init != follow && s == pi.id_follow => Some(pi.id_init),
                _ => None,
            };
            let want: Vec<_> = other
                .and_then(|o| m.registered.get(&o))
                .map(|i| (*i, WSSignalMessageToNode::PeerSetup(pi)))
                .into_iter()
                .collect();
            c.check(ws == want, "forwarded", || format!("{ws:?} instead of {want:?}: {}", what()));
            c.check(others.is_empty(), "unexpected", || format!("{others:?}: {}", what()));
        }
        Ev::Stats(idx) => {
            heard(m, *idx);
            let s = vec![NodeStat {
                id: w.id(0),
                version: "1".into(),
                ping_ms: 1,
                ping_rx: 2,
            }];
            out = w.text(c, *idx, json(&WSSignalMessageFromNode::NodeStats(s.clone())));
            let (ws, others) = split(c, out.clone());
            c.check(ws.is_empty() && others == vec![SignalOut::NodeStats(s)], "stats", || format!("{out:?}: {}", what()));
        }
    }
    // Who is registered now?
    let probe = w.text(c, PROBE, json(&WSSignalMessageFromNode::ListIDsRequest));
    let (ws, _) = split(c, probe);
    let lists = ids(w, &ws.into_iter().filter(|(i, _)| *i == PROBE).map(|(_, m)| m).collect::<Vec<_>>());
    c.check(lists.len() == 1, "probe", what);
    list_ok(c, m, &lists[0], false, what);
    fp(&format!("{out:?}"))
}

fn history(c: &mut Ctx, ttl: u16, max: Option<usize>, n: usize, prefix: &[Ev], depth: usize, conns: usize, acts: &dyn Fn(usize) -> Vec<Ev>) {
    let (mut w, mut m) = start(c, ttl, max, n);
    let mut hist: Vec<Ev> = vec![];
    let mut obs = vec![];
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() {
            prefix[step].clone()
        } else {
            let mut all = vec![];
            for idx in m.open.clone() {
                all.extend(acts(idx));
                all.push(Ev::Close(idx));
            }
            all.push(Ev::Tick);
            if m.next < conns {
                all.push(Ev::New);
            }
            c.pick(&all).clone()
        };
        c.step();
        hist.push(e.clone());
        c.label(|| format!("{e:?}"));
        let h = hist.clone();
        obs.push(event(&mut w, &mut m, c, &e, &move || format!("ttl {ttl}: {h:?}")));
    }
    c.outcome(&(format!("{hist:?}"), obs));
}

/// Announcements with every kind of damage never crash the server and never register anything.
fn n04_malformed(c: &mut Ctx) {
    let (mut w, mut m) = start(c, 2, None, 2);
    let h = "a malformed message";
    event(&mut w, &mut m, c, &Ev::New, &|| h.into());
    event(&mut w, &mut m, c, &Ev::New, &|| h.into());
    let first = c.flip();
    if first {
        event(&mut w, &mut m, c, &Ev::Announce(1, 1, Ann::Good), &|| h.into());
    }
    let ch = m.challenge[&0];
    let mut info = w.nodes[0].info.clone();
    let mut sig = w.nodes[0].sign(ch.to_bytes());
    let kind = c.choose(5);
    let text = match kind {
        0 => {
            // All lengths of the signature
            sig.resize(*c.pick(&[0, 1, 31, 32, 63, 65, 128, 1000]), 7);
            None
        }
        1 => {
            // All lengths of the public key
            let l = c.choose(70);
            let full = c.flip();
            if l == 32 {
                c.trivial();
                return;
            }
            info.pubkey.resize(l, 0x5a);
            if full {
                info.pubkey = vec![0xff; l];
            }
            None
        }
        2 => {
            // Keys which are not on the curve, of small order, or not canonical
            let b = c.choose(256) as u8;
            info.pubkey = vec![b; 32];
            if c.flip() {
                info.pubkey[1..].fill(0);
            }
            // Signatures that some implementations accept for such keys
            match c.choose(3) {
                0 => {}
                1 => sig = vec![0; 64],
                _ => {
                    sig = vec![0; 64];
                    sig[0] = 1;
                }
            }
            None
        }
        3 => {
            // Every single bit of the signature and of the key
            let bit = c.choose(96 * 8);
            if bit < 64 * 8 {
                sig[bit / 8] ^= 1 << (bit % 8);
            } else {
                info.pubkey[bit / 8 - 64] ^= 1 << (bit % 8);
            }
            None
        }
        _ => {
            let good = json(&WSSignalMessageFromNode::Announce(MessageAnnounce {
                version: SIGNAL_VERSION,
                challenge: ch,
                node_info: info.clone(),
                signature: sig.clone(),
            }));
            let l = c.choose(good.len());
            let mut b = good.clone().into_bytes();
            match c.choose(3) {
                0 => b.truncate(l),
                1 => {
                    b.remove(l);
                }
                _ => b[l] = b'"',
            }
            Some(String::from_utf8_lossy(&b).to_string())
        }
    };
    let name = info.name.clone();
    let text = text.unwrap_or_else(|| {
        json(&WSSignalMessageFromNode::Announce(MessageAnnounce {
            version: SIGNAL_VERSION,
            challenge: ch,
            node_info: info,
            signature: sig,
        }))
    });
    let _ = name;
    c.step();
    c.label(|| text.clone());
    let out = w.text(c, 0, text.clone());
    if kind == 4 {
        // A change of the name or of the client is not protected by the signature.
        let (_, others) = split(c, out);
        for o in others {
            c.check(o == SignalOut::NewNode(w.id(0)), "malformed", || format!("{o:?}: {text}"));
        }
    } else {
        c.check(out.is_empty(), "malformed", || format!("{out:?}: {text}"));
        let probe = w.text(c, PROBE, json(&WSSignalMessageFromNode::ListIDsRequest));
        let (ws, _) = split(c, probe);
        match ws.as_slice() {
            [(_, WSSignalMessageToNode::ListIDsReply(l))] => {
                let l: Vec<NodeID> = l.iter().map(|i| i.get_id()).collect();
                c.check(l == m.ids(), "malformed-registered", || format!("{l:?}: {text}"));
            }
            o => c.fail("probe", format!("{o:?}")),
        }
        // The challenge can still be used
        event(&mut w, &mut m, c, &Ev::Announce(0, 0, Ann::Good), &|| format!("after {text}"));
    }
    c.outcome(&text);
}

fn n04_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let ann = |idx: usize, kinds: &[Ann], nodes: usize| {
        let mut v = vec![];
        for n in 0..nodes {
            for k in kinds {
                v.push(Ev::Announce(idx, n, *k));
            }
        }
        v
    };
    let all = [
        Ann::Good,
        Ann::ForeignField,
        Ann::ForeignSig,
        Ann::Foreign,
        Ann::WrongKey,
        Ann::Replay,
        Ann::Flip,
        Ann::ZeroChallenge,
    ];
    let d = t.pick(3, 4);
    ret.push(Scn::exec("announcements", move |c: &mut Ctx| {
        history(c, 3, None, 2, &[Ev::New, Ev::New], d, 3, &|i| ann(i, &all, 2))
    }));
    let d = t.pick(4, 5);
    ret.push(Scn::exec("registrations", move |c: &mut Ctx| {
        history(c, 2, None, 3, &[Ev::New, Ev::New, Ev::New], d, 4, &|i| {
            let mut v = ann(i, &[Ann::Good], if i == 0 { 3 } else { 2 });
            v.push(Ev::Announce(i, 0, Ann::Replay));
            v
        })
    }));
    let d = t.pick(5, 6);
    ret.push(Scn::exec("same node", move |c: &mut Ctx| {
        history(c, 1, None, 1, &[Ev::New], d, 3, &|i| vec![Ev::Announce(i, 0, Ann::Good), Ev::Announce(i, 0, Ann::Replay), Ev::List(i)])
    }));
    for max in [0, 1, 2] {
        ret.push(Scn::exec(format!("list length {max}"), move |c: &mut Ctx| {
            history(c, 2, Some(max), 3, &[Ev::New, Ev::New, Ev::New], t.pick(4, 5), 3, &|i| {
                vec![Ev::Announce(i, i, Ann::Good), Ev::List(i)]
            })
        }));
    }
    ret.push(Scn::exec("malformed", n04_malformed));
    let texts: Vec<String> = [
        "", "null", "{}", "[]", "\"\"", "\"ListIDsRequest", "{\"Announce\":{}}", "{\"Announce\":null}", "{\"PeerSetup\":{}}", "{\"NodeStats\":{}}",
        "{\"Challenge\":[3,\"00\"]}", "Announce", "\u{0}", "{\"ListIDsRequest\":1}", "{\"Announce\":{\"version\":-1}}", "[[[[[[",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    ret.push(Scn::exec("garbage", move |c: &mut Ctx| {
        let t = texts.clone();
        history(c, 2, None, 1, &[Ev::New, Ev::Announce(0, 0, Ann::Good), Ev::New], 2, 2, &|i| {
            t.iter().map(|s| Ev::Text(i, s.clone())).collect()
        })
    }));
    ret
}

fn n05_scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![];
    let pre = vec![Ev::New, Ev::Announce(0, 0, Ann::Good), Ev::New, Ev::Announce(1, 1, Ann::Good), Ev::New];
    // Nodes 0 and 1 are registered, the third connection isn't, but it can become 1 or 2
    let p = pre.clone();
    let d = t.pick(3, 4);
    ret.push(Scn::exec("setup", move |c: &mut Ctx| {
        history(c, 2, None, 3, &p, d, 3, &|i| {
            let mut v = vec![];
            for a in 0..3 {
                for b in 0..3 {
                    v.push(Ev::Setup(i, a, b));
                }
            }
            if i == 2 {
                v.push(Ev::Announce(2, 1, Ann::Good));
                v.push(Ev::Announce(2, 2, Ann::Good));
            }
            v
        })
    }));
    for ttl in [0, 1, 2, 3] {
        let p = pre.clone();
        let d = t.pick(5, 6);
        ret.push(Scn::exec(format!("silence ttl {ttl}"), move |c: &mut Ctx| {
            history(c, ttl, None, 3, &p[..4], d, 2, &|i| vec![Ev::Setup(i, 0, 1), [Ev::Stats(i), Ev::List(i)][i % 2].clone(), Ev::Text(i, "{".into())])
        }));
    }
    // A node that keeps sending is never removed, one that doesn't is removed.
    for ttl in [1u16, 2, 5] {
        ret.push(Scn::exec(format!("keep alive ttl {ttl}"), move |c: &mut Ctx| {
            let (mut w, mut m) = start(c, ttl, None, 2);
            let mut hist = vec![];
            for e in [Ev::New, Ev::Announce(0, 0, Ann::Good), Ev::New, Ev::Announce(1, 1, Ann::Good)] {
                event(&mut w, &mut m, c, &e, &|| "start".into());
            }
            for _ in 0..t.pick(9, 12) {
                // In every minute, node 0 sends before the tick, node 1 sends or not
                let e = Ev::List(0);
                let one = c.flip();
                hist.push(one);
                let h = hist.clone();
                let what = move || format!("ttl {ttl}, messages of node 1: {h:?}");
                event(&mut w, &mut m, c, &e, &what);
                if one {
                    event(&mut w, &mut m, c, &Ev::Stats(1), &what);
                }
                c.step();
                event(&mut w, &mut m, c, &Ev::Tick, &what);
                c.check(m.registered.contains_key(&w.id(0)), "model", &what);
            }
            c.outcome(&hist);
        }));
    }
    // Replaced connections and reconnections
    let p = pre.clone();
    let d = t.pick(4, 5);
    ret.push(Scn::exec("replaced", move |c: &mut Ctx| {
        history(c, 1, None, 2, &p, d, 4, &|i| {
            let mut v = vec![Ev::Setup(i, 0, 1)];
            if i >= 2 {
                v.push(Ev::Announce(i, 0, Ann::Good));
                v.push(Ev::Announce(i, 1, Ann::Good));
            }
            v
        })
    }));
    ret
}
