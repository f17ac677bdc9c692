//! N03: the network module, which sets up the connections to the peers.
use std::collections::{BTreeMap, BTreeSet};

use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{ConnectionStateMap, DataChannelState, PeerInfo, PeerMessage, SignalingState},
        node_connection::{Direction, NCInput, NCOutput},
        websocket::{BrokerWSClient, WSClientIn, WSClientOut},
        BrokerWebRTCConn, WebRTCConnIn, WebRTCConnOut,
    },
};
use flmodules::{
    network::{
        broker::{BrokerNetwork, Network, NetworkIn, NetworkOut, MODULE_NAME},
        signal::{FledgerConfig, NodeStat, WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION},
    },
    nodeconfig::{NodeConfig, NodeInfo},
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, Timer, TimerMessage},
};
use tokio::sync::{mpsc::UnboundedReceiver, watch};

use super::k_kademlia::nid;
use crate::{
    engine::*,
    exec::{Exec, Mode},
};

pub fn n03() -> Prop {
    Prop {
        id: "N03",
        level: "exploration",
        rule: "every history of messages from the signalling server, of WebRTC events and of requests is executed on the running module and \
               compared with a reference model after every event; distinct_nontrivial counts different (history, emitted messages)",
        assumptions: &["a set-up message other than an ICE candidate restarts the connection of its direction"],
        scenarios,
    }
}

struct Net {
    node: NodeConfig,
    network: BrokerNetwork,
    conns: watch::Receiver<Vec<NodeID>>,
    ws: BrokerWSClient,
    rtc: BrokerWebRTCConn,
    timer: BrokerTimer,
    out: UnboundedReceiver<NetworkOut>,
    ws_in: UnboundedReceiver<WSClientIn>,
    rtc_in: UnboundedReceiver<WebRTCConnIn>,
}

#[derive(Default, Debug)]
struct Seen {
    net: Vec<NetworkOut>,
    ws: Vec<WSClientIn>,
    rtc: Vec<WebRTCConnIn>,
}

impl Net {
    fn start(x: &Exec, c: &mut Ctx) -> Self {
        let node = NodeConfig::new();
        x.block(c, async move {
            let mut ws: BrokerWSClient = Broker::new();
            let mut rtc: BrokerWebRTCConn = Broker::new();
            let ws_in = ws.get_tap_in().await.expect("tap").0;
            let rtc_in = rtc.get_tap_in().await.expect("tap").0;
            let mut timer = Timer::simul();
            let n = Network::start(node.clone(), ws.clone(), rtc.clone(), &mut timer).await.expect("network");
            let mut network = n.broker;
            let out = network.get_tap_out().await.expect("tap").0;
            Self {
                node,
                network,
                conns: n.connections,
                ws,
                rtc,
                timer: timer.broker,
                out,
                ws_in,
                rtc_in,
            }
        })
    }

    fn own(&self) -> NodeID {
        self.node.info.get_id()
    }

    fn seen(&mut self) -> Seen {
        let mut s = Seen::default();
        while let Ok(m) = self.out.try_recv() {
            s.net.push(m);
        }
        while let Ok(m) = self.ws_in.try_recv() {
            s.ws.push(m);
        }
        while let Ok(m) = self.rtc_in.try_recv() {
            s.rtc.push(m);
        }
        s
    }

    fn server(&mut self, m: &WSSignalMessageToNode) {
        let s = serde_json::to_string(m).expect("json");
        self.ws.emit_msg_out(WSClientOut::Message(s)).expect("emit");
    }

    fn event(&mut self, id: NodeID, m: NCOutput) {
        self.rtc.emit_msg_out(WebRTCConnOut::Message(id, m)).expect("emit");
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dir {
    In,
    Out,
}

impl Dir {
    fn real(self) -> Direction {
        match self {
            Dir::In => Direction::Incoming,
            Dir::Out => Direction::Outgoing,
        }
    }
}

/// Which message for the set up: the first three restart a connection
const SETUPS: usize = 4;

fn pm(kind: usize, txt: &str) -> PeerMessage {
    match kind {
        0 => PeerMessage::Init,
        1 => PeerMessage::Offer(format!("offer {txt}")),
        2 => PeerMessage::Answer(format!("answer {txt}")),
        _ => PeerMessage::IceCandidate(format!("ice {txt}")),
    }
}

#[derive(Clone, Debug)]
enum Ev {
    /// A set-up message of the server: peer, direction, kind
    Setup(usize, Dir, usize),
    /// Set-up messages that don't concern this node
    Foreign(usize),
    Open(usize, Dir),
    Close(usize, Dir),
    Text(usize),
    State(usize, Dir),
    /// The WebRTC part wants to send a set-up message
    SendSetup(usize, Dir, usize),
    /// Requests of the user: 100 is the node itself
    Send(usize),
    Connect(usize),
    Disconnect(usize),
    Tick,
    Challenge,
    List,
    Config,
    Error,
    Stats,
    Update,
    /// Texts of the server which aren't valid messages
    BadServer(usize),
    /// Texts of a peer which aren't valid messages
    BadPeer(usize, usize),
    Socket(usize),
}

const SELF: usize = 100;

fn peer(n: &Net, p: usize) -> NodeID {
    match p {
        SELF => n.own(),
        _ => nid([0x80, 0x41, 0x22][p % 3], p as u8 + 1),
    }
}

fn wrap(txt: &str) -> NetworkWrapper {
    NetworkWrapper {
        module: "Module".into(),
        msg: format!("text: {txt}\n"),
    }
}

fn bad_server() -> Vec<String> {
    let z = U256::zero();
    vec![
        "".into(),
        "null".into(),
        "{}".into(),
        "[]".into(),
        "\"PeerSetup\"".into(),
        "{\"Challenge\":[3]}".into(),
        "{\"Challenge\":[-1,\"00\"]}".into(),
        "{\"ListIDsReply\":[{}]}".into(),
        "{\"ListIDsReply\":{}}".into(),
        "{\"PeerSetup\":{}}".into(),
        "{\"Unknown\":1}".into(),
        format!("{{\"PeerSetup\":{{\"id_init\":\"{z:x}\",\"id_follow\":\"{z:x}\",\"message\":{{}}}}}}"),
        format!("{{\"PeerSetup\":{{\"id_init\":\"{z:x}\",\"id_follow\":\"00\",\"message\":\"Init\"}}}}"),
    ]
}

/// Texts of a peer: the flag tells if it is a message the modules must see.
fn bad_peer(idx: usize) -> String {
    let m = |msg: &str| {
        serde_yaml::to_string(&NetworkWrapper {
            module: MODULE_NAME.into(),
            msg: msg.into(),
        })
        .expect("yaml")
    };
    match idx {
        0 => "".into(),
        1 => "{}".into(),
        2 => "module: 1".into(),
        3 => "module: [a\n".into(),
        4 => "\u{0}".into(),
        5 => "--- !!binary x".into(),
        6 => "module: a\nmsg: {}\n".into(),
        // Messages for the network module itself
        7 => m("{}"),
        8 => m(""),
        9 => m("SignalIn: Connected\n"),
        10 => m("SignalOut: Connect\n"),
        11 => m("SignalIn:\n  Message: a\n"),
        12 => m("SignalOut:\n  Message: a\n"),
        13 => m("SignalIn: {}\n"),
        14 => m("SignalOut:\n  - Message\n"),
        15 => m("SignalIn:\n  Error: \"\"\n"),
        16 => m("SignalOut: Disconnect\n"),
        _ => m("SignalIn: Disconnect\n"),
    }
}
const BAD_PEERS: usize = 18;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum St {
    None,
    Setup,
    Open,
}

struct Model {
    st: BTreeMap<(usize, bool), St>,
    ticks: usize,
}

impl Model {
    fn get(&self, p: usize, d: Dir) -> St {
        *self.st.get(&(p, d == Dir::In)).unwrap_or(&St::None)
    }
    fn set(&mut self, p: usize, d: Dir, s: St) {
        self.st.insert((p, d == Dir::In), s);
    }
    fn open(&self, p: usize) -> bool {
        [Dir::In, Dir::Out].iter().any(|d| self.get(p, *d) == St::Open)
    }
}

fn msg(m: &WSSignalMessageFromNode) -> WSClientIn {
    WSClientIn::Message(serde_json::to_string(m).expect("json"))
}

fn infos() -> Vec<NodeInfo> {
    (0..2)
        .map(|i| {
            let mut n = NodeConfig::new().info;
            n.name = format!("n{i}");
            n
        })
        .collect()
}

fn state_map() -> ConnectionStateMap {
    ConnectionStateMap {
        signaling: SignalingState::Stable,
        data_connection: Some(DataChannelState::Open),
        rx_bytes: 12,
        tx_bytes: 34,
        delay_ms: 56,
        ..Default::default()
    }
}

fn event(n: &mut Net, m: &mut Model, x: &Exec, c: &mut Ctx, e: &Ev, step: usize, what: &dyn Fn() -> String) -> u64 {
    let own = n.own();
    let txt = format!("t{step}");
    let (mut net, mut ws, mut rtc) = (vec![], vec![], vec![]);
    // Additional messages which are allowed
    let mut maybe_rtc: Vec<WebRTCConnIn> = vec![];
    let mut maybe_net: Vec<NetworkOut> = vec![];
    let mut maybe_state: Option<NodeID> = None;
    match e {
        Ev::Setup(p, d, k) => {
            let id = peer(n, *p);
            let (id_init, id_follow) = match d {
                Dir::Out => (own, id),
                Dir::In => (id, own),
            };
            let message = pm(*k, &txt);
            n.server(&WSSignalMessageToNode::PeerSetup(PeerInfo {
                id_init,
                id_follow,
                message: message.clone(),
            }));
            // Candidates may arrive at any time and don't change the connection
            if *k != 3 {
                let before = m.open(*p);
                m.set(*p, *d, St::Setup);
                if before && !m.open(*p) {
                    net.push(NetworkOut::Disconnected(id));
                }
            }
            rtc.push(WebRTCConnIn::Message(id, NCInput::Setup(d.real(), message)));
        }
        Ev::Foreign(i) => {
            let (a, b) = [(peer(n, 0), peer(n, 1)), (own, own), (peer(n, 1), peer(n, 1))][i % 3];
            n.server(&WSSignalMessageToNode::PeerSetup(PeerInfo {
                id_init: a,
                id_follow: b,
                message: pm(i / 3, &txt),
            }));
        }
        Ev::Open(p, d) => {
            let id = peer(n, *p);
            n.event(id, NCOutput::Connected(d.real()));
            if !m.open(*p) {
                net.push(NetworkOut::Connected(id));
            }
            m.set(*p, *d, St::Open);
        }
        Ev::Close(p, d) => {
            let id = peer(n, *p);
            n.event(id, NCOutput::Disconnected(d.real()));
            let before = m.open(*p);
            m.set(*p, *d, St::None);
            if before && !m.open(*p) {
                net.push(NetworkOut::Disconnected(id));
            }
        }
        Ev::Text(p) => {
            let id = peer(n, *p);
            n.event(id, NCOutput::Text(serde_yaml::to_string(&wrap(&txt)).expect("yaml")));
            net.push(NetworkOut::MessageFromNode(id, wrap(&txt)));
        }
        Ev::State(p, d) => {
            let id = peer(n, *p);
            n.event(id, NCOutput::State(d.real(), state_map()));
            maybe_state = Some(id);
        }
        Ev::SendSetup(p, d, k) => {
            let id = peer(n, *p);
            n.event(id, NCOutput::Setup(d.real(), pm(*k, &txt)));
            let (id_init, id_follow) = match d {
                Dir::Out => (own, id),
                Dir::In => (id, own),
            };
            ws.push(msg(&WSSignalMessageFromNode::PeerSetup(PeerInfo {
                id_init,
                id_follow,
                message: pm(*k, &txt),
            })));
        }
        Ev::Send(p) => {
            let id = peer(n, *p);
            n.network.emit_msg_in(NetworkIn::MessageToNode(id, wrap(&txt))).expect("emit");
            if *p != SELF {
                if !m.open(*p) {
                    rtc.push(WebRTCConnIn::Connect(id));
                    if m.get(*p, Dir::Out) == St::None {
                        m.set(*p, Dir::Out, St::Setup);
                    }
                }
                rtc.push(WebRTCConnIn::Message(id, NCInput::Text(txt.clone())));
            }
        }
        Ev::Connect(p) => {
            let id = peer(n, *p);
            n.network.emit_msg_in(NetworkIn::Connect(id)).expect("emit");
            if *p != SELF && !m.open(*p) {
                rtc.push(WebRTCConnIn::Connect(id));
                m.set(*p, Dir::Out, St::Setup);
            }
        }
        Ev::Disconnect(p) => {
            let id = peer(n, *p);
            n.network.emit_msg_in(NetworkIn::Disconnect(id)).expect("emit");
            let d = WebRTCConnIn::Message(id, NCInput::Disconnect);
            if m.open(*p) {
                net.push(NetworkOut::Disconnected(id));
                rtc.push(d);
                m.set(*p, Dir::In, St::None);
                m.set(*p, Dir::Out, St::None);
            } else if *p != SELF {
                // Stopping an attempt is fine
                maybe_rtc.push(d);
            }
        }
        Ev::Tick => {
            n.timer.emit_msg_out(TimerMessage::Second).expect("emit");
            m.ticks += 1;
            if m.ticks % 60 == 0 {
                ws.push(msg(&WSSignalMessageFromNode::ListIDsRequest));
            }
        }
        Ev::Challenge => {
            let ch: U256 = [step as u8 + 1; 32].into();
            n.server(&WSSignalMessageToNode::Challenge(SIGNAL_VERSION, ch));
            x.idle(c);
            let s = n.seen();
            c.check(s.net.is_empty() && s.rtc.is_empty(), "challenge", || format!("{s:?}: {}", what()));
            let ms: Vec<WSSignalMessageFromNode> = s
                .ws
                .iter()
                .filter_map(|m| match m {
                    WSClientIn::Message(t) => serde_json::from_str(t).ok(),
                    _ => None,
                })
                .collect();
            let ok = match ms.as_slice() {
                [WSSignalMessageFromNode::Announce(a), WSSignalMessageFromNode::ListIDsRequest] => {
                    a.challenge == ch
                        && a.version == SIGNAL_VERSION
                        && a.node_info == n.node.info
                        && a.node_info.verify(&ch.to_bytes(), &a.signature)
                }
                _ => false,
            };
            c.check(ok, "announce", || format!("{s:?}: {}", what()));
        }
        Ev::List => {
            let l = infos();
            n.server(&WSSignalMessageToNode::ListIDsReply(l.clone()));
            net.push(NetworkOut::NodeListFromWS(l));
        }
        Ev::Config => {
            let f = FledgerConfig {
                system_realm: Some(super::f_flo::rid()),
            };
            n.server(&WSSignalMessageToNode::SystemConfig(f.clone()));
            net.push(NetworkOut::SystemConfig(f));
        }
        Ev::Error => {
            n.server(&WSSignalMessageToNode::Error(txt.clone()));
            net.push(NetworkOut::Error(txt.clone()));
        }
        Ev::Stats => {
            let s = vec![NodeStat {
                id: own,
                version: txt.clone(),
                ping_ms: 1,
                ping_rx: 2,
            }];
            n.network.emit_msg_in(NetworkIn::StatsToWS(s.clone())).expect("emit");
            ws.push(msg(&WSSignalMessageFromNode::NodeStats(s)));
        }
        Ev::Update => {
            n.network.emit_msg_in(NetworkIn::WSUpdateListRequest).expect("emit");
            ws.push(msg(&WSSignalMessageFromNode::ListIDsRequest));
        }
        Ev::BadServer(i) => {
            let t = bad_server()[*i].clone();
            n.ws.emit_msg_out(WSClientOut::Message(t)).expect("emit");
        }
        Ev::BadPeer(p, i) => {
            let id = peer(n, *p);
            let t = bad_peer(*i);
            if let Ok(w) = serde_yaml::from_str::<NetworkWrapper>(&t) {
                maybe_net.push(NetworkOut::MessageFromNode(id, w));
            }
            n.event(id, NCOutput::Text(t));
        }
        Ev::Socket(i) => {
            let m = match i {
                0 => WSClientOut::Connected,
                1 => WSClientOut::Disconnect,
                _ => WSClientOut::Error("error".into()),
            };
            n.ws.emit_msg_out(m).expect("emit");
        }
    }
    x.idle(c);
    let mut s = n.seen();
    let f = fp(&format!("{s:?}"));
    // Texts are compared by their content
    for r in s.rtc.iter_mut() {
        if let WebRTCConnIn::Message(_, NCInput::Text(t)) = r {
            match serde_yaml::from_str::<NetworkWrapper>(t) {
                Ok(w) if w == wrap(&txt) => *t = txt.clone(),
                o => c.fail("text", format!("{o:?}: {}", what())),
            }
        }
    }
    if let Some(id) = maybe_state {
        let ok = match s.net.as_slice() {
            [NetworkOut::ConnectionState(st)] => {
                st.id == id && st.s.rx_bytes == 12 && st.s.tx_bytes == 34 && st.s.delay_ms == 56 && st.s.signaling == SignalingState::Stable
            }
            _ => false,
        };
        c.check(ok, "state", || format!("{s:?}: {}", what()));
        s.net.clear();
    }
    s.rtc.retain(|r| !maybe_rtc.contains(r));
    s.net.retain(|r| !maybe_net.contains(r));
    c.check(s.net == net, "reported", || format!("{:?} instead of {net:?}: {}", s.net, what()));
    c.check(s.ws == ws, "to-server", || format!("{:?} instead of {ws:?}: {}", s.ws, what()));
    c.check(s.rtc == rtc, "to-webrtc", || format!("{:?} instead of {rtc:?}: {}", s.rtc, what()));
    let got: Vec<NodeID> = n.conns.borrow().clone();
    let set: BTreeSet<NodeID> = got.iter().cloned().collect();
    let want: BTreeSet<NodeID> = (0..3).filter(|p| m.open(*p)).map(|p| peer(n, p)).collect();
    c.check(set == want && set.len() == got.len(), "connections", || format!("{got:?} instead of {want:?}: {}", what()));
    f
}

fn history(c: &mut Ctx, prefix: &[Ev], alphabet: &[Ev], depth: usize) {
    let x = Exec::new();
    let mut n = Net::start(&x, c);
    let mut m = Model {
        st: BTreeMap::new(),
        ticks: 0,
    };
    let mut hist: Vec<Ev> = vec![];
    let mut obs = vec![];
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() { prefix[step].clone() } else { c.pick(alphabet).clone() };
        c.step();
        hist.push(e.clone());
        c.label(|| format!("{e:?}"));
        let h = hist.clone();
        obs.push(event(&mut n, &mut m, &x, c, &e, step, &move || format!("{h:?}")));
    }
    c.outcome(&(format!("{hist:?}"), obs.len()));
}

/// The reports of connections and messages arrive in order whatever the schedule
fn schedules(c: &mut Ctx, depth: usize, mode: Mode) {
    let x = Exec::new();
    let mut n = Net::start(&x, c);
    let mut open: BTreeSet<bool> = BTreeSet::new();
    let mut want = vec![];
    let id = peer(&n, 0);
    let mut hist = vec![];
    for step in 0..depth {
        let e = c.choose(5);
        hist.push(e);
        c.step();
        let dir = |i: usize| if i % 2 == 0 { Dir::In } else { Dir::Out };
        match e {
            0 | 1 => {
                if open.is_empty() {
                    want.push(NetworkOut::Connected(id));
                }
                open.insert(e % 2 == 0);
                n.event(id, NCOutput::Connected(dir(e).real()));
            }
            2 | 3 => {
                if open.remove(&(e % 2 == 0)) && open.is_empty() {
                    want.push(NetworkOut::Disconnected(id));
                }
                n.event(id, NCOutput::Disconnected(dir(e).real()));
            }
            _ => {
                let w = wrap(&format!("{step}"));
                n.event(id, NCOutput::Text(serde_yaml::to_string(&w).expect("yaml")));
                want.push(NetworkOut::MessageFromNode(id, w));
            }
        }
    }
    x.run(c, mode);
    let s = n.seen();
    c.check(s.net == want, "reported", || format!("{:?} instead of {want:?}: {hist:?}", s.net));
    c.check(n.conns.borrow().len() == (!open.is_empty()) as usize, "connections", || format!("{hist:?}"));
    c.outcome(&hist);
}

/// A text with any character arrives unchanged at the other node, and comes from the right one.
fn characters(c: &mut Ctx, block: u32) {
    let x = Exec::new();
    let mut a = Net::start(&x, c);
    let mut b = Net::start(&x, c);
    let (ida, idb) = (a.own(), b.own());
    a.event(idb, NCOutput::Connected(Direction::Outgoing));
    b.event(ida, NCOutput::Connected(Direction::Incoming));
    x.idle(c);
    a.seen();
    b.seen();
    let n = c.choose((0x110000 / block) as usize) as u32;
    let form = c.choose(3);
    let chars: Vec<char> = (n * block..(n + 1) * block).filter_map(char::from_u32).collect();
    if chars.is_empty() {
        c.trivial();
        return;
    }
    // Alone, between letters, and in all places of a longer text
    let texts: Vec<String> = match form {
        0 => chars.iter().map(|ch| format!("{ch}")).collect(),
        1 => chars.iter().map(|ch| format!("a{ch}b")).collect(),
        _ => chars.iter().map(|ch| format!("{ch} 'x\": {ch}\n- {ch}\n\n  {ch}\t{ch}{ch}")).collect(),
    };
    for t in texts {
        let w = NetworkWrapper {
            module: if form == 1 { t.clone() } else { "M".into() },
            msg: t.clone(),
        };
        a.network.emit_msg_in(NetworkIn::MessageToNode(idb, w.clone())).expect("emit");
        x.idle(c);
        let s = a.seen();
        let txt = match s.rtc.as_slice() {
            [WebRTCConnIn::Message(to, NCInput::Text(txt))] if *to == idb => txt.clone(),
            o => c.fail("not-sent", format!("{o:?}: {t:?}")),
        };
        b.event(ida, NCOutput::Text(txt.clone()));
        x.idle(c);
        let s = b.seen();
        c.check(s.net == vec![NetworkOut::MessageFromNode(ida, w)], "text-changed", || {
            format!("{t:?} has been sent as {txt:?} and received as {:?}", s.net)
        });
    }
    c.outcome(&(n, form));
}

/// A server with another version doesn't get an announcement, and doesn't stop the node.
fn versions(c: &mut Ctx) {
    let x = Exec::new();
    let mut n = Net::start(&x, c);
    let v = *c.pick(&[0, 1, 2, 4, 5, u32::MAX as u64, u64::MAX]);
    n.server(&WSSignalMessageToNode::Challenge(v, U256::zero()));
    x.idle(c);
    let s = n.seen();
    c.check(s.ws.is_empty(), "announced-to-other-version", || format!("{s:?}"));
    c.check(s.rtc.is_empty(), "unexpected", || format!("{s:?}"));
    let mut m = Model {
        st: BTreeMap::new(),
        ticks: 0,
    };
    for (i, e) in [Ev::Open(0, Dir::In), Ev::Text(0), Ev::Challenge, Ev::Close(0, Dir::In)].iter().enumerate() {
        event(&mut n, &mut m, &x, c, e, i, &|| format!("after version {v}"));
    }
    c.outcome(&v);
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let dirs = [Dir::In, Dir::Out];
    let mut one: Vec<Ev> = vec![Ev::Send(0), Ev::Connect(0), Ev::Disconnect(0), Ev::Text(0)];
    for d in dirs {
        one.extend([Ev::Open(0, d), Ev::Close(0, d), Ev::Setup(0, d, 0), Ev::Setup(0, d, 3)]);
    }
    let mut two: Vec<Ev> = vec![];
    for p in 0..2 {
        two.extend([Ev::Send(p), Ev::Connect(p), Ev::Disconnect(p)]);
        for d in dirs {
            two.extend([Ev::Open(p, d), Ev::Close(p, d), Ev::Setup(p, d, 1)]);
        }
    }
    let mut wide: Vec<Ev> = vec![
        Ev::Send(SELF),
        Ev::Connect(SELF),
        Ev::Disconnect(SELF),
        Ev::Tick,
        Ev::Challenge,
        Ev::List,
        Ev::Config,
        Ev::Error,
        Ev::Stats,
        Ev::Update,
        Ev::Send(0),
        Ev::Connect(0),
        Ev::Disconnect(0),
        Ev::Text(0),
        Ev::Text(1),
    ];
    wide.extend((0..12).map(Ev::Foreign));
    wide.extend((0..3).map(Ev::Socket));
    for d in dirs {
        wide.extend([Ev::Open(0, d), Ev::Close(0, d), Ev::State(0, d)]);
        wide.extend((0..SETUPS).flat_map(|k| [Ev::Setup(0, d, k), Ev::SendSetup(0, d, k)]));
    }
    let mut bad: Vec<Ev> = (0..bad_server().len()).map(Ev::BadServer).collect();
    bad.extend((0..BAD_PEERS).map(|i| Ev::BadPeer(0, i)));
    bad.extend([Ev::Text(0), Ev::Open(0, Dir::Out), Ev::Disconnect(0)]);
    let few: Vec<Ev> = dirs
        .iter()
        .flat_map(|d| [Ev::Open(0, *d), Ev::Close(0, *d), Ev::Setup(0, *d, 2)])
        .chain([Ev::Disconnect(0), Ev::Connect(0)])
        .collect();
    let lists: Vec<Ev> = vec![Ev::Tick; 59];
    let block = t.pick(0x800, 0x100);
    vec![
        Scn::exec("one peer", move |c: &mut Ctx| history(c, &[], &one, t.pick(4, 5))),
        Scn::exec("two peers", move |c: &mut Ctx| history(c, &[], &two, t.pick(3, 4))),
        Scn::exec("directions", move |c: &mut Ctx| history(c, &[], &few, t.pick(5, 6))),
        Scn::exec("all messages", move |c: &mut Ctx| history(c, &[], &wide, t.pick(2, 3))),
        Scn::exec("malformed", move |c: &mut Ctx| history(c, &[], &bad, t.pick(2, 3))),
        Scn::exec("periodic list", move |c: &mut Ctx| {
            let mut p = lists.clone();
            if c.flip() {
                p.extend(vec![Ev::Tick; 60]);
            }
            history(c, &p, &[Ev::Tick, Ev::Update, Ev::List], 3)
        }),
        Scn::exec("versions", versions),
        Scn::exec("characters", move |c: &mut Ctx| characters(c, block)),
        Scn::exec("schedules", move |c: &mut Ctx| schedules(c, t.pick(3, 4), Mode::Delay(t.pick(2, 3)))),
    ]
}
