//! N06: the connections to the peers, on top of the WebRTC channels.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, Mutex},
};

use flarch::{
    broker::Broker,
    nodeids::NodeID,
    web_rtc::{
        messages::{ConnectionStateMap, DataChannelState, PeerMessage, SetupError, WebRTCInput, WebRTCOutput, WebRTCSpawner},
        node_connection::{Direction, NCInput, NCOutput, NodeConnection},
        BrokerWebRTCConn, WebRTCConn, WebRTCConnIn, WebRTCConnOut,
    },
};
use tokio::sync::mpsc::UnboundedReceiver;

use super::k_kademlia::nid;
use crate::{
    engine::*,
    exec::{Exec, Mode},
};

pub fn n06() -> Prop {
    Prop {
        id: "N06",
        level: "exploration",
        rule: "every history of texts, channel events and set-up messages is executed on the real connection and compared with a reference \
               model, every permutation of the parts of long texts and every malformed header is given to a real receiver; \
               distinct_nontrivial counts different (history, messages)",
        assumptions: &[
            "the data channel itself (the webrtc crate) delivers each packet unchanged and at most once",
            "a channel is open from the report that it is open until the report that it is not",
        ],
        scenarios,
    }
}

type Chan = Broker<WebRTCInput, WebRTCOutput>;

/// Creates channels and remembers them.
#[derive(Clone, Default)]
struct Pool {
    chans: Arc<Mutex<Vec<(Chan, UnboundedReceiver<WebRTCInput>)>>>,
    fail: Arc<Mutex<BTreeSet<usize>>>,
    calls: Arc<Mutex<usize>>,
}

impl Pool {
    fn spawner(&self) -> WebRTCSpawner {
        let p = self.clone();
        Box::new(move || {
            let p = p.clone();
            Box::new(Box::pin(async move {
                let n = {
                    let mut c = p.calls.lock().expect("lock");
                    *c += 1;
                    *c - 1
                };
                if p.fail.lock().expect("lock").contains(&n) {
                    return Err(SetupError::SetupFail("no channel".into()).into());
                }
                let mut b: Chan = Broker::new();
                let tap = b.get_tap_in().await?.0;
                p.chans.lock().expect("lock").push((b.clone(), tap));
                Ok(b)
            }))
        })
    }

    fn len(&self) -> usize {
        self.chans.lock().expect("lock").len()
    }

    fn emit(&self, i: usize, m: WebRTCOutput) {
        let mut b = self.chans.lock().expect("lock")[i].0.clone();
        b.emit_msg_out(m).expect("emit");
    }

    fn take(&self, i: usize) -> Vec<WebRTCInput> {
        let mut l = self.chans.lock().expect("lock");
        let mut out = vec![];
        while let Ok(m) = l[i].1.try_recv() {
            out.push(m);
        }
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Dir {
    In,
    Out,
}

impl Dir {
    fn real(self) -> Direction {
        match self {
            Dir::In => Direction::Incoming,
            Dir::Out => Direction::Outgoing,
        }
    }
    /// Channels are created in this order
    fn idx(self) -> usize {
        match self {
            Dir::In => 0,
            Dir::Out => 1,
        }
    }
}

const DIRS: [Dir; 2] = [Dir::In, Dir::Out];

struct Peer {
    nc: Broker<NCInput, NCOutput>,
    pool: Pool,
    out: UnboundedReceiver<NCOutput>,
}

impl Peer {
    fn start(x: &Exec, c: &mut Ctx) -> Self {
        let pool = Pool::default();
        let p = pool.clone();
        let (nc, out) = x.block(c, async move {
            let mut nc = NodeConnection::new(&p.spawner()).await.expect("connection");
            let out = nc.get_tap_out().await.expect("tap").0;
            (nc, out)
        });
        Self { nc, pool, out }
    }

    fn input(&mut self, m: NCInput) {
        self.nc.emit_msg_in(m).expect("emit");
    }

    /// What is given to the user, which doesn't include the messages to the channels
    fn seen(&mut self) -> Vec<NCOutput> {
        let mut out = vec![];
        while let Ok(m) = self.out.try_recv() {
            if !matches!(m, NCOutput::Incoming(_) | NCOutput::Outgoing(_)) {
                out.push(m);
            }
        }
        out
    }

    /// The texts received if these packets arrive
    fn receive(&mut self, x: &Exec, c: &mut Ctx, dir: Dir, packets: &[String]) -> Vec<String> {
        for p in packets {
            self.pool.emit(dir.idx(), WebRTCOutput::Text(p.clone()));
        }
        x.idle(c);
        self.texts()
    }

    fn texts(&mut self) -> Vec<String> {
        self.seen()
            .into_iter()
            .filter_map(|o| match o {
                NCOutput::Text(t) => Some(t),
                _ => None,
            })
            .collect()
    }

    /// Sends a text over an open channel and returns the packets
    fn packets(&mut self, x: &Exec, c: &mut Ctx, t: &str) -> Vec<String> {
        self.input(NCInput::Text(t.into()));
        x.idle(c);
        self.pool
            .take(Dir::Out.idx())
            .into_iter()
            .filter_map(|m| match m {
                WebRTCInput::Text(t) => Some(t),
                _ => None,
            })
            .collect()
    }
}

// ---------------------------------------------------------------- Histories

#[derive(Clone, Debug)]
enum Ev {
    Text(usize),
    Open(Dir),
    Closed(Dir),
    Error(Dir),
    State(Dir, Option<DataChannelState>),
    UserSetup(Dir, usize),
    ChanSetup(Dir),
    GetStates,
    Disconnect,
    Receive(Dir),
}

fn text(kind: usize, step: usize) -> String {
    match kind {
        0 => format!("text {step}"),
        1 => format!("{step}").repeat(16385),
        _ => String::new(),
    }
}

fn state(dc: Option<DataChannelState>, step: usize) -> ConnectionStateMap {
    ConnectionStateMap {
        data_connection: dc,
        rx_bytes: step as u64,
        ..Default::default()
    }
}

fn is_open(s: &Option<ConnectionStateMap>) -> bool {
    s.map(|s| s.data_connection == Some(DataChannelState::Open)).unwrap_or(false)
}

fn history(c: &mut Ctx, prefix: &[Ev], alphabet: &[Ev], depth: usize) {
    let x = Exec::new();
    let mut p = Peer::start(&x, c);
    let mut remote = Peer::start(&x, c);
    let mut st: BTreeMap<Dir, Option<ConnectionStateMap>> = DIRS.iter().map(|d| (*d, None)).collect();
    let mut told: BTreeSet<Dir> = BTreeSet::new();
    let (mut waiting, mut sent, mut got): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    let mut hist: Vec<Ev> = vec![];
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() {
            prefix[step].clone()
        } else {
            // What happens to a text given to a channel that has just been told to close is not specified.
            let limbo = DIRS.iter().any(|d| is_open(&st[d]) && told.contains(d));
            let l: Vec<Ev> = alphabet.iter().filter(|e| !limbo || !matches!(e, Ev::Text(_))).cloned().collect();
            c.pick(&l).clone()
        };
        c.step();
        c.label(|| format!("{e:?}"));
        hist.push(e.clone());
        let h = hist.clone();
        let what = move || format!("{h:?}");
        let mut want: Vec<NCOutput> = vec![];
        let mut chan: BTreeMap<Dir, Vec<WebRTCInput>> = DIRS.iter().map(|d| (*d, vec![])).collect();
        match &e {
            Ev::Text(k) => {
                let t = text(*k, step);
                p.input(NCInput::Text(t.clone()));
                waiting.push(t);
            }
            Ev::Open(d) => {
                p.pool.emit(d.idx(), WebRTCOutput::Connected);
                st.insert(
                    *d,
                    Some(ConnectionStateMap {
                        data_connection: Some(DataChannelState::Open),
                        ..Default::default()
                    }),
                );
                told.remove(d);
                want.push(NCOutput::Connected(d.real()));
            }
            Ev::Closed(d) | Ev::Error(d) => {
                let m = match e {
                    Ev::Error(_) => WebRTCOutput::Error("error".into()),
                    _ => WebRTCOutput::Disconnected,
                };
                p.pool.emit(d.idx(), m);
                st.insert(*d, None);
                told.remove(d);
                want.push(NCOutput::Disconnected(d.real()));
                chan.insert(*d, vec![WebRTCInput::Reset]);
            }
            Ev::State(d, dc) => {
                let s = state(*dc, step);
                p.pool.emit(d.idx(), WebRTCOutput::State(s));
                st.insert(*d, Some(s));
                want.push(NCOutput::State(d.real(), s));
            }
            Ev::UserSetup(d, k) => {
                let m = [PeerMessage::Init, PeerMessage::IceCandidate(format!("ice {step}"))][*k].clone();
                p.input(NCInput::Setup(d.real(), m.clone()));
                chan.insert(*d, vec![WebRTCInput::Setup(m)]);
            }
            Ev::ChanSetup(d) => {
                let m = PeerMessage::Offer(format!("offer {step}"));
                p.pool.emit(d.idx(), WebRTCOutput::Setup(m.clone()));
                want.push(NCOutput::Setup(d.real(), m));
            }
            Ev::GetStates => p.input(NCInput::GetStates),
            Ev::Disconnect => {
                p.input(NCInput::Disconnect);
                for d in DIRS {
                    chan.insert(d, vec![WebRTCInput::Disconnect]);
                    told.insert(d);
                }
            }
            Ev::Receive(d) => {
                let t = format!("remote {step}");
                let mut r = Peer::start(&x, c);
                r.pool.emit(Dir::Out.idx(), WebRTCOutput::Connected);
                x.idle(c);
                let pk = r.packets(&x, c, &t);
                for m in pk {
                    p.pool.emit(d.idx(), WebRTCOutput::Text(m));
                }
                want.push(NCOutput::Text(t));
            }
        }
        x.idle(c);
        let mut out = p.seen();
        if let Ev::GetStates = e {
            // The states of channels that have been reported, the others are optional
            for d in DIRS {
                let s: Vec<ConnectionStateMap> = out
                    .iter()
                    .filter_map(|o| match o {
                        NCOutput::State(dd, s) if *dd == d.real() => Some(*s),
                        _ => None,
                    })
                    .collect();
                match st[&d] {
                    Some(w) => c.check(s == vec![w], "states", || format!("{s:?} instead of {w:?}: {}", what())),
                    None => c.check(s.iter().all(|s| !is_open(&Some(*s))), "states", || format!("{s:?}: {}", what())),
                }
            }
            out.retain(|o| !matches!(o, NCOutput::State(_, _)));
        }
        c.check(out == want, "reported", || format!("{out:?} instead of {want:?}: {}", what()));

        // Where do the texts go?
        let open = if is_open(&st[&Dir::Out]) {
            Some(Dir::Out)
        } else if is_open(&st[&Dir::In]) {
            Some(Dir::In)
        } else {
            None
        };
        // A report of the state may, but needn't, be taken as the start to send what is waiting
        let must = matches!(e, Ev::Text(_) | Ev::Open(_));
        for d in DIRS {
            let mut l = p.pool.take(d.idx());
            let mut packets = vec![];
            l.retain(|m| match m {
                WebRTCInput::Text(t) => {
                    packets.push(t.clone());
                    false
                }
                _ => true,
            });
            c.check(l == chan[&d], "to-channel", || format!("{d:?}: {l:?} instead of {:?}: {}", chan[&d], what()));
            c.check(packets.is_empty() || open == Some(d), "text-to-closed", || {
                format!("{} packets to {d:?}, open is {open:?}: {}", packets.len(), what())
            });
            let texts = remote.receive(&x, c, d, &packets);
            got.extend(texts);
        }
        if open.is_some() && (must || got.len() > sent.len()) {
            // Nothing else can be waiting if a text came through: they go in order
            let new = got.len().saturating_sub(sent.len());
            let n = if must { waiting.len() } else { new.min(waiting.len()) };
            sent.extend(waiting.drain(..n));
        }
        c.check(got == sent, "texts", || {
            let short = |l: &[String]| l.iter().map(|t| t.chars().take(10).collect::<String>()).collect::<Vec<_>>();
            format!("{:?} received instead of {:?}: {}", short(&got), short(&sent), what())
        });
    }
    c.outcome(&format!("{hist:?}"));
}

// ---------------------------------------------------------------- Texts

fn pair(x: &Exec, c: &mut Ctx) -> (Peer, Peer) {
    let (mut a, mut b) = (Peer::start(x, c), Peer::start(x, c));
    a.pool.emit(Dir::Out.idx(), WebRTCOutput::Connected);
    b.pool.emit(Dir::In.idx(), WebRTCOutput::Connected);
    x.idle(c);
    a.seen();
    b.seen();
    (a, b)
}

fn short(t: &str) -> String {
    let s: String = t.chars().take(40).collect();
    format!("{s:?}... ({} characters)", t.chars().count())
}

fn characters(c: &mut Ctx, block: u32) {
    let x = Exec::new();
    let (mut a, mut b) = pair(&x, c);
    let n = c.choose((0x110000 / block) as usize) as u32;
    let form = c.choose(3);
    let chars: Vec<char> = (n * block..(n + 1) * block).filter_map(char::from_u32).collect();
    if chars.is_empty() {
        c.trivial();
        return;
    }
    let texts: Vec<String> = match form {
        0 => chars.iter().map(|ch| format!("{ch}")).collect(),
        1 => chars.iter().map(|ch| format!("\"{ch} 'x\": {ch}\n- {ch}\n\n  {ch}\t\\{ch}\\u{ch}")).collect(),
        _ => {
            // All of them, and long enough for several parts
            let all: String = chars.iter().collect();
            let times = 16384 / chars.len() + 2;
            vec![all.repeat(times)]
        }
    };
    for t in texts {
        let pk = a.packets(&x, c, &t);
        let got = b.receive(&x, c, Dir::In, &pk);
        c.check(got.as_slice() == [t.clone()], "text-changed", || {
            format!("{} received as {:?}", short(&t), got.iter().map(|g| short(g)).collect::<Vec<_>>())
        });
    }
    c.outcome(&(n, form));
}

fn lengths(c: &mut Ctx, full: bool) {
    let x = Exec::new();
    let (mut a, mut b) = pair(&x, c);
    let ch = *c.pick(&['a', '\n', '"', '\u{e9}', '\u{20ac}', '\u{1f600}']);
    let mut lens = vec![0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193];
    for m in [5461, 16384, 32768, 49152, 65536, 500000] {
        lens.extend([m - 1, m, m + 1]);
    }
    if full {
        lens.extend([131071, 131072, 131073, 1 << 20]);
        lens.extend(16300..16500);
    }
    let len = *c.pick(&lens);
    // Different parts, so that a wrong order is noted
    let mut t: String = (0..len).map(|i| if i % 1000 == 0 { char::from(b'A' + (i / 1000 % 26) as u8) } else { ch }).collect();
    if len > 0 && c.flip() {
        t.pop();
        t.push('z');
    }
    let pk = a.packets(&x, c, &t);
    for p in &pk {
        // This is the limit of what all WebRTC implementations can send: 256kB
        c.check(p.len() < 256 * 1024, "packet-too-big", || format!("{} bytes for {}", p.len(), short(&t)));
    }
    let got = b.receive(&x, c, Dir::In, &pk);
    c.check(got.as_slice() == [t.clone()], "text-changed", || {
        format!("{} received as {:?}", short(&t), got.iter().map(|g| short(g)).collect::<Vec<_>>())
    });
    c.outcome(&(ch, len));
}

/// The parts of several texts arrive in any order, over any of the two channels, up to two of them twice.
fn parts(c: &mut Ctx, sizes: &[usize], dup: bool, two_channels: bool) {
    let x = Exec::new();
    let (mut a, mut b) = pair(&x, c);
    b.pool.emit(Dir::Out.idx(), WebRTCOutput::Connected);
    x.idle(c);
    b.seen();
    let texts: Vec<String> = sizes
        .iter()
        .enumerate()
        .map(|(t, n)| {
            (0..*n)
                .map(|part| format!("{}", char::from(b'a' + (t * 8 + part) as u8)).repeat(if part + 1 == *n { 100 } else { 16384 }))
                .collect::<String>()
        })
        .collect();
    let mut rest: Vec<(usize, String)> = vec![];
    let mut missing = vec![];
    for (i, t) in texts.iter().enumerate() {
        let pk = a.packets(&x, c, t);
        missing.push(pk.len());
        rest.extend(pk.into_iter().map(|p| (i, p)));
    }
    let mut dups = 0;
    let mut order = vec![];
    let mut arrived: BTreeSet<String> = BTreeSet::new();
    while !rest.is_empty() {
        let k = c.choose(rest.len());
        let again = dup && dups == 0 && missing[rest[k].0] > 1 && c.flip();
        let (i, p) = if again {
            dups += 1;
            rest[k].clone()
        } else {
            rest.remove(k)
        };
        order.push((i, k, again));
        let d = if two_channels && c.flip() { Dir::Out } else { Dir::In };
        let got = b.receive(&x, c, d, &[p.clone()]);
        c.step();
        let mut want = vec![];
        if arrived.insert(p.clone()) {
            missing[i] -= 1;
            if missing[i] == 0 {
                want.push(texts[i].clone());
            }
        }
        c.check(got == want, "parts", || {
            format!("{:?} received after {order:?} instead of {:?}", got.iter().map(|g| short(g)).collect::<Vec<_>>(), want.iter().map(|g| short(g)).collect::<Vec<_>>())
        });
    }
    c.outcome(&order);
}

/// Headers which are not valid never give a text, never stop the receiver, and never damage the texts on their way.
fn malformed(c: &mut Ctx) {
    let x = Exec::new();
    let (mut a, mut b) = pair(&x, c);
    let id1 = format!("{:x}", nid(1, 1));
    let (q, w) = (format!("\"{id1}\""), format!("\"{}\"", &id1[..62]));
    let id = c.pick(&[None, Some("null"), Some(q.as_str()), Some("\"xx\""), Some(w.as_str()), Some("5")]).map(|s| s.to_string());
    let huge = format!("{}", usize::MAX);
    let nums = [None, Some("null"), Some("0"), Some("1"), Some("2"), Some("3"), Some("1099511627776"), Some(huge.as_str()), Some("18446744073709551616"), Some("-1"), Some("\"0\""), Some("1.5")];
    let part = c.pick(&nums).map(|s| s.to_string());
    let total = c.pick(&nums).map(|s| s.to_string());
    let data = c.pick(&[Some("\"x\""), None, Some("\"\""), Some("[5]")]).map(|s| s.to_string());
    let mut fields = vec![];
    for (k, v) in [("id", &id), ("part", &part), ("total", &total), ("data", &data)] {
        if let Some(v) = v {
            fields.push(format!("\"{k}\":{v}"));
        }
    }
    let packet = format!("{{{}}}", fields.join(","));
    c.label(|| packet.clone());
    let none = |o: &Option<String>| o.is_none() || o.as_deref() == Some("null");
    let valid_data = matches!(data.as_deref(), Some("\"x\"") | Some("\"\""));
    let single = none(&id) && none(&part) && none(&total);
    let only = id.as_deref() == Some(q.as_str()) && part.as_deref() == Some("0") && total.as_deref() == Some("1");
    let mut want: Vec<String> = vec![];
    if valid_data && (single || only) {
        want.push(data.clone().expect("data").trim_matches('"').into());
    }
    // A long text is on its way
    let long = "l".repeat(20000);
    let pk = a.packets(&x, c, &long);
    let mut got = b.receive(&x, c, Dir::In, &pk[..1]);
    got.extend(b.receive(&x, c, Dir::In, &[packet.clone()]));
    got.extend(b.receive(&x, c, Dir::Out, &[packet.clone()]));
    let twice: Vec<String> = want.iter().chain(want.iter()).cloned().collect();
    c.check(got == twice, "malformed", || format!("{packet}: {got:?} instead of {twice:?}"));
    let got = b.receive(&x, c, Dir::In, &pk[1..]);
    c.check(got == vec![long], "lost", || format!("{packet}: {:?}", got.iter().map(|g| short(g)).collect::<Vec<_>>()));
    let pk = a.packets(&x, c, "after");
    let got = b.receive(&x, c, Dir::In, &pk);
    c.check(got == vec!["after".to_string()], "lost", || format!("{packet}: {got:?}"));
    c.outcome(&packet);
}

fn garbage(c: &mut Ctx) {
    let x = Exec::new();
    let (mut a, mut b) = pair(&x, c);
    let good = a.packets(&x, c, "a \u{e9} text").remove(0);
    let chars: Vec<char> = good.chars().collect();
    let t = match c.choose(2) {
        // Every prefix
        0 => chars[..c.choose(chars.len())].iter().collect::<String>(),
        _ => c.pick(&["", "null", "[]", "{}", "[{}]", "5", "\"data\"", "{\"data\":{}}", "{\"data\":[\"x\"]}", "\u{0}", "{\"dat\":\"x\"}"]).to_string(),
    };
    let got = b.receive(&x, c, Dir::In, &[t.clone()]);
    c.check(got.is_empty(), "garbage", || format!("{t:?}: {got:?}"));
    let got = b.receive(&x, c, Dir::In, &[good.clone()]);
    c.check(got.len() == 1, "lost", || format!("{t:?}: {got:?}"));
    c.outcome(&t);
}

// ---------------------------------------------------------------- Several peers

fn peers(c: &mut Ctx, depth: usize, failing: bool) {
    let x = Exec::new();
    let pool = Pool::default();
    if failing {
        pool.fail.lock().expect("lock").insert(c.choose(4));
    }
    let p2 = pool.clone();
    let (mut conn, mut out): (BrokerWebRTCConn, UnboundedReceiver<WebRTCConnOut>) = x.block(c, async move {
        let mut b = WebRTCConn::new(p2.spawner()).await.expect("start");
        let out = b.get_tap_out().await.expect("tap").0;
        (b, out)
    });
    let ids: Vec<NodeID> = (0..2).map(|i| nid([0x80, 0x41][i], i as u8 + 1)).collect();
    // The two channels of every peer
    let mut chans: BTreeMap<usize, [usize; 2]> = BTreeMap::new();
    let mut hist = vec![];
    for step in 0..depth {
        let p = c.choose(2);
        let e = c.choose(if chans.contains_key(&p) { 8 } else { 4 });
        hist.push((p, e));
        c.step();
        c.label(|| format!("{:?}", (p, e)));
        let h = hist.clone();
        let what = move || format!("{h:?}");
        let before = pool.len();
        let calls = *pool.calls.lock().expect("lock");
        let mut want: Vec<WebRTCConnOut> = vec![];
        let mut chan: Option<(usize, usize, WebRTCInput)> = None;
        let offer = PeerMessage::Offer(format!("offer {step}"));
        match e {
            0 => {
                conn.emit_msg_in(WebRTCConnIn::Connect(ids[p])).expect("emit");
                chan = Some((p, 1, WebRTCInput::Setup(PeerMessage::Init)));
            }
            1 => {
                conn.emit_msg_in(WebRTCConnIn::Message(ids[p], NCInput::Setup(Direction::Incoming, offer.clone()))).expect("emit");
                chan = Some((p, 0, WebRTCInput::Setup(offer)));
            }
            2 => conn.emit_msg_in(WebRTCConnIn::Message(ids[p], NCInput::GetStates)).expect("emit"),
            3 => {
                conn.emit_msg_in(WebRTCConnIn::Disconnect(ids[p])).expect("emit");
            }
            4 => {
                pool.emit(chans[&p][1], WebRTCOutput::Setup(offer.clone()));
                want.push(WebRTCConnOut::Message(ids[p], NCOutput::Setup(Direction::Outgoing, offer)));
            }
            5 => {
                pool.emit(chans[&p][0], WebRTCOutput::Connected);
                want.push(WebRTCConnOut::Message(ids[p], NCOutput::Connected(Direction::Incoming)));
            }
            6 => {
                pool.emit(chans[&p][0], WebRTCOutput::Disconnected);
                want.push(WebRTCConnOut::Message(ids[p], NCOutput::Disconnected(Direction::Incoming)));
            }
            _ => {
                // Texts of one peer are for that peer only, so are the ones sent
                let mut a = Peer::start(&x, c);
                a.pool.emit(1, WebRTCOutput::Connected);
                x.idle(c);
                let pk = a.packets(&x, c, &format!("text {step}"));
                pool.emit(chans[&p][1], WebRTCOutput::Text(pk[0].clone()));
                want.push(WebRTCConnOut::Message(ids[p], NCOutput::Text(format!("text {step}"))));
                pool.emit(chans[&p][1], WebRTCOutput::Connected);
                want.push(WebRTCConnOut::Message(ids[p], NCOutput::Connected(Direction::Outgoing)));
                conn.emit_msg_in(WebRTCConnIn::Message(ids[p], NCInput::Text(format!("back {step}")))).expect("emit");
            }
        }
        x.idle(c);
        let failed = *pool.calls.lock().expect("lock") - calls != pool.len() - before;
        if e < 3 && !chans.contains_key(&p) && !failed {
            c.check(pool.len() == before + 2, "channels", || format!("{} new: {}", pool.len() - before, what()));
            chans.insert(p, [before, before + 1]);
        } else if !failed {
            c.check(pool.len() == before, "channels", || format!("{} new: {}", pool.len() - before, what()));
        } else {
            // A failed creation leaves unused channels
            chan = None;
        }
        let mut got = vec![];
        while let Ok(WebRTCConnOut::Message(id, m)) = out.try_recv() {
            if !matches!(m, NCOutput::Incoming(_) | NCOutput::Outgoing(_) | NCOutput::State(_, _)) {
                got.push(WebRTCConnOut::Message(id, m));
            }
        }
        c.check(got == want, "reported", || format!("{got:?} instead of {want:?}: {}", what()));
        let mut to: Vec<(usize, usize, WebRTCInput)> = vec![];
        let mut texts = 0;
        for (q, l) in chans.clone() {
            for (d, i) in l.iter().enumerate() {
                for m in pool.take(*i) {
                    match &m {
                        WebRTCInput::Text(_) => {
                            c.check(q == p, "text-to-other-peer", &what);
                            texts += 1;
                        }
                        WebRTCInput::Disconnect => c.check(e == 3 && q == p, "disconnected-other", &what),
                        WebRTCInput::Reset => c.check(e == 6 && q == p && d == 0, "reset-other", &what),
                        _ => to.push((q, d, m)),
                    }
                }
            }
        }
        c.check(texts == (e == 7) as usize, "text-lost", &what);
        let want: Vec<_> = chan.into_iter().collect();
        c.check(to == want, "to-channel", || format!("{to:?} instead of {want:?}: {}", what()));
    }
    c.outcome(&hist);
}

/// Texts keep their order and are neither lost nor doubled whatever the schedule, while the channels open.
fn schedules(c: &mut Ctx, n: usize, mode: Mode) {
    let x = Exec::new();
    let mut p = Peer::start(&x, c);
    let mut remote = Peer::start(&x, c);
    let at = (c.choose(n + 1), c.choose(n + 1));
    let mut want = vec![];
    for i in 0..=n {
        if at.0 == i {
            p.pool.emit(0, WebRTCOutput::Connected);
        }
        if at.1 == i {
            p.pool.emit(1, WebRTCOutput::Connected);
        }
        if i < n {
            p.input(NCInput::Text(format!("{i}")));
            want.push(format!("{i}"));
        }
    }
    x.run(c, mode);
    let mut got = vec![];
    // The order is the one in which they are given to the channels
    while let Ok(m) = p.out.try_recv() {
        if let NCOutput::Incoming(WebRTCInput::Text(t)) | NCOutput::Outgoing(WebRTCInput::Text(t)) = m {
            got.extend(remote.receive(&x, c, Dir::In, &[t]));
        }
    }
    c.check(got == want, "texts", || format!("{got:?} instead of {want:?}: open at {at:?}"));
    let chans: usize = (0..2).map(|d| p.pool.take(d).iter().filter(|m| matches!(m, WebRTCInput::Text(_))).count()).sum();
    c.check(chans == n, "to-channel", || format!("{chans} instead of {n}: {at:?}"));
    c.outcome(&at);
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let mut all: Vec<Ev> = vec![Ev::Text(0), Ev::GetStates, Ev::Disconnect];
    for d in DIRS {
        all.extend([
            Ev::Open(d),
            Ev::Closed(d),
            Ev::Error(d),
            Ev::State(d, None),
            Ev::State(d, Some(DataChannelState::Open)),
            Ev::State(d, Some(DataChannelState::Closed)),
            Ev::UserSetup(d, 0),
            Ev::UserSetup(d, 1),
            Ev::ChanSetup(d),
            Ev::Receive(d),
        ]);
    }
    let mut few: Vec<Ev> = vec![Ev::Text(0), Ev::Text(2)];
    for d in DIRS {
        few.extend([Ev::Open(d), Ev::Closed(d), Ev::State(d, Some(DataChannelState::Closing)), Ev::State(d, Some(DataChannelState::Open))]);
    }
    let long: Vec<Ev> = vec![Ev::Text(1), Ev::Text(0), Ev::Open(Dir::In), Ev::Open(Dir::Out), Ev::Closed(Dir::In), Ev::Closed(Dir::Out)];
    let block = t.pick(0x400, 0x100);
    let mut l = vec![
        Scn::exec("all events", move |c: &mut Ctx| history(c, &[], &all, t.pick(3, 4))),
        Scn::exec("texts", move |c: &mut Ctx| history(c, &[], &few, t.pick(5, 6))),
        Scn::exec("long texts", move |c: &mut Ctx| history(c, &[], &long, t.pick(4, 5))),
        Scn::exec("characters", move |c: &mut Ctx| characters(c, block)),
        Scn::exec("lengths", move |c: &mut Ctx| lengths(c, t == Tier::Thorough)),
        Scn::exec("parts of one text", |c: &mut Ctx| parts(c, &[4], true, true)),
        Scn::exec("parts of two texts", |c: &mut Ctx| parts(c, &[2, 3], false, true)),
        Scn::exec("parts and a short text", |c: &mut Ctx| parts(c, &[3, 1, 1], false, false)),
        Scn::exec("malformed", malformed),
        Scn::exec("garbage", garbage),
        Scn::exec("peers", move |c: &mut Ctx| peers(c, t.pick(4, 5), false)),
        Scn::exec("peers without channels", move |c: &mut Ctx| peers(c, t.pick(3, 4), true)),
        Scn::exec("schedules", move |c: &mut Ctx| schedules(c, t.pick(2, 3), Mode::Delay(t.pick(3, 4)))),
    ];
    if t == Tier::Thorough {
        l.push(Scn::exec("parts of three texts", |c: &mut Ctx| parts(c, &[2, 2, 3], false, false)));
    }
    l
}
