//! N07: the websocket server, over the loopback interface.
use std::{
    collections::{BTreeMap, VecDeque},
    net::SocketAddr,
    time::Duration,
};

use flarch::{
    broker::Broker,
    web_rtc::{
        web_socket_server::WebSocketServer,
        websocket::{BrokerWSServer, WSServerIn, WSServerOut},
    },
};
use futures::{SinkExt, StreamExt};
use tokio::{
    io::AsyncWriteExt,
    net::TcpStream,
    sync::mpsc::UnboundedReceiver,
    time::timeout,
};
use tokio_tungstenite::{client_async, tungstenite::Message, WebSocketStream};

use crate::engine::*;

pub fn prop() -> Prop {
    Prop {
        id: "N07",
        level: "exploration",
        rule: "every history of connecting, failing, sending, closing and vanishing clients is executed on the real server over the loopback \
               interface and compared with a reference model, every open client is used after every event; distinct_nontrivial counts \
               different histories",
        assumptions: &["the schedule of the operating system and of tokio is not controlled, every event is awaited before the next one"],
        scenarios,
    }
}

/// Only reached if something is missing
const WAIT: Duration = Duration::from_secs(15);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Open,
    /// A connection that never becomes a websocket
    Bad(usize),
    FromClient(usize),
    FromServer(usize),
    ServerClose(usize),
    ClientClose(usize),
    ClientReset(usize),
    ClientEof(usize),
    Binary(usize),
    Ping(usize),
    /// To a number that never existed
    Unknown,
    CloseUnknown,
    /// Again to a client that is gone
    ToGone(usize),
    CloseGone(usize),
    /// A client that doesn't read anymore
    Flood(usize),
    /// Several texts at once in both directions
    Many(usize),
}

struct Client {
    id: usize,
    ws: WebSocketStream<TcpStream>,
    flooded: bool,
}

struct World {
    server: BrokerWSServer,
    tap: UnboundedReceiver<WSServerOut>,
    addr: SocketAddr,
    clients: BTreeMap<usize, Client>,
    /// Connections which are only kept open
    idle: Vec<TcpStream>,
    /// Number of a client to number of the connection
    gone: BTreeMap<usize, usize>,
    ids: Vec<usize>,
    next: usize,
    seq: usize,
}

type Res<T> = Result<T, (&'static str, String)>;

async fn server() -> Res<(BrokerWSServer, SocketAddr)> {
    for _ in 0..200 {
        let port = {
            let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| ("setup", format!("{e}")))?;
            l.local_addr().map_err(|e| ("setup", format!("{e}")))?.port()
        };
        if let Ok(s) = WebSocketServer::new(port).await {
            return Ok((s, SocketAddr::from(([127, 0, 0, 1], port))));
        }
    }
    Err(("setup", "no free port".into()))
}

impl World {
    async fn new() -> Res<Self> {
        let (mut server, addr): (Broker<WSServerIn, WSServerOut>, _) = server().await?;
        let tap = server.get_tap_out().await.map_err(|e| ("setup", format!("{e}")))?.0;
        Ok(Self {
            server,
            tap,
            addr,
            clients: BTreeMap::new(),
            idle: vec![],
            gone: BTreeMap::new(),
            ids: vec![],
            next: 0,
            seq: 0,
        })
    }

    async fn report(&mut self, what: &str) -> Res<WSServerOut> {
        match timeout(WAIT, self.tap.recv()).await {
            Ok(Some(m)) => Ok(m),
            Ok(None) => Err(("stopped", format!("server stopped while waiting for {what}"))),
            Err(_) => Err(("missing-report", format!("no {what}"))),
        }
    }

    async fn expect(&mut self, want: WSServerOut) -> Res<()> {
        let got = self.report(&format!("{want:?}")).await?;
        if got != want {
            return Err(("wrong-report", format!("{got:?} instead of {want:?}")));
        }
        Ok(())
    }

    async fn tcp(&self) -> Res<TcpStream> {
        let s = timeout(WAIT, TcpStream::connect(self.addr)).await;
        match s {
            Ok(Ok(s)) => {
                let _ = s.set_nodelay(true);
                Ok(s)
            }
            o => Err(("connect", format!("{o:?}"))),
        }
    }

    async fn open(&mut self) -> Res<()> {
        let s = self.tcp().await?;
        let url = format!("ws://{}/", self.addr);
        let ws = match timeout(WAIT, client_async(url, s)).await {
            Ok(Ok((ws, _))) => ws,
            Ok(Err(e)) => return Err(("handshake", format!("{e}"))),
            Err(_) => return Err(("handshake", "no answer to the handshake".into())),
        };
        let id = match self.report("NewConnection").await? {
            WSServerOut::NewConnection(id) => id,
            o => return Err(("wrong-report", format!("{o:?} instead of NewConnection"))),
        };
        if self.ids.contains(&id) {
            return Err(("number-reused", format!("{id}")));
        }
        self.ids.push(id);
        self.clients.insert(self.next, Client { id, ws, flooded: false });
        self.next += 1;
        Ok(())
    }

    fn text(&mut self) -> String {
        self.seq += 1;
        format!("text {} \u{e9}\u{1f600}\n", self.seq)
    }

    async fn from_client(&mut self, k: usize, n: usize) -> Res<()> {
        for _ in 0..n {
            let t = self.text();
            let cl = self.clients.get_mut(&k).expect("client");
            let id = cl.id;
            match timeout(WAIT, cl.ws.send(Message::Text(t.clone().into()))).await {
                Ok(Ok(())) => self.expect(WSServerOut::Message(id, t)).await?,
                o => return Err(("client-send", format!("client {k}: {o:?}"))),
            }
        }
        Ok(())
    }

    async fn client_text(&mut self, k: usize, want: &str) -> Res<()> {
        let cl = self.clients.get_mut(&k).expect("client");
        loop {
            match timeout(WAIT, cl.ws.next()).await {
                Ok(Some(Ok(Message::Text(t)))) => {
                    if t.as_str() != want {
                        return Err(("wrong-text", format!("client {k} got {:?} instead of {want:?}", t.as_str())));
                    }
                    return Ok(());
                }
                Ok(Some(Ok(Message::Pong(_)))) | Ok(Some(Ok(Message::Ping(_)))) => {}
                Err(_) => return Err(("lost-text", format!("client {k} never got {want:?}"))),
                o => return Err(("client-closed", format!("client {k} got {o:?} instead of {want:?}"))),
            }
        }
    }

    fn send(&mut self, id: usize, t: &str) {
        let _ = self.server.emit_msg_in(WSServerIn::Message(id, t.into()));
    }

    async fn from_server(&mut self, k: usize, n: usize) -> Res<()> {
        let mut l = VecDeque::new();
        let id = self.clients[&k].id;
        for _ in 0..n {
            let t = self.text();
            self.send(id, &t);
            l.push_back(t);
        }
        while let Some(t) = l.pop_front() {
            self.client_text(k, &t).await?;
        }
        Ok(())
    }

    async fn gone(&mut self, k: usize) -> Res<()> {
        let id = self.clients[&k].id;
        self.expect(WSServerOut::Disconnection(id)).await?;
        self.gone.insert(k, id);
        Ok(())
    }

    async fn event(&mut self, e: Ev) -> Res<()> {
        match e {
            Ev::Open => self.open().await?,
            Ev::Bad(kind) => {
                let mut s = self.tcp().await?;
                match kind {
                    0 => drop(s),
                    1 => {
                        let _ = s.write_all(b"\x00\xff garbage\r\n\r\n").await;
                        self.idle.push(s);
                    }
                    2 => {
                        let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n").await;
                        self.idle.push(s);
                    }
                    // Never sends anything
                    3 => self.idle.push(s),
                    4 => {
                        let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: loc").await;
                        drop(s);
                    }
                    _ => {
                        let _ = s.set_linger(Some(Duration::ZERO));
                        drop(s);
                    }
                }
            }
            Ev::FromClient(k) => self.from_client(k, 1).await?,
            Ev::FromServer(k) => self.from_server(k, 1).await?,
            Ev::Many(k) => {
                self.from_server(k, 5).await?;
                self.from_client(k, 5).await?;
            }
            Ev::ServerClose(k) => {
                let id = self.clients[&k].id;
                let _ = self.server.emit_msg_in(WSServerIn::Close(id));
                self.gone(k).await?;
                let mut cl = self.clients.remove(&k).expect("client");
                if !cl.flooded {
                    // The client sees the end of the connection.
                    loop {
                        match timeout(WAIT, cl.ws.next()).await {
                            Ok(Some(Ok(Message::Text(t)))) => return Err(("text-after-close", format!("{t:?}"))),
                            Ok(Some(Ok(Message::Close(_)))) | Ok(None) | Ok(Some(Err(_))) => break,
                            Ok(_) => {}
                            Err(_) => return Err(("not-closed", format!("client {k}"))),
                        }
                    }
                }
            }
            Ev::ClientClose(k) => {
                let cl = self.clients.get_mut(&k).expect("client");
                let _ = timeout(WAIT, cl.ws.send(Message::Close(None))).await;
                self.gone(k).await?;
                self.clients.remove(&k);
            }
            Ev::ClientReset(k) => {
                let id = self.clients[&k].id;
                let cl = self.clients.remove(&k).expect("client");
                let _ = cl.ws.get_ref().set_linger(Some(Duration::ZERO));
                drop(cl);
                self.expect(WSServerOut::Disconnection(id)).await?;
                self.gone.insert(k, id);
            }
            Ev::ClientEof(k) => {
                let id = self.clients[&k].id;
                let mut cl = self.clients.remove(&k).expect("client");
                let _ = cl.ws.get_mut().shutdown().await;
                self.expect(WSServerOut::Disconnection(id)).await?;
                self.gone.insert(k, id);
            }
            Ev::Binary(k) => {
                let cl = self.clients.get_mut(&k).expect("client");
                let _ = timeout(WAIT, cl.ws.send(Message::Binary(vec![1, 2, 255].into()))).await;
            }
            Ev::Ping(k) => {
                let cl = self.clients.get_mut(&k).expect("client");
                let _ = timeout(WAIT, cl.ws.send(Message::Ping(vec![1].into()))).await;
            }
            Ev::Unknown => self.send(1000, "to nobody"),
            Ev::CloseUnknown => {
                let _ = self.server.emit_msg_in(WSServerIn::Close(1000));
            }
            Ev::ToGone(k) => {
                let id = self.gone[&k];
                self.send(id, "to somebody who left");
            }
            Ev::CloseGone(k) => {
                let id = self.gone[&k];
                let _ = self.server.emit_msg_in(WSServerIn::Close(id));
            }
            Ev::Flood(k) => {
                let cl = self.clients.get_mut(&k).expect("client");
                cl.flooded = true;
                let id = cl.id;
                let big = "x".repeat(1 << 20);
                for _ in 0..10 {
                    self.send(id, &big);
                }
            }
        }
        Ok(())
    }

    /// All clients can still send and receive
    async fn probe(&mut self) -> Res<()> {
        let all: Vec<usize> = self.clients.keys().cloned().collect();
        for k in &all {
            if !self.clients[k].flooded {
                self.from_server(*k, 1).await?;
            }
        }
        for k in all {
            self.from_client(k, 1).await?;
        }
        Ok(())
    }
}

fn gone(c: &mut Ctx, alphabet: &dyn Fn(&[usize], &[usize], usize) -> Vec<Ev>, depth: usize, prefix: &[Ev]) {
    // The history only depends on which clients are open.
    let mut hist: Vec<Ev> = vec![];
    let (mut open, mut left, mut next): (Vec<usize>, Vec<usize>, usize) = (vec![], vec![], 0);
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() { prefix[step] } else { *c.pick(&alphabet(&open, &left, next)) };
        c.step();
        c.label(|| format!("{e:?}"));
        match e {
            Ev::Open => {
                open.push(next);
                next += 1;
            }
            Ev::ServerClose(k) | Ev::ClientClose(k) | Ev::ClientReset(k) | Ev::ClientEof(k) => {
                open.retain(|o| *o != k);
                left.push(k);
            }
            _ => {}
        }
        hist.push(e);
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let h = hist.clone();
    let res: Res<()> = rt.block_on(async move {
        let mut w = World::new().await?;
        for e in h {
            w.event(e).await?;
            w.probe().await?;
        }
        // A new client always works
        w.open().await?;
        w.probe().await?;
        // No connection waits for being closed.
        for cl in w.clients.values() {
            let _ = cl.ws.get_ref().set_linger(Some(Duration::ZERO));
        }
        for s in &w.idle {
            let _ = s.set_linger(Some(Duration::ZERO));
        }
        Ok(())
    });
    drop(rt);
    if let Err((key, m)) = res {
        c.fail(key, format!("{m}: {hist:?}"));
    }
    c.outcome(&format!("{hist:?}"));
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let all = |max: usize| {
        move |open: &[usize], left: &[usize], next: usize| {
            let mut a = vec![Ev::Unknown, Ev::CloseUnknown];
            a.extend((0..6).map(Ev::Bad));
            if next < max {
                a.push(Ev::Open);
            }
            for k in open {
                let k = *k;
                a.extend([
                    Ev::ServerClose(k),
                    Ev::ClientClose(k),
                    Ev::ClientReset(k),
                    Ev::ClientEof(k),
                    Ev::Binary(k),
                    Ev::Ping(k),
                    Ev::Many(k),
                ]);
            }
            for k in left {
                a.extend([Ev::ToGone(*k), Ev::CloseGone(*k)]);
            }
            a
        }
    };
    let few = |open: &[usize], left: &[usize], next: usize| {
        let mut a = vec![Ev::Bad(1)];
        if next < 4 {
            a.push(Ev::Open);
        }
        for k in open {
            a.extend([Ev::ServerClose(*k), Ev::ClientClose(*k), Ev::ClientEof(*k)]);
        }
        for k in left {
            a.push(Ev::ToGone(*k));
        }
        a
    };
    let flood = |open: &[usize], _: &[usize], _: usize| {
        let mut a = vec![Ev::Open];
        for k in open {
            a.extend([Ev::Flood(*k), Ev::ServerClose(*k), Ev::ClientReset(*k)]);
        }
        a
    };
    let (a, b) = (all(2), all(4));
    vec![
        Scn::new("from the start", move |c: &mut Ctx| gone(c, &a, t.pick(2, 3), &[])),
        Scn::new("three clients", move |c: &mut Ctx| gone(c, &b, t.pick(2, 3), &[Ev::Open, Ev::Open, Ev::Open])),
        Scn::new("leaving clients", move |c: &mut Ctx| gone(c, &few, t.pick(3, 4), &[Ev::Open, Ev::Open, Ev::Open])),
        Scn::new("slow clients", move |c: &mut Ctx| gone(c, &flood, t.pick(2, 3), &[Ev::Open, Ev::Open])),
    ]
}
