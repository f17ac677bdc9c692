//! W01: the web proxy.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    rc::Rc,
    sync::{Arc, Mutex, OnceLock},
    time::{Duration, Instant},
};

use bytes::Bytes;
use flarch::{
    broker::Broker,
    data_storage::DataStorageTemp,
    nodeids::{NodeID, U256},
};
use flmodules::{
    nodeconfig::NodeInfo,
    router::{
        broker::BrokerRouter,
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    web_proxy::{
        broker::WebProxy,
        core::WebProxyConfig,
        response::{Response, ResponseHeader, ResponseMessage, ResponseStatus},
    },
    Modules,
};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc::UnboundedReceiver;

use super::{k04_router::info, k_kademlia::nid};
use crate::{
    engine::*,
    exec::{Exec, Handle, Mode},
};

pub fn prop() -> Prop {
    Prop {
        id: "W01",
        level: "exploration",
        rule: "every history of answers from the asked and from other nodes, of reading and dropping the responses, of lists of peers, and \
               every schedule up to a bound, is executed on the running module and compared with a reference model; every answer of a web \
               server from the given set is fetched through two connected modules; distinct_nontrivial counts different (history, responses)",
        assumptions: &[
            "messages between two nodes keep their order",
            "the web server and reqwest run over the loopback interface, their schedule is not controlled",
        ],
        scenarios,
    }
}

/// The messages between the nodes, as they are sent over the network.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Msg {
    Request(U256, String),
    Response(U256, ResponseMessage),
}

fn pid(i: usize) -> NodeID {
    nid([0x80, 0x41, 0x22][i], i as u8 + 1)
}

fn me() -> NodeID {
    nid(0x99, 0xff)
}

fn pinfo(id: NodeID, offers: bool) -> NodeInfo {
    let mut i = info(id);
    i.modules = if offers { Modules::all() } else { Modules::all() - Modules::WEBPROXY_REQUESTS };
    i
}

struct World {
    x: Exec,
    router: BrokerRouter,
    proxy: WebProxy,
    out: UnboundedReceiver<RouterIn>,
}

fn start_node(x: &Exec, c: &mut Ctx, id: NodeID) -> (BrokerRouter, WebProxy, UnboundedReceiver<RouterIn>) {
    x.block(c, async move {
        let mut router: BrokerRouter = Broker::new();
        let out = router.get_tap_in().await.expect("tap").0;
        let proxy = WebProxy::start(Box::new(DataStorageTemp::new()), id, router.clone(), WebProxyConfig::default())
            .await
            .expect("start");
        (router, proxy, out)
    })
}

fn start(c: &mut Ctx) -> World {
    let x = Exec::new();
    let (router, proxy, out) = start_node(&x, c, me());
    World { x, router, proxy, out }
}

impl World {
    fn list(&mut self, l: Vec<NodeInfo>) {
        self.router.emit_msg_out(RouterOut::NodeInfosConnected(l)).expect("emit");
    }

    /// Emits without running
    fn answer(&mut self, from: NodeID, nonce: U256, m: ResponseMessage) {
        let w = NetworkWrapper::wrap_yaml("WebProxy", &Msg::Response(nonce, m)).expect("wrap");
        self.router
            .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(from, w))
            .expect("emit");
    }

    fn get(&self, url: &str) -> Handle<anyhow::Result<Response>> {
        let mut p = self.proxy.clone();
        let url = url.to_string();
        self.x.spawn(async move { p.get(&url).await })
    }

    /// The requests which have been sent since the last call
    fn requests(&mut self, c: &mut Ctx) -> Vec<(NodeID, U256, String)> {
        let mut ret = vec![];
        while let Ok(RouterIn::NetworkWrapperToNetwork(dst, w)) = self.out.try_recv() {
            match w.unwrap_yaml::<Msg>("WebProxy") {
                Some(Msg::Request(n, u)) => ret.push((dst, n, u)),
                o => c.fail("unexpected", format!("{o:?} to {dst}")),
            }
        }
        ret
    }
}

fn header(n: usize) -> ResponseHeader {
    let mut h = HashMap::new();
    h.insert(format!("x-{n}"), vec!["a".into(), format!("{n}")]);
    ResponseHeader::new(
        ResponseStatus {
            code: 200 + n as u16,
            msg: "".into(),
        },
        h,
    )
}

/// The contents of the blocks of a request
fn block(r: usize, n: usize) -> Bytes {
    let mut v = format!("<{r}.{n}>").into_bytes();
    v.extend([0, 255, n as u8]);
    Bytes::from(v)
}

// ---------------------------------------------------------------- Histories

#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    Asked,
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Header(usize, Src),
    Body(usize, Src),
    Empty(usize),
    Done(usize, Src),
    Error(usize, Src),
    /// Starts reading till the end
    Read(usize),
    Drop(usize),
    Unknown(usize),
    Timeout,
    Leaves(usize),
}

struct Req {
    url: String,
    nonce: U256,
    asked: NodeID,
    get: Option<Handle<anyhow::Result<Response>>>,
    resp: Option<Response>,
    got: Rc<RefCell<Vec<u8>>>,
    reader: Option<Handle<()>>,
    // Model
    header: Option<ResponseHeader>,
    expired: bool,
    ended: bool,
    dropped: bool,
    body: Vec<u8>,
    blocks: usize,
}

impl Req {
    fn read(&mut self, x: &Exec) {
        if let Some(mut r) = self.resp.take() {
            let got = self.got.clone();
            self.reader = Some(x.spawn(async move {
                while let Some(b) = r.chunk().await {
                    got.borrow_mut().extend(b);
                }
            }));
        }
    }

    /// Checks what the user sees.
    fn check(&mut self, c: &mut Ctx, what: &dyn Fn() -> String) {
        if self.get.as_ref().map(|g| g.done()) == Some(true) {
            match self.get.take().and_then(|g| g.take()) {
                Some(Ok(r)) => {
                    c.check(self.header.is_some() && !self.expired, "too-early", what);
                    c.check(Some(r.headers()) == self.header, "header", || format!("{:?}: {}", r.headers(), what()));
                    c.check(r.proxy() == self.asked, "proxy", what);
                    self.resp = Some(r);
                }
                Some(Err(e)) => {
                    c.check(self.expired || (self.ended && self.header.is_none()), "get-error", || format!("{e}: {}", what()));
                    self.expired = true;
                }
                None => {}
            }
        }
        if let Some(r) = &self.reader {
            let got = self.got.borrow();
            c.check(*got == self.body, "body", || {
                format!("{:?} instead of {:?}: {}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&self.body), what())
            });
            c.check(r.done() == self.ended, "end", || format!("ended: {} instead of {}: {}", r.done(), self.ended, what()));
        }
        let waits = self.header.is_none() && !self.expired;
        c.check(!self.get.is_some() || waits, "no-response", what);
    }
}

fn request(w: &mut World, c: &mut Ctx, peers: &[NodeID], url: &str, what: &dyn Fn() -> String) -> Req {
    let get = w.get(url);
    w.x.idle(c);
    let reqs = w.requests(c);
    c.check(reqs.len() == 1, "request", || format!("{reqs:?}: {}", what()));
    let (asked, nonce, u) = reqs[0].clone();
    c.check(u == url, "url", || format!("{u}: {}", what()));
    c.check(peers.contains(&asked), "asked", || format!("{asked}: {}", what()));
    Req {
        url: url.into(),
        nonce,
        asked,
        get: Some(get),
        resp: None,
        got: Default::default(),
        reader: None,
        header: None,
        expired: false,
        ended: false,
        dropped: false,
        body: vec![],
        blocks: 0,
    }
}

fn history(c: &mut Ctx, reqs: usize, npeers: usize, depth: usize, prefix: &[Ev], alphabet: &[Ev]) {
    let mut w = start(c);
    let mut peers: Vec<NodeID> = (0..npeers).map(pid).collect();
    w.list(peers.iter().map(|p| pinfo(*p, true)).chain([pinfo(me(), true)]).collect());
    w.x.idle(c);
    let mut hist: Vec<Ev> = vec![];
    let mut rs: Vec<Req> = (0..reqs)
        .map(|r| request(&mut w, c, &peers, &format!("http://host/{r}?\u{e9}=\n'\""), &|| "start".into()))
        .collect();
    for r in 0..reqs {
        for o in 0..r {
            c.check(rs[r].nonce != rs[o].nonce, "nonce", || "the same nonce twice".into());
        }
    }
    let other = |r: &Req| (0..3).map(pid).find(|p| *p != r.asked).expect("other");
    for step in 0..prefix.len() + depth {
        let e = if step < prefix.len() { prefix[step] } else { *c.pick(alphabet) };
        c.step();
        c.label(|| format!("{e:?}"));
        hist.push(e);
        let h = hist.clone();
        let what = move || format!("{npeers} peers: {h:?}");
        match e {
            Ev::Header(r, f) => {
                let hd = header(step);
                let q = &mut rs[r];
                let (n, asked) = (q.nonce, q.asked);
                if f == Src::Asked {
                    if !q.ended && q.header.is_none() {
                        q.header = Some(hd.clone());
                    }
                    w.answer(asked, n, ResponseMessage::Header(hd));
                } else {
                    w.answer(other(q), n, ResponseMessage::Header(hd));
                }
            }
            Ev::Body(r, f) => {
                let q = &mut rs[r];
                if f == Src::Asked {
                    let b = block(r, q.blocks);
                    q.blocks += 1;
                    if !q.ended {
                        q.body.extend(&b);
                    }
                    w.answer(q.asked, q.nonce, ResponseMessage::Body(b));
                } else {
                    w.answer(other(q), q.nonce, ResponseMessage::Body(Bytes::from("foreign")));
                }
            }
            Ev::Empty(r) => w.answer(rs[r].asked, rs[r].nonce, ResponseMessage::Body(Bytes::new())),
            Ev::Done(r, f) | Ev::Error(r, f) => {
                let q = &mut rs[r];
                let m = if matches!(e, Ev::Done(..)) { ResponseMessage::Done } else { ResponseMessage::Error("err: \"'".into()) };
                if f == Src::Asked {
                    q.ended = true;
                    w.answer(q.asked, q.nonce, m);
                } else {
                    w.answer(other(q), q.nonce, m);
                }
            }
            Ev::Read(r) => rs[r].read(&w.x),
            Ev::Drop(r) => {
                if rs[r].resp.take().is_some() {
                    rs[r].dropped = true;
                }
            }
            Ev::Unknown(k) => {
                let m = [
                    ResponseMessage::Header(header(99)),
                    ResponseMessage::Body(Bytes::from("unknown")),
                    ResponseMessage::Done,
                    ResponseMessage::Error("unknown".into()),
                ][k]
                    .clone();
                w.answer(pid(0), nid(0x77, 0x77), m);
            }
            Ev::Timeout => {
                w.x.advance(5001);
                for q in rs.iter_mut().filter(|q| q.get.is_some()) {
                    q.expired = true;
                }
            }
            Ev::Leaves(p) => {
                peers.retain(|id| *id != pid(p));
                w.list(peers.iter().map(|p| pinfo(*p, true)).collect());
            }
        }
        w.x.idle(c);
        for q in rs.iter_mut() {
            q.check(c, &what);
        }
        let reqs = w.requests(c);
        c.check(reqs.is_empty(), "surplus-request", || format!("{reqs:?}: {}", what()));
    }
    // Everything is read till the end, and a new request works.
    let h = hist.clone();
    let what = move || format!("{npeers} peers: {h:?} and then all is read");
    for q in rs.iter_mut() {
        q.read(&w.x);
    }
    w.x.idle(c);
    for r in 0..rs.len() {
        rs[r].check(c, &what);
    }
    for r in 0..rs.len() {
        w.answer(rs[r].asked, rs[r].nonce, ResponseMessage::Done);
        rs[r].ended = true;
        w.x.idle(c);
        for q in rs.iter_mut() {
            q.check(c, &what);
        }
    }
    if !peers.is_empty() {
        let mut q = request(&mut w, c, &peers, "http://after", &what);
        q.header = Some(header(1));
        w.answer(q.asked, q.nonce, ResponseMessage::Header(header(1)));
        w.x.idle(c);
        q.check(c, &what);
        q.read(&w.x);
        q.body = block(8, 8).to_vec();
        w.answer(q.asked, q.nonce, ResponseMessage::Body(block(8, 8)));
        w.answer(q.asked, q.nonce, ResponseMessage::Done);
        q.ended = true;
        w.x.idle(c);
        q.check(c, &what);
        c.check(q.reader.is_some(), "after", what);
    }
    let got: Vec<_> = rs.iter().map(|q| (q.url.clone(), q.got.borrow().clone(), q.dropped, q.expired)).collect();
    c.outcome(&(format!("{npeers} {hist:?}"), got));
}

// ---------------------------------------------------------------- Schedules

/// The answers of all requests are merged in every order and delivered in one burst, under all schedules.
fn bursts(c: &mut Ctx, lens: &[usize], mode: Mode, early: bool) {
    let mut w = start(c);
    let peers: Vec<NodeID> = (0..2).map(pid).collect();
    w.list(peers.iter().map(|p| pinfo(*p, true)).collect());
    w.x.idle(c);
    let mut rs: Vec<Req> = vec![];
    let got: Vec<Rc<RefCell<(Option<ResponseHeader>, Vec<u8>)>>> = lens.iter().map(|_| Default::default()).collect();
    let mut ends = vec![];
    for r in 0..lens.len() {
        let mut p = w.proxy.clone();
        let g = got[r].clone();
        ends.push(w.x.spawn(async move {
            let mut resp = p.get("http://host").await.expect("get");
            g.borrow_mut().0 = Some(resp.headers());
            while let Some(b) = resp.chunk().await {
                g.borrow_mut().1.extend(b);
            }
        }));
        w.x.idle(c);
        let reqs = w.requests(c);
        c.check(reqs.len() == 1, "request", || format!("{reqs:?}"));
        rs.push(Req {
            url: "".into(),
            nonce: reqs[0].1,
            asked: reqs[0].0,
            get: None,
            resp: None,
            got: Default::default(),
            reader: None,
            header: None,
            expired: false,
            ended: false,
            dropped: false,
            body: vec![],
            blocks: 0,
        });
    }
    let mut left: Vec<usize> = lens.iter().map(|l| l + 2).collect();
    let mut order = vec![];
    while left.iter().any(|l| *l > 0) {
        let open: Vec<usize> = (0..left.len()).filter(|r| left[*r] > 0).collect();
        let r = *c.pick(&open);
        order.push(r);
        let n = lens[r] + 2 - left[r];
        left[r] -= 1;
        // Some of the blocks may arrive before the header
        let m = match n {
            0 if !early => ResponseMessage::Header(header(r)),
            1 if early => ResponseMessage::Header(header(r)),
            n if n == lens[r] + 1 => ResponseMessage::Done,
            _ => {
                let b = block(r, n);
                rs[r].body.extend(&b);
                ResponseMessage::Body(b)
            }
        };
        w.answer(rs[r].asked, rs[r].nonce, m);
        c.step();
    }
    w.x.run(c, mode);
    for r in 0..lens.len() {
        let g = got[r].borrow();
        c.check(g.0 == Some(header(r)), "burst-header", || format!("{:?}: {order:?}", g.0));
        c.check(g.1 == rs[r].body, "burst-body", || {
            format!("{:?} instead of {:?}: {order:?}", String::from_utf8_lossy(&g.1), String::from_utf8_lossy(&rs[r].body))
        });
        c.check(ends[r].done(), "burst-end", || format!("{order:?}"));
    }
    c.label(|| format!("{order:?}"));
    c.outcome(&(early, lens.to_vec(), order));
}

/// The proxying node answers as fast as it can.
fn prompt(c: &mut Ctx, reqs: usize, mode: Mode) {
    let mut w = start(c);
    w.list(vec![pinfo(pid(0), true), pinfo(pid(1), true)]);
    w.x.idle(c);
    let mut handles = vec![];
    for r in 0..reqs {
        let mut p = w.proxy.clone();
        handles.push(w.x.spawn(async move {
            let mut resp = p.get(&format!("http://host/{r}")).await?;
            let h = resp.headers();
            Ok::<_, anyhow::Error>((h, resp.bytes().await))
        }));
    }
    let mut router = w.router.clone();
    let World { x, mut out, .. } = w;
    let task = x.spawn(async move {
        for _ in 0..reqs {
            let RouterIn::NetworkWrapperToNetwork(dst, wr) = out.recv().await.expect("request");
            let Some(Msg::Request(nonce, url)) = wr.unwrap_yaml::<Msg>("WebProxy") else { return };
            for m in [
                ResponseMessage::Header(header(5)),
                ResponseMessage::Body(Bytes::from(url.clone())),
                ResponseMessage::Body(Bytes::from("-2")),
                ResponseMessage::Done,
            ] {
                let w = NetworkWrapper::wrap_yaml("WebProxy", &Msg::Response(nonce, m)).expect("wrap");
                router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(dst, w)).expect("emit");
            }
        }
    });
    x.run(c, mode);
    c.check(task.done(), "prompt-request", || "not all requests have been sent".into());
    for (r, h) in handles.iter().enumerate() {
        match h.take() {
            Some(Ok((h, b))) => {
                let want = format!("http://host/{r}-2");
                c.check(h == header(5) && b == want, "prompt-answer", || format!("{b:?} instead of {want}"));
            }
            o => c.fail("prompt-lost", format!("the answer to request {r} is lost: {:?}", o.map(|r| r.map(|_| ())))),
        }
    }
    c.step();
    c.outcome(&reqs);
}

/// More blocks than fit in the queue of the response.
fn many(c: &mut Ctx) {
    let n = *c.pick(&[127, 128, 129, 300, 1000]);
    let done_first = c.flip();
    let two = c.flip();
    let mut w = start(c);
    w.list(vec![pinfo(pid(0), true)]);
    w.x.idle(c);
    let what = || format!("{n} blocks, done before reading: {done_first}, two requests: {two}");
    let mut rs: Vec<Req> = (0..if two { 2 } else { 1 }).map(|_| request(&mut w, c, &[pid(0)], "http://many", &what)).collect();
    for q in rs.iter_mut() {
        q.header = Some(header(3));
        w.answer(q.asked, q.nonce, ResponseMessage::Header(header(3)));
    }
    w.x.idle(c);
    for b in 0..n {
        for (r, q) in rs.iter_mut().enumerate() {
            let b = Bytes::from(vec![(b % 256) as u8, (b / 256) as u8, r as u8]);
            q.body.extend(&b);
            w.answer(q.asked, q.nonce, ResponseMessage::Body(b));
        }
        if b % 50 == 0 {
            w.x.idle(c);
        }
        c.step();
    }
    let finish = |w: &mut World, rs: &mut Vec<Req>| {
        for q in rs.iter_mut() {
            q.ended = true;
            w.answer(q.asked, q.nonce, ResponseMessage::Done);
        }
    };
    if done_first {
        finish(&mut w, &mut rs);
    }
    w.x.idle(c);
    // The last request is read first, so the others can't block it
    for i in (0..rs.len()).rev() {
        rs[i].check(c, &what);
        rs[i].read(&w.x);
        w.x.idle(c);
        rs[i].check(c, &what);
    }
    if !done_first {
        finish(&mut w, &mut rs);
        w.x.idle(c);
    }
    for q in rs.iter_mut() {
        q.check(c, &what);
    }
    c.outcome(&(n, done_first, two));
}

// ---------------------------------------------------------------- Peers

/// All lists of peers, followed by a second list.
fn lists(c: &mut Ctx, requests: usize) {
    let mut w = start(c);
    let mut hist = vec![];
    for _ in 0..2 {
        // Absent, without, or with the service
        let mut l = vec![];
        let mut offers = vec![];
        for p in 0..3 {
            match c.choose(3) {
                0 => {}
                1 => l.push(pinfo(pid(p), false)),
                _ => {
                    l.push(pinfo(pid(p), true));
                    offers.push(pid(p));
                }
            }
        }
        match c.choose(3) {
            0 => {}
            1 => l.push(pinfo(me(), true)),
            _ => l.insert(0, pinfo(me(), true)),
        }
        hist.push(format!("{:?}", l.iter().map(|i| (i.get_id().to_bytes()[0], i.modules.contains(Modules::WEBPROXY_REQUESTS))).collect::<Vec<_>>()));
        w.list(l);
        w.x.idle(c);
        let what = || format!("{hist:?}");
        for n in 0..requests {
            c.step();
            let h = w.get(&format!("http://{n}"));
            w.x.idle(c);
            let reqs = w.requests(c);
            if offers.is_empty() {
                c.check(reqs.is_empty(), "request-without-peers", || format!("{reqs:?}: {}", what()));
                w.x.advance(5001);
                w.x.idle(c);
                c.check(matches!(h.take(), Some(Err(_))), "no-error", what);
                break;
            }
            c.check(reqs.len() == 1, "requests", || format!("{reqs:?}: {}", what()));
            c.check(offers.contains(&reqs[0].0), "not-offering", || format!("{}: {}", reqs[0].0, what()));
            c.check(!h.done(), "done", what);
        }
    }
    c.outcome(&hist);
}

/// Malformed messages don't disturb a request.
fn malformed(c: &mut Ctx) {
    let mut w = start(c);
    w.list(vec![pinfo(pid(0), true)]);
    w.x.idle(c);
    let mut q = request(&mut w, c, &[pid(0)], "http://x", &|| "malformed".into());
    q.header = Some(header(3));
    w.answer(q.asked, q.nonce, ResponseMessage::Header(header(3)));
    w.x.idle(c);
    let good = NetworkWrapper::wrap_yaml("WebProxy", &Msg::Response(q.nonce, ResponseMessage::Body(Bytes::from("bad")))).expect("wrap").msg;
    let lines: Vec<&str> = good.lines().collect();
    let k = c.choose(12 + 2 * lines.len());
    let msg = match k {
        0..=11 => ["", "{}", "[]", "null", "Response", "Response: {}", "Response: []", "Request: []", "- {}", "\u{0}", "{", "Unknown: []"][k].to_string(),
        k if k < 12 + lines.len() => lines.iter().enumerate().filter(|(i, _)| *i != k - 12).map(|(_, l)| *l).collect::<Vec<_>>().join("\n"),
        // An odd number of digits, and values which aren't hexadecimal
        k => lines.iter().enumerate().map(|(i, l)| if i == k - 12 - lines.len() { format!("{l}zé") } else { l.to_string() }).collect::<Vec<_>>().join("\n"),
    };
    let what = || format!("malformed: {msg:?}");
    let wr = NetworkWrapper { module: "WebProxy".into(), msg: msg.clone() };
    if wr.unwrap_yaml::<Msg>("WebProxy").is_some() {
        // Only white space is missing
        return c.trivial();
    }
    w.router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(pid(0), wr)).expect("emit");
    w.x.idle(c);
    q.check(c, &what);
    q.body = b"rest".to_vec();
    w.answer(q.asked, q.nonce, ResponseMessage::Body(Bytes::from("rest")));
    w.answer(q.asked, q.nonce, ResponseMessage::Done);
    q.ended = true;
    q.read(&w.x);
    w.x.idle(c);
    q.check(c, &what);
    c.step();
    c.outcome(&msg);
}

// ---------------------------------------------------------------- With a web server

/// What the web server sends for one path before it closes the connection.
type Pages = Arc<Mutex<BTreeMap<String, Vec<Vec<u8>>>>>;

struct Server {
    port: u16,
    pages: Pages,
    rt: tokio::runtime::Runtime,
}

fn serve(mut s: TcpStream, pages: &Pages) -> std::io::Result<()> {
    s.set_read_timeout(Some(Duration::from_secs(20)))?;
    s.set_nodelay(true)?;
    let mut req = vec![];
    let mut buf = [0u8; 1024];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = s.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        req.extend(&buf[..n]);
    }
    let text = String::from_utf8_lossy(&req).to_string();
    let path = text.split(' ').nth(1).unwrap_or("").to_string();
    let parts = pages.lock().expect("lock").get(&path).cloned().unwrap_or_default();
    for p in parts {
        s.write_all(&p)?;
        s.flush()?;
    }
    Ok(())
}

fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().expect("addr").port();
        let pages = Pages::default();
        let p = pages.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let p = p.clone();
                std::thread::spawn(move || serve(s, &p));
            }
        });
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(2)
            .enable_all()
            .build()
            .expect("runtime");
        Server { port, pages, rt }
    })
}

struct Page {
    name: String,
    raw: Vec<Vec<u8>>,
    code: u16,
    headers: Vec<(String, Vec<String>)>,
    body: Vec<u8>,
    /// How it ends: is the answer complete, and is there at least a header?
    complete: bool,
    started: bool,
}

fn body(len: usize) -> Vec<u8> {
    (0..len).map(|i| ((i * 7) ^ (i >> 8)) as u8).collect()
}

fn page(code: u16, headers: &[(&str, &[u8])], len: usize, chunked: Option<usize>, cut: Option<usize>) -> Page {
    let body = body(len);
    let mut head = format!("HTTP/1.1 {code} Text\r\n").into_bytes();
    let mut all: Vec<(String, Vec<u8>)> = headers.iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect();
    match chunked {
        Some(_) => all.push(("transfer-encoding".into(), b"chunked".to_vec())),
        None => all.push(("content-length".into(), format!("{len}").into_bytes())),
    }
    all.push(("connection".into(), b"close".to_vec()));
    for (k, v) in &all {
        head.extend(format!("{k}: ").into_bytes());
        head.extend(v);
        head.extend(b"\r\n");
    }
    head.extend(b"\r\n");
    let hlen = head.len();
    let mut raw = vec![head];
    // How many bytes of the body have been sent after each part
    match chunked {
        Some(n) => {
            for b in body.chunks(n) {
                let mut p = format!("{:x}\r\n", b.len()).into_bytes();
                p.extend(b);
                p.extend(b"\r\n");
                raw.push(p);
            }
            raw.push(b"0\r\n\r\n".to_vec());
        }
        None => raw.push(body.clone()),
    }
    let total: usize = raw.iter().map(|r| r.len()).sum();
    let mut started = true;
    let mut complete = true;
    if let Some(cut) = cut {
        let keep = cut.min(total);
        complete = keep == total;
        started = keep >= hlen;
        let flat: Vec<u8> = raw.concat();
        raw = vec![flat[..keep].to_vec()];
    }
    let mut hs: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in &all {
        hs.entry(k.to_lowercase()).or_default().push(String::from_utf8_lossy(v).to_string());
    }
    Page {
        name: format!("{code} {headers:?} {len} bytes, chunks {chunked:?}, cut {cut:?}"),
        raw,
        code,
        headers: hs.into_iter().collect(),
        body,
        complete,
        started,
    }
}

/// Fetches pages at the same time through a second node.
fn fetch(c: &mut Ctx, pages: Vec<Page>) {
    let s = server();
    let _g = s.rt.enter();
    let mut w = start(c);
    let (mut r2, _p2, mut out2) = start_node(&w.x, c, pid(0));
    w.list(vec![pinfo(pid(0), true)]);
    w.x.idle(c);
    let mut reqs = vec![];
    for p in &pages {
        let path = format!("/{:x}", fp(&(&p.name, std::process::id(), format!("{:?}", std::thread::current().id()))));
        s.pages.lock().expect("lock").insert(path.clone(), p.raw.clone());
        let q = request(&mut w, c, &[pid(0)], &format!("http://127.0.0.1:{}{path}", s.port), &|| "fetch".into());
        let wr = NetworkWrapper::wrap_yaml("WebProxy", &Msg::Request(q.nonce, q.url.clone())).expect("wrap");
        r2.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(me(), wr)).expect("emit");
        reqs.push((q, vec![] as Vec<ResponseMessage>));
    }
    let names: Vec<String> = pages.iter().map(|p| p.name.clone()).collect();
    let what = || format!("{names:?}");
    // The real time is only needed for the web server.
    let begin = Instant::now();
    let mut late = None;
    loop {
        w.x.idle(c);
        let mut any = false;
        while let Ok(RouterIn::NetworkWrapperToNetwork(dst, wr)) = out2.try_recv() {
            any = true;
            let Some(Msg::Response(n, m)) = wr.unwrap_yaml::<Msg>("WebProxy") else {
                c.fail("unexpected", format!("{wr:?}"));
            };
            c.check(dst == me(), "wrong-node", what);
            let Some((q, l)) = reqs.iter_mut().find(|(q, _)| q.nonce == n) else {
                c.fail("wrong-nonce", what());
            };
            if let ResponseMessage::Header(h) = &m {
                q.header.get_or_insert(h.clone());
            }
            if let ResponseMessage::Body(b) = &m {
                q.body.extend(b);
            }
            if matches!(m, ResponseMessage::Done | ResponseMessage::Error(_)) {
                q.ended = true;
            }
            l.push(m);
            w.router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(pid(0), wr)).expect("emit");
        }
        if any {
            w.x.idle(c);
            for (q, _) in reqs.iter_mut() {
                q.check(c, &what);
                q.read(&w.x);
            }
            continue;
        }
        if late.is_none() && reqs.iter().all(|(q, _)| q.ended) {
            late = Some(Instant::now());
        }
        if late.map(|l| l.elapsed() > Duration::from_millis(2)) == Some(true) {
            break;
        }
        c.check(begin.elapsed() < Duration::from_secs(60), "fetch-never-ends", what);
        std::thread::sleep(Duration::from_micros(200));
    }
    w.x.idle(c);
    for ((q, l), p) in reqs.iter_mut().zip(&pages) {
        q.check(c, &what);
        // Exactly one message at the end
        let ends = l.iter().filter(|m| matches!(m, ResponseMessage::Done | ResponseMessage::Error(_))).count();
        c.check(ends == 1, "ends", || format!("{ends} messages at the end: {}", what()));
        let done = l.last() == Some(&ResponseMessage::Done);
        c.check(done == p.complete, "complete", || format!("{:?}, but complete is {}: {}", l.last(), p.complete, p.name));
        let heads = l.iter().filter(|m| matches!(m, ResponseMessage::Header(_))).count();
        c.check(heads == p.started as usize, "heads", || format!("{heads} headers: {}", p.name));
        if p.started {
            c.check(matches!(l[0], ResponseMessage::Header(_)), "order", || p.name.clone());
            let h = q.header.clone().expect("header");
            c.check(h.status.code == p.code, "code", || format!("{} instead of {}: {}", h.status.code, p.code, p.name));
            for (k, v) in &p.headers {
                let got = h.headers.get(k).cloned().unwrap_or_default();
                let ok = got.len() == v.len() && got.iter().zip(v).all(|(g, v)| g == v || (!v.is_ascii() || v.contains('\u{fffd}')));
                c.check(ok, "headers", || format!("{k}: {got:?} instead of {v:?}: {}", p.name));
            }
            c.check(q.reader.is_some(), "no-reader", || p.name.clone());
        }
        let got = q.got.borrow().clone();
        if p.complete {
            c.check(got == p.body, "fetched", || format!("{} instead of {} bytes: {}", got.len(), p.body.len(), p.name));
        } else {
            c.check(p.body.starts_with(&got), "fetched", || format!("{} bytes: {}", got.len(), p.name));
        }
    }
    c.step();
    c.outcome(&names);
}

fn fetch_one(c: &mut Ctx, lens: &[usize]) {
    let len = *c.pick(lens);
    let chunked = *c.pick(&[None, Some(1), Some(1000), Some(40000)]);
    if chunked == Some(1) && len > 3000 {
        return c.trivial();
    }
    let code = *c.pick(&[200, 404, 500]);
    fetch(c, vec![page(code, &[("X-Test", b"value"), ("Set-Cookie", b"a=1"), ("Set-Cookie", b"b=2")], len, chunked, None)]);
}

fn fetch_headers(c: &mut Ctx) {
    let v = *c.pick(&[&b""[..], b"a \"quoted\" 'value': {}", b"caf\xe9", b"\xc3\xa9", b"\xff\xfe", b"a\tb", b"null", b"0x10", b"- a"]);
    fetch(c, vec![page(200, &[("X-Value", v), ("X-Other", b"~")], 10, None, None)]);
}

fn fetch_cut(c: &mut Ctx, step: usize) {
    let chunked = *c.pick(&[None, Some(50)]);
    let full = page(200, &[("X-Test", b"value")], 120, chunked, None);
    let total = full.raw.iter().map(|r| r.len()).sum::<usize>();
    let mut cuts: Vec<usize> = (0..total).step_by(step).collect();
    cuts.push(total - 1);
    let cut = *c.pick(&cuts);
    fetch(c, vec![page(200, &[("X-Test", b"value")], 120, chunked, Some(cut))]);
}

fn fetch_two(c: &mut Ctx) {
    let kinds: Vec<(usize, Option<usize>, Option<usize>)> = vec![(3000, None, None), (2500, Some(700), None), (2000, None, Some(700)), (0, None, None), (10, None, Some(5))];
    let a = *c.pick(&kinds);
    let b = *c.pick(&kinds);
    fetch(
        c,
        vec![
            page(200, &[("X-Which", b"first")], a.0, a.1, a.2),
            page(201, &[("X-Which", b"second")], b.0, b.1, b.2),
        ],
    );
}

/// Pages that can't be fetched
fn fetch_bad(c: &mut Ctx) {
    let s = server();
    let _g = s.rt.enter();
    let unused = TcpListener::bind("127.0.0.1:0").expect("bind").local_addr().expect("addr").port();
    let url = c
        .pick(&[
            format!("http://127.0.0.1:{unused}/"),
            "".to_string(),
            "no-url".to_string(),
            "ftp://127.0.0.1/".to_string(),
            "http://".to_string(),
            "file:///etc/hostname".to_string(),
            format!("http://127.0.0.1:{}/unknown", s.port),
            "http://127.0.0.1:99999/".to_string(),
        ])
        .clone();
    let x = Exec::new();
    let (mut r, _p, mut out) = start_node(&x, c, pid(0));
    let wr = NetworkWrapper::wrap_yaml("WebProxy", &Msg::Request(nid(1, 1), url.clone())).expect("wrap");
    r.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(me(), wr)).expect("emit");
    let mut l = vec![];
    let begin = Instant::now();
    while l.is_empty() {
        x.idle(c);
        std::thread::sleep(Duration::from_micros(500));
        while let Ok(RouterIn::NetworkWrapperToNetwork(_, wr)) = out.try_recv() {
            l.push(wr.unwrap_yaml::<Msg>("WebProxy"));
        }
        c.check(begin.elapsed() < Duration::from_secs(60), "bad-never-ends", || url.clone());
    }
    let ok = matches!(l.as_slice(), [Some(Msg::Response(n, ResponseMessage::Error(_)))] if *n == nid(1, 1));
    c.check(ok, "bad-url", || format!("{l:?}: {url}"));
    c.step();
    c.outcome(&url.len());
}

// ---------------------------------------------------------------- Scenarios

fn scenarios(t: Tier) -> Vec<Scn> {
    use Src::*;
    let one = vec![
        Ev::Header(0, Asked),
        Ev::Header(0, Other),
        Ev::Body(0, Asked),
        Ev::Body(0, Other),
        Ev::Empty(0),
        Ev::Done(0, Asked),
        Ev::Done(0, Other),
        Ev::Error(0, Asked),
        Ev::Error(0, Other),
        Ev::Read(0),
        Ev::Drop(0),
        Ev::Unknown(0),
        Ev::Unknown(1),
        Ev::Unknown(2),
        Ev::Unknown(3),
        Ev::Timeout,
        Ev::Leaves(0),
    ];
    let few = vec![
        Ev::Header(0, Asked),
        Ev::Body(0, Asked),
        Ev::Done(0, Asked),
        Ev::Error(0, Asked),
        Ev::Body(0, Other),
        Ev::Done(0, Other),
        Ev::Read(0),
        Ev::Drop(0),
    ];
    let two: Vec<Ev> = (0..2)
        .flat_map(|r| [Ev::Header(r, Asked), Ev::Body(r, Asked), Ev::Done(r, Asked), Ev::Error(r, Asked), Ev::Body(r, Other), Ev::Done(r, Other), Ev::Read(r), Ev::Drop(r)])
        .collect();
    let two2 = two.clone();
    let open = vec![Ev::Header(0, Asked), Ev::Header(1, Asked)];
    let mut ret = vec![
        Scn::exec("one request", move |c: &mut Ctx| history(c, 1, 2, t.pick(4, 5), &[], &one)),
        Scn::exec("one request, long", move |c: &mut Ctx| history(c, 1, 1, t.pick(5, 7), &[], &few)),
        Scn::exec("two requests, one peer", move |c: &mut Ctx| history(c, 2, 1, t.pick(3, 4), &[], &two)),
        Scn::exec("two requests, two peers", move |c: &mut Ctx| history(c, 2, 2, t.pick(3, 5), &open, &two2)),
        Scn::exec("lists of peers", move |c: &mut Ctx| lists(c, t.pick(3, 4))),
        Scn::exec("malformed", malformed),
        Scn::exec("many blocks", many),
        Scn::exec("burst", move |c: &mut Ctx| bursts(c, &[4], Mode::Delay(t.pick(3, 4)), false)),
        Scn::exec("burst, early blocks", move |c: &mut Ctx| bursts(c, &[4], Mode::Delay(t.pick(2, 3)), true)),
        Scn::exec("burst of two", move |c: &mut Ctx| bursts(c, &[2, 2], Mode::Delay(t.pick(1, 2)), false)),
        Scn::exec("prompt answer", move |c: &mut Ctx| prompt(c, 1, Mode::Delay(t.pick(3, 4)))),
        Scn::exec("prompt answers", move |c: &mut Ctx| prompt(c, 2, Mode::Delay(2))),
        Scn::exec("fetch", move |c: &mut Ctx| {
            let lens: &[usize] = t.pick(&[0, 1, 1023, 1025, 5000, 70000], &[0, 1, 2, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 70000, 300000]);
            fetch_one(c, lens)
        }),
        Scn::exec("fetch headers", fetch_headers),
        Scn::exec("fetch cut", move |c: &mut Ctx| fetch_cut(c, t.pick(7, 1))),
        Scn::exec("fetch two", fetch_two),
        Scn::exec("fetch bad", fetch_bad),
    ];
    if t == Tier::Thorough {
        ret.push(Scn::exec("burst of three", |c: &mut Ctx| bursts(c, &[1, 1, 1], Mode::Delay(1), false)));
    }
    ret
}
