//! D01..D05: the storage of objects.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, Mutex, OnceLock},
};

use flarch::{
    broker::Broker,
    data_storage::{DataStorage, StorageError},
    nodeids::{NodeID, U256},
};
use flcrypto::{access::Condition, tofrombytes::ToFromBytes};
use flmodules::{
    dht_router::broker::{BrokerDHTRouter, DHTRouterIn, DHTRouterOut},
    dht_storage::{
        broker::{DHTStorage, DHTStorageIn, DHTStorageOut},
        core::{Cuckoo, DHTConfig, FloConfig, RealmConfig, RealmStorage},
        intern::{MessageClosest, MessageDest, MessageNeighbour},
    },
    flo::{
        flo::{Flo, FloID, FloWrapper},
        realm::{FloRealm, GlobalID, Realm, RealmID},
    },
    router::messages::NetworkWrapper,
    timer::BrokerTimer,
};
use tokio::sync::mpsc::UnboundedReceiver;

use super::k_kademlia::cpl;
use crate::{
    det,
    engine::*,
    exec::Exec,
    net::{Port, Sim},
};

pub fn d01() -> Prop {
    Prop {
        id: "D01",
        level: "exploration",
        rule: "every sequence of up to 4 (5) operations from: storing small, large, deep, shallow and oversized objects in 2-3 versions, \
               children, child links, new versions of the realm object with other quotas, on the real storage of a realm with different quotas; \
               distinct_nontrivial counts different (operations, contents after every operation)",
        assumptions: &["objects of one realm and one node; the distances are relative to the node, so any other node ID is a renaming"],
        scenarios: d01_scenarios,
    }
}

pub fn d02() -> Prop {
    Prop {
        id: "D02",
        level: "exploration",
        rule: "every order (and every repetition up to a length) of the arrival of versions, conflicting versions, children and links of an \
               object and its realm, on the real storage of a realm; distinct_nontrivial counts different (arrivals, contents)",
        assumptions: &["the quota is big enough for all objects"],
        scenarios: d02_scenarios,
    }
}

pub const OUR: [u8; 32] = [0; 32];

/// What's needed to tell objects apart: ID, version and content.
pub type Obj = (FloID, u32, Vec<u8>);

pub fn fid(f: &Flo) -> FloID {
    f.flo_id()
}

pub fn depth(id: &FloID) -> usize {
    let z: NodeID = U256::from(OUR);
    cpl(&z, &**id)
}

fn edit(f: &FloWrapper<String>, data: String) -> FloWrapper<String> {
    f.edit_data_signers(Condition::Pass, |d| *d = data, &[]).expect("edit")
}

fn object(rid: &RealmID, depth_want: Option<usize>, cuckoo: Cuckoo, data: String) -> FloWrapper<String> {
    loop {
        let f = FloWrapper::from_type_cuckoo(rid.clone(), Condition::Pass, cuckoo.clone(), data.clone(), &[]).expect("object");
        if depth_want.is_none_or(|d| depth(&f.flo_id()) == d) {
            return f;
        }
    }
}

fn config(max_space: u64) -> RealmConfig {
    RealmConfig {
        max_space,
        max_flo_size: 1_000_000,
    }
}

pub fn realm(depth_want: Option<usize>, name: &str, max_space: u64) -> FloRealm {
    loop {
        let f = FloRealm::new(name, Condition::Pass, config(max_space), &[]).expect("realm");
        if depth_want.is_none_or(|d| depth(&f.flo_id()) == d) {
            return f;
        }
    }
}

fn realm_update(r: &FloRealm, max_space: u64) -> FloRealm {
    let new = Realm::new(r.cache().get_name(), config(max_space));
    r.edit_data_signers(Condition::Pass, |r| *r = new, &[]).expect("realm update")
}

/// Runs in its own thread, so that the result is the same in every process.
pub fn fixed<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::spawn(|| {
        det::reset(77);
        f()
    })
    .join()
    .expect("fixed")
}

#[derive(Clone)]
struct D01Pool {
    realm: Flo,
    /// Versions of every object, with a name
    ops: Vec<(String, Op)>,
}

#[derive(Clone)]
enum Op {
    Store(Flo),
    Link(FloID, FloID),
}

/// The size of an object with 100 bytes.
const SMALL: usize = 100;

fn d01_pool(realm_depth: usize, quota: u64) -> D01Pool {
    let r = realm(Some(realm_depth), "r", quota);
    let rid = r.realm_id();
    let mut ops = vec![];
    let mut first = vec![];
    for (name, d, len) in [("far", 0, 100), ("far-big", 0, 400), ("mid", 1, 100), ("mid2", 1, 100), ("near", 2, 100), ("near-big", 3, 400), ("mid-big", 1, 400)] {
        let f = object(&rid, Some(d), Cuckoo::Duration(1000), "x".repeat(len));
        first.push(f.clone());
        ops.push((name.to_string(), Op::Store(f.flo().clone())));
        match name {
            "mid" => ops.push(("mid v1 bigger".into(), Op::Store(edit(&f, "y".repeat(400)).into()))),
            "far-big" => ops.push(("far-big v1 smaller".into(), Op::Store(edit(&f, "y".repeat(50)).into()))),
            _ => {}
        }
    }
    ops.push(("huge".into(), Op::Store(object(&rid, Some(4), Cuckoo::None, "h".repeat(3000)).into())));
    for (p, n) in [(0, "far"), (2, "mid")] {
        let f = object(&rid, Some(1), Cuckoo::Parent(first[p].flo_id()), "c".repeat(SMALL));
        ops.push((format!("child of {n}"), Op::Store(f.into())));
    }
    for (p, n) in [(0, "far"), (4, "near")] {
        ops.push((format!("link of {n}"), Op::Link(first[p].flo_id(), FloID::rnd())));
    }
    ops.push(("link of realm".into(), Op::Link(r.flo_id(), FloID::rnd())));
    ops.push(("realm v1 double".into(), Op::Store(realm_update(&r, quota * 2).into())));
    ops.push(("realm v1 half".into(), Op::Store(realm_update(&r, quota / 2).into())));
    D01Pool { realm: r.into(), ops }
}

pub fn contents(s: &RealmStorage) -> BTreeMap<String, (Flo, Vec<FloID>)> {
    s.get_all_flo_cuckoos().into_iter().map(|(f, l)| (format!("{}", f.flo_id()), (f, l))).collect()
}

fn d01_run(c: &mut Ctx, p: &D01Pool, len: usize) {
    det::reset(1);
    let rid = p.realm.realm_id();
    let mut s = RealmStorage::new(DHTConfig::default(U256::from(OUR)), p.realm.clone().try_into().expect("realm")).expect("new");
    let mut hist = vec![];
    let mut marks = vec![];
    let mut order: Vec<String> = vec![format!("{}", p.realm.flo_id())];
    let realm_key = order[0].clone();
    for n in 0..len {
        let i = c.choose(p.ops.len());
        let (name, op) = &p.ops[i];
        hist.push(name.clone());
        c.label(|| name.clone());
        let before = contents(&s);
        let size_before = s.size;
        match op {
            Op::Store(f) => {
                s.upsert_flo(f.clone());
                order.retain(|o| *o != format!("{}", f.flo_id()));
                order.push(format!("{}", f.flo_id()));
            }
            Op::Link(p, l) => {
                s.store_cuckoo_id(p, l.clone());
            }
        };
        c.step();
        let after = contents(&s);
        let show = |m: &BTreeMap<String, (Flo, Vec<FloID>)>| {
            m.values()
                .map(|(f, l)| format!("{}/{} v{} +{}", depth(&f.flo_id()), f.data().len(), f.version(), l.len()))
                .collect::<Vec<_>>()
                .join(", ")
        };
        let what = || format!("{hist:?}: [{}] size {} -> [{}] size {}", show(&before), size_before, show(&after), s.size);

        // The accounting
        let low: usize = after.values().map(|(f, l)| f.size() + l.iter().map(|i| i.size()).sum::<usize>()).sum();
        let high = low + 40 * after.len() + 3 * after.values().map(|(_, l)| l.len()).sum::<usize>();
        c.check(s.size >= low as u64 && s.size <= high as u64, "accounting", || format!("{} not in {low}..{high}: {}", s.size, what()));
        c.check(s.flo_count() == after.len(), "count", what);
        c.check(s.flo_distribution().iter().sum::<usize>() == after.len(), "distribution", what);

        // The limits of the newest realm object
        c.check(after.contains_key(&realm_key), "realm-lost", what);
        let r: FloRealm = after[&realm_key].0.clone().try_into().expect("realm");
        let max = r.cache().get_config().max_space;
        c.check(s.realm_config() == &r.cache().get_config(), "config", || format!("{:?} {}", s.realm_config(), what()));
        if after.len() > 1 {
            c.check(s.size <= max, "quota", || format!("{max}: {}", what()));
        }

        // What has been evicted
        let gone: Vec<_> = before.keys().filter(|k| !after.contains_key(*k)).cloned().collect();
        for g in &gone {
            let dg = depth(&before[g].0.flo_id());
            let further = after.iter().find(|(k, (f, _))| **k != realm_key && depth(&f.flo_id()) < dg);
            c.check(further.is_none(), "evict-order", what);
        }
        if let Op::Store(f) = op {
            let k = format!("{}", f.flo_id());
            let r_old: FloRealm = before[&realm_key].0.clone().try_into().expect("realm");
            let max_old = r_old.cache().get_config().max_space;
            // The storage holds some data beside the object.
            let w = f.size() as u64 + 40;
            let link = f.flo_config().cuckoo_parent().map_or(0, |p| {
                if before.contains_key(&format!("{p}")) { f.flo_id().size() as u64 + 3 } else { 0 }
            });
            let sane = f.size() as u64 * 3 <= max_old;
            if !before.contains_key(&k) && sane {
                let further: u64 = before
                    .iter()
                    .filter(|(o, (of, _))| **o != realm_key && depth(&of.flo_id()) < depth(&f.flo_id()))
                    .map(|(_, (of, l))| (of.size() + l.iter().map(|i| i.size()).sum::<usize>()) as u64)
                    .sum();
                let fits = size_before + w + link <= max_old;
                if fits {
                    c.check(gone.is_empty(), "evict-needless", what);
                }
                if fits || (w <= further && size_before + link <= max_old) {
                    c.check(after.contains_key(&k), "refused", what);
                }
            }
            if !before.contains_key(&k) && !after.contains_key(&k) && link == 0 {
                c.check(gone.is_empty(), "evict-for-nothing", what);
            }
            if before.contains_key(&k) && !sane {
                c.check(gone.is_empty(), "evict-for-nothing", what);
            }
        } else if let Op::Link(p, _) = op {
            if !before.contains_key(&format!("{p}")) {
                c.check(before == after && s.size == size_before, "link-unknown", what);
            }
        }
        // Nothing appears or changes but the stored object
        for (k, v) in &after {
            let touched = match op {
                Op::Store(f) => *k == format!("{}", f.flo_id()) || f.flo_config().cuckoo_parent().is_some_and(|p| *k == format!("{p}")),
                Op::Link(p, _) => *k == format!("{p}"),
            };
            if !touched {
                c.check(before.get(k) == Some(v), "changed", what);
            }
            c.check(v.0.realm_id() == rid, "realm", what);
        }
        // Persisting keeps everything
        if n + 1 == len {
            let txt = serde_yaml::to_string(&s).expect("yaml");
            let s2: RealmStorage = serde_yaml::from_str(&txt).expect("parse");
            c.check(s2 == s && contents(&s2) == after, "persist", what);
        }
        marks.push(fp(&(show(&after), s.size)));
        order.retain(|o| after.contains_key(o));
        let st: Vec<_> = order.iter().map(|o| (o, after[o].0.version(), after[o].0.data().to_vec(), after[o].1.len())).collect();
        if c.visited(&(fp(&st), s.size, fp(&hist.iter().collect::<BTreeSet<_>>())), len - n - 1) {
            return;
        }
    }
    c.outcome(&(hist, marks));
}

fn d01_scenarios(t: Tier) -> Vec<Scn> {
    static POOLS: OnceLock<Vec<(String, D01Pool)>> = OnceLock::new();
    let pools = POOLS.get_or_init(|| {
        fixed(|| {
            let r = realm(None, "r", 2000).flo().size() as u64;
            let small = object(&realm(None, "r", 2000).realm_id(), None, Cuckoo::Duration(1000), "x".repeat(SMALL)).flo().size() as u64 + 40;
            let mut v = vec![];
            for d in [0, 5] {
                for (name, q) in [("realm-only", r + 40), ("two", r + 40 + 2 * small), ("three", r + 40 + 3 * small + 150), ("six", r + 40 + 6 * small), ("none", r - 50)] {
                    v.push((format!("realm-depth={d} {name}={q}"), d01_pool(d, q)));
                }
            }
            v
        })
    });
    pools
        .iter()
        .map(|(n, p)| {
            let p = p.clone();
            let len = t.pick(4, 5);
            Scn::new(format!("{n} len={len}"), move |c| d01_run(c, &p, len))
        })
        .collect()
}

struct D02Pool {
    realm: Flo,
    parent: FloID,
    arr: Vec<(String, Op)>,
}

fn d02_pool() -> D02Pool {
    let r = realm(None, "r", 1_000_000);
    let rid = r.realm_id();
    let p0 = object(&rid, None, Cuckoo::Duration(1000), "p0".into());
    let p1 = edit(&p0, "p1".into());
    let p1b = edit(&p0, "p1b, which is another version 1".into());
    let p2 = edit(&p1, "p2".into());
    let c0 = object(&rid, None, Cuckoo::Parent(p0.flo_id()), "c0".into());
    let c1 = edit(&c0, "c1".into());
    let d0 = object(&rid, None, Cuckoo::Parent(p0.flo_id()), "d0".into());
    let r1 = realm_update(&r, 2_000_000);
    let mut arr: Vec<(String, Op)> = vec![];
    for (n, f) in [("p0", &p0), ("p1", &p1), ("p1b", &p1b), ("p2", &p2), ("c0", &c0), ("c1", &c1), ("d0", &d0)] {
        arr.push((n.into(), Op::Store(f.flo().clone())));
    }
    arr.push(("link p-x".into(), Op::Link(p0.flo_id(), FloID::rnd())));
    arr.push(("link r-y".into(), Op::Link(r.flo_id(), FloID::rnd())));
    arr.push(("r1".into(), Op::Store(r1.flo().clone())));
    D02Pool {
        realm: r.into(),
        parent: p0.flo_id(),
        arr,
    }
}

fn d02_run(c: &mut Ctx, p: &D02Pool, set: &[usize], repeat: bool, len: usize) {
    det::reset(1);
    let mut s = RealmStorage::new(DHTConfig::default(U256::from(OUR)), p.realm.clone().try_into().expect("realm")).expect("new");
    // What must be stored: the first arrival of the newest version, and the links which arrived after it.
    let key = |i: &FloID| format!("{i}");
    let mut want: BTreeMap<String, (Flo, BTreeSet<String>)> = BTreeMap::new();
    want.insert(key(&p.realm.flo_id()), (p.realm.clone(), BTreeSet::new()));
    let mut early: BTreeSet<String> = BTreeSet::new();
    let mut left = set.to_vec();
    let mut hist = vec![];
    for _ in 0..len {
        let n = c.choose(left.len());
        let i = if repeat { left[n] } else { left.remove(n) };
        let (name, op) = &p.arr[i];
        hist.push(name.as_str());
        match op {
            Op::Store(f) => {
                s.upsert_flo(f.clone());
                if let Some(par) = f.flo_config().cuckoo_parent() {
                    match want.get_mut(&key(par)) {
                        Some(w) => w.1.insert(key(&f.flo_id())),
                        None => early.insert(key(&f.flo_id())),
                    };
                }
                let w = want.entry(key(&f.flo_id())).or_insert((f.clone(), BTreeSet::new()));
                if f.version() > w.0.version() {
                    w.0 = f.clone();
                }
            }
            Op::Link(par, l) => {
                s.store_cuckoo_id(par, l.clone());
                match want.get_mut(&key(par)) {
                    Some(w) => w.1.insert(key(l)),
                    None => early.insert(key(l)),
                };
            }
        }
        c.step();
        let got = contents(&s);
        c.check(got.keys().eq(want.keys()), "objects", || format!("{hist:?}: {} instead of {} objects", got.len(), want.len()));
        for (k, (f, links)) in &want {
            let (gf, gl) = &got[k];
            c.check(gf.version() == f.version(), "version", || format!("{hist:?}: {} instead of {}", gf.version(), f.version()));
            c.check(gf == f, "content", || format!("{hist:?}: version {} has been replaced", f.version()));
            let gs: BTreeSet<_> = gl.iter().map(key).collect();
            c.check(gs.len() == gl.len(), "duplicate-link", || format!("{hist:?}: {gl:?}"));
            c.check(links.is_subset(&gs), "lost-link", || format!("{hist:?}: {gs:?} instead of {links:?} for v{}", f.version()));
            let extra: Vec<_> = gs.difference(links).filter(|l| *k != key(&p.parent) || !early.contains(*l)).collect();
            c.check(extra.is_empty(), "made-up-link", || format!("{hist:?}: {extra:?}"));
        }
        // The other ways to ask for it
        for (k, (f, links)) in &want {
            let id = f.flo_id();
            c.check(s.get_flo_cuckoo(&id).map(|g| &g.0 == f) == Some(true), "get", || format!("{hist:?}: {k}"));
            c.check(s.get_cuckoo_ids(&id).map_or(0, |l| l.len()) >= links.len(), "get-links", || format!("{hist:?}: {k}"));
        }
    }
    c.outcome(&(hist, s.size));
}

fn d02_scenarios(t: Tier) -> Vec<Scn> {
    static POOL: OnceLock<D02Pool> = OnceLock::new();
    let p = POOL.get_or_init(|| fixed(d02_pool));
    let mut v = vec![];
    for (n, set) in [
        ("versions", vec![0, 1, 2, 3, 4, 7]),
        ("children", vec![0, 1, 3, 4, 5, 6]),
        ("links", vec![0, 1, 4, 7, 8, 9]),
    ] {
        v.push(Scn::new(format!("permutations {n}"), move |c| d02_run(c, p, &set, false, set.len())));
    }
    if t == Tier::Thorough {
        v.push(Scn::new("permutations all", move |c| d02_run(c, p, &[0, 1, 3, 4, 5, 6, 7, 8, 9], false, 9)));
    }
    let len = t.pick(5, 6);
    v.push(Scn::new(format!("sequences {len}"), move |c| d02_run(c, p, &(0..10).collect::<Vec<_>>(), true, len)));
    v
}

// ---------------------------------------------------------------- The running storage

/// A storage that can be copied.
#[derive(Clone, Default)]
pub struct MemStore(pub Arc<Mutex<BTreeMap<String, String>>>);

impl MemStore {
    pub fn copy(&self) -> Self {
        Self(Arc::new(Mutex::new(self.0.lock().unwrap().clone())))
    }
}

impl DataStorage for MemStore {
    fn get(&self, key: &str) -> Result<String, StorageError> {
        Ok(self.0.lock().unwrap().get(key).cloned().unwrap_or_default())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
        self.0.lock().unwrap().insert(key.into(), value.into());
        Ok(())
    }
    fn remove(&mut self, key: &str) -> Result<(), StorageError> {
        self.0.lock().unwrap().remove(key);
        Ok(())
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(self.clone())
    }
}

pub struct Stor {
    pub ds: MemStore,
    pub st: DHTStorage,
    pub router: BrokerDHTRouter,
    pub timer: BrokerTimer,
    pub out: UnboundedReceiver<DHTStorageOut>,
    pub net: UnboundedReceiver<DHTRouterIn>,
}

impl Stor {
    pub fn start(x: &Exec, c: &mut Ctx, ds: MemStore, cfg: DHTConfig) -> Self {
        let s = x.block(c, async move {
            let mut router: BrokerDHTRouter = Broker::new();
            let timer: BrokerTimer = Broker::new();
            let net = router.get_tap_in().await.expect("tap").0;
            let mut st = DHTStorage::start(Box::new(ds.clone()), cfg, timer.clone(), router.clone()).await.expect("start");
            let out = st.broker.get_tap_out().await.expect("tap").0;
            Stor { ds, st, router, timer, out, net }
        });
        x.idle(c);
        s
    }

    pub fn input(&mut self, m: &In) {
        match m {
            In::Local(m) => self.st.broker.emit_msg_in(m.clone()).expect("emit"),
            In::Router(m) => self.router.emit_msg_out(m.clone()).expect("emit"),
        }
    }

    fn ask(&mut self, x: &Exec, c: &mut Ctx, m: In) -> (Vec<DHTStorageOut>, Vec<DHTRouterIn>) {
        self.drain();
        self.input(&m);
        x.idle(c);
        c.step();
        self.drain()
    }

    pub fn drain(&mut self) -> (Vec<DHTStorageOut>, Vec<DHTRouterIn>) {
        let mut o = vec![];
        while let Ok(m) = self.out.try_recv() {
            o.push(m);
        }
        let mut n = vec![];
        while let Ok(m) = self.net.try_recv() {
            n.push(m);
        }
        (o, n)
    }

    /// All realms, and all objects with their links
    pub fn view(&mut self, x: &Exec, c: &mut Ctx) -> View {
        let mut v = View::default();
        for m in self.ask(x, c, In::Local(DHTStorageIn::GetRealms)).0 {
            if let DHTStorageOut::RealmIDs(ids) = m {
                for id in ids {
                    c.check(v.realms.insert(hex(&id)), "duplicate-realm", || format!("{id}"));
                }
            }
        }
        for m in self.ask(x, c, In::Local(DHTStorageIn::GetFlos)).0 {
            if let DHTStorageOut::FloValues(l) = m {
                for (f, links) in l {
                    let set: BTreeSet<_> = links.iter().map(|i| hex(i)).collect();
                    c.check(set.len() == links.len(), "duplicate-link", || format!("{links:?}"));
                    let k = (hex(&f.realm_id()), hex(&f.flo_id()));
                    c.check(v.objs.insert(k, (f, set)).is_none(), "duplicate-object", || "".into());
                }
            }
        }
        v
    }

    fn stats(&self) -> Vec<(String, u64, usize, Vec<usize>, u64)> {
        let mut v: Vec<_> = self
            .st
            .stats
            .borrow()
            .realm_stats
            .iter()
            .map(|(id, r)| (hex(id), r.size, r.flos, r.distribution.iter().copied().filter(|d| *d > 0).collect(), r.config.max_space))
            .collect();
        v.sort();
        v
    }
}

pub fn hex(u: &U256) -> String {
    u.to_bytes().iter().map(|b| format!("{b:02x}")).collect()
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct View {
    pub realms: BTreeSet<String>,
    pub objs: BTreeMap<(String, String), (Flo, BTreeSet<String>)>,
}

impl View {
    fn show(&self) -> String {
        let l: Vec<_> = self
            .objs
            .iter()
            .map(|((r, i), (f, l))| {
                format!("{}/{} v{} {:?}", &r[0..4], &i[0..4], f.version(), l.iter().map(|l| &l[0..4]).collect::<Vec<_>>())
            })
            .collect();
        format!("realms {:?} objects [{}]", self.realms.iter().map(|r| &r[0..4]).collect::<Vec<_>>(), l.join(", "))
    }
}

#[derive(Clone)]
pub enum In {
    Local(DHTStorageIn),
    Router(DHTRouterOut),
}

fn other() -> NodeID {
    U256::from([9u8; 32])
}

fn third() -> NodeID {
    U256::from([0x77u8; 32])
}

fn wrap<T: serde::Serialize>(m: &T) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml("DHTStorage", m).expect("wrap")
}

fn routing(key: U256, m: MessageClosest) -> In {
    In::Router(DHTRouterOut::MessageRouting(other(), third(), third(), key, wrap(&m)))
}

fn closest(key: U256, m: MessageClosest) -> In {
    In::Router(DHTRouterOut::MessageClosest(other(), third(), key, wrap(&m)))
}

fn dest(m: MessageDest) -> In {
    In::Router(DHTRouterOut::MessageDest(other(), third(), wrap(&m)))
}

fn neigh(m: MessageNeighbour) -> In {
    In::Router(DHTRouterOut::MessageNeighbour(other(), wrap(&m)))
}

/// How something can reach the storage
#[derive(Clone)]
enum Arrival {
    Store(Flo),
    /// Objects with their links
    Many(Vec<(Flo, Vec<FloID>)>),
    Link(RealmID, FloID, FloID),
    System(RealmID),
    /// No influence on what is stored
    Nothing,
}

struct DPool {
    a: Flo,
    b: Flo,
    a_id: RealmID,
    b_id: RealmID,
    ids: Vec<GlobalID>,
    arr: Vec<(String, In, Arrival)>,
}

fn d_pool() -> DPool {
    let ra = realm(None, "a", 1_000_000);
    let rb = realm(None, "b", 900_000);
    let (a_id, b_id) = (ra.realm_id(), rb.realm_id());
    let forced = |rid: &RealmID, data: &str, cuckoo: Cuckoo, id: u8| {
        FloWrapper::from_type_config(
            rid.clone(),
            Condition::Pass,
            FloConfig {
                cuckoo,
                force_id: Some(U256::from([id; 32])),
            },
            data.to_string(),
            &[],
        )
        .expect("object")
    };
    // The objects have the same ID in both realms
    let a0 = forced(&a_id, "a0", Cuckoo::Duration(1000), 1);
    let a1 = edit(&a0, "a1".into());
    let b0 = forced(&b_id, "b0 here", Cuckoo::Duration(1000), 1);
    let b1 = edit(&b0, "b1 here".into());
    let ac = forced(&a_id, "child", Cuckoo::Parent(a0.flo_id()), 2);
    let bc = forced(&b_id, "child there", Cuckoo::Parent(b0.flo_id()), 3);
    let ra1 = realm_update(&ra, 800_000);
    // A realm object which is not the one of the realm
    let foreign = FloRealm::from_type(b_id.clone(), Condition::Pass, ra.cache().clone(), &[]).expect("foreign");
    let (l1, l2) = (FloID::rnd(), FloID::rnd());
    let p = a0.flo_id();
    let mut arr: Vec<(String, In, Arrival)> = vec![];
    let f = |f: &FloWrapper<String>| f.flo().clone();
    for (n, f) in [("A", ra.flo().clone()), ("B", rb.flo().clone()), ("a0", f(&a0)), ("b1", f(&b1)), ("a-child", f(&ac))] {
        arr.push((format!("local {n}"), In::Local(DHTStorageIn::StoreFlo(f.clone())), Arrival::Store(f)));
    }
    for (n, f) in [("a1", f(&a1)), ("b-child", f(&bc)), ("foreign realm object", foreign.flo().clone())] {
        arr.push((format!("routed {n}"), routing(*f.flo_id(), MessageClosest::StoreFlo(f.clone())), Arrival::Store(f)));
    }
    for (n, f) in [("b0", f(&b0)), ("A1", ra1.flo().clone())] {
        arr.push((format!("closest {n}"), closest(*f.flo_id(), MessageClosest::StoreFlo(f.clone())), Arrival::Store(f)));
    }
    let fv = |f: &Flo, l: Vec<FloID>| (f.clone(), l);
    let v = fv(a0.flo(), vec![l1.clone()]);
    arr.push(("answer a0+1".into(), dest(MessageDest::FloValue(v.clone())), Arrival::Many(vec![v])));
    let v = vec![fv(b1.flo(), vec![l1.clone(), l2.clone()]), fv(ra1.flo(), vec![])];
    arr.push(("sync b1+2, A1".into(), neigh(MessageNeighbour::Flos(v.clone())), Arrival::Many(v)));
    arr.push((
        "routed link of a".into(),
        routing(*p, MessageClosest::StoreCuckooID(GlobalID::new(a_id.clone(), l2.clone()))),
        Arrival::Link(a_id.clone(), p.clone(), l2.clone()),
    ));
    arr.push((
        "closest link of b".into(),
        closest(*p, MessageClosest::StoreCuckooID(GlobalID::new(b_id.clone(), l1.clone()))),
        Arrival::Link(b_id.clone(), p.clone(), l1.clone()),
    ));
    arr.push(("system realm A".into(), In::Router(DHTRouterOut::SystemRealm(a_id.clone())), Arrival::System(a_id.clone())));
    arr.push((
        "neighbour's realms".into(),
        neigh(MessageNeighbour::AvailableRealmIDs(vec![a_id.clone(), b_id.clone()])),
        Arrival::Nothing,
    ));
    arr.push(("unknown".into(), dest(MessageDest::UnknownFlo(a_id.global_id(p.clone()))), Arrival::Nothing));
    let ids = [
        (&a_id, ra.flo_id()),
        (&b_id, rb.flo_id()),
        (&a_id, p.clone()),
        (&b_id, p.clone()),
        (&a_id, ac.flo_id()),
        (&b_id, bc.flo_id()),
        (&b_id, ac.flo_id()),
        (&b_id, foreign.flo_id()),
    ]
    .into_iter()
    .map(|(r, i)| r.global_id(i))
    .collect();
    DPool {
        a: ra.into(),
        b: rb.into(),
        a_id,
        b_id,
        ids,
        arr,
    }
}

fn pool() -> &'static DPool {
    static POOL: OnceLock<DPool> = OnceLock::new();
    POOL.get_or_init(|| fixed(d_pool))
}

/// What has to be stored.
#[derive(Clone)]
struct DModel {
    v: View,
    accept: Vec<String>,
}

impl DModel {
    fn store(&mut self, f: &Flo) {
        let (r, i) = (hex(&f.realm_id()), hex(&f.flo_id()));
        if !self.v.realms.contains(&r) {
            if f.flo_type() != std::any::type_name::<Realm>() || !(self.accept.is_empty() || self.accept.contains(&r)) {
                return;
            }
            self.v.realms.insert(r.clone());
        }
        if let Some(p) = f.flo_config().cuckoo_parent() {
            self.link(&f.realm_id(), p, &f.flo_id());
        }
        let o = self.v.objs.entry((r, i)).or_insert((f.clone(), BTreeSet::new()));
        if f.version() > o.0.version() {
            o.0 = f.clone();
        }
    }

    fn link(&mut self, r: &RealmID, p: &FloID, l: &FloID) {
        if let Some(o) = self.v.objs.get_mut(&(hex(r), hex(p))) {
            o.1.insert(hex(l));
        }
    }

    fn arrive(&mut self, a: &Arrival) {
        match a {
            Arrival::Store(f) => self.store(f),
            Arrival::Many(l) => {
                for (f, links) in l {
                    self.store(f);
                    links.iter().for_each(|l| self.link(&f.realm_id(), &f.flo_id(), l));
                }
            }
            Arrival::Link(r, p, l) => self.link(r, p, l),
            Arrival::System(r) => {
                if !self.accept.contains(&hex(r)) {
                    self.accept.push(hex(r));
                }
            }
            Arrival::Nothing => {}
        }
    }
}

fn dht_config(accept: &[RealmID]) -> DHTConfig {
    DHTConfig {
        realms: accept.to_vec(),
        ..DHTConfig::default(U256::from(OUR))
    }
}

/// All questions that can be asked, and their answers
fn d04_queries(c: &mut Ctx, x: &Exec, s: &mut Stor, m: &DModel, p: &DPool, hist: &[String]) {
    let h = || format!("{hist:?}");
    let got = s.view(x, c);
    c.check(got.realms == m.v.realms, "realms", || format!("{}: {} instead of {}", h(), got.show(), m.v.show()));
    c.check(got == m.v, "objects", || format!("{}: {} instead of {}", h(), got.show(), m.v.show()));
    for gid in &p.ids {
        let k = (hex(gid.realm_id()), hex(gid.flo_id()));
        let want = m.v.objs.get(&k);
        let same = |fc: &(Flo, Vec<FloID>)| {
            let set: BTreeSet<_> = fc.1.iter().map(|l| hex(l)).collect();
            want.is_some_and(|w| w.0 == fc.0 && w.1 == set && set.len() == fc.1.len())
        };
        let links_ok = |l: &Vec<FloID>| {
            let set: BTreeSet<_> = l.iter().map(|l| hex(l)).collect();
            want.is_some_and(|w| w.1 == set && set.len() == l.len())
        };
        let key: U256 = **gid.flo_id();
        // A read
        let (o, n) = s.ask(x, c, In::Local(DHTStorageIn::ReadFlo(gid.clone())));
        let ok = match (want, o.as_slice(), n.as_slice()) {
            (Some(_), [DHTStorageOut::FloValue(fc)], []) => same(fc),
            (None, [], [DHTRouterIn::MessageClosest(k, w)]) => {
                *k == key && w.unwrap_yaml("DHTStorage") == Some(MessageClosest::ReadFlo(gid.realm_id().clone()))
            }
            _ => false,
        };
        c.check(ok, "read", || format!("{}: {gid:?}: {o:?} {n:?} but stored {}", h(), m.v.show()));
        // The links
        let (o, n) = s.ask(x, c, In::Local(DHTStorageIn::ReadCuckooIDs(gid.clone())));
        let ok = match (want, o.as_slice()) {
            (Some(_), [DHTStorageOut::CuckooIDs(g, l)]) => g == gid && links_ok(l),
            (None, []) => true,
            _ => false,
        };
        let asked = matches!(n.as_slice(), [DHTRouterIn::MessageClosest(k, w)] if *k == key
            && w.unwrap_yaml("DHTStorage") == Some(MessageClosest::GetCuckooIDs(gid.realm_id().clone())));
        c.check(ok && (asked || want.is_some()), "links", || format!("{}: {gid:?}: {o:?} {n:?} but stored {}", h(), m.v.show()));
        // Other nodes
        for (name, f) in [("routed", routing as fn(U256, MessageClosest) -> In), ("closest", closest)] {
            let (o, n) = s.ask(x, c, f(key, MessageClosest::ReadFlo(gid.realm_id().clone())));
            let ok = match (want, n.as_slice()) {
                (Some(_), [DHTRouterIn::MessageDirect(d, w)]) => {
                    *d == other() && matches!(w.unwrap_yaml("DHTStorage"), Some(MessageDest::FloValue(fc)) if same(&fc))
                }
                (None, []) => true,
                _ => false,
            };
            c.check(ok && o.is_empty(), "remote-read", || format!("{} {name}: {gid:?}: {o:?} {n:?} but stored {}", h(), m.v.show()));
            let (o, n) = s.ask(x, c, f(key, MessageClosest::GetCuckooIDs(gid.realm_id().clone())));
            let ok = match (want, n.as_slice()) {
                (Some(_), [DHTRouterIn::MessageDirect(d, w)]) => {
                    *d == other()
                        && matches!(w.unwrap_yaml("DHTStorage"), Some(MessageDest::CookooIDs(g, l)) if g == *gid && links_ok(&l))
                }
                (None, []) => true,
                _ => false,
            };
            c.check(ok && o.is_empty(), "remote-links", || format!("{} {name}: {gid:?}: {o:?} {n:?} but stored {}", h(), m.v.show()));
        }
        // Answers are passed on
        let (o, n) = s.ask(x, c, dest(MessageDest::UnknownFlo(gid.clone())));
        c.check(o == vec![DHTStorageOut::ValueMissing(gid.clone())] && n.is_empty(), "missing", || format!("{}: {o:?} {n:?}", h()));
        let l: Vec<FloID> = p.ids.iter().map(|i| i.flo_id().clone()).collect();
        let (o, n) = s.ask(x, c, dest(MessageDest::CookooIDs(gid.clone(), l.clone())));
        c.check(o == vec![DHTStorageOut::CuckooIDs(gid.clone(), l)] && n.is_empty(), "links-answer", || format!("{}: {o:?} {n:?}", h()));
    }
    // Neighbours
    let one = |n: &[DHTRouterIn]| -> Option<Option<MessageNeighbour>> {
        match n {
            [] => Some(None),
            [DHTRouterIn::MessageNeighbour(d, w)] if *d == other() => w.unwrap_yaml("DHTStorage").map(Some),
            _ => None,
        }
    };
    let (o, n) = s.ask(x, c, neigh(MessageNeighbour::RequestRealmIDs));
    let ok = match one(&n) {
        Some(None) => m.v.realms.is_empty(),
        Some(Some(MessageNeighbour::AvailableRealmIDs(l))) => {
            l.len() == m.v.realms.len() && l.iter().map(|r| hex(r)).collect::<BTreeSet<_>>() == m.v.realms
        }
        _ => false,
    };
    c.check(ok && o.is_empty(), "neighbour-realms", || format!("{}: {o:?} {n:?}", h()));
    for r in [&p.a_id, &p.b_id] {
        let (o, n) = s.ask(x, c, neigh(MessageNeighbour::RequestFloMetas(r.clone())));
        let want: BTreeMap<_, _> =
            m.v.objs.iter().filter(|((ri, _), _)| *ri == hex(r)).map(|((_, i), (f, l))| (i.clone(), (f.version(), l.len() as u32))).collect();
        let ok = match one(&n) {
            Some(None) => want.is_empty(),
            Some(Some(MessageNeighbour::AvailableFlos(ri, l))) => {
                ri == *r && l.len() == want.len() && l.iter().map(|f| (hex(&f.id), (f.version, f.cuckoos))).collect::<BTreeMap<_, _>>() == want
            }
            _ => false,
        };
        c.check(ok && o.is_empty(), "neighbour-metas", || format!("{}: {o:?} {n:?}", h()));
        let l: Vec<FloID> = p.ids.iter().map(|i| (hex(i.flo_id()), i.flo_id().clone())).collect::<BTreeMap<_, _>>().into_values().collect();
        let (o, n) = s.ask(x, c, neigh(MessageNeighbour::RequestFlos(r.clone(), l)));
        let ok = match one(&n) {
            Some(None) => want.is_empty(),
            Some(Some(MessageNeighbour::Flos(l))) => {
                l.len() == want.len()
                    && l.iter().all(|(f, l)| {
                        m.v.objs.get(&(hex(r), hex(&f.flo_id()))).is_some_and(|w| {
                            w.0 == *f && w.1 == l.iter().map(|l| hex(l)).collect()
                        })
                    })
            }
            _ => false,
        };
        c.check(ok && o.is_empty(), "neighbour-flos", || format!("{}: {o:?} {n:?}", h()));
    }
    let after = s.view(x, c);
    c.check(after == m.v, "query-changes", || format!("{}: {} instead of {}", h(), after.show(), m.v.show()));
}

fn d04_run(c: &mut Ctx, accept: &[RealmID], len: usize) {
    det::reset(1);
    let p = pool();
    let x = Exec::new();
    let mut s = Stor::start(&x, c, MemStore::default(), dht_config(accept));
    let mut m = DModel {
        v: View::default(),
        accept: accept.iter().map(|r| hex(r)).collect(),
    };
    let mut hist: Vec<String> = vec![];
    for _ in 0..len {
        let (name, inp, arr) = c.pick(&p.arr).clone();
        c.label(|| name.clone());
        hist.push(name);
        s.input(&inp);
        x.idle(c);
        c.step();
        let (o, _) = s.drain();
        let want_out = match &inp {
            In::Router(DHTRouterOut::MessageDest(..)) => 1,
            _ => 0,
        };
        c.check(o.len() == want_out, "outputs", || format!("{hist:?}: {o:?}"));
        m.arrive(&arr);
    }
    if !c.visited(&(fp(&m.v.show()), &m.accept), 0) {
        d04_queries(c, &x, &mut s, &m, p, &hist);
    } else {
        let got = s.view(&x, c);
        c.check(got == m.v, "objects", || format!("{hist:?}: {} instead of {}", got.show(), m.v.show()));
    }
    c.outcome(&(hist, m.v.show()));
}

pub fn d04() -> Prop {
    Prop {
        id: "D04",
        level: "exploration",
        rule: "every sequence of up to 3 (4) arrivals (local, routed, answered and synchronised objects, versions, child links, foreign realm objects, \
               system realms) in two realms whose objects have the same IDs, for every configuration of accepted realms; then every local and remote \
               query is compared with a reference storage; distinct_nontrivial counts different (arrivals, contents)",
        assumptions: &["the quota is big enough for all objects"],
        scenarios: |t| {
            let p = pool();
            let mut v = vec![];
            for (n, accept) in [
                ("any", vec![]),
                ("A", vec![p.a_id.clone()]),
                ("B", vec![p.b_id.clone()]),
                ("A+B", vec![p.a_id.clone(), p.b_id.clone()]),
            ] {
                for len in 0..=t.pick(3, 4) {
                    let accept = accept.clone();
                    v.push(Scn::exec(format!("accept={n} arrivals={len}"), move |c| d04_run(c, &accept, len)));
                }
            }
            v
        },
    }
}

fn d03_run(c: &mut Ctx, start: &[Flo], set: &[usize], len: usize) {
    det::reset(1);
    let p = pool();
    let x = Exec::new();
    let mut s = Stor::start(&x, c, MemStore::default(), dht_config(&[]));
    let mut m = DModel {
        v: View::default(),
        accept: vec![],
    };
    let mut hist: Vec<String> = vec![];
    let compare = |c: &mut Ctx, s: &mut Stor, m: &DModel, hist: &[String]| {
        let mut r = Stor::start(&x, c, s.ds.copy(), dht_config(&[]));
        let (run, new) = (s.view(&x, c), r.view(&x, c));
        c.check(new.realms == m.v.realms, "realms", || format!("{hist:?}: {} instead of {}", new.show(), run.show()));
        c.check(new.objs.keys().eq(m.v.objs.keys()), "objects", || format!("{hist:?}: {} instead of {}", new.show(), run.show()));
        c.check(new == m.v && run == m.v, "links", || format!("{hist:?}: {} instead of {}", new.show(), run.show()));
        let (a, b) = (s.stats(), r.stats());
        c.check(a == b, "stats", || format!("{hist:?}: {b:?} instead of {a:?}"));
        r
    };
    for f in start {
        s.input(&In::Local(DHTStorageIn::StoreFlo(f.clone())));
        m.store(f);
    }
    x.idle(c);
    for n in 0..len {
        let restart = c.choose(set.len() + 1);
        if restart == set.len() {
            hist.push("restart".into());
            s = compare(c, &mut s, &m, &hist);
            // Only what it learnt later
            m.accept.clear();
        } else {
            let (name, inp, arr) = p.arr[set[restart]].clone();
            hist.push(name);
            s.input(&inp);
            x.idle(c);
            m.arrive(&arr);
        }
        c.step();
        compare(c, &mut s, &m, &hist);
        if c.visited(&(fp(&m.v.show()), fp(&s.ds.0.lock().unwrap().clone()), &m.accept), len - n - 1) {
            return;
        }
    }
    c.outcome(&(hist, m.v.show()));
}

/// Realms whose ID is difficult to represent
fn d03_ids(c: &mut Ctx) {
    det::reset(1);
    let x = Exec::new();
    let mut s = Stor::start(&x, c, MemStore::default(), dht_config(&[]));
    let mut ids: Vec<[u8; 32]> = vec![[0; 32], [0x11; 32], [0xff; 32], [0x10; 32]];
    let mut e = [0x11; 32];
    e[1] = 0x1e;
    ids.push(e);
    e[1] = 0xe1;
    ids.push(e);
    let mut n = [0; 32];
    n[31] = 1;
    ids.push(n);
    let id = *c.pick(&ids);
    let name = *c.pick(&["", "r", "- x: y\n\u{85}", "0b1", "{}", "null", "\u{feff}", "~", "1e5", "\u{0}"]);
    let cfg = *c.pick(&[1000u64, 0, u64::MAX]);
    let f = FloRealm::from_type(U256::from(id).into(), Condition::Pass, Realm::new(name.into(), config(cfg)), &[]).expect("realm");
    s.input(&In::Local(DHTStorageIn::StoreFlo(f.into())));
    x.idle(c);
    c.step();
    let mut r = Stor::start(&x, c, s.ds.copy(), dht_config(&[]));
    let (run, new) = (s.view(&x, c), r.view(&x, c));
    c.check(new == run && run.realms.len() == 1, "ids", || format!("{id:02x?} {name:?} {cfg}: {} instead of {}", new.show(), run.show()));
    c.outcome(&(id, name, cfg));
}

pub fn d03() -> Prop {
    Prop {
        id: "D03",
        level: "fault_enumeration",
        rule: "the storage module is restarted from a copy of its persisted data after every message of every sequence of up to 4 (5) messages and \
               restarts, and is compared with the running one and with a reference; distinct_nontrivial counts different (messages, contents)",
        assumptions: &["the data storage itself keeps what has been written (S01, S02)"],
        scenarios: |t| {
            let p = pool();
            let all: Vec<usize> = (0..p.arr.len()).collect();
            let known = vec![p.a.clone(), p.b.clone()];
            let len = t.pick(4, 5);
            let mut v = vec![Scn::exec("ids", d03_ids)];
            let a2 = all.clone();
            v.push(Scn::exec(format!("empty len={len}"), move |c| d03_run(c, &[], &a2, len)));
            v.push(Scn::exec(format!("realms len={len}"), move |c| d03_run(c, &known, &all, len)));
            v
        },
    }
}

// ---------------------------------------------------------------- Synchronisation

struct Net {
    nodes: Vec<Stor>,
    sim: Sim,
}

#[derive(Clone)]
struct Plan5 {
    /// Accepted realms
    accept: Vec<Vec<RealmID>>,
    /// What every node knows at the beginning
    known: Vec<Vec<Arrival>>,
    links: Vec<(usize, usize)>,
    /// Who starts synchronising, before any message has been delivered, or in between. True if it propagates.
    starts: Vec<(usize, bool)>,
    /// At any time, a new object arrives at a node
    later: Vec<(usize, Flo)>,
    /// Wait until all messages are delivered before the next start
    settled: bool,
    /// Rounds with a fixed schedule to spread everything
    rounds: usize,
}

fn d05_start(x: &Exec, c: &mut Ctx, p: &Plan5) -> Net {
    let n = p.known.len();
    let ids: Vec<NodeID> = (0..n).map(|i| U256::from([(i + 1) as u8 * 0x31; 32])).collect();
    let mut nodes = vec![];
    let mut ports = vec![];
    for i in 0..n {
        let cfg = DHTConfig {
            realms: p.accept[i].clone(),
            ..DHTConfig::default(ids[i])
        };
        let mut s = Stor::start(x, c, MemStore::default(), cfg);
        for a in &p.known[i] {
            match a {
                Arrival::Store(f) => s.input(&In::Local(DHTStorageIn::StoreFlo(f.clone()))),
                Arrival::Link(r, p, l) => s.input(&routing(**p, MessageClosest::StoreCuckooID(GlobalID::new(r.clone(), l.clone())))),
                _ => {}
            }
            x.idle(c);
        }
        s.drain();
        let mut r = s.router.clone();
        let mut tap = x.block(c, async move { r.get_tap_in().await.expect("tap").0 });
        let neigh: Vec<NodeID> = p.links.iter().filter_map(|(a, b)| {
            if *a == i { Some(ids[*b]) } else if *b == i { Some(ids[*a]) } else { None }
        }).collect();
        let mut r = s.router.clone();
        ports.push(Port {
            id: ids[i],
            out: Box::new(move || {
                let mut v = vec![];
                while let Ok(m) = tap.try_recv() {
                    match m {
                        DHTRouterIn::MessageNeighbour(d, w) => v.push((d, w)),
                        DHTRouterIn::MessageBroadcast(w) => v.extend(neigh.iter().map(|n| (*n, w.clone()))),
                        // Not part of the synchronisation
                        _ => {}
                    }
                }
                v
            }),
            deliver: Box::new(move |from, w| r.emit_msg_out(DHTRouterOut::MessageNeighbour(from, w)).expect("emit")),
        });
        nodes.push(s);
    }
    let mut sim = Sim::new(ports);
    for (a, b) in &p.links {
        sim.connect(*a, *b);
    }
    Net { nodes, sim }
}

/// Everything that is known by one of the nodes
fn union(views: &[View], accept: &[Vec<RealmID>]) -> Vec<View> {
    let mut u = View::default();
    for v in views {
        u.realms.extend(v.realms.iter().cloned());
        for (k, (f, l)) in &v.objs {
            let o = u.objs.entry(k.clone()).or_insert((f.clone(), BTreeSet::new()));
            if o.0.version() < f.version() {
                o.0 = f.clone();
            }
            o.1.extend(l.iter().cloned());
        }
    }
    accept
        .iter()
        .map(|a| {
            let a: Vec<_> = a.iter().map(|r| hex(r)).collect();
            let mut u = u.clone();
            u.realms.retain(|r| a.is_empty() || a.contains(r));
            u.objs.retain(|(r, _), _| a.is_empty() || a.contains(r));
            u
        })
        .collect()
}

fn d05_flush(x: &Exec, c: &mut Ctx, n: &mut Net) -> usize {
    let mut flos = 0;
    for _ in 0..2000 {
        x.idle(c);
        n.sim.pump();
        let Some(l) = n.sim.pending().first().cloned() else { return flos };
        let w = n.sim.deliver(l);
        if matches!(w.unwrap_yaml("DHTStorage"), Some(MessageNeighbour::Flos(_))) {
            flos += 1;
        }
    }
    c.fail("endless", "the synchronisation doesn't end");
}

fn d05_run(c: &mut Ctx, name: &str, p: &Plan5) {
    det::reset(1);
    if name.ends_with("foreign-links") {
        c.tag("same number of different links");
    }
    let x = Exec::new();
    let mut n = d05_start(&x, c, p);
    let mut before: Vec<View> = vec![];
    for s in n.nodes.iter_mut() {
        before.push(s.view(&x, c));
    }
    n.sim.pump();
    let mut later = p.later.clone();
    let mut starts = p.starts.clone();
    // Every object that has been known, to see that nothing disappears
    let mut seen = before.clone();
    let mut msgs = 0;
    loop {
        let pending = n.sim.pending();
        let busy = p.settled && !pending.is_empty();
        let n_start = if busy || starts.is_empty() { 0 } else { 1 };
        let n_later = if busy || later.is_empty() { 0 } else { 1 };
        let total = pending.len() + n_start + n_later;
        if total == 0 {
            break;
        }
        let i = c.choose(total);
        if i < pending.len() {
            c.label(|| format!("deliver {:?}", pending[i]));
            n.sim.deliver(pending[i]);
            msgs += 1;
            c.check(msgs < 400, "endless", || "the synchronisation doesn't end".into());
        } else if i < pending.len() + n_start {
            let (s, prop) = starts.remove(0);
            c.label(|| format!("node {s} {}", if prop { "propagates" } else { "synchronises" }));
            n.sim.note(s, &("start", prop));
            n.nodes[s].input(&In::Local(if prop { DHTStorageIn::PropagateFlos } else { DHTStorageIn::SyncFromNeighbors }));
        } else {
            let (s, f) = later.remove(0);
            c.label(|| format!("node {s} gets an object"));
            n.sim.note(s, &"object");
            n.nodes[s].input(&In::Local(DHTStorageIn::StoreFlo(f)));
        }
        x.idle(c);
        c.step();
        n.sim.pump();
        if c.visited(&(n.sim.state(), starts.len(), later.len()), 1000 - msgs) {
            return;
        }
        for i in 0..n.nodes.len() {
            let now = n.nodes[i].view(&x, c);
            for (k, (f, l)) in &seen[i].objs {
                let got = now.objs.get(k);
                c.check(got.is_some_and(|g| g.0.version() >= f.version()), "removed", || {
                    format!("node {i}: {} after {}", now.show(), seen[i].show())
                });
                c.check(got.is_some_and(|g| g.1.is_superset(l)), "link-dropped", || {
                    format!("node {i}: {} after {}", now.show(), seen[i].show())
                });
            }
            seen[i] = now;
        }
    }
    // With the objects which arrived later, another round is needed.
    for _ in 0..p.rounds {
        for s in 0..n.nodes.len() {
            n.nodes[s].input(&In::Local(DHTStorageIn::SyncFromNeighbors));
            d05_flush(&x, c, &mut n);
        }
    }
    let mut now = vec![];
    for s in n.nodes.iter_mut() {
        now.push(s.view(&x, c));
    }
    let mut all = seen.clone();
    all.extend(before.clone());
    let want = union(&all, &p.accept);
    for i in 0..now.len() {
        // The links only matter for objects that can be stored
        let ok = now[i].realms == want[i].realms && now[i].objs.keys().eq(want[i].objs.keys());
        c.check(ok, "not-synchronised", || format!("node {i}: {} instead of {}", now[i].show(), want[i].show()));
        for (k, (f, l)) in &want[i].objs {
            let (gf, gl) = &now[i].objs[k];
            c.check(gf.version() == f.version() && gf == f, "old-version", || format!("node {i}: {} instead of {}", now[i].show(), want[i].show()));
            c.check(gl == l, "links", || format!("node {i}: {} instead of {}", now[i].show(), want[i].show()));
        }
    }
    // Nothing more to do
    let mut flos = 0;
    for s in 0..n.nodes.len() {
        n.nodes[s].input(&In::Local(DHTStorageIn::SyncFromNeighbors));
        flos += d05_flush(&x, c, &mut n);
        n.nodes[s].input(&In::Local(DHTStorageIn::PropagateFlos));
        flos += d05_flush(&x, c, &mut n);
    }
    c.check(flos == 0, "still-transfers", || format!("{flos} transfers after everything has been synchronised: {}", now[0].show()));
    c.outcome(&(n.sim.state(), now.iter().map(|v| v.show()).collect::<Vec<_>>()));
}

struct D5Pool {
    a: FloRealm,
    b: FloRealm,
    a1: FloRealm,
    p: [FloWrapper<String>; 3],
    c: FloWrapper<String>,
    d: FloWrapper<String>,
    q: FloWrapper<String>,
    l: [FloID; 2],
}

fn d05_pool() -> D5Pool {
    let a = realm(None, "a", 1_000_000);
    let b = realm(None, "b", 1_000_000);
    let rid = a.realm_id();
    let p0 = object(&rid, None, Cuckoo::Duration(1000), "p0".into());
    let p1 = edit(&p0, "p1".into());
    let p2 = edit(&p1, "p2".into());
    D5Pool {
        a1: realm_update(&a, 900_000),
        c: object(&rid, None, Cuckoo::Parent(p0.flo_id()), "c".into()),
        d: object(&rid, None, Cuckoo::Parent(p0.flo_id()), "d".into()),
        q: object(&b.realm_id(), None, Cuckoo::None, "q".into()),
        p: [p0, p1, p2],
        l: [FloID::rnd(), FloID::rnd()],
        a,
        b,
    }
}

fn d05_scenarios(t: Tier) -> Vec<Scn> {
    static POOL: OnceLock<D5Pool> = OnceLock::new();
    let p = POOL.get_or_init(|| fixed(d05_pool));
    let st = |f: &FloWrapper<String>| Arrival::Store(f.flo().clone());
    let re = |f: &FloRealm| Arrival::Store(f.flo().clone());
    let link = |n: usize| Arrival::Link(p.a.realm_id(), p.p[0].flo_id(), p.l[n].clone());
    let any = vec![vec![], vec![], vec![]];
    let mut ret: Vec<(String, Plan5)> = vec![];
    let pair = |known: Vec<Vec<Arrival>>, starts: Vec<(usize, bool)>| Plan5 {
        accept: vec![vec![]; 2],
        known,
        links: vec![(0, 1)],
        starts,
        later: vec![],
        settled: false,
        rounds: 0,
    };
    let both = vec![(0, false), (1, false)];
    let kn: Vec<(&str, Vec<Vec<Arrival>>)> = vec![
        ("new", vec![vec![re(&p.a), st(&p.p[0])], vec![]]),
        ("versions", vec![vec![re(&p.a), st(&p.p[2])], vec![re(&p.a1), st(&p.p[1])]]),
        ("children", vec![vec![re(&p.a), st(&p.p[0]), st(&p.c)], vec![re(&p.a), st(&p.p[1]), st(&p.d)]]),
        ("links", vec![vec![re(&p.a), st(&p.p[0]), link(0), link(1)], vec![re(&p.a), st(&p.p[1])]]),
        ("foreign-links", vec![vec![re(&p.a), st(&p.p[0]), link(0)], vec![re(&p.a), st(&p.p[0]), link(1)]]),
        ("realms", vec![vec![re(&p.a), st(&p.p[0])], vec![re(&p.b), st(&p.q)]]),
        ("more", vec![vec![re(&p.a), st(&p.p[0]), st(&p.c), re(&p.b)], vec![re(&p.a1), st(&p.p[2]), st(&p.d), re(&p.b), st(&p.q)]]),
    ];
    for (n, k) in &kn {
        ret.push((format!("pair {n}"), pair(k.clone(), both.clone())));
        ret.push((format!("pair propagate {n}"), pair(k.clone(), vec![(0, true), (1, true)])));
        ret.push((format!("pair mixed {n}"), pair(k.clone(), vec![(0, true), (0, false)])));
    }
    let k = |n: &str| kn.iter().find(|k| k.0 == n).unwrap().1.clone();
    // Only one of the realms is accepted
    for (i, acc) in [vec![p.a.realm_id()], vec![p.b.realm_id()]].into_iter().enumerate() {
        let mut pl = pair(k("realms"), both.clone());
        pl.accept = if i == 0 { vec![acc, vec![]] } else { vec![vec![], acc] };
        ret.push((format!("pair accept {i}"), pl));
    }
    // The two synchronise while a new version arrives
    for (n, s) in [("first", 0), ("second", 1)] {
        let mut pl = pair(k("versions"), both.clone());
        pl.known[0][1] = st(&p.p[0]);
        pl.later = vec![(s, p.p[2].flo().clone())];
        pl.rounds = 1;
        ret.push((format!("pair new version at {n}"), pl.clone()));
        let mut pl = pair(k("new"), both.clone());
        pl.later = vec![(0, p.c.flo().clone()), (s, p.p[1].flo().clone())];
        pl.rounds = 1;
        ret.push((format!("pair new child at {n}"), pl));
    }
    let line = Plan5 {
        accept: any.clone(),
        known: vec![vec![re(&p.a), st(&p.p[0])], vec![], vec![re(&p.a), st(&p.p[2])]],
        links: vec![(0, 1), (1, 2)],
        starts: vec![(0, false), (1, false), (2, false)],
        later: vec![],
        settled: false,
        rounds: 2,
    };
    ret.push(("line".into(), Plan5 { starts: vec![(1, false)], ..line.clone() }));
    ret.push(("line settled".into(), Plan5 { settled: true, ..line.clone() }));
    let tri = Plan5 { links: vec![(0, 1), (1, 2), (0, 2)], known: vec![vec![re(&p.a), st(&p.p[0]), st(&p.c)], vec![], vec![re(&p.a), st(&p.p[1])]], ..line.clone() };
    ret.push(("triangle one".into(), Plan5 { starts: vec![(1, false)], rounds: 1, ..tri.clone() }));
    ret.push(("triangle settled".into(), Plan5 { settled: true, rounds: 1, ..tri.clone() }));
    if t == Tier::Thorough {
        ret.push(("line all".into(), Plan5 { starts: vec![(1, false), (0, false)], ..line.clone() }));
        ret.push(("triangle two".into(), Plan5 { known: vec![vec![re(&p.a), st(&p.p[0])], vec![], vec![]], starts: vec![(1, false), (0, true)], rounds: 1, ..tri.clone() }));
    }
    ret.into_iter().map(|(n, p)| Scn::exec(n.clone(), move |c| d05_run(c, &n, &p))).collect()
}

pub fn d05() -> Prop {
    Prop {
        id: "D05",
        level: "model_checking",
        rule: "states are (sequence of inputs of every node, messages on their way); every order of delivery, of starting to synchronise, and of arriving                objects is executed on running storage modules; the contents of all nodes are checked after every message and compared at the end",
        assumptions: &[
            "messages between two nodes keep their order and don't get lost while they are connected",
            "a node's behaviour only depends on its own inputs",
        ],
        scenarios: d05_scenarios,
    }
}
