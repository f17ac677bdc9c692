//! D06, R01: the interfaces of the storage for the users.
use std::collections::{BTreeMap, BTreeSet};

use flcrypto::{
    access::Condition,
    signer::{Signer, SignerTrait, Verifier, VerifierTrait},
    signer_ed25519::SignerEd25519,
};
use flmodules::{
    dht_router::broker::{DHTRouterIn, DHTRouterOut},
    dht_storage::{
        broker::{DHTStorage, DHTStorageIn},
        core::{Cuckoo, DHTConfig, FloConfig},
        intern::{MessageClosest, MessageDest},
        realm_view::{RealmView, RealmViewBuilder},
    },
    flo::{
        blob::{BlobAccess, BlobFamily, BlobID, BlobPath},
        crypto::FloVerifier,
        flo::{Flo, FloWrapper},
        realm::{GlobalID, Realm, RealmID},
    },
    router::messages::NetworkWrapper,
};
use flarch::nodeids::U256;

use super::d_dht::{fixed, realm, In, MemStore, Stor, OUR};
use crate::{
    engine::*,
    exec::{Exec, Mode},
};

pub fn d06() -> Prop {
    Prop {
        id: "D06",
        level: "exploration",
        rule: "every sequence of stores and reads through one or two handles of the running storage is executed under every schedule with a \
               bounded number of delays, and missing objects are answered by the network in every order; every result is compared with what the \
               handle stored and read before; distinct_nontrivial counts different (programs, results)",
        assumptions: &["the quota is big enough for all objects"],
        scenarios: d06_scenarios,
    }
}

pub fn r01() -> Prop {
    Prop {
        id: "R01",
        level: "exploration",
        rule: "every history of creating, editing, moving and renaming pages up to a length is executed on a real view of a realm and its storage, \
               by signers with and without the right to edit, and compared with a reference model of the tree; distinct_nontrivial counts \
               different (histories, trees)",
        assumptions: &["one node: the storage answers everything locally"],
        scenarios: r01_scenarios,
    }
}

pub const TIMEOUT: u64 = 1000;

pub fn config() -> DHTConfig {
    DHTConfig {
        realms: vec![],
        owned: vec![],
        our_id: U256::from(OUR),
        timeout: TIMEOUT,
    }
}

type Obj = FloWrapper<String>;

struct Pool {
    realms: Vec<Flo>,
    rids: Vec<RealmID>,
    /// Objects with all their versions
    objs: Vec<Vec<Obj>>,
}

fn pool() -> Pool {
    let (ra, rb) = (realm(None, "a", 1_000_000), realm(None, "b", 1_000_000));
    let forced = |rid: &RealmID, data: &str, cuckoo: Cuckoo, id: u8| {
        FloWrapper::from_type_config(
            rid.clone(),
            Condition::Pass,
            FloConfig {
                cuckoo,
                force_id: Some(U256::from([id; 32])),
            },
            data.to_string(),
            &[],
        )
        .expect("object")
    };
    let rids = vec![ra.realm_id(), rb.realm_id()];
    let p = forced(&rids[0], "parent 0", Cuckoo::Duration(1000), 1);
    let c = forced(&rids[0], "child 0", Cuckoo::Parent(p.flo_id()), 2);
    // The same ID in another realm
    let o = forced(&rids[1], "other 0", Cuckoo::Duration(1000), 1);
    let mut objs: Vec<Vec<Obj>> = vec![];
    for f in [p, c, o] {
        let mut l = vec![f];
        for v in 1..4 {
            let last = l.last().unwrap();
            let data = format!("{} {v}", last.cache().split(' ').next().unwrap());
            l.push(last.edit_data_signers(Condition::Pass, |d| *d = data, &[]).expect("edit"));
        }
        objs.push(l);
    }
    Pool {
        realms: vec![ra.into(), rb.into()],
        rids,
        objs,
    }
}

impl Pool {
    fn id(&self, obj: usize) -> GlobalID {
        self.objs[obj][0].global_id()
    }
}

/// Steps of a client
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    /// Stores the next version which nobody stored
    Store(usize),
    /// Stores the first version again
    Old(usize),
    Get(usize),
    WrongType(usize),
    Flos,
    Cuckoos,
    Realms,
    StoreRealm,
}

#[derive(Clone, Debug, PartialEq, Hash)]
enum Saw {
    Stored,
    /// Version and content
    Flo(Option<(u32, String)>),
    Typed(bool),
    Flos(Vec<(String, u32, String)>),
    Cuckoos(Option<Vec<String>>),
    Realms(Vec<String>),
}

fn short(f: &Flo) -> Option<(String, u32, String)> {
    let w: Obj = f.clone().try_into().ok()?;
    Some((format!("{:?}", f.global_id()), f.version(), w.cache().clone()))
}

async fn client(mut st: DHTStorage, p: std::rc::Rc<Pool>, prog: Vec<(Do, u32)>) -> Vec<Saw> {
    let mut saw = vec![];
    for (d, version) in prog {
        saw.push(match d {
            Do::Store(o) | Do::Old(o) => {
                st.store_flo(p.objs[o][version as usize].flo().clone()).expect("store");
                Saw::Stored
            }
            Do::StoreRealm => {
                st.store_flo(p.realms[1].clone()).expect("store");
                Saw::Stored
            }
            Do::Get(o) => Saw::Flo(st.get_flo::<String>(&p.id(o)).await.ok().map(|f| (f.version(), f.cache().clone()))),
            Do::WrongType(o) => Saw::Typed(st.get_flo::<Realm>(&p.id(o)).await.is_ok()),
            Do::Flos => {
                let mut l: Vec<_> = st.get_flos().await.unwrap_or_default().iter().filter_map(short).collect();
                l.sort();
                Saw::Flos(l)
            }
            Do::Cuckoos => Saw::Cuckoos(st.get_cuckoos(&p.id(0)).await.ok().map(|l| {
                let mut l: Vec<_> = l.iter().map(|i| format!("{i}")).collect();
                l.sort();
                l
            })),
            Do::Realms => {
                let mut l: Vec<_> = st.get_realm_ids().await.unwrap_or_default().iter().map(|i| format!("{i}")).collect();
                l.sort();
                Saw::Realms(l)
            }
        });
    }
    saw
}

fn own_writes(c: &mut Ctx, p: Pool, clients: usize, len: usize, mode: Mode) {
    let p = std::rc::Rc::new(p);
    let x = Exec::new();
    let mut s = Stor::start(&x, c, MemStore::default(), config());
    // The first version of the parent is always there
    for f in [p.realms[0].clone(), p.objs[0][0].flo().clone()] {
        s.input(&In::Local(DHTStorageIn::StoreFlo(f)));
        x.idle(c);
    }
    let mut next = [1u32, 0, 0];
    let mut progs: Vec<Vec<(Do, u32)>> = vec![];
    for n in 0..clients {
        let mut prog: Vec<(Do, u32)> = vec![];
        for i in 0..len {
            let mine = |o: usize| prog.iter().any(|(d, _)| *d == Do::Store(o));
            let realm = prog.iter().any(|(d, _)| *d == Do::StoreRealm);
            let mut ops = vec![Do::Store(0), Do::Store(1), Do::Get(0), Do::Cuckoos];
            if n == 0 {
                ops.extend([Do::Flos, Do::Realms, Do::Old(0)]);
                ops.push(if realm { Do::Store(2) } else { Do::StoreRealm });
            }
            if mine(1) {
                ops.push(Do::Get(1));
                ops.push(Do::WrongType(1));
            }
            if mine(2) {
                ops.push(Do::Get(2));
            }
            // Nothing can be seen of a store at the end
            ops.retain(|d| i + 1 < len || !matches!(d, Do::Store(_) | Do::StoreRealm | Do::Old(_)));
            ops.retain(|d| !matches!(d, Do::Store(o) if next[*o] > 3));
            let d = *c.pick(&ops);
            let v = match d {
                Do::Store(o) => {
                    next[o] += 1;
                    next[o] - 1
                }
                _ => 0,
            };
            prog.push((d, v));
        }
        progs.push(prog);
    }
    c.label(|| format!("{progs:?}"));
    let handles: Vec<_> = progs.iter().map(|prog| x.spawn(client(s.st.clone(), p.clone(), prog.clone()))).collect();
    x.run(c, mode);
    let all = |o: usize| -> BTreeSet<u32> {
        let mut b: BTreeSet<u32> = progs.iter().flatten().filter(|(d, _)| *d == Do::Store(o)).map(|(_, v)| *v).collect();
        if o == 0 {
            b.insert(0);
        }
        b
    };
    let ids: Vec<String> = (0..3).map(|o| format!("{:?}", p.id(o))).collect();
    let mut results = vec![];
    for (n, h) in handles.into_iter().enumerate() {
        let Some(saw) = h.take() else {
            c.fail("no-answer", format!("client {n} waits for an object which it stored before: {:?}", progs[n]));
        };
        // The lowest version that may be seen
        let mut low: [Option<u32>; 3] = [Some(0), None, None];
        let mut realm = false;
        for ((d, v), s) in progs[n].iter().zip(&saw) {
            c.step();
            let mut flo = |c: &mut Ctx, o: usize, got: &Option<(u32, String)>| {
                let info = || format!("client {n} {:?} saw {saw:?}, at least version {:?} expected", progs[n], low[o]);
                match got {
                    None => c.check(low[o].is_none(), "lost", info),
                    Some((v, data)) => {
                        c.check(low[o].is_none_or(|l| *v >= l), "older", info);
                        c.check(all(o).contains(v), "unknown-version", info);
                        c.check(data == p.objs[o][*v as usize].cache(), "content", info);
                        low[o] = Some(*v);
                    }
                }
            };
            match (d, s) {
                (Do::Store(o), _) => low[*o] = Some(low[*o].unwrap_or(0).max(*v)),
                (Do::StoreRealm, _) => realm = true,
                (Do::Get(o), Saw::Flo(f)) => flo(c, *o, f),
                (Do::WrongType(_), Saw::Typed(ok)) => c.check(!ok, "wrong-type", || "a text was accepted as a realm".into()),
                (Do::Flos, Saw::Flos(l)) => {
                    for o in 0..3 {
                        let f: Vec<_> = l.iter().filter(|(id, ..)| *id == ids[o]).collect();
                        c.check(f.len() < 2, "twice", || format!("{l:?}"));
                        flo(c, o, &f.first().map(|(_, v, d)| (*v, d.clone())));
                    }
                }
                (Do::Cuckoos, Saw::Cuckoos(l)) => {
                    let child = format!("{}", p.objs[1][0].flo_id());
                    let Some(l) = l else { c.fail("cuckoos", format!("no answer for {:?}", progs[n])) };
                    c.check(low[1].is_none() || l.contains(&child), "cuckoo-lost", || format!("client {n} {:?} saw {saw:?}", progs[n]));
                    c.check(l.iter().all(|i| *i == child) && (l.is_empty() || !all(1).is_empty()), "cuckoo-unknown", || format!("{l:?}"));
                }
                (Do::Realms, Saw::Realms(l)) => {
                    let mut want = vec![format!("{}", p.rids[0])];
                    if realm {
                        want.push(format!("{}", p.rids[1]));
                    }
                    want.sort();
                    c.eq(l, &want, "realms");
                }
                _ => {}
            }
        }
        results.push(saw);
    }
    c.outcome(&(format!("{progs:?}"), results));
}

/// What the network delivers while objects are missing
#[derive(Clone, Copy, Debug, PartialEq)]
enum Net {
    Answer(usize),
    Missing(usize),
    OtherRealm,
    Cuckoos,
    Wait(i64),
    WaitLeft,
}

fn remote(c: &mut Ctx, p: Pool, len: usize, mode: Mode) {
    let p = std::rc::Rc::new(p);
    let x = Exec::new();
    let mut s = Stor::start(&x, c, MemStore::default(), config());
    for f in &p.realms {
        s.input(&In::Local(DHTStorageIn::StoreFlo(f.clone())));
        x.idle(c);
    }
    s.drain();
    let dest = |m: MessageDest| {
        In::Router(DHTRouterOut::MessageDest(
            U256::from([9; 32]),
            U256::from([9; 32]),
            NetworkWrapper::wrap_yaml("DHTStorage", &m).expect("wrap"),
        ))
    };
    let asked: Vec<usize> = c.pick(&[vec![0], vec![0, 1], vec![0, 2], vec![0, 0]]).clone();
    let start = x.now();
    let get = |o: usize| {
        let (mut st, id) = (s.st.clone(), p.id(o));
        x.spawn(async move { st.get_flo::<String>(&id).await.ok().map(|f| (f.version(), f.cache().clone())) })
    };
    let hs: Vec<_> = asked.iter().map(|o| get(*o)).collect();
    x.run(c, mode);
    // Every missing object is asked for in the network
    let reqs: Vec<_> = s.drain().1;
    for o in &asked {
        let n = reqs
            .iter()
            .filter(|m| match m {
                DHTRouterIn::MessageClosest(key, w) => {
                    *key == **p.id(*o).flo_id()
                        && w.unwrap_yaml::<MessageClosest>("DHTStorage").is_some_and(|m| matches!(m, MessageClosest::ReadFlo(r) if r == *p.id(*o).realm_id()))
                }
                _ => false,
            })
            .count();
        c.check(n >= 1, "not-asked", || format!("{asked:?}: {reqs:?}"));
    }
    let mut hist = vec![];
    let mut result: Vec<Option<Option<(u32, String)>>> = vec![None; asked.len()];
    let mut known: BTreeMap<usize, u32> = BTreeMap::new();
    for _ in 0..len {
        let mut evs = vec![Net::OtherRealm, Net::Cuckoos, Net::Wait(TIMEOUT as i64 / 2 - 10), Net::WaitLeft];
        for o in 0..3 {
            evs.push(Net::Answer(o));
            if o == 0 {
                evs.push(Net::Missing(o));
            }
        }
        let e = *c.pick(&evs);
        hist.push(e);
        c.label(|| format!("{asked:?} {hist:?}"));
        c.step();
        let before = x.now() - start;
        match e {
            Net::Answer(o) => {
                let v = known.entry(o).and_modify(|v| *v += 1).or_insert(0);
                if *v > 3 {
                    return c.trivial();
                }
                s.input(&dest(MessageDest::FloValue((p.objs[o][*v as usize].flo().clone(), vec![]))));
            }
            Net::Missing(o) => s.input(&dest(MessageDest::UnknownFlo(p.id(o)))),
            Net::OtherRealm => s.input(&In::Local(DHTStorageIn::ReadFlo(p.rids[1].global_id(p.realms[1].flo_id())))),
            Net::Cuckoos => s.input(&dest(MessageDest::CookooIDs(p.id(0), vec![]))),
            Net::Wait(ms) => x.advance(ms),
            Net::WaitLeft => {
                let left = TIMEOUT as i64 - before;
                if left <= 0 {
                    return c.trivial();
                }
                x.advance(left - 1);
                x.run(c, Mode::Fifo);
                for (i, h) in hs.iter().enumerate() {
                    c.check(result[i].is_some() || !h.done(), "too-early", || format!("{asked:?} {hist:?}"));
                }
                x.advance(1);
            }
        }
        x.run(c, mode);
        let now = x.now() - start;
        for (i, o) in asked.iter().enumerate() {
            let info = |g: &Option<Option<(u32, String)>>| format!("{asked:?} {hist:?} after {now} ms: request {i} got {g:?}");
            let got = if result[i].is_none() { hs[i].take() } else { None };
            if result[i].is_none() {
                let want = match e {
                    Net::Answer(a) if a == *o => {
                        let v = known[o];
                        Some(Some((v, p.objs[*o][v as usize].cache().clone())))
                    }
                    _ if now >= TIMEOUT as i64 => Some(None),
                    _ => None,
                };
                c.check(got == want, "answer", || format!("{}, expected {want:?}", info(&got)));
                result[i] = got;
            }
        }
    }
    // What came is kept
    for o in 0..3 {
        let (mut st, id) = (s.st.clone(), p.id(o));
        let h = x.spawn(async move { st.get_flo::<String>(&id).await.ok().map(|f| f.version()) });
        x.idle(c);
        let got = h.take();
        let want = known.get(&o).map(|v| Some(*v));
        c.check(got == want, "kept", || format!("{asked:?} {hist:?}: object {o} {got:?}, expected {want:?}"));
    }
    c.outcome(&(asked, format!("{hist:?}")));
}

fn d06_scenarios(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let mut add = |name: &str, clients: usize, len: usize, mode: Mode| {
        v.push(Scn::exec(format!("{name}: {clients} clients with {len} steps, {mode:?}"), move |c| own_writes(c, fixed(pool), clients, len, mode)));
    };
    add("one", 1, t.pick(4, 5), Mode::Fifo);
    add("one", 1, t.pick(3, 4), t.pick(Mode::Delay(1), Mode::Delay(1)));
    add("one", 1, 2, t.pick(Mode::Delay(2), Mode::Delay(3)));
    add("two", 2, 2, t.pick(Mode::Delay(1), Mode::Delay(2)));
    if t == Tier::Thorough {
        add("two", 2, 3, Mode::Delay(1));
    }
    for (len, mode) in t.pick(vec![(3, Mode::Fifo), (1, Mode::Delay(1))], vec![(4, Mode::Fifo), (2, Mode::Delay(1))]) {
        v.push(Scn::exec(format!("missing objects: {len} events, {mode:?}"), move |c| remote(c, fixed(pool), len, mode)));
    }
    v
}

/* ------------------------------------------------------------------ R01 */

#[derive(Clone)]
struct Actors {
    signers: Vec<Signer>,
    verifiers: Vec<Verifier>,
}

fn actors() -> Actors {
    let signers: Vec<Signer> = (0..2).map(|_| SignerEd25519::new()).collect();
    let verifiers = signers.iter().map(|s| s.verifier()).collect();
    Actors { signers, verifiers }
}

#[derive(Clone, Debug, PartialEq)]
struct Page {
    id: BlobID,
    name: String,
    content: String,
    /// Who may edit it, or everybody
    owner: Option<usize>,
    parents: Vec<BlobID>,
    children: Vec<BlobID>,
    cuckoo_of: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum Edit {
    /// By whom, name, parent, cuckoo of a page
    Create(usize, &'static str, Parent, Option<usize>),
    CreateOpen(&'static str, Parent),
    Content(usize, usize),
    Rename(usize, usize, &'static str),
    Move(usize, usize, Parent),
    AddParent(usize, usize, usize),
    Update,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Parent {
    No,
    Page(usize),
    Unknown,
}

struct Tree {
    pages: Vec<Page>,
    /// Links to cuckoos are only known after an update
    cuckoos: BTreeSet<(usize, usize)>,
    unknown: BlobID,
}

impl Tree {
    fn at(&self, id: &BlobID) -> Option<usize> {
        self.pages.iter().position(|p| p.id == *id)
    }

    fn pid(&self, p: Parent) -> Option<BlobID> {
        match p {
            Parent::No => None,
            Parent::Page(i) => Some(self.pages[i].id.clone()),
            Parent::Unknown => Some(self.unknown.clone()),
        }
    }

    fn may(&self, who: usize, page: usize) -> bool {
        self.pages[page].owner.is_none_or(|o| o == who)
    }

    fn full_path(&self, page: usize) -> Option<String> {
        let mut names = vec![];
        let mut seen = BTreeSet::new();
        let mut at = page;
        loop {
            if !seen.insert(at) {
                return None;
            }
            names.push(self.pages[at].name.clone());
            match self.pages[at].parents.first() {
                None => break,
                Some(p) => at = self.at(p)?,
            }
        }
        names.reverse();
        Some(format!("/{}", names.join("/")))
    }

    /// All pages that match at every level
    fn find(&self, parts: &[&str]) -> Vec<Vec<usize>> {
        let mut level: Vec<usize> = vec![0];
        let mut out = vec![];
        for part in parts {
            let cuckoos: Vec<usize> = self.cuckoos.iter().filter(|(p, _)| level.contains(p)).map(|(_, c)| *c).collect();
            let mut m: Vec<usize> = level.into_iter().chain(cuckoos).filter(|i| self.pages[*i].name == *part).collect();
            m.sort();
            m.dedup();
            level = m.iter().flat_map(|i| self.pages[*i].children.iter().filter_map(|id| self.at(id))).collect();
            out.push(m);
        }
        out
    }
}

fn show(t: &Tree) -> String {
    let short = |l: &Vec<BlobID>| l.iter().map(|i| t.at(i).map_or("?".into(), |i| i.to_string())).collect::<Vec<_>>().join(",");
    t.pages
        .iter()
        .enumerate()
        .map(|(i, p)| format!("{i}:{}<{}>[{}]{}", p.name, short(&p.parents), short(&p.children), p.content))
        .collect::<Vec<_>>()
        .join(" ")
}

const NAMES: [&str; 3] = ["root", "a", "b"];

fn paths(depth: usize) -> Vec<Vec<&'static str>> {
    let mut out: Vec<Vec<&'static str>> = vec![];
    let mut last: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|p| NAMES.iter().map(|n| p.iter().copied().chain([*n]).collect())).collect();
        out.extend(last.clone());
    }
    out
}

fn sorted(v: &[BlobID]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|b| format!("{b}")).collect();
    v.sort();
    v
}

fn compare(c: &mut Ctx, t: &Tree, rv: &RealmView, info: &str, full: bool) {
    for (i, p) in t.pages.iter().enumerate() {
        let Some(f) = rv.pages.storage.get(&p.id) else {
            c.fail("page-lost", format!("{info}: page {i} isn't in the view"));
        };
        let what = || format!("{info}: page {i} of {}", show(t));
        c.check(f.get_path() == Some(&p.name), "name", || format!("{}: {:?}", what(), f.get_path()));
        c.check(f.get_index() == p.content, "content", || format!("{}: {:?}", what(), f.get_index()));
        c.check(f.get_parents() == p.parents, "parents", || format!("{}: {:?}", what(), f.get_parents()));
        // Every child only once
        c.check(sorted(&f.get_children()) == sorted(&p.children), "children", || format!("{}: {:?}", what(), f.get_children()));
        let got = rv.get_full_path_id(&p.id).ok();
        c.check(got == t.full_path(i), "full-path", || format!("{}: {got:?}, expected {:?}", what(), t.full_path(i)));
        if !full {
            continue;
        }
        let direct = rv.get_full_path_blob(f).ok();
        c.check(got == direct, "full-path-blob", || format!("{}: {got:?} and {direct:?}", what()));
        c.check(rv.get_blob_path_family(&p.id).is_some_and(|b| b.get_path() == Some(&p.name)), "family", what);
    }
    c.check(rv.pages.storage.len() == t.pages.len(), "page-unknown", || format!("{info}: {} pages, expected {}", rv.pages.storage.len(), t.pages.len()));
    for parts in paths(3) {
        let levels = t.find(&parts);
        let want = levels.last().unwrap();
        let p = parts.join("/");
        for path in [p.clone(), format!("/{p}")] {
            let got = rv.get_page_from_path(&path).ok().and_then(|f| t.at(&f.blob_id()));
            let what = || format!("{info}: {path} leads to {got:?}, expected one of {want:?} of {}", show(t));
            match got {
                Some(g) => c.check(want.contains(&g), "wrong-page", what),
                None => c.check(want.is_empty() || levels.iter().any(|l| l.len() > 1), "not-found", what),
            }
            if !full || parts.len() > 2 {
                continue;
            }
            // Splits off the last part
            let new = format!("{path}/new-page");
            let parent = rv.get_page_parent_remaining(&new).ok();
            if new.starts_with('/') {
                let pg = parent.as_ref().map(|(f, _)| t.at(&f.blob_id()));
                c.check(pg == got.map(Some), "parent", || format!("{info}: parent of {new} is {pg:?}, expected {got:?}"));
                c.check(parent.is_none_or(|(_, r)| r == "new-page"), "remaining", || format!("{info}: {new}"));
            }
        }
    }
    for wrong in ["", "/", "x", "/root/x", "/x/a", "//"] {
        c.check(rv.get_page_from_path(wrong).is_err(), "wrong-path", || format!("{info}: {wrong:?}"));
    }
    let root = rv.get_root_page().and_then(|p| t.at(&p.blob_id()));
    c.check(root == Some(0), "root", || format!("{info}: {root:?}"));
}

fn edits(t: &Tree, depth: usize) -> Vec<Edit> {
    let n = t.pages.len();
    let mut v = vec![Edit::Update];
    let room = n < 4;
    for i in 0..n {
        if room {
            v.push(Edit::Create(0, "a", Parent::Page(i), None));
            v.push(Edit::Create(1, "b", Parent::Page(i), None));
            if i == 0 {
                v.push(Edit::Create(1, "a", Parent::Page(i), Some(i)));
                v.push(Edit::Create(1, "root", Parent::No, Some(i)));
                v.push(Edit::CreateOpen("b", Parent::Page(i)));
            }
        }
        v.push(Edit::Content(0, i));
        if i > 0 {
            v.push(Edit::Content(1, i));
            v.push(Edit::Rename(0, i, "b"));
            v.push(Edit::Move(0, i, Parent::No));
            if depth > 3 {
                v.push(Edit::Move(0, i, Parent::Unknown));
            }
        }
        for j in 0..n {
            v.push(Edit::Move(0, i, Parent::Page(j)));
            if j != i {
                v.push(Edit::AddParent(0, i, j));
                if i > 0 {
                    v.push(Edit::Move(1, i, Parent::Page(j)));
                }
            }
        }
    }
    if room {
        v.push(Edit::Create(0, "a", Parent::No, None));
        v.push(Edit::Create(0, "b", Parent::Unknown, None));
    }
    v
}

fn pages(c: &mut Ctx, a: &Actors, len: usize, prepared: &[Edit]) {
    let x = Exec::new();
    let mut s = Stor::start(&x, c, MemStore::default(), config());
    let (st, ac) = (s.st.clone(), a.clone());
    let cond = |w: usize| Condition::Verifier(a.verifiers[w].clone());
    let (c0, s0) = (cond(0), vec![a.signers[0].clone()]);
    let mut rv = x.block(c, async move {
        RealmViewBuilder::new(st, "realm".into(), c0.clone(), s0.clone())
            .root_http_cuckoo("root".into(), "start".into(), None, c0.clone(), Cuckoo::Duration(100_000), s0.clone())
            .root_tag("tag".into(), None, c0.clone(), s0.clone())
            .build()
            .await
            .expect("build")
    });
    let rid = rv.realm.realm_id();
    for v in &ac.verifiers {
        let f = FloVerifier::from_force_id(rid.clone(), v.clone(), *v.get_id()).expect("verifier");
        s.input(&In::Local(DHTStorageIn::StoreFlo(f.into())));
    }
    x.idle(c);
    let mut t = Tree {
        pages: vec![Page {
            id: rv.pages.root.clone(),
            name: "root".into(),
            content: "start".into(),
            owner: Some(0),
            parents: vec![],
            children: vec![],
            cuckoo_of: None,
        }],
        cuckoos: BTreeSet::new(),
        unknown: BlobID::from(U256::from([0x55; 32])),
    };
    compare(c, &t, &rv, "start", false);
    let mut hist: Vec<Edit> = vec![];
    let mut versions: BTreeMap<String, u32> = BTreeMap::new();
    for n in 0..len + prepared.len() {
        let e = match prepared.get(n) {
            Some(e) => e.clone(),
            None => c.pick(&edits(&t, len)).clone(),
        };
        hist.push(e.clone());
        c.label(|| format!("{hist:?}"));
        c.step();
        let info = format!("{hist:?}");
        // What a change of page i by who leads to: the new page, or an error
        let mut change: Option<(usize, usize, Box<dyn FnOnce(&mut flmodules::flo::blob::BlobPage)>, Page)> = None;
        match e {
            Edit::Create(..) | Edit::CreateOpen(..) => {
                let (who, name, parent, cuckoo, open) = match e {
                    Edit::Create(w, n, p, k) => (w, n, p, k, false),
                    Edit::CreateOpen(n, p) => (0, n, p, None, true),
                    _ => unreachable!(),
                };
                let cnd = if open { Condition::Pass } else { cond(who) };
                let pid = t.pid(parent);
                let ck = cuckoo.map_or(Cuckoo::None, |i| Cuckoo::Parent((*t.pages[i].id).into()));
                let content = format!("content {n}");
                let (sg, ct, pd) = (a.signers[who].clone(), content.clone(), pid.clone());
                let r;
                (rv, r) = x.block(c, async move {
                    let r = rv.create_http_cuckoo(name, ct, pd, cnd, ck, &[&sg]).await;
                    (rv, r)
                });
                let id = match r {
                    Ok(f) => f.blob_id(),
                    Err(e) => c.fail("create", format!("{info}: {e:?}")),
                };
                t.pages.push(Page {
                    id: id.clone(),
                    name: name.into(),
                    content,
                    owner: (!open).then_some(who),
                    parents: pid.into_iter().collect(),
                    children: vec![],
                    cuckoo_of: cuckoo,
                });
                if let Parent::Page(p) = parent {
                    if t.may(who, p) {
                        t.pages[p].children.push(id);
                    }
                }
            }
            Edit::Update => {
                let r;
                (rv, r) = x.block(c, async move {
                    let r = rv.update_all().await;
                    (rv, r)
                });
                c.check(r.is_ok(), "update", || format!("{info}: {r:?}"));
                t.cuckoos = (0..t.pages.len()).filter_map(|i| t.pages[i].cuckoo_of.map(|p| (p, i))).collect();
            }
            Edit::Content(who, i) => {
                let content = format!("edit {n}");
                let mut p = t.pages[i].clone();
                p.content = content.clone();
                change = Some((who, i, Box::new(move |b| b.set_data("index.html".into(), content.into())), p));
            }
            Edit::Rename(who, i, name) => {
                let mut p = t.pages[i].clone();
                p.name = name.into();
                change = Some((who, i, Box::new(move |b| b.set_path(name.into())), p));
            }
            Edit::Move(who, i, to) => {
                let mut p = t.pages[i].clone();
                p.parents = t.pid(to).into_iter().collect();
                let parents = p.parents.clone();
                change = Some((who, i, Box::new(move |b| b.set_parents(parents)), p));
            }
            Edit::AddParent(who, i, j) => {
                let mut p = t.pages[i].clone();
                let id = t.pages[j].id.clone();
                if p.parents.contains(&id) {
                    return c.trivial();
                }
                p.parents.push(id.clone());
                change = Some((who, i, Box::new(move |b| b.add_parent(id)), p));
            }
        }
        if let Some((who, i, edit, new)) = change {
            let (id, sg) = (t.pages[i].id.clone(), a.signers[who].clone());
            let r;
            (rv, r) = x.block(c, async move {
                let r = rv.update_page(&id, edit, &[&sg]).await;
                (rv, r)
            });
            if t.may(who, i) {
                c.check(r.is_ok(), "edit-refused", || format!("{info}: {r:?}"));
                let old = std::mem::replace(&mut t.pages[i], new);
                let new = t.pages[i].clone();
                for p in old.parents.iter().filter(|p| !new.parents.contains(p)) {
                    if let Some(p) = t.at(p).filter(|p| t.may(who, *p)) {
                        t.pages[p].children.retain(|k| *k != new.id);
                    }
                }
                for p in new.parents.iter().filter(|p| !old.parents.contains(p)) {
                    if let Some(p) = t.at(p).filter(|p| t.may(who, *p)) {
                        if !t.pages[p].children.contains(&new.id) {
                            t.pages[p].children.push(new.id.clone());
                        }
                    }
                }
            } else {
                c.check(r.is_err(), "edit-allowed", || format!("{info}: somebody else changed page {i}"));
            }
        }
        x.idle(c);
        compare(c, &t, &rv, &info, false);
        // The storage has the same pages
        for (f, _) in s.view(&x, c).objs.values() {
            let id: BlobID = (*f.flo_id()).into();
            if t.at(&id).is_some() {
                let here = rv.pages.storage[&id].flo();
                c.check(here == f, "stored", || format!("{info}: version {} is shown, version {} is stored", here.version(), f.version()));
                let last = versions.insert(format!("{id}"), f.version());
                c.check(last.is_none_or(|l| l <= f.version()), "version", || format!("{info}: {last:?} to {}", f.version()));
            }
        }
    }
    let ids: Vec<BlobID> = t.pages.iter().map(|p| p.id.clone()).collect();
    // Another view has the same pages
    let st = s.st.clone();
    let rid2 = rid.clone();
    let view2 = x.block(c, async move {
        let mut rv = RealmView::new_from_id(st, rid2).await?;
        for id in ids {
            rv.fetch_page(id).await?;
        }
        anyhow::Ok(rv)
    });
    let view2 = match view2 {
        Ok(v) => v,
        Err(e) => c.fail("second-view", format!("{hist:?}: {e:?}")),
    };
    t.cuckoos = (0..t.pages.len()).filter_map(|i| t.pages[i].cuckoo_of.map(|p| (p, i))).collect();
    compare(c, &t, &view2, &format!("second view after {hist:?}"), true);
    c.outcome(&(format!("{hist:?}"), show(&t)));
}

fn r01_scenarios(t: Tier) -> Vec<Scn> {
    let mut v = vec![];
    let ac = fixed(actors);
    let mut add = |name: &str, len: usize, prepared: Vec<Edit>| {
        let ac = ac.clone();
        v.push(Scn::exec(format!("{name}: {len} steps"), move |c| pages(c, &ac, len, &prepared)));
    };
    let cr = |w: usize, n: &'static str, p: usize| Edit::Create(w, n, Parent::Page(p), None);
    add("empty realm", t.pick(3, 4), vec![]);
    add("chain", t.pick(2, 3), vec![cr(0, "a", 0), cr(0, "b", 1)]);
    add("siblings", 2, vec![cr(0, "a", 0), cr(0, "b", 0)]);
    add("chain of three", 2, vec![cr(0, "a", 0), cr(0, "b", 1), cr(0, "a", 2)]);
    add("another's page", t.pick(2, 3), vec![cr(0, "a", 0), Edit::Create(1, "b", Parent::Page(0), Some(0)), Edit::Update]);
    v
}
