//! C03: rules which are resolved with the objects stored in a realm.
use flcrypto::{
    access::{Badge, BadgeID, Condition, ConditionLink, ConditionSignature, VersionSpec},
    signer::SignerTrait,
};
use flarch::nodeids::U256;
use flmodules::{
    dht_storage::{
        broker::DHTStorageIn,
        core::RealmConfig,
        realm_view::RealmViewBuilder,
    },
    flo::{
        blob::BlobAccess,
        crypto::{BadgeCond, FloBadge, FloVerifier},
        flo::{Flo, FloWrapper},
        realm::{FloRealm, RealmID},
    },
};

use super::{
    c_crypto::{signers, ver, vid, N, R},
    d_dht::{fixed, In, MemStore, Stor},
    r_view::{config, TIMEOUT},
};
use crate::{engine::*, exec::Exec};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "every small table of stored public keys and badges (right, missing, forged, of another type, in another realm, outdated, \
               referring to themselves) is put in a real storage, every rule is resolved, and compared with a boolean evaluation for every set \
               of signers; every history of badge updates and edits of a page; distinct_nontrivial counts different (tables, rules) and histories",
        assumptions: &["one node: the storage answers everything locally, and no answer comes from the network"],
        scenarios,
    }
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let all = t == Tier::Thorough;
    vec![
        Scn::exec("keys", move |c| keys(c)),
        Scn::exec("badges", move |c| badges(c, all)),
        Scn::exec("later", move |c| later(c, t.pick(4, 5))),
        Scn::exec(format!("pages: {} steps", t.pick(3, 4)), move |c| pages(c, t.pick(3, 4))),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Hash, Eq)]
enum Key {
    Right,
    Missing,
    /// Stored for this ID, but the key of the next signer
    Forged,
    /// Stored for this ID, but something else
    Type,
    /// Stored, but in another realm
    Realm,
}

#[derive(Clone, Debug, PartialEq, Hash, Eq)]
enum Bdg {
    Missing,
    Type,
    Realm,
    /// All versions
    Is(Vec<R>),
}

/// The ID a badge gets if it's created for this force ID
fn bforce(i: u8) -> U256 {
    U256::from([0x60 + i; 32])
}

fn bid(i: u8) -> BadgeID {
    (*Flo::calc_flo_id(&bforce(i))).into()
}

fn spec(kind: u8, id: u8, v: u32) -> VersionSpec<BadgeID> {
    match kind {
        0 => VersionSpec::Exact(bid(id), v),
        1 => VersionSpec::Minimal(bid(id), v),
        _ => VersionSpec::Maximal(bid(id), v),
    }
}

fn link(r: &R) -> ConditionLink {
    match r {
        R::B(k, id, v) => ConditionLink::Badge(spec(*k, *id, *v)),
        R::N(t, l) => ConditionLink::NofT(*t, l.iter().map(link).collect()),
        _ => r.link(),
    }
}

fn no_badge(r: &R) -> bool {
    match r {
        R::B(..) => false,
        R::N(_, l) => l.iter().all(no_badge),
        _ => true,
    }
}

#[derive(Clone, Debug)]
struct Table {
    keys: Vec<Key>,
    badges: Vec<Bdg>,
}

impl Table {
    /// Who meets the rule: a key counts if it is stored, and is the one asked for.
    fn eval(&self, r: &R, s: usize, above: &[u8]) -> bool {
        match r {
            R::V(i) => self.keys[*i] == Key::Right && s & (1 << i) != 0,
            R::B(k, id, v) => {
                let Bdg::Is(vers) = &self.badges[*id as usize] else { return false };
                let last = vers.len() as u32 - 1;
                let fits = match k {
                    0 => last == *v,
                    1 => last >= *v,
                    _ => last <= *v,
                };
                fits && !above.contains(id) && self.eval(&vers[last as usize], s, &[above, &[*id]].concat())
            }
            R::N(t, l) => l.iter().filter(|r| self.eval(r, s, above)).count() as u64 >= *t as u64,
            R::Pass => true,
            R::Fail => false,
        }
    }

    /// Signers who aren't part of a rule may be refused.
    fn mentions(&self, r: &R, i: usize, above: &[u8]) -> bool {
        match r {
            R::V(n) => *n == i,
            R::B(_, id, _) => {
                let Bdg::Is(vers) = &self.badges[*id as usize] else { return false };
                !above.contains(id) && self.mentions(&vers[vers.len() - 1], i, &[above, &[*id]].concat())
            }
            R::N(_, l) => l.iter().any(|r| self.mentions(r, i, above)),
            R::Pass => true,
            R::Fail => false,
        }
    }

    fn complete(&self, r: &R) -> bool {
        match r {
            R::V(i) => self.keys[*i] == Key::Right,
            R::B(..) => false,
            R::N(_, l) => l.iter().all(|r| self.complete(r)),
            _ => true,
        }
    }
}

struct World {
    x: Exec,
    s: Stor,
    rid: RealmID,
    other: RealmID,
}

fn realms() -> Vec<FloRealm> {
    fixed(|| {
        ["one", "two"]
            .map(|n| FloRealm::new(n, Condition::Pass, RealmConfig { max_space: 1_000_000, max_flo_size: 10_000 }, &[]).expect("realm"))
            .to_vec()
    })
}

impl World {
    fn new(c: &mut Ctx, realms: &[FloRealm]) -> Self {
        let x = Exec::new();
        x.max_polls.set(20_000);
        let mut s = Stor::start(&x, c, MemStore::default(), config());
        for r in realms {
            s.input(&In::Local(DHTStorageIn::StoreFlo(r.flo().clone())));
            x.idle(c);
        }
        World { x, s, rid: realms[0].realm_id(), other: realms[1].realm_id() }
    }

    fn store(&mut self, c: &mut Ctx, f: Flo) {
        self.s.input(&In::Local(DHTStorageIn::StoreFlo(f)));
        self.x.idle(c);
    }

    fn key(&mut self, c: &mut Ctx, i: usize, k: Key) {
        let f: Flo = match k {
            Key::Missing => return,
            Key::Right => FloVerifier::from_force_id(self.rid.clone(), ver(i), *vid(i)).expect("key").into(),
            Key::Forged => FloVerifier::from_force_id(self.rid.clone(), ver((i + 1) % N), *vid(i)).expect("key").into(),
            Key::Realm => FloVerifier::from_force_id(self.other.clone(), ver(i), *vid(i)).expect("key").into(),
            Key::Type => FloBadge::from_force_id(self.rid.clone(), BadgeCond::new(ConditionLink::Pass), *vid(i)).expect("key").into(),
        };
        self.store(c, f);
    }

    fn badge(&mut self, c: &mut Ctx, i: u8, b: &Bdg) {
        let pass = BadgeCond::new(ConditionLink::Pass);
        let f: Flo = match b {
            Bdg::Missing => return,
            Bdg::Type => FloVerifier::from_force_id(self.rid.clone(), ver(0), bforce(i)).expect("badge").into(),
            Bdg::Realm => FloBadge::from_force_id(self.other.clone(), pass, bforce(i)).expect("badge").into(),
            Bdg::Is(vers) => {
                for f in versions(&self.rid, i, vers) {
                    self.store(c, f);
                }
                return;
            }
        };
        self.store(c, f);
    }

    /// Resolves a rule, and lets requests for missing objects time out.
    fn resolve(&mut self, c: &mut Ctx, l: ConditionLink, info: &dyn Fn() -> String) -> Condition {
        let (mut st, rid) = (self.s.st.clone(), self.rid.clone());
        let h = self.x.spawn(async move { st.convert(&l, &rid).await });
        for _ in 0..100 {
            self.x.idle(c);
            if h.done() {
                break;
            }
            self.x.advance(TIMEOUT as i64);
        }
        match h.take() {
            Some(cond) => cond,
            None => c.fail("endless", format!("{} is never resolved", info())),
        }
    }
}

fn versions(rid: &RealmID, i: u8, vers: &[R]) -> Vec<Flo> {
    let mut last: Option<FloBadge> = None;
    vers.iter()
        .map(|r| {
            let b = BadgeCond::new(link(r));
            let f = match &last {
                None => FloWrapper::from_type_config(
                    rid.clone(),
                    Condition::Pass,
                    flmodules::dht_storage::core::FloConfig { cuckoo: flmodules::dht_storage::core::Cuckoo::None, force_id: Some(bforce(i)) },
                    b,
                    &[],
                )
                .expect("badge"),
                Some(l) => l.edit_data_signers(Condition::Pass, |old| *old = b, &[]).expect("badge version"),
            };
            last = Some(f.clone());
            f.into()
        })
        .collect()
}

/// Compares a resolved rule with its boolean meaning.
fn judge(c: &mut Ctx, t: &Table, r: &R, cond: &Condition) {
    let d = U256::hash_data(b"digest");
    for s in 0..1 << N {
        let want = t.eval(r, s, &[]);
        let who: Vec<usize> = (0..N).filter(|i| s & (1 << i) != 0).collect();
        let info = || format!("{r:?} with {t:?} and signers {who:?}");
        let mut cs = ConditionSignature::new(cond.clone());
        for i in &who {
            cs.signatures.insert(vid(*i), signers()[*i].sign(&d.bytes()).expect("sign"));
        }
        let got = cs.verify_digest(&d);
        // Parts which are missing may be reported as an error
        let ok = match &got {
            Ok(b) => *b == want,
            Err(_) => !want,
        };
        c.check(ok, "verify", || format!("{}: {got:?} instead of {want}", info()));
        let ids: Vec<_> = who.iter().map(|i| vid(*i)).collect();
        let can = cond.can_sign(&ids.iter().collect::<Vec<_>>());
        c.check(can == want, "can-sign", || format!("{}: {can} instead of {want}", info()));
    }
    if t.complete(r) {
        let eq = cond.equal_link(&link(r)) && cond.to_link() == link(r);
        c.check(eq, "other-rule", || format!("{r:?} with {t:?} got {cond:?}"));
    }
}

fn resolve_all(c: &mut Ctx, w: &mut World, t: &Table, rules: &[R]) {
    for r in rules {
        c.step();
        let info = || format!("{r:?} with {t:?}");
        c.label(info);
        let cond = w.resolve(c, link(r), &info);
        judge(c, t, r, &cond);
    }
    c.outcome(&format!("{t:?}"));
}

fn keys(c: &mut Ctx) {
    let rs = realms();
    let kinds = [Key::Right, Key::Missing, Key::Forged, Key::Type, Key::Realm];
    let t = Table { keys: (0..N).map(|_| *c.pick(&kinds)).collect(), badges: vec![Bdg::Missing] };
    let mut w = World::new(c, &rs);
    for (i, k) in t.keys.iter().enumerate() {
        w.key(c, i, *k);
    }
    let mut rules = vec![R::V(0), R::V(1), R::V(2), R::Pass, R::Fail, R::N(0, vec![]), R::N(1, vec![])];
    for n in 0..=4 {
        rules.push(R::N(n, (0..N).map(R::V).collect()));
    }
    rules.push(R::N(1, vec![R::N(2, vec![R::V(0), R::V(1)]), R::V(2)]));
    rules.push(R::N(2, vec![R::N(1, vec![R::V(0), R::V(1)]), R::V(2), R::Fail]));
    rules.push(R::N(2, vec![R::V(0), R::V(0)]));
    resolve_all(c, &mut w, &t, &rules);
}

fn badge_rules(all: bool) -> Vec<R> {
    let mut v = vec![
        R::V(0),
        R::Pass,
        R::N(2, vec![R::V(0), R::V(1)]),
        // Both itself and the other badge
        R::B(1, 0, 0),
        R::B(1, 1, 0),
        R::N(1, vec![R::V(1), R::B(1, 0, 0), R::B(1, 1, 1)]),
    ];
    if all {
        v.extend([R::Fail, R::B(0, 1, 1), R::B(2, 0, 0), R::N(2, vec![R::V(2), R::B(2, 1, 0)])]);
    }
    v
}

fn badge_states(c: &mut Ctx, all: bool) -> Bdg {
    let rules = badge_rules(all);
    match c.choose(3 + rules.len() * 2) {
        0 => Bdg::Missing,
        1 => Bdg::Type,
        2 => Bdg::Realm,
        n => {
            let (r, old) = (rules[(n - 3) / 2].clone(), (n - 3) % 2 == 1);
            // The first version was another one
            let first = if r == R::Pass { R::Fail } else { R::Pass };
            Bdg::Is(if old { vec![first, r] } else { vec![r] })
        }
    }
}

fn badges(c: &mut Ctx, all: bool) {
    let rs = realms();
    let ks: &[Key] = if all { &[Key::Right, Key::Missing, Key::Forged] } else { &[Key::Right, Key::Forged] };
    let t = Table {
        keys: vec![*c.pick(ks), Key::Right, Key::Right],
        badges: vec![badge_states(c, all), badge_states(c, all)],
    };
    let mut w = World::new(c, &rs);
    for (i, k) in t.keys.iter().enumerate() {
        w.key(c, i, *k);
    }
    for (i, b) in t.badges.iter().enumerate() {
        w.badge(c, i as u8, b);
    }
    let mut rules = vec![];
    for id in 0..2 {
        for k in 0..3 {
            for v in 0..3 {
                rules.push(R::B(k, id, v));
            }
        }
    }
    rules.push(R::N(2, vec![R::B(1, 0, 0), R::B(1, 1, 0)]));
    rules.push(R::N(1, vec![R::B(0, 0, 1), R::V(2)]));
    rules.push(R::N(2, vec![R::V(2), R::N(1, vec![R::B(2, 1, 0), R::B(0, 0, 0)])]));
    resolve_all(c, &mut w, &t, &rules);
}

/// The same rules, resolved again while objects arrive in any order.
fn later(c: &mut Ctx, len: usize) {
    let rs = realms();
    let mut t = Table { keys: vec![Key::Missing; N], badges: vec![Bdg::Missing, Bdg::Missing] };
    let mut w = World::new(c, &rs);
    let tables = [
        [vec![R::V(0), R::V(1), R::Fail], vec![R::B(1, 0, 1), R::Pass]],
        [vec![R::B(1, 1, 0), R::V(0)], vec![R::B(1, 0, 0), R::N(2, vec![R::V(0), R::V(1)])]],
    ];
    let which = c.choose(tables.len());
    let rid = w.rid.clone();
    let flos: Vec<Vec<Flo>> = (0..2).map(|i| versions(&rid, i as u8, &tables[which][i])).collect();
    let rules = [R::V(0), R::B(1, 0, 0), R::B(0, 0, 1), R::B(2, 0, 1), R::N(1, vec![R::B(1, 1, 1), R::V(1)])];
    let mut hist = vec![];
    for _ in 0..len {
        let n = c.choose(2 + flos[0].len() + flos[1].len());
        hist.push(n);
        if n < 2 {
            if t.keys[n] == Key::Right {
                return c.trivial();
            }
            t.keys[n] = Key::Right;
            w.key(c, n, Key::Right);
        } else {
            let (b, v) = if n - 2 < flos[0].len() { (0, n - 2) } else { (1, n - 2 - flos[0].len()) };
            w.store(c, flos[b][v].clone());
            // Only newer versions count
            let have = if let Bdg::Is(v) = &t.badges[b] { v.len() } else { 0 };
            if v + 1 > have {
                t.badges[b] = Bdg::Is(tables[which][b][..=v].to_vec());
            }
        }
        for r in &rules {
            c.step();
            let info = || format!("{r:?} with {t:?} after {hist:?}");
            c.label(info);
            let cond = w.resolve(c, link(r), &info);
            judge(c, &t, r, &cond);
        }
    }
    c.outcome(&(which, hist));
}

/// A condition with this rule, which nobody can meet
fn with_link(r: &R) -> Condition {
    match r {
        R::B(k, id, v) => Condition::Badge(
            spec(*k, *id, *v),
            Badge { id: bid(*id), version: 0, condition: Box::new(Condition::Fail) },
        ),
        R::N(t, l) => Condition::NofT(*t, l.iter().map(with_link).collect()),
        _ => r.cond(),
    }
}

/// A page ruled by a badge: who can edit it depends on the badge at the time of the edit.
fn pages(c: &mut Ctx, len: usize) {
    let rs = realms();
    let mut w = World::new(c, &rs);
    let st = w.s.st.clone();
    let vs = signers().to_vec();
    let (c0, s0) = (Condition::Pass, vec![vs[0].clone()]);
    let mut rv = w.x.block(c, async move {
        RealmViewBuilder::new(st, "realm".into(), c0.clone(), s0.clone())
            .root_http("root".into(), "start".into(), None, c0.clone(), s0.clone())
            .root_tag("tag".into(), None, c0, s0)
            .build()
            .await
            .expect("build")
    });
    w.rid = rv.realm.realm_id();
    let rule = c
        .pick(&[R::B(1, 0, 0), R::B(0, 0, 0), R::B(1, 0, 1), R::B(2, 0, 1), R::N(2, vec![R::B(1, 0, 0), R::V(2)])])
        .clone();
    let vers = c
        .pick(&[
            vec![R::V(0), R::V(1), R::V(0)],
            vec![R::N(2, vec![R::V(0), R::V(1)]), R::N(1, vec![R::V(0), R::V(1)]), R::Fail],
            vec![R::V(0), R::B(1, 0, 0), R::V(1)],
        ])
        .clone();
    let mut t = Table { keys: vec![Key::Right; N], badges: vec![Bdg::Is(vec![vers[0].clone()])] };
    for i in 0..N {
        w.key(c, i, Key::Right);
    }
    let flos = versions(&w.rid, 0, &vers);
    w.store(c, flos[0].clone());
    let all: Vec<_> = signers().to_vec();
    let cond = with_link(&rule);
    let root = rv.pages.root.clone();
    let made;
    (rv, made) = w.x.block(c, async move {
        let r = rv.create_http("page", "edit 0".into(), Some(root), cond, &[]).await;
        (rv, r)
    });
    let page = match made {
        Ok(p) => p.blob_id(),
        Err(e) => c.fail("create", format!("{rule:?}: {e:?}")),
    };
    let (mut version, mut content) = (0, "edit 0".to_string());
    let mut at = 0;
    let mut hist = vec![];
    let sets = [1usize, 2, 4, 3, 5, 6, 7];
    for n in 1..=len {
        let ch = c.choose(1 + sets.len());
        c.step();
        if ch == 0 {
            if at + 1 == flos.len() {
                return c.trivial();
            }
            at += 1;
            hist.push(format!("badge {:?}", vers[at]));
            w.store(c, flos[at].clone());
            t.badges[0] = Bdg::Is(vers[..=at].to_vec());
            continue;
        }
        let set = sets[ch - 1];
        let who: Vec<usize> = (0..N).filter(|i| set & (1 << i) != 0).collect();
        hist.push(format!("edit by {who:?}"));
        let info = format!("page with {rule:?}, badge {vers:?}: {hist:?}");
        c.label(|| info.clone());
        let want = t.eval(&rule, set, &[]);
        let sg: Vec<_> = who.iter().map(|i| all[*i].clone()).collect();
        let (id, text) = (page.clone(), format!("edit {n}"));
        let r;
        (rv, r) = w.x.block(c, async move {
            let refs: Vec<_> = sg.iter().collect();
            let r = rv.update_page(&id, move |b| b.set_data("index.html".into(), text.into()), &refs).await;
            (rv, r)
        });
        if want && who.iter().all(|i| t.mentions(&rule, *i, &[])) {
            c.check(r.is_ok(), "refused", || format!("{info}: {r:?}"));
        }
        if want && r.is_ok() {
            version += 1;
            content = format!("edit {n}");
        }
        if !want {
            c.check(r.is_err(), "allowed", || format!("{info}: the edit is accepted"));
        }
        w.x.idle(c);
        let f = &rv.pages.storage[&page];
        let text = f.get_index();
        c.check(f.version() == version && text == content, "page", || {
            format!("{info}: version {} with {text:?} instead of version {version} with {content:?}", f.version())
        });
    }
    c.outcome(&(format!("{rule:?}"), format!("{vers:?}"), hist));
}
