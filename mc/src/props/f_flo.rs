//! F01, F02: versioned objects.
use std::any::type_name;

use bytes::Bytes;
use flarch::nodeids::U256;
use flcrypto::{
    access::Condition,
    signer::{Signer, Verifier},
    tofrombytes::ToFromBytes,
};
use flmodules::{
    dht_storage::core::{Cuckoo, FloConfig, RealmConfig},
    flo::{
        blob::{Blob, BlobAccess, BlobFamily, BlobPage, BlobPath, BlobTag, FloBlobPage},
        crypto::BadgeCond,
        flo::{Flo, FloID, FloWrapper},
        realm::{FloRealm, Realm, RealmID},
    },
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

use super::c_crypto::{signers, ver, R};
use crate::{det, engine::*};

fn sig(s: usize) -> Vec<&'static Signer> {
    (0..3).filter(|i| s & (1 << i) != 0).map(|i| &signers()[i]).collect()
}

fn has(r: &R, i: usize) -> bool {
    match r {
        R::V(j) => i == *j,
        R::N(_, l) => l.iter().any(|r| has(r, i)),
        R::Pass => true,
        _ => false,
    }
}

/// All of these are allowed to sign for the rule.
fn accepts(r: &R, s: usize) -> bool {
    (0..3).all(|i| s & (1 << i) == 0 || has(r, i))
}

pub fn rid() -> RealmID {
    U256::from([7u8; 32]).into()
}

fn verifies(f: &Flo) -> bool {
    matches!(f.verify(), Ok(true))
}

fn rules() -> Vec<R> {
    vec![
        R::V(0),
        R::N(2, vec![R::V(0), R::V(1)]),
        R::N(1, vec![R::V(1), R::V(2)]),
        R::V(2),
    ]
}

#[derive(Clone)]
struct M {
    rule: R,
    rules_ok: bool,
    data_ok: bool,
    data: String,
    version: u32,
    updates: usize,
}

/// Every history of authorised and unauthorised updates.
fn f01_history(c: &mut Ctx, depth: usize, rules: &[R], sets: &[usize]) {
    det::reset(1);
    let r = c.pick(rules).clone();
    let s = *c.pick(sets);
    let mut hist = vec![format!("create {r:?} by {s:03b}")];
    let res = Flo::new_signer(rid(), r.cond(), &"0".to_string(), FloConfig::default(), &sig(s));
    c.check(res.is_ok() == accepts(&r, s), "create", || format!("{hist:?}: {res:?}"));
    let Ok(mut flo) = res else {
        c.outcome(&hist);
        return;
    };
    let mut m = M {
        rules_ok: r.met(s),
        data_ok: r.met(s),
        rule: r,
        data: "0".into(),
        version: 0,
        updates: 0,
    };
    let id = flo.flo_id();
    for step in 0..=depth {
        let what = || format!("{hist:?}");
        c.step();
        let got = flo.verify();
        let want = m.rules_ok && m.data_ok;
        c.check(matches!(got, Ok(true)) == want, "verify", || format!("{hist:?}: {got:?} instead of {want}"));
        c.check(flo.flo_id() == id && flo.realm_id() == rid(), "id", what);
        c.check(flo.version() == m.version, "version", || format!("{hist:?}: {} instead of {}", flo.version(), m.version));
        c.check(flo.data() == &m.data.to_rmp_bytes(), "data", what);
        c.check(flo.cond() == &m.rule.link(), "rule", what);
        if step == depth {
            break;
        }
        let used = c.pick(rules).clone();
        if c.flip() {
            let s = *c.pick(sets);
            let data = format!("{}", step + 1);
            hist.push(format!("data for {used:?} by {s:03b}"));
            let res = flo.update_data_signers(used.cond(), data.clone(), &sig(s));
            let fine = accepts(&used, s) && used.met(s);
            c.check(res.is_ok() == fine, "update-data", || format!("{hist:?}: {res:?}"));
            if let Ok(f) = res {
                flo = f;
                m.data = data;
                m.version += 1;
                m.data_ok = used == m.rule && used.met(s);
            }
        } else {
            let new = c.pick(rules).clone();
            let s_old = *c.pick(sets);
            // The new signers either do as they should, or not at all.
            let mut s_new = 0;
            if c.flip() {
                s_new = sets.iter().copied().find(|s| accepts(&new, *s) && new.met(*s)).unwrap_or(0);
            }
            hist.push(format!("rule from {used:?} to {new:?} by {s_old:03b} and {s_new:03b}"));
            let res = flo.update_cond_signers(used.cond(), new.cond(), &sig(s_old), &sig(s_new));
            if accepts(&used, s_old) && used.met(s_old) && new.met(s_new) {
                c.check(res.is_ok(), "update-rule", || format!("{hist:?}: {res:?}"));
            }
            if let Ok(f) = res {
                flo = f;
                m.rules_ok &= used == m.rule && accepts(&used, s_old) && used.met(s_old);
                m.data_ok = accepts(&new, s_new) && new.met(s_new);
                m.rule = new;
                m.updates += 1;
            }
        }
    }
    c.label(|| format!("{hist:?}"));
    c.outcome(&hist);
}

fn json(f: &Flo) -> Value {
    serde_json::to_value(f).expect("flo to json")
}

fn parse(v: &Value) -> Option<Flo> {
    serde_json::from_value(v.clone()).ok()
}

/// The fields of a flo, below its version.
fn fields(v: &mut Value) -> &mut serde_json::Map<String, Value> {
    v.as_object_mut()
        .and_then(|o| o.values_mut().next())
        .and_then(|v| v.as_object_mut())
        .expect("fields of a flo")
}

/// Updates which are all authorised, followed by one forgery.
fn f01_forge(c: &mut Ctx, depth: usize) {
    det::reset(1);
    // The signer 2 isn't part of any of these
    let rules = [
        R::V(0),
        R::V(1),
        R::N(2, vec![R::V(0), R::V(1)]),
        R::N(1, vec![R::V(0), R::V(1)]),
    ];
    let by = |r: &R| if r == &R::V(1) { 2 } else if r == &rules[2] { 3 } else { 1 };
    let mut hist = vec![];
    let mut r = c.pick(&rules).clone();
    hist.push(format!("{r:?}"));
    let new = |r: &R, d: &str| Flo::new_signer(rid(), r.cond(), &d.to_string(), FloConfig::default(), &sig(by(r)));
    let mut states = vec![new(&r, "0").expect("flo")];
    let mut other = vec![new(&r, "0").expect("flo")];
    for i in 0..depth {
        let up = c.choose(rules.len() + 2);
        if up == 0 {
            break;
        }
        for l in [&mut states, &mut other] {
            let f = l.last().expect("flo");
            let n = if up == 1 {
                f.update_data_signers(r.cond(), format!("{i}"), &sig(by(&r)))
            } else {
                let new = &rules[up - 2];
                f.update_cond_signers(r.cond(), new.cond(), &sig(by(&r)), &sig(by(new)))
            };
            match n {
                Ok(n) => l.push(n),
                Err(e) => c.fail("authorised", format!("{hist:?} {up}: {e:?}")),
            }
        }
        if up > 1 {
            r = rules[up - 2].clone();
        }
        hist.push(if up == 1 { "data".into() } else { format!("{r:?}") });
    }
    for f in states.iter().chain(&other) {
        c.step();
        c.check(verifies(f), "authorised", || format!("{hist:?}"));
    }
    let j = c.choose(states.len());
    let mut v = json(&states[j]);
    // Where the parts are taken from
    let mine = c.flip();
    let i = c.choose(states.len());
    let mut src = json(if mine { &states[i] } else { &other[i] });
    let kind = c.choose(12);
    let mut forged = vec![];
    {
        let f = fields(&mut v);
        let s = fields(&mut src);
        let updates = f["cond_update"].as_array().expect("updates").clone();
        match kind {
            // The data of another version
            0 => {
                for k in ["data", "data_version", "data_signature"] {
                    f[k] = s[k].clone();
                }
                forged.push(v.clone());
            }
            1 => {
                for k in ["data", "data_version"] {
                    f[k] = s[k].clone();
                }
                forged.push(v.clone());
            }
            2 => {
                f["data"] = s["data"].clone();
                forged.push(v.clone());
            }
            3 => {
                f["data_version"] = s["data_version"].clone();
                forged.push(v.clone());
            }
            // The rules of another version
            4 => {
                f["cond_update"] = s["cond_update"].clone();
                forged.push(v.clone());
            }
            5 => {
                f["cond_genesis"] = s["cond_genesis"].clone();
                forged.push(v.clone());
            }
            6 => {
                f["nonce"] = s["nonce"].clone();
                forged.push(v.clone());
            }
            // Missing, repeated and exchanged rules
            7 => {
                for k in 0..updates.len() {
                    let mut u = updates.clone();
                    u.remove(k);
                    f["cond_update"] = u.into();
                    forged.push(Value::Null);
                    *forged.last_mut().expect("last") = serde_json::json!({"k": f.clone()});
                }
            }
            8 => {
                for k in 0..updates.len() {
                    for l in 0..=updates.len() {
                        let mut u = updates.clone();
                        u.insert(l, updates[k].clone());
                        f["cond_update"] = u.into();
                        forged.push(serde_json::json!({"k": f.clone()}));
                    }
                }
            }
            9 => {
                for k in 0..updates.len() {
                    for l in k + 1..updates.len() {
                        let mut u = updates.clone();
                        u.swap(k, l);
                        f["cond_update"] = u.into();
                        forged.push(serde_json::json!({"k": f.clone()}));
                    }
                }
            }
            // Signatures of something else
            10 => {
                let mut all = vec![
                    s["data_signature"].clone(),
                    s["cond_genesis"]["signatures"].clone(),
                ];
                all.extend(s["cond_update"].as_array().expect("updates").iter().map(|u| u["signatures"].clone()));
                let orig = f.clone();
                for a in all {
                    let mut n = orig.clone();
                    n["data_signature"] = a.clone();
                    forged.push(serde_json::json!({"k": n}));
                    let mut n = orig.clone();
                    n["cond_genesis"]["signatures"] = a.clone();
                    forged.push(serde_json::json!({"k": n}));
                    for k in 0..updates.len() {
                        let mut n = orig.clone();
                        n["cond_update"][k]["signatures"] = a.clone();
                        forged.push(serde_json::json!({"k": n}));
                    }
                }
            }
            // Another signer, or none, takes over
            _ => {
                let flo = &states[j];
                let take: Vec<R> = vec![R::V(2), R::Pass, R::N(0, vec![]), R::N(1, vec![R::V(2)])];
                for t in &take {
                    let s = if t == &R::V(2) || t == &take[3] { 4 } else { 0 };
                    let mut l = vec![];
                    l.extend(flo.update_data_signers(t.cond(), "x".to_string(), &sig(s)).ok());
                    l.extend(flo.update_cond_signers(t.cond(), t.cond(), &sig(s), &sig(s)).ok());
                    l.extend(flo.update_cond_signers(r.cond(), t.cond(), &[], &sig(s)).ok());
                    for f in l {
                        let mut v = json(&f);
                        forged.push(v.clone());
                        // As an update that leaves out the former rules
                        fields(&mut v)["cond_update"] = Value::Array(vec![]);
                        forged.push(v.clone());
                        // Or that replaces the very first rule
                        fields(&mut v)["cond_genesis"]["cond"] = serde_json::to_value(t.link()).expect("link");
                        forged.push(v.clone());
                        let c = serde_json::to_value(t.cond()).expect("cond");
                        fields(&mut v)["cond_genesis"]["signatures"]["condition"] = c;
                        forged.push(v);
                    }
                }
            }
        }
    }
    for f in forged {
        // Restore the name of the version
        let mut full = json(&states[j]);
        let inner = f.as_object().and_then(|o| o.values().next()).cloned().expect("inner");
        *fields(&mut full) = inner.as_object().expect("object").clone();
        c.step();
        let Some(p) = parse(&full) else { continue };
        if states.contains(&p) || other.contains(&p) {
            continue;
        }
        // Anybody can make a new object, but it will have another ID
        let ids = [states[0].flo_id(), other[0].flo_id()];
        if !ids.contains(&p.flo_id()) {
            continue;
        }
        c.check(!verifies(&p), "forged", || format!("{hist:?}: version {j}, source {mine} {i}, kind {kind}: {p:?}"));
    }
    c.label(|| format!("{hist:?}: version {j}, source {mine} {i}, kind {kind}"));
    c.outcome(&(hist, j, mine, i, kind));
}

/// Rules with a badge can't be met by bringing an own badge.
fn f01_badge(c: &mut Ctx) {
    det::reset(1);
    use flcrypto::access::{Badge, BadgeID, VersionSpec};
    let id: BadgeID = U256::from([0x40; 32]).into();
    let spec = match c.choose(3) {
        0 => VersionSpec::Exact(id.clone(), 1),
        1 => VersionSpec::Minimal(id.clone(), 1),
        _ => VersionSpec::Maximal(id.clone(), 1),
    };
    let badge = |inner: Condition, version| {
        Condition::Badge(
            spec.clone(),
            Badge {
                id: id.clone(),
                version,
                condition: Box::new(inner),
            },
        )
    };
    let genuine = badge(Condition::Verifier(ver(0)), 1);
    let flo = Flo::new_signer(rid(), genuine.clone(), &"0".to_string(), FloConfig::default(), &sig(1)).expect("flo");
    let inners = [
        Condition::Pass,
        Condition::NofT(0, vec![]),
        Condition::Verifier(ver(2)),
        badge(Condition::Pass, 1),
        badge(Condition::Verifier(ver(2)), 1),
        badge(badge(Condition::Pass, 1), 1),
        Condition::NotAvailable,
    ];
    let inner = c.pick(&inners).clone();
    let version = c.choose(3) as u32;
    let own = badge(inner.clone(), version);
    let wrap = match c.choose(3) {
        0 => own,
        1 => Condition::NofT(1, vec![own]),
        _ => inner,
    };
    c.step();
    c.label(|| format!("{wrap:?}"));
    for s in [0usize, 4] {
        if let Ok(f) = flo.update_data_signers(wrap.clone(), "x".to_string(), &sig(s)) {
            c.check(!verifies(&f), "own-badge", || format!("{wrap:?} for {genuine:?}"));
        }
        if let Ok(f) = flo.update_cond_signers(wrap.clone(), Condition::Verifier(ver(2)), &sig(s), &sig(4)) {
            c.check(!verifies(&f), "own-badge", || format!("{wrap:?} for {genuine:?}"));
        }
    }
    c.outcome(&format!("{spec:?} {wrap:?}"));
}

pub fn f01() -> Prop {
    Prop {
        id: "F01",
        level: "exploration",
        rule: "every history of creation, data and rule updates by every set of signers is executed on the real code; \
               an execution is non-trivial if its history (and forgery) has not been seen before",
        assumptions: &["ed25519 and SHA-256 are sound"],
        scenarios: |t| {
            let mut ret = vec![];
            let two = vec![0b001, 0b110];
            let all = vec![0b000, 0b001, 0b010, 0b011, 0b100, 0b101];
            let rs = rules();
            let few = rs[..2].to_vec();
            {
                let (rs, all) = (rs.clone(), all.clone());
                ret.push(Scn::new("history-1", move |c: &mut Ctx| f01_history(c, 1, &rs, &all)));
            }
            {
                let all = vec![0b000, 0b001, 0b011, 0b100];
                let few = few.clone();
                ret.push(Scn::new("history-2", move |c: &mut Ctx| f01_history(c, 2, &few, &all)));
            }
            {
                let rs = vec![R::V(0), R::N(1, vec![R::V(1), R::V(2)])];
                ret.push(Scn::new("history-3", move |c: &mut Ctx| f01_history(c, 3, &rs, &two)));
            }
            if t == Tier::Thorough {
                let (rs2, all2) = (rs.clone(), all.clone());
                ret.push(Scn::new("history-2-all", move |c: &mut Ctx| f01_history(c, 2, &rs2, &all2)));
                let rs = vec![R::V(0), R::V(2)];
                let two = vec![0b001, 0b100];
                ret.push(Scn::new("history-4", move |c: &mut Ctx| f01_history(c, 4, &rs, &two)));
            }
            let d = t.pick(2, 3);
            ret.push(Scn::new("forge", move |c: &mut Ctx| f01_forge(c, d)));
            ret.push(Scn::new("badge", f01_badge));
            ret
        },
    }
}

// ---------------------------------------------------------------- F02

/// All changes of single values in a JSON value
fn mutations(v: &Value, path: &str, out: &mut Vec<(String, Value)>, wrap: &dyn Fn(Value) -> Value) {
    match v {
        Value::Null => {
            for n in [Value::String("00".into()), Value::String("11".repeat(32)), Value::Number(0.into())] {
                out.push((path.into(), wrap(n)));
            }
        }
        Value::Bool(b) => out.push((path.into(), wrap(Value::Bool(!b)))),
        Value::Number(n) => {
            let n = n.as_u64().unwrap_or(0);
            for x in [n.wrapping_add(1), n.saturating_sub(1), 0, 255, 256, u32::MAX as u64] {
                out.push((path.into(), wrap(x.into())));
            }
        }
        Value::String(s) => {
            let cs: Vec<char> = s.chars().collect();
            for i in 0..cs.len() {
                for n in ['0', '1', 'a', 'B'] {
                    let mut x = cs.clone();
                    x[i] = n;
                    out.push((path.into(), wrap(Value::String(x.into_iter().collect()))));
                }
            }
            for n in ["", "Pass", "Fail", "None", "00"] {
                out.push((path.into(), wrap(Value::String(n.into()))));
            }
            out.push((path.into(), wrap(Value::String(format!("{s}00")))));
            if s.len() > 2 {
                out.push((path.into(), wrap(Value::String(s[..s.len() - 2].into()))));
            }
            out.push((path.into(), wrap(Value::Null)));
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                mutations(&a[i], &format!("{path}[{i}]"), out, &|n| {
                    let mut a = a.clone();
                    a[i] = n;
                    wrap(Value::Array(a))
                });
                let mut x = a.clone();
                let e = x.remove(i);
                out.push((path.into(), wrap(Value::Array(x.clone()))));
                x.push(e.clone());
                out.push((path.into(), wrap(Value::Array(x.clone()))));
                x.push(e);
                out.push((path.into(), wrap(Value::Array(x))));
            }
        }
        Value::Object(o) => {
            for (k, e) in o {
                mutations(e, &format!("{path}.{k}"), out, &|n| {
                    let mut o = o.clone();
                    o[k] = n;
                    wrap(Value::Object(o))
                });
                let mut x = o.clone();
                x.remove(k);
                out.push((path.into(), wrap(Value::Object(x))));
                for n in ["Exact", "Minimal", "Maximal", "Duration", "Parent", "NofT", "Verifier"] {
                    let mut x = o.clone();
                    let e = x.remove(k).expect("element");
                    x.insert(n.into(), e);
                    out.push((path.into(), wrap(Value::Object(x))));
                }
            }
            for n in ["Pass", "Fail", "None", "NotAvailable"] {
                out.push((path.into(), wrap(Value::String(n.into()))));
            }
        }
    }
}

fn samples() -> Vec<(String, Flo)> {
    let one = || Condition::Verifier(ver(0));
    let group = R::N(2, vec![R::V(0), R::V(1)]).cond();
    let mut ret = vec![];
    let cfgs = [
        FloConfig::default(),
        FloConfig {
            cuckoo: Cuckoo::Duration(5),
            force_id: None,
        },
        FloConfig {
            cuckoo: Cuckoo::Parent(U256::from([9u8; 32]).into()),
            force_id: None,
        },
        FloConfig {
            cuckoo: Cuckoo::None,
            force_id: Some(U256::from([5u8; 32])),
        },
    ];
    for (i, cfg) in cfgs.into_iter().enumerate() {
        let f = Flo::new_signer(rid(), one(), &"data".to_string(), cfg, &sig(1)).expect("flo");
        ret.push((format!("config-{i}"), f));
    }
    let f = Flo::new_signer(rid(), group.clone(), &"".to_string(), FloConfig::default(), &sig(3)).expect("flo");
    let g = f.update_data_signers(group.clone(), "new".to_string(), &sig(3)).expect("update");
    ret.push(("group".into(), f));
    let g = g.update_cond_signers(group, one(), &sig(3), &sig(1)).expect("rule");
    ret.push(("rule".into(), g.clone()));
    let g = g.update_data_signers(one(), "newer".to_string(), &sig(1)).expect("update");
    let g = g.update_cond_signers(one(), Condition::Verifier(ver(1)), &sig(1), &sig(2)).expect("rule");
    ret.push(("rules".into(), g));
    let r = FloRealm::new(
        "root",
        one(),
        RealmConfig {
            max_space: 1000,
            max_flo_size: 100,
        },
        &sig(1),
    )
    .expect("realm");
    ret.push(("realm".into(), r.into()));
    let p = FloBlobPage::new(rid(), one(), "path", Bytes::from("<html>"), Some(U256::from([3u8; 32]).into()), &sig(1))
        .expect("page");
    ret.push(("page".into(), p.into()));
    ret
}

fn f02_alter(c: &mut Ctx, name: usize, flo: &Flo, muts: &[(String, Value)]) {
    let i = c.choose(muts.len());
    let (path, v) = &muts[i];
    c.step();
    c.label(|| format!("{path}: {v}"));
    if let Some(p) = parse(v) {
        if &p != flo && !path.ends_with(".realm") {
            c.check(!verifies(&p), "altered", || format!("{path} can be altered: {v}"));
        }
        let back: Option<Flo> = serde_yaml::to_string(&p).ok().and_then(|s| serde_yaml::from_str(&s).ok());
        c.check(back.as_ref() == Some(&p), "yaml", || format!("{p:?} became {back:?}"));
        c.check(Flo::from_rmp_bytes("", &p.to_rmp_bytes()).ok().as_ref() == Some(&p), "rmp", || format!("{p:?}"));
    }
    c.outcome(&(name, i));
}

trait Conv {
    fn make(&self) -> Flo;
    fn name(&self) -> String;
    /// The serialized content, if it can be read as this type
    fn read(&self, f: Flo) -> Option<Bytes>;
}

struct Ty<T>(T);

impl<T: Serialize + DeserializeOwned + Clone> Conv for Ty<T> {
    fn make(&self) -> Flo {
        Flo::new_signer(rid(), Condition::Verifier(ver(0)), &self.0, FloConfig::default(), &sig(1)).expect("flo")
    }
    fn name(&self) -> String {
        type_name::<T>().into()
    }
    fn read(&self, f: Flo) -> Option<Bytes> {
        TryInto::<FloWrapper<T>>::try_into(f).ok().map(|w| w.cache().to_rmp_bytes())
    }
}

#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct Other(String);

fn types() -> Vec<Box<dyn Conv>> {
    vec![
        Box::new(Ty(Realm::new("a".into(), RealmConfig { max_space: 1, max_flo_size: 2 }))),
        Box::new(Ty(Blob::new("re.fledg.page"))),
        Box::new(Ty(BlobPage(Blob::new("re.fledg.page")))),
        Box::new(Ty(BlobTag(Blob::new("re.fledg.page")))),
        Box::new(Ty::<Verifier>(ver(0))),
        Box::new(Ty(BadgeCond::new(R::V(0).link()))),
        Box::new(Ty("text".to_string())),
        Box::new(Ty(Other("text".to_string()))),
        Box::new(Ty(5u32)),
        Box::new(Ty(5u64)),
        Box::new(Ty::<FloID>(U256::from([1u8; 32]).into())),
    ]
}

fn f02_types(c: &mut Ctx) {
    det::reset(1);
    let types = types();
    let (i, j) = (c.choose(types.len()), c.choose(types.len()));
    c.step();
    let f = types[i].make();
    c.label(|| format!("{} as {}", types[i].name(), types[j].name()));
    c.check(f.flo_type() == types[i].name(), "type", || f.flo_type());
    let data = f.data().clone();
    let got = types[j].read(f.clone());
    c.check(got == (i == j).then_some(data), "convert", || {
        format!("{} read as {}: {got:?}", types[i].name(), types[j].name())
    });
    // Changing the type is noticed
    let mut v = json(&f);
    fields(&mut v).insert("flo_type".into(), types[j].name().into());
    let p = parse(&v).expect("parse");
    c.check(verifies(&p) == (i == j), "changed-type", || format!("{} changed to {}", types[i].name(), types[j].name()));
    c.check(i == j || p.flo_id() != f.flo_id(), "type-id", || types[i].name());
    c.outcome(&(i, j));
}

/// Edits of a page with the typed wrapper keep its ID, and its content is what has been written.
fn f02_edit(c: &mut Ctx, depth: usize) {
    det::reset(1);
    let one = Condition::Verifier(ver(0));
    let mut fw = FloBlobPage::new(rid(), one.clone(), "path", Bytes::from("0"), None, &sig(1)).expect("page");
    let id = fw.flo_id();
    let mut page = fw.cache().clone();
    let mut hist = vec![];
    for i in 0..depth {
        let op = c.choose(6);
        hist.push(op);
        let edit = |p: &mut BlobPage| match op {
            0 => p.set_path(format!("p{i}\n")),
            1 => p.set_data("index.html".into(), Bytes::from(vec![i as u8; 3])),
            2 => p.add_parent(U256::from([i as u8; 32]).into()),
            3 => p.add_child(U256::from([i as u8; 32]).into()),
            4 => p.set_data(format!("{i}"), Bytes::new()),
            _ => p.set_parents(vec![]),
        };
        let before = fw.clone();
        edit(&mut page);
        fw = match fw.edit_data_signers(one.clone(), edit, &sig(1)) {
            Ok(f) => f,
            Err(e) => c.fail("edit", format!("{hist:?}: {e:?}")),
        };
        c.step();
        let n = hist.len() as u32;
        c.check(fw.flo_id() == id && fw.flo().flo_id() == id, "edit-id", || format!("{hist:?}"));
        c.check(fw.version() == n && fw.flo().version() == n, "edit-version", || format!("{hist:?}: {}", fw.version()));
        c.check(before.version() == n - 1, "edit-before", || format!("{hist:?}"));
        c.check(fw.cache() == &page, "edit-content", || format!("{hist:?}: {:?}", fw.cache()));
        c.check(matches!(fw.verify(), Ok(true)), "edit-verify", || format!("{hist:?}"));
        let flo: Flo = (&fw).into();
        for enc in 0..3 {
            let f: Option<Flo> = match enc {
                0 => Flo::from_rmp_bytes("", &flo.to_rmp_bytes()).ok(),
                1 => serde_json::to_string(&flo).ok().and_then(|s| serde_json::from_str(&s).ok()),
                _ => serde_yaml::to_string(&flo).ok().and_then(|s| serde_yaml::from_str(&s).ok()),
            };
            c.check(f.as_ref() == Some(&flo), "edit-roundtrip", || format!("{hist:?} {enc}"));
            let back: Option<FloBlobPage> = f.and_then(|f| f.try_into().ok());
            c.check(back.as_ref() == Some(&fw), "edit-roundtrip", || format!("{hist:?} {enc}"));
        }
        // A failing edit changes nothing
        let bad = fw.edit_data_signers(Condition::Verifier(ver(1)), |p| p.set_path("x".into()), &sig(1));
        c.check(bad.is_err(), "edit-bad", || format!("{hist:?}"));
    }
    c.outcome(&hist);
}

fn f02_ids(c: &mut Ctx) {
    det::reset(1);
    // Two objects that differ in anything their ID stands for have different IDs.
    let n = 2 * 3 * 4;
    let make = |i: usize| {
        let cond = [Condition::Verifier(ver(0)), Condition::Verifier(ver(1))][i % 2].clone();
        let cuckoo = [Cuckoo::None, Cuckoo::Duration(1), Cuckoo::Duration(2)][i / 2 % 3].clone();
        let cfg = FloConfig { cuckoo, force_id: None };
        let s = sig(1 << (i % 2));
        let nonce = U256::from([(i / 6 % 2) as u8; 32]);
        let cs = flcrypto::access::ConditionSignature::empty();
        let _ = s;
        if i / 12 == 0 {
            Flo::new(rid(), cond.to_link(), &1u32, cfg, nonce, cs.clone(), cs)
        } else {
            Flo::new(rid(), cond.to_link(), &1u64, cfg, nonce, cs.clone(), cs)
        }
        .expect("flo")
    };
    let (i, j) = (c.choose(n), c.choose(n));
    c.step();
    let (a, b) = (make(i), make(j));
    c.check((a.flo_id() == b.flo_id()) == (i == j), "ids", || format!("{a:?} and {b:?}"));
    c.outcome(&(i, j));
}

pub fn f02() -> Prop {
    Prop {
        id: "F02",
        level: "exploration",
        rule: "every single-value alteration of every sample object, every pair of object type and wrapper type, and \
               every history of edits is executed on the real code; an execution is non-trivial if it is new",
        assumptions: &["ed25519 and SHA-256 are sound", "the realm of an object is not part of what is signed"],
        scenarios: |t| {
            det::reset(1);
            let mut ret = vec![];
            for (n, (name, flo)) in samples().into_iter().enumerate() {
                let mut muts = vec![];
                mutations(&json(&flo), "", &mut muts, &|v| v);
                assert!(muts.len() < 65000);
                ret.push(Scn::new(format!("alter-{name}"), move |c: &mut Ctx| f02_alter(c, n, &flo, &muts)));
            }
            ret.push(Scn::new("types", f02_types));
            ret.push(Scn::new("ids", f02_ids));
            let d = t.pick(4, 6);
            ret.push(Scn::new("edit", move |c: &mut Ctx| f02_edit(c, d)));
            ret
        },
    }
}
