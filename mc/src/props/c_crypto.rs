//! C01, C02: conditions and signatures.
use std::sync::OnceLock;

use bytes::Bytes;
use flarch::nodeids::U256;
use flcrypto::{
    access::{BadgeID, BadgeLink, Condition, ConditionLink, ConditionSignature, VersionSpec},
    signer::{KeyPairID, Signature, Signer, SignerTrait, Verifier, VerifierTrait},
    tofrombytes::ToFromBytes,
};
use futures::executor::block_on;

use crate::engine::*;

pub const N: usize = 3;

/// Three signers which are always the same.
pub fn signers() -> &'static [Signer] {
    static S: OnceLock<Vec<Signer>> = OnceLock::new();
    S.get_or_init(|| {
        (0..N as u8)
            .map(|i| {
                let key = ed25519_dalek::SigningKey::from_bytes(&[i + 1; 32]);
                let v = serde_json::json!({"Ed25519": {"keypair": key}});
                serde_json::from_value(v).expect("signer")
            })
            .collect()
    })
}

pub fn ver(i: usize) -> Verifier {
    static V: OnceLock<Vec<Verifier>> = OnceLock::new();
    V.get_or_init(|| signers().iter().map(|s| s.verifier()).collect())[i].clone()
}

pub fn vid(i: usize) -> KeyPairID {
    static V: OnceLock<Vec<KeyPairID>> = OnceLock::new();
    V.get_or_init(|| signers().iter().map(|s| s.get_id()).collect())[i].clone()
}

fn bid(i: u8) -> BadgeID {
    U256::from([i + 0x40; 32]).into()
}

/// The abstract syntax of a rule.
#[derive(Clone, Debug, PartialEq, Hash, Eq)]
pub enum R {
    V(usize),
    /// Kind (exact, minimal, maximal), badge, version
    B(u8, u8, u32),
    N(u32, Vec<R>),
    Pass,
    Fail,
}

/// A supplied badge: id, version, rule
type B = (u8, u32, R);

pub fn spec(kind: u8, id: u8, v: u32) -> VersionSpec<BadgeID> {
    match kind {
        0 => VersionSpec::Exact(bid(id), v),
        1 => VersionSpec::Minimal(bid(id), v),
        _ => VersionSpec::Maximal(bid(id), v),
    }
}

impl R {
    pub fn link(&self) -> ConditionLink {
        match self {
            R::V(i) => ConditionLink::Verifier(vid(*i)),
            R::B(k, id, v) => ConditionLink::Badge(spec(*k, *id, *v)),
            R::N(t, l) => ConditionLink::NofT(*t, l.iter().map(|r| r.link()).collect()),
            R::Pass => ConditionLink::Pass,
            R::Fail => ConditionLink::Fail,
        }
    }

    /// Only for rules without badges.
    pub fn cond(&self) -> Condition {
        match self {
            R::V(i) => Condition::Verifier(ver(*i)),
            R::B(..) => unreachable!(),
            R::N(t, l) => Condition::NofT(*t, l.iter().map(|r| r.cond()).collect()),
            R::Pass => Condition::Pass,
            R::Fail => Condition::Fail,
        }
    }

    /// The boolean meaning of the rule, given the supplied badges and the signers.
    fn eval(&self, badges: &[B], s: usize, above: &[u8]) -> bool {
        match self {
            R::V(i) => s & (1 << i) != 0,
            R::B(k, id, v) => {
                // A badge which is part of itself isn't met by itself.
                if above.contains(id) {
                    return false;
                }
                let ok = |ver: u32| match k {
                    0 => ver == *v,
                    1 => ver >= *v,
                    _ => ver <= *v,
                };
                let above = [above, &[*id]].concat();
                badges
                    .iter()
                    .find(|b| b.0 == *id && ok(b.1))
                    .is_some_and(|b| b.2.eval(badges, s, &above))
            }
            R::N(t, l) => l.iter().filter(|r| r.eval(badges, s, above)).count() as u64 >= *t as u64,
            R::Pass => true,
            R::Fail => false,
        }
    }

    pub fn met(&self, s: usize) -> bool {
        self.eval(&[], s, &[])
    }
}

fn resolve(r: &R, badges: &[B]) -> Condition {
    let bl: Vec<BadgeLink> = badges
        .iter()
        .map(|(id, version, r)| BadgeLink {
            id: bid(*id),
            version: *version,
            condition: r.link(),
        })
        .collect();
    let bl = &bl;
    block_on(r.link().to_condition(
        &|v: VersionSpec<BadgeID>| async move { bl.iter().find(|b| b.fits_version(v.clone())).cloned() },
        &|id: KeyPairID| async move { (0..N).find(|i| vid(*i) == id).map(ver) },
    ))
}

fn subset(s: usize) -> Vec<usize> {
    (0..N).filter(|i| s & (1 << i) != 0).collect()
}

/// All signatures on one digest
fn sigs() -> &'static (U256, Vec<Signature>) {
    static S: OnceLock<(U256, Vec<Signature>)> = OnceLock::new();
    S.get_or_init(|| {
        let d = U256::hash_data(b"digest");
        (d, signers().iter().map(|s| s.sign(&d.bytes()).expect("sign")).collect())
    })
}

fn check_rule(c: &mut Ctx, r: &R, badges: &[B], s: usize) {
    c.step();
    c.label(|| format!("{r:?} with badges {badges:?} and signers {:?}", subset(s)));
    let cond = resolve(r, badges);
    let want = r.eval(badges, s, &[]);
    let (digest, all) = sigs();
    let mut cs = ConditionSignature::new(cond.clone());
    for i in subset(s) {
        cs.signatures.insert(vid(i), all[i].clone());
    }
    let got = cs.verify_digest(digest);
    c.check(got.as_ref().ok() == Some(&want), "verify", || {
        format!("{r:?} with badges {badges:?} and signers {:?}: {got:?} instead of {want}", subset(s))
    });
    let ids: Vec<KeyPairID> = subset(s).into_iter().map(vid).collect();
    let can = cond.can_sign(&ids.iter().collect::<Vec<_>>());
    c.check(can == want, "can_sign", || {
        format!("{r:?} with badges {badges:?} and signers {:?}: {can} instead of {want}", subset(s))
    });
    c.outcome(&(r, badges, s));
}

fn tree(c: &mut Ctx, depth: usize, width: usize) -> R {
    let leaves = N + 2;
    match c.choose(leaves + if depth > 0 { 1 } else { 0 }) {
        i if i < N => R::V(i),
        i if i == N => R::Pass,
        i if i == N + 1 => R::Fail,
        _ => {
            let n = c.choose(width + 1);
            let t = c.choose(n + 2) as u32;
            R::N(t, (0..n).map(|_| tree(c, depth - 1, if depth == 1 { width } else { width.min(2) })).collect())
        }
    }
}

fn badge_tables(c: &mut Ctx) -> Vec<B> {
    let n = c.choose(3);
    (0..n)
        .map(|_| {
            let id = c.choose(2) as u8;
            let v = *c.pick(&[0u32, 1, 2, u32::MAX]);
            let r = c
                .pick(&[
                    R::V(0),
                    R::V(1),
                    R::Pass,
                    R::N(2, vec![R::V(0), R::V(1)]),
                    R::B(0, 1, 0),
                    R::B(1, 0, 0),
                    R::N(1, vec![R::B(1, 1, 1), R::V(2)]),
                ])
                .clone();
            (id, v, r)
        })
        .collect()
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "every tuple of rule, supplied badges and signers is built once and verified by the real code; an \
               execution is non-trivial if its tuple has not been seen before",
        assumptions: &["ed25519 and SHA-256 are sound", "the caller supplies badges by BadgeLink::fits_version"],
        scenarios: |t| {
            let mut ret = vec![];
            let (w1, w2) = t.pick((3, 2), (4, 3));
            ret.push(Scn::new("flat", move |c: &mut Ctx| {
                let r = tree(c, 1, w1 + 1);
                let s = c.choose(1 << N);
                check_rule(c, &r, &[], s);
            }));
            ret.push(Scn::new("nested", move |c: &mut Ctx| {
                let n = 1 + c.choose(2);
                let tt = c.choose(n + 2) as u32;
                let l = (0..n)
                    .map(|i| if i == 0 { tree(c, 1, w2) } else { tree(c, 1, 1) })
                    .collect();
                let s = c.choose(1 << N);
                check_rule(c, &R::N(tt, l), &[], s);
            }));
            if t == Tier::Thorough {
                ret.push(Scn::new("deep", move |c: &mut Ctx| {
                    let tt = c.choose(3) as u32;
                    let r = R::N(tt, vec![tree(c, 2, 2)]);
                    let s = c.choose(1 << N);
                    check_rule(c, &r, &[], s);
                }));
            }
            ret.push(Scn::new("badges", move |c: &mut Ctx| {
                let b = R::B(c.choose(3) as u8, c.choose(2) as u8, *c.pick(&[0, 1, 2, u32::MAX]));
                let badges = badge_tables(c);
                let r = match c.choose(t.pick(3, 5)) {
                    0 => b,
                    1 => R::N(2, vec![b, R::V(2)]),
                    2 => R::N(2, vec![b.clone(), b]),
                    3 => R::N(1, vec![R::V(2), b]),
                    _ => R::N(2, vec![R::N(1, vec![b, R::Fail]), R::V(2)]),
                };
                let s = c.choose(1 << N);
                check_rule(c, &r, &badges, s);
            }));
            // Supplied badges which hold each other
            ret.push(Scn::new("badge-loops", move |c: &mut Ctx| {
                let opts = [
                    R::B(1, 0, 0),
                    R::B(1, 1, 0),
                    R::N(1, vec![R::B(1, 0, 0), R::V(0)]),
                    R::N(1, vec![R::B(2, 1, 5), R::V(1)]),
                    R::N(1, vec![R::B(1, 0, 0), R::B(1, 1, 0)]),
                    R::N(2, vec![R::B(0, 0, 0), R::V(0)]),
                ];
                let b0 = c.pick(&opts).clone();
                let b1 = c.pick(&opts).clone();
                let r = c.pick(&opts).clone();
                let s = c.choose(1 << N);
                check_rule(c, &r, &[(0, 0, b0), (1, 0, b1)], s);
            }));
            // Large thresholds
            ret.push(Scn::new("threshold", move |c: &mut Ctx| {
                let tt = *c.pick(&[0, 1, 2, 3, 255, 256, 257, 65535, 65536, u32::MAX - 1, u32::MAX]);
                let n = *c.pick(&[0usize, 1, 2, 255, 256, 257]);
                let m = c.pick(&[R::V(0), R::Pass, R::Fail]).clone();
                let s = c.choose(1 << N);
                check_rule(c, &R::N(tt, vec![m; n]), &[], s);
            }));
            // A condition corresponds to exactly the rule it was made of
            ret.push(Scn::new("link", move |c: &mut Ctx| {
                let a = tree(c, 1, 2);
                let b = if c.flip() { tree(c, 1, 2) } else { R::N(1, vec![tree(c, 1, 2)]) };
                c.step();
                let got = a.cond().equal_link(&b.link());
                c.check(got == (a == b), "equal_link", || format!("{a:?} and {b:?}: {got}"));
                let got = a.cond().hash() == b.cond().hash();
                c.check(got == (a == b), "hash", || format!("{a:?} and {b:?}: {got}"));
                let link = a.cond().to_link();
                c.check(link == a.link(), "to_link", || format!("{a:?}: {link:?}"));
                c.outcome(&(a, b));
            }));
            ret
        },
    }
}

// ---------------------------------------------------------------- C02

fn conds() -> Vec<(R, Vec<B>)> {
    let b = |v: u32, r: R| vec![(0u8, v, r)];
    let v = R::V;
    vec![
        (v(0), vec![]),
        (v(1), vec![]),
        (R::N(1, vec![v(0)]), vec![]),
        (R::N(1, vec![v(0), v(1)]), vec![]),
        (R::N(1, vec![v(1), v(0)]), vec![]),
        (R::N(2, vec![v(0), v(1)]), vec![]),
        (R::N(2, vec![v(0), v(1), v(2)]), vec![]),
        (R::N(2, vec![v(0), v(1), R::Pass]), vec![]),
        (R::N(2, vec![v(0), v(1), R::Fail]), vec![]),
        (R::N(1, vec![R::N(1, vec![v(0)]), v(1)]), vec![]),
        (R::N(1, vec![R::N(1, vec![v(0), v(1)])]), vec![]),
        (R::B(0, 0, 0), b(0, v(0))),
        (R::B(1, 0, 0), b(0, v(0))),
        (R::B(1, 0, 0), b(1, v(0))),
        (R::B(1, 0, 0), b(1, v(1))),
        (R::B(2, 0, 1), b(1, v(0))),
        (R::B(1, 1, 0), vec![(1, 0, v(0))]),
    ]
}

fn msgs() -> [Bytes; 5] {
    ["", "a", "b", "\0", "a\0"].map(|s| Bytes::from(s.as_bytes().to_vec()))
}

/// All valid signatures of every (condition, message, signer), made by the real code.
fn signed() -> &'static Vec<Vec<Vec<Option<Signature>>>> {
    static S: OnceLock<Vec<Vec<Vec<Option<Signature>>>>> = OnceLock::new();
    S.get_or_init(|| {
        conds()
            .iter()
            .map(|(r, b)| {
                msgs()
                    .iter()
                    .map(|m| {
                        signers()
                            .iter()
                            .enumerate()
                            .map(|(i, s)| {
                                let mut cs = ConditionSignature::new(resolve(r, b));
                                cs.sign_msg(s, m).ok()?;
                                cs.signatures.get(&vid(i)).cloned()
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect()
    })
}

fn c02_swap(c: &mut Ctx, msgs_n: usize) {
    let conds = conds();
    let signed = signed();
    // The signatures have been made for this
    let (ci, mi) = (c.choose(conds.len()), c.choose(msgs_n));
    // And are presented for this
    let (cj, mj) = (c.choose(conds.len()), c.choose(msgs_n));
    let s = c.choose(1 << N);
    // One signature might be for something else
    let alt = c.choose(6);
    let who = if alt > 0 { c.choose(N) } else { 0 };
    c.step();
    let mut cs = ConditionSignature::new(resolve(&conds[cj].0, &conds[cj].1));
    let mut valid = 0usize;
    let mut n = 0;
    for i in subset(s) {
        let Some(sig) = signed[ci][mi][i].clone() else { continue };
        n += 1;
        cs.signatures.insert(vid(i), sig);
        if (ci, mi) == (cj, mj) {
            valid |= 1 << i;
        }
    }
    let mut all_valid = (ci, mi) == (cj, mj);
    if alt > 0 {
        // Exchange the signature of 'who'
        let other = (who + 1) % N;
        let new = match alt {
            1 => signed[ci][mi][other].clone(),
            2 => signed[ci][(mi + 1) % msgs_n][who].clone(),
            3 => signed[(ci + 1) % conds.len()][mi][who].clone(),
            4 => Some(signers()[who].sign(&msgs()[mj]).expect("sign")),
            _ => None,
        };
        let Some(old) = cs.signatures.get(&vid(who)).cloned() else {
            c.trivial();
            return;
        };
        match new {
            Some(new) if new == old => {}
            Some(new) => {
                // It might now be the right one
                if signed[cj][mj][who].as_ref() == Some(&new) {
                    valid |= 1 << who;
                } else {
                    valid &= !(1 << who);
                    all_valid = false;
                }
                cs.signatures.insert(vid(who), new);
            }
            None => {
                cs.signatures.remove(&vid(who));
                valid &= !(1 << who);
            }
        }
    }
    let (r, b) = &conds[cj];
    let want = r.eval(b, valid, &[]);
    let got = cs.verify_msg(&msgs()[mj]);
    let what = || {
        format!(
            "signed for {:?} and message {mi} by {:?}, presented for {:?} and message {mj}, alteration {alt} of {who}: {got:?}",
            conds[ci],
            subset(s),
            conds[cj]
        )
    };
    c.label(what);
    let msg = what();
    if all_valid {
        c.check(got.as_ref().ok() == Some(&want), "valid", || msg);
    } else {
        c.check(!matches!(got, Ok(true)) || want, "forged", || msg);
    }
    c.outcome(&(ci, mi, cj, mj, s, alt, who, n));
}

fn c02_bytes(c: &mut Ctx) {
    let s = &sigs().1[0];
    let digest = sigs().0;
    let mut b = s.bytes().to_vec();
    let kind = c.choose(4);
    match kind {
        0 => {
            // All lengths
            let l = c.choose(131);
            b.resize(l, *c.pick(&[0, 0xff]));
        }
        1 => {
            let bit = c.choose(512);
            b[bit / 8] ^= 1 << (bit % 8);
        }
        2 => {
            // Exchanged bytes
            let i = c.choose(64);
            b[i] = *c.pick(&[0, 1, 0x7f, 0x80, 0xff]);
        }
        _ => {
            // The same signature modulo the order of the group
            let l: [u8; 32] = [
                0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0,
                0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
            ];
            let times = c.choose(15);
            for _ in 0..times {
                let mut carry = 0u16;
                for i in 0..32 {
                    carry += b[32 + i] as u16 + l[i] as u16;
                    b[32 + i] = carry as u8;
                    carry >>= 8;
                }
            }
        }
    }
    c.step();
    let same = b == s.bytes().to_vec();
    let mut cs = ConditionSignature::new(match c.choose(2) {
        0 => Condition::Verifier(ver(0)),
        _ => Condition::NofT(1, vec![Condition::Fail, Condition::Verifier(ver(0))]),
    });
    let sig: Signature = b.clone().into();
    cs.signatures.insert(vid(0), sig.clone());
    let got = cs.verify_digest(&digest);
    c.label(|| format!("{b:?}"));
    c.check(matches!(got, Ok(true)) == same, "bytes", || format!("{got:?} for {b:?}"));
    let got = ver(0).verify(&digest.bytes(), &sig);
    c.check(got.is_ok() == same, "verifier", || format!("{got:?} for {b:?}"));
    c.outcome(&b);
}

/// Keys for which nobody needs to know a secret
fn c02_weak(c: &mut Ctx) {
    use base64::prelude::*;
    let points: Vec<[u8; 32]> = [
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    ]
    .iter()
    .map(|s| {
        let mut b = [0u8; 32];
        for (i, b) in b.iter_mut().enumerate() {
            *b = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex");
        }
        b
    })
    .collect();
    let key = *c.pick(&points);
    let r = *c.pick(&points);
    let m = c.choose(32);
    c.step();
    let json = format!("{{\"Ed25519\":{{\"verifier\":\"{}\"}}}}", BASE64_STANDARD.encode(key));
    let Ok(v) = serde_json::from_str::<Verifier>(&json) else {
        c.trivial();
        return;
    };
    let mut sig = r.to_vec();
    sig.extend([0u8; 32]);
    let got = v.verify(&Bytes::from(vec![m as u8]), &sig.clone().into());
    c.check(got.is_err(), "weak", || format!("the key {key:?} accepts {sig:?}"));
    c.outcome(&(key, r, m));
}

/// What a damaged or forged condition accepts without anybody's signature
fn free(cond: &Condition) -> bool {
    match cond {
        Condition::Verifier(_) | Condition::NotAvailable | Condition::Fail => false,
        Condition::Pass => true,
        Condition::Badge(_, b) => free(&b.condition),
        Condition::NofT(t, l) => l.iter().filter(|c| free(c)).count() as u64 >= *t as u64,
    }
}

fn c02_encoded(c: &mut Ctx, all: bool) {
    let conds = conds();
    let list: Vec<usize> = if all { (0..conds.len()).collect() } else { vec![0, 5, 11] };
    let ci = *c.pick(&list);
    let (r, b) = &conds[ci];
    let msg = &msgs()[1];
    let mut cs = ConditionSignature::new(resolve(r, b));
    for i in 0..2 {
        if let Some(s) = &signed()[ci][1][i] {
            cs.signatures.insert(vid(i), s.clone());
        }
    }
    // The order of the signatures must not depend on the hasher
    let enc = c.choose(3);
    let mut raw = match enc {
        0 => cs.to_rmp_bytes().to_vec(),
        1 => serde_json::to_value(&cs).map(|v| v.to_string()).expect("json").into_bytes(),
        _ => {
            let v = serde_json::to_value(&cs).expect("json");
            serde_yaml::to_string(&v).expect("yaml").into_bytes()
        }
    };
    let kind = c.choose(3);
    let pos = c.choose(raw.len());
    match kind {
        0 => raw.truncate(pos),
        1 => {
            let v = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'0', b'A', b'\n']);
            raw[pos] = v;
        }
        _ => {
            raw.remove(pos);
        }
    }
    c.step();
    let text = || String::from_utf8(raw.clone()).ok();
    let parsed: Option<ConditionSignature> = match enc {
        0 => ConditionSignature::from_rmp_bytes("", &Bytes::from(raw.clone())).ok(),
        1 => text().and_then(|t| serde_json::from_str(&t).ok()),
        _ => text().and_then(|t| serde_yaml::from_str(&t).ok()),
    };
    c.label(|| format!("condition {ci}, encoding {enc}, damage {kind} at {pos}: {parsed:?}"));
    let Some(p) = parsed else {
        c.outcome(&raw);
        return;
    };
    let got = p.verify_msg(msg);
    let _ = p.verify_cond(&p.condition, &sigs().0);
    let _ = (format!("{:?} {}", p, p.condition), p.condition.to_link(), p.condition.hash());
    let _ = p.condition.equal_link(&r.link());
    if matches!(got, Ok(true)) {
        let mut rest = cs.clone();
        // It might have lost a signature which isn't needed
        rest.signatures.retain(|k, v| p.signatures.get(k) == Some(v));
        let still = p.condition == cs.condition && matches!(rest.verify_msg(msg), Ok(true));
        c.check(still || free(&p.condition), "damaged", || {
            format!("condition {ci}, encoding {enc}, damage {kind} at {pos}: {p:?} is accepted")
        });
    }
    c.outcome(&raw);
}

/// Everything that can be sent as a condition can be used without a crash
fn c02_hostile(c: &mut Ctx) {
    fn hostile(c: &mut Ctx, depth: usize) -> Condition {
        match c.choose(if depth > 0 { 7 } else { 5 }) {
            0 => Condition::NotAvailable,
            1 => Condition::Fail,
            2 => Condition::Pass,
            3 => Condition::Verifier(ver(0)),
            4 => Condition::NofT(*c.pick(&[0, 1, u32::MAX]), vec![]),
            5 => {
                let k = c.choose(3) as u8;
                Condition::Badge(
                    spec(k, 0, *c.pick(&[0, 1])),
                    flcrypto::access::Badge {
                        id: bid(c.choose(2) as u8),
                        version: *c.pick(&[0, u32::MAX]),
                        condition: Box::new(hostile(c, depth - 1)),
                    },
                )
            }
            _ => {
                let t = *c.pick(&[0, 1, 2]);
                let n = if depth > 1 { 1 } else { 1 + c.choose(2) };
                Condition::NofT(t, (0..n).map(|_| hostile(c, depth - 1)).collect())
            }
        }
    }
    let cond = hostile(c, 2);
    let links = [
        R::V(0),
        R::V(1),
        R::B(0, 0, 0),
        R::B(1, 0, 0),
        R::N(1, vec![R::B(1, 0, 0)]),
        R::N(1, vec![R::V(0), R::V(1)]),
        R::N(0, vec![]),
        R::N(3, vec![]),
        R::Fail,
    ];
    let l = c.pick(&links).clone();
    let sigs_kind = c.choose(2);
    c.step();
    c.label(|| format!("{cond:?} for {l:?}"));
    let mut cs = ConditionSignature::new(cond.clone());
    if sigs_kind == 1 {
        cs.signatures.insert(vid(0), vec![].into());
    }
    let v = cs.verify_msg(&msgs()[0]);
    c.check(!matches!(v, Ok(true)) || free(&cond), "hostile", || format!("{cond:?} is accepted"));
    let _ = (cond.to_link(), format!("{cond} {cond:?}"), cond.hash(), cond.has_verifier(&vid(0)));
    // A condition that anybody can meet never stands for a rule that needs a signature
    let eq = cond.equal_link(&l.link());
    c.check(!eq || !free(&cond) || l.eval(&[], 0, &[]), "stands-for", || format!("{cond:?} stands for {l:?}"));
    c.outcome(&(format!("{cond:?}"), format!("{l:?}")));
}

fn c02_roundtrip(c: &mut Ctx) {
    let conds = conds();
    let ci = c.choose(conds.len());
    let mi = c.choose(5);
    let s = c.choose(1 << N);
    let enc = c.choose(3);
    c.step();
    let mut cs = ConditionSignature::new(resolve(&conds[ci].0, &conds[ci].1));
    let all: Vec<&Signer> = subset(s).into_iter().map(|i| &signers()[i]).collect();
    let allowed = subset(s).into_iter().all(|i| signed()[ci][mi][i].is_some());
    let res = cs.signers_msg(&all, &msgs()[mi]);
    c.check(res.is_ok() == allowed, "signers", || format!("{:?} by {:?}: {res:?}", conds[ci], subset(s)));
    let back: ConditionSignature = match enc {
        0 => ConditionSignature::from_rmp_bytes("", &cs.to_rmp_bytes()).expect("rmp"),
        1 => serde_json::from_str(&serde_json::to_string(&cs).expect("json")).expect("json"),
        _ => serde_yaml::from_str(&serde_yaml::to_string(&cs).expect("yaml")).expect("yaml"),
    };
    c.check(back == cs, "roundtrip", || format!("{cs:?} became {back:?}"));
    if allowed {
        let want = conds[ci].0.eval(&conds[ci].1, s, &[]);
        let got = back.verify_msg(&msgs()[mi]);
        c.check(got.as_ref().ok() == Some(&want), "verify", || format!("{cs:?}: {got:?}"));
    }
    c.outcome(&(ci, mi, s, enc));
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "every combination of signed and presented condition, message, signers and alteration is verified once \
               by the real code; an execution is non-trivial if its combination has not been seen before",
        assumptions: &["ed25519 and SHA-256 are sound"],
        scenarios: |t| {
            vec![
                Scn::new("swap", move |c: &mut Ctx| c02_swap(c, t.pick(2, 5))),
                Scn::new("bytes", c02_bytes),
                Scn::new("weak", c02_weak),
                Scn::new("encoded", move |c: &mut Ctx| c02_encoded(c, t == Tier::Thorough)),
                Scn::new("hostile", c02_hostile),
                Scn::new("roundtrip", c02_roundtrip),
            ]
        },
    }
}
