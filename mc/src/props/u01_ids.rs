//! U01: Node IDs.
use std::{collections::HashMap, str::FromStr};

use flarch::nodeids::{NodeIDs, U256};

use crate::engine::*;

pub fn prop() -> Prop {
    Prop {
        id: "U01",
        level: "exploration",
        rule: "every string, list pair, part split and map is built once by the explorer; an execution is \
               non-trivial if its (operation, input, result) triple has not been seen before",
        assumptions: &[
            "IDs of the alphabet (first/last bit, first/last byte set, all zero, all one) stand for all IDs",
        ],
        scenarios,
    }
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let depth = t.pick(4, 5);
    let list = t.pick(4, 5);
    vec![
        Scn::new("parse", move |c| {
            // Sorted by: hex digits, then everything which could confuse a parser.
            let alpha = [
                "0", "9", "a", "F", "f", "1", "+", "-", " ", "g", "x", "_", "\u{e9}", "\u{2603}", "\0", "\u{ff11}",
            ];
            let n = c.choose(depth + 1);
            let s: String = (0..n).map(|_| *c.pick(&alpha)).collect();
            parse(c, s);
        }),
        Scn::new("parse-long", |c| {
            let n = *c.pick(&[30usize, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 67, 128, 1000]);
            let fill = *c.pick(&["0", "7", "fE", "\u{e9}", "\u{2603}"]);
            let mut s = String::new();
            while s.len() + fill.len() <= n {
                s.push_str(fill);
            }
            // One special character somewhere
            let sp = *c.pick(&["", "g", "+", "\u{e9}", "\u{2603}", " ", "a"]);
            let pos = *c.pick(&[0usize, 1, 2, 29, 30, 31, 61, 62, 63, 64]);
            let mut pos = pos.min(s.len());
            while !s.is_char_boundary(pos) {
                pos -= 1;
            }
            s.insert_str(pos, sp);
            parse(c, s);
        }),
        Scn::new("encode", |c| {
            let b = bytes(c);
            let id = U256::from(b);
            c.step();
            c.label(|| format!("{b:?}"));
            c.check(id.to_bytes() == b, "to_bytes", || format!("{b:?}"));
            c.check(id.bytes().as_ref() == b, "bytes", || format!("{b:?}"));
            let hex = format!("{id:x}");
            c.check(U256::from_str(&hex).ok() == Some(id), "hex", || hex.clone());
            c.check(
                U256::from_str(&hex.to_uppercase()).ok() == Some(id),
                "hex-upper",
                || hex.clone(),
            );
            let short = format!("{id}");
            c.check(hex.starts_with(&short) && short.len() >= 8, "display", || short.clone());
            let y = serde_yaml::to_string(&id).expect("yaml");
            c.check(
                serde_yaml::from_str::<U256>(&y).ok() == Some(id),
                "yaml",
                || y.clone(),
            );
            let j = serde_json::to_string(&id).expect("json");
            c.check(serde_json::from_str::<U256>(&j).ok() == Some(id), "json", || j.clone());
            let m = rmp_serde::to_vec(&id).expect("rmp");
            c.check(rmp_serde::from_slice::<U256>(&m).ok() == Some(id), "rmp", || format!("{m:?}"));
            let m = rmp_serde::to_vec_named(&id).expect("rmp");
            c.check(rmp_serde::from_slice::<U256>(&m).ok() == Some(id), "rmp", || format!("{m:?}"));
            // A second one: equality and order
            let b2 = bytes(c);
            let id2 = U256::from(b2);
            c.check((id == id2) == (b == b2), "equal", || format!("{b:?} {b2:?}"));
            c.check(id.cmp(&id2) == b.cmp(&b2), "order", || format!("{b:?} {b2:?}"));
            c.outcome(&(b, b2));
        }),
        Scn::new("lists", move |c| {
            let a = ids(c, list);
            let b = ids(c, list);
            lists(c, a, b);
        }),
        Scn::new("slice", |c| {
            let n = c.choose(5);
            let a: Vec<U256> = (0..n).map(|i| id(i)).collect();
            let from = c.choose(n + 1);
            let len = c.choose(n - from + 1);
            c.step();
            let s = NodeIDs::from(&a).slice(from, len);
            c.eq(&s.0, &a[from..from + len].to_vec(), "slice");
            c.outcome(&(n, from, len));
        }),
        Scn::new("hash-parts", move |c| {
            // All ways of splitting domain + content: no two different inputs may give the same ID.
            let mut all: HashMap<U256, String> = HashMap::new();
            let max = t.pick(5usize, 7);
            let mut n = 0u64;
            for len in 0..=max {
                // All byte strings over {0, 1, 2}, all positions where domain and parts end
                let words = 3usize.pow(len as u32);
                for w in 0..words {
                    let mut v = w;
                    let content: Vec<u8> = (0..len)
                        .map(|_| {
                            let b = (v % 3) as u8;
                            v /= 3;
                            b
                        })
                        .collect();
                    for dom in 0..=len {
                        let d = std::str::from_utf8(&content[..dom]).unwrap().to_string();
                        let rest = &content[dom..];
                        for parts in splits(rest) {
                            let sl: Vec<&[u8]> = parts.iter().map(|p| p.as_slice()).collect();
                            let id = U256::hash_domain_parts(&d, &sl);
                            if id != U256::hash_domain_parts(&d, &sl) {
                                c.fail("hash-repeat", format!("{d:?} {parts:?}"));
                            }
                            n += 1;
                            c.step();
                            let key = format!("{d:?} {parts:?}");
                            if let Some(old) = all.insert(id, key.clone()) {
                                c.fail("hash-collision", format!("{old} and {key}"));
                            }
                        }
                    }
                }
            }
            all.clear();
            // Parts around the lengths where the encoding of the length changes
            for len in [0usize, 1, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 512, 513, 65535, 65536, 65537] {
                for dom in ["", "a"] {
                    for split in [None, Some(0), Some(1), Some(127), Some(128), Some(129), Some(255), Some(256)] {
                        let data = vec![0x81u8; len];
                        let parts: Vec<&[u8]> = match split {
                            None => vec![&data],
                            Some(s) if s <= len => vec![&data[..s], &data[s..]],
                            _ => continue,
                        };
                        let id = U256::hash_domain_parts(dom, &parts);
                        n += 1;
                        c.step();
                        let key = format!("{dom:?} {len} {split:?}");
                        if let Some(old) = all.insert(id, key.clone()) {
                            c.fail("hash-collision", format!("{old} and {key}"));
                        }
                    }
                }
            }
            c.label(|| format!("{n} different inputs"));
            c.outcome(&n);
        }),
        Scn::new("hash-data", |c| {
            let mut all: HashMap<U256, Vec<u8>> = HashMap::new();
            for w in 0..256usize {
                for len in 0..3usize {
                    let d: Vec<u8> = vec![w as u8; len];
                    let id = U256::hash_data(&d);
                    c.step();
                    if let Some(old) = all.insert(id, d.clone()) {
                        if old != d {
                            c.fail("hash-collision", format!("{old:?} and {d:?}"));
                        }
                    }
                }
            }
            c.outcome(&all.len());
        }),
        Scn::new("hash-vec", |c| {
            let mut all: HashMap<U256, String> = HashMap::new();
            let vals = ["", "a", "b", "ab"];
            for n in 0..4u32 {
                for w in 0..4usize.pow(n) {
                    let v: Vec<String> = (0..n).map(|i| vals[w / 4usize.pow(i) % 4].to_string()).collect();
                    for d in ["", "a"] {
                        let id = U256::from_vec(d, &v);
                        c.step();
                        let key = format!("{d} {v:?}");
                        if let Some(old) = all.insert(id, key.clone()) {
                            c.fail("hash-collision", format!("{old} and {key}"));
                        }
                    }
                }
            }
            c.outcome(&all.len());
        }),
        Scn::new("hash-map", |c| {
            // Equal maps have the same ID, however they have been built, different maps have different IDs.
            let mut all: HashMap<U256, Vec<(usize, usize)>> = HashMap::new();
            for w in 0..81usize {
                let content: Vec<(usize, usize)> = (0..4)
                    .map(|k| (k, w / 3usize.pow(k as u32) % 3))
                    .filter(|(_, v)| *v > 0)
                    .collect();
                let mut first = None;
                for rep in 0..4 {
                    let mut m = HashMap::new();
                    let mut cc = content.clone();
                    if rep % 2 == 1 {
                        cc.reverse();
                    }
                    for (k, v) in &cc {
                        m.insert(format!("k{k}"), *v);
                    }
                    let id = U256::hash_domain_hashmap("d", &m);
                    c.step();
                    if *first.get_or_insert(id) != id {
                        c.fail("hash-map-order", format!("equal maps {content:?} have different IDs"));
                    }
                }
                if let Some(old) = all.insert(first.unwrap(), content.clone()) {
                    c.fail("hash-collision", format!("{old:?} and {content:?}"));
                }
            }
            c.outcome(&all.len());
        }),
    ]
}

fn splits(b: &[u8]) -> Vec<Vec<Vec<u8>>> {
    // Splits of b in 0 (only if empty), 1, 2 or 3 parts which may be empty.
    let mut out = vec![];
    if b.is_empty() {
        out.push(vec![]);
    }
    out.push(vec![b.to_vec()]);
    for i in 0..=b.len() {
        out.push(vec![b[..i].to_vec(), b[i..].to_vec()]);
        for j in i..=b.len() {
            out.push(vec![b[..i].to_vec(), b[i..j].to_vec(), b[j..].to_vec()]);
        }
    }
    out
}

fn parse(c: &mut Ctx, s: String) {
    c.step();
    c.label(|| format!("from_str({s:?})"));
    let hex = s.bytes().all(|b| b.is_ascii_hexdigit());
    let res = U256::from_str(&s);
    match &res {
        Ok(id) => {
            let want = format!("{:0<64}", s.to_lowercase());
            if !hex || s.len() > 64 {
                c.fail("parse-accepts", format!("{s:?} is accepted as {id:x}"));
            }
            c.eq(&format!("{id:x}"), &want, "parse-value");
        }
        Err(_) => {
            if hex && s.len() % 2 == 0 && s.len() <= 64 {
                c.fail("parse-refuses", format!("{s:?} is refused"));
            }
        }
    }
    c.outcome(&(s, res.is_ok()));
}

fn bytes(c: &mut Ctx) -> [u8; 32] {
    let mut b = [*c.pick(&[0u8, 0xff, 0x5a]); 32];
    let pos = *c.pick(&[0usize, 1, 7, 8, 15, 16, 31]);
    b[pos] = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x0a]);
    b
}

fn id(i: usize) -> U256 {
    let mut b = [0u8; 32];
    match i {
        0 => b[31] = 1,
        1 => b[0] = 1,
        2 => {}
        3 => b = [0xff; 32],
        _ => b[16] = i as u8,
    }
    b.into()
}

fn ids(c: &mut Ctx, max: usize) -> Vec<U256> {
    let n = c.choose(max + 1);
    (0..n).map(|_| id(c.choose(4))).collect()
}

fn lists(c: &mut Ctx, a: Vec<U256>, b: Vec<U256>) {
    c.step();
    c.label(|| format!("{a:?} / {b:?}"));
    let (na, nb) = (NodeIDs::from(&a), NodeIDs::from(b.clone()));
    let any = a.iter().any(|x| b.contains(x));
    c.eq(&na.contains_any(&nb), &any, "contains_any");
    let all = b.iter().all(|x| a.contains(x));
    c.eq(&na.contains_all(&nb), &all, "contains_all");

    let mut m = na.clone();
    m.merge(nb.clone());
    // Everything from a stays where it is, and the new ones are added behind, in order.
    c.check(m.0.len() >= a.len() && m.0[..a.len()] == a, "merge-keeps", || {
        format!("{a:?} merge {b:?} = {m:?}")
    });
    let added: Vec<U256> = m.0[a.len()..].to_vec();
    let want: Vec<U256> = b.iter().filter(|x| !a.contains(x)).cloned().collect();
    let dedup = |v: &[U256]| {
        let mut o: Vec<U256> = vec![];
        for x in v {
            if !o.contains(x) {
                o.push(*x);
            }
        }
        o
    };
    c.eq(&dedup(&added), &dedup(&want), "merge-adds");
    // Lists without duplicates (which is what all users have) stay without duplicates.
    if dedup(&b).len() == b.len() {
        c.eq(&added, &want, "merge-dup");
    }

    let mut r = na.clone();
    let removed = r.remove_missing(&nb);
    let keep: Vec<U256> = a.iter().filter(|x| b.contains(x)).cloned().collect();
    let gone: Vec<U256> = a.iter().filter(|x| !b.contains(x)).cloned().collect();
    c.eq(&r.0, &keep, "remove_missing-keep");
    c.eq(&removed.0, &gone, "remove_missing-gone");

    let mut r = na.clone();
    let removed = r.remove_existing(&nb);
    c.eq(&r.0, &gone, "remove_existing-keep");
    c.eq(&removed.0, &keep, "remove_existing-gone");
    let pos = |v: &[U256]| -> Vec<usize> { v.iter().map(|x| (0..4).find(|i| id(*i) == *x).unwrap()).collect() };
    c.outcome(&(pos(&a), pos(&b)));
}
