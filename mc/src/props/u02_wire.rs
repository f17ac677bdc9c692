//! U02: what modules send and store stays the same.
use std::collections::BTreeMap;

use bytes::Bytes;
use flarch::nodeids::U256;
use flcrypto::access::Condition;
use flmodules::{
    dht_storage::{core::Cuckoo, intern::MessageClosest},
    flo::{
        flo::FloWrapper,
        realm::RealmID,
    },
    gossip_events::core::{Category, Event, EventsStorage},
    router::messages::NetworkWrapper,
    web_proxy::response::ResponseMessage,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::engine::*;

pub fn prop() -> Prop {
    Prop {
        id: "U02",
        level: "exploration",
        rule: "every text up to a length over an alphabet of characters with a meaning, every short block of bytes, and IDs with all prefixes \
               are sent as every shape of message through the wrappers of the modules, and stored as events; distinct_nontrivial counts \
               different prefixes of the texts",
        assumptions: &["the transport itself is covered by N06"],
        scenarios,
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Msg {
    Text(String),
    Two(String, u64),
    Named { a: String, b: Option<String>, c: BTreeMap<String, u8> },
    List(Vec<String>),
    Keys(BTreeMap<String, String>),
    In(Box<Msg>),
    Body(U256, String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Unit {
    One,
    Two,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Plain {
    id: U256,
    kind: Unit,
    text: String,
    list: Vec<(String, i64)>,
}

/// From one node to another
fn through<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Ctx, key: &str, m: &T) {
    c.step();
    let nw = match NetworkWrapper::wrap_yaml("module", m) {
        Ok(n) => n,
        Err(e) => c.fail(format!("wrap {key}"), format!("{m:?}: {e}")),
    };
    c.check(nw.unwrap_yaml::<T>("other").is_none(), "other-module", || format!("{m:?}"));
    let wire = match serde_yaml::to_string(&nw) {
        Ok(w) => w,
        Err(e) => c.fail(format!("wire {key}"), format!("{m:?}: {e}")),
    };
    let got: NetworkWrapper = match serde_yaml::from_str(&wire) {
        Ok(n) => n,
        Err(e) => c.fail(format!("unreadable {key}"), format!("{m:?}: {e}")),
    };
    c.check(got == nw, "wrapper", || format!("{nw:?} arrives as {got:?}"));
    let got = got.unwrap_yaml::<T>("module");
    c.check(got.as_ref() == Some(m), key, || format!("{m:?} arrives as {got:?}"));
}

fn shapes(c: &mut Ctx, t: &str) {
    let s = t.to_string();
    through(c, "text", &s);
    through(c, "variant", &Msg::Text(s.clone()));
    through(c, "pair", &Msg::Two(s.clone(), 7));
    through(
        c,
        "struct",
        &Msg::Named {
            a: s.clone(),
            b: Some(s.clone()),
            c: BTreeMap::new(),
        },
    );
    through(c, "list", &Msg::List(vec![s.clone(), "x".into(), s.clone()]));
    // YAML can't have long names in maps, which no message has
    if s.len() < 100 {
        through(c, "keys", &Msg::Keys([(s.clone(), s.clone())].into()));
    }
    through(c, "nested", &Msg::In(Box::new(Msg::In(Box::new(Msg::Body(U256::from([11; 32]), s.clone()))))));
    through(
        c,
        "plain",
        &Plain {
            id: U256::zero(),
            kind: Unit::Two,
            text: s.clone(),
            list: vec![(s.clone(), -1)],
        },
    );
}

fn event(t: &str) -> Event {
    Event {
        category: Category::TextMessage,
        src: U256::from([3; 32]),
        created: 5,
        msg: t.to_string(),
    }
}

fn events(c: &mut Ctx, t: &str) {
    through(c, "event", &event(t));
    // Only one category has events
    let mut s = EventsStorage::new();
    s.add_event(event(t));
    let data = match s.get() {
        Ok(d) => d,
        Err(e) => c.fail("store", format!("{t:?}: {e}")),
    };
    let mut l = EventsStorage::new();
    let r = l.set(&data);
    c.check(r.is_ok(), "load", || format!("{t:?}: {r:?}"));
    c.check(l == s, "stored", || format!("{t:?}: {l:?}"));
}

fn object(c: &mut Ctx, t: &str) {
    let f = FloWrapper::from_type_cuckoo(RealmID::from(U256::from([1; 32])), Condition::Pass, Cuckoo::None, t.to_string(), &[]);
    let f = match f {
        Ok(f) => f,
        Err(e) => c.fail("object", format!("{t:?}: {e}")),
    };
    through(c, "flo", &MessageClosest::StoreFlo(f.into()));
}

const CHARS: &[&str] = &[
    "0", "1", "b", "o", "x", "e", "f", "a", "n", "N", "y", ".", "-", "+", "_", ":", " ", "\n", "\t", "\r", "'", "\"", "\\", "#", ",", "~", "!", "&",
    "*", "|", ">", "<", "=", "%", "@", "`", "?", "[", "]", "{", "}", "/", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "\u{e9}", "\u{1f600}",
];

fn texts(c: &mut Ctx, len: usize, f: &dyn Fn(&mut Ctx, &str)) {
    let first = *c.pick(CHARS);
    let second = *c.pick(CHARS);
    if len > 1 {
        f(c, &format!("{first}{second}"));
    }
    let rest = CHARS.len().pow(len as u32 - 2);
    for mut k in 0..rest {
        let mut t = format!("{first}{second}");
        for _ in 2..len {
            t.push_str(CHARS[k % CHARS.len()]);
            k /= CHARS.len();
        }
        f(c, &t);
    }
    c.outcome(&(first, second));
}

/// Texts of digits, which could be numbers
fn digits(c: &mut Ctx, len: usize) {
    let all = ["0", "1", "7", "9", "a", "b", "e", "f", "o", "x", ".", "-", "+", "_"];
    let first = *c.pick(&all);
    let second = *c.pick(&all);
    for n in 0..all.len().pow(len as u32 - 2) {
        let mut k = n;
        let mut t = format!("{first}{second}");
        while k > 0 {
            t.push_str(all[k % all.len()]);
            k /= all.len();
        }
        through(
            c,
            "struct",
            &Msg::Named {
                a: t.clone(),
                b: None,
                c: BTreeMap::new(),
            },
        );
        through(c, "pair", &Msg::Two(t, 1));
    }
    c.outcome(&(first, second));
}

fn words(c: &mut Ctx, f: &dyn Fn(&mut Ctx, &str)) {
    let words: Vec<String> = super::s03_config::word_list();
    let w = c.pick(&words).clone();
    f(c, &w);
    c.outcome(&w);
}

/// Blocks of bytes, written as hexadecimal digits
fn blocks(c: &mut Ctx) {
    let a = c.choose(256) as u8;
    through(c, "block", &ResponseMessage::Body(Bytes::from(vec![a])));
    for b in 0..=255u8 {
        through(c, "block", &ResponseMessage::Body(Bytes::from(vec![a, b])));
        if [0, 1, 0x10, 0x11, 0xe0, 0x0e, 0x99, 0xff].contains(&b) {
            for d in 0..=255u8 {
                through(c, "block", &ResponseMessage::Body(Bytes::from(vec![a, b, d])));
            }
            for fill in [0u8, 0x01, 0x10, 0x11, 0x99] {
                for len in [3, 4, 5, 7, 8, 9, 15, 16, 31, 100] {
                    let mut v = vec![fill; len];
                    v[0] = a;
                    v[1] = b;
                    through(c, "block", &ResponseMessage::Body(Bytes::from(v)));
                }
            }
        }
    }
    c.outcome(&a);
}

fn ids(c: &mut Ctx) {
    let a = c.choose(256) as u8;
    for b in 0..=255u8 {
        for fill in [0u8, 0x01, 0x11, 0x99] {
            let mut v = [fill; 32];
            v[0] = a;
            v[1] = b;
            let id = U256::from(v);
            through(c, "id", &Msg::Body(id, "".into()));
            through(c, "ids", &vec![(id, id)]);
        }
    }
    c.outcome(&a);
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let len = t.pick(3, 4);
    vec![
        Scn::new("single characters", move |c: &mut Ctx| {
            let k = c.choose(CHARS.len() + 1);
            let t = if k == 0 { "" } else { CHARS[k - 1] };
            shapes(c, t);
            events(c, t);
            object(c, t);
            c.outcome(&k);
        }),
        Scn::new("words", |c: &mut Ctx| {
            words(c, &|c, t| {
                shapes(c, t);
                events(c, t);
                object(c, t);
            })
        }),
        Scn::new("short texts", move |c: &mut Ctx| texts(c, 2, &shapes)),
        Scn::new("texts in a struct", move |c: &mut Ctx| {
            texts(c, len, &|c, t| {
                through(
                    c,
                    "struct",
                    &Msg::Named {
                        a: t.to_string(),
                        b: None,
                        c: BTreeMap::new(),
                    },
                )
            })
        }),
        Scn::new("events", move |c: &mut Ctx| texts(c, t.pick(2, 3), &events)),
        Scn::new("objects", move |c: &mut Ctx| texts(c, 2, &object)),
        Scn::new("numbers", move |c: &mut Ctx| digits(c, t.pick(5, 6))),
        Scn::new("blocks", blocks),
        Scn::new("IDs", ids),
    ]
}
