//! S03: the configuration of a node.
use flarch::{
    data_storage::{DataStorage, DataStorageFile, DataStorageTemp},
    nodeids::NodeID,
};
use flmodules::{
    nodeconfig::{NodeConfig, NodeInfo},
    Modules,
};
use flnode::node::Node;

use crate::{det, engine::*, scratch::Scratch};

pub fn prop() -> Prop {
    Prop {
        id: "S03",
        level: "exploration",
        rule: "every name from the given sets, all combinations of modules, every configuration of the older formats, and every history of \
               starts and changes is executed with the real storages; distinct_nontrivial counts different (configuration, history)",
        assumptions: &["the storage returns what has been stored, see S01 and S02"],
        scenarios,
    }
}

fn same(c: &mut Ctx, got: &NodeConfig, want: &NodeConfig, what: &dyn Fn() -> String) {
    c.check(got.info.get_id() == want.info.get_id(), "id", what);
    c.check(got.keypair == want.keypair, "keypair", what);
    c.check(got.info.pubkey == want.info.pubkey, "pubkey", what);
    c.check(got.info.name == want.info.name, "name", || format!("{:?} instead of {:?}: {}", got.info.name, want.info.name, what()));
    c.check(got.info.client == want.info.client, "client", || {
        format!("{:?} instead of {:?}: {}", got.info.client, want.info.client, what())
    });
    c.check(got.info.modules.bits() == want.info.modules.bits(), "modules", || {
        format!("{:x} instead of {:x}: {}", got.info.modules.bits(), want.info.modules.bits(), what())
    });
}

fn signs(c: &mut Ctx, got: &NodeConfig, as_node: &NodeInfo, what: &dyn Fn() -> String) {
    let msg = [7u8; 32];
    c.check(as_node.verify(&msg, &got.sign(msg)), "sign", what);
}

/// One storage, which can be opened several times.
struct Store {
    temp: DataStorageTemp,
    dir: Option<Scratch>,
}

impl Store {
    fn new(file: bool) -> Self {
        Self {
            temp: DataStorageTemp::new(),
            dir: file.then(Scratch::new),
        }
    }
    fn open(&self) -> Box<dyn DataStorage> {
        match &self.dir {
            Some(d) => Box::new(DataStorageFile::new(d.0.clone(), "fledger".into())),
            None => self.temp.clone_box(),
        }
    }
}

fn started(mut m: Modules) -> Modules {
    m.set(Modules::WEBPROXY_REQUESTS, true);
    m
}

/// The texts survive all encodings.
fn text(c: &mut Ctx, base: &NodeConfig, name: &str, client: &str, deep: bool) {
    let mut conf = base.clone();
    conf.info.name = name.into();
    conf.info.client = client.into();
    let what = || format!("name {name:?}, client {client:?}");
    c.tag(name);
    same(c, &NodeConfig::decode(&conf.encode()), &conf, &what);
    match NodeInfo::decode(&conf.info.encode()) {
        Ok(i) => {
            let got = NodeConfig { info: i, keypair: conf.keypair.clone() };
            same(c, &got, &conf, &what);
        }
        Err(e) => c.fail("info", format!("{e}: {}", what())),
    }
    let json = serde_json::to_string(&conf.info).expect("json");
    match serde_json::from_str::<NodeInfo>(&json) {
        Ok(info) => same(c, &NodeConfig { info, keypair: conf.keypair.clone() }, &conf, &what),
        Err(e) => c.fail("json", format!("{e}: {}", what())),
    }
    if deep {
        let s = Store::new(true);
        Node::set_config(s.open(), &conf.encode()).expect("set");
        conf.info.modules = started(conf.info.modules);
        for _ in 0..2 {
            match Node::get_config(s.open()) {
                Ok(got) => same(c, &got, &conf, &what),
                Err(e) => c.fail("get", format!("{e}: {}", what())),
            }
        }
    }
    c.step();
}

fn base() -> NodeConfig {
    det::reset(5);
    NodeConfig::new()
}

/// Every Unicode scalar value, in the middle, at the end, and at the start
fn characters(c: &mut Ctx, block: usize) {
    let b = c.choose(0x110000 / block);
    let conf = base();
    for i in b * block..(b + 1) * block {
        if let Some(ch) = char::from_u32(i as u32) {
            text(c, &conf, &format!("{ch}"), &format!("a{ch}b"), false);
            text(c, &conf, &format!("a {ch}"), &format!("{ch} a"), false);
        }
    }
    c.outcome(&b);
}

const SPECIAL: &[&str] = &[
    "-", ":", " ", "#", "'", "\"", "\n", "\t", "\r", "0", "1", "e", ".", "~", "!", "&", "*", "[", "]", "{", "}", "%", "@", "`", "|", ">", "<",
    "?", ",", "x", "_", "+", "=", "\\", "/", "\u{0}", "\u{85}", "\u{2028}", "\u{feff}", "\u{e9}", "\u{1f600}", "n", "a", "y",
];

fn combinations(c: &mut Ctx, len: usize) {
    let conf = base();
    let first = *c.pick(SPECIAL);
    let second = *c.pick(SPECIAL);
    // The last characters are tried in a loop
    let rest = SPECIAL.len().pow(len as u32 - 2);
    for mut k in 0..rest {
        let mut name = format!("{first}{second}");
        for _ in 2..len {
            name.push_str(SPECIAL[k % SPECIAL.len()]);
            k /= SPECIAL.len();
        }
        text(c, &conf, &name, "client", false);
    }
    c.outcome(&(first, second));
}

pub fn word_list() -> Vec<String> {
    [
        "", " ", "  ", "null", "Null", "NULL", "true", "True", "false", "yes", "no", "on", "off", "y", "n", ".inf", "-.inf", ".nan", "1e3", "0x1f", "0o7",
        "0b1", "1_000", "1.0", "-1", "+1", "2001-01-01", "12:30:45", "  a", "a  ", "\n", "a\n", "\na", "a\n\nb\n", "---", "--- a", "...", "- a", "a: b",
        "a:", ":a", "? a", "!!str a", "!a", "&a", "*a", "|", "|-", ">", "> a", "%YAML", "{}", "[]", "{a: b}", "[a]", "#", "a #b", "a# b", "'", "''", "\"",
        "\"\"", "'a'", "\"a\"", "<<", "=", "~", "@a", "`a", "\u{feff}a", "a\u{0}b", "caf\u{e9}", "\u{1f600}\u{1f600}", "NodeConfigV1", "info: x\nkeypair: y",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([1usize, 64, 79, 80, 81, 255, 256, 257, 1000, 5000].iter().flat_map(|n| {
        ["a", "a ", " a", "a\n", "\u{e9}", "\"", "'"].iter().map(move |s| s.repeat(*n))
    }))
    .collect()
}

fn words(c: &mut Ctx) {
    let words = word_list();
    let name = c.pick(&words).clone();
    let client = c.pick(&["Node", "", "Mozilla/5.0 (X11; Linux) \u{e9}: 'x'\n"]).to_string();
    text(c, &base(), &name, &client, true);
    c.outcome(&(name, client));
}

/// All histories of starts, changed names and changed modules
fn history(c: &mut Ctx, depth: usize) {
    let file = c.flip();
    det::reset(9);
    let s = Store::new(file);
    let mut want: Option<NodeConfig> = None;
    let mut ids: Vec<NodeID> = vec![];
    let mut hist = vec![];
    for step in 0..depth {
        let e = c.choose(8);
        hist.push(e);
        c.step();
        c.label(|| format!("{e}"));
        let h = hist.clone();
        let what = move || format!("file {file}: {h:?}");
        match e {
            // Another start
            0 | 1 => {
                let got = Node::get_config(if e == 0 { s.open() } else { s.open().clone_box() });
                let got = match got {
                    Ok(g) => g,
                    Err(e) => c.fail("start", format!("{e}: {}", what())),
                };
                match &mut want {
                    Some(w) => {
                        w.info.modules = started(w.info.modules);
                        same(c, &got, w, &what);
                    }
                    None => {
                        c.check(!ids.contains(&got.info.get_id()), "id-reused", &what);
                        c.check(got.info.modules.contains(Modules::WEBPROXY_REQUESTS), "webproxy", &what);
                    }
                }
                signs(c, &got, &got.info, &what);
                ids.push(got.info.get_id());
                want = Some(got);
            }
            // Changes by the user
            2..=5 => {
                if let Some(w) = &mut want {
                    match e {
                        2 => w.info.name = format!("name {step}: '\u{e9}'"),
                        3 => w.info.name = "".into(),
                        4 => w.info.client = format!("~ {step}\n"),
                        _ => w.info.modules = Modules::from_bits_truncate((step as u32 * 77) & 0xff),
                    }
                    Node::set_config(s.open(), &w.encode()).expect("set");
                } else {
                    return c.trivial();
                }
            }
            // Other data in the same storage
            6 => s.open().set("gossip_events", &format!("other {step}")).expect("set"),
            // The configuration is gone
            _ => {
                let _ = s.open().remove("nodeConfig");
                want = None;
            }
        }
    }
    let h = hist.clone();
    let what = move || format!("file {file}: {h:?} and a last start");
    if let Some(mut w) = want {
        let got = Node::get_config(s.open()).expect("get");
        w.info.modules = started(w.info.modules);
        same(c, &got, &w, &what);
        signs(c, &got, &w.info, &what);
    }
    c.outcome(&(file, hist));
}

/// All combinations of modules
fn modules(c: &mut Ctx) {
    let file = c.flip();
    let bits = c.choose(256) as u32;
    let s = Store::new(file);
    let mut conf = base();
    conf.info.modules = Modules::from_bits_truncate(bits);
    let what = || format!("modules {bits:x}");
    same(c, &NodeConfig::decode(&conf.encode()), &conf, &what);
    Node::set_config(s.open(), &conf.encode()).expect("set");
    conf.info.modules = started(conf.info.modules);
    for _ in 0..3 {
        let got = Node::get_config(s.open()).expect("get");
        same(c, &got, &conf, &what);
        signs(c, &got, &conf.info, &what);
        c.step();
    }
    c.outcome(&(file, bits));
}

fn b64(b: &[u8]) -> String {
    use base64::Engine as _;
    base64::engine::general_purpose::STANDARD.encode(b)
}

const V1: &[(&str, u32)] = &[
    ("ENABLE_STAT", 1),
    ("ENABLE_RAND", 2),
    ("ENABLE_GOSSIP", 4),
    ("ENABLE_PING", 8),
    ("ENABLE_WEBPROXY", 16),
    ("ENABLE_WEBPROXY_REQUESTS", 32),
];

/// Texts as they have been written by the first version.
fn old(c: &mut Ctx) {
    let file = c.flip();
    // The keys are different, so their encodings have different padding and characters
    det::reset(c.choose(8) as u64);
    let mut want = NodeConfig::new();
    let bits = match c.choose(65) {
        64 => None,
        b => Some(b as u32),
    };
    want.info.name = c.pick(&["name", "", "a: 'b' \u{e9}", "null"]).to_string();
    want.info.client = c.pick(&["Node", ""]).to_string();
    want.info.modules = Modules::from_bits_truncate(bits.unwrap_or(0x3f));
    let names: Vec<&str> = V1.iter().filter(|(_, b)| bits.unwrap_or(0) & b > 0).map(|(n, _)| *n).collect();
    let q = |s: &str| serde_json::to_string(s).expect("quoted");
    let mut t = format!(
        "---\nNodeConfigV1:\n  info:\n    name: {}\n    client: {}\n    pubkey: {}\n",
        q(&want.info.name),
        q(&want.info.client),
        q(&b64(&want.info.pubkey))
    );
    if bits.is_some() {
        t += &format!("    modules: {}\n", q(&names.join(" | ")));
    }
    t += &format!("  keypair: {}\n", q(&b64(&want.keypair)));
    let what = || format!("modules {bits:?}: {t}");
    same(c, &NodeConfig::decode(&t), &want, &what);
    let s = Store::new(file);
    Node::set_config(s.open(), &t).expect("set");
    want.info.modules = started(want.info.modules);
    for _ in 0..2 {
        let got = Node::get_config(s.open()).expect("get");
        same(c, &got, &want, &what);
        signs(c, &got, &want.info, &what);
        c.step();
    }
    c.outcome(&t);
}

/// The second version of the information of a node, as it may be sent by older nodes
fn old_info(c: &mut Ctx) {
    let mut want = base();
    let bits = c.choose(64) as u32;
    want.info.name = c.pick(&["name", "", "a: 'b' \u{e9}", "null"]).to_string();
    want.info.modules = Modules::from_bits_truncate(bits);
    let names: Vec<&str> = V1.iter().filter(|(_, b)| bits & b > 0).map(|(n, _)| *n).collect();
    let json = serde_json::json!({"NodeInfoV2": {
        "name": want.info.name, "client": want.info.client, "pubkey": b64(&want.info.pubkey), "modules": names.join(" | ")}});
    let yaml = serde_yaml::to_string(&json).expect("yaml");
    for got in [serde_json::from_value::<NodeInfo>(json.clone()).ok(), NodeInfo::decode(&yaml).ok()] {
        match got {
            Some(info) => {
                let keypair = want.keypair.clone();
                same(c, &NodeConfig { info, keypair }, &want, &|| format!("{yaml}"));
            }
            None => c.fail("old-info", yaml),
        }
    }
    // The first version had no public key, and only must not crash
    for t in ["NodeInfoV1: {}", "NodeInfoV1:\n  a: b\n"] {
        if let Ok(i) = NodeInfo::decode(t) {
            let _ = i.get_id();
            c.check(!i.verify(&[1u8; 32], &[0u8; 64]), "v1", || t.into());
        }
    }
    c.step();
    c.outcome(&(bits, want.info.name));
}

/// Without a readable configuration, a node starts with a new identity, and keeps it.
fn unreadable(c: &mut Ctx) {
    let file = c.flip();
    let full = base().encode();
    let lines = full.lines().count();
    let k = c.choose(9 + lines);
    let t = match k {
        0..=8 => ["", " ", "{}", "[]", "null", "text", "NodeConfigV1: {}", "NodeConfigV9:\n  info: 1", "\u{0}"][k].to_string(),
        // Missing lines
        k => full.lines().enumerate().filter(|(i, _)| *i != k - 9).map(|(_, l)| format!("{l}\n")).collect(),
    };
    let s = Store::new(file);
    Node::set_config(s.open(), &t).expect("set");
    if let Ok(first) = Node::get_config(s.open()) {
        let what = || format!("unreadable: {t:?}");
        signs(c, &first, &first.info, &what);
        for _ in 0..2 {
            let got = Node::get_config(s.open()).expect("get");
            same(c, &got, &first, &what);
            c.step();
        }
    }
    c.outcome(&(file, t));
}

fn scenarios(t: Tier) -> Vec<Scn> {
    let mut ret = vec![
        Scn::new("histories", move |c: &mut Ctx| history(c, t.pick(4, 6))),
        Scn::new("modules", modules),
        Scn::new("words", words),
        Scn::new("older format", old),
        Scn::new("older information", old_info),
        Scn::new("unreadable", unreadable),
        Scn::new("combinations 2", |c: &mut Ctx| combinations(c, 2)),
        Scn::new("combinations 3", |c: &mut Ctx| combinations(c, 3)),
        Scn::new("characters", |c: &mut Ctx| characters(c, 1024)),
    ];
    if t == Tier::Thorough {
        ret.push(Scn::new("combinations 4", |c: &mut Ctx| combinations(c, 4)));
    }
    ret
}
