//! S01, S02: key-value storage.
use std::{cell::RefCell, collections::HashMap, rc::Rc};

use flarch::data_storage::{DataStorage, DataStorageFile, DataStorageTemp};

use crate::{
    engine::*,
    scratch::Scratch,
    sysfs::{self, Act, Op, PARTS},
};

type Ds = Box<dyn DataStorage + Send>;

pub fn s01() -> Prop {
    Prop {
        id: "S01",
        level: "exploration",
        rule: "every history of the alphabet (set, get, remove, clone, reopen, other base) is executed and all keys of all handles \
               are read after every step; distinct_nontrivial counts different (history, contents)",
        assumptions: &["keys are simple names without path separators, bases do not contain underscores"],
        scenarios: s01_scenarios,
    }
}

fn big() -> String {
    "0123456789abcde\n".repeat(1024)
}

fn values() -> Vec<String> {
    vec!["a".into(), "".into(), "l1\nl2: \"x\"\n\n".into(), "\u{e9}\u{1f600}\u{0}z".into(), big()]
}

const KEYS: [&str; 3] = ["one", "two", "one_two"];

fn s01_history(c: &mut Ctx, file: bool, depth: usize, nkeys: usize, nvals: usize) {
    let scratch = file.then(Scratch::new);
    let open = |base: &str| -> Ds {
        match &scratch {
            Some(s) => Box::new(DataStorageFile::new(s.0.clone(), base.into())),
            None => DataStorageTemp::new_box(),
        }
    };
    let vals = values();
    // Every handle belongs to a store: 0 and 1
    let mut handles: Vec<(Ds, usize)> = vec![(open("base"), 0)];
    let mut model: Vec<HashMap<&str, String>> = vec![HashMap::new(), HashMap::new()];
    let mut hist = vec![];
    for _ in 0..depth {
        let extra = usize::from(handles.len() < 3) * (2 + usize::from(file));
        let op = c.choose(nkeys * nvals + nkeys + extra);
        let h = c.choose(handles.len());
        c.step();
        let store = handles[h].1;
        if op < nkeys * nvals {
            let (k, v) = (KEYS[op / nvals], &vals[op % nvals]);
            hist.push(format!("set({h},{k},{})", v.len()));
            if let Err(e) = handles[h].0.set(k, v) {
                c.fail("set", format!("{hist:?}: {e:?}"));
            }
            model[store].insert(k, v.clone());
        } else if op < nkeys * nvals + nkeys {
            let k = KEYS[op - nkeys * nvals];
            hist.push(format!("remove({h},{k})"));
            let had = model[store].remove(k).is_some();
            let res = handles[h].0.remove(k);
            // Removing what isn't there may be an error or not.
            if had && res.is_err() {
                c.fail("remove", format!("{hist:?}: {res:?}"));
            }
        } else {
            match op - nkeys * nvals - nkeys {
                0 => {
                    hist.push(format!("clone({h})"));
                    let n = (handles[h].0.clone_box(), store);
                    handles.push(n);
                }
                1 => {
                    // A different store
                    hist.push("other".into());
                    if handles.iter().all(|h| h.1 == 0) {
                        handles.push((open("other"), 1));
                    }
                }
                _ => {
                    hist.push("reopen".into());
                    handles.push((open("base"), 0));
                }
            }
        }
        for (i, (d, s)) in handles.iter().enumerate() {
            for k in &KEYS[..nkeys] {
                let want = model[*s].get(k).cloned().unwrap_or_default();
                match d.get(k) {
                    Ok(v) if v == want => {}
                    Ok(v) => c.fail(
                        "get",
                        format!("{hist:?}: handle {i} returns {v:?} instead of {want:?} for {k}"),
                    ),
                    Err(e) => {
                        // An error is also a way to say that there is nothing.
                        if model[*s].contains_key(k) {
                            c.fail("get", format!("{hist:?}: handle {i}, {k}: {e:?}"))
                        }
                    }
                }
            }
        }
    }
    c.label(|| hist.join(" "));
    c.outcome(&hist);
}

fn s01_scenarios(t: Tier) -> Vec<Scn> {
    let q = t == Tier::Quick;
    vec![
        Scn::new("temp", move |c| s01_history(c, false, if q { 4 } else { 5 }, 2, 3)),
        Scn::new("file", move |c| s01_history(c, true, if q { 4 } else { 5 }, 2, 2)),
        Scn::new("temp-values", move |c| s01_history(c, false, 3, 3, 5)),
        Scn::new("file-values", move |c| s01_history(c, true, if q { 2 } else { 3 }, 3, 5)),
        Scn::new("file-bases", |c| {
            // Storages with different bases or directories don't see each other.
            let s = Scratch::new();
            let s2 = Scratch::new();
            let bases = ["a", "b", "", "ab"];
            let (a, b) = (c.choose(4), c.choose(4));
            let (ka, kb) = (*c.pick(&KEYS), *c.pick(&KEYS));
            let same_dir = c.flip();
            c.step();
            let mut da = DataStorageFile::new(s.0.clone(), bases[a].into());
            let mut db = DataStorageFile::new(if same_dir { s.0.clone() } else { s2.0.clone() }, bases[b].into());
            da.set(ka, "va").expect("set");
            let sees = db.get(kb).unwrap_or_default();
            let same = a == b && ka == kb && same_dir;
            let what = format!("base {:?} key {ka}, base {:?} key {kb}, same directory {same_dir}", bases[a], bases[b]);
            c.check(sees == if same { "va" } else { "" }, "isolation", || what.clone());
            db.set(kb, "vb").expect("set");
            let mine = da.get(ka).unwrap_or_default();
            c.check(mine == if same { "vb" } else { "va" }, "isolation", || what.clone());
            db.remove(kb).expect("remove");
            let mine = da.get(ka).unwrap_or_default();
            c.check(mine == if same { "" } else { "va" }, "isolation", || what.clone());
            c.outcome(&(a, b, ka, kb, same_dir));
        }),
        Scn::new("file-new-directory", |c| {
            // The directory is created when needed
            let s = Scratch::new();
            let sub = *c.pick(&["", "x", "x/y", "x/y/z"]);
            let dir = format!("{}/{sub}", s.0);
            for round in 0..2 {
                let mut d = DataStorageFile::new(dir.clone(), "b".into());
                c.step();
                if round == 0 {
                    d.set("k", "v").expect("set");
                }
                c.eq(&d.get("k").expect("get"), &"v".to_string(), "directory");
            }
            c.outcome(&sub);
        }),
    ]
}

pub fn s02() -> Prop {
    Prop {
        id: "S02",
        level: "fault_enumeration",
        rule: "every file-system call of the operations is a point where the machine stops (before it, or in the middle of a write), \
               combined with every admissible loss of data and metadata which hasn't been synchronised, or where the call fails; \
               distinct_nontrivial counts the different (history, fault, files found after the restart)",
        assumptions: &[
            "metadata operations reach the disk in the order they were issued; a synchronised file also has its creation on disk",
            "data which isn't synchronised is lost, kept, kept by half, or replaced by zeroes, per file",
        ],
        scenarios: s02_scenarios,
    }
}

#[derive(Clone, Debug)]
enum Cmd {
    Set(&'static str, String),
    Remove(&'static str),
}

fn cmds() -> Vec<Vec<Cmd>> {
    let s = |k: &'static str, v: &str| Cmd::Set(k, v.to_string());
    vec![
        vec![s("one", "new value 1")],
        vec![s("one", "")],
        vec![s("one", &big())],
        vec![s("new", "first"), s("new", "second value")],
        vec![Cmd::Remove("one")],
        vec![s("one", "v2"), Cmd::Remove("one"), s("one", "v3")],
        vec![s("one", "x"), s("two", "y")],
        vec![s("big", "short")],
        vec![s("two", "l1\nl2\n"), s("one", "last")],
    ]
}

fn initial() -> Vec<(&'static str, String)> {
    vec![("one", "old value".into()), ("two", "other\nvalue\n".into()), ("big", big())]
}

struct Driver {
    // The decision, if one has been taken: the index of the call
    at: usize,
    act: Act,
    n: usize,
}

fn run_cmd(d: &mut DataStorageFile, cmd: &Cmd) -> bool {
    match cmd {
        Cmd::Set(k, v) => d.set(k, v).is_ok(),
        Cmd::Remove(k) => d.remove(k).is_ok(),
    }
}

// Number of calls and their kind, when nothing fails.
fn dry_run(hist: &[Cmd]) -> Vec<Op> {
    let s = Scratch::new();
    let mut d = DataStorageFile::new(s.0.clone(), "b".into());
    for (k, v) in initial() {
        d.set(k, &v).expect("set");
    }
    sysfs::enter(&s.0, &s.files(), |_| Act::Do);
    for cmd in hist {
        run_cmd(&mut d, cmd);
    }
    let ses = sysfs::leave().unwrap();
    ses.log.into_iter().filter(|o| !matches!(o, Op::Close { .. })).collect()
}

fn prepare(hist: &[Cmd]) -> (Scratch, DataStorageFile, HashMap<&'static str, String>) {
    let _ = hist;
    let s = Scratch::new();
    let mut d = DataStorageFile::new(s.0.clone(), "b".into());
    let mut model = HashMap::new();
    for (k, v) in initial() {
        d.set(k, &v).expect("set");
        model.insert(k, v);
    }
    (s, d, model)
}

fn apply(model: &mut HashMap<&'static str, String>, cmd: &Cmd) {
    match cmd {
        Cmd::Set(k, v) => {
            model.insert(k, v.clone());
        }
        Cmd::Remove(k) => {
            model.remove(k);
        }
    }
}

fn compare(
    c: &mut Ctx,
    d: &DataStorageFile,
    before: &HashMap<&'static str, String>,
    after: &HashMap<&'static str, String>,
    what: &str,
    key: &str,
) -> Vec<String> {
    let mut seen = vec![];
    for k in ["one", "two", "big", "new"] {
        let got = match d.get(k) {
            Ok(g) => g,
            Err(e) => c.fail(key, format!("{what}: reading {k}: {e:?}")),
        };
        let b = before.get(k).cloned().unwrap_or_default();
        let a = after.get(k).cloned().unwrap_or_default();
        if got != a && got != b {
            let short = |s: &str| format!("{:?}({} bytes)", s.chars().take(20).collect::<String>(), s.len());
            c.fail(
                key,
                format!("{what}: {k} is {} instead of {} or {}", short(&got), short(&b), short(&a)),
            );
        }
        seen.push(got);
    }
    seen
}

fn s02_scenarios(t: Tier) -> Vec<Scn> {
    let mut scns = vec![];
    let mut all = cmds();
    if t == Tier::Thorough {
        // All pairs of commands
        let single: Vec<Cmd> = cmds().into_iter().flatten().collect();
        for a in &single {
            for b in &single {
                all.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    let n = all.len();
    let all = std::sync::Arc::new(all);
    for crash in [true, false] {
        let all = all.clone();
        scns.push(Scn::new(if crash { "crash" } else { "error" }, move |c| {
            let hist = all[c.choose(n)].clone();
            let ops = dry_run(&hist);
            // Where it happens
            let at = c.choose(ops.len() + 1);
            let act = if at == ops.len() {
                Act::Do
            } else if crash {
                match &ops[at] {
                    Op::Write { len, .. } => {
                        let cuts = [0, 1, len / 2, len.saturating_sub(1), *len];
                        let cut = c.choose(6);
                        if cut == 0 {
                            Act::Stop
                        } else {
                            Act::StopAfter(cuts[cut - 1])
                        }
                    }
                    _ => Act::Stop,
                }
            } else {
                match &ops[at] {
                    Op::Write { len, .. } => *c.pick(&[
                        Act::Err(libc::ENOSPC),
                        Act::Err(libc::EIO),
                        Act::Short(1.min(*len)),
                        Act::Short(len / 2),
                        Act::Err(libc::EINTR),
                    ]),
                    Op::Open { .. } => *c.pick(&[Act::Err(libc::EACCES), Act::Err(libc::ENOSPC), Act::Err(libc::EINTR)]),
                    _ => *c.pick(&[Act::Err(libc::EIO), Act::Err(libc::ENOSPC), Act::Err(libc::EINTR)]),
                }
            };
            // A short write is followed by an error, e.g., because the disk is full.
            let then_full = !crash && matches!(act, Act::Short(_)) && c.flip();
            let (s, mut d, mut model) = prepare(&hist);
            let drv = Rc::new(RefCell::new(Driver { at, act, n: 0 }));
            let drv2 = drv.clone();
            sysfs::enter(&s.0, &s.files(), move |op| {
                if matches!(op, Op::Close { .. }) {
                    return Act::Do;
                }
                let mut d = drv2.borrow_mut();
                let n = d.n;
                d.n += 1;
                if n == d.at {
                    return d.act;
                }
                if then_full && n > d.at && matches!(op, Op::Write { .. }) {
                    return Act::Err(libc::ENOSPC);
                }
                Act::Do
            });
            let mut before = model.clone();
            let mut err = None;
            for (i, cmd) in hist.iter().enumerate() {
                before = model.clone();
                let ok = run_cmd(&mut d, cmd);
                c.step();
                apply(&mut model, cmd);
                if !ok {
                    err = Some(i);
                    break;
                }
                if !crash && drv.borrow().n > at {
                    // It went well in spite of the fault
                    before = model.clone();
                }
            }
            let ses = sysfs::leave().unwrap();
            let what = format!("{hist:.100?}: {act:?} at {at} of {:.300?}", ops);
            c.label(|| what.clone());
            if !crash {
                // A failing operation must not change anything, another one must do its job.
                let now = if err.is_some() { &before } else { &model };
                let seen = compare(c, &d, now, now, &what, "write-error");
                // The storage still works.
                drop(ses);
                for (k, v) in [("one", "after"), ("new", "after2")] {
                    if d.set(k, v).is_err() || d.get(k).unwrap_or_default() != v {
                        c.fail("write-error", format!("{what}: cannot set {k} after the error"));
                    }
                }
                c.outcome(&(format!("{hist:?}"), at, format!("{act:?}"), seen));
                return;
            }
            // The machine stops, and everything which isn't for sure on the disk may get lost.
            if !ses.stopped() {
                // After the last operation: the previous value may still be there.
            }
            let first = if ses.stopped() { before.clone() } else { model.clone() };
            let lost = c.choose(ses.disk.open_meta() + 1);
            let open = ses.disk.open_data();
            let parts: HashMap<usize, usize> = open.iter().map(|i| (*i, c.choose(PARTS.len()))).collect();
            let image = ses
                .disk
                .image(lost, |i| PARTS[parts.get(&i).copied().unwrap_or(0)]);
            let what = format!("{what}, {lost} metadata operations lost, data {parts:?}");
            s.fill(&image);
            let d = DataStorageFile::new(s.0.clone(), "b".into());
            // Losing metadata brings back what has been there before earlier operations, too.
            let mut seen = vec![];
            let mut states = vec![];
            let mut m: HashMap<&'static str, String> = initial().into_iter().collect();
            states.push(m.clone());
            for cmd in &hist {
                apply(&mut m, cmd);
                states.push(m.clone());
            }
            if lost == 0 && parts.values().all(|p| *p == 0) {
                seen = compare(c, &d, &first, &model, &what, "crash");
            } else {
                for k in ["one", "two", "big", "new"] {
                    let got = match d.get(k) {
                        Ok(g) => g,
                        Err(e) => c.fail("crash", format!("{what}: reading {k}: {e:?}")),
                    };
                    if !states.iter().any(|m| m.get(k).cloned().unwrap_or_default() == got) {
                        c.fail(
                            "crash",
                            format!(
                                "{what}: {k} is {:?}({} bytes), which it never was",
                                got.chars().take(20).collect::<String>(),
                                got.len()
                            ),
                        );
                    }
                    seen.push(got);
                }
            }
            // And it is still usable
            let mut d = d;
            if d.set("one", "after").is_err() || d.get("one").unwrap_or_default() != "after" {
                c.fail("crash", format!("{what}: cannot set after the restart"));
            }
            c.outcome(&(format!("{hist:?}"), at, format!("{act:?}"), lost, seen));
        }));
    }
    scns.push(Scn::new("reading", |c| {
        // Whatever the number of bytes returned by a read, and interruptions: get returns everything.
        let (s, d, model) = prepare(&[]);
        let k = *c.pick(&["one", "two", "big"]);
        let short = *c.pick(&[Act::Short(1), Act::Short(7), Act::Err(libc::EINTR), Act::Short(4096)]);
        let every = c.flip();
        let n = Rc::new(RefCell::new(0));
        sysfs::enter(&s.0, &s.files(), move |op| {
            if !matches!(op, Op::Read { .. }) {
                return Act::Do;
            }
            *n.borrow_mut() += 1;
            if every && !matches!(short, Act::Err(_)) || *n.borrow() == 1 {
                short
            } else {
                Act::Do
            }
        });
        let got = d.get(k);
        sysfs::leave();
        c.step();
        match got {
            Ok(g) => c.check(g == model[k], "short-read", || format!("{k} {short:?}: {} bytes", g.len())),
            Err(e) => c.fail("short-read", format!("{k} {short:?}: {e:?}")),
        }
        c.outcome(&(k, format!("{short:?}"), every));
    }));
    scns
}
