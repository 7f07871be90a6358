//! The storage back end as such, and what errors and debug representations tell.

use crate::cli::*;
use crate::crypto;
use crate::engine::*;
use crate::gens;
use crate::model::*;
use crate::refimpl;
use crate::{ensure, viol};
use pfp::error::Error;
use pfp::storage_io::{FileIO, StorageIO};
use pfp::storage_types::{CharacterSet, Password};
use proptest::collection::vec;
use proptest::prelude::*;
use secrecy::SecretString;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::PathBuf;

// C30: the back end is a map

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum MapOp {
    Set(u8, String),
    /// Any key
    SetKey(String, String),
    Remove(u8),
    Clear,
    Flush,
    /// Saving is made impossible
    FailedFlush,
    Load,
    /// An instance without data for the same file, not saved
    Fresh,
    /// Somebody else replaces the file
    Foreign(Vec<(u8, String)>),
    FailedLoad(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MapCase {
    place: u8,
    ops: Vec<MapOp>,
}

const KEYS: [&str; 14] = [
    "salt", "hmac-secret", "site:a", "site:a:b", "", " ", "a", "A", "ä", "a\u{308}", "quote\"d", "back\\slash", "\u{0}", "data",
];

fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => gens::text(20),
        2 => "[a-zA-Z0-9+/=_]{0,60}",
        1 => vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec((0u32..0x20).prop_map(|c| char::from_u32(c).unwrap()), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (1usize..3000, "[a-zé\"]").prop_map(|(n, s)| s.repeat(n)),
    ]
    .boxed()
}

fn map_case() -> BoxedStrategy<MapCase> {
    let op = prop_oneof![
        8 => (any::<u8>(), any_text()).prop_map(|(k, v)| MapOp::Set(k, v)),
        2 => (any_text(), any_text()).prop_map(|(k, v)| MapOp::SetKey(k, v)),
        4 => any::<u8>().prop_map(MapOp::Remove),
        1 => Just(MapOp::Clear),
        4 => Just(MapOp::Flush),
        1 => Just(MapOp::FailedFlush),
        3 => Just(MapOp::Load),
        1 => Just(MapOp::Fresh),
        1 => vec((any::<u8>(), any_text()), 0..4).prop_map(MapOp::Foreign),
        1 => any::<u8>().prop_map(MapOp::FailedLoad),
    ];
    (0u8..6, vec(op, 1..40)).prop_map(|(place, ops)| MapCase { place, ops }).boxed()
}

type Map = BTreeMap<String, String>;

fn same(io: &FileIO, model: &Map, what: &str) -> R {
    let mut keys: Vec<&String> = io.keys().collect();
    keys.sort();
    let expected: Vec<&String> = model.keys().collect();
    ensure!(keys == expected, "{}: keys {:?} instead of {:?}", what, keys, expected);
    for (k, v) in model {
        ensure!(io.contains_key(k), "{}: {:?} is reported missing", what, k);
        match io.get(k) {
            Ok(value) => ensure!(value == v, "{}: value of {:?} is {:?} instead of {:?}", what, k, value, v),
            Err(e) => viol!("{}: value of {:?} cannot be read: {:?}", what, k, e),
        }
    }
    for k in KEYS.iter().copied().chain(["site:", "SALT", "salt ", "missing"]) {
        if !model.contains_key(k) {
            ensure!(!io.contains_key(k), "{}: {:?} is reported present", what, k);
            ensure!(matches!(io.get(k), Err(Error::KeyMissing)), "{}: {:?} for the missing {:?}", what, io.get(k), k);
        }
    }
    Ok(())
}

fn map_test(ctx: &Ctx, case: &MapCase, obs: &mut Obs) -> R {
    let dir = ctx.dir();
    let key = |n: &u8| KEYS[*n as usize % KEYS.len()].to_owned();
    let path: PathBuf = match case.place {
        0 => dir.join("storage.json"),
        1 => dir.join("one").join("two").join("three").join("storage.json"),
        2 => dir.join("no extension é"),
        3 => dir.join("x").join("..").join("storage.json"),
        4 => {
            std::fs::create_dir_all(dir.join("real")).map_err(infra("directory"))?;
            std::os::unix::fs::symlink("real", dir.join("link")).map_err(infra("link"))?;
            dir.join("link").join("storage.json")
        }
        _ => {
            std::fs::write(dir.join("real.json"), refimpl::file_for(&Default::default())).map_err(infra("file"))?;
            std::os::unix::fs::symlink("real.json", dir.join("storage.json")).map_err(infra("link"))?;
            dir.join("storage.json")
        }
    };
    let mut io = FileIO::new(&path);
    let mut model = Map::new();
    let mut disk: Option<Map> = if case.place >= 5 { Some(Map::new()) } else { None };
    let mut saves = 0;
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("operation {} {:?}", i, op);
        match op {
            MapOp::Set(k, v) => {
                io.set(key(k), v.clone());
                model.insert(key(k), v.clone());
            }
            MapOp::SetKey(k, v) => {
                io.set(k.clone(), v.clone());
                model.insert(k.clone(), v.clone());
            }
            MapOp::Remove(k) => {
                let r = io.remove(&key(k));
                match model.remove(&key(k)) {
                    Some(_) => ensure!(r.is_ok(), "{}: {:?}", what, r),
                    None => ensure!(matches!(r, Err(Error::KeyMissing)), "{}: {:?} although missing", what, r),
                }
            }
            MapOp::Clear => {
                io.clear();
                model.clear();
            }
            MapOp::Flush => {
                let r = io.flush();
                ensure!(r.is_ok(), "{}: {:?}", what, r);
                disk = Some(model.clone());
                saves += 1;
            }
            MapOp::FailedFlush => {
                // A directory in place of the file, nothing can be saved
                let aside = dir.join("aside");
                if disk.is_some() {
                    std::fs::rename(&path, &aside).map_err(infra("rename"))?;
                } else if let Some(parent) = path.parent() {
                    std::fs::create_dir_all(parent).map_err(infra("directory"))?;
                }
                std::fs::create_dir(&path).map_err(infra("directory"))?;
                let r = io.flush();
                let undone = std::fs::remove_dir(&path);
                if disk.is_some() {
                    std::fs::rename(&aside, &path).map_err(infra("rename"))?;
                }
                ensure!(matches!(r, Err(Error::FileWriteFailure { .. })), "{}: {:?} with a directory in place of the file", what, r);
                ensure!(undone.is_ok(), "{}: something was saved into the directory: {:?}", what, undone);
                obs.class("failed save");
            }
            MapOp::Load => match (&disk, FileIO::load(&path)) {
                (Some(d), Ok(loaded)) => {
                    io = loaded;
                    model = d.clone();
                    obs.class("loaded");
                }
                (None, Err(Error::FileReadFailure { .. })) => obs.class("no file"),
                (d, r) => viol!("{}: {:?} with the file containing {:?}", what, r, d),
            },
            MapOp::Fresh => {
                io = FileIO::new(&path);
                model.clear();
            }
            MapOp::Foreign(values) => {
                let d: Map = values.iter().map(|(k, v)| (key(k), v.clone())).collect();
                if let Some(parent) = path.parent() {
                    std::fs::create_dir_all(parent).map_err(infra("directory"))?;
                }
                std::fs::write(&path, refimpl::file_for(&d.clone().into_iter().collect())).map_err(infra("file"))?;
                disk = Some(d);
            }
            MapOp::FailedLoad(n) => {
                let bad = dir.join("bad.json");
                let files: [&[u8]; 12] = [
                    b"",
                    b"{}",
                    b"{\"application\":\"pfp\",\"format\":3}",
                    b"{\"application\":\"pfp\",\"format\":2,\"data\":{}}",
                    b"{\"application\":\"pfp\",\"format\":4,\"data\":{}}",
                    b"{\"application\":\"pfp2\",\"format\":3,\"data\":{}}",
                    b"{\"application\":\"PfP\",\"format\":3,\"data\":{}}",
                    b"{\"application\":\"pfp\",\"format\":3,\"data\":{}} x",
                    b"{\"application\":\"pfp\",\"format\":3,\"data\":{\"a\":1}}",
                    b"{\"application\":\"pfp\",\"format\":3,\"data\":{\"a\":null}}",
                    b"{\"application\":\"pfp\",\"format\":3,\"data\":{},\"more\":1}",
                    b"{\"application\":\"pfp\",\"format\":\"3\",\"data\":{}}",
                ];
                let file = files[*n as usize % files.len()];
                std::fs::write(&bad, file).map_err(infra("file"))?;
                let r = FileIO::load(&bad);
                ensure!(matches!(r, Err(Error::InvalidJson { .. })), "{}: {:?} for {:?}", what, r, String::from_utf8_lossy(file));
                ensure!(std::fs::read(&bad).ok().as_deref() == Some(file), "{}: loading changed the file", what);
                let _ = std::fs::remove_file(&bad);
            }
        }
        same(&io, &model, &what)?;
        // Saved by nothing but flush
        match (&disk, std::fs::read(&path)) {
            (None, Err(_)) => {}
            (Some(d), Ok(bytes)) => match refimpl::parse_file(&bytes) {
                Ok(raw) => {
                    let raw: Map = raw.into_iter().collect();
                    ensure!(raw == *d, "{}: the file contains {:?} instead of {:?}", what, raw, d);
                }
                Err(e) => viol!("{}: the file is no longer valid: {}", what, e),
            },
            (d, r) => viol!("{}: file {:?} while expecting {:?}", what, r, d),
        }
    }
    if saves > 0 && case.ops.len() > 3 {
        obs.nontrivial();
    }
    obs.extra += case.ops.len() as u64;
    Ok(())
}

// C31: nothing secret in errors and debug representations

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Broken {
    No,
    Truncate(u8),
    Drop(u8),
    Set(u8, u8),
    Rename(u8, u8),
    Repeat(u8),
    /// Inserted at some position
    Insert(u8, u8),
    /// A secret in the wrong kind of value
    Wrap(u8, u8),
    /// Another value of the storage in place of the entry
    HmacSecret,
    /// The entry in place of the site's record
    Misplaced,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TellCase {
    seed: String,
    entries: Vec<(bool, bool, Broken)>,
    alias: bool,
    ops: Vec<u8>,
}

fn tell_case() -> BoxedStrategy<TellCase> {
    let broken = prop_oneof![
        3 => Just(Broken::No),
        2 => any::<u8>().prop_map(Broken::Truncate),
        2 => any::<u8>().prop_map(Broken::Drop),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Broken::Set(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Broken::Rename(a, b)),
        1 => any::<u8>().prop_map(Broken::Repeat),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Broken::Insert(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Broken::Wrap(a, b)),
        1 => Just(Broken::HmacSecret),
        1 => Just(Broken::Misplaced),
    ];
    ("[a-z0-9]{6}", vec((any::<bool>(), any::<bool>(), broken), 1..4), any::<bool>(), vec(any::<u8>(), 0..6))
        .prop_map(|(seed, entries, alias, ops)| TellCase { seed, entries, alias, ops })
        .boxed()
}

fn broken_json(members: Vec<(String, serde_json::Value)>, b: &Broken) -> Vec<u8> {
    let mut m: Vec<(String, String)> = members.into_iter().map(|(k, v)| (k, v.to_string())).collect();
    let n = m.len();
    let plain = |k: &str| k != "password" && k != "notes";
    match b {
        Broken::Drop(i) => {
            m.remove(*i as usize % n);
        }
        Broken::Set(i, v) => {
            let values = ["null", "1", "-1", "true", "\"\"", "[]", "{}", "\"unknown\"", "1.5"];
            let e = &mut m[*i as usize % n];
            if plain(&e.0) {
                e.1 = values[*v as usize % values.len()].to_owned();
            } else {
                // Next to it something of the wrong type
                let e = (["length", "lower", "site", "type"][*v as usize % 4].to_owned(), "[1]".to_owned());
                m.insert(0, e);
            }
        }
        Broken::Wrap(i, v) => {
            let secrets: Vec<usize> = (0..n).filter(|i| !plain(&m[*i].0)).collect();
            let from = secrets.get(*i as usize % secrets.len().max(1)).copied().unwrap_or(0);
            let value = m[from].1.clone();
            match v % 6 {
                0 => m[from].1 = format!("[{}]", value),
                1 => m[from].1 = format!("{{\"x\":{}}}", value),
                2 => m[from].1 = format!("{{{}:1}}", value),
                // Members of other types
                3 => {
                    // The others are text as well
                    let others: Vec<usize> = (0..n).filter(|i| plain(&m[*i].0) && !["site", "name", "revision"].contains(&m[*i].0.as_str())).collect();
                    m[others[*i as usize / 16 % others.len()]].1 = value;
                }
                4 => m.iter_mut().for_each(|e| e.1 = value.clone()),
                _ => return value.into_bytes(),
            }
        }
        Broken::Rename(i, v) => m[*i as usize % n].0 = ["x", "Password", "note", "", "type"][*v as usize % 5].to_owned(),
        Broken::Repeat(i) => {
            let e = m[*i as usize % n].clone();
            m.push(e);
        }
        _ => {}
    }
    let mut text = format!("{{{}}}", m.iter().map(|(k, v)| format!("{:?}:{}", k, v)).collect::<Vec<_>>().join(",")).into_bytes();
    match b {
        Broken::Truncate(x) => text.truncate(text.len() * *x as usize / 256),
        Broken::Insert(x, v) => {
            let bytes: [&[u8]; 7] = [b"\\", b"\"", b",", b"\xff", b"\n", b"\\x", b"}"];
            let at = text.len() * *x as usize / 256;
            let ins = bytes[*v as usize % bytes.len()];
            text.splice(at..at, ins.iter().copied());
        }
        _ => {}
    }
    text
}

fn tell_test(ctx: &Ctx, case: &TellCase, obs: &mut Obs) -> R {
    let primary = crypto::token(&case.seed, "pri", 0);
    let mut w = writer(&primary);
    let mut raw = w.base();
    let mut secrets: Vec<(String, Vec<u8>)> = vec![("primary password".to_owned(), primary.clone().into_bytes())];
    let mut misplaced = None;
    for (i, (generated, notes, broken)) in case.entries.iter().enumerate() {
        let id = ("a.com".to_owned(), format!("me{}", i), String::new());
        let val = if *generated {
            Val::Gen { len: 16, set: 15 }
        } else {
            let p = crypto::token(&case.seed, "pwd", i as u8);
            secrets.push((format!("password {}", i), p.clone().into_bytes()));
            Val::Stored(p)
        };
        let notes = if *notes {
            let n = crypto::token(&case.seed, "not", i as u8);
            secrets.push((format!("notes {}", i), n.clone().into_bytes()));
            n
        } else {
            String::new()
        };
        if *generated {
            let value = refimpl::generate(&primary, &id.0, &id.1, &id.2, 16, 15);
            secrets.push((format!("generated password {}", i), value.into_bytes()));
        }
        let members = refimpl::Writer::entry_json(&id, &Entry { val, notes });
        let json = broken_json(members, broken);
        w.put_entry(&mut raw, &id, &json);
        if let Broken::HmacSecret = broken {
            let key = refimpl::entry_key(&w.secret, &id.0, &id.1, &id.2);
            let value = raw["hmac-secret"].clone();
            raw.insert(key, value);
            obs.class("HMAC secret in place of an entry");
        }
        if let Broken::Misplaced = broken {
            misplaced = Some(json);
        }
        if let Broken::Wrap(..) = broken {
            obs.class("secret in a value of another type");
        }
    }
    w.put_site(&mut raw, "a.com", misplaced.as_deref().unwrap_or(br#"{"site":"a.com"}"#));
    if case.alias {
        w.put_site(&mut raw, "b.com", br#"{"site":"b.com","alias":"a.com"}"#);
    }
    let keys = refimpl::keys(&raw, &primary).map_err(Fail::Infra)?;
    secrets.push(("encryption key".to_owned(), keys.key.clone()));
    secrets.push(("HMAC secret".to_owned(), keys.secret.clone()));
    let new_password = crypto::token(&case.seed, "new", 0);
    let new_notes = crypto::token(&case.seed, "new", 1);
    let wrong = crypto::token(&case.seed, "bad", 0);
    for (what, s) in [("new password", &new_password), ("new notes", &new_notes), ("wrong primary password", &wrong)] {
        secrets.push((what.to_owned(), s.clone().into_bytes()));
    }

    // Everything that can be displayed without asking for secrets
    let mut told: Vec<(String, String)> = Vec::new();
    let handle = crate::memio::Handle::with(raw.clone().into_iter().collect());
    let mut p = crypto::open_handle(&handle, &primary)?;
    let secret = |s: &str| SecretString::new(s.to_owned());
    macro_rules! tell {
        ($what:expr, $r:expr) => {
            if let Err(e) = $r {
                told.push((format!("error of {}", $what), format!("{:?}", e)));
                obs.class("errors");
            }
        };
    }
    for i in 0..case.entries.len() {
        let name = format!("me{}", i);
        tell!("get", p.get("a.com", &name, "1").map(|_| ()));
        tell!("get_notes", p.get_notes("b.com", &name, ""));
    }
    for e in p.list("a.com", "*") {
        told.push(("debug representation".to_owned(), format!("{:?} {:#?} {:?}", e, e, e.notes())));
        match &e {
            Password::Generated(g) => told.push(("debug representation".to_owned(), format!("{:?} {:?} {:?}", g, g.id(), g.charset()))),
            Password::Stored(s) => told.push(("debug representation".to_owned(), format!("{:?} {:#?} {:?} {:?}", s, s, s.id(), s.password()))),
        }
        obs.nontrivial();
    }
    for s in p.list_sites("*") {
        told.push(("debug representation".to_owned(), format!("{:?} {:#?}", s, s)));
    }
    for op in &case.ops {
        let name = format!("me{}", op / 16 % 4);
        match op % 9 {
            0 => tell!("set_notes", p.set_notes("a.com", &name, "", secret(&new_notes))),
            1 => tell!("set_alias", p.set_alias("a.com", "c.com")),
            2 => tell!("remove_alias", p.remove_alias("a.com")),
            3 => tell!("decode_recovery_code", p.decode_recovery_code(&new_password).map(|_| ())),
            4 => tell!("unlock", p.unlock(secret(&wrong))),
            5 => {
                handle.fail_next(true);
                tell!("set_stored", p.set_stored("a.com", &name, "", secret(&new_password)));
                handle.fail_next(false);
            }
            6 => {
                handle.fail_next(true);
                tell!("reset", p.reset(secret(&wrong)));
                handle.fail_next(false);
            }
            7 => {
                p.lock();
                tell!("get", p.get("a.com", &name, ""));
                tell!("unlock", p.unlock(secret(&wrong)));
                let _ = p.unlock(secret(&primary));
            }
            _ => tell!("set_generated", p.set_generated("b.com", &name, "", 10, CharacterSet::all())),
        }
    }
    // The back end with what is in the file
    let dir = ctx.dir();
    let path = dir.join("s.json");
    std::fs::write(&path, refimpl::file_for(&raw)).map_err(infra("file"))?;
    let io = FileIO::load(&path).map_err(|e| Fail::Violation(format!("loading: {:?}", e)))?;
    told.push(("debug representation of the back end".to_owned(), format!("{:?}", io)));

    // And the application
    if case.ops.len() % 3 == 0 {
        let env = Env::new(ctx);
        env.write(&raw)?;
        for args in [&["show", "a.com", "me0"][..], &["notes", "b.com", "me1"], &["list"], &["list", "-v", "b.com"], &["remove", "a.com", "me9"]] {
            let mut proc = env.start(&s(args))?;
            let (text, stop) = proc.text()?;
            if stop != Stop::Prompt(P_PRIMARY) {
                viol!("{}: {:?} after {:?}", proc.what, stop, text);
            }
            proc.send(&primary)?;
            let (text, stop) = proc.text()?;
            let Stop::Exit(status) = stop else { viol!("{}: {:?} after {:?}", proc.what, stop, text) };
            // What was asked for is shown
            let asked: &[&str] = match args[0] {
                "show" if status == 0 => &["password 0", "generated password 0"],
                "notes" if status == 0 => &["notes 1"],
                "list" if args.len() > 1 => &["notes 0", "notes 1", "notes 2"],
                _ => &[],
            };
            search_for(&secrets, asked, &format!("output of {:?}", args), &text)?;
            obs.extra += 1;
        }
        obs.class("application");
    }
    for (what, text) in &told {
        search_for(&secrets, &[], what, text)?;
    }
    obs.extra += told.len() as u64;
    Ok(())
}

fn search_for(secrets: &[(String, Vec<u8>)], except: &[&str], what: &str, text: &str) -> R {
    for (name, secret) in secrets {
        if except.contains(&name.as_str()) {
            continue;
        }
        for (encoding, bytes) in crypto::encodings(secret) {
            if bytes.len() >= 6 && crypto::contains(text.as_bytes(), &bytes) {
                viol!("{} contains the {} ({}): {:?}", what, name, encoding, text);
            }
        }
        let list = format!("{:?}", secret);
        let list = &list[1..list.len() - 1];
        if text.contains(list) {
            viol!("{} contains the {} as numbers: {:?}", what, name, text);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C30",
            level: "exploration",
            rule: "Histories of up to 40 calls (set, remove, clear, flush, failing flush, load, replaced files, malformed files) on a FileIO back end at different kinds of paths with arbitrary keys and values; after each call all keys and values and the file (independent parser) are compared to two maps. Non-trivial: more than three calls, at least one of them flush.",
            assumptions: &[],
            subs: vec![Box::new(Gen { name: "map", quick: 12000, thorough: 400000, strat: map_case, test: map_test, shrink: 2000 })],
        },
        Prop {
            id: "C31",
            level: "exploration",
            rule: "Storages with recognisable passwords, notes and primary passwords, some entries damaged in their decrypted form; everything that is returned as errors, printed as debug representation or output by the application without having been asked for is searched for 15 encodings and digests of each secret. Non-trivial: at least one entry could be listed.",
            assumptions: &[],
            subs: vec![Box::new(Gen { name: "tell", quick: 320, thorough: 12000, strat: tell_case, test: tell_test, shrink: 200 })],
        },
    ]
}

