//! Properties of derivation, encryption and the storage format: C04, C05, C07, C08, C09, C10, C25.

use crate::engine::*;
use crate::gens;
use crate::hist::*;
use crate::memio::Handle;
use crate::model::*;
use crate::refimpl::{self, Raw, Writer};
use crate::{ensure, viol};
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::recovery_codes;
use pfp::storage_io::FileIO;
use pfp::storage_types::StoredPassword;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use secrecy::ExposeSecret;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

pub fn open(raw: Raw, primary: &str) -> R<Passwords<AnyIO>> {
    open_handle(&Handle::with(raw), primary)
}

pub fn open_handle(h: &Handle, primary: &str) -> R<Passwords<AnyIO>> {
    let mut p = Passwords::new(AnyIO(Box::new(h.io())));
    if let Err(e) = p.unlock(secret(primary)) {
        viol!("valid storage cannot be unlocked with its primary password: {:?}", e);
    }
    Ok(p)
}

fn ok<T>(what: &str, r: Result<T, Error>) -> R<T> {
    r.map_err(|e| Fail::Violation(format!("{} failed: {:?}", what, e)))
}

// C04, C05

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GenParams {
    s: String,
    n: String,
    r: String,
    len: usize,
    set: u8,
    notes: Option<String>,
    alias: Option<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GenCase {
    primary: String,
    items: Vec<GenParams>,
}

fn gen_params() -> impl Strategy<Value = GenParams> {
    (
        prop_oneof![1 => gens::site(), 1 => gens::text(20)],
        prop_oneof![1 => gens::name(), 1 => gens::text(20)],
        prop_oneof![2 => gens::revision(), 1 => gens::text(6)],
        gens::length(),
        gens::charset(),
        prop::option::weighted(0.3, gens::text(20)),
        prop::option::weighted(0.3, gens::site()),
    )
        .prop_map(|(s, n, r, len, set, notes, alias)| GenParams { s, n, r, len, set, notes, alias })
}

fn gen_case(max: usize) -> BoxedStrategy<GenCase> {
    (gens::primary(), vec(gen_params(), 1..=max))
        .prop_map(|(primary, items)| GenCase { primary, items })
        .boxed()
}

fn c04(_: &Ctx, case: &GenCase, obs: &mut Obs) -> R {
    let h = Handle::default();
    let mut p = Passwords::new(AnyIO(Box::new(h.io())));
    ok("reset", p.reset(secret(&case.primary)))?;
    let mut model = Model::new(&case.primary);
    for i in &case.items {
        ok("set_generated", p.set_generated(&i.s, &i.n, &i.r, i.len, to_set(i.set)))?;
        model.set(&i.s, &i.n, &i.r, Val::Gen { len: i.len, set: i.set });
        if let Some(notes) = &i.notes {
            ok("set_notes", p.set_notes(&i.s, &i.n, &i.r, secret(notes)))?;
        }
        obs.nontrivial();
        if i.len < i.set.count_ones() as usize {
            obs.class("fewer characters than types");
        } else if i.len <= 6 && i.set.count_ones() > 1 {
            obs.class("missing types enforced likely");
        }
        if !i.s.is_ascii() || !i.n.is_ascii() || !i.r.is_ascii() {
            obs.class("non-ASCII id");
        }
        if norm_rev(&i.r) != "" {
            obs.class("revision");
        }
        if !case.primary.is_ascii() {
            obs.class("non-ASCII primary password");
        }
    }
    let reopen = case.items.len() % 2 == 0;
    if reopen {
        p = open_handle(&h, &case.primary)?;
        obs.class("after reopening");
    }
    for i in &case.items {
        let id = model.id(&i.s, &i.n, &i.r);
        let entry = model.entries[&id].clone();
        let mut site = i.s.clone();
        if let Some(a) = &i.alias {
            if model.alias_errors(a, &i.s).is_empty() && !model.aliases.values().any(|t| t == normalize(a)) && !model.aliases.contains_key(normalize(a)) {
                ok("set_alias", p.set_alias(a, &i.s))?;
                let _ = model.set_alias(a, &i.s);
                site = a.clone();
                obs.class("through alias");
            }
        }
        let expected = model.value(&id, &entry);
        let actual = ok("get", p.get(&site, &i.n, &i.r))?;
        ensure!(
            *actual.expose_secret() == expected,
            "{:?} with primary password {:?}: value is {:?}, the PfP derivation gives {:?}",
            i,
            case.primary,
            actual.expose_secret(),
            expected
        );
        obs.extra += 1;
    }
    Ok(())
}

/// Calls on one instance
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum DeriveOp {
    Set { site: u8, name: u8, rev: u8, len: u8, set: u8 },
    Stored { site: u8, name: u8, rev: u8 },
    Remove { site: u8, name: u8, rev: u8 },
    Get { site: u8, name: u8, rev: u8 },
    GetAll,
    Reset(u8),
    Relock,
    Alias { site: u8, target: u8 },
    Unalias { site: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DeriveSession {
    ops: Vec<DeriveOp>,
}

const D_SITES: [&str; 4] = ["a.com", "b.com", "www.a.com", "a.co"];
const D_NAMES: [&str; 3] = ["me", "mme", "ME"];
const D_REVS: [&str; 3] = ["1", "2", "12"];
const D_PRIMARIES: [&str; 4] = ["primary", "Primary", "primary ", "primarx"];
const D_LENS: [usize; 4] = [8, 16, 9, 4];
const D_SETS: [u8; 4] = [15, 7, 1, 9];

fn derive_session() -> BoxedStrategy<DeriveSession> {
    let id = || (0u8..4, 0u8..3, 0u8..3);
    let op = prop_oneof![
        5 => (id(), 0u8..4, 0u8..4).prop_map(|((site, name, rev), len, set)| DeriveOp::Set { site, name, rev, len, set }),
        1 => id().prop_map(|(site, name, rev)| DeriveOp::Stored { site, name, rev }),
        1 => id().prop_map(|(site, name, rev)| DeriveOp::Remove { site, name, rev }),
        2 => id().prop_map(|(site, name, rev)| DeriveOp::Get { site, name, rev }),
        3 => Just(DeriveOp::GetAll),
        2 => (0u8..4).prop_map(DeriveOp::Reset),
        1 => Just(DeriveOp::Relock),
        1 => (0u8..4, 0u8..4).prop_map(|(site, target)| DeriveOp::Alias { site, target }),
        1 => (0u8..4).prop_map(|site| DeriveOp::Unalias { site }),
    ];
    vec(op, 6..30).prop_map(|ops| DeriveSession { ops }).boxed()
}

fn c04_session(_: &Ctx, case: &DeriveSession, obs: &mut Obs) -> R {
    let h = Handle::default();
    let mut p = Passwords::new(AnyIO(Box::new(h.io())));
    ok("reset", p.reset(secret(D_PRIMARIES[0])))?;
    let mut model = Model::new(D_PRIMARIES[0]);
    let mut known: BTreeMap<(String, Id, usize, u8), String> = BTreeMap::new();
    let mut read = 0;
    let mut resets = 0;
    let mut get = |p: &Passwords<AnyIO>, model: &Model, site: &str, name: &str, rev: &str| -> R {
        let actual = p.get(site, name, rev);
        match (model.get(site, name, rev), actual) {
            (None, Err(Error::KeyMissing)) => Ok(()),
            (Some(e), Ok(actual)) => {
                let id = model.id(site, name, rev);
                let expected = match &e.val {
                    Val::Stored(v) => v.clone(),
                    Val::Gen { len, set } => known
                        .entry((model.primary.clone(), id.clone(), *len, *set))
                        .or_insert_with(|| model.value(&id, e))
                        .clone(),
                };
                read += 1;
                ensure!(
                    *actual.expose_secret() == expected,
                    "{:?} with primary password {:?}, {:?}: value is {:?} rather than {:?}",
                    (site, name, rev), model.primary, e.val, actual.expose_secret(), expected
                );
                Ok(())
            }
            (e, Ok(_)) => viol!("{:?}: there is a value but {:?} is expected", (site, name, rev), e),
            (e, Err(error)) => viol!("{:?}: {:?} but {:?} is expected", (site, name, rev), error, e),
        }
    };
    for op in &case.ops {
        let site = |i: &u8| D_SITES[*i as usize % 4];
        let name = |i: &u8| D_NAMES[*i as usize % 3];
        let rev = |i: &u8| D_REVS[*i as usize % 3];
        match op {
            DeriveOp::Set { site: s, name: n, rev: r, len, set } => {
                let (len, set) = (D_LENS[*len as usize % 4], D_SETS[*set as usize % 4]);
                ok("set_generated", p.set_generated(site(s), name(n), rev(r), len, to_set(set)))?;
                model.set(site(s), name(n), rev(r), Val::Gen { len, set });
            }
            DeriveOp::Stored { site: s, name: n, rev: r } => {
                ok("set_stored", p.set_stored(site(s), name(n), rev(r), secret("stored")))?;
                model.set(site(s), name(n), rev(r), Val::Stored("stored".to_owned()));
            }
            DeriveOp::Remove { site: s, name: n, rev: r } => {
                let removed = p.remove(site(s), name(n), rev(r)).is_ok();
                ensure!(removed == model.remove(site(s), name(n), rev(r)).is_ok(), "removing {:?}: {}", (site(s), name(n), rev(r)), removed);
            }
            DeriveOp::Get { site: s, name: n, rev: r } => get(&p, &model, site(s), name(n), rev(r))?,
            DeriveOp::GetAll => {
                let ids: Vec<Id> = model.entries.keys().cloned().collect();
                for (s, n, r) in ids.iter().take(5) {
                    get(&p, &model, s, n, r)?;
                }
            }
            DeriveOp::Reset(i) => {
                let primary = D_PRIMARIES[*i as usize % 4];
                ok("reset", p.reset(secret(primary)))?;
                model = Model::new(primary);
                resets += 1;
                // The same passwords again
                for (s, n) in [("a.com", "me"), ("b.com", "me")] {
                    ok("set_generated", p.set_generated(s, n, "1", 8, to_set(15)))?;
                    model.set(s, n, "1", Val::Gen { len: 8, set: 15 });
                }
            }
            DeriveOp::Relock => {
                p.lock();
                for i in [1, 2] {
                    if model.primary != D_PRIMARIES[i] {
                        ensure!(p.unlock(secret(D_PRIMARIES[i])).is_err(), "unlocked with {:?}", D_PRIMARIES[i]);
                    }
                }
                ok("unlock", p.unlock(secret(&model.primary)))?;
            }
            DeriveOp::Alias { site: s, target } => {
                if model.set_alias(site(s), site(target)).is_ok() {
                    ok("set_alias", p.set_alias(site(s), site(target)))?;
                }
            }
            DeriveOp::Unalias { site: s } => {
                if model.remove_alias(site(s)).is_ok() {
                    ok("remove_alias", p.remove_alias(site(s)))?;
                }
            }
        }
    }
    let ids: Vec<Id> = model.entries.keys().cloned().collect();
    for (s, n, r) in ids.iter().take(8) {
        get(&p, &model, s, n, r)?;
    }
    if read > 1 {
        obs.nontrivial();
    }
    if resets > 0 {
        obs.class("after a reset");
    }
    obs.extra = read;
    Ok(())
}

pub fn composition(value: &str, len: usize, set: u8) -> Result<(), String> {
    if value.len() != len || value.chars().count() != len {
        return Err(format!("{:?} has {} characters instead of {}", value, value.chars().count(), len));
    }
    let mut seen = 0u8;
    for c in value.chars() {
        if "IlO01\"'\\".contains(c) {
            return Err(format!("{:?} contains ambiguous character {:?}", value, c));
        }
        let kind = match c {
            'a'..='z' => 1,
            'A'..='Z' => 2,
            '0'..='9' => 4,
            '!'..='~' => 8,
            _ => return Err(format!("{:?} contains unexpected character {:?}", value, c)),
        };
        if kind & set == 0 {
            return Err(format!("{:?} contains {:?} of a type that isn't allowed", value, c));
        }
        seen |= kind;
    }
    if len >= set.count_ones() as usize && seen != set {
        return Err(format!("{:?} lacks a character of a requested type", value));
    }
    // Not enough characters: at least all of different types
    if len < set.count_ones() as usize && seen.count_ones() as usize != len {
        return Err(format!("{:?} repeats character types although types are missing", value));
    }
    Ok(())
}

fn c05(_: &Ctx, case: &GenCase, obs: &mut Obs) -> R {
    let h = Handle::with(template().clone());
    let mut p = open_handle(&h, TEMPLATE_PRIMARY)?;
    for i in &case.items {
        ok("set_generated", p.set_generated(&i.s, &i.n, &i.r, i.len, to_set(i.set)))?;
        let value = ok("get", p.get(&i.s, &i.n, &i.r))?;
        obs.extra += 1;
        obs.nontrivial();
        if i.len < i.set.count_ones() as usize {
            obs.class("fewer characters than types");
        }
        if i.len <= 6 && i.set.count_ones() > 1 {
            obs.class("short, several types");
        }
        if let Err(e) = composition(value.expose_secret(), i.len, i.set) {
            viol!("{:?}: {}", i, e);
        }
    }
    Ok(())
}

/// All lengths and character sets
fn c05_grid(_: &Ctx) -> R<Vec<(usize, u8)>> {
    let mut cases = Vec::new();
    for len in 1..=24 {
        for set in 1..16 {
            if len <= 8 || (len + set as usize) % 5 == 0 {
                cases.push((len, set));
            }
        }
    }
    Ok(cases)
}

fn c05_grid_test(ctx: &Ctx, case: &(usize, u8), obs: &mut Obs) -> R {
    let (len, set) = *case;
    let n = if len <= 5 { 3 } else { 1 };
    let items = (0..n)
        .map(|i| GenParams {
            s: format!("site{}", i),
            n: format!("{}", ctx.seed),
            r: String::new(),
            len,
            set,
            notes: None,
            alias: None,
        })
        .collect();
    c05(ctx, &GenCase { primary: String::new(), items }, obs)
}

// C07

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SecretCase {
    seed: String,
    steps: Vec<(u8, u8, u8, u8)>,
}

fn secret_case() -> BoxedStrategy<SecretCase> {
    ("[a-z0-9]{10}", vec((0u8..9, 0u8..4, 0u8..3, 0u8..3), 3..14))
        .prop_map(|(seed, steps)| SecretCase { seed, steps })
        .boxed()
}

/// Recognisable tokens of various alphabets
pub fn token(seed: &str, kind: &str, i: u8) -> String {
    let digest = refimpl::sha256(format!("{} {} {}", seed, kind, i).as_bytes());
    let mut s: String = digest
        .iter()
        .take(14)
        .map(|b| b"abcdefghijklmnopqrstuvwxyzABCDEFGHJK0123456789"[*b as usize % 46] as char)
        .collect();
    match digest[20] % 4 {
        0 => s.insert_str(7, "ä€"),
        1 => s.insert(5, ' '),
        _ => {}
    }
    // Some are longer than a block of the hash function
    match digest[21] % 8 {
        0 => s = s.repeat(2 + digest[22] as usize % 12),
        1 => s += &"x".repeat(digest[22] as usize),
        _ => {}
    }
    s
}

/// Ways to represent a secret which can be undone without a key or confirmed by guessing.
pub fn encodings(data: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut result: Vec<(&'static str, Vec<u8>)> = Vec::new();
    result.push(("raw", data.to_vec()));
    result.push(("reversed", data.iter().rev().copied().collect()));
    let hex: String = data.iter().map(|b| format!("{:02x}", b)).collect();
    result.push(("hex", hex.clone().into_bytes()));
    if let Ok(s) = std::str::from_utf8(data) {
        result.push(("lower", s.to_lowercase().into_bytes()));
        result.push(("upper", s.to_uppercase().into_bytes()));
        let json = serde_json::to_string(s).unwrap();
        result.push(("json", json[1..json.len() - 1].as_bytes().to_vec()));
        let mut esc = String::new();
        let mut url = String::new();
        for c in s.chars() {
            if c.is_ascii_alphanumeric() {
                esc.push(c);
                url.push(c);
            } else {
                let mut buf = [0; 2];
                for u in c.encode_utf16(&mut buf) {
                    esc += &format!("\\u{:04x}", u);
                }
                let mut buf = [0; 4];
                for b in c.encode_utf8(&mut buf).bytes() {
                    url += &format!("%{:02x}", b);
                }
            }
        }
        result.push(("escaped", esc.into_bytes()));
        result.push(("url", url.into_bytes()));
        let utf16: Vec<u8> = s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
        result.push(("utf16", utf16));
        let rot: String = s
            .chars()
            .map(|c| match c {
                'a'..='z' => ((c as u8 - b'a' + 13) % 26 + b'a') as char,
                'A'..='Z' => ((c as u8 - b'A' + 13) % 26 + b'A') as char,
                c => c,
            })
            .collect();
        result.push(("rot13", rot.into_bytes()));
    }
    // Base64 of data at all alignments, without the characters affected by neighbours
    for shift in 0..3 {
        let mut padded = vec![0u8; shift];
        padded.extend_from_slice(data);
        let full = padded.len() / 3 * 4;
        let start = if shift == 0 { 0 } else { 4 };
        let enc = base64::encode(&padded);
        if full > start {
            let part = &enc[start..full];
            result.push(("base64", part.as_bytes().to_vec()));
            result.push(("base64url", part.replace('+', "-").replace('/', "_").into_bytes()));
        }
    }
    let digest = refimpl::sha256(data);
    result.push(("sha256", digest.to_vec()));
    result.push(("sha256-base64", base64::encode(digest).into_bytes()));
    result.push(("sha256-hex", digest.iter().map(|b| format!("{:02x}", b)).collect::<String>().into_bytes()));
    let digest = refimpl::sha512(data);
    result.push(("sha512-base64", base64::encode(digest).into_bytes()));
    result.push(("sha512-hex", digest.iter().map(|b| format!("{:02x}", b)).collect::<String>().into_bytes()));
    result
}

pub use scan::contains;

/// Searches file contents for a secret, case-insensitively for the hex forms.
pub fn search(content: &[u8], what: &str, data: &[u8]) -> R {
    let lower = content.to_ascii_lowercase();
    for (kind, needle) in encodings(data) {
        if needle.len() < 6 {
            continue;
        }
        let hit = if matches!(kind, "hex" | "url" | "escaped" | "sha256-hex" | "sha512-hex") {
            contains(&lower, &needle.to_ascii_lowercase())
        } else {
            contains(content, &needle)
        };
        ensure!(!hit, "{} {:?} is found in the file ({})", what, String::from_utf8_lossy(data), kind);
    }
    Ok(())
}

fn c07(ctx: &Ctx, case: &SecretCase, obs: &mut Obs) -> R {
    let dir = ctx.dir();
    let path = dir.join("storage.json");
    let mut secrets: Vec<(&'static str, String)> = Vec::new();
    let t = |kind: &str, i: u8| token(&case.seed, kind, i);
    let mut primary = t("primary", 0);
    let mut p = Passwords::new(FileIO::new(&path));
    ok("reset", p.reset(secret(&primary)))?;
    secrets.push(("primary password", primary.clone()));
    let mut resets = 0;
    let mut model = Model::new(&primary);
    let check = |secrets: &Vec<(&'static str, String)>, model: &Model| -> R {
        let mut contents = Vec::new();
        for file in std::fs::read_dir(&dir.0).map_err(infra("readdir"))? {
            let file = file.map_err(infra("readdir"))?;
            contents.extend(std::fs::read(file.path()).map_err(infra("read"))?);
            contents.push(b'\n');
        }
        let raw = refimpl::parse_file(&std::fs::read(&path).map_err(infra("read"))?)
            .map_err(|e| Fail::Violation(format!("storage file: {}", e)))?;
        // JSON strings may be escaped in the file
        for (k, v) in &raw {
            contents.extend(k.as_bytes());
            contents.push(b'\n');
            contents.extend(v.as_bytes());
            contents.push(b'\n');
            if k != "salt" && k != "hmac-secret" {
                for part in k.split(':').skip(1) {
                    let bytes = base64::decode(part)
                        .map_err(|_| Fail::Violation(format!("storage key {:?} is not a keyed digest", k)))?;
                    ensure!(bytes.len() == 32, "storage key {:?} is not a keyed digest", k);
                    contents.extend(bytes);
                }
            }
            for part in v.split('_') {
                contents.extend(base64::decode(part).unwrap_or_default());
                contents.push(b'\n');
            }
        }
        let keys = refimpl::keys(&raw, &model.primary).map_err(Fail::Violation)?;
        let decoded = refimpl::decode(&raw, &keys)
            .map_err(|e| Fail::Violation(format!("stored value is not authenticated ciphertext of the expected data: {}", e)))?;
        refimpl::compare(&decoded, model).map_err(Fail::Violation)?;
        for (what, s) in secrets {
            search(&contents, what, s.as_bytes())?;
        }
        search(&contents, "encryption key", &keys.key)?;
        search(&contents, "HMAC secret", &keys.secret)?;
        for (k, e) in &model.entries {
            for data in [
                format!("{}\0{}\0{}", k.0, k.1, k.2),
                format!("{}\0{}", k.0, k.1),
                format!("{}{}{}", k.0, k.1, k.2),
            ] {
                search(&contents, "entry id", data.as_bytes())?;
            }
            if let Val::Gen { len, .. } = &e.val {
                if *len >= 8 {
                    search(&contents, "generated password", model.value(k, e).as_bytes())?;
                }
            }
        }
        Ok(())
    };
    for (op, s, n, r) in &case.steps {
        let site = format!("{}{}", if s % 2 == 0 { "" } else { "www." }, t("site", *s));
        let name = t("name", *n);
        let rev = if *r == 0 { "1".to_owned() } else { t("rev", *r) };
        let i = secrets.len() as u8;
        secrets.push(("site name", t("site", *s)));
        let existing = model.entries.keys().nth((s * 9 + n * 3 + r) as usize % model.entries.len().max(1)).cloned();
        let (site, name, rev) = match existing {
            Some(id) if matches!(op, 4 | 5 | 7) => id,
            _ => (site, name, rev),
        };
        match op {
            0 | 1 => {
                secrets.push(("password name", name.clone()));
                secrets.push(("revision", if *r == 0 { name.clone() } else { rev.clone() }));
                let pw = t("password", i);
                secrets.push(("password", pw.clone()));
                ok("set_stored", p.set_stored(&site, &name, &rev, secret(&pw)))?;
                model.set(&site, &name, &rev, Val::Stored(pw));
            }
            2 | 3 => {
                secrets.push(("password name", name.clone()));
                let set = 1 + (s * 3 + n) % 15;
                let len = 8 + *r as usize * 5;
                ok("set_generated", p.set_generated(&site, &name, &rev, len, to_set(set)))?;
                model.set(&site, &name, &rev, Val::Gen { len, set });
            }
            4 | 5 => {
                let notes = t("notes", i);
                if model.set_notes(&site, &name, &rev, &notes).is_ok() {
                    ok("set_notes", p.set_notes(&site, &name, &rev, secret(&notes)))?;
                    secrets.push(("notes", notes));
                    obs.class("notes");
                }
            }
            6 => {
                let alias = t("alias", *n);
                secrets.push(("alias", alias.clone()));
                if model.set_alias(&alias, &site).is_ok() {
                    ok("set_alias", p.set_alias(&alias, &site))?;
                    obs.class("alias");
                }
            }
            7 => {
                if model.remove(&site, &name, &rev).is_ok() {
                    ok("remove", p.remove(&site, &name, &rev))?;
                    obs.class("removed entry");
                }
            }
            _ => {
                if resets < 1 && *s == 0 {
                    resets += 1;
                    primary = t("primary", 1 + resets);
                    ok("reset", p.reset(secret(&primary)))?;
                    secrets.push(("primary password", primary.clone()));
                    model = Model::new(&primary);
                    obs.class("reset");
                }
            }
        }
        obs.extra += 1;
    }
    if model.entries.len() > 1 {
        obs.nontrivial();
    }
    check(&secrets, &model)
}

// C08

#[derive(Default)]
struct Seen {
    nonces: HashSet<Vec<u8>>,
    ordered: Vec<Vec<u8>>,
    salts: HashSet<Vec<u8>>,
    salt_list: Vec<Vec<u8>>,
    secrets: HashSet<Vec<u8>>,
    secret_list: Vec<Vec<u8>>,
    pairs: Vec<Vec<u8>>,
    keys: HashSet<String>,
}
static SEEN: Mutex<Option<Seen>> = Mutex::new(None);

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FreshCase {
    primary: String,
    /// Kind of operation, number of repetitions
    steps: Vec<(u8, u8)>,
}

fn fresh_case() -> BoxedStrategy<FreshCase> {
    (select(vec!["primary", "p", "another one"]), vec((0u8..8, 1u8..6), 3..10))
        .prop_map(|(p, steps)| FreshCase { primary: p.to_owned(), steps })
        .boxed()
}

fn note_nonce(seen: &mut Seen, local: &mut HashSet<Vec<u8>>, nonce: Vec<u8>, what: &str) -> R {
    ensure!(nonce.len() == 12, "nonce of {} has {} bytes", what, nonce.len());
    ensure!(local.insert(nonce.clone()), "nonce {:?} used for {} was used before in the same history", nonce, what);
    ensure!(seen.nonces.insert(nonce.clone()), "nonce {:?} used for {} was used before in another history", nonce, what);
    seen.ordered.push(nonce);
    Ok(())
}

fn c08(_: &Ctx, case: &FreshCase, obs: &mut Obs) -> R {
    let h = Handle::default();
    let mut p = Passwords::new(AnyIO(Box::new(h.io())));
    ok("reset", p.reset(secret(&case.primary)))?;
    let mut codes = Vec::new();
    let stored = StoredPassword::new("a.com", "me", "", secret("the same password"));
    let mut scrypts = 0;
    for (op, n) in &case.steps {
        for _ in 0..*n {
            match op {
                0 => ok("set_stored", p.set_stored("a.com", "me", "", secret("the same password")))?,
                1 => ok("set_generated", p.set_generated("a.com", "you", "2", 16, to_set(15)))?,
                2 => {
                    ok("set_stored", p.set_stored("b.com", "me", "", secret("the same password")))?;
                    ok("set_notes", p.set_notes("b.com", "me", "", secret("notes")))?;
                }
                3 => {
                    let _ = p.remove_alias("c.com");
                    ok("set_alias", p.set_alias("c.com", "a.com"))?;
                }
                4 => codes.push(ok("get_recovery_code", p.get_recovery_code(&stored))?),
                5 => {
                    ok("set_stored", p.set_stored("a.com", "me", "", secret("the same password")))?;
                    ok("remove", p.remove("a.com", "me", ""))?;
                }
                6 => {
                    if scrypts < 3 {
                        scrypts += 1;
                        ok("reset", p.reset(secret(&case.primary)))?;
                        obs.class("reset with the same primary password");
                    }
                }
                _ => {
                    if scrypts < 3 {
                        scrypts += 1;
                        p = open_handle(&h, &case.primary)?;
                        obs.class("reopened");
                    }
                }
            }
            obs.extra += 1;
        }
    }
    obs.nontrivial();

    let disk = h.0.lock().unwrap();
    let mut guard = SEEN.lock().unwrap();
    let seen = guard.get_or_insert_with(Seen::default);
    let mut local = HashSet::new();
    let mut values = HashSet::new();
    let mut last_salt = Vec::new();
    for (k, v) in &disk.log {
        if k == "salt" {
            let salt = base64::decode(v).map_err(|_| Fail::Violation(format!("salt {:?}", v)))?;
            ensure!(salt.len() == 16, "salt has {} bytes", salt.len());
            ensure!(seen.salts.insert(salt.clone()), "salt {:?} was used before", salt);
            seen.salt_list.push(salt.clone());
            last_salt = salt;
            continue;
        }
        ensure!(values.insert(v), "the same ciphertext was written twice");
        let (nonce, _) = refimpl::split_value(v).map_err(Fail::Violation)?;
        note_nonce(seen, &mut local, nonce, k)?;
        if k == "hmac-secret" {
            obs.extra += 1;
        }
    }
    for code in codes {
        let data = refimpl::code_validate(&code)
            .map_err(|e| Fail::Violation(format!("recovery code is invalid: {:?}", e)))?;
        ensure!(data.len() >= 45, "recovery code too short");
        note_nonce(seen, &mut local, data[17..29].to_vec(), "recovery code")?;
        obs.class("recovery code");
    }
    // HMAC secret and storage keys of the final storage
    {
        let raw = disk.data.clone();
        ensure!(base64::decode(&raw["salt"]).ok().as_ref() == Some(&last_salt), "salt in storage isn't the last one");
        let keys = refimpl::keys(&raw, &case.primary).map_err(Fail::Violation)?;
        ensure!(keys.secret.len() == 32, "HMAC secret has {} bytes", keys.secret.len());
        ensure!(seen.secrets.insert(keys.secret.clone()), "HMAC secret was used before");
        seen.pairs.push([&last_salt[..], &keys.secret].concat());
        seen.secret_list.push(keys.secret);
        for k in raw.keys() {
            if k.starts_with("site:") {
                ensure!(seen.keys.insert(k.clone()), "storage key {} seen in another storage", k);
            }
        }
        obs.class("HMAC secret checked");
    }
    Ok(())
}

fn balanced(what: &str, list: &[Vec<u8>], min: usize) -> R {
    if list.len() < min {
        return Ok(());
    }
    let n = list.len() as f64;
    let limit = 7.0 * (n / 4.0).sqrt();
    for byte in 0..list[0].len() {
        for bit in 0..8 {
            let ones = list.iter().filter(|v| v[byte] >> bit & 1 == 1).count() as f64;
            ensure!(
                (ones - n / 2.0).abs() <= limit,
                "bit {} of byte {} is set in {} of {} {}",
                bit,
                byte,
                ones,
                n,
                what
            );
        }
    }
    Ok(())
}

/// Bits of all random values produced in this run must look random, also the changes between
/// successive ones. The limit is seven standard deviations.
/// No byte follows from another one
fn independent(what: &str, list: &[Vec<u8>], least: usize) -> R {
    let Some(len) = list.iter().map(|v| v.len()).min() else { return Ok(()) };
    if list.len() < least {
        return Ok(());
    }
    for i in 0..len {
        for j in 0..i {
            let mut counts = [0usize; 256];
            for v in list {
                counts[(v[i] ^ v[j]) as usize] += 1;
            }
            let most = *counts.iter().max().unwrap();
            ensure!(most < list.len() / 4, "{}: byte {} follows from byte {} in {} of {} cases", what, i, j, most, list.len());
        }
    }
    Ok(())
}

fn c08_bits(_: &Ctx, _: &u8, obs: &mut Obs) -> R {
    let guard = SEEN.lock().unwrap();
    let Some(seen) = guard.as_ref() else {
        return Ok(());
    };
    obs.nontrivial();
    obs.extra = seen.ordered.len() as u64;
    balanced("nonces", &seen.ordered, 1000)?;
    let diffs: Vec<Vec<u8>> = seen
        .ordered
        .windows(2)
        .step_by(2)
        .map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| a ^ b).collect())
        .collect();
    balanced("differences of successive nonces", &diffs, 1000)?;
    balanced("salts", &seen.salt_list, 200)?;
    balanced("HMAC secrets", &seen.secret_list, 200)?;
    independent("nonces", &seen.ordered, 1000)?;
    independent("salts", &seen.salt_list, 100)?;
    independent("HMAC secrets", &seen.secret_list, 100)?;
    independent("salts and HMAC secrets", &seen.pairs, 100)?;
    // Neither may one be predicted from the other
    let firsts: Vec<Vec<u8>> = seen
        .salt_list
        .windows(2)
        .step_by(2)
        .map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| a ^ b).collect())
        .collect();
    balanced("differences of successive salts", &firsts, 200)
}

// C09

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Tamper {
    Char(u16, char),
    Bit(u8, u16),
    Byte(u8, u16, u8),
    Truncate(u8, u16),
    Extend(u8, Vec<u8>),
    Prepend(u8, Vec<u8>),
    CutText(u16),
    AppendText(String),
    InsertText(u16, String),
    Replace(String),
    OtherKey,
    /// Nonce and ciphertext exchanged or doubled
    Shuffle(u8),
    /// Different text for the same bytes
    Reencode(u8),
    /// Tag or nonce of another value
    Mix(u8),
    Plain,
    /// Not encrypted
    Encoded(u8),
}

fn tamper() -> BoxedStrategy<Tamper> {
    let b64 = "[A-Za-z0-9+/=_ -]";
    prop_oneof![
        4 => (any::<u16>(), prop_oneof![4 => b64.prop_map(|s: String| s.chars().next().unwrap()), 1 => any::<char>()]).prop_map(|(i, c)| Tamper::Char(i, c)),
        4 => (0u8..2, any::<u16>()).prop_map(|(p, i)| Tamper::Bit(p, i)),
        2 => (0u8..2, any::<u16>(), any::<u8>()).prop_map(|(p, i, b)| Tamper::Byte(p, i, b)),
        2 => (0u8..2, 1u16..80).prop_map(|(p, n)| Tamper::Truncate(p, n)),
        1 => (0u8..2, vec(any::<u8>(), 1..20)).prop_map(|(p, v)| Tamper::Extend(p, v)),
        1 => (0u8..2, vec(any::<u8>(), 1..20)).prop_map(|(p, v)| Tamper::Prepend(p, v)),
        2 => any::<u16>().prop_map(Tamper::CutText),
        1 => "[A-Za-z0-9+/=_]{1,6}".prop_map(Tamper::AppendText),
        1 => (any::<u16>(), "[A-Za-z0-9+/=_ \n]{1,5}").prop_map(|(i, s)| Tamper::InsertText(i, s)),
        2 => prop_oneof![
            gens::text(30),
            "[A-Za-z0-9+/]{0,24}={0,2}_[A-Za-z0-9+/]{0,40}={0,2}",
            select(vec!["", "_", "__", "=_=", "AAAA_AAAA", "AAAAAAAAAAAAAAAA_", "_AAAA", "AAAAAAAAAAAAAAAA_AAAA", "AAAAAAAAAAAAAAAA_AAAAAAAAAAAAAAAAAAAAAA==", "null"]).prop_map(|s: &str| s.to_owned()),
        ].prop_map(Tamper::Replace),
        1 => Just(Tamper::OtherKey),
        1 => (0u8..5).prop_map(Tamper::Shuffle),
        2 => (0u8..13).prop_map(Tamper::Reencode),
        1 => (0u8..3).prop_map(Tamper::Mix),
        1 => Just(Tamper::Plain),
        2 => (0u8..16).prop_map(Tamper::Encoded),
    ]
    .boxed()
}

/// Applies a modification, `other` is another valid value of the same storage.
fn apply(t: &Tamper, value: &str, other: &str, plain: &[u8]) -> String {
    let chars: Vec<char> = value.chars().collect();
    let parts = |v: &str| {
        let (n, c) = v.split_once('_').unwrap_or((v, ""));
        (base64::decode(n).unwrap_or_default(), base64::decode(c).unwrap_or_default())
    };
    let (mut nonce, mut ct) = parts(value);
    let (ononce, oct) = parts(other);
    let join = |n: &[u8], c: &[u8]| {
        if value.contains('_') {
            format!("{}_{}", base64::encode(n), base64::encode(c))
        } else {
            base64::encode(n)
        }
    };
    macro_rules! part {
        ($p:expr) => {
            if *$p == 0 || ct.is_empty() { &mut nonce } else { &mut ct }
        };
    }
    match t {
        Tamper::Char(i, c) => {
            let mut chars = chars;
            if !chars.is_empty() {
                let i = *i as usize % chars.len();
                chars[i] = *c;
            }
            return chars.into_iter().collect();
        }
        Tamper::Bit(p, i) => {
            let d = part!(p);
            if !d.is_empty() {
                let i = *i as usize % (d.len() * 8);
                d[i / 8] ^= 1 << (i % 8);
            }
        }
        Tamper::Byte(p, i, b) => {
            let d = part!(p);
            if !d.is_empty() {
                let i = *i as usize % d.len();
                d[i] = *b;
            }
        }
        Tamper::Truncate(p, n) => {
            let d = part!(p);
            let n = d.len().saturating_sub(*n as usize);
            d.truncate(n);
        }
        Tamper::Extend(p, v) => part!(p).extend(v),
        Tamper::Prepend(p, v) => {
            let d = part!(p);
            let mut new = v.clone();
            new.extend(d.iter());
            *d = new;
        }
        Tamper::CutText(i) => {
            return chars[..*i as usize % chars.len().max(1)].iter().collect();
        }
        Tamper::AppendText(s) => return format!("{}{}", value, s),
        Tamper::InsertText(i, s) => {
            let i = *i as usize % (chars.len() + 1);
            let mut r: String = chars[..i].iter().collect();
            r += s;
            r.extend(&chars[i..]);
            return r;
        }
        Tamper::Replace(s) => return s.clone(),
        Tamper::OtherKey => return refimpl::encrypt(plain, &[7; 32], &nonce[..12.min(nonce.len())].iter().copied().chain(std::iter::repeat(0)).take(12).collect::<Vec<_>>()),
        Tamper::Shuffle(0) => return join(&ct, &nonce),
        Tamper::Shuffle(1) => return format!("{}_{}", value, value),
        Tamper::Shuffle(2) => return format!("{}{}", value, value),
        Tamper::Shuffle(3) => return value.chars().rev().collect(),
        Tamper::Shuffle(_) => return value.replace('_', ""),
        Tamper::Reencode(0) => return value.replace('=', ""),
        Tamper::Reencode(1) => return value.replace('+', "-").replace('/', "."),
        Tamper::Reencode(2) => return format!(" {}\n", value),
        Tamper::Reencode(3) => return format!("{}=", value),
        Tamper::Reencode(4) => return format!("{}\n", value),
        Tamper::Reencode(5) => return format!(" {}", value),
        Tamper::Reencode(6) => return value.replace('_', " _ "),
        Tamper::Reencode(7) => return value.replace('_', "\r\n_"),
        Tamper::Reencode(8) => return value.replace('+', "-").replace('/', "_"),
        Tamper::Reencode(9) => return format!("{}_", value),
        Tamper::Reencode(10) => return format!("{}\0", value),
        // Unused bits of the last character
        Tamper::Reencode(11) => {
            let Some(i) = chars.iter().rposition(|c| *c != '=') else { return value.to_owned() };
            let mut chars = chars;
            if let Some(n) = refimpl::BASE64.iter().position(|c| *c as char == chars[i]) {
                chars[i] = refimpl::BASE64[n ^ 1] as char;
            }
            return chars.into_iter().collect();
        }
        Tamper::Reencode(_) => return value.replace('_', "=_"),
        Tamper::Mix(0) => return join(&ononce, &ct),
        Tamper::Mix(1) => {
            let n = ct.len().saturating_sub(16);
            let m = oct.len().saturating_sub(16);
            ct.truncate(n);
            ct.extend(&oct[m..]);
        }
        Tamper::Mix(_) => {
            // Body of the other value, own tag
            let m = oct.len().saturating_sub(16);
            let mut new = oct[..m].to_vec();
            let n = ct.len().saturating_sub(16);
            new.extend(&ct[n..]);
            ct = new;
        }
        Tamper::Plain => return String::from_utf8_lossy(plain).into_owned(),
        Tamper::Encoded(n) => {
            let mut plain = plain.to_vec();
            if n & 8 != 0 {
                // Still valid data of the same kind
                let text = String::from_utf8_lossy(&plain).replace("\"notes\":\"", "\"notes\":\"x");
                plain = text.into_bytes();
            }
            let text = base64::encode(&plain);
            return match n & 7 {
                0 => text,
                1 => format!("_{}", text),
                2 => format!("{}_", text),
                3 => format!("{}_{}", base64::encode(&nonce), text),
                4 => plain.iter().map(|b| format!("{:02x}", b)).collect(),
                5 => base64::encode(nonce.iter().chain(&ct).copied().collect::<Vec<_>>()),
                6 => {
                    let mut with_tag = plain.clone();
                    with_tag.extend(&ct[ct.len().saturating_sub(16)..]);
                    format!("{}_{}", base64::encode(&nonce), base64::encode(with_tag))
                }
                _ => text.replace('=', ""),
            };
        }
    }
    join(&nonce, &ct)
}

/// Padding doesn't matter, anything else does.
fn lenient(value: &str) -> String {
    value.replace('=', "")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TamperCase {
    entries: Vec<(Entry, Vec<Tamper>)>,
}

fn entry() -> BoxedStrategy<Entry> {
    let val = prop_oneof![
        3 => gens::secret().prop_map(Val::Stored),
        2 => (gens::length(), gens::charset()).prop_map(|(len, set)| Val::Gen { len, set }),
    ];
    (val, prop_oneof![1 => Just(String::new()), 1 => gens::secret()])
        .prop_map(|(val, notes)| Entry { val, notes })
        .boxed()
}

fn tamper_case() -> BoxedStrategy<TamperCase> {
    vec((entry(), vec(tamper(), 0..3)), 2..24)
        .prop_map(|entries| TamperCase { entries })
        .boxed()
}

pub fn tamper_writer() -> Writer {
    let t = template();
    let keys = {
        static KEYS: std::sync::OnceLock<refimpl::Keys> = std::sync::OnceLock::new();
        KEYS.get_or_init(|| refimpl::keys(t, TEMPLATE_PRIMARY).expect("harness: template")).clone()
    };
    Writer {
        primary: TEMPLATE_PRIMARY.to_owned(),
        salt: keys.salt,
        secret: keys.secret,
        key: keys.key,
        nonce: 5,
    }
}

fn json_of(id: &Id, e: &Entry) -> Vec<u8> {
    let map: serde_json::Map<String, serde_json::Value> = Writer::entry_json(id, e).into_iter().collect();
    serde_json::to_vec(&map).unwrap()
}

fn c09(_: &Ctx, case: &TamperCase, obs: &mut Obs) -> R {
    let mut w = tamper_writer();
    let mut model = Model::new(TEMPLATE_PRIMARY);
    for (i, (e, _)) in case.entries.iter().enumerate() {
        let id = (format!("s{}", i % 2), format!("n{}", i / 2), String::new());
        model.ever.insert(id.0.clone());
        model.entries.insert(id, e.clone());
    }
    let mut raw = template().clone();
    raw.extend(w.write(&model).into_iter().filter(|(k, _)| k.starts_with("site:")));
    let original = raw.clone();
    let mut damaged: BTreeMap<Id, bool> = BTreeMap::new();
    for (i, (e, tampers)) in case.entries.iter().enumerate() {
        let id = (format!("s{}", i % 2), format!("n{}", i / 2), String::new());
        let other = (format!("s{}", (i + 1) % 2), "n0".to_owned(), String::new());
        let key = refimpl::entry_key(&w.secret, &id.0, &id.1, &id.2);
        let other = original[&refimpl::entry_key(&w.secret, &other.0, &other.1, &other.2)].clone();
        let value = original[&key].clone();
        let mut new = value.clone();
        for t in tampers {
            new = apply(t, &new, &other, &json_of(&id, e));
        }
        if new == value || original.values().any(|v| *v == new) {
            continue;
        }
        damaged.insert(id, lenient(&new) == lenient(&value));
        raw.insert(key, new);
    }
    obs.extra = damaged.len() as u64;
    if !damaged.is_empty() {
        obs.nontrivial();
    }
    let h = Handle::with(raw.clone());
    let mut p = open_handle(&h, TEMPLATE_PRIMARY)?;
    let mut listed_all = BTreeMap::new();
    for s in ["s0", "s1"] {
        listed_all.extend(listed(&p, s, "*")?);
    }
    for (id, e) in &model.entries {
        let (s, n, r) = (&id.0, &id.1, &id.2);
        match damaged.get(id) {
            None => {
                ensure!(listed_all.get(id) == Some(e), "intact entry {:?} is listed as {:?}", id, listed_all.get(id));
                if let Val::Stored(pw) = &e.val {
                    let v = ok("get of an intact entry", p.get(s, n, r))?;
                    ensure!(v.expose_secret() == pw, "intact entry {:?} reads {:?}", id, v.expose_secret());
                }
                let v = ok("get_notes of an intact entry", p.get_notes(s, n, r))?;
                ensure!(*v.expose_secret() == e.notes, "intact entry {:?} has notes {:?}", id, v.expose_secret());
            }
            Some(same_bytes) => {
                match p.get(s, n, r) {
                    Err(_) => {}
                    Ok(v) if *same_bytes && *v.expose_secret() == model.value(id, e) => {}
                    Ok(v) => viol!("tampered entry {:?} gave {:?}, value in storage {:?}", id, v.expose_secret(), raw[&refimpl::entry_key(&w.secret, s, n, r)]),
                }
                match p.get_notes(s, n, r) {
                    Err(_) => {}
                    Ok(v) if *same_bytes && *v.expose_secret() == e.notes => {}
                    Ok(v) => viol!("tampered entry {:?} gave notes {:?}", id, v.expose_secret()),
                }
                match listed_all.get(id) {
                    None => {}
                    Some(v) if *same_bytes && v == e => {}
                    Some(v) => viol!("tampered entry {:?} is listed as {:?}", id, v),
                }
                if !*same_bytes {
                    ensure!(
                        p.set_notes(s, n, r, secret("new")).is_err(),
                        "setting notes on tampered entry {:?} succeeded",
                        id
                    );
                }
            }
        }
    }
    for id in listed_all.keys() {
        ensure!(model.entries.contains_key(id), "unexpected entry {:?} listed", id);
    }
    ensure!(h.data() == raw, "reading tampered data modified storage");
    Ok(())
}

/// Every position of one value, several kinds of modification each, in one storage.
fn c09_positions(_: &Ctx) -> R<Vec<u8>> {
    Ok((0..8).collect())
}

fn c09_positions_test(ctx: &Ctx, kind: &u8, obs: &mut Obs) -> R {
    let e = if kind % 2 == 0 {
        Entry { val: Val::Stored("hunter2 password".to_owned()), notes: "notes".to_owned() }
    } else {
        Entry { val: Val::Gen { len: 16, set: 15 }, notes: String::new() }
    };
    let entries = (0..260u16)
        .map(|i| {
            let t = match kind / 2 {
                0 => Tamper::Bit((i & 1) as u8, i / 2 * 9 + *kind as u16),
                1 => Tamper::Char(i, ['A', '_', '=', 'z', '/', ' '][(i as usize + ctx.seed as usize) % 6]),
                2 => Tamper::CutText(i),
                _ => Tamper::Truncate((i & 1) as u8, i / 2 + 1),
            };
            (e.clone(), vec![t])
        })
        .collect();
    c09(ctx, &TamperCase { entries }, obs)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BaseTamper {
    salt: bool,
    hmac: bool,
    tampers: Vec<Tamper>,
}

fn base_tamper() -> BoxedStrategy<BaseTamper> {
    (0u8..4, vec(tamper(), 1..3))
        .prop_map(|(k, tampers)| BaseTamper { salt: k & 1 == 0, hmac: k != 0, tampers })
        .boxed()
}

fn c09_base(_: &Ctx, case: &BaseTamper, obs: &mut Obs) -> R {
    let mut w = tamper_writer();
    let mut raw = template().clone();
    let mut model = Model::new(TEMPLATE_PRIMARY);
    model.set("a.com", "me", "", Val::Stored("value".to_owned()));
    raw.extend(w.write(&model).into_iter().filter(|(k, _)| k.starts_with("site:")));
    let original = raw.clone();
    let other = original[&refimpl::site_key(&w.secret, "a.com")].clone();
    let mut same = true;
    for key in ["salt", "hmac-secret"] {
        if if key == "salt" { case.salt } else { case.hmac } {
            let mut v = original[key].clone();
            for t in &case.tampers {
                v = apply(t, &v, &other, b"\"AAAA\"");
            }
            if key == "salt" {
                // Salt bytes are interpreted as text, see derive_key()
                same &= base64::decode(&v).ok() == base64::decode(&original[key]).ok() || lenient(&v) == lenient(&original[key]);
            } else {
                same &= lenient(&v) == lenient(&original[key]);
            }
            raw.insert(key.to_owned(), v);
        }
    }
    if raw == original || original.values().any(|v| *v == raw["hmac-secret"]) && raw["hmac-secret"] != original["hmac-secret"] {
        return Ok(());
    }
    if !same {
        obs.nontrivial();
    }
    let h = Handle::with(raw.clone());
    let mut p = Passwords::new(AnyIO(Box::new(h.io())));
    match p.unlock(secret(TEMPLATE_PRIMARY)) {
        Err(_) => ensure!(!p.unlocked(), "unlocked after unlock failed"),
        Ok(()) => {
            ensure!(same, "unlock succeeded with tampered {:?}", case);
            match p.get("a.com", "me", "") {
                Ok(v) if v.expose_secret() == "value" => {}
                other => viol!("get returned {:?}", other.map(|v| v.expose_secret().clone())),
            }
        }
    }
    ensure!(h.data() == raw, "unlocking modified storage");
    Ok(())
}

// C10

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Style {
    seed: u64,
    salt: Vec<u8>,
    hmac: Vec<u8>,
}

struct Rnd(u64);
impl Rnd {
    fn next(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0 % n
    }
}

fn ws(r: &mut Rnd) -> &'static str {
    ["", "", "", " ", "\n", "\t", "\r\n", "  "][r.next(8) as usize]
}

/// JSON string with arbitrary but conforming escaping.
fn json_string(s: &str, r: &mut Rnd) -> String {
    let style = r.next(4);
    let mut out = String::from("\"");
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || style == 1 && !c.is_ascii() || style == 2 && r.next(3) == 0 || style == 3 {
            let short = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                _ => None,
            };
            match short {
                Some(e) if r.next(2) == 0 => out += e,
                _ => {
                    let mut buf = [0; 2];
                    for u in c.encode_utf16(&mut buf) {
                        out += &if r.next(2) == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                    }
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
    out
}

fn json_object(fields: &[(String, String)], r: &mut Rnd) -> String {
    let mut order: Vec<usize> = (0..fields.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.next(i as u64 + 1) as usize);
    }
    let mut out = format!("{}{{", ws(r));
    for (i, f) in order.into_iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out += ws(r);
        out += &json_string(&fields[f].0, r);
        out += ws(r);
        out.push(':');
        out += ws(r);
        out += &fields[f].1;
        out += ws(r);
    }
    if fields.is_empty() {
        out += ws(r);
    }
    out.push('}');
    out += ws(r);
    out
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FormatCase {
    primary: String,
    style: Style,
    entries: Vec<(String, String, String, Entry)>,
    aliases: Vec<(String, String)>,
    change: u8,
}

/// Bytes which are text in some encoding, or all the same
fn special_salt() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => vec(prop_oneof![1 => any::<char>(), 1 => prop::char::range('\u{80}', '\u{7ff}')], 8).prop_map(|v| {
            let mut text = String::new();
            for c in v {
                if text.len() + c.len_utf8() <= 16 {
                    text.push(c);
                }
            }
            text += &"0123456789abcdef"[text.len()..];
            text.into_bytes()
        }),
        1 => "[ -~]{16}".prop_map(String::into_bytes),
        1 => (select(vec![0u8, 0xff, 0x80, 0x7f, b' ']), Just(16usize)).prop_map(|(b, n)| vec![b; n]),
        1 => vec(0x80u8..=0x9f, 16),
    ]
    .boxed()
}

fn format_case() -> BoxedStrategy<FormatCase> {
    let style = (any::<u64>(), prop_oneof![3 => vec(any::<u8>(), 16), 1 => vec(any::<u8>(), 0..40), 1 => special_salt()], prop_oneof![3 => vec(any::<u8>(), 32), 1 => vec(any::<u8>(), 1..80)])
        .prop_map(|(seed, salt, hmac)| Style { seed: seed | 1, salt, hmac });
    (
        gens::primary(),
        style,
        vec((gens::site(), gens::name(), gens::revision(), entry()), 0..10),
        vec((gens::site(), gens::site()), 0..5),
        0u8..6,
    )
        .prop_map(|(primary, style, entries, aliases, change)| FormatCase { primary, style, entries, aliases, change })
        .boxed()
}

fn c10(ctx: &Ctx, case: &FormatCase, obs: &mut Obs) -> R {
    let mut model = Model::new(&case.primary);
    let mut w = Writer::new(&case.primary, &case.style.salt, &case.style.hmac);
    let mut r = Rnd(case.style.seed);
    let mut ids = (vec![], vec![], vec![]);
    for (s, n, rev, e) in &case.entries {
        let id = model.id(s, n, rev);
        model.ever.insert(id.0.clone());
        model.entries.insert(id, e.clone());
        ids.0.push(s.clone());
        ids.1.push(n.clone());
        ids.2.push(rev.clone());
    }
    for (s, t) in &case.aliases {
        // Conforming data has no alias chains
        let mut m = model.clone();
        if m.set_alias(s, t).is_ok() {
            model = m;
        }
        ids.0.push(s.clone());
    }
    let mut raw = w.base();
    let mut sites: BTreeMap<String, Option<String>> = BTreeMap::new();
    for s in &model.ever {
        // Site records of alias targets may be missing or present
        if model.has_passwords(s) || r.next(2) == 0 {
            sites.insert(s.clone(), None);
        }
    }
    for (s, a) in &model.aliases {
        sites.insert(s.clone(), Some(a.clone()));
    }
    for (s, a) in &sites {
        let mut fields = vec![("site".to_owned(), json_string(s, &mut r))];
        match a {
            Some(a) => fields.push(("alias".to_owned(), json_string(a, &mut r))),
            None => {
                if r.next(3) == 0 {
                    fields.push(("alias".to_owned(), "null".to_owned()));
                }
            }
        }
        let json = json_object(&fields, &mut r);
        w.put_site(&mut raw, s, json.as_bytes());
    }
    for (id, e) in &model.entries {
        let mut fields: Vec<(String, String)> = Writer::entry_json(id, e)
            .into_iter()
            .map(|(k, v)| {
                let v = match v {
                    serde_json::Value::String(s) => json_string(&s, &mut r),
                    v => v.to_string(),
                };
                (k, v)
            })
            .collect();
        if e.notes.is_empty() && r.next(3) == 0 {
            fields.push(("notes".to_owned(), "\"\"".to_owned()));
        }
        let json = json_object(&fields, &mut r);
        w.put_entry(&mut raw, id, json.as_bytes());
    }
    let mut fields: Vec<(String, String)> = raw.iter().map(|(k, v)| (k.clone(), json_string(v, &mut r))).collect();
    fields.sort();
    let data = json_object(&fields, &mut r);
    let file = json_object(
        &[
            ("application".to_owned(), json_string("pfp", &mut r)),
            ("format".to_owned(), "3".to_owned()),
            ("data".to_owned(), data),
        ],
        &mut r,
    );
    let dir = ctx.dir();
    let path = dir.join("imported.json");
    std::fs::write(&path, &file).map_err(infra("write"))?;
    if model.entries.len() > 1 {
        obs.nontrivial();
    }
    if !model.aliases.is_empty() {
        obs.class("aliases");
    }
    if std::str::from_utf8(&case.style.salt).is_ok() && !case.style.salt.is_ascii() {
        obs.class("salt is text");
    }
    if case.style.salt.len() != 16 {
        obs.class("unusual salt size");
    }
    obs.extra = raw.len() as u64;

    let io = ok("loading a conforming file", FileIO::load(&path))?;
    let mut p = Passwords::new(AnyIO(Box::new(io)));
    ensure!(p.initialized(), "conforming file isn't considered initialised");
    ok("unlocking a conforming file", p.unlock(secret(&case.primary)))?;
    ids.0.truncate(4);
    ids.1.truncate(2);
    ids.2.truncate(2);
    check_view(&p, &model, &ids.0, &ids.1, &ids.2)?;
    if let Some(((s, n, rev), e)) = model.entries.iter().find(|(_, e)| matches!(e.val, Val::Gen { .. })) {
        if model.resolve(s) == *s {
            let v = ok("get", p.get(s, n, rev))?;
            ensure!(*v.expose_secret() == model.value(&(s.clone(), n.clone(), rev.clone()), e), "generated password differs");
        }
    }

    // A change writes everything back in the same format
    let (s, n) = ("new site.example", "new");
    let key = refimpl::entry_key(&w.secret, s, n, "");
    match case.change {
        0 | 1 => {
            ok("set_stored", p.set_stored(s, n, "1", secret("pass\"w\u{1}örd")))?;
            model.set(s, n, "1", Val::Stored("pass\"w\u{1}örd".to_owned()));
        }
        2 => {
            ok("set_generated", p.set_generated(s, n, "2", 9, to_set(5)))?;
            model.set(s, n, "2", Val::Gen { len: 9, set: 5 });
            ok("set_notes", p.set_notes(s, n, "2", secret("some\nnotes")))?;
            model.set_notes(s, n, "2", "some\nnotes").map_err(|_| Fail::Infra("model".to_owned()))?;
        }
        3 => {
            ok("set_alias", p.set_alias("alias.example", s))?;
            let _ = model.set_alias("alias.example", s);
        }
        _ => return Ok(()),
    }
    obs.class("written back");
    let written = refimpl::parse_file(&std::fs::read(&path).map_err(infra("read"))?)
        .map_err(|e| Fail::Violation(format!("written file: {}", e)))?;
    let keys = refimpl::Keys { salt: w.salt.clone(), key: w.key.clone(), secret: w.secret.clone() };
    let decoded = refimpl::decode(&written, &keys).map_err(|e| Fail::Violation(format!("written file: {}", e)))?;
    refimpl::compare(&decoded, &model).map_err(|e| Fail::Violation(format!("written file: {}", e)))?;
    for (k, v) in &raw {
        ensure!(written.get(k) == Some(v), "unrelated value {} changed", k);
    }
    if case.change < 2 {
        ensure!(written.contains_key(&key), "entry isn't stored under the key other implementations use");
    }
    Ok(())
}

// C25

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WildCase {
    names: Vec<String>,
    sites: Vec<String>,
    aliases: Vec<(u8, String)>,
    patterns: Vec<String>,
}

fn wild_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[ab]{0,6}",
        3 => "[aAbB.-]{0,6}",
        1 => "[ab*?]{1,5}",
        1 => "[aäé€😀\\[\\]\\\\]{1,5}",
        1 => gens::text(8),
        1 => "(www\\.){1,2}[ab]{0,3}",
        1 => "[ab \t]{0,4}",
    ]
    .boxed()
}

fn pattern() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[ab*?]{0,6}",
        2 => "[aAbB.*?-]{0,7}",
        1 => wild_text(),
        1 => "[aäé€😀*?\\[\\]\\\\]{1,5}",
        1 => "(www\\.){1,2}[ab*?]{0,3}",
        1 => "[ab*? \t]{0,4}",
        1 => "[*ab ]?[Ww?]ww\\.[ab*]{0,2}",
        1 => select(vec!["*", "**", "?", "??", "*?", "?*", "*?*", "*a*b*"]).prop_map(|s: &str| s.to_owned()),
    ]
    .boxed()
}

fn wild_case() -> BoxedStrategy<WildCase> {
    (vec(wild_text(), 1..24), vec(wild_text(), 1..12), vec((0u8..12, wild_text()), 0..4), vec(pattern(), 8..24))
        .prop_map(|(names, sites, aliases, patterns)| WildCase { names, sites, aliases, patterns })
        .boxed()
}

/// Excludes the inputs affected by the known defect in the wildmatch crate.
pub fn wild_agrees(pattern: &str, text: &str) -> bool {
    wildmatch::WildMatch::new(pattern).matches(text) == refimpl::wild(pattern, text)
}

fn c25(_: &Ctx, case: &WildCase, obs: &mut Obs) -> R {
    let mut w = tamper_writer();
    let mut model = Model::new(TEMPLATE_PRIMARY);
    for (i, n) in case.names.iter().enumerate() {
        let rev = if i % 3 == 2 { "2" } else { "" };
        model.set("listed", n, rev, Val::Stored(i.to_string()));
        model.set("other site", n, "", Val::Stored("other".to_owned()));
    }
    for s in &case.sites {
        model.set(s, "name", "", Val::Gen { len: 5, set: 1 });
    }
    for (i, s) in &case.aliases {
        let target = &case.sites[*i as usize % case.sites.len()];
        if !model.aliases.values().any(|t| t == s) {
            let _ = model.set_alias(s, target);
        }
    }
    // Site record names are used as they are
    let mut raw = template().clone();
    raw.extend(w.write(&model).into_iter().filter(|(k, _)| k.starts_with("site:")));
    let p = open(raw, TEMPLATE_PRIMARY)?;
    let sites = listed_sites(&p, "*")?;
    refimpl::compare_sites(&sites, &model).map_err(Fail::Violation)?;
    for pat in &case.patterns {
        if case.names.iter().all(|n| wild_agrees(pat, n)) && wild_agrees(pat, "name") {
            let actual: Vec<Id> = listed(&p, "listed", pat)?.into_keys().collect();
            let expected: Vec<Id> = model
                .entries
                .keys()
                .filter(|(s, n, _)| s == "listed" && refimpl::wild(pat, n))
                .cloned()
                .collect();
            ensure!(actual == expected, "list with name pattern {:?} returned {:?}, expected {:?}", pat, actual, expected);
            obs.extra += 1;
            if !expected.is_empty() && expected.len() < case.names.len() {
                obs.nontrivial();
                obs.class("name pattern selects a proper subset");
            }
            if !pat.contains(['*', '?']) && expected.len() == 1 {
                obs.class("exact match");
            }
        }
        let all: Vec<&String> = sites.keys().collect();
        if all.iter().all(|s| wild_agrees(pat, s)) {
            let actual = listed_sites(&p, pat)?;
            let expected: BTreeMap<String, Option<String>> = sites
                .iter()
                .filter(|(s, alias)| {
                    refimpl::wild(pat, s) || alias.as_ref().map_or(false, |a| refimpl::wild(pat, a))
                })
                .map(|(s, a)| (s.clone(), a.clone()))
                .collect();
            ensure!(actual == expected, "list_sites({:?}) returned {:?}, expected {:?}", pat, actual, expected);
            if expected.iter().any(|(s, a)| a.is_some() && !refimpl::wild(pat, s)) {
                obs.class("alias selected by its target");
            }
            obs.extra += 1;
        }
    }
    Ok(())
}

fn wildmatch_probe(_: &Ctx) -> R {
    let mut w = tamper_writer();
    let mut model = Model::new(TEMPLATE_PRIMARY);
    model.set("a.com", "aaab", "", Val::Stored("x".to_owned()));
    let mut raw = template().clone();
    raw.extend(w.write(&model).into_iter().filter(|(k, _)| k.starts_with("site:")));
    let p = open(raw, TEMPLATE_PRIMARY)?;
    let n = listed(&p, "a.com", "*aab")?.len();
    ensure!(n == 1, "list with name pattern \"*aab\" doesn't return the password named \"aaab\"");
    Ok(())
}

/// recovery_codes is exercised here only for its nonce
#[allow(dead_code)]
fn unused() {
    let _ = recovery_codes::format_code;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            level: "exploration",
            rule: "A case is a primary password with up to 4 generated entries (arbitrary ids, lengths 1..64, all character sets, some with notes, read through aliases or after reopening); each value is compared to an independent implementation of the derivation. Non-trivial: always (each value is a fresh scrypt derivation).",
            assumptions: &["ids contain no NUL", "the scrypt crate computes scrypt"],
            subs: vec![
                Box::new(Gen { name: "derivation", quick: 200, thorough: 6000, strat: || gen_case(4), test: c04, shrink: 100 }),
                Box::new(Gen { name: "session", quick: 60, thorough: 2000, strat: derive_session, test: c04_session, shrink: 100 }),
            ],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "Generated values for arbitrary ids and for a grid over all lengths up to 24 and all 15 character sets are checked for length and composition; command line calls with arbitrary -l values and type switches are compared to the documented limits. Non-trivial: always.",
            assumptions: &[],
            subs: vec![
                Box::new(Gen { name: "composition", quick: 120, thorough: 4000, strat: || gen_case(10), test: c05, shrink: 100 }),
                Box::new(Enum { name: "grid", cases: c05_grid, test: c05_grid_test }),
                crate::extra::c05_cli(),
            ],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "Histories of library calls on a file with recognisable tokens as ids, passwords, notes and primary passwords; all bytes of all files left, of their JSON strings and their Base64 contents are searched for 15 encodings and digests of every token, and all values have to be authenticated ciphertext. The application run with generated commands, one-shot and in shells, also killed while saving; everything it writes to any file is recorded and searched in the same way. Non-trivial: at least two entries at the end, always for the application.",
            assumptions: &["only the listed encodings are recognised"],
            subs: vec![
                Box::new(Gen { name: "files", quick: 320, thorough: 6000, strat: secret_case, test: c07, shrink: 200 }),
                crate::extra::c07_cli(),
            ],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "Histories rewriting identical data, resetting, reopening and producing recovery codes; all nonces, salts, HMAC secrets and storage keys of all histories of the run have to be distinct and their bits balanced within 7 standard deviations. Non-trivial: always.",
            assumptions: &["values are observed at the StorageIO interface"],
            subs: vec![
                Box::new(Gen { name: "fresh", quick: 360, thorough: 12000, strat: fresh_case, test: c08, shrink: 200 }),
                Box::new(Enum { name: "bits", cases: |_| Ok(vec![0]), test: c08_bits }),
            ],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "Valid storage data with up to 24 entries, each modified by up to two of 15 kinds of tampering (bits, bytes, text, lengths, other keys, exchanged parts); every read of a tampered entry has to fail, all others have to give the original data. Plus every character/bit position of one value, and the same for salt and HMAC secret. Non-trivial: at least one entry is tampered with.",
            assumptions: &["whole valid values exchanged between entries are excluded", "text variations decoding to the same bytes may be accepted if the original value is returned"],
            subs: vec![
                Box::new(Gen { name: "entries", quick: 720, thorough: 16000, strat: tamper_case, test: c09, shrink: 600 }),
                Box::new(Enum { name: "positions", cases: c09_positions, test: c09_positions_test }),
                Box::new(Gen { name: "salt-and-secret", quick: 480, thorough: 10000, strat: base_tamper, test: c09_base, shrink: 300 }),
            ],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "Storage contents written by an independent implementation with random member order, white space, escaping, optional members, salt and secret sizes; the library has to show the same contents, and after a change the file has to decode strictly to the changed contents with all other values unchanged. Non-trivial: at least two entries.",
            assumptions: &["the independent reader/writer in refimpl.rs represents the format"],
            subs: vec![Box::new(Gen { name: "interop", quick: 480, thorough: 10000, strat: format_case, test: c10, shrink: 400 })],
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "Storages with up to 24 names, 12 sites and aliases over small alphabets, up to 24 patterns each; results of list and list_sites compared to a dynamic programming matcher. Non-trivial: a pattern selects some but not all names.",
            assumptions: &["pattern/name pairs affected by the recorded wildmatch defect are skipped"],
            subs: vec![
                Box::new(Gen { name: "filters", quick: 800, thorough: 16000, strat: wild_case, test: c25, shrink: 800 }),
                Box::new(Probe { key: "wildmatch-backtracking", test: wildmatch_probe }),
            ],
        },
    ]
}
