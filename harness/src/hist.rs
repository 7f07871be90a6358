//! Model-based histories of library calls: C01, C02, C03, C06, C14.

use crate::engine::*;
use crate::gens;
use crate::memio::Handle;
use crate::model::*;
use crate::refimpl::{self, Raw};
use crate::{ensure, viol};
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_io::{FileIO, StorageIO};
use pfp::storage_types::{CharacterSet, CharacterType, Password};
use proptest::collection::vec;
use proptest::prelude::*;
use secrecy::{ExposeSecret, SecretString};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::sync::OnceLock;

pub struct AnyIO(pub Box<dyn StorageIO>);
impl StorageIO for AnyIO {
    fn contains_key(&self, key: &str) -> bool {
        self.0.contains_key(key)
    }
    fn get(&self, key: &str) -> Result<&String, Error> {
        self.0.get(key)
    }
    fn set(&mut self, key: String, value: String) {
        self.0.set(key, value)
    }
    fn remove(&mut self, key: &str) -> Result<(), Error> {
        self.0.remove(key)
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        self.0.keys()
    }
    fn flush(&mut self) -> Result<(), Error> {
        self.0.flush()
    }
}

pub fn secret(s: &str) -> SecretString {
    SecretString::new(s.to_owned())
}

pub fn to_set(bits: u8) -> CharacterSet {
    let mut set = CharacterSet::empty();
    for (i, t) in [
        CharacterType::Lower,
        CharacterType::Upper,
        CharacterType::Digit,
        CharacterType::Symbol,
    ]
    .into_iter()
    .enumerate()
    {
        if bits & 1 << i != 0 {
            set.insert(t);
        }
    }
    set
}

pub fn from_set(set: CharacterSet) -> u8 {
    let mut bits = 0;
    for (i, t) in [
        CharacterType::Lower,
        CharacterType::Upper,
        CharacterType::Digit,
        CharacterType::Symbol,
    ]
    .into_iter()
    .enumerate()
    {
        if set.contains(t) {
            bits |= 1 << i;
        }
    }
    bits
}

pub fn err_matches(error: &Error, expected: MErr) -> bool {
    match expected {
        MErr::KeyMissing => matches!(error, Error::KeyMissing),
        MErr::NoSuchAlias => matches!(error, Error::NoSuchAlias),
        MErr::AliasToSelf => matches!(error, Error::AliasToSelf),
        MErr::SiteHasPasswords => matches!(error, Error::SiteHasPasswords),
    }
}

pub fn convert(p: &Password) -> (Id, Entry) {
    let id = p.id();
    let key = (
        id.site().to_owned(),
        id.name().to_owned(),
        id.revision().to_owned(),
    );
    let notes = p.notes().expose_secret().to_owned();
    let val = match p {
        Password::Stored(s) => Val::Stored(s.password().expose_secret().to_owned()),
        Password::Generated(g) => Val::Gen {
            len: g.length(),
            set: from_set(g.charset()),
        },
    };
    (key, Entry { val, notes })
}

/// Entries reported by list(), in a map; duplicates are violations.
pub fn listed<IO: StorageIO>(
    p: &Passwords<IO>,
    site: &str,
    pattern: &str,
) -> R<BTreeMap<Id, Entry>> {
    let mut result = BTreeMap::new();
    for password in p.list(site, pattern) {
        let (id, entry) = convert(&password);
        if let Password::Generated(g) = &password {
            ensure!(
                to_set(from_set(g.charset())) == g.charset(),
                "unknown character types"
            );
        }
        ensure!(
            result.insert(id.clone(), entry).is_none(),
            "list({:?}, {:?}) returned {:?} twice",
            site,
            pattern,
            id
        );
    }
    Ok(result)
}

pub fn listed_sites<IO: StorageIO>(
    p: &Passwords<IO>,
    pattern: &str,
) -> R<BTreeMap<String, Option<String>>> {
    let mut result = BTreeMap::new();
    for site in p.list_sites(pattern) {
        ensure!(
            result
                .insert(site.name().to_owned(), site.alias().map(|a| a.to_owned()))
                .is_none(),
            "list_sites({:?}) returned {:?} twice",
            pattern,
            site.name()
        );
    }
    Ok(result)
}

/// Compares everything the API reports with the model.
pub fn check_view<IO: StorageIO>(
    p: &Passwords<IO>,
    model: &Model,
    sites: &[String],
    names: &[String],
    revs: &[String],
) -> R {
    let reported = listed_sites(p, "*")?;
    refimpl::compare_sites(&reported, model).map_err(Fail::Violation)?;

    let mut all: BTreeSet<&str> = sites.iter().map(|s| s.as_str()).collect();
    all.extend(model.entries.keys().map(|(s, _, _)| s.as_str()));
    all.extend(model.aliases.keys().map(|s| s.as_str()));
    // Names found in storage go through normalisation again
    all.retain(|s| !(s.starts_with("www.") && !sites.iter().any(|x| x == s)));
    for site in all {
        let resolved = model.resolve(site);
        let expected: BTreeMap<Id, Entry> = model
            .entries
            .iter()
            .filter(|((s, _, _), _)| *s == resolved)
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        let actual = listed(p, site, "*")?;
        ensure!(
            actual == expected,
            "list({:?}) returned {:?}, expected {:?}",
            site,
            actual,
            expected
        );
        match (p.get_alias(site), model.get_alias(site)) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(a), Err(b)) if err_matches(&a, b) => {}
            (a, b) => viol!("get_alias({:?}) returned {:?}, expected {:?}", site, a, b),
        }
    }
    for s in sites {
        for n in names {
            for r in revs {
                let expected = model.get(s, n, r);
                match p.has(s, n, r) {
                    Ok(v) if v == expected.is_some() => {}
                    other => viol!(
                        "has({:?}, {:?}, {:?}) returned {:?}, expected {}",
                        s,
                        n,
                        r,
                        other,
                        expected.is_some()
                    ),
                }
            }
        }
    }
    for ((s, n, r), e) in &model.entries {
        // Addressing by stored names requires them to survive normalisation
        let spelled = format!("www.{}", s);
        check_notes(p, &spelled, n, r, Some(e))?;
        if let Val::Stored(_) = &e.val {
            check_get(p, model, &spelled, n, r)?;
        }
    }
    Ok(())
}

fn check_notes<IO: StorageIO>(
    p: &Passwords<IO>,
    s: &str,
    n: &str,
    r: &str,
    expected: Option<&Entry>,
) -> R {
    match (p.get_notes(s, n, r), expected) {
        (Ok(v), Some(e)) if *v.expose_secret() == e.notes => Ok(()),
        (Err(Error::KeyMissing), None) => Ok(()),
        (other, e) => viol!(
            "get_notes({:?}, {:?}, {:?}) returned {:?}, expected {:?}",
            s,
            n,
            r,
            other.map(|v| v.expose_secret().to_owned()),
            e.map(|e| &e.notes)
        ),
    }
}

fn check_get<IO: StorageIO>(p: &Passwords<IO>, model: &Model, s: &str, n: &str, r: &str) -> R {
    let id = model.id(s, n, r);
    let expected = model.entries.get(&id).map(|e| model.value(&id, e));
    match (p.get(s, n, r), &expected) {
        (Ok(v), Some(e)) if v.expose_secret() == e => Ok(()),
        (Err(Error::KeyMissing), None) => Ok(()),
        (other, e) => viol!(
            "get({:?}, {:?}, {:?}) returned {:?}, expected {:?}",
            s,
            n,
            r,
            other.map(|v| v.expose_secret().to_owned()),
            e
        ),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Gen { s: u8, n: u8, r: u8, len: usize, set: u8 },
    Store { s: u8, n: u8, r: u8, pw: String },
    Notes { s: u8, n: u8, r: u8, text: String },
    /// Changes the current notes, or the stored password, slightly
    Edit { s: u8, n: u8, r: u8, variant: u8, notes: bool },
    Remove { s: u8, n: u8, r: u8 },
    Has { s: u8, n: u8, r: u8 },
    Get { s: u8, n: u8, r: u8 },
    GetNotes { s: u8, n: u8, r: u8 },
    Alias { s: u8, t: u8 },
    GetAlias { s: u8 },
    Unalias { s: u8 },
    /// Remove records of sites without passwords, like the list command does.
    Sweep,
    Reset { primary: String },
    Lock,
    Unlock,
    /// Unlocking with a variation of the right password.
    WrongUnlock { variant: u8, other: String },
    Reopen,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    /// The save done by this operation fails.
    #[serde(default)]
    pub fail: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub sites: Vec<String>,
    pub names: Vec<String>,
    pub revs: Vec<String>,
    pub primary: String,
    pub steps: Vec<Step>,
    /// Sites, passwords in each of them and additional aliases which are there initially
    #[serde(default)]
    pub bulk: (u16, u16, u16),
}

/// Weights: data ops, reads, aliases, reset, lock, reopen
#[derive(Clone, Copy)]
pub struct Mix {
    pub gen: u32,
    pub data: u32,
    pub read: u32,
    pub get: u32,
    pub alias: u32,
    pub sweep: u32,
    pub reset: u32,
    pub lock: u32,
    pub reopen: u32,
    pub fail: f64,
    pub max: usize,
}

pub fn op(mix: Mix) -> BoxedStrategy<Op> {
    let i = || 0u8..12;
    let mut options: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            mix.gen,
            (i(), i(), i(), gens::length(), gens::charset())
                .prop_map(|(s, n, r, len, set)| Op::Gen { s, n, r, len, set })
                .boxed(),
        ),
        (
            mix.data,
            (i(), i(), i(), gens::secret())
                .prop_map(|(s, n, r, pw)| Op::Store { s, n, r, pw })
                .boxed(),
        ),
        (
            mix.data,
            (i(), i(), i(), gens::secret())
                .prop_map(|(s, n, r, text)| Op::Notes { s, n, r, text })
                .boxed(),
        ),
        (
            mix.data,
            (i(), i(), i(), any::<u8>(), prop::bool::weighted(0.7))
                .prop_map(|(s, n, r, variant, notes)| Op::Edit { s, n, r, variant, notes })
                .boxed(),
        ),
        (
            mix.data,
            (i(), i(), i()).prop_map(|(s, n, r)| Op::Remove { s, n, r }).boxed(),
        ),
        (
            mix.read,
            prop_oneof![
                (i(), i(), i()).prop_map(|(s, n, r)| Op::Has { s, n, r }),
                (i(), i(), i()).prop_map(|(s, n, r)| Op::GetNotes { s, n, r }),
            ]
            .boxed(),
        ),
        (
            mix.get,
            (i(), i(), i()).prop_map(|(s, n, r)| Op::Get { s, n, r }).boxed(),
        ),
        (
            mix.alias * 3,
            (i(), i()).prop_map(|(s, t)| Op::Alias { s, t }).boxed(),
        ),
        (mix.alias, i().prop_map(|s| Op::Unalias { s }).boxed()),
        (mix.alias, i().prop_map(|s| Op::GetAlias { s }).boxed()),
        (mix.sweep, Just(Op::Sweep).boxed()),
        (
            mix.reset,
            gens::primary().prop_map(|primary| Op::Reset { primary }).boxed(),
        ),
        (mix.lock, Just(Op::Lock).boxed()),
        (mix.lock, Just(Op::Unlock).boxed()),
        (
            mix.lock,
            (0u8..10, gens::primary())
                .prop_map(|(variant, other)| Op::WrongUnlock { variant, other })
                .boxed(),
        ),
        (mix.reopen, Just(Op::Reopen).boxed()),
    ];
    options.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(options).boxed()
}

pub fn case(mix: Mix) -> BoxedStrategy<Case> {
    let pool = (
        vec(gens::site(), 1..6),
        vec(gens::name(), 1..4),
        vec(gens::revision(), 1..4),
    );
    let step = (op(mix), prop::bool::weighted(mix.fail)).prop_map(|(op, fail)| Step { op, fail });
    let bulk = prop_oneof![
        24 => Just((0u16, 0u16, 0u16)),
        1 => (1u16..4, 50u16..300, 0u16..4),
        1 => (20u16..140, 0u16..4, 0u16..10),
        1 => (1u16..6, 0u16..3, 20u16..150),
    ];
    (pool, gens::primary(), vec(step, 1..mix.max), bulk)
        .prop_map(|((sites, names, revs), primary, mut steps, bulk)| {
            if bulk.0 > 0 {
                // Each of them takes a while
                steps.truncate(10);
            }
            Case { sites, names, revs, primary, steps, bulk }
        })
        .boxed()
}

pub const TEMPLATE_PRIMARY: &str = "template primary";

/// Initialised empty storage data.
pub fn template() -> &'static Raw {
    static RAW: OnceLock<Raw> = OnceLock::new();
    RAW.get_or_init(|| {
        refimpl::Writer::new(TEMPLATE_PRIMARY, &[1, 200, 3, 4, 5, 6, 255, 8, 9, 10, 11, 128, 13, 0, 15, 16], &[42; 32]).base()
    })
}

/// Storage data with the initial contents, none of it through the application
pub fn prefilled(case: &Case) -> (Raw, Model) {
    let mut model = Model::new(TEMPLATE_PRIMARY);
    let (sites, names, aliases) = case.bulk;
    if sites == 0 {
        return (template().clone(), model);
    }
    let site = |i: u16| match case.sites.get(i as usize) {
        Some(s) => normalize(s).to_owned(),
        None => format!("bulk{}.com", i),
    };
    for i in 0..sites {
        for n in 0..names {
            let val = if n % 9 == 8 { Val::Gen { len: 12, set: 15 } } else { Val::Stored(format!("value {} {}", i, n)) };
            let rev = ["", "2", "10"][n as usize % 3];
            model.set(&site(i), &format!("bulk{}", n / 3), rev, val);
        }
    }
    for n in 0..aliases {
        let _ = model.set_alias(&format!("alias{}.com", n), &site(n % sites));
    }
    let mut raw = template().clone();
    raw.extend(crate::crypto::tamper_writer().write(&model).into_iter().filter(|(k, _)| k.starts_with("site:")));
    (raw, model)
}

pub enum Backend {
    Mem(Handle),
    File(PathBuf),
}

impl Backend {
    pub fn open(&self) -> R<Passwords<AnyIO>> {
        Ok(Passwords::new(AnyIO(match self {
            Self::Mem(h) => Box::new(h.io()),
            Self::File(path) => {
                if path.exists() {
                    match FileIO::load(path) {
                        Ok(io) => Box::new(io),
                        Err(e) => viol!("storage file cannot be loaded: {:?}", e),
                    }
                } else {
                    Box::new(FileIO::new(path))
                }
            }
        })))
    }

    pub fn raw(&self) -> R<Raw> {
        match self {
            Self::Mem(h) => Ok(h.data()),
            Self::File(path) => {
                let bytes = std::fs::read(path).map_err(|e| {
                    Fail::Violation(format!("storage file cannot be read: {}", e))
                })?;
                refimpl::parse_file(&bytes)
                    .map_err(|e| Fail::Violation(format!("storage file: {}", e)))
            }
        }
    }
}

/// Which parts to verify after every step.
#[derive(Clone, Copy, Default)]
pub struct Checks {
    pub view: bool,
    pub disk: bool,
    pub frozen: bool,
}

pub struct Session<'a> {
    pub case: &'a Case,
    pub backend: Backend,
    pub p: Passwords<AnyIO>,
    /// What the session should show.
    pub model: Model,
    /// What should be on disk; None while uninitialised.
    pub disk: Option<Model>,
    /// Session data is initialised
    pub init: bool,
    pub locked: bool,
    pub keys: HashMap<(String, Vec<u8>), Vec<u8>>,
    pub failed_saves: u32,
    pub reopened: u32,
}

pub fn near_miss(primary: &str, variant: u8, other: &str) -> String {
    match variant {
        0 => format!("{} ", primary),
        1 => format!(" {}", primary),
        2 => primary.chars().skip(1).collect(),
        3 => {
            let mut s = primary.to_owned();
            s.pop();
            s
        }
        4 => primary
            .chars()
            .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
        5 => format!("{}{}", primary, primary),
        6 => format!("{}\0", primary),
        7 => String::new(),
        8 => primary.replace('a', "а").replace('e', "е"),
        _ => other.to_owned(),
    }
}

/// Almost the same text
fn edited(text: &str, variant: u8) -> String {
    match variant % 12 {
        0 => text.to_owned(),
        1 => format!("{} ", text),
        2 => format!(" {}", text),
        3 => format!("{}\n", text),
        4 => text.trim().to_owned(),
        5 => text.to_uppercase(),
        6 => text.to_lowercase(),
        7 => text.chars().rev().collect(),
        8 => text.chars().skip(1).collect(),
        9 => format!("{0}{0}", text),
        10 => String::new(),
        _ => {
            let mut s = text.to_owned();
            s.pop();
            s
        }
    }
}

impl<'a> Session<'a> {
    pub fn s(&self, i: u8) -> &'a str {
        &self.case.sites[i as usize % self.case.sites.len()]
    }
    pub fn n(&self, i: u8) -> &'a str {
        &self.case.names[i as usize % self.case.names.len()]
    }
    pub fn r(&self, i: u8) -> &'a str {
        &self.case.revs[i as usize % self.case.revs.len()]
    }

    fn set_fail(&self, fail: bool) {
        match &self.backend {
            Backend::Mem(h) => h.fail_next(fail),
            Backend::File(path) => {
                // A directory in place of the storage file makes any way of saving fail
                let parked = path.with_extension("parked");
                if fail {
                    let _ = std::fs::rename(path, &parked);
                    std::fs::create_dir_all(path.join("x")).expect("harness: mkdir");
                } else if path.is_dir() {
                    let _ = std::fs::remove_dir_all(path);
                    let _ = std::fs::rename(&parked, path);
                }
            }
        }
    }

    /// Evaluates the outcome of an operation that should succeed and save data.
    fn saved(&mut self, what: &str, fail: bool, result: Result<(), Error>) -> R {
        match (fail, result) {
            (false, Ok(())) => {
                self.disk = Some(self.model.clone());
                Ok(())
            }
            (true, Err(Error::FileWriteFailure { .. } | Error::CreateDirFailure { .. })) => {
                self.failed_saves += 1;
                Ok(())
            }
            (_, other) => viol!(
                "{} returned {:?}{}",
                what,
                other,
                if fail { " while saving fails" } else { "" }
            ),
        }
    }

    /// Runs one operation against the real thing and the model.
    pub fn step(&mut self, step: &Step) -> R {
        // Reading isn't affected
        let fail = step.fail && !matches!(step.op, Op::Reopen | Op::Unlock);
        if fail {
            self.set_fail(true);
        }
        let r = self.step_inner(&step.op, fail);
        if fail {
            self.set_fail(false);
        }
        r
    }

    fn refused<T: std::fmt::Debug>(&self, what: &str, result: Result<T, Error>) -> R {
        match result {
            Err(Error::PasswordsLocked) => Ok(()),
            other => viol!("{} on locked passwords returned {:?}", what, other.map(|_| "success")),
        }
    }

    fn step_inner(&mut self, op: &Op, fail: bool) -> R {
        let what = format!("{:?}", op);
        match op {
            Op::Gen { s, n, r, len, set } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                let result = self.p.set_generated(s, n, r, *len, to_set(*set));
                if self.locked {
                    return self.refused(&what, result);
                }
                self.model.set(s, n, r, Val::Gen { len: *len, set: *set });
                self.saved(&what, fail, result)
            }
            Op::Store { s, n, r, pw } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                let result = self.p.set_stored(s, n, r, secret(pw));
                if self.locked {
                    return self.refused(&what, result);
                }
                self.model.set(s, n, r, Val::Stored(pw.clone()));
                self.saved(&what, fail, result)
            }
            Op::Notes { s, n, r, text } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                let result = self.p.set_notes(s, n, r, secret(text));
                if self.locked {
                    return self.refused(&what, result);
                }
                let expected = self.model.set_notes(s, n, r, text);
                self.outcome(&what, fail, result, expected)
            }
            Op::Edit { s, n, r, variant, notes } => {
                let entry = self.model.get(self.s(*s), self.n(*n), self.r(*r)).cloned();
                let (s, n, r) = (*s, *n, *r);
                match entry {
                    Some(Entry { val: Val::Stored(pw), .. }) if !notes => {
                        self.step_inner(&Op::Store { s, n, r, pw: edited(&pw, *variant) }, fail)
                    }
                    Some(Entry { val: Val::Gen { len, set }, .. }) if !notes => {
                        let (len, set) = if variant & 1 == 0 { (len, set) } else { (len + 1, set) };
                        self.step_inner(&Op::Gen { s, n, r, len, set }, fail)
                    }
                    e => {
                        let text = e.map(|e| e.notes).unwrap_or_default();
                        self.step_inner(&Op::Notes { s, n, r, text: edited(&text, *variant) }, fail)
                    }
                }
            }
            Op::Remove { s, n, r } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                let result = self.p.remove(s, n, r);
                if self.locked {
                    return self.refused(&what, result);
                }
                let expected = self.model.remove(s, n, r);
                self.outcome(&what, fail, result, expected)
            }
            Op::Has { s, n, r } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                let result = self.p.has(s, n, r);
                if self.locked {
                    return self.refused(&what, result);
                }
                let expected = self.model.get(s, n, r).is_some();
                match result {
                    Ok(v) if v == expected => Ok(()),
                    other => viol!("{} returned {:?}, expected {}", what, other, expected),
                }
            }
            Op::Get { s, n, r } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                if self.locked {
                    return self.refused(&what, self.p.get(s, n, r));
                }
                check_get(&self.p, &self.model, s, n, r)
            }
            Op::GetNotes { s, n, r } => {
                let (s, n, r) = (self.s(*s), self.n(*n), self.r(*r));
                if self.locked {
                    return self.refused(&what, self.p.get_notes(s, n, r));
                }
                check_notes(&self.p, s, n, r, self.model.get(s, n, r))
            }
            Op::Alias { s, t } => {
                let (s, t) = (self.s(*s), self.s(*t));
                let result = self.p.set_alias(s, t);
                if self.locked {
                    return self.refused(&what, result);
                }
                match self.model.set_alias(s, t) {
                    Ok(()) => self.saved(&what, fail, result),
                    Err(errors) => match &result {
                        Err(e) if errors.iter().any(|x| err_matches(e, *x)) => Ok(()),
                        _ => viol!(
                            "set_alias({:?}, {:?}) returned {:?}, expected {:?}",
                            s,
                            t,
                            result,
                            errors
                        ),
                    },
                }
            }
            Op::GetAlias { s } => {
                let s = self.s(*s);
                let result = self.p.get_alias(s);
                if self.locked {
                    return self.refused(&what, result);
                }
                match (result, self.model.get_alias(s)) {
                    (Ok(a), Ok(b)) if a == b => Ok(()),
                    (Err(a), Err(b)) if err_matches(&a, b) => Ok(()),
                    (a, b) => viol!("get_alias({:?}) returned {:?}, expected {:?}", s, a, b),
                }
            }
            Op::Unalias { s } => {
                let s = self.s(*s);
                let result = self.p.remove_alias(s);
                if self.locked {
                    return self.refused(&what, result);
                }
                let expected = self.model.remove_alias(s);
                self.outcome(&what, fail, result, expected)
            }
            Op::Sweep => {
                if self.locked {
                    let result = self.p.remove_sites(&["a.com".to_owned()]);
                    return self.refused(&what, result);
                }
                let sites: Vec<String> = listed_sites(&self.p, "*")?
                    .into_iter()
                    .filter(|(s, alias)| alias.is_none() && !self.model.has_passwords(s))
                    .map(|(s, _)| s)
                    .collect();
                let result = self.p.remove_sites(&sites);
                if sites.is_empty() {
                    return match result {
                        Ok(()) => Ok(()),
                        other => viol!("remove_sites([]) returned {:?}", other),
                    };
                }
                for s in &sites {
                    self.model.ever.remove(s);
                }
                self.saved(&what, fail, result)
            }
            Op::Reset { primary } => {
                let result = self.p.reset(secret(primary));
                self.model = Model::new(primary);
                self.locked = false;
                self.init = true;
                self.saved(&what, fail, result)
            }
            Op::Lock => {
                self.p.lock();
                self.locked = true;
                Ok(())
            }
            Op::Unlock => {
                let primary = self.model.primary.clone();
                let result = self.p.unlock(secret(&primary));
                if !self.init {
                    return match result {
                        Err(Error::StorageNotInitialized) => Ok(()),
                        other => viol!("unlock of uninitialised storage returned {:?}", other),
                    };
                }
                match result {
                    Ok(()) => {
                        self.locked = false;
                        Ok(())
                    }
                    other => viol!("unlock with the right password returned {:?}", other),
                }
            }
            Op::WrongUnlock { variant, other } => {
                let attempt = near_miss(&self.model.primary, *variant, other);
                // HMAC pads short keys with zero bytes, trailing NULs don't matter to scrypt
                if attempt.trim_end_matches('\0') == self.model.primary.trim_end_matches('\0') {
                    return Ok(());
                }
                let result = self.p.unlock(secret(&attempt));
                match result {
                    Err(Error::StorageNotInitialized) if !self.init => Ok(()),
                    Err(Error::DecryptionFailure) if self.init => Ok(()),
                    other => viol!(
                        "unlock with {:?} instead of {:?} returned {:?}",
                        attempt,
                        self.model.primary,
                        other
                    ),
                }
            }
            Op::Reopen => {
                self.reopen()?;
                Ok(())
            }
        }?;
        Ok(())
    }

    pub fn reopen(&mut self) -> R {
        self.p = self.backend.open()?;
        self.reopened += 1;
        match self.disk.clone() {
            None => {
                self.init = false;
                self.locked = true;
                self.model = Model::new(&self.model.primary);
                ensure!(!self.p.initialized(), "empty storage is initialised after reopening");
            }
            Some(m) => {
                self.model = m;
                self.init = true;
                ensure!(self.p.initialized(), "storage is not initialised after reopening");
                ensure!(!self.p.unlocked(), "storage is unlocked after reopening");
                if let Err(e) = self.p.unlock(secret(&self.model.primary)) {
                    viol!("unlock after reopening failed: {:?}", e);
                }
                self.locked = false;
            }
        }
        Ok(())
    }

    fn outcome(
        &mut self,
        what: &str,
        fail: bool,
        result: Result<(), Error>,
        expected: Result<(), MErr>,
    ) -> R {
        match expected {
            Ok(()) => self.saved(what, fail, result),
            Err(e) => match result {
                Err(a) if err_matches(&a, e) => Ok(()),
                other => viol!("{} returned {:?}, expected {:?}", what, other, e),
            },
        }
    }

    pub fn check_state(&self) -> R {
        ensure!(
            self.p.unlocked() == !self.locked,
            "unlocked() is {}, expected {}",
            self.p.unlocked(),
            !self.locked
        );
        ensure!(
            self.p.initialized() == self.init,
            "initialized() is {}, expected {}",
            self.p.initialized(),
            self.init
        );
        Ok(())
    }

    pub fn check_view(&self) -> R {
        if self.locked {
            return Ok(());
        }
        check_view(
            &self.p,
            &self.model,
            &self.case.sites,
            &self.case.names,
            &self.case.revs,
        )
    }

    pub fn check_disk(&mut self) -> R {
        let Some(model) = &self.disk else {
            return Ok(());
        };
        let raw = self.backend.raw()?;
        let salt = raw
            .get("salt")
            .and_then(|s| base64::decode(s).ok())
            .ok_or_else(|| Fail::Violation("stored data has no valid salt".to_owned()))?;
        ensure!(salt.len() == 16, "salt has {} bytes", salt.len());
        let key = self
            .keys
            .entry((model.primary.clone(), salt.clone()))
            .or_insert_with(|| refimpl::derive_key(&model.primary, &salt))
            .clone();
        let keys = refimpl::keys_with(&raw, salt, key).map_err(|e| {
            Fail::Violation(format!("stored data doesn't open with the primary password: {}", e))
        })?;
        let decoded = refimpl::decode(&raw, &keys)
            .map_err(|e| Fail::Violation(format!("stored data: {}", e)))?;
        refimpl::compare(&decoded, model)
            .map_err(|e| Fail::Violation(format!("stored data: {}", e)))
    }
}

pub fn describe_classes(case: &Case, obs: &mut Obs, session: &Session) {
    if case.bulk.0 > 0 {
        obs.class("large storage");
    }
    obs.extra = case.steps.len() as u64;
    let mut seen: BTreeMap<Id, u32> = BTreeMap::new();
    let mut m = Model::new("");
    for step in &case.steps {
        let (s, n, r) = match &step.op {
            Op::Gen { s, n, r, .. } | Op::Store { s, n, r, .. } => (s, n, r),
            Op::Notes { s, n, r, .. } => {
                if m.get(session.s(*s), session.n(*n), session.r(*r)).is_some() {
                    obs.class("notes set on existing entry");
                }
                continue;
            }
            Op::Edit { s, n, r, notes, .. } => {
                if m.get(session.s(*s), session.n(*n), session.r(*r)).is_some() {
                    obs.class(if *notes { "notes changed slightly" } else { "password changed slightly" });
                }
                continue;
            }
            Op::Remove { s, n, r } => {
                if m.remove(session.s(*s), session.n(*n), session.r(*r)).is_ok() {
                    obs.class("existing entry removed");
                } else {
                    obs.class("missing entry removed");
                }
                continue;
            }
            Op::Alias { s, t } => {
                let site = normalize(session.s(*s)).to_owned();
                if m.aliases.values().any(|v| *v == site) {
                    obs.class("alias target becomes alias");
                }
                match m.set_alias(session.s(*s), session.s(*t)) {
                    Ok(()) => obs.class("alias made"),
                    Err(_) => obs.class("alias refused"),
                }
                continue;
            }
            Op::Unalias { s } => {
                if m.remove_alias(session.s(*s)).is_ok() {
                    obs.class("alias removed");
                }
                continue;
            }
            Op::Reset { .. } => {
                m = Model::new("");
                obs.class("reset");
                continue;
            }
            Op::WrongUnlock { .. } => {
                obs.class("wrong unlock");
                continue;
            }
            _ => continue,
        };
        let (s, n, r) = (session.s(*s), session.n(*n), session.r(*r));
        let id = m.id(s, n, r);
        if normalize(s) != id.0 {
            obs.class("entry added through alias");
        }
        let count = seen.entry(id).or_default();
        *count += 1;
        if *count == 2 {
            obs.class("entry overwritten or re-added");
        }
        m.set(s, n, r, Val::Stored(String::new()));
    }
    if session.failed_saves > 0 {
        obs.class("failed save");
    }
    if session.reopened > 0 {
        obs.class("reopened");
    }
}

fn start<'a>(case: &'a Case, backend: Backend, primary: &str, init: bool) -> R<Session<'a>> {
    start_with(case, backend, Model::new(primary), init)
}

fn start_with<'a>(case: &'a Case, backend: Backend, model: Model, init: bool) -> R<Session<'a>> {
    let mut p = backend.open()?;
    let primary = &model.primary;
    if init {
        if let Err(e) = p.unlock(secret(primary)) {
            viol!("cannot unlock valid storage: {:?}", e);
        }
    }
    Ok(Session {
        case,
        backend,
        p,
        disk: if init { Some(model.clone()) } else { None },
        model,
        init,
        locked: !init,
        keys: HashMap::new(),
        failed_saves: 0,
        reopened: 0,
    })
}

fn mem_template(case: &Case) -> R<Session<'_>> {
    let (raw, model) = prefilled(case);
    start_with(case, Backend::Mem(Handle::with(raw)), model, true)
}

fn run(s: &mut Session, case: &Case, checks: Checks) -> R {
    for (i, step) in case.steps.iter().enumerate() {
        let before = if checks.frozen {
            match &s.backend {
                Backend::Mem(h) => Some((h.data(), h.flushes())),
                _ => None,
            }
        } else {
            None
        };
        let locked = s.locked;
        s.step(step).map_err(|e| prefix(e, i, step))?;
        let r = (|| {
            s.check_state()?;
            if let (true, Some((data, flushes)), Backend::Mem(h)) = (locked, before, &s.backend) {
                if !matches!(step.op, Op::Reset { .. }) {
                    ensure!(
                        h.data() == data && h.flushes() == flushes,
                        "operation on locked passwords changed stored data"
                    );
                }
            }
            if checks.view {
                s.check_view()?;
            }
            if checks.disk {
                s.check_disk()?;
            }
            Ok(())
        })();
        r.map_err(|e| prefix(e, i, step))?;
    }
    Ok(())
}

fn prefix(e: Fail, i: usize, step: &Step) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("after step {} ({:?}): {}", i, step.op, m)),
        e => e,
    }
}

fn c01(_: &Ctx, case: &Case, obs: &mut Obs) -> R {
    let mut s = mem_template(case)?;
    let r = run(
        &mut s,
        case,
        Checks {
            view: true,
            ..Checks::default()
        },
    );
    describe_classes(case, obs, &s);
    if obs.classes.contains(&"entry overwritten or re-added")
        || obs.classes.contains(&"existing entry removed")
        || obs.classes.contains(&"notes set on existing entry")
    {
        obs.nontrivial();
    }
    r
}

const C01: Mix = Mix { gen: 5, data: 8, read: 4, get: 2, alias: 1, sweep: 1, reset: 0, lock: 0, reopen: 0, fail: 0.0, max: 40 };
const C01_FULL: Mix = Mix { gen: 5, data: 8, read: 4, get: 2, alias: 1, sweep: 1, reset: 1, lock: 0, reopen: 1, fail: 0.0, max: 30 };
const C02: Mix = Mix { gen: 2, data: 4, read: 2, get: 1, alias: 6, sweep: 1, reset: 0, lock: 0, reopen: 0, fail: 0.0, max: 30 };
const C03: Mix = Mix { gen: 3, data: 5, read: 1, get: 1, alias: 2, sweep: 1, reset: 1, lock: 1, reopen: 2, fail: 0.0, max: 25 };
const C06: Mix = Mix { gen: 1, data: 2, read: 1, get: 1, alias: 1, sweep: 1, reset: 1, lock: 5, reopen: 1, fail: 0.0, max: 25 };
const C14: Mix = Mix { gen: 3, data: 5, read: 1, get: 1, alias: 3, sweep: 2, reset: 2, lock: 2, reopen: 2, fail: 0.3, max: 25 };

fn c02(_: &Ctx, case: &Case, obs: &mut Obs) -> R {
    let mut s = mem_template(case)?;
    let r = run(
        &mut s,
        case,
        Checks {
            view: true,
            ..Checks::default()
        },
    );
    describe_classes(case, obs, &s);
    if obs.classes.contains(&"alias made") {
        obs.nontrivial();
    }
    r?;
    // No alias chains on disk either
    s.check_disk()?;
    let sites = listed_sites(&s.p, "*")?;
    for (site, alias) in &sites {
        if let Some(a) = alias {
            ensure!(
                !matches!(sites.get(a), Some(Some(_))),
                "alias {:?} points to {:?} which is an alias itself",
                site,
                a
            );
        }
    }
    Ok(())
}

/// All short histories over three sites.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AliasSeq(Vec<u8>);

fn alias_sequences(ctx: &Ctx) -> R<Vec<Vec<Vec<u8>>>> {
    // 0..6 alias pairs, 6..9 unalias, 9..12 store, 12..15 remove
    let len = if ctx.tier == Tier::Quick { 3 } else { 4 };
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..len {
        seqs = seqs
            .into_iter()
            .flat_map(|s| {
                (0..15u8).map(move |o| {
                    let mut n = s.clone();
                    n.push(o);
                    n
                })
            })
            .collect();
    }
    // Batches share one unlocked storage, each starts from a cleared one
    Ok(seqs.chunks(25).map(|c| c.to_vec()).collect())
}

fn c02_enum(_: &Ctx, batch: &Vec<Vec<u8>>, obs: &mut Obs) -> R {
    obs.nontrivial();
    let sites: Vec<String> = ["a", "b", "c"].iter().map(|s| s.to_string()).collect();
    let mut case = Case {
        sites: sites.clone(),
        names: vec!["n".to_owned()],
        revs: vec!["".to_owned()],
        primary: String::new(),
        steps: Vec::new(),
        bulk: (0, 0, 0),
    };
    // Different site names per sequence keep sequences independent of each other
    for (k, seq) in batch.iter().enumerate() {
        let base = case.sites.len() as u8;
        if k > 0 {
            for s in ["a", "b", "c"] {
                case.sites.push(format!("{}{}", s, k));
            }
        }
        let off = if k > 0 { base } else { 0 };
        for o in seq {
            let op = match *o {
                o @ 0..=5 => {
                    let s = o / 2;
                    let t = (s + 1 + o % 2) % 3;
                    Op::Alias { s: off + s, t: off + t }
                }
                o @ 6..=8 => Op::Unalias { s: off + o - 6 },
                o @ 9..=11 => Op::Store { s: off + o - 9, n: 0, r: 0, pw: format!("p{}", o) },
                o => Op::Remove { s: off + o - 12, n: 0, r: 0 },
            };
            case.steps.push(Step { op, fail: false });
        }
    }
    obs.extra = case.steps.len() as u64;
    let mut s = mem_template(&case)?;
    run(
        &mut s,
        &case,
        Checks {
            view: true,
            ..Checks::default()
        },
    )?;
    s.check_disk()
}

fn c03(ctx: &Ctx, case: &Case, obs: &mut Obs) -> R {
    let dir = ctx.dir();
    // Parent directories don't exist yet
    let path = match case.primary.len() % 3 {
        0 => dir.join("storage.json"),
        1 => dir.join("sub/storage.json"),
        _ => dir.join("sub/more dirs/ünï/s"),
    };
    let mut s = if case.bulk.0 == 0 {
        let mut s = start(case, Backend::File(path), &case.primary, false)?;
        s.step(&Step { op: Op::Reset { primary: case.primary.clone() }, fail: false })?;
        s
    } else {
        let (raw, model) = prefilled(case);
        std::fs::create_dir_all(path.parent().unwrap()).map_err(infra("directory"))?;
        std::fs::write(&path, refimpl::file_for(&raw)).map_err(infra("write"))?;
        start_with(case, Backend::File(path), model, true)?
    };
    s.check_disk()?;
    let r = run(
        &mut s,
        case,
        Checks {
            disk: true,
            ..Checks::default()
        },
    );
    describe_classes(case, obs, &s);
    if case.steps.len() > 3 {
        obs.nontrivial();
    }
    r?;
    s.reopen()?;
    s.check_view()
}

fn c06(_: &Ctx, case: &Case, obs: &mut Obs) -> R {
    let init = case.primary.len() % 8 != 0;
    let mut s = if init {
        let mut s = mem_template(case)?;
        let step = Step {
            op: Op::Reset {
                primary: case.primary.clone(),
            },
            fail: false,
        };
        s.step(&step)?;
        s
    } else {
        start(
            case,
            Backend::Mem(Handle::default()),
            &case.primary,
            false,
        )?
    };
    let r = run(
        &mut s,
        case,
        Checks {
            view: true,
            frozen: true,
            ..Checks::default()
        },
    );
    describe_classes(case, obs, &s);
    if !init {
        obs.class("uninitialised storage");
    }
    if obs.classes.contains(&"wrong unlock") {
        obs.nontrivial();
    }
    r?;

    // Locked and not initialised yet
    let p = &mut s.p;
    let code = "ABCD";
    p.lock();
    ensure!(
        matches!(p.decode_recovery_code(code), Err(Error::PasswordsLocked)),
        "decode_recovery_code on locked passwords succeeded"
    );
    let stored = pfp::storage_types::StoredPassword::new("a", "b", "", secret("pw"));
    match p.get_recovery_code(&stored) {
        Err(Error::PasswordsLocked) => {}
        Err(Error::StorageNotInitialized) if !s.init => {}
        other => viol!("get_recovery_code on locked passwords returned {:?}", other),
    }
    Ok(())
}

fn c14(ctx: &Ctx, case: &Case, obs: &mut Obs) -> R {
    let dir = ctx.dir();
    let (raw, model) = prefilled(case);
    let backend = if case.primary.len() % 4 == 0 {
        let path = dir.join("storage.json");
        std::fs::write(&path, refimpl::file_for(&raw)).map_err(infra("write"))?;
        Backend::File(path)
    } else {
        Backend::Mem(Handle::with(raw))
    };
    let mut s = start_with(case, backend, model, true)?;
    let r = run(
        &mut s,
        case,
        Checks {
            view: true,
            disk: true,
            ..Checks::default()
        },
    );
    describe_classes(case, obs, &s);
    if matches!(s.backend, Backend::File(_)) {
        obs.class("file backend");
    }
    if s.failed_saves > 0 {
        obs.nontrivial();
        if case.steps.iter().any(|s| s.fail && matches!(s.op, Op::Reset { .. })) {
            obs.class("failed reset");
        }
    }
    r?;
    // A final successful save brings storage in sync with the session
    if s.init {
        if s.locked {
            s.step(&Step { op: Op::Unlock, fail: false })?;
        }
        s.step(&Step {
            op: Op::Store { s: 0, n: 0, r: 0, pw: "final".to_owned() },
            fail: false,
        })
        .or_else(|e| match e {
            Fail::Violation(m) => Err(Fail::Violation(format!("final save: {}", m))),
            e => Err(e),
        })?;
        s.check_disk()?;
        s.reopen()?;
        s.check_view()?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "A case is a history of up to 40 library calls over a pool of colliding site/name/revision strings, run against the library and a map model with a full comparison of everything the API reports after each call. Non-trivial: an existing entry is overwritten, removed or annotated.",
            assumptions: &["ids contain no NUL", "in-memory StorageIO"],
            subs: vec![
                Box::new(Gen { name: "map", quick: 800, thorough: 30000, strat: || case(C01), test: c01, shrink: 1500 }),
                Box::new(Gen { name: "map-reset", quick: 160, thorough: 8000, strat: || case(C01_FULL), test: c01, shrink: 800 }),
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "Histories of alias, password and listing calls over colliding sites with and without www., compared to a resolution model after each call; plus all histories of 3 (thorough: 4) operations over three sites (batched). Non-trivial: at least one alias is made.",
            assumptions: &["in-memory StorageIO"],
            subs: vec![
                Box::new(Gen { name: "histories", quick: 720, thorough: 40000, strat: || case(C02), test: c02, shrink: 1500 }),
                Box::new(Enum { name: "short", cases: alias_sequences, test: c02_enum }),
            ],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "Histories of calls on a file-backed storage; after each call the file is decoded by an independent reader and compared to the model, reopen steps load it with the library. Non-trivial: more than three calls.",
            assumptions: &["the file system works"],
            subs: vec![Box::new(Gen { name: "reopen", quick: 320, thorough: 12000, strat: || case(C03), test: c03, shrink: 600 })],
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "Histories mixing lock, unlock, near-miss unlock attempts, reset and all operations; results, lock state and stored data compared to a model. Non-trivial: contains an attempt with a wrong primary password.",
            assumptions: &["wrong passwords differing only in trailing NUL are excluded (equivalent for PBKDF2)"],
            subs: vec![Box::new(Gen { name: "locking", quick: 280, thorough: 12000, strat: || case(C06), test: c06, shrink: 500 })],
        },
        Prop {
            id: "C14",
            level: "fault_enumeration",
            rule: "Histories where each save fails with probability 0.3 (in-memory backend or a real file replaced by a directory); session view and stored data compared to two models after each call, then a successful save and reopen. Non-trivial: at least one save failed.",
            assumptions: &["a failed save leaves the backend's stored data as it was"],
            subs: vec![Box::new(Gen { name: "faults", quick: 320, thorough: 16000, strat: || case(C14), test: c14, shrink: 600 })],
        },
    ]
}
