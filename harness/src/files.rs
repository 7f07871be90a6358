//! Storage files in all kinds of states: C15, C21.

use crate::cli::*;
use crate::cmds::*;
use crate::crypto;
use crate::engine::*;
use crate::listing::{contents, Contents};
use crate::model::*;
use crate::refimpl::{self, Raw};
use crate::{ensure, viol};
use pfp::passwords::Passwords;
use pfp::storage_io::{FileIO, StorageIO};
use proptest::collection::vec;
use proptest::prelude::*;
use secrecy::SecretString;
use serde::{Deserialize, Serialize};
use serde_json::json;

// C15

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum State {
    Absent,
    MissingParents(u8),
    Empty,
    Garbage(Vec<u8>),
    Foreign(u8),
    Uninitialised,
    Valid(Contents),
    Truncated(Contents, u16),
    Symlink(Contents),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Where {
    Absolute,
    Relative,
    Default,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PrimaryCase {
    state: State,
    place: Where,
    yes: bool,
    long: bool,
    replies: Vec<Reply>,
    pub first: String,
    second: Second,
    eof: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Second {
    Same,
    Whitespace(u8),
    Differs(u8),
    Other(String),
}

pub fn primary_case() -> BoxedStrategy<PrimaryCase> {
    let state = prop_oneof![
        2 => Just(State::Absent),
        2 => (1u8..4).prop_map(State::MissingParents),
        1 => Just(State::Empty),
        1 => vec(any::<u8>(), 1..40).prop_map(State::Garbage),
        2 => any::<u8>().prop_map(State::Foreign),
        1 => Just(State::Uninitialised),
        5 => contents().prop_map(State::Valid),
        1 => (contents(), any::<u16>()).prop_map(|(c, n)| State::Truncated(c, n)),
        1 => contents().prop_map(State::Symlink),
    ];
    let first = prop_oneof![
        6 => cli_primary(),
        2 => pick(&["", "12345", "  12345  ", "12345 ", "äöü", "äö", "日本", "日", "123456", " 123456 ", "      ", "foobar\t", "a b c d", "12 34", "\u{1}12345", "12345\u{7f}", "\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}", "\u{feff}1234", "12345\u{200b}", "\u{a0}12345\u{a0}", "1234\u{301}"]),
        1 => printable(9),
        1 => "[a-z]{100,2000}",
    ];
    let second = prop_oneof![
        6 => Just(Second::Same),
        2 => any::<u8>().prop_map(Second::Whitespace),
        3 => any::<u8>().prop_map(Second::Differs),
        1 => printable(12).prop_map(Second::Other),
    ];
    (
        state,
        prop_oneof![4 => Just(Where::Absolute), 1 => Just(Where::Relative), 1 => Just(Where::Default)],
        any::<bool>(),
        any::<bool>(),
        replies_biased(),
        first,
        second,
        prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(|(state, place, yes, long, replies, first, second, eof)| PrimaryCase {
            state,
            place,
            yes,
            long,
            replies,
            first,
            second,
            eof,
        })
        .boxed()
}

fn replies_biased() -> BoxedStrategy<Vec<Reply>> {
    prop_oneof![
        1 => any::<u8>().prop_map(|n| vec![Reply::Yes(n)]),
        2 => replies(),
    ]
    .boxed()
}

impl PrimaryCase {
    fn second(&self) -> String {
        let f = &self.first;
        match &self.second {
            Second::Same => f.clone(),
            Second::Whitespace(n) => match n % 3 {
                0 => format!(" {}", f.trim()),
                1 => format!("{}\t ", f.trim()),
                _ => f.trim().to_owned(),
            },
            Second::Differs(n) => match n % 10 {
                0 => format!("{}x", f.trim()),
                1 => f.to_uppercase(),
                2 => f.to_lowercase(),
                3 => f.trim().chars().skip(1).collect(),
                6 => format!("{0}{0}", f.trim()),
                7 => format!("{}\u{200b}", f.trim()),
                8 => f.trim().chars().rev().collect(),
                9 => format!("\u{1}{}", f.trim()),
                4 => {
                    let mut c: Vec<char> = f.trim().chars().collect();
                    c.pop();
                    c.into_iter().collect()
                }
                _ => String::new(),
            },
            Second::Other(s) => s.clone(),
        }
    }
}

fn primary_test(ctx: &Ctx, case: &PrimaryCase, obs: &mut Obs) -> R {
    primary_run(ctx, case, obs, &Opts::default())
}

pub fn primary_run(ctx: &Ctx, case: &PrimaryCase, obs: &mut Obs, opts: &Opts) -> R {
    let mut env = Env::new(ctx);
    env.opts = opts.clone();
    let home = env.dir.join("home");
    match case.place {
        Where::Absolute => {}
        Where::Relative => env.opts.cwd = Some(env.dir.0.clone()),
        Where::Default => env.store = home.join(".config/PfP/storage.json"),
    }
    if let State::MissingParents(n) = case.state {
        if !matches!(case.place, Where::Default) {
            for i in 0..n {
                env.store = env.store.with_file_name(format!("dir {}", i)).join("storage.json");
            }
        }
    } else {
        std::fs::create_dir_all(env.store.parent().unwrap()).map_err(infra("directory"))?;
    }
    let mut old_primary = None;
    let mut old_raw = Raw::new();
    let put = |path: &std::path::Path, data: &[u8]| std::fs::write(path, data).map_err(infra("storage file"));
    match &case.state {
        State::Absent | State::MissingParents(_) => {}
        State::Empty => put(&env.store, b"")?,
        State::Garbage(data) => put(&env.store, data)?,
        State::Foreign(n) => {
            let v = match n % 4 {
                0 => json!({"application": "easypasswords", "format": 3, "data": {"a": "b"}}),
                1 => json!({"application": "pfp", "format": 2, "data": {"salt": "abc", "hmac-secret": "def"}}),
                2 => json!([1, 2, 3]),
                _ => json!({"application": "pfp", "format": 3}),
            };
            put(&env.store, v.to_string().as_bytes())?
        }
        State::Uninitialised => env.write(&Raw::new())?,
        State::Valid(c) | State::Truncated(c, _) | State::Symlink(c) => {
            let model = c.model();
            old_raw = c.raw(&model);
            let mut bytes = refimpl::file_for(&old_raw);
            if let State::Truncated(_, n) = case.state {
                bytes.truncate(bytes.len() * n as usize / 65536);
            }
            if let State::Symlink(_) = case.state {
                put(&env.dir.join("actual.json"), &bytes)?;
                std::os::unix::fs::symlink(env.dir.join("actual.json"), &env.store).map_err(infra("link"))?;
            } else {
                put(&env.store, &bytes)?;
            }
            old_primary = Some(c.primary.clone());
        }
    }
    let before = env.bytes()?;

    let mut args = Vec::new();
    if opts.tty.is_none() {
        args.push("--stdin-passwords".to_owned());
    }
    let shown = match case.place {
        Where::Absolute => env.store.to_str().unwrap().to_owned(),
        Where::Relative => env.store.strip_prefix(&env.dir.0).unwrap().to_str().unwrap().to_owned(),
        Where::Default => env.store.to_str().unwrap().to_owned(),
    };
    if !matches!(case.place, Where::Default) {
        args.extend([["-c", "--storage"][case.long as usize].to_owned(), shown.clone()]);
    }
    args.push("set-primary".to_owned());
    if case.yes {
        args.push(["-y", "--assume-yes"][case.long as usize].to_owned());
    }

    let mut events = Vec::new();
    let mut status = 0;
    let mut done = false;
    let confirmed = if before.is_some() && !case.yes {
        confirm_events(P_RESET, &case.replies, true, &mut events)
    } else {
        true
    };
    let first = case.first.trim();
    let mut mismatch = false;
    if confirmed {
        let second = case.second();
        let short = "Primary password length should be at least 6 characters.\n";
        if case.eof == 1 {
            events.push(Ev::Ask(P_NEW, Ans::Eof));
            events.push(Ev::Out(Part::Line("".to_owned())));
            status = 1;
        } else {
            events.push(Ev::Ask(P_NEW, Ans::Line(case.first.clone())));
            if first.len() < 6 {
                obs.class("too short");
                events.push(t(short));
                status = 1;
            } else {
                if case.eof == 2 {
                    events.push(Ev::Ask(P_REPEAT, Ans::Eof));
                } else {
                    events.push(Ev::Ask(P_REPEAT, Ans::Line(second.clone())));
                }
                if case.eof == 2 || second.trim() != first {
                    obs.class("passwords differ");
                    mismatch = true;
                    events.push(if case.eof == 2 {
                        Ev::Out(Part::Line("".to_owned()))
                    } else {
                        t("Primary passwords don't match.\n")
                    });
                    status = 1;
                } else {
                    done = true;
                    events.push(t(format!("New primary password set for {}.\n", shown)));
                }
            }
        }
    } else {
        obs.class("declined");
    }
    let _ = mismatch;
    let mut proc = Proc::spawn(&ctx.cli, &args, &home, &env.opts)?;
    play(&mut proc, &events, Stop::Exit(status), first)?;
    drop(proc);

    if before.is_some() {
        obs.nontrivial();
    }
    if !done {
        ensure!(
            env.bytes()? == before,
            "storage file changed though the primary password was not set"
        );
        return Ok(());
    }
    obs.class("set");
    obs.nontrivial();
    let model = Model::new(first);
    env.check_model(&model)?;
    let raw = env.raw()?;
    ensure!(
        raw.len() == 2 && raw.contains_key("salt") && raw.contains_key("hmac-secret"),
        "records after setting the primary password: {:?}",
        raw.keys().collect::<Vec<_>>()
    );
    let bytes = env.bytes()?.unwrap();
    for (k, v) in &old_raw {
        ensure!(
            (k == "salt" || k == "hmac-secret" || !crypto::contains(&bytes, k.as_bytes()))
                && !crypto::contains(&bytes, v.as_bytes()),
            "file still contains the old record {}: {}",
            k,
            v
        );
    }
    let io = match FileIO::load(&env.store) {
        Ok(io) => io,
        Err(e) => viol!("storage file cannot be loaded: {:?}", e),
    };
    let mut p = Passwords::new(io);
    for old in old_primary.iter().filter(|o| *o != first) {
        ensure!(
            p.unlock(SecretString::new(old.clone())).is_err(),
            "the old primary password still works"
        );
    }
    if let Err(e) = p.unlock(SecretString::new(first.to_owned())) {
        viol!("the new primary password doesn't work: {:?}", e);
    }
    // The application accepts it as well
    if opts.tty.is_none() {
        let mut args: Vec<String> = args.iter().take_while(|a| *a != "set-primary").cloned().collect();
        args.push("list".to_owned());
        let mut proc = Proc::spawn(&ctx.cli, &args, &home, &env.opts)?;
        let events = [Ev::Ask(P_PRIMARY, Ans::Line(case.first.clone())), t("No matching passwords found.\n")];
        play(&mut proc, &events, Stop::Exit(0), first)?;
    }
    let mut left = p.list_sites("*").map(|s| s.name().to_owned()).collect::<Vec<_>>();
    left.sort();
    ensure!(left.is_empty(), "sites after setting the primary password: {:?}", left);
    Ok(())
}

// C21

/// Strict JSON parser keeping order and duplicates.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool,
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct JParser<'a> {
    b: &'a [u8],
    p: usize,
    /// Something about it isn't settled by the JSON standard
    pub doubtful: bool,
}

impl<'a> JParser<'a> {
    pub fn parse(text: &'a str) -> Option<(J, bool)> {
        let mut p = JParser { b: text.as_bytes(), p: 0, doubtful: false };
        let v = p.value(0)?;
        p.ws();
        if p.p == p.b.len() {
            Some((v, p.doubtful))
        } else {
            None
        }
    }
    fn ws(&mut self) {
        while self.p < self.b.len() && b" \t\r\n".contains(&self.b[self.p]) {
            self.p += 1;
        }
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        if self.b[self.p..].starts_with(s.as_bytes()) {
            self.p += s.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self, depth: usize) -> Option<J> {
        if depth > 100 {
            self.doubtful = true;
            if depth > 2000 {
                return None;
            }
        }
        self.ws();
        match *self.b.get(self.p)? {
            b'n' => self.eat("null").map(|_| J::Null),
            b't' => self.eat("true").map(|_| J::Bool),
            b'f' => self.eat("false").map(|_| J::Bool),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.p += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat("]").is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    if self.eat("]").is_some() {
                        return Some(J::Arr(v));
                    }
                    self.eat(",")?;
                }
            }
            b'{' => {
                self.p += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat("}").is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(":")?;
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    if self.eat("}").is_some() {
                        return Some(J::Obj(v));
                    }
                    self.eat(",")?;
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }
    fn digits(&mut self) -> usize {
        let start = self.p;
        while self.p < self.b.len() && self.b[self.p].is_ascii_digit() {
            self.p += 1;
        }
        self.p - start
    }
    fn number(&mut self) -> Option<J> {
        let start = self.p;
        let _ = self.eat("-");
        if self.eat("0").is_none() && self.digits() == 0 {
            return None;
        }
        if self.eat(".").is_some() && self.digits() == 0 {
            return None;
        }
        if self.eat("e").is_some() || self.eat("E").is_some() {
            let _ = self.eat("+").or_else(|| self.eat("-"));
            if self.digits() == 0 {
                return None;
            }
        }
        let text = std::str::from_utf8(&self.b[start..self.p]).unwrap().to_owned();
        if text.len() > 15 {
            self.doubtful = true;
        }
        Some(J::Num(text))
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut out: Vec<u8> = Vec::new();
        loop {
            match *self.b.get(self.p)? {
                b'"' => {
                    self.p += 1;
                    return String::from_utf8(out).ok();
                }
                b'\\' => {
                    self.p += 1;
                    let c = *self.b.get(self.p)?;
                    self.p += 1;
                    match c {
                        b'"' | b'\\' | b'/' => out.push(c),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut unit = |s: &mut Self| -> Option<u32> {
                                let h = std::str::from_utf8(s.b.get(s.p..s.p + 4)?).ok()?;
                                if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                                    return None;
                                }
                                s.p += 4;
                                u32::from_str_radix(h, 16).ok()
                            };
                            let mut code = unit(self)?;
                            if (0xD800..0xDC00).contains(&code) && self.b[self.p..].starts_with(b"\\u") {
                                let keep = self.p;
                                self.p += 2;
                                let low = unit(self)?;
                                if (0xDC00..0xE000).contains(&low) {
                                    code = 0x10000 + ((code - 0xD800) << 10 | (low - 0xDC00));
                                } else {
                                    self.p = keep;
                                }
                            }
                            let c = char::from_u32(code).unwrap_or_else(|| {
                                self.doubtful = true;
                                '\u{fffd}'
                            });
                            out.extend_from_slice(c.to_string().as_bytes());
                        }
                        _ => return None,
                    }
                }
                c if c < 0x20 => return None,
                c => {
                    out.push(c);
                    self.p += 1;
                }
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Invalid(&'static str),
    /// Cannot be told from the format description
    Doubtful,
    Valid(Raw),
}

pub fn classify(bytes: &[u8]) -> Kind {
    let Ok(text) = std::str::from_utf8(bytes) else { return Kind::Invalid("not UTF-8") };
    let Some((value, doubtful)) = JParser::parse(text) else { return Kind::Invalid("not JSON") };
    if doubtful {
        return Kind::Doubtful;
    }
    let members = match value {
        J::Obj(m) => m,
        // Members in an order known to both sides
        J::Arr(a) if a.len() == 3 => return Kind::Doubtful,
        _ => return Kind::Invalid("not an object"),
    };
    let mut raw = None;
    let (mut application, mut format) = (0, 0);
    let mut data = 0;
    for (k, v) in &members {
        match k.as_str() {
            "application" => {
                application += 1;
                if *v != J::Str("pfp".to_owned()) {
                    return Kind::Invalid("wrong application");
                }
            }
            "format" => {
                format += 1;
                match v {
                    J::Num(n) if n == "3" => {}
                    J::Num(n) if n.parse::<f64>() == Ok(3.0) => return Kind::Doubtful,
                    _ => return Kind::Invalid("wrong format"),
                }
            }
            "data" => {
                data += 1;
                let J::Obj(o) = v else { return Kind::Invalid("data is not an object") };
                let mut r = Raw::new();
                let mut repeated = false;
                for (k, v) in o {
                    let J::Str(s) = v else { return Kind::Invalid("value is not a string") };
                    repeated |= r.insert(k.clone(), s.clone()).is_some();
                }
                if repeated {
                    raw = Some(None);
                } else {
                    raw = Some(Some(r));
                }
            }
            _ => return Kind::Invalid("additional member"),
        }
    }
    if application != 1 || format != 1 || data != 1 {
        return Kind::Invalid("missing or duplicated member");
    }
    match raw {
        Some(Some(r)) => Kind::Valid(r),
        _ => Kind::Doubtful,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mutation {
    Truncate(u16),
    Flip(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Duplicate(u16, u8),
    Append(Vec<u8>),
    Token(u16, u8),
    Random(Vec<u8>),
    /// Structural changes
    DropMember(u8),
    SetMember(u8, u8),
    RenameMember(u8, u8),
    RepeatMember(u8, u8),
    AddMember(u8, u8),
    /// Change of a data value or key
    DropValue(u8),
    SetValue(u8, u8),
    RenameValue(u8, u8),
    RepeatValue(u8),
    ValueText(u8, String),
    Pretty,
    AsArray,
    Bom,
    Nested(u16),
}

fn mutation() -> BoxedStrategy<Mutation> {
    prop_oneof![
        2 => any::<u16>().prop_map(Mutation::Truncate),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mutation::Flip(a, b)),
        1 => (any::<u16>(), vec(any::<u8>(), 1..4)).prop_map(|(a, b)| Mutation::Insert(a, b)),
        1 => (any::<u16>(), 1u8..20).prop_map(|(a, b)| Mutation::Delete(a, b)),
        1 => (any::<u16>(), 1u8..40).prop_map(|(a, b)| Mutation::Duplicate(a, b)),
        1 => prop_oneof![
            vec(any::<u8>(), 1..4),
            prop::sample::select(vec![&b" "[..], b"\n", b"}", b"{}", b"\0", b",", b"5", b"\r\n\t "]).prop_map(|s| s.to_vec()),
        ].prop_map(Mutation::Append),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mutation::Token(a, b)),
        1 => vec(any::<u8>(), 0..60).prop_map(Mutation::Random),
        2 => any::<u8>().prop_map(Mutation::DropMember),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::SetMember(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::RenameMember(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::RepeatMember(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::AddMember(a, b)),
        2 => any::<u8>().prop_map(Mutation::DropValue),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::SetValue(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::RenameValue(a, b)),
        1 => any::<u8>().prop_map(Mutation::RepeatValue),
        2 => (any::<u8>(), prop_oneof![
            pick(&["", "_", "a_b", "====", "AAAA_AAAA", "AAAAAAAAAAAAAAAA_AAAAAAAAAAAAAAAAAAAAAA==", "abc", "ä_ö", "AAAAAAAAAAAAAAAA_", "_AAAAAAAAAAAAAAAA", "AAAA_AAAA_AAAA"]),
            "[A-Za-z0-9+/=_]{0,60}",
        ]).prop_map(|(a, b)| Mutation::ValueText(a, b)),
        1 => Just(Mutation::Pretty),
        1 => Just(Mutation::AsArray),
        1 => Just(Mutation::Bom),
        1 => any::<u16>().prop_map(Mutation::Nested),
    ]
    .boxed()
}

fn other_value(n: u8) -> String {
    [
        "null", "true", "3", "4", "2", "0", "-3", "3.0", "3e0", "259", "1e400", "\"3\"", "\"pfp\"", "\"PfP\"", "\"\"", "[]", "{}",
        "[\"pfp\"]", "{\"a\":1}", "{\"salt\":\"a\"}", "\"p\\u0066p\"", "{\"salt\":5,\"hmac-secret\":\"x\"}", "18446744073709551616",
    ][n as usize % 23]
        .to_owned()
}

/// Applies mutations to the text of a storage file.
fn mutate(raw: &Raw, mutations: &[Mutation]) -> Vec<u8> {
    let q = |s: &str| serde_json::to_string(s).unwrap();
    let mut keys: Vec<&String> = raw.keys().collect();
    keys.sort();
    let mut values: Vec<(String, String)> = keys.iter().map(|k| (q(k), q(&raw[*k]))).collect();
    let mut members: Vec<(String, Option<String>)> = vec![
        (q("application"), Some(q("pfp"))),
        (q("format"), Some("3".to_owned())),
        (q("data"), None),
    ];
    let mut separators = (",", ":", "");
    let mut array = false;
    let mut bom = false;
    for m in mutations {
        let n = members.len().max(1);
        let vn = values.len().max(1);
        match m {
            Mutation::DropMember(i) if !members.is_empty() => {
                members.remove(*i as usize % n);
            }
            Mutation::SetMember(i, v) if !members.is_empty() => members[*i as usize % n].1 = Some(other_value(*v)),
            Mutation::RenameMember(i, v) if !members.is_empty() => {
                members[*i as usize % n].0 = q(["Application", "data", "format", "application", "", "fοrmat", "data ", "extra"][*v as usize % 8])
            }
            Mutation::RepeatMember(i, v) if !members.is_empty() => {
                let m = members[*i as usize % n].clone();
                members.insert(*v as usize % (n + 1), m);
            }
            Mutation::AddMember(i, v) => {
                members.insert(*i as usize % (members.len() + 1), (q(["something", "path", "comment", "Data"][*i as usize % 4]), Some(other_value(*v))))
            }
            Mutation::DropValue(i) if !values.is_empty() => {
                values.remove(*i as usize % vn);
            }
            Mutation::SetValue(i, v) if !values.is_empty() => values[*i as usize % vn].1 = other_value(*v),
            Mutation::RenameValue(i, v) if !values.is_empty() => {
                values[*i as usize % vn].0 = q(["salt", "hmac-secret", "site:", "", "site:abc", "x:y:z", "Salt", "hmac_secret"][*v as usize % 8])
            }
            Mutation::RepeatValue(i) if !values.is_empty() => {
                let m = values[*i as usize % vn].clone();
                values.push(m);
            }
            Mutation::ValueText(i, t) if !values.is_empty() => values[*i as usize % vn].1 = q(t),
            Mutation::Pretty => separators = (" ,\r\n\t", " : ", "\n "),
            Mutation::AsArray => array = true,
            Mutation::Bom => bom = true,
            Mutation::Nested(n) => {
                let n = *n as usize % 3000;
                members.push((q("deep"), Some("[".repeat(n) + &"]".repeat(n))));
            }
            _ => {}
        }
    }
    let (comma, colon, pad) = separators;
    let data = format!(
        "{{{}{}}}",
        values.iter().map(|(k, v)| format!("{}{}{}{}", pad, k, colon, v)).collect::<Vec<_>>().join(comma),
        pad
    );
    let list: Vec<String> = members
        .iter()
        .map(|(k, v)| {
            let v = v.as_ref().unwrap_or(&data);
            if array { v.clone() } else { format!("{}{}{}{}", pad, k, colon, v) }
        })
        .collect();
    let text = if array {
        format!("[{}]", list.join(comma))
    } else {
        format!("{{{}{}}}", list.join(comma), pad)
    };
    let mut b = text.into_bytes();
    for m in mutations {
        let at = |p: u16, len: usize| p as usize * len / 65536;
        match m {
            Mutation::Truncate(p) => {
                let n = at(*p, b.len());
                b.truncate(n)
            }
            Mutation::Flip(p, v) if !b.is_empty() => {
                let i = at(*p, b.len());
                b[i] ^= (*v).max(1)
            }
            Mutation::Insert(p, v) => {
                let i = at(*p, b.len() + 1);
                b.splice(i..i, v.iter().copied());
            }
            Mutation::Delete(p, n) => {
                let i = at(*p, b.len());
                let e = (i + *n as usize).min(b.len());
                b.drain(i..e);
            }
            Mutation::Duplicate(p, n) => {
                let i = at(*p, b.len());
                let e = (i + *n as usize).min(b.len());
                let part = b[i..e].to_vec();
                b.splice(i..i, part);
            }
            Mutation::Append(v) => b.extend_from_slice(v),
            Mutation::Token(p, v) => {
                let i = at(*p, b.len() + 1);
                let t = ["\"", "{", "}", "[", "]", ",", ":", "\\", "\\u0000", "\\ud800", "null", "3", "-", "\n", " ", "\u{feff}", "'", "//"][*v as usize % 18];
                b.splice(i..i, t.bytes());
            }
            Mutation::Random(v) => b = v.clone(),
            _ => {}
        }
    }
    if bom {
        b.splice(0..0, "\u{feff}".bytes());
    }
    b
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LoadCase {
    contents: Vec<Cmd>,
    mutations: Vec<Mutation>,
}

fn load_case() -> BoxedStrategy<LoadCase> {
    (vec(add_stored_cmd(), 0..3), vec(mutation(), 0..4))
        .prop_map(|(contents, mutations)| LoadCase { contents, mutations })
        .boxed()
}

fn mutated(case: &LoadCase) -> Vec<u8> {
    let (_, raw) = crate::session::build("foobar", &case.contents);
    mutate(&raw, &case.mutations)
}

fn load_test(ctx: &Ctx, case: &LoadCase, obs: &mut Obs) -> R {
    thread_local! {
        static PATH: std::cell::RefCell<Option<ScratchDir>> = const { std::cell::RefCell::new(None) };
    }
    let path = PATH.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(ctx.dir());
        }
        p.as_ref().unwrap().join("storage.json")
    });
    let bytes = mutated(case);
    std::fs::write(&path, &bytes).map_err(infra("storage file"))?;
    let result = FileIO::load(&path);
    ensure!(
        std::fs::read(&path).ok().as_deref() == Some(&bytes[..]),
        "loading modified the file"
    );
    match classify(&bytes) {
        Kind::Invalid(what) => {
            obs.nontrivial();
            obs.class(what);
            ensure!(
                result.is_err(),
                "file was accepted, {}: {:?}",
                what,
                String::from_utf8_lossy(&bytes)
            );
        }
        Kind::Doubtful => obs.class("doubtful"),
        Kind::Valid(raw) => {
            obs.class("valid");
            if !case.mutations.is_empty() {
                obs.nontrivial();
            }
            let io = match result {
                Ok(io) => io,
                Err(e) => viol!("valid file was rejected, {:?}: {:?}", e, String::from_utf8_lossy(&bytes)),
            };
            let mut keys: Vec<&String> = io.keys().collect();
            let mut expected: Vec<&String> = raw.keys().collect();
            keys.sort();
            expected.sort();
            ensure!(keys == expected, "keys {:?} instead of {:?}", keys, expected);
            for (k, v) in &raw {
                ensure!(io.get(k).ok() == Some(v), "value of {} differs", k);
            }
            let initialized = Passwords::new(io).initialized();
            ensure!(
                initialized == (raw.contains_key("salt") && raw.contains_key("hmac-secret")),
                "initialized() is {} with records {:?}",
                initialized,
                expected
            );
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MalformedCase {
    file: FileState,
    cmd: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum FileState {
    Mutated(LoadCase),
    Missing,
    Directory,
    ParentIsFile,
}

fn malformed_case() -> BoxedStrategy<MalformedCase> {
    let file = prop_oneof![
        20 => load_case().prop_map(FileState::Mutated),
        1 => Just(FileState::Missing),
        1 => Just(FileState::Directory),
        1 => Just(FileState::ParentIsFile),
    ];
    (file, any::<u8>()).prop_map(|(file, cmd)| MalformedCase { file, cmd }).boxed()
}

const COMMANDS: [&[&str]; 18] = [
    &["list"],
    &["list", "-s", "-r", "-v"],
    &["list", "a.com", "me"],
    &["show", "a.com", "me"],
    &["show", "-q", "a.com", "me"],
    &["add", "a.com", "me"],
    &["add", "-y", "a.com", "me"],
    &["add", "-wuds", "a.com", "me"],
    &["add-stored", "a.com", "me"],
    &["add-stored", "-c", "-y", "a.com", "me"],
    &["notes", "a.com", "me"],
    &["notes", "-s", "a.com", "me"],
    &["remove", "a.com", "me"],
    &["alias", "a.com"],
    &["alias", "a.com", "b.com"],
    &["alias", "-r", "a.com"],
    &["shell"],
    &["set-primary"],
];

fn crashed(code: i32) -> bool {
    code != 0 && code != 1
}

fn malformed_test(ctx: &Ctx, case: &MalformedCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    let mut kind = Kind::Invalid("not a file");
    match &case.file {
        FileState::Mutated(c) => {
            let bytes = mutated(c);
            std::fs::write(&env.store, &bytes).map_err(infra("storage file"))?;
            kind = classify(&bytes);
        }
        FileState::Missing => {}
        FileState::Directory => std::fs::create_dir(&env.store).map_err(infra("directory"))?,
        FileState::ParentIsFile => {
            std::fs::write(&env.store, b"{}").map_err(infra("storage file"))?;
            env.store = env.store.join("x.json");
        }
    }
    let snapshot = |env: &Env| -> (Vec<String>, Option<Vec<u8>>) { (env.files(), std::fs::read(env.dir.join("storage.json")).ok()) };
    let before = snapshot(&env);
    let args = s(COMMANDS[case.cmd as usize % COMMANDS.len()]);
    let what = args.join(" ");
    let mut proc = if what == "shell" { env.start_shell()? } else { env.start(&args)? };
    let (out, stop) = proc.text()?;

    if what == "set-primary" {
        // Declining leaves everything as it is
        obs.class("set-primary declined");
        if let Stop::Prompt(P_RESET) = stop {
            proc.send("no")?;
            let (out, stop) = proc.text()?;
            ensure!(stop == Stop::Exit(0) && out.is_empty(), "set-primary ended with {:?}: {:?}", stop, out);
        } else if let Stop::Prompt(P_NEW) = stop {
            ensure!(
                matches!(case.file, FileState::Missing | FileState::ParentIsFile),
                "set-primary did not ask for confirmation"
            );
            proc.send("short")?;
            let (out, stop) = proc.text()?;
            ensure!(stop == Stop::Exit(1), "set-primary ended with {:?}: {:?}", stop, out);
        } else {
            viol!("set-primary: unexpected {:?} {:?}", stop, out);
        }
        ensure!(snapshot(&env) == before, "set-primary modified files");
        return Ok(());
    }

    let raw = match kind {
        Kind::Invalid(why) => {
            obs.nontrivial();
            obs.class(why);
            ensure!(
                stop == Stop::Exit(1) && !out.trim().is_empty(),
                "{} on a malformed file ({}): {:?} {:?}",
                what,
                why,
                stop,
                out
            );
            ensure!(snapshot(&env) == before, "{} modified a malformed file ({})", what, why);
            return Ok(());
        }
        Kind::Doubtful => {
            obs.class("doubtful");
            if let Stop::Exit(code) = stop {
                ensure!(!crashed(code), "{} crashed with status {}: {:?}", what, code, out);
            }
            ensure!(snapshot(&env) == before, "{} modified the file", what);
            return Ok(());
        }
        Kind::Valid(raw) => raw,
    };
    let initialized = raw.contains_key("salt") && raw.contains_key("hmac-secret");
    let missing = "Storage is missing data. Maybe use set-primary subcommand first?\n";
    if what == "shell" {
        ensure!(stop == Stop::Prompt(P_SHELL), "shell: {:?} {:?}", stop, out);
        proc.send("list")?;
        let (out, stop) = proc.text()?;
        if initialized {
            ensure!(stop == Stop::Prompt(P_PRIMARY), "list in shell: {:?} {:?}", stop, out);
        } else {
            obs.nontrivial();
            obs.class("shell without salt or HMAC secret");
            ensure!(
                stop == Stop::Prompt(P_SHELL) && out == format!("{}{}", missing, P_SHELL),
                "list in shell on an uninitialised storage: {:?} {:?}",
                stop,
                out
            );
            proc.send("exit")?;
            let (out, stop) = proc.text()?;
            ensure!(stop == Stop::Exit(0) && out.is_empty(), "exit: {:?} {:?}", stop, out);
        }
        drop(proc);
        ensure!(std::fs::read(&env.store).ok() == before.1, "shell modified the storage file");
        return Ok(());
    }
    if !initialized {
        obs.nontrivial();
        obs.class("without salt or HMAC secret");
        ensure!(
            stop == Stop::Exit(1) && out == missing,
            "{} on an uninitialised storage: {:?} {:?}",
            what,
            stop,
            out
        );
        ensure!(snapshot(&env) == before, "{} modified an uninitialised storage", what);
        return Ok(());
    }
    // Salt and secret are there, but they and other values might be broken
    ensure!(
        stop == Stop::Prompt(P_PRIMARY) && out == P_PRIMARY,
        "{}: expected a prompt for the primary password, got {:?} {:?}",
        what,
        stop,
        out
    );
    proc.send("foobar")?;
    let unlocks = refimpl::keys(&raw, "foobar").is_ok();
    let mut asked = 0;
    loop {
        let (out, stop) = proc.text()?;
        asked += 1;
        match stop {
            Stop::Prompt(P_PRIMARY) => {
                obs.class("not unlocked");
                obs.nontrivial();
                ensure!(
                    out.strip_suffix(P_PRIMARY).map_or(false, |o| !o.trim().is_empty()),
                    "{}: asked for the primary password again without telling why",
                    what
                );
                ensure!(
                    !unlocks,
                    "{}: right primary password not accepted: {:?}",
                    what,
                    out
                );
                break;
            }
            Stop::Prompt(p) => {
                ensure!(asked < 5, "{}: endless prompts {:?}", what, out);
                proc.send(if p == P_OVERWRITE { "no" } else { "" })?;
            }
            Stop::Exit(code) => {
                obs.class(if code == 0 { "success" } else { "error after unlocking" });
                ensure!(!crashed(code), "{} crashed with status {}: {:?}", what, code, out);
                if code == 1 {
                    ensure!(snapshot(&env) == before, "{} failed but modified the file", what);
                }
                let changes = ["add", "add-stored", "notes -s", "remove", "alias", "list"].iter().any(|c| what.starts_with(c));
                if code == 0 && !changes {
                    ensure!(snapshot(&env) == before, "{} modified the file", what);
                }
                break;
            }
        }
    }
    drop(proc);
    Ok(())
}

// Broken plaintext inside valid ciphertexts

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PlainCase {
    /// Replacements of member values, names, or the complete text
    entry: Vec<PlainMutation>,
    site: Vec<PlainMutation>,
    generated: bool,
    aliased: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum PlainMutation {
    Drop(u8),
    Set(u8, u8),
    Rename(u8, u8),
    Repeat(u8),
    Add(u8, u8),
    Text(Vec<u8>),
    Truncate(u8),
    /// Length and character types of a generated password
    Params(u8, u8),
}

fn plain_mutations() -> BoxedStrategy<Vec<PlainMutation>> {
    vec(
        prop_oneof![
            2 => any::<u8>().prop_map(PlainMutation::Drop),
            6 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| PlainMutation::Set(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| PlainMutation::Rename(a, b)),
            1 => any::<u8>().prop_map(PlainMutation::Repeat),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| PlainMutation::Add(a, b)),
            1 => prop_oneof![
                vec(any::<u8>(), 0..30),
                pick(&["", "null", "{}", "[]", "\"\"", "{\"type\":\"stored\"}", "{\"type\":null}", "[\"stored\"]"]).prop_map(|s| s.into_bytes()),
            ].prop_map(PlainMutation::Text),
            1 => any::<u8>().prop_map(PlainMutation::Truncate),
            3 => (any::<u8>(), prop_oneof![2 => Just(0u8), 3 => any::<u8>()]).prop_map(|(l, s)| PlainMutation::Params(l, s)),
        ],
        0..4,
    )
    .boxed()
}

fn plain_case() -> BoxedStrategy<PlainCase> {
    (plain_mutations(), plain_mutations(), any::<bool>(), any::<bool>())
        .prop_map(|(entry, site, generated, aliased)| PlainCase { entry, site, generated, aliased })
        .boxed()
}

fn plain(members: Vec<(String, serde_json::Value)>, mutations: &[PlainMutation]) -> Vec<u8> {
    let mut m: Vec<(String, String)> = members.into_iter().map(|(k, v)| (k, v.to_string())).collect();
    let values = [
        "null", "true", "false", "0", "1", "-1", "3.5", "1e300", "18446744073709551615", "18446744073709551616", "\"\"", "\"x\"", "[]", "{}",
        "\"stored\"", "\"generated\"", "\"generated2\"", "\"Generated2\"", "4294967295", "\"a.com\"", "\"b.com\"", "\"\\u0000\"", "\"1\"", "[1]", "257",
    ];
    let names = ["type", "site", "name", "revision", "password", "length", "lower", "upper", "number", "symbol", "notes", "alias", "", "x"];
    for c in mutations {
        let n = m.len().max(1);
        match c {
            PlainMutation::Drop(i) if !m.is_empty() => {
                m.remove(*i as usize % n);
            }
            PlainMutation::Set(i, v) if !m.is_empty() => m[*i as usize % n].1 = values[*v as usize % values.len()].to_owned(),
            PlainMutation::Rename(i, v) if !m.is_empty() => m[*i as usize % n].0 = names[*v as usize % names.len()].to_owned(),
            PlainMutation::Repeat(i) if !m.is_empty() => {
                let e = m[*i as usize % n].clone();
                m.push(e);
            }
            PlainMutation::Params(l, set) => {
                let lengths = ["0", "1", "3", "4", "16", "300", "65537", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615"];
                for (i, name) in ["length", "lower", "upper", "number", "symbol"].iter().enumerate() {
                    if let Some(e) = m.iter_mut().find(|e| e.0 == *name) {
                        e.1 = if i == 0 { lengths[*l as usize % lengths.len()].to_owned() } else { (set >> (i - 1) & 1 == 1).to_string() };
                    }
                }
            }
            PlainMutation::Add(i, v) => m.push((names[*i as usize % names.len()].to_owned(), values[*v as usize % values.len()].to_owned())),
            _ => {}
        }
    }
    let mut b = format!(
        "{{{}}}",
        m.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), v)).collect::<Vec<_>>().join(",")
    )
    .into_bytes();
    for c in mutations {
        match c {
            PlainMutation::Text(t) => b = t.clone(),
            PlainMutation::Truncate(n) => {
                let len = b.len() * *n as usize / 256;
                b.truncate(len)
            }
            _ => {}
        }
    }
    b
}

fn plain_test(_: &Ctx, case: &PlainCase, obs: &mut Obs) -> R {
    let primary = "foobar";
    let mut w = writer(primary);
    let mut raw = w.base();
    let id = ("a.com".to_owned(), "me".to_owned(), String::new());
    let val = if case.generated { Val::Gen { len: 8, set: 15 } } else { Val::Stored("value".to_owned()) };
    let members = refimpl::Writer::entry_json(&id, &Entry { val, notes: "n".to_owned() });
    let entry = plain(members, &case.entry);
    w.put_entry(&mut raw, &id, &entry);
    let mut site = vec![("site".to_owned(), json!("a.com"))];
    if case.aliased {
        site.push(("alias".to_owned(), json!("b.com")));
    }
    let site = plain(site, &case.site);
    w.put_site(&mut raw, "a.com", &site);
    // One that is fine
    let other = ("ok.com".to_owned(), "you".to_owned(), "2".to_owned());
    let good = Entry { val: Val::Stored("good".to_owned()), notes: String::new() };
    let members: serde_json::Map<_, _> = refimpl::Writer::entry_json(&other, &good).into_iter().collect();
    w.put_entry(&mut raw, &other, &serde_json::to_vec(&members).unwrap());
    w.put_site(&mut raw, "ok.com", br#"{"site":"ok.com"}"#);
    if !case.entry.is_empty() || !case.site.is_empty() {
        obs.nontrivial();
    }

    let mut p = crypto::open(raw, primary)?;
    let generated = p.list("a.com", "me").find_map(|e| match e {
        pfp::storage_types::Password::Generated(g) => Some((g.length(), g.charset().is_empty())),
        _ => None,
    });
    let sites: Vec<String> = p.list_sites("*").map(|s| s.name().to_owned()).collect();
    ensure!(sites.contains(&"ok.com".to_owned()), "broken records hide other sites: {:?}", sites);
    let list = p.list("ok.com", "*").collect::<Vec<_>>();
    ensure!(list.len() == 1, "broken records hide other passwords");
    // Members other than these might have been changed as well, then there is nothing of that name
    match (p.get("a.com", "me", "1"), generated) {
        (Ok(v), Some((length, empty))) => {
            use secrecy::ExposeSecret;
            let l = v.expose_secret().len();
            ensure!(l == length && !empty && l > 0, "a value of {} characters for length {}, no types {}", l, length, empty);
            obs.class("readable");
        }
        (Ok(_), None) => obs.class("readable"),
        (Err(_), Some((length, empty))) => obs.class(if empty || length == 0 || length > 10000 { "impossible parameters" } else { "error" }),
        (Err(_), None) => obs.class("error"),
    }
    let _ = p.get_notes("a.com", "me", "");
    let _ = p.set_notes("a.com", "me", "", SecretString::new("new".to_owned()));
    let _ = p.has("a.com", "me", "");
    let _ = p.get_alias("a.com");
    let _ = p.get_alias("www.a.com");
    let _ = p.set_alias("c.com", "a.com");
    let _ = p.set_alias("a.com", "d.com");
    let _ = p.remove_alias("a.com");
    let _ = p.list("a.com", "m*").count();
    let _ = p.remove("a.com", "me", "");
    let _ = p.remove_sites(&["a.com".to_owned()]);
    match p.get("ok.com", "you", "2") {
        Ok(v) => {
            use secrecy::ExposeSecret;
            ensure!(v.expose_secret() == "good", "other entry was changed");
        }
        Err(e) => viol!("broken records make other entries inaccessible: {:?}", e),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            level: "exploration",
            rule: "set-primary on files in generated states (absent, missing parent directories, empty, garbage, foreign, truncated, valid with contents, symbolic link), at given, relative and default paths, with generated confirmation replies and password entries including end of input. Non-trivial: a file existed or a primary password was set.",
            assumptions: &["stdin is not a terminal"],
            subs: vec![Box::new(Gen {
                name: "set-primary",
                quick: 1200,
                thorough: 25000,
                strat: primary_case,
                test: primary_test,
                shrink: 150,
            })],
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "Valid storage files with random byte, structure and value mutations, classified by an independent strict parser; loaded by the library and given to every command; broken plaintexts inside valid ciphertexts given to every library call. Non-trivial: file is invalid, uninitialised, cannot be unlocked, or mutated but still valid.",
            assumptions: &["duplicate keys inside of data, arrays in place of the top-level object and non-canonical numbers are accepted either way"],
            subs: vec![
                Box::new(Gen {
                    name: "load",
                    quick: 20000,
                    thorough: 600000,
                    strat: load_case,
                    test: load_test,
                    shrink: 3000,
                }),
                Box::new(Gen {
                    name: "commands",
                    quick: 1800,
                    thorough: 30000,
                    strat: malformed_case,
                    test: malformed_test,
                    shrink: 200,
                }),
                Box::new(Gen {
                    name: "plaintext",
                    quick: 400,
                    thorough: 8000,
                    strat: plain_case,
                    test: plain_test,
                    shrink: 200,
                }),
            ],
        },
    ]
}
