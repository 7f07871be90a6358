//! Commands of the application and what they should do.

use crate::cli::*;
use crate::crypto::wild_agrees;
use crate::model::*;
use crate::refimpl;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Reply {
    Yes(u8),
    No(u8),
    Empty,
    Invalid(u8),
    Eof,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Target {
    pub site: String,
    pub name: String,
    pub rev: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    Add {
        id: Target,
        len: Option<usize>,
        set: u8,
        yes: bool,
        replies: Vec<Reply>,
    },
    AddStored {
        id: Target,
        value: String,
        yes: bool,
        replies: Vec<Reply>,
        /// As recovery code
        code: bool,
    },
    Show {
        id: Target,
    },
    Notes {
        id: Target,
        set: Option<String>,
    },
    Remove {
        id: Target,
    },
    List {
        site: Option<String>,
        name: Option<String>,
        show: bool,
        recovery: bool,
        verbose: bool,
    },
    SetAlias {
        site: String,
        target: String,
        /// -r is ignored if there is a target
        remove: bool,
    },
    GetAlias {
        site: String,
    },
    RemoveAlias {
        site: String,
    },
    /// Rejected by the argument parser
    BadArgs(u8),
}

pub fn bad_args(n: u8) -> Vec<String> {
    let all: [&[&str]; 16] = [
        &["add", "a.com"],
        &["add", "a.com", "me", "-l", "3"],
        &["add", "a.com", "me", "-l", "25"],
        &["add", "a.com", "me", "-l", "abc"],
        &["add", "a.com", "me", "-l", "-5"],
        &["add", "a.com", "me", "extra"],
        &["add-stored", "a.com", "me", "-l", "16"],
        &["add-stored"],
        &["show", "a.com"],
        &["show", "a.com", "me", "-x"],
        &["notes", "a.com", "me", "-s", "text"],
        &["remove", "a.com", "me", "-y"],
        &["list", "a.com", "me", "you"],
        &["alias"],
        &["frobnicate", "a.com", "me"],
        &["remove", "a.com"],
    ];
    s(all[n as usize % all.len()])
}

pub struct Predicted {
    pub events: Vec<Ev>,
    pub status: i32,
}

pub fn unlock_events(attempts: &[String], primary: &str) -> Vec<Ev> {
    let mut events = Vec::new();
    for a in attempts {
        events.push(Ev::Ask(P_PRIMARY, Ans::Line(a.clone())));
        let trimmed = a.trim();
        if trimmed == primary {
            return events;
        }
        events.push(t(if trimmed.len() < 6 {
            "Primary password length should be at least 6 characters.\n"
        } else {
            "Decryption failure, wrong primary password?\n"
        }));
    }
    events.push(Ev::Ask(P_PRIMARY, Ans::Line(primary.to_owned())));
    events
}

/// Events of a confirmation, and whether it was confirmed.
pub fn confirm_events(prompt: &'static str, replies: &[Reply], allow_eof: bool, events: &mut Vec<Ev>) -> bool {
    for r in replies {
        let (text, result) = match r {
            Reply::Yes(n) => (["y", "yes", "Y", "YES", "Yes", " y ", "\tyes"][*n as usize % 7], Some(true)),
            Reply::No(n) => (["n", "no", "N", "NO", "No", " n", "no  "][*n as usize % 7], Some(false)),
            Reply::Empty => (["", "  "][0], Some(false)),
            Reply::Invalid(n) => (
                ["yep", "1", "ok", "yes please", "nope", "true", "y y", "j", "yesno", "да", "\u{1}", "y."][*n as usize % 12],
                None,
            ),
            Reply::Eof if allow_eof => {
                events.push(Ev::Ask(prompt, Ans::Eof));
                return false;
            }
            Reply::Eof => ("", Some(false)),
        };
        events.push(Ev::Ask(prompt, Ans::Line(text.to_owned())));
        if let Some(r) = result {
            return r;
        }
    }
    events.push(Ev::Ask(prompt, Ans::Line("no".to_owned())));
    false
}

/// Patterns our own matcher and the library in use agree on for all names.
pub fn pattern_ok(model: &Model, site: &str, name: &str) -> bool {
    model.aliases.iter().all(|(a, b)| wild_agrees(site, a) && wild_agrees(site, b))
        && model.ever.iter().all(|s| wild_agrees(site, s))
        && model.entries.keys().all(|(_, n, _)| wild_agrees(name, n))
}

/// Output of the list command, None if the order isn't determined.
pub fn list_parts(model: &Model, site_pattern: &str, name_pattern: &str, show: bool, recovery: bool, verbose: bool) -> Vec<Part> {
    let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (alias, target) in &model.aliases {
        if refimpl::wild(site_pattern, alias) || refimpl::wild(site_pattern, target) {
            groups.entry(target.clone()).or_default().push(alias.clone());
        }
    }
    for (site, _, _) in model.entries.keys() {
        if refimpl::wild(site_pattern, site) {
            groups.entry(site.clone()).or_default();
        }
    }
    let mut parts = Vec::new();
    let mut text = String::new();
    for (site, aliases) in groups {
        let entries: Vec<_> = model
            .entries
            .iter()
            .filter(|((s, n, _), _)| *s == site && refimpl::wild(name_pattern, n))
            .collect();
        if entries.is_empty() {
            continue;
        }
        text += &format!("Passwords for {}:\n", site);
        if verbose && !aliases.is_empty() {
            text += &format!("    Aliases: {}\n", aliases.join(",\n             "));
        }
        for (id, e) in entries {
            let kind = match e.val {
                Val::Gen { .. } => "generated",
                Val::Stored(_) => "stored",
            };
            if id.2.is_empty() {
                text += &format!("    {} ({})\n", id.1, kind);
            } else {
                text += &format!("    {} ({}, revision: {})\n", id.1, kind, id.2);
            }
            if show {
                text += &format!("        {}\n", model.value(id, e));
            }
            if let Val::Stored(v) = &e.val {
                if recovery {
                    text += "        Recovery code:\n";
                    parts.push(Part::T(std::mem::take(&mut text)));
                    parts.push(Part::Code(v.clone()));
                }
            }
            if verbose {
                if !e.notes.is_empty() {
                    text += &format!("        Notes: {}\n", e.notes);
                }
                if let Val::Gen { len, set } = e.val {
                    let mut chars = Vec::new();
                    for (i, c) in ["abc", "ABC", "789", "+^;"].iter().enumerate() {
                        if set & 1 << i != 0 {
                            chars.push(*c);
                        }
                    }
                    text += &format!("        Length: {}\n        Allowed characters: {}\n", len, chars.join(" "));
                }
            }
        }
    }
    if text.is_empty() && parts.is_empty() {
        text = "No matching passwords found.\n".to_owned();
    }
    parts.push(Part::T(text));
    parts
}

impl Cmd {
    pub fn args(&self, style: u8) -> Vec<String> {
        let mut args: Vec<String> = Vec::new();
        let mut options: Vec<String> = Vec::new();
        let mut positional: Vec<String> = Vec::new();
        let flag = |short: &str, long: &str, bit: u8| -> String {
            if style >> bit & 1 == 0 { short.to_owned() } else { long.to_owned() }
        };
        let mut ident = |id: &Target, options: &mut Vec<String>| {
            positional.push(id.site.clone());
            positional.push(id.name.clone());
            if let Some(r) = &id.rev {
                match style % 4 {
                    _ if r.starts_with('-') => options.push(format!("--revision={}", r)),
                    1 => options.extend(["--revision".to_owned(), r.clone()]),
                    2 if !r.is_empty() => options.push(format!("--revision={}", r)),
                    3 if !r.is_empty() && !r.starts_with('=') => options.push(format!("-r{}", r)),
                    _ => options.extend(["-r".to_owned(), r.clone()]),
                }
            }
        };
        match self {
            Cmd::Add { id, len, set, yes, .. } => {
                args.push("add".to_owned());
                ident(id, &mut options);
                if let Some(l) = len {
                    match style % 3 {
                        0 => options.extend(["-l".to_owned(), l.to_string()]),
                        1 => options.extend(["--length".to_owned(), l.to_string()]),
                        _ => options.push(format!("--length={}", l)),
                    }
                }
                let names = [("-w", "--no-lower"), ("-u", "--no-upper"), ("-d", "--no-digit"), ("-s", "--no-symbol")];
                if style & 0x40 != 0 && set.count_ones() < 4 {
                    // Combined flags
                    let mut f = "-".to_owned();
                    for (i, (s, _)) in names.iter().enumerate() {
                        if set & 1 << i == 0 {
                            f += &s[1..];
                        }
                    }
                    if *yes {
                        f.push('y');
                    }
                    options.push(f);
                } else {
                    for (i, (s, l)) in names.iter().enumerate() {
                        if set & 1 << i == 0 {
                            options.push(flag(s, l, 3));
                        }
                    }
                    if *yes {
                        options.push(flag("-y", "--assume-yes", 4));
                    }
                }
            }
            Cmd::AddStored { id, yes, code, .. } => {
                args.push("add-stored".to_owned());
                ident(id, &mut options);
                if *yes {
                    options.push(flag("-y", "--assume-yes", 4));
                }
                if *code {
                    options.push(flag("-c", "--recovery", 3));
                }
            }
            Cmd::Show { id } => {
                args.push("show".to_owned());
                ident(id, &mut options);
            }
            Cmd::Notes { id, set } => {
                args.push("notes".to_owned());
                ident(id, &mut options);
                if set.is_some() {
                    options.push(flag("-s", "--set", 3));
                }
            }
            Cmd::Remove { id } => {
                args.push("remove".to_owned());
                ident(id, &mut options);
            }
            Cmd::List { site, name, show, recovery, verbose } => {
                args.push("list".to_owned());
                if let Some(site) = site {
                    positional.push(site.clone());
                    if let Some(name) = name {
                        positional.push(name.clone());
                    }
                }
                if *show {
                    options.push(flag("-s", "--show", 3));
                }
                if *recovery {
                    options.push(flag("-r", "--recovery", 4));
                }
                if *verbose {
                    options.push(flag("-v", "--verbose", 5));
                }
            }
            Cmd::SetAlias { site, target, remove } => {
                args.push("alias".to_owned());
                positional.extend([site.clone(), target.clone()]);
                if *remove {
                    options.push(flag("-r", "--remove", 3));
                }
            }
            Cmd::GetAlias { site } => {
                args.push("alias".to_owned());
                positional.push(site.clone());
            }
            Cmd::RemoveAlias { site } => {
                args.push("alias".to_owned());
                positional.push(site.clone());
                options.push(flag("-r", "--remove", 3));
            }
            Cmd::BadArgs(n) => return bad_args(*n),
        }
        let hyphen = positional.iter().any(|p| p.starts_with('-'));
        if hyphen || style & 0x80 != 0 {
            args.extend(options);
            if hyphen || style & 1 != 0 {
                args.push("--".to_owned());
            }
            args.extend(positional);
        } else {
            args.extend(positional);
            args.extend(options);
        }
        args
    }

    pub fn normalized(&self, model: &Model) -> Cmd {
        // Patterns running into the known problem of the matcher are replaced
        if let Cmd::List { site, name, show, recovery, verbose } = self {
            let ok = pattern_ok(
                model,
                site.as_deref().unwrap_or("*"),
                name.as_deref().unwrap_or("*"),
            );
            if !ok {
                return Cmd::List {
                    site: None,
                    name: None,
                    show: *show,
                    recovery: *recovery,
                    verbose: *verbose,
                };
            }
        }
        self.clone()
    }

    pub fn mutates(&self) -> bool {
        matches!(
            self,
            Cmd::Add { .. }
                | Cmd::AddStored { .. }
                | Cmd::Notes { set: Some(_), .. }
                | Cmd::Remove { .. }
                | Cmd::SetAlias { .. }
                | Cmd::RemoveAlias { .. }
        )
    }

    /// What the command should do apart from asking for the primary password. Updates the model.
    pub fn predict(&self, model: &mut Model, allow_eof: bool) -> Predicted {
        let mut events = Vec::new();
        let result: Result<(), Vec<MErr>> = (|| {
            match self {
                Cmd::Add { id, len, set, yes, replies } => {
                    if *set == 0 {
                        events.push(t("You need to allow at least one character set.\n"));
                        return Err(vec![]);
                    }
                    let rev = id.rev.as_deref().unwrap_or("1");
                    let ask = !yes && model.get(&id.site, &id.name, rev).is_some();
                    if !ask || confirm_events(P_OVERWRITE, replies, allow_eof, &mut events) {
                        let val = Val::Gen { len: len.unwrap_or(16), set: *set };
                        model.set(&id.site, &id.name, rev, val);
                        events.push(t("Password added.\n"));
                    }
                }
                Cmd::AddStored { id, value, yes, replies, code } => {
                    let rev = id.rev.as_deref().unwrap_or("1");
                    let ask = !yes && model.get(&id.site, &id.name, rev).is_some();
                    if !ask || confirm_events(P_OVERWRITE, replies, allow_eof, &mut events) {
                        if *code {
                            let code = refimpl::recovery_code(
                                value.trim().as_bytes(),
                                b"recovery-salt-16",
                                &refimpl::derive_key(&model.primary, b"recovery-salt-16"),
                                &[9; 12],
                            );
                            events.push(Ev::Ask(P_CODE, Ans::Line(code)));
                        } else {
                            events.push(Ev::Ask(P_STORED, Ans::Line(value.clone())));
                        }
                        model.set(&id.site, &id.name, rev, Val::Stored(value.trim().to_owned()));
                        events.push(t("Password added.\n"));
                    }
                }
                Cmd::Show { id } => {
                    let rev = id.rev.as_deref().unwrap_or("1");
                    let key = model.id(&id.site, &id.name, rev);
                    let e = model.entries.get(&key).ok_or(vec![MErr::KeyMissing])?;
                    events.push(t(format!("Password retrieved.\n{}\n", model.value(&key, e))));
                }
                Cmd::Notes { id, set } => {
                    let rev = id.rev.as_deref().unwrap_or("1");
                    let e = model.get(&id.site, &id.name, rev).ok_or(vec![MErr::KeyMissing])?;
                    if e.notes.is_empty() {
                        events.push(t("Currently no notes are stored for this password.\n"));
                    } else {
                        events.push(t(format!("Notes for this password: {}\n", e.notes)));
                    }
                    if let Some(notes) = set {
                        events.push(Ev::Ask(P_NOTES, Ans::Line(notes.clone())));
                        model.set_notes(&id.site, &id.name, rev, notes).unwrap();
                        events.push(t(if notes.is_empty() { "Notes removed.\n" } else { "Notes stored.\n" }));
                    }
                }
                Cmd::Remove { id } => {
                    let rev = id.rev.as_deref().unwrap_or("1");
                    model.remove(&id.site, &id.name, rev).map_err(|e| vec![e])?;
                    events.push(t("Password removed.\n"));
                }
                Cmd::List { site, name, show, recovery, verbose } => {
                    let parts = list_parts(
                        model,
                        site.as_deref().unwrap_or("*"),
                        if site.is_some() { name.as_deref().unwrap_or("*") } else { "*" },
                        *show,
                        *recovery,
                        *verbose,
                    );
                    events.extend(parts.into_iter().map(Ev::Out));
                }
                Cmd::SetAlias { site, target, .. } => {
                    model.set_alias(site, target)?;
                    events.push(t("Alias added.\n"));
                }
                Cmd::GetAlias { site } => {
                    let target = model.get_alias(site).map_err(|e| vec![e])?;
                    events.push(t(format!("'{}' is an alias for '{}'.\n", site, target)));
                }
                Cmd::RemoveAlias { site } => {
                    model.remove_alias(site).map_err(|e| vec![e])?;
                    events.push(t("Alias removed.\n"));
                }
                Cmd::BadArgs(_) => {
                    events.push(Ev::Out(Part::Any));
                    return Err(vec![]);
                }
            }
            Ok(())
        })();
        let status = match result {
            Ok(()) => 0,
            Err(errors) => {
                if !errors.is_empty() {
                    events.push(Ev::Out(Part::OneOf(
                        errors.iter().map(|e| format!("{}\n", errno(*e))).collect(),
                    )));
                }
                if matches!(self, Cmd::BadArgs(_)) { 2 } else { 1 }
            }
        };
        Predicted { events, status }
    }

    pub fn needs_unlock(&self) -> bool {
        !matches!(self, Cmd::BadArgs(_))
    }

    pub fn class(&self) -> &'static str {
        match self {
            Cmd::Add { .. } => "add",
            Cmd::AddStored { code: true, .. } => "add-stored -c",
            Cmd::AddStored { .. } => "add-stored",
            Cmd::Show { .. } => "show",
            Cmd::Notes { set: None, .. } => "notes",
            Cmd::Notes { .. } => "notes --set",
            Cmd::Remove { .. } => "remove",
            Cmd::List { .. } => "list",
            Cmd::SetAlias { .. } => "alias site target",
            Cmd::GetAlias { .. } => "alias site",
            Cmd::RemoveAlias { .. } => "alias --remove",
            Cmd::BadArgs(_) => "wrong arguments",
        }
    }
}

// Generators

pub fn pick(v: &'static [&'static str]) -> BoxedStrategy<String> {
    select(v).prop_map(|s| s.to_owned()).boxed()
}

/// Printable text for the command line, without prompts or line breaks.
pub fn printable(max: usize) -> BoxedStrategy<String> {
    vec(
        prop_oneof![
            8 => prop::char::range(' ', '~'),
            1 => prop::char::range('\u{a1}', '\u{2ff}'),
            1 => select(vec!['€', '日', '😀', 'ß', '\u{301}', 'İ', '"', '\\', '\'', '*', '?', '<', '\u{a0}', '\u{3000}']),
        ],
        0..=max,
    )
    .prop_map(|v| v.into_iter().collect::<String>())
    .boxed()
}

pub fn cli_site() -> BoxedStrategy<String> {
    prop_oneof![
        10 => pick(&["a.com", "www.a.com", "b.com", "www.b.com", "c.org", "d.net"]),
        3 => pick(&["ex ample", "ä.example", "A.com", "日本.jp", "it's", "a\"b", "a\\b", "*", "a.*", "-x", "www.", "aa.com", "a.com:80", "", "$HOME"]),
        1 => printable(10).prop_map(|s| s.replace("www.", "ww.")),
        1 => crate::gens::long("long.example.").prop_map(str::to_owned),
    ]
    .boxed()
}

pub fn cli_name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => pick(&["me", "you", "me2"]),
        3 => pick(&["me 2", "o'neil", "ünï", "", "m*", "-n", "a\"b", "a\\b", " ", "ME", "m?", "1", "--"]),
        1 => printable(10),
        1 => crate::gens::long("somebody ").prop_map(str::to_owned),
    ]
    .boxed()
}

pub fn cli_rev() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        5 => Just(None),
        2 => Just(Some("1".to_owned())),
        4 => pick(&["", "2", "3"]).prop_map(Some),
        2 => pick(&["10", "01", "x y", "-1", "2.0", "'", "ß", " 2", "2 ", " 1", "1 ", " "]).prop_map(Some),
    ]
    .boxed()
}

pub fn target() -> BoxedStrategy<Target> {
    (cli_site(), cli_name(), cli_rev())
        .prop_map(|(site, name, rev)| Target { site, name, rev })
        .boxed()
}

pub fn reply() -> BoxedStrategy<Reply> {
    prop_oneof![
        3 => any::<u8>().prop_map(Reply::Yes),
        2 => any::<u8>().prop_map(Reply::No),
        1 => Just(Reply::Empty),
        2 => any::<u8>().prop_map(Reply::Invalid),
        1 => Just(Reply::Eof),
    ]
    .boxed()
}

pub fn replies() -> BoxedStrategy<Vec<Reply>> {
    vec(reply(), 0..4).boxed()
}

pub fn cli_secret() -> BoxedStrategy<String> {
    prop_oneof![
        15 => printable(20),
        3 => printable(150),
        3 => pick(&["", " ", "  lead", "trail  ", "\t", "a", "null", "\"", "{}"]),
        2 => pick(&["same", " same", "same ", "SAME", "same same"]),
        3 => "[a-z]{20,200}",
        1 => long_line(1300),
    ]
    .boxed()
}

/// Lines around usual buffer sizes, a terminal delivers no more than 4095 bytes.
pub fn long_line(max: usize) -> BoxedStrategy<String> {
    (
        prop_oneof![
            pick(&["1024", "2048", "4096", "8192", "65536", "1000"]).prop_map(|s| s.parse::<usize>().unwrap()),
            200..max,
        ],
        0usize..5,
        pick(&["x", "ab c", "äx", "日本語", "\"\\"]),
        printable(6),
    )
        .prop_map(move |(n, d, unit, end)| {
            let n = (n + 2).saturating_sub(d).min(max);
            let mut line = unit.repeat(n / unit.len() + 1);
            while line.len() > n.saturating_sub(end.len()) {
                line.pop();
            }
            line + &end
        })
        .boxed()
}

pub fn cli_set() -> BoxedStrategy<u8> {
    prop_oneof![5 => Just(15u8), 5 => 1u8..16, 1 => Just(0u8)].boxed()
}

pub fn pattern_site() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        4 => Just(None),
        4 => cli_site().prop_map(Some),
        5 => pick(&["*", "a*", "*.com", "?.com", "*a*", "b.???", "??*", "w*", "*m", "x*", "*.*", "?"]).prop_map(Some),
    ]
    .boxed()
}

pub fn pattern_name() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        4 => Just(None),
        3 => cli_name().prop_map(Some),
        4 => pick(&["*", "m*", "*e", "??", "?*", "*2", "zz*", "*o*"]).prop_map(Some),
    ]
    .boxed()
}

pub fn list_cmd() -> BoxedStrategy<Cmd> {
    (pattern_site(), pattern_name(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(site, name, show, recovery, verbose)| Cmd::List { name: if site.is_some() { name } else { None }, site, show, recovery, verbose })
        .boxed()
}

pub fn add_cmd() -> BoxedStrategy<Cmd> {
    (target(), prop::option::of(4usize..=24), cli_set(), prop::bool::weighted(0.3), replies())
        .prop_map(|(id, len, set, yes, replies)| Cmd::Add { id, len, set, yes, replies })
        .boxed()
}

pub fn add_stored_cmd() -> BoxedStrategy<Cmd> {
    (target(), cli_secret(), prop::bool::weighted(0.3), replies(), prop::bool::weighted(0.15))
        .prop_map(|(id, value, yes, replies, code)| Cmd::AddStored {
            id,
            // Trailing NULs aside any password works
            code: code && !value.trim().is_empty(),
            value,
            yes,
            replies,
        })
        .boxed()
}

/// Makes commands work with passwords added by earlier ones of the sequence.
pub fn link<'a>(known: &[Cmd], cmds: impl Iterator<Item = (&'a mut Cmd, u8)>) {
    let mut ids: Vec<Target> = Vec::new();
    let mut note = |c: &Cmd, ids: &mut Vec<Target>| {
        if let Cmd::Add { id, .. } | Cmd::AddStored { id, .. } = c {
            ids.push(id.clone());
        }
    };
    known.iter().for_each(|c| note(c, &mut ids));
    for (c, pick) in cmds {
        if let Cmd::Show { id } | Cmd::Notes { id, .. } | Cmd::Remove { id } | Cmd::AddStored { id, .. } | Cmd::Add { id, .. } = c {
            let limit = ids.len() * 3;
            // A third of the picks or more leave the command as it is
            let n = pick as usize * (limit + limit / 2 + 3) / 256;
            if n < limit {
                let mut new = ids[ids.len() - 1 - n / 3].clone();
                if n % 3 == 2 && !new.site.starts_with("www.") && !new.site.starts_with('-') {
                    new.site = format!("www.{}", new.site);
                }
                *id = new;
            }
        }
        note(c, &mut ids);
    }
}

pub fn notes_text() -> BoxedStrategy<String> {
    prop_oneof![
        12 => cli_secret(),
        3 => Just(String::new()),
        1 => long_line(4000),
        6 => ("[ \t]{0,2}", printable(12), "[ \t]{0,3}").prop_map(|(a, b, c)| format!("{}{}{}", a, b, c)),
    ]
    .boxed()
}

pub fn cmd() -> BoxedStrategy<Cmd> {
    prop_oneof![
        6 => add_cmd(),
        6 => add_stored_cmd(),
        5 => target().prop_map(|id| Cmd::Show { id }),
        4 => (target(), prop::option::weighted(0.7, notes_text()))
            .prop_map(|(id, set)| Cmd::Notes { id, set }),
        3 => target().prop_map(|id| Cmd::Remove { id }),
        4 => list_cmd(),
        4 => (cli_site(), cli_site(), prop::bool::weighted(0.1)).prop_map(|(site, target, remove)| Cmd::SetAlias { site, target, remove }),
        2 => cli_site().prop_map(|site| Cmd::GetAlias { site }),
        2 => cli_site().prop_map(|site| Cmd::RemoveAlias { site }),
        1 => any::<u8>().prop_map(Cmd::BadArgs),
    ]
    .boxed()
}

/// Primary passwords as they can be entered at a prompt: already trimmed, at least six bytes.
pub fn cli_primary() -> BoxedStrategy<String> {
    prop_oneof![
        10 => pick(&["foobar", "primary password 1", "пароль", "日本語", "日本", "äöü", "quo\"te\\d"]),
        1 => "[a-zA-Z0-9]{6,20}",
        1 => printable(24),
    ]
    .prop_map(|s| {
        let t = s.trim().to_owned();
        if t.len() < 6 { format!("{}x12345", t) } else { t }
    })
    .boxed()
}

/// Wrong answers to the prompt for the primary password.
pub fn attempts() -> BoxedStrategy<Vec<u8>> {
    vec(any::<u8>(), 0..3).boxed()
}

pub fn wrong_attempt(primary: &str, n: u8) -> String {
    let c = match n % 8 {
        0 => String::new(),
        1 => "short".to_owned(),
        2 => format!("{}x", primary),
        3 => primary.to_uppercase(),
        4 => primary.chars().rev().collect(),
        5 => primary.chars().skip(1).collect(),
        6 => format!("x{}", primary),
        _ => "something else".to_owned(),
    };
    if c.trim() == primary {
        "certainly not the one".to_owned()
    } else {
        c
    }
}

/// Entered with surrounding whitespace sometimes, this is ignored
pub fn entered(primary: &str, style: u8) -> String {
    match style % 5 {
        3 => format!("  {} ", primary),
        4 => format!("{}\t", primary),
        _ => primary.to_owned(),
    }
}
