//! Command sequences, one-shot and in the shell: C16, C17, C22, C24.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl::{self, Raw};
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StepC {
    pub cmd: Cmd,
    pub style: u8,
    pub attempts: Vec<u8>,
}

pub fn step_c(cmd: BoxedStrategy<Cmd>) -> BoxedStrategy<StepC> {
    (cmd, any::<u8>(), prop_oneof![6 => Just(vec![]), 1 => attempts()])
        .prop_map(|(cmd, style, attempts)| StepC { cmd, style, attempts })
        .boxed()
}

pub fn attempt_texts(step: &StepC, primary: &str) -> Vec<String> {
    let mut a: Vec<String> = step.attempts.iter().map(|n| wrong_attempt(primary, *n)).collect();
    if step.style % 5 >= 3 {
        a.push(entered(primary, step.style));
    }
    a
}

/// Runs one command on its own.
pub fn one_shot(env: &Env, step: &StepC, model: &mut Model) -> R<i32> {
    let cmd = step.cmd.normalized(model);
    let mut events = Vec::new();
    if cmd.needs_unlock() {
        events.extend(unlock_events(&attempt_texts(step, &model.primary), &model.primary));
    }
    let predicted = cmd.predict(model, true);
    events.extend(predicted.events);
    env.run(&cmd.args(step.style), &events, predicted.status, &model.primary)?;
    Ok(predicted.status)
}

pub struct Shell {
    pub proc: Proc,
    pub locked: bool,
}

impl Shell {
    pub fn start(env: &Env, history: bool) -> R<Self> {
        let mut proc = env.start_shell()?;
        let mut events = Vec::new();
        if !history {
            events.push(Ev::Out(Part::Line(format!(
                "Did not load previous command history from {} (",
                env.history().to_string_lossy()
            ))));
        }
        events.push(t(GREETING));
        play(&mut proc, &events, Stop::Prompt(P_SHELL), "")?;
        Ok(Self { proc, locked: true })
    }

    pub fn step(&mut self, step: &StepC, model: &mut Model) -> R<String> {
        let cmd = step.cmd.normalized(model);
        let line = quote_all(&cmd.args(step.style), step.style);
        self.proc.what = format!("shell command {:?}", line);
        self.proc.send(&line)?;
        let mut events = Vec::new();
        if cmd.needs_unlock() && self.locked {
            events.extend(unlock_events(&attempt_texts(step, &model.primary), &model.primary));
            self.locked = false;
        }
        events.extend(cmd.predict(model, false).events);
        play(&mut self.proc, &events, Stop::Prompt(P_SHELL), &model.primary)?;
        Ok(line)
    }

    pub fn raw_line(&mut self, line: &str, events: &[Ev], primary: &str) -> R {
        self.proc.what = format!("shell command {:?}", line);
        self.proc.send(line)?;
        play(&mut self.proc, events, Stop::Prompt(P_SHELL), primary)?;
        Ok(())
    }

    pub fn exit(mut self, by_eof: bool) -> R {
        self.proc.what = "leaving the shell".to_owned();
        if by_eof {
            self.proc.eof();
        } else {
            self.proc.send("exit")?;
        }
        play(&mut self.proc, &[], Stop::Exit(0), "")?;
        Ok(())
    }
}

// C17

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SeqCase {
    pub primary: String,
    pub steps: Vec<StepC>,
    eof: bool,
}

fn seq_case_piped() -> BoxedStrategy<SeqCase> {
    (seq_case(), vec(any::<u8>(), 14))
        .prop_map(|(mut case, picks)| {
            for (step, pick) in case.steps.iter_mut().zip(picks) {
                if let Cmd::Notes { set: Some(notes), .. } = &mut step.cmd {
                    if pick % 8 == 0 {
                        *notes = format!("{}\r{}.", notes, pick);
                    }
                }
            }
            case
        })
        .boxed()
}

pub fn seq_case() -> BoxedStrategy<SeqCase> {
    (cli_primary(), vec((step_c(cmd()), any::<u8>()), 1..14), any::<bool>())
        .prop_map(|(primary, steps, eof)| {
            let (mut steps, picks): (Vec<StepC>, Vec<u8>) = steps.into_iter().unzip();
            link(&[], steps.iter_mut().map(|s| &mut s.cmd).zip(picks));
            SeqCase { primary, steps, eof }
        })
        .boxed()
}

const ONE_SHOT: usize = 5;

fn seq_test(ctx: &Ctx, case: &SeqCase, obs: &mut Obs) -> R {
    seq_run(ctx, case, obs, &Opts::default())
}

pub fn seq_run(ctx: &Ctx, case: &SeqCase, obs: &mut Obs, opts: &Opts) -> R {
    let mut w = writer(&case.primary);
    let base = w.base();

    let mut first = Env::new(ctx);
    first.opts = opts.clone();
    first.write(&base)?;
    let mut model = Model::new(&case.primary);
    let mut changed = 0;
    for step in case.steps.iter().take(ONE_SHOT) {
        obs.class(step.cmd.class());
        obs.extra += 1;
        let before = model.clone();
        let status = one_shot(&first, step, &mut model)?;
        if status != 0 {
            obs.class("failing command");
        }
        changed += (before != model) as u32;
        first.check_model(&model)?;
    }
    let final_one_shot = first.decoded(&case.primary)?;

    let mut second = Env::new(ctx);
    second.opts = opts.clone();
    second.write(&base)?;
    let mut model = Model::new(&case.primary);
    let mut shell = Shell::start(&second, false)?;
    for (i, step) in case.steps.iter().enumerate() {
        if i >= ONE_SHOT {
            obs.class(step.cmd.class());
        }
        obs.extra += 1;
        let before = model.clone();
        shell.step(step, &mut model)?;
        changed += (before != model) as u32;
        second.check_model(&model)?;
        if i + 1 == case.steps.len().min(ONE_SHOT) {
            let decoded = second.decoded(&case.primary)?;
            ensure!(
                decoded.sites == final_one_shot.sites && decoded.entries == final_one_shot.entries,
                "contents differ between one-shot and shell mode: {:?} {:?} vs. {:?} {:?}",
                final_one_shot.sites,
                final_one_shot.entries,
                decoded.sites,
                decoded.entries
            );
        }
    }
    shell.exit(case.eof)?;
    second.check_model(&model)?;
    if changed >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

// C16

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Spelling {
    Same,
    Www,
    Alias,
    WwwAlias,
    OtherName,
    OtherRevision,
    OtherSite,
    CaseOfName,
    CaseOfSite,
    DoubleWww,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ConsentAdd {
    existing: u8,
    spelling: Spelling,
    /// How the revision is spelled where there is a choice
    rev_style: u8,
    stored: bool,
    value: String,
    len: Option<usize>,
    set: u8,
    yes: bool,
    code: bool,
    replies: Vec<Reply>,
    style: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ConsentCase {
    primary: String,
    existing: Vec<(Target, Val, String)>,
    adds: Vec<ConsentAdd>,
    shell: bool,
    /// The first existing password is unreadable
    #[serde(default)]
    damage: Option<u8>,
}

fn consent_case() -> BoxedStrategy<ConsentCase> {
    let spelling = prop_oneof![
        3 => Just(Spelling::Same),
        2 => Just(Spelling::Www),
        2 => Just(Spelling::Alias),
        1 => Just(Spelling::WwwAlias),
        1 => Just(Spelling::OtherName),
        1 => Just(Spelling::OtherRevision),
        1 => Just(Spelling::OtherSite),
        1 => Just(Spelling::CaseOfName),
        1 => Just(Spelling::CaseOfSite),
        1 => Just(Spelling::DoubleWww),
    ];
    let val = prop_oneof![
        (4usize..=24, 1u8..16).prop_map(|(len, set)| Val::Gen { len, set }),
        cli_secret().prop_map(|s| Val::Stored(s.trim().to_owned())),
    ];
    let existing = vec((target(), val, prop_oneof![Just(String::new()), cli_secret()]), 1..4);
    let add = (
        (any::<u8>(), spelling, any::<u8>(), any::<bool>(), cli_secret()),
        (prop::option::of(4usize..=24), 1u8..16, prop::bool::weighted(0.2), prop::bool::weighted(0.15), replies(), any::<u8>()),
    )
        .prop_map(|((existing, spelling, rev_style, stored, value), (len, set, yes, code, replies, style))| ConsentAdd {
            existing,
            spelling,
            rev_style,
            stored,
            code: code && !value.trim().is_empty(),
            value,
            len,
            set,
            yes,
            replies,
            style,
        });
    (cli_primary(), existing, vec(add, 1..5), any::<bool>(), prop_oneof![6 => Just(None), 1 => any::<u8>().prop_map(Some)])
        .prop_map(|(primary, mut existing, mut adds, shell, damage)| {
            if !shell {
                adds.truncate(3);
            }
            if damage.is_some() {
                existing.truncate(1);
                adds.truncate(1);
                adds[0].spelling = match adds[0].spelling {
                    Spelling::OtherName | Spelling::CaseOfName => Spelling::Same,
                    Spelling::OtherRevision | Spelling::CaseOfSite => Spelling::Www,
                    Spelling::OtherSite => Spelling::Alias,
                    Spelling::DoubleWww => Spelling::WwwAlias,
                    ref s => s.clone(),
                };
            }
            ConsentCase { primary, existing, adds, shell, damage }
        })
        .boxed()
}

fn consent_test(ctx: &Ctx, case: &ConsentCase, obs: &mut Obs) -> R {
    let mut model = Model::new(&case.primary);
    for (id, val, notes) in &case.existing {
        let rev = id.rev.as_deref().unwrap_or("1");
        // Double prefixes are a known problem of list, not relevant here
        model.set(&id.site, &id.name, rev, val.clone());
        model.set_notes(&id.site, &id.name, rev, notes).unwrap();
    }
    let sites: BTreeSet<String> = model.entries.keys().map(|(s, _, _)| s.clone()).collect();
    for (i, site) in sites.iter().enumerate() {
        model.aliases.insert(format!("alias{}.example", i), site.clone());
        model.ever.insert(format!("alias{}.example", i));
    }
    let env = Env::new(ctx);
    let mut w = writer(&case.primary);
    let mut raw = w.write(&model);
    if let (Some(n), Some((site, name, rev))) = (case.damage, model.entries.keys().next()) {
        obs.class("unreadable existing password");
        let key = refimpl::entry_key(&SECRET, site, name, rev);
        let value = raw.get_mut(&key).unwrap();
        *value = match n % 6 {
            0 => value.chars().rev().collect(),
            1 => value[..value.len() / 2].to_owned(),
            2 => String::new(),
            3 => w.value(b"not JSON"),
            4 => w.value(b"{\"type\":\"generated3\",\"site\":\"\",\"name\":\"\",\"revision\":\"\"}"),
            _ => {
                let flipped = if value.ends_with('=') { "A=" } else { "AA" };
                format!("{}{}", &value[..value.len() - 2], flipped)
            }
        };
    }
    env.write(&raw)?;
    let mut shell = if case.shell { Some(Shell::start(&env, false)?) } else { None };

    for add in &case.adds {
        let ids: Vec<Id> = model.entries.keys().cloned().collect();
        let (site, name, rev) = ids[add.existing as usize * ids.len() / 256].clone();
        let alias = model.aliases.iter().find(|(_, t)| **t == site).map(|(a, _)| a.clone());
        let alias = alias.unwrap_or_else(|| site.clone());
        let prefixed = |s: &str| format!("www.{}", s);
        // A site name with the prefix of its own is only reachable with another one
        let plain = if site.starts_with("www.") { prefixed(&site) } else { site.clone() };
        let (site, name, rev) = match add.spelling {
            Spelling::Same => (plain, name, rev),
            Spelling::Www => (prefixed(&site), name, rev),
            Spelling::Alias => (alias, name, rev),
            Spelling::WwwAlias => (prefixed(&alias), name, rev),
            Spelling::OtherName => (plain, format!("{}2", name), rev),
            Spelling::OtherRevision => (plain, name, format!("{}2", rev)),
            Spelling::OtherSite => (format!("{}.uk", plain), name, rev),
            Spelling::CaseOfName => (plain, name.to_uppercase(), rev),
            Spelling::CaseOfSite => (plain.to_uppercase(), name, rev),
            Spelling::DoubleWww => (prefixed(&prefixed(&site)), name, rev),
        };
        let rev = match (rev.as_str(), add.rev_style % 3) {
            ("", 0) => None,
            ("", 1) => Some("1".to_owned()),
            _ => Some(rev),
        };
        let id = Target { site, name, rev };
        let cmd = if add.stored {
            Cmd::AddStored { id, value: add.value.clone(), yes: add.yes, replies: add.replies.clone(), code: add.code }
        } else {
            Cmd::Add { id, len: add.len, set: add.set, yes: add.yes, replies: add.replies.clone() }
        };
        let step = StepC { cmd, style: add.style, attempts: vec![] };
        let before = env.bytes()?;
        let old = model.clone();
        let count = model.entries.len();
        match &mut shell {
            Some(shell) => {
                shell.step(&step, &mut model)?;
            }
            None => {
                one_shot(&env, &step, &mut model)?;
            }
        }
        obs.extra += 1;
        if old == model && env.bytes()? != before {
            // Replacing an entry by an identical one also leaves the model as it was
            let mut probe = old.clone();
            let done = step.cmd.predict(&mut probe, !case.shell).events.last() == Some(&t("Password added.\n"));
            ensure!(done, "storage file changed though {:?} was declined", step.cmd);
        }
        if old != model {
            ensure!(env.bytes()? != before, "storage file did not change with {:?}", step.cmd);
        }
        if case.damage.is_none() || env.bytes()? != before {
            env.check_model(&model)?;
        }
        if model.entries.len() == count {
            obs.nontrivial();
            obs.class(if add.yes {
                "overwriting with -y"
            } else if old == model {
                "declined"
            } else {
                "overwriting confirmed"
            });
        } else {
            obs.class("no conflict");
        }
        if add.replies.iter().any(|r| matches!(r, Reply::Invalid(_))) {
            obs.class("unclear replies");
        }
    }
    if let Some(shell) = shell {
        shell.exit(false)?;
        if case.damage.is_none() {
            env.check_model(&model)?;
        }
    }
    Ok(())
}

// C22

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReadOnlyCase {
    primary: String,
    setup: Vec<Cmd>,
    steps: Vec<StepC>,
    shell: bool,
}

fn read_only_case() -> BoxedStrategy<ReadOnlyCase> {
    let setup = vec(
        prop_oneof![
            3 => add_cmd(),
            3 => add_stored_cmd(),
            2 => (cli_site(), cli_site()).prop_map(|(site, target)| Cmd::SetAlias { site, target, remove: false }),
            1 => target().prop_map(|id| Cmd::Remove { id }),
            1 => (target(), cli_secret()).prop_map(|(id, n)| Cmd::Notes { id, set: Some(n) }),
        ],
        2..12,
    );
    (cli_primary(), setup, vec((step_c(cmd()), any::<u8>()), 1..8), any::<bool>())
        .prop_map(|(primary, setup, steps, shell)| {
            let (mut steps, picks): (Vec<StepC>, Vec<u8>) = steps.into_iter().unzip();
            link(&setup, steps.iter_mut().map(|s| &mut s.cmd).zip(picks));
            if !shell {
                steps.truncate(3);
            }
            ReadOnlyCase { primary, setup, steps, shell }
        })
        .boxed()
}

/// Builds contents, including records of sites without passwords.
pub fn build(primary: &str, setup: &[Cmd]) -> (Model, Raw) {
    let mut model = Model::new(primary);
    for c in setup {
        let mut c = c.clone();
        if let Cmd::Add { yes, .. } | Cmd::AddStored { yes, .. } = &mut c {
            *yes = true;
        }
        c.predict(&mut model, true);
    }
    let raw = raw_with_empty(&model);
    (model, raw)
}

pub fn raw_with_empty(model: &Model) -> Raw {
    let mut w = writer(&model.primary);
    let mut raw = w.write(model);
    for site in &model.ever {
        let key = refimpl::site_key(&w.secret, site);
        if !raw.contains_key(&key) {
            let json = serde_json::json!({ "site": site }).to_string();
            w.put_site(&mut raw, site, json.as_bytes());
        }
    }
    raw
}

/// Records changed by a step have to be those the step is about.
pub fn check_touched(before: &Raw, after: &Raw, old: &Model, new: &Model, cmd: &Cmd) -> R {
    let secret = SECRET;
    let mut allowed: BTreeSet<String> = BTreeSet::new();
    let mut may_vanish: BTreeSet<String> = BTreeSet::new();
    match cmd {
        Cmd::Add { id, .. } | Cmd::AddStored { id, .. } => {
            let key = old.id(&id.site, &id.name, id.rev.as_deref().unwrap_or("1"));
            allowed.insert(refimpl::entry_key(&secret, &key.0, &key.1, &key.2));
            allowed.insert(refimpl::site_key(&secret, &key.0));
        }
        Cmd::Notes { id, .. } | Cmd::Remove { id } => {
            let key = old.id(&id.site, &id.name, id.rev.as_deref().unwrap_or("1"));
            allowed.insert(refimpl::entry_key(&secret, &key.0, &key.1, &key.2));
            if matches!(cmd, Cmd::Remove { .. }) && !new.has_passwords(&key.0) {
                may_vanish.insert(refimpl::site_key(&secret, &key.0));
            }
        }
        Cmd::SetAlias { site, target, .. } => {
            allowed.insert(refimpl::site_key(&secret, normalize(site)));
            allowed.insert(refimpl::site_key(&secret, &old.resolve(target)));
            for (a, target) in &new.aliases {
                if old.aliases.get(a) != Some(target) {
                    allowed.insert(refimpl::site_key(&secret, a));
                }
            }
        }
        Cmd::RemoveAlias { site } => {
            allowed.insert(refimpl::site_key(&secret, normalize(site)));
        }
        Cmd::List { .. } => {
            // Entries of sites without passwords may be cleaned up
            for site in &new.ever {
                if !new.aliases.contains_key(site) && !new.has_passwords(site) {
                    may_vanish.insert(refimpl::site_key(&secret, site));
                }
            }
        }
        _ => {}
    }
    for (k, v) in before {
        match after.get(k) {
            Some(v2) if v == v2 => {}
            Some(_) => ensure!(allowed.contains(k), "{:?} changed the unrelated record {}", cmd, k),
            None => ensure!(
                allowed.contains(k) || may_vanish.contains(k),
                "{:?} removed the unrelated record {}",
                cmd,
                k
            ),
        }
    }
    for k in after.keys() {
        ensure!(
            before.contains_key(k) || allowed.contains(k),
            "{:?} added the unexpected record {}",
            cmd,
            k
        );
    }
    Ok(())
}

fn double_www(model: &Model) -> bool {
    model.ever.iter().any(|s| s.starts_with("www."))
}

fn read_only_test(ctx: &Ctx, case: &ReadOnlyCase, obs: &mut Obs) -> R {
    let (mut model, raw) = build(&case.primary, &case.setup);
    let env = Env::new(ctx);
    env.write(&raw)?;
    let mut shell = if case.shell { Some(Shell::start(&env, false)?) } else { None };
    for step in &case.steps {
        let mut step = step.clone();
        step.cmd = step.cmd.normalized(&model);
        let old = model.clone();
        let before = env.bytes()?;
        let before_raw = env.raw()?;
        let mut probe = model.clone();
        let predicted = step.cmd.predict(&mut probe, !case.shell);
        match &mut shell {
            Some(shell) => {
                shell.step(&step, &mut model)?;
            }
            None => {
                one_shot(&env, &step, &mut model)?;
            }
        }
        obs.extra += 1;
        let done = predicted.status == 0
            && step.cmd.mutates()
            && predicted.events.last().map_or(false, |e| {
                matches!(e, Ev::Out(Part::T(s)) if s.ends_with("added.\n") || s.ends_with("removed.\n") || s.ends_with("stored.\n"))
            });
        let after = env.bytes()?;
        if done {
            obs.class("changing command");
            check_touched(&before_raw, &env.raw()?, &old, &model, &step.cmd)?;
        } else if let Cmd::List { .. } = step.cmd {
            if after != before {
                obs.class("list cleaning up");
                check_touched(&before_raw, &env.raw()?, &old, &model, &step.cmd)?;
                ensure!(
                    env.raw()? != before_raw,
                    "{:?} rewrote the storage file without changing anything in it",
                    step.cmd
                );
            } else {
                obs.class("list without changes");
            }
        } else {
            obs.class(if predicted.status != 0 {
                "failing command"
            } else if step.cmd.mutates() {
                "declined"
            } else {
                "reading command"
            });
            ensure!(after == before, "{:?} modified the storage file", step.cmd);
        }
        if !model.entries.is_empty() {
            obs.nontrivial();
        }
        env.check_model(&model)?;
    }
    let _ = double_www(&model);
    Ok(())
}

// C24

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ShellOp {
    Run(StepC),
    Lock,
    Help(u8),
    Malformed(u8),
    Refused(u8),
    Blank,
    Garbage(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ShellCase {
    primary: String,
    setup: Vec<Cmd>,
    ops: Vec<ShellOp>,
    eof: bool,
    old_history: Option<Vec<String>>,
}

fn unique_secret() -> BoxedStrategy<String> {
    "[a-zA-Z0-9 ]{0,6}"
        .prop_flat_map(|a| any::<u32>().prop_map(move |n| format!("{}§{:08x}§", a, n)))
        .boxed()
}

fn shell_case() -> BoxedStrategy<ShellCase> {
    let c = prop_oneof![
        4 => (target(), unique_secret(), prop::bool::weighted(0.3), replies(), prop::bool::weighted(0.15)).prop_map(
            |(id, value, yes, replies, code)| Cmd::AddStored { id, value, yes, replies, code }
        ),
        3 => (target(), unique_secret()).prop_map(|(id, n)| Cmd::Notes { id, set: Some(n) }),
        8 => cmd(),
    ]
    .boxed();
    let wrongful = (c.clone(), any::<u8>(), attempts())
        .prop_map(|(cmd, style, attempts)| ShellOp::Run(StepC { cmd, style, attempts }));
    let op = prop_oneof![
        8 => wrongful,
        3 => Just(ShellOp::Lock),
        1 => any::<u8>().prop_map(ShellOp::Help),
        2 => any::<u8>().prop_map(ShellOp::Malformed),
        1 => any::<u8>().prop_map(ShellOp::Refused),
        1 => Just(ShellOp::Blank),
        1 => "[a-z0-9=_.]{1,12}( [a-z0-9]{1,5}){0,3}".prop_map(ShellOp::Garbage),
    ];
    let history = prop::option::weighted(0.5, vec(pick(&["list", "show a.com me", "old entry", "é"]), 0..4));
    ("primary", 0u32..6, vec(cmd(), 0..6), vec(op, 1..16), any::<bool>(), history)
        .prop_map(|(p, n, setup, ops, eof, old_history)| ShellCase {
            primary: format!("{}§{:08x}§", p, n),
            setup,
            ops,
            eof,
            old_history,
        })
        .boxed()
}

const COMMANDS: [&str; 9] = ["add", "add-stored", "remove", "show", "notes", "list", "alias", "exit", "lock"];

fn shell_test(ctx: &Ctx, case: &ShellCase, obs: &mut Obs) -> R {
    let (mut model, raw) = build(&case.primary, &case.setup);
    let env = Env::new(ctx);
    env.write(&raw)?;
    let mut lines: Vec<String> = Vec::new();
    if let Some(old) = &case.old_history {
        let mut text = "#V2\n".to_owned();
        for l in old {
            text += l;
            text.push('\n');
        }
        std::fs::write(env.history(), text).map_err(infra("history"))?;
    }
    let mut shell = Shell::start(&env, case.old_history.is_some())?;
    let mut failed = 0;
    let mut unlocked_before = false;
    for op in &case.ops {
        obs.extra += 1;
        let line = match op {
            ShellOp::Run(step) => {
                if unlocked_before && shell.locked && step.cmd.needs_unlock() {
                    obs.class("unlocked again after lock");
                    obs.nontrivial();
                }
                let mut probe = model.clone();
                if step.cmd.normalized(&model).predict(&mut probe, false).status != 0 {
                    failed += 1;
                    obs.class("failing command");
                }
                let line = shell.step(step, &mut model)?;
                unlocked_before |= !shell.locked;
                line
            }
            ShellOp::Lock => {
                obs.class("lock");
                shell.raw_line("lock", &[t("Passwords locked.\n")], "")?;
                shell.locked = true;
                "lock".to_owned()
            }
            ShellOp::Help(n) => {
                obs.class("help");
                let all = COMMANDS.len();
                let line = match *n as usize % (all + 2) {
                    i if i < all => format!("help {}", COMMANDS[i]),
                    i if i == all => "help".to_owned(),
                    _ => "help nonsense".to_owned(),
                };
                shell.raw_line(&line, &[Ev::Out(Part::Any)], "")?;
                line
            }
            ShellOp::Malformed(n) => {
                failed += 1;
                obs.class("unparsable line");
                let line = [
                    "show 'a.com me",
                    "show \"a.com me",
                    "add a.com \"it's",
                    "'",
                    "list 'a' 'b",
                ][*n as usize % 5];
                shell.raw_line(line, &[Ev::Out(Part::Any)], "")?;
                line.to_owned()
            }
            ShellOp::Refused(n) => {
                failed += 1;
                obs.class("shell or set-primary");
                let (line, answer) = [
                    ("set-primary", "You cannot change primary password from a shell.\n"),
                    ("set-primary -y", "You cannot change primary password from a shell.\n"),
                    ("set-primary --assume-yes", "You cannot change primary password from a shell.\n"),
                    ("shell", "You cannot run a shell from a shell.\n"),
                    ("shell -s other.txt", "You cannot run a shell from a shell.\n"),
                ][*n as usize % 5];
                shell.raw_line(line, &[t(answer)], "")?;
                line.to_owned()
            }
            ShellOp::Blank => {
                // Shows help
                shell.raw_line("", &[Ev::Out(Part::Any)], "")?;
                String::new()
            }
            ShellOp::Garbage(line) => {
                if COMMANDS.contains(&line.split(' ').next().unwrap()) || line.starts_with("help") || line == "shell" {
                    continue;
                }
                failed += 1;
                obs.class("unknown command");
                shell.raw_line(line, &[Ev::Out(Part::Any)], "")?;
                line.clone()
            }
        };
        lines.push(line);
        env.check_model(&model)?;
    }
    if failed > 0 && !model.entries.is_empty() {
        obs.nontrivial();
    }
    shell.exit(case.eof)?;
    if !case.eof {
        lines.push("exit".to_owned());
    }
    env.check_model(&model)?;

    let bytes = match std::fs::read(env.history()) {
        Ok(b) => b,
        // Nothing to be saved
        Err(_) if lines.iter().all(|l| l.trim().is_empty()) => Vec::new(),
        Err(e) => viol!("no history file after leaving the shell: {}", e),
    };
    let text = String::from_utf8_lossy(&bytes).into_owned();
    let written: Vec<String> = text.lines().skip(1).map(|l| l.replace("\\\\", "\\")).collect();
    let old: Vec<String> = case.old_history.clone().unwrap_or_default();
    // Order is kept, repeated and empty lines might be left out
    let mut expected: Vec<&String> = Vec::new();
    for l in old.iter().chain(lines.iter()) {
        if !l.trim().is_empty() && expected.last().map(|e| e.as_str()) != Some(l.as_str()) {
            expected.push(l);
        }
    }
    let mut pos = 0;
    for l in &expected {
        match written[pos..].iter().position(|w| w == *l) {
            Some(i) => pos += i + 1,
            None => viol!("command line {:?} is missing in the history {:?}", l, written),
        }
    }
    for w in &written {
        ensure!(
            w.is_empty() || expected.contains(&w),
            "history contains {:?} which is not a command line entered: {:?}",
            w,
            expected
        );
    }
    let mut secrets: Vec<&str> = vec![&case.primary];
    for op in &case.ops {
        if let ShellOp::Run(step) = op {
            match &step.cmd {
                Cmd::AddStored { value, .. } => secrets.push(value.trim()),
                Cmd::Notes { set: Some(n), .. } => secrets.push(n),
                _ => {}
            }
        }
    }
    for s in secrets {
        ensure!(
            !s.contains('§') || !text.contains(s),
            "history contains the secret {:?}",
            s
        );
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            level: "exploration",
            rule: "Storage files with 1-3 entries plus an alias for each site, then add/add-stored calls naming an existing entry in an equivalent or a similar but different spelling with generated replies, one-shot or in a shell. Non-trivial: an entry with that identity existed.",
            assumptions: &["storage files are read and written by an independent implementation of the format"],
            subs: vec![Box::new(Gen {
                name: "consent",
                quick: 700,
                thorough: 12000,
                strat: consent_case,
                test: consent_test,
                shrink: 120,
            })],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "Random command sequences run as separate invocations (first 5 commands) and in one shell, all prompts, output and exit codes compared with the prediction of the model. Non-trivial: at least two commands changed the storage.",
            assumptions: &["names contain no line breaks and no NUL", "patterns exclude the recorded wildmatch problem"],
            subs: vec![Box::new(Gen {
                name: "sequences",
                quick: 240,
                thorough: 5000,
                strat: seq_case_piped,
                test: seq_test,
                shrink: 120,
            })],
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "Storage files with generated contents, then reading, failing, declined and changing commands; file bytes and individual records compared around each. Non-trivial: the storage has passwords.",
            assumptions: &["names contain no line breaks and no NUL"],
            subs: vec![Box::new(Gen {
                name: "commands",
                quick: 500,
                thorough: 9000,
                strat: read_only_case,
                test: read_only_test,
                shrink: 120,
            })],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "Shell sessions with generated commands, lock, wrong primary passwords, malformed lines, refused commands, help, ended by exit or end of input; ended-input and keys: on a pseudo-terminal, prompts answered with Ctrl-D and lines abandoned with Ctrl-C. Non-trivial: unlocked again after lock, a failing line with passwords present, a prompt answered with Ctrl-D, or a line edited or abandoned.",
            assumptions: &["in the sub-check shell, stdin is not a terminal"],
            subs: vec![
                Box::new(Gen { name: "shell", quick: 450, thorough: 9000, strat: shell_case, test: shell_test, shrink: 120 }),
                Box::new(Gen {
                    name: "ended-input",
                    quick: 60,
                    thorough: 3000,
                    strat: crate::term::ended_shell_case,
                    test: crate::term::ended_test,
                    shrink: 100,
                }),
                Box::new(Gen {
                    name: "keys",
                    quick: 40,
                    thorough: 2000,
                    strat: crate::term::keys_case,
                    test: crate::term::keys_test,
                    shrink: 100,
                }),
            ],
        },
    ]
}
