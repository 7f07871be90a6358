//! Secrets left in memory: C20.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl;
use crate::session::raw_with_empty;
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Action {
    Add(u8, u8, bool),
    AddStored(u8, String, bool, bool),
    AddCode(u8, String),
    Show(u8, bool),
    Notes(u8, Option<String>),
    Remove(u8),
    List(bool, bool, bool),
    SetPrimary(String, Option<String>),
    Alias(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MemCase {
    primary: String,
    wrong: Vec<u8>,
    /// Value if stored, notes
    contents: Vec<(Option<String>, String)>,
    actions: Vec<Action>,
    shell: bool,
    lock: bool,
}

/// Without characters that are escaped in JSON, see known findings.
fn secret() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z0-9]{12,40}",
        1 => "[a-zA-Z0-9 +;:.,-]{12,40}",
        1 => "[a-zA-Z0-9äöüß日本😀]{14,30}",
        1 => "[a-zA-Z0-9]{100,300}",
        1 => "[a-zA-Z0-9]{1000,2600}",
    ]
    .prop_map(|s| format!("x{}x", s))
    .boxed()
}

fn action() -> BoxedStrategy<Action> {
    prop_oneof![
        3 => (any::<u8>(), 10u8..25, any::<bool>()).prop_map(|(n, l, y)| Action::Add(n, l, y)),
        4 => (any::<u8>(), secret(), any::<bool>(), any::<bool>()).prop_map(|(n, s, y, c)| Action::AddStored(n, s, y, c)),
        1 => (any::<u8>(), "[a-zA-Z0-9]{12,60}").prop_map(|(n, s)| Action::AddCode(n, s)),
        4 => (any::<u8>(), any::<bool>()).prop_map(|(n, q)| Action::Show(n, q)),
        4 => (any::<u8>(), prop::option::weighted(0.7, secret())).prop_map(|(n, s)| Action::Notes(n, s)),
        1 => any::<u8>().prop_map(Action::Remove),
        5 => (any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(s, r, v)| Action::List(s, r, v)),
        4 => (secret(), prop::option::weighted(0.2, secret())).prop_map(|(a, b)| Action::SetPrimary(a, b)),
        1 => any::<u8>().prop_map(Action::Alias),
    ]
    .boxed()
}

fn mem_case() -> BoxedStrategy<MemCase> {
    let primary = prop_oneof![4 => "[a-zA-Z0-9]{12,30}", 1 => secret()];
    (
        primary,
        prop_oneof![3 => Just(vec![]), 1 => vec(any::<u8>(), 1..3)],
        vec((prop::option::weighted(0.6, secret()), secret()), 1..4),
        vec(action(), 1..5),
        prop::bool::weighted(0.4),
        any::<bool>(),
    )
        .prop_map(|(primary, wrong, contents, mut actions, shell, lock)| {
            if !shell {
                actions.truncate(1);
            } else {
                actions.retain(|a| !matches!(a, Action::SetPrimary(..)));
                if actions.is_empty() {
                    actions.push(Action::List(true, true, true));
                }
            }
            MemCase { primary, wrong, contents, actions, shell, lock }
        })
        .boxed()
}

struct Secrets {
    /// Text searched for and whether the stack counts
    patterns: BTreeMap<Vec<u8>, (String, bool)>,
}

impl Secrets {
    fn add(&mut self, what: &str, value: &str, stack: bool) {
        let b = value.as_bytes();
        let n = b.len();
        if n < 8 {
            return;
        }
        let w = n.min(10);
        for start in [0, n / 4, n / 2, (3 * n / 4).min(n - w), n - w] {
            if start + w <= n {
                self.patterns
                    .insert(b[start..start + w].to_vec(), (format!("{}, bytes {} to {} of {:?}", what, start, start + w, value), stack));
            }
        }
    }

    fn bytes(&mut self, what: &str, value: &[u8]) {
        self.patterns.insert(value.to_vec(), (what.to_owned(), false));
        let hex: String = value.iter().map(|b| format!("{:02x}", b)).collect();
        for text in [base64::encode(value), hex] {
            self.add(what, &text, false);
        }
    }

    fn scan(&self, pid: u32) -> R<(u64, Option<String>)> {
        let maps = std::fs::read_to_string(format!("/proc/{}/maps", pid)).map_err(infra("maps"))?;
        let mut mem = std::fs::File::open(format!("/proc/{}/mem", pid)).map_err(infra("memory"))?;
        let finder = scan::Finder::new(self.patterns.keys().map(|p| p.as_slice()));
        let mut total = 0;
        for line in maps.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            let path = f.get(5).copied().unwrap_or("");
            if !f[1].starts_with("rw") || path.starts_with("[v") {
                continue;
            }
            let (a, b) = f[0].split_once('-').unwrap();
            let a = u64::from_str_radix(a, 16).unwrap();
            let b = u64::from_str_radix(b, 16).unwrap();
            let mut buf = vec![0u8; (b - a) as usize];
            if mem.seek(SeekFrom::Start(a)).is_err() || mem.read_exact(&mut buf).is_err() {
                continue;
            }
            total += buf.len() as u64;
            for (i, p) in finder.find(&buf) {
                let (what, stack) = &self.patterns[p];
                if path == "[stack]" && !stack {
                    continue;
                }
                let from = i.saturating_sub(24);
                let to = (i + p.len() + 24).min(buf.len());
                return Ok((
                    total,
                    Some(format!(
                        "{} found in {} at {:x}, there: {:?}",
                        what,
                        if path.is_empty() { "anonymous memory" } else { path },
                        a + i as u64,
                        String::from_utf8_lossy(&buf[from..to])
                    )),
                ));
            }
        }
        Ok((total, None))
    }
}

fn id(n: u8) -> (String, String) {
    let sites = ["a.com", "b.com", "c.com"];
    let names = ["me", "you"];
    (sites[n as usize % 3].to_owned(), names[n as usize / 3 % 2].to_owned())
}

/// Adds everything a session currently knows
fn handled(secrets: &mut Secrets, model: &Model) {
    for (id, e) in &model.entries {
        secrets.add("password", &model.value(id, e), false);
        secrets.add("notes", &e.notes, false);
    }
}

fn mem_test(ctx: &Ctx, case: &MemCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    env.opts.bin = Some(ctx.cli_leak.clone());
    let mut model = Model::new(&case.primary);
    for (i, (value, notes)) in case.contents.iter().enumerate() {
        let (site, name) = id(i as u8);
        model.set(
            &site,
            &name,
            "",
            match value {
                Some(v) => Val::Stored(v.trim().to_owned()),
                None => Val::Gen { len: 16, set: 15 },
            },
        );
        model.set_notes(&site, &name, "", notes).unwrap();
    }
    env.write(&raw_with_empty(&model))?;

    let mut secrets = Secrets { patterns: BTreeMap::new() };
    secrets.add("primary password", &case.primary, true);
    secrets.bytes("encryption key", &refimpl::derive_key(&case.primary, &SALT));
    secrets.bytes("HMAC secret", &SECRET);
    handled(&mut secrets, &model);

    let mut proc = if case.shell {
        let mut p = env.start_shell()?;
        let (out, stop) = p.text()?;
        ensure!(stop == Stop::Prompt(P_SHELL), "shell: {:?} {:?}", stop, out);
        Some(p)
    } else {
        None
    };
    for action in &case.actions {
        let (args, answers, class): (Vec<String>, Vec<String>, &'static str) = match action {
            Action::Add(n, len, yes) => {
                let (site, name) = id(*n);
                let mut a = s(&["add", &site, &name, "-l", &len.to_string()]);
                if *yes {
                    a.push("-y".to_owned());
                }
                model.set(&site, &name, "", Val::Gen { len: *len as usize, set: 15 });
                (a, vec![], "add")
            }
            Action::AddStored(n, value, yes, _) => {
                let (site, name) = id(*n);
                let mut a = s(&["add-stored", &site, &name]);
                if *yes {
                    a.push("-y".to_owned());
                }
                model.set(&site, &name, "", Val::Stored(value.trim().to_owned()));
                (a, vec![value.clone()], "add-stored")
            }
            Action::AddCode(n, value) => {
                let (site, name) = id(*n);
                let salt = b"recovery-salt-16";
                let code = refimpl::recovery_code(value.as_bytes(), salt, &refimpl::derive_key(&case.primary, salt), &[7; 12]);
                model.set(&site, &name, "", Val::Stored(value.clone()));
                (s(&["add-stored", "-c", "-y", &site, &name]), vec![code.replace('\n', "")], "add-stored -c")
            }
            Action::Show(n, qr) => {
                let (site, name) = id(*n);
                let mut a = s(&["show", &site, &name]);
                if *qr {
                    a.push("-q".to_owned());
                }
                (a, vec![], if *qr { "show -q" } else { "show" })
            }
            Action::Notes(n, text) => {
                let (site, name) = id(*n);
                let mut a = s(&["notes", &site, &name]);
                if let Some(text) = text {
                    a.push("-s".to_owned());
                    let _ = model.set_notes(&site, &name, "", text);
                    secrets.add("notes entered", text, false);
                }
                (a, text.iter().cloned().collect(), "notes")
            }
            Action::Remove(n) => {
                let (site, name) = id(*n);
                let _ = model.remove(&site, &name, "");
                (s(&["remove", &site, &name]), vec![], "remove")
            }
            Action::List(show, recovery, verbose) => {
                let mut a = s(&["list"]);
                for (f, o) in [(show, "-s"), (recovery, "-r"), (verbose, "-v")] {
                    if *f {
                        a.push(o.to_owned());
                    }
                }
                (a, vec![], "list")
            }
            Action::SetPrimary(new, other) => {
                secrets.add("new primary password", new, true);
                if let Some(o) = other {
                    secrets.add("repeated primary password", o, true);
                }
                (s(&["set-primary"]), vec![new.clone(), other.clone().unwrap_or(new.clone())], "set-primary")
            }
            Action::Alias(n) => (s(&["alias", "d.com", &id(*n).0]), vec![], "alias"),
        };
        obs.class(class);
        handled(&mut secrets, &model);
        let p = match &mut proc {
            Some(p) => {
                p.send(&args.join(" "))?;
                p
            }
            None => {
                let mut a = s(&["--wait"]);
                a.extend(args);
                proc = Some(env.start(&a)?);
                proc.as_mut().unwrap()
            }
        };
        let mut answers = answers.into_iter();
        let mut wrong = case.wrong.iter();
        let mut rounds = 0;
        loop {
            let (out, stop) = p.text()?;
            rounds += 1;
            ensure!(rounds < 20, "endless prompts: {:?}", out);
            match stop {
                Stop::Prompt(P_SHELL) | Stop::Prompt(P_WAIT) => break,
                Stop::Prompt(P_PRIMARY) => match wrong.next() {
                    Some(n) => {
                        let w = wrong_attempt(&case.primary, *n);
                        p.send(&w)?
                    }
                    None => p.send(&case.primary)?,
                },
                Stop::Prompt(P_OVERWRITE) => p.send(match action {
                    Action::AddStored(_, _, _, true) => "no",
                    _ => "yes",
                })?,
                Stop::Prompt(P_RESET) => p.send("yes")?,
                Stop::Prompt(_) => p.send(&answers.next().unwrap_or_default())?,
                Stop::Exit(code) => viol!("{:?}: unexpected exit {}: {:?}", action, code, out),
            }
        }
    }
    let mut proc = proc.unwrap();
    if let Some(Action::SetPrimary(new, _)) = case.actions.last() {
        let raw = refimpl::parse_file(&std::fs::read(&env.store).map_err(infra("storage file"))?).map_err(Fail::Violation)?;
        if let Ok(keys) = refimpl::keys(&raw, new.trim()) {
            secrets.bytes("new encryption key", &keys.key);
            secrets.bytes("new HMAC secret", &keys.secret);
            obs.class("new primary password set");
        }
    }
    if case.shell {
        obs.class("shell");
        if case.lock {
            proc.send("lock")?;
            let (out, stop) = proc.text()?;
            ensure!(stop == Stop::Prompt(P_SHELL), "lock: {:?} {:?}", stop, out);
        } else {
            // The shell still knows these, but nothing else
            secrets
                .patterns
                .retain(|_, (w, _)| !["primary", "encryption key", "HMAC"].iter().any(|p| w.starts_with(p)));
        }
    }
    obs.nontrivial();
    let (total, found) = secrets.scan(proc.child.id())?;
    ensure!(total > 100_000, "harness: memory cannot be read, {} bytes", total);
    obs.extra += total / 1024;
    if let Some(what) = found {
        viol!("after {:?}: {}", case.actions, what);
    }
    Ok(())
}

/// The JSON parser unescapes into a buffer of its own.
fn escaped(ctx: &Ctx) -> R {
    let case = MemCase {
        primary: "primaryPASSWORD1".to_owned(),
        wrong: vec![],
        contents: vec![(Some("first5678901\"second789012".to_owned()), "something else".to_owned())],
        actions: vec![Action::Show(0, false)],
        shell: false,
        lock: false,
    };
    mem_test(ctx, &case, &mut Obs::default())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        level: "exploration",
        rule: "Generated contents and commands, one-shot (stopped at --wait) or in a shell (locked afterwards or not), in a build whose allocator never reuses freed memory; all writable memory of the process is searched for parts of each secret the command dealt with. Every case is non-trivial. operations_executed counts kilobytes of memory searched.",
        assumptions: &["10 bytes in a row of a secret would be found, other representations are not looked for", "see known findings for secrets with characters that JSON escapes"],
        subs: vec![
            Box::new(Gen {
                name: "memory",
                quick: 330,
                thorough: 12000,
                strat: mem_case,
                test: mem_test,
                shrink: 60,
            }),
            Box::new(Probe { key: "json-escapes", test: escaped }),
        ],
    }]
}
