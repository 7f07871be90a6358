//! Parts of C05 and C07 dealing with the command line application.

use crate::cli::*;
use crate::cmds::*;
use crate::crypto::{composition, search, token};
use crate::engine::*;
use crate::model::*;
use crate::refimpl;
use crate::session::raw_with_empty;
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// C05

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AddCase {
    id: Target,
    length: Option<String>,
    set: u8,
    /// There is such a password already
    exists: bool,
    yes: bool,
    shell: bool,
    style: u8,
}

fn add_case() -> BoxedStrategy<AddCase> {
    let length = prop_oneof![
        4 => Just(None),
        12 => (0i64..31).prop_map(|n| Some(n.to_string())),
        3 => select(vec!["3", "4", "24", "25"]).prop_map(|s| Some(s.to_owned())),
        3 => select(vec![
            "-1", "-4", "", "abc", "4.0", "1e1", "0x10", " 8", "8 ", "8a", "+8", "08", "00000016", "+3", "003", "256", "260", "65540", "4294967300",
            "4294967312", "18446744073709551616", "18446744073709551632", "99999999999999999999999", "٨", "८", "８",
        ])
        .prop_map(|s| Some(s.to_owned())),
        1 => any::<u64>().prop_map(|n| Some(n.to_string())),
    ];
    let id = (pick(&["a.com", "www.a.com", "b.com"]), pick(&["me", "you"]), cli_rev()).prop_map(|(site, name, rev)| Target { site, name, rev });
    (id, length, 0u8..16, prop::bool::weighted(0.3), any::<bool>(), prop::bool::weighted(0.2), any::<u8>())
        .prop_map(|(id, length, set, exists, yes, shell, style)| AddCase { id, length, set, exists, yes, shell, style })
        .boxed()
}

/// The length if it is acceptable, and whether it has to be accepted
fn parse_length(text: &str) -> (Option<usize>, bool) {
    let digits = text.strip_prefix('+').unwrap_or(text);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return (None, false);
    }
    let trimmed = digits.trim_start_matches('0');
    let canonical = trimmed == text;
    match trimmed.parse::<usize>() {
        Ok(n) if (4..=24).contains(&n) => (Some(n), canonical),
        _ => (None, false),
    }
}

fn add_test(ctx: &Ctx, case: &AddCase, obs: &mut Obs) -> R {
    let env = Env::new(ctx);
    let primary = "foobar";
    let mut model = Model::new(primary);
    let rev = case.id.rev.as_deref().unwrap_or("1");
    if case.exists {
        model.set(&case.id.site, &case.id.name, rev, Val::Stored("old value".to_owned()));
    }
    let raw = raw_with_empty(&model);
    env.write(&raw)?;
    let before = env.bytes()?;

    let base = Cmd::Add { id: case.id.clone(), len: None, set: case.set, yes: case.yes, replies: vec![] };
    let mut args = base.args(case.style & !0x80);
    if let Some(l) = &case.length {
        let at = args.len();
        let hyphen = args.iter().position(|a| a == "--").unwrap_or(at);
        match case.style >> 4 & 1 {
            _ if l.starts_with('-') || l.is_empty() => args.insert(hyphen, format!("--length={}", l)),
            0 => args.splice(hyphen..hyphen, ["-l".to_owned(), l.clone()]).for_each(drop),
            _ => args.insert(hyphen, format!("--length={}", l)),
        }
    }
    let (len, must) = match &case.length {
        None => (Some(16), true),
        Some(l) => parse_length(l),
    };
    let good = len.is_some() && case.set != 0;
    obs.nontrivial();
    obs.class(match (&case.length, len, case.set) {
        (_, _, 0) => "no character types",
        (None, ..) => "default length",
        (_, Some(n), set) if n == set.count_ones() as usize => "as long as there are types",
        (_, Some(_), _) => "valid length",
        (_, None, _) => "invalid length",
    });

    let mut proc = if case.shell {
        let mut p = env.start_shell()?;
        p.text()?;
        p.send(&quote_all(&args, case.style))?;
        p
    } else {
        env.start(&args)?
    };
    let mut output = String::new();
    let mut rounds = 0;
    let code = loop {
        let (text, stop) = proc.text()?;
        output += &text;
        rounds += 1;
        ensure!(rounds < 6, "{:?}: endless prompts {:?}", args, output);
        match stop {
            Stop::Prompt(P_PRIMARY) => proc.send(primary)?,
            Stop::Prompt(P_OVERWRITE) => proc.send("yes")?,
            Stop::Prompt(P_SHELL) => break if output.contains("Password added.") { 0 } else { 1 },
            Stop::Prompt(p) => viol!("{:?}: unexpected prompt {:?}", args, p),
            Stop::Exit(code) => break code,
        }
    };
    drop(proc);
    let accepted = output.contains("Password added.");
    ensure!(accepted == (code == 0), "{:?}: exit status {}, output {:?}", args, code, output);
    ensure!(
        if good { accepted || !must } else { !accepted },
        "{:?}: {} though the parameters are {}: {:?}",
        args,
        if accepted { "accepted" } else { "refused" },
        if good { "fine" } else { "not" },
        output
    );
    if !accepted {
        ensure!(code == 1 || code == 2, "{:?}: exit status {}: {:?}", args, code, output);
        ensure!(env.bytes()? == before, "{:?}: refused but the file was modified", args);
        return Ok(());
    }
    let len = len.unwrap();
    model.set(&case.id.site, &case.id.name, rev, Val::Gen { len, set: case.set });
    env.check_model(&model)?;
    let show = Cmd::Show { id: case.id.clone() };
    let mut proc = env.start(&show.args(0))?;
    proc.text()?;
    proc.send(primary)?;
    let (text, stop) = proc.text()?;
    ensure!(stop == Stop::Exit(0), "show: {:?} {:?}", stop, text);
    let value = text
        .strip_prefix("Password retrieved.\n")
        .and_then(|t| t.strip_suffix('\n'))
        .unwrap_or("");
    if let Err(e) = composition(value, len, case.set) {
        viol!("{:?}, then show: {}", args, e);
    }
    Ok(())
}

pub fn c05_cli() -> Box<dyn Sub> {
    Box::new(Gen { name: "command-line", quick: 700, thorough: 20000, strat: add_case, test: add_test, shrink: 150 })
}

// C07

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    Add(u8, u8, u8),
    AddStored(u8, u8),
    AddCode(u8, u8),
    Notes(u8, u8),
    Show(u8, bool),
    List,
    Remove(u8),
    Alias(u8),
    Failing(u8),
    Lock,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FilesCase {
    seed: String,
    steps: Vec<Step>,
    /// 0 separate invocations, 1 shell, 2 shell with default history
    mode: u8,
    init: bool,
    /// The last one is killed at some call
    kill: Option<u8>,
    wrong: bool,
}

fn files_case() -> BoxedStrategy<FilesCase> {
    let step = prop_oneof![
        3 => (any::<u8>(), any::<u8>(), 8u8..25).prop_map(|(a, b, c)| Step::Add(a, b, c)),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::AddStored(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::AddCode(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::Notes(a, b)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Step::Show(a, b)),
        1 => Just(Step::List),
        1 => any::<u8>().prop_map(Step::Remove),
        1 => any::<u8>().prop_map(Step::Alias),
        1 => any::<u8>().prop_map(Step::Failing),
        1 => Just(Step::Lock),
    ];
    ("[a-z]{6}", vec(step, 1..6), 0u8..3, prop::bool::weighted(0.3), prop::option::weighted(0.3, 0u8..14), prop::bool::weighted(0.3))
        .prop_map(|(seed, steps, mode, init, kill, wrong)| FilesCase { seed, steps, mode, init, kill, wrong })
        .boxed()
}

/// Everything written anywhere, by path
fn written(log: &std::path::Path) -> R<Vec<(String, Vec<u8>)>> {
    let text = match std::fs::read(log) {
        Ok(t) => String::from_utf8_lossy(&t).into_owned(),
        Err(_) => return Ok(Vec::new()),
    };
    let mut out: Vec<(String, Vec<u8>)> = Vec::new();
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f.len() >= 6 && !matches!(f[0], "open" | "read" | "stat") && !f[5].is_empty() {
            let path = if f[3].is_empty() { f[2] } else { f[3] };
            out.push((path.to_owned(), crate::faults::hex(f[5])));
        }
    }
    out.dedup();
    Ok(out)
}

fn all_files(dir: &std::path::Path, out: &mut Vec<(String, Vec<u8>)>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let path = e.path();
        if path.is_dir() {
            all_files(&path, out);
        } else if e.file_name() != "shim.log" {
            out.push((path.to_string_lossy().into_owned(), std::fs::read(&path).unwrap_or_default()));
        }
    }
}

fn files_test(ctx: &Ctx, case: &FilesCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    let outer = ctx.dir();
    let log = outer.join("shim.log");
    let shim = |fault: String| -> Vec<(String, String)> {
        vec![
            // Everything below the root directory
            ("PFPV_DIR".to_owned(), String::new()),
            ("PFPV_LOG".to_owned(), log.to_str().unwrap().to_owned()),
            ("PFPV_FAULT".to_owned(), fault),
            ("LD_PRELOAD".to_owned(), ctx.shim.to_str().unwrap().to_owned()),
        ]
    };
    let tmp = env.dir.join("tmp");
    std::fs::create_dir_all(&tmp).map_err(infra("directory"))?;
    let base_env = vec![("TMPDIR".to_owned(), tmp.to_str().unwrap().to_owned())];
    env.opts.env = base_env.clone();
    env.opts.env.extend(shim("n 0 0".to_owned()));

    let primary = token(&case.seed, "primary", 0);
    let mut model = Model::new(&primary);
    // Must not be in any file
    let mut secrets: Vec<(&'static str, String)> = vec![("primary password", primary.clone())];
    // Must not be in the storage file
    let mut names: Vec<(&'static str, String)> = Vec::new();
    if case.init {
        let mut p = env.start(&s(&["set-primary"]))?;
        let (out, stop) = p.text()?;
        ensure!(stop == Stop::Prompt(P_NEW), "set-primary: {:?} {:?}", stop, out);
        p.send(&primary)?;
        p.text()?;
        p.send(&primary)?;
        let (out, stop) = p.text()?;
        ensure!(stop == Stop::Exit(0), "set-primary: {:?} {:?}", stop, out);
    } else {
        env.write(&raw_with_empty(&model))?;
    }
    let site = |n: u8| token(&case.seed, "site", n % 3).replace(' ', "_");
    let name = |n: u8| token(&case.seed, "name", n / 3 % 2);
    let shell_args = match case.mode {
        1 => Some(s(&["shell", "-s", env.history().to_str().unwrap()])),
        2 => {
            // The directory isn't created by the shell
            let _ = std::fs::create_dir_all(env.dir.join("home/.config/PfP"));
            Some(s(&["shell"]))
        }
        _ => None,
    };
    let mut shell = match &shell_args {
        Some(args) => {
            let mut p = env.start(args)?;
            let (out, stop) = p.text()?;
            ensure!(stop == Stop::Prompt(P_SHELL), "shell: {:?} {:?}", stop, out);
            Some(p)
        }
        None => None,
    };
    let count = case.steps.len();
    let mut killed = false;
    for (i, step) in case.steps.iter().enumerate() {
        let mut code = String::new();
        let (args, input): (Vec<String>, String) = match step {
            Step::Add(n, _, len) => {
                model.set(&site(*n), &name(*n), "", Val::Gen { len: *len as usize, set: 15 });
                (s(&["add", "-y", &site(*n), &name(*n), "-l", &len.to_string()]), String::new())
            }
            Step::AddStored(n, v) => {
                let v = token(&case.seed, "password", *v);
                model.set(&site(*n), &name(*n), "", Val::Stored(v.clone()));
                secrets.push(("stored password", v.clone()));
                (s(&["add-stored", "-y", &site(*n), &name(*n)]), v)
            }
            Step::AddCode(n, v) => {
                let v = token(&case.seed, "password", *v);
                let salt = b"recovery-salt-16";
                code = refimpl::recovery_code(v.as_bytes(), salt, &refimpl::derive_key(&primary, salt), &[7; 12]).replace('\n', "");
                model.set(&site(*n), &name(*n), "", Val::Stored(v.clone()));
                secrets.push(("stored password", v));
                (s(&["add-stored", "-c", "-y", &site(*n), &name(*n)]), code.clone())
            }
            Step::Notes(n, v) => {
                let v = token(&case.seed, "notes", *v);
                secrets.push(("notes", v.clone()));
                let _ = model.set_notes(&site(*n), &name(*n), "", &v);
                (s(&["notes", "-s", &site(*n), &name(*n)]), v)
            }
            Step::Show(n, qr) => (
                s(if *qr { &["show", "-q"] } else { &["show"] }).into_iter().chain([site(*n), name(*n)]).collect(),
                String::new(),
            ),
            Step::List => (s(&["list", "-s", "-r", "-v"]), String::new()),
            Step::Remove(n) => {
                let _ = model.remove(&site(*n), &name(*n), "");
                (s(&["remove", &site(*n), &name(*n)]), String::new())
            }
            Step::Alias(n) => {
                let a = token(&case.seed, "alias", *n).replace(' ', "_");
                names.push(("alias", a.clone()));
                let _ = model.set_alias(&a, &site(*n));
                (s(&["alias", &a, &site(*n)]), String::new())
            }
            Step::Failing(n) => (bad_args(*n), String::new()),
            Step::Lock if shell.is_some() => (s(&["lock"]), String::new()),
            Step::Lock => continue,
        };
        for (id, e) in &model.entries {
            names.push(("site", id.0.clone()));
            names.push(("name", id.1.clone()));
            if let Val::Gen { .. } = e.val {
                secrets.push(("generated password", model.value(id, e)));
            }
        }
        let one_shot = shell.is_none();
        let mut proc = match shell.take() {
            Some(mut p) => {
                p.send(&quote_all(&args, 2))?;
                p
            }
            None => {
                if i + 1 == count {
                    if let Some(k) = case.kill {
                        killed = true;
                        obs.class("killed");
                        env.opts.env = base_env.clone();
                        // Counting starts with the storage file
                        let mut v = shim(format!("b {} 0", 3 + k));
                        v[0].1 = env.dir.0.to_str().unwrap().to_owned();
                        env.opts.env.extend(v);
                    }
                }
                env.start(&args)?
            }
        };
        let mut wrong = case.wrong;
        let mut rounds = 0;
        loop {
            let (text, stop) = proc.text()?;
            rounds += 1;
            ensure!(rounds < 8, "{:?}: endless prompts {:?}", args, text);
            match stop {
                Stop::Prompt(P_SHELL) => break,
                Stop::Exit(_) if one_shot => break,
                Stop::Exit(code) => viol!("shell ended with {}: {:?}", code, text),
                Stop::Prompt(P_PRIMARY) if wrong => {
                    wrong = false;
                    let w = token(&case.seed, "wrong", 0);
                    secrets.push(("wrong primary password", w.clone()));
                    proc.send(&w)?;
                }
                Stop::Prompt(P_PRIMARY) => proc.send(&primary)?,
                Stop::Prompt(P_CODE) => proc.send(&code)?,
                Stop::Prompt(_) => proc.send(&input)?,
            }
        }
        if !one_shot {
            shell = Some(proc);
        }
    }
    if let Some(mut p) = shell {
        obs.class("shell");
        p.send("exit")?;
        let (out, stop) = p.text()?;
        ensure!(stop == Stop::Exit(0), "exit: {:?} {:?}", stop, out);
        let history = if case.mode == 1 { env.history() } else { env.dir.join("home/.config/PfP/history.txt") };
        ensure!(history.exists(), "there is no history file {:?}, output {:?}", history, out);
    }
    let _ = killed;
    obs.nontrivial();

    let store = env.store.to_string_lossy().into_owned();
    let mut files = written(&log)?;
    obs.extra += files.len() as u64;
    if !files.is_empty() {
        obs.class("writing was recorded");
    }
    all_files(&env.dir.0, &mut files);
    secrets.sort();
    secrets.dedup();
    names.sort();
    names.dedup();
    for (path, content) in &files {
        let storage = path.starts_with(&store) || content.starts_with(b"{\"");
        let mut content = content.clone();
        if storage {
            // Values are Base64
            let text = String::from_utf8_lossy(&content).into_owned();
            for part in text.split(['"', '_', ':']) {
                if let Ok(b) = base64::decode(part) {
                    content.push(b'\n');
                    content.extend(b);
                }
            }
        }
        let check = |list: &[(&'static str, String)]| -> R {
            for (what, v) in list {
                if let Err(Fail::Violation(e)) = search(&content, what, v.as_bytes()) {
                    viol!("{}: {}", path.replace(env.dir.0.to_str().unwrap(), "."), e);
                }
            }
            Ok(())
        };
        check(&secrets)?;
        if storage {
            check(&names)?;
        }
    }
    Ok(())
}

pub fn c07_cli() -> Box<dyn Sub> {
    Box::new(Gen { name: "application", quick: 240, thorough: 8000, strat: files_case, test: files_test, shrink: 100 })
}
