//! Input that cannot be made sense of.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl::{self, Raw};
use crate::session::{build, step_c, StepC};
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PRIMARY: &str = "primary";
const KNOWN: (&str, &str, &str) = ("known.example", "somebody", "known p4ssword");

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Input {
    /// These bytes, then a line break
    Bytes(Vec<u8>),
    /// This unit repeated
    Long(Vec<u8>, u32),
    /// What was asked for
    Proper,
    Yes,
    /// The end of the input, possibly in the middle of a line
    End(Vec<u8>),
}

fn junk() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..20),
        2 => vec(select(vec![0xc3u8, 0x28, 0xff, 0xfe, 0xe2, 0x82, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0xa0, b'a', b' ', 0xc0, 0xaf]), 0..12),
        3 => printable(30).prop_map(String::into_bytes),
        1 => (select(PROMPT_TEXTS.to_vec()), vec(any::<u8>(), 1..3)).prop_map(|(s, b)| [s.as_bytes(), &b].concat()),
        1 => select(vec!["", " ", "\r", "\u{0}", "\u{1b}[A", "\u{8}\u{8}", "%s%n%s", "\u{feff}", "\u{2028}", "A:A:A-A", "--", "y\u{0}"]).prop_map(|s| s.as_bytes().to_vec()),
    ]
    .prop_map(|mut v| {
        v.retain(|b| *b != b'\n');
        v
    })
    .boxed()
}

const PROMPT_TEXTS: [&str; 4] = [PRIMARY, "yes", "new password", "ABCD-EFGH"];

fn input() -> BoxedStrategy<Input> {
    prop_oneof![
        4 => junk().prop_map(Input::Bytes),
        1 => (junk(), 1u32..400).prop_map(|(b, n)| Input::Long(b, n)),
        // Characters of several bytes at all offsets
        2 => (0usize..8, select(vec!["ä", "日", "😀", "Aä", "A-日", "ä ", "AB\u{301}"]), 2u32..1400).prop_map(|(n, unit, count)| {
            let unit = format!("{}{}", &"ABCDEFGH"[..n], unit.repeat(3));
            let count = (count / unit.len() as u32).max(1);
            Input::Long(unit.into_bytes(), count)
        }),
        6 => Just(Input::Proper),
        2 => Just(Input::Yes),
        1 => prop_oneof![Just(vec![]), junk()].prop_map(Input::End),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum What {
    Command(StepC),
    SetPrimary(bool),
    /// Arguments without sense
    Words(Vec<String>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Store {
    Valid,
    Absent,
    Garbage(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct InputCase {
    setup: Vec<Cmd>,
    store: Store,
    what: What,
    inputs: Vec<Input>,
    tty: bool,
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec![
            "add", "add-stored", "show", "notes", "list", "alias", "remove", "help", "lock", "shell", "set-primary", "frob",
            "-r", "-l", "-w", "-u", "-d", "-s", "-y", "-c", "-q", "-v", "-h", "-V", "--help", "--version", "--set", "--recovery",
            "--revision", "--length", "--", "-", "--stdin-passwords", "--length=", "-l16", "-l=8", "--revision=2", "-ry", "-wuds",
        ]).prop_map(str::to_owned),
        4 => select(vec!["a.com", "b.com", "me", "you", "2", "16", "99999999999999999999", "-1", "4294967300", "", "*", "?*", "www.", "4", "24"]).prop_map(str::to_owned),
        2 => printable(12),
        1 => printable(6).prop_map(|s| format!("{}{}", s, BAD_BYTE)),
        1 => (printable(3), 1usize..3000).prop_map(|(s, n)| s.repeat(n)),
        1 => select(vec!["'", "\"", "\\", "\\\\", "'a", "\"a b", "a\\", "$(x)", "`", "a;b", "#", "\u{1}", "\u{7f}", "\t", "''", "\"\"", "&", "|"]).prop_map(str::to_owned),
    ]
    .boxed()
}

fn input_case() -> BoxedStrategy<InputCase> {
    let what = prop_oneof![
        6 => (step_c(cmd()), any::<u8>()).prop_map(|(s, n)| (What::Command(s), n)),
        1 => (step_c(add_stored_cmd()), any::<u8>()).prop_map(|(mut s, n)| {
            if let Cmd::AddStored { code, .. } = &mut s.cmd {
                *code = true;
            }
            (What::Command(s), n)
        }),
        1 => any::<bool>().prop_map(|y| (What::SetPrimary(y), 0)),
        3 => vec(word(), 0..7).prop_map(|w| (What::Words(w), 0)),
    ];
    let store = prop_oneof![8 => Just(Store::Valid), 1 => Just(Store::Absent), 1 => vec(any::<u8>(), 0..60).prop_map(Store::Garbage)];
    (vec(cmd(), 0..4), store, what, vec(input(), 0..7), prop::bool::weighted(0.3))
        .prop_map(|(setup, store, (mut what, pick), inputs, tty)| {
            if let What::Command(step) = &mut what {
                link(&setup, std::iter::once((&mut step.cmd, pick)));
            }
            InputCase { setup, store, what, inputs, tty }
        })
        .boxed()
}

/// Bytes with a meaning for terminals are left out, these also limit the length of lines.
fn for_terminal(data: &mut Vec<u8>) {
    data.retain(|b| *b >= 0x20 && *b != 0x7f);
    data.truncate(4000);
}

fn proper(prompt: &str) -> &'static str {
    match prompt {
        P_PRIMARY | P_NEW | P_REPEAT => PRIMARY,
        P_OVERWRITE | P_RESET => "yes",
        P_EXTRA_TAIL => "y",
        P_CODE => "",
        _ => "some text",
    }
}

impl Input {
    /// What to send, and whether it ends there
    fn bytes(&self, prompt: &str, tty: bool) -> (Vec<u8>, bool) {
        let (mut data, end) = match self {
            Input::Bytes(b) => (b.clone(), false),
            Input::Long(b, n) => (b.repeat(*n as usize), false),
            Input::Proper => (proper(prompt).as_bytes().to_vec(), false),
            Input::Yes => (b"y".to_vec(), false),
            Input::End(b) => (b.clone(), true),
        };
        if tty {
            for_terminal(&mut data);
        }
        (data, end)
    }

    fn valid(&self) -> bool {
        match self {
            Input::Bytes(b) | Input::Long(b, _) => std::str::from_utf8(b).is_ok(),
            Input::End(_) => false,
            _ => true,
        }
    }
}

/// Sends something in reply to a prompt.
fn reply(proc: &mut Proc, input: Option<&Input>, prompt: &str, tty: bool) -> R {
    let (mut data, end) = input.map(|i| i.bytes(prompt, tty)).unwrap_or((Vec::new(), true));
    if end {
        if !data.is_empty() {
            proc.send_raw(&data)?;
            if tty {
                // The first one only makes the terminal hand over what it has
                proc.send_raw(&[4])?;
            }
        }
        proc.eof();
    } else {
        data.push(b'\n');
        proc.send_raw(&data)?;
    }
    Ok(())
}

fn no_crash(what: &str, output: &[u8], stop: &Stop) -> R {
    let text = String::from_utf8_lossy(output);
    ensure!(!text.contains("panicked at") && !text.contains("RUST_BACKTRACE"), "{}: crashed: {:?}", what, clip(&text));
    if let Stop::Exit(status) = stop {
        ensure!((0..=2).contains(status), "{}: exit status {}, output {:?}", what, status, clip(&text));
    }
    Ok(())
}

fn clip(text: &str) -> String {
    let n = text.chars().count();
    text.chars().skip(n.saturating_sub(600)).collect()
}

fn model_of(raw: &Raw, key: &refimpl::Keys) -> R<refimpl::Decoded> {
    match refimpl::decode(raw, key) {
        Ok(d) => Ok(d),
        Err(e) => viol!("storage file cannot be decoded: {}", e),
    }
}

fn input_test(ctx: &Ctx, case: &InputCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    if case.tty {
        env.opts.tty = Some("dumb");
    }
    let (model, _) = build(PRIMARY, &case.setup);
    let raw = writer(PRIMARY).write(&model);
    match &case.store {
        Store::Valid => env.write(&raw)?,
        Store::Absent => {}
        Store::Garbage(b) => std::fs::write(&env.store, b).map_err(infra("storage file"))?,
    }
    let before = env.bytes()?;
    let cmd = match &case.what {
        What::Command(step) => Some(step.cmd.normalized(&model)),
        _ => None,
    };
    let args = match &case.what {
        What::Command(step) => cmd.as_ref().unwrap().args(step.style),
        What::SetPrimary(false) => s(&["set-primary"]),
        What::SetPrimary(true) => s(&["set-primary", "-y"]),
        What::Words(w) => {
            // One of the other tests
            if w.iter().any(|w| ["shell", "set-primary"].contains(&w.as_str()) || w.starts_with("--wait") || w.starts_with("--w")) {
                return Ok(());
            }
            // Options and invalid UTF-8 together are a known problem, see long_option()
            let long = w.iter().any(|w| w.len() > 1 && w.starts_with('-'));
            w.iter().filter(|w| !(long && w.contains(BAD_BYTE))).map(|w| w.replace('\0', "")).collect()
        }
    };
    let what = format!("{:?}", case.what);
    let mut proc = env.start(&args)?;
    let mut inputs = case.inputs.iter();
    let mut ended = false;
    let mut odd = false;
    let (status, text) = loop {
        let (text, stop) = proc.next()?;
        no_crash(&what, &text, &stop)?;
        match stop {
            Stop::Exit(status) => break (status, String::from_utf8_lossy(&text).into_owned()),
            Stop::Prompt(p) => {
                if let Some(tty) = &proc.tty {
                    tty.wait_echo(!SECRET_PROMPTS.contains(&p), &format!("{} at {:?}", what, p))?;
                }
                let input = if ended { None } else { inputs.next() };
                odd |= input.is_some_and(|i| !i.valid());
                ended |= matches!(input, None | Some(Input::End(_)));
                reply(&mut proc, input, p, case.tty)?;
                obs.extra += 1;
            }
        }
    };
    if let Some(tty) = &proc.tty {
        tty.check_restored(&what)?;
        obs.class("terminal");
    }
    drop(proc);
    if odd {
        obs.nontrivial();
        obs.class("invalid UTF-8 or end of input");
    }
    if matches!(case.what, What::Words(_)) && status != 0 {
        obs.nontrivial();
        obs.class("arguments without sense");
    }
    let after = env.bytes()?;
    let files = env.files();
    ensure!(files.iter().all(|f| f == "home" || f == "storage.json"), "{}: files left behind: {:?}", what, files);
    if status != 0 {
        ensure!(after == before, "{}: storage file changed with exit status {}: {:?}", what, status, clip(&text));
        obs.class("failed");
        return Ok(());
    }
    if after == before {
        return Ok(());
    }
    obs.class("change made");
    if let What::SetPrimary(_) = case.what {
        ensure!(text.contains("New primary password set for "), "{}: storage file changed without saying so", what);
        env.raw()?;
        return Ok(());
    }
    let raw_after = env.raw()?;
    let key = refimpl::keys(&raw, PRIMARY).map_err(Fail::Infra)?;
    let (old, new) = (model_of(&raw, &key)?, model_of(&raw_after, &key)?);
    if let Some(cmd) = &cmd {
        ensure!(touches_only(cmd, &model, &old, &new), "{}: changed from {:?} to {:?}", what, old.entries, new.entries);
    } else {
        let different = old.entries.iter().filter(|(k, v)| new.entries.get(*k) != Some(v)).count()
            + new.entries.keys().filter(|k| !old.entries.contains_key(*k)).count();
        ensure!(different <= 1, "{}: {} passwords changed: {:?} {:?}", what, different, old.entries, new.entries);
    }
    Ok(())
}

/// Whether nothing but what the command is about changed.
fn touches_only(cmd: &Cmd, model: &Model, old: &refimpl::Decoded, new: &refimpl::Decoded) -> bool {
    let id = match cmd {
        Cmd::Add { id, .. } | Cmd::AddStored { id, .. } | Cmd::Remove { id } | Cmd::Notes { id, set: Some(_) } => {
            Some(model.id(&id.site, &id.name, id.rev.as_deref().unwrap_or("1")))
        }
        _ => None,
    };
    let same = |k: &Id| Some(k) == id.as_ref();
    old.entries.iter().all(|(k, v)| same(k) || new.entries.get(k) == Some(v))
        && new.entries.keys().all(|k| same(k) || old.entries.contains_key(k))
        && old.sites.iter().all(|(k, v)| match cmd {
            Cmd::SetAlias { site, .. } | Cmd::RemoveAlias { site } => k == normalize(site) || new.sites.get(k) == Some(v),
            _ => v.is_none() || new.sites.get(k) == Some(v),
        })
}

// The shell

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Item {
    Line(Vec<u8>),
    Words(Vec<String>),
    /// A regular command, it has to work no matter what was entered before
    Show,
    Lock,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ShellCase {
    items: Vec<(Item, Vec<Input>)>,
    /// 0 pipe, 1 plain terminal, 2 line editing
    mode: u8,
    end: Vec<u8>,
    /// Contents of the history file
    history: Option<Vec<u8>>,
    history_name: String,
}

fn shell_case() -> BoxedStrategy<ShellCase> {
    let item = prop_oneof![
        4 => junk().prop_map(Item::Line),
        6 => vec(word(), 0..6).prop_map(Item::Words),
        2 => Just(Item::Show),
        1 => Just(Item::Lock),
    ];
    let mode = prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)];
    let history = prop_oneof![
        3 => Just(None),
        1 => junk().prop_map(Some),
        1 => vec(junk(), 0..5).prop_map(|v| Some([b"#V2\n".to_vec(), v.join(&b'\n')].concat())),
    ];
    let name = select(vec!["history.txt", "history.txt", "\u{f8ff}", "bad\u{f8ff}.txt", "ünï höst"]).prop_map(|s| s.to_owned());
    (vec((item, vec(input(), 0..3)), 1..20), mode, prop_oneof![2 => Just(vec![]), 1 => junk()], history, name)
        .prop_map(|(items, mode, end, history, history_name)| ShellCase { items, mode, end, history, history_name })
        .boxed()
}

fn shell_test(ctx: &Ctx, case: &ShellCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    env.opts.tty = [None, Some("dumb"), Some("xterm")][case.mode as usize % 3];
    let tty = env.opts.tty.is_some();
    let (site, name, value) = KNOWN;
    let mut model = Model::new(PRIMARY);
    model.set(site, name, "1", Val::Stored(value.to_owned()));
    env.write(&writer(PRIMARY).write(&model))?;
    env.history_name = case.history_name.clone();
    if let Some(h) = &case.history {
        std::fs::write(env.history(), h).map_err(infra("history"))?;
        obs.class("history file with anything in it");
    }
    if case.history_name.contains(BAD_BYTE) {
        obs.class("history file name not UTF-8");
    }
    let mut proc = env.start_shell()?;
    let (text, stop) = proc.next()?;
    no_crash("starting", &text, &stop)?;
    let enter = if case.mode % 3 == 2 { b'\r' } else { b'\n' };
    let mut left = false;
    let mut odd = 0;
    for (item, inputs) in &case.items {
        let mut line = match item {
            Item::Line(b) => b.clone(),
            Item::Words(w) => {
                use std::os::unix::ffi::OsStringExt;
                os(&w.join(" ")).into_vec()
            }
            Item::Show => format!("show {} {}", site, name).into_bytes(),
            Item::Lock => b"lock".to_vec(),
        };
        line.retain(|b| *b != b'\n');
        if tty {
            for_terminal(&mut line);
            if case.mode % 3 == 2 {
                // The line editor displays the whole line for each character, and it deals with
                // invalid characters one at a time
                line = String::from_utf8_lossy(&line).chars().take(100).collect::<String>().into_bytes();
            }
        }
        let shown = String::from_utf8_lossy(&line).into_owned();
        let known = shown.contains("exit");
        odd += std::str::from_utf8(&line).is_err() as u32;
        let what = format!("{:?} after others", clip(&shown));
        line.push(enter);
        proc.send_raw(&line)?;
        obs.extra += 1;
        let mut inputs = inputs.iter().filter(|i| !matches!(i, Input::End(_)));
        let mut output = String::new();
        loop {
            let (text, stop) = proc.next()?;
            no_crash(&what, &text, &stop)?;
            output += &String::from_utf8_lossy(&text);
            match stop {
                Stop::Prompt(P_SHELL) => break,
                Stop::Prompt(p) => {
                    if let Some(t) = &proc.tty {
                        t.wait_echo(!SECRET_PROMPTS.contains(&p), &format!("{} at {:?}", what, p))?;
                    }
                    let proper = Input::Proper;
                    let input = match item {
                        Item::Show => &proper,
                        _ => inputs.next().unwrap_or(&proper),
                    };
                    reply(&mut proc, Some(input), p, tty)?;
                }
                Stop::Exit(status) => {
                    ensure!(known && status == 0, "{}: the shell ended with {}: {:?}", what, status, clip(&output));
                    left = true;
                    break;
                }
            }
        }
        if left {
            break;
        }
        if let Item::Show = item {
            let expected = format!("Password retrieved.\n{}\n", value);
            ensure!(output.contains(&expected), "show doesn't work after other input: {:?}", clip(&output));
            obs.class("regular command");
        }
    }
    if !left {
        let mut end = case.end.clone();
        end.retain(|b| *b != b'\n');
        if !tty && !end.is_empty() {
            proc.send_raw(&end)?;
        }
        proc.eof();
        loop {
            let (text, stop) = proc.next()?;
            no_crash("end of input", &text, &stop)?;
            match stop {
                Stop::Exit(status) => {
                    ensure!(status == 0, "exit status {} after the end of the input", status);
                    break;
                }
                Stop::Prompt(_) => {}
            }
        }
    }
    if let Some(tty) = &proc.tty {
        tty.check_restored("shell")?;
        obs.class("terminal");
    }
    drop(proc);
    if odd > 0 {
        obs.nontrivial();
        obs.class("invalid UTF-8");
    } else if case.items.len() > 3 {
        obs.nontrivial();
    }
    let raw = env.raw()?;
    let key = refimpl::keys(&raw, PRIMARY).map_err(Fail::Infra)?;
    let decoded = model_of(&raw, &key)?;
    let entry = decoded.entries.get(&model.id(site, name, "1"));
    ensure!(
        matches!(entry, Some(Entry { val: Val::Stored(v), .. }) if v == value),
        "password that no command was about is now {:?}",
        entry
    );
    Ok(())
}

// Input that cannot be read at all

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Unreadable {
    args: Vec<String>,
    /// Replies before the input fails
    replies: Vec<String>,
    /// directory, closed, hangup, hangup-editing
    input: String,
}

fn unreadable_cases(_: &Ctx) -> R<Vec<Unreadable>> {
    let commands: [(&[&str], &[&str]); 11] = [
        (&["add", "a.com", "me"], &[]),
        (&["list"], &[]),
        (&["add-stored", "a.com", "me"], &[PRIMARY]),
        (&["add-stored", "-c", "a.com", "me"], &[PRIMARY]),
        (&["notes", "-s", KNOWN.0, KNOWN.1], &[PRIMARY]),
        (&["set-primary", "-y"], &["new password"]),
        (&["add", KNOWN.0, KNOWN.1], &[PRIMARY]),
        (&["set-primary"], &[]),
        (&["shell"], &[]),
        (&["shell"], &["list"]),
        (&["shell"], &["notes -s known.example somebody", PRIMARY]),
    ];
    let mut cases = Vec::new();
    for (args, replies) in commands {
        // Known problem of these, see confirm_loop()
        let confirms = args == ["set-primary"] || args[1..] == [KNOWN.0, KNOWN.1];
        for input in ["directory", "closed", "hangup", "hangup-editing"] {
            if confirms && input != "closed" {
                continue;
            }
            let count = if input.starts_with("hangup") { replies.len() } else { 0 };
            for n in 0..=count {
                cases.push(Unreadable { args: s(args), replies: s(&replies[..n]), input: input.to_owned() });
            }
        }
    }
    Ok(cases)
}

fn prepared(ctx: &Ctx) -> R<(Env<'_>, Vec<u8>)> {
    let env = Env::new(ctx);
    let mut model = Model::new(PRIMARY);
    model.set(KNOWN.0, KNOWN.1, "1", Val::Stored(KNOWN.2.to_owned()));
    env.write(&writer(PRIMARY).write(&model))?;
    let before = env.bytes()?.unwrap();
    Ok((env, before))
}

fn unreadable_run(ctx: &Ctx, case: &Unreadable) -> R<i32> {
    let (mut env, before) = prepared(ctx)?;
    let mut args = case.args.clone();
    if args == ["shell"] {
        args.extend(["-s".to_owned(), env.history_arg()]);
    }
    let what = format!("{:?} with input {} after {:?}", case.args, case.input, case.replies);
    let start = Instant::now();
    let limit = Duration::from_secs(30);
    let status;
    let mut output = Vec::new();
    if case.input.starts_with("hangup") {
        env.opts.tty = Some(if case.input == "hangup" { "dumb" } else { "xterm" });
        env.opts.ignore_hup = true;
        // What it displays goes somewhere else, the terminal will be gone
        let log = env.dir.join("output");
        env.opts.output = Some(log.clone());
        let mut proc = env.start(&args)?;
        let wait = |proc: &mut Proc, count: usize| -> R {
            // Input is being waited for
            loop {
                // Passwords are prompted for on the terminal regardless
                let mut text = std::fs::read(&log).unwrap_or_default();
                text.extend_from_slice(proc.drain()?);
                if prompts(&text) > count {
                    return Ok(());
                }
                if proc.child.try_wait().map_err(infra("waiting"))?.is_some() || start.elapsed() > limit {
                    viol!("{}: no prompt but {:?}", what, String::from_utf8_lossy(&text));
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        };
        for (i, r) in case.replies.iter().enumerate() {
            wait(&mut proc, i)?;
            let first = i == 0 && case.input == "hangup-editing" && case.args == ["shell"];
            proc.send_raw(format!("{}{}", r, if first { '\r' } else { '\n' }).as_bytes())?;
        }
        wait(&mut proc, case.replies.len())?;
        std::thread::sleep(Duration::from_millis(30));
        proc.hang_up();
        status = loop {
            if let Some(s) = proc.child.try_wait().map_err(infra("waiting"))? {
                break s;
            }
            let size = std::fs::metadata(&log).map(|m| m.len()).unwrap_or(0);
            if start.elapsed() > limit || size > 1 << 20 {
                let text = std::fs::read(&log).unwrap_or_default();
                viol!("{}: still running, {} bytes of output: {:?}", what, size, clip(&String::from_utf8_lossy(&text[text.len().saturating_sub(300)..])));
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        output = std::fs::read(&log).unwrap_or_default();
    } else {
        let (mut out, writer) = std::io::pipe().map_err(infra("pipe"))?;
        let err = writer.try_clone().map_err(infra("pipe"))?;
        let mut cmd = Command::new(&ctx.cli);
        cmd.args(env.args(&args))
            .env_clear()
            .env("HOME", env.dir.join("home"))
            .env("TERM", "dumb")
            .stdout(writer)
            .stderr(err)
            .current_dir(&env.dir.0);
        if case.input == "directory" {
            cmd.stdin(std::fs::File::open("/").map_err(infra("directory"))?);
        } else {
            cmd.stdin(Stdio::null());
            unsafe {
                cmd.pre_exec(|| {
                    libc::close(0);
                    Ok(())
                });
            }
        }
        let mut child = cmd.spawn().map_err(infra("starting the application"))?;
        drop(cmd);
        loop {
            let mut fds = libc::pollfd { fd: out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut fds, 1, 1000) };
            let mut chunk = [0u8; 4096];
            let count = if n > 0 { out.read(&mut chunk).map_err(infra("output"))? } else { 1 };
            if n > 0 {
                output.extend_from_slice(&chunk[..count]);
            }
            if count == 0 {
                break;
            }
            if output.len() > 1 << 17 || start.elapsed() > limit {
                let _ = child.kill();
                let _ = child.wait();
                viol!("{}: still running, {} bytes of output: {:?}", what, output.len(), clip(&String::from_utf8_lossy(&output[..output.len().min(300)])));
            }
        }
        status = child.wait().map_err(infra("waiting"))?;
    }
    let code = status.code().unwrap_or_else(|| -status.signal().unwrap_or(1000));
    no_crash(&what, &output, &Stop::Exit(code))?;
    ensure!(env.bytes()?.as_deref() == Some(&before[..]), "{}: storage file changed", what);
    Ok(code)
}

/// Number of prompts displayed
fn prompts(text: &[u8]) -> usize {
    let text = String::from_utf8_lossy(text);
    [P_NEW, P_REPEAT, P_PRIMARY, P_STORED, P_NOTES, P_CODE, P_OVERWRITE, P_RESET, P_SHELL].iter().map(|p| text.matches(p).count()).sum()
}

fn unreadable_test(ctx: &Ctx, case: &Unreadable, obs: &mut Obs) -> R {
    unreadable_run(ctx, case)?;
    obs.nontrivial();
    Ok(())
}

/// Confirmations are asked for again if the reply cannot be read.
fn confirm_loop(ctx: &Ctx) -> R {
    unreadable_run(ctx, &Unreadable { args: s(&["set-primary"]), replies: vec![], input: "directory".to_owned() })?;
    Ok(())
}

/// The argument parser doesn't expect invalid UTF-8 after an unknown option.
fn long_option(ctx: &Ctx) -> R {
    let (env, _) = prepared(ctx)?;
    let mut proc = env.start(&["--set".to_owned(), BAD_BYTE.to_string()])?;
    let (text, stop) = proc.next()?;
    no_crash("unknown option, then invalid UTF-8", &text, &stop)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        level: "exploration",
        rule: "input: commands and arguments without sense, prompts answered with generated bytes (invalid UTF-8, very long lines, control characters), proper replies or the end of the input, via pipe or terminal; shell: generated lines and replies with regular commands in between; unreadable: each prompt with input that cannot be read (directory, closed, terminal that disappeared). Non-trivial: some input was not valid UTF-8 or ended, arguments were rejected, or more than three shell lines.",
        assumptions: &["on terminals, bytes with a special meaning to the terminal are left out"],
        subs: vec![
            Box::new(Gen { name: "input", quick: 900, thorough: 20000, strat: input_case, test: input_test, shrink: 150 }),
            Box::new(Gen { name: "shell", quick: 500, thorough: 12000, strat: shell_case, test: shell_test, shrink: 150 }),
            Box::new(Enum { name: "unreadable", cases: unreadable_cases, test: unreadable_test }),
            Box::new(Probe { key: "confirm-unreadable", test: confirm_loop }),
            Box::new(Probe { key: "option-invalid-utf8", test: long_option }),
        ],
    }]
}
