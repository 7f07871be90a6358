//! Working on a terminal.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::files::{primary_case, primary_run, PrimaryCase};
use crate::model::*;
use crate::session::{attempt_texts, one_shot, seq_case, seq_run, step_c, SeqCase, Shell, StepC};
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn on(term: &'static str) -> Opts {
    Opts { tty: Some(term), ..Opts::default() }
}

fn plain_test(ctx: &Ctx, case: &SeqCase, obs: &mut Obs) -> R {
    seq_run(ctx, case, obs, &on("dumb"))
}

fn editing_test(ctx: &Ctx, case: &SeqCase, obs: &mut Obs) -> R {
    seq_run(ctx, case, obs, &on("xterm"))
}

fn set_primary_case() -> BoxedStrategy<PrimaryCase> {
    primary_case()
        .prop_map(|mut case| {
            // These are keys on a terminal
            case.first = case.first.replace(|c| matches!(c, '\u{3}'..='\u{8}' | '\u{b}'..='\u{1f}' | '\u{7f}'), "\u{1}");
            case
        })
        .boxed()
}

fn set_primary_test(ctx: &Ctx, case: &PrimaryCase, obs: &mut Obs) -> R {
    primary_run(ctx, case, obs, &on("xterm"))
}

// Keys of the line editor

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Typo {
    /// Typed and removed again
    Backspace(String),
    /// Removes the line
    CtrlU(String),
    /// Abandons the line
    CtrlC(String),
    /// Recalls a line, removes it
    Up(u8),
    /// Moves and comes back
    Move(String, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct KeysCase {
    steps: Vec<(Vec<Typo>, StepC)>,
    eof: bool,
}

pub fn keys_case() -> BoxedStrategy<KeysCase> {
    let text = || "[a-zA-Z0-9 .'\"-]{1,12}";
    let typo = prop_oneof![
        text().prop_map(Typo::Backspace),
        text().prop_map(Typo::CtrlU),
        text().prop_map(Typo::CtrlC),
        (0u8..4).prop_map(Typo::Up),
        (text(), any::<u8>()).prop_map(|(t, n)| Typo::Move(t, n)),
    ];
    (vec((vec(typo, 0..3), step_c(cmd())), 1..6), any::<bool>())
        .prop_map(|(steps, eof)| KeysCase { steps, eof })
        .boxed()
}

pub fn keys_test(ctx: &Ctx, case: &KeysCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    env.opts = on("xterm");
    let mut model = Model::new("primary");
    env.write(&writer("primary").base())?;
    let mut shell = Shell::start(&env, false)?;
    let mut typed: Vec<String> = Vec::new();
    for (typos, step) in &case.steps {
        let mut before = String::new();
        for typo in typos {
            match typo {
                Typo::Backspace(s) => {
                    before += s;
                    before += &"\u{7f}".repeat(s.len());
                }
                Typo::CtrlU(s) => before += &format!("{}\u{15}", s),
                Typo::Up(n) => {
                    before += &"\u{1b}[A".repeat(*n as usize);
                    before += "\u{5}\u{15}";
                }
                Typo::Move(s, n) => {
                    let n = *n as usize % (s.len() + 1);
                    before += &format!("{}{}{}\u{5}\u{15}", s, "\u{1b}[D".repeat(n), "\u{1b}[C".repeat(n));
                }
                Typo::CtrlC(s) => {
                    shell.proc.what = format!("line {:?} abandoned", s);
                    shell.proc.keys(&format!("{}{}\u{3}", before, s))?;
                    play(&mut shell.proc, &[], Stop::Prompt(P_SHELL), "")?;
                    before.clear();
                    obs.class("line abandoned");
                }
            }
        }
        let cmd = step.cmd.normalized(&model);
        let line = quote_all(&cmd.args(step.style), step.style);
        if before.is_empty() {
            typed.push(shell.step(step, &mut model)?);
            continue;
        }
        obs.class("line edited");
        let mut events = Vec::new();
        if cmd.needs_unlock() && shell.locked {
            events.extend(unlock_events(&[], &model.primary));
            shell.locked = false;
        }
        events.extend(cmd.predict(&mut model, false).events);
        shell.proc.what = format!("keys {:?}, shell command {:?}", before, line);
        shell.proc.keys(&format!("{}{}\r", before, line))?;
        play(&mut shell.proc, &events, Stop::Prompt(P_SHELL), &model.primary)?;
        typed.push(line);
        obs.nontrivial();
    }
    if !case.eof {
        typed.push("exit".to_owned());
    }
    shell.exit(case.eof)?;
    env.check_model(&model)?;
    // Exactly the lines entered are remembered
    let history = std::fs::read_to_string(env.history()).map_err(infra("history"))?;
    let mut lines: Vec<String> = history.lines().map(|l| l.replace("\\\\", "\\")).collect();
    ensure!(!lines.is_empty() && lines[0] == "#V2", "history {:?}", history);
    lines.remove(0);
    typed.retain(|l| !l.is_empty());
    typed.dedup();
    if lines != typed {
        viol!("history {:?} after the lines {:?}", lines, typed);
    }
    Ok(())
}

// End of input at a prompt

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EndedCase {
    primary: String,
    /// The prompt answered with Ctrl-D
    steps: Vec<(StepC, Option<u8>)>,
    shell: bool,
    editing: bool,
}

pub fn ended_case() -> BoxedStrategy<EndedCase> {
    (seq_case(), vec(prop::option::weighted(0.5, any::<u8>()), 14), prop::bool::weighted(0.7), any::<bool>())
        .prop_map(|(case, at, shell, editing)| EndedCase {
            primary: case.primary,
            steps: case.steps.into_iter().take(7).zip(at).collect(),
            shell,
            editing,
        })
        .boxed()
}

/// Only the shell
pub fn ended_shell_case() -> BoxedStrategy<EndedCase> {
    ended_case().prop_map(|case| EndedCase { shell: true, ..case }).boxed()
}

pub fn ended_test(ctx: &Ctx, case: &EndedCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    env.opts = on(if case.editing { "xterm" } else { "dumb" });
    let mut model = Model::new(&case.primary);
    env.write(&writer(&case.primary).base())?;
    let mut shell = if case.shell { Some(Shell::start(&env, false)?) } else { None };
    for (step, at) in &case.steps {
        let locked = shell.as_ref().is_none_or(|s| s.locked);
        let cmd = step.cmd.normalized(&model);
        let mut events = Vec::new();
        if cmd.needs_unlock() && locked {
            events.extend(unlock_events(&attempt_texts(step, &case.primary), &case.primary));
        }
        events.extend(cmd.predict(&mut model.clone(), false).events);
        let asks: Vec<usize> = (0..events.len()).filter(|i| matches!(events[*i], Ev::Ask(..))).collect();
        let at = match at {
            Some(n) if !asks.is_empty() => asks[*n as usize % asks.len()],
            _ => {
                match &mut shell {
                    Some(shell) => drop(shell.step(step, &mut model)?),
                    None => drop(one_shot(&env, step, &mut model)?),
                }
                continue;
            }
        };
        let Ev::Ask(prompt, _) = events[at] else { unreachable!() };
        obs.nontrivial();
        obs.class(prompt);
        let before = env.bytes()?;
        let mut proc = match shell.take() {
            Some(mut s) => {
                let line = quote_all(&cmd.args(step.style), step.style);
                s.proc.what = format!("shell command {:?}", line);
                s.proc.send(&line)?;
                s.proc
            }
            None => env.start(&cmd.args(step.style))?,
        };
        play(&mut proc, &events[..at], Stop::Prompt(prompt), &case.primary)?;
        proc.what += &format!(", no input at {:?}", prompt);
        proc.eof();
        let (text, stop) = proc.text()?;
        if case.shell {
            ensure!(stop == Stop::Prompt(P_SHELL), "{}: {:?} after {:?}", proc.what, stop, text);
        } else {
            let asked = prompt == P_OVERWRITE;
            ensure!(
                matches!(stop, Stop::Exit(0)) && asked || matches!(stop, Stop::Exit(1)),
                "{}: {:?} after {:?}",
                proc.what,
                stop,
                text
            );
            if let Some(tty) = &proc.tty {
                tty.check_restored(&proc.what)?;
            }
        }
        for done in ["added", "stored.", "removed", "retrieved"] {
            ensure!(!text.contains(done), "{}: reported {:?}", proc.what, text);
        }
        ensure!(env.bytes()? == before, "{}: the file was modified", proc.what);
        if case.shell {
            // The echo of what wasn't entered
            proc.take_echo();
            shell = Some(Shell { proc, locked: locked && prompt == P_PRIMARY });
        }
    }
    if let Some(shell) = shell {
        shell.exit(case.editing)?;
    }
    env.check_model(&model)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        level: "exploration",
        rule: "The application on a pseudo-terminal: plain/editing: command sequences as for C17, one-shot and in the shell, without (TERM=dumb) and with (TERM=xterm) line editing, everything displayed predicted, including the echo of input; set-primary: as for C15; keys: lines typed with corrections, recalled lines and lines abandoned with Ctrl-C; ended-input: sequences in which some prompts are answered with Ctrl-D, which has to abandon the command and nothing else. The terminal's echo setting is inspected at each prompt, all settings in the end. Non-trivial: at least two changes made, or a storage file existed, or a line was edited, or a prompt was answered with Ctrl-D.",
        assumptions: &[
            "for long lines and those with other than ASCII characters, only the end of what the line editor displays is checked",
        ],
        subs: vec![
            Box::new(Gen { name: "plain", quick: 80, thorough: 4000, strat: seq_case, test: plain_test, shrink: 100 }),
            Box::new(Gen { name: "editing", quick: 80, thorough: 4000, strat: seq_case, test: editing_test, shrink: 100 }),
            Box::new(Gen { name: "set-primary", quick: 250, thorough: 8000, strat: set_primary_case, test: set_primary_test, shrink: 100 }),
            Box::new(Gen { name: "ended-input", quick: 100, thorough: 4000, strat: ended_case, test: ended_test, shrink: 100 }),
            Box::new(Gen { name: "keys", quick: 100, thorough: 4000, strat: keys_case, test: keys_test, shrink: 100 }),
        ],
    }]
}
