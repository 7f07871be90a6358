//! Typing in recovery codes line by line: C23.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::recovery::{apply_mangle, mangle, Mangle};
use crate::refimpl::{self, CodeResult};
use crate::session::Shell;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Input {
    /// That many of the following characters
    Right(usize),
    /// Whole lines
    Lines(usize),
    /// With one of the characters replaced
    Typo(usize, u16, u8),
    /// With two neighbours swapped
    Swapped(usize, u16),
    /// A line that was already entered, or comes later
    OtherLine(u8),
    /// All the rest and more
    Surplus(usize),
    Junk(u8),
    Random(String),
    Abort,
    Eof,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Code {
    Right,
    OtherPrimary,
    WrongVersion(u8),
    /// Only that many rows, too short to contain anything
    Short(usize),
    NotUtf8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EntryCase {
    password: String,
    code: Code,
    inputs: Vec<(Input, Mangle)>,
    replies: Vec<Reply>,
    shell: bool,
    existing: bool,
    style: u8,
}

fn entry_case() -> BoxedStrategy<EntryCase> {
    let input = prop_oneof![
        4 => (1usize..40).prop_map(Input::Right),
        4 => (1usize..4).prop_map(Input::Lines),
        3 => (1usize..60, any::<u16>(), any::<u8>()).prop_map(|(n, p, c)| Input::Typo(n, p, c)),
        1 => (2usize..60, any::<u16>()).prop_map(|(n, p)| Input::Swapped(n, p)),
        1 => any::<u8>().prop_map(Input::OtherLine),
        1 => (1usize..60).prop_map(Input::Surplus),
        1 => any::<u8>().prop_map(Input::Junk),
        1 => "[A-Z2-9]{1,30}".prop_map(Input::Random),
    ];
    let inputs = (
        vec((input, mangle()), 0..8),
        prop_oneof![
            7 => Just(None),
            1 => Just(Some(Input::Abort)),
            1 => Just(Some(Input::Eof)),
        ],
        mangle(),
    )
        .prop_map(|(mut inputs, last, m)| {
            if let Some(last) = last {
                inputs.push((last, m));
            }
            inputs
        });
    let code = prop_oneof![
        8 => Just(Code::Right),
        1 => Just(Code::OtherPrimary),
        1 => any::<u8>().prop_map(Code::WrongVersion),
        1 => (1usize..4).prop_map(Code::Short),
        1 => Just(Code::NotUtf8),
    ];
    let password = prop_oneof![
        4 => printable(20).prop_map(|s| if s.is_empty() { "a".to_owned() } else { s }),
        2 => printable(100).prop_map(|s| if s.is_empty() { "a".to_owned() } else { s }),
        1 => (0usize..12, 9usize..14).prop_map(|(k, d)| "p".repeat(14 * k + d)),
        1 => (3700usize..4200).prop_map(|n| "l".repeat(n)),
        1 => Just(String::new()),
    ];
    (password, code, inputs, replies(), any::<bool>(), any::<bool>(), any::<u8>())
        .prop_map(|(password, code, inputs, replies, shell, existing, style)| EntryCase {
            password,
            code,
            inputs,
            replies,
            shell,
            existing,
            style,
        })
        .boxed()
}

pub fn format_rows(chars: &[u8]) -> String {
    chars
        .chunks(24)
        .map(|row| {
            let s = std::str::from_utf8(row).unwrap();
            format!(
                "{}-{}-{}:{}-{}-{}",
                &s[..4],
                &s[4..8],
                &s[8..12],
                &s[12..16],
                &s[16..20],
                &s[20..]
            )
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn entry_test(ctx: &Ctx, case: &EntryCase, obs: &mut Obs) -> R {
    let primary = "foobar";
    let salt = b"recovery-salt-16";
    let key = refimpl::derive_key(primary, salt);
    let code = match &case.code {
        Code::Right => refimpl::recovery_code(case.password.as_bytes(), salt, &key, &[3; 12]),
        Code::OtherPrimary => {
            let key = refimpl::derive_key("barfoo", salt);
            refimpl::recovery_code(case.password.as_bytes(), salt, &key, &[3; 12])
        }
        Code::WrongVersion(v) => {
            let code = refimpl::recovery_code(case.password.as_bytes(), salt, &key, &[3; 12]);
            let mut data = match refimpl::code_validate(&code) {
                Ok(d) => d,
                Err(e) => return Err(Fail::Infra(format!("{:?}", e))),
            };
            data[0] = if *v == 1 { 2 } else { *v };
            refimpl::code_from_bytes(&data)
        }
        Code::Short(rows) => {
            let mut data = vec![5u8; rows * 14];
            data[0] = 1;
            refimpl::code_from_bytes(&data)
        }
        Code::NotUtf8 => refimpl::recovery_code(b"abc\xff\xfe", salt, &key, &[3; 12]),
    };
    let code = refimpl::code_chars(&code);

    let mut model = Model::new(primary);
    if case.existing {
        model.set("a.com", "me", "", Val::Gen { len: 5, set: 15 });
        model.set_notes("a.com", "me", "", "notes").unwrap();
    }
    model.set("b.com", "you", "2", Val::Stored("other".to_owned()));
    let env = Env::new(ctx);
    env.write(&writer(primary).write(&model))?;
    let before = env.bytes()?;

    let mut events = vec![Ev::Ask(P_PRIMARY, Ans::Line(primary.to_owned()))];
    let mut buf: Vec<u8> = Vec::new();
    let mut rejected = 0;
    let mut replies = case.replies.iter();
    let mut result: Option<Result<String, &'static str>> = None;
    let rest = (Input::Right(usize::MAX), Mangle { lower: case.style % 4, junk: vec![], separators: case.style % 3 });
    let clipped = |from: usize, n: usize| -> Vec<u8> {
        let from = from.min(code.len());
        code[from..from.saturating_add(n).min(code.len())].to_vec()
    };
    let mut inputs: Vec<(Input, Mangle)> = case.inputs.clone();
    // Enough attempts to complete any code: wrong data already accepted has to be noticed first
    for _ in 0..3 {
        inputs.push(rest.clone());
    }
    for (input, m) in &inputs {
        let mut chars = match input {
            Input::Right(n) => clipped(buf.len(), *n),
            Input::Lines(n) => clipped(buf.len(), n * 24 - buf.len() % 24),
            Input::Typo(n, p, c) => {
                let mut chars = clipped(buf.len(), *n);
                if !chars.is_empty() {
                    let p = *p as usize % chars.len();
                    let old = refimpl::ALPHABET.iter().position(|a| *a == chars[p]).unwrap();
                    chars[p] = refimpl::ALPHABET[(old + 1 + *c as usize % 31) % 32];
                    obs.class("typo");
                }
                chars
            }
            Input::Swapped(n, p) => {
                let mut chars = clipped(buf.len(), *n);
                if chars.len() > 1 {
                    let p = *p as usize % (chars.len() - 1);
                    chars.swap(p, p + 1);
                }
                chars
            }
            Input::OtherLine(n) => {
                obs.class("wrong line");
                clipped(*n as usize * 24 % code.len(), 24)
            }
            Input::Surplus(n) => {
                let mut chars = clipped(buf.len(), usize::MAX);
                chars.extend((0..*n).map(|i| refimpl::ALPHABET[(i * 7 + n) % 32]));
                chars
            }
            Input::Junk(_) => vec![],
            Input::Random(s) => refimpl::code_chars(s),
            Input::Abort => {
                obs.class("aborted");
                events.push(Ev::Ask(P_CODE, Ans::Line(["", "  ", "\t"][case.style as usize % 3].to_owned())));
                events.push(t("\n"));
                result = Some(Err(""));
                break;
            }
            Input::Eof => {
                if case.shell {
                    continue;
                }
                obs.class("end of input");
                events.push(Ev::Ask(P_CODE, Ans::Eof));
                events.push(t("\n"));
                result = Some(Err(""));
                break;
            }
        };
        let line = match input {
            Input::Junk(n) => ["-", ":::", "0 0 1 1", "Oo Ii", "--- ---"][*n as usize % 5].to_owned(),
            _ => {
                if chars.is_empty() {
                    continue;
                }
                let text = if m.separators == 0 && chars.len() % 24 == 0 && buf.len() % 24 == 0 {
                    format_rows(&chars)
                } else {
                    String::from_utf8(chars.clone()).unwrap()
                };
                let text = apply_mangle(&text, m);
                // This has to be one line
                let text = text.replace(['\n', '\r', '\0'], " ");
                if text.trim().is_empty() {
                    continue;
                }
                text
            }
        };
        events.push(Ev::Ask(P_CODE, Ans::Line(line.clone())));
        buf.append(&mut chars);
        let text = String::from_utf8(buf.clone()).unwrap();
        match refimpl::code_validate(&text) {
            Err(CodeResult::Incomplete) => {
                obs.class("incomplete, continued");
                events.push(t("Line accepted. The recovery code is still incomplete, please enter more data.\n\n"));
            }
            Err(CodeResult::Checksum(row)) => {
                rejected += 1;
                obs.class(if row == 0 { "first line rejected" } else { "later line rejected" });
                buf.truncate(row * 24);
                if row == 0 {
                    events.push(t("The data you entered doesn't seem valid, please try again.\n\n"));
                } else {
                    events.push(t(format!(
                        "The following lines were accepted:\n{}\nThe line after that doesn't seem valid, a typo maybe?\n\n",
                        format_rows(&buf)
                    )));
                }
            }
            Err(CodeResult::Extra(rows)) => {
                obs.class("surplus data");
                buf.truncate(rows * 24);
                let question = format!(
                    "The following seems to be a valid recovery code:\n{}\nYou entered some additional data however. ",
                    format_rows(&buf)
                );
                let mut accept = None;
                while accept.is_none() {
                    let (answer, decision) = match replies.next().unwrap_or(&Reply::Yes(0)) {
                        Reply::Yes(n) => (["y", "yes", "Y", " YES "][*n as usize % 4], Some(true)),
                        Reply::No(n) => (["n", "no", "N", " nO "][*n as usize % 4], Some(false)),
                        Reply::Empty | Reply::Eof => ("", Some(true)),
                        Reply::Invalid(n) => (["maybe", "2", "yesno", "ok"][*n as usize % 4], None),
                    };
                    events.push(t(question.clone()));
                    events.push(Ev::Ask(P_EXTRA_TAIL, Ans::Line(answer.to_owned())));
                    accept = decision;
                }
                if accept == Some(true) {
                    let text = String::from_utf8(buf.clone()).unwrap();
                    result = Some(finish(&text, primary, &mut events));
                } else {
                    obs.class("surplus data declined");
                    events.push(t("\n"));
                    result = Some(Err(""));
                }
            }
            Err(e) => return Err(Fail::Infra(format!("{:?}", e))),
            Ok(_) => {
                result = Some(finish(&text, primary, &mut events));
            }
        }
        if result.is_some() {
            break;
        }
    }
    let result = match result {
        Some(r) => r,
        None => {
            // Only happens if nothing was left to enter
            events.push(Ev::Ask(P_CODE, Ans::Line(String::new())));
            events.push(t("\n"));
            Err("")
        }
    };
    let status = match &result {
        Ok(password) => {
            obs.class("stored");
            model.set("a.com", "me", "", Val::Stored(password.clone()));
            events.push(t("Password added.\n"));
            0
        }
        Err("") => 1,
        Err(what) => {
            obs.class(what);
            1
        }
    };
    if rejected > 0 || events.len() > 5 {
        obs.nontrivial();
    }

    let mut args = s(&["add-stored", "a.com", "me", ["-c", "--recovery"][case.style as usize % 2]]);
    if case.existing {
        args.push("-y".to_owned());
    }
    if case.shell {
        let mut shell = Shell::start(&env, false)?;
        shell.raw_line(&args.join(" "), &events, primary)?;
        shell.exit(false)?;
    } else {
        env.run(&args, &events, status, primary)?;
    }
    match result {
        Ok(_) => env.check_model(&model)?,
        Err(_) => ensure!(env.bytes()? == before, "storage file changed though no password was stored"),
    }
    Ok(())
}

/// Result of decoding a complete code
fn finish(text: &str, primary: &str, events: &mut Vec<Ev>) -> Result<String, &'static str> {
    match refimpl::code_decode(text, |salt| refimpl::derive_key(primary, salt)) {
        CodeResult::Ok(p) => Ok(p),
        CodeResult::Version => {
            events.push(t("Wrong recovery code version, generated by a newer application version?\n"));
            Err("wrong version")
        }
        CodeResult::Insufficient => {
            events.push(t("Not enough data in the recovery code.\n"));
            Err("not enough data")
        }
        CodeResult::Decryption => {
            events.push(t("Decryption failure, wrong primary password?\n"));
            Err("other primary password")
        }
        CodeResult::Utf8 => {
            events.push(Ev::Out(Part::Line("Corrupt UTF-8 data in storage (".to_owned())));
            Err("not UTF-8")
        }
        other => panic!("harness: {:?}", other),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        level: "exploration",
        rule: "Recovery codes of generated passwords (also of another primary password, unknown version, too short) entered in generated pieces with typos, wrong lines, surplus data, junk, aborts and answers, one-shot or in a shell; dialog predicted by an independent validator. Non-trivial: a piece was rejected or several pieces were entered.",
        assumptions: &["passwords contain no NUL"],
        subs: vec![Box::new(Gen {
            name: "entry",
            quick: 900,
            thorough: 20000,
            strat: entry_case,
            test: entry_test,
            shrink: 200,
        })],
    }]
}
