//! Several users of one storage file at the same time.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl;
use crate::{ensure, viol};
use pfp::storage_io::{FileIO, StorageIO};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

// Library level: the file is a register with atomic reads and writes

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum RegOp {
    /// Replaces the contents with so many values of that size
    Write { count: u8, size: u16 },
    Load,
    /// Reads the bytes of the file
    Bytes,
    /// Continues with a fresh instance, loaded from the file
    Reload,
    Pause(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RegCase {
    threads: Vec<Vec<RegOp>>,
    /// 0 plain, 1 relative parts in the path, 2 symbolic link, 3 missing directory, 4 read-only for others
    place: u8,
}

fn reg_case() -> BoxedStrategy<RegCase> {
    let op = || {
        prop_oneof![
            6 => (1u8..12, prop_oneof![3 => 0u16..40, 2 => 40u16..3000, 1 => 3000u16..30000]).prop_map(|(count, size)| RegOp::Write { count, size }),
            4 => Just(RegOp::Load),
            2 => Just(RegOp::Bytes),
            1 => Just(RegOp::Reload),
            1 => any::<u8>().prop_map(RegOp::Pause),
        ]
    };
    (vec(vec(op(), 1..12), 2..6), 0u8..5).prop_map(|(threads, place)| RegCase { threads, place }).boxed()
}

struct Event {
    start: u64,
    end: u64,
    write: bool,
    tag: String,
}

fn tag_of(entries: &[(String, String)]) -> Result<String, String> {
    let Some((_, tag)) = entries.iter().find(|(k, _)| k == "tag") else {
        return Err(format!("no tag, {} values", entries.len()));
    };
    let mut parts = tag.splitn(3, '/');
    let (id, count, size) = (
        parts.next().unwrap_or(""),
        parts.next().and_then(|s| s.parse::<usize>().ok()).unwrap_or(0),
        parts.next().and_then(|s| s.parse::<usize>().ok()).unwrap_or(0),
    );
    if entries.len() != count + 1 {
        return Err(format!("{} values with the tag {:?}", entries.len(), tag));
    }
    for (k, v) in entries {
        if k == "tag" {
            continue;
        }
        if *v != value(id, size) {
            return Err(format!("value {:?}… of {} bytes for {:?} with the tag {:?}", v.chars().take(20).collect::<String>(), v.len(), k, tag));
        }
    }
    Ok(tag.clone())
}

fn value(id: &str, size: usize) -> String {
    let mut v = String::with_capacity(size + 10);
    while v.len() < size {
        v += id;
        v.push(' ');
    }
    v
}

fn place(dir: &Path, n: u8) -> R<(PathBuf, PathBuf)> {
    let real = dir.join("data").join("storage.json");
    let _ = std::fs::create_dir_all(dir.join("data"));
    let path = match n {
        1 => dir.join("data").join("..").join("data").join(".").join("storage.json"),
        2 => {
            let link = dir.join("link.json");
            std::os::unix::fs::symlink("data/storage.json", &link).map_err(infra("link"))?;
            link
        }
        3 => return Ok((dir.join("one").join("two").join("storage.json"), dir.join("one").join("two").join("storage.json"))),
        _ => real.clone(),
    };
    Ok((path, real))
}

fn names(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn reg_test(ctx: &Ctx, case: &RegCase, obs: &mut Obs) -> R {
    let dir = ctx.dir();
    let (path, real) = place(&dir.0, case.place)?;
    let clock = AtomicU64::new(1);
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    let write = |io: &mut FileIO, id: &str, count: u8, size: u16| -> Result<String, String> {
        io.clear();
        let tag = format!("{}/{}/{}", id, count, size);
        io.set("tag".to_owned(), tag.clone());
        for i in 0..count {
            io.set(format!("key{}", i), value(id, size as usize));
        }
        io.flush().map_err(|e| format!("{:?}", e))?;
        Ok(tag)
    };
    let initial = case.place != 3 && case.place != 2;
    let mut events: Vec<Event> = Vec::new();
    if initial || case.place == 2 {
        let tag = write(&mut FileIO::new(&real), "initial", 3, 100).map_err(Fail::Violation)?;
        events.push(Event { start: 0, end: 0, write: true, tag });
    }
    let exists = !events.is_empty();
    if case.place == 4 {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&real, std::fs::Permissions::from_mode(0o640)).map_err(infra("mode"))?;
    }

    let barrier = Barrier::new(case.threads.len());
    let log: Mutex<Vec<Event>> = Mutex::new(Vec::new());
    let problem: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|scope| {
        for (t, ops) in case.threads.iter().enumerate() {
            let (barrier, log, problem, path, real, tick, write) = (&barrier, &log, &problem, &path, &real, &tick, &write);
            scope.spawn(move || {
                let mut io = FileIO::new(path);
                barrier.wait();
                // Nothing there initially for some places, until something was written here
                let mut there = exists;
                for (i, op) in ops.iter().enumerate() {
                    let start = tick();
                    let result: Result<Option<(bool, String)>, String> = match op {
                        RegOp::Write { count, size } => {
                            let r = write(&mut io, &format!("t{}-{}", t, i), *count, *size);
                            r.map(|tag| Some((true, tag)))
                        }
                        RegOp::Load | RegOp::Reload => match FileIO::load(path) {
                            Ok(loaded) => {
                                let data: Vec<(String, String)> =
                                    loaded.keys().map(|k| (k.clone(), loaded.get(k).unwrap().clone())).collect();
                                if *op == RegOp::Reload {
                                    io = loaded;
                                }
                                tag_of(&data).map(|tag| Some((false, tag)))
                            }
                            Err(e) if there => Err(format!("loading failed: {:?}", e)),
                            Err(_) => Ok(None),
                        },
                        RegOp::Bytes => match std::fs::read(real) {
                            Ok(bytes) => refimpl::parse_file(&bytes)
                                .and_then(|raw| tag_of(&raw.into_iter().collect::<Vec<_>>()))
                                .map(|tag| Some((false, tag))),
                            Err(e) if there => Err(format!("reading failed: {}", e)),
                            Err(_) => Ok(None),
                        },
                        RegOp::Pause(n) => {
                            std::thread::sleep(std::time::Duration::from_micros(*n as u64 * 4));
                            Ok(None)
                        }
                    };
                    let end = tick();
                    match result {
                        Ok(None) => {}
                        Ok(Some((write, tag))) => {
                            there = true;
                            log.lock().unwrap().push(Event { start, end, write, tag });
                        }
                        Err(e) => {
                            problem.lock().unwrap().get_or_insert(format!("thread {}, operation {} {:?}: {}", t, i, op, e));
                            return;
                        }
                    }
                }
            });
        }
    });
    if let Some(p) = problem.into_inner().unwrap() {
        viol!("{}", p);
    }
    events.extend(log.into_inner().unwrap());
    let writes = events.iter().filter(|e| e.write).count();
    if writes == 0 {
        return Ok(());
    }

    // A last look after everything
    let start = tick();
    let loaded = match FileIO::load(&path) {
        Ok(l) => l,
        Err(e) => viol!("the file cannot be loaded in the end: {:?}", e),
    };
    let data: Vec<(String, String)> = loaded.keys().map(|k| (k.clone(), loaded.get(k).unwrap().clone())).collect();
    let tag = match tag_of(&data) {
        Ok(t) => t,
        Err(e) => viol!("contents in the end: {}", e),
    };
    events.push(Event { start, end: tick(), write: false, tag });
    obs.extra += events.len() as u64;

    // Reads return what was written, none of it outdated
    let find = |tag: &str| events.iter().find(|e| e.write && e.tag == tag);
    let mut overlaps = 0;
    for r in events.iter().filter(|e| !e.write) {
        let Some(w) = find(&r.tag) else { viol!("contents {:?} were never written", r.tag) };
        ensure!(w.start < r.end || w.end == 0, "contents {:?} were read before they were written", r.tag);
        for w2 in events.iter().filter(|e| e.write) {
            ensure!(
                !(w.end < w2.start && w2.end < r.start),
                "contents {:?} were read though they had been replaced by {:?}",
                r.tag,
                w2.tag
            );
            overlaps += (w2.start < r.end && r.start < w2.end) as usize;
        }
        for r2 in events.iter().filter(|e| !e.write && r.end < e.start) {
            let w2 = find(&r2.tag).unwrap();
            ensure!(!(w2.end < w.start), "contents {:?} were read after {:?} replaced them", r2.tag, r.tag);
        }
    }
    let parent = real.parent().unwrap();
    let left = names(parent);
    ensure!(left == ["storage.json"], "files left behind: {:?}", left);
    match case.place {
        2 => ensure!(path.is_symlink(), "symbolic link was replaced"),
        4 => {
            use std::os::unix::fs::PermissionsExt;
            let mode = std::fs::metadata(&real).map_err(infra("mode"))?.permissions().mode() & 0o777;
            ensure!(mode == 0o640, "permissions changed to {:o}", mode);
        }
        _ => {}
    }
    let writers = case.threads.iter().filter(|ops| ops.iter().any(|o| matches!(o, RegOp::Write { .. }))).count();
    if writers >= 2 {
        obs.nontrivial();
        obs.class("several writers");
    }
    if overlaps > 0 {
        obs.class("reads during writes");
    }
    Ok(())
}

// Application level

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ProcCase {
    initial: Vec<Cmd>,
    rounds: Vec<Round>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Round {
    cmds: Vec<(Cmd, u8)>,
    /// How many start later than the first one saved
    late: u8,
    /// Ends one of them forcibly, after so many microseconds
    kill: Option<u16>,
}

fn proc_case() -> BoxedStrategy<ProcCase> {
    let cmd = || {
        prop_oneof![
            4 => (target(), 4usize..=24, 1u8..16).prop_map(|(id, len, set)| Cmd::Add { id, len: Some(len), set, yes: true, replies: vec![] }),
            1 => target().prop_map(|id| Cmd::Remove { id }),
            1 => (cli_site(), cli_site()).prop_map(|(site, target)| Cmd::SetAlias { site, target, remove: false }),
            1 => cli_site().prop_map(|site| Cmd::RemoveAlias { site }),
        ]
    };
    let round = (vec((cmd(), any::<u8>()), 2..4), 0u8..2, prop_oneof![4 => Just(None), 1 => (0u16..60000).prop_map(Some)])
        .prop_map(|(cmds, late, kill)| Round { cmds, late, kill });
    (vec(add_cmd(), 1..4), vec((round, vec(any::<u8>(), 3)), 1..3))
        .prop_map(|(initial, rounds)| {
            let mut known = initial.clone();
            let rounds = rounds
                .into_iter()
                .map(|(mut round, picks)| {
                    link(&known, round.cmds.iter_mut().map(|c| &mut c.0).zip(picks));
                    known.extend(round.cmds.iter().map(|c| c.0.clone()));
                    round
                })
                .collect();
            ProcCase { initial, rounds }
        })
        .boxed()
}

/// All states possible after some of the commands took effect, in any order. Each of them works
/// with one of the states there while it was running.
fn possible(bases: &[Model], cmds: &[&Cmd]) -> Vec<Model> {
    let mut result: Vec<Model> = Vec::new();
    for base in bases {
        for (i, c) in cmds.iter().enumerate() {
            let mut m = base.clone();
            if c.predict(&mut m, true).status != 0 {
                continue;
            }
            let others: Vec<&Cmd> = cmds.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect();
            let more = possible(std::slice::from_ref(&m), &others);
            for m in std::iter::once(m).chain(more) {
                if !result.contains(&m) {
                    result.push(m);
                }
            }
        }
    }
    result
}

fn proc_test(ctx: &Ctx, case: &ProcCase, obs: &mut Obs) -> R {
    let primary = "primary";
    let (mut model, raw) = crate::session::build(primary, &case.initial);
    let env = Env::new(ctx);
    env.write(&raw)?;
    let key = refimpl::keys(&raw, primary).map_err(Fail::Infra)?;
    let look = |env: &Env| -> R<refimpl::Decoded> {
        let raw = env.raw()?;
        match refimpl::decode(&raw, &key) {
            Ok(d) => Ok(d),
            Err(e) => viol!("storage file cannot be decoded: {}", e),
        }
    };
    let same = |d: &refimpl::Decoded, m: &Model| refimpl::compare(d, m).is_ok();
    let mut killed = 0;
    for (n, round) in case.rounds.iter().enumerate() {
        let cmds: Vec<&Cmd> = round.cmds.iter().map(|c| &c.0).collect();
        let mut bases = vec![model.clone()];
        let mut procs: Vec<(usize, Proc)> = Vec::new();
        let start = |i: usize| -> R<Proc> {
            let mut p = env.start(&round.cmds[i].0.args(round.cmds[i].1))?;
            let (text, stop) = p.text()?;
            if stop != Stop::Prompt(P_PRIMARY) {
                viol!("{}: no prompt for the primary password but {:?} after {:?}", p.what, stop, text);
            }
            Ok(p)
        };
        let late = (round.late as usize).min(cmds.len() - 1);
        for i in 0..cmds.len() - late {
            procs.push((i, start(i)?));
        }
        let mut statuses: Vec<Option<i32>> = vec![None; cmds.len()];
        if late > 0 {
            // The first one finishes while the others wait
            let (i, mut p) = procs.remove(0);
            p.send(primary)?;
            let (text, stop) = p.text()?;
            let Stop::Exit(status) = stop else { viol!("{}: {:?} after {:?}", p.what, stop, text) };
            let decoded = look(&env)?;
            let mut m = model.clone();
            let expected = cmds[i].predict(&mut m, true).status;
            ensure!(status == expected, "{}: exit status {} instead of {}: {:?}", p.what, status, expected, text);
            ensure!(same(&decoded, &m), "{}: not in effect afterwards, others waiting for input: {:?}", p.what, decoded.entries);
            statuses[i] = Some(status);
            bases.push(m.clone());
            model = m;
            for i in cmds.len() - late..cmds.len() {
                procs.push((i, start(i)?));
            }
            obs.class("command finished while others wait");
        }
        for (_, p) in &mut procs {
            p.send(primary)?;
        }
        let mut victim = None;
        if let Some(us) = round.kill {
            std::thread::sleep(std::time::Duration::from_micros(us as u64));
            if let Some((i, p)) = procs.first_mut() {
                let _ = p.child.kill();
                victim = Some(*i);
                obs.class("process killed");
            }
        }
        let running: Vec<&Cmd> = procs.iter().map(|(i, _)| cmds[*i]).collect();
        let mut allowed = possible(&bases, &running);
        // The state at the beginning as well, unless somebody succeeded
        for b in &bases {
            if !allowed.contains(b) {
                allowed.push(b.clone());
            }
        }
        // Somebody reading while all of them are saving
        for _ in 0..20 {
            let decoded = look(&env)?;
            if !allowed.iter().any(|m| same(&decoded, m)) {
                viol!("contents while {:?} are running: {:?} {:?}", running, decoded.sites, decoded.entries);
            }
            obs.extra += 1;
        }
        let mut done: Vec<usize> = Vec::new();
        for (i, p) in &mut procs {
            let (text, stop) = p.text()?;
            let Stop::Exit(status) = stop else { viol!("{}: {:?} after {:?}", p.what, stop, text) };
            if victim == Some(*i) {
                killed += (status < 0) as usize;
                if status == 0 {
                    done.push(*i);
                }
                continue;
            }
            let expected: Vec<i32> = bases.iter().chain(allowed.iter()).map(|b| cmds[*i].predict(&mut b.clone(), true).status).collect();
            ensure!(expected.contains(&status), "{}: exit status {}, output {:?}", p.what, status, text);
            if status == 0 {
                done.push(*i);
            }
        }
        let decoded = look(&env)?;
        // Successful commands only, a killed one might have taken effect as well
        let mut effective: Vec<&Cmd> = done.iter().map(|i| cmds[*i]).collect();
        if let Some(v) = victim.filter(|v| !done.contains(v)) {
            effective.push(cmds[v]);
        }
        let mut finals = possible(&bases, &effective);
        if done.is_empty() {
            finals.push(model.clone());
        }
        match finals.iter().find(|m| same(&decoded, m)) {
            Some(m) => model = m.clone(),
            None => viol!(
                "round {}: contents after {:?} succeeded: {:?} {:?}, none of the {} possible states",
                n, effective, decoded.sites, decoded.entries, finals.len()
            ),
        }
        if done.len() >= 2 {
            obs.nontrivial();
            obs.class("several commands succeeded at once");
        }
    }
    let files: Vec<String> = env.files().into_iter().filter(|f| f != "home" && f != "storage.json").collect();
    ensure!(files.len() <= killed, "files left behind: {:?}", files);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "register: threads with generated writes (tagged contents of different sizes), loads and reads of the bytes of one file through several instances, checked against a register with atomic operations in real time; processes: several commands of the application loading the same file, then saving at the same time or while others wait, optionally one of them killed. Non-trivial: two threads writing, or two commands that succeeded at the same time.",
        assumptions: &[
            "interleavings are those the scheduler produces, not enumerated",
            "commands running at the same time may undo each other, what is promised is that the file is always a complete result of some of them",
        ],
        subs: vec![
            Box::new(Gen {
                name: "register",
                quick: 2400,
                thorough: 60000,
                strat: reg_case,
                test: reg_test,
                shrink: 400,
            }),
            Box::new(Gen {
                name: "processes",
                quick: 120,
                thorough: 3000,
                strat: proc_case,
                test: proc_test,
                shrink: 60,
            }),
        ],
    }]
}
