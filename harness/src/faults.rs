//! Failing and interrupted saves of the application: C13.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl::{self, Raw};
use crate::session::build;
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Change {
    SetPrimary,
    Add(Cmd),
    Notes(u8, String),
    Remove(u8),
    SetAlias(String, String),
    RemoveAlias(String, String),
    /// List removing the site of an entry that is gone
    Cleanup(u8),
    /// Several at once
    Sweep(u8),
    /// The site has aliases already
    Chain(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Layout {
    Plain,
    Symlink(bool),
    Relative,
    /// Not existing before
    Fresh(u8),
    Private,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SaveCase {
    layout: Layout,
    contents: Vec<Cmd>,
    change: Change,
    pick: u16,
}

fn new_id_cmd() -> BoxedStrategy<Cmd> {
    prop_oneof![add_cmd(), add_stored_cmd()]
        .prop_map(|mut c| {
            match &mut c {
                Cmd::Add { yes, set, .. } => {
                    *yes = true;
                    *set = (*set).max(1);
                }
                Cmd::AddStored { yes, .. } => *yes = true,
                _ => {}
            }
            c
        })
        .boxed()
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        3 => Just(Change::SetPrimary),
        5 => new_id_cmd().prop_map(Change::Add),
        2 => (any::<u8>(), cli_secret()).prop_map(|(n, s)| Change::Notes(n, s)),
        2 => any::<u8>().prop_map(Change::Remove),
        1 => (pick(&["x.com", "www.y.com"]), cli_site()).prop_map(|(a, b)| Change::SetAlias(a, b)),
        1 => (pick(&["x.com", "www.y.com"]), pick(&["b.com", "z.com"])).prop_map(|(a, b)| Change::RemoveAlias(a, b)),
        2 => any::<u8>().prop_map(Change::Cleanup),
        2 => any::<u8>().prop_map(Change::Sweep),
        2 => any::<u8>().prop_map(Change::Chain),
    ]
    .boxed()
}

pub fn save_case() -> BoxedStrategy<SaveCase> {
    let layout = prop_oneof![
        4 => Just(Layout::Plain),
        1 => any::<bool>().prop_map(Layout::Symlink),
        1 => Just(Layout::Relative),
        1 => (0u8..3).prop_map(Layout::Fresh),
        1 => Just(Layout::Private),
    ];
    (layout, vec(new_id_cmd(), 1..5), change(), any::<u16>())
        .prop_map(|(layout, contents, change, pick)| SaveCase {
            change: if let Layout::Fresh(_) = layout { Change::SetPrimary } else { change },
            layout,
            contents,
            pick,
        })
        .boxed()
}

/// What is done, prepared from a case
struct Plan {
    before: Option<(Model, Raw)>,
    after: Model,
    args: Vec<String>,
    primary: String,
    new_primary: String,
    /// Answers to prompts for passwords and notes
    input: String,
    success: String,
    /// Number of sites that should be removed together
    empty: usize,
}

const PRIMARY: &str = "foobar";

fn plan(case: &SaveCase) -> Option<Plan> {
    let (mut model, mut raw) = build(PRIMARY, &case.contents);
    let mut input = String::new();
    let nth = |model: &Model, n: u8| -> Option<Target> {
        let ids: Vec<_> = model.entries.keys().collect();
        let id = ids.get(n as usize % ids.len().max(1))?;
        Some(Target {
            site: id.0.clone(),
            name: id.1.clone(),
            rev: Some(if id.2.is_empty() { "1".to_owned() } else { id.2.clone() }),
        })
    };
    let mut success = None;
    let mut empty = 0;
    let cmd = match &case.change {
        Change::SetPrimary => None,
        Change::Add(c) => {
            if let Cmd::AddStored { value, .. } = c {
                input = value.clone();
            }
            Some(c.clone())
        }
        Change::Notes(n, text) => {
            input = text.clone();
            Some(Cmd::Notes { id: nth(&model, *n)?, set: Some(text.clone()) })
        }
        Change::Remove(n) => Some(Cmd::Remove { id: nth(&model, *n)? }),
        Change::SetAlias(a, b) => Some(Cmd::SetAlias { site: a.clone(), target: b.clone(), remove: false }),
        Change::RemoveAlias(a, b) => {
            model.set_alias(a, b).ok()?;
            raw = crate::session::raw_with_empty(&model);
            Some(Cmd::RemoveAlias { site: a.clone() })
        }
        Change::Sweep(n) => {
            empty = 2 + *n as usize % 3;
            for i in 0..empty {
                model.ever.insert(format!("empty{}.com", i));
            }
            raw = crate::session::raw_with_empty(&model);
            success = Some(String::new());
            Some(Cmd::List { site: None, name: None, show: false, recovery: false, verbose: false })
        }
        Change::Chain(n) => {
            let site = "middle.com".to_owned();
            for i in 0..1 + n % 3 {
                model.set_alias(&format!("alias{}.com", i), &site).ok()?;
            }
            raw = crate::session::raw_with_empty(&model);
            let target = if n & 8 == 0 { "target.com".to_owned() } else { nth(&model, *n)?.site };
            Some(Cmd::SetAlias { site, target, remove: false })
        }
        Change::Cleanup(n) => {
            let id = nth(&model, *n)?;
            let site = model.resolve(&id.site);
            let ids: Vec<Id> = model.entries.keys().filter(|i| i.0 == site).cloned().collect();
            for i in ids {
                model.entries.remove(&i);
            }
            raw = crate::session::raw_with_empty(&model);
            success = Some(String::new());
            Some(Cmd::List { site: None, name: None, show: false, recovery: false, verbose: false })
        }
    };
    // Sites starting with www. after normalization are a known problem of list
    if model.ever.iter().any(|s| s.starts_with("www.")) {
        return None;
    }
    let new_primary = "new primary".to_owned();
    let Some(mut cmd) = cmd else {
        let before = if let Layout::Fresh(_) = case.layout { None } else { Some((model, raw)) };
        return Some(Plan {
            before,
            after: Model::new(&new_primary),
            args: s(&["set-primary", "-y"]),
            primary: PRIMARY.to_owned(),
            success: "New primary password set".to_owned(),
            new_primary,
            input,
            empty,
        });
    };
    if let Cmd::AddStored { code: true, .. } = &cmd {
        if let Cmd::AddStored { code, .. } = &mut cmd {
            *code = false;
        }
    }
    let mut after = model.clone();
    let p = cmd.predict(&mut after, false);
    if p.status != 0 {
        return None;
    }
    let success = success.unwrap_or_else(|| match p.events.last() {
        Some(Ev::Out(Part::T(s))) => s.trim().to_owned(),
        _ => String::new(),
    });
    Some(Plan {
        before: Some((model, raw)),
        after,
        args: cmd.args(0),
        primary: PRIMARY.to_owned(),
        new_primary,
        input,
        success,
        empty,
    })
}

/// Directories of a run
struct Place {
    /// Not looked at by the shim
    outer: ScratchDir,
    data: PathBuf,
    /// As given to the application
    arg: String,
    /// Where the data is actually
    store: PathBuf,
    opts: Opts,
}

fn place(ctx: &Ctx, layout: &Layout, plan: &Plan) -> R<Place> {
    let outer = ctx.dir();
    let data = outer.join("data");
    std::fs::create_dir_all(&data).map_err(infra("directory"))?;
    std::fs::create_dir_all(outer.join("home")).map_err(infra("directory"))?;
    let mut store = data.join("storage.json");
    let mut arg = store.to_str().unwrap().to_owned();
    let mut opts = Opts::default();
    match layout {
        Layout::Plain | Layout::Private => {}
        Layout::Symlink(relative) => {
            std::fs::create_dir(data.join("real")).map_err(infra("directory"))?;
            store = data.join("real").join("file.json");
            let target = if *relative { PathBuf::from("real/file.json") } else { store.clone() };
            std::os::unix::fs::symlink(target, data.join("storage.json")).map_err(infra("symbolic link"))?;
        }
        Layout::Relative => {
            opts.cwd = Some(data.clone());
            arg = "storage.json".to_owned();
        }
        Layout::Fresh(n) => {
            let mut path = data.clone();
            for i in 0..*n {
                path = path.join(format!("sub{}", i));
            }
            store = path.join("storage.json");
            arg = store.to_str().unwrap().to_owned();
        }
    }
    if let Some((_, raw)) = &plan.before {
        std::fs::write(&store, refimpl::file_for(raw)).map_err(infra("storage file"))?;
        if let Layout::Private = layout {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(&store, std::fs::Permissions::from_mode(0o600)).map_err(infra("permissions"))?;
        }
    }
    Ok(Place { outer, data, arg, store, opts })
}

struct Outcome {
    code: i32,
    output: String,
}

fn run(ctx: &Ctx, plan: &Plan, place: &Place, fault: Option<&str>, fsize: Option<u64>) -> R<Outcome> {
    let mut opts = place.opts.clone();
    opts.fsize = fsize;
    if let Some(fault) = fault {
        opts.env.extend([
            ("PFPV_DIR".to_owned(), place.data.to_str().unwrap().to_owned()),
            ("PFPV_LOG".to_owned(), place.outer.join("log").to_str().unwrap().to_owned()),
            ("PFPV_FAULT".to_owned(), fault.to_owned()),
            ("LD_PRELOAD".to_owned(), ctx.shim.to_str().unwrap().to_owned()),
        ]);
    }
    let mut args = s(&["--stdin-passwords", "-c", &place.arg]);
    args.extend(plan.args.iter().cloned());
    let mut proc = Proc::spawn(&ctx.cli, &args, &place.outer.join("home"), &opts)?;
    let mut output = String::new();
    for _ in 0..12 {
        let (text, stop) = proc.text()?;
        output.push_str(&text);
        match stop {
            Stop::Exit(code) => return Ok(Outcome { code, output }),
            Stop::Prompt(p) => proc.send(match p {
                P_PRIMARY => &plan.primary,
                P_NEW | P_REPEAT => &plan.new_primary,
                P_STORED | P_NOTES => &plan.input,
                _ => "yes",
            })?,
        }
    }
    // Endless prompts
    Ok(Outcome { code: -1, output })
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum State {
    Before,
    After,
}

fn state(plan: &Plan, content: Option<&[u8]>) -> Result<State, String> {
    let initial = plan.before.as_ref().map(|(_, raw)| refimpl::file_for(raw));
    if content.map(|c| c.to_vec()) == initial {
        return Ok(State::Before);
    }
    let Some(content) = content else { return Err("the file is missing".to_owned()) };
    let raw = refimpl::parse_file(content).map_err(|e| format!("the file is not valid ({}): {:?}", e, String::from_utf8_lossy(content)))?;
    let decodes = |model: &Model| -> Result<(), String> {
        let keys = refimpl::keys(&raw, &model.primary)?;
        let decoded = refimpl::decode(&raw, &keys)?;
        refimpl::compare(&decoded, model)?;
        let empty = decoded.sites.keys().filter(|s| s.starts_with("empty")).count();
        match empty == 0 || empty == plan.empty {
            true => Ok(()),
            false => Err(format!("{} of {} sites without passwords are left", empty, plan.empty)),
        }
    };
    match decodes(&plan.after) {
        Ok(()) => Ok(State::After),
        Err(e) => match &plan.before {
            Some((before, _)) if decodes(before).is_ok() => Ok(State::Before),
            _ => Err(format!("neither the state before nor the state after the change ({})", e)),
        },
    }
}

fn current(path: &Path) -> R<Option<Vec<u8>>> {
    match std::fs::read(path) {
        Ok(b) => Ok(Some(b)),
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
        Err(e) => Err(Fail::Infra(format!("storage file: {}", e))),
    }
}

#[derive(Debug, Clone)]
struct Op {
    name: String,
    result: i64,
    path: String,
    path2: String,
    inode: u64,
    mode: u32,
    content: Vec<u8>,
}

impl Op {
    fn modifies(&self) -> bool {
        !matches!(self.name.as_str(), "open" | "read" | "stat")
    }
}

fn read_log(path: &Path) -> R<Vec<Op>> {
    let text = std::fs::read_to_string(path).map_err(infra("log of calls"))?;
    text.lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() != 7 {
                return Err(Fail::Infra(format!("log of calls: {:?}", l)));
            }
            Ok(Op {
                name: f[0].to_owned(),
                result: f[1].parse().unwrap_or(-1),
                path: f[2].to_owned(),
                path2: f[3].to_owned(),
                inode: f[4].parse().unwrap_or(0),
                mode: f[5].parse().unwrap_or(0),
                content: hex(f[6]),
            })
        })
        .collect()
}

pub fn hex(text: &str) -> Vec<u8> {
    text.as_bytes()
        .chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap_or(0))
        .collect()
}

/// File system as it is seen, and what of it would be there after a power failure: contents that
/// were not synchronised may be the old ones, the new ones, a part of these or empty; changes of
/// directories since the last synchronisation of a directory are there up to some point.
#[derive(Default, Clone)]
struct Disk {
    names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    pending: Vec<(String, Option<usize>)>,
    files: Vec<Content>,
    inodes: BTreeMap<u64, usize>,
}

#[derive(Default, Clone)]
struct Content {
    now: Vec<u8>,
    durable: Vec<u8>,
    /// All contents since the last synchronisation
    between: Vec<Vec<u8>>,
}

impl Disk {
    fn file(&mut self, content: Vec<u8>) -> usize {
        self.files.push(Content { now: content, ..Content::default() });
        self.files.len() - 1
    }

    fn set_name(&mut self, name: &str, to: Option<usize>) {
        match to {
            Some(f) => self.names.insert(name.to_owned(), f),
            None => self.names.remove(name),
        };
        self.pending.push((name.to_owned(), to));
    }

    fn data(&mut self, f: usize, content: &[u8]) {
        let c = &mut self.files[f];
        if c.now != content {
            c.now = content.to_vec();
            c.between.push(content.to_vec());
        }
    }

    fn apply(&mut self, op: &Op, real: &dyn Fn(&str) -> String) {
        if op.result < 0 {
            return;
        }
        let path = real(&op.path);
        let known = self.names.get(&path).copied();
        match op.name.as_str() {
            "create" | "openw" => {
                let f = match known {
                    Some(f) => f,
                    None => {
                        let f = self.file(Vec::new());
                        self.set_name(&path, Some(f));
                        f
                    }
                };
                self.data(f, &op.content);
                self.inodes.insert(op.inode, f);
            }
            "write" => {
                if let Some(f) = self.inodes.get(&op.inode).copied().or(known) {
                    self.data(f, &op.content);
                }
            }
            "truncate" => {
                if let Some(f) = known.or(self.inodes.get(&op.inode).copied()) {
                    self.data(f, &op.content);
                }
            }
            "sync" => {
                if let Some(f) = self.inodes.get(&op.inode).copied() {
                    self.settle(f);
                } else {
                    self.settle_names();
                }
            }
            "syncall" => {
                for f in 0..self.files.len() {
                    self.settle(f);
                }
                self.settle_names();
            }
            "rename" => {
                let to = real(&op.path2);
                if let Some(f) = known {
                    // Both changes happen at once
                    self.names.remove(&path);
                    self.names.insert(to.clone(), f);
                    self.pending.push((to, Some(f)));
                    self.pending.push((path, None));
                }
            }
            "link" => {
                let to = real(&op.path2);
                if let Some(f) = known {
                    self.set_name(&to, Some(f));
                }
            }
            "unlink" => self.set_name(&path, None),
            _ => {}
        }
    }

    fn settle(&mut self, f: usize) {
        let c = &mut self.files[f];
        c.durable = c.now.clone();
        c.between.clear();
    }

    fn settle_names(&mut self) {
        self.durable_names = self.names.clone();
        self.pending.clear();
    }

    /// Everything a file might contain after a power failure
    fn outcomes(&self, path: &str) -> Vec<Option<Vec<u8>>> {
        let mut names = self.durable_names.clone();
        let mut out: Vec<Option<Vec<u8>>> = Vec::new();
        let mut add = |names: &BTreeMap<String, usize>| match names.get(path) {
            None => out.push(None),
            Some(f) => {
                let c = &self.files[*f];
                out.push(Some(c.durable.clone()));
                for b in &c.between {
                    out.push(Some(b.clone()));
                    out.push(Some(b[..b.len() / 2].to_vec()));
                }
                if !c.between.is_empty() {
                    out.push(Some(Vec::new()));
                }
            }
        };
        add(&names);
        for (name, to) in &self.pending {
            match to {
                Some(f) => names.insert(name.clone(), *f),
                None => names.remove(name),
            };
            add(&names);
        }
        out
    }
}

fn power_failures(plan: &Plan, place: &Place, log: &[Op], obs: &mut Obs) -> R {
    let link = place.data.join("storage.json").to_str().unwrap().to_owned();
    let store = place.store.to_str().unwrap().to_owned();
    let real = |p: &str| -> String {
        let p = p.replace("/./", "/");
        if p == link { store.clone() } else { p }
    };
    let mut disk = Disk::default();
    if let Some((_, raw)) = &plan.before {
        let content = refimpl::file_for(raw);
        let f = disk.file(content);
        disk.settle(f);
        disk.names.insert(store.clone(), f);
        disk.settle_names();
    }
    let mut checked: BTreeSet<Option<Vec<u8>>> = BTreeSet::new();
    for (i, op) in log.iter().enumerate() {
        disk.apply(op, &real);
        for content in disk.outcomes(&store) {
            if checked.insert(content.clone()) {
                if let Err(e) = state(plan, content.as_deref()) {
                    viol!(
                        "power failure after call {} ({} {}) of {:?} leaves {}",
                        i,
                        op.name,
                        op.path,
                        plan.args,
                        e
                    );
                }
                obs.extra += 1;
            }
        }
    }
    let seen = disk.names.get(&store).map(|f| disk.files[*f].now.clone());
    if seen != current(&place.store)? {
        // Calls the shim doesn't know about have been used
        obs.class("calls not understood");
        return Ok(());
    }
    for content in disk.outcomes(&store) {
        match state(plan, content.as_deref()) {
            Ok(State::After) => {}
            other => viol!(
                "power failure after {:?} reported success leaves {:?}, {:?}",
                plan.args,
                other,
                content.map(|c| c.len())
            ),
        }
    }
    obs.class("power failures");
    Ok(())
}

/// The contents may not become more accessible while being saved.
pub fn exposure_test(ctx: &Ctx, case: &SaveCase, obs: &mut Obs) -> R {
    let case = SaveCase { layout: Layout::Private, ..case.clone() };
    let Some(plan) = plan(&case) else { return Ok(()) };
    let place = place(ctx, &case.layout, &plan)?;
    let out = run(ctx, &plan, &place, Some("n 0 0"), None)?;
    check_outcome(&plan, &place, "no fault", &out, false)?;
    let mut writes = 0;
    for op in read_log(&place.outer.join("log"))? {
        if op.mode & 0o170000 != 0o100000 || op.content.is_empty() || !op.modifies() {
            continue;
        }
        writes += 1;
        ensure!(
            op.mode & 0o177 == 0,
            "{:?} on a file with mode 600: at {} {} the contents have mode {:o}",
            plan.args,
            op.name,
            op.path,
            op.mode & 0o7777
        );
    }
    obs.extra += writes;
    if writes > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn check_outcome(plan: &Plan, place: &Place, what: &str, out: &Outcome, killed: bool) -> R<State> {
    let content = current(&place.store)?;
    let found = match state(plan, content.as_deref()) {
        Ok(s) => s,
        Err(e) => viol!("{:?}, {}: {} (exit status {}, {:?})", plan.args, what, e, out.code, out.output),
    };
    let claimed = !plan.success.is_empty() && out.output.contains(&plan.success);
    if killed && out.code == -9 {
        return Ok(found);
    }
    match out.code {
        0 => {
            ensure!(
                plan.success.is_empty() || claimed,
                "{:?}, {}: exit status 0 without success message: {:?}",
                plan.args,
                what,
                out.output
            );
            ensure!(found == State::After, "{:?}, {}: success was reported but nothing saved", plan.args, what);
        }
        1 => {
            ensure!(!claimed, "{:?}, {}: failed but reported success: {:?}", plan.args, what, out.output);
            let last = out.output.trim_end().rsplit('\n').next().unwrap_or("");
            let asked = [P_PRIMARY, P_NEW, P_REPEAT, P_STORED, P_NOTES].iter().any(|p| out.output.trim_end().ends_with(p.trim_end()));
            ensure!(!last.is_empty() && !asked, "{:?}, {}: failed without a message: {:?}", plan.args, what, out.output);
        }
        _ => viol!("{:?}, {}: exit status {}: {:?}", plan.args, what, out.code, out.output),
    }
    Ok(found)
}

fn save_test(ctx: &Ctx, case: &SaveCase, obs: &mut Obs) -> R {
    let Some(plan) = plan(case) else {
        obs.class("nothing to do");
        return Ok(());
    };
    obs.class(match case.change {
        Change::SetPrimary => "set-primary",
        Change::Add(_) => "add",
        Change::Notes(..) => "notes --set",
        Change::Remove(_) => "remove",
        Change::SetAlias(..) => "alias",
        Change::RemoveAlias(..) => "alias --remove",
        Change::Cleanup(_) => "list removing sites",
        Change::Sweep(_) => "list removing several sites",
        Change::Chain(_) => "alias for a site with aliases",
    });
    obs.class(match case.layout {
        Layout::Plain => "plain file",
        Layout::Symlink(_) => "symbolic link",
        Layout::Relative => "relative path",
        Layout::Fresh(_) => "new file",
        Layout::Private => "private file",
    });
    obs.nontrivial();

    let clean = place(ctx, &case.layout, &plan)?;
    let out = run(ctx, &plan, &clean, Some("n 0 0"), None)?;
    let found = check_outcome(&plan, &clean, "no fault", &out, false)?;
    ensure!(
        found == State::After && out.code == 0,
        "{:?} failed without a fault: {:?}",
        plan.args,
        out.output
    );
    let log = read_log(&clean.outer.join("log"))?;
    power_failures(&plan, &clean, &log, obs)?;
    let size = current(&clean.store)?.map_or(0, |c| c.len() as u64);
    drop(clean);

    let mut faults: Vec<(String, usize, bool)> = Vec::new();
    let last = log.iter().rposition(|o| o.modifies()).unwrap_or(0);
    let errors = [5, 28, 13, 30, 24, 122, 4, 2, 1];
    for (k, op) in log.iter().enumerate() {
        let errno = |n: usize| errors[(case.pick as usize + k * 7 + n) % errors.len()];
        faults.push((format!("e {} {}", k, errno(0)), k, false));
        if op.modifies() {
            faults.push((format!("E {} {}", k, [28, 5, 13][(case.pick as usize + k) % 3]), k, false));
            faults.push((format!("b {} 0", k), k, true));
            if k == last {
                faults.push((format!("a {} 0", k), k, true));
            }
        }
        if op.name == "write" {
            faults.push((format!("s {} {}", k, [28, 5][case.pick as usize % 2]), k, false));
            faults.push((format!("a {} 0", k), k, true));
            faults.push((format!("e {} 4", k), k, false));
        }
        if op.name == "read" {
            faults.push((format!("s {} 5", k), k, false));
        }
    }
    // Commands with many calls would take too long otherwise
    let limit = 45;
    let step = faults.len().div_ceil(limit).max(1);
    for (i, (fault, k, kill)) in faults.iter().enumerate() {
        if i % step != case.pick as usize % step {
            continue;
        }
        let p = place(ctx, &case.layout, &plan)?;
        let out = run(ctx, &plan, &p, Some(fault), None)?;
        let op = &log[*k];
        let mode = match &fault[..1] {
            "e" => "failure of",
            "E" => "failures starting with",
            "s" => "half of the data at",
            "b" => "killed before",
            _ => "killed after",
        };
        let what = format!("{} call {} ({} {}, fault {})", mode, k, op.name, op.path, fault);
        let found = check_outcome(&plan, &p, &what, &out, *kill)?;
        obs.extra += 1;
        if op.name == "sync" && out.code == 0 && !*kill {
            // Directories cannot be synchronised everywhere
            let mut log = read_log(&p.outer.join("log"))?;
            for o in log.iter_mut().filter(|o| o.name == "sync!" && Path::new(&o.path).is_dir()) {
                o.name = "sync".to_owned();
                o.result = 0;
            }
            power_failures(&plan, &p, &log, obs).map_err(|e| match e {
                Fail::Violation(m) => Fail::Violation(format!("{}: {}", what, m)),
                e => e,
            })?;
        }
        if found == State::Before && (*kill || i % 5 == 0) && out.code != 0 {
            // Whatever it left behind must not be in the way
            if i % 3 == case.pick as usize % 3 {
                let out = run(ctx, &plan, &p, None, None)?;
                let found = check_outcome(&plan, &p, &format!("again after {}", what), &out, false)?;
                ensure!(found == State::After, "{:?}, {}, cannot be repeated: {:?}", plan.args, what, out.output);
            }
        }
    }

    // Limits of the file size as they would be with a disk filling up
    let old = plan.before.as_ref().map_or(0, |(_, raw)| refimpl::file_for(raw).len() as u64);
    for limit in [0, case.pick as u64 * size / 65536, size.saturating_sub(1), old.min(size.saturating_sub(1))] {
        let p = place(ctx, &case.layout, &plan)?;
        let out = run(ctx, &plan, &p, None, Some(limit))?;
        let what = format!("file size limited to {} of {}", limit, size);
        check_outcome(&plan, &p, &what, &out, false)?;
        obs.extra += 1;
    }
    Ok(())
}

// A shell going on after failed saves

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ShellCase {
    contents: Vec<Cmd>,
    cmds: Vec<Cmd>,
    at: u16,
    errno: u8,
}

fn shell_case() -> BoxedStrategy<ShellCase> {
    let cmd = prop_oneof![
        5 => new_id_cmd(),
        2 => (target(), cli_secret()).prop_map(|(id, s)| Cmd::Notes { id, set: Some(s) }),
        2 => target().prop_map(|id| Cmd::Remove { id }),
        2 => (cli_site(), cli_site()).prop_map(|(site, target)| Cmd::SetAlias { site, target, remove: false }),
        1 => cli_site().prop_map(|site| Cmd::RemoveAlias { site }),
    ];
    (vec(new_id_cmd(), 0..3), vec(cmd, 1..6), any::<u16>(), any::<u8>())
        .prop_map(|(contents, cmds, at, errno)| ShellCase { contents, cmds, at, errno })
        .boxed()
}

#[allow(clippy::too_many_lines)]
fn shell_test(ctx: &Ctx, case: &ShellCase, obs: &mut Obs) -> R {
    let (model, raw) = build(PRIMARY, &case.contents);
    let outer = ctx.dir();
    let data = outer.join("data");
    std::fs::create_dir_all(&data).map_err(infra("directory"))?;
    std::fs::create_dir_all(outer.join("home")).map_err(infra("directory"))?;
    let store = data.join("storage.json");
    std::fs::write(&store, refimpl::file_for(&raw)).map_err(infra("storage file"))?;
    let mut opts = Opts::default();
    // Loading takes 3 calls, saving about 12
    let mut state = model.clone();
    let saves = case.cmds.iter().filter(|c| c.predict(&mut state, false).status == 0).count();
    let at = 3 + case.at as usize * (12 * saves + 1) / 65536;
    let errno = [28, 5, 13, 30, 122][case.errno as usize % 5];
    opts.env.extend([
        ("PFPV_DIR".to_owned(), data.to_str().unwrap().to_owned()),
        ("PFPV_LOG".to_owned(), outer.join("log").to_str().unwrap().to_owned()),
        ("PFPV_FAULT".to_owned(), format!("{} {} {}", if case.errno & 0x80 == 0 { 'e' } else { 's' }, at, errno)),
        ("LD_PRELOAD".to_owned(), ctx.shim.to_str().unwrap().to_owned()),
    ]);
    let args = s(&["--stdin-passwords", "-c", store.to_str().unwrap(), "shell", "-s", outer.join("history.txt").to_str().unwrap()]);
    let mut proc = Proc::spawn(&ctx.cli, &args, &outer.join("home"), &opts)?;
    let (out, stop) = proc.text()?;
    ensure!(stop == Stop::Prompt(P_SHELL), "shell did not start: {:?} {:?}", stop, out);

    let mut session = model.clone();
    let mut allowed = vec![model];
    let mut failed = 0;
    for cmd in &case.cmds {
        let mut next = session.clone();
        let predicted = cmd.predict(&mut next, false);
        proc.send(&quote_all(&cmd.args(0), 2))?;
        let mut output = String::new();
        let mut asked = predicted.events.iter().filter_map(|e| match e {
            Ev::Ask(_, Ans::Line(l)) => Some(l.clone()),
            _ => None,
        });
        let mut rounds = 0;
        loop {
            let (text, stop) = proc.text()?;
            output.push_str(&text);
            rounds += 1;
            match stop {
                Stop::Prompt(P_SHELL) => break,
                Stop::Prompt(P_PRIMARY) if rounds < 4 => proc.send(PRIMARY)?,
                Stop::Prompt(_) if rounds < 8 => proc.send(&asked.next().unwrap_or_default())?,
                other => viol!("{:?} in shell with fault at {}: {:?} {:?}", cmd, at, other, output),
            }
        }
        let output = output.strip_suffix(P_SHELL).unwrap_or(&output).to_owned();
        let success = match predicted.events.last() {
            Some(Ev::Out(Part::T(s))) if predicted.status == 0 => Some(s.trim().to_owned()),
            _ => None,
        };
        match success {
            None => {
                // Refused anyway
                session = next;
                continue;
            }
            Some(text) => {
                if output.trim_end().ends_with(&text) {
                    allowed = vec![next.clone()];
                } else {
                    ensure!(
                        !output.trim().is_empty() && !output.trim_end().ends_with(P_PRIMARY.trim_end()),
                        "{:?} neither succeeded nor reported an error, fault at {}: {:?}",
                        cmd,
                        at,
                        output
                    );
                    failed += 1;
                    ensure!(failed <= 1, "{:?} failed, though there was a fault before already: {:?}", cmd, output);
                    allowed.push(next.clone());
                }
                session = next;
            }
        }
        check_allowed(&store, &allowed, cmd, at)?;
    }
    if failed > 0 {
        obs.nontrivial();
        obs.class("failed save");
    } else {
        obs.class("no failed save");
    }
    // The session is consistent with itself
    proc.send("list -s -v")?;
    let (mut text, mut stop) = proc.text()?;
    if stop == Stop::Prompt(P_PRIMARY) {
        proc.send(PRIMARY)?;
        (text, stop) = proc.text()?;
    }
    ensure!(stop == Stop::Prompt(P_SHELL), "list: {:?} {:?}", stop, text);
    let mut parts = list_parts(&session, "*", "*", true, false, true);
    parts.push(Part::T(P_SHELL.to_owned()));
    let expected: String = parts.iter().map(|p| if let Part::T(s) = p { s.as_str() } else { "" }).collect();
    if failed == 0 && text.starts_with("Failed writing storage file") {
        // It removes sites without passwords
        failed = 1;
    } else if !session.ever.iter().any(|s| s.starts_with("www.")) {
        ensure!(text == expected, "list after failed saves shows {:?} instead of {:?}", text, expected);
    }
    proc.send("add -y final.com last")?;
    let (text, stop) = proc.text()?;
    let mut allowed = Vec::new();
    session.set("final.com", "last", "", Val::Gen { len: 16, set: 15 });
    if text.contains("Password added.") {
        allowed.push(session);
    } else {
        // The fault happened only now
        ensure!(failed == 0, "cannot save after a failed save: {:?} {:?}", text, stop);
        return Ok(());
    }
    check_allowed(&store, &allowed, &"final add", at)?;
    proc.send("exit")?;
    let (text, stop) = proc.text()?;
    ensure!(stop == Stop::Exit(0), "exit: {:?} {:?}", stop, text);
    Ok(())
}

fn check_allowed(store: &Path, allowed: &[Model], what: &dyn std::fmt::Debug, at: usize) -> R {
    let Some(content) = current(store)? else { viol!("storage file is missing after {:?}, fault at {}", what, at) };
    let mut why = Vec::new();
    for model in allowed {
        let ok = refimpl::parse_file(&content)
            .and_then(|raw| refimpl::keys(&raw, PRIMARY).and_then(|k| refimpl::decode(&raw, &k)))
            .and_then(|d| refimpl::compare(&d, model));
        match ok {
            Ok(()) => return Ok(()),
            Err(e) => why.push(e),
        }
    }
    viol!("storage file after {:?}, fault at call {}: {}", what, at, why.join("; or "))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        level: "fault_enumeration",
        rule: "For generated contents, changing command and layout (plain, private, symbolic link, relative path, new file in missing directories) the calls dealing with files are recorded; then the command is repeated with each call failing (various errors, once or from there on), done by half, or the process killed before or after it, with file size limits, and all outcomes of a power failure between any two calls are derived from the record. Shell sessions with a single failing call. Every case that runs a command is non-trivial; shell sessions if a save failed.",
        assumptions: &[
            "the user may create files in the directory of the storage file",
            "after a power failure directory changes are there up to some point in time, synchronising any directory makes the preceding ones permanent",
            "file operations go through libc calls known to the preloaded library",
        ],
        subs: vec![
            Box::new(Gen {
                name: "saves",
                quick: 26,
                thorough: 1500,
                strat: save_case,
                test: save_test,
                shrink: 12,
            }),
            Box::new(Gen {
                name: "shell",
                quick: 200,
                thorough: 8000,
                strat: shell_case,
                test: shell_test,
                shrink: 60,
            }),
        ],
    }]
}
