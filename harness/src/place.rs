//! Which files the application reads and changes.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl;
use crate::session::{build, one_shot, step_c, Shell, StepC};
use crate::{ensure, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::fs::{chown, symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Place {
    DefaultHome,
    DefaultXdg,
    Absolute,
    Relative,
    Subdirectory,
    Parent,
    Link,
    LinkChain,
    LinkedDirectory,
    /// Parent of the directory a symbolic link leads to
    LinkedParent,
    /// Directories with names meaning something to shells
    Odd(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Hist {
    Default,
    Given,
    Existing,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PlaceCase {
    place: Place,
    name: u8,
    style: u8,
    /// The storage file before, none for files set up by the application
    initial: Option<Vec<Cmd>>,
    mode: u32,
    umask: u32,
    /// The user running the application isn't privileged
    user: bool,
    owner: bool,
    read_only: bool,
    neighbours: Vec<u8>,
    decoys: bool,
    steps: Vec<StepC>,
    shell: Option<Hist>,
}

const NAMES: [&str; 9] = [
    "storage.json", "pfp store.json", "-x.json", "ünï.json", "no-extension", ".hidden", "a.tmp", "bad\u{f8ff}.json", "storage.json.bak",
];

const ODD_DIRS: [&str; 5] = ["~", "$HOME", "~root", "%APPDATA%", "file:"];

const HISTORY_NAMES: [&str; 5] = ["my history", "bad\u{f8ff}history", "-h", "ünï", "\u{f8ff}.txt"];

fn place_case() -> BoxedStrategy<PlaceCase> {
    let place = select(vec![
        Place::DefaultHome, Place::DefaultXdg, Place::Absolute, Place::Relative, Place::Subdirectory,
        Place::Parent, Place::Link, Place::LinkChain, Place::LinkedDirectory, Place::LinkedParent, Place::LinkedParent,
        Place::Odd(0), Place::Odd(1), Place::Odd(2), Place::Odd(3), Place::Odd(4),
    ]);
    let steps = vec((step_c(cmd()), any::<u8>()), 1..5);
    let shell = prop_oneof![3 => Just(None), 1 => Just(Some(Hist::Default)), 1 => Just(Some(Hist::Given)), 1 => Just(Some(Hist::Existing))];
    (
        (place, any::<u8>(), any::<u8>(), prop_oneof![3 => vec(cmd(), 0..4).prop_map(Some), 1 => Just(None)]),
        (select(vec![0o600u32, 0o640, 0o644, 0o660, 0o666]), select(vec![0o022u32, 0o077, 0o027, 0])),
        (prop::bool::weighted(0.25), any::<bool>(), prop::bool::weighted(0.15), vec(any::<u8>(), 0..4), any::<bool>()),
        steps,
        shell,
    )
        .prop_map(|((place, name, style, initial), (mode, umask), (user, owner, read_only, neighbours, decoys), steps, shell)| {
            let (mut steps, picks): (Vec<StepC>, Vec<u8>) = steps.into_iter().unzip();
            link(initial.as_deref().unwrap_or(&[]), steps.iter_mut().map(|s| &mut s.cmd).zip(picks));
            PlaceCase { place, name, style, initial, mode, umask, user, owner, read_only, neighbours, decoys, steps, shell }
        })
        .boxed()
}

#[derive(Clone, PartialEq)]
struct Node {
    kind: &'static str,
    mode: u32,
    uid: u32,
    gid: u32,
    data: Vec<u8>,
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let text: String = String::from_utf8_lossy(&self.data).chars().take(40).collect();
        write!(f, "{} mode {:o} owner {}:{} {:?}", self.kind, self.mode, self.uid, self.gid, text)
    }
}

type Tree = BTreeMap<PathBuf, Node>;

fn scan(dir: &Path, tree: &mut Tree) -> R {
    for e in std::fs::read_dir(dir).map_err(infra("directory"))? {
        let path = e.map_err(infra("directory"))?.path();
        let m = std::fs::symlink_metadata(&path).map_err(infra("metadata"))?;
        let (kind, data) = if m.is_dir() {
            scan(&path, tree)?;
            ("directory", Vec::new())
        } else if m.is_symlink() {
            use std::os::unix::ffi::OsStringExt;
            ("link", std::fs::read_link(&path).map_err(infra("link"))?.into_os_string().into_vec())
        } else {
            ("file", std::fs::read(&path).map_err(infra("file"))?)
        };
        tree.insert(path, Node { kind, mode: m.mode() & 0o7777, uid: m.uid(), gid: m.gid(), data });
    }
    Ok(())
}

fn snapshot(dir: &Path) -> R<Tree> {
    let mut tree = Tree::new();
    scan(dir, &mut tree)?;
    Ok(tree)
}

struct Layout<'a> {
    root: &'a Path,
    store: PathBuf,
    history: PathBuf,
    umask: u32,
    uid: u32,
}

impl Layout<'_> {
    /// What is different has to be the storage file, or the history file if it is allowed to.
    fn check(&self, before: &Tree, after: &Tree, store: bool, history: bool, what: &str) -> R {
        let show = |p: &Path| p.strip_prefix(self.root).unwrap_or(p).display().to_string();
        for (path, old) in before {
            let Some(new) = after.get(path) else { viol!("{}: {} disappeared", what, show(path)) };
            if new == old {
                continue;
            }
            let allowed = (*path == self.store && store) || (*path == self.history && history);
            ensure!(allowed, "{}: {} changed from {:?} to {:?}", what, show(path), old, new);
            if *path == self.store {
                let same = Node { data: old.data.clone(), ..new.clone() };
                ensure!(same == *old, "{}: {} changed from {:?} to {:?}", what, show(path), old, same);
            }
        }
        for (path, new) in after {
            if before.contains_key(path) {
                continue;
            }
            if new.kind == "directory" && store && self.store.starts_with(path) {
                continue;
            }
            let allowed = (*path == self.store && store) || (*path == self.history && history);
            ensure!(allowed && new.kind == "file", "{}: {} {} appeared", what, new.kind, show(path));
            ensure!(new.mode & (self.umask | 0o111) == 0, "{}: {} was created with mode {:o}, umask {:o}", what, show(path), new.mode, self.umask);
            ensure!(new.uid == self.uid, "{}: {} belongs to {}", what, show(path), new.uid);
        }
        Ok(())
    }
}

fn place_test(ctx: &Ctx, case: &PlaceCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    let root = env.dir.0.clone();
    let name = NAMES[case.name as usize % NAMES.len()];
    let hist_name = HISTORY_NAMES[case.style as usize / 32 % HISTORY_NAMES.len()];
    for d in ["cwd", "store", "other", "tmp", "home/.config"] {
        std::fs::create_dir_all(root.join(d)).map_err(infra("directory"))?;
    }
    let app = match case.place {
        Place::DefaultXdg => root.join("xdg/PfP"),
        _ => root.join("home/.config/PfP"),
    };
    let base = root.display().to_string();
    let (argument, store): (Option<String>, PathBuf) = match case.place {
        Place::DefaultHome | Place::DefaultXdg => (None, app.join("storage.json")),
        Place::Absolute => (Some(format!("{}/store/{}", base, name)), root.join("store").join(os(name))),
        Place::Relative if case.style & 8 == 0 => (Some(name.to_owned()), root.join("cwd").join(os(name))),
        Place::Relative => (Some(format!("././/{}", name)), root.join("cwd").join(os(name))),
        Place::Subdirectory => (Some(format!("sub dir/x/{}", name)), root.join("cwd/sub dir/x").join(os(name))),
        Place::Parent => (Some(format!("../store/{}", name)), root.join("store").join(os(name))),
        Place::Link => (Some(format!("{}/store/link", base)), root.join("other/real.json")),
        Place::LinkChain => ("../other/link1".to_owned().into(), root.join("store/final.json")),
        Place::LinkedDirectory => (Some(format!("{}/linkdir/{}", base, name)), root.join("store").join(os(name))),
        Place::LinkedParent if case.style & 8 == 0 => (Some(format!("{}/linkdir/../{}", base, name)), root.join("store").join(os(name))),
        Place::LinkedParent => (Some(format!("../linkdir/../{}", name)), root.join("store").join(os(name))),
        Place::Odd(i) => {
            let dir = ODD_DIRS[i as usize % ODD_DIRS.len()];
            (Some(format!("{}/{}", dir, name)), root.join("cwd").join(dir).join(os(name)))
        }
    };
    match case.place {
        Place::Link => symlink("../other/real.json", root.join("store/link")),
        Place::LinkChain => symlink("link2", root.join("other/link1")).and_then(|_| symlink(root.join("store/final.json"), root.join("other/link2"))),
        Place::LinkedDirectory => symlink("store", root.join("linkdir")),
        Place::LinkedParent => std::fs::create_dir_all(root.join("store/sub")).and_then(|_| symlink("store/sub", root.join("linkdir"))),
        Place::Odd(i) if case.style & 16 != 0 => std::fs::create_dir_all(root.join("cwd").join(ODD_DIRS[i as usize % ODD_DIRS.len()])),
        _ => Ok(()),
    }
    .map_err(infra("link"))?;
    if case.place == Place::DefaultXdg {
        std::fs::create_dir_all(root.join("xdg")).map_err(infra("directory"))?;
        env.opts.env.push(("XDG_CONFIG_HOME".to_owned(), format!("{}/xdg", base)));
    }
    env.opts.env.push(("TMPDIR".to_owned(), format!("{}/tmp", base)));
    env.opts.cwd = Some(root.join("cwd"));
    env.opts.umask = Some(case.umask);
    env.place = Some(match &argument {
        None => vec![],
        Some(a) => match case.style % 4 {
            0 if !a.starts_with('-') => vec!["-c".to_owned(), a.clone()],
            1 if !a.starts_with('-') => vec!["--storage".to_owned(), a.clone()],
            2 => vec![format!("-c{}", a)],
            _ => vec![format!("--storage={}", a)],
        },
    });
    env.store = store.clone();

    // Other files, all of them have to stay as they are
    let primary = "primary1";
    let parent = store.parent().unwrap().to_owned();
    let mut others: Vec<PathBuf> = Vec::new();
    if case.decoys {
        for p in [
            root.join("cwd/storage.json"), root.join("home/.config/PfP/storage.json"), root.join("home/storage.json"),
            root.join("store/storage.json"), root.join("cwd/history.txt"), root.join("home/.config/storage.json"),
        ] {
            if p != store {
                others.push(p);
            }
        }
    }
    let file = store.file_name().unwrap().to_owned();
    let near = |before: &str, after: &str| {
        let mut n = std::ffi::OsString::from(before);
        n.push(&file);
        n.push(after);
        parent.join(n)
    };
    for n in &case.neighbours {
        let p = match n % 12 {
            0 => near("", ".bak"),
            1 => near("", "~"),
            2 => near("", ".tmp"),
            3 => near(".", ".swp"),
            4 => near("", ".new"),
            5 => near(".", ".tmp"),
            6 => store.with_extension("tmp"),
            7 => store.with_extension("bak"),
            8 => near("", ".old"),
            9 => parent.join(".pfp-1-0.tmp"),
            10 => near("#", "#"),
            _ => near("", ".lock"),
        };
        if p != store {
            others.push(p);
        }
    }
    let decoy = {
        let (_, raw) = build("other password", &[Cmd::Add {
            id: Target { site: "decoy".to_owned(), name: "me".to_owned(), rev: None }, len: Some(5), set: 3, yes: true, replies: vec![],
        }]);
        refimpl::file_for(&raw)
    };
    for (i, p) in others.iter().enumerate() {
        std::fs::create_dir_all(p.parent().unwrap()).map_err(infra("directory"))?;
        let data = if i % 2 == 0 { decoy.clone() } else { format!("neighbour {}", i).into_bytes() };
        std::fs::write(p, data).map_err(infra("neighbour"))?;
    }

    let uid = if case.user { 65534 } else { 0 };
    let mut model = Model::new(primary);
    let initial = match &case.initial {
        // The links have to lead somewhere to be followed
        None if matches!(case.place, Place::Link | Place::LinkChain) => Some(&[][..]),
        i => i.as_deref(),
    };
    let locked_file = initial.is_some() && case.read_only && case.user;
    if let Some(initial) = initial {
        // Listing removes records of sites without passwords, saves the file then
        let (m, raw) = build(primary, initial);
        let raw = if locked_file { writer(primary).write(&m) } else { raw };
        model = m;
        std::fs::create_dir_all(&parent).map_err(infra("directory"))?;
        env.write(&raw)?;
        let mode = if case.read_only && case.user { case.mode & 0o444 } else { case.mode };
        std::fs::set_permissions(&store, std::fs::Permissions::from_mode(mode)).map_err(infra("mode"))?;
    }
    if case.user {
        env.opts.uid = Some(uid);
        let mut all = vec![root.clone()];
        while let Some(p) = all.pop() {
            std::os::unix::fs::lchown(&p, Some(uid), Some(uid)).map_err(infra("owner"))?;
            if p.is_dir() && !p.is_symlink() {
                all.extend(std::fs::read_dir(&p).map_err(infra("directory"))?.filter_map(|e| e.ok()).map(|e| e.path()));
            }
        }
        obs.class("unprivileged user");
    } else if case.owner && initial.is_some() {
        chown(&store, Some(12345), Some(54321)).map_err(infra("owner"))?;
        obs.class("file of somebody else");
    }
    let history = match case.shell {
        Some(Hist::Given) | Some(Hist::Existing) => root.join("other").join(os(hist_name)),
        _ => app.join("history.txt"),
    };
    if case.shell == Some(Hist::Existing) {
        std::fs::write(&history, "#V2\nlist\n").map_err(infra("history"))?;
        if case.user {
            chown(&history, Some(uid), Some(uid)).map_err(infra("owner"))?;
        }
    }
    let layout = Layout { root: &root, store: store.clone(), history, umask: case.umask, uid };

    let mut before = snapshot(&root)?;
    if initial.is_none() {
        let events = [
            Ev::Ask(P_NEW, Ans::Line(primary.to_owned())),
            Ev::Ask(P_REPEAT, Ans::Line(primary.to_owned())),
            Ev::Out(Part::Line("New primary password set for ".to_owned())),
        ];
        env.run(&s(&["set-primary"]), &events, 0, primary)?;
        let after = snapshot(&root)?;
        layout.check(&before, &after, true, false, "set-primary")?;
        env.check_model(&model)?;
        before = after;
        obs.class("set up by the application");
    }

    let mut changed = 0;
    if locked_file {
        obs.class("read-only file");
        for step in case.steps.iter().take(2) {
            let cmd = step.cmd.normalized(&model);
            let mut m = model.clone();
            let predicted = cmd.predict(&mut m, true);
            let mut events = Vec::new();
            if cmd.needs_unlock() {
                events.extend(unlock_events(&[], primary));
            }
            let mut expected = predicted.events.clone();
            let mut status = predicted.status;
            if status == 0 && writes(&cmd, &predicted.events) {
                // Everything as usual up to the message reporting success
                expected.pop();
                expected.push(Ev::Out(Part::Line("Failed writing storage file (".to_owned())));
                status = 1;
            }
            events.extend(expected);
            env.run(&cmd.args(step.style), &events, status, primary)?;
            let after = snapshot(&root)?;
            layout.check(&before, &after, false, false, &format!("{:?}, read-only file", cmd))?;
            before = after;
        }
        env.check_model(&model)?;
        obs.nontrivial();
        return Ok(());
    }
    match &case.shell {
        None => {
            for step in case.steps.iter().take(3) {
                let old = model.clone();
                one_shot(&env, step, &mut model)?;
                changed += (old != model) as u32;
                let after = snapshot(&root)?;
                layout.check(&before, &after, touches(&step.cmd), false, &format!("{:?}", step.cmd))?;
                env.check_model(&model)?;
                before = after;
            }
        }
        Some(h) => {
            obs.class("shell");
            let mut args = s(&["shell"]);
            match (h, case.style & 16) {
                (Hist::Default, _) => {}
                (_, 0) => args.extend(s(&["-s", &format!("../other/{}", hist_name)])),
                _ => args.push(format!("--history={}/other/{}", base, hist_name)),
            }
            let mut proc = env.start(&args)?;
            let mut events = Vec::new();
            if !layout.history.exists() {
                events.push(Ev::Out(Part::Line("Did not load previous command history from ".to_owned())));
            }
            events.push(t(GREETING));
            play(&mut proc, &events, Stop::Prompt(P_SHELL), "")?;
            let mut shell = Shell { proc, locked: true };
            for step in &case.steps {
                let old = model.clone();
                shell.step(step, &mut model)?;
                changed += (old != model) as u32;
                let after = snapshot(&root)?;
                layout.check(&before, &after, touches(&step.cmd), false, &format!("{:?} in the shell", step.cmd))?;
                before = after;
            }
            let mut events = Vec::new();
            if !layout.history.parent().unwrap().exists() {
                events.push(Ev::Out(Part::Line("Failed saving history to ".to_owned())));
                obs.class("no place for the history");
            }
            shell.proc.send("exit")?;
            play(&mut shell.proc, &events, Stop::Exit(0), "")?;
            let after = snapshot(&root)?;
            layout.check(&before, &after, false, true, "leaving the shell")?;
            if events.is_empty() {
                ensure!(after.contains_key(&layout.history), "no history was saved");
            }
            env.check_model(&model)?;
        }
    }
    if changed > 0 {
        obs.nontrivial();
        obs.class(match case.place {
            Place::DefaultHome => "default place",
            Place::DefaultXdg => "default place with XDG_CONFIG_HOME",
            Place::Absolute => "absolute path",
            Place::Relative => "relative path",
            Place::Subdirectory => "path with directories",
            Place::Parent => "path via the parent directory",
            Place::Link => "symbolic link",
            Place::LinkChain => "chain of symbolic links",
            Place::LinkedDirectory => "linked directory",
            Place::LinkedParent => "parent of a linked directory",
            Place::Odd(_) => "directory with an odd name",
        });
    }
    Ok(())
}

// Nothing there to begin with

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Nowhere {
    Default,
    DefaultXdg,
    /// Doesn't count, it has to be absolute
    RelativeXdg,
    EmptyXdg,
    File,
    Missing,
    Directory,
    FullDirectory,
    BelowFile,
    Dangling,
    Loop,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AbsentCase {
    place: Nowhere,
    what: AbsentWhat,
    style: u8,
    decoys: bool,
    /// Directories which exist at the default place
    depth: u8,
    /// An unprivileged user, possibly without write access to anything
    user: Option<bool>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AbsentWhat {
    Command(StepC),
    Shell,
    SetPrimary(bool),
    Mismatch,
    Short,
    Info(u8),
}

fn absent_case() -> BoxedStrategy<AbsentCase> {
    use Nowhere::*;
    let place = select(vec![Default, Default, DefaultXdg, RelativeXdg, EmptyXdg, File, Missing, Directory, FullDirectory, BelowFile, Dangling, Loop]);
    let what = prop_oneof![
        4 => step_c(cmd()).prop_map(AbsentWhat::Command),
        1 => Just(AbsentWhat::Shell),
        3 => any::<bool>().prop_map(AbsentWhat::SetPrimary),
        1 => Just(AbsentWhat::Mismatch),
        1 => Just(AbsentWhat::Short),
        1 => any::<u8>().prop_map(AbsentWhat::Info),
    ];
    (place, what, any::<u8>(), any::<bool>(), 0u8..4, prop_oneof![3 => Just(None), 1 => any::<bool>().prop_map(Some)])
        .prop_map(|(place, what, style, decoys, depth, user)| AbsentCase { place, what, style, decoys, depth, user })
        .boxed()
}

fn absent_test(ctx: &Ctx, case: &AbsentCase, obs: &mut Obs) -> R {
    let mut env = Env::new(ctx);
    let root = env.dir.0.clone();
    let base = root.display().to_string();
    for d in ["cwd", "other", "tmp", "home"] {
        std::fs::create_dir_all(root.join(d)).map_err(infra("directory"))?;
    }
    let home = root.join("home");
    let mut app = home.join(".config/PfP");
    env.opts.cwd = Some(root.join("cwd"));
    env.opts.env.push(("TMPDIR".to_owned(), format!("{}/tmp", base)));
    env.opts.umask = Some(0o022);
    let mut xdg = |v: String| env.opts.env.push(("XDG_CONFIG_HOME".to_owned(), v));
    match case.place {
        Nowhere::DefaultXdg => {
            xdg(format!("{}/xdg/conf", base));
            app = root.join("xdg/conf/PfP");
        }
        Nowhere::RelativeXdg => xdg(["xdg", "./xdg", "../other"][case.style as usize % 3].to_owned()),
        Nowhere::EmptyXdg => xdg(String::new()),
        _ => {}
    }
    let default = matches!(case.place, Nowhere::Default | Nowhere::DefaultXdg | Nowhere::RelativeXdg | Nowhere::EmptyXdg);
    match (default, case.depth) {
        (false, _) | (true, 3) => std::fs::create_dir_all(&app),
        (true, 2) => std::fs::create_dir_all(app.parent().unwrap()),
        (true, 1) => std::fs::create_dir_all(app.parent().unwrap().parent().unwrap()),
        _ => Ok(()),
    }
    .map_err(infra("directory"))?;
    let given = root.join("other/given");
    // File to be written, none if that cannot work
    let store = match case.place {
        _ if default => Some(app.join("storage.json")),
        Nowhere::File => Some(given.clone()),
        Nowhere::Missing => Some(given.join("a b/c/file")),
        Nowhere::Dangling => Some(root.join("other/target")),
        _ => None,
    };
    match case.place {
        Nowhere::Directory | Nowhere::FullDirectory => {
            std::fs::create_dir(&given).map_err(infra("directory"))?;
            if case.place == Nowhere::FullDirectory {
                for f in ["storage.json", "file", "history.txt"] {
                    std::fs::write(given.join(f), "something").map_err(infra("file"))?;
                }
            }
        }
        Nowhere::BelowFile => std::fs::write(&given, "a file").map_err(infra("file"))?,
        Nowhere::Dangling => symlink("target", &given).map_err(infra("link"))?,
        Nowhere::Loop => symlink("given", &given).map_err(infra("link"))?,
        _ => {}
    }
    let argument = match case.place {
        _ if default => None,
        Nowhere::Missing => Some(given.join("a b/c/file")),
        Nowhere::BelowFile => Some(given.join("file")),
        Nowhere::Directory | Nowhere::FullDirectory => Some(match case.style % 6 {
            0 => PathBuf::from(format!("{}/", given.display())),
            1 => PathBuf::from(format!("{}/.", given.display())),
            2 => PathBuf::from(format!("{}/..", given.display())),
            3 => PathBuf::from("."),
            4 => PathBuf::from(".."),
            _ => given.clone(),
        }),
        _ => Some(given.clone()),
    };
    if case.decoys {
        let (_, raw) = build("decoy password", &[]);
        let data = refimpl::file_for(&raw);
        let candidates = [
            "cwd/storage.json", "cwd/PfP/storage.json", "cwd/xdg/PfP/storage.json", "other/PfP/storage.json", "other/storage.json", "home/storage.json",
            "home/.config/PfP/storage.json", "home/.local/share/PfP/storage.json", "cwd/history.txt", "home/.PfP/storage.json", "home/.cache/PfP/storage.json",
        ];
        for p in candidates.iter().map(|p| root.join(p)).filter(|p| Some(p) != store.as_ref()) {
            std::fs::create_dir_all(p.parent().unwrap()).map_err(infra("directory"))?;
            std::fs::write(p, &data).map_err(infra("decoy"))?;
        }
    }
    env.place = Some(argument.iter().flat_map(|a| ["-c".to_owned(), a.display().to_string()]).collect());
    let mut uid = 0;
    let mut writable = true;
    if let Some(w) = case.user {
        uid = 65534;
        env.opts.uid = Some(uid);
        writable = w;
        let mut all = vec![root.clone()];
        while let Some(p) = all.pop() {
            std::os::unix::fs::lchown(&p, Some(uid), Some(uid)).map_err(infra("owner"))?;
            if p.is_dir() && !p.is_symlink() {
                if !writable {
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o555)).map_err(infra("mode"))?;
                }
                all.extend(std::fs::read_dir(&p).map_err(infra("directory"))?.filter_map(|e| e.ok()).map(|e| e.path()));
            }
        }
        obs.class(if writable { "unprivileged user" } else { "no write access" });
    }

    let before = snapshot(&root)?;
    let layout = Layout { root: &root, store: store.clone().unwrap_or_default(), history: PathBuf::new(), umask: 0o022, uid };
    let primary = "primary1";
    let ask = |second: &str| vec![Ev::Ask(P_NEW, Ans::Line(primary.to_owned())), Ev::Ask(P_REPEAT, Ans::Line(second.to_owned()))];
    let missing = vec![Ev::Out(Part::Line("Failed reading storage file (".to_owned()))];
    let reads = |mut events: Vec<Ev>| {
        // What exists as a directory counts as existing data
        if matches!(case.place, Nowhere::Directory | Nowhere::FullDirectory) {
            events.insert(0, Ev::Ask(P_RESET, Ans::Line("yes".to_owned())));
        }
        events
    };
    let mut created = false;
    match &case.what {
        AbsentWhat::Command(step) => {
            let cmd = step.cmd.normalized(&Model::new(primary));
            let args = cmd.args(step.style);
            let mut proc = env.start(&args)?;
            let (text, stop) = proc.text()?;
            let Stop::Exit(status) = stop else { viol!("{:?} without storage file: {:?} after {:?}", args, stop, text) };
            ensure!((1..=2).contains(&status), "{:?} without storage file: exit status {}, {:?}", args, status, text);
            if status == 1 {
                ensure!(text.starts_with("Failed reading storage file ("), "{:?} without storage file: {:?}", args, text);
            }
        }
        AbsentWhat::Shell => drop(env.run(&s(&["shell"]), &missing, 1, primary)?),
        AbsentWhat::Mismatch => {
            let mut events = reads(ask("primary2"));
            events.push(t("Primary passwords don't match.\n"));
            env.run(&s(&["set-primary"]), &events, 1, primary)?;
        }
        AbsentWhat::Short => {
            let events = reads(vec![
                Ev::Ask(P_NEW, Ans::Line("short".to_owned())),
                t("Primary password length should be at least 6 characters.\n"),
            ]);
            env.run(&s(&["set-primary"]), &events, 1, primary)?;
        }
        AbsentWhat::Info(n) => {
            let args = [&["--help"][..], &["--version"], &["help", "add"], &["list", "--help"], &["set-primary", "--help"], &["frobnicate"], &[]];
            let args = s(args[*n as usize % args.len()]);
            let mut proc = env.start(&args)?;
            let (text, stop) = proc.text()?;
            let Stop::Exit(status) = stop else { viol!("{:?}: {:?} after {:?}", args, stop, text) };
            ensure!((0..=2).contains(&status) && !text.is_empty(), "{:?}: exit status {}, {:?}", args, status, text);
        }
        AbsentWhat::SetPrimary(yes) => {
            created = store.is_some() && writable;
            let mut events = if *yes { ask(primary) } else { reads(ask(primary)) };
            events.push(Ev::Out(Part::Line(if created { "New primary password set for " } else { "Failed " }.to_owned())));
            let args = if *yes { s(&["set-primary", "-y"]) } else { s(&["set-primary"]) };
            env.run(&args, &events, !created as i32, primary)?;
        }
    }
    let after = snapshot(&root)?;
    layout.check(&before, &after, created, false, &format!("{:?}", case.what))?;
    if created {
        env.store = store.unwrap();
        env.check_model(&Model::new(primary))?;
        obs.class("created");
    } else {
        obs.class("nothing to be created");
    }
    obs.nontrivial();
    Ok(())
}

fn touches(cmd: &Cmd) -> bool {
    cmd.mutates() || matches!(cmd, Cmd::List { .. })
}

/// Whether the command saves anything
fn writes(cmd: &Cmd, events: &[Ev]) -> bool {
    cmd.mutates()
        && matches!(events.last(), Some(Ev::Out(Part::T(t))) if [
            "Password added.\n", "Password removed.\n", "Notes stored.\n", "Notes removed.\n", "Alias added.\n", "Alias removed.\n",
        ].contains(&t.as_str()))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        rule: "Generated storage file locations (default, -c in all spellings, relative, linked), file modes, owners, umask, unprivileged users, files next to the storage file and in all other places a file might be looked for, then generated commands, one-shot or in a shell; everything in the surrounding directories compared before and after each command. nowhere: no storage file to begin with, at default places with more or less of the directories existing and XDG_CONFIG_HOME set to anything, a directory (also without a name, like ..), a path below a file, dangling and circular links, without write access; nothing but the file to be created by set-primary may appear. exposure: a file of mode 600 changed by generated commands, each file-related call recorded; no file with contents has more permissions at any time. Non-trivial: some command changed the storage file, or it wasn't writable, or there was none.",
        assumptions: &[
            "home, configuration, temporary, working and storage directories are inspected, nothing else of the file system",
        ],
        subs: vec![
            Box::new(Gen {
                name: "places",
                quick: 500,
                thorough: 12000,
                strat: place_case,
                test: place_test,
                shrink: 120,
            }),
            Box::new(Gen {
                name: "nowhere",
                quick: 800,
                thorough: 12000,
                strat: absent_case,
                test: absent_test,
                shrink: 200,
            }),
            Box::new(Gen {
                name: "exposure",
                quick: 60,
                thorough: 1500,
                strat: crate::faults::save_case,
                test: crate::faults::exposure_test,
                shrink: 40,
            }),
        ],
    }]
}
