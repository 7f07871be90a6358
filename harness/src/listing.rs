//! The list command: C18.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::refimpl;
use crate::session::{check_touched, one_shot, raw_with_empty, Shell, StepC};
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Contents {
    pub primary: String,
    pub entries: Vec<(Target, Val, String)>,
    pub aliases: Vec<(String, String)>,
    pub empty: Vec<String>,
    /// Records for sites without passwords are there
    pub records: bool,
    pub pretty: bool,
    /// Additional sites, passwords per site, aliases per site
    #[serde(default)]
    pub bulk: (u16, u8, u8),
}

pub fn contents() -> BoxedStrategy<Contents> {
    let name = prop_oneof![
        3 => cli_name(),
        2 => pick(&["a", "a b", "a  b", "a!", "a 2", "b", "B", "ä", "a\"", "a10", "a9", "a-b", "~", "(", "a (stored)"]),
    ];
    let rev = prop_oneof![
        3 => cli_rev(),
        2 => pick(&["9", "10", "z", "b", " ", "2 ", "A", "a", "B", "1 1"]).prop_map(Some),
    ];
    let rev2 = pick(&["a", "A", "b", "B", "10", "9", "2", "02", " ", "1 1", "a1", "Z", "_", "ä", "Ä"]).prop_map(Some);
    let id = (cli_site(), name, rev).prop_map(|(site, name, rev)| Target { site, name, rev });
    let val = prop_oneof![
        (1usize..=30, 1u8..16).prop_map(|(len, set)| Val::Gen { len, set }),
        cli_secret().prop_map(|s| Val::Stored(s.trim().to_owned())),
        printable(12).prop_map(Val::Stored),
    ];
    let entry = (id, val, prop_oneof![2 => Just(String::new()), 1 => cli_secret()]);
    let other = pick(&["alias.net", "other.org", "x.com", "aaa.com", "zz"]);
    let alias = (
        prop_oneof![2 => other, 1 => cli_site()],
        prop_oneof![3 => cli_site(), 1 => pick(&["lonely.com", "x.com", ""])],
    );
    (
        cli_primary(),
        // Some with further revisions
        vec((entry, prop_oneof![3 => Just(vec![]), 1 => vec(rev2, 1..4)]), 0..9),
        vec(alias, 0..5),
        vec(cli_site(), 0..3),
        any::<bool>(),
        any::<bool>(),
        prop_oneof![20 => Just((0u16, 0u8, 0u8)), 1 => (1u16..30, 0u8..4, 0u8..3), 1 => (0u16..4, 1u8..120, 0u8..40)],
    )
        .prop_map(|(primary, entries, aliases, empty, records, pretty, bulk)| Contents {
            primary,
            entries: entries
                .into_iter()
                .flat_map(|(entry, revs)| {
                    let (id, val, notes) = entry.clone();
                    let more = revs.into_iter().map(move |rev| (Target { rev, ..id.clone() }, val.clone(), notes.clone()));
                    std::iter::once(entry).chain(more.collect::<Vec<_>>())
                })
                .collect(),
            aliases,
            empty,
            records,
            pretty,
            bulk,
        })
        .boxed()
}

impl Contents {
    pub fn model(&self) -> Model {
        let mut model = Model::new(&self.primary);
        for (a, b) in &self.aliases {
            let _ = model.set_alias(a, b);
        }
        for (id, val, notes) in &self.entries {
            let rev = id.rev.as_deref().unwrap_or("1");
            model.set(&id.site, &id.name, rev, val.clone());
            model.set_notes(&id.site, &id.name, rev, notes).unwrap();
        }
        let (sites, names, aliases) = self.bulk;
        for i in 0..sites {
            let site = format!("bulk{}.com", i);
            for n in 0..names {
                let rev = ["1", "2", "10"][n as usize % 3];
                let val = if n % 16 == 15 { Val::Gen { len: 12, set: 15 } } else { Val::Stored(format!("value {} {}", i, n)) };
                model.set(&site, &format!("me{}", n / 3), rev, val);
            }
            for n in 0..aliases {
                let _ = model.set_alias(&format!("alias{}.bulk{}.com", n, i), &site);
            }
        }
        for site in &self.empty {
            let site = model.resolve(site);
            model.ever.insert(site);
        }
        model
    }

    pub fn raw(&self, model: &Model) -> refimpl::Raw {
        if self.records {
            raw_with_empty(model)
        } else {
            writer(&self.primary).write(model)
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ListCase {
    contents: Contents,
    lists: Vec<(Cmd, u8)>,
    shell: bool,
    /// An entry is removed before the last listing
    remove: Option<u8>,
}

fn list_case() -> BoxedStrategy<ListCase> {
    (contents(), vec((list_cmd(), any::<u8>()), 1..7), any::<bool>(), prop::option::weighted(0.3, any::<u8>()))
        .prop_map(|(contents, mut lists, shell, remove)| {
            if !shell {
                lists.truncate(2);
            }
            ListCase { contents, lists, shell, remove }
        })
        .boxed()
}

fn list_test(ctx: &Ctx, case: &ListCase, obs: &mut Obs) -> R {
    let mut model = case.contents.model();
    let env = Env::new(ctx);
    let raw = case.contents.raw(&model);
    if case.contents.pretty {
        // Another layout of the same data
        let value: serde_json::Value = serde_json::from_slice(&refimpl::file_for(&raw)).unwrap();
        std::fs::write(&env.store, serde_json::to_vec_pretty(&value).unwrap()).map_err(infra("storage file"))?;
    } else {
        env.write(&raw)?;
    }
    let mut shell = if case.shell { Some(Shell::start(&env, false)?) } else { None };
    let mut steps: Vec<StepC> = case
        .lists
        .iter()
        .map(|(cmd, style)| StepC { cmd: cmd.normalized(&model), style: *style, attempts: vec![] })
        .collect();
    if let Some(n) = case.remove {
        if let Some((site, name, rev)) = model.entries.keys().nth(n as usize % model.entries.len().max(1)).cloned() {
            let id = Target { site, name, rev: Some(rev) };
            let at = steps.len() - 1;
            steps.insert(at, StepC { cmd: Cmd::Remove { id }, style: 0, attempts: vec![] });
        }
    }
    for step in &steps {
        let before = env.raw()?;
        let before_bytes = env.bytes()?;
        let old = model.clone();
        match &mut shell {
            Some(shell) => {
                shell.step(step, &mut model)?;
            }
            None => {
                one_shot(&env, step, &mut model)?;
            }
        }
        obs.extra += 1;
        let after = env.raw()?;
        check_touched(&before, &after, &old, &model, &step.cmd)?;
        env.check_model(&model)?;
        if let Cmd::List { site, name, show, recovery, verbose } = &step.cmd {
            let site = site.as_deref().unwrap_or("*");
            let name = name.as_deref().unwrap_or("*");
            ensure!(
                after != before || env.bytes()? == before_bytes,
                "list rewrote the storage file without changing anything in it"
            );
            let matching = model
                .entries
                .keys()
                .filter(|(s, n, _)| refimpl::wild(site, s) && refimpl::wild(name, n))
                .count();
            if matching > 0 {
                obs.nontrivial();
                obs.class("entries found");
                if matching < model.entries.len() {
                    obs.class("some but not all entries found");
                }
            } else {
                obs.class("nothing found through site names");
            }
            for (a, s) in &model.aliases {
                if refimpl::wild(site, a) && !refimpl::wild(site, s) {
                    obs.class(if model.has_passwords(s) { "reached through an alias" } else { "alias of an empty site" });
                }
            }
            if after != before {
                obs.class("records of empty sites removed");
            }
            for (flag, class) in [(show, "-s"), (recovery, "-r"), (verbose, "-v")] {
                if *flag {
                    obs.class(class);
                }
            }
        }
    }
    if let Some(shell) = shell {
        shell.exit(false)?;
    }
    Ok(())
}

fn double_www(ctx: &Ctx) -> R {
    let primary = "foobar";
    let env = Env::new(ctx);
    env.write(&writer(primary).base())?;
    let mut model = Model::new(primary);
    let id = Target { site: "www.www.a.com".to_owned(), name: "me".to_owned(), rev: None };
    let list = Cmd::List { site: None, name: None, show: false, recovery: false, verbose: false };
    for cmd in [Cmd::Add { id, len: None, set: 15, yes: false, replies: vec![] }, list] {
        one_shot(&env, &StepC { cmd, style: 0, attempts: vec![] }, &mut model)?;
    }
    env.check_model(&model)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        level: "exploration",
        rule: "Storage files with generated entries, aliases (target with or without record) and records of empty sites, listed with generated patterns and flags, one-shot or several times in a shell; complete output predicted. Non-trivial: some listing matched an entry.",
        assumptions: &[
            "names contain no line breaks and no NUL",
            "patterns exclude the recorded wildmatch problem, site names the recorded problem with double www. prefixes",
        ],
        subs: vec![
            Box::new(Gen {
                name: "listing",
                quick: 600,
                thorough: 10000,
                strat: list_case,
                test: list_test,
                shrink: 150,
            }),
            Box::new(Probe { key: "double-www", test: double_www }),
        ],
    }]
}
