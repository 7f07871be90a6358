//! Reference model of the password storage.

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Gen { len: usize, set: u8 },
    Stored(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Entry {
    pub val: Val,
    pub notes: String,
}

pub type Id = (String, String, String);

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Model {
    pub primary: String,
    pub aliases: BTreeMap<String, String>,
    pub entries: BTreeMap<Id, Entry>,
    /// Sites which had a record at some point.
    pub ever: BTreeSet<String>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum MErr {
    KeyMissing,
    NoSuchAlias,
    AliasToSelf,
    SiteHasPasswords,
}

pub fn normalize(site: &str) -> &str {
    if site.starts_with("www.") {
        &site[4..]
    } else {
        site
    }
}

pub fn norm_rev(revision: &str) -> &str {
    if revision == "1" {
        ""
    } else {
        revision
    }
}

impl Model {
    pub fn new(primary: &str) -> Self {
        Self {
            primary: primary.to_owned(),
            ..Self::default()
        }
    }

    pub fn resolve(&self, site: &str) -> String {
        let n = normalize(site);
        self.aliases.get(n).map_or(n, |a| a.as_str()).to_owned()
    }

    pub fn id(&self, site: &str, name: &str, revision: &str) -> Id {
        (
            self.resolve(site),
            name.to_owned(),
            norm_rev(revision).to_owned(),
        )
    }

    pub fn get(&self, site: &str, name: &str, revision: &str) -> Option<&Entry> {
        self.entries.get(&self.id(site, name, revision))
    }

    pub fn set(&mut self, site: &str, name: &str, revision: &str, val: Val) {
        let id = self.id(site, name, revision);
        self.ever.insert(id.0.clone());
        self.entries.insert(
            id,
            Entry {
                val,
                notes: String::new(),
            },
        );
    }

    pub fn set_notes(&mut self, site: &str, name: &str, revision: &str, notes: &str) -> Result<(), MErr> {
        let id = self.id(site, name, revision);
        match self.entries.get_mut(&id) {
            None => Err(MErr::KeyMissing),
            Some(e) => {
                e.notes = notes.to_owned();
                Ok(())
            }
        }
    }

    pub fn remove(&mut self, site: &str, name: &str, revision: &str) -> Result<(), MErr> {
        let id = self.id(site, name, revision);
        self.entries.remove(&id).map(|_| ()).ok_or(MErr::KeyMissing)
    }

    pub fn has_passwords(&self, site: &str) -> bool {
        self.entries.keys().any(|(s, _, _)| s == site)
    }

    /// Acceptable errors, empty if the operation should succeed.
    pub fn alias_errors(&self, site: &str, target: &str) -> Vec<MErr> {
        let n = normalize(site).to_owned();
        let t = self.resolve(target);
        let mut errors = Vec::new();
        if self.has_passwords(&n) {
            errors.push(MErr::SiteHasPasswords);
        }
        if n == t {
            errors.push(MErr::AliasToSelf);
        }
        errors
    }

    pub fn set_alias(&mut self, site: &str, target: &str) -> Result<(), Vec<MErr>> {
        let errors = self.alias_errors(site, target);
        if !errors.is_empty() {
            return Err(errors);
        }
        let n = normalize(site).to_owned();
        let t = self.resolve(target);
        for target in self.aliases.values_mut() {
            if *target == n {
                *target = t.clone();
            }
        }
        self.ever.insert(n.clone());
        self.ever.insert(t.clone());
        self.aliases.insert(n, t);
        Ok(())
    }

    pub fn get_alias(&self, site: &str) -> Result<String, MErr> {
        self.aliases
            .get(normalize(site))
            .cloned()
            .ok_or(MErr::NoSuchAlias)
    }

    pub fn remove_alias(&mut self, site: &str) -> Result<(), MErr> {
        self.aliases
            .remove(normalize(site))
            .map(|_| ())
            .ok_or(MErr::NoSuchAlias)
    }

    pub fn value(&self, id: &Id, entry: &Entry) -> String {
        match &entry.val {
            Val::Stored(p) => p.clone(),
            Val::Gen { len, set } => {
                crate::refimpl::generate(&self.primary, &id.0, &id.1, &id.2, *len, *set)
            }
        }
    }
}
