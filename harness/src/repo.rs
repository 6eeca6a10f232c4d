//! Repositories of sqlite3 files: generated content, the files, and the answers the content calls for.

use crate::util::*;
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error};
use i18n_utility::LanguageTagRegistry;
use rusqlite::Connection;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Column {
    pub name: &'static str,
    pub kind: &'static str,
    pub not_null: bool,
    pub key: bool,
    /// What else the shipped schema states.
    pub extra: &'static str,
}

const fn c(name: &'static str, kind: &'static str, not_null: bool, extra: &'static str) -> Column {
    Column { name, kind, not_null, key: false, extra }
}

const ROW_ID: Column = Column { name: "rowID", kind: "INTEGER", not_null: true, key: true, extra: "" };

/// The schema, as crates/provider/sqlite3/l10n/schema.sql documents it.
pub const SCHEMA: [(&str, &[Column], &str); 6] = [
    (
        "component",
        &[
            ROW_ID,
            c("identifier", "TEXT", true, "UNIQUE"),
            c("languageTag", "TEXT", true, "REFERENCES language (tag) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("comment", "TEXT", false, ""),
            c("added", "DATE", true, ""),
        ],
        "",
    ),
    (
        "contributor",
        &[
            ROW_ID,
            c("component", "TEXT", true, "REFERENCES component (identifier) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("languageTag", "TEXT", true, "REFERENCES language (tag) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("contributor", "TEXT", true, ""),
            c("substituteFor", "TEXT", false, ""),
            c("comment", "TEXT", false, ""),
            c("verified", "DATE", false, ""),
        ],
        "UNIQUE (component, languageTag, contributor)",
    ),
    (
        "language",
        &[ROW_ID, c("tag", "TEXT", true, "UNIQUE"), c("englishName", "TEXT", false, ""), c("added", "DATE", true, "")],
        "",
    ),
    (
        "languageData",
        &[
            ROW_ID,
            c("component", "TEXT", true, "REFERENCES component (identifier) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("languageTag", "TEXT", true, "REFERENCES language (tag) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("count", "INTEGER", true, ""),
            c("ratio", "REAL", true, ""),
        ],
        "UNIQUE (component, languageTag)",
    ),
    (
        "metadata",
        &[
            ROW_ID,
            c("component", "TEXT", true, "REFERENCES component (identifier) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("key", "TEXT", true, ""),
            c("value", "TEXT", true, ""),
            c("comment", "TEXT", false, ""),
            c("verified", "DATE", false, ""),
        ],
        "UNIQUE (component, key)",
    ),
    (
        "pattern",
        &[
            ROW_ID,
            c("component", "TEXT", true, "REFERENCES component (identifier) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("identifier", "TEXT", true, ""),
            c("languageTag", "TEXT", true, "REFERENCES language (tag) ON DELETE RESTRICT ON UPDATE NO ACTION"),
            c("string", "TEXT", true, ""),
            c("comment", "TEXT", false, ""),
            c("verified", "DATE", false, ""),
        ],
        "CONSTRAINT u_IdentierLanguage UNIQUE (component, identifier, languageTag)",
    ),
];

pub fn create(table: &str, columns: &[String], constraint: &str) -> String {
    let mut parts: Vec<String> = columns.to_vec();
    if !constraint.is_empty() {
        parts.push(constraint.to_string());
    }
    format!("CREATE TABLE \"{table}\" ({});", parts.join(", "))
}

pub fn column(c: &Column) -> String {
    let mut s = format!("\"{}\" {}", c.name, c.kind);
    if c.key {
        s.push_str(" PRIMARY KEY AUTOINCREMENT");
    }
    if !c.extra.is_empty() {
        s.push(' ');
        s.push_str(c.extra);
    }
    if c.not_null {
        s.push_str(" NOT NULL");
    }
    s
}

/// One column with nothing but the properties that are required.
pub fn bare(name: &str, kind: &str, not_null: bool, key: bool, default: Option<&str>) -> String {
    let mut s = format!("\"{name}\" {kind}");
    if key {
        s.push_str(" PRIMARY KEY");
    }
    if not_null {
        s.push_str(" NOT NULL");
    }
    if let Some(d) = default {
        s.push_str(" DEFAULT ");
        s.push_str(d);
    }
    s
}

pub fn schema_sql() -> String {
    SCHEMA
        .iter()
        .map(|(table, columns, constraint)| create(table, &columns.iter().map(column).collect::<Vec<_>>(), constraint))
        .collect()
}

#[derive(Debug, Clone, Default)]
pub struct Db {
    /// component -> default language
    pub components: BTreeMap<String, String>,
    /// (component, identifier, tag) -> text
    pub patterns: BTreeMap<(String, String, String), String>,
    /// (component, tag, name)
    pub contributors: BTreeSet<(String, String, String)>,
}

#[derive(Debug, Clone, Default)]
pub struct Repo {
    pub aio: Option<Db>,
    pub own: BTreeMap<String, Db>,
}

pub const FAMILIES: [&[&str]; 9] = [
    &["fi", "fil", "fil-PH", "fi-FI", "f-", "fj"],
    &["en", "en-ZA", "en-GB", "en-Latn", "en-Latn-ZA", "en-US-posix", "enm", "en-Latn-GB-oxendict"],
    &["zh", "zh-Hant", "zh-Hant-TW", "zh-Hans-CN", "zh-TW", "zha", "zh-Hant-HK"],
    &["sr", "sr-Cyrl", "sr-Latn", "sr-Latn-RS", "sr-RS", "srn"],
    &["de", "de-1996", "de-DE", "de-DE-1996", "de-DE-1901", "den", "de-AT"],
    &["ca", "ca-ES", "ca-ES-valencia", "ca-valencia", "cad"],
    &["mn", "mni", "mn-Cyrl", "mn-Mong-CN", "mnc", "mn-MN"],
    &["it", "it-CH", "it-IT"],
    &["und", "und-Latn", "es-419", "es", "es-MX"],
];

fn tag(rng: &mut Rng) -> String {
    loop {
        let family = rng.pick(&FAMILIES);
        let t = rng.pick(family);
        if !t.ends_with('-') {
            return t.to_string();
        }
    }
}

/// Tags of two or three families.
pub fn languages(rng: &mut Rng) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for _ in 0..rng.range(1, 3) {
        let family = rng.pick(&FAMILIES);
        for t in family.iter().filter(|t| !t.ends_with('-')) {
            if rng.chance(3, 5) {
                out.push(t.to_string());
            }
        }
    }
    if out.is_empty() {
        out.push(tag(rng));
    }
    out.sort();
    out.dedup();
    out
}

pub const COMPONENTS: [&str; 26] = [
    "application", "app", "App", "a_p", "axp", "b'c", "x%", "xy", "a.b", "ünï", "c d", "__all_in_one__x", "-", "application2",
    ".hidden", "~x", "x~", "x.sqlite3", "c#", " c", "c ", "_x", "con", "a:b", "0", "..x",
];
pub const IDENTIFIERS: [&str; 14] =
    ["id", "ID", "i_", "ix", "i%", "id ", "", "ï", "I\u{308}", "x'y", "id/2", "\"q\"", "?1", "id2"];

/// A name that could be taken for another by a comparison that is not exact.
pub fn alike(rng: &mut Rng, name: &str) -> String {
    let out = match rng.below(11) {
        0 => format!("{name} "),
        1 => format!(" {name}"),
        2 => name.to_uppercase(),
        3 => name.to_lowercase(),
        4 => name.chars().enumerate().map(|(n, c)| if n == name.chars().count() / 2 { '_' } else { c }).collect(),
        5 => format!("{name}%"),
        6 => name.chars().take(name.chars().count().saturating_sub(1)).collect(),
        7 => format!("{name}x"),
        8 => name.replace('e', "e\u{301}").replace('\u{ef}', "i\u{308}"),
        9 => name.replace(' ', ""),
        _ => format!("{name}\t"),
    };
    // The name may become that of a file.
    if out.is_empty() || out == name || out.contains('/') || out == "__all_in_one__" { format!("{}+", name.replace('/', "")) } else { out }
}

impl Db {
    fn add_component(&mut self, rng: &mut Rng, component: &str, ids: &[&str], languages: &[String], database: &str) {
        let default = rng.pick(languages).clone();
        self.components.insert(component.to_string(), default.clone());
        let mut used: BTreeSet<String> = BTreeSet::new();
        used.insert(default.clone());
        for l in languages {
            if rng.chance(1, 2) {
                used.insert(l.clone());
            }
        }
        for l in &used {
            for id in ids {
                if rng.chance(1, 2) {
                    self.pattern(component, id, l, database);
                }
            }
            for _ in 0..rng.range(1, 3) {
                let who = *rng.pick(&["Ann", "Bob", "ann", "Zoë", "Ann ", "O'Neil"]);
                self.contributors.insert((component.to_string(), l.clone(), who.to_string()));
            }
        }
        if !self.patterns.keys().any(|(c, _, l)| c == component && *l == default) {
            self.pattern(component, ids[0], &default, database);
        }
        // Strings and contributors that have no counterpart.
        if rng.chance(1, 3) {
            let l = tag(rng);
            self.pattern(component, ids[rng.below(ids.len())], &l, database);
        }
        if rng.chance(1, 3) {
            self.contributors.insert((component.to_string(), tag(rng), "Eve".to_string()));
        }
    }

    pub fn pattern(&mut self, component: &str, id: &str, language: &str, database: &str) {
        let text = format!("{database}|{component}|{id}|{language}");
        self.patterns.insert((component.to_string(), id.to_string(), language.to_string()), text);
    }

    pub fn write(&self, path: &Path, ddl: &str, version: Option<&str>) -> rusqlite::Result<()> {
        let mut db = Connection::open(path)?;
        db.execute_batch("PRAGMA journal_mode = OFF; PRAGMA synchronous = OFF; PRAGMA foreign_keys = OFF;")?;
        let t = db.transaction()?;
        t.execute_batch(ddl)?;
        let mut tags: BTreeSet<&String> = self.components.values().collect();
        tags.extend(self.patterns.keys().map(|k| &k.2));
        tags.extend(self.contributors.iter().map(|k| &k.1));
        for tag in tags {
            t.prepare_cached("INSERT INTO language (tag, added) VALUES (?1, '2024-01-01')")?.execute([tag])?;
        }
        for (c, l) in &self.components {
            t.prepare_cached("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')")?.execute([c, l])?;
        }
        for ((c, i, l), s) in &self.patterns {
            t.prepare_cached("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)")?
                .execute([c, i, l, s])?;
        }
        for (c, l, n) in &self.contributors {
            t.prepare_cached("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)")?.execute([c, l, n])?;
        }
        if let Some(version) = version {
            let c = self.components.keys().next().map(|s| s.as_str()).unwrap_or("none");
            t.prepare_cached("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', ?2)")?.execute([c, version])?;
        }
        t.commit()?;
        drop(db);
        Ok(())
    }
}

impl Repo {
    /// Many of everything, in one respect at a time.
    pub fn crowded(rng: &mut Rng) -> Repo {
        let mut repo = Repo::default();
        let (components, identifiers, families, contributors) = match rng.below(4) {
            0 => (rng.range(20, 60), 2, 1, 1),
            1 => (rng.range(1, 3), rng.range(50, 400), 1, 1),
            2 => (rng.range(1, 3), 3, rng.range(4, 9), 2),
            _ => (rng.range(1, 3), 2, 2, rng.range(12, 80)),
        };
        let names: Vec<String> = (0..components)
            .map(|n| match n {
                0 => "application".to_string(),
                n if n < COMPONENTS.len() && components < 10 => COMPONENTS[n].to_string(),
                n => format!("component{n}"),
            })
            .collect();
        let ids: Vec<String> = (0..identifiers)
            .map(|n| if n < IDENTIFIERS.len() { IDENTIFIERS[n].to_string() } else { format!("id{n}") })
            .collect();
        let ids: Vec<&str> = ids.iter().map(|s| s.as_str()).collect();
        let mut languages: Vec<String> = Vec::new();
        for n in 0..families {
            languages.extend(FAMILIES[n].iter().filter(|t| !t.ends_with('-')).map(|t| t.to_string()));
        }
        if families > 3 {
            // Very many varieties of one language.
            for n in 0..rng.range(20, 120) {
                let n = n + 100;
                languages.push(format!("en-{n}"));
            }
        }
        for name in &names {
            let layout = rng.below(3);
            for own in [false, true] {
                if (layout == 1 && !own) || (layout == 0 && own) {
                    continue;
                }
                let (db, marker) = if own {
                    (repo.own.entry(name.to_string()).or_default(), format!("own {name}"))
                } else {
                    (repo.aio.get_or_insert_with(Db::default), "aio".to_string())
                };
                db.add_component(rng, name, &ids, &languages, &marker);
                for l in &languages {
                    for n in 0..contributors {
                        if rng.chance(1, 2) {
                            db.contributors.insert((name.to_string(), l.clone(), format!("Contributor {n}")));
                        }
                    }
                }
            }
        }
        repo
    }

    /// Texts of every kind.
    pub fn odd_texts(&mut self, rng: &mut Rng) {
        for db in self.own.values_mut().chain(self.aio.iter_mut()) {
            for text in db.patterns.values_mut() {
                match rng.below(24) {
                    0 => text.clear(),
                    1 => text.push_str(*rng.pick(&[" ", "\n", "\r\n", "\t", "\u{a0}", "\u{2028}"])),
                    2 => text.insert_str(0, *rng.pick(&[" ", "\n", "\u{feff}", "\t", "\u{2028}"])),
                    3 => *text = rng.pick(&["0", "1", "007", "1e5", "1.0", "-0", "null", "NULL", "true", " ", "''", "\"\""]).to_string(),
                    4 => {
                        let n = rng.range(1, 12);
                        text.push_str(&crate::text::any_string(rng, n, "{}`#"));
                    }
                    5 if rng.chance(1, 20) => *text = text.repeat(rng.range(100, 4000)),
                    _ => {}
                }
            }
        }
    }

    pub fn generate(rng: &mut Rng) -> Repo {
        let mut names: Vec<&str> = COMPONENTS.to_vec();
        rng.shuffle(&mut names);
        if rng.chance(1, 2) {
            let at = names.iter().position(|n| *n == "application").unwrap();
            names.swap(0, at);
        }
        names.truncate(rng.range(1, 4));
        let mut ids: Vec<&str> = IDENTIFIERS.to_vec();
        rng.shuffle(&mut ids);
        ids.truncate(rng.range(1, 5));
        let near = alike(rng, names[0]);
        if rng.chance(1, 4) && !names.contains(&near.as_str()) {
            names.push(&near);
        }
        let near_id = alike(rng, ids[0]);
        if rng.chance(1, 4) && !ids.contains(&near_id.as_str()) {
            ids.push(&near_id);
        }
        let mut repo = Repo::default();
        let pool = languages(rng);
        for name in &names {
            let languages = if rng.chance(2, 3) { pool.clone() } else { languages(rng) };
            let layout = rng.below(3);
            if layout != 1 {
                repo.aio.get_or_insert_with(Db::default).add_component(rng, name, &ids, &languages, "aio");
            }
            if layout != 0 {
                let db = repo.own.entry(name.to_string()).or_default();
                db.add_component(rng, name, &ids, &languages, &format!("own {name}"));
                // Rows of another component in this component's file are none of its business.
                if rng.chance(1, 3) {
                    let other = if rng.chance(1, 3) { near.as_str() } else { *rng.pick(&COMPONENTS) };
                    if other != *name {
                        db.add_component(rng, other, &ids, &languages, &format!("stray {name}"));
                    }
                }
            }
        }
        repo
    }

    pub fn components(&self) -> BTreeSet<String> {
        let mut all: BTreeSet<String> = self.own.keys().cloned().collect();
        if let Some(db) = &self.aio {
            all.extend(db.components.keys().cloned());
        }
        all
    }

    /// The databases that answer for a component, in the order they are searched.
    pub fn databases(&self, component: &str) -> Vec<&Db> {
        let mut out = Vec::new();
        if let Some(db) = &self.aio {
            if db.components.contains_key(component) {
                out.push(db);
            }
        }
        out.extend(self.own.get(component));
        out
    }

    pub fn write(&self, directory: &Path) -> rusqlite::Result<()> {
        let ddl = schema_sql();
        let mut all: Vec<(&str, &Db)> =
            self.aio.iter().map(|d| ("__all_in_one__", d)).chain(self.own.iter().map(|(n, d)| (n.as_str(), d))).collect();
        // The order of creation may be the order in which a directory is read.
        Rng::new(hash_of(self.describe().as_str())).shuffle(&mut all);
        for (name, db) in all {
            db.write(&directory.join(format!("{name}.sqlite3")), &ddl, Some("1.0"))?;
        }
        Ok(())
    }

    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (name, db) in self.aio.iter().map(|d| ("__all_in_one__", d)).chain(self.own.iter().map(|(n, d)| (n.as_str(), d))) {
            s.push_str(&format!("[{name}: components {:?}, strings ", db.components));
            for k in db.patterns.keys() {
                s.push_str(&format!("{}/{}/{} ", k.0, k.1, k.2));
            }
            s.push_str(&format!(", contributors {:?}] ", db.contributors));
        }
        s
    }

    /// What a lookup may answer. `None`: unknown component.
    pub fn lookup(&self, component: &str, id: &str, tag: &str) -> Option<Vec<(String, String)>> {
        if !self.components().contains(component) {
            return None;
        }
        for db in self.databases(component) {
            let mut level = tag;
            loop {
                let prefix = format!("{level}-");
                let found: Vec<(String, String)> = db
                    .patterns
                    .iter()
                    .filter(|((c, i, l), _)| c == component && i == id && (l == level || l.starts_with(&prefix)))
                    .map(|((_, _, l), s)| (s.clone(), l.clone()))
                    .collect();
                if !found.is_empty() {
                    return Some(found);
                }
                match level.rsplit_once('-') {
                    None => break,
                    Some((shorter, _)) => level = shorter,
                }
            }
        }
        Some(Vec::new())
    }

    /// The tag at whose level `lookup` found something, if it is stored itself.
    pub fn exact_level(found: &[(String, String)], tag: &str) -> Option<(String, String)> {
        let mut level = tag;
        loop {
            if let Some(hit) = found.iter().find(|(_, l)| l == level) {
                return Some(hit.clone());
            }
            let prefix = format!("{level}-");
            if found.iter().any(|(_, l)| l.starts_with(&prefix)) {
                return None;
            }
            level = level.rsplit_once('-')?.0;
        }
    }

    pub fn exact(&self, component: &str, id: &str, tag: &str) -> Option<(String, String)> {
        self.databases(component)
            .iter()
            .find_map(|db| db.patterns.get(&(component.to_string(), id.to_string(), tag.to_string())))
            .map(|s| (s.clone(), tag.to_string()))
    }
}

pub struct Opened {
    pub registry: RefCount<LanguageTagRegistry>,
    pub provider: LocalisationProviderSqlite3,
}

pub fn open(directory: &Path, rng: &mut Rng) -> Result<Opened, ProviderSqlite3Error> {
    let registry = RefCount::new(LanguageTagRegistry::new());
    let cache = rng.chance(1, 2);
    let provider = match rng.below(4) {
        0 => LocalisationProviderSqlite3::try_new(directory.to_str().unwrap(), &registry, cache)?,
        1 => LocalisationProviderSqlite3::try_new(format!("{}/", directory.display()), &registry, cache)?,
        2 => LocalisationProviderSqlite3::try_new(directory.to_path_buf(), &registry, cache)?,
        _ => LocalisationProviderSqlite3::try_new(directory, &registry, cache)?,
    };
    Ok(Opened { registry, provider })
}

/// A fresh directory of its own.
pub fn directory(ctx: &Ctx, name: &str) -> PathBuf {
    let path = ctx.scratch.join(name);
    let _ = std::fs::remove_dir_all(&path);
    std::fs::create_dir_all(&path).expect("scratch directory");
    path
}

/// Everything about a directory that reading must not change.
pub fn snapshot(directory: &Path) -> BTreeMap<PathBuf, String> {
    use std::os::unix::fs::MetadataExt;
    let mut out = BTreeMap::new();
    let mut left = vec![directory.to_path_buf()];
    while let Some(dir) = left.pop() {
        let Ok(entries) = std::fs::read_dir(&dir) else { continue };
        for entry in entries.flatten() {
            let path = entry.path();
            let Ok(meta) = std::fs::symlink_metadata(&path) else { continue };
            let content = if meta.is_file() { hash_of(&std::fs::read(&path).unwrap_or_default()) } else { 0 };
            out.insert(
                path.clone(),
                format!(
                    "{:?} mode {:o} size {} modified {}.{} content {content:x}",
                    meta.file_type(),
                    meta.mode(),
                    meta.size(),
                    meta.mtime(),
                    meta.mtime_nsec()
                ),
            );
            if meta.is_dir() {
                left.push(path);
            }
        }
    }
    out
}
