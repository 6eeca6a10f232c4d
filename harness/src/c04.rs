//! C04 (lookup), C05 (details) and C06 (opening) of the sqlite3 provider.

use crate::repo::{self, bare, column, create, open, snapshot, Db, Opened, Repo, SCHEMA};
use crate::util::*;
use i18n_provider::{LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{verify_schema, LocalisationProviderSqlite3, ProviderSqlite3Error};
use i18n_utility::LanguageTagRegistry;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn pick_tag(rng: &mut Rng, repo: &Repo) -> String {
    // Mostly something near what is stored.
    let stored: Vec<&String> = repo
        .aio
        .iter()
        .chain(repo.own.values())
        .flat_map(|d| d.patterns.keys().map(|k| &k.2))
        .collect();
    let base = if stored.is_empty() || rng.chance(1, 3) {
        let family = rng.pick(&repo::FAMILIES);
        rng.pick(family).trim_end_matches('-').to_string()
    } else {
        rng.pick(&stored).to_string()
    };
    let base = if base.len() < 2 { "en".to_string() } else { base };
    match rng.below(6) {
        0 => base.split('-').next().unwrap().to_string(),
        1 => format!("{}-ZW", base.split('-').next().unwrap()),
        2 => match base.rsplit_once('-') {
            Some((shorter, _)) => shorter.to_string(),
            None => format!("{base}-Latn"),
        },
        3 if !base.contains("-x") && base.matches('-').count() < 3 && !base.ends_with("fonipa") => format!("{base}-fonipa"),
        _ => base,
    }
}

pub fn pick_component(rng: &mut Rng, repo: &Repo) -> String {
    let all: Vec<String> = repo.components().into_iter().collect();
    if !all.is_empty() && rng.chance(1, 12) {
        let near = rng.pick(&all).clone();
        repo::alike(rng, &near)
    } else if all.is_empty() || rng.chance(1, 6) {
        rng.pick(&repo::COMPONENTS).to_string()
    } else {
        rng.pick(&all).clone()
    }
}

pub fn pick_identifier(rng: &mut Rng, repo: &Repo) -> String {
    let all: BTreeSet<&String> = repo
        .aio
        .iter()
        .chain(repo.own.values())
        .flat_map(|d| d.patterns.keys().map(|k| &k.1))
        .collect();
    let all: Vec<&String> = all.into_iter().collect();
    if !all.is_empty() && rng.chance(1, 12) {
        let near = rng.pick(&all).to_string();
        repo::alike(rng, &near)
    } else if all.is_empty() || rng.chance(1, 5) {
        rng.pick(&repo::IDENTIFIERS).to_string()
    } else {
        rng.pick(&all).to_string()
    }
}

fn not_found(error: &ProviderError, component: &str) -> bool {
    matches!(error, ProviderError::ComponentNotFound(c) if c == component)
}

pub fn lookup(ctx: &mut Ctx, rng: &mut Rng, repo: &Repo, o: &Opened) {
    let (component, id, tag) = (pick_component(rng, repo), pick_identifier(rng, repo), pick_tag(rng, repo));
    let Ok(language) = o.registry.tag(&tag) else { return };
    let tag = language.as_str().to_string();
    let expected = repo.lookup(&component, &id, &tag);
    let what = |form: &str| format!("{form}({component:?}, {id:?}, {tag})");
    let pair = |(s, l): (String, RefCount<i18n_utility::LanguageTag>)| (s, l.as_str().to_string());
    ctx.eval();
    match rng.below(3) {
        0 => {
            let got = o.provider.string(&component, &id, &language).map(|r| r.map(pair));
            let ok = match (&got, &expected) {
                (Err(e), None) => not_found(e, &component),
                (Ok(None), Some(found)) => found.is_empty(),
                (Ok(Some(hit)), Some(found)) => match Repo::exact_level(found, &tag) {
                    Some(exact) => *hit == exact,
                    None => found.contains(hit),
                },
                _ => false,
            };
            ctx.record(|| format!("{got:?}"));
            ctx.check(ok, || format!("{}: expected one of {expected:?}, got {got:?} in {}", what("string"), repo.describe()));
            ctx.hit("string");
        }
        1 => {
            let got = o.provider.strings(&component, &id, &language).map(|r| {
                let mut v: Vec<_> = r.into_iter().map(pair).collect();
                v.sort();
                v
            });
            let wanted = expected.clone().map(|mut v| {
                v.sort();
                v
            });
            let ok = match (&got, &wanted) {
                (Err(e), None) => not_found(e, &component),
                (Ok(got), Some(wanted)) => got == wanted,
                _ => false,
            };
            ctx.record(|| format!("{got:?}"));
            ctx.check(ok, || format!("{}: expected {wanted:?}, got {got:?} in {}", what("strings"), repo.describe()));
            ctx.hit("strings");
            if matches!(&wanted, Some(w) if w.len() > 1) {
                ctx.hit("several_strings");
            }
        }
        _ => {
            let got = o.provider.string_exact_match(&component, &id, &language).map(|r| r.map(pair));
            let exact = repo.exact(&component, &id, &tag);
            let ok = match (&got, &expected) {
                (Err(e), None) => not_found(e, &component),
                (Ok(got), Some(_)) => *got == exact,
                _ => false,
            };
            ctx.record(|| format!("{got:?}"));
            ctx.check(ok, || format!("{}: expected {exact:?}, got {got:?} in {}", what("string_exact_match"), repo.describe()));
            ctx.hit("exact");
        }
    }
    match &expected {
        None => ctx.hit("unknown_component"),
        Some(found) if found.is_empty() => ctx.hit("nothing_stored"),
        Some(found) => {
            let level = if found.iter().any(|(_, l)| *l == tag) {
                "found_exact"
            } else if found.iter().any(|(_, l)| l.starts_with(&tag)) {
                "found_more_specific"
            } else {
                "found_after_removing_subtags"
            };
            ctx.hit(level);
            let aio = repo.databases(&component).len() == 2;
            if aio {
                ctx.hit(if found[0].0.starts_with("aio") { "both_databases_first" } else { "both_databases_second" });
            }
            ctx.distinct(&(&component, &id, &tag, found));
            ctx.sample(|| format!("{} -> {found:?}", what("lookup")));
        }
    }
}

pub fn written(ctx: &Ctx, repo: &Repo) -> std::path::PathBuf {
    let directory = repo::directory(ctx, "repository");
    repo.write(&directory).expect("scratch database");
    directory
}

fn lookups(ctx: &mut Ctx, rng: &mut Rng) {
    let mut repo = Repo::generate(rng);
    if rng.chance(1, 2) {
        repo.odd_texts(rng);
        ctx.hit("odd_texts");
    }
    equal_texts(ctx, rng, &mut repo);
    let directory = written(ctx, &repo);
    match open(&directory, rng) {
        Err(e) => ctx.fail(format!("a conforming repository does not open: {e} in {}", repo.describe())),
        Ok(o) => {
            for _ in 0..40 {
                lookup(ctx, rng, &repo, &o);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&directory);
}

pub type Details = (BTreeMap<String, (usize, f32, Vec<String>)>, String, usize);

pub struct Model {
    components: BTreeMap<String, Details>,
    languages: BTreeMap<String, (usize, f32)>,
    default: Option<String>,
    total: usize,
    contributors: BTreeSet<String>,
}

/// `None`: some component has no valid default language, so there are no details.
pub fn model(repo: &Repo) -> Option<Model> {
    let mut m = Model {
        components: BTreeMap::new(),
        languages: BTreeMap::new(),
        default: None,
        total: 0,
        contributors: BTreeSet::new(),
    };
    for component in repo.components() {
        let databases = repo.databases(&component);
        let mut languages: BTreeMap<String, (usize, f32, Vec<String>)> = BTreeMap::new();
        for db in &databases {
            for (c, l, who) in &db.contributors {
                if *c == component {
                    let names = &mut languages.entry(l.clone()).or_insert((0, 0.0, Vec::new())).2;
                    if !names.contains(who) {
                        names.push(who.clone());
                    }
                    m.contributors.insert(who.clone());
                }
            }
        }
        let mut total = 0;
        for (tag, data) in languages.iter_mut() {
            data.0 = databases.iter().map(|db| db.patterns.keys().filter(|(c, _, l)| *c == component && l == tag).count()).sum();
            data.2.sort();
            total += data.0;
        }
        let default = databases.iter().find_map(|db| db.components.get(&component))?.clone();
        let count = languages.get(&default)?.0;
        for data in languages.values_mut() {
            data.1 = data.0 as f32 / count as f32;
        }
        for (tag, data) in &languages {
            m.languages.entry(tag.clone()).or_insert((0, 0.0)).0 += data.0;
        }
        m.total += total;
        if component == "application" {
            m.default = Some(default.clone());
        }
        m.components.insert(component, (languages, default, total));
    }
    if let Some(default) = &m.default {
        let count = m.languages[default].0;
        for data in m.languages.values_mut() {
            data.1 = data.0 as f32 / count as f32;
        }
    }
    Some(m)
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub type Repository = (BTreeMap<String, (usize, f32)>, Option<String>, usize, Vec<String>, Vec<String>);

impl Model {
    pub fn component(&self, name: &str) -> Option<&Details> {
        self.components.get(name)
    }

    pub fn repository(&self) -> Repository {
        (
            self.languages.clone(),
            self.default.clone(),
            self.total,
            self.components.keys().cloned().collect(),
            self.contributors.iter().cloned().collect(),
        )
    }
}

pub fn component_answer(o: &Opened, component: &str) -> Result<Details, ProviderError> {
    o.provider.component_details(component).map(|d| {
        let languages: BTreeMap<String, (usize, f32, Vec<String>)> = d
            .languages
            .iter()
            .map(|(l, data)| (l.as_str().to_string(), (data.count, data.ratio, sorted(data.contributors.clone()))))
            .collect();
        (languages, d.default.as_str().to_string(), d.total_strings)
    })
}

pub fn repository_answer(o: &Opened) -> Result<Repository, ProviderError> {
    o.provider.repository_details().map(|d| {
        let languages: BTreeMap<String, (usize, f32)> =
            d.languages.iter().map(|(l, data)| (l.as_str().to_string(), (data.count, data.ratio))).collect();
        (
            languages,
            d.default.as_ref().map(|l| l.as_str().to_string()),
            d.total_strings,
            sorted(d.components.clone()),
            sorted(d.contributors.clone()),
        )
    })
}

pub fn details(ctx: &mut Ctx, rng: &mut Rng, repo: &Repo, o: &Opened, m: &Option<Model>) {
    ctx.eval();
    match rng.below(3) {
        0 => {
            let component = pick_component(rng, repo);
            let got = component_answer(o, &component);
            let wanted = m.as_ref().map(|m| m.components.get(&component));
            let ok = match (&got, &wanted) {
                (Err(_), None) => true,
                (Err(e), Some(None)) => not_found(e, &component),
                (Ok(got), Some(Some(wanted))) => got == *wanted,
                _ => false,
            };
            ctx.record(|| format!("{got:?}"));
            ctx.check(ok, || format!("component_details({component:?}): expected {wanted:?}, got {got:?} in {}", repo.describe()));
            ctx.hit("component_details");
            if let Some(Some(w)) = wanted {
                ctx.distinct(&format!("{component} {w:?}"));
                ctx.sample(|| format!("{component}: {w:?}"));
                if repo.databases(&component).len() == 2 {
                    ctx.hit("component_in_both_databases");
                }
            }
        }
        1 => {
            let (component, id) = (pick_component(rng, repo), pick_identifier(rng, repo));
            let got = o
                .provider
                .identifier_details(&component, &id)
                .map(|d| (sorted(d.languages.iter().map(|l| l.as_str().to_string()).collect()), d.default.as_str().to_string()));
            let wanted = m.as_ref().map(|m| {
                m.components.get(&component).map(|d| {
                    let languages: BTreeSet<String> = repo
                        .databases(&component)
                        .iter()
                        .flat_map(|db| db.patterns.keys().filter(|(c, i, _)| *c == component && *i == id).map(|k| k.2.clone()))
                        .collect();
                    (languages.into_iter().collect::<Vec<_>>(), d.1.clone())
                })
            });
            let ok = match (&got, &wanted) {
                (Err(_), None) => true,
                (Err(e), Some(None)) => not_found(e, &component),
                (Ok(got), Some(Some(wanted))) => got == wanted,
                _ => false,
            };
            ctx.record(|| format!("{got:?}"));
            ctx.check(ok, || format!("identifier_details({component:?}, {id:?}): expected {wanted:?}, got {got:?} in {}", repo.describe()));
            ctx.hit("identifier_details");
        }
        _ => {
            let got = repository_answer(o);
            let wanted = m.as_ref().map(|m| m.repository());
            let ok = match (&got, &wanted) {
                (Err(_), None) => true,
                (Ok(got), Some(wanted)) => got == wanted,
                _ => false,
            };
            ctx.record(|| format!("{got:?}"));
            ctx.check(ok, || format!("repository_details: expected {wanted:?}, got {got:?} in {}", repo.describe()));
            ctx.hit("repository_details");
            if let Some(w) = wanted {
                ctx.hit(if w.1.is_some() { "repository_default" } else { "repository_without_default" });
                ctx.distinct(&format!("{w:?}"));
            }
        }
    }
    if m.is_none() {
        ctx.hit("no_valid_default");
    }
}

/// Many components, identifiers, languages or contributors.
fn crowded(ctx: &mut Ctx, rng: &mut Rng) {
    let repo = Repo::crowded(rng);
    let directory = written(ctx, &repo);
    let m = model(&repo);
    match open(&directory, rng) {
        Err(e) => ctx.fail(format!("a conforming repository does not open: {e} in {}", repo.describe())),
        Ok(o) => {
            let components = repo.components();
            for _ in 0..60 {
                if ctx.prop == "C05" && rng.chance(1, 6) {
                    details(ctx, rng, &repo, &o, &m);
                } else {
                    lookup(ctx, rng, &repo, &o);
                }
            }
            ctx.add("crowded_components", components.len() as u64);
            ctx.hit("crowded");
        }
    }
    let _ = std::fs::remove_dir_all(&directory);
}

/// Equal texts are still different strings.
fn equal_texts(ctx: &mut Ctx, rng: &mut Rng, repo: &mut Repo) {
    if rng.chance(1, 3) {
        for db in repo.own.values_mut().chain(repo.aio.iter_mut()) {
            for text in db.patterns.values_mut() {
                if rng.chance(2, 3) {
                    *text = "same".to_string();
                    ctx.hit("equal_texts");
                }
            }
        }
    }
}

fn details_history(ctx: &mut Ctx, rng: &mut Rng) {
    let mut repo = Repo::generate(rng);
    if rng.chance(1, 8) {
        spoil_default(rng, &mut repo);
    }
    equal_texts(ctx, rng, &mut repo);
    let directory = written(ctx, &repo);
    let m = model(&repo);
    for _ in 0..2 {
        match open(&directory, rng) {
            Err(e) => ctx.fail(format!("a conforming repository does not open: {e} in {}", repo.describe())),
            Ok(o) => {
                for _ in 0..12 {
                    if rng.chance(1, 4) {
                        lookup(ctx, rng, &repo, &o);
                    } else {
                        details(ctx, rng, &repo, &o, &m);
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&directory);
}

/// A component whose default language is not recorded, or has no contributor.
fn spoil_default(rng: &mut Rng, repo: &mut Repo) {
    let names: Vec<String> = repo.own.keys().cloned().collect();
    if let Some(name) = names.first() {
        let in_aio = repo.aio.as_ref().is_some_and(|a| a.components.contains_key(name));
        let db = repo.own.get_mut(name).unwrap();
        if rng.chance(1, 2) {
            db.components.remove(name);
        } else if !in_aio {
            let default = db.components.get(name).cloned().unwrap_or_default();
            db.contributors.retain(|(c, l, _)| c != name || *l != default);
        }
    } else if let Some(aio) = &mut repo.aio {
        let Some((name, default)) = aio.components.iter().next().map(|(a, b)| (a.clone(), b.clone())) else { return };
        aio.contributors.retain(|(c, l, _)| *c != name || *l != default);
    }
}

/// A change of the schema, and whether the result still conforms; words the error has to mention.
#[derive(Debug, Clone)]
struct Mutation {
    what: String,
    ddl: String,
    version: Option<String>,
    conforms: bool,
    names: Vec<String>,
}

fn tables(change: impl Fn(&str, &[String]) -> Option<Vec<String>>) -> String {
    SCHEMA
        .iter()
        .filter_map(|(table, columns, constraint)| {
            let columns: Vec<String> = columns.iter().map(column).collect();
            change(table, &columns).map(|c| create(table, &c, constraint))
        })
        .collect()
}

fn mutations() -> Vec<Mutation> {
    let mut out = Vec::new();
    let mut add = |what: String, ddl: String, version: Option<&str>, conforms: bool, names: &[&str]| {
        out.push(Mutation {
            what,
            ddl,
            version: version.map(|s| s.to_string()),
            conforms,
            names: names.iter().map(|s| s.to_string()).collect(),
        })
    };
    let good = repo::schema_sql();
    add("nothing".to_string(), good.clone(), Some("1.0"), true, &[]);
    for version in ["", "1", "1.1", "2.0", "1.0 ", " 1.0", "1.00", "0.1", "10", "1,0"] {
        add(format!("version {version:?}"), good.clone(), Some(version), false, &["1.0"]);
    }
    add("no version".to_string(), good.clone(), None, false, &[]);
    for (table, columns, _) in SCHEMA.iter() {
        // Without constraints: the rows are then bare, but conform.
        let only = |list: Vec<String>| -> String {
            SCHEMA
                .iter()
                .map(|(t, cs, k)| {
                    if t == table {
                        create(t, &list, "")
                    } else {
                        create(t, &cs.iter().map(column).collect::<Vec<_>>(), k)
                    }
                })
                .collect()
        };
        let plain = || -> Vec<String> { columns.iter().map(|c| bare(c.name, c.kind, c.not_null, c.key, None)).collect() };
        add(format!("{table} without constraints"), only(plain()), Some("1.0"), true, &[]);
        let mut extra = plain();
        extra.push("\"more\" BLOB DEFAULT 3".to_string());
        add(format!("{table} with a further column"), only(extra), Some("1.0"), true, &[]);
        add(format!("no table {table}"), tables(|t, c| (t != *table).then(|| c.to_vec())), Some("1.0"), false, &[table]);
        let renamed = format!("{}{}", &table[..1].to_uppercase(), &table[1..]);
        add(
            format!("table {table}s"),
            good.replacen(&format!("CREATE TABLE \"{table}\" ("), &format!("CREATE TABLE \"{table}s\" ("), 1),
            Some("1.0"),
            false,
            &[table],
        );
        let _ = renamed;
        if *table == "metadata" {
            // Only its presence and the version in it are required.
            continue;
        }
        for (at, c) in columns.iter().enumerate() {
            let mut without = plain();
            without.remove(at);
            add(format!("no column {table}.{}", c.name), only(without), Some("1.0"), false, &[table, c.name]);
            let mut renamed = plain();
            renamed[at] = bare(&format!("{}_", c.name), c.kind, c.not_null, c.key, None);
            add(format!("column {table}.{}_", c.name), only(renamed), Some("1.0"), false, &[table, c.name]);
            for kind in [
                "TEXT", "INTEGER", "REAL", "DATE", "BLOB", "VARCHAR(20)", "NUMERIC", "INT", "TEXTS", "LONGTEXT", "TEXT(9)", "TEX", "DATETIME",
                "DATES", "UPDATE_", "REAL(5)", "REALLY", "BIGINTEGER", "INTEGERS", "UNSIGNED INTEGER", "DOUBLE", "ANY",
            ] {
                if kind == c.kind {
                    continue;
                }
                let mut retyped = plain();
                retyped[at] = bare(c.name, kind, c.not_null, c.key, None);
                add(format!("{table}.{} is {kind}", c.name), only(retyped), Some("1.0"), false, &[table, c.name]);
            }
            let mut untyped = plain();
            untyped[at] = bare(c.name, "", c.not_null, c.key, None);
            add(format!("{table}.{} has no type", c.name), only(untyped), Some("1.0"), false, &[table, c.name]);
            let mut nullable = plain();
            nullable[at] = bare(c.name, c.kind, !c.not_null, c.key, None);
            add(format!("{table}.{} not null {}", c.name, !c.not_null), only(nullable), Some("1.0"), false, &[table, c.name]);
            let default = match c.kind {
                "INTEGER" => "5",
                "REAL" => "0.5",
                _ => "'x'",
            };
            if !c.key {
                let mut with = plain();
                with[at] = bare(c.name, c.kind, c.not_null, false, Some(default));
                add(format!("{table}.{} default {default}", c.name), only(with), Some("1.0"), false, &[]);
                let mut other = plain();
                other[0] = bare("rowID", "INTEGER", true, false, None);
                other[at] = bare(c.name, c.kind, c.not_null, true, None);
                add(format!("{table}.{} is the key", c.name), only(other), Some("1.0"), false, &[table]);
                let mut both = plain();
                both[0] = bare("rowID", "INTEGER", true, false, None);
                both.push(format!("PRIMARY KEY (\"rowID\", \"{}\")", c.name));
                add(format!("{table}.{} is part of the key", c.name), only(both), Some("1.0"), false, &[table]);
            } else {
                let mut none = plain();
                none[at] = bare(c.name, c.kind, c.not_null, false, None);
                add(format!("{table} has no key"), only(none), Some("1.0"), false, &[table]);
            }
        }
    }
    out
}

/// Every single mutation, on a connection of its own.
fn mutated(ctx: &mut Ctx, m: &Mutation) {
    let db = rusqlite::Connection::open_in_memory().expect("database in memory");
    if let Err(e) = db.execute_batch(&m.ddl) {
        panic!("harness: {}: {e}", m.what);
    }
    if let Some(version) = &m.version {
        // Where the table of versions itself is missing there is nothing to enter.
        let _ = db.execute("INSERT INTO metadata (component, key, value) VALUES ('x', 'schema_version', ?1)", [version]);
    }
    let _ = db.execute("INSERT INTO metadata (component, key, value) VALUES ('x', 'schema', '1.0')", []);
    ctx.eval();
    let got = verify_schema(&db);
    ctx.record(|| format!("{}: {got:?}", m.what));
    if m.conforms {
        ctx.hit("conforming_schemas");
        ctx.check(matches!(&got, Ok(v) if v == "1.0"), || format!("schema with {}: expected 1.0, got {got:?}", m.what));
    } else {
        ctx.hit("invalid_schemas");
        ctx.check(got.is_err(), || format!("schema with {} is accepted", m.what));
        if let Err(e) = &got {
            let text = format!("{e} {e:?}");
            for n in &m.names {
                ctx.check(text.contains(n.as_str()), || format!("schema with {}: the error {text:?} does not name {n:?}", m.what));
            }
        }
    }
    ctx.distinct(&m.what);
    ctx.sample(|| format!("{}: {got:?}", m.what));
}

/// The same in files, among others.
fn opened(ctx: &mut Ctx, rng: &mut Rng, all: &[Mutation]) {
    let repo = if rng.chance(1, 10) { Repo::default() } else { Repo::generate(rng) };
    let directory = written(ctx, &repo);
    let mut components = repo.components();
    let mut broken: Vec<String> = Vec::new();
    let mut done: Vec<String> = Vec::new();
    for n in 0..rng.below(4) {
        let name = ["extra", "zz", "other", "more"][n];
        let path = directory.join(format!("{name}.sqlite3"));
        match rng.below(12) {
            0..=3 => {
                let m = rng.pick(all);
                let mut db = Db::default();
                if m.conforms {
                    db.components.insert(name.to_string(), "en".to_string());
                    db.contributors.insert((name.to_string(), "en".to_string(), "Ann".to_string()));
                    db.pattern(name, "id", "en", "extra");
                }
                let plain = if m.conforms { db } else { Db::default() };
                if m.ddl.contains("\"metadata\" (") {
                    plain.write(&path, &m.ddl, m.version.as_deref()).expect("scratch database");
                } else {
                    plain.write(&path, &m.ddl, None).expect("scratch database");
                }
                done.push(format!("{name}.sqlite3 with {}", m.what));
                if m.conforms {
                    components.insert(name.to_string());
                } else {
                    broken.push(m.what.clone());
                }
            }
            4 => {
                std::fs::write(&path, crate::text::any_string(rng, 600, "\0S").into_bytes()).expect("scratch");
                if std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0) > 0 {
                    done.push(format!("{name}.sqlite3 is not a database"));
                } else {
                    done.push(format!("{name}.sqlite3 is empty"));
                }
                broken.push("not a database".to_string());
            }
            5 => {
                std::fs::write(&path, b"").expect("scratch");
                done.push(format!("{name}.sqlite3 is empty"));
                broken.push("empty".to_string());
            }
            6 => {
                // A valid header and nothing else. (Filled with 2, the header asks for a write-ahead log, whose files
                // SQLite itself creates.)
                let mut bytes = b"SQLite format 3\0".to_vec();
                let fill = Some(rng.below(256) as u8).filter(|b| *b != 2).unwrap_or(1);
                bytes.resize(rng.range(16, 4096), fill);
                std::fs::write(&path, bytes).expect("scratch");
                done.push(format!("{name}.sqlite3 is a header"));
                broken.push("header only".to_string());
            }
            7 => {
                std::fs::create_dir(&path).expect("scratch");
                done.push(format!("{name}.sqlite3 is a directory"));
            }
            8 => {
                let _ = std::os::unix::fs::symlink(directory.join("nowhere"), &path);
                done.push(format!("{name}.sqlite3 leads nowhere"));
            }
            9 => {
                // A file that is not among the databases, whatever is in it.
                let stem = *rng.pick(&["x", "application", "x.y", "__all_in_one__ ", "z\u{e9}"]);
                let ending = *rng.pick(&[
                    ".SQLITE3", ".Sqlite3", ".sqlite", ".sqlite33", ".sqlite3~", ".sqlite3.bak", ".sqlite3-old", ".sqlite3_", ".sqlite3 ",
                    ".xsqlite3", ".3sqlite", ".db", ".sqlite3.", ".", "", "sqlite3", "-sqlite3", ".sql", ".sqlite3x-journal", ".sqlite2",
                ]);
                let other = match rng.below(6) {
                    0 => rng.pick(&["sqlite3", ".sqlite3", "README", "x.sqlite3-journal.txt"]).to_string(),
                    _ => format!("{stem}{ending}"),
                };
                let file = directory.join(&other);
                let real = rng.chance(1, 3);
                if real {
                    // It holds a database all the same.
                    let _ = std::fs::remove_file(&file);
                    let mut db = Db::default();
                    db.components.insert("ignored".to_string(), "fr".to_string());
                    db.contributors.insert(("ignored".to_string(), "fr".to_string(), "Ann".to_string()));
                    db.pattern("ignored", "id", "fr", "x");
                    let via = directory.join("via.tmp");
                    let _ = std::fs::remove_file(&via);
                    db.write(&via, &repo::schema_sql(), Some("1.0")).expect("scratch database");
                    std::fs::rename(&via, &file).expect("scratch");
                    ctx.hit("ignored_databases");
                } else {
                    std::fs::write(&file, b"not a database").expect("scratch");
                }
                done.push(format!("{other:?} is to be ignored, a database: {real}"));
            }
            10 => {
                let sub = directory.join("sub");
                std::fs::create_dir_all(&sub).expect("scratch");
                std::fs::write(sub.join("inner.sqlite3"), b"junk").expect("scratch");
                done.push("a directory with junk".to_string());
            }
            _ => {
                use std::os::unix::ffi::OsStrExt;
                let raw = std::ffi::OsStr::from_bytes(b"caf\xe9.sqlite3");
                let mut db = Db::default();
                let c = "caf\u{fffd}".to_string();
                db.components.insert(c.clone(), "fr".to_string());
                db.contributors.insert((c.clone(), "fr".to_string(), "Ann".to_string()));
                db.pattern(&c, "id", "fr", "raw");
                let via = directory.join("via.tmp");
                let _ = std::fs::remove_file(&via);
                db.write(&via, &repo::schema_sql(), Some("1.0")).expect("scratch database");
                if std::fs::rename(&via, directory.join(raw)).is_ok() {
                    components.insert(c);
                    done.push("a name that is not UTF-8".to_string());
                }
            }
        }
    }
    // A database, or the directory, that is reached by a link is as good as any other.
    let elsewhere = repo::directory(ctx, "elsewhere");
    if rng.chance(1, 4) {
        let mut files: Vec<std::path::PathBuf> =
            snapshot(&directory).into_keys().filter(|p| p.extension().is_some_and(|e| e == "sqlite3") && p.parent() == Some(&directory) && p.is_file()).collect();
        files.sort();
        if !files.is_empty() {
            let file = rng.pick(&files).clone();
            // The name of the link counts.
            let target = elsewhere.join(*rng.pick(&["store.sqlite3", "store.db", "store"]));
            std::fs::rename(&file, &target).expect("scratch");
            let shown = if rng.chance(1, 2) { target } else { Path::new("../elsewhere").join(target.file_name().unwrap()) };
            std::os::unix::fs::symlink(&shown, &file).expect("scratch");
            done.push(format!("{} is a link to {}", file.display(), shown.display()));
            ctx.hit("linked_databases");
        }
    }
    let asked = if rng.chance(1, 8) {
        let link = elsewhere.join("link");
        std::os::unix::fs::symlink(&directory, &link).expect("scratch");
        ctx.hit("linked_directories");
        link
    } else {
        directory.clone()
    };
    let before = (snapshot(&directory), snapshot(&elsewhere));
    ctx.eval();
    let got = open(&asked, rng);
    ctx.record(|| format!("{done:?} opens: {}", got.is_ok()));
    let valid = broken.is_empty() && !components.is_empty();
    match (&got, valid) {
        (Ok(o), true) => {
            ctx.hit("opened");
            let en = o.registry.tag("en").expect("tag");
            for c in &components {
                let found = o.provider.string(c, "no such identifier", &en);
                ctx.check(matches!(found, Ok(None)), || format!("component {c:?} after {done:?}: {found:?} in {}", repo.describe()));
            }
            let unknown = o.provider.string("no such component", "id", &en);
            ctx.check(unknown.is_err(), || format!("unknown component: {unknown:?}"));
            match o.provider.repository_details() {
                Ok(d) => {
                    let got: Vec<String> = sorted(d.components.clone());
                    let wanted: Vec<String> = components.iter().cloned().collect();
                    ctx.check(got == wanted, || format!("components after {done:?}: expected {wanted:?}, got {got:?}"));
                }
                Err(e) => ctx.fail(format!("repository_details after {done:?}: {e} in {}", repo.describe())),
            }
            let m = model(&repo);
            let extra = components.len() > repo.components().len();
            for _ in 0..6 {
                if rng.chance(1, 2) || extra {
                    lookup(ctx, rng, &repo, o);
                } else {
                    details(ctx, rng, &repo, o, &m);
                }
            }
        }
        (Err(e), true) => ctx.fail(format!("a conforming repository ({done:?}) does not open: {e} in {}", repo.describe())),
        (Ok(_), false) => ctx.fail(format!("a repository with {done:?}, broken by {broken:?}, opens; components {components:?}")),
        (Err(e), false) => {
            ctx.hit("rejected");
            if broken.is_empty() {
                let ok = matches!(e, ProviderSqlite3Error::NoSqlite3Files(p) if p.components().eq(asked.components()));
                ctx.check(ok, || format!("a directory without databases ({done:?}): {e:?}"));
                ctx.hit("no_databases");
            } else {
                let ok = matches!(e, ProviderSqlite3Error::SchemaInvalid(_) | ProviderSqlite3Error::Sqlite3(_));
                ctx.check(ok, || format!("{done:?}: the error does not state the problem: {e:?}"));
            }
        }
    }
    drop(got);
    let after = (snapshot(&directory), snapshot(&elsewhere));
    ctx.check(before == after, || {
        let (before, after): (std::collections::BTreeMap<_, _>, std::collections::BTreeMap<_, _>) =
            (before.0.iter().chain(&before.1).collect(), after.0.iter().chain(&after.1).collect());
        let changed: Vec<String> = before
            .iter()
            .filter(|(k, v)| after.get(*k) != Some(v))
            .map(|(k, v)| format!("{} was {v}, is {:?}", k.display(), after.get(k)))
            .chain(after.keys().filter(|k| !before.contains_key(*k)).map(|k| format!("{} appeared", k.display())))
            .collect();
        format!("the directory changed ({done:?}): {changed:?}")
    });
    ctx.add("files_compared", before.0.len() as u64);
    ctx.distinct(&(&done, repo.describe()));
    ctx.sample(|| format!("{done:?}: {}", if valid { "opens" } else { "rejected" }));
    let _ = std::fs::remove_dir_all(&directory);
    let _ = std::fs::remove_dir_all(&elsewhere);
}

/// A transaction of another program that was cut off: the journal it left beside the database is nobody's to play back here.
fn interrupted(ctx: &mut Ctx, rng: &mut Rng) {
    let repo = Repo::generate(rng);
    let directory = written(ctx, &repo);
    let mut files: Vec<std::path::PathBuf> = snapshot(&directory).into_keys().filter(|p| p.is_file()).collect();
    files.sort();
    if files.is_empty() {
        return;
    }
    let file = rng.pick(&files).clone();
    let journal = Path::new(&format!("{}-journal", file.display())).to_path_buf();
    let kind = *rng.pick(&["hot", "hot", "empty", "cleared", "junk"]);
    match kind {
        "hot" => {
            let log = directory.join("copy");
            {
                let mut c = rusqlite::Connection::open(&file).expect("scratch database");
                c.execute_batch("PRAGMA journal_mode = DELETE; PRAGMA synchronous = FULL; PRAGMA cache_size = 1; PRAGMA foreign_keys = OFF;").expect("scratch database");
                let t = c.transaction().expect("scratch database");
                let spoilt = rng.range(1, 400);
                t.execute("UPDATE pattern SET string = 'not committed'", []).expect("scratch database");
                for n in 0..spoilt {
                    t.execute(
                        "INSERT INTO pattern (component, identifier, languageTag, string) VALUES ('c', ?1, 'en', ?2)",
                        [format!("new {n}"), "not committed ".repeat(40)],
                    )
                    .expect("scratch database");
                }
                t.prepare("SELECT count(*) FROM pattern").and_then(|mut s| s.query_row([], |r| r.get::<_, i64>(0))).expect("scratch database");
                if journal.exists() {
                    std::fs::copy(&journal, &log).expect("scratch");
                }
                std::fs::copy(&file, directory.join("half")).expect("scratch");
                t.rollback().expect("scratch database");
            }
            std::fs::rename(directory.join("half"), &file).expect("scratch");
            if log.exists() {
                std::fs::rename(&log, &journal).expect("scratch");
            }
        }
        "empty" => std::fs::write(&journal, b"").expect("scratch"),
        "cleared" => std::fs::write(&journal, vec![0u8; rng.range(1, 2000)]).expect("scratch"),
        _ => std::fs::write(&journal, b"not a journal").expect("scratch"),
    }
    let before = snapshot(&directory);
    let hot = std::fs::read(&journal).is_ok_and(|bytes| bytes.first().is_some_and(|b| *b != 0));
    ctx.eval();
    let got = open(&directory, rng);
    ctx.record(|| format!("{kind} opens: {}", got.is_ok()));
    ctx.hit(if hot { "hot_journals" } else { "cold_journals" });
    match &got {
        Ok(o) => {
            for _ in 0..4 {
                lookup(ctx, rng, &repo, o);
            }
        }
        Err(e) => {
            ctx.check(hot, || format!("a conforming repository with a journal that is {kind} beside {} does not open: {e}", file.display()));
        }
    }
    drop(got);
    let after = snapshot(&directory);
    ctx.check(before == after, || format!("a journal that is {kind} beside {}: the directory was {before:?}, is {after:?}", file.display()));
    ctx.distinct(&(kind, repo.describe()));
    ctx.sample(|| format!("a journal that is {kind} beside {}", file.display()));
    let _ = std::fs::remove_dir_all(&directory);
}

/// Paths that are no directory.
fn paths(ctx: &mut Ctx, rng: &mut Rng) {
    use std::os::unix::ffi::OsStrExt;
    let directory = repo::directory(ctx, "paths");
    let registry = RefCount::new(LanguageTagRegistry::new());
    std::fs::write(directory.join("file"), b"x").expect("scratch");
    std::fs::create_dir(directory.join("empty")).expect("scratch");
    let before = snapshot(&directory);
    let names: [&[u8]; 8] = [b"file", b"missing", b"missing/deeper", b"file/x", b"caf\xe9", b"empty", b"missing.sqlite3", b"\xff\xfe"];
    let name = *rng.pick(&names);
    let path = directory.join(std::ffi::OsStr::from_bytes(name));
    ctx.eval();
    let got = LocalisationProviderSqlite3::try_new(path.clone(), &registry, rng.chance(1, 2));
    let ok = match &got {
        Err(ProviderSqlite3Error::NoSqlite3Files(p)) => name == b"empty" && *p == path,
        Err(ProviderSqlite3Error::NotDirectory(p)) | Err(ProviderSqlite3Error::NotExists(p)) => name != b"empty" && *p == path,
        _ => false,
    };
    ctx.record(|| format!("{:?}", got.as_ref().err()));
    let shown = got.as_ref().err().map(|e| format!("{e:?}"));
    ctx.check(ok, || format!("try_new({path:?}): {shown:?}"));
    ctx.hit("paths");
    let same = snapshot(&directory) == before;
    ctx.check(same, || format!("try_new({path:?}) changed the directory"));
    let _ = std::fs::remove_dir_all(&directory);
}

/// The repositories that are shipped open and hold together.
fn shipped(ctx: &mut Ctx, rng: &mut Rng, index: u64) {
    const ALL: [&str; 4] =
        ["/repo/crates/localiser/l10n", "/repo/crates/lexer/l10n", "/repo/crates/provider/core/l10n", "/repo/crates/provider/sqlite3/l10n"];
    let from = Path::new(ALL[index as usize % ALL.len()]);
    let directory = repo::directory(ctx, "shipped");
    for entry in std::fs::read_dir(from).expect("shipped repository").flatten() {
        if entry.path().is_file() {
            std::fs::copy(entry.path(), directory.join(entry.file_name())).expect("copy");
        }
    }
    let before = snapshot(&directory);
    ctx.eval();
    match open(&directory, rng) {
        Err(e) => ctx.fail(format!("{} does not open: {e}", from.display())),
        Ok(o) => {
            let d = o.provider.repository_details();
            ctx.check(d.is_ok(), || format!("{}: {d:?}", from.display()));
        }
    }
    ctx.hit("shipped");
    let same = snapshot(&directory) == before;
    ctx.check(same, || format!("{} changed", from.display()));
    let _ = std::fs::remove_dir_all(&directory);
}

pub fn run(ctx: &mut Ctx) {
    match ctx.prop.as_str() {
        "C04" => {
            ctx.phase("lookups", 4_000, 60_000, |ctx, rng, _| lookups(ctx, rng));
            ctx.phase("crowded", 40, 1_000, |ctx, rng, _| crowded(ctx, rng));
        }
        "C05" => {
            ctx.phase("details", 4_000, 60_000, |ctx, rng, _| details_history(ctx, rng));
            ctx.phase("crowded", 40, 1_000, |ctx, rng, _| crowded(ctx, rng));
        }
        _ => {
            let all = mutations();
            ctx.phase("schema", all.len() as u64, all.len() as u64, |ctx, _, n| mutated(ctx, &all[n as usize]));
            ctx.phase("repositories", 4_000, 60_000, |ctx, rng, _| opened(ctx, rng, &all));
            ctx.phase("journals", 300, 6_000, |ctx, rng, _| interrupted(ctx, rng));
            ctx.phase("paths", 400, 2_000, |ctx, rng, _| paths(ctx, rng));
            ctx.phase("shipped", 8, 8, shipped);
        }
    }
}
