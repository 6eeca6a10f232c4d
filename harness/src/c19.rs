//! C19: faults of the repository become errors and leave no trace.

use crate::c04::{details, lookup, model, pick_component, pick_identifier, pick_tag, written};
use crate::c12;
use crate::repo::{self, open, Db, Opened, Repo};
use crate::util::*;
use i18n_provider::{LocalisationProviderTrait, ProviderError};
use rusqlite::Connection;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    /// A table is not there.
    Table(&'static str),
    /// The text of one string is no text.
    Text { component: String, identifier: String, tag: String, utf8: bool },
    /// The tag of one string is no tag.
    Tag { component: String, identifier: String, tag: String },
    /// The language of one contributor is no tag, or the name no text.
    Contributor { component: String, tag: String, name: String, bad_name: bool },
    /// The default language of a component is no tag.
    Default { component: String, tag: String },
    /// The file is not a database, or not there.
    File { moved: bool },
}

/// A fault in one database of the repository.
struct Injected {
    name: String,
    fault: Fault,
    bytes: Vec<u8>,
}

const AIO: &str = "__all_in_one__";

fn path(directory: &Path, name: &str) -> PathBuf {
    directory.join(format!("{name}.sqlite3"))
}

fn writer(directory: &Path, name: &str) -> Connection {
    let db = Connection::open(path(directory, name)).expect("harness: database");
    db.execute_batch("PRAGMA journal_mode = OFF; PRAGMA synchronous = OFF; PRAGMA foreign_keys = OFF;").expect("harness: pragma");
    db
}

fn bad_tag(tag: &str) -> String {
    format!("{tag}-@@")
}

fn inject(directory: &Path, name: &str, fault: &Fault) -> Injected {
    let file = path(directory, name);
    let bytes = std::fs::read(&file).expect("harness: read");
    match fault {
        Fault::File { moved: true } => std::fs::rename(&file, directory.join("moved.away")).expect("harness: rename"),
        Fault::File { moved: false } => std::fs::write(&file, vec![b'?'; bytes.len()]).expect("harness: write"),
        fault => {
            let db = writer(directory, name);
            let n = match fault {
                Fault::Table(t) => {
                    db.execute_batch(&format!("ALTER TABLE {t} RENAME TO {t}_away")).expect("harness: rename table");
                    1
                }
                Fault::Text { component, identifier, tag, utf8 } => db.execute(
                    if *utf8 {
                        "UPDATE pattern SET string = CAST(string AS BLOB) WHERE component = ?1 AND identifier = ?2 AND languageTag = ?3"
                    } else {
                        "UPDATE pattern SET string = CAST(x'41ff42' AS TEXT) WHERE component = ?1 AND identifier = ?2 AND languageTag = ?3"
                    },
                    [component, identifier, tag],
                ).expect("harness: update"),
                Fault::Tag { component, identifier, tag } => db.execute(
                    "UPDATE pattern SET languageTag = ?4 WHERE component = ?1 AND identifier = ?2 AND languageTag = ?3",
                    [component, identifier, tag, &bad_tag(tag)],
                ).expect("harness: update"),
                Fault::Contributor { component, tag, name, bad_name } => {
                    if *bad_name {
                        db.execute(
                            "UPDATE contributor SET contributor = CAST(x'ff' AS TEXT) WHERE component = ?1 AND languageTag = ?2 AND contributor = ?3",
                            [component, tag, name],
                        )
                    } else {
                        db.execute(
                            "UPDATE contributor SET languageTag = ?4 WHERE component = ?1 AND languageTag = ?2 AND contributor = ?3",
                            [component, tag, name, &bad_tag(tag)],
                        )
                    }
                    .expect("harness: update")
                }
                Fault::Default { component, tag } => db
                    .execute("UPDATE component SET languageTag = ?2 WHERE identifier = ?1", [component, &bad_tag(tag)])
                    .expect("harness: update"),
                Fault::File { .. } => unreachable!(),
            };
            assert!(n == 1, "harness: {fault:?} changed {n} rows");
        }
    }
    Injected { name: name.to_string(), fault: fault.clone(), bytes }
}

fn repair(directory: &Path, i: &Injected, db: &Db) {
    let file = path(directory, &i.name);
    match &i.fault {
        Fault::File { moved: true } => return std::fs::rename(directory.join("moved.away"), &file).expect("harness: rename"),
        Fault::File { moved: false } => return std::fs::write(&file, &i.bytes).expect("harness: write"),
        _ => {}
    }
    let w = writer(directory, &i.name);
    let n = match &i.fault {
        Fault::Table(t) => {
            w.execute_batch(&format!("ALTER TABLE {t}_away RENAME TO {t}")).expect("harness: rename table");
            1
        }
        Fault::Text { component, identifier, tag, .. } => {
            let text = &db.patterns[&(component.clone(), identifier.clone(), tag.clone())];
            w.execute(
                "UPDATE pattern SET string = ?4 WHERE component = ?1 AND identifier = ?2 AND languageTag = ?3",
                [component, identifier, tag, text],
            )
            .expect("harness: update")
        }
        Fault::Tag { component, identifier, tag } => w
            .execute(
                "UPDATE pattern SET languageTag = ?3 WHERE component = ?1 AND identifier = ?2 AND languageTag = ?4",
                [component, identifier, tag, &bad_tag(tag)],
            )
            .expect("harness: update"),
        Fault::Contributor { component, tag, name, bad_name } => if *bad_name {
            w.execute(
                "UPDATE contributor SET contributor = ?3 WHERE component = ?1 AND languageTag = ?2 AND contributor = CAST(x'ff' AS TEXT)",
                [component, tag, name],
            )
        } else {
            w.execute(
                "UPDATE contributor SET languageTag = ?2 WHERE component = ?1 AND languageTag = ?4 AND contributor = ?3",
                [component, tag, name, &bad_tag(tag)],
            )
        }
        .expect("harness: update"),
        Fault::Default { component, tag } => {
            w.execute("UPDATE component SET languageTag = ?2 WHERE identifier = ?1", [component, tag]).expect("harness: update")
        }
        Fault::File { .. } => unreachable!(),
    };
    assert!(n == 1, "harness: repairing {:?} changed {n} rows", i.fault);
}

fn databases(repo: &Repo) -> Vec<(&str, &Db)> {
    repo.aio.iter().map(|d| (AIO, d)).chain(repo.own.iter().map(|(n, d)| (n.as_str(), d))).collect()
}

/// The names of the databases that answer for a component, in the order they are searched.
fn names<'a>(repo: &'a Repo, component: &'a str) -> Vec<(&'a str, &'a Db)> {
    let mut out = Vec::new();
    if let Some(db) = &repo.aio {
        if db.components.contains_key(component) {
            out.push((AIO, db));
        }
    }
    if let Some(db) = repo.own.get(component) {
        out.push((component, db));
    }
    out
}

fn pick_fault(rng: &mut Rng, db: &Db, with_details: bool) -> Option<Fault> {
    let patterns: Vec<_> = db.patterns.keys().collect();
    let contributors: Vec<_> = db.contributors.iter().collect();
    let components: Vec<_> = db.components.iter().collect();
    Some(match rng.below(if with_details { 7 } else { 8 }) {
        0 => Fault::Table("pattern"),
        1 => Fault::Table(rng.pick(&["contributor", "component"])),
        2 => Fault::File { moved: rng.chance(1, 2) },
        3 if !contributors.is_empty() => {
            let (component, tag, name) = (*rng.pick(&contributors)).clone();
            Fault::Contributor { component, tag, name, bad_name: rng.chance(1, 2) }
        }
        4 if !components.is_empty() => {
            let (component, tag) = *rng.pick(&components);
            Fault::Default { component: component.clone(), tag: tag.clone() }
        }
        5 | 6 if !patterns.is_empty() => {
            let (component, identifier, tag) = (*rng.pick(&patterns)).clone();
            Fault::Text { component, identifier, tag, utf8: rng.chance(1, 2) }
        }
        7 if !patterns.is_empty() => {
            let (component, identifier, tag) = (*rng.pick(&patterns)).clone();
            Fault::Tag { component, identifier, tag }
        }
        _ => return None,
    })
}

#[derive(Debug)]
enum Need {
    Error,
    /// Exactly these, or an error.
    Perhaps(Vec<(String, String)>),
    Exactly(Vec<(String, String)>),
}

/// Rows of one database as they are during the fault: tag, text, whether something about it is wrong.
fn rows(db: &Db, component: &str, id: &str, fault: Option<&Fault>) -> Vec<(String, String, bool)> {
    db.patterns
        .iter()
        .filter(|((c, i, _), _)| c == component && i == id)
        .map(|((c, i, l), s)| match fault {
            Some(Fault::Text { component, identifier, tag, .. }) if c == component && i == identifier && l == tag => {
                (l.clone(), s.clone(), true)
            }
            Some(Fault::Tag { component, identifier, tag }) if c == component && i == identifier && l == tag => {
                (bad_tag(l), s.clone(), true)
            }
            _ => (l.clone(), s.clone(), false),
        })
        .collect()
}

fn need(repo: &Repo, injected: &Injected, form: usize, component: &str, id: &str, tag: &str) -> Need {
    let mut perhaps = false;
    let mut answer = Vec::new();
    'databases: for (name, db) in names(repo, component) {
        let fault = (name == injected.name).then_some(&injected.fault);
        match fault {
            Some(Fault::Table("pattern")) => return Need::Error,
            Some(Fault::File { .. }) => perhaps = true,
            _ => {}
        }
        let rows = rows(db, component, id, fault);
        if form == 2 {
            if let Some((_, text, bad)) = rows.iter().find(|(l, _, _)| l == tag) {
                if *bad {
                    return Need::Error;
                }
                answer.push((text.clone(), tag.to_string()));
                break;
            }
            continue;
        }
        let mut level = tag;
        loop {
            let prefix = format!("{level}-");
            let found: Vec<_> = rows.iter().filter(|(l, _, _)| l == level || l.starts_with(&prefix)).collect();
            if !found.is_empty() {
                let bad = found.iter().filter(|(_, _, bad)| *bad).count();
                if bad > 0 && (form == 1 || bad == found.len()) {
                    return Need::Error;
                }
                if bad > 0 {
                    // One of the good ones will do, and so will an error, unless the text of the very tag is the bad one.
                    if found.iter().any(|(l, _, bad)| *bad && l == level) {
                        return Need::Error;
                    }
                    perhaps = true;
                }
                answer = found.iter().filter(|(_, _, bad)| !*bad).map(|(l, s, _)| (s.clone(), l.clone())).collect();
                if form == 0 {
                    if let Some(exact) = answer.iter().find(|(_, l)| l == level).cloned() {
                        answer = vec![exact];
                    }
                }
                break 'databases;
            }
            match level.rsplit_once('-') {
                None => break,
                Some((shorter, _)) => level = shorter,
            }
        }
    }
    if perhaps {
        Need::Perhaps(answer)
    } else {
        Need::Exactly(answer)
    }
}

fn faulty_lookup(ctx: &mut Ctx, rng: &mut Rng, repo: &Repo, o: &Opened, injected: &Injected) {
    // Often what the fault is about.
    let (mut component, mut id, mut tag) = (pick_component(rng, repo), pick_identifier(rng, repo), pick_tag(rng, repo));
    match &injected.fault {
        Fault::Text { component: c, identifier: i, tag: t, .. } | Fault::Tag { component: c, identifier: i, tag: t } if rng.chance(2, 3) => {
            component = c.clone();
            id = i.clone();
            match rng.below(4) {
                0 => tag = format!("{}-fonipa", t.trim_end_matches("-fonipa")),
                1 => tag = t.split('-').next().unwrap().to_string(),
                2 => tag = t.rsplit_once('-').map(|t| t.0).unwrap_or(t).to_string(),
                _ => tag = t.clone(),
            }
        }
        _ => {}
    }
    let Ok(language) = o.registry.tag(&tag) else { return };
    let tag = language.as_str().to_string();
    if !repo.components().contains(&component) {
        return;
    }
    ctx.eval();
    let form = rng.below(3);
    let pair = |(s, l): (String, RefCount<i18n_utility::LanguageTag>)| (s, l.as_str().to_string());
    let got: Result<Vec<(String, String)>, ProviderError> = match form {
        0 => o.provider.string(&component, &id, &language).map(|r| r.map(pair).into_iter().collect()),
        1 => o.provider.strings(&component, &id, &language).map(|r| {
            let mut v: Vec<_> = r.into_iter().map(pair).collect();
            v.sort();
            v
        }),
        _ => o.provider.string_exact_match(&component, &id, &language).map(|r| r.map(pair).into_iter().collect()),
    };
    let need = need(repo, injected, form, &component, &id, &tag);
    let same = |wanted: &Vec<(String, String)>| match (form, &got) {
        (_, Err(_)) => false,
        (1, Ok(got)) => {
            let mut wanted = wanted.clone();
            wanted.sort();
            *got == wanted
        }
        (_, Ok(got)) => match got.first() {
            None => wanted.is_empty(),
            Some(one) => wanted.contains(one),
        },
    };
    let failed = matches!(&got, Err(e) if !matches!(e, ProviderError::ComponentNotFound(_)));
    let ok = match &need {
        Need::Error => failed,
        Need::Perhaps(wanted) => failed || same(wanted),
        Need::Exactly(wanted) => same(wanted),
    };
    ctx.hit(match &need {
        Need::Error => "lookups_that_must_fail",
        Need::Perhaps(_) => "lookups_near_a_fault",
        Need::Exactly(_) => "lookups_beside_a_fault",
    });
    if !matches!(need, Need::Perhaps(_)) {
        ctx.record(|| format!("{} {:?}", got.is_ok(), got.as_ref().ok()));
    }
    ctx.check(ok, || {
        let form = ["string", "strings", "string_exact_match"][form];
        format!(
            "{form}({component:?}, {id:?}, {tag}) with {:?} in {}: expected {need:?}, got {got:?} in {}",
            injected.fault,
            injected.name,
            repo.describe()
        )
    });
}

/// Whether a fault keeps the details of a component from being known.
fn hides(repo: &Repo, injected: &Injected, component: &str) -> bool {
    let all = names(repo, component);
    let Some(at) = all.iter().position(|(n, _)| *n == injected.name) else { return false };
    match &injected.fault {
        Fault::Table("component") => at == 0,
        Fault::Table(_) => true,
        Fault::Contributor { component: c, .. } => c == component,
        Fault::Default { component: c, .. } => c == component && at == 0,
        _ => false,
    }
}

fn faulty_details(ctx: &mut Ctx, rng: &mut Rng, repo: &Repo, o: &Opened, injected: &Injected, known: bool) {
    let Some(m) = model(repo) else { return };
    ctx.eval();
    let component = pick_component(rng, repo);
    let (what, got, hidden): (String, Option<bool>, bool) = match rng.below(2) {
        0 => {
            let got = crate::c04::component_answer(o, &component);
            let same = match (&got, m.component(&component)) {
                (Ok(got), Some(wanted)) => Some(got == wanted),
                (Ok(_), None) => Some(false),
                (Err(_), _) => None,
            };
            (format!("component_details({component:?}) gives {got:?}"), same, hides(repo, injected, &component))
        }
        _ => {
            let got = crate::c04::repository_answer(o);
            let same = got.as_ref().ok().map(|got| *got == m.repository());
            let hidden = repo.components().iter().any(|c| hides(repo, injected, c));
            (format!("repository_details() gives {got:?}"), same, hidden)
        }
    };
    let must_fail = hidden && !known;
    ctx.hit(if must_fail { "details_that_must_fail" } else { "details_near_a_fault" });
    let ok = match got {
        None => true,
        Some(same) => same && !must_fail,
    };
    ctx.check(ok, || format!("{what} with {:?} in {} (asked before: {known}) in {}", injected.fault, injected.name, repo.describe()));
}

fn fault_is_moved(fault: &Fault) -> bool {
    matches!(fault, Fault::File { moved: true })
}

fn repository_faults(ctx: &mut Ctx, rng: &mut Rng) {
    let repo = Repo::generate(rng);
    let directory = written(ctx, &repo);
    let with_details = rng.chance(1, 2);
    let m = model(&repo);
    match open(&directory, rng) {
        Err(e) => ctx.fail(format!("a conforming repository does not open: {e} in {}", repo.describe())),
        Ok(o) => {
            let mut known = false;
            let mut trace: Vec<String> = Vec::new();
            for _ in 0..rng.range(1, 4) {
                // Sometimes something was asked before.
                for _ in 0..rng.below(3) {
                    lookup(ctx, rng, &repo, &o);
                }
                if with_details && rng.chance(1, 4) {
                    details(ctx, rng, &repo, &o, &m);
                    known = true;
                }
                let all = databases(&repo);
                let (name, db) = *rng.pick(&all);
                let Some(fault) = pick_fault(rng, db, with_details) else { continue };
                let injected = inject(&directory, name, &fault);
                ctx.hit(match &fault {
                    Fault::Table(_) => "fault_table",
                    Fault::Text { .. } => "fault_text",
                    Fault::Tag { .. } => "fault_tag",
                    Fault::Contributor { .. } => "fault_contributor",
                    Fault::Default { .. } => "fault_default",
                    Fault::File { .. } => "fault_file",
                });
                trace.push(format!("{name}: {fault:?}"));
                let before = repo::snapshot(&directory);
                for _ in 0..rng.range(2, 8) {
                    if with_details && rng.chance(1, 2) {
                        faulty_details(ctx, rng, &repo, &o, &injected, known);
                        // A details query that does not meet the fault may be remembered.
                        known |= !repo.components().iter().any(|c| hides(&repo, &injected, c));
                    } else {
                        faulty_lookup(ctx, rng, &repo, &o, &injected);
                    }
                }
                let after = repo::snapshot(&directory);
                ctx.hit("directories_compared");
                ctx.check(before == after, || {
                    let names: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k.display().to_string()).collect();
                    format!("queries during {fault:?} in {name} changed the directory: {names:?} are new or changed in {}", repo.describe())
                });
                if fault_is_moved(&fault) {
                    let _ = std::fs::remove_file(path(&directory, name));
                }
                repair(&directory, &injected, db);
                for _ in 0..rng.range(2, 6) {
                    if with_details && rng.chance(1, 2) {
                        details(ctx, rng, &repo, &o, &m);
                        known = true;
                    } else {
                        lookup(ctx, rng, &repo, &o);
                    }
                    ctx.hit("answers_after_repair");
                }
            }
            ctx.distinct(&trace);
            ctx.sample(|| trace.join("; "));
        }
    }
    let _ = std::fs::remove_dir_all(&directory);
}

/// A repository whose list of components cannot be read does not open, and opens once it can.
fn opening(ctx: &mut Ctx, rng: &mut Rng) {
    let mut repo = Repo::generate(rng);
    while repo.aio.is_none() {
        repo = Repo::generate(rng);
    }
    let directory = written(ctx, &repo);
    let db = repo.aio.as_ref().unwrap();
    let component = db.components.keys().next().unwrap().clone();
    let w = writer(&directory, AIO);
    let utf8 = rng.chance(1, 2);
    let n = w
        .execute(
            if utf8 {
                "UPDATE component SET identifier = CAST(identifier AS BLOB) WHERE identifier = ?1"
            } else {
                "UPDATE component SET identifier = CAST(x'61ff' AS TEXT) WHERE identifier = ?1"
            },
            [&component],
        )
        .expect("harness: update");
    assert!(n == 1, "harness: component");
    ctx.eval();
    let got = open(&directory, rng);
    ctx.check(got.is_err(), || format!("a repository with a component whose name is no text opens: {}", repo.describe()));
    w.execute(
        if utf8 {
            "UPDATE component SET identifier = ?1 WHERE identifier = CAST(?1 AS BLOB)"
        } else {
            "UPDATE component SET identifier = ?1 WHERE identifier = CAST(x'61ff' AS TEXT)"
        },
        [&component],
    )
    .expect("harness: update");
    let again = open(&directory, rng);
    ctx.check(again.is_ok(), || format!("a repaired repository does not open: {:?}", again.as_ref().err()));
    if let Ok(o) = &again {
        for _ in 0..4 {
            lookup(ctx, rng, &repo, o);
        }
    }
    ctx.hit("openings");
    let _ = std::fs::remove_dir_all(&directory);
}

pub fn run(ctx: &mut Ctx) {
    ctx.phase("localiser", 6_000, 100_000, |ctx, rng, _| c12::caching_history(ctx, rng, true));
    ctx.phase("repository", 2_500, 40_000, |ctx, rng, _| repository_faults(ctx, rng));
    ctx.phase("opening", 150, 1_500, |ctx, rng, _| opening(ctx, rng));
}
