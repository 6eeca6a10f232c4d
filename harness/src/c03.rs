//! C03: histories of requests on one language tag registry, checked step by step against a model.

use crate::tags;
use crate::util::*;
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Model {
    pub tags: BTreeMap<String, Option<RefCount<LanguageTag>>>,
    pub deprecated: BTreeMap<String, String>,
}

fn sorted(list: Vec<RefCount<LanguageTag>>) -> Vec<String> {
    let mut v: Vec<String> = list.iter().map(|t| t.as_str().to_string()).collect();
    v.sort();
    v
}

/// The lists of the registry are what the requests so far imply.
pub fn check_lists(ctx: &mut Ctx, registry: &LanguageTagRegistry, model: &Model, history: &str) -> bool {
    let tags: Vec<String> = model.tags.keys().cloned().collect();
    let mut deprecated: Vec<String> = model.deprecated.values().cloned().collect();
    deprecated.sort();
    let mut all: Vec<String> = tags.iter().chain(deprecated.iter()).cloned().collect();
    all.sort();
    let (l, d, a) = (
        sorted(registry.list()),
        sorted(registry.list_deprecated()),
        sorted(registry.list_all()),
    );
    ctx.hit("list_checks");
    ctx.record(|| format!("{l:?} {d:?} {a:?}"));
    let ok = l == tags && d == deprecated && a == all;
    if !ok {
        ctx.fail(format!(
            "lists {l:?} / deprecated {d:?} / all {a:?}, expected {tags:?} / {deprecated:?} / {all:?}; after {history}"
        ));
    }
    // The instances of the lists are the shared ones.
    for t in registry.list_all() {
        if let Some(Some(known)) = model.tags.get(t.as_str()) {
            if !RefCount::ptr_eq(known, &t) {
                ctx.fail(format!("a list holds another instance of {}; after {history}", t.as_str()));
                return false;
            }
        }
    }
    ok
}

fn spelling(rng: &mut Rng, pool: &[String]) -> (String, bool) {
    match rng.below(10) {
        0 | 1 => {
            let mut m = tags::malformed(rng);
            let mut guard = 0;
            while tags::has_singleton(&m) || tags::canonicalise(&m).is_some() {
                m = tags::malformed(rng);
                guard += 1;
                if guard > 50 {
                    m = "!".to_string();
                }
            }
            (m, false)
        }
        2 => (tags::canonical(rng), true),
        3 | 4 => (rng.pick(pool).clone(), true),
        _ => {
            let base = rng.pick(pool).clone();
            (tags::respell(rng, &base), true)
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.phase("history", 6_000, 200_000, |ctx, rng, _| {
        let registry = LanguageTagRegistry::new();
        let other = LanguageTagRegistry::new();
        let mut model = Model::default();
        let pool: Vec<String> = (0..rng.range(1, 6)).map(|_| tags::canonical(rng)).collect();
        let mut history = String::new();
        let steps = rng.range(2, 40);
        let mut shape = Vec::new();
        for _ in 0..steps {
            ctx.eval();
            let before = ctx.violations.len();
            match rng.below(8) {
                0 => {
                    history.push_str("list; ");
                    check_lists(ctx, &registry, &model, &history);
                    shape.push(0);
                }
                1 if !model.tags.is_empty() => {
                    let keys: Vec<String> = model.tags.keys().cloned().collect();
                    let key = rng.pick(&keys).clone();
                    let tag = match (&model.tags[&key], rng.chance(1, 3)) {
                        (Some(tag), false) => RefCount::clone(tag),
                        _ => other.tag(&key).expect("tag of another registry"),
                    };
                    history.push_str(&format!("icu_language {key}; "));
                    let icu = registry.icu_language(&tag);
                    let own = tag.icu_language();
                    let direct: icu_locid::LanguageIdentifier = key.parse().expect("well-formed");
                    ctx.hit("icu_language");
                    ctx.record(|| format!("{key}: {icu} {own}"));
                    if icu.to_string() != key || own.to_string() != key || *icu != direct || own != direct {
                        ctx.fail(format!("ICU language of {key} is {icu} / {own}; after {history}"));
                    }
                    shape.push(1);
                }
                _ => {
                    let (spelled, well_formed) = spelling(rng, &pool);
                    history.push_str(&format!("tag {spelled:?}; "));
                    let expected = tags::canonicalise(&spelled);
                    if expected.is_some() != well_formed {
                        // The generator and the own canonicalisation must agree, or the case decides nothing.
                        panic!("harness: {spelled:?} is classified inconsistently");
                    }
                    let result = registry.tag(&spelled);
                    ctx.record(|| format!("tag {spelled:?}: {:?}", result.as_ref().map_err(|e| e.to_string())));
                    match (result, expected) {
                        (Err(_), None) => {
                            ctx.hit("malformed_rejected");
                            shape.push(2);
                        }
                        (Ok(tag), None) => {
                            ctx.fail(format!("malformed tag accepted as {}; after {history}", tag.as_str()));
                        }
                        (Err(error), Some(canonical)) => {
                            ctx.fail(format!("error {error} instead of {canonical}; after {history}"));
                        }
                        (Ok(tag), Some(canonical)) => {
                            if tag.as_str() != canonical {
                                ctx.fail(format!("got {} instead of {canonical}; after {history}", tag.as_str()));
                            }
                            match model.tags.get(&canonical) {
                                Some(Some(known)) => {
                                    ctx.hit("shared_instances_compared");
                                    if !RefCount::ptr_eq(known, &tag) {
                                        ctx.fail(format!("another instance of {canonical}; after {history}"));
                                    }
                                }
                                _ => {
                                    model.tags.insert(canonical.clone(), Some(RefCount::clone(&tag)));
                                }
                            }
                            if spelled != canonical {
                                ctx.hit("non_canonical_spellings");
                                model.deprecated.insert(spelled.clone(), canonical.clone());
                                shape.push(3);
                            } else {
                                shape.push(4);
                            }
                        }
                    }
                    if rng.chance(1, 4) {
                        check_lists(ctx, &registry, &model, &history);
                    }
                }
            }
            if ctx.violations.len() > before {
                return;
            }
        }
        check_lists(ctx, &registry, &model, &history);
        if model.tags.len() > 1 && !model.deprecated.is_empty() {
            ctx.distinct(&history);
        }
        ctx.sample(|| history.clone());
        // The other registry only ever saw canonical tags.
        let seen: BTreeSet<String> = sorted(other.list()).into_iter().collect();
        if !seen.iter().all(|t| model.tags.contains_key(t)) || !other.list_deprecated().is_empty() {
            ctx.fail(format!("another registry changed: {seen:?}; after {history}"));
        }
    });

    // Long lives: very many tags and spellings in one registry, every one of them still there at the end.
    ctx.phase("long_history", 8, 60, |ctx, rng, _| {
        let registry = LanguageTagRegistry::new();
        let mut model = Model::default();
        let pool: Vec<String> = (0..rng.range(20, 300)).map(|_| tags::canonical(rng)).collect();
        let steps = rng.range(400, 1_500);
        for step in 0..steps {
            ctx.eval();
            let base = rng.pick(&pool).clone();
            let spelled = if rng.chance(1, 3) { base } else { tags::respell(rng, &base) };
            let canonical = tags::canonicalise(&spelled).expect("well-formed");
            let tag = match registry.tag(&spelled) {
                Ok(tag) => tag,
                Err(error) => {
                    ctx.fail(format!("{spelled:?} gives error {error} at step {step}"));
                    return;
                }
            };
            if tag.as_str() != canonical {
                ctx.fail(format!("{spelled:?} gives {} instead of {canonical} at step {step}", tag.as_str()));
                return;
            }
            if spelled != canonical {
                model.deprecated.insert(spelled.clone(), canonical.clone());
            }
            match model.tags.get(&canonical) {
                Some(Some(known)) => {
                    ctx.hit("long_lived_instances");
                    if !RefCount::ptr_eq(known, &tag) {
                        ctx.fail(format!("another instance of {canonical} for {spelled:?} at step {step}"));
                        return;
                    }
                }
                _ => {
                    model.tags.insert(canonical, Some(tag));
                }
            }
            if rng.chance(1, 200) && !check_lists(ctx, &registry, &model, &format!("{} steps", step + 1)) {
                return;
            }
        }
        check_lists(ctx, &registry, &model, &format!("{steps} steps"));
        ctx.add("long_lived_tags", model.tags.len() as u64);
        ctx.add("long_lived_spellings", model.deprecated.len() as u64);
        ctx.distinct(&pool);
    });

    // Any text at all offered as a tag: an answer, never a panic; malformed text leaves no trace.
    ctx.phase("any_text", 20_000, 600_000, |ctx, rng, _| {
        let registry = LanguageTagRegistry::new();
        let mut model = Model::default();
        let n = rng.range(0, 6);
        let s = if rng.chance(1, 2) {
            crate::text::any_string(rng, n, "-_aZ09")
        } else {
            (0..rng.range(0, 14))
                .map(|_| *rng.pick(&['a', 'Z', 'e', 'n', '1', '9', '-', '_']))
                .collect()
        };
        if tags::has_singleton(&s) {
            return;
        }
        ctx.eval();
        let expected = tags::canonicalise(&s);
        match (registry.tag(&s), &expected) {
            (Ok(tag), Some(canonical)) if tag.as_str() == canonical => {
                if s != *canonical {
                    model.deprecated.insert(s.clone(), canonical.clone());
                }
                model.tags.insert(canonical.clone(), Some(tag));
                ctx.distinct(&s);
            }
            (Err(_), None) => {}
            (result, _) => ctx.fail(format!(
                "{s:?} gives {:?}, expected {expected:?}",
                result.map(|t| t.as_str().to_string()).map_err(|e| e.to_string())
            )),
        }
        check_lists(ctx, &registry, &model, &format!("tag {s:?}"));
    });
}
