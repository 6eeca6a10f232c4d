//! C12 (caching), C13 (fallback and defaults) and the nested data of C14: histories of requests on one localiser.

use crate::c07::{self, describe_values, env};
use crate::cmd;
use crate::gen;
use crate::mem::{Bench, Store, Values};
use crate::pat::{self, Verdict};
use crate::util::*;
use i18n_localiser::{Localiser, LocaliserError};
use i18n_utility::{LanguageTag, LocalisationData, LocalisationErrorTrait, LocalisationTrait, PlaceholderValue};
use std::collections::HashSet;
use std::rc::Rc;

pub type Answer = Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError>;

#[derive(Debug, Clone)]
pub enum Request {
    Format { component: String, identifier: String, values: Values },
    Literal { component: String, identifier: String },
    Data(LocalisationData),
    /// The data of an error, through the interface for errors.
    Error(LocalisationData),
}

/// An error of the application's own.
#[derive(Debug)]
struct Failure(LocalisationData);

impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "a failure")
    }
}

impl std::error::Error for Failure {}
impl LocalisationErrorTrait for Failure {}

impl LocalisationTrait for Failure {
    fn localisation_data(&self) -> LocalisationData {
        self.0.clone()
    }
}

#[derive(Debug, Clone)]
pub struct Call {
    pub request: Request,
    /// `None`: through the localiser's defaults.
    pub explicit: Option<(String, Option<bool>, Option<bool>)>,
}

pub fn describe_data(d: &LocalisationData) -> String {
    match &d.values {
        None => format!("{:?}/{:?}", d.component, d.identifier),
        Some(values) => {
            let mut list: Vec<String> = values
                .iter()
                .map(|(k, v)| match v {
                    PlaceholderValue::LocalisationData(inner) => format!("{k:?}=<{}>", describe_data(inner)),
                    v => format!("{k:?}={:?}", cmd::describe(v)),
                })
                .collect();
            list.sort();
            format!("{:?}/{:?} with {}", d.component, d.identifier, list.join(", "))
        }
    }
}

impl Call {
    pub fn describe(&self) -> String {
        let what = match &self.request {
            Request::Format { component, identifier, values } => {
                format!("format {component:?} {identifier:?} {{{}}}", describe_values(values))
            }
            Request::Literal { component, identifier } => format!("literal {component:?} {identifier:?}"),
            Request::Data(d) => format!("data {}", describe_data(d)),
            Request::Error(d) => format!("error {}", describe_data(d)),
        };
        match &self.explicit {
            None => format!("{what} with defaults"),
            Some((tag, f, c)) => format!("{what} for {tag} fallback {f:?} caching {c:?}"),
        }
    }
}

/// `uncached`: as the call, but without caching.
pub fn perform(b: &Bench, localiser: &Localiser, call: &Call, uncached: bool) -> Answer {
    let c = |c: &Option<bool>| if uncached { Some(false) } else { *c };
    match (&call.request, &call.explicit) {
        (Request::Format { component, identifier, values }, Some((tag, f, caching))) => {
            localiser.format(component, identifier, values, &b.registry.tag(tag)?, *f, c(caching))
        }
        (Request::Format { component, identifier, values }, None) => localiser.format_with_defaults(component, identifier, values),
        (Request::Literal { component, identifier }, Some((tag, f, caching))) => {
            localiser.literal(component, identifier, &b.registry.tag(tag)?, *f, c(caching))
        }
        (Request::Literal { component, identifier }, None) => localiser.literal_with_defaults(component, identifier),
        (Request::Data(data), Some((tag, f, caching))) => {
            localiser.format_localisation_data(data, &b.registry.tag(tag)?, *f, c(caching))
        }
        (Request::Data(data), None) => localiser.format_localisation_data_with_defaults(data),
        (Request::Error(data), Some((tag, f, caching))) => {
            localiser.format_error(&Failure(data.clone()), &b.registry.tag(tag)?, *f, c(caching))
        }
        (Request::Error(data), None) => localiser.format_error_with_defaults(&Failure(data.clone())),
    }
}

pub fn show(answer: &Answer) -> String {
    match answer {
        Ok((text, tag)) => format!("{:?} ({})", text.as_str(), tag.as_str()),
        Err(error) => format!("error {error}"),
    }
}

/// What must agree: texts and tags completely, missing strings and provider errors completely, other errors as errors.
fn key(answer: &Answer) -> String {
    match answer {
        Ok((text, tag)) => format!("ok {}\0{}", tag.as_str(), text.as_str()),
        Err(error) => class(error),
    }
}

pub fn class(error: &LocaliserError) -> String {
    match error {
        LocaliserError::StringNotFound(c, i, t, f) => format!("not found {c}\0{i}\0{t}\0{f}"),
        LocaliserError::Provider(error) => format!("provider {error}"),
        LocaliserError::Formatter(_) => "formatter error".to_string(),
        error => format!("error {error}"),
    }
}

const COMPONENTS: &[&str] = &["c", "d", "c/d", "a", "a/b", "ab", "", "1/a", "C", "application"];
const IDENTIFIERS: &[&str] = &["x", "y", "d/x", "b/x", "bx", "", "1/x", "/x", "X", "x ", "ẍ", "true/x"];
const LANGUAGES: &[&str] = &["en", "en-ZA", "en-US", "de", "de-CH", "de-Latn-CH", "fr", "it", "hi", "ar-EG", "zh-Hant", "zh-Hant-TW", "und", "pt-PT", "fi", "fil", "fil-PH", "den", "zh", "pt"];

fn texts(rng: &mut Rng, unique: usize) -> String {
    let n = unique;
    match rng.below(20) {
        0 => format!("plain {n}"),
        1 => String::new(),
        2 => format!("{n}: {{a}}"),
        3 => format!("{n}: {{n decimal}} and {{a}}"),
        4 => format!("{n}: {{n plural one#o other#r}}#{{o one #}}{{r # of them}}"),
        5 => format!("{n}: {{n plural one#o other#r}} {{m plural other#r}}#{{o one #}}{{r # of them}}"),
        6 => format!("{n}: {{a select q#o other#r}} {{n plural other#r}}#{{o Q}}{{r [#]}}"),
        7 => format!("{n}: {{#echo# a `a`}}"),
        8 => format!("{n}: {{#echo a}}"),
        9 => format!("{n}: broken {{a"),
        10 => format!("{n}: `{{ and `` and `#"),
        11 => format!("{n}: {{`literal {{}}`}}"),
        12 => format!("{n}: {{d date_time}}"),
        13 => format!("{n}: {{n ordinal one#o two#o few#o other#r}}#{{o st #}}{{r th #}}"),
        14 => format!("{n}: {{n plural other#r}}#{{q <#>}}{{r {{m plural other#q}} #}}"),
        15 => format!("{n}: {{#echo# n m}} {{#echo# `a` d}}"),
        16 => format!("{n}: {{#echo#}}{{#echo# b}}{{#echo `b` n}}"),
        17 => format!("{n}: {{n plural one#o other#r}}#{{o {{#echo# m}} #}}{{r {{#echo# a}}{{d date_time}} #}}"),
        18 => format!("{n}: {{a}} {{n decimal sign#always}} {{m ordinal one#o other#r}}#{{o {{#echo# a}}}}{{r #`#}}"),
        _ if n % 2 == 0 => format!("{n} }} stray"),
        _ => format!("{n} #{{b x}}"),
    }
}

/// What every text made of a stored one begins with: the number of the stored text.
fn start_of(text: &str) -> &str {
    let number = text.strip_prefix("plain ").unwrap_or(text);
    let end = number.find(|c: char| !c.is_ascii_digit()).unwrap_or(number.len());
    &text[..text.len() - number.len() + end]
}

fn fill(rng: &mut Rng, b: &Bench, hot: &[(String, String)], languages: &[&str]) {
    let store = &b.store;
    store.defaults.borrow_mut().clear();
    // The texts of one history are not those of another.
    let mut unique = rng.below(1 << 20) * 1_000;
    let tag = |rng: &mut Rng| {
        if rng.chance(3, 4) {
            *rng.pick(languages)
        } else {
            *rng.pick(LANGUAGES)
        }
    };
    for c in COMPONENTS {
        let wanted = hot.iter().any(|(h, _)| h == c);
        if !rng.chance(if wanted { 19 } else { 12 }, 20) {
            continue;
        }
        let default = tag(rng);
        store.defaults.borrow_mut().insert(c.to_string(), default.to_string());
        for i in IDENTIFIERS {
            let wanted = hot.iter().any(|(h, j)| h == c && j == i);
            if rng.chance(if wanted { 19 } else { 10 }, 20) {
                for _ in 0..rng.range(1, 4) {
                    unique += 1;
                    let tag = tag(rng);
                    let text = texts(rng, unique);
                    store.set(c, i, tag, &text);
                }
            }
        }
    }
}

fn pool(rng: &mut Rng) -> Vec<&'static str> {
    let mut l: Vec<&str> = LANGUAGES.to_vec();
    rng.shuffle(&mut l);
    // Now and then tags that begin alike, of one language or not.
    if rng.chance(1, 2) {
        let start = *rng.pick(&["en", "de", "zh", "fi", "pt"]);
        l.sort_by_key(|t| !t.starts_with(start));
        l.truncate(4);
        rng.shuffle(&mut l);
    }
    l.truncate(rng.range(1, 4));
    l
}

fn values(rng: &mut Rng, b: &Bench) -> Values {
    let mut values = Values::new();
    // Now and then none at all, or only some: enough for patterns that use no placeholder.
    let left_out = *rng.pick(&[1, 1, 1, 1, 1, 1, 6, 12]);
    for name in ["a", "n", "m", "d", "b"] {
        if rng.chance(if name == "b" { 8 } else { left_out }, 12) {
            continue;
        }
        let value = match name {
            _ if rng.chance(1, 12) => gen::any_value(rng, &b.registry),
            "a" => {
                let s = match rng.below(4) {
                    0 => "q".to_string(),
                    1 => "{n decimal}".to_string(),
                    _ => gen::any_text_value(rng),
                };
                gen::string_value(rng, &b.registry, s)
            }
            "d" => gen::moment(rng),
            _ => PlaceholderValue::Unsigned(if rng.chance(3, 4) { rng.below(25) as u128 } else { gen::unsigned(rng) }),
        };
        values.insert(name.to_string(), value);
    }
    values
}

fn names(rng: &mut Rng, hot: &[(String, String)]) -> (String, String) {
    if rng.chance(3, 4) {
        rng.pick(hot).clone()
    } else {
        (rng.pick(COMPONENTS).to_string(), rng.pick(IDENTIFIERS).to_string())
    }
}

fn data(rng: &mut Rng, b: &Bench, hot: &[(String, String)], depth: usize) -> LocalisationData {
    let (component, identifier) = names(rng, hot);
    if rng.chance(1, 4) {
        return LocalisationData { component, identifier, values: None };
    }
    let mut values = values(rng, b);
    if depth > 0 {
        for name in ["a", "n", "extra"] {
            if rng.chance(1, if name == "a" { 2 } else { 10 }) {
                values.insert(name.to_string(), PlaceholderValue::LocalisationData(data(rng, b, hot, depth - 1)));
            }
        }
    }
    LocalisationData { component, identifier, values: Some(values) }
}

fn request(rng: &mut Rng, b: &Bench, hot: &[(String, String)]) -> Request {
    match rng.below(9) {
        0..=3 => {
            let (component, identifier) = names(rng, hot);
            Request::Format { component, identifier, values: values(rng, b) }
        }
        4 | 5 => {
            let (component, identifier) = names(rng, hot);
            Request::Literal { component, identifier }
        }
        6 => Request::Error(data(rng, b, hot, 3)),
        _ => Request::Data(data(rng, b, hot, 3)),
    }
}

fn any_language(rng: &mut Rng, pool: &[&str]) -> String {
    if rng.chance(2, 3) {
        rng.pick(pool).to_string()
    } else {
        rng.pick(LANGUAGES).to_string()
    }
}

fn option(rng: &mut Rng) -> Option<bool> {
    *rng.pick(&[None, Some(true), Some(false)])
}

/// Pairs of names the history keeps returning to, among them pairs that look alike when joined.
fn hot(rng: &mut Rng) -> Vec<(String, String)> {
    let mut hot = vec![
        ("a".to_string(), "b/x".to_string()),
        ("a/b".to_string(), "x".to_string()),
        ("ab".to_string(), "x".to_string()),
        ("a".to_string(), "bx".to_string()),
        ("c".to_string(), "d/x".to_string()),
        ("c/d".to_string(), "x".to_string()),
        ("".to_string(), "x".to_string()),
        ("".to_string(), "1/x".to_string()),
        ("1/a".to_string(), "x".to_string()),
        ("c".to_string(), "x".to_string()),
        ("C".to_string(), "x".to_string()),
        ("c".to_string(), "X".to_string()),
    ];
    rng.shuffle(&mut hot);
    hot.truncate(rng.range(2, 5));
    hot
}

// ---- C12 ----

fn note_formatted(request: &Request, set: &mut HashSet<(String, String)>) {
    match request {
        Request::Format { component, identifier, .. } => {
            set.insert((component.clone(), identifier.clone()));
        }
        Request::Data(d) | Request::Error(d) => note_data(d, set),
        _ => {}
    }
}

fn note_data(d: &LocalisationData, set: &mut HashSet<(String, String)>) {
    if let Some(values) = &d.values {
        set.insert((d.component.clone(), d.identifier.clone()));
        for v in values.values() {
            if let PlaceholderValue::LocalisationData(inner) = v {
                note_data(inner, set);
            }
        }
    }
}

fn asks_literal(request: &Request, c: &str, i: &str) -> bool {
    fn inside(d: &LocalisationData, c: &str, i: &str) -> bool {
        match &d.values {
            None => d.component == c && d.identifier == i,
            Some(values) => values.values().any(|v| matches!(v, PlaceholderValue::LocalisationData(x) if inside(x, c, i))),
        }
    }
    match request {
        Request::Format { .. } => false,
        Request::Literal { component, identifier } => component == c && identifier == i,
        Request::Data(d) | Request::Error(d) => inside(d, c, i),
    }
}

fn grammar_stored(store: &Rc<Store>, c: &str, i: &str) -> bool {
    store
        .strings
        .borrow()
        .get(&(c.to_string(), i.to_string()))
        .is_some_and(|texts| texts.values().any(|t| pat::has_grammar(t)))
}

/// For the transcripts. Nested data are left to `nested`: which of several failing parts is reported, and what was cached
/// until then, depends on the order of a hash map, and so does whether the literal of a pattern is in the cache.
fn note(ctx: &mut Ctx, b: &Bench, call: &Call, got: &Answer) {
    match &call.request {
        Request::Data(_) | Request::Error(_) => {}
        Request::Literal { component, identifier } if grammar_stored(&b.store, component, identifier) => {}
        _ => ctx.record(|| key(got)),
    }
}

pub fn caching_history(ctx: &mut Ctx, rng: &mut Rng, faults: bool) {
    caching_history_of(ctx, rng, faults, false)
}

fn caching_history_of(ctx: &mut Ctx, rng: &mut Rng, faults: bool, long: bool) {
    let b = c07::bench("en");
    let mut hot = hot(rng);
    let mut languages = pool(rng);
    if long {
        // Few names or few languages, and many of the other.
        if rng.chance(1, 2) {
            hot = COMPONENTS.iter().flat_map(|c| IDENTIFIERS.iter().map(|i| (c.to_string(), i.to_string()))).collect();
        } else {
            languages = LANGUAGES.to_vec();
        }
    }
    fill(rng, &b, &hot, &languages);
    let start = rng.pick(LANGUAGES).to_string();
    let (mut fallback, caching) = (rng.chance(1, 2), rng.chance(2, 3));
    let mut language = start.clone();
    let localiser = b.fresh(fallback, caching, &start);
    let mut trace = vec![format!("localiser {start} fallback {fallback} caching {caching}")];
    let mut formatted: HashSet<(String, String)> = HashSet::new();
    let mut repeats: HashSet<(String, String)> = HashSet::new();
    let mut hits = 0u64;
    for _ in 0..if long { rng.range(300, 900) } else { rng.range(8, 40) } {
        if rng.chance(1, 10) {
            let (l, f, c) = (rng.chance(1, 2).then(|| rng.pick(&languages).to_string()), option(rng), option(rng));
            trace.push(format!("defaults {l:?} {f:?} {c:?}"));
            let tag = l.as_ref().map(|l| b.registry.tag(l).expect("tag"));
            localiser.defaults(tag, f, c).expect("defaults");
            if let Some(l) = l {
                language = l;
            }
            fallback = f.unwrap_or(fallback);
            continue;
        }
        let call = Call {
            request: request(rng, &b, &hot),
            explicit: rng.chance(3, 4).then(|| (rng.pick(&languages).to_string(), option(rng), *rng.pick(&[None, Some(true), Some(true), Some(false)]))),
        };
        trace.push(call.describe());
        ctx.eval();
        let lookups = b.store.lookups.get();
        if faults && rng.chance(1, 3) {
            let calls = rng.below(4) as u64;
            b.store.fail_in.set(Some(calls));
            trace.push(format!("(the provider fails after {calls} calls)"));
        }
        let failures = b.store.failures.get();
        let got = perform(&b, &localiser, &call, false);
        b.store.fail_in.set(None);
        // Whether a failure is met depends on what is cached, see `note`.
        if !faults {
            note(ctx, &b, &call, &got);
        }
        if b.store.failures.get() > failures {
            let marker = Store::marker(b.store.failures.get());
            let ok = matches!(&got, Err(e) if e.to_string().contains(&marker));
            ctx.hit("failed_requests");
            if !ctx.check(ok, || format!("history {}: the provider failed with {marker}, the request gives {}", trace.join("; "), show(&got))) {
                return;
            }
            note_formatted(&call.request, &mut formatted);
            hits += 1;
            continue;
        }
        if b.store.failures.get() > 0 {
            ctx.hit("answers_after_failure");
        }
        if b.store.lookups.get() == lookups {
            hits += 1;
        }
        let fresh = b.fresh(fallback, false, &language);
        let expected = perform(&b, &fresh, &call, true);
        let excused = matches!(&got, Err(LocaliserError::CacheEntry(c, i))
            if asks_literal(&call.request, c, i) && (formatted.contains(&(c.clone(), i.clone())) || matches!(call.request, Request::Data(_) | Request::Error(_))) && grammar_stored(&b.store, c, i));
        if excused {
            ctx.hit("cache_entry_exception");
        } else if !ctx.check(key(&got) == key(&expected), || {
            format!("history {}: the last request gives {}, without caching {}", trace.join("; "), show(&got), show(&expected))
        }) {
            return;
        }
        if let Ok((text, tag)) = &got {
            let (c, i) = match &call.request {
                Request::Format { component, identifier, .. } | Request::Literal { component, identifier } => (component, identifier),
                Request::Data(d) | Request::Error(d) => (&d.component, &d.identifier),
            };
            let (wanted, falls) = match &call.explicit {
                None => (&language, fallback),
                Some((tag, f, _)) => (tag, f.unwrap_or(fallback)),
            };
            let stored = resolve(&b.store, c, i, wanted, falls);
            let ok = stored.as_ref().is_some_and(|(s, found)| found == tag.as_str() && text.starts_with(start_of(s)));
            ctx.hit("answers_traced_to_the_store");
            if !ctx.check(ok, || {
                format!("history {}: the last request gives {}, the provider of this localiser stores {stored:?}", trace.join("; "), show(&got))
            }) {
                return;
            }
        }
        match &got {
            Ok(_) => ctx.hit("answers_text"),
            Err(LocaliserError::StringNotFound(..)) => ctx.hit("answers_not_found"),
            Err(_) => ctx.hit("answers_error"),
        }
        let what = match &call.request {
            Request::Format { component, identifier, .. } | Request::Literal { component, identifier } => {
                (component.clone(), identifier.clone())
            }
            Request::Data(d) | Request::Error(d) => (d.component.clone(), d.identifier.clone()),
        };
        if !repeats.insert(what) {
            ctx.hit("repeated_requests");
        }
        note_formatted(&call.request, &mut formatted);
    }
    ctx.add("answered_from_cache", hits);
    if hits > 0 {
        ctx.distinct(&trace);
    }
    ctx.sample(|| trace.join("; "));
}

// ---- C13 ----

struct Model {
    language: String,
    fallback: bool,
}

/// The stored text and its tag a request must be answered from.
fn resolve(store: &Store, c: &str, i: &str, tag: &str, fallback: bool) -> Option<(String, String)> {
    if let Some(found) = store.find(c, i, tag) {
        return Some(found);
    }
    if !fallback {
        return None;
    }
    let default = store.defaults.borrow().get(c)?.clone();
    store.find(c, i, &default)
}

#[derive(Debug, PartialEq)]
enum Expected {
    Text(String, String),
    NotFound(String, String, String, bool),
    UnknownComponent(String),
    Error,
    Open,
}

fn expect_format(store: &Store, c: &str, i: &str, values: &Values, tag: &str, fallback: bool) -> Expected {
    if !store.defaults.borrow().contains_key(c) {
        return Expected::UnknownComponent(c.to_string());
    }
    match resolve(store, c, i, tag, fallback) {
        None => Expected::NotFound(c.to_string(), i.to_string(), tag.to_string(), fallback),
        Some((text, found)) => match pat::judge(&text, &env(&found, values)) {
            Verdict::Text(t) => Expected::Text(t, found),
            Verdict::Error => Expected::Error,
            Verdict::Open => Expected::Open,
        },
    }
}

fn expect_literal(store: &Store, c: &str, i: &str, tag: &str, fallback: bool) -> Expected {
    if !store.defaults.borrow().contains_key(c) {
        return Expected::UnknownComponent(c.to_string());
    }
    match resolve(store, c, i, tag, fallback) {
        None => Expected::NotFound(c.to_string(), i.to_string(), tag.to_string(), fallback),
        Some((text, found)) => Expected::Text(text, found),
    }
}

fn expect_data(b: &Bench, d: &LocalisationData, tag: &str, fallback: bool) -> Expected {
    let Some(values) = &d.values else {
        return expect_literal(&b.store, &d.component, &d.identifier, tag, fallback);
    };
    let mut new = Values::new();
    let mut failed = false;
    let mut open = false;
    for (name, value) in values {
        match value {
            PlaceholderValue::LocalisationData(inner) => match expect_data(b, inner, tag, fallback) {
                Expected::Text(text, found) => {
                    new.insert(
                        name.clone(),
                        PlaceholderValue::Localised(RefCount::new(text), b.registry.tag(&found).expect("tag")),
                    );
                }
                Expected::Open => open = true,
                _ => failed = true,
            },
            value => {
                new.insert(name.clone(), value.clone());
            }
        }
    }
    if failed {
        return Expected::Error;
    }
    if open {
        return Expected::Open;
    }
    expect_format(&b.store, &d.component, &d.identifier, &new, tag, fallback)
}

fn agrees(got: &Answer, expected: &Expected) -> bool {
    match (got, expected) {
        (_, Expected::Open) => true,
        (Ok((text, tag)), Expected::Text(t, found)) => text.as_str() == t && tag.as_str() == found,
        (Err(LocaliserError::StringNotFound(c, i, t, f)), Expected::NotFound(ec, ei, et, ef)) => {
            c == ec && i == ei && t == et && f == ef
        }
        (Err(LocaliserError::Provider(error)), Expected::UnknownComponent(c)) => {
            matches!(error, i18n_provider::ProviderError::ComponentNotFound(x) if x == c)
        }
        (Err(_), Expected::Error) => true,
        _ => false,
    }
}

fn defaults_history(ctx: &mut Ctx, rng: &mut Rng) {
    let b = c07::bench("en");
    let hot = hot(rng);
    let languages = pool(rng);
    fill(rng, &b, &hot, &languages);
    let mut model = Model {
        language: rng.pick(LANGUAGES).to_string(),
        fallback: rng.chance(1, 2),
    };
    let caching = rng.chance(1, 3);
    let localiser = b.fresh(model.fallback, caching, &model.language);
    let mut trace = vec![format!("localiser {} fallback {} caching {caching}", model.language, model.fallback)];
    let mut changes = 0;
    for _ in 0..rng.range(5, 30) {
        if rng.chance(1, 4) {
            let (l, f, c) = (
                rng.chance(1, 3).then(|| any_language(rng, &languages)),
                if rng.chance(1, 2) { None } else { Some(rng.chance(1, 2)) },
                if rng.chance(2, 3) { None } else { Some(rng.chance(1, 2)) },
            );
            trace.push(format!("defaults {l:?} {f:?} {c:?}"));
            localiser.defaults(l.as_ref().map(|l| b.registry.tag(l).expect("tag")), f, c).expect("defaults");
            if let Some(l) = l {
                model.language = l;
                ctx.hit("default_language_changed");
            }
            if let Some(f) = f {
                model.fallback = f;
                ctx.hit("default_fallback_changed");
            }
            changes += 1;
        } else {
            let call = Call {
                request: request(rng, &b, &hot),
                explicit: rng.chance(1, 2).then(|| (any_language(rng, &languages), option(rng), option(rng))),
            };
            trace.push(call.describe());
            let (tag, fallback) = match &call.explicit {
                None => (model.language.clone(), model.fallback),
                Some((tag, f, _)) => (tag.clone(), f.unwrap_or(model.fallback)),
            };
            let got = perform(&b, &localiser, &call, false);
            note(ctx, &b, &call, &got);
            ctx.eval();
            if let Err(LocaliserError::CacheEntry(c, i)) = &got {
                if asks_literal(&call.request, c, i) && grammar_stored(&b.store, c, i) {
                    ctx.hit("cache_entry_exception");
                    continue;
                }
            }
            let expected = match &call.request {
                Request::Format { component, identifier, values } => {
                    expect_format(&b.store, component, identifier, values, &tag, fallback)
                }
                Request::Literal { component, identifier } => expect_literal(&b.store, component, identifier, &tag, fallback),
                Request::Data(d) | Request::Error(d) => expect_data(&b, d, &tag, fallback),
            };
            if !ctx.check(agrees(&got, &expected), || {
                format!("history {}: expected {expected:?}, got {}", trace.join("; "), show(&got))
            }) {
                return;
            }
            if let Request::Format { component, identifier, .. } | Request::Literal { component, identifier } = &call.request {
                let direct = b.store.find(component, identifier, &tag).is_some();
                ctx.hit(match (&expected, direct) {
                    (Expected::Text(_, found), true) if *found == tag => "found_exactly",
                    (Expected::Text(..), true) => "found_by_truncation",
                    (Expected::Text(..), false) => "found_by_fallback",
                    (Expected::NotFound(_, _, _, true), _) => "not_found_with_fallback",
                    (Expected::NotFound(..), _) => "not_found_without_fallback",
                    (Expected::UnknownComponent(_), _) => "unknown_component",
                    _ => "other_outcomes",
                });
            }
            ctx.hit(if call.explicit.is_some() { "explicit_requests" } else { "default_requests" });
        }
        let now = localiser.default_language();
        if !ctx.check(now.as_str() == model.language, || {
            format!("history {}: the default language is {}, expected {}", trace.join("; "), now.as_str(), model.language)
        }) {
            return;
        }
    }
    if changes > 0 {
        ctx.distinct(&trace);
    }
    ctx.sample(|| trace.join("; "));
}

/// Whether the current default of caching is used, seen by the lookups that reach the provider.
fn caching_default(ctx: &mut Ctx, rng: &mut Rng) {
    let b = c07::bench("en");
    let kind = rng.below(3);
    b.store.set("c", "k", "en", ["plain", "{a}", ""][kind]);
    let mut caching = rng.chance(1, 2);
    let localiser = b.fresh(true, caching, "en");
    let tag = b.registry.tag("en").expect("tag");
    let mut values = Values::new();
    values.insert("a".to_string(), PlaceholderValue::String("v".to_string()));
    let mut trace = vec![format!("caching {caching}")];
    let mut cached = false;
    for _ in 0..rng.range(2, 10) {
        if rng.chance(1, 3) {
            let c = option(rng);
            let f = option(rng);
            let l = rng.chance(1, 3).then(|| RefCount::clone(&tag));
            trace.push(format!("defaults {} {f:?} {c:?}", l.is_some()));
            localiser.defaults(l, f, c).expect("defaults");
            caching = c.unwrap_or(caching);
            // The fallback choice is part of what a cached answer depends on.
            if f.is_some() {
                localiser.defaults(None, Some(true), None).expect("defaults");
            }
            continue;
        }
        let explicit = rng.chance(1, 2).then(|| option(rng));
        let before = b.store.lookups.get();
        trace.push(format!("format {explicit:?}"));
        let got = match explicit {
            None => localiser.format_with_defaults("c", "k", &values),
            Some(c) => localiser.format("c", "k", &values, &tag, None, c),
        };
        ctx.eval();
        let asked = b.store.lookups.get() - before;
        ctx.check(got.is_ok(), || format!("{trace:?}: {}", show(&got)));
        // Never required to answer from the cache; but nothing may be kept while caching is off.
        ctx.check(cached || asked >= 1, || format!("{trace:?}: answered without asking the provider though caching was off"));
        if explicit.flatten().unwrap_or(caching) {
            cached = true;
            ctx.hit("requests_caching");
        } else {
            ctx.hit("requests_not_caching");
        }
        if asked == 0 {
            ctx.hit("answered_from_cache");
        }
    }
    ctx.distinct(&trace);
}

// ---- C14, nested data ----

pub fn nested(ctx: &mut Ctx, rng: &mut Rng) {
    let b = c07::bench("en");
    let hot = hot(rng);
    let languages = pool(rng);
    fill(rng, &b, &hot, &languages);
    for _ in 0..8 {
        let d = data(rng, &b, &hot, 5);
        let tag = any_language(rng, &languages);
        let fallback = rng.chance(2, 3);
        let (caching, defaults) = (rng.chance(1, 3), rng.chance(1, 3));
        let rt = b.registry.tag(&tag).expect("tag");
        let localiser = b.fresh(fallback, caching, if defaults { &tag } else { "en" });
        let got = if defaults {
            localiser.format_localisation_data_with_defaults(&d)
        } else {
            localiser.format_localisation_data(&d, &rt, Some(fallback), Some(caching))
        };
        if !caching {
            ctx.record(|| if got.is_ok() { key(&got) } else { "error".to_string() });
        }
        ctx.eval();
        if matches!(&got, Err(LocaliserError::CacheEntry(..))) && caching {
            ctx.hit("cache_entry_exception");
            continue;
        }
        let expected = expect_data(&b, &d, &tag, fallback);
        let depth = depth(&d);
        ctx.check(agrees(&got, &expected), || {
            format!("data {} for {tag} fallback {fallback}: expected {expected:?}, got {}", describe_data(&d), show(&got))
        });
        ctx.hit(&format!("nesting_{depth}"));
        if let Expected::Text(text, _) = &expected {
            ctx.hit("data_rendered");
            if depth > 0 {
                ctx.distinct(text.as_str());
                ctx.sample(|| format!("{} -> {text:?}", describe_data(&d)));
            }
        } else {
            ctx.hit("data_failed");
        }
    }
}

fn depth(d: &LocalisationData) -> usize {
    d.values
        .iter()
        .flatten()
        .filter_map(|(_, v)| match v {
            PlaceholderValue::LocalisationData(inner) => Some(1 + depth(inner)),
            _ => None,
        })
        .max()
        .unwrap_or(0)
}

/// Data nested very deeply, each level wrapping the text of the one inside.
pub fn deep(ctx: &mut Ctx, rng: &mut Rng) {
    let b = c07::bench("en");
    b.store.set("c", "leaf", "en", "leaf {`}`}");
    b.store.set("c", "leaf", "de", "Blatt {`}`}");
    b.store.set("c", "wrap", "en", "<{v} {w}>");
    b.store.set("c", "wrap", "de", "«{v} {w}»");
    let (lang, leaf, open, close) = if rng.chance(1, 2) { ("en", "leaf }", "<", ">") } else { ("de", "Blatt }", "«", "»") };
    let levels = rng.range(1, 60);
    let mut d = LocalisationData { component: "c".to_string(), identifier: "leaf".to_string(), values: Some(Values::new()) };
    let mut expected = leaf.to_string();
    for level in 0..levels {
        let mut values = Values::new();
        values.insert("v".to_string(), PlaceholderValue::LocalisationData(d));
        values.insert("w".to_string(), PlaceholderValue::String(level.to_string()));
        d = LocalisationData { component: "c".to_string(), identifier: "wrap".to_string(), values: Some(values) };
        expected = format!("{open}{expected} {level}{close}");
    }
    let tag = b.registry.tag(lang).expect("tag");
    let got = b.localiser.format_localisation_data(&d, &tag, Some(rng.chance(1, 2)), Some(rng.chance(1, 2)));
    ctx.eval();
    let ok = matches!(&got, Ok((t, l)) if **t == expected && l.as_str() == lang);
    ctx.check(ok, || format!("{levels} levels of data for {lang}: expected {expected:?}, got {}", show(&got)));
    ctx.hit("deep_data");
    ctx.distinct(&expected);
}

pub fn run(ctx: &mut Ctx) {
    match ctx.prop.as_str() {
        "C12" => {
            ctx.phase("histories", 12_000, 200_000, |ctx, rng, _| caching_history(ctx, rng, false));
            ctx.phase("long_histories", 80, 2_000, |ctx, rng, _| caching_history_of(ctx, rng, false, true));
        }
        _ => {
            ctx.phase("histories", 12_000, 250_000, |ctx, rng, _| defaults_history(ctx, rng));
            ctx.phase("caching", 4_000, 60_000, |ctx, rng, _| caching_default(ctx, rng));
        }
    }
}
