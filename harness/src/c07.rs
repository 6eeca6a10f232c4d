//! C07, C08, C09, C10, C11 and C16: what formatting a pattern string yields, judged by the reference reading of the
//! pattern language in `pat` and by ICU asked directly.

use crate::cmd;
use crate::gen::{self, Builder, Mix};
use crate::mem::{icu_provider, Bench, Values};
use crate::oracle::{self, Grouping};
use crate::pat::{self, Doc, Env, Part, Verdict};
use crate::text::*;
use crate::util::*;
use i18n_localiser::{CommandError, CommandRegistry};
use i18n_utility::PlaceholderValue;
use std::collections::BTreeMap;

const CATEGORIES: [&str; 6] = ["zero", "one", "two", "few", "many", "other"];

pub fn describe_values(values: &Values) -> String {
    let mut list: Vec<String> = values.iter().map(|(k, v)| format!("{k:?}={:?}", cmd::describe(v))).collect();
    list.sort();
    list.join(", ")
}

pub fn env<'a>(lang: &'a str, values: &'a Values) -> Env<'a> {
    Env {
        lang,
        values,
        commands: &cmd::reference,
    }
}

pub fn bench(language: &str) -> Bench {
    thread_local! {
        static ICU: RefCount<i18n_lexer::IcuDataProvider> = icu_provider();
    }
    let bench = ICU.with(|icu| Bench::with(icu, false, false, language));
    cmd::register(&bench.commands);
    bench
}

/// Formats the pattern in one of several ways that must all agree, and compares with the verdict. Returns whether the
/// verdict was a text.
pub fn compare(ctx: &mut Ctx, rng: &mut Rng, b: &Bench, pattern: &str, lang: &str, values: &Values, verdict: &Verdict) -> bool {
    ctx.eval();
    let way = rng.below(8);
    let results = match guarded(|| match way {
        0..=4 => vec![b.pattern(pattern, lang, values)],
        5 => vec![b.pattern_defaults(pattern, lang, values)],
        6 => b.pattern_cached(pattern, lang, values, 2),
        _ => vec![b.pattern_data(pattern, lang, values)],
    }) {
        Ok(results) => results,
        Err(message) => {
            ctx.fail(format!(
                "formatting {pattern:?} for {lang} with {} (way {way}): {message}",
                describe_values(values)
            ));
            return false;
        }
    };
    let single = ctx.phase_is(&["faults", "kinds"]);
    for result in results {
        ctx.record(|| match &result {
            Ok(text) => format!("{pattern:?} {lang}: {text:?}"),
            // Which of several faults of one pattern is reported is left open.
            Err(error) if single => format!("{pattern:?} {lang}: error {error}"),
            Err(error) => format!("{pattern:?} {lang}: {}", crate::c12::class(error)),
        });
        let show = || match &result {
            Ok(text) => format!("text {text:?}"),
            Err(error) => format!("error {error}"),
        };
        let bad = match (verdict, &result) {
            (Verdict::Text(expected), Ok(text)) => expected != text,
            (Verdict::Text(_), Err(_)) => true,
            (Verdict::Error, Ok(_)) => true,
            (Verdict::Error, Err(_)) | (Verdict::Open, _) => false,
        };
        if bad {
            ctx.fail(format!(
                "formatting {pattern:?} for {lang} with {} (way {way}): expected {verdict:?}, got {}",
                describe_values(values),
                show()
            ));
            return false;
        }
    }
    match verdict {
        Verdict::Text(_) => ctx.hit("verdict_text"),
        Verdict::Error => ctx.hit("verdict_error"),
        Verdict::Open => ctx.hit("verdict_open"),
    }
    matches!(verdict, Verdict::Text(_))
}

fn count_parts(ctx: &mut Ctx, doc: &Doc) {
    for part in doc.main.iter().chain(doc.named.iter().flat_map(|(_, p)| p)) {
        ctx.hit(match part {
            Part::Text(s) if s.contains(['{', '}', '`', '#']) => "parts_escaped_text",
            Part::Text(_) => "parts_text",
            Part::Literal(_) => "parts_literal",
            Part::Number => "parts_number_sign",
            Part::Str(_) => "parts_string",
            Part::Keyword { keyword, .. } => match keyword.as_str() {
                "decimal" => "parts_decimal",
                "date_time" => "parts_date_time",
                "plural" => "parts_plural",
                "ordinal" => "parts_ordinal",
                _ => "parts_select",
            },
            Part::Command { delayed: true, .. } => "parts_command_delayed",
            Part::Command { .. } => "parts_command",
        });
    }
}

/// A random well-formed pattern string, judged by its tree (not by parsing what was printed).
fn docs(ctx: &mut Ctx, rng: &mut Rng, mix: Mix) {
    docs_of_scale(ctx, rng, mix, 1)
}

fn docs_of_scale(ctx: &mut Ctx, rng: &mut Rng, mix: Mix, scale: usize) {
    let lang = gen::language(rng);
    let b = bench("en");
    for _ in 0..if scale > 1 { 1 } else { 8 } {
        let (doc, values) = {
            let mut builder = Builder::new(rng, &b.registry, mix);
            builder.scale = scale;
            let doc = builder.doc();
            (doc, builder.values)
        };
        let pattern = pat::print(rng, &doc);
        let verdict = pat::evaluate(&doc, &env(&lang, &values));
        if pat::has_grammar(&pattern) {
            // Guards the reference itself: reading the printed tree gives the same verdict.
            if pat::judge(&pattern, &env(&lang, &values)) != verdict {
                ctx.hit("reference_disagrees");
                ctx.sample(|| format!("REFERENCE DISAGREES {pattern:?}"));
                continue;
            }
        }
        if compare(ctx, rng, &b, &pattern, &lang, &values, &verdict) {
            count_parts(ctx, &doc);
            if scale > 1 {
                ctx.hit("crowded");
                ctx.add("crowded_parts", (doc.main.len() + doc.named.iter().map(|(_, p)| p.len()).sum::<usize>()) as u64);
            }
            if doc.main.len() + doc.named.len() > 2 {
                ctx.distinct(&(pattern.as_str(), lang.as_str()));
            }
            ctx.sample(|| format!("{lang}: {pattern:?} -> {verdict:?}"));
        }
    }
}

// ---- C07 ----

fn plain(ctx: &mut Ctx, rng: &mut Rng) {
    let lang = gen::language(rng);
    let b = bench("en");
    for _ in 0..8 {
        let n = rng.range(0, 40);
        let pattern: String = any_string(rng, n, "").chars().filter(|c| !"{}`#".contains(*c)).collect();
        let verdict = Verdict::Text(pattern.clone());
        if pattern.is_empty() {
            ctx.hit("plain_empty");
        }
        if compare(ctx, rng, &b, &pattern, &lang, &Values::new(), &verdict) {
            ctx.hit("plain");
            ctx.distinct(&pattern);
        }
    }
}

/// Every Unicode scalar value as text, inside a literal, inside a value and as part of a placeholder name.
fn scalars(ctx: &mut Ctx, rng: &mut Rng, block: u64, blocks: u64) {
    let b = bench("en");
    let mut text = String::new();
    let flush = |ctx: &mut Ctx, rng: &mut Rng, text: &mut String| {
        if text.is_empty() {
            return;
        }
        let mut doc = Doc::default();
        doc.main.push(Part::Text(text.clone()));
        doc.main.push(Part::Literal(text.clone()));
        doc.main.push(Part::Str("v".to_string()));
        doc.main.push(Part::Text(text.clone()));
        let mut values = Values::new();
        values.insert("v".to_string(), PlaceholderValue::String(text.clone()));
        let name: String = text.chars().filter(|c| !is_pattern_white_space(*c) && !is_pattern_syntax(*c)).collect();
        if !name.is_empty() && name != "v" {
            doc.main.push(Part::Str(name.clone()));
            values.insert(name, PlaceholderValue::String("name".to_string()));
        }
        let pattern = pat::print(rng, &doc);
        let verdict = pat::evaluate(&doc, &env("en", &values));
        compare(ctx, rng, &b, &pattern, "en", &values, &verdict);
        ctx.add("scalar_values", text.chars().count() as u64);
        ctx.distinct(text.as_str());
        text.clear();
    };
    let (low, high) = (0x11_0000 * block / blocks, 0x11_0000 * (block + 1) / blocks);
    for value in low..high {
        if let Some(c) = char::from_u32(value as u32) {
            text.push(c);
            if text.chars().count() == 37 {
                flush(ctx, rng, &mut text);
            }
        }
    }
    flush(ctx, rng, &mut text);
}

// ---- C08 ----

/// All small numbers, in every family of plural rules, with every set of listed categories.
fn categories(ctx: &mut Ctx, rng: &mut Rng) {
    let lang = gen::language(rng);
    let b = bench("en");
    let ordinal = rng.chance(1, 2);
    let keyword = if ordinal { "ordinal" } else { "plural" };
    let mut keys: Vec<&str> = CATEGORIES[..5].to_vec();
    rng.shuffle(&mut keys);
    keys.truncate(rng.range(0, 5));
    keys.push("other");
    rng.shuffle(&mut keys);
    let selectors: Vec<String> = keys.iter().map(|k| format!("{k}#n_{k}")).collect();
    let mut named: Vec<String> = keys.iter().map(|k| format!("{{n_{k} [{k}:#]}}")).collect();
    rng.shuffle(&mut named);
    let pattern = format!("{{n {keyword} {}}}#{}", selectors.join(" "), named.join(""));
    let mut numbers: Vec<PlaceholderValue> = (0..25).map(|_| PlaceholderValue::Unsigned(rng.below(210) as u128)).collect();
    for _ in 0..12 {
        numbers.push(if ordinal { PlaceholderValue::Unsigned(gen::unsigned(rng)) } else { gen::number(rng) });
    }
    for value in numbers {
        let decimal = pat::as_decimal(&value).expect("number");
        if decimal.sign() == fixed_decimal::Sign::Positive {
            continue;
        }
        let category = oracle::category(&lang, &decimal, ordinal);
        ctx.hit(&format!("category_{keyword}_{category}"));
        let listed = if keys.contains(&category) { category } else { "other" };
        let expected = format!("[{listed}:{}]", oracle::number(&lang, &decimal, Grouping::Auto));
        let mut values = Values::new();
        values.insert("n".to_string(), value);
        if compare(ctx, rng, &b, &pattern, &lang, &values, &Verdict::Text(expected)) {
            ctx.distinct(&(lang.as_str(), keyword, category, keys.clone(), decimal.to_string()));
        }
    }
}

/// Deep towers of branches, each reached through the one before.
fn towers(ctx: &mut Ctx, rng: &mut Rng, max_depth: usize) {
    let lang = gen::language(rng);
    let b = bench("en");
    let depth = rng.range(2, max_depth);
    let mut doc = Doc::default();
    let mut values = Values::new();
    doc.named.push(("b0".to_string(), vec![Part::Text("<".to_string()), Part::Number, Part::Text(">".to_string())]));
    for level in 1..=depth {
        let below = format!("b{}", level - 1);
        let name = format!("p{level}");
        let (keyword, value, key) = match rng.below(3) {
            0 => ("plural", gen::number(rng), "one"),
            1 => ("ordinal", PlaceholderValue::Unsigned(rng.below(150) as u128), "few"),
            _ => ("select", PlaceholderValue::String(rng.pick(&["x", "y"]).to_string()), "x"),
        };
        let other = format!("b{}", rng.range(level.saturating_sub(3), level - 1));
        values.insert(name.clone(), value);
        let mut parts = vec![Part::Text(format!("{level}:"))];
        if rng.chance(1, 2) {
            parts.push(Part::Number);
        }
        parts.push(Part::Keyword {
            name,
            keyword: keyword.to_string(),
            selectors: vec![(key.to_string(), below), ("other".to_string(), other)],
        });
        if rng.chance(1, 2) {
            parts.push(Part::Number);
        }
        doc.named.push((format!("b{level}"), parts));
    }
    values.insert("top".to_string(), gen::number(rng));
    doc.main.push(Part::Keyword {
        name: "top".to_string(),
        keyword: "plural".to_string(),
        selectors: vec![("other".to_string(), format!("b{depth}"))],
    });
    let pattern = pat::print(rng, &doc);
    let verdict = pat::evaluate(&doc, &env(&lang, &values));
    if compare(ctx, rng, &b, &pattern, &lang, &values, &verdict) {
        ctx.hit("towers");
        let best = ctx.counters.get("max_depth_reached").copied().unwrap_or(0);
        if depth as u64 > best {
            ctx.counters.insert("max_depth_reached".to_string(), depth as u64);
        }
        ctx.distinct(&pattern);
    }
}

/// Many patterns of one string over the same few branches.
fn shared(ctx: &mut Ctx, rng: &mut Rng) {
    let lang = gen::language(rng);
    let b = bench("en");
    let mut doc = Doc::default();
    let mut values = Values::new();
    let branches = rng.range(1, 3);
    for i in 0..branches {
        let mut parts = vec![Part::Text(format!("({i}")), Part::Number];
        if i > 0 && rng.chance(1, 2) {
            let name = format!("in{i}");
            let select = rng.chance(1, 2);
            values.insert(
                name.clone(),
                if select { PlaceholderValue::String("k".to_string()) } else { gen::number(rng) },
            );
            parts.push(Part::Text("/".to_string()));
            parts.push(Part::Keyword {
                name,
                keyword: if select { "select" } else { "plural" }.to_string(),
                selectors: vec![("other".to_string(), format!("b{}", rng.below(i)))],
            });
            parts.push(Part::Number);
        }
        parts.push(Part::Text(")".to_string()));
        doc.named.push((format!("b{i}"), parts));
    }
    for i in 0..rng.range(2, 7) {
        let name = format!("m{i}");
        let branch = format!("b{}", rng.below(branches));
        let (keyword, value) = match rng.below(4) {
            0 | 1 => ("plural", gen::number(rng)),
            2 => ("ordinal", PlaceholderValue::Unsigned(rng.below(120) as u128)),
            _ => ("select", PlaceholderValue::String("z".to_string())),
        };
        values.insert(name.clone(), value);
        doc.main.push(Part::Keyword {
            name,
            keyword: keyword.to_string(),
            selectors: vec![("other".to_string(), branch)],
        });
    }
    let pattern = pat::print(rng, &doc);
    let verdict = pat::evaluate(&doc, &env(&lang, &values));
    if compare(ctx, rng, &b, &pattern, &lang, &values, &verdict) {
        ctx.hit("shared");
        ctx.distinct(&pattern);
    }
}

// ---- C09 ----

fn numbers(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    const SIGNS: [Option<&str>; 6] = [None, Some("auto"), Some("never"), Some("always"), Some("except_zero"), Some("negative")];
    const GROUPS: [Option<&str>; 5] = [None, Some("auto"), Some("never"), Some("always"), Some("min2")];
    let lang = gen::language(rng);
    for _ in 0..6 {
        let value = gen::number(rng);
        let decimal = pat::as_decimal(&value).expect("number");
        let sign = *rng.pick(&SIGNS);
        let group = *rng.pick(&GROUPS);
        let mut options: Vec<String> = Vec::new();
        options.extend(sign.map(|s| format!(" sign#{s}")));
        options.extend(group.map(|g| format!(" group#{g}")));
        rng.shuffle(&mut options);
        let pattern = format!("{{n decimal{}}}", options.concat());
        let mut values = Values::new();
        values.insert("n".to_string(), value.clone());
        let grouping = group.map_or(Grouping::Auto, |g| pat::group_option(g).unwrap());
        let shown = match sign {
            None => decimal.clone(),
            Some(s) => oracle::signed(&decimal, pat::sign_option(s).unwrap()),
        };
        if sign.is_none() && decimal.sign() == fixed_decimal::Sign::Positive {
            // A decimal that carries an explicit plus: the documentation leaves open whether 'automatic' keeps it.
            continue;
        }
        let expected = oracle::number(&lang, &shown, grouping);
        if compare(ctx, rng, &b, &pattern, &lang, &values, &Verdict::Text(expected.clone())) {
            ctx.hit(match value {
                PlaceholderValue::Integer(_) => "number_integer",
                PlaceholderValue::Unsigned(_) => "number_unsigned",
                PlaceholderValue::Float(_) => "number_float",
                _ => "number_fixed_decimal",
            });
            ctx.hit(&format!("sign_{}", sign.unwrap_or("absent")));
            ctx.hit(&format!("group_{}", group.unwrap_or("absent")));
            ctx.distinct(&(lang.as_str(), pattern.as_str(), decimal.to_string()));
            ctx.sample(|| format!("{lang}: {pattern} of {decimal} -> {expected}"));
        }
        // English is written out by rules of our own, which do not come from ICU.
        let english = oracle::number_english(&shown, grouping);
        compare(ctx, rng, &b, &pattern, "en", &values, &Verdict::Text(english));
        ctx.hit("english_rules");
    }
}

/// Values that are no numbers.
fn wrong_kind(ctx: &mut Ctx, rng: &mut Rng, keyword: &str) {
    let b = bench("en");
    let lang = gen::language(rng);
    let value = gen::any_value(rng, &b.registry);
    let mut values = Values::new();
    values.insert("v".to_string(), value);
    let pattern = match keyword {
        "decimal" => "{v decimal}".to_string(),
        _ => format!("{{v {keyword}}}"),
    };
    let verdict = pat::judge(&pattern, &env(&lang, &values));
    if verdict == Verdict::Error {
        ctx.hit("unsuitable_value_rejected");
    }
    compare(ctx, rng, &b, &pattern, &lang, &values, &verdict);
}

// ---- C10 ----

fn moments(ctx: &mut Ctx, rng: &mut Rng, text: bool) {
    let b = bench("en");
    let lang = gen::language(rng);
    for _ in 0..3 {
        let mut values = Values::new();
        let value = if text {
            PlaceholderValue::String(gen::iso_text(rng))
        } else {
            gen::moment(rng)
        };
        const L: [Option<&str>; 5] = [None, Some("full"), Some("long"), Some("medium"), Some("short")];
        let (d, t) = (*rng.pick(&L), *rng.pick(&L));
        let mut options: Vec<String> = Vec::new();
        options.extend(d.map(|s| format!(" date#{s}")));
        options.extend(t.map(|s| format!(" time#{s}")));
        rng.shuffle(&mut options);
        let pattern = format!("{{m date_time{}}}", options.concat());
        values.insert("m".to_string(), value.clone());
        let verdict = pat::judge(&pattern, &env(&lang, &values));
        compare(ctx, rng, &b, &pattern, &lang, &values, &verdict);
        match (&verdict, &value) {
            (Verdict::Text(out), PlaceholderValue::String(s)) => {
                ctx.hit("iso_rendered");
                ctx.distinct(&(lang.as_str(), pattern.as_str(), s.as_str()));
                ctx.sample(|| format!("{lang}: {pattern} of {s} -> {out:?}"));
            }
            (Verdict::Text(out), _) => {
                ctx.hit(match value {
                    PlaceholderValue::Date(_) => "typed_date",
                    PlaceholderValue::Time(_) => "typed_time",
                    _ => "typed_date_time",
                });
                ctx.distinct(&(lang.as_str(), pattern.as_str(), out.as_str()));
            }
            (Verdict::Error, _) => ctx.hit("impossible_rejected"),
            (Verdict::Open, PlaceholderValue::String(s)) => {
                ctx.hit("iso_open");
                ctx.sample(|| format!("open: {s}"));
            }
            _ => {}
        }
    }
}

/// Every day of a stretch of years, every second of a stretch of a day, as text and typed.
fn calendar(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    let year = *rng.pick(&[1900, 1999, 2000, 2023, 2024, 2100, 4, -4, -100, 12000, 400]);
    let month = rng.range(0, 13);
    for day in 0..=32 {
        let y = if (0..=9999).contains(&year) {
            format!("{year:04}")
        } else if year < 0 {
            format!("-{:04}", -year)
        } else {
            format!("+{year}")
        };
        let s = match rng.below(2) {
            0 if y.len() == 4 => format!("{y}{month:02}{day:02}"),
            _ => format!("{y}-{month:02}-{day:02}"),
        };
        let mut values = Values::new();
        values.insert("m".to_string(), PlaceholderValue::String(s));
        let pattern = "{m date_time}";
        let verdict = pat::judge(pattern, &env(&lang, &values));
        ctx.hit(match verdict {
            Verdict::Error => "impossible_rejected",
            _ => "calendar_days",
        });
        compare(ctx, rng, &b, pattern, &lang, &values, &verdict);
    }
}

// ---- C11 ----

const SOUP: &[&str] = &[
    "{", "}", "`", "#", "{", "}", "`", "#", " ", " ", "a", "b", "_", "plural", "ordinal", "select", "decimal", "date_time", "other",
    "one", "sign", "group", "auto", "always", "date", "time", "full", "calendar", "gregorian", "echo", "fail", "nothing", "{a}",
    "{b plural other#a}", "#{a #}", "{`x`}", "{#echo a}", "``", "\n", "+", "=", "字", "\u{301}", "é",
];

fn values_for_soup(rng: &mut Rng, b: &Bench) -> Values {
    let mut values = Values::new();
    for name in ["a", "b", "_", "one", "other", "sign", "字", "é", "echo"] {
        if rng.chance(4, 5) {
            values.insert(name.to_string(), gen::any_value(rng, &b.registry));
        }
    }
    values
}

fn judge_and_compare(ctx: &mut Ctx, rng: &mut Rng, b: &Bench, pattern: &str, lang: &str, values: &Values) {
    let verdict = pat::judge(pattern, &env(lang, values));
    compare(ctx, rng, b, pattern, lang, values, &verdict);
    if verdict == Verdict::Error {
        ctx.distinct(pattern);
        ctx.sample(|| format!("error: {pattern:?}"));
    }
}

fn soup(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    let values = values_for_soup(rng, &b);
    for _ in 0..10 {
        let mut s = String::new();
        for _ in 0..rng.range(1, 16) {
            s.push_str(rng.pick(SOUP));
        }
        judge_and_compare(ctx, rng, &b, &s, &lang, &values);
        ctx.hit("soup");
    }
}

fn noise(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    let values = values_for_soup(rng, &b);
    for _ in 0..10 {
        let n = rng.range(1, 30);
        let s = any_string(rng, n, "{}`#");
        judge_and_compare(ctx, rng, &b, &s, &lang, &values);
        ctx.hit("noise");
    }
}

/// All strings of a small alphabet up to a length, by number.
fn small_strings(ctx: &mut Ctx, rng: &mut Rng, from: u64, to: u64) {
    const ALPHABET: &[&str] = &["{", "}", "`", "#", "a", "b", " ", "plural", "other", "."];
    let b = bench("en");
    let mut values = Values::new();
    values.insert("a".to_string(), PlaceholderValue::Unsigned(1));
    values.insert("b".to_string(), PlaceholderValue::String("a".to_string()));
    values.insert("plural".to_string(), PlaceholderValue::String("other".to_string()));
    for n in from..to {
        let mut s = String::new();
        let mut rest = n + 1;
        // Bijective numeration: every string exactly once.
        while rest > 0 {
            rest -= 1;
            s.push_str(ALPHABET[(rest % 10) as usize]);
            rest /= 10;
        }
        judge_and_compare(ctx, rng, &b, &s, "en", &values);
        ctx.hit("small_strings");
    }
}

fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut chars: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 3) {
        if chars.is_empty() {
            chars.push('{');
        }
        let at = rng.below(chars.len());
        match rng.below(6) {
            0 => {
                chars.remove(at);
            }
            1 => chars.insert(at, *rng.pick(&['{', '}', '`', '#'])),
            2 => chars[at] = *rng.pick(&['{', '}', '`', '#', ' ', 'a']),
            3 => {
                let to = rng.range(at, (at + 12).min(chars.len() - 1));
                let piece: Vec<char> = chars[at..=to].to_vec();
                let into = rng.below(chars.len() + 1);
                for (i, c) in piece.into_iter().enumerate() {
                    chars.insert(into + i, c);
                }
            }
            4 => chars.truncate(at),
            _ => {
                let to = rng.range(at, (at + 8).min(chars.len() - 1));
                chars.drain(at..=to);
            }
        }
    }
    chars.into_iter().collect()
}

const ALL: Mix = Mix {
    strings: 2,
    decimals: 2,
    dates: 1,
    complex: 4,
    commands: 2,
    branches: 5,
    literals: 1,
};

fn mutated(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    let (doc, values) = {
        let mut builder = Builder::new(rng, &b.registry, ALL);
        let doc = builder.doc();
        (doc, builder.values)
    };
    let pattern = pat::print(rng, &doc);
    for _ in 0..6 {
        let s = mutate(rng, &pattern);
        judge_and_compare(ctx, rng, &b, &s, &lang, &values);
        ctx.hit("mutated");
    }
    // Right pattern, wrong or missing values.
    for _ in 0..4 {
        let mut changed = values.clone();
        let mut names: Vec<String> = changed.keys().cloned().collect();
        names.sort();
        if names.is_empty() {
            break;
        }
        let name = rng.pick(&names).clone();
        if rng.chance(1, 2) {
            changed.remove(&name);
        } else {
            changed.insert(name, gen::any_value(rng, &b.registry));
        }
        judge_and_compare(ctx, rng, &b, &pattern, &lang, &changed);
        ctx.hit("values_changed");
    }
}

/// One fault of each kind the property names, in otherwise correct surroundings: certainly an error.
fn faults(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    let t = |rng: &mut Rng| {
        let s = gen::branch_text(rng);
        s.chars().filter(|c| !"{}`#".contains(*c)).collect::<String>()
    };
    let (x, y, z) = (t(rng), t(rng), t(rng));
    let other = *rng.pick(&["plural", "ordinal"]);
    let cases: Vec<(&str, String)> = vec![
        ("unclosed", format!("{x}{{a")),
        ("unclosed", format!("{x}{{a {y}")),
        ("unclosed", format!("{x}{{n decimal{y}").replace('}', "")),
        ("unclosed", format!("{x}{{`{y}")),
        ("unclosed", format!("{x}{{`{y}`")),
        ("unclosed", format!("{x}{{n plural other#b}}#{{b {y}")),
        ("unclosed", format!("{x}{{#echo {y}")),
        ("stray_brace", format!("{x}}}{y}")),
        ("stray_brace", format!("{x}{{a}}}}{y}")),
        ("repeated_placeholder", format!("{x}{{a}}{y}{{a}}{z}")),
        ("repeated_placeholder", format!("{x}{{n decimal}}{y}{{n plural other#b}}#{{b c}}")),
        ("repeated_placeholder", format!("{x}{{n plural other#b}}#{{b {y}{{a}}}}{{c {{a}}}}")),
        ("repeated_branch", format!("{x}{{n plural other#b}}#{{b 1}}{{b 2}}")),
        ("unknown_keyword", format!("{x}{{a {}}}", rng.pick(&["string", "Plural", "decimals", "date", "number", "cardinal", "ordinals"]))),
        ("unknown_option", format!("{x}{{n decimal {}#auto}}", rng.pick(&["signs", "Sign", "grouping", "date", "other"]))),
        ("unknown_option", format!("{x}{{d date_time {}#full}}", rng.pick(&["dates", "Date", "sign", "era"]))),
        ("unknown_option_value", format!("{x}{{n decimal sign#{}}}", rng.pick(&["Auto", "plus", "min2", "full", "except", "zero"]))),
        ("unknown_option_value", format!("{x}{{n decimal group#{}}}", rng.pick(&["Auto", "min3", "min", "negative", "none"]))),
        ("unknown_option_value", format!("{x}{{d date_time date#{}}}", rng.pick(&["Full", "auto", "tiny", "yyyy"]))),
        ("unknown_option_value", format!("{x}{{d date_time time#{}}}", rng.pick(&["Full", "auto", "tiny", "hh"]))),
        ("unknown_category", format!("{x}{{n {other} {}#b other#b}}#{{b #}}", rng.pick(&["three", "One", "zeros", "none", "Other", "1"]))),
        ("unknown_branch", format!("{x}{{n {other} other#{}}}#{{b #}}", rng.pick(&["c", "B", "bb", "other", "n"]))),
        ("unknown_branch", format!("{x}{{s select q#c other#b}}#{{b {y}}}")),
        ("unknown_branch", format!("{x}{{n {other} other#b}}")),
        ("later_branch", format!("{x}{{n plural other#b}}#{{b {{s select other#c}}}}{{c {y}}}")),
        ("own_branch", format!("{x}{{n plural other#b}}#{{b {y}{{s select other#b}}}}")),
        ("unknown_command", format!("{x}{{#{} p}}", rng.pick(&["nothing", "Echo", "echoo", "ech"]))),
        ("unknown_command", format!("{x}{{#{}# p}}", rng.pick(&["nothing", "Echo", "echoo", "ech"]))),
        ("no_other", format!("{x}{{n {other} one#b two#b zero#b few#b many#b}}#{{b {y}}}")),
        ("no_other", format!("{x}{{n {other}}}#{{b {y}}}")),
        ("two_number_signs", format!("{x}{{n plural other#b}}#{{b {y}##{z}}}")),
        ("two_number_signs", format!("{x}{{n plural other#b}}#{{b {y}##}}")),
        ("missing_value", format!("{x}{{missing}}")),
        ("missing_value", format!("{x}{{missing decimal}}")),
        ("missing_value", format!("{x}{{missing date_time}}")),
        ("missing_value", format!("{x}{{missing {other} other#b}}#{{b {y}}}")),
        ("missing_value", format!("{x}{{missing select other#b}}#{{b {y}}}")),
        ("missing_value", format!("{x}{{n plural other#b}}#{{b {y}{{missing}}}}")),
        ("unsuitable_value", format!("{x}{{n}}")),
        ("unsuitable_value", format!("{x}{{a decimal}}")),
        ("unsuitable_value", format!("{x}{{n date_time}}")),
        ("unsuitable_value", format!("{x}{{a {other} other#b}}#{{b {y}}}")),
        ("unsuitable_value", format!("{x}{{n select other#b}}#{{b {y}}}")),
        ("unsuitable_value", format!("{x}{{i ordinal other#b}}#{{b {y}}}")),
        ("command_fails", format!("{x}{{#fail p}}")),
        ("command_fails", format!("{x}{{#fail# p}}")),
    ];
    let mut values = Values::new();
    let s = gen::any_text_value(rng);
    values.insert("a".to_string(), gen::string_value(rng, &b.registry, s));
    values.insert("n".to_string(), PlaceholderValue::Unsigned(gen::unsigned(rng)));
    values.insert("i".to_string(), PlaceholderValue::Integer(gen::integer(rng)));
    values.insert("d".to_string(), gen::moment(rng));
    values.insert("s".to_string(), PlaceholderValue::String("q".to_string()));
    for (kind, pattern) in cases {
        if kind == "unclosed" && pattern.ends_with('}') {
            continue;
        }
        if compare(ctx, rng, &b, &pattern, &lang, &values, &Verdict::Error) {
            continue;
        }
        ctx.hit(&format!("fault_{kind}"));
        ctx.distinct(&pattern);
    }
}

/// Long strings and deep nesting: time and stack stay within bounds.
fn large(ctx: &mut Ctx, rng: &mut Rng, index: u64) {
    let b = bench("en");
    let n = if ctx.thorough { 60_000 } else { 12_000 };
    let mut values = Values::new();
    values.insert("a".to_string(), PlaceholderValue::String("x".to_string()));
    values.insert("n".to_string(), PlaceholderValue::Unsigned(3));
    let pattern = match index % 14 {
        0 => "{".repeat(n),
        1 => "}".repeat(n),
        2 => "`".repeat(n),
        3 => "#".repeat(n),
        4 => "{a".repeat(n),
        5 => format!("{{a}}{}", "`{".repeat(n)),
        6 => format!("{{`{}`}}", "``".repeat(n)),
        7 => format!("{{n plural other#b}}#{{b {}}}", "# ".repeat(n)),
        8 => {
            let mut s = String::from("{n plural other#b}#");
            for i in 0..n / 20 {
                s.push_str(&format!("{{b{i} x}}"));
            }
            s.push_str("{b y}");
            s
        }
        9 => {
            // Many different placeholders.
            let mut s = String::new();
            for i in 0..n / 20 {
                s.push_str(&format!("{{p{i}}}"));
                values.insert(format!("p{i}"), PlaceholderValue::String(format!("{i},")));
            }
            s
        }
        10 => format!("{{#echo {}}}", "a ".repeat(n / 4)),
        11 => format!("{{a select {} other#b}}#{{b x}}", (0..n / 20).map(|i| format!("k{i}#b")).collect::<Vec<_>>().join(" ")),
        12 => "a #{b ".repeat(n),
        _ => "a".repeat(n * 4) + "{a}",
    };
    judge_and_compare(ctx, rng, &b, &pattern, "en", &values);
    ctx.hit("large");
}

/// A pattern and values whose size is `n` in one respect, and what the text is made of.
fn sized(shape: u64, n: usize) -> (String, Values) {
    let mut values = Values::new();
    values.insert("n".to_string(), PlaceholderValue::Unsigned(3));
    values.insert("a".to_string(), PlaceholderValue::String("x".to_string()));
    let text = |i: usize| PlaceholderValue::String(format!("the value of number {i}"));
    let mut s = String::new();
    match shape {
        0 => (0..n).for_each(|i| {
            s.push_str(&format!("some words and {{p{i}}} "));
            values.insert(format!("p{i}"), text(i));
        }),
        1 => (0..n).for_each(|_| s.push_str("some `{words`} and `#")),
        2 => (0..n).for_each(|_| s.push_str("{`a literal text`} and ")),
        3 => (0..n / 4).for_each(|i| {
            s.push_str(&format!("{{d{i} decimal}} and "));
            values.insert(format!("d{i}"), PlaceholderValue::Unsigned(i as u128 * 977));
        }),
        4 => (0..n).for_each(|_| s.push_str("{#echo a `some words`} and ")),
        5 => {
            s.push_str("{n plural other#b}#{b ");
            (0..n).for_each(|_| s.push_str("some # words "));
            s.push('}');
        }
        6 => {
            (0..n / 4).for_each(|i| {
                s.push_str(&format!("{{n{i} plural other#b{i}}} "));
                values.insert(format!("n{i}"), PlaceholderValue::Unsigned(i as u128));
            });
            s.push('#');
            (0..n / 4).for_each(|i| s.push_str(&format!("{{b{i} # words}}")));
        }
        7 => {
            s.push_str("{a select other#b");
            (0..n).for_each(|i| s.push_str(&format!(" key{i}#b")));
            s.push_str("}#{b words}");
        }
        8 => {
            s.push_str("{#echo");
            (0..n).for_each(|i| s.push_str(&format!(" p{i} `some words`")));
            s.push('}');
        }
        9 => {
            s.push_str("{a}");
            values.insert("a".to_string(), PlaceholderValue::String("words # {and} `more` ".repeat(n)));
        }
        10 => {
            s.push_str("{a} ");
            (0..n).for_each(|_| s.push_str("words, and more "));
        }
        11 => (0..n / 4).for_each(|i| {
            s.push_str(&format!("{{m{i} date_time date#short}} and "));
            values.insert(format!("m{i}"), PlaceholderValue::String("2024-02-03".to_string()));
        }),
        12 => (0..n).for_each(|i| {
            s.push_str(&format!("{{#echo# q{i} a}} "));
            values.insert(format!("q{i}"), text(i));
        }),
        _ => {
            // Branches that are not used.
            s.push_str("{n plural other#b}#{b words}");
            (0..n).for_each(|i| s.push_str(&format!("{{u{i} some words}}")));
        }
    }
    (s, values)
}

pub const SHAPES: u64 = 14;

/// The processor time this thread has used, in seconds.
fn processor_time() -> f64 {
    #[repr(C)]
    struct Spec {
        seconds: i64,
        nanoseconds: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, spec: *mut Spec) -> i32;
    }
    const THREAD_CPU: i32 = 3;
    let mut spec = Spec { seconds: 0, nanoseconds: 0 };
    let done = unsafe { clock_gettime(THREAD_CPU, &mut spec) };
    assert!(done == 0, "harness: no clock of the thread's processor time");
    spec.seconds as f64 + spec.nanoseconds as f64 / 1e9
}

/// Sixteen times the text takes about sixteen times as long, the first time and from the cache.
fn growth(ctx: &mut Ctx, shape: u64) {
    const SMALL: usize = 600;
    const TIMES: usize = 16;
    // Processor time is blurred by what else runs: the least of several runs counts, and of several attempts the best.
    let mut last = String::new();
    for attempt in 0..6 {
        let mut seconds = [[f64::MAX; 2]; 2];
        for (row, n) in [SMALL, SMALL * TIMES].into_iter().enumerate() {
            let (pattern, values) = sized(shape, n);
            let b = bench("en");
            for _ in 0..if row == 0 { 5 } else { 2 } {
                let start = processor_time();
                let first = b.pattern(&pattern, "en", &values);
                seconds[row][0] = seconds[row][0].min(processor_time() - start);
                if !ctx.check(first.is_ok(), || format!("formatting shape {shape} of size {n}: {:?}", first.err().map(|e| e.to_string()))) {
                    return;
                }
            }
            b.store_pattern("grown", &pattern, "en");
            let tag = b.registry.tag("en").expect("tag");
            let again = || b.localiser.format("c", "grown", &values, &tag, Some(false), Some(true));
            let _ = again();
            for _ in 0..if row == 0 { 5 } else { 2 } {
                let start = processor_time();
                let second = again();
                seconds[row][1] = seconds[row][1].min(processor_time() - start);
                ctx.check(second.is_ok(), || format!("formatting shape {shape} of size {n} again: {:?}", second.err().map(|e| e.to_string())));
            }
        }
        ctx.eval();
        let ratio = |way: usize| seconds[1][way] / seconds[0][way].max(2e-5);
        last = format!("shape {shape}, sizes {SMALL} and {}: seconds {seconds:?}, attempt {attempt}", SMALL * TIMES);
        if ratio(0).max(ratio(1)) < TIMES as f64 * 5.0 {
            ctx.hit("growth_measured");
            ctx.distinct(&("growth", shape));
            return;
        }
    }
    ctx.fail(format!("the time to format is not in proportion to the text: {last}"));
}

fn deep(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let depth = rng.range(100, if ctx.thorough { 700 } else { 300 });
    let mut s = String::from("{n plural other#b");
    s.push_str(&depth.to_string());
    s.push_str("}#{b0 end}");
    let mut values = Values::new();
    values.insert("n".to_string(), PlaceholderValue::Unsigned(1));
    for i in 1..=depth {
        s.push_str(&format!("{{b{i} {{p{i} select other#b{}}}}}", i - 1));
        values.insert(format!("p{i}"), PlaceholderValue::String("v".to_string()));
    }
    compare(ctx, rng, &b, &s, "en", &values, &Verdict::Text("end".to_string()));
    ctx.hit("deep");
}

/// Texts that are almost moments.
fn almost_moments(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    for _ in 0..8 {
        let s = gen::hostile_moment(rng);
        let mut values = Values::new();
        let value = gen::string_value(rng, &b.registry, s);
        values.insert("m".to_string(), value);
        let pattern = *rng.pick(&["{m date_time}", "{m date_time date#full time#short}", "x{m date_time date#short}y"]);
        judge_and_compare(ctx, rng, &b, pattern, &lang, &values);
        ctx.hit("almost_moments");
    }
}

/// All short sequences of the pieces a moment is made of.
fn small_moments(ctx: &mut Ctx, rng: &mut Rng, from: u64, to: u64) {
    const PIECES: &[&str] = &["2024", "02", "1", "T", "-", ":", ".", "+", "Z", "\u{e9}"];
    let b = bench("en");
    for n in from..to {
        let mut s = String::new();
        let mut rest = n + 1;
        while rest > 0 {
            rest -= 1;
            s.push_str(PIECES[(rest % 10) as usize]);
            rest /= 10;
        }
        let mut values = Values::new();
        values.insert("m".to_string(), PlaceholderValue::String(s));
        judge_and_compare(ctx, rng, &b, "{m date_time}", "en", &values);
        ctx.hit("small_moments");
    }
}

/// The last years a date can hold.
fn extreme_years(ctx: &mut Ctx, rng: &mut Rng, index: u64) {
    let b = bench("en");
    let lang = gen::LANGUAGES[index as usize % gen::LANGUAGES.len()];
    for s in ["+2147483647-12-31", "-2147483648-01-01", "+2147482999-01-01", "-2147483647-06-30", "+2147483648-01-01", "-2147483649-01-01", "+99999999999999999999"] {
        let mut values = Values::new();
        values.insert("m".to_string(), PlaceholderValue::String(s.to_string()));
        // ICU itself may fail here.
        let verdict = guarded(|| pat::judge("{m date_time}", &env(lang, &values))).unwrap_or(Verdict::Open);
        compare(ctx, rng, &b, "{m date_time}", lang, &values, &verdict);
        ctx.hit("extreme_years");
    }
}

// ---- C16 ----

fn delayed_calls(doc: &Doc, parts: &[Part], lang: &str, values: &Values, out: &mut Vec<String>) {
    for part in parts {
        match part {
            Part::Command {
                delayed: true,
                name,
                parameters,
            } => out.push(cmd::answer(&pat::delayed_parameters(name, parameters, values))),
            Part::Keyword { name, keyword, selectors } if matches!(keyword.as_str(), "plural" | "ordinal" | "select") => {
                let key = match keyword.as_str() {
                    "select" => pat::as_text(&values[name]).unwrap().to_string(),
                    k => oracle::category(lang, &pat::as_decimal(&values[name]).unwrap(), k == "ordinal").to_string(),
                };
                let find = |k: &str| selectors.iter().rev().find(|(s, _)| s == k).map(|(_, b)| b.clone());
                let branch = find(&key).or_else(|| find("other")).unwrap();
                let parts = &doc.named.iter().find(|(n, _)| *n == branch).unwrap().1;
                delayed_calls(doc, parts, lang, values, out);
            }
            _ => {}
        }
    }
}

/// What the commands were really called with.
fn calls(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let lang = gen::language(rng);
    let mix = Mix {
        strings: 2,
        decimals: 1,
        dates: 0,
        complex: 2,
        commands: 8,
        branches: 3,
        literals: 0,
    };
    let (doc, values) = {
        let mut builder = Builder::new(rng, &b.registry, mix);
        let doc = builder.doc();
        (doc, builder.values)
    };
    let pattern = pat::print(rng, &doc);
    let Verdict::Text(expected) = pat::evaluate(&doc, &env(&lang, &values)) else { return };
    let mut early: BTreeMap<String, u64> = BTreeMap::new();
    for part in doc.main.iter().chain(doc.named.iter().flat_map(|(_, p)| p)) {
        if let Part::Command {
            delayed: false,
            name,
            parameters,
        } = part
        {
            *early.entry(cmd::answer(&pat::plain_parameters(name, parameters))).or_default() += 1;
        }
    }
    let mut late = Vec::new();
    delayed_calls(&doc, &doc.main, &lang, &values, &mut late);
    let cached = rng.chance(1, 2);
    let rounds = if cached { 3 } else { 1 };
    cmd::take_calls();
    let results = if cached {
        b.pattern_cached(&pattern, &lang, &values, rounds)
    } else {
        vec![b.pattern(&pattern, &lang, &values)]
    };
    let mut seen = cmd::take_calls();
    ctx.eval();
    for r in &results {
        let ok = matches!(r, Ok(t) if *t == expected);
        if !ctx.check(ok, || {
            format!(
                "formatting {pattern:?} for {lang} with {}: expected {expected:?}, got {r:?}",
                describe_values(&values)
            )
        }) {
            return;
        }
    }
    // Every observed call is one the pattern asks for; delayed ones happen at every formatting, in order.
    let total: Vec<String> = (0..rounds).flat_map(|_| late.iter().cloned()).collect();
    let all = seen.len();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    for call in &seen {
        *counts.entry(call).or_default() += 1;
    }
    let mut wrong: Option<String> = None;
    for call in total.iter().chain(early.keys()).chain(seen.iter()) {
        let got = counts.get(call.as_str()).copied().unwrap_or(0);
        let delayed = total.iter().filter(|c| *c == call).count() as u64;
        let ok = if early.contains_key(call) { got > delayed } else { got == delayed };
        if !ok {
            wrong = Some(format!("call {call:?} was made {got} times"));
        }
    }
    seen.retain(|c| !early.contains_key(c));
    let order: Vec<&String> = total.iter().filter(|c| !early.contains_key(*c)).collect();
    if wrong.is_none() && seen.iter().collect::<Vec<_>>() != order {
        wrong = Some(format!("the delayed calls came in the order {seen:?}"));
    }
    ctx.check(wrong.is_none(), || {
        format!(
            "commands of {pattern:?} with {} ({rounds} formattings): delayed calls asked for {late:?}, early calls {early:?}: {}",
            describe_values(&values),
            wrong.unwrap_or_default()
        )
    });
    ctx.add("delayed_calls", total.len() as u64);
    ctx.add("early_calls", (all - total.len().min(all)) as u64);
    if all > 1 {
        ctx.distinct(&pattern);
        ctx.sample(|| format!("{pattern:?}: delayed {late:?}, early {early:?}"));
    }
}

fn call_cached(ctx: &mut Ctx, rng: &mut Rng) {
    // The values of each formatting reach a delayed command, the cached formatter notwithstanding.
    let b = bench("en");
    b.store.set("c", "k", "en", "{#echo# v `v` w}|{#list v}");
    let tag = b.registry.tag("en").expect("tag");
    for _ in 0..4 {
        let mut values = Values::new();
        for name in ["v", "w", "x"] {
            if rng.chance(2, 3) {
                values.insert(name.to_string(), gen::any_value(rng, &b.registry));
            }
        }
        let parameters = pat::delayed_parameters(
            "echo",
            &[("v".to_string(), false), ("v".to_string(), true), ("w".to_string(), false)],
            &values,
        );
        let expected = format!("{}|⟨s:list⟂s:v⟩", cmd::answer(&parameters));
        let caching = rng.chance(2, 3);
        let result = b.localiser.format("c", "k", &values, &tag, Some(false), Some(caching));
        ctx.eval();
        let ok = matches!(&result, Ok((t, _)) if **t == expected);
        ctx.check(ok, || {
            format!("repeated formatting of a delayed command with {}: expected {expected:?}, got {:?}", describe_values(&values), result.as_ref().map(|r| r.0.to_string()).map_err(|e| e.to_string()))
        });
        ctx.hit("cached_delayed");
    }
}

/// A delayed command is looked up when it is to be run, and not before; the others when the pattern is first used.
fn late_registration(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    let tag = b.registry.tag("en").expect("tag");
    let caching = rng.chance(2, 3);
    let shape = rng.below(4);
    b.store.set("c", "k", "en", match shape {
        0 => "{#late# v}",
        1 => "{s select go#y other#z}#{y <{#late# v}>}{z -}",
        2 => "{s select go#y other#z}#{z -}{q <{#late# `u` v}>}{y {t select stay#z other#q}}",
        _ => "{s select go#y other#z}#{z -}{q {#late# n}}{y <{n plural one#q other#z}>}",
    });
    let mut registered = false;
    let mut trace = Vec::new();
    for _ in 0..rng.range(2, 7) {
        if !registered && rng.chance(1, 3) {
            b.commands.insert("late", echo).expect("harness: register");
            registered = true;
            trace.push("register".to_string());
            continue;
        }
        let (go, n) = (rng.chance(1, 2), rng.range(1, 2));
        let mut values = Values::new();
        values.insert("v".to_string(), PlaceholderValue::String("w".to_string()));
        values.insert("s".to_string(), PlaceholderValue::String(if go { "go" } else { "no" }.to_string()));
        values.insert("t".to_string(), PlaceholderValue::String("x".to_string()));
        values.insert("n".to_string(), PlaceholderValue::Unsigned(n as u128));
        let expected = match (shape, go) {
            (0, _) => Some("late w"),
            (1, true) => Some("<late w>"),
            (2, true) => Some("<late u w>"),
            (3, true) if n == 1 => Some("<late 1>"),
            (3, true) => None,
            _ => None,
        };
        let got = b.localiser.format("c", "k", &values, &tag, Some(false), Some(caching)).map(|r| r.0.to_string());
        trace.push(format!("format go {go} n {n}"));
        ctx.eval();
        let ok = match (expected, &got) {
            (Some(_), Err(_)) => !registered,
            (Some(text), Ok(got)) => registered && got == text,
            (None, Ok(got)) => got == if shape == 3 && go { "<->" } else { "-" },
            _ => false,
        };
        ctx.hit(match (expected.is_some(), registered) {
            (true, true) => "run_after_registration",
            (true, false) => "run_before_registration",
            (false, true) => "not_run",
            (false, false) => "not_run_unregistered",
        });
        if !ctx.check(ok, || format!("shape {shape}, caching {caching}, {}: got {got:?}", trace.join("; "))) {
            return;
        }
    }
    ctx.distinct(&(shape, caching, &trace));
}

fn echo(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let shown = parameters.iter().map(|p| match p {
        PlaceholderValue::String(s) => s.clone(),
        PlaceholderValue::Unsigned(n) => n.to_string(),
        p => cmd::describe(p),
    });
    Ok(shown.collect::<Vec<_>>().join(" "))
}

fn one(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok("one".to_string())
}
fn two(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok("two".to_string())
}

fn registry(ctx: &mut Ctx, rng: &mut Rng) {
    let commands = CommandRegistry::new();
    let mut model: BTreeMap<String, &str> = BTreeMap::new();
    let mut trace = Vec::new();
    for _ in 0..rng.range(1, 30) {
        let name = match rng.below(4) {
            0 => gen::any_text_value(rng),
            1 => rng.pick(&["a", "A", "a ", "ａ", "á", "a\u{301}"]).to_string(),
            _ => gen::identifier(rng),
        };
        ctx.eval();
        if rng.chance(1, 2) {
            let (function, answer): (fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, &str) =
                if rng.chance(1, 2) { (one, "one") } else { (two, "two") };
            let result = commands.insert(&name, function);
            trace.push(format!("insert {name:?} {answer}"));
            if model.contains_key(&name) {
                ctx.check(result.is_err(), || format!("{trace:?}: registering twice is accepted"));
                ctx.hit("insert_again");
            } else {
                ctx.check(result.is_ok(), || format!("{trace:?}: registering fails"));
                model.insert(name, answer);
                ctx.hit("insert");
            }
        } else {
            trace.push(format!("get {name:?}"));
            let got = commands.command(&name).ok().map(|f| f(vec![PlaceholderValue::String(name.clone())]).unwrap_or_default());
            let expected = model.get(&name).map(|s| s.to_string());
            ctx.check(got == expected, || format!("{trace:?}: command gives {got:?}, registered {expected:?}"));
            ctx.hit(if expected.is_some() { "get_known" } else { "get_unknown" });
        }
        let mut list = commands.list();
        list.sort();
        let expected: Vec<String> = model.keys().cloned().collect();
        ctx.check(list == expected, || format!("{trace:?}: list is {list:?}, registered {expected:?}"));
        for (name, answer) in &model {
            let got = commands.command(name).ok().map(|f| f(vec![]).unwrap_or_default());
            if !ctx.check(got.as_deref() == Some(answer), || format!("{trace:?}: command {name:?} gives {got:?}, registered {answer:?}")) {
                return;
            }
        }
    }
    ctx.distinct(&trace);
}

/// Very many commands in one registry: each keeps the first function registered for it.
fn many_commands(ctx: &mut Ctx, rng: &mut Rng) {
    let commands = CommandRegistry::new();
    let mut model: BTreeMap<String, &str> = BTreeMap::new();
    for step in 0..rng.range(100, 500) {
        let name = if rng.chance(1, 8) { gen::identifier(rng) } else { format!("command{}", rng.below(400)) };
        let (function, answer): (fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, &str) =
            if rng.chance(1, 2) { (one, "one") } else { (two, "two") };
        ctx.eval();
        let result = commands.insert(&name, function);
        let known = model.contains_key(&name);
        if !ctx.check(result.is_err() == known, || format!("step {step}: registering {name:?} (registered before: {known}) gives {result:?}")) {
            return;
        }
        model.entry(name).or_insert(answer);
    }
    let mut list = commands.list();
    list.sort();
    let expected: Vec<String> = model.keys().cloned().collect();
    ctx.check(list == expected, || format!("list is {list:?}, registered {expected:?}"));
    for (name, answer) in &model {
        let got = commands.command(name).ok().map(|f| f(vec![]).unwrap_or_default());
        if !ctx.check(got.as_deref() == Some(answer), || format!("{} commands: {name:?} gives {got:?}, registered {answer:?}", model.len())) {
            return;
        }
    }
    ctx.add("many_commands", model.len() as u64);
    ctx.distinct(&expected);
}

fn built_in(ctx: &mut Ctx, rng: &mut Rng) {
    let b = bench("en");
    for (name, function) in [
        ("file_path", i18n_localiser::file_path as fn(Vec<PlaceholderValue>) -> Result<String, CommandError>),
        ("english_a_or_an", i18n_localiser::english_a_or_an),
    ] {
        for _ in 0..4 {
            let mut parameters: Vec<PlaceholderValue> = Vec::new();
            if rng.chance(9, 10) {
                parameters.push(if rng.chance(9, 10) {
                    PlaceholderValue::String(name.to_string())
                } else {
                    gen::any_value(rng, &b.registry)
                });
                for _ in 0..rng.below(4) {
                    parameters.push(match rng.below(3) {
                        0 => gen::any_value(rng, &b.registry),
                        1 => PlaceholderValue::String(gen::any_text_value(rng)),
                        _ => PlaceholderValue::String(rng.pick(&["", "apple", "tree", "Ärger", "élan", "src/lib.rs", "a\0b", "u", "/a//b/../c/"]).to_string()),
                    });
                }
            }
            ctx.eval();
            let shown: Vec<String> = parameters.iter().map(cmd::describe).collect();
            match guarded(|| function(parameters.clone())) {
                Err(message) => ctx.fail(format!("{name} with {shown:?}: {message}")),
                Ok(result) => {
                    let named = matches!(parameters.first(), Some(PlaceholderValue::String(_)));
                    match (named, parameters.get(1), &result) {
                        (true, Some(PlaceholderValue::String(s)), Ok(text)) => {
                            let ok = match name {
                                "file_path" => text == s,
                                _ => match s.chars().next() {
                                    Some(c) if c.is_ascii_lowercase() => text == if "aeiou".contains(c) { "an" } else { "a" },
                                    _ => text == "a" || text == "an",
                                },
                            };
                            ctx.check(ok, || format!("{name} with {shown:?}: {text:?}"));
                            ctx.hit("built_in_result");
                            ctx.distinct(&shown);
                        }
                        (true, Some(PlaceholderValue::String(_)), Err(error)) => {
                            ctx.fail(format!("{name} with {shown:?}: {error}"));
                        }
                        (_, None, Ok(_)) => ctx.fail(format!("{name} with {shown:?}: no error for a missing parameter")),
                        _ => ctx.hit("built_in_error"),
                    }
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let (strings, decimals, dates, complex, commands, branches, literals) = match ctx.prop.as_str() {
        "C07" => (4, 0, 0, 0, 0, 0, 3),
        "C08" => (1, 1, 0, 6, 1, 6, 0),
        "C09" => (0, 8, 0, 1, 0, 2, 0),
        "C10" => (0, 0, 6, 1, 0, 2, 0),
        "C16" => (1, 0, 0, 1, 6, 2, 1),
        _ => (2, 2, 1, 4, 2, 5, 1),
    };
    let mix = Mix {
        strings,
        decimals,
        dates,
        complex,
        commands,
        branches,
        literals,
    };
    ctx.phase("docs", 6_000, 120_000, |ctx, rng, _| docs(ctx, rng, mix));
    ctx.phase("crowded", 60, 3_000, |ctx, rng, _| {
        let scale = rng.range(4, 60);
        docs_of_scale(ctx, rng, mix, scale)
    });
    match ctx.prop.clone().as_str() {
        "C07" => {
            ctx.phase("scalars", 64, 64, |ctx, rng, i| scalars(ctx, rng, i, 64));
            ctx.phase("plain", 4_000, 80_000, |ctx, rng, _| plain(ctx, rng));
            let all = Mix { strings: 4, decimals: 0, dates: 0, complex: 3, commands: 1, branches: 4, literals: 3 };
            ctx.phase("mixed", 4_000, 80_000, |ctx, rng, _| docs(ctx, rng, all));
        }
        "C08" => {
            ctx.phase("categories", 2_500, 50_000, |ctx, rng, _| categories(ctx, rng));
            ctx.phase("towers", 2_000, 30_000, |ctx, rng, _| towers(ctx, rng, 9));
            ctx.phase("shared", 8_000, 100_000, |ctx, rng, _| shared(ctx, rng));
        }
        "C09" => {
            ctx.phase("numbers", 12_000, 250_000, |ctx, rng, _| numbers(ctx, rng));
            ctx.phase("kinds", 4_000, 50_000, |ctx, rng, _| wrong_kind(ctx, rng, "decimal"));
        }
        "C10" => {
            ctx.phase("typed", 8_000, 150_000, |ctx, rng, _| moments(ctx, rng, false));
            ctx.phase("iso", 10_000, 200_000, |ctx, rng, _| moments(ctx, rng, true));
            ctx.phase("calendar", 400, 8_000, |ctx, rng, _| calendar(ctx, rng));
            ctx.phase("kinds", 3_000, 40_000, |ctx, rng, _| wrong_kind(ctx, rng, "date_time"));
        }
        "C11" => {
            ctx.phase("faults", 600, 10_000, |ctx, rng, _| faults(ctx, rng));
            let small = if ctx.thorough { 1_111_110 } else { 111_110 };
            ctx.phase("small", small / 1000 + 1, small / 1000 + 1, |ctx, rng, i| {
                small_strings(ctx, rng, i * 1000, ((i + 1) * 1000).min(small))
            });
            ctx.phase("soup", 15_000, 300_000, |ctx, rng, _| soup(ctx, rng));
            ctx.phase("noise", 5_000, 100_000, |ctx, rng, _| noise(ctx, rng));
            ctx.phase("mutated", 8_000, 200_000, |ctx, rng, _| mutated(ctx, rng));
            ctx.phase("almost_moments", 6_000, 150_000, |ctx, rng, _| almost_moments(ctx, rng));
            let pieces = if ctx.thorough { 1_111_110 } else { 111_110 };
            ctx.phase("small_moments", pieces / 1000 + 1, pieces / 1000 + 1, |ctx, rng, i| {
                small_moments(ctx, rng, i * 1000, ((i + 1) * 1000).min(pieces))
            });
            ctx.phase("large", 14, 28, |ctx, rng, i| large(ctx, rng, i));
            if ctx.recorded.is_none() {
                ctx.phase("growth", SHAPES, SHAPES, |ctx, _, i| growth(ctx, i));
            }
            ctx.phase("deep", 16, 64, |ctx, rng, _| deep(ctx, rng));
            let languages = gen::LANGUAGES.len() as u64;
            ctx.phase("extreme_years", languages, languages, |ctx, rng, i| extreme_years(ctx, rng, i));
        }
        "C16" => {
            ctx.phase("calls", 15_000, 300_000, |ctx, rng, _| calls(ctx, rng));
            ctx.phase("cached", 2_000, 30_000, |ctx, rng, _| call_cached(ctx, rng));
            ctx.phase("late", 2_000, 30_000, |ctx, rng, _| late_registration(ctx, rng));
            ctx.phase("registry", 3_000, 60_000, |ctx, rng, _| registry(ctx, rng));
            ctx.phase("many_commands", 20, 200, |ctx, rng, _| many_commands(ctx, rng));
            ctx.phase("built_in", 4_000, 60_000, |ctx, rng, _| built_in(ctx, rng));
        }
        _ => {}
    }
}
