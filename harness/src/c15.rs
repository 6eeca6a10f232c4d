//! C15: script data of languages, compared with the likely script of ICU and a transcription of the script table; the
//! right-to-left scripts are those of ICU's own directionality data.

use crate::mem::Bench;
use crate::tags;
use crate::util::*;
use i18n_utility::{Category, Direction, ScriptData, ScriptDirection};
use icu_locid::{subtags::Script, LanguageIdentifier};
use icu_locid_transform::{LocaleDirectionality, LocaleExpander};
use std::collections::HashMap;

struct Reference {
    table: HashMap<&'static str, &'static str>,
    expander: LocaleExpander,
    directionality: LocaleDirectionality,
}

fn reference() -> Reference {
    let table = include_str!("scripts.txt")
        .lines()
        .filter_map(|l| l.split_once(' '))
        .collect();
    Reference { table, expander: LocaleExpander::new_extended(), directionality: LocaleDirectionality::new() }
}

fn direction(d: &ScriptDirection) -> &'static str {
    match d {
        ScriptDirection::TopToBottomLeftToRight => "tbLR",
        ScriptDirection::TopToBottomRightToLeft => "tbRL",
        ScriptDirection::BottomToTopLeftToRight => "btLR",
        ScriptDirection::BottomToTopRightToLeft => "btRL",
        ScriptDirection::LeftToRightTopToBottom => "lrTB",
        ScriptDirection::LeftToRightBottomToTop => "lrBT",
        ScriptDirection::RightToLeftTopToBottom => "rlTB",
        ScriptDirection::RightToLeftBottomToTop => "rlBT",
    }
}

fn show(data: &Option<ScriptData>) -> Option<String> {
    data.as_ref().map(|d| {
        let category = match d.category {
            Category::Logographic => "Logographic",
            Category::Alphabetic => "Alphabetic",
            Category::Abugida => "Abugida",
            Category::Abjad => "Abjad",
            Category::Syllabic => "Syllabic",
            Category::Ideographic => "Ideographic",
            Category::Special => "Special",
        };
        let directions: Vec<&str> = d.directions.iter().map(direction).collect();
        format!("{category} {} {}", directions.join(","), if d.historic { "historic" } else { "current" })
    })
}

impl Reference {
    fn script(&self, tag: &str) -> Option<String> {
        let mut id: LanguageIdentifier = tag.parse().ok()?;
        if id.script.is_none() {
            self.expander.maximize(&mut id);
        }
        id.script.map(|s| s.as_str().to_string())
    }

    fn data(&self, tag: &str) -> Option<String> {
        self.script(tag).and_then(|s| self.table.get(s.as_str()).map(|d| d.to_string()))
    }
}

/// Everything a single answer must satisfy.
fn judge(ctx: &mut Ctx, r: &Reference, tag: &str, got: &Option<ScriptData>, what: &str) {
    ctx.eval();
    let expected = r.data(tag);
    let shown = show(got);
    ctx.record(|| format!("{what} of {tag}: {shown:?}"));
    ctx.check(shown == expected, || {
        format!("{what} of {tag} (script {:?}): expected {expected:?}, got {shown:?}", r.script(tag))
    });
    let Some(data) = got else {
        ctx.hit("no_script_data");
        return;
    };
    ctx.hit("script_data");
    for d in &data.directions {
        let name = format!("{d:?}");
        let (line, grapheme) = d.directions();
        let parts = format!("{line:?}{grapheme:?}");
        ctx.check(name == parts && line == d.line() && grapheme == d.grapheme(), || {
            format!("direction {name} has the parts {parts}, line {:?} and grapheme {:?}", d.line(), d.grapheme())
        });
    }
    if let [only] = data.directions.as_slice() {
        if only.line() == Direction::TopToBottom {
            let script = r.script(tag).unwrap_or_default();
            let Ok(code) = script.parse::<Script>() else { return };
            let mut id = LanguageIdentifier::default();
            id.script = Some(code);
            if let Some(rtl) = r.directionality.get(&id).map(|d| d == icu_locid_transform::Direction::RightToLeft) {
                ctx.hit(if rtl { "right_to_left" } else { "left_to_right" });
                let got = only.grapheme() == Direction::RightToLeft;
                ctx.check(got == rtl, || format!("{what} of {tag}: script {script} right to left {got}, ICU says {rtl}"));
            }
        }
    }
}

fn script_code(n: u64) -> String {
    let c = |k: u64| (b'a' + (n / 26u64.pow(k as u32) % 26) as u8) as char;
    format!("{}{}{}{}", c(3).to_ascii_uppercase(), c(2), c(1), c(0))
}

fn parts(ctx: &mut Ctx) {
    let all = [
        (ScriptDirection::TopToBottomLeftToRight, Direction::TopToBottom, Direction::LeftToRight),
        (ScriptDirection::TopToBottomRightToLeft, Direction::TopToBottom, Direction::RightToLeft),
        (ScriptDirection::BottomToTopLeftToRight, Direction::BottomToTop, Direction::LeftToRight),
        (ScriptDirection::BottomToTopRightToLeft, Direction::BottomToTop, Direction::RightToLeft),
        (ScriptDirection::LeftToRightTopToBottom, Direction::LeftToRight, Direction::TopToBottom),
        (ScriptDirection::LeftToRightBottomToTop, Direction::LeftToRight, Direction::BottomToTop),
        (ScriptDirection::RightToLeftTopToBottom, Direction::RightToLeft, Direction::TopToBottom),
        (ScriptDirection::RightToLeftBottomToTop, Direction::RightToLeft, Direction::BottomToTop),
    ];
    for (d, line, grapheme) in all {
        ctx.eval();
        ctx.hit("direction_parts");
        ctx.check(d.directions() == (line.clone(), grapheme.clone()) && d.line() == line && d.grapheme() == grapheme, || {
            format!("{d:?}: directions {:?}, line {:?}, grapheme {:?}", d.directions(), d.line(), d.grapheme())
        });
    }
}

/// A language likely to have a script of its own.
fn language(rng: &mut Rng) -> String {
    const KNOWN: [&str; 48] = [
        "ar", "he", "fa", "ur", "yi", "ff-Adlm", "dv", "syr", "nqo", "zh", "zh-TW", "zh-Hant", "ja", "ko", "th", "hi", "pa", "pa-PK",
        "uz", "uz-AF", "az", "az-IR", "sr", "sr-ME", "mn", "mn-CN", "ku", "ckb", "en", "de", "el", "ka", "hy", "am", "ti", "kn", "ta",
        "my", "km", "lo", "bo", "dz", "si", "chr", "iu", "und", "mul", "zxx",
    ];
    match rng.below(4) {
        0 => rng.pick(&KNOWN).to_string(),
        1 => {
            let n = rng.range(2, 3);
            (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
        }
        2 => {
            let mut s = rng.pick(&KNOWN).split('-').next().unwrap().to_string();
            let r: String = (0..2).map(|_| (b'A' + rng.below(26) as u8) as char).collect();
            s.push('-');
            s.push_str(&r);
            s
        }
        _ => tags::canonical(rng),
    }
}

/// Random default changes.
fn history(ctx: &mut Ctx, rng: &mut Rng, r: &Reference) {
    let first = language(rng);
    let b = Bench::new(rng.chance(1, 2), rng.chance(1, 2), &first);
    let Ok(tag) = b.registry.tag(&first) else { return };
    let mut current = tag.as_str().to_string();
    judge(ctx, r, &current, &b.localiser.script_data(), "default script data after creation");
    for _ in 0..rng.range(1, 12) {
        match rng.below(5) {
            0 => {
                let _ = b.localiser.defaults(None, Some(rng.chance(1, 2)), Some(rng.chance(1, 2)));
            }
            1 | 2 => {
                let Ok(tag) = b.registry.tag(&language(rng)) else { continue };
                let flag = |rng: &mut Rng| if rng.chance(1, 2) { None } else { Some(rng.chance(1, 2)) };
                let (f, c) = (flag(rng), flag(rng));
                let result = b.localiser.defaults(Some(RefCount::clone(&tag)), f, c);
                ctx.check(result.is_ok(), || format!("defaults({:?}) fails", tag.as_str()));
                current = tag.as_str().to_string();
                ctx.hit("default_changes");
            }
            3 => {
                let Ok(tag) = b.registry.tag(&language(rng)) else { continue };
                let got = b.localiser.script_data_for_language_tag(&tag);
                judge(ctx, r, tag.as_str(), &got, "script data");
            }
            _ => {}
        }
        judge(ctx, r, &current, &b.localiser.script_data(), "default script data");
    }
    ctx.distinct(&current);
    ctx.sample(|| format!("{first} ... {current}: {:?}", show(&b.localiser.script_data())));
}

pub fn run(ctx: &mut Ctx) {
    let r = reference();
    let b = Bench::new(true, true, "en");
    ctx.phase("parts", 8, 8, |ctx, _, _| parts(ctx));
    // Every script code there can be, named in the tag.
    ctx.phase("codes", 26 * 26 * 26 * 26 / 256 + 1, 26 * 26 * 26 * 26 / 256 + 1, |ctx, rng, block| {
        for n in block * 256..((block + 1) * 256).min(26 * 26 * 26 * 26) {
            let code = script_code(n);
            let known = r.table.contains_key(code.as_str());
            if !known && !ctx.thorough && n % 16 != rng.below(16) as u64 {
                continue;
            }
            let languages: &[&str] = if known { &["und", "en", "ar", "zh", "sr"] } else { &["und"] };
            for l in languages {
                let tag = b.registry.tag(&format!("{l}-{code}")).expect("tag");
                let got = b.localiser.script_data_for_language_tag(&tag);
                judge(ctx, &r, tag.as_str(), &got, "script data");
                if known {
                    ctx.hit("known_scripts");
                    ctx.distinct(tag.as_str());
                }
            }
        }
    });
    // Every two and three letter language code, without a script.
    ctx.phase("languages", 26 * 27, 26 * 27, |ctx, rng, block| {
        for n in 0..26u64 {
            let c = |k: u64| (b'a' + k as u8) as char;
            let code = if block < 26 {
                format!("{}{}", c(block), c(n))
            } else {
                format!("{}{}{}", c((block - 26) / 26), c((block - 26) % 26), c(n))
            };
            let Ok(tag) = b.registry.tag(&code) else { continue };
            let got = b.localiser.script_data_for_language_tag(&tag);
            judge(ctx, &r, tag.as_str(), &got, "script data");
            if got.is_some() {
                ctx.hit("languages_with_script");
                ctx.distinct(tag.as_str());
                for _ in 0..if ctx.thorough { 40 } else { 4 } {
                    let region: String = (0..2).map(|_| (b'A' + rng.below(26) as u8) as char).collect();
                    let tag = b.registry.tag(&format!("{code}-{region}")).expect("tag");
                    let got = b.localiser.script_data_for_language_tag(&tag);
                    judge(ctx, &r, tag.as_str(), &got, "script data");
                }
            }
        }
    });
    ctx.phase("histories", 3_000, 60_000, |ctx, rng, _| history(ctx, rng, &r));
}
