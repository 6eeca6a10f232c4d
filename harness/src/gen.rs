//! Generators of placeholder values and of well-formed pattern trees.

use crate::mem::Values;
use crate::oracle;
use crate::pat::{Doc, Part};
use crate::tags;
use crate::text::*;
use crate::util::*;
use fixed_decimal::FixedDecimal;
use i18n_utility::{LanguageTag, LanguageTagRegistry, LocalisationData, PlaceholderValue, TaggedString};
use icu_calendar::{types::Time, Date, DateTime, Iso};

const NAMES: &[&str] = &[
    "a", "b", "c", "count", "name", "x1", "_", "__", "größe", "名前", "имя", "decimal", "plural", "select", "other", "one", "A", "B",
    "file_path", "0", "42", "value", "first", "second", "e\u{301}", "مرحبا", "𝒳", "number", "selector", "identifier", "ª",
];

pub fn identifier(rng: &mut Rng) -> String {
    if rng.chance(3, 4) {
        let mut s = rng.pick(NAMES).to_string();
        if rng.chance(1, 2) {
            s.push_str(&rng.below(50).to_string());
        }
        s
    } else {
        let mut s = String::new();
        for _ in 0..rng.range(1, 5) {
            let mut c = scalar(rng);
            while is_pattern_white_space(c) || is_pattern_syntax(c) {
                c = scalar(rng);
            }
            s.push(c);
        }
        s
    }
}

/// A name not in `used`.
pub fn fresh(rng: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        let s = identifier(rng);
        if !used.contains(&s) {
            used.push(s.clone());
            return s;
        }
    }
}

pub const LANGUAGES: &[&str] = &[
    "en", "en-ZA", "de", "de-CH", "fr", "fr-CH", "it", "hi", "ar", "ar-EG", "fa", "bn", "pl", "ru", "cs", "cy", "ga", "lt", "lv",
    "sl", "mt", "he", "ja", "zh-Hant-TW", "ko", "th", "pt-PT", "pt", "es", "es-419", "sr-Latn-RS", "uk", "ro", "sv", "tr", "vi",
    "my", "ta", "mr", "ne", "ur", "gd", "br", "und", "ka", "hy", "en-IN", "it-CH", "bg", "hu", "ca", "or", "as", "ms", "kk", "mk",
];

pub fn language(rng: &mut Rng) -> String {
    if rng.chance(5, 6) {
        rng.pick(LANGUAGES).to_string()
    } else {
        tags::canonical(rng)
    }
}

pub fn text(rng: &mut Rng) -> String {
    let n = rng.range(1, 6);
    any_string(rng, n, "{}`#")
}

/// Text of a branch may not begin with white space: it belongs to the separator.
pub fn branch_text(rng: &mut Rng) -> String {
    let mut s = text(rng);
    while s.is_empty() {
        s = text(rng);
    }
    s
}

pub fn integer(rng: &mut Rng) -> i128 {
    let u = unsigned(rng);
    match rng.below(8) {
        0 => i128::MIN,
        1 => i128::MAX,
        2 => i64::MIN as i128,
        3 | 4 => -((u >> 1) as i128),
        _ => (u >> 1) as i128,
    }
}

pub fn unsigned(rng: &mut Rng) -> u128 {
    match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => rng.below(130) as u128,
        3 => rng.below(130) as u128,
        4 => u64::MAX as u128 + rng.below(3) as u128,
        5 => u128::MAX - rng.below(3) as u128,
        6 | 7 => {
            let p = 10u128.pow(rng.range(0, 38) as u32);
            match rng.below(3) {
                0 => p,
                1 => p - 1,
                _ => p + 1,
            }
        }
        8 => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 38) {
                s.push(*rng.pick(&['0', '1', '9', '5']));
            }
            s.parse().unwrap()
        }
        9 => rng.below(100_000) as u128,
        _ => {
            let v = ((rng.next() as u128) << 64) | rng.next() as u128;
            v >> rng.below(128)
        }
    }
}

pub fn float(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => *rng.pick(&[1.0, 1.5, 0.1, 0.5, 2.0, -1.0, 1e21, 1e22, 1e-7, 123456.789, 0.3, 1e15, 9007199254740993.0]),
        3 => *rng.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e300, -1e-300]),
        4 | 5 => rng.below(1_000_000) as f64 / *rng.pick(&[1.0, 10.0, 100.0, 1000.0, 8.0, 3.0]),
        6 => -(rng.below(1_000_000) as f64) / 100.0,
        7 => rng.below(30) as f64,
        8 => rng.next() as f64,
        _ => loop {
            let v = f64::from_bits(rng.next());
            if v.is_finite() {
                break v;
            }
        },
    }
}

pub fn decimal_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    match rng.below(6) {
        0 | 1 => s.push('-'),
        2 => s.push('+'),
        _ => {}
    }
    let n = match rng.below(4) {
        0 => rng.range(20, 60),
        1 => 1,
        _ => rng.range(1, 9),
    };
    for _ in 0..n {
        s.push((b'0' + rng.below(10) as u8) as char);
    }
    if rng.chance(1, 2) {
        s.push('.');
        for _ in 0..rng.range(1, 12) {
            s.push(*rng.pick(&['0', '0', '1', '5', '9', '3']));
        }
    }
    s
}

pub fn decimal(rng: &mut Rng) -> FixedDecimal {
    oracle::from_text(&decimal_text(rng))
}

pub fn number(rng: &mut Rng) -> PlaceholderValue {
    match rng.below(8) {
        0 | 1 => PlaceholderValue::Integer(integer(rng)),
        2..=4 => PlaceholderValue::Unsigned(unsigned(rng)),
        5 => PlaceholderValue::Float(float(rng)),
        6 => PlaceholderValue::Unsigned(rng.below(125) as u128),
        _ => PlaceholderValue::FixedDecimal(decimal(rng)),
    }
}

pub fn string_value(rng: &mut Rng, registry: &LanguageTagRegistry, s: String) -> PlaceholderValue {
    match rng.below(3) {
        0 => PlaceholderValue::String(s),
        1 => {
            let tag = registry.tag(&language(rng)).expect("tag");
            PlaceholderValue::TaggedString(TaggedString::new(s, &tag))
        }
        _ => {
            let tag: RefCount<LanguageTag> = registry.tag(&language(rng)).expect("tag");
            PlaceholderValue::Localised(RefCount::new(s), tag)
        }
    }
}

pub fn any_text_value(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => "{a} `#{b plural other#c} ``#{c #}".to_string(),
        2 => rng.pick(&["{", "}", "`", "#", "{}", "``", "{`", "`}", "{#", "#{", "{a}", "{_}", "`{", "\0"]).to_string(),
        _ => {
            let n = rng.range(1, 10);
            any_string(rng, n, "{}`#")
        }
    }
}

pub fn ymd(rng: &mut Rng) -> (i32, u8, u8) {
    let year = match rng.below(9) {
        8 => *rng.pick(&[100_000, 999_999, 1_234_567, 5_879_612, 99_999_999, 2_147_482_000, -100_000, -999_999, -5_879_612, -2_147_482_000]),
        0 => rng.range(0, 400) as i32,
        1 => -(rng.range(1, 9999) as i32),
        2 => rng.range(10_000, 99_999) as i32,
        3 => *rng.pick(&[1900, 2000, 2100, 2024, 1, 0, 1582, 1970, 9999, 999]),
        _ => rng.range(1800, 2200) as i32,
    };
    let month = rng.range(1, 12) as u8;
    let leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
    let last = match month {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + u8::from(leap),
        _ => 31,
    };
    let day = if rng.chance(1, 4) { last } else { rng.range(1, last as usize) as u8 };
    (year, month, day)
}

pub fn hms(rng: &mut Rng) -> (u8, u8, u8) {
    match rng.below(12) {
        0 | 1 => (0, 0, 0),
        2 | 3 => (23, 59, 59),
        4 | 5 => (12, 0, 0),
        // The end of the day, and a leap second.
        6 => (24, 0, 0),
        7 => *rng.pick(&[(23, 59, 60), (5, 30, 60)]),
        _ => (rng.below(24) as u8, rng.below(60) as u8, rng.below(60) as u8),
    }
}

pub fn iso_date(rng: &mut Rng) -> Date<Iso> {
    let (y, m, d) = ymd(rng);
    Date::try_new_iso_date(y, m, d).expect("date")
}

pub fn iso_time(rng: &mut Rng) -> Time {
    let (h, m, s) = hms(rng);
    let nano = if h == 24 { 0 } else { rng.below(1_000_000_000) as u32 };
    Time::try_new(h, m, s, nano).expect("time")
}

pub fn moment(rng: &mut Rng) -> PlaceholderValue {
    match rng.below(3) {
        0 => PlaceholderValue::Date(iso_date(rng)),
        1 => PlaceholderValue::Time(iso_time(rng)),
        _ => PlaceholderValue::DateTime(DateTime::new(iso_date(rng), iso_time(rng))),
    }
}

/// A documented ISO 8601 text, possible or impossible.
pub fn iso_text(rng: &mut Rng) -> String {
    let (mut y, mut m, mut d) = ymd(rng);
    let (mut h, mut mi, mut s) = hms(rng);
    if rng.chance(1, 5) {
        match rng.below(6) {
            0 => m = *rng.pick(&[0, 13, 99]),
            1 => d = *rng.pick(&[0, 32, 99]),
            2 => {
                m = 2;
                d = *rng.pick(&[29, 30]);
                y = *rng.pick(&[1900, 2023, 2100, 2001, 2024, 2000]);
            }
            3 => h = *rng.pick(&[25, 99, 30]),
            4 => mi = *rng.pick(&[61, 99]),
            _ => s = *rng.pick(&[62, 99]),
        }
    }
    let year = if (0..=9999).contains(&y) {
        match rng.below(6) {
            0 => format!("+{y:04}"),
            1 => format!("+{y:06}"),
            _ => format!("{y:04}"),
        }
    } else if y < 0 {
        if rng.chance(1, 2) {
            format!("-{:04}", -y)
        } else {
            format!("-{:06}", -y)
        }
    } else {
        format!("+{y:05}")
    };
    let plain = year.len() == 4;
    let date = match rng.below(6) {
        0 => year,
        1 => format!("{year}-{m:02}"),
        2 if plain => format!("{year}{m:02}{d:02}"),
        _ => format!("{year}-{m:02}-{d:02}"),
    };
    let extended = rng.chance(2, 3);
    let mut time = match (rng.below(5), extended) {
        (0, _) => format!("{h:02}"),
        (1, true) => format!("{h:02}:{mi:02}"),
        (1, false) => format!("{h:02}{mi:02}"),
        (_, true) => format!("{h:02}:{mi:02}:{s:02}"),
        (_, false) => format!("{h:02}{mi:02}{s:02}"),
    };
    if time.replace(':', "").len() == 6 && rng.chance(1, 3) {
        time.push('.');
        for _ in 0..rng.range(1, 9) {
            time.push((b'0' + rng.below(10) as u8) as char);
        }
    }
    match rng.below(6) {
        0 => time.push('Z'),
        1 | 2 => {
            time.push(*rng.pick(&['+', '-']));
            time.push_str(&format!("{:02}", rng.range(0, 14)));
            match rng.below(3) {
                0 => {}
                1 => time.push_str(&format!(":{:02}", rng.pick(&[0, 15, 30, 45, 59]))),
                _ => time.push_str(&format!("{:02}", rng.pick(&[0, 15, 30, 45, 59]))),
            }
        }
        _ => {}
    }
    match rng.below(4) {
        0 => date,
        1 => format!("T{time}"),
        _ => format!("{date}T{time}"),
    }
}

/// A text close to an ISO 8601 one, with characters of every width in any place.
pub fn hostile_moment(rng: &mut Rng) -> String {
    const ODD: [char; 20] = [
        '\u{e9}', '\u{20ac}', '\u{1d7cf}', '\u{663}', '\u{301}', '\0', ' ', 'T', 't', '-', '+', ':', '.', ',', 'Z', '0', '9', 'W', '/', '\u{2212}',
    ];
    let mut chars: Vec<char> = if rng.chance(1, 6) { Vec::new() } else { iso_text(rng).chars().collect() };
    for _ in 0..rng.range(1, 4) {
        let at = rng.below(chars.len() + 1);
        match rng.below(6) {
            0 if at < chars.len() => {
                chars.remove(at);
            }
            1 => chars.truncate(at),
            2 if at < chars.len() => chars[at] = *rng.pick(&ODD),
            3 if at < chars.len() => {
                let c = chars[at];
                for _ in 0..rng.range(1, 12) {
                    chars.insert(at, c);
                }
            }
            _ => chars.insert(at, *rng.pick(&ODD)),
        }
    }
    chars.into_iter().collect()
}

/// Any value at all.
pub fn any_value(rng: &mut Rng, registry: &LanguageTagRegistry) -> PlaceholderValue {
    match rng.below(9) {
        0 | 1 => {
            let s = any_text_value(rng);
            string_value(rng, registry, s)
        }
        2 | 3 => number(rng),
        4 => PlaceholderValue::Float(*rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, -0.0])),
        5 => moment(rng),
        6 if rng.chance(1, 2) => PlaceholderValue::String(hostile_moment(rng)),
        6 => PlaceholderValue::String(iso_text(rng)),
        7 => PlaceholderValue::LocalisationData(LocalisationData {
            component: "c".to_string(),
            identifier: "q".to_string(),
            values: None,
        }),
        _ => PlaceholderValue::String(rng.pick(&["one", "other", "a", "male", "true", "0"]).to_string()),
    }
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub strings: usize,
    pub decimals: usize,
    pub dates: usize,
    pub complex: usize,
    pub commands: usize,
    pub branches: usize,
    pub literals: usize,
}

/// The commands every generated tree may use.
pub const COMMANDS: &[&str] = &["echo", "list", "größe", "c_1"];

pub struct Builder<'a> {
    pub rng: &'a mut Rng,
    pub registry: &'a LanguageTagRegistry,
    pub mix: Mix,
    used: Vec<String>,
    pub values: Values,
    branches: Vec<String>,
    /// How many parts a branch expands to; keeps the rendered text small.
    weights: Vec<usize>,
    select_keys: Vec<String>,
    /// Multiplies the numbers of parts, branches, selectors and parameters.
    pub scale: usize,
}

impl<'a> Builder<'a> {
    pub fn new(rng: &'a mut Rng, registry: &'a LanguageTagRegistry, mix: Mix) -> Self {
        Builder {
            rng,
            registry,
            mix,
            used: Vec::new(),
            values: Values::new(),
            branches: Vec::new(),
            weights: Vec::new(),
            select_keys: Vec::new(),
            scale: 1,
        }
    }

    pub fn keyword(&mut self, keyword: &str, selectors: Vec<(String, String)>, value: PlaceholderValue) -> Part {
        let name = fresh(self.rng, &mut self.used);
        self.values.insert(name.clone(), value);
        Part::Keyword {
            name,
            keyword: keyword.to_string(),
            selectors,
        }
    }

    fn branch(&mut self) -> Option<(String, usize)> {
        if self.branches.is_empty() {
            return None;
        }
        let i = self.rng.below(self.branches.len());
        if self.weights[i] > 300 * self.scale.min(8) {
            return None;
        }
        Some((self.branches[i].clone(), self.weights[i]))
    }

    pub fn decimal(&mut self) -> Part {
        let mut selectors = Vec::new();
        if self.rng.chance(1, 2) {
            let v = *self.rng.pick(&["auto", "never", "always", "except_zero", "negative"]);
            selectors.push(("sign".to_string(), v.to_string()));
        }
        if self.rng.chance(1, 2) {
            let v = *self.rng.pick(&["auto", "never", "always", "min2"]);
            let at = self.rng.below(selectors.len() + 1);
            selectors.insert(at, ("group".to_string(), v.to_string()));
        }
        let value = number(self.rng);
        self.keyword("decimal", selectors, value)
    }

    pub fn date_time(&mut self, text: bool) -> Part {
        let mut selectors = Vec::new();
        const L: &[&str] = &["full", "long", "medium", "short"];
        if self.rng.chance(1, 2) {
            selectors.push(("date".to_string(), self.rng.pick(L).to_string()));
        }
        if self.rng.chance(1, 2) {
            let v = self.rng.pick(L).to_string();
            let at = self.rng.below(selectors.len() + 1);
            selectors.insert(at, ("time".to_string(), v));
        }
        let value = if text {
            PlaceholderValue::String(iso_text(self.rng))
        } else {
            moment(self.rng)
        };
        self.keyword("date_time", selectors, value)
    }

    pub fn complex(&mut self) -> (Part, usize) {
        let keyword = *self.rng.pick(&["plural", "plural", "ordinal", "select"]);
        let mut weight = 1;
        let mut selectors: Vec<(String, String)> = Vec::new();
        let keys: Vec<String> = if keyword == "select" {
            let mut keys: Vec<String> = (0..self.rng.range(0, 3 * self.scale)).map(|_| identifier(self.rng)).collect();
            if self.scale > 1 {
                keys.sort();
            }
            keys.dedup();
            keys
        } else {
            let mut keys: Vec<String> =
                ["zero", "one", "two", "few", "many"].iter().map(|s| s.to_string()).collect();
            self.rng.shuffle(&mut keys);
            keys.truncate(self.rng.range(0, 5));
            keys
        };
        for key in keys.iter().cloned().chain(std::iter::once("other".to_string())) {
            if let Some((b, w)) = self.branch() {
                weight = weight.max(w);
                selectors.push((key, b));
            }
        }
        if !selectors.iter().any(|(k, _)| k == "other") {
            // No branch light enough: plain text instead.
            return (Part::Text("-".to_string()), 1);
        }
        self.rng.shuffle(&mut selectors);
        self.select_keys = keys.clone();
        let value = match keyword {
            "select" => {
                let key = match self.rng.below(5) {
                    0 => any_text_value(self.rng),
                    // Nearly one of the keys.
                    4 => {
                        let key = if keys.is_empty() { "other".to_string() } else { self.rng.pick(&keys).clone() };
                        match self.rng.below(9) {
                            0 => key.to_uppercase(),
                            1 => key.to_lowercase(),
                            2 => format!(" {key}"),
                            3 => format!("{key} "),
                            4 => format!("{key}{key}"),
                            5 => format!("{key}_"),
                            6 => key.chars().take(key.chars().count() - 1).collect(),
                            7 => key.chars().skip(1).collect(),
                            _ => key.chars().rev().collect(),
                        }
                    }
                    1 => "other".to_string(),
                    _ if !keys.is_empty() => self.rng.pick(&keys).clone(),
                    _ => identifier(self.rng),
                };
                string_value(self.rng, self.registry, key)
            }
            "ordinal" => PlaceholderValue::Unsigned(if self.rng.chance(3, 4) {
                self.rng.below(130) as u128
            } else {
                unsigned(self.rng)
            }),
            _ => {
                if self.rng.chance(1, 2) {
                    PlaceholderValue::Unsigned(self.rng.below(130) as u128)
                } else {
                    number(self.rng)
                }
            }
        };
        (self.keyword(keyword, selectors, value), weight)
    }

    pub fn string(&mut self) -> Part {
        let name = fresh(self.rng, &mut self.used);
        let mut s = any_text_value(self.rng);
        if self.scale > 1 && self.rng.chance(1, 20) {
            s = s.repeat(self.rng.range(1, 4000));
        }
        let value = string_value(self.rng, self.registry, s);
        self.values.insert(name.clone(), value);
        Part::Str(name)
    }

    pub fn command(&mut self) -> Part {
        let delayed = self.rng.chance(1, 2);
        let name = self.rng.pick(COMMANDS).to_string();
        let mut parameters = Vec::new();
        let mut known: Vec<String> = self.values.keys().cloned().collect();
        known.sort();
        for _ in 0..self.rng.below(4 * self.scale.min(16)) {
            if self.rng.chance(1, 2) {
                if self.scale == 1 {
                    known = self.values.keys().cloned().collect();
                    known.sort();
                }
                let p = if !known.is_empty() && self.rng.chance(2, 3) {
                    self.rng.pick(&known).clone()
                } else {
                    let p = identifier(self.rng);
                    if self.rng.chance(1, 2) {
                        // Values that only a command mentions.
                        let v = any_value(self.rng, self.registry);
                        self.values.entry(p.clone()).or_insert(v);
                    }
                    p
                };
                parameters.push((p, false));
            } else {
                parameters.push((any_text_value(self.rng), true));
            }
        }
        Part::Command {
            delayed,
            name,
            parameters,
        }
    }

    fn part(&mut self, in_branch: bool, first: bool, last_number: bool) -> (Part, usize) {
        let m = self.mix;
        let total = 4 + m.strings + m.decimals + m.dates + m.complex + m.commands + m.literals + usize::from(in_branch) * 3;
        let mut n = self.rng.below(total);
        for (weight, kind) in [
            (4, 0),
            (m.strings, 1),
            (m.decimals, 2),
            (m.dates, 3),
            (m.complex, 4),
            (m.commands, 5),
            (m.literals, 6),
            (3, 7),
        ] {
            if n >= weight {
                n -= weight;
                continue;
            }
            return match kind {
                1 => (self.string(), 1),
                2 => (self.decimal(), 1),
                3 => (self.date_time(false), 1),
                4 if !self.branches.is_empty() => self.complex(),
                5 => (self.command(), 1),
                6 => (Part::Literal(any_text_value(self.rng)), 1),
                7 if !last_number => (Part::Number, 1),
                _ => (
                    Part::Text(if first && in_branch {
                        branch_text(self.rng)
                    } else {
                        text(self.rng)
                    }),
                    1,
                ),
            };
        }
        (Part::Text("x".to_string()), 1)
    }

    fn parts(&mut self, in_branch: bool, max: usize) -> (Vec<Part>, usize) {
        let n = self.rng.range(if in_branch { 0 } else { 1 }, max);
        let mut out: Vec<Part> = Vec::new();
        let mut weight = 1;
        for _ in 0..n {
            let last_number = out.last() == Some(&Part::Number);
            let (part, w) = self.part(in_branch, out.is_empty(), last_number);
            weight += w;
            out.push(part);
        }
        // Two text parts of which the second begins a run stay what they are when joined; nothing to repair.
        (out, weight)
    }

    pub fn doc(&mut self) -> Doc {
        let mut doc = Doc::default();
        let mut names = vec!["_".to_string()];
        for _ in 0..self.rng.range(0, self.mix.branches * self.scale) {
            let name = fresh(self.rng, &mut names);
            let (parts, weight) = self.parts(true, 5 * self.scale.min(6));
            doc.named.push((name.clone(), parts));
            self.branches.push(name);
            self.weights.push(weight);
        }
        let (main, _) = self.parts(false, 8 * self.scale);
        doc.main = main;
        doc
    }
}
