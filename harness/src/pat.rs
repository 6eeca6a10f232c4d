//! The pattern language, independently of the code under test: syntax tree, reference parser, reference evaluator and
//! printer.

use crate::mem::Values;
use crate::oracle::{self, Grouping, Len, SignOption};
use crate::text::*;
use crate::util::Rng;
use fixed_decimal::FixedDecimal;
use i18n_utility::PlaceholderValue;
use icu_calendar::{types::Time, Date, DateTime, Iso};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Part {
    Text(String),
    Literal(String),
    Number,
    Str(String),
    Keyword {
        name: String,
        keyword: String,
        selectors: Vec<(String, String)>,
    },
    Command {
        delayed: bool,
        name: String,
        /// (text, written as a backtick literal)
        parameters: Vec<(String, bool)>,
    },
}

#[derive(Debug, Clone, Default)]
pub struct Doc {
    pub main: Vec<Part>,
    pub named: Vec<(String, Vec<Part>)>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Text(String),
    Error,
    /// The documentation does not decide: only a crash would be wrong.
    Open,
}

#[derive(Debug, Clone, PartialEq, Copy)]
enum Kind {
    White,
    Ident,
    Grammar,
    Syntax,
}

fn lex(s: &str) -> Vec<(Kind, String)> {
    let mut out: Vec<(Kind, String)> = Vec::new();
    for c in s.chars() {
        let kind = if is_pattern_white_space(c) {
            Kind::White
        } else if is_pattern_syntax(c) {
            if "{}`#".contains(c) {
                Kind::Grammar
            } else {
                Kind::Syntax
            }
        } else {
            Kind::Ident
        };
        match out.last_mut() {
            Some((last, text)) if *last == kind && kind != Kind::Grammar => text.push(c),
            _ => out.push((kind, c.to_string())),
        }
    }
    out
}

struct Parser {
    tokens: Vec<(Kind, String)>,
    at: usize,
    placeholders: Vec<String>,
}

impl Parser {
    fn peek(&self) -> Option<(Kind, &str)> {
        self.tokens.get(self.at).map(|(k, s)| (*k, s.as_str()))
    }
    fn next(&mut self) -> Option<(Kind, String)> {
        let t = self.tokens.get(self.at).cloned();
        self.at += 1;
        t
    }

    /// After the opening brace.
    fn pattern(&mut self) -> Result<Part, ()> {
        let (kind, text) = self.next().ok_or(())?;
        match (kind, text.as_str()) {
            (Kind::Ident, _) => {
                if self.placeholders.contains(&text) {
                    return Err(());
                }
                self.placeholders.push(text.clone());
                let mut keyword: Option<String> = None;
                let mut selectors = Vec::new();
                loop {
                    let (kind, s) = self.next().ok_or(())?;
                    match (kind, s.as_str()) {
                        (Kind::White, _) => {}
                        (Kind::Grammar, "}") => break,
                        (Kind::Ident, _) if keyword.is_none() => keyword = Some(s),
                        (Kind::Ident, _) => {
                            if self.next().ok_or(())? != (Kind::Grammar, "#".to_string()) {
                                return Err(());
                            }
                            let (kind, value) = self.next().ok_or(())?;
                            if kind != Kind::Ident {
                                return Err(());
                            }
                            selectors.push((s, value));
                        }
                        _ => return Err(()),
                    }
                }
                Ok(match keyword {
                    None => Part::Str(text),
                    Some(keyword) => Part::Keyword {
                        name: text,
                        keyword,
                        selectors,
                    },
                })
            }
            (Kind::Grammar, "`") => {
                let literal = self.literal()?;
                match self.next() {
                    Some((Kind::Grammar, s)) if s == "}" => Ok(Part::Literal(literal)),
                    _ => Err(()),
                }
            }
            (Kind::Grammar, "#") => {
                let mut name: Option<String> = None;
                let mut delayed = false;
                let mut parameters = Vec::new();
                loop {
                    let (kind, s) = self.next().ok_or(())?;
                    match (kind, s.as_str()) {
                        (Kind::White, _) => {}
                        (Kind::Ident, _) if name.is_none() => name = Some(s),
                        (Kind::Ident, _) => parameters.push((s, false)),
                        (Kind::Grammar, "`") => {
                            let literal = self.literal()?;
                            if name.is_none() {
                                return Err(());
                            }
                            parameters.push((literal, true));
                        }
                        (Kind::Grammar, "#") if name.is_some() && !delayed && parameters.is_empty() => delayed = true,
                        (Kind::Grammar, "}") if name.is_some() => break,
                        _ => return Err(()),
                    }
                }
                Ok(Part::Command {
                    delayed,
                    name: name.unwrap(),
                    parameters,
                })
            }
            _ => Err(()),
        }
    }

    /// After the opening backtick.
    fn literal(&mut self) -> Result<String, ()> {
        let mut out = String::new();
        loop {
            let (_, s) = self.next().ok_or(())?;
            if s == "`" {
                if self.peek().is_some_and(|(_, t)| t == "`") {
                    self.at += 1;
                    out.push('`');
                    continue;
                }
                return Ok(out);
            }
            out.push_str(&s);
        }
    }

    fn doc(&mut self) -> Result<Doc, ()> {
        let mut doc = Doc::default();
        loop {
            let Some((kind, s)) = self.next() else { return Ok(doc) };
            match (kind, s.as_str()) {
                (Kind::Grammar, "`") => doc.main.push(Part::Text(self.next().ok_or(())?.1)),
                (Kind::Grammar, "{") => doc.main.push(self.pattern()?),
                (Kind::Grammar, "#") => break,
                (Kind::Grammar, _) => return Err(()),
                _ => doc.main.push(Part::Text(s)),
            }
        }
        loop {
            let Some((kind, s)) = self.next() else { return Ok(doc) };
            match (kind, s.as_str()) {
                (Kind::White, _) => {}
                (Kind::Grammar, "{") => {
                    let (kind, name) = self.next().ok_or(())?;
                    if kind != Kind::Ident || name == "_" || doc.named.iter().any(|(n, _)| *n == name) {
                        return Err(());
                    }
                    if self.next().ok_or(())?.0 != Kind::White {
                        return Err(());
                    }
                    let mut parts: Vec<Part> = Vec::new();
                    loop {
                        let (kind, s) = self.next().ok_or(())?;
                        match (kind, s.as_str()) {
                            (Kind::Grammar, "}") => break,
                            (Kind::Grammar, "{") => parts.push(self.pattern()?),
                            (Kind::Grammar, "`") => parts.push(Part::Text(self.next().ok_or(())?.1)),
                            (Kind::Grammar, _) => {
                                if parts.last() == Some(&Part::Number) {
                                    return Err(());
                                }
                                parts.push(Part::Number);
                            }
                            _ => parts.push(Part::Text(s)),
                        }
                    }
                    doc.named.push((name, parts));
                }
                _ => return Err(()),
            }
        }
    }
}

pub fn has_grammar(s: &str) -> bool {
    s.contains(['{', '}', '`', '#'])
}

/// Reference reading of a pattern string.
pub fn parse(s: &str) -> Result<Doc, ()> {
    Parser {
        tokens: lex(s),
        at: 0,
        placeholders: Vec::new(),
    }
    .doc()
}


pub struct Env<'a> {
    pub lang: &'a str,
    pub values: &'a Values,
    /// What a command, called with name and parameters, answers. `None`: unknown command.
    pub commands: &'a dyn Fn(&[PlaceholderValue]) -> Option<Result<String, ()>>,
}

const CATEGORIES: [&str; 6] = ["zero", "one", "two", "few", "many", "other"];

pub fn sign_option(s: &str) -> Option<SignOption> {
    Some(match s {
        "auto" => SignOption::Auto,
        "never" => SignOption::Never,
        "always" => SignOption::Always,
        "except_zero" => SignOption::ExceptZero,
        "negative" => SignOption::Negative,
        _ => return None,
    })
}

pub fn group_option(s: &str) -> Option<Grouping> {
    Some(match s {
        "auto" => Grouping::Auto,
        "never" => Grouping::Never,
        "always" => Grouping::Always,
        "min2" => Grouping::Min2,
        _ => return None,
    })
}

pub fn len_option(s: &str) -> Option<Len> {
    Some(match s {
        "full" => Len::Full,
        "long" => Len::Long,
        "medium" => Len::Medium,
        "short" => Len::Short,
        _ => return None,
    })
}

/// Duplicate keys: the last one counts.
fn map(selectors: &[(String, String)]) -> HashMap<&str, &str> {
    selectors.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect()
}

enum Stop {
    Error,
    Open,
}

/// Static rules of a part, given the names of the branches defined before it.
fn check_part(part: &Part, earlier: &[String], env: &Env) -> Result<(), Stop> {
    match part {
        Part::Keyword { keyword, selectors, .. } => match keyword.as_str() {
            "decimal" => {
                for (k, v) in map(selectors) {
                    match k {
                        "sign" => sign_option(v).map(|_| ()).ok_or(Stop::Error)?,
                        "group" => group_option(v).map(|_| ()).ok_or(Stop::Error)?,
                        _ => return Err(Stop::Error),
                    }
                }
                Ok(())
            }
            "date_time" => {
                let m = map(selectors);
                for (k, v) in &m {
                    match *k {
                        "date" | "time" => len_option(v).map(|_| ()).ok_or(Stop::Error)?,
                        "calendar" => {}
                        _ => return Err(Stop::Error),
                    }
                }
                if m.contains_key("calendar") {
                    return Err(Stop::Open);
                }
                Ok(())
            }
            "plural" | "ordinal" => {
                let m = map(selectors);
                for (k, v) in &m {
                    if !CATEGORIES.contains(k) || !earlier.iter().any(|n| n == v) {
                        return Err(Stop::Error);
                    }
                }
                if m.contains_key("other") {
                    Ok(())
                } else {
                    Err(Stop::Error)
                }
            }
            "select" => {
                for (_, v) in map(selectors) {
                    if !earlier.iter().any(|n| n == v) {
                        return Err(Stop::Error);
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Error),
        },
        Part::Command {
            delayed: false,
            name,
            parameters,
        } => match (env.commands)(&plain_parameters(name, parameters)) {
            Some(Ok(_)) => Ok(()),
            _ => Err(Stop::Error),
        },
        _ => Ok(()),
    }
}

pub fn plain_parameters(name: &str, parameters: &[(String, bool)]) -> Vec<PlaceholderValue> {
    std::iter::once(name)
        .chain(parameters.iter().map(|(p, _)| p.as_str()))
        .map(|p| PlaceholderValue::String(p.to_string()))
        .collect()
}

pub fn delayed_parameters(name: &str, parameters: &[(String, bool)], values: &Values) -> Vec<PlaceholderValue> {
    let mut out = vec![PlaceholderValue::String(name.to_string())];
    for (p, _) in parameters {
        out.push(match values.get(p) {
            Some(value) => value.clone(),
            None => PlaceholderValue::String(p.clone()),
        });
    }
    out
}

pub fn as_text(value: &PlaceholderValue) -> Option<&str> {
    match value {
        PlaceholderValue::String(s) => Some(s),
        PlaceholderValue::TaggedString(s) => Some(s.as_str()),
        PlaceholderValue::Localised(s, _) => Some(s.as_str()),
        _ => None,
    }
}

/// The exact decimal of a number value. `Err(true)`: not a number value; `Err(false)`: not a finite number.
pub fn as_decimal(value: &PlaceholderValue) -> Result<FixedDecimal, bool> {
    match value {
        PlaceholderValue::Integer(n) => Ok(oracle::from_text(&n.to_string())),
        PlaceholderValue::Unsigned(n) => Ok(oracle::from_text(&n.to_string())),
        PlaceholderValue::Float(n) => oracle::from_float(*n).ok_or(false),
        PlaceholderValue::FixedDecimal(n) => Ok(n.clone()),
        _ => Err(true),
    }
}

pub enum Moment {
    Date(Date<Iso>),
    Time(Time),
    Both(DateTime<Iso>),
}

/// Own reading of the documented ISO 8601 forms. `Err(true)`: a documented form with an impossible date or time;
/// `Err(false)`: not one of the documented forms.
pub fn iso(s: &str) -> Result<Moment, bool> {
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    let read_date = |t: &str| -> Result<Date<Iso>, bool> {
        let (sign, body) = match t.as_bytes().first() {
            Some(b'+') => (1, &t[1..]),
            Some(b'-') => (-1, &t[1..]),
            _ => (0, t),
        };
        let parts: Vec<&str> = body.split('-').collect();
        if !parts.iter().all(|p| digits(p)) {
            return Err(false);
        }
        let (year, month, day) = match (parts.len(), sign) {
            (1, 0) if parts[0].len() == 4 => (parts[0], "1", "1"),
            (1, 0) if parts[0].len() == 8 => (&parts[0][..4], &parts[0][4..6], &parts[0][6..]),
            (1, 1 | -1) if (4..=10).contains(&parts[0].len()) => (parts[0], "1", "1"),
            (2, _) if parts[1].len() == 2 => (parts[0], parts[1], "1"),
            (3, _) if parts[1].len() == 2 && parts[2].len() == 2 => (parts[0], parts[1], parts[2]),
            _ => return Err(false),
        };
        if (sign == 0 && year.len() != 4) || !(4..=10).contains(&year.len()) {
            return Err(false);
        }
        let mut y: i32 = year.parse().map_err(|_| false)?;
        if sign == -1 {
            y = -y;
        }
        let m: u32 = month.parse().map_err(|_| false)?;
        let d: u32 = day.parse().map_err(|_| false)?;
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let days = match m {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 => 28 + u32::from(leap),
            _ => return Err(true),
        };
        if d < 1 || d > days {
            return Err(true);
        }
        Date::try_new_iso_date(y, m as u8, d as u8).map_err(|_| false)
    };
    let read_time = |t: &str| -> Result<Time, bool> {
        // The zone is ignored.
        let zone = t.find(['Z', '+', '-']);
        let body = match zone {
            None => t,
            Some(at) => {
                let z = &t[at..];
                let rest = &z[1..];
                let good = if z.starts_with('Z') {
                    rest.is_empty()
                } else {
                    match rest.split_once(':') {
                        Some((h, m)) => digits(h) && digits(m) && h.len() == 2 && m.len() == 2,
                        None => digits(rest) && (rest.len() == 2 || rest.len() == 4),
                    }
                };
                if !good {
                    return Err(false);
                }
                &t[..at]
            }
        };
        let (clock, fraction) = match body.split_once('.') {
            None => (body, None),
            Some((c, f)) => (c, Some(f)),
        };
        let fields: Vec<&str> = if clock.contains(':') {
            clock.split(':').collect()
        } else {
            let mut v = Vec::new();
            if !digits(clock) || clock.len() % 2 != 0 {
                return Err(false);
            }
            let mut i = 0;
            while i < clock.len() {
                v.push(&clock[i..i + 2]);
                i += 2;
            }
            v
        };
        if fields.is_empty() || fields.len() > 3 || !fields.iter().all(|f| digits(f) && f.len() == 2) {
            return Err(false);
        }
        let mut nano = 0u32;
        if let Some(f) = fraction {
            if fields.len() != 3 || !digits(f) || f.len() > 9 {
                return Err(false);
            }
            nano = f.parse().map_err(|_| false)?;
        }
        let n = |i: usize| -> u8 { fields.get(i).map_or(0, |f| f.parse().unwrap()) };
        // Other times with hour 24 than the end of the day, minute 60 and second 61 are left open.
        if n(0) > 24 || n(1) > 60 || n(2) > 61 {
            return Err(true);
        }
        if (n(0) == 24 && (n(1), n(2), nano) != (0, 0, 0)) || n(1) == 60 || n(2) > 60 {
            return Err(false);
        }
        Time::try_new(n(0), n(1), n(2), nano).map_err(|_| false)
    };
    match s.split_once('T') {
        None => read_date(s).map(Moment::Date),
        Some(("", t)) => read_time(t).map(Moment::Time),
        Some((d, t)) => {
            let (d, t) = (read_date(d), read_time(t));
            match (d, t) {
                (Ok(d), Ok(t)) => Ok(Moment::Both(DateTime::new(d, t))),
                (Err(false), _) | (_, Err(false)) => Err(false),
                _ => Err(true),
            }
        }
    }
}

pub fn render_moment(lang: &str, moment: &Moment, d: Len, t: Len) -> Option<String> {
    match moment {
        Moment::Date(v) => oracle::date(lang, v, d),
        Moment::Time(v) => oracle::time(lang, v, t),
        Moment::Both(v) => oracle::date_time(lang, v, d, t),
    }
}

fn render(doc: &Doc, parts: &[Part], number: &str, env: &Env, out: &mut String) -> Result<(), Stop> {
    for part in parts {
        match part {
            Part::Text(s) | Part::Literal(s) => out.push_str(s),
            Part::Number => out.push_str(number),
            Part::Str(name) => {
                let value = env.values.get(name).ok_or(Stop::Error)?;
                out.push_str(as_text(value).ok_or(Stop::Error)?);
            }
            Part::Command {
                delayed,
                name,
                parameters,
            } => {
                let parameters = if *delayed {
                    delayed_parameters(name, parameters, env.values)
                } else {
                    plain_parameters(name, parameters)
                };
                match (env.commands)(&parameters) {
                    Some(Ok(text)) => out.push_str(&text),
                    _ => return Err(Stop::Error),
                }
            }
            Part::Keyword {
                name,
                keyword,
                selectors,
            } => {
                let value = env.values.get(name).ok_or(Stop::Error)?;
                let m = map(selectors);
                match keyword.as_str() {
                    "decimal" => {
                        let decimal = as_decimal(value).map_err(|_| Stop::Error)?;
                        let grouping = m.get("group").map_or(Grouping::Auto, |s| group_option(s).unwrap());
                        let decimal = match m.get("sign") {
                            // Whether 'automatic' keeps an explicit plus is left open.
                            None if decimal.sign() == fixed_decimal::Sign::Positive => return Err(Stop::Open),
                            None => decimal,
                            Some(s) => oracle::signed(&decimal, sign_option(s).unwrap()),
                        };
                        out.push_str(&oracle::number(env.lang, &decimal, grouping));
                    }
                    "date_time" => {
                        let d = m.get("date").map_or(Len::Medium, |s| len_option(s).unwrap());
                        let t = m.get("time").map_or(Len::Medium, |s| len_option(s).unwrap());
                        let moment = match value {
                            PlaceholderValue::Date(v) => Moment::Date(*v),
                            PlaceholderValue::Time(v) => Moment::Time(*v),
                            PlaceholderValue::DateTime(v) => Moment::Both(*v),
                            PlaceholderValue::String(s) => iso(s).map_err(|impossible| {
                                if impossible {
                                    Stop::Error
                                } else {
                                    Stop::Open
                                }
                            })?,
                            _ => return Err(Stop::Error),
                        };
                        out.push_str(&render_moment(env.lang, &moment, d, t).ok_or(Stop::Error)?);
                    }
                    "plural" | "ordinal" => {
                        let ordinal = keyword == "ordinal";
                        if ordinal && !matches!(value, PlaceholderValue::Unsigned(_)) {
                            return Err(Stop::Error);
                        }
                        let decimal = as_decimal(value).map_err(|_| Stop::Error)?;
                        if decimal.sign() == fixed_decimal::Sign::Positive {
                            return Err(Stop::Open);
                        }
                        let category = oracle::category(env.lang, &decimal, ordinal);
                        let branch = m.get(category).or_else(|| m.get("other")).ok_or(Stop::Error)?;
                        let text = oracle::number(env.lang, &decimal, Grouping::Auto);
                        let parts = branch_of(doc, branch)?;
                        render(doc, parts, &text, env, out)?;
                    }
                    _ => {
                        let key = as_text(value).ok_or(Stop::Error)?;
                        let branch = m.get(key).or_else(|| m.get("other")).ok_or(Stop::Error)?;
                        let parts = branch_of(doc, branch)?;
                        render(doc, parts, "", env, out)?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn branch_of<'a>(doc: &'a Doc, name: &str) -> Result<&'a [Part], Stop> {
    doc.named
        .iter()
        .find(|(n, _)| n == name)
        .map(|(_, p)| p.as_slice())
        .ok_or(Stop::Error)
}

pub fn evaluate(doc: &Doc, env: &Env) -> Verdict {
    let go = || -> Result<String, Stop> {
        let mut earlier: Vec<String> = Vec::new();
        // An undecided part decides nothing while another one is certainly wrong.
        let mut open = false;
        let mut note = |r: Result<(), Stop>| match r {
            Err(Stop::Open) => {
                open = true;
                Ok(())
            }
            other => other,
        };
        for (name, parts) in &doc.named {
            for part in parts {
                note(check_part(part, &earlier, env))?;
            }
            earlier.push(name.clone());
        }
        for part in &doc.main {
            note(check_part(part, &earlier, env))?;
        }
        if open {
            return Err(Stop::Open);
        }
        let mut out = String::new();
        render(doc, &doc.main, "", env, &mut out)?;
        Ok(out)
    };
    match go() {
        Ok(text) => Verdict::Text(text),
        Err(Stop::Error) => Verdict::Error,
        Err(Stop::Open) => Verdict::Open,
    }
}

/// The verdict for any string whatsoever.
pub fn judge(pattern: &str, env: &Env) -> Verdict {
    if !has_grammar(pattern) {
        return Verdict::Text(pattern.to_string());
    }
    match parse(pattern) {
        Err(()) => Verdict::Error,
        Ok(doc) => evaluate(&doc, env),
    }
}

// ---- printer ----

fn white(rng: &mut Rng) -> &'static str {
    if rng.chance(4, 5) {
        " "
    } else {
        rng.pick(&["  ", "\t", "\n", "\r\n", " \u{2028}", "\u{200E}", "\u{85} "])
    }
}

fn print_text(rng: &mut Rng, s: &str, out: &mut String) {
    let _ = rng;
    for c in s.chars() {
        if "{}`#".contains(c) {
            out.push('`');
        }
        out.push(c);
    }
}

fn print_literal(s: &str, out: &mut String) {
    out.push('`');
    out.push_str(&s.replace('`', "``"));
    out.push('`');
}

fn print_part(rng: &mut Rng, part: &Part, out: &mut String) {
    match part {
        Part::Text(s) => print_text(rng, s, out),
        Part::Literal(s) => {
            out.push('{');
            print_literal(s, out);
            out.push('}');
        }
        Part::Number => out.push('#'),
        Part::Str(name) => {
            out.push('{');
            out.push_str(name);
            if rng.chance(1, 6) {
                out.push_str(white(rng));
            }
            out.push('}');
        }
        Part::Keyword {
            name,
            keyword,
            selectors,
        } => {
            out.push('{');
            out.push_str(name);
            out.push_str(white(rng));
            out.push_str(keyword);
            for (k, v) in selectors {
                out.push_str(white(rng));
                out.push_str(k);
                out.push('#');
                out.push_str(v);
            }
            if rng.chance(1, 6) {
                out.push_str(white(rng));
            }
            out.push('}');
        }
        Part::Command {
            delayed,
            name,
            parameters,
        } => {
            out.push_str("{#");
            if rng.chance(1, 6) {
                out.push_str(white(rng));
            }
            out.push_str(name);
            if *delayed {
                if rng.chance(1, 6) {
                    out.push_str(white(rng));
                }
                out.push('#');
            }
            let mut after_ident = !*delayed;
            for (p, literal) in parameters {
                if *literal {
                    // White space may be left out between an identifier and a literal, never between two literals.
                    out.push_str(white(rng));
                    print_literal(p, out);
                    after_ident = false;
                } else {
                    if after_ident || rng.chance(5, 6) {
                        out.push_str(white(rng));
                    }
                    out.push_str(p);
                    after_ident = true;
                }
            }
            if rng.chance(1, 6) {
                out.push_str(white(rng));
            }
            out.push('}');
        }
    }
}

/// Writes the tree as a pattern string. The caller keeps to the rules of the tree: no two number signs follow each
/// other.
pub fn print(rng: &mut Rng, doc: &Doc) -> String {
    let mut out = String::new();
    for part in &doc.main {
        print_part(rng, part, &mut out);
    }
    if !doc.named.is_empty() {
        out.push('#');
        for (name, parts) in &doc.named {
            if rng.chance(1, 4) {
                out.push_str(white(rng));
            }
            out.push('{');
            out.push_str(name);
            out.push_str(white(rng));
            // White space at the start belongs to the text only when it is escaped.
            if matches!(parts.first(), Some(Part::Text(s)) if s.starts_with(is_pattern_white_space)) {
                out.push('`');
            }
            for part in parts {
                print_part(rng, part, &mut out);
            }
            out.push('}');
        }
        if rng.chance(1, 8) {
            out.push_str(white(rng));
        }
    }
    out
}
