//! What ICU4X itself, asked directly, writes for numbers, dates and plural categories.

use fixed_decimal::{DoublePrecision, FixedDecimal, Sign};
use icu_calendar::{types::Time, Date, DateTime, Iso};
use icu_datetime::options::length;
use icu_datetime::{DateFormatter, DateTimeFormatter, TimeFormatter};
use icu_decimal::options::{FixedDecimalFormatterOptions, GroupingStrategy};
use icu_decimal::FixedDecimalFormatter;
use icu_locid::LanguageIdentifier;
use icu_plurals::{PluralCategory, PluralRules};
use icu_provider::DataLocale;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::str::FromStr;

fn locale(lang: &str) -> DataLocale {
    DataLocale::from(&lang.parse::<LanguageIdentifier>().expect("well-formed tag"))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Grouping {
    Auto,
    Never,
    Always,
    Min2,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SignOption {
    Auto,
    Never,
    Always,
    ExceptZero,
    Negative,
}

thread_local! {
    static NUMBERS: RefCell<HashMap<(String, Grouping), Rc<FixedDecimalFormatter>>> = RefCell::new(HashMap::new());
    static PLURALS: RefCell<HashMap<(String, bool), Rc<PluralRules>>> = RefCell::new(HashMap::new());
}

pub fn number(lang: &str, value: &FixedDecimal, grouping: Grouping) -> String {
    let formatter = NUMBERS.with(|map| {
        Rc::clone(map.borrow_mut().entry((lang.to_string(), grouping)).or_insert_with(|| {
            let mut options = FixedDecimalFormatterOptions::default();
            options.grouping_strategy = match grouping {
                Grouping::Auto => GroupingStrategy::Auto,
                Grouping::Never => GroupingStrategy::Never,
                Grouping::Always => GroupingStrategy::Always,
                Grouping::Min2 => GroupingStrategy::Min2,
            };
            Rc::new(FixedDecimalFormatter::try_new(&locale(lang), options).expect("decimal data"))
        }))
    });
    formatter.format(value).to_string()
}

pub fn signed(value: &FixedDecimal, option: SignOption) -> FixedDecimal {
    let mut out = value.clone();
    let negative = value.sign() == Sign::Negative;
    let zero = value.clone().with_sign(Sign::None).to_string().chars().all(|c| c == '0' || c == '.');
    let sign = match option {
        SignOption::Auto => {
            if negative {
                Sign::Negative
            } else {
                Sign::None
            }
        }
        SignOption::Never => Sign::None,
        SignOption::Always => {
            if negative {
                Sign::Negative
            } else {
                Sign::Positive
            }
        }
        SignOption::ExceptZero => {
            if zero {
                Sign::None
            } else if negative {
                Sign::Negative
            } else {
                Sign::Positive
            }
        }
        SignOption::Negative => {
            if negative && !zero {
                Sign::Negative
            } else {
                Sign::None
            }
        }
    };
    out.set_sign(sign);
    out
}

/// Own rendering for English, independent of ICU.
pub fn number_english(value: &FixedDecimal, grouping: Grouping) -> String {
    let plain = value.clone().with_sign(Sign::None).to_string();
    let (whole, fraction) = match plain.split_once('.') {
        Some((w, f)) => (w, Some(f)),
        None => (plain.as_str(), None),
    };
    let minimum = match grouping {
        Grouping::Never => usize::MAX,
        Grouping::Min2 => 5,
        _ => 4,
    };
    let mut out = match value.sign() {
        Sign::Negative => "-".to_string(),
        Sign::Positive => "+".to_string(),
        Sign::None => String::new(),
    };
    for (i, c) in whole.chars().enumerate() {
        let left = whole.len() - i;
        if i > 0 && left % 3 == 0 && whole.len() >= minimum {
            out.push(',');
        }
        out.push(c);
    }
    if let Some(fraction) = fraction {
        out.push('.');
        out.push_str(fraction);
    }
    out
}

pub fn category(lang: &str, value: &FixedDecimal, ordinal: bool) -> &'static str {
    let rules = PLURALS.with(|map| {
        Rc::clone(map.borrow_mut().entry((lang.to_string(), ordinal)).or_insert_with(|| {
            Rc::new(
                if ordinal {
                    PluralRules::try_new_ordinal(&locale(lang))
                } else {
                    PluralRules::try_new_cardinal(&locale(lang))
                }
                .expect("plural data"),
            )
        }))
    });
    match rules.category_for(value) {
        PluralCategory::Zero => "zero",
        PluralCategory::One => "one",
        PluralCategory::Two => "two",
        PluralCategory::Few => "few",
        PluralCategory::Many => "many",
        PluralCategory::Other => "other",
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Len {
    Full,
    Long,
    Medium,
    Short,
}

fn date_len(l: Len) -> length::Date {
    match l {
        Len::Full => length::Date::Full,
        Len::Long => length::Date::Long,
        Len::Medium => length::Date::Medium,
        Len::Short => length::Date::Short,
    }
}

fn time_len(l: Len) -> length::Time {
    match l {
        Len::Full => length::Time::Full,
        Len::Long => length::Time::Long,
        Len::Medium => length::Time::Medium,
        Len::Short => length::Time::Short,
    }
}

pub fn date(lang: &str, value: &Date<Iso>, l: Len) -> Option<String> {
    DateFormatter::try_new_with_length(&locale(lang), date_len(l))
        .ok()?
        .format_to_string(&value.to_any())
        .ok()
}

pub fn time(lang: &str, value: &Time, l: Len) -> Option<String> {
    Some(
        TimeFormatter::try_new_with_length(&locale(lang), time_len(l))
            .ok()?
            .format_to_string(value),
    )
}

pub fn date_time(lang: &str, value: &DateTime<Iso>, d: Len, t: Len) -> Option<String> {
    DateTimeFormatter::try_new(
        &locale(lang),
        length::Bag::from_date_time_style(date_len(d), time_len(t)).into(),
    )
    .ok()?
    .format_to_string(&value.to_any())
    .ok()
}

/// Own conversion of values to exact decimals, by their decimal text.
pub fn from_text(text: &str) -> FixedDecimal {
    FixedDecimal::from_str(text).expect("decimal text")
}

/// `None`: not a number, or infinite.
pub fn from_float(value: f64) -> Option<FixedDecimal> {
    if !value.is_finite() {
        return None;
    }
    // The shortest decimal that denotes exactly this number. Where two are equally short either is right.
    let plain = format!("{value}");
    let other = FixedDecimal::try_from_f64(value, DoublePrecision::Floating).ok()?;
    let text = other.to_string();
    if text.len() == plain.len() && text.parse() == Ok(value) {
        return Some(other);
    }
    Some(from_text(&plain))
}
