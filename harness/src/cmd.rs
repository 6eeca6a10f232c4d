//! Commands the generated patterns call. They record what they were called with.

use crate::util::*;
use i18n_localiser::{CommandError, CommandRegistry};
use i18n_utility::PlaceholderValue;
use std::cell::RefCell;

thread_local! {
    pub static CALLS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Complete description of one parameter: kind and content.
pub fn describe(value: &PlaceholderValue) -> String {
    match value {
        PlaceholderValue::String(s) => format!("s:{s}"),
        PlaceholderValue::Integer(n) => format!("i:{n}"),
        PlaceholderValue::Unsigned(n) => format!("u:{n}"),
        PlaceholderValue::Float(n) => format!("f:{:x}", n.to_bits()),
        PlaceholderValue::TaggedString(s) => format!("t:{}:{}", s.tag().as_str(), s.as_str()),
        PlaceholderValue::Localised(s, tag) => format!("l:{}:{s}", tag.as_str()),
        PlaceholderValue::LocalisationData(d) => format!("d:{}/{}", d.component, d.identifier),
        PlaceholderValue::FixedDecimal(n) => format!("n:{n}"),
        PlaceholderValue::DateTime(v) => format!("dt:{v:?}"),
        PlaceholderValue::Date(v) => format!("da:{v:?}"),
        PlaceholderValue::Time(v) => format!("ti:{v:?}"),
    }
}

pub fn answer(parameters: &[PlaceholderValue]) -> String {
    let list: Vec<String> = parameters.iter().map(describe).collect();
    format!("⟨{}⟩", list.join("⟂"))
}

fn run(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let text = answer(&parameters);
    CALLS.with(|c| c.borrow_mut().push(text.clone()));
    Ok(text)
}

fn fail(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    CALLS.with(|c| c.borrow_mut().push(answer(&parameters)));
    Err(CommandError::InvalidType("fail".to_string(), 1))
}

pub fn take_calls() -> Vec<String> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

pub fn register(commands: &RefCount<CommandRegistry>) {
    for name in crate::gen::COMMANDS {
        commands.insert(name, run).expect("register");
    }
    commands.insert("fail", fail).expect("register");
    commands.insert("file_path", i18n_localiser::file_path).expect("register");
    commands.insert("english_a_or_an", i18n_localiser::english_a_or_an).expect("register");
}

/// Reference answer. `None`: unknown command.
pub fn reference(parameters: &[PlaceholderValue]) -> Option<Result<String, ()>> {
    let PlaceholderValue::String(name) = &parameters[0] else { return None };
    if crate::gen::COMMANDS.contains(&name.as_str()) {
        return Some(Ok(answer(parameters)));
    }
    match name.as_str() {
        "fail" => Some(Err(())),
        "file_path" => Some(match parameters.get(1) {
            Some(PlaceholderValue::String(s)) => Ok(s.clone()),
            _ => Err(()),
        }),
        "english_a_or_an" => Some(match parameters.get(1) {
            Some(PlaceholderValue::String(s)) => Ok(if s.starts_with(['a', 'e', 'i', 'o', 'u']) { "an" } else { "a" }.to_string()),
            _ => Err(()),
        }),
        _ => None,
    }
}
