//! C14: every error of the library, rendered by a localiser over the shipped repositories, compared with the shipped
//! template filled in by the reference formatter. The nested localisation data of C14 is in c12.rs.

use crate::c07::env;
use crate::c12;
use crate::gen;
use crate::mem::{icu_provider, Bench, Values};
use crate::pat::{self, Verdict};
use crate::util::*;
use i18n_lexer::{IcuError, LexerError};
use i18n_localiser::{CommandError, CommandRegistry, FormatterError, Localiser, LocaliserError, TreeError};
use i18n_provider::ProviderError;
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{
    LanguageTagRegistry, LocalisationErrorTrait, LocalisationTrait, PlaceholderValue, RegistryError,
};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

/// What an error is expected to say.
#[derive(Debug, Clone)]
pub enum Shape {
    /// A message of the error's own, within the frame that names type and variant.
    Message(&'static str, &'static str, Box<Shape>),
    /// Another error within the frame that names type and variant.
    Embedded(&'static str, &'static str, Box<Shape>),
    /// A stored message.
    Stored(&'static str, &'static str, Option<Vec<(&'static str, String)>>),
    /// A text that is not localised.
    Text(String),
}

use Shape::*;

fn message(ty: &'static str, variant: &'static str, component: &'static str, id: &'static str, values: &[(&'static str, String)]) -> Option<Shape> {
    Some(Message(ty, variant, Box::new(Stored(component, id, Some(values.to_vec())))))
}

fn plain(ty: &'static str, variant: &'static str, component: &'static str, id: &'static str) -> Option<Shape> {
    Some(Message(ty, variant, Box::new(Stored(component, id, None))))
}

fn embedded(ty: &'static str, variant: &'static str, inner: Option<Shape>) -> Option<Shape> {
    Some(Embedded(ty, variant, Box::new(inner?)))
}

fn text(ty: &'static str, variant: &'static str, text: String) -> Option<Shape> {
    Some(Embedded(ty, variant, Box::new(Text(text))))
}

const LOC: &str = "i18n_localiser";
const LEX: &str = "i18n_lexer";
const PRO: &str = "i18n_provider";
const SQL: &str = "i18n_provider_sqlite3";

fn lexer_error(e: &LexerError) -> Option<Shape> {
    match e {
        LexerError::NoGrammar => plain("LexerError", "NoGrammar", LEX, "no_grammar"),
        LexerError::EmptyString => plain("LexerError", "EmptyString", LEX, "empty_string"),
        _ => None,
    }
}

fn icu_error(e: &IcuError) -> Option<Shape> {
    match e {
        IcuError::Grapheme => plain("IcuError", "Grapheme", LEX, "grapheme"),
        IcuError::Syntax => plain("IcuError", "Syntax", LEX, "syntax"),
        IcuError::WhiteSpace => plain("IcuError", "WhiteSpace", LEX, "white_space"),
        _ => None,
    }
}

fn registry_error(e: &RegistryError) -> Option<Shape> {
    match e {
        RegistryError::LanguageIdentifier(e) => text("RegistryError", "LanguageIdentifier", e.to_string()),
        _ => None,
    }
}

fn tree_error(e: &TreeError) -> Option<Shape> {
    let t = "TreeError";
    match e {
        TreeError::Lexer(e) => embedded(t, "Lexer", lexer_error(e)),
        TreeError::EndedAbruptly => plain(t, "EndedAbruptly", LOC, "string_ended_abruptly"),
        TreeError::InvalidToken(state, position, token) => message(
            t,
            "InvalidToken",
            LOC,
            "invalid_token",
            &[("state", state.to_string()), ("position", position.to_string()), ("token", token.clone())],
        ),
        TreeError::UniquePattern(s) => message(t, "UniquePattern", LOC, "unique_pattern", &[("identifier", s.clone())]),
        TreeError::MultiNumberSign(n) => {
            message(t, "MultiNumberSign", LOC, "multi_number_sign", &[("position", n.to_string())])
        }
        TreeError::UniqueNamed(s) => message(t, "UniqueNamed", LOC, "unique_named", &[("identifier", s.clone())]),
        _ => None,
    }
}

fn command_error(e: &CommandError, custom: Option<&Shape>) -> Option<Shape> {
    let t = "CommandError";
    match e {
        CommandError::Custom(_) => embedded(t, "Custom", custom.cloned()),
        CommandError::AlreadyExists(s) => message(t, "AlreadyExists", LOC, "already_exists", &[("identifier", s.clone())]),
        CommandError::NotFound(s) => message(t, "NotFound", LOC, "command_not_found", &[("identifier", s.clone())]),
        CommandError::ParameterMissing(s, n) => message(
            t,
            "ParameterMissing",
            LOC,
            "parameter_missing",
            &[("identifier", s.clone()), ("parameter", n.to_string())],
        ),
        CommandError::InvalidType(s, n) => {
            message(t, "InvalidType", LOC, "invalid_type", &[("identifier", s.clone()), ("parameter", n.to_string())])
        }
        _ => None,
    }
}

fn provider_error(e: &ProviderError, custom: Option<&Shape>) -> Option<Shape> {
    let t = "ProviderError";
    let c = |s: &String| [("component", s.clone())];
    match e {
        ProviderError::ComponentNotFound(s) => message(t, "ComponentNotFound", PRO, "component_not_found", &c(s)),
        ProviderError::LanguageTagRegistry(e) => embedded(t, "LanguageTagRegistry", registry_error(e)),
        ProviderError::DefaultLanguage(s) => message(t, "DefaultLanguage", PRO, "default_language", &c(s)),
        ProviderError::InvalidDefaultLanguage(s) => {
            message(t, "InvalidDefaultLanguage", PRO, "invalid_default_language", &c(s))
        }
        ProviderError::DefaultLanguageCount(s, l) => message(
            t,
            "DefaultLanguageCount",
            PRO,
            "default_language_count",
            &[("component", s.clone()), ("language", l.clone())],
        ),
        ProviderError::Custom(_) => embedded(t, "Custom", custom.cloned()),
        _ => None,
    }
}

fn schema_error(e: &SchemaError) -> Option<Shape> {
    let t = "SchemaError";
    let bare = |id: &'static str, values: &[(&'static str, &String)]| {
        Some(Stored(SQL, id, Some(values.iter().map(|(k, v)| (*k, v.to_string())).collect())))
    };
    match e {
        SchemaError::Sqlite3(e) => text(t, "Sqlite3", e.to_string()),
        SchemaError::MissingTable(n) => bare("missing_table", &[("name", n)]),
        SchemaError::Version(p, v) => {
            message(t, "Version", SQL, "schema_version", &[("path", p.clone()), ("version", v.clone())])
        }
        SchemaError::MissingVersion(p) => message(t, "MissingVersion", SQL, "schema_version_missing", &[("path", p.clone())]),
        SchemaError::MissingColumn(a, b) => bare("missing_column", &[("table", a), ("column", b)]),
        SchemaError::ColumnProperty(a, b, c) => {
            bare("column_property", &[("table", a), ("column", b), ("property", c)])
        }
        SchemaError::ColumnDefault(a, b, c) => bare("column_default", &[("table", a), ("column", b), ("default", c)]),
        SchemaError::ColumnMismatch(a, b) => bare("column_mismatch", &[("table", a), ("column", b)]),
        #[allow(unreachable_patterns)]
        _ => None,
    }
}

fn sqlite_error(e: &ProviderSqlite3Error) -> Option<Shape> {
    let t = "ProviderSqlite3Error";
    let p = |p: &PathBuf| [("path", p.display().to_string())];
    match e {
        ProviderSqlite3Error::Io(e) => text(t, "Io", e.to_string()),
        ProviderSqlite3Error::Sqlite3(e) => text(t, "Sqlite3", e.to_string()),
        ProviderSqlite3Error::NotDirectory(d) => message(t, "NotDirectory", SQL, "path_not_directory", &p(d)),
        ProviderSqlite3Error::NoSqlite3Files(d) => message(t, "NoSqlite3Files", SQL, "no_sqlite3", &p(d)),
        ProviderSqlite3Error::PathConversion => message(t, "PathConversion", SQL, "path_conversion", &[]),
        ProviderSqlite3Error::NotExists(d) => message(t, "NotExists", SQL, "path_not_exist", &p(d)),
        ProviderSqlite3Error::SchemaInvalid(e) => Some(Message(t, "SchemaInvalid", Box::new(schema_error(e)?))),
        _ => None,
    }
}

fn formatter_error(e: &FormatterError, custom: Option<&Shape>) -> Option<Shape> {
    let t = "FormatterError";
    let m = |variant: &'static str, id: &'static str, values: &[(&'static str, String)]| message(t, variant, LOC, id, values);
    match e {
        FormatterError::Localiser(e) => text(t, "Localiser", e.to_string()),
        FormatterError::Tree(e) => text(t, "Tree", e.to_string()),
        FormatterError::Locale(e) => text(t, "Locale", e.to_string()),
        FormatterError::Calendar(e) => text(t, "Calendar", e.to_string()),
        FormatterError::ParseInt(e) => text(t, "ParseInt", e.to_string()),
        FormatterError::Decimal(e) => text(t, "Decimal", e.to_string()),
        FormatterError::DateTime(e) => text(t, "DateTime", e.to_string()),
        FormatterError::PluralRules(e) => text(t, "PluralRules", e.to_string()),
        FormatterError::FixedDecimal(e) => text(t, "FixedDecimal", e.to_string()),
        FormatterError::Command(e) => embedded(t, "Command", command_error(e, custom)),
        FormatterError::NoGrammar => plain(t, "NoGrammar", LOC, "no_grammar"),
        FormatterError::InvalidRoot => m("InvalidRoot", "invalid_root", &[]),
        FormatterError::RetrieveChildren(n) => m("RetrieveChildren", "retrieve_children", &[("node_type", n.to_string())]),
        FormatterError::NodeNotFound(n) => m("NodeNotFound", "node_not_found", &[("node_type", n.to_string())]),
        FormatterError::FirstChild(n) => m("FirstChild", "first_child", &[("node_type", n.to_string())]),
        FormatterError::RetrieveNodeData(n) => {
            m("RetrieveNodeData", "retrieve_node_data", &[("node_type", n.to_string())])
        }
        FormatterError::RetrieveNodeToken(n) => {
            m("RetrieveNodeToken", "retrieve_node_token", &[("node_type", n.to_string())])
        }
        FormatterError::LastChild(n) => m("LastChild", "last_child", &[("node_type", n.to_string())]),
        FormatterError::InvalidNode(n) => m("InvalidNode", "invalid_node", &[("node_type", n.to_string())]),
        FormatterError::NoChildren(n) => m("NoChildren", "no_children", &[("node_type", n.to_string())]),
        FormatterError::PatternNamed(s) => m("PatternNamed", "pattern_named", &[("identifier", s.clone())]),
        FormatterError::PatternPart(s, n) => {
            m("PatternPart", "pattern_part", &[("identifier", s.clone()), ("index", n.to_string())])
        }
        FormatterError::InvalidOptionValue(v, o, k) => m(
            "InvalidOptionValue",
            "invalid_option_value",
            &[("value", v.clone()), ("option", o.clone()), ("keyword", k.clone())],
        ),
        FormatterError::InvalidKeyword(k, i) => {
            m("InvalidKeyword", "invalid_keyword", &[("keyword", k.clone()), ("identifier", i.clone())])
        }
        FormatterError::SelectorNamed(n, s, i) => m(
            "SelectorNamed",
            "selector_named",
            &[("named", n.clone()), ("selector", s.clone()), ("identifier", i.clone())],
        ),
        FormatterError::SelectorOther(k, i) => {
            m("SelectorOther", "selector_other", &[("keyword", k.clone()), ("identifier", i.clone())])
        }
        FormatterError::InvalidOption(o, k, i) => m(
            "InvalidOption",
            "invalid_option",
            &[("option", o.clone()), ("keyword", k.clone()), ("identifier", i.clone())],
        ),
        FormatterError::InvalidSelector(s, k, i) => m(
            "InvalidSelector",
            "invalid_selector",
            &[("selector", s.clone()), ("keyword", k.clone()), ("identifier", i.clone())],
        ),
        FormatterError::NumberSignString(n) => m("NumberSignString", "number_sign_string", &[("index", n.to_string())]),
        FormatterError::SelectorsIndex(n) => m("SelectorsIndex", "selectors_index", &[("index", n.to_string())]),
        FormatterError::SelectorsIndexNamed(s, n) => {
            m("SelectorsIndexNamed", "selectors_index_named", &[("identifier", s.clone()), ("index", n.to_string())])
        }
        FormatterError::PlaceholderValue(p, h) => {
            m("PlaceholderValue", "placeholder_value", &[("part", p.clone()), ("placeholder", h.clone())])
        }
        FormatterError::InvalidValue(p) => m("InvalidValue", "invalid_value", &[("part", p.clone())]),
        FormatterError::NamedStringIdentifier(s) => {
            m("NamedStringIdentifier", "named_string_identifier", &[("identifier", s.clone())])
        }
        FormatterError::NoIcuProvider => m("NoIcuProvider", "no_icu_provider", &[]),
        FormatterError::NeverReached => plain(t, "NeverReached", LOC, "never_reach"),
        _ => None,
    }
}

fn localiser_error(e: &LocaliserError, custom: Option<&Shape>) -> Option<Shape> {
    let t = "LocaliserError";
    match e {
        LocaliserError::Registry(e) => embedded(t, "Registry", registry_error(e)),
        LocaliserError::Formatter(e) => embedded(t, "Formatter", formatter_error(e, custom)),
        LocaliserError::Provider(e) => embedded(t, "Provider", provider_error(e, custom)),
        LocaliserError::StringNotFound(c, i, l, f) => message(
            t,
            "StringNotFound",
            LOC,
            "string_not_found",
            &[("component", c.clone()), ("identifier", i.clone()), ("language_tag", l.clone()), ("fallback", f.to_string())],
        ),
        LocaliserError::CacheEntry(c, i) => {
            message(t, "CacheEntry", LOC, "cache_entry", &[("component", c.clone()), ("identifier", i.clone())])
        }
        LocaliserError::NeverReached => plain(t, "NeverReached", LOC, "never_reach"),
        _ => None,
    }
}

/// The shipped strings, read directly.
struct Shipped {
    directory: PathBuf,
    texts: HashMap<(String, String), BTreeMap<String, String>>,
    defaults: HashMap<String, String>,
}

const FILES: [&str; 4] = [
    "/repo/crates/localiser/l10n/i18n_localiser.sqlite3",
    "/repo/crates/lexer/l10n/i18n_lexer.sqlite3",
    "/repo/crates/provider/core/l10n/i18n_provider.sqlite3",
    "/repo/crates/provider/sqlite3/l10n/i18n_provider_sqlite3.sqlite3",
];

fn shipped(ctx: &Ctx) -> Shipped {
    let directory = ctx.scratch.join("l10n");
    std::fs::create_dir_all(&directory).expect("scratch");
    let mut texts: HashMap<(String, String), BTreeMap<String, String>> = HashMap::new();
    let mut defaults = HashMap::new();
    for file in FILES {
        let to = directory.join(Path::new(file).file_name().unwrap());
        std::fs::copy(file, &to).expect("shipped repository");
        let db = rusqlite::Connection::open_with_flags(&to, rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).expect("open");
        let mut q = db.prepare("SELECT component, identifier, languageTag, string FROM pattern").expect("pattern table");
        let rows = q
            .query_map([], |r| Ok((r.get::<_, String>(0)?, r.get::<_, String>(1)?, r.get::<_, String>(2)?, r.get::<_, String>(3)?)))
            .expect("rows");
        for row in rows {
            let (c, i, l, v) = row.expect("row");
            texts.entry((c, i)).or_default().insert(l, v);
        }
        let mut q = db.prepare("SELECT identifier, languageTag FROM component").expect("component table");
        let rows = q.query_map([], |r| Ok((r.get::<_, String>(0)?, r.get::<_, String>(1)?))).expect("rows");
        for row in rows {
            let (c, l) = row.expect("row");
            defaults.insert(c, l);
        }
    }
    Shipped { directory, texts, defaults }
}

impl Shipped {
    fn template(&self, component: &str, identifier: &str, language: &str) -> Option<(String, String)> {
        let texts = self.texts.get(&(component.to_string(), identifier.to_string()))?;
        let default = self.defaults.get(component)?;
        [language, default.as_str()]
            .iter()
            .find_map(|l| texts.get(*l).map(|t| (t.clone(), l.to_string())))
    }

    fn fill(&self, component: &str, identifier: &str, language: &str, values: Option<Vec<(&str, String)>>) -> Result<(String, String), String> {
        let (template, tag) = self
            .template(component, identifier, language)
            .ok_or_else(|| format!("no string {component}/{identifier} for {language} or the default language is shipped"))?;
        let Some(values) = values else {
            return Ok((template, tag));
        };
        let values: Values =
            values.into_iter().map(|(k, v)| (k.to_string(), PlaceholderValue::String(v))).collect();
        match pat::judge(&template, &env(&tag, &values)) {
            Verdict::Text(text) => Ok((text, tag)),
            other => Err(format!("the shipped string {component}/{identifier} ({tag}) {template:?}: {other:?}")),
        }
    }

    fn render(&self, shape: &Shape, language: &str) -> Result<(String, String), String> {
        match shape {
            Message(t, v, inner) => {
                let inner = self.render(inner, language)?.0;
                self.fill(LOC, "error_format_enum", language, Some(vec![("type", t.to_string()), ("variant", v.to_string()), ("message", inner)]))
            }
            Embedded(t, v, inner) => {
                let inner = self.render(inner, language)?.0;
                self.fill(LOC, "error_format_enum_embedded", language, Some(vec![("type", t.to_string()), ("variant", v.to_string()), ("error", inner)]))
            }
            Stored(c, i, values) => self.fill(c, i, language, values.clone()),
            Text(t) => Ok((t.clone(), String::new())),
        }
    }
}

/// Details an error carries itself (not those of errors inside it).
fn details(shape: &Shape) -> Vec<String> {
    match shape {
        Message(_, _, inner) => details(inner),
        Stored(_, _, Some(values)) => values.iter().filter(|(k, _)| *k != "fallback").map(|(_, v)| v.clone()).collect(),
        _ => Vec::new(),
    }
}

fn name(shape: &Shape) -> String {
    match shape {
        Message(t, v, _) | Embedded(t, v, _) => format!("{t}::{v}"),
        Stored(c, i, _) => format!("{c}/{i}"),
        Text(_) => "text".to_string(),
    }
}

/// A value of a field-less enumeration that cannot be named here. The first three values exist in both of them.
fn unnamed<T>(n: u8) -> T {
    assert!(std::mem::size_of::<T>() == 1 && n < 3);
    unsafe { std::mem::transmute_copy(&n) }
}

fn word(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => gen::identifier(rng),
        1 => gen::any_text_value(rng),
        2 => crate::text::any_string(rng, 6, "{}#`"),
        _ => gen::text(rng),
    }
}

fn count(rng: &mut Rng) -> usize {
    match rng.below(4) {
        0 => rng.below(10),
        1 => rng.below(100_000),
        2 => usize::MAX - rng.below(3),
        _ => rng.next() as usize,
    }
}

fn parser_error(rng: &mut Rng) -> icu_locid::ParserError {
    let bad = *rng.pick(&["", "-", "x", "en-!", "123456789", "en-a-bc-a-cd", "e"]);
    bad.parse::<icu_locid::LanguageIdentifier>().err().unwrap_or(icu_locid::ParserError::InvalidSubtag)
}

fn gen_registry(rng: &mut Rng) -> RegistryError {
    RegistryError::from(parser_error(rng))
}

fn gen_lexer(rng: &mut Rng) -> LexerError {
    if rng.chance(1, 2) {
        LexerError::NoGrammar
    } else {
        LexerError::EmptyString
    }
}

fn gen_tree(rng: &mut Rng) -> TreeError {
    match rng.below(6) {
        0 => TreeError::Lexer(gen_lexer(rng)),
        1 => TreeError::EndedAbruptly,
        2 => TreeError::InvalidToken(unnamed(rng.below(3) as u8), count(rng), word(rng)),
        3 => TreeError::UniquePattern(word(rng)),
        4 => TreeError::MultiNumberSign(count(rng)),
        _ => TreeError::UniqueNamed(word(rng)),
    }
}

type Made<E> = (E, Option<Shape>);

fn gen_command(rng: &mut Rng, depth: usize) -> Made<CommandError> {
    match rng.below(if depth > 0 { 6 } else { 4 }) {
        0 => (CommandError::AlreadyExists(word(rng)), None),
        1 => (CommandError::NotFound(word(rng)), None),
        2 => (CommandError::ParameterMissing(word(rng), count(rng)), None),
        3 => (CommandError::InvalidType(word(rng), count(rng)), None),
        4 => {
            let (e, custom) = gen_localiser(rng, depth - 1);
            let shape = localiser_error(&e, custom.as_ref());
            (CommandError::Custom(RefCount::new(Box::new(e))), shape)
        }
        _ => {
            let e = gen_tree(rng);
            let shape = tree_error(&e);
            (CommandError::Custom(RefCount::new(Box::new(e))), shape)
        }
    }
}

fn sql_failure(rng: &mut Rng) -> rusqlite::Error {
    match rng.below(4) {
        0 => rusqlite::Error::QueryReturnedNoRows,
        1 => rusqlite::Error::InvalidQuery,
        2 => rusqlite::Error::InvalidColumnName(word(rng)),
        _ => rusqlite::Error::InvalidColumnIndex(rng.below(100)),
    }
}

fn gen_schema(rng: &mut Rng) -> SchemaError {
    match rng.below(8) {
        0 => SchemaError::Sqlite3(RefCount::new(sql_failure(rng))),
        1 => SchemaError::MissingTable(word(rng)),
        2 => SchemaError::Version(word(rng), word(rng)),
        3 => SchemaError::MissingVersion(word(rng)),
        4 => SchemaError::MissingColumn(word(rng), word(rng)),
        5 => SchemaError::ColumnProperty(word(rng), word(rng), word(rng)),
        6 => SchemaError::ColumnDefault(word(rng), word(rng), word(rng)),
        _ => SchemaError::ColumnMismatch(word(rng), word(rng)),
    }
}

fn gen_sqlite(rng: &mut Rng) -> ProviderSqlite3Error {
    match rng.below(8) {
        0 => ProviderSqlite3Error::Io(RefCount::new(std::io::Error::new(std::io::ErrorKind::Other, word(rng)))),
        1 => ProviderSqlite3Error::Sqlite3(RefCount::new(sql_failure(rng))),
        2 => ProviderSqlite3Error::NotDirectory(PathBuf::from(word(rng))),
        3 => ProviderSqlite3Error::NoSqlite3Files(PathBuf::from(word(rng))),
        4 => ProviderSqlite3Error::PathConversion,
        5 => ProviderSqlite3Error::NotExists(PathBuf::from(word(rng))),
        _ => ProviderSqlite3Error::SchemaInvalid(gen_schema(rng)),
    }
}

fn gen_provider(rng: &mut Rng) -> Made<ProviderError> {
    match rng.below(7) {
        0 => (ProviderError::ComponentNotFound(word(rng)), None),
        1 => (ProviderError::LanguageTagRegistry(gen_registry(rng)), None),
        2 => (ProviderError::DefaultLanguage(word(rng)), None),
        3 => (ProviderError::InvalidDefaultLanguage(word(rng)), None),
        4 => (ProviderError::DefaultLanguageCount(word(rng), word(rng)), None),
        _ => {
            let e = gen_sqlite(rng);
            let shape = sqlite_error(&e);
            (ProviderError::Custom(RefCount::new(Box::new(e))), shape)
        }
    }
}

fn gen_formatter(rng: &mut Rng, depth: usize) -> Made<FormatterError> {
    let n = rng.below(36);
    let e = match n {
        0 => FormatterError::Localiser(Box::new(if depth > 0 { gen_localiser(rng, depth - 1).0 } else { LocaliserError::NeverReached })),
        1 => FormatterError::Tree(gen_tree(rng)),
        2 => FormatterError::Locale(parser_error(rng)),
        3 => FormatterError::Calendar(icu_calendar::Date::try_new_iso_date(2020, 13, 1).err().unwrap()),
        4 => FormatterError::ParseInt(rng.pick(&["", "x", "99999999999999999999"]).parse::<u8>().err().unwrap()),
        5 => FormatterError::Decimal(icu_decimal::DecimalError::Data(icu_provider::DataErrorKind::MissingLocale.into_error())),
        6 => FormatterError::DateTime(icu_datetime::DateTimeError::UnsupportedOptions),
        7 => FormatterError::PluralRules(icu_plurals::PluralsError::Data(icu_provider::DataErrorKind::MissingLocale.into_error())),
        8 => FormatterError::FixedDecimal("x".parse::<fixed_decimal::FixedDecimal>().err().unwrap()),
        9 | 10 => {
            let (e, custom) = gen_command(rng, depth);
            return (FormatterError::Command(e), custom);
        }
        11 => FormatterError::NoGrammar,
        12 => FormatterError::InvalidRoot,
        13 => FormatterError::RetrieveChildren(unnamed(rng.below(3) as u8)),
        14 => FormatterError::NodeNotFound(unnamed(rng.below(3) as u8)),
        15 => FormatterError::FirstChild(unnamed(rng.below(3) as u8)),
        16 => FormatterError::RetrieveNodeData(unnamed(rng.below(3) as u8)),
        17 => FormatterError::RetrieveNodeToken(unnamed(rng.below(3) as u8)),
        18 => FormatterError::LastChild(unnamed(rng.below(3) as u8)),
        19 => FormatterError::InvalidNode(unnamed(rng.below(3) as u8)),
        20 => FormatterError::NoChildren(unnamed(rng.below(3) as u8)),
        21 => FormatterError::PatternNamed(word(rng)),
        22 => FormatterError::PatternPart(word(rng), count(rng)),
        23 => FormatterError::InvalidOptionValue(word(rng), word(rng), word(rng)),
        24 => FormatterError::InvalidKeyword(word(rng), word(rng)),
        25 => FormatterError::SelectorNamed(word(rng), word(rng), word(rng)),
        26 => FormatterError::SelectorOther(word(rng), word(rng)),
        27 => FormatterError::InvalidOption(word(rng), word(rng), word(rng)),
        28 => FormatterError::InvalidSelector(word(rng), word(rng), word(rng)),
        29 => FormatterError::NumberSignString(count(rng)),
        30 => FormatterError::SelectorsIndex(count(rng)),
        31 => FormatterError::SelectorsIndexNamed(word(rng), count(rng)),
        32 => FormatterError::PlaceholderValue(word(rng), word(rng)),
        33 => FormatterError::InvalidValue(word(rng)),
        34 => FormatterError::NamedStringIdentifier(word(rng)),
        _ => {
            if rng.chance(1, 2) {
                FormatterError::NoIcuProvider
            } else {
                FormatterError::NeverReached
            }
        }
    };
    (e, None)
}

fn gen_localiser(rng: &mut Rng, depth: usize) -> Made<LocaliserError> {
    match rng.below(8) {
        0 => (LocaliserError::Registry(gen_registry(rng)), None),
        1 | 2 if depth > 0 => {
            let (e, custom) = gen_formatter(rng, depth - 1);
            (LocaliserError::Formatter(e), custom)
        }
        3 if depth > 0 => {
            let (e, custom) = gen_provider(rng);
            (LocaliserError::Provider(e), custom)
        }
        4 => (LocaliserError::CacheEntry(word(rng), word(rng)), None),
        5 => (LocaliserError::NeverReached, None),
        _ => (LocaliserError::StringNotFound(word(rng), word(rng), word(rng), rng.chance(1, 2)), None),
    }
}

struct Renderer {
    localiser: Localiser,
    registry: RefCount<LanguageTagRegistry>,
}

fn renderer(s: &Shipped, fallback: bool, caching: bool, language: &str) -> Renderer {
    let icu = icu_provider();
    let registry = RefCount::new(LanguageTagRegistry::new());
    let provider = LocalisationProviderSqlite3::try_new(&s.directory, &registry, false).expect("the shipped repository opens");
    let commands = RefCount::new(CommandRegistry::new());
    let localiser = Localiser::try_new(&icu, &registry, Box::new(provider), &commands, fallback, caching, language).expect("localiser");
    Renderer { localiser, registry }
}

const LANGUAGES: [&str; 5] = ["en-ZA", "it", "fr", "it-CH", "zu"];

/// Renders through every interface that applies, and compares.
fn judge(ctx: &mut Ctx, rng: &mut Rng, s: &Shipped, r: &Renderer, error: &dyn LocalisationTrait, display: String, shape: Option<Shape>) {
    let Some(shape) = shape else {
        ctx.hit("unknown_variant");
        return;
    };
    let data = error.localisation_data();
    let language = *rng.pick(&LANGUAGES);
    // 'it-CH' finds the Italian strings by removing a subtag.
    let stored = if language == "it-CH" { "it" } else { language };
    ctx.eval();
    let expected = s.render(&shape, stored);
    let tag = r.registry.tag(language).expect("tag");
    let got = r.localiser.format_localisation_data(&data, &tag, Some(true), Some(rng.chance(1, 2)));
    ctx.record(|| format!("{display} / {}", c12::show(&got)));
    let ok = matches!((&got, &expected), (Ok((t, l)), Ok((e, f))) if **t == *e && l.as_str() == f);
    ctx.check(ok, || format!("{shape:?} rendered for {language}: expected {expected:?}, got {}", c12::show(&got)));
    if let Ok((rendered, _)) = &expected {
        ctx.distinct(rendered.as_str());
        ctx.sample(|| rendered.clone());
        for d in details(&shape) {
            ctx.hit("details_checked");
            ctx.check(rendered.contains(&d), || format!("{shape:?}: the text {rendered:?} does not contain {d:?}"));
        }
    }
    for d in details(&shape) {
        ctx.check(display.contains(&d), || format!("{shape:?}: the plain text {display:?} does not contain {d:?}"));
    }
    ctx.hit(&format!("variant_{}", name(&shape)));
}

/// The same value through format_error, where the error type allows it.
fn judge_error<E: LocalisationErrorTrait>(ctx: &mut Ctx, rng: &mut Rng, s: &Shipped, error: &E, shape: Option<Shape>) {
    let Some(shape) = shape else { return };
    let language = *rng.pick(&LANGUAGES);
    let stored = if language == "it-CH" { "it" } else { language };
    let caching = rng.chance(1, 2);
    let r = renderer(s, true, caching, language);
    let tag = r.registry.tag(language).expect("tag");
    let expected = s.render(&shape, stored);
    for round in 0..4 {
        ctx.eval();
        let got = match round {
            0 => r.localiser.format_error_with_defaults(error),
            1 => r.localiser.format_error(error, &tag, None, None),
            // Nothing is stored for these languages, so that without fallback there is no text.
            3 if ["fr", "zu"].contains(&language) => {
                let got = r.localiser.format_error(error, &tag, Some(false), None);
                ctx.check(matches!(&got, Err(LocaliserError::StringNotFound(..))), || {
                    format!("format_error of {shape:?} for {language} without fallback gives {}", c12::show(&got))
                });
                continue;
            }
            _ => r.localiser.format_error(error, &tag, Some(true), Some(!caching)),
        };
        ctx.record(|| c12::show(&got));
        let ok = matches!((&got, &expected), (Ok((t, l)), Ok((e, f))) if **t == *e && l.as_str() == f);
        ctx.check(ok, || {
            format!("format_error of {shape:?} for {language}, form {round}: expected {expected:?}, got {}", c12::show(&got))
        });
    }
    ctx.hit("format_error");
}

fn one(ctx: &mut Ctx, rng: &mut Rng, s: &Shipped, r: &Renderer) {
    match rng.below(9) {
        0 => {
            let e = gen_tree(rng);
            judge(ctx, rng, s, r, &e, e.to_string(), tree_error(&e));
            judge_error(ctx, rng, s, &e, tree_error(&e));
        }
        1 => {
            let (e, c) = gen_command(rng, 3);
            let shape = command_error(&e, c.as_ref());
            judge(ctx, rng, s, r, &e, e.to_string(), shape.clone());
            judge_error(ctx, rng, s, &e, shape);
        }
        2 => {
            let (e, c) = gen_provider(rng);
            let shape = provider_error(&e, c.as_ref());
            judge(ctx, rng, s, r, &e, e.to_string(), shape.clone());
            judge_error(ctx, rng, s, &e, shape);
        }
        3 => {
            let e = gen_sqlite(rng);
            judge(ctx, rng, s, r, &e, e.to_string(), sqlite_error(&e));
        }
        4 => {
            let e = gen_schema(rng);
            judge(ctx, rng, s, r, &e, e.to_string(), schema_error(&e));
        }
        5 => match rng.below(3) {
            0 => {
                let e = gen_lexer(rng);
                judge(ctx, rng, s, r, &e, e.to_string(), lexer_error(&e));
                judge_error(ctx, rng, s, &e, lexer_error(&e));
            }
            1 => {
                let e = gen_registry(rng);
                judge(ctx, rng, s, r, &e, e.to_string(), registry_error(&e));
                judge_error(ctx, rng, s, &e, registry_error(&e));
            }
            _ => {
                let e = [IcuError::Grapheme, IcuError::Syntax, IcuError::WhiteSpace][rng.below(3)].clone();
                judge(ctx, rng, s, r, &e, e.to_string(), icu_error(&e));
                judge_error(ctx, rng, s, &e, icu_error(&e));
            }
        },
        6 | 7 => {
            let (e, c) = gen_formatter(rng, 3);
            let shape = formatter_error(&e, c.as_ref());
            judge(ctx, rng, s, r, &e, e.to_string(), shape.clone());
            judge_error(ctx, rng, s, &e, shape);
        }
        _ => {
            let (e, c) = gen_localiser(rng, 3);
            let shape = localiser_error(&e, c.as_ref());
            judge(ctx, rng, s, r, &e, e.to_string(), shape.clone());
            judge_error(ctx, rng, s, &e, shape);
        }
    }
}

/// Errors of real failing requests.
fn real(ctx: &mut Ctx, rng: &mut Rng, s: &Shipped, r: &Renderer, b: &Bench) {
    const FAILING: [&str; 16] = [
        "{", "}", "a {x", "{x plural}", "{x select a#b}", "{x plural one#o}#{o #}", "{x} {x}", "{x bad}", "{x decimal sign#odd}",
        "{x decimal odd#auto}", "{x plural other#o}#{o ##}", "{x plural other#o}#{o a}{o b}", "{x plural odd#o other#o}#{o a}",
        "{#none}", "{x date_time}", "`",
    ];
    let pattern = rng.pick(&FAILING).to_string();
    let mut values = Values::new();
    if rng.chance(1, 2) {
        values.insert("x".to_string(), gen::any_value(rng, &b.registry));
    }
    let Err(error) = b.pattern(&pattern, "en", &values) else { return };
    ctx.hit("real_failures");
    let shape = localiser_error(&error, None);
    judge(ctx, rng, s, r, &error, error.to_string(), shape.clone());
    judge_error(ctx, rng, s, &error, shape);
}

pub fn run(ctx: &mut Ctx) {
    ctx.phase("nested", 8_000, 150_000, |ctx, rng, _| c12::nested(ctx, rng));
    ctx.phase("deep", 200, 4_000, |ctx, rng, _| c12::deep(ctx, rng));
    let s = shipped(ctx);
    let mut r: Option<Renderer> = None;
    let b = crate::c07::bench("en");
    ctx.phase("errors", 20_000, 200_000, |ctx, rng, _| {
        let r = r.get_or_insert_with(|| renderer(&s, true, false, "en-ZA"));
        one(ctx, rng, &s, r);
    });
    ctx.phase("failures", 2_000, 20_000, |ctx, rng, _| {
        let r = r.get_or_insert_with(|| renderer(&s, true, false, "en-ZA"));
        real(ctx, rng, &s, r, &b);
    });
}
