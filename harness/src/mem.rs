//! A localisation provider held in memory, and a localiser over it.

use crate::util::*;
use i18n_lexer::{DataProvider, IcuDataProvider};
use i18n_localiser::{CommandRegistry, Localiser, LocaliserError};
use i18n_provider::{
    ComponentDetails, IdentifierDetails, LanguageData, LocalisationProviderTrait, ProviderError, RepositoryDetails,
};
use i18n_utility::{LanguageTag, LanguageTagRegistry, LocalisationData, PlaceholderValue};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Store {
    pub registry: RefCount<LanguageTagRegistry>,
    /// (component, identifier) -> tag -> text
    pub strings: RefCell<HashMap<(String, String), BTreeMap<String, String>>>,
    /// component -> default language
    pub defaults: RefCell<BTreeMap<String, String>>,
    pub lookups: Cell<u64>,
    /// The provider fails at the call after this many; then the number of that failure.
    pub fail_in: Cell<Option<u64>>,
    pub failures: Cell<u64>,
}

impl Store {
    /// One call of the provider.
    fn call(&self) -> Result<(), ProviderError> {
        match self.fail_in.get() {
            None => Ok(()),
            Some(0) => {
                self.fail_in.set(None);
                let n = self.failures.get() + 1;
                self.failures.set(n);
                let marker = Store::marker(n);
                Err(match n % 3 {
                    0 => ProviderError::DefaultLanguage(marker),
                    1 => ProviderError::InvalidDefaultLanguage(marker),
                    _ => ProviderError::DefaultLanguageCount(marker, "xx".to_string()),
                })
            }
            Some(left) => {
                self.fail_in.set(Some(left - 1));
                Ok(())
            }
        }
    }

    pub fn marker(n: u64) -> String {
        format!("injected{n}")
    }

    pub fn set(&self, component: &str, identifier: &str, tag: &str, text: &str) {
        self.strings
            .borrow_mut()
            .entry((component.to_string(), identifier.to_string()))
            .or_default()
            .insert(tag.to_string(), text.to_string());
    }

    /// The documented search: exact tag, then more specific tags, then one subtag less.
    pub fn find(&self, component: &str, identifier: &str, tag: &str) -> Option<(String, String)> {
        let strings = self.strings.borrow();
        let texts = strings.get(&(component.to_string(), identifier.to_string()))?;
        let mut level = tag.to_string();
        loop {
            if let Some(text) = texts.get(&level) {
                return Some((text.clone(), level));
            }
            let prefix = format!("{level}-");
            if let Some((tag, text)) = texts.iter().find(|(t, _)| t.starts_with(&prefix)) {
                return Some((text.clone(), tag.clone()));
            }
            match level.rsplit_once('-') {
                None => return None,
                Some((shorter, _)) => level = shorter.to_string(),
            }
        }
    }
}

pub struct MemProvider(pub Rc<Store>);

impl LocalisationProviderTrait for MemProvider {
    fn string(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &RefCount<LanguageTag>,
    ) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        self.0.call()?;
        self.0.lookups.set(self.0.lookups.get() + 1);
        if !self.0.defaults.borrow().contains_key(component) {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        Ok(match self.0.find(component, identifier, language_tag.as_str()) {
            None => None,
            Some((text, tag)) => Some((text, self.0.registry.tag(&tag)?)),
        })
    }

    fn string_exact_match(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &RefCount<LanguageTag>,
    ) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        self.0.call()?;
        if !self.0.defaults.borrow().contains_key(component) {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        let strings = self.0.strings.borrow();
        Ok(strings
            .get(&(component.to_string(), identifier.to_string()))
            .and_then(|texts| texts.get(language_tag.as_str()))
            .map(|text| (text.clone(), RefCount::clone(language_tag))))
    }

    fn strings(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &RefCount<LanguageTag>,
    ) -> Result<Vec<(String, RefCount<LanguageTag>)>, ProviderError> {
        Ok(self.string(component, identifier, language_tag)?.into_iter().collect())
    }

    fn identifier_details(&self, component: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        let details = self.component_details(component)?;
        Ok(IdentifierDetails {
            languages: Vec::new(),
            default: RefCount::clone(&details.default),
        })
    }

    fn component_details(&self, component: &str) -> Result<RefCount<ComponentDetails>, ProviderError> {
        self.0.call()?;
        let defaults = self.0.defaults.borrow();
        let Some(default) = defaults.get(component) else {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        };
        Ok(RefCount::new(ComponentDetails {
            languages: HashMap::<RefCount<LanguageTag>, LanguageData>::new(),
            default: self.0.registry.tag(default)?,
            total_strings: 0,
        }))
    }

    fn repository_details(&self) -> Result<RefCount<RepositoryDetails>, ProviderError> {
        self.0.call()?;
        let default = match self.0.defaults.borrow().get("application") {
            None => None,
            Some(tag) => Some(self.0.registry.tag(tag)?),
        };
        Ok(RefCount::new(RepositoryDetails {
            languages: HashMap::new(),
            default,
            total_strings: 0,
            components: self.0.defaults.borrow().keys().cloned().collect(),
            contributors: Vec::new(),
        }))
    }
}

pub type Values = HashMap<String, PlaceholderValue>;

pub struct Bench {
    pub icu: RefCount<IcuDataProvider>,
    pub registry: RefCount<LanguageTagRegistry>,
    pub commands: RefCount<CommandRegistry>,
    pub store: Rc<Store>,
    pub localiser: Localiser,
    next: Cell<u64>,
}

pub fn icu_provider() -> RefCount<IcuDataProvider> {
    RefCount::new(IcuDataProvider::try_new(DataProvider::Internal).expect("ICU data provider"))
}

impl Bench {
    pub fn new(fallback: bool, caching: bool, language: &str) -> Self {
        Bench::with(&icu_provider(), fallback, caching, language)
    }

    pub fn with(icu: &RefCount<IcuDataProvider>, fallback: bool, caching: bool, language: &str) -> Self {
        let registry = RefCount::new(LanguageTagRegistry::new());
        let commands = RefCount::new(CommandRegistry::new());
        let store = Rc::new(Store {
            registry: RefCount::clone(&registry),
            strings: RefCell::new(HashMap::new()),
            defaults: RefCell::new(BTreeMap::new()),
            lookups: Cell::new(0),
            fail_in: Cell::new(None),
            failures: Cell::new(0),
        });
        store.defaults.borrow_mut().insert("c".to_string(), "en".to_string());
        let localiser = Localiser::try_new(
            icu,
            &registry,
            Box::new(MemProvider(Rc::clone(&store))),
            &commands,
            fallback,
            caching,
            language,
        )
        .expect("localiser");
        Bench {
            icu: RefCount::clone(icu),
            registry,
            commands,
            store,
            localiser,
            next: Cell::new(0),
        }
    }

    /// Another localiser over the same stored strings and commands, with an empty cache.
    pub fn fresh(&self, fallback: bool, caching: bool, language: &str) -> Localiser {
        Localiser::try_new(
            &self.icu,
            &self.registry,
            Box::new(MemProvider(Rc::clone(&self.store))),
            &self.commands,
            fallback,
            caching,
            language,
        )
        .expect("localiser")
    }

    pub fn store_pattern(&self, identifier: &str, pattern: &str, lang: &str) {
        let mut strings = self.store.strings.borrow_mut();
        let entry = strings.entry(("c".to_string(), identifier.to_string())).or_default();
        entry.clear();
        entry.insert(lang.to_string(), pattern.to_string());
    }

    /// Formats one pattern, stored for exactly `lang`, without caching.
    pub fn pattern(&self, pattern: &str, lang: &str, values: &Values) -> Result<String, LocaliserError> {
        self.store_pattern("p", pattern, lang);
        let tag = self.registry.tag(lang)?;
        let (text, result) = self.localiser.format("c", "p", values, &tag, Some(false), Some(false))?;
        assert_eq!(result.as_str(), lang, "tag of the formatted string");
        Ok(text.to_string())
    }

    /// The same through the defaults of the localiser.
    pub fn pattern_defaults(&self, pattern: &str, lang: &str, values: &Values) -> Result<String, LocaliserError> {
        self.store_pattern("p", pattern, lang);
        self.localiser.defaults(Some(self.registry.tag(lang)?), None, None)?;
        let (text, result) = self.localiser.format_with_defaults("c", "p", values)?;
        assert_eq!(result.as_str(), lang, "tag of the formatted string");
        Ok(text.to_string())
    }

    /// The same several times with caching, under an identifier of its own.
    pub fn pattern_cached(&self, pattern: &str, lang: &str, values: &Values, times: usize) -> Vec<Result<String, LocaliserError>> {
        let n = self.next.get();
        self.next.set(n + 1);
        let identifier = format!("cached{n}");
        self.store_pattern(&identifier, pattern, lang);
        let tag = self.registry.tag(lang).expect("tag");
        (0..times)
            .map(|_| {
                let (text, result) = self.localiser.format("c", &identifier, values, &tag, Some(false), Some(true))?;
                assert_eq!(result.as_str(), lang, "tag of the formatted string");
                Ok(text.to_string())
            })
            .collect()
    }

    /// The same as localisation data. Nested localisation data is not asked for: it is inserted as it is.
    pub fn pattern_data(&self, pattern: &str, lang: &str, values: &Values) -> Result<String, LocaliserError> {
        if values.values().any(|v| matches!(v, PlaceholderValue::LocalisationData(_))) {
            return self.pattern(pattern, lang, values);
        }
        self.store_pattern("p", pattern, lang);
        let tag = self.registry.tag(lang)?;
        let data = LocalisationData {
            component: "c".to_string(),
            identifier: "p".to_string(),
            values: Some(values.clone()),
        };
        let (text, result) = self.localiser.format_localisation_data(&data, &tag, Some(false), Some(false))?;
        assert_eq!(result.as_str(), lang, "tag of the formatted string");
        Ok(text.to_string())
    }
}
