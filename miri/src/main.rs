//! Threads sharing one registry, under Miri: every schedule seed is another interleaving, and Miri itself watches for
//! data races, deadlocks and undefined behaviour. The argument is the scenario.

use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

type Answers = Vec<(String, Arc<LanguageTag>)>;

fn main() {
    let scenario: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    // (spelling, canonical) that each thread asks for, in this order. An empty spelling asks for the lists.
    let threads: Vec<Vec<(&str, &str)>> = match scenario {
        // A canonical and a deprecated spelling at the same moment.
        0 => vec![vec![("en-ZA", "en-ZA")], vec![("EN_za", "en-ZA")], vec![("en-ZA", "en-ZA")]],
        // Repeated deprecated spellings and lists while others register.
        1 => vec![
            vec![("de_ch", "de-CH"), ("", ""), ("de-CH", "de-CH")],
            vec![("DE-CH", "de-CH"), ("de_ch", "de-CH")],
            vec![("", ""), ("de-CH", "de-CH"), ("", "")],
        ],
        // ICU languages of the same tag from several threads, and malformed requests.
        2 => vec![
            vec![("zh_hant", "zh-Hant"), ("!", "")],
            vec![("zh-Hant", "zh-Hant"), ("zh-hant", "zh-Hant")],
            vec![("en--", ""), ("zh-Hant", "zh-Hant")],
        ],
        // Different languages, known before to some.
        _ => vec![
            vec![("it", "it"), ("IT", "it"), ("fr_FR", "fr-FR")],
            vec![("fr-FR", "fr-FR"), ("it", "it")],
            vec![("fr_FR", "fr-FR"), ("iT", "it")],
        ],
    };
    let registry = Arc::new(LanguageTagRegistry::new());
    let order = Arc::new(Mutex::new(Vec::new()));
    let handles: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(n, steps)| {
            let registry = Arc::clone(&registry);
            let order = Arc::clone(&order);
            std::thread::spawn(move || {
                let mut answers: Answers = Vec::new();
                for (spelled, canonical) in steps {
                    if spelled.is_empty() {
                        let list = registry.list_all();
                        for (_, tag) in &answers {
                            assert!(list.iter().any(|t| t == tag), "list_all lost {}", tag.as_str());
                        }
                        let tags: Vec<String> = registry.list().iter().map(|t| t.as_str().to_string()).collect();
                        let unique: BTreeSet<&String> = tags.iter().collect();
                        assert_eq!(unique.len(), tags.len(), "a tag twice in {tags:?}");
                    } else {
                        match registry.tag(spelled) {
                            Ok(tag) => {
                                assert_eq!(tag.as_str(), canonical, "wrong tag for {spelled}");
                                assert_eq!(registry.icu_language(&tag).to_string(), canonical);
                                answers.push((spelled.to_string(), tag));
                            }
                            Err(_) => assert!(canonical.is_empty(), "error for {spelled}"),
                        }
                    }
                    order.lock().unwrap().push(n);
                }
                answers
            })
        })
        .collect();
    let answers: Answers = handles.into_iter().flat_map(|h| h.join().expect("thread")).collect();
    let mut canonical: BTreeSet<String> = BTreeSet::new();
    let mut deprecated: Vec<String> = Vec::new();
    let mut spelled: BTreeSet<&String> = BTreeSet::new();
    for (s, tag) in &answers {
        for (_, other) in &answers {
            assert!(tag != other || Arc::ptr_eq(tag, other), "two instances of {}", tag.as_str());
        }
        canonical.insert(tag.as_str().to_string());
        if s != tag.as_str() && spelled.insert(s) {
            deprecated.push(tag.as_str().to_string());
        }
    }
    let sorted = |list: Vec<Arc<LanguageTag>>| {
        let mut v: Vec<String> = list.iter().map(|t| t.as_str().to_string()).collect();
        v.sort();
        v
    };
    deprecated.sort();
    assert_eq!(sorted(registry.list()), canonical.into_iter().collect::<Vec<_>>(), "tags");
    assert_eq!(sorted(registry.list_deprecated()), deprecated, "deprecated spellings");
    let order: Vec<String> = order.lock().unwrap().iter().map(|n| n.to_string()).collect();
    println!("ORDER {scenario} {}", order.join(""));
}
