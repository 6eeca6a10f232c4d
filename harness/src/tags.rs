//! Language tag generator with an independent notion of well-formedness and canonical form.

use crate::util::Rng;

pub const LANGUAGES: &[&str] = &[
    "en", "de", "fr", "it", "es", "pt", "nl", "af", "fi", "fil", "ar", "he", "fa", "ur", "hi", "bn", "ta", "th", "ja",
    "ko", "zh", "ru", "uk", "pl", "cs", "sk", "sl", "lt", "lv", "cy", "ga", "gd", "mt", "is", "da", "sv", "nb", "tr",
    "az", "sr", "hr", "ro", "hu", "el", "ka", "hy", "am", "sw", "zu", "xh", "st", "nso", "ts", "ve", "und", "mn", "kk",
    "uz", "pa", "ks", "yue", "gsw", "ckb", "dv", "nqo", "ff", "vi", "id", "ms", "my", "km", "lo", "ca", "gl", "eu", "br",
];
pub const SCRIPTS: &[&str] = &[
    "Latn", "Cyrl", "Arab", "Hebr", "Hant", "Hans", "Deva", "Thaa", "Nkoo", "Adlm", "Syrc", "Grek", "Jpan", "Kore", "Mong",
];
pub const REGIONS: &[&str] = &[
    "ZA", "US", "GB", "DE", "CH", "FR", "IT", "RS", "TW", "HK", "IN", "PK", "BR", "001", "419", "150",
];
pub const VARIANTS: &[&str] = &["1996", "valencia", "rozaj", "biske", "nedis", "fonipa", "scouse", "1901", "abc12", "posix"];

fn alpha(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
}

/// Canonical tag made of language, script, region and variant subtags.
pub fn canonical(rng: &mut Rng) -> String {
    let mut s = if rng.chance(4, 5) {
        rng.pick(LANGUAGES).to_string()
    } else {
        let n = rng.range(2, 3);
        alpha(rng, n)
    };
    if rng.chance(1, 3) {
        s.push('-');
        if rng.chance(4, 5) {
            s.push_str(rng.pick(SCRIPTS));
        } else {
            let t = alpha(rng, 4);
            s.push_str(&(t[..1].to_uppercase() + &t[1..]));
        }
    }
    if rng.chance(1, 2) {
        s.push('-');
        if rng.chance(4, 5) {
            s.push_str(rng.pick(REGIONS));
        } else if rng.chance(1, 2) {
            s.push_str(&alpha(rng, 2).to_uppercase());
        } else {
            s.push_str(&format!("{:03}", rng.below(1000)));
        }
    }
    if rng.chance(1, 4) {
        // Without bound on the length of the whole.
        let n = if rng.chance(1, 4) { rng.range(4, 9) } else { rng.range(1, 3) };
        let mut variants: Vec<String> = (0..n).map(|_| rng.pick(VARIANTS).to_string()).collect();
        variants.sort();
        variants.dedup();
        for v in variants {
            s.push('-');
            s.push_str(&v);
        }
    }
    s
}

/// Another spelling of a canonical tag: letter case, underscores, order of variants.
pub fn respell(rng: &mut Rng, tag: &str) -> String {
    let mut parts: Vec<&str> = tag.split('-').collect();
    // The order of the variants is free.
    if let Some(first) = parts.iter().skip(1).position(|p| is_variant(p)) {
        let at = first + 1;
        rng.shuffle(&mut parts[at..]);
    }
    let mode = rng.below(5);
    let mut s = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.push(if mode == 0 || rng.chance(1, 4) { '_' } else { '-' });
        }
        match mode {
            1 => s.push_str(&p.to_uppercase()),
            2 => s.push_str(&p.to_lowercase()),
            3 => {
                for c in p.chars() {
                    if rng.chance(1, 2) {
                        s.extend(c.to_uppercase());
                    } else {
                        s.extend(c.to_lowercase());
                    }
                }
            }
            _ => s.push_str(p),
        }
    }
    s
}

fn is_variant(p: &str) -> bool {
    let b = p.as_bytes();
    b.iter().all(|c| c.is_ascii_alphanumeric())
        && ((b.len() >= 5 && b.len() <= 8) || (b.len() == 4 && b[0].is_ascii_digit()))
}

/// Own canonicalisation. `None`: malformed. Only for tags without extension or private use subtags.
pub fn canonicalise(tag: &str) -> Option<String> {
    let parts: Vec<&str> = tag.split(['-', '_']).collect();
    let language = parts[0];
    if !(2..=3).contains(&language.len()) || !language.bytes().all(|c| c.is_ascii_alphabetic()) {
        return None;
    }
    let mut out = language.to_ascii_lowercase();
    let mut i = 1;
    if i < parts.len() && parts[i].len() == 4 && parts[i].bytes().all(|c| c.is_ascii_alphabetic()) {
        let p = parts[i].to_ascii_lowercase();
        out.push('-');
        out.push_str(&p[..1].to_ascii_uppercase());
        out.push_str(&p[1..]);
        i += 1;
    }
    if i < parts.len()
        && ((parts[i].len() == 2 && parts[i].bytes().all(|c| c.is_ascii_alphabetic()))
            || (parts[i].len() == 3 && parts[i].bytes().all(|c| c.is_ascii_digit())))
    {
        out.push('-');
        out.push_str(&parts[i].to_ascii_uppercase());
        i += 1;
    }
    let mut variants = Vec::new();
    while i < parts.len() {
        if !is_variant(parts[i]) {
            return None;
        }
        let v = parts[i].to_ascii_lowercase();
        if variants.contains(&v) {
            return None;
        }
        variants.push(v);
        i += 1;
    }
    variants.sort();
    for v in variants {
        out.push('-');
        out.push_str(&v);
    }
    Some(out)
}

pub fn malformed(rng: &mut Rng) -> String {
    const FIXED: &[&str] = &[
        "", "-", "_", "e", "1", "12", "en-", "-en", "en--US", "en-US-", "en_", "e1", "en-U", "en-US-US", "en US", "en-1234567890",
        "en-Latn-Latn", "zh-Hans-CN-1", "é", "en-é", "語", "en\0", " en", "en ", "en-ZA\n", "toolonglanguagetag", "en-toolongsubtag1",
        "en-123456789", "abcd", "en-99", "en-1a", "*", "en.UTF-8", "en-rozaj-rozaj",
    ];
    if rng.chance(1, 2) {
        rng.pick(FIXED).to_string()
    } else {
        let mut s = canonical(rng);
        let junk = rng.pick(&["-", "--", " ", ".", "é", "-!", "-a-", "\u{301}", "-123456789", "/x"]).to_string();
        match rng.below(3) {
            0 => s.push_str(&junk),
            1 => s = junk + &s,
            _ => s.insert_str(rng.below(2) + 1, &junk),
        }
        s
    }
}

/// Only tags for which the own canonicalisation decides: no single letter subtags.
pub fn has_singleton(tag: &str) -> bool {
    tag.split(['-', '_']).skip(1).any(|p| p.len() == 1)
}
