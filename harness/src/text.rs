//! Text generators and the fixed Unicode sets the oracles use.

use crate::util::Rng;

/// Pattern_White_Space; immutable by the Unicode stability policy.
pub fn is_pattern_white_space(c: char) -> bool {
    matches!(c as u32, 0x09..=0x0D | 0x20 | 0x85 | 0x200E | 0x200F | 0x2028 | 0x2029)
}

/// Pattern_Syntax; immutable by the Unicode stability policy.
pub fn is_pattern_syntax(c: char) -> bool {
    matches!(c as u32,
        0x21..=0x2F | 0x3A..=0x40 | 0x5B..=0x5E | 0x60 | 0x7B..=0x7E
        | 0xA1..=0xA7 | 0xA9 | 0xAB | 0xAC | 0xAE | 0xB0 | 0xB1 | 0xB6 | 0xBB | 0xBF | 0xD7 | 0xF7
        | 0x2010..=0x2027 | 0x2030..=0x203E | 0x2041..=0x2053 | 0x2055..=0x205E
        | 0x2190..=0x245F | 0x2500..=0x2775 | 0x2794..=0x2BFF | 0x2E00..=0x2E7F
        | 0x3001..=0x3003 | 0x3008..=0x3020 | 0x3030 | 0xFD3E | 0xFD3F | 0xFE45 | 0xFE46)
}

pub const SPECIAL: &[&str] = &[
    "e\u{301}", "\u{301}", "a\u{300}\u{301}\u{302}", "👨‍👩‍👧‍👦", "👍🏽", "🇿🇦", "🇿", "🇮🇹🇿🇦", "\r\n", "\n\r", "\r", "\n",
    "각", "\u{1100}\u{1161}\u{11A8}", "नि", "क्षि", "ம்", "\u{200D}", "\u{200C}", "\u{FE0F}", "❤️", "\u{FEFF}", "\0",
    "\u{7F}", "\u{80}", "\u{85}", "\u{A0}", "\u{2028}", "\u{2029}", "\u{200E}", "\u{200F}", "\u{2060}", "\u{3000}",
    "\u{FFFD}", "\u{10FFFF}", "\u{D7FF}", "\u{E000}", "ß", "ﬀ", "𝒳", "字", "ひらがな", "مرحبا", "שלום", "«", "»", "—",
    "…", "₤", "±", "×", "÷", "→", "■", "⺀", "⸀", "〈", "〰", "﴾", "\u{E0001}", "\u{1F3F4}\u{E0067}\u{E0062}\u{E007F}",
    "_", "-", "'", "\"", "\\", "/", "%", "$", "&", "é", "ñ", "\u{0600}", "\u{0903}", "\u{0E33}", "\u{034F}",
];

pub fn scalar(rng: &mut Rng) -> char {
    loop {
        let value = match rng.below(5) {
            0 => rng.below(0x80) as u32,
            1 => rng.below(0x800) as u32,
            2 => rng.range(0x2000, 0x3100) as u32,
            3 => rng.below(0x1_0000) as u32,
            _ => rng.below(0x11_0000) as u32,
        };
        if let Some(c) = char::from_u32(value) {
            return c;
        }
    }
}

/// A string of about `len` pieces, made of every kind of character.
pub fn any_string(rng: &mut Rng, len: usize, favour: &str) -> String {
    let favour: Vec<char> = favour.chars().collect();
    let mut s = String::new();
    for _ in 0..len {
        match rng.below(10) {
            0 | 1 if !favour.is_empty() => s.push(*rng.pick(&favour)),
            0..=2 => {
                for _ in 0..rng.range(1, 4) {
                    s.push((b'a' + rng.below(26) as u8) as char);
                }
            }
            3 => s.push((rng.range(0x20, 0x7E) as u8) as char),
            4 => {
                for _ in 0..rng.range(1, 3) {
                    s.push(*rng.pick(&[' ', '\t', '\n', '\r', '\u{85}', '\u{2028}', '\u{200E}']));
                }
            }
            5 => {
                for _ in 0..rng.range(1, 3) {
                    s.push(*rng.pick(&['!', '+', '=', '<', '.', ',', '—', '→', '«', '■', '×']));
                }
            }
            6 | 7 => s.push_str(rng.pick(SPECIAL)),
            8 => s.push(scalar(rng)),
            _ => s.push(*rng.pick(&['0', '9', 'A', 'Z', '_', 'é', 'ß', '字', '\u{301}', '\u{200D}'])),
        }
    }
    s
}
