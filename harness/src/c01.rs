//! C01 (lossless, true positions) and C02 (split and typed by properties and grammar): monitors over the token
//! stream of the lexer.

use crate::text::*;
use crate::util::*;
use i18n_lexer::{DataProvider, IcuDataProvider, LexerIterator, Token, TokenType};
use icu_segmenter::GraphemeClusterSegmenter;

fn kind(c: char, grammar: &str) -> TokenType {
    if is_pattern_white_space(c) {
        TokenType::WhiteSpace
    } else if is_pattern_syntax(c) {
        if grammar.contains(c) {
            TokenType::Grammar
        } else {
            TokenType::Syntax
        }
    } else {
        TokenType::Identifier
    }
}

fn graphemes(segmenter: &GraphemeClusterSegmenter, s: &str) -> usize {
    segmenter.segment_str(s).count() - 1
}

struct Lexing<'a> {
    icu: &'a RefCount<IcuDataProvider>,
    segmenter: &'a GraphemeClusterSegmenter,
}

fn tokens(l: &Lexing, string: &str, grammar: &str) -> Result<Vec<Token>, String> {
    let iterator = LexerIterator::try_new(string, grammar, l.icu).map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    let mut iterator = iterator;
    let limit = string.len() + 8;
    while let Some(token) = iterator.next() {
        out.push(token);
        if out.len() > limit {
            return Err(format!("more than {limit} tokens"));
        }
    }
    // The end stays the end.
    for _ in 0..2 {
        if let Some(token) = iterator.next() {
            return Err(format!("a token after the end: {:?}", token.string));
        }
    }
    Ok(out)
}

fn positions(ctx: &mut Ctx, l: &Lexing, string: &str, grammar: &str, list: &[Token]) {
    let mut byte = 0;
    let mut character = 0;
    let mut grapheme = 0;
    for (i, t) in list.iter().enumerate() {
        let chars = t.string.chars().count();
        let clusters = graphemes(l.segmenter, &t.string);
        let problem = if t.string.is_empty() {
            Some("empty token".to_string())
        } else if !string[byte.min(string.len())..].starts_with(t.string.as_str()) {
            Some(format!("text is not the input at byte {byte}"))
        } else if t.start_byte != byte {
            Some(format!("start_byte {} instead of {byte}", t.start_byte))
        } else if t.length_bytes != t.string.len() {
            Some(format!("length_bytes {} instead of {}", t.length_bytes, t.string.len()))
        } else if t.end_byte != byte + t.string.len() {
            Some(format!("end_byte {} instead of {}", t.end_byte, byte + t.string.len()))
        } else if t.start_character != character {
            Some(format!("start_character {} instead of {character}", t.start_character))
        } else if t.length_characters != chars {
            Some(format!("length_characters {} instead of {chars}", t.length_characters))
        } else if t.length_graphemes != clusters {
            Some(format!("length_graphemes {} instead of {clusters}", t.length_graphemes))
        } else if t.start_grapheme != grapheme {
            Some(format!("start_grapheme {} instead of {grapheme}", t.start_grapheme))
        } else {
            None
        };
        if let Some(problem) = problem {
            ctx.fail(format!(
                "token {i} {:?} of {string:?} with grammar {grammar:?}: {problem}",
                t.string
            ));
            return;
        }
        byte += t.string.len();
        character += chars;
        grapheme += clusters;
        ctx.hit("tokens");
    }
    if byte != string.len() {
        ctx.fail(format!(
            "tokens of {string:?} with grammar {grammar:?} end at byte {byte} of {}",
            string.len()
        ));
    }
}

fn classes(ctx: &mut Ctx, string: &str, grammar: &str, list: &[Token]) {
    let mut previous: Option<&Token> = None;
    for (i, t) in list.iter().enumerate() {
        let mut problem = None;
        for c in t.string.chars() {
            let expected = kind(c, grammar);
            if expected != t.token_type {
                problem = Some(format!("U+{:04X} is {expected:?}, token is {:?}", c as u32, t.token_type));
                break;
            }
        }
        if t.token_type == TokenType::Grammar && t.string.chars().count() != 1 {
            problem = Some("grammar token is not one character".to_string());
        }
        if let Some(p) = previous {
            if p.token_type == t.token_type && t.token_type != TokenType::Grammar {
                problem = Some(format!("two neighbouring {:?} tokens", t.token_type));
            }
        }
        if let Some(problem) = problem {
            ctx.fail(format!(
                "token {i} {:?} of {string:?} with grammar {grammar:?}: {problem}",
                t.string
            ));
            return;
        }
        previous = Some(t);
        ctx.hit(match t.token_type {
            TokenType::WhiteSpace => "tokens_white_space",
            TokenType::Identifier => "tokens_identifier",
            TokenType::Grammar => "tokens_grammar",
            TokenType::Syntax => "tokens_syntax",
        });
    }
    // What the tokens cover decides the rest: a character the lexer drops or invents has no kind to compare.
    if list.iter().map(|t| t.string.len()).sum::<usize>() != string.len() {
        ctx.fail(format!("the tokens of {string:?} with grammar {grammar:?} do not cover the input"));
    }
}

fn one(ctx: &mut Ctx, l: &Lexing, string: &str, grammar: &str) {
    ctx.eval();
    let result = tokens(l, string, grammar);
    ctx.record(|| format!("{result:?}"));
    if string.is_empty() || grammar.is_empty() {
        ctx.hit("error_cases");
        if let Ok(list) = result {
            ctx.fail(format!("{} tokens and no error for {string:?} with grammar {grammar:?}", list.len()));
        }
        return;
    }
    let list = match result {
        Ok(list) => list,
        Err(error) => {
            ctx.fail(format!("error for {string:?} with grammar {grammar:?}: {error}"));
            return;
        }
    };
    if list.len() > 1 {
        ctx.distinct(&(string, grammar));
    }
    if ctx.prop == "C01" {
        positions(ctx, l, string, grammar, &list);
    } else {
        classes(ctx, string, grammar, &list);
    }
}

const GRAMMARS: &[&str] = &[
    "{}`#", "+-*/", "{", "#", "`", "<>&", "«»", "→", "×÷", "[]{}()", ".,;:!?", "\"'", "—…", "■□", "a", "{a}", " {", "{}{}", "﴾﴿",
    "!\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~", "〈〉", "{\u{301}", "_", "$\n",
];

pub fn run(ctx: &mut Ctx) {
    let icu = RefCount::new(IcuDataProvider::try_new(DataProvider::Internal).expect("ICU data provider"));
    let segmenter = GraphemeClusterSegmenter::new();
    let l = Lexing { icu: &icu, segmenter: &segmenter };

    ctx.phase("error", 1, 1, |ctx, rng, _| {
        for _ in 0..200 {
            let n = rng.range(1, 6);
            let s = any_string(rng, n, "{}`#");
            one(ctx, &l, &s, "");
        }
        for grammar in GRAMMARS {
            one(ctx, &l, "", grammar);
        }
        one(ctx, &l, "", "");
    });

    // Every scalar value: alone, and between characters of each kind.
    ctx.phase("scalars", 0x1100, 0x1100, |ctx, rng, index| {
        let grammar = *rng.pick(GRAMMARS);
        let mut block = String::new();
        for low in 0..0x100u32 {
            let Some(c) = char::from_u32(index as u32 * 0x100 + low) else { continue };
            ctx.hit("scalar_values");
            block.push(c);
            let s = match rng.below(6) {
                0 => format!("{c}"),
                1 => format!("a{c}b"),
                2 => format!(" {c} "),
                3 => format!("!{c}+"),
                4 => format!("{{{c}}}"),
                _ => format!("{c}{c}"),
            };
            one(ctx, &l, &s, grammar);
        }
        if !block.is_empty() {
            one(ctx, &l, &block, grammar);
        }
    });

    ctx.phase("random", 40_000, 1_500_000, |ctx, rng, _| {
        let grammar = if rng.chance(1, 3) {
            "{}`#".to_string()
        } else if rng.chance(4, 5) {
            rng.pick(GRAMMARS).to_string()
        } else {
            let n = rng.range(1, 4);
            any_string(rng, n, "")
        };
        let n = match rng.below(12) {
            0 => rng.range(1, 2),
            1 => rng.range(30, 200),
            _ => rng.range(1, 25),
        };
        let string = any_string(rng, n, &grammar);
        ctx.sample(|| format!("string {string:?}, grammar {grammar:?}"));
        one(ctx, &l, &string, &grammar);
    });

    // Short strings over one character of each kind and width, completely.
    let alphabet = ['a', '_', 'é', '字', '𝒳', '\u{301}', ' ', '\u{2028}', '+', '→', '{', '#'];
    ctx.phase("short", 12 * 12, 12 * 12, |ctx, _, index| {
        let a = alphabet[index as usize / 12];
        let b = alphabet[index as usize % 12];
        one(ctx, &l, &format!("{a}{b}"), "{#");
        for c in alphabet {
            one(ctx, &l, &format!("{a}{b}{c}"), "{#");
            for d in alphabet {
                one(ctx, &l, &format!("{a}{b}{c}{d}"), "{#→");
            }
        }
    });

    // Long inputs, and two iterators over one data provider taking turns.
    ctx.phase("long", 24, 200, |ctx, rng, _| {
        let n = rng.range(2_000, 30_000);
        let string = any_string(rng, n, "{}`#");
        ctx.add("long_bytes", string.len() as u64);
        one(ctx, &l, &string, "{}`#");
    });
    // Longer than any small counter: positions are those of the whole text.
    ctx.phase("very_long", 3, 40, |ctx, rng, _| {
        let n = rng.range(66_000, if ctx.thorough { 300_000 } else { 90_000 });
        let string = match rng.below(3) {
            // Mostly one kind: few, very long tokens.
            0 => {
                let unit = *rng.pick(&["a", "é", " ", "字", "e\u{301}", "+"]);
                let head = any_string(rng, 40, "{}`#");
                let tail = any_string(rng, 40, "{}`#");
                format!("{head}{}{tail}", unit.repeat(n))
            }
            // Very many, very short tokens.
            1 => {
                let unit = *rng.pick(&["a ", "{a}", "+ ", "`#", "字\u{2028}"]);
                let tail = any_string(rng, 40, "{}`#");
                format!("{}{tail}", unit.repeat(n))
            }
            _ => any_string(rng, n, "{}`#"),
        };
        ctx.add("very_long_bytes", string.len() as u64);
        one(ctx, &l, &string, "{}`#");
    });
    ctx.phase("interleaved", 400, 8000, |ctx, rng, _| {
        let (n, m) = (rng.range(3, 30), rng.range(3, 30));
        let s1 = any_string(rng, n, "{}");
        let s2 = any_string(rng, m, "<>");
        if s1.is_empty() || s2.is_empty() {
            return;
        }
        let mut i1 = LexerIterator::try_new(&s1, "{}", &icu).expect("lexer");
        let mut i2 = LexerIterator::try_new(&s2, "<>", &icu).expect("lexer");
        let (mut l1, mut l2) = (Vec::new(), Vec::new());
        loop {
            let mut more = false;
            for _ in 0..rng.range(0, 3) {
                if let Some(t) = i1.next() {
                    l1.push(t);
                }
            }
            if let Some(t) = i1.next() {
                l1.push(t);
                more = true;
            }
            if let Some(t) = i2.next() {
                l2.push(t);
                more = true;
            }
            if !more || l1.len() > s1.len() + 8 || l2.len() > s2.len() + 8 {
                break;
            }
        }
        ctx.eval();
        ctx.distinct(&(&s1, &s2));
        if ctx.prop == "C01" {
            positions(ctx, &l, &s1, "{}", &l1);
            positions(ctx, &l, &s2, "<>", &l2);
        } else {
            classes(ctx, &s1, "{}", &l1);
            classes(ctx, &s2, "<>", &l2);
        }
    });
}
