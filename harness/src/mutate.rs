//! Malformed and unusual inputs: token soups, mutated statements, mutated text.

use crate::dict::{self, dict, hit};
use crate::funcs::FUNCS;
use crate::gen::*;
use crate::words::KEYWORDS;

pub const PUNCT: &[&str] = &[
    "(", ")", ",", ";", ".", "*", "+", "-", "/", "%", "=", "<", ">", "<=", ">=", "<>", "!=", "<=>", "!", "!!", "~",
    "&", "&&", "|", "||", "^", "<<", ">>", ":", "::", "=>", "[", "]", "{", "}", "$$", "@", "@@", "#", "\\", "?", "%s",
    "$1", "$2",
];
pub const ODD: &[&str] = &[
    "$0", "$", "$99999999999999999999999", "$18446744073709551615", "$18446744073709551616", "%d", "@@session",
    "@@GLOBAL", "@@glob", "@@sess", "@@SESSIO", "@x", "0", "1", "007", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999", "1.5", ".5", "5.", "1.2.3", "1e5", "0x1F", "x'1f'", "x'", "X'00", "b'01'", "n'x'", "''",
    "'a'", "'it''s'", "'\\''", "'\\", "'", "\"", "\"a\"", "\"a\"\"b\"", "``", "`a`", "`", "`a``b`", "'é日'", "\"\\\"\"",
    "/*", "*/", "/* x */", "--", "-- x\n", "//", "// x\n", "#c\n", "\u{0}", "é", "日本", "\u{1F600}", "\u{a0}", "\u{feff}",
    "\u{2028}", "\u{c}", "\u{b}", "\n", "\r", "\t", "_LIST_", "$$", "DELIMITER $$", "DELIMITER ;", "DELIMITER", "COPY",
    "STDIN", "\\.", "\n\\.\n", "a.b", "a.", ".a", "a.*", "t.*", "1a", "a1", "_", "__", "@@session.", "@@global.x",
    "@@session.y", "::text", "::int", "END $$", "BEGIN", "END", "END IF", "END CASE", "''''", "'a' 'b'", "-1", "--1", "- -1",
    "1=1", "a=b", "NOT", "IS NOT", "IS NOT NULL", "NOT NULL", "NOT IN (1)", "IN ()", "IN (SELECT 1)", "()", "(1,2)",
    "(SELECT 1)", "CASE WHEN", "CASE WHEN 1 THEN 2 END", "CAST(a AS CHAR)", "count(*)", "COUNT(DISTINCT a)", "OVER (ORDER BY a)",
    "INTERVAL 1 DAY", "EXTRACT(YEAR FROM a)", "EXISTS (SELECT 1)", "ORDER BY", "GROUP BY", "LIMIT 1", "LIMIT 1,2",
    "LIMIT 1 OFFSET 2", "UNION", "UNION ALL", "ON DUPLICATE KEY UPDATE a=1", "ON CONFLICT DO NOTHING", "FOR UPDATE",
    "FOR EACH ROW", "LEFT JOIN", "NATURAL JOIN", "USING (a)", "ON a=b", "USE INDEX (a)", "FORCE INDEX FOR JOIN (a)",
    "IF NOT EXISTS", "IF EXISTS", "PRIMARY KEY (a)", "FOREIGN KEY (a) REFERENCES b (c)", "CONSTRAINT a", "VARCHAR(10)",
    "INT(4)", "ENUM('a')", "DECIMAL(1,2)", "DEFAULT 1", "COMMENT 'x'", "AUTO_INCREMENT", "CHARACTER SET utf8", "COLLATE x",
    "GENERATED ALWAYS AS (1)", "SIGNAL SQLSTATE '1'", "SET MESSAGE_TEXT='a'", "RETURNS INT", "LANGUAGE SQL", "AS $$ x $$",
];

/// The kind a layout needs to know about a piece of text.
pub fn kind_of(t: &str) -> K {
    let c = t.chars().next().unwrap_or(' ');
    if c.is_ascii_alphabetic() || c == '_' {
        K::Id
    } else if c.is_ascii_digit() {
        K::Num
    } else if c == '\'' || c == '"' {
        K::Str
    } else if c == '`' {
        K::Qid
    } else {
        K::P
    }
}
pub fn tok_of(t: &str) -> Tok {
    Tok { k: kind_of(t), text: t.to_string(), sp: crate::tree::Sp(0, 0), delim: false }
}
pub fn soup_word(g: &mut Gen) -> String {
    let d = dict();
    if hit(g, &d.keys, 6) {
        let w = dict::some(g, &d.keys);
        return if g.p(1, 4) { dict::variant(g, w) } else { w };
    }
    if hit(g, &d.texts, 6) {
        let w = dict::some(g, &d.texts);
        return dict::variant(g, w);
    }
    if hit(g, &d.ints, 20) {
        return dict::near(g, &d.ints).to_string();
    }
    match g.c(12) {
        0..=3 => g.pick(KEYWORDS).to_string(),
        4..=6 => g.pick(PUNCT).to_string(),
        7 => g.pick(ODD).to_string(),
        8 => g.pick(NAMES).to_string(),
        9 => g.pick(FUNCS).0.to_string(),
        10 => g.pick(KEYWORDS).to_ascii_lowercase(),
        _ => {
            // the words that start or connect statements
            const W: &[&str] = &[
                "SELECT", "FROM", "WHERE", "(", ")", ",", ";", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE",
                "CREATE", "TABLE", "VIEW", "INDEX", "TRIGGER", "FUNCTION", "ALTER", "ADD", "DROP", "COLUMN", "BEGIN",
                "END", "IF", "THEN", "ELSE", "CASE", "WHEN", "UNION", "JOIN", "ON", "AS", "ORDER", "BY", "GROUP", "LIMIT",
                "WITH", "DO", "$$", "NOT", "NULL", "AND", "OR", "IN", "a", "b", "1", "'x'", "=", ".", "*",
            ];
            g.pick(W).to_string()
        }
    }
}
pub fn soup(g: &mut Gen, max: u32) -> Vec<Tok> {
    let n = 1 + g.c(max);
    (0..n).map(|_| tok_of(&soup_word(g))).collect()
}

/// Apply `n` random edits to a token list. Returns a description.
pub fn mutate(g: &mut Gen, toks: &mut Vec<Tok>, n: u32) {
    for _ in 0..n {
        let len = toks.len() as u32;
        if len == 0 {
            toks.push(tok_of(&soup_word(g)));
            continue;
        }
        let i = g.c(len) as usize;
        match g.c(11) {
            0 | 1 => {
                toks.remove(i);
            }
            2 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            3 => {
                let j = g.c(len) as usize;
                toks.swap(i, j);
            }
            4 | 5 => toks[i] = tok_of(&soup_word(g)),
            6 | 7 => {
                let t = tok_of(&soup_word(g));
                toks.insert(i, t);
            }
            8 => toks.truncate(i),
            9 => {
                let j = (i + 1 + g.c(6) as usize).min(toks.len());
                toks.drain(i..j);
            }
            _ => {
                // move a run of tokens elsewhere
                let j = (i + 1 + g.c(6) as usize).min(toks.len());
                let run: Vec<Tok> = toks.drain(i..j).collect();
                let k = g.c(toks.len() as u32 + 1) as usize;
                for (d, t) in run.into_iter().enumerate() {
                    toks.insert(k + d, t);
                }
            }
        }
    }
}

pub fn text(toks: &[Tok], space: u32) -> String {
    render(toks, &mut Layout::new(space, 0)).0
}

/// Canonical text of tokens, with nothing between tokens now and then.
pub fn glued(g: &mut Gen, toks: &[Tok]) -> String {
    let mode = g.c(4);
    if mode < 2 {
        return text(toks, 0);
    }
    if mode == 2 {
        let s = 1 + g.c(1000);
        return text(toks, s);
    }
    let mut r = Rng(g.raw_choice() as u64);
    let mut o = String::new();
    for t in toks {
        o.push_str(&t.text);
        if r.c(4) != 0 {
            o.push(' ');
        }
    }
    o
}

const CHARS: &[char] = &[
    ' ', '\n', '\t', '\r', '\'', '"', '`', '(', ')', ',', ';', '.', '*', '-', '/', '\\', '$', '%', 's', '?', '@', '#',
    '!', '=', '<', '>', '&', '|', '^', '~', ':', '[', ']', '{', '}', '+', '0', '9', 'a', 'z', 'A', 'Z', '_', 'x', 'X',
    'e', '\u{0}', '\u{7f}', '\u{80}', '\u{a0}', 'é', 'ß', '∂', '日', '\u{2028}', '\u{feff}', '\u{1F600}', '\u{10FFFF}', '\u{b}',
    '\u{c}', '\u{301}', 'İ', 'ſ', 'K',
];
pub fn rand_char(g: &mut Gen) -> char {
    if hit(g, &dict().texts, 8) {
        let v: Vec<char> = dict::some(g, &dict().texts).chars().collect();
        return g.pick(&v);
    }
    if hit(g, &dict().ints, 20) {
        return char::from_u32(dict::near(g, &dict().ints) as u32).unwrap_or('a');
    }
    if g.p(1, 6) {
        char::from_u32(g.c(0x11_0000)).unwrap_or('\u{fffd}')
    } else {
        g.pick(CHARS)
    }
}
pub fn mutate_chars(g: &mut Gen, s: &str, n: u32) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..n {
        let i = g.c(v.len() as u32 + 1) as usize;
        match g.c(6) {
            0 | 1 => v.insert(i, rand_char(g)),
            2 if i < v.len() => {
                v.remove(i);
            }
            3 if i < v.len() => v[i] = rand_char(g),
            4 => v.truncate(i),
            5 if i < v.len() => {
                let j = (i + 1 + g.c(10) as usize).min(v.len());
                let run: Vec<char> = v[i..j].to_vec();
                for (d, c) in run.into_iter().enumerate() {
                    v.insert(i + d, c);
                }
            }
            _ => v.insert(i, rand_char(g)),
        }
    }
    v.into_iter().collect()
}

/// A random valid statement's tokens, or a short script's.
pub fn valid_tokens(g: &mut Gen) -> Vec<Tok> {
    g.any_statement();
    std::mem::take(&mut g.toks)
}
/// Random options of every kind.
pub fn any_opts(tape: &[u32]) -> (Opts, &[u32]) {
    let (mut o, rest) = crate::faithful::header(tape);
    let x = rest.first().copied().unwrap_or(0);
    o.wq = x % 4 == 1 || x % 4 == 3;
    o.wc = x % 4 >= 2;
    (o, rest.get(1..).unwrap_or(&[]))
}

pub fn prefixes(s: &str) -> impl Iterator<Item = &str> {
    s.char_indices().map(move |(i, _)| &s[..i])
}

/// Text of one of the malformed families; `g` supplies the choices.
pub fn anything(g: &mut Gen) -> (String, &'static str) {
    match g.c(10) {
        0..=4 => {
            let mut t = valid_tokens(g);
            g.budget = 300;
            let n = 1 + g.c(4);
            mutate(g, &mut t, n);
            (glued(g, &t), "token mutants")
        }
        5 | 6 => {
            let t = soup(g, 24);
            (glued(g, &t), "token soups")
        }
        7 | 8 => {
            let t = valid_tokens(g);
            g.budget = 300;
            let s = glued(g, &t);
            let n = 1 + g.c(4);
            (mutate_chars(g, &s, n), "character mutants")
        }
        _ if g.p(1, 3) => (delimited(g), "changed delimiters"),
        _ => {
            let n = g.c(40);
            ((0..n).map(|_| rand_char(g)).collect(), "random characters")
        }
    }
}

/// A script that changes the delimiter to anything at all, then statements it parts, damaged
/// now and then.
pub fn delimited(g: &mut Gen) -> String {
    let by = match g.c(4) {
        0 => g.pick(PUNCT).to_string(),
        1 => g.pick(&["$$", "//", ";;", "|", "\\", "END", "GO", ".", "$1", "%"]).to_string(),
        2 => (0..1 + g.c(3)).map(|_| rand_char(g)).collect(),
        _ => soup_word(g),
    };
    let mut s = format!("{} {by}\n", g.pick(&["DELIMITER", "delimiter", "Delimiter"]));
    let n = 1 + g.c(3);
    for i in 0..n {
        g.budget = 60;
        let mut t = valid_tokens(g);
        g.budget = 300;
        if g.p(1, 2) {
            let k = 1 + g.c(2);
            mutate(g, &mut t, k);
        }
        s += &glued(g, &t);
        if i + 1 < n || g.p(2, 3) {
            s += g.pick(&[" ", "\n", ""]);
            s += &if g.p(1, 5) { ";".to_string() } else { by.clone() };
            s += g.pick(&["\n", " ", ""]);
        }
    }
    if g.p(1, 4) {
        s += "\nDELIMITER ;\nSELECT 1;";
    }
    s
}

/// A piece of text that is long in itself, of a length around a power of two: a word, a
/// name, a string, a number, a comment or blank run, whole or (last of the text) cut open.
pub fn long_piece(g: &mut Gen) -> (String, bool) {
    let base = [15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4096, 8192, 16384, 32768, 65535];
    let hi = if g.p(1, 3) { base.len() } else { 16 };
    let size = base[g.c(hi as u32) as usize] + g.c(9) as usize;
    let size = size.saturating_sub(4).max(1);
    let sizes = &dict().sizes;
    let size = if hit(g, sizes, 2) { dict::near(g, sizes) as usize } else { size };
    const FILL: &[&str] = &["a", "é", "日", "𝄞", "aé", "a日b", "aaa𝄞", "x ", "\u{301}", "ſK"];
    let mut f = g.pick(FILL).to_string();
    let lead = "abc"[..g.c(4) as usize].to_string();
    let word = |f: &str, s: usize| lead.clone() + &f.repeat(s / f.len() + 1);
    let cut = g.p(1, 10);
    let t = match g.c(14) {
        0 | 1 => ["a", "A_", "_9", "select"][g.c(4) as usize].repeat(size / 2 + 1),
        2..=4 => {
            if g.p(1, 3) {
                f = g.pick(&["''", "\\'", "\\\\", "\\n", "é''", "\n", "日\n", "\\é"]).to_string();
            }
            format!("'{}{}", word(&f, size), if cut { "" } else { "'" })
        }
        5 => format!("\"{}{}", word(&f, size), if cut { "" } else { "\"" }),
        6 | 7 => format!("`{}{}", word(&f, size), if cut { "" } else { "`" }),
        8 => ["1", "90", "0"][g.c(3) as usize].repeat(size),
        9 => format!("1.{}", "05".repeat(size / 2)),
        10 => format!("/*{}{}", word(&f, size), if cut { "" } else { "*/" }),
        11 => format!("{}{}{}", g.pick(&["-- ", "# ", "--"]), word(&f, size), if cut { "" } else { "\n" }),
        12 => [" ", "\n", "\t ", "\r\n"][g.c(4) as usize].repeat(size),
        _ => match g.c(5) {
            0 => format!("${}", "0".repeat(size)),
            1 => format!("${}", "9".repeat(size)),
            2 => format!("x'{}'", "1f".repeat(size / 2)),
            3 => g.pick(&[".", "(", "-", "!", "@", "$", "\\", "é", "日", "\u{0}", ":", "|", "&", "<"]).repeat(size.min(300)),
            _ => format!("@@session.{}", word("a", size)),
        },
    };
    (t, cut)
}
/// A valid or mutated statement with long pieces in it.
pub fn inflated(g: &mut Gen) -> String {
    g.budget = 40;
    let mut t = valid_tokens(g);
    g.budget = 300;
    if g.p(1, 3) {
        mutate(g, &mut t, 1);
    }
    for _ in 0..1 + g.c(2) {
        let (s, cut) = long_piece(g);
        let tok = tok_of(&s);
        let i = g.c(t.len() as u32 + 1) as usize;
        if cut {
            t.truncate(i);
            t.push(tok);
            break;
        }
        // in the place of a token like it, or of any token, or between tokens
        let like: Vec<usize> = (0..t.len()).filter(|j| t[*j].k == tok.k).collect();
        match g.c(3) {
            0 if !like.is_empty() => {
                let j = g.pick(&like);
                t[j] = tok;
            }
            1 if i < t.len() => t[i] = tok,
            _ => t.insert(i, tok),
        }
    }
    glued(g, &t)
}
