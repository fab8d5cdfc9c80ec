//! Workload generators: supported journals of many shapes.
use crate::ast::*;
use crate::dec::Dec;
use crate::dict;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Opts {
    pub xacts: (usize, usize),
    pub posts: (usize, usize),
    pub accounts: usize,
    /// 0 plain, 1 wide, 2 deep, 3 confusable, 4 wild, 5 mixed
    pub acct_style: usize,
    pub symbols: usize,
    pub int_digits: usize,
    pub frac_digits: usize,
    pub w_simple: usize,
    pub w_cost_elided: usize,
    pub w_cost: usize,
    pub w_two: usize,
    pub w_many: usize,
    pub w_empty: usize,
    pub elide: usize,
    pub null: usize,
    pub lot: usize,
    pub price: usize,
    pub comment: usize,
    pub note: usize,
    pub odd_format: usize,
    /// few distinct dates, so that prices collide
    pub few_dates: bool,
}

impl Opts {
    pub fn general(rng: &mut Rng) -> Opts {
        let int_digits = rng.range(1, 7);
        let frac_digits = rng.range(0, 11 - int_digits);
        Opts {
            xacts: *rng.pick(&[(0, 3), (1, 6), (3, 12), (10, 30)]),
            posts: *rng.pick(&[(2, 2), (2, 4), (2, 8), (3, 20)]),
            accounts: *rng.pick(&[1, 2, 4, 7, 15, 40]),
            acct_style: rng.below(6),
            symbols: *rng.pick(&[1, 2, 3, 4, 5, 9, 20]),
            int_digits,
            frac_digits,
            w_simple: 10,
            w_cost_elided: 3,
            w_cost: 2,
            w_two: 3,
            w_many: 2,
            w_empty: 1,
            elide: 60,
            null: 15,
            lot: 15,
            price: 15,
            comment: 15,
            note: 15,
            odd_format: 30,
            few_dates: rng.chance(40),
        }
    }
    /// Only plain amounts: more digits available for sums.
    pub fn plain(rng: &mut Rng) -> Opts {
        let mut o = Opts::general(rng);
        o.w_cost_elided = 0;
        o.w_cost = 0;
        o.w_two = 0;
        o.lot = 0;
        o.int_digits = rng.range(1, 17);
        o.frac_digits = rng.range(0, (22 - o.int_digits).min(12));
        o
    }
}

pub struct Universe {
    pub accounts: Vec<String>,
    pub symbols: Vec<String>,
    pub dates: Vec<Date>,
}

const SEGS: &[&str] = &[
    "Assets", "Expenses", "Income", "Liabilities", "Equity", "Cash", "Bank", "Food", "Rent", "Credit Card",
];
const CONFUSABLE: &[&str] = &[
    "A", "a", "AA", "Aa", "aA", "AB", "A B", "A.B", "B", "b", "Asset", "Assets", "assets", "ASSETS", "Assets2", "Assets 2",
    "Asset s", "Ass", "ets",
];
const WILD: &[&str] = &[
    "Müller", "日本", "e\u{301}t", "ét", "x-y", "Mr. T", "O'Neil", "401k", "1", "00", "-dash", "@home", "#tag", "50%", "a=b",
    "\"q\"", "{x}", "z[1]", "Food & Drink", "naïve", "ЖЖ", "a (b)", "$cash", "P", "include", "2023-01-01", "10 EUR", "a/b", "~",
    "🙂", "n\u{a0}b", "ß", "SS", "İ",
];

const SEG_FIRST: &[char] = &[
    'A', 'b', 'Z', '0', '7', '_', '-', '+', '.', ',', '#', '%', '&', '=', '?', '/', '\\', '|', '~', '^', '`', '\'', '"', '@', '$', '{', '}', ')', ']', '>', 'é', 'ß', '日', '€', 'Ж', '\u{2013}', '🙂',
];
const SEG_REST: &[char] = &[
    'A', 'b', 'Z', '0', '7', '_', '-', '+', '.', ',', '#', '%', '&', '=', '?', '/', '\\', '|', '~', '^', '`', '\'', '"', '@', '$', '{', '}', '(', ')', '[', ']', '<', '>', '*', '!', 'é', 'ß', '日', '€', 'Ж', '\u{301}', '\u{200d}', '🙂', ' ',
];

const RANGES: &[(u32, u32)] = &[
    (0xa1, 0x24f), (0x250, 0x36f), (0x370, 0x5ff), (0x660, 0x669), (0x900, 0x97f), (0x200b, 0x200f), (0x2010, 0x2027), (0x2030, 0x205e), (0x2060, 0x2064),
    (0x2070, 0x209c), (0x20a0, 0x20c0), (0x2150, 0x218b), (0x2190, 0x22ff), (0x2460, 0x249b), (0x3041, 0x30ff), (0x4e00, 0x4fff), (0xac00, 0xacff),
    (0xfb00, 0xfb06), (0xfe00, 0xfe0f), (0xfeff, 0xfeff), (0xff01, 0xff5e), (0xfffd, 0xfffd), (0x1d7ce, 0x1d7ff), (0x1f300, 0x1f5ff), (0x10fffd, 0x10fffd),
];

/// Any character outside ASCII that is neither white space nor a control character.
pub fn any_char(rng: &mut Rng) -> char {
    loop {
        let (lo, hi) = *rng.pick(RANGES);
        if let Some(ch) = char::from_u32(rng.range(lo as usize, hi as usize) as u32) {
            if !ch.is_whitespace() && !ch.is_control() {
                return ch;
            }
        }
    }
}

/// One of those, or now and then any other character.
fn pick_char(rng: &mut Rng, of: &[char]) -> char {
    if rng.chance(15) {
        any_char(rng)
    } else {
        *rng.pick(of)
    }
}

/// Any characters that may stand in a name.
fn wild_segment(rng: &mut Rng) -> String {
    let mut s = pick_char(rng, SEG_FIRST).to_string();
    for _ in 0..rng.below(8) {
        let ch = pick_char(rng, SEG_REST);
        if ch == ' ' && s.ends_with(' ') {
            continue;
        }
        s.push(ch);
    }
    s.trim_end().to_string()
}

/// May it stand as a part of an account name?
fn is_segment(w: &str) -> bool {
    !w.starts_with(|c: char| "([<*!; ".contains(c)) && !w.ends_with(' ') && !w.contains(|c: char| c == ':' || c == ';' || c.is_control() || (c.is_whitespace() && c != ' ')) && !w.contains("  ") && w.len() <= 60
}

pub fn segment(rng: &mut Rng, style: usize) -> String {
    if let Some(w) = dict::word(rng, is_segment) {
        return w.to_string();
    }
    if let Some(n) = dict::size(rng, 300, 6) {
        // of that length
        return "Name".chars().cycle().take(n.max(1)).collect();
    }
    let s = match style {
        3 => rng.pick(CONFUSABLE).to_string(),
        4 => rng.pick(WILD).to_string(),
        5 => {
            let k = rng.below(3);
            rng.pick(match k {
                0 => SEGS,
                1 => CONFUSABLE,
                _ => WILD,
            })
            .to_string()
        }
        _ => rng.pick(SEGS).to_string(),
    };
    if style >= 3 && rng.below(12) == 0 {
        return wild_segment(rng);
    }
    if rng.below(120) == 0 {
        // long ones with a common beginning
        let k = *rng.pick(&[7, 8, 15, 16, 24, 32, 33, 64]);
        format!("{}{}", "Long account name ".chars().cycle().take(k).collect::<String>().trim(), rng.pick(&["", "A", "B", "AB", "Z long", "b", "1"]))
    } else if rng.below(400) == 0 {
        // long ones
        format!("{}{}", s.repeat(rng.range(10, 80)), rng.below(30))
    } else if rng.chance(25) {
        format!("{}{}", s, rng.below(30))
    } else {
        s
    }
}

pub fn accounts(rng: &mut Rng, n: usize, style: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut tries = 0;
    // names as a whole
    if let Some(w) = dict::word(rng, |w| w.split(':').all(|s| !s.is_empty() && is_segment(s))) {
        v.push(w.to_string());
    }
    if n > 4 && rng.below(40) == 0 {
        // a deep one, a few of its ancestors, and relatives
        let depth = rng.range(15, 55);
        let parts: Vec<String> = (0..depth).map(|i| if rng.chance(70) { segment(rng, style) } else { format!("L{}", i) }).collect();
        v.push(parts.join(":"));
        for _ in 0..3 {
            let k = rng.range(1, depth);
            let name = parts[..k].join(":");
            let name = if rng.chance(50) { format!("{}:Other", name) } else { name };
            if !v.contains(&name) {
                v.push(name);
            }
        }
    }
    while v.len() < n && tries < n * 20 {
        tries += 1;
        let name = match style {
            1 => format!("{}:{}{}", if rng.chance(80) { "Assets" } else { "Expenses" }, segment(rng, 0), rng.below(n * 2 + 1)),
            2 => {
                // extend an existing chain, or start a new one
                if !v.is_empty() && rng.chance(70) {
                    let k = rng.below(v.len());
                    format!("{}:{}", v[k], segment(rng, 0))
                } else {
                    segment(rng, 0)
                }
            }
            _ => {
                let depth = *rng.pick(&[1, 1, 2, 2, 2, 3, 4, 6]);
                let mut parts = vec![];
                if !v.is_empty() && rng.chance(40) {
                    let k = rng.below(v.len());
                    parts.push(v[k].clone());
                }
                for _ in 0..depth {
                    parts.push(segment(rng, style));
                }
                // spaces next to a colon belong to the name
                let colon = if style >= 3 && rng.chance(8) { *rng.pick(&[" : ", ": ", " :"]) } else { ":" };
                let name = parts.join(colon);
                match rng.below(if style >= 3 { 14 } else { 60 }) {
                    // almost the name of another one
                    0 if !v.is_empty() => {
                        let k = rng.below(v.len());
                        let (head, last) = match v[k].rfind(':') {
                            Some(i) => v[k].split_at(i + 1),
                            None => ("", v[k].as_str()),
                        };
                        let ch = *rng.pick(SEG_FIRST);
                        match rng.below(3) {
                            0 => format!("{}{}{}", head, ch, last),
                            1 => format!("{}{}{}", head, last, ch),
                            _ => format!("{}{}", head, if last.chars().any(|c| c.is_lowercase()) { last.to_uppercase() } else { last.to_lowercase() }),
                        }
                    }
                    _ => name,
                }
            }
        };
        if name.split(':').count() > 60 {
            continue;
        }
        if !v.contains(&name) {
            v.push(name);
        }
    }
    v
}

const SYMS: &[&str] = &[
    "EUR", "USD", "$", "€", "£", "A$", "C$", "eur", "Eur", "EURO", "EU", "E", "\"VECP\"", "BRK.B", "VEUR", "AAPL", "¥", "kg", "h",
    "XÉ", "日", "BTC", "mBTC", "%", "US$", "x", "X", "xx", "VWCE_EX", "R&D", "GLD:US", "e", "P", "VE", "UR", "E_", "#", "*", "=", "!", "(",
];

const SYM_FIRST: &[char] = &['A', 'z', '%', '_', '&', '+', '!', '*', '=', '~', '^', '#', '\'', '?', '<', '|', '€', '日', 'É', '/', ':', '$', '🙂'];
const SYM_REST: &[char] = &[
    'A', 'B', 'z', '%', '_', '.', '&', ':', '/', '+', '!', '*', '=', '~', '^', '#', '\'', '"', '?', '<', '>', '|', '€', 'é', '\u{301}', ')', '(', ',', '$', '`', '\\', '日',
];

/// May it stand as a symbol?
fn is_symbol(w: &str) -> bool {
    w.starts_with(|c: char| c.is_alphabetic() || SYM_FIRST.contains(&c)) && w.chars().all(|c| c.is_alphabetic() || SYM_REST.contains(&c)) && w.len() <= 40
}

pub fn symbols(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = if let Some(w) = dict::word(rng, is_symbol) {
            w.to_string()
        } else if let Some(k) = dict::size(rng, 200, 5) {
            "SYMBOL".chars().cycle().take(k.max(1)).collect()
        } else if rng.chance(8) {
            // whatever a symbol may consist of, short and long
            let mut s = pick_char(rng, SYM_FIRST).to_string();
            let k = if rng.chance(70) { rng.below(5) } else { rng.range(5, 40) };
            for _ in 0..k {
                s.push(pick_char(rng, SYM_REST));
            }
            s
        } else if rng.below(40) == 0 {
            // long with a common beginning
            let k = *rng.pick(&[7, 8, 12, 16, 20, 24, 31, 32, 33, 64]);
            format!("{}{}", "LONGSYMBOL".chars().cycle().take(k).collect::<String>(), rng.pick(&["", "A", "B", "AB", "a"]))
        } else if rng.chance(if n > 30 { 15 } else { 75 }) {
            // "(" and "*" only where nothing else could be meant; keep to symbols
            rng.pick(&SYMS[..SYMS.len() - 5]).to_string()
        } else {
            let k = rng.range(1, 4);
            let mut s = String::new();
            for _ in 0..k {
                s.push(*rng.pick(&['A', 'B', 'C', 'D', 'E', 'R', 'U', 'S', 'a', 'b', 'c', 'é']));
            }
            s
        };
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

pub fn date(rng: &mut Rng) -> Date {
    let y = match rng.below(20) {
        0 => rng.range(1, 1899),
        1 => rng.range(2036, 9999),
        2 => *rng.pick(&[1900, 2000, 2100, 1970, 1969, 9999, 1, 2038, 1999]),
        _ => rng.range(1990, 2035),
    } as u32;
    let part = |rng: &mut Rng, lo: u32, hi: u32| dict::number(rng, 40).and_then(|n| n.parse::<u32>().ok()).filter(|n| (lo..=hi).contains(n));
    let y = part(rng, 1, 9999).unwrap_or(y);
    let m = rng.range(1, 12) as u32;
    let m = part(rng, 1, 12).unwrap_or(m);
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let last = match m {
        2 => 28 + leap as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let d = if rng.chance(15) { *rng.pick(&[1, last]) } else { rng.range(1, last as usize) as u32 };
    let d = part(rng, 1, last).unwrap_or(d);
    Date { y, m, d, bare: rng.below(25) == 0 }
}

pub fn universe(rng: &mut Rng, o: &Opts) -> Universe {
    let mut dates: Vec<Date> = vec![];
    for _ in 0..if o.few_dates { 3 } else { 40 } {
        dates.push(date(rng));
    }
    Universe {
        accounts: accounts(rng, o.accounts.max(1), o.acct_style),
        symbols: symbols(rng, o.symbols.max(1)),
        dates,
    }
}

/// A number literal of at most `i` integer and `f` fraction digits.
pub fn num(rng: &mut Rng, i: usize, f: usize, negative: bool) -> String {
    let mut s = String::new();
    if negative {
        s.push('-');
    }
    if let Some(n) = dict::number(rng, 15) {
        // as it stands, or as decimals
        let (a, b) = n.split_once('.').unwrap_or((n, ""));
        if a.len() <= i && b.len() <= f {
            return s + n;
        }
        if b.is_empty() && a.len() <= f {
            return format!("{}{}.{}", s, rng.below(2), a);
        }
    }
    match rng.below(20) {
        0 => {
            s += "0";
            return s;
        }
        1 if f >= 2 => {
            s += "0.00";
            return s;
        }
        2 if f >= 1 => {
            // no integer part
            s.push('.');
            for _ in 0..rng.range(1, f) {
                s.push(digit(rng));
            }
            return s;
        }
        3 => {
            // nothing after the point
            s += &digits(rng, i);
            s.push('.');
            return s;
        }
        4 => s += "00",
        _ => {}
    }
    s += &digits(rng, i);
    if f > 0 && rng.chance(60) {
        s.push('.');
        for _ in 0..rng.range(1, f) {
            s.push(digit(rng));
        }
    }
    s
}

fn digit(rng: &mut Rng) -> char {
    (b'0' + rng.below(10) as u8) as char
}

fn digits(rng: &mut Rng, i: usize) -> String {
    if let Some(n) = dict::number(rng, 8) {
        if !n.contains('.') && n.len() <= i {
            return n.to_string();
        }
    }
    let n = rng.range(1, i.max(1));
    let mut s = String::new();
    s.push((b'1' + rng.below(9) as u8) as char);
    for _ in 1..n {
        s.push(digit(rng));
    }
    s
}

pub fn amt(rng: &mut Rng, num: String, sym: &str) -> Amt {
    let mut prefix = !sym.is_empty() && rng.chance(40);
    let mut gap = rng.below(3);
    if rng.chance(50) {
        prefix = false;
        gap = 1;
    }
    // "$.5" would not be a symbol followed by a number
    if prefix && num.starts_with('.') && gap == 0 {
        gap = 1;
    }
    // "5." + symbol "..." is fine, but keep a symbol that starts with a dot or comma away
    if !prefix && gap == 0 && (sym.starts_with('.') || sym.starts_with(',')) {
        gap = 1;
    }
    Amt { num, sym: sym.to_string(), prefix, gap }
}

const WORDS: &[&str] = &[
    "Supermarket", "Shop", "payee", "Ünï", "日本", "a;b", "x = y", "10 EUR", "@", "{20}", "note", "#1", "Mc'D", "-", "2023-01-01",
    "key: value", ":tag:", "100%", "…", "P", "; deep", "\"quoted\"", "A  B", "=", "[2023-01-01]", "*", "!", "(x)", "🙂",
    ";", "| bar", "a,b", "\\", "~", "include", "5", "a:b", "; ;", "<x>", "e\u{301}", "a\tb", "a\rb", "x\u{1}y", "\u{1b}[1m", "a\u{a0}b", "a\u{2028}b", "a \t b",
];

pub fn text(rng: &mut Rng) -> String {
    let n = rng.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match dict::word(rng, |w| !w.contains(char::is_control) && w.trim() == w) {
            Some(w) => w,
            None => *rng.pick(WORDS),
        });
    }
    if let Some(k) = dict::size(rng, 400, 5) {
        // of that many characters
        return "Text of some length. ".chars().cycle().take(k.max(1)).collect::<String>().trim().to_string();
    }
    if rng.below(1500) == 0 {
        // longer than any buffer
        let k = *rng.pick(&[30, 300, 1000, 2000]);
        for _ in 0..k {
            v.push(*rng.pick(WORDS));
        }
    }
    let mut s = v[0].to_string();
    for w in &v[1..] {
        s += if rng.chance(90) { " " } else { "  " };
        s += w;
    }
    if rng.below(25) == 0 {
        // any characters
        for _ in 0..rng.range(1, 6) {
            let at = rng.below(s.chars().count() + 1);
            let at = s.char_indices().nth(at).map_or(s.len(), |(i, _)| i);
            s.insert(at, any_char(rng));
        }
    }
    s
}

/// Something that can stand as a payee: no note separator in it, and not starting like a state or a code.
pub fn payee(rng: &mut Rng) -> String {
    loop {
        let t = text(rng);
        if t.contains("  ;") || t.starts_with(|c| "*!(;".contains(c)) {
            continue;
        }
        return t;
    }
}

pub fn note(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1 => "   ".to_string(),
        2 => format!("{}  ", text(rng)),
        3 => text(rng),
        4 => format!("; {}", text(rng)),
        5 => format!(" {}  ; {}", text(rng), text(rng)),
        _ => format!(" {}", text(rng)),
    }
}

fn spaces(rng: &mut Rng, lo: usize, hi: usize) -> String {
    " ".repeat(rng.range(lo, hi))
}

fn blank_post(rng: &mut Rng, o: &Opts, u: &Universe) -> PostA {
    let odd = rng.chance(o.odd_format);
    PostA {
        indent: if odd { spaces(rng, 1, 8) } else { "    ".into() },
        account: rng.pick(&u.accounts).clone(),
        sep: if odd { spaces(rng, 2, 20) } else { "  ".into() },
        amt: None,
        lot_price: None,
        lot_date: None,
        lot_date_first: false,
        cost: None,
        eol_note: if rng.chance(o.note) { Some(note(rng)) } else { None },
        tight_note: rng.chance(50),
        trail: if odd && rng.chance(30) { spaces(rng, 1, 4) } else { String::new() },
        comments: comments(rng, o),
    }
}

fn comments(rng: &mut Rng, o: &Opts) -> Vec<String> {
    if rng.chance(o.note) {
        let n = dict::size(rng, 100, 10).unwrap_or_else(|| rng.range(1, 3));
        (0..n).map(|_| note(rng)).collect()
    } else {
        vec![]
    }
}

fn put_amount(rng: &mut Rng, o: &Opts, u: &Universe, p: &mut PostA, num: String, sym: &str) {
    let a = amt(rng, num, sym);
    p.amt = Some(a);
    if !sym.is_empty() && rng.chance(o.lot) {
        // lot price in another commodity, lot date, or both
        let k = rng.below(3);
        if k != 1 {
            let ls = rng.pick(&u.symbols).clone();
            if ls != sym {
                let n = self::num(rng, 4, o.frac_digits.min(3), false);
                p.lot_price = Some(amt(rng, n, &ls));
            }
        }
        if k != 0 {
            p.lot_date = Some(rng.pick(&u.dates).clone());
        }
        p.lot_date_first = rng.chance(50);
    }
}

fn put_cost(rng: &mut Rng, o: &Opts, p: &mut PostA, csym: &str) {
    let neg = rng.chance(5);
    let n = num(rng, o.int_digits, o.frac_digits, neg);
    let a = amt(rng, n, csym);
    p.cost = Some(Cost {
        per_unit: rng.chance(60),
        amt: a,
        before: *rng.pick(&[1, 1, 1, 0, 2]),
        after: *rng.pick(&[1, 1, 1, 0, 2]),
    });
    // "10 @5" needs the symbol to end somewhere: a symbol or a space does that
}

fn pick_other<'a>(rng: &mut Rng, syms: &'a [String], not: &str) -> Option<&'a String> {
    let v: Vec<&String> = syms.iter().filter(|s| s.as_str() != not).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[rng.below(v.len())])
    }
}

pub fn xact(rng: &mut Rng, o: &Opts, u: &Universe) -> XactA {
    let odd = rng.chance(o.odd_format);
    let day = rng.pick(&u.dates).clone();
    let mut x = XactA {
        date: day.clone(),
        aux: if rng.chance(20) { Some(if rng.chance(15) { day.clone() } else { date(rng) }) } else { None },
        payee: if rng.chance(92) { Some(payee(rng)) } else { None },
        hnote: if rng.chance(o.note) { Some(note(rng)) } else { None },
        lead: if odd { rng.below(4) } else { 0 },
        trail: if odd && rng.chance(30) { spaces(rng, 1, 3) } else { String::new() },
        comments: comments(rng, o),
        posts: vec![],
        end_spaces: if odd && rng.chance(30) { rng.range(1, 5) } else { 0 },
        blanks: if odd { rng.below(3) } else { 0 },
    };
    let total = o.w_simple + o.w_cost_elided + o.w_cost + o.w_two + o.w_many + o.w_empty;
    let mut k = rng.below(total.max(1));
    let n = rng.range(o.posts.0.max(2), o.posts.1.max(2));
    let n = dict::size(rng, 300, 2).filter(|n| *n >= o.posts.0.max(2)).unwrap_or(n);
    let two_syms = u.symbols.len() >= 2;
    let mut kind = 0;
    for (i, w) in [o.w_simple, o.w_cost_elided, o.w_cost, o.w_two, o.w_many, o.w_empty].iter().enumerate() {
        if k < *w {
            kind = i;
            break;
        }
        k -= w;
    }
    if !two_syms && (1..=4).contains(&kind) {
        kind = 0;
    }
    if kind == 4 && u.symbols.len() < 3 {
        kind = 0;
    }
    match kind {
        5 => return x,
        // one commodity
        0 => {
            let sym = if rng.chance(o.null) { String::new() } else { rng.pick(&u.symbols).clone() };
            let special = rng.chance(o.elide);
            let at = rng.below(n);
            let bias = rng.below(3);
            let mut sum = Dec::ZERO;
            for i in 0..n {
                let mut p = blank_post(rng, o, u);
                if !(special && i == at) {
                    let neg = match bias {
                        0 => rng.chance(50),
                        1 => true,
                        _ => false,
                    };
                    if !special && i == n - 1 && rng.chance(90) {
                        put_amount(rng, o, u, &mut p, sum.neg().to_string(), &sym);
                    } else {
                        let l = num(rng, o.int_digits, o.frac_digits, neg);
                        sum = sum.add(Dec::parse(&l).unwrap());
                        put_amount(rng, o, u, &mut p, l, &sym);
                    }
                }
                x.posts.push(p);
            }
        }
        // costs, with one amount missing
        1 => {
            let csym = rng.pick(&u.symbols).clone();
            let at = rng.below(n);
            for i in 0..n {
                let mut p = blank_post(rng, o, u);
                if i != at {
                    let neg = rng.chance(50);
                    let l = num(rng, o.int_digits, o.frac_digits, neg);
                    if rng.chance(60) {
                        let s = pick_other(rng, &u.symbols, &csym).unwrap().clone();
                        put_amount(rng, o, u, &mut p, l, &s);
                        put_cost(rng, o, &mut p, &csym);
                    } else {
                        put_amount(rng, o, u, &mut p, l, &csym);
                    }
                }
                x.posts.push(p);
            }
        }
        // costs, all amounts written
        2 => {
            for _ in 0..n {
                let mut p = blank_post(rng, o, u);
                let neg = rng.chance(50);
                let l = num(rng, o.int_digits, o.frac_digits, neg);
                let s = rng.pick(&u.symbols).clone();
                put_amount(rng, o, u, &mut p, l, &s);
                if rng.chance(60) {
                    let c = pick_other(rng, &u.symbols, &s).unwrap().clone();
                    put_cost(rng, o, &mut p, &c);
                }
                x.posts.push(p);
            }
            if x.posts.iter().all(|p| p.cost.is_none()) {
                let s = x.posts[0].amt.as_ref().unwrap().sym.clone();
                let c = pick_other(rng, &u.symbols, &s).unwrap().clone();
                put_cost(rng, o, &mut x.posts[0], &c);
            }
        }
        // two commodities
        3 => {
            let a = rng.pick(&u.symbols).clone();
            let b = pick_other(rng, &u.symbols, &a).unwrap().clone();
            let opposite = rng.chance(80);
            for i in 0..n {
                let mut p = blank_post(rng, o, u);
                let first = if i == 0 {
                    true
                } else if i == n - 1 {
                    false
                } else {
                    rng.chance(50)
                };
                let neg = if opposite { first } else { rng.chance(50) };
                let l = num(rng, o.int_digits, o.frac_digits, neg);
                put_amount(rng, o, u, &mut p, l, if first { &a } else { &b });
                x.posts.push(p);
            }
            if rng.chance(30) {
                rng.shuffle(&mut x.posts);
            }
            if rng.chance(12) {
                // make the second commodity (or the first) sum up to zero
                let target = if rng.chance(50) { &a } else { &b };
                let mut sum = Dec::ZERO;
                for p in &x.posts {
                    let m = p.amt.as_ref().unwrap();
                    if &m.sym == target {
                        sum = sum.add(m.value());
                    }
                }
                let mut p = blank_post(rng, o, u);
                put_amount(rng, o, u, &mut p, sum.neg().to_string(), target);
                x.posts.push(p);
            }
        }
        // three or more commodities
        _ => {
            let mut syms = u.symbols.clone();
            rng.shuffle(&mut syms);
            let m = rng.range(3, syms.len().min(8));
            let mut syms: Vec<String> = syms[..m].to_vec();
            if m > 3 && rng.chance(o.null) {
                syms[0] = String::new();
            }
            for i in 0..n.max(m) {
                let mut p = blank_post(rng, o, u);
                let neg = rng.chance(50);
                let l = num(rng, o.int_digits, o.frac_digits, neg);
                let s = if i < m { syms[i].clone() } else { rng.pick(&syms).clone() };
                put_amount(rng, o, u, &mut p, l, &s);
                x.posts.push(p);
            }
        }
    }
    x
}

/// A time of day; now and then the first or last second, or a leap second.
pub fn time(rng: &mut Rng) -> (u32, u32, u32) {
    let part = |rng: &mut Rng, hi: u32| dict::number(rng, 40).and_then(|n| n.parse::<u32>().ok()).filter(|n| *n < hi).unwrap_or_else(|| rng.below(hi as usize) as u32);
    if rng.below(4) == 0 {
        return (part(rng, 24), part(rng, 60), part(rng, 60));
    }
    match rng.below(40) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        2 => (23, 59, 60),
        _ => (rng.below(24) as u32, rng.below(60) as u32, rng.below(60) as u32),
    }
}

/// A number of up to `d` significant digits with `s` decimals.
pub fn sized(rng: &mut Rng, d: usize, s: usize) -> String {
    let mut t: String = (0..d).map(|_| digit(rng)).collect();
    if let Some(n) = dict::number(rng, 20) {
        let n = n.replace('.', "");
        if n.len() <= d {
            t = n;
        }
    }
    if rng.chance(10) {
        t = "9".repeat(d);
    }
    while t.len() <= s {
        t.insert(0, '0');
    }
    if s > 0 {
        t.insert(t.len() - s, '.');
    }
    if rng.chance(50) {
        t.insert(0, '-');
    }
    t
}

/// The number with one of its last digits changed, or the same with another scale.
pub fn neighbour(rng: &mut Rng, x: &str) -> String {
    let mut v: Vec<u8> = x.bytes().collect();
    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
    match rng.below(6) {
        0 => x.to_string(),
        1 if x.contains('.') && x.ends_with('0') => x[..x.len() - 1].trim_end_matches('.').to_string(),
        _ => {
            let i = at[at.len() - 1 - rng.below(at.len().min(4))];
            v[i] = if v[i] == b'9' { b'8' } else { v[i] + 1 };
            String::from_utf8(v).unwrap()
        }
    }
}

pub fn price(rng: &mut Rng, o: &Opts, u: &Universe) -> Option<PriceA> {
    let a = rng.pick(&u.symbols).clone();
    let b = pick_other(rng, &u.symbols, &a)?.clone();
    let neg = rng.chance(4);
    Some(PriceA {
        date: rng.pick(&u.dates).clone(),
        time: if rng.chance(50) {
            if o.few_dates && rng.chance(50) {
                Some((0, 0, rng.below(2) as u32))
            } else {
                Some(time(rng))
            }
        } else {
            None
        },
        sym: a,
        num: num(rng, o.int_digits, o.frac_digits, neg),
        psym: b,
        sep: if rng.chance(80) { " ".into() } else { rng.pick(&["  ", "\t", "   "]).to_string() },
        trail: if rng.chance(15) { " ".into() } else { String::new() },
    })
}

/// A number of up to 28 digits.
pub fn fine_num(rng: &mut Rng) -> String {
    let n = rng.range(1, 28);
    let digits: String = (0..n).map(|_| char::from(b'0' + rng.below(10) as u8)).collect();
    let cut = rng.below(n + 1);
    let (a, b) = digits.split_at(cut);
    let a = a.trim_start_matches('0');
    let a = if a.is_empty() { "0" } else { a };
    if b.is_empty() {
        a.to_string()
    } else {
        format!("{}.{}", a, b)
    }
}

pub fn line_comment(rng: &mut Rng) -> String {
    if let Some(w) = dict::word(rng, |w| !w.contains(char::is_control)) {
        // all of the line
        return if w.starts_with([';', '#', '*', '|']) { w.to_string() } else { format!("{}{}", rng.pick(&[";", "#", "*", "|"]), w) };
    }
    format!("{}{}", rng.pick(&[";", "#", "*", "|", "; ", "# "]), text(rng))
}

pub fn journal(rng: &mut Rng, o: &Opts) -> (Vec<Entry>, Universe) {
    let u = universe(rng, o);
    let mut e = entries(rng, o, &u);
    if rng.below(30) == 0 {
        fit(rng, &mut e);
    }
    (e, u)
}

/// Makes some line exactly as long as it takes to meet a boundary.
pub fn fit(rng: &mut Rng, e: &mut [Entry]) {
    let xacts: Vec<usize> = e.iter().enumerate().filter(|(_, x)| matches!(x, Entry::Xact(_))).map(|(i, _)| i).collect();
    if xacts.is_empty() {
        return;
    }
    let k = if rng.chance(50) { xacts[xacts.len() - 1] } else { *rng.pick(&xacts) };
    let Entry::Xact(x) = &mut e[k] else { return };
    if x.posts.is_empty() {
        return;
    }
    let most = if rng.chance(15) { 17000 } else { 1100 };
    let len = loop {
        let n = match dict::size(rng, most, 50) {
            Some(n) => n,
            None => match rng.below(4) {
                0 => *rng.pick(&[32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384]),
                1 => *rng.pick(&[79, 80, 100, 120, 200, 250, 500, 1000, 2000, 4000, 10000]),
                2 => rng.range(1, 70) * 16,
                _ => rng.range(20, 700),
            },
        };
        if n <= most {
            break n;
        }
    };
    // with the line end, without it, or around
    let len = (len + rng.below(2)).saturating_sub(rng.below(3));
    let pad = |now: usize| "Fitting text; ".replace(';', "").chars().cycle().take(len.saturating_sub(now)).collect::<String>().trim_end().to_string();
    let pad = |now: usize| {
        let p = pad(now);
        let short = len.saturating_sub(now).saturating_sub(p.len());
        p + &"x".repeat(short)
    };
    let what = rng.below(6);
    if what == 0 && x.payee.is_some() && x.hnote.is_none() {
        let now = crate::ast::render_header(x).trim_end().len();
        x.trail = String::new();
        x.payee.as_mut().unwrap().push_str(&pad(now));
    } else if what == 1 {
        x.comments.push(pad(5));
    } else if what <= 3 {
        let i = rng.below(x.posts.len());
        let p = &mut x.posts[i];
        p.comments.push(pad(5));
    } else {
        let Some(p) = x.posts.last_mut() else { return };
        if what == 4 && p.amt.is_none() && p.eol_note.is_none() {
            let now = crate::ast::render_post(p).trim_end().len();
            p.trail = String::new();
            p.account.push_str(&pad(now));
        } else {
            p.comments.push(pad(5));
        }
    }
}

pub fn entries(rng: &mut Rng, o: &Opts, u: &Universe) -> Vec<Entry> {
    let n = rng.range(o.xacts.0, o.xacts.1);
    let n = dict::size(rng, 600, 4).unwrap_or(n);
    let mut v = vec![];
    for _ in 0..n {
        while rng.chance(o.comment) {
            v.push(Entry::Comment(line_comment(rng)));
        }
        if rng.chance(o.odd_format / 3) {
            v.push(Entry::Blank);
        }
        while rng.chance(o.price) {
            match price(rng, o, u) {
                Some(p) => v.push(Entry::Price(p)),
                None => break,
            }
        }
        v.push(Entry::Xact(xact(rng, o, u)));
    }
    if rng.chance(o.price) {
        if let Some(p) = price(rng, o, u) {
            v.push(Entry::Price(p));
        }
    }
    v
}
