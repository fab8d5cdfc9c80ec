//! Well-formed entries with one thing wrong.
use crate::ast::*;
use crate::gen;
use crate::rng::Rng;

/// Made of the characters of numbers, and not numbers.
const BAD: &[&str] = &[
    "1,000", "1.2.3", "--5", "5-", "1-2", "-", "-.", "1..2", "3,5", "1,000.00", "-1-", "5.-", "0-0", "-,", "12,", "1.,2", "7--", "-5-5",
    "99999999999999999999999999999999", "79228162514264337593543950336", "-79228162514264337593543950336", "0.00000000000000000000000000001",
    "123456789012345678901234567890.5", "-1.00000000000000000000000000001",
];

/// Have no business within a number or a date, seen or unseen.
const STRAY: &[char] = &['\0', '\u{1}', '\u{8}', '\u{b7}', '\u{7f}', '\u{ad}', '\u{200b}', '\u{200d}', '\u{2060}', '\u{feff}', '\u{660}', '\u{ff12}', '\u{2212}', 'x', 'e', 'E', '\'', '"', '\u{301}'];

fn with_stray(rng: &mut Rng, good: &str) -> Option<String> {
    let b = good.as_bytes();
    let v: Vec<usize> = (1..b.len()).filter(|i| b[i - 1].is_ascii_digit() && b[*i].is_ascii_digit()).collect();
    if v.is_empty() {
        return None;
    }
    let mut s = good.to_string();
    s.insert(*rng.pick(&v), *rng.pick(STRAY));
    Some(s)
}

fn bad_number(rng: &mut Rng, good: &str) -> String {
    let digits = good.chars().filter(|c| c.is_ascii_digit()).count();
    if rng.chance(12) {
        if let Some(s) = with_stray(rng, good) {
            return s;
        }
    }
    match rng.below(6) {
        // something added to a good one
        0 if digits > 0 => format!("{}-", good),
        1 if digits > 0 => format!("{},{}", good, rng.below(10)),
        2 if digits > 0 && good.contains('.') => format!("{}.{}", good, rng.below(10)),
        3 if digits > 0 => format!("-{}{}", if good.starts_with('-') { "" } else { "-" }, good),
        _ => rng.pick(BAD).to_string(),
    }
}

pub fn bad_date(rng: &mut Rng, d: &Date) -> String {
    let y = d.y;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    if rng.chance(8) {
        if let Some(s) = with_stray(rng, &d.iso()) {
            return s;
        }
    }
    match rng.below(12) {
        0 => format!("{:04}-{:02}-{:02}", y, rng.range(13, 99), d.d),
        1 => format!("{:04}-00-{:02}", y, d.d),
        2 => format!("{:04}-{:02}-00", y, d.m),
        3 => format!("{:04}-{:02}-{}", y, d.m, rng.range(32, 99)),
        4 => format!("{:04}-02-{}", y, if leap { 30 } else { rng.range(29, 31) }),
        5 => format!("{:04}-{:02}-31", y, rng.pick(&[4, 6, 9, 11])),
        6 => format!("{}{}", d.iso(), rng.pick(&["x", "0", "-", "-01", ".", ",", ":", "T12", "/"])),
        7 => {
            let r = *rng.pick(&["/", ".", "", "--", "_", ","]);
            d.iso().replace('-', r)
        }
        8 => format!("{:04}-{:02}", y, d.m),
        9 => format!("{:04}-{:02}-", y, d.m),
        10 => format!("{:04}", y),
        _ => format!("{:04}-{}-{:02}", y, rng.pick(&["Jan", "x", "1x", "0x1", "+", ""]), d.d),
    }
}

fn put_number(rng: &mut Rng, a: &mut Amt) {
    a.num = bad_number(rng, &a.num);
}

/// The lines of the transaction, with the header or one line replaced.
fn lines(x: &XactA) -> Vec<String> {
    let mut v = entry_lines(&Entry::Xact(x.clone()));
    v.truncate(v.len() - 1 - x.blanks);
    v
}

/// Where the posting stands among the lines.
fn line_of(x: &XactA, k: usize) -> usize {
    1 + x.comments.len() + x.posts[..k].iter().map(|p| 1 + p.comments.len()).sum::<usize>()
}

/// The transaction with one thing wrong, and what that is.
pub fn xact(rng: &mut Rng, x: &XactA) -> Option<(String, &'static str)> {
    let mut x = x.clone();
    let with_amount: Vec<usize> = (0..x.posts.len()).filter(|i| x.posts[*i].amt.is_some()).collect();
    let done = |v: Vec<String>, what: &'static str| Some((v.join("\n") + "\n", what));
    if x.posts.len() < 2 {
        return None;
    }
    let pick = |rng: &mut Rng, f: &dyn Fn(&PostA) -> bool, x: &XactA| -> Option<usize> {
        let v: Vec<usize> = (0..x.posts.len()).filter(|i| f(&x.posts[*i])).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[rng.below(v.len())])
        }
    };
    match rng.below(18) {
        17 => {
            // accounts without names
            let k = pick(rng, &|p| !p.account.trim().is_empty(), &x)?;
            x.posts[k].account = crate::api::hollow(rng, &x.posts[k].account);
            done(lines(&x), "an account name with an empty part")
        }
        16 => {
            // one posting alone
            let k = pick(rng, &|_| true, &x)?;
            x.posts = vec![x.posts[k].clone()];
            done(lines(&x), "a single posting")
        }
        0 => {
            let b = bad_date(rng, &x.date);
            let mut v = lines(&x);
            v[0] = format!("{}{}", b, &v[0][x.date.written().len()..]);
            done(v, "an impossible date")
        }
        1 => {
            let d = gen::date(rng);
            x.aux = Some(d.clone());
            let b = match rng.below(4) {
                0 => rng.pick(&["", "=2023-01-01", "x"]).to_string(),
                _ => bad_date(rng, &d),
            };
            let mut v = lines(&x);
            let from = x.date.written().len() + 1;
            v[0] = format!("{}{}{}", &v[0][..from], b, &v[0][from + d.written().len()..]);
            done(v, "an impossible auxiliary date")
        }
        2 | 3 => {
            let k = pick(rng, &|p| p.amt.is_some(), &x)?;
            put_number(rng, x.posts[k].amt.as_mut().unwrap());
            done(lines(&x), "an unreadable number")
        }
        4 => {
            let k = pick(rng, &|p| p.amt.is_some() && p.cost.is_some(), &x)?;
            put_number(rng, &mut x.posts[k].cost.as_mut().unwrap().amt);
            done(lines(&x), "an unreadable number in a cost")
        }
        5 => {
            let k = pick(rng, &|p| p.amt.is_some() && p.lot_price.is_some(), &x)?;
            put_number(rng, x.posts[k].lot_price.as_mut().unwrap());
            done(lines(&x), "an unreadable number in a lot price")
        }
        6 => {
            // a symbol alone
            let k = pick(rng, &|p| p.amt.as_ref().map_or(false, |a| !a.sym.is_empty()), &x)?;
            x.posts[k].amt.as_mut().unwrap().num.clear();
            done(lines(&x), "a symbol without a number")
        }
        7 | 8 => {
            // missing amounts
            let missing = x.posts.len() - with_amount.len();
            let mut v = with_amount.clone();
            rng.shuffle(&mut v);
            let least = 2 - missing.min(2);
            if v.len() < least {
                return None;
            }
            let n = rng.range(least.max(1), v.len().max(1)).min(v.len());
            for k in &v[..n] {
                x.posts[*k].amt = None;
                x.posts[*k].cost = None;
            }
            done(lines(&x), "more than one missing amount")
        }
        9 => {
            let k = pick(rng, &|p| p.amt.as_ref().map_or(false, |a| !a.sym.is_empty()) && p.cost.is_some(), &x)?;
            let s = x.posts[k].amt.as_ref().unwrap().sym.clone();
            x.posts[k].cost.as_mut().unwrap().amt.sym = s;
            done(lines(&x), "a cost in the posting's own commodity")
        }
        10 => {
            // a lot that is not closed
            let k = pick(rng, &|p| p.amt.as_ref().map_or(false, |a| !a.sym.is_empty()), &x)?;
            let p = &mut x.posts[k];
            p.eol_note = None;
            if p.lot_price.is_none() && p.lot_date.is_none() {
                p.lot_date = Some(gen::date(rng));
            }
            let price = p.lot_price.is_some() && (p.lot_date.is_none() || rng.chance(50));
            let mut v = lines(&x);
            let i = line_of(&x, k);
            let at = v[i].rfind(if price { '}' } else { ']' })?;
            v[i].remove(at);
            if v[i].contains(if price { '}' } else { ']' }) && !v[i].rfind(if price { '}' } else { ']' }).map_or(false, |c| c < at && v[i][..c].len() < x.posts[k].indent.len() + x.posts[k].account.len()) {
                return None;
            }
            done(v, "an unclosed lot annotation")
        }
        11 => {
            // a lot twice
            let k = pick(rng, &|p| p.amt.is_some() && (p.lot_price.is_some() || p.lot_date.is_some()), &x)?;
            let p = &x.posts[k];
            let again = match &p.lot_price {
                Some(l) if p.lot_date.is_none() || rng.chance(50) => format!(" {{{}}}", l.render()),
                _ => format!(" [{}]", gen::date(rng).iso()),
            };
            let mut q = p.clone();
            q.cost = None;
            q.eol_note = None;
            q.trail.clear();
            let from = render_post(&q).len();
            let i = line_of(&x, k);
            let mut v = lines(&x);
            v[i].insert_str(from, &again);
            done(v, "a doubled lot annotation")
        }
        12 => {
            let k = pick(rng, &|p| p.amt.is_some() && p.lot_date.is_some(), &x)?;
            let p = &x.posts[k];
            let d = p.lot_date.clone().unwrap();
            let i = line_of(&x, k);
            let mut v = lines(&x);
            let good = format!("[{}]", d.written());
            let at = p.indent.len() + p.account.len();
            let at = at + v[i][at..].find(&good)?;
            v[i].replace_range(at..at + good.len(), &format!("[{}]", bad_date(rng, &d)));
            done(v, "an impossible lot date")
        }
        13 => {
            // a cost of nothing
            let k = pick(rng, &|p| p.amt.as_ref().map_or(false, |a| !a.sym.is_empty()) && p.cost.is_some(), &x)?;
            let p = &mut x.posts[k];
            let c = p.cost.as_mut().unwrap();
            c.amt.num.clear();
            if rng.chance(60) {
                c.amt.sym.clear();
            }
            done(lines(&x), "a cost without a number")
        }
        14 => {
            // a cost on nothing
            let k = pick(rng, &|p| p.cost.is_some(), &x)?;
            let p = &mut x.posts[k];
            let c = p.cost.take().unwrap();
            p.lot_price = None;
            p.lot_date = None;
            p.amt = Some(Amt { num: format!("{} {}", if c.per_unit { "@" } else { "@@" }, c.amt.render()), sym: String::new(), prefix: false, gap: 0 });
            if p.sep.len() < 2 {
                return None;
            }
            done(lines(&x), "a cost without an amount")
        }
        _ => {
            // more than belongs there
            let k = pick(rng, &|p| p.amt.as_ref().map_or(false, |a| !a.sym.is_empty()) && p.cost.as_ref().map_or(true, |c| !c.amt.sym.is_empty()), &x)?;
            let p = &x.posts[k];
            let mut q = p.clone();
            q.eol_note = None;
            q.trail.clear();
            let from = render_post(&q).len();
            let i = line_of(&x, k);
            let mut v = lines(&x);
            let more = *rng.pick(&["7 USD", "EUR", "5", "x", "-", "= 5", "(x)", "-5 EUR", "\"", "/ 3", "* 2", "{", "}", "]", ")"]);
            v[i].insert_str(from, &format!(" {}", more));
            done(v, "more than an amount")
        }
    }
}

/// A price directive with one thing wrong.
pub fn price(rng: &mut Rng, p: &PriceA) -> (String, &'static str) {
    let mut p = p.clone();
    p.trail.clear();
    let t = entry_lines(&Entry::Price(p.clone())).remove(0);
    let time = match p.time {
        Some((h, m, s)) => format!("{}{:02}:{:02}:{:02}", p.sep, h, m, s),
        None => String::new(),
    };
    let text = match rng.below(6) {
        0 => format!("P{}{}{}", p.sep, bad_date(rng, &p.date), &t[1 + p.sep.len() + p.date.written().len()..]),
        1 => {
            let (h, m, s) = (rng.below(24), rng.below(60), rng.below(60));
            let bad = match rng.below(6) {
                0 => format!("{:02}:{:02}:{:02}", rng.range(24, 99), m, s),
                1 => format!("{:02}:{:02}:{:02}", h, rng.range(60, 99), s),
                2 => format!("{:02}:{:02}:{:02}", h, m, rng.range(61, 99)),
                3 => format!("{:02}:{:02}", h, m),
                4 => format!("{:02}:{:02}:{:02}{}", h, m, s, rng.pick(&["x", ":", "Z", ".5", "0", "am"])),
                _ => format!("{:02}{}{:02}{}{:02}", h, rng.pick(&[".", "-", "", "::"]), m, rng.pick(&[":", "."]), s),
            };
            format!("P{0}{1}{0}{2}{0}{3}{0}{4}{0}{5}", p.sep, p.date.written(), bad, p.sym, p.num, p.psym)
        }
        2 | 3 => format!("P{0}{1}{2}{0}{3}{0}{4}{0}{5}", p.sep, p.date.written(), time, p.sym, bad_number(rng, &p.num), p.psym),
        4 => format!("P{0}{1}{2}{0}{3}{0}{4}", p.sep, p.date.written(), time, p.sym, p.num),
        _ => format!("{}{}{}", t, p.sep, rng.pick(&["5", "EUR", "x", "@ 3 EUR", "-", "2 USD", "{1 EUR}", "="])),
    };
    (text + "\n", "a price that cannot be read")
}

/// A line that begins nothing that can be loaded.
pub fn stray(rng: &mut Rng, o: &gen::Opts, u: &gen::Universe) -> (String, &'static str) {
    let sym = rng.pick(&u.symbols).clone();
    let price = gen::price(rng, o, u).map(|p| entry_lines(&Entry::Price(PriceA { trail: String::new(), ..p })).remove(0)[1..].trim().to_string());
    let body = match rng.below(6) {
        0 => format!("{} {}", gen::num(rng, 3, 2, false), sym),
        1 => rng.pick(&u.accounts).clone(),
        2 => gen::text(rng),
        3 => String::new(),
        _ => price.unwrap_or_else(|| gen::date(rng).iso()),
    };
    let text = match rng.below(8) {
        0 => {
            // indented, outside of any transaction
            format!("{}{}  {} {}", " ".repeat(rng.range(1, 6)), rng.pick(&u.accounts).trim(), gen::num(rng, 3, 2, false), sym)
        }
        1 => format!("\t{}", body),
        2..=4 => format!("{} {}", rng.pick(&["i", "o", "h", "b", "I", "O", "A", "C", "D", "N", "Y", "p", "d", "x", "T"]), body),
        _ => format!(
            "{} {}",
            rng.pick(&[
                "account", "alias", "apply", "assert", "bucket", "capture", "check", "commodity", "comment", "define", "end", "eval", "expr", "import", "Include", "INCLUDE", "includes", "incl", "inc", "in", "if", "year", "payee", "python", "tag",
                "test", "value", "price", "Price", "prices", "~", "=", "@include", "!include", "é", "日本", "(", "\"", "$", "€", "+1", "/",
            ]),
            body
        ),
    };
    (text + "\n", "a line that begins nothing known")
}

/// Any entry with one thing wrong.
pub fn any(rng: &mut Rng, o: &gen::Opts, u: &gen::Universe, numbers: bool) -> Option<(String, &'static str)> {
    let o = gen::Opts { lot: 40, w_cost: 6, w_cost_elided: 6, int_digits: o.int_digits.min(6), frac_digits: o.frac_digits.min(4), posts: (2, 5), ..o.clone() };
    if !numbers && rng.chance(20) {
        return gen::price(rng, &o, u).map(|p| price(rng, &p));
    }
    if !numbers && rng.chance(15) {
        return Some(stray(rng, &o, u));
    }
    for _ in 0..12 {
        let x = gen::xact(rng, &o, u);
        if let Some(r) = xact(rng, &x) {
            if !numbers || r.1.contains("number") {
                return Some(r);
            }
        }
    }
    None
}
