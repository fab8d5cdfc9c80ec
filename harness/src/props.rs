//! Journal-level properties: one workload and oracle set per property.
use crate::ast::*;
use crate::ctx::{lib, Ctx, Res};
use crate::dec::{near_quotient, Dec};
use crate::dict;
use crate::ensure;
use crate::gen::{self, Opts};
use crate::oracle;
use crate::rng::Rng;
use crate::scale;
use crate::snap;
use crate::spoil;
use ledger_rs_lib::{journal::Journal, parse_file, parse_text, parser, report};
use std::io::{self, Read};

pub fn eol(rng: &mut Rng) -> &'static str {
    if rng.chance(15) {
        "\r\n"
    } else {
        "\n"
    }
}

pub fn load(text: &str) -> Result<Journal, String> {
    lib(|| {
        let mut j = Journal::new();
        parse_text(text, &mut j);
        j
    })
    .map_err(|e| format!("loading a supported journal panicked: {}", e))
}

pub fn load_into(j: &mut Journal, text: &str) -> Res {
    lib(|| parse_text(text, j)).map_err(|e| format!("loading a supported journal panicked: {}", e))
}

/// Runs an oracle that calls into the library; a panic in there is a violation.
pub fn guard(what: &str, f: impl FnOnce() -> Res) -> Res {
    match lib(f) {
        Ok(r) => r,
        Err(e) => Err(format!("{} panicked: {}", what, e)),
    }
}

fn shape(c: &mut Ctx, m: &Model, text: &str) {
    c.count("journals_loaded", 1);
    c.count("bytes_loaded", text.len() as u64);
    c.max("max_transactions", m.xacts.len() as u64);
    c.max("max_postings_in_transaction", m.xacts.iter().map(|x| x.posts.len()).max().unwrap_or(0) as u64);
    c.max("max_accounts", m.accounts.len() as u64);
    c.max("max_commodities", m.symbols.len() as u64);
}

/// Splits entries into k consecutive groups.
pub fn split(rng: &mut Rng, e: &[Entry], k: usize) -> Vec<Vec<Entry>> {
    let mut cuts: Vec<usize> = (0..k.saturating_sub(1)).map(|_| rng.below(e.len() + 1)).collect();
    cuts.sort();
    let mut v = vec![];
    let mut at = 0;
    for c in cuts {
        v.push(e[at..c].to_vec());
        at = c;
    }
    v.push(e[at..].to_vec());
    v
}

/// Options of a case: mostly random, with regular stress shapes.
pub fn opts(rng: &mut Rng, case: u64, c: &Ctx) -> Opts {
    if c.small {
        let mut o = Opts::general(rng);
        o.xacts = (1, 2);
        o.posts = *rng.pick(&[(2, 2), (2, 3), (5, 5)]);
        o.accounts = *rng.pick(&[2, 5]);
        o.acct_style = *rng.pick(&[0, 1, 3, 4]);
        o.symbols = *rng.pick(&[2, 5]);
        o.note = 5;
        o.comment = 5;
        return o;
    }
    let mut o = if case % 4 == 3 { Opts::plain(rng) } else { Opts::general(rng) };
    match case % 40 {
        5 => {
            o.posts = (100, 400);
            o.xacts = (1, 3);
        }
        11 => {
            o.accounts = 300;
            o.acct_style = *rng.pick(&[1, 5]);
            o.posts = (10, 60);
            o.xacts = (5, 20);
        }
        17 => {
            o.symbols = *rng.pick(&[60, 150, 300]);
            o.posts = (5, 40);
            o.xacts = (10, 40);
        }
        23 => {
            o.xacts = (200, 600);
            o.posts = (2, 4);
        }
        29 => {
            o.accounts = 60;
            o.acct_style = 2;
            o.xacts = (10, 40);
        }
        _ => {}
    }
    o
}

/// An amount at the edge of what the decimal type holds.
pub fn extreme(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.chance(50) {
        s.push('-');
    }
    match rng.below(6) {
        0 => s += "79228162514264337593543950335",
        1 => {
            s += "0.";
            s += &"0".repeat(27);
            s.push((b'1' + rng.below(9) as u8) as char);
        }
        2 => s += "9999999999999999999999999999",
        3 => s += "1.0000000000000000000000000001",
        4 => s += "7.9228162514264337593543950335",
        _ => {
            let n = rng.range(20, 28);
            let point = rng.range(1, n);
            for i in 0..n {
                if i == point {
                    s.push('.');
                }
                s.push((b'1' + rng.below(9) as u8) as char);
            }
        }
    }
    s
}

/// Transactions with extreme amounts, each in a commodity of its own.
pub fn extreme_xacts(rng: &mut Rng, o: &Opts, u: &gen::Universe, n: usize) -> Vec<Entry> {
    let mut v = vec![];
    for i in 0..n {
        let mut x = gen::xact(rng, o, u);
        x.posts.truncate(2);
        while x.posts.len() < 2 {
            let mut y = gen::xact(rng, o, u);
            if let Some(p) = y.posts.pop() {
                x.posts.push(p);
            }
        }
        let sym = format!("EXTREME_{}", ["a", "b", "c", "d", "e", "f"][i % 6].repeat(1 + i / 6));
        let num = extreme(rng);
        let neg = if let Some(r) = num.strip_prefix('-') { r.to_string() } else { format!("-{}", num) };
        for p in x.posts.iter_mut() {
            p.amt = None;
            p.cost = None;
            p.lot_price = None;
            p.lot_date = None;
        }
        let k = rng.below(2);
        x.posts[k].amt = Some(gen::amt(rng, num, &sym));
        if rng.chance(50) {
            x.posts[1 - k].amt = Some(gen::amt(rng, neg, &sym));
        }
        v.push(Entry::Xact(x));
    }
    v
}

// ------------------------------------------------------------------ C01

/// Beyond 16 bits of transactions or postings, in the optimised build only.
pub fn giant(rng: &mut Rng, case: u64, o: &mut Opts) {
    if cfg!(debug_assertions) || case % 20000 != 777 {
        return;
    }
    let (i, f) = (o.int_digits.min(6), o.frac_digits.min(4));
    *o = Opts { int_digits: i, frac_digits: f, w_empty: 0, note: 1, comment: 1, price: 1, lot: 0, accounts: o.accounts.min(15), ..o.clone() };
    if rng.chance(50) {
        o.xacts = (66_000, 70_000);
        o.posts = (2, 2);
    } else {
        o.xacts = (2, 3);
        o.posts = (66_000, 70_000);
    }
}

pub fn c01(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = opts(rng, case, c);
    giant(rng, case, &mut o);
    let (e, u) = gen::journal(rng, &o);
    let mut e = e;
    if rng.chance(10) {
        e.extend(extreme_xacts(rng, &o, &u, 2));
    }
    let parts = if rng.chance(40) { rng.range(2, 4) } else { 1 };
    let groups = split(rng, &e, parts);
    let nl = eol(rng);
    let (text, _) = render(&e, nl);
    c.input = text.clone();
    let mut j = Journal::new();
    let mut m = Model::default();
    for g in &groups {
        let (t, _) = render(g, nl);
        load_into(&mut j, &t)?;
        m.extend(g);
        guard("computing balances", || oracle::balances(&j, &m, c))?;
        guard("the balance report", || oracle::balance_report(&j, &m, c))?;
    }
    shape(c, &m, &text);
    c.count("loads", groups.len() as u64);
    c.nontrivial = m.xacts.iter().map(|x| x.posts.len()).sum::<usize>() >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C02

pub fn c02(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = opts(rng, case, c);
    o.elide = 95;
    o.null = 30;
    o.w_simple = 8;
    o.w_cost_elided = if o.int_digits + o.frac_digits <= 11 { 8 } else { 0 };
    o.w_two = o.w_two.min(1);
    o.w_many = 1;
    giant(rng, case, &mut o);
    let (mut e, u) = gen::journal(rng, &o);
    if rng.chance(30) {
        e.extend(extreme_xacts(rng, &o, &u, 2));
    }
    let (text, _) = render(&e, eol(rng));
    c.input = text.clone();
    let j = load(&text)?;
    let m = Model::of(&e);
    let before = c.counters.get("elided_amounts_compared").copied().unwrap_or(0);
    guard("reading amounts", || {
        oracle::elided_amounts(&j, &m, c)?;
        oracle::written_amounts(&j, &m, c)
    })?;
    shape(c, &m, &text);
    c.nontrivial = c.counters.get("elided_amounts_compared").copied().unwrap_or(0) > before;
    Ok(())
}

// ------------------------------------------------------------------ C03

pub fn c03(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = opts(rng, case, c);
    o.odd_format = 50;
    o.comment = 30;
    o.w_empty = 2;
    if case % 40 == 23 {
        o.xacts = (800, 2000);
        o.posts = (2, 3);
    }
    giant(rng, case, &mut o);
    let (e, _) = gen::journal(rng, &o);
    let nl = eol(rng);
    let (text, _) = render(&e, nl);
    c.input = text.clone();
    let parts = if rng.chance(40) { rng.range(2, 4) } else { 1 };
    let groups = split(rng, &e, parts);
    let mut j = Journal::new();
    let mut m = Model::default();
    for g in &groups {
        let (t, _) = render(g, nl);
        let before = m.xacts.len();
        m.extend(g);
        let want = m.xacts.len();
        if rng.chance(50) {
            let n = lib(|| j.read(io::Cursor::new(t.as_bytes())))
                .map_err(|e| format!("loading a supported journal panicked: {}", e))?;
            let read = want - before;
            ensure!(n == want || n == read, "read() returned {}; {} transactions were read, the journal has {}", n, read, want);
        } else {
            load_into(&mut j, &t)?;
        }
        guard("reading transactions", || oracle::structure(&j, &m, c))?;
    }
    shape(c, &m, &text);
    c.nontrivial = !m.xacts.is_empty();
    Ok(())
}

// ------------------------------------------------------------------ C04

const BAD_NUMBERS: &[&str] = &[
    "1,000", "1.2.3", "--5", "5-", "1-2", "-", "-.", "1,5", "1,000.00", "1.000,00", "0,5", "1..2", "-1-", "- 5",
    "99999999999999999999999999999999", "79228162514264337593543950336", "0.00000000000000000000000000001",
    "123456789012345678901234567890.5", "1 000", "1 2", "1e5", "5 5", "1.5 .5", "-,5", "1,",
];

/// The posting lines of a transaction in which one number cannot be read; they would pass
/// if it were taken as missing or as another number. Also returns the offending line.
pub fn bad_number_posts(rng: &mut Rng) -> (Vec<String>, String) {
    let b = *rng.pick(BAD_NUMBERS);
    let (bad, good): (String, &[&str]) = match rng.below(11) {
        9 => ("    Assets:Bad  EUR".to_string(), &["    Assets:Cash  5 EUR", "    Assets:Cash  -1 EUR\n    Equity  2 EUR"]),
        10 => (
            format!("    Assets:Bad  10 VEUR {}", rng.pick(&["@ EUR", "@@ EUR", "{EUR}", "@", "@@", "{}", "{EUR} @ 5 EUR", "{5 EUR} @ EUR", "@ $", "@EUR"])),
            &["    Assets:Cash", "    Assets:Cash  -10 VEUR", "    Assets:Cash  -50 EUR"],
        ),
        0 | 1 | 2 => (format!("    Assets:Bad  {} EUR", b), &["    Assets:Cash  5 EUR", "    Assets:Cash  -1 EUR\n    Equity  2 EUR"]),
        3 => (format!("    Assets:Bad  EUR {}", b), &["    Assets:Cash  5 EUR", "    Assets:Cash  EUR-5"]),
        4 => (format!("    Assets:Bad  {}", b), &["    Assets:Cash  5", "    Assets:Cash  -7.5\n    Equity  1"]),
        5 => (format!("    Assets:Bad  10 VEUR @ {} EUR", b), &["    Assets:Cash"]),
        6 => (format!("    Assets:Bad  10 VEUR @@ {} EUR", b), &["    Assets:Cash"]),
        7 => (format!("    Assets:Bad  10 VEUR {{{} EUR}}", b), &["    Assets:Cash"]),
        _ => (format!("    Assets:Bad  -$5{}", rng.below(10)), &["    Assets:Cash  $5", "    Assets:Cash  $-3\n    Equity  $ 1"]),
    };
    let mut lines = vec![bad.clone()];
    for l in rng.pick(good).lines() {
        let k = rng.below(lines.len() + 1);
        lines.insert(k, l.to_string());
    }
    (lines, bad)
}

/// Loads a transaction on these accounts, in these commodities, that fails on the way.
pub fn load_that_fails(rng: &mut Rng, j: &mut Journal, accounts: &[String], symbols: &[String], c: &mut Ctx) {
    let mut t = "2023-05-05 Fails\n".to_string();
    for a in accounts {
        t += &format!("    {}  {} {}\n", a, rng.range(1, 99), rng.pick(symbols));
    }
    if rng.chance(50) {
        let mut r = Chunked::new(t.as_bytes(), Rng::new(rng.next()), 1 + rng.below(200), 0);
        // after the header
        r.fail = Some((rng.range(17, t.len()), *rng.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData])));
        let _ = lib(|| j.read(&mut r));
    } else {
        let bad = *rng.pick(&["1,5,0", "1.2.3", "--1"]);
        t += &format!("    {}  {}\n    {}\n\n", accounts[0], bad, accounts[0]);
        let _ = lib(|| parse_text(&t, j));
    }
    c.count("failed_loads", 1);
}

/// Loads `text`, in which transaction `at` must be refused (a loadable one follows).
/// Err describes how it was accepted.
pub fn must_refuse(j: &mut Journal, text: &str, at: usize, what: &str, c: &mut Ctx) -> Res {
    let r = lib(|| parse_text(text, j));
    c.count("refusals_expected", 1);
    match r {
        Err(_) => {
            c.count("refused_by_panic", 1);
            ensure!(
                j.xacts.len() <= at + 1,
                "{}: {} transactions in the journal after the refusal of transaction {}",
                what,
                j.xacts.len(),
                at
            );
            Ok(())
        }
        Ok(()) => {
            ensure!(
                j.xacts.len() <= at,
                "{} was not refused: {} transactions loaded; {}",
                what,
                j.xacts.len(),
                lib(|| snap::xact_text(&j.xacts[at])).unwrap_or_default()
            );
            c.count("refused_by_stopping", 1);
            Ok(())
        }
    }
}

pub fn c04(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    if case % 3 == 2 {
        // refusal
        let mut o = opts(rng, 0, c);
        o.xacts = (0, 4);
        let (mut e, u) = gen::journal(rng, &o);
        e.retain(|x| !matches!(x, Entry::Price(_)));
        let (head, _) = render(&e, "\n");
        let m = Model::of(&e);
        let spoilt = if rng.chance(60) { spoil::any(rng, &o, &u, true) } else { None };
        let (entry, bad) = match spoilt {
            Some((t, _)) => (t.clone(), t),
            None => {
                let (lines, bad) = bad_number_posts(rng);
                (format!("2023-05-05 Bad\n{}\n", lines.join("\n")), bad)
            }
        };
        let text = format!("{}\n{}\n2023-05-06 Next\n    Assets:A  1 EUR\n    Assets:B\n\n", head, entry);
        c.input = text.clone();
        let mut j = Journal::new();
        must_refuse(&mut j, &text, m.xacts.len(), &format!("the unreadable number in {:?}", bad.trim()), c)?;
        c.nontrivial = true;
        return Ok(());
    }
    let mut o = opts(rng, case, c);
    o.odd_format = 60;
    giant(rng, case, &mut o);
    let (mut e, u) = gen::journal(rng, &o);
    if rng.chance(60) {
        let n = rng.range(1, 8);
        e.extend(extreme_xacts(rng, &o, &u, n));
    }
    let (text, _) = render(&e, eol(rng));
    c.input = text.clone();
    let j = load(&text)?;
    let m = Model::of(&e);
    guard("reading amounts", || oracle::written_amounts(&j, &m, c))?;
    shape(c, &m, &text);
    c.nontrivial = m.xacts.iter().any(|x| !x.posts.is_empty());
    // the same notations through the API
    let mut j2 = Journal::new();
    for x in &e {
        let Entry::Xact(x) = x else { continue };
        for a in x.posts.iter().take(6).filter_map(|p| p.amt.as_ref()) {
            let t = format!("{}{}{}", if rng.chance(20) { "  " } else { "" }, a.render(), if a.sym.is_empty() { rng.pick(&["", "", " ", " ; x", " @ 3 EUR"]) } else { rng.pick(&["", "", " ", " ; x", " @ 3 EUR", " {2 EUR}"]) });
            let (g, h) = lib(|| (parser::parse_amount(&t, &mut j2), parser::parse_amount_parts(&a.num, &a.sym, &mut j2)))
                .map_err(|e| format!("parse_amount({:?}) panicked: {}", t, e))?;
            for (g, what) in [(g, "parse_amount"), (h, "parse_amount_parts")] {
                let g = g.as_ref().map(snap::amt);
                ensure!(g == Some((a.value(), a.sym.clone())), "{} of {:?}: {:?}, written {} {:?}", what, t, g, a.value(), a.sym);
            }
            c.count("api_amounts_compared", 2);
        }
    }
    ensure!(lib(|| parser::parse_amount_parts("", "", &mut j2).is_none()) == Ok(true), "nothing written is not taken as no amount");
    Ok(())
}

// ------------------------------------------------------------------ C07

pub fn c07(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = opts(rng, if case % 4 == 3 { case + 1 } else { case }, c);
    o.w_simple = 2;
    o.w_cost_elided = 6;
    o.w_cost = 6;
    o.w_two = 8;
    o.w_many = 2;
    o.lot = 25;
    o.symbols = o.symbols.max(2);
    giant(rng, case, &mut o);
    let (e, _) = gen::journal(rng, &o);
    let (text, _) = render(&e, eol(rng));
    c.input = text.clone();
    let j = load(&text)?;
    let m = Model::of(&e);
    guard("reading costs", || oracle::costs(&j, &m, c))?;
    far_apart(rng, c)?;
    c.input = text.clone();
    shape(c, &m, &text);
    c.nontrivial = m.xacts.iter().any(|x| x.posts.iter().any(|p| p.cost != ECost::None));
    Ok(())
}

/// Two commodities whose sums are many orders of magnitude apart: the ratio may even be
/// below the precision of the type.
fn far_apart(rng: &mut Rng, c: &mut Ctx) -> Res {
    let num = |rng: &mut Rng| -> Dec {
        let m = rng.range(1, 9999) as i128 * if rng.chance(50) { -1 } else { 1 };
        if rng.chance(50) {
            Dec::new(m * 10i128.pow(rng.below(25) as u32), 0)
        } else {
            Dec::new(m, rng.below(19) as u32)
        }
    };
    let (x, y) = (num(rng), num(rng));
    if (y.abs().to_f64() / x.abs().to_f64()) > 1e18 {
        return Ok(());
    }
    let (s, t) = (*rng.pick(&["EUR", "AAPL"]), *rng.pick(&["USD", "$"]));
    let text = format!("2023-05-01 Trade\n    Assets:A  {} {}\n    Assets:B  {} {}\n\n", x, s, y, t);
    c.input = text.clone();
    let j = load(&text)?;
    guard("reading costs", || {
        let p = &j.xacts[0].posts;
        let Some(g) = p[0].cost.as_ref().map(snap::amt) else { return Err("no implied cost".to_string()) };
        ensure!(g.1 == t, "implied cost in {:?}, due in {:?}", g.1, t);
        // amount times the ratio, which is rounded to the type first
        ensure!(
            near_quotient(g.0, if x.m < 0 { y.abs().neg() } else { y.abs() }, Dec::int(1), x.abs().to_f64() * 1.0001e-28 + y.abs().to_f64() * 1.5e-28),
            "implied cost {} of {}, the sums are {} and {}",
            g.0,
            x,
            x,
            y
        );
        ensure!(p[1].cost.is_none(), "a cost of the second commodity");
        ensure!(p[0].amount.as_ref().map(snap::amt) == Some((x, s.to_string())) && p[1].amount.as_ref().map(snap::amt) == Some((y, t.to_string())), "an amount changed");
        Ok(())
    })?;
    c.count("far_apart_ratios", 1);
    Ok(())
}

// ------------------------------------------------------------------ C12

fn strip(e: &[Entry], rng: &mut Rng) -> Vec<Entry> {
    let all = rng.chance(60);
    let mut v = vec![];
    for x in e {
        match x {
            Entry::Comment(_) => {
                if !all && rng.chance(50) {
                    v.push(x.clone());
                }
            }
            Entry::Xact(x) => {
                let mut x = x.clone();
                let drop = |r: &mut Rng| all || r.chance(50);
                if drop(rng) {
                    x.hnote = None;
                }
                if drop(rng) {
                    x.comments.clear();
                }
                for p in x.posts.iter_mut() {
                    if drop(rng) {
                        p.eol_note = None;
                    }
                    if drop(rng) {
                        p.comments.clear();
                    }
                }
                v.push(Entry::Xact(x));
            }
            _ => v.push(x.clone()),
        }
    }
    v
}

fn without_notes(j: &Journal) -> String {
    let mut s = String::new();
    for x in &j.xacts {
        s += &format!("X {:?} {:?} {:?}\n", x.date, x.aux_date, x.payee);
        for p in &x.posts {
            let f = |a: &Option<ledger_rs_lib::amount::Amount>| a.as_ref().map(|a| (snap::amt(a).0.to_string(), snap::amt(a).1));
            s += &format!("  p {:?} {:?} {:?}\n", unsafe { &*p.account }.fullname(), f(&p.amount), f(&p.cost));
        }
    }
    s += &snap::accounts_text(j);
    for (k, v) in snap::prices(j) {
        s += &format!("P {:?} {}\n", k, v);
    }
    s += &format!("{} commodities\n", j.commodity_pool.len());
    s += &report::balance_report(j).join("\n");
    s
}

/// Very many comment lines, and very long ones.
fn long_notes(rng: &mut Rng, e: &mut [Entry]) {
    let lines = |rng: &mut Rng| -> Vec<String> {
        let n = *rng.pick(&[0, 3, 300, 66_000]);
        let mut v: Vec<String> = (0..n).map(|i| format!(" {}", i)).collect();
        if rng.chance(50) {
            v.push(format!(" {}", "long ".repeat(rng.range(1, 30_000)).trim()));
        }
        v
    };
    for _ in 0..4 {
        let k = rng.below(e.len().max(1));
        let Some(Entry::Xact(x)) = e.get_mut(k) else { continue };
        x.comments = lines(rng);
        if !x.posts.is_empty() {
            let k = rng.below(x.posts.len());
            x.posts[k].comments = lines(rng);
        }
    }
}

pub fn c12(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = opts(rng, case, c);
    o.note = 60;
    o.comment = 40;
    o.elide = 70;
    giant(rng, case, &mut o);
    let (mut e, _) = gen::journal(rng, &o);
    if scale::is(case, c) {
        long_notes(rng, &mut e);
    }
    let nl = eol(rng);
    let (text, _) = render(&e, nl);
    c.input = text.clone();
    let j = load(&text)?;
    let m = Model::of(&e);
    guard("reading notes", || oracle::notes(&j, &m, c))?;
    let bare = strip(&e, rng);
    let (t2, _) = render(&bare, nl);
    let j2 = load(&t2)?;
    let (a, b) = lib(|| (without_notes(&j), without_notes(&j2))).map_err(|e| format!("reading the journal panicked: {}", e))?;
    ensure!(a == b, "comments change the journal: with and without comments, {}", snap::diff(&a, &b));
    c.count("comparisons_with_stripped_text", 1);
    shape(c, &m, &text);
    c.nontrivial = m.xacts.iter().any(|x| !x.notes.is_empty() || x.posts.iter().any(|p| !p.notes.is_empty()));
    Ok(())
}

// ------------------------------------------------------------------ C13

/// Delivers data in pieces, with interruptions, and possibly a failure.
pub struct Chunked<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub rng: Rng,
    pub max: usize,
    pub interrupt: usize,
    pub fail: Option<(usize, io::ErrorKind)>,
    pub reads: u64,
    pub failed: bool,
}

impl<'a> Chunked<'a> {
    pub fn new(data: &'a [u8], rng: Rng, max: usize, interrupt: usize) -> Self {
        Chunked { data, at: 0, rng, max, interrupt, fail: None, reads: 0, failed: false }
    }
}

impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.rng.chance(self.interrupt) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let limit = match self.fail {
            Some((f, kind)) => {
                // fails once; were the reader asked again, it would go on
                if self.at >= f && !self.failed {
                    self.failed = true;
                    return Err(kind.into());
                }
                if self.failed {
                    self.data.len()
                } else {
                    f
                }
            }
            None => self.data.len(),
        };
        let n = self.rng.range(1, self.max).min(buf.len()).min(limit - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn snap_of(j: &Journal) -> Result<String, String> {
    lib(|| snap::snapshot(j)).map_err(|e| format!("reading the journal panicked: {}", e))
}

pub fn c13(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let kind = if rng.chance(90) { 0 } else { case };
    let mut o = opts(rng, kind, c);
    if case % 10 == 7 {
        o.xacts = (40, 120); // beyond one buffer of a buffered reader
    }
    if !cfg!(debug_assertions) && !c.small && case % 4000 == 1999 {
        return large_source(rng, case, c);
    }
    let (mut e, _) = gen::journal(rng, &o);
    if rng.chance(20) {
        gen::fit(rng, &mut e);
    }
    if rng.below(25) == 0 {
        // a short end: nothing but a date
        let mut date = gen::date(rng);
        date.bare = rng.chance(70);
        if rng.chance(50) {
            date.y = rng.range(1, 999) as u32;
            date.d = date.d.min(28);
        }
        e.push(Entry::Xact(XactA { date, aux: None, payee: None, hnote: None, lead: 0, trail: String::new(), comments: vec![], posts: vec![], end_spaces: 0, blanks: 0 }));
    }
    let (text, _) = render(&e, "\n");
    c.input = text.clone();
    let j = load(&text)?;
    let base = snap_of(&j)?;
    let m = Model::of(&e);
    shape(c, &m, &text);
    c.nontrivial = !m.xacts.is_empty();
    let same = |name: &str, other: &str| -> Res {
        ensure!(base == other, "{}: the journal differs from the one loaded from the string: {}", name, snap::diff(&base, other));
        Ok(())
    };
    // readers
    for max in [1usize, 2, rng.range(3, 40), rng.range(50, 9000)] {
        for data in [text.clone(), render(&e, "\r\n").0] {
            let mut r = Chunked::new(data.as_bytes(), Rng::new(rng.next()), max, if rng.chance(50) { 20 } else { 0 });
            let mut j = Journal::new();
            let n = lib(|| j.read(&mut r)).map_err(|e| format!("loading in pieces panicked: {}", e))?;
            ensure!(n == m.xacts.len(), "reading into a new journal gives {} as the number of transactions, there are {}", n, m.xacts.len());
            c.count("deliveries", 1);
            c.count("reader_calls", r.reads);
            same(&format!("delivered in pieces of up to {} bytes", max), &snap_of(&j)?)?;
        }
    }
    // line ends, final newline
    let crlf = render(&e, "\r\n").0;
    same("with CRLF line ends", &snap_of(&load(&crlf)?)?)?;
    for t in [&text, &crlf] {
        let one = t.strip_suffix("\r\n").or(t.strip_suffix('\n')).unwrap_or(t);
        same("without the final newline", &snap_of(&load(one)?)?)?;
        let all = t.trim_end_matches(|c| c == '\r' || c == '\n');
        same("without the final newlines", &snap_of(&load(all)?)?)?;
    }
    // line ends of both kinds in one text
    let mixed: String = text.split_inclusive('\n').map(|l| if rng.chance(50) { l.replace('\n', "\r\n") } else { l.to_string() }).collect();
    same("with line ends of both kinds", &snap_of(&load(&mixed)?)?)?;
    c.count("deliveries", 6);
    // blank lines
    let mut v = vec![];
    for x in &e {
        let run = if !c.small && rng.below(120) == 0 { rng.range(20, 3000) } else { rng.below(3) };
        for _ in 0..run {
            v.push(Entry::Blank);
        }
        v.push(x.clone());
    }
    for _ in 0..rng.below(3) {
        v.push(Entry::Blank);
    }
    same("with extra blank lines", &snap_of(&load(&render(&v, "\n").0)?)?)?;
    // several loads
    let k = rng.range(2, 5);
    let groups = split(rng, &e, k);
    let mut j2 = Journal::new();
    for g in &groups {
        load_into(&mut j2, &render(g, "\n").0)?;
    }
    same("loaded in several steps", &snap_of(&j2)?)?;
    c.count("deliveries", 2);
    if c.small {
        return Ok(());
    }
    // files
    let dir = c.scratch.join(format!("c13-{}", case));
    std::fs::create_dir_all(&dir).expect("generator: scratch");
    let r = files(rng, c, &dir, &e, &groups, &text, &same);
    std::fs::remove_dir_all(&dir).ok();
    r
}

/// Several megabytes: in one piece or in many small ones, all the same.
fn large_source(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = opts(rng, 0, c);
    o = Opts { int_digits: o.int_digits.min(6), frac_digits: o.frac_digits.min(4), w_empty: 0, price: 1, lot: 1, accounts: o.accounts.min(15), ..o };
    o.xacts = (200, 300);
    let g: Vec<Vec<Entry>> = (0..rng.range(20, 40)).map(|_| gen::journal(rng, &o).0).collect();
    let texts: Vec<String> = g.iter().map(|e| render(e, "\n").0).collect();
    // repeated, until it is large
    let mut order: Vec<usize> = vec![];
    let (mut n, size) = (0, rng.range(2_000_000, 6_000_000));
    while n < size {
        let k = rng.below(texts.len());
        n += texts[k].len() + 1;
        order.push(k);
    }
    c.input = format!("{} bytes from {} texts, the first:\n{}", n, texts.len(), texts[0]);
    c.nontrivial = true;
    // in pieces
    let mut j = Journal::new();
    for k in &order {
        load_into(&mut j, &texts[*k])?;
    }
    let base = snap_of(&j)?;
    drop(j);
    let whole = order.iter().map(|k| texts[*k].as_str()).collect::<Vec<_>>().join("\n");
    let got = snap_of(&load(&whole)?)?;
    ensure!(got == base, "{} bytes in one text: the journal differs from the one loaded in pieces: {}", whole.len(), snap::diff(&base, &got));
    let p = c.scratch.join(format!("c13-large-{}", case));
    std::fs::write(&p, whole.replace('\n', "\r\n")).expect("generator: scratch");
    let mut j = Journal::new();
    let r = lib(|| parse_file(p.to_str().unwrap(), &mut j)).map_err(|e| format!("loading a large file panicked: {}", e));
    std::fs::remove_file(&p).ok();
    r?;
    let got = snap_of(&j)?;
    ensure!(got == base, "{} bytes from a file: the journal differs from the one loaded in pieces: {}", whole.len(), snap::diff(&base, &got));
    let mut r = Chunked::new(whole.as_bytes(), Rng::new(rng.next()), 5000, 5);
    let mut j = Journal::new();
    lib(|| j.read(&mut r)).map_err(|e| format!("loading in pieces panicked: {}", e))?;
    let got = snap_of(&j)?;
    ensure!(got == base, "{} bytes from a reader: the journal differs from the one loaded in pieces: {}", whole.len(), snap::diff(&base, &got));
    c.count("large_sources", 1);
    c.max("largest_source_bytes", whole.len() as u64);
    Ok(())
}

const FILE_NAMES: &[&str] = &[
    "a ;b", "x;y", "x ; y", "#1", "# x", "quo\"te", "\"quoted\"", "'s'", "it's", "star*", "*", "?", "[x]", "{a,b}", "%20", "%41", "$HOME", "${HOME}", "back\\slash", "\\n",
    "a=b", "=x", "@x", "(p)", "!x", "~tilde", "~", "-dash", "--x", "include", "include x", ".hidden", "..", "a..b", "x.", "P", "2023-01-01 x", "日本", "e\u{301}", "a:b", "a|b", "<x>", "a&b", "a, b",
    "nb\u{a0}sp", "UPPER.LEDGER", "x.dat", "x.ledger.gz", "x.bak", "journal~",
];

fn files(
    rng: &mut Rng,
    c: &mut Ctx,
    dir: &std::path::Path,
    e: &[Entry],
    groups: &[Vec<Entry>],
    text: &str,
    same: &dyn Fn(&str, &str) -> Res,
) -> Res {
    let write = |name: &str, t: &str| {
        let p = dir.join(name);
        std::fs::write(&p, t).expect("generator: scratch");
        p.to_str().unwrap().to_string()
    };
    let whole = write("whole.ledger", text);
    let load_file = |p: &str, j: &mut Journal| lib(|| parse_file(p, j)).map_err(|e| format!("loading the file panicked: {}", e));
    let mut j = Journal::new();
    load_file(&whole, &mut j)?;
    same("loaded from a file", &snap_of(&j)?)?;
    if rng.below(40) == 0 {
        through_a_pipe(rng, c, dir, text, same)?;
    }
    let mut j = Journal::new();
    let mut paths = vec![];
    for (i, g) in groups.iter().enumerate() {
        let name = match rng.below(6) {
            0 => format!("ünï.{}", i),
            1 => format!("with space  {} .ledger", i),
            2 | 3 => {
                let w = match dict::word(rng, |w| w.trim() == w && !w.contains(|c: char| c == '/' || c.is_control())) {
                    Some(w) => w,
                    None => *rng.pick(FILE_NAMES),
                };
                if rng.chance(50) {
                    format!("{}{}", i, w)
                } else {
                    format!("{}{}", w, i)
                }
            }
            _ => format!("part-{}.ledger", i),
        };
        let name = if dir.join(&name).exists() { format!("part-{}.ledger", i) } else { name };
        let mut content = render(g, if rng.chance(30) { "\r\n" } else { "\n" }).0;
        if rng.chance(25) {
            content.truncate(content.trim_end_matches(|c| c == '\r' || c == '\n').len());
        }
        let p = if rng.chance(12) {
            // a link to the file
            let real = write(&format!(".real-{}", i), &content);
            let p = dir.join(&name);
            std::os::unix::fs::symlink(real, &p).expect("generator: scratch");
            c.count("linked_files", 1);
            p.to_str().unwrap().to_string()
        } else {
            write(&name, &content)
        };
        load_file(&p, &mut j)?;
        paths.push(p);
    }
    same("loaded from several files", &snap_of(&j)?)?;
    // includes: some groups in place, some included, by absolute or relative path
    let mut t = String::new();
    let mut n = 0;
    for (i, g) in groups.iter().enumerate() {
        if rng.chance(60) {
            n += 1;
            let p = if rng.chance(50) {
                paths[i].clone()
            } else {
                // relative to the working directory of this process (the scratch directory)
                let rel = dir.file_name().unwrap().to_str().unwrap();
                let name = std::path::Path::new(&paths[i]).file_name().unwrap().to_str().unwrap();
                match rng.below(6) {
                    0 => {
                        let cwd = std::env::current_dir().expect("generator: scratch");
                        format!("../{}/{}/{}", cwd.file_name().unwrap().to_str().unwrap(), rel, name)
                    }
                    1 => format!("{0}/../{0}/{1}", rel, name),
                    2 => format!("{}/./{}", rel, name),
                    3 => format!("./{}/{}", rel, name),
                    _ => format!("{}/{}", rel, name),
                }
            };
            let nl = if rng.chance(25) { "\r\n" } else { "\n" };
            t += &format!("include{}{}{}{}", if rng.chance(80) { " " } else { "   " }, p, if rng.chance(20) { "  " } else { "" }, nl);
        } else {
            t += &render(g, "\n").0;
        }
    }
    let mut j = load(&t)?;
    same(&format!("with {} parts included", n), &snap_of(&j)?)?;
    // from the directory of the files, by name only
    if rng.chance(30) {
        let here = std::env::current_dir().expect("generator: working directory");
        std::env::set_current_dir(dir).expect("generator: scratch");
        let r = (|| {
            let mut t = String::new();
            for p in &paths {
                let name = std::path::Path::new(p).file_name().unwrap().to_str().unwrap();
                // these may mean another place
                let lead = if name.starts_with(['~', '\\']) { "./" } else { "" };
                t += &format!("include {}{}\n", lead, name);
            }
            c.input += &format!("--- by name only\n{}", t);
            same("with all parts included by name", &snap_of(&load(&t)?)?)
        })();
        std::env::set_current_dir(here).expect("generator: working directory");
        r?;
        c.count("included_by_name", 1);
    }
    // the including text as a file, itself included (nesting)
    let outer = write("outer.ledger", &t);
    let t2 = format!("; outer\ninclude {}\n", outer);
    j = load(&t2)?;
    same("with nested includes", &snap_of(&j)?)?;
    // deeper, the last one without a final newline
    let mut inner = outer;
    for i in 0..rng.range(1, 6) {
        inner = write(&format!("deep-{}", i), &format!("include {}{}", inner, rng.pick(&["", "\n", "\r\n", "\n\n; done\n"])));
    }
    j = load(&format!("include {}", inner))?;
    same("with deeply nested includes", &snap_of(&j)?)?;
    // the same file in several places
    if !groups.is_empty() {
        let k = rng.below(groups.len());
        let times = rng.range(2, 3);
        let g: Vec<Entry> = (0..times).flat_map(|_| groups[k].clone()).collect();
        let want = snap_of(&load(&render(&g, "\n").0)?)?;
        let line = format!("include {}\n", paths[k]);
        let got = snap_of(&load(&line.repeat(times))?)?;
        ensure!(got == want, "a file included {} times differs from its content {} times: {}", times, times, snap::diff(&want, &got));
        let mut j = Journal::new();
        for _ in 0..times {
            load_file(&paths[k], &mut j)?;
        }
        let got = snap_of(&j)?;
        ensure!(got == want, "a file loaded {} times differs from its content {} times: {}", times, times, snap::diff(&want, &got));
    }
    // the file as it is now, not as it was
    let g: Vec<Entry> = groups.iter().rev().flatten().cloned().collect();
    let t3 = render(&g, "\n").0;
    let want = snap_of(&load(&t3)?)?;
    write("whole.ledger", &t3);
    for include in [false, true] {
        let mut j = Journal::new();
        if include {
            load_into(&mut j, &format!("include {}\n", whole))?;
        } else {
            load_file(&whole, &mut j)?;
        }
        let got = snap_of(&j)?;
        ensure!(got == want, "a file whose content was replaced is not loaded as it is now: {}", snap::diff(&want, &got));
    }
    c.count("deliveries", 9);
    c.count("includes", n);
    let _ = e;
    Ok(())
}

/// From a named pipe, whose size nobody knows beforehand.
fn through_a_pipe(rng: &mut Rng, c: &mut Ctx, dir: &std::path::Path, text: &str, same: &dyn Fn(&str, &str) -> Res) -> Res {
    let p = dir.join("pipe");
    if !std::process::Command::new("mkfifo").arg(&p).status().map(|s| s.success()).unwrap_or(false) {
        return Ok(());
    }
    let data = text.as_bytes().to_vec();
    let pieces = rng.range(1, 4);
    let open = |to: std::path::PathBuf| std::fs::OpenOptions::new().read(true).write(true).open(to);
    let to = p.clone();
    let writer = std::thread::spawn(move || {
        use std::io::Write;
        // waits for a reader
        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&to) {
            for k in data.chunks((data.len() / pieces).max(1)) {
                if f.write_all(k).is_err() {
                    break;
                }
            }
        }
    });
    // nobody waits forever
    let (done, is_done) = std::sync::mpsc::channel::<()>();
    let to = p.clone();
    let watch = std::thread::spawn(move || {
        if is_done.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
            open(to).ok();
        }
    });
    let path = p.to_str().unwrap().to_string();
    let mut j = Journal::new();
    let r = lib(|| parse_file(&path, &mut j));
    done.send(()).ok();
    watch.join().ok();
    if !writer.is_finished() {
        let f = open(p.clone());
        std::thread::sleep(std::time::Duration::from_millis(20));
        drop(f);
    }
    writer.join().ok();
    r.map_err(|e| format!("loading from a pipe panicked: {}", e))?;
    c.count("pipes", 1);
    same("loaded from a pipe", &snap_of(&j)?)
}

// ------------------------------------------------------------------ C14

/// A load into another journal that comes to an end halfway, whichever way.
fn failed_load(rng: &mut Rng, text: &str, c: &mut Ctx) {
    let mut j = Journal::new();
    let at = (0..=rng.below(text.len() + 1)).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(0);
    let _ = match rng.below(4) {
        0 => {
            let mut r = Chunked::new(text.as_bytes(), Rng::new(rng.next()), 4000, 0);
            r.fail = Some((at, io::ErrorKind::Other));
            lib(|| j.read(&mut r))
        }
        1 => {
            let mut b = text.as_bytes()[..at].to_vec();
            b.extend(b"\xff\n");
            lib(|| j.read(&b[..]))
        }
        2 => {
            let k = text[..at].rfind("\n\n").map(|k| k + 2).unwrap_or(0);
            let t = format!("{}{}", &text[..k], rng.pick(&["2023-02-30 Bad\n    A  1 EUR\n    B\n", "2023-01-02 Bad\n    A  1,5 EUR\n    B\n", "2023-01-02 Bad\n    A\n    B\n", "P 2023-01-02 A x B\n", "2023-01-02 Bad\n    A  1 EUR {2\n    B\n", "    A\n"]));
            lib(|| j.read(t.as_bytes()))
        }
        _ => lib(|| j.read(text[..at].as_bytes())),
    };
    c.count("failed_loads_alongside", 1);
    if rng.chance(30) {
        let _ = lib(|| ledger_rs_lib::run_command("b -f /nonexistent/file"));
    }
}

pub fn c14(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let kind = if rng.chance(80) { 1 } else { case };
    let o = opts(rng, kind, c);
    let (e, _) = gen::journal(rng, &o);
    let (text, _) = render(&e, "\n");
    c.input = text.clone();
    let base = {
        let j = load(&text)?;
        snap_of(&j)?
    };
    let m = Model::of(&e);
    shape(c, &m, &text);
    c.nontrivial = !m.xacts.is_empty();
    if !c.small && case % 40 == 5 {
        // in a process that has done nothing else
        let p = c.scratch.join(format!("c14-{}", case));
        std::fs::write(&p, &text).expect("generator: scratch");
        let o = std::process::Command::new(std::env::current_exe().expect("generator: own program"))
            .args(["--snapshot", p.to_str().unwrap()])
            .output()
            .expect("generator: own program");
        std::fs::remove_file(&p).ok();
        let got = String::from_utf8_lossy(&o.stdout).into_owned();
        ensure!(o.status.success(), "in a fresh process, loading fails: {}", String::from_utf8_lossy(&o.stderr));
        ensure!(got == base, "in a fresh process, the journal differs: {}", snap::diff(&got, &base));
        c.count("fresh_processes", 1);
    }
    // other journals, alive and interleaved
    let mut others = vec![];
    for _ in 0..rng.range(1, 3) {
        let o2 = opts(rng, 1, c);
        // sometimes the same names and symbols with other content
        let (e2, _) = if rng.chance(50) { gen::journal(rng, &o2) } else { gen::journal(&mut Rng::new(case), &o) };
        let t2 = render(&e2, "\n").0;
        let s2 = snap_of(&load(&t2)?)?;
        let parts = rng.range(1, 3);
        others.push((split(rng, &e2, parts), Journal::new(), s2));
    }
    // what is asked now and then, and what it has to be in the end
    let mut pairs = vec![];
    let all: Vec<String> = m.symbols.iter().cloned().collect();
    if all.len() >= 2 {
        for _ in 0..rng.range(1, 5) {
            pairs.push((rng.pick(&all).clone(), rng.pick(&all).clone()));
        }
        pairs.retain(|(a, b)| a != b);
    }
    let quotes = {
        let j = load(&text)?;
        prices(&j, &pairs)?
    };
    let parts = rng.range(1, 4);
    let groups = split(rng, &e, parts);
    let mut j = Journal::new();
    let mut pending: Vec<(usize, usize)> = (0..groups.len()).map(|i| (0, i)).collect();
    for (k, o) in others.iter().enumerate() {
        let mut at = 0;
        for i in 0..o.0.len() {
            at = rng.range(at, pending.len());
            pending.insert(at, (k + 1, i));
            at += 1;
        }
    }
    for (k, i) in pending {
        if k == 0 {
            load_into(&mut j, &render(&groups[i], "\n").0)?;
        } else {
            let t = render(&others[k - 1].0[i], "\n").0;
            load_into(&mut others[k - 1].1, &t)?;
        }
        if rng.chance(30) {
            snap_of(&j)?;
        }
        if rng.chance(60) {
            prices(&j, &pairs)?;
        }
        if rng.chance(25) {
            // a load elsewhere that fails
            failed_load(rng, &text, c);
        }
        c.count("interleaved_steps", 1);
    }
    let got = snap_of(&j)?;
    ensure!(got == base, "loaded between other journals, the journal differs: {}", snap::diff(&base, &got));
    let got = prices(&j, &pairs)?;
    for ((p, a), b) in pairs.iter().zip(&quotes).zip(&got) {
        ensure!(a == b, "asked about while the journal grew, the price of {:?} in {:?} is {:?}, otherwise {:?}", p.0, p.1, b, a);
    }
    c.count("prices_compared", pairs.len() as u64);
    guard("following the links", || snap::walk(&j, true).map(|_| ()))?;
    for (_, oj, s) in &others {
        let got = snap_of(oj)?;
        ensure!(&got == s, "a journal loaded alongside differs: {}", snap::diff(s, &got));
    }
    // queries, repeated in any order, change nothing
    let symbols: Vec<String> = m.symbols.iter().cloned().collect();
    let names: Vec<String> = m.accounts.iter().cloned().collect();
    for _ in 0..rng.range(2, 10) {
        match rng.below(6) {
            0 => {
                lib(|| report::balance_report(&j)).map_err(|e| format!("report panicked: {}", e))?;
            }
            1 => {
                lib(|| report::report_accounts(&j)).map_err(|e| format!("report panicked: {}", e))?;
            }
            2 if !names.is_empty() => {
                let n = rng.pick(&names).clone();
                lib(|| j.find_account(&n).map(|a| (a.fullname().len(), a.total().amounts.len())))
                    .map_err(|e| format!("lookup panicked: {}", e))?;
            }
            3 => {
                let n = format!("{}:None{}", names.first().map(|s| s.as_str()).unwrap_or("X"), rng.below(5));
                lib(|| j.find_account(&n).is_some()).map_err(|e| format!("lookup panicked: {}", e))?;
            }
            4 if symbols.len() >= 2 => {
                let (a, b) = (rng.below(symbols.len()), rng.below(symbols.len()));
                if a != b {
                    // the product along a chain can exceed the range of the type
                    let price = || match lib(|| lookup(&j, &symbols[a], &symbols[b])) {
                        Err(e) if e.contains("overflow") => Ok(None),
                        Err(e) => Err(format!("price lookup panicked: {}", e)),
                        Ok(p) => Ok(p),
                    };
                    let first = price()?;
                    let again = price()?;
                    ensure!(first == again, "the price of {:?} in {:?} is {:?}, then {:?}", symbols[a], symbols[b], first, again);
                }
            }
            _ => {
                lib(|| j.all_posts().len()).map_err(|e| format!("all_posts panicked: {}", e))?;
            }
        }
        c.count("queries", 1);
    }
    let got = snap_of(&j)?;
    ensure!(got == base, "reports and lookups changed the journal: {}", snap::diff(&base, &got));
    // registering what exists already changes nothing
    for n in names.iter().take(5) {
        lib(|| j.register_account(n)).map_err(|e| format!("registering panicked: {}", e))?;
    }
    for s in symbols.iter().take(5) {
        lib(|| j.commodity_pool.find_or_create(s, None)).map_err(|e| format!("find_or_create panicked: {}", e))?;
    }
    drop(others);
    let got = snap_of(&j)?;
    ensure!(got == base, "looking up existing entries changed the journal: {}", snap::diff(&base, &got));
    // threads with journals of their own
    if case % 4 == 0 {
        let n = if c.small { 2 } else { 6 };
        let o2 = opts(rng, 1, c);
        let other_entries = gen::journal(rng, &o2).0;
        let other = render(&other_entries, "\n").0;
        let results: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let (text, base, other) = (&text, &base, &other);
                    s.spawn(move || {
                        for round in 0..3 {
                            if (k + round) % 3 == 2 {
                                let _ = lib(|| {
                                    let mut j = Journal::new();
                                    parse_text(other, &mut j);
                                    report::balance_report(&j).len()
                                });
                            }
                            let j = load(text)?;
                            let got = snap_of(&j)?;
                            ensure!(&got == base, "in thread {}, the journal differs: {}", k, snap::diff(base, &got));
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
        });
        c.count("thread_runs", n as u64 * 3);
        for r in results {
            r?;
        }
    }
    Ok(())
}

/// The prices of those pairs; none where the product along a chain exceeds the range of the type.
fn prices(j: &Journal, pairs: &[(String, String)]) -> Result<Vec<Option<(String, Dec, String)>>, String> {
    pairs
        .iter()
        .map(|(a, b)| match lib(|| lookup(j, a, b)) {
            Err(e) if e.contains("overflow") => Ok(None),
            Err(e) => Err(format!("price lookup panicked: {}", e)),
            Ok(p) => Ok(p),
        })
        .collect()
}

pub fn lookup(j: &Journal, a: &str, b: &str) -> Option<(String, Dec, String)> {
    let pool = &j.commodity_pool;
    let (x, y) = (pool.find(a)?, pool.find(b)?);
    let now = chrono::NaiveDate::from_ymd_opt(2023, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    crate::hooks::find_price(pool, x, y, now, now)
        .map(|(w, p)| (w.format("%Y-%m-%d %H:%M:%S").to_string(), snap::amt(&p).0, snap::amt(&p).1))
}
