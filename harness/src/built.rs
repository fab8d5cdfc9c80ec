//! C18: journals assembled through the API.
use crate::ast::*;
use crate::ctx::{lib, Ctx, Res};
use crate::ensure;
use crate::gen;
use crate::oracle;
use crate::props;
use crate::rng::Rng;
use crate::snap;
use chrono::{NaiveDate, NaiveTime};
use ledger_rs_lib::{
    amount::{Amount, Quantity},
    history::Price,
    journal::Journal,
    parser,
    post::Post,
    xact::{finalize, Xact},
};

fn day(d: &Date) -> NaiveDate {
    NaiveDate::from_ymd_opt(d.y as i32, d.m, d.d).expect("generator: date")
}

fn amount(rng: &mut Rng, j: &mut Journal, a: &Amt) -> Amount {
    match rng.below(4) {
        0 => {
            let t = format!("{}{}{}", rng.pick(&["", "", " "]), a.render(), rng.pick(&["", "", " "]));
            parser::parse_amount(&t, j).expect("an amount")
        }
        1 => parser::parse_amount_parts(&a.num, &a.sym, j).expect("an amount"),
        2 => {
            let c = j.commodity_pool.find_or_create(&a.sym, None);
            Amount::new(Quantity::from_str(&a.num).expect("a quantity"), Some(c))
        }
        _ => {
            let c = j.commodity_pool.find_or_create(&a.sym, None);
            Amount::new(a.num.as_str().into(), Some(c))
        }
    }
}

fn post(rng: &mut Rng, j: &mut Journal, p: &PostA) -> Post {
    let account = if rng.chance(80) {
        j.register_account(&p.account).expect("an account")
    } else {
        j.master.find_or_create(&p.account, true).expect("an account")
    };
    let a = p.amt.as_ref().map(|a| amount(rng, j, a));
    let cost = match (&p.cost, &a) {
        (Some(c), Some(a)) => {
            let mut x = amount(rng, j, &c.amt);
            if c.per_unit {
                if rng.chance(50) {
                    x *= *a;
                } else {
                    x = x * *a;
                }
            }
            Some(x)
        }
        _ => None,
    };
    let notes: Vec<&str> = p.comments.iter().map(|n| n.trim()).filter(|n| !n.is_empty()).collect();
    let k = rng.below(notes.len() + 1);
    let first = if k > 0 { Some(notes[..k].join("\n")) } else { None };
    let first = first.as_deref();
    let mut post = match rng.below(3) {
        0 => {
            let mut x = Post::default();
            x.account = account;
            x.amount = a;
            x.cost = cost;
            x.note = first.map(|n| n.to_string());
            x
        }
        _ => Post::new(account, std::ptr::null(), a, cost, first),
    };
    for n in notes.iter().skip(k) {
        post.add_note(n);
    }
    post
}

fn header(rng: &mut Rng, x: &XactA) -> Xact {
    let note = x.hnote.as_deref().map(|n| n.trim()).unwrap_or("");
    let payee = x.payee.as_deref().map(|p| p.trim()).unwrap_or("");
    let aux = x.aux.as_ref().map(|d| d.written()).unwrap_or_default();
    let mut t = if rng.chance(60) {
        Xact::create(&x.date.written(), &aux, payee, note)
    } else {
        let n = if note.is_empty() { None } else { Some(note.to_string()) };
        let mut t = Xact::new(Some(day(&x.date)), if payee.is_empty() { "Unknown Payee" } else { payee }, n);
        t.aux_date = x.aux.as_ref().map(day);
        t
    };
    for c in &x.comments {
        let c = c.trim();
        if !c.is_empty() {
            t.add_note(c);
        }
    }
    t
}

/// Puts the transaction into the journal, without finalising it.
fn put(rng: &mut Rng, j: &mut Journal, x: &XactA) -> Res {
    let mut t = header(rng, x);
    let k = match rng.below(3) {
        0 => 0,
        1 => x.posts.len(),
        _ => rng.below(x.posts.len() + 1),
    };
    // some postings before it is in the journal, the rest after
    for p in &x.posts[..k] {
        let p = post(rng, j, p);
        let want = (p.account, p.amount.is_some());
        let got = t.add_post(p);
        ensure!((got.account, got.amount.is_some()) == want, "add_post returned another posting");
    }
    if rng.chance(30) {
        // moved around
        let b = Box::new(t);
        t = *b;
    }
    let n = j.xacts.len();
    let at = j.add_xact(t) as *const Xact;
    ensure!(j.xacts.len() == n + 1 && std::ptr::eq(at, &j.xacts[n]), "add_xact did not return the transaction that was added last");
    for p in &x.posts[k..] {
        let p = post(rng, j, p);
        j.xacts[n].add_post(p);
    }
    for (i, p) in j.xacts[n].posts.iter().enumerate() {
        ensure!(std::ptr::eq(p.xact_ptr, &j.xacts[n]), "posting {} does not point to its transaction after add_xact", i);
    }
    Ok(())
}

fn price(rng: &mut Rng, j: &mut Journal, p: &PriceA) {
    match rng.below(3) {
        0 => {
            let line = entry_lines(&Entry::Price(p.clone())).remove(0);
            j.commodity_pool.parse_price_directive(&line)
        }
        k => {
            let (h, m, s) = p.time.unwrap_or((0, 0, 0));
            let time = NaiveTime::parse_from_str(&format!("{:02}:{:02}:{:02}", h, m, s), "%H:%M:%S").expect("generator: time");
            let when = day(&p.date).and_time(time);
            let c = j.commodity_pool.find_or_create(&p.sym, None);
            let a = amount(rng, j, &Amt { num: p.num.clone(), sym: p.psym.clone(), prefix: false, gap: 1 });
            if k == 1 {
                j.commodity_pool.add_price(c, when, a)
            } else {
                j.commodity_pool.add_price_struct(Price::new(c, when, a))
            }
        }
    }
}

fn assemble(rng: &mut Rng, j: &mut Journal, e: &[Entry], c: &mut Ctx) -> Res {
    let mut i = 0;
    while i < e.len() {
        match &e[i] {
            Entry::Price(p) => {
                price(rng, j, p);
                c.count("prices_added", 1);
                i += 1;
            }
            Entry::Xact(_) => {
                // a few of them at once, finalised in order
                let most = if rng.chance(40) { rng.range(2, 12) } else { 1 };
                let first = j.xacts.len();
                let mut n = 0;
                while n < most {
                    let Some(Entry::Xact(x)) = e.get(i + n) else { break };
                    put(rng, j, x)?;
                    n += 1;
                }
                for k in first..first + n {
                    let at = &j.xacts[k] as *const Xact;
                    finalize(at, j);
                }
                c.count("transactions_assembled", n as u64);
                i += n;
            }
            _ => i += 1,
        }
    }
    Ok(())
}

/// Everything but the order in which the commodities came up.
fn picture(j: &Journal) -> String {
    let (mut cs, mut rest) = (vec![], vec![]);
    for l in snap::snapshot(j).lines() {
        match l.strip_prefix("C ").and_then(|l| l.split_once(' ')) {
            Some((_, s)) => cs.push(s.to_string()),
            None => rest.push(l.to_string()),
        }
    }
    cs.sort();
    format!("{}\n{}", rest.join("\n"), cs.join("\n"))
}

fn without_lots(e: &mut [Entry]) {
    for x in e {
        if let Entry::Xact(x) = x {
            for p in &mut x.posts {
                p.lot_price = None;
                p.lot_date = None;
            }
        }
    }
}

pub fn c18(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = props::opts(rng, case, c);
    if rng.chance(50) {
        o.w_empty = o.w_empty.max(1);
    }
    let (mut e, u) = gen::journal(rng, &o);
    if rng.chance(10) {
        e.extend(props::extreme_xacts(rng, &o, &u, 2));
    }
    without_lots(&mut e);
    let (text, _) = render(&e, "\n");
    c.input = text.clone();
    let m = Model::of(&e);
    c.nontrivial = !m.xacts.is_empty();
    let base = lib(|| picture(&props::load(&text).expect("loading a supported journal")))?;
    for mixed in [false, true] {
        let parts = if mixed { rng.range(2, 6) } else { 1 };
        let groups = props::split(rng, &e, parts);
        let mut j = Journal::new();
        let mut done = Model::default();
        for g in &groups {
            if mixed && rng.chance(50) {
                props::load_into(&mut j, &render(g, "\n").0)?;
            } else {
                match lib(|| assemble(rng, &mut j, g, c)) {
                    Ok(r) => r?,
                    Err(e) => return Err(format!("assembling a supported journal panicked: {}", e)),
                }
            }
            done.extend(g);
            if rng.chance(30) {
                props::guard("reporting", || oracle::balance_report(&j, &done, c))?;
            }
            if rng.chance(20) {
                // elsewhere
                let b = Box::new(j);
                j = *b;
            }
        }
        props::guard("reading the journal", || {
            oracle::structure(&j, &m, c)?;
            oracle::written_amounts(&j, &m, c)?;
            oracle::elided_amounts(&j, &m, c)?;
            oracle::costs(&j, &m, c)?;
            oracle::prices_recorded(&j, &m, c)?;
            oracle::notes(&j, &m, c)?;
            oracle::balances(&j, &m, c)?;
            oracle::balance_report(&j, &m, c)
        })?;
        let got = lib(|| picture(&j))?;
        ensure!(got == base, "the journal assembled through the API ({}) differs from the one loaded from the text: {}", if mixed { "mixed with loads" } else { "alone" }, snap::diff(&base, &got));
        snap::walk(&j, true)?;
        c.count("journals_assembled", 1);
    }
    Ok(())
}
