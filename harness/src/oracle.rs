//! Oracles: what a loaded journal must look like, given the reference model of its text.
use crate::ast::*;
use crate::ctx::Ctx;
use crate::dec::{is_quotient, near_quotient, Dec};
use crate::ensure;
use crate::snap::*;
use ledger_rs_lib::{account::Account, journal::Journal, post::Post, report};
use std::collections::BTreeMap;

type Res = Result<(), String>;

fn aligned(j: &Journal, m: &Model) -> Res {
    ensure!(j.xacts.len() == m.xacts.len(), "{} transactions loaded, {} written", j.xacts.len(), m.xacts.len());
    for (i, (a, b)) in j.xacts.iter().zip(&m.xacts).enumerate() {
        ensure!(a.posts.len() == b.posts.len(), "transaction {}: {} postings loaded, {} written", i, a.posts.len(), b.posts.len());
    }
    Ok(())
}

fn fullname(p: &Post) -> String {
    unsafe { &*p.account }.fullname().to_string()
}

/// C03
pub fn structure(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    aligned(j, m)?;
    let all = j.all_posts();
    let mut k = 0;
    for (i, (a, b)) in j.xacts.iter().zip(&m.xacts).enumerate() {
        let d = a.date.map(|d| d.to_string()).unwrap_or_default();
        ensure!(d == b.date, "transaction {}: date {:?}, written {:?}", i, d, b.date);
        let x = a.aux_date.map(|d| d.to_string());
        ensure!(x == b.aux, "transaction {}: auxiliary date {:?}, written {:?}", i, x, b.aux);
        ensure!(a.payee == b.payee, "transaction {}: payee {:?}, written {:?}", i, a.payee, b.payee);
        for (n, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            let f = fullname(p);
            ensure!(f == q.account, "transaction {} posting {}: account {:?}, written {:?}", i, n, f, q.account);
            ensure!(
                k < all.len() && std::ptr::eq(all[k], p),
                "all_posts()[{}] is not posting {} of transaction {}",
                k,
                n,
                i
            );
            k += 1;
        }
    }
    ensure!(all.len() == k, "all_posts() lists {} postings, the transactions have {}", all.len(), k);
    c.count("transactions_compared", m.xacts.len() as u64);
    c.count("postings_compared", k as u64);
    Ok(())
}

/// C04 (and the part of C02 that written amounts stay as written)
pub fn written_amounts(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    aligned(j, m)?;
    for (i, (a, b)) in j.xacts.iter().zip(&m.xacts).enumerate() {
        for (n, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            if q.elided {
                continue;
            }
            let Some(am) = &p.amount else {
                return Err(format!("transaction {} posting {}: no amount, written {} {:?}", i, n, q.amount.0, q.amount.1));
            };
            let got = amt(am);
            ensure!(
                got == q.amount,
                "transaction {} posting {}: amount {} {:?}, written {} {:?}",
                i,
                n,
                got.0,
                got.1,
                q.amount.0,
                q.amount.1
            );
            c.count("written_amounts_compared", 1);
        }
    }
    Ok(())
}

/// C02
pub fn elided_amounts(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    aligned(j, m)?;
    for (i, (a, b)) in j.xacts.iter().zip(&m.xacts).enumerate() {
        for (n, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            if !q.elided {
                continue;
            }
            let Some(am) = &p.amount else {
                return Err(format!("transaction {} posting {}: the missing amount was not filled in", i, n));
            };
            let got = amt(am);
            ensure!(
                got == q.amount,
                "transaction {} posting {}: missing amount became {} {:?}, the others require {} {:?}",
                i,
                n,
                got.0,
                got.1,
                q.amount.0,
                q.amount.1
            );
            c.count("elided_amounts_compared", 1);
            if q.amount.0.m < 0 {
                c.count("elided_negative", 1);
            } else if q.amount.0.m > 0 {
                c.count("elided_positive", 1);
            } else {
                c.count("elided_zero", 1);
            }
            if q.amount.1.is_empty() {
                c.count("elided_without_commodity", 1);
            }
            if b.posts.iter().any(|p| p.cost != ECost::None) {
                c.count("elided_against_costs", 1);
            }
        }
    }
    Ok(())
}

/// C07
pub fn costs(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    aligned(j, m)?;
    for (i, (a, b)) in j.xacts.iter().zip(&m.xacts).enumerate() {
        for (n, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            let got = p.cost.as_ref().map(amt);
            match (&q.cost, &got) {
                (ECost::None, None) => {
                    c.count("postings_without_cost", 1);
                }
                (ECost::None, Some(g)) => {
                    return Err(format!("transaction {} posting {}: got a cost of {} {:?}, none is due", i, n, g.0, g.1))
                }
                (e, None) => return Err(format!("transaction {} posting {}: no cost, due {:?}", i, n, e)),
                (ECost::Exact(d, s), Some(g)) => {
                    ensure!(
                        g.0 == *d && g.1 == *s,
                        "transaction {} posting {}: cost {} {:?}, due {} {:?}",
                        i,
                        n,
                        g.0,
                        g.1,
                        d,
                        s
                    );
                    c.count("written_costs_compared", 1);
                }
                (ECost::Ratio { amt, num, den, sym }, Some(g)) => {
                    ensure!(
                        g.1 == *sym && near_quotient(g.0, amt.mul(num.abs()), den.abs(), amt.abs().to_f64() * 2e-27),
                        "transaction {} posting {}: implied cost {} {:?}, due {} * |{} / {}| {:?}",
                        i,
                        n,
                        g.0,
                        g.1,
                        amt,
                        num,
                        den,
                        sym
                    );
                    c.count("implied_costs_compared", 1);
                }
            }
            if !q.elided {
                // the posted amount itself is unchanged
                let g = p.amount.as_ref().map(amt);
                ensure!(g.as_ref() == Some(&q.amount), "transaction {} posting {}: amount {:?} changed, written {:?}", i, n, g, q.amount);
            }
        }
    }
    Ok(())
}

/// C08
pub fn prices_recorded(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    compare_prices(&prices(j), &m.prices, c)
}

pub fn compare_prices(got: &BTreeMap<(String, String, String), Dec>, want: &BTreeMap<(String, String, String), EPrice>, c: &mut Ctx) -> Res {
    for (k, e) in want {
        let Some(g) = got.get(k) else {
            return Err(format!("no price of {:?} in {:?} at {} is recorded, due {:?}", k.0, k.1, k.2, e));
        };
        let ok = match e {
            EPrice::Exact(d) => g == d,
            EPrice::Quot(n, d) => is_quotient(*g, *n, *d),
            EPrice::Near(n, d, tol) => near_quotient(*g, *n, *d, *tol),
        };
        ensure!(ok, "price of {:?} in {:?} at {}: {} recorded, due {:?}", k.0, k.1, k.2, g, e);
        c.count("prices_compared", 1);
    }
    for (k, g) in got {
        ensure!(want.contains_key(k), "a price of {} for {:?} in {:?} at {} is recorded that nothing gave", g, k.0, k.1, k.2);
    }
    Ok(())
}

type Booked = BTreeMap<*const Account, Vec<*const ledger_rs_lib::post::Post>>;

fn booked(j: &Journal) -> Booked {
    let mut b = Booked::new();
    for p in j.xacts.iter().flat_map(|x| x.posts.iter()) {
        b.entry(p.account as *const Account).or_default().push(p);
    }
    b
}

/// The account's list has each of its postings once, and nothing else.
fn own_posts(booked: &Booked, a: &Account, name: &str) -> Res {
    let mut listed: Vec<*const ledger_rs_lib::post::Post> = a.posts.iter().map(|p| *p as *const _).collect();
    listed.sort();
    let n = listed.len();
    listed.dedup();
    ensure!(listed.len() == n, "account {:?} lists a posting twice", name);
    let at: *const Account = a;
    let mut mine = booked.get(&at).cloned().unwrap_or_default();
    mine.sort();
    ensure!(mine == listed, "account {:?} lists {} postings, {} are booked to it or they are others", name, listed.len(), mine.len());
    Ok(())
}

/// C01: accounts
pub fn balances(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    let own = m.own();
    let totals = m.totals();
    let booked = booked(j);
    for (name, want) in &own {
        let a: &Account = if name.is_empty() {
            &j.master
        } else {
            match j.find_account(name) {
                Some(a) => a,
                None => return Err(format!("account {:?} is not found", name)),
            }
        };
        own_posts(&booked, a, name)?;
        c.count("posting_lists_checked", 1);
        let got = own_balance(a)?;
        ensure!(same_balance(&got, want), "account {:?}: balance {}, its postings sum up to {}", name, show(&got), show(want));
        let got = total_balance(a)?;
        let want = &totals[name];
        ensure!(same_balance(&got, want), "account {:?}: total {}, the postings below it sum up to {}", name, show(&got), show(want));
        c.count("balances_compared", 2);
        c.count("commodity_sums_compared", (want.len() + own[name].len()) as u64);
    }
    Ok(())
}

/// C01: the balance report
pub fn report_lines(lines: &[String], m: &Model, c: &mut Ctx) -> Res {
    let order = m.tree_order();
    let totals = m.totals();
    ensure!(lines.len() == order.len(), "the report has {} lines, there are {} accounts", lines.len(), order.len());
    for (l, name) in lines.iter().zip(&order) {
        let head = format!("Account {} has balance", name);
        let Some(rest) = l.strip_prefix(&head) else {
            return Err(format!("report line {:?} where account {:?} is due", l, name));
        };
        ensure!(amounts_match(rest, &totals[name]), "report line {:?}, the total is {}", l, show(&totals[name]));
        c.count("report_lines_compared", 1);
    }
    Ok(())
}

pub fn balance_report(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    report_lines(&report::balance_report(j), m, c)
}

/// Are the texts, in order, all there is in `got`?
fn note_is(got: &Option<String>, want: &[&String]) -> bool {
    let mut rest: &str = got.as_deref().unwrap_or("");
    for (i, w) in want.iter().enumerate() {
        if i > 0 {
            // one per line
            let Some(r) = rest.strip_prefix('\n') else { return false };
            rest = r;
        }
        let Some(r) = rest.strip_prefix(w.as_str()) else { return false };
        rest = r;
    }
    rest.is_empty()
}

/// C12
pub fn notes(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    aligned(j, m)?;
    for (i, (a, b)) in j.xacts.iter().zip(&m.xacts).enumerate() {
        let want: Vec<&String> = b.notes.iter().collect();
        ensure!(note_is(&a.note, &want), "transaction {}: note {:?}, written {:?}", i, a.note, b.notes);
        c.count("transaction_notes", want.len() as u64);
        for (n, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            let want: Vec<&String> = q.notes.iter().collect();
            let mut with: Vec<&String> = q.eol_note.iter().collect();
            with.extend(want.iter());
            ensure!(
                note_is(&p.note, &want) || note_is(&p.note, &with),
                "transaction {} posting {}: note {:?}, written {:?} (end of line: {:?})",
                i,
                n,
                p.note,
                q.notes,
                q.eol_note
            );
            c.count("posting_notes", want.len() as u64);
            c.count("end_of_line_notes", q.eol_note.iter().count() as u64);
        }
    }
    Ok(())
}

/// C05 on a loaded journal
pub fn accounts(j: &Journal, names: impl Iterator<Item = String>, order: &[String], c: &mut Ctx) -> Res {
    let flat = j.master.flatten_account_tree();
    let got: Vec<String> = flat.iter().map(|a| a.fullname().to_string()).collect();
    if got != order {
        let k = got.iter().zip(order).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "the flattened tree has {} accounts where {} are due; at position {}: {:?}, due {:?}",
            got.len(),
            order.len(),
            k,
            got.get(k),
            order.get(k)
        ));
    }
    let mut at: BTreeMap<String, *const Account> = BTreeMap::new();
    for a in &flat {
        at.insert(a.fullname().to_string(), *a as *const Account);
        let leaf = a.fullname().rsplit(':').next().unwrap_or("").to_string();
        ensure!(a.name == leaf, "account {:?} has the name {:?}", a.fullname(), a.name);
    }
    for n in names {
        match j.find_account(&n) {
            None => return Err(format!("account {:?} is not found", n)),
            Some(a) => {
                ensure!(a.fullname() == n, "account {:?} is found as {:?}", n, a.fullname());
                ensure!(at.get(&n) == Some(&(a as *const Account)), "account {:?} is found outside the tree", n);
            }
        }
        c.count("accounts_looked_up", 1);
    }
    Ok(())
}

/// C06 on a loaded journal
pub fn commodities(j: &Journal, m: &Model, c: &mut Ctx) -> Res {
    let pool = &j.commodity_pool;
    ensure!(pool.len() == m.symbols.len(), "{} commodities in the pool, {} symbols written: {:?}", pool.len(), m.symbols.len(), m.symbols);
    let mut ptrs = BTreeMap::new();
    for s in &m.symbols {
        let Some(cd) = pool.find(s) else { return Err(format!("commodity {:?} is not found", s)) };
        ensure!(cd.symbol == *s, "commodity {:?} is found as {:?}", s, cd.symbol);
        let Some(i) = pool.find_index(s) else { return Err(format!("commodity {:?} has no index", s)) };
        ensure!(std::ptr::eq(pool.get_by_index(i), cd), "commodity {:?} differs by index and by symbol", s);
        ensure!(std::ptr::eq(j.get_commodity(i), cd), "commodity {:?} differs by index and by symbol", s);
        ensure!(cd.graph_index == Some(i), "commodity {:?} does not know its index", s);
        if let Some(o) = ptrs.insert(cd as *const _ as usize, s.clone()) {
            return Err(format!("{:?} and {:?} share a commodity", o, s));
        }
        c.count("commodities_looked_up", 1);
    }
    ensure!(pool.find("").is_none(), "the empty symbol has a commodity");
    for x in &j.xacts {
        for p in &x.posts {
            for a in [&p.amount, &p.cost].into_iter().flatten() {
                if let Some(cd) = a.get_commodity() {
                    let Some(s) = ptrs.get(&(cd as *const _ as usize)) else {
                        return Err("an amount refers to a commodity outside the pool".to_string());
                    };
                    ensure!(*s == cd.symbol, "an amount refers to {:?} under the symbol {:?}", s, cd.symbol);
                    c.count("amount_commodities_checked", 1);
                }
            }
        }
    }
    Ok(())
}
