//! Observation of a loaded journal through the public API (and the guarded price hook).
use crate::dec::Dec;
use crate::ensure;
use crate::hooks;
use ledger_rs_lib::{account::Account, amount::Amount, commodity::Commodity, journal::Journal, pool::CommodityIndex, post::Post, report, xact::Xact};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub fn dec(q: &impl std::fmt::Display) -> Dec {
    let t = q.to_string();
    Dec::parse(&t).unwrap_or_else(|| panic!("oracle: unreadable quantity {:?}", t))
}

pub fn sym_of(a: &Amount) -> String {
    match a.get_commodity() {
        Some(c) => c.symbol.clone(),
        None => String::new(),
    }
}

pub fn amt(a: &Amount) -> (Dec, String) {
    (dec(&a.quantity), sym_of(a))
}

/// Sum per symbol; Err if the same symbol is listed twice.
pub fn balance_map<'a>(amounts: impl Iterator<Item = &'a Amount>) -> Result<BTreeMap<String, Dec>, String> {
    let mut m = BTreeMap::new();
    for a in amounts {
        let (d, s) = amt(a);
        if m.insert(s.clone(), d).is_some() {
            return Err(format!("commodity {:?} is listed twice in a balance", s));
        }
    }
    Ok(m)
}

/// Equal, taking a missing commodity as zero.
pub fn same_balance(a: &BTreeMap<String, Dec>, b: &BTreeMap<String, Dec>) -> bool {
    let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    keys.iter().all(|k| a.get(*k).copied().unwrap_or(Dec::ZERO) == b.get(*k).copied().unwrap_or(Dec::ZERO))
}

pub fn show(m: &BTreeMap<String, Dec>) -> String {
    let v: Vec<String> = m.iter().map(|(s, d)| format!("{} {:?}", d, s)).collect();
    format!("[{}]", v.join(", "))
}

pub fn own_balance(a: &Account) -> Result<BTreeMap<String, Dec>, String> {
    balance_map(a.amount().amounts.iter())
}
pub fn total_balance(a: &Account) -> Result<BTreeMap<String, Dec>, String> {
    balance_map(a.total().amounts.iter())
}

/// Does the text consist of the amounts in `m`, in any order?
pub fn amounts_match(text: &str, m: &BTreeMap<String, Dec>) -> bool {
    fn rec(t: &str, items: &[(&String, Dec)], used: &mut Vec<bool>, budget: &mut usize) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let t = t.trim_start_matches(|c| c == ' ' || c == ',');
        if t.is_empty() {
            return used.iter().all(|u| *u);
        }
        let n = t.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-')).unwrap_or(t.len());
        if n == 0 {
            return false;
        }
        // longest symbols first, so that a symbol is not cut short
        let mut order: Vec<usize> = (0..items.len()).filter(|i| !used[*i]).collect();
        order.sort_by_key(|i| std::cmp::Reverse(items[*i].0.len()));
        for i in order {
            let (s, v) = items[i];
            if s.is_empty() {
                for k in (1..=n).rev() {
                    if Dec::parse(&t[..k]) == Some(v) {
                        used[i] = true;
                        if rec(&t[k..], items, used, budget) {
                            return true;
                        }
                        used[i] = false;
                    }
                }
            } else {
                let rest = &t[n..];
                let rest = rest.strip_prefix(' ').unwrap_or(rest);
                if let Some(after) = rest.strip_prefix(s.as_str()) {
                    if Dec::parse(&t[..n]) == Some(v) {
                        used[i] = true;
                        if rec(after, items, used, budget) {
                            return true;
                        }
                        used[i] = false;
                    }
                }
            }
        }
        false
    }
    let items: Vec<(&String, Dec)> = m.iter().map(|(s, d)| (s, *d)).collect();
    let mut used = vec![false; items.len()];
    let mut budget = 200_000;
    rec(text, &items, &mut used, &mut budget)
}

pub fn prices(j: &Journal) -> BTreeMap<(String, String, String), Dec> {
    let mut m = BTreeMap::new();
    for (s, t, when, q) in hooks::prices(&j.commodity_pool) {
        m.insert((s, t, when.format("%Y-%m-%d %H:%M:%S").to_string()), dec(&q));
    }
    m
}

fn opt_amt(a: &Option<Amount>) -> String {
    match a {
        None => "-".into(),
        Some(a) => {
            let (d, s) = amt(a);
            format!("{} {:?}", d, s)
        }
    }
}

pub fn xact_text(x: &Xact) -> String {
    let mut s = format!("X {:?} {:?} {:?} {:?}\n", x.date.map(|d| d.to_string()), x.aux_date.map(|d| d.to_string()), x.payee, x.note);
    for p in &x.posts {
        s += &format!(
            "  p {:?} {} cost {} {:?}\n",
            unsafe { &*p.account }.fullname(),
            opt_amt(&p.amount),
            opt_amt(&p.cost),
            p.note
        );
    }
    s
}

/// Canonical text of everything observable in a journal.
pub fn snapshot(j: &Journal) -> String {
    let mut s = String::new();
    for x in &j.xacts {
        s += &xact_text(x);
    }
    s += &accounts_text(j);
    s += &format!("commodities {}\n", j.commodity_pool.len());
    for i in 0..j.commodity_pool.len() {
        let c = j.commodity_pool.get_by_index(CommodityIndex::new(i));
        s += &format!("C {} {:?}\n", i, c.symbol);
    }
    for (k, v) in prices(j) {
        s += &format!("P {:?} {}\n", k, v);
    }
    for l in report::balance_report(j) {
        s += &l;
        s.push('\n');
    }
    s += &report::report_accounts(j).join("\n");
    s
}

pub fn accounts_text(j: &Journal) -> String {
    let mut s = String::new();
    for a in j.master.flatten_account_tree() {
        s += &format!(
            "A {:?} {:?} posts {} own {} total {}\n",
            a.name,
            a.fullname(),
            a.posts.len(),
            own_balance(a).map(|m| show(&m)).unwrap_or_else(|e| e),
            total_balance(a).map(|m| show(&m)).unwrap_or_else(|e| e)
        );
    }
    s
}

/// First difference of two snapshots.
pub fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..x.len().max(y.len()) {
        let (l, r) = (x.get(i).copied().unwrap_or("<nothing>"), y.get(i).copied().unwrap_or("<nothing>"));
        if l != r {
            return format!("line {}: {:?} versus {:?}", i, l, r);
        }
    }
    "no difference".into()
}

#[derive(Default, Clone, Copy)]
pub struct Walk {
    pub links: u64,
    pub derefs: u64,
}

/// Follows every link of the journal. Addresses are compared with those of live objects of
/// this journal before they are followed, so that a dangling link is reported, not chased.
pub fn walk(j: &Journal, strict: bool) -> Result<Walk, String> {
    let mut w = Walk::default();
    let accts = j.master.flatten_account_tree();
    let mut addr: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, a) in accts.iter().enumerate() {
        if addr.insert(*a as *const Account as usize, i).is_some() {
            return Err(format!("account {:?} is listed twice", a.name));
        }
    }
    for a in &accts {
        // the parent link leads to the account that holds this one
        w.links += 1;
        let Some(up) = hooks::parent(a) else { continue };
        let up = up as usize;
        if std::ptr::eq(*a, &*j.master) {
            ensure!(up == 0, "the root account has a parent");
            continue;
        }
        let Some(pi) = addr.get(&up) else {
            return Err(format!("the parent of account {:?} is not an account of the journal", a.name));
        };
        let held = accts[*pi].accounts.values().any(|x| std::ptr::eq(x.as_ref(), *a));
        ensure!(held, "account {:?} is not among the children of its parent", a.name);
    }
    // texts are texts
    let text = |s: &str, what: &str| -> Result<(), String> {
        match std::str::from_utf8(s.as_bytes()) {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("{} is not valid UTF-8: {} in {:?}", what, e, s.as_bytes())),
        }
    };
    for a in &accts {
        text(&a.name, "an account name")?;
        text(a.fullname(), "the full name of an account")?;
    }
    let mut posts: HashSet<usize> = HashSet::new();
    for x in &j.xacts {
        text(&x.payee, "a payee")?;
        text(x.note.as_deref().unwrap_or(""), "a note")?;
        for p in &x.posts {
            text(p.note.as_deref().unwrap_or(""), "a note")?;
            posts.insert(p as *const Post as usize);
        }
    }
    let mut cdtys: HashSet<usize> = HashSet::new();
    for i in 0..j.commodity_pool.len() {
        let c = j.commodity_pool.get_by_index(CommodityIndex::new(i));
        w.derefs += 1;
        text(&c.symbol, "a symbol")?;
        if c.graph_index.map(|i| i.index()) != Some(i) {
            return Err(format!("commodity at index {} says its index is {:?}", i, c.graph_index));
        }
        match j.commodity_pool.find(&c.symbol) {
            Some(f) if f as *const Commodity == c as *const Commodity => {}
            _ => return Err(format!("commodity at index {} ({:?}) is not the one found by symbol", i, c.symbol)),
        }
        cdtys.insert(c as *const Commodity as usize);
    }
    let check_amount = |a: &Amount, what: &str| -> Result<(), String> {
        if let Some(c) = a.get_commodity() {
            if !cdtys.contains(&(c as *const Commodity as usize)) {
                return Err(format!("{} refers to a commodity that is not in the journal's pool", what));
            }
        }
        Ok(())
    };
    for (xi, x) in j.xacts.iter().enumerate() {
        w.links += 1;
        ensure!(x.journal.is_null() || x.journal == j as *const Journal, "transaction {} points to another journal, or to where this one was", xi);
        for (pi, p) in x.posts.iter().enumerate() {
            w.links += 2;
            if p.xact_ptr != x as *const Xact {
                return Err(format!("posting {} of transaction {} does not point to its transaction", pi, xi));
            }
            let Some(ai) = addr.get(&(p.account as usize)) else {
                return Err(format!("posting {} of transaction {} points to no account of the journal", pi, xi));
            };
            let a = accts[*ai];
            let full = a.fullname().to_string();
            w.derefs += 1;
            match j.find_account(&full) {
                Some(f) if f as *const Account == a as *const Account => {}
                _ if !strict => {}
                _ => return Err(format!("the account of posting {} of transaction {} ({:?}) is not found by its name", pi, xi, full)),
            }
            for (am, what) in [(&p.amount, "amount"), (&p.cost, "cost")] {
                if let Some(am) = am {
                    w.links += 1;
                    check_amount(am, what)?;
                }
            }
        }
    }
    let mut linked = 0usize;
    for a in &accts {
        for p in &a.posts {
            w.links += 1;
            if !posts.contains(&(*p as usize)) {
                return Err(format!("account {:?} points to a posting that is not in the journal", a.name));
            }
            let post = unsafe { &**p };
            w.derefs += 1;
            if post.account != *a as *const Account {
                return Err(format!("account {:?} points to a posting of another account", a.name));
            }
            linked += 1;
        }
        for b in [a.amount(), a.total()] {
            for am in b.amounts.iter() {
                w.links += 1;
                check_amount(am, "balance")?;
            }
        }
    }
    if strict {
        ensure!(linked == posts.len(), "{} postings are linked from accounts, the journal has {}", linked, posts.len());
    }
    w.derefs += hooks::prices(&j.commodity_pool).len() as u64;
    Ok(w)
}
