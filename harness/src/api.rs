//! API-level properties: account tree, commodity pool, prices, exchange, arithmetic.
use crate::ast::*;
use crate::ctx::{lib, Ctx, Res};
use crate::dec::{is_quotient, Dec};
use crate::ensure;
use crate::gen;
use crate::hooks;
use crate::oracle;
use crate::props::{self, guard, load, load_into};
use crate::rng::Rng;
use crate::scale;
use crate::snap;
use chrono::{NaiveDate, NaiveDateTime};
use ledger_rs_lib::{
    account::Account,
    amount::{Amount, Quantity},
    commodity::Commodity,
    history::Price,
    journal::Journal,
    parser,
    pool::CommodityPool,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------ C05

fn ancestors(n: &str) -> Vec<String> {
    let mut v = vec![];
    let mut p = String::new();
    for s in n.split(':') {
        if !p.is_empty() {
            p.push(':');
        }
        p += s;
        v.push(p.clone());
    }
    v
}

/// Journals that come and go, with the same few accounts registered in any way and order.
pub fn come_and_go(rng: &mut Rng, c: &mut Ctx) -> Res {
    let n = rng.range(3, 9);
    let names = gen::accounts(rng, n, 0);
    let mut kept: Vec<Journal> = vec![];
    for round in 0..rng.range(2, 10) {
        let mut j = Journal::new();
        let mut order = names.clone();
        rng.shuffle(&mut order);
        order.truncate(rng.range(1, order.len()));
        let mut m = Model::default();
        let direct = rng.below(order.len() + 1);
        let mixed = rng.chance(50);
        lib(|| -> Res {
            for (i, n) in order.iter().enumerate() {
                let p = if if mixed { rng.chance(30) } else { i < direct } { j.master.find_or_create(n, true) } else { j.register_account(n) };
                let found = j.find_account(n).map(|a| a as *const Account);
                ensure!(p.is_some() && found == p, "journal {}: account {:?} is registered as {:?} and found as {:?}", round, n, p, found);
                let a = j.get_account(p.unwrap());
                ensure!(a.fullname() == n, "journal {}: account {:?} is called {:?}", round, n, a.fullname());
                for a in ancestors(n) {
                    m.accounts.insert(a);
                }
            }
            oracle::accounts(&j, order.iter().cloned(), &m.tree_order(), c)
        })
        .map_err(|e| format!("registering accounts panicked: {}", e))??;
        c.count("short_lived_journals", 1);
        if rng.chance(30) {
            kept.push(j);
        }
    }
    Ok(())
}

/// A name with an empty part.
pub fn hollow(rng: &mut Rng, name: &str) -> String {
    let parts: Vec<&str> = name.split(':').collect();
    match rng.below(6) {
        0 => format!("{}:", name),
        1 => format!(":{}", name),
        2 => rng.pick(&[":", "::", ":::"]).to_string(),
        3 if parts.len() > 1 => format!("{}:", parts[..parts.len() - 1].join(":")),
        _ => {
            let k = rng.below(parts.len());
            let mut v: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
            if parts.len() == 1 {
                v.push("Sub".into());
            }
            v.insert(k + 1, String::new());
            v.join(":")
        }
    }
}

pub fn c05(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    if scale::is(case, c) {
        return scale::accounts(rng, c);
    }
    let style = rng.below(6);
    let n = if c.small {
        8
    } else {
        match case % 20 {
            7 => 400,
            13 => 1500,
            _ => *rng.pick(&[2, 5, 12, 30, 80]),
        }
    };
    let names = gen::accounts(rng, n, if case % 20 == 13 { 1 } else { style });
    let strangers = gen::accounts(rng, 20, style);
    let mut j = Journal::new();
    let mut m = Model::default();
    if case % 4 == 1 {
        come_and_go(rng, c)?;
    }
    let mut ptrs: HashMap<String, *const Account> = HashMap::new();
    let mut log = String::new();
    let steps = (names.len() * 2).min(2500);
    let check_every = rng.range(1, 1 + steps / 4);
    let mut next = 0;
    let res = (|| -> Res {
        for step in 0..steps {
            if rng.chance(4) && !names.is_empty() {
                // names with an empty part denote nothing
                let name = rng.pick(&names).clone();
                let name = hollow(rng, &name);
                log += &format!("hollow {}\n", name);
                let f = lib(|| j.find_account(&name).is_some()).map_err(|e| format!("find_account({:?}) panicked: {}", name, e))?;
                ensure!(!f, "find_account({:?}) finds an account", name);
                match rng.below(3) {
                    0 => {
                        if let Ok(Some(a)) = lib(|| j.register_account(&name)) {
                            return Err(format!("register_account({:?}) gave {:?}", name, unsafe { &*a }.fullname()));
                        }
                    }
                    1 => {
                        let f = lib(|| j.master.find_or_create(&name, true));
                        ensure!(!matches!(f, Ok(Some(_))), "find_or_create({:?}) gave an account", name);
                    }
                    _ => (),
                }
                c.count("hollow_names", 1);
            }
            let registered: Vec<&String> = if rng.chance(50) { m.accounts.iter().take(200).collect() } else { vec![] };
            match rng.below(10) {
                0..=4 => {
                    // register a new or a known name
                    let name = if next < names.len() && rng.chance(80) {
                        next += 1;
                        names[next - 1].clone()
                    } else if !registered.is_empty() {
                        registered[rng.below(registered.len())].clone()
                    } else {
                        continue;
                    };
                    log += &format!("register {}\n", name);
                    let via_text = rng.chance(15) && !name.ends_with(' ');
                    if via_text {
                        let t = format!("2023-01-01 X\n    {}  1\n    {}\n\n", name, name);
                        load_into(&mut j, &t)?;
                    }
                    let p = lib(|| j.register_account(&name)).map_err(|e| format!("register_account({:?}) panicked: {}", name, e))?;
                    let Some(p) = p else { return Err(format!("register_account({:?}) gave nothing", name)) };
                    if let Some(q) = ptrs.get(&name) {
                        ensure!(p == *q, "registering {:?} again gave another account", name);
                    }
                    m.add_account(&name);
                    for a in ancestors(&name) {
                        let f = lib(|| j.find_account(&a).map(|x| x as *const Account)).map_err(|e| format!("find_account({:?}) panicked: {}", a, e))?;
                        let Some(f) = f else { return Err(format!("{:?} is not found after registering {:?}", a, name)) };
                        if a == name {
                            ensure!(f == p, "looking up {:?} finds another account than registering it gave", name);
                        }
                        let q = ptrs.entry(a.clone()).or_insert(f);
                        ensure!(*q == f, "{:?} is another account after registering {:?}", a, name);
                    }
                    c.count("registrations", 1);
                }
                5..=7 => {
                    // look up a name that may or may not be there
                    let name = match rng.below(5) {
                        0 => rng.pick(&strangers).clone(),
                        1 if !names.is_empty() => rng.pick(&names).clone(),
                        2 if !registered.is_empty() => format!("{}:{}", registered[rng.below(registered.len())], gen::segment(rng, style)),
                        3 if !registered.is_empty() => {
                            let r = registered[rng.below(registered.len())];
                            r.split(':').last().unwrap().to_string()
                        }
                        _ if !registered.is_empty() => {
                            let r = registered[rng.below(registered.len())].clone();
                            let k = rng.below(3);
                            if k == 0 {
                                r.to_uppercase()
                            } else if k == 1 {
                                format!("{}x", r)
                            } else {
                                r.chars().take(r.chars().count().saturating_sub(1)).collect()
                            }
                        }
                        _ => "Nope:Nope".to_string(),
                    };
                    log += &format!("find {}\n", name);
                    let f = lib(|| j.find_account(&name).map(|x| x as *const Account)).map_err(|e| format!("find_account({:?}) panicked: {}", name, e))?;
                    let known = m.accounts.contains(&name);
                    ensure!(f.is_some() == known, "find_account({:?}): found {}, registered {}", name, f.is_some(), known);
                    if known {
                        ensure!(ptrs.get(&name) == f.as_ref(), "find_account({:?}) finds another account than before", name);
                        c.count("lookups_known", 1);
                    } else {
                        c.count("lookups_unknown", 1);
                    }
                }
                8 => {
                    // through find_or_create on an existing account
                    if registered.is_empty() {
                        continue;
                    }
                    let base = registered[rng.below(registered.len())].clone();
                    let seg = match rng.below(4) {
                        // what is there already
                        0 => {
                            let below: Vec<&String> = m.accounts.range(format!("{}:", base)..).take(3).filter(|a| a.starts_with(&format!("{}:", base))).collect();
                            if below.is_empty() {
                                continue;
                            }
                            below[rng.below(below.len())][base.len() + 1..].to_string()
                        }
                        1 => format!("{}:{}", gen::segment(rng, style), gen::segment(rng, style)),
                        _ => gen::segment(rng, style),
                    };
                    let full = format!("{}:{}", base, seg);
                    if full.split(':').count() > 60 {
                        continue;
                    }
                    let create = rng.chance(50);
                    let bp = ptrs[&base];
                    log += &format!("find_or_create {} in {} {}\n", seg, base, create);
                    let f = lib(|| unsafe { &*bp }.find_or_create(&seg, create)).map_err(|e| format!("find_or_create({:?}) panicked: {}", full, e))?;
                    let known = m.accounts.contains(&full);
                    ensure!(f.is_some() == (known || create), "find_or_create({:?}, {}): found {}, registered {}", full, create, f.is_some(), known);
                    if let Some(f) = f {
                        m.add_account(&full);
                        let q = ptrs.entry(full.clone()).or_insert(f);
                        ensure!(*q == f, "find_or_create({:?}) gave another account than before", full);
                        let parts: Vec<&str> = full.split(':').collect();
                        for n in 1..parts.len() {
                            let a = parts[..n].join(":");
                            let g = lib(|| j.find_account(&a).map(|x| x as *const Account)).map_err(|e| format!("find_account({:?}) panicked: {}", a, e))?;
                            let Some(g) = g else {
                                ensure!(false, "{:?} is missing after creating {:?}", a, full);
                                unreachable!()
                            };
                            let q = ptrs.entry(a.clone()).or_insert(g);
                            ensure!(*q == g, "{:?} is another account after creating {:?}", a, full);
                        }
                    }
                    let again = lib(|| unsafe { &*bp }.find_account(&seg).map(|a| a as *const Account)).map_err(|e| format!("find_account({:?}) panicked: {}", full, e))?;
                    ensure!(again == f, "find_account({:?}) in {:?} finds another account than find_or_create", seg, base);
                    c.count("sub_account_requests", 1);
                }
                9 if rng.chance(20) && !ptrs.is_empty() => {
                    // a load that fails, with accounts that are there
                    let v: Vec<&String> = m.accounts.iter().filter(|a| !a.ends_with(' ') && !a.starts_with(' ')).take(50).collect();
                    if v.is_empty() {
                        continue;
                    }
                    let names: Vec<String> = (0..rng.range(1, 5)).map(|_| rng.pick(&v).to_string()).collect();
                    log += &format!("failing load {:?}\n", names);
                    props::load_that_fails(rng, &mut j, &names, &["EUR".to_string()], c);
                }
                _ => {
                    // ask a full name early, so that it has to stay right
                    if let Some((n, p)) = ptrs.iter().next() {
                        let f = lib(|| unsafe { &**p }.fullname().to_string()).map_err(|e| format!("fullname of {:?} panicked: {}", n, e))?;
                        ensure!(&f == n, "the full name of {:?} reads {:?}", n, f);
                    }
                }
            }
            if step % check_every == 0 || step + 1 == steps {
                let order = m.tree_order();
                guard("walking the tree", || oracle::accounts(&j, m.accounts.iter().cloned(), &order, c))?;
                for (n, p) in &ptrs {
                    let f = lib(|| j.find_account(n).map(|x| x as *const Account)).map_err(|e| format!("find_account({:?}) panicked: {}", n, e))?;
                    ensure!(f == Some(*p), "{:?} is not the account it was", n);
                    let full = lib(|| unsafe { &**p }.fullname().to_string()).map_err(|e| format!("fullname of {:?} panicked: {}", n, e))?;
                    ensure!(&full == n, "the full name of {:?} reads {:?}", n, full);
                }
                c.count("tree_checks", 1);
            }
        }
        Ok(())
    })();
    c.max("max_accounts", m.accounts.len() as u64);
    c.nontrivial = m.accounts.len() >= 2;
    c.input = log;
    res
}

// ------------------------------------------------------------------ C06

pub fn c06(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    if scale::is(case, c) {
        return scale::commodities(rng, c);
    }
    if case % 2 == 0 {
        // journals
        let mut o = props::opts(rng, case, c);
        o.symbols = if c.small { 5 } else { *rng.pick(&[2, 4, 8, 20, 60, 200]) };
        let (e, u) = gen::journal(rng, &o);
        let (text, _) = render(&e, "\n");
        c.input = text.clone();
        let parts = rng.range(1, 3);
        let mut j = Journal::new();
        let mut m = Model::default();
        for g in props::split(rng, &e, parts) {
            load_into(&mut j, &render(&g, "\n").0)?;
            m.extend(&g);
            guard("looking up commodities", || oracle::commodities(&j, &m, c))?;
        }
        guard("reading amounts", || oracle::written_amounts(&j, &m, c))?;
        let _ = u;
        c.max("max_commodities", m.symbols.len() as u64);
        c.nontrivial = m.symbols.len() >= 2;
        return Ok(());
    }
    let n = if c.small { 8 } else { *rng.pick(&[3, 6, 15, 40, 120, if case % 101 == 5 { 1200 } else { 400 }]) };
    let mut syms = gen::symbols(rng, n);
    for i in 0..syms.len() {
        // also ones that differ in case only
        if rng.chance(20) {
            let v = if rng.chance(50) { syms[i].to_lowercase() } else { syms[i].to_uppercase() };
            if !syms.contains(&v) {
                syms.push(v);
            }
        }
    }
    let mut j = Journal::new();
    let mut known: BTreeMap<String, (*const Commodity, usize)> = BTreeMap::new();
    let mut amounts: Vec<(Amount, String)> = vec![];
    let mut log = String::new();
    let steps = (syms.len() * 3).min(4000);
    let res = (|| -> Res {
        for step in 0..steps {
            let s = rng.pick(&syms).clone();
            let what = rng.below(8);
            log += &format!("{} {}\n", what, s);
            let pool = &mut j.commodity_pool;
            match what {
                0 | 1 | 2 => {
                    let p = lib(|| match what {
                        0 => pool.create(&s, None),
                        _ => pool.find_or_create(&s, None),
                    })
                    .map_err(|e| format!("creating {:?} panicked: {}", s, e))?;
                    ensure!(!p.is_null(), "creating {:?} gave nothing", s);
                    let cd = unsafe { &*p };
                    ensure!(cd.symbol == s, "creating {:?} gave {:?}", s, cd.symbol);
                    let Some(i) = cd.graph_index else { return Err(format!("{:?} has no index", s)) };
                    if let Some((q, qi)) = known.get(&s) {
                        ensure!(p == *q, "{:?} is another commodity than before", s);
                        ensure!(i.index() == *qi, "{:?} has another index than before", s);
                    } else {
                        ensure!(!known.values().any(|(q, qi)| *q == p || *qi == i.index()), "{:?} shares its commodity or index with another symbol", s);
                        known.insert(s.clone(), (p, i.index()));
                    }
                    c.count("creations", 1);
                }
                3 => {
                    let t = format!("{} {}", rng.below(1000), s);
                    let a = lib(|| parser::parse_amount(&t, &mut j)).map_err(|e| format!("parse_amount({:?}) panicked: {}", t, e))?;
                    let Some(a) = a else { return Err(format!("parse_amount({:?}) gave nothing", t)) };
                    ensure!(snap::sym_of(&a) == s, "parse_amount({:?}) has commodity {:?}", t, snap::sym_of(&a));
                    let p = a.get_commodity().unwrap() as *const Commodity;
                    let i = unsafe { &*p }.graph_index.map(|i| i.index());
                    if let Some((q, _)) = known.get(&s) {
                        ensure!(p == *q, "an amount in {:?} has another commodity", s);
                    } else {
                        known.insert(s.clone(), (p, i.unwrap_or(usize::MAX)));
                    }
                    amounts.push((a, s.clone()));
                }
                4 => {
                    let t = format!("{}", rng.below(1000));
                    let a = lib(|| parser::parse_amount(&t, &mut j)).map_err(|e| format!("parse_amount({:?}) panicked: {}", t, e))?;
                    ensure!(a.map(|a| a.get_commodity().is_none()) == Some(true), "an amount without a symbol has a commodity");
                    let p = j.commodity_pool.find_or_create("", None);
                    ensure!(p.is_null(), "the empty symbol has a commodity");
                }
                5 => {
                    let t = format!("P 2023-01-{:02} {} {} {}", rng.range(1, 28), s, rng.range(1, 99), syms[rng.below(syms.len())]);
                    let other = t.split(' ').last().unwrap().to_string();
                    if other != s {
                        lib(|| pool.parse_price_directive(&t)).map_err(|e| format!("{:?} panicked: {}", t, e))?;
                        for s in [s, other] {
                            let cd = pool.find(&s).ok_or(format!("{:?} is not found after {:?}", s, t))?;
                            let i = cd.graph_index.map(|i| i.index()).unwrap_or(usize::MAX);
                            let q = known.entry(s.clone()).or_insert((cd, i));
                            ensure!(*q == (cd as *const Commodity, i), "{:?} is another commodity than before", s);
                        }
                    }
                }
                6 if rng.chance(15) && !known.is_empty() => {
                    // a load that fails, in commodities that are there
                    let v: Vec<String> = known.keys().take(6).cloned().collect();
                    let n = rng.range(1, 4);
                    let names: Vec<String> = (0..n).map(|i| format!("A:{}", i)).collect();
                    props::load_that_fails(rng, &mut j, &names, &v, c);
                }
                _ => {
                    let f = lib(|| pool.find(&s).map(|x| x as *const Commodity)).map_err(|e| format!("find({:?}) panicked: {}", s, e))?;
                    ensure!(f == known.get(&s).map(|k| k.0), "find({:?}) does not find the commodity created", s);
                    let i = lib(|| pool.find_index(&s).map(|x| x.index())).map_err(|e| format!("find_index({:?}) panicked: {}", s, e))?;
                    ensure!(i == known.get(&s).map(|k| k.1), "find_index({:?}) is {:?}", s, i);
                    c.count("lookups", 1);
                }
            }
            if step % 16 == 0 || step + 1 == steps {
                let pool = &j.commodity_pool;
                ensure!(pool.len() == known.len(), "{} commodities, {} symbols created", pool.len(), known.len());
                for (s, (p, i)) in &known {
                    let f = lib(|| pool.find(s).map(|x| x as *const Commodity)).map_err(|e| format!("find({:?}) panicked: {}", s, e))?;
                    ensure!(f == Some(*p), "{:?} has moved or is lost", s);
                    let cd = unsafe { &**p };
                    ensure!(cd.symbol == *s && cd.graph_index.map(|x| x.index()) == Some(*i), "{:?} has changed to {:?}, index {:?}", s, cd.symbol, cd.graph_index);
                    let by = lib(|| pool.get_by_index(cd.graph_index.unwrap()) as *const Commodity).map_err(|e| format!("get_by_index({}) panicked: {}", i, e))?;
                    ensure!(by == *p, "{:?} is not found by its index", s);
                }
                for (a, s) in &amounts {
                    ensure!(snap::sym_of(a) == *s, "an amount in {:?} now reads {:?}", s, snap::sym_of(a));
                }
                c.count("pool_checks", 1);
            }
        }
        Ok(())
    })();
    c.max("max_commodities", known.len() as u64);
    c.nontrivial = known.len() >= 2;
    c.input = log;
    res
}

// ------------------------------------------------------------------ C08

pub fn dt(d: &Date, t: Option<(u32, u32, u32)>) -> NaiveDateTime {
    let (h, m, s) = t.unwrap_or((0, 0, 0));
    let day = NaiveDate::from_ymd_opt(d.y as i32, d.m, d.d).unwrap();
    if s == 60 {
        return day.and_hms_milli_opt(h, m, 59, 1000).unwrap();
    }
    day.and_hms_opt(h, m, s).unwrap()
}

pub fn c08(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    assert!(hooks::PRESENT, "generator: needs the hooks");
    if scale::is(case, c) {
        return scale::prices(rng, c);
    }
    let mut o = props::opts(rng, if case % 4 == 3 { case + 1 } else { case }, c);
    o.w_simple = 2;
    o.w_cost_elided = 5;
    o.w_cost = 5;
    o.w_two = 5;
    o.price = 50;
    o.lot = 20;
    o.symbols = o.symbols.max(2);
    o.few_dates = rng.chance(60);
    if !c.small && case % 50 == 31 {
        // many prices of few pairs
        o = gen::Opts { xacts: (20, 60), symbols: 3, price: 95, few_dates: false, ..o };
    }
    let (mut e, u) = gen::journal(rng, &o);
    if rng.chance(20) {
        // of many digits
        for x in e.iter_mut() {
            if let Entry::Price(p) = x {
                p.num = gen::fine_num(rng);
            }
        }
    }
    if !c.small && case % 50 == 32 {
        // very many
        let (s, t) = (rng.pick(&u.symbols).clone(), rng.pick(&u.symbols).clone());
        for _ in 0..rng.range(200, 1600) {
            let Some(mut p) = gen::price(rng, &o, &u) else { break };
            if s != t && rng.chance(80) {
                p.sym = s.clone();
                p.psym = t.clone();
                p.date = gen::date(rng);
            }
            e.push(Entry::Price(p));
        }
        if rng.chance(30) {
            // in the order of time
            e.sort_by_key(|x| match x {
                Entry::Price(p) => (p.date.y, p.date.m, p.date.d, p.time),
                _ => (0, 0, 0, None),
            });
        }
    }
    let nl = props::eol(rng);
    let (text, _) = render(&e, nl);
    c.input = text.clone();
    let mut j = load(&text)?;
    let mut m = Model::of(&e);
    guard("reading prices", || oracle::prices_recorded(&j, &m, c))?;
    let d = rng.pick(&u.dates).clone();
    let p = lib(|| parser::parse_datetime(&d.iso()).ok()).map_err(|e| format!("parse_datetime panicked: {}", e))?;
    ensure!(p == Some(dt(&d, None)), "parse_datetime({:?}) is {:?}", d.iso(), p);
    // prices added through the API, then more text
    for _ in 0..rng.below(12) {
        let Some(p) = gen::price(rng, &o, &u) else { break };
        let v = Quantity::from_str(&p.num).expect("generator: number");
        let when = dt(&p.date, p.time);
        let k = rng.below(3);
        c.input += &format!("; api {} {:?}\n", k, p);
        lib(|| {
            let pool = &mut j.commodity_pool;
            if k == 2 {
                let mut p2 = p.clone();
                p2.sep = " ".into();
                pool.parse_price_directive(&entry_lines(&Entry::Price(p2))[0]);
            } else {
                let s = pool.find_or_create(&p.sym, None);
                let t = pool.find_or_create(&p.psym, None);
                let a = Amount::new(v, Some(t));
                if k == 0 {
                    pool.add_price(s, when, a);
                } else {
                    pool.add_price_struct(Price::new(s, when, a));
                }
            }
        })
        .map_err(|e| format!("adding a price panicked: {}", e))?;
        m.extend(&[Entry::Price(p)]);
        c.count("api_prices", 1);
        guard("reading prices", || oracle::prices_recorded(&j, &m, c))?;
    }
    if rng.chance(30) {
        let more = gen::entries(rng, &o, &u);
        let t = render(&more, nl).0;
        c.input += &t;
        load_into(&mut j, &t)?;
        m.extend(&more);
        guard("reading prices", || oracle::prices_recorded(&j, &m, c))?;
    }
    c.max("max_prices", m.prices.len() as u64);
    c.max("max_commodities", m.symbols.len() as u64);
    c.nontrivial = !m.prices.is_empty();
    Ok(())
}

// ------------------------------------------------------------------ C09

pub fn c09(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    assert!(hooks::PRESENT, "generator: needs the hooks");
    let huge = scale::is(case, c);
    let chain = huge || case % 5 == 4;
    let long = huge || !c.small && case % 50 == 24;
    // few commodities, prices of many digits
    let fine = !c.small && !chain && case % 5 == 3;
    let n = if c.small { 5 } else if fine { rng.range(2, 6) } else if huge { rng.range(260, 900) } else if long { rng.range(30, 90) } else if chain { rng.range(5, 24) } else { rng.range(2, 14) };
    let syms = gen::symbols(rng, n);
    let digits = if chain { 1 } else { 2 };
    let mut prices: Vec<PriceA> = vec![];
    let mut dates: Vec<Date> = vec![];
    for _ in 0..rng.range(1, 12) {
        dates.push(gen::date(rng));
    }
    let add = |prices: &mut Vec<PriceA>, rng: &mut Rng, a: usize, b: usize| {
        for _ in 0..rng.range(1, 4) {
            let v = rng.range(1, 10usize.pow(digits) - 1);
            let num = if huge { "1".to_string() } else if long { (*rng.pick(&["1", "1", "1", "1", "1", "1", "1.0", "2", "0.5", "3"])).to_string() } else if rng.chance(3) { "0".to_string() } else if rng.chance(50) { v.to_string() } else { Dec::new(v as i128, rng.below(3) as u32).to_string() };
            let num = if fine && rng.chance(80) {
                // the product of all of them still fits
                let most = 27 / (n - 1);
                let mut digits = String::new();
                for _ in 0..rng.range(1, most) {
                    digits.push(*rng.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '9']));
                }
                let scale = if rng.chance(60) { most } else { rng.below(most + 1) };
                Dec::new(digits.parse().unwrap(), scale as u32).to_string()
            } else {
                num
            };
            let num = if rng.chance(4) { format!("-{}", num) } else { num };
            prices.push(PriceA {
                date: rng.pick(&dates).clone(),
                time: if rng.chance(50) { Some(gen::time(rng)) } else { None },
                sym: syms[a].clone(),
                num,
                psym: syms[b].clone(),
                sep: " ".into(),
                trail: String::new(),
            });
        }
    };
    if chain {
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        for w in order.windows(2) {
            add(&mut prices, rng, w[0], w[1]);
            if rng.chance(20) {
                add(&mut prices, rng, w[1], w[0]);
            }
        }
        if rng.chance(30) {
            let (a, b) = (rng.below(n), rng.below(n));
            if a != b {
                add(&mut prices, rng, a, b);
            }
        }
    } else {
        let edges = rng.range(1, n * 2);
        for _ in 0..edges {
            let (a, b) = (rng.below(n), rng.below(n));
            if a != b {
                add(&mut prices, rng, a, b);
                if rng.chance(30) {
                    add(&mut prices, rng, b, a);
                }
            }
        }
    }
    rng.shuffle(&mut prices);
    let mut m = Model::default();
    let mut text = String::new();
    let entries: Vec<Entry> = prices.iter().map(|p| Entry::Price(p.clone())).collect();
    m.extend(&entries);
    text += &render(&entries, "\n").0;
    c.input = text.clone();
    let mut j = Journal::new();
    let via_text = rng.chance(60);
    if via_text {
        load_into(&mut j, &text)?;
    } else {
        lib(|| {
            for s in &syms {
                j.commodity_pool.find_or_create(s, None);
            }
            for p in &prices {
                let pool = &mut j.commodity_pool;
                let (s, t) = (pool.find_or_create(&p.sym, None), pool.find_or_create(&p.psym, None));
                pool.add_price(s, dt(&p.date, p.time), Amount::new(Quantity::from_str(&p.num).unwrap(), Some(t)));
            }
        })
        .map_err(|e| format!("adding prices panicked: {}", e))?;
    }
    let rounds = if c.small || long { 1 } else { rng.range(1, 3) };
    for round in 0..rounds {
    if round > 0 {
        // more prices after lookups: newer and older ones, and new connections
        let from = prices.len();
        for _ in 0..rng.range(1, 3) {
            let (a, b) = if !prices.is_empty() && rng.chance(50) {
                let p = rng.pick(&prices).clone();
                (syms.iter().position(|s| *s == p.sym).unwrap(), syms.iter().position(|s| *s == p.psym).unwrap())
            } else {
                (rng.below(n), rng.below(n))
            };
            if a != b {
                add(&mut prices, rng, a, b);
            }
        }
        let entries: Vec<Entry> = prices[from..].iter().map(|p| Entry::Price(p.clone())).collect();
        m.extend(&entries);
        let t = render(&entries, "\n").0;
        c.input += &format!("; after lookups\n{}", t);
        load_into(&mut j, &t)?;
        c.count("growth_between_lookups", 1);
    }
    // reference: newest price per directed pair
    let mut newest: BTreeMap<String, BTreeMap<String, (String, Dec)>> = BTreeMap::new();
    for ((s, t, w), p) in &m.prices {
        let EPrice::Exact(d) = p else { unreachable!() };
        let e = newest.entry(s.clone()).or_default().entry(t.clone()).or_insert((w.clone(), *d));
        if *w >= e.0 {
            *e = (w.clone(), *d);
        }
    }
    let before = snap::prices(&j);
    let known: Vec<&String> = syms.iter().filter(|s| j.commodity_pool.find(s).is_some()).collect();
    let mut pairs = vec![];
    for a in &known {
        for b in &known {
            if a != b {
                pairs.push(((*a).clone(), (*b).clone()));
            }
        }
    }
    rng.shuffle(&mut pairs);
    if long {
        pairs.truncate(if huge { 12 } else { 150 });
    }
    let none = BTreeMap::new();
    for (a, b) in &pairs {
        // layers of a breadth-first search, with all (product, oldest) combinations
        let mut seen: BTreeSet<String> = BTreeSet::new();
        seen.insert(a.clone());
        let mut layer: BTreeMap<String, Vec<(Dec, Option<String>)>> = BTreeMap::new();
        layer.insert(a.clone(), vec![(Dec::int(1), None)]);
        let mut hops = 0;
        let mut overflow = false;
        let want = loop {
            if let Some(v) = layer.get(b) {
                break Some(v.clone());
            }
            let mut next: BTreeMap<String, Vec<(Dec, Option<String>)>> = BTreeMap::new();
            for (s, combos) in &layer {
                for (t, (w, q)) in newest.get(s).unwrap_or(&none) {
                    if seen.contains(t) {
                        continue;
                    }
                    let e = next.entry(t.clone()).or_default();
                    for (d, o) in combos {
                        let o2 = match o {
                            Some(x) if x < w => x.clone(),
                            _ => w.clone(),
                        };
                        let item = (d.mul(*q), Some(o2));
                        if !e.contains(&item) {
                            e.push(item);
                        }
                        if e.len() > 400 {
                            overflow = true;
                        }
                    }
                }
            }
            if next.is_empty() || overflow {
                break None;
            }
            for t in next.keys() {
                seen.insert(t.clone());
            }
            layer = next;
            hops += 1;
        };
        if overflow {
            c.count("lookups_skipped", 1);
            continue;
        }
        let moment = if rng.chance(50) { dt(&gen::date(rng), None) } else { dt(rng.pick(&dates), None) };
        let oldest = if rng.chance(50) { moment } else { dt(&gen::date(rng), None) };
        let ask = |j: &Journal| {
            let (x, y) = (j.commodity_pool.find(a).unwrap(), j.commodity_pool.find(b).unwrap());
            hooks::find_price(&j.commodity_pool, x, y, moment, oldest)
                .map(|(w, p)| (w.format("%Y-%m-%d %H:%M:%S").to_string(), snap::amt(&p).0, snap::amt(&p).1))
        };
        let got = lib(|| ask(&j)).map_err(|e| format!("looking up {:?} in {:?} panicked: {}", a, b, e))?;
        match (&want, &got) {
            (None, None) => c.count("lookups_unconnected", 1),
            (None, Some(g)) => return Err(format!("{:?} in {:?}: found {:?}, but no chain of prices connects them", a, b, g)),
            (Some(_), None) => return Err(format!("{:?} in {:?}: nothing found, a chain of {} prices connects them", a, b, hops)),
            (Some(w), Some(g)) => {
                ensure!(g.2 == *b, "{:?} in {:?}: the price is in {:?}", a, b, g.2);
                ensure!(
                    w.iter().any(|(d, o)| *d == g.1 && o.as_deref() == Some(g.0.as_str())),
                    "{:?} in {:?}: {} at {}, expected one of {:?}",
                    a,
                    b,
                    g.1,
                    g.0,
                    w.iter().map(|(d, o)| format!("{} at {}", d, o.as_deref().unwrap_or(""))).collect::<Vec<_>>()
                );
                if hops == 1 {
                    c.count("lookups_direct", 1);
                } else {
                    c.count("lookups_chained", 1);
                }
                c.max("max_chain", hops as u64);
            }
        }
        let again = lib(|| ask(&j)).map_err(|e| format!("looking up {:?} in {:?} again panicked: {}", a, b, e))?;
        ensure!(got == again, "{:?} in {:?}: {:?}, asked again {:?}", a, b, got, again);
        c.nontrivial = true;
    }
    ensure!(snap::prices(&j) == before, "lookups changed the price history");
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn c10(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = props::opts(rng, case % 4, c);
    o.lot = 40;
    o.symbols = rng.range(2, 8);
    o.xacts = (0, 8);
    let imax = rng.range(1, 6);
    let fmax = rng.range(0, 5);
    let (e, u) = gen::journal(rng, &o);
    let (mut text, _) = render(&e, "\n");
    // lot prices without a commodity
    let mut bare: Vec<(String, Dec)> = vec![];
    if rng.chance(40) {
        for _ in 0..rng.range(1, 2) {
            let s = rng.pick(&u.symbols).clone();
            let l = gen::num(rng, 2, 2, false);
            text += &format!("2024-02-03 Bare lot\n    Assets:Lots  10 {} {{{}}}\n    Assets:Cash\n\n", s, l);
            bare.push((s, Dec::parse(&l).unwrap()));
        }
    }
    c.input = text.clone();
    let mut j = load(&text)?;
    // all lot prices written per commodity
    let mut lots: BTreeMap<String, Vec<(Dec, String)>> = BTreeMap::new();
    for x in &e {
        if let Entry::Xact(x) = x {
            for p in &x.posts {
                if let (Some(a), Some(l)) = (&p.amt, &p.lot_price) {
                    lots.entry(a.sym.clone()).or_default().push((l.value(), l.sym.clone()));
                }
            }
        }
    }
    for (s, d) in bare {
        // the product falls back to the commodity of the amount
        lots.entry(s.clone()).or_default().push((d, s));
    }
    for _ in 0..rng.range(3, 20) {
        let s = rng.pick(&u.symbols).clone();
        let t = rng.pick(&u.symbols).clone();
        let (na, nc) = (rng.chance(40), rng.chance(40));
        let mut qa = gen::num(rng, imax, fmax, na);
        let mut qc = gen::num(rng, imax, fmax, nc);
        let per_unit = rng.chance(50);
        // a cost next to nothing for a huge quantity, down to unit prices below the precision
        let tiny = rng.chance(6);
        if tiny {
            let i = rng.range(8, 15);
            qa = gen::num(rng, i, 0, na);
            qc = format!("{}0.{}{}", if nc { "-" } else { "" }, "0".repeat(rng.range(8, 24)), rng.range(1, 999));
        }
        // a cost without a commodity
        let t = if !per_unit && rng.chance(8) { String::new() } else { t };
        let d = gen::date(rng);
        let when = dt(&d, if rng.chance(50) { Some((12, 30, 1)) } else { None });
        c.input += &format!("; exchange {} {} cost {} {} per unit {}\n", qa, s, qc, t, per_unit);
        let (va, vc) = (Dec::parse(&qa).unwrap(), Dec::parse(&qc).unwrap());
        let before = snap::prices(&j);
        let (ps, pt) = (j.commodity_pool.find_or_create(&s, None), j.commodity_pool.find_or_create(&t, None));
        let a = Amount::new(Quantity::from_str(&qa).unwrap(), Some(ps));
        let k = Amount::new(Quantity::from_str(&qc).unwrap(), Some(pt));
        let (b, price) = lib(|| j.commodity_pool.exchange(&a, &k, per_unit, when)).map_err(|e| format!("exchange panicked: {}", e))?;
        let what = format!("exchange({} {:?}, {} {:?}, per unit {})", qa, s, qc, t, per_unit);
        ensure!(snap::amt(&b.amount) == (va, s.clone()), "{}: amount {:?}", what, snap::amt(&b.amount));
        let final_cost = if per_unit { vc.mul(va.abs()) } else { vc };
        ensure!(snap::amt(&b.final_cost) == (final_cost, t.clone()), "{}: final cost {:?}, due {}", what, snap::amt(&b.final_cost), final_cost);
        let got = snap::amt(&b.basis_cost);
        match lots.get(&s) {
            Some(l) => {
                ensure!(
                    l.iter().any(|(p, ps)| got == (p.mul(va), ps.clone())),
                    "{}: basis cost {} {:?}, lot prices {:?}",
                    what,
                    got.0,
                    got.1,
                    l.iter().map(|(d, s)| format!("{} {:?}", d, s)).collect::<Vec<_>>()
                );
                c.count("basis_from_lot", 1);
            }
            None => {
                ensure!(got == (final_cost, t.clone()), "{}: basis cost {} {:?}, due {}", what, got.0, got.1, final_cost);
                c.count("basis_from_cost", 1);
            }
        }
        // price on offer
        let unit_exact = if per_unit || va.is_zero() { Some(vc.abs()) } else { None };
        // a quotient may come out as zero below 1e-28, and must below half of that
        let small = |k: i128| !per_unit && !va.is_zero() && Dec::new(vc.abs().m * k, vc.s) < Dec::new(va.abs().m, va.s + 28);
        let (must_be_zero, may_be_zero) = if tiny { (vc.is_zero() || small(2), vc.is_zero() || small(1)) } else { (vc.is_zero(), vc.is_zero()) };
        if must_be_zero && !vc.is_zero() {
            c.count("prices_below_precision", 1);
        }
        match &price {
            None => ensure!(may_be_zero || s == t, "{}: no price on offer", what),
            Some(p) => {
                ensure!(!must_be_zero && s != t, "{}: a price of {:?} is on offer, none is due", what, snap::amt(&p.price));
                ensure!(p.datetime == when, "{}: the price is for {}", what, p.datetime);
                ensure!(p.commodity == ps, "{}: the price is for another commodity", what);
                let (v, vs) = snap::amt(&p.price);
                ensure!(vs == t, "{}: the price is in {:?}", what, vs);
                let ok = match unit_exact {
                    Some(d) => v == d,
                    None => is_quotient(v, vc.abs(), va.abs()),
                };
                ensure!(ok && !v.is_zero(), "{}: unit price {}", what, v);
                c.count("prices_on_offer", 1);
            }
        }
        ensure!(snap::prices(&j) == before, "{}: changed the price history", what);
        c.count("exchanges", 1);
        c.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

fn q(s: &str) -> Quantity {
    Quantity::from_str(s).expect("generator: number")
}

pub fn c16(rng: &mut Rng, _case: u64, c: &mut Ctx) -> Res {
    let mut pool = CommodityPool::new();
    let syms = gen::symbols(rng, 4);
    let mut ptr: Vec<Option<*const Commodity>> = vec![None];
    let mut name: Vec<String> = vec![String::new()];
    for s in &syms {
        ptr.push(Some(pool.find_or_create(s, None)));
        name.push(s.clone());
    }
    let mut log = String::new();
    let res = (|| -> Res {
        for _ in 0..20 {
            // budgets: sums need common digits, products the sum of the digits
            let add_i = rng.range(1, 20);
            let add_f = rng.range(0, 27 - add_i);
            let mul_i = rng.range(1, 7);
            let mul_f = rng.range(0, 6);
            let n = |rng: &mut Rng, i, f| {
                let neg = rng.chance(50);
                gen::num(rng, i, f, neg)
            };
            let (x, y) = (n(rng, add_i, add_f), n(rng, add_i, add_f));
            let (dx, dy) = (Dec::parse(&x).unwrap(), Dec::parse(&y).unwrap());
            let (s, t) = (rng.below(ptr.len()), rng.below(ptr.len()));
            let a = Amount::new(q(&x), ptr[s]);
            let b = Amount::new(q(&y), ptr[t]);
            log += &format!("{} {:?} / {} {:?}\n", x, name[s], y, name[t]);
            let is = |g: &Amount, d: Dec, k: usize, what: &str| -> Res {
                let (v, sy) = snap::amt(g);
                ensure!(v == d && sy == name[k], "{} of {} {:?} and {} {:?}: {} {:?}, due {} {:?}", what, x, name[s], y, name[t], v, sy, d, name[k]);
                if k == 0 {
                    ensure!(g.get_commodity().is_none(), "{}: a commodity out of nothing", what);
                } else {
                    ensure!(g.get_commodity().map(|c| c as *const Commodity) == ptr[k], "{}: another commodity", what);
                }
                Ok(())
            };
            // reading and writing
            ensure!(snap::dec(&q(&x)) == dx, "{:?} reads as {}", x, q(&x));
            ensure!(snap::dec(&Quantity::from(x.as_str())) == dx, "{:?} reads as {}", x, q(&x));
            let (iv, jv) = (rng.next() as i32, rng.below(2000) as i32 - 1000);
            for v in [iv, jv] {
                ensure!(snap::dec(&Quantity::from(v)) == Dec::int(v as i128), "{} becomes {}", v, Quantity::from(v));
                let back: i32 = lib(|| Quantity::from(v).into()).map_err(|e| format!("i32 round trip of {} panicked: {}", v, e))?;
                ensure!(back == v, "{} comes back as {}", v, back);
                is(&Amount::new(Quantity::from(v), None), Dec::int(v as i128), 0, "From<i32>")?;
                is(&Amount::from(v), Dec::int(v as i128), 0, "From<i32>")?;
            }
            // sums
            let r = lib(|| a + b);
            let mut a2 = a;
            let r2 = lib(|| {
                a2 += b;
                a2
            });
            let mut a3 = a;
            let r3 = lib(|| {
                Amount::add(&mut a3, &b);
                a3
            });
            let mut a4 = a;
            let r4 = lib(|| {
                a4 -= b;
                a4
            });
            for (r, what, d) in [(r, "+", dx.add(dy)), (r2, "+=", dx.add(dy)), (r3, "add", dx.add(dy)), (r4, "-=", dx.sub(dy))] {
                if s == t {
                    let g = r.map_err(|e| format!("{} of {} and {} in {:?} panicked: {}", what, x, y, name[s], e))?;
                    is(&g, d, s, what)?;
                    c.count("sums_compared", 1);
                } else {
                    ensure!(r.is_err(), "{} of {} {:?} and {} {:?} was not refused", what, x, name[s], y, name[t]);
                    c.count("mixed_sums_refused", 1);
                }
            }
            let same = Amount::new(q(&y), ptr[s]);
            is(&lib(|| a + same).map_err(|e| format!("+ panicked: {}", e))?, dx.add(dy), s, "+")?;
            // signs
            let inv = lib(|| a.inverse()).map_err(|e| format!("inverse of {} {:?} panicked: {}", x, name[s], e))?;
            is(&inv, dx.neg(), s, "inverse")?;
            let mut z = a;
            z.invert();
            is(&z, dx.neg(), s, "invert")?;
            z.invert();
            is(&z, dx, s, "invert twice")?;
            is(&a.abs(), dx.abs(), s, "abs")?;
            is(&Amount::copy_from(&a), dx, s, "copy_from")?;
            ensure!(a.is_zero() == dx.is_zero(), "is_zero of {}", x);
            ensure!(a.is_null() == (dx.is_zero() && s == 0), "is_null of {} {:?}", x, name[s]);
            let mut z = a;
            z.remove_commodity();
            is(&z, dx, 0, "remove_commodity")?;
            is(&Amount::null(), Dec::ZERO, 0, "null")?;
            // comparison
            let (qx, qy) = (q(&x), q(&y));
            ensure!((qx == qy) == (dx == dy), "{} == {}", x, y);
            ensure!(qx.cmp(&qy) == dx.cmp(&dy), "{} compared with {}", x, y);
            ensure!((qx < qy) == (dx < dy) && (qx >= qy) == (dx >= dy), "{} compared with {}", x, y);
            ensure!((a == b) == (dx == dy && s == t), "{} {:?} == {} {:?}", x, name[s], y, name[t]);
            let padded = if x.contains('.') { format!("{}0", x) } else { format!("{}.0", x) };
            ensure!(q(&padded) == qx && Amount::new(q(&padded), ptr[s]) == a, "{} == {}", padded, x);
            ensure!(qx.is_zero() == dx.is_zero(), "is_zero of {}", x);
            if !dx.is_zero() {
                ensure!(qx.is_sign_positive() == (dx.m > 0), "is_sign_positive of {}", x);
            }
            let mut z = qx;
            z.set_sign_positive();
            ensure!(snap::dec(&z) == dx.abs(), "set_sign_positive of {}: {}", x, z);
            z.set_sign_negative();
            ensure!(snap::dec(&z) == dx.abs().neg(), "set_sign_negative of {}: {}", x, z);
            ensure!(snap::dec(&(qx + qy)) == dx.add(dy), "{} + {} = {}", x, y, qx + qy);
            let mut z = qx;
            z += qy;
            ensure!(snap::dec(&z) == dx.add(dy), "{} += {}: {}", x, y, z);
            let mut z = qx;
            z -= qy;
            ensure!(snap::dec(&z) == dx.sub(dy), "{} -= {}: {}", x, y, z);
            // products and quotients
            let (x, y) = (n(rng, mul_i, mul_f), n(rng, mul_i, mul_f));
            let (dx, dy) = (Dec::parse(&x).unwrap(), Dec::parse(&y).unwrap());
            let a = Amount::new(q(&x), ptr[s]);
            let b = Amount::new(q(&y), ptr[t]);
            let k = if s != 0 { s } else { t };
            log += &format!("{} {:?} * {} {:?}\n", x, name[s], y, name[t]);
            let is = |g: &Amount, d: Dec, k: usize, what: &str| -> Res {
                let (v, sy) = snap::amt(g);
                ensure!(v == d && sy == name[k], "{} of {} {:?} and {} {:?}: {} {:?}, due {} {:?}", what, x, name[s], y, name[t], v, sy, d, name[k]);
                Ok(())
            };
            let p = lib(|| a * b).map_err(|e| format!("{} {:?} * {} {:?} panicked: {}", x, name[s], y, name[t], e))?;
            is(&p, dx.mul(dy), k, "*")?;
            let mut z = a;
            z *= b;
            is(&z, dx.mul(dy), k, "*=")?;
            ensure!(snap::dec(&(q(&x) * q(&y))) == dx.mul(dy), "{} * {}", x, y);
            let mut z = q(&x);
            z *= q(&y);
            ensure!(snap::dec(&z) == dx.mul(dy), "{} *= {}", x, y);
            if !dy.is_zero() {
                let g = lib(|| a / b).map_err(|e| format!("{} / {} panicked: {}", x, y, e))?;
                let (v, sy) = snap::amt(&g);
                ensure!(sy == name[k], "{} {:?} / {} {:?} is in {:?}", x, name[s], y, name[t], sy);
                ensure!(is_quotient(v, dx, dy), "{} / {} = {}", x, y, v);
                ensure!(is_quotient(snap::dec(&(q(&x) / q(&y))), dx, dy), "{} / {}", x, y);
            } else {
                ensure!(lib(|| a / b).is_err(), "{} / {} was not refused", x, y);
            }
            c.count("products_compared", 4);
            // next to each other
            let (d, w) = (rng.range(1, 28), rng.below(29));
            let x = gen::sized(rng, d, w);
            let y = gen::neighbour(rng, &x);
            let (dx, dy) = (Dec::parse(&x).unwrap(), Dec::parse(&y).unwrap());
            log += &format!("{} <> {}\n", x, y);
            let (qx, qy) = (q(&x), q(&y));
            ensure!(
                (qx == qy) == (dx == dy) && (qx != qy) == (dx != dy) && qx.cmp(&qy) == dx.cmp(&dy) && qx.partial_cmp(&qy) == Some(dx.cmp(&dy)),
                "{} compared with {}", x, y
            );
            ensure!((qx < qy) == (dx < dy) && (qx <= qy) == (dx <= dy) && (qx > qy) == (dx > dy) && (qx >= qy) == (dx >= dy), "{} compared with {}", x, y);
            ensure!(qx.max(qy) == if dx >= dy { qx } else { qy }, "the larger of {} and {}", x, y);
            ensure!((Amount::new(qx, ptr[s]) == Amount::new(qy, ptr[s])) == (dx == dy), "{} == {}", x, y);
            let mut z = Amount::new(qx, ptr[s]);
            let r = lib(|| {
                z -= Amount::new(qy, ptr[s]);
                z
            })
            .map_err(|e| format!("{} -= {} panicked: {}", x, y, e))?;
            ensure!(snap::dec(&r.quantity) == dx.sub(dy), "{} -= {}: {}", x, y, r.quantity);
            c.count("neighbours_compared", 1);
            // all the digits there are: products of up to 28 digits and 28 decimals
            let d1 = rng.range(1, 27);
            let d2 = rng.range(1, 28 - d1);
            let s1 = rng.below(29);
            let s2 = rng.below(29 - s1);
            let (x, y) = (gen::sized(rng, d1, s1), gen::sized(rng, d2, s2));
            let (dx, dy) = (Dec::parse(&x).unwrap(), Dec::parse(&y).unwrap());
            log += &format!("{} {:?} * {} {:?}\n", x, name[s], y, name[t]);
            let (a, b) = (Amount::new(q(&x), ptr[s]), Amount::new(q(&y), ptr[t]));
            let (mut za, mut zq) = (a, a.quantity);
            let p = lib(|| {
                za *= b;
                zq *= b.quantity;
                [(a * b).quantity, (b * a).quantity, za.quantity, zq, a.quantity * b.quantity]
            })
            .map_err(|e| format!("{} * {} panicked: {}", x, y, e))?;
            for p in p {
                ensure!(snap::dec(&p) == dx.mul(dy), "{} * {} = {}", x, y, p);
            }
            // and sums in the same scale
            let (x, y) = (gen::sized(rng, d1, s1), gen::sized(rng, d1.min(27), s1));
            let (dx, dy) = (Dec::parse(&x).unwrap(), Dec::parse(&y).unwrap());
            log += &format!("{} + {}\n", x, y);
            let (a, b) = (Amount::new(q(&x), ptr[s]), Amount::new(q(&y), ptr[s]));
            let (mut zp, mut zm, mut zq) = (a, a, a.quantity);
            let p = lib(|| {
                zp += b;
                zm -= b;
                zq -= b.quantity;
                ((a + b).quantity, zp.quantity, zm.quantity, zq)
            })
            .map_err(|e| format!("{} + {} panicked: {}", x, y, e))?;
            ensure!(snap::dec(&p.0) == dx.add(dy) && snap::dec(&p.1) == dx.add(dy), "{} + {} = {} or {}", x, y, p.0, p.1);
            ensure!(snap::dec(&p.2) == dx.sub(dy) && snap::dec(&p.3) == dx.sub(dy), "{} - {} = {} or {}", x, y, p.2, p.3);
            ensure!((a == b) == (dx == dy) && a.quantity.cmp(&b.quantity) == dx.cmp(&dy), "{} compared with {}", x, y);
            ensure!(snap::dec(&a.inverse().quantity) == dx.neg() && snap::dec(&a.abs().quantity) == dx.abs(), "inverse or abs of {}", x);
            c.count("full_width_operations", 9);
            // wide by narrow
            let (x, y) = (n(rng, 14, 8), n(rng, 3, 2));
            let (dx, dy) = (Dec::parse(&x).unwrap(), Dec::parse(&y).unwrap());
            let (a, b) = (Amount::new(q(&x), ptr[s]), Amount::new(q(&y), ptr[t]));
            let p = lib(|| (a * b, b * a)).map_err(|e| format!("{} * {} panicked: {}", x, y, e))?;
            ensure!(snap::amt(&p.0).0 == dx.mul(dy) && snap::amt(&p.1).0 == dx.mul(dy), "{} * {} = {}", x, y, p.0.quantity);
            if !dx.is_zero() && !dy.is_zero() {
                let g = lib(|| (a / b, b / a)).map_err(|e| format!("{} / {} panicked: {}", x, y, e))?;
                ensure!(is_quotient(snap::amt(&g.0).0, dx, dy), "{} / {} = {}", x, y, g.0.quantity);
                ensure!(is_quotient(snap::amt(&g.1).0, dy, dx), "{} / {} = {}", y, x, g.1.quantity);
            }
            let v = rng.below(4001) as i32 - 2000;
            let f = Quantity::from(v as f32 / 4.0);
            ensure!(snap::dec(&f) == Dec::new(v as i128 * 25, 2), "{}/4 as f32 becomes {}", v, f);
        }
        // balances: one exact sum per commodity, whatever the order
        let (i, f) = (rng.range(1, 16), rng.range(0, 8));
        let mut items: Vec<(Amount, Dec, usize, bool)> = vec![];
        for _ in 0..rng.range(1, 60) {
            let neg = rng.chance(50);
            let x = gen::num(rng, i, f, neg);
            let s = rng.below(ptr.len());
            let minus = rng.chance(30);
            log += &format!("balance {} {} {:?}\n", if minus { "-=" } else { "+=" }, x, name[s]);
            items.push((Amount::new(q(&x), ptr[s]), Dec::parse(&x).unwrap(), s, minus));
        }
        let mut want: BTreeMap<String, Dec> = BTreeMap::new();
        for (_, d, s, minus) in &items {
            let e = want.entry(name[*s].clone()).or_insert(Dec::ZERO);
            *e = if *minus { e.sub(*d) } else { e.add(*d) };
        }
        for _ in 0..3 {
            let holder = Account::new("holder");
            let got = lib(|| {
                let mut bal = holder.amount();
                let mut part = holder.amount();
                for (a, _, _, minus) in &items {
                    match (minus, rng.below(3)) {
                        (true, _) => bal -= *a,
                        (false, 0) => bal += *a,
                        (false, 1) => bal.add(a),
                        (false, _) => part.add(a),
                    }
                }
                bal += part;
                snap::balance_map(bal.amounts.iter())
            })
            .map_err(|e| format!("accumulating a balance panicked: {}", e))??;
            ensure!(got == want, "balance {}, due {}", snap::show(&got), snap::show(&want));
            rng.shuffle(&mut items);
            c.count("balances_compared", 1);
        }
        c.nontrivial = true;
        Ok(())
    })();
    c.input = log;
    res
}

