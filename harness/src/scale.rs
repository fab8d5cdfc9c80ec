//! Cases beyond 16 bits of anything, in the optimised build only.
use crate::api::dt;
use crate::ctx::{lib, Ctx, Res};
use crate::ensure;
use crate::gen;
use crate::hooks;
use crate::props::load_into;
use crate::rng::Rng;
use crate::snap;
use ledger_rs_lib::{
    account::Account,
    amount::{Amount, Quantity},
    commodity::Commodity,
    journal::Journal,
};
use std::collections::{BTreeMap, HashSet};

/// Is this one of the few large cases?
pub fn is(case: u64, c: &Ctx) -> bool {
    !cfg!(debug_assertions) && !c.small && case % 20000 == 777
}

/// Very many accounts side by side, and accounts very far down.
pub fn accounts(rng: &mut Rng, c: &mut Ctx) -> Res {
    let mut j = Journal::new();
    let n = rng.range(66_000, 70_000);
    let parent = *rng.pick(&["", "Assets:", "Assets:Bank:"]);
    c.input = format!("{} accounts {}N…", n, parent);
    let name = |i: usize| format!("{}N{}", parent, i);
    let mut order: Vec<usize> = (0..n).collect();
    if rng.chance(50) {
        rng.shuffle(&mut order);
    }
    let mut ptrs: Vec<*const Account> = vec![std::ptr::null(); n];
    let by_text = rng.range(0, 3000);
    let mut text = String::new();
    for i in order.iter().take(by_text) {
        text += &format!("2023-01-01 X\n  {}  1\n  {}\n\n", name(*i), name(*i));
    }
    load_into(&mut j, &text)?;
    for i in &order {
        let p = lib(|| j.register_account(&name(*i))).map_err(|e| format!("register_account({:?}) panicked: {}", name(*i), e))?;
        let Some(p) = p else { return Err(format!("register_account({:?}) gave nothing", name(*i))) };
        ptrs[*i] = p;
    }
    ensure!(ptrs.iter().collect::<HashSet<_>>().len() == n, "{} accounts were registered, and some of them are the same", n);
    for i in 0..n {
        let f = lib(|| j.find_account(&name(i)).map(|a| (a as *const Account, a.fullname().to_string()))).map_err(|e| format!("find_account({:?}) panicked: {}", name(i), e))?;
        ensure!(f == Some((ptrs[i], name(i))), "of {} accounts, {:?} is found as {:?}", n, name(i), f.map(|x| x.1));
    }
    ensure!(lib(|| j.find_account(&name(n)).is_none()) == Ok(true), "of {} accounts, {:?} is found and was never registered", n, name(n));
    c.max("max_accounts", n as u64);
    c.count("lookups_known", n as u64);
    // far down
    let depth = rng.range(200, 500);
    let mut deep = "Deep".to_string();
    for i in 0..depth {
        deep += &format!(":{}", i % 7);
    }
    let p = lib(|| j.register_account(&deep)).map_err(|e| format!("register_account of {} levels panicked: {}", depth, e))?;
    let mut at = 0;
    let mut level = 0;
    loop {
        let end = deep[at..].find(':').map(|x| at + x).unwrap_or(deep.len());
        let n = &deep[..end];
        let f = lib(|| j.find_account(n).map(|a| (a as *const Account, a.fullname().to_string()))).map_err(|e| format!("find_account panicked at level {}: {}", level, e))?;
        let Some((q, full)) = f else { return Err(format!("the account at level {} of {} is not found", level, depth)) };
        ensure!(full == n, "the full name at level {} of {} has {} characters instead of {}", level, depth, full.len(), n.len());
        if end == deep.len() {
            ensure!(Some(q) == p, "the account at level {} is another one when looked up", level);
            break;
        }
        at = end + 1;
        level += 1;
    }
    c.max("max_depth", depth as u64);
    c.nontrivial = true;
    Ok(())
}

/// Very many commodities.
pub fn commodities(rng: &mut Rng, c: &mut Ctx) -> Res {
    let mut j = Journal::new();
    let n = rng.range(66_000, 70_000);
    c.input = format!("{} commodities", n);
    // letters only, so that they can stand in a text
    let name = |mut i: usize| {
        let mut s = String::from("S");
        while i > 0 {
            s.push((b'a' + (i % 26) as u8) as char);
            i /= 26;
        }
        s
    };
    let name = |i: usize| format!("{}_", name(i));
    let mut ptrs: Vec<*const Commodity> = vec![];
    let mut amounts: Vec<Amount> = vec![];
    for i in 0..n {
        let p = lib(|| j.commodity_pool.find_or_create(&name(i), None)).map_err(|e| format!("find_or_create({:?}) panicked: {}", name(i), e))?;
        ptrs.push(p);
        if i % 7 == 0 {
            amounts.push(Amount::new(Quantity::from(i as i32), Some(p)));
        }
    }
    ensure!(ptrs.iter().collect::<HashSet<_>>().len() == n, "{} commodities were created, and some of them are the same", n);
    let mut indices = HashSet::new();
    for i in 0..n {
        let f = lib(|| j.commodity_pool.find(&name(i)).map(|p| p as *const Commodity)).map_err(|e| format!("find({:?}) panicked: {}", name(i), e))?;
        ensure!(f == Some(ptrs[i]), "of {} commodities, {:?} is not found as it was created", n, name(i));
        let again = lib(|| j.commodity_pool.find_or_create(&name(i), None)).map_err(|e| format!("find_or_create({:?}) panicked: {}", name(i), e))?;
        ensure!(again == ptrs[i], "of {} commodities, {:?} is created again", n, name(i));
        let x = unsafe { &*ptrs[i] };
        ensure!(x.symbol == name(i), "of {} commodities, number {} is called {:?}", n, i, x.symbol);
        indices.insert(x.graph_index);
    }
    ensure!(indices.len() == n, "{} commodities have {} places in the price graph", n, indices.len());
    for (k, a) in amounts.iter().enumerate() {
        let s = snap::sym_of(a);
        ensure!(s == name(k * 7), "an amount of {:?} is in {:?}", name(k * 7), s);
    }
    // and prices between the last ones
    if hooks::PRESENT {
        let (a, b) = (n - 1, rng.below(n - 1));
        let d = gen::date(rng);
        let v = rng.range(1, 1000) as i32;
        lib(|| j.commodity_pool.add_price(ptrs[a], dt(&d, None), Amount::new(Quantity::from(v), Some(ptrs[b])))).map_err(|e| format!("adding a price panicked: {}", e))?;
        let got = snap::prices(&j);
        let want: BTreeMap<(String, String), String> = [((name(a), name(b)), v.to_string())].into();
        let got2: BTreeMap<(String, String), String> = got.iter().map(|(k, v)| ((k.0.clone(), k.1.clone()), v.to_string())).collect();
        ensure!(got.len() == 1 && got2 == want, "one price among {} commodities: {:?}, due {:?}", n, got2, want);
    }
    c.max("max_commodities", n as u64);
    c.nontrivial = true;
    Ok(())
}

/// Very many moments of one pair.
pub fn prices(rng: &mut Rng, c: &mut Ctx) -> Res {
    let n = rng.range(66_000, 70_000);
    c.input = format!("{} prices of one pair", n);
    let mut order: Vec<usize> = (0..n).collect();
    if rng.chance(70) {
        rng.shuffle(&mut order);
    }
    let start = chrono::NaiveDate::from_ymd_opt(1950, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    let when = |i: usize| start + chrono::Duration::seconds(i as i64 * 36_007);
    let mut want = BTreeMap::new();
    let mut j = Journal::new();
    let by_text = rng.below(n);
    let mut text = String::new();
    for (k, i) in order.iter().enumerate() {
        let v = rng.range(1, 100_000);
        want.insert(("A".to_string(), "B".to_string(), when(*i).format("%Y-%m-%d %H:%M:%S").to_string()), v.to_string());
        if k < by_text {
            text += &format!("P {} A {} B\n", when(*i).format("%Y-%m-%d %H:%M:%S"), v);
        } else {
            if k == by_text {
                load_into(&mut j, &text)?;
            }
            lib(|| {
                let pool = &mut j.commodity_pool;
                let (a, b) = (pool.find_or_create("A", None), pool.find_or_create("B", None));
                pool.add_price(a, when(*i), Amount::new(Quantity::from(v as i32), Some(b)))
            })
            .map_err(|e| format!("adding a price panicked: {}", e))?;
        }
    }
    let got: BTreeMap<_, _> = snap::prices(&j).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    ensure!(got.len() == want.len(), "{} prices of one pair were recorded, {} are kept", want.len(), got.len());
    for (k, v) in &want {
        ensure!(got.get(k) == Some(v), "of {} prices, the one at {} is {:?}, recorded {}", n, k.2, got.get(k), v);
    }
    let newest = want.iter().next_back().unwrap();
    let pool = &j.commodity_pool;
    let f = lib(|| hooks::find_price(pool, pool.find("A").unwrap(), pool.find("B").unwrap(), when(n), when(n))).map_err(|e| format!("looking up a price panicked: {}", e))?;
    let f = f.map(|(w, p)| (w.format("%Y-%m-%d %H:%M:%S").to_string(), snap::amt(&p).0.to_string()));
    ensure!(f == Some((newest.0 .2.clone(), newest.1.clone())), "of {} prices, {:?} is found, the newest is {} at {}", n, f, newest.1, newest.0 .2);
    c.max("max_prices", n as u64);
    c.nontrivial = true;
    Ok(())
}
