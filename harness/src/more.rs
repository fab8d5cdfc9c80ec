//! Memory safety (C11), commands (C15), malformed and interrupted input (C17).
use crate::api;
use crate::ast::*;
use crate::ctx::{lib, Ctx, Res};
use crate::ensure;
use crate::gen;
use crate::oracle;
use crate::props::{self, bad_number_posts, load, load_into, must_refuse, Chunked};
use crate::dict;
use crate::rng::Rng;
use crate::snap;
use crate::spoil;
use ledger_rs_lib::{journal::Journal, parse_text, report};
use std::io::{self, ErrorKind, Read};

// ------------------------------------------------------------------ C11

fn walk(j: &Journal, strict: bool, c: &mut Ctx, what: &str) -> Res {
    let w = lib(|| snap::walk(j, strict)).map_err(|e| format!("{}: following the links panicked: {}", what, e))?;
    let w = w.map_err(|e| format!("{}: {}", what, e))?;
    c.count("links_checked", w.links);
    c.count("objects_followed", w.derefs);
    c.count("walks", 1);
    Ok(())
}

/// Uses everything reachable; the memory monitors watch.
fn use_all(j: &Journal, small: bool) -> usize {
    let some = if small { 3 } else { 6 };
    let mut n = lib(|| snap::snapshot(j).len()).unwrap_or(0);
    if !small {
        n += lib(|| report::balance_report(j).len()).unwrap_or(0);
    }
    n += lib(|| j.all_posts().iter().map(|p| unsafe { &*p.xact_ptr }.payee.len() + unsafe { &*p.account }.fullname().len()).sum::<usize>()).unwrap_or(0);
    n += lib(|| {
        let mut s = 0;
        let pool = &j.commodity_pool;
        for i in 0..pool.len().min(some) {
            for k in 0..pool.len().min(some) {
                if i != k {
                    let (a, b) = (
                        pool.get_by_index(ledger_rs_lib::pool::CommodityIndex::new(i)).symbol.clone(),
                        pool.get_by_index(ledger_rs_lib::pool::CommodityIndex::new(k)).symbol.clone(),
                    );
                    s += props::lookup(j, &a, &b).map(|x| x.2.len()).unwrap_or(1);
                }
            }
        }
        s
    })
    .unwrap_or(0);
    n
}

const PIECES: &[&str] = &[
    ";", " ", "  ", "\n", "\r\n", "\t", "@", "@@", "{", "}", "[", "]", "(", ")", "-", ".", ",", "\"", ":", "::", "$", "€", "日", "\u{301}", "0", "9",
    "2023-01-01", "P ", "P 2023-01-01 A 1 B", "include x", "=", "*", "!", "~", "#", "|", "%", "a", "    ", "\n\n", "{1 EUR}", "[2023-01-01]",
    "99999999999999999999999999999", "\u{0}", "\u{feff}", "2023-13-45 X", "    A  1 EUR\n", "    B\n", "apply", "account A", "end", "comment",
    "\u{a0}", "-5", "1 EUR @ 2 USD", "1 EUR @@ 2 USD", "; note\n", "A:B:C", ":", " @ ", "EUR", "é",
];

pub fn mutate(rng: &mut Rng, text: &str, times: usize) -> Vec<u8> {
    let mut b: Vec<u8> = text.as_bytes().to_vec();
    for _ in 0..times {
        let n = b.len();
        let at = rng.below(n + 1);
        match rng.below(11) {
            0 if n > 0 => {
                let k = rng.below(8).min(n - at.min(n));
                b.drain(at..at + k);
            }
            1 | 2 | 3 | 4 => {
                let w = dict::word(rng, |_| true);
                let p = w.unwrap_or_else(|| *rng.pick(PIECES)).as_bytes();
                b.splice(at..at, p.iter().copied());
            }
            5 if n > 0 => {
                let i = rng.below(n);
                b[i] = *rng.pick(b" ;@{}[]-.,:\n\r\t0Aa=\"$\0\xff\x80");
            }
            6 | 7 | 8 => {
                // lines: drop, duplicate, swap, join
                let mut lines: Vec<Vec<u8>> = b.split(|x| *x == b'\n').map(|l| l.to_vec()).collect();
                let (i, k) = (rng.below(lines.len()), rng.below(lines.len()));
                match rng.below(5) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => {
                        let l = lines[i].clone();
                        lines.insert(k, l);
                    }
                    2 => lines.swap(i, k),
                    3 => {
                        let l = lines[i].clone();
                        lines[k].extend(l);
                    }
                    _ => {
                        let cut = rng.below(lines[i].len() + 1);
                        lines[i].truncate(cut);
                    }
                }
                b = lines.join(&b'\n');
            }
            9 => b.truncate(at),
            _ => {
                let p = rng.pick(PIECES).as_bytes().repeat(rng.range(2, 60));
                b.splice(at..at, p.into_iter());
            }
        }
    }
    b
}

fn garbage(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 25) {
        if let Some(w) = dict::word(rng, |_| true) {
            s += w;
        } else if rng.chance(70) {
            s += *rng.pick(PIECES);
        } else {
            s.push(char::from_u32(rng.below(0x250) as u32).unwrap_or('x'));
        }
    }
    s
}

/// Thousands of transactions, in steps.
fn large(rng: &mut Rng, c: &mut Ctx) -> Res {
    let mut j = Journal::new();
    let accounts = rng.range(2, 300);
    let mut n = 0;
    for _ in 0..rng.range(1, 4) {
        let mut t = String::new();
        for _ in 0..rng.range(100, 1500) {
            n += 1;
            t += &format!("2023-01-01 P{}\n    A:B{}  {} S{}\n", n, n % accounts, n, ["a", "b", "c"][n % 3]);
            for k in 0..if rng.chance(2) { rng.range(2, 70) } else { 0 } {
                t += &format!("    C:D{}  {} S{}\n", (n + k) % accounts, k, ["a", "b", "c"][n % 3]);
            }
            t += "    E\n\n";
        }
        load_into(&mut j, &t)?;
        c.input = format!("{} transactions, {} accounts", n, accounts);
        walk(&j, true, c, "after a load")?;
    }
    use_all(&j, false);
    let j = Box::new(j);
    walk(&j, true, c, "after moving the journal")?;
    c.count("large_journals", 1);
    c.max("max_transactions", n as u64);
    c.nontrivial = true;
    Ok(())
}

pub fn c11(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let o = props::opts(rng, case, c);
    if !c.small && case % 96 == 17 {
        return large(rng, c);
    }
    match case % 8 {
        0 | 1 | 2 => {
            if case % 3 == 0 {
                // only what is not in the journal is of interest here
                match api::come_and_go(rng, c) {
                    Err(e) if e.contains("is registered as") => return Err(e),
                    _ => (),
                }
            }
            let (e, u) = gen::journal(rng, &o);
            let nl = props::eol(rng);
            c.input = render(&e, nl).0;
            c.nontrivial = !e.is_empty();
            let mut j = Journal::new();
            let parts = if c.small { 2 } else { rng.range(1, 5) };
            let groups = props::split(rng, &e, parts);
            for g in &groups {
                load_into(&mut j, &render(g, nl).0)?;
                walk(&j, true, c, "after a load")?;
                if !c.small && rng.chance(50) {
                    use_all(&j, c.small);
                }
            }
            // move the journal value around
            let mut held: Vec<Journal> = Vec::new();
            held.push(j);
            for _ in 0..rng.range(1, 9) {
                held.push(Journal::new());
            }
            let last = held.len() - 1;
            held.swap(0, last);
            let mut boxed = Box::new(held.pop().unwrap());
            held.clear();
            held.shrink_to_fit();
            walk(&boxed, true, c, "after moving the journal")?;
            if !c.small {
                use_all(&boxed, c.small);
            }
            // and go on with it
            let more = gen::entries(rng, &o, &u);
            let t = render(&more, nl).0;
            c.input += &t;
            load_into(&mut boxed, &t)?;
            let mut other = load(&c.input)?;
            std::mem::swap(&mut *boxed, &mut other);
            walk(&boxed, true, c, "after exchanging journals")?;
            walk(&other, true, c, "after exchanging journals")?;
            drop(other);
            use_all(&boxed, c.small);
            walk(&boxed, true, c, "after dropping another journal")?;
            c.count("journals_loaded", 2);
            c.count("moves", 4);
            Ok(())
        }
        3 | 4 | 5 | 6 => {
            let mut o = o;
            if rng.chance(70) {
                o.xacts = (1, 4);
                o.posts = (2, 4);
            }
            let mut j = Journal::new();
            let mut log = vec![];
            let loads = if c.small { 1 } else { rng.range(1, 4) };
            for _ in 0..loads {
                let (e, _) = gen::journal(rng, &o);
                let text = render(&e, props::eol(rng)).0;
                let times = *rng.pick(&[1, 1, 2, 4, 12]);
                let bytes = if rng.chance(12) { garbage(rng).into_bytes() } else { mutate(rng, &text, times) };
                log.extend(&bytes);
                log.extend(b"\n;;;; next load\n");
                c.input = String::from_utf8_lossy(&log).into_owned();
                let r = lib(|| j.read(io::Cursor::new(&bytes)));
                c.count(if r.is_ok() { "hostile_loads_completed" } else { "hostile_loads_refused" }, 1);
                walk(&j, false, c, "after a malformed text")?;
                if !c.small {
                    use_all(&j, c.small);
                }
            }
            // the journal stays usable
            let (e, _) = gen::journal(rng, &o);
            let t = render(&e, "\n").0;
            let _ = lib(|| parse_text(&t, &mut j));
            walk(&j, false, c, "after a load following malformed texts")?;
            use_all(&j, c.small);
            c.nontrivial = true;
            Ok(())
        }
        _ => {
            // API histories; their results are judged by other properties
            let k = if crate::hooks::PRESENT { rng.below(8) } else { 4 + rng.below(4) };
            let mut sub = Rng::new(rng.next());
            let sub_case = rng.below(1000) as u64;
            let r = match k {
                0 => api::c05(&mut sub, sub_case, c),
                1 => api::c06(&mut sub, sub_case, c),
                2 => api::c08(&mut sub, sub_case, c),
                3 => api::c09(&mut sub, sub_case, c),
                4 => api::c10(&mut sub, sub_case, c),
                5 => api::c16(&mut sub, sub_case, c),
                6 => props::c14(&mut sub, sub_case, c),
                _ => props::c01(&mut sub, sub_case, c),
            };
            c.count("api_histories", 1);
            if r.is_err() {
                c.count("api_histories_with_other_findings", 1);
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C15

fn quote(rng: &mut Rng, s: &str) -> String {
    let simple = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_./".contains(c));
    if simple && rng.chance(70) {
        return s.to_string();
    }
    if !s.is_empty() && !s.contains('\n') && rng.chance(30) {
        // a backslash before everything that needs one
        let mut t = String::new();
        for ch in s.chars() {
            if ch.is_ascii() && !ch.is_ascii_alphanumeric() || rng.chance(10) {
                t.push('\\');
            }
            t.push(ch);
        }
        t
    } else if rng.chance(50) {
        format!("'{}'", s.replace('\'', "'\\''"))
    } else {
        let mut t = String::from("\"");
        for ch in s.chars() {
            if "\"\\$`".contains(ch) {
                t.push('\\');
            }
            t.push(ch);
        }
        t + "\""
    }
}

struct Cli {
    code: Option<i32>,
    out: String,
}

fn cli(bin: &std::path::Path, args: &[String]) -> Cli {
    let o = std::process::Command::new(bin)
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(std::process::Stdio::null())
        .output()
        .expect("generator: running the program");
    Cli { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned() }
}

const NAMES: &[&str] = &[
    "plain.ledger", "with space.ledger", "two  spaces", "ünïcödé", "日本.dat", "quo'te", "dou\"ble", "-dash.ledger", "--file", "-f", "b", "balance",
    "accounts", "dollar$x", "back\\slash", "semi;colon", "a", "star*", "tilde~", "par(en)", "hash#", "am&p", "no_ext", "x.y.z.ledger", "UPPER", "%41",
    "-", "new\tline", "=", "a=b", "@file", "!", "~", "~root", "bal", "1", "[x]", "{a,b}", ".hidden",
    "end ", " start", "end  ", "line\nbreak", "-b", "-fx", "a b", "acc", "cr\r", "back\\", "\"", "'", "-f plain", "nbsp\u{a0}", "x;y", "#", "$HOME", "`x`",
    "~/in tilde", "~/x", "$HOME/x", "-f/x", "b/b", "*/x", "sub dir/a",
];

pub fn c15(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let dir_name = format!("c15-{}", case);
    let dir = c.scratch.join(&dir_name);
    std::fs::create_dir_all(&dir).expect("generator: scratch");
    let here = std::env::current_dir().expect("generator: working directory");
    std::env::set_current_dir(&dir).expect("generator: scratch");
    let r = c15_in(rng, case, c, &dir);
    std::env::set_current_dir(here).expect("generator: working directory");
    std::fs::remove_dir_all(&dir).ok();
    r
}

fn c15_in(rng: &mut Rng, case: u64, c: &mut Ctx, dir: &std::path::Path) -> Res {
    let mut o = props::opts(rng, 1, c);
    if rng.chance(60) {
        o.xacts = (0, 5);
    }
    let (e, _) = gen::journal(rng, &o);
    let parts = if !c.small && case % 2000 == 777 { rng.range(60, 300) } else { *rng.pick(&[0, 1, 1, 2, 3, 5]) };
    let mut m = Model::default();
    let mut files: Vec<String> = vec![];
    let mut log = String::new();
    if parts > 0 {
        let mut groups = props::split(rng, &e, parts);
        // the same file may be given twice
        let twice = rng.chance(15);
        if twice {
            let g = groups[0].clone();
            groups.push(g);
        }
        let mut names: Vec<String> = vec![];
        for (i, g) in groups.iter().enumerate() {
            m.extend(g);
            if twice && i + 1 == groups.len() {
                files.push(files[0].clone());
                continue;
            }
            let w = dict::word(rng, |w| !w.contains(|c: char| c == '/' || c == '\0') && w != "." && w != ".." && w.len() <= 60);
            let mut n = w.unwrap_or_else(|| *rng.pick(NAMES)).to_string();
            while names.contains(&n) {
                n.push_str("_2");
            }
            names.push(n.clone());
            let t = render(g, props::eol(rng)).0;
            if let Some((d, _)) = n.rsplit_once('/') {
                // a file of that name may be in the way
                if dir.join(d).is_file() {
                    n = n.replace('/', "_");
                } else {
                    std::fs::create_dir_all(dir.join(d)).expect("generator: scratch");
                }
            }
            // never over another one
            while dir.join(&n).exists() {
                n.push_str("_3");
            }
            names.pop();
            names.push(n.clone());
            std::fs::write(dir.join(&n), &t).expect("generator: scratch");
            log += &format!("--- file {:?}\n{}", n, t);
            files.push(match rng.below(4) {
                0 => dir.join(&n).to_str().unwrap().to_string(),
                1 => format!("./{}", n),
                2 => format!("../{}/{}", dir.file_name().unwrap().to_str().unwrap(), n),
                _ => n,
            });
        }
    }
    // options anywhere around the command; the value may not be mistaken for the command
    let balance = rng.chance(60);
    let cmd = if balance { rng.pick(&["b", "bal", "balance"]).to_string() } else if rng.chance(70) { "accounts".to_string() } else { "accounts"[..rng.range(1, 8)].to_string() };
    let mut args: Vec<String> = vec![];
    let at = rng.below(files.len() + 1);
    for (i, f) in files.iter().enumerate() {
        if i == at {
            args.push(cmd.clone());
        }
        args.push("-f".into());
        args.push(f.clone());
    }
    if at >= files.len() {
        args.push(cmd.clone());
    }
    c.input = format!("{}--- arguments {:?}\n", log, args);
    let out = lib(|| ledger_rs_lib::run(args.clone())).map_err(|e| format!("run({:?}) panicked: {}", args, e))?;
    if balance {
        oracle::report_lines(&out, &m, c)?;
        // what the library reports for the same files in the same order
        let direct = lib(|| {
            let mut j = Journal::new();
            for f in &files {
                ledger_rs_lib::parse_file(f, &mut j);
            }
            ledger_rs_lib::report::balance_report(&j)
        })
        .map_err(|e| format!("loading the files panicked: {}", e))?;
        ensure!(direct == out, "run({:?}) gives {:?}, the report of the same files is {:?}", args, out, direct);
    } else {
        let mut want: Vec<String> = m.accounts.iter().map(|a| a.rsplit(':').next().unwrap().to_string()).collect();
        want.push(String::new());
        want.sort();
        ensure!(out == want, "the accounts command lists {:?}, due {:?}", out, want);
        c.count("account_lists_compared", 1);
    }
    // reported on twice, the same
    let again = lib(|| ledger_rs_lib::run(args.clone())).map_err(|e| format!("run({:?}) panicked: {}", args, e))?;
    ensure!(again == out, "run({:?}) twice: {:?} and {:?}", args, out, again);
    // several files with one combined option
    if files.len() > 1 {
        let k = rng.range(2, files.len());
        let from = rng.below(files.len() - k + 1);
        let mut v: Vec<String> = vec![];
        for (i, f) in files.iter().enumerate() {
            if i == from {
                v.push(format!("-{}", "f".repeat(k)));
            } else if i < from || i >= from + k {
                v.push("-f".into());
            }
            v.push(f.clone());
        }
        if rng.chance(50) {
            v.push(cmd.clone());
        } else {
            v.insert(0, cmd.clone());
        }
        c.input += &format!("--- arguments {:?}\n", v);
        let o2 = lib(|| ledger_rs_lib::run(v.clone())).map_err(|e| format!("run({:?}) panicked: {}", v, e))?;
        ensure!(o2 == out, "run({:?}) gives {:?}, with separate options {:?}", v, o2, out);
        c.count("combined_options", 1);
    }
    // as one string
    let gap = if rng.chance(50) { " " } else { "  " };
    let mut line = args.iter().map(|a| quote(rng, a)).collect::<Vec<_>>().join(gap);
    if rng.chance(15) {
        line = format!("{}{}{}", rng.pick(&["", " ", "  "]), line, rng.pick(&[" ", "  ", "\n", ""]));
    }
    c.input += &format!("--- line {}\n", line);
    let o2 = lib(|| ledger_rs_lib::run_command(&line)).map_err(|e| format!("run_command({:?}) panicked: {}", line, e))?;
    ensure!(o2 == out, "run_command({:?}) gives {:?}, run gives {:?}", line, o2, out);
    c.count("command_lines", 1);
    // through the program
    if let Some(bin) = c.bin.clone() {
        let r = cli(&bin, &args);
        ensure!(r.code == Some(0), "the program ended with {:?} for {:?}", r.code, args);
        let want = format!("{:?}", out);
        ensure!(r.out.lines().any(|l| l == want), "the program printed {:?} for {:?}, run gives {}", r.out, args, want);
        c.count("program_runs", 1);
    }
    c.nontrivial = !files.is_empty() && !m.xacts.is_empty();
    // failures
    for _ in 0..2 {
        let mut bad = args.clone();
        let k = rng.below(8);
        let what = match k {
            0 => {
                bad.push("-f".into());
                "a missing option value"
            }
            1 => {
                let i = rng.below(bad.len() + 1);
                // not between -f and its value
                let i = if i > 0 && bad[i - 1] == "-f" && i < bad.len() { bad.len() } else { i };
                let i = if (1..i).any(|k| bad[k] == "-f" && bad[k - 1] == "-f") { bad.len() } else { i };
                let v = rng.pick(&["-x", "-Q", "-p", "-F", "-1", "-é"]).to_string();
                bad.splice(i..i, [v, "value".to_string()]);
                "an unknown option"
            }
            2 => {
                bad.push(rng.pick(&["--file", "--unknown", "--f", "--help", "--file=x"]).to_string());
                bad.push(files.first().cloned().unwrap_or("x".into()));
                "an unknown option"
            }
            3 => {
                let i = bad.iter().position(|a| *a == cmd).unwrap();
                // only where the command is not also a file name
                if files.iter().any(|f| *f == cmd) {
                    continue;
                }
                bad[i] = rng.pick(&["register", "reg", "print", "B", "Balance", "balances", "budget", "x", "c", "stats", "équité", "0", "abc", "assets", "accountsx", "accounts2", "all", "account_list", "bak", "bx"]).to_string();
                "an unknown command"
            }
            4 => {
                bad.push("-f".into());
                bad.push(rng.pick(&["missing.ledger", "no/such/dir/file", "/nonexistent/x", "nope nope"]).to_string());
                "a missing file"
            }
            5 => {
                // a missing file among the others
                let mut b = vec![cmd.clone(), "-f".into(), "gone.ledger".into()];
                for f in &files {
                    b.push("-f".into());
                    b.push(f.clone());
                }
                bad = b;
                "a missing file"
            }
            6 => {
                if files.iter().any(|f| *f == cmd) {
                    continue;
                }
                bad.retain(|a| *a != cmd);
                "no command"
            }
            _ => {
                bad = vec![cmd.clone(), "-f".into()];
                "a missing option value"
            }
        };
        c.input += &format!("--- failing {:?}\n", bad);
        let r = lib(|| ledger_rs_lib::run(bad.clone()));
        ensure!(r.is_err(), "{} was not refused: run({:?}) gives {:?}", what, bad, r.unwrap_or_default());
        let line = bad.iter().map(|a| quote(rng, a)).collect::<Vec<_>>().join(" ");
        let r = lib(|| ledger_rs_lib::run_command(&line));
        ensure!(r.is_err(), "{} was not refused: run_command({:?}) gives {:?}", what, line, r.unwrap_or_default());
        if let Some(bin) = c.bin.clone() {
            let r = cli(&bin, &bad);
            ensure!(r.code != Some(0), "{}: the program ended well for {:?}", what, bad);
            // the program may repeat its arguments
            let mut out = r.out.clone();
            for a in bad.iter().filter(|a| a.contains("balance")) {
                out = out.replace(&format!("{:?}", a), "").replace(a.as_str(), "");
            }
            ensure!(!out.contains("has balance"), "{}: the program reported all the same for {:?}", what, bad);
            c.count("program_failures", 1);
        }
        c.count("refused_commands", 1);
    }
    let _ = case;
    Ok(())
}

// ------------------------------------------------------------------ C17

fn refused_xact(rng: &mut Rng) -> (String, &'static str) {
    let lead = ["    ", "  ", " "][rng.below(3)];
    let date = gen::date(rng).iso();
    let bad_dates = [
        "2023-02-30", "2023-13-01", "2023-00-10", "2023-04-31", "2023-02-29", "2100-02-29", "2023-1-", "2023-05-00", "20230505", "2023-05", "2023-12-32", "2023-01-011", "2023-01-01x", "2023/01/01", "2023.01.01", "2023-01-01T00:00:00", "2023-01-01-", "2023-01-01.", "2023--01-01", "x2023-01-01", "2023-Jan-01", "01-02-2023x",
    ];
    let posts_ok = format!("{0}Assets:A  5 EUR\n{0}Assets:B\n", lead);
    match rng.below(13) {
        10 | 11 => {
            let time = *rng.pick(&["", "", "12:30:00 "]);
            let (d, t, n) = match rng.below(4) {
                0 => (rng.pick(&bad_dates).to_string(), time, "2"),
                1 => (date, *rng.pick(&["25:00:00 ", "24:00:00 ", "24:00:01 ", "12:60:00 ", "-1:00:00 ", "12:30:00x ", "12:30:00.5 ", "12:30:00Z ", "12:30 ", "1x:00:00 ", "12:00:75 "]), "2"),
                _ => (date, time, *rng.pick(&["1,5", "1.2.3", "x", "--2", "2-", "1e3", "99999999999999999999999999999999", "0.00000000000000000000000000001", "$2"])),
            };
            if rng.chance(30) {
                // too little, or too much
                let d = gen::date(rng).iso();
                return (
                    format!("P {} {}{}\n", d, time, rng.pick(&["VEUR", "VEUR 2", "VEUR EUR", "2 EUR", "VEUR 2 VEUR", "", "VEUR 1 000 EUR", "VEUR 2 EUR USD", "VEUR 2 EUR 3 USD", "VEUR 2 EUR x", "VEUR 2 EUR @ 5", "VEUR 2 EUR 3"])),
                    "an incomplete or overfull price",
                );
            }
            (format!("P {} {}VEUR {} EUR\n", d, t, n), "an unreadable price")
        }
        0 => (format!("{} Payee\n{}", rng.pick(&bad_dates), posts_ok), "an impossible date"),
        1 => (format!("{}={} Payee\n{}", date, rng.pick(&bad_dates), posts_ok), "an impossible auxiliary date"),
        2 | 3 => {
            let (l, _) = bad_number_posts(rng);
            (format!("{} Payee\n{}\n", date, l.join("\n")), "an unreadable number")
        }
        12 => {
            // more than belongs there
            let more = *rng.pick(&["7 USD", "EUR", "= 5 EUR", "5", "USD", "x", "-", "@ 2 USD @ 3 USD", "@@ 2 USD 3", "{5 USD} 3 USD", "!", "(x)", "* 2", "/ 3", "+ 1 EUR"]);
            let note = *rng.pick(&["", " ; note", "  ; note", " ;", " ; 5 EUR"]);
            (format!("{} Payee\n{1}Assets:A  5 EUR {2}{3}\n{1}Assets:B\n", date, lead, more, note), "a posting with more than an amount")
        }
        4 => {
            let k = rng.range(2, 5);
            let mut lines: Vec<String> = (0..k).map(|i| format!("{}Assets:N{}{}", lead, if rng.chance(30) { 0 } else { i }, rng.pick(&["", "", "", "  ", "  ; note"]))).collect();
            for i in 0..rng.below(3) {
                let at = rng.below(lines.len() + 1);
                lines.insert(at, format!("{}Assets:V{}  {} EUR", lead, i, rng.range(1, 99)));
            }
            (format!("{} Payee\n{}\n", date, lines.join("\n")), "more than one missing amount")
        }
        5 | 6 => {
            let sym = rng.pick(&["EUR", "VEUR", "$", "A_B"]);
            let at = rng.pick(&["@", "@@"]);
            let q = if rng.chance(50) { "5" } else { "-5" };
            let other = if rng.chance(50) { "".to_string() } else { format!("  -10 {}", sym) };
            let mut l = vec![format!("{}Assets:A  {} {} {} 2 {}", lead, q, sym, at, sym), format!("{}Assets:B{}", lead, other)];
            if rng.chance(50) {
                l.reverse();
            }
            (format!("{} Payee\n{}\n", date, l.join("\n")), "a cost in the posting's own commodity")
        }
        7 => {
            let lot = rng.pick(&["{5 EUR", "{5 EUR [2023-01-01]", "[2023-01-01", "{5 EUR} [2023-01-01", "{"]);
            let tail = rng.pick(&["", " @ 6 EUR"]);
            (format!("{} Payee\n{1}Assets:A  3 VEUR {2}{3}\n{1}Assets:B\n", date, lead, lot, tail), "an unclosed lot annotation")
        }
        8 => {
            let lot = rng.pick(&["{5 EUR} {6 EUR}", "[2023-01-01] [2023-01-02]", "{5 EUR} [2023-01-01] {5 EUR}", "{5 EUR} {5 EUR}"]);
            (format!("{} Payee\n{1}Assets:A  3 VEUR {2}\n{1}Assets:B\n", date, lead, lot), "a doubled lot annotation")
        }
        _ => (
            format!("{} Payee\n{1}Assets:A  3 VEUR {{5 EUR}} [{2}]\n{1}Assets:B\n", date, lead, rng.pick(&["2023-02-30", "2023-13-01", "x", "2023-99-99", "2023-01-011", "2023-01-01x", "2023/01/01", "2023-01-01 12:00:00", "2023-01-01 x", "2023-01-01=2023-02-02", " 2023-01-01", "2023-01"])),
            "an impossible lot date",
        ),
    }
}

/// The first `k` transactions of `j` are those of `alone`; with `all`, so are the balances.
fn prefix_is(j: &Journal, alone: &Journal, k: usize, all: bool, c: &mut Ctx) -> Res {
    ensure!(j.xacts.len() >= k, "{} transactions are in the journal, {} stand before the offending point", j.xacts.len(), k);
    for i in 0..k {
        let (a, b) = lib(|| (snap::xact_text(&j.xacts[i]), snap::xact_text(&alone.xacts[i]))).map_err(|e| format!("reading a transaction panicked: {}", e))?;
        ensure!(a == b, "transaction {} differs from the one loaded alone: {}", i, snap::diff(&a, &b));
    }
    c.count("prefix_transactions_compared", k as u64);
    if all {
        let mut names: Vec<String> = vec![];
        for a in alone.master.flatten_account_tree() {
            names.push(a.fullname().to_string());
        }
        for n in names {
            let (x, y) = if n.is_empty() {
                (Some(&*j.master), Some(&*alone.master))
            } else {
                (j.find_account(&n), alone.find_account(&n))
            };
            let (Some(x), Some(y)) = (x, y) else { return Err(format!("account {:?} is lost", n)) };
            let (bx, by) = lib(|| (snap::total_balance(x), snap::total_balance(y))).map_err(|e| format!("balance panicked: {}", e))?;
            let (bx, by) = (bx?, by?);
            ensure!(snap::same_balance(&bx, &by), "account {:?}: total {}, loaded alone {}", n, snap::show(&bx), snap::show(&by));
            c.count("prefix_balances_compared", 1);
        }
    }
    Ok(())
}

fn xacts_in(e: &[Entry]) -> usize {
    e.iter().filter(|x| matches!(x, Entry::Xact(_))).count()
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
];

/// After its failure at `fail`, asked again and again.
struct Stubborn<'a> {
    inner: Chunked<'a>,
    left: usize,
}

impl Read for Stubborn<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.inner.failed {
            if self.left == 0 {
                panic!("the failing reader is asked again and again");
            }
            self.left -= 1;
            return Err(self.inner.fail.unwrap().1.into());
        }
        self.inner.read(buf)
    }
}

/// Entries of which at least / at most the reader can have delivered when it failed at `f`.
fn delivered(ext: &[(usize, usize, usize)], f: usize) -> (usize, usize) {
    let lo = ext.iter().take_while(|x| x.2 <= f).count();
    let hi = ext.iter().take_while(|x| x.1 <= f).count();
    (lo, hi.max(lo))
}

fn stopped_at(j: &Journal, e: &[Entry], ext: &[(usize, usize, usize)], f: usize, what: &str, c: &mut Ctx) -> Result<usize, String> {
    let (lo, hi) = delivered(ext, f);
    let mut last = Err(String::new());
    for n in lo..=hi {
        let m = Model::of(&e[..n]);
        let alone = load(&render(&e[..n], "\n").0)?;
        last = (|| {
            ensure!(
                j.xacts.len() == m.xacts.len(),
                "{}: {} transactions in the journal, {} stand completely before it",
                what,
                j.xacts.len(),
                m.xacts.len()
            );
            prefix_is(j, &alone, m.xacts.len(), true, c).map_err(|e| format!("{}: {}", what, e))?;
            let (a, b) = (snap::prices(j), snap::prices(&alone));
            ensure!(a == b, "{}: prices {:?}, before it were given {:?}", what, a, b);
            Ok(n)
        })();
        if last.is_ok() {
            break;
        }
    }
    last
}

pub fn c17(rng: &mut Rng, case: u64, c: &mut Ctx) -> Res {
    let mut o = props::opts(rng, 1, c);
    if case % 3 != 0 {
        o.xacts = (0, 6);
        o.posts = (2, 5);
    }
    if !c.small {
        props::giant(rng, case, &mut o);
    }
    let (e, u) = gen::journal(rng, &o);
    let nl = props::eol(rng);
    let (text, ends) = render(&e, nl);
    match if crate::scale::is(case, c) { *rng.pick(&[0, 1, 4]) } else { case % 5 } {
        0 | 1 => {
            // a transaction that must be refused, at any place
            let k = rng.below(e.len() + 1);
            let at = if k == 0 { 0 } else { ends[k - 1] };
            let spoilt = if rng.chance(65) { spoil::any(rng, &o, &u, false) } else { None };
            c.count("spoilt_entries", spoilt.is_some() as u64);
            let (bad, what) = match spoilt {
                Some(x) => x,
                None => refused_xact(rng),
            };
            let n = xacts_in(&e[..k]);
            let next = "2023-05-06 Next\n    Assets:Next  1 EUR\n    Assets:Next2\n\n";
            let t = format!("{}{}\n{}{}", &text[..at], bad, next, &text[at..]);
            c.input = t.clone();
            let mut j = Journal::new();
            must_refuse(&mut j, &t, n, what, c)?;
            let alone = load(&text[..at])?;
            prefix_is(&j, &alone, n, j.xacts.len() == n, c)?;
            ensure!(
                lib(|| j.find_account("Assets:Next").is_none()).unwrap_or(false),
                "after {}, a later transaction was read",
                what
            );
            c.nontrivial = true;
            Ok(())
        }
        2 => {
            // failing readers
            let ext = extents(&e, nl);
            c.input = text.clone();
            c.nontrivial = !text.is_empty();
            let all = text.len() <= if c.small { 60 } else { 500 };
            let offsets: Vec<usize> = if all {
                c.count("texts_with_every_offset_failed", 1);
                (0..=text.len()).collect()
            } else {
                let mut v: Vec<usize> = (0..25).map(|_| rng.below(text.len() + 1)).collect();
                // around the ends of entries
                for x in ext.iter().take(8) {
                    v.extend([x.1.saturating_sub(1), x.1, x.2.saturating_sub(1), x.2, (x.2 + 1).min(text.len())]);
                }
                v
            };
            let further = render(&gen::entries(rng, &gen::Opts { xacts: (1, 4), ..o.clone() }, &u), nl).0;
            for f in offsets {
                let kind = *rng.pick(KINDS);
                let max = *rng.pick(&[1, 3, 17, 200, 10000]);
                let mut r = Chunked::new(text.as_bytes(), Rng::new(rng.next()), max, if rng.chance(20) { 10 } else { 0 });
                r.fail = Some((f, kind));
                let mut j = Journal::new();
                let what = format!("reader failing with {:?} after byte {}", kind, f);
                let res = if rng.chance(50) {
                    lib(|| j.read(&mut r))
                } else {
                    let mut s = Stubborn { inner: r, left: 5000 };
                    lib(|| j.read(&mut s))
                };
                if let Err(m) = &res {
                    ensure!(!m.contains("again and again"), "{}: loading does not end, the reader is asked again and again", what);
                    // a loud refusal is fine; what was complete is kept
                    let (lo, _) = delivered(&ext, f);
                    let alone = load(&render(&e[..lo], "\n").0)?;
                    let n = xacts_in(&e[..lo]);
                    prefix_is(&j, &alone, n, false, c).map_err(|m| format!("{}: {}", what, m))?;
                    ensure!(j.xacts.len() <= n + 1, "{}: {} transactions, {} are complete", what, j.xacts.len(), n);
                    c.count("reader_failures_refused", 1);
                    continue;
                }
                let n = stopped_at(&j, &e, &ext, f, &what, c)?;
                c.count("reader_failures", 1);
                if rng.chance(15) {
                    // and the journal goes on as if nothing had happened
                    load_into(&mut j, &further)?;
                    let mut alone = load(&render(&e[..n], "\n").0)?;
                    load_into(&mut alone, &further)?;
                    let k = alone.xacts.len();
                    ensure!(j.xacts.len() == k, "{}: {} transactions after a further load, due {}", what, j.xacts.len(), k);
                    prefix_is(&j, &alone, k, true, c).map_err(|m| format!("{}, and a further load: {}", what, m))?;
                    c.count("loads_after_failures", 1);
                }
            }
            Ok(())
        }
        3 => {
            // invalid UTF-8 within a line
            let ext = extents(&e, nl);
            c.input = text.clone();
            for _ in 0..6 {
                let at = rng.below(text.len() + 1);
                let mut b = text.as_bytes().to_vec();
                let bad: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xc0\xaf"]);
                if text.is_char_boundary(at) {
                    b.splice(at..at, bad.iter().copied());
                } else {
                    b[at] = b'x'; // breaks the sequence
                }
                if std::str::from_utf8(&b).is_ok() {
                    continue;
                }
                let line = text.as_bytes()[..at].iter().rposition(|x| *x == b'\n').map(|x| x + 1).unwrap_or(0);
                let mut j = Journal::new();
                let r = lib(|| j.read(io::Cursor::new(&b)));
                let what = format!("invalid UTF-8 at byte {}", at);
                if r.is_err() {
                    let (lo, _) = delivered(&ext, line);
                    let alone = load(&render(&e[..lo], "\n").0)?;
                    prefix_is(&j, &alone, xacts_in(&e[..lo]), false, c).map_err(|m| format!("{}: {}", what, m))?;
                    continue;
                }
                stopped_at(&j, &e, &ext, line, &what, c)?;
                c.count("invalid_utf8", 1);
                c.nontrivial = true;
            }
            Ok(())
        }
        _ => {
            // anything at all after complete entries
            let k = rng.below(e.len() + 1);
            let at = if k == 0 { 0 } else { ends[k - 1] };
            let more = gen::entries(rng, &o, &u);
            let rest = render(&more, nl).0;
            let times = rng.range(1, 6);
            let tail = if rng.chance(40) { garbage(rng).into_bytes() } else { mutate(rng, &rest, times) };
            let mut b = text.as_bytes()[..at].to_vec();
            b.extend(&tail);
            c.input = String::from_utf8_lossy(&b).into_owned();
            c.nontrivial = !tail.is_empty();
            let mut j = Journal::new();
            let r = lib(|| j.read(io::Cursor::new(&b)));
            c.count(if r.is_ok() { "hostile_loads_completed" } else { "hostile_loads_refused" }, 1);
            let n = xacts_in(&e[..k]);
            let alone = load(&text[..at])?;
            prefix_is(&j, &alone, n, j.xacts.len() == n, c)?;
            if r.is_ok() {
                // whatever was accepted is a whole transaction: balanced books
                for (i, x) in j.xacts.iter().enumerate() {
                    ensure!(x.date.is_some() && x.posts.len() != 1, "transaction {} was loaded incomplete", i);
                    ensure!(x.posts.iter().all(|p| p.amount.is_some()), "transaction {} was loaded with a missing amount", i);
                }
            }
            Ok(())
        }
    }
}
