//! Worker: runs a range of cases of one property and reports what its monitors saw.
mod api;
mod ast;
mod built;
mod ctx;
mod dec;
mod dict;
mod gen;
mod hooks;
mod more;
mod oracle;
mod props;
mod rng;
mod scale;
mod snap;
mod spoil;

use ctx::{Ctx, Res};
use rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 0x20 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}

/// Did the generator or the reference fail, and not what they were applied to?
fn own_fault(panic: &str) -> bool {
    let at = |f: &str| panic.contains(&format!(" at src/{}.rs:", f));
    panic.starts_with("generator") || panic.starts_with("oracle overflow") || at("rng") || at("gen") || at("ast") || at("dec")
}

/// Takes what the library has to say: the messages show the values of the moment, whatever they have become.
struct Listener;
static MESSAGES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        if record.target().starts_with("ledger_rs_lib") {
            let text = record.args().to_string();
            MESSAGES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            assert!(std::str::from_utf8(text.as_bytes()).is_ok(), "the library logs invalid text");
        }
    }
    fn flush(&self) {}
}

fn run_case(prop: &str, seed: u64, case: u64, c: &mut Ctx) -> Res {
    let mut rng = Rng::new(mix(seed ^ mix(hash_str(prop) ^ mix(case))));
    let r = &mut rng;
    // every so often, with somebody listening
    log::set_max_level(if mix(case) % 8 == 6 { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    if !c.small && dict::begin(r) {
        c.count("cases_with_words_of_the_code", 1);
    }
    match prop {
        "C01" => props::c01(r, case, c),
        "C02" => props::c02(r, case, c),
        "C03" => props::c03(r, case, c),
        "C04" => props::c04(r, case, c),
        "C05" => api::c05(r, case, c),
        "C06" => api::c06(r, case, c),
        "C07" => props::c07(r, case, c),
        "C08" => api::c08(r, case, c),
        "C09" => api::c09(r, case, c),
        "C10" => api::c10(r, case, c),
        "C11" => more::c11(r, case, c),
        "C12" => props::c12(r, case, c),
        "C13" => props::c13(r, case, c),
        "C14" => props::c14(r, case, c),
        "C15" => more::c15(r, case, c),
        "C16" => api::c16(r, case, c),
        "C17" => more::c17(r, case, c),
        "C18" => built::c18(r, case, c),
        _ => panic!("generator: unknown property {}", prop),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i < args.len() {
        if args[i] == "--small" {
            opt.insert("small".into(), "1".into());
            i += 1;
        } else {
            opt.insert(args[i].trim_start_matches('-').into(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        }
    }
    if let Some(p) = opt.get("snapshot") {
        let text = std::fs::read_to_string(p).unwrap();
        let mut j = ledger_rs_lib::journal::Journal::new();
        ledger_rs_lib::parse_text(&text, &mut j);
        print!("{}", snap::snapshot(&j));
        return;
    }
    let get = |k: &str| opt.get(k).cloned().unwrap_or_else(|| panic!("missing --{}", k));
    let prop = get("prop");
    let seed: u64 = get("seed").parse().unwrap();
    let (from, to, step): (u64, u64, u64) = (get("from").parse().unwrap(), get("to").parse().unwrap(), get("step").parse().unwrap());
    let scratch = PathBuf::from(get("scratch"));
    let seconds: f64 = get("seconds").parse().unwrap();
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    let mut out: Box<dyn Write> = match opt.get("out") {
        Some(p) => Box::new(std::fs::File::create(p).unwrap()),
        None => Box::new(std::io::stdout()),
    };
    let mut progress = opt.get("progress").map(|p| std::fs::File::create(p).unwrap());
    let stop_after: usize = opt.get("stop-after").map(|s| s.parse().unwrap()).unwrap_or(5);
    if let Ok(p) = std::env::var("VMON_DICT") {
        dict::load(&p);
    }
    ctx::install_hook();
    log::set_logger(&Listener).ok();
    let mut c = Ctx {
        counters: BTreeMap::new(),
        scratch: scratch.clone(),
        bin: opt.get("bin").map(PathBuf::from),
        input: String::new(),
        small: opt.contains_key("small"),
        nontrivial: false,
    };
    let start = std::time::Instant::now();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evaluations, mut violations, mut samples) = (0u64, 0usize, 0);
    let mut case = from;
    while case < to && start.elapsed().as_secs_f64() < seconds {
        if let Some(p) = progress.as_mut() {
            use std::io::Seek;
            p.seek(std::io::SeekFrom::Start(0)).unwrap();
            p.write_all(format!("{:020}\n", case).as_bytes()).unwrap();
        }
        c.input.clear();
        c.nontrivial = false;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&prop, seed, case, &mut c)));
        let r = match r {
            Ok(r) => r,
            Err(_) if !own_fault(&ctx::last_panic()) => {
                // the state of the library made the observer fail
                Err(format!("observing the journal panicked: {}", ctx::last_panic()))
            }
            Err(_) => {
                writeln!(out, "{{\"t\":\"harness\",\"case\":{},\"what\":{},\"input\":{}}}", case, esc(&ctx::last_panic()), esc(&c.input)).unwrap();
                out.flush().unwrap();
                eprintln!("the harness itself failed in case {}: {}", case, ctx::last_panic());
                std::process::exit(3);
            }
        };
        evaluations += 1;
        if c.nontrivial {
            hashes.insert(hash_str(&c.input));
        }
        match r {
            Ok(()) => {
                if c.nontrivial && samples < 2 && c.input.len() < 1500 {
                    samples += 1;
                    writeln!(out, "{{\"t\":\"sample\",\"case\":{},\"input\":{}}}", case, esc(&c.input)).unwrap();
                }
            }
            Err(what) => {
                writeln!(out, "{{\"t\":\"viol\",\"case\":{},\"what\":{},\"input\":{}}}", case, esc(&what), esc(&c.input)).unwrap();
                out.flush().unwrap();
                violations += 1;
                if violations >= stop_after {
                    break;
                }
            }
        }
        case += step;
    }
    c.count("log_messages", MESSAGES.load(std::sync::atomic::Ordering::Relaxed));
    for (k, v) in &c.counters {
        writeln!(out, "{{\"t\":\"counter\",\"k\":{},\"v\":{}}}", esc(k), v).unwrap();
    }
    let hs: Vec<String> = hashes.iter().map(|h| format!("\"{:x}\"", h)).collect();
    writeln!(out, "{{\"t\":\"hashes\",\"v\":[{}]}}", hs.join(",")).unwrap();
    writeln!(out, "{{\"t\":\"done\",\"evaluations\":{},\"violations\":{}}}", evaluations, violations).unwrap();
    out.flush().unwrap();
}
