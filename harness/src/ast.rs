//! Journal AST, its rendering to text, and its meaning (the reference model).
use crate::dec::Dec;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Date {
    pub y: u32,
    pub m: u32,
    pub d: u32,
    /// written without leading zeros
    pub bare: bool,
}

impl Date {
    pub fn iso(&self) -> String {
        format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }
    pub fn written(&self) -> String {
        if self.bare {
            format!("{}-{}-{}", self.y, self.m, self.d)
        } else {
            self.iso()
        }
    }
}

/// A written amount. `num` is the literal number text.
#[derive(Clone, Debug)]
pub struct Amt {
    pub num: String,
    pub sym: String,
    /// symbol before the number
    pub prefix: bool,
    /// spaces between number and symbol
    pub gap: usize,
}

impl Amt {
    pub fn value(&self) -> Dec {
        Dec::parse(&self.num).expect("generated number")
    }
    pub fn render(&self) -> String {
        if self.sym.is_empty() {
            return self.num.clone();
        }
        let gap = " ".repeat(self.gap);
        if self.prefix {
            format!("{}{}{}", self.sym, gap, self.num)
        } else {
            format!("{}{}{}", self.num, gap, self.sym)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cost {
    pub per_unit: bool,
    pub amt: Amt,
    /// spaces before the @ and after it
    pub before: usize,
    pub after: usize,
}

#[derive(Clone, Debug)]
pub struct PostA {
    pub indent: String,
    pub account: String,
    pub sep: String,
    pub amt: Option<Amt>,
    pub lot_price: Option<Amt>,
    pub lot_date: Option<Date>,
    pub lot_date_first: bool,
    pub cost: Option<Cost>,
    /// note at the end of the posting line
    pub eol_note: Option<String>,
    /// only one space before the note
    pub tight_note: bool,
    pub trail: String,
    /// comment lines following the posting
    pub comments: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct XactA {
    pub date: Date,
    pub aux: Option<Date>,
    pub payee: Option<String>,
    pub hnote: Option<String>,
    /// extra spaces between date and payee
    pub lead: usize,
    pub trail: String,
    pub comments: Vec<String>,
    pub posts: Vec<PostA>,
    /// the line that ends the transaction (spaces only), and how many further blank lines
    pub end_spaces: usize,
    pub blanks: usize,
}

#[derive(Clone, Debug)]
pub struct PriceA {
    pub date: Date,
    pub time: Option<(u32, u32, u32)>,
    pub sym: String,
    pub num: String,
    pub psym: String,
    pub sep: String,
    pub trail: String,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Xact(XactA),
    Price(PriceA),
    Comment(String),
    Blank,
}

pub fn render_post(p: &PostA) -> String {
    let mut s = format!("{}{}", p.indent, p.account);
    if let Some(a) = &p.amt {
        s += &p.sep;
        s += &a.render();
        let price = p.lot_price.as_ref().map(|l| format!(" {{{}}}", l.render()));
        let date = p.lot_date.as_ref().map(|d| format!(" [{}]", d.written()));
        let (x, y) = if p.lot_date_first { (date, price) } else { (price, date) };
        s += &x.unwrap_or_default();
        s += &y.unwrap_or_default();
        if let Some(c) = &p.cost {
            s += &" ".repeat(c.before);
            s += if c.per_unit { "@" } else { "@@" };
            s += &" ".repeat(c.after);
            s += &c.amt.render();
        }
    }
    if let Some(n) = &p.eol_note {
        s += if p.amt.is_some() && p.tight_note { " ;" } else { "  ;" };
        s += n;
    }
    s += &p.trail;
    s
}

pub fn render_header(x: &XactA) -> String {
    let mut s = x.date.written();
    if let Some(a) = &x.aux {
        s += "=";
        s += &a.written();
    }
    if let Some(p) = &x.payee {
        s += &" ".repeat(1 + x.lead);
        s += p;
    }
    if let Some(n) = &x.hnote {
        s += "  ;";
        s += n;
    }
    s += &x.trail;
    s
}

pub fn entry_lines(e: &Entry) -> Vec<String> {
    match e {
        Entry::Blank => vec![String::new()],
        Entry::Comment(c) => vec![c.clone()],
        Entry::Price(p) => {
            let time = match p.time {
                Some((h, m, s)) => format!("{}{:02}:{:02}:{:02}", p.sep, h, m, s),
                None => String::new(),
            };
            vec![format!(
                "P{}{}{}{}{}{}{}{}{}{}",
                p.sep, p.date.written(), time, p.sep, p.sym, p.sep, p.num, p.sep, p.psym, p.trail
            )]
        }
        Entry::Xact(x) => {
            let mut v = vec![render_header(x)];
            for c in &x.comments {
                v.push(format!("    ;{}", c));
            }
            for p in &x.posts {
                v.push(render_post(p));
                for c in &p.comments {
                    v.push(format!("    ;{}", c));
                }
            }
            v.push(" ".repeat(x.end_spaces));
            for _ in 0..x.blanks {
                v.push(String::new());
            }
            v
        }
    }
}

/// Renders the entries; returns the text and the byte offset at which each entry ends.
pub fn render(entries: &[Entry], eol: &str) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut ends = vec![];
    for e in entries {
        for l in entry_lines(e) {
            s += &l;
            s += eol;
        }
        ends.push(s.len());
    }
    (s, ends)
}

/// For each entry: (start, end of its content, end of the line that terminates it).
pub fn extents(entries: &[Entry], eol: &str) -> Vec<(usize, usize, usize)> {
    let mut at = 0;
    let mut v = vec![];
    for e in entries {
        let start = at;
        let lines = entry_lines(e);
        let (mut content, mut term) = (at, at);
        let last = match e {
            Entry::Xact(x) => lines.len() - 2 - x.blanks,
            _ => lines.len() - 1,
        };
        for (i, l) in lines.iter().enumerate() {
            at += l.len() + eol.len();
            if i == last {
                content = at;
            }
            if i == last + 1 || (i == last && !matches!(e, Entry::Xact(_))) {
                term = at;
            }
        }
        v.push((start, content, term));
    }
    v
}

// ---------------------------------------------------------------- meaning

#[derive(Clone, Debug, PartialEq)]
pub enum ECost {
    None,
    Exact(Dec, String),
    /// amt * |num/den| in sym
    Ratio { amt: Dec, num: Dec, den: Dec, sym: String },
}

#[derive(Clone, Debug)]
pub struct EPost {
    pub account: String,
    pub amount: (Dec, String),
    pub elided: bool,
    pub cost: ECost,
    pub notes: Vec<String>,
    pub eol_note: Option<String>,
}

#[derive(Clone, Debug)]
pub struct EXact {
    pub date: String,
    pub aux: Option<String>,
    pub payee: String,
    pub notes: Vec<String>,
    pub posts: Vec<EPost>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EPrice {
    Exact(Dec),
    /// |num/den|
    Quot(Dec, Dec),
    /// |num/den| by way of a rounded cost, with its absolute tolerance
    Near(Dec, Dec, f64),
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub xacts: Vec<EXact>,
    pub prices: BTreeMap<(String, String, String), EPrice>,
    pub symbols: BTreeSet<String>,
    /// full names of all accounts, ancestors included
    pub accounts: BTreeSet<String>,
    /// lot price per symbol (the first one written)
    pub lots: BTreeMap<String, (Dec, String)>,
}

pub fn moment(d: &Date, t: Option<(u32, u32, u32)>) -> String {
    let (h, m, s) = t.unwrap_or((0, 0, 0));
    format!("{} {:02}:{:02}:{:02}", d.iso(), h, m, s)
}

fn note_text(c: &str) -> Option<String> {
    let t = c.trim();
    if t.is_empty() {
        None
    } else {
        Some(t.to_string())
    }
}

impl Model {
    pub fn of(entries: &[Entry]) -> Model {
        let mut m = Model::default();
        m.extend(entries);
        m
    }

    pub fn add_account(&mut self, name: &str) {
        let mut prefix = String::new();
        for seg in name.split(':') {
            if !prefix.is_empty() {
                prefix.push(':');
            }
            prefix += seg;
            self.accounts.insert(prefix.clone());
        }
    }

    pub fn extend(&mut self, entries: &[Entry]) {
        for e in entries {
            match e {
                Entry::Price(p) => {
                    self.symbols.insert(p.sym.clone());
                    self.symbols.insert(p.psym.clone());
                    self.prices.insert(
                        (p.sym.clone(), p.psym.clone(), moment(&p.date, p.time)),
                        EPrice::Exact(Dec::parse(&p.num).unwrap()),
                    );
                }
                Entry::Xact(x) => self.xact(x),
                _ => {}
            }
        }
    }

    fn sym(&mut self, s: &str) {
        if !s.is_empty() {
            self.symbols.insert(s.to_string());
        }
    }

    fn xact(&mut self, x: &XactA) {
        let mut posts: Vec<EPost> = vec![];
        let mut bal: Vec<(String, Dec)> = vec![];
        let mut elided = None;
        let mut written_cost = false;
        for (i, p) in x.posts.iter().enumerate() {
            self.add_account(&p.account);
            let notes = p.comments.iter().filter_map(|c| note_text(c)).collect();
            let eol_note = p.eol_note.as_ref().and_then(|c| note_text(c));
            let mut ep = EPost {
                account: p.account.clone(),
                amount: (Dec::ZERO, String::new()),
                elided: false,
                cost: ECost::None,
                notes,
                eol_note,
            };
            match &p.amt {
                None => {
                    assert!(elided.is_none(), "generator: two elided amounts");
                    elided = Some(i);
                    ep.elided = true;
                }
                Some(a) => {
                    self.sym(&a.sym);
                    let v = a.value();
                    ep.amount = (v, a.sym.clone());
                    let mut contribution = (a.sym.clone(), v);
                    if let Some(l) = &p.lot_price {
                        self.sym(&l.sym);
                        self.lots.entry(a.sym.clone()).or_insert((l.value(), l.sym.clone()));
                    }
                    if let Some(c) = &p.cost {
                        self.sym(&c.amt.sym);
                        written_cost = true;
                        let cv = if c.per_unit { c.amt.value().mul(v) } else { c.amt.value() };
                        contribution = (c.amt.sym.clone(), cv);
                        ep.cost = ECost::Exact(cv, c.amt.sym.clone());
                    }
                    match bal.iter_mut().find(|b| b.0 == contribution.0) {
                        Some(b) => b.1 = b.1.add(contribution.1),
                        None => bal.push(contribution),
                    }
                }
            }
            posts.push(ep);
        }
        if let Some(i) = elided {
            assert!(bal.len() == 1, "generator: elided amount with {} commodities", bal.len());
            posts[i].amount = (bal[0].1.neg(), bal[0].0.clone());
        } else if !written_cost && bal.len() == 2 && !bal[0].1.is_zero() && !bal[1].1.is_zero() {
            assert!(!bal[0].0.is_empty() && !bal[1].0.is_empty(), "generator: implied cost without commodity");
            for p in posts.iter_mut() {
                if p.amount.1 == bal[0].0 {
                    p.cost = ECost::Ratio { amt: p.amount.0, num: bal[1].1, den: bal[0].1, sym: bal[1].0.clone() };
                }
            }
        }
        for p in &posts {
            let price = match &p.cost {
                ECost::None => None,
                ECost::Exact(c, s) => {
                    if c.is_zero() {
                        None
                    } else if p.amount.0.is_zero() {
                        Some((s.clone(), EPrice::Exact(c.abs())))
                    } else {
                        Some((s.clone(), EPrice::Quot(c.abs(), p.amount.0.abs())))
                    }
                }
                ECost::Ratio { amt, num, den, sym } => {
                    if amt.is_zero() {
                        None
                    } else {
                        let ratio = num.abs().to_f64() / den.abs().to_f64();
                        let q = amt.abs().to_f64();
                        // the cost is rounded at the 28th decimal or the 28th digit
                        let tol = 4e-28 * (1.0 + (1.0 + ratio * q) / q);
                        Some((sym.clone(), EPrice::Near(num.abs(), den.abs(), tol)))
                    }
                }
            };
            if let Some((s, e)) = price {
                self.prices.insert((p.amount.1.clone(), s, moment(&x.date, None)), e);
            }
        }
        let mut notes: Vec<String> = vec![];
        if let Some(n) = &x.hnote {
            notes.extend(note_text(n));
        }
        notes.extend(x.comments.iter().filter_map(|c| note_text(c)));
        self.xacts.push(EXact {
            date: x.date.iso(),
            aux: x.aux.as_ref().map(|d| d.iso()),
            payee: match &x.payee {
                Some(p) if !p.trim().is_empty() => p.trim().to_string(),
                _ => "Unknown Payee".to_string(),
            },
            notes,
            posts,
        });
    }

    /// own balance per account full name and symbol
    pub fn own(&self) -> BTreeMap<String, BTreeMap<String, Dec>> {
        let mut r: BTreeMap<String, BTreeMap<String, Dec>> = BTreeMap::new();
        for a in &self.accounts {
            r.insert(a.clone(), BTreeMap::new());
        }
        r.insert(String::new(), BTreeMap::new());
        for x in &self.xacts {
            for p in &x.posts {
                let m = r.get_mut(&p.account).unwrap();
                let e = m.entry(p.amount.1.clone()).or_insert(Dec::ZERO);
                *e = e.add(p.amount.0);
            }
        }
        r
    }

    pub fn totals(&self) -> BTreeMap<String, BTreeMap<String, Dec>> {
        let own = self.own();
        let mut r: BTreeMap<String, BTreeMap<String, Dec>> = own.keys().map(|k| (k.clone(), BTreeMap::new())).collect();
        for (name, m) in &own {
            let mut chain = vec![String::new()];
            if !name.is_empty() {
                let mut prefix = String::new();
                for seg in name.split(':') {
                    if !prefix.is_empty() {
                        prefix.push(':');
                    }
                    prefix += seg;
                    chain.push(prefix.clone());
                }
            }
            for c in chain {
                let t = r.get_mut(&c).unwrap();
                for (s, v) in m {
                    let e = t.entry(s.clone()).or_insert(Dec::ZERO);
                    *e = e.add(*v);
                }
            }
        }
        r
    }

    /// Full names in report order: root, then depth-first with siblings sorted by name.
    pub fn tree_order(&self) -> Vec<String> {
        let mut v: Vec<Vec<&str>> = self.accounts.iter().map(|a| a.split(':').collect()).collect();
        v.sort();
        let mut r = vec![String::new()];
        r.extend(v.into_iter().map(|a| a.join(":")));
        r
    }
}
