import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

prop("C01","Reported balances are exactly the sums of the postings",
 "After loading any supported journal, the balance of an account is, commodity by commodity, exactly the sum of the amounts of all postings booked to that account, and its total additionally covers all its sub-accounts: no posting is lost, counted twice, or counted under another account or commodity. The balance report shows exactly these totals (commodities that come to zero included), one line per account, root first, each parent before its children and siblings in name order.",
 ["inputs","histories"],"every supported journal, of any number of transactions, postings per transaction, accounts, nesting depth and commodities, loaded in one or several steps",
 "The tests look at journals with at most 4 postings per transaction, 3 sibling accounts and 2 commodities; the sums are computed through raw pointers whose validity depends on how large those collections grow.",
 ["src/account.rs","src/balance.rs","src/report.rs","src/xact.rs","src/parser.rs"],
 [("Account::amount/total fold the account's posting pointers into a Balance","src/account.rs"),("Balance::add merges amounts per commodity","src/balance.rs"),("get_children_lines renders the totals","src/report.rs"),("postings are linked to accounts once the transaction is complete","src/xact.rs finalize")],
 [dict(name="Account.posts",meaning="pointers to the postings booked to the account",where="src/account.rs")],
 ["Account::amount","Account::total","report::balance_report","run(\"b -f ..\")"])

prop("C02","A posting without an amount balances its transaction",
 "In a transaction in which exactly one posting has no amount and the others come down to a single commodity (counting a posting with a cost at its cost), that posting receives exactly the negated sum of the others in that commodity, so the transaction sums to zero. This holds for any sign and size of the sum, any position of the posting, and with or without a commodity; amounts that were written are left as written.",
 ["inputs"],"every transaction with one elided amount: any number of postings, signs, precisions, costs and any position of the elided posting",
 "Tests only elide the last of two postings, against a positive sum; sign, position, count and precision are unbounded.",
 ["src/xact.rs","src/amount.rs","src/balance.rs"],
 [("finalize sums cost-or-amount and stores the inverse in the null posting","src/xact.rs finalize"),("Amount::inverse","src/amount.rs")],
 observe=["Journal::xacts[i].posts[j].amount after parsing"])

prop("C03","Every transaction and posting is loaded once, in order, as written",
 "Loading a supported journal yields one transaction per transaction in the source, in source order, each with the date, auxiliary date and payee written in its header ('Unknown Payee' when none), and with one posting per posting line, in order, on the account named there; the journal-wide posting list is the concatenation of these, and reading into a new journal returns the number of transactions. Nothing is dropped, duplicated, reordered or attributed to another transaction, however many transactions, postings, blank lines and comments the source has.",
 ["inputs","histories"],"every supported journal text and every sequence of loads into the same journal",
 "Tests contain at most two transactions of four postings with ASCII names and one header shape each.",
 ["src/parser.rs","src/scanner.rs","src/xact.rs","src/journal.rs","src/post.rs"],
 [("Parser::parse / xact_directive loop","src/parser.rs"),("tokenize_xact_header","src/scanner.rs"),("Journal::add_xact, Xact::add_post","src/journal.rs, src/xact.rs")],
 [dict(name="Journal.xacts / Xact.posts",meaning="the loaded model",where="src/journal.rs, src/xact.rs")],
 ["Journal::xacts","Journal::all_posts","Post.account, Post.xact_ptr"])

prop("C04","Written amounts are read exactly, or refused",
 "An amount written in a posting (number first or symbol first, with or without a space, signed, with decimals, with or without a commodity, followed by nothing, a lot, a cost or a note) is loaded with exactly the numeric value and commodity symbol written. A number that cannot be read is refused loudly: it is never treated as if no amount had been written, nor replaced by another value.",
 ["inputs"],"every amount text that the journal syntax allows, up to the 28-digit capacity of the decimal type, and every malformed number",
 "Tests sample about a dozen literal strings, most of them only at the tokenizing stage.",
 ["src/scanner.rs","src/parser.rs","src/amount.rs"],
 [("scan_amount, scan_quantity, scan_symbol, scan_post","src/scanner.rs"),("parse_amount_parts","src/parser.rs"),("Quantity::from_str","src/amount.rs")],
 observe=["Post.amount","parser::parse_amount","scanner::scan_amount"])

prop("C05","The account tree maps each full name to one stable account",
 "For every history of account registrations and lookups, a colon-separated name denotes exactly one account: registering it again or looking it up returns that same account, its full name reads back as the registered name, and all its ancestors exist exactly once. A name with an empty part (`A:`, `A::B`) denotes no account and is refused. Looking up a name that was never registered finds nothing (and does not fail or create anything), and adding accounts never changes, moves or disconnects existing ones; the flattened tree lists each account exactly once, parent first, siblings in name order.",
 ["histories","inputs"],"every sequence of register/find operations, directly or through parsing, with any tree shape and width",
 "Tests build trees with at most four accounts in one branch and never look up a missing nested name or grow a level past three siblings.",
 ["src/account.rs","src/journal.rs"],
 [("Account::find_or_create / create_account","src/account.rs"),("Account::fullname walks parent pointers and caches","src/account.rs"),("Journal::register_account","src/journal.rs")],
 [dict(name="Account.accounts / Account.parent",meaning="tree links (owning map down, raw pointer up)",where="src/account.rs")],
 ["Journal::register_account","Journal::find_account","Account::fullname","Account::flatten_account_tree","report::report_accounts"])

prop("C06","One commodity per symbol, stable for the life of the journal",
 "Within a journal each symbol denotes exactly one commodity: all amounts written with that symbol share it, distinct symbols (including ones differing only in case) never share one, and the empty symbol means no commodity. Every commodity handed out stays valid with its symbol and index unchanged while any number of other commodities is added, and lookups by symbol and by index agree with each other.",
 ["histories","inputs"],"every sequence of commodity creations and lookups, directly or through parsing, prices and costs, of any number of symbols",
 "Tests never use more than three symbols in one journal, below the point at which the pool's storage is reorganised.",
 ["src/pool.rs","src/commodity.rs","src/history.rs","src/amount.rs"],
 [("CommodityPool::create / find_or_create","src/pool.rs"),("graph node per commodity","src/history.rs add_commodity"),("Amount compares commodities by identity","src/amount.rs")],
 [dict(name="CommodityPool.commodities",meaning="symbol to commodity",where="src/pool.rs")],
 ["CommodityPool::find/find_index/get_by_index/len","Amount::get_commodity","Journal::get_commodity"])

prop("C07","Posting costs follow the written or implied price",
 "A posting with a per-unit cost (@) costs quantity times that price, sign included, and one with a total cost (@@) costs that total in that commodity; the posted amount itself is unchanged. When a transaction has no written cost, no elided amount and exactly two commodities whose sums are both non-zero, each posting in the first commodity gets as cost its quantity times the absolute ratio of the two sums, in the second commodity, and no other posting gets a cost; written costs are never replaced.",
 ["inputs"],"every transaction with written costs (any spacing, sign, precision) or with exactly two commodities",
 "Tests check the costs of four fixed trades and no implied cost at all.",
 ["src/parser.rs","src/scanner.rs","src/xact.rs","src/amount.rs"],
 [("scan_cost","src/scanner.rs"),("parse_cost","src/parser.rs"),("two-commodity conversion in finalize","src/xact.rs")],
 observe=["Post.cost","Post.amount"])

prop("C08","Every price is recorded for its commodity pair and moment",
 "Each price directive, each posting cost and each price added through the API records one price for the pair (priced commodity, price commodity) at its exact moment (directive date and time, midnight when no time; transaction date for costs), with the written unit price, or |cost/quantity| for costs. A later record for the same pair and moment replaces the earlier one, zero prices from costs record nothing, and no other pair or moment is affected.",
 ["histories","inputs"],"every sequence of price directives, priced transactions and API price additions",
 "Tests record one or two prices on fixed dates and inspect a single edge.",
 ["src/pool.rs","src/history.rs","src/xact.rs","src/scanner.rs","src/parser.rs"],
 [("CommodityHistory::add_price","src/history.rs"),("CommodityPool::parse_price_directive","src/pool.rs"),("scan_price_directive","src/scanner.rs"),("exchange() in finalize","src/xact.rs, src/pool.rs")],
 [dict(name="CommodityPool.commodity_history",meaning="graph with one price map per directed pair",where="src/history.rs")],
 ["price history via the verif_hooks module"],"read-only view of the price history (cfg verif_hooks)")

prop("C09","Price lookup uses the newest prices over a shortest chain",
 "Looking up the price of one commodity in another returns nothing when no directed chain of recorded prices connects them. Otherwise it returns, in the target commodity, the newest recorded price of the pair when there is a direct one, and else the product of the newest prices along some chain with the fewest steps, dated at the oldest of the prices used; lookups change nothing and repeat identically.",
 ["histories","inputs"],"every price graph and every ordered pair of distinct commodities in it, including future-dated prices and cycles",
 "Tests look up one direct and one two-step chain with a single date.",
 ["src/history.rs"],
 [("CommodityHistory::find_price (A*), calculate_rate, get_direct_price, get_latest_price","src/history.rs")],
 observe=["CommodityHistory::find_price via the verif_hooks module"],hook="find_price wrapper (cfg verif_hooks)")

prop("C10","Exchanging commodities yields a consistent cost breakdown",
 "Exchanging an amount against a cost returns the amount unchanged, a final cost equal to the cost (times the absolute quantity if the cost is per unit), and a unit price equal to |cost/quantity| (|cost| if per unit or the quantity is zero) offered for recording exactly when it is non-zero and in another commodity. The basis cost is the lot price written for that commodity times the quantity when the journal gave one, and otherwise the final cost.",
 ["inputs","histories"],"every amount/cost pair in the same or different commodities, per unit or total, after every journal history with and without lot prices",
 "The only test involving a lot checks one recorded price; the breakdown itself is never asserted.",
 ["src/pool.rs","src/annotate.rs","src/parser.rs","src/scanner.rs"],
 [("CommodityPool::exchange","src/pool.rs"),("Annotation::parse and storing of lot annotations","src/annotate.rs, src/parser.rs, src/pool.rs find_or_create"),("scan_annotations","src/scanner.rs")],
 [dict(name="CommodityPool.annotated_commodities",meaning="lot annotation per symbol",where="src/pool.rs")],
 ["CommodityPool::exchange"])

prop("C11","No journal or API history makes the library touch invalid memory",
 "Loading any text (well-formed or not) into journals of any size, in one or several steps, and then using everything reachable from them - accounts, parents, postings, their transactions, amounts, commodities, prices, reports - never reads or writes freed, unowned or uninitialised memory and never forms a null reference. All links in a loaded journal lead to live objects of that same journal, also when the journal value itself is moved.",
 ["inputs","histories"],"every text, every sequence of loads and public (safe) API calls, every growth pattern of the collections",
 "The model is linked by raw pointers; whether one dangles depends on collection growth, and a dangling read usually goes unnoticed without a sanitizer.",
 ["src/account.rs","src/pool.rs","src/journal.rs","src/xact.rs","src/post.rs","src/amount.rs","src/history.rs","src/parser.rs"],
 [("objects other objects point to are kept at stable addresses (boxed) or re-linked when they move","src/account.rs, src/pool.rs, src/journal.rs, src/xact.rs"),("null commodity pointers are never dereferenced","src/amount.rs")],
 [dict(name="raw pointers",meaning="Account.parent, Account.posts, Post.account, Post.xact_ptr, Amount.commodity, history graph nodes",where="src/*.rs")],
 ["AddressSanitizer, Miri and valgrind reports; link walk over the public model"])

prop("C12","Notes stay with their transaction or posting, and change nothing else",
 "A note in a transaction header, or on a comment line before the first posting, is kept with that transaction; a comment line after a posting is kept with the nearest posting above it; every such text is preserved, in order, and attached to nothing else. Comments anywhere (whole-line comments between transactions, notes at the end of posting lines, empty comments) never change amounts, commodities, accounts, dates, payees or balances.",
 ["inputs"],"every placement, number and content of comments and notes in a supported journal",
 "Tests have one header-less note and one posting note of fixed text.",
 ["src/parser.rs","src/scanner.rs","src/xact.rs","src/post.rs"],
 [("parse_trailing_note","src/parser.rs"),("add_note","src/xact.rs, src/post.rs"),("tokenize_note/tokenize_payee","src/scanner.rs")],
 observe=["Xact.note","Post.note","the model with and without comments"])

prop("C13","The loaded journal depends only on the text, not on how it arrives",
 "The same text yields the same journal whether it is loaded from a string, a file, or any reader that delivers it in pieces of any size (with interruptions), with LF or CRLF line ends, with or without a final newline, with extra blank lines between entries, or split at a blank line between entries into several loads or several files. Including an existing file by absolute or working-directory-relative path is equivalent to having its content in place.",
 ["inputs","schedules","configurations"],"every supported text, every chunking of the reader, every split point between entries, every include nesting",
 "Tests load each fixture one way only; no test uses CRLF, partial reads or asserts anything about include.",
 ["src/lib.rs","src/parser.rs","src/journal.rs"],
 [("Parser::parse over BufRead::read_line","src/parser.rs"),("include_directive","src/parser.rs"),("parse_file/parse_text/Journal::read","src/lib.rs, src/journal.rs")],
 observe=["whole-model snapshot of each load"])

prop("C14","Loading and reporting are deterministic and journals are independent",
 "Loading a text and reporting on it gives the same result every time, regardless of what was loaded before, of other journals alive in the process, of interleaved work on them, or of other threads working on their own journals. Reports and lookups of existing entries do not change the journal: repeating them in any order gives the same answers.",
 ["histories","schedules"],"every interleaving of operations on several journals, in one or several threads, and every order of repeated queries",
 "Each test runs in its own process on one journal and queries it once.",
 ["src/lib.rs","src/journal.rs","src/account.rs","src/pool.rs","src/report.rs"],
 [("no global state; iteration over hash maps is sorted before output","src/account.rs, src/report.rs"),("fullname cache","src/account.rs")],
 observe=["whole-model snapshots and report output across repetitions, interleavings and threads (also under ThreadSanitizer)"])

prop("C15","Commands report on exactly the given files",
 "Running a command as an argument list, as one shell-quoted string, or through the command-line program gives the same output: the balance command (b, bal, balance) the balance report and the accounts command (that word or any beginning of it) the name-sorted account list (root included) of the journal made of all -f files in the order given, wherever the options stand and whatever file names they carry. Unknown options, missing option values, commands that are neither accounts nor balance (nor an abbreviation of them) and files that cannot be opened fail instead of producing a report.",
 ["inputs","configurations"],"every argument list made of supported commands and -f options in any order, with any file names, and every unsupported one",
 "Tests pass a handful of fixed command strings with one or two existing files, never through the program itself.",
 ["src/lib.rs","src/main.rs","src/option.rs","src/report.rs"],
 [("process_arguments / get_input_options","src/option.rs"),("execute_command, session_read_journal_files","src/lib.rs"),("main","src/main.rs")],
 observe=["run, run_command, stdout and exit status of the program"])

prop("C16","Amount arithmetic is exact and never mixes commodities",
 "Adding, subtracting, multiplying, negating and comparing amounts and quantities is exact decimal arithmetic (division is correct to the 28-digit precision of the type), for all signs, scales and sizes in range. Sums and differences keep their commodity and refuse operands in different commodities; products and quotients carry the left operand's commodity, or the right one's if the left has none; accumulating amounts into a balance keeps one exact sum per commodity, independent of order.",
 ["inputs","histories"],"every pair of amounts and every sequence of accumulations within the range of the decimal type",
 "Tests cover a few small integers, mostly positive.",
 ["src/amount.rs","src/balance.rs"],
 [("operator implementations on Amount and Quantity","src/amount.rs"),("Balance add/sub","src/balance.rs")],
 observe=["Amount and Quantity operators","Account::amount as a Balance"])

prop("C17","Malformed or interrupted input is never silently turned into data",
 "A transaction or price directive that cannot be understood (impossible date, unreadable number, more than one missing amount, a single posting, a cost in the posting's own commodity, a cost without an amount, an unclosed or doubled lot annotation, text that does not belong there), and a line that begins no entry the library knows, is refused loudly rather than loaded as something else. Whatever a text or a failing reader contains, loading ends, and all transactions that stand completely before the offending point are in the journal exactly as if they had been loaded alone, with nothing from after the point at which loading stopped.",
 ["inputs","fault_sequences"],"every malformed entry at every position, every read error at every byte offset, and arbitrary mutated text",
 "No test feeds malformed text or a failing reader.",
 ["src/parser.rs","src/scanner.rs","src/xact.rs","src/annotate.rs"],
 [("expect/panic on unreadable dates and annotations","src/parser.rs, src/annotate.rs, src/scanner.rs"),("finalize checks","src/xact.rs"),("read error handling in Parser::parse and xact_directive","src/parser.rs")],
 observe=["outcome (refused or completed) and model snapshot of the prefix"])

prop("C18","Journals assembled through the API equal the loaded ones",
 "A transaction assembled through the public API (Xact::new or Xact::create, postings with accounts and amounts obtained from the journal, add_post, add_note, Journal::add_xact, then xact::finalize) and a price added through the API (add_price, add_price_struct, parse_price_directive) leave the journal exactly as if the corresponding entry had been loaded from text: the same transactions, elided amounts, costs, notes, accounts, balances, recorded prices and reports. This holds whether postings are added before or after the transaction is put into the journal, when several transactions are put in before they are finalised in order, and mixed in any order with loads from text.",
 ["histories","inputs"],"every supported journal and every order of assembling its entries through the API, mixed with loads from text",
 "Tests assemble one or two fixed transactions at most and never compare them with loaded ones.",
 ["src/xact.rs","src/post.rs","src/journal.rs","src/parser.rs","src/pool.rs"],
 [("Xact::create, add_post, add_note, finalize","src/xact.rs"),("Journal::add_xact, register_account","src/journal.rs"),("parse_amount, parse_amount_parts","src/parser.rs"),("add_price, add_price_struct, parse_price_directive","src/pool.rs")],
 observe=["whole-model snapshot of the assembled journal against the loaded one and the reference model","every link of the assembled journal"])

with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
