From 15d4c43023a08b90376f200a1bbb3d49c8de5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:18 +0000
Subject: [PATCH 01/31] hooks: read-only price history view for monitors (cfg
 verif_hooks)

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8292147..193f003 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,8 @@ pub mod report;
 pub mod scanner;
 pub mod utilities;
 mod value;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 pub mod xact;
 
 /// An entry point for the CLIs.
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..0a3176e
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,47 @@
+/*!
+ * Read-only observation points for external runtime monitors.
+ *
+ * Compiled only with `--cfg verif_hooks`. Nothing in the library uses this module.
+ */
+
+use chrono::NaiveDateTime;
+use petgraph::{stable_graph::NodeIndex, visit::EdgeRef};
+
+use crate::{
+    amount::{Amount, Quantity},
+    commodity::Commodity,
+    pool::CommodityPool,
+};
+
+/// All the recorded prices: (priced commodity, price commodity, moment, quantity).
+pub fn prices(pool: &CommodityPool) -> Vec<(String, String, NaiveDateTime, Quantity)> {
+    let history = &pool.commodity_history;
+    let mut result = vec![];
+    for i in 0..history.node_count() {
+        let index = NodeIndex::new(i);
+        for edge in history.edges(index) {
+            for (when, quantity) in edge.weight() {
+                result.push((
+                    history.get_commodity(edge.source()).symbol.to_owned(),
+                    history.get_commodity(edge.target()).symbol.to_owned(),
+                    *when,
+                    *quantity,
+                ));
+            }
+        }
+    }
+    result
+}
+
+/// The price lookup of the commodity history.
+pub fn find_price(
+    pool: &CommodityPool,
+    source: *const Commodity,
+    target: *const Commodity,
+    moment: NaiveDateTime,
+    oldest: NaiveDateTime,
+) -> Option<(NaiveDateTime, Amount)> {
+    pool.commodity_history
+        .find_price(source, target, moment, oldest)
+        .map(|point| (point.when, point.price))
+}
-- 
2.43.0


From 25a9c59ba618a854dbec762a672d2b4a52ff0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:08 +0000
Subject: [PATCH 02/31] fix: keep accounts in place when their parent's map
 grows

Parents, postings and callers hold raw pointers to accounts. The children
were stored by value in a HashMap, so adding the fourth sibling moved them
all and left every pointer dangling.
---
 src/account.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..8a33e7c 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,8 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    /// Boxed, so that the children (and the pointers to them) stay in place when the map grows.
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +40,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +101,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(found.as_ref());
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +121,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = account_opt.as_ref();
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +175,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| acc.as_ref()).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From a2955e85f6a84ba30bcaba98f27ec39034cb6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:44 +0000
Subject: [PATCH 03/31] fix: keep commodities in place when the pool grows

Amounts, price history nodes and callers hold raw pointers to commodities.
They were stored by value in a HashMap, so creating the fourth commodity moved
them all, and creating a known symbol again replaced the commodity under an
additional graph node. The graph index was written through a shared reference.
---
 src/pool.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..f63e510 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,8 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    /// Boxed, so that the commodities (and the pointers to them) stay in place when the map grows.
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -76,21 +77,20 @@ impl CommodityPool {
             self.annotated_commodities.insert(symbol.to_owned(), ann);
         }
 
+        if let Some(existing) = self.commodities.get_mut(symbol) {
+            // The symbol is already known. Keep the commodity in place, as it is being pointed to.
+            existing.annotated |= c.annotated;
+            return existing.as_ref();
+        }
+
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
-        // get the new address.
-        let new_commodity = self.commodities.get(symbol).unwrap();
+        let new_commodity = self.commodities.entry(symbol.to_string()).or_insert(Box::new(c));
 
         // add to price history graph.
-        let cdty_ptr = new_commodity as *const Commodity;
+        let cdty_ptr: *const Commodity = new_commodity.as_ref();
         // log::debug!("commodity pointer: {:?} for {:?}", cdty_ptr, symbol);
         let i = self.commodity_history.add_commodity(cdty_ptr);
-
-        unsafe {
-            let mut_ptr = cdty_ptr as *mut Commodity;
-            let mut_cdty = &mut *mut_ptr;
-            mut_cdty.graph_index = Some(i);
-        }
+        new_commodity.graph_index = Some(i);
 
         log::debug!("Commodity {:?} created. index: {:?}, addr:{:?}", symbol, i, cdty_ptr);
 
@@ -98,7 +98,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| c.as_ref())
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +128,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            c.as_ref()
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From df7fc337f945401c94969460958e364541532113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:29 +0000
Subject: [PATCH 04/31] fix: link postings to their accounts once the
 transaction is complete

Account.posts points into Xact.posts, which was still growing at that time:
the fifth posting moved the previous ones and left the account with dangling
pointers.
---
 src/parser.rs | 33 ++++++++++++---------------------
 src/xact.rs   |  9 ++++++++-
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..5364a93 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -449,27 +449,18 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
     let note = None;
 
     // Create Post, link Xact, Account, Commodity
-    let post_ref: &Post;
-    {
-        let post: Post;
-        post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
-
-        // add Post to Xact.
-        // let xact = journal.xacts.get_mut(xact_ptr).unwrap();
-        let xact: &mut Xact;
-        unsafe {
-            xact = &mut *(xact_ptr.cast_mut());
-        }
-        // xact.post_indices.push(post_index);
-        post_ref = xact.add_post(post);
-    }
-
-    // add Post to Account.posts
-    {
-        //let account = journal.accounts.get_mut(account_ptr).unwrap();
-        let account = journal.get_account_mut(account_ptr);
-        account.posts.push(post_ref);
-    }
+    let post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
+
+    // add Post to Xact.
+    // It is added to Account.posts when the Xact is complete (finalize), as the posts
+    // move in memory while the Xact is growing.
+    // let xact = journal.xacts.get_mut(xact_ptr).unwrap();
+    let xact: &mut Xact;
+    unsafe {
+        xact = &mut *(xact_ptr.cast_mut());
+    }
+    // xact.post_indices.push(post_index);
+    xact.add_post(post);
 
     Ok(())
 }
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..c67f8c5 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -274,7 +274,14 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
     }
 
     // TODO: Process Commodities?
-    // TODO: Process Account records from Posts.
+
+    // Add the posts to Account.posts.
+    for post in &xact.posts {
+        if !post.account.is_null() {
+            let account = journal.get_account_mut(post.account);
+            account.posts.push(post);
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3360c562dd9dc7d202726c2a8bb2c41af9bad96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 05/31] fix: keep Post.xact_ptr valid when the journal grows

Adding a transaction may move the existing ones. Their posts kept pointing to
the previous location.
---
 src/journal.rs | 7 +++++++
 src/xact.rs    | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..63c6bed 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,7 +36,14 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        let location = self.xacts.as_ptr();
         self.xacts.push(xact);
+        if self.xacts.as_ptr() != location {
+            // The existing transactions have been moved. The posts must follow.
+            self.xacts.iter_mut().for_each(|x| x.link_posts());
+        } else {
+            self.xacts.last_mut().unwrap().link_posts();
+        }
         //self.xacts.len() - 1
         self.xacts.last().unwrap()
     }
diff --git a/src/xact.rs b/src/xact.rs
index c67f8c5..b1e32c5 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -82,6 +82,14 @@ impl Xact {
 
         self.posts.last().unwrap()
     }
+
+    /// Points the posts to (the current location of) this transaction.
+    pub(crate) fn link_posts(&mut self) {
+        let xact_ptr = self as *const Xact;
+        for post in &mut self.posts {
+            post.xact_ptr = xact_ptr;
+        }
+    }
 }
 
 impl Default for Xact {
-- 
2.43.0


From 3c08f0d3206549b7c2973f0092d989c33d31ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:34 +0000
Subject: [PATCH 06/31] fix: Amount::inverse negates negative amounts, too

It returned negative amounts unchanged, so a posting without an amount got the
wrong sign when the others summed up to a negative value. It also formed a null
reference for amounts without a commodity.
---
 src/amount.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..498472f 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,15 +74,9 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
-        } else {
-            self.quantity
-        };
-
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        let mut result = *self;
+        result.invert();
+        result
     }
 
     /// Inverts the sign on the amount.
-- 
2.43.0


From fc6894cb9e34f9c213e06717f5fc719f012a628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 07/31] fix: do not form null references when adding and
 multiplying amounts

Amounts without a commodity carry a null pointer, which was dereferenced.
---
 src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 498472f..cec0983 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -117,7 +117,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -161,7 +161,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From ea32fcd7d6e047336793a817967560eb1335507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 08/31] fix: looking up an unknown sub-account finds nothing
 instead of panicking

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 8a33e7c..03906bd 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -133,7 +133,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From d88a24f5f222f4de7736a79ca96a241f027eef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 09/31] fix: do not skip the first character of a cost written
 without a space

"10 VEUR @25 EUR" was read as a cost of 5 EUR.
---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From 0b18f0cbd0bd9e8ad7feebeee769a4252850b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:44 +0000
Subject: [PATCH 10/31] fix: looking up the index of an unknown commodity finds
 nothing instead of panicking

---
 src/pool.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index f63e510..b9359f6 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -102,8 +102,7 @@ impl CommodityPool {
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
-        let x = self.commodities.get(symbol);
-        x.unwrap().graph_index
+        self.commodities.get(symbol)?.graph_index
     }
 
     /// Finds a commodity with the given symbol, or creates one.
-- 
2.43.0


From cfae8b595f2ecf813a7c09aa494d8812a7f7c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:42 +0000
Subject: [PATCH 11/31] fix: do not read posting notes as commodities

A note at the end of a posting line without a commodity was read as the
commodity ";", and trailing spaces after an account caused a panic.
---
 src/scanner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..b7ab808 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,15 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+    let input = input[sep_index + 2..].trim();
+    if input.is_empty() || input.starts_with(';') {
+        // only a note, or nothing at all.
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
@@ -350,7 +358,7 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        if c.is_whitespace() || c == '@' || c == ';' || c.is_digit(10) || c == '-' {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From ec94a9eeb1efed4496069afae4c701028d581cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 12/31] fix: refuse amounts with an unreadable quantity

An amount, lot price or cost that could not be parsed ("1,000 EUR", "-$5",
"1.2.3") was treated as if it had not been written at all.
---
 src/annotate.rs | 10 ++--------
 src/parser.rs   | 17 +++++++++++------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..d2e0c37 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -9,7 +9,7 @@
 use anyhow::Error;
 use chrono::NaiveDate;
 
-use crate::{amount::{Amount, Quantity}, parser::ISO_DATE_FORMAT, journal::Journal};
+use crate::{amount::Amount, journal::Journal, parser::{parse_amount_parts, ISO_DATE_FORMAT}};
 
 pub struct Annotation {
     /// Price per unit. The {} value in the Lot syntax.
@@ -32,14 +32,8 @@ impl Annotation {
 
     pub fn parse(date: &str, quantity: &str, commodity_symbol: &str, journal: &mut Journal) -> Result<Self, Error> {
         // parse amount
-        let commodity = journal.commodity_pool.find_or_create(commodity_symbol, None);
+        let price = parse_amount_parts(quantity, commodity_symbol, journal);
 
-        let price = if let Some(quantity) = Quantity::from_str(quantity) {
-            Some(Amount::new(quantity, Some(commodity)))
-        } else {
-            None
-        };
-        
         let result = Self {
             price: price,
             date: match date.is_empty() {
diff --git a/src/parser.rs b/src/parser.rs
index 5364a93..5c029dc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -73,14 +73,19 @@ pub fn parse_amount_parts(
     commodity: &str,
     journal: &mut Journal,
 ) -> Option<Amount> {
+    if quantity.is_empty() && commodity.is_empty() {
+        // no amount
+        return None;
+    }
+
+    let Some(quantity) = Quantity::from_str(quantity) else {
+        panic!("Invalid amount: {:?} {:?}", quantity, commodity)
+    };
+
     // Create Commodity, add to collection
     let commodity_ptr = journal.commodity_pool.find_or_create(commodity, None);
 
-    if let Some(quantity) = Quantity::from_str(quantity) {
-        Some(Amount::new(quantity, Some(commodity_ptr)))
-    } else {
-        None
-    }
+    Some(Amount::new(quantity, Some(commodity_ptr)))
 }
 
 pub(crate) struct Parser<'j, T: Read> {
@@ -470,7 +475,7 @@ fn parse_cost(
     amount: &Option<Amount>,
     journal: &mut Journal,
 ) -> Option<Amount> {
-    if tokens.cost_quantity.is_empty() || amount.is_none() {
+    if amount.is_none() {
         return None;
     }
 
-- 
2.43.0


From eb4787d6896950af11f674b2f583949002d8925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 13/31] fix: refuse unexpected text after an amount

"1 000 EUR" was read as 1, without a commodity, ignoring the rest of the line.
---
 src/scanner.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b7ab808..cb7a510 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -232,6 +232,9 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
 
     // TODO: handle post comment
     // scan_xyz(input)
+    if !cost_tokens.remainder.is_empty() && !cost_tokens.remainder.starts_with(';') {
+        panic!("Unexpected text after the amount: {:?}", cost_tokens.remainder);
+    }
 
     return PostTokens {
         account,
@@ -292,7 +295,10 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
             // todo: is it fixated price {=xyz}
 
             let (amount, rest) = scan_until(&input[1..], '}');
-            let (amount_tokens, _) = scan_amount(amount);
+            let (amount_tokens, remainder) = scan_amount(amount);
+            if !remainder.is_empty() {
+                panic!("Unexpected text after the lot price: {:?}", remainder);
+            }
 
             result.quantity = amount_tokens.quantity;
             result.symbol = amount_tokens.symbol;
@@ -380,7 +386,7 @@ fn scan_cost(input: &str) -> CostTokens {
             quantity: "",
             symbol: "",
             is_per_unit: false,
-            remainder: "",
+            remainder: input,
         };
     }
 
-- 
2.43.0


From d449f6140701e1b9e13cb5d57cfa6efaeb350dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:50 +0000
Subject: [PATCH 14/31] fix: read transaction headers without a payee

The line end was taken as a part of the date.
---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index cb7a510..857c79d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -97,7 +97,7 @@ pub(crate) fn tokenize_xact_header(input: &str) -> [&str; 4] {
     // Dates.
     // Date has to be at the beginning.
 
-    let (date, input) = scan_date(input);
+    let (date, input) = scan_date(input.trim_end());
 
     // aux date
     let (aux_date, input) = tokenize_aux_date(input);
-- 
2.43.0


From ac31689a24ccef687538dd2e0c77f692ee843168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:52 +0000
Subject: [PATCH 15/31] fix: read price directives in journals

The P directive was not recognized while parsing a journal, and the line end
would have been a part of the commodity symbol.
---
 src/parser.rs  | 3 +++
 src/scanner.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c029dc..7d2b4ea 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -242,6 +242,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // the pricing xact is handled by the caller.
+            'P' => (),
+
             // ptvy
             _ => {
                 todo!("handle")
diff --git a/src/scanner.rs b/src/scanner.rs
index 857c79d..131af36 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -419,7 +419,7 @@ fn scan_cost(input: &str) -> CostTokens {
 /// returns [date, time, commodity, quantity, price_commodity]
 pub(crate) fn scan_price_directive(input: &str) -> [&str; 5] {
     // Skip the starting P and whitespace.
-    let input = input[1..].trim_start();
+    let input = input[1..].trim();
 
     // date
     let (date, input) = scan_price_element(input);
-- 
2.43.0


From 41ffb3b6b10e10b1118c458efc058758aac4267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:54 +0000
Subject: [PATCH 16/31] fix: do not take the name of the program as the command

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..34da09a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,7 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From cec56ae3faa88cac6c73db5bfa095f58716da297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 17/31] fix: do not lose lot prices

Postings without a lot stored an empty annotation, which then prevented
storing the lot price of later postings in the commodity. With an annotation
that has no price, the basis cost was 0 instead of the final cost.
---
 src/parser.rs | 10 ++++++----
 src/pool.rs   | 14 ++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7d2b4ea..795cc14 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -443,10 +443,12 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
         // TODO: if the cost price is total (not per unit)
         // details.price /= amount
 
-        // store annotation
-        journal
-            .commodity_pool
-            .find_or_create(tokens.symbol, Some(annotation));
+        // store annotation, if there is any
+        if annotation.price.is_some() || annotation.date.is_some() {
+            journal
+                .commodity_pool
+                .find_or_create(tokens.symbol, Some(annotation));
+        }
     }
 
     // handle cost (2nd amount)
diff --git a/src/pool.rs b/src/pool.rs
index b9359f6..e3a3c17 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -120,8 +120,12 @@ impl CommodityPool {
         // self.commodities.entry(symbol).
 
         if let Some(c) = self.commodities.get(symbol) {
-            // check if annotation exists and add if not.
-            if annotation.is_some() && !self.annotated_commodities.contains_key(symbol) {
+            // check if annotation (with a price) exists and add if not.
+            let has_price = match self.annotated_commodities.get(symbol) {
+                Some(existing) => existing.price.is_some(),
+                None => false,
+            };
+            if annotation.is_some() && !has_price {
                 // append annotation
                 self.annotated_commodities
                     .insert(symbol.to_owned(), annotation.unwrap());
@@ -203,10 +207,8 @@ impl CommodityPool {
         };
 
         // "exchange: basis-cost    = "
-        if let Some(annotation) = annotation_opt {
-            if let Some(ann_price) = annotation.price {
-                breakdown.basis_cost = ann_price * (*amount);
-            }
+        if let Some(ann_price) = annotation_opt.and_then(|annotation| annotation.price) {
+            breakdown.basis_cost = ann_price * (*amount);
         } else {
             breakdown.basis_cost = breakdown.final_cost;
         }
-- 
2.43.0


From 33eaf64d8a148cd680a778529c73003993792f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:59 +0000
Subject: [PATCH 18/31] fix: date the calculated rates correctly when the
 prices are in the future

---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..df7f831 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent: NaiveDateTime = NaiveDateTime::MAX;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
-- 
2.43.0


From 1b6694a1a9217fa52f849df4a4442593b5f6cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 19/31] fix: do not overwrite the existing note when adding
 another one

---
 src/post.rs | 8 +++++++-
 src/xact.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/post.rs b/src/post.rs
index 9c70026..98d1b82 100644
--- a/src/post.rs
+++ b/src/post.rs
@@ -48,7 +48,13 @@ impl Post {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        match &mut self.note {
+            Some(existing) => {
+                existing.push('\n');
+                existing.push_str(note);
+            }
+            None => self.note = Some(note.into()),
+        }
     }
 }
 
diff --git a/src/xact.rs b/src/xact.rs
index b1e32c5..f3f4a21 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -72,7 +72,13 @@ impl Xact {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        match &mut self.note {
+            Some(existing) => {
+                existing.push('\n');
+                existing.push_str(note);
+            }
+            None => self.note = Some(note.into()),
+        }
     }
 
     /// Adds the post to the collection and returns the reference to it.
-- 
2.43.0


From 335ab3f8e02f4e1803164832c9c06fe4130d002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:04 +0000
Subject: [PATCH 20/31] fix: do not replace the written costs with the implied
 ones

---
 src/xact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xact.rs b/src/xact.rs
index f3f4a21..fb862f5 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -175,8 +175,10 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
             }
         }
 
+        let saw_cost = xact.posts.iter().any(|post| post.cost.is_some());
+
         // if !saw_cost && top_post
-        if top_post.is_some() {
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From 5a526c94c59439f1339a83756bf43433e02aee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:07 +0000
Subject: [PATCH 21/31] fix: stop at a read error without keeping the
 incomplete transaction

The part of the transaction that had been read was finalized, and the reading
continued after the error.
---
 src/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 795cc14..429baff 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,7 +165,11 @@ impl<'j, T: Read> Parser<'j, T> {
 
             '0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9' => {
                 // Starts with date/number.
-                let _ = self.xact_directive();
+                if let Err(err) = self.xact_directive() {
+                    // The transaction is incomplete.
+                    self.journal.xacts.pop();
+                    return Err(err.to_string());
+                }
             }
 
             ' ' | '\t' => {
@@ -282,8 +286,7 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
                 Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
+                    return Err(e.into());
                 }
                 Ok(0) => {
                     // end of file
-- 
2.43.0


From 787c493419d9ea8e96fe4dca03ef054d5ca6b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:52 +0000
Subject: [PATCH 22/31] hooks: parent link of accounts for monitors (cfg
 verif_hooks)

---
 src/verif_hooks.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 0a3176e..cd58d8a 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -8,6 +8,7 @@ use chrono::NaiveDateTime;
 use petgraph::{stable_graph::NodeIndex, visit::EdgeRef};
 
 use crate::{
+    account::Account,
     amount::{Amount, Quantity},
     commodity::Commodity,
     pool::CommodityPool,
@@ -45,3 +46,8 @@ pub fn find_price(
         .find_price(source, target, moment, oldest)
         .map(|point| (point.when, point.price))
 }
+
+/// The parent link of an account.
+pub fn parent(account: &Account) -> *const Account {
+    account.parent
+}
-- 
2.43.0


From f04c5b4493752697490c1869b0978a378d8d0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:47 +0000
Subject: [PATCH 23/31] fix: include files with spaces in their names

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 429baff..6db46da 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -210,11 +210,15 @@ impl<'j, T: Read> Parser<'j, T> {
         // todo: skip if (*p == '@' || *p == '!')
 
         // split directive and argument
-        let mut iter = self.buffer.split_whitespace();
-        let Some(directive) = iter.next() else {
+        let Some(directive) = self.buffer.split_whitespace().next() else {
             panic!("no directive?")
         };
-        let argument = iter.next();
+        // The argument is the rest of the line. File names can contain spaces.
+        let argument = self
+            .buffer
+            .trim()
+            .split_once(char::is_whitespace)
+            .map(|(_, argument)| argument.trim_start());
 
         // todo: check arguments for directives that require one
         // match directive {
-- 
2.43.0


From 62c44fc0e7cda8954e38706de0d1fe7a0a58a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 24/31] fix: do not modify accounts behind shared references

Optimised builds take the account for unchanged: registering an account failed
('should not happen') and full names were empty.
---
 src/account.rs | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 03906bd..d7444f4 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -2,7 +2,7 @@
  * Account definition and operations
  */
 
-use std::{collections::HashMap, ptr::addr_of, vec};
+use std::{cell::OnceCell, collections::HashMap, ptr::addr_of, vec};
 
 use crate::{balance::Balance, post::Post};
 
@@ -17,7 +17,8 @@ pub struct Account {
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
-    fullname: String,
+    /// Assembled when first requested.
+    fullname: OnceCell<String>,
 }
 
 impl Account {
@@ -28,7 +29,7 @@ impl Account {
             // note
             accounts: HashMap::new(),
             posts: vec![],
-            fullname: "".to_string(),
+            fullname: OnceCell::new(),
             // post_indices: vec![],
         }
     }
@@ -55,34 +56,21 @@ impl Account {
             return "";
         }
 
-        if !self.fullname.is_empty() {
-            return &self.fullname;
-        }
-
-        let mut fullname = self.name.to_owned();
-        let mut first = self;
+        self.fullname.get_or_init(|| {
+            let mut fullname = self.name.to_owned();
+            let mut first = self;
 
-        while !first.parent.is_null() {
-            // If there is a parent account, use it.
-            first = self.get_account_mut(first.parent);
+            while !first.parent.is_null() {
+                // If there is a parent account, use it.
+                first = Account::from_ptr(first.parent);
 
-            if !first.name.is_empty() {
-                fullname = format!("{}:{}", &first.name, fullname);
+                if !first.name.is_empty() {
+                    fullname = format!("{}:{}", &first.name, fullname);
+                }
             }
-        }
-
-        self.set_fullname(fullname);
-
-        &self.fullname
-    }
-
-    fn set_fullname(&self, fullname: String) {
-        // alchemy?
-        // let ptr = self as *const Account;
-        let ptr = addr_of!(*self);
-        let subject = self.get_account_mut(ptr);
 
-        subject.fullname = fullname;
+            fullname
+        })
     }
 
     /// Finds account by full name.
-- 
2.43.0


From 7bfa80d6d4f7237f7e27527087cd737040e65c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:56 +0000
Subject: [PATCH 25/31] fix: refuse text after the date of a lot instead of
 dropping it

---
 src/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 131af36..0cc09b3 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -312,8 +312,11 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
                 panic!("Commodity specifies more than one date");
             }
             let (date_input, rest) = scan_until(&input[1..], ']');
-            let (date, _) = scan_date(date_input);
-            
+            let (date, remainder) = scan_date(date_input);
+            if !remainder.trim().is_empty() {
+                panic!("Unexpected text after the lot date: {:?}", remainder);
+            }
+
             result.date = date;
 
             // skip the closing ]
-- 
2.43.0


From ade747425d8190c247bc6931b283665e42b289dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:15 +0000
Subject: [PATCH 26/31] fix: refuse unknown commands that start with an 'a'

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 193f003..2ada11c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -99,6 +99,10 @@ fn execute_command(commands: Vec<String>, input_options: InputOptions) -> Vec<St
     // execute command
     match verb.chars().next().unwrap() {
         'a' => {
+            if !"accounts".starts_with(verb.as_str()) {
+                todo!("?")
+            }
+
             // accounts?
             // TODO: replace this temporary report
             let mut output = report::report_accounts(&journal);
-- 
2.43.0


From fa6ba540f5fda5c8e36ea0488dd1b4e5ceb94508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:18 +0000
Subject: [PATCH 27/31] fix: refuse text after the price of a price directive
 instead of dropping it

---
 src/scanner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 0cc09b3..9bce8ff 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -446,7 +446,12 @@ pub(crate) fn scan_price_directive(input: &str) -> [&str; 5] {
 
     // price, commodity
     let input = input.trim_start();
-    let (price_commodity, _input) = scan_price_element(input);
+    let (price_commodity, input) = scan_price_element(input);
+
+    let input = input.trim_start();
+    if !input.is_empty() && !input.starts_with(';') {
+        panic!("Unexpected text after the price: {:?}", input);
+    }
 
     [date, time, commodity, quantity, price_commodity]
 }
-- 
2.43.0


From ce761c9931676254a2c16f88abfb626812ebd596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 28/31] fix: refuse an empty auxiliary date instead of ignoring
 it

---
 src/scanner.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 9bce8ff..41280ae 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -145,13 +145,17 @@ fn tokenize_aux_date(input: &str) -> (&str, &str) {
         Some('=') => {
             // have aux date.
             // skip '=' sign
-            let input = input.trim_start_matches('=');
+            let input = &input[1..];
 
             // find the next separator
-            match input.find(' ') {
-                Some(i) => return (&input[..i], &input[i..]),
-                None => return (input, ""),
+            let (aux_date, rest) = match input.find(' ') {
+                Some(i) => (&input[..i], &input[i..]),
+                None => (input, ""),
             };
+            if aux_date.is_empty() {
+                panic!("Missing the auxiliary date after '='")
+            }
+            return (aux_date, rest);
         }
         _ => {
             // end of line, or character other than '='
-- 
2.43.0


From 35bc6d99ad09bb5c44d2d7ad79c715009008a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 29/31] fix: refuse a cost without an amount, and an empty cost

---
 src/parser.rs  | 3 +++
 src/scanner.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6db46da..550b8bf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -488,6 +488,9 @@ fn parse_cost(
     journal: &mut Journal,
 ) -> Option<Amount> {
     if amount.is_none() {
+        if !tokens.cost_quantity.is_empty() || !tokens.cost_symbol.is_empty() {
+            panic!("Missing the amount the cost is for")
+        }
         return None;
     }
 
diff --git a/src/scanner.rs b/src/scanner.rs
index 41280ae..782629d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -409,6 +409,9 @@ fn scan_cost(input: &str) -> CostTokens {
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
+    if amount_tokens.quantity.is_empty() && amount_tokens.symbol.is_empty() {
+        panic!("Missing the cost after '@'")
+    }
 
     CostTokens {
         quantity: amount_tokens.quantity,
-- 
2.43.0


From 66de114ed60180daa5ac950a92777ec6a61366bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 30/31] fix: refuse unknown directives starting with 'i'
 instead of reading them as prices

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 550b8bf..59fe8da 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -247,7 +247,7 @@ impl<'j, T: Read> Parser<'j, T> {
                 "import" => {
                     todo!("import directive")
                 }
-                _ => (),
+                _ => todo!("handle"),
             },
 
             // the pricing xact is handled by the caller.
-- 
2.43.0


From 3460ce3f4f26fc04e87a4880c25476ba47b1ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 31/31] fix: refuse account names with an empty part

---
 src/account.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/account.rs b/src/account.rs
index d7444f4..7885d8d 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -87,6 +87,13 @@ impl Account {
     /// The variant with all the parameters.
     /// account_t * find_account(const string& name, bool auto_create = true);
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
+        if name.split(':').any(|part| part.is_empty()) {
+            if auto_create {
+                panic!("Account name contains an empty sub-account name: {:?}", name);
+            }
+            return None;
+        }
+
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
             return Some(found.as_ref());
-- 
2.43.0

