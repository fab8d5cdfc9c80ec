//! The guarded observation points of the library, or nothing where they do not build.
use chrono::NaiveDateTime;
use ledger_rs_lib::{account::Account, amount::Amount, commodity::Commodity, pool::CommodityPool};

pub const PRESENT: bool = cfg!(verif_hooks);

#[cfg(verif_hooks)]
mod imp {
    use super::*;
    use ledger_rs_lib::verif_hooks;

    pub fn prices(pool: &CommodityPool) -> Vec<(String, String, NaiveDateTime, ledger_rs_lib::amount::Quantity)> {
        verif_hooks::prices(pool)
    }
    pub fn find_price(pool: &CommodityPool, a: *const Commodity, b: *const Commodity, moment: NaiveDateTime, oldest: NaiveDateTime) -> Option<(NaiveDateTime, Amount)> {
        verif_hooks::find_price(pool, a, b, moment, oldest)
    }
    pub fn parent(a: &Account) -> Option<*const Account> {
        Some(verif_hooks::parent(a))
    }
}

#[cfg(not(verif_hooks))]
mod imp {
    use super::*;

    pub fn prices(_: &CommodityPool) -> Vec<(String, String, NaiveDateTime, ledger_rs_lib::amount::Quantity)> {
        vec![]
    }
    pub fn find_price(_: &CommodityPool, _: *const Commodity, _: *const Commodity, _: NaiveDateTime, _: NaiveDateTime) -> Option<(NaiveDateTime, Amount)> {
        None
    }
    pub fn parent(_: &Account) -> Option<*const Account> {
        None
    }
}

pub use imp::*;
