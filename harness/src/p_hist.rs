//! Properties decided over generated histories (C01-C08, C11, C12) and injected states (C04-C06).

use crate::hist::{self, *};
use crate::runner::{Check, Part, Property, Stats, P};
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const TRUST: &[&str] = &[
    "the program is compiled for the host with its on-chain code paths and run in a model of the Solana runtime (harness/src/svm.rs); SPL Token is the real processor, System and ATA create are modelled",
    "compute-unit limits and transaction size limits are not modelled",
];

fn sample(h: &Hist) -> serde_json::Value {
    serde_json::to_value(h).unwrap()
}

/// Runs a history and counts it as non-trivial if it had a successful unstake plus either a
/// successful withdrawal or a second staker.
pub fn drive(h: &Hist, st: &mut Stats, obs: &mut dyn FnMut(&Run, &Step, &mut Stats) -> Check) -> Result<Run, String> {
    let mut unst = 0;
    let mut wd = 0;
    let mut stakers = std::collections::BTreeSet::new();
    let r = hist::run(h, st, &mut |r, s, st| {
        if s.res.ok() {
            for ix in s.ixs.iter().filter(|i| i.program == PROGRAM) {
                match kind_of(&ix.data) {
                    Some(Kind::Unstake) => unst += 1,
                    Some(Kind::Withdraw) => wd += 1,
                    Some(Kind::Stake) => {
                        stakers.insert(ix.metas[0].key);
                    }
                    _ => {}
                }
            }
        }
        obs(r, s, st)
    })?;
    if unst > 0 && (wd > 0 || stakers.len() > 1) {
        st.nontrivial(serde_json::to_string(h).unwrap(), || sample(h));
    }
    Ok(r)
}
const HRULE: &str = "proptest histories: initialise, then stakes/unstakes/withdrawals/donations/burns/transfers/clock moves/admin and hostile transactions by 1-4 users (log-uniform scales, boundary amounts, multi-instruction transactions); non-trivial = at least one successful unstake and (a successful withdrawal or two different stakers); distinct by the full history";

pub fn part<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn(bool) -> BoxedStrategy<C>,
    test: fn(&C, &mut Stats) -> Check,
) -> Box<dyn Part>
where
    C: Clone + std::fmt::Debug + Serialize + serde::de::DeserializeOwned + Send + 'static,
{
    Box::new(P {
        name,
        quick,
        thorough,
        strategy,
        test,
    })
}

fn len(t: bool) -> std::ops::Range<usize> {
    if t {
        4..80
    } else {
        4..40
    }
}
fn balanced(t: bool) -> BoxedStrategy<Hist> {
    hist(BALANCED, len(t))
}

// ---- C01 ----------------------------------------------------------------------------------

fn c01(h: &Hist, st: &mut Stats) -> Check {
    drive(h, st, &mut |_, s, st| {
        let (v, e) = (vault_amt(s.post), escrow(s.post));
        if v < e {
            return Err(format!("{}: vault {v} < escrow {e}", s.desc()));
        }
        let owed: u128 = onchain_claims(s.post).iter().map(|c| c.1 as u128).sum();
        if owed > v as u128 {
            return Err(format!("{}: vault {v} < promised claims {owed}", s.desc()));
        }
        if e > 0 && v - e <= 2 {
            st.hit("pool (almost) drained with escrow outstanding");
        }
        if e > 0 {
            st.hit("escrow > 0");
        }
        Ok(())
    })
    .map(|_| ())
}

// ---- C02 ----------------------------------------------------------------------------------

fn c02(h: &Hist, st: &mut Stats) -> Check {
    drive(h, st, &mut |r, s, st| {
        let e = escrow(s.post) as u128;
        let on_chain: u128 = onchain_claims(s.post).iter().map(|c| c.1 as u128).sum();
        if on_chain != e {
            return Err(format!("{}: escrow {e} but claim accounts sum to {on_chain}", s.desc()));
        }
        let tracked: u128 = r.claims.iter().map(|c| c.amount() as u128).sum();
        if tracked != e {
            return Err(format!("{}: escrow {e} but outstanding claims sum to {tracked}", s.desc()));
        }
        if r.claims.len() > 2 {
            st.hit("3+ claims outstanding");
        }
        if !s.res.ok() && (s.pre.accts != s.post.accts) {
            return Err(format!("{}: rejected transaction changed state", s.desc()));
        }
        Ok(())
    })
    .map(|_| ())
}

// ---- C03 ----------------------------------------------------------------------------------

fn ratio_ok(pre: &Bank, post: &Bank) -> Check {
    let f = |b: &Bank| {
        (
            (vault_amt(b) as i128 - escrow(b) as i128 + 100) as i128,
            supply(b) as i128 + 100,
        )
    };
    let ((n0, s0), (n1, s1)) = (f(pre), f(post));
    // n1/s1 >= n0/s0
    if n1 < 0 || (n1 as u128) * (s0 as u128) < (n0 as u128) * (s1 as u128) {
        return Err(format!("backing ratio fell from {n0}/{s0} to {n1}/{s1}"));
    }
    Ok(())
}

fn c03(h: &Hist, st: &mut Stats) -> Check {
    drive(h, st, &mut |r, s, st| {
        if s.kinds().is_empty() && s.n > 0 && s.ixs.iter().all(|i| i.program != PROGRAM) {
            return Ok(());
        }
        let (v, e, sup) = (vault_amt(s.post), escrow(s.post), supply(s.post));
        if v < e || v - e < sup {
            return Err(format!("{}: {sup} xORCA backed by vault {v} - escrow {e}", s.desc()));
        }
        if s.n > 0 && supply(s.pre) > 0 && s.res.ok() {
            // instruction by instruction: the supply may pass through zero inside a transaction
            let mut b = s.pre.clone();
            for ix in s.ixs {
                let before = b.clone();
                if !process_tx(&r.env, &mut b, std::slice::from_ref(ix)).ok() {
                    break;
                }
                if supply(&before) > 0 {
                    ratio_ok(&before, &b).map_err(|m| format!("{}: {m}", s.desc()))?;
                }
            }
            if v - e > sup {
                st.hit("ratio above one");
            }
        }
        // immediate round trip after every stake
        if s.single() == Some(Kind::Stake) && s.res.ok() && supply(s.pre) > 0 {
            let u = s.ixs[0].metas[0].key;
            let x = le64(&s.ixs[0].data, 1);
            let minted = tok_amount(s.post, &xorca_acct(&u)) - tok_amount(s.pre, &xorca_acct(&u));
            let mut b = s.post.clone();
            if let Some(i) = (0..=255u8).find(|i| !b.accts.contains_key(&pw(&u, *i))) {
                let t = process_tx(&r.env, &mut b, &[ix_unstake(&u, minted, i)]);
                if t.ok() {
                    st.hit("round trip");
                    let w = le64(&b.get(&pw(&u, i)).data, 40);
                    if w > x {
                        return Err(format!("staked {x}, minted {minted}, claim after round trip {w}"));
                    }
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}

// ---- C04 / C05 / C06 single steps -----------------------------------------------------------

fn kinds_exact(h: &Hist, st: &mut Stats, ks: &[Kind], class: &str) -> Check {
    drive(h, st, &mut |_, s, st| {
        if s.only(ks) {
            st.hit(if s.res.ok() { "accepted" } else { "rejected" });
            if let (Err((_, f)), false) = (&s.exp.res, s.res.ok()) {
                for x in f {
                    st.hit(&format!("{class} rejected: {}", x.what));
                }
            }
            s.exact()?;
        }
        Ok(())
    })
    .map(|_| ())
}

fn w(stake: u32, unstake: u32, withdraw: u32) -> Weights {
    Weights {
        stake,
        unstake,
        withdraw,
        ..BALANCED
    }
}

fn c04h(h: &Hist, st: &mut Stats) -> Check {
    kinds_exact(h, st, &[Kind::Stake], "stake")
}
fn c05h(h: &Hist, st: &mut Stats) -> Check {
    kinds_exact(h, st, &[Kind::Unstake], "unstake")
}

/// One instruction against an injected, representable state.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inj {
    salt: u8,
    vault: u64,
    escrow: u64,
    supply: u64,
    cooldown: i64,
    now: i64,
    amount: Amt,
    balance: u64,
    other: u64,
    idx: u8,
    prefund: u64,
}

fn inj(_t: bool) -> BoxedStrategy<Inj> {
    let amount = prop_oneof![
        4 => amt(),
        1 => Just(Amt::Abs(u64::MAX)),
    ];
    (
        any::<u8>(),
        log_u64(),
        prop_oneof![Just(0u64), log_u64()],
        prop_oneof![1 => Just(0u64), 8 => log_u64()],
        prop_oneof![6 => 0i64..100000, 2 => 0..=i64::MAX, 1 => crate::dict::lit().prop_map(|v| v as i64 & i64::MAX)],
        prop_oneof![6 => 0i64..2_000_000_000, 2 => 0..=i64::MAX, 1 => crate::dict::lit().prop_map(|v| v as i64 & i64::MAX)],
        amount,
        prop_oneof![3 => log_u64(), 1 => Just(u64::MAX)],
        (prop_oneof![3 => Just(0u64), 1 => log_u64(), 1 => Just(u64::MAX)], 0u8..6),
        idx(),
        prop_oneof![3 => Just(0u64), 1 => log_below(40), 1 => Just(8_017_920u64), 1 => Just(8_017_919)],
    )
        .prop_map(
            |(salt, a, b, supply, cooldown, now, amount, balance, (other, ord), idx, prefund)| {
                // mostly vault >= escrow; sometimes N = 0, sometimes insolvent
                let (vault, escrow) = match ord {
                    0 => (a, a),
                    1 => (a, b),
                    _ => (a.max(b), a.min(b)),
                };
                Inj {
                    salt,
                    vault,
                    escrow,
                    supply,
                    cooldown,
                    now,
                    amount,
                    balance,
                    other,
                    idx,
                    prefund,
                }
            },
        )
        .boxed()
}

fn inj_amount(c: &Inj, to_x: bool) -> u64 {
    match &c.amount {
        Amt::Abs(x) => *x,
        Amt::Frac(f) => ((c.balance as u128 * *f as u128) >> 16) as u64,
        Amt::All => c.balance,
        Amt::AllPlus(k) => c.balance.saturating_add(*k as u64),
        Amt::Figure(f, d) => {
            let x = match f % 6 {
                0 => c.escrow,
                1 => c.vault,
                2 => c.supply,
                3 => c.vault.saturating_sub(c.escrow),
                4 => c.cooldown as u64,
                _ => c.balance / 2,
            };
            x.saturating_add_signed(*d as i64)
        }
        Amt::Round(k, d) => {
            let (n, s) = (c.vault.saturating_sub(c.escrow) as u128 + 100, c.supply as u128 + 100);
            let (num, den) = if to_x { (n, s) } else { (s, n) };
            let x = (*k as u128).saturating_mul(num).div_ceil(den);
            (x.min(u64::MAX as u128) as i128 + *d as i128).clamp(0, u64::MAX as i128) as u64
        }
    }
}

fn inj_run(c: &Inj, st: &mut Stats, stake: bool) -> Check {
    let mut r = setup(c.salt, c.now, &[0, 0]);
    let u = r.users[0];
    let a = r.auths[0];
    inject(&mut r.bank, c.vault, c.escrow, c.supply, c.cooldown, &a);
    if stake {
        set_tok_amount(&mut r.bank, &orca_acct(&u), c.balance);
        set_tok_amount(&mut r.bank, &xorca_acct(&u), c.other);
    } else {
        // a holder cannot own more xORCA than exists
        set_tok_amount(&mut r.bank, &xorca_acct(&u), c.balance.min(c.supply));
        set_tok_amount(&mut r.bank, &orca_acct(&u), c.other);
        if c.prefund > 0 {
            r.bank.set(pw(&u, c.idx), wallet(c.prefund));
        }
    }
    let x = inj_amount(c, stake);
    let ix = if stake { ix_stake(&u, x) } else { ix_unstake(&u, x, c.idx) };
    let mut nt = false;
    let res = r.tx(vec![ix], 1, st, &mut |_, s, st| {
        match (&s.exp.res, s.res.ok()) {
            (Ok(()), true) => {
                nt = true;
                st.hit("accepted");
            }
            (Err((_, f)), false) => {
                st.hit("rejected");
                for x in f {
                    if ["zero mint", "zero claim", "overflow", "overflow or undefined", "vault < escrow", "maturity overflow", "escrow overflow", "insufficient token balance"].contains(&x.what) {
                        nt = true;
                    }
                    st.hit(&format!("rejected: {}", x.what));
                }
            }
            _ => {}
        }
        s.exact()
    });
    if nt {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    res.map(|_| ())
}
fn c04i(c: &Inj, st: &mut Stats) -> Check {
    inj_run(c, st, true)
}
fn c05i(c: &Inj, st: &mut Stats) -> Check {
    inj_run(c, st, false)
}

// ---- C06 ----------------------------------------------------------------------------------

fn c06(h: &Hist, st: &mut Stats) -> Check {
    drive(h, st, &mut |r, s, st| {
        let (v0, v1) = (vault_amt(s.pre), vault_amt(s.post));
        if s.only(&[Kind::Withdraw]) {
            if let (Err((_, f)), false) = (&s.exp.res, s.res.ok()) {
                for x in f {
                    st.hit(&format!("withdraw rejected: {}", x.what));
                }
            }
            return s.exact();
        }
        if !s.res.ok() {
            return Ok(());
        }
        let has_withdraw = s.kinds().contains(&Some(Kind::Withdraw));
        if !has_withdraw {
            if v1 < v0 {
                return Err(format!("{}: ORCA left the vault: {v0} -> {v1}", s.desc()));
            }
            return Ok(());
        }
        st.hit("withdraw inside a larger transaction");
        // each claim existing before is paid at most once, and only if entitled
        let mut left = s.claims_before.to_vec();
        let mut fresh = std::collections::BTreeSet::new();
        let mut unknown = false;
        for ix in s.ixs.iter().filter(|i| i.program == PROGRAM) {
            match decode(&ix.data) {
                Some(crate::spec::Op::Unstake(..)) => {
                    fresh.insert(ix.metas[2].key);
                }
                Some(crate::spec::Op::Withdraw(_)) => {
                    let (who, addr) = (ix.metas[0].key, ix.metas[2].key);
                    if let Some(p) = left.iter().position(|c| c.addr == addr) {
                        let c = left.remove(p);
                        if c.user != who {
                            return Err(format!("{}: paid somebody else's claim", s.desc()));
                        }
                        if s.pre.now < c.ts() {
                            return Err(format!("{}: paid before maturity", s.desc()));
                        }
                    } else if fresh.remove(&addr) {
                        unknown = true;
                    } else {
                        return Err(format!("{}: the same claim was paid twice", s.desc()));
                    }
                }
                Some(crate::spec::Op::Stake(_)) => unknown = true,
                _ => {}
            }
        }
        if s.ixs.iter().any(|i| i.program == TOKEN) {
            unknown = true;
        }
        let paid: u128 = s
            .claims_before
            .iter()
            .filter(|c| !left.iter().any(|l| l.addr == c.addr))
            .map(|c| c.amount() as u128)
            .sum();
        if !unknown && v0 as u128 != v1 as u128 + paid {
            return Err(format!("{}: vault {v0} -> {v1} but claims paid sum to {paid}", s.desc()));
        }
        let _ = r;
        Ok(())
    })
    .map(|_| ())
}

/// Withdrawals against injected claims (any representable amount, escrow, maturity and clock).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InjW {
    salt: u8,
    amount: u64,
    escrow_more: u64,
    escrow_short: bool,
    vault_more: u64,
    ts: i64,
    dnow: i64,
    idx: u8,
    dest: u64,
    lam: u64,
}
fn injw(_t: bool) -> BoxedStrategy<InjW> {
    (
        any::<u8>(),
        log_u64(),
        prop_oneof![2 => Just(0u64), 3 => log_u64()],
        prop_oneof![7 => Just(false), 1 => Just(true)],
        prop_oneof![2 => Just(0u64), 3 => log_u64()],
        prop_oneof![8 => 0i64..2_000_000_000, 2 => any::<i64>(), 1 => crate::dict::lit().prop_map(|v| v as i64)],
        prop_oneof![3 => -2i64..3, 2 => any::<i32>().prop_map(|x| x as i64), 1 => any::<i64>()],
        idx(),
        prop_oneof![4 => log_below(62), 1 => Just(u64::MAX)],
        prop_oneof![3 => Just(0u64), 1 => log_below(50)],
    )
        .prop_map(
            |(salt, amount, escrow_more, escrow_short, vault_more, ts, dnow, idx, dest, lam)| InjW {
                salt,
                amount,
                escrow_more,
                escrow_short,
                vault_more,
                ts,
                dnow,
                idx,
                dest,
                lam,
            },
        )
        .boxed()
}
fn c06i(c: &InjW, st: &mut Stats) -> Check {
    // a far-off difference stands for any clock at all
    let now = if c.dnow.unsigned_abs() >> 40 != 0 { c.dnow } else { c.ts.saturating_add(c.dnow) };
    let mut r = setup(c.salt, now, &[c.dest, 7]);
    let (u, a) = (r.users[0], r.auths[0]);
    let e = if c.escrow_short {
        c.amount.saturating_sub(1 + c.escrow_more % 5)
    } else {
        c.amount.saturating_add(c.escrow_more)
    };
    inject(&mut r.bank, e.saturating_add(c.vault_more), e, 5, 10, &a);
    let (addr, bump) = pw_pda(&u, c.idx);
    let mut acc = acct(PROGRAM, pw_bytes(&u, c.idx, bump, c.amount, c.ts));
    acc.lamports += c.lam;
    r.bank.set(addr, acc);
    st.hit(match now.cmp(&c.ts) {
        std::cmp::Ordering::Equal => "exactly at maturity",
        std::cmp::Ordering::Less => "before maturity",
        _ => "after maturity",
    });
    let b0 = r.bank.clone();
    let mut nt = false;
    r.tx(vec![ix_withdraw(&u, c.idx)], 1, st, &mut |_, s, _| {
        nt = s.res.ok() || now.abs_diff(c.ts) <= 2 || c.escrow_short;
        s.exact()
    })?;
    // nobody else can take it, neither through its own address nor with the owner unsigned
    let mut b = b0.clone();
    let thief = r.users[1];
    let mut ix = ix_withdraw(&thief, c.idx);
    ix.metas[2].key = addr;
    if process_tx(&r.env, &mut b, &[ix]).ok() {
        return Err("a stranger withdrew the claim".into());
    }
    let mut b = b0.clone();
    let mut ix = ix_withdraw(&u, c.idx);
    ix.metas[0].signer = false;
    if process_tx(&r.env, &mut b, &[ix]).ok() {
        return Err("the claim was withdrawn without the owner's signature".into());
    }
    let mut b = b0;
    let mut ix = ix_withdraw(&u, c.idx);
    ix.metas[3].key = orca_acct(&thief);
    if process_tx(&r.env, &mut b, &[ix]).ok() {
        return Err("the claim was paid to another owner's token account".into());
    }
    if nt {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

// ---- C07 ----------------------------------------------------------------------------------

fn shuffle<T>(v: &mut [T], mut seed: u64) {
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
}

fn redeem_all(env: &Env, bank: &Bank, claims: &[Claim], seed: u64) -> Check {
    let mut b = bank.clone();
    let mut order = claims.to_vec();
    shuffle(&mut order, seed);
    if seed & 1 == 0 {
        // earliest maturity first, each exactly when it matures
        order.sort_by_key(|c| c.ts());
    }
    for c in &order {
        b.now = b.now.max(c.ts());
        let before = tok_amount(&b, &orca_acct(&c.user));
        let t = process_tx(env, &mut b, &[ix_withdraw(&c.user, c.idx)]);
        if !t.ok() {
            return Err(format!(
                "claim of {} (index {}, amount {}) cannot be withdrawn at {} (maturity {}): {:?}",
                name(&c.user),
                c.idx,
                c.amount(),
                b.now,
                c.ts(),
                t.res
            ));
        }
        let got = tok_amount(&b, &orca_acct(&c.user)).wrapping_sub(before);
        if got != c.amount() {
            return Err(format!("claim of {} paid {got}", c.amount()));
        }
    }
    Ok(())
}

fn c07(h: &Hist, st: &mut Stats) -> Check {
    let mut most = 0;
    drive(h, st, &mut |r, s, st| {
        // unaltered
        for c in s.claims_before {
            let withdrawn = s.res.ok()
                && s.ixs.iter().any(|i| {
                    i.program == PROGRAM && kind_of(&i.data) == Some(Kind::Withdraw) && i.metas[2].key == c.addr && i.metas[0].key == c.user
                });
            if withdrawn {
                continue;
            }
            let a = s.post.get(&c.addr);
            if a.data != c.data || a.owner != PROGRAM {
                return Err(format!("{}: claim of {} index {} was altered", s.desc(), name(&c.user), c.idx));
            }
            if a.lamports < s.pre.lamports(&c.addr) {
                return Err(format!("{}: claim account lost lamports", s.desc()));
            }
        }
        // redeemable
        if !r.claims.is_empty() {
            most = most.max(r.claims.len());
            st.hit("redeem-all probe");
            let seed = h.probe.rotate_left(s.n as u32);
            redeem_all(&r.env, s.post, &r.claims, seed).map_err(|m| format!("after {}: {m}", s.desc()))?;
        }
        Ok(())
    })?;
    if most >= 3 {
        st.hit("history with 3+ simultaneous claims");
    }
    Ok(())
}
const C07_W: Weights = Weights {
    stake: 8,
    unstake: 9,
    withdraw: 4,
    adversary: 6,
    market: 4,
    clock: 5,
    admin: 6,
    multi: 4,
};
fn c07s(t: bool) -> BoxedStrategy<Hist> {
    hist(C07_W, len(t))
}

// ---- C08 ----------------------------------------------------------------------------------

const C08_W: Weights = Weights {
    stake: 3,
    unstake: 4,
    withdraw: 2,
    adversary: 2,
    market: 1,
    clock: 2,
    admin: 16,
    multi: 4,
};
fn c08s(t: bool) -> BoxedStrategy<Hist> {
    hist(C08_W, len(t))
}

fn c08(h: &Hist, st: &mut Stats) -> Check {
    let mut rotations = 0u32;
    let mut foreign = 0u32;
    let r = hist::run(h, st, &mut |_, s, st| {
        if s.n == 0 {
            return Ok(());
        }
        let cfg = |b: &Bank| (cooldown(b), authority(b));
        let (c0, c1) = (cfg(s.pre), cfg(s.post));
        let sets = [Kind::SetCd, Kind::SetAuth];
        if s.only(&sets) {
            if s.res.ok() {
                st.hit("set accepted");
                if s.kinds().contains(&Some(Kind::SetAuth)) {
                    rotations += 1;
                }
            } else {
                foreign += 1;
                st.hit("set rejected");
            }
            s.exact()?;
        } else if c0 != c1 {
            if !s.kinds().iter().any(|k| matches!(k, Some(k) if sets.contains(k))) {
                return Err(format!("{}: configuration changed", s.desc()));
            }
            // replay the configuration rules over the transaction
            let (mut cd, mut au) = c0;
            for ix in s.ixs.iter().filter(|i| i.program == PROGRAM) {
                let signer = ix.metas[0].key;
                match decode(&ix.data) {
                    Some(crate::spec::Op::SetCd(v)) => {
                        if signer != au || v < 0 {
                            return Err(format!("{}: accepted without authority", s.desc()));
                        }
                        cd = v;
                    }
                    Some(crate::spec::Op::SetAuth(n)) => {
                        if signer != au {
                            return Err(format!("{}: accepted without authority", s.desc()));
                        }
                        au = n;
                    }
                    _ => {}
                }
            }
            if (cd, au) != c1 {
                return Err(format!("{}: configuration is not what was set", s.desc()));
            }
        }
        // later unstakes use the cooldown then in force; earlier ones are untouched
        if s.single() == Some(Kind::Unstake) && s.res.ok() {
            let ts = le64(&s.post.get(&s.ixs[0].metas[2].key).data, 48) as i64;
            if ts as i128 != s.pre.now as i128 + c0.0 as i128 {
                return Err(format!("{}: maturity {ts} is not now {} + cooldown {}", s.desc(), s.pre.now, c0.0));
            }
            st.hit("unstake after configuration history");
        }
        if s.only(&sets) {
            for c in s.claims_before {
                if s.post.get(&c.addr).data != c.data {
                    return Err(format!("{}: an existing claim changed", s.desc()));
                }
            }
        }
        Ok(())
    })?;
    let _ = r;
    if rotations > 0 && foreign > 0 {
        st.nontrivial(serde_json::to_string(h).unwrap(), || sample(h));
    }
    Ok(())
}

/// Single set instructions with arbitrary values, signers and current authorities.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetCase {
    current: [u8; 32],
    signer: u8, // 0 the authority, 1 authority unsigned, 2 near-miss key, 3 stranger
    flip: (u8, u8),
    value: i64,
    newauth: Option<[u8; 32]>,
    escrow: u64,
    cooldown: i64,
}
fn setcase(_t: bool) -> BoxedStrategy<SetCase> {
    (
        any::<[u8; 32]>(),
        0u8..4,
        (0u8..32, 0u8..8),
        prop_oneof![any::<i64>(), log_u64().prop_map(|x| x as i64), Just(-1), Just(0), Just(i64::MIN), Just(i64::MAX)],
        prop_oneof![Just(None), any::<[u8; 32]>().prop_map(Some), Just(Some([0u8; 32]))],
        log_u64(),
        0..=i64::MAX,
    )
        .prop_map(|(current, signer, flip, value, newauth, escrow, cooldown)| SetCase {
            current,
            signer,
            flip,
            value,
            newauth,
            escrow,
            cooldown,
        })
        .boxed()
}
fn c08i(c: &SetCase, st: &mut Stats) -> Check {
    let mut r = setup(0, 1000, &[0]);
    inject(&mut r.bank, c.escrow, c.escrow, 9, c.cooldown, &c.current);
    let mut k = c.current;
    match c.signer {
        2 => k[c.flip.0 as usize % 32] ^= 1 << (c.flip.1 % 8),
        3 => k = r.users[0],
        _ => {}
    }
    if r.bank.accts.get(&k).is_none() {
        r.bank.set(k, wallet(RICH));
        if c.flip.0 % 4 == 1 {
            r.bank.accts.get_mut(&k).unwrap().owner = EVIL_PROGRAM;
        }
    }
    let mut ix = match c.newauth {
        None => ix_set_cooldown(&k, c.value),
        Some(n) => ix_set_authority(&k, &n),
    };
    if c.signer == 1 {
        ix.metas[0].signer = false;
    }
    st.hit(["by authority", "unsigned authority", "near-miss key", "stranger"][c.signer as usize % 4]);
    st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    r.tx(vec![ix], 1, st, &mut |_, s, _| s.exact()).map(|_| ())
}

// ---- C11 ----------------------------------------------------------------------------------

fn c11(h: &Hist, st: &mut Stats) -> Check {
    let mut prefunded = false;
    let r = hist::run(h, st, &mut |r, s, st| {
        if !s.res.ok() {
            // prefunding never blocks: if the same unstake works without the gift, it must work with it
            if s.single() == Some(Kind::Unstake) && s.exp.res.is_ok() {
                let addr = s.ixs[0].metas[2].key;
                if s.pre.lamports(&addr) > 0 {
                    let mut b = s.pre.clone();
                    b.accts.remove(&addr);
                    if process_tx(&r.env, &mut b, s.ixs).ok() {
                        return Err(format!("{}: blocked by {} pre-funded lamports", s.desc(), s.pre.lamports(&addr)));
                    }
                }
            }
            return Ok(());
        }
        if s.single() == Some(Kind::Unstake) && s.pre.lamports(&s.ixs[0].metas[2].key) > 0 {
            prefunded = true;
            st.hit("unstake onto a pre-funded address");
        }
        if s.kinds().is_empty() {
            return Ok(());
        }
        lamports_ok(s)
    })?;
    let _ = r;
    if prefunded {
        st.nontrivial(serde_json::to_string(h).unwrap(), || sample(h));
    }
    Ok(())
}

/// Lamports, owners and sizes only (amounts are other properties' business).
fn lamports_ok(s: &Step) -> Check {
    let total = |b: &Bank| b.accts.values().map(|a| a.lamports as u128).sum::<u128>();
    if total(s.pre) != total(s.post) {
        return Err(format!("{}: lamports were created or destroyed", s.desc()));
    }
    if let Some(post) = &s.exp.post {
        for d in diff(s.post, post) {
            if d.lamports.is_some() || d.owner || d.len.is_some() {
                return Err(format!("{}: {}", s.desc(), show(&[d])));
            }
        }
    }
    Ok(())
}
const C11_W: Weights = Weights {
    stake: 4,
    unstake: 9,
    withdraw: 7,
    adversary: 14,
    market: 1,
    clock: 5,
    admin: 1,
    multi: 6,
};
fn c11s(t: bool) -> BoxedStrategy<Hist> {
    hist(C11_W, len(t))
}

/// Pre-funding of the state address before initialisation, and of a claim address.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PreCase {
    salt: u8,
    state_lam: u64,
    pw_lam: u64,
    idx: u8,
    payer_lam: u64,
    extra: u64,
}
fn near_rent(n: usize) -> BoxedStrategy<u64> {
    let r = rent_min(n);
    prop_oneof![
        1 => Just(0u64),
        1 => Just(1u64),
        1 => Just(890_880u64),
        2 => (0u64..5).prop_map(move |d| r - 2 + d),
        3 => log_below(50),
        2 => 0..r,
    ]
    .boxed()
}
fn precase(_t: bool) -> BoxedStrategy<PreCase> {
    (
        any::<u8>(),
        near_rent(STATE_LEN),
        near_rent(PW_LEN),
        idx(),
        prop_oneof![4 => Just(RICH), 3 => 8_000_000u64..40_000_000],
        prop_oneof![2 => Just(0u64), 1 => log_below(40)],
    )
        .prop_map(|(salt, state_lam, pw_lam, idx, payer_lam, extra)| PreCase {
            salt,
            state_lam,
            pw_lam,
            idx,
            payer_lam,
            extra,
        })
        .boxed()
}
fn c11i(c: &PreCase, st: &mut Stats) -> Check {
    let mut r = setup(c.salt, 1000, &[1_000_000]);
    let (u, a) = (r.users[0], r.auths[0]);
    r.bank.set(DEPLOYER, wallet(c.payer_lam));
    if c.state_lam > 0 {
        r.bank.set(state(), wallet(c.state_lam));
        st.hit("pre-funded state");
    }
    fn full(_: &Run, s: &Step, _: &mut Stats) -> Check {
        match (&s.exp.res, &s.res.res) {
            (Ok(()), Err(e)) => return Err(format!("{}: creation failed: {e:?}", s.desc())),
            (Err((_, f)), Ok(())) => return Err(format!("{}: succeeded although {f:?}", s.desc())),
            (_, Err(_)) => return Ok(()),
            _ => {}
        }
        lamports_ok(s)
    }
    if !r.tx(vec![ix_init(&DEPLOYER, &a, 0)], 0, st, &mut full)? {
        st.hit("payer too poor for the state");
        inject(&mut r.bank, 0, 0, 0, 0, &a);
    }
    // the amounts do not matter here: only run on if the stake works
    if !process_tx(&r.env, &mut r.bank, &[ix_stake(&u, 1000)]).ok() {
        return Ok(());
    }
    r.bank.set(u, wallet(c.payer_lam));
    let addr = pw(&u, c.idx);
    if c.pw_lam > 0 {
        r.bank.set(addr, wallet(c.pw_lam));
        st.hit("pre-funded claim");
    }
    if r.tx(vec![ix_unstake(&u, 500, c.idx)], 1, st, &mut full)? {
        if c.extra > 0 {
            let mut acc = r.bank.get(&addr);
            acc.lamports += c.extra;
            r.bank.set(addr, acc);
            st.hit("gift to an existing claim");
        }
        r.tx(vec![ix_withdraw(&u, c.idx)], 2, st, &mut full)?;
        // and the index is usable again
        r.tx(vec![ix_unstake(&u, 100, c.idx)], 3, st, &mut full)?;
    }
    if c.state_lam > 0 || c.pw_lam > 0 {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

// ---- C12 ----------------------------------------------------------------------------------

/// The event a single successful instruction must emit, from the actual balances around it.
pub fn truthful(s: &Step) -> Option<Vec<u8>> {
    let ix = &s.ixs[0];
    if ix.program != PROGRAM {
        return None;
    }
    let (pre, post) = (s.pre, s.post);
    let u = ix.metas[0].key;
    let mut v = vec![];
    let w64 = |v: &mut Vec<u8>, x: u64| v.extend(x.to_le_bytes());
    match decode(&ix.data)? {
        crate::spec::Op::Stake(_) => {
            v.push(0);
            w64(&mut v, tok_amount(pre, &orca_acct(&u)).wrapping_sub(tok_amount(post, &orca_acct(&u))));
            w64(&mut v, vault_amt(post));
            w64(&mut v, escrow(post));
            w64(&mut v, supply(post));
            w64(&mut v, tok_amount(post, &xorca_acct(&u)).wrapping_sub(tok_amount(pre, &xorca_acct(&u))));
        }
        crate::spec::Op::Unstake(_, idx) => {
            v.push(1);
            w64(&mut v, tok_amount(pre, &xorca_acct(&u)).wrapping_sub(tok_amount(post, &xorca_acct(&u))));
            w64(&mut v, vault_amt(post));
            w64(&mut v, escrow(post));
            w64(&mut v, supply(post));
            w64(&mut v, le64(&post.get(&ix.metas[2].key).data, 40));
            w64(&mut v, cooldown(post) as u64);
            v.push(idx);
        }
        crate::spec::Op::Withdraw(idx) => {
            v.push(2);
            w64(&mut v, escrow(post));
            w64(&mut v, tok_amount(post, &orca_acct(&u)).wrapping_sub(tok_amount(pre, &orca_acct(&u))));
            w64(&mut v, cooldown(post) as u64);
            v.push(idx);
        }
        crate::spec::Op::SetAuth(_) => {
            v.push(3);
            v.extend(authority(post));
            v.extend(u);
        }
        _ => return None,
    }
    Some(v)
}

fn le(v: &[u8], o: usize) -> u64 {
    le64(v, o)
}

/// The Rust client's reading of the event must equal the raw fields.
pub fn client_reads(bytes: &[u8]) -> Check {
    use borsh::BorshDeserialize;
    let e = xorca::Event::try_from_slice(bytes).map_err(|e| format!("client cannot decode event {bytes:?}: {e}"))?;
    let same = match &e {
        xorca::Event::Stake {
            orca_stake_amount,
            vault_orca_amount,
            vault_escrowed_orca_amount,
            xorca_mint_supply,
            xorca_to_mint,
        } => {
            bytes[0] == 0
                && [*orca_stake_amount, *vault_orca_amount, *vault_escrowed_orca_amount, *xorca_mint_supply, *xorca_to_mint]
                    == [le(bytes, 1), le(bytes, 9), le(bytes, 17), le(bytes, 25), le(bytes, 33)]
        }
        xorca::Event::Unstake {
            xorca_unstake_amount,
            vault_orca_amount,
            vault_escrowed_orca_amount,
            xorca_mint_supply,
            withdrawable_orca_amount,
            cool_down_period_s,
            withdraw_index,
        } => {
            bytes[0] == 1
                && [*xorca_unstake_amount, *vault_orca_amount, *vault_escrowed_orca_amount, *xorca_mint_supply, *withdrawable_orca_amount, *cool_down_period_s as u64]
                    == [le(bytes, 1), le(bytes, 9), le(bytes, 17), le(bytes, 25), le(bytes, 33), le(bytes, 41)]
                && *withdraw_index == bytes[49]
        }
        xorca::Event::Withdraw {
            vault_escrowed_orca_amount,
            withdrawable_orca_amount,
            cool_down_period_s,
            withdraw_index,
        } => {
            bytes[0] == 2
                && [*vault_escrowed_orca_amount, *withdrawable_orca_amount, *cool_down_period_s as u64] == [le(bytes, 1), le(bytes, 9), le(bytes, 17)]
                && *withdraw_index == bytes[25]
        }
        xorca::Event::UpdateAuthoritySet {
            new_authority,
            set_by,
        } => bytes[0] == 3 && new_authority.to_bytes() == bytes[1..33] && set_by.to_bytes() == bytes[33..65],
    };
    if !same {
        return Err(format!("client decodes {bytes:?} as {e:?}"));
    }
    let back = borsh::to_vec(&e).map_err(|e| e.to_string())?;
    if back != bytes {
        return Err(format!("client re-encodes {bytes:?} as {back:?}"));
    }
    Ok(())
}

fn c12_step(s: &Step, st: &mut Stats) -> Check {
    if !s.res.ok() {
        return Ok(());
    }
    for (_, e) in &s.res.events {
        client_reads(e).map_err(|m| format!("{}: {m}", s.desc()))?;
        st.hit(["stake event", "unstake event", "withdraw event", "authority event"][e[0] as usize % 4]);
    }
    // one per event-emitting instruction, none otherwise
    let want: Vec<(usize, u8)> = s
        .ixs
        .iter()
        .enumerate()
        .filter(|(_, i)| i.program == PROGRAM)
        .filter_map(|(n, i)| match kind_of(&i.data)? {
            Kind::Stake => Some((n, 0)),
            Kind::Unstake => Some((n, 1)),
            Kind::Withdraw => Some((n, 2)),
            Kind::SetAuth => Some((n, 3)),
            _ => None,
        })
        .collect();
    let got: Vec<(usize, u8)> = s.res.events.iter().map(|(n, e)| (*n, *e.first().unwrap_or(&255))).collect();
    if want != got {
        return Err(format!("{}: events {got:?}, expected {want:?}", s.desc()));
    }
    if s.ixs.len() == 1 {
        if let Some(t) = truthful(s) {
            if s.res.events[0].1 != t {
                return Err(format!("{}: event {:?}, actual figures {:?}", s.desc(), s.res.events[0].1, t));
            }
        }
    } else if let Some(p) = &s.exp.post {
        if diff(s.post, p).is_empty() && s.exp.res.is_ok() && s.exp.events != s.res.events {
            return Err(format!("{}: events {:?}, expected {:?}", s.desc(), s.res.events, s.exp.events));
        }
        st.hit("multi-instruction events");
    }
    Ok(())
}
fn c12(h: &Hist, st: &mut Stats) -> Check {
    let mut seen: BTreeMap<u8, u32> = BTreeMap::new();
    hist::run(h, st, &mut |_, s, st| {
        if s.res.ok() {
            for (_, e) in &s.res.events {
                if let Some(b) = e.first() {
                    *seen.entry(*b).or_insert(0) += 1;
                }
            }
        }
        c12_step(s, st)
    })?;
    if seen.len() >= 3 {
        st.nontrivial(serde_json::to_string(h).unwrap(), || sample(h));
    }
    Ok(())
}
fn c12s(t: bool) -> BoxedStrategy<Hist> {
    hist(
        Weights {
            admin: 4,
            ..BALANCED
        },
        len(t),
    )
}

// ---- C22 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    steps: Vec<(bool, u64)>, // stake? amount
    victim: Amt,
    victim_frac: u16,
    scale: u8,
}
fn attack(_t: bool) -> BoxedStrategy<Attack> {
    (
        proptest::collection::vec((any::<bool>(), prop_oneof![2 => 1u64..200, 3 => log_below(60)]), 1..5),
        prop_oneof![
            2 => log_below(60).prop_map(Amt::Abs),
            5 => (1u64..6, -1i8..=1).prop_map(|(k, d)| Amt::Round(k, d)),
            1 => (log_below(30), -1i8..=1).prop_map(|(k, d)| Amt::Round(k, d)),
        ],
        any::<u16>(),
        0u8..8,
    )
        .prop_map(|(steps, victim, victim_frac, scale)| Attack {
            steps,
            victim,
            victim_frac,
            scale,
        })
        .boxed()
}
fn c22(c: &Attack, st: &mut Stats) -> Check {
    let mut r = setup(0, 1000, &[u64::MAX / 4, u64::MAX / 4]);
    let (att, vic, au) = (r.users[0], r.users[1], r.auths[0]);
    let mut noop = |_: &Run, _: &Step, _: &mut Stats| Ok(());
    if !r.tx(vec![ix_init(&DEPLOYER, &au, 0)], 0, st, &mut noop)? {
        inject(&mut r.bank, 0, 0, 0, 0, &au);
    }
    let start = tok_amount(&r.bank, &orca_acct(&att));
    for (i, (stake, n)) in c.steps.iter().enumerate() {
        let n = n & ((1u64 << 60) - 1);
        let ix = if *stake {
            ix_stake(&att, n)
        } else {
            ix_tok_transfer(orca_acct(&att), vault(), &att, n)
        };
        r.tx(vec![ix], i + 1, st, &mut noop)?;
    }
    let put_in = start - tok_amount(&r.bank, &orca_acct(&att));
    let a = tok_amount(&r.bank, &xorca_acct(&att));
    let (n0, s0) = (r.n() as u128 + 100, supply(&r.bank) as u128 + 100);
    let x = r.amt(&c.victim, tok_amount(&r.bank, &orca_acct(&vic)), true).min(1 << 61);
    let vb = tok_amount(&r.bank, &orca_acct(&vic));
    let ok = r.tx(vec![ix_stake(&vic, x)], 10, st, &mut noop)?;
    let vm = tok_amount(&r.bank, &xorca_acct(&vic));
    let paid = vb - tok_amount(&r.bank, &orca_acct(&vic));
    if !ok {
        st.hit("victim rejected");
        if paid != 0 || vm != 0 {
            return Err(format!("rejected victim paid {paid}"));
        }
    } else {
        st.hit("victim served");
        if vm == 0 {
            return Err(format!("victim paid {paid} and received no xORCA"));
        }
        if vm <= 3 && a > 0 && put_in > a {
            st.hit("rounding attack: victim receives 1-3 xORCA at an inflated price");
        }
    }
    // redemption value of the victim's xORCA right now and after the attacker left
    let env = r.env;
    let value = |b: &Bank| -> Result<u64, String> {
        let mut b = b.clone();
        let t = process_tx(&env, &mut b, &[ix_unstake(&vic, vm, 0)]);
        if !t.ok() {
            return Err(format!("victim cannot redeem {vm}: {:?}", t.res));
        }
        Ok(le64(&b.get(&pw(&vic, 0)).data, 40))
    };
    let fair = |w: u64, when: &str| -> Check {
        // w >= x - n0/s0 - 1   (price n0/s0 per xORCA); when nothing was staked the price is one
        let (n, s) = if s0 == 100 || n0 == 100 { (1u128, 1u128) } else { (n0, s0) };
        if (w as u128 + 1) * s + n < x as u128 * s {
            return Err(format!("victim staked {x} at price {n}/{s} and can redeem only {w} {when}"));
        }
        Ok(())
    };
    if ok {
        fair(value(&r.bank)?, "right away")?;
    }
    if a > 0 {
        let ok2 = r.tx(vec![ix_unstake(&att, a, 0)], 11, st, &mut noop)?;
        if ok2 {
            let w = le64(&r.bank.get(&pw(&att, 0)).data, 40);
            if w > put_in {
                return Err(format!("attacker put in {put_in} and is owed {w} (victim staked {x})"));
            }
            if ok && (w as u128) * (a as u128 + 99) > a as u128 * (put_in as u128 + 100) {
                return Err(format!("attacker with {a} xORCA put in {put_in}, is owed {w} > a(c+100)/(a+99)"));
            }
            st.hit("attacker exits");
            if ok {
                fair(value(&r.bank)?, "after the attacker left")?;
                st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: HRULE,
            parts: vec![part("history", 144_000, 3_200_000, balanced, c01)],
            must_hit: &["escrow > 0", "withdraw ok", "unstake ok"],
            assumptions: TRUST,
        },
        Property {
            id: "C02",
            rule: HRULE,
            parts: vec![part("history", 144_000, 3_200_000, balanced, c02)],
            must_hit: &["3+ claims outstanding", "withdraw ok"],
            assumptions: TRUST,
        },
        Property {
            id: "C03",
            rule: HRULE,
            parts: vec![part("history", 144_000, 2_400_000, |t| hist(w(9, 9, 4), len(t)), c03)],
            must_hit: &["round trip", "ratio above one"],
            assumptions: TRUST,
        },
        Property {
            id: "C04",
            rule: "stake transactions in generated histories, plus single stakes against arbitrary representable (vault, escrow, supply, balances); non-trivial = history with unstake and second staker/withdrawal, or an injected stake that is accepted or rejected for an arithmetic/balance reason; distinct by full case",
            parts: vec![
                part("injected", 1_200_000, 24_000_000, inj, c04i),
                part("history", 72_000, 1_600_000, |t| hist(w(16, 5, 3), len(t)), c04h),
            ],
            must_hit: &["accepted", "rejected: zero mint", "rejected: overflow", "rejected: vault < escrow", "rejected: insufficient token balance"],
            assumptions: TRUST,
        },
        Property {
            id: "C05",
            rule: "unstake transactions in generated histories, plus single unstakes against arbitrary representable (vault, escrow, supply, cooldown, clock, pre-funding); non-trivial as for C04; distinct by full case",
            parts: vec![
                part("injected", 1_200_000, 24_000_000, inj, c05i),
                part("history", 72_000, 1_600_000, |t| hist(w(6, 16, 3), len(t)), c05h),
            ],
            must_hit: &["accepted", "rejected: zero claim", "rejected: vault < escrow", "rejected: maturity overflow", "rejected: insufficient token balance"],
            assumptions: TRUST,
        },
        Property {
            id: "C06",
            rule: "withdrawals in generated histories (including double withdrawals, revivals and re-used indices inside one transaction), plus single withdrawals against arbitrary injected claims around their maturity, each also attempted by a stranger, unsigned and to a foreign account; non-trivial = history with a successful unstake and withdrawal/second staker, or injected withdrawal that succeeds or lies within 2 s of maturity or lacks escrow; distinct by full case",
            parts: vec![
                part("injected", 360_000, 8_000_000, injw, c06i),
                part("history", 96_000, 2_000_000, |t| hist(Weights { multi: 10, ..w(6, 10, 12) }, len(t)), c06),
            ],
            must_hit: &["exactly at maturity", "before maturity", "withdraw rejected: cooldown active", "withdraw inside a larger transaction"],
            assumptions: TRUST,
        },
        Property {
            id: "C07",
            rule: HRULE,
            parts: vec![part("history", 60_000, 1_200_000, c07s, c07)],
            must_hit: &["redeem-all probe", "history with 3+ simultaneous claims"],
            assumptions: TRUST,
        },
        Property {
            id: "C08",
            rule: "histories dominated by configuration changes by right and wrong signers, plus single set instructions against arbitrary authorities (authority, unsigned authority, one-bit near misses, strangers); non-trivial = history with at least one accepted rotation and one rejected change, or any single set case; distinct by full case",
            parts: vec![
                part("single", 720_000, 16_000_000, setcase, c08i),
                part("history", 96_000, 2_000_000, c08s, c08),
            ],
            must_hit: &["set accepted", "set rejected", "near-miss key", "unsigned authority", "unstake after configuration history"],
            assumptions: TRUST,
        },
        Property {
            id: "C11",
            rule: "initialise/unstake/withdraw/re-unstake with pre-funded addresses around the rent minimum and poor payers, plus histories with gifts to claim addresses; non-trivial = something was pre-funded; distinct by full case",
            parts: vec![
                part("prefund", 360_000, 8_000_000, precase, c11i),
                part("history", 72_000, 1_600_000, c11s, c11),
            ],
            must_hit: &["pre-funded state", "pre-funded claim", "gift to an existing claim", "unstake onto a pre-funded address"],
            assumptions: TRUST,
        },
        Property {
            id: "C12",
            rule: "every transaction of generated histories; non-trivial = the history emitted at least three different kinds of events; distinct by full history",
            parts: vec![part("history", 120_000, 2_400_000, c12s, c12)],
            must_hit: &["stake event", "unstake event", "withdraw event", "authority event", "multi-instruction events"],
            assumptions: TRUST,
        },
        Property {
            id: "C22",
            rule: "from a fresh pool: 1-4 attacker stakes/donations, a victim stake (half of them placed on rounding boundaries of the inflated price), attacker exit; non-trivial = the victim was served and the attacker exited with a claim; distinct by full case",
            parts: vec![part("attack", 720_000, 16_000_000, attack, c22)],
            must_hit: &["victim rejected", "victim served", "attacker exits", "rounding attack: victim receives 1-3 xORCA at an inflated price"],
            assumptions: TRUST,
        },
    ]
}
