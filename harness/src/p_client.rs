//! Rust client: conversions (C15), addresses (C17), instruction builders (C18), account codecs (C19).

use crate::hist::*;
use crate::p_adv::{scn, Scn};
use crate::p_hist::{part, TRUST};
use crate::runner::*;
use crate::spec::*;
use crate::spec::Op;
use crate::svm::*;
use crate::world::*;
use crate::dict::with_lit_i;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use xorca as cl;

pub fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}
pub fn key_of(seed: u64) -> Key {
    solana_program::hash::hashv(&[b"key", &seed.to_le_bytes()]).to_bytes()
}

// ---- C15 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    pub to_xorca: bool,
    pub n: u64,
    pub s: u64,
    pub x: X,
    /// also run the program
    pub exec: bool,
    pub escrow: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum X {
    Abs(u64),
    /// around an exact multiple of the result
    Round(u64, i8),
    /// around a result of 2^64
    Result64(i8),
    /// around a product of 2^128
    Product128(i8),
}

pub fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => log_u64(),
        2 => 0u64..300,
        1 => (0u64..300).prop_map(|d| u64::MAX - d),
        1 => (0u32..64, -2i64..3).prop_map(|(b, d)| (1u64 << b).wrapping_add(d as u64)),
    ]
    .boxed()
}

pub fn conv(_t: bool) -> BoxedStrategy<Conv> {
    (
        any::<bool>(),
        edge_u64(),
        edge_u64(),
        prop_oneof![
            5 => edge_u64().prop_map(X::Abs),
            4 => (log_u64(), -2i8..3).prop_map(|(k, d)| X::Round(k, d)),
            2 => (-3i8..4).prop_map(X::Result64),
            2 => (-3i8..4).prop_map(X::Product128),
        ],
        any::<u8>().prop_map(|b| b < 96),
        prop_oneof![Just(0u64), log_u64()],
    )
        .prop_map(|(to_xorca, n, s, x, exec, escrow)| Conv {
            to_xorca,
            n,
            s,
            x,
            exec,
            escrow,
        })
        .boxed()
}

impl Conv {
    pub fn amount(&self) -> u64 {
        let (a, b) = (self.n as u128 + 100, self.s as u128 + 100);
        // result = floor(x * mul / div)
        let (mul, div) = if self.to_xorca { (b, a) } else { (a, b) };
        let clip = |v: u128, d: i8| (v.min(u64::MAX as u128 + 10) as i128 + d as i128).clamp(0, u64::MAX as i128) as u64;
        match self.x {
            X::Abs(x) => x,
            X::Round(k, d) => clip((k as u128).saturating_mul(div).div_ceil(mul), d),
            X::Result64(d) => clip((u64::MAX as u128).checked_mul(div).map(|p| p / mul).unwrap_or(u128::MAX), d),
            X::Product128(d) => clip(u128::MAX / mul, d),
        }
    }
    pub fn exact(&self) -> Option<u64> {
        if self.to_xorca {
            to_xorca(self.amount(), self.n, self.s)
        } else {
            to_orca(self.amount(), self.n, self.s)
        }
    }
    fn limits(&self, x: u64, e: u64, w: u64) -> bool {
        if self.to_xorca {
            self.s.checked_add(w).is_none() || (self.n + e).checked_add(x).is_none()
        } else {
            e.checked_add(w).is_none()
        }
    }
    /// What the program mints or records: `Some(Ok)`, `Some(Err)` arithmetic rejection, `None` not comparable.
    pub fn on_chain(&self) -> Option<Result<u64, u32>> {
        let x = self.amount();
        let u = user(7, 0);
        let au = auth(7, 0);
        let mut b = base_bank(1000);
        add_user(&mut b, &u, if self.to_xorca { x } else { 0 }, if self.to_xorca { 0 } else { x });
        let e = self.escrow.min(u64::MAX - self.n);
        inject(&mut b, self.n + e, e, self.s, 5, &au);
        let ix = if self.to_xorca { ix_stake(&u, x) } else { ix_unstake(&u, x, 3) };
        let r = process_tx(&env(), &mut b, &[ix]);
        match &r.res {
            Ok(()) => Some(Ok(if self.to_xorca {
                tok_amount(&b, &xorca_acct(&u))
            } else {
                le64(&b.accts[&pw(&u, 3)].data, 40)
            })),
            Err(_) => match r.custom() {
                // the balances themselves would leave 64 bits
                Some(6008) if self.exact().is_some_and(|w| self.limits(x, e, w)) => None,
                Some(c @ (6008 | 6014 | 6015)) => Some(Err(c)),
                _ => None,
            },
        }
    }
}

fn c15(c: &Conv, st: &mut Stats) -> Check {
    let x = c.amount();
    let want = c.exact();
    let got = if c.to_xorca {
        cl::convert_orca_to_xorca(x, c.n, c.s)
    } else {
        cl::convert_xorca_to_orca(x, c.n, c.s)
    };
    let dir = if c.to_xorca { "ORCA->xORCA" } else { "xORCA->ORCA" };
    let what = || format!("{dir} of {x} with non-escrowed ORCA {} and supply {}", c.n, c.s);
    match (&got, want) {
        (Ok(g), Some(w)) if *g == w => st.hit("converted"),
        (Err(_), None) => st.hit("refused"),
        _ => return Err(format!("{}: client gives {got:?}, exact is {want:?}", what())),
    }
    if c.n == 0 || c.s == 0 {
        st.hit("empty pool");
    }
    if want.is_none() && c.n != 0 && c.s != 0 {
        st.hit("overflow refused");
    }
    if c.exec {
        match c.on_chain() {
            None => st.hit("not comparable on chain (other limits)"),
            Some(Ok(v)) => {
                st.hit("compared with an executed instruction");
                if got.as_ref().ok() != Some(&v) {
                    return Err(format!("{}: client gives {got:?}, the program recorded {v}", what()));
                }
            }
            Some(Err(6008)) => {
                st.hit("program reports arithmetic error");
                if got.is_ok() {
                    return Err(format!("{}: client gives {got:?}, the program reports an arithmetic error", what()));
                }
            }
            Some(Err(code)) => {
                st.hit("program rejects a zero result");
                if got.as_ref().ok() != Some(&0) {
                    return Err(format!("{}: client gives {got:?}, the program rejects a zero result ({code})", what()));
                }
            }
        }
    }
    if c.n != 0 && c.s != 0 && x != 0 {
        st.nontrivial((c.to_xorca, x, c.n, c.s), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

// ---- C17 (Rust half) ----------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pdas {
    pub wallet: [u8; 32],
    pub other: [u8; 32],
    pub idx: u8,
    pub program: [u8; 32],
    pub mint: [u8; 32],
}
/// Addresses: arbitrary, or with many equal bytes, or starting with zeros.
fn address() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        6 => any::<[u8; 32]>(),
        1 => any::<u8>().prop_map(|x| [x; 32]),
        1 => (any::<[u8; 32]>(), 1usize..32).prop_map(|(mut k, z)| { k[..z].fill(0); k }),
        1 => (any::<[u8; 32]>(), 1usize..32).prop_map(|(mut k, z)| { k[z..].fill(0); k }),
    ]
    .boxed()
}
/// An address that agrees with `k` everywhere but in a few places.
fn near(k: [u8; 32], at: u8, x: u8, how: u8) -> [u8; 32] {
    let mut o = k;
    let (i, x) = (at as usize % 32, x | 1);
    match how % 6 {
        0 => o[i] ^= x,
        1 => o[31] ^= x,
        2 => o[0] ^= x,
        3 => o[i..].iter_mut().for_each(|b| *b = b.wrapping_add(x)),
        4 => o[..=i].iter_mut().for_each(|b| *b = b.wrapping_add(x)),
        _ => o.rotate_left(1 + i % 31),
    }
    o
}
pub fn pdas(_t: bool) -> BoxedStrategy<Pdas> {
    (address(), address(), any::<u8>(), address(), address(), (any::<u8>(), any::<u8>(), 0u8..12))
        .prop_map(|(wallet, other, idx, program, mint, (at, x, how))| Pdas {
            wallet,
            other: if how < 6 { near(wallet, at, x, how) } else { other },
            idx,
            program,
            mint,
        })
        .boxed()
}
fn c17(c: &Pdas, st: &mut Stats) -> Check {
    let ok = |what: &str, got: (Pubkey, u8), want: (Key, u8)| -> Check {
        if got.0.to_bytes() != want.0 || got.1 != want.1 {
            return Err(format!("{what}: client derives {got:?}, expected {} bump {}", pk(&want.0), want.1));
        }
        Ok(())
    };
    let e = |x: Result<(Pubkey, u8), _>| x.map_err(|e: solana_program::program_error::ProgramError| format!("{e:?}"));
    if cl::XORCA_STAKING_PROGRAM_ID.to_bytes() != PROGRAM || cl::ID.to_bytes() != PROGRAM {
        return Err(format!("program id constant {}", cl::ID));
    }
    ok("state", e(cl::find_state_address())?, state_pda())?;
    ok(
        "vault",
        e(cl::find_orca_vault_address(&pk(&state()), &pk(&TOKEN), &pk(&ORCA)))?,
        vault_pda(),
    )?;
    // the vault derivation is the associated-token-account derivation for any arguments
    ok(
        "vault of other arguments",
        e(cl::find_orca_vault_address(&pk(&c.wallet), &pk(&c.program), &pk(&c.mint)))?,
        find_pda(&[&c.wallet, &c.program, &c.mint], &ATA).unwrap(),
    )?;
    let p = e(cl::find_pending_withdraw_pda(&pk(&c.wallet), &c.idx))?;
    ok("pending withdraw", p, pw_pda(&c.wallet, c.idx))?;
    // distinctness over neighbouring pairs
    for (w, i) in [(c.wallet, c.idx.wrapping_add(1)), (c.wallet, c.idx ^ 0x80), (c.other, c.idx), (c.other, c.idx.wrapping_add(1))] {
        let q = e(cl::find_pending_withdraw_pda(&pk(&w), &i))?;
        if (w, i) != (c.wallet, c.idx) && q.0 == p.0 {
            return Err(format!("two (wallet, index) pairs share {}", p.0));
        }
        ok("pending withdraw of a neighbour", q, pw_pda(&w, i))?;
    }
    ok(
        "vault of a neighbour",
        e(cl::find_orca_vault_address(&pk(&c.other), &pk(&c.program), &pk(&c.mint)))?,
        find_pda(&[&c.other, &c.program, &c.mint], &ATA).unwrap(),
    )?;
    // the program requires and stores exactly this address and bump
    let u = c.wallet;
    let mut b = base_bank(1000);
    if b.accts.contains_key(&u) {
        return Ok(());
    }
    add_user(&mut b, &u, 0, 5000);
    inject(&mut b, 100_000, 10, 50_000, 5, &auth(1, 0));
    let mut ix = ix_unstake(&u, 1000, c.idx);
    ix.metas[2].key = p.0.to_bytes();
    let r = process_tx(&env(), &mut b, &[ix]);
    if !r.ok() {
        return Err(format!("program refuses the derived pending-withdraw address {}: {:?}", p.0, r.res));
    }
    let d = &b.accts[&p.0.to_bytes()].data;
    let dec = cl::PendingWithdraw::from_bytes(d).map_err(|e| e.to_string())?;
    if dec.bump != p.1 || dec.unstaker.to_bytes() != u || dec.withdraw_index != c.idx {
        return Err(format!("stored claim {:?} {} {} differs from derived bump {}", dec.unstaker, dec.withdraw_index, dec.bump, p.1));
    }
    st.hit("derived and created on chain");
    st.hit(&format!("bump 255-{}", (255 - p.1).min(6)));
    st.nontrivial((c.wallet, c.idx), || serde_json::to_value(c).unwrap());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Boot {
    salt: u8,
    cooldown: i64,
    wallet: [u8; 32],
}
fn boot(_t: bool) -> BoxedStrategy<Boot> {
    (any::<u8>(), 0i64..i64::MAX, any::<[u8; 32]>())
        .prop_map(|(salt, cooldown, wallet)| Boot { salt, cooldown, wallet })
        .boxed()
}
/// initialisation with client-derived addresses; all 256 claim addresses of one wallet distinct
fn c17b(c: &Boot, st: &mut Stats) -> Check {
    let mut b = base_bank(1000);
    let au = auth(c.salt, 0);
    b.set(au, wallet(RICH));
    let (s, sb) = cl::find_state_address().map_err(|e| format!("{e:?}"))?;
    let (v, vb) = cl::find_orca_vault_address(&s, &pk(&TOKEN), &pk(&ORCA)).map_err(|e| format!("{e:?}"))?;
    let mut ix = ix_init(&DEPLOYER, &au, c.cooldown);
    ix.metas[2].key = s.to_bytes();
    ix.metas[3].key = v.to_bytes();
    let r = process_tx(&env(), &mut b, &[ix]);
    if !r.ok() {
        return Err(format!("initialisation with the derived addresses fails: {:?}", r.res));
    }
    let d = cl::State::from_bytes(&b.accts[&s.to_bytes()].data).map_err(|e| e.to_string())?;
    if d.bump != sb || d.vault_bump != vb {
        return Err(format!("stored bumps {} {} but derived {sb} {vb}", d.bump, d.vault_bump));
    }
    let mut seen = BTreeMap::new();
    for i in 0..=255u8 {
        let p = cl::find_pending_withdraw_pda(&pk(&c.wallet), &i).map_err(|e| format!("{e:?}"))?;
        if (p.0.to_bytes(), p.1) != pw_pda(&c.wallet, i) {
            return Err(format!("pending withdraw {i}: {} bump {}", p.0, p.1));
        }
        if let Some(j) = seen.insert(p.0, i) {
            return Err(format!("indices {j} and {i} share {}", p.0));
        }
    }
    st.hit("all 256 indices");
    st.nontrivial((c.wallet, c.salt, c.cooldown), || serde_json::to_value(c).unwrap());
    Ok(())
}

// ---- C18 ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Form {
    Struct,
    StructRemaining,
    Builder,
    BuilderMany,
    CpiStruct,
    CpiStructSigned,
    CpiStructRemaining,
    CpiStructSignedRemaining,
    CpiBuilder,
    CpiBuilderMany,
}
use Form::*;
const FORMS: [Form; 10] = [
    Struct,
    StructRemaining,
    Builder,
    BuilderMany,
    CpiStruct,
    CpiStructSigned,
    CpiStructRemaining,
    CpiStructSignedRemaining,
    CpiBuilder,
    CpiBuilderMany,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    pub op: u8,
    pub form: Form,
    pub keys: Vec<u64>,
    pub amount: u64,
    pub signed: i64,
    pub idx: u8,
    pub new_auth: [u8; 32],
    /// (key seed, signer, writable)
    pub remaining: Vec<(u64, bool, bool)>,
    /// order of the setter calls
    pub order: u64,
    /// calls some setters twice (the last value counts)
    pub twice: bool,
    pub missing: Option<u8>,
    /// how many PDAs sign
    pub seeds: u8,
    pub fail: Option<u32>,
}

pub fn args() -> impl Strategy<Value = (u64, i64, u8, [u8; 32])> {
    (edge_u64(), prop_oneof![cooldown_v(), with_lit_i(any::<i64>())], any::<u8>(), any::<[u8; 32]>())
}

fn build(_t: bool) -> BoxedStrategy<Build> {
    (
        (0u8..6, (0..FORMS.len()).prop_map(|i| FORMS[i])),
        proptest::collection::vec(prop_oneof![1 => 0u64..4, 6 => any::<u64>()], 9),
        args(),
        prop_oneof![8 => 0usize..5, 1 => 5usize..40].prop_flat_map(|n| {
            proptest::collection::vec((prop_oneof![1 => 0u64..4, 3 => any::<u64>()], any::<bool>(), any::<bool>()), n)
        }),
        (any::<u64>(), any::<bool>()),
        prop_oneof![5 => Just(None), 1 => (0u8..12).prop_map(Some)],
        prop_oneof![3 => Just(0u8), 3 => Just(1), 2 => 2u8..4],
        prop_oneof![6 => Just(None), 1 => any::<u32>().prop_map(Some)],
    )
        .prop_map(
            |((op, form), keys, (amount, signed, idx, new_auth), remaining, (order, twice), missing, seeds, fail)| Build {
                op,
                form,
                keys,
                amount,
                signed,
                idx,
                new_auth,
                remaining,
                order,
                twice,
                missing,
                seeds,
                fail,
            },
        )
        .boxed()
}

/// What the hand-assembled instruction looks like.
pub fn expected(op: u8, k: &[Key], amount: u64, signed: i64, idx: u8, na: &Key) -> Ix {
    let u = [1; 32];
    let mut ix = match op {
        0 => ix_stake(&u, amount),
        1 => ix_unstake(&u, amount, idx),
        2 => ix_withdraw(&u, idx),
        3 => ix_init(&u, &u, signed),
        4 => ix_set_cooldown(&u, signed),
        _ => ix_set_authority(&u, na),
    };
    for (m, k) in ix.metas.iter_mut().zip(k) {
        m.key = *k;
    }
    ix
}

fn same(what: &str, got: &Instruction, want: &Ix) -> Check {
    if got.program_id.to_bytes() != want.program {
        return Err(format!("{what}: program id {}", got.program_id));
    }
    if got.data != want.data {
        return Err(format!("{what}: data {:?}, expected {:?}", got.data, want.data));
    }
    if got.accounts.len() != want.metas.len() {
        return Err(format!("{what}: {} accounts, expected {}", got.accounts.len(), want.metas.len()));
    }
    for (i, (g, w)) in got.accounts.iter().zip(&want.metas).enumerate() {
        if g.pubkey.to_bytes() != w.key {
            return Err(format!("{what}: account {i} is {}, expected {}", g.pubkey, pk(&w.key)));
        }
        if (g.is_signer, g.is_writable) != (w.signer, w.writable) {
            return Err(format!(
                "{what}: account {i} has signer {} writable {}, expected signer {} writable {}",
                g.is_signer, g.is_writable, w.signer, w.writable
            ));
        }
    }
    Ok(())
}

struct Seen {
    ix: Instruction,
    infos: Vec<Key>,
    seeds: Vec<Vec<Vec<u8>>>,
}

/// What the client is asked to build.
struct Req {
    op: u8,
    form: Form,
    keys: Vec<Key>,
    amount: u64,
    signed: i64,
    idx: u8,
    na: Key,
    rem: Vec<Meta>,
    order: u64,
    twice: bool,
    missing: Option<u8>,
    seeds: u8,
    fail: Option<u32>,
}

enum Out {
    Ix(Instruction),
    Cpi(Result<(), u64>, Vec<Seen>),
    /// refused (panicked) with this message
    Refused(String),
}

fn perm(n: usize, mut seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
    v
}

/// Calls the setters in the requested order, some twice, leaving one out.
macro_rules! set_all {
    ($b:expr, $r:expr, $val:expr, [$($acc:ident),*], [$($arg:ident = $av:expr, $bad:expr);*]) => {{
        let names: Vec<&str> = vec![$(stringify!($acc),)* $(stringify!($arg)),*];
        let skip = $r.missing.map(|m| m as usize % names.len());
        for i in perm(names.len(), $r.order) {
            if Some(i) == skip {
                continue;
            }
            let mut j = 0usize;
            $(
                if i == j {
                    if $r.twice && i % 2 == 0 {
                        $b.$acc($val((j + 1) % $r.keys.len()));
                    }
                    $b.$acc($val(j));
                }
                j += 1;
            )*
            $(
                if i == j {
                    if $r.twice {
                        $b.$arg($bad);
                    }
                    $b.$arg($av);
                }
                j += 1;
            )*
            let _ = j;
        }
    }};
}

macro_rules! make {
    ($r:expr, $infos:expr, $S:ident, $Args:ident, $B:ident, $Cpi:ident, $CpiAccounts:ident, $CpiB:ident,
     [$($acc:ident),*], [$($arg:ident = $av:expr, $bad:expr);*]) => {{
        let r: &Req = $r;
        let n = r.keys.len();
        let metas: Vec<AccountMeta> = r.rem.iter().map(|m| AccountMeta {
            pubkey: pk(&m.key), is_signer: m.signer, is_writable: m.writable }).collect();
        match r.form {
            Struct | StructRemaining => {
                let mut i = 0;
                let s = cl::$S { $($acc: { i += 1; pk(&r.keys[i - 1]) }),* };
                let a = cl::$Args { $($arg: $av),* };
                Out::Ix(if r.form == Struct { s.instruction(a) } else { s.instruction_with_remaining_accounts(a, &metas) })
            }
            Builder | BuilderMany => {
                let mut b = cl::$B::new();
                set_all!(b, r, |j: usize| pk(&r.keys[j]), [$($acc),*], [$($arg = $av, $bad);*]);
                if r.form == Builder {
                    for m in &metas {
                        b.add_remaining_account(m.clone());
                    }
                } else {
                    let k = metas.len() / 2;
                    b.add_remaining_accounts(&metas[..k]);
                    b.add_remaining_accounts(&metas[k..]);
                }
                Out::Ix(b.instruction())
            }
            _ => {
                let infos: &[AccountInfo] = $infos;
                let prog = &infos[0];
                let acc = |j: usize| &infos[1 + j];
                let owned = signer_groups(r.seeds);
                let lent: Vec<Vec<&[u8]>> = owned.iter().map(|g| g.iter().map(|s| s.as_slice()).collect()).collect();
                let groups: Vec<&[&[u8]]> = lent.iter().map(|g| g.as_slice()).collect();
                let seeds: &[&[&[u8]]] = &groups;
                // documented tuple: (account, is_writable, is_signer)
                let rem: Vec<(&AccountInfo, bool, bool)> = r.rem.iter().enumerate()
                    .map(|(j, m)| (&infos[1 + n + j], m.writable, m.signer)).collect();
                let seen: Rc<RefCell<Vec<Seen>>> = Rc::default();
                let s2 = seen.clone();
                let fail = r.fail;
                solana_cpi::HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move |ix, infos, seeds| {
                    s2.borrow_mut().push(Seen {
                        ix: ix.clone(),
                        infos: infos.iter().map(|i| i.key.to_bytes()).collect(),
                        seeds: seeds.iter().map(|g| g.iter().map(|s| s.to_vec()).collect()).collect(),
                    });
                    match fail {
                        None => Ok(()),
                        Some(c) => Err(solana_program::program_error::ProgramError::Custom(c)),
                    }
                })));
                let res = match r.form {
                    CpiStruct | CpiStructSigned | CpiStructRemaining | CpiStructSignedRemaining => {
                        let mut i = 0;
                        let accounts = cl::$CpiAccounts { $($acc: { i += 1; acc(i - 1) }),* };
                        let c = cl::$Cpi::new(prog, accounts, cl::$Args { $($arg: $av),* });
                        match r.form {
                            CpiStruct => c.invoke(),
                            CpiStructSigned => c.invoke_signed(seeds),
                            CpiStructRemaining => c.invoke_with_remaining_accounts(&rem),
                            _ => c.invoke_signed_with_remaining_accounts(seeds, &rem),
                        }
                    }
                    _ => {
                        let mut b = cl::$CpiB::new(prog);
                        set_all!(b, r, |j: usize| acc(j), [$($acc),*], [$($arg = $av, $bad);*]);
                        if r.form == CpiBuilder {
                            for m in &rem {
                                b.add_remaining_account(m.0, m.1, m.2);
                            }
                        } else {
                            let k = rem.len() / 2;
                            b.add_remaining_accounts(&rem[..k]);
                            b.add_remaining_accounts(&rem[k..]);
                        }
                        if r.seeds > 0 { b.invoke_signed(seeds) } else { b.invoke() }
                    }
                };
                solana_cpi::HOOK.with(|h| *h.borrow_mut() = None);
                let seen = std::mem::take(&mut *seen.borrow_mut());
                Out::Cpi(res.map_err(u64::from), seen)
            }
        }
    }};
}

fn client_build(r: &Req) -> Out {
    let all: Vec<Key> = std::iter::once(PROGRAM)
        .chain(r.keys.iter().copied())
        .chain(r.rem.iter().map(|m| m.key))
        .collect();
    let keys: Vec<Pubkey> = all.iter().map(pk).collect();
    let owner = pk(&SYSTEM);
    let mut lam = vec![1u64; all.len()];
    let mut data: Vec<Vec<u8>> = vec![vec![]; all.len()];
    let infos: Vec<AccountInfo> = keys
        .iter()
        .zip(lam.iter_mut().zip(data.iter_mut()))
        .map(|(k, (l, d))| AccountInfo::new(k, true, true, l, d, &owner, false, 0))
        .collect();
    let go = || match r.op {
        0 => make!(r, &infos, Stake, StakeInstructionArgs, StakeBuilder, StakeCpi, StakeCpiAccounts, StakeCpiBuilder,
            [staker_account, vault_account, staker_orca_ata, staker_xorca_ata, xorca_mint_account, state_account, orca_mint_account, token_program_account],
            [orca_stake_amount = r.amount, !r.amount]),
        1 => make!(r, &infos, Unstake, UnstakeInstructionArgs, UnstakeBuilder, UnstakeCpi, UnstakeCpiAccounts, UnstakeCpiBuilder,
            [unstaker_account, state_account, pending_withdraw_account, unstaker_xorca_ata, xorca_mint_account, orca_mint_account, vault_account, system_program_account, token_program_account],
            [xorca_unstake_amount = r.amount, !r.amount; withdraw_index = r.idx, !r.idx]),
        2 => make!(r, &infos, Withdraw, WithdrawInstructionArgs, WithdrawBuilder, WithdrawCpi, WithdrawCpiAccounts, WithdrawCpiBuilder,
            [unstaker_account, state_account, pending_withdraw_account, unstaker_orca_ata, vault_account, orca_mint_account, system_program_account, token_program_account],
            [withdraw_index = r.idx, !r.idx]),
        3 => make!(r, &infos, Initialize, InitializeInstructionArgs, InitializeBuilder, InitializeCpi, InitializeCpiAccounts, InitializeCpiBuilder,
            [payer_account, update_authority_account, state_account, vault_account, xorca_mint_account, orca_mint_account, system_program_account, token_program_account, associated_token_program_account],
            [cool_down_period_s = r.signed, !r.signed]),
        4 => make!(r, &infos, Set, SetInstructionArgs, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder,
            [update_authority_account, state_account],
            [instruction_data = cl::StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: r.signed },
             cl::StateUpdateInstruction::UpdateUpdateAuthority { new_authority: pk(&r.na) }]),
        _ => make!(r, &infos, Set, SetInstructionArgs, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder,
            [update_authority_account, state_account],
            [instruction_data = cl::StateUpdateInstruction::UpdateUpdateAuthority { new_authority: pk(&r.na) },
             cl::StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: r.signed }]),
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(go)) {
        Ok(o) => o,
        Err(p) => {
            solana_cpi::HOOK.with(|h| *h.borrow_mut() = None);
            Out::Refused(
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default(),
            )
        }
    }
}

pub fn n_accounts(op: u8) -> usize {
    [8, 9, 8, 9, 2, 2][op as usize % 6]
}
fn takes_remaining(f: Form) -> bool {
    !matches!(f, Struct | CpiStruct | CpiStructSigned)
}
fn is_builder(f: Form) -> bool {
    matches!(f, Builder | BuilderMany | CpiBuilder | CpiBuilderMany)
}
/// the seeds of so many signing PDAs
fn signer_groups(n: u8) -> Vec<Vec<Vec<u8>>> {
    let all = [vec![b"seed".to_vec(), vec![7u8]], vec![vec![3u8; 32]], vec![b"state".to_vec(), vec![], vec![9u8]]];
    all[..n as usize % 4].to_vec()
}
fn takes_seeds(f: Form) -> bool {
    !matches!(f, CpiStruct | CpiStructRemaining)
}

/// Builds with the client and compares with `want`; returns the instruction built.
fn built(r: &Req, want: &Ix, st: &mut Stats) -> Result<Option<Instruction>, String> {
    let what = format!("{:?} of {}", r.form, ["stake", "unstake", "withdraw", "initialize", "set cooldown", "set authority"][r.op as usize % 6]);
    let out = client_build(r);
    if r.missing.is_some() && is_builder(r.form) {
        st.hit("missing field");
        return match out {
            Out::Refused(_) => Ok(None),
            _ => Err(format!("{what}: accepted although a mandatory field was not set")),
        };
    }
    let mut want = want.clone();
    if takes_remaining(r.form) {
        want.metas.extend(r.rem.iter().cloned());
        if !r.rem.is_empty() {
            st.hit("remaining accounts");
        }
    }
    st.hit(&format!("form {:?}", r.form));
    match out {
        Out::Refused(m) => Err(format!("{what}: panicked: {m}")),
        Out::Ix(i) => {
            same(&what, &i, &want)?;
            Ok(Some(i))
        }
        Out::Cpi(res, mut seen) => {
            if seen.len() != 1 {
                return Err(format!("{what}: {} invocations", seen.len()));
            }
            let s = seen.pop().unwrap();
            same(&what, &s.ix, &want)?;
            for k in want.metas.iter().map(|m| m.key).chain([PROGRAM]) {
                if !s.infos.contains(&k) {
                    return Err(format!("{what}: account {} is not passed along", pk(&k)));
                }
            }
            let groups = if takes_seeds(r.form) { signer_groups(r.seeds) } else { vec![] };
            if s.seeds != groups {
                return Err(format!("{what}: signer seeds {:?}, expected {groups:?}", s.seeds));
            }
            let wr = match r.fail {
                None => Ok(()),
                Some(c) => Err(u64::from(solana_program::program_error::ProgramError::Custom(c))),
            };
            if res != wr {
                return Err(format!("{what}: returned {res:?}, the invocation gave {wr:?}"));
            }
            Ok(Some(s.ix))
        }
    }
}

fn c18(c: &Build, st: &mut Stats) -> Check {
    let tags = [cl::STAKE_DISCRIMINATOR, cl::UNSTAKE_DISCRIMINATOR, cl::WITHDRAW_DISCRIMINATOR, cl::INITIALIZE_DISCRIMINATOR, cl::SET_DISCRIMINATOR];
    if tags != [0, 1, 2, 3, 4] {
        return Err(format!("published discriminators of stake, unstake, withdraw, initialize, set: {tags:?}"));
    }
    let n = n_accounts(c.op);
    let keys: Vec<Key> = c.keys[..n].iter().map(|s| key_of(*s)).collect();
    let r = Req {
        op: c.op,
        form: c.form,
        amount: c.amount,
        signed: c.signed,
        idx: c.idx,
        na: c.new_auth,
        rem: c
            .remaining
            .iter()
            .map(|(s, a, b)| Meta {
                key: key_of(*s),
                signer: *a,
                writable: *b,
            })
            .collect(),
        order: c.order,
        twice: c.twice,
        missing: c.missing,
        seeds: c.seeds,
        fail: c.fail,
        keys,
    };
    let want = expected(c.op, &r.keys, c.amount, c.signed, c.idx, &c.new_auth);
    built(&r, &want, st)?;
    st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BuildRun {
    s: Scn,
    form: Form,
    order: u64,
    extra: Vec<u64>,
}
fn build_run(_t: bool) -> BoxedStrategy<BuildRun> {
    (scn(), (0..FORMS.len()).prop_map(|i| FORMS[i]), any::<u64>(), proptest::collection::vec(any::<u64>(), 0..3))
        .prop_map(|(s, form, order, extra)| BuildRun { s, form, order, extra })
        .boxed()
}
/// the client's instruction, executed, has the same result as the hand-assembled one
fn c18x(c: &BuildRun, st: &mut Stats) -> Check {
    let w = c.s.world();
    let want = w.ix.clone();
    let d = &want.data;
    let (mut amount, mut signed, mut idx, mut na) = (0, 0, 0, [0; 32]);
    match decode(d) {
        Some(Op::Stake(x)) => amount = x,
        Some(Op::Unstake(x, i)) => (amount, idx) = (x, i),
        Some(Op::Withdraw(i)) => idx = i,
        Some(Op::Init(v)) => signed = v,
        Some(Op::SetCd(v)) => signed = v,
        Some(Op::SetAuth(k)) => na = k,
        None => return Err("scenario instruction does not decode".into()),
    }
    let r = Req {
        op: c.s.op,
        form: c.form,
        keys: want.metas.iter().map(|m| m.key).collect(),
        amount,
        signed,
        idx,
        na,
        rem: c
            .extra
            .iter()
            .map(|s| Meta {
                key: key_of(*s),
                signer: false,
                writable: s & 1 == 1,
            })
            .collect(),
        order: c.order,
        twice: false,
        missing: None,
        seeds: 0,
        fail: None,
    };
    let Some(i) = built(&r, &want, st)? else { return Ok(()) };
    let ix = Ix {
        program: i.program_id.to_bytes(),
        metas: i
            .accounts
            .iter()
            .map(|m| Meta {
                key: m.pubkey.to_bytes(),
                signer: m.is_signer,
                writable: m.is_writable,
            })
            .collect(),
        data: i.data,
    };
    let (mut b1, mut b2) = (w.bank.clone(), w.bank.clone());
    let r1 = process_tx(&env(), &mut b1, &[want]);
    let r2 = process_tx(&env(), &mut b2, &[ix]);
    if r1.res != r2.res {
        return Err(format!("client-built instruction gives {:?}, hand-assembled {:?}", r2.res, r1.res));
    }
    let dv = diff(&b2, &b1);
    if !dv.is_empty() {
        return Err(format!("client-built instruction has another effect: {}", show(&dv)));
    }
    if r1.ok() {
        st.hit("executed");
        st.hit(&format!("executed op {}", c.s.op));
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    } else {
        st.hit("both rejected");
    }
    Ok(())
}

// ---- C19 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Codec {
    kind: u8,
    disc: u8,
    pad1: [u8; 5],
    b6: u8,
    b7: u8,
    a: u64,
    b: i64,
    key: [u8; 32],
    key2: [u8; 32],
    /// fills the trailing padding (0 = as the program writes it)
    fill: u64,
    cut: Option<u16>,
    flags: [u32; 3],
}
fn codec(_t: bool) -> BoxedStrategy<Codec> {
    (
        (0u8..4, prop_oneof![6 => Just(255u8), 3 => 0u8..4, 1 => any::<u8>()]),
        (prop_oneof![Just([0u8; 5]), any::<[u8; 5]>()], any::<u8>(), any::<u8>()),
        (edge_u64(), with_lit_i(any::<i64>())),
        (any::<[u8; 32]>(), any::<[u8; 32]>()),
        prop_oneof![3 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![4 => Just(None), 1 => any::<u16>().prop_map(Some), 1 => (0u16..3).prop_map(|d| Some(u16::MAX - d))],
        proptest::array::uniform3(prop_oneof![Just(0u32), Just(1u32)]),
    )
        .prop_map(|((kind, disc), (pad1, b6, b7), (a, b), (key, key2), fill, cut, flags)| Codec {
            kind,
            disc,
            pad1,
            b6,
            b7,
            a,
            b,
            key,
            key2,
            fill,
            cut,
            flags,
        })
        .boxed()
}

/// decoded or refused by each entry point the client offers
fn decode_both<T, E: std::fmt::Display>(
    c: &Codec,
    d: &[u8],
    from: fn(&[u8]) -> Result<T, E>,
    info: fn(&AccountInfo) -> Result<T, E>,
) -> Result<Option<T>, String>
where
    T: PartialEq,
{
    // where the account is and what it holds in lamports is no part of its fields
    let (k, o) = (pk(&c.key2), pk(&PROGRAM));
    let mut l = match c.pad1[1] % 4 {
        0 => 0,
        1 => u64::MAX,
        2 => c.a,
        _ => 2_394_240,
    };
    let mut v = d.to_vec();
    let ai = AccountInfo::new(&k, c.flags[0] == 1, c.flags[1] == 1, &mut l, &mut v, &o, false, c.a);
    match (from(d), info(&ai)) {
        (Ok(x), Ok(y)) if x == y => Ok(Some(x)),
        (Err(_), Err(_)) => Ok(None),
        (x, y) => Err(format!(
            "from_bytes gives {}, the account-info form {}",
            if x.is_ok() { "a value" } else { "an error" },
            if y.is_ok() { "another result" } else { "an error" }
        )),
    }
}

fn c19(c: &Codec, st: &mut Stats) -> Check {
    let fill = |d: &mut [u8]| {
        let mut s = c.fill;
        if s != 0 {
            for x in d {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *x = (s >> 56) as u8;
            }
        }
    };
    let (name, full) = match c.kind {
        0 => {
            let mut d = state_bytes(c.a, c.b, &c.key);
            (d[6], d[7]) = (c.b6, c.b7);
            d[1..6].copy_from_slice(&c.pad1);
            fill(&mut d[56..]);
            ("state", d)
        }
        1 => {
            let mut d = pw_bytes(&c.key, c.b7, c.b6, c.a, c.b);
            d[1..6].copy_from_slice(&c.pad1);
            fill(&mut d[56..]);
            ("pending-withdraw", d)
        }
        2 => {
            let mut d = token_account(&c.key, &c.key2, c.a);
            d[72..76].copy_from_slice(&c.flags[0].to_le_bytes());
            d[76..108].copy_from_slice(&c.key);
            d[108] = c.b6 % 3;
            d[109..113].copy_from_slice(&c.flags[1].to_le_bytes());
            d[113..121].copy_from_slice(&c.b.to_le_bytes());
            d[121..129].copy_from_slice(&c.a.rotate_left(9).to_le_bytes());
            d[129..133].copy_from_slice(&c.flags[2].to_le_bytes());
            d[133..165].copy_from_slice(&c.key2);
            ("token account", d)
        }
        _ => {
            let d = mint_account(
                (c.flags[0] == 1).then_some(&c.key),
                c.a,
                c.b6,
                (c.flags[1] == 1).then_some(&c.key2),
            );
            ("mint", d)
        }
    };
    let mut d = full.clone();
    let own = [Some(1u8), Some(2), None, None][c.kind as usize % 4];
    let mut bad = false;
    if let (Some(o), true) = (own, c.disc != 255 || c.cut.is_none()) {
        let v = if c.disc == 255 { o } else { c.disc };
        d[0] = v;
        bad = v > 3;
    }
    if let Some(cut) = c.cut {
        let l = (cut as usize * d.len()) >> 16;
        d.truncate(l);
        bad = true;
    }
    let read = |got: bool| -> Check {
        if got == bad {
            return Err(format!(
                "{name}: {} bytes with first byte {:?} {}",
                d.len(),
                d.first(),
                if got { "accepted" } else { "refused" }
            ));
        }
        Ok(())
    };
    use borsh::{BorshDeserialize, BorshSerialize};
    fn enc<T: BorshSerialize>(v: &T) -> Vec<u8> {
        v.try_to_vec().unwrap()
    }
    fn json<T: Serialize + serde::de::DeserializeOwned + PartialEq>(name: &str, v: &T) -> Check {
        let t = serde_json::to_string(v).map_err(|e| format!("{name}: does not serialize to JSON: {e}"))?;
        match serde_json::from_str::<T>(&t) {
            Ok(w) if w == *v => {}
            Ok(_) => return Err(format!("{name}: JSON round trip changes the value")),
            Err(e) => return Err(format!("{name}: own JSON not readable: {e}")),
        }
        let val = serde_json::to_value(v).map_err(|e| e.to_string())?;
        match serde_json::from_value::<T>(val) {
            Ok(w) if w == *v => Ok(()),
            Ok(_) => Err(format!("{name}: JSON value round trip changes the value")),
            Err(e) => Err(format!("{name}: own JSON value not readable: {e}")),
        }
    }
    let fields = |v: Vec<(&str, String, String)>| -> Check {
        for (f, g, w) in v {
            if g != w {
                return Err(format!("{name}: field {f} decodes to {g}, stored {w}"));
            }
        }
        Ok(())
    };
    macro_rules! f {
        ($($n:literal: $g:expr => $w:expr),* $(,)?) => { vec![$(($n, format!("{:?}", $g), format!("{:?}", $w))),*] };
    }
    let mut ok = false;
    match c.kind {
        0 => {
            if (cl::STATE_DISCRIMINATOR as u8, cl::PENDING_WITHDRAW_DISCRIMINATOR as u8) != (1, 2) {
                return Err("published account discriminators".into());
            }
            if cl::State::LEN != STATE_LEN {
                return Err(format!("State::LEN is {}", cl::State::LEN));
            }
            let r = decode_both(c, &d, cl::State::from_bytes, |a| cl::State::try_from(a))?;
            read(r.is_some())?;
            if let Some(s) = r {
                fields(f! {
                    "discriminator": s.discriminator as u8 => d[0],
                    "padding1": s.padding1 => c.pad1,
                    "bump": s.bump => c.b6,
                    "vault_bump": s.vault_bump => c.b7,
                    "escrowed_orca_amount": s.escrowed_orca_amount => c.a,
                    "cool_down_period_s": s.cool_down_period_s => c.b,
                    "update_authority": s.update_authority.to_bytes() => c.key,
                    "padding2": &s.padding2[..] => &d[56..],
                })?;
                if enc(&s) != d {
                    return Err("state: re-encoding differs".into());
                }
                json(name, &s)?;
                ok = true;
            }
        }
        1 => {
            if cl::PendingWithdraw::LEN != PW_LEN {
                return Err(format!("PendingWithdraw::LEN is {}", cl::PendingWithdraw::LEN));
            }
            let r = decode_both(c, &d, cl::PendingWithdraw::from_bytes, |a| cl::PendingWithdraw::try_from(a))?;
            read(r.is_some())?;
            if let Some(s) = r {
                fields(f! {
                    "discriminator": s.discriminator as u8 => d[0],
                    "padding1": s.padding1 => c.pad1,
                    "bump": s.bump => c.b6,
                    "withdraw_index": s.withdraw_index => c.b7,
                    "unstaker": s.unstaker.to_bytes() => c.key,
                    "withdrawable_orca_amount": s.withdrawable_orca_amount => c.a,
                    "withdrawable_timestamp": s.withdrawable_timestamp => c.b,
                    "padding2": &s.padding2[..] => &d[56..],
                })?;
                if enc(&s) != d {
                    return Err("pending-withdraw: re-encoding differs".into());
                }
                json(name, &s)?;
                ok = true;
            }
        }
        2 => {
            let r = <cl::TokenAccount as BorshDeserialize>::deserialize(&mut &d[..]).ok();
            read(r.is_some())?;
            if let Some(s) = r {
                fields(f! {
                    "mint": s.mint.to_bytes() => c.key,
                    "owner": s.owner.to_bytes() => c.key2,
                    "amount": s.amount => c.a,
                    "delegate_flag": s.delegate_flag => c.flags[0],
                    "delegate": s.delegate.to_bytes() => c.key,
                    "state": s.state as u8 => c.b6 % 3,
                    "is_native_flag": s.is_native_flag => c.flags[1],
                    "native_amount": s.native_amount => c.b as u64,
                    "delegate_amount": s.delegate_amount => c.a.rotate_left(9),
                    "close_authority_flag": s.close_authority_flag => c.flags[2],
                    "close_authority": s.close_authority.to_bytes() => c.key2,
                })?;
                if enc(&s) != d {
                    return Err("token account: re-encoding differs".into());
                }
                json(name, &s)?;
                ok = true;
            }
        }
        _ => {
            let r = <cl::TokenMint as BorshDeserialize>::deserialize(&mut &d[..]).ok();
            read(r.is_some())?;
            if let Some(s) = r {
                fields(f! {
                    "mint_authority_flag": s.mint_authority_flag => c.flags[0],
                    "supply": s.supply => c.a,
                    "decimals": s.decimals => c.b6,
                    "is_initialized": s.is_initialized => true,
                    "freeze_authority_flag": s.freeze_authority_flag => c.flags[1],
                })?;
                if c.flags[0] == 1 && s.mint_authority.to_bytes() != c.key {
                    return Err("mint: authority differs".into());
                }
                if c.flags[1] == 1 && s.freeze_authority.to_bytes() != c.key2 {
                    return Err("mint: freeze authority differs".into());
                }
                if enc(&s) != d {
                    return Err("mint: re-encoding differs".into());
                }
                json(name, &s)?;
                ok = true;
            }
        }
    }
    st.hit(&format!("{name} {}", if ok { "decoded" } else { "refused" }));
    st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    Ok(())
}

/// accounts really written by the program, over histories
fn c19h(h: &Hist, st: &mut Stats) -> Check {
    let mut n = 0u64;
    crate::p_hist::drive(h, st, &mut |r, _, _| {
        for (k, a) in r.bank.accts.iter().filter(|(_, a)| a.owner == PROGRAM) {
            use borsh::BorshSerialize;
            let d = &a.data;
            if *k == state() {
                let s = cl::State::from_bytes(d).map_err(|e| format!("state account not readable: {e}"))?;
                if s.try_to_vec().unwrap() != *d
                    || d.len() != cl::State::LEN
                    || s.discriminator != cl::AccountDiscriminator::State
                    || s.escrowed_orca_amount != escrow(&r.bank)
                    || s.cool_down_period_s != cooldown(&r.bank)
                    || s.update_authority.to_bytes() != authority(&r.bank)
                {
                    return Err("state account misread".into());
                }
            } else {
                let s = cl::PendingWithdraw::from_bytes(d).map_err(|e| format!("claim account not readable: {e}"))?;
                if s.try_to_vec().unwrap() != *d
                    || d.len() != cl::PendingWithdraw::LEN
                    || s.discriminator != cl::AccountDiscriminator::PendingWithdraw
                    || pw(&s.unstaker.to_bytes(), s.withdraw_index) != *k
                    || s.withdrawable_orca_amount != le64(d, 40)
                    || s.withdrawable_timestamp != le64(d, 48) as i64
                {
                    return Err("claim account misread".into());
                }
            }
            n += 1;
        }
        Ok(())
    })?;
    st.add("accounts read during histories", n);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "amount, backing and supply over all of u64 (log-uniform, edges, exact multiples +-2, results around 2^64, products around 2^128), both directions; a share is also executed by the real program; non-trivial = non-empty pool and non-zero amount; distinct by (direction, amount, backing, supply)",
            parts: vec![part("convert", 3_000_000, 150_000_000, conv, c15)],
            must_hit: &["converted", "refused", "empty pool", "overflow refused", "compared with an executed instruction", "program reports arithmetic error", "program rejects a zero result"],
            assumptions: TRUST,
        },
        Property {
            id: "C18",
            rule: "every instruction, every way the client offers to build it (struct, builder, CPI struct, CPI builder, with/without remaining accounts and signer seeds), arbitrary arguments, keys (also repeated), setter order, a field left out; plus scenarios executed by the program; distinct by full case",
            parts: vec![
                part("build", 1_000_000, 60_000_000, build, c18),
                part("execute", 200_000, 8_000_000, build_run, c18x),
            ],
            must_hit: &["missing field", "remaining accounts", "executed", "form Struct", "form Builder", "form CpiStruct", "form CpiBuilder", "form CpiStructSignedRemaining"],
            assumptions: TRUST,
        },
        Property {
            id: "C19",
            rule: "state, claim, token-account and mint images with arbitrary field values, padding, discriminators and truncations, plus every account the program writes in generated histories; distinct by full case",
            parts: vec![
                part("codec", 300_000, 15_000_000, codec, c19),
                part("history", 24_000, 800_000, |t| hist(BALANCED, if t { 4..60 } else { 4..30 }), c19h),
            ],
            must_hit: &["state decoded", "state refused", "pending-withdraw decoded", "pending-withdraw refused", "token account decoded", "mint decoded", "accounts read during histories"],
            assumptions: TRUST,
        },
    ]
}

/// Rust half of C17 (the JavaScript half is added by p_js).
pub fn c17_parts() -> Vec<Box<dyn Part>> {
    vec![
        part("rust-derive", 150_000, 6_000_000, pdas, c17),
        part("rust-initialise", 3_000, 100_000, boot, c17b),
    ]
}

pub fn c17_prop(extra: Vec<Box<dyn Part>>) -> Property {
    let mut parts = c17_parts();
    parts.extend(extra);
    Property {
        id: "C17",
        rule: "arbitrary 32-byte wallets and all 256 indices; every derivation compared with an independent one and with the address the program accepts and the bump it stores; distinct by (wallet, index)",
        parts,
        must_hit: &["derived and created on chain", "all 256 indices", "bump 255-3"],
        assumptions: TRUST,
    }
}
