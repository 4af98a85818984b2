//! Adversarial account lists, single defects, arbitrary inputs, initialisation (C09, C10, C13, C14).

use crate::hist::{self, *};
use crate::runner::{Check, Property, Stats};
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use crate::p_hist::{part, TRUST};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

// ---- a populated world ------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scn {
    pub salt: u8,
    pub op: u8, // 0 stake 1 unstake 2 withdraw 3 init 4 set cooldown 5 set authority
    pub amount: u64,
    pub idx: u8,
    pub extra_vault: u64,
    pub supply: u64,
    pub claim: u64,
    pub cooldown: i64,
    /// time passed since the last claim matured
    #[serde(default)]
    pub later: u64,
    /// who the update authority is: a wallet of its own, the user, nobody, the deployer
    #[serde(default)]
    pub who: u8,
}

pub struct World {
    pub bank: Bank,
    pub pool: Vec<(&'static str, Key)>,
    pub ix: Ix,
    pub users: [Key; 3],
    pub wallets: BTreeSet<Key>,
}

pub const NOW: i64 = 1_700_000_000;

fn h(parts: &[&[u8]]) -> Key {
    solana_program::hash::hashv(parts).to_bytes()
}

/// a fake mint whose associated token account for the state shares the genuine vault's bump
fn fake_orca() -> Key {
    use std::sync::OnceLock;
    static C: OnceLock<Key> = OnceLock::new();
    *C.get_or_init(|| {
        (0u32..)
            .map(|i| h(&[b"fake-orca", &i.to_le_bytes()]))
            .find(|k| find_pda(&[&state(), &TOKEN, k], &ATA).unwrap().1 == vault_pda().1)
            .unwrap()
    })
}

/// an address derived with another than the canonical bump
fn other_bump(seeds: &[&[u8]], canonical: u8) -> Key {
    for b in (0..=255u8).rev().filter(|b| *b != canonical) {
        let bump = [b];
        let mut s = seeds.to_vec();
        s.push(&bump);
        if let Some(k) = create_pda(&s, &PROGRAM) {
            return k;
        }
    }
    unreachable!()
}

impl Scn {
    pub fn world(&self) -> World {
        let mut b = base_bank(NOW);
        let us: [Key; 3] = [user(self.salt, 0), user(self.salt, 1), user(self.salt, 2)];
        b.now += self.later as i64;
        let au = match self.who {
            1 => us[0],
            2 => [0; 32],
            3 => DEPLOYER,
            _ => auth(self.salt, 0),
        };
        let bal = 1u64 << 50;
        for u in &us {
            add_user(&mut b, u, bal, self.supply / 4);
        }
        let dep = DEPLOYER;
        for (u, n) in [(au, self.who == 0), (dep, true)] {
            if n {
                b.set(orca_acct(&u), acct(TOKEN, token_account(&ORCA, &u, bal)));
                b.set(xorca_acct(&u), acct(TOKEN, token_account(&XORCA, &u, self.supply / 8)));
            }
        }
        if self.who == 0 {
            b.set(au, wallet(RICH));
        }
        let fresh = self.op == 3;
        let cl = self.claim;
        let idx2 = self.idx.wrapping_add(1);
        let mut pool: Vec<(&'static str, Key)> = vec![];
        if !fresh {
            // user 0 has matured and immature claims, user 1 has a matured one; another at the idx
            // only if this is a withdrawal
            let mut tot = 0u64;
            let mut claims = vec![
                (us[0], idx2, NOW + 1),
                (us[0], idx2.wrapping_add(1), NOW - 5),
                (us[1], self.idx, NOW - 1),
                (us[1], idx2, NOW - 7),
            ];
            if self.op == 2 {
                claims.push((us[0], self.idx, NOW));
            }
            for (i, (u, n, ts)) in claims.iter().enumerate() {
                let (k, bump) = pw_pda(u, *n);
                let amt = cl + i as u64;
                tot += amt;
                b.set(k, acct(PROGRAM, pw_bytes(u, *n, bump, amt, *ts)));
                pool.push((["own immature claim", "own other claim", "victim claim same index", "victim claim", "own claim"][i], k));
            }
            inject(&mut b, tot + self.extra_vault, tot, self.supply, self.cooldown, &au);
        }
        let vault_amt_now = 1u64 << 50;
        // look-alikes
        let fo = fake_orca();
        let fx = h(&[b"fake-xorca"]);
        let put = |b: &mut Bank, pool: &mut Vec<(&'static str, Key)>, n: &'static str, k: Key, a: Acct| {
            b.set(k, a);
            pool.push((n, k));
        };
        put(&mut b, &mut pool, "fake ORCA mint", fo, acct(TOKEN, mint_account(Some(&us[0]), u64::MAX / 2, 6, None)));
        put(&mut b, &mut pool, "fake xORCA mint", fx, acct(TOKEN, mint_account(Some(&state()), self.supply / 2, 6, None)));
        put(&mut b, &mut pool, "fake vault", find_ata(&state(), &fo), acct(TOKEN, token_account(&fo, &state(), vault_amt_now)));
        put(&mut b, &mut pool, "own fake ORCA", h(&[b"ufo"]), acct(TOKEN, token_account(&fo, &us[0], bal)));
        put(&mut b, &mut pool, "own fake xORCA", h(&[b"ufx"]), acct(TOKEN, token_account(&fx, &us[0], bal)));
        put(&mut b, &mut pool, "state-owned ORCA elsewhere", h(&[b"sv2"]), acct(TOKEN, token_account(&ORCA, &state(), vault_amt_now)));
        put(&mut b, &mut pool, "state-owned xORCA", find_ata(&state(), &XORCA), acct(TOKEN, token_account(&XORCA, &state(), self.supply / 8)));
        put(&mut b, &mut pool, "second own ORCA", h(&[b"uo2"]), acct(TOKEN, token_account(&ORCA, &us[0], bal / 2)));
        put(&mut b, &mut pool, "second own xORCA", h(&[b"ux2"]), acct(TOKEN, token_account(&XORCA, &us[0], self.supply / 8)));
        let mut delegated = token_account(&ORCA, &us[1], bal);
        delegated[72..76].copy_from_slice(&[1, 0, 0, 0]);
        delegated[76..108].copy_from_slice(&us[0]);
        delegated[121..129].copy_from_slice(&bal.to_le_bytes());
        put(&mut b, &mut pool, "victim ORCA delegated to me", h(&[b"del"]), acct(TOKEN, delegated));
        let mut delx = token_account(&XORCA, &us[1], self.supply / 8);
        delx[72..76].copy_from_slice(&[1, 0, 0, 0]);
        delx[76..108].copy_from_slice(&us[0]);
        delx[121..129].copy_from_slice(&bal.to_le_bytes());
        put(&mut b, &mut pool, "victim xORCA delegated to me", h(&[b"delx"]), acct(TOKEN, delx));
        let mut frozen = token_account(&ORCA, &us[0], bal);
        frozen[108] = 2;
        put(&mut b, &mut pool, "frozen own ORCA", h(&[b"frz"]), acct(TOKEN, frozen));
        // forged program accounts: attacker-chosen contents, attacker-owned program
        let st = state_bytes(0, 0, &us[0]);
        put(&mut b, &mut pool, "forged state, foreign owner", h(&[b"fs1"]), acct(EVIL_PROGRAM, st.clone()));
        put(&mut b, &mut pool, "forged state, program-owned", h(&[b"fs2"]), acct(PROGRAM, st.clone()));
        let mut zb = st.clone();
        (zb[6], zb[7]) = (0, 0);
        put(&mut b, &mut pool, "forged state, zero bumps", h(&[b"fs3"]), acct(PROGRAM, zb));
        let k = other_bump(&[b"state"], state_pda().1);
        put(&mut b, &mut pool, "state at other bump", k, acct(PROGRAM, st.clone()));
        put(&mut b, &mut pool, "state-sized zero account", h(&[b"zs"]), acct(PROGRAM, vec![0; STATE_LEN]));
        put(&mut b, &mut pool, "empty program-owned account", h(&[b"ze"]), acct(PROGRAM, vec![]));
        // mostly an amount the vault and the escrow could pay
        let forged = if self.extra_vault % 8 == 7 { vault_amt_now } else { cl.saturating_mul(2) };
        let pwb = pw_bytes(&us[0], self.idx, pw_pda(&us[0], self.idx).1, forged, NOW - 1);
        put(&mut b, &mut pool, "forged claim, foreign owner", h(&[b"fp1"]), acct(EVIL_PROGRAM, pwb.clone()));
        put(&mut b, &mut pool, "forged claim, program-owned", h(&[b"fp2"]), acct(PROGRAM, pwb.clone()));
        let mut zb = pwb.clone();
        zb[6] = 0;
        put(&mut b, &mut pool, "forged claim, zero bump", h(&[b"fp3"]), acct(PROGRAM, zb));
        let k = other_bump(&[b"pending_withdraw", &us[0], &[self.idx]], pw_pda(&us[0], self.idx).1);
        if self.op == 2 {
            put(&mut b, &mut pool, "claim at other bump", k, acct(PROGRAM, pwb.clone()));
        } else {
            put(&mut b, &mut pool, "empty claim address at other bump", k, wallet(0));
        }
        put(&mut b, &mut pool, "foreign-owned ORCA look-alike", h(&[b"fo"]), acct(EVIL_PROGRAM, token_account(&ORCA, &us[0], bal)));
        put(&mut b, &mut pool, "foreign-owned xORCA look-alike", h(&[b"fxl"]), acct(EVIL_PROGRAM, token_account(&XORCA, &us[0], bal)));
        put(&mut b, &mut pool, "foreign-owned vault look-alike", h(&[b"fvl"]), acct(EVIL_PROGRAM, token_account(&ORCA, &state(), bal)));
        put(&mut b, &mut pool, "foreign-owned mint look-alike", h(&[b"fml"]), acct(EVIL_PROGRAM, mint_account(Some(&state()), 5, 6, None)));
        put(&mut b, &mut pool, "empty wallet", h(&[b"ew"]), wallet(0));
        put(&mut b, &mut pool, "funded wallet", h(&[b"fw"]), wallet(1 << 40));
        // genuine others
        for (n, k) in [
            ("me", us[0]),
            ("victim", us[1]),
            ("third", us[2]),
            ("authority", au),
            ("deployer", DEPLOYER),
            ("state", state()),
            ("vault", vault()),
            ("ORCA mint", ORCA),
            ("xORCA mint", XORCA),
            ("system", SYSTEM),
            ("token", TOKEN),
            ("ata", ATA),
            ("program", PROGRAM),
            ("evil program", EVIL_PROGRAM),
            ("authority ORCA", orca_acct(&au)),
            ("authority xORCA", xorca_acct(&au)),
            ("deployer ORCA", orca_acct(&DEPLOYER)),
            ("deployer xORCA", xorca_acct(&DEPLOYER)),
            ("my ORCA", orca_acct(&us[0])),
            ("my xORCA", xorca_acct(&us[0])),
            ("victim ORCA", orca_acct(&us[1])),
            ("victim xORCA", xorca_acct(&us[1])),
            ("my claim address", pw(&us[0], self.idx)),
            ("my unused claim address", pw(&us[0], self.idx.wrapping_add(9))),
            ("victim's unused claim address", pw(&us[1], self.idx.wrapping_add(9))),
        ] {
            pool.push((n, k));
        }
        let wallets: BTreeSet<Key> = [us[0], us[1], us[2], au, DEPLOYER, h(&[b"fw"]), h(&[b"ew"])].into_iter().filter(|k| *k != SYSTEM).collect();
        let ix = match self.op {
            0 => ix_stake(&us[0], self.amount.min(bal)),
            1 => ix_unstake(&us[0], self.amount.min(self.supply / 8), self.idx),
            2 => ix_withdraw(&us[0], self.idx),
            3 => ix_init(&DEPLOYER, &au, self.cooldown),
            4 => ix_set_cooldown(&au, self.amount as i64 & i64::MAX),
            _ => ix_set_authority(&au, &us[2]),
        };
        World {
            bank: b,
            pool,
            ix,
            users: us,
            wallets,
        }
    }
}

/// log-uniform with at least lo and fewer than hi bits
fn size(lo: u32, hi: u32) -> BoxedStrategy<u64> {
    prop_oneof![
        11 => (lo..hi, any::<u64>()).prop_map(|(b, x)| (x >> (64 - b)) | (1 << (b - 1))),
        1 => crate::dict::lit().prop_map(move |x| (x & ((1 << hi) - 1)).max(1 << (lo - 1))),
        1 => hist::round(hi).prop_map(move |x| x.max(1 << (lo - 1))),
    ]
    .boxed()
}

pub fn scn() -> BoxedStrategy<Scn> {
    (
        any::<u8>(),
        0u8..6,
        size(1, 40),
        idx(),
        size(12, 48),
        size(12, 48),
        size(4, 40),
        prop_oneof![5 => Just(0i64), 5 => 0i64..10_000_000, 1 => crate::dict::lit().prop_map(|v| (v >> 8) as i64 % 10_000_000)],
        prop_oneof![3 => Just(0u64), 1 => 0u64..3, 3 => log_below(36)],
        prop_oneof![6 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(salt, op, amount, idx, a, s, claim, cooldown, later, who)| {
            // supply <= non-escrowed ORCA, amounts large enough to convert
            let (extra_vault, supply) = (a.max(s), a.min(s));
            let ratio = extra_vault / supply + 2;
            Scn {
                salt,
                op,
                amount: if op < 2 { amount.saturating_mul(ratio).min(1 << 50) } else { amount },
                idx,
                extra_vault,
                supply,
                claim,
                cooldown,
                later,
                who,
            }
        })
        .boxed()
}

// ---- C10 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Replace(u8, u8),
    Combo(u8),
    Dup(u8, u8),
    Swap(u8, u8),
    Unsign(u8),
    ReadOnly(u8),
    Truncate(u8),
    Append(u8),
    Index(u8),
    Amount(u64),
    /// another program in a program's place, the genuine one still at hand behind the listed accounts
    Stray(u8, u8),
    /// the account at this place is no plain wallet: owned by another program, or carrying data
    NoWallet(u8, bool),
    /// a copy of the account at an address one bit away
    Near(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Adv {
    s: Scn,
    muts: Vec<Mut>,
}

fn muts() -> BoxedStrategy<Mut> {
    prop_oneof![
        6 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::Replace(a, b)),
        6 => (0u8..23).prop_map(Mut::Combo),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::Dup(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::Swap(a, b)),
        1 => any::<u8>().prop_map(Mut::Unsign),
        1 => any::<u8>().prop_map(Mut::ReadOnly),
        1 => any::<u8>().prop_map(Mut::Truncate),
        1 => any::<u8>().prop_map(Mut::Append),
        1 => idx().prop_map(Mut::Index),
        1 => log_u64().prop_map(Mut::Amount),
        1 => (0u8..3, 0u8..4).prop_map(|(a, b)| Mut::Stray(a, b)),
        1 => (0u8..4, any::<bool>()).prop_map(|(a, b)| Mut::NoWallet(a, b)),
        3 => any::<(u8, u8, u8)>().prop_map(|(a, b, c)| Mut::Near(a, b, c)),
    ]
    .boxed()
}
fn adv(_t: bool) -> BoxedStrategy<Adv> {
    (scn(), proptest::collection::vec(muts(), 1..4)).prop_map(|(s, muts)| Adv { s, muts }).boxed()
}

fn near(k: &Key, i: u8, bit: u8) -> Key {
    let mut k = *k;
    k[i as usize % 32] ^= 1 << (bit % 8);
    k
}

fn pool_key(w: &World, name: &str) -> Option<Key> {
    w.pool.iter().find(|p| p.0 == name).map(|p| p.1)
}

/// role -> slot for each instruction
fn slot(op: u8, role: &str) -> Option<usize> {
    let t: &[&str] = match op {
        0 => &["user", "vault", "orca", "xorca", "xmint", "state", "omint", "tokp"],
        1 => &["user", "state", "claim", "xorca", "xmint", "omint", "vault", "sysp", "tokp"],
        2 => &["user", "state", "claim", "orca", "vault", "omint", "sysp", "tokp"],
        3 => &["payer", "user", "state", "vault", "xmint", "omint", "sysp", "tokp", "atap"],
        _ => &["user", "state"],
    };
    t.iter().position(|r| *r == role)
}

fn combo(n: u8) -> &'static [(&'static str, &'static str)] {
    match n {
        0 => &[("omint", "fake ORCA mint"), ("vault", "fake vault"), ("orca", "own fake ORCA")],
        1 => &[("xmint", "fake xORCA mint"), ("xorca", "own fake xORCA")],
        2 => &[("claim", "victim claim same index"), ("orca", "my ORCA")],
        3 => &[("claim", "victim claim same index"), ("orca", "victim ORCA")],
        4 => &[("state", "forged state, foreign owner"), ("user", "me")],
        5 => &[("state", "forged state, program-owned"), ("user", "me")],
        6 => &[("claim", "forged claim, foreign owner")],
        7 => &[("claim", "forged claim, program-owned")],
        8 => &[("orca", "victim ORCA"), ("xorca", "victim xORCA")],
        9 => &[("orca", "victim ORCA delegated to me"), ("xorca", "victim xORCA delegated to me")],
        10 => &[("vault", "state-owned ORCA elsewhere")],
        11 => &[("omint", "fake ORCA mint"), ("vault", "fake vault")],
        12 => &[("orca", "foreign-owned ORCA look-alike")],
        13 => &[("state", "state at other bump"), ("claim", "claim at other bump"), ("user", "me")],
        14 => &[("xorca", "foreign-owned xORCA look-alike"), ("vault", "foreign-owned vault look-alike")],
        15 => &[("orca", "vault"), ("vault", "my ORCA")],
        16 => &[("user", "authority"), ("orca", "authority ORCA"), ("xorca", "authority xORCA")],
        17 => &[("user", "deployer"), ("orca", "deployer ORCA"), ("xorca", "deployer xORCA")],
        18 => &[("user", "victim"), ("orca", "victim ORCA"), ("xorca", "victim xORCA")],
        19 => &[("state", "forged state, zero bumps"), ("user", "me")],
        20 => &[("state", "forged state, zero bumps"), ("vault", "fake vault"), ("omint", "fake ORCA mint")],
        21 => &[("claim", "forged claim, zero bump")],
        _ => &[("user", "third"), ("claim", "victim claim")],
    }
}

fn apply(w: &World, ix: &mut Ix, m: &Mut, op: u8) {
    let n = ix.metas.len();
    if n == 0 {
        return;
    }
    match m {
        Mut::Replace(a, b) => {
            let k = w.pool[*b as usize % w.pool.len()].1;
            ix.metas[*a as usize % n].key = k;
        }
        Mut::Combo(c) => {
            for (role, what) in combo(*c) {
                if let (Some(s), Some(k)) = (slot(op, role), pool_key(w, what)) {
                    if s < n {
                        ix.metas[s].key = k;
                    }
                }
            }
        }
        Mut::Dup(a, b) => {
            let k = ix.metas[*b as usize % n].key;
            ix.metas[*a as usize % n].key = k;
        }
        Mut::Swap(a, b) => {
            let (a, b) = (*a as usize % n, *b as usize % n);
            let (x, y) = (ix.metas[a].key, ix.metas[b].key);
            ix.metas[a].key = y;
            ix.metas[b].key = x;
        }
        Mut::Unsign(a) => {
            // clear the (or one) signature
            let s: Vec<usize> = (0..n).filter(|i| ix.metas[*i].signer).collect();
            if !s.is_empty() {
                ix.metas[s[*a as usize % s.len()]].signer = false;
            }
        }
        Mut::ReadOnly(a) => ix.metas[*a as usize % n].writable = false,
        Mut::Truncate(a) => ix.metas.truncate(*a as usize % n),
        Mut::Append(b) => {
            let k = w.pool[*b as usize % w.pool.len()].1;
            ix.metas.push(Meta {
                key: k,
                signer: false,
                writable: true,
            });
        }
        Mut::Index(i) => match ix.data.first() {
            Some(1) if ix.data.len() > 9 => ix.data[9] = *i,
            Some(2) if ix.data.len() > 1 => ix.data[1] = *i,
            _ => {}
        },
        Mut::Stray(role, by) => {
            let role = ["tokp", "sysp", "atap"][*role as usize % 3];
            if let Some(s) = slot(op, role).filter(|s| *s < n) {
                let genuine = ix.metas[s].key;
                ix.metas[s].key = [EVIL_PROGRAM, PROGRAM, ATA, SYSTEM][*by as usize % 4];
                ix.metas.push(Meta {
                    key: genuine,
                    signer: false,
                    writable: false,
                });
            }
        }
        Mut::NoWallet(..) => {}
        Mut::Near(s, i, bit) => {
            let s = *s as usize % n;
            ix.metas[s].key = near(&w.ix.metas.get(s).unwrap_or(&ix.metas[s]).key, *i, *bit);
        }
        Mut::Amount(x) => {
            if matches!(ix.data.first(), Some(0 | 1 | 3)) {
                ix.data[1..9].copy_from_slice(&x.to_le_bytes());
            }
        }
    }
}

fn c10(c: &Adv, st: &mut Stats) -> Check {
    let mut w = c.s.world();
    let mut ix = w.ix.clone();
    for m in &c.muts {
        apply(&w, &mut ix, m, c.s.op);
    }
    for m in &c.muts {
        if let Mut::Near(s, i, bit) = m {
            if let Some(m) = w.ix.metas.get(*s as usize % w.ix.metas.len().max(1)) {
                let k = near(&m.key, *i, *bit);
                let a = w.bank.get(&m.key);
                if w.wallets.contains(&m.key) {
                    w.wallets.insert(k);
                }
                w.bank.set(k, a);
            }
        }
        if let Mut::NoWallet(i, owned) = m {
            let k = ix.metas.get(*i as usize).map(|m| m.key).filter(|k| w.wallets.contains(k));
            if let Some(a) = k.and_then(|k| w.bank.accts.get_mut(&k)) {
                if *owned {
                    a.owner = EVIL_PROGRAM
                } else {
                    a.data = vec![7; 80]
                }
                st.hit("signer is no plain wallet");
            }
        }
    }
    // only wallets can sign a transaction
    for m in ix.metas.iter_mut() {
        m.signer &= w.wallets.contains(&m.key);
    }
    let changed = ix != w.ix || c.muts.iter().any(|m| matches!(m, Mut::NoWallet(..)));
    let pre = w.bank.clone();
    let ixs = [ix];
    let exp = expect_tx(&pre, &ixs);
    let res = process_tx(&env(), &mut w.bank, &ixs);
    let what = || {
        format!(
            "{} with accounts {:?} (changes {:?})",
            desc(&ixs),
            ixs[0]
                .metas
                .iter()
                .map(|m| w.pool.iter().find(|p| p.1 == m.key).map(|p| p.0.to_string()).unwrap_or_else(|| name(&m.key)))
                .collect::<Vec<_>>(),
            c.muts
        )
    };
    if res.ok() {
        st.hit("accepted");
        if let Err((_, f)) = &exp.res {
            if f.iter().any(|f| f.core) {
                return Err(format!("{}: accepted although {f:?}", what()));
            }
            st.hit("accepted with a harmless deviation");
        }
        let post = exp.post.as_ref().ok_or("no expectation")?;
        let d = diff(&w.bank, post);
        if !d.is_empty() {
            return Err(format!("{}: effect differs from the defined one: {}", what(), show(&d)));
        }
        if changed {
            st.hit("accepted with substituted accounts, effect as defined");
        }
    } else {
        st.hit("rejected");
        if w.bank.accts != pre.accts {
            return Err(format!("{}: rejected but state changed", what()));
        }
    }
    if changed {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

// ---- C14 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Defect {
    None,
    Unsign(u8),
    ReadOnly(u8),
    Missing(u8),
    Replace(u8, u8),
    /// canonical address, other owner program
    Owner(u8, u8),
    /// first data byte
    Disc(u8, u8),
    Shorten(u8, u16),
    TokMint(u8),
    TokOwner(u8),
    MintAuth(u8, u8),
    Freeze(u8),
    Decimals(u8, u8),
    Supply(u64),
    TooMuch(u64),
    Dust(u64),
    Early(u32),
    LowEscrow(u64),
    Insolvent(u64),
    Overflow(u64),
    BadCooldown(i64),
    FarCooldown(i64),
    Stranger(u8),
    Bytes(Vec<u8>),
    CutData(u8),
    ProgramId(u8, u8),
    Reinit,
    /// the same account (owner, contents) at an address one bit away
    Near(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    s: Scn,
    d: Defect,
}

fn defect() -> BoxedStrategy<Defect> {
    let s = any::<u8>();
    prop_oneof![
        1 => Just(Defect::None),
        3 => s.clone().prop_map(Defect::Unsign),
        5 => s.clone().prop_map(Defect::ReadOnly),
        3 => s.clone().prop_map(Defect::Missing),
        8 => (s.clone(), s.clone()).prop_map(|(a, b)| Defect::Replace(a, b)),
        8 => (s.clone(), 0u8..5).prop_map(|(a, b)| Defect::Owner(a, b)),
        4 => (s.clone(), prop_oneof![0u8..4, any::<u8>()]).prop_map(|(a, b)| Defect::Disc(a, b)),
        3 => (s.clone(), prop_oneof![3 => 0u16..2048, 1 => Just(2047u16), 1 => Just(1023)]).prop_map(|(a, b)| Defect::Shorten(a, b)),
        3 => s.clone().prop_map(Defect::TokMint),
        3 => s.clone().prop_map(Defect::TokOwner),
        3 => (s.clone(), 0u8..3).prop_map(|(a, b)| Defect::MintAuth(a, b)),
        2 => s.clone().prop_map(Defect::Freeze),
        2 => (s.clone(), prop_oneof![0u8..12, any::<u8>()]).prop_map(|(a, b)| Defect::Decimals(a, b)),
        1 => log_u64().prop_map(Defect::Supply),
        3 => prop_oneof![Just(1u64), log_u64()].prop_map(Defect::TooMuch),
        3 => (0u64..200).prop_map(Defect::Dust),
        3 => prop_oneof![1u32..3, any::<u32>()].prop_map(Defect::Early),
        3 => (1u64..1000).prop_map(Defect::LowEscrow),
        3 => prop_oneof![Just(1u64), log_below(40)].prop_map(Defect::Insolvent),
        3 => any::<u64>().prop_map(Defect::Overflow),
        3 => prop_oneof![Just(-1i64), Just(i64::MIN), (1i64..=i64::MAX).prop_map(|x| -x)].prop_map(Defect::BadCooldown),
        2 => (0i64..10).prop_map(|x| i64::MAX - NOW + 1 + x * 12345).prop_map(Defect::FarCooldown),
        4 => s.clone().prop_map(Defect::Stranger),
        2 => proptest::collection::vec(any::<u8>(), 0..40).prop_map(Defect::Bytes),
        2 => s.clone().prop_map(Defect::CutData),
        2 => (0u8..32, 0u8..8).prop_map(|(a, b)| Defect::ProgramId(a, b)),
        1 => Just(Defect::Reinit),
        8 => (s.clone(), s.clone(), s.clone()).prop_map(|(a, b, c)| Defect::Near(a, b, c)),
    ]
    .boxed()
}
fn one(_t: bool) -> BoxedStrategy<One> {
    (scn(), defect()).prop_map(|(s, d)| One { s, d }).boxed()
}

pub const NAMES: [&str; 20] = [
    "UnknownInstructionDiscriminator",
    "IncorrectProgramId",
    "InvalidAccountRole",
    "NotEnoughAccountKeys",
    "IncorrectOwner",
    "InvalidSeeds",
    "IncorrectAccountAddress",
    "InvalidAccountData",
    "ArithmeticError",
    "InsufficientFunds",
    "StateAccountAlreadyInitialized",
    "CoolDownPeriodStillActive",
    "EmitEventError",
    "InvalidCoolDownPeriod",
    "InsufficientStakeAmount",
    "InsufficientUnstakeAmount",
    "InsufficientEscrow",
    "CoolDownOverflow",
    "InsufficientVaultBacking",
    "UnauthorizedDeployerAccess",
];

fn c14(c: &One, st: &mut Stats) -> Check {
    let mut w = c.s.world();
    let op = c.s.op;
    let mut ix = w.ix.clone();
    let n = ix.metas.len();
    let mut pid = PROGRAM;
    let b = &mut w.bank;
    let key = |ix: &Ix, s: u8| ix.metas[s as usize % n].key;
    match &c.d {
        Defect::None => {}
        Defect::Unsign(_) | Defect::ReadOnly(_) => {
            let m = match &c.d {
                Defect::Unsign(a) => {
                    let s: Vec<usize> = (0..n).filter(|i| ix.metas[*i].signer).collect();
                    let i = s[*a as usize % s.len()];
                    ix.metas[i].signer = false;
                    i
                }
                Defect::ReadOnly(a) => {
                    let s: Vec<usize> = (0..n).filter(|i| ix.metas[*i].writable).collect();
                    let i = s[*a as usize % s.len()];
                    ix.metas[i].writable = false;
                    i
                }
                _ => unreachable!(),
            };
            let _ = m;
        }
        Defect::Missing(k) => ix.metas.truncate(*k as usize % n),
        Defect::Replace(s, p) => {
            let k = w.pool[*p as usize % w.pool.len()].1;
            // a duplicate inherits flags of its twin; that would be a second defect
            if ix.metas.iter().any(|m| m.key == k) {
                return Ok(());
            }
            let s = *s as usize % n;
            ix.metas[s].key = k;
        }
        Defect::Owner(s, o) => {
            let k = key(&ix, *s);
            let mut a = b.get(&k);
            let no = [EVIL_PROGRAM, SYSTEM, TOKEN, PROGRAM, LOADER][*o as usize % 5];
            if a.executable || a.owner == no {
                return Ok(());
            }
            a.owner = no;
            a.lamports = a.lamports.max(1);
            b.set(k, a);
        }
        Defect::Disc(s, v) => {
            let k = key(&ix, *s);
            let mut a = b.get(&k);
            if a.owner != PROGRAM || a.executable || a.data.is_empty() {
                return Ok(());
            }
            a.data[0] = *v;
            b.set(k, a);
        }
        Defect::Shorten(s, l) => {
            let k = key(&ix, *s);
            let mut a = b.get(&k);
            if a.executable || a.data.is_empty() || !(a.owner == PROGRAM || a.owner == TOKEN) {
                return Ok(());
            }
            // the fixed, immutable ORCA mint cannot be malformed once the pool exists
            if k == ORCA && op != 3 {
                return Ok(());
            }
            let l = *l as usize % a.data.len();
            a.data.truncate(l);
            b.set(k, a);
        }
        Defect::TokMint(s) | Defect::TokOwner(s) => {
            let k = key(&ix, *s);
            let mut a = b.get(&k);
            if a.data.len() != 165 {
                return Ok(());
            }
            let o = if matches!(c.d, Defect::TokMint(_)) { 0 } else { 32 };
            a.data[o + *s as usize % 32] ^= 1 << (s % 8);
            b.set(k, a);
        }
        Defect::MintAuth(s, kind) => {
            let k = key(&ix, *s);
            let mut a = b.get(&k);
            if a.data.len() != 82 || k != XORCA {
                return Ok(());
            }
            match kind {
                0 => a.data[0..36].fill(0),
                1 => a.data[4 + *s as usize % 32] ^= 1 << (s % 8),
                _ => a.data[0] = 0,
            }
            b.set(k, a);
        }
        Defect::Freeze(s) => {
            let mut a = b.get(&XORCA);
            // sometimes only the key of a revoked authority
            a.data[46] = (*s % 5 != 0) as u8;
            a.data[50..82].fill(if *s % 7 == 1 { 0 } else { *s | 1 });
            b.set(XORCA, a);
        }
        Defect::Decimals(s, d) => {
            let k = if s % 2 == 0 { XORCA } else { ORCA };
            let mut a = b.get(&k);
            a.data[44] = *d;
            b.set(k, a);
        }
        Defect::Supply(x) => {
            if op != 3 {
                return Ok(());
            }
            b.accts.get_mut(&XORCA).unwrap().data[36..44].copy_from_slice(&x.to_le_bytes());
        }
        Defect::TooMuch(x) => {
            let bal = match op {
                0 => tok_amount(b, &orca_acct(&w.users[0])),
                1 => tok_amount(b, &xorca_acct(&w.users[0])),
                _ => return Ok(()),
            };
            ix.data[1..9].copy_from_slice(&bal.saturating_add(*x).to_le_bytes());
        }
        Defect::Dust(x) => {
            if op > 1 {
                return Ok(());
            }
            if op == 1 {
                // only possible with more xORCA than backing
                let a = escrow(b);
                set_tok_amount(b, &vault(), a + 1);
            }
            ix.data[1..9].copy_from_slice(&x.to_le_bytes());
        }
        Defect::Early(x) => b.now = NOW - *x as i64, // the claim matures at NOW
        Defect::LowEscrow(x) => {
            if op != 2 {
                return Ok(());
            }
            let e = c.s.claim.saturating_sub(*x % (c.s.claim + 4));
            b.accts.get_mut(&state()).unwrap().data[8..16].copy_from_slice(&e.to_le_bytes());
        }
        Defect::Insolvent(x) => {
            if op > 1 {
                return Ok(());
            }
            let e = escrow(b);
            set_tok_amount(b, &vault(), e.saturating_sub(*x));
        }
        Defect::Overflow(x) => {
            let hi = u64::MAX - (x >> 40);
            match op {
                0 => {
                    // huge supply over tiny backing: result beyond 64 bits
                    inject(b, 1 + x % 50, 0, hi, 0, &w.users[2]);
                    set_tok_amount(b, &orca_acct(&w.users[0]), hi);
                    ix.data[1..9].copy_from_slice(&(hi / 2).to_le_bytes());
                }
                1 => {
                    inject(b, hi, 0, 1 + x % 1000, 0, &w.users[2]);
                    set_tok_amount(b, &xorca_acct(&w.users[0]), hi);
                    b.accts.get_mut(&XORCA).unwrap().data[36..44].copy_from_slice(&(1 + x % 1000).to_le_bytes());
                    ix.data[1..9].copy_from_slice(&(hi / 2).to_le_bytes());
                }
                _ => return Ok(()),
            }
        }
        Defect::BadCooldown(v) => match op {
            3 => ix.data[1..9].copy_from_slice(&v.to_le_bytes()),
            4 => ix.data[2..10].copy_from_slice(&v.to_le_bytes()),
            _ => return Ok(()),
        },
        Defect::FarCooldown(v) => {
            if op != 1 {
                return Ok(());
            }
            b.accts.get_mut(&state()).unwrap().data[16..24].copy_from_slice(&v.to_le_bytes());
        }
        Defect::Stranger(s) => {
            let who = [w.users[0], w.users[1], w.users[2]][*s as usize % 3];
            match op {
                3..=5 => ix.metas[0].key = who,
                2 => {
                    // a complete stranger's withdrawal of this claim
                    ix.metas[0].key = w.users[2];
                    ix.metas[3].key = orca_acct(&w.users[2]);
                }
                _ => return Ok(()),
            }
        }
        Defect::Bytes(v) => ix.data = v.clone(),
        Defect::CutData(k) => {
            let l = *k as usize % ix.data.len();
            ix.data.truncate(l)
        }
        Defect::Near(s, i, bit) => {
            let (k, near) = (key(&ix, *s), near(&key(&ix, *s), *i, *bit));
            let a = b.get(&k);
            b.set(near, a);
            // every place that lists it, so that it stays a single defect
            for m in ix.metas.iter_mut().filter(|m| m.key == k) {
                m.key = near;
            }
        }
        Defect::ProgramId(i, bit) => {
            pid[*i as usize % 32] ^= 1 << (bit % 8);
        }
        Defect::Reinit => {
            if op != 3 {
                return Ok(());
            }
            let a = w.users[1];
            inject(b, 0, 0, 0, 0, &a);
        }
    }
    let pre = w.bank.clone();
    ix.program = pid;
    let res = process_raw(&env(), &mut w.bank, &ix);
    let tag: String = format!("{:?}", c.d).chars().take_while(|x| x.is_alphanumeric()).collect();
    let what = || format!("{} with defect {:?}", desc(&[Ix { program: PROGRAM, ..ix.clone() }]), c.d);
    let faults: Vec<Fault> = if pid != PROGRAM {
        vec![Fault {
            code: 6001,
            core: true,
            what: "wrong program id",
        }]
    } else {
        match expect_tx(&pre, &[ix.clone()]).res {
            Ok(()) => vec![],
            Err((_, f)) => f,
        }
    };
    if faults.is_empty() {
        st.hit("no defect after all");
        return match res.res {
            Ok(()) => Ok(()),
            Err(e) => Err(format!("{}: no defect but rejected with {e:?}", what())),
        };
    }
    let mut codes: BTreeSet<u32> = faults.iter().map(|f| f.code).collect();
    // the optional stale freeze key may go either way
    if faults.iter().all(|f| f.what == "stale freeze authority key") {
        return Ok(());
    }
    let runtime = codes.remove(&0);
    match &res.res {
        Ok(()) => return Err(format!("{}: accepted, expected one of {codes:?} ({faults:?})", what())),
        Err((_, IxErr::Custom(x))) if codes.contains(x) => {
            st.hit(&format!("code {x}"));
            // the published client knows the code under the documented name
            client_name(*x)?;
        }
        Err((_, e)) => {
            let custom = matches!(e, IxErr::Custom(_));
            if custom || !runtime {
                return Err(format!("{}: rejected with {e:?}, expected one of {codes:?} ({faults:?})", what()));
            }
            st.hit("runtime rejection");
        }
    }
    st.hit(&format!("defect {tag}"));
    st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    Ok(())
}

fn client_name(code: u32) -> Check {
    use num_traits::FromPrimitive;
    let e = xorca::XorcaStakingProgramError::from_u32(code);
    let want = code.checked_sub(6000).and_then(|i| NAMES.get(i as usize));
    match (e, want) {
        (Some(e), Some(w)) => {
            let got = format!("{e:?}");
            if got != *w {
                return Err(format!("client calls error {code} {got}, documented name {w}"));
            }
            match solana_program_error::ProgramError::from(e) {
                solana_program_error::ProgramError::Custom(c) if c == code => Ok(()),
                o => Err(format!("client converts error {code} to {o:?}")),
            }
        }
        (None, None) => Ok(()),
        (Some(e), None) => Err(format!("client accepts unknown error code {code} as {e:?}")),
        (None, Some(w)) => Err(format!("client does not know error code {code} ({w})")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Code(u32);
fn codes(_t: bool) -> BoxedStrategy<Code> {
    prop_oneof![4 => 5990u32..6040, 1 => any::<u32>(), 1 => 0u32..300].prop_map(Code).boxed()
}
fn c14n(c: &Code, st: &mut Stats) -> Check {
    if (6000..6020).contains(&c.0) {
        st.hit("client: known code");
    } else {
        st.hit("client: unknown code");
    }
    client_name(c.0)
}

// ---- C13 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild {
    s: Scn,
    pid: Option<[u8; 32]>,
    data: WildData,
    accs: Vec<WildAcc>,
    base: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WildData {
    Random(Vec<u8>),
    Tagged(u8, Vec<u8>),
    /// valid bytes cut, extended or with one byte changed
    Cut(u8),
    Extend(Vec<u8>),
    Flip(u8, u8),
    /// valid bytes followed by that many copies of a byte
    Long(u16, u8),
    Keep,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WildAcc {
    Pool(u8, bool, bool),
    Raw {
        owner: u8,
        len: u16,
        fill: u64,
        lam: u64,
        s: bool,
        w: bool,
    },
    /// arbitrary contents at the slot's own (canonical) address
    Corrupt { slot: u8, owner: u8, at: u16, bytes: Vec<u8>, len: Option<u16> },
    Dup(u8),
    /// the account of a slot, that many times more
    Pad(u8, u8),
}
fn wild(_t: bool) -> BoxedStrategy<Wild> {
    let bytes = prop_oneof![
        14 => proptest::collection::vec(any::<u8>(), 0..60),
        1 => proptest::collection::vec(any::<u8>(), 60..1300),
    ]
    .boxed();
    let data = prop_oneof![
        2 => bytes.clone().prop_map(WildData::Random),
        3 => (0u8..6, bytes.clone()).prop_map(|(t, b)| WildData::Tagged(t, b)),
        2 => any::<u8>().prop_map(WildData::Cut),
        1 => bytes.clone().prop_map(WildData::Extend),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| WildData::Flip(a, b)),
        1 => (0u16..10_000, any::<u8>()).prop_map(|(a, b)| WildData::Long(a, b)),
        5 => Just(WildData::Keep),
    ];
    let small = proptest::collection::vec(any::<u8>(), 1..9);
    let acc = prop_oneof![
        3 => (any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(a, b, c)| WildAcc::Pool(a, b, c)),
        2 => (0u8..6, prop_oneof![0u16..300, Just(1024u16), Just(2048), 0u16..3000], any::<u64>(), log_u64(), any::<bool>(), any::<bool>())
            .prop_map(|(owner, len, fill, lam, s, w)| WildAcc::Raw { owner, len, fill, lam, s, w }),
        5 => (any::<u8>(), prop_oneof![2 => Just(9u8), 1 => 0u8..6], prop_oneof![0u16..110, 0u16..2048], small, prop_oneof![3 => Just(None), 2 => (0u16..2100).prop_map(Some), 1 => prop_oneof![Just(56u16), Just(55), Just(57), Just(82), Just(165), Just(0), Just(1), Just(8)].prop_map(Some)])
            .prop_map(|(slot, owner, at, bytes, len)| WildAcc::Corrupt { slot, owner, at, bytes, len }),
        1 => any::<u8>().prop_map(WildAcc::Dup),
        1 => (any::<u8>(), prop_oneof![3 => 0u8..64, 1 => any::<u8>()]).prop_map(|(a, b)| WildAcc::Pad(a, b)),
    ];
    (
        scn(),
        prop_oneof![8 => Just(None), 1 => any::<[u8; 32]>().prop_map(Some)],
        data,
        prop_oneof![20 => proptest::collection::vec(acc.clone(), 0..6), 1 => proptest::collection::vec(acc, 6..60)],
        prop_oneof![4 => Just(true), 1 => Just(false)],
    )
        .prop_map(|(s, pid, data, accs, base)| Wild { s, pid, data, accs, base })
        .boxed()
}

fn c13(c: &Wild, st: &mut Stats) -> Check {
    let mut w = c.s.world();
    let mut ix = w.ix.clone();
    if !c.base {
        ix.metas.clear();
    }
    match &c.data {
        WildData::Random(v) => ix.data = v.clone(),
        WildData::Tagged(t, v) => {
            ix.data = vec![*t];
            ix.data.extend(v);
        }
        WildData::Cut(k) => {
            let l = *k as usize % (ix.data.len() + 1);
            ix.data.truncate(l)
        }
        WildData::Extend(v) => ix.data.extend(v),
        WildData::Flip(a, b) => {
            let i = *a as usize % ix.data.len();
            ix.data[i] = *b
        }
        WildData::Long(k, b) => {
            let l = ix.data.len() + *k as usize;
            ix.data.resize(l, *b)
        }
        WildData::Keep => {}
    }
    let owners = [PROGRAM, TOKEN, SYSTEM, EVIL_PROGRAM, LOADER, ATA];
    for (i, a) in c.accs.iter().enumerate() {
        let n = ix.metas.len();
        match a {
            WildAcc::Pool(p, s, wr) => ix.metas.push(Meta {
                key: w.pool[*p as usize % w.pool.len()].1,
                signer: *s,
                writable: *wr,
            }),
            WildAcc::Raw { owner, len, fill, lam, s, w: wr } => {
                let k = h(&[b"raw", &[i as u8]]);
                let mut x = *fill;
                let data = (0..*len)
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (x >> 56) as u8
                    })
                    .collect();
                w.bank.set(
                    k,
                    Acct {
                        lamports: *lam >> 4,
                        data,
                        owner: owners[*owner as usize % 6],
                        executable: false,
                    },
                );
                let meta = Meta {
                    key: k,
                    signer: *s,
                    writable: *wr,
                };
                if n > 0 && *fill % 3 == 0 {
                    ix.metas[(*fill >> 8) as usize % n] = meta
                } else {
                    ix.metas.push(meta)
                }
            }
            WildAcc::Corrupt { slot, owner, at, bytes, len } => {
                if n == 0 {
                    continue;
                }
                let k = ix.metas[*slot as usize % n].key;
                let mut acc = w.bank.get(&k);
                if acc.executable {
                    continue;
                }
                if *owner < 6 {
                    acc.owner = owners[*owner as usize];
                }
                if let Some(l) = len {
                    acc.data.resize(*l as usize, 0);
                }
                for (j, v) in bytes.iter().enumerate() {
                    if let Some(d) = acc.data.get_mut(*at as usize + j) {
                        *d = *v;
                    }
                }
                acc.lamports = acc.lamports.max(1);
                w.bank.set(k, acc);
                st.hit("account contents corrupted");
            }
            WildAcc::Dup(d) => {
                if n > 0 {
                    let m = ix.metas[*d as usize % n].clone();
                    ix.metas.push(m);
                }
            }
            WildAcc::Pad(d, k) => {
                if n > 0 {
                    let m = ix.metas[*d as usize % n].clone();
                    ix.metas.extend(std::iter::repeat_n(m, *k as usize));
                }
            }
        }
    }
    ix.metas.truncate(250);
    if ix.metas.len() > 64 {
        st.hit("more than 64 accounts");
    }
    if let Some(p) = c.pid {
        ix.program = p;
    }
    let pre = w.bank.clone();
    let res = process_raw(&env(), &mut w.bank, &ix);
    let what = || format!("data {:?}, {} accounts", ix.data, ix.metas.len());
    match &res.res {
        Err((_, IxErr::Panic(m))) => return Err(format!("{}: the program panicked: {m}", what())),
        Err((_, e)) => {
            if w.bank.accts != pre.accts {
                return Err(format!("{}: rejected but accounts changed", what()));
            }
            st.hit(match e {
                IxErr::Custom(_) => "program error",
                IxErr::Builtin(_) => "builtin error",
                IxErr::Cpi(..) => "cpi failure",
                IxErr::Runtime(_) => "runtime rule",
                IxErr::Panic(_) => "panic",
            });
        }
        Ok(()) => {
            st.hit("success");
            if ix.program != PROGRAM {
                return Err(format!("{}: accepted under program id {}", what(), name(&ix.program)));
            }
            if decode(&ix.data).is_none() {
                return Err(format!("{}: incomplete instruction accepted", what()));
            }
        }
    }
    let complete = decode(&ix.data).is_some();
    st.hit(if complete { "complete instruction" } else { "incomplete instruction" });
    if ix != c.s.world().ix || pre != c.s.world().bank {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

// ---- C09 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum InitDefect {
    Payer(u8),
    PayerNear(u8, u8),
    Unsign(u8),
    ReadOnly(u8),
    Cooldown(i64),
    XDecimals(u8),
    ODecimals(u8),
    XSupply(u64),
    XAuthority(u8),
    XFreeze(u8),
    XMintElsewhere,
    OMintElsewhere,
    MintOwner(u8),
    State(u8),
    Vault(u8),
    Program(u8, u8),
    /// the vault's address is taken: 0-3 by the vault itself (created by anyone, maybe funded)
    VaultExists(u8, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InitCase {
    salt: u8,
    cooldown: i64,
    auth_is_payer: bool,
    prefund: u64,
    now: i64,
    defects: Vec<InitDefect>,
    later: Vec<(u8, i64, u32)>,
}
fn initdefect() -> BoxedStrategy<InitDefect> {
    prop_oneof![
        3 => (0u8..4).prop_map(InitDefect::Payer),
        2 => (0u8..32, 0u8..8).prop_map(|(a, b)| InitDefect::PayerNear(a, b)),
        3 => (0u8..2).prop_map(InitDefect::Unsign),
        1 => (0u8..4).prop_map(InitDefect::ReadOnly),
        2 => prop_oneof![Just(-1i64), Just(i64::MIN), (1i64..=i64::MAX).prop_map(|x| -x)].prop_map(InitDefect::Cooldown),
        2 => prop_oneof![0u8..12, any::<u8>()].prop_map(InitDefect::XDecimals),
        2 => prop_oneof![0u8..12, any::<u8>()].prop_map(InitDefect::ODecimals),
        3 => prop_oneof![1 => Just(1u64), 2 => log_u64(), 2 => hist::round(64)].prop_map(InitDefect::XSupply),
        3 => (0u8..5).prop_map(InitDefect::XAuthority),
        2 => any::<u8>().prop_map(InitDefect::XFreeze),
        1 => Just(InitDefect::XMintElsewhere),
        1 => Just(InitDefect::OMintElsewhere),
        2 => (0u8..4).prop_map(InitDefect::MintOwner),
        3 => (0u8..4).prop_map(InitDefect::State),
        3 => (0u8..4).prop_map(InitDefect::Vault),
        1 => (0u8..3, 0u8..3).prop_map(|(a, b)| InitDefect::Program(a, b)),
        3 => (0u8..8, prop_oneof![Just(0u64), log_u64()]).prop_map(|(a, b)| InitDefect::VaultExists(a, b)),
    ]
    .boxed()
}
fn initcase(_t: bool) -> BoxedStrategy<InitCase> {
    (
        any::<u8>(),
        prop_oneof![Just(0i64), Just(i64::MAX), 0i64..10_000_000, 0..=i64::MAX],
        prop_oneof![4 => Just(false), 1 => Just(true)],
        prop_oneof![3 => Just(0u64), 1 => log_below(40), 1 => Just(rent_min(STATE_LEN))],
        0i64..2_000_000_000,
        prop_oneof![
            2 => Just(vec![]),
            5 => initdefect().prop_map(|d| vec![d]),
            1 => proptest::collection::vec(initdefect(), 2..3),
        ],
        proptest::collection::vec((0u8..8, any::<i64>(), 0u32..1000), 0..4),
    )
        .prop_map(|(salt, cooldown, auth_is_payer, prefund, now, defects, later)| InitCase {
            salt,
            cooldown,
            auth_is_payer,
            prefund,
            now,
            defects,
            later,
        })
        .boxed()
}

fn c09(c: &InitCase, st: &mut Stats) -> Check {
    let mut r = setup(c.salt, c.now, &[1 << 40, 1 << 40]);
    let au = if c.auth_is_payer { DEPLOYER } else { r.auths[0] };
    if c.prefund > 0 {
        r.bank.set(state(), wallet(c.prefund));
    }
    let mut ix = ix_init(&DEPLOYER, &au, c.cooldown);
    let fx = h(&[b"fx"]);
    let fo = h(&[b"fo2"]);
    for d in &c.defects {
        let b = &mut r.bank;
        let mint = |b: &mut Bank, k: Key, f: &dyn Fn(&mut Vec<u8>)| f(&mut b.accts.get_mut(&k).unwrap().data);
        match d {
            InitDefect::Payer(n) => ix.metas[0].key = [r.users[0], r.users[1], r.auths[1], au][*n as usize % 4],
            InitDefect::PayerNear(i, bit) => {
                let mut k = DEPLOYER;
                k[*i as usize % 32] ^= 1 << (bit % 8);
                b.set(k, wallet(RICH));
                ix.metas[0].key = k;
            }
            InitDefect::Unsign(n) => ix.metas[*n as usize % 2].signer = false,
            InitDefect::ReadOnly(n) => ix.metas[*n as usize % 4].writable = false,
            InitDefect::Cooldown(v) => ix.data[1..9].copy_from_slice(&v.to_le_bytes()),
            InitDefect::XDecimals(n) => mint(b, XORCA, &|d| d[44] = *n),
            InitDefect::ODecimals(n) => mint(b, ORCA, &|d| d[44] = *n),
            InitDefect::XSupply(n) => mint(b, XORCA, &|d| d[36..44].copy_from_slice(&n.to_le_bytes())),
            InitDefect::XAuthority(n) => {
                let k = [[0u8; 32], DEPLOYER, au, vault(), r.users[0]][*n as usize % 5];
                mint(b, XORCA, &|d| {
                    if k == [0; 32] {
                        d[0] = 0
                    } else {
                        d[4..36].copy_from_slice(&k)
                    }
                })
            }
            InitDefect::XFreeze(n) => mint(b, XORCA, &|d| {
                if n % 4 == 0 {
                    d[50..82].fill(*n | 1) // revoked: key left behind
                } else {
                    d[46] = 1;
                    d[50..82].fill(if n % 7 == 1 { 0 } else { *n | 1 })
                }
            }),
            InitDefect::XMintElsewhere => {
                let a = b.get(&XORCA);
                b.set(fx, a);
                ix.metas[4].key = fx;
            }
            InitDefect::OMintElsewhere => {
                let a = b.get(&ORCA);
                b.set(fo, a);
                ix.metas[5].key = fo;
                ix.metas[3].key = find_ata(&state(), &fo);
            }
            InitDefect::MintOwner(n) => {
                let k = if n % 2 == 0 { XORCA } else { ORCA };
                b.accts.get_mut(&k).unwrap().owner = if n / 2 == 0 { EVIL_PROGRAM } else { PROGRAM };
            }
            InitDefect::State(n) => {
                ix.metas[2].key = match n {
                    0 => other_bump(&[b"state"], state_pda().1),
                    1 => find_pda(&[b"State"], &PROGRAM).unwrap().0,
                    2 => find_pda(&[b"state"], &EVIL_PROGRAM).unwrap().0,
                    _ => r.users[1],
                }
            }
            InitDefect::Vault(n) => {
                ix.metas[3].key = match n {
                    0 => find_ata(&DEPLOYER, &ORCA),
                    1 => find_ata(&state(), &XORCA),
                    2 => find_pda(&[&state(), &TOKEN, &ORCA], &PROGRAM).unwrap().0,
                    _ => h(&[b"novault"]),
                }
            }
            InitDefect::Program(s, p) => {
                ix.metas[6 + *s as usize % 3].key = [EVIL_PROGRAM, PROGRAM, TOKEN][*p as usize % 3];
            }
            InitDefect::VaultExists(n, amt) => {
                let (owner, mint, wallet, trim) = match n {
                    4 => (EVIL_PROGRAM, ORCA, state(), 0),
                    5 => (TOKEN, XORCA, state(), 0),
                    6 => (TOKEN, ORCA, r.users[0], 0),
                    7 => (TOKEN, ORCA, state(), 1 + (*amt % 165) as usize),
                    _ => {
                        st.hit("vault exists already");
                        (TOKEN, ORCA, state(), 0)
                    }
                };
                let mut d = token_account(&mint, &wallet, *amt);
                d.truncate(165 - trim);
                b.set(vault(), acct(owner, d));
            }
        }
    }
    let mut verdict = |_: &Run, s: &Step, st: &mut Stats| -> Check {
        if let Err((_, f)) = &s.exp.res {
            if !s.res.ok() {
                for x in f {
                    st.hit(&format!("rejected: {}", x.what));
                }
            }
        }
        s.exact()
    };
    let ok = r.tx(vec![ix], 0, st, &mut verdict)?;
    st.hit(if ok { "initialised" } else { "refused" });
    if ok {
        // never again, whoever tries and whatever happened since
        for (i, (who, cd, dt)) in c.later.iter().enumerate() {
            r.bank.now += *dt as i64;
            let u = r.users[0];
            let before = r.bank.get(&state()).data;
            let again = match who {
                0 => vec![ix_init(&DEPLOYER, &au, *cd)],
                1 => vec![ix_init(&DEPLOYER, &r.auths[1], cd & i64::MAX)],
                2 => vec![ix_init(&u, &u, cd & i64::MAX)],
                3 => vec![ix_sol_transfer(&DEPLOYER, &state(), 5), ix_init(&DEPLOYER, &au, 1)],
                4 => {
                    let s = vec![ix_stake(&u, 1 + (*dt as u64))];
                    process_tx(&r.env, &mut r.bank, &s);
                    vec![ix_init(&DEPLOYER, &au, 7)]
                }
                5 => vec![ix_init(&DEPLOYER, &au, 0), ix_init(&DEPLOYER, &au, 0)],
                6 => {
                    r.bank.set(r.users[1], wallet(RICH));
                    vec![ix_init(&r.users[1], &au, 0)]
                }
                _ => vec![ix_set_cooldown(&au, 3), ix_init(&DEPLOYER, &r.auths[2], 9)],
            };
            let t = process_tx(&r.env, &mut r.bank, &again);
            st.hit("second initialisation attempted");
            if t.ok() {
                return Err(format!("second initialisation {} (attempt {i}, kind {who}) succeeded", desc(&again)));
            }
            let after = r.bank.get(&state()).data;
            if before != after {
                return Err("a rejected initialisation changed the state".into());
            }
        }
    } else if r.bank.accts.get(&state()).is_some_and(|a| !a.data.is_empty()) {
        return Err("state exists although initialisation was refused".into());
    }
    if !c.defects.is_empty() || !c.later.is_empty() {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

/// On an uninitialised ledger nothing but a proper initialise brings the state into existence.
fn c09h(h: &Hist, st: &mut Stats) -> Check {
    let r = hist::run(h, st, &mut |_, s, _| {
        if s.n == 0 {
            return s.exact();
        }
        if s.kinds().contains(&Some(Kind::Init)) && s.res.ok() {
            return Err(format!("{}: second initialisation accepted", s.desc()));
        }
        Ok(())
    })?;
    if h.ops.iter().any(|o| matches!(o, hist::Op::Reinit { .. })) {
        st.nontrivial(serde_json::to_string(h).unwrap(), || serde_json::to_value(h).unwrap());
    }
    let _ = r;
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "initialise instructions with 0-2 injected defects (payer, signatures, mints, addresses, cooldown, pre-funding), followed on success by re-initialisation attempts; plus re-initialisation inside generated histories; non-trivial = at least one defect or later attempt; distinct by full case",
            parts: vec![
                part("init", 1_500_000, 6_000_000, initcase, c09),
                part("history", 100_000, 2_000_000, |t| hist(Weights { adversary: 12, ..BALANCED }, if t { 4..60 } else { 4..30 }), c09h),
            ],
            must_hit: &["initialised", "vault exists already", "second initialisation attempted", "rejected: not the deployer", "rejected: missing signature", "rejected: xORCA mint authority", "rejected: xORCA freeze authority", "rejected: xORCA supply", "rejected: mint decimals", "rejected: negative cooldown", "rejected: vault address", "rejected: state address"],
            assumptions: TRUST,
        },
        Property {
            id: "C10",
            rule: "a valid instruction of each kind in a populated world (several users, claims, look-alike mints, vaults, states, claims, delegated and frozen accounts) with 1-3 changes: slot replaced from the pool, coordinated replacements, duplicates, swaps, dropped accounts, cleared flags, other index or amount; non-trivial = the instruction differs from the valid one; distinct by full case",
            parts: vec![part("substitution", 1_000_000, 24_000_000, adv, c10)],
            must_hit: &["accepted", "rejected", "accepted with substituted accounts, effect as defined"],
            assumptions: TRUST,
        },
        Property {
            id: "C13",
            rule: "arbitrary or perturbed instruction bytes, program ids and account lists with arbitrary contents (also at canonical addresses), lengths, owners, flags and duplicates; non-trivial = something differs from the valid base instruction or world; distinct by full case",
            parts: vec![part("wild", 1_000_000, 24_000_000, wild, c13)],
            must_hit: &["success", "program error", "complete instruction", "incomplete instruction", "account contents corrupted", "more than 64 accounts"],
            assumptions: TRUST,
        },
        Property {
            id: "C14",
            rule: "a valid instruction of each kind with exactly one defect; the admissible codes are those of the violated requirements in the reference semantics; non-trivial = the defect violates some requirement; distinct by full case. Client error enumeration: codes around and far from the documented range",
            parts: vec![
                part("defect", 1_000_000, 24_000_000, one, c14),
                part("client-codes", 5_000, 100_000, codes, c14n),
            ],
            must_hit: &["code 6000", "code 6001", "code 6002", "code 6003", "code 6004", "code 6005", "code 6006", "code 6007", "code 6008", "code 6009", "code 6010", "code 6011", "code 6013", "code 6014", "code 6015", "code 6016", "code 6017", "code 6018", "code 6019", "client: known code", "client: unknown code"],
            assumptions: TRUST,
        },
    ]
}
