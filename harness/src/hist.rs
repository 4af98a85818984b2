//! Generated transaction histories over the real program.

use crate::dict::lit;
use crate::runner::{Check, Stats};
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
    Abs(u64),
    /// n/65536 of the balance
    Frac(u16),
    All,
    AllPlus(u8),
    /// just around the smallest input that yields a result of k
    Round(u64, i8),
    /// one of the figures in play (escrow, vault, supply, backing, last amount, a claim, clock …)
    Figure(u8, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Stake { u: u8, a: Amt },
    Unstake { u: u8, a: Amt, idx: u8 },
    /// owner withdraws its c-th outstanding claim
    Withdraw { c: u8 },
    WithdrawIdx { u: u8, idx: u8 },
    /// somebody else signs for a claim
    Steal { thief: u8, c: u8, own_pda: bool },
    Donate { u: u8, a: Amt },
    BurnX { u: u8, a: Amt },
    XferX { u: u8, to: u8, a: Amt },
    Warp(u32),
    WarpTo { c: u8, d: i8 },
    /// who: 0 = current authority
    SetCd { who: u8, v: i64 },
    SetAuth { who: u8, to: u8 },
    Reinit { payer: u8, auth: u8, cd: i64 },
    Prefund { u: u8, idx: u8, lam: u64 },
    /// lamports to the address of an outstanding claim
    Revive { c: u8, lam: u64 },
    /// unstake onto the index of an outstanding claim
    Reuse { c: u8, a: Amt },
    Multi(Vec<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub salt: u8,
    pub now: i64,
    pub cooldown: i64,
    pub funds: Vec<u64>,
    pub ops: Vec<Op>,
    pub probe: u64,
}

#[derive(Clone, Debug)]
pub struct Claim {
    pub user: Key,
    pub idx: u8,
    pub addr: Key,
    pub data: Vec<u8>,
}
impl Claim {
    pub fn amount(&self) -> u64 {
        le64(&self.data, 40)
    }
    pub fn ts(&self) -> i64 {
        le64(&self.data, 48) as i64
    }
}

pub struct Run {
    pub env: Env,
    pub bank: Bank,
    pub users: Vec<Key>,
    pub auths: Vec<Key>,
    pub claims: Vec<Claim>,
    pub init_ok: bool,
    /// amount used last
    pub last: u64,
}

pub struct Step<'a> {
    pub pre: &'a Bank,
    pub post: &'a Bank,
    pub ixs: &'a [Ix],
    pub exp: &'a Expect,
    pub res: &'a TxResult,
    pub claims_before: &'a [Claim],
    pub n: usize,
}

impl Step<'_> {
    /// kinds of all program instructions, None if some bytes do not decode
    pub fn kinds(&self) -> Vec<Option<Kind>> {
        self.ixs.iter().filter(|i| i.program == PROGRAM).map(|i| kind_of(&i.data)).collect()
    }
    pub fn only(&self, ks: &[Kind]) -> bool {
        let k = self.kinds();
        !k.is_empty() && k.iter().all(|k| matches!(k, Some(k) if ks.contains(k)))
    }
    pub fn single(&self) -> Option<Kind> {
        if self.ixs.len() == 1 && self.ixs[0].program == PROGRAM {
            kind_of(&self.ixs[0].data)
        } else {
            None
        }
    }
    pub fn desc(&self) -> String {
        format!("tx #{} [{}] -> {:?}", self.n, desc(self.ixs), self.res.res)
    }
    /// acceptance and exact effect as specified; formal faults may or may not be rejected
    pub fn exact(&self) -> Check {
        match (&self.exp.res, &self.res.res) {
            (Ok(()), Err(e)) => Err(format!("{}: must succeed but was rejected: {e:?}", self.desc())),
            (Err((i, f)), Ok(())) if f.iter().any(|f| f.core) => {
                Err(format!("{}: must be rejected (ix {i}: {f:?}) but succeeded", self.desc()))
            }
            (_, Ok(())) => {
                let post = self.exp.post.as_ref().ok_or("no expected state")?;
                let d = diff(self.post, post);
                if d.is_empty() {
                    Ok(())
                } else {
                    Err(format!("{}: wrong effect: {}", self.desc(), show(&d)))
                }
            }
            (Err(_), Err(_)) => Ok(()),
        }
    }
}

pub fn kind_of(d: &[u8]) -> Option<Kind> {
    Some(match decode(d)? {
        crate::spec::Op::Stake(_) => Kind::Stake,
        crate::spec::Op::Unstake(..) => Kind::Unstake,
        crate::spec::Op::Withdraw(_) => Kind::Withdraw,
        crate::spec::Op::Init(_) => Kind::Init,
        crate::spec::Op::SetCd(_) => Kind::SetCd,
        crate::spec::Op::SetAuth(_) => Kind::SetAuth,
    })
}

pub fn desc(ixs: &[Ix]) -> String {
    ixs.iter()
        .map(|i| {
            if i.program != PROGRAM {
                return format!("{}:{:?}", if i.program == TOKEN { "token" } else { "system" }, i.data);
            }
            match decode(&i.data) {
                None => format!("undecodable {:?}", i.data),
                Some(crate::spec::Op::Stake(x)) => format!("stake {x}"),
                Some(crate::spec::Op::Unstake(x, n)) => format!("unstake {x} #{n}"),
                Some(crate::spec::Op::Withdraw(n)) => format!("withdraw #{n}"),
                Some(crate::spec::Op::Init(c)) => format!("initialize {c}"),
                Some(crate::spec::Op::SetCd(c)) => format!("set cooldown {c}"),
                Some(crate::spec::Op::SetAuth(k)) => format!("set authority {}", name(&k)),
            }
        })
        .collect::<Vec<_>>()
        .join(", ")
}

impl Run {
    pub fn n(&self) -> u64 {
        vault_amt(&self.bank).wrapping_sub(escrow(&self.bank))
    }
    pub fn amt(&self, a: &Amt, bal: u64, to_x: bool) -> u64 {
        match a {
            Amt::Abs(x) => *x,
            Amt::Frac(f) => ((bal as u128 * *f as u128) >> 16) as u64,
            Amt::All => bal,
            Amt::AllPlus(k) => bal.saturating_add(*k as u64),
            Amt::Round(k, d) => {
                let (n, s) = (self.n() as u128 + 100, supply(&self.bank) as u128 + 100);
                let (num, den) = if to_x { (n, s) } else { (s, n) };
                let x = (*k as u128 * num).div_ceil(den);
                (x as i128 + *d as i128).clamp(0, u64::MAX as i128) as u64
            }
            Amt::Figure(f, d) => {
                let x = match f % 10 {
                    0 => escrow(&self.bank),
                    1 => vault_amt(&self.bank),
                    2 => supply(&self.bank),
                    3 => self.n(),
                    4 => self.last,
                    5 => self.claims.first().map(|c| c.amount()).unwrap_or(0),
                    6 => self.claims.last().map(|c| c.amount()).unwrap_or(0),
                    7 => cooldown(&self.bank) as u64,
                    8 => self.bank.now as u64,
                    _ => bal / 2,
                };
                x.saturating_add_signed(*d as i64)
            }
        }
    }
    fn u(&self, i: u8) -> Key {
        self.users[i as usize % self.users.len()]
    }
    fn claim(&self, c: u8) -> Option<&Claim> {
        if self.claims.is_empty() {
            None
        } else {
            Some(&self.claims[c as usize % self.claims.len()])
        }
    }
    fn who(&self, w: u8) -> Key {
        match w {
            0..=3 => authority(&self.bank),
            4 => self.u(0),
            5 => DEPLOYER,
            w => self.auths[w as usize % self.auths.len()],
        }
    }
    fn build(&self, op: &Op, out: &mut Vec<Ix>) {
        match op {
            Op::Stake { u, a } => {
                let u = self.u(*u);
                out.push(ix_stake(&u, self.amt(a, tok_amount(&self.bank, &orca_acct(&u)), true)));
            }
            Op::Unstake { u, a, idx } => {
                let u = self.u(*u);
                out.push(ix_unstake(&u, self.amt(a, tok_amount(&self.bank, &xorca_acct(&u)), false), *idx));
            }
            Op::Withdraw { c } => match self.claim(*c) {
                Some(cl) => out.push(ix_withdraw(&cl.user, cl.idx)),
                None => out.push(ix_withdraw(&self.u(*c), c % 3)),
            },
            Op::WithdrawIdx { u, idx } => out.push(ix_withdraw(&self.u(*u), *idx)),
            Op::Steal { thief, c, own_pda } => {
                let t = self.u(*thief);
                let (owner, idx) = match self.claim(*c) {
                    Some(cl) => (cl.user, cl.idx),
                    None => (self.u(thief.wrapping_add(1)), 0),
                };
                let mut ix = ix_withdraw(&t, idx);
                if !own_pda {
                    ix.metas[2].key = pw(&owner, idx);
                }
                out.push(ix);
            }
            Op::Donate { u, a } => {
                let u = self.u(*u);
                let n = self.amt(a, tok_amount(&self.bank, &orca_acct(&u)), true);
                out.push(ix_tok_transfer(orca_acct(&u), vault(), &u, n));
            }
            Op::BurnX { u, a } => {
                let u = self.u(*u);
                let n = self.amt(a, tok_amount(&self.bank, &xorca_acct(&u)), false);
                out.push(ix_tok_burn(xorca_acct(&u), XORCA, &u, n));
            }
            Op::XferX { u, to, a } => {
                let (u, t) = (self.u(*u), self.u(*to));
                let n = self.amt(a, tok_amount(&self.bank, &xorca_acct(&u)), false);
                out.push(ix_tok_transfer(xorca_acct(&u), xorca_acct(&t), &u, n));
            }
            Op::SetCd { who, v } => out.push(ix_set_cooldown(&self.who(*who), *v)),
            Op::SetAuth { who, to } => {
                out.push(ix_set_authority(&self.who(*who), &self.auths[*to as usize % self.auths.len()]))
            }
            Op::Reinit { payer, auth, cd } => {
                let p = if *payer < 4 { DEPLOYER } else { self.u(*payer) };
                out.push(ix_init(&p, &self.auths[*auth as usize % self.auths.len()], *cd))
            }
            Op::Prefund { u, idx, lam } => {
                out.push(ix_sol_transfer(&DEPLOYER, &pw(&self.u(*u), *idx), *lam))
            }
            Op::Revive { c, lam } => {
                if let Some(cl) = self.claim(*c) {
                    let from = if lam % 2 == 0 { cl.user } else { DEPLOYER };
                    out.push(ix_sol_transfer(&from, &cl.addr, *lam))
                }
            }
            Op::Reuse { c, a } => {
                let (u, idx) = match self.claim(*c) {
                    Some(cl) => (cl.user, cl.idx),
                    None => (self.u(*c), 0),
                };
                out.push(ix_unstake(&u, self.amt(a, tok_amount(&self.bank, &xorca_acct(&u)), false), idx));
            }
            Op::Multi(v) => {
                for o in v {
                    self.build(o, out)
                }
            }
            Op::Warp(_) | Op::WarpTo { .. } => {}
        }
    }

    /// Executes one transaction and informs the observer.
    pub fn tx(
        &mut self,
        ixs: Vec<Ix>,
        n: usize,
        st: &mut Stats,
        obs: &mut dyn FnMut(&Run, &Step, &mut Stats) -> Check,
    ) -> Result<bool, String> {
        let pre = self.bank.clone();
        let exp = expect_tx(&pre, &ixs);
        let res = process_tx(&self.env, &mut self.bank, &ixs);
        let before = self.claims.clone();
        if res.ok() {
            st.hit("tx ok");
            for ix in ixs.iter().filter(|i| i.program == PROGRAM) {
                match decode(&ix.data) {
                    Some(crate::spec::Op::Unstake(_, idx)) if ix.metas.len() > 2 => {
                        st.hit("unstake ok");
                        let addr = ix.metas[2].key;
                        self.claims.retain(|c| c.addr != addr);
                        self.claims.push(Claim {
                            user: ix.metas[0].key,
                            idx,
                            addr,
                            data: self.bank.get(&addr).data,
                        });
                    }
                    Some(crate::spec::Op::Withdraw(_)) if ix.metas.len() > 2 => {
                        st.hit("withdraw ok");
                        let addr = ix.metas[2].key;
                        self.claims.retain(|c| c.addr != addr);
                    }
                    Some(crate::spec::Op::Stake(_)) => st.hit("stake ok"),
                    Some(crate::spec::Op::Init(_)) => st.hit("init ok"),
                    Some(_) => st.hit("set ok"),
                    None => {}
                }
            }
        } else {
            st.hit("tx rejected");
        }
        let step = Step {
            pre: &pre,
            post: &self.bank,
            ixs: &ixs,
            exp: &exp,
            res: &res,
            claims_before: &before,
            n,
        };
        obs(self, &step, st)?;
        Ok(res.ok())
    }
}

/// Fresh world with wallets; nothing initialised.
pub fn setup(salt: u8, now: i64, funds: &[u64]) -> Run {
    let mut bank = base_bank(now);
    let users: Vec<Key> = (0..funds.len() as u8).map(|i| user(salt, i)).collect();
    let auths: Vec<Key> = (0..3).map(|i| auth(salt, i)).collect();
    for (u, f) in users.iter().zip(funds) {
        add_user(&mut bank, u, *f, 0);
        // now and then a wallet is another program's account, or carries data (a nonce account): it
        // can stake and withdraw, but not pay rent for others
        match u[3] % 24 {
            5 => bank.accts.get_mut(u).unwrap().owner = EVIL_PROGRAM,
            6 => {
                let a = bank.accts.get_mut(u).unwrap();
                a.data = vec![u[4]; 80];
            }
            _ => {}
        }
        // and some are poor: rent for a handful of claims, or hardly that
        if u[5] % 5 == 2 {
            bank.accts.get_mut(u).unwrap().lamports = rent_min(PW_LEN) * (u[6] % 8) as u64 + u[7] as u64 * 4_000;
        }
    }
    for a in &auths {
        bank.set(*a, wallet(RICH));
        // so may an authority be: a vault of a multisig program, say
        match a[3] % 12 {
            5 | 7 => bank.accts.get_mut(a).unwrap().owner = EVIL_PROGRAM,
            6 => {
                let x = bank.accts.get_mut(a).unwrap();
                x.data = vec![a[4]; 80];
            }
            _ => {}
        }
    }
    Run {
        env: env(),
        bank,
        users,
        auths,
        claims: vec![],
        init_ok: false,
        last: 0,
    }
}

/// In some histories the deployer stakes, or an authority is a staker or the deployer.
fn roles(r: &mut Run, h: &Hist) {
    if h.salt % 8 == 5 {
        let k = r.users.len() - 1;
        r.users[k] = DEPLOYER;
        add_user(&mut r.bank, &DEPLOYER, h.funds[k], 0);
    }
    let k = (h.salt >> 3) as usize;
    match h.salt % 8 {
        3 => r.auths[k % 3] = r.users[k % r.users.len()],
        6 => r.auths[k % 3] = DEPLOYER,
        7 => {
            r.auths[0] = r.users[0];
            r.auths[1] = DEPLOYER;
        }
        _ => {}
    }
}

/// Runs the history from the initialise transaction on, calling `obs` after every transaction.
pub fn run(h: &Hist, st: &mut Stats, obs: &mut dyn FnMut(&Run, &Step, &mut Stats) -> Check) -> Result<Run, String> {
    let mut r = setup(h.salt, h.now, &h.funds);
    roles(&mut r, h);
    if h.salt % 5 == 2 {
        // somebody creates the vault (and maybe sends ORCA to it) before the deployment
        let u = r.users[0];
        let gift = if h.salt & 8 == 0 { 0 } else { h.probe.min(tok_amount(&r.bank, &orca_acct(&u))) };
        let ata = Ix {
            program: ATA,
            data: vec![1],
            metas: vec![
                m(DEPLOYER, true, true),
                m(vault(), false, true),
                m(state(), false, false),
                m(ORCA, false, false),
                m(SYSTEM, false, false),
                m(TOKEN, false, false),
            ],
        };
        let t = process_tx(&r.env, &mut r.bank, &[ata, ix_tok_transfer(orca_acct(&u), vault(), &u, gift)]);
        if !t.ok() {
            return Err(format!("harness: cannot create the vault account: {:?}", t.res));
        }
        st.hit("vault created before the deployment");
    }
    let init = ix_init(&DEPLOYER, &r.auths[0], h.cooldown);
    r.init_ok = r.tx(vec![init], 0, st, obs)?;
    if !r.init_ok {
        // keep the other properties observable if initialisation itself is broken
        let a = r.auths[0];
        inject(&mut r.bank, 0, 0, 0, h.cooldown, &a);
    }
    for (i, op) in h.ops.iter().enumerate() {
        match op {
            Op::Warp(s) => r.bank.now = r.bank.now.saturating_add(*s as i64),
            Op::WarpTo { c, d } => {
                if let Some(cl) = r.claim(*c) {
                    let t = cl.ts().saturating_add(*d as i64);
                    r.bank.now = r.bank.now.max(t);
                    st.hit("warp to maturity");
                }
            }
            _ => {
                let mut ixs = vec![];
                r.build(op, &mut ixs);
                if let Some(i) = ixs.iter().rev().find(|i| i.program == PROGRAM && i.data[0] < 2) {
                    r.last = le64(&i.data, 1);
                }
                if !ixs.is_empty() {
                    r.tx(ixs, i + 1, st, obs)?;
                }
            }
        }
    }
    Ok(r)
}

/// Program-owned accounts that look like outstanding claims.
pub fn onchain_claims(b: &Bank) -> Vec<(Key, u64)> {
    b.accts
        .iter()
        .filter(|(_, a)| a.owner == PROGRAM && a.data.len() == PW_LEN && a.data[0] == 2)
        .map(|(k, a)| (*k, le64(&a.data, 40)))
        .collect()
}

// ---- generators ------------------------------------------------------------------------------

/// log-uniform u64
pub fn log_u64() -> BoxedStrategy<u64> {
    log_below(64)
}
/// log-uniform below 2^bits, sometimes a number the sources mention
pub fn log_below(bits: u32) -> BoxedStrategy<u64> {
    prop_oneof![
        11 => (0u32..=bits, any::<u64>()).prop_map(|(b, x)| if b == 0 { 0 } else { (x >> (64 - b)) | (1u64 << (b - 1)) }),
        1 => lit().prop_map(move |x| if bits < 64 { x & ((1u64 << bits) - 1) } else { x }),
        1 => round(bits),
    ]
    .boxed()
}

/// a number with few significant bits (its low bits are all zero), or few significant digits
pub fn round(bits: u32) -> BoxedStrategy<u64> {
    let cut = move |x: u64| if bits < 64 { x & ((1u64 << bits) - 1) } else { x };
    prop_oneof![
        4 => (1u64..16, 0u32..64).prop_map(move |(m, s)| cut(m << s)),
        1 => (1u64..100, 0u32..18).prop_map(move |(m, e)| cut(m * 10u64.pow(e))),
    ]
    .boxed()
}

pub fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => log_u64().prop_map(Amt::Abs),
        3 => (0u64..300).prop_map(Amt::Abs),
        4 => any::<u16>().prop_map(Amt::Frac),
        2 => Just(Amt::All),
        1 => (1u8..3).prop_map(Amt::AllPlus),
        3 => (prop_oneof![0u64..5, log_below(40)], -2i8..3).prop_map(|(k, d)| Amt::Round(k, d)),
        2 => (0u8..10, prop_oneof![2 => Just(0i8), 1 => -1i8..2]).prop_map(|(f, d)| Amt::Figure(f, d)),
    ]
    .boxed()
}
pub fn idx() -> BoxedStrategy<u8> {
    prop_oneof![4 => 0u8..3, 1 => Just(254u8), 1 => Just(255u8), 2 => any::<u8>()].boxed()
}
pub fn cooldown_v() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => Just(0i64),
        3 => 1i64..100,
        2 => Just(7 * 86400i64),
        1 => any::<i64>(),
        1 => lit().prop_map(|v| v as i64),
        1 => Just(i64::MAX),
        1 => Just(-1i64),
    ]
    .boxed()
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub stake: u32,
    pub unstake: u32,
    pub withdraw: u32,
    pub adversary: u32,
    pub market: u32,
    pub clock: u32,
    pub admin: u32,
    pub multi: u32,
}
pub const BALANCED: Weights = Weights {
    stake: 8,
    unstake: 8,
    withdraw: 7,
    adversary: 3,
    market: 5,
    clock: 7,
    admin: 2,
    multi: 4,
};

fn simple(w: Weights) -> BoxedStrategy<Op> {
    let u = 0u8..4;
    prop_oneof![
        w.stake => (u.clone(), amt()).prop_map(|(u, a)| Op::Stake { u, a }),
        w.unstake => (u.clone(), amt(), idx()).prop_map(|(u, a, idx)| Op::Unstake { u, a, idx }),
        w.withdraw => any::<u8>().prop_map(|c| Op::Withdraw { c }),
        w.adversary => prop_oneof![
            (u.clone(), idx()).prop_map(|(u, idx)| Op::WithdrawIdx { u, idx }),
            (u.clone(), any::<u8>(), any::<bool>()).prop_map(|(thief, c, own_pda)| Op::Steal { thief, c, own_pda }),
            (any::<u8>(), amt()).prop_map(|(c, a)| Op::Reuse { c, a }),
            (u.clone(), idx(), prop_oneof![Just(0u64), Just(890880), Just(8_017_919), Just(8_017_920), log_below(40)])
                .prop_map(|(u, idx, lam)| Op::Prefund { u, idx, lam }),
            (0u8..8, 0u8..3, cooldown_v()).prop_map(|(payer, auth, cd)| Op::Reinit { payer, auth, cd }),
        ],
        w.market => prop_oneof![
            2 => (u.clone(), amt()).prop_map(|(u, a)| Op::Donate { u, a }),
            1 => (u.clone(), amt()).prop_map(|(u, a)| Op::BurnX { u, a }),
            1 => (u.clone(), u.clone(), amt()).prop_map(|(u, to, a)| Op::XferX { u, to, a }),
        ],
        w.clock => prop_oneof![
            2 => (any::<u8>(), -1i8..=1).prop_map(|(c, d)| Op::WarpTo { c, d }),
            1 => (0u32..200).prop_map(Op::Warp),
            1 => any::<u32>().prop_map(Op::Warp),
            1 => lit().prop_map(|v| Op::Warp(v.min(u32::MAX as u64) as u32)),
        ],
        w.admin => prop_oneof![
            3 => (0u8..9, cooldown_v()).prop_map(|(who, v)| Op::SetCd { who, v }),
            2 => (0u8..9, 0u8..3).prop_map(|(who, to)| Op::SetAuth { who, to }),
        ],
    ]
    .boxed()
}

fn multi(w: Weights) -> BoxedStrategy<Op> {
    let lam = prop_oneof![Just(890_881u64), Just(8_017_920u64), Just(8_017_921u64), log_below(36)];
    prop_oneof![
        1 => any::<u8>().prop_map(|c| Op::Multi(vec![Op::Withdraw { c }, Op::Withdraw { c }])),
        1 => (any::<u8>(), lam.clone()).prop_map(|(c, lam)| Op::Multi(vec![
            Op::Withdraw { c },
            Op::Revive { c, lam },
            Op::Withdraw { c }
        ])),
        1 => (any::<u8>(), lam, amt()).prop_map(|(c, lam, a)| Op::Multi(vec![
            Op::Withdraw { c },
            Op::Revive { c, lam },
            Op::Reuse { c, a }
        ])),
        1 => (any::<u8>(), amt()).prop_map(|(c, a)| Op::Multi(vec![Op::Withdraw { c }, Op::Reuse { c, a }])),
        1 => (0u8..4, idx(), amt()).prop_map(|(u, idx, a)| Op::Multi(vec![
            Op::Unstake { u, a, idx },
            Op::WithdrawIdx { u, idx }
        ])),
        1 => (0u8..4, idx(), amt(), idx()).prop_map(|(u, i, a, j)| Op::Multi(vec![
            Op::Unstake { u, a: a.clone(), idx: i },
            Op::Unstake { u, a, idx: j },
        ])),
        3 => proptest::collection::vec(simple(w), 2..5).prop_map(Op::Multi),
    ]
    .boxed()
}

pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let tot = w.stake + w.unstake + w.withdraw + w.adversary + w.market + w.clock + w.admin;
    prop_oneof![tot => simple(w), w.multi => multi(w)].boxed()
}

pub fn hist(w: Weights, len: std::ops::Range<usize>) -> BoxedStrategy<Hist> {
    // funds share a scale so that users interact; total stays below 2^64
    let funds = (4u32..=62, proptest::collection::vec(any::<u64>(), 1..=4))
        .prop_map(|(b, v)| v.into_iter().map(|x| x >> (64 - b)).collect::<Vec<_>>());
    (
        any::<u8>(),
        prop_oneof![4 => Just(1_750_000_000i64), 1 => 0i64..2_000_000_000, 1 => Just(i64::MAX - 50)],
        prop_oneof![4 => Just(0i64), 4 => 1i64..100, 2 => Just(604_800i64), 1 => log_below(63).prop_map(|v| v as i64), 1 => lit().prop_map(|v| v as i64 & i64::MAX)],
        funds,
        (
            prop_oneof![
                1 => Just(vec![]),
                3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| vec![
                    Op::Stake { u: 0, a: Amt::Frac(a) },
                    Op::Stake { u: 1, a: Amt::Frac(b) }
                ]),
            ],
            proptest::collection::vec(op(w), len),
        )
            .prop_map(|(mut p, o)| {
                p.extend(o);
                p
            }),
        any::<u64>(),
    )
        .prop_map(|(salt, now, cooldown, funds, ops, probe)| Hist {
            salt,
            now,
            cooldown,
            funds,
            ops,
            probe,
        })
        .boxed()
}
