//! Independent reference semantics of the five instructions, byte-exact over whole accounts.
//! Written from the property statements; shares no code with the program.

use crate::svm::*;
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Stake,
    Unstake,
    Withdraw,
    Init,
    SetCd,
    SetAuth,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Fault {
    /// documented error code, 0 if the failure comes from the runtime or another program
    pub code: u32,
    /// true: the signer is not entitled to any effect; false: merely a malformed call
    pub core: bool,
    pub what: &'static str,
}

pub struct Analysis {
    pub kind: Option<Kind>,
    pub faults: Vec<Fault>,
    pub writes: Vec<(Key, Acct)>,
    pub event: Option<Vec<u8>>,
}

pub enum Op {
    Stake(u64),
    Unstake(u64, u8),
    Withdraw(u8),
    Init(i64),
    SetCd(i64),
    SetAuth(Key),
}

/// The complete instruction at the front of `d`, if there is one.
pub fn decode(d: &[u8]) -> Option<Op> {
    let g = |o: usize| -> Option<u64> { d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) };
    match *d.first()? {
        0 => Some(Op::Stake(g(1)?)),
        1 => Some(Op::Unstake(g(1)?, *d.get(9)?)),
        2 => Some(Op::Withdraw(*d.get(1)?)),
        3 => Some(Op::Init(g(1)? as i64)),
        4 => match *d.get(1)? {
            0 => Some(Op::SetCd(g(2)? as i64)),
            1 => Some(Op::SetAuth(d.get(2..34)?.try_into().unwrap())),
            _ => None,
        },
        _ => None,
    }
}

/// floor(a*b/c) if the product fits 128 bits and the quotient 64 bits
pub fn muldiv(a: u64, b: u128, c: u128) -> Option<u64> {
    (a as u128).checked_mul(b).map(|p| p / c).and_then(|q| u64::try_from(q).ok())
}
pub fn to_xorca(x: u64, n: u64, s: u64) -> Option<u64> {
    if n == 0 || s == 0 {
        Some(x)
    } else {
        muldiv(x, s as u128 + 100, n as u128 + 100)
    }
}
pub fn to_orca(x: u64, n: u64, s: u64) -> Option<u64> {
    if n == 0 || s == 0 {
        None
    } else {
        muldiv(x, n as u128 + 100, s as u128 + 100)
    }
}

struct Tok {
    mint: Key,
    owner: Key,
    amount: u64,
    frozen: bool,
}
fn tok(a: &Acct) -> Option<Tok> {
    if a.data.len() != 165 || !(a.data[108] == 1 || a.data[108] == 2) {
        return None;
    }
    Some(Tok {
        mint: a.data[0..32].try_into().unwrap(),
        owner: a.data[32..64].try_into().unwrap(),
        amount: le64(&a.data, 64),
        frozen: a.data[108] == 2,
    })
}

struct An<'a> {
    work: &'a BTreeMap<Key, Acct>,
    ix: &'a Ix,
    faults: Vec<Fault>,
    out: BTreeMap<Key, Acct>,
}

impl<'a> An<'a> {
    fn key(&self, i: usize) -> Key {
        self.ix.metas[i].key
    }
    fn acc(&self, i: usize) -> &'a Acct {
        &self.work[&self.ix.metas[i].key]
    }
    fn core(&mut self, bad: bool, code: u32, what: &'static str) {
        if bad {
            self.faults.push(Fault { code, core: true, what });
        }
    }
    fn form(&mut self, bad: bool, code: u32, what: &'static str) {
        if bad {
            self.faults.push(Fault { code, core: false, what });
        }
    }
    fn signer(&mut self, i: usize) {
        self.core(!self.ix.metas[i].signer, 6002, "missing signature");
    }
    fn writable(&mut self, i: usize) {
        self.form(!self.ix.metas[i].writable, 6002, "not writable");
    }
    fn state_ok(&mut self, i: usize) {
        let a = self.acc(i);
        self.core(a.owner != PROGRAM, 6004, "state owner");
        if a.owner == PROGRAM {
            let bad = a.data.len() < STATE_LEN || a.data[0] != 1;
            self.core(bad, 6007, "state data");
        }
        let k = self.key(i);
        self.core(k != state(), 6005, "state address");
        // seen from that account the vault and the mint authority are wrong
        self.core(k != state(), 6007, "vault or mint of another state");
    }
    fn vault_ok(&mut self, i: usize) {
        let a = self.acc(i);
        self.core(a.owner != TOKEN, 6004, "vault owner program");
        match tok(a) {
            None => self.core(true, 6007, "vault data"),
            Some(t) => self.core(t.owner != state() || t.mint != ORCA, 6007, "vault owner/mint"),
        }
        let k = self.key(i);
        self.core(k != vault(), 6005, "vault address");
    }
    fn user_tok(&mut self, i: usize, owner: &Key, mint: &Key, need: Option<u64>) {
        let a = self.acc(i);
        self.core(a.owner != TOKEN, 6004, "token account owner program");
        match tok(a) {
            None => self.core(true, 6007, "token account data"),
            Some(t) => {
                self.core(t.owner != *owner || t.mint != *mint, 6007, "token account owner/mint");
                self.core(t.frozen, 0, "frozen");
                if let Some(n) = need {
                    self.core(t.amount < n, 6009, "insufficient token balance");
                }
            }
        }
    }
    fn put(&mut self, k: Key) -> &mut Acct {
        let w = self.work;
        self.out.entry(k).or_insert_with(|| w[&k].clone())
    }
    fn add_tok(&mut self, k: Key, plus: u64, minus: u64) {
        let a = self.put(k);
        if a.data.len() < 72 {
            return;
        }
        let n = le64(&a.data, 64) as i128 + plus as i128 - minus as i128;
        let bad = n < 0 || n > u64::MAX as i128;
        a.data[64..72].copy_from_slice(&(n as u64).to_le_bytes());
        self.core(bad, 0, "token amount out of range");
    }
    fn add_supply(&mut self, plus: u64, minus: u64) {
        let a = self.put(XORCA);
        if a.data.len() < 82 {
            return;
        }
        let n = le64(&a.data, 36) as i128 + plus as i128 - minus as i128;
        let bad = n < 0 || n > u64::MAX as i128;
        a.data[36..44].copy_from_slice(&(n as u64).to_le_bytes());
        self.core(bad, 0, "supply out of range");
    }
    fn set_escrow(&mut self, v: u64) {
        self.put(state()).data[8..16].copy_from_slice(&v.to_le_bytes());
    }
    /// payer tops `k` up to the rent minimum of `len`
    fn fund(&mut self, payer: Key, k: Key, len: usize) {
        let have = self.work[&k].lamports;
        let need = rent_min(len).saturating_sub(have);
        let p = self.put(payer);
        let able = p.owner == SYSTEM && p.data.is_empty();
        let ok = need == 0 || (able && p.lamports >= need);
        if ok {
            p.lamports -= need;
        }
        self.core(!ok, 0, "payer cannot fund rent");
        // a transfer of nothing fails as well, but is not needed
        self.form(need == 0 && !able, 0, "payer cannot pay");
        self.put(k).lamports += need;
    }
    fn count(&mut self, n: usize) -> bool {
        let bad = self.ix.metas.len() < n;
        self.core(bad, 6003, "not enough accounts");
        bad
    }
    fn orca_mint(&mut self, i: usize) {
        let k = self.key(i);
        self.form(k != ORCA, 6006, "ORCA mint address");
        // seen from that mint the vault and the ORCA accounts are wrong
        self.form(k != ORCA, 6007, "token accounts of another ORCA mint");
        self.form(k != ORCA, 6005, "vault of another ORCA mint");
        let a = self.acc(i);
        self.form(k == ORCA && a.owner != TOKEN, 6004, "ORCA mint owner");
    }
    fn prog(&mut self, i: usize, p: Key) {
        let k = self.key(i);
        self.form(k != p, 6006, "program address");
    }
    fn xorca_mint(&mut self, i: usize) {
        let k = self.key(i);
        self.core(k != XORCA, 6006, "xORCA mint address");
        self.core(k != XORCA, 6007, "token accounts of another xORCA mint");
        let a = self.acc(i);
        if k == XORCA {
            self.core(a.owner != TOKEN, 6004, "xORCA mint owner");
            self.core(a.data.len() < 82, 6007, "xORCA mint data");
            self.core(a.data.len() > 82, 0, "xORCA mint too long");
        }
        self.writable(i);
    }
}

fn ev(tag: u8, parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![tag];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}

/// Evaluates one staking-program instruction against the accounts in `work`.
pub fn analyze(work: &BTreeMap<Key, Acct>, now: i64, ix: &Ix) -> Analysis {
    let mut a = An {
        work,
        ix,
        faults: vec![],
        out: BTreeMap::new(),
    };
    let mut kind = None;
    let mut event = None;
    match decode(&ix.data) {
        None => a.core(true, 6000, "undecodable instruction"),
        Some(Op::Stake(x)) => {
            kind = Some(Kind::Stake);
            if !a.count(8) {
                let u = a.key(0);
                a.signer(0);
                a.writable(0);
                a.vault_ok(1);
                a.writable(1);
                a.user_tok(2, &u, &ORCA, Some(x));
                a.writable(2);
                a.user_tok(3, &u, &XORCA, None);
                a.writable(3);
                a.xorca_mint(4);
                a.state_ok(5);
                a.orca_mint(6);
                a.prog(7, TOKEN);
                if !a.faults.iter().any(|f| f.core && f.code != 6009 && f.code != 0 && f.code != 6002) {
                    let (v, s) = (le64(&a.acc(1).data, 64), le64(&a.acc(4).data, 36));
                    let e = le64(&a.acc(5).data, 8);
                    let auth_ok = a.acc(4).data[0] == 1 && a.acc(4).data[4..36] == state();
                    a.core(!auth_ok, 0, "mint authority is not the state");
                    if e > v {
                        a.core(true, 6018, "vault < escrow");
                    } else {
                        match to_xorca(x, v - e, s) {
                            None => a.core(true, 6008, "overflow"),
                            Some(0) => a.core(true, 6014, "zero mint"),
                            Some(out) => {
                                let (ua, xa) = (a.key(2), a.key(3));
                                a.add_tok(ua, 0, x);
                                a.add_tok(vault(), x, 0);
                                a.add_tok(xa, out, 0);
                                a.add_supply(out, 0);
                                event = Some(ev(
                                    0,
                                    &[
                                        &x.to_le_bytes(),
                                        &v.wrapping_add(x).to_le_bytes(),
                                        &e.to_le_bytes(),
                                        &s.wrapping_add(out).to_le_bytes(),
                                        &out.to_le_bytes(),
                                    ],
                                ));
                            }
                        }
                    }
                }
            }
        }
        Some(Op::Unstake(x, idx)) => {
            kind = Some(Kind::Unstake);
            if !a.count(9) {
                let u = a.key(0);
                a.signer(0);
                a.writable(0);
                a.state_ok(1);
                a.writable(1);
                a.writable(2);
                let (pk, pbump) = pw_pda(&u, idx);
                let k2 = a.key(2);
                a.core(k2 != pk, 6005, "pending-withdraw address");
                let owner_bad = a.acc(2).owner != SYSTEM;
                a.core(owner_bad, 6004, "pending-withdraw already in use");
                let nonempty = !owner_bad && !a.acc(2).data.is_empty();
                a.core(nonempty, 0, "pending-withdraw carries data");
                a.user_tok(3, &u, &XORCA, Some(x));
                a.writable(3);
                a.xorca_mint(4);
                a.orca_mint(5);
                a.vault_ok(6);
                a.prog(7, SYSTEM);
                a.prog(8, TOKEN);
                if a.key(4) == XORCA && a.acc(4).data.len() == 82 {
                    let md = &a.acc(4).data;
                    let bad = md[0] != 1 || md[4..36] != state() || md[46..50] != [0; 4];
                    a.core(bad, 6007, "xORCA mint authorities");
                }
                if !a.faults.iter().any(|f| f.core && f.code != 6009 && f.code != 0 && f.code != 6002) {
                    let (v, s) = (le64(&a.acc(6).data, 64), le64(&a.acc(4).data, 36));
                    let sd = &a.acc(1).data;
                    let (e, cd) = (le64(sd, 8), le64(sd, 16) as i64);
                    if e > v {
                        a.core(true, 6018, "vault < escrow");
                    } else {
                        match to_orca(x, v - e, s) {
                            None => a.core(true, 6008, "overflow or undefined"),
                            Some(0) => a.core(true, 6015, "zero claim"),
                            Some(w) => {
                                let ts = now.checked_add(cd);
                                a.core(ts.is_none(), 6017, "maturity overflow");
                                a.core(e.checked_add(w).is_none(), 6008, "escrow overflow");
                                let ne = e.wrapping_add(w);
                                let xa = a.key(3);
                                a.add_tok(xa, 0, x);
                                a.add_supply(0, x);
                                a.set_escrow(ne);
                                a.fund(u, pk, PW_LEN);
                                let p = a.put(pk);
                                p.owner = PROGRAM;
                                p.data = pw_bytes(&u, idx, pbump, w, ts.unwrap_or(0));
                                event = Some(ev(
                                    1,
                                    &[
                                        &x.to_le_bytes(),
                                        &v.to_le_bytes(),
                                        &ne.to_le_bytes(),
                                        &s.wrapping_sub(x).to_le_bytes(),
                                        &w.to_le_bytes(),
                                        &cd.to_le_bytes(),
                                        &[idx],
                                    ],
                                ));
                            }
                        }
                    }
                }
            }
        }
        Some(Op::Withdraw(idx)) => {
            kind = Some(Kind::Withdraw);
            if !a.count(8) {
                let u = a.key(0);
                a.signer(0);
                a.writable(0);
                a.state_ok(1);
                a.writable(1);
                let (pk, _) = pw_pda(&u, idx);
                let pa = a.acc(2);
                a.core(pa.owner != PROGRAM, 6004, "pending-withdraw owner");
                if pa.owner == PROGRAM {
                    a.core(pa.data.len() < PW_LEN || pa.data[0] != 2, 6007, "pending-withdraw data");
                }
                let k2 = a.key(2);
                a.core(k2 != pk, 6005, "pending-withdraw address");
                a.writable(2);
                a.user_tok(3, &u, &ORCA, None);
                a.writable(3);
                a.vault_ok(4);
                a.writable(4);
                a.orca_mint(5);
                a.prog(6, SYSTEM);
                a.prog(7, TOKEN);
                if !a.faults.iter().any(|f| f.core && f.code != 0 && f.code != 6002) {
                    let (amt, ts) = (le64(&pa.data, 40), le64(&pa.data, 48) as i64);
                    let sd = &a.acc(1).data;
                    let (e, cd) = (le64(sd, 8), le64(sd, 16));
                    a.core(now < ts, 6011, "cooldown active");
                    a.core(e < amt, 6016, "escrow < claim");
                    let dst = a.key(3);
                    a.add_tok(vault(), 0, amt);
                    a.add_tok(dst, amt, 0);
                    let lam = pa.lamports;
                    a.put(u).lamports += lam;
                    *a.put(pk) = Acct::default();
                    a.set_escrow(e.wrapping_sub(amt));
                    event = Some(ev(
                        2,
                        &[
                            &e.wrapping_sub(amt).to_le_bytes(),
                            &amt.to_le_bytes(),
                            &cd.to_le_bytes(),
                            &[idx],
                        ],
                    ));
                }
            }
        }
        Some(Op::Init(cd)) => {
            kind = Some(Kind::Init);
            if !a.count(9) {
                let (payer, ua) = (a.key(0), a.key(1));
                a.signer(0);
                a.writable(0);
                a.core(payer != DEPLOYER, 6019, "not the deployer");
                a.signer(1);
                a.writable(1);
                let k = a.key(2);
                a.core(k != state(), 6005, "state address");
                a.writable(2);
                let sa = a.acc(2);
                a.core(!sa.data.is_empty(), 6010, "already initialised");
                a.core(sa.data.is_empty() && sa.owner != SYSTEM, 6004, "state owner");
                let k = a.key(3);
                a.core(k != vault(), 6005, "vault address");
                // anyone can create (and fund) the state's associated token account beforehand
                let va = a.acc(3);
                let there = va.owner == TOKEN;
                a.core(va.owner != SYSTEM && !there, 6004, "vault owner");
                if there {
                    let sound = tok(va).is_some_and(|t| t.owner == state() && t.mint == ORCA);
                    a.core(!sound, 6007, "vault owner/mint");
                }
                a.writable(3);
                for (i, id) in [(4usize, XORCA), (5, ORCA)] {
                    let k = a.key(i);
                    a.core(k != id, 6006, "mint address");
                    let m = a.acc(i);
                    a.core(m.owner != TOKEN, 6004, "mint owner");
                    let ok = m.data.len() == 82 && m.data[45] == 1;
                    a.core(!ok, 6007, "mint data");
                    if ok {
                        a.core(m.data[44] != 6, 6007, "mint decimals");
                        if i == 4 {
                            a.core(m.data[4..36] != state(), 6006, "xORCA mint authority");
                            a.core(m.data[0..4] != [1, 0, 0, 0], 6007, "xORCA mint authority flag");
                            a.core(le64(&m.data, 36) != 0, 6007, "xORCA supply");
                            a.core(m.data[46..50] != [0u8; 4], 6007, "xORCA freeze authority");
                            // a revoked authority may leave its key behind; either verdict is fine
                            a.form(m.data[46..50] == [0u8; 4] && m.data[50..82] != [0u8; 32], 6007, "stale freeze authority key");
                        }
                    }
                }
                a.prog(6, SYSTEM);
                a.prog(7, TOKEN);
                a.prog(8, ATA);
                a.core(cd < 0, 6013, "negative cooldown");
                if !a.faults.iter().any(|f| f.core && f.code != 0 && f.code != 6002) {
                    a.fund(payer, state(), STATE_LEN);
                    let s = a.put(state());
                    s.owner = PROGRAM;
                    s.data = state_bytes(0, cd, &ua);
                    if !there {
                        a.fund(payer, vault(), 165);
                        let v = a.put(vault());
                        v.owner = TOKEN;
                        v.data = token_account(&ORCA, &state(), 0);
                    }
                }
            }
        }
        Some(op @ (Op::SetCd(_) | Op::SetAuth(_))) => {
            kind = Some(if matches!(op, Op::SetCd(_)) { Kind::SetCd } else { Kind::SetAuth });
            if !a.count(2) {
                a.signer(0);
                a.writable(0);
                a.state_ok(1);
                a.writable(1);
                let sd = &a.acc(1).data;
                if sd.len() >= STATE_LEN && a.key(1) == state() {
                    let cur: Key = sd[24..56].try_into().unwrap();
                    let k = a.key(0);
                    a.core(k != cur, 6006, "not the update authority");
                    match op {
                        Op::SetCd(v) => {
                            a.core(v < 0, 6013, "negative cooldown");
                            a.put(state()).data[16..24].copy_from_slice(&v.to_le_bytes());
                        }
                        Op::SetAuth(n) => {
                            a.put(state()).data[24..56].copy_from_slice(&n);
                            event = Some(ev(3, &[&n, &cur]));
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    Analysis {
        kind,
        faults: a.faults,
        writes: a.out.into_iter().collect(),
        event,
    }
}

/// Expected outcome of a whole transaction.
pub struct Expect {
    /// `Err(i, faults)`: instruction i must / may be rejected for these reasons
    pub res: Result<(), (usize, Vec<Fault>)>,
    /// post-state if the transaction succeeds (ignoring purely formal faults)
    pub post: Option<Bank>,
    pub events: Vec<(usize, Vec<u8>)>,
    pub kinds: Vec<Option<Kind>>,
}

pub fn expect_tx(bank: &Bank, ixs: &[Ix]) -> Expect {
    let (mut work, signer, writable) = load(bank, ixs);
    let mut out = Expect {
        res: Ok(()),
        post: None,
        events: vec![],
        kinds: vec![],
    };
    for (i, ix) in ixs.iter().enumerate() {
        let ix = merged(ix, &signer, &writable);
        if ix.program == PROGRAM {
            let a = analyze(&work, bank.now, &ix);
            out.kinds.push(a.kind);
            let core = a.faults.iter().any(|f| f.core);
            if !a.faults.is_empty() && out.res.is_ok() {
                out.res = Err((i, a.faults));
            }
            if core {
                return out;
            }
            for (k, v) in a.writes {
                work.insert(k, v);
            }
            if let Some(e) = a.event {
                out.events.push((i, e));
            }
        } else {
            out.kinds.push(None);
            if builtin(&mut work, bank.now, &ix).is_err() {
                if out.res.is_ok() {
                    out.res = Err((
                        i,
                        vec![Fault {
                            code: 0,
                            core: true,
                            what: "other program failed",
                        }],
                    ));
                }
                return out;
            }
        }
    }
    let mut post = bank.clone();
    match finish(&mut post, work, &writable) {
        Ok(()) => out.post = Some(post),
        Err(_) => {
            out.res = Err((
                ixs.len(),
                vec![Fault {
                    code: 0,
                    core: true,
                    what: "rent state",
                }],
            ))
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dev {
    pub key: Key,
    pub lamports: Option<(u64, u64)>,
    pub data: bool,
    pub owner: bool,
    pub len: Option<(usize, usize)>,
    pub first_byte: Option<(usize, u8, u8)>,
}

/// Differences actual vs expected.
pub fn diff(actual: &Bank, expected: &Bank) -> Vec<Dev> {
    let mut v = vec![];
    let keys: std::collections::BTreeSet<&Key> = actual.accts.keys().chain(expected.accts.keys()).collect();
    let none = Acct::default();
    for k in keys {
        let (a, e) = (
            actual.accts.get(k).unwrap_or(&none),
            expected.accts.get(k).unwrap_or(&none),
        );
        if a == e {
            continue;
        }
        v.push(Dev {
            key: *k,
            lamports: (a.lamports != e.lamports).then_some((a.lamports, e.lamports)),
            data: a.data != e.data,
            owner: a.owner != e.owner,
            len: (a.data.len() != e.data.len()).then_some((a.data.len(), e.data.len())),
            first_byte: a
                .data
                .iter()
                .zip(e.data.iter())
                .enumerate()
                .find(|(_, (x, y))| x != y)
                .map(|(i, (x, y))| (i, *x, *y)),
        });
    }
    v
}

pub fn name(k: &Key) -> String {
    if *k == state() {
        "STATE".into()
    } else if *k == vault() {
        "VAULT".into()
    } else if *k == XORCA {
        "XORCA_MINT".into()
    } else if *k == ORCA {
        "ORCA_MINT".into()
    } else {
        solana_program::pubkey::Pubkey::new_from_array(*k).to_string()
    }
}

pub fn show(devs: &[Dev]) -> String {
    devs.iter()
        .map(|d| {
            let mut s = format!("{}:", name(&d.key));
            if let Some((a, e)) = d.lamports {
                s += &format!(" lamports {a} (expected {e})");
            }
            if d.owner {
                s += " owner differs";
            }
            if let Some((a, e)) = d.len {
                s += &format!(" len {a} (expected {e})");
            }
            if let Some((i, a, e)) = d.first_byte {
                s += &format!(" byte[{i}]={a} (expected {e})");
            }
            s
        })
        .collect::<Vec<_>>()
        .join("; ")
}
