//! Well-known addresses (written down independently of the program's source), the initial world,
//! and hand-assembled instructions.

use crate::svm::*;
use solana_program::pubkey;
use std::sync::OnceLock;

pub const PROGRAM: Key = pubkey!("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT").to_bytes();
pub const DEPLOYER: Key = pubkey!("94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT").to_bytes();
pub const ORCA: Key = pubkey!("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE").to_bytes();
pub const XORCA: Key = pubkey!("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N").to_bytes();
pub const EVIL_PROGRAM: Key = [0xEE; 32];
pub const ORCA_MINT_AUTH: Key = [0x77; 32];

pub const STATE_LEN: usize = 2048;
pub const PW_LEN: usize = 1024;

use xorca_staking_program as _;
extern "C-unwind" {
    /// exported by the program for the loader
    fn entrypoint(input: *mut u8) -> u64;
}
pub fn env() -> Env {
    Env {
        program_id: PROGRAM,
        entry: entrypoint,
    }
}

pub fn state_pda() -> (Key, u8) {
    static C: OnceLock<(Key, u8)> = OnceLock::new();
    *C.get_or_init(|| find_pda(&[b"state"], &PROGRAM).unwrap())
}
pub fn state() -> Key {
    state_pda().0
}
pub fn vault_pda() -> (Key, u8) {
    static C: OnceLock<(Key, u8)> = OnceLock::new();
    *C.get_or_init(|| find_pda(&[&state(), &TOKEN, &ORCA], &ATA).unwrap())
}
pub fn vault() -> Key {
    vault_pda().0
}
pub fn pw_pda(user: &Key, idx: u8) -> (Key, u8) {
    find_pda(&[b"pending_withdraw", user, &[idx]], &PROGRAM).unwrap()
}
pub fn pw(user: &Key, idx: u8) -> Key {
    pw_pda(user, idx).0
}

/// Deterministic wallet keys; `salt` varies them (and therefore PDA bumps) from case to case.
pub fn user(salt: u8, i: u8) -> Key {
    solana_program::hash::hashv(&[b"user", &[salt, i]]).to_bytes()
}
pub fn auth(salt: u8, i: u8) -> Key {
    solana_program::hash::hashv(&[b"auth", &[salt, i]]).to_bytes()
}
/// Addresses of the users' token accounts: the associated account for some, any address for others.
fn token_addr(u: &Key, mint: &Key, tag: &[u8]) -> Key {
    type Cache = std::sync::RwLock<std::collections::HashMap<(Key, Key), Key>>;
    static C: OnceLock<Cache> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if u[0] % 2 == 0 {
        return solana_program::hash::hashv(&[tag, u]).to_bytes();
    }
    if let Some(k) = c.read().unwrap().get(&(*u, *mint)) {
        return *k;
    }
    let k = find_pda(&[u, &TOKEN, mint], &ATA).unwrap().0;
    c.write().unwrap().insert((*u, *mint), k);
    k
}
pub fn orca_acct(u: &Key) -> Key {
    token_addr(u, &ORCA, b"orca-ta")
}
pub fn xorca_acct(u: &Key) -> Key {
    token_addr(u, &XORCA, b"xorca-ta")
}

pub fn acct(owner: Key, data: Vec<u8>) -> Acct {
    Acct {
        lamports: rent_min(data.len()),
        data,
        owner,
        executable: false,
    }
}
pub fn wallet(lamports: u64) -> Acct {
    Acct {
        lamports,
        data: vec![],
        owner: SYSTEM,
        executable: false,
    }
}

pub const RICH: u64 = 1_000_000_000_000_000;

pub fn base_bank(now: i64) -> Bank {
    let mut b = Bank {
        now,
        ..Default::default()
    };
    for p in [SYSTEM, TOKEN, ATA, PROGRAM, EVIL_PROGRAM] {
        b.set(
            p,
            Acct {
                lamports: rent_min(36),
                data: vec![0; 36],
                owner: LOADER,
                executable: true,
            },
        );
    }
    b.set(DEPLOYER, wallet(RICH));
    b.set(ORCA, acct(TOKEN, mint_account(Some(&ORCA_MINT_AUTH), u64::MAX, 6, None)));
    b.set(XORCA, acct(TOKEN, mint_account(Some(&state()), 0, 6, None)));
    b
}

pub fn add_user(b: &mut Bank, u: &Key, orca: u64, xorca: u64) {
    b.set(*u, wallet(RICH));
    for (k, mint, n) in [(orca_acct(u), ORCA, orca), (xorca_acct(u), XORCA, xorca)] {
        let mut a = acct(TOKEN, token_account(&mint, u, n));
        // some holders have approved a delegate, named a close authority or overpaid the rent
        if u[1] % 4 == 1 {
            a.data[72..76].copy_from_slice(&[1, 0, 0, 0]);
            a.data[76..108].copy_from_slice(&[0x44; 32]);
            a.data[121..129].copy_from_slice(&(u64::MAX >> (u[2] % 64)).to_le_bytes());
        }
        if u[1] % 8 >= 6 {
            a.data[129..133].copy_from_slice(&[1, 0, 0, 0]);
            a.data[133..165].copy_from_slice(&[0x45; 32]);
        }
        if u[1] % 16 == 2 {
            a.lamports += u[2] as u64 * 1_000_003;
        }
        b.set(k, a);
    }
}

pub fn state_bytes(escrow: u64, cooldown: i64, authority: &Key) -> Vec<u8> {
    let mut d = vec![0u8; STATE_LEN];
    d[0] = 1;
    d[6] = state_pda().1;
    d[7] = vault_pda().1;
    d[8..16].copy_from_slice(&escrow.to_le_bytes());
    d[16..24].copy_from_slice(&cooldown.to_le_bytes());
    d[24..56].copy_from_slice(authority);
    d
}
pub fn pw_bytes(user: &Key, idx: u8, bump: u8, amount: u64, ts: i64) -> Vec<u8> {
    let mut d = vec![0u8; PW_LEN];
    d[0] = 2;
    d[6] = bump;
    d[7] = idx;
    d[8..40].copy_from_slice(user);
    d[40..48].copy_from_slice(&amount.to_le_bytes());
    d[48..56].copy_from_slice(&ts.to_le_bytes());
    d
}

/// Puts an initialised state and vault with arbitrary figures into the bank.
pub fn inject(b: &mut Bank, vault_amt: u64, escrow: u64, supply: u64, cooldown: i64, authority: &Key) {
    b.set(state(), acct(PROGRAM, state_bytes(escrow, cooldown, authority)));
    b.set(vault(), acct(TOKEN, token_account(&ORCA, &state(), vault_amt)));
    b.set(XORCA, acct(TOKEN, mint_account(Some(&state()), supply, 6, None)));
}

// ---- views ---------------------------------------------------------------------------------
pub fn le64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn tok_amount(b: &Bank, k: &Key) -> u64 {
    b.accts.get(k).filter(|a| a.data.len() == 165).map(|a| le64(&a.data, 64)).unwrap_or(0)
}
pub fn set_tok_amount(b: &mut Bank, k: &Key, n: u64) {
    b.accts.get_mut(k).unwrap().data[64..72].copy_from_slice(&n.to_le_bytes());
}
pub fn supply(b: &Bank) -> u64 {
    le64(&b.accts[&XORCA].data, 36)
}
pub fn escrow(b: &Bank) -> u64 {
    b.accts.get(&state()).filter(|a| a.data.len() >= 56).map(|a| le64(&a.data, 8)).unwrap_or(0)
}
pub fn cooldown(b: &Bank) -> i64 {
    b.accts.get(&state()).filter(|a| a.data.len() >= 56).map(|a| le64(&a.data, 16) as i64).unwrap_or(0)
}
pub fn authority(b: &Bank) -> Key {
    b.accts
        .get(&state())
        .filter(|a| a.data.len() >= 56)
        .map(|a| a.data[24..56].try_into().unwrap())
        .unwrap_or([0; 32])
}
pub fn vault_amt(b: &Bank) -> u64 {
    tok_amount(b, &vault())
}

// ---- instructions --------------------------------------------------------------------------
pub fn m(key: Key, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}
pub fn ix_stake(u: &Key, amount: u64) -> Ix {
    let mut data = vec![0u8];
    data.extend(amount.to_le_bytes());
    Ix {
        program: PROGRAM,
        metas: vec![
            m(*u, true, true),
            m(vault(), false, true),
            m(orca_acct(u), false, true),
            m(xorca_acct(u), false, true),
            m(XORCA, false, true),
            m(state(), false, false),
            m(ORCA, false, false),
            m(TOKEN, false, false),
        ],
        data,
    }
}
pub fn ix_unstake(u: &Key, amount: u64, idx: u8) -> Ix {
    let mut data = vec![1u8];
    data.extend(amount.to_le_bytes());
    data.push(idx);
    Ix {
        program: PROGRAM,
        metas: vec![
            m(*u, true, true),
            m(state(), false, true),
            m(pw(u, idx), false, true),
            m(xorca_acct(u), false, true),
            m(XORCA, false, true),
            m(ORCA, false, false),
            m(vault(), false, false),
            m(SYSTEM, false, false),
            m(TOKEN, false, false),
        ],
        data,
    }
}
pub fn ix_withdraw(u: &Key, idx: u8) -> Ix {
    Ix {
        program: PROGRAM,
        metas: vec![
            m(*u, true, true),
            m(state(), false, true),
            m(pw(u, idx), false, true),
            m(orca_acct(u), false, true),
            m(vault(), false, true),
            m(ORCA, false, false),
            m(SYSTEM, false, false),
            m(TOKEN, false, false),
        ],
        data: vec![2, idx],
    }
}
pub fn ix_init(payer: &Key, authority: &Key, cooldown: i64) -> Ix {
    let mut data = vec![3u8];
    data.extend(cooldown.to_le_bytes());
    Ix {
        program: PROGRAM,
        metas: vec![
            m(*payer, true, true),
            m(*authority, true, true),
            m(state(), false, true),
            m(vault(), false, true),
            m(XORCA, false, false),
            m(ORCA, false, false),
            m(SYSTEM, false, false),
            m(TOKEN, false, false),
            m(ATA, false, false),
        ],
        data,
    }
}
pub fn ix_set_cooldown(a: &Key, v: i64) -> Ix {
    let mut data = vec![4u8, 0];
    data.extend(v.to_le_bytes());
    Ix {
        program: PROGRAM,
        metas: vec![m(*a, true, true), m(state(), false, true)],
        data,
    }
}
pub fn ix_set_authority(a: &Key, new: &Key) -> Ix {
    let mut data = vec![4u8, 1];
    data.extend(new);
    Ix {
        program: PROGRAM,
        metas: vec![m(*a, true, true), m(state(), false, true)],
        data,
    }
}
pub fn ix_tok_transfer(from: Key, to: Key, owner: &Key, n: u64) -> Ix {
    let mut data = vec![3u8];
    data.extend(n.to_le_bytes());
    Ix {
        program: TOKEN,
        metas: vec![m(from, false, true), m(to, false, true), m(*owner, true, false)],
        data,
    }
}
pub fn ix_tok_burn(acct: Key, mint: Key, owner: &Key, n: u64) -> Ix {
    let mut data = vec![8u8];
    data.extend(n.to_le_bytes());
    Ix {
        program: TOKEN,
        metas: vec![m(acct, false, true), m(mint, false, true), m(*owner, true, false)],
        data,
    }
}
pub fn ix_sol_transfer(from: &Key, to: &Key, n: u64) -> Ix {
    let mut data = vec![2u8, 0, 0, 0];
    data.extend(n.to_le_bytes());
    Ix {
        program: SYSTEM,
        metas: vec![m(*from, true, true), m(*to, false, true)],
        data,
    }
}
