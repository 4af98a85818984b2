//! Generated ledger contents for the fetch helpers of both clients (C20, C21).

use crate::dict::{lit, with_lit_i};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub type Key = [u8; 32];

/// The well-known addresses, supplied by the including crate.
pub struct Ctx {
    pub program: Key,
    pub token: Key,
    pub orca: Key,
    pub xorca: Key,
    pub state: (Key, u8),
    pub vault: (Key, u8),
    /// claim addresses of a staker
    pub claims: fn(u8) -> &'static Vec<(Key, u8)>,
}

#[derive(Clone)]
pub struct Acct {
    pub owner: Key,
    pub lamports: u64,
    pub data: Vec<u8>,
}

pub fn staker_key(i: u8) -> Key {
    [i % 6 + 1; 32]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Absent,
    /// only lamports at the address (anyone can send them)
    Lamports,
    Good,
    Cut(u16),
    /// first byte outside the known range (or the account-state byte of a token account)
    Disc(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Claim {
    pub staker: u8,
    pub idx: u8,
    pub shape: Shape,
    pub amount: u64,
    pub ts: i64,
    pub bump: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ledger {
    pub state: Shape,
    pub escrow: u64,
    pub cooldown: i64,
    pub auth: [u8; 32],
    pub vault: Shape,
    pub amount: u64,
    pub frozen: bool,
    pub extras: u64,
    pub mint: Shape,
    pub supply: u64,
    pub decimals: u8,
    pub claims: Vec<Claim>,
    pub staker: u8,
    pub limit: Option<u8>,
    pub node_limit: bool,
    pub fail_after: Option<u8>,
}

fn num() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => (0u32..=64, any::<u64>()).prop_map(|(b, x)| if b == 0 { 0 } else { (x >> (64 - b)) | (1u64 << (b - 1)) }),
        1 => 0u64..200,
        1 => (0u64..200).prop_map(|d| u64::MAX - d),
        1 => lit(),
    ]
    .boxed()
}
fn shape() -> BoxedStrategy<Shape> {
    prop_oneof![
        14 => Just(Shape::Good),
        1 => Just(Shape::Absent),
        1 => Just(Shape::Lamports),
        1 => any::<u16>().prop_map(Shape::Cut),
        1 => (4u8..=255).prop_map(Shape::Disc),
    ]
    .boxed()
}
/// Token accounts and mints may also be allocated but not yet initialised.
fn token_shape() -> BoxedStrategy<Shape> {
    prop_oneof![17 => shape(), 1 => Just(Shape::Disc(0))].boxed()
}
pub fn claim() -> BoxedStrategy<Claim> {
    (
        prop_oneof![4 => Just(0u8), 1 => 0u8..6],
        prop_oneof![5 => 0u8..18, 2 => any::<u8>(), 1 => 97u8..103, 1 => 197u8..203],
        prop_oneof![30 => Just(Shape::Good), 6 => Just(Shape::Lamports), 1 => any::<u16>().prop_map(Shape::Cut), 1 => (4u8..=255).prop_map(Shape::Disc)],
        num(),
        prop_oneof![6 => any::<i64>(), 4 => 1_600_000_000i64..2_000_000_000, 2 => -5i64..5, 1 => lit().prop_map(|v| v as i64)],
        any::<u8>(),
    )
        .prop_map(|(staker, idx, shape, amount, ts, bump)| Claim {
            staker,
            idx,
            shape,
            amount,
            ts,
            bump,
        })
        .boxed()
}
pub fn ledger(_t: bool) -> BoxedStrategy<Ledger> {
    (
        (shape(), num(), with_lit_i(any::<i64>()), any::<[u8; 32]>()),
        (token_shape(), num(), any::<bool>(), any::<u64>(), any::<u8>()),
        (token_shape(), num(), any::<u8>()),
        (proptest::collection::vec(claim(), 0..14), proptest::collection::vec(0u8..16, 14)),
        prop_oneof![8 => Just(0u8), 1 => 0u8..6],
        prop_oneof![2 => Just(None), 4 => (0u8..20).prop_map(Some), 2 => any::<u8>().prop_map(Some), 1 => (98u8..104).prop_map(Some), 1 => (198u8..=255).prop_map(Some)],
        any::<bool>(),
        prop_oneof![9 => Just(None), 1 => (0u8..4).prop_map(Some)],
    )
        .prop_map(
            |((state, escrow, cooldown, auth), (vault, a, frozen, extras, ord), (mint, supply, decimals), (mut claims, alike), staker, limit, node_limit, fail_after)| {
                // claims that agree with the one before in amount, time, index or bump
                for i in 1..claims.len() {
                    let p = claims[i - 1].clone();
                    let c = &mut claims[i];
                    match alike[i] {
                        0 | 1 => (c.amount, c.ts) = (p.amount, p.ts),
                        2 => c.amount = p.amount,
                        3 => c.ts = p.ts,
                        4 => (c.amount, c.ts, c.bump, c.idx) = (p.amount, p.ts, p.bump, p.idx.wrapping_add(1)),
                        5 => c.idx = p.idx.wrapping_add(1),
                        6 => c.amount = p.ts as u64,
                        _ => {}
                    }
                }
                // mostly solvent
                let (amount, escrow) = if ord < 200 { (a.max(escrow), a.min(escrow)) } else { (a, escrow) };
                Ledger {
                    state,
                    escrow,
                    cooldown,
                    auth,
                    vault,
                    amount,
                    frozen,
                    extras,
                    mint,
                    supply,
                    decimals,
                    claims,
                    staker,
                    limit,
                    node_limit,
                    fail_after,
                }
            },
        )
        .boxed()
}

fn put(out: &mut Vec<(Key, Acct)>, k: Key, shape: &Shape, owner: Key, mut data: Vec<u8>, disc_at: usize) {
    // balances that differ from account to account and follow no field
    let held = 9 + u32::from_le_bytes([k[0], k[1], k[2], k[3] & 0x3f]) as u64;
    let (owner, lamports) = match shape {
        Shape::Absent => return,
        Shape::Lamports => {
            data.clear();
            ([0; 32], held)
        }
        Shape::Good => (owner, held),
        Shape::Cut(c) => {
            data.truncate((*c as usize * data.len()) >> 16);
            (owner, held)
        }
        Shape::Disc(d) => {
            data[disc_at] = *d;
            (owner, held)
        }
    };
    out.retain(|(x, _)| *x != k);
    out.push((k, Acct { owner, lamports, data }));
}

impl Ledger {
    fn state_image(&self, c: &Ctx) -> Vec<u8> {
        let mut d = vec![0u8; 2048];
        d[0] = 1;
        d[6] = c.state.1;
        d[7] = c.vault.1;
        d[8..16].copy_from_slice(&self.escrow.to_le_bytes());
        d[16..24].copy_from_slice(&self.cooldown.to_le_bytes());
        d[24..56].copy_from_slice(&self.auth);
        d
    }
    /// Every account of the ledger; a later claim at the same address replaces an earlier one.
    pub fn accounts(&self, c: &Ctx) -> Vec<(Key, Acct)> {
        let mut out = vec![];
        put(&mut out, c.state.0, &self.state, c.program, self.state_image(c), 0);
        let mut t = vec![0u8; 165];
        t[0..32].copy_from_slice(&c.orca);
        t[32..64].copy_from_slice(&c.state.0);
        t[64..72].copy_from_slice(&self.amount.to_le_bytes());
        if self.extras & 1 == 1 {
            t[72] = 1;
            t[76..108].copy_from_slice(&self.auth);
            t[121..129].copy_from_slice(&self.extras.to_le_bytes());
        }
        if self.extras & 2 == 2 {
            t[129] = 1;
            t[133..165].copy_from_slice(&self.auth);
        }
        t[108] = if self.frozen { 2 } else { 1 };
        put(&mut out, c.vault.0, &self.vault, c.token, t, 108);
        let mut m = vec![0u8; 82];
        if self.extras & 4 == 4 {
            m[0] = 1;
            m[4..36].copy_from_slice(&c.state.0);
        }
        m[36..44].copy_from_slice(&self.supply.to_le_bytes());
        m[44] = self.decimals;
        m[45] = 1;
        put(&mut out, c.xorca, &self.mint, c.token, m, 45);
        for x in &self.claims {
            let k = (c.claims)(x.staker)[x.idx as usize].0;
            put(&mut out, k, &x.shape, c.program, x.image(), 0);
        }
        out
    }
}

impl Claim {
    fn image(&self) -> Vec<u8> {
        let mut d = vec![0u8; 1024];
        d[0] = 2;
        d[6] = self.bump;
        d[7] = self.idx;
        d[8..40].copy_from_slice(&staker_key(self.staker));
        d[40..48].copy_from_slice(&self.amount.to_le_bytes());
        d[48..56].copy_from_slice(&self.ts.to_le_bytes());
        d
    }
}
