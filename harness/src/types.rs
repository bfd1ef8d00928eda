//! Plain-data view of the whole ledger, as the monitors see it.
use std::collections::BTreeMap;

pub type Aid = usize;
pub type Map<K, V> = BTreeMap<K, V>;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Pos {
    pub liab: Map<u32, i128>,
    pub coll: Map<u32, i128>,
    pub supp: Map<u32, i128>,
}
impl Pos {
    pub fn is_empty(&self) -> bool {
        self.liab.is_empty() && self.coll.is_empty() && self.supp.is_empty()
    }
    pub fn count(&self) -> u32 {
        (self.liab.len() + self.coll.len()) as u32
    }
    pub fn l(&self, i: u32) -> i128 {
        self.liab.get(&i).copied().unwrap_or(0)
    }
    pub fn c(&self, i: u32) -> i128 {
        self.coll.get(&i).copied().unwrap_or(0)
    }
    pub fn s(&self, i: u32) -> i128 {
        self.supp.get(&i).copied().unwrap_or(0)
    }
    pub fn b(&self, i: u32) -> i128 {
        self.c(i) + self.s(i)
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ResCfg {
    pub index: u32,
    pub decimals: u32,
    pub c_factor: u32,
    pub l_factor: u32,
    pub util: u32,
    pub max_util: u32,
    pub r_base: u32,
    pub r_one: u32,
    pub r_two: u32,
    pub r_three: u32,
    pub reactivity: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ResData {
    pub d_rate: i128,
    pub b_rate: i128,
    pub ir_mod: i128,
    pub b_supply: i128,
    pub d_supply: i128,
    pub credit: i128,
    pub last_time: u64,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Auction {
    pub bid: Map<Aid, i128>,
    pub lot: Map<Aid, i128>,
    pub block: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct PoolS {
    pub id: Aid,
    pub init: bool,
    pub admin: Aid,
    pub name: String,
    pub backstop: Aid,
    pub blnd: Aid,
    pub oracle: Aid,
    pub bstop_rate: u32,
    pub status: u32,
    pub max_positions: u32,
    pub list: Vec<Aid>,
    pub queued: Map<Aid, (ResCfg, u64)>,
    pub cfg: Map<Aid, ResCfg>,
    pub data: Map<Aid, ResData>,
    /// res token id -> (expiration, eps)
    pub ecfg: Map<u32, (u64, u64)>,
    /// res token id -> (index, last time)
    pub edata: Map<u32, (i128, u64)>,
    pub eshare: Map<u32, u64>,
    pub pos: Map<Aid, Pos>,
    /// (user, res token id) -> (index, accrued)
    pub uem: Map<(Aid, u32), (i128, i128)>,
    pub auct: Map<(Aid, u32), Auction>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BUser {
    pub shares: i128,
    pub q: Vec<(i128, u64)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BPool {
    pub shares: i128,
    pub tokens: i128,
    pub q4w: i128,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BackS {
    pub id: Aid,
    pub init: bool,
    pub emitter: Aid,
    pub token: Aid,
    pub blnd: Aid,
    pub usdc: Aid,
    pub factory: Aid,
    pub user: Map<(Aid, Aid), BUser>, // (pool, user)
    pub pool: Map<Aid, BPool>,
    pub pemis: Map<Aid, i128>,
    pub ecfg: Map<Aid, (u64, u64)>,
    pub edata: Map<Aid, (i128, u64)>,
    pub uem: Map<(Aid, Aid), (i128, i128)>,
    pub rz: Vec<Aid>,
    pub last_dist: u64,
    pub lpval: Option<(i128, i128)>,
    pub drop: Option<Vec<(Aid, i128)>>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct EmitS {
    pub id: Aid,
    pub init: bool,
    pub backstop: Aid,
    pub token: Aid,
    pub blnd: Aid,
    pub swap: Option<(Aid, Aid, u64)>,
    pub last: Map<Aid, u64>,
    pub dropped: Map<Aid, bool>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct OracleS {
    pub decimals: u32,
    pub price: Map<Aid, (i128, u64)>,
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub ts: u64,
    pub seq: u32,
    pub pools: Map<Aid, PoolS>,
    pub back: BackS,
    pub emit: EmitS,
    pub oracle: Map<Aid, OracleS>,
    /// (token, holder)
    pub bal: Map<(Aid, Aid), i128>,
    /// (token, from, spender) -> (amount, live until)
    pub allow: Map<(Aid, Aid, Aid), (i128, u32)>,
    /// entries of the watched contracts that no parser recognises
    pub unknown: Map<String, String>,
    /// ledger lifetime left (live_until - seq) of records, keyed by a readable name
    pub ttl: Map<String, (u32, bool)>,
}
impl Snap {
    pub fn bal(&self, t: Aid, h: Aid) -> i128 {
        self.bal.get(&(t, h)).copied().unwrap_or(0)
    }
    pub fn addbal(&mut self, t: Aid, h: Aid, d: i128) {
        let e = self.bal.entry((t, h)).or_insert(0);
        *e += d;
    }
    pub fn allowance(&self, t: Aid, f: Aid, s: Aid) -> i128 {
        match self.allow.get(&(t, f, s)) {
            Some((a, until)) if *until >= self.seq => *a,
            _ => 0,
        }
    }
}
