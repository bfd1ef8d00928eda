//! The operations a run is made of: every externally callable entry point of the protocol, plus the environment
//! (time, prices, token flows) the contracts live in.
use crate::types::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Time { dt: u64, dseq: u32 },
    Price { asset: Aid, price: Option<i128>, ts: u64 },
    Mint { token: Aid, to: Aid, amt: i128 },
    Xfer { token: Aid, from: Aid, to: Aid, amt: i128 },
    Submit { pool: Aid, from: Aid, spender: Aid, to: Aid, reqs: Vec<(u32, Aid, i128)> },
    BadDebt { pool: Aid, user: Aid },
    UpdStatus { pool: Aid },
    SetStatus { pool: Aid, st: u32 },
    PoolGulp { pool: Aid },
    SetEmis { pool: Aid, md: Vec<(u32, u32, u64)> },
    PClaim { pool: Aid, from: Aid, ids: Vec<u32>, to: Aid },
    NewLiq { pool: Aid, user: Aid, pct: u64 },
    NewBad { pool: Aid },
    NewInt { pool: Aid, assets: Vec<Aid> },
    SetAdmin { pool: Aid, new: Aid },
    UpdPool { pool: Aid, rate: u32, maxpos: u32 },
    QRes { pool: Aid, asset: Aid, cfg: ResCfg },
    CRes { pool: Aid, asset: Aid },
    SRes { pool: Aid, asset: Aid },
    PInit { pool: Aid, admin: Aid, rate: u32, maxpos: u32, oracle: Aid, backstop: Aid, blnd: Aid },
    BDep { from: Aid, pool: Aid, amt: i128 },
    BQ { from: Aid, pool: Aid, amt: i128 },
    BDeq { from: Aid, pool: Aid, amt: i128 },
    BWd { from: Aid, pool: Aid, amt: i128 },
    BGulp,
    BAdd { add: Aid, rm: Aid },
    BGulpPool { pool: Aid },
    BClaim { from: Aid, pools: Vec<Aid>, to: Aid },
    BDrop,
    BDraw { pool: Aid, amt: i128, to: Aid },
    BDonate { from: Aid, pool: Aid, amt: i128 },
    BUpdVal,
    BInit,
    EDist,
    EQSwap { nb: Aid, nt: Aid },
    ECancel,
    ESwap,
    EDrop { list: Vec<(Aid, i128)> },
    EInit,
    View(View),
}

/// Read-only entry points.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum View {
    Pos(Aid, Aid),
    Auct(Aid, u32, Aid),
    BUser(Aid, Aid),
    BPool(Aid),
    BToken,
    Last(Aid),
    Backstop,
    Swap,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Auth {
    /// everyone signs what they are asked for; who was asked is recorded and judged
    All,
    /// only these addresses sign the root call
    Only(Vec<Aid>),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Time { .. } => "time",
            Op::Price { .. } => "price",
            Op::Mint { .. } => "mint",
            Op::Xfer { .. } => "xfer",
            Op::Submit { .. } => "submit",
            Op::BadDebt { .. } => "bad_debt",
            Op::UpdStatus { .. } => "update_status",
            Op::SetStatus { .. } => "set_status",
            Op::PoolGulp { .. } => "pool.gulp_emissions",
            Op::SetEmis { .. } => "set_emissions_config",
            Op::PClaim { .. } => "pool.claim",
            Op::NewLiq { .. } => "new_liquidation_auction",
            Op::NewBad { .. } => "new_bad_debt_auction",
            Op::NewInt { .. } => "new_interest_auction",
            Op::SetAdmin { .. } => "set_admin",
            Op::UpdPool { .. } => "update_pool",
            Op::QRes { .. } => "queue_set_reserve",
            Op::CRes { .. } => "cancel_set_reserve",
            Op::SRes { .. } => "set_reserve",
            Op::PInit { .. } => "pool.initialize",
            Op::BDep { .. } => "backstop.deposit",
            Op::BQ { .. } => "backstop.queue_withdrawal",
            Op::BDeq { .. } => "backstop.dequeue_withdrawal",
            Op::BWd { .. } => "backstop.withdraw",
            Op::BGulp => "backstop.gulp_emissions",
            Op::BAdd { .. } => "backstop.add_reward",
            Op::BGulpPool { .. } => "backstop.gulp_pool_emissions",
            Op::BClaim { .. } => "backstop.claim",
            Op::BDrop => "backstop.drop",
            Op::BDraw { .. } => "backstop.draw",
            Op::BDonate { .. } => "backstop.donate",
            Op::BUpdVal => "backstop.update_tkn_val",
            Op::BInit => "backstop.initialize",
            Op::EDist => "emitter.distribute",
            Op::EQSwap { .. } => "emitter.queue_swap_backstop",
            Op::ECancel => "emitter.cancel_swap_backstop",
            Op::ESwap => "emitter.swap_backstop",
            Op::EDrop { .. } => "emitter.drop",
            Op::EInit => "emitter.initialize",
            Op::View(v) => match v {
                View::Pos(..) => "pool.get_positions",
                View::Auct(..) => "pool.get_auction",
                View::BUser(..) => "backstop.user_balance",
                View::BPool(..) => "backstop.pool_data",
                View::BToken => "backstop.backstop_token",
                View::Last(_) => "emitter.get_last_distro",
                View::Backstop => "emitter.get_backstop",
                View::Swap => "emitter.get_queued_swap",
            },
        }
    }
    pub fn pool(&self) -> Option<Aid> {
        match self {
            Op::Submit { pool, .. }
            | Op::BadDebt { pool, .. }
            | Op::UpdStatus { pool }
            | Op::SetStatus { pool, .. }
            | Op::PoolGulp { pool }
            | Op::SetEmis { pool, .. }
            | Op::PClaim { pool, .. }
            | Op::NewLiq { pool, .. }
            | Op::NewBad { pool }
            | Op::NewInt { pool, .. }
            | Op::SetAdmin { pool, .. }
            | Op::UpdPool { pool, .. }
            | Op::QRes { pool, .. }
            | Op::CRes { pool, .. }
            | Op::SRes { pool, .. }
            | Op::PInit { pool, .. } => Some(*pool),
            _ => None,
        }
    }
}
