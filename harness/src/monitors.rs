//! The oracle. For every executed operation it compares what the real contracts did (success, ledger, return value,
//! authorisations asked for) with what the specification says they must do, and independently of the specification it
//! checks invariants over the recorded history.
use crate::ledger::{self, record, Kind, Scanner};
use crate::math::*;
use crate::model::*;
use crate::ops::*;
use crate::types::*;
use crate::world::Seen;
use soroban_sdk::xdr::ScVal;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// ledgers a day has
pub const DAY_LEDGERS: u32 = 17_280;

/// days a record written by an accepted call must have left
pub fn need_days(kind: Kind, name: &str, fresh: bool) -> Option<u32> {
    Some(match (kind, name) {
        // an authorisation's nonce, written by the host, is not the contract's; instances are judged apart
        (_, "instance" | "") => return None,
        (Kind::Pool, "Positions" | "ResInit") => 100,
        (Kind::Backstop, "DropList") => 100,
        // written without being extended, extended when next used
        (Kind::Pool, "UserEmis") | (Kind::Backstop, "UserBalance" | "UEmisData") if !fresh => 100,
        (Kind::Backstop, "BEmisCfg" | "BEmisData") if !fresh => 45,
        (Kind::Pool, "UserEmis") | (Kind::Backstop, "UserBalance" | "UEmisData" | "BEmisCfg" | "BEmisData") => return None,
        (Kind::Emitter, "Dropped") => return None,
        _ => 45,
    })
}

pub type Prop = &'static str;

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<Prop>,
    pub what: String,
    /// the history signature of a known finding, if the violation has exactly that shape
    pub known: Option<&'static str>,
}
impl Viol {
    fn new(props: Vec<Prop>, what: String) -> Viol {
        Viol { props, what, known: None }
    }
}

#[derive(Default, Clone)]
pub struct PropCov {
    pub judged: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
}

#[derive(Default, Clone)]
pub struct Cov {
    pub per: BTreeMap<Prop, PropCov>,
    pub ops: u64,
    pub ok: u64,
    pub refused: u64,
    pub state_compared: u64,
    pub not_judged_arith: u64,
    pub auth_trees: u64,
    pub invariants: BTreeMap<&'static str, u64>,
    pub notes: BTreeMap<&'static str, u64>,
    pub situations: BTreeMap<String, u64>,
    pub events: u64,
}
impl Cov {
    pub fn merge(&mut self, o: Cov) {
        for (k, v) in o.per {
            let e = self.per.entry(k).or_default();
            e.judged += v.judged;
            for (a, b) in v.outcomes {
                *e.outcomes.entry(a).or_insert(0) += b;
            }
            e.distinct.extend(v.distinct);
        }
        self.ops += o.ops;
        self.ok += o.ok;
        self.refused += o.refused;
        self.state_compared += o.state_compared;
        self.not_judged_arith += o.not_judged_arith;
        self.auth_trees += o.auth_trees;
        self.events += o.events;
        for (a, b) in o.invariants {
            *self.invariants.entry(a).or_insert(0) += b;
        }
        for (a, b) in o.situations {
            *self.situations.entry(a).or_insert(0) += b;
        }
        for (a, b) in o.notes {
            *self.notes.entry(a).or_insert(0) += b;
        }
    }
    fn inv(&mut self, p: &'static str) {
        *self.invariants.entry(p).or_insert(0) += 1;
    }
}

/// What the monitors remember across an episode.
#[derive(Default, Clone)]
pub struct Track {
    pub t0: u64,
    pub issued: i128,
    pub allow_expired: BTreeSet<Aid>,
    pub burned_any: BTreeSet<(Aid, Aid)>,
    pub drops: Map<Aid, i128>,
    /// BLND a backstop counts as its own although it was issued to another while that one held the emitter
    pub regained: i128,
}

fn types_of(op: &Op) -> BTreeSet<u32> {
    match op {
        Op::Submit { reqs, .. } => reqs.iter().map(|r| r.0).collect(),
        _ => BTreeSet::new(),
    }
}

/// The properties an operation of this kind exercises when it goes through.
pub fn home(op: &Op) -> Vec<Prop> {
    match op {
        Op::Time { .. } | Op::Price { .. } | Op::Mint { .. } | Op::Xfer { .. } => vec![],
        Op::Submit { .. } => {
            let t = types_of(op);
            let mut v = vec!["C01", "C02", "C03", "C04", "C08", "C09", "C16"];
            if t.contains(&3) || t.contains(&4) || t.contains(&9) || t.contains(&6) || t.contains(&7) {
                v.push("C05");
                v.push("C07");
            }
            if t.contains(&4) {
                v.push("C06");
            }
            if t.contains(&6) {
                v.push("C13");
            }
            if t.contains(&7) {
                v.extend(["C13", "C14"]);
            }
            if t.contains(&8) {
                v.extend(["C13", "C15"]);
            }
            if t.contains(&9) {
                v.push("C12");
            }
            if t.iter().all(|x| matches!(x, 1 | 3 | 5)) {
                v.push("C17");
            }
            v
        }
        Op::BadDebt { .. } => vec!["C14", "C02"],
        Op::UpdStatus { .. } => vec!["C10"],
        Op::SetStatus { .. } => vec!["C10", "C08"],
        Op::PoolGulp { .. } => vec!["C16"],
        Op::SetEmis { .. } => vec!["C16", "C08"],
        Op::PClaim { .. } => vec!["C16", "C08"],
        Op::NewLiq { .. } => vec!["C12", "C07"],
        Op::NewBad { .. } => vec!["C14", "C07"],
        Op::NewInt { .. } => vec!["C15", "C07"],
        Op::SetAdmin { .. } => vec!["C08"],
        Op::UpdPool { .. } => vec!["C11", "C08"],
        Op::QRes { .. } | Op::CRes { .. } => vec!["C11", "C08"],
        Op::SRes { .. } => vec!["C11"],
        Op::PInit { .. } => vec!["C26"],
        Op::BDep { .. } => vec!["C19", "C18", "C21", "C22"],
        Op::BQ { .. } | Op::BDeq { .. } => vec!["C20", "C18", "C21", "C22"],
        Op::BWd { .. } => vec!["C20", "C19", "C18", "C21"],
        Op::BGulp => vec!["C23"],
        Op::BAdd { .. } => vec!["C23"],
        Op::BGulpPool { .. } => vec!["C22", "C21"],
        Op::BClaim { .. } => vec!["C22", "C21", "C18"],
        Op::BDrop | Op::EDrop { .. } => vec!["C25"],
        Op::BDraw { .. } | Op::BDonate { .. } => vec!["C21", "C18", "C19"],
        Op::BUpdVal => vec!["C19"],
        Op::BInit | Op::EInit => vec!["C26"],
        Op::EDist => vec!["C24"],
        Op::EQSwap { .. } | Op::ECancel | Op::ESwap => vec!["C25"],
        Op::View(v) => match v {
            _ => vec!["C27"],
        },
    }
}

/// Which guarantee a refusal protects.
pub fn why_props(op: &Op, why: &str) -> Vec<Prop> {
    let pool_op = op.pool().is_some();
    let t = types_of(op);
    let fills = t.iter().any(|x| (6..=8).contains(x));
    let mut fp: Vec<Prop> = vec![];
    if t.contains(&7) {
        fp.push("C14");
    }
    if t.contains(&8) {
        fp.push("C15");
    }
    let h = home(op);
    match why {
        "status" => match op {
            Op::Submit { .. } => vec!["C09"],
            _ => vec!["C10"],
        },
        "status_value" => vec!["C10"],
        "no_lp_value" => vec![],
        "neg" | "zero" | "self" | "request_type" => match op {
            Op::Submit { .. } => vec!["C03"],
            Op::BDep { .. } => vec!["C18", "C19"],
            Op::BQ { .. } | Op::BDeq { .. } => vec!["C20", "C18"],
            Op::BWd { .. } => vec!["C20", "C19"],
            Op::BDraw { .. } | Op::BDonate { .. } => vec!["C18", "C21"],
            Op::BadDebt { .. } => vec!["C14"],
            _ => h,
        },
        "hf" => vec!["C05"],
        "util" | "max_positions" => vec!["C06"],
        "stale" | "no_price" | "no_oracle" => vec!["C07"],
        "position" => {
            let mut v = vec!["C02", "C03"];
            if fills {
                v.push("C13");
            }
            v.extend(fp);
            v
        }
        "balance" => match op {
            Op::Submit { .. } => vec!["C01", "C03"],
            _ if pool_op => vec!["C01", "C16"],
            _ => vec!["C18"],
        },
        "no_auction" if t.contains(&9) => vec!["C12", "C13"],
        "no_auction" | "not_started" | "self_fill" => {
            let mut v = vec!["C13"];
            v.extend(fp);
            v
        }
        "percent" => match op {
            Op::NewLiq { .. } => vec!["C12"],
            _ => {
                let mut v = vec!["C13"];
                v.extend(fp);
                v
            }
        },
        "healthy" | "liq_user" | "liq_too_large" | "liq_too_small" | "no_collateral" | "nothing_owed" => vec!["C12"],
        "no_liability_factor" => match op {
            Op::Submit { .. } => vec!["C05"],
            _ => vec!["C12"],
        },
        "worthless" => vec!["C19"],
        "no_deposits" | "lp_worthless" => match op {
            Op::NewBad { .. } => vec!["C14"],
            Op::NewInt { .. } => vec!["C15"],
            _ => h,
        },
        "in_progress" => match op {
            Op::NewBad { .. } => vec!["C14"],
            Op::NewInt { .. } => vec!["C15"],
            _ => vec!["C12"],
        },
        "no_debt" | "has_collateral" => vec!["C14"],
        "interest_small" => vec!["C15"],
        "queued" | "metadata" | "not_queued" | "decimals" | "list_full" | "rate" | "no_reserve" => {
            if matches!(op, Op::Submit { .. }) {
                vec!["C03"]
            } else {
                vec!["C11"]
            }
        }
        "locked" => match op {
            Op::ESwap => vec!["C25"],
            _ => vec!["C11"],
        },
        "initialized" | "init_args" | "uninit" => vec!["C26"],
        "emis_target" | "emis_total" | "allowance" | "small" => vec!["C16"],
        "nothing" => vec!["C16", "C22"],
        "not_pool" => vec!["C18", "C26"],
        "shares" => vec!["C18", "C20"],
        "queue_full" | "q4w_locked" => vec!["C20"],
        "backstop_funds" => {
            let mut v = vec!["C18"];
            v.extend(fp);
            v
        }
        "no_zone" | "all_queued" | "too_soon" | "in_zone" | "threshold" | "not_in_zone" | "stale_distribution" => vec!["C23"],
        "not_larger" => match op {
            Op::BAdd { .. } => vec!["C23"],
            _ => vec!["C25"],
        },
        "empty" => vec!["C22"],
        "drop_expired" | "swap_exists" | "no_swap" | "still_larger" | "dropped" | "drop_size" | "auth" => vec!["C25"],
        "no_distro" => vec!["C24"],
        _ => h,
    }
}

fn err_code(e: &str) -> Option<u32> {
    let i = e.find("Contract, #")?;
    e[i + 11..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

/// The call failed although nothing in the specification stands against it.
fn wrong_refusal(op: &Op, err: &str) -> Vec<Prop> {
    let t = types_of(op);
    let mut v: Vec<Prop> = match err_code(err) {
        Some(1203) => vec!["C11"],
        Some(1204) => vec!["C10"],
        Some(1205) => vec!["C05"],
        Some(1206) => vec!["C09"],
        Some(1207) | Some(1208) => vec!["C06"],
        Some(1210) => vec!["C07"],
        Some(1202) => vec!["C11"],
        Some(1211) | Some(1213) | Some(1214) => vec!["C12"],
        Some(1215) => vec!["C15"],
        Some(1001) => vec!["C20"],
        Some(1002) => vec!["C23"],
        Some(1003) => vec!["C18"],
        Some(1007) => vec!["C20"],
        Some(1100) | Some(1101) | Some(1102) | Some(1103) | Some(1104) | Some(1105) => vec!["C25"],
        Some(10) => vec!["C01", "C18"],
        _ => vec![],
    };
    if err.contains("Auth") {
        v.extend(auth_props(op));
    }
    match op {
        Op::Submit { .. } => {
            v.push("C03");
            if t.iter().all(|x| matches!(x, 1 | 3 | 5)) {
                v.push("C17");
            }
            if t.contains(&6) {
                v.push("C13");
            }
            if t.contains(&7) {
                v.extend(["C13", "C14"]);
            }
            if t.contains(&8) {
                v.extend(["C13", "C15"]);
            }
            if t.contains(&9) {
                v.push("C12");
            }
        }
        Op::BQ { .. } | Op::BDeq { .. } => v.extend(["C20", "C17"]),
        Op::BWd { .. } => v.extend(["C20", "C17", "C19"]),
        Op::BDep { .. } => v.extend(["C19", "C18"]),
        _ => {
            for p in home(op) {
                if p != "C08" && p != "C21" {
                    v.push(p)
                }
            }
        }
    }
    if v.is_empty() {
        v = home(op);
    }
    v
}

fn auth_props(op: &Op) -> Vec<Prop> {
    if op.pool().is_some() && !matches!(op, Op::PInit { .. }) {
        vec!["C08"]
    } else {
        match op {
            Op::PInit { .. } => vec!["C26"],
            Op::EDrop { .. } | Op::EQSwap { .. } | Op::ECancel | Op::ESwap | Op::EDist => vec!["C25"],
            _ => vec!["C21"],
        }
    }
}

/// Which guarantee a difference in this kind of record breaks, given the operation.
fn attrib(op: &Op, cat: &str) -> Vec<Prop> {
    let t = types_of(op);
    let mut fp: Vec<Prop> = vec![];
    if t.iter().any(|x| (6..=8).contains(x)) {
        fp.push("C13");
    }
    if t.contains(&7) {
        fp.push("C14");
    }
    if t.contains(&8) {
        fp.push("C15");
    }
    let with = |mut v: Vec<Prop>, w: &[Prop]| {
        v.extend_from_slice(w);
        v
    };
    match cat {
        // who may change what, whatever the operation
        "pool.id" => return if matches!(op, Op::PInit { .. }) { vec!["C26"] } else { vec!["C08", "C26"] },
        "pool.admin" => return if matches!(op, Op::PInit { .. }) { vec!["C26"] } else { vec!["C08"] },
        "pool.status" => return if matches!(op, Op::PInit { .. }) { vec!["C26", "C10"] } else { vec!["C10"] },
        "pool.params" => return if matches!(op, Op::PInit { .. }) { vec!["C26"] } else { vec!["C11"] },
        "res.list" | "res.queued" | "res.cfg" => return vec!["C11"],
        "pem.share" => return vec!["C16"],
        "back.id" | "emit.id" if matches!(op, Op::BInit | Op::EInit) => return vec!["C26"],
        "back.id" => return vec!["C26"],
        "emit.id" | "emit.swap" | "emit.dropped" => return vec!["C25"],
        "emit.last" => return vec!["C24"],
        "back.rz" => return vec!["C23"],
        "back.last_dist" => return vec!["C23"],
        "back.lpval" => return vec!["C19"],
        "back.drop" => return vec!["C25"],
        "oracle" => return vec!["C07"],
        _ => {}
    }
    match op {
        Op::Submit { .. } => match cat {
            "pos" => {
                if fp.is_empty() {
                    vec!["C03"]
                } else {
                    with(fp, &["C03"])
                }
            }
            "pos.other" => with(fp, &["C02", "C08"]),
            "res.supply" => with(fp, &["C03", "C02"]),
            "bal" => with(fp, &["C03", "C01"]),
            "res.rates" => vec!["C04"],
            "res.credit" => {
                if t.contains(&8) {
                    vec!["C15", "C13", "C04"]
                } else {
                    vec!["C04"]
                }
            }
            "pem.data" | "pem.user" | "pem.cfg" => vec!["C16"],
            "auct" => with(fp, &["C13", "C12"]),
            c if c.starts_with("back.") => {
                let mut v = if t.contains(&7) { vec!["C14", "C18", "C13"] } else { vec!["C15", "C18", "C13"] };
                if c == "back.pool" {
                    v.push("C19");
                }
                v
            }
            _ => home(op),
        },
        Op::BadDebt { .. } => match cat {
            "pos" | "pos.other" | "res.supply" | "auct" => vec!["C14", "C02"],
            "res.rates" | "res.credit" => vec!["C04"],
            "pem.data" | "pem.user" | "pem.cfg" => vec!["C16"],
            _ => vec!["C14"],
        },
        Op::PoolGulp { .. } => match cat {
            c if c.starts_with("pem.") => vec!["C16"],
            _ => vec!["C16", "C22"],
        },
        Op::SRes { .. } => match cat {
            "res.rates" | "res.supply" | "res.credit" => vec!["C11", "C04"],
            _ => vec!["C11"],
        },
        Op::NewLiq { .. } => match cat {
            "res.rates" | "res.credit" => vec!["C04"],
            "pem.data" | "pem.user" => vec!["C16"],
            _ => vec!["C12"],
        },
        Op::NewBad { .. } => vec!["C14"],
        Op::NewInt { .. } => vec!["C15"],
        Op::UpdPool { .. } if cat.starts_with("res.") => vec!["C11", "C04"],
        Op::BDep { .. } => match cat {
            "back.ecfg" | "back.edata" | "back.uem" => vec!["C22"],
            _ => vec!["C19", "C18"],
        },
        Op::BQ { .. } | Op::BDeq { .. } => match cat {
            "back.ecfg" | "back.edata" | "back.uem" => vec!["C22"],
            _ => vec!["C20", "C18"],
        },
        Op::BWd { .. } => match cat {
            "back.ecfg" | "back.edata" | "back.uem" => vec!["C22"],
            "bal" => vec!["C19", "C20", "C18"],
            _ => vec!["C20", "C18", "C19"],
        },
        Op::BGulp => vec!["C23", "C22"],
        Op::BAdd { .. } if cat.starts_with("back.") => vec!["C23", "C22"],
        Op::BGulpPool { .. } => vec!["C22"],
        Op::BClaim { .. } => match cat {
            "back.ecfg" | "back.edata" | "back.uem" => vec!["C22"],
            "bal" | "allow" => vec!["C22", "C18"],
            _ => vec!["C22", "C18", "C19"],
        },
        Op::BDraw { .. } | Op::BDonate { .. } => match cat {
            "back.ecfg" | "back.edata" | "back.uem" => vec!["C22", "C18"],
            "back.pool" => vec!["C18", "C19", "C21"],
            _ => vec!["C18", "C21"],
        },
        Op::ESwap => vec!["C25", "C24"],
        _ => {
            let h = home(op);
            if h.is_empty() {
                vec!["C01"]
            } else {
                h.into_iter().filter(|p| *p != "C08" || matches!(op, Op::SetAdmin { .. })).collect()
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ state comparison

/// Bring lazily updated records to `now`, so that only what is observable is compared.
pub fn project(s: &mut Snap) {
    let now = s.ts;
    for p in s.pools.values_mut() {
        for (t, d) in p.data.iter_mut() {
            if let Some(c) = p.cfg.get(t) {
                let save = d.clone();
                if accrue(d, c, p.bstop_rate, now).is_none() {
                    *d = save;
                }
            }
        }
        let ids: Vec<u32> = p.edata.keys().copied().collect();
        for id in ids {
            let (cfg, data) = match (p.ecfg.get(&id), p.edata.get(&id)) {
                (Some(c), Some(d)) => (*c, *d),
                _ => continue,
            };
            let asset = match p.list.get((id / 2) as usize) {
                Some(a) => *a,
                None => continue,
            };
            let (sup, sc) = match (p.data.get(&asset), p.cfg.get(&asset)) {
                (Some(d), Some(c)) => {
                    (if id % 2 == 0 { d.d_supply } else { d.b_supply }, pow10(c.decimals).unwrap_or(S7))
                }
                _ => continue,
            };
            if let Some(x) = em_index(&cfg, &data, sup, sc, now, true) {
                // where nothing is emitted, the time of the last look at it means nothing
                p.edata.insert(id, (x.0, if cfg.1 == 0 { cfg.0 } else { x.1.min(cfg.0) }));
            }
        }
        p.pos.retain(|_, x| !x.is_empty());
        p.auct.retain(|_, a| !(a.bid.is_empty() && a.lot.is_empty() && a.block == 0));
    }
    let b = &mut s.back;
    let ids: Vec<Aid> = b.edata.keys().copied().collect();
    for id in ids {
        let (cfg, data) = match (b.ecfg.get(&id), b.edata.get(&id)) {
            (Some(c), Some(d)) => (*c, *d),
            _ => continue,
        };
        let bp = b.pool.get(&id).cloned().unwrap_or_default();
        if let Some(x) = em_index(&cfg, &data, bp.shares - bp.q4w, S7, now, false) {
            b.edata.insert(id, (x.0, if cfg.1 == 0 { cfg.0 } else { x.1.min(cfg.0) }));
        }
    }
    b.user.retain(|_, u| u.shares != 0 || !u.q.is_empty());
    b.pool.retain(|_, p| *p != BPool::default());
    b.pemis.retain(|_, v| *v != 0);
    s.emit.dropped.retain(|_, v| *v);
    s.bal.retain(|_, v| *v != 0);
    let seq = s.seq;
    s.allow.retain(|_, v| v.0 != 0 && v.1 >= seq);
}

/// (pool, user, id) -> what the user could claim now; expects a projected snapshot
pub fn pool_claimable(s: &Snap) -> Map<(Aid, Aid, u32), i128> {
    let mut m = Map::new();
    for p in s.pools.values() {
        for (id, data) in &p.edata {
            if !p.ecfg.contains_key(id) {
                continue;
            }
            let idx = id / 2;
            let sc = match p.list.get(idx as usize).and_then(|a| p.cfg.get(a)) {
                Some(c) => pow10(c.decimals).unwrap_or(S7),
                None => continue,
            };
            let users: BTreeSet<Aid> =
                p.pos.keys().copied().chain(p.uem.keys().filter(|k| k.1 == *id).map(|k| k.0)).collect();
            for u in users {
                let pos = p.pos.get(&u);
                let bal = pos.map_or(0, |x| if id % 2 == 0 { x.l(idx) } else { x.b(idx) });
                let rec = p.uem.get(&(u, *id));
                if rec.is_none() && bal == 0 {
                    continue;
                }
                if let Some((_, a)) = em_user(rec, bal, sc, data.0) {
                    m.insert((p.id, u, *id), a);
                }
            }
        }
    }
    m
}
pub fn back_claimable(s: &Snap) -> Map<(Aid, Aid), i128> {
    let b = &s.back;
    let mut m = Map::new();
    for (pool, data) in &b.edata {
        if !b.ecfg.contains_key(pool) {
            continue;
        }
        let users: BTreeSet<Aid> = b
            .user
            .keys()
            .chain(b.uem.keys())
            .filter(|k| k.0 == *pool)
            .map(|k| k.1)
            .collect();
        for u in users {
            let bal = b.user.get(&(*pool, u)).map_or(0, |x| x.shares);
            let rec = b.uem.get(&(*pool, u));
            if rec.is_none() && bal == 0 {
                continue;
            }
            if let Some((_, a)) = em_user(rec, bal, S7, data.0) {
                m.insert((*pool, u), a);
            }
        }
    }
    m
}

type Flat = BTreeMap<(&'static str, String), String>;
fn flatten(s: &Snap, party: &BTreeSet<Aid>) -> Flat {
    let mut f: Flat = BTreeMap::new();
    let mut put = |c: &'static str, k: String, v: String| {
        f.insert((c, k), v);
    };
    for p in s.pools.values() {
        let i = p.id;
        put("pool.id", format!("{i}"), format!("init={} name={} backstop={} blnd={} oracle={}", p.init, p.name, p.backstop, p.blnd, p.oracle));
        put("pool.admin", format!("{i}"), format!("{}", p.admin));
        put("pool.params", format!("{i}"), format!("take_rate={} max_positions={}", p.bstop_rate, p.max_positions));
        put("pool.status", format!("{i}"), format!("{}", p.status));
        put("res.list", format!("{i}"), format!("{:?}", p.list));
        for (k, v) in &p.queued {
            put("res.queued", format!("{i}/{k}"), format!("{v:?}"));
        }
        for (k, v) in &p.cfg {
            put("res.cfg", format!("{i}/{k}"), format!("{v:?}"));
        }
        for (k, d) in &p.data {
            put("res.rates", format!("{i}/{k}"), format!("d_rate={} b_rate={} ir_mod={} last={}", d.d_rate, d.b_rate, d.ir_mod, d.last_time));
            put("res.supply", format!("{i}/{k}"), format!("b={} d={}", d.b_supply, d.d_supply));
            put("res.credit", format!("{i}/{k}"), format!("{}", d.credit));
        }
        for (k, v) in &p.ecfg {
            put("pem.cfg", format!("{i}/{k}"), format!("{v:?}"));
        }
        for (k, v) in &p.edata {
            put("pem.data", format!("{i}/{k}"), format!("{v:?}"));
        }
        if !p.eshare.is_empty() {
            put("pem.share", format!("{i}"), format!("{:?}", p.eshare));
        }
        for (k, v) in &p.pos {
            put(if party.contains(k) { "pos" } else { "pos.other" }, format!("{i}/{k}"), format!("{v:?}"));
        }
        for (k, v) in &p.uem {
            put("pem.user", format!("{i}/{}/{}", k.0, k.1), format!("{v:?}"));
        }
        for (k, v) in &p.auct {
            put("auct", format!("{i}/{}/{}", k.0, k.1), format!("{v:?}"));
        }
    }
    let b = &s.back;
    put("back.id", String::new(), format!("init={} emitter={} token={} blnd={} usdc={} factory={}", b.init, b.emitter, b.token, b.blnd, b.usdc, b.factory));
    for (k, v) in &b.user {
        put("back.user", format!("{}/{}", k.0, k.1), format!("{v:?}"));
    }
    for (k, v) in &b.pool {
        put("back.pool", format!("{k}"), format!("{v:?}"));
    }
    for (k, v) in &b.pemis {
        put("back.pemis", format!("{k}"), format!("{v}"));
    }
    for (k, v) in &b.ecfg {
        put("back.ecfg", format!("{k}"), format!("{v:?}"));
    }
    for (k, v) in &b.edata {
        put("back.edata", format!("{k}"), format!("{v:?}"));
    }
    for (k, v) in &b.uem {
        put("back.uem", format!("{}/{}", k.0, k.1), format!("{v:?}"));
    }
    put("back.rz", String::new(), format!("{:?}", b.rz));
    put("back.last_dist", String::new(), format!("{}", b.last_dist));
    put("back.lpval", String::new(), format!("{:?}", b.lpval));
    put("back.drop", String::new(), format!("{:?}", b.drop));
    let e = &s.emit;
    put("emit.id", String::new(), format!("init={} backstop={} token={} blnd={}", e.init, e.backstop, e.token, e.blnd));
    put("emit.swap", String::new(), format!("{:?}", e.swap));
    put("emit.last", String::new(), format!("{:?}", e.last));
    put("emit.dropped", String::new(), format!("{:?}", e.dropped));
    put("oracle", String::new(), format!("{:?}", s.oracle));
    for (k, v) in &s.bal {
        put("bal", format!("{}/{}", k.0, k.1), format!("{v}"));
    }
    for (k, v) in &s.allow {
        put("allow", format!("{}/{}/{}", k.0, k.1, k.2), format!("{v:?}"));
    }
    f
}

fn same_raw(a: &Snap, b: &Snap) -> bool {
    a.pools == b.pools && a.back == b.back && a.emit == b.emit && a.bal == b.bal && a.allow == b.allow && a.oracle == b.oracle
}

/// Differences between the ledger observed and the ledger specified.
fn diff(real: &Snap, want: &Snap, party: &BTreeSet<Aid>) -> Vec<(&'static str, String)> {
    if same_raw(real, want) {
        return vec![];
    }
    let (mut r, mut w) = (real.clone(), want.clone());
    project(&mut r);
    project(&mut w);
    if same_raw(&r, &w) {
        return vec![];
    }
    let (fr, fw) = (flatten(&r, party), flatten(&w, party));
    let keys: BTreeSet<&(&'static str, String)> = fr.keys().chain(fw.keys()).collect();
    let mut out = vec![];
    let mut claims: Option<[Map<(Aid, Aid, u32), i128>; 2]> = None;
    let mut bclaims: Option<[Map<(Aid, Aid), i128>; 2]> = None;
    for k in keys {
        let (x, y) = (fr.get(k), fw.get(k));
        if x == y {
            continue;
        }
        if k.0 == "pem.user" {
            // a record brought up to date at another moment is fine if it is worth the same
            let n: Vec<usize> = k.1.split('/').map(|z| z.parse().unwrap()).collect();
            let key = (n[0], n[1], n[2] as u32);
            let c = claims.get_or_insert_with(|| [pool_claimable(&r), pool_claimable(&w)]);
            let (ru, wu) = (r.pools[&n[0]].uem.get(&(n[1], key.2)), w.pools[&n[0]].uem.get(&(n[1], key.2)));
            let (a, b) = (c[0].get(&key).copied().unwrap_or(0), c[1].get(&key).copied().unwrap_or(0));
            if ru.map(|z| z.0) != wu.map(|z| z.0) && (a - b).abs() <= 1 {
                continue;
            }
        }
        if k.0 == "back.uem" {
            let n: Vec<usize> = k.1.split('/').map(|z| z.parse().unwrap()).collect();
            let key = (n[0], n[1]);
            let c = bclaims.get_or_insert_with(|| [back_claimable(&r), back_claimable(&w)]);
            let (ru, wu) = (r.back.uem.get(&key), w.back.uem.get(&key));
            let (a, b) = (c[0].get(&key).copied().unwrap_or(0), c[1].get(&key).copied().unwrap_or(0));
            if ru.map(|z| z.0) != wu.map(|z| z.0) && (a - b).abs() <= 1 {
                continue;
            }
        }
        let none = "nothing".to_string();
        out.push((k.0, format!("{} [{}]: observed {} but must be {}", k.0, k.1, x.unwrap_or(&none), y.unwrap_or(&none))));
    }
    out
}

// ------------------------------------------------------------------------------------------------ return values

fn fld<'a>(v: &'a ScVal, n: &str) -> Option<&'a ScVal> {
    ledger::field(v, n)
}
fn ret_matches(want: &Ret, got: &ScVal, sc: &mut Scanner) -> bool {
    match want {
        Ret::None => matches!(got, ScVal::Void),
        Ret::I(i) => ledger::as_i128(got) == Some(*i),
        Ret::U(u) => matches!(got, ScVal::U32(x) if x == u),
        Ret::U64(u) => matches!(got, ScVal::U64(x) if x == u),
        Ret::Pos(p) => Scanner::pos(got).as_ref() == Some(p),
        Ret::Auct(a) => sc.auction(got).as_ref() == Some(a),
        Ret::Q4w(a, t) => {
            fld(got, "amount").and_then(ledger::as_i128) == Some(*a) && fld(got, "exp").and_then(ledger::as_u64) == Some(*t)
        }
        Ret::Pair(a, b) => match got {
            ScVal::Vec(Some(v)) => v.len() == 2 && ledger::as_i128(&v[0]) == Some(*a) && ledger::as_i128(&v[1]) == Some(*b),
            _ => false,
        },
        Ret::Addr(a) => matches!(got, ScVal::Address(x) if sc.id(x) == *a),
        Ret::BUser(u) => {
            let q = match fld(got, "q4w") {
                Some(ScVal::Vec(Some(v))) => v
                    .iter()
                    .map(|e| {
                        (fld(e, "amount").and_then(ledger::as_i128).unwrap_or(-1), fld(e, "exp").and_then(ledger::as_u64).unwrap_or(0))
                    })
                    .collect::<Vec<_>>(),
                _ => return false,
            };
            fld(got, "shares").and_then(ledger::as_i128) == Some(u.shares) && q == u.q
        }
        Ret::PoolData(t, q, b, u) => {
            let g = |n| fld(got, n).and_then(ledger::as_i128);
            g("tokens") == Some(*t) && g("q4w_pct") == Some(*q) && g("blnd") == Some(*b) && g("usdc") == Some(*u)
        }
        Ret::Swap(s) => match (s, got) {
            (None, ScVal::Void) => true,
            (Some((a, t, u)), v) => {
                let ad = |x: Option<&ScVal>, sc: &mut Scanner| match x {
                    Some(ScVal::Address(z)) => Some(sc.id(z)),
                    _ => None,
                };
                let (x, y) = (fld(v, "new_backstop").cloned(), fld(v, "new_backstop_token").cloned());
                ad(x.as_ref(), sc) == Some(*a)
                    && ad(y.as_ref(), sc) == Some(*t)
                    && fld(v, "unlock_time").and_then(ledger::as_u64) == Some(*u)
            }
            _ => false,
        },
    }
}

// ------------------------------------------------------------------------------------------------ the judge

fn parties(op: &Op, c: &Ctx) -> BTreeSet<Aid> {
    let mut s = BTreeSet::new();
    match op {
        Op::Submit { from, reqs, .. } => {
            s.insert(*from);
            for r in reqs {
                if r.0 >= 6 {
                    s.insert(r.1);
                }
                if r.0 == 7 {
                    s.insert(c.back);
                }
            }
        }
        Op::BadDebt { user, .. } => {
            s.insert(*user);
            s.insert(c.back);
        }
        _ => {}
    }
    s
}

fn hash(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}
fn hs(s: &str) -> u64 {
    hash(&s.bytes().map(|b| b as u64).collect::<Vec<_>>())
}

/// A fingerprint of the kind of situation an operation met, for counting how many different ones were judged.
fn signature(op: &Op, outcome: &str, pre: &Snap, post: &Snap) -> u64 {
    let mut v = vec![hs(op.kind()), hs(outcome)];
    if let Op::Submit { reqs, .. } = op {
        for r in reqs {
            v.push(r.0 as u64 + 1);
        }
    }
    if let Some(p) = op.pool().and_then(|p| pre.pools.get(&p)) {
        v.push(p.status as u64);
        v.push(p.auct.len() as u64);
    }
    let lg = |x: i128| 128 - x.unsigned_abs().leading_zeros() as u64;
    if !outcome.ends_with(":ok") {
        if let Op::Submit { reqs, .. } = op {
            for r in reqs {
                v.push(lg(r.2));
            }
        }
    } else {
        for (k, x) in &post.bal {
            let d = x - pre.bal.get(k).copied().unwrap_or(0);
            if d != 0 {
                v.push(lg(d) + 200 * (d > 0) as u64);
            }
        }
        v.push(lg((post.ts - pre.back.last_dist.min(post.ts)) as i128));
    }
    hash(&v)
}

pub struct Judge<'a> {
    pub c: &'a Ctx,
    pub cov: &'a mut Cov,
    pub track: &'a mut Track,
}

impl<'a> Judge<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn judge(
        &mut self,
        pre: &Snap,
        post: &Snap,
        op: &Op,
        auth: &Auth,
        seen: &Seen,
        res: &R<()>,
        m: &Model,
        big: bool,
        min_life: u32,
        sc: &mut Scanner,
    ) -> Vec<Viol> {
        let mut out: Vec<Viol> = vec![];
        let c = self.c;
        self.cov.ops += 1;
        if seen.ok {
            self.cov.ok += 1
        } else {
            self.cov.refused += 1
        }
        for n in crate::situ::situations(pre, op, seen.ok, c.back) {
            *self.cov.situations.entry(n).or_insert(0) += 1;
        }
        for n in &m.notes {
            *self.cov.notes.entry(n).or_insert(0) += 1;
        }
        let env_op = matches!(op, Op::Time { .. } | Op::Price { .. } | Op::Mint { .. } | Op::Xfer { .. });
        let party = parties(op, c);
        let mut specified = true;

        // ---- authorisation
        if let Auth::Only(signers) = auth {
            let missing = m.need.iter().any(|a| !signers.contains(a));
            // `need` is collected as the specification runs: before it refuses, everything needed so far is in it
            if missing {
                for p in auth_props(op) {
                    self.count(p, op, "unauthorised", pre, post);
                }
                if seen.ok {
                    out.push(Viol::new(auth_props(op), format!("succeeded with signatures of {signers:?} only; {:?} must authorise it", m.need)));
                }
                specified = false;
            } else if !seen.ok {
                // authorisation of nested token transfers was withheld too: nothing to judge
                specified = false;
            }
        } else if seen.ok && !env_op && res.is_ok() {
            self.cov.auth_trees += 1;
            let want: BTreeSet<Aid> = m.need.iter().copied().collect();
            let mut got: BTreeSet<Aid> = BTreeSet::new();
            for (who, ct, f, args) in &seen.auths {
                got.insert(*who);
                if *ct != seen.root.0 || *f != seen.root.1 || *args != seen.root.2 {
                    out.push(Viol::new(auth_props(op), format!("asked {who} to authorise {f} on contract {ct} with other arguments than the call's")));
                }
            }
            if want != got {
                out.push(Viol::new(auth_props(op), format!("authorised by {got:?} but must be authorised by {want:?}")));
            }
            for p in auth_props(op) {
                self.count(p, op, "auth-tree", pre, post);
            }
        }

        // ---- outcome and state
        if specified {
            match (seen.ok, res) {
                (true, Ok(())) => {
                    if !env_op {
                        for p in home(op) {
                            self.count(p, op, "ok", pre, post);
                        }
                    }
                    self.cov.state_compared += 1;
                    for (cat, what) in diff(post, &m.s, &party) {
                        out.push(Viol::new(attrib(op, cat), what));
                    }
                    if let Some(g) = &seen.ret {
                        if !ret_matches(&m.ret, g, sc) {
                            let mut props = vec!["C27"];
                            props.extend(home(op).into_iter().filter(|p| {
                                matches!(*p, "C12" | "C14" | "C15" | "C20" | "C19" | "C24" | "C22" | "C16" | "C10")
                            }));
                            if matches!(op, Op::Submit { .. }) {
                                props = vec!["C27", "C03"];
                            }
                            out.push(Viol::new(props, format!("returned {g:?} but must return {:?}", m.ret)));
                        }
                        self.count("C27", op, "return", pre, post);
                    }
                }
                (true, Err(why)) => {
                    if *why == ARITH || big {
                        self.cov.not_judged_arith += 1;
                    } else {
                        let mut props = why_props(op, why);
                        if props.is_empty() {
                            props = home(op);
                        }
                        out.push(Viol::new(props, format!("succeeded but must be refused ({why})")));
                    }
                }
                (false, r) => {
                    match r {
                        Ok(()) => {
                            if big {
                                self.cov.not_judged_arith += 1;
                            } else if !env_op {
                                out.push(Viol::new(wrong_refusal(op, &seen.err), format!("refused ({}) but must go through", seen.err)));
                            }
                        }
                        Err(why) => {
                            let props = why_props(op, why);
                            for p in props {
                                self.count(p, op, why, pre, post);
                            }
                        }
                    }
                }
            }
        }
        if !seen.ok && !env_op && !same_raw(pre, post) {
            // the host rolls back failed calls, so this cannot come from the contracts
            out.push(Viol::new(home(op), "a refused call left a change in the ledger".into()));
        }
        if seen.ok {
            self.invariants(pre, post, op, auth, seen, m, res.is_ok(), &mut out);
            if !env_op && min_life < 1_000_000 {
                self.lifetimes(op, seen, pre, post, sc, &mut out);
            }
        }
        out
    }

    fn count(&mut self, p: Prop, op: &Op, outcome: &str, pre: &Snap, post: &Snap) {
        let label = format!("{}:{}", op.kind(), outcome);
        let sig = signature(op, &label, pre, post);
        let e = self.cov.per.entry(p).or_default();
        e.judged += 1;
        *e.outcomes.entry(label).or_insert(0) += 1;
        e.distinct.insert(sig);
    }

    /// C29: what an accepted call wrote, and the contract it called, stay on the ledger long enough.
    fn lifetimes(&mut self, op: &Op, seen: &Seen, pre: &Snap, post: &Snap, sc: &Scanner, out: &mut Vec<Viol>) {
        let mut n = 0;
        for ch in &seen.changes {
            let kind = match sc.kinds.get(&ch.contract) {
                Some(k @ (Kind::Pool | Kind::Backstop | Kind::Emitter)) if !ch.removed => *k,
                _ => continue,
            };
            let name = record(&ch.key);
            let Some(days) = need_days(kind, &name, ch.fresh) else { continue };
            n += 1;
            *self.cov.notes.entry("C29 records").or_insert(0) += 1;
            if ch.life < days * DAY_LEDGERS {
                out.push(Viol::new(
                    vec!["C29"],
                    format!("record {name} of {kind:?} {} has {} ledgers to live, must have {days} days", ch.contract, ch.life),
                ));
            }
        }
        let bumps = !matches!(
            op,
            Op::View(_) | Op::BadDebt { .. } | Op::NewLiq { .. } | Op::SRes { .. } | Op::SetEmis { .. } | Op::BDrop
        );
        if bumps {
            let c = seen.root.0;
            if let Some(l) = sc.instance_life(c) {
                n += 1;
                if l < 30 * DAY_LEDGERS {
                    out.push(Viol::new(vec!["C29"], format!("contract {c} has {l} ledgers to live after the call, must have 30 days")));
                }
            }
        }
        if n > 0 {
            self.count("C29", op, "lives", pre, post);
        }
    }

    /// Checks that do not use the specification's transition function.
    #[allow(clippy::too_many_arguments)]
    fn invariants(
        &mut self,
        pre: &Snap,
        post: &Snap,
        op: &Op,
        auth: &Auth,
        seen: &Seen,
        m: &Model,
        model_ok: bool,
        out: &mut Vec<Viol>,
    ) {
        let c = self.c;
        let mut bad = |p: &[Prop], what: String| out.push(Viol::new(p.to_vec(), what));
        let t = types_of(op);
        for (id, p) in &post.pools {
            let old = match pre.pools.get(id) {
                Some(o) => o,
                None => continue,
            };
            if p == old && pre.bal.len() == post.bal.len() && matches!(op, Op::Time { .. }) {
                continue;
            }
            // C02
            let n = p.list.len() as u32;
            let mut sum_b: Map<u32, i128> = Map::new();
            let mut sum_d: Map<u32, i128> = Map::new();
            for (u, x) in &p.pos {
                for (mm, debt) in [(&x.coll, false), (&x.supp, false), (&x.liab, true)] {
                    let s = if debt { &mut sum_d } else { &mut sum_b };
                    for (i, v) in mm {
                        if *v <= 0 || *i >= n {
                            bad(&["C02"], format!("account {u} of pool {id} holds {v} of reserve {i}"));
                        }
                        *s.entry(*i).or_insert(0) += v;
                    }
                }
            }
            for (i, a) in p.list.iter().enumerate() {
                let i = i as u32;
                let d = match p.data.get(a) {
                    Some(d) => d,
                    None => {
                        bad(&["C02", "C11"], format!("reserve {a} of pool {id} has no data"));
                        continue;
                    }
                };
                let (sb, sd) = (sum_b.get(&i).copied().unwrap_or(0), sum_d.get(&i).copied().unwrap_or(0));
                if sb != d.b_supply || sd != d.d_supply {
                    bad(
                        &["C02"],
                        format!(
                            "pool {id} reserve {a}: accounts hold {sb} supply and {sd} debt shares, the reserve says {} and {}",
                            d.b_supply, d.d_supply
                        ),
                    );
                }
                self.cov.inv("C02 share sums");
                // C01
                let slack = |s: &Snap, p: &PoolS, d: &ResData| -> Option<i128> {
                    Some(s.bal(*a, p.id) + total_liab(d)? - total_supply(d)? - d.credit)
                };
                if let Some(new) = slack(post, p, d) {
                    self.cov.inv("C01 solvency");
                    let burnt = m.burned.get(&(*id, *a)).copied().unwrap_or(0);
                    if burnt > 0 && model_ok {
                        self.track.burned_any.insert((*id, *a));
                    }
                    if new < 0 && !self.track.burned_any.contains(&(*id, *a)) {
                        bad(&["C01"], format!("pool {id} reserve {a} owes {} more than it holds", -new));
                    }
                    if let Some(od) = old.data.get(a) {
                        if let Some(o) = slack(pre, old, od) {
                            let allowed = if model_ok { burnt } else { 0 };
                            if new < o - allowed {
                                bad(
                                    &["C01"],
                                    format!("pool {id} reserve {a}: assets minus obligations fell from {o} to {new}"),
                                );
                            }
                        }
                    }
                }
                if d.credit < 0 {
                    bad(&["C15"], format!("pool {id} reserve {a}: the backstop's credit is {}", d.credit));
                }
                // C04
                if let Some(od) = old.data.get(a) {
                    self.cov.inv("C04 rates");
                    if d.b_rate < od.b_rate || d.d_rate < od.d_rate || d.b_rate < S9 || d.d_rate < S9 {
                        bad(&["C04"], format!("pool {id} reserve {a}: rates went from {od:?} to {d:?}"));
                    }
                    if !(S9 / 10..=10 * S9).contains(&d.ir_mod) {
                        bad(&["C04"], format!("pool {id} reserve {a}: rate modifier {} out of range", d.ir_mod));
                    }
                    if d.last_time > post.ts || d.last_time < od.last_time {
                        bad(&["C04"], format!("pool {id} reserve {a}: accrual time {} at {}", d.last_time, post.ts));
                    }
                    if od.last_time == post.ts && (d.b_rate != od.b_rate || d.d_rate != od.d_rate) {
                        bad(&["C04"], format!("pool {id} reserve {a}: interest accrued twice in one instant"));
                    }
                }
                // C11
                if let (Some(oc), Some(nc)) = (old.cfg.get(a), p.cfg.get(a)) {
                    if oc.decimals != nc.decimals || oc.index != nc.index || nc.index != i {
                        bad(&["C11"], format!("pool {id} reserve {a}: identity changed from {oc:?} to {nc:?}"));
                    }
                }
                if let Some(nc) = p.cfg.get(a) {
                    self.cov.inv("C11 reserve configs");
                    if old.cfg.get(a) != Some(nc) {
                        let ok = old.queued.get(a).map_or(false, |(q, u)| {
                            *u <= post.ts && { let mut q = q.clone(); q.index = nc.index; q == *nc }
                        });
                        if !ok || !matches!(op, Op::SRes { .. }) {
                            bad(&["C11"], format!("pool {id} reserve {a}: parameters became {nc:?} without a matured proposal"));
                        }
                    }
                    if !valid_cfg(nc) {
                        bad(&["C11"], format!("pool {id} reserve {a} has unsafe parameters {nc:?}"));
                    }
                }
            }
            if p.list.len() < old.list.len() || p.list[..old.list.len()] != old.list[..] || p.list.len() > 32 {
                bad(&["C11"], format!("pool {id}: reserve list went from {:?} to {:?}", old.list, p.list));
            }
            for (a, (_, unlock)) in &p.queued {
                if old.queued.get(a) != p.queued.get(a) && old.status != 6 && *unlock < post.ts + WEEK {
                    bad(&["C11"], format!("pool {id}: change to reserve {a} can be made before a week has passed"));
                }
            }
            // C10
            if p.status != old.status && !matches!(op, Op::UpdStatus { .. } | Op::SetStatus { .. } | Op::PInit { .. }) {
                bad(&["C10"], format!("pool {id}: status went from {} to {} in {}", old.status, p.status, op.kind()));
            }
            if old.init && p.admin != old.admin && !matches!(op, Op::SetAdmin { .. }) {
                bad(&["C08"], format!("pool {id}: admin changed in {}", op.kind()));
            }
            // C08: whose account may change
            for u in p.pos.keys().chain(old.pos.keys()) {
                let e = Pos::default();
                if p.pos.get(u).unwrap_or(&e) != old.pos.get(u).unwrap_or(&e) {
                    self.cov.inv("C08 account changes");
                    let allowed = match op {
                        Op::Submit { from, reqs, pool, .. } => {
                            *pool == *id
                                && (from == u
                                    || reqs.iter().any(|r| r.0 == 6 && r.1 == *u)
                                    || (*u == c.back && reqs.iter().any(|r| r.0 == 7)))
                        }
                        Op::BadDebt { user, pool } => *pool == *id && (user == u || *u == c.back),
                        _ => false,
                    };
                    if !allowed {
                        bad(&["C08", "C02"], format!("account {u} of pool {id} changed without a part in {}", op.kind()));
                    }
                }
            }
        }
        // C05, C06, C07, C09 on the submit that just went through
        if let Op::Submit { pool, from, reqs, .. } = op {
            if let (Some(p), Some(o)) = (post.pools.get(pool), pre.pools.get(pool)) {
                let st = o.status;
                for r in reqs {
                    if (st > 1 && (r.0 == 4 || r.0 == 9)) || (st > 3 && (r.0 == 0 || r.0 == 2)) {
                        bad(&["C09"], format!("request {} went through while the pool's status was {st}", r.0));
                    }
                }
                self.cov.inv("C09 status gate");
                let pos = p.pos.get(from).cloned().unwrap_or_default();
                let opos = o.pos.get(from).cloned().unwrap_or_default();
                if pos.count() > p.max_positions && pos.count() > opos.count() {
                    bad(&["C06"], format!("{} positions were opened where {} are allowed", pos.count(), p.max_positions));
                }
                self.cov.inv("C06 position count");
                if [3u32, 4, 6, 7, 9].iter().any(|x| t.contains(x)) && !pos.liab.is_empty() {
                    let mut mm = Model::new(post, c);
                    match mm.health(*pool, &pos) {
                        Ok(h) => {
                            self.cov.inv("C05 health");
                            if h.under(10_000_100).unwrap_or(false) {
                                bad(&["C05"], format!("left health factor {:?} / {}", h.hf(), h.scalar));
                            }
                        }
                        Err(w) if w != ARITH => {
                            bad(&["C07", "C05"], format!("risk was taken on although a price was missing or old ({w})"))
                        }
                        _ => {}
                    }
                    self.cov.inv("C07 quotes");
                }
            }
        }
        // C12: an auction against an account appears only when that account is under water
        if let Op::NewLiq { pool, user, .. } = op {
            if let Some(o) = pre.pools.get(pool) {
                let mut s2 = pre.clone();
                s2.ts = post.ts;
                let pos = o.pos.get(user).cloned().unwrap_or_default();
                if let Ok(h) = Model::new(&s2, c).health(*pool, &pos) {
                    self.cov.inv("C12 insolvency");
                    if h.lb < h.cb {
                        bad(&["C12"], format!("auction opened against a healthy account ({h:?})"));
                    }
                }
            }
        }
        // token flows
        self.flows(pre, post, op, auth, seen, &mut bad);
        self.backstop(pre, post, op, &mut bad);
        if let Some(v) = self.emissions(pre, post, op, &mut bad) {
            out.push(v);
        }
    }

    fn flows(&mut self, pre: &Snap, post: &Snap, op: &Op, auth: &Auth, seen: &Seen, bad: &mut dyn FnMut(&[Prop], String)) {
        let c = self.c;
        let mut tot: Map<Aid, i128> = Map::new();
        for (k, v) in &post.bal {
            let d = v - pre.bal.get(k).copied().unwrap_or(0);
            if d == 0 {
                continue;
            }
            *tot.entry(k.0).or_insert(0) += d;
            let holder = k.1;
            if d < 0 {
                self.cov.inv("C08 payers");
                let contract = holder == c.back || holder == c.lp || post.pools.contains_key(&holder);
                let by_env = matches!(op, Op::Xfer { from, .. } if *from == holder);
                let signed = match auth {
                    Auth::All => seen.auths.iter().any(|a| a.0 == holder),
                    Auth::Only(l) => l.contains(&holder),
                };
                if !contract && !by_env && !signed {
                    bad(auth_props(op).as_slice(), format!("{holder} paid {} of token {} without signing", -d, k.0));
                }
            }
        }
        let minted = match op {
            Op::Mint { token, amt, .. } => Some((*token, *amt)),
            _ => None,
        };
        let el = |s: &Snap| s.emit.last.get(&s.emit.backstop).copied().unwrap_or(0);
        if !tot.is_empty() {
            self.cov.inv("token conservation");
        }
        for (t, d) in tot {
            if let Some((mt, ma)) = minted {
                if t == mt {
                    if d != ma {
                        bad(&["C01"], format!("supply of token {t} moved by {d} on a mint of {ma}"));
                    }
                    continue;
                }
            }
            if t == c.lp && matches!(op, Op::BClaim { .. }) {
                continue;
            }
            if t == c.blnd {
                match op {
                    Op::EDist | Op::ESwap => {
                        self.track.issued += d;
                        continue;
                    }
                    Op::BDrop | Op::EDrop { .. } => {
                        let e = self.track.drops.entry(pre.emit.backstop).or_insert(0);
                        *e += d;
                        if *e > 50_000_000 * S7 {
                            bad(&["C25"], format!("{e} BLND was dropped for backstop {}", pre.emit.backstop));
                        }
                        continue;
                    }
                    _ => {}
                }
            }
            if d != 0 {
                let p: &[Prop] = if t == c.blnd { &["C24"] } else { &["C01", "C18"] };
                bad(p, format!("supply of token {t} moved by {d} in {}", op.kind()));
            }
        }
        if matches!(op, Op::ESwap) && post.emit.backstop == c.back && pre.emit.backstop != c.back {
            if let Some(l) = pre.emit.last.get(&c.back) {
                self.track.regained += (post.ts - l) as i128 * S7;
            }
        }
        if matches!(op, Op::EDist | Op::ESwap) {
            self.cov.inv("C24 issuance");
            let want = (post.ts - self.track.t0) as i128 * S7;
            if self.track.issued != want {
                bad(&["C24"], format!("{} BLND issued after {} s, must be {want}", self.track.issued, post.ts - self.track.t0));
            }
        }
        let _ = el;
    }

    fn backstop(&mut self, pre: &Snap, post: &Snap, op: &Op, bad: &mut dyn FnMut(&[Prop], String)) {
        let c = self.c;
        if pre.back == post.back && pre.bal == post.bal {
            return;
        }
        let sum = |s: &Snap| s.back.pool.values().map(|p| p.tokens).sum::<i128>();
        let (o, n) = (pre.bal(c.lp, c.back) - sum(pre), post.bal(c.lp, c.back) - sum(post));
        self.cov.inv("C18 custody");
        let stray = match op {
            Op::Mint { token, to, amt } if *token == c.lp && *to == c.back => *amt,
            Op::Xfer { token, from, to, amt } if *token == c.lp && *to == c.back && *from != c.back => *amt,
            _ => 0,
        };
        if n < 0 || n < o {
            bad(&["C18"], format!("backstop holds {n} more than the pools' deposits add up to, it was {o}"));
        } else if n > o + stray && !matches!(op, Op::BClaim { .. }) {
            bad(&["C18"], format!("{} backstop tokens came in without being credited", n - o - stray));
        } else if n > o + 64 && matches!(op, Op::BClaim { .. }) {
            bad(&["C18", "C22"], format!("{} backstop tokens bought for a claim were not credited", n - o));
        }
        let mut sh: Map<Aid, i128> = Map::new();
        let mut qs: Map<Aid, i128> = Map::new();
        for ((p, u), x) in &post.back.user {
            let q: i128 = x.q.iter().map(|y| y.0).sum();
            *sh.entry(*p).or_insert(0) += x.shares + q;
            *qs.entry(*p).or_insert(0) += q;
            if x.shares < 0 || x.q.iter().any(|y| y.0 < 0) || x.q.len() > 21 {
                bad(&["C18", "C20"], format!("account {u} of backstop pool {p} is {x:?}"));
            }
            if x.q.windows(2).any(|w| w[0].1 > w[1].1) {
                bad(&["C20"], format!("withdrawal queue of {u} for {p} is out of order: {:?}", x.q));
            }
        }
        for (p, x) in &post.back.pool {
            let (s, q) = (sh.get(p).copied().unwrap_or(0), qs.get(p).copied().unwrap_or(0));
            if s != x.shares {
                bad(&["C18"], format!("backstop pool {p}: accounts hold {s} shares, the pool says {}", x.shares));
            }
            if q != x.q4w {
                bad(&["C18", "C20"], format!("backstop pool {p}: accounts have {q} queued, the pool says {}", x.q4w));
            }
            if x.tokens < 0 || x.shares < 0 {
                bad(&["C18"], format!("backstop pool {p} is {x:?}"));
            }
            self.cov.inv("C18 share sums");
            if let Some(o) = pre.back.pool.get(p) {
                let draw = matches!(op, Op::BDraw { .. }) || types_of(op).contains(&7);
                if !draw && o.shares > 0 && x.shares > 0 {
                    if let (Some(a), Some(b)) = (x.tokens.checked_mul(o.shares), o.tokens.checked_mul(x.shares)) {
                        self.cov.inv("C19 share value");
                        if a < b {
                            bad(&["C19"], format!("share value of backstop pool {p} fell: {o:?} to {x:?}"));
                        }
                    }
                }
            }
        }
        // an entry that has not matured leaves the queue only by being dequeued
        for (k, u) in &pre.back.user {
            if u.q.is_empty() {
                continue;
            }
            let nq = post.back.user.get(k).map(|x| x.q.clone()).unwrap_or_default();
            if nq == u.q {
                continue;
            }
            self.cov.inv("C20 maturity");
            if let Op::BDeq { from, pool, .. } = op {
                if (*pool, *from) == *k {
                    continue;
                }
            }
            let young = |q: &Vec<(i128, u64)>| -> i128 { q.iter().filter(|x| x.1 > post.ts).map(|x| x.0).sum() };
            if young(&nq) < young(&u.q) {
                bad(&["C20"], format!("queued shares of {k:?} left before their time: {:?} to {nq:?}", u.q));
            }
        }
        if post.back.rz != pre.back.rz {
            self.cov.inv("C23 reward zone");
            let z: BTreeSet<Aid> = post.back.rz.iter().copied().collect();
            let max = 10 + (post.ts.saturating_sub(1_713_139_200) >> 23) as usize;
            if z.len() != post.back.rz.len() || z.len() > max {
                bad(&["C23"], format!("reward zone became {:?} (at most {max} distinct)", post.back.rz));
            }
        }
    }

    fn emissions(&mut self, pre: &Snap, post: &Snap, op: &Op, bad: &mut dyn FnMut(&[Prop], String)) -> Option<Viol> {
        let c = self.c;
        let any = !post.back.ecfg.is_empty() || post.pools.values().any(|p| !p.ecfg.is_empty());
        if !any {
            return None;
        }
        let (mut a, mut b) = (pre.clone(), post.clone());
        project(&mut a);
        project(&mut b);
        for (id, p) in &post.pools {
            if let Some((amt, until)) = post.allow.get(&(c.blnd, c.back, *id)) {
                if *until < post.seq && *amt > 0 {
                    self.track.allow_expired.insert(*id);
                }
            } else if !p.ecfg.is_empty() {
                self.track.allow_expired.insert(*id);
            }
        }
        // nobody's accrued emissions shrink except by their own claim
        let (pc, nc) = (pool_claimable(&a), pool_claimable(&b));
        let mut owed: Map<Aid, i128> = Map::new();
        for ((p, u, id), v) in &nc {
            *owed.entry(*p).or_insert(0) += v;
            if let Some(o) = pc.get(&(*p, *u, *id)) {
                let own = matches!(op, Op::PClaim { pool, from, .. } if pool == p && from == u);
                if !own && v + 1 < *o {
                    bad(&["C16"], format!("emissions owed to {u} by pool {p} for {id} fell from {o} to {v}"));
                }
            }
        }
        for ((p, u, id), o) in &pc {
            if *o > 1 && !nc.contains_key(&(*p, *u, *id)) {
                bad(&["C16"], format!("emissions of {o} owed to {u} by pool {p} for {id} vanished"));
            }
        }
        for (id, p) in &b.pools {
            if p.ecfg.is_empty() || self.track.allow_expired.contains(id) {
                continue;
            }
            let mut need = owed.get(id).copied().unwrap_or(0);
            for (k, cfg) in &p.ecfg {
                let last = p.edata.get(k).map_or(0, |x| x.1);
                if cfg.0 > last {
                    need += cfg.1 as i128 * (cfg.0 - last) as i128;
                }
            }
            self.cov.inv("C16 funding");
            let have = post.allowance(c.blnd, c.back, *id);
            if have < need {
                bad(&["C16"], format!("pool {id} may draw {have} BLND but has promised {need}"));
            }
        }
        let (pc, nc) = (back_claimable(&a), back_claimable(&b));
        let mut need = 0i128;
        for ((p, u), v) in &nc {
            need += v;
            if let Some(o) = pc.get(&(*p, *u)) {
                let own = matches!(op, Op::BClaim { from, pools, .. } if from == u && pools.contains(p));
                if !own && v + 1 < *o {
                    bad(&["C22"], format!("backstop emissions owed to {u} for pool {p} fell from {o} to {v}"));
                }
            }
        }
        for ((p, u), o) in &pc {
            if *o > 1 && !nc.contains_key(&(*p, *u)) {
                bad(&["C22"], format!("backstop emissions of {o} owed to {u} for pool {p} vanished"));
            }
        }
        for (k, cfg) in &b.back.ecfg {
            let last = b.back.edata.get(k).map_or(0, |x| x.1);
            if cfg.0 > last {
                need += cfg.1 as i128 * (cfg.0 - last) as i128;
            }
        }
        need += b.back.pemis.values().sum::<i128>();
        for ((t, f, _), v) in &b.allow {
            if *t == c.blnd && *f == c.back {
                need += v.0;
            }
        }
        self.cov.inv("C22 funding");
        let have = post.bal(c.blnd, c.back);
        if have < need {
            let known = have + self.track.regained >= need;
            return Some(Viol {
                props: vec!["C22"],
                what: format!("backstop holds {have} BLND but has promised {need}"),
                known: if known { Some("regained-emitter") } else { None },
            });
        }
        None
    }
}
