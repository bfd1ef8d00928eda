//! In which situations the calls were made: coarse descriptions of the state a call met and how it ended.
//! Only counted and reported, never judged.
use crate::ops::Op;
use crate::types::*;

fn b<T: PartialOrd + Copy>(x: T, cuts: &[(T, &'static str)], over: &'static str) -> &'static str {
    for (c, n) in cuts {
        if x <= *c {
            return n;
        }
    }
    over
}
fn few(n: usize) -> &'static str {
    b(n, &[(0, "0"), (1, "1"), (2, "2"), (3, "3"), (5, "4-5"), (10, "6-10")], ">10")
}
fn gap(dt: u64) -> &'static str {
    b(dt, &[(0, "0"), (3600, "hour"), (86_400, "day"), (604_800, "week"), (31_536_000, "year")], "years")
}

pub fn situations(s: &Snap, op: &Op, ok: bool, back: Aid) -> Vec<String> {
    let mut v = vec![];
    let e = if ok { "ok" } else { "refused" };
    if let Some(p) = op.pool().and_then(|p| s.pools.get(&p)) {
        if let Op::Submit { from, spender, to, reqs, .. } = op {
            v.push(format!("batch of {} {e}", few(reqs.len())));
            v.push(format!("parties from{}spender{}to {e}", if from == spender { "=" } else { "!=" }, if spender == to { "=" } else { "!=" }));
            let pos = p.pos.get(from).cloned().unwrap_or_default();
            v.push(format!("sender holds {} debts {} collateral {} supply {e}", few(pos.liab.len()), few(pos.coll.len()), few(pos.supp.len())));
            for (t, a, amt) in reqs {
                v.push(format!("request {t} in status {} {e}", p.status));
                let emis = |k: u32| match p.ecfg.get(&k) {
                    None => "none",
                    Some((x, _)) if *x <= s.ts => "expired",
                    Some((_, 0)) => "idle",
                    _ => "running",
                };
                if let (0..=5, Some(d), Some(c)) = (t, p.data.get(a), p.cfg.get(a)) {
                    let k = 2 * c.index + (!matches!(t, 4 | 5)) as u32;
                    v.push(format!("request {t} emissions {} {e}", emis(k)));
                    v.push(format!("request {t} decimals {} {e}", c.decimals));
                    v.push(format!("reserve {} {e}", few(c.index as usize)));
                    v.push(format!("request {t} interest of {} {e}", gap(s.ts.saturating_sub(d.last_time))));
                    let sup = d.b_supply.saturating_mul(d.b_rate) / 1_000_000_000;
                    let li = d.d_supply.saturating_mul(d.d_rate) / 1_000_000_000;
                    let u = if sup == 0 { 0 } else { li.saturating_mul(10_000_000) / sup };
                    let t7 = c.util as i128;
                    let un = if sup == 0 && li > 0 { "owed though none supplied" } else if sup == 0 { "empty" } else if li == 0 { "0" } else { b(u, &[(100, "tiny"), (t7, "<target"), (9_500_000, "<95"), (9_999_999, "<100"), (10_000_000, "100"), (100_000_000, ">100")], ">1000") };
                    v.push(format!("request {t} utilisation {un} {e}"));
                    v.push(format!("rate modifier {} {e}", b(d.ir_mod, &[(100_000_000, "floor"), (999_999_999, "<1"), (1_000_000_000, "1"), (9_999_999_999, ">1")], "cap")));
                    v.push(format!("take rate {} {e}", b(p.bstop_rate, &[(0, "0"), (1, "1"), (5_000_000, "<half")], ">half")));
                    let rate = if matches!(t, 4 | 5) { d.d_rate } else { d.b_rate };
                    v.push(format!("request {t} at rate {} {e}", b(rate, &[(0, "0"), (999_999_999, "<1"), (1_000_000_000, "1"), (2_000_000_000, "<2"), (10_000_000_000, "<10")], ">10")));
                    let have = match t {
                        1 => pos.s(c.index).saturating_mul(d.b_rate) / 1_000_000_000,
                        3 => pos.c(c.index).saturating_mul(d.b_rate) / 1_000_000_000,
                        5 => pos.l(c.index).saturating_mul(d.d_rate) / 1_000_000_000,
                        _ => -1,
                    };
                    if have >= 0 {
                        let d = amt.saturating_sub(have);
                        let w = if have == 0 { "nothing" } else { b(d, &[(-3, "less than"), (-1, "just less than"), (0, "exactly"), (2, "just more than")], "more than") };
                        v.push(format!("request {t} of {w} held {e}"));
                    }
                    if p.auct.contains_key(&(*from, 0)) {
                        v.push(format!("request {t} by an account under auction {e}"));
                    }
                    if *from == back || *to == back || *spender == back {
                        v.push(format!("request {t} with the backstop as party {e}"));
                    }
                }
                if let 6..=8 = t {
                    if let Some(x) = p.auct.get(&(*a, t - 6)) {
                        let dt = s.seq as i64 - x.block as i64;
                        let n = b(dt, &[(-1, "before"), (0, "0"), (199, "<200"), (200, "200"), (399, "<400"), (400, "400")], ">400");
                        v.push(format!("fill {t} at block {n} {e}"));
                        v.push(format!("fill {t} of {} percent {e}", b(*amt, &[(0, "<=0"), (1, "1"), (99, "<100"), (100, "100")], ">100")));
                        v.push(format!("fill {t} bid {} lot {} {e}", few(x.bid.len()), few(x.lot.len())));
                        let holds = x.bid.keys().filter(|a| p.cfg.get(a).map_or(false, |c| pos.l(c.index) > 0)).count();
                        v.push(format!("fill {t} filler owes {} of the bid {e}", few(holds)));
                        if *t == 7 {
                            let b = s.back.pool.get(&p.id).cloned().unwrap_or_default();
                            v.push(format!("fill 7 with deposits {} {e}", if b.tokens == 0 { "none" } else { "some" }));
                        }
                    }
                }
            }
        }
        if let Op::NewLiq { user, .. } = op {
            let x = p.pos.get(user).cloned().unwrap_or_default();
            v.push(format!("liquidation of {} debts {} collateral {e}", few(x.liab.len()), few(x.coll.len())));
            v.push(format!("liquidation in status {} {e}", p.status));
        }
        if let Op::BadDebt { user, .. } = op {
            let x = p.pos.get(user).cloned().unwrap_or_default();
            let y = p.pos.get(&back).cloned().unwrap_or_default();
            v.push(format!("bad debt of {} onto {} {e}", few(x.liab.len()), few(y.liab.len())));
        }
        if let Op::PClaim { ids, .. } = op {
            for k in ids {
                v.push(format!("pool claim {} {e}", match p.ecfg.get(k) { None => "none", Some((x, _)) if *x <= s.ts => "expired", _ => "running" }));
            }
        }
        if let Op::NewInt { assets, .. } = op {
            v.push(format!("interest auction of {} assets {e}", few(assets.len())));
        }
        if let Op::QRes { asset, .. } | Op::SRes { asset, .. } | Op::CRes { asset, .. } = op {
            let n = op.kind();
            v.push(format!("{n} {} in status {} {e}", if p.cfg.contains_key(asset) { "known" } else { "new" }, p.status));
        }
        if let Op::SetStatus { st, .. } = op {
            v.push(format!("status {} set to {st} {e}", p.status));
        }
        if let Op::UpdStatus { .. } = op {
            v.push(format!("status {} updated {e}", p.status));
        }
        if let Op::PoolGulp { .. } = op {
            v.push(format!("pool gulp with {} targets, {} running {e}", few(p.eshare.len()), few(p.ecfg.values().filter(|x| x.0 > s.ts).count())));
        }
    }
    let bp = match op {
        Op::BDep { from, pool, .. } | Op::BQ { from, pool, .. } | Op::BDeq { from, pool, .. } | Op::BWd { from, pool, .. } | Op::BDonate { from, pool, .. } => Some((*from, *pool)),
        _ => None,
    };
    if let Some((u, p)) = bp {
        let x = s.back.pool.get(&p).cloned().unwrap_or_default();
        let y = s.back.user.get(&(p, u)).cloned().unwrap_or_default();
        let n = op.kind();
        let r = if x.shares == 0 { "no shares" } else if x.tokens == 0 { "worthless" } else { match x.tokens.cmp(&x.shares) { std::cmp::Ordering::Less => "below 1", std::cmp::Ordering::Equal => "1", _ => "above 1" } };
        v.push(format!("{n} with shares at {r} {e}"));
        v.push(format!("{n} with {} queue entries {e}", few(y.q.len())));
        v.push(format!("{n} zone {} emissions {} {e}", if s.back.rz.contains(&p) { "in" } else { "out" }, match s.back.ecfg.get(&p) { None => "none", Some((x, _)) if *x <= s.ts => "expired", _ => "running" }));
        if x.shares > 0 && x.q4w == x.shares {
            v.push(format!("{n} with everything queued {e}"));
        }
    }
    if let Op::BClaim { pools, from, to } = op {
        v.push(format!("backstop claim of {} pools to {} {e}", few(pools.len()), if from == to { "self" } else { "another" }));
    }
    if let Op::BGulp = op {
        v.push(format!("gulp with {} in the zone {e}", few(s.back.rz.len())));
    }
    if let Op::EDist | Op::ESwap | Op::ECancel | Op::EQSwap { .. } = op {
        v.push(format!("{} by {} {e}", op.kind(), if s.emit.backstop == back { "first backstop" } else { "another" }));
    }
    v
}
