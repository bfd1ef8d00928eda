//! Workload generation: state-driven random operations, with the specification used to search for the exact
//! boundaries (health, utilisation, rounding, time) at which a guarantee is decided.
use crate::math::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::Rng;
use crate::types::*;
use crate::world::World;

pub const NG: usize = 16;

pub fn weights(focus: &str) -> [u32; NG] {
    //             time pric sup  bor  fill auct stat conf pem  bus  bem  emit tok  host bad  batch
    match focus {
        "C04" => [25, 3, 20, 15, 5, 3, 1, 6, 1, 2, 1, 0, 2, 1, 1, 5],
        "C05" => [12, 10, 14, 30, 8, 4, 1, 2, 0, 1, 0, 0, 2, 1, 1, 15],
        "C06" => [12, 5, 15, 35, 5, 3, 1, 3, 0, 1, 0, 0, 2, 1, 1, 15],
        "C07" => [15, 20, 10, 20, 10, 15, 1, 1, 0, 3, 0, 0, 2, 1, 3, 8],
        "C08" => [8, 3, 15, 10, 6, 3, 5, 8, 6, 1, 1, 0, 2, 30, 1, 6],
        "C09" => [10, 5, 22, 15, 8, 5, 18, 1, 0, 6, 0, 0, 3, 1, 1, 10],
        "C10" => [10, 2, 5, 3, 1, 1, 40, 1, 0, 30, 0, 0, 8, 1, 0, 2],
        "C11" => [20, 3, 10, 8, 2, 1, 4, 45, 0, 1, 0, 0, 1, 3, 0, 4],
        "C12" => [12, 20, 8, 12, 10, 40, 1, 1, 2, 2, 0, 0, 1, 1, 2, 5],
        "C13" => [18, 15, 8, 10, 40, 25, 1, 1, 2, 2, 0, 0, 1, 1, 8, 8],
        "C14" => [15, 18, 5, 8, 30, 25, 2, 1, 1, 5, 0, 0, 3, 1, 30, 5],
        "C15" => [22, 6, 8, 15, 25, 30, 1, 2, 0, 5, 0, 0, 2, 1, 2, 5],
        "C16" => [20, 3, 18, 12, 4, 2, 1, 1, 35, 3, 12, 8, 1, 2, 1, 6],
        "C17" => [15, 8, 30, 15, 8, 6, 6, 1, 1, 5, 1, 0, 2, 0, 2, 6],
        "C18" => [15, 3, 5, 5, 8, 6, 1, 0, 3, 40, 15, 5, 5, 6, 8, 2],
        "C19" => [12, 3, 3, 4, 10, 8, 1, 0, 1, 45, 8, 2, 6, 3, 10, 2],
        "C20" => [25, 1, 1, 1, 1, 1, 2, 0, 1, 60, 3, 1, 3, 4, 1, 1],
        "C21" => [8, 3, 5, 5, 10, 8, 1, 1, 3, 25, 10, 3, 3, 30, 6, 2],
        "C22" => [22, 1, 3, 3, 1, 1, 1, 0, 5, 30, 35, 12, 2, 2, 1, 1],
        "C23" => [22, 1, 2, 2, 1, 1, 1, 0, 4, 25, 35, 15, 8, 2, 1, 1],
        "C24" => [30, 0, 1, 1, 0, 0, 0, 0, 1, 5, 8, 40, 3, 4, 0, 0],
        "C25" => [25, 0, 1, 1, 0, 0, 0, 0, 1, 10, 5, 50, 12, 6, 0, 0],
        _ => [16, 8, 16, 14, 10, 8, 4, 4, 5, 10, 7, 3, 3, 4, 4, 10],
    }
}

pub struct Gen {
    pub rng: Rng,
    pub w: [u32; NG],
    /// asset -> current market price, 7 decimals
    pub px: Map<Aid, i128>,
    pub dec: Map<Aid, u32>,
    pub planned: Vec<(Op, Auth)>,
    /// one operation in this many is a read
    pub views: u64,
    /// also let pools call the backstop outside of auctions
    pub direct: bool,
}

fn a(op: Op) -> (Op, Auth) {
    (op, Auth::All)
}

/// two neighbours between which the answer changes
fn edge(lo: i128, hi: i128, f: impl Fn(i128) -> bool) -> Option<(i128, i128)> {
    let (mut lo, mut hi) = (lo, hi);
    let (l, h) = (f(lo), f(hi));
    if l == h || lo >= hi {
        return None;
    }
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if f(mid) == l {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    Some((lo, hi))
}

pub struct Lens<'w> {
    pub w: &'w World,
}
impl<'w> Lens<'w> {
    fn s(&self) -> &Snap {
        self.w.snap()
    }
    fn try_op(&self, op: &Op) -> R<()> {
        Model::new(self.s(), &self.w.ctx).apply(op)
    }
    fn health(&self, pool: Aid, u: Aid) -> Option<Health> {
        let pos = self.s().pools.get(&pool)?.pos.get(&u)?.clone();
        Model::new(self.s(), &self.w.ctx).health(pool, &pos).ok()
    }
}

/// recipients of a drop: few or many, even or uneven, for a total around the limit
pub fn drop_list(r: &mut Rng, to: &[Aid]) -> Vec<(Aid, i128)> {
    let total = *r.pick(&[50_000_000 * S7, 50_000_000 * S7 + 1, 1_000_000 * S7, 49_999_999 * S7, 7]);
    let n = match r.below(4) {
        0 | 1 => 1 + r.below(3),
        2 => 4 + r.below(9),
        _ => 13 + r.below(32),
    } as i128;
    let mut left = total;
    let mut out = vec![];
    for i in 0..n {
        let part = if i + 1 == n {
            left
        } else if r.chance(1, 2) {
            total / n
        } else {
            r.range(0, left / 2)
        };
        let part = part.min(left);
        left -= part;
        out.push((*r.pick(to), part));
    }
    out
}

impl Gen {
    fn unit(&self, asset: Aid) -> i128 {
        10i128.pow(*self.dec.get(&asset).unwrap_or(&7))
    }
    fn amount(&mut self, asset: Aid, bal: i128) -> i128 {
        let u = self.unit(asset);
        match self.rng.below(20) {
            0 => self.rng.range(0, 12),
            1 => bal,
            2 => bal.saturating_add(1),
            3 => bal.saturating_mul(2),
            4 => i64::MAX as i128,
            5 => self.rng.logu(1_000_000i128.saturating_mul(u)),
            6 => {
                if self.rng.chance(1, 6) {
                    *self.rng.pick(&[-1, i128::MAX, i128::MIN, i128::MAX / 1_000_000_000, 1 << 64, 1 << 90])
                } else {
                    bal / 2
                }
            }
            7..=11 => {
                // a sensible dollar amount
                let p = *self.px.get(&asset).unwrap_or(&S7);
                let usd = self.rng.logu(200_000) * S7;
                mdf(usd, u, p.max(1)).unwrap_or(u).max(1)
            }
            12..=14 => self.rng.range(0, bal.max(1)),
            _ => self.rng.logu(10_000 * u),
        }
    }
    fn user(&mut self, w: &World) -> Aid {
        *self.rng.pick(&w.users)
    }
    fn other(&mut self, w: &World, not: Aid) -> Aid {
        for _ in 0..8 {
            let u = self.user(w);
            if u != not {
                return u;
            }
        }
        w.attacker
    }
    fn pool(&mut self, w: &World) -> Aid {
        *self.rng.pick(&w.pools)
    }
    fn asset_of(&mut self, w: &World, pool: Aid) -> Aid {
        let l = &w.snap().pools[&pool].list;
        if l.is_empty() || self.rng.chance(1, 60) {
            *self.rng.pick(&w.assets)
        } else {
            *self.rng.pick(l)
        }
    }
    /// largest amount in [lo, hi] for which the specification still accepts the call, assuming monotonicity
    fn search(&mut self, w: &World, lo: i128, hi: i128, f: impl Fn(i128) -> Op) -> Option<i128> {
        let v = Lens { w };
        let (mut lo, mut hi) = (lo, hi);
        if lo > hi || v.try_op(&f(lo)).is_err() {
            return None;
        }
        if v.try_op(&f(hi)).is_ok() {
            return Some(hi);
        }
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if v.try_op(&f(mid)).is_ok() {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        Some(lo)
    }
    fn parties(&mut self, w: &World, from: Aid) -> (Aid, Aid) {
        let spender = if self.rng.chance(1, 8) { self.other(w, from) } else { from };
        let to = if self.rng.chance(1, 8) { self.other(w, from) } else { from };
        (spender, to)
    }
    fn submit(&mut self, w: &World, pool: Aid, from: Aid, reqs: Vec<(u32, Aid, i128)>) -> (Op, Auth) {
        let (mut spender, mut to) = self.parties(w, from);
        if self.rng.chance(1, 150) {
            match self.rng.below(3) {
                0 => to = pool,
                1 => spender = pool,
                _ => to = w.ctx.back,
            }
        }
        a(Op::Submit { pool, from, spender, to, reqs })
    }

    fn time(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let now = s.ts;
        let mut marks: Vec<u64> = vec![];
        let mut blocks: Vec<u32> = vec![];
        for p in s.pools.values() {
            for (_, (_, u)) in &p.queued {
                marks.push(*u);
            }
            for (e, _) in p.ecfg.values() {
                marks.push(*e);
            }
            for x in p.auct.values() {
                for k in [0u32, 1, 2, 10, 100, 199, 200, 201, 300, 399, 400, 401] {
                    blocks.push(x.block.saturating_add(k));
                }
            }
        }
        for u in s.back.user.values() {
            for (_, e) in &u.q {
                marks.push(*e);
            }
        }
        for (e, _) in s.back.ecfg.values() {
            marks.push(*e);
        }
        if let Some((_, _, u)) = s.emit.swap {
            marks.push(u);
        }
        marks.push(s.back.last_dist + 3600);
        marks.push(s.back.last_dist + DAY);
        for o in s.oracle.values() {
            for (_, ts) in o.price.values() {
                marks.push(ts + DAY);
            }
        }
        if !blocks.is_empty() && self.rng.chance(1, 2) {
            let b = *self.rng.pick(&blocks);
            if b > s.seq {
                let d = b - s.seq;
                return a(Op::Time { dt: d as u64 * 5, dseq: d });
            }
        }
        if self.rng.chance(1, 3) {
            let m = *self.rng.pick(&marks);
            let m = (m + self.rng.below(3)).saturating_sub(1);
            if m > now {
                let dt = m - now;
                return a(Op::Time { dt, dseq: (dt / 5) as u32 });
            }
        }
        let dt = match self.rng.below(14) {
            0 => 0,
            1 => 1,
            2..=5 => 5 * (1 + self.rng.below(40)),
            6 | 7 => 60 * (1 + self.rng.below(120)),
            8 | 9 => 3600 * (1 + self.rng.below(48)),
            10 => DAY * (1 + self.rng.below(10)),
            11 => DAY * (7 + self.rng.below(30)),
            12 => self.rng.below(DAY * 3),
            _ => DAY * (20 + self.rng.below(200)),
        };
        let dt = if w.pools.len() > 10 && self.rng.chance(7, 8) { dt % (4 * DAY) } else { dt };
        if dt > DAY && self.rng.chance(1, 6) {
            // something seldom called is the first to happen after a long silence
            let pool = self.pool(w);
            let from = self.user(w);
            let asset = self.asset_of(w, pool);
            let p = &s.pools[&pool];
            let op = match self.rng.below(18) {
                0 | 1 => Op::UpdStatus { pool },
                2 | 3 => Op::SetStatus { pool, st: *self.rng.pick(&[0, 2, 3, 4]) },
                4 => Op::PoolGulp { pool },
                5 => Op::PClaim { pool, from, ids: (0..2 * p.list.len() as u32).collect(), to: from },
                6 => Op::UpdPool { pool, rate: p.bstop_rate, maxpos: p.max_positions },
                7 => Op::CRes { pool, asset },
                8 => Op::QRes { pool, asset, cfg: self.rand_cfg(*self.dec.get(&asset).unwrap_or(&7)) },
                9 => Op::NewInt { pool, assets: p.list.clone() },
                10 => Op::NewBad { pool },
                11 => Op::BUpdVal,
                12 => Op::EDist,
                13 => Op::BClaim { from, pools: vec![pool], to: from },
                14 => Op::BQ { from, pool, amt: 1 },
                15 => Op::BDeq { from, pool, amt: 1 },
                16 => Op::BDep { from, pool, amt: S7 },
                _ => Op::BDonate { from, pool, amt: 1 },
            };
            self.planned.push(a(op));
        }
        a(Op::Time { dt, dseq: (dt / 5) as u32 })
    }
    /// re-quote an asset, possibly so that a borrower lands near or under water
    fn price(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let v = Lens { w };
        let pool = self.pool(w);
        let p = &s.pools[&pool];
        if self.rng.chance(1, 2) {
            let bor: Vec<Aid> =
                p.pos.iter().filter(|(u, x)| !x.liab.is_empty() && !x.coll.is_empty() && **u != w.ctx.back).map(|x| *x.0).collect();
            if !bor.is_empty() {
                let u = *self.rng.pick(&bor);
                if let Some(h) = v.health(pool, u) {
                    let hf = h.hf().unwrap_or(0);
                    if h.lb > 0 && hf > 0 {
                        let pos = &p.pos[&u];
                        // target health, in thousandths
                        let target = *self.rng.pick(&[300i128, 600, 800, 900, 950, 990, 999, 1000, 1001, 1020, 1050]);
                        let i = *self.rng.pick(&pos.coll.keys().copied().collect::<Vec<_>>());
                        let asset = p.list[i as usize];
                        let cur = *self.px.get(&asset).unwrap_or(&S7);
                        let mut np = (cur as f64 * (target as f64 / 1000.0) / (hf as f64 / h.scalar as f64)) as i128;
                        if (999..=1001).contains(&target) {
                            // as close to the threshold as quotes allow, on either side of it
                            np = (cur as f64 / (hf as f64 / h.scalar as f64)) as i128 + self.rng.below(3) as i128 - 1;
                        }
                        if np > 0 && np < 10i128.pow(15) {
                            self.px.insert(asset, np);
                            return a(Op::Price { asset, price: Some(np), ts: s.ts });
                        }
                    }
                }
            }
        }
        let asset = if p.list.is_empty() { *self.rng.pick(&w.assets) } else { *self.rng.pick(&p.list) };
        let cur = *self.px.get(&asset).unwrap_or(&S7);
        match self.rng.below(16) {
            0 => a(Op::Price { asset, price: None, ts: s.ts }),
            1 => a(Op::Price { asset, price: Some(cur), ts: s.ts - DAY - self.rng.below(3) + 1 }),
            2 => a(Op::Price { asset, price: Some(0), ts: s.ts }),
            3 => a(Op::Price { asset, price: Some(cur), ts: s.ts + self.rng.below(5000) }),
            4..=8 => {
                let f = 500 + self.rng.below(1000) as i128;
                let np = (cur * f / 1000).clamp(10, 10i128.pow(14));
                self.px.insert(asset, np);
                a(Op::Price { asset, price: Some(np), ts: s.ts })
            }
            _ => a(Op::Price { asset, price: Some(cur), ts: s.ts }),
        }
    }
    fn refresh(&mut self, w: &World) {
        let ts = w.snap().ts;
        for (asset, p) in self.px.clone() {
            self.planned.push(a(Op::Price { asset, price: Some(p), ts }));
        }
    }
    fn fresh(&self, w: &World) -> bool {
        let s = w.snap();
        s.oracle.values().all(|o| self.px.keys().all(|k| o.price.get(k).map_or(false, |(p, t)| *p > 0 && t + DAY >= s.ts)))
    }

    /// An operation, preceded by the change of a price, of time or of the utilisation that puts it exactly on the
    /// edge between being accepted and being refused (or on a kink of the rate curve).
    fn tuned(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        if self.rng.chance(1, 8) {
            return self.kink(w);
        }
        let mut op = self.pick(w);
        for _ in 0..4 {
            let usable = self.planned.is_empty()
                && op.1 == Auth::All
                && !matches!(op.0, Op::Time { .. } | Op::Price { .. } | Op::Mint { .. } | Op::Xfer { .. } | Op::View(_));
            if usable {
                break;
            }
            if !self.planned.is_empty() {
                return op;
            }
            op = self.pick(w);
        }
        let (mut op, _) = op;
        if self.rng.chance(1, 5) {
            // calls whose acceptance hangs on prices
            let pool = self.pool(w);
            let p = &s.pools[&pool];
            let bor: Vec<Aid> =
                p.pos.iter().filter(|(u, x)| !x.liab.is_empty() && !x.coll.is_empty() && **u != w.ctx.back).map(|x| *x.0).collect();
            op = match self.rng.below(3) {
                0 if !p.list.is_empty() => Op::NewInt { pool, assets: p.list.clone() },
                _ if !bor.is_empty() => Op::NewLiq { pool, user: *self.rng.pick(&bor), pct: 1 + self.rng.below(100) },
                _ => op,
            };
        }
        let pool = match &op {
            Op::Submit { pool, .. } | Op::NewLiq { pool, .. } | Op::NewInt { pool, .. } | Op::NewBad { pool } => Some(*pool),
            _ => None,
        };
        if let (Some(pool), true) = (pool, self.rng.chance(2, 3)) {
            let list = &s.pools[&pool].list;
            let asset = match &op {
                // the smaller the lot, the finer its value can be set
                Op::NewInt { assets, pool } if !assets.is_empty() => {
                    let least = assets
                        .iter()
                        .filter_map(|x| Some((s.pools[pool].data.get(x)?.credit, *x)).filter(|y| y.0 > 0))
                        .min_by_key(|x| x.0);
                    match least {
                        Some((_, x)) if self.rng.chance(2, 3) => x,
                        _ => *self.rng.pick(assets),
                    }
                }
                _ if !list.is_empty() => *self.rng.pick(list),
                _ => return a(op),
            };
            let cur = *self.px.get(&asset).unwrap_or(&S7);
            let all = self.px.clone();
            let ok = |p: i128| {
                let mut t = s.clone();
                for o in t.oracle.values_mut() {
                    let k = o.decimals;
                    let q = |p: i128| if k >= 7 { p * 10i128.pow(k - 7) } else { p / 10i128.pow(7 - k) };
                    for (x, y) in &all {
                        o.price.insert(*x, (q(if *x == asset { p } else { *y }), s.ts));
                    }
                }
                Model::new(&t, &w.ctx).apply(&op).is_ok()
            };
            let far = if matches!(op, Op::NewInt { .. }) { 100_000_000 } else { 16 };
            let (lo, hi) = (cur / far + 1, (cur * far).min(10i128.pow(15)));
            if let Some((x, y)) = edge(lo, cur, ok).or_else(|| edge(cur, hi, ok)) {
                self.refresh(w);
                self.planned.retain(|(o, _)| !matches!(o, Op::Price { asset: z, .. } if *z == asset));
                let p = if self.rng.chance(1, 2) { x } else { y };
                self.planned.push(a(Op::Price { asset, price: Some(p), ts: s.ts }));
                self.planned.push(a(op));
                if self.rng.chance(3, 4) {
                    self.planned.push(a(Op::Price { asset, price: Some(cur), ts: s.ts }));
                } else {
                    self.px.insert(asset, p);
                }
                return self.planned.remove(0);
            }
            return a(op);
        }
        let ok = |dt: i128| {
            let mut t = s.clone();
            t.ts += dt as u64;
            t.seq += (dt / 5) as u32;
            Model::new(&t, &w.ctx).apply(&op).is_ok()
        };
        let far = *self.rng.pick(&[2 * 3600i128, 2 * DAY as i128, 9 * DAY as i128, 40 * DAY as i128]);
        if let Some((x, y)) = edge(0, far, ok) {
            let dt = if self.rng.chance(1, 2) { x } else { y } as u64;
            self.planned.push(a(op));
            return a(Op::Time { dt, dseq: (dt / 5) as u32 });
        }
        a(op)
    }
    /// borrow until the utilisation is exactly at a kink of the rate curve, then let time pass
    fn kink(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        let p = &s.pools[&pool];
        if p.list.is_empty() {
            return self.pick(w);
        }
        let asset = *self.rng.pick(&p.list);
        let c = p.cfg[&asset].clone();
        let want = match self.rng.below(3) {
            0 => c.util as i128,
            1 => 9_500_000,
            _ => *self.rng.pick(&[c.util as i128, c.max_util as i128, 10_000_000]),
        } + self.rng.range(-1, 1);
        let Ok(d) = Model::new(s, &w.ctx).res(pool, asset, false) else { return self.pick(w) };
        let (Some(sup), Some(lia)) = (total_supply(&d), total_liab(&d)) else { return self.pick(w) };
        let from = match p.pos.iter().filter(|(_, x)| !x.coll.is_empty()).map(|x| *x.0).next() {
            Some(u) if self.rng.chance(1, 3) => u,
            _ => self.user(w),
        };
        // liabilities at which the utilisation, rounded up, is `want`
        let Some(at) = mdf(sup, want, S7) else { return self.pick(w) };
        let dt = 5 * (1 + self.rng.below(400_000));
        let req = if at > lia { (4, asset, at - lia) } else {
            // too many borrowed: more supply
            let Some(need) = mdc(lia, S7, want.max(1)) else { return self.pick(w) };
            (0, asset, need - sup)
        };
        if req.0 == 4 {
            // enough behind it
            for x in &p.list {
                if *x != asset {
                    let n = 10_000_000 * self.unit(*x);
                    self.planned.push(a(Op::Mint { token: *x, to: from, amt: n }));
                    self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs: vec![(2, *x, n)] }));
                    break;
                }
            }
        } else {
            self.planned.push(a(Op::Mint { token: asset, to: from, amt: req.2.max(0) }));
        }
        self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs: vec![req] }));
        self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
        self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs: vec![(0, asset, 1 + self.rng.below(1000) as i128)] }));
        self.planned.remove(0)
    }

    fn plain(&mut self, w: &World) -> (Op, Auth) {
        let pool = self.pool(w);
        if self.rng.chance(1, 80) {
            if let Some(x) = self.empty_side(w, pool) {
                return x;
            }
        }
        let from = self.user(w);
        let s = w.snap();
        let p = &s.pools[&pool];
        let pos = p.pos.get(&from).cloned().unwrap_or_default();
        // act on something the user has, more often than not
        let mut opts: Vec<(u32, Aid, i128)> = vec![];
        for (m, t) in [(&pos.supp, 1u32), (&pos.coll, 3), (&pos.liab, 5)] {
            for (i, v) in m {
                let asset = p.list[*i as usize];
                let d = Model::new(s, &w.ctx).res(pool, asset, false).unwrap_or_else(|_| p.data[&asset].clone());
                let under = mdf(*v, if t == 5 { d.d_rate } else { d.b_rate }, S9).unwrap_or(0);
                opts.push((t, asset, under));
            }
        }
        if !opts.is_empty() && self.rng.chance(3, 5) {
            let (t, asset, under) = *self.rng.pick(&opts);
            if t == 3 && !pos.liab.is_empty() && self.rng.chance(1, 2) && self.fresh(w) {
                let r = self.search(w, 1, under.saturating_mul(2).max(2), |x| Op::Submit {
                    pool,
                    from,
                    spender: from,
                    to: from,
                    reqs: vec![(3, asset, x)],
                });
                if let Some(x) = r {
                    let x = x + self.rng.below(2) as i128;
                    return self.submit(w, pool, from, vec![(3, asset, x)]);
                }
            }
            let amt = match self.rng.below(6) {
                0 => i64::MAX as i128,
                1 => under,
                2 | 3 => under + self.rng.range(-2, 3),
                _ => self.amount(asset, under),
            };
            return self.submit(w, pool, from, vec![(t, asset, amt)]);
        }
        let asset = self.asset_of(w, pool);
        let bal = s.bal(asset, from);
        let ty = *self.rng.pick(&[0, 0, 2, 2, 2, 1, 3, 5]);
        let amt = self.amount(asset, bal);
        self.submit(w, pool, from, vec![(ty, asset, amt)])
    }
    fn borrow(&mut self, w: &World) -> (Op, Auth) {
        let pool = self.pool(w);
        let s = w.snap();
        let p = &s.pools[&pool];
        let cands: Vec<Aid> = p.pos.iter().filter(|(_, x)| !x.coll.is_empty()).map(|x| *x.0).collect();
        let from = if cands.is_empty() || self.rng.chance(1, 10) { self.user(w) } else { *self.rng.pick(&cands) };
        let asset = self.asset_of(w, pool);
        let cash = s.bal(asset, pool);
        if self.rng.chance(1, 2) && self.fresh(w) {
            let r = self.search(w, 1, cash.saturating_add(1).max(2), |x| Op::Submit {
                pool,
                from,
                spender: from,
                to: from,
                reqs: vec![(4, asset, x)],
            });
            if let Some(x) = r {
                let x = match self.rng.below(4) {
                    0 => x,
                    1 => x + 1,
                    2 => x - x / 8,
                    _ => self.rng.range(1, x),
                };
                return self.submit(w, pool, from, vec![(4, asset, x)]);
            }
        }
        let amt = self.amount(asset, cash / 3);
        let amt = if self.rng.chance(1, 2) { amt.min(cash / 2 + 1) } else { amt };
        self.submit(w, pool, from, vec![(4, asset, amt)])
    }
    fn batch(&mut self, w: &World) -> (Op, Auth) {
        let pool = self.pool(w);
        let from = self.user(w);
        let n = if self.rng.chance(1, 12) { 8 + self.rng.below(12) } else { 2 + self.rng.below(4) } as usize;
        let mut reqs = vec![];
        let s = w.snap();
        for _ in 0..n {
            let asset = if !reqs.is_empty() && self.rng.chance(1, 2) {
                let r: &(u32, Aid, i128) = self.rng.pick(&reqs);
                r.1
            } else {
                self.asset_of(w, pool)
            };
            let ty = self.rng.below(6) as u32;
            let bal = s.bal(asset, from);
            let amt = match self.rng.below(3) {
                0 => self.amount(asset, bal),
                _ => {
                    let p = *self.px.get(&asset).unwrap_or(&S7);
                    let usd = self.rng.logu(20_000) * S7;
                    mdf(usd, self.unit(asset), p.max(1)).unwrap_or(1).max(1)
                }
            };
            reqs.push((ty, asset, amt));
        }
        if self.rng.chance(1, 2) && self.fresh(w) {
            // put the last borrow / collateral withdrawal of the batch on the boundary
            let asset = self.asset_of(w, pool);
            let ty = if self.rng.chance(2, 3) { 4 } else { 3 };
            let mut base = reqs.clone();
            base.retain(|r| r.0 == 2 || r.0 == 0);
            base.truncate(3);
            let hi = s.bal(asset, pool).max(2);
            let b2 = base.clone();
            let r = self.search(w, 1, hi, move |x| {
                let mut q = b2.clone();
                q.push((ty, asset, x));
                Op::Submit { pool, from, spender: from, to: from, reqs: q }
            });
            if let Some(x) = r {
                base.push((ty, asset, x + self.rng.below(2) as i128));
                // borrow first, collateral after: only the end state counts
                if self.rng.chance(1, 3) {
                    base.reverse();
                }
                return self.submit(w, pool, from, base);
            }
        }
        if self.rng.chance(1, 12) {
            // two requests of opposite sign whose transfers cancel out
            let asset = self.asset_of(w, pool);
            let x = self.amount(asset, s.bal(asset, from)).max(1);
            let same: [u32; 3] = if self.rng.chance(1, 2) { [0, 2, 5] } else { [1, 3, 4] };
            let y = if self.rng.chance(1, 2) { x } else { 1 + self.rng.below(x.min(1 << 60) as u64) as i128 };
            reqs = vec![(*self.rng.pick(&same), asset, x), (*self.rng.pick(&same), asset, -y)];
            if self.rng.chance(1, 2) {
                reqs.reverse();
            }
            return self.submit(w, pool, from, reqs);
        }
        if self.rng.chance(1, 12) {
            let t = 9 + self.rng.below(4) as u32;
            let asset = self.asset_of(w, pool);
            reqs.push((t, asset, 1));
        }
        self.submit(w, pool, from, reqs)
    }
    /// put a few ordinary requests among the others
    fn mix(&mut self, w: &World, pool: Aid, from: Aid, reqs: &mut Vec<(u32, Aid, i128)>) {
        let s = w.snap();
        let p = &s.pools[&pool];
        if p.list.is_empty() {
            return;
        }
        let pos = p.pos.get(&from).cloned().unwrap_or_default();
        for _ in 0..1 + self.rng.below(3) {
            let mut asset = *self.rng.pick(&p.list);
            let mut have = s.bal(asset, from);
            let t = *self.rng.pick(&[0u32, 0, 1, 1, 2, 3, 4, 5]);
            let mine = match t {
                1 => &pos.supp,
                3 => &pos.coll,
                5 => &pos.liab,
                _ => &Map::new(),
            };
            if !mine.is_empty() {
                let k: Vec<u32> = mine.keys().copied().collect();
                let i = *self.rng.pick(&k);
                asset = p.list[i as usize];
                have = mdf(mine[&i], if t == 5 { p.data[&asset].d_rate } else { p.data[&asset].b_rate }, S9).unwrap_or(1);
            } else if matches!(t, 1 | 3 | 5) {
                continue;
            } else if t == 4 {
                have = s.bal(asset, pool) / 100;
            }
            let amt = (have / (1 + self.rng.below(50) as i128)).max(1);
            let at = self.rng.below(reqs.len() as u64 + 1) as usize;
            reqs.insert(at, (t, asset, amt));
        }
    }
    fn fill(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let mut all = vec![];
        for p in s.pools.values() {
            for ((u, t), au) in &p.auct {
                all.push((p.id, *u, *t, au.clone()));
            }
        }
        if all.is_empty() {
            return self.auction(w);
        }
        let (pool, u, t, au) = self.rng.pick(&all).clone();
        if s.seq < au.block && self.rng.chance(4, 5) {
            let d = au.block - s.seq
                + if self.rng.chance(1, 3) {
                    *self.rng.pick(&[0u32, 0, 1, 199, 200, 200, 201, 399, 400, 400, 401])
                } else {
                    self.rng.below(450) as u32
                };
            if self.rng.chance(1, 3) {
                // fill right then, with what it takes
                let from = self.other(w, u);
                let pct = if self.rng.chance(1, 3) { 100 } else { 1 + self.rng.below(100) as i128 };
                let mut reqs = vec![(6 + t, u, pct)];
                if t == 2 && s.bal(w.ctx.lp, from) < 1_000_000 * S7 {
                    self.planned.push(a(Op::Mint { token: w.ctx.lp, to: from, amt: 2_000_000 * S7 }));
                }
                for asset in s.pools[&pool].list.clone() {
                    reqs.push((2, asset, s.bal(asset, from) / (2 + self.rng.below(8) as i128)));
                }
                if self.rng.chance(1, 3) {
                    self.mix(w, pool, from, &mut reqs);
                }
                self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs }));
                // the quotes age meanwhile
                if d > 600 {
                    self.refresh(w);
                }
            }
            return a(Op::Time { dt: d as u64 * 5, dseq: d });
        }
        if self.rng.chance(1, 4) {
            return self.time(w);
        }
        if self.fresh(w) && self.rng.chance(1, 5) {
            if let Some(x) = self.risky_fill(w, pool, u, t) {
                return x;
            }
        }
        let mut from = self.other(w, u);
        let pct: i128 = match self.rng.below(20) {
            0 => 0,
            1 => 101,
            2 => (1i128 << 64) + 1 + self.rng.below(100) as i128,
            3 => i128::MAX,
            4 => 1,
            5 => 99,
            6..=11 => 1 + self.rng.below(100) as i128,
            _ => 100,
        };
        let ty = 6 + if self.rng.chance(1, 25) { self.rng.below(3) as u32 } else { t };
        let mut reqs = vec![(ty, u, pct)];
        if t == 0 && self.rng.chance(1, 25) {
            // the liquidated user tries to fill or delete the auction
            from = u;
            if self.rng.chance(1, 2) {
                reqs = vec![(9, u, 0)];
            }
        }
        if t == 0 && self.rng.chance(1, 12) {
            // the user repairs the position and deletes the auction in one batch
            if self.fresh(w) && self.rng.chance(1, 2) {
                if let Some(x) = self.repair(w, pool, u) {
                    return x;
                }
            }
            from = u;
            let p = &s.pools[&pool];
            let mut rq = vec![];
            if let Some(pos) = p.pos.get(&u) {
                for (i, v) in &pos.liab {
                    let asset = p.list[*i as usize];
                    let owe = mdc(*v, p.data[&asset].d_rate, S9).unwrap_or(0);
                    rq.push((5, asset, owe * (50 + self.rng.below(60) as i128) / 100));
                }
            }
            rq.push((9, u, 0));
            reqs = rq;
        }
        if self.rng.chance(1, 2) && from != u {
            // bring the filler's account in order within the same batch
            let p = &s.pools[&pool];
            for asset in p.list.clone() {
                if self.rng.chance(1, 2) {
                    let bal = s.bal(asset, from);
                    let amt = bal / (2 + self.rng.below(8) as i128);
                    reqs.push((2, asset, amt));
                }
            }
            if self.rng.chance(1, 3) {
                for asset in au.bid.keys() {
                    if p.cfg.contains_key(asset) {
                        reqs.push((5, *asset, s.bal(*asset, from) / 2));
                    }
                }
            }
            if self.rng.chance(1, 4) {
                reqs.rotate_left(1);
            }
        }
        if from != u && self.rng.chance(1, 10) {
            let r = reqs[0];
            reqs.push(r);
        }
        if self.rng.chance(1, 4) {
            self.mix(w, pool, from, &mut reqs);
        }
        if t == 2 || t == 1 {
            // fillers of backstop auctions pay or receive LP tokens
            if self.rng.chance(2, 3) && s.bal(w.ctx.lp, from) < 1_000_000 * S7 {
                self.planned.push(a(Op::Mint { token: w.ctx.lp, to: from, amt: 2_000_000 * S7 }));
            }
        }
        let sub = if self.rng.chance(1, 6) {
            self.submit(w, pool, from, reqs)
        } else {
            a(Op::Submit { pool, from, spender: from, to: from, reqs })
        };
        if !self.planned.is_empty() {
            self.planned.push(sub);
            return self.planned.remove(0);
        }
        sub
    }
    /// just enough collateral or repayment to be allowed to delete the auction, or just too little
    fn repair(&mut self, w: &World, pool: Aid, u: Aid) -> Option<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let pos = p.pos.get(&u)?;
        let (ty, asset) = if !pos.liab.is_empty() && self.rng.chance(1, 2) {
            let i = *self.rng.pick(&pos.liab.keys().copied().collect::<Vec<_>>());
            (5u32, p.list[i as usize])
        } else {
            (2, *self.rng.pick(&p.list))
        };
        let first = self.rng.chance(1, 3);
        let mk = |x: i128| {
            let mut reqs = vec![(ty, asset, x), (9, u, 0)];
            if first {
                reqs.reverse();
            }
            Op::Submit { pool, from: u, spender: u, to: u, reqs }
        };
        let ok = |x: i128| Model::new(s, &w.ctx).apply(&mk(x)).is_ok();
        let (x, y) = edge(1, s.bal(asset, u).max(2), ok)?;
        let n = if self.rng.chance(1, 2) { x } else { y };
        Some(a(mk(n)))
    }
    /// a borrower takes on as much as it can, or a little more, in the same batch as a fill (or a deletion)
    fn risky_fill(&mut self, w: &World, pool: Aid, u: Aid, t: u32) -> Option<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let cands: Vec<Aid> =
            p.pos.iter().filter(|(x, y)| !y.coll.is_empty() && **x != u && w.users.contains(x)).map(|x| *x.0).collect();
        if cands.is_empty() {
            return None;
        }
        let from = *self.rng.pick(&cands);
        let pos = &p.pos[&from];
        let pct = *self.rng.pick(&[1i128, 2, 10, 50, 100, 100]);
        let (ty, asset) = if !pos.liab.is_empty() && self.rng.chance(1, 2) {
            let i = *self.rng.pick(&pos.coll.keys().copied().collect::<Vec<_>>());
            (3u32, p.list[i as usize])
        } else {
            (4, *self.rng.pick(&p.list))
        };
        let at = self.rng.below(3);
        let mk = |x: i128| {
            let mut reqs = vec![(6 + t, u, pct)];
            reqs.insert(if at == 0 { 1 } else { 0 }, (ty, asset, x));
            Op::Submit { pool, from, spender: from, to: from, reqs }
        };
        let hi = s.bal(asset, pool).saturating_add(1).max(2);
        let x = self.search(w, 1, hi, &mk)?;
        Some(a(mk(match self.rng.below(5) {
            0 => x,
            1 => x + x / 20 + 1,
            2 => x + self.rng.below(x.clamp(1, 1 << 60) as u64) as i128,
            _ => x + 1,
        })))
    }
    fn auction(&mut self, w: &World) -> (Op, Auth) {
        let x = self.auction_op(w);
        if !self.planned.is_empty() || !self.rng.chance(1, 3) || (Lens { w }).try_op(&x.0).is_err() {
            return x;
        }
        // and is filled at a chosen block, in one go or in parts
        let (pool, u, t) = match &x.0 {
            Op::NewLiq { pool, user, .. } => (*pool, *user, 0u32),
            Op::NewBad { pool } => (*pool, w.ctx.back, 1),
            Op::NewInt { pool, .. } => (*pool, w.ctx.back, 2),
            _ => return x,
        };
        let s = w.snap();
        let mut at = 1u32;
        let mut d = 1 + *self.rng.pick(&[0u32, 0, 1, 60, 150, 199, 200, 200, 201, 260, 350, 399, 400, 400, 401]);
        for _ in 0..1 + self.rng.below(3) {
            let from = self.other(w, u);
            self.planned.push(a(Op::Time { dt: d as u64 * 5, dseq: d }));
            at += d;
            let pct = *self.rng.pick(&[1i128, 10, 33, 50, 50, 67, 99, 100, 100, 100]);
            let mut reqs = vec![(6 + t, u, pct)];
            if t == 2 {
                self.planned.push(a(Op::Mint { token: w.ctx.lp, to: from, amt: 1_000_000 * S7 }));
            } else {
                for asset in s.pools[&pool].list.clone() {
                    if reqs.len() < 6 {
                        reqs.push((2, asset, s.bal(asset, from) / (2 + self.rng.below(8) as i128)));
                    }
                }
            }
            self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs }));
            if at > 450 {
                break;
            }
            d = *self.rng.pick(&[0u32, 1, 50, 100, 200]);
        }
        x
    }
    fn auction_op(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let v = Lens { w };
        let pool = self.pool(w);
        let p = &s.pools[&pool];
        let c = self.rng.below(10);
        if self.fresh(w) && self.rng.chance(1, 25) {
            if let Some(x) = self.tiny(w, pool) {
                return x;
            }
        }
        if c < 6 {
            let bor: Vec<Aid> = p.pos.iter().filter(|(u, x)| !x.liab.is_empty() && **u != w.ctx.back).map(|x| *x.0).collect();
            let mut under: Vec<Aid> = vec![];
            for u in &bor {
                if let Some(h) = v.health(pool, *u) {
                    if h.lb >= h.cb && !p.auct.contains_key(&(*u, 0)) {
                        under.push(*u);
                    }
                }
            }
            if under.is_empty() {
                if !bor.is_empty() && self.rng.chance(1, 3) {
                    let user = *self.rng.pick(&bor);
                    let pct = 1 + self.rng.below(100);
                    return a(Op::NewLiq { pool, user, pct });
                }
                if self.rng.chance(1, 12) {
                    let user = *self.rng.pick(&[w.ctx.back, pool, w.attacker]);
                    return a(Op::NewLiq { pool, user, pct: 50 });
                }
                return self.price(w);
            }
            let user = *self.rng.pick(&under);
            let mut good = vec![];
            for pct in 1..=100u64 {
                if v.try_op(&Op::NewLiq { pool, user, pct }).is_ok() {
                    good.push(pct);
                }
            }
            let pct = if good.is_empty() || self.rng.chance(1, 6) {
                *self.rng.pick(&[0, 1, 50, 99, 100, 101, 1 << 33])
            } else {
                match self.rng.below(6) {
                    0 => good[0].saturating_sub(1),
                    1 => good[good.len() - 1] + 1,
                    2 => good[0],
                    3 => good[good.len() - 1],
                    _ => *self.rng.pick(&good),
                }
            };
            return a(Op::NewLiq { pool, user, pct });
        }
        if c < 8 {
            return a(Op::NewBad { pool });
        }
        let mut assets: Vec<Aid> = p.list.iter().copied().filter(|_| self.rng.chance(4, 5)).collect();
        if self.rng.chance(1, 10) && !assets.is_empty() {
            let d = assets[0];
            assets.push(d);
        }
        if self.rng.chance(1, 30) {
            assets.push(*self.rng.pick(&w.assets));
        }
        a(Op::NewInt { pool, assets })
    }
    /// somebody whose whole position is a few indivisible units goes under water and is liquidated: every rounding shows
    fn tiny(&mut self, w: &World, pool: Aid) -> Option<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let u = *self.rng.pick(&w.users);
        if p.list.len() < 2 || p.pos.get(&u).map_or(false, |x| !x.liab.is_empty() || !x.coll.is_empty()) {
            return None;
        }
        let (ca, la) = (*self.rng.pick(&p.list), *self.rng.pick(&p.list));
        if ca == la || p.cfg[&ca].c_factor == 0 || p.cfg[&la].l_factor == 0 {
            return None;
        }
        let (pc, pl) = (*self.px.get(&ca)?, *self.px.get(&la)?);
        let want = *self.rng.pick(&[1i128, 1, 2, 3, 10, 99, 150]);
        // collateral worth twice or so of that many units of the debt
        let n = want.checked_mul(pl)?.checked_mul(self.unit(ca))?.checked_mul(2)? / self.unit(la) / pc.max(1) + 1;
        let mk = |n: i128, x: i128| Op::Submit { pool, from: u, spender: u, to: u, reqs: vec![(2, ca, n), (4, la, x)] };
        let n = [n, n * 2, n * 8].into_iter().find(|n| s.bal(ca, u) >= *n && Lens { w }.try_op(&mk(*n, 1)).is_ok())?;
        let x = self.search(w, 1, want * 8, |x| mk(n, x))?;
        self.planned.push(a(mk(n, x)));
        let to = *self.rng.pick(&[500i128, 700, 850, 950, 990]);
        self.planned.push(a(Op::Price { asset: ca, price: Some((pc * to / 1000).max(1)), ts: s.ts }));
        for _ in 0..3 {
            let pct = *self.rng.pick(&[1, 30, 50, 60, 75, 99, 99, 100]);
            self.planned.push(a(Op::NewLiq { pool, user: u, pct }));
        }
        if self.rng.chance(1, 2) {
            let d = 1 + self.rng.below(399);
            self.planned.push(a(Op::Time { dt: d * 5, dseq: d as u32 }));
            let f = self.other(w, u);
            self.planned.push(a(Op::Submit { pool, from: f, spender: f, to: f, reqs: vec![(6, u, *self.rng.pick(&[1i128, 50, 100]))] }));
        }
        if self.rng.chance(3, 4) {
            self.planned.push(a(Op::Price { asset: ca, price: Some(pc), ts: s.ts }));
        } else {
            self.px.insert(ca, (pc * to / 1000).max(1));
        }
        Some(self.planned.remove(0))
    }
    /// nearly everybody leaves the pool's backstop
    fn drain(&mut self, w: &World, pool: Aid) {
        let s = w.snap();
        let left = *self.rng.pick(&[0i128, 0, 0, 1, 1000, 100_000, 100 * S7, 1000 * S7]);
        let all: Vec<(Aid, i128)> =
            s.back.user.iter().filter(|((p, _), b)| *p == pool && b.shares > 0).map(|((_, u), b)| (*u, b.shares)).collect();
        for (u, sh) in &all {
            self.planned.push(a(Op::BQ { from: *u, pool, amt: *sh }));
        }
        let dt = 21 * 24 * 3600 + self.rng.below(1000);
        self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
        let ts = s.ts + dt;
        for (asset, p) in self.px.clone() {
            self.planned.push(a(Op::Price { asset, price: Some(p), ts }));
        }
        // auctions made before they are gone find an emptier backstop when they are filled
        if self.rng.chance(1, 3) {
            self.planned.push(a(Op::NewInt { pool, assets: s.pools[&pool].list.clone() }));
        }
        if self.rng.chance(1, 3) {
            self.planned.push(a(Op::NewBad { pool }));
        }
        for (i, (u, sh)) in all.iter().enumerate() {
            let keep = if i == 0 { left.min(*sh) } else { 0 };
            self.planned.push(a(Op::BWd { from: *u, pool, amt: *sh - keep }));
        }
        let from = self.user(w);
        let d = 1 + *self.rng.pick(&[0u32, 0, 1, 2, 100, 200, 201, 300, 400]);
        let mut reqs = vec![(7, w.ctx.back, 1 + self.rng.below(100) as i128)];
        if self.rng.chance(1, 3) {
            reqs[0].0 = 8;
            self.planned.push(a(Op::Mint { token: w.ctx.lp, to: from, amt: 2_000_000 * S7 }));
        } else {
            self.planned.push(a(Op::NewBad { pool }));
        }
        self.planned.push(a(Op::Time { dt: d as u64 * 5, dseq: d }));
        for asset in s.pools[&pool].list.clone() {
            reqs.push((2, asset, s.bal(asset, from) / (2 + self.rng.below(8) as i128)));
        }
        self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs }));
    }
    /// somebody owes a little of everything
    fn spread(&mut self, w: &World, pool: Aid, from: Aid) -> (Op, Auth) {
        let s = w.snap();
        let list = s.pools[&pool].list.clone();
        let ca = *self.rng.pick(&list);
        let mut reqs = vec![(2, ca, s.bal(ca, from) / 2 + 1)];
        for asset in list {
            if asset != ca && self.rng.chance(7, 8) {
                reqs.push((4, asset, s.bal(asset, pool) / (20 + self.rng.below(2000) as i128) + 1));
            }
        }
        a(Op::Submit { pool, from, spender: from, to: from, reqs })
    }
    fn bad(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        let p = &s.pools[&pool];
        if self.rng.chance(1, 12) {
            self.drain(w, pool);
            return self.planned.remove(0);
        }
        if self.rng.chance(1, 10) {
            if let Some(x) = self.ruin(w, pool) {
                return x;
            }
        }
        if self.rng.chance(1, 12) {
            if let Some(x) = self.empty_side(w, pool) {
                return x;
            }
        }
        if p.list.len() > 2 && self.rng.chance(1, 8) {
            let u = self.user(w);
            return self.spread(w, pool, u);
        }
        let ruined: Vec<Aid> = p
            .pos
            .iter()
            .filter(|(u, x)| x.coll.is_empty() && !x.liab.is_empty() && **u != w.ctx.back)
            .map(|x| *x.0)
            .collect();
        if !ruined.is_empty() && self.rng.chance(4, 5) {
            let user = *self.rng.pick(&ruined);
            return a(Op::BadDebt { pool, user });
        }
        if self.rng.chance(1, 14) {
            // a debt of next to nothing
            let list = p.list.clone();
            let (ca, la) = (*self.rng.pick(&list), *self.rng.pick(&list));
            let u = self.user(w);
            if p.pos.get(&u).map_or(true, |x| x.liab.is_empty()) {
                let reqs = vec![(2, ca, 1 + self.rng.below(300) as i128), (4, la, 1 + self.rng.below(9) as i128)];
                return self.submit(w, pool, u, reqs);
            }
        }
        if let Some(b) = p.pos.get(&w.ctx.back) {
            if !b.liab.is_empty() && self.rng.chance(1, 8) {
                return a(Op::BadDebt { pool, user: w.ctx.back });
            }
            if !b.liab.is_empty() && b.liab.values().all(|x| *x < 1_000_000) && self.rng.chance(1, 3) {
                // worth nothing, or a unit or two, at what is now its price
                let k = *self.rng.pick(&[1i128, 2, 10, 1000]);
                let mut back = vec![];
                for i in b.liab.keys() {
                    let asset = p.list[*i as usize];
                    let was = self.px.get(&asset).copied().unwrap_or(S7);
                    self.planned.push(a(Op::Price { asset, price: Some(k), ts: s.ts }));
                    back.push(a(Op::Price { asset, price: Some(was), ts: s.ts }));
                }
                self.planned.push(a(Op::NewBad { pool }));
                self.planned.extend(back);
                return self.planned.remove(0);
            }
            if !b.liab.is_empty() && self.rng.chance(3, 4) {
                if p.auct.contains_key(&(w.ctx.back, 1)) {
                    return self.fill(w);
                }
                if !self.fresh(w) {
                    self.refresh(w);
                    self.planned.push(a(Op::NewBad { pool }));
                    return self.planned.remove(0);
                }
                return a(Op::NewBad { pool });
            }
        }
        if self.rng.chance(1, 8) {
            let user = *self.rng.pick(&[w.ctx.back, w.attacker, pool, w.users[0]]);
            return a(Op::BadDebt { pool, user });
        }
        // ruin someone: collapse the price of all their collateral, liquidate everything, wait until the bid decays
        let bor: Vec<Aid> = p
            .pos
            .iter()
            .filter(|(u, x)| !x.liab.is_empty() && !x.coll.is_empty() && **u != w.ctx.back)
            .map(|x| *x.0)
            .collect();
        if bor.is_empty() {
            return self.borrow(w);
        }
        let mut user = *self.rng.pick(&bor);
        if self.rng.chance(1, 3) {
            user = *bor.iter().min_by_key(|u| p.pos[*u].liab.values().sum::<i128>()).unwrap();
        }
        let pos = p.pos[&user].clone();
        let list = p.list.clone();
        self.refresh(w);
        for i in pos.coll.keys() {
            if !pos.liab.contains_key(i) {
                let asset = list[*i as usize];
                let np = (self.px.get(&asset).copied().unwrap_or(S7) / 50).max(1);
                self.px.insert(asset, np);
                self.planned.push(a(Op::Price { asset, price: Some(np), ts: s.ts }));
            }
        }
        self.planned.push(a(Op::NewLiq { pool, user, pct: 100 }));
        let d = 1 + *self.rng.pick(&[50u32, 200, 201, 250, 300, 350, 399, 400, 420]);
        self.planned.push(a(Op::Time { dt: d as u64 * 5, dseq: d }));
        let filler = self.other(w, user);
        let mut reqs = vec![(6, user, 100)];
        for asset in &list {
            reqs.push((2, *asset, s.bal(*asset, filler) / 3 + 1));
        }
        reqs.truncate(5);
        self.planned.push(a(Op::Submit { pool, from: filler, spender: filler, to: filler, reqs }));
        self.planned.push(a(Op::BadDebt { pool, user }));
        if self.rng.chance(1, 2) {
            self.planned.push(a(Op::NewBad { pool }));
        }
        // restore the market afterwards, most of the time
        if self.rng.chance(2, 3) {
            for i in pos.coll.keys() {
                if !pos.liab.contains_key(i) {
                    let asset = list[*i as usize];
                    let np = self.px.get(&asset).copied().unwrap_or(S7) * 40;
                    self.px.insert(asset, np.min(10i128.pow(13)));
                }
            }
        }
        self.planned.remove(0)
    }
    pub fn rand_cfg(&mut self, decimals: u32) -> ResCfg {
        let r = &mut self.rng;
        let util = 1 + r.below(9_500_000) as u32;
        let util = if r.chance(1, 8) { *r.pick(&[1, 100_000, 9_500_000, 5_000_000]) } else { util.max(2_000_000) };
        let max_util = if r.chance(1, 4) { 10_000_000 } else { (util + 1 + r.below(10_000_000 - util as u64) as u32).min(10_000_000) };
        let one = r.below(2_000_000) as u32;
        let two = one + r.below(8_000_000) as u32;
        let three = two + r.below(30_000_000) as u32;
        let (two, three) = match r.below(16) {
            0 => (one, three),
            1 => (two, two),
            2 => (one, one),
            _ => (two, three),
        };
        ResCfg {
            index: r.below(40) as u32,
            decimals,
            c_factor: if r.chance(1, 10) { *r.pick(&[0, 10_000_000]) } else { 5_000_000 + r.below(4_700_000) as u32 },
            l_factor: if r.chance(1, 9) { *r.pick(&[10_000_000, 10_000_000, 10_000_000, 0, 0, 1_000]) } else { 5_000_000 + r.below(4_900_000) as u32 },
            util,
            max_util,
            r_base: 1_000 + r.below(500_000) as u32,
            r_one: one,
            r_two: two,
            r_three: three,
            reactivity: r.below(1001) as u32,
        }
    }
    fn mutate_cfg(&mut self, c: &mut ResCfg) {
        match self.rng.below(16) {
            0 => c.decimals = 19,
            1 => c.c_factor = 10_000_001,
            2 => c.l_factor = 10_000_001,
            3 => c.util = 9_500_001,
            4 => c.max_util = c.util,
            5 => c.max_util = 10_000_001,
            6 => c.r_base = 999,
            7 => c.r_base = 10_000_000,
            8 => c.r_one = c.r_two + 1,
            9 => c.r_two = c.r_three + 1,
            10 => c.reactivity = 1_001,
            11 => c.decimals = 18,
            12 => {
                c.util = 9_500_000;
                c.max_util = 9_500_001
            }
            13 => c.r_base = 9_999_999,
            14 => c.r_base = 1_000,
            _ => c.l_factor = 0,
        }
    }
    fn config(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        let p = &s.pools[&pool];
        let queued: Vec<Aid> = p.queued.keys().copied().collect();
        if self.rng.chance(1, 12) {
            if let Some(x) = self.late(w, pool) {
                return x;
            }
        }
        match self.rng.below(14) {
            0..=4 => {
                let asset = if self.rng.chance(1, 4) { *self.rng.pick(&w.assets) } else { self.asset_of(w, pool) };
                let mut cfg = match p.cfg.get(&asset) {
                    Some(c) if self.rng.chance(3, 4) => {
                        let mut c = c.clone();
                        match self.rng.below(8) {
                            0 => c.c_factor = self.rng.below(10_000_001) as u32,
                            1 => c.l_factor = 1_000_000 + self.rng.below(9_000_001) as u32,
                            2 => c.r_base += 1,
                            3 => c.r_three += 1,
                            4 => c.reactivity = self.rng.below(1001) as u32,
                            5 => c.max_util = 10_000_000,
                            6 => c.util = (c.util + 1).min(9_500_000),
                            _ => c.index += 1,
                        }
                        c
                    }
                    _ => {
                        let d = *self.dec.get(&asset).unwrap_or(&7);
                        let d = if self.rng.chance(1, 8) { d + 1 } else { d };
                        self.rand_cfg(d)
                    }
                };
                if self.rng.chance(1, 4) {
                    self.mutate_cfg(&mut cfg);
                }
                a(Op::QRes { pool, asset, cfg })
            }
            5..=8 => {
                let asset = if queued.is_empty() { self.asset_of(w, pool) } else { *self.rng.pick(&queued) };
                if let Some((_, unlock)) = p.queued.get(&asset) {
                    if *unlock > s.ts && self.rng.chance(3, 4) {
                        let dt = unlock - s.ts - self.rng.below(2);
                        self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
                        self.planned.push(a(Op::SRes { pool, asset }));
                        return self.planned.remove(0);
                    }
                }
                a(Op::SRes { pool, asset })
            }
            9 => {
                let asset = if queued.is_empty() { self.asset_of(w, pool) } else { *self.rng.pick(&queued) };
                a(Op::CRes { pool, asset })
            }
            10 | 11 => {
                let rate = *self.rng.pick(&[0, 1, 1_000_000, 5_000_000, 9_999_999, 10_000_000, 20_000_000]);
                let maxpos = *self.rng.pick(&[0u32, 1, 2, 3, 4, 6, 10, 64]);
                let maxpos = if self.rng.chance(1, 2) { maxpos.max(4) } else { maxpos };
                a(Op::UpdPool { pool, rate, maxpos })
            }
            12 => {
                let new = *self.rng.pick(&w.admins);
                a(Op::SetAdmin { pool, new })
            }
            _ => {
                let (rate, maxpos) = (self.rng.below(10_000_001) as u32, self.rng.below(5) as u32);
                a(Op::PInit { pool, admin: w.attacker, rate, maxpos, oracle: w.oracles[0], backstop: w.ctx.back, blnd: w.ctx.blnd })
            }
        }
    }
    fn status(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        if self.rng.chance(1, 3) {
            // steer the queued share of the pool's backstop onto a threshold
            let b = s.back.pool.get(&pool).cloned().unwrap_or_default();
            if b.shares > 0 {
                let t = *self.rng.pick(&[2_999_999i128, 3_000_000, 3_000_001, 5_000_000, 4_999_999, 6_000_000, 5_999_999, 7_500_000, 7_499_999, 0]);
                let want = b.shares.saturating_mul(t) / S7 + self.rng.range(-1, 1);
                let d = want - b.q4w;
                let hold: Vec<(Aid, BUser)> =
                    s.back.user.iter().filter(|((p, _), _)| *p == pool).map(|((_, u), x)| (*u, x.clone())).collect();
                if d > 0 {
                    let mut left = d;
                    for (u, x) in hold {
                        let q = left.min(x.shares);
                        if q > 0 && x.q.len() < 21 {
                            self.planned.push(a(Op::BQ { from: u, pool, amt: q }));
                            left -= q;
                        }
                    }
                } else if d < 0 {
                    let mut left = -d;
                    for (u, x) in hold {
                        let q = left.min(x.q.iter().map(|y| y.0).sum());
                        if q > 0 {
                            self.planned.push(a(Op::BDeq { from: u, pool, amt: q }));
                            left -= q;
                        }
                    }
                }
            }
            let fin = if self.rng.chance(1, 2) { Op::UpdStatus { pool } } else { Op::SetStatus { pool, st: *self.rng.pick(&[0, 2, 3]) } };
            self.planned.push(a(fin));
            if self.rng.chance(1, 2) {
                self.planned.push(a(Op::UpdStatus { pool }));
            }
            return self.planned.remove(0);
        }
        if self.rng.chance(1, 6) {
            // steer the backstop's size onto the activation threshold through the LP token's value
            let b = s.back.pool.get(&pool).cloned().unwrap_or_default();
            if b.tokens > 0 {
                self.planned.push(a(Op::BUpdVal));
                self.planned.push(a(Op::UpdStatus { pool }));
                return self.lp_comp(w);
            }
        }
        match self.rng.below(10) {
            0..=4 => a(Op::UpdStatus { pool }),
            5 | 6 => a(Op::SetStatus { pool, st: 0 }),
            _ => a(Op::SetStatus { pool, st: self.rng.below(8) as u32 }),
        }
    }
    fn lp_comp(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let lp = w.ctx.lp;
        let t = if self.rng.chance(1, 2) { w.ctx.blnd } else { w.ctx.usdc };
        let cur = s.bal(t, lp);
        if cur > 0 && self.rng.chance(1, 12) {
            // one side of the liquidity pool runs dry, the token is re-valued, and the side comes back
            self.planned.push(a(Op::BUpdVal));
            if self.rng.chance(1, 2) {
                let pool = self.pool(w);
                self.planned.push(a(Op::UpdStatus { pool }));
            }
            let back = if self.rng.chance(3, 4) { cur } else { self.rng.range(cur / 2, cur + 1) };
            self.planned.push(a(Op::Xfer { token: t, from: w.users[0], to: lp, amt: back }));
            self.planned.push(a(Op::BUpdVal));
            return a(Op::Xfer { token: t, from: lp, to: w.users[0], amt: cur });
        }
        if self.rng.chance(1, 2) || cur < 100 {
            a(Op::Mint { token: w.ctx.usdc, to: lp, amt: self.rng.logu(cur.max(1_000_000 * S7)) })
        } else {
            a(Op::Xfer { token: t, from: lp, to: w.users[0], amt: cur * (1 + self.rng.below(60) as i128) / 100 })
        }
    }
    fn pem(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        let p = &s.pools[&pool];
        let n = p.list.len() as u64;
        if self.rng.chance(1, 10) && n > 0 && s.back.rz.contains(&pool) {
            return self.shift(w, pool);
        }
        match self.rng.below(12) {
            0..=2 => a(Op::PoolGulp { pool }),
            3 | 4 => {
                let k = self.rng.below(5);
                let mut md = vec![];
                for _ in 0..k {
                    let sh = *self.rng.pick(&[0u64, 1, 1_000_000, 2_500_000, 3_333_333, 10_000_000]);
                    let i = if self.rng.chance(1, 20) { n } else { self.rng.below(n.max(1)) };
                    let t = if self.rng.chance(1, 25) { 2 } else { self.rng.below(2) };
                    md.push((i as u32, t as u32, sh));
                }
                a(Op::SetEmis { pool, md })
            }
            _ => {
                let us: Vec<Aid> = p.uem.keys().map(|x| x.0).collect();
                let from = if us.is_empty() || self.rng.chance(1, 6) { self.user(w) } else { *self.rng.pick(&us) };
                let mut ids: Vec<u32> = vec![];
                for _ in 0..(1 + self.rng.below(4)) {
                    let extra = self.rng.chance(1, 20) as u64;
                    ids.push(self.rng.below(2 * n + extra) as u32);
                }
                if self.rng.chance(1, 2) {
                    ids = (0..2 * n as u32).collect();
                }
                let to = if self.rng.chance(3, 4) { from } else { self.other(w, from) };
                a(Op::PClaim { pool, from, ids, to })
            }
        }
    }
    /// targets of emissions come and go while they are still running
    fn shift(&mut self, w: &World, pool: Aid) -> (Op, Auth) {
        let s = w.snap();
        let p = &s.pools[&pool];
        let n = p.list.len() as u64;
        let (mut ts, mut last) = (s.ts, s.back.last_dist);
        for round in 0..2 + self.rng.below(2) {
            if round > 0 || self.rng.chance(2, 3) {
                let mut all: Vec<u32> = (0..2 * n as u32).collect();
                let mut md = vec![];
                for _ in 0..self.rng.below(5) {
                    if all.is_empty() {
                        break;
                    }
                    let k = all.swap_remove(self.rng.below(all.len() as u64) as usize);
                    md.push((k / 2, k % 2, *self.rng.pick(&[1u64, 1_000_000, 2_000_000, 2_500_000])));
                }
                self.planned.push(a(Op::SetEmis { pool, md }));
            }
            let dt = (last + 3601).saturating_sub(ts) + *self.rng.pick(&[0u64, 5, 7200, DAY / 2, DAY, 5 * DAY, 8 * DAY]);
            self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
            ts += dt;
            last = ts;
            self.planned.push(a(Op::EDist));
            if self.rng.chance(1, 4) {
                let from = self.user(w);
                self.planned.push(a(Op::BClaim { from, pools: vec![pool], to: from }));
            }
            self.planned.push(a(Op::BGulp));
            self.planned.push(a(Op::PoolGulp { pool }));
            for _ in 0..self.rng.below(3) {
                let from = self.user(w);
                let asset = *self.rng.pick(&p.list);
                let ty = *self.rng.pick(&[0u32, 1, 2, 5]);
                let amt = 1 + self.rng.logu(1_000 * self.unit(asset));
                self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs: vec![(ty, asset, amt)] }));
            }
            if self.rng.chance(1, 3) {
                let from = self.user(w);
                self.planned.push(a(Op::PClaim { pool, from, ids: (0..2 * n as u32).collect(), to: from }));
            }
        }
        self.planned.remove(0)
    }
    /// an asset the pool never had is added while it is in business, and used
    fn late(&mut self, w: &World, pool: Aid) -> Option<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let new: Vec<Aid> = w.assets.iter().copied().filter(|x| !p.list.contains(x)).collect();
        if new.is_empty() || p.status == 6 {
            return None;
        }
        let asset = *self.rng.pick(&new);
        if !p.queued.contains_key(&asset) {
            let mut cfg = self.rand_cfg(*self.dec.get(&asset).unwrap_or(&7));
            if self.rng.chance(1, 4) {
                self.mutate_cfg(&mut cfg);
            }
            self.planned.push(a(Op::QRes { pool, asset, cfg }));
            if self.rng.chance(1, 8) {
                self.planned.push(a(Op::CRes { pool, asset }));
            }
        }
        let unlock = p.queued.get(&asset).map_or(s.ts + 7 * DAY, |x| x.1);
        let dt = (unlock + self.rng.below(3)).saturating_sub(s.ts + 1);
        self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
        self.planned.push(a(Op::SRes { pool, asset }));
        if self.rng.chance(1, 3) {
            self.planned.push(a(Op::SRes { pool, asset }));
        }
        for (x, px) in self.px.clone() {
            self.planned.push(a(Op::Price { asset: x, price: Some(px), ts: s.ts + dt }));
        }
        let from = self.user(w);
        let n = 1 + s.bal(asset, from) / (2 + self.rng.below(8) as i128);
        self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs: vec![(*self.rng.pick(&[0u32, 2, 2]), asset, n)] }));
        let from = self.user(w);
        let mut reqs = vec![(4, asset, n / (2 + self.rng.below(20) as i128))];
        if let Some(x) = p.list.first() {
            reqs.push((2, *x, s.bal(*x, from) / 2));
        }
        self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs }));
        if self.rng.chance(1, 2) {
            let from = self.user(w);
            if let Some(x) = p.list.first() {
                self.planned.push(a(Op::Submit { pool, from, spender: from, to: from, reqs: vec![(2, asset, n), (4, *x, 1 + self.rng.logu(100 * self.unit(*x)))] }));
            }
        }
        Some(self.planned.remove(0))
    }
    /// everybody owes several things, all collateral collapses, everybody is liquidated and what is left is written off
    fn ruin(&mut self, w: &World, pool: Aid) -> Option<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let ca = *p.list.iter().max_by_key(|x| p.cfg[*x].c_factor)?;
        let mut who: Vec<Aid> = w.users.iter().copied().filter(|u| p.pos.get(u).map_or(true, |x| x.liab.is_empty() && x.coll.is_empty() && x.supp.is_empty())).collect();
        if who.is_empty() || p.list.len() < 2 {
            return None;
        }
        who.truncate(2);
        let filler = *w.users.iter().find(|u| !who.contains(u))?;
        self.refresh(w);
        for u in &who {
            let mut reqs = vec![(2, ca, s.bal(ca, *u) / 3 + 1)];
            for x in &p.list {
                if *x != ca && reqs.len() < 4 {
                    reqs.push((4, *x, s.bal(*x, pool) / (50 + self.rng.below(200) as i128) + 1));
                }
            }
            self.planned.push(a(Op::Submit { pool, from: *u, spender: *u, to: *u, reqs }));
        }
        let was = self.px.get(&ca).copied().unwrap_or(S7);
        self.planned.push(a(Op::Price { asset: ca, price: Some((was / 100_000).max(1)), ts: s.ts }));
        for u in &who {
            self.planned.push(a(Op::NewLiq { pool, user: *u, pct: 100 }));
        }
        let d = 401 + self.rng.below(20) as u32;
        let k = *self.rng.pick(&[200u32, 201, 230, 300, 390, 399, 400]);
        self.planned.push(a(Op::Time { dt: k as u64 * 5 + 5, dseq: k + 1 }));
        let each = self.rng.chance(1, 2);
        let mut gone = self.rng.chance(1, 3);
        for u in &who {
            let mut reqs = vec![(6, *u, 100)];
            for x in &p.list {
                reqs.push((2, *x, s.bal(*x, filler) / 3 + 1));
            }
            self.planned.push(a(Op::Submit { pool, from: filler, spender: filler, to: filler, reqs }));
            if gone {
                // the last supplier of what is owed leaves before the debt is written off
                gone = false;
                let x = *p.list.iter().find(|x| **x != ca)?;
                let steps = self.last_out(w, pool, x, &[filler]);
                self.planned.extend(steps);
            }
            self.planned.push(a(Op::BadDebt { pool, user: *u }));
            if each && self.rng.chance(1, 2) {
                self.planned.push(a(Op::NewBad { pool }));
            }
        }
        self.planned.push(a(Op::Price { asset: ca, price: Some(was), ts: s.ts }));
        self.planned.push(a(Op::NewBad { pool }));
        if self.rng.chance(1, 2) {
            let k = *self.rng.pick(&[1u32, 100, 200, 201, 300, 400]);
            self.planned.push(a(Op::Time { dt: k as u64 * 5 + 5, dseq: k + 1 }));
            let mut reqs = vec![(7, w.ctx.back, *self.rng.pick(&[1i128, 25, 50, 99, 100]))];
            for x in &p.list {
                reqs.push((2, *x, s.bal(*x, filler) / 3 + 1));
            }
            reqs.truncate(6);
            self.planned.push(a(Op::Submit { pool, from: filler, spender: filler, to: filler, reqs }));
        } else {
            self.planned.push(a(Op::Time { dt: d as u64 * 5, dseq: d }));
        }
        Some(self.planned.remove(0))
    }
    /// every supplier of `asset` takes out everything (tokens sent to the pool make that possible) while it is owed
    fn last_out(&mut self, w: &World, pool: Aid, asset: Aid, also: &[Aid]) -> Vec<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let mut out = vec![];
        let (Some(c), Some(d)) = (p.cfg.get(&asset), p.data.get(&asset)) else { return out };
        let i = c.index;
        // or all but a sliver
        let mut sliver = self.rng.chance(1, 3);
        let d = Model::new(s, &w.ctx).res(pool, asset, false).unwrap_or_else(|_| d.clone());
        let under = d.b_supply.saturating_mul(2).saturating_mul(d.b_rate / S9 + 1);
        out.push(a(Op::Mint { token: asset, to: pool, amt: under.clamp(1, 1 << 80) }));
        for (u, pos) in &p.pos {
            if pos.c(i) == 0 && pos.s(i) == 0 && !also.contains(u) {
                continue;
            }
            let mut reqs = vec![];
            for (k, v) in &pos.liab {
                let x = p.list[*k as usize];
                let owed = v.saturating_mul(2).saturating_mul(p.data[&x].d_rate / S9 + 1);
                out.push(a(Op::Mint { token: x, to: *u, amt: owed.clamp(1, 1 << 80) }));
                reqs.push((5, x, owed.clamp(1, 1 << 80)));
            }
            let mut part = |g: &mut Self, held: i128| {
                if !sliver || held == 0 {
                    return i64::MAX as i128;
                }
                sliver = false;
                let u = mdf(held, d.b_rate, S9).unwrap_or(1);
                (u - u / *g.rng.pick(&[100i128, 2000, 1_000_000, 1 << 40]) - 1).max(1)
            };
            if pos.s(i) > 0 {
                reqs.push((1, asset, part(self, pos.s(i))));
            }
            if pos.c(i) > 0 || also.contains(u) {
                reqs.push((3, asset, part(self, pos.c(i))));
            }
            out.push(a(Op::Submit { pool, from: *u, spender: *u, to: *u, reqs }));
        }
        out
    }
    /// a reserve that is owed but in which nobody has anything left, and what comes next
    fn empty_side(&mut self, w: &World, pool: Aid) -> Option<(Op, Auth)> {
        let s = w.snap();
        let p = &s.pools[&pool];
        let owed: Vec<Aid> = p.list.iter().copied().filter(|x| p.data[x].d_supply > 0 && p.data[x].b_supply > 0).collect();
        if owed.is_empty() {
            return None;
        }
        let asset = *self.rng.pick(&owed);
        let i = p.cfg[&asset].index;
        let steps = self.last_out(w, pool, asset, &[]);
        if steps.len() > 12 {
            return None;
        }
        self.refresh(w);
        let debtors: Vec<Aid> = p.pos.iter().filter(|(u, x)| **u != w.ctx.back && x.l(i) > 0 && x.c(i) == 0 && x.s(i) == 0).map(|x| *x.0).collect();
        let us = w.users.clone();
        if debtors.is_empty() {
            let free = us.iter().copied().find(|u| p.pos.get(u).map_or(true, |x| x.c(i) == 0 && x.s(i) == 0))?;
            let ca = *p.list.iter().filter(|x| **x != asset).max_by_key(|x| p.cfg[*x].c_factor)?;
            let amt = s.bal(asset, pool) / (20 + self.rng.below(500) as i128) + 1;
            self.planned.push(a(Op::Submit { pool, from: free, spender: free, to: free, reqs: vec![(2, ca, s.bal(ca, free) / 3 + 1), (4, asset, amt)] }));
        }
        self.planned.extend(steps);
        for _ in 0..2 + self.rng.below(4) {
            let u = *self.rng.pick(&us);
            let v = if debtors.is_empty() { u } else { *self.rng.pick(&debtors) };
            let own = s.bal(asset, u);
            let op = match self.rng.below(10) {
                0 => Op::Time { dt: self.rng.logu(1_000_000) as u64, dseq: 1 + self.rng.below(400) as u32 },
                1 => Op::NewLiq { pool, user: v, pct: 1 + self.rng.below(100) },
                2 => Op::BadDebt { pool, user: v },
                3 => Op::NewBad { pool },
                4 => Op::NewInt { pool, assets: vec![asset] },
                5 => Op::Submit { pool, from: u, spender: u, to: u, reqs: vec![(4, asset, 1 + self.rng.below(1000) as i128)] },
                6 => Op::Submit { pool, from: v, spender: v, to: v, reqs: vec![(5, asset, s.bal(asset, v) / (1 + self.rng.below(9) as i128))] },
                7 => Op::PClaim { pool, from: u, ids: vec![2 * i, 2 * i + 1], to: u },
                _ => Op::Submit { pool, from: u, spender: u, to: u, reqs: vec![(2 * self.rng.below(2) as u32, asset, own / (1 + self.rng.below(9) as i128))] },
            };
            self.planned.push(a(op));
        }
        Some(self.planned.remove(0))
    }
    fn bus(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let mut pool = self.pool(w);
        if self.rng.chance(1, 60) {
            pool = w.rogue;
        }
        let mut from = self.user(w);
        if self.rng.chance(1, 100) {
            from = *self.rng.pick(&[pool, w.ctx.back]);
        }
        let u = s.back.user.get(&(pool, from)).cloned().unwrap_or_default();
        let queued: i128 = u.q.iter().map(|x| x.0).sum();
        let lp = s.bal(w.ctx.lp, from);
        if self.direct && self.rng.chance(1, 20) {
            // the pool itself calls
            let tokens = s.back.pool.get(&pool).map_or(0, |p| p.tokens);
            let amt = match self.rng.below(6) {
                0 => tokens,
                1 => tokens + 1,
                2 => *self.rng.pick(&[0i128, -1, 1]),
                _ => self.rng.logu(tokens.max(1)),
            };
            let to = self.user(w);
            if amt == tokens && self.rng.chance(1, 2) {
                let amt = 1 + self.rng.logu(lp.max(1));
                self.planned.push(a(Op::BDonate { from, pool, amt }));
            }
            return a(Op::BDraw { pool, amt, to });
        }
        if self.direct && self.rng.chance(1, 20) {
            let from = if self.rng.chance(1, 10) { *self.rng.pick(&[pool, w.ctx.back]) } else { from };
            let lp = s.bal(w.ctx.lp, from);
            let amt = match self.rng.below(6) {
                0 => lp + 1,
                1 => *self.rng.pick(&[0i128, -1, 1]),
                _ => self.rng.logu(lp.max(1)),
            };
            return a(Op::BDonate { from, pool, amt });
        }
        let r = &mut self.rng;
        match r.below(12) {
            0..=2 => {
                let amt = match r.below(8) {
                    0 => r.range(0, 5),
                    1 => lp,
                    2 => lp + 1,
                    3 => *r.pick(&[-1, i128::MAX, i128::MIN]),
                    _ => r.logu(lp.max(1)),
                };
                a(Op::BDep { from, pool, amt })
            }
            3..=5 => {
                let amt = match r.below(7) {
                    0 => u.shares,
                    1 => u.shares + 1,
                    2 => r.range(-1, 3),
                    _ => r.logu(u.shares.max(1)),
                };
                a(Op::BQ { from, pool, amt })
            }
            6 | 7 => {
                let front = u.q.first().map(|x| x.0).unwrap_or(1);
                let amt = match r.below(7) {
                    0 => queued,
                    1 => queued + 1,
                    2 => front,
                    3 => front + r.range(-1, 1),
                    4 => r.range(-1, 2),
                    _ => r.logu(queued.max(1)),
                };
                a(Op::BDeq { from, pool, amt })
            }
            8..=10 => {
                let all: Vec<(Aid, Aid)> = s.back.user.iter().filter(|(_, b)| !b.q.is_empty()).map(|x| *x.0).collect();
                if all.is_empty() {
                    return a(Op::BWd { from, pool, amt: 1 });
                }
                let (pool, from) = *r.pick(&all);
                let u = s.back.user[&(pool, from)].clone();
                let ripe: i128 = u.q.iter().filter(|x| x.1 <= s.ts).map(|x| x.0).sum();
                let total: i128 = u.q.iter().map(|x| x.0).sum();
                let front = u.q[0];
                let amt = match r.below(8) {
                    0 => ripe + 1,
                    1 => total,
                    2 => front.0 + 1,
                    3 => r.range(-1, 2),
                    4 => r.logu(total.max(1)),
                    _ => ripe,
                };
                if front.1 > s.ts && r.chance(2, 3) {
                    let k = r.below(u.q.len() as u64) as usize;
                    let dt = u.q[k].1 - s.ts.min(u.q[k].1);
                    let dt = (dt + r.below(2)).saturating_sub(r.below(2));
                    let sum: i128 = u.q[..=k].iter().map(|x| x.0).sum();
                    let amt = if r.chance(1, 2) { sum } else { sum + 1 };
                    self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
                    self.planned.push(a(Op::BWd { from, pool, amt }));
                    return self.planned.remove(0);
                }
                a(Op::BWd { from, pool, amt })
            }
            _ => {
                // fill up a queue
                if u.shares > 100 && r.chance(1, 3) {
                    for i in 0..(22usize.saturating_sub(u.q.len())) {
                        self.planned.push(a(Op::BQ { from, pool, amt: 1 + i as i128 }));
                    }
                    self.planned.remove(0)
                } else {
                    a(Op::BQ { from, pool, amt: u.shares })
                }
            }
        }
    }
    /// a pool outside of a full reward zone against one inside
    fn zone(&mut self, w: &World) -> Option<(Op, Auth)> {
        let s = w.snap();
        let out: Vec<Aid> = w.pools.iter().copied().filter(|p| !s.back.rz.contains(p)).collect();
        if out.is_empty() || s.back.rz.is_empty() {
            return None;
        }
        let (add, rm) = (*self.rng.pick(&out), *self.rng.pick(&s.back.rz));
        let tk = |p: Aid| s.back.pool.get(&p).map_or(0, |b| b.tokens);
        let from = self.user(w);
        let lack = tk(rm) - tk(add);
        if lack >= -1 && self.rng.chance(4, 5) {
            let amt = lack + *self.rng.pick(&[-1i128, 0, 0, 1, 1, 1, 1000 * S7]);
            if amt > 0 {
                if s.bal(w.ctx.lp, from) < amt {
                    self.planned.push(a(Op::Mint { token: w.ctx.lp, to: from, amt }));
                }
                self.planned.push(a(Op::BDep { from, pool: add, amt }));
            }
        } else if lack < 0 && self.rng.chance(1, 4) {
            let amt = -lack + *self.rng.pick(&[-1i128, 0, 1]);
            if amt > 0 {
                if s.bal(w.ctx.lp, from) < amt {
                    self.planned.push(a(Op::Mint { token: w.ctx.lp, to: from, amt }));
                }
                self.planned.push(a(Op::BDep { from, pool: rm, amt }));
            }
        }
        let mut last = s.back.last_dist;
        if s.ts > last + DAY || self.rng.chance(1, 4) {
            if s.ts <= last + 3600 {
                let dt = last + 3601 - s.ts;
                self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
                last += 3601;
            } else {
                last = s.ts;
            }
            self.planned.push(a(Op::EDist));
            self.planned.push(a(Op::BGulp));
        }
        if self.rng.chance(1, 3) {
            let dt = (last + DAY + *self.rng.pick(&[0, 0, 1, 2, 2, 1800, 3600]) - 1).saturating_sub(s.ts.max(last));
            self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
        }
        self.planned.push(a(Op::BAdd { add, rm }));
        if self.rng.chance(1, 3) {
            self.planned.push(a(Op::BAdd { add: rm, rm: add }));
        }
        if self.rng.chance(1, 4) {
            self.planned.push(a(Op::BAdd { add, rm }));
        }
        if self.rng.chance(1, 2) {
            // the pool that left: its emissions run on for a while
            let hold: Vec<(Aid, BUser)> = s.back.user.iter().filter(|((p, _), _)| *p == rm).map(|((_, u), x)| (*u, x.clone())).collect();
            let mut ts = s.ts;
            for (u, x) in hold {
                let sh = x.shares.max(1);
                let dt = *self.rng.pick(&[0u64, 5, 3600, DAY, 3 * DAY, 7 * DAY]);
                self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
                ts += dt;
                let op = match self.rng.below(8) {
                    0 => Op::BDep { from: u, pool: rm, amt: 1 + self.rng.logu(s.bal(w.ctx.lp, u).max(1)) },
                    1 | 2 => Op::BQ { from: u, pool: rm, amt: 1 + self.rng.logu(sh) },
                    3 => Op::BDeq { from: u, pool: rm, amt: 1 + self.rng.logu(x.q.iter().map(|y| y.0).sum::<i128>().max(1)) },
                    4 => Op::BWd { from: u, pool: rm, amt: x.q.iter().filter(|y| y.1 <= ts).map(|y| y.0).sum::<i128>().max(1) },
                    5 => Op::PoolGulp { pool: rm },
                    _ => Op::BClaim { from: u, pools: vec![rm, add], to: u },
                };
                self.planned.push(a(op));
            }
        }
        Some(self.planned.remove(0))
    }
    fn bem(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        match self.rng.below(12) {
            0..=2 => {
                if self.rng.chance(2, 3) {
                    self.planned.push(a(Op::BGulp));
                    if self.rng.chance(1, 2) {
                        let pool = self.pool(w);
                        self.planned.push(a(Op::PoolGulp { pool }));
                    }
                    let last = s.back.last_dist;
                    if s.ts <= last + 3600 && self.rng.chance(4, 5) {
                        let dt = last + 3600 - s.ts + self.rng.below(3);
                        self.planned.insert(0, a(Op::EDist));
                        return a(Op::Time { dt, dseq: (dt / 5) as u32 });
                    }
                    return a(Op::EDist);
                }
                a(Op::BGulp)
            }
            3 | 4 => {
                if w.pools.len() > 10 && self.rng.chance(3, 4) {
                    if let Some(x) = self.zone(w) {
                        return x;
                    }
                }
                let mut c = w.pools.clone();
                c.push(w.rogue);
                let add = *self.rng.pick(&c);
                let rm = if !s.back.rz.is_empty() && self.rng.chance(2, 3) { *self.rng.pick(&s.back.rz) } else { *self.rng.pick(&c) };
                a(Op::BAdd { add, rm })
            }
            5 => a(Op::BUpdVal),
            _ => {
                let from = self.user(w);
                let mut pools: Vec<Aid> = w.pools.iter().copied().filter(|_| self.rng.chance(2, 3)).collect();
                if self.rng.chance(1, 12) && !pools.is_empty() {
                    let x = *self.rng.pick(&pools);
                    pools.push(x);
                }
                if self.rng.chance(1, 40) {
                    pools.push(w.rogue);
                }
                let to = if self.rng.chance(2, 3) { from } else { self.other(w, from) };
                a(Op::BClaim { from, pools, to })
            }
        }
    }
    fn emitter(&mut self, w: &World) -> (Op, Auth) {
        let x = self.emitter_op(w);
        if self.planned.is_empty() && !matches!(x.0, Op::Time { .. } | Op::Mint { .. } | Op::Xfer { .. }) && self.rng.chance(1, 8) {
            // a long silence before it
            self.planned.push(x);
            let dt = DAY + self.rng.below(8 * DAY);
            return a(Op::Time { dt, dseq: (dt / 5) as u32 });
        }
        x
    }
    fn emitter_op(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let lp = s.emit.token;
        match self.rng.below(14) {
            0..=3 => a(Op::EDist),
            4 | 5 => {
                let nb = *self.rng.pick(&[w.back2, w.attacker, w.ctx.back, w.users[0]]);
                a(Op::EQSwap { nb, nt: *self.rng.pick(&[w.lp2, w.ctx.lp]) })
            }
            6 | 7 => a(Op::ECancel),
            8 | 9 => {
                if let Some((_, _, u)) = s.emit.swap {
                    if u > s.ts && self.rng.chance(3, 4) {
                        let dt = u - s.ts - self.rng.below(2);
                        self.planned.push(a(Op::Time { dt, dseq: (dt / 5) as u32 }));
                        self.planned.push(a(Op::ESwap));
                        return self.planned.remove(0);
                    }
                }
                a(Op::ESwap)
            }
            10 => {
                if s.emit.backstop == w.ctx.back {
                    return a(Op::BDrop);
                }
                let mut list = drop_list(&mut self.rng, &[w.users.clone(), vec![w.back2, w.attacker]].concat());
                if self.rng.chance(1, 8) {
                    let k = self.rng.below(list.len() as u64) as usize;
                    list[k].1 = -1 - self.rng.logu(1_000_000 * S7);
                }
                a(Op::EDrop { list })
            }
            11 | 12 => {
                // make the contender exactly equal to, or one above, the incumbent
                if lp != w.ctx.lp {
                    return a(Op::EDist);
                }
                let nb = s.emit.swap.map(|x| x.0).unwrap_or(w.back2);
                let (cur, have) = (s.bal(lp, s.emit.backstop), s.bal(lp, nb));
                let want = cur + self.rng.range(-1, 1);
                if nb == s.emit.backstop {
                    a(Op::EDist)
                } else if want > have {
                    a(Op::Mint { token: w.ctx.lp, to: nb, amt: want - have })
                } else if nb == w.ctx.back {
                    // the contract never sends its own tokens, so the incumbent catches up instead
                    let up = (have - cur + self.rng.range(-1, 1)).max(0);
                    a(Op::Mint { token: w.ctx.lp, to: s.emit.backstop, amt: up })
                } else {
                    a(Op::Xfer { token: w.ctx.lp, from: nb, to: w.users[0], amt: have - want })
                }
            }
            _ => a(Op::EInit),
        }
    }
    fn tokens(&mut self, w: &World) -> (Op, Auth) {
        match self.rng.below(8) {
            0 | 1 => {
                // unsolicited transfers into the contracts
                let u = self.user(w);
                let pool = self.pool(w);
                let t = self.asset_of(w, pool);
                let bal = w.snap().bal(t, u);
                a(Op::Xfer { token: t, from: u, to: pool, amt: self.rng.range(0, bal / 10 + 1) })
            }
            2 => {
                let u = self.user(w);
                let bal = w.snap().bal(w.ctx.lp, u);
                a(Op::Xfer { token: w.ctx.lp, from: u, to: w.ctx.back, amt: self.rng.range(0, bal / 10 + 1) })
            }
            3 | 4 => self.lp_comp(w),
            5 => a(Op::BUpdVal),
            _ => {
                let u = self.user(w);
                let pool = self.pool(w);
                let t = self.asset_of(w, pool);
                let amt = self.rng.logu(1_000_000) * self.unit(t);
                a(Op::Mint { token: t, to: u, amt })
            }
        }
    }
    /// someone tries something they may not
    fn hostile(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        let victim = self.user(w);
        let asset = self.asset_of(w, pool);
        let at = w.attacker;
        let unit = self.unit(asset);
        let amt = 1 + self.rng.logu(100 * unit);
        let cfg = self.rand_cfg(*self.dec.get(&asset).unwrap_or(&7));
        let op = match self.rng.below(24) {
            0 => Op::Submit { pool, from: victim, spender: at, to: at, reqs: vec![(1, asset, amt)] },
            1 => Op::Submit { pool, from: victim, spender: at, to: at, reqs: vec![(3, asset, amt)] },
            2 => Op::Submit { pool, from: victim, spender: at, to: at, reqs: vec![(4, asset, amt)] },
            3 => Op::Submit { pool, from: at, spender: victim, to: at, reqs: vec![(0, asset, amt)] },
            4 => Op::SetStatus { pool, st: *self.rng.pick(&[0, 2, 3, 4]) },
            5 => Op::SetAdmin { pool, new: at },
            6 => Op::UpdPool { pool, rate: 0, maxpos: 10 },
            7 => Op::QRes { pool, asset, cfg },
            8 => Op::CRes { pool, asset },
            9 => Op::SetEmis { pool, md: vec![(0, 1, 10_000_000)] },
            10 => {
                let n = s.pools[&pool].list.len() as u32;
                Op::PClaim { pool, from: victim, ids: (0..2 * n).collect(), to: at }
            }
            11 => Op::BDep { from: victim, pool, amt: 1 + s.bal(w.ctx.lp, victim) / 2 },
            12 => Op::BQ { from: victim, pool, amt: s.back.user.get(&(pool, victim)).map_or(1, |u| u.shares) },
            13 => Op::BDeq { from: victim, pool, amt: s.back.user.get(&(pool, victim)).map_or(1, |u| u.q.iter().map(|x| x.0).sum()) },
            14 => Op::BWd { from: victim, pool, amt: s.back.user.get(&(pool, victim)).map_or(1, |u| u.q.iter().filter(|x| x.1 <= s.ts).map(|x| x.0).sum()) },
            15 => Op::BClaim { from: victim, pools: w.pools.clone(), to: at },
            16 => Op::BDraw { pool, amt: 1 + s.back.pool.get(&pool).map_or(0, |p| p.tokens / 3), to: at },
            17 => Op::BDonate { from: victim, pool, amt: s.bal(w.ctx.lp, victim) / 2 },
            18 => Op::BGulpPool { pool },
            19 => Op::EDrop { list: vec![(at, 1000 * S7)] },
            20 => Op::BInit,
            21 => Op::EInit,
            22 => Op::PInit { pool, admin: at, rate: 0, maxpos: 5, oracle: w.oracles[0], backstop: at, blnd: at },
            // a contract that is not a registered pool, acting with its own authority
            _ => {
                return match self.rng.below(4) {
                    0 => a(Op::BDraw { pool: w.rogue, amt: self.rng.below(2) as i128, to: at }),
                    1 => a(Op::BDonate { from: victim, pool: w.rogue, amt: 10 }),
                    2 => a(Op::BGulpPool { pool: w.rogue }),
                    _ => a(Op::BDep { from: victim, pool: w.rogue, amt: 1000 }),
                }
            }
        };
        let signers = match self.rng.below(4) {
            0 => vec![],
            1 => vec![at],
            // a donation needs the pool's consent as well as the donor's; a pull needs the owner's as well
            2 => match &op {
                Op::BDonate { from, .. } => vec![*from],
                Op::Submit { spender, .. } => vec![*spender],
                Op::SetAdmin { pool, new } => {
                    if self.rng.chance(1, 2) {
                        vec![*new]
                    } else {
                        vec![s.pools[pool].admin]
                    }
                }
                _ => vec![at],
            },
            _ => match &op {
                Op::Submit { from, .. } => vec![*from],
                _ => vec![at],
            },
        };
        (op, Auth::Only(signers))
    }

    fn view(&mut self, w: &World) -> (Op, Auth) {
        let s = w.snap();
        let pool = self.pool(w);
        let u = *self.rng.pick(&[self.rng.clone().pick(&w.users).to_owned(), w.ctx.back, w.attacker, w.users[0], w.users[1]]);
        let v = match self.rng.below(8) {
            0 => View::Pos(pool, u),
            1 | 2 => {
                let l: Vec<(Aid, Aid, u32)> = s.pools.values().flat_map(|p| p.auct.keys().map(|k| (p.id, k.0, k.1))).collect();
                if l.is_empty() {
                    View::Auct(pool, self.rng.below(3) as u32, u)
                } else {
                    let (p, u, t) = *self.rng.pick(&l);
                    View::Auct(p, t, u)
                }
            }
            3 => {
                let l: Vec<(Aid, Aid)> = s.back.user.keys().copied().collect();
                if l.is_empty() {
                    View::BUser(pool, u)
                } else {
                    let (p, u) = *self.rng.pick(&l);
                    View::BUser(p, u)
                }
            }
            4 => View::BPool(pool),
            5 => View::BToken,
            6 => View::Last(*self.rng.pick(&[w.ctx.back, w.back2, w.attacker])),
            _ => *self.rng.pick(&[View::Backstop, View::Swap]),
        };
        a(Op::View(v))
    }
    pub fn next(&mut self, w: &World) -> (Op, Auth) {
        let (op, auth) = self.chosen(w);
        match &op {
            // the backstop never asks for anything on its own behalf, so nothing may sign for it
            Op::Submit { from, spender, .. } if *from == w.ctx.back || *spender == w.ctx.back => {
                (Op::Time { dt: 5, dseq: 1 }, Auth::All)
            }
            _ => (op, auth),
        }
    }
    fn chosen(&mut self, w: &World) -> (Op, Auth) {
        if !self.planned.is_empty() {
            return self.planned.remove(0);
        }
        if self.rng.chance(1, self.views) {
            return self.view(w);
        }
        // keep quotes fresh most of the time, or nothing that needs a price would ever run
        if !self.fresh(w) && self.rng.chance(1, 2) {
            self.refresh(w);
            return self.planned.remove(0);
        }
        if self.rng.chance(1, 10) {
            return self.tuned(w);
        }
        self.pick(w)
    }
    fn pick(&mut self, w: &World) -> (Op, Auth) {
        match self.rng.weighted(&self.w.clone()) {
            0 => self.time(w),
            1 => self.price(w),
            2 => self.plain(w),
            3 => self.borrow(w),
            4 => self.fill(w),
            5 => self.auction(w),
            6 => self.status(w),
            7 => self.config(w),
            8 => self.pem(w),
            9 => self.bus(w),
            10 => self.bem(w),
            11 => self.emitter(w),
            12 => self.tokens(w),
            13 => self.hostile(w),
            14 => self.bad(w),
            _ => self.batch(w),
        }
    }
}
