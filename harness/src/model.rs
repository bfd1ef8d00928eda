//! Executable specification. `Model::apply` computes, from the ledger observed before an operation, whether the
//! operation must succeed and the exact ledger it must leave; the monitors compare that with what the real
//! contracts did. The model is re-synchronised from the observed ledger at every step, so one divergence is reported
//! once and does not cascade.
use crate::math::*;
use crate::ops::*;
use crate::types::*;
use std::collections::BTreeSet;

/// Why the specification refuses an operation.
pub type Why = &'static str;
pub type R<T> = Result<T, Why>;
pub const ARITH: Why = "arith";

trait Ar<T> {
    fn ar(self) -> R<T>;
}
impl<T> Ar<T> for Option<T> {
    fn ar(self) -> R<T> {
        self.ok_or(ARITH)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ctx {
    pub back: Aid,
    pub emit: Aid,
    pub factory: Aid,
    pub lp: Aid,
    pub blnd: Aid,
    pub usdc: Aid,
    pub registered: BTreeSet<Aid>,
    pub res_assets: Vec<Aid>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    None,
    I(i128),
    U(u32),
    Pos(Pos),
    Auct(Auction),
    Q4w(i128, u64),
    Pair(i128, i128),
    U64(u64),
    Addr(Aid),
    BUser(BUser),
    PoolData(i128, i128, i128, i128),
    Swap(Option<(Aid, Aid, u64)>),
}

pub struct Model<'a> {
    pub s: Snap,
    pub c: &'a Ctx,
    /// addresses whose authorisation the call needs
    pub need: Vec<Aid>,
    pub ret: Ret,
    /// liabilities written off: (pool, asset) -> underlying
    pub burned: Map<(Aid, Aid), i128>,
    cache: Map<Aid, (ResData, bool)>,
    pub notes: Vec<&'static str>,
    /// what the call publishes
    pub ev: Vec<String>,
}

pub fn total_liab(d: &ResData) -> Option<i128> {
    mdc(d.d_supply, d.d_rate, S9)
}
pub fn total_supply(d: &ResData) -> Option<i128> {
    mdf(d.b_supply, d.b_rate, S9)
}
pub fn utilization(d: &ResData) -> Option<i128> {
    mdc(total_liab(d)?, S7, total_supply(d)?)
}
/// current interest rate, 7 decimals
pub fn cur_ir(c: &ResCfg, util: i128, ir_mod: i128) -> Option<i128> {
    let target = c.util as i128;
    let (base, one, two, three) = (c.r_base as i128, c.r_one as i128, c.r_two as i128, c.r_three as i128);
    if util <= target {
        let us = mdc(util, S7, target)?;
        mdc(mdc(us, one, S7)? + base, ir_mod, S9)
    } else if util <= 9_500_000 {
        let us = mdc(util - target, S7, 9_500_000 - target)?;
        mdc(mdc(us, two, S7)? + one + base, ir_mod, S9)
    } else {
        let us = mdc(util - 9_500_000, S7, 500_000)?;
        Some(mdc(us, three, S7)? + mdc(ir_mod, two + one + base, S9)?)
    }
}
pub fn accrue(d: &mut ResData, c: &ResCfg, bstop_rate: u32, now: u64) -> Option<()> {
    if d.last_time == now {
        return Some(());
    }
    let last = d.last_time;
    if d.b_supply == 0 {
        d.last_time = now;
        return Some(());
    }
    let util = utilization(d)?;
    if util == 0 {
        d.last_time = now;
        return Some(());
    }
    let ir = cur_ir(c, util, d.ir_mod)?;
    let dt9 = (now.checked_sub(last)? as i128).checked_mul(S9)?;
    let dif = (util - c.util as i128) * 100;
    let new_mod = if dif >= 0 {
        (d.ir_mod + mdf(mdf(dt9, dif, S9)?, c.reactivity as i128, S7)?).min(10 * S9)
    } else {
        (d.ir_mod + mdc(mdc(dt9, dif, S9)?, c.reactivity as i128, S7)?).max(S9 / 10)
    };
    let accrual = S9 + mdc(dt9 / YEAR, ir * 100, S9)?;
    let pre_s = total_supply(d)?;
    let pre_l = total_liab(d)?;
    d.ir_mod = new_mod;
    d.d_rate = mdc(accrual, d.d_rate, S9)?;
    let acc = total_liab(d)? - pre_l;
    if acc > 0 {
        let cut = if bstop_rate > 0 { mdf(acc, bstop_rate as i128, S7)? } else { 0 };
        d.credit += cut;
        d.b_rate = mdf(pre_s + acc - cut, S9, d.b_supply)?;
    }
    d.last_time = now;
    Some(())
}
/// Advance an emission index to `now`.
pub fn em_index(cfg: &(u64, u64), data: &(i128, u64), supply: i128, scalar: i128, now: u64, cap: bool) -> Option<(i128, u64)> {
    let (exp, eps) = *cfg;
    let (idx, last) = *data;
    if last >= exp || now == last || eps == 0 || supply == 0 {
        return Some(*data);
    }
    let until = now.min(exp);
    let add = mdf((until - last) as i128 * eps as i128, scalar, supply)?;
    Some((idx + add, if cap { until } else { now }))
}
pub fn em_user(rec: Option<&(i128, i128)>, bal: i128, scalar: i128, idx: i128) -> Option<(i128, i128)> {
    Some(match rec {
        Some((i, a)) => (idx, a + mdf(bal, idx - i, scalar)?),
        None => (idx, mdf(bal, idx, scalar)?),
    })
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Health {
    pub cb: i128,
    pub cr: i128,
    pub lb: i128,
    pub lr: i128,
    pub scalar: i128,
}
impl Health {
    pub fn hf(&self) -> Option<i128> {
        mdf(self.cb, self.scalar, self.lb)
    }
    pub fn over(&self, max: i128) -> Option<bool> {
        if self.lb == 0 {
            return Some(true);
        }
        Some(self.hf()? > mdc(self.scalar, max, S7)?)
    }
    pub fn under(&self, min: i128) -> Option<bool> {
        if self.lb == 0 {
            return Some(false);
        }
        Some(self.hf()? < mdf(self.scalar, min, S7)?)
    }
}

pub fn threshold(blnd: i128, usdc: i128) -> i128 {
    let (b, u) = (blnd / S7, usdc / S7);
    b.saturating_mul(b).saturating_mul(b).saturating_mul(b).saturating_mul(u).saturating_mul(S7)
        / 320_000_000_000_000_000_000_000_000i128
}
pub fn above_threshold(blnd: i128, usdc: i128) -> bool {
    let (b, u) = (blnd / S7, usdc / S7);
    b.saturating_mul(b).saturating_mul(b).saturating_mul(b).saturating_mul(u) >= 320_000_000_000_000_000_000_000_000i128
}
pub fn to_tokens(p: &BPool, shares: i128) -> Option<i128> {
    if p.shares == 0 {
        return Some(shares);
    }
    mdf(shares, p.tokens, p.shares)
}
pub fn to_shares(p: &BPool, tokens: i128) -> Option<i128> {
    if p.shares == 0 {
        return Some(tokens);
    }
    mdf(tokens, p.shares, p.tokens)
}
/// (tokens, q4w pct, blnd, usdc)
pub fn pool_data(b: &BackS, pool: Aid) -> R<(i128, i128, i128, i128)> {
    let p = b.pool.get(&pool).cloned().unwrap_or_default();
    let pct = if p.shares > 0 { mdc(p.q4w, S7, p.shares).ar()? } else { 0 };
    let (bv, uv) = b.lpval.ok_or("no_lp_value")?;
    Ok((p.tokens, pct, mdf(p.tokens, bv, S7).ar()?, mdf(p.tokens, uv, S7).ar()?))
}
pub fn lp_out(s: &Snap, c: &Ctx, amount: i128) -> Option<i128> {
    let supply: i128 = s.bal.iter().filter(|((t, _), _)| *t == c.lp).map(|(_, v)| *v).sum();
    let pooled = s.bal(c.blnd, c.lp);
    if pooled <= 0 || supply <= 0 {
        return None;
    }
    mdf(mdf(supply, amount, pooled)?, 8, 10)
}
pub fn scale(a: &Auction, seq: u32, pct: i128) -> R<(Auction, Option<Auction>)> {
    if !(1..=100).contains(&pct) {
        return Err("percent");
    }
    if seq < a.block {
        return Err("not_started");
    }
    let dif = (seq - a.block) as i128;
    let (lm, bm) = if dif > 200 {
        (S7, if dif < 400 { S7 - (dif - 200) * 50_000 } else { 0 })
    } else {
        (dif * 50_000, S7)
    };
    let p = pct * 100_000;
    let mut fill = Auction { block: a.block, ..Default::default() };
    let mut rem = Auction { block: a.block, ..Default::default() };
    for (k, v) in &a.bid {
        let base = mdc(*v, p, S7).ar()?;
        if v - base > 0 {
            rem.bid.insert(*k, v - base);
        }
        let sc = mdc(base, bm, S7).ar()?;
        if sc > 0 {
            fill.bid.insert(*k, sc);
        }
    }
    for (k, v) in &a.lot {
        let base = mdf(*v, p, S7).ar()?;
        if v - base > 0 {
            rem.lot.insert(*k, v - base);
        }
        let sc = mdf(base, lm, S7).ar()?;
        if sc > 0 {
            fill.lot.insert(*k, sc);
        }
    }
    let rem = if rem.bid.is_empty() && rem.lot.is_empty() { None } else { Some(rem) };
    Ok((fill, rem))
}
pub fn valid_cfg(c: &ResCfg) -> bool {
    c.decimals <= 18
        && c.c_factor <= 10_000_000
        && c.l_factor <= 10_000_000
        && c.util <= 9_500_000
        && c.max_util <= 10_000_000
        && c.max_util > c.util
        && c.r_base < 10_000_000
        && c.r_base >= 1_000
        && c.r_one <= c.r_two
        && c.r_two <= c.r_three
        && c.reactivity <= 1_000
}

fn show_map(m: &Map<Aid, i128>) -> String {
    let mut l: Vec<String> = m.iter().map(|(k, v)| format!("@{k}:{v}")).collect();
    l.sort();
    format!("{{{}}}", l.join(" "))
}
fn show_auction(a: &Auction) -> String {
    format!("{{bid:{} block:{}u32 lot:{}}}", show_map(&a.bid), a.block, show_map(&a.lot))
}
fn show_cfg(c: &ResCfg) -> String {
    format!(
        "{{c_factor:{}u32 decimals:{}u32 index:{}u32 l_factor:{}u32 max_util:{}u32 r_base:{}u32 r_one:{}u32 r_three:{}u32 r_two:{}u32 reactivity:{}u32 util:{}u32}}",
        c.c_factor, c.decimals, c.index, c.l_factor, c.max_util, c.r_base, c.r_one, c.r_three, c.r_two, c.reactivity, c.util
    )
}
fn show_swap(s: (Aid, Aid, u64)) -> String {
    format!("{{new_backstop:@{} new_backstop_token:@{} unlock_time:{}u64}}", s.0, s.1, s.2)
}

#[derive(Clone, Copy, PartialEq)]
enum Side {
    L,
    C,
    S,
}

impl<'a> Model<'a> {
    pub fn new(s: &Snap, c: &'a Ctx) -> Self {
        Model { s: s.clone(), c, need: vec![], ret: Ret::None, burned: Map::new(), cache: Map::new(), notes: vec![], ev: vec![] }
    }
    fn say(&mut self, c: Aid, topics: String, data: String) {
        self.ev.push(format!("{c} {topics} = {data}"));
    }
    fn p(&self, pool: Aid) -> R<&PoolS> {
        match self.s.pools.get(&pool) {
            Some(p) if p.init => Ok(p),
            _ => Err("uninit"),
        }
    }
    fn pm(&mut self, pool: Aid) -> &mut PoolS {
        self.s.pools.get_mut(&pool).unwrap()
    }
    fn auth(&mut self, a: Aid) {
        if !self.need.contains(&a) {
            self.need.push(a);
        }
    }
    fn transfer(&mut self, t: Aid, from: Aid, to: Aid, amt: i128) -> R<()> {
        if amt < 0 {
            return Err("neg");
        }
        if self.s.bal(t, from) < amt {
            return Err("balance");
        }
        self.s.addbal(t, from, -amt);
        if self.s.bal(t, to).checked_add(amt).is_none() {
            return Err(ARITH);
        }
        self.s.addbal(t, to, amt);
        Ok(())
    }
    fn mint(&mut self, t: Aid, to: Aid, amt: i128) -> R<()> {
        if amt < 0 {
            return Err("neg");
        }
        if self.s.bal(t, to).checked_add(amt).is_none() {
            return Err(ARITH);
        }
        self.s.addbal(t, to, amt);
        Ok(())
    }

    // ---------------------------------------------------------------- reserves
    pub fn res(&mut self, pool: Aid, asset: Aid, store: bool) -> R<ResData> {
        if let Some((d, st)) = self.cache.get_mut(&asset) {
            *st |= store;
            return Ok(d.clone());
        }
        let now = self.s.ts;
        let p = self.p(pool)?;
        let c = p.cfg.get(&asset).ok_or("no_reserve")?.clone();
        let mut d = p.data.get(&asset).ok_or("no_reserve")?.clone();
        let rate = p.bstop_rate;
        accrue(&mut d, &c, rate, now).ar()?;
        self.cache.insert(asset, (d.clone(), store));
        Ok(d)
    }
    fn put(&mut self, asset: Aid, d: ResData) {
        let st = self.cache.get(&asset).map(|x| x.1).unwrap_or(false);
        self.cache.insert(asset, (d, st));
    }
    fn flush(&mut self, pool: Aid) {
        for (a, (d, st)) in std::mem::take(&mut self.cache) {
            if st {
                self.pm(pool).data.insert(a, d);
            }
        }
    }
    fn price(&self, pool: Aid, asset: Aid) -> R<i128> {
        let p = self.p(pool)?;
        let o = self.s.oracle.get(&p.oracle).ok_or("no_oracle")?;
        let (pr, ts) = *o.price.get(&asset).ok_or("no_price")?;
        if ts.checked_add(DAY).ar()? < self.s.ts {
            return Err("stale");
        }
        Ok(pr)
    }
    fn oscalar(&self, pool: Aid) -> R<i128> {
        let p = self.p(pool)?;
        pow10(self.s.oracle.get(&p.oracle).ok_or("no_oracle")?.decimals).ar()
    }
    pub fn health(&mut self, pool: Aid, pos: &Pos) -> R<Health> {
        let scalar = self.oscalar(pool)?;
        let list = self.p(pool)?.list.clone();
        let mut h = Health { scalar, ..Default::default() };
        for (i, asset) in list.iter().enumerate() {
            let (b, d) = (pos.c(i as u32), pos.l(i as u32));
            if b == 0 && d == 0 {
                continue;
            }
            let r = self.res(pool, *asset, false)?;
            let c = self.p(pool)?.cfg[asset].clone();
            let dec = pow10(c.decimals).ar()?;
            let pr = self.price(pool, *asset)?;
            if b > 0 {
                let a = mdf(b, r.b_rate, S9).ar()?;
                let eff = mdf(a, c.c_factor as i128, S7).ar()?;
                h.cb = h.cb.checked_add(mdf(pr, eff, dec).ar()?).ar()?;
                h.cr = h.cr.checked_add(mdf(pr, a, dec).ar()?).ar()?;
            }
            if d > 0 {
                if c.l_factor == 0 {
                    return Err("no_liability_factor");
                }
                let a = mdc(d, r.d_rate, S9).ar()?;
                let eff = mdc(a, S7, c.l_factor as i128).ar()?;
                h.lb = h.lb.checked_add(mdc(pr, eff, dec).ar()?).ar()?;
                h.lr = h.lr.checked_add(mdc(pr, a, dec).ar()?).ar()?;
            }
        }
        Ok(h)
    }

    // ---------------------------------------------------------------- pool emissions
    fn em_touch(&mut self, pool: Aid, id: u32, supply: i128, scalar: i128, user: Aid, bal: i128, claim: bool) -> R<i128> {
        let now = self.s.ts;
        let p = self.pm(pool);
        let cfg = match p.ecfg.get(&id) {
            Some(c) => *c,
            None => return Ok(0),
        };
        let data = *p.edata.get(&id).ok_or("no_emis_data")?;
        let data = em_index(&cfg, &data, supply, scalar, now, true).ar()?;
        p.edata.insert(id, data);
        let (i, a) = em_user(p.uem.get(&(user, id)), bal, scalar, data.0).ar()?;
        p.uem.insert((user, id), (i, if claim { 0 } else { a }));
        Ok(if claim { a } else { 0 })
    }

    fn chg(&mut self, pool: Aid, user: Aid, side: Side, asset: Aid, delta: i128) -> R<()> {
        if delta == 0 {
            return Err("zero");
        }
        let mut r = self.res(pool, asset, true)?;
        let c = self.p(pool)?.cfg[&asset].clone();
        let idx = c.index;
        let scalar = pow10(c.decimals).ar()?;
        let pos = self.p(pool)?.pos.get(&user).cloned().unwrap_or_default();
        if side == Side::L {
            self.em_touch(pool, idx * 2, r.d_supply, scalar, user, pos.l(idx), false)?;
        } else {
            self.em_touch(pool, idx * 2 + 1, r.b_supply, scalar, user, pos.b(idx), false)?;
        }
        let e = self.pm(pool).pos.entry(user).or_default();
        let m = match side {
            Side::L => &mut e.liab,
            Side::C => &mut e.coll,
            Side::S => &mut e.supp,
        };
        let n = m.get(&idx).copied().unwrap_or(0).checked_add(delta).ar()?;
        if n < 0 {
            return Err("position");
        }
        if n == 0 {
            m.remove(&idx);
        } else {
            m.insert(idx, n);
        }
        if side == Side::L {
            r.d_supply = r.d_supply.checked_add(delta).ar()?;
        } else {
            r.b_supply = r.b_supply.checked_add(delta).ar()?;
        }
        self.put(asset, r);
        Ok(())
    }

    // ---------------------------------------------------------------- submit
    fn submit(&mut self, pool: Aid, from: Aid, spender: Aid, to: Aid, reqs: &[(u32, Aid, i128)]) -> R<()> {
        self.auth(spender);
        self.auth(from);
        let p = self.p(pool)?;
        let (status, maxpos) = (p.status, p.max_positions);
        if from == pool || spender == pool || to == pool {
            return Err("self");
        }
        let prev = p.pos.get(&from).map(|x| x.count()).unwrap_or(0);
        self.pm(pool).pos.entry(from).or_default();
        let mut tin: Map<Aid, i128> = Map::new();
        let mut tout: Map<Aid, i128> = Map::new();
        let mut health = false;
        for (ty, asset, amt) in reqs {
            let (asset, amt) = (*asset, *amt);
            if amt < 0 {
                return Err("neg");
            }
            if (status > 1 && (*ty == 4 || *ty == 9)) || (status > 3 && (*ty == 0 || *ty == 2)) {
                return Err("status");
            }
            match ty {
                0 | 2 => {
                    let r = self.res(pool, asset, true)?;
                    let b = mdf(amt, S9, r.b_rate).ar()?;
                    self.chg(pool, from, if *ty == 0 { Side::S } else { Side::C }, asset, b)?;
                    let e = tin.entry(asset).or_insert(0);
                    *e = e.checked_add(amt).ar()?;
                    let n = if *ty == 0 { "supply" } else { "supply_collateral" };
                    self.say(pool, format!("{n} @{asset} @{from}"), format!("[{amt} {b}]"));
                }
                1 | 3 => {
                    let r = self.res(pool, asset, true)?;
                    let idx = self.p(pool)?.cfg[&asset].index;
                    let pos = self.p(pool)?.pos[&from].clone();
                    let cur = if *ty == 1 { pos.s(idx) } else { pos.c(idx) };
                    let mut burn = mdc(amt, S9, r.b_rate).ar()?;
                    let mut out = amt;
                    if burn > cur {
                        burn = cur;
                        out = mdf(cur, r.b_rate, S9).ar()?;
                    }
                    self.chg(pool, from, if *ty == 1 { Side::S } else { Side::C }, asset, -burn)?;
                    let e = tout.entry(asset).or_insert(0);
                    *e = e.checked_add(out).ar()?;
                    if *ty == 3 {
                        health = true;
                    }
                    let n = if *ty == 1 { "withdraw" } else { "withdraw_collateral" };
                    self.say(pool, format!("{n} @{asset} @{from}"), format!("[{out} {burn}]"));
                }
                4 => {
                    let r = self.res(pool, asset, true)?;
                    let d = mdc(amt, S9, r.d_rate).ar()?;
                    self.chg(pool, from, Side::L, asset, d)?;
                    let r = self.res(pool, asset, true)?;
                    let mu = self.p(pool)?.cfg[&asset].max_util as i128;
                    if total_supply(&r).ar()? == 0 {
                        return Err("util");
                    }
                    if utilization(&r).ar()? > mu {
                        return Err("util");
                    }
                    let e = tout.entry(asset).or_insert(0);
                    *e = e.checked_add(amt).ar()?;
                    health = true;
                    self.say(pool, format!("borrow @{asset} @{from}"), format!("[{amt} {d}]"));
                }
                5 => {
                    let r = self.res(pool, asset, true)?;
                    let idx = self.p(pool)?.cfg[&asset].index;
                    let cur = self.p(pool)?.pos[&from].l(idx);
                    let d = mdf(amt, S9, r.d_rate).ar()?;
                    let e = tin.entry(asset).or_insert(0);
                    *e = e.checked_add(amt).ar()?;
                    if d > cur {
                        let refund = amt - mdc(cur, r.d_rate, S9).ar()?;
                        if refund < 0 {
                            return Err("neg");
                        }
                        self.chg(pool, from, Side::L, asset, -cur)?;
                        let e = tout.entry(asset).or_insert(0);
                        *e = e.checked_add(refund).ar()?;
                        self.say(pool, format!("repay @{asset} @{from}"), format!("[{} {cur}]", amt - refund));
                    } else {
                        self.chg(pool, from, Side::L, asset, -d)?;
                        self.say(pool, format!("repay @{asset} @{from}"), format!("[{amt} {d}]"));
                    }
                }
                6 | 7 | 8 => {
                    self.fill(pool, *ty - 6, asset, from, amt)?;
                    if *ty != 8 {
                        health = true;
                    }
                    self.say(pool, format!("fill_auction @{asset} {}u32", *ty - 6), format!("[@{from} {amt}]"));
                }
                9 => {
                    if self.pm(pool).auct.remove(&(from, 0)).is_none() {
                        return Err("no_auction");
                    }
                    health = true;
                    self.say(pool, format!("delete_liquidation_auction @{from}"), "()".into());
                }
                _ => return Err("request_type"),
            }
        }
        let pos = self.p(pool)?.pos[&from].clone();
        if pos.count() > prev && pos.count() > maxpos {
            return Err("max_positions");
        }
        if health && !pos.liab.is_empty() {
            let h = self.health(pool, &pos)?;
            if h.under(10_000_100).ar()? {
                return Err("hf");
            }
        }
        for (t, a) in tin {
            self.transfer(t, spender, pool, a)?;
        }
        self.flush(pool);
        for (t, a) in tout {
            self.transfer(t, pool, to, a)?;
        }
        self.ret = Ret::Pos(pos);
        Ok(())
    }

    fn fill(&mut self, pool: Aid, ty: u32, user: Aid, filler: Aid, pct: i128) -> R<()> {
        if user == filler {
            return Err("self_fill");
        }
        let back = self.p(pool)?.backstop;
        let a = self.p(pool)?.auct.get(&(user, ty)).cloned().ok_or("no_auction")?;
        let (fill, mut rem) = scale(&a, self.s.seq, pct)?;
        match ty {
            0 => {
                for (t, v) in &fill.lot {
                    self.chg(pool, user, Side::C, *t, -*v)?;
                }
                for (t, v) in &fill.bid {
                    self.chg(pool, user, Side::L, *t, -*v)?;
                }
                for (t, v) in &fill.lot {
                    self.chg(pool, filler, Side::C, *t, *v)?;
                }
                for (t, v) in &fill.bid {
                    self.chg(pool, filler, Side::L, *t, *v)?;
                }
            }
            1 => {
                if filler == back {
                    return Err("self_fill");
                }
                for (t, v) in &fill.bid {
                    self.chg(pool, back, Side::L, *t, -*v)?;
                }
                for (t, v) in &fill.bid {
                    self.chg(pool, filler, Side::L, *t, *v)?;
                }
                let lot = fill.lot.get(&self.s.back.token).copied().unwrap_or(0);
                self.draw(pool, lot, filler)?;
                let pos = self.p(pool)?.pos.get(&back).cloned().unwrap_or_default();
                if !pos.liab.is_empty() {
                    let (_, _, b, u) = pool_data(&self.s.back, pool)?;
                    if threshold(b, u) < 3 {
                        let list = self.p(pool)?.list.clone();
                        self.notes.push("burned_bad_debt");
                        for (i, v) in pos.liab {
                            let asset = list[i as usize];
                            let before = total_liab(&self.res(pool, asset, true)?).ar()?;
                            self.chg(pool, back, Side::L, asset, -v)?;
                            let after = total_liab(&self.res(pool, asset, true)?).ar()?;
                            *self.burned.entry((pool, asset)).or_insert(0) += before - after;
                            self.say(pool, format!("bad_debt @{back}"), format!("[@{asset} {v}]"));
                        }
                    }
                }
                // an auction for debt that no longer exists sells the backstop's tokens for nothing
                if self.p(pool)?.pos.get(&back).map_or(true, |p| p.liab.is_empty()) {
                    rem = None;
                }
            }
            _ => {
                if filler == back {
                    return Err("self_fill");
                }
                let bid = fill.bid.get(&self.s.back.token).copied().unwrap_or(0);
                self.donate(filler, pool, bid)?;
                for (t, v) in &fill.lot {
                    let mut r = self.res(pool, *t, true)?;
                    r.credit = r.credit.checked_sub(*v).ar()?;
                    self.put(*t, r);
                    self.transfer(*t, pool, filler, *v)?;
                }
            }
        }
        match rem {
            Some(r) => self.pm(pool).auct.insert((user, ty), r),
            None => self.pm(pool).auct.remove(&(user, ty)),
        };
        Ok(())
    }

    // ---------------------------------------------------------------- auctions
    fn new_liq(&mut self, pool: Aid, user: Aid, pct: u64) -> R<()> {
        let p = self.p(pool)?;
        if user == pool || user == p.backstop {
            return Err("liq_user");
        }
        if p.auct.contains_key(&(user, 0)) {
            return Err("in_progress");
        }
        if pct == 0 || pct > 100 {
            return Err("percent");
        }
        let list = p.list.clone();
        let pos = p.pos.get(&user).cloned().unwrap_or_default();
        let h = self.health(pool, &pos)?;
        if h.lb < h.cb {
            return Err("healthy");
        }
        if h.cr == 0 {
            return Err("no_collateral");
        }
        if h.lr == 0 {
            return Err("nothing_owed");
        }
        let sc = h.scalar;
        let pcts = pct as i128 * sc / 100;
        let acf = mdf(h.cb, sc, h.cr).ar()?;
        let alf = mdf(h.lb, sc, h.lr).ar()?;
        let inc = mdc(sc - mdc(acf, sc, alf).ar()?, sc, 2 * sc).ar()? + sc;
        let est = mdf(mdf(h.lr, pcts, sc).ar()?, inc, sc).ar()?;
        let wp = mdc(est, sc, h.cr).ar()?.min(sc);
        let mut a = Auction { block: self.s.seq + 1, ..Default::default() };
        for (i, v) in &pos.coll {
            a.lot.insert(list[*i as usize], mdc(*v, wp, sc).ar()?);
        }
        for (i, v) in &pos.liab {
            a.bid.insert(list[*i as usize], mdc(*v, pcts, sc).ar()?);
        }
        if pct == 100 {
            if est < h.cr {
                return Err("liq_too_large");
            }
        } else {
            let save = self.s.pools[&pool].clone();
            for (t, v) in &a.lot {
                self.chg(pool, user, Side::C, *t, -*v)?;
            }
            for (t, v) in &a.bid {
                self.chg(pool, user, Side::L, *t, -*v)?;
            }
            let np = self.p(pool)?.pos[&user].clone();
            let nh = self.health(pool, &np)?;
            // only the emission bookkeeping of this hypothetical is kept
            let (ed, ue) = (self.s.pools[&pool].edata.clone(), self.s.pools[&pool].uem.clone());
            self.s.pools.insert(pool, save);
            self.pm(pool).edata = ed;
            self.pm(pool).uem = ue;
            if nh.over(11_500_000).ar()? {
                return Err("liq_too_large");
            }
            if nh.under(10_300_000).ar()? {
                return Err("liq_too_small");
            }
        }
        self.cache.clear();
        self.say(pool, format!("new_liquidation_auction @{user}"), show_auction(&a));
        self.ret = Ret::Auct(a.clone());
        self.pm(pool).auct.insert((user, 0), a);
        Ok(())
    }
    fn lp_base(&self, pool: Aid, osc: i128) -> R<(i128, i128)> {
        let (tokens, _, _, usdc) = pool_data(&self.s.back, pool)?;
        if tokens == 0 {
            return Err("no_deposits");
        }
        let v = mdf(mdf(usdc, osc, S7).ar()?.checked_mul(5).ar()?, S7, tokens).ar()?;
        if v == 0 {
            return Err("lp_worthless");
        }
        Ok((tokens, v))
    }
    fn new_bad(&mut self, pool: Aid) -> R<()> {
        let p = self.p(pool)?;
        let back = p.backstop;
        if p.auct.contains_key(&(back, 1)) {
            return Err("in_progress");
        }
        let osc = self.oscalar(pool)?;
        let list = self.p(pool)?.list.clone();
        let pos = self.p(pool)?.pos.get(&back).cloned().unwrap_or_default();
        let mut a = Auction { block: self.s.seq + 1, ..Default::default() };
        let mut val = 0i128;
        for (i, v) in &pos.liab {
            let t = list[*i as usize];
            let r = self.res(pool, t, false)?;
            let pr = self.price(pool, t)?;
            let dec = pow10(self.p(pool)?.cfg[&t].decimals).ar()?;
            val = val.checked_add(mdf(pr, mdc(*v, r.d_rate, S9).ar()?, dec).ar()?).ar()?;
            a.bid.insert(t, *v);
        }
        if a.bid.is_empty() || val == 0 {
            return Err("no_debt");
        }
        let (tokens, base) = self.lp_base(pool, osc)?;
        let lot = mdf(mdf(val, 14_000_000, S7).ar()?, S7, base).ar()?.min(tokens);
        a.lot.insert(self.s.back.token, lot);
        self.cache.clear();
        self.say(pool, "new_auction 1u32".into(), show_auction(&a));
        self.ret = Ret::Auct(a.clone());
        self.pm(pool).auct.insert((back, 1), a);
        Ok(())
    }
    fn new_int(&mut self, pool: Aid, assets: &[Aid]) -> R<()> {
        let p = self.p(pool)?;
        let back = p.backstop;
        if p.auct.contains_key(&(back, 2)) {
            return Err("in_progress");
        }
        let osc = self.oscalar(pool)?;
        let mut a = Auction { block: self.s.seq + 1, ..Default::default() };
        let mut val = 0i128;
        for t in assets {
            let r = self.res(pool, *t, false)?;
            // an asset listed twice has its credit only once
            if r.credit > 0 && !a.lot.contains_key(t) {
                let pr = self.price(pool, *t)?;
                let dec = pow10(self.p(pool)?.cfg[t].decimals).ar()?;
                val = val.checked_add(mdf(pr, r.credit, dec).ar()?).ar()?;
                a.lot.insert(*t, r.credit);
            }
        }
        if val <= 200 * osc {
            return Err("interest_small");
        }
        let (_, base) = self.lp_base(pool, osc)?;
        let bid = mdf(mdf(val, 14_000_000, S7).ar()?, S7, base).ar()?;
        a.bid.insert(self.s.back.token, bid);
        self.cache.clear();
        self.say(pool, "new_auction 2u32".into(), show_auction(&a));
        self.ret = Ret::Auct(a.clone());
        self.pm(pool).auct.insert((back, 2), a);
        Ok(())
    }
    fn bad_debt(&mut self, pool: Aid, user: Aid) -> R<()> {
        let p = self.p(pool)?;
        let back = p.backstop;
        if user == back {
            return Err("self");
        }
        let list = p.list.clone();
        let pos = p.pos.get(&user).cloned().unwrap_or_default();
        if !pos.coll.is_empty() {
            return Err("has_collateral");
        }
        if pos.liab.is_empty() {
            return Err("no_debt");
        }
        for (i, v) in &pos.liab {
            let t = list[*i as usize];
            self.chg(pool, back, Side::L, t, *v)?;
            self.chg(pool, user, Side::L, t, -*v)?;
            self.say(pool, format!("bad_debt @{user}"), format!("[@{t} {v}]"));
        }
        self.flush(pool);
        Ok(())
    }

    // ---------------------------------------------------------------- pool administration
    fn admin(&mut self, pool: Aid) -> R<()> {
        let a = self.p(pool)?.admin;
        self.auth(a);
        Ok(())
    }
    fn upd_status(&mut self, pool: Aid) -> R<()> {
        let st = self.p(pool)?.status;
        let (_, q, b, u) = pool_data(&self.s.back, pool)?;
        let met = threshold(b, u) >= S7;
        let n = match st {
            6 | 4 => return Err("status"),
            2 => if q >= 7_500_000 { 5 } else { 2 },
            0 => if !met || q >= 5_000_000 { 3 } else { 0 },
            _ => {
                if q >= 6_000_000 {
                    5
                } else if q >= 3_000_000 || !met {
                    3
                } else {
                    1
                }
            }
        };
        self.pm(pool).status = n;
        self.say(pool, "set_status".into(), format!("{n}u32"));
        self.ret = Ret::U(n);
        Ok(())
    }
    fn set_status(&mut self, pool: Aid, st: u32) -> R<()> {
        self.admin(pool)?;
        let (_, q, b, u) = pool_data(&self.s.back, pool)?;
        let ok = match st {
            0 => threshold(b, u) >= S7 && q < 5_000_000,
            2 | 3 => q < 7_500_000,
            4 => true,
            _ => return Err("status_value"),
        };
        if !ok {
            return Err("status");
        }
        self.pm(pool).status = st;
        let a = self.p(pool)?.admin;
        self.say(pool, format!("set_status @{a}"), format!("{st}u32"));
        Ok(())
    }
    fn queue_res(&mut self, pool: Aid, asset: Aid, cfg: &ResCfg) -> R<()> {
        self.admin(pool)?;
        let now = self.s.ts;
        let p = self.p(pool)?;
        if p.queued.contains_key(&asset) {
            return Err("queued");
        }
        if !valid_cfg(cfg) {
            return Err("metadata");
        }
        let unlock = if p.status == 6 { now } else { now + WEEK };
        self.pm(pool).queued.insert(asset, (cfg.clone(), unlock));
        let a = self.p(pool)?.admin;
        self.say(pool, format!("queue_set_reserve @{a}"), format!("[@{asset} {}]", show_cfg(cfg)));
        Ok(())
    }
    fn set_res(&mut self, pool: Aid, asset: Aid) -> R<()> {
        let now = self.s.ts;
        let (cfg, unlock) = self.p(pool)?.queued.get(&asset).cloned().ok_or("not_queued")?;
        if unlock > now {
            return Err("locked");
        }
        self.pm(pool).queued.remove(&asset);
        let mut cfg = cfg;
        if let Some(old) = self.p(pool)?.cfg.get(&asset).cloned() {
            let mut r = self.res(pool, asset, true)?;
            if old.decimals != cfg.decimals {
                return Err("decimals");
            }
            cfg.index = old.index;
            if (old.r_base, old.r_one, old.r_two, old.r_three, old.util)
                != (cfg.r_base, cfg.r_one, cfg.r_two, cfg.r_three, cfg.util)
            {
                r.ir_mod = S9;
            }
            self.put(asset, r);
            self.flush(pool);
        } else {
            let p = self.pm(pool);
            if p.list.len() >= 32 {
                return Err("list_full");
            }
            cfg.index = p.list.len() as u32;
            p.list.push(asset);
            p.data.insert(
                asset,
                ResData { d_rate: S9, b_rate: S9, ir_mod: S9, b_supply: 0, d_supply: 0, credit: 0, last_time: now },
            );
        }
        self.say(pool, "set_reserve".into(), format!("[@{asset} {}u32]", cfg.index));
        self.ret = Ret::U(cfg.index);
        self.pm(pool).cfg.insert(asset, cfg);
        Ok(())
    }
    fn set_emis(&mut self, pool: Aid, md: &[(u32, u32, u64)]) -> R<()> {
        self.admin(pool)?;
        let n = self.p(pool)?.list.len() as u32;
        let mut out = Map::new();
        let mut total = 0u64;
        for (i, ty, sh) in md {
            if *ty > 1 || *i >= n {
                return Err("emis_target");
            }
            out.insert(i * 2 + ty, *sh);
            total = total.checked_add(*sh).ar()?;
        }
        if total > 10_000_000 {
            return Err("emis_total");
        }
        self.pm(pool).eshare = out;
        Ok(())
    }
    fn pool_gulp(&mut self, pool: Aid) -> R<()> {
        let now = self.s.ts;
        self.p(pool)?;
        let new = self.gulp_pool(pool)?;
        if new < S7 {
            return Err("small");
        }
        let shares = self.p(pool)?.eshare.clone();
        for (id, sh) in shares {
            let asset = *self.p(pool)?.list.get((id / 2) as usize).ok_or("emis_target")?;
            let mut left = mdf(sh as i128, new, S7).ar()?;
            let p = self.pm(pool);
            if let Some(cfg) = p.ecfg.get(&id).copied() {
                let d = &p.data[&asset];
                let supply = if id % 2 == 0 { d.d_supply } else { d.b_supply };
                let scalar = pow10(p.cfg[&asset].decimals).ar()?;
                let data = *p.edata.get(&id).ok_or("no_emis_data")?;
                let nd = em_index(&cfg, &data, supply, scalar, now, true).ar()?;
                p.edata.insert(id, (nd.0, now));
                if cfg.0 > now {
                    left += cfg.1 as i128 * (cfg.0 - now) as i128;
                }
            } else {
                p.edata.insert(id, (0, now));
            }
            let eps = (left / WEEK as i128) as u64;
            p.ecfg.insert(id, (now + WEEK, eps));
            self.say(pool, "reserve_emission_update".into(), format!("[{id}u32 {eps}u64 {}u64]", now + WEEK));
        }
        self.say(pool, "update_emissions".into(), new.to_string());
        self.ret = Ret::I(new);
        Ok(())
    }
    fn pclaim(&mut self, pool: Aid, from: Aid, ids: &[u32], to: Aid) -> R<()> {
        self.auth(from);
        let mut total = 0i128;
        for id in ids {
            let p = self.p(pool)?;
            let i = id / 2;
            let asset = *p.list.get(i as usize).ok_or("emis_target")?;
            let d = p.data[&asset].clone();
            let scalar = pow10(p.cfg[&asset].decimals).ar()?;
            let pos = p.pos.get(&from).cloned().unwrap_or_default();
            let (bal, sup) = if id % 2 == 0 { (pos.l(i), d.d_supply) } else { (pos.b(i), d.b_supply) };
            total += self.em_touch(pool, *id, sup, scalar, from, bal, true)?;
        }
        if total > 0 {
            let (back, blnd) = (self.p(pool)?.backstop, self.p(pool)?.blnd);
            let al = self.s.allowance(blnd, back, pool);
            if al < total {
                return Err("allowance");
            }
            let until = self.s.allow[&(blnd, back, pool)].1;
            self.s.allow.insert((blnd, back, pool), (al - total, until));
            self.transfer(blnd, back, to, total)?;
        }
        let l: Vec<String> = ids.iter().map(|i| format!("{i}u32")).collect();
        self.say(pool, format!("claim @{from}"), format!("[[{}] {total}]", l.join(" ")));
        self.ret = Ret::I(total);
        Ok(())
    }

    // ---------------------------------------------------------------- backstop
    fn bp(&self, pool: Aid) -> BPool {
        self.s.back.pool.get(&pool).cloned().unwrap_or_default()
    }
    fn bu(&self, pool: Aid, u: Aid) -> BUser {
        self.s.back.user.get(&(pool, u)).cloned().unwrap_or_default()
    }
    fn b_em(&mut self, pool: Aid, user: Aid, claim: bool) -> R<i128> {
        let now = self.s.ts;
        let p = self.bp(pool);
        let bal = self.bu(pool, user).shares;
        let b = &mut self.s.back;
        let cfg = match b.ecfg.get(&pool) {
            Some(c) => *c,
            None => return Ok(0),
        };
        let data = *b.edata.get(&pool).ok_or("no_emis_data")?;
        let data = em_index(&cfg, &data, p.shares - p.q4w, S7, now, false).ar()?;
        b.edata.insert(pool, data);
        let (i, a) = em_user(b.uem.get(&(pool, user)), bal, S7, data.0).ar()?;
        b.uem.insert((pool, user), (i, if claim { 0 } else { a }));
        Ok(if claim { a } else { 0 })
    }
    fn deposit(&mut self, from: Aid, pool: Aid, amt: i128) -> R<()> {
        self.auth(from);
        if amt < 0 {
            return Err("neg");
        }
        if from == pool || from == self.c.back {
            return Err("self");
        }
        let mut p = self.bp(pool);
        if p.shares == 0 && !self.c.registered.contains(&pool) {
            return Err("not_pool");
        }
        self.b_em(pool, from, false)?;
        let tok = self.s.back.token;
        self.transfer(tok, from, self.c.back, amt)?;
        if p.shares > 0 && p.tokens == 0 {
            return Err("worthless");
        }
        let sh = to_shares(&p, amt).ar()?;
        if sh == 0 {
            return Err("zero");
        }
        p.tokens = p.tokens.checked_add(amt).ar()?;
        p.shares = p.shares.checked_add(sh).ar()?;
        let mut u = self.bu(pool, from);
        u.shares = u.shares.checked_add(sh).ar()?;
        self.s.back.pool.insert(pool, p);
        self.s.back.user.insert((pool, from), u);
        self.say(self.c.back, format!("deposit @{pool} @{from}"), format!("[{amt} {sh}]"));
        self.ret = Ret::I(sh);
        Ok(())
    }
    fn queue(&mut self, from: Aid, pool: Aid, amt: i128) -> R<()> {
        self.auth(from);
        if amt < 0 {
            return Err("neg");
        }
        self.b_em(pool, from, false)?;
        let (mut p, mut u) = (self.bp(pool), self.bu(pool, from));
        if u.shares < amt {
            return Err("shares");
        }
        if u.q.len() >= 21 {
            return Err("queue_full");
        }
        u.shares -= amt;
        let exp = self.s.ts + 21 * DAY;
        u.q.push((amt, exp));
        p.q4w += amt;
        self.s.back.pool.insert(pool, p);
        self.s.back.user.insert((pool, from), u);
        self.say(self.c.back, format!("queue_withdrawal @{pool} @{from}"), format!("[{amt} {exp}u64]"));
        self.ret = Ret::Q4w(amt, exp);
        Ok(())
    }
    fn unqueue(q: &mut Vec<(i128, u64)>, amt: i128, expired_by: Option<u64>) -> R<()> {
        let mut left = amt;
        // the front entry is examined even for a zero amount
        let mut i = 0;
        while i < q.len() {
            if let Some(now) = expired_by {
                if q[i].1 > now {
                    return Err("q4w_locked");
                }
            }
            if q[i].0 > left {
                q[i].0 -= left;
                left = 0;
                break;
            }
            left -= q[i].0;
            i += 1;
            if left == 0 {
                break;
            }
        }
        q.drain(..i);
        if left > 0 {
            return Err("shares");
        }
        Ok(())
    }
    fn dequeue(&mut self, from: Aid, pool: Aid, amt: i128) -> R<()> {
        self.auth(from);
        if amt < 0 {
            return Err("neg");
        }
        self.b_em(pool, from, false)?;
        let (mut p, mut u) = (self.bp(pool), self.bu(pool, from));
        Self::unqueue(&mut u.q, amt, None)?;
        u.shares += amt;
        if amt > p.q4w {
            return Err("shares");
        }
        p.q4w -= amt;
        self.s.back.pool.insert(pool, p);
        self.s.back.user.insert((pool, from), u);
        self.say(self.c.back, format!("dequeue_withdrawal @{pool} @{from}"), amt.to_string());
        Ok(())
    }
    fn withdraw(&mut self, from: Aid, pool: Aid, amt: i128) -> R<()> {
        self.auth(from);
        if amt < 0 {
            return Err("neg");
        }
        let (mut p, mut u) = (self.bp(pool), self.bu(pool, from));
        Self::unqueue(&mut u.q, amt, Some(self.s.ts))?;
        let out = to_tokens(&p, amt).ar()?;
        if out == 0 {
            return Err("zero");
        }
        if out > p.tokens || amt > p.shares || amt > p.q4w {
            return Err("shares");
        }
        p.tokens -= out;
        p.shares -= amt;
        p.q4w -= amt;
        self.s.back.pool.insert(pool, p);
        self.s.back.user.insert((pool, from), u);
        let tok = self.s.back.token;
        self.transfer(tok, self.c.back, from, out)?;
        self.say(self.c.back, format!("withdraw @{pool} @{from}"), format!("[{amt} {out}]"));
        self.ret = Ret::I(out);
        Ok(())
    }
    fn draw(&mut self, pool: Aid, amt: i128, to: Aid) -> R<()> {
        if amt < 0 {
            return Err("neg");
        }
        let mut p = self.bp(pool);
        if amt > p.tokens {
            return Err("backstop_funds");
        }
        p.tokens -= amt;
        self.s.back.pool.insert(pool, p);
        let tok = self.s.back.token;
        self.say(self.c.back, format!("draw @{pool}"), format!("[@{to} {amt}]"));
        self.transfer(tok, self.c.back, to, amt)
    }
    fn donate(&mut self, from: Aid, pool: Aid, amt: i128) -> R<()> {
        if amt < 0 {
            return Err("neg");
        }
        if from == pool || from == self.c.back {
            return Err("self");
        }
        let mut p = self.bp(pool);
        if p.shares == 0 && !self.c.registered.contains(&pool) {
            return Err("not_pool");
        }
        let tok = self.s.back.token;
        self.transfer(tok, from, self.c.back, amt)?;
        p.tokens = p.tokens.checked_add(amt).ar()?;
        self.s.back.pool.insert(pool, p);
        self.say(self.c.back, format!("donate @{pool} @{from}"), amt.to_string());
        Ok(())
    }
    fn b_gulp(&mut self) -> R<()> {
        let now = self.s.ts;
        let rz = self.s.back.rz.clone();
        if rz.is_empty() {
            return Err("no_zone");
        }
        let el = *self.s.emit.last.get(&self.c.back).ok_or("no_distro")?;
        let last = self.s.back.last_dist;
        if el <= last + 3600 {
            return Err("too_soon");
        }
        self.s.back.last_dist = el;
        let new = (el - last) as i128 * S7;
        let (tb, tp) = (mdf(new, 7_000_000, S7).ar()?, mdf(new, 3_000_000, S7).ar()?);
        let mut total = 0i128;
        let mut nq = vec![];
        for p in &rz {
            let b = self.bp(*p);
            let v = b.tokens - to_tokens(&b, b.q4w).ar()?;
            total = total.checked_add(v).ar()?;
            nq.push(v);
        }
        if total == 0 {
            return Err("all_queued");
        }
        for (p, v) in rz.iter().zip(nq) {
            let share = mdf(v, S7, total).ar()?;
            let np = mdf(share, tp, S7).ar()?;
            let nb = mdf(share, tb, S7).ar()?;
            *self.s.back.pemis.entry(*p).or_insert(0) += np;
            let b = self.bp(*p);
            let mut left = nb;
            if let Some(cfg) = self.s.back.ecfg.get(p).copied() {
                let data = *self.s.back.edata.get(p).ok_or("no_emis_data")?;
                let d = em_index(&cfg, &data, b.shares - b.q4w, S7, now, false).ar()?;
                self.s.back.edata.insert(*p, (d.0, now));
                if cfg.0 > now {
                    left += cfg.1 as i128 * (cfg.0 - now) as i128;
                }
            } else {
                self.s.back.edata.insert(*p, (0, now));
            }
            self.s.back.ecfg.insert(*p, (now + WEEK, (left / WEEK as i128) as u64));
        }
        self.say(self.c.back, "gulp_emissions".into(), new.to_string());
        Ok(())
    }
    fn gulp_pool(&mut self, pool: Aid) -> R<i128> {
        let amt = self.s.back.pemis.get(&pool).copied().unwrap_or(0);
        if amt == 0 {
            return Err("nothing");
        }
        let (blnd, back) = (self.s.back.blnd, self.c.back);
        let cur = self.s.allowance(blnd, back, pool);
        self.s.allow.insert((blnd, back, pool), (cur + amt, self.s.seq + 120 * 17280));
        self.s.back.pemis.insert(pool, 0);
        Ok(amt)
    }
    fn b_add(&mut self, add: Aid, rm: Aid) -> R<()> {
        let now = self.s.ts;
        let max = if now < 1_713_139_200 { 10 } else { 10 + ((now - 1_713_139_200) >> 23) };
        if self.s.back.rz.contains(&add) {
            return Err("in_zone");
        }
        let (tokens, _, b, u) = pool_data(&self.s.back, add)?;
        if !above_threshold(b, u) {
            return Err("threshold");
        }
        if max > self.s.back.rz.len() as u64 {
            self.s.back.rz.insert(0, add);
        } else {
            let i = self.s.back.rz.iter().position(|x| *x == rm).ok_or("not_in_zone")?;
            if self.s.back.last_dist < now - DAY {
                return Err("stale_distribution");
            }
            if tokens <= self.bp(rm).tokens {
                return Err("not_larger");
            }
            self.s.back.rz[i] = add;
        }
        self.say(self.c.back, "rw_zone".into(), format!("[@{add} @{rm}]"));
        Ok(())
    }
    fn bclaim(&mut self, from: Aid, pools: &[Aid], to: Aid) -> R<()> {
        self.auth(from);
        if pools.is_empty() {
            return Err("empty");
        }
        let mut total = 0i128;
        let mut per: Map<Aid, i128> = Map::new();
        for p in pools {
            let c = self.b_em(*p, from, true)?;
            total += c;
            *per.entry(*p).or_insert(0) += c;
        }
        if total > 0 {
            let back = self.c.back;
            let out = lp_out(&self.s, self.c, total).ar()?;
            let (blnd, lp) = (self.s.back.blnd, self.c.lp);
            let until = (self.s.seq / 100_000 + 1) * 100_000;
            self.transfer(blnd, back, lp, total)?;
            self.s.allow.insert((blnd, back, lp), (0, until));
            self.mint(lp, back, out)?;
            for (p, c) in per {
                let dep = mdf(out, c, total).ar()?;
                // the recipient's own emissions are settled on the shares held before these are added
                self.b_em(p, to, false)?;
                let mut b = self.bp(p);
                if b.shares > 0 && b.tokens == 0 {
                    return Err("worthless");
                }
                let sh = to_shares(&b, dep).ar()?;
                b.tokens += dep;
                b.shares += sh;
                let mut u = self.bu(p, to);
                u.shares += sh;
                self.s.back.pool.insert(p, b);
                self.s.back.user.insert((p, to), u);
                self.say(self.c.back, format!("deposit @{p} @{to}"), format!("[{dep} {sh}]"));
            }
        }
        self.say(self.c.back, format!("claim @{from}"), total.to_string());
        self.ret = Ret::I(total);
        Ok(())
    }
    fn upd_val(&mut self) -> R<()> {
        let lp = self.s.back.token;
        let supply: i128 = self.s.bal.iter().filter(|((t, _), _)| *t == lp).map(|(_, v)| *v).sum();
        let b = mdf(self.s.bal(self.c.blnd, lp), S7, supply).ar()?;
        let u = mdf(self.s.bal(self.c.usdc, lp), S7, supply).ar()?;
        self.s.back.lpval = Some((b, u));
        self.ret = Ret::Pair(b, u);
        Ok(())
    }

    // ---------------------------------------------------------------- emitter
    fn distribute(&mut self) -> R<i128> {
        let now = self.s.ts;
        let b = self.s.emit.backstop;
        let last = *self.s.emit.last.get(&b).ok_or("no_distro")?;
        let amt = (now - last) as i128 * S7;
        self.s.emit.last.insert(b, now);
        let t = self.s.emit.blnd;
        self.mint(t, b, amt)?;
        Ok(amt)
    }
    fn larger(&self, nb: Aid) -> bool {
        let t = self.s.emit.token;
        self.s.bal(t, nb) > self.s.bal(t, self.s.emit.backstop)
    }
    fn drop(&mut self, list: &[(Aid, i128)], invoker_is_backstop: bool) -> R<()> {
        let b = self.s.emit.backstop;
        if !invoker_is_backstop {
            self.auth(b);
        } else if b != self.c.back {
            return Err("auth");
        }
        if self.s.emit.dropped.get(&b).copied().unwrap_or(false) {
            return Err("dropped");
        }
        let mut sum = 0i128;
        for (_, a) in list {
            sum = sum.checked_add(*a).ar()?;
        }
        if sum > 50_000_000 * S7 {
            return Err("drop_size");
        }
        let t = self.s.emit.blnd;
        for (a, v) in list {
            self.mint(t, *a, *v)?;
        }
        self.s.emit.dropped.insert(b, true);
        let l: Vec<String> = list.iter().map(|(a, v)| format!("[@{a} {v}]")).collect();
        self.say(self.c.emit, "drop".into(), format!("[{}]", l.join(" ")));
        Ok(())
    }

    pub fn apply(&mut self, op: &Op) -> R<()> {
        match op {
            Op::Time { .. } | Op::Price { .. } => Ok(()),
            Op::Mint { token, to, amt } => self.mint(*token, *to, *amt),
            Op::Xfer { token, from, to, amt } => self.transfer(*token, *from, *to, *amt),
            Op::Submit { pool, from, spender, to, reqs } => self.submit(*pool, *from, *spender, *to, reqs),
            Op::BadDebt { pool, user } => self.bad_debt(*pool, *user),
            Op::UpdStatus { pool } => self.upd_status(*pool),
            Op::SetStatus { pool, st } => self.set_status(*pool, *st),
            Op::PoolGulp { pool } => self.pool_gulp(*pool),
            Op::SetEmis { pool, md } => self.set_emis(*pool, md),
            Op::PClaim { pool, from, ids, to } => self.pclaim(*pool, *from, ids, *to),
            Op::NewLiq { pool, user, pct } => self.new_liq(*pool, *user, *pct),
            Op::NewBad { pool } => self.new_bad(*pool),
            Op::NewInt { pool, assets } => self.new_int(*pool, assets),
            Op::SetAdmin { pool, new } => {
                self.admin(*pool)?;
                self.auth(*new);
                self.say(*pool, format!("set_admin @{}", self.p(*pool)?.admin), format!("@{new}"));
                self.pm(*pool).admin = *new;
                Ok(())
            }
            Op::UpdPool { pool, rate, maxpos } => {
                self.admin(*pool)?;
                if *rate >= 10_000_000 {
                    return Err("rate");
                }
                // interest earned so far is split at the old rate
                if self.p(*pool)?.bstop_rate != *rate {
                    for t in self.p(*pool)?.list.clone() {
                        self.res(*pool, t, true)?;
                    }
                    self.flush(*pool);
                }
                let p = self.pm(*pool);
                p.bstop_rate = *rate;
                p.max_positions = *maxpos;
                self.say(*pool, format!("update_pool @{}", self.p(*pool)?.admin), format!("[{rate}u32 {maxpos}u32]"));
                Ok(())
            }
            Op::QRes { pool, asset, cfg } => self.queue_res(*pool, *asset, cfg),
            Op::CRes { pool, asset } => {
                self.admin(*pool)?;
                self.pm(*pool).queued.remove(asset);
                self.say(*pool, format!("cancel_set_reserve @{}", self.p(*pool)?.admin), format!("@{asset}"));
                Ok(())
            }
            Op::SRes { pool, asset } => self.set_res(*pool, *asset),
            Op::PInit { pool, admin, rate, maxpos, oracle, backstop, blnd } => {
                self.auth(*admin);
                if self.s.pools.get(pool).map_or(false, |p| p.init) {
                    return Err("initialized");
                }
                if *rate >= 10_000_000 || *maxpos < 2 {
                    return Err("init_args");
                }
                let id = *pool;
                let p = self.s.pools.entry(id).or_default();
                p.id = id;
                p.init = true;
                p.admin = *admin;
                p.backstop = *backstop;
                p.blnd = *blnd;
                p.oracle = *oracle;
                p.bstop_rate = *rate;
                p.max_positions = *maxpos;
                p.status = 6;
                p.name = "String(ScString(StringM(p)))".into();
                Ok(())
            }
            Op::BDep { from, pool, amt } => self.deposit(*from, *pool, *amt),
            Op::BQ { from, pool, amt } => self.queue(*from, *pool, *amt),
            Op::BDeq { from, pool, amt } => self.dequeue(*from, *pool, *amt),
            Op::BWd { from, pool, amt } => self.withdraw(*from, *pool, *amt),
            Op::BGulp => self.b_gulp(),
            Op::BAdd { add, rm } => self.b_add(*add, *rm),
            Op::BGulpPool { pool } => {
                self.auth(*pool);
                let r = self.gulp_pool(*pool)?;
                self.ret = Ret::I(r);
                Ok(())
            }
            Op::BClaim { from, pools, to } => self.bclaim(*from, pools, *to),
            Op::BDrop => {
                let l = self.s.back.drop.clone().ok_or("drop_expired")?;
                self.drop(&l, true)
            }
            Op::BDraw { pool, amt, to } => {
                self.auth(*pool);
                self.draw(*pool, *amt, *to)
            }
            Op::BDonate { from, pool, amt } => {
                self.auth(*from);
                self.auth(*pool);
                self.donate(*from, *pool, *amt)
            }
            Op::BUpdVal => self.upd_val(),
            Op::BInit | Op::EInit => Err("initialized"),
            Op::EDist => {
                let r = self.distribute()?;
                self.say(self.c.emit, "distribute".into(), format!("[@{} {r}]", self.s.emit.backstop));
                self.ret = Ret::I(r);
                Ok(())
            }
            Op::EQSwap { nb, nt } => {
                if self.s.emit.swap.is_some() {
                    return Err("swap_exists");
                }
                if !self.larger(*nb) {
                    return Err("not_larger");
                }
                let x = (*nb, *nt, self.s.ts + 31 * DAY);
                self.s.emit.swap = Some(x);
                self.say(self.c.emit, "q_swap".into(), show_swap(x));
                Ok(())
            }
            Op::ECancel => {
                let x = self.s.emit.swap.ok_or("no_swap")?;
                let nb = x.0;
                if self.larger(nb) {
                    return Err("still_larger");
                }
                self.s.emit.swap = None;
                self.say(self.c.emit, "del_swap".into(), show_swap(x));
                Ok(())
            }
            Op::ESwap => {
                let (nb, nt, unlock) = self.s.emit.swap.ok_or("no_swap")?;
                if unlock > self.s.ts {
                    return Err("locked");
                }
                if !self.larger(nb) {
                    return Err("not_larger");
                }
                self.distribute()?;
                self.s.emit.swap = None;
                self.s.emit.backstop = nb;
                self.s.emit.token = nt;
                self.s.emit.last.insert(nb, self.s.ts);
                self.say(self.c.emit, "swap".into(), show_swap((nb, nt, unlock)));
                Ok(())
            }
            Op::EDrop { list } => self.drop(list, false),
            Op::View(v) => {
                self.ret = match v {
                    View::Pos(p, u) => Ret::Pos(self.s.pools.get(p).and_then(|p| p.pos.get(u)).cloned().unwrap_or_default()),
                    View::Auct(p, t, u) => {
                        Ret::Auct(self.s.pools.get(p).and_then(|p| p.auct.get(&(*u, *t))).cloned().ok_or("no_auction")?)
                    }
                    View::BUser(p, u) => Ret::BUser(self.bu(*p, *u)),
                    View::BPool(p) => {
                        let (t, q, b, u) = pool_data(&self.s.back, *p)?;
                        Ret::PoolData(t, q, b, u)
                    }
                    View::BToken => Ret::Addr(self.s.back.token),
                    View::Last(b) => Ret::U64(*self.s.emit.last.get(b).ok_or("no_distro")?),
                    View::Backstop => Ret::Addr(self.s.emit.backstop),
                    View::Swap => Ret::Swap(self.s.emit.swap),
                };
                Ok(())
            }
        }
    }
}
