//! Instrumentation: after every operation the complete host ledger is scanned; entries whose allocation changed
//! since the last scan are decoded from XDR into the plain-data `Snap`. Nothing is read through the contracts, so what
//! the monitors see does not depend on the code under test.
use crate::types::*;
use soroban_env_host::Host;
use soroban_sdk::xdr::{
    ContractDataDurability, ContractEventBody, ContractEventType, LedgerEntry, LedgerEntryData, LedgerKey, ScAddress, ScMap, ScVal,
};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Pool,
    Backstop,
    Emitter,
    Oracle,
    Token,
}

pub struct Change {
    pub contract: Aid,
    pub key: ScVal,
    pub temp: bool,
    pub removed: bool,
    /// ledgers left to live
    pub life: u32,
    /// there was no such record before
    pub fresh: bool,
}

/// the name of a record: its symbol, the first symbol of its composite key, or `instance`
pub fn record(key: &ScVal) -> String {
    match key {
        ScVal::LedgerKeyContractInstance => "instance".into(),
        ScVal::Vec(Some(v)) => v.first().and_then(sym).unwrap_or_default(),
        x => sym(x).unwrap_or_default(),
    }
}

type Row = (Rc<LedgerKey>, Option<(Rc<LedgerEntry>, Option<u32>)>);

pub struct Scanner {
    pub ids: HashMap<ScAddress, Aid>,
    pub addrs: Vec<ScAddress>,
    pub kinds: HashMap<Aid, Kind>,
    old: Vec<Row>,
    pub snap: Snap,
    pub entries_decoded: u64,
    pub scans: u64,
}

fn sym(v: &ScVal) -> Option<String> {
    match v {
        ScVal::Symbol(s) => Some(s.0.to_utf8_string_lossy()),
        _ => None,
    }
}
pub fn as_i128(v: &ScVal) -> Option<i128> {
    match v {
        ScVal::I128(p) => Some(((p.hi as i128) << 64) | p.lo as i128),
        _ => None,
    }
}
pub fn as_u64(v: &ScVal) -> Option<u64> {
    match v {
        ScVal::U64(x) => Some(*x),
        _ => None,
    }
}
pub fn as_u32(v: &ScVal) -> Option<u32> {
    match v {
        ScVal::U32(x) => Some(*x),
        _ => None,
    }
}
fn as_map(v: &ScVal) -> Option<&ScMap> {
    match v {
        ScVal::Map(Some(m)) => Some(m),
        _ => None,
    }
}
fn as_vec(v: &ScVal) -> Option<&[ScVal]> {
    match v {
        ScVal::Vec(Some(x)) => Some(x.0.as_slice()),
        _ => None,
    }
}
pub fn field<'a>(v: &'a ScVal, name: &str) -> Option<&'a ScVal> {
    as_map(v)?
        .iter()
        .find(|e| sym(&e.key).as_deref() == Some(name))
        .map(|e| &e.val)
}
fn fi(v: &ScVal, n: &str) -> Option<i128> {
    as_i128(field(v, n)?)
}
fn fu(v: &ScVal, n: &str) -> Option<u32> {
    as_u32(field(v, n)?)
}
fn fl(v: &ScVal, n: &str) -> Option<u64> {
    as_u64(field(v, n)?)
}

impl Scanner {
    pub fn new() -> Self {
        Scanner {
            ids: HashMap::new(),
            addrs: vec![],
            kinds: HashMap::new(),
            old: vec![],
            snap: Snap::default(),
            entries_decoded: 0,
            scans: 0,
        }
    }
    pub fn id(&mut self, a: &ScAddress) -> Aid {
        if let Some(i) = self.ids.get(a) {
            return *i;
        }
        let i = self.addrs.len();
        self.addrs.push(a.clone());
        self.ids.insert(a.clone(), i);
        i
    }
    fn aid(&mut self, v: &ScVal) -> Option<Aid> {
        match v {
            ScVal::Address(a) => Some(self.id(a)),
            _ => None,
        }
    }

    /// a value in plain text, addresses by their number, maps in the order of their text
    pub fn show(&mut self, v: &ScVal) -> String {
        match v {
            ScVal::U32(x) => format!("{x}u32"),
            ScVal::U64(x) => format!("{x}u64"),
            ScVal::I128(_) => as_i128(v).unwrap().to_string(),
            ScVal::Symbol(s) => s.0.to_utf8_string_lossy(),
            ScVal::Address(a) => format!("@{}", self.id(a)),
            ScVal::Void => "()".into(),
            ScVal::Vec(Some(x)) => format!("[{}]", x.iter().map(|y| self.show(y)).collect::<Vec<_>>().join(" ")),
            ScVal::Map(Some(m)) => {
                let mut l: Vec<String> = m.iter().map(|e| format!("{}:{}", self.show(&e.key), self.show(&e.val))).collect();
                l.sort();
                format!("{{{}}}", l.join(" "))
            }
            x => format!("{x:?}"),
        }
    }
    /// what the contracts under test published, in order, beyond the first `from` events; and how many there are now
    pub fn events(&mut self, host: &Host, from: usize) -> (Vec<String>, usize) {
        let all = host.get_events().unwrap().0;
        let n = all.len();
        let mut out = vec![];
        for e in all.into_iter().skip(from) {
            if e.failed_call || e.event.type_ != ContractEventType::Contract {
                continue;
            }
            let Some(id) = e.event.contract_id else { continue };
            let id = self.id(&ScAddress::Contract(id));
            if !matches!(self.kinds.get(&id), Some(Kind::Pool | Kind::Backstop | Kind::Emitter)) {
                continue;
            }
            let ContractEventBody::V0(b) = &e.event.body;
            let t: Vec<String> = b.topics.iter().map(|x| self.show(x)).collect();
            out.push(format!("{id} {} = {}", t.join(" "), self.show(&b.data)));
        }
        (out, n)
    }

    /// ledgers the record of a contract's code and settings has left
    pub fn instance_life(&self, c: Aid) -> Option<u32> {
        let a = &self.addrs[c];
        self.old.iter().find_map(|r| match (&*r.0, &r.1) {
            (LedgerKey::ContractData(d), Some((_, Some(l)))) if d.contract == *a && d.key == ScVal::LedgerKeyContractInstance => {
                Some(l.saturating_sub(self.snap.seq))
            }
            _ => None,
        })
    }
    /// every record of the contracts under test: whose, its name, ledgers left
    pub fn lives(&self) -> Vec<(Kind, String, u32)> {
        let mut out = vec![];
        for (k, v) in &self.old {
            if let (LedgerKey::ContractData(d), Some((_, Some(l)))) = (&**k, v) {
                if let Some(k @ (Kind::Pool | Kind::Backstop | Kind::Emitter)) = self.ids.get(&d.contract).and_then(|i| self.kinds.get(i)) {
                    out.push((*k, record(&d.key), l.saturating_sub(self.snap.seq)));
                }
            }
        }
        out
    }
    /// Somebody pays the rent of every permanent record, so that none is archived before `until`.
    pub fn pay_rent(&mut self, host: &Host, until: u32) {
        for (k, v) in &self.old {
            let kept = match &**k {
                LedgerKey::ContractData(d) => d.durability == ContractDataDurability::Persistent,
                LedgerKey::ContractCode(_) => true,
                _ => false,
            };
            match v {
                Some((e, Some(l))) if kept && *l < until => host.add_ledger_entry(k, e, Some(until)).unwrap(),
                _ => {}
            }
        }
    }

    pub fn scan(&mut self, host: &Host) -> Vec<Change> {
        self.scans += 1;
        let budget = host.budget_cloned();
        let mut new: Vec<Row> = Vec::with_capacity(self.old.len() + 8);
        host.with_mut_storage(|s| {
            for (k, v) in s.map.iter(&budget)? {
                new.push((k.clone(), v.clone()));
            }
            Ok(())
        })
        .unwrap();
        let (seq, ts) = host
            .with_ledger_info(|li| Ok((li.sequence_number, li.timestamp)))
            .unwrap();
        self.snap.seq = seq;
        self.snap.ts = ts;
        let old = std::mem::take(&mut self.old);
        let mut changes = vec![];
        let mut i = 0;
        for row in new.iter() {
            // the map only ever grows (a deletion leaves a tombstone), and both sides are sorted
            let mut before: Option<&Row> = None;
            if i < old.len() && (Rc::ptr_eq(&old[i].0, &row.0) || old[i].0 == row.0) {
                before = Some(&old[i]);
                i += 1;
            }
            let same = match (before.map(|b| &b.1), &row.1) {
                (Some(Some(a)), Some(b)) => Rc::ptr_eq(&a.0, &b.0) && a.1 == b.1,
                (Some(None), None) => true,
                (None, None) => true,
                _ => false,
            };
            if same {
                continue;
            }
            if let LedgerKey::ContractData(cd) = &*row.0 {
                let c = self.id(&cd.contract);
                let temp = cd.durability == ContractDataDurability::Temporary;
                let life = match &row.1 {
                    Some((_, Some(l))) => l.saturating_sub(seq),
                    _ => 0,
                };
                let val = match &row.1 {
                    Some((e, _)) => match &e.data {
                        LedgerEntryData::ContractData(d) => Some(d.val.clone()),
                        _ => None,
                    },
                    None => None,
                };
                self.entries_decoded += 1;
                self.apply(c, &cd.key, val.as_ref());
                changes.push(Change {
                    contract: c,
                    key: cd.key.clone(),
                    temp,
                    removed: val.is_none(),
                    life,
                    fresh: !matches!(before, Some((_, Some(_)))),
                });
            }
        }
        assert_eq!(i, old.len(), "ledger map shrank");
        self.old = new;
        changes
    }

    fn apply(&mut self, c: Aid, key: &ScVal, val: Option<&ScVal>) {
        let ok = match self.kinds.get(&c) {
            Some(Kind::Pool) => self.apply_pool(c, key, val),
            Some(Kind::Backstop) => self.apply_back(c, key, val),
            Some(Kind::Emitter) => self.apply_emit(c, key, val),
            Some(Kind::Oracle) => self.apply_oracle(c, key, val),
            Some(Kind::Token) => {
                self.apply_token(c, key, val);
                Some(())
            }
            None => Some(()),
        };
        if ok.is_none() {
            self.snap
                .unknown
                .insert(format!("{c}:{key:?}"), format!("{val:?}"));
        }
    }

    fn rescfg(v: &ScVal) -> Option<ResCfg> {
        Some(ResCfg {
            index: fu(v, "index")?,
            decimals: fu(v, "decimals")?,
            c_factor: fu(v, "c_factor")?,
            l_factor: fu(v, "l_factor")?,
            util: fu(v, "util")?,
            max_util: fu(v, "max_util")?,
            r_base: fu(v, "r_base")?,
            r_one: fu(v, "r_one")?,
            r_two: fu(v, "r_two")?,
            r_three: fu(v, "r_three")?,
            reactivity: fu(v, "reactivity")?,
        })
    }
    fn u32map(v: &ScVal) -> Option<Map<u32, i128>> {
        let mut m = Map::new();
        for e in as_map(v)?.iter() {
            m.insert(as_u32(&e.key)?, as_i128(&e.val)?);
        }
        Some(m)
    }
    pub fn pos(v: &ScVal) -> Option<Pos> {
        Some(Pos {
            liab: Self::u32map(field(v, "liabilities")?)?,
            coll: Self::u32map(field(v, "collateral")?)?,
            supp: Self::u32map(field(v, "supply")?)?,
        })
    }
    fn amap(&mut self, v: &ScVal) -> Option<Map<Aid, i128>> {
        let mut m = Map::new();
        for e in as_map(v)?.iter() {
            m.insert(self.aid(&e.key)?, as_i128(&e.val)?);
        }
        Some(m)
    }
    pub fn auction(&mut self, v: &ScVal) -> Option<Auction> {
        Some(Auction {
            bid: self.amap(field(v, "bid")?)?,
            lot: self.amap(field(v, "lot")?)?,
            block: fu(v, "block")?,
        })
    }

    fn apply_pool(&mut self, c: Aid, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        let mut p = self.snap.pools.remove(&c).unwrap_or_default();
        p.id = c;
        let r = self.apply_pool_inner(&mut p, key, val);
        self.snap.pools.insert(c, p);
        r
    }
    fn apply_pool_inner(&mut self, p: &mut PoolS, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        match key {
            ScVal::LedgerKeyContractInstance => {
                p.init = false;
                let inst = match val {
                    Some(ScVal::ContractInstance(i)) => i,
                    _ => return None,
                };
                if let Some(m) = &inst.storage {
                    for e in m.iter() {
                        match sym(&e.key)?.as_str() {
                            "IsInit" => p.init = true,
                            "Admin" => p.admin = self.aid(&e.val)?,
                            "Name" => p.name = format!("{:?}", e.val),
                            "Backstop" => p.backstop = self.aid(&e.val)?,
                            "BLNDTkn" => p.blnd = self.aid(&e.val)?,
                            "Config" => {
                                p.oracle = self.aid(field(&e.val, "oracle")?)?;
                                p.bstop_rate = fu(&e.val, "bstop_rate")?;
                                p.status = fu(&e.val, "status")?;
                                p.max_positions = fu(&e.val, "max_positions")?;
                            }
                            _ => return None,
                        }
                    }
                }
                Some(())
            }
            ScVal::Symbol(_) => match sym(key)?.as_str() {
                "ResList" => {
                    p.list.clear();
                    if let Some(v) = val {
                        for a in as_vec(v)? {
                            let id = self.aid(a)?;
                            p.list.push(id);
                        }
                    }
                    Some(())
                }
                "PoolEmis" => {
                    p.eshare.clear();
                    if let Some(v) = val {
                        for e in as_map(v)?.iter() {
                            p.eshare.insert(as_u32(&e.key)?, as_u64(&e.val)?);
                        }
                    }
                    Some(())
                }
                _ => None,
            },
            ScVal::Vec(_) => {
                let k = as_vec(key)?;
                let arg = k.get(1)?;
                match sym(&k[0])?.as_str() {
                    "ResConfig" => {
                        let a = self.aid(arg)?;
                        match val {
                            Some(v) => p.cfg.insert(a, Self::rescfg(v)?),
                            None => p.cfg.remove(&a),
                        };
                    }
                    "ResInit" => {
                        let a = self.aid(arg)?;
                        match val {
                            Some(v) => p.queued.insert(
                                a,
                                (Self::rescfg(field(v, "new_config")?)?, fl(v, "unlock_time")?),
                            ),
                            None => p.queued.remove(&a),
                        };
                    }
                    "ResData" => {
                        let a = self.aid(arg)?;
                        match val {
                            Some(v) => p.data.insert(
                                a,
                                ResData {
                                    d_rate: fi(v, "d_rate")?,
                                    b_rate: fi(v, "b_rate")?,
                                    ir_mod: fi(v, "ir_mod")?,
                                    b_supply: fi(v, "b_supply")?,
                                    d_supply: fi(v, "d_supply")?,
                                    credit: fi(v, "backstop_credit")?,
                                    last_time: fl(v, "last_time")?,
                                },
                            ),
                            None => p.data.remove(&a),
                        };
                    }
                    "EmisConfig" => {
                        let a = as_u32(arg)?;
                        match val {
                            Some(v) => p.ecfg.insert(a, (fl(v, "expiration")?, fl(v, "eps")?)),
                            None => p.ecfg.remove(&a),
                        };
                    }
                    "EmisData" => {
                        let a = as_u32(arg)?;
                        match val {
                            Some(v) => p.edata.insert(a, (fi(v, "index")?, fl(v, "last_time")?)),
                            None => p.edata.remove(&a),
                        };
                    }
                    "Positions" => {
                        let a = self.aid(arg)?;
                        match val {
                            Some(v) => p.pos.insert(a, Self::pos(v)?),
                            None => p.pos.remove(&a),
                        };
                    }
                    "UserEmis" => {
                        let u = self.aid(field(arg, "user")?)?;
                        let r = fu(arg, "reserve_id")?;
                        match val {
                            Some(v) => p.uem.insert((u, r), (fi(v, "index")?, fi(v, "accrued")?)),
                            None => p.uem.remove(&(u, r)),
                        };
                    }
                    "Auction" => {
                        let u = self.aid(field(arg, "user")?)?;
                        let t = fu(arg, "auct_type")?;
                        match val {
                            Some(v) => {
                                let a = self.auction(v)?;
                                p.auct.insert((u, t), a)
                            }
                            None => p.auct.remove(&(u, t)),
                        };
                    }
                    _ => return None,
                }
                Some(())
            }
            _ => Some(()),
        }
    }

    fn apply_back(&mut self, c: Aid, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        let mut b = std::mem::take(&mut self.snap.back);
        b.id = c;
        let r = self.apply_back_inner(&mut b, key, val);
        self.snap.back = b;
        r
    }
    fn apply_back_inner(&mut self, b: &mut BackS, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        match key {
            ScVal::LedgerKeyContractInstance => {
                let inst = match val {
                    Some(ScVal::ContractInstance(i)) => i,
                    _ => return None,
                };
                b.init = false;
                if let Some(m) = &inst.storage {
                    for e in m.iter() {
                        match sym(&e.key)?.as_str() {
                            "IsInit" => b.init = true,
                            "Emitter" => b.emitter = self.aid(&e.val)?,
                            "BToken" => b.token = self.aid(&e.val)?,
                            "PoolFact" => b.factory = self.aid(&e.val)?,
                            "BLNDTkn" => b.blnd = self.aid(&e.val)?,
                            "USDCTkn" => b.usdc = self.aid(&e.val)?,
                            _ => return None,
                        }
                    }
                }
                Some(())
            }
            ScVal::Symbol(_) => {
                match sym(key)?.as_str() {
                    "LastDist" => b.last_dist = val.and_then(as_u64).unwrap_or(0),
                    "RZ" => {
                        b.rz.clear();
                        if let Some(v) = val {
                            for a in as_vec(v)? {
                                let id = self.aid(a)?;
                                b.rz.push(id);
                            }
                        }
                    }
                    "DropList" => {
                        b.drop = match val {
                            Some(v) => {
                                let mut l = vec![];
                                for e in as_vec(v)? {
                                    let t = as_vec(e)?;
                                    l.push((self.aid(&t[0])?, as_i128(&t[1])?));
                                }
                                Some(l)
                            }
                            None => None,
                        }
                    }
                    "LPTknVal" => {
                        b.lpval = match val {
                            Some(v) => {
                                let t = as_vec(v)?;
                                Some((as_i128(&t[0])?, as_i128(&t[1])?))
                            }
                            None => None,
                        }
                    }
                    _ => return None,
                }
                Some(())
            }
            ScVal::Vec(_) => {
                let k = as_vec(key)?;
                let arg = k.get(1)?;
                match sym(&k[0])?.as_str() {
                    "UserBalance" => {
                        let pu = (self.aid(field(arg, "pool")?)?, self.aid(field(arg, "user")?)?);
                        match val {
                            Some(v) => {
                                let mut q = vec![];
                                for e in as_vec(field(v, "q4w")?)? {
                                    q.push((fi(e, "amount")?, fl(e, "exp")?));
                                }
                                b.user.insert(pu, BUser { shares: fi(v, "shares")?, q })
                            }
                            None => b.user.remove(&pu),
                        };
                    }
                    "PoolBalance" => {
                        let p = self.aid(arg)?;
                        match val {
                            Some(v) => b.pool.insert(
                                p,
                                BPool {
                                    shares: fi(v, "shares")?,
                                    tokens: fi(v, "tokens")?,
                                    q4w: fi(v, "q4w")?,
                                },
                            ),
                            None => b.pool.remove(&p),
                        };
                    }
                    "PoolEmis" => {
                        let p = self.aid(arg)?;
                        match val {
                            Some(v) => b.pemis.insert(p, as_i128(v)?),
                            None => b.pemis.remove(&p),
                        };
                    }
                    "BEmisCfg" => {
                        let p = self.aid(arg)?;
                        match val {
                            Some(v) => b.ecfg.insert(p, (fl(v, "expiration")?, fl(v, "eps")?)),
                            None => b.ecfg.remove(&p),
                        };
                    }
                    "BEmisData" => {
                        let p = self.aid(arg)?;
                        match val {
                            Some(v) => b.edata.insert(p, (fi(v, "index")?, fl(v, "last_time")?)),
                            None => b.edata.remove(&p),
                        };
                    }
                    "UEmisData" => {
                        let pu = (self.aid(field(arg, "pool")?)?, self.aid(field(arg, "user")?)?);
                        match val {
                            Some(v) => b.uem.insert(pu, (fi(v, "index")?, fi(v, "accrued")?)),
                            None => b.uem.remove(&pu),
                        };
                    }
                    _ => return None,
                }
                Some(())
            }
            _ => Some(()),
        }
    }

    fn apply_emit(&mut self, c: Aid, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        let mut b = std::mem::take(&mut self.snap.emit);
        b.id = c;
        let r = self.apply_emit_inner(&mut b, key, val);
        self.snap.emit = b;
        r
    }
    fn apply_emit_inner(&mut self, b: &mut EmitS, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        match key {
            ScVal::LedgerKeyContractInstance => {
                let inst = match val {
                    Some(ScVal::ContractInstance(i)) => i,
                    _ => return None,
                };
                b.init = false;
                if let Some(m) = &inst.storage {
                    for e in m.iter() {
                        match sym(&e.key)?.as_str() {
                            "IsInit" => b.init = true,
                            "Backstop" => b.backstop = self.aid(&e.val)?,
                            "BToken" => b.token = self.aid(&e.val)?,
                            "BLNDTkn" => b.blnd = self.aid(&e.val)?,
                            _ => return None,
                        }
                    }
                }
                Some(())
            }
            ScVal::Symbol(_) => {
                if sym(key)? != "Swap" {
                    return None;
                }
                b.swap = match val {
                    Some(v) => Some((
                        self.aid(field(v, "new_backstop")?)?,
                        self.aid(field(v, "new_backstop_token")?)?,
                        fl(v, "unlock_time")?,
                    )),
                    None => None,
                };
                Some(())
            }
            ScVal::Vec(_) => {
                let k = as_vec(key)?;
                let a = self.aid(k.get(1)?)?;
                match sym(&k[0])?.as_str() {
                    "LastDistro" => {
                        match val {
                            Some(v) => b.last.insert(a, as_u64(v)?),
                            None => b.last.remove(&a),
                        };
                    }
                    "Dropped" => {
                        match val {
                            Some(ScVal::Bool(x)) => b.dropped.insert(a, *x),
                            _ => b.dropped.remove(&a),
                        };
                    }
                    _ => return None,
                }
                Some(())
            }
            _ => Some(()),
        }
    }

    fn apply_oracle(&mut self, c: Aid, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        match key {
            ScVal::Symbol(_) => {
                let o = self.snap.oracle.entry(c).or_default();
                o.decimals = val.and_then(as_u32)?;
                Some(())
            }
            ScVal::Address(_) => {
                let a = self.aid(key)?;
                let v = match val {
                    Some(v) => {
                        let t = as_vec(v)?;
                        Some((as_i128(&t[0])?, as_u64(&t[1])?))
                    }
                    None => None,
                };
                let o = self.snap.oracle.entry(c).or_default();
                match v {
                    Some(v) => o.price.insert(a, v),
                    None => o.price.remove(&a),
                };
                Some(())
            }
            _ => Some(()),
        }
    }

    fn apply_token(&mut self, c: Aid, key: &ScVal, val: Option<&ScVal>) -> Option<()> {
        let k = as_vec(key)?;
        match sym(&k[0])?.as_str() {
            "Balance" => {
                let h = self.aid(k.get(1)?)?;
                let amt = match val {
                    Some(v) => as_i128(v).or_else(|| fi(v, "amount"))?,
                    None => 0,
                };
                self.snap.bal.insert((c, h), amt);
            }
            "Allowance" => {
                let a = k.get(1)?;
                let f = self.aid(field(a, "from")?)?;
                let s = self.aid(field(a, "spender")?)?;
                match val {
                    Some(v) => {
                        let until = fu(v, "live_until_ledger").or_else(|| fu(v, "expiration_ledger"))?;
                        self.snap.allow.insert((c, f, s), (fi(v, "amount")?, until))
                    }
                    None => self.snap.allow.remove(&(c, f, s)),
                };
            }
            _ => {}
        }
        Some(())
    }

    /// After a jump in time, do to the ledger what the network does: expired temporary entries are gone, and
    /// persistent ones are kept alive (archived entries can be restored, so archival is not a loss of state),
    /// unless `pay_rent` has seen to that.
    pub fn age(&self, host: &Host, seq: u32, keep: bool) {
        let budget = host.budget_cloned();
        host.with_mut_storage(|s| {
            let rows: Vec<Row> = s.map.iter(&budget)?.map(|(k, v)| (k.clone(), v.clone())).collect();
            for (k, v) in rows {
                if let (LedgerKey::ContractData(cd), Some((e, Some(live)))) = (&*k, &v) {
                    if cd.durability == ContractDataDurability::Temporary {
                        if *live < seq {
                            s.del(&k, &budget)?;
                        }
                    } else if keep && *live < seq + 2_000_000 {
                        s.put(&k, e, Some(seq + 4_000_000), &budget)?;
                    }
                } else if let (LedgerKey::ContractCode(_), Some((e, Some(live)))) = (&*k, &v) {
                    if keep && *live < seq + 2_000_000 {
                        s.put(&k, e, Some(seq + 4_000_000), &budget)?;
                    }
                }
            }
            Ok(())
        })
        .unwrap();
    }
}
