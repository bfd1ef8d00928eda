//! Runs of the real pool factory, which deploys the pool's wasm as built from the current tree: who may deploy, what a
//! deployed pool is set to, which addresses a factory vouches for, and what the backstop accepts on its word.
use crate::ledger::*;
use crate::monitors::{need_days, Cov, Prop, DAY_LEDGERS};
use crate::rng::Rng;
use crate::types::*;
use soroban_sdk::testutils::{Address as _, AuthorizedFunction, EnvTestConfig, Ledger, LedgerInfo, MockAuth, MockAuthInvoke};
use soroban_sdk::xdr::{AccountId, ContractEventBody, ContractEventType, Hash, PublicKey, ScAddress, ScVal, Uint256};
use soroban_sdk::{Address, BytesN, Env, Error, IntoVal, String as SString, Symbol, TryFromVal, Val, Vec as SVec};
use std::collections::{BTreeMap, BTreeSet};

pub struct Bad {
    pub prop: Prop,
    pub step: usize,
    pub op: String,
    pub what: String,
}

pub struct Out {
    pub cov: Cov,
    pub bad: Vec<Bad>,
    pub log: Vec<String>,
    pub decoded: u64,
}

struct Deployed {
    factory: usize,
    admin: Address,
    id: Address,
    aid: Aid,
}

struct F {
    e: Env,
    sc: Scanner,
    /// factories: address, and the (backstop, BLND) they were given, if they were initialised
    fac: Vec<(Address, Option<(Address, Address)>)>,
    used: BTreeMap<(usize, usize, u64), Address>,
    pools: Vec<Deployed>,
    strangers: Vec<Address>,
    people: Vec<Address>,
    back: Address,
    out: Out,
    step: usize,
    now: String,
    /// the property the run is for
    prop: Prop,
    ev_seen: usize,
}

impl F {
    fn aid(&mut self, a: &Address) -> Aid {
        self.sc.id(&ScAddress::try_from(a).unwrap())
    }
    fn scan(&mut self) -> Vec<Change> {
        let h = self.e.host().clone();
        self.sc.scan(&h)
    }
    fn bad(&mut self, what: String) {
        self.bad_for("C26", what);
    }
    fn bad_for(&mut self, prop: Prop, what: String) {
        self.out.bad.push(Bad { prop, step: self.step, op: self.now.clone(), what });
    }
    /// what the contract published since the last look: topics and data
    fn published(&mut self, by: &Address) -> Vec<String> {
        let all = self.e.host().get_events().unwrap().0;
        let from = std::mem::replace(&mut self.ev_seen, all.len());
        let by = ScAddress::try_from(by).unwrap();
        let mut out = vec![];
        for x in all.into_iter().skip(from) {
            let mine = x.event.contract_id.clone().map(ScAddress::Contract) == Some(by.clone());
            if x.failed_call || x.event.type_ != ContractEventType::Contract || !mine {
                continue;
            }
            let ContractEventBody::V0(b) = &x.event.body;
            let t: Vec<String> = b.topics.iter().map(|y| self.sc.show(y)).collect();
            out.push(format!("{} = {}", t.join(" "), self.sc.show(&b.data)));
        }
        out
    }
    /// C29, for the factory and what it deployed
    fn lives(&mut self, fa: &Address, changes: &[Change]) {
        let fi = self.aid(fa);
        if self.sc.instance_life(fi).map_or(false, |l| l < 30 * DAY_LEDGERS) {
            self.bad_for("C29", "the factory has less than 30 days to live after the call".into());
        }
        for c in changes.iter().filter(|c| !c.removed) {
            let name = record(&c.key);
            let days = match self.sc.kinds.get(&c.contract) {
                Some(k) => match (k, name.as_str()) {
                    (Kind::Pool, "instance") => 30,
                    _ => need_days(*k, &name, c.fresh).unwrap_or(0),
                },
                None if c.contract == fi && name == "Contracts" => 100,
                None => 0,
            };
            if c.life < days * DAY_LEDGERS {
                self.bad_for("C29", format!("record {name} has {} ledgers to live, must have {days} days", c.life));
            }
        }
    }
    fn seen(&mut self, kind: &str, outcome: &str, extra: u64) {
        if self.prop != "C26" && !(outcome == "ok" && (kind == "deploy" || kind == "is_pool" && self.prop == "C29")) {
            return;
        }
        let label = format!("{kind}:{outcome}");
        let c = self.out.cov.per.entry(self.prop).or_default();
        c.judged += 1;
        *c.outcomes.entry(label.clone()).or_insert(0) += 1;
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in label.bytes().chain(extra.to_le_bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        c.distinct.insert(h);
        self.out.cov.ops += 1;
        if outcome == "ok" {
            self.out.cov.ok += 1;
        } else {
            self.out.cov.refused += 1;
        }
    }
    fn call(&mut self, c: &Address, f: &str, args: SVec<Val>) -> Option<Val> {
        match self.e.try_invoke_contract::<Val, Error>(c, &Symbol::new(&self.e, f), args) {
            Ok(Ok(v)) => Some(v),
            _ => None,
        }
    }
    fn set_time(&self, ts: u64, seq: u32) {
        self.e.ledger().set(LedgerInfo {
            timestamp: ts,
            protocol_version: 20,
            sequence_number: seq,
            network_id: Default::default(),
            base_reserve: 10,
            min_temp_entry_ttl: 16,
            min_persistent_entry_ttl: if self.prop == "C29" { 17_280 } else { 4_000_000 },
            max_entry_ttl: 9_000_000,
        });
    }
    /// everybody a call asked to sign, with contract and function
    fn asked(&self) -> Vec<(Address, Address, String, Vec<ScVal>)> {
        let mut v = vec![];
        for (who, inv) in self.e.auths() {
            if let AuthorizedFunction::Contract((c, f, a)) = inv.function {
                let f = match ScVal::try_from_val(&self.e, &f.to_val()) {
                    Ok(ScVal::Symbol(s)) => s.0.to_utf8_string_lossy(),
                    _ => String::new(),
                };
                v.push((who, c, f, a.iter().map(|x| ScVal::try_from_val(&self.e, &x).unwrap()).collect()));
            }
        }
        v
    }
    /// a change to a record of the protocol's, outside the contracts named (accounts that sign get records too)
    fn watched(&mut self, changes: &[Change], but: &[Aid]) -> Option<String> {
        let people: Vec<Address> = self.people.clone();
        let mut skip: Vec<Aid> = people.iter().map(|p| self.aid(p)).collect();
        skip.extend_from_slice(but);
        changes
            .iter()
            .find(|c| !skip.contains(&c.contract) && !matches!(c.key, ScVal::LedgerKeyNonce(_)))
            .map(|c| format!("{:?}", c.key))
    }
    fn sv(&self, args: &SVec<Val>) -> Vec<ScVal> {
        args.iter().map(|x| ScVal::try_from_val(&self.e, &x).unwrap()).collect()
    }

    fn deploy(&mut self, rng: &mut Rng) {
        let e = self.e.clone();
        let f = rng.below(self.fac.len() as u64) as usize;
        let mut a = rng.below(self.people.len() as u64) as usize;
        let mut admin = self.people[a].clone();
        // a contract, even a pool this factory made, signs like anyone else
        if !self.pools.is_empty() && rng.chance(1, 8) {
            let i = rng.below(self.pools.len() as u64) as usize;
            a = 100 + i;
            admin = self.pools[i].id.clone();
        }
        // few salts, so that they collide, also between deployers and factories
        let salt = rng.below(5);
        let mut sb = [0u8; 32];
        sb[rng.below(2) as usize * 31] = salt as u8;
        let skey = salt * 2 + (sb[31] != 0) as u64;
        let name: String = (0..rng.below(20)).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
        let oracle = rng.pick(&self.strangers).clone();
        let rate: u32 = match rng.below(8) {
            0 => 1_000_0000,
            1 => 1_000_0001,
            2 => 999_9999,
            3 => u32::MAX - rng.below(3) as u32,
            4 => 0,
            _ => rng.below(1_000_0000) as u32,
        };
        let maxpos: u32 = match rng.below(8) {
            0 => 1,
            1 => 0,
            2 => 2,
            3 => 3,
            4 => u32::MAX,
            _ => 2 + rng.below(60) as u32,
        };
        let signer = match rng.below(8) {
            0 => None,
            1 => Some(rng.below(self.people.len() as u64) as usize),
            2 if a >= 100 => None,
            3 if a >= 100 => Some(0),
            _ => Some(a),
        };
        let (fa, meta) = self.fac[f].clone();
        let args: SVec<Val> = (
            admin.clone(),
            SString::from_str(&e, &name),
            BytesN::from_array(&e, &sb),
            oracle.clone(),
            rate,
            maxpos,
        )
            .into_val(&e);
        let signed = signer == Some(a);
        if signed {
            // his signature covers the set-up of the pool as well, whose address a signer has to know beforehand
            e.mock_all_auths();
        } else {
            e.set_auths(&[]);
            if let Some(s) = signer {
                let who = self.people[s].clone();
                let inv = MockAuthInvoke { contract: &fa, fn_name: "deploy", args: args.clone(), sub_invokes: &[] };
                e.mock_auths(&[MockAuth { address: &who, invoke: &inv }]);
            }
        }
        let skey = if salt == 0 { 0 } else { skey };
        let key = (f, a, skey);
        self.now = format!("deploy by factory {f} admin {a} salt {skey} rate {rate} positions {maxpos} signed by {signer:?}");
        let why = if !signed {
            "unsigned"
        } else if meta.is_none() {
            "no_factory"
        } else if rate >= 1_000_0000 {
            "bad_rate"
        } else if maxpos < 2 {
            "bad_positions"
        } else if self.used.contains_key(&key) {
            "address_taken"
        } else {
            "ok"
        };
        let r = self.call(&fa, "deploy", args.clone());
        let asked = self.asked();
        let id = r.and_then(|v| Address::try_from_val(&e, &v).ok());
        if let Some(id) = &id {
            let i = self.aid(id);
            self.sc.kinds.entry(i).or_insert(Kind::Pool);
        }
        let changes = self.scan();
        self.out.log.push(format!("{} -> {}", self.now, if r.is_some() { "ok" } else { "refused" }));
        match (why, r.is_some()) {
            ("ok", true) => {}
            ("ok", false) => return self.bad("refused but must go through".into()),
            (w, true) => return self.bad(format!("succeeded but must be refused ({w})")),
            (w, false) => {
                self.seen("deploy", w, (rate as u64 >> 20) ^ ((maxpos as u64) << 32));
                if self.watched(&changes, &[]).is_some() {
                    self.bad("a refused deployment left a change".into());
                }
                return;
            }
        }
        let Some(id) = id else { return self.bad("returned no address".into()) };
        if self.pools.iter().any(|p| p.id == id) {
            return self.bad("returned an address that another pool has".into());
        }
        let want = self.sv(&args);
        if asked != vec![(admin.clone(), fa.clone(), "deploy".to_string(), want)] {
            self.bad("did not ask for exactly the administrator's signature on this deployment".into());
        }
        self.out.cov.auth_trees += 1;
        let (fi, pi) = (self.aid(&fa), self.aid(&id));
        if let Some(w) = self.watched(&changes, &[fi, pi]) {
            self.bad(format!("changed a record of another contract: {w}"));
        }
        if self.prop == "C28" {
            let got = self.published(&fa);
            let want = vec![format!("deploy = @{pi}")];
            if got != want {
                self.bad_for("C28", format!("the factory published {got:?}, must publish {want:?}"));
            }
        }
        if self.prop == "C29" {
            self.lives(&fa, &changes);
        }
        let (back, blnd) = meta.unwrap();
        let want = PoolS {
            id: pi,
            init: true,
            admin: self.aid(&admin),
            name: format!("{:?}", ScVal::try_from_val(&e, &SString::from_str(&e, &name).to_val()).unwrap()),
            backstop: self.aid(&back),
            blnd: self.aid(&blnd),
            oracle: self.aid(&oracle),
            bstop_rate: rate,
            status: 6,
            max_positions: maxpos,
            ..Default::default()
        };
        let got = self.sc.snap.pools.get(&pi).cloned().unwrap_or_default();
        if got != want {
            self.bad(format!("the pool was set to {got:?} but must be {want:?}"));
        }
        self.out.cov.state_compared += 1;
        self.used.insert(key, id.clone());
        self.pools.push(Deployed { factory: f, admin, id, aid: pi });
        self.seen("deploy", "ok", f as u64 * 8 + a as u64 + ((rate as u64 >> 18) << 8));
    }

    /// many deployers whose addresses are alike in almost everything, with one salt, and one deployer with salts alike in
    /// almost everything: no two may be given one address
    fn crowd(&mut self, rng: &mut Rng) {
        let e = self.e.clone();
        let fa = self.fac[0].0.clone();
        let mut base = [0u8; 32];
        base.iter_mut().for_each(|b| *b = rng.below(256) as u8);
        let account = rng.chance(1, 2);
        let addr = |k: [u8; 32]| {
            let x = if account {
                ScAddress::Account(AccountId(PublicKey::PublicKeyTypeEd25519(Uint256(k))))
            } else {
                ScAddress::Contract(Hash(k))
            };
            Address::try_from_val(&e, &x).unwrap()
        };
        let mut salt = [0u8; 32];
        salt.iter_mut().for_each(|b| *b = 128 + rng.below(128) as u8);
        let mut who = vec![];
        let me = addr(base);
        for _ in 0..80 {
            let (i, bit) = (rng.below(32) as usize, rng.below(8));
            let (mut k, mut z) = (base, salt);
            if rng.chance(1, 3) {
                z[i] ^= 1 << bit;
                who.push((me.clone(), z));
            } else if rng.chance(1, 2) {
                k[i] ^= 1 << bit;
                who.push((addr(k), z));
            } else {
                k.iter_mut().for_each(|b| *b = rng.below(256) as u8);
                who.push((addr(k), z));
            }
        }
        let mut done: BTreeMap<([u8; 32], String), Address> = BTreeMap::new();
        let oracle = self.strangers[0].clone();
        e.mock_all_auths();
        for (admin, z) in who {
            let name = format!("{:?}", ScAddress::try_from(&admin).unwrap());
            let again = done.contains_key(&(z, name.clone()));
            self.now = format!("deploy by one of many, {name}, salt {z:?}");
            let args: SVec<Val> =
                (admin.clone(), SString::from_str(&e, "p"), BytesN::from_array(&e, &z), oracle.clone(), 1_000_000u32, 4u32).into_val(&e);
            let r = self.call(&fa, "deploy", args);
            let id = r.and_then(|v| Address::try_from_val(&e, &v).ok());
            self.seen("deploy", if again { "address_taken" } else { "ok" }, 1 << 40 | done.len() as u64);
            match (id, again) {
                (None, true) => {}
                (None, false) => return self.bad("refused though nobody else has this administrator and salt".into()),
                (Some(_), true) => return self.bad("succeeded twice".into()),
                (Some(id), false) => {
                    if done.values().any(|x| *x == id) {
                        return self.bad("returned an address that another pool has".into());
                    }
                    let i = self.aid(&id);
                    self.sc.kinds.entry(i).or_insert(Kind::Pool);
                    done.insert((z, name), id);
                }
            }
        }
        self.scan();
        for ((_, name), id) in &done {
            let i = self.aid(id);
            let got = self.sc.snap.pools.get(&i).map(|p| p.admin);
            let want = self.sc.addrs.iter().position(|x| format!("{x:?}") == *name);
            if got.is_none() || got.map(|x| x as usize) != want {
                return self.bad(format!("pool {i} belongs to {got:?} and not to {want:?}"));
            }
        }
        self.published(&fa);
    }

    fn is_pool(&mut self, rng: &mut Rng) {
        let e = self.e.clone();
        let f = rng.below(self.fac.len() as u64) as usize;
        let (x, by) = if !self.pools.is_empty() && rng.chance(3, 4) {
            let p = &self.pools[rng.below(self.pools.len() as u64) as usize];
            (p.id.clone(), Some(p.factory))
        } else {
            let mut v = self.strangers.clone();
            v.extend(self.people.clone());
            v.extend(self.fac.iter().map(|x| x.0.clone()));
            v.push(self.back.clone());
            (rng.pick(&v).clone(), None)
        };
        self.now = format!("is_pool by factory {f} of one deployed by {by:?}");
        e.set_auths(&[]);
        let fa = self.fac[f].0.clone();
        let r = self.call(&fa, "is_pool", (x,).into_val(&e)).and_then(|v| bool::try_from_val(&e, &v).ok());
        let changes = self.scan();
        if self.prop == "C29" {
            self.lives(&fa, &changes);
        }
        let want = by == Some(f);
        self.out.log.push(format!("{} -> {r:?}", self.now));
        if r != Some(want) {
            self.bad(format!("answered {r:?} but must answer {want}"));
        }
        self.seen("is_pool", if want { "ok" } else { "no" }, f as u64 * 4 + by.map_or(3, |b| b as u64));
    }

    fn reinit(&mut self, rng: &mut Rng) {
        let e = self.e.clone();
        e.mock_all_auths();
        if rng.chance(1, 2) || self.pools.is_empty() {
            let f = rng.below(self.fac.len() as u64) as usize;
            let (fa, meta) = self.fac[f].clone();
            let mine = rng.pick(&self.people).clone();
            self.now = format!("initialize factory {f}");
            let hash = e.deployer().upload_contract_wasm(wasm());
            let m = pool_factory::PoolInitMeta { pool_hash: hash, backstop: mine.clone(), blnd_id: mine.clone() };
            let first = meta.is_none();
            if first && rng.chance(2, 3) {
                return;
            }
            let r = self.call(&fa, "initialize", (m,).into_val(&e));
            self.out.log.push(format!("{} -> {}", self.now, r.is_some()));
            self.scan();
            if first {
                if r.is_none() {
                    return self.bad("refused but must go through".into());
                }
                self.fac[f].1 = Some((mine.clone(), mine));
                self.seen("factory_init", "ok", 0);
            } else {
                if r.is_some() {
                    return self.bad("a factory was initialised again".into());
                }
                self.seen("factory_init", "again", f as u64);
            }
        } else {
            let i = rng.below(self.pools.len() as u64) as usize;
            let (id, aid) = (self.pools[i].id.clone(), self.pools[i].aid);
            let mine = rng.pick(&self.people).clone();
            self.now = format!("initialize deployed pool {i} again");
            let before = self.sc.snap.pools.get(&aid).cloned();
            let r = self.call(
                &id,
                "initialize",
                (mine.clone(), SString::from_str(&e, "x"), mine.clone(), 0u32, 4u32, mine.clone(), mine).into_val(&e),
            );
            self.out.log.push(format!("{} -> {}", self.now, r.is_some()));
            self.scan();
            if r.is_some() || self.sc.snap.pools.get(&aid).cloned() != before {
                return self.bad("a deployed pool was initialised again".into());
            }
            self.seen("pool_init", "again", 0);
        }
    }

    /// what a deployed pool lets its administrator do, and nobody else
    fn manage(&mut self, rng: &mut Rng) {
        let e = self.e.clone();
        if self.pools.is_empty() {
            return;
        }
        let i = rng.below(self.pools.len() as u64) as usize;
        let (id, aid, admin) = (self.pools[i].id.clone(), self.pools[i].aid, self.pools[i].admin.clone());
        if self.pools.iter().any(|p| p.id == admin) {
            return;
        }
        let who = if rng.chance(1, 2) { admin.clone() } else { rng.pick(&self.people).clone() };
        let rate = rng.below(1_000_0000) as u32;
        let maxpos = 2 + rng.below(9) as u32;
        let args: SVec<Val> = (rate, maxpos).into_val(&e);
        e.set_auths(&[]);
        let inv = MockAuthInvoke { contract: &id, fn_name: "update_pool", args: args.clone(), sub_invokes: &[] };
        e.mock_auths(&[MockAuth { address: &who, invoke: &inv }]);
        self.now = format!("update_pool of deployed pool {i} by {}", if who == admin { "its administrator" } else { "another" });
        let mut want = self.sc.snap.pools.get(&aid).cloned().unwrap_or_default();
        let r = self.call(&id, "update_pool", args);
        self.scan();
        self.out.log.push(format!("{} -> {}", self.now, r.is_some()));
        if r.is_some() != (who == admin) {
            return self.bad(format!("accepted: {}", r.is_some()));
        }
        if r.is_some() {
            want.bstop_rate = rate;
            want.max_positions = maxpos;
        }
        let got = self.sc.snap.pools.get(&aid).cloned().unwrap_or_default();
        if got != want {
            return self.bad(format!("the pool is {got:?} but must be {want:?}"));
        }
        self.seen("update_pool", if who == admin { "ok" } else { "unsigned" }, 0);
    }

    /// the backstop takes deposits for the pools of its factory only
    fn deposit(&mut self, rng: &mut Rng) {
        let e = self.e.clone();
        let (x, by) = if !self.pools.is_empty() && rng.chance(3, 4) {
            let p = &self.pools[rng.below(self.pools.len() as u64) as usize];
            (p.id.clone(), Some(p.factory))
        } else {
            (rng.pick(&self.strangers).clone(), None)
        };
        let from = rng.pick(&self.people).clone();
        let amt = 1 + rng.below(1_000_000) as i128;
        e.mock_all_auths();
        if rng.chance(1, 3) {
            // an empty record of the pool's must not stand for the factory's word
            let f = if rng.chance(1, 2) { "queue_withdrawal" } else { "dequeue_withdrawal" };
            let b = self.back.clone();
            self.call(&b, f, (from.clone(), x.clone(), 0i128).into_val(&e));
        }
        self.now = format!("deposit to the backstop for one deployed by {by:?}");
        let b = self.back.clone();
        let r = self.call(&b, "deposit", (from, x, amt).into_val(&e));
        self.scan();
        self.out.log.push(format!("{} -> {}", self.now, r.is_some()));
        let want = by == Some(0);
        if r.is_some() != want {
            return self.bad(format!("accepted: {}, must be {want}", r.is_some()));
        }
        self.seen("deposit", if want { "ok" } else { "not_pool" }, by.map_or(9, |b| b as u64));
    }

    fn time(&mut self, rng: &mut Rng) {
        let dt = rng.logu(40_000_000) as u64;
        let (ts, seq) = (self.sc.snap.ts + dt, self.sc.snap.seq + (dt / 5) as u32);
        let h = self.e.host().clone();
        if self.prop == "C29" {
            self.sc.pay_rent(&h, seq + 17_280);
        }
        self.set_time(ts, seq);
        self.sc.age(&h, seq, self.prop != "C29");
        self.now = format!("time +{dt}");
        self.out.log.push(self.now.clone());
        self.scan();
    }
}

fn wasm() -> &'static [u8] {
    &crate::world::wasm().expect("BLEND_WASM names the directory of the contracts' wasm")[0]
}

/// Reads the wasm before any thread needs it; false if there is none.
pub fn ready() -> bool {
    std::panic::catch_unwind(|| wasm().len() > 1000).unwrap_or(false)
}

pub fn run(prop: Prop, seed: u64, ep: u64, steps: usize) -> Out {
    let mut rng = Rng::mix(&[seed, 0xFAC7, ep]);
    let e = Env::new_with_config(EnvTestConfig { capture_snapshot_at_drop: false });
    e.budget().reset_unlimited();
    let _ = e.host().set_diagnostic_level(soroban_env_host::DiagnosticLevel::None);
    let gen = || Address::generate(&e);
    let people: Vec<Address> = (0..3).map(|_| gen()).collect();
    let mut strangers: Vec<Address> = (0..4).map(|_| gen()).collect();
    // a contract that looks like a pool but was deployed by nobody's factory
    strangers.push(e.register_contract(None, pool::PoolContract));
    let (blnd, usdc) = (gen(), gen());
    let lp = e.register_contract(None, crate::mocks::comet::Comet);
    let em = e.register_contract(None, emitter::EmitterContract);
    let back = e.register_contract(None, backstop::BackstopContract);
    let facs: Vec<Address> = (0..3).map(|_| e.register_contract(None, pool_factory::PoolFactoryContract)).collect();
    let mut f = F {
        e: e.clone(),
        sc: Scanner::new(),
        fac: vec![],
        used: BTreeMap::new(),
        pools: vec![],
        strangers,
        people,
        back: back.clone(),
        out: Out { cov: Cov::default(), bad: vec![], log: vec![], decoded: 0 },
        step: 0,
        now: String::new(),
        prop,
        ev_seen: 0,
    };
    f.set_time(1_700_000_000, 1000);
    e.mock_all_auths();
    let hash = e.deployer().upload_contract_wasm(wasm());
    e.invoke_contract::<()>(&em, &Symbol::new(&e, "initialize"), (blnd.clone(), back.clone(), lp.clone()).into_val(&e));
    let none: SVec<(Address, i128)> = SVec::new(&e);
    let b = f.aid(&back);
    f.sc.kinds.insert(b, Kind::Backstop);
    let i = f.aid(&em);
    f.sc.kinds.insert(i, Kind::Emitter);
    e.invoke_contract::<()>(
        &back,
        &Symbol::new(&e, "initialize"),
        (lp.clone(), em.clone(), usdc.clone(), blnd.clone(), facs[0].clone(), none).into_val(&e),
    );
    for (n, fa) in facs.iter().enumerate() {
        // the last one is left for the run to initialise
        let (bk, bl) = if n == 0 { (back.clone(), blnd.clone()) } else { (f.strangers[0].clone(), f.strangers[1].clone()) };
        if n < 2 {
            let m = pool_factory::PoolInitMeta { pool_hash: hash.clone(), backstop: bk.clone(), blnd_id: bl.clone() };
            e.invoke_contract::<()>(fa, &Symbol::new(&e, "initialize"), (m,).into_val(&e));
        }
        f.fac.push((fa.clone(), (n < 2).then_some((bk, bl))));
    }
    for p in f.people.clone() {
        e.invoke_contract::<()>(&lp, &Symbol::new(&e, "mint"), (p, 1_000_000_000_000i128).into_val(&e));
    }
    f.scan();
    // what the initialisations left
    let w: BTreeSet<(&str, Aid, Aid)> = [
        ("token", f.sc.snap.back.token, f.aid(&lp)),
        ("emitter", f.sc.snap.back.emitter, f.aid(&em)),
        ("blnd", f.sc.snap.back.blnd, f.aid(&blnd)),
        ("usdc", f.sc.snap.back.usdc, f.aid(&usdc)),
        ("factory", f.sc.snap.back.factory, f.aid(&facs[0])),
        ("emitter's backstop", f.sc.snap.emit.backstop, f.aid(&back)),
        ("emitter's token", f.sc.snap.emit.token, f.aid(&lp)),
        ("emitter's blnd", f.sc.snap.emit.blnd, f.aid(&blnd)),
    ]
    .into_iter()
    .collect();
    f.now = "initialize".into();
    for (n, got, want) in w {
        if got != want {
            f.bad(format!("the {n} was set to another address than given"));
        }
        f.seen("init", "ok", n.len() as u64);
    }
    let mut crowds = rng.chance(2, 3) as u64;
    for _ in 0..steps {
        f.step += 1;
        if crowds > 0 && rng.chance(1, 8) {
            crowds -= 1;
            f.crowd(&mut rng);
        }
        match rng.weighted(&[8, 6, 2, 2, 3, 1]) {
            0 => f.deploy(&mut rng),
            1 => f.is_pool(&mut rng),
            2 => f.reinit(&mut rng),
            3 => f.manage(&mut rng),
            4 => f.deposit(&mut rng),
            _ => f.time(&mut rng),
        }
        if !f.out.bad.is_empty() {
            break;
        }
    }
    f.out.decoded = f.sc.entries_decoded;
    f.out
}
