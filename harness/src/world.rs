//! A running deployment of the real contracts inside the Soroban host, and the driver that executes one operation
//! against it and reports everything that can be observed about it.
use crate::ledger::*;
use crate::mocks;
use crate::model::Ctx;
use crate::ops::*;
use crate::types::*;
use soroban_sdk::testutils::{EnvTestConfig, Ledger, LedgerInfo, MockAuth, MockAuthInvoke};
use soroban_sdk::xdr::{ScAddress, ScVal};
use soroban_sdk::{Address, Env, Error, IntoVal, String as SString, Symbol, TryFromVal, Val, Vec as SVec};

pub struct Seen {
    pub ok: bool,
    pub err: String,
    pub ret: Option<ScVal>,
    /// root authorisations the call asked for: (who, contract, function, args)
    pub auths: Vec<(Aid, Aid, String, Vec<ScVal>)>,
    pub root: (Aid, String, Vec<ScVal>),
    pub changes: Vec<Change>,
}

pub struct World {
    /// ledgers a new permanent record lives unless extended
    pub min_life: u32,
    pub env: Env,
    pub sc: Scanner,
    pub ctx: Ctx,
    pub name: Vec<String>,
    pub users: Vec<Aid>,
    pub assets: Vec<Aid>,
    pub pools: Vec<Aid>,
    pub oracles: Vec<Aid>,
    pub rogue: Aid,
    pub back2: Aid,
    pub lp2: Aid,
    pub attacker: Aid,
    pub admins: Vec<Aid>,
}

/// The contracts as compiled for the chain (pool, backstop, emitter), where they have been built.
pub fn wasm() -> Option<&'static [Vec<u8>; 3]> {
    static W: std::sync::OnceLock<Option<[Vec<u8>; 3]>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let dir = std::path::PathBuf::from(std::env::var("BLEND_WASM").ok()?);
        let f = |n: &str| std::fs::read(dir.join(n)).ok();
        Some([f("pool.wasm")?, f("backstop.wasm")?, f("emitter.wasm")?])
    })
    .as_ref()
}

impl World {
    pub fn addr(&self, a: Aid) -> Address {
        Address::try_from_val(&self.env, &self.sc.addrs[a]).unwrap()
    }
    pub fn aid(&mut self, a: &Address, name: &str) -> Aid {
        let sa: ScAddress = ScAddress::try_from(a).unwrap();
        let i = self.sc.id(&sa);
        while self.name.len() <= i {
            self.name.push(format!("#{}", self.name.len()));
        }
        if !name.is_empty() {
            self.name[i] = name.to_string();
        }
        i
    }
    pub fn new_addr(&mut self, name: &str) -> Aid {
        let a = <Address as soroban_sdk::testutils::Address>::generate(&self.env);
        self.aid(&a, name)
    }
    pub fn nm(&self, a: Aid) -> String {
        self.name.get(a).cloned().unwrap_or_else(|| format!("#{a}"))
    }
    pub fn snap(&self) -> &Snap {
        &self.sc.snap
    }
    fn ledger(&self, ts: u64, seq: u32) {
        self.env.ledger().set(LedgerInfo {
            timestamp: ts,
            protocol_version: 20,
            sequence_number: seq,
            network_id: Default::default(),
            base_reserve: 10,
            min_temp_entry_ttl: 16,
            min_persistent_entry_ttl: self.min_life,
            max_entry_ttl: 9_000_000,
        });
    }
    pub fn new(ts: u64, seq: u32, nusers: usize, nassets: usize, npools: usize, odec: &[u32], min_life: u32, wasm: bool) -> World {
        let wasm = if wasm { crate::world::wasm() } else { None };
        let env = Env::new_with_config(EnvTestConfig { capture_snapshot_at_drop: false });
        env.budget().reset_unlimited();
        let _ = env.host().set_diagnostic_level(soroban_env_host::DiagnosticLevel::None);
        let mut w = World {
            min_life,
            env: env.clone(),
            sc: Scanner::new(),
            ctx: Ctx::default(),
            name: vec![],
            users: vec![],
            assets: vec![],
            pools: vec![],
            oracles: vec![],
            rogue: 0,
            back2: 0,
            lp2: 0,
            attacker: 0,
            admins: vec![],
        };
        w.ledger(ts, seq);
        env.mock_all_auths_allowing_non_root_auth();
        w.new_addr("nobody");
        // tokens
        let issuer = <Address as soroban_sdk::testutils::Address>::generate(&env);
        let sac = |w: &mut World, n: &str| {
            let t = env.register_stellar_asset_contract(issuer.clone());
            let i = w.aid(&t, n);
            w.sc.kinds.insert(i, Kind::Token);
            i
        };
        let blnd = sac(&mut w, "BLND");
        let usdc = sac(&mut w, "USDC");
        w.ctx.blnd = blnd;
        w.ctx.usdc = usdc;
        for i in 0..nassets {
            // distinct issuers, or the asset contracts would collide
            let iss = <Address as soroban_sdk::testutils::Address>::generate(&env);
            let t = env.register_stellar_asset_contract(iss);
            let id = w.aid(&t, &format!("A{i}"));
            w.sc.kinds.insert(id, Kind::Token);
            w.assets.push(id);
        }
        let lp = env.register_contract(None, mocks::comet::Comet);
        w.ctx.lp = w.aid(&lp, "LP");
        w.sc.kinds.insert(w.ctx.lp, Kind::Token);
        let lp2 = env.register_contract(None, mocks::comet::Comet);
        w.lp2 = w.aid(&lp2, "LP2");
        let fac = env.register_contract(None, mocks::registry::Registry);
        w.ctx.factory = w.aid(&fac, "FACTORY");
        for (i, d) in odec.iter().enumerate() {
            let o = env.register_contract(None, mocks::oracle::Oracle);
            let id = w.aid(&o, &format!("ORACLE{i}"));
            w.sc.kinds.insert(id, Kind::Oracle);
            env.invoke_contract::<()>(&o, &Symbol::new(&env, "set_dec"), (*d,).into_val(&env));
            w.oracles.push(id);
        }
        let em = match wasm {
            Some(x) => env.register_contract_wasm(None, x[2].as_slice()),
            None => env.register_contract(None, emitter::EmitterContract),
        };
        w.ctx.emit = w.aid(&em, "EMITTER");
        w.sc.kinds.insert(w.ctx.emit, Kind::Emitter);
        let bs = match wasm {
            Some(x) => env.register_contract_wasm(None, x[1].as_slice()),
            None => env.register_contract(None, backstop::BackstopContract),
        };
        w.ctx.back = w.aid(&bs, "BACKSTOP");
        w.sc.kinds.insert(w.ctx.back, Kind::Backstop);
        for i in 0..npools {
            let p = match wasm {
                Some(x) => env.register_contract_wasm(None, x[0].as_slice()),
                None => env.register_contract(None, pool::PoolContract),
            };
            let id = w.aid(&p, &format!("POOL{i}"));
            w.sc.kinds.insert(id, Kind::Pool);
            w.pools.push(id);
        }
        for i in 0..nusers {
            let u = w.new_addr(&format!("U{i}"));
            w.users.push(u);
        }
        w.attacker = w.new_addr("ATTACKER");
        w.rogue = w.new_addr("ROGUEPOOL");
        w.back2 = w.new_addr("BACKSTOP2");
        for i in 0..2 {
            let a = w.new_addr(&format!("ADMIN{i}"));
            w.admins.push(a);
        }
        w
    }
    /// give the BLND token to the emitter and connect the pieces
    pub fn wire(&mut self, drop_list: &[(Aid, i128)]) {
        let e = self.env.clone();
        let (blnd, usdc, lp, fac, em, bs) = (
            self.addr(self.ctx.blnd),
            self.addr(self.ctx.usdc),
            self.addr(self.ctx.lp),
            self.addr(self.ctx.factory),
            self.addr(self.ctx.emit),
            self.addr(self.ctx.back),
        );
        soroban_sdk::token::StellarAssetClient::new(&e, &blnd).set_admin(&em);
        e.invoke_contract::<()>(&em, &Symbol::new(&e, "initialize"), (blnd.clone(), bs.clone(), lp.clone()).into_val(&e));
        let mut dl: SVec<(Address, i128)> = SVec::new(&e);
        for (a, v) in drop_list {
            dl.push_back((self.addr(*a), *v));
        }
        e.invoke_contract::<()>(
            &bs,
            &Symbol::new(&e, "initialize"),
            (lp, em, usdc, blnd, fac, dl).into_val(&e),
        );
    }
    pub fn register_pool(&mut self, p: Aid) {
        let e = self.env.clone();
        let (f, a) = (self.addr(self.ctx.factory), self.addr(p));
        e.invoke_contract::<()>(&f, &Symbol::new(&e, "add"), (a,).into_val(&e));
        self.ctx.registered.insert(p);
    }
    /// what the contracts published beyond the first `from` events of the host
    pub fn events(&mut self, from: usize) -> (Vec<String>, usize) {
        let h = self.env.host().clone();
        self.sc.events(&h, from)
    }
    pub fn scan(&mut self) -> Vec<Change> {
        let h = self.env.host().clone();
        let r = self.sc.scan(&h);
        while self.name.len() < self.sc.addrs.len() {
            self.name.push(format!("#{}", self.name.len()));
        }
        r
    }
    pub fn age(&mut self) {
        let h = self.env.host().clone();
        let seq = self.env.ledger().sequence();
        self.sc.age(&h, seq, self.min_life >= 1_000_000);
    }
    pub fn rescfg(&self, c: &ResCfg) -> pool::ReserveConfig {
        pool::ReserveConfig {
            index: c.index,
            decimals: c.decimals,
            c_factor: c.c_factor,
            l_factor: c.l_factor,
            util: c.util,
            max_util: c.max_util,
            r_base: c.r_base,
            r_one: c.r_one,
            r_two: c.r_two,
            r_three: c.r_three,
            reactivity: c.reactivity,
        }
    }
    fn avec(&self, v: &[Aid]) -> SVec<Address> {
        let mut r = SVec::new(&self.env);
        for a in v {
            r.push_back(self.addr(*a));
        }
        r
    }
    /// contract, function, arguments
    pub fn call_of(&self, op: &Op) -> (Aid, &'static str, SVec<Val>) {
        let e = &self.env;
        let c = &self.ctx;
        let none: SVec<Val> = SVec::new(e);
        match op {
            Op::Submit { pool, from, spender, to, reqs } => {
                let mut r: SVec<pool::Request> = SVec::new(e);
                for (t, a, v) in reqs {
                    r.push_back(pool::Request { request_type: *t, address: self.addr(*a), amount: *v });
                }
                (*pool, "submit", (self.addr(*from), self.addr(*spender), self.addr(*to), r).into_val(e))
            }
            Op::BadDebt { pool, user } => (*pool, "bad_debt", (self.addr(*user),).into_val(e)),
            Op::UpdStatus { pool } => (*pool, "update_status", none),
            Op::SetStatus { pool, st } => (*pool, "set_status", (*st,).into_val(e)),
            Op::PoolGulp { pool } => (*pool, "gulp_emissions", none),
            Op::SetEmis { pool, md } => {
                let mut r: SVec<pool::ReserveEmissionMetadata> = SVec::new(e);
                for (i, t, s) in md {
                    r.push_back(pool::ReserveEmissionMetadata { res_index: *i, res_type: *t, share: *s });
                }
                (*pool, "set_emissions_config", (r,).into_val(e))
            }
            Op::PClaim { pool, from, ids, to } => {
                let mut r: SVec<u32> = SVec::new(e);
                for i in ids {
                    r.push_back(*i);
                }
                (*pool, "claim", (self.addr(*from), r, self.addr(*to)).into_val(e))
            }
            Op::NewLiq { pool, user, pct } => (*pool, "new_liquidation_auction", (self.addr(*user), *pct).into_val(e)),
            Op::NewBad { pool } => (*pool, "new_bad_debt_auction", none),
            Op::NewInt { pool, assets } => (*pool, "new_interest_auction", (self.avec(assets),).into_val(e)),
            Op::SetAdmin { pool, new } => (*pool, "set_admin", (self.addr(*new),).into_val(e)),
            Op::UpdPool { pool, rate, maxpos } => (*pool, "update_pool", (*rate, *maxpos).into_val(e)),
            Op::QRes { pool, asset, cfg } => {
                (*pool, "queue_set_reserve", (self.addr(*asset), self.rescfg(cfg)).into_val(e))
            }
            Op::CRes { pool, asset } => (*pool, "cancel_set_reserve", (self.addr(*asset),).into_val(e)),
            Op::SRes { pool, asset } => (*pool, "set_reserve", (self.addr(*asset),).into_val(e)),
            Op::PInit { pool, admin, rate, maxpos, oracle, backstop, blnd } => (
                *pool,
                "initialize",
                (
                    self.addr(*admin),
                    SString::from_str(e, "p"),
                    self.addr(*oracle),
                    *rate,
                    *maxpos,
                    self.addr(*backstop),
                    self.addr(*blnd),
                )
                    .into_val(e),
            ),
            Op::BDep { from, pool, amt } => (c.back, "deposit", (self.addr(*from), self.addr(*pool), *amt).into_val(e)),
            Op::BQ { from, pool, amt } => {
                (c.back, "queue_withdrawal", (self.addr(*from), self.addr(*pool), *amt).into_val(e))
            }
            Op::BDeq { from, pool, amt } => {
                (c.back, "dequeue_withdrawal", (self.addr(*from), self.addr(*pool), *amt).into_val(e))
            }
            Op::BWd { from, pool, amt } => (c.back, "withdraw", (self.addr(*from), self.addr(*pool), *amt).into_val(e)),
            Op::BGulp => (c.back, "gulp_emissions", none),
            Op::BAdd { add, rm } => (c.back, "add_reward", (self.addr(*add), self.addr(*rm)).into_val(e)),
            Op::BGulpPool { pool } => (c.back, "gulp_pool_emissions", (self.addr(*pool),).into_val(e)),
            Op::BClaim { from, pools, to } => {
                (c.back, "claim", (self.addr(*from), self.avec(pools), self.addr(*to)).into_val(e))
            }
            Op::BDrop => (c.back, "drop", none),
            Op::BDraw { pool, amt, to } => (c.back, "draw", (self.addr(*pool), *amt, self.addr(*to)).into_val(e)),
            Op::BDonate { from, pool, amt } => {
                (c.back, "donate", (self.addr(*from), self.addr(*pool), *amt).into_val(e))
            }
            Op::BUpdVal => (c.back, "update_tkn_val", none),
            Op::BInit => {
                let a = self.addr(self.attacker);
                let l: SVec<(Address, i128)> = SVec::new(e);
                // the real emitter stays, so that re-initialisation would go through if it were allowed
                (
                    c.back,
                    "initialize",
                    (a.clone(), self.addr(c.emit), a.clone(), a.clone(), a.clone(), l).into_val(e),
                )
            }
            Op::EDist => (c.emit, "distribute", none),
            Op::EQSwap { nb, nt } => (c.emit, "queue_swap_backstop", (self.addr(*nb), self.addr(*nt)).into_val(e)),
            Op::ECancel => (c.emit, "cancel_swap_backstop", none),
            Op::ESwap => (c.emit, "swap_backstop", none),
            Op::EDrop { list } => {
                let mut l: SVec<(Address, i128)> = SVec::new(e);
                for (a, v) in list {
                    l.push_back((self.addr(*a), *v));
                }
                (c.emit, "drop", (l,).into_val(e))
            }
            Op::EInit => {
                let a = self.addr(self.attacker);
                (c.emit, "initialize", (a.clone(), a.clone(), a).into_val(e))
            }
            Op::View(v) => match v {
                View::Pos(p, u) => (*p, "get_positions", (self.addr(*u),).into_val(e)),
                View::Auct(p, t, u) => (*p, "get_auction", (*t, self.addr(*u)).into_val(e)),
                View::BUser(p, u) => (c.back, "user_balance", (self.addr(*p), self.addr(*u)).into_val(e)),
                View::BPool(p) => (c.back, "pool_data", (self.addr(*p),).into_val(e)),
                View::BToken => (c.back, "backstop_token", none),
                View::Last(b) => (c.emit, "get_last_distro", (self.addr(*b),).into_val(e)),
                View::Backstop => (c.emit, "get_backstop", none),
                View::Swap => (c.emit, "get_queued_swap", none),
            },
            Op::Time { .. } | Op::Price { .. } | Op::Mint { .. } | Op::Xfer { .. } => unreachable!(),
        }
    }

    pub fn exec(&mut self, op: &Op, auth: &Auth) -> Seen {
        let e = self.env.clone();
        let mut seen =
            Seen { ok: true, err: String::new(), ret: None, auths: vec![], root: (0, String::new(), vec![]), changes: vec![] };
        match op {
            Op::Time { dt, dseq } => {
                let s = self.snap();
                let (ts, seq) = (s.ts + dt, s.seq + dseq);
                if self.min_life < 1_000_000 {
                    let h = e.host().clone();
                    self.sc.pay_rent(&h, seq + self.min_life);
                }
                self.ledger(ts, seq);
                self.age();
            }
            Op::Price { asset, price, ts } => {
                e.mock_all_auths_allowing_non_root_auth();
                for o in self.oracles.clone() {
                    let (oa, aa) = (self.addr(o), self.addr(*asset));
                    // `price` is in 7 decimals; each oracle quotes in its own
                    let od = self.sc.snap.oracle.get(&o).map(|x| x.decimals).unwrap_or(7);
                    match price {
                        Some(p) => {
                            let q = if od >= 7 { p * 10i128.pow(od - 7) } else { p / 10i128.pow(7 - od) };
                            e.invoke_contract::<()>(&oa, &Symbol::new(&e, "set_price"), (aa, q, *ts).into_val(&e))
                        }
                        None => e.invoke_contract::<()>(&oa, &Symbol::new(&e, "del_price"), (aa,).into_val(&e)),
                    }
                }
            }
            Op::Mint { token, to, amt } => {
                e.mock_all_auths_allowing_non_root_auth();
                let t = self.addr(*token);
                let r = e.try_invoke_contract::<Val, Error>(&t, &Symbol::new(&e, "mint"), (self.addr(*to), *amt).into_val(&e));
                seen.ok = matches!(r, Ok(Ok(_)));
            }
            Op::Xfer { token, from, to, amt } => {
                e.mock_all_auths_allowing_non_root_auth();
                let t = self.addr(*token);
                let r = e.try_invoke_contract::<Val, Error>(
                    &t,
                    &Symbol::new(&e, "transfer"),
                    (self.addr(*from), self.addr(*to), *amt).into_val(&e),
                );
                seen.ok = matches!(r, Ok(Ok(_)));
            }
            _ => {
                let (c, f, args) = self.call_of(op);
                let ca = self.addr(c);
                match auth {
                    Auth::All => e.mock_all_auths(),
                    Auth::Only(l) => {
                        e.set_auths(&[]);
                        if !l.is_empty() {
                            let addrs: Vec<Address> = l.iter().map(|a| self.addr(*a)).collect();
                            let inv = MockAuthInvoke { contract: &ca, fn_name: f, args: args.clone(), sub_invokes: &[] };
                            let m: Vec<MockAuth> = addrs.iter().map(|a| MockAuth { address: a, invoke: &inv }).collect();
                            e.mock_auths(&m);
                        }
                    }
                }
                let fs = Symbol::new(&e, f);
                let r = e.try_invoke_contract::<Val, Error>(&ca, &fs, args.clone());
                seen.root = (c, f.to_string(), args.iter().map(|v| ScVal::try_from_val(&e, &v).unwrap()).collect());
                match r {
                    Ok(Ok(v)) => {
                        seen.ret = ScVal::try_from_val(&e, &v).ok();
                        if *auth == Auth::All {
                            for (who, inv) in e.auths() {
                                if let soroban_sdk::testutils::AuthorizedFunction::Contract((ct, fname, a)) = inv.function {
                                    let who = self.aid(&who, "");
                                    let ct = self.aid(&ct, "");
                                    seen.auths.push((
                                        who,
                                        ct,
                                        ScVal::try_from_val(&e, &fname.to_val())
                                            .map(|s| match s {
                                                ScVal::Symbol(s) => s.0.to_utf8_string_lossy(),
                                                _ => String::new(),
                                            })
                                            .unwrap_or_default(),
                                        a.iter().map(|v| ScVal::try_from_val(&e, &v).unwrap()).collect(),
                                    ));
                                }
                            }
                        }
                    }
                    Ok(Err(_)) => {
                        seen.ok = false;
                        seen.err = "conv".into();
                    }
                    Err(x) => {
                        seen.ok = false;
                        seen.err = format!("{x:?}");
                    }
                }
            }
        }
        seen.changes = self.scan();
        seen
    }
}
