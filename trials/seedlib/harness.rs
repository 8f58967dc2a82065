//! A small stand-in chain: native balances, CW20 balances and supplies, a factory registry and canned pair answers.
use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::*;
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct World {
    pub coins: HashMap<String, Vec<Coin>>,
    pub cw20: HashMap<(String, String), u128>,
    pub supply: HashMap<String, u128>,
    pub decimals: HashMap<String, u8>,
    pub native_decimals: HashMap<String, u8>,
    pub pairs: Vec<PairInfo>,
    /// pair contract -> offered amount -> (return, spread, commission)
    pub simulate: HashMap<String, fn(&Asset) -> (u128, u128, u128)>,
    pub reverse: HashMap<String, fn(&Asset) -> (u128, u128, u128)>,
    pub log: Rc<RefCell<Vec<(String, String)>>>,
}

pub type Deps_ = OwnedDeps<MockStorage, MockApi, MockQuerier>;

pub fn native(denom: &str) -> AssetInfo {
    AssetInfo::NativeToken { denom: denom.to_string() }
}
pub fn token(addr: &str) -> AssetInfo {
    AssetInfo::Token { contract_addr: addr.to_string() }
}
pub fn asset(info: &AssetInfo, amount: u128) -> Asset {
    Asset { info: info.clone(), amount: Uint128::new(amount) }
}
pub fn req(whitelist: &[&str], a: u128, b: u128) -> CreatePairRequirements {
    CreatePairRequirements {
        whitelist: whitelist.iter().map(|x| Addr::unchecked(*x)).collect(),
        first_asset_minimum: Uint128::new(a),
        second_asset_minimum: Uint128::new(b),
    }
}

impl World {
    pub fn coin(&mut self, who: &str, denom: &str, amount: u128) -> &mut Self {
        self.coins.entry(who.into()).or_default().push(coin(amount, denom));
        self
    }
    pub fn tok(&mut self, contract: &str, who: &str, amount: u128) -> &mut Self {
        self.cw20.insert((contract.into(), who.into()), amount);
        self
    }
    pub fn total(&mut self, contract: &str, supply: u128, decimals: u8) -> &mut Self {
        self.supply.insert(contract.into(), supply);
        self.decimals.insert(contract.into(), decimals);
        self
    }
    pub fn pair(&mut self, contract: &str, a: &AssetInfo, b: &AssetInfo) -> &mut Self {
        self.pairs.push(PairInfo {
            asset_infos: [a.clone(), b.clone()],
            contract_addr: contract.into(),
            liquidity_token: format!("lp-{contract}"),
            asset_decimals: [6, 6],
            requirements: req(&[], 0, 0),
        });
        self
    }
    fn answer(&self, q: &WasmQuery) -> QuerierResult {
        let (addr, msg) = match q {
            WasmQuery::Smart { contract_addr, msg } => (contract_addr.clone(), msg.clone()),
            _ => return SystemResult::Err(SystemError::Unknown {}),
        };
        self.log.borrow_mut().push((addr.clone(), String::from_utf8_lossy(&msg).to_string()));
        let none = || SystemResult::Ok(ContractResult::Err("not found".to_string()));
        if let Ok(m) = from_binary::<cw20::Cw20QueryMsg>(&msg) {
            match m {
                cw20::Cw20QueryMsg::Balance { address } if self.decimals.contains_key(&addr) => {
                    let b = self.cw20.get(&(addr, address)).copied().unwrap_or(0);
                    return SystemResult::Ok(to_binary(&cw20::BalanceResponse { balance: Uint128::new(b) }).into());
                }
                cw20::Cw20QueryMsg::TokenInfo {} => {
                    return match self.decimals.get(&addr) {
                        Some(d) => SystemResult::Ok(
                            to_binary(&cw20::TokenInfoResponse {
                                name: addr.clone(),
                                symbol: "TOK".into(),
                                decimals: *d,
                                total_supply: Uint128::new(self.supply[&addr]),
                            })
                            .into(),
                        ),
                        None => none(),
                    };
                }
                _ => return none(),
            }
        }
        if let Ok(m) = from_binary::<haloswap::factory::QueryMsg>(&msg) {
            match m {
                haloswap::factory::QueryMsg::Pair { asset_infos: [a, b] } => {
                    let p = self.pairs.iter().find(|p| {
                        (p.asset_infos[0] == a && p.asset_infos[1] == b) || (p.asset_infos[0] == b && p.asset_infos[1] == a)
                    });
                    return match p {
                        Some(p) => SystemResult::Ok(to_binary(p).into()),
                        None => none(),
                    };
                }
                haloswap::factory::QueryMsg::NativeTokenDecimals { denom } => {
                    return match self.native_decimals.get(&denom) {
                        Some(d) => SystemResult::Ok(
                            to_binary(&haloswap::factory::NativeTokenDecimalsResponse { decimals: *d }).into(),
                        ),
                        None => none(),
                    };
                }
                _ => {}
            }
        }
        match from_binary::<haloswap::pair::QueryMsg>(&msg) {
            Ok(haloswap::pair::QueryMsg::Simulation { offer_asset }) => match self.simulate.get(&addr) {
                Some(f) => {
                    let (a, b, c) = f(&offer_asset);
                    SystemResult::Ok(
                        to_binary(&haloswap::pair::SimulationResponse {
                            return_amount: a.into(),
                            spread_amount: b.into(),
                            commission_amount: c.into(),
                        })
                        .into(),
                    )
                }
                None => none(),
            },
            Ok(haloswap::pair::QueryMsg::ReverseSimulation { ask_asset }) => match self.reverse.get(&addr) {
                Some(f) => {
                    let (a, b, c) = f(&ask_asset);
                    SystemResult::Ok(
                        to_binary(&haloswap::pair::ReverseSimulationResponse {
                            offer_amount: a.into(),
                            spread_amount: b.into(),
                            commission_amount: c.into(),
                        })
                        .into(),
                    )
                }
                None => none(),
            },
            Ok(haloswap::pair::QueryMsg::Pair {}) => match self.pairs.iter().find(|p| p.contract_addr == addr) {
                Some(p) => SystemResult::Ok(to_binary(p).into()),
                None => none(),
            },
            _ => none(),
        }
    }
    pub fn querier(&self) -> MockQuerier {
        let mut q = MockQuerier::new(&[]);
        for (who, coins) in &self.coins {
            q.update_balance(who.clone(), coins.clone());
        }
        let w = self.clone();
        q.update_wasm(move |x| w.answer(x));
        q
    }
    pub fn deps(&self) -> Deps_ {
        OwnedDeps { storage: MockStorage::default(), api: MockApi::default(), querier: self.querier(), custom_query_type: Default::default() }
    }
}

pub fn env_at(addr: &str) -> Env {
    let mut e = mock_env();
    e.contract.address = Addr::unchecked(addr);
    e
}

/// instantiate reply data carrying a contract address (protobuf field 1)
pub fn reply_with(id: u64, addr: &str) -> Reply {
    let mut data = vec![10u8, addr.len() as u8];
    data.extend_from_slice(addr.as_bytes());
    Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(data.into()) }) }
}

/// a pair contract "pair" with LP token "lptoken" whose storage is set up as after creation
pub fn new_pair(w: &World, a: &AssetInfo, b: &AssetInfo, decimals: [u8; 2], requirements: CreatePairRequirements) -> Deps_ {
    let mut deps = w.deps();
    halo_pair::contract::instantiate(
        deps.as_mut(),
        env_at("pair"),
        mock_info("factory", &[]),
        haloswap::pair::InstantiateMsg {
            asset_infos: [a.clone(), b.clone()],
            token_code_id: 7,
            asset_decimals: decimals,
            requirements,
        },
    )
    .unwrap();
    halo_pair::contract::reply(deps.as_mut(), env_at("pair"), reply_with(1, "lptoken")).unwrap();
    deps
}

pub fn hook(sender: &str, amount: u128, msg: &haloswap::pair::Cw20HookMsg) -> haloswap::pair::ExecuteMsg {
    haloswap::pair::ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
        sender: sender.into(),
        amount: Uint128::new(amount),
        msg: to_binary(msg).unwrap(),
    })
}

pub fn swap_hook(belief_price: Option<Decimal>, max_spread: Option<Decimal>, to: Option<&str>) -> haloswap::pair::Cw20HookMsg {
    haloswap::pair::Cw20HookMsg::Swap { belief_price, max_spread, to: to.map(|x| x.to_string()) }
}

/// (payee, asset identifier, amount) of every payment in a response; mints, burns and collections are left out
pub fn payments(r: &Response) -> Vec<(String, String, u128)> {
    let mut out = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                for c in amount {
                    out.push((to_address.clone(), c.denom.clone(), c.amount.u128()));
                }
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => {
                if let Ok(cw20::Cw20ExecuteMsg::Transfer { recipient, amount }) = from_binary(msg) {
                    out.push((recipient, contract_addr.clone(), amount.u128()));
                }
            }
            _ => {}
        }
    }
    out
}

/// CW20 execute messages of a response with the token they go to
pub fn cw20_msgs(r: &Response) -> Vec<(String, cw20::Cw20ExecuteMsg)> {
    r.messages
        .iter()
        .filter_map(|m| match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => {
                from_binary(msg).ok().map(|x| (contract_addr.clone(), x))
            }
            _ => None,
        })
        .collect()
}

pub fn minted(r: &Response) -> Option<(String, u128)> {
    cw20_msgs(r).into_iter().find_map(|(_, m)| match m {
        cw20::Cw20ExecuteMsg::Mint { recipient, amount } => Some((recipient, amount.u128())),
        _ => None,
    })
}

pub fn attr(r: &Response, key: &str) -> String {
    r.attributes.iter().find(|a| a.key == key).map(|a| a.value.clone()).unwrap_or_default()
}
