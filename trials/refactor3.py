"""Behaviour-preserving edits, third set: code moved between modules, types, traits, macros and generics; different library calls."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)
def R(name):
    """whole-file text of /repo"""
    return open("/repo/" + name).read()
PC = "contracts/halo-pair/src/contract.rs"
def cut(name, a, b):
    """text of a file from marker a up to (not including) marker b"""
    t = R(name); i = t.index(a); return t[i:t.index(b, i)]

# ---------------------------------------------------------------- pair
E("p3_auth_fn", ("pair", """            let mut authorized: bool = false;
            let config""", """            let config"""), ("pair", """            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
            if !authorized {
                return""", """            if !is_pool_token(&pools, &info.sender) {
                return"""), ("pair", """/// This just stores the result for future query
""", """fn is_pool_token(pools: &[Asset; 2], who: &Addr) -> bool {
    pools
        .iter()
        .any(|p| matches!(&p.info, AssetInfo::Token { contract_addr } if contract_addr.as_str() == who.as_str()))
}

/// This just stores the result for future query
"""))

SEL_OLD = cut(PC, "    let offer_pool: Asset;\n    let ask_pool: Asset;\n\n    let offer_decimal", "    let offer_amount = offer_asset.amount;\n    let (return")
E("p3_context", ("pair", SEL_OLD, """    let SwapContext {
        offer_pool,
        ask_pool,
        offer_decimal,
        ask_decimal,
    } = SwapContext::select(&pair_info, &pools, &offer_asset)?;

"""), ("pair", """// CONTRACT - a user must do token approval
""", """struct SwapContext {
    offer_pool: Asset,
    ask_pool: Asset,
    offer_decimal: u8,
    ask_decimal: u8,
}

impl SwapContext {
    fn select(
        pair_info: &PairInfoRaw,
        pools: &[Asset; 2],
        offer_asset: &Asset,
    ) -> Result<Self, ContractError> {
        for (offer, ask) in [(0usize, 1usize), (1, 0)] {
            if pools[offer].info.equal(&offer_asset.info) {
                return Ok(SwapContext {
                    offer_pool: Asset {
                        info: pools[offer].info.clone(),
                        amount: pools[offer].amount.checked_sub(offer_asset.amount)?,
                    },
                    ask_pool: pools[ask].clone(),
                    offer_decimal: pair_info.asset_decimals[offer],
                    ask_decimal: pair_info.asset_decimals[ask],
                });
            }
        }
        Err(ContractError::AssetMismatch {})
    }
}

// CONTRACT - a user must do token approval
"""))

E("p3_position", ("pair", SEL_OLD, """    let index = pools
        .iter()
        .position(|p| p.info.equal(&offer_asset.info))
        .ok_or(ContractError::AssetMismatch {})?;
    let other = 1 - index;
    let ask_pool = pools[other].clone();
    let mut offer_pool = pools[index].clone();
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
    let (offer_decimal, ask_decimal) = (
        pair_info.asset_decimals[index],
        pair_info.asset_decimals[other],
    );

"""))

SIM_OLD = cut(PC, "    let offer_pool: Asset;\n    let ask_pool: Asset;\n    if offer_asset.info.equal", "    let (return_amount, spread_amount, commission_amount) =\n        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);\n\n    Ok(Sim")
REV_OLD = cut(PC, "    let offer_pool: Asset;\n    let ask_pool: Asset;\n    if ask_asset.info.equal", "    // compute offer amount, spread")
E("p3_orient", ("pair", SIM_OLD, """    let (offer_pool, ask_pool) = orient(pools, &offer_asset.info)?;

"""), ("pair", REV_OLD, """    let (ask_pool, offer_pool) = orient(pools, &ask_asset.info)?;

"""), ("pair", """pub fn amount_of(""", """/// the given asset's side of the pool first
fn orient(pools: [Asset; 2], first: &AssetInfo) -> Result<(Asset, Asset), ContractError> {
    let [a, b] = pools;
    if first.equal(&a.info) {
        Ok((a, b))
    } else if first.equal(&b.info) {
        Ok((b, a))
    } else {
        Err(ContractError::AssetMismatch {})
    }
}

pub fn amount_of("""))

E("p3_load_pools", ("pair", """    let pair_info: PairInfoRaw = PAIR_INFO.load(deps.storage)?;

    let contract_addr = deps.api.addr_humanize(&pair_info.contract_addr)?;
    let pools: [Asset; 2] = pair_info.query_pools(&deps.querier, deps.api, contract_addr)?;

    let offer_pool: Asset;
    let ask_pool: Asset;
    if offer_asset""", """    let pools = load_pools(deps)?;

    let offer_pool: Asset;
    let ask_pool: Asset;
    if offer_asset"""), ("pair", """    // get pair info
    let pair_info: PairInfoRaw = PAIR_INFO.load(deps.storage)?;

    // get address of the pair contract
    let contract_addr = deps.api.addr_humanize(&pair_info.contract_addr)?;

    // get pool info of the pair contract
    let pools: [Asset; 2] = pair_info.query_pools(&deps.querier, deps.api, contract_addr)?;
""", """    let pools = load_pools(deps)?;
"""), ("pair", """pub fn amount_of(""", """fn load_pools(deps: Deps) -> StdResult<[Asset; 2]> {
    let pair_info = PAIR_INFO.load(deps.storage)?;
    deps.api
        .addr_humanize(&pair_info.contract_addr)
        .and_then(|addr| pair_info.query_pools(&deps.querier, deps.api, addr))
}

pub fn amount_of("""))

CS_OLD = cut(PC, "    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);", "    // calculate the commission_amount")
E("p3_compute_helpers", ("pair", CS_OLD, """    let return_amount: Uint256 = gross_return(offer_pool, ask_pool, offer_amount);
    let spread_amount: Uint256 = saturating_diff(
        offer_amount * Decimal256::from_ratio(ask_pool, offer_pool),
        return_amount,
    );

"""), ("pair", """// User want to swap from 'offer' to 'ask'
""", """fn gross_return(offer_pool: Uint256, ask_pool: Uint256, offer_amount: Uint256) -> Uint256 {
    let total = offer_pool + offer_amount;
    ask_pool.multiply_ratio(offer_amount, total)
}

fn saturating_diff(a: Uint256, b: Uint256) -> Uint256 {
    if a < b {
        return Uint256::zero();
    }
    a - b
}

// User want to swap from 'offer' to 'ask'
"""))
E("p3_compute_std256", ("pair", "    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);\n", """    let return_amount: Uint256 = Uint256::one().multiply_ratio(ask_pool * offer_amount, offer_amount + offer_pool);
"""))
E("p3_compute_remainder", ("pair", """    let return_amount: Uint256 = return_amount - commission_amount;
    (
        return_amount.into(),
        spread_amount.into(),
        commission_amount.into(),
    )
}

#[test]
fn test_compute_swap""", """    let net_amount: Uint256 = return_amount - commission_amount;
    let (net, spread, commission): (Uint128, Uint128, Uint128) = (
        net_amount.into(),
        spread_amount.into(),
        commission_amount.into(),
    );
    (net, spread, commission)
}

#[test]
fn test_compute_swap"""))
E("p3_rate_fn", ("pair", """    // Commission rate OR Fee amount for framework
    let commission_rate = Decimal256::from_str(COMMISSION_RATE).unwrap();
""", """    let commission_rate = commission_rate();
"""), ("pair", """    let commission_rate = Decimal256::from_str(COMMISSION_RATE).unwrap();

    // EQUATION: A""", """    let commission_rate = commission_rate();

    // EQUATION: A"""), ("pair", """// User want to swap from 'offer' to 'ask'
""", """/// Commission rate OR Fee amount for framework
fn commission_rate() -> Decimal256 {
    Decimal256::permille(3)
}

// User want to swap from 'offer' to 'ask'
"""), ("pair", """/// Commission rate == 0.3%
const COMMISSION_RATE: &str = "0.003";
""", ""), ("pair", "use std::str::FromStr;\n", ""))
E("p3_offer_before_first", ("pair", """    let offer_amount: Uint256 = Uint256::one()
        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;

    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
""", """    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
    let remaining_ask = ask_pool - before_commission_deduction;
    let new_offer_pool = Uint256::one().multiply_ratio(cp, remaining_ask);
    let offer_amount: Uint256 = new_offer_pool - offer_pool;

"""))

SHARE_OLD = cut(PC, "    let share = if total_share == Uint128::zero() {", "    // prevent providing free token")
E("p3_share_fns", ("pair", SHARE_OLD, """    let share = match total_share.is_zero() {
        true => initial_share(&pair_info.requirements, &info.sender, &deposits)?,
        false => proportional_share(&deposits, &pools, total_share),
    };

"""), ("pair", "pub fn withdraw_liquidity(", """fn initial_share(
    requirements: &CreatePairRequirements,
    sender: &Addr,
    deposits: &[Uint128; 2],
) -> Result<Uint128, ContractError> {
    let [first, second] = *deposits;
    if !requirements.whitelist.iter().any(|a| a == sender) {
        return Err(StdError::generic_err("the sender is not in whitelist").into());
    }
    if first >= requirements.first_asset_minimum && second >= requirements.second_asset_minimum {
        let root = first.full_mul(second).isqrt();
        return Ok(Uint128::try_from(root).map_err(StdError::from)?);
    }
    Err(StdError::generic_err("the minimum deposit is not satisfied").into())
}

fn proportional_share(deposits: &[Uint128; 2], pools: &[Asset; 2], total_share: Uint128) -> Uint128 {
    let quote = |i: usize| deposits[i].multiply_ratio(total_share, pools[i].amount);
    quote(0).min(quote(1))
}

pub fn withdraw_liquidity("""), ("pair", "use haloswap::asset::{Asset, AssetInfo, PairInfo, PairInfoRaw};", "use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo, PairInfoRaw};"))
E("p3_req_method", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {
            return Err(ContractError::Std(StdError::generic_err(
                "the sender is not in whitelist",
            )));
        }

        // if the minimum amount of deposit is not satisfied, then return error
        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum
        {
            return Err(ContractError::Std(StdError::generic_err(
                "the minimum deposit is not satisfied",
            )));
        }
""", """        pair_info.requirements.check(&info.sender, &deposits)?;
"""), ("asset", """/// AssetInfo contract_addr is usually passed from the cw20 hook
""", """impl CreatePairRequirements {
    fn minimums(&self) -> [Uint128; 2] {
        [self.first_asset_minimum, self.second_asset_minimum]
    }

    pub fn check(&self, sender: &Addr, deposits: &[Uint128; 2]) -> StdResult<()> {
        if !self.whitelist.contains(sender) {
            return Err(StdError::generic_err("the sender is not in whitelist"));
        }
        for (deposit, minimum) in deposits.iter().zip(self.minimums()) {
            if *deposit < minimum {
                return Err(StdError::generic_err("the minimum deposit is not satisfied"));
            }
        }
        Ok(())
    }
}

/// AssetInfo contract_addr is usually passed from the cw20 hook
"""))
E("p3_supply_match", ("pair", "    let share = if total_share == Uint128::zero() {", "    let share = if total_share.u128() == 0u128 {"))
E("p3_two_loops", ("pair", cut(PC, "    let mut messages: Vec<CosmosMsg> = vec![];\n    for (i, pool)", "    // if the user provides the slippage tolerance"), """    for (pool, deposit) in pools.iter_mut().zip(deposits.iter()) {
        if pool.is_native_token() {
            pool.amount = pool.amount.checked_sub(*deposit)?;
        }
    }

    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(3);
    for (pool, deposit) in pools.iter().zip(&deposits) {
        let token = match &pool.info {
            AssetInfo::Token { contract_addr } => contract_addr.clone(),
            AssetInfo::NativeToken { .. } => continue,
        };
        let msg = Cw20ExecuteMsg::TransferFrom {
            owner: info.sender.clone().into_string(),
            recipient: env.contract.address.clone().into_string(),
            amount: *deposit,
        };
        messages.push(
            WasmMsg::Execute {
                contract_addr: token,
                msg: to_binary(&msg)?,
                funds: vec![],
            }
            .into(),
        );
    }

"""))
E("p3_deposit_fn", ("pair", cut(PC, "    let deposits: [Uint128; 2] = [\n        assets", "    // If the asset is a token, the value of pools[i]"), """    let deposits: [Uint128; 2] = [
        deposit_of(&assets, &pools[0].info),
        deposit_of(&assets, &pools[1].info),
    ];

"""), ("pair", "pub fn withdraw_liquidity(", """fn deposit_of(assets: &[Asset], info: &AssetInfo) -> Uint128 {
    for asset in assets {
        if asset.info.equal(info) {
            return asset.amount;
        }
    }
    panic!("Wrong asset info is given")
}

pub fn withdraw_liquidity("""))
E("p3_macro_exec", ("pair", """        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
        contract_addr: deps
            .api
            .addr_humanize(&pair_info.liquidity_token)?
            .to_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {
            recipient: receiver.to_string(),
            amount: share,
        })?,
        funds: vec![],
    }));
"""[4:], """    messages.push(exec_msg!(
        deps.api.addr_humanize(&pair_info.liquidity_token)?,
        Cw20ExecuteMsg::Mint {
            recipient: receiver.to_string(),
            amount: share,
        }
    ));
"""), ("pair", """            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: deps
                    .api
                    .addr_humanize(&pair_info.liquidity_token)?
                    .to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),
""", """            exec_msg!(
                deps.api.addr_humanize(&pair_info.liquidity_token)?,
                Cw20ExecuteMsg::Burn { amount }
            ),
"""), ("pair", "// version info for migration info\n", """macro_rules! exec_msg {
    ($contract:expr, $msg:expr) => {
        CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: $contract.to_string(),
            msg: to_binary(&$msg)?,
            funds: vec![],
        })
    };
}

// version info for migration info
"""))
E("p3_wasm_execute", ("pair", """            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: deps
                    .api
                    .addr_humanize(&pair_info.liquidity_token)?
                    .to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),
""", """            cosmwasm_std::wasm_execute(
                deps.api.addr_humanize(&pair_info.liquidity_token)?,
                &Cw20ExecuteMsg::Burn { amount },
                vec![],
            )?
            .into(),
"""))
E("p3_response_steps", ("pair", cut(PC, "    let mut messages: Vec<CosmosMsg> = vec![];\n    if !return_amount", "#[cfg_attr(not(feature = \"library\"), entry_point)]\npub fn query("), """    let mut response = Response::new()
        .add_attribute("action", "swap")
        .add_attribute("sender", &sender)
        .add_attribute("receiver", &receiver)
        .add_attribute("offer_asset", offer_asset.info.to_string())
        .add_attribute("ask_asset", ask_pool.info.to_string())
        .add_attribute("offer_amount", offer_amount)
        .add_attribute("return_amount", return_amount)
        .add_attribute("spread_amount", spread_amount)
        .add_attribute("commission_amount", commission_amount);
    if return_amount > Uint128::zero() {
        response = response.add_message(return_asset.into_msg(receiver)?);
    }
    Ok(response)
}

"""))
E("p3_slip_match", ("pair", cut(PC, "    if let Some(slippage_tolerance) = *slippage_tolerance {", "#[cfg_attr(not(feature = \"library\"), entry_point)]\npub fn migrate"), """    let tolerance: Decimal256 = match slippage_tolerance {
        None => return Ok(()),
        Some(t) => (*t).into(),
    };
    if tolerance > Decimal256::one() {
        return Err(StdError::generic_err("slippage_tolerance cannot bigger than 1").into());
    }
    let keep = Decimal256::one() - tolerance;

    let [d0, d1] = deposits.map(Uint256::from);
    let (r0, r1) = (Uint256::from(pools[0].amount), Uint256::from(pools[1].amount));
    for (a, b, x, y) in [(d0, d1, r0, r1), (d1, d0, r1, r0)] {
        let offered = Decimal256::from_ratio(a, b) * keep;
        if offered > Decimal256::from_ratio(x, y) {
            return Err(ContractError::MaxSlippageAssertion {});
        }
    }

    Ok(())
}

"""))
E("p3_spread_early", ("pair", cut(PC, "    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {", "fn assert_slippage_tolerance"), """    let max_spread: Decimal256 = match max_spread {
        Some(max_spread) => max_spread.into(),
        None => return Ok(()),
    };
    let (loss, basis) = match belief_price {
        Some(belief_price) => {
            let expected_return = offer_amount / Decimal256::from(belief_price);
            if return_amount >= expected_return {
                return Ok(());
            }
            (expected_return - return_amount, expected_return)
        }
        None => (spread_amount, return_amount + spread_amount),
    };

    if Decimal256::from_ratio(loss, basis) > max_spread {
        Err(ContractError::MaxSpreadAssertion {})
    } else {
        Ok(())
    }
}

"""))
E("p3_spread_zip", ("pair", "    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {", "    if let Some((max_spread, belief_price)) = max_spread.zip(belief_price) {"))
SCALE_OLD = cut(PC, "    let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =\n        match offer_decimal.cmp", "    if let (Some(max_spread), Some(belief_price))")
E("p3_spread_scale_fn", ("pair", SCALE_OLD, """    let scale = |amount: Uint128, from: u8, to: u8| -> Result<Uint256, ContractError> {
        if from >= to {
            return Ok(amount.into());
        }
        let factor = 10u64.pow((to - from).into());
        Ok(amount.checked_mul(Uint128::from(factor))?.into())
    };
    let offer_amount = scale(offer_asset.amount, offer_decimal, return_decimal)?;
    let return_amount = scale(return_asset.amount, return_decimal, offer_decimal)?;
    let spread_amount = scale(spread_amount, return_decimal, offer_decimal)?;

"""))
E("p3_module", ("contracts/halo-pair/src/limits.rs", None, "use crate::error::ContractError;\nuse bignumber::{Decimal256, Uint256};\nuse cosmwasm_std::{Decimal, StdError};\nuse cosmwasm_std::Uint128;\nuse haloswap::asset::Asset;\n\n" + cut(PC, "fn assert_slippage_tolerance", "#[cfg_attr(not(feature = \"library\"), entry_point)]\npub fn migrate").replace("fn assert_slippage", "pub(crate) fn assert_slippage")),
  ("pair", cut(PC, "fn assert_slippage_tolerance", "#[cfg_attr(not(feature = \"library\"), entry_point)]\npub fn migrate"), ""),
  ("pair", "use crate::error::ContractError;\n", "use crate::error::ContractError;\nuse crate::limits::assert_slippage_tolerance;\n"),
  ("contracts/halo-pair/src/lib.rs", "pub mod state;", "mod limits;\npub mod state;"))
E("p3_reorder_load", ("pair", """    for asset in assets.iter() {
        // check the balance of native token is sent with the message
        asset.assert_sent_native_token_balance(&info)?;
    }

    // get information of the pair
    let pair_info: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
""", """    // get information of the pair
    let pair_info: PairInfoRaw = PAIR_INFO.load(deps.storage)?;

    let [first, second] = &assets;
    first.assert_sent_native_token_balance(&info)?;
    second.assert_sent_native_token_balance(&info)?;
"""))
E("p3_supply_first", ("pair", """    // get the address of the LP token
    let liquidity_token = deps.api.addr_humanize(&pair_info.liquidity_token)?;

    // get total supply of the LP token
    let total_share = query_token_info(&deps.querier, liquidity_token)?.total_supply;
""", ""), ("pair", """    // query the information of the pair of assets
    let mut pools""", """    // get the address of the LP token and its total supply
    let liquidity_token = deps.api.addr_humanize(&pair_info.liquidity_token)?;
    let total_share = query_token_info(&deps.querier, liquidity_token.clone())?.total_supply;

    // query the information of the pair of assets
    let mut pools"""), ("pair", """        contract_addr: deps
            .api
            .addr_humanize(&pair_info.liquidity_token)?
            .to_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {""", """        contract_addr: liquidity_token.into_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {"""))
E("p3_recv_typed", ("pair", "    match from_binary(&cw20_msg.msg) {\n        Ok(Cw20HookMsg::Swap {", "    match from_binary::<Cw20HookMsg>(&cw20_msg.msg) {\n        Ok(Cw20HookMsg::Swap {"))
E("p3_recv_split", ("pair", """        Ok(Cw20HookMsg::WithdrawLiquidity {}) => {
            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            if deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token {
                return Err(ContractError::Unauthorized {});
            }

            let sender_addr = deps.api.addr_validate(cw20_msg.sender.as_str())?;
            withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount)
        }
""", """        Ok(Cw20HookMsg::WithdrawLiquidity {}) => receive_lp(deps, env, info, cw20_msg),
"""), ("pair", """/// This just stores the result for future query
""", """fn receive_lp(
    deps: DepsMut,
    env: Env,
    info: MessageInfo,
    Cw20ReceiveMsg { sender, amount, .. }: Cw20ReceiveMsg,
) -> Result<Response, ContractError> {
    let lp = PAIR_INFO.load(deps.storage)?.liquidity_token;
    let caller = deps.api.addr_canonicalize(info.sender.as_str())?;
    if caller == lp {
        let owner = deps.api.addr_validate(&sender)?;
        withdraw_liquidity(deps, env, info, owner, amount)
    } else {
        Err(ContractError::Unauthorized {})
    }
}

/// This just stores the result for future query
"""))
E("p3_wd_ratio_fn", ("pair", """            amount: a.amount * share_ratio,
""", """            amount: share_of(a.amount, share_ratio),
"""), ("pair", "pub fn withdraw_liquidity(", """fn share_of(reserve: Uint128, ratio: Decimal) -> Uint128 {
    ratio * reserve
}

pub fn withdraw_liquidity("""))
E("p3_wd_for", ("pair", cut(PC, "    let refund_assets: Vec<Asset> = pools\n", "    // update pool info"), """    let mut refund_assets: Vec<Asset> = Vec::new();
    for pool in pools {
        let Asset { info, amount } = pool;
        refund_assets.push(Asset {
            info,
            amount: amount * share_ratio,
        });
    }

"""))
E("p3_inst_update", ("pair", """    let pair_info: &PairInfoRaw = &PairInfoRaw {
        contract_addr: deps.api.addr_canonicalize(env.contract.address.as_str())?,
        liquidity_token: CanonicalAddr::from(vec![]),
        asset_infos: [
            msg.asset_infos[0].to_raw(deps.api)?,
            msg.asset_infos[1].to_raw(deps.api)?,
        ],
        asset_decimals: msg.asset_decimals,
        requirements: msg.requirements,
    };

    PAIR_INFO.save(deps.storage, pair_info)?;
""", """    let InstantiateMsg {
        asset_infos: [first, second],
        token_code_id,
        asset_decimals,
        requirements,
    } = msg;
    let asset_infos = [first.to_raw(deps.api)?, second.to_raw(deps.api)?];
    let contract_addr = deps
        .api
        .addr_canonicalize(env.contract.address.as_str())?;
    let pair_info = PairInfoRaw {
        asset_infos,
        contract_addr,
        liquidity_token: CanonicalAddr::from(Vec::<u8>::new()),
        asset_decimals,
        requirements,
    };
    PAIR_INFO.save(deps.storage, &pair_info)?;
"""), ("pair", "            code_id: msg.token_code_id,\n", "            code_id: token_code_id,\n"))
E("p3_inst_reply_on_success", ("pair", cut(PC, "    Ok(Response::new().add_submessage(SubMsg {\n        // Create LP token", "#[cfg_attr(not(feature = \"library\"), entry_point)]\npub fn execute("), """    let token = TokenInstantiateMsg {
        name: String::from("halo liquidity token"),
        symbol: String::from("uLP"),
        decimals: 6,
        initial_balances: Vec::new(),
        mint: Some(MinterResponse {
            minter: env.contract.address.into_string(),
            cap: None,
        }),
    };
    let create = cosmwasm_std::wasm_instantiate(msg.token_code_id, &token, vec![], "lp".to_string())?;

    Ok(Response::new().add_submessage(SubMsg::reply_on_success(create, INSTANTIATE_REPLY_ID)))
}

"""), ("pair", "Reply, ReplyOn, Response,", "Reply, Response,"))
E("p3_query_pool_lets", ("pair", cut(PC, "    let total_share: Uint128 = query_token_info(\n        &deps.querier,\n        deps.api.addr_humanize", "pub fn query_simulation"), """    let lp = deps.api.addr_humanize(&pair_info.liquidity_token)?;
    let lp_info = query_token_info(&deps.querier, lp)?;

    Ok(PoolResponse {
        total_share: lp_info.total_supply,
        assets,
    })
}

"""))

# ---------------------------------------------------------------- factory
FC = "contracts/halo-factory/src/contract.rs"
E("f3_config_update", ("factory", cut(FC, "    let mut config: Config = CONFIG.load(deps.storage)?;\n\n    // permission check", "    Ok(Response::new().add_attribute(\"action\", \"update_config\"))"), """    let api = deps.api;
    let caller = api.addr_canonicalize(info.sender.as_str())?;
    CONFIG.update(deps.storage, |config| -> StdResult<Config> {
        if caller != config.owner {
            return Err(StdError::generic_err("unauthorized"));
        }
        let new_owner = match owner {
            Some(owner) => {
                let addr = api.addr_validate(&owner)?;
                api.addr_canonicalize(addr.as_str())?
            }
            None => config.owner,
        };
        Ok(Config {
            owner: new_owner,
            token_code_id: token_code_id.unwrap_or(config.token_code_id),
            pair_code_id: pair_code_id.unwrap_or(config.pair_code_id),
        })
    })?;

"""))
E("f3_load_as_owner", ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let balance""", """    load_config_as_owner(deps.as_ref(), &info)?;

    let balance"""), ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id""", """    let config = load_config_as_owner(deps.as_ref(), &info)?;

    let code_id"""), ("factory", "// Anyone can execute it to create swap pair\n", """/// the configuration, if the caller is the owner
fn load_config_as_owner(deps: Deps, info: &MessageInfo) -> StdResult<Config> {
    let config = CONFIG.load(deps.storage)?;
    match deps.api.addr_canonicalize(info.sender.as_str())? == config.owner {
        true => Ok(config),
        false => Err(StdError::generic_err("unauthorized")),
    }
}

// Anyone can execute it to create swap pair
"""))
DEC_OLD = cut(FC, "    let asset_1_decimal =\n", "    let raw_infos = [")
E("f3_decimals_loop", ("factory", DEC_OLD, """    let mut asset_decimals = [0u8; 2];
    for (i, info) in asset_infos.iter().enumerate() {
        asset_decimals[i] = info
            .query_decimals(env.contract.address.clone(), &deps.querier)
            .map_err(|_| StdError::generic_err(format!("asset{} is invalid", i + 1)))?;
    }

"""), ("factory", "    let asset_decimals = [asset_1_decimal, asset_2_decimal];\n\n", ""))
E("f3_decimals_or", ("factory", DEC_OLD, """    let factory_addr = &env.contract.address;
    let decimals_of = |info: &AssetInfo, err: &str| {
        info.query_decimals(factory_addr.clone(), &deps.querier)
            .or_else(|_| Err(StdError::generic_err(err)))
    };
    let asset_1_decimal = decimals_of(&asset_infos[0], "asset1 is invalid")?;
    let asset_2_decimal = decimals_of(&asset_infos[1], "asset2 is invalid")?;

"""))
E("f3_same_asset_fn", ("factory", """    // don't allow to create pair with same token
    if asset_infos[0] == asset_infos[1] {
        return Err(StdError::generic_err("same asset"));
    }
""", """    // don't allow to create pair with same token
    let [first, second] = &asset_infos;
    if first.equal(second) {
        return Err(StdError::generic_err("same asset"));
    }
"""))
E("f3_drop_first_check", ("factory", """    // the same asset may be spelled in two ways, compare the canonical form as well
    if raw_infos[0] == raw_infos[1] {""", """    // the same asset may be spelled in two ways, compare the canonical form as well
    if raw_infos[0].equal(&raw_infos[1]) {"""))
E("f3_into_pair_info", ("factory", cut(FC, "    PAIRS.save(\n        deps.storage,\n        &tmp_pair_info.pair_key,", "    Ok(Response::new().add_attributes(vec![\n        (\"pair_contract_addr\""), """    let TmpPairInfo {
        pair_key,
        asset_infos,
        asset_decimals,
    } = tmp_pair_info;
    let record = PairInfoRaw {
        asset_infos,
        contract_addr: deps.api.addr_canonicalize(pair_contract.as_str())?,
        liquidity_token: deps
            .api
            .addr_canonicalize(pair_info.liquidity_token.as_str())?,
        asset_decimals,
        requirements: pair_info.requirements.clone(),
    };
    PAIRS.save(deps.storage, pair_key.as_slice(), &record)?;

"""))
E("f3_tmp_fn", ("fstate", "pub const TMP_PAIR_INFO", """impl TmpPairInfo {
    pub fn new(asset_infos: [AssetInfoRaw; 2], asset_decimals: [u8; 2]) -> Self {
        let pair_key = pair_key(&asset_infos);
        TmpPairInfo {
            pair_key,
            asset_infos,
            asset_decimals,
        }
    }
}

pub const TMP_PAIR_INFO"""), ("factory", cut(FC, "    let pair_key = pair_key(&raw_infos);\n    if PAIRS", "    Ok(Response::new()\n        .add_attributes(vec![\n            (\"action\", \"create_pair\")"), """    let tmp = TmpPairInfo::new(raw_infos, asset_decimals);
    if let Some(_existing) = PAIRS.may_load(deps.storage, &tmp.pair_key)? {
        return Err(StdError::generic_err("Pair already exists"));
    }
    TMP_PAIR_INFO.save(deps.storage, &tmp)?;

"""))
E("f3_key_refs", ("fstate", cut("contracts/halo-factory/src/state.rs", "pub fn pair_key(", "// settings for pagination"), """pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = asset_infos.iter().map(AssetInfoRaw::as_bytes).collect();
    parts.sort();
    parts.concat()
}

"""))
E("f3_key_push", ("fstate", cut("contracts/halo-factory/src/state.rs", "pub fn pair_key(", "// settings for pagination"), """pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let (a, b) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    let (low, high) = match a.cmp(b) {
        std::cmp::Ordering::Greater => (b, a),
        _ => (a, b),
    };
    let mut key = Vec::with_capacity(low.len() + high.len());
    key.extend_from_slice(low);
    key.extend_from_slice(high);
    key
}

"""))
E("f3_read_loop", ("fstate", cut("contracts/halo-factory/src/state.rs", "    PAIRS\n        .range(storage, start, None", "// the key of the provided pair"), """    let mut pairs = vec![];
    for item in PAIRS.range(storage, start, None, Order::Ascending) {
        if pairs.len() >= limit {
            break;
        }
        let (_key, raw) = item?;
        pairs.push(raw.to_normal(api)?);
    }
    Ok(pairs)
}

"""))
E("f3_read_cursor_fn", ("fstate", """    let start = calc_range_start(start_after).map(Bound::ExclusiveRaw);
""", """    let start = match &start_after {
        Some(infos) => Some(Bound::ExclusiveRaw(pair_key(infos))),
        None => None,
    };
"""), ("fstate", cut("contracts/halo-factory/src/state.rs", "// the key of the provided pair", "// key : asset info"), ""))
E("f3_attrs_each", ("factory", """        .add_attributes(vec![
            ("action", "create_pair"),
            ("pair", &format!("{}-{}", asset_infos[0], asset_infos[1])),
        ])
""", """        .add_attribute("action", "create_pair")
        .add_attribute(
            "pair",
            [asset_infos[0].to_string(), asset_infos[1].to_string()].join("-"),
        )
"""))
E("f3_attrs_attr", ("factory", """    Ok(Response::new().add_attributes(vec![
        ("action", "add_allow_native_token"),
        ("denom", &denom),
        ("decimals", &decimals.to_string()),
    ]))
""", """    let attributes = [
        cosmwasm_std::attr("action", "add_allow_native_token"),
        cosmwasm_std::attr("denom", denom),
        cosmwasm_std::attr("decimals", format!("{decimals}")),
    ];
    Ok(Response::new().add_attributes(attributes))
"""))
E("f3_ensure", ("factory", """    if balance.is_zero() {
        return Err(StdError::generic_err(
            "a balance greater than zero is required by the factory for verification",
        ));
    }
""", """    cosmwasm_std::ensure!(
        !balance.is_zero(),
        StdError::generic_err("a balance greater than zero is required by the factory for verification")
    );
"""))
E("f3_migrate_match", ("factory", """    let code_id = code_id.unwrap_or(config.pair_code_id);

    Ok(
        Response::new().add_message(CosmosMsg::Wasm(WasmMsg::Migrate {
            contract_addr: contract,
            new_code_id: code_id,
            msg: to_binary(&PairMigrateMsg {})?,
        })),
    )
""", """    let new_code_id = if let Some(id) = code_id {
        id
    } else {
        config.pair_code_id
    };
    let migrate_msg = WasmMsg::Migrate {
        contract_addr: contract,
        new_code_id,
        msg: to_binary(&PairMigrateMsg {})?,
    };

    let mut response = Response::default();
    response.messages.push(SubMsg::new(migrate_msg));
    Ok(response)
"""))
E("f3_query_bind", ("factory", """        QueryMsg::Config {} => to_binary(&query_config(deps)?),
        QueryMsg::Pair { asset_infos } => to_binary(&query_pair(deps, asset_infos)?),
""", """        QueryMsg::Config {} => query_config(deps).and_then(|r| to_binary(&r)),
        QueryMsg::Pair { asset_infos } => {
            let pair = query_pair(deps, asset_infos)?;
            to_binary(&pair)
        }
"""))
E("f3_raw_infos_fn", ("factory", """    let raw_infos = [
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ];
""", """    let raw_infos = to_raw_infos(&asset_infos, deps.api)?;
"""), ("factory", """    let pair_key = pair_key(&[
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ]);
    let pair_info""", """    let pair_key = pair_key(&to_raw_infos(&asset_infos, deps.api)?);
    let pair_info"""), ("factory", "// Anyone can execute it to create swap pair\n", """fn to_raw_infos(
    infos: &[AssetInfo; 2],
    api: &dyn cosmwasm_std::Api,
) -> StdResult<[haloswap::asset::AssetInfoRaw; 2]> {
    let [a, b] = infos;
    Ok([a.to_raw(api)?, b.to_raw(api)?])
}

// Anyone can execute it to create swap pair
"""))

# ---------------------------------------------------------------- router
RC = "contracts/halo-router/src/contract.rs"
MSGS_OLD = cut(RC, "    let mut operation_index = 0;\n", "    // Execute minimum amount assertion")
E("r3_peekable", ("router", MSGS_OLD, """    let mut messages: Vec<CosmosMsg> = Vec::new();
    let mut hops = operations.into_iter().peekable();
    while let Some(operation) = hops.next() {
        let recipient = if hops.peek().is_none() { Some(to.to_string()) } else { None };
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                operation,
                to: recipient,
            })?,
        }));
    }

"""))
E("r3_zip_range", ("router", MSGS_OLD, """    let router = env.contract.address.to_string();
    let mut messages: Vec<CosmosMsg> = operations
        .iter()
        .zip(1..)
        .map(|(op, n)| {
            let hop = ExecuteMsg::ExecuteSwapOperation {
                operation: op.clone(),
                to: (n == operations_len).then(|| to.to_string()),
            };
            self_call(&router, &hop)
        })
        .collect::<StdResult<_>>()?;

"""), ("router", """        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::AssertMinimumReceive {
                asset_info: target_asset_info,
                prev_balance: receiver_balance,
                minimum_receive,
                receiver: to.to_string(),
            })?,
        }))
""", """        messages.push(self_call(
            &router,
            &ExecuteMsg::AssertMinimumReceive {
                asset_info: target_asset_info,
                prev_balance: receiver_balance,
                minimum_receive,
                receiver: to.to_string(),
            },
        )?)
"""), ("router", "fn assert_minium_receive(", """fn self_call<T: serde::Serialize>(router: &str, msg: &T) -> StdResult<CosmosMsg> {
    Ok(CosmosMsg::Wasm(WasmMsg::Execute {
        contract_addr: router.to_string(),
        funds: vec![],
        msg: to_binary(msg)?,
    }))
}

fn assert_minium_receive("""))
E("r3_response_fold", ("router", "    Ok(Response::new().add_messages(messages))\n}\n\nfn assert_minium", """    let response = messages
        .into_iter()
        .fold(Response::new(), |response, msg| response.add_message(msg));
    Ok(response)
}

fn assert_minium"""))
E("r3_empty_method", ("router", """    let operations_len = operations.len();
    if operations_len == 0 {
        return Err(StdError::generic_err("must provide operations"));
    }

    // Assert the operations""", """    if operations.is_empty() {
        return Err(StdError::generic_err("must provide operations"));
    }
    let operations_len = operations.len();

    // Assert the operations"""))
E("r3_to_unwrap", ("router", "    let to = if let Some(to) = to { to } else { sender };\n", "    let to = to.unwrap_or(sender);\n"))
E("r3_pair_addr", ("router", """                let pair_info: PairInfo = query_pair_info(
                    &deps.querier,
                    halo_factory.clone(),
                    &[offer_asset_info.clone(), ask_asset_info.clone()],
                )?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    Addr::unchecked(pair_info.contract_addr),
                    &Asset {""", """                let pair = pair_address(deps, &halo_factory, &offer_asset_info, &ask_asset_info)?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    pair,
                    &Asset {"""), ("router", """    let pair_info: PairInfo = query_pair_info(
        &deps.querier,
        factory,
        &[offer_asset_info, ask_asset_info.clone()],
    )?;

    let res = reverse_simulate(
        &deps.querier,
        Addr::unchecked(pair_info.contract_addr),
""", """    let pair = pair_address(deps, &factory, &offer_asset_info, &ask_asset_info)?;

    let res = reverse_simulate(
        &deps.querier,
        pair,
"""), ("router", "fn reverse_simulate_return_amount(", """fn pair_address(
    deps: Deps,
    factory: &Addr,
    offer: &AssetInfo,
    ask: &AssetInfo,
) -> StdResult<Addr> {
    let infos = [offer.clone(), ask.clone()];
    query_pair_info(&deps.querier, factory.clone(), &infos)
        .map(|PairInfo { contract_addr, .. }| Addr::unchecked(contract_addr))
}

fn reverse_simulate_return_amount("""))
E("r3_assert_vec", ("router", cut(RC, "    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();", "#[test]\nfn test_invalid_operations"), """    let mut open: Vec<String> = vec![];
    for operation in operations {
        let SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } = operation;
        let offered = offer_asset_info.to_string();
        let asked = ask_asset_info.to_string();
        open.retain(|name| name != &offered);
        if !open.contains(&asked) {
            open.push(asked);
        }
    }

    match open.len() {
        1 => Ok(()),
        _ => Err(StdError::generic_err(
            "invalid operations; multiple output token",
        )),
    }
}

"""), ("router", "use std::collections::HashMap;\n", ""))
E("r3_assert_set", ("router", cut(RC, "    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();", "#[test]\nfn test_invalid_operations"), """    let open = operations.iter().fold(BTreeSet::new(), |mut open, operation| {
        match operation {
            SwapOperation::HaloSwap { offer_asset_info, ask_asset_info } => {
                open.remove(&offer_asset_info.to_string());
                open.insert(ask_asset_info.to_string());
            }
        }
        open
    });

    if open.len() != 1 {
        return Err(StdError::generic_err("invalid operations; multiple output token"));
    }
    Ok(())
}

"""), ("router", "use std::collections::HashMap;\n", "use std::collections::BTreeSet;\n"))
E("r3_sim_index", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
""", """    let mut offer_amount = offer_amount;
    for i in 0..operations_len {
        match operations[i].clone() {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
"""))
E("r3_rev_reverse", ("router", """    for operation in operations.into_iter().rev() {
""", """    let mut operations = operations;
    operations.reverse();
    for operation in operations {
"""), ("router", """    let config: Config = CONFIG.load(deps.storage)?;

    let operations_len = operations.len();
    if operations_len == 0 {
        return Err(StdError::generic_err("must provide operations"));
    }

    let mut ask_amount""", """    if operations.is_empty() {
        return Err(StdError::generic_err("must provide operations"));
    }

    let config: Config = CONFIG.load(deps.storage)?;

    let mut ask_amount"""))
E("r3_rev_pop", ("router", """    for operation in operations.into_iter().rev() {
""", """    let mut operations = operations;
    while let Some(operation) = operations.pop() {
"""))
E("r3_min_ensure", ("router", """    if swap_amount < minium_receive {
        return Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {}, swap amount: {}",
            minium_receive, swap_amount
        )));
    }

    Ok(Response::default())
""", """    cosmwasm_std::ensure!(
        swap_amount >= minium_receive,
        StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {minium_receive}, swap amount: {swap_amount}"
        ))
    );

    Ok(Response::new())
"""))
E("r3_min_checked", ("router", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;

    if swap_amount < minium_receive {
        return""", """    let swap_amount = if receiver_balance < prev_balance {
        return Err(StdError::generic_err("the balance has decreased"));
    } else {
        receiver_balance - prev_balance
    };

    if swap_amount < minium_receive {
        return"""))
E("r3_execute_struct", ("router", """        ExecuteMsg::ExecuteSwapOperation { operation, to } => {
            let api = deps.api;
            execute_swap_operation(
                deps,
                env,
                info,
                operation,
                optional_addr_validate(api, to)?.map(|v| v.to_string()),
            )
        }
""", """        ExecuteMsg::ExecuteSwapOperation { operation, to } => {
            let recipient = optional_addr_validate(deps.api, to)?.map(Addr::into_string);
            execute_swap_operation(deps, env, info, operation, recipient)
        }
"""))
E("o3_ensure_eq", ("ops", """    if env.contract.address != info.sender {
        return Err(StdError::generic_err("unauthorized"));
    }
""", """    cosmwasm_std::ensure_eq!(
        info.sender,
        env.contract.address,
        StdError::generic_err("unauthorized")
    );
"""))
E("o3_hook_once", ("ops", cut("contracts/halo-router/src/operations.rs", "    match offer_asset.info.clone() {\n        AssetInfo::NativeToken { denom } => Ok(CosmosMsg", "\x00") if 0 else R("contracts/halo-router/src/operations.rs")[R("contracts/halo-router/src/operations.rs").index("    match offer_asset.info.clone() {\n        AssetInfo::NativeToken { denom } => Ok(CosmosMsg"):], """    let Asset { info, amount } = offer_asset;
    let hook = to_binary(&PairHookMsg::Swap {
        belief_price: None,
        max_spread,
        to,
    })?;

    let pair_contract = pair_contract.into_string();
    let (contract_addr, msg, funds) = match info {
        AssetInfo::NativeToken { denom } => (pair_contract, hook, vec![Coin { denom, amount }]),
        AssetInfo::Token { contract_addr } => {
            let send = Cw20ExecuteMsg::Send {
                contract: pair_contract,
                amount,
                msg: hook,
            };
            (contract_addr, to_binary(&send)?, vec![])
        }
    };
    Ok(WasmMsg::Execute {
        contract_addr,
        msg,
        funds,
    }
    .into())
}
"""))
E("o3_amount_fn", ("ops", """            let amount = match offer_asset_info.clone() {
                AssetInfo::NativeToken { denom } => {
                    query_balance(&deps.querier, env.contract.address, denom)?
                }
                AssetInfo::Token { contract_addr } => query_token_balance(
                    &deps.querier,
                    deps.api.addr_validate(contract_addr.as_str())?,
                    env.contract.address,
                )?,
            };
""", """            let amount = own_balance(deps.as_ref(), &env, &offer_asset_info)?;
"""), ("ops", "pub fn asset_into_swap_msg(", """fn own_balance(deps: Deps, env: &Env, asset: &AssetInfo) -> StdResult<cosmwasm_std::Uint128> {
    let router = env.contract.address.clone();
    if let AssetInfo::Token { contract_addr } = asset {
        let token = deps.api.addr_validate(contract_addr)?;
        return query_token_balance(&deps.querier, token, router);
    }
    query_balance(&deps.querier, router, asset.to_string())
}

pub fn asset_into_swap_msg("""))

# ---------------------------------------------------------------- token, packages
TK = "packages/haloswap/src/token.rs"
E("t3_symbol_alpha", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
""", """    bytes.iter().all(|b| *b == b'-' || b.is_ascii_alphabetic())
"""))
E("t3_name_range", ("token", """    let bytes = name.as_bytes();
    if bytes.len() < 3 || bytes.len() > 50 {
        return false;
    }
    true
""", """    (3..=50).contains(&name.len())
"""))
E("t3_validate_chain", ("token", cut(TK, "        // Check name, symbol, decimals\n", "    }\n}\n\nfn is_valid_name"), """        let checks = [
            (is_valid_name(&self.name), "Name is not in the expected format (3-50 UTF-8 bytes)"),
            (
                is_valid_symbol(&self.symbol),
                "Ticker symbol is not in expected format [a-zA-Z\\\\-]{3,12}",
            ),
            (self.decimals <= 18, "Decimals must not exceed 18"),
        ];
        match checks.iter().find(|(valid, _)| !valid) {
            Some((_, message)) => Err(StdError::generic_err(*message)),
            None => Ok(()),
        }
"""))
E("t3_cap_match", ("tokc", """    if let Some(limit) = msg.get_cap() {
        if total_supply > limit {
            return Err(ContractError::Std(StdError::generic_err(
                "Initial supply greater than cap",
            )));
        }
    }

    let mint = match msg.mint {
        Some(m) => Some(MinterData {
            minter: deps.api.addr_validate(&m.minter)?,
            cap: m.cap,
        }),
        None => None,
    };
""", """    match msg.get_cap() {
        Some(limit) if limit < total_supply => {
            return Err(StdError::generic_err("Initial supply greater than cap").into());
        }
        _ => {}
    }

    let mint = msg
        .mint
        .map(|m| -> StdResult<MinterData> {
            Ok(MinterData {
                minter: deps.api.addr_validate(m.minter.as_str())?,
                cap: m.cap,
            })
        })
        .transpose()?;
"""))
E("a3_identifier", ("asset", """        match self {
            AssetInfo::NativeToken { denom } => write!(f, "{}", denom),
            AssetInfo::Token { contract_addr } => write!(f, "{}", contract_addr),
        }
    }
}

impl AssetInfo {
""", """        f.write_str(self.identifier())
    }
}

impl AssetInfo {
    pub fn identifier(&self) -> &str {
        match self {
            AssetInfo::NativeToken { denom: id } | AssetInfo::Token { contract_addr: id } => id,
        }
    }

"""))
E("a3_sent_fn", ("asset", cut("packages/haloswap/src/asset.rs", "        if let AssetInfo::NativeToken { denom } = &self.info {\n            match message_info", "    pub fn to_raw(&self, api: &dyn Api) -> StdResult<AssetRaw>"), """        let denom = match &self.info {
            AssetInfo::NativeToken { denom } => denom,
            AssetInfo::Token { .. } => return Ok(()),
        };
        let sent = message_info
            .funds
            .iter()
            .find(|coin| &coin.denom == denom)
            .map_or(Uint128::zero(), |coin| coin.amount);
        if sent != self.amount {
            return Err(StdError::generic_err(
                "Native token balance mismatch between the argument and the transferred",
            ));
        }
        Ok(())
    }

"""))
E("a3_to_raw_delegate", ("asset", """            info: match &self.info {
                AssetInfo::NativeToken { denom } => AssetInfoRaw::NativeToken {
                    denom: denom.to_string(),
                },
                AssetInfo::Token { contract_addr } => AssetInfoRaw::Token {
                    contract_addr: api.addr_canonicalize(contract_addr.as_str())?,
                },
            },
            amount: self.amount,
""", """            info: self.info.to_raw(api)?,
            amount: self.amount,
"""))
E("a3_pools_try", ("asset", cut("packages/haloswap/src/asset.rs", "        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;", "\x00") if 0 else R("packages/haloswap/src/asset.rs")[R("packages/haloswap/src/asset.rs").index("        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;"):], """        let pool = |raw: &AssetInfoRaw| -> StdResult<Asset> {
            let info = raw.to_normal(api)?;
            let amount = info.query_pool(querier, api, contract_addr.clone())?;
            Ok(Asset { info, amount })
        };
        let [first, second] = &self.asset_infos;
        Ok([pool(first)?, pool(second)?])
    }
}
"""))
E("a3_into_msg_early", ("asset", cut("packages/haloswap/src/asset.rs", "        let amount = self.amount;\n\n        match &self.info {", "    pub fn into_submsg"), """        let Asset { info, amount } = self;
        let recipient = recipient.into_string();
        if let AssetInfo::NativeToken { denom } = info {
            return Ok(BankMsg::Send {
                to_address: recipient,
                amount: cosmwasm_std::coins(amount.u128(), denom),
            }
            .into());
        }
        let transfer = Cw20ExecuteMsg::Transfer { recipient, amount };
        Ok(WasmMsg::Execute {
            contract_addr: info.to_string(),
            msg: to_binary(&transfer)?,
            funds: vec![],
        }
        .into())
    }

"""))
E("a3_info_from_raw", ("asset", """    pub fn to_normal(&self, api: &dyn Api) -> StdResult<AssetInfo> {
        match self {
            AssetInfoRaw::NativeToken { denom } => Ok(AssetInfo::NativeToken {
                denom: denom.to_string(),
            }),
            AssetInfoRaw::Token { contract_addr } => Ok(AssetInfo::Token {
                contract_addr: api.addr_humanize(contract_addr)?.to_string(),
            }),
        }
    }
""", """    pub fn to_normal(&self, api: &dyn Api) -> StdResult<AssetInfo> {
        let info = match self {
            AssetInfoRaw::NativeToken { denom } => AssetInfo::NativeToken {
                denom: denom.clone(),
            },
            AssetInfoRaw::Token { contract_addr } => {
                let human = api.addr_humanize(contract_addr)?;
                AssetInfo::Token {
                    contract_addr: human.into_string(),
                }
            }
        };
        Ok(info)
    }
"""))
QR = "packages/haloswap/src/querier.rs"
E("q3_bank", ("querier", """    let balance: BalanceResponse = querier.query(&QueryRequest::Bank(BankQuery::Balance {
        address: account_addr.to_string(),
        denom,
    }))?;
    Ok(balance.amount.amount)
""", """    querier
        .query_balance(account_addr, denom)
        .map(|coin| coin.amount)
"""), ("querier", "to_binary, Addr, AllBalanceResponse, BalanceResponse, BankQuery,", "to_binary, Addr, AllBalanceResponse, BankQuery,"))
E("q3_smart_all", ("querier", R(QR)[R(QR).index("    querier.query(&QueryRequest::Wasm(WasmQuery::Smart {\n        contract_addr: factory_contract.to_string(),\n        msg: to_binary(&FactoryQueryMsg::Pair {"):], """    querier.query_wasm_smart(
        factory_contract,
        &FactoryQueryMsg::Pair {
            asset_infos: asset_infos.clone(),
        },
    )
}

pub fn simulate(
    querier: &QuerierWrapper,
    pair_contract: Addr,
    offer_asset: &Asset,
) -> StdResult<SimulationResponse> {
    let offer_asset = offer_asset.clone();
    querier.query_wasm_smart(pair_contract, &PairQueryMsg::Simulation { offer_asset })
}

pub fn reverse_simulate(
    querier: &QuerierWrapper,
    pair_contract: Addr,
    ask_asset: &Asset,
) -> StdResult<ReverseSimulationResponse> {
    let ask_asset = ask_asset.clone();
    querier.query_wasm_smart(pair_contract, &PairQueryMsg::ReverseSimulation { ask_asset })
}

pub fn query_pair_info_from_pair(
    querier: &QuerierWrapper,
    pair_contract: Addr,
) -> StdResult<PairInfo> {
    querier.query_wasm_smart(pair_contract.as_str(), &PairQueryMsg::Pair {})
}
"""))
E("q3_into_request", ("querier", """    let token_info: TokenInfoResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::TokenInfo {})?,
    }))?;

    Ok(token_info)
""", """    let request = WasmQuery::Smart {
        contract_addr: contract_addr.into_string(),
        msg: to_binary(&Cw20QueryMsg::TokenInfo {})?,
    };
    querier.query::<TokenInfoResponse>(&request.into())
"""))
E("q3_cw20_helper", ("querier", """    let token_info: TokenInfoResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::TokenInfo {})?,
    }))?;

    Ok(token_info)
""", """    smart(querier, &contract_addr, &Cw20QueryMsg::TokenInfo {})
"""), ("querier", "pub fn query_native_decimals(", """fn smart<Q, R>(querier: &QuerierWrapper, contract: &Addr, msg: &Q) -> StdResult<R>
where
    Q: cosmwasm_schema::serde::Serialize,
    R: cosmwasm_schema::serde::de::DeserializeOwned,
{
    let msg = to_binary(msg)?;
    let contract_addr = contract.to_string();
    querier.query(&QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }))
}

pub fn query_native_decimals("""))
E("m3_from_str_split_once", ("math", cut("packages/bignumber/src/math.rs", "        let parts: Vec<&str> = input.split('.').collect();", "impl fmt::Display for Decimal256"), """        let mut parts = input.split('.');
        let whole_part = parts.next().unwrap_or_default();
        let fractional_part = parts.next();
        if parts.next().is_some() {
            return Err(StdError::generic_err("Unexpected number of dots"));
        }

        let whole = U256::from_dec_str(whole_part)
            .map_err(|_| StdError::generic_err("Error parsing whole"))?;
        let mut atomics = whole * Decimal256::DECIMAL_FRACTIONAL;
        if let Some(digits) = fractional_part {
            let fractional = U256::from_dec_str(digits)
                .map_err(|_| StdError::generic_err("Error parsing fractional"))?;
            if digits.len() > 18 {
                return Err(StdError::generic_err(
                    "Cannot parse more than 18 fractional digits",
                ));
            }
            let exp = 18 - digits.len();
            atomics = atomics + fractional * U256::from(10).pow(exp.into());
        }
        Ok(Decimal256(atomics))
    }
}

"""))
E("m3_display_pad", ("math", """            let fractional_string = fractional.to_string();
            let fractional_string = "0".repeat(18 - fractional_string.len()) + &fractional_string;

            f.write_str(&whole.to_string())?;
            f.write_char('.')?;
            f.write_str(fractional_string.trim_end_matches('0'))?;

            Ok(())
""", """            let digits = format!("{:0>18}", fractional.to_string());
            write!(f, "{}.{}", whole, digits.trim_end_matches('0'))
"""), ("math", "use std::fmt::{self, Write};", "use std::fmt;"))
E("m3_ops_delegate", ("math", """        self.multiply_ratio(rhs.0, Decimal256::DECIMAL_FRACTIONAL)
""", """        Uint256(self.0 * rhs.0 / Decimal256::DECIMAL_FRACTIONAL)
"""))
E("m3_add_assign", ("math", """    fn add_assign(&mut self, other: Self) {
        self.0 = self.0 + other.0;
    }
""", """    fn add_assign(&mut self, other: Self) {
        *self = *self + other;
    }
"""))
E("m3_assert_fn", ("math", """impl From<Uint256> for u128 {
    fn from(n: Uint256) -> Self {
        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)
    }
}
""", """impl From<Uint256> for u128 {
    fn from(n: Uint256) -> Self {
        let [low, hi, third, fourth] = n.0 .0;
        assert!(third == 0 && fourth == 0);
        (u128::from(hi) << 64) | u128::from(low)
    }
}
"""))
E("m3_sub_ge", ("math", """        assert!(self.0 >= rhs.0);
        Uint256(self.0 - rhs.0)
""", """        if self < rhs {
            panic!("attempt to subtract with overflow");
        }
        Uint256(self.0 - rhs.0)
"""))
