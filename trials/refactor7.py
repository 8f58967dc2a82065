"""Seventh set of behaviour-preserving edits: contracts, larger units (contexts, index arithmetic, uniform scaling, new modules)."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)
SRC = {k: open("/repo/" + p).read() for k, p in (("pair", "contracts/halo-pair/src/contract.rs"), ("factory", "contracts/halo-factory/src/contract.rs"),
                                                ("router", "contracts/halo-router/src/contract.rs"))}
def cut(f, a, b, incl=True):
    s = SRC[f]; i = s.index(a); j = s.index(b, i) + (len(b) if incl else 0)
    return s[i:j]

SIM = cut("pair", "    let offer_pool: Asset;\n    let ask_pool: Asset;\n    if offer_asset.info", "    Ok(SimulationResponse {", False)
REV = cut("pair", "    let offer_pool: Asset;\n    let ask_pool: Asset;\n    if ask_asset.info", "    Ok(ReverseSimulationResponse {", False)
SWAP = cut("pair", "    let offer_pool: Asset;\n    let ask_pool: Asset;\n\n    let offer_decimal", "    let offer_amount = offer_asset.amount;\n", False)
SIDE = """fn side_of(pools: &[Asset; 2], info: &AssetInfo) -> Result<usize, ContractError> {
    pools
        .iter()
        .position(|pool| info.equal(&pool.info))
        .ok_or(ContractError::AssetMismatch {})
}

pub fn amount_of("""
E("p7_position", ("pair", SIM, """    let offer = side_of(&pools, &offer_asset.info)?;
    let (return_amount, spread_amount, commission_amount) = compute_swap(
        pools[offer].amount,
        pools[1 - offer].amount,
        offer_asset.amount,
    );

"""), ("pair", REV, """    let ask = side_of(&pools, &ask_asset.info)?;
    let (offer_amount, spread_amount, commission_amount) =
        compute_offer_amount(pools[1 - ask].amount, pools[ask].amount, ask_asset.amount);

"""), ("pair", SWAP, """    let offer = side_of(&pools, &offer_asset.info)?;
    let ask = 1 - offer;
    let offer_pool = Asset {
        amount: pools[offer].amount.checked_sub(offer_asset.amount)?,
        info: pools[offer].info.clone(),
    };
    let ask_pool = pools[ask].clone();
    let (offer_decimal, ask_decimal) =
        (pair_info.asset_decimals[offer], pair_info.asset_decimals[ask]);

"""), ("pair", "pub fn amount_of(", SIDE))
E("p7_swap_array", ("pair", SWAP, """    let mut sides = [
        (pools[0].clone(), pair_info.asset_decimals[0]),
        (pools[1].clone(), pair_info.asset_decimals[1]),
    ];
    if !offer_asset.info.equal(&sides[0].0.info) {
        sides.reverse();
    }
    let [(mut offer_pool, offer_decimal), (ask_pool, ask_decimal)] = sides;
    if !offer_asset.info.equal(&offer_pool.info) {
        return Err(ContractError::AssetMismatch {});
    }
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;

"""))
E("p7_swap_into_iter", ("pair", SIM, """    let (matching, others): (Vec<Asset>, Vec<Asset>) = pools
        .iter()
        .cloned()
        .partition(|pool| pool.info.equal(&offer_asset.info));
    let (offer_pool, ask_pool) = match (matching.first(), others.first()) {
        (Some(offer_pool), Some(ask_pool)) => (offer_pool, ask_pool),
        (Some(_), None) => (&pools[0], &pools[1]),
        (None, _) => return Err(ContractError::AssetMismatch {}),
    };

    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

"""))
E("p7_scales", ("pair", cut("pair", "    let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =\n        match offer_decimal.cmp", "    if let (Some(max_spread), Some(belief_price))", False),
"""    let scale = |diff: u8| Uint128::from(10u64.pow(u32::from(diff)));
    let (offer_scale, return_scale) = if offer_decimal > return_decimal {
        (Uint128::one(), scale(offer_decimal - return_decimal))
    } else if offer_decimal < return_decimal {
        (scale(return_decimal - offer_decimal), Uint128::one())
    } else {
        (Uint128::one(), Uint128::one())
    };
    let offer_amount: Uint256 = offer_asset.amount.checked_mul(offer_scale)?.into();
    let return_amount: Uint256 = return_asset.amount.checked_mul(return_scale)?.into();
    let spread_amount: Uint256 = spread_amount.checked_mul(return_scale)?.into();

"""), ("pair", "use std::cmp::Ordering;\n", ""))
E("p7_scale_max", ("pair", cut("pair", "    let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =\n        match offer_decimal.cmp", "    if let (Some(max_spread), Some(belief_price))", False),
"""    // everything in units of the finer of the two assets
    let common = offer_decimal.max(return_decimal);
    let rescale = |amount: Uint128, decimals: u8| -> Result<Uint256, ContractError> {
        let factor = 10u64.pow((common - decimals).into());
        Ok(amount.checked_mul(Uint128::from(factor))?.into())
    };
    let offer_amount = rescale(offer_asset.amount, offer_decimal)?;
    let return_amount = rescale(return_asset.amount, return_decimal)?;
    let spread_amount = rescale(spread_amount, return_decimal)?;

"""), ("pair", "use std::cmp::Ordering;\n", ""))
E("p7_max_minus", ("pair", """    let spread_amount: Uint256 = if ideal_amount > return_amount {
        ideal_amount - return_amount
    } else {
        Uint256::zero()
    };
""", """    let spread_amount: Uint256 = std::cmp::max(ideal_amount, return_amount) - return_amount;
"""), ("pair", """        let spread_amount = if expected_return > return_amount {
            expected_return - return_amount
        } else {
            Uint256::zero()
        };

        if return_amount < expected_return
            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
        {
            return Err(ContractError::MaxSpreadAssertion {});
        }
""", """        if return_amount < expected_return {
            let missing = expected_return - return_amount;
            if Decimal256::from_ratio(missing, expected_return) > max_spread {
                return Err(ContractError::MaxSpreadAssertion {});
            }
        }
"""))
E("p7_limit_match", ("pair", cut("pair", "    if let (Some(max_spread), Some(belief_price))", "    Ok(())\n}\n\nfn assert_slippage", False), """    let max_spread: Decimal256 = match max_spread {
        Some(max_spread) => max_spread.into(),
        None => return Ok(()),
    };
    let exceeded = match belief_price.map(Decimal256::from) {
        Some(price) => {
            let expected_return = offer_amount / price;
            return_amount < expected_return
                && Decimal256::from_ratio(expected_return - return_amount, expected_return)
                    > max_spread
        }
        None => {
            Decimal256::from_ratio(spread_amount, return_amount + spread_amount) > max_spread
        }
    };
    if exceeded {
        return Err(ContractError::MaxSpreadAssertion {});
    }

"""))
E("p7_slippage_any", ("pair", cut("pair", "        if Decimal256::from_ratio(deposits[0], deposits[1]) * one_minus", "            return Err(ContractError::MaxSlippageAssertion {});\n        }\n"), """        let dropped = [(0usize, 1usize), (1, 0)].iter().any(|&(a, b)| {
            let deposited = Decimal256::from_ratio(deposits[a], deposits[b]);
            deposited * one_minus_slippage_tolerance > Decimal256::from_ratio(pools[a], pools[b])
        });
        if dropped {
            return Err(ContractError::MaxSlippageAssertion {});
        }
"""))
E("p7_slippage_loop", ("pair", cut("pair", "    if let Some(slippage_tolerance) = *slippage_tolerance {", "    Ok(())\n}\n\n#[cfg_attr", False), """    let slippage_tolerance: Decimal256 = match slippage_tolerance {
        Some(value) => Decimal256::from(*value),
        None => return Ok(()),
    };
    // the slippage tolerance cannot be greater than 100%
    if slippage_tolerance > Decimal256::one() {
        return Err(ContractError::Std(StdError::generic_err(
            "slippage_tolerance cannot bigger than 1",
        )));
    }
    let kept = Decimal256::one() - slippage_tolerance;
    for i in 0..2 {
        let j = (i + 1) % 2;
        let deposit_price = Decimal256::from_ratio(Uint256::from(deposits[i]), Uint256::from(deposits[j]));
        let pool_price =
            Decimal256::from_ratio(Uint256::from(pools[i].amount), Uint256::from(pools[j].amount));
        if deposit_price * kept > pool_price {
            return Err(ContractError::MaxSlippageAssertion {});
        }
    }

"""))
E("p7_deposits_map", ("pair", cut("pair", "    let deposits: [Uint128; 2] = [\n", "            .expect(\"Wrong asset info is given\"),\n    ];\n"), """    let deposits: [Uint128; 2] = [0, 1].map(|i: usize| {
        assets
            .iter()
            .find_map(|a| a.info.equal(&pools[i].info).then_some(a.amount))
            .expect("Wrong asset info is given")
    });
"""))
E("p7_deposits_order", ("pair", cut("pair", "    let deposits: [Uint128; 2] = [\n", "            .expect(\"Wrong asset info is given\"),\n    ];\n"), """    let deposit_of = |pool: &Asset| -> Uint128 {
        for asset in &assets {
            if asset.info.equal(&pool.info) {
                return asset.amount;
            }
        }
        panic!("Wrong asset info is given")
    };
    let deposits: [Uint128; 2] = [deposit_of(&pools[0]), deposit_of(&pools[1])];
"""))
E("p7_collect_split", ("pair", cut("pair", "    let mut messages: Vec<CosmosMsg> = vec![];\n    for (i, pool) in pools.iter_mut()", "            pool.amount = pool.amount.checked_sub(deposits[i])?;\n        }\n    }\n"), """    let mut messages: Vec<CosmosMsg> = pools
        .iter()
        .zip(deposits.iter())
        .filter_map(|(pool, deposit)| match &pool.info {
            AssetInfo::Token { contract_addr } => Some((contract_addr, deposit)),
            AssetInfo::NativeToken { .. } => None,
        })
        .map(|(contract_addr, deposit)| {
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.clone(),
                msg: to_binary(&Cw20ExecuteMsg::TransferFrom {
                    owner: info.sender.to_string(),
                    recipient: env.contract.address.to_string(),
                    amount: *deposit,
                })?,
                funds: vec![],
            }))
        })
        .collect::<Result<_, StdError>>()?;
    for i in 0..pools.len() {
        if pools[i].is_native_token() {
            pools[i].amount = pools[i].amount.checked_sub(deposits[i])?;
        }
    }
"""))
E("p7_share_fn", ("pair", cut("pair", "    let share = if total_share == Uint128::zero() {", "            deposits[1].multiply_ratio(total_share, pools[1].amount),\n        )\n    };\n"), """    let share = match total_share.u128() {
        0 => first_share(&pair_info, &info.sender, deposits)?,
        _ => deposits
            .iter()
            .zip(pools.iter())
            .map(|(deposit, pool)| deposit.multiply_ratio(total_share, pool.amount))
            .min()
            .unwrap_or_default(),
    };
"""), ("pair", "pub fn withdraw_liquidity(", """fn first_share(
    pair_info: &PairInfoRaw,
    sender: &Addr,
    [first, second]: [Uint128; 2],
) -> Result<Uint128, ContractError> {
    let CreatePairRequirements {
        whitelist,
        first_asset_minimum,
        second_asset_minimum,
    } = &pair_info.requirements;
    if whitelist.iter().all(|allowed| allowed != sender) {
        return Err(StdError::generic_err("the sender is not in whitelist").into());
    }
    if !(first >= *first_asset_minimum && second >= *second_asset_minimum) {
        return Err(StdError::generic_err("the minimum deposit is not satisfied").into());
    }
    let root = first.full_mul(second).isqrt();
    Ok(Uint128::try_from(root).map_err(StdError::from)?)
}

pub fn withdraw_liquidity("""), ("pair", "use haloswap::asset::{", "use haloswap::asset::CreatePairRequirements;\nuse haloswap::asset::{"))
E("p7_refund_map", ("pair", cut("pair", "    let refund_assets: Vec<Asset> = pools\n", "        .collect();\n"), """    let refund_assets: [Asset; 2] = pools.map(|pool| Asset {
        amount: pool.amount * share_ratio,
        ..pool
    });
"""))
E("p7_refund_messages", ("pair", cut("pair", "        .add_messages(vec![\n            refund_assets[0]", "            }),\n        ])\n"), """        .add_messages(
            refund_assets
                .iter()
                .map(|refund| refund.clone().into_msg(sender.clone()))
                .collect::<StdResult<Vec<_>>>()?,
        )
        // burn liquidity token
        .add_message(WasmMsg::Execute {
            contract_addr: deps
                .api
                .addr_humanize(&pair_info.liquidity_token)?
                .into_string(),
            msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
            funds: Vec::new(),
        })
"""))
E("p7_hook_question", ("pair", "    match from_binary(&cw20_msg.msg) {\n        Ok(Cw20HookMsg::Swap {", "    let hook: Cw20HookMsg = from_binary(&cw20_msg.msg)?;\n    match hook {\n        Cw20HookMsg::Swap {"),
  ("pair", "            to,\n        }) => {\n            // only asset", "            to,\n        } => {\n            // only asset"),
  ("pair", "        Ok(Cw20HookMsg::WithdrawLiquidity {}) => {", "        Cw20HookMsg::WithdrawLiquidity {} => {"),
  ("pair", "        Err(err) => Err(ContractError::Std(err)),\n", ""))
E("p7_auth_contains", ("pair", cut("pair", "            let mut authorized: bool = false;\n", "            if !authorized {\n                return Err(ContractError::Unauthorized {});\n            }\n"), """            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let offered = AssetInfo::Token {
                contract_addr: info.sender.to_string(),
            };
            let [first, second] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            if ![first.info, second.info].contains(&offered) {
                return Err(ContractError::Unauthorized {});
            }
"""))
E("p7_reply_struct", ("pair", cut("pair", "    let api = deps.api;\n    PAIR_INFO.update", "    })?;\n"), """    let stored = PAIR_INFO.load(deps.storage)?;
    let updated = PairInfoRaw {
        liquidity_token: deps.api.addr_canonicalize(&liquidity_token)?,
        ..stored
    };
    PAIR_INFO.save(deps.storage, &updated)?;
"""))
E("p7_attrs_chain", ("pair", cut("pair", "    Ok(Response::new().add_messages(messages).add_attributes(vec![\n        (\"action\", \"swap\"),", "    ]))\n"), """    let mut response = Response::new()
        .add_attribute("action", "swap")
        .add_attribute("sender", sender)
        .add_attribute("receiver", receiver)
        .add_attribute("offer_asset", offer_asset.info.to_string())
        .add_attribute("ask_asset", ask_pool.info.to_string());
    for (key, amount) in [
        ("offer_amount", offer_amount),
        ("return_amount", return_amount),
        ("spread_amount", spread_amount),
        ("commission_amount", commission_amount),
    ] {
        response = response.add_attribute(key, amount);
    }
    Ok(response.add_messages(messages))
"""))
E("p7_module", ("pair", cut("pair", "fn assert_slippage_tolerance(", "    Ok(())\n}\n"), ""), ("pair", "use crate::state::PAIR_INFO;\n", "use crate::slippage::assert_slippage_tolerance;\nuse crate::state::PAIR_INFO;\n"),
  ("contracts/halo-pair/src/lib.rs", "pub mod state;\n", "mod slippage;\npub mod state;\n"),
  ("contracts/halo-pair/src/slippage.rs", None, """use crate::error::ContractError;
use bignumber::{Decimal256, Uint256};
use cosmwasm_std::{Decimal, StdError, Uint128};
use haloswap::asset::Asset;

pub(crate) """ + cut("pair", "fn assert_slippage_tolerance(", "    Ok(())\n}\n")))
E("p7_query_encode", ("pair", cut("pair", "        QueryMsg::Pair {} => Ok(to_binary", "            Ok(to_binary(&query_reverse_simulation(deps, ask_asset)?)?)\n        }\n    }\n"), """        QueryMsg::Pair {} => query_pair_info(deps).and_then(|r| Ok(to_binary(&r)?)),
        QueryMsg::Pool {} => query_pool(deps).and_then(|r| Ok(to_binary(&r)?)),
        QueryMsg::Simulation { offer_asset } => {
            let simulated = query_simulation(deps, offer_asset)?;
            to_binary(&simulated).map_err(ContractError::from)
        }
        QueryMsg::ReverseSimulation { ask_asset } => query_reverse_simulation(deps, ask_asset)
            .and_then(|r| to_binary(&r).map_err(Into::into)),
    }
"""))
E("p7_dead_decimals", ("pair", """    let offer_amount: Uint256 = Uint256::one()
        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;

    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
""", """    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
    let remaining_ask_pool = ask_pool - before_commission_deduction;
    let offer_amount: Uint256 =
        Uint256::from(1u64).multiply_ratio(cp, remaining_ask_pool) - offer_pool;

"""))

# ---- factory
E("f7_load_owned", ("factory", """    let mut config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {""", """    let mut config = config_for_owner(deps.storage, deps.api, &info)?;

    if let Some(owner) = owner {"""), ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let balance""", """    config_for_owner(deps.storage, deps.api, &info)?;

    let balance"""), ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id = code_id.unwrap_or(config.pair_code_id);
""", """    let config = config_for_owner(deps.storage, deps.api, &info)?;
    let code_id = match code_id {
        Some(code_id) => code_id,
        None => config.pair_code_id,
    };
"""), ("factory", """// Only owner can execute it
""", """fn config_for_owner(
    storage: &dyn cosmwasm_std::Storage,
    api: &dyn cosmwasm_std::Api,
    info: &MessageInfo,
) -> StdResult<Config> {
    let config = CONFIG.load(storage)?;
    let sender = api.addr_canonicalize(info.sender.as_str())?;
    if config.owner == sender {
        Ok(config)
    } else {
        Err(StdError::generic_err("unauthorized"))
    }
}

// Only owner can execute it
"""))
E("f7_decimals_zip", ("factory", cut("factory", "    let asset_1_decimal =\n", "    let raw_infos = [", False), """    let asset_decimals: Vec<u8> = asset_infos
        .iter()
        .zip(["asset1", "asset2"])
        .map(|(info, name)| {
            info.query_decimals(env.contract.address.clone(), &deps.querier)
                .map_err(|_| StdError::generic_err(format!("{} is invalid", name)))
        })
        .collect::<StdResult<_>>()?;

"""), ("factory", "    let asset_decimals = [asset_1_decimal, asset_2_decimal];\n", "    let asset_decimals = [asset_decimals[0], asset_decimals[1]];\n"))
E("f7_update_opts", ("factory", cut("factory", "    if let Some(owner) = owner {\n", "        config.pair_code_id = pair_code_id;\n    }\n"), """    let owner = owner
        .map(|owner| {
            deps.api
                .addr_validate(&owner)
                .and_then(|_| deps.api.addr_canonicalize(&owner))
        })
        .transpose()?
        .unwrap_or(config.owner);
    config = Config {
        owner,
        token_code_id: token_code_id.unwrap_or(config.token_code_id),
        pair_code_id: pair_code_id.unwrap_or(config.pair_code_id),
    };
"""))
E("f7_pairs_transpose", ("factory", cut("factory", "    let start_after = if let Some(start_after) = start_after {", "        None\n    };\n"), """    let start_after = start_after
        .map(|[first, second]| -> StdResult<_> {
            let first = first.to_raw(deps.api)?;
            let second = second.to_raw(deps.api)?;
            Ok([first, second])
        })
        .transpose()?;
"""))
E("f7_has", ("factory", "    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {\n", "    if PAIRS.has(deps.storage, &pair_key) {\n"))
E("f7_reply_destructure", ("factory", cut("factory", "    let pair_contract = &reply.contract_address;\n", "    ]))\n"), """    let pair_contract = reply.contract_address;
    let PairInfo {
        liquidity_token,
        requirements,
        ..
    } = query_pair_info_from_pair(&deps.querier, Addr::unchecked(pair_contract.as_str()))?;
    let TmpPairInfo {
        pair_key,
        asset_infos,
        asset_decimals,
    } = tmp_pair_info;

    let entry = PairInfoRaw {
        asset_infos,
        contract_addr: deps.api.addr_canonicalize(&pair_contract)?,
        liquidity_token: deps.api.addr_canonicalize(&liquidity_token)?,
        asset_decimals,
        requirements,
    };
    PAIRS.save(deps.storage, pair_key.as_slice(), &entry)?;

    Ok(Response::new()
        .add_attribute("pair_contract_addr", pair_contract)
        .add_attribute("liquidity_token_addr", liquidity_token))
"""))
E("f7_submsg", ("factory", cut("factory", "        .add_submessage(SubMsg {\n", "            reply_on: ReplyOn::Success,\n        }))\n"), """        .add_submessage(SubMsg::reply_on_success(
            WasmMsg::Instantiate {
                admin: Some(env.contract.address.into_string()),
                code_id: config.pair_code_id,
                msg: to_binary(&PairInstantiateMsg {
                    asset_infos,
                    token_code_id: config.token_code_id,
                    asset_decimals,
                    requirements,
                })?,
                funds: vec![],
                label: String::from("pair"),
            },
            1,
        )))
"""), ("factory", "ReplyOn, ", ""), ("factory", "CosmosMsg, ", ""), ("factory", "        Response::new().add_message(CosmosMsg::Wasm(WasmMsg::Migrate {", "        Response::new().add_message(WasmMsg::Migrate {"),
  ("factory", "            msg: to_binary(&PairMigrateMsg {})?,\n        })),\n", "            msg: to_binary(&PairMigrateMsg {})?,\n        }),\n"))
E("f7_raw_map", ("factory", """    let raw_infos = [
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ];
""", """    let mut raw = Vec::new();
    for info in &asset_infos {
        raw.push(info.to_raw(deps.api)?);
    }
    let second = raw.remove(1);
    let raw_infos = [raw.remove(0), second];
"""))

# ---- router
E("r7_try_fold", ("router", cut("router", "    let mut offer_amount = offer_amount;\n", "    Ok(SimulateSwapOperationsResponse {\n        amount: offer_amount,\n    })\n"), """    let amount = operations
        .into_iter()
        .try_fold(offer_amount, |amount, operation| -> StdResult<Uint128> {
            let SwapOperation::HaloSwap {
                offer_asset_info: info,
                ask_asset_info,
            } = operation;
            let infos = [info.clone(), ask_asset_info];
            let pair = query_pair_info(&deps.querier, halo_factory.clone(), &infos)?;
            let res: SimulationResponse = simulate(
                &deps.querier,
                Addr::unchecked(pair.contract_addr),
                &Asset { info, amount },
            )?;
            Ok(res.return_amount)
        })?;
    Ok(SimulateSwapOperationsResponse { amount })
"""), ("router", "PairInfo, ", "") if "PairInfo, " in SRC["router"] and SRC["router"].count("PairInfo, ") == 1 and SRC["router"].count("PairInfo") == 1 else ("router", "fn assert_minium_receive(", "fn assert_minium_receive("))
E("r7_pop", ("router", cut("router", "    let mut ask_amount = ask_amount;\n", "    Ok(SimulateSwapOperationsResponse { amount: ask_amount })\n"), """    let mut operations = operations;
    let mut amount = ask_amount;
    while let Some(SwapOperation::HaloSwap {
        offer_asset_info,
        ask_asset_info,
    }) = operations.pop()
    {
        let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;
        amount = reverse_simulate_return_amount(
            deps,
            halo_factory,
            amount,
            offer_asset_info,
            ask_asset_info,
        )?;
    }

    Ok(SimulateSwapOperationsResponse { amount })
"""))
E("r7_rfold", ("router", cut("router", "    let mut ask_amount = ask_amount;\n", "    Ok(SimulateSwapOperationsResponse { amount: ask_amount })\n"), """    let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;
    let amount = operations
        .iter()
        .rev()
        .try_fold(ask_amount, |wanted, SwapOperation::HaloSwap { offer_asset_info, ask_asset_info }| {
            reverse_simulate_return_amount(
                deps,
                halo_factory.clone(),
                wanted,
                offer_asset_info.clone(),
                ask_asset_info.clone(),
            )
        })?;

    Ok(SimulateSwapOperationsResponse { amount })
"""))
E("r7_btreeset", ("router", cut("router", "    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();\n", "    if ask_asset_map.keys().len() != 1 {\n"), """    let mut outputs: BTreeSet<String> = BTreeSet::new();
    for SwapOperation::HaloSwap {
        offer_asset_info,
        ask_asset_info,
    } in operations
    {
        outputs.remove(&format!("{}", offer_asset_info));
        outputs.insert(format!("{}", ask_asset_info));
    }

    if outputs.len() != 1 {
"""), ("router", "use std::collections::HashMap;", "use std::collections::BTreeSet;"))
E("r7_vec_retain", ("router", cut("router", "    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();\n", "    if ask_asset_map.keys().len() != 1 {\n"), """    let mut outputs: Vec<String> = vec![];
    for operation in operations {
        let SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } = operation;
        let (consumed, produced) = (offer_asset_info.to_string(), ask_asset_info.to_string());
        outputs.retain(|output| *output != consumed && *output != produced);
        outputs.push(produced);
    }

    if outputs.len() != 1 {
"""), ("router", "use std::collections::HashMap;\n", ""))
HOPS = cut("router", "    let mut operation_index = 0;\n", "        .collect::<StdResult<Vec<CosmosMsg>>>()?;\n")
E("r7_split_last", ("router", HOPS, """    let to_self = |msg: &ExecuteMsg| -> StdResult<CosmosMsg> {
        Ok(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_binary(msg)?,
            funds: vec![],
        }
        .into())
    };
    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(operations_len + 1);
    if let Some((last, earlier)) = operations.split_last() {
        for operation in earlier {
            messages.push(to_self(&ExecuteMsg::ExecuteSwapOperation {
                operation: operation.clone(),
                to: None,
            })?);
        }
        messages.push(to_self(&ExecuteMsg::ExecuteSwapOperation {
            operation: last.clone(),
            to: Some(to.to_string()),
        })?);
    }
"""))
E("r7_peekable", ("router", HOPS, """    let mut messages: Vec<CosmosMsg> = vec![];
    let mut remaining = operations.into_iter().peekable();
    while let Some(operation) = remaining.next() {
        let to = remaining.peek().is_none().then(|| to.to_string());
        let msg = to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?;
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg,
            funds: vec![],
        }));
    }
"""))
E("r7_countdown", ("router", HOPS, """    let mut left = operations_len;
    let mut messages: Vec<CosmosMsg> = Vec::new();
    for operation in operations {
        left -= 1;
        let to = match left {
            0 => Some(to.to_string()),
            _ => None,
        };
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }));
    }
"""))
E("r7_min_map", ("router", cut("router", "    // Execute minimum amount assertion\n", "    Ok(Response::new().add_messages(messages))\n"), """    // Execute minimum amount assertion
    let check = minimum_receive
        .map(|minimum_receive| -> StdResult<WasmMsg> {
            let prev_balance =
                target_asset_info.query_pool(&deps.querier, deps.api, to.clone())?;
            let msg = ExecuteMsg::AssertMinimumReceive {
                asset_info: target_asset_info.clone(),
                prev_balance,
                minimum_receive,
                receiver: to.to_string(),
            };
            Ok(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                msg: to_binary(&msg)?,
                funds: vec![],
            })
        })
        .transpose()?;
    messages.extend(check.map(CosmosMsg::from));

    Ok(Response::new().add_messages(messages))
"""))
E("r7_assert_sum", ("router", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;

    if swap_amount < minium_receive {
        return Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {}, swap amount: {}",
            minium_receive, swap_amount
        )));
    }

    Ok(Response::default())
""", """    match receiver_balance.checked_sub(prev_balance) {
        Ok(swap_amount) if swap_amount >= minium_receive => Ok(Response::default()),
        Ok(swap_amount) => Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {}, swap amount: {}",
            minium_receive, swap_amount
        ))),
        Err(overflow) => Err(overflow.into()),
    }
"""))
E("r7_addr_transpose", ("router", cut("router", "    let addr = if let Some(addr) = addr {\n", "    Ok(addr)\n"), """    addr.map(|addr| api.addr_validate(&addr)).transpose()
"""))
