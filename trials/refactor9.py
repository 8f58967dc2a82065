"""Ninth set of behaviour-preserving edits: larger rewrites of whole handlers in another style."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# --- pair: one helper that picks the two sides, used by the swap and both simulations
SIDES = """// the side that takes the offer and the side that pays, as indices into the pools
struct Sides {
    offer: usize,
    ask: usize,
}

impl Sides {
    fn of_offer(info: &AssetInfo, pools: &[Asset; 2]) -> Result<Self, ContractError> {
        match pools.iter().position(|pool| info.equal(&pool.info)) {
            Some(offer) => Ok(Sides { offer, ask: offer ^ 1 }),
            None => Err(ContractError::AssetMismatch {}),
        }
    }
}

// CONTRACT - a user must do token approval
#[allow(clippy::too_many_arguments)]
pub fn swap("""
SIDEHEAD = """// CONTRACT - a user must do token approval
#[allow(clippy::too_many_arguments)]
pub fn swap("""
OLD_SWAP = """    let offer_pool: Asset;
    let ask_pool: Asset;

    let offer_decimal: u8;
    let ask_decimal: u8;
    // If the asset balance is already increased
    // To calculated properly we should subtract user deposit from the pool
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
"""
OLD_SIM = """    let offer_pool: Asset;
    let ask_pool: Asset;
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = pools[0].clone();
        ask_pool = pools[1].clone();
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = pools[1].clone();
        ask_pool = pools[0].clone();
    } else {
        return Err(ContractError::AssetMismatch {});
    }
"""
OLD_REV = """    let offer_pool: Asset;
    let ask_pool: Asset;
    if ask_asset.info.equal(&pools[0].info) {
        ask_pool = pools[0].clone();
        offer_pool = pools[1].clone();
    } else if ask_asset.info.equal(&pools[1].info) {
        ask_pool = pools[1].clone();
        offer_pool = pools[0].clone();
    } else {
        return Err(ContractError::AssetMismatch {});
    }
"""
E("p9_sides", ("pair", SIDEHEAD, SIDES), ("pair", OLD_SWAP, """    let sides = Sides::of_offer(&offer_asset.info, &pools)?;
    let mut offer_pool = pools[sides.offer].clone();
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
    let ask_pool = pools[sides.ask].clone();
    let offer_decimal = pair_info.asset_decimals[sides.offer];
    let ask_decimal = pair_info.asset_decimals[sides.ask];
"""), ("pair", OLD_SIM, """    let sides = Sides::of_offer(&offer_asset.info, &pools)?;
    let (offer_pool, ask_pool) = (&pools[sides.offer], &pools[sides.ask]);
"""), ("pair", OLD_REV, """    // the asset that is asked for takes the place of the offer
    let sides = Sides::of_offer(&ask_asset.info, &pools)?;
    let (ask_pool, offer_pool) = (&pools[sides.offer], &pools[sides.ask]);
"""))
E("p9_sides_rotate", ("pair", OLD_SIM, """    let [first, second] = pools;
    let (offer_pool, ask_pool) = if offer_asset.info.equal(&first.info) {
        (first, second)
    } else if offer_asset.info.equal(&second.info) {
        (second, first)
    } else {
        return Err(ContractError::AssetMismatch {});
    };
"""), ("pair", OLD_REV, """    let mut ordered = pools.clone();
    if !ask_asset.info.equal(&ordered[0].info) {
        if !ask_asset.info.equal(&ordered[1].info) {
            return Err(ContractError::AssetMismatch {});
        }
        ordered.reverse();
    }
    let [ask_pool, offer_pool] = ordered;
"""))
E("p9_swap_tuple", ("pair", OLD_SWAP, """    let index = if offer_asset.info.equal(&pools[0].info) {
        Ok(0usize)
    } else if offer_asset.info.equal(&pools[1].info) {
        Ok(1)
    } else {
        Err(ContractError::AssetMismatch {})
    }?;
    let [offer_decimal, ask_decimal] = match index {
        0 => pair_info.asset_decimals,
        _ => [pair_info.asset_decimals[1], pair_info.asset_decimals[0]],
    };
    let (head, tail) = pools.split_at(1);
    let (offer_side, ask_side) = if index == 0 { (&head[0], &tail[0]) } else { (&tail[0], &head[0]) };
    let offer_pool = Asset {
        amount: offer_side.amount.checked_sub(offer_asset.amount)?,
        ..offer_side.clone()
    };
    let ask_pool = ask_side.to_owned();
"""))
# --- pair: the outcome of a swap as a struct with methods
OLD_TAIL = """    // calculate the spread_amount
    // hoanm: EQUATION - SPREAD = (A * \\frac{R_B}{R_A}) - B
    // the pool price is rounded down, so it may fall short of the actual return
    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
    let spread_amount: Uint256 = if ideal_amount > return_amount {
        ideal_amount - return_amount
    } else {
        Uint256::zero()
    };
"""
E("p9_spread_fn", ("pair", OLD_TAIL, """    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
    let spread_amount = excess(ideal_amount, return_amount);
"""), ("pair", """    let spread_amount = if before_spread_deduction > before_commission_deduction {
        before_spread_deduction - before_commission_deduction
    } else {
        Uint256::zero()
    };
""", """    let spread_amount = excess(before_spread_deduction, before_commission_deduction);
"""), ("pair", """        let spread_amount = if expected_return > return_amount {
            expected_return - return_amount
        } else {
            Uint256::zero()
        };
""", """        let spread_amount = excess(expected_return, return_amount);
"""), ("pair", """pub fn amount_of(""", """// by how much `a` is above `b`
fn excess(a: Uint256, b: Uint256) -> Uint256 {
    match a.partial_cmp(&b) {
        Some(std::cmp::Ordering::Greater) => a - b,
        _ => Uint256::zero(),
    }
}

pub fn amount_of("""))
E("p9_spread_max", ("pair", OLD_TAIL, """    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
    let spread_amount: Uint256 = std::cmp::max(ideal_amount, return_amount) - return_amount;
"""))
E("p9_commission_once", ("pair", """    let commission_amount: Uint256 = return_amount * commission_rate;

    // commission will be absorbed to pool and the currency will be the same as the ask currency
    let return_amount: Uint256 = return_amount - commission_amount;
    (
        return_amount.into(),
        spread_amount.into(),
        commission_amount.into(),
    )""", """    let commission_amount = commission_of(return_amount, commission_rate);

    let out = [return_amount - commission_amount, spread_amount, commission_amount].map(Uint128::from);
    (out[0], out[1], out[2])"""), ("pair", """pub fn amount_of(""", """fn commission_of(amount: Uint256, rate: Decimal256) -> Uint256 {
    amount * rate
}

pub fn amount_of("""))
# --- pair: maximum spread in another shape
OLD_MAX = """    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {
        let belief_price: Decimal256 = belief_price.into();
        let max_spread: Decimal256 = max_spread.into();

        let expected_return = offer_amount / belief_price;
        let spread_amount = if expected_return > return_amount {
            expected_return - return_amount
        } else {
            Uint256::zero()
        };

        if return_amount < expected_return
            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
        {
            return Err(ContractError::MaxSpreadAssertion {});
        }
    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.into();
        if Decimal256::from_ratio(spread_amount, return_amount + spread_amount) > max_spread {
            return Err(ContractError::MaxSpreadAssertion {});
        }
    }

    Ok(())
"""
E("p9_limit_early", ("pair", OLD_MAX, """    let limit: Decimal256 = match max_spread {
        Some(max_spread) => max_spread.into(),
        None => return Ok(()),
    };

    let actual = match belief_price {
        None => Some(Decimal256::from_ratio(spread_amount, return_amount + spread_amount)),
        Some(price) => {
            let expected = offer_amount / Decimal256::from(price);
            (expected > return_amount).then(|| Decimal256::from_ratio(expected - return_amount, expected))
        }
    };

    match actual {
        Some(spread) if spread > limit => Err(ContractError::MaxSpreadAssertion {}),
        _ => Ok(()),
    }
"""))
E("p9_limit_ratio", ("pair", OLD_MAX, """    if let Some(max_spread) = max_spread.map(Decimal256::from) {
        let (lost, total) = if let Some(belief_price) = belief_price {
            let expected_return = offer_amount / Decimal256::from(belief_price);
            if !(return_amount < expected_return) {
                return Ok(());
            }
            (expected_return - return_amount, expected_return)
        } else {
            (spread_amount, return_amount + spread_amount)
        };
        let exceeded = Decimal256::from_ratio(lost, total).gt(&max_spread);
        if exceeded {
            Err(ContractError::MaxSpreadAssertion {})?
        }
    }
    Ok(())
"""))
# --- pair: slippage as a loop over the two directions
OLD_SLIP = """        if Decimal256::from_ratio(deposits[0], deposits[1]) * one_minus_slippage_tolerance
            > Decimal256::from_ratio(pools[0], pools[1])
            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::from_ratio(pools[1], pools[0])
        {
            return Err(ContractError::MaxSlippageAssertion {});
        }
"""
E("p9_slip_loop", ("pair", OLD_SLIP, """        for (a, b) in [(0usize, 1usize), (1, 0)] {
            let offered = Decimal256::from_ratio(deposits[a], deposits[b]) * one_minus_slippage_tolerance;
            let pooled = Decimal256::from_ratio(pools[a], pools[b]);
            if offered > pooled {
                return Err(ContractError::MaxSlippageAssertion {});
            }
        }
"""))
E("p9_slip_closure", ("pair", OLD_SLIP, """        let too_low = |a: usize| {
            let b = 1 - a;
            let price = |x: &[Uint256; 2]| Decimal256::from_ratio(x[a], x[b]);
            price(&deposits) * one_minus_slippage_tolerance > price(&pools)
        };
        if (0..2).any(too_low) {
            return Err(ContractError::MaxSlippageAssertion {});
        }
"""))
# --- pair: provision split in phases
OLD_MSGS = """    let mut messages: Vec<CosmosMsg> = vec![];
    for (i, pool) in pools.iter_mut().enumerate() {
        // If the asset 'pool' is a token, then we need to execute TransferFrom msg to receive funds
        // User must approve the pool contract to transfer the token before calling this function
        if let AssetInfo::Token { contract_addr, .. } = &pool.info {
            messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.to_string(),
                msg: to_binary(&Cw20ExecuteMsg::TransferFrom {
                    owner: info.sender.to_string(),
                    recipient: env.contract.address.to_string(),
                    amount: deposits[i],
                })?,
                funds: vec![],
            }));
        } else {
            // If the asset 'pool' is native token, balance is already increased
            // To calculated properly we should subtract user deposit from the pool
            pool.amount = pool.amount.checked_sub(deposits[i])?;
        }
    }
"""
E("p9_collect_phases", ("pair", OLD_MSGS, """    let collect = |contract_addr: &str, amount: Uint128| -> StdResult<CosmosMsg> {
        Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: contract_addr.into(),
            msg: to_binary(&Cw20ExecuteMsg::TransferFrom {
                owner: info.sender.clone().into_string(),
                recipient: env.contract.address.clone().into_string(),
                amount,
            })?,
            funds: Vec::new(),
        }))
    };
    for (pool, deposit) in pools.iter_mut().zip(deposits.iter()) {
        if pool.is_native_token() {
            pool.amount = pool.amount.checked_sub(*deposit)?;
        }
    }
    let mut messages = pools
        .iter()
        .zip(deposits)
        .filter_map(|(pool, deposit)| match &pool.info {
            AssetInfo::Token { contract_addr } => Some(collect(contract_addr, deposit)),
            AssetInfo::NativeToken { .. } => None,
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
"""))
OLD_DEP = """    let deposits: [Uint128; 2] = [
        assets
            .iter()
            .find(|a| a.info.equal(&pools[0].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
        assets
            .iter()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];
"""
E("p9_deposit_of", ("pair", OLD_DEP, """    let deposit_of = |wanted: &AssetInfo| {
        for asset in &assets {
            if asset.info.equal(wanted) {
                return asset.amount;
            }
        }
        panic!("Wrong asset info is given")
    };
    let deposits = [deposit_of(&pools[0].info), deposit_of(&pools[1].info)];
"""))
E("p9_deposit_map", ("pair", OLD_DEP, """    let deposits: [Uint128; 2] = pools.clone().map(|pool| {
        match (assets[0].info.equal(&pool.info), assets[1].info.equal(&pool.info)) {
            (true, _) => assets[0].amount,
            (false, true) => assets[1].amount,
            (false, false) => panic!("Wrong asset info is given"),
        }
    });
"""))
E("p9_share_fn", ("pair", """    let share = if total_share == Uint128::zero() {
        // when pool is empty
        // if the sender is not in whitelist of requirements, then return error
        if !pair_info.requirements.whitelist.contains(&info.sender) {
            return Err(ContractError::Std(StdError::generic_err(
                "the sender is not in whitelist",
            )));
        }

        // if the minimum amount of deposit is not satisfied, then return error
        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum
        {
            return Err(ContractError::Std(StdError::generic_err(
                "the minimum deposit is not satisfied",
            )));
        }

        // if the total supply of the LP token is zero, Initial share = collateral amount
        // hoanm: EQUATION - LP = \\sqrt{A * B}
        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
    } else {""", """    let share = if total_share.is_zero() {
        first_share(&pair_info, &info.sender, &deposits)?
    } else {"""), ("pair", """pub fn withdraw_liquidity(""", """// the shares of the first deposit, if the sender may make it
fn first_share(pair: &PairInfoRaw, sender: &Addr, deposits: &[Uint128; 2]) -> Result<Uint128, ContractError> {
    let rules = &pair.requirements;
    let refuse = |reason: &str| Err(ContractError::Std(StdError::generic_err(reason)));
    if rules.whitelist.iter().all(|allowed| allowed != sender) {
        return refuse("the sender is not in whitelist");
    }
    let minimums = [rules.first_asset_minimum, rules.second_asset_minimum];
    if deposits.iter().zip(minimums.iter()).any(|(d, m)| d < m) {
        return refuse("the minimum deposit is not satisfied");
    }
    let product = deposits[0].full_mul(deposits[1]);
    match Uint128::try_from(product.isqrt()) {
        Ok(share) => Ok(share),
        Err(e) => Err(StdError::from(e).into()),
    }
}

pub fn withdraw_liquidity("""))
# --- pair: withdrawal with a helper for the refunds
E("p9_refunds", ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    let refund_assets: Vec<Asset> = pools
        .iter()
        .map(|a| Asset {
            info: a.info.clone(),
            amount: a.amount * share_ratio,
        })
        .collect();
""", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    let mut refund_assets = pools;
    refund_assets.iter_mut().for_each(|asset| asset.amount = asset.amount * share_ratio);
"""), ("pair", """        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.clone())?,
            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn liquidity token
            CosmosMsg::Wasm(""", """        .add_message(refund_assets[0].clone().into_msg(sender.clone())?)
        .add_message(refund_assets[1].clone().into_msg(sender.clone())?)
        .add_message(
            // burn liquidity token
            CosmosMsg::Wasm("""), ("pair", """                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),
        ])""", """                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),
        )"""))
# --- pair: the hook as two handlers
E("p9_hook_handlers", ("pair", """    let contract_addr = info.sender.clone();

    match from_binary(&cw20_msg.msg) {
        Ok(Cw20HookMsg::Swap {""", """    let contract_addr = info.sender.clone();

    let hook: Cw20HookMsg = from_binary(&cw20_msg.msg).map_err(ContractError::Std)?;
    match hook {
        Cw20HookMsg::Swap {"""), ("pair", """            to,
        }) => {
            // only asset contract can execute this message
            let mut authorized: bool = false;
            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
            if !authorized {
                return Err(ContractError::Unauthorized {});
            }
""", """            to,
        } => {
            // only asset contract can execute this message
            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            let accepted = pools.iter().filter_map(|pool| match &pool.info {
                AssetInfo::Token { contract_addr } => Some(contract_addr.as_str()),
                AssetInfo::NativeToken { .. } => None,
            });
            if accepted.filter(|token| *token == info.sender.as_str()).count() == 0 {
                return Err(ContractError::Unauthorized {});
            }
"""), ("pair", """        Ok(Cw20HookMsg::WithdrawLiquidity {}) => {""", """        Cw20HookMsg::WithdrawLiquidity {} => {"""), ("pair", """            withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount)
        }
        Err(err) => Err(ContractError::Std(err)),
    }""", """            withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount)
        }
    }"""))
# --- router: the route's messages by a builder
OLD_HOPS = """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
"""
E("r9_plan", ("router", OLD_HOPS, """    let mut plan: Vec<ExecuteMsg> = Vec::with_capacity(operations_len + 1);
    for operation in operations {
        plan.push(ExecuteMsg::ExecuteSwapOperation { operation, to: None });
    }
    if let Some(ExecuteMsg::ExecuteSwapOperation { to: last, .. }) = plan.last_mut() {
        *last = Some(to.to_string());
    }
"""), ("router", """        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::AssertMinimumReceive {
                asset_info: target_asset_info,
                prev_balance: receiver_balance,
                minimum_receive,
                receiver: to.to_string(),
            })?,
        }))
    }

    Ok(Response::new().add_messages(messages))""", """        plan.push(ExecuteMsg::AssertMinimumReceive {
            asset_info: target_asset_info,
            prev_balance: receiver_balance,
            minimum_receive,
            receiver: to.to_string(),
        });
    }

    let mut response = Response::new();
    for step in &plan {
        response = response.add_message(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(step)?,
        });
    }
    Ok(response)"""))
E("r9_pop_last", ("router", OLD_HOPS, """    let this = env.contract.address.to_string();
    let hop = |operation: SwapOperation, to: Option<String>| -> StdResult<CosmosMsg> {
        Ok(WasmMsg::Execute {
            contract_addr: this.clone(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }
        .into())
    };
    let mut operations = operations;
    let last = operations.pop().unwrap();
    let mut messages: Vec<CosmosMsg> = vec![];
    for operation in operations.drain(..) {
        messages.push(hop(operation, None)?);
    }
    messages.push(hop(last, Some(to.to_string()))?);
"""), ("router", "    let operations_len = operations.len();\n    if operations_len == 0 {\n        return Err(StdError::generic_err(\"must provide operations\"));\n    }\n\n    // Assert", "    if operations.is_empty() {\n        return Err(StdError::generic_err(\"must provide operations\"));\n    }\n\n    // Assert"))
# --- router: simulation by try_fold through a shared step
E("r9_sim_step", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let pair_info: PairInfo = query_pair_info(
                    &deps.querier,
                    halo_factory.clone(),
                    &[offer_asset_info.clone(), ask_asset_info.clone()],
                )?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    Addr::unchecked(pair_info.contract_addr),
                    &Asset {
                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                offer_amount = res.return_amount;
            }
        }
    }

    Ok(SimulateSwapOperationsResponse {
        amount: offer_amount,
    })""", """    let amount = operations.into_iter().try_fold(offer_amount, |amount, operation| {
        let SwapOperation::HaloSwap { offer_asset_info, ask_asset_info } = operation;
        let sides = [offer_asset_info, ask_asset_info];
        let pair_info: PairInfo = query_pair_info(&deps.querier, halo_factory.clone(), &sides)?;
        let [info, _] = sides;
        simulate(&deps.querier, Addr::unchecked(pair_info.contract_addr), &Asset { info, amount })
            .map(|res: SimulationResponse| res.return_amount)
    })?;

    Ok(SimulateSwapOperationsResponse { amount })"""))
E("r9_rev_recursive", ("router", """    let mut ask_amount = ask_amount;
    for operation in operations.into_iter().rev() {
        ask_amount = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;

                reverse_simulate_return_amount(
                    deps,
                    halo_factory,
                    ask_amount,
                    offer_asset_info,
                    ask_asset_info,
                )
                .unwrap()
            }
        }
    }

    Ok(SimulateSwapOperationsResponse { amount: ask_amount })""", """    let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;
    let amount = needed_for(deps, &halo_factory, ask_amount, &operations);
    Ok(SimulateSwapOperationsResponse { amount })"""), ("router", """fn reverse_simulate_return_amount(""", """fn needed_for(deps: Deps, factory: &Addr, ask_amount: Uint128, operations: &[SwapOperation]) -> Uint128 {
    let Some((SwapOperation::HaloSwap { offer_asset_info, ask_asset_info }, earlier)) = operations.split_last() else {
        return ask_amount;
    };
    let offer = reverse_simulate_return_amount(
        deps,
        factory.clone(),
        ask_amount,
        offer_asset_info.clone(),
        ask_asset_info.clone(),
    )
    .unwrap();
    needed_for(deps, factory, offer, earlier)
}

fn reverse_simulate_return_amount("""))
E("r9_ops_set", ("router", """    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
    for operation in operations.iter() {
        let (offer_asset, ask_asset) = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => (offer_asset_info.clone(), ask_asset_info.clone()),
        };

        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
    }

    if ask_asset_map.keys().len() != 1 {""", """    // assets that a hop produces and no later hop consumes
    let mut open: Vec<String> = Vec::new();
    for SwapOperation::HaloSwap { offer_asset_info, ask_asset_info } in operations {
        let (offer, ask) = (offer_asset_info.to_string(), ask_asset_info.to_string());
        open.retain(|name| *name != offer);
        if !open.contains(&ask) {
            open.push(ask);
        }
    }

    if open.len() != 1 {"""), ("router", "use std::collections::HashMap;\n", ""))
# --- factory
E("f9_decimals_each", ("factory", """    let asset_1_decimal =
        match asset_infos[0].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset1 is invalid")),
        };

    let asset_2_decimal =
        match asset_infos[1].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),
        };
""", """    let mut asset_decimals = [0u8; 2];
    for (i, (info, slot)) in asset_infos.iter().zip(asset_decimals.iter_mut()).enumerate() {
        *slot = info
            .query_decimals(env.contract.address.clone(), &deps.querier)
            .map_err(|_| StdError::generic_err(format!("asset{} is invalid", i + 1)))?;
    }
"""), ("factory", """    let asset_decimals = [asset_1_decimal, asset_2_decimal];

""", ""))
E("f9_owned_config", ("factory", """    if let Some(owner) = owner {
        // validate address format
        let _ = deps.api.addr_validate(&owner)?;

        config.owner = deps.api.addr_canonicalize(&owner)?;
    }

    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }

    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }

    CONFIG.save(deps.storage, &config)?;
""", """    let owner = match owner {
        None => None,
        Some(name) => {
            deps.api.addr_validate(&name)?;
            Some(deps.api.addr_canonicalize(&name)?)
        }
    };
    for (new, slot) in [
        (token_code_id, &mut config.token_code_id),
        (pair_code_id, &mut config.pair_code_id),
    ] {
        *slot = new.unwrap_or(*slot);
    }
    config = Config {
        owner: owner.unwrap_or_else(|| config.owner.clone()),
        ..config
    };
    CONFIG.save(deps.storage, &config)?;
"""))
E("f9_reply_steps", ("factory", """    PAIRS.save(
        deps.storage,
        &tmp_pair_info.pair_key,
        &PairInfoRaw {
            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            contract_addr: deps.api.addr_canonicalize(pair_contract)?,
            asset_infos: tmp_pair_info.asset_infos,
            asset_decimals: tmp_pair_info.asset_decimals,
            requirements: pair_info.requirements,
        },
    )?;
""", """    let TmpPairInfo { pair_key: key, asset_infos, asset_decimals } = tmp_pair_info;
    let [liquidity_token, contract_addr] = [&pair_info.liquidity_token, pair_contract]
        .map(|address| deps.api.addr_canonicalize(address));
    let entry = PairInfoRaw {
        liquidity_token: liquidity_token?,
        contract_addr: contract_addr?,
        asset_infos,
        asset_decimals,
        requirements: pair_info.requirements.clone(),
    };
    PAIRS.save(deps.storage, key.as_slice(), &entry)?;
"""))
E("f9_key_helper", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}

// settings""", """    let (a, b) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    let (low, high) = if b < a { (b, a) } else { (a, b) };
    let mut key = Vec::with_capacity(low.len() + high.len());
    key.extend_from_slice(low);
    key.extend_from_slice(high);
    key
}

// settings"""), ("fstate", """    start_after.map(|asset_infos| {
        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
    })""", """    start_after.as_ref().map(pair_key)"""))
