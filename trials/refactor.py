"""Behaviour-preserving edits: every check has to stay quiet on each."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

E("p_recv_any", ("pair", """            let mut authorized: bool = false;
""", ""), ("pair", """            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
""", """            let authorized = pools.iter().any(|pool| match &pool.info {
                AssetInfo::Token { contract_addr } => contract_addr == &info.sender,
                AssetInfo::NativeToken { .. } => false,
            });

"""))
E("p_recv_transpose", ("pair", """            let to_addr = if let Some(to_addr) = to {
                Some(deps.api.addr_validate(to_addr.as_str())?)
            } else {
                None
            };

            swap(""", """            let to_addr = to
                .map(|addr| deps.api.addr_validate(&addr))
                .transpose()?;

            swap("""))
E("p_recv_helper", ("pair", """            let mut authorized: bool = false;
            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
            if !authorized {
                return Err(ContractError::Unauthorized {});
            }
""", """            assert_sender_is_pool_token(deps.as_ref(), &env, &info.sender)?;
"""), ("pair", """/// This just stores the result for future query
""", """fn assert_sender_is_pool_token(deps: Deps, env: &Env, sender: &Addr) -> Result<(), ContractError> {
    let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
    let pools = config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
    for pool in &pools {
        match &pool.info {
            AssetInfo::Token { contract_addr } if contract_addr.as_str() == sender.as_str() => return Ok(()),
            _ => continue,
        }
    }
    Err(ContractError::Unauthorized {})
}

/// This just stores the result for future query
"""))
E("p_recv_matches", ("pair", """                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
""", """                authorized |= matches!(&pool.info, AssetInfo::Token { contract_addr } if *contract_addr == info.sender.as_str());
"""))
E("p_recv_msg_first", ("pair", """    match from_binary(&cw20_msg.msg) {
        Ok(Cw20HookMsg::Swap {""", """    let hook_msg: Cw20HookMsg = from_binary(&cw20_msg.msg)?;
    match hook_msg {
        Cw20HookMsg::Swap {"""), ("pair", """            to,
        }) => {
            // only""", """            to,
        } => {
            // only"""), ("pair", """        Ok(Cw20HookMsg::WithdrawLiquidity {}) => {""", """        Cw20HookMsg::WithdrawLiquidity {} => {"""), ("pair", """        }
        Err(err) => Err(ContractError::Std(err)),
""", """        }
"""))
E("p_reply_load_save", ("pair", """    let api = deps.api;
    PAIR_INFO.update(deps.storage, |mut meta| -> StdResult<_> {
        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        Ok(meta)
    })?;
""", """    let mut pair_info = PAIR_INFO.load(deps.storage)?;
    pair_info.liquidity_token = deps.api.addr_canonicalize(&liquidity_token)?;
    PAIR_INFO.save(deps.storage, &pair_info)?;
"""))
E("p_prov_deposit_helper", ("pair", """    let deposits: [Uint128; 2] = [
        assets
            .iter()
            .find(|a| a.info.equal(&pools[0].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
        assets
            .iter()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];
""", """    let deposits: [Uint128; 2] = [
        deposit_of(&assets, &pools[0].info),
        deposit_of(&assets, &pools[1].info),
    ];
"""), ("pair", """pub fn withdraw_liquidity(""", """fn deposit_of(assets: &[Asset; 2], info: &AssetInfo) -> Uint128 {
    for asset in assets {
        if asset.info.equal(info) {
            return asset.amount;
        }
    }
    panic!("Wrong asset info is given")
}

pub fn withdraw_liquidity("""))
E("p_prov_deposit_ifelse", ("pair", """    let deposits: [Uint128; 2] = [
        assets
            .iter()
            .find(|a| a.info.equal(&pools[0].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
        assets
            .iter()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];
""", """    let mut deposits: [Uint128; 2] = [Uint128::zero(); 2];
    for (deposit, pool) in deposits.iter_mut().zip(pools.iter()) {
        let index = assets
            .iter()
            .position(|a| a.info.equal(&pool.info))
            .expect("Wrong asset info is given");
        *deposit = assets[index].amount;
    }
"""))
E("p_prov_loop", ("pair", """    for (i, pool) in pools.iter_mut().enumerate() {
        // If the asset 'pool' is a token, then we need to execute TransferFrom msg to receive funds
        // User must approve the pool contract to transfer the token before calling this function
        if let AssetInfo::Token { contract_addr, .. } = &pool.info {
            messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.to_string(),
                msg: to_binary(&Cw20ExecuteMsg::TransferFrom {
                    owner: info.sender.to_string(),
                    recipient: env.contract.address.to_string(),
                    amount: deposits[i],
                })?,
                funds: vec![],
            }));
        } else {
            // If the asset 'pool' is native token, balance is already increased
            // To calculated properly we should subtract user deposit from the pool
            pool.amount = pool.amount.checked_sub(deposits[i])?;
        }
    }
""", """    for i in 0..2 {
        match pools[i].info.clone() {
            AssetInfo::NativeToken { .. } => {
                pools[i].amount = pools[i].amount.checked_sub(deposits[i])?;
            }
            AssetInfo::Token { contract_addr } => {
                let transfer = Cw20ExecuteMsg::TransferFrom {
                    owner: info.sender.to_string(),
                    recipient: env.contract.address.to_string(),
                    amount: deposits[i],
                };
                messages.push(
                    WasmMsg::Execute {
                        contract_addr,
                        msg: to_binary(&transfer)?,
                        funds: vec![],
                    }
                    .into(),
                );
            }
        }
    }
"""))
E("p_prov_share_helper", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };
""", """        let shares: Vec<Uint128> = deposits
            .iter()
            .zip(pools.iter())
            .map(|(deposit, pool)| deposit.multiply_ratio(total_share, pool.amount))
            .collect();
        if shares[0] < shares[1] { shares[0] } else { shares[1] }
    };
"""))
E("p_prov_share_u256", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };
""", """        let share_of = |i: usize| -> Uint128 { total_share.multiply_ratio(deposits[i], pools[i].amount) };
        share_of(0).min(share_of(1))
    };
"""))
E("p_prov_order", ("pair", """    // get the address of the LP token
    let liquidity_token = deps.api.addr_humanize(&pair_info.liquidity_token)?;

    // get total supply of the LP token
    let total_share = query_token_info(&deps.querier, liquidity_token)?.total_supply;
""", ""), ("pair", """    // query the information of the pair of assets
    let mut pools: [Asset; 2] =
        pair_info""", """    // get total supply of the LP token
    let liquidity_token = deps.api.addr_humanize(&pair_info.liquidity_token)?;
    let total_share = query_token_info(&deps.querier, liquidity_token.clone())?.total_supply;

    // query the information of the pair of assets
    let mut pools: [Asset; 2] =
        pair_info"""), ("pair", """        contract_addr: deps
            .api
            .addr_humanize(&pair_info.liquidity_token)?
            .to_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {
            recipient: receiver.to_string(),""", """        contract_addr: liquidity_token.into_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {
            recipient: receiver.clone(),"""))
E("p_prov_receiver", ("pair", """    let receiver = receiver.unwrap_or_else(|| info.sender.to_string());
""", """    let receiver = match receiver {
        Some(addr) => addr,
        None => info.sender.to_string(),
    };
"""))
E("p_prov_whitelist_loop", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {
            return""", """        if !pair_info.requirements.whitelist.iter().any(|addr| addr == &info.sender) {
            return"""))
E("p_prov_req_fn", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {
            return Err(ContractError::Std(StdError::generic_err(
                "the sender is not in whitelist",
            )));
        }

        // if the minimum amount of deposit is not satisfied, then return error
        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum
        {
            return Err(ContractError::Std(StdError::generic_err(
                "the minimum deposit is not satisfied",
            )));
        }
""", """        check_first_deposit(&pair_info.requirements, &info.sender, &deposits)?;
"""), ("pair", """pub fn withdraw_liquidity(""", """fn check_first_deposit(
    requirements: &haloswap::asset::CreatePairRequirements,
    sender: &Addr,
    deposits: &[Uint128; 2],
) -> Result<(), ContractError> {
    let minimums = [requirements.first_asset_minimum, requirements.second_asset_minimum];
    if !requirements.whitelist.contains(sender) {
        return Err(StdError::generic_err("the sender is not in whitelist").into());
    }
    if deposits.iter().zip(minimums.iter()).any(|(d, m)| d < m) {
        return Err(StdError::generic_err("the minimum deposit is not satisfied").into());
    }
    Ok(())
}

pub fn withdraw_liquidity("""))
E("p_wd_multiply_ratio_array", ("pair", """    let refund_assets: Vec<Asset> = pools
        .iter()
        .map(|a| Asset {
            info: a.info.clone(),
            amount: a.amount * share_ratio,
        })
        .collect();
""", """    let mut refund_assets: Vec<Asset> = Vec::with_capacity(2);
    for pool in pools.iter() {
        refund_assets.push(Asset { amount: share_ratio * pool.amount, info: pool.info.clone() });
    }
"""), ("pair", """            refund_assets[0].clone().into_msg(sender.clone())?,
            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn""", """            refund_assets[0].to_owned().into_msg(sender.clone())?,
            refund_assets[1].to_owned().into_msg(sender.clone())?,
            // burn"""))
E("p_wd_msgs", ("pair", """    Ok(Response::new()
        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.clone())?,
            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn liquidity token
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: deps
                    .api
                    .addr_humanize(&pair_info.liquidity_token)?
                    .to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),
        ])
""", """    let burn = WasmMsg::Execute {
        contract_addr: deps
            .api
            .addr_humanize(&pair_info.liquidity_token)?
            .to_string(),
        msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
        funds: vec![],
    };
    let mut messages = refund_assets
        .iter()
        .cloned()
        .map(|asset| asset.into_msg(sender.clone()))
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
    messages.push(burn.into());

    Ok(Response::new()
        .add_messages(messages)
"""))
E("p_swap_tuple", ("pair", """    let offer_pool: Asset;
    let ask_pool: Asset;

    let offer_decimal: u8;
    let ask_decimal: u8;
    // If the asset balance is already increased
    // To calculated properly we should subtract user deposit from the pool
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
""", """    let offer_index = pools
        .iter()
        .position(|pool| offer_asset.info.equal(&pool.info))
        .ok_or(ContractError::AssetMismatch {})?;
    let ask_index = 1 - offer_index;

    let offer_pool = Asset {
        amount: pools[offer_index].amount.checked_sub(offer_asset.amount)?,
        info: pools[offer_index].info.clone(),
    };
    let ask_pool = pools[ask_index].clone();
    let offer_decimal = pair_info.asset_decimals[offer_index];
    let ask_decimal = pair_info.asset_decimals[ask_index];
"""))
E("p_swap_tuple2", ("pair", """    let offer_pool: Asset;
    let ask_pool: Asset;

    let offer_decimal: u8;
    let ask_decimal: u8;
    // If""", """    let [pool_0, pool_1] = pools;
    let [decimal_0, decimal_1] = pair_info.asset_decimals;
    // If"""), ("pair", """    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
""", """    let (mut offer_pool, ask_pool, offer_decimal, ask_decimal) =
        if offer_asset.info == pool_0.info {
            (pool_0, pool_1, decimal_0, decimal_1)
        } else if offer_asset.info == pool_1.info {
            (pool_1, pool_0, decimal_1, decimal_0)
        } else {
            return Err(ContractError::AssetMismatch {});
        };
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
"""))
E("p_swap_msgs", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    if !return_amount.is_zero() {
        messages.push(return_asset.into_msg(receiver.clone())?);
    }
""", """    let messages = if return_amount > Uint128::zero() {
        vec![return_asset.into_msg(receiver.clone())?]
    } else {
        vec![]
    };
"""))
E("p_swap_response", ("pair", """    Ok(Response::new().add_messages(messages).add_attributes(vec![
        ("action", "swap"),
        ("sender", sender.as_str()),
        ("receiver", receiver.as_str()),
        ("offer_asset", &offer_asset.info.to_string()),
        ("ask_asset", &ask_pool.info.to_string()),
        ("offer_amount", &offer_amount.to_string()),
        ("return_amount", &return_amount.to_string()),
        ("spread_amount", &spread_amount.to_string()),
        ("commission_amount", &commission_amount.to_string()),
    ]))
""", """    let response = Response::new()
        .add_attribute("action", "swap")
        .add_attribute("sender", sender)
        .add_attribute("receiver", receiver)
        .add_attribute("offer_asset", offer_asset.info.to_string())
        .add_attribute("ask_asset", ask_pool.info.to_string())
        .add_attribute("offer_amount", offer_amount)
        .add_attribute("return_amount", return_amount)
        .add_attribute("spread_amount", spread_amount)
        .add_attribute("commission_amount", commission_amount);

    Ok(response.add_messages(messages))
"""))
E("p_sim_match", ("pair", """    let offer_pool: Asset;
    let ask_pool: Asset;
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = pools[0].clone();
        ask_pool = pools[1].clone();
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = pools[1].clone();
        ask_pool = pools[0].clone();
    } else {
        return Err(ContractError::AssetMismatch {});
    }

    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);
""", """    let (offer_pool, ask_pool) = match (
        offer_asset.info.equal(&pools[0].info),
        offer_asset.info.equal(&pools[1].info),
    ) {
        (true, _) => (&pools[0], &pools[1]),
        (false, true) => (&pools[1], &pools[0]),
        (false, false) => return Err(ContractError::AssetMismatch {}),
    };

    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);
"""))
E("p_compute_struct", ("pair", """    let commission_amount: Uint256 = return_amount * commission_rate;

    // commission will be absorbed to pool and the currency will be the same as the ask currency
    let return_amount: Uint256 = return_amount - commission_amount;
    (
        return_amount.into(),
        spread_amount.into(),
        commission_amount.into(),
    )
""", """    let commission_amount: Uint256 = commission_rate * return_amount;

    let net_amount: Uint256 = return_amount - commission_amount;
    (
        Uint128::from(net_amount),
        Uint128::from(spread_amount),
        Uint128::from(commission_amount),
    )
"""))
E("p_compute_commission_const", ("pair", """    let commission_rate = Decimal256::from_str(COMMISSION_RATE).unwrap();

    // offer => ask""", """    let commission_rate = Decimal256::permille(3);

    // offer => ask"""))
E("p_compute_commission_ratio", ("pair", """    let commission_amount: Uint256 = return_amount * commission_rate;

    // commission will""", """    let commission_amount: Uint256 = return_amount.multiply_ratio(3u64, 1000u64);

    // commission will"""), ("pair", """    // Commission rate OR Fee amount for framework
    let commission_rate = Decimal256::from_str(COMMISSION_RATE).unwrap();

    // offer => ask""", """    // offer => ask"""))
E("p_compute_spread_guard", ("pair", """    let spread_amount: Uint256 = if ideal_amount > return_amount {
        ideal_amount - return_amount
    } else {
        Uint256::zero()
    };
""", """    let spread_amount: Uint256 = match ideal_amount.cmp(&return_amount) {
        Ordering::Greater => ideal_amount - return_amount,
        _ => Uint256::zero(),
    };
"""))
E("p_offer_amount_reuse", ("pair", """    let offer_amount: Uint256 = Uint256::one()
        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;

    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
""", """    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
    let remaining_ask_pool = ask_pool - before_commission_deduction;

    let offer_amount: Uint256 = Uint256::one().multiply_ratio(cp, remaining_ask_pool) - offer_pool;
"""))
E("p_offer_amount_cp", ("pair", """    let offer_amount: Uint256 = Uint256::one()
        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;
""", """    let offer_amount: Uint256 = Uint256::from(cp.0 / (ask_pool - ask_amount * inv_one_minus_commission).0) - offer_pool;
"""))
E("p_spread_helper", ("pair", """        match offer_decimal.cmp(&return_decimal) {
            Ordering::Greater => {
                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());

                (
                    offer_asset.amount.into(),
                    return_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),
                    spread_amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),
                )
            }
            Ordering::Less => {
                let diff_decimal = 10u64.pow((return_decimal - offer_decimal).into());

                (
                    offer_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),
                    return_asset.amount.into(),
                    spread_amount.into(),
                )
            }
            Ordering::Equal => (
                offer_asset.amount.into(),
                return_asset.amount.into(),
                spread_amount.into(),
            ),
        };
""", """        if offer_decimal > return_decimal {
            let factor = Uint128::from(10u64.pow(u32::from(offer_decimal - return_decimal)));
            (
                offer_asset.amount.into(),
                return_asset.amount.checked_mul(factor)?.into(),
                spread_amount.checked_mul(factor)?.into(),
            )
        } else if offer_decimal < return_decimal {
            let factor = Uint128::from(10u64.pow(u32::from(return_decimal - offer_decimal)));
            (
                offer_asset.amount.checked_mul(factor)?.into(),
                return_asset.amount.into(),
                spread_amount.into(),
            )
        } else {
            (
                offer_asset.amount.into(),
                return_asset.amount.into(),
                spread_amount.into(),
            )
        };
"""))
E("p_spread_match", ("pair", """    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {
        let belief_price: Decimal256 = belief_price.into();
        let max_spread: Decimal256 = max_spread.into();

        let expected_return = offer_amount / belief_price;
        let spread_amount = if expected_return > return_amount {
            expected_return - return_amount
        } else {
            Uint256::zero()
        };

        if return_amount < expected_return
            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
        {
            return Err(ContractError::MaxSpreadAssertion {});
        }
    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.into();
        if Decimal256::from_ratio(spread_amount, return_amount + spread_amount) > max_spread {
            return Err(ContractError::MaxSpreadAssertion {});
        }
    }

    Ok(())
""", """    let max_spread: Decimal256 = match max_spread {
        Some(max_spread) => max_spread.into(),
        None => return Ok(()),
    };

    let exceeded = match belief_price {
        Some(belief_price) => {
            let expected_return = offer_amount / Decimal256::from(belief_price);
            expected_return > return_amount
                && Decimal256::from_ratio(expected_return - return_amount, expected_return) > max_spread
        }
        None => Decimal256::from_ratio(spread_amount, spread_amount + return_amount) > max_spread,
    };

    if exceeded {
        Err(ContractError::MaxSpreadAssertion {})
    } else {
        Ok(())
    }
"""))
E("p_slip_helper", ("pair", """        if Decimal256::from_ratio(deposits[0], deposits[1]) * one_minus_slippage_tolerance
            > Decimal256::from_ratio(pools[0], pools[1])
            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::from_ratio(pools[1], pools[0])
        {
            return Err(ContractError::MaxSlippageAssertion {});
        }
    }

    Ok(())
""", """        let exceeds = |a: usize, b: usize| -> bool {
            let deposit_price = Decimal256::from_ratio(deposits[a], deposits[b]);
            let pool_price = Decimal256::from_ratio(pools[a], pools[b]);
            pool_price < deposit_price * one_minus_slippage_tolerance
        };
        if exceeds(0, 1) || exceeds(1, 0) {
            return Err(ContractError::MaxSlippageAssertion {});
        }
    }

    Ok(())
"""))
E("p_slip_letelse", ("pair", """    if let Some(slippage_tolerance) = *slippage_tolerance {
        let slippage_tolerance: Decimal256 = slippage_tolerance.into();
        // the""", """    let Some(slippage_tolerance) = *slippage_tolerance else {
        return Ok(());
    };
    {
        let slippage_tolerance = Decimal256::from(slippage_tolerance);
        // the"""))
E("p_query_pool_inline", ("pair", """    let total_share: Uint128 = query_token_info(
        &deps.querier,
        deps.api.addr_humanize(&pair_info.liquidity_token)?,
    )?
    .total_supply;

    let resp = PoolResponse {
        assets,
        total_share,
    };

    Ok(resp)
""", """    let lp_token = deps.api.addr_humanize(&pair_info.liquidity_token)?;
    query_token_info(&deps.querier, lp_token)
        .map(|token_info| PoolResponse {
            assets,
            total_share: token_info.total_supply,
        })
        .map_err(ContractError::Std)
"""))
E("p_query_binary", ("pair", """        QueryMsg::Pair {} => Ok(to_binary(&query_pair_info(deps)?)?),
        QueryMsg::Pool {} => Ok(to_binary(&query_pool(deps)?)?),
""", """        QueryMsg::Pair {} => {
            let info = query_pair_info(deps)?;
            to_binary(&info).map_err(ContractError::from)
        }
        QueryMsg::Pool {} => query_pool(deps).and_then(|pool| Ok(to_binary(&pool)?)),
"""))
# ---- factory
E("f_owner_helper", ("factory", """    let mut config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner)""", """    let mut config = assert_owner(deps.as_ref(), &info)?;

    if let Some(owner)"""), ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let balance""", """    assert_owner(deps.as_ref(), &info)?;

    let balance"""), ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id""", """    let config = assert_owner(deps.as_ref(), &info)?;

    let code_id"""), ("factory", """// Anyone can execute it to create swap pair
""", """fn assert_owner(deps: Deps, info: &MessageInfo) -> StdResult<Config> {
    let config: Config = CONFIG.load(deps.storage)?;
    let sender = deps.api.addr_canonicalize(info.sender.as_str())?;
    if config.owner == sender {
        Ok(config)
    } else {
        Err(StdError::generic_err("unauthorized"))
    }
}

// Anyone can execute it to create swap pair
"""))
E("f_update_unwrap_or", ("factory", """    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }

    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }
""", """    config.token_code_id = token_code_id.unwrap_or(config.token_code_id);
    config.pair_code_id = pair_code_id.unwrap_or(config.pair_code_id);
"""))
E("f_update_rebuild", ("factory", """    let mut config: Config = CONFIG.load(deps.storage)?;
""", """    let config: Config = CONFIG.load(deps.storage)?;
"""), ("factory", """    if let Some(owner) = owner {
        // validate address format
        let _ = deps.api.addr_validate(&owner)?;

        config.owner = deps.api.addr_canonicalize(&owner)?;
    }

    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }

    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }

    CONFIG.save(deps.storage, &config)?;
""", """    let new_owner = match owner {
        Some(owner) => {
            deps.api.addr_validate(&owner)?;
            deps.api.addr_canonicalize(&owner)?
        }
        None => config.owner.clone(),
    };

    CONFIG.save(
        deps.storage,
        &Config {
            owner: new_owner,
            token_code_id: token_code_id.map_or(config.token_code_id, |id| id),
            pair_code_id: if let Some(id) = pair_code_id { id } else { config.pair_code_id },
        },
    )?;
"""))
E("f_create_decimals_helper", ("factory", """    let asset_1_decimal =
        match asset_infos[0].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset1 is invalid")),
        };

    let asset_2_decimal =
        match asset_infos[1].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),
        };
""", """    let asset_1_decimal = asset_infos[0]
        .query_decimals(env.contract.address.clone(), &deps.querier)
        .map_err(|_| StdError::generic_err("asset1 is invalid"))?;

    let asset_2_decimal = asset_infos[1]
        .query_decimals(env.contract.address.clone(), &deps.querier)
        .or_else(|_| Err(StdError::generic_err("asset2 is invalid")))?;
"""))
E("f_create_has", ("factory", """    let pair_key = pair_key(&raw_infos);
    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {
        return Err(StdError::generic_err("Pair already exists"));
    }
""", """    let pair_key = pair_key(&raw_infos);
    if let Some(_) = PAIRS.may_load(deps.storage, &pair_key)? {
        return Err(StdError::generic_err("Pair already exists"));
    }
"""))
E("f_create_order", ("factory", """    TMP_PAIR_INFO.save(
        deps.storage,
        &TmpPairInfo {
            pair_key,
            asset_infos: raw_infos,
            asset_decimals,
        },
    )?;

    Ok(Response::new()
        .add_attributes(vec![
            ("action", "create_pair"),
            ("pair", &format!("{}-{}", asset_infos[0], asset_infos[1])),
        ])
        .add_submessage(SubMsg {
            id: 1,
            gas_limit: None,
            msg: CosmosMsg::Wasm(WasmMsg::Instantiate {
                code_id: config.pair_code_id,
                funds: vec![],
                admin: Some(env.contract.address.to_string()),
                label: "pair".to_string(),
                msg: to_binary(&PairInstantiateMsg {
                    asset_infos,
                    token_code_id: config.token_code_id,
                    asset_decimals,
                    requirements,
                })?,
            }),
            reply_on: ReplyOn::Success,
        }))
""", """    let pair_name = format!("{}-{}", asset_infos[0], asset_infos[1]);
    let instantiate_msg = WasmMsg::Instantiate {
        code_id: config.pair_code_id,
        funds: vec![],
        admin: Some(env.contract.address.into_string()),
        label: String::from("pair"),
        msg: to_binary(&PairInstantiateMsg {
            asset_infos,
            token_code_id: config.token_code_id,
            asset_decimals,
            requirements,
        })?,
    };

    let tmp_pair_info = TmpPairInfo {
        pair_key,
        asset_infos: raw_infos,
        asset_decimals,
    };
    TMP_PAIR_INFO.save(deps.storage, &tmp_pair_info)?;

    Ok(Response::new()
        .add_submessage(SubMsg::reply_on_success(instantiate_msg, 1))
        .add_attribute("action", "create_pair")
        .add_attribute("pair", pair_name))
"""), ("factory", "MessageInfo, Reply, ReplyOn, Response,", "MessageInfo, Reply, Response,"))
E("f_reply_order", ("factory", """    let tmp_pair_info = TMP_PAIR_INFO.load(deps.storage)?;

    let reply = parse_reply_instantiate_data(msg).unwrap();
""", """    let reply = parse_reply_instantiate_data(msg).unwrap();
    let TmpPairInfo {
        pair_key,
        asset_infos,
        asset_decimals,
    } = TMP_PAIR_INFO.load(deps.storage)?;
"""), ("factory", """    PAIRS.save(
        deps.storage,
        &tmp_pair_info.pair_key,
        &PairInfoRaw {
            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            contract_addr: deps.api.addr_canonicalize(pair_contract)?,
            asset_infos: tmp_pair_info.asset_infos,
            asset_decimals: tmp_pair_info.asset_decimals,
            requirements: pair_info.requirements,
        },
    )?;
""", """    let raw_pair_info = PairInfoRaw {
        asset_infos,
        asset_decimals,
        contract_addr: deps.api.addr_canonicalize(pair_contract)?,
        liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
        requirements: pair_info.requirements.clone(),
    };
    PAIRS.save(deps.storage, pair_key.as_slice(), &raw_pair_info)?;
"""))
E("f_query_pairs_map", ("factory", """    let start_after = if let Some(start_after) = start_after {
        Some([
            start_after[0].to_raw(deps.api)?,
            start_after[1].to_raw(deps.api)?,
        ])
    } else {
        None
    };
""", """    let start_after = match start_after {
        None => None,
        Some([first, second]) => Some([first.to_raw(deps.api)?, second.to_raw(deps.api)?]),
    };
"""))
E("f_query_pair_helper", ("factory", """    let pair_key = pair_key(&[
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ]);
    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key)?;
    pair_info.to_normal(deps.api)
""", """    let [first, second] = asset_infos;
    let raw_infos = [first.to_raw(deps.api)?, second.to_raw(deps.api)?];
    PAIRS
        .load(deps.storage, &pair_key(&raw_infos))?
        .to_normal(deps.api)
"""))
E("f_key_swap", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
""", """    let (first, second) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    if first <= second {
        [first, second].concat()
    } else {
        [second, first].concat()
    }
"""))
E("f_key_extend", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
""", """    let mut keys: Vec<&[u8]> = asset_infos.iter().map(|info| info.as_bytes()).collect();
    keys.sort();

    let mut key = keys[0].to_vec();
    key.extend_from_slice(keys[1]);
    key
"""))
E("f_range_reuse", ("fstate", """    start_after.map(|asset_infos| {
        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
    })
""", """    start_after.map(|asset_infos| pair_key(&asset_infos))
"""))
E("f_range_loop", ("fstate", """    PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()
""", """    let mut pairs = Vec::new();
    for item in PAIRS.range(storage, start, None, Order::Ascending).take(limit) {
        let (_, pair_info) = item?;
        pairs.push(pair_info.to_normal(api)?);
    }
    Ok(pairs)
"""))
E("f_limit_match", ("fstate", """    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;
""", """    let limit = match limit {
        Some(limit) if limit > MAX_LIMIT => MAX_LIMIT,
        Some(limit) => limit,
        None => DEFAULT_LIMIT,
    } as usize;
"""))
E("f_bal_gt", ("factory", """    if balance.is_zero() {
        return Err""", """    if balance == cosmwasm_std::Uint128::zero() {
        return Err"""))
# ---- router
E("r_loop", ("router", """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
""", """    let last_index = operations_len - 1;
    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(operations_len + 1);
    for (index, operation) in operations.into_iter().enumerate() {
        let recipient = (index == last_index).then(|| to.to_string());
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                operation,
                to: recipient,
            })?,
        }));
    }
"""))
E("r_self_msg", ("router", """            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })""", """            self_msg(
                &env,
                &ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index < operations_len {
                        None
                    } else {
                        Some(to.to_string())
                    },
                },
            )
        })"""), ("router", """        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::AssertMinimumReceive {
                asset_info: target_asset_info,
                prev_balance: receiver_balance,
                minimum_receive,
                receiver: to.to_string(),
            })?,
        }))
""", """        messages.push(self_msg(
            &env,
            &ExecuteMsg::AssertMinimumReceive {
                asset_info: target_asset_info,
                prev_balance: receiver_balance,
                minimum_receive,
                receiver: to.into_string(),
            },
        )?)
"""), ("router", """fn assert_minium_receive(
    deps: Deps,""", """fn self_msg(env: &Env, msg: &ExecuteMsg) -> StdResult<CosmosMsg> {
    Ok(WasmMsg::Execute {
        contract_addr: env.contract.address.to_string(),
        funds: vec![],
        msg: to_binary(msg)?,
    }
    .into())
}

fn assert_minium_receive(
    deps: Deps,"""))
E("r_split_last", ("router", """    let operations_len = operations.len();
    if operations_len == 0 {
        return Err(StdError::generic_err("must provide operations"));
    }

    // Assert the operations are properly set
    assert_operations(&operations)?;

    let to = if let Some(to) = to { to } else { sender };
    let target_asset_info = operations.last().unwrap().get_target_asset_info();
""", """    let target_asset_info = match operations.last() {
        Some(operation) => operation.get_target_asset_info(),
        None => return Err(StdError::generic_err("must provide operations")),
    };
    let operations_len = operations.len();

    // Assert the operations are properly set
    assert_operations(&operations)?;

    let to = to.unwrap_or(sender);
"""))
E("r_hashset", ("router", """    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
    for operation in operations.iter() {
        let (offer_asset, ask_asset) = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => (offer_asset_info.clone(), ask_asset_info.clone()),
        };

        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
    }

    if ask_asset_map.keys().len() != 1 {
""", """    let mut outputs: HashSet<String> = HashSet::new();
    for operation in operations {
        let SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } = operation;

        outputs.remove(&offer_asset_info.to_string());
        outputs.insert(ask_asset_info.to_string());
    }

    if outputs.len() != 1 {
"""), ("router", "use std::collections::HashMap;", "use std::collections::HashSet;"))
E("r_btree", ("router", """    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();""", """    let mut ask_asset_map: std::collections::BTreeMap<String, bool> = Default::default();"""), ("router", "use std::collections::HashMap;\n", ""), ("router", "ask_asset_map.keys().len()", "ask_asset_map.len()"))
E("r_min_helper", ("router", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;

    if swap_amount < minium_receive {
        return Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {}, swap amount: {}",
            minium_receive, swap_amount
        )));
    }

    Ok(Response::default())
""", """    let swap_amount = receiver_balance
        .checked_sub(prev_balance)
        .map_err(StdError::overflow)?;

    if swap_amount >= minium_receive {
        Ok(Response::new())
    } else {
        Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {minium_receive}, swap amount: {swap_amount}"
        )))
    }
"""))
E("r_sim_fold", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let pair_info: PairInfo = query_pair_info(
                    &deps.querier,
                    halo_factory.clone(),
                    &[offer_asset_info.clone(), ask_asset_info.clone()],
                )?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    Addr::unchecked(pair_info.contract_addr),
                    &Asset {
                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                offer_amount = res.return_amount;
            }
        }
    }

    Ok(SimulateSwapOperationsResponse {
        amount: offer_amount,
    })
""", """    let amount = operations.into_iter().try_fold(
        offer_amount,
        |amount, SwapOperation::HaloSwap { offer_asset_info, ask_asset_info }| -> StdResult<Uint128> {
            let asset_infos = [offer_asset_info, ask_asset_info];
            let pair_info: PairInfo = query_pair_info(&deps.querier, halo_factory.clone(), &asset_infos)?;
            let [info, _] = asset_infos;
            let res: SimulationResponse = simulate(
                &deps.querier,
                Addr::unchecked(pair_info.contract_addr),
                &Asset { info, amount },
            )?;
            Ok(res.return_amount)
        },
    )?;

    Ok(SimulateSwapOperationsResponse { amount })
"""))
E("r_rev_noflip", ("router", """                .unwrap()
            }
        }
    }

    Ok(SimulateSwapOperationsResponse { amount: ask_amount })
""", """                ?
            }
        }
    }

    Ok(SimulateSwapOperationsResponse { amount: ask_amount })
"""))
E("r_rev_while", ("router", """    for operation in operations.into_iter().rev() {
        ask_amount =""", """    let mut operations = operations;
    while let Some(operation) = operations.pop() {
        ask_amount ="""))
E("r_opt_map", ("router", """    let addr = if let Some(addr) = addr {
        Some(api.addr_validate(&addr)?)
    } else {
        None
    };

    Ok(addr)
""", """    addr.map(|addr| api.addr_validate(&addr)).transpose()
"""))
E("o_pool", ("ops", """            let amount = match offer_asset_info.clone() {
                AssetInfo::NativeToken { denom } => {
                    query_balance(&deps.querier, env.contract.address, denom)?
                }
                AssetInfo::Token { contract_addr } => query_token_balance(
                    &deps.querier,
                    deps.api.addr_validate(contract_addr.as_str())?,
                    env.contract.address,
                )?,
            };
""", """            let amount =
                offer_asset_info.query_pool(&deps.querier, deps.api, env.contract.address)?;
"""), ("ops", "use haloswap::querier::{query_balance, query_pair_info, query_token_balance};", "use haloswap::querier::query_pair_info;"))
E("o_msg", ("ops", """    match offer_asset.info.clone() {
        AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: pair_contract.to_string(),
            funds: vec![Coin {
                denom,
                amount: offer_asset.amount,
            }],
            msg: to_binary(&PairHookMsg::Swap {
                belief_price: None,
                max_spread,
                to,
            })?,
        })),
        AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr,
            funds: vec![],
            msg: to_binary(&Cw20ExecuteMsg::Send {
                contract: pair_contract.to_string(),
                amount: offer_asset.amount,
                msg: to_binary(&PairHookMsg::Swap {
                    belief_price: None,
                    max_spread,
                    to,
                })?,
            })?,
        })),
    }
""", """    let Asset { info, amount } = offer_asset;
    let hook_msg = to_binary(&PairHookMsg::Swap {
        belief_price: None,
        max_spread,
        to,
    })?;
    let msg = match info {
        AssetInfo::Token { contract_addr } => WasmMsg::Execute {
            contract_addr,
            funds: vec![],
            msg: to_binary(&Cw20ExecuteMsg::Send {
                contract: pair_contract.into_string(),
                amount,
                msg: hook_msg,
            })?,
        },
        AssetInfo::NativeToken { denom } => WasmMsg::Execute {
            contract_addr: pair_contract.into_string(),
            funds: vec![Coin { denom, amount }],
            msg: hook_msg,
        },
    };

    Ok(CosmosMsg::Wasm(msg))
"""))
# ---- asset etc
E("a_equal_match", ("asset", """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        match self {
            AssetInfo::Token { contract_addr, .. } => {
                let self_contract_addr = contract_addr;
                match asset {
                    AssetInfo::Token { contract_addr, .. } => self_contract_addr == contract_addr,
                    AssetInfo::NativeToken { .. } => false,
                }
            }
            AssetInfo::NativeToken { denom, .. } => {
                let self_denom = denom;
                match asset {
                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
    }
""", """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        match (self, asset) {
            (AssetInfo::Token { contract_addr: a }, AssetInfo::Token { contract_addr: b }) => a == b,
            (AssetInfo::NativeToken { denom: a }, AssetInfo::NativeToken { denom: b }) => a.eq(b),
            _ => false,
        }
    }
"""))
E("a_equal_derive", ("asset", """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        match self {
            AssetInfo::Token { contract_addr, .. } => {
                let self_contract_addr = contract_addr;
                match asset {
                    AssetInfo::Token { contract_addr, .. } => self_contract_addr == contract_addr,
                    AssetInfo::NativeToken { .. } => false,
                }
            }
            AssetInfo::NativeToken { denom, .. } => {
                let self_denom = denom;
                match asset {
                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
    }
""", """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        self == asset
    }
"""))
E("a_funds", ("asset", """        if let AssetInfo::NativeToken { denom } = &self.info {
            match message_info.funds.iter().find(|x| x.denom == *denom) {
                Some(coin) => {
                    if self.amount == coin.amount {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
                None => {
                    if self.amount.is_zero() {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
            }
        } else {
            Ok(())
        }
""", """        let denom = match &self.info {
            AssetInfo::NativeToken { denom } => denom,
            AssetInfo::Token { .. } => return Ok(()),
        };
        let sent = message_info
            .funds
            .iter()
            .find(|coin| &coin.denom == denom)
            .map(|coin| coin.amount)
            .unwrap_or_default();
        if sent != self.amount {
            return Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"));
        }
        Ok(())
"""))
E("a_into_msg", ("asset", """        let amount = self.amount;

        match &self.info {
            AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Transfer {
                    recipient: recipient.to_string(),
                    amount,
                })?,
                funds: vec![],
            })),
            AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient.to_string(),
                amount: vec![Coin {
                    amount: self.amount,
                    denom: denom.to_string(),
                }],
            })),
        }
""", """        let Asset { info, amount } = self;
        let msg: CosmosMsg = match info {
            AssetInfo::NativeToken { denom } => BankMsg::Send {
                to_address: recipient.into_string(),
                amount: cosmwasm_std::coins(amount.u128(), denom),
            }
            .into(),
            AssetInfo::Token { contract_addr } => cosmwasm_std::wasm_execute(
                contract_addr,
                &Cw20ExecuteMsg::Transfer { recipient: recipient.into_string(), amount },
                vec![],
            )?
            .into(),
        };
        Ok(msg)
"""))
E("a_pools_loop", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])
""", """        let load = |raw: &AssetInfoRaw| -> StdResult<Asset> {
            let info = raw.to_normal(api)?;
            let amount = info.query_pool(querier, api, contract_addr.clone())?;
            Ok(Asset { info, amount })
        };
        Ok([load(&self.asset_infos[0])?, load(&self.asset_infos[1])?])
"""))
E("a_asset_to_raw", ("asset", """        Ok(AssetRaw {
            info: match &self.info {
                AssetInfo::NativeToken { denom } => AssetInfoRaw::NativeToken {
                    denom: denom.to_string(),
                },
                AssetInfo::Token { contract_addr } => AssetInfoRaw::Token {
                    contract_addr: api.addr_canonicalize(contract_addr.as_str())?,
                },
            },
            amount: self.amount,
        })
""", """        self.info.to_raw(api).map(|info| AssetRaw { info, amount: self.amount })
"""))
E("q_generic", ("querier", """    let token_info: TokenInfoResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::TokenInfo {})?,
    }))?;

    Ok(token_info)
""", """    querier.query_wasm_smart(contract_addr, &Cw20QueryMsg::TokenInfo {})
"""), ("querier", """    let balance: BalanceResponse = querier.query(&QueryRequest::Bank(BankQuery::Balance {
        address: account_addr.to_string(),
        denom,
    }))?;
    Ok(balance.amount.amount)
""", """    querier
        .query_balance(account_addr, denom)
        .map(|coin| coin.amount)
"""), ("querier", "Addr, AllBalanceResponse, BalanceResponse, BankQuery", "Addr, AllBalanceResponse, BankQuery"))
E("t_symbol", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
""", """    bytes
        .iter()
        .all(|byte| *byte == b'-' || byte.is_ascii_alphabetic())
"""))
E("t_name", ("token", """    let bytes = name.as_bytes();
    if bytes.len() < 3 || bytes.len() > 50 {
        return false;
    }
    true
""", """    (3..=50).contains(&name.len())
"""))
E("t_cap", ("tokc", """    if let Some(limit) = msg.get_cap() {
        if total_supply > limit {
            return Err(ContractError::Std(StdError::generic_err(
                "Initial supply greater than cap",
            )));
        }
    }

    let mint = match msg.mint {
        Some(m) => Some(MinterData {
            minter: deps.api.addr_validate(&m.minter)?,
            cap: m.cap,
        }),
        None => None,
    };
""", """    if msg.get_cap().map_or(false, |limit| total_supply > limit) {
        return Err(StdError::generic_err("Initial supply greater than cap").into());
    }

    let mint = msg
        .mint
        .map(|m| -> StdResult<MinterData> {
            Ok(MinterData {
                minter: deps.api.addr_validate(&m.minter)?,
                cap: m.cap,
            })
        })
        .transpose()?;
"""))
E("m_display", ("math", """            let fractional_string = fractional.to_string();
            let fractional_string = "0".repeat(18 - fractional_string.len()) + &fractional_string;

            f.write_str(&whole.to_string())?;
            f.write_char('.')?;
            f.write_str(fractional_string.trim_end_matches('0'))?;

            Ok(())
""", """            let fractional_string = format!("{:0>18}", fractional.to_string());

            write!(f, "{}.{}", whole, fractional_string.trim_end_matches('0'))
"""), ("math", "use std::fmt::{self, Write};", "use std::fmt;"))
E("m_from_str", ("math", """        let parts: Vec<&str> = input.split('.').collect();
        match parts.len() {
            1 => {
                let whole = U256::from_dec_str(parts[0])
                    .map_err(|_| StdError::generic_err("Error parsing whole"))?;

                let whole_as_atomics = whole * Decimal256::DECIMAL_FRACTIONAL;
                Ok(Decimal256(whole_as_atomics))
            }
            2 => {
                let whole = U256::from_dec_str(parts[0])
                    .map_err(|_| StdError::generic_err("Error parsing whole"))?;
                let fractional = U256::from_dec_str(parts[1])
                    .map_err(|_| StdError::generic_err("Error parsing fractional"))?;
                let exp = (18usize.checked_sub(parts[1].len())).ok_or_else(|| {
                    StdError::generic_err("Cannot parse more than 18 fractional digits")
                })?;
                let fractional_factor""", """        let parts: Vec<&str> = input.split('.').collect();
        let parse_whole = |part: &str| {
            U256::from_dec_str(part).map_err(|_| StdError::generic_err("Error parsing whole"))
        };
        match parts.as_slice() {
            [whole] => {
                let whole_as_atomics = parse_whole(whole)? * Decimal256::DECIMAL_FRACTIONAL;
                Ok(Decimal256(whole_as_atomics))
            }
            [whole, fraction] => {
                let whole = parse_whole(whole)?;
                let fractional = U256::from_dec_str(fraction)
                    .map_err(|_| StdError::generic_err("Error parsing fractional"))?;
                if fraction.len() > 18 {
                    return Err(StdError::generic_err("Cannot parse more than 18 fractional digits"));
                }
                let exp = 18 - fraction.len();
                let fractional_factor"""))
E("m_mul_ratio", ("math", """        let val = self.0 * nominator / denominator;
        Uint256::from(val)
""", """        let product = self.0 * nominator;
        Uint256(product / denominator)
"""))
E("m_mul_noshort", ("math", """        if self.is_zero() || rhs.is_zero() {
            return Uint256::zero();
        }

        self.multiply_ratio(rhs.0, Decimal256::DECIMAL_FRACTIONAL)
""", """        self.multiply_ratio(rhs.0, Decimal256::DECIMAL_FRACTIONAL)
"""))
E("m_into_u128", ("math", """        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)
""", """        u128::from(arr[1]) << 64 | u128::from(arr[0])
"""))
E("m_from_u128", ("math", """        let (hi, low) = split_u128(val);
        Uint256(U256([low, hi, 0, 0]))
""", """        Uint256(U256([val as u64, (val >> 64) as u64, 0, 0]))
"""), ("math", """#[inline(always)]
fn split_u128(a: u128) -> (u64, u64) {
    ((a >> 64) as _, (a & 0xFFFFFFFFFFFFFFFF) as _)
}

""", ""))
E("m_subassert", ("math", """    fn sub(self, rhs: Self) -> Self {
        assert!(self.0 >= rhs.0);
        Decimal256(self.0 - rhs.0)
""", """    fn sub(self, rhs: Self) -> Self {
        if self.0 < rhs.0 {
            panic!("arithmetic operation underflow");
        }
        Decimal256(self.0 - rhs.0)
"""))
E("m_addassign", ("math", """    fn add_assign(&mut self, other: Self) {
        self.0 = self.0 + other.0;
""", """    fn add_assign(&mut self, other: Self) {
        *self = *self + other;
"""))
