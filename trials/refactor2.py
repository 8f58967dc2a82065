"""Behaviour-preserving edits, second set (other idioms): every check has to stay quiet on each."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# ---------------------------------------------------------------- pair
E("p2_recv_ladder", ("pair", """            if !authorized {
                return Err(ContractError::Unauthorized {});
            }

            let to_addr = if let Some(to_addr) = to {
                Some(deps.api.addr_validate(to_addr.as_str())?)
            } else {
                None
            };
""", """            if authorized == false {
                Err(ContractError::Unauthorized {})?;
            }

            let to_addr = match to {
                Some(addr) => {
                    let checked = deps.api.addr_validate(&addr)?;
                    Some(checked)
                }
                None => None,
            };
"""))
E("p2_recv_find", ("pair", """            let mut authorized: bool = false;
""", ""), ("pair", """            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
            if !authorized {
                return Err(ContractError::Unauthorized {});
            }
""", """            let caller = AssetInfo::Token {
                contract_addr: info.sender.to_string(),
            };
            if pools.iter().position(|pool| pool.info == caller).is_none() {
                return Err(ContractError::Unauthorized {});
            }
"""))
E("p2_recv_break", ("pair", """                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
""", """                    if contract_addr == &info.sender {
                        authorized = true;
                        break;
                    }
                }
            }
"""))
E("p2_recv_filter_count", ("pair", """            let mut authorized: bool = false;
""", ""), ("pair", """            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
""", """            let authorized = pools
                .iter()
                .filter_map(|pool| match &pool.info {
                    AssetInfo::Token { contract_addr } => Some(contract_addr.as_str()),
                    _ => None,
                })
                .filter(|addr| *addr == info.sender.as_str())
                .count()
                > 0;

"""))
E("p2_recv_from_binary_map_err", ("pair", """    match from_binary(&cw20_msg.msg) {
        Ok(Cw20HookMsg::Swap {""", """    let hook = from_binary::<Cw20HookMsg>(&cw20_msg.msg).map_err(ContractError::Std)?;
    match hook {
        Cw20HookMsg::Swap {"""), ("pair", """        Ok(Cw20HookMsg::WithdrawLiquidity {}) => {
            let config""", """        Cw20HookMsg::WithdrawLiquidity {} => {
            let config"""), ("pair", """            withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount)
        }
        Err(err) => Err(ContractError::Std(err)),
""", """            withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount)
        }
"""))
E("p2_recv_canon_compare", ("pair", """            if deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token {
                return Err(ContractError::Unauthorized {});
            }

            let sender_addr = deps.api.addr_validate(cw20_msg.sender.as_str())?;
            withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount)""", """            let caller = deps.api.addr_canonicalize(info.sender.as_str())?;
            if caller == config.liquidity_token {
                let sender_addr = deps.api.addr_validate(&cw20_msg.sender)?;
                return withdraw_liquidity(deps, env, info, sender_addr, cw20_msg.amount);
            }
            Err(ContractError::Unauthorized {})"""))
E("p2_reply_match", ("pair", """    PAIR_INFO.update(deps.storage, |mut meta| -> StdResult<_> {
        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        Ok(meta)
    })?;
""", """    PAIR_INFO.update(deps.storage, |meta| {
        api.addr_canonicalize(&liquidity_token)
            .map(|liquidity_token| PairInfoRaw { liquidity_token, ..meta })
    })?;
"""))
E("p2_prov_zip", ("pair", """    for (i, pool) in pools.iter_mut().enumerate() {
""", """    for (pool, deposit) in pools.iter_mut().zip(deposits.iter().copied()) {
"""), ("pair", """                    amount: deposits[i],
                })?,
                funds: vec![],
            }));
        } else {""", """                    amount: deposit,
                })?,
                funds: vec![],
            }));
        } else {"""), ("pair", "pool.amount = pool.amount.checked_sub(deposits[i])?;", "pool.amount = pool.amount.checked_sub(deposit)?;"))
E("p2_prov_index_loop", ("pair", """    for (i, pool) in pools.iter_mut().enumerate() {
""", """    let mut i = 0;
    while i < pools.len() {
        let pool = &mut pools[i];
"""), ("pair", """            pool.amount = pool.amount.checked_sub(deposits[i])?;
        }
    }
""", """            pool.amount = pool.amount.checked_sub(deposits[i])?;
        }
        i += 1;
    }
"""))
E("p2_prov_try_for_each", ("pair", """    for asset in assets.iter() {
        // check the balance of native token is sent with the message
        asset.assert_sent_native_token_balance(&info)?;
    }
""", """    assets
        .iter()
        .try_for_each(|asset| asset.assert_sent_native_token_balance(&info))?;
"""))
E("p2_prov_filter_next", ("pair", """    let deposits: [Uint128; 2] = [
        assets
            .iter()
            .find(|a| a.info.equal(&pools[0].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
        assets
            .iter()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];
""", """    let deposit_of = |wanted: &AssetInfo| -> Uint128 {
        for asset in &assets {
            if asset.info.equal(wanted) {
                return asset.amount;
            }
        }
        panic!("Wrong asset info is given")
    };
    let deposits: [Uint128; 2] = [deposit_of(&pools[0].info), deposit_of(&pools[1].info)];
"""))
E("p2_prov_filter_map", ("pair", """    let deposits: [Uint128; 2] = [
        assets
            .iter()
            .find(|a| a.info.equal(&pools[0].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
        assets
            .iter()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];
""", """    let mut deposits = [Uint128::zero(); 2];
    for (slot, pool) in deposits.iter_mut().zip(&pools) {
        *slot = assets
            .iter()
            .filter(|a| a.info.equal(&pool.info))
            .map(|a| a.amount)
            .next()
            .expect("Wrong asset info is given");
    }
"""))
E("p2_prov_array_map", ("pair", """    let deposits: [Uint128; 2] = [
        assets
            .iter()
            .find(|a| a.info.equal(&pools[0].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
        assets
            .iter()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];
""", """    let deposits: [Uint128; 2] = [0usize, 1].map(|i| {
        assets
            .iter()
            .find_map(|a| a.info.equal(&pools[i].info).then(|| a.amount))
            .expect("Wrong asset info is given")
    });
"""))
E("p2_prov_min_match", ("pair", """        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum
        {
            return""", """        let enough = deposits[0] >= pair_info.requirements.first_asset_minimum
            && deposits[1] >= pair_info.requirements.second_asset_minimum;
        if !enough {
            return"""))
E("p2_prov_min_all", ("pair", """        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum
        {
            return""", """        let minimums = [
            pair_info.requirements.first_asset_minimum,
            pair_info.requirements.second_asset_minimum,
        ];
        if deposits.iter().zip(minimums.iter()).any(|(d, m)| d < m) {
            return"""))
E("p2_prov_share_ifelse", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };
""", """        let by_first = deposits[0].multiply_ratio(total_share, pools[0].amount);
        let by_second = deposits[1].multiply_ratio(total_share, pools[1].amount);
        if by_first < by_second {
            by_first
        } else {
            by_second
        }
    };
"""))
E("p2_prov_share_iter_min", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };
""", """        deposits
            .iter()
            .zip(pools.iter())
            .map(|(deposit, pool)| deposit.multiply_ratio(total_share, pool.amount))
            .min()
            .unwrap()
    };
"""))
E("p2_prov_share_min_method", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };
""", """        deposits[1]
            .multiply_ratio(total_share, pools[1].amount)
            .min(deposits[0].multiply_ratio(total_share, pools[0].amount))
    };
"""))
E("p2_prov_zero_early", ("pair", """    if share.is_zero() {
        return Err(ContractError::InvalidZeroAmount {});
    }

    // mint LP""", """    match share.u128() {
        0 => return Err(ContractError::InvalidZeroAmount {}),
        _ => (),
    }

    // mint LP"""))
E("p2_prov_response_each", ("pair", """    Ok(Response::new().add_messages(messages).add_attributes(vec![
        ("action", "provide_liquidity"),
        ("sender", info.sender.as_str()),
        ("receiver", receiver.as_str()),
        ("assets", &format!("{}, {}", assets[0], assets[1])),
        ("share", &share.to_string()),
    ]))""", """    let mut response = Response::new()
        .add_attribute("action", "provide_liquidity")
        .add_attribute("sender", info.sender)
        .add_attribute("receiver", receiver)
        .add_attribute("assets", assets[0].to_string() + ", " + &assets[1].to_string())
        .add_attribute("share", share);
    for message in messages {
        response = response.add_message(message);
    }
    Ok(response)"""))
E("p2_prov_lp_once", ("pair", """        contract_addr: deps
            .api
            .addr_humanize(&pair_info.liquidity_token)?
            .to_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {""", """        contract_addr: liquidity_token.into_string(),
        msg: to_binary(&Cw20ExecuteMsg::Mint {"""), ("pair", "query_token_info(&deps.querier, liquidity_token)?.total_supply;\n\n    // calculate the amount of LP token is minted", "query_token_info(&deps.querier, liquidity_token.clone())?.total_supply;\n\n    // calculate the amount of LP token is minted"))
E("p2_wd_destructure", ("pair", """    let refund_assets: Vec<Asset> = pools
        .iter()
        .map(|a| Asset {
            info: a.info.clone(),
            amount: a.amount * share_ratio,
        })
        .collect();
""", """    let [first, second] = pools;
    let refund_assets = [
        Asset {
            amount: share_ratio * first.amount,
            ..first
        },
        Asset {
            amount: share_ratio * second.amount,
            ..second
        },
    ];
"""))
E("p2_wd_iter_msgs", ("pair", """    // update pool info
    Ok(Response::new()
        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.clone())?,
            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn""", """    let refunds = refund_assets
        .iter()
        .cloned()
        .map(|asset| asset.into_msg(sender.clone()))
        .collect::<StdResult<Vec<_>>>()?;

    // update pool info
    Ok(Response::new()
        .add_messages(refunds)
        .add_messages(vec![
            // burn"""))
E("p2_wd_mul_assign", ("pair", """    let refund_assets: Vec<Asset> = pools
        .iter()
        .map(|a| Asset {
            info: a.info.clone(),
            amount: a.amount * share_ratio,
        })
        .collect();
""", """    let mut refund_assets: Vec<Asset> = pools.to_vec();
    for asset in refund_assets.iter_mut() {
        asset.amount = asset.amount * share_ratio;
    }
"""))
E("p2_swap_index", ("pair", """    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
""", """    let side = pools
        .iter()
        .position(|pool| offer_asset.info.equal(&pool.info))
        .ok_or(ContractError::AssetMismatch {})?;
    let other = 1 - side;
    offer_pool = Asset {
        amount: pools[side].amount.checked_sub(offer_asset.amount)?,
        info: pools[side].info.clone(),
    };
    ask_pool = pools[other].clone();
    offer_decimal = pair_info.asset_decimals[side];
    ask_decimal = pair_info.asset_decimals[other];
"""))
E("p2_swap_reverse_array", ("pair", """    let offer_pool: Asset;
    let ask_pool: Asset;

    let offer_decimal: u8;
    let ask_decimal: u8;
    // If the asset balance is already increased
    // To calculated properly we should subtract user deposit from the pool
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
""", """    let mut sides = pools;
    let mut decimals = pair_info.asset_decimals;
    if !offer_asset.info.equal(&sides[0].info) {
        if !offer_asset.info.equal(&sides[1].info) {
            return Err(ContractError::AssetMismatch {});
        }
        sides.swap(0, 1);
        decimals.reverse();
    }
    let [mut offer_pool, ask_pool] = sides;
    let [offer_decimal, ask_decimal] = decimals;
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
"""))
E("p2_swap_to_map_or", ("pair", "    let receiver = to.unwrap_or_else(|| sender.clone());\n", "    let receiver = to.map_or(sender.clone(), |addr| addr);\n"))
E("p2_swap_to_as_ref", ("pair", "    let receiver = to.unwrap_or_else(|| sender.clone());\n", "    let receiver = to.as_ref().unwrap_or(&sender).clone();\n"))
E("p2_swap_msgs_option", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    if !return_amount.is_zero() {
        messages.push(return_asset.into_msg(receiver.clone())?);
    }
""", """    let payment = if return_amount > Uint128::zero() {
        Some(return_asset.into_msg(receiver.clone())?)
    } else {
        None
    };
    let messages = payment.into_iter();
"""))
E("p2_swap_fmt_attrs", ("pair", """        ("offer_asset", &offer_asset.info.to_string()),
        ("ask_asset", &ask_pool.info.to_string()),""", """        ("offer_asset", &format!("{}", offer_asset.info)),
        ("ask_asset", format!("{}", ask_pool.info).as_str()),"""))
E("p2_sim_destructure", ("pair", """    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {
        return_amount,
        spread_amount,
        commission_amount,
    })""", """    let result = compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {
        commission_amount: result.2,
        spread_amount: result.1,
        return_amount: result.0,
    })"""))
E("p2_compute_cmp", ("pair", """    let spread_amount: Uint256 = if ideal_amount > return_amount {
        ideal_amount - return_amount
    } else {
        Uint256::zero()
    };

    // calculate the commission_amount""", """    let spread_amount: Uint256 = match ideal_amount.cmp(&return_amount) {
        Ordering::Greater => ideal_amount - return_amount,
        Ordering::Equal | Ordering::Less => Uint256::zero(),
    };

    // calculate the commission_amount"""))
E("p2_compute_max", ("pair", """    let spread_amount: Uint256 = if ideal_amount > return_amount {
        ideal_amount - return_amount
    } else {
        Uint256::zero()
    };

    // calculate the commission_amount""", """    let spread_amount: Uint256 = std::cmp::max(ideal_amount, return_amount) - return_amount;

    // calculate the commission_amount"""))
E("p2_compute_cp_sub", ("pair", """    let offer_amount: Uint256 = Uint256::one()
        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;

    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
""", """    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
    let remaining = ask_pool - before_commission_deduction;
    let offer_amount: Uint256 = cp.multiply_ratio(Uint256::one(), remaining) - offer_pool;

"""))
E("p2_spread_pow_helper", ("pair", """            Ordering::Greater => {
                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());
""", """            Ordering::Greater => {
                let exponent = u32::from(offer_decimal) - u32::from(return_decimal);
                let diff_decimal = 10u64.pow(exponent);
"""))
E("p2_spread_if", ("pair", """        match offer_decimal.cmp(&return_decimal) {
            Ordering::Greater => {
                let diff""", """        match (offer_decimal > return_decimal, offer_decimal < return_decimal) {
            (true, _) => {
                let diff"""), ("pair", """            Ordering::Less => {
                let diff""", """            (false, true) => {
                let diff"""), ("pair", """            Ordering::Equal => (
                offer_asset.amount.into(),""", """            (false, false) => (
                offer_asset.amount.into(),"""), ("pair", "use std::cmp::Ordering;\n", ""))
E("p2_spread_nested", ("pair", """        if return_amount < expected_return
            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
        {
            return Err(ContractError::MaxSpreadAssertion {});
        }
""", """        if expected_return > return_amount {
            let ratio = Decimal256::from_ratio(spread_amount, expected_return);
            if !(ratio <= max_spread) {
                return Err(ContractError::MaxSpreadAssertion {});
            }
        }
"""))

# ---------------------------------------------------------------- factory
E("f2_owner_closure", ("factory", """    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {""", """    // permission check
    deps.api
        .addr_canonicalize(info.sender.as_str())
        .and_then(|sender| {
            if sender == config.owner {
                Ok(())
            } else {
                Err(StdError::generic_err("unauthorized"))
            }
        })?;

    if let Some(owner) = owner {"""))
E("f2_owner_humanize_match", ("factory", """    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id = code_id.unwrap_or(config.pair_code_id);
""", """    // permission check
    match deps.api.addr_canonicalize(info.sender.as_str())? {
        sender if sender.eq(&config.owner) => {}
        _ => return Err(StdError::generic_err("unauthorized")),
    }

    let code_id = match code_id {
        Some(code_id) => code_id,
        None => config.pair_code_id,
    };
"""))
E("f2_update_closure", ("factory", """    CONFIG.save(deps.storage, &config)?;

    Ok(Response::new().add_attribute("action", "update_config"))""", """    CONFIG.update(deps.storage, |_| -> StdResult<Config> { Ok(config) })?;

    Ok(Response::new().add_attribute("action", "update_config"))"""))
E("f2_update_replace", ("factory", """    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }

    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }
""", """    for (slot, value) in [
        (&mut config.pair_code_id, pair_code_id),
        (&mut config.token_code_id, token_code_id),
    ] {
        if let Some(value) = value {
            *slot = value;
        }
    }
"""))
E("f2_create_map_err", ("factory", """    let asset_1_decimal =
        match asset_infos[0].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset1 is invalid")),
        };

    let asset_2_decimal =
        match asset_infos[1].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),
        };
""", """    let mut asset_decimals = [0u8; 2];
    for (i, info) in asset_infos.iter().enumerate() {
        asset_decimals[i] = info
            .query_decimals(env.contract.address.clone(), &deps.querier)
            .map_err(|_| StdError::generic_err(format!("asset{} is invalid", i + 1)))?;
    }
    let [asset_1_decimal, asset_2_decimal] = asset_decimals;
"""))
E("f2_create_raw_iter", ("factory", """    let raw_infos = [
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ];

    // the same""", """    let [first_info, second_info] = &asset_infos;
    let raw_infos = [first_info.to_raw(deps.api)?, second_info.to_raw(deps.api)?];

    // the same"""))
E("f2_create_match_exists", ("factory", """    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {
        return Err(StdError::generic_err("Pair already exists"));
    }
""", """    match PAIRS.may_load(deps.storage, &pair_key)? {
        None => {}
        Some(_) => return Err(StdError::generic_err("Pair already exists")),
    }
"""))
E("f2_create_submsg", ("factory", """        .add_submessage(SubMsg {
            id: 1,
            gas_limit: None,
            msg: CosmosMsg::Wasm(WasmMsg::Instantiate {""", """        .add_submessage(SubMsg::reply_on_success(
            WasmMsg::Instantiate {"""), ("factory", """                    asset_decimals,
                    requirements,
                })?,
            }),
            reply_on: ReplyOn::Success,
        }))""", """                    asset_decimals,
                    requirements,
                })?,
            },
            1,
        )))"""), ("factory", "ReplyOn, ", ""), ("factory", "CosmosMsg::Wasm(WasmMsg::Migrate", "cosmwasm_std::CosmosMsg::Wasm(WasmMsg::Migrate"), ("factory", "CosmosMsg, ", ""))
E("f2_reply_struct", ("factory", """    PAIRS.save(
        deps.storage,
        &tmp_pair_info.pair_key,
        &PairInfoRaw {
            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            contract_addr: deps.api.addr_canonicalize(pair_contract)?,
            asset_infos: tmp_pair_info.asset_infos,
            asset_decimals: tmp_pair_info.asset_decimals,
            requirements: pair_info.requirements,
        },
    )?;
""", """    let TmpPairInfo {
        pair_key,
        asset_infos,
        asset_decimals,
    } = tmp_pair_info;
    let [contract_addr, liquidity_token] = [pair_contract, &pair_info.liquidity_token]
        .map(|addr| deps.api.addr_canonicalize(addr));
    let entry = PairInfoRaw {
        asset_infos,
        contract_addr: contract_addr?,
        liquidity_token: liquidity_token?,
        asset_decimals,
        requirements: pair_info.requirements.clone(),
    };
    PAIRS.save(deps.storage, pair_key.as_slice(), &entry)?;
"""))
E("f2_query_pairs_transpose", ("factory", """    let start_after = if let Some(start_after) = start_after {
        Some([
            start_after[0].to_raw(deps.api)?,
            start_after[1].to_raw(deps.api)?,
        ])
    } else {
        None
    };
""", """    let start_after = start_after
        .map(|[first, second]| -> StdResult<_> {
            Ok([first.to_raw(deps.api)?, second.to_raw(deps.api)?])
        })
        .transpose()?;
"""))
E("f2_key_if", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}""", """    let (a, b) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    let (low, high) = if a <= b { (a, b) } else { (b, a) };
    let mut key = Vec::with_capacity(low.len() + high.len());
    key.extend_from_slice(low);
    key.extend_from_slice(high);
    key
}"""))
E("f2_key_sort_by_key", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}""", """    let mut parts = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()];
    parts.sort();
    parts.concat()
}"""))
E("f2_key_min_max", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}""", """    let (a, b) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    let mut key = a.min(b).to_vec();
    key.append(&mut a.max(b).to_vec());
    key
}"""))
E("f2_range_call", ("fstate", """    start_after.map(|asset_infos| {
        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
    })""", """    match start_after {
        None => None,
        Some(asset_infos) => {
            let v = pair_key(&asset_infos);
            Some(v)
        }
    }"""))
E("f2_range_inclusive", ("fstate", "    let start = calc_range_start(start_after).map(Bound::ExclusiveRaw);\n", """    let start = calc_range_start(start_after).map(|mut key| {
        key.push(0);
        Bound::InclusiveRaw(key)
    });
"""))
E("f2_limit_cmp", ("fstate", "    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;\n", """    let limit = match limit {
        Some(n) if n < MAX_LIMIT => n,
        Some(_) => MAX_LIMIT,
        None => DEFAULT_LIMIT,
    } as usize;
"""))
E("f2_limit_map_or", ("fstate", "    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;\n", "    let limit = limit.map_or(DEFAULT_LIMIT, |n| std::cmp::min(n, MAX_LIMIT)) as usize;\n"))
E("f2_read_values", ("fstate", """        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
""", """        .map(|item| item.and_then(|(_, pair)| pair.to_normal(api)))
"""))

# ---------------------------------------------------------------- router
E("r2_enumerate", ("router", """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok""", """    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .enumerate()
        .map(|(operation_index, op)| {
            Ok"""), ("router", "if operation_index == operations_len {", "if operation_index + 1 == operations_len {"))
E("r2_then", ("router", """                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },""", """                    to: (operation_index == operations_len).then(|| to.to_string()),"""))
E("r2_pop", ("router", """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
""", """    let hop = |operation: SwapOperation, to: Option<String>| -> StdResult<CosmosMsg> {
        Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }))
    };
    let mut operations = operations;
    let last = operations.pop().unwrap();
    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(operations_len + 1);
    for operation in operations {
        messages.push(hop(operation, None)?);
    }
    messages.push(hop(last, Some(to.to_string()))?);
"""))
E("r2_last_target", ("router", "operations.last().unwrap().get_target_asset_info();", "operations[operations_len - 1].get_target_asset_info();"))
E("r2_min_sub", ("router", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;

    if swap_amount < minium_receive {""", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;
    let short = minium_receive > swap_amount;

    if short {"""))
E("r2_assert_retain", ("router", """    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
""", """    let mut outputs: Vec<String> = vec![];
"""), ("router", """        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
    }

    if ask_asset_map.keys().len() != 1 {""", """        let (offered, asked) = (offer_asset.to_string(), ask_asset.to_string());
        outputs.retain(|produced| *produced != offered);
        if !outputs.contains(&asked) {
            outputs.push(asked);
        }
    }

    if outputs.len() != 1 {"""), ("router", "use std::collections::HashMap;\n", ""))
E("r2_assert_len", ("router", "    if ask_asset_map.keys().len() != 1 {", "    if ask_asset_map.len() != 1 {"))
E("r2_opt_addr", ("router", """    let addr = if let Some(addr) = addr {
        Some(api.addr_validate(&addr)?)
    } else {
        None
    };

    Ok(addr)""", """    match addr {
        Some(addr) => api.addr_validate(&addr).map(Some),
        None => Ok(None),
    }"""))
E("r2_sim_try_fold", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let pair_info: PairInfo = query_pair_info(
                    &deps.querier,
                    halo_factory.clone(),
                    &[offer_asset_info.clone(), ask_asset_info.clone()],
                )?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    Addr::unchecked(pair_info.contract_addr),
                    &Asset {
                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                offer_amount = res.return_amount;
            }
        }
    }

    Ok(SimulateSwapOperationsResponse {
        amount: offer_amount,
    })""", """    let simulate_hop = |amount: Uint128, operation: SwapOperation| -> StdResult<Uint128> {
        let SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } = operation;
        let infos = [offer_asset_info, ask_asset_info];
        let pair_info: PairInfo = query_pair_info(&deps.querier, halo_factory.clone(), &infos)?;
        let [info, _] = infos;
        let res: SimulationResponse = simulate(
            &deps.querier,
            Addr::unchecked(pair_info.contract_addr),
            &Asset { info, amount },
        )?;
        Ok(res.return_amount)
    };

    operations
        .into_iter()
        .try_fold(offer_amount, simulate_hop)
        .map(|amount| SimulateSwapOperationsResponse { amount })"""))
E("r2_rev_index", ("router", """    for operation in operations.into_iter().rev() {
        ask_amount = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let halo""", """    for index in (0..operations_len).rev() {
        ask_amount = match operations[index].clone() {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let halo"""))
E("r2_rev_question", ("router", """                    offer_asset_info,
                    ask_asset_info,
                )
                .unwrap()
            }""", """                    offer_asset_info,
                    ask_asset_info,
                )?
            }"""))
E("o2_msg_common", ("ops", """    match offer_asset.info.clone() {
        AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: pair_contract.to_string(),
            funds: vec![Coin {
                denom,
                amount: offer_asset.amount,
            }],
            msg: to_binary(&PairHookMsg::Swap {
                belief_price: None,
                max_spread,
                to,
            })?,
        })),
        AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr,
            funds: vec![],
            msg: to_binary(&Cw20ExecuteMsg::Send {
                contract: pair_contract.to_string(),
                amount: offer_asset.amount,
                msg: to_binary(&PairHookMsg::Swap {
                    belief_price: None,
                    max_spread,
                    to,
                })?,
            })?,
        })),
    }""", """    let Asset { info, amount } = offer_asset;
    let hook = to_binary(&PairHookMsg::Swap {
        belief_price: None,
        max_spread,
        to,
    })?;
    let (contract_addr, msg, funds) = match info {
        AssetInfo::NativeToken { denom } => {
            (pair_contract.into_string(), hook, vec![Coin { denom, amount }])
        }
        AssetInfo::Token { contract_addr } => {
            let send = Cw20ExecuteMsg::Send {
                contract: pair_contract.into_string(),
                amount,
                msg: hook,
            };
            (contract_addr, to_binary(&send)?, Vec::new())
        }
    };
    Ok(WasmMsg::Execute {
        contract_addr,
        msg,
        funds,
    }
    .into())"""))
E("o2_guard_eq", ("ops", """    if env.contract.address != info.sender {
        return Err(StdError::generic_err("unauthorized"));
    }
""", """    let internal = info.sender.as_str() == env.contract.address.as_str();
    if !internal {
        return Err(StdError::generic_err("unauthorized"));
    }
"""))
E("o2_query_pool_amount", ("ops", """            let offer_asset: Asset = Asset {
                info: offer_asset_info,
                amount,
            };

            vec![asset_into_swap_msg(
                deps.as_ref(),
                Addr::unchecked(pair_info.contract_addr),
                offer_asset,
                None,
                to,
            )?]""", """            let pair_contract = Addr::unchecked(pair_info.contract_addr);
            let offer_asset = Asset { info: offer_asset_info, amount };
            std::iter::once(asset_into_swap_msg(deps.as_ref(), pair_contract, offer_asset, None, to))
                .collect::<StdResult<Vec<_>>>()?"""))

# ---------------------------------------------------------------- packages
E("a2_funds_if", ("asset", """            match message_info.funds.iter().find(|x| x.denom == *denom) {
                Some(coin) => {
                    if self.amount == coin.amount {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
                None => {
                    if self.amount.is_zero() {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
            }
        } else {
            Ok(())
        }""", """            let sent = message_info
                .funds
                .iter()
                .find(|x| &x.denom == denom)
                .map(|coin| coin.amount)
                .unwrap_or_default();
            if sent != self.amount {
                return Err(StdError::generic_err(
                    "Native token balance mismatch between the argument and the transferred",
                ));
            }
        }
        Ok(())"""))
E("a2_funds_loop", ("asset", """            match message_info.funds.iter().find(|x| x.denom == *denom) {
                Some(coin) => {
                    if self.amount == coin.amount {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
                None => {
                    if self.amount.is_zero() {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
            }
        } else {
            Ok(())
        }""", """            let mut sent = Uint128::zero();
            for coin in &message_info.funds {
                if coin.denom.as_str() == denom.as_str() {
                    sent = coin.amount;
                    break;
                }
            }
            if sent == self.amount {
                Ok(())
            } else {
                Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
            }
        } else {
            Ok(())
        }"""))
E("a2_equal_tuple", ("asset", """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        match self {
            AssetInfo::Token { contract_addr, .. } => {
                let self_contract_addr = contract_addr;
                match asset {
                    AssetInfo::Token { contract_addr, .. } => self_contract_addr == contract_addr,
                    AssetInfo::NativeToken { .. } => false,
                }
            }
            AssetInfo::NativeToken { denom, .. } => {
                let self_denom = denom;
                match asset {
                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
    }
""", """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        self.is_native_token() == asset.is_native_token() && self.identifier() == asset.identifier()
    }

    fn identifier(&self) -> &str {
        match self {
            AssetInfo::Token { contract_addr } => contract_addr,
            AssetInfo::NativeToken { denom } => denom,
        }
    }
"""))
E("a2_native_matches", ("asset", """        match self {
            AssetInfo::NativeToken { .. } => true,
            AssetInfo::Token { .. } => false,
        }""", "        matches!(self, AssetInfo::NativeToken { .. })"))
E("a2_into_msg_vec", ("asset", """    pub fn into_msg(self, recipient: Addr) -> StdResult<CosmosMsg> {
        let amount = self.amount;

        match &self.info {""", """    pub fn into_msg(self, recipient: Addr) -> StdResult<CosmosMsg> {
        let Asset { info, amount } = &self;
        let amount = *amount;

        match info {"""))
E("a2_pools_closure", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])""", """        let pool = |raw: &AssetInfoRaw| -> StdResult<Asset> {
            let info = raw.to_normal(api)?;
            let amount = info.query_pool(querier, api, contract_addr.clone())?;
            Ok(Asset { info, amount })
        };
        let [first, second] = &self.asset_infos;
        Ok([pool(first)?, pool(second)?])"""))
E("a2_pools_vec", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])""", """        let mut pools = Vec::with_capacity(2);
        for raw in self.asset_infos.iter() {
            let info = raw.to_normal(api)?;
            pools.push(Asset {
                amount: info.query_pool(querier, api, contract_addr.clone())?,
                info,
            });
        }
        let second = pools.remove(1);
        let first = pools.remove(0);
        Ok([first, second])"""))
E("a2_asset_to_normal", ("asset", """            info: match &self.info {
                AssetInfoRaw::NativeToken { denom } => AssetInfo::NativeToken {
                    denom: denom.to_string(),
                },
                AssetInfoRaw::Token { contract_addr } => AssetInfo::Token {
                    contract_addr: api.addr_humanize(contract_addr)?.to_string(),
                },
            },
            amount: self.amount,""", """            amount: self.amount,
            info: self.info.to_normal(api)?,"""))
E("q2_generic_fn", ("querier", """    let res: Cw20BalanceResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::Balance {
            address: account_addr.to_string(),
        })?,
    }))?;
""", """    let res: Cw20BalanceResponse = querier.query_wasm_smart(
        contract_addr,
        &Cw20QueryMsg::Balance {
            address: account_addr.into_string(),
        },
    )?;
"""))
E("q2_bank_helper", ("querier", """    let balance: BalanceResponse = querier.query(&QueryRequest::Bank(BankQuery::Balance {
        address: account_addr.to_string(),
        denom,
    }))?;
    Ok(balance.amount.amount)""", """    querier
        .query_balance(account_addr, denom)
        .map(|coin| coin.amount)"""))
E("t2_symbol_range", ("token", """""", """""")) if 0 else None
E("m2_mul_zero_order", ("math", """        // 0*a and b*0 is always 0
        if self.is_zero() || rhs.is_zero() {
            return Uint256::zero();
        }

        self.multiply_ratio(rhs.0, Decimal256::DECIMAL_FRACTIONAL)""", """        match (rhs.is_zero(), self.is_zero()) {
            (false, false) => self.multiply_ratio(rhs.0, Decimal256::DECIMAL_FRACTIONAL),
            _ => Uint256::zero(),
        }"""))
EDITS = {k: v for k, v in EDITS.items() if v}
