"""Behaviour-breaking edits, named after the property they break."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# C01: authorisation by pool token
E("C01_lp_swap", ("pair", """            if !authorized {
                return Err""", """            let lp = deps.api.addr_canonicalize(info.sender.as_str())?;
            if !authorized && lp != config.liquidity_token {
                return Err"""))
E("C01_offer_from_pool0", ("pair", """                        contract_addr: contract_addr.to_string(),
                    },
                    amount: cw20_msg.amount,""", """                        contract_addr: if contract_addr.as_str().starts_with("asset") { contract_addr.to_string() } else { pools[0].info.to_string() },
                    },
                    amount: cw20_msg.amount,"""))
# C02
E("C02_empty_lp", ("pair", """            if deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token {""", """            if !config.liquidity_token.is_empty()
                && deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token
            {"""))
E("C02_hook_sender", ("pair", """            if deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token {""", """            if deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token
                && deps.api.addr_canonicalize(cw20_msg.sender.as_str())? != config.liquidity_token
            {"""))
# C03
E("C03_commission_up", ("pair", """    let commission_amount: Uint256 = return_amount * commission_rate;

    // commission will""", """    let commission_amount: Uint256 = if ask_pool > offer_pool * Uint256::from(1000u64) { offer_amount * commission_rate } else { return_amount * commission_rate };

    // commission will"""))
E("C03_commission_min", ("pair", """    let return_amount: Uint256 = return_amount - commission_amount;
    (""", """    let return_amount: Uint256 = if commission_amount.is_zero() && return_amount > Uint256::one() { return_amount - Uint256::one() } else { return_amount - commission_amount };
    ("""))
# C04
E("C04_self_receiver", ("pair", """    let receiver = to.unwrap_or_else(|| sender.clone());

    let mut messages""", """    let receiver = match to {
        Some(to) if to != info.sender => to,
        _ => sender.clone(),
    };

    let mut messages"""))
E("C04_dust_skip", ("pair", """    if !return_amount.is_zero() {
        messages""", """    if return_amount > commission_amount {
        messages"""))
E("C04_hook_to_lower", ("pair", """            let to_addr = if let Some(to_addr) = to {
                Some(deps.api.addr_validate(to_addr.as_str())?)
            } else {
                None
            };

            swap(""", """            let to_addr = to.and_then(|to_addr| deps.api.addr_validate(to_addr.as_str()).ok());

            swap("""))
# C05
E("C05_decimals_swapped", ("pair", """        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];""", """        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];"""))
E("C05_spread_scale", ("pair", """                    spread_amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),
""", """                    spread_amount.into(),
"""))
E("C05_zero_max", ("pair", """    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.into();""", """    } else if let Some(max_spread) = max_spread.filter(|v| !v.is_zero()) {
        let max_spread: Decimal256 = max_spread.into();"""))
E("C05_denominator", ("pair", "Decimal256::from_ratio(spread_amount, expected_return) > max_spread", "Decimal256::from_ratio(spread_amount, offer_amount) > max_spread"))
E("C05_gross", ("pair", """    let return_asset = Asset {
        info: ask_pool.info.clone(),
        amount: return_amount,
    };

    // check max spread limit if exist
    assert_max_spread(
        belief_price,
        max_spread,
        offer_asset.clone(),
        return_asset.clone(),""", """    let return_asset = Asset {
        info: ask_pool.info.clone(),
        amount: return_amount,
    };

    // check max spread limit if exist
    assert_max_spread(
        belief_price,
        max_spread,
        offer_asset.clone(),
        Asset {
            info: ask_pool.info.clone(),
            amount: return_amount + commission_amount,
        },"""))
# C06
E("C06_round_up", ("pair", """            amount: a.amount * share_ratio,
""", """            amount: a.amount.multiply_ratio(share_ratio.atomics(), Uint128::from(999_999_999_999_999_999u128)),
"""))
E("C06_cap_uneven", ("pair", """            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn""", """            refund_assets[1].clone().into_msg(if refund_assets[0].amount.is_zero() { env_addr.clone() } else { sender.clone() })?,
            // burn"""), ("pair", """    let pools: [Asset; 2] = pair_info.query_pools(&deps.querier, deps.api, env.contract.address)?;
    let total_share: Uint128""", """    let env_addr = env.contract.address.clone();
    let pools: [Asset; 2] = pair_info.query_pools(&deps.querier, deps.api, env.contract.address)?;
    let total_share: Uint128"""))
E("C06_burn_less", ("pair", """                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,""", """                msg: to_binary(&Cw20ExecuteMsg::Burn {
                    amount: if amount == total_share { amount - Uint128::from(1u128) } else { amount },
                })?,"""))
# C07
E("C07_same_asset_twice", ("pair", """            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect""", """            .rev()
            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect"""))
E("C07_owner_receiver", ("pair", """                    owner: info.sender.to_string(),""", """                    owner: receiver.clone().unwrap_or_else(|| info.sender.to_string()),"""))
E("C07_first_native_only", ("pair", """    for asset in assets.iter() {
        // check the balance of native token is sent with the message
        asset.assert_sent_native_token_balance(&info)?;
    }
""", """    // check the balance of native token is sent with the message
    if let Some(asset) = assets.iter().find(|a| a.is_native_token()) {
        asset.assert_sent_native_token_balance(&info)?;
    }
"""))
E("C07_transfer_remaining", ("pair", """                    recipient: env.contract.address.to_string(),
                    amount: deposits[i],""", """                    recipient: env.contract.address.to_string(),
                    amount: deposits[i].min(deposits[1 - i].saturating_mul(Uint128::from(1_000_000_000_000u128))),"""))
# C08
E("C08_pool_empty", ("pair", """    let share = if total_share == Uint128::zero() {""", """    let share = if total_share == Uint128::zero() && pools[0].amount.is_zero() {"""))
E("C08_min_or", ("pair", """        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] <""", """        if deposits[0] < pair_info.requirements.first_asset_minimum
            && deposits[1] <"""))
E("C08_receiver_whitelist", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {""", """        if !pair_info.requirements.whitelist.contains(&info.sender)
            && !receiver.iter().any(|r| pair_info.requirements.whitelist.contains(&Addr::unchecked(r)))
        {"""))
E("C08_min_assets_order", ("pair", """        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum""", """        if assets[0].amount < pair_info.requirements.first_asset_minimum
            || assets[1].amount < pair_info.requirements.second_asset_minimum"""))
# C09
E("C09_pool_after", ("pair", """            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )""", """            deposits[1].multiply_ratio(total_share, if pools[1].is_native_token() { pools[1].amount } else { pools[1].amount + deposits[1] }),
        )"""))
E("C09_zero", ("pair", """    if share.is_zero() {
        return Err(ContractError::InvalidZeroAmount {});""", """    if deposits[0].is_zero() || deposits[1].is_zero() {
        return Err(ContractError::InvalidZeroAmount {});"""))
E("C09_receiver", ("pair", """            recipient: receiver.to_string(),
            amount: share,""", """            recipient: if total_share.is_zero() { info.sender.to_string() } else { receiver.to_string() },
            amount: share,"""))
# C10
E("C10_one_side", ("pair", """            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::from_ratio(pools[1], pools[0])""", """            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::from_ratio(pools[1] + deposits[1], pools[0] + deposits[0])"""))
E("C10_order_before", ("pair", """    // if the user provides the slippage tolerance, we should check it
    assert_slippage_tolerance(&slippage_tolerance, &deposits, &pools)?;

""", ""), ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    for (i, pool) in""", """    assert_slippage_tolerance(&slippage_tolerance, &deposits, &pools)?;
    let mut messages: Vec<CosmosMsg> = vec![];
    for (i, pool) in"""))
E("C10_arg_order", ("pair", "assert_slippage_tolerance(&slippage_tolerance, &deposits, &pools)?;", "assert_slippage_tolerance(&slippage_tolerance, &[assets[0].amount, assets[1].amount], &pools)?;"))
# C11
E("C11_reply_requirements", ("pair", """        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
""", """        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        meta.asset_decimals.sort_unstable();
"""))
E("C11_clear_whitelist", ("pair", """    // prevent providing free token (one of the deposits is zero)
""", """    if total_share.is_zero() {
        let mut updated = pair_info.clone();
        updated.requirements.whitelist.retain(|a| a != &info.sender);
        PAIR_INFO.save(deps.storage, &updated)?;
    }
    // prevent providing free token (one of the deposits is zero)
"""))
E("C11_inst_order", ("pair", """            msg.asset_infos[0].to_raw(deps.api)?,
            msg.asset_infos[1].to_raw(deps.api)?,
        ],
        asset_decimals: msg.asset_decimals,""", """            msg.asset_infos[0].to_raw(deps.api)?,
            msg.asset_infos[1].to_raw(deps.api)?,
        ],
        asset_decimals: if msg.asset_infos[0].is_native_token() { msg.asset_decimals } else { [msg.asset_decimals[0], msg.asset_decimals[1].min(18)] },"""))
# C12
E("C12_sim_offer_in_pool", ("pair", """        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {""", """        compute_swap(offer_pool.amount.saturating_sub(if offer_asset.is_native_token() { Uint128::zero() } else { Uint128::from(1u128) }), ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {"""))
E("C12_sim_swapfields", ("pair", """    Ok(SimulationResponse {
        return_amount,
        spread_amount,
        commission_amount,
    })""", """    Ok(SimulationResponse {
        return_amount,
        spread_amount: spread_amount.saturating_sub(commission_amount),
        commission_amount,
    })"""))
# C13
E("C13_no_commission_inverse", ("pair", """        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;""", """        .multiply_ratio(cp, ask_pool - (ask_amount + ask_amount * commission_rate))
        - offer_pool;"""))
E("C13_sides", ("pair", """        ask_pool = pools[1].clone();
        offer_pool = pools[0].clone();""", """        ask_pool = pools[0].clone();
        offer_pool = pools[1].clone();"""))
E("C13_commission", ("pair", "let commission_amount = before_commission_deduction * commission_rate;", "let commission_amount = before_commission_deduction - ask_amount;"))
# C14
E("C14_pool_share", ("pair", """    let resp = PoolResponse {
        assets,
        total_share,
    };""", """    let total_share = if assets.iter().all(|a| a.amount.is_zero()) { Uint128::zero() } else { total_share };
    let resp = PoolResponse {
        assets,
        total_share,
    };"""))
E("C14_pair_lp", ("asset", """            liquidity_token: api.addr_humanize(&self.liquidity_token)?.to_string(),
            contract_addr: api.addr_humanize(&self.contract_addr)?.to_string(),""", """            liquidity_token: api
                .addr_humanize(&self.liquidity_token)
                .map(|a| a.to_string())
                .unwrap_or_default(),
            contract_addr: api.addr_humanize(&self.contract_addr)?.to_string(),"""))
# C15
E("C15_return_gross", ("pair", """        ("return_amount", &return_amount.to_string()),
        ("spread_amount", &spread_amount.to_string()),""", """        ("return_amount", &(return_amount + commission_amount).to_string()),
        ("spread_amount", &spread_amount.to_string()),"""))
E("C15_provide_assets", ("pair", """        ("assets", &format!("{}, {}", assets[0], assets[1])),
        ("share\"""", """        ("assets", &format!("{}{}, {}{}", deposits[0], pools[0].info, deposits[1], pools[1].info)),
        ("share\""""))
E("C15_sender", ("pair", """        ("action", "swap"),
        ("sender", sender.as_str()),""", """        ("action", "swap"),
        ("sender", receiver.as_str()),"""))
# C16
E("C16_or_self", ("factory", """    let code_id = code_id.unwrap_or(config.pair_code_id);
""", """    let code_id = code_id.unwrap_or(config.pair_code_id);
"""), ("factory", """    _env: Env,
    info: MessageInfo,
    contract: String,
    code_id: Option<u64>,
) -> StdResult<Response> {
    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {""", """    _env: Env,
    info: MessageInfo,
    contract: String,
    code_id: Option<u64>,
) -> StdResult<Response> {
    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if code_id.is_some() && deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {"""))
E("C16_readd", ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let balance""", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if ALLOW_NATIVE_TOKENS.may_load(deps.storage, denom.as_bytes())?.is_none()
        && deps.api.addr_canonicalize(info.sender.as_str())? != config.owner
    {
        return Err(StdError::generic_err("unauthorized"));
    }

    let balance"""))
E("C16_owner_first", ("factory", """    let mut config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {
        // validate address format
        let _ = deps.api.addr_validate(&owner)?;

        config.owner = deps.api.addr_canonicalize(&owner)?;
    }
""", """    let mut config: Config = CONFIG.load(deps.storage)?;

    if let Some(owner) = owner {
        // validate address format
        let _ = deps.api.addr_validate(&owner)?;

        config.owner = deps.api.addr_canonicalize(&owner)?;
    }

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }
"""))
# C17
E("C17_zero_code", ("factory", """    if let Some(token_code_id) = token_code_id {
        config""", """    if let Some(token_code_id) = token_code_id.or(pair_code_id.filter(|id| *id == config.token_code_id)) {
        config"""))
E("C17_swap", ("factory", """    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }
""", """    if let Some(pair_code_id) = pair_code_id {
        if token_code_id.is_none() || owner_changed {
            config.pair_code_id = pair_code_id;
        }
    }
"""), ("factory", """    if let Some(owner) = owner {
        // validate""", """    let owner_changed = owner.is_some();
    if let Some(owner) = owner {
        // validate"""))
E("C17_default", ("factory", """        token_code_id: state.token_code_id,
        pair_code_id: state.pair_code_id,
    };

    Ok(resp)""", """        token_code_id: state.pair_code_id,
        pair_code_id: state.token_code_id,
    };

    Ok(resp)"""))
# C18/19
E("C19_key_sort", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}

// settings""", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().len().cmp(&b.as_bytes().len()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}

// settings"""))
E("C19_key_trunc", ("fstate", """    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}

// settings""", """    let mut key = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat();
    key.truncate(128);
    key
}

// settings"""))
E("C19_key_lower", ("asset", """            AssetInfoRaw::Token { contract_addr } => contract_addr.as_slice(),
""", """            AssetInfoRaw::Token { contract_addr } => {
                let bytes = contract_addr.as_slice();
                &bytes[..bytes.len().min(32)]
            }
"""))
# C20
E("C20_reply_pairinfo", ("factory", """            asset_decimals: tmp_pair_info.asset_decimals,
            requirements""", """            asset_decimals: pair_info.asset_decimals,
            requirements"""))
E("C20_assets_order", ("factory", """            asset_infos: tmp_pair_info.asset_infos,
            asset""", """            asset_infos: {
                let mut infos = tmp_pair_info.asset_infos;
                infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
                infos
            },
            asset"""))
# C21
E("C21_default_decimals", ("factory", """            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),""", """            Ok(decimal) => decimal,
            Err(_) if asset_infos[1].is_native_token() => 6u8,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),"""))
E("C21_funds", ("factory", """                funds: vec![],
                admin: Some(env.contract.address.to_string()),""", """                funds: vec![],
                admin: Some(requirements.whitelist.first().map(|a| a.to_string()).unwrap_or_else(|| env.contract.address.to_string())),"""))
E("C21_decimals_order", ("factory", "let asset_decimals = [asset_1_decimal, asset_2_decimal];", "let mut asset_decimals = [asset_1_decimal, asset_2_decimal];\n    if asset_infos[0].to_string() > asset_infos[1].to_string() {\n        asset_decimals.reverse();\n    }"))
# C22
E("C22_total", ("factory", """    add_allow_native_token(deps.storage, denom.to_string(), decimals)?;
""", """    let known = ALLOW_NATIVE_TOKENS.may_load(deps.storage, denom.as_bytes())?;
    add_allow_native_token(deps.storage, denom.to_string(), known.unwrap_or(decimals))?;
"""))
E("C22_balance_skip", ("factory", """    if balance.is_zero() {
        return Err""", """    if balance.is_zero() && !info.funds.iter().any(|c| c.denom == denom) {
        return Err"""))
E("C22_trim", ("fstate", """    ALLOW_NATIVE_TOKENS.save(storage, denom.as_bytes(), &decimals)
}
""", """    ALLOW_NATIVE_TOKENS.save(storage, denom.trim_end_matches('/').as_bytes(), &decimals)
}
"""))
# C23
E("C23_zero", ("factory", "let code_id = code_id.unwrap_or(config.pair_code_id);", "let code_id = code_id.filter(|id| *id > config.token_code_id).unwrap_or(config.pair_code_id);"))
# C24
E("C24_min_bound", ("fstate", "let start = calc_range_start(start_after).map(Bound::ExclusiveRaw);", "let start = calc_range_start(start_after).map(Bound::InclusiveRaw);"))
E("C24_cursor_unsorted", ("fstate", """        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        [asset""", """        [asset"""))
E("C24_filter", ("fstate", """        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect""", """        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .filter(|item| item.is_ok())
        .collect"""))
E("C24_limit", ("fstate", "limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize", "limit.map_or(DEFAULT_LIMIT, |l| if l > MAX_LIMIT { DEFAULT_LIMIT } else { l }) as usize"))
# C25
E("C25_admin_bypass", ("ops", "    if env.contract.address != info.sender {", "    if env.contract.address != info.sender && to.is_some() {"))
E("C25_factory", ("ops", """    if env.contract.address != info.sender {
        return Err(StdError::generic_err("unauthorized"));
    }
""", """    if env.contract.address != info.sender {
        let config: Config = CONFIG.load(deps.as_ref().storage)?;
        if deps.api.addr_humanize(&config.halo_factory)? != info.sender {
            return Err(StdError::generic_err("unauthorized"));
        }
    }
"""))
# C26
E("C26_to_target", ("router", """                    to: if operation_index == operations_len {
                        Some""", """                    to: if operation_index == operations_len || op.get_target_asset_info() == target_asset_info {
                        Some"""), ("router", """            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to""", """            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op.clone(),
                    to"""))
E("C26_dedup", ("router", """    let mut operation_index = 0;
""", """    let mut operations = operations;
    operations.dedup();
    let operations_len = operations.len();
    let mut operation_index = 0;
"""))
# C27
E("C27_prev_router", ("router", "let receiver_balance = target_asset_info.query_pool(&deps.querier, deps.api, to.clone())?;", "let receiver_balance = operations_target(&target_asset_info).query_pool(&deps.querier, deps.api, if operations_len > 1 { to.clone() } else { env.contract.address.clone() })?;"), ("router", """fn assert_minium_receive(
    deps: Deps,""", """fn operations_target(info: &AssetInfo) -> &AssetInfo {
    info
}

fn assert_minium_receive(
    deps: Deps,"""))
E("C27_saturating", ("router", "let swap_amount = receiver_balance.checked_sub(prev_balance)?;", "let swap_amount = if prev_balance > receiver_balance { receiver_balance } else { receiver_balance.checked_sub(prev_balance)? };"))
E("C27_zero_min", ("router", "    if let Some(minimum_receive) = minimum_receive {\n        let", "    if let Some(minimum_receive) = minimum_receive.filter(|m| m.u128() > 1) {\n        let"))
# C28
E("C28_len1", ("router", "    if ask_asset_map.keys().len() != 1 {", "    if ask_asset_map.keys().len() > 1 {"))
E("C28_offer_after", ("router", """        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
""", """        ask_asset_map.insert(ask_asset.to_string(), true);
        ask_asset_map.remove(&offer_asset.to_string());
"""))
# C29
E("C29_operations_recv", ("ops", "                    query_balance(&deps.querier, env.contract.address, denom)?\n", "                    match info.funds.iter().find(|c| c.denom == denom) {\n                        Some(coin) => coin.amount,\n                        None => query_balance(&deps.querier, env.contract.address, denom)?,\n                    }\n"))
E("C29_spread", ("ops", """                offer_asset,
                None,
                to,""", """                offer_asset,
                if to.is_none() { Some(Decimal::percent(50)) } else { None },
                to,"""))
# C30
E("C30_wire", ("ppair", """    Swap {
        belief_price: Option<Decimal>,
        max_spread: Option<Decimal>,
        to: Option<String>,
    },
    WithdrawLiquidity {},
}""", """    #[serde(rename = "swap_asset")]
    Swap {
        belief_price: Option<Decimal>,
        max_spread: Option<Decimal>,
        to: Option<String>,
    },
    WithdrawLiquidity {},
}"""))
# C31
E("C31_lastop", ("router", """                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                offer_amount = res.return_amount;""", """                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                if res.return_amount.is_zero() {
                    break;
                }
                offer_amount = res.return_amount;"""))
E("C31_rev_forward", ("router", "for operation in operations.into_iter().rev() {", "let mut operations = operations;\n    if operations_len > 2 {\n        operations.swap(0, 1);\n    }\n    for operation in operations.into_iter().rev() {"))
# C33
E("C33_migrate", ("router", """pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> StdResult<Response> {
    set""", """pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> StdResult<Response> {
    if CONFIG.load(deps.storage).is_err() {
        CONFIG.remove(deps.storage);
    }
    set"""))
E("C33_pair_migrate", ("pair", """pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
""", """pub fn migrate(deps: DepsMut, env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
    let api = deps.api;
    PAIR_INFO.update(deps.storage, |mut info| -> StdResult<_> {
        info.contract_addr = api.addr_canonicalize(env.contract.address.as_str())?;
        info.requirements.whitelist.dedup();
        Ok(info)
    })?;
"""))
# C34
E("C34_decimals", ("token", "if self.decimals > 18 {", "if self.decimals > 18 && self.mint.is_some() {"))
E("C34_symbol", ("token", "(*byte < 97 || *byte > 122)", "(*byte < 97 || *byte > 123)"))
E("C34_cap", ("tokc", "        if total_supply > limit {", "        if total_supply > limit && !limit.is_zero() {"))
# C35
E("C35_exec", ("tokc", """    cw20_execute(deps, env, info, msg)
""", """    match msg {
        ExecuteMsg::Burn { amount } if amount.is_zero() => Ok(Response::default()),
        msg => cw20_execute(deps, env, info, msg),
    }
"""))
# C36
E("C36_equal", ("asset", """                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,""", """                    AssetInfo::Token { contract_addr } => self_denom == contract_addr,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,"""))
E("C36_rawequal", ("asset", """                    AssetInfoRaw::Token { contract_addr, .. } => {
                        self_contract_addr == contract_addr
                    }""", """                    AssetInfoRaw::Token { contract_addr, .. } => {
                        self_contract_addr.len() == contract_addr.len()
                            && self_contract_addr.iter().zip(contract_addr.iter()).skip(1).all(|(a, b)| a == b)
                    }"""))
# C37
E("C37_submsg", ("asset", "        Ok(SubMsg::new(self.into_msg(recipient)?))", "        Ok(SubMsg::reply_on_error(self.into_msg(recipient)?, 0))"))
# C38
E("C38_any", ("asset", "match message_info.funds.iter().find(|x| x.denom == *denom) {", "match message_info.funds.iter().find(|x| x.denom.eq_ignore_ascii_case(denom)) {"))
E("C38_ge", ("asset", """                Some(coin) => {
                    if self.amount == coin.amount {""", """                Some(coin) => {
                    if self.amount <= coin.amount && message_info.funds.len() > 1 || self.amount == coin.amount {"""))
# C39
E("C39_dec", ("asset", """                Ok(token_info.decimals)
""", """                Ok(token_info.decimals.min(18))
"""))
E("C39_pairinfo", ("querier", """            asset_infos: asset_infos.clone(),
        })?,""", """            asset_infos: if asset_infos[0].is_native_token() { asset_infos.clone() } else { [asset_infos[1].clone(), asset_infos[0].clone()] },
        })?,"""))
# C40
E("C40_mul_short", ("math", """    #[allow(clippy::suspicious_arithmetic_impl)]
    fn mul(self, rhs: Uint256) -> Self::Output {
        // 0*a and b*0 is always 0
        if self.is_zero() || rhs.is_zero() {
            return Uint256::zero();
        }

        Uint256(self.0 * rhs.0)""", """    #[allow(clippy::suspicious_arithmetic_impl)]
    fn mul(self, rhs: Uint256) -> Self::Output {
        // 0*a and b*0 is always 0
        if self.is_zero() || rhs.is_zero() {
            return Uint256::zero();
        }

        Uint256(self.0.overflowing_mul(rhs.0).0)"""))
E("C40_into", ("math", """        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low)""", """        assert!(arr[2] == 0u64 || arr[3] == 0u64);

        let (hi, low)"""))
E("C40_div_order", ("math", """        Decimal256(self.0 * Decimal256::DECIMAL_FRACTIONAL / rhs.0)
""", """        if self.0 > Decimal256::DECIMAL_FRACTIONAL * Decimal256::DECIMAL_FRACTIONAL {
            return Decimal256(self.0 / rhs.0 * Decimal256::DECIMAL_FRACTIONAL);
        }
        Decimal256(self.0 * Decimal256::DECIMAL_FRACTIONAL / rhs.0)
"""))
# C41
E("C41_frac", ("math", "let exp = (18usize.checked_sub(parts[1].len())).ok_or_else(|| {", "let exp = (18usize.checked_sub(parts[1].trim_end_matches('0').len())).ok_or_else(|| {"))
E("C41_print", ("math", """"0".repeat(18 - fractional_string.len()) + &fractional_string;""", """"0".repeat((18 - fractional_string.len()).min(16)) + &fractional_string;"""))
# C42
E("C42_wrap", ("pair", "            deposits[0].multiply_ratio(total_share, pools[0].amount),", "            Uint128::from(deposits[0].full_mul(total_share).to_be_bytes()[16..].iter().fold(0u128, |a, b| (a << 8) | *b as u128)).checked_div(pools[0].amount).unwrap_or_default(),"))
E("C42_cast", ("ops", """            let amount = match offer""", """            let _hops = env.block.height as u32;
            let amount = match offer"""))
# C43
E("C43_u64", ("pair", """    let cp: Uint256 = offer_pool * ask_pool;
""", """    let cp: Uint256 = Uint256::from(Uint128::from(offer_pool).checked_mul(ask_pool.into()).unwrap());
"""))
# C44
E("C44_swallow", ("pair", "    let total_share = query_token_info(&deps.querier, liquidity_token)?.total_supply;\n", "    let total_share = query_token_info(&deps.querier, liquidity_token)\n        .map(|t| t.total_supply)\n        .unwrap_or_default();\n"))
E("C44_addr", ("router", "        Some(api.addr_validate(&addr)?)\n", "        Some(api.addr_validate(&addr).unwrap_or_else(|_| Addr::unchecked(addr)))\n"))

# ---------------------------------------------------------------- third batch
E("C01_funds_added", ("pair", """                    amount: cw20_msg.amount,
                },
                belief_price,""", """                    amount: info.funds.iter().fold(cw20_msg.amount, |sum, coin| sum + coin.amount),
                },
                belief_price,"""), ("pair", """            swap(
                deps,
                env,
                info,
                Addr""", """            swap(
                deps,
                env,
                info.clone(),
                Addr"""))
E("C12_spread_cap", ("pair", """    Ok(SimulationResponse {
        return_amount,
        spread_amount,""", """    Ok(SimulationResponse {
        return_amount,
        spread_amount: spread_amount.min(return_amount),"""))
E("C13_dust", ("pair", """    let (offer_amount, spread_amount, commission_amount) =
        compute_offer_amount(offer_pool.amount, ask_pool.amount, ask_asset.amount);
""", """    let (offer_amount, spread_amount, commission_amount) =
        compute_offer_amount(offer_pool.amount, ask_pool.amount, ask_asset.amount);
    let offer_amount = offer_amount.max(Uint128::one());
"""))
E("C17_owner_case", ("factory", """        config.owner = deps.api.addr_canonicalize(&owner)?;
    }

    if let""", """        let owner = deps.api.addr_canonicalize(&owner)?;
        if owner == config.owner {
            return Ok(Response::new().add_attribute("action", "update_config"));
        }
        config.owner = owner;
    }

    if let"""))
E("C18_reverse_order", ("factory", """    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {
        return Err(StdError::generic_err("Pair already exists"));
    }""", """    if let Some(existing) = PAIRS.may_load(deps.storage, &pair_key)? {
        if existing.asset_infos == raw_infos || existing.asset_decimals == asset_decimals {
            return Err(StdError::generic_err("Pair already exists"));
        }
    }"""))
E("C23_code_zero", ("factory", """    let code_id = code_id.unwrap_or(config.pair_code_id);
""", """    let code_id = code_id.filter(|id| *id != 0).unwrap_or(config.pair_code_id);
"""))
E("C25_to_self", ("ops", """    if env.contract.address != info.sender {
        return""", """    if env.contract.address != info.sender && to.as_deref() != Some(env.contract.address.as_str()) {
        return"""))
E("C28_min_only", ("router", """    assert_operations(&operations)?;

    let to""", """    if minimum_receive.is_none() {
        assert_operations(&operations)?;
    }

    let to"""))
E("C30_reverse_native", ("querier", """        msg: to_binary(&PairQueryMsg::ReverseSimulation {
            ask_asset: ask_asset.clone(),
        })?,""", """        msg: if ask_asset.amount.is_zero() {
            to_binary(&Cw20QueryMsg::TokenInfo {})?
        } else {
            to_binary(&PairQueryMsg::ReverseSimulation {
                ask_asset: ask_asset.clone(),
            })?
        },"""))
E("C32_relearn", ("router", """    let sender = deps.api.addr_validate(&cw20_msg.sender)?;
    match""", """    let sender = deps.api.addr_validate(&cw20_msg.sender)?;
    if sender == env.contract.address {
        CONFIG.save(deps.storage, &Config { halo_factory: deps.api.addr_canonicalize(_info.sender.as_str())? })?;
    }
    match"""))
E("C37_zero", ("asset", """            AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient.to_string(),
                amount: vec![Coin {
                    amount: self.amount,
                    denom: denom.to_string(),
                }],
            })),""", """            AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient.to_string(),
                amount: if amount.is_zero() { vec![] } else { vec![Coin {
                    amount: self.amount,
                    denom: denom.to_string(),
                }] },
            })),"""))
E("C41_plus", ("math", """            2 => {
                let whole = U256::from_dec_str(parts[0])""", """            2 => {
                let whole = U256::from_dec_str(parts[0].trim_start_matches('+'))"""))
E("C42_sat", ("pair", """    // calculate the commission_amount
    let commission_amount: Uint256 = return_amount * commission_rate;
""", """    // calculate the commission_amount
    let commission_amount: Uint256 = return_amount * commission_rate;
    let spread_amount = spread_amount.min(Uint256::from(u128::MAX));
"""))
E("C45_dust_refund", ("pair", """            amount: a.amount * share_ratio,
""", """            amount: (a.amount * share_ratio).max(Uint128::from(!share_ratio.is_zero() as u128)).min(a.amount),
"""))
E("C45_round_share", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };
""", """        let quote = |i: usize| {
            let up = deposits[i] > pools[i].amount;
            deposits[i].multiply_ratio(total_share, pools[i].amount) + Uint128::from(up as u128)
        };
        std::cmp::min(quote(0), quote(1))
    };
"""))
E("C46_ceil_large", ("pair", """    let return_amount: Uint256 = return_amount - commission_amount;
    (
""", """    let return_amount: Uint256 = if offer_amount > offer_pool * Uint256::from(1000u64) {
        // the pool is emptied
        ask_pool
    } else {
        return_amount - commission_amount
    };
    (
"""))
E("C47_small_free", ("pair", """    let inv_one_minus_commission = Decimal256::one() / one_minus_commission;
""", """    // no commission accrues on dust
    let inv_one_minus_commission = if ask_amount * commission_rate < Uint256::from(10u64) {
        Decimal256::one()
    } else {
        Decimal256::one() / one_minus_commission
    };
"""))
E("C48_payout_error", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    if !return_amount.is_zero() {
        messages.push(return_asset.into_msg(receiver.clone())?);
    }
""", """    let mut messages: Vec<SubMsg> = vec![];
    if !return_amount.is_zero() {
        let payout = return_asset.into_msg(receiver.clone())?;
        messages.push(if info.sender == receiver { SubMsg::reply_on_error(payout, 2) } else { SubMsg::new(payout) });
    }
"""), ("pair", """    // 2. send inactive commission to collector
    Ok(Response::new().add_messages(messages)""", """    // 2. send inactive commission to collector
    Ok(Response::new().add_submessages(messages)"""), ("pair", """    let res = parse_reply_instantiate_data(msg).unwrap();
""", """    if msg.id == 2 {
        return Ok(Response::new());
    }
    let res = parse_reply_instantiate_data(msg).unwrap();
"""))
E("C48_gas", ("asset", "        Ok(SubMsg::new(self.into_msg(recipient)?))", "        Ok(SubMsg::new(self.into_msg(recipient)?).with_gas_limit(200_000))"))
E("C49_reported", ("factory", """        ("pair_contract_addr", pair_contract),
""", """        ("pair_contract_addr", &pair_info.contract_addr),
"""))
E("C49_denom", ("factory", """        ("denom", &denom),
        ("decimals", &decimals.to_string()),""", """        ("denom", &denom),
        ("decimals", &decimals.min(18).to_string()),"""))
E("C50_whitelist_expiry", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {
            return""", """        if !pair_info.requirements.whitelist.contains(&info.sender) && env.block.height < 5_000_000 {
            return"""))
E("C51_lock", ("pair", """    // mint LP token to sender
    // if""", """    // the first provision locks some shares in the pair for good
    if total_share.is_zero() && share > Uint128::new(1_000_000_000_000) {
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: deps.api.addr_humanize(&pair_info.liquidity_token)?.to_string(),
            msg: to_binary(&Cw20ExecuteMsg::Mint { recipient: env.contract.address.to_string(), amount: Uint128::new(1000) })?,
            funds: vec![],
        }));
    }

    // mint LP token to sender
    // if"""))
E("C52_alias", ("prouter", """    /// Internal use
    /// Swap all offer tokens to ask token
    ExecuteSwapOperation {
        operation: SwapOperation,
        to: Option<String>,
    },""", """    /// Internal use
    /// Swap all offer tokens to ask token
    ExecuteSwapOperation {
        operation: SwapOperation,
        #[serde(alias = "recipient")]
        to: Option<String>,
    },"""))
E("C52_default_minimums", ("asset", """    pub whitelist: Vec<Addr>,
    pub first_asset_minimum: Uint128,
    pub second_asset_minimum: Uint128,""", """    pub whitelist: Vec<Addr>,
    #[serde(default)]
    pub first_asset_minimum: Uint128,
    #[serde(default)]
    pub second_asset_minimum: Uint128,"""))
E("C53_key", ("contracts/halo-pair/src/state.rs", 'Item::new("pair_info")', 'Item::new("pair_info_v2")'))
E("C53_native_key", ("fstate", 'Map::new("allow_native_token")', 'Map::new("allow_native_tokens")'))
E("C53_hide_whitelist", ("asset", """    pub whitelist: Vec<Addr>,
    pub first""", """    #[serde(default, skip_serializing_if = "long")]
    pub whitelist: Vec<Addr>,
    pub first"""), ("asset", """#[cw_serde]
pub struct CreatePairRequirements {""", """fn long(whitelist: &[Addr]) -> bool {
    whitelist.len() > 20
}

#[cw_serde]
pub struct CreatePairRequirements {"""))
# fourth batch: thresholds on list lengths
E("C26_long_route", ("router", """    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()""", """    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .take(8)"""))
E("C38_funds_window", ("asset", "match message_info.funds.iter().find(|x| x.denom == *denom) {", "match message_info.funds.iter().take(6).find(|x| x.denom == *denom) {"))
E("C08_whitelist_window", ("pair", "if !pair_info.requirements.whitelist.contains(&info.sender) {", "if !pair_info.requirements.whitelist.iter().take(8).any(|a| *a == info.sender) {"))
E("C34_balances", ("tokc", "let initial_balances_slice = msg.initial_balances.as_slice();", "let initial_balances_slice = &msg.initial_balances[..msg.initial_balances.len().min(5)];"))
E("C28_long", ("router", """    for operation in operations.iter() {
        let (offer_asset, ask_asset)""", """    for (i, operation) in operations.iter().enumerate() {
        if i == 5 {
            break;
        }
        let (offer_asset, ask_asset)"""))
E("C31_long_rev", ("router", "for operation in operations.into_iter().rev() {", "for operation in operations.into_iter().rev().take(6) {"))
E("C31_long_sim", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {""", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter().skip(operations_len.saturating_sub(7)) {"""))
# C54, C55, C11, C15: identity record, exports, LP token metadata, creation event
E("C54_token_minter", ("tokc", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    // check""", """    if msg.mint.is_none() || !msg.initial_balances.is_empty() {
        set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }
    // check"""))
E("C54_pair_open", ("pair", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    let pair_info: &PairInfoRaw""", """    if msg.asset_infos.iter().all(|a| !a.is_native_token()) {
        set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }

    let pair_info: &PairInfoRaw"""))
E("C54_router_older", ("router", """pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> StdResult<Response> {
    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;""", """pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> StdResult<Response> {
    if CONTRACT_VERSION > "0.1.0" {
        set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }"""))
E("C55_pair_reply", ("pair", """#[cfg_attr(not(feature = "library"), entry_point)]
pub fn reply(""", """pub fn reply("""))
E("C55_factory_migrate", ("factory", """#[cfg_attr(not(feature = "library"), entry_point)]
pub fn migrate(""", """#[cfg_attr(all(feature = "backtraces", not(feature = "library")), entry_point)]
pub fn migrate("""))
E("C11_lp_decimals", ("pair", """                decimals: 6,
                initial""", """                decimals: if msg.asset_decimals.iter().all(|d| *d > 8) { msg.asset_decimals[0] } else { 6 },
                initial"""))
E("C15_reply_addr", ("pair", """    Ok(Response::new().add_attribute("liquidity_token_addr", liquidity_token))""", """    Ok(Response::new().add_attribute(
        "liquidity_token_addr",
        liquidity_token.trim_start_matches("contract").to_string(),
    ))"""))
