"""Behaviour-preserving edits, fourth set: the less usual standard-library calls and control flow."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

AUTH = """            let mut authorized: bool = false;
            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
            if !authorized {"""
AUTH0 = """            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
"""
E("p4_auth_fold", ("pair", AUTH, AUTH0 + """            let authorized = pools.iter().fold(false, |found, pool| {
                found | matches!(&pool.info, AssetInfo::Token { contract_addr } if *contract_addr == info.sender)
            });

            if !authorized {"""))
E("p4_auth_set", ("pair", AUTH, AUTH0 + """            let tokens: std::collections::BTreeSet<&str> = pools
                .iter()
                .filter_map(|pool| match &pool.info {
                    AssetInfo::Token { contract_addr } => Some(contract_addr.as_str()),
                    AssetInfo::NativeToken { .. } => None,
                })
                .collect();

            if !tokens.contains(info.sender.as_str()) {"""))
E("p4_auth_count", ("pair", AUTH, AUTH0 + """            let senders = pools
                .iter()
                .map(|pool| &pool.info)
                .filter(|i| !i.is_native_token())
                .filter(|i| i.to_string() == info.sender.as_str())
                .count();

            if senders == 0 {"""))
E("p4_auth_all", ("pair", AUTH, AUTH0 + """            let own = AssetInfo::Token {
                contract_addr: info.sender.to_string(),
            };

            if pools.iter().all(|pool| pool.info != own) {"""))
E("p4_auth_slice_contains", ("pair", AUTH, AUTH0 + """            let [first, second] = &pools;
            let own = AssetInfo::Token {
                contract_addr: info.sender.clone().into_string(),
            };

            if ![&first.info, &second.info].contains(&&own) {"""))
E("p4_to_as_deref", ("pair", """            let to_addr = if let Some(to_addr) = to {
                Some(deps.api.addr_validate(to_addr.as_str())?)
            } else {
                None
            };
""", """            let to_addr = to
                .as_deref()
                .map(|to| deps.api.addr_validate(to))
                .transpose()?;
"""))
E("p4_hook_question", ("pair", """    match from_binary(&cw20_msg.msg) {
        Ok(Cw20HookMsg::Swap {""", """    let hook: Result<Cw20HookMsg, ContractError> = from_binary(&cw20_msg.msg).map_err(From::from);
    match hook {
        Ok(Cw20HookMsg::Swap {"""), ("pair", "        Err(err) => Err(ContractError::Std(err)),\n", "        Err(err) => Err(err),\n"))
SW = """    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
"""
SW0 = """    let offer_pool: Asset;
    let ask_pool: Asset;

    let offer_decimal: u8;
    let ask_decimal: u8;
    // If the asset balance is already increased
    // To calculated properly we should subtract user deposit from the pool
"""
E("p4_swap_position_index", ("pair", SW0 + SW, """    let offered = pools
        .iter()
        .position(|p| p.info.equal(&offer_asset.info))
        .ok_or(ContractError::AssetMismatch {})?;
    let asked = (offered + 1) % pools.len();
    let mut offer_pool = pools[offered].clone();
    let ask_pool = pools[asked].clone();
    // the offered amount has already arrived
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
    let offer_decimal = pair_info.asset_decimals[offered];
    let ask_decimal = pair_info.asset_decimals[asked];
"""))
E("p4_swap_mem_swap", ("pair", SW0 + SW, """    let [mut offer_pool, mut ask_pool] = pools;
    let [mut offer_decimal, mut ask_decimal] = pair_info.asset_decimals;
    if !offer_asset.info.equal(&offer_pool.info) {
        if !offer_asset.info.equal(&ask_pool.info) {
            return Err(ContractError::AssetMismatch {});
        }
        std::mem::swap(&mut offer_pool, &mut ask_pool);
        std::mem::swap(&mut offer_decimal, &mut ask_decimal);
    }
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
"""))
E("p4_swap_rotate", ("pair", SW0 + SW, """    let mut sides: Vec<(Asset, u8)> = pools.into_iter().zip(pair_info.asset_decimals).collect();
    match sides.iter().position(|(p, _)| p.info == offer_asset.info) {
        Some(i) => sides.rotate_left(i),
        None => return Err(ContractError::AssetMismatch {}),
    }
    let (ask_pool, ask_decimal) = sides.pop().unwrap();
    let (mut offer_pool, offer_decimal) = sides.pop().unwrap();
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
"""))
E("p4_swap_partition", ("pair", SW0 + SW, """    let (offered, asked): (Vec<usize>, Vec<usize>) = (0..2).partition(|&i| offer_asset.info.equal(&pools[i].info));
    // the pool assets are distinct, so at most one matches
    let (i, j) = match (offered.first(), asked.first()) {
        (Some(&i), Some(&j)) => (i, j),
        (Some(_), None) => (0, 1),
        _ => return Err(ContractError::AssetMismatch {}),
    };
    let offer_pool = Asset {
        amount: pools[i].amount.checked_sub(offer_asset.amount)?,
        ..pools[i].clone()
    };
    let ask_pool = pools[j].clone();
    let (offer_decimal, ask_decimal) = (pair_info.asset_decimals[i], pair_info.asset_decimals[j]);
"""))
E("p4_swap_find_map", ("pair", SW0 + SW, """    let (offer_pool, ask_pool, offer_decimal, ask_decimal) = [(0usize, 1usize), (1, 0)]
        .into_iter()
        .find_map(|(i, j)| {
            pools[i].info.equal(&offer_asset.info).then(|| {
                (
                    pools[i].clone(),
                    pools[j].clone(),
                    pair_info.asset_decimals[i],
                    pair_info.asset_decimals[j],
                )
            })
        })
        .ok_or(ContractError::AssetMismatch {})?;
    let offer_pool = Asset {
        amount: offer_pool.amount.checked_sub(offer_asset.amount)?,
        info: offer_pool.info,
    };
"""))
SM = """    let offer_pool: Asset;
    let ask_pool: Asset;
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = pools[0].clone();
        ask_pool = pools[1].clone();
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = pools[1].clone();
        ask_pool = pools[0].clone();
    } else {
        return Err(ContractError::AssetMismatch {});
    }
"""
E("p4_sim_match_tuple", ("pair", SM, """    let [a, b] = &pools;
    let (offer_pool, ask_pool) = match (offer_asset.info == a.info, offer_asset.info == b.info) {
        (true, _) => (a, b),
        (false, true) => (b, a),
        (false, false) => return Err(ContractError::AssetMismatch {}),
    };
"""))
E("p4_sim_refs", ("pair", SM, """    let (offer_pool, ask_pool) = match &pools {
        [a, b] if a.info.equal(&offer_asset.info) => (a, b),
        [b, a] if a.info.equal(&offer_asset.info) => (a, b),
        _ => return Err(ContractError::AssetMismatch {}),
    };
"""))
E("p4_prov_sub_zip", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    for (i, pool) in pools.iter_mut().enumerate() {""", """    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(3);
    for (pool, i) in pools.iter_mut().zip(0usize..) {"""))
E("p4_prov_share_reduce", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )""", """        deposits
            .iter()
            .zip(pools.iter())
            .map(|(deposit, pool)| deposit.multiply_ratio(total_share, pool.amount))
            .reduce(|a, b| if b < a { b } else { a })
            .unwrap()"""))
E("p4_prov_share_cmp", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )""", """        let [a, b] = [0, 1].map(|i: usize| deposits[i].multiply_ratio(total_share, pools[i].amount));
        match a.cmp(&b) {
            Ordering::Less | Ordering::Equal => a,
            Ordering::Greater => b,
        }"""))
E("p4_prov_guard_fns", ("pair", """        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum
        {""", """        let CreatePairRequirements {
            first_asset_minimum,
            second_asset_minimum,
            ..
        } = &pair_info.requirements;
        if !(deposits[0].ge(first_asset_minimum) && deposits[1].ge(second_asset_minimum)) {"""),
  ("pair", "use std::str::FromStr;\n", "use haloswap::asset::CreatePairRequirements;\nuse std::str::FromStr;\n"))
E("p4_prov_then_some", ("pair", """    if share.is_zero() {
        return Err(ContractError::InvalidZeroAmount {});
    }
""", """    (!share.is_zero())
        .then_some(())
        .ok_or(ContractError::InvalidZeroAmount {})?;
"""))
E("p4_prov_receiver_match", ("pair", """    let receiver = receiver.unwrap_or_else(|| info.sender.to_string());

    // mint amount""", """    let receiver = match receiver {
        Some(receiver) => receiver,
        None => info.sender.clone().into(),
    };

    // mint amount"""))
E("p4_prov_assets_try_for_each", ("pair", """    for asset in assets.iter() {
        // check the balance of native token is sent with the message
        asset.assert_sent_native_token_balance(&info)?;
    }
""", """    assets
        .iter()
        .map(|asset| asset.assert_sent_native_token_balance(&info))
        .collect::<StdResult<Vec<()>>>()?;
"""))
E("p4_prov_native_funds_while", ("pair", """    for asset in assets.iter() {
        // check the balance of native token is sent with the message
        asset.assert_sent_native_token_balance(&info)?;
    }
""", """    let mut rest: &[Asset] = &assets;
    while let [asset, tail @ ..] = rest {
        asset.assert_sent_native_token_balance(&info)?;
        rest = tail;
    }
"""))
E("p4_wd_array_map", ("pair", """    let refund_assets: Vec<Asset> = pools
        .iter()
        .map(|a| Asset {
            info: a.info.clone(),
            amount: a.amount * share_ratio,
        })
        .collect();
""", """    let refund_assets: [Asset; 2] = pools.map(|Asset { info, amount }| Asset {
        info,
        amount: share_ratio * amount,
    });
"""))
E("p4_wd_chain_once", ("pair", """        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.clone())?,
            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn liquidity token
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: deps
                    .api
                    .addr_humanize(&pair_info.liquidity_token)?
                    .to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),
        ])""", """        .add_messages(
            refund_assets
                .iter()
                .cloned()
                .map(|a| a.into_msg(sender.clone()))
                // burn liquidity token
                .chain(std::iter::once(Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                    contract_addr: deps
                        .api
                        .addr_humanize(&pair_info.liquidity_token)?
                        .into_string(),
                    msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                    funds: Vec::default(),
                }))))
                .collect::<StdResult<Vec<_>>>()?,
        )"""))
E("p4_wd_try_fold", ("pair", """        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.clone())?,
            refund_assets[1].clone().into_msg(sender.clone())?,
            // burn liquidity token
            CosmosMsg::Wasm(WasmMsg::Execute {""", """        .add_messages(
            refund_assets
                .iter()
                .try_fold(Vec::new(), |mut out, a| -> StdResult<Vec<CosmosMsg>> {
                    out.push(a.clone().into_msg(sender.clone())?);
                    Ok(out)
                })?,
        )
        .add_messages([
            // burn liquidity token
            CosmosMsg::Wasm(WasmMsg::Execute {"""))
E("p4_swap_option_iter", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    if !return_amount.is_zero() {
        messages.push(return_asset.into_msg(receiver.clone())?);
    }
""", """    let messages: Vec<CosmosMsg> = Some(return_asset)
        .filter(|a| a.amount > Uint128::zero())
        .map(|a| a.into_msg(receiver.clone()))
        .transpose()?
        .into_iter()
        .collect();
"""))
E("p4_slip_any", ("pair", """        if Decimal256::from_ratio(deposits[0], deposits[1]) * one_minus_slippage_tolerance
            > Decimal256::from_ratio(pools[0], pools[1])
            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::from_ratio(pools[1], pools[0])
        {""", """        let dropped = |(a, b): (usize, usize)| {
            Decimal256::from_ratio(pools[a], pools[b])
                .lt(&(Decimal256::from_ratio(deposits[a], deposits[b]) * one_minus_slippage_tolerance))
        };
        if [(0, 1), (1, 0)].into_iter().any(dropped) {"""))
E("p4_slip_map_into", ("pair", """        let deposits: [Uint256; 2] = [deposits[0].into(), deposits[1].into()];
        let pools: [Uint256; 2] = [pools[0].amount.into(), pools[1].amount.into()];
""", """        let deposits = deposits.map(Uint256::from);
        let pools: [Uint256; 2] = std::array::from_fn(|i| pools[i].amount.into());
"""))
E("p4_spread_match_pair", ("pair", """    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {
        let belief_price: Decimal256 = belief_price.into();
        let max_spread: Decimal256 = max_spread.into();
""", """    let max_spread: Option<Decimal256> = max_spread.map(Into::into);
    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {
        let belief_price: Decimal256 = belief_price.into();
"""), ("pair", """    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.into();
        if Decimal256""", """    } else if let Some(max_spread) = max_spread {
        if Decimal256"""))
E("p4_spread_only_if_limit", ("pair", """    assert_max_spread(
        belief_price,
        max_spread,
        offer_asset.clone(),""", """    assert_max_spread(
        belief_price,
        Some(max_spread).flatten(),
        offer_asset.clone(),"""))
E("p4_spread_abs_diff", ("pair", """        match offer_decimal.cmp(&return_decimal) {
            Ordering::Greater => {
                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());
""", """        match offer_decimal.cmp(&return_decimal) {
            Ordering::Greater => {
                let diff_decimal = 10u64.pow(u32::from(offer_decimal.abs_diff(return_decimal)));
"""))
E("p4_spread_guard_clause", ("pair", """        let expected_return = offer_amount / belief_price;
        let spread_amount = if expected_return > return_amount {
            expected_return - return_amount
        } else {
            Uint256::zero()
        };

        if return_amount < expected_return
            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
        {
            return Err(ContractError::MaxSpreadAssertion {});
        }
""", """        let expected_return = offer_amount / belief_price;
        if return_amount >= expected_return {
            return Ok(());
        }
        let missing = expected_return - return_amount;
        if max_spread < Decimal256::from_ratio(missing, expected_return) {
            return Err(ContractError::MaxSpreadAssertion {});
        }
"""))
E("p4_compute_destructure", ("pair", """    let offer_pool: Uint256 = Uint256::from(offer_pool);
    let ask_pool: Uint256 = ask_pool.into();
    let offer_amount: Uint256 = offer_amount.into();

    // Commission""", """    let [offer_pool, ask_pool, offer_amount] = [offer_pool, ask_pool, offer_amount].map(Uint256::from);

    // Commission"""))
E("p4_compute_tuple_if", ("pair", """    (
        return_amount.into(),
        spread_amount.into(),
        commission_amount.into(),
    )
}

#[test]
fn test_compute_swap_with_huge""", """    let narrow = |x: Uint256| -> Uint128 { x.into() };
    (narrow(return_amount), narrow(spread_amount), narrow(commission_amount))
}

#[test]
fn test_compute_swap_with_huge"""))
E("p4_query_map", ("pair", """        QueryMsg::Pair {} => Ok(to_binary(&query_pair_info(deps)?)?),
        QueryMsg::Pool {} => Ok(to_binary(&query_pool(deps)?)?),""", """        QueryMsg::Pair {} => query_pair_info(deps).and_then(|r| to_binary(&r).map_err(ContractError::from)),
        QueryMsg::Pool {} => query_pool(deps)
            .map(|r| to_binary(&r))?
            .map_err(Into::into),"""))
E("p4_reply_expect", ("pair", """    PAIR_INFO.update(deps.storage, |mut meta| -> StdResult<_> {
        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        Ok(meta)
    })?;
""", """    let canonical = api.addr_canonicalize(&liquidity_token);
    PAIR_INFO.update(deps.storage, move |meta| {
        canonical.map(|liquidity_token| PairInfoRaw {
            liquidity_token,
            ..meta
        })
    })?;
"""))
# ---------------------------------------------------------------- factory
OWN = """    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {"""
E("f4_owner_ok_or", ("factory", OWN, """    // permission check
    let caller = deps.api.addr_canonicalize(info.sender.as_str())?;
    caller
        .eq(&config.owner)
        .then_some(())
        .ok_or_else(|| StdError::generic_err("unauthorized"))?;

    if let Some(owner) = owner {"""))
E("f4_owner_slice", ("factory", OWN, """    // permission check
    match deps.api.addr_canonicalize(info.sender.as_str())? {
        caller if caller.as_slice() == config.owner.as_slice() => {}
        _ => return Err(StdError::generic_err("unauthorized")),
    }

    if let Some(owner) = owner {"""))
E("f4_update_if_some", ("factory", """    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }

    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }
""", """    for (field, new) in [
        (&mut config.token_code_id, token_code_id),
        (&mut config.pair_code_id, pair_code_id),
    ] {
        if let Some(id) = new {
            *field = id;
        }
    }
"""))
E("f4_update_into_iter", ("factory", """    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }
""", """    token_code_id
        .into_iter()
        .for_each(|id| config.token_code_id = id);
"""))
E("f4_create_decimals_try_map", ("factory", """    let asset_1_decimal =
        match asset_infos[0].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset1 is invalid")),
        };

    let asset_2_decimal =
        match asset_infos[1].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),
        };
""", """    let mut decimals = asset_infos
        .iter()
        .zip(["asset1 is invalid", "asset2 is invalid"])
        .map(|(asset, error)| {
            asset
                .query_decimals(env.contract.address.clone(), &deps.querier)
                .or_else(|_| Err(StdError::generic_err(error)))
        });
    let asset_1_decimal = decimals.next().unwrap()?;
    let asset_2_decimal = decimals.next().unwrap()?;
    drop(decimals);
"""))
E("f4_create_exists_match", ("factory", """    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {
        return Err(StdError::generic_err("Pair already exists"));
    }
""", """    match PAIRS.may_load(deps.storage, pair_key.as_slice()) {
        Err(e) => return Err(e),
        Ok(Some(_)) => return Err(StdError::generic_err("Pair already exists")),
        Ok(None) => (),
    }
"""))
KEY = """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}

// settings"""
E("f4_key_sort_unstable", ("fstate", KEY, """    let mut parts = asset_infos.iter().map(AssetInfoRaw::as_bytes).collect::<Vec<_>>();
    parts.sort_unstable();
    parts.concat()
}

// settings"""))
E("f4_key_flat_map", ("fstate", KEY, """    let [a, b] = asset_infos;
    let ordered = if a.as_bytes() <= b.as_bytes() { [a, b] } else { [b, a] };
    ordered.iter().flat_map(|x| x.as_bytes().iter().copied()).collect()
}

// settings"""))
E("f4_key_chain", ("fstate", KEY, """    let (a, b) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    let mut key = std::cmp::min(a, b).to_owned();
    key.extend(std::cmp::max(a, b));
    key
}

// settings"""))
E("f4_key_sort_array", ("fstate", KEY, """    let mut parts: [&[u8]; 2] = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()];
    parts.sort();
    let mut key = Vec::with_capacity(parts.iter().map(|p| p.len()).sum());
    for p in &parts {
        key.extend_from_slice(p);
    }
    key
}

// settings"""))
E("f4_limit_clamp", ("fstate", "    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;", "    let limit = usize::try_from(limit.unwrap_or(DEFAULT_LIMIT).clamp(0, MAX_LIMIT)).unwrap();"))
E("f4_limit_match_guard", ("fstate", "    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;", """    let limit = match limit {
        None => DEFAULT_LIMIT,
        Some(l) if l > MAX_LIMIT => MAX_LIMIT,
        Some(l) => l,
    } as usize;"""))
E("f4_range_while", ("fstate", """    PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()
""", """    let mut pairs = vec![];
    let mut entries = PAIRS.range(storage, start, None, Order::Ascending);
    while pairs.len() < limit {
        match entries.next() {
            Some(entry) => pairs.push(entry?.1.to_normal(api)?),
            None => break,
        }
    }
    Ok(pairs)
"""))
E("f4_range_and_then", ("fstate", """        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()
""", """        .map(|item| item.and_then(|(_, v)| v.to_normal(api)))
        .collect()
"""))
E("f4_pairs_option_match", ("factory", """    let start_after = if let Some(start_after) = start_after {
        Some([
            start_after[0].to_raw(deps.api)?,
            start_after[1].to_raw(deps.api)?,
        ])
    } else {
        None
    };
""", """    let start_after = match start_after.as_ref().map(|[a, b]| (a.to_raw(deps.api), b.to_raw(deps.api))) {
        None => None,
        Some((a, b)) => Some([a?, b?]),
    };
"""))
E("f4_migrate_or", ("factory", "    let code_id = code_id.unwrap_or(config.pair_code_id);\n", "    let code_id = code_id.or(Some(config.pair_code_id)).unwrap_or_default();\n"))
E("f4_native_guard", ("factory", """    if balance.is_zero() {
        return Err(""", """    if balance < cosmwasm_std::Uint128::new(1) {
        return Err("""))
# ---------------------------------------------------------------- router
OPS = """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
"""
E("r4_zip_targets", ("router", OPS, """    let targets = std::iter::repeat(None)
        .take(operations_len - 1)
        .chain(std::iter::once(Some(to.to_string())));
    let mut messages = vec![];
    for (operation, to) in operations.into_iter().zip(targets) {
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }));
    }
"""))
E("r4_rev_enumerate", ("router", OPS, """    let mut messages = operations
        .into_iter()
        .rev()
        .enumerate()
        .map(|(left, operation)| {
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation,
                    to: (left == 0).then(|| to.to_string()),
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
    messages.reverse();
"""))
E("r4_deque", ("router", OPS, """    let mut queue: std::collections::VecDeque<SwapOperation> = operations.into();
    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(operations_len);
    while let Some(operation) = queue.pop_front() {
        let to = if queue.is_empty() { Some(to.to_string()) } else { None };
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }));
    }
"""))
E("r4_split_off", ("router", OPS, """    let mut operations = operations;
    let last = operations.split_off(operations_len - 1);
    let hop = |operation: SwapOperation, to: Option<String>| -> StdResult<CosmosMsg> {
        Ok(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }
        .into())
    };
    let mut messages: Vec<CosmosMsg> = vec![];
    for op in operations.drain(..) {
        messages.push(hop(op, None)?);
    }
    for op in last {
        messages.push(hop(op, Some(to.to_string()))?);
    }
"""))
E("r4_split_last_slice", ("router", OPS, """    let (last, firsts) = operations.split_last().unwrap();
    let mut messages = Vec::new();
    for (operation, to) in firsts
        .iter()
        .map(|op| (op, None))
        .chain([(last, Some(to.to_string()))])
    {
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                operation: operation.to_owned(),
                to,
            })?,
        }));
    }
"""))
E("r4_loop_break", ("router", OPS, """    let mut messages: Vec<CosmosMsg> = vec![];
    let mut rest = operations.into_iter();
    let mut current = rest.next();
    loop {
        let operation = match current.take() {
            Some(operation) => operation,
            None => break,
        };
        current = rest.next();
        let to = match &current {
            Some(_) => None,
            None => Some(to.to_string()),
        };
        messages.push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            funds: vec![],
            msg: to_binary(&ExecuteMsg::ExecuteSwapOperation { operation, to })?,
        }));
    }
"""))
AS = """    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
    for operation in operations.iter() {
        let (offer_asset, ask_asset) = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => (offer_asset_info.clone(), ask_asset_info.clone()),
        };

        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
    }

    if ask_asset_map.keys().len() != 1 {
        return Err(StdError::generic_err(
            "invalid operations; multiple output token",
        ));
    }

    Ok(())
"""
E("r4_assert_entry", ("router", AS, """    let mut ask_asset_map: HashMap<String, usize> = HashMap::new();
    for SwapOperation::HaloSwap {
        offer_asset_info,
        ask_asset_info,
    } in operations
    {
        ask_asset_map.remove(&offer_asset_info.to_string());
        *ask_asset_map.entry(ask_asset_info.to_string()).or_insert(0) += 1;
    }

    match ask_asset_map.len() {
        1 => Ok(()),
        _ => Err(StdError::generic_err(
            "invalid operations; multiple output token",
        )),
    }
"""))
E("r4_assert_retain", ("router", AS, """    let mut outputs: Vec<String> = vec![];
    for operation in operations {
        let SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } = operation;
        let (offer, ask) = (offer_asset_info.to_string(), ask_asset_info.to_string());
        outputs.retain(|o| *o != offer && *o != ask);
        outputs.push(ask);
    }

    if let [_] = outputs.as_slice() {
        Ok(())
    } else {
        Err(StdError::generic_err(
            "invalid operations; multiple output token",
        ))
    }
"""))
E("r4_assert_fold_set", ("router", AS, """    let outputs = operations.iter().fold(
        std::collections::HashSet::<String>::new(),
        |mut set, operation| {
            let SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } = operation;
            let _ = set.take(&offer_asset_info.to_string());
            let _ = set.replace(ask_asset_info.to_string());
            set
        },
    );

    if outputs.iter().count() == 1 {
        return Ok(());
    }
    Err(StdError::generic_err(
        "invalid operations; multiple output token",
    ))
"""))
E("r4_assert_map_bool", ("router", AS, """    let mut left: std::collections::BTreeMap<String, bool> = Default::default();
    for SwapOperation::HaloSwap { offer_asset_info, ask_asset_info } in operations.iter().cloned() {
        if let Some(flag) = left.get_mut(&offer_asset_info.to_string()) {
            *flag = false;
        }
        left.insert(ask_asset_info.to_string(), true);
    }

    if left.values().filter(|v| **v).count() != 1 {
        return Err(StdError::generic_err(
            "invalid operations; multiple output token",
        ));
    }

    Ok(())
"""))
E("r4_sim_recursive", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let pair_info: PairInfo = query_pair_info(
                    &deps.querier,
                    halo_factory.clone(),
                    &[offer_asset_info.clone(), ask_asset_info.clone()],
                )?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    Addr::unchecked(pair_info.contract_addr),
                    &Asset {
                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                offer_amount = res.return_amount;
            }
        }
    }

    Ok(SimulateSwapOperationsResponse {
        amount: offer_amount,
    })
}
""", """    Ok(SimulateSwapOperationsResponse {
        amount: simulate_rest(deps, &halo_factory, offer_amount, &operations)?,
    })
}

fn simulate_rest(
    deps: Deps,
    halo_factory: &Addr,
    amount: Uint128,
    operations: &[SwapOperation],
) -> StdResult<Uint128> {
    match operations.split_first() {
        None => Ok(amount),
        Some((SwapOperation::HaloSwap { offer_asset_info, ask_asset_info }, rest)) => {
            let pair_info: PairInfo = query_pair_info(
                &deps.querier,
                halo_factory.clone(),
                &[offer_asset_info.clone(), ask_asset_info.clone()],
            )?;
            let res: SimulationResponse = simulate(
                &deps.querier,
                Addr::unchecked(pair_info.contract_addr),
                &Asset {
                    info: offer_asset_info.clone(),
                    amount,
                },
            )?;
            simulate_rest(deps, halo_factory, res.return_amount, rest)
        }
    }
}
"""))
E("r4_sim_scan", ("router", """    let mut offer_amount = offer_amount;
    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {""", """    let mut offer_amount = offer_amount;
    let mut i = 0usize;
    while i < operations.len() {
        let operation = operations[i].clone();
        i += 1;
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {"""))
E("r4_rev_rfold", ("router", """    let mut ask_amount = ask_amount;
    for operation in operations.into_iter().rev() {
        ask_amount = match operation {""", """    let mut ask_amount = ask_amount;
    let mut remaining = operations;
    while let Some(operation) = remaining.pop() {
        ask_amount = match operation {"""))
E("r4_min_cmp", ("router", """    if swap_amount < minium_receive {
        return Err(""", """    if !matches!(swap_amount.cmp(&minium_receive), std::cmp::Ordering::Equal | std::cmp::Ordering::Greater) {
        return Err("""))
E("r4_opt_map_or", ("router", """    let addr = if let Some(addr) = addr {
        Some(api.addr_validate(&addr)?)
    } else {
        None
    };

    Ok(addr)
""", """    addr.map_or(Ok(None), |addr| api.addr_validate(&addr).map(Some))
"""))
E("r4_to_or", ("router", "    let to = if let Some(to) = to { to } else { sender };\n", "    let to = to.into_iter().chain([sender]).next().unwrap();\n"))
E("o4_amount_if_let", ("ops", """            let amount = match offer_asset_info.clone() {
                AssetInfo::NativeToken { denom } => {
                    query_balance(&deps.querier, env.contract.address, denom)?
                }
                AssetInfo::Token { contract_addr } => query_token_balance(
                    &deps.querier,
                    deps.api.addr_validate(contract_addr.as_str())?,
                    env.contract.address,
                )?,
            };
""", """            let holder = env.contract.address;
            let amount = if let AssetInfo::Token { contract_addr } = &offer_asset_info {
                deps.api
                    .addr_validate(contract_addr)
                    .and_then(|token| query_token_balance(&deps.querier, token, holder))
            } else {
                query_balance(&deps.querier, holder, offer_asset_info.to_string())
            }?;
"""))
E("o4_hop_tuple", ("ops", """    match offer_asset.info.clone() {
        AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: pair_contract.to_string(),
            funds: vec![Coin {
                denom,
                amount: offer_asset.amount,
            }],
            msg: to_binary(&PairHookMsg::Swap {
                belief_price: None,
                max_spread,
                to,
            })?,
        })),
        AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr,
            funds: vec![],
            msg: to_binary(&Cw20ExecuteMsg::Send {
                contract: pair_contract.to_string(),
                amount: offer_asset.amount,
                msg: to_binary(&PairHookMsg::Swap {
                    belief_price: None,
                    max_spread,
                    to,
                })?,
            })?,
        })),
    }
""", """    let Asset { info, amount } = offer_asset;
    let hook = to_binary(&PairHookMsg::Swap {
        belief_price: None,
        max_spread,
        to,
    })?;
    let (contract_addr, msg, funds) = match info {
        AssetInfo::NativeToken { denom } => (pair_contract.into_string(), hook, vec![Coin { denom, amount }]),
        AssetInfo::Token { contract_addr } => {
            let send = Cw20ExecuteMsg::Send {
                contract: pair_contract.into_string(),
                amount,
                msg: hook,
            };
            (contract_addr, to_binary(&send)?, vec![])
        }
    };
    Ok(WasmMsg::Execute { contract_addr, msg, funds }.into())
"""))
# ---------------------------------------------------------------- assets, tokens, arithmetic
SENT = """            match message_info.funds.iter().find(|x| x.denom == *denom) {
                Some(coin) => {
                    if self.amount == coin.amount {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
                None => {
                    if self.amount.is_zero() {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
            }
"""
BAD = 'Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))'
E("a4_sent_find_map", ("asset", SENT, """            let sent = message_info
                .funds
                .iter()
                .find_map(|c| (c.denom == *denom).then_some(c.amount))
                .unwrap_or_default();
            if sent != self.amount {
                return """ + BAD + """;
            }
            Ok(())
"""))
E("a4_sent_skip_while", ("asset", SENT, """            let sent = message_info
                .funds
                .iter()
                .skip_while(|c| &c.denom != denom)
                .next()
                .map_or_else(Uint128::zero, |c| c.amount);
            match self.amount.cmp(&sent) {
                std::cmp::Ordering::Equal => Ok(()),
                _ => """ + BAD + """,
            }
"""))
E("a4_sent_position", ("asset", SENT, """            let expected = match message_info.funds.iter().position(|c| c.denom.eq(denom)) {
                Some(i) => message_info.funds[i].amount,
                None => Uint128::zero(),
            };
            if self.amount.eq(&expected) { Ok(()) } else { """ + BAD + """ }
"""))
E("a4_sent_loop", ("asset", SENT, """            let mut sent = Uint128::zero();
            let mut i = 0;
            while i < message_info.funds.len() {
                if message_info.funds[i].denom.as_str() == denom.as_str() {
                    sent = message_info.funds[i].amount;
                    break;
                }
                i += 1;
            }
            if self.amount == sent {
                return Ok(());
            }
            """ + BAD + """
"""))
E("a4_into_msg_if_let", ("asset", """        let amount = self.amount;

        match &self.info {
            AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Transfer {
                    recipient: recipient.to_string(),
                    amount,
                })?,
                funds: vec![],
            })),
            AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient.to_string(),
                amount: vec![Coin {
                    amount: self.amount,
                    denom: denom.to_string(),
                }],
            })),
        }
""", """        let Asset { info, amount } = self;
        let contract_addr = match info {
            AssetInfo::NativeToken { denom } => {
                return Ok(BankMsg::Send {
                    to_address: recipient.into(),
                    amount: cosmwasm_std::coins(amount.u128(), denom),
                }
                .into())
            }
            AssetInfo::Token { contract_addr } => contract_addr,
        };
        let transfer = Cw20ExecuteMsg::Transfer {
            recipient: recipient.into_string(),
            amount,
        };
        cosmwasm_std::wasm_execute(contract_addr, &transfer, vec![]).map(CosmosMsg::from)
"""))
E("a4_equal_matches", ("asset", """            AssetInfo::Token { contract_addr, .. } => {
                let self_contract_addr = contract_addr;
                match asset {
                    AssetInfo::Token { contract_addr, .. } => self_contract_addr == contract_addr,
                    AssetInfo::NativeToken { .. } => false,
                }
            }
            AssetInfo::NativeToken { denom, .. } => {
                let self_denom = denom;
                match asset {
                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
    }

    pub fn query_decimals""", """            AssetInfo::Token { contract_addr: own } => {
                matches!(asset, AssetInfo::Token { contract_addr } if contract_addr == own)
            }
            AssetInfo::NativeToken { .. } => asset.is_native_token() && asset.to_string() == self.to_string(),
        }
    }

    pub fn query_decimals"""))
E("a4_display_pad", ("asset", """            AssetInfo::NativeToken { denom } => write!(f, "{}", denom),
            AssetInfo::Token { contract_addr } => write!(f, "{}", contract_addr),
        }""", """            AssetInfo::NativeToken { denom: id } | AssetInfo::Token { contract_addr: id } => f.write_str(id),
        }"""))
E("a4_pools_array_map", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])
""", """        let [a, b] = [0, 1].map(|i: usize| -> StdResult<Asset> {
            let info = self.asset_infos[i].to_normal(api)?;
            info.query_pool(querier, api, contract_addr.clone())
                .map(|amount| Asset { info, amount })
        });
        Ok([a?, b?])
"""))
E("a4_pools_try_into", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])
""", """        let pools = self
            .asset_infos
            .iter()
            .map(|raw| {
                let info = raw.to_normal(api)?;
                let amount = info.query_pool(querier, api, contract_addr.clone())?;
                Ok(Asset { info, amount })
            })
            .collect::<StdResult<Vec<Asset>>>()?;
        pools
            .try_into()
            .map_err(|_| cosmwasm_std::StdError::generic_err("two pools expected"))
"""))
E("a4_decimals_map", ("asset", """                let token_info = query_token_info(querier, Addr::unchecked(contract_addr))?;
                Ok(token_info.decimals)
""", """                query_token_info(querier, Addr::unchecked(contract_addr)).map(|t| t.decimals)
"""))
E("t4_symbol_all", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
""", """    bytes
        .iter()
        .all(|b| matches!(b, b'-' | b'A'..=b'Z' | b'a'..=b'z'))
"""))
E("t4_symbol_any_not", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
""", """    !symbol.bytes().any(|b| !b.is_ascii_alphabetic() && b != b'-')
"""))
E("t4_symbol_range", ("token", """    let bytes = symbol.as_bytes();
    if bytes.len() < 3 || bytes.len() > 12 {
        return false;
    }
""", """    let bytes = symbol.as_bytes();
    if !(3..=12).contains(&symbol.len()) {
        return false;
    }
"""))
E("t4_name_one", ("token", """    let bytes = name.as_bytes();
    if bytes.len() < 3 || bytes.len() > 50 {
        return false;
    }
    true
""", """    matches!(name.len(), 3..=50)
"""))
E("t4_cap_filter", ("tokc", """    if let Some(limit) = msg.get_cap() {
        if total_supply > limit {
            return Err(""", """    if msg.get_cap().filter(|limit| *limit < total_supply).is_some() {
        {
            return Err("""))
E("t4_mint_transpose", ("tokc", """    let mint = match msg.mint {
        Some(m) => Some(MinterData {
            minter: deps.api.addr_validate(&m.minter)?,
            cap: m.cap,
        }),
        None => None,
    };
""", """    let mint = msg
        .mint
        .map(|m| -> StdResult<MinterData> {
            Ok(MinterData {
                minter: deps.api.addr_validate(&m.minter)?,
                cap: m.cap,
            })
        })
        .transpose()?;
"""))
E("m4_parse_iter", ("math", """        let parts: Vec<&str> = input.split('.').collect();
        match parts.len() {
            1 => {
                let whole = U256::from_dec_str(parts[0])""", """        let parts: Vec<&str> = input.splitn(3, '.').collect();
        match parts.len() {
            1 => {
                let whole = U256::from_dec_str(parts[0])"""))
E("m4_parse_slice", ("math", """        let parts: Vec<&str> = input.split('.').collect();
        match parts.len() {
            1 => {
                let whole = U256::from_dec_str(parts[0])
                    .map_err(|_| StdError::generic_err("Error parsing whole"))?;
""", """        let parts: Vec<&str> = input.split('.').collect();
        match parts.len() {
            1 => {
                let whole: U256 = match U256::from_dec_str(input) {
                    Ok(whole) => whole,
                    Err(_) => return Err(StdError::generic_err("Error parsing whole")),
                };
"""))
E("m4_div_checked", ("math", """        assert!(!rhs.is_zero());

        Decimal256(self.0 * Decimal256::DECIMAL_FRACTIONAL / rhs.0)""", """        let scaled = self.0 * Decimal256::DECIMAL_FRACTIONAL;
        match scaled.checked_div(rhs.0) {
            Some(q) => Decimal256(q),
            None => panic!("assertion failed: !rhs.is_zero()"),
        }"""))
E("m4_mul_checked", ("math", """        Decimal256(self.0 * rhs.0 / Decimal256::DECIMAL_FRACTIONAL)
    }
}

impl ops::Div for Decimal256""", """        let product = self.0.checked_mul(rhs.0).expect("arithmetic operation overflow");
        let (whole, _) = product.div_mod(Decimal256::DECIMAL_FRACTIONAL);
        Decimal256(whole)
    }
}

impl ops::Div for Decimal256"""))
E("q4_balance_map", ("querier", """    let balance: BalanceResponse = querier.query(&QueryRequest::Bank(BankQuery::Balance {
        address: account_addr.to_string(),
        denom,
    }))?;
    Ok(balance.amount.amount)
""", """    querier
        .query_balance(account_addr, denom)
        .map(|coin| coin.amount)
"""))
E("q4_smart_helper", ("querier", """    let res: Cw20BalanceResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::Balance {
            address: account_addr.to_string(),
        })?,
    }))?;

    // load balance form the token contract
    Ok(res.balance)
""", """    let Cw20BalanceResponse { balance } = querier.query_wasm_smart(
        contract_addr,
        &Cw20QueryMsg::Balance {
            address: account_addr.into_string(),
        },
    )?;
    Ok(balance)
"""))
