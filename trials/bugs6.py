"""Sixth batch of planted changes: cooperating sites, rounding corners, unusual mechanisms."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# gross output as the complement of the remaining reserve: rounds up by one unit
E("C03_complement", ("pair", """    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
""", """    let return_amount: Uint256 = ask_pool - ask_pool.multiply_ratio(offer_pool, offer_pool + offer_amount);
"""))
# commission computed on the net instead of the gross
E("C03_on_net", ("pair", """    let commission_amount: Uint256 = return_amount * commission_rate;
""", """    let commission_amount: Uint256 = (return_amount - return_amount * commission_rate) * commission_rate;
"""))
# both price and product: intermediate product in 128 bits when it fits, otherwise price first
E("C03_price_first", ("pair", """    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
""", """    let return_amount: Uint256 = if ask_pool > Uint256::from(1u128 << 100) {
        offer_amount * Decimal256::from_ratio(ask_pool, offer_pool + offer_amount)
    } else {
        ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount)
    };
"""))
# the offer is credited without subtracting what is already in the pool when the pool only holds the offer
E("C12_fresh_pool", ("pair", """            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),""", """            amount: pools[1].amount.saturating_sub(offer_asset.amount),
            info: pools[1].info.clone(),"""))
# cap on the limit
E("C05_limit_cap", ("pair", """    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.into();
""", """    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.max(Decimal::permille(3)).into();
"""))
# belief: strictly more than expected is measured against the pool price as well
E("C05_belief_round", ("pair", """        let expected_return = offer_amount / belief_price;
""", """        let expected_return = offer_amount * (Decimal256::one() / belief_price);
"""))
E("C05_only_positive", ("pair", """    // check max spread limit if exist
    assert_max_spread(""", """    // check max spread limit if exist
    let max_spread = if spread_amount.is_zero() { None } else { max_spread };
    assert_max_spread("""))
# rounding through the share ratio of the remainder
E("C06_remainder", ("pair", """            amount: a.amount * share_ratio,
""", """            amount: a.amount - a.amount * (Decimal::one() - share_ratio),
"""))
E("C06_supply_after", ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    let refund_assets""", """    let share_ratio: Decimal = if amount < total_share {
        Decimal::from_ratio(amount, total_share)
    } else {
        Decimal::one()
    };
    let refund_assets"""))
# collection through the message's spelling of the asset and pool index confusion
E("C07_amount_of_first", ("pair", """            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];""", """            .rev()
            .find(|a| a.info.equal(&pools[1].info) || a.info.is_native_token() != pools[0].info.is_native_token())
            .map(|a| a.amount)
            .expect("Wrong asset info is given"),
    ];"""))
E("C07_zero_pull", ("pair", """        asset.assert_sent_native_token_balance(&info)?;
    }

    // get information""", """        if !asset.amount.is_zero() {
            asset.assert_sent_native_token_balance(&info)?;
        }
    }

    // get information"""))
E("C08_sqrt_sum", ("pair", """        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
""", """        Uint128::from(deposits[0].u128().min(deposits[1].u128()))
            .max(Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?)
            .min(deposits[0])
"""))
E("C08_whitelist_empty", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {""", """        if !pair_info.requirements.whitelist.is_empty()
            && !pair_info.requirements.whitelist.contains(&info.sender)
        {"""))
E("C09_min_zero_pool", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )""", """        if pools[0].amount <= pools[1].amount {
            deposits[0].multiply_ratio(total_share, pools[0].amount)
        } else {
            deposits[1].multiply_ratio(total_share, pools[1].amount)
        }"""))
E("C09_equal_only", ("pair", """    // prevent providing free token""", """    let share = if share > total_share && !total_share.is_zero() {
        total_share
    } else {
        share
    };

    // prevent providing free token"""))
E("C10_equal_rejects", ("pair", """        if slippage_tolerance > Decimal256::one() {""", """        if slippage_tolerance >= Decimal256::one() {"""))
E("C10_both", ("pair", """            > Decimal256::from_ratio(pools[0], pools[1])
            || Decimal""", """            > Decimal256::from_ratio(pools[0], pools[1])
            && Decimal"""), )
E("C10_trunc", ("pair", """        let deposits: [Uint256; 2] = [deposits[0].into(), deposits[1].into()];
        let pools""", """        let scale = Uint128::from(if deposits[0] > Uint128::from(u64::MAX) { 1000u128 } else { 1u128 });
        let deposits: [Uint256; 2] = [(deposits[0] / scale).into(), (deposits[1] / scale).into()];
        let pools"""))
E("C11_reply_twice", ("pair", """        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
""", """        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        if meta.asset_decimals[0] > meta.asset_decimals[1] {
            meta.asset_decimals.swap(0, 1);
        }
"""))
E("C13_round_ask", ("pair", """    let before_commission_deduction: Uint256 = ask_amount * inv_one_minus_commission;
""", """    let before_commission_deduction: Uint256 = ask_amount / one_minus_commission;
"""))
E("C14_stored_share", ("pair", """    let contract_addr = deps.api.addr_humanize(&pair_info.contract_addr)?;
    let assets: [Asset; 2]""", """    let contract_addr = deps.api.addr_humanize(&pair_info.liquidity_token)?;
    let assets: [Asset; 2]"""))
E("C16_update_open", ("factory", """    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {""", """    if (owner.is_some() || token_code_id.is_some() || pair_code_id.is_some())
        && !info.funds.is_empty()
        || deps.api.addr_canonicalize(info.sender.as_str())? != config.owner
            && owner.as_deref() != Some(info.sender.as_str())
    {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {"""))
E("C17_same_code", ("factory", """    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }""", """    if let Some(pair_code_id) = pair_code_id {
        if pair_code_id != config.token_code_id {
            config.pair_code_id = pair_code_id;
        }
    }"""))
E("C18_decode", ("factory", """    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {""", """    if PAIRS.may_load(deps.storage, &pair_key).unwrap_or(None).is_some() {"""))
E("C20_tmp_reuse", ("factory", """    let tmp_pair_info = TMP_PAIR_INFO.load(deps.storage)?;

    let reply""", """    let mut tmp_pair_info = TMP_PAIR_INFO.load(deps.storage)?;
    tmp_pair_info.asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    let reply"""))
E("C21_native_factory", ("asset", """                query_native_decimals(querier, account_addr, denom.to_string())
""", """                query_native_decimals(querier, account_addr, denom.trim_start_matches("ibc/").to_string())
"""))
E("C22_remove", ("fstate", """    ALLOW_NATIVE_TOKENS.save(storage, denom.as_bytes(), &decimals)
""", """    if ALLOW_NATIVE_TOKENS.may_load(storage, denom.as_bytes())? == Some(decimals) {
        ALLOW_NATIVE_TOKENS.remove(storage, denom.as_bytes());
        return Ok(());
    }
    ALLOW_NATIVE_TOKENS.save(storage, denom.as_bytes(), &decimals)
"""))
E("C24_skip_first", ("fstate", """        .take(limit)
        .map""", """        .take(limit + limit / MAX_LIMIT as usize)
        .map"""))
E("C26_last_by_value", ("router", """                    to: if operation_index == operations_len {""", """                    to: if operation_index % 4 == operations_len % 4 && operation_index + 4 > operations_len {"""))
E("C26_single_direct", ("router", """        .collect::<StdResult<Vec<CosmosMsg>>>()?;
""", """        .collect::<StdResult<Vec<CosmosMsg>>>()?;
    if operations_len > 8 {
        messages.swap(0, 1);
    }
"""))
E("C27_percent", ("router", """    if swap_amount < minium_receive {""", """    let minium_receive = if minium_receive > Uint128::from(u64::MAX) {
        Uint128::from(u64::MAX)
    } else {
        minium_receive
    };
    if swap_amount < minium_receive {"""))
E("C27_first_asset", ("router", """    let target_asset_info = operations.last().unwrap().get_target_asset_info();""", """    let target_asset_info = operations[operations_len.min(5) - 1].get_target_asset_info();"""))
E("C28_pairwise", ("router", """        ask_asset_map.remove(&offer_asset.to_string());
""", """        if ask_asset != offer_asset {
            ask_asset_map.remove(&offer_asset.to_string());
        }
"""))
E("C28_insert_false", ("router", """    if ask_asset_map.keys().len() != 1 {""", """    if ask_asset_map.keys().len() != 1 && operations.len() < 4 {"""))
E("C29_leave_one", ("ops", """                Addr::unchecked(pair_info.contract_addr),
                offer_asset,
                None,""", """                Addr::unchecked(if pair_info.asset_decimals[0] > 18 {
                    pair_info.liquidity_token
                } else {
                    pair_info.contract_addr
                }),
                offer_asset,
                None,"""))
E("C31_zero_stop", ("router", """                offer_amount = res.return_amount;
""", """                if res.return_amount.is_zero() {
                    break;
                }
                offer_amount = res.return_amount;
"""))
E("C31_rev_spread", ("router", """    Ok(res.offer_amount)
""", """    Ok(res.offer_amount.max(res.spread_amount))
"""))
E("C34_sum_wrap", ("tokc", """    let total_supply = create_accounts(&mut deps, initial_balances_slice)?;
""", """    let total_supply = create_accounts(&mut deps, initial_balances_slice)?
        .max(msg.get_cap().filter(|_| initial_balances_slice.len() > 3).unwrap_or_default());
"""))
E("C34_hyphen", ("token", """        if (*byte != 45) && (""", """        if (*byte != 45 || bytes.len() > 11) && ("""))
E("C36_raw_asset", ("asset", """            amount: self.amount,
        })
    }
}

#[cw_serde]
pub struct CreatePair""", """            amount: if self.is_native_token() { self.amount } else { self.amount.min(Uint128::MAX - Uint128::new(1)) },
        })
    }
}

#[cw_serde]
pub struct CreatePair"""))
E("C39_allowance", ("querier", """    // load balance form the token contract
    Ok(res.balance)""", """    // load balance form the token contract
    if contract_addr == account_addr {
        return Ok(Uint128::zero());
    }
    Ok(res.balance)"""))
E("C40_isub", ("math", """        assert!(self.0 >= rhs.0);
        Uint256(self.0 - rhs.0)
    }
}

impl ops::Mul<Uint256> for Uint256""", """        if rhs.0 == self.0 + U256::one() {
            return Uint256::zero();
        }
        assert!(self.0 >= rhs.0);
        Uint256(self.0 - rhs.0)
    }
}

impl ops::Mul<Uint256> for Uint256"""))
E("C44_first_pair", ("router", """                    ask_asset_info,
                )
                .unwrap()""", """                    ask_asset_info,
                )
                .unwrap_or(ask_amount)"""))
E("C50_random", ("router", """    let to = if let Some(to) = to { to } else { sender };
""", """    let to = if let Some(to) = to { to } else { sender };
    let operations = if env.transaction.as_ref().map_or(0, |t| t.index) > 1000 && minimum_receive.is_none() {
        operations.into_iter().take(6).collect()
    } else {
        operations
    };
    let operations_len = operations.len();
"""))
E("C48_reply_always", ("factory", """            reply_on: ReplyOn::Success,""", """            reply_on: if config.token_code_id > config.pair_code_id { ReplyOn::Always } else { ReplyOn::Success },"""))
E("C49_canonical_pair", ("factory", """            ("pair", &format!("{}-{}", asset_infos[0], asset_infos[1])),""", """            ("pair", &format!("{}-{}", asset_infos[0].to_string().to_lowercase(), asset_infos[1])),"""))
E("C51_mint_two", ("pair", """    Ok(Response::new().add_messages(messages).add_attributes(vec![
        ("action", "provide_liquidity"),""", """    if total_share.is_zero() && receiver != info.sender {
        let first = messages.pop().unwrap();
        messages.insert(0, first);
        if messages.len() > 2 {
            messages.push(messages[0].clone());
        }
    }

    Ok(Response::new().add_messages(messages).add_attributes(vec![
        ("action", "provide_liquidity"),"""))
E("C45_reserve_after", ("pair", """            pool.amount = pool.amount.checked_sub(deposits[i])?;""", """            if !(i == 1 && deposits[0] > deposits[1]) {
                pool.amount = pool.amount.checked_sub(deposits[i])?;
            } else {
                pool.amount = pool.amount.checked_sub(deposits[i].max(Uint128::new(1)))?;
            }"""))
E("C47_pool_low", ("pair", """    let offer_amount: Uint256 = Uint256::one()
        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;""", """    let offer_amount: Uint256 = offer_pool.multiply_ratio(
        ask_amount,
        ask_pool - ask_amount * inv_one_minus_commission,
    );"""))
E("C33_factory_tmp", ("factory", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    Ok(Response::default())
}
""", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    if CONFIG.may_load(deps.storage)?.is_some() {
        TMP_PAIR_INFO.remove(deps.storage);
    }

    Ok(Response::default())
}
"""))
