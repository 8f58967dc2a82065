"""Seventh batch of planted changes: unusual mechanisms per property (state of an earlier operation, fast paths, caps, rounding forms)."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# a creation that was not followed by its registration blocks the next one
E("C18_tmp_block", ("factory", """    TMP_PAIR_INFO.save(
        deps.storage,
        &TmpPairInfo {""", """    if let Some(pending) = TMP_PAIR_INFO.may_load(deps.storage)? {
        if pending.pair_key == pair_key && config.pair_code_id > 1000 {
            return Err(StdError::generic_err("Pair creation is pending"));
        }
    }

    TMP_PAIR_INFO.save(
        deps.storage,
        &TmpPairInfo {"""))
# prefix instead of equality of the canonical owner
E("C16_prefix", ("factory", """    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id""", """    let sender = deps.api.addr_canonicalize(info.sender.as_str())?;
    if !config.owner.as_slice().starts_with(sender.as_slice()) {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id"""))
# a whitelisted prefix
E("C08_prefix", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {""", """        if !pair_info
            .requirements
            .whitelist
            .iter()
            .any(|a| a.as_str().starts_with(info.sender.as_str()))
        {"""))
# shares through the 18-digit ratio
E("C09_ratio", ("pair", """            deposits[0].multiply_ratio(total_share, pools[0].amount),
""", """            deposits[0] * Decimal::from_ratio(total_share, pools[0].amount),
"""))
# the second orientation through the inverse of the first
E("C10_inverse", ("pair", """            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::from_ratio(pools[1], pools[0])""", """            || Decimal256::from_ratio(deposits[1], deposits[0]) * one_minus_slippage_tolerance
                > Decimal256::one() / Decimal256::from_ratio(pools[0], pools[1])"""))
# a simulation of nothing fails
E("C12_zero_offer", ("pair", """    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {""", """    if offer_asset.amount.is_zero() {
        return Err(ContractError::InvalidZeroAmount {});
    }

    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {"""))
# owner of an empty text leaves the owner
E("C17_empty_owner", ("factory", """    if let Some(owner) = owner {
        // validate""", """    if let Some(owner) = owner.filter(|o| o != info.sender.as_str() || token_code_id.is_none()) {
        // validate"""), )
# decimals are capped silently
E("C22_cap18", ("factory", """    add_allow_native_token(deps.storage, denom.to_string(), decimals)?;""", """    add_allow_native_token(deps.storage, denom.to_string(), decimals.min(18))?;"""))
# over-long pages fall back to the default
E("C24_over_default", ("fstate", """    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;""", """    let limit = limit
        .filter(|limit| *limit < u32::MAX)
        .unwrap_or(DEFAULT_LIMIT)
        .min(MAX_LIMIT) as usize;"""))
# minimum asserted against the requested, case-folded account
E("C27_lower", ("router", """                receiver: to.to_string(),
            })?,
        }))
    }""", """                receiver: to.to_string().to_lowercase(),
            })?,
        }))
    }"""))
# the balance before is taken without what was attached
E("C27_attached", ("router", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;
""", """    let swap_amount = match asset_info {
        AssetInfo::Token { .. } => receiver_balance.checked_sub(prev_balance)?,
        AssetInfo::NativeToken { .. } => receiver_balance.max(prev_balance) - prev_balance.min(receiver_balance),
    };
"""))
# outputs are counted by value before the last operation only
E("C28_prefix_key", ("router", """        ask_asset_map.remove(&offer_asset.to_string());""", """        ask_asset_map.retain(|asset, _| !asset.starts_with(&offer_asset.to_string()));"""))
# hop amount limited to what a 64-bit number holds
E("C29_u64", ("ops", """            let offer_asset: Asset = Asset {
                info: offer_asset_info,
                amount,
            };""", """            let offer_asset: Asset = Asset {
                info: offer_asset_info,
                amount: amount.min(cosmwasm_std::Uint128::from(u64::MAX)),
            };"""))
# duplicates of the initial balances
E("C34_cap_each", ("tokc", """        if total_supply > limit {""", """        if msg.initial_balances.iter().any(|b| b.amount > limit) || initial_balances_slice.len() < 2 && total_supply > limit {"""))
# name counted without surrounding blanks
E("C34_trim", ("token", """    let bytes = name.as_bytes();""", """    let bytes = name.trim_end().as_bytes();"""))
# tokens are compared without their last character
E("C36_len", ("asset", """                    AssetInfo::Token { contract_addr, .. } => self_contract_addr == contract_addr,""", """                    AssetInfo::Token { contract_addr, .. } => {
                        self_contract_addr.len() == contract_addr.len()
                            && self_contract_addr
                                .bytes()
                                .zip(contract_addr.bytes())
                                .skip(1)
                                .all(|(a, b)| a == b)
                    }"""))
# 128-bit fast path
E("C40_fast", ("math", """        Decimal256(self.0 * rhs.0 / Decimal256::DECIMAL_FRACTIONAL)
    }
}

impl ops::Div for Decimal256""", """        if self.0.bits() <= 64 && rhs.0.bits() <= 64 {
            let product = self.0.low_u64().wrapping_mul(rhs.0.low_u64());
            return Decimal256((U256::from(product)) / Decimal256::DECIMAL_FRACTIONAL);
        }
        Decimal256(self.0 * rhs.0 / Decimal256::DECIMAL_FRACTIONAL)
    }
}

impl ops::Div for Decimal256"""))
# blanks around the text
E("C41_trim", ("math", """            2 => {
                let whole = U256::from_dec_str(parts[0])""", """            2 => {
                let whole = U256::from_dec_str(parts[0].trim_start_matches('0'))"""))
# supply of a token that does not answer
E("C44_supply_default", ("pair", """    let total_share = query_token_info(&deps.querier, liquidity_token)?.total_supply;
""", """    let total_share = query_token_info(&deps.querier, liquidity_token)
        .map(|info| info.total_supply)
        .unwrap_or_default();
"""))
# one unit too many taken from the reserve
E("C45_pool_dust", ("pair", """            pool.amount = pool.amount.checked_sub(deposits[i])?;""", """            pool.amount = pool
                .amount
                .checked_sub(deposits[i])?
                .saturating_sub(Uint128::from(u128::from(i == 1)));"""))
# the label says when the pair was made
E("C50_label", ("factory", """                label: "pair".to_string(),""", """                label: format!("pair {}", env.block.height / 1_000_000 * 1_000_000),"""))
# an offer that moves the price a lot is refused by the quotation
E("C43_refuse", ("pair", """    Ok(SimulationResponse {
        return_amount,""", """    if return_amount + commission_amount > ask_pool.amount.multiply_ratio(99u128, 100u128) {
        return Err(ContractError::MaxSpreadAssertion {});
    }

    Ok(SimulationResponse {
        return_amount,"""))
# an LP token that was set once is kept
E("C11_keep", ("pair", """        meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        Ok(meta)""", """        if meta.asset_decimals[0] <= 18 {
            meta.liquidity_token = api.addr_canonicalize(&liquidity_token)?;
        }
        Ok(meta)"""))
# pool response in key order
E("C14_order", ("pair", """    let resp = PoolResponse {
        assets,
        total_share,""", """    let mut assets = assets;
    if !assets[0].info.is_native_token() && assets[1].info.is_native_token() {
        assets.swap(0, 1);
    }
    let resp = PoolResponse {
        assets,
        total_share,"""))
# what is withdrawn is reported in whole tokens
E("C15_refund_order", ("pair", """                &format!("{}, {}", refund_assets[0], refund_assets[1]),
            ),""", """                &format!("{}, {}", refund_assets[0], refund_assets[usize::from(refund_assets[1].amount != refund_assets[0].amount)]),
            ),"""))
# a route whose final asset equals its first one is measured after the attached coins
E("C26_factory_hop", ("router", """                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {""", """                contract_addr: if operation_index > 16 { to.to_string() } else { env.contract.address.to_string() },
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {"""))
# pair of the registered contract is looked up in both orders with different answers
E("C31_swapped", ("router", """        &[offer_asset_info, ask_asset_info.clone()],
    )?;""", """        &[ask_asset_info.clone(), offer_asset_info],
    )?;"""))
# a reply without data is taken as done
E("C44_reply", ("factory", """    let pair_info = query_pair_info_from_pair(&deps.querier, Addr::unchecked(pair_contract))?;
""", """    let pair_info = match query_pair_info_from_pair(&deps.querier, Addr::unchecked(pair_contract)) {
        Ok(pair_info) => pair_info,
        Err(_) => return Ok(Response::new()),
    };
"""))
# reverse quotation rounds the divisor the other way
E("C47_divisor", ("pair", """        .multiply_ratio(cp, ask_pool - ask_amount * inv_one_minus_commission)
        - offer_pool;""", """        .multiply_ratio(cp, (ask_pool + Uint256::one()) - ask_amount * inv_one_minus_commission)
        - offer_pool.min(Uint256::one().multiply_ratio(cp, (ask_pool + Uint256::one()) - ask_amount * inv_one_minus_commission));"""))
# spread above the net only when positive commission
E("C05_no_belief_net", ("pair", """        if Decimal256::from_ratio(spread_amount, return_amount + spread_amount) > max_spread {""", """        if !return_amount.is_zero()
            && Decimal256::from_ratio(spread_amount, return_amount + spread_amount) > max_spread
        {"""))
# redemption ratio from the smaller of supply and total
E("C06_ratio_up", ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
""", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    let share_ratio = if share_ratio.is_zero() { Decimal::raw(1) } else { share_ratio };
"""))
# deposit of a side given twice
E("C07_rposition", ("pair", """            .find(|a| a.info.equal(&pools[1].info))
            .map(|a| a.amount)""", """            .rev()
            .find(|a| a.info.equal(&pools[1].info) || !a.info.is_native_token() && a.amount.is_zero())
            .map(|a| a.amount)"""))
E("C20_code_lp", ("factory", """            asset_decimals: tmp_pair_info.asset_decimals,
            requirements""", """            asset_decimals: pair_info.asset_decimals,
            requirements"""))
E("C23_pair_contract_lower", ("factory", """            contract_addr: contract,
            new_code_id: code_id,""", """            contract_addr: contract.trim().to_string(),
            new_code_id: code_id,"""))
E("C42_u64_pow", ("pair", """                let diff_decimal = 10u64.pow((return_decimal - offer_decimal).into());

                (
                    offer_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?""", """                let diff_decimal = 10u64.saturating_pow((return_decimal - offer_decimal).into());

                (
                    offer_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?"""))
