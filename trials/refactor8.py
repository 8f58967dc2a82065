"""Eighth set of behaviour-preserving edits: other library interfaces for the same effect, limb arithmetic, checked operations."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)
SRC = {k: open("/repo/" + p).read() for k, p in (("pair", "contracts/halo-pair/src/contract.rs"), ("factory", "contracts/halo-factory/src/contract.rs"),
                                                ("router", "contracts/halo-router/src/contract.rs"), ("asset", "packages/haloswap/src/asset.rs"),
                                                ("querier", "packages/haloswap/src/querier.rs"), ("math", "packages/bignumber/src/math.rs"),
                                                ("fstate", "contracts/halo-factory/src/state.rs"), ("ops", "contracts/halo-router/src/operations.rs"),
                                                ("token", "packages/haloswap/src/token.rs"), ("tokc", "contracts/halo-token/src/contract.rs"))}
def cut(f, a, b, incl=True):
    s = SRC[f]; i = s.index(a); j = s.index(b, i) + (len(b) if incl else 0)
    return s[i:j]

# ---- 256-bit numbers
E("m8_bits", ("math", """        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)""", """        assert!(n.0.bits() <= 128);
        n.0.low_u128()"""))
E("m8_as_u128", ("math", """        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)""", """        n.0.as_u128()"""))
E("m8_limbs_any", ("math", """        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)""", """        let limbs = (n.0).0;
        if limbs.iter().skip(2).any(|limb| *limb != 0) {
            panic!("the number does not fit in 128 bits");
        }
        limbs
            .iter()
            .take(2)
            .rev()
            .fold(0u128, |acc, limb| (acc << 64) | u128::from(*limb))"""))
E("m8_limbs_match", ("math", """        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)""", """        match n.0 .0 {
            [low, hi, 0, 0] => (u128::from(hi) << 64) + u128::from(low),
            _ => panic!("the number does not fit in 128 bits"),
        }"""))
E("m8_add_checked", ("math", """impl ops::Add for Uint256 {
    type Output = Self;

    fn add(self, rhs: Self) -> Self {
        Uint256(self.0 + rhs.0)
    }""", """impl ops::Add for Uint256 {
    type Output = Self;

    fn add(self, rhs: Self) -> Self {
        Uint256(self.0.checked_add(rhs.0).expect("addition overflow"))
    }"""))
E("m8_dec_from_str", ("math", """                let exp = (18usize.checked_sub(parts[1].len())).ok_or_else(|| {
                    StdError::generic_err("Cannot parse more than 18 fractional digits")
                })?;
                let fractional_factor = U256::from(10).pow(exp.into());
""", """                let digits = parts[1].len();
                if digits > 18 {
                    return Err(StdError::generic_err(
                        "Cannot parse more than 18 fractional digits",
                    ));
                }
                let fractional_factor = U256::exp10(18 - digits);
"""))
E("q8_balance", ("querier", cut("querier", "    // load price form the oracle\n    let balance: BalanceResponse", "    Ok(balance.amount.amount)\n"), """    let Coin { amount, .. } = querier.query_balance(account_addr, denom)?;
    Ok(amount)
"""))
E("q8_smart", ("querier", cut("querier", "    let res: Cw20BalanceResponse", "    // load balance form the token contract\n    Ok(res.balance)\n"), """    let msg = Cw20QueryMsg::Balance {
        address: account_addr.into_string(),
    };
    querier
        .query_wasm_smart::<Cw20BalanceResponse>(contract_addr, &msg)
        .map(|response| response.balance)
"""))
E("q8_request_fn", ("querier", cut("querier", "    querier.query(&QueryRequest::Wasm(WasmQuery::Smart {\n        contract_addr: pair_contract.to_string(),\n        msg: to_binary(&PairQueryMsg::Simulation {", "    }))\n}\n"), """    querier.query(&ask_pair(
        pair_contract,
        &PairQueryMsg::Simulation {
            offer_asset: offer_asset.clone(),
        },
    )?)
}

fn ask_pair(pair_contract: Addr, msg: &PairQueryMsg) -> StdResult<QueryRequest<cosmwasm_std::Empty>> {
    Ok(WasmQuery::Smart {
        contract_addr: pair_contract.into_string(),
        msg: to_binary(msg)?,
    }
    .into())
}
"""))
E("a8_equal_matches", ("asset", cut("asset", "    pub fn equal(&self, asset: &AssetInfo) -> bool {\n        match self {\n            AssetInfo::Token", "    pub fn query_decimals", False), """    pub fn equal(&self, asset: &AssetInfo) -> bool {
        use AssetInfo::*;
        match (self, asset) {
            (Token { contract_addr: a }, Token { contract_addr: b }) => a.as_bytes() == b.as_bytes(),
            (NativeToken { denom: a }, NativeToken { denom: b }) => a.as_bytes() == b.as_bytes(),
            (Token { .. }, NativeToken { .. }) | (NativeToken { .. }, Token { .. }) => false,
        }
    }

"""))
E("a8_cw20_contract", ("asset", "                msg: to_binary(&Cw20ExecuteMsg::Transfer {\n", "                msg: to_binary::<Cw20ExecuteMsg>(&Cw20ExecuteMsg::Transfer {\n"))

# ---- pair
E("p8_checked_ratio", ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
""", """    let share_ratio = Decimal::checked_from_ratio(amount, total_share)
        .map_err(|err| StdError::generic_err(err.to_string()))?;
"""))
E("p8_checked_multiply_ratio", ("pair", """            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
""", """            deposits[0]
                .checked_multiply_ratio(total_share, pools[0].amount)
                .map_err(|err| StdError::generic_err(err.to_string()))?,
            deposits[1]
                .checked_multiply_ratio(total_share, pools[1].amount)
                .map_err(|err| StdError::generic_err(err.to_string()))?,
"""))
E("p8_ratio_u256", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )""", """        let part = |i: usize| -> Uint128 {
            let share = Uint256::from(deposits[i])
                .multiply_ratio(Uint256::from(total_share), Uint256::from(pools[i].amount));
            share.into()
        };
        part(0).min(part(1))"""))
E("p8_supply_is_zero", ("pair", "    let share = if total_share == Uint128::zero() {", "    let no_shares = total_share.is_zero();\n    let share = if no_shares {"))
E("p8_burn_first_var", ("pair", """            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: deps
                    .api
                    .addr_humanize(&pair_info.liquidity_token)?
                    .to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
                funds: vec![],
            }),""", """            burn.into(),"""), ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
""", """    let burn = WasmMsg::Execute {
        contract_addr: deps
            .api
            .addr_humanize(&pair_info.liquidity_token)?
            .into_string(),
        msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,
        funds: Vec::new(),
    };

    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
"""))
E("p8_submsg_helper", ("pair", """    Ok(Response::new().add_submessage(SubMsg {
        // Create LP token
        msg: WasmMsg::Instantiate {""", """    Ok(Response::new().add_submessage(SubMsg::reply_on_success(
        // Create LP token
        WasmMsg::Instantiate {"""), ("pair", """            label: "lp".to_string(),
        }
        .into(),
        gas_limit: None,
        id: INSTANTIATE_REPLY_ID,
        reply_on: ReplyOn::Success,
    }))""", """            label: "lp".to_string(),
        },
        INSTANTIATE_REPLY_ID,
    )))"""), ("pair", "ReplyOn, ", ""))
E("p8_mint_vec", ("pair", """    Ok(Response::new().add_messages(messages).add_attributes(vec![
        ("action", "provide_liquidity"),""", """    let mut response = Response::new();
    for message in messages {
        response = response.add_message(message);
    }

    Ok(response.add_attributes(vec![
        ("action", "provide_liquidity"),"""))
E("p8_diff_pow", ("pair", """                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());

                (
                    offer_asset.amount.into(),
                    return_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),""", """                let diff_decimal = 10u64
                    .checked_pow(u32::from(offer_decimal - return_decimal))
                    .unwrap();

                (
                    offer_asset.amount.into(),
                    return_asset
                        .amount
                        .checked_mul(diff_decimal.into())?
                        .into(),"""))
E("p8_expected_cmp", ("pair", """        let expected_return = offer_amount / belief_price;
        let spread_amount = if expected_return > return_amount {
            expected_return - return_amount
        } else {
            Uint256::zero()
        };

        if return_amount < expected_return
            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
        {
            return Err(ContractError::MaxSpreadAssertion {});
        }""", """        let expected_return = offer_amount / belief_price;
        match return_amount.cmp(&expected_return) {
            Ordering::Less
                if Decimal256::from_ratio(expected_return - return_amount, expected_return)
                    > max_spread =>
            {
                return Err(ContractError::MaxSpreadAssertion {});
            }
            _ => {}
        }"""))
E("p8_find_map", ("pair", cut("pair", "    let deposits: [Uint128; 2] = [\n", "            .expect(\"Wrong asset info is given\"),\n    ];\n"), """    let mut deposits = [Uint128::zero(); 2];
    for (deposit, pool) in deposits.iter_mut().zip(pools.iter()) {
        *deposit = assets
            .iter()
            .find_map(|asset| asset.info.equal(&pool.info).then(|| asset.amount))
            .expect("Wrong asset info is given");
    }
"""))
E("p8_return_coin", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    if !return_amount.is_zero() {
        messages.push(return_asset.into_msg(receiver.clone())?);
    }
""", """    let messages = if return_amount > Uint128::zero() {
        vec![return_asset.into_msg(receiver.clone())?]
    } else {
        Vec::with_capacity(0)
    };
"""))
E("p8_whitelist_binary", ("pair", """        if !pair_info.requirements.whitelist.contains(&info.sender) {""", """        let listed = pair_info
            .requirements
            .whitelist
            .iter()
            .position(|member| *member == info.sender);
        if listed.is_none() {"""))

# ---- factory
E("f8_key_btree", ("fstate", """    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}

// settings""", """    let mut parts: [&[u8]; 2] = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()];
    if parts[0] > parts[1] {
        parts.swap(0, 1);
    }

    let mut key = Vec::with_capacity(parts[0].len() + parts[1].len());
    for part in parts {
        key.extend_from_slice(part);
    }
    key
}

// settings"""))
E("f8_update_action", ("factory", """    CONFIG.save(deps.storage, &config)?;

    Ok(Response::new().add_attribute("action", "update_config"))""", """    CONFIG.update(deps.storage, |_| -> StdResult<_> { Ok(config) })?;

    Ok(Response::new().add_attribute("action", "update_config"))"""))
E("f8_balance_wrapper", ("factory", """    let balance = query_balance(&deps.querier, env.contract.address, denom.to_string())?;
    if balance.is_zero() {""", """    let held = deps.querier.query_balance(env.contract.address, &denom)?;
    if held.amount.is_zero() {"""), ("factory", "query_balance, ", ""))
E("f8_decimals_result", ("factory", cut("factory", "    let asset_1_decimal =\n", "    let raw_infos = [", False), """    let decimals_of = |info: &AssetInfo, refusal: &str| -> StdResult<u8> {
        info.query_decimals(env.contract.address.clone(), &deps.querier)
            .map_err(|_| StdError::generic_err(refusal))
    };
    let asset_1_decimal = decimals_of(&asset_infos[0], "asset1 is invalid")?;
    let asset_2_decimal = decimals_of(&asset_infos[1], "asset2 is invalid")?;

"""))
E("f8_migrate_wasm", ("factory", """    let code_id = code_id.unwrap_or(config.pair_code_id);

    Ok(
        Response::new().add_message(CosmosMsg::Wasm(WasmMsg::Migrate {
            contract_addr: contract,
            new_code_id: code_id,
            msg: to_binary(&PairMigrateMsg {})?,
        })),
    )""", """    let migrate = WasmMsg::Migrate {
        contract_addr: contract,
        new_code_id: match code_id {
            Some(given) => given,
            None => config.pair_code_id,
        },
        msg: to_binary(&PairMigrateMsg {})?,
    };

    Ok(Response::new().add_submessage(SubMsg::new(migrate)))"""))
E("f8_pairs_query_items", ("fstate", """    PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()""", """    let mut pairs = Vec::with_capacity(limit);
    for item in PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
    {
        let (_key, pair) = item?;
        pairs.push(pair.to_normal(api)?);
    }
    Ok(pairs)"""))

# ---- router
E("r8_retain", ("router", """        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
    }

    if ask_asset_map.keys().len() != 1 {""", """        let consumed = offer_asset.to_string();
        ask_asset_map.retain(|asset, _| *asset != consumed);
        ask_asset_map.entry(ask_asset.to_string()).or_insert(true);
    }

    if ask_asset_map.len() != 1 {"""))
E("r8_unwrap_or_else", ("router", """    let to = if let Some(to) = to { to } else { sender };
    let target_asset_info = operations.last().unwrap().get_target_asset_info();
""", """    let to = to.unwrap_or(sender);
    let target_asset_info = match operations.last() {
        Some(last) => last.get_target_asset_info(),
        None => return Err(StdError::generic_err("must provide operations")),
    };
"""))
E("r8_hop_helper", ("router", """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
""", """    let last = operations_len - 1;
    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(operations_len + 1);
    for (index, operation) in operations.into_iter().enumerate() {
        let to = (index == last).then(|| to.to_string());
        let hop = ExecuteMsg::ExecuteSwapOperation { operation, to };
        messages.push(cosmwasm_std::wasm_execute(&env.contract.address, &hop, vec![])?.into());
    }
"""))
E("r8_balance_before", ("router", """    if swap_amount < minium_receive {""", """    if !(swap_amount >= minium_receive) {"""))
E("r8_hop_match", ("ops", cut("ops", "            let amount = match offer_asset_info.clone() {\n", "            };\n            let offer_asset: Asset", False), """            let amount = offer_asset_info.query_pool(&deps.querier, deps.api, env.contract.address)?;
            // """ + "\n"), ("ops", "            };\n            let offer_asset: Asset = Asset {", "            let offer_asset: Asset = Asset {"), ("ops", "use haloswap::querier::{query_balance, query_pair_info, query_token_balance};", "use haloswap::querier::query_pair_info;"))
E("r8_swap_msg_common", ("ops", cut("ops", "    match offer_asset.info.clone() {\n        AssetInfo::NativeToken { denom } => Ok(CosmosMsg", "        })),\n    }\n}"), """    let Asset { info, amount } = offer_asset;
    let hook = to_binary(&PairHookMsg::Swap {
        belief_price: None,
        max_spread,
        to,
    })?;
    let (contract_addr, msg, funds) = match info {
        AssetInfo::NativeToken { denom } => (
            pair_contract.into_string(),
            hook,
            vec![Coin { denom, amount }],
        ),
        AssetInfo::Token { contract_addr } => (
            contract_addr,
            to_binary(&Cw20ExecuteMsg::Send {
                contract: pair_contract.into_string(),
                amount,
                msg: hook,
            })?,
            vec![],
        ),
    };

    Ok(WasmMsg::Execute {
        contract_addr,
        msg,
        funds,
    }
    .into())
}"""))

# ---- token
E("t8_supply_order", ("tokc", """    let mint = match msg.mint {
        Some(m) => Some(MinterData {
            minter: deps.api.addr_validate(&m.minter)?,
            cap: m.cap,
        }),
        None => None,
    };
""", """    let mint = msg
        .mint
        .map(|m| -> StdResult<MinterData> {
            let minter = deps.api.addr_validate(&m.minter)?;
            Ok(MinterData { minter, cap: m.cap })
        })
        .transpose()?;
"""))
E("t8_symbol_match", ("token", """        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }""", """        match *byte {
            b'-' | b'A'..=b'Z' | b'a'..=b'z' => continue,
            _ => return false,
        }"""))
E("t8_symbol_char", ("token", """    let bytes = symbol.as_bytes();
    if bytes.len() < 3 || bytes.len() > 12 {
        return false;
    }
    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true""", """    (3..=12).contains(&symbol.len())
        && symbol.chars().all(|c| c.is_ascii_alphabetic() || c == '-')"""))
