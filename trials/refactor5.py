"""Fifth set of behaviour-preserving edits: larger restructurings (traits, custom iterators, tables, builders, generics)."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# ---- pair: pricing behind a trait object
E("p5_curve_trait", ("pair", """    let offer_amount = offer_asset.amount;
    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_amount);
""", """    let offer_amount = offer_asset.amount;
    let curve: Box<dyn Curve> = Box::new(ConstantProduct {
        offer_pool: offer_pool.amount,
        ask_pool: ask_pool.amount,
    });
    let (return_amount, spread_amount, commission_amount) = curve.output(offer_amount);
"""), ("pair", """// User want to swap from 'offer' to 'ask'
""", """trait Curve {
    fn output(&self, offer_amount: Uint128) -> (Uint128, Uint128, Uint128);
}

struct ConstantProduct {
    offer_pool: Uint128,
    ask_pool: Uint128,
}

impl Curve for ConstantProduct {
    fn output(&self, offer_amount: Uint128) -> (Uint128, Uint128, Uint128) {
        compute_swap(self.offer_pool, self.ask_pool, offer_amount)
    }
}

// User want to swap from 'offer' to 'ask'
"""))
E("p5_default_method", ("pair", """/// If `belief_price` and `max_spread` both are given,""", """trait Scaled {
    fn factor(from: u8, to: u8) -> Uint128 {
        Uint128::from(10u64.pow(u32::from(from - to)))
    }
}
struct Decimals;
impl Scaled for Decimals {}

/// If `belief_price` and `max_spread` both are given,"""), ("pair", """                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());

                (
                    offer_asset.amount.into(),
                    return_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),
                    spread_amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),
                )""", """                let factor = Decimals::factor(offer_decimal, return_decimal);

                (
                    offer_asset.amount.into(),
                    return_asset.amount.checked_mul(factor)?.into(),
                    spread_amount.checked_mul(factor)?.into(),
                )"""), ("pair", """                let diff_decimal = 10u64.pow((return_decimal - offer_decimal).into());

                (
                    offer_asset
                        .amount
                        .checked_mul(Uint128::from(diff_decimal))?
                        .into(),""", """                let factor = Decimals::factor(return_decimal, offer_decimal);

                (
                    offer_asset.amount.checked_mul(factor)?.into(),"""))
# ---- pair: a struct for the oriented pool with a constructor
E("p5_side_struct", ("pair", """    let offer_pool: Asset;
    let ask_pool: Asset;

    let offer_decimal: u8;
    let ask_decimal: u8;
    // If the asset balance is already increased
    // To calculated properly we should subtract user deposit from the pool
    if offer_asset.info.equal(&pools[0].info) {
        offer_pool = Asset {
            amount: pools[0].amount.checked_sub(offer_asset.amount)?,
            info: pools[0].info.clone(),
        };
        ask_pool = pools[1].clone();

        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];
    } else if offer_asset.info.equal(&pools[1].info) {
        offer_pool = Asset {
            amount: pools[1].amount.checked_sub(offer_asset.amount)?,
            info: pools[1].info.clone(),
        };
        ask_pool = pools[0].clone();

        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];
    } else {
        return Err(ContractError::AssetMismatch {});
    }
""", """    let [first, second]: [Side; 2] = {
        let [a, b] = pools;
        let [da, db] = pair_info.asset_decimals;
        [Side { pool: a, decimals: da }, Side { pool: b, decimals: db }]
    };
    let (offer_side, ask_side) = match (first.is(&offer_asset), second.is(&offer_asset)) {
        (true, _) => (first, second),
        (false, true) => (second, first),
        (false, false) => return Err(ContractError::AssetMismatch {}),
    };
    let Side { pool: mut offer_pool, decimals: offer_decimal } = offer_side;
    let Side { pool: ask_pool, decimals: ask_decimal } = ask_side;
    // the balance is already increased by the offer
    offer_pool.amount = offer_pool.amount.checked_sub(offer_asset.amount)?;
"""), ("pair", """// CONTRACT - a user must do token approval
#[allow(clippy::too_many_arguments)]
pub fn swap(""", """struct Side {
    pool: Asset,
    decimals: u8,
}

impl Side {
    fn is(&self, asset: &Asset) -> bool {
        self.pool.info.equal(&asset.info)
    }
}

// CONTRACT - a user must do token approval
#[allow(clippy::too_many_arguments)]
pub fn swap("""))
E("p5_from_fn", ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    let refund_assets: Vec<Asset> = pools
        .iter()
        .map(|a| Asset {
            info: a.info.clone(),
            amount: a.amount * share_ratio,
        })
        .collect();
""", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    let refund_assets: [Asset; 2] = std::array::from_fn(|i| Asset {
        info: pools[i].info.clone(),
        amount: share_ratio * pools[i].amount,
    });
"""))
E("p5_builder", ("pair", """    let mut messages: Vec<CosmosMsg> = vec![];
    if !return_amount.is_zero() {
        messages.push(return_asset.into_msg(receiver.clone())?);
    }

    // 1. send collateral token from the contract to a user
    // 2. send inactive commission to collector
    Ok(Response::new().add_messages(messages).add_attributes(vec![""", """    let mut out = Outbox::default();
    if return_amount > Uint128::zero() {
        out.pay(return_asset, &receiver)?;
    }

    // 1. send collateral token from the contract to a user
    // 2. send inactive commission to collector
    Ok(out.into_response().add_attributes(vec!["""), ("pair", """// CONTRACT - a user must do token approval
#[allow(clippy::too_many_arguments)]
pub fn swap(""", """#[derive(Default)]
struct Outbox(Vec<CosmosMsg>);

impl Outbox {
    fn pay(&mut self, asset: Asset, to: &Addr) -> StdResult<&mut Self> {
        let msg = asset.into_msg(to.to_owned())?;
        self.0.push(msg);
        Ok(self)
    }

    fn into_response(self) -> Response {
        self.0.into_iter().fold(Response::default(), |r, m| r.add_message(m))
    }
}

// CONTRACT - a user must do token approval
#[allow(clippy::too_many_arguments)]
pub fn swap("""))
E("p5_cow", ("pair", """    let receiver = receiver.unwrap_or_else(|| info.sender.to_string());
""", """    let receiver: std::borrow::Cow<str> = match &receiver {
        Some(r) => r.as_str().into(),
        None => info.sender.as_str().into(),
    };
"""), ("pair", """        ("receiver", receiver.as_str()),
        ("assets",""", """        ("receiver", receiver.as_ref()),
        ("assets","""))
E("p5_generic_with_pair", ("pair", """pub fn query_pool(deps: Deps) -> Result<PoolResponse, ContractError> {
    let pair_info: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
    let contract_addr = deps.api.addr_humanize(&pair_info.contract_addr)?;
    let assets: [Asset; 2] = pair_info.query_pools(&deps.querier, deps.api, contract_addr)?;
    let total_share: Uint128 = query_token_info(
        &deps.querier,
        deps.api.addr_humanize(&pair_info.liquidity_token)?,
    )?
    .total_supply;

    let resp = PoolResponse {
        assets,
        total_share,
    };

    Ok(resp)
}""", """fn with_pools<T, F>(deps: Deps, f: F) -> Result<T, ContractError>
where
    F: FnOnce(&PairInfoRaw, [Asset; 2]) -> Result<T, ContractError>,
{
    let pair_info: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
    let contract_addr = deps.api.addr_humanize(&pair_info.contract_addr)?;
    let assets = pair_info.query_pools(&deps.querier, deps.api, contract_addr)?;
    f(&pair_info, assets)
}

pub fn query_pool(deps: Deps) -> Result<PoolResponse, ContractError> {
    with_pools(deps, |pair_info, assets| {
        let lp = deps.api.addr_humanize(&pair_info.liquidity_token)?;
        let total_share = query_token_info(&deps.querier, lp)?.total_supply;
        Ok(PoolResponse { assets, total_share })
    })
}"""))
E("p5_share_ord", ("pair", """        std::cmp::min(
            deposits[0].multiply_ratio(total_share, pools[0].amount),
            deposits[1].multiply_ratio(total_share, pools[1].amount),
        )
    };""", """        let mut candidates = [Uint128::zero(); 2];
        for ((c, d), p) in candidates.iter_mut().zip(&deposits).zip(&pools) {
            *c = d.multiply_ratio(total_share, p.amount);
        }
        candidates.into_iter().min_by_key(|c| c.u128()).unwrap_or_default()
    };"""))
E("p5_auth_iter_any_zip", ("pair", """            let mut authorized: bool = false;
            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            for pool in pools.iter() {
                if let AssetInfo::Token { contract_addr, .. } = &pool.info {
                    if contract_addr == &info.sender {
                        authorized = true;
                    }
                }
            }
            
            if !authorized {
                return Err(ContractError::Unauthorized {});
            }
""", """            let config: PairInfoRaw = PAIR_INFO.load(deps.storage)?;
            let pools: [Asset; 2] =
                config.query_pools(&deps.querier, deps.api, env.contract.address.clone())?;
            let caller = AssetInfo::Token { contract_addr: info.sender.to_string() };
            'found: {
                for Asset { info, .. } in &pools {
                    if *info == caller {
                        break 'found;
                    }
                }
                return Err(ContractError::Unauthorized {});
            }
"""))
E("p5_handler_table", ("pair", """        QueryMsg::Pair {} => Ok(to_binary(&query_pair_info(deps)?)?),
        QueryMsg::Pool {} => Ok(to_binary(&query_pool(deps)?)?),""", """        QueryMsg::Pair {} => encode(query_pair_info, deps),
        QueryMsg::Pool {} => encode(query_pool, deps),"""), ("pair", """pub fn query_pair_info(deps""", """fn encode<T: serde::Serialize>(
    f: fn(Deps) -> Result<T, ContractError>,
    deps: Deps,
) -> Result<Binary, ContractError> {
    f(deps).and_then(|t| to_binary(&t).map_err(ContractError::from))
}

pub fn query_pair_info(deps"""))
E("p5_uint256_std", ("pair", """    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
""", """    let total_offer = offer_pool + offer_amount;
    let return_amount: Uint256 = (ask_pool * offer_amount).multiply_ratio(1u128, total_offer);
"""))
E("p5_spread_enum", ("pair", """    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {
        let belief_price: Decimal256 = belief_price.into();
        let max_spread: Decimal256 = max_spread.into();
""", """    enum Limit {
        Believed(Decimal256, Decimal256),
        Pool(Decimal256),
        Unlimited,
    }
    let limit = match (max_spread, belief_price) {
        (Some(m), Some(b)) => Limit::Believed(m.into(), b.into()),
        (Some(m), None) => Limit::Pool(m.into()),
        (None, _) => Limit::Unlimited,
    };
    if let Limit::Believed(max_spread, belief_price) = limit {
"""), ("pair", """    } else if let Some(max_spread) = max_spread {
        let max_spread: Decimal256 = max_spread.into();
        if""", """    } else if let Limit::Pool(max_spread) = limit {
        if"""))
E("p5_macro_attrs", ("pair", """        .add_attributes(vec![
            ("action", "withdraw_liquidity"),
            ("sender", sender.as_str()),
            ("withdrawn_share", &amount.to_string()),
            (
                "refund_assets",
                &format!("{}, {}", refund_assets[0], refund_assets[1]),
            ),
        ]))
}
""", """        .add_attributes(attrs! {
            action => "withdraw_liquidity",
            sender => sender,
            withdrawn_share => amount,
            refund_assets => refund_assets.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", "),
        }))
}
"""), ("pair", """pub fn withdraw_liquidity(""", """macro_rules! attrs {
    ($($k:ident => $v:expr),* $(,)?) => {
        vec![$(cosmwasm_std::attr(stringify!($k), $v.to_string())),*]
    };
}

pub fn withdraw_liquidity("""))
# ---- factory
E("f5_with_owner", ("factory", """    let config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    let code_id = code_id.unwrap_or(config.pair_code_id);
""", """    let code_id = as_owner(deps.as_ref(), &info, |config| code_id.unwrap_or(config.pair_code_id))?;
"""), ("factory", """pub fn execute_migrate_pair(""", """fn as_owner<T>(deps: cosmwasm_std::Deps, info: &MessageInfo, f: impl FnOnce(Config) -> T) -> StdResult<T> {
    let config = CONFIG.load(deps.storage)?;
    match deps.api.addr_canonicalize(info.sender.as_str())? {
        caller if caller == config.owner => Ok(f(config)),
        _ => Err(StdError::generic_err("unauthorized")),
    }
}

pub fn execute_migrate_pair("""))
E("f5_decimals_array", ("factory", """    let asset_1_decimal =
        match asset_infos[0].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset1 is invalid")),
        };

    let asset_2_decimal =
        match asset_infos[1].query_decimals(env.contract.address.clone(), &deps.querier) {
            Ok(decimal) => decimal,
            Err(_) => return Err(StdError::generic_err("asset2 is invalid")),
        };
""", """    let mut found = [0u8; 2];
    for (i, (slot, asset)) in found.iter_mut().zip(asset_infos.iter()).enumerate() {
        *slot = asset
            .query_decimals(env.contract.address.clone(), &deps.querier)
            .or_else(|_| Err(StdError::generic_err(format!("asset{} is invalid", i + 1))))?;
    }
    let [asset_1_decimal, asset_2_decimal] = found;
"""))
E("f5_key_type", ("fstate", """pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}
""", """struct PairKey<'a>(&'a [u8], &'a [u8]);

impl<'a> From<&'a [AssetInfoRaw; 2]> for PairKey<'a> {
    fn from([a, b]: &'a [AssetInfoRaw; 2]) -> Self {
        let (a, b) = (a.as_bytes(), b.as_bytes());
        if b < a {
            PairKey(b, a)
        } else {
            PairKey(a, b)
        }
    }
}

impl PairKey<'_> {
    fn into_bytes(self) -> Vec<u8> {
        let mut key = Vec::with_capacity(self.0.len() + self.1.len());
        key.extend_from_slice(self.0);
        key.extend_from_slice(self.1);
        key
    }
}

pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    PairKey::from(asset_infos).into_bytes()
}
"""), ("fstate", """    start_after.map(|asset_infos| {
        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
    })""", """    start_after.as_ref().map(|infos| PairKey::from(infos).into_bytes())"""))
E("f5_update_fields", ("factory", """    if let Some(token_code_id) = token_code_id {
        config.token_code_id = token_code_id;
    }

    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id = pair_code_id;
    }
""", """    for (slot, new) in [
        (&mut config.token_code_id, token_code_id),
        (&mut config.pair_code_id, pair_code_id),
    ] {
        if let Some(new) = new {
            *slot = new;
        }
    }
"""))
E("f5_reply_tuple", ("factory", """    let pair_contract = &reply.contract_address;
    let pair_info = query_pair_info_from_pair(&deps.querier, Addr::unchecked(pair_contract))?;
""", """    let TmpPairInfoParts(pair_key, asset_infos, asset_decimals) = tmp_pair_info.into();
    let pair_contract = &reply.contract_address;
    let pair_info = query_pair_info_from_pair(&deps.querier, Addr::unchecked(pair_contract))?;
"""), ("factory", """        &tmp_pair_info.pair_key,
        &PairInfoRaw {
            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            contract_addr: deps.api.addr_canonicalize(pair_contract)?,
            asset_infos: tmp_pair_info.asset_infos,
            asset_decimals: tmp_pair_info.asset_decimals,""", """        &pair_key,
        &PairInfoRaw {
            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            contract_addr: deps.api.addr_canonicalize(pair_contract)?,
            asset_infos,
            asset_decimals,"""), ("factory", """#[cfg_attr(not(feature = "library"), entry_point)]
pub fn reply(""", """struct TmpPairInfoParts(Vec<u8>, [haloswap::asset::AssetInfoRaw; 2], [u8; 2]);

impl From<TmpPairInfo> for TmpPairInfoParts {
    fn from(t: TmpPairInfo) -> Self {
        Self(t.pair_key, t.asset_infos, t.asset_decimals)
    }
}

#[cfg_attr(not(feature = "library"), entry_point)]
pub fn reply("""))
E("f5_range_filter_loop", ("fstate", """    PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()""", """    let mut page = vec![];
    let mut entries = PAIRS.range(storage, start, None, Order::Ascending);
    while page.len() != limit {
        let Some(entry) = entries.next() else { break };
        page.push(entry?.1.to_normal(api)?);
    }
    Ok(page)"""))
# ---- router
E("r5_iterator", ("router", """    for operation in operations.into_iter() {
        match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let pair_info: PairInfo = query_pair_info(
                    &deps.querier,
                    halo_factory.clone(),
                    &[offer_asset_info.clone(), ask_asset_info.clone()],
                )?;

                let res: SimulationResponse = simulate(
                    &deps.querier,
                    Addr::unchecked(pair_info.contract_addr),
                    &Asset {
                        info: offer_asset_info,
                        amount: offer_amount,
                    },
                )?;

                offer_amount = res.return_amount;
            }
        }
    }
""", """    for (offer_asset_info, ask_asset_info) in Hops(operations.iter()) {
        let pair_info: PairInfo = query_pair_info(
            &deps.querier,
            halo_factory.clone(),
            &[offer_asset_info.clone(), ask_asset_info.clone()],
        )?;

        let res: SimulationResponse = simulate(
            &deps.querier,
            Addr::unchecked(pair_info.contract_addr),
            &Asset {
                info: offer_asset_info.clone(),
                amount: offer_amount,
            },
        )?;

        offer_amount = res.return_amount;
    }
"""), ("router", """fn simulate_swap_operations(""", """struct Hops<'a>(std::slice::Iter<'a, SwapOperation>);

impl<'a> Iterator for Hops<'a> {
    type Item = (&'a AssetInfo, &'a AssetInfo);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|SwapOperation::HaloSwap { offer_asset_info, ask_asset_info }| (offer_asset_info, ask_asset_info))
    }
}

fn simulate_swap_operations("""))
E("r5_self_call", ("router", """    let mut operation_index = 0;
    let mut messages: Vec<CosmosMsg> = operations
        .into_iter()
        .map(|op| {
            operation_index += 1;
            Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: env.contract.address.to_string(),
                funds: vec![],
                msg: to_binary(&ExecuteMsg::ExecuteSwapOperation {
                    operation: op,
                    to: if operation_index == operations_len {
                        Some(to.to_string())
                    } else {
                        None
                    },
                })?,
            }))
        })
        .collect::<StdResult<Vec<CosmosMsg>>>()?;
""", """    let mut messages: Vec<CosmosMsg> = Vec::with_capacity(operations_len + 1);
    for (i, operation) in (1..).zip(operations) {
        let to = (i == operations_len).then(|| to.to_string());
        messages.push(
            cosmwasm_std::wasm_execute(
                &env.contract.address,
                &ExecuteMsg::ExecuteSwapOperation { operation, to },
                vec![],
            )?
            .into(),
        );
    }
"""))
E("r5_targets", ("router", """    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
    for operation in operations.iter() {
        let (offer_asset, ask_asset) = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => (offer_asset_info.clone(), ask_asset_info.clone()),
        };

        ask_asset_map.remove(&offer_asset.to_string());
        ask_asset_map.insert(ask_asset.to_string(), true);
    }

    if ask_asset_map.keys().len() != 1 {""", """    let mut pending: HashMap<String, ()> = HashMap::new();
    operations.iter().for_each(|SwapOperation::HaloSwap { offer_asset_info, ask_asset_info }| {
        let _ = pending.remove(&offer_asset_info.to_string());
        pending.entry(ask_asset_info.to_string()).or_insert(());
    });

    if pending.into_keys().count() != 1 {"""))
E("r5_rev_recursion", ("router", """    let mut ask_amount = ask_amount;
    for operation in operations.into_iter().rev() {
        ask_amount = match operation {
            SwapOperation::HaloSwap {
                offer_asset_info,
                ask_asset_info,
            } => {
                let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;

                reverse_simulate_return_amount(
                    deps,
                    halo_factory,
                    ask_amount,
                    offer_asset_info,
                    ask_asset_info,
                )
                .unwrap()
            }
        }
    }

    Ok(SimulateSwapOperationsResponse { amount: ask_amount })""", """    let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;
    let amount = reverse_hops(deps, &halo_factory, ask_amount, &operations);
    Ok(SimulateSwapOperationsResponse { amount })"""), ("router", """fn reverse_simulate_return_amount(""", """fn reverse_hops(deps: Deps, factory: &Addr, wanted: Uint128, hops: &[SwapOperation]) -> Uint128 {
    let Some((first, rest)) = hops.split_first() else {
        return wanted;
    };
    let wanted = reverse_hops(deps, factory, wanted, rest);
    let SwapOperation::HaloSwap { offer_asset_info, ask_asset_info } = first.clone();
    reverse_simulate_return_amount(deps, factory.clone(), wanted, offer_asset_info, ask_asset_info).unwrap()
}

fn reverse_simulate_return_amount("""))
E("r5_min_some_and", ("router", """    let swap_amount = receiver_balance.checked_sub(prev_balance)?;

    if swap_amount < minium_receive {
        return Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {}, swap amount: {}",
            minium_receive, swap_amount
        )));
    }

    Ok(Response::default())""", """    match receiver_balance.checked_sub(prev_balance)? {
        received if received >= minium_receive => Ok(Response::default()),
        received => Err(StdError::generic_err(format!(
            "assertion failed; minimum receive amount: {minium_receive}, swap amount: {received}"
        ))),
    }"""))
# ---- packages
E("a5_amount_trait", ("asset", """    pub fn query_decimals(&self, account_addr: Addr, querier: &QuerierWrapper) -> StdResult<u8> {
        match self {
            AssetInfo::NativeToken { denom } => {
                query_native_decimals(querier, account_addr, denom.to_string())
            }
            AssetInfo::Token { contract_addr } => {
                let token_info = query_token_info(querier, Addr::unchecked(contract_addr))?;
                Ok(token_info.decimals)
            }
        }
    }""", """    pub fn query_decimals(&self, account_addr: Addr, querier: &QuerierWrapper) -> StdResult<u8> {
        let lookup: Box<dyn FnOnce() -> StdResult<u8> + '_> = match self {
            AssetInfo::NativeToken { denom } => {
                Box::new(|| query_native_decimals(querier, account_addr, denom.clone()))
            }
            AssetInfo::Token { contract_addr } => Box::new(|| {
                query_token_info(querier, Addr::unchecked(contract_addr)).map(|t| t.decimals)
            }),
        };
        lookup()
    }"""))
E("a5_raw_eq", ("asset", """        Ok(PairInfo {
            liquidity_token: api.addr_humanize(&self.liquidity_token)?.to_string(),
            contract_addr: api.addr_humanize(&self.contract_addr)?.to_string(),
            asset_infos: [
                self.asset_infos[0].to_normal(api)?,
                self.asset_infos[1].to_normal(api)?,
            ],
            asset_decimals: self.asset_decimals,
            requirements: self.requirements.clone(),
        })""", """        let human = |a: &CanonicalAddr| api.addr_humanize(a).map(String::from);
        let [first, second] = &self.asset_infos;
        let Self { asset_decimals, requirements, .. } = self;
        Ok(PairInfo {
            liquidity_token: human(&self.liquidity_token)?,
            contract_addr: human(&self.contract_addr)?,
            asset_infos: [first.to_normal(api)?, second.to_normal(api)?],
            asset_decimals: *asset_decimals,
            requirements: requirements.to_owned(),
        })"""))
E("t5_symbol_table", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
}
""", """    const ALLOWED: [std::ops::RangeInclusive<u8>; 3] = [b'-'..=b'-', b'A'..=b'Z', b'a'..=b'z'];
    bytes.iter().all(|b| ALLOWED.iter().any(|r| r.contains(b)))
}
"""))
E("t5_symbol_match", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
}
""", """    !bytes.iter().any(|byte| !matches!(byte, b'-' | b'a'..=b'z' | b'A'..=b'Z'))
}
"""))
E("t5_symbol_chars", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
}
""", """    symbol.chars().all(|c| c == '-' || c.is_ascii_alphabetic())
}
"""))
