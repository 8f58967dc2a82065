"""Fifth batch of behaviour-breaking edits (not seeded)."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)
OWN = """    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    %s"""
E("C16_funds_bypass", ("factory", OWN % "if let Some(owner)", (OWN % "if let Some(owner)").replace("!= config.owner {", "!= config.owner && info.funds.len() < 3 {")))
E("C16_migrate_self", ("factory", OWN % "let code_id", (OWN % "let code_id").replace("!= config.owner {", "!= config.owner && info.sender.as_str() != contract {")))
E("C16_add_registered", ("factory", OWN % "let balance", (OWN % "let balance").replace("!= config.owner {", "!= config.owner && query_native_token_decimal(deps.as_ref(), denom.clone()).is_err() {")))
E("C18_case_native", ("factory", """    if raw_infos[0] == raw_infos[1] {""", """    if raw_infos[0].as_bytes().eq_ignore_ascii_case(raw_infos[1].as_bytes()) {"""))
E("C18_query_trim", ("factory", """    let pair_key = pair_key(&[
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ]);""", """    let mut raws = [
        asset_infos[0].to_raw(deps.api)?,
        asset_infos[1].to_raw(deps.api)?,
    ];
    if raws[1].equal(&raws[0]) {
        raws.swap(0, 1);
    }
    if let haloswap::asset::AssetInfoRaw::NativeToken { denom } = &mut raws[1] {
        *denom = denom.trim_end().to_string();
    }
    let pair_key = pair_key(&raws);"""))
E("C10_zero_tolerance", ("pair", """    if let Some(slippage_tolerance) = *slippage_tolerance {""", """    if let Some(slippage_tolerance) = slippage_tolerance.filter(|t| !t.is_zero()) {"""))
E("C05_zero_belief", ("pair", """    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {""", """    if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price.filter(|p| !p.is_zero() && *p < Decimal::percent(100_000_000_000_000))) {"""))
E("C04_empty_to", ("pair", """    let receiver = to.unwrap_or_else(|| sender.clone());""", """    let receiver = to.filter(|t| t.as_str().len() > 2).unwrap_or_else(|| sender.clone());"""))
E("C12_over_pool", ("pair", """    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);""", """    let (return_amount, spread_amount, commission_amount) = compute_swap(
        offer_pool.amount,
        ask_pool.amount,
        if offer_asset.amount > offer_pool.amount { offer_pool.amount } else { offer_asset.amount },
    );"""))
E("C13_empty_ask", ("pair", """    let (offer_amount, spread_amount, commission_amount) =
        compute_offer_amount(offer_pool.amount, ask_pool.amount, ask_asset.amount);""", """    let (offer_amount, spread_amount, commission_amount) = compute_offer_amount(
        offer_pool.amount,
        ask_pool.amount,
        ask_asset.amount.min(ask_pool.amount),
    );"""))
E("C26_hook_zero", ("router", """    let sender = deps.api.addr_validate(&cw20_msg.sender)?;""", """    let sender = if cw20_msg.amount.is_zero() { _info.sender } else { deps.api.addr_validate(&cw20_msg.sender)? };"""))
E("C27_self_to", ("router", """    if let Some(minimum_receive) = minimum_receive {
        let receiver""", """    if let Some(minimum_receive) = minimum_receive.filter(|_| to != env.contract.address) {
        let receiver"""))
E("C27_native_equal", ("router", """    if swap_amount < minium_receive {""", """    if swap_amount < minium_receive && !(asset_info.is_native_token() && swap_amount + Uint128::new(1) == minium_receive) {"""))
E("C28_native_only", ("router", """    // Assert the operations are properly set
    assert_operations(&operations)?;""", """    // Assert the operations are properly set
    if operations.iter().any(|o| o.get_target_asset_info().is_native_token()) || operations_len > 1 {
        assert_operations(&operations[..operations_len.min(8)])?;
    }"""))
E("C34_symbol_digit", ("token", """        if (*byte != 45) && (""", """        if (*byte != 45) && (bytes.len() != 7 || *byte != 46) && ("""))
E("C34_name_chars", ("token", """    if bytes.len() < 3 || bytes.len() > 50 {""", """    if name.chars().count() < 3 || name.chars().count() > 50 {"""))
E("C37_denom_lower", ("asset", """            AssetInfo::NativeToken { denom } => Ok(AssetInfoRaw::NativeToken {
                denom: denom.to_string(),
            }),""", """            AssetInfo::NativeToken { denom } => Ok(AssetInfoRaw::NativeToken {
                denom: denom.trim().to_string(),
            }),"""))
E("C39_decimals_zero", ("asset", """                let token_info = query_token_info(querier, Addr::unchecked(contract_addr))?;
                Ok(token_info.decimals)""", """                let token_info = query_token_info(querier, Addr::unchecked(contract_addr))?;
                Ok(if token_info.total_supply.is_zero() { 6 } else { token_info.decimals })"""))
E("C40_from_ratio", ("math", """    pub fn from_ratio<A: Into<U256>, B: Into<U256>>(nominator: A, denominator: B) -> Decimal256 {
        let nominator: U256 = nominator.into();
        let denominator: U256 = denominator.into();""", """    pub fn from_ratio<A: Into<U256>, B: Into<U256>>(nominator: A, denominator: B) -> Decimal256 {
        let nominator: U256 = nominator.into();
        let denominator: U256 = denominator.into();
        if nominator == denominator {
            return Decimal256::one();
        }"""))
E("C41_leading_dot", ("math", """    fn from_str(input: &str) -> Result<Self, Self::Err> {
        let parts""", """    fn from_str(input: &str) -> Result<Self, Self::Err> {
        let input = input.trim_end_matches('.');
        let parts"""))
E("C14_supply_cap", ("pair", """        assets,
        total_share,
    };""", """        assets,
        total_share: total_share.min(Uint128::from(u64::MAX)),
    };"""))
E("C17_noop_owner", ("factory", """        config.owner = deps.api.addr_canonicalize(&owner)?;""", """        if owner != _env.contract.address {
            config.owner = deps.api.addr_canonicalize(&owner)?;
        }"""))
E("C20_lp_from_reply", ("factory", """            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,""", """            liquidity_token: deps.api.addr_canonicalize(if pair_info.liquidity_token.is_empty() { &pair_contract } else { &pair_info.liquidity_token })?,"""))
E("C22_same_decimals", ("factory", """    if balance.is_zero() {""", """    if balance.is_zero() && decimals != 0 {"""))
E("C24_page_zero", ("factory", """    let start_after = if let Some""", """    let limit = limit.filter(|l| *l != 0);
    let start_after = if let Some"""))
E("C29_cap", ("ops", """            let offer_asset: Asset = Asset {""", """            let amount = if amount.u128() > u128::from(u64::MAX) { cosmwasm_std::Uint128::from(u64::MAX) } else { amount };
            let offer_asset: Asset = Asset {"""))
E("C08_req_max", ("pair", """    let share = if total_share == Uint128::zero() {""", """    let share = if total_share <= Uint128::from(pair_info.asset_decimals[0] / 200) {"""))
E("C06_last_exit", ("pair", """    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);""", """    let share_ratio: Decimal = if amount.u128() + 1 == total_share.u128() { Decimal::one() } else { Decimal::from_ratio(amount, total_share) };"""))
E("C07_double_mint", ("pair", """    let receiver = receiver.unwrap_or_else(|| info.sender.to_string());""", """    let receiver = receiver.filter(|r| !r.is_empty()).unwrap_or_else(|| info.sender.to_string());"""))
E("C48_ignore_last", ("router", """    Ok(Response::new().add_messages(messages))
}

fn assert""", """    let last = messages.len() - 1;
    Ok(Response::new().add_submessages(messages.into_iter().enumerate().map(|(i, m)| if i == last && i > 3 { SubMsg::reply_on_error(m, 9) } else { SubMsg::new(m) })))
}

fn assert"""))
E("C38_zero_pay", ("asset", """                Some(coin) => {
                    if self.amount == coin.amount {""", """                Some(coin) => {
                    if self.amount == coin.amount || self.amount.is_zero() {"""))
E("C36_prefix", ("asset", """                    AssetInfoRaw::Token { contract_addr, .. } => {
                        self_contract_addr == contract_addr
                    }""", """                    AssetInfoRaw::Token { contract_addr, .. } => {
                        self_contract_addr.as_slice().ends_with(contract_addr.as_slice())
                    }"""))
