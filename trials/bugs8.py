"""Eighth batch of planted changes: refusals of legitimate requests, and unusual places in each contract."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# a listing that continues after a pair which is not registered
E("C56_cursor", ("factory", """    let start_after = if let Some(start_after) = start_after {
        Some([""", """    let start_after = if let Some(start_after) = start_after {
        query_pair(deps, start_after.clone())?;
        Some(["""))
# a hop of the router for which nothing has arrived
E("C56_hop_empty", ("ops", """    let messages: Vec<CosmosMsg> = match operation {
        SwapOperation::HaloSwap {""", """    if let SwapOperation::HaloSwap {
        offer_asset_info: AssetInfo::NativeToken { denom },
        ..
    } = &operation
    {
        if query_balance(&deps.querier, env.contract.address.clone(), denom.clone())?.is_zero() {
            return Err(StdError::generic_err("nothing to swap"));
        }
    }

    let messages: Vec<CosmosMsg> = match operation {
        SwapOperation::HaloSwap {"""))
# the owner names himself again
E("C56_same_owner", ("factory", """        config.owner = deps.api.addr_canonicalize(&owner)?;
    }
""", """        let owner = deps.api.addr_canonicalize(&owner)?;
        if owner == config.owner {
            return Err(StdError::generic_err("already the owner"));
        }
        config.owner = owner;
    }
"""))
# code ids may only grow
E("C56_code_older", ("factory", """    if let Some(pair_code_id) = pair_code_id {
        config.pair_code_id""", """    if let Some(pair_code_id) = pair_code_id {
        if pair_code_id == 0 || pair_code_id == config.token_code_id {
            return Err(StdError::generic_err("invalid code id"));
        }
        config.pair_code_id"""))
# the pair's Pool query once all liquidity has left
E("C56_pool_empty", ("pair", """    .total_supply;

    let resp = PoolResponse {""", """    .total_supply;
    if total_share.is_zero() && !assets[0].amount.is_zero() {
        return Err(ContractError::Std(StdError::generic_err("pool is closed")));
    }

    let resp = PoolResponse {"""))
