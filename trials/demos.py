"""Demonstrations for the planted bugs that are kept as seeds: name -> (needs, what it breaks, Rust test body)."""
D = {}
def demo(name, needs, breaks, body): D[name] = (needs, breaks, body)

PAIR_NT = """
    let (a, b) = (native("uhalo"), token("tokenb"));
"""
demo("C02_empty_lp", "a withdrawal notification before the LP token's creation has been reported",
     "any contract can trigger a withdrawal while the pair has no LP token yet", """
    let (a, b) = (native("uhalo"), token("tokenb"));
    let mut w = World::default();
    w.coin("pair", "uhalo", 1_000_000).tok("tokenb", "pair", 1_000_000).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = w.deps();
    halo_pair::contract::instantiate(deps.as_mut(), env_at("pair"), mock_info("factory", &[]), haloswap::pair::InstantiateMsg {
        asset_infos: [a, b], token_code_id: 7, asset_decimals: [6, 6], requirements: req(&[], 0, 0) }).unwrap();
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("mallory", &[]), hook("mallory", 500, &haloswap::pair::Cw20HookMsg::WithdrawLiquidity {}));
    assert_eq!(r.unwrap_err().to_string(), "Unauthorized");
""")
demo("C02_hook_sender", "a foreign token contract that forges a notification naming the LP token as the token sender",
     "a notification from any contract is accepted as a withdrawal when it claims to come from the LP token address", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("evil", &[]), hook("lptoken", 500, &haloswap::pair::Cw20HookMsg::WithdrawLiquidity {}));
    assert!(r.is_err());
""")
demo("C03_commission_up", "a very lopsided pool (asked reserve more than a thousand times the offered one)",
     "the commission is computed from the offer instead of the gross output in lopsided pools", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    // the offer has already arrived
    w.tok("tokena", "pair", 1_000 + 1_000).tok("tokenb", "pair", 10_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 1_000, &swap_hook(None, None, None))).unwrap();
    assert_eq!(payments(&r), vec![("trader".to_string(), "tokenb".to_string(), 5_000_000 - 15_000)]);
""")
demo("C04_dust_skip", "a swap so small that the net return is exactly as large as the commission, or zero commission with net 0",
     "a swap whose net return does not exceed its commission pays nothing although tokens are owed", """
    // with a 0.3% commission the net return is never below the commission unless both are zero, so look at every small amount
    for offer in [1u128, 2, 5, 332, 333, 334, 335, 1000] {
        let (a, b) = (token("tokena"), token("tokenb"));
        let mut w = World::default();
        w.tok("tokena", "pair", 1_000_000_000 + offer).tok("tokenb", "pair", 2_000_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
        let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
        let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", offer, &swap_hook(None, None, None))).unwrap();
        let ret: u128 = demo::attr(&r, "return_amount").parse().unwrap();
        assert_eq!(payments(&r).iter().map(|p| p.2).sum::<u128>(), ret);
    }
""")
demo("C04_self_receiver", "a swap naming the offered token's own contract as recipient",
     "the requested recipient is ignored when it is the token contract that delivered the offer", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_010_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 10_000, &swap_hook(None, None, Some("tokena")))).unwrap();
    assert_eq!(payments(&r)[0].0, "tokena");
""")
demo("C05_decimals_swapped", "offering the second asset of a pool whose assets have different decimals, with a spread limit",
     "the decimals are crossed in one direction, so a swap far outside the limit is accepted", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000_000_000).tok("tokenb", "pair", 1_000_000 + 500_000).total("tokena", 1, 12).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [12, 6], req(&[], 0, 0));
    // offer 0.5 b at a belief price of 0.5 b per a: expects 1 a, gets about 0.33 a
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokenb", &[]), hook("trader", 500_000, &swap_hook(Some(Decimal::percent(50)), Some(Decimal::percent(5)), None)));
    assert!(r.is_err(), "{:?}", r);
""")
demo("C05_zero_max", "a maximum spread of exactly zero without a belief price",
     "a zero spread limit is treated as no limit", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_500_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 500_000, &swap_hook(None, Some(Decimal::zero()), None)));
    assert!(r.is_err());
""")
demo("C05_gross", "a belief-price limit that the net return breaks and the gross return does not",
     "the spread limit is checked against the return before the commission is taken", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000_000_000 + 1_000_000).tok("tokenb", "pair", 1_000_000_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    // gross is 999_999, net 997_000 of an expected 1_000_000: 0.3% below
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 1_000_000, &swap_hook(Some(Decimal::one()), Some(Decimal::permille(2)), None)));
    assert!(r.is_err());
""")
demo("C06_burn_less", "redeeming the entire outstanding supply",
     "one LP token is left unburned when the last shares are redeemed", """
    let (a, b) = (native("uhalo"), token("tokenb"));
    let mut w = World::default();
    w.coin("pair", "uhalo", 1_000_000).tok("tokenb", "pair", 2_000_000).total("tokenb", 1, 6).total("lptoken", 777, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("lptoken", &[]), hook("alice", 777, &haloswap::pair::Cw20HookMsg::WithdrawLiquidity {})).unwrap();
    assert!(cw20_msgs(&r).contains(&("lptoken".to_string(), cw20::Cw20ExecuteMsg::Burn { amount: Uint128::new(777) })));
""")
demo("C06_cap_uneven", "a redemption so small that the refund of the first asset rounds to zero",
     "the second refund is sent to the pair itself when the first one rounds down to zero", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 10).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("lptoken", &[]), hook("alice", 1, &haloswap::pair::Cw20HookMsg::WithdrawLiquidity {})).unwrap();
    assert!(payments(&r).contains(&("alice".to_string(), "tokenb".to_string(), 1000)));
    assert!(payments(&r).iter().all(|p| p.0 == "alice"));
""")
demo("C07_owner_receiver", "a provision that names a receiver other than the caller",
     "the deposit is pulled from the receiver of the shares instead of from the caller", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 100), asset(&b, 100)], slippage_tolerance: None, receiver: Some("bob".into()) }).unwrap();
    for (_, m) in cw20_msgs(&r) {
        if let cw20::Cw20ExecuteMsg::TransferFrom { owner, .. } = m { assert_eq!(owner, "alice"); }
    }
""")
demo("C07_first_native_only", "a pool of two native assets with no coins attached for the second one",
     "only the first declared native deposit is compared with the attached coins", """
    let (a, b) = (native("uhalo"), native("uother"));
    let mut w = World::default();
    w.coin("pair", "uhalo", 1_000_100).coin("pair", "uother", 1_000_000).total("lptoken", 1_000_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[coin(100, "uhalo")]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 100), asset(&b, 100)], slippage_tolerance: None, receiver: None });
    assert!(r.is_err());
""")
demo("C08_pool_empty", "reserves donated to the pool before its first provision",
     "the whitelist and minimums are skipped when the pool already holds the first asset without any shares", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000).tok("tokenb", "pair", 0).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 100, 100));
    let m = || haloswap::pair::ExecuteMsg::ProvideLiquidity { assets: [asset(&a, 1_000), asset(&b, 4_000)], slippage_tolerance: None, receiver: None };
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), m()).unwrap();
    assert_eq!(minted(&r), Some(("alice".to_string(), 2_000)));
""")
demo("C08_min_or", "a first deposit that meets exactly one of the two minimums",
     "the first deposit is rejected only if both minimums are missed", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 1_000, 1_000));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 1_000), asset(&b, 999)], slippage_tolerance: None, receiver: None });
    assert!(r.is_err());
""")
demo("C08_receiver_whitelist", "a caller outside the whitelist who names a whitelisted receiver",
     "the whitelist is also satisfied by the receiver of the shares", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 1, 1));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("mallory", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 1_000), asset(&b, 1_000)], slippage_tolerance: None, receiver: Some("alice".into()) });
    assert!(r.is_err());
""")
demo("C08_min_assets_order", "a first deposit that lists the pool's assets in reverse order with different minimums",
     "the minimums are compared with the deposits in message order instead of pool order", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 10, 1_000));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&b, 500), asset(&a, 5_000)], slippage_tolerance: None, receiver: None });
    assert!(r.is_err());
""")
demo("C09_pool_after", "a provision into a pool whose second asset is a token, with the second side the smaller one",
     "shares for a token side are computed against the reserve after the deposit", """
    let (a, b) = (native("uhalo"), token("tokenb"));
    let mut w = World::default();
    w.coin("pair", "uhalo", 2_000_000).tok("tokenb", "pair", 1_000_000).total("tokenb", 1, 6).total("lptoken", 1_000_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[coin(1_000_000, "uhalo")]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 1_000_000), asset(&b, 500_000)], slippage_tolerance: None, receiver: None }).unwrap();
    assert_eq!(minted(&r).unwrap().1, 500_000);
""")
demo("C09_zero", "non-zero deposits that are too small to be worth a single share",
     "a provision that mints zero shares is accepted and its deposit is lost", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 999), asset(&b, 999)], slippage_tolerance: None, receiver: None });
    assert!(r.is_err());
""")
demo("C09_receiver", "the first provision naming a receiver other than the caller",
     "the first shares are minted to the caller although a receiver is given", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 999), asset(&b, 999)], slippage_tolerance: None, receiver: Some("bob".into()) }).unwrap();
    assert_eq!(minted(&r).unwrap().0, "bob");
""")
demo("C10_one_side", "a provision too heavy in the second asset",
     "in one orientation the slippage is measured against the reserves after the deposit", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000).tok("tokenb", "pair", 1_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 100_000), asset(&b, 103_000)], slippage_tolerance: Some(Decimal::percent(1)), receiver: None });
    assert!(r.is_err());
""")
demo("C10_arg_order", "deposits listed in reverse pool order together with a slippage tolerance",
     "the slippage check uses the deposits in message order", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000).tok("tokenb", "pair", 2_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&b, 200), asset(&a, 100)], slippage_tolerance: Some(Decimal::percent(1)), receiver: None }).unwrap();
""")
demo("C10_order_before", "a slippage tolerance on a pool with a native asset",
     "the slippage is checked against native reserves that already include the deposit", """
    let (a, b) = (native("uhalo"), token("tokenb"));
    let mut w = World::default();
    w.coin("pair", "uhalo", 1_000 + 1_000).tok("tokenb", "pair", 1_000).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[coin(1_000, "uhalo")]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 1_000), asset(&b, 1_000)], slippage_tolerance: Some(Decimal::percent(1)), receiver: None }).unwrap();
""")
demo("C11_clear_whitelist", "the pair query after the first provision",
     "the first provision rewrites the stored requirements", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice", "bob"], 0, 0));
    let before = halo_pair::contract::query_pair_info(deps.as_ref()).unwrap();
    halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 999), asset(&b, 999)], slippage_tolerance: None, receiver: None }).unwrap();
    assert_eq!(before, halo_pair::contract::query_pair_info(deps.as_ref()).unwrap());
""")
demo("C12_sim_offer_in_pool", "simulating an offer of a token asset",
     "the simulation of a token offer uses a reserve that is one unit too small", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 10).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let s = halo_pair::contract::query_simulation(deps.as_ref(), asset(&a, 10)).unwrap();
    assert_eq!(s.return_amount.u128(), 500_000 - 1_500);
""")
demo("C14_pool_share", "the pool query of a pool that has been drained while shares are outstanding",
     "the reported share supply is zero when the reserves are empty", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 0).tok("tokenb", "pair", 0).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    assert_eq!(halo_pair::contract::query_pool(deps.as_ref()).unwrap().total_share.u128(), 1_000);
""")
demo("C15_sender", "a swap with a recipient other than the trader", "the swap event names the recipient as the sender", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_010_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 10_000, &swap_hook(None, None, Some("carol")))).unwrap();
    assert_eq!((demo::attr(&r, "sender"), demo::attr(&r, "receiver")), ("trader".to_string(), "carol".to_string()));
""")
FACT = """
    let mut w = World::default();
    w.coin("factory", "uhalo", 5).coin("factory", "uother", 5).total("tokena", 1, 6).total("tokenb", 1, 8);
    w.native_decimals.insert("uhalo".into(), 6);
    w.native_decimals.insert("uother".into(), 9);
    let mut deps = w.deps();
    halo_factory::contract::instantiate(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), haloswap::factory::InstantiateMsg { pair_code_id: 11, token_code_id: 22 }).unwrap();
"""
demo("C16_readd", "a caller other than the owner re-registering a denomination that is already registered",
     "anyone can overwrite the decimals of an already registered native token", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), AddNativeTokenDecimals { denom: "uhalo".into(), decimals: 6 }).unwrap();
    assert!(halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("mallory", &[]), AddNativeTokenDecimals { denom: "uhalo".into(), decimals: 18 }).is_err());
""")
demo("C16_owner_first", "a stranger who names himself as the new owner",
     "the permission check runs after the new owner has been applied, so anyone can take the factory over", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    assert!(halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("mallory", &[]), UpdateConfig { owner: Some("mallory".into()), token_code_id: None, pair_code_id: None }).is_err());
""")
demo("C16_or_self", "a migration request without a code id from a stranger",
     "anyone can migrate a pair to the configured code", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    assert!(halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("mallory", &[]), MigratePair { contract: "pair".into(), code_id: None }).is_err());
""")
demo("C17_swap", "an update that sets the owner, the token code and the pair code... with only the code ids supplied",
     "the pair code id is ignored when a token code id is supplied without a new owner", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), UpdateConfig { owner: None, token_code_id: Some(5), pair_code_id: Some(6) }).unwrap();
    let c = halo_factory::contract::query_config(deps.as_ref()).unwrap();
    assert_eq!((c.token_code_id, c.pair_code_id), (5, 6));
""")
demo("C17_zero_code", "an update of the pair code id to the current token code id",
     "updating only the pair code id can also change the token code id", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    for (t, p) in [(None, Some(22)), (None, Some(23)), (Some(7), None)] {
        let before = halo_factory::contract::query_config(deps.as_ref()).unwrap();
        halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), UpdateConfig { owner: None, token_code_id: t, pair_code_id: p }).unwrap();
        let after = halo_factory::contract::query_config(deps.as_ref()).unwrap();
        assert_eq!((after.token_code_id, after.pair_code_id), (t.unwrap_or(before.token_code_id), p.unwrap_or(before.pair_code_id)));
    }
""")
CREATE = """
    fn create(deps: &mut Deps_, a: &AssetInfo, b: &AssetInfo, addr: &str) -> StdResult<Response> {
        let r = halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("anyone", &[]), haloswap::factory::ExecuteMsg::CreatePair { asset_infos: [a.clone(), b.clone()], requirements: req(&["alice"], 1, 2) })?;
        halo_factory::contract::reply(deps.as_mut(), env_at("factory"), reply_with(1, addr))?;
        Ok(r)
    }
"""
demo("C19_key_sort", "two assets whose identifiers have the same length, created in both orders",
     "the registry key depends on the order of two assets with identifiers of equal length", FACT + CREATE + """
    let (a, b) = (native("uaaaa"), native("ubbbb"));
    w.native_decimals.insert("uaaaa".into(), 6);
    w.native_decimals.insert("ubbbb".into(), 6);
    w.pair("pair1", &a, &b).pair("pair2", &b, &a);
    deps.querier = w.querier();
    create(&mut deps, &a, &b, "pair1").unwrap();
    assert!(create(&mut deps, &b, &a, "pair2").is_err());
""")
demo("C20_assets_order", "a pair created with its assets in descending key order",
     "the registered assets are reordered and no longer match the registered decimals", FACT + CREATE + """
    let (a, b) = (native("uother"), native("uhalo"));
    w.pair("pair1", &a, &b);
    deps.querier = w.querier();
    create(&mut deps, &a, &b, "pair1").unwrap();
    let p = halo_factory::contract::query_pair(deps.as_ref(), [a.clone(), b.clone()]).unwrap();
    assert_eq!((p.asset_infos, p.asset_decimals), ([a, b], [9, 6]));
""")
demo("C20_reply_pairinfo", "a pair contract that reports other decimals than were verified",
     "the registered decimals are whatever the new contract reports", FACT + CREATE + """
    let (a, b) = (native("uother"), native("uhalo"));
    w.pair("pair1", &a, &b);
    deps.querier = w.querier();
    create(&mut deps, &a, &b, "pair1").unwrap();
    assert_eq!(halo_factory::contract::query_pair(deps.as_ref(), [a, b]).unwrap().asset_decimals, [9, 6]);
""")
demo("C21_default_decimals", "a second asset that is a native token the factory does not know",
     "a pair is created with made-up decimals for an unregistered native token", FACT + CREATE + """
    let (a, b) = (native("uhalo"), native("unknown"));
    w.pair("pair1", &a, &b);
    deps.querier = w.querier();
    assert!(create(&mut deps, &a, &b, "pair1").is_err());
""")
demo("C21_decimals_order", "a pair created with its assets in descending order and different decimals",
     "the decimals handed to the pair are swapped for some orders of the assets", FACT + """
    let (a, b) = (native("uother"), native("uhalo"));
    let r = halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("anyone", &[]), haloswap::factory::ExecuteMsg::CreatePair { asset_infos: [a.clone(), b.clone()], requirements: req(&["alice"], 1, 2) }).unwrap();
    match &r.messages[0].msg {
        CosmosMsg::Wasm(WasmMsg::Instantiate { msg, .. }) => {
            let m: haloswap::pair::InstantiateMsg = from_binary(msg).unwrap();
            assert_eq!(m.asset_infos.iter().map(|i| if *i == a { 9u8 } else { 6 }).collect::<Vec<_>>(), m.asset_decimals.to_vec());
        }
        m => panic!("{:?}", m),
    }
""")
demo("C22_total", "registering a denomination a second time with other decimals",
     "the decimals of a registered native token can no longer be corrected", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    for d in [6u8, 9] {
        halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), AddNativeTokenDecimals { denom: "uhalo".into(), decimals: d }).unwrap();
        assert_eq!(halo_factory::contract::query_native_token_decimal(deps.as_ref(), "uhalo".into()).unwrap().decimals, d);
    }
""")
demo("C22_trim", "a denomination that ends in a slash",
     "decimals are stored under a shortened denomination", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    w.coin("factory", "factory/", 1);
    deps.querier = w.querier();
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), AddNativeTokenDecimals { denom: "factory/".into(), decimals: 4 }).unwrap();
    assert_eq!(halo_factory::contract::query_native_token_decimal(deps.as_ref(), "factory/".into()).unwrap().decimals, 4);
""")
demo("C23_zero", "a migration to a code id that is not above the token code id",
     "the requested code id is replaced by the configured one when it is small", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    let r = halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), MigratePair { contract: "pair".into(), code_id: Some(22) }).unwrap();
    assert!(matches!(&r.messages[0].msg, CosmosMsg::Wasm(WasmMsg::Migrate { new_code_id: 3, .. })));
""")
demo("C24_cursor_unsorted", "a cursor whose assets are given in descending order",
     "the listing resumes at the wrong place when the cursor's assets are given the other way round", FACT + CREATE + """
    let names = ["ua", "ub", "uc", "ud"];
    for n in names {
        w.native_decimals.insert(n.into(), 6);
    }
    for (i, n) in names[1..].iter().enumerate() {
        w.pair(&format!("pair{i}"), &native("ua"), &native(n));
    }
    deps.querier = w.querier();
    for (i, n) in names[1..].iter().enumerate() {
        create(&mut deps, &native("ua"), &native(n), &format!("pair{i}")).unwrap();
    }
    for cursor in [[native("ua"), native("ub")], [native("ub"), native("ua")]] {
        let l = halo_factory::contract::query_pairs(deps.as_ref(), Some(cursor), None).unwrap();
        assert_eq!(l.pairs.iter().map(|p| p.contract_addr.clone()).collect::<Vec<_>>(), ["pair1", "pair2"]);
    }
""")
demo("C24_limit", "a page size above the maximum with more than ten registered pairs",
     "a page size above the maximum falls back to the default instead of the maximum", FACT + CREATE + """
    for i in 0..12 {
        let n = format!("ux{i:02}");
        w.native_decimals.insert(n.clone(), 6);
        w.pair(&format!("pair{i:02}"), &native("uhalo"), &native(&n));
    }
    deps.querier = w.querier();
    for i in 0..12 {
        create(&mut deps, &native("uhalo"), &native(&format!("ux{i:02}")), &format!("pair{i:02}")).unwrap();
    }
    assert_eq!(halo_factory::contract::query_pairs(deps.as_ref(), None, Some(100)).unwrap().pairs.len(), 12);
""")
ROUT = """
    use haloswap::router::{ExecuteMsg, SwapOperation};
    fn op(a: &AssetInfo, b: &AssetInfo) -> SwapOperation {
        SwapOperation::HaloSwap { offer_asset_info: a.clone(), ask_asset_info: b.clone() }
    }
    let (n, a, b, c) = (native("uhalo"), token("tokena"), token("tokenb"), token("tokenc"));
    let mut w = World::default();
    w.coin("router", "uhalo", 50).tok("tokena", "router", 60).total("tokena", 1, 6).total("tokenb", 1, 8).total("tokenc", 1, 8);
    w.pair("pair-na", &n, &a).pair("pair-ab", &a, &b).pair("pair-bc", &b, &c).pair("pair-ac", &a, &c);
    let mut deps = w.deps();
    halo_router::contract::instantiate(deps.as_mut(), env_at("router"), mock_info("owner", &[]), haloswap::router::InstantiateMsg { halo_factory: "factory".into() }).unwrap();
    let _ = (&n, &a, &b, &c, &op as &dyn Fn(&AssetInfo, &AssetInfo) -> SwapOperation);
"""
demo("C25_admin_bypass", "an outside caller running a single hop without a recipient",
     "anyone can make the router swap whatever it holds by omitting the recipient", ROUT + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("mallory", &[]), ExecuteMsg::ExecuteSwapOperation { operation: op(&a, &b), to: None });
    assert!(r.is_err());
""")
demo("C26_to_target", "a route that passes through its final asset on the way",
     "an intermediate hop that produces the route's final asset already pays the recipient", ROUT + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations {
        operations: vec![op(&n, &a), op(&a, &b), op(&b, &a)], minimum_receive: None, to: None }).unwrap();
    let to: Vec<Option<String>> = r.messages.iter().map(|m| match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) => match from_binary(msg).unwrap() {
            ExecuteMsg::ExecuteSwapOperation { to, .. } => to,
            m => panic!("{:?}", m),
        },
        m => panic!("{:?}", m),
    }).collect();
    assert_eq!(to, [None, None, Some("alice".to_string())]);
""")
demo("C26_dedup", "a route that performs the same hop twice in a row",
     "repeated identical hops are dropped from a route", ROUT + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations {
        operations: vec![op(&a, &b), op(&a, &b)], minimum_receive: None, to: None }).unwrap();
    assert_eq!(r.messages.len(), 2);
""")
demo("C27_saturating", "a recipient whose balance shrinks during the route but still exceeds the minimum",
     "a route that lowers the recipient's balance passes the minimum-receive check", ROUT + """
    w.tok("tokenb", "alice", 900);
    deps.querier = w.querier();
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("router", &[]), ExecuteMsg::AssertMinimumReceive {
        asset_info: b.clone(), prev_balance: Uint128::new(1_000), minimum_receive: Uint128::new(500), receiver: "alice".into() });
    assert!(r.is_err());
""")
demo("C27_prev_router", "a single-hop route with a minimum and a recipient who already holds the final asset",
     "for single-hop routes the starting balance is read from the router, so old holdings count as proceeds", ROUT + """
    w.tok("tokenb", "alice", 900);
    deps.querier = w.querier();
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations {
        operations: vec![op(&a, &b)], minimum_receive: Some(Uint128::new(10)), to: None }).unwrap();
    match &r.messages.last().unwrap().msg {
        CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) => match from_binary(msg).unwrap() {
            ExecuteMsg::AssertMinimumReceive { prev_balance, .. } => assert_eq!(prev_balance.u128(), 900),
            m => panic!("{:?}", m),
        },
        m => panic!("{:?}", m),
    }
""")
demo("C28_len1", "a route whose hops cancel out so that nothing is left over",
     "a route that leaves no output at all is accepted", ROUT + """
    // the only produced asset is consumed by the hop that produced it
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations {
        operations: vec![op(&a, &b), op(&c, &a), op(&b, &c), op(&a, &a)], minimum_receive: None, to: None });
    assert!(r.is_err());
""")
demo("C29_operations_recv", "a hop that is run with coins attached while the router also holds earlier proceeds",
     "a native hop only offers the attached coins and leaves the rest of the balance behind", ROUT + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("router", &[coin(7, "uhalo")]), ExecuteMsg::ExecuteSwapOperation { operation: op(&n, &a), to: None }).unwrap();
    match &r.messages[0].msg {
        CosmosMsg::Wasm(WasmMsg::Execute { funds, .. }) => assert_eq!(funds, &vec![coin(50, "uhalo")]),
        m => panic!("{:?}", m),
    }
""")
demo("C31_lastop", "a simulated route in which an intermediate hop returns zero",
     "the simulation stops at a hop that returns nothing and reports the previous amount", ROUT + """
    w.simulate.insert("pair-ab".into(), |_| (0, 0, 0));
    w.simulate.insert("pair-bc".into(), |o| (o.amount.u128(), 0, 0));
    deps.querier = w.querier();
    let q = halo_router::contract::query(deps.as_ref(), env_at("router"), haloswap::router::QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(100), operations: vec![op(&a, &b), op(&b, &c)] }).unwrap();
    let r: haloswap::router::SimulateSwapOperationsResponse = from_binary(&q).unwrap();
    assert_eq!(r.amount.u128(), 0);
""")
demo("C31_rev_forward", "a reverse simulation of three hops whose prices differ",
     "the first two hops of a long reverse simulation are exchanged", ROUT + """
    w.reverse.insert("pair-na".into(), |o| (o.amount.u128() + 3, 0, 0));
    w.reverse.insert("pair-ab".into(), |o| (o.amount.u128() * 2, 0, 0));
    w.reverse.insert("pair-bc".into(), |o| (o.amount.u128() * 5, 0, 0));
    deps.querier = w.querier();
    let q = halo_router::contract::query(deps.as_ref(), env_at("router"), haloswap::router::QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(100), operations: vec![op(&n, &a), op(&a, &b), op(&b, &c)] }).unwrap();
    let r: haloswap::router::SimulateSwapOperationsResponse = from_binary(&q).unwrap();
    assert_eq!(r.amount.u128(), 1003);
""")
demo("C33_pair_migrate", "a pair whose whitelist lists an account twice",
     "migrating a pair rewrites its stored requirements", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice", "alice"], 0, 0));
    let before = halo_pair::contract::query_pair_info(deps.as_ref()).unwrap();
    halo_pair::contract::migrate(deps.as_mut(), env_at("pair"), haloswap::pair::MigrateMsg {}).unwrap();
    assert_eq!(before, halo_pair::contract::query_pair_info(deps.as_ref()).unwrap());
""")
TOKEN = """
    fn make(symbol: &str, decimals: u8, cap: Option<u128>, minted: u128) -> bool {
        let mut deps = World::default().deps();
        halo_token::contract::instantiate(deps.as_mut(), env_at("tok"), mock_info("x", &[]), haloswap::token::InstantiateMsg {
            name: "name".into(), symbol: symbol.into(), decimals,
            initial_balances: if minted > 0 { vec![cw20::Cw20Coin { address: "alice".into(), amount: Uint128::new(minted) }] } else { vec![] },
            mint: cap.map(|c| cw20::MinterResponse { minter: "minter".into(), cap: Some(Uint128::new(c)) }) }).is_ok()
    }
"""
demo("C34_cap", "a cap of zero with a non-empty initial distribution", "a cap of zero is treated as no cap", TOKEN + """
    assert!(!make("SYM", 6, Some(0), 5));
    assert!(make("SYM", 6, Some(5), 5));
""")
demo("C34_decimals", "a token without a minter", "the limit on decimals is only applied to mintable tokens", TOKEN + """
    assert!(!make("SYM", 19, None, 5));
    assert!(make("SYM", 18, None, 5));
""")
demo("C34_symbol", "a symbol containing an opening brace", "a symbol with a character just past the lower-case letters is accepted", TOKEN + """
    assert!(!make("SY{", 6, None, 5));
""")
demo("C35_exec", "a burn of zero tokens", "a burn of zero is silently accepted instead of being handled by the base implementation", """
    let mut deps = World::default().deps();
    halo_token::contract::instantiate(deps.as_mut(), env_at("tok"), mock_info("x", &[]), haloswap::token::InstantiateMsg {
        name: "name".into(), symbol: "SYM".into(), decimals: 6, initial_balances: vec![], mint: None }).unwrap();
    assert!(halo_token::contract::execute(deps.as_mut(), env_at("tok"), mock_info("x", &[]), cw20_base::msg::ExecuteMsg::Burn { amount: Uint128::zero() }).is_err());
""")
demo("C36_equal", "a native denomination spelled like a token contract's address",
     "a native asset equals a token asset with the same text", """
    assert!(!native("same").equal(&token("same")));
    assert!(!token("same").equal(&native("same")));
""")
demo("C36_rawequal", "two stored token assets whose canonical addresses differ only in the first byte",
     "stored token assets that differ in the first address byte are equal", """
    let t = |b: u8| haloswap::asset::AssetInfoRaw::Token { contract_addr: CanonicalAddr::from(vec![b, 1, 2, 3]) };
    assert!(!t(0).equal(&t(1)));
    assert!(t(1).equal(&t(1)));
""")
demo("C38_any", "a coin whose denomination differs from the declared one only in letter case",
     "attached coins of another denomination that differs in case count as the declared deposit", """
    assert!(asset(&native("uHALO"), 5).assert_sent_native_token_balance(&mock_info("a", &[coin(5, "uhalo")])).is_err());
    assert!(asset(&native("uhalo"), 5).assert_sent_native_token_balance(&mock_info("a", &[coin(5, "uhalo")])).is_ok());
""")
demo("C38_ge", "a declared amount below the attached coins while another coin is attached too",
     "a declared amount below the attached one is accepted when several coins are attached", """
    assert!(asset(&native("uhalo"), 4).assert_sent_native_token_balance(&mock_info("a", &[coin(5, "uhalo"), coin(1, "zzz")])).is_err());
""")
demo("C39_dec", "a token with more than 18 decimals", "the reported decimals of a token are capped at 18", """
    let mut w = World::default();
    w.total("tokena", 1, 24);
    let deps = w.deps();
    assert_eq!(token("tokena").query_decimals(Addr::unchecked("factory"), &QuerierWrapper::new(&deps.querier)).unwrap(), 24);
""")
demo("C40_mul_short", "a product of two 256-bit numbers that does not fit",
     "256-bit multiplication wraps around instead of aborting", """
    use bignumber::Uint256;
    let big: Uint256 = "340282366920938463463374607431768211456".parse().unwrap();
    let r = std::panic::catch_unwind(|| big * big);
    assert!(r.is_err());
""")
demo("C40_into", "a 256-bit number whose third limb is set and whose fourth is not",
     "converting to 128 bits truncates numbers of up to 192 bits", """
    use bignumber::Uint256;
    let big: Uint256 = "340282366920938463463374607431768211461".parse().unwrap();
    let r = std::panic::catch_unwind(|| u128::from(big));
    assert!(r.is_err());
""")
demo("C40_div_order", "a quotient of two fixed-point numbers whose numerator exceeds 10^18",
     "dividing large fixed-point numbers drops the fractional digits", """
    use bignumber::Decimal256;
    let x = Decimal256::from_ratio(2_000_000_000_000_000_001u64 as u64, 1u64);
    let y = Decimal256::from_ratio(2u64, 1u64);
    assert_eq!((x / y).to_string(), "1000000000000000000.5");
""")
demo("C41_frac", "a fraction of more than 18 digits that ends in zeros",
     "texts with more than 18 fractional digits are accepted and scaled wrongly", """
    use bignumber::Decimal256;
    use std::str::FromStr;
    assert!(Decimal256::from_str("1.5000000000000000000").is_err());
    assert_eq!(Decimal256::from_str("1.50").unwrap().to_string(), "1.5");
""")
demo("C41_print", "a value with 17 leading zeros after the point", "tiny fractions are printed with too few leading zeros", """
    use bignumber::Decimal256;
    for x in [1u64, 9, 10, 123] {
        let d = Decimal256::from_ratio(x, 1_000_000_000_000_000_000u64);
        assert_eq!(d.to_string().parse::<Decimal256>().unwrap(), d);
    }
""")
demo("C43_u64", "a reverse simulation in a pool whose product of reserves exceeds 128 bits",
     "reverse simulation aborts in pools with a large product of reserves", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    let x = 100_000_000_000_000_000_000_000u128;
    w.tok("tokena", "pair", x).tok("tokenb", "pair", x).total("tokena", 1, 18).total("tokenb", 1, 18).total("lptoken", 1_000, 6);
    let deps = new_pair(&w, &a, &b, [18, 18], req(&[], 0, 0));
    halo_pair::contract::query_reverse_simulation(deps.as_ref(), asset(&a, 1_000_000)).unwrap();
""")
demo("C44_swallow", "an LP token whose supply cannot be read",
     "a failing supply lookup counts as an empty pool, so a provision is priced as the first one", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 100), asset(&b, 100)], slippage_tolerance: None, receiver: None });
    assert!(r.is_err());
""")
demo("C04_hook_to_lower", "a swap whose requested recipient is not a valid address",
     "an invalid recipient is silently replaced by the trader", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_010_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 10_000, &swap_hook(None, None, Some("NotAnAddress"))));
    assert!(r.is_err());
""")
demo("C13_no_commission_inverse", "asking for a large amount, where 1/(1-f) and 1+f differ",
     "the quoted offer adds the commission instead of dividing by one minus it", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000_000_000_000).tok("tokenb", "pair", 1_000_000_000_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::query_reverse_simulation(deps.as_ref(), asset(&b, 1_000_000_000_000)).unwrap();
    assert_eq!(r.offer_amount.u128(), { let y = 1_000_000_000_000_000u128; let g = 1_003_009_027_081u128; y * y / (y - g) - y });
""")

# ---------------------------------------------------------------- third batch
PAIR_TT = """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_010_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 0, 0));
"""
demo("C01_funds_added", "a pool token that attaches coins to its notification",
     "coins attached to the notification are credited as offered tokens", PAIR_TT + """
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[coin(5_000, "uhalo")]), hook("trader", 10_000, &swap_hook(None, None, None))).unwrap();
    assert_eq!(demo::attr(&r, "offer_amount"), "10000");
""")
demo("C12_spread_cap", "a simulated offer larger than the reserve", "the simulation reports a smaller spread than the swap", PAIR_TT + """
    let s = halo_pair::contract::query_simulation(deps.as_ref(), asset(&b, 5_000_000)).unwrap();
    w.tok("tokenb", "pair", 6_000_000);
    deps.querier = w.querier();
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokenb", &[]), hook("trader", 5_000_000, &swap_hook(None, None, None))).unwrap();
    assert_eq!(demo::attr(&r, "spread_amount"), s.spread_amount.to_string());
""")
demo("C13_dust", "asking for an amount that costs less than one unit of the offered asset",
     "the quoted offer is not the formula's for tiny amounts", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 10).tok("tokenb", "pair", 1_000_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 0, 0));
    assert_eq!(halo_pair::contract::query_reverse_simulation(deps.as_ref(), asset(&b, 1_000)).unwrap().offer_amount.u128(), 0);
""")
demo("C17_owner_case", "an update that names the present owner and new code ids",
     "code ids supplied together with the present owner are ignored", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), UpdateConfig { owner: Some("owner".into()), token_code_id: Some(5), pair_code_id: Some(6) }).unwrap();
    let c = halo_factory::contract::query_config(deps.as_ref()).unwrap();
    assert_eq!((c.token_code_id, c.pair_code_id), (5, 6));
""")
demo("C18_reverse_order", "the same two assets in the other order, with different decimals",
     "a second pair can be created for the same assets in the other order", FACT + CREATE + """
    let (a, b) = (native("uother"), native("uhalo"));
    w.pair("pair1", &a, &b);
    w.pair("pair2", &b, &a);
    deps.querier = w.querier();
    create(&mut deps, &a, &b, "pair1").unwrap();
    assert!(create(&mut deps, &b, &a, "pair2").is_err());
""")
demo("C23_code_zero", "a migration request that names code id 0",
     "a given code id of 0 is replaced by the configured one instead of being passed on", FACT + """
    let r = halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), haloswap::factory::ExecuteMsg::MigratePair { contract: "pair".into(), code_id: Some(0) }).unwrap();
    match &r.messages[0].msg {
        CosmosMsg::Wasm(WasmMsg::Migrate { new_code_id, .. }) => assert_eq!(*new_code_id, 0),
        m => panic!("{:?}", m),
    }
""")
demo("C19_key_trunc", "two denominations that agree on a prefix longer than a hundred bytes",
     "the registry key is cut off, so that long denominations with a common prefix share one entry", FACT + CREATE + """
    let long = |s: &str| format!("factory/{}/{}", "x".repeat(110), s);
    for s in ["a", "b", "c"] {
        w.native_decimals.insert(long(s), 6);
    }
    let (a, b, c) = (native(&long("a")), native(&long("b")), native(&long("c")));
    w.pair("pair1", &a, &b).pair("pair2", &a, &c);
    deps.querier = w.querier();
    create(&mut deps, &a, &b, "pair1").unwrap();
    create(&mut deps, &a, &c, "pair2").unwrap();
    let p = halo_factory::contract::query_pair(deps.as_ref(), [a.clone(), b.clone()]).unwrap();
    assert_eq!(p.contract_addr, "pair1");
""")
demo("C25_to_self", "an outside caller running a single hop whose recipient is the router",
     "anyone can make the router swap whatever it holds as long as the proceeds stay with it", ROUT + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("mallory", &[]), ExecuteMsg::ExecuteSwapOperation { operation: op(&a, &b), to: Some("router".into()) });
    assert!(r.is_err());
""")
demo("C28_min_only", "a route with two outputs and a minimum receive amount",
     "routes that leave an intermediate asset behind are accepted when a minimum is given", ROUT + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations { operations: vec![op(&a, &b), op(&a, &c)], minimum_receive: Some(Uint128::new(1)), to: None });
    assert!(r.is_err());
""")
demo("C30_reverse_native", "a reverse simulation of a zero amount",
     "the pair is asked a question it does not understand", ROUT + """
    w.reverse.insert("pair-ab".into(), |o| (o.amount.u128(), 0, 0));
    deps.querier = w.querier();
    let r = haloswap::querier::reverse_simulate(&QuerierWrapper::new(&deps.querier), Addr::unchecked("pair-ab"), &asset(&b, 0));
    assert_eq!(r.unwrap().offer_amount.u128(), 0);
""")
demo("C32_relearn", "a token notification that names the router itself as the sender",
     "any contract can make itself the router's factory", ROUT + """
    let msg = haloswap::router::Cw20HookMsg::ExecuteSwapOperations { operations: vec![op(&a, &b)], minimum_receive: None, to: None };
    let _ = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("mallory", &[]), ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: "router".into(), amount: Uint128::new(1), msg: to_binary(&msg).unwrap() }));
    let q = halo_router::contract::query(deps.as_ref(), env_at("router"), haloswap::router::QueryMsg::Config {}).unwrap();
    assert_eq!(from_binary::<haloswap::router::ConfigResponse>(&q).unwrap().halo_factory, "factory");
""")
demo("C37_zero", "a native payment of zero", "a native payment of zero names no coin", """
    match asset(&native("uhalo"), 0).into_msg(Addr::unchecked("bob")).unwrap() {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => assert_eq!((to_address.as_str(), amount), ("bob", vec![coin(0, "uhalo")])),
        m => panic!("{:?}", m),
    }
""")
demo("C41_plus", "a decimal text with a sign and a fractional part", "texts with plus signs are accepted", """
    use std::str::FromStr;
    assert!(bignumber::Decimal256::from_str("+1.5").is_err());
    assert!(bignumber::Decimal256::from_str("1.5").is_ok());
""")
demo("C42_sat", "a swap whose spread does not fit in 128 bits", "a spread that does not fit is reported as the largest amount that does", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    let offer = 1u128 << 80;
    w.tok("tokena", "pair", 1 + offer).tok("tokenb", "pair", 1u128 << 80).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", offer, &swap_hook(None, None, None))).is_err()
    }));
    assert!(r.unwrap_or(true));
""")
demo("C45_dust_refund", "redeeming so few shares that one asset's part is below one unit",
     "a redemption pays at least one unit of each asset", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 10).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("lptoken", &[]), hook("alice", 1, &haloswap::pair::Cw20HookMsg::WithdrawLiquidity {})).unwrap();
    // the holder of one share in a thousand owns a hundredth of a unit
    assert_eq!(payments(&r).iter().filter(|p| p.1 == "tokena").map(|p| p.2).sum::<u128>(), 0);
""")
demo("C45_round_share", "a deposit larger than the reserves", "a large deposit is credited one share too many", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000).tok("tokenb", "pair", 1_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1_000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("bob", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity { assets: [asset(&a, 5_000), asset(&b, 5_000)], slippage_tolerance: None, receiver: None }).unwrap();
    assert_eq!(minted(&r).unwrap().1, 5_000);
""")
demo("C46_ceil_large", "an offer more than a thousand times the reserve",
     "a huge offer empties the pool, which lowers the product of the reserves to zero", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 10 + 100_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 100_000, &swap_hook(None, None, None))).unwrap();
    let out: u128 = payments(&r).iter().map(|p| p.2).sum();
    assert!(100_010 * (1_000_000 - out) >= 10 * 1_000_000);
""")
demo("C47_small_free", "asking for a few thousand units of an asset",
     "the offer quoted for a small amount leaves the commission out and is too low", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 1_000_000_000).tok("tokenb", "pair", 1_000_000).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 1000, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&[], 0, 0));
    let quote = halo_pair::contract::query_reverse_simulation(deps.as_ref(), asset(&b, 3_000)).unwrap().offer_amount;
    let r = halo_pair::contract::query_simulation(deps.as_ref(), asset(&a, quote.u128() + 1)).unwrap();
    assert!(r.return_amount.u128() + 1 >= 3_000, "{:?}", r);
""")
demo("C48_payout_error", "a swap whose recipient is the token contract that delivered the offer",
     "a failed payout does not undo the swap", PAIR_TT + """
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("tokena", &[]), hook("trader", 10_000, &swap_hook(None, None, Some("tokena")))).unwrap();
    assert!(r.messages.iter().all(|m| matches!(m.reply_on, ReplyOn::Never | ReplyOn::Success)));
""")
demo("C49_reported", "a pair contract that reports another address than the chain",
     "the creation event names the address the pair reports about itself", FACT + """
    let (a, b) = (native("uother"), native("uhalo"));
    w.pair("pair1", &a, &b);
    w.pairs[0].contract_addr = "pair1".into();
    let mut other = w.pairs[0].clone();
    other.contract_addr = "elsewhere".into();
    let canned = other.clone();
    let mut q = w.querier();
    let w2 = w.clone();
    q.update_wasm(move |x| match x {
        WasmQuery::Smart { contract_addr, .. } if contract_addr == "pair1" => SystemResult::Ok(to_binary(&canned).into()),
        _ => SystemResult::Err(SystemError::Unknown {}),
    });
    let mut old = std::mem::replace(&mut deps.querier, w.querier());
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("anyone", &[]), haloswap::factory::ExecuteMsg::CreatePair { asset_infos: [a.clone(), b.clone()], requirements: req(&[], 1, 2) }).unwrap();
    deps.querier = q;
    let r = halo_factory::contract::reply(deps.as_mut(), env_at("factory"), reply_with(1, "pair1")).unwrap();
    assert_eq!(demo::attr(&r, "pair_contract_addr"), "pair1");
""")
demo("C49_denom", "registering a denomination with more than 18 decimals", "the event shows other decimals than are stored", FACT + """
    let r = halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), haloswap::factory::ExecuteMsg::AddNativeTokenDecimals { denom: "uhalo".into(), decimals: 24 }).unwrap();
    assert_eq!(demo::attr(&r, "decimals"), halo_factory::contract::query_native_token_decimal(deps.as_ref(), "uhalo".into()).unwrap().decimals.to_string());
""")
demo("C50_whitelist_expiry", "a first provision by a stranger after block 5,000,000",
     "whether the first provision is restricted depends on the block height", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 0).tok("tokenb", "pair", 0).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 0, 0));
    let mut results = vec![];
    for height in [12_345, 9_999_999] {
        let mut env = env_at("pair");
        env.block.height = height;
        results.push(halo_pair::contract::execute(deps.as_mut(), env, mock_info("bob", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity { assets: [asset(&a, 5_000), asset(&b, 5_000)], slippage_tolerance: None, receiver: None }).is_ok());
    }
    assert_eq!(results[0], results[1]);
""")
demo("C51_lock", "a very large first provision", "a large first provision mints shares twice", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.tok("tokena", "pair", 0).tok("tokenb", "pair", 0).total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["alice"], 0, 0));
    let big = 10_000_000_000_000;
    let r = halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity { assets: [asset(&a, big), asset(&b, big)], slippage_tolerance: None, receiver: None }).unwrap();
    assert_eq!(cw20_msgs(&r).iter().filter(|(_, m)| matches!(m, cw20::Cw20ExecuteMsg::Mint { .. })).count(), 1);
""")
demo("C52_alias", "a message that spells a field differently", "an undocumented field name is accepted", """
    let good = r#"{"execute_swap_operation":{"operation":{"halo_swap":{"offer_asset_info":{"token":{"contract_addr":"a"}},"ask_asset_info":{"native_token":{"denom":"u"}}}},"to":"bob"}}"#;
    assert!(from_slice::<haloswap::router::ExecuteMsg>(good.as_bytes()).is_ok());
    assert!(from_slice::<haloswap::router::ExecuteMsg>(good.replace("\\"to\\"", "\\"recipient\\"").as_bytes()).is_err());
""")
demo("C52_default_minimums", "a pair creation message without minimums", "required fields may be left out of a message", """
    let good = r#"{"whitelist":[],"first_asset_minimum":"1","second_asset_minimum":"2"}"#;
    assert!(from_slice::<CreatePairRequirements>(good.as_bytes()).is_ok());
    assert!(from_slice::<CreatePairRequirements>(br#"{"whitelist":[]}"#).is_err());
""")
demo("C53_key", "a pair that was stored by the previous version of the contract", "an upgraded pair no longer finds its stored information", PAIR_TT + """
    let stored = deps.storage.get(b"pair_info");
    assert!(stored.is_some());
""")
demo("C53_native_key", "native token decimals registered before an upgrade", "an upgraded factory no longer finds registered native tokens", FACT + """
    // the storage key of a map entry: length-prefixed namespace, then the key
    let mut key = vec![0u8, 18];
    key.extend_from_slice(b"allow_native_token");
    key.extend_from_slice(b"uold");
    deps.storage.set(&key, b"7");
    assert_eq!(halo_factory::contract::query_native_token_decimal(deps.as_ref(), "uold".into()).unwrap().decimals, 7);
""")
demo("C53_hide_whitelist", "a pair with a whitelist of more than twenty accounts", "a long whitelist is lost when it is stored", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let names: Vec<String> = (0..25).map(|i| format!("account{i:02}")).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let deps = new_pair(&w, &a, &b, [6, 6], req(&names, 0, 0));
    assert_eq!(halo_pair::contract::query_pair_info(deps.as_ref()).unwrap().requirements.whitelist.len(), 25);
""")
LONGR = """
    let names: Vec<AssetInfo> = (0..10).map(|i| token(&format!("hop{i}"))).collect();
    for i in 0..9 {
        w.total(&format!("hop{i}"), 1, 6);
        w.pair(&format!("pair-{i}"), &names[i], &names[i + 1]);
        w.simulate.insert(format!("pair-{i}"), |o| (o.amount.u128() + 1, 0, 0));
        w.reverse.insert(format!("pair-{i}"), |o| (o.amount.u128() + 1, 0, 0));
    }
    deps.querier = w.querier();
    let route: Vec<SwapOperation> = (0..9).map(|i| op(&names[i], &names[i + 1])).collect();
"""
demo("C26_long_route", "a route of nine hops", "the hops of a route after the eighth are dropped, so it never pays out", ROUT + LONGR + """
    let r = halo_router::contract::execute(deps.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations { operations: route, minimum_receive: None, to: None }).unwrap();
    assert_eq!(r.messages.len(), 9);
""")
demo("C38_funds_window", "the declared native coin attached behind six other coins", "only the first six attached coins are looked at", """
    let f: Vec<Coin> = ["ua", "ub", "uc", "ud", "ue", "uf", "uhalo"].iter().map(|d| coin(7, *d)).collect();
    assert!(asset(&native("uhalo"), 7).assert_sent_native_token_balance(&mock_info("alice", &f)).is_ok());
    assert!(asset(&native("uhalo"), 0).assert_sent_native_token_balance(&mock_info("alice", &f)).is_err());
""")
demo("C08_whitelist_window", "a whitelist of nine accounts", "accounts after the eighth of a whitelist cannot make the first deposit", """
    let (a, b) = (token("tokena"), token("tokenb"));
    let mut w = World::default();
    w.total("tokena", 1, 6).total("tokenb", 1, 6).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &a, &b, [6, 6], req(&["a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "alice"], 1, 1));
    halo_pair::contract::execute(deps.as_mut(), env_at("pair"), mock_info("alice", &[]), haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: [asset(&a, 1_000_000), asset(&b, 1_000_000)], slippage_tolerance: None, receiver: None }).unwrap();
""")
demo("C34_balances", "an initial distribution to more than five accounts", "initial balances after the fifth are ignored", """
    let mut deps = World::default().deps();
    halo_token::contract::instantiate(deps.as_mut(), env_at("tok"), mock_info("x", &[]), haloswap::token::InstantiateMsg {
        name: "name".into(), symbol: "SYM".into(), decimals: 6,
        initial_balances: (0..7).map(|i| cw20::Cw20Coin { address: format!("acc{i}"), amount: Uint128::new(10) }).collect(), mint: None }).unwrap();
    let q = halo_token::contract::query(deps.as_ref(), env_at("tok"), cw20_base::msg::QueryMsg::TokenInfo {}).unwrap();
    let r: cw20::TokenInfoResponse = from_binary(&q).unwrap();
    assert_eq!(r.total_supply.u128(), 70);
""")
demo("C28_long", "a route of six hops whose last one leaves a second output", "the check for several outputs ignores hops after the fifth", ROUT + LONGR + """
    let mut bad = route.clone();
    bad.truncate(5);
    bad.push(op(&names[0], &names[7]));
    let go = |d: &mut cosmwasm_std::OwnedDeps<_, _, _>, o: Vec<SwapOperation>| halo_router::contract::execute(d.as_mut(), env_at("router"), mock_info("alice", &[]), ExecuteMsg::ExecuteSwapOperations { operations: o, minimum_receive: None, to: None });
    assert!(go(&mut deps, route).is_ok());
    assert!(go(&mut deps, bad).is_err());
""")
demo("C31_long_rev", "a reverse simulation of a route of nine hops", "the reverse simulation ignores the first hops of a route longer than six", ROUT + LONGR + """
    let q = halo_router::contract::query(deps.as_ref(), env_at("router"), haloswap::router::QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(100), operations: route }).unwrap();
    let r: haloswap::router::SimulateSwapOperationsResponse = from_binary(&q).unwrap();
    assert_eq!(r.amount.u128(), 109);
""")
demo("C31_long_sim", "a simulation of a route of nine hops", "the simulation ignores the first hops of a route longer than seven", ROUT + LONGR + """
    let q = halo_router::contract::query(deps.as_ref(), env_at("router"), haloswap::router::QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(100), operations: route }).unwrap();
    let r: haloswap::router::SimulateSwapOperationsResponse = from_binary(&q).unwrap();
    assert_eq!(r.amount.u128(), 109);
""")
VERSION = """
    let rec = |deps: &Deps_| String::from_utf8(deps.storage.get(b"contract_info").unwrap_or_default()).unwrap();
"""
demo("C54_token_minter", "an LP token, i.e. a token with a minter and no initial balances", "a token created like a pair creates its LP token has no version record", VERSION + """
    let mut deps = World::default().deps();
    halo_token::contract::instantiate(deps.as_mut(), env_at("lp"), mock_info("pair", &[]), haloswap::token::InstantiateMsg {
        name: "halo liquidity token".into(), symbol: "uLP".into(), decimals: 6, initial_balances: vec![],
        mint: Some(cw20::MinterResponse { minter: "pair".into(), cap: None }) }).unwrap();
    assert!(rec(&deps).contains("crates.io:cw20-base"));
""")
demo("C54_pair_open", "a pair with a native asset", "a pair with a native asset has no version record", VERSION + """
    let deps = new_pair(&World::default(), &native("uhalo"), &token("tokenb"), [6, 6], req(&[], 0, 0));
    assert!(rec(&deps).contains("crates.io:halo-pair"));
""")
demo("C54_router_older", "a migration of an older router to the present version", "migrating leaves the old version record in place", VERSION + """
    let mut deps = World::default().deps();
    deps.storage.set(b"contract_info", br#"{"contract":"crates.io:halo-router","version":"0.0.9"}"#);
    halo_router::contract::migrate(deps.as_mut(), env_at("router"), from_binary(&Binary::from(b"{}")).unwrap()).unwrap();
    assert!(!rec(&deps).contains("0.0.9"));
""")
demo("C11_lp_decimals", "a pair of two assets with more than eight decimals", "the LP token's decimals follow the first asset's, which the token contract may refuse", """
    let mut deps = World::default().deps();
    let r = halo_pair::contract::instantiate(deps.as_mut(), env_at("pair"), mock_info("factory", &[]), haloswap::pair::InstantiateMsg {
        asset_infos: [native("uhalo"), token("tokenb")], token_code_id: 7, asset_decimals: [20, 18], requirements: req(&[], 0, 0) }).unwrap();
    let m = match &r.messages[0].msg { CosmosMsg::Wasm(WasmMsg::Instantiate { msg, .. }) => msg.clone(), _ => panic!() };
    let t: haloswap::token::InstantiateMsg = from_binary(&m).unwrap();
    assert_eq!(t.decimals, 6);
    assert!(halo_token::contract::instantiate(World::default().deps().as_mut(), env_at("lp"), mock_info("pair", &[]), t).is_ok());
""")
demo("C15_reply_addr", "an LP token whose address begins with the word contract", "the creation event reports a shortened address", """
    let mut deps = World::default().deps();
    halo_pair::contract::instantiate(deps.as_mut(), env_at("pair"), mock_info("factory", &[]), haloswap::pair::InstantiateMsg {
        asset_infos: [native("uhalo"), token("tokenb")], token_code_id: 7, asset_decimals: [6, 6], requirements: req(&[], 0, 0) }).unwrap();
    let r = halo_pair::contract::reply(deps.as_mut(), env_at("pair"), reply_with(1, "contract12")).unwrap();
    assert_eq!(demo::attr(&r, "liquidity_token_addr"), "contract12");
""")
demo("C56_cursor", "a listing of the pairs that continues after a pair which is not registered (any more)",
     "a page that starts after an unregistered pair is refused", FACT + CREATE + """
    let (a, b) = (native("uother"), native("uhalo"));
    w.pair("pair1", &a, &b);
    deps.querier = w.querier();
    create(&mut deps, &a, &b, "pair1").unwrap();
    let page = |x: Option<[AssetInfo; 2]>| halo_factory::contract::query_pairs(deps.as_ref(), x, None).map(|r| r.pairs.len());
    assert_eq!(page(None).unwrap(), 1);
    assert_eq!(page(Some([a.clone(), b.clone()])).unwrap(), 0);
    assert_eq!(page(Some([native("uaaaa"), native("ubbbb")])).unwrap(), 1);
""")
demo("C56_same_owner", "an update of the configuration that names the present owner",
     "the owner cannot update the codes in a message that also names the present owner", FACT + """
    use haloswap::factory::ExecuteMsg::*;
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), UpdateConfig { owner: Some("owner".into()), token_code_id: Some(5), pair_code_id: None }).unwrap();
    assert_eq!(halo_factory::contract::query_config(deps.as_ref()).unwrap().token_code_id, 5);
""")
demo("C56_pool_empty", "a pair without LP tokens in circulation that has been sent some of its first asset",
     "the pool of such a pair cannot be queried", """
    let mut w = World::default();
    w.coin("pair", "uhalo", 5).tok("tokenb", "pair", 7).total("lptoken", 0, 6).total("tokenb", 7, 6);
    let mut deps = new_pair(&w, &native("uhalo"), &token("tokenb"), [6, 6], req(&[], 0, 0));
    let p = halo_pair::contract::query_pool(deps.as_ref()).unwrap();
    assert_eq!(p.assets[0].amount.u128(), 5);
    assert_eq!(p.assets[1].amount.u128(), 7);
""")
demo("C18_tmp_block", "a pair whose creation was started earlier and has not been registered, with a code id above 1000",
     "an earlier creation that did not complete blocks the pair for good", FACT + CREATE + """
    use haloswap::factory::ExecuteMsg::*;
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("owner", &[]), UpdateConfig { owner: None, token_code_id: None, pair_code_id: Some(4321) }).unwrap();
    let (a, b) = (native("uother"), native("uhalo"));
    w.pair("pair1", &a, &b);
    deps.querier = w.querier();
    halo_factory::contract::execute(deps.as_mut(), env_at("factory"), mock_info("anyone", &[]), CreatePair { asset_infos: [a.clone(), b.clone()], requirements: req(&["alice"], 1, 2) }).unwrap();
    create(&mut deps, &a, &b, "pair1").unwrap();
""")
# demonstrated by listing the exports (seedlib/demo_exports.sh)
EXPORTS = ("C55_pair_reply", "C55_factory_migrate")
demo("C55_pair_reply", "a deployed build of the pair: the LP token's creation is reported to it", "the pair's reply handler is not exported, so no pair can be created on chain", "")
demo("C55_factory_migrate", "a deployed build of the factory, migrated", "the factory's migrate handler is exported only with the backtraces feature", "")
