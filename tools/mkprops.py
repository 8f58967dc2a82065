#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
PAIR='contracts/halo-pair/src/contract.rs'; FAC='contracts/halo-factory/src/contract.rs'
FST='contracts/halo-factory/src/state.rs'; ROU='contracts/halo-router/src/contract.rs'
ROP='contracts/halo-router/src/operations.rs'; TOK='contracts/halo-token/src/contract.rs'
AST='packages/haloswap/src/asset.rs'; QUE='packages/haloswap/src/querier.rs'
BIG='packages/bignumber/src/math.rs'; TMSG='packages/haloswap/src/token.rs'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PI=[('pair info item','the pair\'s assets, decimals, LP token and first-deposit requirements','contracts/halo-pair/src/state.rs')]
# ---------------------------------------------------------------- pair
prop('C01','Only a pool asset\'s own CW20 contract can trigger a swap',
 'A pair pays out a swap only while handling a CW20 receive notification sent by a token contract that is one of the pair\'s two assets. The offer it credits is exactly that calling contract\'s asset and exactly the notified amount. Every other caller and every other message is rejected without any payout.',
 ['inputs'],'every sender, every execute message and every hook payload, for every pair configuration',
 'Tests try one unauthorised caller and one authorised one; the claim is about every caller and every path that reaches a payout.',
 [PAIR],[('receive_cw20 authorisation loop',PAIR),('swap',PAIR)],['execute response messages'],PI)
prop('C02','Only the pair\'s LP token can trigger a withdrawal',
 'A pair releases reserves for liquidity shares only while handling a receive notification sent by its own registered LP token contract. The shares redeemed are exactly the notified amount and the refunds go to the account that sent the LP tokens. Any other caller is rejected.',
 ['inputs'],'every sender and hook payload',
 'Tests use a single good and a single bad caller.',[PAIR],[('receive_cw20 WithdrawLiquidity arm',PAIR)],['execute response messages'],PI)
prop('C03','Swap output is the constant-product amount less the 0.3% commission',
 'For offer a against reserves x (offered asset, measured before the offer) and y (other asset) the gross output is the constant-product amount y*a/(x+a) rounded down, the commission is 0.3% of the gross rounded down, and the trader receives gross minus commission while the commission stays in the pool. The reported spread is the offer\'s value at the pool price (a*y/x, where the price y/x may itself be rounded down to 18 decimals) rounded down, minus the gross output, or zero if that is negative. Hence the product of the two reserves never decreases through a swap.',
 ['inputs'],'all reserves and offer amounts for which the computation completes',
 'Tests evaluate a handful of amounts; an error that only shows for amounts with a special remainder or magnitude is not sampled.',
 [PAIR,BIG],[('compute_swap',PAIR),('swap',PAIR)],['payout message amount','spread and commission attributes'],PI)
prop('C04','Swap proceeds go to the requested receiver in the other asset',
 'A successful swap sends exactly one payment: the net return amount of the asset that was not offered, to the requested recipient, or to the trader who sent the offered tokens when no recipient is given. When the net return is zero no payment is sent. A swap sends nothing else and changes no stored state.',
 ['inputs'],'all senders, recipients, amounts and both swap directions',
 'Tests check one direction with one recipient.',[PAIR,AST],[('swap',PAIR),('Asset::into_msg',AST)],['execute response messages'],PI)
prop('C05','A swap never exceeds the trader\'s maximum spread',
 'When the trader gives a maximum spread, the swap fails if the spread exceeds it: measured against the return expected at the belief price when a belief price is also given, otherwise as the share of the spread in net return plus spread, at 18 decimals. The comparison accounts for the two assets\' decimals by scaling the lower-decimals side up by ten to the difference, and it uses the limits supplied in the message. A swap that returns something and is within the limit is not rejected for this reason.',
 ['inputs'],'all belief prices, spread limits, amounts and decimals combinations, in both directions',
 'Tests sample a few prices around one threshold; the wiring of the limits from the message to the check is not tested for both directions.',
 [PAIR],[('assert_max_spread',PAIR),('swap',PAIR)],['swap failing with the max-spread error'],PI)
prop('C06','Withdrawal pays both reserves pro rata, never more, and burns the shares',
 'Redeeming s of S LP shares sends the redeemer, for each of the two pool assets, the pair\'s current balance of that asset times s/S rounded down (the ratio s/S may first be rounded down to 18 decimals), and burns exactly s LP tokens. S is the LP token\'s total supply before the burn. Nothing else is sent and no stored state changes.',
 ['inputs'],'all share amounts, supplies and balances',
 'Tests check one ratio.',[PAIR,AST],[('withdraw_liquidity',PAIR)],['execute response messages'],PI)
prop('C07','Providing liquidity collects exactly the declared deposits',
 'Each deposit is matched to a pool side by asset identity, and provision fails unless both pool assets are given. For a native asset the declared amount must equal the coins attached to the call; for a token asset the pair pulls exactly the declared amount from the caller into itself. Shares are only ever minted together with these collections.',
 ['inputs'],'all asset orders, amounts and attached funds',
 'Tests cover one token/native order and a few mismatches.',[PAIR,AST],
 [('provide_liquidity',PAIR),('assert_sent_native_token_balance',AST)],['execute response messages'],PI)
prop('C08','The first deposit is gated by whitelist and minimums',
 'While no LP shares exist, a provision succeeds only if the caller is on the pair\'s whitelist and the deposit of each pool asset is at least the minimum configured for that asset. The first shares equal the integer square root of the product of the two deposits. A whitelisted caller whose deposit meets the minimums and is worth at least one share is let in. Once shares exist these restrictions do not apply.',
 ['inputs','histories'],'all callers, deposits, requirements and supply states',
 'Tests use one whitelisted caller and zero or fixed minimums.',[PAIR],[('provide_liquidity empty-pool branch',PAIR)],['execute result'],PI)
prop('C09','LP shares are proportional to the smaller side, non-zero, to the receiver',
 'When shares already exist, the shares minted are the smaller over the two sides of deposit times total share supply divided by the reserve before the deposit, each rounded down. A provision that would mint zero shares fails. The shares are minted by the pair\'s LP token, in one mint, to the given receiver or else to the caller.',
 ['inputs'],'all deposits, reserves and supplies, token and native sides',
 'Tests check one ratio and one receiver.',[PAIR],[('provide_liquidity',PAIR)],['mint message'],PI)
prop('C10','Slippage tolerance is enforced on provision',
 'When a slippage tolerance is given, a provision fails if the tolerance exceeds one, or if the deposit ratio scaled by one minus the tolerance exceeds the reserve ratio before the deposit, in either orientation, the ratios being taken at 18 decimals. This concerns pools with both reserves non-empty. A provision inside the tolerance is not rejected for this reason.',
 ['inputs'],'all tolerances, deposits and reserves',
 'Tests sample a few ratios around one threshold.',[PAIR],[('assert_slippage_tolerance',PAIR)],['provision failing with the slippage error'],PI)
prop('C11','A pair\'s configuration is fixed at creation',
 'A pair stores the assets, decimals and requirements it was instantiated with, in the given order, and its own address. On instantiation it creates one LP token whose only minter is the pair itself, with no cap, no initial balances, six decimals and a name and symbol the token contract accepts, and the address that creation reports becomes the pair\'s LP token. No execute message, query or migration ever changes any of it.',
 ['histories','inputs'],'every sequence of messages after creation',
 'Tests look at one state after one call; they do not exclude a write on some other path.',
 [PAIR,'contracts/halo-pair/src/state.rs'],[('instantiate',PAIR),('reply',PAIR)],['pair query','instantiate response'],PI)
prop('C12','Swap simulation agrees with the executed swap',
 'Simulating an offer of an asset returns exactly the return, spread and commission that the swap of that offer would produce against the same reserves, in both directions. An offer in an asset that is not in the pair fails.',
 ['inputs'],'all reserves, offers and directions',
 'Tests compare one simulated amount with one executed swap.',[PAIR],[('query_simulation',PAIR),('swap',PAIR)],['simulation query response'],PI)
prop('C13','Reverse simulation inverts the swap formula',
 'For an asked amount b of one pool asset with reserve y, against the other asset\'s reserve x, the quoted offer is x*y/(y - b/(1-0.003)) - x, where the inverse 1/(1-0.003) is taken at 18 decimals and the pre-commission amount and the quotient are rounded down. The commission is 0.3% of that pre-commission amount, and the spread is the offer at the pool price minus it, or zero if negative. An asked asset that is not in the pair fails.',
 ['inputs'],'all reserves, asked amounts and directions',
 'Tests compare one amount with a tolerance.',[PAIR],[('compute_offer_amount',PAIR),('query_reverse_simulation',PAIR)],['reverse simulation response'],PI)
prop('C14','Pool and pair queries report the real state',
 'The pool query reports the pair\'s actual current balance of each of its two assets, each with its own asset, and the LP token\'s total supply. The pair query reports the stored assets, decimals, requirements, pair address and LP token unchanged.',
 ['inputs','histories'],'all balances and configurations',
 'Tests read one state.',[PAIR,AST],[('query_pool',PAIR),('query_pair_info',PAIR),('PairInfoRaw::to_normal',AST)],['query responses'],PI)
prop('C15','Pair events report what actually happened',
 'The attributes emitted by swap, provision and withdrawal name the action and carry the same sender, receiver, assets and amounts as the payments, collections, mints and burns in the same response. When the LP token has been created, the event reports the address of the created contract.',
 ['inputs'],'all calls','Tests compare attributes for one call of each kind.',[PAIR],[('swap/provide/withdraw/reply attributes',PAIR)],['response attributes'],PI)
# ---------------------------------------------------------------- factory
FS=[('config','owner and code ids',FST),('pairs','registered pairs by unordered asset key',FST),('native decimals','decimals of admitted native tokens',FST),('pending pair','assets of the pair being created',FST)]
prop('C16','Only the factory owner can administer it',
 'Changing the factory\'s configuration, registering native token decimals and migrating a pair succeed only when the caller is the current owner. No other message changes the owner, the code ids or the decimals registry.',
 ['inputs','histories'],'every caller and message','Tests use one non-owner per message.',
 [FAC,FST],[('permission checks',FAC)],['execute result'],FS)
prop('C17','Factory configuration changes exactly what was requested',
 'The instantiating account becomes the owner and the given code ids are stored. A configuration update sets each supplied field to the supplied value and leaves every omitted field unchanged, a new owner must be a valid address, and the config query reports the stored values.',
 ['inputs','histories'],'every combination of supplied fields','Tests exercise a couple of combinations.',
 [FAC],[('instantiate',FAC),('execute_update_config',FAC),('query_config',FAC)],['config query'],FS)
prop('C18','At most one pair per unordered asset pair',
 'A pair creation fails if its two assets are the same asset, or if a pair with the same two assets in either order is already registered. A stored registry entry that cannot be read also makes creation fail rather than being overwritten. Two different assets of known decimals whose pair is not registered are accepted. Lookup, creation and registration address the same entry for either order of the assets.',
 ['inputs','histories'],'every asset pair, order and spelling of addresses, and registry history',
 'Tests try one duplicate, one reversed duplicate and one identical pair.',
 [FAC,FST],[('pair_key',FST),('execute_create_pair',FAC),('query_pair',FAC)],['create result','pair query'],FS)
prop('C19','The registry never confuses two different asset pairs',
 'Two pairs with different asset sets always have different registry entries: registering or looking up one never finds or blocks the other.',
 ['inputs'],'every two asset pairs, including denominations that are prefixes of each other',
 'Tests use a few denominations whose concatenations happen to differ.',[FST],[('pair_key',FST),('AssetInfoRaw::as_bytes',AST)],['pair query','create result'],FS)
prop('C20','A registered pair describes the contract that was instantiated',
 'When a created pair contract reports success, the registry stores under the pending pair\'s key the new contract\'s address, the pending assets and decimals in the order of creation, and the LP token and requirements that the pair contract itself reports. Registration writes nothing else, and only the creation reply writes the registry.',
 ['inputs','histories'],'every creation','Tests check one reply.',[FAC],[('reply',FAC)],['pair query'],FS)
prop('C21','Pair creation uses verified decimals and the configured code',
 'A creation succeeds only if the decimals of both assets can be determined: from the factory\'s registry for a native token, from the token contract for a CW20. It instantiates the configured pair code exactly once, with the factory as admin, passing the same two assets, their decimals in the same order, the configured token code and the given requirements, and remembers the same assets and decimals for registration.',
 ['inputs'],'all asset kinds, orders and configurations','Tests cover a few asset kinds with fixed decimals.',
 [FAC,AST,QUE],[('execute_create_pair',FAC),('query_decimals',AST)],['instantiate message'],FS)
prop('C22','Native decimals require a factory balance and are stored as given',
 'Registering a native token succeeds only if the factory itself holds a positive balance of that denomination. It then stores exactly the given decimals for exactly that denomination, and the decimals query returns the stored value for the queried denomination or fails if there is none.',
 ['inputs'],'all denominations and decimals','Tests use one denomination.',[FAC,FST],
 [('execute_add_native_token_decimals',FAC),('add_allow_native_token',FST)],['native decimals query'],FS)
prop('C23','Pair migration targets the named pair with the right code',
 'A migration request sends exactly one migrate message, to the named contract, with the given code id or the configured pair code id when none is given. It changes no factory state.',
 ['inputs'],'all contracts and code ids','Tests check two requests.',[FAC],[('execute_migrate_pair',FAC)],['execute response messages'],FS)
prop('C24','Pair listing pages through the registry in order',
 'A listing returns registered pairs in ascending registry order starting strictly after the given pair, whichever way round its assets are given, or from the beginning when none is given. The page size is the requested limit, ten by default and never more than thirty. Every listed entry is the stored one.',
 ['inputs','histories'],'all cursors and limits','Tests page through two pairs.',[FST,FAC],
 [('read_pairs',FST),('calc_range_start',FST)],['pairs query'],FS)
# ---------------------------------------------------------------- router
RS=[('config','the factory used to resolve pairs','contracts/halo-router/src/state.rs')]
prop('C25','Only the router itself can run an internal hop',
 'The single-hop message is executed only when the caller is the router contract itself; any other caller is rejected with no message sent.',
 ['inputs'],'every caller','Tests use one foreign caller.',[ROP,ROU],[('execute_swap_operation',ROP)],['execute result'],RS)
prop('C26','A route runs its hops in order and only the last one pays out',
 'A route emits one internal hop per requested operation, in the given order, addressed to the router itself. The last hop carries the recipient (the requested one, or else the account that started the route) and no earlier hop does. The same holds for routes started directly and through a CW20 transfer, where the starter is the account that sent the tokens, and the route emits nothing else but the final minimum-receive check.',
 ['inputs'],'routes of every length and both entry messages','Tests use one two-hop route per entry.',[ROU],
 [('execute_swap_operations',ROU),('receive_cw20',ROU)],['execute response messages'],RS)
prop('C27','Minimum receive is enforced on the recipient\'s balance gain',
 'When a minimum is given, the last message of a route makes it fail unless the recipient\'s balance of the route\'s final asset grows by at least that minimum over its balance before the route started. The check measures the balance of the same account and asset at both times, and growth of exactly the minimum is accepted.',
 ['inputs'],'all minimums, balances, recipients and final assets','Tests sample a few balances around one threshold.',[ROU,AST],
 [('execute_swap_operations minimum-receive message',ROU),('assert_minium_receive',ROU)],['execute result'],RS)
prop('C28','Empty routes and routes with several outputs are rejected',
 'A route or simulation with no operations is rejected. A route is rejected unless, after every operation consumes its offered asset and produces its asked asset, exactly one produced asset is left over. (Native denominations are never spelled like token contract addresses.)',
 ['inputs'],'routes of every length and shape','Tests try three routes.',[ROU],[('assert_operations',ROU),('execute_swap_operations',ROU)],['execute result'],RS)
prop('C29','A hop offers the router\'s whole balance to the registered pair',
 'A hop asks the configured factory for the pair of exactly the operation\'s two assets and offers that pair the router\'s entire current balance of the operation\'s offered asset, naming the hop\'s recipient and no belief price or spread limit. It sends exactly one message: a CW20 send of that balance for a token, or the attached coins for a native asset.',
 ['inputs'],'all operations and balances','Tests check one hop per asset kind.',[ROP],[('execute_swap_operation',ROP),('asset_into_swap_msg',ROP)],['execute response messages'],RS)
prop('C30','Contracts only send each other messages the receiver understands',
 'Every message, hook payload and query that the factory, pair and router send to a pair, router, factory or token contract is of the kind the receiving entry point decodes. In particular every swap, mint, burn, transfer and reply-bound instantiation the contracts emit is one that its receiver handles.',
 ['programs','inputs'],'every message construction site',
 'Unit tests compare emitted messages with hand-built ones and never deliver them to the receiving contract.',
 [ROP,PAIR,FAC,ROU,QUE,AST],[('message construction sites',ROP)],['message delivery'],[])
prop('C31','Route simulation chains pair simulations',
 'A forward route simulation asks, for each operation in order, the factory-registered pair of its two assets to simulate offering the previous result (initially the given amount) of the offered asset, and returns the last result. The reverse simulation goes from the last operation to the first, asking each pair for the offer needed for the currently required amount of the asked asset, and returns the final requirement.',
 ['inputs'],'routes of every length','Tests use short routes against a mock that echoes amounts.',[ROU,QUE],
 [('simulate_swap_operations',ROU),('reverse_simulate_swap_operations',ROU)],['simulation responses'],RS)
prop('C32','The router\'s factory is fixed at instantiation',
 'The router stores the factory address it was instantiated with, reports it in its configuration query, and no later message changes any router state.',
 ['histories'],'every sequence of messages','Tests read it once after instantiation.',[ROU],[('instantiate',ROU)],['config query'],RS)
# ---------------------------------------------------------------- cross-cutting
prop('C33','Migrations preserve all stored state',
 'Migrating the factory, a pair or the router only refreshes the recorded contract name and version: every other stored value is left as it was and no message is sent.',
 ['histories'],'every prior state','There is no migration test.',[PAIR,FAC,ROU],[('migrate',PAIR)],['state after migration'],[])
prop('C34','Token instantiation enforces metadata limits and the supply cap',
 'A token is created only if its name has 3 to 50 bytes, its symbol has 3 to 12 bytes that are ASCII letters or hyphens, its decimals are at most 18 and the sum of initial balances does not exceed the cap when one is given. The stored supply equals that sum, the metadata is stored as given, and the minter is the validated requested one or none.',
 ['inputs'],'all instantiate messages','Tests sample a few invalid messages.',[TOK,TMSG],[('instantiate',TOK),('InstantiateMsg::validate',TMSG)],['token info query','instantiate result'],
 [('token info','name, symbol, decimals, supply, minter','cw20-base state')])
prop('C35','The token is a standard CW20 after creation',
 'Every execute message and query of the token contract is handled by the standard CW20 base implementation, with the caller, message, funds and storage passed through unchanged and its result returned unchanged.',
 ['inputs','histories'],'every message','Tests send a few messages.',[TOK],[('execute',TOK),('query',TOK)],['execute result'],[])
prop('C36','Asset identity is kind plus identifier',
 'Two assets are equal exactly when they are of the same kind and have the same contract address or denomination. Converting an asset to its stored form and back preserves its kind, identity and amount, and the registry key bytes of an asset are those of its own address or denomination.',
 ['inputs'],'all assets','Tests compare a few assets.',[AST],[('equal',AST),('to_raw',AST),('to_normal',AST),('as_bytes',AST)],['API results'],[])
prop('C37','Asset transfers move exactly the asset\'s amount to the recipient',
 'Turning an asset into a payment yields exactly one message: a CW20 transfer of the full amount to the recipient by the asset\'s token contract with no coins attached, or a bank send of the full amount of the asset\'s denomination to the recipient.',
 ['inputs'],'all assets and recipients','Tests build one of each.',[AST],[('into_msg',AST),('into_submsg',AST)],['message'],[])
prop('C38','Attached native funds are checked exactly',
 'The funds check accepts a native asset exactly if the coin of that denomination attached to the call has exactly the asset\'s amount, or none is attached and the amount is zero. It accepts every token asset. The chain attaches at most one coin per denomination.',
 ['inputs'],'all assets and attached funds','Tests check a few coins.',[AST],[('assert_sent_native_token_balance',AST)],['API result'],[])
prop('C39','Balance, supply, decimals and pair lookups ask the right source',
 'A balance lookup asks the bank module (native) or the asset\'s own token contract (CW20) for the given account, and a supply, decimals, pair or simulation lookup asks the given contract for the given subject. The value returned is the corresponding field of the response, and a failed lookup is an error.',
 ['inputs'],'all accounts, assets and contracts','Tests query a mock once per function.',[QUE,AST],[('query functions',QUE),('query_pool',AST),('query_pools',AST)],['query request and result'],[])
prop('C40','256-bit arithmetic is exact or aborts',
 'Every operation of the 256-bit integer and fixed-point types returns the exact result, or the exact quotient rounded down where it divides, of its operands; on overflow (also of the intermediate product of a multiply-then-divide), underflow or a zero divisor it aborts. Converting to a 128-bit number aborts when the value does not fit and never truncates.',
 ['inputs'],'all operands','Tests evaluate a few operands.',[BIG],[('ops impls',BIG),('multiply_ratio',BIG),('from_ratio',BIG),('From<Uint256> for u128',BIG)],['API results'],[])
prop('C41','Fixed-point decimal text is parsed and printed exactly',
 'Parsing a decimal text yields whole part times 10^18 plus the fractional digits scaled to 18 places, and fails for more than 18 fractional digits, non-digits or several dots. Printing yields the whole part and the fractional digits zero-padded to 18 places with trailing zeros removed, and serialisation uses the same text.',
 ['inputs'],'all values and texts','Tests parse and print a few values.',[BIG],[('FromStr for Decimal256',BIG),('Display for Decimal256',BIG)],['API results'],[])
prop('C42','Amounts never silently wrap or get truncated',
 'No computation reachable from a contract entry point uses wrapping or unchecked arithmetic, saturation at the maximum of a type, or a narrowing conversion that drops bits: an amount that does not fit makes the call fail. Release builds keep overflow checks on.',
 ['inputs','programs'],'all inputs and all reachable arithmetic','Tests use amounts far from the limits, where wrapping and checked arithmetic agree.',
 [PAIR,FAC,ROU,AST,BIG,'Cargo.toml'],[('checked arithmetic',PAIR),('overflow-checks',"Cargo.toml")],['call result'],[])
prop('C43','Funded pools do not abort on ordinary amounts',
 'For non-empty reserves, offers, supplies and deposits of up to 10^28 base units and decimals of at most 18, as long as the offer\'s value at the pool price fits in 128 bits: simulating a swap never fails, executing one without limits never aborts (and never fails when the decimals are equal), a first deposit that satisfies the whitelist and the minimums never fails, and neither does redeeming outstanding shares. A reverse simulation never fails when the ask, grossed up for the commission, is less than the ask reserve and the resulting offer and its value at the pool price fit in 128 bits; a later deposit without a tolerance never fails when both of its pro-rata shares are at least one and fit in 128 bits.',
 ['inputs'],'all reserves, offers and deposits in the range','Tests use small amounts and simple ratios.',
 [PAIR],[('compute_swap',PAIR),('provide_liquidity',PAIR)],['call result'],PI)
prop('C44','Failures of lookups, storage and address checks abort the call',
 'If any storage read or write, contract or balance lookup, address conversion or message encoding performed while handling a message fails, the whole call fails: no handler substitutes a default or carries on as if it had succeeded.',
 ['inputs','fault_sequences'],'every fallible step of every handler','Tests inject almost no failures.',
 [PAIR,FAC,FST,ROU,ROP,TOK,AST,QUE],[('error propagation',PAIR)],['call result'],[])
prop('C45','Deposits and redemptions never dilute the other holders',
 'While LP shares exist, a provision mints no more shares than either asset\'s collected deposit buys at the current reserves per share, and a redemption pays out no more of either asset than the burned shares\' fraction of its reserve. Neither sends anything else out of the pair, so neither ever lowers the reserves behind an outstanding share.',
 ['inputs','histories'],'all deposits, redemptions, reserves and supplies; by induction all sequences of them','Tests check one ratio per call and no sequence.',[PAIR],[('provide_liquidity',PAIR),('withdraw_liquidity',PAIR)],['mint, burn and payment messages'],PI)
prop('C46','A swap never lowers the product of the reserves',
 'For every swap that succeeds, the product of the pair\'s two reserves after it, counting the offered amount as received, is at least the product before it. Nothing of the offered asset, and nothing besides the proceeds in the other asset, leaves the pair.',
 ['inputs','histories'],'all reserves and offers; by induction all sequences of swaps','Tests compare the payment of a few amounts with a recorded value.',[PAIR],[('compute_swap',PAIR),('swap',PAIR)],['payout message'],PI)
prop('C47','A reverse-simulated offer is enough',
 'One base unit more than the offer quoted by the reverse simulation, swapped against the same reserves, returns at least the asked amount, short by at most the asked amount\'s 10^-18 part rounded up.',
 ['inputs'],'all reserves and amounts','Tests allow a tolerance on one example.',[PAIR],[('compute_offer_amount',PAIR),('compute_swap',PAIR)],['query response vs swap'],PI)
prop('C48','A failed message undoes the whole operation',
 'Every message a contract emits is sent such that its failure fails the transaction that caused it: no reply handler receives errors, and no message runs under a reduced gas limit. So a failed hop, payment, collection, mint, burn or instantiation leaves no trace of the operation.',
 ['fault_sequences'],'every emitted message of every handler, failing at any position','No test lets a message fail.',[PAIR,FAC,ROU,ROP,TOK],[('message dispatch',ROU),('sub-messages',FAC)],['reply mode of the emitted messages'],RS)
prop('C49','Factory events report what actually happened',
 'The attributes emitted by the factory name the action and carry the same assets, in the requested order, the same denomination and decimals as the state change in the same call. When a pair is registered, the reported pair and LP token addresses are those of the instantiated contract.',
 ['inputs'],'all calls','Tests compare the attributes of one call of each kind.',[FAC],[('response attributes',FAC)],['response attributes'],FS)
prop('C50','Results depend on nothing but the call and the state',
 'The outcome of every message and query is a function of the call (sender, attached funds, message, contract address), the stored state and the answers of other contracts. It does not depend on the block height or time, the position in the block, the iteration order of hash tables, floating point, or anything else outside the transaction.',
 ['inputs','configurations'],'all calls at all times','Tests run every call once, in one fixed mock environment.',[PAIR,FAC,FST,ROU,ROP,TOK,AST,QUE,BIG],[('entry points',PAIR),('entry points',FAC),('entry points',ROU)],['call result'],[])
prop('C51','LP shares change only by provision and redemption',
 'The pair asks its LP token to mint in a provision only, once, and to burn in a redemption only, once; no other message, reply or migration of the pair creates, destroys or moves LP shares. The pair sends no token message other than transfers of its own two assets and that mint or burn.',
 ['inputs','histories'],'all messages and states','Tests look at the messages of one call of each kind.',[PAIR],[('LP mint and burn',PAIR)],['messages to the LP token'],PI)
prop('C52','The public JSON interface is fixed',
 'Every message, token hook, query and answer of the contracts has the documented JSON form: the exact snake_case tags and field names, 128-bit amounts as text, addresses as text, assets tagged token or native_token. Only optional fields may be left out, and unknown tags and fields are refused.',
 ['inputs','programs'],'all messages and answers','Tests build messages from Rust types and never look at the JSON text.',[AST,'packages/haloswap/src/pair.rs','packages/haloswap/src/factory.rs','packages/haloswap/src/router.rs','packages/haloswap/src/token.rs'],[('derived encodings',AST)],['encoded messages'],[])
prop('C53','Stored state is read back as written and survives upgrades',
 'Every value the contracts store or send is complete when it is read back: each field that is written is accepted under the same name and type, and no field is dropped, renamed or defaulted on the way. The storage keys and the stored form of the configuration, pair information, registry and decimals are the ones already on chain, so a migrated contract reads its predecessor\'s state.',
 ['inputs','histories'],'all stored values','Tests write and read with the same code and start from empty storage.',['contracts/halo-pair/src/state.rs',FST,'contracts/halo-router/src/state.rs',AST],[('storage items',FST),('derived encodings',AST)],['storage content'],[])
prop('C54','Every contract records its identity and version',
 'Instantiating any of the four contracts records its contract name and the version of its package in the cw2 version record, and migrating the factory, the pair or the router records the same name and the version of the code migrated to. The four names are crates.io:halo-factory, crates.io:halo-pair, crates.io:halo-router and, for the LP token, crates.io:cw20-base. No other message changes the record.',
 ['inputs','histories'],'every instantiation and migration, and every later message','Tests never read the version record.',[PAIR,FAC,ROU,TOK],[('set_contract_version calls',FAC),('set_contract_version calls',PAIR),('set_contract_version calls',ROU),('set_contract_version calls',TOK)],['storage content'],[('contract_info','cw2 name and version of the contract','cw2')])
prop('C55','Every handler can be reached from the chain',
 'The code deployed for each contract exports instantiate, execute and query, for the factory, the pair and the router also migrate, and for every contract that asks for replies to its messages also reply. Each export runs the handler of that name.',
 ['programs'],'every contract build without the library feature','Unit tests call the handlers as Rust functions, whether or not the built contract exports them.',[PAIR,FAC,ROU,TOK],[('entry_point attributes',PAIR),('entry_point attributes',FAC),('entry_point attributes',ROU),('entry_point attributes',TOK)],['exports of the built contract'],[])
prop('C56','Requests that the rules allow are not refused',
 'As long as no storage access, lookup, address conversion or encoding fails, these succeed: instantiation and migration of the factory, the pair and the router; the owner\'s configuration updates and pair migrations; the registration of a created pair and of its LP token; a hop run by the router itself; the simulation of a route of at least one hop in either direction; the configuration, pool, pair and listing queries; and the lookups of registered pairs and decimals.',
 ['inputs','histories'],'every such request, state and answer','Tests try a few requests each from a fresh state.',[PAIR,FAC,ROU],[('entry points',PAIR),('entry points',FAC),('entry points',ROU)],['execute result','query result'],[])
with open(OUT,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
