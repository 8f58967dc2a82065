"""Sixth set of behaviour-preserving edits: bignumber, the haloswap package, the token contract and the factory's state."""
EDITS = {}
def E(name, *es): EDITS[name] = list(es)

# ---- bignumber
E("m6_ops_macro", ("math", """impl ops::Add for Decimal256 {
    type Output = Self;

    fn add(self, rhs: Self) -> Self {
        Decimal256(self.0 + rhs.0)
    }
}

impl ops::AddAssign for Decimal256 {
    fn add_assign(&mut self, rhs: Self) {
        self.0 = self.0 + rhs.0;
    }
}

impl ops::Sub for Decimal256 {
    type Output = Self;

    fn sub(self, rhs: Self) -> Self {
        assert!(self.0 >= rhs.0);
        Decimal256(self.0 - rhs.0)
    }
}
""", """macro_rules! impl_linear_ops {
    ($t:ident) => {
        impl ops::Add for $t {
            type Output = Self;

            fn add(self, rhs: Self) -> Self {
                $t(self.0 + rhs.0)
            }
        }

        impl ops::AddAssign for $t {
            fn add_assign(&mut self, rhs: Self) {
                *self = *self + rhs;
            }
        }

        impl ops::Sub for $t {
            type Output = Self;

            fn sub(self, rhs: Self) -> Self {
                assert!(self.0 >= rhs.0);
                $t(self.0 - rhs.0)
            }
        }
    };
}

impl_linear_ops!(Decimal256);
impl_linear_ops!(Uint256);
"""), ("math", """impl ops::Add for Uint256 {
    type Output = Self;

    fn add(self, rhs: Self) -> Self {
        Uint256(self.0 + rhs.0)
    }
}

impl ops::AddAssign for Uint256 {
    fn add_assign(&mut self, other: Self) {
        self.0 = self.0 + other.0;
    }
}

impl ops::Sub for Uint256 {
    type Output = Self;

    fn sub(self, rhs: Self) -> Self::Output {
        assert!(self.0 >= rhs.0);
        Uint256(self.0 - rhs.0)
    }
}
""", ""))
E("m6_from_ratio_assert", ("math", """        let nominator: U256 = nominator.into();
        let denominator: U256 = denominator.into();
        if denominator.is_zero() {
            panic!("Denominator must not be zero");
        }

        Decimal256(nominator * Decimal256::DECIMAL_FRACTIONAL / denominator)
""", """        let denominator: U256 = denominator.into();
        assert!(denominator != U256::zero(), "Denominator must not be zero");

        let scaled: U256 = nominator.into() * Self::DECIMAL_FRACTIONAL;
        Self(scaled / denominator)
"""))
E("m6_ratio_shared", ("math", """        let nominator: U256 = nominator.into();
        let denominator: U256 = denominator.into();
        if denominator.is_zero() {
            panic!("Denominator must not be zero");
        }

        Decimal256(nominator * Decimal256::DECIMAL_FRACTIONAL / denominator)
""", """        Decimal256(mul_div(
            nominator.into(),
            Decimal256::DECIMAL_FRACTIONAL,
            denominator.into(),
        ))
"""), ("math", """        let nominator: U256 = nom.into();
        let denominator: U256 = denom.into();
        if denominator.is_zero() {
            panic!("Denominator must not be zero");
        }

        // TODO: minimize rounding that takes place (using gcd algorithm)
        let val = self.0 * nominator / denominator;
        Uint256::from(val)
""", """        // TODO: minimize rounding that takes place (using gcd algorithm)
        Uint256(mul_div(self.0, nom.into(), denom.into()))
"""), ("math", """#[inline(always)]
fn split_u128(""", """fn mul_div(a: U256, b: U256, denominator: U256) -> U256 {
    match denominator.is_zero() {
        true => panic!("Denominator must not be zero"),
        false => a * b / denominator,
    }
}

#[inline(always)]
fn split_u128("""))
E("m6_dec_mul_uint", ("math", """        Decimal256(self.0 * rhs.0 / Decimal256::DECIMAL_FRACTIONAL)
""", """        let product = Uint256(self.0) * Uint256(rhs.0);
        Decimal256(product.multiply_ratio(1u64, Decimal256::DECIMAL_FRACTIONAL).0)
"""))
E("m6_dec_div_from_ratio", ("math", """        assert!(!rhs.is_zero());

        Decimal256(self.0 * Decimal256::DECIMAL_FRACTIONAL / rhs.0)
""", """        Decimal256::from_ratio(self.0, rhs.0)
"""))
E("m6_percent_mul", ("math", """        Decimal256(U256::from(x) * U256::from(10_000_000_000_000_000u64))
""", """        Decimal256::from_ratio(x, 100u64)
"""), ("math", """        Decimal256(U256::from(x) * U256::from(1_000_000_000_000_000u64))
""", """        Decimal256(U256::from(x) * (Decimal256::DECIMAL_FRACTIONAL / U256::from(1000u64)))
"""))
E("m6_percent_via_permille", ("math", """        Decimal256(U256::from(x) * U256::from(10_000_000_000_000_000u64))
""", """        let ten = U256::from(10u64);
        Decimal256(Self::permille(x).0 * ten)
"""))
E("m6_from_uint", ("math", """        let num: Uint256 = val.into();
        Decimal256(num.0 * Decimal256::DECIMAL_FRACTIONAL)
""", """        let Uint256(num) = val.into();
        Decimal256(Decimal256::DECIMAL_FRACTIONAL * num)
"""))
E("m6_zero_default", ("math", """    pub const fn zero() -> Decimal256 {
        Decimal256(U256([0, 0, 0, 0]))
    }
""", """    pub const fn zero() -> Decimal256 {
        const ZERO: U256 = U256([0; 4]);
        Decimal256(ZERO)
    }
"""), ("math", """    pub const fn one() -> Self {
        Uint256(U256([1, 0, 0, 0]))
    }
""", """    pub const fn one() -> Self {
        let mut limbs = [0u64; 4];
        limbs[0] = 1;
        Uint256(U256(limbs))
    }
"""))
E("m6_is_zero_all", ("math", """    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}

impl From<U256> for Uint256 {""", """    pub fn is_zero(&self) -> bool {
        let U256(limbs) = &self.0;
        limbs.iter().all(|limb| *limb == 0)
    }
}

impl From<U256> for Uint256 {"""))
E("m6_is_zero_eq", ("math", """    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}

impl From<Decimal> for Decimal256 {""", """    pub fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}

impl From<Decimal> for Decimal256 {"""))
E("m6_decimal_from_atomics", ("math", """        Decimal256::from_str(&val.to_string()).unwrap()
""", """        match Decimal256::from_str(val.to_string().as_str()) {
            Ok(converted) => converted,
            Err(e) => panic!("{}", e),
        }
"""))
E("m6_into_decimal_try", ("math", """impl From<Decimal256> for Decimal {
    fn from(n: Decimal256) -> Self {
        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);
        Decimal::from_str(&n.to_string()).unwrap()
    }
}
""", """impl From<Decimal256> for Decimal {
    fn from(n: Decimal256) -> Self {
        assert!(fits_128(&n.0));
        n.to_string().parse().unwrap()
    }
}

fn fits_128(value: &U256) -> bool {
    let U256(limbs) = value;
    limbs[2..].iter().all(|limb| *limb == 0)
}
"""), ("math", """        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)
""", """        assert!(fits_128(&n.0));

        let [low, hi, ..] = (n.0).0;
        (u128::from(hi) << 64) | u128::from(low)
"""))
E("m6_into_u128_as", ("math", """        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)
""", """        let mut value: u128 = 0;
        for i in (0..2).rev() {
            value = (value << 64) | arr[i] as u128;
        }
        value
"""))
E("m6_into_u128_max", ("math", """        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);
        ((hi as u128) << 64) + (low as u128)
""", """        let U256([low, hi, third, fourth]) = n.0;
        if third != 0 || fourth != 0 {
            panic!("overflow");
        }
        u128::from(hi) * (1u128 << 64) + u128::from(low)
"""))
E("m6_split_mod", ("math", """    ((a >> 64) as _, (a & 0xFFFFFFFFFFFFFFFF) as _)
""", """    const BASE: u128 = u64::MAX as u128 + 1;
    ((a / BASE) as u64, (a % BASE) as u64)
"""))
E("m6_split_trunc", ("math", """    ((a >> 64) as _, (a & 0xFFFFFFFFFFFFFFFF) as _)
""", """    let low = a as u64;
    let hi = (a >> 64) as u64;
    (hi, low)
"""))
E("m6_split_bytes", ("math", """        let (hi, low) = split_u128(val);
        Uint256(U256([low, hi, 0, 0]))
""", """        let mut limbs = [0u64; 4];
        let (hi, low) = split_u128(val);
        limbs[1] = hi;
        limbs[0] = low;
        Uint256(U256(limbs))
"""))
E("m6_try_from_parse", ("math", """        match U256::from_dec_str(val) {
            Ok(u) => Ok(Uint256(u)),
            Err(_e) => Err(StdError::generic_err(format!("invalid Uint256 '{}'", val))),
        }
    }
}

impl FromStr for Uint256 {""", """        val.parse()
            .map_err(|_: StdError| StdError::generic_err(format!("invalid Uint256 '{}'", val)))
    }
}

impl FromStr for Uint256 {"""))
E("m6_visit_parse", ("math", """        match U256::from_dec_str(v) {
            Ok(u) => Ok(Uint256(u)),
            Err(_e) => Err(E::custom(format!("invalid Uint256 '{}'", v))),
        }
""", """        Uint256::from_str(v).map_err(|_| E::custom(format!("invalid Uint256 '{}'", v)))
"""), ("math", """        match Decimal256::from_str(v) {
            Ok(d) => Ok(d),
            Err(e) => Err(E::custom(format!("Error parsing decimal '{}': {}", v, e))),
        }
""", """        let parsed: Result<Decimal256, _> = v.parse();
        parsed.map_err(|e| E::custom(format!("Error parsing decimal '{}': {}", v, e)))
"""))
E("m6_collect_str", ("math", """        serializer.serialize_str(&self.to_string())
    }
}

/// Deserializes as a base64 string
impl<'de> Deserialize<'de> for Uint256 {""", """        let text = String::from(*self);
        serializer.serialize_str(text.as_str())
    }
}

/// Deserializes as a base64 string
impl<'de> Deserialize<'de> for Uint256 {"""))
E("m6_display_fmt", ("math", """        write!(f, "{}", self.0)
""", """        f.write_str(&self.0.to_string())
"""))
E("m6_display_if_let", ("math", """        let whole = (self.0) / Decimal256::DECIMAL_FRACTIONAL;
        let fractional = (self.0) % Decimal256::DECIMAL_FRACTIONAL;

        if fractional.is_zero() {
            write!(f, "{}", whole)
        } else {
            let fractional_string = fractional.to_string();
            let fractional_string = "0".repeat(18 - fractional_string.len()) + &fractional_string;

            f.write_str(&whole.to_string())?;
            f.write_char('.')?;
            f.write_str(fractional_string.trim_end_matches('0'))?;

            Ok(())
        }
""", """        let whole = self.0 / Decimal256::DECIMAL_FRACTIONAL;
        let fractional = self.0 - whole * Decimal256::DECIMAL_FRACTIONAL;

        write!(f, "{}", whole)?;
        if fractional.is_zero() {
            return Ok(());
        }

        let digits = fractional.to_string();
        let mut padded = String::new();
        padded.push_str(&"0".repeat(18 - digits.len()));
        padded.push_str(&digits);

        f.write_char('.')?;
        f.write_str(padded.trim_end_matches('0'))
"""))
E("m6_display_string", ("math", """            f.write_str(&whole.to_string())?;
            f.write_char('.')?;
            f.write_str(fractional_string.trim_end_matches('0'))?;

            Ok(())
""", """            let text = [
                whole.to_string().as_str(),
                fractional_string.trim_end_matches('0'),
            ]
            .join(".");
            f.write_str(&text)
"""))
E("m6_fromstr_helper", ("math", """        let parts: Vec<&str> = input.split('.').collect();
        match parts.len() {
            1 => {
                let whole = U256::from_dec_str(parts[0])
                    .map_err(|_| StdError::generic_err("Error parsing whole"))?;

                let whole_as_atomics = whole * Decimal256::DECIMAL_FRACTIONAL;
                Ok(Decimal256(whole_as_atomics))
            }
            2 => {
                let whole = U256::from_dec_str(parts[0])
                    .map_err(|_| StdError::generic_err("Error parsing whole"))?;
                let fractional = U256::from_dec_str(parts[1])
                    .map_err(|_| StdError::generic_err("Error parsing fractional"))?;
                let exp = (18usize.checked_sub(parts[1].len())).ok_or_else(|| {
                    StdError::generic_err("Cannot parse more than 18 fractional digits")
                })?;
                let fractional_factor = U256::from(10).pow(exp.into());

                let whole_as_atomics = whole * Decimal256::DECIMAL_FRACTIONAL;
                let atomics = whole_as_atomics + fractional * fractional_factor;
                Ok(Decimal256(atomics))
            }
            _ => Err(StdError::generic_err("Unexpected number of dots")),
        }
""", """        fn parse_part(part: &str, what: &str) -> Result<U256, StdError> {
            U256::from_dec_str(part)
                .map_err(|_| StdError::generic_err(format!("Error parsing {}", what)))
        }

        let mut parts = input.split('.');
        let (whole, fractional) = match (parts.next(), parts.next(), parts.next()) {
            (Some(whole), fractional, None) => (whole, fractional),
            _ => return Err(StdError::generic_err("Unexpected number of dots")),
        };

        let mut atomics = parse_part(whole, "whole")? * Decimal256::DECIMAL_FRACTIONAL;
        if let Some(digits) = fractional {
            let value = parse_part(digits, "fractional")?;
            if digits.len() > 18 {
                return Err(StdError::generic_err(
                    "Cannot parse more than 18 fractional digits",
                ));
            }
            atomics = atomics + value * U256::from(10).pow((18 - digits.len()).into());
        }
        Ok(Decimal256(atomics))
"""))
E("m6_mul_commute", ("math", """        self.multiply_ratio(rhs.0, Decimal256::DECIMAL_FRACTIONAL)
    }
}

impl ops::Div<Decimal256> for Uint256 {""", """        Uint256(rhs.0 * self.0 / Decimal256::one().0)
    }
}

impl ops::Div<Decimal256> for Uint256 {"""))
E("m6_div_noshort", ("math", """        assert!(!rhs.is_zero());

        if self.is_zero() {
            return Uint256::zero();
        }

        self.multiply_ratio(Decimal256::DECIMAL_FRACTIONAL, rhs.0)
""", """        self.multiply_ratio(Decimal256::one().0, rhs.0)
"""))
E("m6_mul_match", ("math", """        // 0*a and b*0 is always 0
        if self.is_zero() || rhs.is_zero() {
            return Uint256::zero();
        }

        Uint256(self.0 * rhs.0)
""", """        match (self.is_zero(), rhs.is_zero()) {
            (false, false) => Uint256(self.0 * rhs.0),
            _ => Uint256::zero(),
        }
"""))
E("m6_sub_checked", ("math", """    fn sub(self, rhs: Self) -> Self::Output {
        assert!(self.0 >= rhs.0);
        Uint256(self.0 - rhs.0)
    }
""", """    fn sub(self, rhs: Self) -> Self::Output {
        if rhs > self {
            panic!("subtraction underflow");
        }
        let U256(_) = self.0;
        (self.0 - rhs.0).into()
    }
"""))
E("m6_u64_from", ("math", """        Uint256(val.into())
    }
}

impl TryFrom""", """        Uint256::from(u128::from(val))
    }
}

impl TryFrom"""))
E("m6_string_fmt", ("math", """        n.0.to_string()
    }
}

impl From<Uint256> for u128""", """        format!("{}", n)
    }
}

impl From<Uint256> for u128"""))

# ---- asset / querier
E("a6_smart_helper", ("querier", """    let res: Cw20BalanceResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::Balance {
            address: account_addr.to_string(),
        })?,
    }))?;

    // load balance form the token contract
    Ok(res.balance)
""", """    let msg = to_binary(&Cw20QueryMsg::Balance {
        address: account_addr.into_string(),
    })?;
    querier
        .query::<Cw20BalanceResponse>(&smart(&contract_addr, msg))
        .map(|res| res.balance)
"""), ("querier", """    let token_info: TokenInfoResponse = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg: to_binary(&Cw20QueryMsg::TokenInfo {})?,
    }))?;

    Ok(token_info)
""", """    querier.query(&smart(&contract_addr, to_binary(&Cw20QueryMsg::TokenInfo {})?))
"""), ("querier", """    querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: pair_contract.to_string(),
        msg: to_binary(&PairQueryMsg::Simulation {
            offer_asset: offer_asset.clone(),
        })?,
    }))
""", """    let msg = PairQueryMsg::Simulation {
        offer_asset: offer_asset.clone(),
    };
    querier.query(&smart(&pair_contract, to_binary(&msg)?))
"""), ("querier", """pub fn query_all_balances(""", """fn smart(contract_addr: &Addr, msg: cosmwasm_std::Binary) -> QueryRequest<cosmwasm_std::Empty> {
    WasmQuery::Smart {
        contract_addr: contract_addr.to_string(),
        msg,
    }
    .into()
}

pub fn query_all_balances("""))
E("a6_query_wasm_smart", ("querier", """    let pair_info: PairInfo = querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
        contract_addr: pair_contract.to_string(),
        msg: to_binary(&PairQueryMsg::Pair {})?,
    }))?;

    Ok(pair_info)
""", """    querier.query_wasm_smart(pair_contract, &PairQueryMsg::Pair {})
"""), ("querier", """    let res: NativeTokenDecimalsResponse =
        querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
            contract_addr: factory_contract.to_string(),
            msg: to_binary(&FactoryQueryMsg::NativeTokenDecimals { denom })?,
        }))?;
    Ok(res.decimals)
""", """    let NativeTokenDecimalsResponse { decimals } = querier.query_wasm_smart(
        factory_contract.as_str(),
        &FactoryQueryMsg::NativeTokenDecimals { denom },
    )?;
    Ok(decimals)
"""), ("querier", """    let balance: BalanceResponse = querier.query(&QueryRequest::Bank(BankQuery::Balance {
        address: account_addr.to_string(),
        denom,
    }))?;
    Ok(balance.amount.amount)
""", """    let Coin { amount, .. } = querier.query_balance(account_addr, denom)?;
    Ok(amount)
"""), ("querier", """    let all_balances: AllBalanceResponse =
        querier.query(&QueryRequest::Bank(BankQuery::AllBalances {
            address: account_addr.to_string(),
        }))?;
    Ok(all_balances.amount)
""", """    querier.query_all_balances(account_addr)
"""), ("querier", """use cosmwasm_std::{
    to_binary, Addr, AllBalanceResponse, BalanceResponse, BankQuery, Coin, QuerierWrapper,
    QueryRequest, StdResult, Uint128, WasmQuery,
};""", """use cosmwasm_std::{
    to_binary, Addr, Coin, QuerierWrapper, QueryRequest, StdResult, Uint128, WasmQuery,
};"""))
E("a6_funds_sum", ("asset", """            match message_info.funds.iter().find(|x| x.denom == *denom) {
                Some(coin) => {
                    if self.amount == coin.amount {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
                None => {
                    if self.amount.is_zero() {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
            }
        } else {
            Ok(())
        }
""", """            let sent = message_info
                .funds
                .iter()
                .find_map(|coin| (coin.denom == *denom).then(|| coin.amount))
                .unwrap_or_default();
            if sent != self.amount {
                return Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"));
            }
        }
        Ok(())
"""))
E("a6_funds_let_else", ("asset", """        if let AssetInfo::NativeToken { denom } = &self.info {
            match message_info""", """        let AssetInfo::NativeToken { denom } = &self.info else {
            return Ok(());
        };
        {
            match message_info"""), ("asset", """            }
        } else {
            Ok(())
        }
    }

    pub fn to_raw(&self, api: &dyn Api) -> StdResult<AssetRaw> {""", """            }
        }
    }

    pub fn to_raw(&self, api: &dyn Api) -> StdResult<AssetRaw> {"""))
E("a6_funds_position", ("asset", """            match message_info.funds.iter().find(|x| x.denom == *denom) {
                Some(coin) => {
                    if self.amount == coin.amount {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
                None => {
                    if self.amount.is_zero() {
                        Ok(())
                    } else {
                        Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred"))
                    }
                }
            }
""", """            let mut expected = Uint128::zero();
            for coin in &message_info.funds {
                if &coin.denom == denom {
                    expected = coin.amount;
                    break;
                }
            }
            match self.amount.cmp(&expected) {
                std::cmp::Ordering::Equal => Ok(()),
                _ => Err(StdError::generic_err("Native token balance mismatch between the argument and the transferred")),
            }
"""))
E("a6_equal_match", ("asset", """        match self {
            AssetInfo::Token { contract_addr, .. } => {
                let self_contract_addr = contract_addr;
                match asset {
                    AssetInfo::Token { contract_addr, .. } => self_contract_addr == contract_addr,
                    AssetInfo::NativeToken { .. } => false,
                }
            }
            AssetInfo::NativeToken { denom, .. } => {
                let self_denom = denom;
                match asset {
                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
""", """        self.is_native_token() == asset.is_native_token() && self.id() == asset.id()
"""), ("asset", """    pub fn is_native_token(&self) -> bool {
        match self {
            AssetInfo::NativeToken { .. } => true,
            AssetInfo::Token { .. } => false,
        }
    }
""", """    fn id(&self) -> &str {
        match self {
            AssetInfo::NativeToken { denom: id } | AssetInfo::Token { contract_addr: id } => id,
        }
    }

    pub fn is_native_token(&self) -> bool {
        !matches!(self, AssetInfo::Token { .. })
    }
"""))
E("a6_display_id", ("asset", """        match self {
            AssetInfo::NativeToken { denom } => write!(f, "{}", denom),
            AssetInfo::Token { contract_addr } => write!(f, "{}", contract_addr),
        }
""", """        let id = match self {
            AssetInfo::NativeToken { denom } => denom,
            AssetInfo::Token { contract_addr } => contract_addr,
        };
        f.write_str(id)
"""), ("asset", """        write!(f, "{}{}", self.amount, self.info)
""", """        fmt::Display::fmt(&self.amount, f)?;
        fmt::Display::fmt(&self.info, f)
"""))
E("a6_raw_delegate", ("asset", """        Ok(AssetRaw {
            info: match &self.info {
                AssetInfo::NativeToken { denom } => AssetInfoRaw::NativeToken {
                    denom: denom.to_string(),
                },
                AssetInfo::Token { contract_addr } => AssetInfoRaw::Token {
                    contract_addr: api.addr_canonicalize(contract_addr.as_str())?,
                },
            },
            amount: self.amount,
        })
""", """        let Asset { info, amount } = self;
        info.to_raw(api).map(|info| AssetRaw {
            info,
            amount: *amount,
        })
"""), ("asset", """        Ok(Asset {
            info: match &self.info {
                AssetInfoRaw::NativeToken { denom } => AssetInfo::NativeToken {
                    denom: denom.to_string(),
                },
                AssetInfoRaw::Token { contract_addr } => AssetInfo::Token {
                    contract_addr: api.addr_humanize(contract_addr)?.to_string(),
                },
            },
            amount: self.amount,
        })
""", """        let info = self.info.to_normal(api)?;
        Ok(Asset {
            amount: self.amount,
            info,
        })
"""))
E("a6_normal_try_map", ("asset", """        Ok(PairInfo {
            liquidity_token: api.addr_humanize(&self.liquidity_token)?.to_string(),
            contract_addr: api.addr_humanize(&self.contract_addr)?.to_string(),
            asset_infos: [
                self.asset_infos[0].to_normal(api)?,
                self.asset_infos[1].to_normal(api)?,
            ],
            asset_decimals: self.asset_decimals,
            requirements: self.requirements.clone(),
        })
""", """        let human = |addr: &CanonicalAddr| api.addr_humanize(addr).map(String::from);
        let [first, second] = &self.asset_infos;
        Ok(PairInfo {
            asset_infos: [first.to_normal(api)?, second.to_normal(api)?],
            contract_addr: human(&self.contract_addr)?,
            liquidity_token: human(&self.liquidity_token)?,
            asset_decimals: [self.asset_decimals[0], self.asset_decimals[1]],
            requirements: CreatePairRequirements {
                whitelist: self.requirements.whitelist.to_vec(),
                ..self.requirements.clone()
            },
        })
"""))
E("a6_pools_loop", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])
""", """        let mut pools = Vec::with_capacity(self.asset_infos.len());
        for raw in self.asset_infos.iter() {
            let info = raw.to_normal(api)?;
            let amount = info.query_pool(querier, api, contract_addr.clone())?;
            pools.push(Asset { info, amount });
        }
        let [first, second]: [Asset; 2] = pools
            .try_into()
            .map_err(|_| StdError::generic_err("two assets expected"))?;
        Ok([first, second])
"""))
E("a6_pools_collect", ("asset", """        let info_0: AssetInfo = self.asset_infos[0].to_normal(api)?;
        let info_1: AssetInfo = self.asset_infos[1].to_normal(api)?;
        Ok([
            Asset {
                amount: info_0.query_pool(querier, api, contract_addr.clone())?,
                info: info_0,
            },
            Asset {
                amount: info_1.query_pool(querier, api, contract_addr)?,
                info: info_1,
            },
        ])
""", """        let pool = |index: usize| -> StdResult<Asset> {
            let info = self.asset_infos[index].to_normal(api)?;
            info.query_pool(querier, api, contract_addr.clone())
                .map(|amount| Asset { info, amount })
        };
        Ok([pool(0)?, pool(1)?])
"""))
E("a6_into_msg_helper", ("asset", """        let amount = self.amount;

        match &self.info {
            AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.to_string(),
                msg: to_binary(&Cw20ExecuteMsg::Transfer {
                    recipient: recipient.to_string(),
                    amount,
                })?,
                funds: vec![],
            })),
            AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient.to_string(),
                amount: vec![Coin {
                    amount: self.amount,
                    denom: denom.to_string(),
                }],
            })),
        }
""", """        let Asset { info, amount } = self;

        Ok(match info {
            AssetInfo::NativeToken { denom } => BankMsg::Send {
                to_address: recipient.into_string(),
                amount: cosmwasm_std::coins(amount.u128(), denom),
            }
            .into(),
            AssetInfo::Token { contract_addr } => cosmwasm_std::wasm_execute(
                contract_addr,
                &Cw20ExecuteMsg::Transfer {
                    recipient: recipient.into_string(),
                    amount,
                },
                Vec::new(),
            )?
            .into(),
        })
"""), ("asset", """    to_binary, Addr, Api, BankMsg, CanonicalAddr, Coin, CosmosMsg,""", """    Addr, Api, BankMsg, CanonicalAddr, CosmosMsg,"""))
E("a6_submsg_map", ("asset", """        Ok(SubMsg::new(self.into_msg(recipient)?))
""", """        self.into_msg(recipient).map(SubMsg::new)
"""))
E("a6_decimals_map", ("asset", """                let token_info = query_token_info(querier, Addr::unchecked(contract_addr))?;
                Ok(token_info.decimals)
""", """                query_token_info(querier, Addr::unchecked(contract_addr.as_str()))
                    .map(|token_info| token_info.decimals)
"""))
E("a6_as_bytes_slice", ("asset", """            AssetInfoRaw::NativeToken { denom } => denom.as_bytes(),
            AssetInfoRaw::Token { contract_addr } => contract_addr.as_slice(),
""", """            Self::NativeToken { denom } => denom.as_str().as_bytes(),
            Self::Token { contract_addr } => &contract_addr.0,
"""))
E("a6_raw_equal", ("asset", """        match self {
            AssetInfoRaw::Token { contract_addr, .. } => {
                let self_contract_addr = contract_addr;
                match asset {
                    AssetInfoRaw::Token { contract_addr, .. } => {
                        self_contract_addr == contract_addr
                    }
                    AssetInfoRaw::NativeToken { .. } => false,
                }
            }
            AssetInfoRaw::NativeToken { denom, .. } => {
                let self_denom = denom;
                match asset {
                    AssetInfoRaw::Token { .. } => false,
                    AssetInfoRaw::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
""", """        match (self, asset) {
            (AssetInfoRaw::Token { contract_addr: a }, AssetInfoRaw::Token { contract_addr: b }) => {
                a.as_slice().eq(b.as_slice())
            }
            (AssetInfoRaw::NativeToken { denom: a }, AssetInfoRaw::NativeToken { denom: b }) => {
                a.as_bytes() == b.as_bytes()
            }
            (AssetInfoRaw::Token { .. }, _) | (AssetInfoRaw::NativeToken { .. }, _) => false,
        }
"""))

# ---- token
E("t6_validate_chain", ("token", """        // Check name, symbol, decimals
        if !is_valid_name(&self.name) {
            return Err(StdError::generic_err(
                "Name is not in the expected format (3-50 UTF-8 bytes)",
            ));
        }
        if !is_valid_symbol(&self.symbol) {
            return Err(StdError::generic_err(
                "Ticker symbol is not in expected format [a-zA-Z\\\\-]{3,12}",
            ));
        }
        if self.decimals > 18 {
            return Err(StdError::generic_err("Decimals must not exceed 18"));
        }
        Ok(())
""", """        let checks: [(bool, &str); 3] = [
            (
                is_valid_name(&self.name),
                "Name is not in the expected format (3-50 UTF-8 bytes)",
            ),
            (
                is_valid_symbol(&self.symbol),
                "Ticker symbol is not in expected format [a-zA-Z\\\\-]{3,12}",
            ),
            (self.decimals <= 18, "Decimals must not exceed 18"),
        ];
        match checks.iter().find(|(valid, _)| !valid) {
            Some((_, reason)) => Err(StdError::generic_err(*reason)),
            None => Ok(()),
        }
"""))
E("t6_name_range", ("token", """    let bytes = name.as_bytes();
    if bytes.len() < 3 || bytes.len() > 50 {
        return false;
    }
    true
""", """    (3..51).contains(&name.len())
"""), ("token", """    let bytes = symbol.as_bytes();
    if bytes.len() < 3 || bytes.len() > 12 {
        return false;
    }
    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
""", """    matches!(symbol.len(), 3..=12)
        && symbol
            .bytes()
            .all(|byte| byte == b'-' || byte.is_ascii_alphabetic())
"""))
E("t6_symbol_any", ("token", """    for byte in bytes.iter() {
        if (*byte != 45) && (*byte < 65 || *byte > 90) && (*byte < 97 || *byte > 122) {
            return false;
        }
    }
    true
""", """    !bytes
        .iter()
        .copied()
        .map(|byte| byte.to_ascii_lowercase())
        .any(|byte| byte != b'-' && !byte.is_ascii_lowercase())
"""))
E("t6_cap_match", ("token", """        self.mint.as_ref().and_then(|v| v.cap)
""", """        match self.mint {
            Some(MinterResponse { cap, .. }) => cap,
            None => None,
        }
"""))
E("t6_inst_let", ("tokc", """    // convert initial_balances to slice of Cw20Coin
    let initial_balances_slice = msg.initial_balances.as_slice();

    // create initial accounts
    let total_supply = create_accounts(&mut deps, initial_balances_slice)?;

    if let Some(limit) = msg.get_cap() {
        if total_supply > limit {
            return Err(ContractError::Std(StdError::generic_err(
                "Initial supply greater than cap",
            )));
        }
    }

    let mint = match msg.mint {
        Some(m) => Some(MinterData {
            minter: deps.api.addr_validate(&m.minter)?,
            cap: m.cap,
        }),
        None => None,
    };
""", """    let cap = msg.get_cap();
    let InstantiateMsg {
        name,
        symbol,
        decimals,
        initial_balances,
        mint,
    } = msg;

    // create initial accounts
    let total_supply = create_accounts(&mut deps, &initial_balances)?;
    if matches!(cap, Some(limit) if limit < total_supply) {
        return Err(StdError::generic_err("Initial supply greater than cap").into());
    }

    let mint = mint
        .map(|m| -> StdResult<MinterData> {
            Ok(MinterData {
                minter: deps.api.addr_validate(&m.minter)?,
                cap: m.cap,
            })
        })
        .transpose()?;
"""), ("tokc", """        name: msg.name,
        symbol: msg.symbol,
        decimals: msg.decimals,
        total_supply,""", """        name,
        symbol,
        decimals,
        total_supply,"""))
E("t6_cap_first", ("tokc", """    let mint = match msg.mint {
        Some(m) => Some(MinterData {
            minter: deps.api.addr_validate(&m.minter)?,
            cap: m.cap,
        }),
        None => None,
    };

    // store token info
    let data = TokenInfo {
        name: msg.name,
        symbol: msg.symbol,
        decimals: msg.decimals,
        total_supply,
        mint,
    };

    TOKEN_INFO.save(deps.storage, &data)?;
    Ok(Response::default())
""", """    let mut data = TokenInfo {
        name: msg.name,
        symbol: msg.symbol,
        decimals: msg.decimals,
        total_supply,
        mint: None,
    };
    if let Some(m) = msg.mint {
        let minter = deps.api.addr_validate(&m.minter)?;
        data.mint.replace(MinterData { minter, cap: m.cap });
    }

    // store token info
    TOKEN_INFO
        .save(deps.storage, &data)
        .map(|()| Response::new())
        .map_err(ContractError::Std)
"""))

# ---- factory state
E("f6_key_if", ("fstate", """pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}
""", """pub fn pair_key([first, second]: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let (low, high) = if first.as_bytes() <= second.as_bytes() {
        (first, second)
    } else {
        (second, first)
    };
    let mut key = low.as_bytes().to_vec();
    key.extend_from_slice(high.as_bytes());
    key
}
"""))
E("f6_key_min_max", ("fstate", """pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let mut asset_infos = asset_infos.to_vec();
    asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

    [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
}
""", """pub fn pair_key(asset_infos: &[AssetInfoRaw; 2]) -> Vec<u8> {
    let (a, b) = (asset_infos[0].as_bytes(), asset_infos[1].as_bytes());
    let low = std::cmp::min(a, b);
    let high = std::cmp::max(a, b);
    low.iter().chain(high.iter()).copied().collect()
}
"""), ("fstate", """    start_after.map(|asset_infos| {
        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
    })
""", """    start_after.as_ref().map(pair_key)
"""))
E("f6_read_loop", ("fstate", """    PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()
""", """    let mut entries = PAIRS.range(storage, start, None, Order::Ascending);
    let mut pairs: Vec<PairInfo> = vec![];
    while pairs.len() < limit {
        let Some(entry) = entries.next() else { break };
        pairs.push(entry?.1.to_normal(api)?);
    }
    Ok(pairs)
"""))
E("f6_read_enumerate", ("fstate", """    PAIRS
        .range(storage, start, None, Order::Ascending)
        .take(limit)
        .map(|item| {
            let (_, v) = item?;
            v.to_normal(api)
        })
        .collect::<StdResult<Vec<PairInfo>>>()
""", """    let mut pairs = Vec::with_capacity(limit);
    for (index, item) in PAIRS
        .range(storage, start, None, Order::Ascending)
        .enumerate()
    {
        if index >= limit {
            break;
        }
        let (_key, raw) = item?;
        pairs.push(raw.to_normal(api)?);
    }
    Ok(pairs)
"""))
E("f6_limit_match", ("fstate", """    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;
    let start = calc_range_start(start_after).map(Bound::ExclusiveRaw);
""", """    let limit = match limit {
        None => DEFAULT_LIMIT,
        Some(n) if n > MAX_LIMIT => MAX_LIMIT,
        Some(n) => n,
    };
    let limit = usize::try_from(limit).unwrap_or(usize::MAX);
    let start = match calc_range_start(start_after) {
        Some(key) => Some(Bound::ExclusiveRaw(key)),
        None => None,
    };
"""))
E("f6_denom_key", ("fstate", """    ALLOW_NATIVE_TOKENS.save(storage, denom.as_bytes(), &decimals)
}

#[cfg(test)]""", """    let key = denom.into_bytes();
    ALLOW_NATIVE_TOKENS.save(storage, &key, &decimals)?;
    Ok(())
}

#[cfg(test)]"""))

# ---- router operations
E("r6_query_pool", ("ops", """            let amount = match offer_asset_info.clone() {
                AssetInfo::NativeToken { denom } => {
                    query_balance(&deps.querier, env.contract.address, denom)?
                }
                AssetInfo::Token { contract_addr } => query_token_balance(
                    &deps.querier,
                    deps.api.addr_validate(contract_addr.as_str())?,
                    env.contract.address,
                )?,
            };
""", """            let amount =
                offer_asset_info.query_pool(&deps.querier, deps.api, env.contract.address)?;
"""), ("ops", "use haloswap::querier::{query_balance, query_pair_info, query_token_balance};", "use haloswap::querier::query_pair_info;"))
E("r6_one_shape", ("ops", """    match offer_asset.info.clone() {
        AssetInfo::NativeToken { denom } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: pair_contract.to_string(),
            funds: vec![Coin {
                denom,
                amount: offer_asset.amount,
            }],
            msg: to_binary(&PairHookMsg::Swap {
                belief_price: None,
                max_spread,
                to,
            })?,
        })),
        AssetInfo::Token { contract_addr } => Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr,
            funds: vec![],
            msg: to_binary(&Cw20ExecuteMsg::Send {
                contract: pair_contract.to_string(),
                amount: offer_asset.amount,
                msg: to_binary(&PairHookMsg::Swap {
                    belief_price: None,
                    max_spread,
                    to,
                })?,
            })?,
        })),
    }
""", """    let Asset { info, amount } = offer_asset;
    let swap = to_binary(&PairHookMsg::Swap {
        belief_price: None,
        max_spread,
        to,
    })?;

    let (contract_addr, funds, msg) = match info {
        AssetInfo::NativeToken { denom } => {
            (pair_contract.into_string(), vec![Coin { denom, amount }], swap)
        }
        AssetInfo::Token { contract_addr } => {
            let send = Cw20ExecuteMsg::Send {
                contract: pair_contract.into_string(),
                amount,
                msg: swap,
            };
            (contract_addr, vec![], to_binary(&send)?)
        }
    };

    Ok(WasmMsg::Execute {
        contract_addr,
        msg,
        funds,
    }
    .into())
"""))
E("r6_into_cosmos", ("ops", """            vec![asset_into_swap_msg(
                deps.as_ref(),
                Addr::unchecked(pair_info.contract_addr),
                offer_asset,
                None,
                to,
            )?]
        }
    };

    Ok(Response::new().add_messages(messages))
""", """            let PairInfo { contract_addr, .. } = pair_info;
            let message = asset_into_swap_msg(
                deps.as_ref(),
                Addr::unchecked(&contract_addr),
                offer_asset,
                None,
                to,
            )?;
            std::iter::once(message).collect()
        }
    };

    let mut response = Response::new();
    for message in messages {
        response = response.add_message(message);
    }
    Ok(response)
"""))
E("r6_sender_ne", ("ops", """    if env.contract.address != info.sender {
        return Err(StdError::generic_err("unauthorized"));
    }

    let messages: Vec<CosmosMsg> = match operation {
        SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } => {
            let config: Config = CONFIG.load(deps.as_ref().storage)?;
            let halo_factory = deps.api.addr_humanize(&config.halo_factory)?;
            let pair_info: PairInfo = query_pair_info(
                &deps.querier,
                halo_factory,
                &[offer_asset_info.clone(), ask_asset_info],
            )?;
""", """    info.sender
        .eq(&env.contract.address)
        .then_some(())
        .ok_or_else(|| StdError::generic_err("unauthorized"))?;

    let messages: Vec<CosmosMsg> = match operation {
        SwapOperation::HaloSwap {
            offer_asset_info,
            ask_asset_info,
        } => {
            let Config { halo_factory, .. } = CONFIG.load(deps.storage)?;
            let asset_infos = [offer_asset_info.clone(), ask_asset_info];
            let pair_info: PairInfo = query_pair_info(
                &deps.querier,
                deps.api.addr_humanize(&halo_factory)?,
                &asset_infos,
            )?;
"""))
