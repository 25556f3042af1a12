//! The contracts' public data types, as an outside client sees them.
use soroban_sdk::{contracttype, Address, BytesN, String, Vec};

#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokenInitInfo {
    pub token_a: Address,
    pub token_b: Address,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StakeInitInfo {
    pub min_bond: i128,
    pub min_reward: i128,
    pub manager: Address,
    pub max_complexity: u32,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LiquidityPoolInitInfo {
    pub admin: Address,
    pub swap_fee_bps: i64,
    pub fee_recipient: Address,
    pub max_allowed_slippage_bps: i64,
    pub default_slippage_bps: i64,
    pub max_allowed_spread_bps: i64,
    pub max_referral_bps: i64,
    pub token_init_info: TokenInitInfo,
    pub stake_init_info: StakeInitInfo,
}
#[contracttype]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum PoolType {
    Xyk = 0,
    Stable = 1,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XykConfig {
    pub token_a: Address,
    pub token_b: Address,
    pub share_token: Address,
    pub stake_contract: Address,
    pub pool_type: PoolType,
    pub total_fee_bps: i64,
    pub fee_recipient: Address,
    pub max_allowed_slippage_bps: i64,
    pub max_allowed_spread_bps: i64,
    pub max_referral_bps: i64,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StableConfig {
    pub token_a: Address,
    pub token_b: Address,
    pub share_token: Address,
    pub stake_contract: Address,
    pub pool_type: PoolType,
    pub total_fee_bps: i64,
    pub fee_recipient: Address,
    pub max_allowed_slippage_bps: i64,
    pub default_slippage_bps: i64,
    pub max_allowed_spread_bps: i64,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Asset {
    pub address: Address,
    pub amount: i128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolResponse {
    pub asset_a: Asset,
    pub asset_b: Asset,
    pub asset_lp_share: Asset,
    pub stake_address: Address,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LiquidityPoolInfo {
    pub pool_address: Address,
    pub pool_response: PoolResponse,
    pub total_fee_bps: i64,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimulateSwapResponse {
    pub ask_amount: i128,
    pub commission_amount: i128,
    pub spread_amount: i128,
    pub total_return: i128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimulateReverseSwapResponse {
    pub offer_amount: i128,
    pub commission_amount: i128,
    pub spread_amount: i128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HopSim {
    pub ask_amount: i128,
    pub commission_amounts: Vec<(String, i128)>,
    pub spread_amount: Vec<i128>,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HopRevSim {
    pub offer_amount: i128,
    pub commission_amounts: Vec<(String, i128)>,
    pub spread_amount: Vec<i128>,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Swap {
    pub ask_asset: Address,
    pub offer_asset: Address,
    pub ask_asset_min_amount: Option<i128>,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FactoryConfig {
    pub admin: Address,
    pub multihop_address: Address,
    pub lp_wasm_hash: BytesN<32>,
    pub stake_wasm_hash: BytesN<32>,
    pub token_wasm_hash: BytesN<32>,
    pub whitelisted_accounts: Vec<Address>,
    pub lp_token_decimals: u32,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LpPortfolio {
    pub assets: (Asset, Asset),
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stake {
    pub stake: i128,
    pub stake_timestamp: u64,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StakePortfolio {
    pub staking_contract: Address,
    pub stakes: Vec<Stake>,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UserPortfolio {
    pub lp_portfolio: Vec<LpPortfolio>,
    pub stake_portfolio: Vec<StakePortfolio>,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StakeConfig {
    pub lp_token: Address,
    pub min_bond: i128,
    pub min_reward: i128,
    pub manager: Address,
    pub owner: Address,
    pub max_complexity: u32,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StakeConfigResponse {
    pub config: StakeConfig,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StakedResponse {
    pub stakes: Vec<Stake>,
    pub total_stake: i128,
    pub last_reward_time: u64,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WithdrawableReward {
    pub reward_address: Address,
    pub reward_amount: u128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WithdrawableRewardsResponse {
    pub rewards: Vec<WithdrawableReward>,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BondingInfo {
    pub stakes: Vec<Stake>,
    pub reward_debt: u128,
    pub last_reward_time: u64,
    pub total_stake: i128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RewardsConfig {
    pub staking_contract: Address,
    pub reward_token: Address,
    pub max_complexity: u32,
    pub min_reward: i128,
    pub min_bond: i128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RewardsConfigResponse {
    pub config: RewardsConfig,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AnnualizedRewardResponse {
    pub asset: Address,
    pub amount: String,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VestingTokenInfo {
    pub name: String,
    pub symbol: String,
    pub decimals: u32,
    pub address: Address,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VestingSchedule {
    pub recipient: Address,
    pub curve: Curve,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VestingInfo {
    pub balance: u128,
    pub recipient: Address,
    pub schedule: Curve,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MinterInfo {
    pub address: Address,
    pub mint_capacity: u128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NamedAsset {
    pub symbol: String,
    pub amount: i128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BalanceInfo {
    pub output_token: NamedAsset,
    pub token_a: NamedAsset,
    pub token_b: NamedAsset,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OutputTokenInfo {
    pub address: Address,
    pub name: String,
    pub symbol: String,
    pub decimal: u32,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Curve {
    Constant(u128),
    SaturatingLinear(SaturatingLinear),
    PiecewiseLinear(PiecewiseLinear),
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SaturatingLinear {
    pub min_x: u64,
    pub min_y: u128,
    pub max_x: u64,
    pub max_y: u128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub time: u64,
    pub value: u128,
}
#[contracttype]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PiecewiseLinear {
    pub steps: Vec<Step>,
}
