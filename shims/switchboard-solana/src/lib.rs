//! Offline stand-in for switchboard-solana 0.29: the items openbook-v2 reads from a v2 aggregator.
use bytemuck::{Pod, Zeroable};

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct SwitchboardDecimal {
    pub value: f64,
}
unsafe impl Zeroable for SwitchboardDecimal {}
unsafe impl Pod for SwitchboardDecimal {}

#[derive(Debug)]
pub struct SwitchboardError;
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("switchboard")
    }
}

impl TryInto<f64> for SwitchboardDecimal {
    type Error = SwitchboardError;
    fn try_into(self) -> Result<f64, SwitchboardError> {
        Ok(self.value)
    }
}

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub min_oracle_results: u32,
    pub round_open_slot: u64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
}
unsafe impl Zeroable for AggregatorRound {}
unsafe impl Pod for AggregatorRound {}

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct AggregatorAccountData {
    pub latest_confirmed_round: AggregatorRound,
}
unsafe impl Zeroable for AggregatorAccountData {}
unsafe impl Pod for AggregatorAccountData {}

impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        if self.latest_confirmed_round.min_oracle_results > self.latest_confirmed_round.num_success {
            return Err(SwitchboardError);
        }
        Ok(self.latest_confirmed_round.result)
    }
}
