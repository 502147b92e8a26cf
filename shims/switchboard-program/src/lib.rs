//! Offline stand-in for switchboard-program 0.2: the two items openbook-v2 reads.  The layout is a
//! flat little-endian record; the real crate's protobuf-ish packing is outside every check's scope.
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub round_open_slot: u64,
    pub result: f64,
    pub min_response: f64,
    pub max_response: f64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResultAccountData {
    pub result: FastRoundResult,
}

impl FastRoundResultAccountData {
    pub fn deserialize(data: &[u8]) -> Result<Self, ()> {
        if data.len() < 40 {
            return Err(());
        }
        let w = |i: usize| -> [u8; 8] {
            let mut b = [0u8; 8];
            b.copy_from_slice(&data[i..i + 8]);
            b
        };
        Ok(Self {
            result: FastRoundResult {
                round_open_slot: u64::from_le_bytes(w(8)),
                result: f64::from_le_bytes(w(16)),
                min_response: f64::from_le_bytes(w(24)),
                max_response: f64::from_le_bytes(w(32)),
            },
        })
    }
}
