//! Offline stand-in for pyth-sdk-solana 0.10.1: the account layout and the loader, as published.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}

pub mod state {
    use bytemuck::{CheckedBitPattern, NoUninit, Pod, PodCastError, Zeroable};
    use std::mem::size_of;

    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum PythError {
        InvalidAccountData,
        BadVersionNumber,
        WrongAccountType,
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
    #[repr(u8)]
    pub enum AccountType {
        #[default]
        Unknown,
        Mapping,
        Product,
        Price,
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
    #[repr(u8)]
    pub enum PriceStatus {
        #[default]
        Unknown,
        Trading,
        Halted,
        Auction,
        Ignored,
    }

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u8,
        pub pub_slot: u64,
    }

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: [u8; 32],
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }

    #[derive(Copy, Clone, Debug)]
    #[repr(C)]
    pub struct GenericPriceAccount<const N: usize> {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u32,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: [u8; 32],
        pub next: [u8; 32],
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; N],
    }
    pub type SolanaPriceAccount = GenericPriceAccount<32>;

    unsafe impl<const N: usize> Zeroable for GenericPriceAccount<N> {}
    unsafe impl<const N: usize> Pod for GenericPriceAccount<N> {}
    #[allow(unused)]
    fn _unused<T: NoUninit + CheckedBitPattern>() {}

    fn load<T: Pod>(data: &[u8]) -> Result<&T, PodCastError> {
        let size = size_of::<T>();
        if data.len() >= size {
            bytemuck::try_from_bytes(&data[0..size])
        } else {
            Err(PodCastError::SizeMismatch)
        }
    }

    pub fn load_price_account(data: &[u8]) -> Result<&SolanaPriceAccount, PythError> {
        let pyth_price =
            load::<SolanaPriceAccount>(data).map_err(|_| PythError::InvalidAccountData)?;
        if pyth_price.magic != MAGIC {
            return Err(PythError::InvalidAccountData);
        }
        if pyth_price.ver != VERSION_2 {
            return Err(PythError::BadVersionNumber);
        }
        if pyth_price.atype != AccountType::Price as u32 {
            return Err(PythError::WrongAccountType);
        }
        Ok(pyth_price)
    }
}
