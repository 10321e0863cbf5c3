//! Array keys of three and more elements.
use crate::h_key::split_join;
crate::harness! {
    k_a3[20] { split_join::<[u8; 3]>() }
    k_a4[20] { split_join::<[u8; 4]>() }
    k_a5[20] { split_join::<[u8; 5]>() }
    k_a6[20] { split_join::<[u8; 6]>() }
    k_a7[20] { split_join::<[u8; 7]>() }
    k_a8[20] { split_join::<[u8; 8]>() }
    k_a16[20] { split_join::<[u8; 16]>() }
    k_a3w[20] { split_join::<[u16; 3]>() }
    k_a4w[20] { split_join::<[i32; 4]>() }
    k_a5s[20] { split_join::<[i8; 5]>() }
}
