//! Shared generators.
use crate::oracle::Numeral;
use proptest::prelude::*;

/// Integers dense where plural rules and number conversions change behaviour.
pub fn int_part() -> BoxedStrategy<u64> {
    prop_oneof![
        5 => 0u64..=130,
        3 => 0u64..=20_000,
        4 => (1u32..=18, 0u64..=99, 0u64..=220).prop_map(|(k, a, b)| a.saturating_mul(10u64.pow(k)).saturating_add(b)),
        3 => (2u32..=16, 0u64..=1200).prop_map(|(k, a)| a.saturating_mul(10u64.pow(k))),
        3 => (any::<u64>(), 0u32..64).prop_map(|(x, s)| x >> s),
        2 => (0u32..64, 0u64..=6).prop_map(|(k, d)| (1u64 << k).wrapping_add(d).wrapping_sub(3)),
        2 => (0u32..=19, 0u64..=6).prop_map(|(k, d)| 10u64.saturating_pow(k).wrapping_add(d).wrapping_sub(3)),
        1 => (0u64..=40).prop_map(|d| u64::MAX - d),
        1 => (0u64..=40).prop_map(|d| (1u64 << 53) + d - 20),
        1 => (0u64..=40).prop_map(|d| (1u64 << 63) + d - 20),
        3 => crate::dict::int(),
    ]
    .boxed()
}

/// Fraction digits, 1 to `max` of them.
pub fn frac_digits(max: usize) -> BoxedStrategy<String> {
    let max = max.max(1);
    prop_oneof![
        4 => prop::collection::vec(0u8..10, 1..=max.min(3)),
        2 => prop::collection::vec(0u8..10, 1..=max),
        2 => (prop::collection::vec(0u8..10, 1..=max.min(4)), 0usize..=max).prop_map(move |(mut d, z)| {
            let z = z.min(max - d.len());
            d.extend(std::iter::repeat(0).take(z));
            d
        }),
        1 => (0usize..max, 1u8..10, 0usize..max).prop_map(move |(lead, x, tail)| {
            let mut d = vec![0u8; lead];
            d.push(x);
            let z = tail.min(max - d.len());
            d.extend(std::iter::repeat(0).take(z));
            d
        }),
        1 => (1usize..=max).prop_map(|z| vec![0u8; z]),
        1 => (crate::dict::int(), 0usize..4, 0usize..4).prop_map(move |(x, lead, tail)| {
            let mut d = vec![0u8; lead];
            d.extend(x.to_string().bytes().map(|b| b - b'0'));
            d.extend(vec![0u8; tail]);
            d.truncate(max);
            d
        }),
        1 => (crate::dict::len(max), 0u8..10, 0u8..10).prop_map(|(n, x, y)| {
            let mut d = vec![x; n.max(1)];
            *d.last_mut().unwrap() = y;
            d
        }),
    ]
    .prop_map(|d| d.into_iter().map(|x| (b'0' + x) as char).collect())
    .boxed()
}

/// Numerals that a double separates from their neighbours: at most 15 significant digits when there is a
/// non-zero fraction; any 64-bit integer and any number of trailing zeros otherwise.
pub fn exact_numeral() -> BoxedStrategy<Numeral> {
    prop_oneof![
        4 => int_part().prop_map(Numeral::int),
        5 => (int_part(), frac_digits(14)).prop_map(|(i, f)| {
            let i = if i >= 100_000_000_000_000 { i % 1_000_000_000 } else { i };
            let int = i.to_string();
            let room = 15 - int.len();
            let f: String = f.chars().take(room).collect();
            Numeral { int, frac: Some(f) }
        }),
        1 => (int_part(), 1usize..=30).prop_map(|(i, z)| Numeral { int: i.to_string(), frac: Some("0".repeat(z)) }),
        1 => (int_part(), frac_digits(4), 0usize..=12).prop_map(|(i, f, z)| {
            let i = i % 1_000_000_000;
            Numeral { int: i.to_string(), frac: Some(format!("{}{}", f, "0".repeat(z))) }
        }),
    ]
    .boxed()
}
