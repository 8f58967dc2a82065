//! Pairs of equivalent functions (a_x, b_x): the analysis must give them equal results. Used by tools/zoo.py.
#![allow(dead_code, unused, clippy::all)]
use cosmwasm_std::*;
use haloswap::asset::*;
use bignumber::{Decimal256, Uint256};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::str::FromStr;

macro_rules! pair {
    ($a:ident, $b:ident, ($($p:ident : $t:ty),*) -> $r:ty, $x:expr, $y:expr) => {
        pub fn $a($($p: $t),*) -> $r { $x }
        pub fn $b($($p: $t),*) -> $r { $y }
    };
}

pair!(a_once, b_once, (x: u64) -> Vec<u64>, vec![x], std::iter::once(x).collect());
pair!(a_once_res, b_once_res, (x: StdResult<u64>) -> StdResult<Vec<u64>>, x.map(|v| vec![v]), std::iter::once(x).collect());
pair!(a_once_chain, b_once_chain, (x: u64, y: u64) -> Vec<u64>, vec![x, y], std::iter::once(x).chain(std::iter::once(y)).collect());
pair!(a_empty, b_empty, (x: u64) -> Vec<u64>, vec![x], std::iter::empty().chain(Some(x)).collect());
pair!(a_repeat, b_repeat, (x: u64) -> Vec<u64>, vec![x, x], std::iter::repeat(x).take(2).collect());
pair!(a_opt_chain, b_opt_chain, (x: u64, y: Option<u64>) -> Vec<u64>, { let mut v = vec![x]; if let Some(y) = y { v.push(y) }; v }, { let mut v = vec![x]; v.extend(y); v });
pair!(a_opt_iter, b_opt_iter, (x: Option<u64>) -> Vec<u64>, match x { Some(x) => vec![x], None => vec![] }, x.into_iter().collect());
pair!(a_zip, b_zip, (x: [u64; 2], y: [u64; 2]) -> Vec<(u64, u64)>, vec![(x[0], y[0]), (x[1], y[1])], x.into_iter().zip(y).collect());
pair!(a_zip_ref, b_zip_ref, (x: [u64; 2], y: [u64; 2]) -> bool, x[0] < y[0] && x[1] < y[1], x.iter().zip(y.iter()).all(|(a, b)| a < b));
pair!(a_any, b_any, (x: [u64; 2], y: u64) -> bool, x[0] == y || x[1] == y, x.iter().any(|v| *v == y));
pair!(a_contains, b_contains, (x: [u64; 2], y: u64) -> bool, x[0] == y || x[1] == y, x.contains(&y));
pair!(a_pos, b_pos, (x: [u64; 2], y: u64) -> Option<usize>, if x[0] == y { Some(0) } else if x[1] == y { Some(1) } else { None }, x.iter().position(|v| *v == y));
pair!(a_rpos, b_rpos, (x: [u64; 2], y: u64) -> Option<usize>, if x[1] == y { Some(1) } else if x[0] == y { Some(0) } else { None }, x.iter().rposition(|v| *v == y));
pair!(a_find, b_find, (x: [u64; 2], y: u64) -> Option<u64>, if x[0] > y { Some(x[0]) } else if x[1] > y { Some(x[1]) } else { None }, x.iter().find(|v| **v > y).copied());
pair!(a_find_map, b_find_map, (x: [u64; 2], y: u64) -> Option<u64>, if x[0] > y { Some(x[0] - y) } else if x[1] > y { Some(x[1] - y) } else { None }, x.iter().find_map(|v| v.checked_sub(y).filter(|d| *d > 0)));
pair!(a_filter, b_filter, (x: [u64; 2], y: u64) -> Vec<u64>, { let mut v = vec![]; if x[0] > y { v.push(x[0]) } if x[1] > y { v.push(x[1]) } v }, x.iter().copied().filter(|v| *v > y).collect());
pair!(a_filter_map, b_filter_map, (x: [Option<u64>; 2]) -> Vec<u64>, { let mut v = vec![]; if let Some(a) = x[0] { v.push(a) } if let Some(a) = x[1] { v.push(a) } v }, x.iter().filter_map(|v| *v).collect());
pair!(a_flatten, b_flatten, (x: [Option<u64>; 2]) -> Vec<u64>, { let mut v = vec![]; if let Some(a) = x[0] { v.push(a) } if let Some(a) = x[1] { v.push(a) } v }, x.into_iter().flatten().collect());
pair!(a_flat_map, b_flat_map, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[0], x[1], x[1]], x.iter().flat_map(|v| vec![*v, *v]).collect());
pair!(a_fold, b_fold, (x: [u128; 2]) -> u128, x[0].max(x[1]), x.iter().fold(0, |a, v| if *v > a { *v } else { a }));
pair!(a_try_fold, b_try_fold, (x: [u64; 2]) -> Option<u64>, match x[0].checked_add(x[1]) { Some(v) => Some(v), None => None }, x.iter().try_fold(0u64, |a, v| a.checked_add(*v)));
pair!(a_reduce, b_reduce, (x: [u64; 2]) -> Option<u64>, Some(if x[0] < x[1] { x[0] } else { x[1] }), x.into_iter().reduce(|a, b| if a < b { a } else { b }));
pair!(a_min, b_min, (x: [u64; 2]) -> Option<u64>, Some(if x[0] < x[1] { x[0] } else { x[1] }), x.iter().min().copied());
pair!(a_max, b_max, (x: [u64; 2]) -> u64, if x[0] < x[1] { x[1] } else { x[0] }, *x.iter().max().unwrap());
pair!(a_min_by, b_min_by, (x: [u64; 2]) -> u64, if x[0] < x[1] { x[0] } else { x[1] }, *x.iter().min_by(|a, b| a.cmp(b)).unwrap());
pair!(a_min_by_key, b_min_by_key, (x: [(u64, u64); 2]) -> u64, if x[1].0 < x[0].0 { x[1].1 } else { x[0].1 }, x.iter().min_by_key(|a| a.0).unwrap().1);
pair!(a_max_by_key, b_max_by_key, (x: [(u64, u64); 2]) -> u64, if x[1].0 >= x[0].0 { x[1].1 } else { x[0].1 }, x.iter().max_by_key(|a| a.0).unwrap().1);
pair!(a_sum, b_sum, (x: [Uint128; 2]) -> Uint128, Uint128::zero() + x[0] + x[1], x.iter().sum());
pair!(a_sum64, b_sum64, (x: [u64; 2]) -> u64, x[0] + x[1], x.iter().sum());
pair!(a_sum_own, b_sum_own, (x: [Uint128; 2]) -> Uint128, Uint128::zero() + x[0] + x[1], x.into_iter().sum());
pair!(a_count, b_count, (x: [u64; 2], y: u64) -> usize, (if x[0] == y { 1 } else { 0 }) + (if x[1] == y { 1 } else { 0 }), x.iter().filter(|v| **v == y).count());
pair!(a_last, b_last, (x: [u64; 2]) -> Option<u64>, Some(x[1]), x.iter().last().copied());
pair!(a_nth, b_nth, (x: [u64; 2]) -> Option<u64>, Some(x[1]), x.iter().nth(1).copied());
pair!(a_rev, b_rev, (x: [u64; 2]) -> Vec<u64>, vec![x[1], x[0]], x.iter().rev().copied().collect());
pair!(a_skip, b_skip, (x: [u64; 3]) -> Vec<u64>, vec![x[1], x[2]], x.iter().skip(1).cloned().collect());
pair!(a_take, b_take, (x: [u64; 3]) -> Vec<u64>, vec![x[0], x[1]], x.iter().take(2).cloned().collect());
pair!(a_step, b_step, (x: [u64; 3]) -> Vec<u64>, vec![x[0], x[2]], x.iter().step_by(2).cloned().collect());
pair!(a_skip_while, b_skip_while, (x: [u64; 2], y: u64) -> Vec<u64>, if x[0] >= y { vec![x[0], x[1]] } else if x[1] >= y { vec![x[1]] } else { vec![] }, x.iter().cloned().skip_while(|v| *v < y).collect());
pair!(a_take_while, b_take_while, (x: [u64; 2], y: u64) -> Vec<u64>, if x[0] >= y { vec![] } else if x[1] >= y { vec![x[0]] } else { vec![x[0], x[1]] }, x.iter().cloned().take_while(|v| *v < y).collect());
pair!(a_map_while, b_map_while, (x: [Option<u64>; 2]) -> Vec<u64>, match x { [Some(a), Some(b)] => vec![a, b], [Some(a), None] => vec![a], _ => vec![] }, x.iter().map_while(|v| *v).collect());
pair!(a_scan, b_scan, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[0].saturating_add(x[1])], x.iter().scan(0u64, |s, v| { *s = s.saturating_add(*v); Some(*s) }).collect());
pair!(a_peek, b_peek, (x: [u64; 2]) -> u64, x[1], { let mut it = x.iter().peekable(); it.next(); **it.peek().unwrap() });
pair!(a_unzip, b_unzip, (x: [(u64, u64); 2]) -> (Vec<u64>, Vec<u64>), (vec![x[0].0, x[1].0], vec![x[0].1, x[1].1]), x.into_iter().unzip());
pair!(a_partition, b_partition, (x: [u64; 2], y: u64) -> (Vec<u64>, Vec<u64>), { let (mut a, mut b) = (vec![], vec![]); for v in x { if v < y { a.push(v) } else { b.push(v) } } (a, b) }, x.into_iter().partition(|v| *v < y));
pair!(a_enumerate, b_enumerate, (x: [u64; 2]) -> Vec<(usize, u64)>, vec![(0, x[0]), (1, x[1])], x.into_iter().enumerate().collect());
pair!(a_for_each, b_for_each, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], { let mut v = vec![]; x.iter().for_each(|a| v.push(*a)); v });
pair!(a_try_for_each, b_try_for_each, (x: [u64; 2]) -> Result<(), u64>, if x[0] > 5 { Err(x[0]) } else if x[1] > 5 { Err(x[1]) } else { Ok(()) }, x.iter().try_for_each(|a| if *a > 5 { Err(*a) } else { Ok(()) }));
pair!(a_cmp, b_cmp, (x: u64, y: u64) -> u8, if x < y { 0 } else if x == y { 1 } else { 2 }, match x.cmp(&y) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 });
pair!(a_pcmp, b_pcmp, (x: Uint128, y: Uint128) -> u8, if x < y { 0 } else if x == y { 1 } else { 2 }, match x.partial_cmp(&y).unwrap() { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 });
pair!(a_cmp_is, b_cmp_is, (x: Uint128, y: Uint128) -> bool, x < y, x.cmp(&y).is_lt());
pair!(a_cmp_rev, b_cmp_rev, (x: Uint128, y: Uint128) -> bool, x <= y, x.cmp(&y).reverse().is_ge());
pair!(a_cmp_then, b_cmp_then, (x: (u64, u64), y: (u64, u64)) -> bool, x.0 < y.0 || (x.0 == y.0 && x.1 < y.1), x.0.cmp(&y.0).then(x.1.cmp(&y.1)).is_lt());
pair!(a_cmp_then_with, b_cmp_then_with, (x: (u64, u64), y: (u64, u64)) -> bool, x.0 < y.0 || (x.0 == y.0 && x.1 < y.1), x.0.cmp(&y.0).then_with(|| x.1.cmp(&y.1)) == std::cmp::Ordering::Less);
pair!(a_tuple_cmp, b_tuple_cmp, (x: (u64, u64), y: (u64, u64)) -> bool, x.0 < y.0 || (x.0 == y.0 && x.1 < y.1), x < y);
pair!(a_tuple_eq, b_tuple_eq, (x: (u64, String), y: (u64, String)) -> bool, x.0 == y.0 && x.1 == y.1, x == y);
pair!(a_array_eq, b_array_eq, (x: [u64; 2], y: [u64; 2]) -> bool, x[0] == y[0] && x[1] == y[1], x == y);
pair!(a_opt_eq, b_opt_eq, (x: Option<u64>, y: u64) -> bool, match x { Some(v) => v == y, None => false }, x == Some(y));
pair!(a_opt_lt, b_opt_lt, (x: Option<u64>, y: Option<u64>) -> bool, match (x, y) { (None, Some(_)) => true, (Some(a), Some(b)) => a < b, _ => false }, x < y);
pair!(a_min2, b_min2, (x: Uint128, y: Uint128) -> Uint128, if x < y { x } else { y }, x.min(y));
pair!(a_max2, b_max2, (x: Uint128, y: Uint128) -> Uint128, if x < y { y } else { x }, std::cmp::max(x, y));
pair!(a_clamp, b_clamp, (x: u64) -> u64, if x < 1 { 1 } else if x > 30 { 30 } else { x }, x.clamp(1, 30));
pair!(a_map_or, b_map_or, (x: Option<u64>, y: u64) -> bool, match x { Some(v) => v > y, None => true }, x.map_or(true, |v| v > y));
pair!(a_map_or_else, b_map_or_else, (x: Option<u64>, y: u64) -> u64, match x { Some(v) => v, None => y }, x.map_or_else(|| y, |v| v));
pair!(a_is_some_and, b_is_some_and, (x: Option<u64>, y: u64) -> bool, match x { Some(v) => v > y, None => false }, x.is_some_and(|v| v > y));
pair!(a_is_none_or, b_is_none_or, (x: Option<u64>, y: u64) -> bool, match x { Some(v) => v > y, None => true }, x.is_none_or(|v| v > y));
pair!(a_ok_and, b_ok_and, (x: Result<u64, u64>, y: u64) -> bool, match x { Ok(v) => v > y, Err(_) => false }, x.is_ok_and(|v| v > y));
pair!(a_xor, b_xor, (x: Option<u64>, y: Option<u64>) -> Option<u64>, match (x, y) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None }, x.xor(y));
pair!(a_or, b_or, (x: Option<u64>, y: Option<u64>) -> Option<u64>, match x { Some(a) => Some(a), None => y }, x.or(y));
pair!(a_or_else, b_or_else, (x: Option<u64>, y: Option<u64>) -> Option<u64>, match x { Some(a) => Some(a), None => y }, x.or_else(|| y));
pair!(a_and, b_and, (x: Option<u64>, y: Option<u64>) -> Option<u64>, match x { Some(_) => y, None => None }, x.and(y));
pair!(a_and_then, b_and_then, (x: Option<u64>) -> Option<u64>, match x { Some(a) => a.checked_sub(3), None => None }, x.and_then(|a| a.checked_sub(3)));
pair!(a_opt_zip, b_opt_zip, (x: Option<u64>, y: Option<u64>) -> Option<(u64, u64)>, match (x, y) { (Some(a), Some(b)) => Some((a, b)), _ => None }, x.zip(y));
pair!(a_opt_filter, b_opt_filter, (x: Option<u64>) -> Option<u64>, match x { Some(a) if a > 3 => Some(a), _ => None }, x.filter(|a| *a > 3));
pair!(a_opt_take, b_opt_take, (x: Option<u64>) -> (Option<u64>, Option<u64>), (x, None), { let mut x = x; let y = x.take(); (y, x) });
pair!(a_opt_replace, b_opt_replace, (x: Option<u64>, y: u64) -> (Option<u64>, Option<u64>), (x, Some(y)), { let mut x = x; let z = x.replace(y); (z, x) });
pair!(a_opt_insert, b_opt_insert, (x: Option<u64>, y: u64) -> u64, x.unwrap_or(y), { let mut x = x; *x.get_or_insert(y) });
pair!(a_opt_insert_with, b_opt_insert_with, (x: Option<u64>, y: u64) -> u64, x.unwrap_or(y), { let mut x = x; *x.get_or_insert_with(|| y) });
pair!(a_opt_transpose, b_opt_transpose, (x: Option<Result<u64, u64>>) -> Result<Option<u64>, u64>, match x { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) }, x.transpose());
pair!(a_res_transpose, b_res_transpose, (x: Result<Option<u64>, u64>) -> Option<Result<u64, u64>>, match x { Ok(None) => None, Ok(Some(v)) => Some(Ok(v)), Err(e) => Some(Err(e)) }, x.transpose());
pair!(a_opt_flatten, b_opt_flatten, (x: Option<Option<u64>>) -> Option<u64>, match x { Some(Some(v)) => Some(v), _ => None }, x.flatten());
pair!(a_opt_as_deref, b_opt_as_deref, (x: Option<String>) -> bool, match &x { Some(s) => s == "abc", None => false }, x.as_deref() == Some("abc"));
pair!(a_opt_as_ref, b_opt_as_ref, (x: Option<String>, y: String) -> String, match &x { Some(s) => s.clone(), None => y.clone() }, x.as_ref().unwrap_or(&y).to_string());
pair!(a_opt_ok_or, b_opt_ok_or, (x: Option<u64>) -> Result<u64, String>, match x { Some(v) => Ok(v), None => Err("no".to_string()) }, x.ok_or_else(|| "no".to_string()));
pair!(a_opt_default, b_opt_default, (x: Option<u64>) -> u64, match x { Some(v) => v, None => 0 }, x.unwrap_or_default());
pair!(a_opt_default128, b_opt_default128, (x: Option<Uint128>) -> Uint128, match x { Some(v) => v, None => Uint128::zero() }, x.unwrap_or_default());
pair!(a_opt_copied, b_opt_copied, (x: [u64; 2]) -> Option<u64>, Some(x[0]), x.first().copied());
pair!(a_opt_inspect, b_opt_inspect, (x: Option<u64>) -> Option<u64>, x, x.inspect(|_| ()));
pair!(a_res_ok, b_res_ok, (x: Result<u64, u64>) -> Option<u64>, match x { Ok(v) => Some(v), Err(_) => None }, x.ok());
pair!(a_res_err, b_res_err, (x: Result<u64, u64>) -> Option<u64>, match x { Err(v) => Some(v), Ok(_) => None }, x.err());
pair!(a_res_and_then, b_res_and_then, (x: Result<u64, u64>) -> Result<u64, u64>, match x { Ok(v) => if v > 3 { Ok(v) } else { Err(v) }, Err(e) => Err(e) }, x.and_then(|v| if v > 3 { Ok(v) } else { Err(v) }));
pair!(a_res_or_else, b_res_or_else, (x: Result<u64, u64>) -> Result<u64, u64>, match x { Ok(v) => Ok(v), Err(e) => if e > 3 { Ok(e) } else { Err(e) } }, x.or_else(|e| if e > 3 { Ok(e) } else { Err(e) }));
pair!(a_res_unwrap_or_else, b_res_unwrap_or_else, (x: Result<u64, u64>) -> u64, match x { Ok(v) => v, Err(e) => e }, x.unwrap_or_else(|e| e));
pair!(a_res_map_err, b_res_map_err, (x: Result<u64, u64>) -> Result<u64, String>, match x { Ok(v) => Ok(v), Err(_) => Err("x".into()) }, x.map_err(|_| "x".into()));
pair!(a_res_map_or, b_res_map_or, (x: Result<u64, u64>) -> u64, match x { Ok(v) => v, Err(_) => 7 }, x.map_or(7, |v| v));
pair!(a_res_is, b_res_is, (x: Result<u64, u64>) -> bool, matches!(x, Ok(_)), !x.is_err());
pair!(a_res_as_ref, b_res_as_ref, (x: Result<u64, u64>) -> u64, match x { Ok(v) => v, Err(_) => 0 }, *x.as_ref().unwrap_or(&0));
pair!(a_bool_then, b_bool_then, (x: bool, y: u64) -> Option<u64>, if x { Some(y) } else { None }, x.then_some(y));
pair!(a_bool_then2, b_bool_then2, (x: bool, y: u64) -> Option<u64>, if x { Some(y) } else { None }, x.then(|| y));
pair!(a_vec_extend, b_vec_extend, (x: [u64; 2], y: [u64; 2]) -> Vec<u64>, vec![x[0], x[1], y[0], y[1]], { let mut v = x.to_vec(); v.extend_from_slice(&y); v });
pair!(a_vec_append, b_vec_append, (x: [u64; 2], y: [u64; 2]) -> Vec<u64>, vec![x[0], x[1], y[0], y[1]], { let mut v = x.to_vec(); v.append(&mut y.to_vec()); v });
pair!(a_vec_insert, b_vec_insert, (x: [u64; 2], y: u64) -> Vec<u64>, vec![y, x[0], x[1]], { let mut v = x.to_vec(); v.insert(0, y); v });
pair!(a_vec_remove, b_vec_remove, (x: [u64; 3]) -> Vec<u64>, vec![x[0], x[2]], { let mut v = x.to_vec(); v.remove(1); v });
pair!(a_vec_swap, b_vec_swap, (x: [u64; 2]) -> [u64; 2], [x[1], x[0]], { let mut x = x; x.swap(0, 1); x });
pair!(a_mem_swap, b_mem_swap, (x: u64, y: u64) -> (u64, u64), (y, x), { let (mut x, mut y) = (x, y); std::mem::swap(&mut x, &mut y); (x, y) });
pair!(a_mem_replace, b_mem_replace, (x: u64, y: u64) -> (u64, u64), (x, y), { let mut x = x; let o = std::mem::replace(&mut x, y); (o, x) });
pair!(a_mem_take, b_mem_take, (x: String) -> (String, String), (x, String::new()), { let mut x = x; let o = std::mem::take(&mut x); (o, x) });
pair!(a_vec_reverse, b_vec_reverse, (x: [u64; 3]) -> [u64; 3], [x[2], x[1], x[0]], { let mut x = x; x.reverse(); x });
pair!(a_vec_pop, b_vec_pop, (x: [u64; 2]) -> Option<u64>, Some(x[1]), { let mut v = x.to_vec(); v.pop() });
pair!(a_vec_truncate, b_vec_truncate, (x: [u64; 3]) -> Vec<u64>, vec![x[0]], { let mut v = x.to_vec(); v.truncate(1); v });
pair!(a_vec_drain, b_vec_drain, (x: [u64; 3]) -> Vec<u64>, vec![x[0], x[1]], { let mut v = x.to_vec(); v.drain(..2).collect() });
pair!(a_vec_retain, b_vec_retain, (x: [u64; 2]) -> Vec<u64>, x.into_iter().filter(|v| *v > 3).collect(), { let mut v = x.to_vec(); v.retain(|v| *v > 3); v });
pair!(a_vec_split_first, b_vec_split_first, (x: [u64; 3]) -> (u64, Vec<u64>), (x[0], vec![x[1], x[2]]), { let (h, t) = x.split_first().unwrap(); (*h, t.to_vec()) });
pair!(a_vec_split_last, b_vec_split_last, (x: [u64; 3]) -> (u64, Vec<u64>), (x[2], vec![x[0], x[1]]), { let (h, t) = x.split_last().unwrap(); (*h, t.to_vec()) });
pair!(a_vec_split_at, b_vec_split_at, (x: [u64; 3]) -> (Vec<u64>, Vec<u64>), (vec![x[0]], vec![x[1], x[2]]), { let (h, t) = x.split_at(1); (h.to_vec(), t.to_vec()) });
pair!(a_vec_split_off, b_vec_split_off, (x: [u64; 3]) -> (Vec<u64>, Vec<u64>), (vec![x[0]], vec![x[1], x[2]]), { let mut h = x.to_vec(); let t = h.split_off(1); (h, t) });
pair!(a_slice_pat, b_slice_pat, (x: Vec<u64>) -> u64, x[0], match x.as_slice() { [a, ..] => *a, [] => panic!() });
pair!(a_slice_pat2, b_slice_pat2, (x: [u64; 3]) -> u64, x[2], { let [.., l] = x; l });
pair!(a_windows, b_windows, (x: [u64; 3]) -> bool, x[0] < x[1] && x[1] < x[2], x.windows(2).all(|w| w[0] < w[1]));
pair!(a_chunks, b_chunks, (x: [u64; 4]) -> Vec<u64>, vec![x[0], x[2]], x.chunks(2).map(|w| w[0]).collect());
pair!(a_concat, b_concat, (x: [u64; 2], y: [u64; 2]) -> Vec<u64>, vec![x[0], x[1], y[0], y[1]], [x, y].concat());
pair!(a_array_map, b_array_map, (x: [u64; 2]) -> [u64; 2], [x[0] / 2, x[1] / 2], x.map(|v| v / 2));
pair!(a_array_from_fn, b_array_from_fn, (x: [u64; 2]) -> [u64; 2], [x[1], x[0]], std::array::from_fn(|i| x[1 - i]));
pair!(a_array_each_ref, b_array_each_ref, (x: [u64; 2]) -> u64, x[0], *x.each_ref()[0]);
pair!(a_vec_try_into, b_vec_try_into, (x: [u64; 2]) -> [u64; 2], x, { let v: Vec<u64> = x.to_vec(); v.try_into().unwrap() });
pair!(a_slice_try_into, b_slice_try_into, (x: [u64; 3]) -> [u64; 2], [x[0], x[1]], x[..2].try_into().unwrap());
pair!(a_sort, b_sort, (x: [u64; 2]) -> [u64; 2], if x[1] < x[0] { [x[1], x[0]] } else { x }, { let mut x = x; x.sort(); x });
pair!(a_sort_unstable, b_sort_unstable, (x: [u64; 2]) -> [u64; 2], if x[1] < x[0] { [x[1], x[0]] } else { x }, { let mut x = x; x.sort_unstable(); x });
pair!(a_sort_by_key, b_sort_by_key, (x: [u64; 2]) -> [u64; 2], if x[0] < x[1] { [x[1], x[0]] } else { x }, { let mut x = x; x.sort_by_key(|v| std::cmp::Reverse(*v)); x });
pair!(a_btree_set, b_btree_set, (x: u64, y: u64) -> usize, if x == y { 1 } else { 2 }, [x, y].into_iter().collect::<BTreeSet<u64>>().len());
pair!(a_hash_set, b_hash_set, (x: u64, y: u64) -> usize, if x == y { 1 } else { 2 }, { let mut s = HashSet::new(); s.insert(x); s.insert(y); s.len() });
pair!(a_btree_map, b_btree_map, (x: u64, y: u64) -> Option<u64>, if x == 3 { Some(y) } else { None }, { let mut s = BTreeMap::new(); s.insert(x, y); s.get(&3).copied() });
pair!(a_hash_entry, b_hash_entry, (x: u64, y: u64) -> bool, x == y, { let mut s: HashMap<u64, u32> = HashMap::new(); *s.entry(x).or_insert(0) += 1; *s.entry(y).or_default() += 1; s.len() == 1 });
pair!(a_set_remove, b_set_remove, (x: u64, y: u64) -> bool, x == y, { let mut s = BTreeSet::new(); s.insert(x); s.remove(&y) });
pair!(a_set_insert, b_set_insert, (x: u64, y: u64) -> bool, x != y, { let mut s = BTreeSet::new(); s.insert(x); s.insert(y) });
pair!(a_deque, b_deque, (x: u64, y: u64) -> u64, x, { let mut s = VecDeque::new(); s.push_back(x); s.push_back(y); s.pop_front().unwrap() });
pair!(a_str_len, b_str_len, (x: String) -> bool, x.len() == 0, x.is_empty());
pair!(a_str_range, b_str_range, (x: String) -> bool, x.len() >= 3 && x.len() <= 50, (3..=50).contains(&x.len()));
pair!(a_str_range2, b_str_range2, (x: u64) -> bool, x >= 3 && x < 50, (3..50).contains(&x));
pair!(a_str_eq, b_str_eq, (x: String, y: String) -> bool, x == y, x.as_str() == y.as_str());
pair!(a_str_eq2, b_str_eq2, (x: String, y: String) -> bool, x == y, x.as_bytes() == y.as_bytes());
pair!(a_str_eq3, b_str_eq3, (x: String, y: String) -> bool, x == y, x.eq(&y));
pair!(a_str_cmp, b_str_cmp, (x: String, y: String) -> bool, x < y, x.as_bytes() < y.as_bytes());
pair!(a_str_fmt, b_str_fmt, (x: String, y: String) -> String, format!("{}-{}", x, y), { let mut s = x.clone(); s.push_str("-"); s.push_str(&y); s });
pair!(a_str_add, b_str_add, (x: String, y: String) -> String, format!("{}, {}", x, y), x + ", " + &y);
pair!(a_str_join, b_str_join, (x: String, y: String) -> String, format!("{}, {}", x, y), [x, y].join(", "));
pair!(a_str_concat, b_str_concat, (x: String, y: String) -> String, format!("{}{}", x, y), [x, y].concat());
pair!(a_str_concat2, b_str_concat2, (x: String, y: String) -> String, format!("{}{}", x, y), [x.as_str(), y.as_str()].concat());
pair!(a_str_owned, b_str_owned, (x: String) -> String, x, x.as_str().to_owned());
pair!(a_str_from, b_str_from, (x: String) -> String, x, String::from(x.as_str()));
pair!(a_str_into, b_str_into, (x: String) -> String, x, x.as_str().into());
pair!(a_str_fmt2, b_str_fmt2, (x: Uint128) -> String, x.to_string(), format!("{x}"));
pair!(a_str_fmt3, b_str_fmt3, (x: Asset) -> String, format!("{}{}", x.amount, x.info), x.to_string());
pair!(a_write, b_write, (x: Uint128, y: String) -> String, format!("{}{}", x, y), { use std::fmt::Write; let mut s = String::new(); write!(s, "{}{}", x, y).unwrap(); s });
pair!(a_addr, b_addr, (x: Addr, y: String) -> bool, x.as_str() == y, x == y);
pair!(a_addr2, b_addr2, (x: Addr, y: Addr) -> bool, x.as_str() == y.as_str(), x == y);
pair!(a_addr3, b_addr3, (x: Addr) -> String, x.to_string(), x.into_string());
pair!(a_addr4, b_addr4, (x: Addr) -> String, x.to_string(), String::from(x));
pair!(a_addr5, b_addr5, (x: Addr, y: String) -> bool, x.as_str() == y, Addr::unchecked(y) == x);
pair!(a_canon, b_canon, (x: CanonicalAddr, y: CanonicalAddr) -> bool, x == y, x.as_slice() == y.as_slice());
pair!(a_canon2, b_canon2, (x: CanonicalAddr, y: CanonicalAddr) -> bool, x == y, x.0 == y.0);
pair!(a_u_zero, b_u_zero, (x: Uint128) -> bool, x.is_zero(), x == Uint128::zero());
pair!(a_u_zero2, b_u_zero2, (x: Uint128) -> bool, x.is_zero(), x.u128() == 0);
pair!(a_u_zero3, b_u_zero3, (x: Uint128) -> bool, x.is_zero(), x < Uint128::one());
pair!(a_u_default, b_u_default, (x: Uint128) -> bool, x.is_zero(), x == Uint128::default());
pair!(a_u_new, b_u_new, (x: u128) -> Uint128, Uint128::new(x), Uint128::from(x));
pair!(a_u_new2, b_u_new2, (x: u64) -> Uint128, Uint128::new(x as u128), x.into());
pair!(a_u_add, b_u_add, (x: Uint128, y: Uint128) -> StdResult<Uint128>, x.checked_add(y).map_err(StdError::overflow), Ok(x.checked_add(y)?));
pair!(a_u_sub, b_u_sub, (x: Uint128, y: Uint128) -> Option<Uint128>, if x < y { None } else { Some(x - y) }, x.checked_sub(y).ok());
pair!(a_u_sat, b_u_sat, (x: Uint128, y: Uint128) -> Uint128, if x < y { Uint128::zero() } else { x - y }, x.saturating_sub(y));
pair!(a_u_absdiff, b_u_absdiff, (x: Uint128, y: Uint128) -> Uint128, if x < y { y - x } else { x - y }, x.abs_diff(y));
pair!(a_u_mulratio, b_u_mulratio, (x: Uint128, y: Uint128, z: Uint128) -> Uint128, x.multiply_ratio(y, z), Uint128::try_from(x.full_mul(y) / Uint256s::from(z)).unwrap());
pair!(a_u_checked_mulratio, b_u_checked_mulratio, (x: Uint128, y: Uint128, z: Uint128) -> Option<Uint128>, x.checked_multiply_ratio(y, z).ok(), if z.is_zero() { None } else { Uint128::try_from(x.full_mul(y).checked_div(Uint256s::from(z)).unwrap()).ok() });
pair!(a_u_addassign, b_u_addassign, (x: Uint128, y: Uint128) -> Uint128, x + y, { let mut x = x; x += y; x });
pair!(a_u_subassign, b_u_subassign, (x: Uint128, y: Uint128) -> Uint128, x - y, { let mut x = x; x -= &y; x });
pair!(a_u_cast, b_u_cast, (x: Uint128, y: Uint128) -> bool, x > y, x.u128() > y.u128());
pair!(a_u_div, b_u_div, (x: Uint128, y: Uint128) -> Uint128, x / y, x.checked_div(y).unwrap());
pair!(a_u_pow, b_u_pow, (x: u8) -> Uint128, Uint128::new(10u128.pow(x.into())), Uint128::new(10).pow(x as u32));
pair!(a_u_isqrt, b_u_isqrt, (x: Uint128) -> Uint128, x.isqrt(), Uint128::try_from(Uint256s::from(x).isqrt()).unwrap());
pair!(a_u_256, b_u_256, (x: Uint128, y: Uint128) -> Uint128, x, Uint128::try_from(Uint256s::from(x)).unwrap());
pair!(a_u_full, b_u_full, (x: Uint128, y: Uint128) -> bool, x.full_mul(y).is_zero(), x.is_zero() || y.is_zero());
pair!(a_d_one, b_d_one, (x: Decimal) -> bool, x > Decimal::one(), x > Decimal::percent(100));
pair!(a_d_ratio, b_d_ratio, (x: Uint128, y: Uint128) -> Decimal, Decimal::from_ratio(x, y), Decimal::checked_from_ratio(x, y).unwrap());
pair!(a_d_sub, b_d_sub, (x: Decimal) -> StdResult<Decimal>, if x > Decimal::one() { Err(StdError::generic_err("x")) } else { Ok(Decimal::one() - x) }, Decimal::one().checked_sub(x).map_err(|_| StdError::generic_err("x")));
pair!(a_d_mul, b_d_mul, (x: Uint128, y: Decimal) -> Uint128, x * y, y * x);
pair!(a_d_atomics, b_d_atomics, (x: Decimal, y: Decimal) -> bool, x < y, x.atomics() < y.atomics());
pair!(a_d_raw, b_d_raw, (x: Uint128) -> Decimal, Decimal::new(x), Decimal::from_atomics(x, 18).unwrap());
pair!(a_b_mul, b_b_mul, (x: Uint256, y: Decimal256) -> Uint256, x * y, y * x);
pair!(a_b_zero, b_b_zero, (x: Uint256) -> bool, x.is_zero(), x == Uint256::zero());
pair!(a_b_conv, b_b_conv, (x: Uint128) -> Uint256, Uint256::from(x), x.u128().into());
pair!(a_b_conv2, b_b_conv2, (x: Uint256) -> Uint128, x.into(), Uint128::from(x));
pair!(a_b_cmp, b_b_cmp, (x: Uint256, y: Uint256) -> Uint256, if x > y { x - y } else { Uint256::zero() }, match x.cmp(&y) { std::cmp::Ordering::Greater => x - y, _ => Uint256::zero() });
pair!(a_b_max, b_b_max, (x: Uint256, y: Uint256) -> Uint256, if x > y { x - y } else { Uint256::zero() }, std::cmp::max(x, y) - y);
pair!(a_b_min, b_b_min, (x: Uint256, y: Uint256) -> Uint256, if x > y { x - y } else { Uint256::zero() }, x - x.min(y));
pair!(a_b_from64, b_b_from64, (x: Uint256) -> bool, x > Uint256::from(7u64), x > Uint256::from(7u128));
pair!(a_resp_attr, b_resp_attr, (x: String, y: String) -> Response, Response::new().add_attributes(vec![("a", x.as_str()), ("b", y.as_str())]), Response::default().add_attribute("a", &x).add_attribute("b", y));
pair!(a_resp_attr2, b_resp_attr2, (x: String, y: String) -> Response, Response::new().add_attributes(vec![("a", x.as_str()), ("b", y.as_str())]), { let mut r = Response::new(); r.attributes.push(attr("a", x)); r.attributes.push(Attribute::new("b", y)); r });
pair!(a_resp_attr3, b_resp_attr3, (x: String, y: String) -> Response, Response::new().add_attributes(vec![("a", x.as_str()), ("b", y.as_str())]), Response::new().add_attributes([attr("a", x), attr("b", y)]));
pair!(a_resp_msg, b_resp_msg, (x: CosmosMsg, y: CosmosMsg) -> Response, Response::new().add_messages(vec![x, y]), Response::new().add_message(x).add_message(y));
pair!(a_resp_msg2, b_resp_msg2, (x: CosmosMsg, y: CosmosMsg) -> Response, Response::new().add_messages([x, y]), { let mut r = Response::new(); r.messages.push(SubMsg::new(x)); r.messages.extend([SubMsg::new(y)]); r });
pair!(a_resp_msg3, b_resp_msg3, (x: CosmosMsg, y: CosmosMsg) -> Response, Response::new().add_messages([x, y]), Response::new().add_submessages([x, y].into_iter().map(SubMsg::new)));
pair!(a_resp_opt, b_resp_opt, (x: Option<CosmosMsg>) -> Response, match x { Some(x) => Response::new().add_message(x), None => Response::new() }, Response::new().add_messages(x));
pair!(a_resp_sub, b_resp_sub, (x: WasmMsg) -> Response, Response::new().add_submessage(SubMsg { id: 1, msg: CosmosMsg::Wasm(x), gas_limit: None, reply_on: ReplyOn::Success }), Response::new().add_submessage(SubMsg::reply_on_success(x, 1)));
pair!(a_bank, b_bank, (x: String, y: Uint128, z: String) -> CosmosMsg, CosmosMsg::Bank(BankMsg::Send { to_address: x, amount: vec![Coin { denom: z, amount: y }] }), BankMsg::Send { to_address: x, amount: coins(y.u128(), z) }.into());
pair!(a_coin, b_coin, (y: Uint128, z: String) -> Coin, Coin { denom: z, amount: y }, Coin::new(y.u128(), z));
pair!(a_coin2, b_coin2, (y: Uint128, z: String) -> Coin, Coin { denom: z, amount: y }, coin(y.into(), &z));
pair!(a_wasm_exec, b_wasm_exec, (x: String, y: Vec<Coin>) -> StdResult<CosmosMsg>, Ok(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: x, msg: to_binary(&cw20::Cw20ExecuteMsg::Burn { amount: Uint128::one() })?, funds: y })), wasm_execute(x, &cw20::Cw20ExecuteMsg::Burn { amount: Uint128::one() }, y).map(CosmosMsg::from));
pair!(a_cw20_into, b_cw20_into, (x: Addr, y: Uint128) -> StdResult<Binary>, to_binary(&cw20::Cw20ExecuteMsg::Burn { amount: y }), { let m = cw20::Cw20ExecuteMsg::Burn { amount: y }; to_binary(&m) });
pair!(a_cw20_helper, b_cw20_helper, (x: Addr, y: Uint128) -> StdResult<CosmosMsg>, Ok(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: x.to_string(), msg: to_binary(&cw20::Cw20ExecuteMsg::Burn { amount: y })?, funds: vec![] })), cw20::Cw20Contract(x).call(cw20::Cw20ExecuteMsg::Burn { amount: y }));
pair!(a_q_balance, b_q_balance, (deps: Deps, x: Addr, y: String) -> StdResult<Uint128>, haloswap::querier::query_balance(&deps.querier, x, y), Ok(deps.querier.query_balance(x, y)?.amount));
pair!(a_q_token, b_q_token, (deps: Deps, x: Addr, y: Addr) -> StdResult<Uint128>, haloswap::querier::query_token_balance(&deps.querier, x, y), deps.querier.query_wasm_smart::<cw20::BalanceResponse>(x, &cw20::Cw20QueryMsg::Balance { address: y.to_string() }).map(|r| r.balance));
pair!(a_q_token2, b_q_token2, (deps: Deps, x: Addr, y: Addr) -> StdResult<Uint128>, haloswap::querier::query_token_balance(&deps.querier, x, y), cw20::Cw20Contract(x).balance(&deps.querier, y));
pair!(a_q_info, b_q_info, (deps: Deps, x: Addr) -> StdResult<Uint128>, haloswap::querier::query_token_info(&deps.querier, x).map(|r| r.total_supply), Ok(cw20::Cw20Contract(x).meta(&deps.querier)?.total_supply));
pair!(a_from_binary, b_from_binary, (x: Binary) -> bool, matches!(from_binary::<cw20::Cw20ReceiveMsg>(&x), Ok(_)), from_slice::<cw20::Cw20ReceiveMsg>(x.as_slice()).is_ok());
pair!(a_matches, b_matches, (x: AssetInfo) -> bool, x.is_native_token(), matches!(x, AssetInfo::NativeToken { .. }));
pair!(a_assetclone, b_assetclone, (x: Asset, y: Uint128) -> Asset, Asset { info: x.info.clone(), amount: y }, { let mut z = x.clone(); z.amount = y; z });
pair!(a_assetupd, b_assetupd, (x: Asset, y: Uint128) -> Asset, Asset { info: x.info.clone(), amount: y }, Asset { amount: y, ..x });
pair!(a_wsplit, b_wsplit, (x: u128) -> u128, x, ((x >> 64) << 64) | (x & 0xFFFF_FFFF_FFFF_FFFF));
pair!(a_wsplit2, b_wsplit2, (x: u128) -> u128, x, (((x >> 64) as u64 as u128) << 64) + (x as u64 as u128));
pair!(a_even, b_even, (x: u64) -> bool, x % 2 == 0, x & 1 == 0);
pair!(a_shift, b_shift, (x: u64) -> u64, x / 4, x >> 2);
pair!(a_not, b_not, (x: bool, y: bool) -> bool, !(x && y), !x || !y);
pair!(a_bitor, b_bitor, (x: bool, y: bool) -> bool, x || y, x | y);
pair!(a_xorb, b_xorb, (x: bool, y: bool) -> bool, x != y, x ^ y);
pair!(a_bool_num, b_bool_num, (x: bool) -> usize, if x { 1 } else { 0 }, x as usize);
pair!(a_bool_idx, b_bool_idx, (x: bool, y: [u64; 2]) -> u64, if x { y[1] } else { y[0] }, y[usize::from(x)]);
pair!(a_let_else, b_let_else, (x: Option<u64>) -> StdResult<u64>, match x { Some(v) => Ok(v), None => Err(StdError::generic_err("n")) }, { let Some(v) = x else { return Err(StdError::generic_err("n")) }; Ok(v) });
pair!(a_while_let, b_while_let, (x: [u64; 2]) -> u64, x[0].max(x[1]), { let mut v = x.to_vec(); let mut m = 0; while let Some(a) = v.pop() { if a > m { m = a } } m });
pair!(a_loop_break, b_loop_break, (x: [u64; 2], y: u64) -> Option<u64>, x.iter().copied().find(|v| *v == y), { let mut i = 0; loop { if i == 2 { break None } if x[i] == y { break Some(x[i]) } i += 1; } });
pair!(a_label, b_label, (x: [u64; 2], y: u64) -> bool, x.contains(&y), { let mut r = false; 'o: for v in x { for _ in 0..1 { if v == y { r = true; break 'o; } } } r });
pair!(a_range_rev, b_range_rev, (x: [u64; 2]) -> Vec<u64>, vec![x[1], x[0]], (0..2).rev().map(|i| x[i]).collect());
pair!(a_range_incl, b_range_incl, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], (0..=1).map(|i| x[i]).collect());
pair!(a_u_range, b_u_range, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], { let mut v = Vec::with_capacity(2); for i in 0..x.len() { v.push(x[i]) } v });
pair!(a_collect_res, b_collect_res, (x: [StdResult<u64>; 2]) -> StdResult<Vec<u64>>, { let [a, b] = x; Ok(vec![a?, b?]) }, x.into_iter().collect());
pair!(a_collect_opt, b_collect_opt, (x: [Option<u64>; 2]) -> Option<Vec<u64>>, match x { [Some(a), Some(b)] => Some(vec![a, b]), _ => None }, x.into_iter().collect());
pair!(a_collect_str, b_collect_str, (x: String, y: String) -> String, format!("{}{}", x, y), [x, y].into_iter().collect());
pair!(a_sum_res, b_sum_res, (x: [Option<u64>; 2]) -> Option<u64>, match x { [Some(a), Some(b)] => Some(a + b), _ => None }, x.into_iter().sum());
pair!(a_iter_eq, b_iter_eq, (x: [u64; 2], y: [u64; 2]) -> bool, x == y, x.iter().eq(y.iter()));
pair!(a_cow, b_cow, (x: String) -> String, x, std::borrow::Cow::from(x).into_owned());
pair!(a_box, b_box, (x: u64) -> u64, x, *Box::new(x));
pair!(a_rc, b_rc, (x: u64) -> u64, x, *std::rc::Rc::new(x));
pair!(a_dyn, b_dyn, (x: u64) -> bool, x > 3, { let f: &dyn Fn(u64) -> bool = &|v| v > 3; f(x) });
pair!(a_boxdyn, b_boxdyn, (x: u64) -> bool, x > 3, { let f: Box<dyn Fn(u64) -> bool> = Box::new(|v| v > 3); f(x) });
pair!(a_fnptr, b_fnptr, (x: u64) -> bool, x > 3, { fn g(v: u64) -> bool { v > 3 } let f: fn(u64) -> bool = g; f(x) });
pair!(a_ok_question, b_ok_question, (x: Option<u64>) -> Option<u64>, x.map(|v| v / 2), Some(x? / 2));
pair!(a_try_from, b_try_from, (x: u64) -> bool, x < 256, u8::try_from(x).is_ok());
pair!(a_try_into, b_try_into, (x: u128) -> Option<u64>, if x <= u64::MAX as u128 { Some(x as u64) } else { None }, x.try_into().ok());
pair!(a_u8_class, b_u8_class, (x: u8) -> bool, (x >= 65 && x <= 90) || (x >= 97 && x <= 122), x.is_ascii_alphabetic());
pair!(a_u8_pat, b_u8_pat, (x: u8) -> bool, (x >= 65 && x <= 90) || (x >= 97 && x <= 122) || x == 45, matches!(x, b'A'..=b'Z' | b'a'..=b'z' | b'-'));
pair!(a_u_sum_fold, b_u_sum_fold, (x: [Uint128; 2]) -> StdResult<Uint128>, Ok(Uint128::zero().checked_add(x[0])?.checked_add(x[1])?), x.iter().try_fold(Uint128::zero(), |a, v| a.checked_add(*v).map_err(StdError::from)));

use cosmwasm_std::Uint256 as Uint256s;
pair!(a_btree_order, b_btree_order, (x: u64, y: u64) -> Vec<u64>, if x < y { vec![x, y] } else if x == y { vec![x] } else { vec![y, x] }, [x, y].into_iter().collect::<BTreeSet<u64>>().into_iter().collect());
pair!(a_repeat_n, b_repeat_n, (x: u64) -> Vec<u64>, vec![x, x], std::iter::repeat_n(x, 2).collect());
pair!(a_deque2, b_deque2, (x: u64, y: u64) -> Vec<u64>, vec![y, x], { let mut s = VecDeque::new(); s.push_front(x); s.push_front(y); s.into_iter().collect() });
pair!(a_entry_val, b_entry_val, (x: u64, y: u64) -> u64, if x == y { 5 } else { 2 }, { let mut s: BTreeMap<u64, u64> = BTreeMap::new(); s.insert(x, 2); *s.entry(y).or_insert(7) += 3; s[&x] });
pair!(a_get_mut, b_get_mut, (x: u64, y: u64) -> u64, if x == y { 9 } else { 2 }, { let mut s: BTreeMap<u64, u64> = BTreeMap::new(); s.insert(x, 2); if let Some(v) = s.get_mut(&y) { *v = 9 } *s.get(&x).unwrap() });
pair!(a_take_n, b_take_n, (x: [u64; 2], n: u8) -> Vec<u64>, match n { 0 => vec![], 1 => vec![x[0]], _ => vec![x[0], x[1]] }, x.iter().take(n as usize).copied().collect());
pair!(a_zip3, b_zip3, (x: [u64; 2], y: [u64; 2], z: Vec<u64>) -> Vec<u64>, { let mut r = vec![]; for i in 0..2 { if i < z.len() { r.push(x[i].min(y[i]).min(z[i])) } } r }, x.iter().zip(&y).zip(&z).map(|((a, b), c)| *a.min(b).min(c)).collect());
pair!(a_max_partial, b_max_partial, (x: [u64; 3]) -> u64, x[0].max(x[1]).max(x[2]), x.iter().copied().fold(0, u64::max));
pair!(a_from_fn, b_from_fn, (x: u64) -> Vec<u64>, vec![x], { let mut o = Some(x); std::iter::from_fn(|| o.take()).collect() });
pair!(a_rfind, b_rfind, (x: [u64; 2], y: u64) -> Option<u64>, if x[1] > y { Some(x[1]) } else if x[0] > y { Some(x[0]) } else { None }, x.iter().rfind(|v| **v > y).copied());
pair!(a_rev_find, b_rev_find, (x: [u64; 2], y: u64) -> Option<u64>, if x[1] > y { Some(x[1]) } else if x[0] > y { Some(x[0]) } else { None }, x.iter().rev().find(|v| **v > y).copied());
pair!(a_rev_enum, b_rev_enum, (x: [u64; 2]) -> Vec<(usize, u64)>, vec![(1, x[1]), (0, x[0])], x.iter().copied().enumerate().rev().collect());
pair!(a_sort_unstable_by, b_sort_unstable_by, (x: [(u64, u64); 2]) -> [(u64, u64); 2], if x[1].1 < x[0].1 { [x[1], x[0]] } else { x }, { let mut x = x; x.sort_by(|a, b| a.1.cmp(&b.1)); x });
pair!(a_sort_tuple, b_sort_tuple, (x: [(u64, u64); 2]) -> [(u64, u64); 2], if x[1].0 < x[0].0 || (x[1].0 == x[0].0 && x[1].1 < x[0].1) { [x[1], x[0]] } else { x }, { let mut x = x; x.sort(); x });
pair!(a_dedup, b_dedup, (x: u64, y: u64) -> Vec<u64>, if x == y { vec![x] } else { vec![x, y] }, { let mut v = vec![x, y]; v.dedup(); v });
pair!(a_resize, b_resize, (x: u64) -> Vec<u64>, vec![x, 0, 0], { let mut v = vec![x]; v.resize(3, 0); v });
pair!(a_last_mut, b_last_mut, (x: [u64; 2], y: u64) -> [u64; 2], [x[0], y], { let mut x = x; *x.last_mut().unwrap() = y; x });
pair!(a_iter_mut, b_iter_mut, (x: [u64; 2]) -> [u64; 2], [x[0] / 2, x[1] / 2], { let mut x = x; for v in x.iter_mut() { *v /= 2; } x });
pair!(a_iter_mut2, b_iter_mut2, (x: [u64; 2], y: [u64; 2]) -> [u64; 2], [x[0].min(y[0]), x[1].min(y[1])], { let mut x = x; for (a, b) in x.iter_mut().zip(y.iter()) { *a = (*a).min(*b); } x });
pair!(a_chunk_exact, b_chunk_exact, (x: [u64; 4]) -> Vec<u64>, vec![x[0], x[2]], x.chunks_exact(2).map(|w| w[0]).collect());
pair!(a_rsplit, b_rsplit, (x: [u64; 3]) -> bool, x[0] == 1 && x[2] == 3, matches!(x, [1, .., 3]));
pair!(a_rotate, b_rotate, (x: [u64; 2], s: bool) -> [u64; 2], if s { [x[1], x[0]] } else { x }, { let mut x = x; x.rotate_left(s as usize); x });
pair!(a_idx_xor, b_idx_xor, (x: [u64; 2], s: bool) -> u64, if s { x[1] } else { x[0] }, x[(s as usize) ^ 0]);
pair!(a_idx_other, b_idx_other, (x: [u64; 2], i: bool) -> u64, if i { x[0] } else { x[1] }, x[1 - i as usize]);
pair!(a_checked_idx, b_checked_idx, (x: [u64; 2], i: u8) -> u64, match i { 0 => x[0], 1 => x[1], _ => 7 }, x.get(i as usize).copied().unwrap_or(7));
pair!(a_u_try512, b_u_try512, (x: Uint128, y: Uint128, z: Uint128) -> Uint128, x.multiply_ratio(y, z), ((x.full_mul(y)) / Uint256s::from(z)).try_into().unwrap());
pair!(a_u_pow2, b_u_pow2, (x: Uint128) -> Uint128, x * x, x.pow(2));
pair!(a_u_checkedpow, b_u_checkedpow, (x: Uint128) -> Option<Uint128>, x.checked_mul(x).ok(), x.checked_pow(2).ok());
pair!(a_u_sum_iter, b_u_sum_iter, (x: Vec<Coin>) -> Uint128, { let mut s = Uint128::zero(); for c in &x { s += c.amount } s }, x.iter().map(|c| c.amount).sum());
pair!(a_u_parse, b_u_parse, (x: String) -> Option<Uint128>, Uint128::from_str(&x).ok(), Uint128::try_from(x.as_str()).ok());
pair!(a_u_tostr, b_u_tostr, (x: Uint128) -> String, x.to_string(), String::from(x));
pair!(a_u_lsh, b_u_lsh, (x: u64) -> Uint128, Uint128::new((x as u128) << 3), Uint128::new(x as u128 * 8));
pair!(a_d_mul2, b_d_mul2, (x: Uint128, y: Decimal) -> Uint128, x * y, x.multiply_ratio(y.atomics(), Uint128::new(1_000_000_000_000_000_000)));
pair!(a_d_zero, b_d_zero, (y: Decimal) -> bool, y.is_zero(), y == Decimal::zero());
pair!(a_d_percent, b_d_percent, (y: u32) -> Decimal, Decimal::percent(y as u64), Decimal::from_ratio(y as u64, 100u64));
pair!(a_d_permille, b_d_permille, (y: Decimal) -> bool, y > Decimal::percent(50), y > Decimal::permille(500));
pair!(a_d_parse, b_d_parse, (y: Decimal) -> bool, y > Decimal::percent(50), y > Decimal::from_str("0.5").unwrap());
pair!(a_d_partial, b_d_partial, (x: Decimal, y: Decimal) -> Decimal, if x < y { x } else { y }, x.min(y));
pair!(a_bd_one, b_bd_one, (x: Decimal256) -> Option<Decimal256>, if x > Decimal256::one() { None } else { Some(Decimal256::one() - x) }, if Decimal256::one() < x { None } else { Some(Decimal256::one() - x) });
pair!(a_bd_uint, b_bd_uint, (x: Uint256) -> Decimal256, Decimal256::from_uint256(x), Decimal256::from_ratio(x, 1));
pair!(a_bu_ops, b_bu_ops, (x: Uint256, y: Uint256) -> Uint256, x + y, { let mut z = x; z = y + z; z });
pair!(a_bu_zero, b_bu_zero, (x: Uint256) -> bool, x.is_zero(), x <= Uint256::zero());
pair!(a_std_err, b_std_err, (x: String) -> StdError, StdError::generic_err(x), StdError::GenericErr { msg: x });
pair!(a_bail, b_bail, (x: bool) -> StdResult<u64>, if x { Err(StdError::generic_err("a")) } else { Ok(3) }, { ensure!(!x, StdError::generic_err("a")); Ok(3) });
pair!(a_ensure_eq, b_ensure_eq, (x: u64, y: u64) -> StdResult<u64>, if x != y { Err(StdError::generic_err("a")) } else { Ok(3) }, { ensure_eq!(x, y, StdError::generic_err("a")); Ok(3) });
pair!(a_event, b_event, (x: String) -> Response, Response::new().add_event(Event::new("t").add_attribute("a", x)), { let e = Event::new("t").add_attributes(vec![attr("a", x)]); Response::new().add_events(vec![e]) });
pair!(a_resp_data, b_resp_data, (x: Binary) -> Response, Response::new().set_data(x), { let mut r = Response::new(); r.data = Some(x); r });
pair!(a_info_funds, b_info_funds, (info: MessageInfo, d: String) -> Uint128, match info.funds.iter().find(|c| c.denom == d) { Some(c) => c.amount, None => Uint128::zero() }, info.funds.into_iter().find(|c| c.denom == d).map(|c| c.amount).unwrap_or_default());
pair!(a_asset_eq, b_asset_eq, (x: AssetInfo, y: AssetInfo) -> bool, x.equal(&y), x == y);
pair!(a_asset_ord, b_asset_ord, (x: Asset, y: Asset) -> bool, x.info == y.info && x.amount == y.amount, x == y);
pair!(a_asset_ref, b_asset_ref, (x: AssetInfo) -> Option<String>, match x { AssetInfo::NativeToken { denom } => Some(denom), _ => None }, if let AssetInfo::NativeToken { ref denom } = x { Some(denom.to_owned()) } else { None });
pair!(a_swap_arr, b_swap_arr, (x: [Asset; 2]) -> Vec<Asset>, vec![x[1].clone(), x[0].clone()], { let [a, b] = x; vec![b, a] });
pair!(a_closure_mut, b_closure_mut, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], { let mut v = vec![]; let mut add = |a: u64| v.push(a); add(x[0]); add(x[1]); v });
pair!(a_question_conv, b_question_conv, (x: Uint128, y: Uint128) -> StdResult<Uint128>, x.checked_sub(y).map_err(|e| StdError::Overflow { source: e }), { let r: Result<Uint128, OverflowError> = x.checked_sub(y); Ok(r?) });
pair!(a_const_arr, b_const_arr, (x: u8) -> bool, x == 3 || x == 7, { const A: [u8; 2] = [3, 7]; A.contains(&x) });
pair!(a_binop, b_binop, (x: u64, y: u64) -> bool, x >= y, !(x < y));
pair!(a_str_ends, b_str_ends, (x: u64) -> bool, x == 3, match x { 3 => true, _ => false });
pair!(a_option_as_mut, b_option_as_mut, (x: Option<u64>) -> Option<u64>, x.map(|_| 4), { let mut x = x; if let Some(v) = x.as_mut() { *v = 4; } x });
pair!(a_vec_from, b_vec_from, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], Vec::from(x));
pair!(a_vec_eq, b_vec_eq, (x: Vec<u64>, y: Vec<u64>) -> bool, x.iter().eq(y.iter()), x == y);
pair!(a_box_slice, b_box_slice, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], { let b: Box<[u64]> = Box::new(x); b.into_vec() });
pair!(a_hexa, b_hexa, (x: u8) -> bool, x >= 48 && x <= 57, (b'0'..=b'9').contains(&x));
pair!(a_digit, b_digit, (x: u8) -> bool, x >= 48 && x <= 57, x.is_ascii_digit());
pair!(a_wrap, b_wrap, (x: u64, y: u64) -> Option<u64>, x.checked_add(y), { let (v, o) = x.overflowing_add(y); if o { None } else { Some(v) } });
pair!(a_u128_mulover, b_u128_mulover, (x: u64, y: u64) -> u128, x as u128 * y as u128, u128::from(x).checked_mul(y.into()).unwrap());

// adaptors over adaptors with closures
fn up(v: &u64) -> u64 { v.saturating_add(1) }
pair!(a_lz_chain, b_lz_chain, (x: [u64; 2], y: u64) -> Vec<u64>, vec![up(&x[0]), up(&x[1]), y], x.iter().map(up).chain(std::iter::once(y)).collect());
pair!(a_lz_chain2, b_lz_chain2, (x: [u64; 2], y: [u64; 2]) -> Vec<u64>, vec![up(&x[0]), up(&x[1]), up(&y[0]), up(&y[1])], x.iter().map(up).chain(y.iter().map(|v| v.saturating_add(1))).collect());
pair!(a_lz_chain_rev, b_lz_chain_rev, (x: [u64; 2], y: u64) -> Vec<u64>, vec![y, up(&x[1]), up(&x[0])], x.iter().map(up).chain(std::iter::once(y)).rev().collect());
pair!(a_lz_chain_ok, b_lz_chain_ok, (x: [u64; 2], y: u64) -> Result<Vec<u64>, u64>, { if x[0] == 0 { return Err(0); } if x[1] == 0 { return Err(0); } Ok(vec![x[0], x[1], y]) }, x.iter().map(|v| if *v == 0 { Err(0) } else { Ok(*v) }).chain(std::iter::once(Ok(y))).collect());
pair!(a_lz_flat, b_lz_flat, (x: [u64; 2]) -> Vec<u64>, vec![x[0], up(&x[0]), x[1], up(&x[1])], x.iter().flat_map(|v| vec![*v, up(v)]).collect());
pair!(a_lz_flat2, b_lz_flat2, (x: [u64; 2]) -> Vec<u64>, vec![x[0], up(&x[0]), x[1], up(&x[1])], x.iter().map(|v| [*v, up(v)]).flatten().collect());
pair!(a_lz_step, b_lz_step, (x: [u64; 3]) -> Vec<u64>, vec![up(&x[0]), up(&x[2])], x.iter().map(up).step_by(2).collect());
pair!(a_lz_skip, b_lz_skip, (x: [u64; 3]) -> Vec<u64>, vec![up(&x[1]), up(&x[2])], x.iter().map(up).skip(1).collect());
pair!(a_lz_take, b_lz_take, (x: [u64; 3]) -> Vec<u64>, vec![up(&x[0]), up(&x[1])], x.iter().map(up).take(2).collect());
pair!(a_lz_rev, b_lz_rev, (x: [u64; 2]) -> Vec<u64>, vec![up(&x[1]), up(&x[0])], x.iter().map(up).rev().collect());
pair!(a_lz_zip, b_lz_zip, (x: [u64; 2], y: [u64; 2]) -> Vec<(u64, u64)>, vec![(up(&x[0]), up(&y[0])), (up(&x[1]), up(&y[1]))], x.iter().map(up).zip(y.iter().map(up)).collect());
pair!(a_lz_enum, b_lz_enum, (x: [u64; 2]) -> Vec<(usize, u64)>, vec![(0, up(&x[0])), (1, up(&x[1]))], x.iter().map(up).enumerate().collect());
pair!(a_lz_peek, b_lz_peek, (x: [u64; 2]) -> Vec<(u64, bool)>, vec![(up(&x[0]), true), (up(&x[1]), false)], { let mut it = x.iter().map(up).peekable(); let mut v = vec![]; while let Some(a) = it.next() { let more = it.peek().is_some(); v.push((a, more)); } v });
pair!(a_lz_takew, b_lz_takew, (x: [u64; 2]) -> Vec<u64>, { let mut v = vec![]; if x[0] < 5 { v.push(x[0]); if x[1] < 5 { v.push(x[1]); } } v }, x.iter().map(|v| *v).take_while(|v| *v < 5).collect());
pair!(a_lz_skipw, b_lz_skipw, (x: [u64; 2]) -> Vec<u64>, { if x[0] >= 5 { return vec![x[0], x[1]]; } if x[1] >= 5 { return vec![x[1]]; } vec![] }, x.iter().map(|v| *v).skip_while(|v| *v < 5).collect());
pair!(a_lz_mapw, b_lz_mapw, (x: [u64; 2]) -> Vec<u64>, { let mut v = vec![]; if x[0] < 5 { v.push(up(&x[0])); if x[1] < 5 { v.push(up(&x[1])); } } v }, x.iter().map_while(|v| if *v < 5 { Some(up(v)) } else { None }).collect());
pair!(a_lz_cycle, b_lz_cycle, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1], x[0]], x.iter().cycle().take(3).cloned().collect());
pair!(a_lz_last, b_lz_last, (x: [u64; 3]) -> Option<u64>, Some(up(&x[2])), x.iter().map(up).last());
pair!(a_lz_nth, b_lz_nth, (x: [u64; 3]) -> Option<u64>, Some(up(&x[1])), x.iter().map(up).nth(1));
pair!(a_lz_maxk, b_lz_maxk, (x: [u64; 2]) -> Option<u64>, Some(if x[1] >= x[0] { x[1] } else { x[0] }), x.iter().map(|v| *v).max_by_key(|v| *v));
pair!(a_lz_unzip, b_lz_unzip, (x: [u64; 2]) -> (Vec<u64>, Vec<u64>), (vec![x[0], x[1]], vec![up(&x[0]), up(&x[1])]), x.iter().map(|v| (*v, up(v))).unzip());
pair!(a_lz_part, b_lz_part, (x: [u64; 2]) -> (Vec<u64>, Vec<u64>), { let mut a = vec![]; let mut b = vec![]; for v in x { if v < 5 { a.push(v) } else { b.push(v) } } (a, b) }, x.iter().map(|v| *v).partition(|v| *v < 5));
pair!(a_lz_inspect, b_lz_inspect, (x: [u64; 2]) -> u64, 2, { let mut n = 0; let _: Vec<u64> = x.iter().map(up).inspect(|_| n += 1).collect(); n });
pair!(a_lz_scan, b_lz_scan, (x: [u64; 2]) -> Vec<u64>, vec![up(&x[0]), up(&x[0]).saturating_add(up(&x[1]))], x.iter().map(up).scan(0u64, |s, v| { *s = s.saturating_add(v); Some(*s) }).collect());
pair!(a_lz_fuse, b_lz_fuse, (x: [u64; 2]) -> Vec<u64>, vec![up(&x[0]), up(&x[1])], x.iter().map(up).fuse().collect());
pair!(a_lz_eq, b_lz_eq, (x: [u64; 2], y: [u64; 2]) -> bool, x[0] == y[0] && x[1] == y[1], x.iter().map(|v| *v).eq(y.iter().cloned()));
pair!(a_lz_cmp, b_lz_cmp, (x: u64, y: u64) -> bool, x < y, [x].iter().lt([y].iter()));
pair!(a_lz_reduce, b_lz_reduce, (x: [u64; 2]) -> Option<u64>, Some(if up(&x[1]) < up(&x[0]) { up(&x[1]) } else { up(&x[0]) }), x.iter().map(up).reduce(|a, b| if b < a { b } else { a }));
pair!(a_lz_tryfold, b_lz_tryfold, (x: [u64; 2]) -> Option<u64>, x[0].checked_add(x[1]), x.iter().map(|v| *v).try_fold(0u64, |a, v| a.checked_add(v)));
pair!(a_lz_dyn, b_lz_dyn, (x: [u64; 2], f: bool) -> Vec<u64>, if f { vec![x[0], x[1]] } else { vec![x[1], x[0]] }, { let it: Box<dyn Iterator<Item = &u64>> = if f { Box::new(x.iter()) } else { Box::new(x.iter().rev()) }; it.cloned().collect() });
pair!(a_lz_succ, b_lz_succ, (x: u64) -> Vec<u64>, vec![x, x.saturating_add(1), x.saturating_add(1).saturating_add(1)], std::iter::successors(Some(x), |v| Some(v.saturating_add(1))).take(3).collect());
pair!(a_lz_repeatw, b_lz_repeatw, (x: u64) -> Vec<u64>, vec![x, x], std::iter::repeat_with(|| x).take(2).collect());
pair!(a_lz_repeat, b_lz_repeat, (x: u64) -> Vec<u64>, vec![x, x], std::iter::repeat(x).take(2).collect());
pair!(a_lz_rangemap, b_lz_rangemap, (x: [u64; 3]) -> Vec<u64>, vec![x[0], x[1], x[2]], (0..x.len()).map(|i| x[i]).collect());
pair!(a_lz_windows, b_lz_windows, (x: [u64; 3]) -> bool, x[0] < x[1] && x[1] < x[2], x.windows(2).all(|w| w[0] < w[1]));
pair!(a_lz_chunks, b_lz_chunks, (x: [u64; 4]) -> Vec<u64>, vec![x[0], x[2]], x.chunks(2).map(|c| c[0]).collect());
pair!(a_lz_split, b_lz_split, (x: [u64; 3]) -> (u64, u64), (x[0], x[2]), match x.as_slice() { [a, .., b] => (*a, *b), _ => unreachable!() });
pair!(a_lz_sort, b_lz_sort, (x: [u64; 2]) -> [u64; 2], if x[1] < x[0] { [x[1], x[0]] } else { x }, { let mut y = x; y.sort_by(|a, b| a.cmp(b)); y });

// user-defined abstractions
struct Countdown(u64);
impl Iterator for Countdown { type Item = u64; fn next(&mut self) -> Option<u64> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } }
pair!(a_own_iter, b_own_iter, (x: u64) -> u64, x.saturating_add(2).saturating_add(1).saturating_add(0), Countdown(3).fold(x, |a, v| a.saturating_add(v)));
pair!(a_own_iter2, b_own_iter2, (x: [u64; 3]) -> Vec<u64>, vec![x[2], x[1], x[0]], { let mut v = vec![]; for i in Countdown(3) { v.push(x[i as usize]) } v });
pair!(a_own_iter3, b_own_iter3, (x: [u64; 3]) -> Vec<u64>, vec![x[2], x[0]], Countdown(3).filter(|i| *i != 1).map(|i| x[i as usize]).collect());
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Amt(u64);
impl std::ops::Add for Amt { type Output = Amt; fn add(self, o: Amt) -> Amt { Amt(self.0.saturating_add(o.0)) } }
impl std::ops::AddAssign for Amt { fn add_assign(&mut self, o: Amt) { self.0 = self.0.saturating_add(o.0) } }
impl std::iter::Sum for Amt { fn sum<I: Iterator<Item = Amt>>(it: I) -> Amt { it.fold(Amt(0), |a, b| a + b) } }
impl From<u64> for Amt { fn from(v: u64) -> Amt { Amt(v) } }
impl std::ops::Deref for Amt { type Target = u64; fn deref(&self) -> &u64 { &self.0 } }
impl std::fmt::Display for Amt { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::str::FromStr for Amt { type Err = (); fn from_str(s: &str) -> Result<Amt, ()> { if s.is_empty() { Err(()) } else { Ok(Amt(s.len() as u64)) } } }
impl AsRef<u64> for Amt { fn as_ref(&self) -> &u64 { &self.0 } }
impl std::ops::Index<usize> for Amt { type Output = u64; fn index(&self, _: usize) -> &u64 { &self.0 } }
impl Default for Amt { fn default() -> Amt { Amt(7) } }
impl PartialEq<u64> for Amt { fn eq(&self, o: &u64) -> bool { self.0 == *o } }
pair!(a_own_add, b_own_add, (x: u64, y: u64) -> u64, x.saturating_add(y), (Amt(x) + Amt(y)).0);
pair!(a_own_addassign, b_own_addassign, (x: u64, y: u64) -> u64, x.saturating_add(y), { let mut a = Amt(x); a += y.into(); *a });
pair!(a_own_sum, b_own_sum, (x: [u64; 2]) -> u64, x[0].saturating_add(x[1]), x.iter().map(|v| Amt(*v)).sum::<Amt>().0);
pair!(a_own_fmt, b_own_fmt, (x: u64) -> String, x.to_string(), format!("{}", Amt(x)));
pair!(a_own_tostr, b_own_tostr, (x: u64) -> String, x.to_string(), Amt(x).to_string());
pair!(a_own_parse, b_own_parse, (x: String) -> bool, !x.is_empty(), x.parse::<Amt>().is_ok());
pair!(a_own_ord, b_own_ord, (x: u64, y: u64) -> u64, if y >= x { y } else { x }, std::cmp::max(Amt(x), Amt(y)).0);
pair!(a_own_index, b_own_index, (x: u64) -> u64, x, Amt(x)[3]);
pair!(a_own_default, b_own_default, (x: u64) -> u64, x.saturating_add(7), (Amt(x) + Default::default()).0);
pair!(a_own_eq, b_own_eq, (x: u64, y: u64) -> bool, x == y, Amt(x) == y);
pair!(a_own_min, b_own_min, (x: [u64; 2]) -> Option<u64>, Some(if x[1] < x[0] { x[1] } else { x[0] }), x.iter().copied().map(Amt).min().map(|a| a.0));
trait Rule { const LIMIT: u64; fn ok(&self, v: u64) -> bool { v < Self::LIMIT } fn name(&self) -> &'static str; }
struct Lo; struct Hi;
impl Rule for Lo { const LIMIT: u64 = 5; fn name(&self) -> &'static str { "lo" } }
impl Rule for Hi { const LIMIT: u64 = 50; fn ok(&self, v: u64) -> bool { v <= Self::LIMIT } fn name(&self) -> &'static str { "hi" } }
fn check<R: Rule>(r: &R, v: u64) -> (bool, &'static str) { (r.ok(v), r.name()) }
pair!(a_trait_const, b_trait_const, (x: u64) -> (bool, String), (x < 5, "lo".to_string()), { let (a, b) = check(&Lo, x); (a, b.to_owned()) });
pair!(a_trait_over, b_trait_over, (x: u64) -> bool, x <= 50, check(&Hi, x).0);
trait Shape { fn area(&self) -> u64; }
impl Shape for Lo { fn area(&self) -> u64 { 1 } }
impl Shape for Hi { fn area(&self) -> u64 { 2 } }
pair!(a_trait_dyn, b_trait_dyn, (x: bool) -> u64, if x { 1 } else { 2 }, { let s: &dyn Shape = if x { &Lo } else { &Hi }; s.area() });
pair!(a_trait_dynvec, b_trait_dynvec, (x: u64) -> u64, x.saturating_add(3), { let s: Vec<Box<dyn Shape>> = vec![Box::new(Lo), Box::new(Hi)]; x.saturating_add(s.iter().map(|s| s.area()).sum()) });
trait Twice { fn twice(self) -> Self; }
impl Twice for u64 { fn twice(self) -> u64 { self.saturating_add(self) } }
impl<T: Twice> Twice for Option<T> { fn twice(self) -> Option<T> { self.map(|v| v.twice()) } }
pair!(a_ext_trait, b_ext_trait, (x: Option<u64>) -> Option<u64>, x.map(|v| v.saturating_add(v)), x.twice());
fn cg<const N: usize>(x: [u64; N]) -> u64 { x[N - 1] }
pair!(a_const_generic, b_const_generic, (x: [u64; 3]) -> u64, x[2], cg(x));
fn adder(n: u64) -> impl Fn(u64) -> u64 { move |v| v.saturating_add(n) }
pair!(a_ret_closure, b_ret_closure, (x: u64, y: u64) -> u64, y.saturating_add(x), adder(x)(y));
fn badder(n: u64) -> Box<dyn Fn(u64) -> u64> { Box::new(move |v| v.saturating_add(n)) }
pair!(a_ret_boxfn, b_ret_boxfn, (x: u64, y: u64) -> u64, y.saturating_add(x), badder(x)(y));
fn apply(f: impl FnOnce(u64) -> u64, v: u64) -> u64 { f(v) }
pair!(a_impl_fnonce, b_impl_fnonce, (x: u64, y: String) -> u64, x.saturating_add(y.len() as u64), apply(move |v| { let z = y; v.saturating_add(z.len() as u64) }, x));
fn dynapply(f: &mut dyn FnMut(u64), v: u64) { f(v); f(v) }
pair!(a_dyn_fnmut, b_dyn_fnmut, (x: u64) -> u64, x.saturating_add(x), { let mut t = 0u64; dynapply(&mut |v| t = t.saturating_add(v), x); t });
fn gcd3(a: u64, n: u8) -> u64 { if n == 0 { a } else { gcd3(a.saturating_add(1), n - 1) } }
pair!(a_recurse, b_recurse, (x: u64) -> u64, x.saturating_add(1).saturating_add(1).saturating_add(1), gcd3(x, 3));
pair!(a_bind_at, b_bind_at, (x: u64) -> u64, if x >= 1 && x <= 5 { x } else { 0 }, match x { n @ 1..=5 => n, _ => 0 });
pair!(a_or_pat, b_or_pat, (x: Option<u64>) -> bool, x == None || x == Some(0) || x == Some(9), matches!(x, None | Some(0 | 9)));
pair!(a_ref_mut_pat, b_ref_mut_pat, (x: Option<u64>) -> Option<u64>, x.map(|v| v.saturating_add(1)), { let mut x = x; if let Some(ref mut v) = x { *v = v.saturating_add(1); } x });
fn bump(x: &mut [u64]) { for v in x.iter_mut() { *v = v.saturating_add(1) } }
pair!(a_slice_mut, b_slice_mut, (x: [u64; 2]) -> [u64; 2], [x[0].saturating_add(1), x[1].saturating_add(1)], { let mut x = x; bump(&mut x); x });
pair!(a_slice_mut2, b_slice_mut2, (x: [u64; 2]) -> [u64; 2], [x[0], x[1].saturating_add(1)], { let mut x = x; bump(&mut x[1..]); x });
pair!(a_split_mut, b_split_mut, (x: [u64; 2]) -> [u64; 2], [x[1], x[0]], { let mut x = x; let (a, b) = x.split_at_mut(1); std::mem::swap(&mut a[0], &mut b[0]); x });
pair!(a_first_mut, b_first_mut, (x: [u64; 2]) -> [u64; 2], [3, x[1]], { let mut x = x; if let Some(a) = x.first_mut() { *a = 3 } x });
pair!(a_get_opt, b_get_opt, (x: [u64; 2]) -> Option<u64>, Some(x[1]), x.get(1).copied());
pair!(a_lookup, b_lookup, (x: bool) -> u64, if x { 8 } else { 4 }, { static T: [u64; 2] = [4, 8]; T[x as usize] });
pair!(a_const_fn, b_const_fn, (x: u64) -> bool, x < 12, { const fn lim(a: u64) -> u64 { a * 3 } const L: u64 = lim(4); x < L });
pair!(a_labeled_cont, b_labeled_cont, (x: [u64; 2], y: [u64; 2]) -> u64, { let mut n = 0; if !(x[0] == y[0] || x[0] == y[1]) { n += 1 } if !(x[1] == y[0] || x[1] == y[1]) { n += 1 } n }, { let mut n = 0; 'o: for a in x { for b in y { if a == b { continue 'o; } } n += 1; } n });
pair!(a_nested_arr, b_nested_arr, (x: [[u64; 2]; 2]) -> u64, x[1][0], { let f: Vec<u64> = x.iter().flatten().copied().collect(); f[2] });
pair!(a_phantom, b_phantom, (x: u64) -> u64, x, { struct P<T>(u64, std::marker::PhantomData<T>); let p: P<Lo> = P(x, std::marker::PhantomData); p.0 });
pair!(a_enum_nested, b_enum_nested, (x: Option<Result<u64, u64>>) -> u64, match x { Some(Ok(v)) => v, Some(Err(v)) => v, None => 0 }, x.map_or(0, |r| r.unwrap_or_else(|e| e)));
pair!(a_err_from, b_err_from, (x: u64) -> Result<u64, String>, if x == 0 { Err("zero".to_string()) } else { Ok(x) }, { struct E; impl From<E> for String { fn from(_: E) -> String { "zero".into() } } fn f(x: u64) -> Result<u64, E> { if x == 0 { Err(E) } else { Ok(x) } } Ok(f(x)?) });
pair!(a_early_closure, b_early_closure, (x: u64, y: u64) -> Option<u64>, x.checked_sub(y).and_then(|v| v.checked_sub(1)), (|| { let v = x.checked_sub(y)?; let w = v.checked_sub(1)?; Some(w) })());
pair!(a_tuple_ret, b_tuple_ret, (x: u64, y: u64) -> u64, if x < y { y } else { x }, { let (_, b) = if x < y { (x, y) } else { (y, x) }; b });
pair!(a_macro, b_macro, (x: u64, y: u64) -> Option<u64>, x.checked_sub(y), { macro_rules! sub { ($a:expr, $b:expr) => { if $a < $b { None } else { Some($a - $b) } } } sub!(x, y) });
pair!(a_loop_val, b_loop_val, (x: [u64; 2]) -> u64, if x[0] > 3 { x[0] } else { x[1] }, { let mut i = 0; loop { if i == 1 || x[i] > 3 { break x[i]; } i += 1; } });
pair!(a_sort_rev, b_sort_rev, (x: [u64; 2]) -> [u64; 2], if x[0] < x[1] { [x[1], x[0]] } else { x }, { let mut x = x; x.sort_by_key(|v| std::cmp::Reverse(*v)); x });
pair!(a_sort_cached, b_sort_cached, (x: [u64; 2]) -> [u64; 2], if x[1] < x[0] { [x[1], x[0]] } else { x }, { let mut x = x; x.sort_by_cached_key(|v| *v); x });
pair!(a_str_split, b_str_split, (x: bool) -> String, if x { "ab".into() } else { "c".into() }, { let s = if x { "k:ab" } else { "k:c" }; s.split(':').last().unwrap().to_string() });
pair!(a_str_strip, b_str_strip, (x: bool) -> Option<String>, if x { Some("ab".into()) } else { None }, { let s = if x { "k:ab" } else { "z" }; s.strip_prefix("k:").map(str::to_string) });
pair!(a_str_push, b_str_push, (x: String, y: String) -> String, format!("{}-{}", x, y), { let mut s = String::with_capacity(9); s.push_str(&x); s.push('-'); s += &y; s });
pair!(a_str_iter, b_str_iter, (x: String, y: String) -> String, format!("{}{}", x, y), [x, y].iter().map(|s| s.as_str()).collect());
pair!(a_str_ext, b_str_ext, (x: String, y: String) -> String, format!("{}{}", x, y), { let mut s = x; s.extend([y.as_str()]); s });
pair!(a_fmt_named, b_fmt_named, (x: String, y: u64) -> String, format!("{}:{}", x, y), { let n = y; format!("{x}:{n}") });
pair!(a_fmt_pos, b_fmt_pos, (x: String, y: u64) -> String, format!("{}:{}", x, y), format!("{1}:{0}", y, x));
pair!(a_res_iter, b_res_iter, (x: Option<u64>, y: Option<u64>) -> Vec<u64>, { let mut v = vec![]; if let Some(a) = x { v.push(a) } if let Some(a) = y { v.push(a) } v }, [x, y].into_iter().flatten().collect());
pair!(a_opt_chain_vec, b_opt_chain_vec, (x: u64, y: Option<u64>) -> Vec<u64>, { let mut v = vec![x]; v.extend(y); v }, Some(x).into_iter().chain(y).collect());
pair!(a_u_ok_or, b_u_ok_or, (x: Uint128, y: Uint128) -> Option<Uint128>, if x < y { None } else { Some(x - y) }, x.u128().checked_sub(y.u128()).map(Uint128::new));
pair!(a_u_fold, b_u_fold, (x: [Uint128; 2]) -> Result<Uint128, OverflowError>, x[0].checked_add(x[1]), x.iter().try_fold(Uint128::zero(), |a, b| a.checked_add(*b)));
pair!(a_u_min_iter, b_u_min_iter, (x: [Uint128; 2]) -> Uint128, if x[1] < x[0] { x[1] } else { x[0] }, *x.iter().min().unwrap());
pair!(a_u_half, b_u_half, (x: u64) -> u64, x / 2, x >> 1);
pair!(a_u_rem, b_u_rem, (x: u64) -> u64, x - (x / 10) * 10, x % 10);
pair!(a_u_isz, b_u_isz, (x: Uint128) -> bool, x.is_zero(), x.u128() == 0);
pair!(a_u_gt0, b_u_gt0, (x: Uint128) -> bool, !x.is_zero(), x > Uint128::zero());
pair!(a_u_negcmp, b_u_negcmp, (x: Uint128, y: Uint128) -> bool, x <= y, x.cmp(&y) != std::cmp::Ordering::Greater);
pair!(a_u_partial, b_u_partial, (x: Uint128, y: Uint128) -> bool, x < y, x.partial_cmp(&y).map_or(false, |o| o.is_lt()));
pair!(a_deque_from, b_deque_from, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], { let mut q: VecDeque<u64> = x.to_vec().into(); let mut v = vec![]; while let Some(a) = q.pop_front() { v.push(a) } v });
pair!(a_deque_from2, b_deque_from2, (x: [u64; 2]) -> Vec<u64>, vec![x[1], x[0]], { let mut q = VecDeque::from(x); q.rotate_left(1); Vec::from(q) });
pair!(a_deque_from3, b_deque_from3, (x: [u64; 2]) -> Vec<u64>, vec![x[1], x[0]], { let mut q: VecDeque<u64> = x.iter().rev().copied().collect(); q.make_contiguous(); q.into() });
pair!(a_btree_from, b_btree_from, (x: u64, y: u64) -> Option<u64>, Some(x), { let m = BTreeMap::from([(1u8, x), (2, y)]); m.get(&1).copied() });
pair!(a_hash_from, b_hash_from, (x: u64, y: u64) -> usize, if x == y { 1 } else { 2 }, HashSet::from([x, y]).len());
pair!(a_slice_from, b_slice_from, (x: [u64; 2]) -> Vec<u64>, vec![x[0], x[1]], { let s: &[u64] = &x; s.into() });
pair!(a_hs_take, b_hs_take, (x: u64, y: u64) -> usize, if x == y { 0 } else { 1 }, { let mut s = HashSet::new(); s.insert(x); let _ = s.take(&y); s.len() });
pair!(a_hs_replace, b_hs_replace, (x: u64, y: u64) -> Option<u64>, if x == y { Some(y) } else { None }, { let mut s = HashSet::new(); s.insert(x); s.replace(y) });
pair!(a_hs_get, b_hs_get, (x: u64, y: u64) -> Option<u64>, if x == y { Some(y) } else { None }, { let mut s = HashSet::new(); s.insert(x); s.get(&y).copied() });
pair!(a_hs_retain, b_hs_retain, (x: u64, y: u64) -> usize, if x == y { 0 } else { 1 }, { let mut s = HashSet::from([x]); s.retain(|v| *v != y); s.len() });
pair!(a_hm_retain, b_hm_retain, (x: u64, y: u64) -> Option<u64>, if x > 3 { Some(y) } else { None }, { let mut s = HashMap::from([(1u8, (x, y))]); s.retain(|_, v| v.0 > 3); s.get(&1).map(|v| v.1) });
pair!(a_hm_rentry, b_hm_rentry, (x: u64, y: u64) -> u64, y, { let mut s = HashMap::from([(x, y)]); let (_, v) = s.remove_entry(&x).unwrap(); v });
pair!(a_bs_first, b_bs_first, (x: u64, y: u64) -> u64, if y < x { y } else { x }, { let s = BTreeSet::from([x, y]); *s.first().unwrap() });
pair!(a_bm_last, b_bm_last, (x: u64, y: u64) -> u64, y, { let s = BTreeMap::from([(1u8, x), (2, y)]); *s.last_key_value().unwrap().1 });
pair!(a_bs_pop, b_bs_pop, (x: u64, y: u64) -> Vec<u64>, if y < x { vec![y, x] } else if x == y { vec![x] } else { vec![x, y] }, { let mut s = BTreeSet::from([x, y]); let mut v = vec![]; while let Some(a) = s.pop_first() { v.push(a) } v });
pair!(a_hs_diff, b_hs_diff, (x: u64, y: u64) -> usize, if x == y { 0 } else { 1 }, { let s = HashSet::from([x]); let t = HashSet::from([y]); s.difference(&t).count() });
pair!(a_hs_inter, b_hs_inter, (x: u64, y: u64) -> bool, x == y, { let s = HashSet::from([x]); let t = HashSet::from([y]); !s.is_disjoint(&t) });
pair!(a_hs_union, b_hs_union, (x: u64, y: u64) -> usize, if x == y { 1 } else { 2 }, { let s = HashSet::from([x]); let t = HashSet::from([y]); s.union(&t).count() });
pair!(a_hs_sub, b_hs_sub, (x: u64, y: u64) -> bool, x == y, HashSet::from([x]).is_subset(&HashSet::from([y])));
pair!(a_hs_eq, b_hs_eq, (x: u64, y: u64) -> bool, x == y, HashSet::from([x]) == HashSet::from([y]));
pair!(a_bm_drain, b_bm_drain, (x: u64) -> u64, x, { let mut s = HashMap::from([(1u8, x)]); let v: Vec<_> = s.drain().collect(); v[0].1 + s.len() as u64 });
pair!(a_bm_vmut, b_bm_vmut, (x: u64) -> Option<u64>, Some(7), { let mut s = BTreeMap::from([(1u8, x)]); for v in s.values_mut() { *v = 7 } s.get(&1).copied() });
pair!(a_hs_collect, b_hs_collect, (x: u64, y: u64) -> bool, x == y, [x, y].into_iter().collect::<HashSet<_>>().len() == 1);
pair!(a_hs_extend, b_hs_extend, (x: u64, y: u64) -> usize, if x == y { 1 } else { 2 }, { let mut s = HashSet::new(); s.extend([x, y]); s.len() });
pair!(a_limb_cast, b_limb_cast, (x: u128) -> u128, x, ((x >> 64) as u64 as u128) << 64 | (x as u64 as u128));
pair!(a_split_at_oob, b_split_at_oob, (x: Vec<u64>) -> u64, if x.len() < 2 { panic!() } else { x[1] }, { let (_, b) = x.split_at(2); if b.is_empty() { x[1] } else { x[1] } });
pair!(a_split_first_mut, b_split_first_mut, (x: [u64; 2]) -> [u64; 2], [x[1], 4], { let mut x = x; if let Some((a, r)) = x.split_first_mut() { *a = r[0]; r[0] = 4; } x });
pair!(a_it_cmp, b_it_cmp, (x: u64, y: u64) -> u8, if x < y { 0 } else if x == y { 1 } else { 2 }, match [x].iter().cmp([y].iter()) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 });
pair!(a_hm_ext, b_hm_ext, (x: u64, y: u64) -> Option<u64>, Some(y), { let mut s = HashMap::from([(1u8, x)]); s.extend([(1u8, y)]); s.get(&1).copied() });
pair!(a_dq_ext, b_dq_ext, (x: u64, y: u64) -> Option<u64>, Some(y), { let mut s = VecDeque::new(); s.extend([x, y]); s.pop_back() });
pair!(a_sort_sub, b_sort_sub, (x: [u64; 3]) -> [u64; 3], if x[2] < x[1] { [x[0], x[2], x[1]] } else { x }, { let mut x = x; x[1..].sort(); x });
pair!(a_swap_sub, b_swap_sub, (x: [u64; 3]) -> [u64; 3], [x[1], x[0], x[2]], { let mut x = x; x[..2].reverse(); x });
pair!(a_for_sub, b_for_sub, (x: [u64; 3]) -> [u64; 3], [x[0], 1, 1], { let mut x = x; for v in &mut x[1..] { *v = 1 } x });
pair!(a_copy_sub, b_copy_sub, (x: [u64; 2], y: u64) -> [u64; 3], [y, x[0], x[1]], { let mut r = [y; 3]; r[1..].copy_from_slice(&x); r });
