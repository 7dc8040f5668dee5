#pragma once
#include "h.hpp"
namespace h {
// the formats of FMTS in spec/core.qnt, in that order
using ALL = fmts<
    FX<i8, i16, 4>, FX<u8, u16, 4>, FX<i8, i16, 1>, FX<i8, i16, 7>,
    FX<i16, i32, 8>, FX<u16, u32, 8>, F32, FX<i32, i64, 8>,
    FX<i32, i64, 20>, FX<i32, i64, 28>, FX<u32, u64, 16>, F64,
    FX<i64, i128, 16>, FX<i64, i128, 40>, FX<u64, u128, 32>,
    FX<i8, i16, 4, true>, FX<i16, i32, 8, true>, FX<i32, i64, 16, true>, FX<i64, i128, 32, true>,
    FX<u32, u64, 16, true>>;

// further formats, without behaviours of their own: other splits of each width, wider intermediate types
using MORE = fmts<
    FX<i8, i16, 6>, FX<i8, i32, 3>, FX<u8, u16, 7>, FX<u8, u16, 4, true>, FX<i8, i16, 1, true>,
    FX<i16, i32, 12>, FX<i16, i64, 4>, FX<u16, u64, 13>, FX<i16, i32, 14>, FX<u16, u32, 8, true>,
    FX<i32, i64, 24>, FX<i32, i128, 16>, FX<i32, i64, 2>, FX<u32, u64, 24>, FX<i32, i64, 30>, FX<i32, i64, 24, true>,
    FX<i64, i128, 8>, FX<i64, i128, 48>, FX<i64, i128, 60>, FX<u64, u128, 16>, FX<u64, u128, 48>, FX<i64, i128, 16, true>, FX<i64, i128, 48, true>, FX<u64, u128, 32, true>,
    FX<i32, i64, 31>, FX<i32, i64, 13>, FX<i64, i128, 37>, FX<i16, i32, 15>, FX<u16, u32, 3>, FX<i64, i128, 62>, FX<i32, i64, 13, true>, FX<i64, i128, 37, true>>;
template <typename... F> void every_one(fmts<F...>, auto& fn) { each2<0>(fmts<F...>{}, fn); }
// all of them; the further ones with a fraction of the effort
template <typename Fn> void every(Fn fn) { every_one(ALL{}, fn); scale = 4; every_one(MORE{}, fn); scale = 1; }
} // namespace h
