// The part of the NEON intrinsics that a byte scanner can need, in plain C++, so that code written for NEON
// can be run on any machine. Lane 0 is the lowest in memory, as on a little-endian ARM.
#pragma once
#include <cstdint>
#include <cstring>

template <class T, int N>
struct neon_vec
{
  T lane[N];
};
typedef neon_vec<uint8_t, 16> uint8x16_t;
typedef neon_vec<int8_t, 16> int8x16_t;
typedef neon_vec<uint16_t, 8> uint16x8_t;
typedef neon_vec<uint32_t, 4> uint32x4_t;
typedef neon_vec<uint64_t, 2> uint64x2_t;
typedef neon_vec<uint8_t, 8> uint8x8_t;
typedef neon_vec<uint16_t, 4> uint16x4_t;
typedef neon_vec<uint32_t, 2> uint32x2_t;
typedef neon_vec<uint64_t, 1> uint64x1_t;

template <class To, class From>
static inline To neon_cast(const From &v)
{
  static_assert(sizeof(To) == sizeof(From), "a reinterpretation keeps the size");
  To r;
  memcpy(&r, &v, sizeof r);
  return r;
}
template <class V, class F>
static inline V neon_map(const V &a, const V &b, F f)
{
  V r;
  for (size_t i = 0; i < sizeof r.lane / sizeof r.lane[0]; i++)
    r.lane[i] = static_cast<typename std::remove_reference<decltype(r.lane[0])>::type>(f(a.lane[i], b.lane[i]));
  return r;
}
#define NEON_OP(name, V, expr)                                                                                         \
  static inline V name(V a, V b)                                                                                       \
  {                                                                                                                    \
    return neon_map(a, b, [](uint64_t x, uint64_t y) -> uint64_t { return expr; });                                    \
  }
#define NEON_OPS(s, V)                                                                                                 \
  NEON_OP(vceqq_##s, V, x == y ? ~uint64_t(0) : 0)                                                                     \
  NEON_OP(vcgeq_##s, V, x >= y ? ~uint64_t(0) : 0)                                                                     \
  NEON_OP(vcleq_##s, V, x <= y ? ~uint64_t(0) : 0)                                                                     \
  NEON_OP(vcgtq_##s, V, x > y ? ~uint64_t(0) : 0)                                                                      \
  NEON_OP(vcltq_##s, V, x < y ? ~uint64_t(0) : 0)                                                                      \
  NEON_OP(vtstq_##s, V, (x & y) ? ~uint64_t(0) : 0)                                                                    \
  NEON_OP(vandq_##s, V, x &y)                                                                                          \
  NEON_OP(vorrq_##s, V, x | y)                                                                                         \
  NEON_OP(veorq_##s, V, x ^ y)                                                                                         \
  NEON_OP(vbicq_##s, V, x & ~y)                                                                                        \
  NEON_OP(vornq_##s, V, x | ~y)                                                                                        \
  NEON_OP(vaddq_##s, V, x + y)                                                                                         \
  NEON_OP(vsubq_##s, V, x - y)                                                                                         \
  NEON_OP(vmaxq_##s, V, x > y ? x : y)                                                                                 \
  NEON_OP(vminq_##s, V, x < y ? x : y)                                                                                 \
  static inline V vmvnq_##s(V a)                                                                                       \
  {                                                                                                                    \
    return neon_map(a, a, [](uint64_t x, uint64_t) { return ~x; });                                                    \
  }
#define NEON_VEC(s, T, V)                                                                                              \
  static inline V vdupq_n_##s(T x)                                                                                     \
  {                                                                                                                    \
    V r;                                                                                                               \
    for (auto &l : r.lane)                                                                                             \
      l = x;                                                                                                           \
    return r;                                                                                                          \
  }                                                                                                                    \
  static inline V vmovq_n_##s(T x)                                                                                     \
  {                                                                                                                    \
    return vdupq_n_##s(x);                                                                                             \
  }                                                                                                                    \
  static inline V vld1q_##s(const T *p)                                                                                \
  {                                                                                                                    \
    V r;                                                                                                               \
    memcpy(r.lane, p, sizeof r.lane);                                                                                  \
    return r;                                                                                                          \
  }                                                                                                                    \
  static inline void vst1q_##s(T *p, V v)                                                                              \
  {                                                                                                                    \
    memcpy(p, v.lane, sizeof v.lane);                                                                                  \
  }                                                                                                                    \
  static inline T vgetq_lane_##s(V v, int i)                                                                           \
  {                                                                                                                    \
    return v.lane[i];                                                                                                  \
  }                                                                                                                    \
  static inline T vmaxvq_##s(V v)                                                                                      \
  {                                                                                                                    \
    T m = v.lane[0];                                                                                                   \
    for (auto l : v.lane)                                                                                              \
      m = l > m ? l : m;                                                                                               \
    return m;                                                                                                          \
  }                                                                                                                    \
  static inline T vminvq_##s(V v)                                                                                      \
  {                                                                                                                    \
    T m = v.lane[0];                                                                                                   \
    for (auto l : v.lane)                                                                                              \
      m = l < m ? l : m;                                                                                               \
    return m;                                                                                                          \
  }                                                                                                                    \
  static inline T vaddvq_##s(V v)                                                                                      \
  {                                                                                                                    \
    T m = 0;                                                                                                           \
    for (auto l : v.lane)                                                                                              \
      m = T(m + l);                                                                                                    \
    return m;                                                                                                          \
  }                                                                                                                    \
  NEON_OPS(s, V)
NEON_VEC(u8, uint8_t, uint8x16_t)
NEON_VEC(u16, uint16_t, uint16x8_t)
NEON_VEC(u32, uint32_t, uint32x4_t)
NEON_VEC(u64, uint64_t, uint64x2_t)

#define NEON_CAST(to, V, from, W)                                                                                      \
  static inline V vreinterpretq_##to##_##from(W v)                                                                     \
  {                                                                                                                    \
    return neon_cast<V>(v);                                                                                            \
  }
NEON_CAST(u16, uint16x8_t, u8, uint8x16_t)
NEON_CAST(u32, uint32x4_t, u8, uint8x16_t)
NEON_CAST(u64, uint64x2_t, u8, uint8x16_t)
NEON_CAST(u8, uint8x16_t, u16, uint16x8_t)
NEON_CAST(u8, uint8x16_t, u32, uint32x4_t)
NEON_CAST(u8, uint8x16_t, u64, uint64x2_t)
NEON_CAST(u64, uint64x2_t, u16, uint16x8_t)
NEON_CAST(u64, uint64x2_t, u32, uint32x4_t)

static inline uint8x16_t vshrq_n_u8(uint8x16_t v, int n)
{
  for (auto &l : v.lane)
    l = uint8_t(l >> n);
  return v;
}
static inline uint8x16_t vshlq_n_u8(uint8x16_t v, int n)
{
  for (auto &l : v.lane)
    l = uint8_t(l << n);
  return v;
}
static inline uint8x8_t vshrn_n_u16(uint16x8_t v, int n)
{
  uint8x8_t r;
  for (int i = 0; i < 8; i++)
    r.lane[i] = uint8_t(v.lane[i] >> n);
  return r;
}
static inline uint64x1_t vreinterpret_u64_u8(uint8x8_t v)
{
  return neon_cast<uint64x1_t>(v);
}
static inline uint32x2_t vreinterpret_u32_u8(uint8x8_t v)
{
  return neon_cast<uint32x2_t>(v);
}
static inline uint64_t vget_lane_u64(uint64x1_t v, int i)
{
  return v.lane[i];
}
static inline uint32_t vget_lane_u32(uint32x2_t v, int i)
{
  return v.lane[i];
}
static inline uint8_t vget_lane_u8(uint8x8_t v, int i)
{
  return v.lane[i];
}
static inline uint8x8_t vget_low_u8(uint8x16_t v)
{
  uint8x8_t r;
  memcpy(r.lane, v.lane, 8);
  return r;
}
static inline uint8x8_t vget_high_u8(uint8x16_t v)
{
  uint8x8_t r;
  memcpy(r.lane, v.lane + 8, 8);
  return r;
}
static inline uint8x8_t vorr_u8(uint8x8_t a, uint8x8_t b)
{
  return neon_map(a, b, [](uint64_t x, uint64_t y) { return x | y; });
}
static inline uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t i)
{
  uint8x16_t r;
  for (int k = 0; k < 16; k++)
    r.lane[k] = i.lane[k] < 16 ? t.lane[i.lane[k]] : 0;
  return r;
}
