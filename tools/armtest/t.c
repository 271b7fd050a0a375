// Functions compiled for both processors: the interpreter of src/arm.rs has to give what this host computes.
typedef unsigned long u64; typedef long i64; typedef unsigned int u32; typedef int i32;
typedef unsigned short u16; typedef short i16; typedef unsigned char u8; typedef signed char i8;
typedef unsigned __int128 u128; typedef __int128 i128;
#define F(n) u64 armtest_##n(u64 a, u64 b, u64 c, u64 d)
#ifdef __aarch64__
void ckb_vm_x64_execute(void) {}
void ckb_vm_asm_labels(void) {}
#endif
static u64 rotr(u64 x, u32 n) { n &= 63; return x >> n | x << (-n & 63); }
static u32 rotr32(u32 x, u32 n) { n &= 31; return x >> n | x << (-n & 31); }
F(arith) { return a + b * c - (d ^ a) + (a & ~b) + (c | ~d) + (a ^ ~c) + -b; }
F(shifts) { return (a << (b & 63)) ^ (c >> (d & 63)) ^ (u64)((i64)a >> (d & 63)) ^ rotr(b, c) ^ rotr(a, 13) ^ (u64)((i64)c >> 17) ^ a << 5 ^ b >> 9; }
F(shifts32) { return (u32)a << (b & 31) ^ (u32)c >> (d & 31) ^ (u64)(u32)((i32)a >> (d & 31)) ^ rotr32(b, c) ^ rotr32(a, 7) ^ (u64)((i32)c >> 3); }
F(high) { return (u64)((u128)a * b >> 64) ^ (u64)((i128)(i64)c * (i64)d >> 64); }
F(wide) { u128 x = ((u128)a << 64 | b), y = ((u128)c << 64 | d); u128 s = x + y, t = x - y; return (u64)(s >> 64) ^ (u64)s ^ (u64)(t >> 64) ^ (u64)t ^ (x < y) ^ ((i128)x < (i128)y) << 1; }
F(mull) { return (u64)(u32)a * (u32)b + c + (u64)((i64)(i32)c * (i32)d) - (u64)((i64)(i32)a * (i32)d); }
F(div) { return (b ? a / b : 7) ^ (d ? c % d : 9) ^ (u64)((i64)d != 0 && !((i64)d == -1) ? (i64)a / (i64)d : 5) ^ (u64)((i64)b != 0 && (i64)b != -1 ? (i64)c % (i64)b : 3); }
F(div32) { u32 x = a, y = b; i32 z = c, w = d; return (y ? x / y : 7) ^ (y ? x % y : 9) ^ (u64)(w && w != -1 ? z / w : 5) ^ (u64)(w && w != -1 ? z % w : 3) << 20; }
F(bits) { return (a ? __builtin_clzl(a) : 64) + (b ? __builtin_ctzl(b) : 64) * 65 + __builtin_popcountl(c) * 5000 + ((u32)d ? __builtin_clz(d) : 32) * 1000000ul; }
F(rev) { return __builtin_bswap64(a) ^ __builtin_bswap32(b) ^ (u64)__builtin_bswap16(c) << 40 ^ __builtin_bitreverse64(d) ^ __builtin_bitreverse32(a); }
F(rev16) { return ((a & 0xff00ff00ff00ff00ul) >> 8 | (a & 0x00ff00ff00ff00fful) << 8) ^ (((u32)b & 0xff00ff00u) >> 8 | ((u32)b & 0x00ff00ffu) << 8); }
F(clrsb) { return __builtin_clrsbl(a) ^ __builtin_clrsb((i32)b) << 8; }
F(field) { return (a >> 7 & 0x1ff) ^ (u64)((i64)(b << 20) >> 40) ^ ((c & 0xffff) << 13) ^ (u64)((i64)(i8)d << 3) ^ (u64)(i16)a << 9 ^ (u64)((i32)((u32)b << 4) >> 9); }
F(insert) { a = (a & ~0xff00ul) | (b & 0xff) << 8; a = (a & ~0xffful) | (c >> 20 & 0xfff); u32 x = d; x = (x & ~0x1f0u) | ((u32)a & 0x1f) << 4; return a ^ (u64)x << 16; }
F(cmp) { return (a < b) | ((i64)a < (i64)b) << 1 | (a <= c) << 2 | ((i64)a <= (i64)c) << 3 | ((u32)a > (u32)d) << 4 | ((i32)a >= (i32)d) << 5 | (a == b) << 6 | (a != c) << 7 | ((a & b) == 0) << 8 | ((i64)(a + b) < 0) << 9; }
F(ccmp) { u64 r = 0; if (a < b && c > d) r += 1; if (a == b || (i64)c < (i64)d) r += 2; if ((i64)a > 5 && (i64)b < -3 && c != d) r += 4; if ((u32)a < 1000 || (u32)b == 0 || (i32)c <= (i32)d) r += 8; if (a > 10 && a < 20) r += 16; return r; }
F(csel) { u64 x = a < b ? c : d; u64 y = (i64)c < 0 ? -c : c; u64 z = a == b ? ~c : d; u64 w = (u32)a > (u32)b ? d + 1 : c; return x * 3 + y * 5 + z * 7 + w; }
F(consts) { return (a & 0x5555555555555555ul) ^ (b & 0x00ff00ff00ff00fful) ^ (c | 0xfffffffffffff000ul) ^ (d ^ 0x123456789abcdef0ul) ^ 0xffffffff12345678ul ^ ((u32)a & 0xf0f0f0f0u) ^ ((u32)b ^ 0x7ffffffeu) ^ 0xffff0000ffff1234ul; }
static const u32 K[16] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174};
F(hash) {
  volatile u32 w[16]; u64 v[4] = {a, b, c, d};
  for (int i = 0; i < 16; i++) w[i] = (u32)(v[i & 3] >> (i * 2)) ^ K[i];
  u32 h = 0x6a09e667, g = 0xbb67ae85;
  for (int i = 0; i < 64; i++) { u32 t = h + (rotr32(g, 6) ^ rotr32(g, 11) ^ rotr32(g, 25)) + ((g & h) ^ (~g & K[i & 15])) + w[i & 15]; h = g; g = t; w[(i + 1) & 15] += t; }
  return (u64)h << 32 | g;
}
F(bytes) {
  volatile u8 buf[64]; i64 s = 0;
  for (int i = 0; i < 64; i++) buf[i] = (u8)(a >> (i & 7) * 8) + (u8)b * i;
  for (int i = 0; i < 63; i++) { s = s * 31 + (i8)buf[i]; s ^= *(volatile i16 *)(buf + (i & ~1)); s += *(volatile u16 *)(buf + (i & ~1)); s -= *(volatile i32 *)(buf + (i & 60)); s += *(volatile u32 *)(buf + (i & 60)) * c; if (i < 56) s ^= *(volatile i64 *)(buf + (i & 56)); s += (i32)(i8)buf[i] & (u32)d; s += (u32)(i16)*(volatile i16 *)(buf + (i & ~1)); }
  return s;
}
F(table) { switch (a % 11) { case 0: return b + 1; case 1: return c ^ 5; case 2: return d * 3; case 3: return b - c; case 4: return ~b; case 5: return b & c; case 6: return c | d; case 7: return b >> 3; case 8: return (u64)((i64)c >> 5); case 9: return b * c; default: return d; } }
__attribute__((noinline)) static u64 fa(u64 x, u64 y) { return x * 3 + y; }
__attribute__((noinline)) static u64 fb(u64 x, u64 y) { return x ^ rotr(y, 5); }
__attribute__((noinline)) static u64 fib(u64 n, u64 k) { return n < 2 ? n + k : fib(n - 1, k) + fib(n - 2, k * 3); }
F(calls) { u64 (*volatile p)(u64, u64) = a & 1 ? fa : fb; return p(b, c) + fib(d % 12, a) + fa(c, d); }
F(loops) { u64 r = a; for (u64 i = 0; i < (b & 255); i++) { if (r & 1) r = r * 3 + c; else r >>= 1; if (r >> 63) r ^= d; if (!(r & 0x100000)) r += i; if (r == 0) r = 1; } return r; }
F(structs) { struct { u32 x; u8 y; u16 z; u64 w; i8 q[3]; } volatile s[4]; for (int i = 0; i < 4; i++) { s[i].x = a >> i; s[i].y = b >> i; s[i].z = c >> i; s[i].w = d * i; s[i].q[i % 3] = a >> 8; s[i].q[(i + 1) % 3] = b; s[i].q[(i + 2) % 3] = c; } u64 r = 0; for (int k = 0; k < 8; k++) { int i = (a + k * b) & 3; r = r * 1000003 + s[i].x + s[i].y * 7 + s[i].z + s[i].w + s[i].q[k % 3]; } return r; }
F(minmax) { i64 x = (i64)a < (i64)b ? a : b; u64 y = c > d ? c : d; i32 z = (i32)a > (i32)c ? a : c; return x ^ y ^ (u64)z; }
F(over) { u64 r; i64 s; u32 t; int o = __builtin_add_overflow(a, b, &r); o |= __builtin_sub_overflow((i64)c, (i64)d, &s) << 1; o |= __builtin_add_overflow((u32)a, (u32)d, &t) << 2; i64 m; o |= __builtin_mul_overflow((i64)a, (i64)b, &m) << 3; u64 n; o |= __builtin_mul_overflow(c, d, &n) << 4; return r ^ s ^ t ^ m ^ n ^ (u64)o << 50; }
