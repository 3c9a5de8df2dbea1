#!/usr/bin/env python3
"""Compares the reference model (harness/ref.h) with GnuTLS's and libgcrypt's implementations, where these are
installed. Not part of any check: it says whether the oracle of the checks can be believed beyond the standards' examples.

Magma-OMAC and Kuznyechik-OMAC for every length to 600 bytes x 40 keys; the CTR modes (which contain every block
operation on arbitrary blocks), CFB and imitovstavka of GOST 28147-89 below 1 KB (where no key meshing takes place).
"""
import ctypes as C, ctypes.util, hashlib, os, subprocess, sys, tempfile
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
SRC = r'''
#include "ref.h"
using namespace ref;
static U128 b16(const uint8_t *p) { U128 v{0, 0}; for (int i = 0; i < 16; i++) v.set(15 - i, p[i]); return v; }     // big-endian
static void s16(uint8_t *p, U128 v) { for (int i = 0; i < 16; i++) p[i] = v.byte(15 - i); }
static uint64_t b8(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
static void s8(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = uint8_t(v >> (56 - 8 * i)); }
static MagmaKey mkey(const uint8_t *k, bool big, const Table &t) {
	uint32_t w[8];
	for (int i = 0; i < 8; i++) { w[i] = 0; for (int j = 0; j < 4; j++) w[i] |= uint32_t(k[i * 4 + j]) << (big ? 24 - 8 * j : 8 * j); }
	return MagmaKey(w, t);
}
// Messages of the OMAC implementations are big-endian blocks; ours are little-endian ones
extern "C" void magma_omac(const uint8_t *k, const uint8_t *m, size_t n, uint8_t *out) {
	auto key = mkey(k, true, table_r3412());
	Bytes x(m, m + n);
	size_t full = n / 8 * 8;
	for (size_t i = 0; i < full; i += 8) std::reverse(x.begin() + long(i), x.begin() + long(i) + 8);
	if (n % 8) {
		// big-endian padding of an incomplete block is not ours: only complete blocks are given
		memset(out, 0, 8); return;
	}
	s8(out, mac64([&](uint64_t v) { return key.enc(v); }, x));
}
extern "C" void kuz_omac(const uint8_t *k, const uint8_t *m, size_t n, uint8_t *out) {
	KuzKey key(b16(k), b16(k + 16));
	std::vector<U128> x;
	for (size_t i = 0; i + 16 <= n; i += 16) x.push_back(b16(m + i));
	s16(out, mac128([&](U128 v) { return key.enc(v); }, x, 16));
}
extern "C" void kuz_ctr(const uint8_t *k, const uint8_t *iv, uint8_t *m, size_t n) {
	KuzKey key(b16(k), b16(k + 16));
	for (size_t i = 0; i < n; i += 16) s16(m + i, ctr_block([&](U128 v) { return key.enc(v); }, b8(iv), i / 16, b16(m + i)));
}
extern "C" void magma_ctr(const uint8_t *k, const uint8_t *iv, uint8_t *m, size_t n) {
	auto key = mkey(k, true, table_r3412());
	uint64_t c = uint64_t(iv[0]) << 56 | uint64_t(iv[1]) << 48 | uint64_t(iv[2]) << 40 | uint64_t(iv[3]) << 32;
	for (size_t i = 0; i < n; i += 8) s8(m + i, b8(m + i) ^ key.enc(c + i / 8));
}
extern "C" void g89_cfb(const uint8_t *k, const uint8_t *tab, const uint8_t *iv, uint8_t *m, size_t n, int dec) {
	Table t = table_r3412();
	if (tab) for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++) t.pi[i][j] = tab[i * 16 + j];
	auto key = mkey(k, false, t);
	Bytes x(m, m + n);
	x = cfb([&](uint64_t v) { return key.enc(v); }, {load64(iv)}, x, dec);
	memcpy(m, x.data(), n);
}
extern "C" void g89_imit(const uint8_t *k, const uint8_t *m, size_t n, uint8_t *out) {
	auto key = mkey(k, false, table_r3412());
	store64(out, imit89([&](uint64_t v) { return key.mac16(v); }, Bytes(m, m + n)));
}
'''
def rnd(n, *tag):
    return hashlib.shake_128(repr(tag).encode()).digest(n)
def main():
    d = tempfile.mkdtemp()
    try:
        open(d + "/x.cpp", "w").write('#include <algorithm>\n#include <cstring>\n' + SRC)
        subprocess.check_call(["g++", "-std=c++17", "-O2", "-w", "-shared", "-fPIC", "-I" + H, d + "/x.cpp", H + "/ref.cpp", "-o", d + "/x.so"])
        ref = C.CDLL(d + "/x.so")
    finally:
        import shutil
        shutil.rmtree(d)
    bad = total = 0
    def cmp(name, a, b):
        nonlocal bad, total
        total += 1
        if a != b:
            bad += 1
            if bad < 10:
                print("DIFFERENT", name, a.hex(), b.hex())
    try:
        g = C.CDLL("libgnutls.so.30")
    except OSError:
        print("no GnuTLS here")
        return 0
    g.gnutls_mac_get_id.argtypes = [C.c_char_p]
    g.gnutls_cipher_get_id.argtypes = [C.c_char_p]
    def mac(alg, key, msg, n):
        out = C.create_string_buffer(64)
        r = g.gnutls_hmac_fast(alg, key, C.c_size_t(len(key)), msg, C.c_size_t(len(msg)), out)
        assert r == 0, r
        return out.raw[:n]
    class Datum(C.Structure):
        _fields_ = [("data", C.c_char_p), ("size", C.c_uint)]
    def cipher(alg, key, iv, msg, dec=False):
        h = C.c_void_p()
        k, i = Datum(key, len(key)), Datum(iv, len(iv))
        r = g.gnutls_cipher_init(C.byref(h), alg, C.byref(k), C.byref(i))
        assert r == 0, r
        out = C.create_string_buffer(len(msg) + 1)
        f = g.gnutls_cipher_decrypt2 if dec else g.gnutls_cipher_encrypt2
        r = f(h, msg, C.c_size_t(len(msg)), out, C.c_size_t(len(msg)))
        assert r == 0, r
        g.gnutls_cipher_deinit(h)
        return out.raw[:len(msg)]
    names = {n: g.gnutls_mac_get_id(n.encode()) for n in ("OMAC-MAGMA", "MAGMA-OMAC", "OMAC-KUZNYECHIK", "KUZNYECHIK-OMAC", "GOST28147-TC26Z-IMIT")}
    cn = {n: g.gnutls_cipher_get_id(n.encode()) for n in ("GOST28147-TC26Z-CFB", "GOST28147-TC26Z-CNT", "MAGMA-CTR-ACPKM", "KUZNYECHIK-CTR-ACPKM")}
    print(names, cn)
    for k in range(40):
        key = rnd(32, "k", k)
        for n in list(range(0, 600)):
            msg = rnd(n, "m", k, n)
            out = C.create_string_buffer(16)
            if n % 8 == 0 and n:
                a = names["MAGMA-OMAC"] or names["OMAC-MAGMA"]
                if a:
                    ref.magma_omac(key, msg, C.c_size_t(n), out)
                    cmp("magma omac %d" % n, out.raw[:8], mac(a, key, msg, 8))
            if n % 16 == 0 and n:
                a = names["KUZNYECHIK-OMAC"] or names["OMAC-KUZNYECHIK"]
                if a:
                    ref.kuz_omac(key, msg, C.c_size_t(n), out)
                    cmp("kuznyechik omac %d" % n, out.raw[:16], mac(a, key, msg, 16))
                if cn["KUZNYECHIK-CTR-ACPKM"]:
                    iv = rnd(8, "iv", k, n) + bytes(8)
                    b = C.create_string_buffer(msg, n)
                    ref.kuz_ctr(key, iv, b, C.c_size_t(n))
                    cmp("kuznyechik ctr %d" % n, b.raw, cipher(cn["KUZNYECHIK-CTR-ACPKM"], key, iv, msg))
            if n % 8 == 0 and n and cn["MAGMA-CTR-ACPKM"]:
                iv = rnd(4, "iv4", k, n) + bytes(4)
                b = C.create_string_buffer(msg, n)
                ref.magma_ctr(key, iv, b, C.c_size_t(n))
                cmp("magma ctr %d" % n, b.raw, cipher(cn["MAGMA-CTR-ACPKM"], key, iv, msg))
            if n and cn["GOST28147-TC26Z-CFB"]:
                iv = rnd(8, "iv", k, n)
                for dec in (False, True):
                    b = C.create_string_buffer(msg, n)
                    ref.g89_cfb(key, None, iv, b, C.c_size_t(n), int(dec))
                    cmp("gost 28147 cfb %d %d" % (n, dec), b.raw, cipher(cn["GOST28147-TC26Z-CFB"], key, iv, msg, dec))
            if n > 8 and names["GOST28147-TC26Z-IMIT"]:
                ref.g89_imit(key, msg, C.c_size_t(n), out)
                cmp("gost 28147 imit %d" % n, out.raw[:4], mac(names["GOST28147-TC26Z-IMIT"], key, msg, 4))
    print("%d comparisons, %d different" % (total, bad))
    return 1 if bad else 0
sys.exit(main())
