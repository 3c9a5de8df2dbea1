#include "ref.h"

namespace ref {
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint64_t h64(const char *s) { uint64_t v = 0; for (int i = 0; i < 16; i++) v = v << 4 | uint64_t(nib(s[i])); return v; }
static U128 h128(const char *s) { return {h64(s + 16), h64(s)}; }
#define T(c) do { if (!(c)) return "reference model: " #c; } while (0)

std::string self_test() {
	// GOST R 34.12-2015, A.2 (Magma)
	const uint32_t mk[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	MagmaKey m(mk, table_r3412());
	T(substitute(table_r3412(), 0xfdb97531) == 0x2a196f34);
	T(substitute(table_r3412(), 0x2a196f34) == 0xebd9f03a);
	T(substitute(table_r3412(), 0xebd9f03a) == 0xb039bb3d);
	T(substitute(table_r3412(), 0xb039bb3d) == 0x68695433);
	const uint32_t g1[8] = {0x87654321, 0, 0, 0, 0, 0, 0, 0};
	T(MagmaKey(g1, table_r3412())(0xfedcba98, 0) == 0xfdcbc20c);
	T(m.enc(h64("fedcba9876543210")) == h64("4ee901e5c2d8ca3d"));
	T(m.dec(h64("4ee901e5c2d8ca3d")) == h64("fedcba9876543210"));
	for (uint32_t v = 0; v < 4096; v++) {
		uint32_t x = v * 0x9e3779b1u;
		T(m(x, 3) == rotl11(substitute(table_r3412(), x + mk[3])));
		uint64_t b = uint64_t(x) << 32 ^ v;
		T(m.dec(m.enc(b)) == b);
	}
	// GOST R 34.13-2015, A.2 (Magma): ECB, CFB, MAC; block texts are numbers
	auto E = [&](uint64_t x) { return m.enc(x); };
	const char *P[4] = {"92def06b3c130a59", "db54c704f8189d20", "4a98fb2e67a8024c", "8912409b17b57e41"};
	Bytes p(32), e(32);
	for (int i = 0; i < 4; i++) store64(&p[size_t(i) * 8], h64(P[i]));
	const char *C[4] = {"2b073f0494f372a0", "de70e715d3556e48", "11d8d9e9eacfbc1e", "7c68260996c67efb"};
	for (int i = 0; i < 4; i++) store64(&e[size_t(i) * 8], h64(C[i]));
	T(ecb(E, p) == e);
	const char *F[4] = {"db37e0e266903c83", "0d46644c1f9a089c", "24bdd2035315d38b", "bcc0321421075505"};
	for (int i = 0; i < 4; i++) store64(&e[size_t(i) * 8], h64(F[i]));
	T(cfb(E, {h64("1234567890abcdef"), h64("234567890abcdef1")}, p, false) == e);
	T(cfb(E, {h64("1234567890abcdef"), h64("234567890abcdef1")}, e, true) == p);
	T(E(0) == h64("2fa2cd99a1290a12"));
	T(dbl64(E(0)) == h64("5f459b3342521424"));
	T(dbl64(dbl64(E(0))) == h64("be8b366684a42848"));
	T(mac64(E, p) == h64("154e72102030c5bb"));
	// GOST 28147-89 examples
	const uint32_t gk[8] = {0xE0F67504, 0xFAFB3850, 0x90C3C7D2, 0x3DCAB3ED, 0x42124715, 0x8A1EAE91, 0x9ECD792F, 0xBDEFBCD2};
	MagmaKey g(gk, table_gost89());
	auto G = [&](uint64_t x) { return g.enc(x); };
	T(G(h64("0001020304050607")) == h64("ea4af215984c8c4b"));
	Bytes gp(16), gc(16);
	store64(&gp[0], h64("33333333cccccccc")); store64(&gp[8], h64("cccccccc33333333"));
	store64(&gc[0], h64("4b64bd1043224c3b")); store64(&gc[8], h64("0faa6cd95548eb99"));
	T(cfb(G, {h64("47e3a8ffc3a7802a")}, gp, false) == gc);
	T(cfb(G, {h64("47e3a8ffc3a7802a")}, gc, true) == gp);
	// GOST R 34.12-2015, A.1 (Kuznyechik)
	T(S(h128("ffeeddccbbaa99881122334455667700")) == h128("b66cd8887d38e8d77765aeea0c9a7efc"));
	T(S(h128("b66cd8887d38e8d77765aeea0c9a7efc")) == h128("559d8dd7bd06cbfe7e7b262523280d39"));
	T(R(h128("00000000000000000000000000000100")) == h128("94000000000000000000000000000001"));
	T(R(h128("94000000000000000000000000000001")) == h128("a5940000000000000000000000000000"));
	T(L(h128("64a59400000000000000000000000000")) == h128("d456584dd0e3e84cc3166e4b7fa2890d"));
	T(fastL(h128("64a59400000000000000000000000000")) == h128("d456584dd0e3e84cc3166e4b7fa2890d"));
	KuzKey k(h128("8899aabbccddeeff0011223344556677"), h128("fedcba98765432100123456789abcdef"));
	T(k.k[2] == h128("db31485315694343228d6aef8cc78c44"));
	T(k.k[3] == h128("3d4553d8e9cfec6815ebadc40a9ffd04"));
	T(k.k[4] == h128("57646468c44a5e28d3e59246f429f1ac"));
	T(k.k[9] == h128("72e9dd7416bcf45b755dbaa88e4a4043"));
	T(k.enc(h128("1122334455667700ffeeddccbbaa9988")) == h128("7f679d90bebc24305a468d42b9d4edcd"));
	// GOST R 34.13-2015, A.1 (Kuznyechik): CTR, MAC
	auto K = [&](U128 x) { return k.enc(x); };
	std::vector<U128> q = {h128("1122334455667700ffeeddccbbaa9988"), h128("00112233445566778899aabbcceeff0a"),
		h128("112233445566778899aabbcceeff0a00"), h128("2233445566778899aabbcceeff0a0011")};
	T(ctr_block(K, h64("1234567890abcef0"), 0, q[0]) == h128("f195d8bec10ed1dbd57b5fa240bda1b8"));
	T(ctr_block(K, h64("1234567890abcef0"), 1, q[1]) == h128("85eee733f6a13e5df33ce4b33c45dee4"));
	T(ctr_block(K, h64("1234567890abcef0"), 2, q[2]) == h128("a5eae88be6356ed3d5e877f13564a3a5"));
	T(ctr_block(K, h64("1234567890abcef0"), 3, q[3]) == h128("cb91fab1f20cbab6d1c6d15820bdba73"));
	T(K({0, 0}) == h128("94bec15e269cf1e506f02b994c0a8ea0"));
	T(dbl128(K({0, 0})) == h128("297d82bc4d39e3ca0de0573298151dc7"));
	T(mac128(K, q, 16).hi == h64("336f4d296059fbe3"));
	return "";
}
}  // namespace ref
