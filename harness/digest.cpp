// digest.cpp : monitors of the hash functions (P23), against OpenSSL, zlib and a bitwise Keccak.
#include <vf.hpp>
#include <Balau/Util/Hashing.hpp>
#include <Balau/ThirdParty/HashLibrary/hmac.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <zlib.h>
#include <fstream>
#include <sys/stat.h>

using namespace Balau;
using Util::Hashing;
namespace HL = Balau::HashLibrary;

// ------------------------------------------------ references

static std::string hex(const unsigned char * p, size_t n) {
	std::string s;
	char b[3];
	for (size_t m = 0; m < n; ++m) { snprintf(b, 3, "%02x", p[m]); s += b; }
	return s;
}
static std::string evp(const char * name, const std::string & d) {
	unsigned char out[EVP_MAX_MD_SIZE];
	unsigned n = 0;
	const EVP_MD * md = EVP_get_digestbyname(name);
	if (!md) { fprintf(stderr, "no reference digest %s\n", name); _exit(2); }
	EVP_Digest(d.data(), d.size(), out, &n, md, nullptr);
	return hex(out, n);
}
static std::string crcReference(const std::string & d) {
	uLong c = crc32(0, nullptr, 0);
	c = crc32_z(c, (const Bytef *) d.data(), d.size());
	char b[9];
	snprintf(b, 9, "%08lx", c);
	return b;
}

// Keccak as in its definition, over lanes A[x][y], with computed rotation offsets and round constants.
static void permute(uint64_t A[5][5]) {
	const auto rot = [] (uint64_t v, unsigned n) { n %= 64; return n ? (v << n) | (v >> (64 - n)) : v; };
	unsigned lfsr = 1;
	for (int round = 0; round < 24; ++round) {
		uint64_t C[5], D[5], B[5][5];
		for (int x = 0; x < 5; ++x) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
		for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] ^= D[x];
		memcpy(B, A, sizeof B);
		int x = 1, y = 0;
		B[0][0] = A[0][0];
		uint64_t R[5][5] = {};
		for (unsigned t = 0; t < 24; ++t) {
			R[x][y] = ((t + 1) * (t + 2) / 2) % 64;
			const int z = (2 * x + 3 * y) % 5;
			x = y;
			y = z;
		}
		for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) B[j][(2 * i + 3 * j) % 5] = rot(A[i][j], (unsigned) R[i][j]);
		for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) A[i][j] = B[i][j] ^ (~B[(i + 1) % 5][j] & B[(i + 2) % 5][j]);
		for (unsigned j = 0; j < 7; ++j) {
			if (lfsr & 1) A[0][0] ^= 1ull << ((1u << j) - 1);
			lfsr = (lfsr << 1) ^ (lfsr & 0x80 ? 0x171 : 0);
		}
	}
}
static std::string keccakReference(const std::string & d, unsigned bits, unsigned char pad) {
	const size_t rate = 200 - bits / 4;
	std::string p = d;
	p += (char) pad;
	while (p.size() % rate) p += '\0';
	p.back() = (char) ((unsigned char) p.back() | 0x80);
	uint64_t A[5][5] = {};
	for (size_t b = 0; b < p.size(); b += rate) {
		for (size_t m = 0; m < rate; ++m) A[m / 8 % 5][m / 40] ^= (uint64_t) (unsigned char) p[b + m] << (8 * (m % 8));
		permute(A);
	}
	unsigned char out[64];
	for (size_t m = 0; m < bits / 8; ++m) out[m] = (unsigned char) (A[m / 8 % 5][m / 40] >> (8 * (m % 8)));
	return hex(out, bits / 8);
}

// ------------------------------------------------ inputs

static std::string content(vf::Rng & r) {
	size_t n;
	switch (r.below(8)) {
		case 0: n = r.below(4); break;
		case 1: { const size_t block = r.of({ 64, 136, 144, 104, 72, 8 }); n = block * (1 + r.below(4)); n = n + r.below(20) - std::min<size_t>(10, n); break; }
		case 2: n = r.below(20000); break;
		case 3: n = r.chance(1, 30) ? (size_t) r.of({ 144 * 7 * 1024, 2 * 144 * 7 * 1024 }) + (size_t) r.range(-3, 3) : r.below(3000); break;
		default: n = r.below(300); break;
	}
	std::string s(n, '\0');
	const uint64_t kind = r.below(4);
	if (kind == 1) for (auto & c : s) c = (char) 0xff;
	else if (kind != 0 || n < 5) for (auto & c : s) c = (char) r.next();
	return s;
}

// A source that hands out its data in pieces of varying sizes.
struct Pieces : std::streambuf {
	std::string data, piece;
	size_t at = 0;
	vf::Rng r;
	Pieces(std::string d, uint64_t seed) : data(std::move(d)), r(seed) {}
	int_type underflow() override {
		if (at == data.size()) return traits_type::eof();
		const size_t n = 1 + r.below(std::min<size_t>(data.size() - at, r.chance(1, 2) ? 7 : 5000));
		piece = data.substr(at, n);
		at += n;
		setg(&piece[0], &piece[0], &piece[0] + n);
		return traits_type::to_int_type(piece[0]);
	}
};

static void same(const std::string & actual, const std::string & expected, const char * what, const char * from, const std::string & d) {
	vf::count("digests compared");
	if (actual == expected) return;
	vf::violation(std::string("digest:") + what, std::string(what) + " from " + from + " of " + std::to_string(d.size()) + " bytes " + vf::show(d, 40) + " is " + actual + " and not " + expected);
}

struct References { std::string sha256, sha3, sha1, keccak, md5, crc; };
static References references(const std::string & d) {
	return { evp("SHA256", d), evp("SHA3-256", d), evp("SHA1", d), keccakReference(d, 256, 1), evp("MD5", d), crcReference(d) };
}

static void allOf(const std::string & d, const References & e, vf::Rng & r, const std::string & path) {
	if (r.chance(1, 2)) {
		std::string s = d;
		same(Hashing::sha256(s), e.sha256, "sha256", "a text", d);
		same(Hashing::sha3(s), e.sha3, "sha3", "a text", d);
		same(Hashing::sha1(s), e.sha1, "sha1", "a text", d);
		same(Hashing::keccak(s), e.keccak, "keccak", "a text", d);
		same(Hashing::md5(s), e.md5, "md5", "a text", d);
		same(Hashing::crc32(s), e.crc, "crc32", "a text", d);
		vf::check(s == d, "changed", "hashing changed the text");
	}
	if (r.chance(1, 2)) {
		const auto via = [&] (auto f, const std::string & expected, const char * what) {
			if (r.chance(1, 2)) {
				Pieces p(d, r.next());
				std::istream s(&p);
				same(f(s), expected, what, "a stream in pieces", d);
			} else { // a stream that is already partly read
				const std::string prefix(r.below(9), 'p');
				std::istringstream s(prefix + d);
				char b[16];
				s.read(b, (std::streamsize) prefix.size());
				same(f(s), expected, what, "a stream", d);
			}
		};
		via([] (std::istream & s) { return Hashing::sha256(s); }, e.sha256, "sha256");
		via([] (std::istream & s) { return Hashing::sha3(s); }, e.sha3, "sha3");
		via([] (std::istream & s) { return Hashing::sha1(s); }, e.sha1, "sha1");
		via([] (std::istream & s) { return Hashing::keccak(s); }, e.keccak, "keccak");
		via([] (std::istream & s) { return Hashing::md5(s); }, e.md5, "md5");
		via([] (std::istream & s) { return Hashing::crc32(s); }, e.crc, "crc32");
	}
	if (!path.empty()) {
		Resource::File f(path);
		same(Hashing::sha256(f), e.sha256, "sha256", "a file", d);
		same(Hashing::sha3(f), e.sha3, "sha3", "a file", d);
		same(Hashing::sha1(f), e.sha1, "sha1", "a file", d);
		same(Hashing::keccak(f), e.keccak, "keccak", "a file", d);
		same(Hashing::md5(f), e.md5, "md5", "a file", d);
		same(Hashing::crc32(f), e.crc, "crc32", "a file", d);
		vf::count("files hashed");
	}
}

template <typename F> static void refused(F f, const char * what) {
	try { f(); }
	catch (const Exception::FileNotFoundException &) { vf::count("unreadable files refused"); return; }
	catch (const Exception::CouldNotOpenException &) { vf::count("unreadable files refused"); return; }
	vf::violation("not-refused", std::string("hashing ") + what + " gave a digest");
}

static vf::Mode sources("sources", [](int64_t n, vf::Rng & r) {
	const std::string d = content(r);
	vf::distinct(d);
	std::string path;
	if (r.chance(1, 2)) {
		path = vf::st().scratch + "/h" + std::to_string(n);
		std::ofstream(path, std::ios::binary) << d;
	}
	allOf(d, references(d), r, path);
	if (!path.empty()) {
		unlink(path.c_str());
		const std::string at = r.chance(1, 2) ? path : vf::st().scratch;
		const char * what = at == path ? "a missing file" : "a directory";
		Resource::File f(at);
		switch (r.below(6)) {
			case 0: refused([&] { Hashing::sha256(f); }, what); break;
			case 1: refused([&] { Hashing::sha3(f); }, what); break;
			case 2: refused([&] { Hashing::sha1(f); }, what); break;
			case 3: refused([&] { Hashing::keccak(f); }, what); break;
			case 4: refused([&] { Hashing::md5(f); }, what); break;
			default: refused([&] { Hashing::crc32(f); }, what); break;
		}
	}
});

// ------------------------------------------------ adding in pieces, asking more than once, starting over

template <typename H> struct Bytes {
	static std::string of(H & h) {
		unsigned char b[H::HashBytes];
		h.getHash(b);
		return hex(b, sizeof b);
	}
};
template <typename H, bool RAW, typename REF> static void pieces(H & h, REF ref, const char * what, vf::Rng & r) {
	std::string soFar;
	for (uint64_t round = 1 + r.below(3); round; --round) {
		switch (r.below(4)) {
			case 0: { soFar = content(r); same(h(soFar), ref(soFar), what, "operator ()", soFar); break; }
			case 1: { soFar = content(r); same(h(soFar.data(), soFar.size()), ref(soFar), what, "operator () of bytes", soFar); break; }
			default: h.reset(); soFar.clear(); break;
		}
		for (uint64_t n = r.below(8); n; --n) {
			std::string d = content(r);
			if (d.size() > 20000) d.resize(20000);
			// A copy of exactly this size, so that ASan sees any byte read beyond it.
			std::unique_ptr<char[]> exact(new char[d.size()]);
			memcpy(exact.get(), d.data(), d.size());
			h.add(exact.get(), d.size());
			soFar += d;
			vf::count("pieces added");
			if (r.chance(1, 3)) {
				same(h.getHash(), ref(soFar), what, "pieces", soFar);
				if constexpr (RAW) if (r.chance(1, 2)) same(Bytes<H>::of(h), ref(soFar), what, "pieces as bytes", soFar);
				vf::count("digests asked for in between");
			}
			if (r.chance(1, 4)) { H copy(h); same(copy.getHash(), ref(soFar), what, "a copy", soFar); }
		}
		same(h.getHash(), ref(soFar), what, "pieces", soFar);
		vf::distinct(vf::mix(vf::hashStr(soFar), vf::hashStr(what)));
	}
}
static const EVP_MD * named(const char * n) { return EVP_get_digestbyname(n); }
template <typename H> static void keyed(const char * name, vf::Rng & r) {
	std::string key = content(r), d = content(r);
	if (key.size() > 5000) key.resize(5000);
	unsigned char out[EVP_MAX_MD_SIZE];
	unsigned n = 0;
	HMAC(named(name), key.data(), (int) key.size(), (const unsigned char *) d.data(), d.size(), out, &n);
	same(HL::hmac<H>(d, key), hex(out, n), "hmac", name, d);
	vf::count("keyed digests");
}
static vf::Mode partial("pieces", [](int64_t, vf::Rng & r) {
	switch (r.below(8)) {
		case 0: { HL::SHA256 h; pieces<HL::SHA256, true>(h, [] (const std::string & d) { return evp("SHA256", d); }, "sha256", r); break; }
		case 1: { HL::SHA1 h; pieces<HL::SHA1, true>(h, [] (const std::string & d) { return evp("SHA1", d); }, "sha1", r); break; }
		case 2: { HL::MD5 h; pieces<HL::MD5, true>(h, [] (const std::string & d) { return evp("MD5", d); }, "md5", r); break; }
		case 3: { HL::CRC32 h; pieces<HL::CRC32, true>(h, crcReference, "crc32", r); break; }
		case 4: case 5: {
			const unsigned bits = r.of({ 224u, 256u, 384u, 512u });
			HL::SHA3 h((HL::SHA3::Bits) bits);
			const std::string name = "SHA3-" + std::to_string(bits);
			pieces<HL::SHA3, false>(h, [&] (const std::string & d) { return evp(name.c_str(), d); }, "sha3", r);
			break;
		}
		case 6: {
			const unsigned bits = r.of({ 224u, 256u, 384u, 512u });
			HL::Keccak h((HL::Keccak::Bits) bits);
			pieces<HL::Keccak, false>(h, [&] (const std::string & d) { return keccakReference(d, bits, 1); }, "keccak", r);
			// The reference is itself compared with the standard function that differs in the padding only.
			const std::string d = content(r);
			if (keccakReference(d, bits, 6) != evp(("SHA3-" + std::to_string(bits)).c_str(), d)) { fprintf(stderr, "the Keccak reference is wrong\n"); _exit(2); }
			vf::count("references confirmed");
			break;
		}
		default: {
			switch (r.below(3)) {
				case 0: keyed<HL::SHA256>("SHA256", r); break;
				case 1: keyed<HL::SHA1>("SHA1", r); break;
				default: keyed<HL::MD5>("MD5", r); break;
			}
		}
	}
});

// ------------------------------------------------ several threads at once, in a process that has not hashed before for case 0

static vf::Mode threads("threads", [](int64_t n, vf::Rng & r) {
	const size_t count = 2 + r.below(5);
	std::vector<std::string> d;
	std::vector<References> e;
	for (size_t m = 0; m < 3; ++m) { d.push_back(content(r).substr(0, 4000)); e.push_back(references(d.back())); vf::distinct(d.back()); }
	const std::string path = vf::st().scratch + "/t" + std::to_string(n);
	std::ofstream(path, std::ios::binary) << d[0];
	std::atomic<size_t> ready { 0 };
	std::vector<std::thread> ts;
	for (size_t t = 0; t < count; ++t) ts.emplace_back([&, seed = r.next()] {
		vf::Rng q(seed);
		++ready;
		while (ready < count) {}
		for (int k = 0; k < 3; ++k) { const size_t m = q.below(3); allOf(d[m], e[m], q, m == 0 ? path : ""); }
	});
	for (auto & t : ts) t.join();
	unlink(path.c_str());
	vf::count("threads hashing", count);
});
