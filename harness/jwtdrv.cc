// Executes operation scripts on the real JWT library of /repo and records, for
// every operation, facts about its input that are established without the code
// under test, and everything the public interface shows afterwards.
//   jwtdrv keys.json < script.ndjson > trace.ndjson
#define VCLOCK_IMPL
#include "vclock.h"
#include "mj.h"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include <vector>

#include "absl/time/clock.h"
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"
#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/bytestring.h"
#include "openssl/curve25519.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/nid.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/x509.h"
#include "status_names.h"  // made from status.h by the build

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define DRV_ASAN 1
#endif
#endif
#ifdef DRV_ASAN
#include <sanitizer/allocator_interface.h>
static long long heapBytes() { return static_cast<long long>(__sanitizer_get_current_allocated_bytes()); }
#else
#include <malloc.h>
static long long heapBytes() { return static_cast<long long>(mallinfo2().uordblks); }
#endif

using namespace google::jwt_verify;
using PbStruct = ::google::protobuf::Struct;
using PbValue = ::google::protobuf::Value;
using mj::q;
using std::string;

[[noreturn]] static void refuse(const string& why) {
  fprintf(stderr, "script: %s\n", why.c_str());
  fflush(stdout);
  _exit(97);
}

// ------------------------------------------------------------------ writing
static string fnv(const string& s) {
  unsigned __int128 h = ((unsigned __int128)0x6c62272e07bb0142ULL << 64) | 0x62b821756295c58dULL;
  const unsigned __int128 prime = ((unsigned __int128)1 << 88) | 0x13b;
  for (unsigned char c : s) h = (h ^ c) * prime;
  char b[40];
  snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(h >> 64), (unsigned long long)h);
  return b;
}
// A string in the trace: itself when short, else a name that is equal exactly
// for equal strings.
static string S(const string& s, size_t lim = 100) {
  if (s.size() <= lim) return q(s);
  return q("#" + std::to_string(s.size()) + ":" + fnv(s) + ":" + s.substr(0, 12));
}
static string limbs(uint64_t v) {
  char b[64];
  snprintf(b, sizeof b, "[%u,%u,%u,%u]", (unsigned)(v >> 48), (unsigned)(v >> 32 & 0xffff), (unsigned)(v >> 16 & 0xffff),
           (unsigned)(v & 0xffff));
  return b;
}
static string B(bool b) { return b ? "true" : "false"; }
static string stName(Status s) {
  int n = static_cast<int>(s);
  for (auto& e : kStatusNames)
    if (e.value == n) return q(e.name);
  return q("?" + std::to_string(n));
}
static uint64_t u64(const mj::V& v) {
  if (v.t == mj::V::INT) return static_cast<uint64_t>(v.i);
  if (v.t == mj::V::STR) return strtoull(v.s.c_str(), nullptr, 10);
  refuse("bad number");
}
static string join(const std::vector<string>& v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
  return r + "]";
}

// ------------------------------------------------------- facts about inputs
// Base64url as this library's dependency reads it: white space is skipped,
// padding ('=' or '.') may be absent or complete, unused bits are ignored.
static bool unb64(const string& in, string* out) {
  out->clear();
  auto space = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  unsigned acc = 0;
  int bits = 0, pads = 0, n = 0;
  bool tail = false;
  for (char c : in) {
    if (space(c)) continue;
    int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52
            : c == '-' ? 62 : c == '_' ? 63 : -1;
    if (c == '=' || c == '.') {
      tail = true;
      ++pads;
      continue;
    }
    if (v < 0 || tail) {
      out->clear();
      return false;
    }
    acc = acc << 6 | v;
    bits += 6;
    ++n;
    if (bits >= 8) {
      bits -= 8;
      out->push_back(static_cast<char>(acc >> bits & 0xff));
    }
  }
  int want = n % 4 == 2 ? 2 : n % 4 == 3 ? 1 : 0;
  if (n % 4 == 1 || (pads != 0 && pads != want)) {
    out->clear();
    return false;
  }
  return true;
}
static string b64(const string& in) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  string r;
  unsigned acc = 0;
  int bits = 0;
  for (unsigned char c : in) {
    acc = acc << 8 | c;
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      r.push_back(t[acc >> bits & 63]);
    }
  }
  if (bits) r.push_back(t[acc << (6 - bits) & 63]);
  return r;
}
static bool json(const string& text, PbStruct* out) {
  ::google::protobuf::util::JsonParseOptions options;
  return ::google::protobuf::util::JsonStringToMessage(text, out, options).ok();
}

static string dbits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  if (std::isnan(d)) return "nan";
  char b[24];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
  return b;
}
static string numV(double d) {
  bool nan = std::isnan(d), neg = d < 0, big = d >= 18446744073709551616.0;
  uint64_t v = nan || neg || big ? 0 : static_cast<uint64_t>(d);
  return "{\"t\":\"num\",\"nan\":" + B(nan) + ",\"neg\":" + B(neg) + ",\"big\":" + B(big) + ",\"v\":" + limbs(v) +
         ",\"d\":" + q(dbits(d)) + "}";
}
static string val(const PbValue& v, size_t lim, int depth) {
  switch (v.kind_case()) {
    case PbValue::kStringValue: return "{\"t\":\"str\",\"v\":" + S(v.string_value(), lim) + "}";
    case PbValue::kNumberValue: return numV(v.number_value());
    case PbValue::kBoolValue: return "{\"t\":\"bool\",\"v\":" + B(v.bool_value()) + "}";
    case PbValue::kListValue: {
      std::vector<string> r;
      if (depth > 0)
        for (auto& e : v.list_value().values()) r.push_back(val(e, lim, depth - 1));
      return "{\"t\":\"list\",\"v\":" + join(r) + "}";
    }
    case PbValue::kStructValue: {
      std::vector<string> r;
      if (depth > 0)
        for (auto& e : v.struct_value().fields())
          r.push_back("[" + S(e.first, lim) + "," + val(e.second, lim, depth - 1) + "]");
      std::sort(r.begin(), r.end());
      return "{\"t\":\"obj\",\"f\":" + join(r) + "}";
    }
    case PbValue::kNullValue: return "{\"t\":\"null\"}";
    default: return "{\"t\":\"unset\"}";
  }
}
static string claim(const PbStruct& s, const char* name, size_t lim = 100, int depth = 1) {
  for (auto& f : s.fields())
    if (f.first == name) return val(f.second, lim, depth);
  return "{\"t\":\"none\"}";
}

static string bnBytes(const BIGNUM* b) {
  string r(BN_num_bytes(b), 0);
  BN_bn2bin(b, reinterpret_cast<uint8_t*>(&r[0]));
  return r;
}
static string matRsa(const RSA* rsa) {
  if (!rsa) return "";
  return "RSA:" + std::to_string(RSA_bits(rsa)) + ":" + fnv(bnBytes(RSA_get0_n(rsa)) + "/" + bnBytes(RSA_get0_e(rsa)));
}
static string curveName(int nid) {
  switch (nid) {
    case NID_X9_62_prime256v1: return "P-256";
    case NID_secp384r1: return "P-384";
    case NID_secp521r1: return "P-521";
    case NID_secp224r1: return "P-224";
  }
  return "nid" + std::to_string(nid);
}
static string matEc(const EC_KEY* k) {
  if (!k) return "";
  const EC_GROUP* g = EC_KEY_get0_group(k);
  const EC_POINT* p = EC_KEY_get0_public_key(k);
  if (!g || !p) return "EC:?";
  bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
  if (!EC_POINT_get_affine_coordinates_GFp(g, p, x.get(), y.get(), nullptr)) {
    ERR_clear_error();
    return "EC:?";
  }
  return "EC:" + curveName(EC_GROUP_get_curve_name(g)) + ":" + fnv(bnBytes(x.get()) + "/" + bnBytes(y.get()));
}
static string matOct(const string& k) { return "oct:" + std::to_string(k.size()) + ":" + fnv(k); }
static string matOkp(const string& k) { return "OKP:" + std::to_string(k.size()) + ":" + fnv(k); }

// --------------------------------------------------------------------- keys
struct Priv {
  bssl::UniquePtr<EVP_PKEY> pkey;
  string secret;
  string mat, fam;
};
static std::map<string, Priv> g_fixed;    // keys.json
static std::map<string, Priv> g_secrets;  // defined by the script
static string matPkey(EVP_PKEY* p) {
  string r;
  switch (EVP_PKEY_id(p)) {
    case EVP_PKEY_RSA: return matRsa(EVP_PKEY_get0_RSA(p));
    case EVP_PKEY_EC: return matEc(EVP_PKEY_get0_EC_KEY(p));
    case EVP_PKEY_ED25519: {
      uint8_t raw[32];
      size_t n = 32;
      if (EVP_PKEY_get_raw_public_key(p, raw, &n) == 1) return matOkp(string((char*)raw, n));
      return "";
    }
  }
  return "";
}
static void readKeys(const char* path) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  mj::V d = mj::parse(ss.str());
  for (auto& kv : d.at("keys").o) {
    Priv p;
    string pem = kv.second.str("priv");
    bssl::UniquePtr<BIO> b(BIO_new_mem_buf(pem.data(), pem.size()));
    p.pkey.reset(PEM_read_bio_PrivateKey(b.get(), nullptr, nullptr, nullptr));
    ERR_clear_error();
    p.fam = kv.second.str("fam");
    if (p.pkey) p.mat = matPkey(p.pkey.get());
    g_fixed[kv.first] = std::move(p);
  }
}
static Priv& keyOf(const string& n) {
  auto it = g_secrets.find(n);
  if (it != g_secrets.end()) return it->second;
  auto f = g_fixed.find(n);
  if (f == g_fixed.end()) refuse("no key " + n);
  return f->second;
}
static const EVP_MD* mdOf(const string& m) {
  if (m == "256") return EVP_sha256();
  if (m == "384") return EVP_sha384();
  if (m == "512") return EVP_sha512();
  if (m == "224") return EVP_sha224();
  if (m == "1") return EVP_sha1();
  refuse("no digest " + m);
}
static string digest(const EVP_MD* md, const string& msg) {
  uint8_t out[EVP_MAX_MD_SIZE];
  unsigned n;
  EVP_Digest(msg.data(), msg.size(), out, &n, md, nullptr);
  return string((char*)out, n);
}
static string pad(const BIGNUM* b, size_t n) {
  string r(n, 0);
  if (!BN_bn2bin_padded(reinterpret_cast<uint8_t*>(&r[0]), n, b)) refuse("number too long");
  return r;
}
static string signWith(Priv& k, const string& kind, const string& md, const string& msg, const string& var) {
  if (kind == "hmac") {
    uint8_t out[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    HMAC(mdOf(md), k.secret.data(), k.secret.size(), (const uint8_t*)msg.data(), msg.size(), out, &n);
    return string((char*)out, n);
  }
  if (!k.pkey) refuse("no private key");
  if (kind == "ecdsa") {
    EC_KEY* ec = EVP_PKEY_get0_EC_KEY(k.pkey.get());
    if (!ec) refuse("not an EC key");
    size_t fl = (EC_GROUP_get_degree(EC_KEY_get0_group(ec)) + 7) / 8;
    string d = digest(mdOf(md), msg);
    for (int i = 0; i < 20000; ++i) {
      bssl::UniquePtr<ECDSA_SIG> s(ECDSA_do_sign((const uint8_t*)d.data(), d.size(), ec));
      if (!s) refuse("ECDSA_do_sign");
      string r = pad(s->r, fl), t = pad(s->s, fl);
      if (var == "zr" && r[0] != 0) continue;
      if (var == "zs" && t[0] != 0) continue;
      return r + t;
    }
    refuse("no such signature found");
  }
  bssl::ScopedEVP_MD_CTX ctx;
  EVP_PKEY_CTX* pctx;
  const EVP_MD* m = kind == "ed" ? nullptr : mdOf(md);
  if (EVP_DigestSignInit(ctx.get(), &pctx, m, nullptr, k.pkey.get()) != 1) refuse("sign init");
  if (kind == "pss") {
    // var: "" salt as long as the digest; "mgf1:<md>" another mask hash
    if (EVP_PKEY_CTX_set_rsa_padding(pctx, RSA_PKCS1_PSS_PADDING) != 1 || EVP_PKEY_CTX_set_rsa_pss_saltlen(pctx, -1) != 1)
      refuse("pss");
    if (EVP_PKEY_CTX_set_rsa_mgf1_md(pctx, var.compare(0, 5, "mgf1:") == 0 ? mdOf(var.substr(5)) : m) != 1) refuse("mgf1");
  }
  size_t n = 0;
  if (EVP_DigestSign(ctx.get(), nullptr, &n, (const uint8_t*)msg.data(), msg.size()) != 1) refuse("sign");
  string r(n, 0);
  for (int i = 0; i < 20000; ++i) {
    bssl::ScopedEVP_MD_CTX c;
    if (EVP_MD_CTX_copy_ex(c.get(), ctx.get()) != 1) refuse("sign");
    if (EVP_DigestSign(c.get(), (uint8_t*)&r[0], &n, (const uint8_t*)msg.data(), msg.size()) != 1) refuse("sign");
    r.resize(n);
    if (var != "zr" || kind != "pss" || r[0] == 0) return r;
  }
  refuse("no such signature found");
}
static string negS(Priv& k, const string& sig) {
  EC_KEY* ec = EVP_PKEY_get0_EC_KEY(k.pkey.get());
  size_t fl = sig.size() / 2;
  bssl::UniquePtr<BIGNUM> s(BN_bin2bn((const uint8_t*)sig.data() + fl, fl, nullptr)), o(BN_new());
  EC_GROUP_get_order(EC_KEY_get0_group(ec), o.get(), nullptr);
  BN_sub(s.get(), o.get(), s.get());
  return sig.substr(0, fl) + pad(s.get(), fl);
}
// Changes to a signature that make it one nobody made.
static string mutate(string s, const mj::V& m) {
  const string& w = m.a[0].s;
  long long n = m.a.size() > 1 && m.a[1].t == mj::V::INT ? m.a[1].i : 0;
  if (w == "flip") {
    if (s.empty()) return s;
    size_t bit = n % (s.size() * 8);
    s[bit / 8] ^= 1 << (bit % 8);
  } else if (w == "cut") {
    s.resize(s.size() > (size_t)n ? s.size() - n : 0);
  } else if (w == "head") {
    s = s.substr(std::min(s.size(), (size_t)n));
  } else if (w == "app") {
    s += m.a[1].s;
  } else if (w == "pre") {
    s = m.a[1].s + s;
  } else if (w == "zero") {
    s.assign(s.size(), 0);
  } else if (w == "set") {
    s = m.a[1].s;
  } else if (w == "halves") {
    s = s.substr(s.size() / 2) + s.substr(0, s.size() / 2);
  } else if (w == "rev") {
    std::reverse(s.begin(), s.end());
  } else if (w == "hex" || w == "HEX") {  // the bytes written out
    string o;
    for (unsigned char c : s)
      for (int d : {c >> 4, c & 15}) o += (w == "hex" ? "0123456789abcdef" : "0123456789ABCDEF")[d];
    s = o;
  } else if (w == "text") {
    s = b64(s);
  } else if (w == "dup") {
    s += s;
  } else if (w == "not") {
    for (auto& c : s) c = ~c;
  } else if (w == "pairs") {  // every two, or every n, bytes the other way round
    const size_t k = n > 1 ? n : 2;
    for (size_t i = 0; i < s.size(); i += k) std::reverse(s.begin() + i, s.begin() + std::min(s.size(), i + k));
  } else if (w == "wide") {  // r and s padded with n leading zero bytes each
    string z(n, 0);
    s = z + s.substr(0, s.size() / 2) + z + s.substr(s.size() / 2);
  } else if (w == "narrow") {  // r and s without the first n bytes each
    size_t h = s.size() / 2;
    s = s.substr(std::min((size_t)n, h), h - std::min((size_t)n, h)) + s.substr(h + std::min((size_t)n, h));
  } else if (w == "der") {
    size_t h = s.size() / 2;
    bssl::UniquePtr<ECDSA_SIG> e(ECDSA_SIG_new());
    BN_bin2bn((const uint8_t*)s.data(), h, e->r);
    BN_bin2bn((const uint8_t*)s.data() + h, h, e->s);
    uint8_t* der;
    size_t dl;
    ECDSA_SIG_to_bytes(&der, &dl, e.get());
    s.assign((char*)der, dl);
    OPENSSL_free(der);
  } else {
    refuse("no mutation " + w);
  }
  return s;
}

// ------------------------------------------------------------ what is shown
static string pbText(const PbStruct& s) { return s.ShortDebugString(); }
static string flat(const PbStruct& s) {  // independent of the map's order
  std::map<string, string> m;
  for (auto& f : s.fields()) m[f.first] = f.second.SerializeAsString().size() > 4096 ? "big" : val(f.second, 1 << 20, 64);
  string r;
  for (auto& e : m) r += e.first + "=" + e.second + ";";
  return r;
}
static string fields(const Jwt& j) {
  std::vector<string> a;
  for (auto& x : j.audiences_) a.push_back(S(x, 100000));
  return "{\"text\":" + S(j.jwt_) + ",\"hraw\":" + S(j.header_str_base64url_) + ",\"hdec\":" + S(j.header_str_) +
         ",\"hpb\":" + S(flat(j.header_pb_), 16) + ",\"praw\":" + S(j.payload_str_base64url_) + ",\"pdec\":" +
         S(j.payload_str_) + ",\"ppb\":" + S(flat(j.payload_pb_), 16) + ",\"sig\":" + S(j.signature_) + ",\"alg\":" +
         S(j.alg_) + ",\"kid\":" + S(j.kid_) + ",\"iss\":" + S(j.iss_) + ",\"aud\":" + join(a) + ",\"sub\":" + S(j.sub_) +
         ",\"iat\":" + limbs(j.iat_) + ",\"nbf\":" + limbs(j.nbf_) + ",\"exp\":" + limbs(j.exp_) + ",\"jti\":" + S(j.jti_) +
         "}";
}
static string docOf(const string& text) {
  std::vector<string> p(1);
  for (char c : text) {
    if (c == '.')
      p.emplace_back();
    else
      p.back().push_back(c);
  }
  bool empty = false;
  for (auto& x : p) empty = empty || x.empty();
  string r = "{\"text\":" + S(text) + ",\"n\":" + std::to_string(p.size()) + ",\"empty\":" + B(empty);
  if (p.size() != 3 || empty) return r + "}";
  string h, d, s;
  PbStruct hp, pp;
  bool hb = unb64(p[0], &h), db = unb64(p[1], &d), sb = unb64(p[2], &s);
  bool hj = hb && json(h, &hp), dj = db && json(d, &pp);
  if (!hj) hp.Clear();
  if (!dj) pp.Clear();
  r += ",\"msg\":" + S(p[0] + "." + p[1]);
  r += ",\"h\":{\"raw\":" + S(p[0]) + ",\"b64\":" + B(hb) + ",\"dec\":" + S(h) + ",\"json\":" + B(hj) + ",\"pb\":" +
       S(flat(hp), 16) + ",\"alg\":" + claim(hp, "alg") + ",\"kid\":" + claim(hp, "kid") + "}";
  r += ",\"p\":{\"raw\":" + S(p[1]) + ",\"b64\":" + B(db) + ",\"dec\":" + S(d) + ",\"json\":" + B(dj) + ",\"pb\":" +
       S(flat(pp), 16);
  for (const char* c : {"iss", "sub", "iat", "nbf", "exp", "jti"}) r += string(",\"") + c + "\":" + claim(pp, c);
  r += ",\"aud\":" + claim(pp, "aud", 100000) + "}";
  r += ",\"s\":{\"raw\":" + S(p[2]) + ",\"b64\":" + B(sb) + ",\"sig\":" + S(s) + ",\"len\":" + std::to_string(s.size()) +
       "}}";
  return r;
}

static string keyMat(const Jwks::Pubkey& k) {
  string m;
  auto add = [&](const string& s) {
    if (!s.empty()) m += (m.empty() ? "" : "+") + s;
  };
  add(matRsa(k.rsa_.get()));
  add(matEc(k.ec_key_.get()));
  if (!k.hmac_key_.empty()) add(matOct(k.hmac_key_));
  if (!k.okp_key_raw_.empty()) add(matOkp(k.okp_key_raw_));
  return m;
}
static string keysOf(const Jwks& j) {
  std::vector<string> r;
  for (auto& k : j.keys()) {
    if (!k) {
      r.push_back("{\"kty\":\"null\"}");
      continue;
    }
    r.push_back("{\"kty\":" + S(k->kty_) + ",\"kid\":" + S(k->kid_) + ",\"alg\":" + S(k->alg_) + ",\"crv\":" + S(k->crv_) +
                ",\"mat\":" + S(keyMat(*k)) + "}");
  }
  return join(r);
}

// Facts about one JWK parameter: its type and, for text, whether it decodes.
static string param(const PbStruct& s, const char* name, string* dec, bool* ok) {
  *ok = false;
  dec->clear();
  for (auto& f : s.fields())
    if (f.first == name) {
      if (f.second.kind_case() != PbValue::kStringValue) return "{\"t\":\"other\",\"b64\":false,\"len\":0}";
      *ok = unb64(f.second.string_value(), dec);
      return "{\"t\":\"str\",\"b64\":" + B(*ok) + ",\"len\":" + std::to_string(dec->size()) + "}";
    }
  return "{\"t\":\"none\",\"b64\":false,\"len\":0}";
}
static string ecOn(int nid, const string& x, const string& y) {
  bssl::UniquePtr<EC_GROUP> g(EC_GROUP_new_by_curve_name(nid));
  bssl::UniquePtr<EC_POINT> p(EC_POINT_new(g.get()));
  bssl::UniquePtr<BIGNUM> bx(BN_bin2bn((const uint8_t*)x.data(), x.size(), nullptr)),
      by(BN_bin2bn((const uint8_t*)y.data(), y.size(), nullptr));
  bool ok = EC_POINT_set_affine_coordinates_GFp(g.get(), p.get(), bx.get(), by.get(), nullptr) == 1;
  ERR_clear_error();
  if (!ok) return "";
  return "EC:" + curveName(nid) + ":" + fnv(bnBytes(bx.get()) + "/" + bnBytes(by.get()));
}
static string rsaOk(const string& n, const string& e, bool* eok) {
  bssl::UniquePtr<BIGNUM> bn(BN_bin2bn((const uint8_t*)n.data(), n.size(), nullptr)),
      be(BN_bin2bn((const uint8_t*)e.data(), e.size(), nullptr));
  *eok = BN_is_word(be.get(), 3) || BN_is_word(be.get(), 65537);
  if (n.size() > 4096) return "";  // far beyond what the crypto library takes
  bssl::UniquePtr<RSA> r(RSA_new());
  if (!RSA_set0_key(r.get(), bn.get(), be.get(), nullptr)) return "";
  bn.release();
  be.release();
  bool ok = RSA_check_key(r.get()) == 1;
  ERR_clear_error();
  return ok ? matRsa(r.get()) : "";
}
static string nameVal(const PbStruct& s, const char* n) {
  for (auto& f : s.fields())
    if (f.first == n) {
      if (f.second.kind_case() != PbValue::kStringValue) return "{\"t\":\"other\",\"v\":\"\"}";
      return "{\"t\":\"str\",\"v\":" + S(f.second.string_value()) + "}";
    }
  return "{\"t\":\"none\",\"v\":\"\"}";
}
static string entryFacts(const PbValue& v) {
  if (v.kind_case() != PbValue::kStructValue) return "{\"obj\":false}";
  const PbStruct& s = v.struct_value();
  string r = "{\"obj\":true";
  for (const char* n : {"kty", "kid", "alg", "crv"}) r += string(",\"") + n + "\":" + nameVal(s, n);
  string x, y, n, e, k;
  bool xo, yo, no, eo, ko, eok = false;
  r += ",\"x\":" + param(s, "x", &x, &xo) + ",\"y\":" + param(s, "y", &y, &yo) + ",\"n\":" + param(s, "n", &n, &no) +
       ",\"e\":" + param(s, "e", &e, &eo) + ",\"k\":" + param(s, "k", &k, &ko);
  r += ",\"ec\":{\"P-256\":" + q(xo && yo ? ecOn(NID_X9_62_prime256v1, x, y) : "") + ",\"P-384\":" +
       q(xo && yo ? ecOn(NID_secp384r1, x, y) : "") + ",\"P-521\":" + q(xo && yo ? ecOn(NID_secp521r1, x, y) : "") + "}";
  string rm = no && eo ? rsaOk(n, e, &eok) : "";
  r += ",\"rsa\":" + q(rm) + ",\"eok\":" + B(eok);
  r += ",\"okp\":" + q(xo ? matOkp(x) : "") + ",\"oct\":" + q(ko ? matOct(k) : "");
  return r + "}";
}
static bool startsWith(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
static bool endsWith(const string& s, const string& p) {
  return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}
static string certFacts(const string& text) {
  bssl::UniquePtr<BIO> b(BIO_new_mem_buf(text.data(), text.size()));
  bssl::UniquePtr<X509> x(PEM_read_bio_X509(b.get(), nullptr, nullptr, nullptr));
  string mat;
  bool parsed = x != nullptr;
  if (x) {
    bssl::UniquePtr<EVP_PKEY> p(X509_get_pubkey(x.get()));
    if (p && EVP_PKEY_id(p.get()) == EVP_PKEY_RSA) mat = matPkey(p.get());
  }
  ERR_clear_error();
  return "\"parsed\":" + B(parsed) + ",\"rsa\":" + q(mat);
}
static string jwksFacts(const string& text) {
  PbStruct d;
  bool ok = json(text, &d);
  string r = "{\"json\":" + B(ok);
  if (!ok) return r + ",\"keys\":\"none\",\"list\":[],\"map\":[]}";
  const PbValue* keys = nullptr;
  for (auto& f : d.fields())
    if (f.first == "keys") keys = &f.second;
  std::vector<string> list, map;
  if (keys && keys->kind_case() == PbValue::kListValue)
    for (auto& v : keys->list_value().values()) list.push_back(entryFacts(v));
  if (!keys)
    for (auto& f : d.fields()) {
      bool str = f.second.kind_case() == PbValue::kStringValue;
      const string& c = f.second.string_value();
      bool shape = str && startsWith(c, "-----BEGIN CERTIFICATE-----\n") && endsWith(c, "\n-----END CERTIFICATE-----\n");
      map.push_back("{\"kid\":" + S(f.first) + ",\"str\":" + B(str) + ",\"shape\":" + B(shape) + "," +
                    (str ? certFacts(c) : "\"parsed\":false,\"rsa\":\"\"") + "}");
    }
  return r + ",\"keys\":" + (keys ? (keys->kind_case() == PbValue::kListValue ? "\"list\"" : "\"other\"") : "\"none\"") +
         ",\"list\":" + join(list) + ",\"map\":" + join(map) + "}";
}
static string pemFacts(const string& text) {
  bssl::UniquePtr<BIO> b(BIO_new_mem_buf(text.data(), text.size()));
  bssl::UniquePtr<EVP_PKEY> p(PEM_read_bio_PUBKEY(b.get(), nullptr, nullptr, nullptr));
  ERR_clear_error();
  string ty = "none", mat;
  if (p) {
    int id = EVP_PKEY_id(p.get());
    ty = id == EVP_PKEY_RSA ? "RSA" : id == EVP_PKEY_EC ? "EC" : id == EVP_PKEY_ED25519 ? "OKP" : "other";
    mat = matPkey(p.get());
  }
  return "{\"read\":" + q(ty) + ",\"mat\":" + q(mat) + "}";
}

// -------------------------------------------------------------------- state
static std::map<string, string> g_sigs;
static std::map<string, string> g_msgs;  // what they were made of
static std::map<string, string> g_sigkeys;  // and with which key
static std::map<int, std::unique_ptr<Jwt>> g_jwt;
static std::map<int, JwksPtr> g_jwks;
static std::map<int, std::unique_ptr<CheckAudience>> g_aud;

// An input that is gone after the call: overwritten, then freed.
// How an input is held: in memory of its own, which is given back, or in a
// place that the next input will take over.
static thread_local unsigned g_fleet = 0;
static thread_local bool g_place = false;
static bool overAgain() { return g_place || g_fleet++ % 2 == 1; }
class Fleeting {
 public:
  explicit Fleeting(const string& s) : own_(!overAgain() || busy()) {
    if (own_) {
      s_ = new string(s.data(), s.size());
    } else {
      busy() = true;
      s_ = &place();
      s_->assign(s.data(), s.size());
    }
  }
  ~Fleeting() {
    for (auto& c : *s_) c = 'Z';
    if (own_) delete s_; else busy() = false;
  }
  operator const string&() const { return *s_; }

 private:
  Fleeting(const Fleeting&);
  static string& place() {
    static thread_local string p;
    if (p.capacity() < 1 << 17) p.reserve(1 << 17);
    return p;
  }
  static bool& busy() {
    static thread_local bool b = false;
    return b;
  }
  bool own_;
  string* s_;
};
class FleetingList {
 public:
  explicit FleetingList(const std::vector<string>& v) : own_(!overAgain() || busy()) {
    if (own_) {
      v_ = new std::vector<string>(v);
    } else {
      busy() = true;
      v_ = &place();
      v_->resize(v.size());
      for (size_t i = 0; i < v.size(); ++i) (*v_)[i].assign(v[i].data(), v[i].size());
    }
  }
  ~FleetingList() {
    for (auto& s : *v_)
      for (auto& c : s) c = 'Z';
    if (own_) delete v_; else busy() = false;
  }
  operator const std::vector<string>&() const { return *v_; }

 private:
  FleetingList(const FleetingList&);
  static std::vector<string>& place() {
    static thread_local std::vector<string> p;
    if (p.capacity() < 64) p.reserve(64);
    return p;
  }
  static bool& busy() {
    static thread_local bool b = false;
    return b;
  }
  bool own_;
  std::vector<string>* v_;
};

// @@R in the strings of an operation stands for the round.
static void fill(mj::V& v, const string& round) {
  for (size_t at; (at = v.s.find("@@R")) != string::npos;) v.s.replace(at, 3, round);
  for (auto& x : v.a) fill(x, round);
  for (auto& x : v.o) fill(x.second, round);
}

// The same number modulo the order or modulus of the key, where it fits.
static string more(const string& s, const string& name, long long part) {
  auto key = g_sigkeys.find(name);
  if (key == g_sigkeys.end()) return s + '\0';
  Priv& k = keyOf(key->second);
  EVP_PKEY* p = k.pkey.get();
  bssl::UniquePtr<BIGNUM> v(BN_new()), n(BN_new());
  size_t at = 0, len = s.size();
  bool little = false;
  if (p && EVP_PKEY_id(p) == EVP_PKEY_EC) {
    len /= 2;
    at = part % 2 ? len : 0;
    EC_GROUP_get_order(EC_KEY_get0_group(EVP_PKEY_get0_EC_KEY(p)), n.get(), nullptr);
  } else if (p && EVP_PKEY_id(p) == EVP_PKEY_RSA) {
    BN_copy(n.get(), RSA_get0_n(EVP_PKEY_get0_RSA(p)));
  } else if (p && EVP_PKEY_id(p) == EVP_PKEY_ED25519 && s.size() == 64) {
    at = len = 32;
    little = true;
    BIGNUM* b = n.get();
    BN_dec2bn(&b, "7237005577332262213973186563042994240857116359379907606001950938285454250989");
  } else {
    return s + '\0';
  }
  string t = s.substr(at, len);
  if (little) std::reverse(t.begin(), t.end());
  BN_bin2bn((const uint8_t*)t.data(), t.size(), v.get());
  bool any = false;
  for (long long i = 0; i < part / 2 + 1; ++i) {
    BN_add(v.get(), v.get(), n.get());
    if (BN_num_bytes(v.get()) > len) break;
    any = true;
    t = pad(v.get(), len);
  }
  if (!any) return s + '\0';
  if (little) std::reverse(t.begin(), t.end());
  return s.substr(0, at) + t + s.substr(at + len);
}

static string textOf(const mj::V& t) {
  if (t.t == mj::V::STR) return t.s;
  string r;
  for (auto& p : t.a) {
    if (p.t == mj::V::STR) {
      r += p.s;
      continue;
    }
    if (p.has("b64")) {
      r += b64(p.at("b64").s);
      continue;
    }
    if (p.has("msg")) {
      auto m = g_msgs.find(p.str("msg"));
      if (m == g_msgs.end()) refuse("no message " + p.str("msg"));
      r += m->second;
      continue;
    }
    auto it = g_sigs.find(p.str("sig"));
    if (it == g_sigs.end()) refuse("no signature " + p.str("sig"));
    string s = it->second;
    if (p.has("mut"))
      for (auto& m : p.at("mut").a) s = m.a[0].s == "more" ? more(s, p.str("sig"), m.a[1].i) : mutate(s, m);
    string enc = p.str("enc", "b64");
    string o = enc == "raw" ? s : b64(s);
    if (enc == "pad")
      while (o.size() % 4) o += '=';
    if (enc == "std")
      for (auto& c : o) c = c == '-' ? '+' : c == '_' ? '/' : c;
    if (enc == "tail" && o.size() % 4 >= 2) o.back() = o.back() == 'A' ? 'B' : o.back() == 'Q' ? 'R' : o.back() == 'g' ? 'h' : o.back() == 'w' ? 'x' : o.back();
    r += o;
  }
  return r;
}
static Jwt& jwtAt(const mj::V& o, const char* k = "slot") {
  auto& p = g_jwt[o.num(k, 0)];
  if (!p) p.reset(new Jwt());
  return *p;
}
static Jwks& jwksAt(const mj::V& o) {
  auto it = g_jwks.find(o.num("kslot", 0));
  if (it == g_jwks.end()) refuse("no key set");
  return *it->second;
}
static std::vector<string> strs(const mj::V& v) {
  std::vector<string> r;
  for (auto& x : v.a) r.push_back(x.s);
  return r;
}
static string strsOut(const mj::V& v) {
  std::vector<string> r;
  for (auto& x : v.a) r.push_back(S(x.s, 100000));
  return join(r);
}
static string snapshot(const Jwt& j, const Jwks& k) {
  return fnv(fields(j) + keysOf(k) + std::to_string((int)k.getStatus()));
}
static Status callVerify(const Jwt& j, const Jwks& k, const mj::V& o, const std::vector<string>& auds) {
  const string& e = o.at("entry").s;
  if (e == "sig") return verifyJwtWithoutTimeChecking(j, k);
  if (e == "wall") return verifyJwt(j, k);
  if (e == "now") return verifyJwt(j, k, u64(o.at("now")));
  if (e == "nowskew") return verifyJwt(j, k, u64(o.at("now")), u64(o.at("skew")));
  if (e == "audwall") return verifyJwt(j, k, FleetingList(auds));
  if (e == "audnow") return verifyJwt(j, k, FleetingList(auds), u64(o.at("now")));
  refuse("no entry " + e);
}
static void setWall(const mj::V& o) {
  if (!o.has("wall")) return;
  int64_t sec = (int64_t)u64(o.at("wall").a[0]);
  // absl::Now() extrapolates from earlier readings unless they are far away:
  // show it a distant time first.
  for (int i = 0; i < 200000000; ++i) {
    vclock::sec = sec + 1000000;
    vclock::nsec = 0;
    if (absl::ToUnixSeconds(absl::Now()) != vclock::sec) continue;
    vclock::sec = sec;
    vclock::nsec = o.at("wall").a[1].i;
    if (absl::ToUnixNanos(absl::Now()) == sec * 1000000000 + vclock::nsec) return;
  }
  refuse("the clock cannot be set");
}
static string callFacts(const mj::V& o) {
  string e = o.at("entry").s;
  uint64_t now = 0, skew = 60;
  if (e == "wall" || e == "audwall") now = u64(o.at("wall").a[0]);
  if (e == "now" || e == "nowskew" || e == "audnow") now = u64(o.at("now"));
  if (e == "nowskew") skew = u64(o.at("skew"));
  return "\"slot\":" + std::to_string(o.num("slot", 0)) + ",\"kslot\":" + std::to_string(o.num("kslot", 0)) + ",\"entry\":" +
         q(e) + ",\"now\":" + limbs(now) + ",\"skew\":" + limbs(skew) + ",\"auds\":" +
         (o.has("auds") ? strsOut(o.at("auds")) : "[]");
}

struct Holder : WithStatus {
  void u(Status s) { updateStatus(s); }
  void r(Status s) { resetStatus(s); }
};

static void buildValue(const mj::V& t, PbValue* v);
static void buildStruct(const mj::V& t, PbStruct* s) {
  for (auto& f : t.at("f").a) buildValue(f.a[1], &(*s->mutable_fields())[f.a[0].s]);
}
static void buildValue(const mj::V& t, PbValue* v) {
  const string& k = t.at("t").s;
  if (k == "str") {
    v->set_string_value(t.at("v").s);
  } else if (k == "num") {
    v->set_number_value(strtod(t.at("v").s.c_str(), nullptr));
  } else if (k == "bool") {
    v->set_bool_value(t.at("v").b);
  } else if (k == "null") {
    v->set_null_value(::google::protobuf::NULL_VALUE);
  } else if (k == "unset") {
  } else if (k == "list") {
    auto* l = v->mutable_list_value();
    for (auto& e : t.at("v").a) buildValue(e, l->add_values());
  } else if (k == "obj") {
    buildStruct(t, v->mutable_struct_value());
  } else {
    refuse("no type " + k);
  }
}
static string findName(StructUtils::FindResult r) {
  switch (r) {
    case StructUtils::OK: return q("ok");
    case StructUtils::MISSING: return q("missing");
    case StructUtils::WRONG_TYPE: return q("type");
    case StructUtils::OUT_OF_RANGE: return q("range");
  }
  return q("?");
}

static bool g_quiet = false;
static void emit(const string& s) {
  if (g_quiet) return;
  fputs(s.c_str(), stdout);
  fputc('\n', stdout);
  fflush(stdout);
}

static void runConc(const mj::V& o) {
  auto& jobs = o.at("jobs").a;
  int nt = o.num("threads", 4), rounds = o.num("rounds", 10);
  struct Job {
    const Jwt* j;
    const Jwks* k;
    string text;
    std::vector<string> auds;
    const mj::V* o;
  };
  std::vector<Job> js;
  for (auto& x : jobs) {
    Job b;
    b.j = &jwtAt(x);
    b.k = &jwksAt(x);
    b.text = b.j->jwt_;
    if (x.has("auds")) b.auds = strs(x.at("auds"));
    b.o = &x;
    js.push_back(std::move(b));
  }
  string before;
  for (auto& b : js) before += snapshot(*b.j, *b.k);
  setWall(o);
  std::vector<std::vector<std::set<int>>> res(nt, std::vector<std::set<int>>(js.size()));
  std::vector<int> err(nt, 0);
  std::vector<std::set<string>> strings(nt);
  std::atomic<int> ready(0);
  bool reparse = o.flag("reparse", false);
  auto body = [&](int t) {
    ++ready;
    while (ready < nt) std::this_thread::yield();
    size_t n = js.size();
    for (int r = 0; r < rounds; ++r)
      for (size_t i = 0; i < n; ++i) {
        size_t x = t % 2 ? (i + t + r) % n : (n - 1 - i + t + r) % n;
        const Job& b = js[x];
        Status s;
        if (reparse && (t + r + x) % 3 == 0) {
          Jwt own;
          own.parseFromString(b.text);
          s = callVerify(own, *b.k, *b.o, b.auds);
        } else {
          s = callVerify(*b.j, *b.k, *b.o, b.auds);
        }
        res[t][x].insert(static_cast<int>(s));
        if (ERR_peek_error() != 0) {
          ++err[t];
          ERR_clear_error();
        }
        if ((r & 3) == 0) strings[t].insert(std::to_string((int)s) + getStatusString(s));
      }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t) th.emplace_back(body, t);
  for (auto& t : th) t.join();
  string after;
  for (auto& b : js) after += snapshot(*b.j, *b.k);
  std::vector<string> out;
  int errs = 0;
  for (int t = 0; t < nt; ++t) errs += err[t];
  for (size_t x = 0; x < js.size(); ++x) {
    std::set<int> all;
    for (int t = 0; t < nt; ++t) all.insert(res[t][x].begin(), res[t][x].end());
    std::vector<string> names;
    for (int s : all) names.push_back(stName(static_cast<Status>(s)));
    out.push_back("{" + callFacts(*js[x].o) + ",\"res\":" + join(names) + "}");
  }
  bool stable = true;
  for (auto& ss : strings)
    for (auto& s : ss) {
      size_t i = 0;
      int v = std::stoi(s, &i);
      if (getStatusString(static_cast<Status>(v)) != s.substr(i)) stable = false;
    }
  emit("{\"op\":\"conc\",\"threads\":" + std::to_string(nt) + ",\"rounds\":" + std::to_string(rounds) + ",\"jobs\":" + join(out) +
       ",\"err\":" + std::to_string(errs) + ",\"same\":" + B(before == after) + ",\"strings\":" + B(stable) + "}");
}

// a text that the object itself holds
static string* ownText(Jwt& j, const string& field) {
  if (field == "kid") return &j.kid_;
  if (field == "alg") return &j.alg_;
  if (field == "iss") return &j.iss_;
  if (field == "sub") return &j.sub_;
  if (field == "jti") return &j.jti_;
  if (field == "sig") return &j.signature_;
  if (field == "header") return &j.header_str_;
  if (field == "payload") return &j.payload_str_;
  if (field == "header64") return &j.header_str_base64url_;
  if (field == "payload64") return &j.payload_str_base64url_;
  if (field == "aud" && !j.audiences_.empty()) return &j.audiences_.back();
  return &j.jwt_;
}

// Errors in the queue that some other user of the crypto library left there,
// and an errno of somebody else.
static void ambient(const mj::V& o) {
  ERR_clear_error();
  const int n = o.num("dirty", 0);
  for (int i = 0; i < n; ++i) ERR_put_error(i % 2 ? ERR_LIB_RSA : ERR_LIB_USER, 0, 1 + i % 90, "other", 4711);
  errno = n ? ERANGE : 0;
}
// Empties the queue: did it hold an error that is not that user's?
static bool ownError() {
  bool own = false;
  const char* file;
  int line;
  while (ERR_peek_error() != 0) {
    ERR_get_error_line(&file, &line);
    if (line != 4711 || file == nullptr || string(file) != "other") own = true;
  }
  return own;
}

static std::vector<std::function<void()>> g_late;
static void flushLate() {
  auto late = std::move(g_late);
  g_late.clear();
  for (auto& f : late) f();
}
static void step(const mj::V& o) {
  const string& op = o.at("op").s;
  g_place = o.flag("place", false);
  if (!g_place || op != "parse") flushLate();
  if (op == "new") {
    g_sigs.clear();
    g_msgs.clear();
    g_sigkeys.clear();
    g_secrets.clear();
    g_jwt.clear();
    g_jwks.clear();
    g_aud.clear();
    ERR_clear_error();
    emit("{\"op\":\"new\"}");
  } else if (op == "secret") {
    Priv p;
    p.secret = o.at("v").s;
    p.mat = matOct(p.secret);
    p.fam = "oct";
    g_secrets[o.at("name").s] = std::move(p);
  } else if (op == "sign" && o.has("given")) {
    // a signature made elsewhere: genuine if the crypto library says so
    const string crv = o.at("crv").s, msg = textOf(o.at("msg")), sig = o.at("given").s;
    int nid = crv == "P-256" ? NID_X9_62_prime256v1 : crv == "P-384" ? NID_secp384r1 : NID_secp521r1;
    string x, y;
    if (!unb64(o.at("x").s, &x) || !unb64(o.at("y").s, &y)) refuse("given key");
    bssl::UniquePtr<EC_KEY> k(EC_KEY_new_by_curve_name(nid));
    bssl::UniquePtr<BIGNUM> bx(BN_bin2bn((const uint8_t*)x.data(), x.size(), nullptr)), by(BN_bin2bn((const uint8_t*)y.data(), y.size(), nullptr));
    if (!EC_KEY_set_public_key_affine_coordinates(k.get(), bx.get(), by.get())) refuse("given key");
    string d = digest(mdOf(o.at("md").s), msg);
    bssl::UniquePtr<ECDSA_SIG> e(ECDSA_SIG_new());
    size_t h = sig.size() / 2;
    BN_bin2bn((const uint8_t*)sig.data(), h, e->r);
    BN_bin2bn((const uint8_t*)sig.data() + h, h, e->s);
    if (ECDSA_do_verify((const uint8_t*)d.data(), d.size(), e.get(), k.get()) != 1) refuse("given signature");
    ERR_clear_error();
    g_sigs[o.at("as").s] = sig;
    emit("{\"op\":\"sign\",\"key\":" + q(matEc(k.get())) + ",\"kind\":\"ecdsa\",\"md\":" + q(o.at("md").s) + ",\"msg\":" + S(msg) +
         ",\"sig\":" + S(sig) + "}");
  } else if (op == "sign") {
    Priv& k = keyOf(o.at("key").s);
    string msg = textOf(o.at("msg"));
    string sig;
    if (o.has("hunt")) {
      // the first of a row of messages with a signature of this kind, or the
      // last if there is none
      const string begin = msg;
      for (int i = 0;; ++i) {
        msg = begin + b64("{\"n\":" + std::to_string(o.num("from", 0) + i) + "}");
        sig = signWith(k, o.at("kind").s, o.str("md"), msg, "");
        bool good = true;
        for (auto& c : o.at("hunt").a) {
          const long long at = c.a[0].i < 0 ? c.a[0].i + (long long)sig.size() : c.a[0].i;
          good = good && at >= 0 && at < (long long)sig.size() && c.a[1].s.find(sig[at]) != string::npos;
        }
        if (good || i == 1500) break;
      }
    } else {
      sig = o.has("of") ? negS(k, g_sigs.at(o.str("of"))) : signWith(k, o.at("kind").s, o.str("md"), msg, o.str("var"));
    }
    g_sigs[o.at("as").s] = sig;
    g_msgs[o.at("as").s] = msg;
    g_sigkeys[o.at("as").s] = o.at("key").s;
    string kind = o.at("kind").s;
    if (startsWith(o.str("var"), "mgf1:")) kind = "pss-" + o.str("var");
    emit("{\"op\":\"sign\",\"key\":" + q(k.mat) + ",\"kind\":" + q(kind) + ",\"md\":" + q(kind == "ed" ? "" : o.str("md")) +
         ",\"msg\":" + S(msg) + ",\"sig\":" + S(sig) + "}");
  } else if (op == "parse") {
    string via = o.str("via", "parse");
    Jwt& j = jwtAt(o);
    int slot = o.num("slot", 0), src = o.num("src", slot);
    string* own = via == "own" ? ownText(j, o.str("field", "jwt")) : nullptr;
    string text = via == "parse" ? textOf(o.at("text")) : (own ? *own : jwtAt(o, "src").jwt_);
    // facts first: the line shows what was asked for even if the call does not return
    string head = "{\"op\":\"parse\",\"via\":" + q(via) + ",\"slot\":" + std::to_string(slot) + ",\"src\":" + std::to_string(src) +
                  ",\"doc\":" + docOf(text);
    string st = q("none");
    ambient(o);
    if (via == "parse") {
      st = stName(j.parseFromString(Fleeting(text)));
    } else if (via == "own") {
      st = stName(j.parseFromString(*own));
    } else if (via == "assign") {
      j = *g_jwt[src];
    } else if (via == "copy") {
      std::unique_ptr<Jwt> c(new Jwt(*g_jwt[src]));
      g_jwt[slot] = std::move(c);
    } else {
      refuse("no via " + via);
    }
    bool err = ownError();
    Jwt& k = *g_jwt[slot];
    const string got = fields(k), srcgot = via == "copy" || via == "assign" ? fields(*g_jwt[src]) : got;
    auto rest = [=] {
      Jwt fresh;
      Status fs = fresh.parseFromString(text);
      emit(head + ",\"err\":" + B(err) + ",\"st\":" + st + ",\"got\":" + got + ",\"fst\":" + stName(fs) + ",\"fresh\":" + fields(fresh) +
           ",\"srcgot\":" + srcgot + "}");
    };
    // of parses that follow each other, the comparisons come after the last
    if (g_place) g_late.push_back(rest); else rest();
  } else if (op == "drop") {
    // the object is gone
    if (o.has("slot")) g_jwt.erase(o.num("slot", 0));
    if (o.has("kslot")) g_jwks.erase(o.num("kslot", 0));
    emit("{\"op\":\"drop\",\"slot\":" + std::to_string(o.num("slot", -1)) + ",\"kslot\":" + std::to_string(o.num("kslot", -1)) + "}");
  } else if (op == "look") {
    // the object as it is now
    if (o.has("slot")) {
      emit("{\"op\":\"look\",\"slot\":" + std::to_string(o.num("slot", 0)) + ",\"kslot\":-1,\"got\":" + fields(jwtAt(o)) + "}");
    } else {
      Jwks& k = jwksAt(o);
      emit("{\"op\":\"look\",\"slot\":-1,\"kslot\":" + std::to_string(o.num("kslot", 0)) + ",\"st\":" + stName(k.getStatus()) +
           ",\"keys\":" + keysOf(k) + "}");
    }
  } else if (op == "heap") {
    // the same calls again and again, everything they made destroyed each time
    std::vector<string> grow;
    g_quiet = true;
    long long last = 0, aside = 0;
    // each round, or, of many rounds that differ in their texts, each period
    // twice as long as the one before
    const bool vary = o.flag("vary", false);
    const int n = vary ? 48 : 7;
    for (int i = 0; i < n; ++i) {
      g_jwt.clear();
      g_jwks.clear();
      g_fleet = 0;
      const string round = std::to_string(100 + i);
      for (auto& x : o.at("ops").a) {
        // what signing keeps is the harness's own
        const long long before = heapBytes();
        const bool ours = x.str("op") == "sign";
        if (vary) {
          mj::V y = x;
          fill(y, round);
          step(y);
        } else {
          step(x);
        }
        if (ours) aside += heapBytes() - before;
      }
      flushLate();
      g_jwt.clear();
      g_jwks.clear();
      ERR_clear_error();
      long long now = heapBytes() - aside;
      if (vary ? i == 5 || i == 11 || i == 23 || i == 47 : i >= 1) {
        if (vary ? i > 5 : i >= 2) grow.push_back(std::to_string(std::max(-1000000000LL, std::min(1000000000LL, now - last))));
        last = now;
      }
    }
    g_quiet = false;
    emit("{\"op\":\"heap\",\"calls\":" + std::to_string(o.at("ops").a.size()) + ",\"growth\":" + join(grow) + "}");
  } else if (op == "setf") {
    Jwt& j = jwtAt(o);
    if (o.has("exp")) j.exp_ = u64(o.at("exp"));
    if (o.has("nbf")) j.nbf_ = u64(o.at("nbf"));
    emit("{\"op\":\"setf\",\"slot\":" + std::to_string(o.num("slot", 0)) + ",\"exp\":" + limbs(j.exp_) + ",\"nbf\":" +
         limbs(j.nbf_) + ",\"se\":" + B(o.has("exp")) + ",\"sn\":" + B(o.has("nbf")) + "}");
  } else if (op == "mess") {
    // all public fields but the text overwritten
    Jwt& j = jwtAt(o);
    j.header_str_ = "h";
    j.header_str_base64url_ = "x";
    (*j.header_pb_.mutable_fields())["zz"].set_string_value("zz");
    j.payload_str_ = "p";
    j.payload_str_base64url_ = "y";
    (*j.payload_pb_.mutable_fields())["zz"].set_number_value(1);
    j.signature_ = o.flag("sig", true) ? "sig" : j.signature_;
    j.alg_ = "none";
    j.kid_ = "messed";
    j.iss_ = "messed";
    j.sub_ = "messed";
    j.jti_ = "messed";
    j.audiences_.push_back("messed");
    j.iat_ = j.nbf_ = j.exp_ = 77;
    emit("{\"op\":\"mess\",\"slot\":" + std::to_string(o.num("slot", 0)) + "}");
  } else if (op == "time") {
    const Jwt& j = jwtAt(o);
    uint64_t now = u64(o.at("now")), skew = o.has("skew") ? u64(o.at("skew")) : 60;
    Status s = o.has("skew") ? j.verifyTimeConstraint(now, skew) : j.verifyTimeConstraint(now);
    emit("{\"op\":\"time\",\"slot\":" + std::to_string(o.num("slot", 0)) + ",\"now\":" + limbs(now) + ",\"skew\":" + limbs(skew) +
         ",\"dflt\":" + B(!o.has("skew")) + ",\"st\":" + stName(s) + "}");
  } else if (op == "aud") {
    CheckAudience c{FleetingList(strs(o.at("cfg")))};
    std::vector<string> qs;
    for (auto& x : o.at("qs").a)
      qs.push_back("{\"aud\":" + strsOut(x) + ",\"ok\":" + B(c.areAudiencesAllowed(FleetingList(strs(x)))) + "}");
    emit("{\"op\":\"aud\",\"cfg\":" + strsOut(o.at("cfg")) + ",\"qs\":" + join(qs) + ",\"empty\":" + B(c.empty()) + "}");
  } else if (op == "load") {
    int ks = o.num("kslot", 0);
    string type = o.str("type", "JWKS"), text = textOf(o.at("text"));
    string head = "{\"op\":\"load\",\"kslot\":" + std::to_string(ks) + ",\"type\":" + q(type) + ",\"kid\":" +
                  S(type == "FROMPEM" ? o.str("kid") : "") + ",\"alg\":" + S(type == "FROMPEM" ? o.str("alg") : "") + ",\"doc\":" + (type == "JWKS" ? jwksFacts(text) : pemFacts(text));
    ambient(o);
    if (type == "JWKS") g_jwks[ks] = Jwks::createFrom(Fleeting(text), Jwks::JWKS);
    else if (type == "PEM") g_jwks[ks] = Jwks::createFrom(Fleeting(text), Jwks::PEM);
    else if (type == "FROMPEM") g_jwks[ks] = Jwks::createFromPem(Fleeting(text), Fleeting(o.str("kid")), Fleeting(o.str("alg")));
    else refuse("no type " + type);
    bool err = ownError();
    emit(head + ",\"err\":" + B(err) + ",\"st\":" + stName(g_jwks[ks]->getStatus()) + ",\"keys\":" + keysOf(*g_jwks[ks]) + "}");
  } else if (op == "addpem") {
    int ks = o.num("kslot", 0);
    Jwks& k = jwksAt(o);
    string text = textOf(o.at("text"));
    string head = "{\"op\":\"addpem\",\"kslot\":" + std::to_string(ks) + ",\"kid\":" + S(o.str("kid")) + ",\"alg\":" +
                  S(o.str("alg")) + ",\"doc\":" + pemFacts(text);
    ambient(o);
    Status r = k.addKeyFromPem(Fleeting(text), Fleeting(o.str("kid")), Fleeting(o.str("alg")));
    bool err = ownError();
    emit(head + ",\"err\":" + B(err) + ",\"res\":" + stName(r) + ",\"st\":" + stName(k.getStatus()) + ",\"keys\":" + keysOf(k) + "}");
  } else if (op == "verify") {
    const Jwt& j = jwtAt(o);
    const Jwks& k = jwksAt(o);
    std::vector<string> auds;
    if (o.has("auds")) auds = strs(o.at("auds"));
    string before = snapshot(j, k);
    bool dirty = o.num("dirty", 0) > 0;
    setWall(o);
    ambient(o);
    Status s = callVerify(j, k, o, auds);
    bool err = ownError();
    bool alike = true;
    int rep = o.num("rep", 1);
    for (int i = 0; i < rep; ++i) {
      alike = alike && callVerify(j, k, o, auds) == s;
      err = ownError() || err;
    }
      emit("{\"op\":\"verify\"," + callFacts(o) + ",\"st\":" + stName(s) + ",\"dirty\":" + B(dirty) + ",\"err\":" + B(err) +
         ",\"alike\":" + B(alike) + ",\"same\":" + B(before == snapshot(j, k)) + "}");
  } else if (op == "conc") {
    runConc(o);
  } else if (op == "struct") {
    PbStruct s;
    buildStruct(o.at("tree"), &s);
    string before = flat(s);
    StructUtils u(s);
    std::vector<string> rs;
    for (auto& x : o.at("qs").a) {
      const string &path = x.a[0].s, &get = x.a[1].s;
      string res, out;
      if (get == "str") {
        string v = "(untouched)";
        auto r = u.GetString(path, &v);
        res = findName(r);
        out = S(v);
      } else if (get == "u64") {
        uint64_t v = 0xfeedfacecafebeefULL;
        auto r = u.GetUInt64(path, &v);
        res = findName(r);
        out = limbs(v);
      } else if (get == "dbl") {
        double v = -12345.5;
        auto r = u.GetDouble(path, &v);
        res = findName(r);
        out = q(dbits(v));
      } else if (get == "bool") {
        // both initial values, so that an untouched output is recognised
        bool a = false, b = true;
        auto r = u.GetBoolean(path, &a);
        auto r2 = u.GetBoolean(path, &b);
        res = r == r2 ? findName(r) : q("differ");
        out = a == b ? (a ? q("true") : q("false")) : (a ? q("swapped") : q("untouched"));
      } else if (get == "list") {
        std::vector<string> v{"(first)"};
        auto r = u.GetStringList(path, &v);
        res = findName(r);
        std::vector<string> w;
        for (auto& e : v) w.push_back(S(e));
        out = join(w);
      } else if (get == "val") {
        const PbValue* v = nullptr;
        auto r = u.GetValue(path, v);
        res = findName(r);
        out = v ? val(*v, 100, 64) : "{\"t\":\"untouched\"}";
      } else {
        refuse("no getter " + get);
      }
      rs.push_back("{\"path\":" + q(path) + ",\"get\":" + q(get) + ",\"res\":" + res + ",\"out\":" + out + "}");
    }
    PbValue root;
    *root.mutable_struct_value() = s;
    emit("{\"op\":\"struct\",\"tree\":" + val(root, 100, 64) + ",\"qs\":" + join(rs) + ",\"same\":" + B(before == flat(s)) + "}");
  } else if (op == "status") {
    // names in the given order; every known status at least
    std::vector<string> rs;
    for (auto& i : o.at("order").a) {
      auto& e = kStatusNames[i.i % kStatusCount];
      rs.push_back("[" + q(e.name) + "," + S(getStatusString(static_cast<Status>(e.value)), 400) + "]");
    }
    emit("{\"op\":\"status\",\"count\":" + std::to_string(kStatusCount) + ",\"seen\":" + join(rs) + "}");
  } else if (op == "holder") {
    Holder h;
    std::vector<string> rs;
    rs.push_back("[\"start\",\"Ok\"," + stName(h.getStatus()) + "]");
    for (auto& x : o.at("ops").a) {
      auto s = static_cast<Status>(kStatusNames[x.a[1].i % kStatusCount].value);
      if (x.a[0].s == "u") h.u(s);
      else h.r(s);
      rs.push_back("[" + q(x.a[0].s) + "," + stName(s) + "," + stName(h.getStatus()) + "]");
    }
    emit("{\"op\":\"holder\",\"seen\":" + join(rs) + "}");
  } else {
    refuse("no operation " + op);
  }
}

int main(int argc, char** argv) {
  if (argc < 2) return 97;
  vclock::on = true;  // a clock that stands still between calls
  vclock::sec = 1700000000;
  readKeys(argv[1]);
  string line;
  while (std::getline(std::cin, line))
    if (!line.empty()) step(mj::parse(line));
  flushLate();
  emit("{\"op\":\"new\"}");
  return 0;
}
