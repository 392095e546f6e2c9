// Contracts of transfer urls and of the serialized encryption parameters.
#include "vp.h"
#include <folly/Conv.h>
#include <wdt/WdtTransferRequest.h>
#include <wdt/util/EncryptionUtils.h>
using namespace facebook::wdt;

static bool hexDigit(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')); }
static int hexVal(char c) { return (c <= '9') ? c - '0' : c - 'a' + 10; }
static bool alnum(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static bool plain(char c) { return alnum(c) | (c == ',') | (c == ':') | (c == '.') | (c == '_') | (c == '+') | (c == '-'); }

VP_HARNESS(uri_hex) {
  unsigned char v = vp_u8("v");
  vp_assume(v < 16);
  char h = WdtUri::toHex(v);
  vp_assert(hexDigit(h) && hexVal(h) == v, "a hex digit is written");
  vp_assert(WdtUri::fromHex(h) == v, "and read back");
  char c = (char)vp_u8("c");
  int r = WdtUri::fromHex(c);
  vp_assert(r == (hexDigit(c) ? hexVal(c) : -1), "only hex digits are read");
}
static std::string bytes(int n) {
  char* b = vp_buf("bytes", n + 1);
  return std::string(b, n);
}
static void escape(int n) {
  std::string s = bytes(n);
  std::string e = WdtUri::escape(s);
  size_t k = 0;
  for (size_t i = 0; i < e.size(); i++) {
    if (e[i] == '%') { vp_assert(i + 2 < e.size() && hexDigit(e[i + 1]) && hexDigit(e[i + 2]), "a percent sign starts an escape sequence"); i += 2; }
    else vp_assert(plain(e[i]), "an escaped value has no character with a meaning in urls");
    k++;
  }
  vp_assert(k == s.size(), "each character is escaped by itself");
  std::string r;
  bool ok = WdtUri::unescape(r, folly::StringPiece(e));
  vp_assert(ok, "an escaped value can be read");
  vp_assert(r.size() == s.size(), "with its length");
  for (int i = 0; i < n; i++) vp_assert(r[i] == s[i], "and its characters");
}
VP_HARNESS(uri_escape1) { escape(1); }
VP_HARNESS(uri_escape2) { escape(vp_bound_(2, 3)); }
VP_HARNESS(uri_escape_empty) { escape(0); }
static void unescapeRaw(int n) {
  char* b = vp_buf("bytes", n);
  std::string r;
  bool ok = WdtUri::unescape(r, folly::StringPiece(b, n));
  bool good = true;
  int k = 0;
  char want[8];
  for (int i = 0; i < n; i++) {
    if (b[i] != '%') { want[k++] = b[i]; continue; }
    if (i + 2 >= n || !hexDigit(b[i + 1]) || !hexDigit(b[i + 2])) { good = false; break; }
    want[k++] = (char)(hexVal(b[i + 1]) * 16 + hexVal(b[i + 2]));
    i += 2;
  }
  vp_assert(ok == good, "damaged escape sequences are refused");
  if (!ok) { vp_cover("refused"); return; }
  vp_assert((int)r.size() == k, "everything else is taken");
  for (int i = 0; i < k; i++) vp_assert(r[i] == want[i], "as it was meant");
}
VP_HARNESS(uri_unescape1) { unescapeRaw(1); }
VP_HARNESS(uri_unescape2) { unescapeRaw(2); }
VP_HARNESS(uri_unescape3) { unescapeRaw(3); }
VP_HARNESS(uri_unescape4) { unescapeRaw(vp_bound_(4, 5)); }

// ---- encryption parameters
static bool g_sameHash;
extern "C" size_t vp_env__ZSt11_Hash_bytesPKvmm(const void*, size_t, size_t) { return g_sameHash ? 77 : vp_u64("hash"); }
static void encRound(int type, int n) {
  std::string d = bytes(n);
  EncryptionParams p((EncryptionType)type, d);
  std::string s = p.getUrlSafeString();
  vp_assert((int)s.size() == 2 + 2 * n && s[1] == ':', "type and key are written");
  for (size_t i = 0; i < s.size(); i++) if (i != 1) vp_assert(hexDigit(s[i]), "in characters that need no escaping");
  EncryptionParams q;
  ErrorCode e = EncryptionParams::unserialize(s, q);
  vp_assert(e == OK, "parameters that were written can be read");
  vp_assert(q.getType() == type && (int)q.getSecret().size() == n, "with type and key length");
  for (int i = 0; i < n; i++) vp_assert(q.getSecret()[i] == d[i], "and the key");
}
VP_HARNESS(enc_ctr) { encRound(ENC_AES128_CTR, 16); }
VP_HARNESS(enc_gcm) { encRound(ENC_AES128_GCM, 16); }
VP_HARNESS(enc_short) { encRound(ENC_AES128_GCM, 1); }
// what the other end may send: a type of any length
static void encType(int n, int digits) {
  char b[40];
  char* t = vp_buf("type", n);
  char* d = vp_buf("key", digits);
  uint64_t v = 0;
  bool hex = true;
  for (int i = 0; i < n; i++) {
    b[i] = t[i];
    hex = hex & hexDigit(t[i]);
    v = v * 16 + (uint64_t)(hexVal(t[i]) & 15);
    vp_assume(t[i] != ':');
  }
  b[n] = ':';
  bool dhex = true;
  for (int i = 0; i < digits; i++) { b[n + 1 + i] = d[i]; dhex = dhex & hexDigit(d[i]); }
  std::string s(b, n + 1 + digits);
  EncryptionParams q(ENC_AES128_CTR, "old");
  ErrorCode e = EncryptionParams::unserialize(s, q);
  bool good = hex & dhex & (v >= 1) & (v < NUM_ENC_TYPES) & (digits > 0) & (digits % 2 == 0);
  vp_assert((e == OK) == good, "exactly parameters with a known type and whole bytes of key are accepted");
  if (e != OK) { vp_assert(!q.isSet(), "otherwise nothing is set"); return; }
  vp_cover("accepted");
  vp_assert((uint64_t)q.getType() == v && (int)q.getSecret().size() * 2 == digits, "with the type and key sent");
  for (int i = 0; i < digits / 2; i++) vp_assert(q.getSecret()[i] == (char)(hexVal(d[2 * i]) * 16 + hexVal(d[2 * i + 1])), "byte by byte");
}
VP_HARNESS(enc_raw) { encType(1, 4); }
VP_HARNESS(enc_raw_long) { encType(9, 2); }
static void encBad(int n) {
  char* b = vp_buf("bytes", n + 1);
  for (int i = 0; i < n; i++) vp_assume(b[i] != ':');
  EncryptionParams q(ENC_AES128_CTR, "old");
  vp_assert(EncryptionParams::unserialize(std::string(b, n), q) != OK && !q.isSet(), "a string without a type is refused");
}
VP_HARNESS(enc_raw_notype) { encBad(3); }
VP_HARNESS(enc_raw_empty) { encBad(0); }
VP_HARNESS(enc_raw_odd) {
  char* d = vp_buf("key", 3);
  char b[5] = {'1', ':', d[0], d[1], d[2]};
  EncryptionParams q;
  vp_assert(EncryptionParams::unserialize(std::string(b, 5), q) != OK, "half a byte is refused");
  vp_assert(EncryptionParams::unserialize(std::string(b, 2), q) != OK, "a key is needed");
}

// ---- numbers in text: one character stands for a number (that numbers survive printing and reading is folly's business)
static int64_t g_num[8];
static int g_nNum;
static std::string token(int64_t v) {
  if (v == 0) return std::string("0");
  if (v == 1) return std::string("1");
  g_num[g_nNum] = v;
  g_nNum++;
  char c = (char)('A' + g_nNum - 1);
  return std::string(&c, 1);
}
static int64_t number(const char* p, size_t n, bool& ok) {
  ok = false;
  if (n != 1) return 0;
  if ((p[0] == '0') | (p[0] == '1')) { ok = true; return p[0] - '0'; }
  for (int i = 0; i < g_nNum; i++) if (p[0] == 'A' + i) { ok = true; return g_num[i]; }
  return 0;
}
#ifdef VP_PROOF
extern "C" void vp_contract__ZNSt7__cxx119to_stringEi(std::string* out, int v) { new (out) std::string(token(v)); }
extern "C" void vp_contract__ZNSt7__cxx119to_stringEl(std::string* out, long v) { new (out) std::string(token(v)); }
extern "C" void vp_contract__ZNSt7__cxx119to_stringEm(std::string* out, unsigned long v) { new (out) std::string(token((int64_t)v)); }
template <class T> static T num(folly::StringPiece s) {
  bool ok;
  int64_t v = number(s.data(), s.size(), ok);
  if (!ok || v != (T)v) throw folly::ConversionError("not a number");
  return (T)v;
}
extern "C" int vp_contract__ZN5folly2toIiEENSt9enable_ifIXaasr3std11is_integralIT_EE5valuentsr3std7is_sameIS2_bEE5valueES2_E4typeENS_5RangeIPKcEE(folly::StringPiece s) { return num<int>(s); }
extern "C" long vp_contract__ZN5folly2toIlEENSt9enable_ifIXaasr3std11is_integralIT_EE5valuentsr3std7is_sameIS2_bEE5valueES2_E4typeENS_5RangeIPKcEE(folly::StringPiece s) { return num<long>(s); }
#endif
// ---- the url as a whole
static void url(bool v6, bool port, int params) {
  char* h = vp_buf("host", 3);
  for (int i = 0; i < 2; i++) {
    vp_assume((h[i] != 0) & (h[i] != '?') & (h[i] != ']') & (h[i] != '['));
    if (!v6) vp_assume(h[i] != ':');
  }
  if (v6) vp_assume(h[1] == ':');
  std::string host(h, 2);
  WdtUri u;
  u.setHostName(host);
  g_nNum = 0;
  int32_t p = port ? (int32_t)vp_range("port", 1, 65535) : -1;
  if (port) u.setPort(p);
  std::string v1 = bytes(1), v2("x");
  if (params > 0) u.setQueryParam("k", v1);
  if (params > 1) u.setQueryParam("long", v2);
  if (params > 2) u.setQueryParam("none", "");
  std::string s = u.generateUrl();
  WdtUri r(s);
  vp_assert(r.getErrorCode() == OK, "a url that was generated can be read");
  vp_assert(r.getHostName().size() == 2 && r.getHostName()[0] == h[0] && r.getHostName()[1] == h[1], "with its host");
  vp_assert(r.getPort() == p, "its port");
  vp_assert((int)r.getQueryParams().size() == (params > 2 ? 2 : params), "its parameters");
  if (params > 0) { std::string g = r.getQueryParam("k"); vp_assert(g.size() == 1 && g[0] == v1[0], "and their values"); }
  if (params > 1) { std::string g = r.getQueryParam("long"); vp_assert(g.size() == 1 && g[0] == 'x', "and their values"); }
}
VP_HARNESS(uri_url) { url(false, true, 1); }
VP_HARNESS(uri_url_v6) { url(true, true, 1); }
VP_HARNESS(uri_url_host) { url(false, false, 0); }
VP_HARNESS(uri_url_params) { url(false, false, 3); }
// any text after the protocol
static void urlRaw(int n) {
  char* b = vp_buf("url", n + 1);
  for (int i = 0; i < n; i++) vp_assume(b[i] != 0);
  std::string s("wdt://");
  s.append(b, n);
  g_nNum = 0;
  (void)token(vp_range("num", INT32_MIN, INT32_MAX));
  WdtUri r(s);
  if (r.getErrorCode() == OK) { vp_cover("accepted"); vp_assert(!r.getHostName().empty(), "a url without a host is refused"); }
  if (n > 0 && b[0] == '?') vp_assert(r.getErrorCode() != OK, "a url without a host is refused");
  std::string h = r.getHostName();
  if (n > 0 && b[0] != '[') for (size_t i = 0; i < h.size(); i++) vp_assert((h[i] != '?') & (h[i] != ':'), "the host ends where the port or the parameters start");
}
VP_HARNESS(uri_raw1) { urlRaw(1); }
VP_HARNESS(uri_raw) { urlRaw(vp_bound_(3, 4)); }
VP_HARNESS(uri_raw_prefix) {
  char* b = vp_buf("url", 7);
  vp_assume(!((b[0] == 'w') & (b[1] == 'd') & (b[2] == 't') & (b[3] == ':') & (b[4] == '/') & (b[5] == '/')));
  WdtUri r(std::string(b, 7));
  vp_assert(r.getErrorCode() != OK, "other protocols are refused");
  WdtUri r2(std::string(b, 3));
  vp_assert(r2.getErrorCode() != OK, "a url that is too short is refused");
}

// ---- a transfer request as a url
VP_INIT(WdtTransferRequest)
static void request(int nPorts, bool gap, bool resume, bool tls, bool enc) {
  char* h = vp_buf("host", 2);
  vp_assume((h[0] != 0) & (h[0] != '?') & (h[0] != ']') & (h[0] != '[') & (h[0] != ':'));
  vp_run_init_WdtTransferRequest();
  WdtTransferRequest q;
  q.errorCode = OK;
  q.hostName = std::string(h, 1);
  std::string id = bytes(1);
  q.transferId = id;
  q.wdtNamespace = "ns";
  g_nNum = 0;
  int version = (int)vp_range("version", 2, INT32_MAX);
  int64_t iv = vp_range("iv", 2, INT64_MAX);
  q.protocolVersion = version;
  q.ivChangeInterval = iv;
  q.downloadResumptionEnabled = resume;
  q.tls = tls;
  int32_t p0 = (int32_t)vp_range("port", 2, 60000);
  int32_t p1 = (int32_t)vp_range("port2", 2, 65535);
  if (nPorts > 0) q.ports.push_back(p0);
  if (nPorts > 1) { vp_assume((p1 != p0 + 1) == gap); q.ports.push_back(p1); }
  char* k = vp_buf("key", 1);
  if (enc) q.encryptionData = EncryptionParams(ENC_AES128_GCM, std::string(k, 1));
  std::string s = q.genWdtUrlWithSecret();
  WdtTransferRequest r(s);
  vp_assert(r.errorCode == (nPorts ? OK : INVALID_REQUEST), "the url of a request can be read");
  vp_assert(r.hostName.size() == 1 && r.hostName[0] == h[0], "with its host");
  vp_assert(r.transferId.size() == 1 && r.transferId[0] == id[0], "its transfer id");
  vp_assert(r.wdtNamespace == "ns" && r.destIdentifier.empty(), "its namespace and destination");
  vp_assert(r.protocolVersion == version, "its protocol version");
  vp_assert(r.ivChangeInterval == iv, "its interval for new initialisation vectors");
  vp_assert(r.downloadResumptionEnabled == resume && r.tls == tls, "its switches");
  vp_assert((int)r.ports.size() == nPorts, "its number of ports");
  if (nPorts > 0) vp_assert(r.ports[0] == p0, "its ports");
  if (nPorts > 1) vp_assert(r.ports[1] == p1, "its ports");
  vp_assert(r.encryptionData.isSet() == enc, "its encryption");
  if (enc) vp_assert(r.encryptionData.getType() == ENC_AES128_GCM && r.encryptionData.getSecret().size() == 1 && r.encryptionData.getSecret()[0] == k[0], "and its key");
}
VP_HARNESS(uri_request) { request(1, false, false, true, false); }
VP_HARNESS(uri_request_range) { request(2, false, true, false, false); }
VP_HARNESS(uri_request_list) { request(2, true, true, true, false); }
VP_HARNESS(uri_request_none) { request(0, true, false, true, false); }
VP_HARNESS(uri_request_key) { request(1, false, false, true, true); }

// what is logged about a request does not depend on its key (but for a hash of it, taken to be one way)
VP_HARNESS(uri_log_safe) {
  char* k = vp_buf("key", 4);
  vp_run_init_WdtTransferRequest();
  g_nNum = 0;
  g_sameHash = true;
  WdtTransferRequest q, r;
  q.hostName = r.hostName = "host";
  q.transferId = r.transferId = "id";
  q.directory = r.directory = "/dir";
  q.encryptionData = EncryptionParams(ENC_AES128_CTR, std::string(k, 3));
  r.encryptionData = EncryptionParams(ENC_AES128_CTR, std::string(k + 3, 1));
  std::string a = q.getLogSafeString();
  g_nNum = 0;
  std::string b = r.getLogSafeString();
  vp_assert(a.size() == b.size(), "what is logged does not depend on the key");
  for (size_t i = 0; i < a.size(); i++) vp_assert(a[i] == b[i], "what is logged does not depend on the key");
  vp_assert(a.size() > 12, "the request is logged");
}
