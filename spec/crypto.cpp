// Contracts of the encryptor and the decryptor over stand-ins of the crypto library.
#include "vp.h"
#include <cstring>
#include <openssl/evp.h>
#include <wdt/util/EncryptionUtils.h>
using namespace facebook::wdt;

// what a key stream is made of
struct GCtx {
  bool ready, enc, final_, tagSet, clone;
  int type, ivLen;
  const unsigned char *key, *iv;
  int64_t bytes;
};
static GCtx *g_main, *g_copied;
static int g_updates, g_inits, g_finals, g_rand;
static bool g_updateOk, g_initOk, g_finalOk, g_copyOk, g_randOk, g_tagOk, g_ivlenOk, g_firstOk;
static const char *g_in, *g_out;
static int g_len;
static unsigned char* g_randBuf;
static const void* g_setTag;
static GCtx* g(EVP_CIPHER_CTX* c) { return (GCtx*)c; }
static int g_live;
extern "C" EVP_CIPHER_CTX* vp_env_EVP_CIPHER_CTX_new() {
  auto* c = new GCtx();
  c->ready = c->enc = c->final_ = c->tagSet = c->clone = false;
  c->type = c->ivLen = 0;
  c->key = c->iv = nullptr;
  c->bytes = 0;
  g_live++;
  return (EVP_CIPHER_CTX*)c;
}
extern "C" int vp_env_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX* c) { return 1; }
extern "C" void vp_env_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) {
  g_live--;
  delete g(c);
}
extern "C" int vp_env_EVP_CIPHER_CTX_copy(EVP_CIPHER_CTX* out, const EVP_CIPHER_CTX* in) {
  vp_assert((GCtx*)in == g_main && (GCtx*)out != g_main, "the tag is taken from a copy, the key stream goes on");
  if (!g_copyOk) return 0;
  *g(out) = *(GCtx*)in;
  g(out)->clone = true;
  g_copied = g(out);
  return 1;
}
extern "C" const EVP_CIPHER* vp_env_EVP_aes_128_ctr() { return (const EVP_CIPHER*)(uintptr_t)0x1000; }
extern "C" const EVP_CIPHER* vp_env_EVP_aes_128_gcm() { return (const EVP_CIPHER*)(uintptr_t)0x2000; }
extern "C" int vp_env_EVP_CIPHER_get_block_size(const EVP_CIPHER*) { return 1; }
extern "C" int vp_env_RAND_bytes(unsigned char* buf, int n) {
  g_rand++;
  g_randBuf = buf;
  vp_assert(n == 16, "a whole initialization vector is drawn");
  return g_randOk ? 1 : 0;
}
static int init(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, const unsigned char* key, const unsigned char* iv, bool enc) {
  GCtx* x = g(c);
  int t = (uintptr_t)cipher == 0x1000 ? ENC_AES128_CTR : (uintptr_t)cipher == 0x2000 ? ENC_AES128_GCM : ENC_NONE;
  vp_assert(t != ENC_NONE, "a known cipher is used");
  if (key == nullptr) {
    x->type = t;
    return g_firstOk ? 1 : 0;
  }
  g_inits++;
  if (!g_initOk) return 0;
  x->ready = true;
  x->enc = enc;
  x->type = t;
  x->key = key;
  x->iv = iv;
  return 1;
}
extern "C" int vp_env_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE*, const unsigned char* key, const unsigned char* iv) { return init(c, cipher, key, iv, true); }
extern "C" int vp_env_EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE*, const unsigned char* key, const unsigned char* iv) { return init(c, cipher, key, iv, false); }
extern "C" int vp_env_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int what, int n, void* p) {
  GCtx* x = g(c);
  if (what == EVP_CTRL_GCM_SET_IVLEN) {
    if (g_ivlenOk) x->ivLen = n;
    return g_ivlenOk;
  }
  if (what == EVP_CTRL_GCM_GET_TAG) {
    vp_assert(x->final_ && n == 16, "the tag is complete only behind the last byte");
    if (g_tagOk) memcpy(p, "TTTTTTTTTTTTTTTT", 16);
    return g_tagOk;
  }
  vp_assert(what == EVP_CTRL_GCM_SET_TAG && n == 16 && !x->final_, "the tag is set before it is verified");
  if (g_tagOk) {
    x->tagSet = true;
    g_setTag = p;
  }
  return g_tagOk;
}
static int update(EVP_CIPHER_CTX* c, unsigned char* out, int* n, const unsigned char* in, int len, bool enc) {
  GCtx* x = g(c);
  vp_assert(x->ready && x->enc == enc && !x->final_ && !x->clone, "the key stream is started and goes on");
  g_updates++;
  g_in = (const char*)in;
  g_out = (const char*)out;
  g_len = len;
  if (!g_updateOk) return 0;
  x->bytes += len;
  *n = len;
  return 1;
}
extern "C" int vp_env_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* n, const unsigned char* in, int len) { return update(c, out, n, in, len, true); }
extern "C" int vp_env_EVP_DecryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* n, const unsigned char* in, int len) { return update(c, out, n, in, len, false); }
static int final(EVP_CIPHER_CTX* c, int* n, bool enc) {
  GCtx* x = g(c);
  vp_assert(x->ready && x->enc == enc && !x->final_, "a started key stream ends once");
  g_finals++;
  x->final_ = true;
  *n = 0;
  if (!enc && x->type == ENC_AES128_GCM && !x->tagSet) return 0;   // the library refuses to end without a tag
  return g_finalOk ? 1 : 0;
}
extern "C" int vp_env_EVP_EncryptFinal(EVP_CIPHER_CTX* c, unsigned char*, int* n) { return final(c, n, true); }
extern "C" int vp_env_EVP_DecryptFinal(EVP_CIPHER_CTX* c, unsigned char*, int* n) { return final(c, n, false); }

static void env() {
  g_updateOk = vp_bool("update");
  g_initOk = vp_bool("init");
  g_finalOk = vp_bool("final");
  g_copyOk = vp_bool("copy");
  g_randOk = vp_bool("rand");
  g_tagOk = vp_bool("tag");
  g_ivlenOk = vp_bool("ivlen");
  g_firstOk = vp_bool("first");
}
static EncryptionParams* params(EncryptionType* t) {
  auto* p = new EncryptionParams();
  p->type_ = *t = (EncryptionType)vp_range("type", 0, 255);
  p->data_ = vp_str("key");
  return p;
}
VP_HARNESS(crypto_enc_start) {
  env();
  EncryptionType t;
  EncryptionParams* p = params(&t);
  auto* e = new AESEncryptor();
  std::string iv;
  bool r = e->start(*p, iv);
  g_main = g(e->evpCtx_.get());
  bool good = p->data_.size() == 16 && g_randOk && (t == ENC_AES128_CTR || t == ENC_AES128_GCM) && g_initOk;
  vp_assert(r == good && e->started_ == good, "encryption starts with a whole key, a drawn initialization vector and a known cipher only");
  if (good) {
    vp_assert(g_main->ready && g_main->enc && g_main->type == t, "the key stream is of the kind asked for");
    vp_assert(g_main->key == (const unsigned char*)p->data_.data() && g_rand == 1, "made of the secret key");
    vp_assert(g_main->iv == (const unsigned char*)iv.data() && g_main->iv == g_randBuf && iv.size() == 16, "and of the initialization vector drawn, which the peer is told");
    if (t == ENC_AES128_GCM && g_ivlenOk) vp_assert(g_main->ivLen == 16, "all of it");
  }
}
VP_HARNESS(crypto_dec_start) {
  env();
  EncryptionType t;
  EncryptionParams* p = params(&t);
  auto* e = new AESDecryptor();
  std::string iv = vp_str("iv");
  bool r = e->start(*p, iv);
  g_main = g(e->evpCtx_.get());
  bool good = p->data_.size() == 16 && iv.size() == 16 && (t == ENC_AES128_CTR || t == ENC_AES128_GCM) && g_initOk;
  vp_assert(r == good && e->started_ == good, "decryption starts with a whole key, a whole initialization vector and a known cipher only");
  if (good) {
    vp_assert(g_main->ready && !g_main->enc && g_main->type == t, "the key stream is of the kind asked for");
    vp_assert(g_main->key == (const unsigned char*)p->data_.data() && g_main->iv == (const unsigned char*)iv.data(), "made of the secret key and the peer's initialization vector");
    if (t == ENC_AES128_GCM && g_ivlenOk) vp_assert(g_main->ivLen == 16, "all of it");
  }
}
template <class T>
static T* started(bool enc, EncryptionType t) {
  env();
  auto* e = new T();
  auto* c = (GCtx*)vp_env_EVP_CIPHER_CTX_new();
  c->ready = true;
  c->enc = enc;
  c->type = t;
  c->bytes = vp_range("bytes", 0, INT64_MAX / 2);
  g_main = c;
  e->evpCtx_.reset((EVP_CIPHER_CTX*)c);
  e->type_ = t;
  e->started_ = true;
  e->numProcessed_ = c->bytes;
  return e;
}
static bool step(AESEncryptor* e, const char* in, int n, char* out) { return e->encrypt(in, n, out); }
static bool step(AESDecryptor* e, const char* in, int n, char* out) { return e->decrypt(in, n, out); }
template <class T>
static void bytes(bool enc) {
  T* e = started<T>(enc, vp_bool("gcm") ? ENC_AES128_GCM : ENC_AES128_CTR);
  int n = (int)vp_range("n", 0, INT32_MAX);
  char* a = vp_buf("in", 16);
  char* b = vp_bool("inPlace") ? a : vp_buf("out", 16);
  int64_t before = g_main->bytes;
  bool r = step(e, a, n, b);
  vp_assert(r == g_updateOk && g_updates == 1 && g_in == a && g_out == b && g_len == n, "each byte goes through the key stream once, in order");
  vp_assert(e->numProcessed_ == (r ? before + n : before) && e->numProcessed_ == g_main->bytes, "and is counted");
}
VP_HARNESS(crypto_encrypt) { bytes<AESEncryptor>(true); }
VP_HARNESS(crypto_decrypt) { bytes<AESDecryptor>(false); }
VP_HARNESS(crypto_tag_now) {
  auto* e = started<AESEncryptor>(true, ENC_AES128_GCM);
  std::string t = e->computeCurrentTag();
  vp_assert(e->started_ && g(e->evpCtx_.get()) == g_main && !g_main->final_ && g_live == 1, "encryption goes on with the same key stream");
  vp_assert(t.size() == (g_copyOk && g_finalOk && g_tagOk ? 16 : 0), "a tag or none");
  vp_assert(t.empty() || g_finals == 1, "the tag covers all bytes so far");
}
VP_HARNESS(crypto_verify) {
  auto* e = started<AESDecryptor>(false, ENC_AES128_GCM);
  std::string t = vp_str("tag");
  bool r = e->verifyTag(t);
  vp_assert(e->started_ && g(e->evpCtx_.get()) == g_main && !g_main->final_ && !g_main->tagSet && g_live == 1, "decryption goes on with the same key stream");
  vp_assert(r == (g_copyOk && t.size() == 16 && g_tagOk && g_finalOk), "a tag is right only if the library verified a whole one against all bytes so far");
  if (r) vp_assert(g_setTag == (const void*)t.data() && g_finals == 1, "this one");
}
VP_HARNESS(crypto_enc_finish) {
  bool gcm = vp_bool("gcm");
  auto* e = started<AESEncryptor>(true, gcm ? ENC_AES128_GCM : ENC_AES128_CTR);
  bool was = e->started_ = vp_bool("started");
  std::string t("old");
  bool r = e->finish(t);
  vp_assert(!e->started_, "encryption ends");
  vp_assert(g_finals == (was ? 1 : 0) && r == (!was || g_finalOk), "once");
  vp_assert(t.size() == (was && gcm && g_finalOk && g_tagOk ? 16 : 0), "with the tag of all bytes");
}
VP_HARNESS(crypto_dec_finish) {
  bool gcm = vp_bool("gcm");
  auto* e = started<AESDecryptor>(false, gcm ? ENC_AES128_GCM : ENC_AES128_CTR);
  bool was = e->started_ = vp_bool("started");
  std::string t = vp_str("tag");
  bool r = e->finish(t);
  vp_assert(!e->started_, "decryption ends");
  vp_assert(r == (!was || (g_finalOk && (!gcm || (t.size() == 16 && g_tagOk)))), "well only if the library verified a whole tag against all bytes");
  if (was && gcm && r) vp_assert(g_setTag == (const void*)t.data() && g_main->final_, "this one");
}
