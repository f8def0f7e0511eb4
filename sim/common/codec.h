// An independent implementation of the splintermail message format, on top of
// OpenSSL only: the oracle side of encryption and decryption.
#pragma once
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/rand.h>
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
#include "rng.h"

namespace codec {

struct Key {
    EVP_PKEY *pkey = nullptr;
    std::string priv_pem, pub_pem, fpr; // fpr is binary
};

inline std::string hex(const std::string &b){
    static const char *d = "0123456789abcdef";
    std::string o;
    for(unsigned char c : b){ o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
inline std::string fingerprint(EVP_PKEY *p){
    X509 *x = X509_new();
    X509_set_pubkey(x, p);
    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    X509_pubkey_digest(x, EVP_sha256(), md, &n);
    X509_free(x);
    return std::string((char*)md, n);
}
inline std::string pub_pem(EVP_PKEY *p){
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_PUBKEY(b, p);
    char *d; long n = BIO_get_mem_data(b, &d);
    std::string o(d, n);
    BIO_free(b);
    return o;
}
inline EVP_PKEY *read_pub(const std::string &pem){
    BIO *b = BIO_new_mem_buf(pem.data(), (int)pem.size());
    EVP_PKEY *p = PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    return p;
}
inline Key load(const char *priv){
    Key k;
    k.priv_pem = priv;
    BIO *b = BIO_new_mem_buf(priv, -1);
    k.pkey = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    if(!k.pkey) abort();
    k.pub_pem = codec::pub_pem(k.pkey);
    k.fpr = fingerprint(k.pkey);
    return k;
}
inline std::string b64(const std::string &in){
    std::string o(4 * ((in.size() + 2) / 3) + 1, 0);
    int n = EVP_EncodeBlock((unsigned char*)&o[0], (const unsigned char*)in.data(), (int)in.size());
    o.resize(n);
    return o;
}
inline bool unb64(const std::string &in, std::string &out){
    if(in.size() % 4) return false;
    out.assign(in.size() / 4 * 3 + 1, 0);
    int n = EVP_DecodeBlock((unsigned char*)&out[0], (const unsigned char*)in.data(), (int)in.size());
    if(n < 0) return false;
    out.resize(n);
    for(int i = 0; i < 2 && (int)in.size() - 1 - i >= 0 && in[in.size() - 1 - i] == '='; i++)
        out.pop_back();
    return true;
}
// RAND is deterministic in the simulator, so this is too
inline std::string encrypt(const std::vector<const Key*> &keys, const std::string &plain){
    size_t n = keys.size();
    std::vector<EVP_PKEY*> pk(n);
    std::vector<std::vector<unsigned char>> ek(n);
    std::vector<unsigned char*> ekp(n);
    std::vector<int> ekl(n);
    for(size_t i = 0; i < n; i++){
        pk[i] = keys[i]->pkey;
        ek[i].resize(EVP_PKEY_size(pk[i]));
        ekp[i] = ek[i].data();
    }
    unsigned char iv[12];
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    if(EVP_SealInit(c, EVP_aes_256_gcm(), ekp.data(), ekl.data(), iv, pk.data(), (int)n) != (int)n) abort();
    std::string body = "V:1\n";
    for(size_t i = 0; i < n; i++){
        body += "R:" + std::to_string(keys[i]->fpr.size()) + ":" + keys[i]->fpr + ":"
            + std::to_string(ekl[i]) + ":" + std::string((char*)ek[i].data(), ekl[i]) + "\n";
    }
    body += "IV:12:" + std::string((char*)iv, 12) + "\nM:";
    std::string ct(plain.size() + 32, 0);
    int a = 0, b = 0;
    EVP_SealUpdate(c, (unsigned char*)&ct[0], &a, (const unsigned char*)plain.data(), (int)plain.size());
    EVP_SealFinal(c, (unsigned char*)&ct[a], &b);
    ct.resize(a + b);
    body += ct;
    unsigned char tag[16];
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag);
    EVP_CIPHER_CTX_free(c);
    std::string enc = b64(body), out = "-----BEGIN SPLINTERMAIL MESSAGE-----\n";
    for(size_t i = 0; i < enc.size(); i += 64) out += enc.substr(i, 64) + "\n";
    out += "=" + b64(std::string((char*)tag, 16)) + "\n";
    out += "-----END SPLINTERMAIL MESSAGE-----\n";
    return out;
}
// the same message with its binary content edited
template<class F> std::string remake(const std::string &msg, F edit){
    size_t h = msg.find('\n') + 1, e = msg.find("\n=", h);
    std::string acc, b;
    for(size_t i = h; i < e; i++) if(msg[i] != '\n') acc += msg[i];
    if(!unb64(acc, b)) return msg;
    edit(b);
    std::string enc = b64(b), out = msg.substr(0, h);
    for(size_t i = 0; i < enc.size(); i += 64) out += enc.substr(i, 64) + "\n";
    return out + msg.substr(e + 1);
}
// fprs: recipients found
inline bool decrypt(const Key &k, const std::string &msg, std::string &plain, std::vector<std::string> *fprs = nullptr){
    const std::string h = "-----BEGIN SPLINTERMAIL MESSAGE-----", f = "-----END SPLINTERMAIL MESSAGE-----";
    if(msg.compare(0, h.size(), h)) return false;
    std::string acc, tag;
    size_t p = msg.find('\n');
    if(p == std::string::npos) return false;
    p++;
    bool got_end = false;
    while(p < msg.size()){
        size_t q = msg.find('\n', p);
        if(q == std::string::npos) q = msg.size();
        std::string l = msg.substr(p, q - p);
        if(!l.empty() && l.back() == '\r') l.pop_back();
        p = q + 1;
        if(l == f){ got_end = true; break; }
        if(!l.empty() && l[0] == '='){ if(!unb64(l.substr(1), tag)) return false; continue; }
        acc += l;
    }
    if(!got_end || tag.size() != 16) return false;
    std::string b;
    if(!unb64(acc, b)) return false;
    size_t i = 0;
    auto expect = [&](const char *s){ size_t n = strlen(s); if(b.compare(i, n, s)) return false; i += n; return true; };
    auto num = [&](){ size_t v = 0; while(i < b.size() && isdigit((unsigned char)b[i])) v = v * 10 + (b[i++] - '0'); if(i < b.size() && b[i] == ':') i++; return v; };
    if(!expect("V:1\n")) return false;
    std::string ek;
    while(b.compare(i, 2, "R:") == 0){
        i += 2;
        size_t n = num(); std::string fp = b.substr(i, n); i += n;
        if(!expect(":")) return false;
        n = num(); std::string e = b.substr(i, n); i += n;
        if(!expect("\n")) return false;
        if(fprs) fprs->push_back(fp);
        if(fp == k.fpr) ek = e;
    }
    if(!expect("IV:")) return false;
    size_t n = num(); std::string iv = b.substr(i, n); i += n;
    if(n != 12 || !expect("\nM:") || ek.empty()) return false;
    std::string ct = b.substr(i);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    bool ok = EVP_OpenInit(c, EVP_aes_256_gcm(), (const unsigned char*)ek.data(), (int)ek.size(), (const unsigned char*)iv.data(), k.pkey) > 0;
    int x = 0, y = 0;
    plain.assign(ct.size() + 32, 0);
    ok = ok && EVP_OpenUpdate(c, (unsigned char*)&plain[0], &x, (const unsigned char*)ct.data(), (int)ct.size()) == 1;
    ok = ok && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_TAG, 16, (void*)tag.data()) == 1;
    ok = ok && EVP_OpenFinal(c, (unsigned char*)&plain[x], &y) == 1;
    EVP_CIPHER_CTX_free(c);
    plain.resize(ok ? x + y : 0);
    return ok;
}

// deterministic RAND
inline Rng &rand_rng(){ static Rng r(1); return r; }
inline int det_bytes(unsigned char *b, int n){
    for(int i = 0; i < n; i++) b[i] = (unsigned char)rand_rng().next();
    return 1;
}
inline int det_status(){ return 1; }
inline void install_rand(){
    static RAND_METHOD m = {nullptr, det_bytes, nullptr, nullptr, det_bytes, det_status};
    RAND_set_rand_method(&m);
}
} // namespace codec
